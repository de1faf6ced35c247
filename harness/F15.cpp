// F15: every sequence of errors that factors may report to the sparse Levenberg-Marquardt, followed by a model.
#include "lmproto.hpp"
using namespace fg; using namespace proto;
struct Key { bool operator()(const MatX1 &a, const MatX1 &b) const { return std::lexicographical_compare(a.data(), a.data() + a.size(), b.data(), b.data() + b.size()); } };
struct World {
    std::vector<PN> n;
    std::map<MatX1, double, Key> memo;
    std::vector<std::pair<char, MatX1>> log;
    std::function<double()> fresh;
    MatX1 x() const { int d = 0; for (auto &p : n) d += p->get_dim(); MatX1 r(d); d = 0; for (auto &p : n) { r.segment(d, p->get_dim()) = MatX(p->get_state()).col(0); d += p->get_dim(); } return r; }
    double error()
    {
        MatX1 s = x();
        auto it = memo.find(s);
        if (it != memo.end()) return it->second;
        log.push_back({'T', s});
        double e = fresh();
        memo[s] = e;
        return e;
    }
};
// square, well conditioned: residual and Jacobian vary with the state
struct Scripted : Factor {
    World &w; double share, sc; MatX1 r; MatX J, W, obs; int salt;
    Scripted(World &w_, int dim, double share_, int salt_, double sc_) : Factor(dim, dim), w(w_), share(share_), sc(sc_), salt(salt_)
    {
        for (auto &p : w.n) neighbourNodes_.push_back(p);
        r = MatX1::Zero(dim); J = MatX::Zero(dim, dim); W = spd(dim, salt ? 1 : 2).cast<double>(); obs = MatX::Zero(dim, 1);
    }
    // in terms of y = sc * x
    static MatX1 res(const MatX1 &x0, int salt, double sc) { MatX1 x = sc * x0; MatX1 r(x.size()); for (int i = 0; i < r.size(); ++i) r(i) = 40 * (1 + i) * std::cos(.7 * i + salt + .01 * x.sum()) + .5 * x(i); return r; }
    static MatX jacobian(const MatX1 &x0, int salt, double sc) { MatX1 x = sc * x0; int n = x.size(); MatX A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = .7 * std::sin(1.3 * i + 2.1 * j + salt + .02 * x(i)) + (i == j ? 1.6 : 0); return sc * A; }
    void evaluate_residuals() override { r = res(w.x(), salt, sc); }
    void evaluate_jacobians() override { MatX1 x = w.x(); r = res(x, salt, sc); J = jacobian(x, salt, sc); if (!salt) w.log.push_back({'G', x}); }
    void evaluate_chi2() override { chi2_ = share * w.error(); }
    const Eigen::Ref<const MatX> get_obs() const override { return obs; }
    const Eigen::Ref<const MatX1> get_residual() const override { return r; }
    const Eigen::Ref<const MatX> get_information_matrix() const override { return W; }
    const Eigen::Ref<const MatX> get_jacobian() const override { return J; }
};
struct Solve { int max; double lam, tol; };
int main(int argc, char **argv)
{
    vk::Ctx c("F15", argc, argv);
    // kinds: dimensions of the nodes (2 or 3: landmarks); two: two factors share the error
    auto run = [&](const std::vector<int> &kinds, bool two, double sc, const std::vector<Solve> &calls, const std::vector<int> &ans) {
        World w;
        FGraphSolve g;
        for (size_t i = 0; i < kinds.size(); ++i) { w.n.push_back(mknode(kinds[i] == 2 ? sv(L2, {1. + i, 2}) : sv(L3, {3, -1. - i, .5}))); g.add_node(w.n.back()); }
        int dim = (int)w.x().size();
        w.fresh = [] { return 500.; };
        std::vector<std::shared_ptr<Scripted>> fs = {std::make_shared<Scripted>(w, dim, two ? .5 : 1., 0, sc)};
        if (two) fs.push_back(std::make_shared<Scripted>(w, dim, .5, 1, sc));
        for (auto &f : fs) { PF p = f; g.add_factor(p); }
        auto normal = [&](const MatX1 &x, MatX &H, MatX1 &b) { H = MatX::Zero(dim, dim); b = MatX1::Zero(dim); for (auto &f : fs) { MatX J = Scripted::jacobian(x, f->salt, sc); H += J.transpose() * f->W * J; b += J.transpose() * f->W * Scripted::res(x, f->salt, sc); } };
        w.error();
        size_t used = 0;
        auto pick = [&]() { int a = used < ans.size() ? ans[used] : (int)WORSE_LOT; ++used; return a; };
        for (auto &k : calls) {
            MatX1 start = w.x(), cur = start;
            double e0 = w.error(), prev = e0;
            w.log.clear();
            w.fresh = [&]() -> double {
                MatX H; MatX1 b;
                normal(cur, H, b);
                double mis;
                MatX1 dx = cur - w.log.back().second; // states move by minus dx
                MatX1 nb = -b;
                double l = infer(H, nb, dx, false, mis);
                double e = answer(pick(), prev, predicted(H, nb, dx, false, l), k.tol);
                if (prev - e >= 0) { prev = e; cur = w.log.back().second; }
                return e;
            };
            g.solve(FGraphSolve::LM, k.max, k.lam, k.tol);
            ++c.traces;
            MatX1 expect = start;
            double lam = k.lam, perr = e0;
            int trials = 0;
            bool done = false;
            auto where = [&](const char *m) { std::string s; for (size_t i = 0; i < used && i < ans.size(); ++i) s += std::string(aname(ans[i])) + ", "; return std::string(m) + " (trial " + std::to_string(trials) + ", answers: " + s + ")"; };
            // a step to a state evaluated before reuses its error and is not in the log; such a run is not followed further
            std::vector<MatX1> seen = {start};
            bool vague = false;
            auto known = [&](const MatX1 &x, double l) {
                MatX H; MatX1 b;
                normal(x, H, b);
                for (int i = 0; i < dim; ++i) H(i, i) += l;
                MatX1 next = x - MatX1(H.fullPivLu().solve(b));
                for (auto &s : seen) if ((s - next).norm() < 1e-9 * (1 + next.norm())) return true;
                return false;
            };
            for (auto &e : w.log) {
                if (e.first == 'G') { if (!done) c.req((e.second.array() == expect.array()).all(), where("the problem is linearised at a state other than the last accepted one").c_str()); continue; }
                c.req(!done, where("a further step was taken after the solve should have ended").c_str());
                if (known(expect, lam)) { vague = true; break; }
                seen.push_back(e.second);
                ++trials; ++c.transitions;
                MatX H; MatX1 b;
                normal(expect, H, b);
                MatX1 dx = expect - e.second, nb = -b;
                double mis, l = infer(H, nb, dx, false, mis);
                c.near("step solves the damped normal equations", mis, 1e-8);
                c.near("damping of the step", std::fabs(l - lam) / (1e-2 * sc * sc + lam), 1e-5);
                double err = w.memo[e.second], diff = perr - err;
                c.state(vk::Hash().d(std::log2(lam + 1e-30)).d(diff).i(trials).i(dim).h);
                if (!(diff >= 0)) { lam *= 2; if (trials >= k.max) done = true; }
                else {
                    expect = e.second; perr = err;
                    if (diff < k.tol) done = true;
                    else {
                        double f = diff / predicted(H, nb, dx, false, l);
                        if (f < .25) lam *= 2;
                        if (f > .8) lam *= .25;
                        if (trials >= k.max) done = true;
                    }
                }
            }
            if (vague || (!done && known(expect, lam))) continue;
            c.req(done, where("the solve ended although the protocol continues").c_str());
            c.req((w.x().array() == expect.array()).all(), where("the final state is not the last accepted one").c_str());
            c.req(w.error() <= e0, where("the error at return is above the initial one").c_str());
        }
        return used >= ans.size();
    };
    const int D = c.thorough ? 5 : 4;
    std::vector<std::vector<int>> kinds = {{2}, {2, 3}};
    if (c.thorough) kinds.push_back({3, 2, 2});
    for (auto &kk : kinds) for (int two = 0; two < 2; ++two) for (double sc : {1., 3e-6, 1e4}) for (double lam0 : {1e-6, 1., 1e3}) for (int a0 = 0; a0 < NANS; ++a0) for (int a1 = 0; a1 < NANS; ++a1)
        {
        const double lam = lam0 * sc * sc;
        c.each([&] { return vk::fmt("%zu nodes, %d factors, Jacobians scaled by %g, lambda %g: all answers starting %s, %s", kk.size(), two + 1, sc, lam, aname(a0), aname(a1)); }, [&] {
            vk::sequences(NANS, (two || kk.size() > 1 ? D - 1 : D) - 2, [&](const std::vector<int> &tail) {
                std::vector<int> a = {a0, a1};
                a.insert(a.end(), tail.begin(), tail.end());
                if (tail.empty()) run(kk, two, sc, {{1, lam, 1e-2}}, {a0});
                return run(kk, two, sc, {{(int)a.size(), lam, 1e-2}}, a);
            });
        });
    }
    std::vector<std::vector<Solve>> scripts;
    for (double l : {1e-4, 10.}) for (int m1 : {1, 2}) for (int m2 : {1, 2, 3}) for (double tol : {1e-2, 1e-5}) scripts.push_back({{m1, 1e-3, tol}, {m2, l, 1e-2}});
    for (size_t s = 0; s < scripts.size(); ++s) for (int a0 = 0; a0 < NANV; ++a0)
        c.each([&] { std::string k; for (auto &x : scripts[s]) k += vk::fmt("limit %d lambda %g tolerance %g; ", x.max, x.lam, x.tol); return k + "all answers starting " + aname(a0); }, [&] {
            vk::sequences(NANV, c.thorough ? 3 : 2, [&](const std::vector<int> &tail) {
                std::vector<int> a = {a0};
                a.insert(a.end(), tail.begin(), tail.end());
                return run({2}, false, 1, scripts[s], a);
            });
        });
    // decreases of exactly the tolerance: the solve ends below it, not at it (errors and tolerance are whole numbers)
    for (double tol : {0., 1., 4.}) for (int two = 0; two < 2; ++two) for (int max = 1; max <= (c.thorough ? 6 : 5); ++max)
        c.each([&] { return vk::fmt("%d factors, tolerance %g limit %d: all answers at the edge", two + 1, tol, max); }, [&] {
            static const std::vector<int> al = {WORSE_LOT, EQUAL, AT_TOL, TWICE_TOL};
            vk::sequences((int)al.size(), max, [&](const std::vector<int> &q) {
                std::vector<int> a;
                for (int x : q) a.push_back(al[x]);
                if (a.empty()) return true;
                return run({2}, two, 1, {{max, 1e-2, tol}}, a);
            });
        });
    // long solves, reached by periodic answers
    for (double sc : {1., 1e4}) for (int limit : {40, 150, 333}) for (double lam : {1e-6, 1e3})
        periodic(c.thorough ? 3 : 2, lam * sc * sc, 1e7 * sc * sc, limit, [&](const std::vector<int> &a, const std::string &w) {
            c.each([&] { return vk::fmt("Jacobians scaled by %g, lambda %g, limit %d: repeatedly ", sc, lam * sc * sc, limit) + w; }, [&] { run({2}, false, sc, {{limit, lam * sc * sc, 1e-3}}, a); });
        });
    return c.finish();
}
