// F13: every sequence of answers of an objective to the generic optimiser, followed step by step by a model.
#include "lmproto.hpp"
using namespace fg; using namespace proto;
struct Key { bool operator()(const MatX1 &a, const MatX1 &b) const { return std::lexicographical_compare(a.data(), a.data() + a.size(), b.data(), b.data() + b.size()); } };
struct Mock : OptimizerDense {
    MatX1 x, aux;
    std::map<MatX1, double, Key> memo; // the objective answers the same for the same state
    std::function<double()> fresh;     // answer for a state not seen before
    struct Ev { char what; MatX1 x, dx; };
    std::vector<Ev> log;
    int kind;
    Mock(int n, double tol, int k) : OptimizerDense(tol, 123.), kind(k) { x = MatX1::Zero(n); for (int i = 0; i < n; ++i) x(i) = 1 + i; aux = MatX1::Constant(n, 777); }
    matData_t calculate_error() override
    {
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        double e = fresh();
        memo[x] = e;
        return e;
    }
    void calculate_gradient_hessian() override { gradient_ = grad(x, kind); hessian_ = hess(x, kind); log.push_back({'G', x, MatX1()}); }
    void update_state() override { MatX1 x0 = x; x += dx_; log.push_back({'U', x0, dx_}); }
    void bookkeep_state() override { aux = x; log.push_back({'B', x, MatX1()}); }
    void update_state_from_bookkeep() override { x = aux; log.push_back({'R', x, MatX1()}); }
};
struct Solve { int method, max; double lam; };
int main(int argc, char **argv)
{
    vk::Ctx c("F13", argc, argv);
    // runs one answer string over a list of solve calls; returns false when the string was longer than needed
    auto run = [&](int dim, double tol, const std::vector<Solve> &calls, const std::vector<int> &ans, int kind = 0) {
        Mock o(dim, tol, kind);
        size_t used = 0;
        double prev = 500;      // error of the last accepted state
        bool ell = false; int method = 0;
        auto fresh0 = [&]() -> double { return 500; };
        o.fresh = fresh0;
        o.calculate_error();    // the initial error
        auto pick = [&]() { int a = used < ans.size() ? ans[used] : (int)WORSE_LOT; ++used; return a; };
        for (auto &k : calls) {
            method = k.method; ell = method == 2;
            MatX1 start = o.x, cur = o.x;
            double e0 = o.calculate_error();
            prev = e0;
            o.log.clear();
            double lam = k.lam;
            // the objective answers when the optimiser has just moved to a state never evaluated; prev follows acceptance
            o.fresh = [&]() -> double {
                for (size_t i = o.log.size(); i-- > 0;) if (o.log[i].what == 'U') {
                    MatX H = hess(o.log[i].x, kind); MatX1 g = grad(o.log[i].x, kind);
                    double mis, l = method ? infer(H, g, o.log[i].dx, ell, mis) : 0;
                    double e = answer(pick(), prev, predicted(H, g, o.log[i].dx, ell, l), tol);
                    if (method == 0 || prev - e >= 0) prev = e;
                    return e;
                }
                return 500;
            };
            int it = (int)o.Optimizer::solve((Optimizer::optimMethod)method, k.max, k.lam);
            ++c.traces;
            // ---- replay of the log against the protocol
            int trials = 0;
            double perr = e0;
            MatX1 expect = start;
            bool done = false;
            auto where = [&](const char *w) { std::string s; for (size_t i = 0; i < used && i < ans.size(); ++i) s += std::string(aname(ans[i])) + ", "; return std::string(w) + " (trial " + std::to_string(trials) + ", answers: " + s + ")"; };
            bool booked = false;
            MatX1 bookedAt;
            size_t ev = 0;
            int expectedit = 0;
            while (ev < o.log.size()) {
                auto &e = o.log[ev];
                if (e.what == 'G') { VK_REQ((e.x.array() == expect.array()).all() || done, "%s", where("derivatives are evaluated at a state other than the current estimate").c_str()); }
                if (e.what == 'B') { booked = true; bookedAt = e.x; }
                if (e.what == 'U') {
                    VK_REQ(!done, "%s", where("a further step was taken after the solve should have ended").c_str());
                    ++trials;
                    ++c.transitions;
                    VK_REQ((e.x.array() == expect.array()).all(), "%s", where("the step starts at a state other than the last accepted one").c_str());
                    MatX H = hess(e.x, kind); MatX1 g = grad(e.x, kind);
                    double mis, l;
                    if (method == 0) { l = 0; MatX1 want = -H.fullPivLu().solve(g); mis = (e.dx - want).norm() / want.norm(); c.near("full Newton step", mis, 1e-9); }
                    else {
                        VK_REQ(booked && (bookedAt.array() == e.x.array()).all(), "%s", where("the state was not saved before the step").c_str());
                        l = infer(H, g, e.dx, ell, mis);
                        if (kind == 0) {
                            c.near("step solves the damped Newton system", mis, 1e-9);
                            c.near("damping of the step", std::fabs(l - lam) / (1e-3 + lam), 1e-6);
                        } else {
                            MatX Hd = H;
                            for (int i = 0; i < dim; ++i) Hd(i, i) = ell ? H(i, i) * (1 + lam) : H(i, i) + lam;
                            MatX1 r = Hd * e.dx + g, s = Hd.cwiseAbs() * e.dx.cwiseAbs() + g.cwiseAbs();
                            for (int i = 0; i < dim; ++i) c.near("step solves the damped Newton system, every equation at its scale", std::fabs(r(i)), 1e-8 * s(i));
                            l = lam;
                        }
                    }
                    MatX1 next = e.x + e.dx;
                    auto m = o.memo.find(next);
                    VK_REQ(m != o.memo.end(), "%s", where("the error of the trial state was not evaluated").c_str());
                    double err = m->second, diff = perr - err;
                    c.state(vk::Hash().i(method).d(std::log2(lam + 1e-30)).d(diff).i(trials).h);
                    if (method == 0) {
                        expect = next; perr = err;
                        if (!(std::fabs(diff) > tol) || trials >= k.max) { done = true; expectedit = trials; }
                    } else if (!(diff >= 0)) {
                        lam *= 2;
                        if (trials >= k.max) { done = true; expectedit = trials; }
                    } else {
                        expect = next; perr = err;
                        if (diff < tol) { done = true; expectedit = trials; }
                        else {
                            double pred = predicted(H, g, e.dx, ell, l), f = diff / pred;
                            if (f < .25) lam *= 2;
                            if (f > .8) lam *= .25;
                            if (trials >= k.max) { done = true; expectedit = trials; }
                        }
                    }
                    booked = false;
                }
                ++ev;
            }
            c.req(done, where("the solve ended although the protocol continues").c_str());
            c.req(it == expectedit, where(vk::fmt("returned %d iterations, expected %d", it, expectedit).c_str()).c_str());
            c.req((o.x.array() == expect.array()).all(), where("the final state is not the last accepted one").c_str());
            double ef = o.calculate_error();
            if (method) c.req(ef <= e0, where("the error at return is above the initial one").c_str());
            if (!(std::fabs(ef) < 1e200)) break;
        }
        return used >= ans.size();
    };
    const int D = c.thorough ? 5 : 4;
    std::vector<int> dims = {1, 2, 3};
    std::vector<double> lams = {1e-5, 1, 1e3};
    std::vector<double> tols = {1e-4};
    if (c.thorough) { lams.push_back(0.03); dims.push_back(6); }
    // one call: all answer strings for every limit
    for (int method : {1, 2}) for (int dim : dims) for (double lam : lams) for (int a0 = 0; a0 < NANS; ++a0) for (int a1 = 0; a1 < NANS; ++a1)
        c.each([&] { return vk::fmt("%s, dimension %d, lambda %g: all answers starting %s, %s", method == 1 ? "spherical" : "elliptic", dim, lam, aname(a0), aname(a1)); }, [&] {
            vk::sequences(NANS, D - 2, [&](const std::vector<int> &tail) {
                std::vector<int> a = {a0, a1};
                a.insert(a.end(), tail.begin(), tail.end());
                if (tail.empty()) run(dim, 1e-4, {{method, 1, lam}}, {a0});
                return run(dim, 1e-4, {{method, (int)a.size(), lam}}, a);
            });
        });
    // objectives of unusual scale or curvature, so that damping is compared where it is relatively small or large
    for (int kind = 1; kind < 5; ++kind) for (int method : {0, 1, 2}) for (int dim : {1, 2, 3, 5}) for (double lam : {1e-5, 1., 1e3})
        c.each([&] { return vk::fmt("%s objective, method %d, dimension %d, lambda %g: all answers", kindname(kind), method, dim, lam); }, [&] {
            static const std::vector<int> al = {WORSE_LOT, EQUAL, BELOW_TOL, F10, F50, F81, NANV};
            vk::sequences((int)al.size(), c.thorough ? 5 : 4, [&](const std::vector<int> &q) {
                std::vector<int> a;
                for (int x : q) a.push_back(al[x]);
                if (a.empty()) return true;
                return run(dim, 1e-12, {{method, (int)a.size(), lam}}, a, kind);
            });
        });
    // two and three calls in a row, on the same object, with other methods and dampings
    std::vector<std::vector<Solve>> scripts;
    for (int m1 : {0, 1, 2}) for (int m2 : {0, 1, 2}) for (double l : {1e-2, 10.}) { scripts.push_back({{m1, 2, 1e-5}, {m2, 2, l}}); scripts.push_back({{m1, 1, 7}, {m2, 3, l}}); if (c.thorough) scripts.push_back({{m1, 2, 1}, {m2, 1, l}, {m1, 2, 1e-3}}); }
    for (size_t s = 0; s < scripts.size(); ++s) for (int dim : {1, 2}) for (int a0 = 0; a0 < NANV; ++a0)
        c.each([&] { std::string k; for (auto &x : scripts[s]) k += vk::fmt("method %d max %d lambda %g; ", x.method, x.max, x.lam); return k + vk::fmt("dimension %d: all answers starting %s", dim, aname(a0)); }, [&] {
            vk::sequences(NANV, c.thorough ? 4 : 3, [&](const std::vector<int> &tail) {
                std::vector<int> a = {a0};
                a.insert(a.end(), tail.begin(), tail.end());
                return run(dim, 1e-4, scripts[s], a);
            });
        });
    // Newton-Raphson alone, longer strings; other tolerances
    for (double tol : {1e-4, 1., 1e-9}) for (int dim : {1, 3}) for (int max = 1; max <= (c.thorough ? 6 : 5); ++max) for (int method : {0, 1, 2})
        c.each([&] { return vk::fmt("method %d tolerance %g dimension %d limit %d: all answers", method, tol, dim, max); }, [&] {
            static const std::vector<int> al = {WORSE_LOT, EQUAL, BELOW_TOL, ABOVE_TOL, F50, F81};
            vk::sequences((int)al.size(), max, [&](const std::vector<int> &q) {
                std::vector<int> a;
                for (int x : q) a.push_back(al[x]);
                if (a.empty()) return true;
                return run(dim, tol, {{method, max, 1e-2}}, a);
            });
        });
    // decreases of exactly the tolerance: a solve ends below it, not at it (errors and tolerance are whole numbers)
    for (double tol : {0., 1., 4.}) for (int dim : {1, 3}) for (int max = 1; max <= (c.thorough ? 6 : 5); ++max) for (int method : {0, 1, 2})
        c.each([&] { return vk::fmt("method %d tolerance %g dimension %d limit %d: all answers at the edge", method, tol, dim, max); }, [&] {
            static const std::vector<int> al = {WORSE_LOT, EQUAL, AT_TOL, TWICE_TOL};
            vk::sequences((int)al.size(), max, [&](const std::vector<int> &q) {
                std::vector<int> a;
                for (int x : q) a.push_back(al[x]);
                if (a.empty()) return true;
                return run(dim, tol, {{method, max, 1e-2}}, a);
            });
        });
    // long solves: limits well above those of ordinary use, reached by periodic answers
    for (int method : {0, 1, 2}) for (int limit : {33, 40, 150, 333}) for (double lam : {1e-5, 1e3}) for (int dim : {2})
        periodic(c.thorough ? 3 : 2, lam, 1e100, limit, [&](const std::vector<int> &a, const std::string &w) {
            c.each([&] { return vk::fmt("method %d, dimension %d, lambda %g, limit %d: repeatedly ", method, dim, lam, limit) + w; }, [&] { run(dim, 1e-4, {{method, limit, lam}}, a); });
        });
    return c.finish();
}
