// F06: every anchor set of every problem; solvers against the same problem in which the anchored variables
// are constants compiled into the factors.
#include "wrapfac.hpp"
using namespace fg; using namespace prob;
static void call(FGraphSolve &g, int m, int it, double lam)
{
    if (m == 0) g.solve(FGraphSolve::GN);
    else g.solve(FGraphSolve::LM, it, lam, 1e-6);
}
static void call(FGraphSolveDense &g, int m, int it, double lam)
{
    static const Optimizer::optimMethod om[] = {Optimizer::NEWTON_RAPHSON, Optimizer::LEVENBERG_MARQUARDT_SPHER, Optimizer::LEVENBERG_MARQUARDT_ELLIP};
    g.Optimizer::solve(om[m], it, lam);
}
static double err(FGraphSolve &g) { return g.chi2(true); }
static double err(FGraphSolveDense &g) { return g.calculate_error(); }
static int columns(FGraphSolve &g) { return MatX(g.get_adjacency_matrix()).cols(); }
struct Exp : FGraphSolveDense { int cols() { return gradient_.size(); } };
static int columns(Exp &g) { return g.cols(); }
struct Call { int m, it; double lam; };
template <class G> static void run(vk::Ctx &c, const Problem &p, const std::vector<int> &np, const std::vector<int> &fp, const std::vector<Call> &calls)
{
    std::function<void(decltype(build<G>(p, np, fp)) &, const Problem &, int)> go = [&](decltype(build<G>(p, np, fp)) &a, const Problem &p, int again) {
    auto r = reduce<G>(p, np, fp);
    if (r.nf == 0) return;
    int dim = 0;
    for (size_t v = 0; v < p.x.size(); ++v) if (!p.anchor[v]) dim += vdim(p.x[v].k);
    c.req((int)a.g->get_dimension_state() == dim, "anchored nodes are not part of the state dimension");
    std::vector<MatX> first;
    for (auto &n : a.n) first.push_back(n->get_state());
    for (auto &k : calls) {
        call(*a.g, k.m, k.it, k.lam);
        call(*r.g, k.m, k.it, k.lam);
        ++c.transitions; ++c.traces;
        c.req(columns(*a.g) == dim, "anchored nodes contribute no columns");
        vk::Hash h;
        for (size_t v = 0; v < p.x.size(); ++v) {
            MatX now = a.n[v]->get_state();
            h.m(now);
            if (p.anchor[v]) { c.req((now.array() == first[v].array()).all(), "anchored node keeps its exact state"); continue; }
            St s = p.x[v];
            load(s, r.n[v]->get_state());
            double sc = mag(s);
            bool wild = !(sc < 1e6); // a diverging iteration amplifies rounding
            for (int i = 0; i < now.size(); ++i) if (!std::isfinite(now.data()[i])) wild = true;
            if (wild) return;
            c.near("free node as with a constant", sdist(s, now), (again == 2 ? 1e-7 : 1e-5) * sc);
        }
        double ea = err(*a.g), er = err(*r.g) + (double)r.constant;
        c.near("total error as with a constant", std::fabs(ea - er), (again == 2 ? 1e-7 : 1e-5) * (1 + std::fabs(er)));
        c.state(h.h);
        if (again < 2) break;
    }
    if (again <= 0 || p.x.size() > 8) return;
    for (auto &f : p.f) if (f.robust) return; // iterating from poor states with redescending kernels amplifies rounding
    // the user moves the anchors (and the free nodes), and goes on
    Problem q = p;
    for (size_t v = 0; v < p.x.size(); ++v) {
        VX e(vdim(p.x[v].k));
        for (int i = 0; i < e.size(); ++i) e(i) = (p.anchor[v] ? .3 : again == 1 ? .4 : .8) * rnd((int)v + 5 * again, i);
        if (p.x[v].k == PL) e *= .3;
        St s = update(p.x[v], e);
        MatX m = val(s);
        a.n[v]->set_state(m);
        load(q.x[v], a.n[v]->get_state());
        if (p.anchor[v]) { c.req(sdist(s, a.n[v]->get_state()) < 1e-12 * mag(s), "the state of an anchor can be set"); }
    }
    std::vector<int> vid(p.x.size()), fid = iota((int)p.f.size());
    for (size_t i = 0; i < np.size(); ++i) vid[np[i]] = (int)i;
    double cond;
    Lin l = linearise(q, q.x, vid, fid);
    solve(l.H, l.b, cond);
    if (cond < 1e5) go(a, q, again - 1);
    };
    auto a = build<G>(p, np, fp);
    go(a, p, 2);
}
int main(int argc, char **argv)
{
    vk::Ctx c("F06", argc, argv);
    const int D = c.thorough ? 4 : 3;
    std::vector<Cfg> cfgs(c.thorough ? 3 : 2);
    cfgs[0].noise = .1; cfgs[0].init = .2; cfgs[0].info = 5;
    cfgs[1].noise = .3; cfgs[1].init = .3; cfgs[1].robust = 5; cfgs[1].prior = false;
    if (c.thorough) { cfgs[2].noise = 0; cfgs[2].init = .5; cfgs[2].info = 2; cfgs[2].prior = false; }
    std::vector<std::vector<Call>> sparse = {{{0, 1, 0}, {0, 1, 0}}, {{1, 1, 1e-3}, {0, 1, 0}, {1, 4, 1e-2}}, {{1, 3, 10}, {1, 1, 1e-6}}};
    std::vector<std::vector<Call>> dense = {{{0, 1, 0}, {1, 2, 1e-2}}, {{1, 3, 1}, {2, 2, 1e-2}}, {{2, 3, 1e-3}, {0, 2, 0}}};
    auto all = [&](const Grown &g0, const Cfg &cf) {
        int n = (int)g0.p.x.size();
        std::vector<std::vector<bool>> sets;
        if (n < 9) for (int m = 1; m < (1 << n) - 1; ++m) { std::vector<bool> a; for (int v = 0; v < n; ++v) a.push_back((m >> v) & 1); sets.push_back(a); }
        else for (int k = 0; k < 8; ++k) { // first, last, first half, second half, every second (either), every third, all but one
            std::vector<bool> a;
            for (int v = 0; v < n; ++v) { const bool in[] = {v == 0, v == n - 1, v < n / 2, v >= n / 2, v % 2 == 0, v % 2 == 1, v % 3 == 1, v != n / 2}; a.push_back(in[k] || g0.p.anchor[v]); }
            sets.push_back(a);
        }
        for (size_t mask = 0; mask < sets.size(); ++mask) {
            Grown g = g0;
            bool sub = true;
            for (int v = 0; v < n; ++v) { if (g0.p.anchor[v] && !sets[mask][v]) sub = false; g.p.anchor[v] = sets[mask][v]; }
            if (!sub) continue;
            // without a prior, the first pose of a tree is determined only if something it leads to is anchored
            for (auto &np : orders(g.p)) for (int dn = 0; dn < 2; ++dn)
                c.each([&] { return g.p.name + "; " + cf.str() + vk::fmt("; anchored set %zu; ", mask) + (dn ? "dense" : "sparse") + "; nodes inserted " + vk::str(np); }, [&] {
                    std::vector<int> vid(n), fid = iota((int)g.p.f.size());
                    for (int i = 0; i < n; ++i) vid[np[i]] = i;
                    Lin l = linearise(g.p, g.p.x, vid, fid);
                    double cond;
                    if (l.M == 0) return;
                    solve(l.H, l.b, cond);
                    if (!(cond < 1e7)) { ++c.evals; return; } // not well posed at this state
                    std::vector<int> fp = iota((int)g.p.f.size());
                    if (dn) for (auto &s : dense) run<Exp>(c, g.p, np, fp, s);
                    else for (auto &s : sparse) run<FGraphSolve>(c, g.p, np, fp, s);
                });
        }
    };
    for (int three = 0; three < 2; ++three) for (auto &cf : cfgs)
        vk::sequences(three ? N3 : N2, D, [&](const std::vector<int> &s) {
            Grown g;
            if (!grow(three, s, cf, g)) return false;
            all(g, cf);
            return c.mine();
        });
    for (int three = 0; three < 2; ++three) for (auto &cf : cfgs)
        longs(three, 2, c.thorough ? std::vector<int>{9, 14, 25} : std::vector<int>{11}, cf, [&](const Grown &g) { if (g.p.x.size() > 8) all(g, cf); });
    for (auto &cf : cfgs) for (int i = 0; i < N2; ++i) for (int j = 0; j < N3; ++j) {
        Grown a, b;
        if (grow(false, {i}, cf, a) && grow(true, {j}, cf, b)) all(join(a, b), cf);
    }
    return c.finish();
}
