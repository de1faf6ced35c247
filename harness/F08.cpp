// F08: all insertion orders of nodes and factors, and rigid motions of whole problems.
#include "problems.hpp"
using namespace fg; using namespace prob;
static bool ok(const MatX &m) { for (int i = 0; i < m.size(); ++i) if (!(std::fabs(m.data()[i]) < 1e6)) return false; return true; }
struct Trace { std::vector<std::vector<MatX>> x; std::vector<double> chi; }; // after each call, by variable
// script: 0 three GN; 1 LM then GN; 2 many GN (convergence)
static Trace solve_all(vk::Ctx &c, const Problem &p, const std::vector<int> &np, const std::vector<int> &fp, int script)
{
    auto b = build<FGraphSolve>(p, np, fp);
    Trace t;
    auto snap = [&] { std::vector<MatX> v; for (auto &n : b.n) v.push_back(n->get_state()); t.x.push_back(v); t.chi.push_back(b.g->chi2(true)); ++c.transitions; };
    snap();
    if (script == 0) for (int i = 0; i < 3; ++i) { b.g->solve(FGraphSolve::GN); snap(); }
    if (script == 1) { b.g->solve(FGraphSolve::LM, 4, 1e-1, 1e-7); snap(); b.g->solve(FGraphSolve::GN); snap(); }
    if (script == 2) { for (int i = 0; i < 10; ++i) b.g->solve(FGraphSolve::GN); snap(); }
    ++c.traces;
    return t;
}
static void compare(vk::Ctx &c, const Problem &p, const Trace &a, const Trace &b, double tol, const char *what)
{
    for (size_t k = 0; k < a.x.size(); ++k) {
        double sc = 1;
        for (size_t v = 0; v < p.x.size(); ++v) {
            if (!ok(a.x[k][v])) return; // diverges: rounding is amplified without bound
            St s = p.x[v];
            load(s, a.x[k][v]);
            sc = std::max(sc, mag(s));
        }
        for (size_t v = 0; v < p.x.size(); ++v) {
            St s = p.x[v];
            load(s, a.x[k][v]);
            c.near(vk::fmt("%s: states", what).c_str(), sdist(s, b.x[k][v]), tol * sc);
        }
        c.near(vk::fmt("%s: chi2", what).c_str(), std::fabs(a.chi[k] - b.chi[k]), tol * sc * (1 + a.chi[k]));
        vk::Hash h; for (auto &m : a.x[k]) h.m(m);
        c.state(h.h);
    }
}
static Problem moved(const Problem &p, const ref::M4 &G, L heading)
{
    Problem q = p;
    ref::M3 R = G.topLeftCorner<3, 3>();
    ref::V3 t = G.topRightCorner<3, 1>();
    auto pose2 = [&](VX v) { ref::V3 x(v(0), v(1), 0); x = R * x + t; VX r(3); r << (L)(double)x(0), (L)(double)x(1), (L)(double)ref::wrap(v(2) + heading); return r; };
    for (auto &s : q.x) switch (s.k) {
    case P2: s.v = pose2(s.v); break;
    case L2: { ref::V3 x(s.v(0), s.v(1), 0); x = R * x + t; s.v = vx({(double)x(0), (double)x(1)}); break; }
    case P3: s.T = (G * s.T).cast<double>().cast<L>().eval(); break;
    case L3: { ref::V3 x = R * ref::V3(s.v) + t; s.v = vx({(double)x(0), (double)x(1), (double)x(2)}); break; }
    case PL: { ref::V3 n = R * ref::V3(s.v.head(3)); s.v = vx({(double)n(0), (double)n(1), (double)n(2), (double)(s.v(3) - n.dot(t))}); break; }
    }
    for (auto &f : q.f) {
        if (f.k == F1P2) f.z = pose2(f.z);
        if (f.k == F1P3) f.Tz = (G * f.Tz).cast<double>().cast<L>().eval();
        if (f.k == FPT) { ref::V3 y = R * ref::V3(f.z.segment(3, 3)) + t, n = R * ref::V3(f.z.segment(6, 3)); f.z.segment(3, 3) = y; f.z.segment(6, 3) = n; f.z = f.z.cast<double>().cast<L>().eval(); }
    }
    return q;
}
static bool three(const Problem &p) { for (auto &s : p.x) if (s.k == P3) return true; return false; } // re-generation of 3D poses loses precision near half a turn
static Trace moved(const Problem &p, Trace t, const ref::M4 &G, L heading)
{
    for (auto &k : t.x) {
        Problem q; q.x = p.x; q.anchor = p.anchor;
        for (size_t v = 0; v < p.x.size(); ++v) load(q.x[v], k[v]);
        Problem r = moved(q, G, heading);
        for (size_t v = 0; v < p.x.size(); ++v) k[v] = val(r.x[v]);
    }
    return t;
}
int main(int argc, char **argv)
{
    vk::Ctx c("F08", argc, argv);
    const int D = c.thorough ? 4 : 3;
    auto cfg = [](double noise, double init, int rob, int info, bool prior, int anch) { Cfg k; k.noise = noise; k.init = init; k.robust = rob; k.info = info; k.prior = prior; k.anchors = anch; return k; };
    auto posed = [](const Problem &p) {
        std::vector<int> id = iota((int)p.x.size());
        Lin l = linearise(p, p.x, id, iota((int)p.f.size()));
        double cond = INFINITY;
        if (l.N && l.M) solve(l.H, l.b, cond);
        return cond < 1e7;
    };
    std::vector<Cfg> cfgs = {cfg(.1, .2, 0, 5, true, 0), cfg(.2, .3, 5, 2, true, 0), cfg(.1, .3, 1, 5, false, 1), cfg(0, .15, 0, 5, true, 0)};
    auto permute = [&](const Grown &g, const Cfg &k) {
        int nf = (int)g.p.f.size();
        auto ords = orders(g.p, g.p.x.size() <= (c.thorough ? 5u : 4u));
        if (!posed(g.p)) return;
        std::vector<std::vector<int>> fos;
        if (nf <= (c.thorough && g.p.x.size() < 5 ? 4 : 3)) vk::permutations(nf, [&](const std::vector<int> &q) { fos.push_back(q); });
        else for (int r = 0; r < nf; r += g.p.x.size() < 5 ? 1 : nf < 8 ? 3 : nf / 2 + 1) { std::vector<int> f = iota(nf); std::rotate(f.begin(), f.begin() + r, f.end()); fos.push_back(f); std::reverse(f.begin(), f.end()); fos.push_back(f); }
        for (auto &np : ords)
            c.each([&] { return g.p.name + "; " + k.str() + "; nodes inserted " + vk::str(np) + vk::fmt("; %zu factor orders", fos.size()); }, [&] {
                std::vector<int> at(np.size());
                for (size_t i = 0; i < np.size(); ++i) at[np[i]] = (int)i;
                bool swapped = false;
                for (auto &f : g.p.f) if (f.k == F2P3 && (f.a < f.b) != (at[f.a] < at[f.b])) swapped = true;
                std::vector<int> id = iota((int)np.size());
                for (int sc = 0; sc < 3; ++sc) {
                    Trace a = solve_all(c, g.p, id, iota(nf), sc);
                    for (size_t fi = 0; fi < fos.size(); ++fi) {
                        Trace b = solve_all(c, g.p, np, fos[fi], sc);
                        if (!swapped) compare(c, g.p, a, b, 1e-8, "insertion order");
                        else {
                            // the initial chi2 is the same; solutions agree to second order in the residuals
                            c.near("chi2 in another order", std::fabs(a.chi[0] - b.chi[0]), 1e-9 * (1 + a.chi[0]));
                            if (sc == 2 && k.noise == 0) { Trace x, y; x.x = {a.x.back()}; x.chi = {a.chi.back()}; y.x = {b.x.back()}; y.chi = {b.chi.back()}; compare(c, g.p, x, y, 1e-7, "converged solution in another order"); }
                            else if (sc == 2 && k.robust == 0) { Trace x, y; x.x = {a.x.back()}; x.chi = {a.chi.back()}; y.x = {b.x.back()}; y.chi = {b.chi.back()}; compare(c, g.p, x, y, 12 * k.noise * k.noise, "noisy solution in another order"); }
                        }
                    }
                }
            });
    };
    for (int three = 0; three < 2; ++three) for (auto &k : cfgs)
        vk::sequences(three ? N3 : N2, D, [&](const std::vector<int> &s) {
            Grown g;
            if (!grow(three, s, k, g)) return false;
            permute(g, k);
            return c.mine();
        });
    for (auto &k : cfgs) for (int i = 0; i < N2; ++i) for (int j = 0; j < N3; ++j) {
        Grown a, b;
        if (grow(false, {i}, k, a) && grow(true, {j}, k, b)) permute(join(a, b), k);
    }
    // long problems, and information matrices of very different scales
    for (int three = 0; three < 2; ++three) {
        Cfg k = cfgs[three ? 3 : 0];
        longs(three, 2, c.thorough ? std::vector<int>{8, 13, 21} : std::vector<int>{10}, k, [&](const Grown &g) { if (g.p.x.size() > 5) permute(g, k); });
        for (k.ws = 1; k.ws <= 3; ++k.ws) longs(three, 2, {3}, k, [&](const Grown &g) { permute(g, k); });
    }
    // rigid motions
    std::vector<std::pair<ref::M4, L>> planarG, rot, rigid;
    for (double h : {0., .7, -2.5, 3.1, 1.5707963267948966}) for (auto &t : {Mat31(0, 0, 0), Mat31(3, -2, 0), Mat31(-100, 40, 0)}) {
        if (h == 0 && t.norm() == 0) continue;
        ref::V3 w(0, 0, h);
        ref::M4 G = ref::M4::Identity();
        G.topLeftCorner<3, 3>() = ref::exp3(w);
        G.topRightCorner<3, 1>() = t.cast<L>();
        planarG.push_back({G, (L)h});
    }
    for (auto &w : {Mat31(1, 0, 0), Mat31(.3, -.7, 2), Mat31(0, 3, 0), Mat31(-1, -1, .2)}) for (auto &t : {Mat31(0, 0, 0), Mat31(2, -3, 1), Mat31(30, 10, -20)}) {
        ref::V3 ww = w.cast<L>();
        ref::M4 G = ref::M4::Identity();
        G.topLeftCorner<3, 3>() = ref::exp3(ww);
        G.topRightCorner<3, 1>() = t.cast<L>();
        (t.norm() == 0 ? rot : rigid).push_back({G, 0});
    }
    auto iso = [](Problem &p) { // informations without a preferred frame, still different for every factor
        for (size_t i = 0; i < p.f.size(); ++i) {
            Fac &f = p.f[i];
            if (f.k == F1P2 || f.k == FOD) { f.W = MX::Identity(3, 3) * (L)(1 + .5 * i); f.W(2, 2) = 3; }
            if (f.k == F1P3 || f.k == F2P3) { f.W = MX::Identity(6, 6) * (L)(1 + .5 * i); f.W.bottomRightCorner(3, 3) *= 2.5; }
        }
    };
    auto motions = [&](const Grown &g0, const Cfg &k, const std::vector<std::pair<ref::M4, L>> &Gs, bool exact, const char *kind) {
        Grown g = g0;
        iso(g.p);
        if (!posed(g.p)) return;
        for (size_t i = 0; i < Gs.size(); ++i)
            c.each([&] { return g.p.name + "; " + k.str() + vk::fmt("; %s %zu", kind, i); }, [&] {
                Problem q = moved(g.p, Gs[i].first, Gs[i].second);
                for (int sc = exact ? 0 : 2; sc < 3; ++sc) for (auto &np : orders(g.p)) {
                    Trace a = solve_all(c, g.p, np, iota((int)g.p.f.size()), sc), b = solve_all(c, q, np, iota((int)g.p.f.size()), sc);
                    Trace m = moved(g.p, a, Gs[i].first, Gs[i].second);
                    double s = 1 + (double)Gs[i].first.topRightCorner<3, 1>().norm();
                    if (!exact) { m.x.erase(m.x.begin()); m.chi.erase(m.chi.begin()); b.x.erase(b.x.begin()); b.chi.erase(b.chi.begin()); }
                    compare(c, q, m, b, (three(q) || !exact ? 1e-6 : 1e-8) * s, kind);
                }
            });
    };
    for (int three = 0; three < 2; ++three) for (auto &k : cfgs)
        vk::sequences(three ? N3 : N2, D - 1, [&](const std::vector<int> &s) {
            Grown g;
            if (!grow(three, s, k, g)) return false;
            if (!three) motions(g, k, planarG, true, "planar motion");
            else {
                motions(g, k, rot, true, "rotation");
                bool local = !k.prior;
                for (auto &f : g.p.f) if (f.k != FL3 && f.k != FPT) local = false;
                if (local) motions(g, k, rigid, true, "rigid motion of landmark and point observations");
                if (k.noise == 0) motions(g, k, rigid, false, "rigid motion of a consistent problem");
            }
            return c.mine();
        });
    return c.finish();
}
