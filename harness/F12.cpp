// F12: dense solver against reference normal equations and against the sparse solver, on the gadget grammar.
#include "problems.hpp"
using namespace fg; using namespace prob;
struct Dense : FGraphSolveDense { const MatX &H() { return hessian_; } const MatX1 &g() { return gradient_; } };
static bool finite(const std::vector<St> &x) { for (auto &s : x) { MatX m = val(s); for (int i = 0; i < m.size(); ++i) if (!(std::fabs(m.data()[i]) < 1e9)) return false; } return true; }
int main(int argc, char **argv)
{
    vk::Ctx c("F12", argc, argv);
    const int D = c.thorough ? 4 : 3;
    auto cfg = [](double noise, double init, int rob, int info, bool prior, int anch) { Cfg k; k.noise = noise; k.init = init; k.robust = rob; k.info = info; k.prior = prior; k.anchors = anch; return k; };
    std::vector<Cfg> cfgs = {cfg(.1, .2, 0, 5, true, 0), cfg(.4, .6, 5, 2, true, 2), cfg(.2, .4, 0, 5, false, 1), cfg(.2, 1.5, 0, 5, true, 0)};
    if (c.thorough) { cfgs.push_back(cfg(.3, .3, 3, 1, true, 5)); cfgs.push_back(cfg(0, .3, 0, 0, false, 0)); }
    auto newton = [&](const Grown &g, const std::vector<int> &np, bool rev) {
        const Problem &p = g.p;
        int nv = (int)p.x.size(), nf = (int)p.f.size();
        std::vector<int> fp = iota(nf);
        if (rev) std::reverse(fp.begin(), fp.end());
        auto s = build<FGraphSolve>(p, np, fp);
        auto d = build<Dense>(p, np, fp);
        for (int k = 0; k < 2; ++k) {
            std::vector<St> x = p.x;
            current(d, x);
            Lin l = linearise(p, x, d.vid, d.fid);
            if (l.N == 0) return;
            double sx = scale(x), sw = 1e-300 + (double)ref::mabs(l.W), sj = 1 + (double)ref::mabs(l.A);
            for (int v = 0; v < nv; ++v) s.n[v]->set_state(MatX(d.n[v]->get_state())); // both solvers step from the same states
            double e = d.g->calculate_error(), q = s.g->chi2(true);
            c.near("total error (dense)", std::fabs(e - (double)l.chi2), 1e-8 * sx * (1 + (double)l.chi2));
            c.near("total error (sparse)", std::fabs(q - (double)l.chi2), 1e-8 * sx * (1 + (double)l.chi2));
            d.g->calculate_gradient_hessian();
            if (d.g->H().rows() != l.N || d.g->H().cols() != l.N || d.g->g().size() != l.N) VK_FAIL("Hessian %dx%d gradient %d for %d free dimensions", (int)d.g->H().rows(), (int)d.g->H().cols(), (int)d.g->g().size(), l.N);
            c.near("Hessian", ref::dist(d.g->H(), l.H), 1e-9 * sw * sj * sj * sx * l.M);
            c.near("gradient", ref::dist(MatX(d.g->g()), MX(l.b)), 1e-9 * sw * sj * sx * l.M * (1 + (double)l.r.norm()));
            for (int v = 0; v < nv; ++v) c.near("derivatives leave the state alone", sdist(x[v], d.n[v]->get_state()), 1e-300);
            double cond;
            VX dx = solve(l.H, l.b, cond);
            if (!(cond < 1e8)) return;
            uint_t it = d.g->Optimizer::solve(Optimizer::NEWTON_RAPHSON, 1);
            s.g->solve(FGraphSolve::GN);
            ++c.transitions; ++c.traces;
            c.req(it == 1, "one Newton-Raphson iteration was performed");
            std::vector<St> y = step(p, x, l, dx);
            if (!finite(y)) return;
            double tol = sx * (1 + (double)dx.norm()) * (1e-11 * cond + 1e-8);
            vk::Hash h;
            for (int v = 0; v < nv; ++v) {
                double far = y[v].k == P3 && grid::PI - (double)ref::ln3(y[v].T.topLeftCorner<3, 3>()).norm() < 1e-5 ? 2e-6 * sx : 0;
                c.near("Newton step (dense) against reference", sdist(y[v], d.n[v]->get_state()), (p.anchor[v] ? 1e-300 : tol + far));
                St t = y[v]; load(t, s.n[v]->get_state());
                c.near("Newton step (dense) against Gauss-Newton (sparse)", sdist(t, d.n[v]->get_state()), tol + far);
                h.m(MatX(d.n[v]->get_state()));
            }
            c.state(h.h);
        }
    };
    auto lm = [&](const Grown &g, const std::vector<int> &np, bool ell, double lam, std::vector<int> its) {
        const Problem &p = g.p;
        auto d = build<Dense>(p, np, iota((int)p.f.size()));
        for (int it : its) {
            std::vector<St> x = p.x;
            current(d, x);
            L c0 = total(p, x);
            Lin l = linearise(p, x, d.vid, d.fid);
            if (l.N == 0) return;
            uint_t n = d.g->Optimizer::solve(ell ? Optimizer::LEVENBERG_MARQUARDT_ELLIP : Optimizer::LEVENBERG_MARQUARDT_SPHER, it, lam);
            ++c.transitions; ++c.traces;
            c.req(n >= 1 && (int)n <= it, "iterations within the limit");
            std::vector<St> z = p.x;
            current(d, z);
            c.req(finite(z), "states stay finite");
            L c1 = total(p, z);
            c.near("error is not increased", (double)((c1 - c0) / (1 + c0)), 1e-11);
            if (it == 1) {
                MX H = l.H;
                for (int i = 0; i < l.N; ++i) H(i, i) = ell ? H(i, i) * (1 + (L)lam) : H(i, i) + (L)lam;
                double cond;
                VX dx = solve(H, l.b, cond);
                if (cond < 1e7) {
                    std::vector<St> y = step(p, x, l, dx);
                    L cy = total(p, y);
                    double sx = scale(x) + (double)dx.norm(), tol = sx * (1e-10 * cond + 1e-8 * (1 + std::min(1e3, (double)dx.norm())));
                    if (cy < c0 * (1 - 1e-9L) - 1e-12L) for (size_t v = 0; v < x.size(); ++v) c.near("accepted damped step", sdist(y[v], d.n[v]->get_state()), p.anchor[v] ? 1e-300 : tol);
                    else if (cy > c0 * (1 + 1e-9L) + 1e-12L) for (size_t v = 0; v < x.size(); ++v) c.near("rejected damped step is undone", sdist(x[v], d.n[v]->get_state()), 1e-13 * sx);
                }
            }
            vk::Hash h;
            for (auto &n2 : d.n) h.m(MatX(n2->get_state()));
            c.state(h.h);
        }
    };
    auto doit = [&](const Grown &g, const Cfg &k) {
        if (g.p.f.empty()) return;
        auto os = orders(g.p);
        for (auto &np : os) for (int rev = 0; rev < 2; ++rev)
            c.each([&] { return g.p.name + "; " + k.str() + "; nodes inserted " + vk::str(np) + (rev ? "; factors reversed" : ""); }, [&] { newton(g, np, rev); });
        if (k.far < 1e4) for (size_t o = 0; o < os.size() && o < 2; ++o) for (int ell = 0; ell < 2; ++ell) for (double lam : {1e-5, 1e-1, 10., 1e4})
            c.each([&] { return g.p.name + "; " + k.str() + "; nodes inserted " + vk::str(os[o]) + vk::fmt("; %s lambda %g", ell ? "elliptic" : "spherical", lam); }, [&] {
                lm(g, os[o], ell, lam, {1, 1});
                lm(g, os[o], ell, lam, {2});
                lm(g, os[o], ell, lam, {6, 1});
            });
    };
    for (int three = 0; three < 2; ++three) for (auto &k : cfgs)
        vk::sequences(three ? N3 : N2, D, [&](const std::vector<int> &s) {
            Grown g;
            if (!grow(three, s, k, g)) return false;
            doit(g, k);
            return c.mine();
        });
    // long problems, and information matrices of very different scales
    for (int three = 0; three < 2; ++three) for (size_t q = 0; q < cfgs.size(); ++q) {
        Cfg k = cfgs[q];
        longs(three, q < 2 || c.thorough ? 2 : 1, c.thorough ? std::vector<int>{6, 11, 19} : std::vector<int>{8}, k, [&](const Grown &g) { doit(g, k); });
        for (k.ws = 1; k.ws <= 3; ++k.ws) longs(three, c.thorough ? 2 : 1, {3}, k, [&](const Grown &g) { doit(g, k); });
    }
    // several hundred state dimensions
    for (int three = 0; three < 2; ++three)
        longs(three, 1, {three ? 46 : 92}, cfgs[0], [&](const Grown &g) {
            auto os = orders(g.p);
            for (size_t i = 0; i < os.size() && (i < 2 || c.thorough); ++i)
                c.each([&] { return g.p.name + "; " + cfgs[0].str() + vk::fmt("; order %zu", i); }, [&] { c.slow(20); newton(g, os[i], i & 1); });
        });
    // more than 256 nodes
    longs(0, 1, {262}, cfgs[0], [&](const Grown &g) {
        if (g.p.name.find("landmark") == std::string::npos || c.thorough)
            c.each([&] { return g.p.name + "; " + cfgs[0].str(); }, [&] { c.slow(20); newton(g, orders(g.p).back(), false); });
    });
    // steps of great length: initial positions far away
    for (double far : {30., 1e3, 1e5}) for (int three = 0; three < 2; ++three) for (int prior = 0; prior < 2; ++prior)
        vk::sequences(three ? N3 : N2, c.thorough ? 2 : 1, [&](const std::vector<int> &s) {
            Cfg k = cfg(.1, .1, 0, 0, prior, prior ? 0 : 1);
            k.far = far;
            Grown g;
            if (!grow(three, s, k, g)) return false;
            doit(g, k);
            return true;
        });
    for (auto &k : cfgs) for (int i = 0; i < N2; ++i) for (int j = 0; j < N3; ++j) {
        Grown a, b;
        if (grow(false, {i}, k, a) && grow(true, {j}, k, b)) doit(join(a, b), k);
    }
    return c.finish();
}
