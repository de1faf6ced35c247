// F07: Levenberg-Marquardt on every problem of the gadget grammar (well posed or not), over initial dampings,
// iteration limits and sequences of calls.
#include "wrapfac.hpp"
using namespace fg; using namespace prob;
struct Call { int it; double lam, tol; bool gn; };
static bool finite(const std::vector<St> &x) { for (auto &s : x) { MatX m = val(s); for (int i = 0; i < m.size(); ++i) if (!std::isfinite(m.data()[i])) return false; } return true; }
static void run(vk::Ctx &c, const Problem &p, const std::vector<int> &np, const std::vector<Call> &calls, bool exact)
{
    int nv = (int)p.x.size(), nf = (int)p.f.size();
    FGraphSolve g;
    std::vector<PN> n(nv);
    std::vector<int> vid(nv), fid = iota(nf);
    for (int v : np) { n[v] = mknode(p.x[v], p.anchor[v] ? Node::ANCHOR : Node::STANDARD); vid[v] = g.add_node(n[v]); }
    std::vector<std::shared_ptr<Probe>> pr;
    for (auto &f : p.f) {
        pr.push_back(std::make_shared<Probe>(mkfactor(f, n[f.a], f.b >= 0 ? n[f.b] : PN()), f.robust));
        PF q = pr.back();
        g.add_factor(q);
    }
    auto states = [&] { std::vector<St> x = p.x; for (int v = 0; v < nv; ++v) load(x[v], n[v]->get_state()); return x; };
    auto hash = [&] { vk::Hash h; for (int v = 0; v < nv; ++v) h.m(MatX(n[v]->get_state())); return h.h; };
    for (auto &k : calls) {
        std::vector<St> x0 = states();
        if (!finite(x0)) VK_FAIL("a state is not finite before the call");
        L c0 = total(p, x0);
        if (k.gn) {
            Lin l = linearise(p, x0, vid, fid);
            double cond; solve(l.H, l.b, cond);
            if (!(cond < 1e8)) continue;
            g.solve(FGraphSolve::GN);
            if (!finite(states())) return;
            continue;
        }
        std::set<uint64_t> visited;
        std::vector<L> lin;
        visited.insert(hash());
        pr[0]->onjac = [&] { auto x = states(); lin.push_back(finite(x) ? total(p, x) : (L)NAN); visited.insert(hash()); };
        g.solve(FGraphSolve::LM, k.it, k.lam, k.tol);
        pr[0]->onjac = nullptr;
        ++c.transitions; ++c.traces;
        std::vector<St> x1 = states();
        c.req(finite(x1), "states stay finite");
        L c1 = total(p, x1);
        c.near("total chi2 is not larger than before", (double)((c1 - c0) / (1 + c0)), 1e-11);
        c.near("reported chi2 at the solution", std::fabs(g.chi2(true) - (double)c1), 1e-8 * (1 + (double)c1) * scale(x1));
        int lim = std::max(1, k.it);
        c.req((int)visited.size() <= lim, "at most the requested number of linearisation points");
        for (size_t i = 0; i < lin.size(); ++i) c.near("chi2 never grows between iterations", std::isfinite((double)lin[i]) ? (double)((lin[i] - (i ? lin[i - 1] : c0)) / (1 + c0)) : INFINITY, 1e-11);
        if (lim == 1 && exact) {
            Lin l = linearise(p, x0, vid, fid);
            MX H = l.H;
            for (int i = 0; i < l.N; ++i) H(i, i) += (L)k.lam;
            double cond;
            VX dx = solve(H, l.b, cond);
            if (cond < 1e9) {
                std::vector<St> y = step(p, x0, l, dx);
                L cy = total(p, y);
                double sx = scale(x0) + (double)dx.norm(), tol = sx * (3e-11 * cond + 1e-8 * (1 + std::min(1e3, (double)dx.norm())));
                if (cy < c0 * (1 - 1e-9L) - 1e-12L) for (int v = 0; v < nv; ++v) c.near("accepted step with the given damping", sdist(y[v], n[v]->get_state()), p.anchor[v] ? 1e-15 : tol);
                else if (cy > c0 * (1 + 1e-9L) + 1e-12L) for (int v = 0; v < nv; ++v) c.near("rejected step is undone", sdist(x0[v], n[v]->get_state()), 1e-13 * sx);
            }
        }
        // whatever was visited, the state returned is one whose error is the smallest seen
        for (L e : lin) c.near("no visited linearisation point is better than the result", std::isfinite((double)e) ? (double)((c1 - e) / (1 + c0)) : INFINITY, 1e-11);
        c.state(vk::Hash().i(hash()).h);
    }
}
int main(int argc, char **argv)
{
    vk::Ctx c("F07", argc, argv);
    const int D = c.thorough ? 3 : 2;
    std::vector<Cfg> cfgs;
    auto add = [&](double noise, double init, int rob, int info, bool prior) { Cfg k; k.noise = noise; k.init = init; k.robust = rob; k.info = info; k.prior = prior; cfgs.push_back(k); };
    add(.1, .3, 0, 5, true);
    add(.5, 1.5, 0, 2, true);   // far start: steps are rejected
    add(.3, .8, 5, 5, true);
    add(.1, .5, 0, 0, false);   // no prior: the normal equations are singular
    add(.05, 3, 0, 1, true);
    if (c.thorough) { add(1, 2, 5, 2, true); add(0, .3, 0, 0, true); add(.2, 1, 1, 5, true); add(.3, 2, 0, 5, false); }
    std::vector<double> lams = {1e-6, 1e-2, 1, 50, 1e4, 0};
    std::vector<std::vector<Call>> scripts;
    for (double l : lams) scripts.push_back({{1, l, 1e-2, false}, {1, l, 1e-2, false}});
    for (double l : {1e-6, 1., 1e4, 0.}) for (int it : {2, 3, 5}) scripts.push_back({{it, l, 1e-6, false}});
    scripts.push_back({{20, 1e-6, 1e-2, false}, {1, .5, 1e-2, false}});
    scripts.push_back({{4, 1e3, 1e-9, false}, {1, 1e-3, 1e-2, false}, {3, 1e-3, 0, false}});
    scripts.push_back({{0, 0, 0, true}, {1, 1, 1e-2, false}, {2, 1e-6, 1e-2, false}});
    scripts.push_back({{0, 1e-3, 1e-2, false}, {1, 1e-3, 1e-2, false}});
    scripts.push_back({{30, 1e8, 1e-2, false}});
    scripts.push_back({{0, 0, 0, true}, {30, 1e8, 1e-9, false}, {1, 1, 1e-2, false}});
    scripts.push_back({{0, 0, 0, true}, {60, 1e-3, 0, false}});
    auto doit = [&](const Grown &g, const Cfg &cf) {
        for (auto &np : orders(g.p)) for (size_t s = 0; s < scripts.size(); ++s)
            c.each([&] { return g.p.name + "; " + cf.str() + "; nodes inserted " + vk::str(np) + vk::fmt("; calls %zu", s); }, [&] { run(c, g.p, np, scripts[s], true); });
    };
    for (int three = 0; three < 2; ++three) for (auto &cf : cfgs)
        vk::sequences(three ? N3 : N2, D, [&](const std::vector<int> &s) {
            Grown g;
            if (!grow(three, s, cf, g)) return false;
            if (!g.p.f.empty()) doit(g, cf);
            return c.mine();
        });
    // long problems, and information matrices of very different scales
    for (int three = 0; three < 2; ++three) for (size_t q = 0; q < cfgs.size(); ++q) {
        Cfg cf = cfgs[q];
        auto some = [&](const Grown &g) {
            auto os = orders(g.p);
            for (size_t s = 0; s < scripts.size(); ++s) for (size_t o = 0; o < os.size(); ++o) if (c.thorough || (s + q) % os.size() == o)
                c.each([&] { return g.p.name + "; " + cf.str() + vk::fmt("; order %zu; calls %zu", o, s); }, [&] { run(c, g.p, os[o], scripts[s], true); });
        };
        longs(three, q < 2 ? 2 : 1, c.thorough ? std::vector<int>{5, 9, 16} : std::vector<int>{9}, cf, some);
        for (cf.ws = 1; cf.ws <= 3; ++cf.ws) longs(three, 2, {3}, cf, some);
    }
    for (auto &cf : cfgs) for (int i = 0; i < N2; ++i) for (int j = 0; j < N3; ++j) {
        Grown a, b;
        if (grow(false, {i}, cf, a) && grow(true, {j}, cf, b)) { Grown g = join(a, b); if (!g.p.f.empty()) doit(g, cf); }
    }
    // a free variable that no factor observes, and variables observed only in part
    for (auto &cf : cfgs) for (double lam : lams) for (int it : {1, 3})
        c.each([&] { return "unobserved variable; " + cf.str() + vk::fmt("; lambda %g, %d iterations", lam, it); }, [&] {
            Grown g;
            grow(false, {0, 3}, cf, g);
            g.p.add(sv(L2, {7, 7}));
            run(c, g.p, iota((int)g.p.x.size()), {{it, lam, 1e-6, false}}, true);
        });
    for (auto &cf : cfgs) for (double lam : lams) for (int it : {1, 3, 6})
        c.each([&] { return "point-to-plane only; " + cf.str() + vk::fmt("; lambda %g, %d iterations", lam, it); }, [&] {
            Grown g;
            Cfg k = cf; k.prior = false;
            grow(true, {7, 7}, k, g);
            run(c, g.p, iota((int)g.p.x.size()), {{it, lam, 1e-6, false}}, true);
        });
    // consistent problems converge to a stationary solution with zero error from every nearby start
    for (int three = 0; three < 2; ++three) for (double init : {.02, .1, .2}) for (int rob : {0, 1, 2}) for (int info : {0, 5})
        vk::sequences(three ? N3 : N2, c.thorough ? 4 : 3, [&](const std::vector<int> &s) {
            Cfg k; k.noise = 0; k.init = init; k.robust = rob; k.info = info;
            Grown g;
            if (!grow(three, s, k, g)) return false;
            for (double lam : {1e-6, 1e-2})
                c.each([&] { return "consistent: " + g.p.name + "; " + k.str() + vk::fmt("; lambda %g", lam); }, [&] {
                    auto b = build<FGraphSolve>(g.p, iota((int)g.p.x.size()), iota((int)g.p.f.size()));
                    b.g->solve(FGraphSolve::LM, 60, lam, 1e-12);
                    ++c.transitions; ++c.traces;
                    std::vector<St> x = g.p.x;
                    current(b, x);
                    double e = (double)total(g.p, x);
                    c.near("consistent problem reaches zero error", e, 1e-9);
                    for (size_t v = 0; v < x.size(); ++v) c.near("consistent problem reaches the truth", sdist(g.truth[v], b.n[v]->get_state()), 1e-3);
                    c.state(vk::Hash().i(3).d(e * 1e12).h);
                });
            return c.mine();
        });
    return c.finish();
}
