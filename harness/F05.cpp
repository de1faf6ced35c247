// F05: Gauss-Newton against reference normal equations, on every problem of the gadget grammar, over
// node orders, incremental construction histories and consecutive solves.
#include "problems.hpp"
using namespace fg; using namespace prob;
static double cmp(const MatX &a, const MX &b) { return (a.rows() != b.rows() || a.cols() != b.cols()) ? INFINITY : ref::dist(a, b); }
// one GN solve on g against the reference; pp holds the part of the problem present in the graph
struct Sub { Problem p; std::vector<int> vid, fid; };
static int nth = 0; // consecutive solves of a case take different arguments
static bool solve_and_compare(vk::Ctx &c, FGraphSolve &g, const Problem &p, const std::vector<PN> &n, const std::vector<PF> &f, const std::vector<int> &vid, const std::vector<int> &fid)
{
    std::vector<St> x = p.x;
    for (size_t i = 0; i < x.size(); ++i) load(x[i], n[i]->get_state());
    std::vector<MatX> before;
    for (auto &q : n) before.push_back(q->get_state());
    Lin l = linearise(p, x, vid, fid);
    if (l.N == 0 || l.M == 0) return false;
    double cond;
    VX dx = solve(l.H, l.b, cond);
    if (!(cond < 1e9)) return false; // not well posed (e.g. every observation of a variable rejected by its kernel)
    // iterations, damping and tolerance mean nothing to Gauss-Newton
    switch (nth++ % 4) {
    case 0: g.solve(FGraphSolve::GN); break;
    case 1: g.solve(FGraphSolve::GN, 7, 10., .5); break;
    case 2: g.solve(FGraphSolve::GN, 1, 1e4, 1e6); break;
    case 3: g.solve(FGraphSolve::GN, 0, 0., 0.); break;
    }
    ++c.transitions; ++c.traces;
    double sx = scale(x), sj = 1 + (double)ref::mabs(l.A), sw = 1e-300 + (double)ref::mabs(l.W), sr = 1 + (double)l.r.norm();
    double ja = 1e-9 * sx;
    MatX A = MatX(g.get_adjacency_matrix()), W = MatX(g.get_W_matrix()), H = MatX(g.get_information_matrix());
    c.req(A.rows() == l.M && A.cols() == l.N, "adjacency: one row per observation, one column per free state dimension");
    c.near("adjacency matrix", cmp(A, l.A), ja);
    c.req(W.rows() == l.M && W.cols() == l.M, "W is square over the observations");
    MX Wu = l.W.triangularView<Eigen::Upper>();
    c.near("W matrix (upper triangle)", cmp(MatX(W.triangularView<Eigen::Upper>()), Wu), 1e-8 * sw * sx);
    MatX lo = W.triangularView<Eigen::StrictlyLower>(), up = W.triangularView<Eigen::StrictlyUpper>();
    c.req(lo.norm() == 0 || (lo - up.transpose()).norm() <= 1e-12 * sw, "W matrix lower triangle");
    c.near("information matrix (lower triangle)", cmp(MatX(H.triangularView<Eigen::Lower>()), MX(l.H.triangularView<Eigen::Lower>())), 3 * ja * sj * sw * l.M);
    c.near("right hand side", cmp(MatX(g.get_vector_b()), MX(l.b)), (ja * sr + 1e-8 * sj * sx) * sw * l.M);
    std::vector<St> y = step(p, x, l, dx);
    double tol = 1e-12 * cond * sx + 1e-9 * sx * sx * std::min(cond, 1e4) * 1e-1 * (1e-3 + std::min(1., (double)dx.norm()));
    vk::Hash h;
    for (size_t v = 0; v < x.size(); ++v) {
        MatX now = n[v]->get_state();
        if (p.anchor[v]) c.req((now.array() == before[v].array()).all(), "anchored node keeps its state");
        else {
            double far = x[v].k == P3 && grid::PI - (double)ref::ln3(y[v].T.topLeftCorner<3, 3>()).norm() < 1e-5 ? 2e-6 * sx : 0;
            c.near(vname(x[v].k), sdist(y[v], now), tol * (1 + (double)dx.norm()) + far);
        }
        h.m(now);
    }
    c.state(h.h);
    return true;
}
int main(int argc, char **argv)
{
    vk::Ctx c("F05", argc, argv);
    const int D = c.thorough ? 4 : 3, K = c.thorough ? 3 : 2;
    std::vector<Cfg> cfgs;
    auto add = [&](double noise, double init, int rob, int info, int anch, bool prior) { Cfg k; k.noise = noise; k.init = init; k.robust = rob; k.info = info; k.anchors = anch; k.prior = prior; cfgs.push_back(k); };
    add(.05, .05, 0, 5, 0, true);
    add(.3, .4, 0, 2, 0, true);
    add(.4, .1, 5, 5, 0, true);
    add(.05, .2, 0, 1, 1, false);
    add(.1, .2, 5, 0, 2, true);
    if (c.thorough) { add(0, 0, 0, 0, 0, true); add(.2, .6, 1, 5, 4, true); add(.3, .2, 3, 5, 5, false); add(.2, .2, 2, 2, 0, true); add(.2, .1, 4, 0, 0, true); }
    auto run_all = [&](const Grown &g, const std::vector<int> &np, int fo) {
        nth = (int)(g.p.f.size() + np[0] + fo);
        std::vector<int> fp = iota((int)g.p.f.size());
        if (fo) std::reverse(fp.begin(), fp.end());
        auto b = build<FGraphSolve>(g.p, np, fp);
        for (int k = 0; k < K; ++k) if (!solve_and_compare(c, *b.g, g.p, b.n, b.f, b.vid, b.fid)) return;
        // solved until it settles (negligible steps), then started from other states, and again from the former ones:
        // nothing of the earlier linearisations may remain.  Before, the graph is asked for everything it reports.
        for (int k = 0; k < 6; ++k) b.g->solve(FGraphSolve::GN);
        for (auto &q : b.n) { MatX m = q->get_state(); if (!m.allFinite() || m.norm() > 1e4) return; }
        for (int round = 0; round < 2; ++round) {
            for (size_t v = 0; v < b.n.size(); ++v) {
                St s = g.p.x[v];
                if (!round) { VX d(vdim(s.k)); for (int i = 0; i < d.size(); ++i) d(i) = (g.p.anchor[v] ? .1 : .25) * rnd(3 + (int)v, i); s = update(s, d); }
                b.n[v]->set_state(val(s));
            }
            if (round) { b.g->chi2(false); b.g->get_estimated_state(); }
            if (!solve_and_compare(c, *b.g, g.p, b.n, b.f, b.vid, b.fid)) return;
        }
    };
    // the graph grows while it is solved: bit i of mask = solve after gadget i
    auto run_inc = [&](const Grown &g, int mask) {
        FGraphSolve gr;
        std::vector<PN> n; std::vector<PF> f; std::vector<int> vid, fid;
        Problem part; part.name = g.p.name;
        size_t iv = 0, jf = 0;
        for (size_t m = 0; m < g.mark.size(); ++m) {
            for (; (int)iv < g.mark[m].first; ++iv) {
                part.add(g.p.x[iv], g.p.anchor[iv]);
                n.push_back(mknode(g.p.x[iv], g.p.anchor[iv] ? Node::ANCHOR : Node::STANDARD));
                vid.push_back(gr.add_node(n.back()));
            }
            for (; (int)jf < g.mark[m].second; ++jf) {
                part.f.push_back(g.p.f[jf]);
                f.push_back(mkfactor(g.p.f[jf], n[g.p.f[jf].a], g.p.f[jf].b >= 0 ? n[g.p.f[jf].b] : PN()));
                fid.push_back(gr.add_factor(f.back()));
            }
            if ((m < 31 && ((mask >> m) & 1)) || m + 1 == g.mark.size()) solve_and_compare(c, gr, part, n, f, vid, fid);
        }
    };
    for (int three = 0; three < 2; ++three) for (auto &cf : cfgs)
        vk::sequences(three ? N3 : N2, D, [&](const std::vector<int> &s) {
            Grown g;
            if (!grow(three, s, cf, g)) return false;
            for (auto &np : orders(g.p)) for (int fo = 0; fo < 2; ++fo)
                c.each([&] { return g.p.name + "; " + cf.str() + "; nodes inserted " + vk::str(np) + (fo ? "; factors reversed" : ""); }, [&] { run_all(g, np, fo); });
            if (!s.empty()) for (int mask = 1; mask < (1 << s.size()); ++mask)
                c.each([&] { return g.p.name + "; " + cf.str() + vk::fmt("; grown while solving, mask %d", mask); }, [&] { run_inc(g, mask); });
            return c.mine();
        });
    // long problems, and information matrices of very different scales
    std::vector<Cfg> lc = {cfgs[0], cfgs[4]};
    lc[1].ws = 3;
    if (c.thorough) { lc.push_back(cfgs[1]); lc[2].ws = 1; lc.push_back(cfgs[2]); lc[3].ws = 2; }
    for (int three = 0; three < 2; ++three) for (auto &cf : lc)
        longs(three, c.thorough && !cf.ws ? 3 : 2, c.thorough ? std::vector<int>{6, 11, 23, 40} : std::vector<int>{7, 17}, cf, [&](const Grown &g) {
            auto os = orders(g.p);
            for (size_t i = 0; i < os.size(); ++i)
                c.each([&] { return g.p.name + "; " + cf.str() + vk::fmt("; order %zu", i); }, [&] { run_all(g, os[i], i & 1); });
            for (int m = 2; m < 6; ++m)
                c.each([&] { return g.p.name + "; " + cf.str() + vk::fmt("; solved after every %d gadgets while growing", m); }, [&] {
                    int mask = 0;
                    for (int i = m; i < 31; i += m) mask |= 1 << i;
                    run_inc(g, mask);
                });
        });
    // every observation exactly satisfied (then moved away from it): factors without any error count as well
    {
        Cfg z; z.noise = 0; z.init = 0; z.info = 5; z.prior = true;
        for (int rob : {0, 5}) for (int three = 0; three < 2; ++three) {
            z.robust = rob;
            longs(three, c.thorough ? 2 : 1, {6, 9, 16}, z, [&](const Grown &g) {
                auto os = orders(g.p);
                for (size_t i = 0; i < os.size(); ++i)
                    c.each([&] { return g.p.name + "; " + z.str() + vk::fmt("; exactly satisfied, order %zu", i); }, [&] { run_all(g, os[i], i & 1); });
            });
        }
    }
    // several hundred state dimensions
    for (int three = 0; three < 2; ++three) for (int q : {0, 4}) if (!q || c.thorough)
        longs(three, 1, {three ? 52 : 96}, cfgs[q], [&](const Grown &g) {
            auto os = orders(g.p);
            for (size_t i = 0; i < os.size() && (i < 2 || c.thorough); ++i)
                c.each([&] { return g.p.name + "; " + cfgs[q].str() + vk::fmt("; order %zu", i); }, [&] { c.slow(20); run_all(g, os[i], i & 1); });
        });
    for (int ws : {1, 2, 3, 4, 5}) for (int three = 0; three < 2; ++three) for (int q : {1, 2}) {
        Cfg cf = cfgs[q]; cf.ws = ws;
        vk::sequences(three ? N3 : N2, c.thorough ? 3 : 2, [&](const std::vector<int> &s) {
            Grown g;
            if (!grow(three, s, cf, g)) return false;
            for (auto &np : orders(g.p))
                c.each([&] { return g.p.name + "; " + cf.str() + "; nodes inserted " + vk::str(np); }, [&] { run_all(g, np, 0); });
            return c.mine();
        });
    }
    // steps of great length: initial positions far away
    for (double far : {30., 3e3, 1e5}) for (int three = 0; three < 2; ++three) for (int prior = 0; prior < 2; ++prior) {
        Cfg cf; cf.noise = .1; cf.init = .1; cf.far = far; cf.prior = prior; cf.anchors = prior ? 0 : 1;
        vk::sequences(three ? N3 : N2, c.thorough ? 3 : 1, [&](const std::vector<int> &s) {
            Grown g;
            if (!grow(three, s, cf, g)) return false;
            for (auto &np : orders(g.p))
                c.each([&] { return g.p.name + "; " + cf.str() + "; nodes inserted " + vk::str(np); }, [&] { run_all(g, np, 0); });
            return true;
        });
    }
    // independent variables, every coordinate with an information of its own scale: each takes its own optimum
    for (int n = 1; n < 4; ++n) for (int code = 0; code < 125; ++code) for (int rev = 0; rev < 2; ++rev) for (int rob = 0; rob < 2; ++rob)
        c.each([&] { return vk::fmt("%d independent poses, information scales %d%s%s", n, code, rev ? ", factors reversed" : "", rob ? ", Huber" : ""); }, [&] {
            static const double ex[] = {-50, -30, 0, 20, 40};
            FGraphSolve g;
            std::vector<PN> v; std::vector<Mat31> z; std::vector<PF> f;
            for (int i = 0; i < n; ++i) { v.push_back(PN(new NodePose2d(Mat31(i, -.5 * i, .25)))); g.add_node(v.back()); z.push_back(Mat31(i + .5 - 2 * i, 2.25 + i, -.5 + .25 * i)); }
            for (int i = 0; i < n; ++i) {
                Mat3 W = Mat3::Zero();
                int q = (code + 37 * i) % 125;
                for (int k = 0; k < 3; ++k, q /= 5) W(k, k) = std::ldexp(1., (int)ex[q % 5]);
                f.push_back(PF(new Factor1Pose2d(z[i], v[i], W, rob ? Factor::HUBER : Factor::QUADRATIC)));
            }
            if (rev) std::reverse(f.begin(), f.end());
            for (auto &x : f) g.add_factor(x);
            g.solve(FGraphSolve::GN);
            ++c.traces; ++c.transitions;
            for (int i = 0; i < n; ++i) c.near("an independent pose moves to its observation", (MatX(v[i]->get_state()) - MatX(z[i])).norm(), 1e-12 * (1 + z[i].norm()));
        });
    // both worlds in one graph
    for (auto &cf : cfgs) vk::sequences(N2, c.thorough ? 2 : 1, [&](const std::vector<int> &s) {
        vk::sequences(N3, c.thorough ? 2 : 1, [&](const std::vector<int> &t) {
            Grown a, b;
            if (!grow(false, s, cf, a) || !grow(true, t, cf, b)) return false;
            Grown g = join(a, b);
            for (auto &np : orders(g.p)) for (int fo = 0; fo < 2; ++fo)
                c.each([&] { return g.p.name + "; " + cf.str() + "; nodes inserted " + vk::str(np) + (fo ? "; factors reversed" : ""); }, [&] { run_all(g, np, fo); });
            return true;
        });
        return c.mine();
    });
    return c.finish();
}
