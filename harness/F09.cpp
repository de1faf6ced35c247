// F09: kernels over distances around every threshold and every history of two evaluations; every assignment of
// kernels to the factors of small problems, in both solvers.
#include "problems.hpp"
#include "fgalpha.hpp"
using namespace fg; using namespace prob;
struct Dense : FGraphSolveDense { const MatX &H() { return hessian_; } const MatX1 &g() { return gradient_; } };
int main(int argc, char **argv)
{
    vk::Ctx c("F09", argc, argv);
    std::vector<double> us = {0, 1e-300, 1e-12, 1e-6, 1e-3, .1, .3, .5, .7, .9, .99, 1 - 1e-9, std::nextafter(1., 0.), 1, std::nextafter(1., 2.), 1 + 1e-9, 1.01, 1.1, 1.3, 1.345, 1.5, 2, 2.385, 3, 4.685, 5, 7.5, 10, 31, 100, 1e3, 1e4, 1e6, 1e8, 1e12, 1e30};
    if (c.thorough) for (int k = 1; k < 400; ++k) us.push_back(k * .0125);
    for (int kern = 0; kern < 5; ++kern) for (double u0 : us) for (double u : us)
        c.each([&] { return vk::fmt("%s weight at %.17g after %.17g", kname(kern), u, u0); }, [&] {
            PN n = mknode(sv(P2, {0, 0, 0}));
            PF f(new Factor1Pose2d(Mat31(0, 0, 0), n, Mat3::Identity(), (Factor::robustFactorType)kern));
            f->evaluate_robust_weight(u0);
            double w = f->evaluate_robust_weight(u);
            ++c.traces;
            if (kern == 4 && u == 1) c.req(w == 0 || w == 1, "ransac weight is 0 or 1");
            else c.near(kname(kern), std::fabs(w - weight(kern, u)), 1e-13 * (weight(kern, u) + 1e-300));
            c.outcome(vk::Hash().i(kern).d(w).h);
        });
    // kernels change neither residual nor Jacobian nor chi2 of a factor
    alpha::each(c.thorough, [&](const Fac &f0, const St &A, const St &B, bool) {
        c.each([&] { return std::string(fname(f0.k)) + " under every kernel, a = " + ref::s(val(A)) + " b = " + ref::s(val(B)) + " z = " + (f0.z.size() ? ref::s(f0.z) : ref::s(f0.Tz)); }, [&] {
            MatX r0, J0; double c0 = 0;
            RT rt = resid(f0, A, B);
            if (rt.tang && grid::PI - (double)rt.r.head(3).norm() < 1e-6) { ++c.evals; return; }
            for (int i = 0; i < fdim(f0.k); ++i) if (isangle(f0.k, i) && grid::PI - (double)std::fabs(rt.r(i)) < 1e-9) { ++c.evals; return; } // either sign is right
            for (int kern = 0; kern < 5; ++kern) {
                Fac f = f0; f.robust = kern; f.W = spd(fdim(f.k), 2);
                FGraphSolve g;
                PN na = mknode(A), nb = mknode(B);
                g.add_node(na);
                if (binary(f.k)) g.add_node(nb);
                PF pf = mkfactor(f, na, binary(f.k) ? nb : PN());
                g.add_factor(pf);
                pf->evaluate_residuals(); pf->evaluate_jacobians(); pf->evaluate_chi2();
                double w = pf->evaluate_robust_weight(std::sqrt(2 * pf->get_chi2())), u = (double)std::sqrt(2 * chi2(f, A, B));
                if (!(kern == 4 && std::fabs(u - 1) < 1e-6)) c.near("weight at the factor's own error", std::fabs(w - weight(kern, u)), 1e-6 * weight(kern, u) + 1e-300);
                MatX r = pf->get_residual(), J = pf->get_jacobian();
                if (kern == 0) { r0 = r; J0 = J; c0 = pf->get_chi2(); }
                else c.req((r.array() == r0.array()).all() && (J.array() == J0.array()).all() && pf->get_chi2() == c0, "kernel leaves residual, Jacobian and chi2 alone");
                c.near("chi2 is the plain weighted error", std::fabs(pf->get_chi2() - (double)chi2(f, A, B)), 1e-7 * (1 + pf->get_chi2()));
                MatX Wi = pf->get_information_matrix();
                c.near("information matrix is the given one", ref::dist(Wi, f.W), 1e-12 * (double)f.W.norm());
            }
            ++c.traces;
        });
    });
    // every assignment of kernels, at two successive error levels
    auto problem = [&](const Grown &g0, const Cfg &k, bool lng) {
        int nf = (int)g0.p.f.size();
        if (nf == 0 || (!lng && nf > (c.thorough ? 4 : 3))) return;
        int na = 1;
        for (int i = 0; i < nf && !lng; ++i) na *= 5;
        if (lng) na = 20; // one kernel for every factor, or kernels that change from factor to factor with different periods
        for (int as = 0; as < na; ++as)
            c.each([&] { return g0.p.name + "; " + k.str() + vk::fmt("; kernel assignment %d", as); }, [&] {
                Grown g = g0;
                for (int i = 0, q = as; i < nf; ++i, q /= 5) g.p.f[i].robust = lng ? (as % 5 + i * (as / 5)) % 5 : q % 5;
                int nv = (int)g.p.x.size();
                auto ords = orders(g.p);
                if (nf >= 4 && ords.size() > 2) ords.resize(2);
                for (auto &np : ords) for (int rev = 0; rev < (nf >= 4 ? 1 : 2); ++rev) {
                    std::vector<int> fp = iota(nf);
                    if (rev) std::reverse(fp.begin(), fp.end());
                    auto s = build<FGraphSolve>(g.p, np, fp);
                    auto d = build<Dense>(g.p, np, fp);
                    for (int lvl = 0; lvl < 3; ++lvl) {
                        // other errors at every level: far, near, far again
                        std::vector<St> x = g.p.x;
                        for (int v = 0; v < nv; ++v) {
                            if (!g.p.anchor[v] && lvl == 1) { VX e(vdim(x[v].k)); for (int i = 0; i < e.size(); ++i) e(i) = .02 * rnd(v, i); x[v] = update(g.truth[v], e); }
                            if (!g.p.anchor[v] && lvl == 2) { VX e(vdim(x[v].k)); for (int i = 0; i < e.size(); ++i) e(i) = 1.1 * rnd(v + 7, i); x[v] = update(g.truth[v], e); }
                            load(x[v], val(x[v]));
                            s.n[v]->set_state(val(x[v])); d.n[v]->set_state(val(x[v]));
                        }
                        for (int v = 0; v < nv; ++v) load(x[v], s.n[v]->get_state());
                        Lin l = linearise(g.p, x, s.vid, s.fid);
                        if (l.N == 0) return;
                        bool edge = false;
                        for (int i = 0; i < nf; ++i) { double u = (double)std::sqrt(2 * chi2(g.p.f[i], x[g.p.f[i].a], x[g.p.f[i].b >= 0 ? g.p.f[i].b : g.p.f[i].a])); if (std::fabs(u - 1) < 1e-6) edge = true; c.outcome(vk::Hash().i(g.p.f[i].k).i(g.p.f[i].robust).d(std::round(u * 20)).h); }
                        if (edge) continue;
                        s.g->solve(FGraphSolve::GN);
                        d.g->calculate_gradient_hessian();
                        ++c.traces;
                        MatX W = MatX(s.g->get_W_matrix()).triangularView<Eigen::Upper>();
                        MX Wu = l.W.triangularView<Eigen::Upper>();
                        double sx = scale(x), sw = 1e-300 + (double)ref::mabs(l.W), sj = 1 + (double)ref::mabs(l.A);
                        c.req(W.rows() == l.M, "one row of W per observation");
                        c.near("W scaled by the kernels (sparse)", ref::dist(W, Wu), 1e-9 * sw * sx);
                        c.near("Hessian scaled by the kernels (dense)", d.g->H().rows() == l.N ? ref::dist(d.g->H(), l.H) : INFINITY, 1e-8 * sw * sj * sj * sx * l.M);
                        c.near("gradient scaled by the kernels (dense)", d.g->g().rows() == l.N ? ref::dist(MatX(d.g->g()), MX(l.b)) : INFINITY, 1e-8 * sw * sj * sx * l.M * (1 + (double)l.r.norm()));
                        c.near("right hand side scaled by the kernels (sparse)", ref::dist(MatX(s.g->get_vector_b()), MX(l.b)), 1e-8 * sw * sj * sx * l.M * (1 + (double)l.r.norm()));
                    }
                }
            });
    };
    for (int three = 0; three < 2; ++three) for (double init : {.3, 1.5}) for (int info : {0, 5})
        vk::sequences(three ? N3 : N2, c.thorough ? 3 : 2, [&](const std::vector<int> &s) {
            Cfg k; k.noise = .3; k.init = init; k.info = info;
            Grown g;
            if (!grow(three, s, k, g)) return false;
            if (g.p.f.size() < 4 || (info && init > 1)) problem(g, k, false);
            return c.mine();
        });
    // observations satisfied exactly next to ones that are not, in every order
    for (int three = 0; three < 2; ++three) vk::sequences(three ? N3 : N2, 2, [&](const std::vector<int> &s) {
        Cfg k; k.noise = 0; k.init = 0;
        Grown g;
        if (!grow(three, s, k, g)) return false;
        if (g.p.x.size() < 2) { if (g.p.f.size() < 2) return true; }
        int nf = (int)g.p.f.size(), nv = (int)g.p.x.size();
        for (int who = 0; who < nv; ++who) for (double sz : {.4, 3., 40.}) for (int as = 0; as < 10; ++as) for (int rev = 0; rev < 2; ++rev)
            c.each([&] { return g.p.name + vk::fmt("; only variable %d is off, by about %g; kernels %d%s", who, sz, as, rev ? "; factors reversed" : ""); }, [&] {
                Problem p = g.p;
                for (int i = 0; i < nf; ++i) p.f[i].robust = (as % 5 + i * (as / 5)) % 5;
                if (p.x[who].k == P3) { if (sz > 2) return; VX e(6); for (int i = 0; i < 6; ++i) e(i) = sz * rnd(who, i); p.x[who] = update(p.x[who], e); p.x[who].T = p.x[who].T.cast<double>().cast<L>().eval(); }
                else for (int i = 0; i < (p.x[who].k == P2 ? 2 : p.x[who].k == PL ? 0 : vdim(p.x[who].k)); ++i) p.x[who].v(i) += std::round(256 * sz * rnd(who, i)) / 256;
                if (p.x[who].k == PL) p.x[who].v(3) += sz;
                std::vector<int> np = iota(nv), fp = iota(nf);
                if (rev) { std::reverse(fp.begin(), fp.end()); }
                auto b = build<FGraphSolve>(p, np, fp);
                auto d = build<Dense>(p, np, fp);
                for (int k2 = 0; k2 < 2; ++k2) { // again after the offending variable changed its mind
                    if (k2) { b.n[who]->set_state(val(g.p.x[who])); d.n[who]->set_state(val(g.p.x[who])); int o = (who + 1) % nv; VX e = VX::Constant(vdim(p.x[o].k), .125L * (p.x[o].k == PL ? .1L : 1)); St s2 = update(g.p.x[o], e); b.n[o]->set_state(val(s2)); d.n[o]->set_state(val(s2)); }
                    std::vector<St> x = p.x;
                    for (int v = 0; v < nv; ++v) load(x[v], d.n[v]->get_state());
                    if (k2) for (int v = 0; v < nv; ++v) b.n[v]->set_state(MatX(d.n[v]->get_state()));
                    Lin l = linearise(p, x, d.vid, d.fid);
                    if (l.N == 0) return;
                    for (int i = 0; i < nf; ++i) if (std::fabs((double)std::sqrt(2 * chi2(p.f[i], x[p.f[i].a], x[p.f[i].b >= 0 ? p.f[i].b : p.f[i].a])) - 1) < 1e-6) return;
                    d.g->calculate_gradient_hessian();
                    b.g->solve(FGraphSolve::GN);
                    ++c.traces;
                    double sx = scale(x), sw = 1 + (double)ref::mabs(l.W), sj = 1 + (double)ref::mabs(l.A);
                    MatX W = MatX(b.g->get_W_matrix()).triangularView<Eigen::Upper>();
                    MX Wu = l.W.triangularView<Eigen::Upper>();
                    c.near("W scaled by the kernels, some residuals zero (sparse)", ref::dist(W, Wu), 1e-8 * sw * sx);
                    c.near("Hessian scaled by the kernels, some residuals zero (dense)", d.g->H().rows() == l.N ? ref::dist(d.g->H(), l.H) : INFINITY, 1e-8 * sw * sj * sj * sx * l.M);
                    c.near("gradient scaled by the kernels, some residuals zero (dense)", d.g->g().rows() == l.N ? ref::dist(MatX(d.g->g()), MX(l.b)) : INFINITY, 1e-8 * sw * sj * sx * l.M * (1 + (double)l.r.norm()));
                    c.near("right hand side, some residuals zero (sparse)", ref::dist(MatX(b.g->get_vector_b()), MX(l.b)), 1e-8 * sw * sj * sx * l.M * (1 + (double)l.r.norm()));
                }
            });
        return true;
    });
    for (int three = 0; three < 2; ++three) for (int ws = 0; ws < 4; ++ws) {
        Cfg k; k.noise = .3; k.init = .4; k.info = 5; k.ws = ws;
        longs(three, ws && !c.thorough ? 1 : 2, ws ? std::vector<int>{3, 7} : c.thorough ? std::vector<int>{5, 9, 14, 22} : std::vector<int>{9}, k, [&](const Grown &g) { problem(g, k, true); });
    }
    return c.finish();
}
