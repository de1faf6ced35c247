// F01: residuals and chi2 of every factor type for both node orders, id gaps and changing states.
#include "fg.hpp"
#include "fgalpha.hpp"
using namespace fg;
int main(int argc, char **argv)
{
    vk::Ctx c("F01", argc, argv);
    alpha::each(c.thorough ? 2 : 1, [&](const Fac &f, const St &A, const St &B, bool nearwrap) {
        // order: 0 a before b, 1 b before a; gap nodes in between; wv: information matrix
        for (int order = 0; order < (binary(f.k) && f.k != FOD ? 2 : 1); ++order) for (int gap = 0; gap < 3; gap += 2) for (int wv = 0; wv < 3; ++wv)
            c.each([&] { return std::string(fname(f.k)) + " a = " + ref::s(val(A)) + " b = " + ref::s(val(B)) + " z = " + (f.z.size() ? ref::s(f.z) : ref::s(f.Tz)) + vk::fmt(" order %d gap %d W %d", order, gap, wv); }, [&] {
                Fac ff = f;
                ff.W = spd(fdim(f.k), wv);
                ff.alt = gap > 0;
                FGraphSolve g;
                // wv 1: the nodes are anchors (their states are set from outside); from wv 1 on, the later states are only
                // evaluated through the graph
                PN na = mknode(A, wv == 1 ? Node::ANCHOR : Node::STANDARD, gap > 0), nb = mknode(B, wv == 1 ? Node::ANCHOR : Node::STANDARD);
                PN first = order ? nb : na, second = order ? na : nb;
                bool bin = binary(f.k);
                if (bin || !order) g.add_node(bin ? first : na);
                std::vector<PN> pad;
                for (int i = 0; i < gap; ++i) { pad.push_back(PN(new NodeLandmark2d(Mat21(i, 1)))); g.add_node(pad.back()); }
                if (bin) g.add_node(second);
                PF pf = mkfactor(ff, na, bin ? nb : PN());
                g.add_factor(pf);
                VX r, e = resid(ff, A, B).r;
                double mg = mag(A) + mag(B) + (f.z.size() ? (double)f.z.norm() : (double)f.Tz.norm());
                auto compare = [&](const St &a, const St &b, bool whole) {
                    double gch = whole ? g.chi2(true) : 0;
                    RT q = resid(ff, a, b);
                    VX e = q.r;
                    VX r = pf->get_residual().cast<L>();
                    double d[2] = {0, 0};
                    bool atpi = q.tang && grid::PI - (double)e.head(3).norm() < 2e-6;
                    double tol = 1e-9 * mg;
                    if (atpi) tol = 3e-6 * mg;
                    else if (q.tang && (double)e.head(3).norm() < .02) tol = 5e-9 * mg; // logarithm of a small rotation
                    for (int s = 0; s < 2; ++s) for (int i = 0; i < e.size(); ++i) {
                        L x = r(i) - (s ? -e(i) : e(i));
                        if (isangle(f.k, i)) x = ref::wrap(x);
                        if (!(std::fabs(x) < 1e30L)) x = 1e30L;
                        d[s] = std::max(d[s], (double)std::fabs(x));
                    }
                    bool rev = bin && order == 1;
                    double best = rev ? std::min(d[0], d[1]) : d[0];
                    if (!atpi) c.near("residual follows the model", best, tol);
                    for (int i = 0; i < e.size(); ++i) if (isangle(f.k, i)) c.req(std::fabs(r(i)) <= grid::PI + 1e-12, "angle residuals are wrapped");
                    if (!whole) pf->evaluate_chi2();
                    double ch = pf->get_chi2(), ex = (double)(0.5L * e.dot(ff.W * e));
                    double own = (double)(0.5L * r.dot(ff.W * r));
                    c.near("chi2 = r'Wr/2 of the reported residual", std::fabs(ch - own), 1e-12 * (1 + std::fabs(own)));
                    // an angle residual of exactly half a turn may have either sign, which a correlated W notices
                    bool edge = atpi;
                    for (int i = 0; i < e.size(); ++i) if (isangle(f.k, i) && grid::PI - std::fabs((double)e(i)) < 1e-6) edge = true;
                    if (!edge) c.near("chi2 follows the model", std::fabs(ch - ex), 1e-9 * mg * (1 + std::fabs(ex)) * 4);
                    if (!whole) gch = g.chi2(true);
                    c.near("graph chi2", std::fabs(gch - ch), 1e-12 * (1 + ch));
                    c.near("cached graph chi2", std::fabs(g.chi2(false) - ch), 1e-12 * (1 + ch));
                };
                pf->evaluate_residuals();
                compare(A, B, false);
                c.outcome(vk::Hash().i(f.k).i(order).i(wv).m(pf->get_residual()).h);
                // change the states, evaluate again, and go back: nothing of the previous evaluation may remain
                std::vector<St> as = {A}, bs = {B};
                as.push_back(update(A, VX::Constant(vdim(A.k), .25L)));
                bs.push_back(update(B, VX::Constant(vdim(B.k), -.125L)));
                auto put = [&](PN n, const St &s) { n->set_state(val(s)); };
                int path[][2] = {{1, 0}, {1, 1}, {0, 1}, {0, 0}};
                for (auto &q : path) {
                    if (!bin && q[1]) continue;
                    St a = as[q[0]], b = bs[q[1]];
                    load(a, val(a)); load(b, val(b));
                    if (f.k == FL2) { L dx = b.v(0) - a.v(0), dy = b.v(1) - a.v(1); if (dx * dx + dy * dy < 2e-6L) continue; }
                    if (f.k == FPL) { ref::V4 p = a.T.transpose() * b.v; if (std::fabs(p(3)) < 1e-6L) continue; }
                    put(na, a); if (bin) put(nb, b);
                    if (!bin && f.k == FPT) put(na, a);
                    if (!wv) pf->evaluate_residuals();
                    compare(a, b, wv > 0);
                }
                (void)nearwrap; (void)r; (void)e;
                ++c.traces;
            });
    });
    return c.finish();
}
