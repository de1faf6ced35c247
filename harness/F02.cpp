// F02: Jacobians against extended-precision central differences of the residual model.
#include "fg.hpp"
#include "fgalpha.hpp"
using namespace fg;
int main(int argc, char **argv)
{
    vk::Ctx c("F02", argc, argv);
    alpha::each(c.thorough ? 2 : 1, [&](const Fac &f, const St &A, const St &B, bool) {
        for (int order = 0; order < (binary(f.k) && f.k != FOD ? 2 : 1); ++order) for (int hist = 0; hist < 2; ++hist)
            c.each([&] { return std::string(fname(f.k)) + " a = " + ref::s(val(A)) + " b = " + ref::s(val(B)) + " z = " + (f.z.size() ? ref::s(f.z) : ref::s(f.Tz)) + vk::fmt(" order %d history %d", order, hist); }, [&] {
                RT r0 = resid(f, A, B);
                if (r0.tang && grid::PI - (double)r0.r.head(3).norm() < 1e-3) { ++c.evals; return; } // derivative not defined at half a turn
                if (f.k == FPL) { ref::V4 p = A.T.transpose() * B.v; if (std::fabs(p(3)) < 2e-4L) { ++c.evals; return; } } // nor where the side of the plane changes
                FGraphSolve g;
                bool bin = binary(f.k);
                // history 1: nodes start elsewhere, are evaluated there, and then moved
                St A0 = A, B0 = B;
                if (hist) { A0 = update(A, VX::Constant(vdim(A.k), .3L)); B0 = update(B, VX::Constant(vdim(B.k), .2L)); }
                PN na = mknode(A0), nb = mknode(B0);
                if (!bin) g.add_node(na);
                else if (order) { g.add_node(nb); g.add_node(na); }
                else { g.add_node(na); g.add_node(nb); }
                Fac ff = f;
                ff.alt = hist;
                PF pf = mkfactor(ff, na, bin ? nb : PN());
                g.add_factor(pf);
                if (hist) { pf->evaluate_residuals(); pf->evaluate_jacobians(); na->set_state(val(A)); if (bin) nb->set_state(val(B)); }
                pf->evaluate_residuals();
                pf->evaluate_jacobians();
                MatX J = pf->get_jacobian();
                int da = vdim(A.k), db = bin ? vdim(B.k) : 0, m = fdim(f.k);
                c.req(J.rows() == m && J.cols() == da + db, "Jacobian has one row per residual and one column per state dimension");
                c.req((int)pf->get_all_nodes_dim() == da + db && (int)pf->get_dim() == m, "dimensions reported by the factor");
                bool rev = bin && order;
                L s = rsign(f.k, rev);
                MX Ja = jac(f, A, B, 0, s);
                double sc = mag(A) + mag(B) + (f.z.size() ? (double)f.z.norm() : (double)f.Tz.norm());
                if (f.k == FL2) { L dx = B.v(0) - A.v(0), dy = B.v(1) - A.v(1); sc *= (double)(1 + 1 / (dx * dx + dy * dy)); }
                double tol = 1e-7 * sc;
                c.near("Jacobian block of the pose/origin", ref::dist(J.block(0, rev ? db : 0, m, da), Ja), tol);
                if (bin) c.near("Jacobian block of the landmark/target", ref::dist(J.block(0, rev ? 0 : da, m, db), jac(f, A, B, 1, s)), tol);
                auto *nn = pf->get_neighbour_nodes();
                for (size_t i = 1; i < nn->size(); ++i) c.req((*nn)[i - 1]->get_id() < (*nn)[i]->get_id(), "blocks in increasing node id order");
                c.outcome(vk::Hash().i(f.k).i(order).m(J).h);
                ++c.traces;
            });
    });
    return c.finish();
}
