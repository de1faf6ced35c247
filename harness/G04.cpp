// G04: adjoint and curly wedge identities on all pairs of the grids.
#include "grids.hpp"
#include <mrob/SE3cov.hpp>
using namespace mrob;
using ref::L;
int main(int argc, char **argv)
{
    vk::Ctx c("G04", argc, argv);
    auto rots = grid::rotations(c.thorough ? 6 : 3);
    auto trans = grid::translations(true);
    std::vector<Mat61> tws;
    for (int i = 0; i < 6; ++i) { Mat61 e = Mat61::Zero(); e(i) = 1; tws.push_back(e); tws.push_back(e * -1e-6); }
    tws.push_back(grid::tw(.3, -.4, .2, 1, -2, .5)); tws.push_back(grid::tw(2, -1, 1.5, -10, 3, 7)); tws.push_back(grid::tw(1e-4, 0, 2e-4, 1e3, 0, -1e2));
    tws.push_back(grid::tw(grid::PI, 0, 0, 0, 1, 0)); tws.push_back(grid::tw(5, 6, -7, .1, .2, .3));
    std::vector<Mat4> Ts;
    for (auto &R : rots) for (auto &t : trans) Ts.push_back(grid::mk(R, t));
    size_t np = c.thorough ? 600 : 160, step = Ts.size() / np;
    for (size_t n = 0; n < Ts.size(); ++n)
        c.each([&] { return "T = " + ref::s(Ts[n]); }, [&] {
            Mat4 T = Ts[n];
            SE3 g(T);
            ref::M4 LT = T.cast<L>();
            double tn = 1 + g.t().norm();
            Mat6 A = g.adj();
            c.near("Adj", ref::dist(A, ref::Adj(LT)), 1e-13 * tn);
            c.near("adj leaves T", ref::dist(g.T(), T), 1e-300);
            SO3 r(g.R());
            c.near("SO3 adj", ref::dist(r.adj(), T.topLeftCorner<3, 3>()), 1e-14);
            ++c.traces;
            for (auto &x : tws) {
                double xn = 1 + x.tail<3>().norm();
                // T Exp(x) = Exp(Adj(T) x) T
                Mat4 lhs = (g * SE3(x)).T();
                Mat61 y = A * x;
                Mat4 rhs = (SE3(y) * g).T();
                c.near("T Exp(x) = Exp(Adj x) T", ref::dist(lhs, rhs), 1e-11 * tn * xn);
                Mat31 w = x.head<3>();
                c.near("R Exp(w) = Exp(Adj w) R", ref::dist((r * SO3(w)).R(), (SO3(Mat31(r.adj() * w)) * r).R()), 1e-13 * (1 + w.norm()));
                c.outcome(vk::Hash().m(lhs).h);
            }
            Mat6 Ai = g.inv().adj();
            c.near("Adj(T^-1) Adj(T) = I", ref::dist(Ai * A, Mat6::Identity()), 1e-13 * tn * tn);
            for (size_t m = 0; m < Ts.size(); m += step) {
                SE3 h(Ts[m]);
                double hn = 1 + h.t().norm();
                c.near("Adj(TU) = Adj(T) Adj(U)", ref::dist((g * h).adj(), A * h.adj()), 1e-13 * tn * hn);
                c.near("SO3 Adj product", ref::dist((r * SO3(h.R())).adj(), r.adj() * SO3(h.R()).adj()), 1e-14);
            }
        });
    // curly wedge: all pairs
    std::vector<Mat61> as = tws;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (i != j) { Mat61 e = Mat61::Zero(); e(i) = .7; e(j) = -1.3; as.push_back(e); }
    for (size_t i = 0; i < as.size(); ++i)
        c.each([&] { return "a = " + ref::s(as[i]); }, [&] {
            Mat61 a = as[i];
            ref::V6 la = a.cast<L>();
            Mat6 W = curly_wedge(a);
            for (auto &b : as) {
                ref::V6 lb = b.cast<L>();
                ref::M4 br = ref::hat6(la) * ref::hat6(lb) - ref::hat6(lb) * ref::hat6(la);
                ref::V6 v; v << br(2, 1), br(0, 2), br(1, 0), br(0, 3), br(1, 3), br(2, 3);
                c.near("curly_wedge(a) b = [a,b]", ref::dist(W * b, v), 1e-13 * (1 + a.norm()) * (1 + b.norm()));
                c.outcome(vk::Hash().m(a).m(b).i(1).h);
            }
            ref::M6 E = ref::expm<ref::M6>(W.cast<L>());
            c.near("exp(curly_wedge(a)) = Adj(Exp(a))", ref::dist(SE3(a).adj(), E), 1e-11 * (1 + a.norm()) * (1 + a.norm()));
            ++c.traces;
        });
    return c.finish();
}
