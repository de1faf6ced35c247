// G01: exponential map against extended-precision reference on the whole twist grid.
#include "grids.hpp"
#include <mrob/SE3.hpp>
using namespace mrob;
int main(int argc, char **argv)
{
    vk::Ctx c("G01", argc, argv);
    auto dirs = grid::directions(c.thorough ? 7 : 4);
    auto mags = grid::angles(c.thorough ? 300 : 100, true);
    for (double o : {4321., 1e4, 1.2345e5, 1e6, 7.7e7}) mags.push_back(o);
    auto trans = grid::translations(true);
    for (auto &d : dirs) for (double o : mags)
        c.each([&] { return "w = " + ref::s(d) + vk::fmt(" * %.17g", o); }, [&] {
            Mat31 w = d * o;
            ref::V3 lw = w.cast<ref::L>();
            ref::M3 R = ref::exp3(lw);
            double to = 1e-13 * (1 + o);
            SO3 r(w);
            c.near("SO3(w)", ref::dist(r.R(), R), to);
            c.near("SO3(w) orthonormal", (double)ref::so3_defect(r.R().cast<ref::L>()), to);
            SO3 r2(Mat31(.3, .2, -.1));
            r2.exp(hat3(w));
            c.near("SO3::exp overwrites", ref::dist(r2.R(), R), to);
            ++c.traces;
            c.outcome(vk::Hash().m(w).h);
            for (auto &t : trans) {
                Mat61 xi; xi << w, t;
                ref::M4 T = ref::exp6(xi.cast<ref::L>());
                double tt = 5e-12 * (1e-3 + t.norm()) * (1 + o);
                SE3 a(xi);
                Mat4 A = a.T();
                c.near("SE3(xi) rotation", ref::dist(A.topLeftCorner<3, 3>(), R), to);
                c.near("SE3(xi) translation", ref::dist(A.topRightCorner<3, 1>(), T.topRightCorner<3, 1>()), tt);
                c.req(A(3, 0) == 0 && A(3, 1) == 0 && A(3, 2) == 0 && A(3, 3) == 1, "last row of SE3(xi) is 0 0 0 1");
                c.near("SE3(xi) valid", (double)ref::se3_defect(A.cast<ref::L>()), to);
                SE3 b(grid::tw(.3, -.2, .1, 1, 2, 3));
                b.exp(hat6(xi));
                c.near("SE3::exp overwrites", ref::dist(b.T(), A), 1e-15 * (1 + o) * (1 + t.norm()));
                c.outcome(vk::Hash().m(xi).h);
            }
        });
    return c.finish();
}
