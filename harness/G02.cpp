// G02: logarithm is the principal inverse of the exponential.
#include "grids.hpp"
#include <mrob/SE3.hpp>
using namespace mrob;
static const double PI = grid::PI;
struct Tol { double w, v; };
// accuracy promised by the property: 1e-9, except within 1e-6 of half a turn
static double tol(double o) { return PI - o < 1.1e-6 ? 1e-6 : 1e-9; }

static void check_rot(vk::Ctx &c, const ref::M3 &Rx)
{
    Mat3 R = Rx.cast<double>();
    SO3 s(R);
    Mat31 w = s.ln_vee();
    Mat3 W = s.ln();
    double o = (double)ref::ln3(R.cast<ref::L>()).norm();
    c.near("|Ln(R)| <= pi", std::max(0., w.norm() - PI), 1e-12);
    c.near("Exp(Ln(R)) = R", ref::dist(ref::exp3(w.cast<ref::L>()), R), tol(o));
    c.near("ln is hat of ln_vee", ref::dist(W, ref::hat(w.cast<ref::L>())), 0 + 1e-300);
    c.near("SO3 unchanged by ln", ref::dist(s.R(), R), 1e-300);
    // the library's own exponential closes the loop
    c.near("SO3(ln_vee) = R", ref::dist(SO3(w).R(), R), tol(o));
}
static void check_se3(vk::Ctx &c, const ref::M3 &Rx, const Mat31 &t)
{
    Mat4 T = grid::mk(Rx, t);
    SE3 s(T);
    Mat61 x = s.ln_vee();
    double o = (double)ref::ln3(T.topLeftCorner<3, 3>().cast<ref::L>()).norm();
    double tt = tol(o) * (1 + t.norm());
    c.near("|Ln(T)| rotation part <= pi", std::max(0., x.head<3>().norm() - PI), 1e-12);
    ref::M4 E = ref::exp6(x.cast<ref::L>());
    c.near("Exp(Ln(T)) = T, rotation", ref::dist(E.topLeftCorner<3, 3>(), T.topLeftCorner<3, 3>()), tol(o));
    c.near("Exp(Ln(T)) = T, translation", ref::dist(E.topRightCorner<3, 1>(), T.topRightCorner<3, 1>()), tt);
    Mat4 H = s.ln();
    c.near("ln is hat of ln_vee", ref::dist(H, ref::hat6(x.cast<ref::L>())), 1e-300);
    c.near("SE3 unchanged by ln", ref::dist(s.T(), T), 1e-300);
    SE3 g(T);
    g.regenerate();
    c.near("regenerate keeps the transformation, rotation", ref::dist(g.R(), T.topLeftCorner<3, 3>()), tol(o));
    c.near("regenerate keeps the transformation, translation", ref::dist(g.t(), t), tt);
    c.near("regenerate gives a valid element", (double)ref::se3_defect(g.T().cast<ref::L>()), 1e-12);
    c.outcome(vk::Hash().m(x).h);
}
int main(int argc, char **argv)
{
    vk::Ctx c("G02", argc, argv);
    auto rots = grid::rotations(c.thorough ? 14 : 8);
    auto dirs = grid::directions(c.thorough ? 7 : 4);
    auto mags = grid::angles(c.thorough ? 300 : 100, true);
    auto trans = grid::translations(true);
    for (auto &R : rots)
        c.each([&] { return "quaternion rotation " + ref::s(R); }, [&] {
            check_rot(c, R);
            for (auto &t : trans) check_se3(c, R, t);
            // built by composing with small rotations, so entries carry rounding errors
            Mat3 Q = SO3(Mat31(.1, -.2, .3)).R();
            ref::M3 R2 = (R.cast<double>() * Q * Q.transpose()).cast<ref::L>();
            check_rot(c, R2);
            for (auto &t : trans) check_se3(c, R2, t);
            c.outcome(vk::Hash().m(R).h); ++c.traces;
        });
    for (auto &d : dirs) for (double o : mags)
        c.each([&] { return "w = " + ref::s(d) + vk::fmt(" * %.17g", o); }, [&] {
            Mat31 w = d * o;
            ref::M3 R = ref::exp3(w.cast<ref::L>());
            check_rot(c, R);
            // with rounding errors, as left by compositions
            for (auto &qv : {Mat31(.1, -.2, .3), Mat31(2, .5, -1), Mat31(-.7, 0, .7)}) {
                Mat3 Q = SO3(qv).R();
                check_rot(c, (R.cast<double>() * Q * Q.transpose()).cast<ref::L>());
                check_rot(c, (Q * R.cast<double>() * Q.transpose()).cast<ref::L>());
            }
            c.outcome(vk::Hash().m(R).h); ++c.traces;
            double oo = w.norm();
            Mat31 b = SO3(w).ln_vee();
            if (oo < PI - 1e-12) {
                double e = ref::dist(b, w);
                if (PI - oo < 1.1e-6) e = std::min(e, PI - oo < 7e-8 ? ref::dist(b, -w) : e);
                c.near("Ln(Exp(w)) = w", e, PI - oo < 1.1e-6 ? 1e-6 : 1e-9);
            }
            for (auto &t : trans) {
                check_se3(c, R, t);
                Mat61 xi; xi << w, t;
                if (oo < PI - 1e-6) {
                    Mat61 y = SE3(xi).ln_vee();
                    // the inverse of V amplifies rounding by at most 1/(distance of the angle to a full turn)
                    c.near("Ln(Exp(xi)) = xi, rotation", ref::dist(y.head<3>(), w), 1e-9);
                    c.near("Ln(Exp(xi)) = xi, translation", ref::dist(y.tail<3>(), t), 1e-9 * (1 + t.norm()));
                }
            }
        });
    return c.finish();
}
