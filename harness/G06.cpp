// G06: quaternion, roll-pitch-yaw, hat and vee conversions.
#include "grids.hpp"
#include <mrob/SE3.hpp>
using namespace mrob;
using ref::L;
static ref::M3 qrot(L x, L y, L z, L w)
{
    L s = x * x + y * y + z * z + w * w;
    ref::M3 R;
    R << 1 - 2 * (y * y + z * z) / s, 2 * (x * y - z * w) / s, 2 * (x * z + y * w) / s,
        2 * (x * y + z * w) / s, 1 - 2 * (x * x + z * z) / s, 2 * (y * z - x * w) / s,
        2 * (x * z - y * w) / s, 2 * (y * z + x * w) / s, 1 - 2 * (x * x + y * y) / s;
    return R;
}
static void back(vk::Ctx &c, const Mat3 &R)
{
    Mat41 p = so3_to_quat(R);
    c.near("so3_to_quat is a unit quaternion", std::fabs(p.norm() - 1), 1e-12);
    c.near("so3_to_quat is a quaternion of the rotation", ref::dist(qrot(p(0), p(1), p(2), p(3)), R), 1e-12);
    c.near("rotation -> quaternion -> rotation", ref::dist(quat_to_so3(p), R), 1e-12);
}
int main(int argc, char **argv)
{
    vk::Ctx c("G06", argc, argv);
    int n = c.thorough ? 12 : 6;
    for (int w = -n; w <= n; ++w) for (int x = -n; x <= n; ++x) for (int y = -n; y <= n; ++y) for (int z = -n; z <= n; ++z) {
        if (!w && !x && !y && !z) continue;
        c.each([&] { return vk::fmt("quaternion %d %d %d %d", x, y, z, w); }, [&] {
            ref::M3 R = qrot(x, y, z, w);
            const double nq = std::sqrt((double)(x * x + y * y + z * z + w * w));
            for (double s : {1., -1., 1e-3, 1e3, 1e-8, 1e8, .37, 1 / nq, -1 / nq, (1 + 1e-2) / nq, (1 - 1e-3) / nq, (1 + 1e-4) / nq, (1 - 1e-5) / nq, (1 + 1e-6) / nq, (1 - 1e-7) / nq, (1 + 1e-8) / nq, (1 - 1e-10) / nq}) {
                Mat41 q(x * s, y * s, z * s, w * s), q0 = q;
                Mat3 M = quat_to_so3(q);
                c.near("quat_to_so3", ref::dist(M, R), 1e-14);
                c.req(q == q0, "quat_to_so3 leaves its argument");
            }
            back(c, R.cast<double>());
            Mat41 q(x, y, z, w), p = so3_to_quat(quat_to_so3(q));
            q.normalize();
            c.near("quaternion -> rotation -> quaternion (up to sign)", std::min(ref::dist(p, q), ref::dist(p, -q)), 1e-12);
            ++c.traces; c.outcome(vk::Hash().m(q).h);
        });
    }
    for (auto &d : grid::directions(c.thorough ? 6 : 3)) for (double o : grid::angles(c.thorough ? 200 : 20, false))
        c.each([&] { return "w = " + ref::s(d) + vk::fmt(" * %.17g", o); }, [&] {
            Mat31 w = d * o;
            ref::M3 R = ref::exp3(w.cast<L>());
            back(c, R.cast<double>());
            ++c.traces; c.outcome(vk::Hash().m(R).i(1).h);
        });
    std::vector<double> an = {0, 1e-8, -1e-4, .3, -.7, grid::PI / 4, grid::PI / 2, -grid::PI / 2, 2, -2.5, grid::PI, -grid::PI, 4, 2 * grid::PI, -20};
    for (int i = c.thorough ? -36 : -12; i <= (c.thorough ? 36 : 12); ++i) an.push_back(i * grid::PI / (c.thorough ? 18 : 6));
    // next to the gimbal lock, next to zero and next to a half turn
    for (double e : {1e-12, 1e-9, 1e-7, 3e-6, 1e-4}) for (double b : {grid::PI / 2 - e, e - grid::PI / 2, grid::PI / 2 + e, grid::PI - e, e}) an.push_back(b);
    for (double a : an) for (double b : an)
        c.each([&] { return vk::fmt("rpy %g %g *", a, b); }, [&] {
            for (double g : an) {
                ref::M3 R = ref::exp3(ref::V3(a, 0, 0)) * ref::exp3(ref::V3(0, b, 0)) * ref::exp3(ref::V3(0, 0, g));
                c.near("rpy_to_so3", ref::dist(rpy_to_so3(Mat31(a, b, g)), R), 1e-13);
                c.outcome(vk::Hash().i(2).d(a).d(b).d(g).h);
            }
            ++c.traces;
        });
    std::vector<double> vs = {0, 1, -2, 1e-9, 1e9, .5};
    for (double a : vs) for (double b : vs) for (double d : vs)
        c.each([&] { return vk::fmt("hat %g %g %g", a, b, d); }, [&] {
            Mat31 w(a, b, d);
            Mat3 H = hat3(w);
            for (double x : vs) for (double y : vs) for (double z : vs) {
                Mat31 v(x, y, z), k(b * z - d * y, d * x - a * z, a * y - b * x);
                c.near("hat3(w) v = w x v", ref::dist(H * v, k), 1e-15 * (1 + w.norm()) * (1 + v.norm()) * 4);
                Mat61 xi; xi << w, v;
                Mat4 X = hat6(xi);
                c.near("hat6 rotation block", ref::dist(X.topLeftCorner<3, 3>(), H), 1e-300);
                c.near("hat6 translation block", ref::dist(X.topRightCorner<3, 1>(), v), 1e-300);
                c.near("hat6 last row", X.row(3).cwiseAbs().maxCoeff(), 1e-300);
                c.near("vee6(hat6(x)) = x", ref::dist(vee6(X), xi), 1e-300);
                c.outcome(vk::Hash().m(xi).i(3).h);
            }
            c.near("hat3 skew", ref::dist(H, -H.transpose()), 1e-300);
            c.near("vee3(hat3(w)) = w", ref::dist(vee3(H), w), 1e-300);
            ++c.traces;
        });
    return c.finish();
}
