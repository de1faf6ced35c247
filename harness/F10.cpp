// F10: all operation sequences on a node, per node type, plus wrap_angle over magnitudes.
#include "fg.hpp"
#include <limits>
using namespace fg;
struct M { St s, a; double ts, ta; };
static void explore(vk::Ctx &c, int kind, const std::vector<St> &vals, const std::vector<VX> &incs, int depth)
{
    // ops: set_state(v), set_auxiliary(v), update(dx), update_from_auxiliary(dx), save, restore
    int nv = vals.size(), ni = incs.size(), nops = 2 * nv + 2 * ni + 2;
    auto oname = [&](int o) {
        if (o < nv) return "set_state " + ref::s(val(vals[o]));
        if (o < 2 * nv) return "set_auxiliary " + ref::s(val(vals[o - nv]));
        if (o < 2 * nv + ni) return "update " + ref::s(incs[o - 2 * nv]);
        if (o < 2 * nv + 2 * ni) return "update_from_auxiliary " + ref::s(incs[o - 2 * nv - ni]);
        return std::string(o == nops - 2 ? "save" : "restore");
    };
    for (size_t in = 0; in < vals.size(); ++in) for (int anchor = 0; anchor < 2; ++anchor) for (int o1 = 0; o1 < nops; ++o1) for (int o2 = 0; o2 < nops; ++o2)
        c.each([&] { return vk::fmt("%s%s from %s: ", anchor ? "anchored " : "", vname(kind), ref::s(val(vals[in])).c_str()) + oname(o1) + "; " + oname(o2) + vk::fmt("; ... depth %d", depth); }, [&] {
            std::vector<int> seq;
            auto wrapst = [&](St s) { if (s.k == P2) s.v(2) = ref::wrap(s.v(2)); return s; };
            auto model = [&](const M &m0, int o) {
                M m = m0;
                // a pose is composed with the exponential of the increment and then re-generated from its logarithm
                auto regen = [&](const St &s) { double a = (double)ref::ln3(s.T.topLeftCorner<3, 3>()).norm(); return a < 1.5 ? 3e-14 : a < 3.1 ? 1e-12 : 2e-9; };
                auto grow = [&](double t, const St &s, const VX &inc) { return t * (kind == P3 ? 4 : 1) + (kind == P3 ? regen(s) : 1e-14) * mag(s) + (kind == P3 ? 0 : 4e-16 * (double)inc.norm()); };
                if (o < nv) { m.s = wrapst(vals[o]); m.ts = 1e-14 * mag(m.s); }
                else if (o < 2 * nv) { m.a = wrapst(vals[o - nv]); m.ta = 1e-14 * mag(m.a); }
                else if (o < 2 * nv + ni) { m.s = update(m.s, incs[o - 2 * nv]); m.ts = grow(m.ts, m.s, incs[o - 2 * nv]); }
                else if (o < 2 * nv + 2 * ni) { m.s = update(m.a, incs[o - 2 * nv - ni]); m.ts = grow(m.ta, m.s, incs[o - 2 * nv - ni]); }
                else if (o == nops - 2) { m.a = wrapst(m.s); m.ta = m.ts; }
                else { m.s = wrapst(m.a); m.ts = m.ta; }
                // within a millionth of half a turn re-generation is only accurate to 1e-6
                if (kind == P3 && o >= 2 * nv && o < 2 * nv + 2 * ni && grid::PI - (double)ref::ln3(m.s.T.topLeftCorner<3, 3>()).norm() < 2e-6) m.ts += 2e-6 * mag(m.s);
                return m;
            };
            auto apply = [&](Node &n, int o) {
                if (o < nv) n.set_state(val(vals[o]));
                else if (o < 2 * nv) n.set_auxiliary_state(val(vals[o - nv]));
                else if (o < 2 * nv + ni) { MatX1 dx = incs[o - 2 * nv].cast<double>(); n.update(dx); }
                else if (o < 2 * nv + 2 * ni) { MatX1 dx = incs[o - 2 * nv - ni].cast<double>(); n.update_from_auxiliary(dx); }
                else if (o == nops - 2) n.set_auxiliary_state(n.get_state());
                else n.set_state(n.get_auxiliary_state());
            };
            std::function<void(const M &)> rec = [&](const M &m) {
                if ((int)seq.size() == depth) return;
                int lo = 0, hi = nops;
                if (seq.size() == 0) { lo = o1; hi = o1 + 1; }
                if (seq.size() == 1) { lo = o2; hi = o2 + 1; }
                for (int o = lo; o < hi; ++o) {
                    seq.push_back(o);
                    M mm = model(m, o);
                    PN n = mknode(vals[in], anchor ? Node::ANCHOR : Node::STANDARD);
                    for (size_t i = 0; i + 1 < seq.size(); ++i) apply(*n, seq[i]);
                    MatX s0 = n->get_state(), a0 = n->get_auxiliary_state();
                    apply(*n, o);
                    ++c.transitions; ++c.traces; c.evals += 3;
                    MatX s1 = n->get_state(), a1 = n->get_auxiliary_state();
                    bool onaux = (o >= nv && o < 2 * nv) || o == nops - 2;
                    auto desc = [&] { std::string s; for (int q : seq) s += oname(q) + "; "; return s; };
                    if (onaux && !(s0.array() == s1.array()).all()) VK_FAIL("after %s the principal state changed", desc().c_str());
                    if (!onaux && !(a0.array() == a1.array()).all()) VK_FAIL("after %s the auxiliary state changed", desc().c_str());
                    double e = sdist(mm.s, s1), ea = sdist(mm.a, a1);
                    if (!(e <= mm.ts * 10)) VK_FAIL("after %s the state is %s, expected %s (error %.3g)", desc().c_str(), ref::s(s1).c_str(), ref::s(val(mm.s)).c_str(), e);
                    if (!(ea <= mm.ta * 10)) VK_FAIL("after %s the auxiliary state is %s, expected %s (error %.3g)", desc().c_str(), ref::s(a1).c_str(), ref::s(val(mm.a)).c_str(), ea);
                    if (kind == P2) {
                        bool touched = false, atouched = false;
                        for (int q : seq) { if ((q >= nv && q < 2 * nv) || q == nops - 2) atouched = true; else touched = true; }
                        if (touched && !(s1(2, 0) >= -M_PI && s1(2, 0) < M_PI)) VK_FAIL("after %s the heading %.17g is outside [-pi,pi)", desc().c_str(), s1(2, 0));
                        if (atouched && !(a1(2, 0) >= -M_PI && a1(2, 0) < M_PI)) VK_FAIL("after %s the auxiliary heading %.17g is outside [-pi,pi)", desc().c_str(), a1(2, 0));
                    }
                    if (kind == P3) {
                        double d = std::max((double)ref::se3_defect(s1.topLeftCorner<4, 4>().cast<L>()), (double)ref::se3_defect(a1.topLeftCorner<4, 4>().cast<L>()));
                        if (!(d <= 1e-12)) VK_FAIL("after %s the pose is not a rigid motion (defect %.3g)", desc().c_str(), d);
                    }
                    if (kind == PL && o >= 2 * nv && o < nops - 2) { double d = std::fabs(s1.topRows(3).norm() - 1); if (!(d <= 1e-12)) VK_FAIL("after %s the normal has norm 1 %+.3g", desc().c_str(), d); }
                    c.state(vk::Hash().i(kind).m(s1).m(a1).h);
                    rec(mm);
                    seq.pop_back();
                }
            };
            M m0{vals[in], vals[in], 1e-15, 1e-15};
            rec(m0);
        });
}
int main(int argc, char **argv)
{
    vk::Ctx c("F10", argc, argv);
    int d = c.thorough ? 6 : 5;
    const double PI = grid::PI;
    explore(c, P2, {sv(P2, {1, 2, .3}), sv(P2, {-5, 1e3, -3.1}), sv(P2, {0, 0, 3})}, {vx({.1, -.2, .5}), vx({3, 0, -1}), vx({0, 1, 7}), vx({1, 1, -1e4}), vx({1e-9, -1e-7, 3e-8}), vx({0, 0, 0})}, d);
    explore(c, L2, {sv(L2, {1, 2}), sv(L2, {-1e6, .3})}, {vx({.1, -.2}), vx({100, 0}), vx({-1e-9, 2e-7}), vx({0, 0})}, d);
    explore(c, L3, {sv(L3, {1, 2, 3}), sv(L3, {-1e6, .3, 0})}, {vx({.1, -.2, 5}), vx({100, 0, 1}), vx({1e-9, 0, -3e-7}), vx({0, 0, 0})}, d);
    explore(c, P3, {sT(grid::tw(.1, -.2, .3, 1, 2, -3)), sT(grid::tw(1.5, 1, -2, 100, -50, 2)), sT(grid::tw(0, 0, 0, 0, 0, 0))},
            {vx({.1, .2, -.1, 1, 0, -1}), vx({2, -1, 1, 0, 0, 3}), vx({1e-7, 0, -1e-7, 1e-5, 0, 0}), vx({5e-6, -6e-6, 4e-6, 0, 1e-6, .3}), vx({1e-9, 2e-9, 0, .5, -1, 2}), vx({9e-6, -5e-6, 7e-6, 8e-6, -9e-6, 3e-6}), vx({8e-4, -9e-4, 5e-4, 7e-4, 6e-4, -9e-4}), vx({0, 0, 0, 0, 0, 0})}, c.thorough ? 5 : 4);
    explore(c, PL, {sv(PL, {1, 0, 0, 2}), sv(PL, {-.36, .48, .8, -5})}, {vx({.1, .2, -.1, 1}), vx({0, 0, 0, -3}), vx({3e-8, 2e-9, -1e-9, 1e-6}), vx({.5, -.5, .2, 0}), vx({4e-7, 2e-4, -1e-4, 1e-6}), vx({-3e-4, 1e-9, 2e-4, 0}), vx({-.005, .01, .002, .1}), vx({0, 0, 0, 0})}, d);
    // long chains of updates keep 3D poses valid and exact
    for (auto &x : {grid::tw(.01, -.02, .03, .1, 0, -.1), grid::tw(1, 2, -.5, 0, 1, 0), grid::tw(0, 0, PI / 2, 0, 0, 0), grid::tw(5e-6, -6e-6, 4e-6, 0, 1e-6, .3), grid::tw(1e-9, 2e-9, -1e-7, .5, 0, -1), grid::tw(3e-4, 0, -2e-4, 0, .01, 0), grid::tw(9e-6, -5e-6, 7e-6, 8e-6, -9e-6, 3e-6), grid::tw(9e-8, 5e-8, -7e-8, 8e-8, 1e-8, 3e-8)}) {
        Mat61 xx = x;
        c.each([=] { return "2000 updates with " + ref::s(xx); }, [&] {
            St s = sT(grid::tw(.1, -.2, .3, 1, 2, -3));
            PN n = mknode(s);
            MatX1 dx = xx;
            ref::V6 lx = xx.cast<L>();
            ref::M4 E = ref::exp6(lx);
            double tol = 1e-12;
            for (int i = 0; i < 2000; ++i) {
                n->update(dx);
                s.T = (E * s.T).eval();
                double an = (double)ref::ln3(s.T.topLeftCorner<3, 3>()).norm();
                tol += PI - an < 1e-5 ? 1e-6 : an > 3.1 ? 1e-9 : an > 1.5 ? 1e-12 : 3e-14;
                ++c.transitions;
                c.near("long chain stays valid", (double)ref::se3_defect(MatX(n->get_state()).topLeftCorner<4, 4>().cast<L>()), 1e-12);
                c.near("rotation of a long chain is regenerated", (double)ref::se3_defect(MatX(n->get_state()).topLeftCorner<4, 4>().cast<L>()), 1e-14);
                c.near("long chain stays exact", sdist(s, n->get_state()), tol * mag(s));
            }
        });
    }
    // long chains of updates keep plane normals unit and exact: tiny steps along and across the normal
    for (double a : {3e-8, -4e-8, 3e-6, 1e-9, -1e-4, 1e-3}) for (double b : {0., 1e-9, -1e-5}) for (int aux = 0; aux < 2; ++aux)
        c.each([=] { return vk::fmt("3000 updates of a plane by %g along and %g across its normal%s", a, b, aux ? " from the auxiliary state" : ""); }, [&] {
            St s = sv(PL, {-.36, .48, .8, -5});
            PN n = mknode(s);
            VX dx = vx({-.36 * a + .8 * b, .48 * a, .8 * a + .36 * b, 3 * a});
            MatX1 d = dx.cast<double>();
            for (int i = 0; i < 3000; ++i) {
                if (aux) { n->set_auxiliary_state(n->get_state()); n->update_from_auxiliary(d); } else n->update(d);
                s = update(s, dx);
                ++c.transitions;
                c.near("normal stays a unit vector", std::fabs(MatX(n->get_state()).topRows(3).norm() - 1), 1e-14);
                c.near("chain of plane updates stays exact", sdist(s, n->get_state()), 1e-15 * (i + 2) * 6);
            }
        });
    // wrap_angle: terminating, equivalent angle, range
    std::vector<double> as;
    for (int k = -400; k <= 400; ++k) for (double e : {0., 1e-15, -1e-15, 1e-9, -1e-9, 1e-3, -1e-3, .5}) as.push_back(k * PI / 4 + e);
    for (int p = -300; p <= 308; p += 4) for (double m : {1., 1.7, 3.3, 9.9}) for (double s : {1., -1.}) if (std::isfinite(m * std::pow(10., p))) as.push_back(s * m * std::pow(10., p));
    for (double x : {M_PI, -M_PI, std::nextafter(M_PI, 0), std::nextafter(M_PI, 4), std::nextafter(-M_PI, 0), std::nextafter(-M_PI, -4), 2 * M_PI, -2 * M_PI, 1e300, -1e300, 1e15, 1e16, 1e17, -1e18, std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), 0., -0.}) as.push_back(x);
    for (size_t i = 0; i < as.size(); ++i)
        c.each([&] { return vk::fmt("wrap_angle(%.17g)", as[i]); }, [&] {
            double a = as[i], w = wrap_angle(a);
            ++c.traces;
            c.req(w >= -M_PI && w < M_PI, "wrapped angle lies in [-pi,pi)");
            // equivalence modulo the double 2*M_PI for moderate sizes (beyond, rounding of a exceeds a turn)
            if (std::fabs(a) < 1e9) {
                L d = ((L)a - (L)w) / (2 * 3.14159265358979323846264338327950288L);
                c.near("wrapped angle is equivalent", (double)std::fabs(d - std::round(d)), 1e-15 * (1 + std::fabs(a)) * 4);
            }
            c.state(vk::Hash().i(99).d(w).h);
        });
    for (double x : {INFINITY, -INFINITY, NAN})
        c.each([=] { return vk::fmt("wrap_angle(%g) terminates", x); }, [&] { volatile double w = wrap_angle(x); (void)w; ++c.evals; });
    return c.finish();
}
