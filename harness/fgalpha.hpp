// Alphabet of states and observations per factor type.
#pragma once
#include "fg.hpp"
#include <functional>
namespace alpha {
using namespace fg;
inline std::vector<St> poses2(bool t, int big)
{
    std::vector<St> r = {sv(P2, {0, 0, 0}), sv(P2, {1, 2, .3}), sv(P2, {-3, .5, 2}), sv(P2, {2, -1, -3.1}), sv(P2, {10, -20, 1.5707963267948966}), sv(P2, {.1, .2, -3.14159})};
    if (t) { r.push_back(sv(P2, {1000, 2000, 3})); r.push_back(sv(P2, {0, 1e-3, -1.2})); r.push_back(sv(P2, {-5, 7, -.7})); }
    if (big) for (int k = -11; k <= 11; k += big > 1 ? 1 : 2) r.push_back(sv(P2, {.5 * k, 7. - k, k * grid::PI / 12 + 1e-3}));
    return r;
}
inline std::vector<St> poses3(bool t, int big)
{
    std::vector<St> r = {sT(grid::tw(0, 0, 0, 0, 0, 0)), sT(grid::tw(.1, -.2, .3, 1, 2, -3)), sT(grid::tw(1.5, 0, .7, -4, .5, 2)), sT(grid::tw(0, 0, 3, 10, -20, 5)), sT(grid::tw(-2, 1, .5, .1, 0, -.2))};
    if (t) { r.push_back(sT(grid::tw(grid::PI, 0, 0, 1, 0, 0))); r.push_back(sT(grid::tw(1e-6, 0, -1e-6, 100, 200, -300))); r.push_back(sT(grid::tw(0, 2, -1, 1, 1, 1))); }
    if (big) for (auto &R : grid::rotations(big > 1 ? 2 : 1)) { Mat4 T = grid::mk(R, Mat31(1, -2, .5)); St x = sT(grid::tw(0, 0, 0, 0, 0, 0)); x.T = T.cast<L>(); r.push_back(x); }
    return r;
}
// calls fn(factor (identity information), state a, state b, nearwrap)
inline void each(int big, const std::function<void(const Fac &, const St &, const St &, bool)> &fn)
{
    const bool t = true;
    auto p2 = poses2(t, big), p3 = poses3(t, big);
    std::vector<VX> z2 = {vx({0, 0, 0}), vx({1, -.5, .4}), vx({-2, 3, 3}), vx({.3, .1, -2.9})};
    std::vector<VX> zo = {vx({0, 0, 0}), vx({.3, 1, -.2}), vx({2, -.5, 1.5}), vx({-3, 2, -1})};
    std::vector<VX> zl = {vx({1, 0}), vx({2.5, -1.3}), vx({.2, 3.1})};
    std::vector<St> l2 = {sv(L2, {1, 0}), sv(L2, {-2, 3}), sv(L2, {.5, -.25}), sv(L2, {-100, -40})};
    std::vector<Mat61> zT = {grid::tw(0, 0, 0, 0, 0, 0), grid::tw(.2, .1, -.3, 1, -1, .5), grid::tw(-1.5, 1, 1, 0, 3, -2), grid::tw(0, 0, -3, .1, .2, .3)};
    std::vector<St> l3 = {sv(L3, {0, 0, 0}), sv(L3, {1, 2, 3}), sv(L3, {-10, .5, 4})};
    std::vector<VX> z3 = {vx({0, 0, 0}), vx({1, -2, .5}), vx({.1, 3, -7})};
    std::vector<St> pl = {sv(PL, {1, 0, 0, 2}), sv(PL, {.6, 0, .8, -1}), sv(PL, {-.36, .48, .8, 5}), sv(PL, {0, -1, 0, .5})};
    std::vector<VX> zp = {vx({1, 0, 0, 2}), vx({0, 3, 4, 1}), vx({-.5, .5, .1, 4})};
    std::vector<VX> zq = {vx({0, 0, 0, 0, 0, 0, 0, 0, 1}), vx({1, 2, 3, -1, 0, 2, .6, .8, 0}), vx({-2, .5, 4, 3, 3, 3, -.36, .48, .8})};
    if (t) {
        z2.push_back(vx({100, 50, -1.1})); zo.push_back(vx({.1, 10, 3})); zl.push_back(vx({50, .7}));
        zT.push_back(grid::tw(grid::PI - 1e-3, 0, 0, 1, 1, 1)); l3.push_back(sv(L3, {100, -50, 20})); z3.push_back(vx({30, 0, 1}));
        pl.push_back(sv(PL, {.8, .6, 0, 30})); zp.push_back(vx({1, 1, 1, 20}));
        // observed angles outside [-pi, pi): one turn too many, several turns, either sign
        z2.push_back(vx({1, 2, 7})); z2.push_back(vx({0, -1, -6 - 4 * grid::PI}));
        zo.push_back(vx({.5, 1, 6})); zo.push_back(vx({-7, 2, -9})); zo.push_back(vx({20, 1, .5}));
        zl.push_back(vx({2, 6})); zl.push_back(vx({3, -20}));
        // normals that are not unit vectors, and planes and points far away or very near
        zq.push_back(vx({1, -2, .5, .1, .2, -.3, 1, -2, 2})); zq.push_back(vx({.3, .2, .1, 4, 5, 6, .01, .03, -.02})); zq.push_back(vx({10, 20, 30, 0, 0, 0, 0, 0, 0}));
        l2.push_back(sv(L2, {1e4, -3e3})); l3.push_back(sv(L3, {1e-3, -2e-3, 1e-3})); z3.push_back(vx({1e-3, 0, -1e-4}));
        pl.push_back(sv(PL, {0, .6, .8, 2e-3})); pl.push_back(sv(PL, {.48, -.6, .64, -400})); zp.push_back(vx({0, 0, 1e-3, 2e-3}));
    }
    auto I = [](int k) { return MX::Identity(fdim(k), fdim(k)); };
    St none = sv(L2, {0, 0});
    for (auto &A : p2) for (auto &z : z2) fn(mkf(F1P2, 0, -1, z, I(F1P2)), A, none, false);
    for (auto &A : p2) for (auto &B : p2) for (auto &z : z2) fn(mkf(F2P2, 0, 1, z, I(F2P2)), A, B, false);
    for (auto &A : p2) for (auto &B : p2) for (auto &z : zo) fn(mkf(FOD, 0, 1, z, I(FOD)), A, B, false);
    for (auto &A : p2) for (auto &B : l2) for (auto &z : zl) {
        L dx = B.v(0) - A.v(0), dy = B.v(1) - A.v(1);
        if (dx * dx + dy * dy < 1e-4L) continue; // no bearing is defined
        fn(mkf(FL2, 0, 1, z, I(FL2)), A, B, false);
    }
    // landmarks close to the pose: from just above the singular distance (1 mm) to a decimetre
    for (auto &A : p2) for (double d : {1.5e-3, 5e-3, .02, .09, .3}) for (double h : {.4, -2.2}) for (auto &z : {vx({1, 0}), vx({2e-3, -1.3})}) fn(mkf(FL2, 0, 1, z, I(FL2)), A, sv(L2, {(double)A.v(0) + d * std::cos(h), (double)A.v(1) + d * std::sin(h)}), false);
    for (auto &A : p3) for (double d : {1e-6, 1e-3, .05}) { Mat31 t = A.T.topRightCorner<3, 1>().cast<double>(); fn(mkf(FL3, 0, 1, vx({.1, 0, -.2}), I(FL3)), A, sv(L3, {t(0) + d, t(1) - d, t(2) + 2 * d}), false); }
    for (auto &A : p3) for (auto &z : zT) fn(mkT(F1P3, 0, -1, z, I(F1P3)), A, none, false);
    for (auto &A : p3) for (auto &B : p3) for (auto &z : zT) fn(mkT(F2P3, 0, 1, z, I(F2P3)), A, B, false);
    for (auto &A : p3) for (auto &B : l3) for (auto &z : z3) fn(mkf(FL3, 0, 1, z, I(FL3)), A, B, false);
    for (auto &A : p3) for (auto &B : pl) for (auto &z : zp) {
        ref::V4 p = A.T.transpose() * B.v;
        if (std::fabs(p(3)) < 1e-9L) continue; // the side of the plane is not defined
        fn(mkf(FPL, 0, 1, z, I(FPL)), A, B, false);
    }
    // planes that pass close to the pose, on either side
    for (auto &A : p3) for (double d : {-.2, -2e-3, -4e-4, 4e-4, -1e-6, 1e-6}) for (auto &z : zp) {
        ref::V4 p(2 / 3., -1 / 3., 2 / 3., d), w = ref::inv4(A.T).transpose() * p;
        fn(mkf(FPL, 0, 1, z, I(FPL)), A, sv(PL, {(double)w(0), (double)w(1), (double)w(2), (double)w(3)}), false);
    }
    for (auto &A : p3) for (auto &z : zq) fn(mkf(FPT, 0, -1, z, I(FPT)), A, none, false);
    // residuals that are small: the observation taken from the states, then the states moved a little
    for (double e : {1e-8, 1e-6, 1e-4, 8e-4, 6e-3, .03, .1}) {
        auto mv = [&](const St &s, int salt) { VX d(vdim(s.k)); for (int i = 0; i < d.size(); ++i) d(i) = e * std::cos(1.1 * i + salt); return update(s, d); };
        size_t i = 0;
        auto some = [&] { return big || i++ % 3 == 0; };
        for (auto &A : p2) fn(mkf(F1P2, 0, -1, A.v, I(F1P2)), mv(A, 1), none, false);
        for (auto &A : p2) for (auto &B : p2) if (some()) { Fac f = mkf(F2P2, 0, 1, vx({0, 0, 0}), I(F2P2)); VX r = resid(f, A, B).r; f.z = r.cast<double>().cast<L>(); fn(f, mv(A, 2), B, false); }
        for (auto &A : p2) for (auto &z : zo) if (z(1) > .2) { St B = A; L h = A.v(2) + z(0); B.v << A.v(0) + z(1) * std::cos(h), A.v(1) + z(1) * std::sin(h), ref::wrap(h + z(2)); fn(mkf(FOD, 0, 1, z, I(FOD)), A, mv(B, 3), false); }
        for (auto &A : p2) for (auto &z : zl) { St B = l2[0]; L h = A.v(2) + z(1); B.v << A.v(0) + z(0) * std::cos(h), A.v(1) + z(0) * std::sin(h); fn(mkf(FL2, 0, 1, z, I(FL2)), A, mv(B, 4), false); }
        for (auto &A : p3) { Fac f = mkT(F1P3, 0, -1, grid::tw(0, 0, 0, 0, 0, 0), I(F1P3)); f.Tz = A.T.cast<double>().cast<L>(); fn(f, mv(A, 5), none, false); }
        for (auto &A : p3) for (auto &B : p3) if (some()) { Fac f = mkT(F2P3, 0, 1, grid::tw(0, 0, 0, 0, 0, 0), I(F2P3)); f.Tz = (ref::inv4(A.T) * B.T).cast<double>().cast<L>(); fn(f, A, mv(B, 6), false); }
        for (auto &A : p3) for (auto &B : l3) if (some()) { Fac f = mkf(FL3, 0, 1, vx({0, 0, 0}), I(FL3)); VX r = resid(f, A, B).r; f.z = r.cast<double>().cast<L>(); fn(f, mv(A, 7), B, false); }
        for (auto &A : p3) for (auto &B : pl) { ref::V4 p = A.T.transpose() * B.v; if (std::fabs(p(3)) < .5L) continue; VX z = p(3) < 0 ? VX(-p) : VX(p); fn(mkf(FPL, 0, 1, z.cast<double>().cast<L>(), I(FPL)), mv(A, 8), B, false); }
        for (auto &A : p3) for (auto &z0 : zq) { VX z = z0; ref::V3 X = A.T.topLeftCorner<3, 3>() * z.segment(0, 3) + A.T.topRightCorner<3, 1>(); z.segment(3, 3) = X.cast<double>().cast<L>(); fn(mkf(FPT, 0, -1, z, I(FPT)), mv(A, 9), none, false); }
    }
    // residuals that vanish: observation taken from the states
    for (auto &A : p2) fn(mkf(F1P2, 0, -1, A.v, I(F1P2)), A, none, false);
    for (auto &A : p2) for (auto &B : p2) { Fac f = mkf(F2P2, 0, 1, vx({0, 0, 0}), I(F2P2)); VX r = resid(f, A, B).r; f.z = r.cast<double>().cast<L>(); fn(f, A, B, false); }
    for (auto &A : p3) for (auto &B : p3) { Fac f = mkT(F2P3, 0, 1, grid::tw(0, 0, 0, 0, 0, 0), I(F2P3)); f.Tz = (ref::inv4(A.T) * B.T).cast<double>().cast<L>(); fn(f, A, B, false); }
    for (auto &A : p3) for (auto &B : l3) { Fac f = mkf(FL3, 0, 1, vx({0, 0, 0}), I(FL3)); VX r = resid(f, A, B).r; f.z = r.cast<double>().cast<L>(); fn(f, A, B, false); }
}
} // namespace alpha
