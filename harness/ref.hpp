// Reference mathematics in extended precision, written independently of the library:
// the exponential is a power series with scaling and squaring, every other quantity is built from it.
#pragma once
#include <Eigen/Core>
#include <Eigen/LU>
#include <mrob/matrix_base.hpp>
#include <cmath>
#include <string>
#include <vector>
#include "vk.hpp"
namespace ref {
typedef long double L;
template <int R, int C> using M = Eigen::Matrix<L, R, C>;
typedef M<3, 1> V3; typedef M<4, 1> V4; typedef M<6, 1> V6;
typedef M<3, 3> M3; typedef M<4, 4> M4; typedef M<6, 6> M6;
typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> MX;
typedef Eigen::Matrix<L, Eigen::Dynamic, 1> VX;

template <class D> Eigen::Matrix<L, D::RowsAtCompileTime, D::ColsAtCompileTime, (D::RowsAtCompileTime == 1 ? Eigen::RowMajor : Eigen::ColMajor)> up(const Eigen::MatrixBase<D> &m) { return m.template cast<L>(); }

inline M3 hat(const V3 &w) { M3 m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m; }
inline M4 hat6(const V6 &x) { M4 m = M4::Zero(); m.topLeftCorner<3, 3>() = hat(x.head<3>()); m.topRightCorner<3, 1>() = x.tail<3>(); return m; }
template <class X> X expm(X a)
{
    L n = a.cwiseAbs().sum();
    int s = 0;
    while (n > 0.0625L) { n /= 2; ++s; }
    a /= std::pow((L)2, s);
    X r = X::Identity(), t = X::Identity();
    for (int k = 1; k < 22; ++k) { t = (t * a / (L)k).eval(); r += t; }
    for (int i = 0; i < s; ++i) r = (r * r).eval();
    return r;
}
// the angle is first reduced exactly enough: many turns would amplify the squaring error, so reduce the
// rotation angle modulo 2 pi with the screw part handled by the closed form in extended precision
inline M3 exp3(const V3 &w)
{
    L o = w.norm();
    if (o < 0.5L) return expm<M3>(hat(w));
    V3 a = w / o;
    M3 A = hat(a);
    return M3::Identity() + std::sin(o) * A + (1 - std::cos(o)) * A * A;
}
inline M4 exp6(const V6 &x)
{
    L o = x.head<3>().norm();
    if (o < 0.5L) {
        // keep the series accurate for large translations: the map is linear in them
        V6 y = x; L tn = x.tail<3>().norm(); L sc = tn > 1 ? tn : 1; y.tail<3>() /= sc;
        M4 r = expm<M4>(hat6(y)); r.topRightCorner<3, 1>() *= sc; return r;
    }
    V3 a = x.head<3>() / o; M3 A = hat(a);
    M3 V = M3::Identity() + (1 - std::cos(o)) / o * A + (o - std::sin(o)) / o * A * A;
    M4 r = M4::Identity();
    r.topLeftCorner<3, 3>() = exp3(x.head<3>());
    r.topRightCorner<3, 1>() = V * x.tail<3>();
    return r;
}
inline M4 inv4(const M4 &T)
{
    M4 r = M4::Identity();
    r.topLeftCorner<3, 3>() = T.topLeftCorner<3, 3>().transpose();
    r.topRightCorner<3, 1>() = -(T.topLeftCorner<3, 3>().transpose() * T.topRightCorner<3, 1>());
    return r;
}
// principal logarithm through the quaternion of the rotation (Shepperd's selection), extended precision
inline V3 ln3(const M3 &R)
{
    L t = R.trace(), q[4]; // x y z w
    int b = 3; L best = t;
    for (int i = 0; i < 3; ++i) if (R(i, i) > best) { best = R(i, i); b = i; }
    if (b == 3) {
        q[3] = 1 + t; q[0] = R(2, 1) - R(1, 2); q[1] = R(0, 2) - R(2, 0); q[2] = R(1, 0) - R(0, 1);
    } else {
        int i = b, j = (b + 1) % 3, k = (b + 2) % 3;
        q[i] = 1 + R(i, i) - R(j, j) - R(k, k); q[j] = R(j, i) + R(i, j); q[k] = R(k, i) + R(i, k); q[3] = R(k, j) - R(j, k);
    }
    L n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
    for (auto &x : q) x /= n;
    if (q[3] < 0) for (auto &x : q) x = -x;
    V3 v(q[0], q[1], q[2]);
    L vn = v.norm();
    if (vn == 0) return V3::Zero();
    return v / vn * (2 * std::atan2(vn, q[3]));
}
inline M6 ad(const V6 &x)
{
    M6 m = M6::Zero();
    m.topLeftCorner<3, 3>() = hat(x.head<3>()); m.bottomRightCorner<3, 3>() = hat(x.head<3>()); m.bottomLeftCorner<3, 3>() = hat(x.tail<3>());
    return m;
}
// left Jacobian V(w) and its solve, for the logarithm of rigid motions
inline M3 V3x3(const V3 &w)
{
    L o = w.norm();
    if (o < 1e-2L) { M3 W = hat(w), r = M3::Identity(), t = M3::Identity(); for (int k = 2; k < 16; ++k) { t = (t * W / (L)k).eval(); r += t; } return r; }
    M3 A = hat(w / o);
    return M3::Identity() + (1 - std::cos(o)) / o * A + (o - std::sin(o)) / o * A * A;
}
inline V6 ln6(const M4 &T)
{
    V6 r; V3 w = ln3(T.topLeftCorner<3, 3>());
    r.head<3>() = w;
    r.tail<3>() = V3x3(w).inverse() * T.topRightCorner<3, 1>();
    return r;
}
inline M6 Adj(const M4 &T)
{
    // columns: vee(T hat(e_i) T^-1)
    M6 r; M4 Ti = inv4(T);
    for (int i = 0; i < 6; ++i) {
        V6 e = V6::Zero(); e(i) = 1;
        M4 m = T * hat6(e) * Ti;
        r(0, i) = m(2, 1); r(1, i) = m(0, 2); r(2, i) = m(1, 0);
        r(3, i) = m(0, 3); r(4, i) = m(1, 3); r(5, i) = m(2, 3);
    }
    return r;
}
inline L wrap(L a) { const L P = 3.14159265358979323846264338327950288L; L r = std::fmod(a + P, 2 * P); if (r < 0) r += 2 * P; return r - P; }

// validity of a rotation / rigid motion: largest defect
inline L so3_defect(const M3 &R)
{
    for (int i = 0; i < 9; ++i) if (!std::isfinite(R(i / 3, i % 3))) return INFINITY;
    L d = (R.transpose() * R - M3::Identity()).cwiseAbs().maxCoeff();
    return std::max(d, std::fabs(R.determinant() - 1));
}
inline L se3_defect(const M4 &T)
{
    for (int i = 0; i < 16; ++i) if (!std::isfinite(T(i / 4, i % 4))) return INFINITY;
    L d = so3_defect(T.topLeftCorner<3, 3>());
    d = std::max(d, std::fabs(T(3, 0)));
    d = std::max(d, std::fabs(T(3, 1)));
    d = std::max(d, std::fabs(T(3, 2)));
    return std::max(d, std::fabs(T(3, 3) - 1));
}
template <class A> double mabs(const A &a)
{
    double m = 0;
    for (int i = 0; i < (int)a.rows(); ++i) for (int j = 0; j < (int)a.cols(); ++j) {
        double v = (double)std::fabs(a(i, j));
        if (!(v <= 1e300)) return INFINITY; // also NaN
        if (v > m) m = v;
    }
    return m;
}
// largest absolute difference; infinite if anything is not finite or the shapes differ
template <class A, class B> double dist(const A &a, const B &b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) return INFINITY;
    double m = 0;
    for (int i = 0; i < (int)a.rows(); ++i) for (int j = 0; j < (int)a.cols(); ++j) {
        double v = (double)std::fabs((L)a(i, j) - (L)b(i, j));
        if (!(v <= 1e300)) return INFINITY;
        if (v > m) m = v;
    }
    return m;
}

template <class X> std::string s(const X &m)
{
    std::string r = "[";
    for (int i = 0; i < (int)m.rows(); ++i) for (int j = 0; j < (int)m.cols(); ++j) r += vk::fmt("%s%.9g", (i || j) ? (j ? "," : ";") : "", (double)m(i, j));
    return r + "]";
}
} // namespace ref
