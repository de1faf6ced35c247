// Reference model of factor graphs: states, observation models, numerically differentiated Jacobians in
// extended precision, dense normal equations.  Shares no code with the library.
#pragma once
#include "grids.hpp"
#include <memory>
#include <mrob/SE3.hpp>
#include <mrob/factor_graph_solve.hpp>
#include <mrob/factor_graph_solve_dense.hpp>
#include <mrob/factors/nodePose2d.hpp>
#include <mrob/factors/nodePose3d.hpp>
#include <mrob/factors/nodeLandmark2d.hpp>
#include <mrob/factors/nodeLandmark3d.hpp>
#include <mrob/factors/nodePlane4d.hpp>
#include <mrob/factors/factor1Pose2d.hpp>
#include <mrob/factors/factor2Poses2d.hpp>
#include <mrob/factors/factor1Pose1Landmark2d.hpp>
#include <mrob/factors/factor1Pose3d.hpp>
#include <mrob/factors/factor2Poses3d.hpp>
#include <mrob/factors/factor1Pose1Landmark3d.hpp>
#include <mrob/factors/factor1Pose1Plane4d.hpp>
#include <mrob/factors/factor1PosePoint2Plane.hpp>
namespace fg {
using namespace mrob;
using ref::L; using ref::MX; using ref::VX;
typedef std::shared_ptr<Node> PN;
typedef std::shared_ptr<Factor> PF;
enum VK { P2, L2, P3, L3, PL };
inline const char *vname(int k) { static const char *n[] = {"Pose2d", "Landmark2d", "Pose3d", "Landmark3d", "Plane4d"}; return n[k]; }
inline int vdim(int k) { static int d[] = {3, 2, 6, 3, 4}; return d[k]; }
enum FK { F1P2, F2P2, FOD, FL2, F1P3, F2P3, FL3, FPL, FPT };
inline const char *fname(int k) { static const char *n[] = {"1Pose2d", "2Poses2d", "2Poses2dOdom", "Landmark2d", "1Pose3d", "2Poses3d", "Landmark3d", "Plane4d", "Point2Plane"}; return n[k]; }
inline int fdim(int k) { static int d[] = {3, 3, 3, 2, 6, 6, 3, 4, 1}; return d[k]; }
inline bool binary(int k) { return !(k == F1P2 || k == F1P3 || k == FPT); }

struct St { int k; VX v; ref::M4 T; };
inline St sv(int k, std::initializer_list<double> x) { St s; s.k = k; s.v.resize(x.size()); int i = 0; for (double d : x) s.v(i++) = d; s.T = ref::M4::Identity(); return s; }
inline St sT(const Mat61 &xi) { St s; s.k = P3; s.T = SE3(xi).T().cast<L>(); return s; } // rounded to double as the library stores it
inline MatX val(const St &s) { if (s.k == P3) return s.T.cast<double>(); return s.v.cast<double>(); }
inline void load(St &s, const MatX &m) { if (s.k == P3) s.T = m.cast<L>(); else s.v = m.cast<L>(); }
inline double mag(const St &s) { return 1 + (s.k == P3 ? (double)s.T.topRightCorner<3, 1>().norm() : (double)s.v.norm()); }
inline St update(St s, const VX &dx)
{
    if (s.k == P3) { ref::V6 x = dx; s.T = (ref::exp6(x) * s.T).eval(); return s; }
    s.v += dx;
    if (s.k == P2) s.v(2) = ref::wrap(s.v(2));
    if (s.k == PL) s.v.head(3) /= s.v.head(3).norm();
    return s;
}
// the four plane coordinates change freely under the derivative, the normal is re-normalised afterwards
inline St update_free(St s, const VX &dx)
{
    if (s.k == PL) { s.v += dx; return s; }
    if (s.k == P2) { s.v += dx; return s; }
    return update(s, dx);
}
// state distance, with the heading compared on the circle
inline double sdist(const St &a, const MatX &b)
{
    if (a.k == P3) return ref::dist(a.T, b);
    if (b.rows() != a.v.rows() || b.cols() != 1) return INFINITY;
    double m = 0;
    for (int i = 0; i < a.v.rows(); ++i) {
        L d = a.v(i) - (L)b(i, 0);
        if (a.k == P2 && i == 2) d = ref::wrap(d);
        if (!(std::fabs(d) < 1e300L)) return INFINITY;
        m = std::max(m, (double)std::fabs(d));
    }
    return m;
}

struct Fac {
    int k, a, b;   // a: pose or origin, b: landmark or target (-1 if unary)
    VX z;          // observation (vector kinds), or the point pair and normal of Point2Plane (9 numbers)
    ref::M4 Tz;    // observation (3D poses)
    MX W;
    int robust;
    bool alt = false; // build through the overload taking SE3 instead of a 4x4 matrix
};
inline VX vx(std::initializer_list<double> x) { VX v(x.size()); int i = 0; for (double d : x) v(i++) = d; return v; }
inline Fac mkf(int k, int a, int b, VX z, const MX &W, int robust = 0) { Fac f; f.k = k; f.a = a; f.b = b; f.z = z; f.Tz = ref::M4::Identity(); f.W = W; f.robust = robust; if (k == FPL) f.z.head(3) = f.z.head(3) / f.z.head(3).norm(); return f; }
inline Fac mkT(int k, int a, int b, const Mat61 &xi, const MX &W, int robust = 0) { Fac f; f.k = k; f.a = a; f.b = b; f.Tz = SE3(xi).T().cast<L>(); f.W = W; f.robust = robust; return f; }

struct RT { bool tang; VX r; ref::M4 T; bool flip; };
// documented residual; for 3D poses also the residual transformation
inline RT resid(const Fac &f, const St &A, const St &B)
{
    RT o; o.tang = false; o.flip = false;
    switch (f.k) {
    case F1P2: o.r = A.v - f.z; o.r(2) = ref::wrap(o.r(2)); break;
    case F2P2: {
        L c = std::cos(A.v(2)), s = std::sin(A.v(2)), dx = B.v(0) - A.v(0), dy = B.v(1) - A.v(1);
        o.r.resize(3);
        o.r << c * dx + s * dy - f.z(0), -s * dx + c * dy - f.z(1), ref::wrap(B.v(2) - A.v(2) - f.z(2));
        break; }
    case FOD: {
        L h = A.v(2) + f.z(0);
        o.r.resize(3);
        o.r << A.v(0) + f.z(1) * std::cos(h) - B.v(0), A.v(1) + f.z(1) * std::sin(h) - B.v(1), ref::wrap(A.v(2) + f.z(0) + f.z(2) - B.v(2));
        break; }
    case FL2: {
        L dx = B.v(0) - A.v(0), dy = B.v(1) - A.v(1);
        o.r.resize(2);
        o.r << std::sqrt(dx * dx + dy * dy) - f.z(0), ref::wrap(std::atan2(dy, dx) - A.v(2) - f.z(1));
        break; }
    case F1P3: o.tang = true; o.T = A.T * ref::inv4(f.Tz); o.r = ref::ln6(o.T); break;
    case F2P3: o.tang = true; o.T = A.T * f.Tz * ref::inv4(B.T); o.r = ref::ln6(o.T); break;
    case FL3: o.r = A.T.topLeftCorner<3, 3>().transpose() * (B.v - A.T.topRightCorner<3, 1>()) - f.z; break;
    case FPL: {
        ref::V4 p = A.T.transpose() * B.v;
        o.flip = p(3) < 0;
        o.r = o.flip ? VX(p + f.z) : VX(p - f.z);
        break; }
    case FPT: {
        ref::V3 x = f.z.segment(0, 3), y = f.z.segment(3, 3), n = f.z.segment(6, 3);
        o.r.resize(1);
        o.r(0) = n.dot(A.T.topLeftCorner<3, 3>() * x + A.T.topRightCorner<3, 1>() - y);
        break; }
    }
    return o;
}
inline L chi2(const Fac &f, const St &A, const St &B) { VX r = resid(f, A, B).r; return 0.5L * r.dot(f.W * r); }
// is component i of the residual an angle?
inline bool isangle(int k, int i) { return (k == F1P2 || k == F2P2 || k == FOD) ? i == 2 : k == FL2 ? i == 1 : false; }
// derivative with respect to variable 'which' (0: a, 1: b) by central differences in extended precision
inline MX jac(const Fac &f, const St &A, const St &B, int which, L sign)
{
    int d = vdim(which ? B.k : A.k), m = fdim(f.k);
    MX J(m, d);
    RT r0 = resid(f, A, B);
    const L h = 1e-6L;
    for (int c = 0; c < d; ++c) {
        VX e = VX::Zero(d); e(c) = h;
        RT p = which ? resid(f, A, update_free(B, e)) : resid(f, update_free(A, e), B);
        RT q = which ? resid(f, A, update_free(B, -e)) : resid(f, update_free(A, -e), B);
        VX dif;
        if (p.tang) {
            ref::M4 P = p.T, Q = q.T, Z = r0.T;
            if (sign < 0) { P = ref::inv4(P); Q = ref::inv4(Q); Z = ref::inv4(Z); }
            dif = ref::ln6(P * ref::inv4(Z)) - ref::ln6(Q * ref::inv4(Z));
        } else {
            dif = p.r - q.r;
            for (int i = 0; i < m; ++i) if (isangle(f.k, i)) dif(i) = ref::wrap(dif(i));
            dif *= sign;
        }
        J.col(c) = dif / (2 * h);
    }
    return J;
}

// ---- building the real objects
inline PN mknode(const St &s, Node::nodeMode m = Node::STANDARD, bool alt = false)
{
    MatX v = val(s);
    switch (s.k) {
    case P2: return PN(new NodePose2d(Mat31(v), m));
    case L2: return PN(new NodeLandmark2d(Mat21(v), m));
    case P3: if (alt) return PN(new NodePose3d(SE3(Mat4(v)), m)); return PN(new NodePose3d(Mat4(v), m));
    case L3: return PN(new NodeLandmark3d(Mat31(v), m));
    default: return PN(new NodePlane4d(Mat41(v), m));
    }
}
inline PF mkfactor(const Fac &f, PN a, PN b, bool init = false)
{
    Factor::robustFactorType rt = (Factor::robustFactorType)f.robust;
    MatX W = f.W.cast<double>(), z = f.z.cast<double>();
    Mat4 T = f.Tz.cast<double>();
    switch (f.k) {
    case F1P2: return PF(new Factor1Pose2d(Mat31(z), a, Mat3(W), rt));
    case F2P2: return PF(new Factor2Poses2d(Mat31(z), a, b, Mat3(W), init, rt));
    case FOD: return PF(new Factor2Poses2dOdom(Mat31(z), a, b, Mat3(W), init, rt));
    case FL2: return PF(new Factor1Pose1Landmark2d(Mat21(z), a, b, Mat2(W), init, rt));
    case F1P3: if (f.alt) return PF(new Factor1Pose3d(SE3(T), a, Mat6(W), rt)); return PF(new Factor1Pose3d(T, a, Mat6(W), rt));
    case F2P3: if (f.alt) return PF(new Factor2Poses3d(SE3(T), a, b, Mat6(W), init, rt)); return PF(new Factor2Poses3d(T, a, b, Mat6(W), init, rt));
    case FL3: return PF(new Factor1Pose1Landmark3d(Mat31(z), a, b, Mat3(W), false, rt));
    case FPL: return PF(new Factor1Pose1Plane4d(Mat41(z), a, b, Mat4(W), rt));
    default: { Mat31 x = z.block(0, 0, 3, 1), y = z.block(3, 0, 3, 1), n = z.block(6, 0, 3, 1); return PF(new Factor1PosePoint2Plane(x, y, n, a, Mat1(W), rt)); }
    }
}

// sign with which the library reports a factor's residual when the ids are in reversed order; the property
// allows either, so it is measured once per kind on a configuration with a clearly non-zero residual
inline L rsign(int k, bool reversed)
{
    if (!reversed || !binary(k)) return 1;
    static L cache[9];
    static bool have[9];
    if (have[k]) return cache[k];
    St A, B; Fac f;
    MX I = MX::Identity(fdim(k), fdim(k));
    if (k == F2P2 || k == FOD) { A = sv(P2, {0, 0, .3}); B = sv(P2, {1, 2, .5}); f = mkf(k, 0, 1, vx({.3, .2, .4}), I); }
    else if (k == FL2) { A = sv(P2, {0, 0, .3}); B = sv(L2, {1, 2}); f = mkf(k, 0, 1, vx({1, .2}), I); }
    else if (k == F2P3) { A = sT(grid::tw(.1, .2, .3, 1, 2, 3)); B = sT(grid::tw(0, -.2, .1, 3, 2, 1)); f = mkT(k, 0, 1, grid::tw(.1, .1, .1, 1, 1, 1), I); }
    else if (k == FL3) { A = sT(grid::tw(.1, .2, .3, 1, 2, 3)); B = sv(L3, {3, 2, 2}); f = mkf(k, 0, 1, vx({1, 1, 2}), I); }
    else { A = sT(grid::tw(.1, .2, .3, 1, 2, 3)); B = sv(PL, {.6, 0, .8, 2}); f = mkf(k, 0, 1, vx({0, 0, 1, 3}), I); }
    FGraphSolve g;
    PN nb = mknode(B), na = mknode(A);
    g.add_node(nb); g.add_node(na);
    L s = 1;
    {
        PF pf = mkfactor(f, na, nb);
        g.add_factor(pf);
        pf->evaluate_residuals();
        VX r = pf->get_residual().cast<L>(), e = resid(f, A, B).r;
        s = (r - e).norm() <= (r + e).norm() ? 1 : -1;
    }
    have[k] = true;
    return cache[k] = s;
}
inline double weight(int robust, double u)
{
    switch (robust) {
    case 1: return u < 1 ? 1 : 1 / u;
    case 2: return 1 / (1 + u * u);
    case 3: return 1 / (1 + u * u) / (1 + u * u);
    case 4: return u < 1 ? 1 : 0;
    default: return 1;
    }
}
inline const char *kname(int k) { static const char *n[] = {"quadratic", "huber", "cauchy", "mcclure", "ransac"}; return n[k]; }

// ---- a problem: variables and factors, independent of any insertion order
struct Problem {
    std::string name;
    std::vector<St> x;
    std::vector<bool> anchor;
    std::vector<Fac> f;
    int add(const St &s, bool anch = false) { x.push_back(s); anchor.push_back(anch); return (int)x.size() - 1; }
};
template <class G> struct Built { // graph plus maps variable -> node id, factor -> factor id
    std::unique_ptr<G> g;
    std::vector<PN> n; std::vector<PF> f;
    std::vector<int> vid, fid;
};
// nodes inserted in the order np, factors in the order fp; every factor is added after all nodes
template <class G> Built<G> build(const Problem &p, const std::vector<int> &np, const std::vector<int> &fp)
{
    Built<G> b;
    b.g.reset(new G());
    b.n.resize(p.x.size()); b.vid.resize(p.x.size()); b.f.resize(p.f.size()); b.fid.resize(p.f.size());
    for (int v : np) {
        b.n[v] = mknode(p.x[v], p.anchor[v] ? Node::ANCHOR : Node::STANDARD);
        // as left behind by a history in which the state was set after creation or an earlier trial step was undone
        b.n[v]->set_auxiliary_state(val(update(p.x[v], VX::Constant(vdim(p.x[v].k), .37L))));
        b.vid[v] = (int)b.g->add_node(b.n[v]);
    }
    for (int i : fp) {
        b.f[i] = mkfactor(p.f[i], b.n[p.f[i].a], p.f[i].b >= 0 ? b.n[p.f[i].b] : PN());
        b.fid[i] = (int)b.g->add_factor(b.f[i]);
    }
    return b;
}
inline std::vector<int> iota(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
template <class G> void current(const Built<G> &b, std::vector<St> &x) { for (size_t i = 0; i < x.size(); ++i) load(x[i], b.n[i]->get_state()); }

// linearised problem at states x with node order given by ids
struct Lin { MX A, W, H; VX r, b; std::vector<int> off; int N, M; std::vector<int> roff; L chi2; };
inline Lin linearise(const Problem &p, const std::vector<St> &x, const std::vector<int> &vid, const std::vector<int> &fid)
{
    Lin o;
    int nv = x.size(), nf = p.f.size();
    std::vector<int> byid(nv), fby(nf);
    for (int i = 0; i < nv; ++i) byid[vid[i]] = i;
    for (int i = 0; i < nf; ++i) fby[fid[i]] = i;
    o.off.assign(nv, -1); o.roff.assign(nf, 0);
    o.N = o.M = 0; o.chi2 = 0;
    for (int v : byid) if (!p.anchor[v]) { o.off[v] = o.N; o.N += vdim(x[v].k); }
    for (int i : fby) { o.roff[i] = o.M; o.M += fdim(p.f[i].k); }
    o.A = MX::Zero(o.M, o.N); o.W = MX::Zero(o.M, o.M); o.r = VX::Zero(o.M);
    for (int i = 0; i < nf; ++i) {
        const Fac &f = p.f[i];
        const St &A = x[f.a], &B = x[f.b >= 0 ? f.b : f.a];
        L s = rsign(f.k, f.b >= 0 && vid[f.a] > vid[f.b]);
        VX r = resid(f, A, B).r * s;
        int m = fdim(f.k);
        L c = 0.5L * r.dot(f.W * r);
        o.chi2 += c;
        o.r.segment(o.roff[i], m) = r;
        o.W.block(o.roff[i], o.roff[i], m, m) = f.W * (L)weight(f.robust, (double)std::sqrt(2 * c));
        if (o.off[f.a] >= 0) o.A.block(o.roff[i], o.off[f.a], m, vdim(A.k)) = jac(f, A, B, 0, s);
        if (f.b >= 0 && o.off[f.b] >= 0) o.A.block(o.roff[i], o.off[f.b], m, vdim(B.k)) = jac(f, A, B, 1, s);
    }
    o.H = o.A.transpose() * o.W * o.A;
    o.b = o.A.transpose() * o.W * o.r;
    return o;
}
// solve H dx = b with a symmetric scaling and full pivoting; cond gets an estimate of the condition number
VX solve(const MX &H, const VX &b, double &cond);
inline std::vector<St> step(const Problem &p, std::vector<St> x, const Lin &l, const VX &dx)
{
    for (size_t v = 0; v < x.size(); ++v) if (l.off[v] >= 0) x[v] = update(x[v], -dx.segment(l.off[v], vdim(x[v].k)));
    return x;
}
inline L total(const Problem &p, const std::vector<St> &x)
{
    L s = 0;
    for (auto &f : p.f) s += chi2(f, x[f.a], x[f.b >= 0 ? f.b : f.a]);
    return s;
}
// plain Gaussian elimination with full pivoting (extended precision); cond = largest/smallest pivot
inline VX solve(const MX &H0, const VX &b0, double &cond)
{
    MX H = H0; VX b = b0; int n = H.rows();
    std::vector<int> perm = iota(n);
    L pmax = 0, pmin = -1;
    for (int k = 0; k < n; ++k) {
        int pr = k, pc = k;
        for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (std::fabs(H(i, j)) > std::fabs(H(pr, pc))) { pr = i; pc = j; }
        H.row(k).swap(H.row(pr)); std::swap(b(k), b(pr));
        H.col(k).swap(H.col(pc)); std::swap(perm[k], perm[pc]);
        L d = std::fabs(H(k, k));
        if (pmax < d) pmax = d;
        if (pmin < 0 || d < pmin) pmin = d;
        if (d == 0) { cond = INFINITY; return VX::Zero(n); }
        for (int i = k + 1; i < n; ++i) { L m = H(i, k) / H(k, k); if (m == 0) continue; for (int j = k; j < n; ++j) H(i, j) -= m * H(k, j); b(i) -= m * b(k); }
    }
    VX y(n), x(n);
    for (int k = n - 1; k >= 0; --k) { L s = b(k); for (int j = k + 1; j < n; ++j) s -= H(k, j) * y(j); y(k) = s / H(k, k); }
    for (int k = 0; k < n; ++k) x(perm[k]) = y(k);
    cond = n ? (double)(pmax / pmin) : 1;
    return x;
}
inline MX spd(int n, int variant) // information matrices: identity-like, diagonal, correlated
{
    MX W = MX::Identity(n, n);
    if (variant == 0) return W;
    if (variant == 1) { for (int i = 0; i < n; ++i) W(i, i) = (L)(1 << (2 * (i % 4))) / 2; return W; }
    MX A(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = (L)(float)std::sin(1.7 * i + 2.3 * j + variant);
    MX S = A * A.transpose() + MX::Identity(n, n) * 0.5L;
    MX D = S.cast<double>().cast<L>();
    return (variant == 3) ? MX((D * 100).cast<double>().cast<L>()) : D;
}
} // namespace fg
