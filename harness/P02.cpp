// P02: weighted point registration and GICP against a closed-form weighted optimum (Horn, extended
// precision) and first-order optimality; metamorphic relations over weights, order and duplication;
// and the iteration protocol replayed one iteration at a time.
#include "grids.hpp"
#include <Eigen/Eigenvalues>
#include <mrob/pc_registration.hpp>
using namespace mrob;
using ref::L;
typedef std::vector<Mat31> Pts;
static MatX mat(const Pts &p) { MatX m(p.size(), 3); for (size_t i = 0; i < p.size(); ++i) m.row(i) = p[i].transpose(); return m; }
static MatX1 vec(const std::vector<double> &w) { MatX1 v(w.size()); for (size_t i = 0; i < w.size(); ++i) v(i) = w[i]; return v; }
// weighted Horn
static ref::M4 optimum(const MatX &X, const MatX &Y, const MatX1 &w, L *gap)
{
    L W = 0; ref::V3 cx = ref::V3::Zero(), cy = cx;
    for (int i = 0; i < X.rows(); ++i) { W += w(i); cx += w(i) * X.row(i).transpose().cast<L>(); cy += w(i) * Y.row(i).transpose().cast<L>(); }
    cx /= W; cy /= W;
    ref::M3 S = ref::M3::Zero();
    for (int i = 0; i < X.rows(); ++i) S += (L)w(i) * (X.row(i).transpose().cast<L>() - cx) * (Y.row(i).transpose().cast<L>() - cy).transpose();
    ref::M4 N;
    N << S(0, 0) + S(1, 1) + S(2, 2), S(1, 2) - S(2, 1), S(2, 0) - S(0, 2), S(0, 1) - S(1, 0),
        S(1, 2) - S(2, 1), S(0, 0) - S(1, 1) - S(2, 2), S(0, 1) + S(1, 0), S(2, 0) + S(0, 2),
        S(2, 0) - S(0, 2), S(0, 1) + S(1, 0), -S(0, 0) + S(1, 1) - S(2, 2), S(1, 2) + S(2, 1),
        S(0, 1) - S(1, 0), S(2, 0) + S(0, 2), S(1, 2) + S(2, 1), -S(0, 0) - S(1, 1) + S(2, 2);
    Eigen::SelfAdjointEigenSolver<ref::M4> e(N);
    *gap = (e.eigenvalues()(3) - e.eigenvalues()(2)) / std::max(std::fabs(e.eigenvalues()(3)), std::fabs(e.eigenvalues()(0)));
    ref::V4 q = e.eigenvectors().col(3);
    L u = q(0), a = q(1), b = q(2), c = q(3), s = q.squaredNorm();
    ref::M4 T = ref::M4::Identity();
    T.topLeftCorner<3, 3>() << 1 - 2 * (b * b + c * c) / s, 2 * (a * b - c * u) / s, 2 * (a * c + b * u) / s,
        2 * (a * b + c * u) / s, 1 - 2 * (a * a + c * c) / s, 2 * (b * c - a * u) / s,
        2 * (a * c - b * u) / s, 2 * (b * c + a * u) / s, 1 - 2 * (a * a + b * b) / s;
    T.topRightCorner<3, 1>() = cy - T.topLeftCorner<3, 3>() * cx;
    return T;
}
int main(int argc, char **argv)
{
    vk::Ctx c("P02", argc, argv);
    const double TOL = 1e-9;
    auto rots = grid::rotations(c.thorough ? 2 : 1);
    rots.push_back(ref::exp3(ref::V3(.3L, -1.1L, .5L)));
    rots.push_back(ref::exp3(ref::V3(.6L, 0, .8L) * 3.1415926L));
    if (!c.thorough) { std::vector<ref::M3> r; for (size_t i = 0; i < rots.size(); i += 5) r.push_back(rots[i]); r.push_back(rots.back()); rots = r; }
    std::vector<Mat31> trans = {Mat31(0, 0, 0), Mat31(1, -2, .5), Mat31(30, 20, -10)};
    std::vector<Mat61> pert = {Mat61::Zero(), grid::tw(.1, 0, -.05, 0, .1, 0), grid::tw(-.05, .1, .1, .2, -.1, .1), grid::tw(.2, .1, -.2, -.1, 0, .3)};
    std::vector<Pts> sets = {
        {{0, 0, 0}, {1, 0, 0}, {0, 2, 0}},
        {{0, 0, 0}, {1, 0, 0}, {0, 2, 0}, {0, 0, 3}},
        {{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}},
        {{1, 1, 1}, {1, -1, -1}, {-1, 1, -1}, {-1, -1, 1}, {.5, 0, .2}},
        {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}},
        {{2, 1, 0}, {0, 1, -1}, {1, 1, 1}, {-1, 3, 0}, {0, -2, .5}, {1, 0, -1}, {2, 2, 2}}};
    auto start = [&](const ref::M4 &T, const Mat61 &p) { Mat4 m = (ref::exp6(p.cast<L>()) * T).cast<double>(); return m; };
    auto run = [&](const MatX &X, const MatX &Y, const MatX1 &w, const Mat4 &s, double tol, int &it) {
        Mat4 m = s; SE3 T(m);
        MatX X1 = X, Y1 = Y; MatX1 w1 = w;
        it = PCRegistration::weighted_point(X, Y, w, T, tol);
        c.req(it >= 1 && it <= 20, "between 1 and 20 iterations are reported");
        c.req(X1 == X && Y1 == Y && w1 == w, "inputs unchanged");
        c.near("proper rotation", (double)ref::se3_defect(T.T().cast<L>()), 1e-12);
        c.transitions += it;
        return T.T();
    };
    // the reported count is the number of iterations: replayed one at a time (an infinite tolerance stops
    // after the first), every step but the last moves the estimate by more than tol, the last one does not
    auto protocol = [&](const MatX &X, const MatX &Y, const MatX1 &w, const Mat4 &s, double tol) {
        int it, one;
        Mat4 full = run(X, Y, w, s, tol, it), cur = s;
        for (int k = 1; k <= it; ++k) {
            Mat4 nxt = run(X, Y, w, cur, 1e300, one);
            c.req(one == 1, "a huge tolerance stops after one iteration");
            L step = ref::ln6(nxt.cast<L>() * ref::inv4(cur.cast<L>())).norm();
            if (k < it) c.req(step > tol * (1 - 1e-6) - 1e-13, "iterations continue only while the update exceeds the tolerance");
            else if (it < 20) c.req(step <= tol * (1 + 1e-6) + 1e-13, "iterations stop once the update is within the tolerance");
            cur = nxt;
        }
        c.near("step by step equals one call", ref::dist(cur, full), 1e-10);
        ++c.traces;
    };
    // the same from far away, where steps may grow: one call stops exactly where the replay does
    std::vector<Mat61> away = {grid::tw(2, -1, .5, 3, -2, 1), grid::tw(.3, .9, -1.3, -8, 5, 2), grid::tw(-1.2, 1.9, 2, 0, .5, 0), grid::tw(.9, .2, -.4, 30, 20, -25)};
    typedef std::function<ref::M3(const ref::M3 &, int)> LiF; // weight matrix of point i under rotation R
    auto stepnorm = [&](const MatX &X, const MatX &Y, const LiF &Li, const Mat4 &T) {
        ref::V6 g = ref::V6::Zero(); ref::M6 H = ref::M6::Zero();
        const ref::M3 R = T.topLeftCorner<3, 3>().cast<L>();
        for (int i = 0; i < X.rows(); ++i) {
            ref::V3 q = R * X.row(i).transpose().cast<L>() + T.topRightCorner<3, 1>().cast<L>(), e = Y.row(i).transpose().cast<L>() - q;
            ref::M3 W = Li(R, i);
            Eigen::Matrix<L, 3, 6> J; J << ref::hat(q), -ref::M3::Identity();
            g += J.transpose() * W * e; H += J.transpose() * W * J;
        }
        return (double)ref::V6(H.inverse() * g).norm();
    };
    auto farprotocol = [&](const MatX &X, const MatX &Y, const LiF &Li, const std::function<int(SE3 &, double)> &call, const Mat4 &s, double tol) {
        Mat4 cur = s;
        int k = 0;
        double step = 0;
        while (k < 20) {
            Mat4 m = cur; SE3 T(m);
            c.req(call(T, 1e300) == 1, "a huge tolerance stops after one iteration");
            ++k; ++c.transitions;
            if (!T.T().allFinite() || T.T().norm() > 1e4) return; // the step was too large to say anything
            step = stepnorm(X, Y, Li, cur);
            if (!(step < 1e3) || std::fabs(step - tol) < 1e-5 * tol + 1e-12) return;
            cur = T.T();
            if (step <= tol) break;
        }
        Mat4 m = s; SE3 T(m);
        int it = call(T, tol);
        c.req(it == k, "a call from far away stops after the first update within the tolerance");
        c.near("step by step equals one call from far away", ref::dist(T.T(), cur), 1e-6 * (1 + cur.norm()));
        ++c.traces;
    };
    // ---- weighted point ----
    std::vector<double> wv = {0, 1, .25, 7};
    for (size_t si = 0; si < sets.size(); ++si) for (size_t r = 0; r < rots.size(); ++r) for (int noise = 0; noise < 3; ++noise) {
        int n = sets[si].size();
        std::vector<std::vector<int>> ws;
        int nw = n <= 4 ? (int)wv.size() : n == 5 ? (c.thorough ? 4 : 3) : 2;
        vk::sequences(nw, n, [&](const std::vector<int> &s) { if ((int)s.size() == n) ws.push_back(s); return true; });
        c.each([&] { return vk::fmt("weighted: set %zu rotation %zu noise %d, every weight assignment", si, r, noise); }, [&] {
            MatX X = mat(sets[si]), Y(n, 3);
            for (int i = 0; i < n; ++i) {
                Mat31 e((i * 7 % 5 - 2) * .03, (i * 3 % 7 - 3) * .02, (i * 5 % 3 - 1) * .04);
                Y.row(i) = ((rots[r] * X.row(i).transpose().cast<L>()).cast<double>() + trans[(si + r) % 3] + noise * 1.5 * e).transpose();
            }
            for (size_t wi = 0; wi < ws.size(); ++wi) {
                MatX1 w(n);
                for (int i = 0; i < n; ++i) w(i) = wv[ws[wi][i]];
                int nz = 0;
                for (int i = 0; i < n; ++i) nz += w(i) > 0;
                if (nz < 3) continue;
                L gap;
                ref::M4 best = optimum(X, Y, w, &gap);
                if (gap < .02L) continue; // (nearly) collinear once the zero-weight points are left out
                for (size_t p = 0; p < pert.size(); ++p) {
                    if (!c.thorough && (wi + p) % 4) continue;
                    Mat4 s = start(best, pert[p]);
                    int it;
                    Mat4 T = run(X, Y, w, s, TOL, it);
                    c.near(it < 20 ? "weighted optimum" : "weighted optimum, slow convergence", ref::dist(T, best), (it < 20 ? 1e-7 : 1e-4) * (1 + trans[(si + r) % 3].norm()) / (double)gap);
                    c.outcome(vk::Hash().m(T).h);
                    // documented default tolerance
                    { Mat4 m = s; SE3 D(m); int k = PCRegistration::weighted_point(X, Y, w, D); c.req(k >= 1 && k <= it, "default tolerance needs no more iterations than a tighter one"); c.near("default tolerance", ref::dist(D.T(), best), 2e-3 * (1 + trans[(si + r) % 3].norm()) / (double)gap); }
                    int j;
                    for (double k : {1e-9, .01, 3., 1e8, 1e-16, 1e14}) c.near("scaling the weights changes nothing", ref::dist(run(X, Y, w * k, s, TOL, j), T), 1e-7 * (1 + T.cwiseAbs().maxCoeff()) / (double)gap);
                    // zero-weight points may be anywhere
                    bool z = false; MatX X2 = X, Y2 = Y;
                    for (int i = 0; i < n; ++i) if (w(i) == 0) { z = true; X2.row(i) = Mat13(5, -9, 3 + i); Y2.row(i) = Mat13(-100, 40, 7); }
                    if (z) c.near("zero-weight points have no influence", ref::dist(run(X2, Y2, w, s, TOL, j), T), 1e-7 * (1 + T.cwiseAbs().maxCoeff()) / (double)gap);
                    // reversed and rotated orders
                    for (int sh = 1; sh < n; ++sh) {
                        MatX X3(n, 3), Y3(n, 3); MatX1 w3(n);
                        for (int i = 0; i < n; ++i) { int q = sh == 1 ? n - 1 - i : (i + sh) % n; X3.row(i) = X.row(q); Y3.row(i) = Y.row(q); w3(i) = w(q); }
                        c.near("order of the points is irrelevant", ref::dist(run(X3, Y3, w3, s, TOL, j), T), 1e-7 * (1 + T.cwiseAbs().maxCoeff()) / (double)gap);
                    }
                    // duplicating a point of weight w as two of weight w/2
                    for (int d = 0; d < n; ++d) {
                        MatX X4(n + 1, 3), Y4(n + 1, 3); MatX1 w4(n + 1);
                        X4 << X, X.row(d); Y4 << Y, Y.row(d); w4 << w, w(d) / 2; w4(d) /= 2;
                        c.near("a duplicated point counts by its total weight", ref::dist(run(X4, Y4, w4, s, TOL, j), T), 1e-7 * (1 + T.cwiseAbs().maxCoeff()) / (double)gap);
                    }
                    bool equal = true;
                    for (int i = 1; i < n; ++i) equal = equal && w(i) == w(0);
                    if (equal) { SE3 A; c.req(PCRegistration::arun(X, Y, A) == 1, "arun succeeds"); c.near("equal weights: the closed-form alignment", ref::dist(A.T(), T), 1e-7 * (1 + T.cwiseAbs().maxCoeff()) / (double)gap); }
                    if (wi % 8 == 0 || equal) for (double tol : {1e-1, 1e-3, 1e-6, TOL}) protocol(X, Y, w, s, tol);
                    if (wi % 8 == 0 || equal) for (double tol : {1e-1, 1e-3, 1e-6}) farprotocol(X, Y, [&](const ref::M3 &, int i) { return ref::M3((L)w(i) * ref::M3::Identity()); }, [&](SE3 &T, double tl) { return PCRegistration::weighted_point(X, Y, w, T, tl); }, start(best, away[(wi + p) % away.size()]), tol);
                }
            }
        });
    }
    // ---- weighted point, unusual sizes: tiny and huge scenes and weights, and one point of tiny weight that is far off
    for (size_t si = 0; si < sets.size(); ++si) for (size_t r = 0; r < rots.size(); ++r) for (double size : {1e-3, 1., 1e3}) for (double ws : {1e-10, 1., 1e9}) for (int odd = 0; odd < 3; ++odd)
        c.each([&] { return vk::fmt("weighted: set %zu rotation %zu size %g weights of order %g, tiny weight case %d", si, r, size, ws, odd); }, [&] {
            int n = sets[si].size();
            if (n < 4 && odd) return;
            MatX X = mat(sets[si]) * size, Y(n, 3);
            MatX1 w(n);
            Mat31 t = trans[(si + r) % 3] * size;
            for (int i = 0; i < n; ++i) {
                Mat31 e((i * 7 % 5 - 2) * .03, (i * 3 % 7 - 3) * .02, (i * 5 % 3 - 1) * .04);
                w(i) = ws * (1 + i % 3);
                // the far point still moves the optimum by about a percent of the size of the scene
                if (odd && i == n - 1) { w(i) *= odd == 1 ? 1e-4 : 1e-8; e += Mat31(3, -2, 1).normalized() * (odd == 1 ? 1e2 : 1e6); }
                Y.row(i) = ((rots[r] * X.row(i).transpose().cast<L>()).cast<double>() + t + size * e).transpose();
            }
            L gap;
            ref::M4 best = optimum(X, Y, w, &gap);
            if (gap < .02L) return;
            for (size_t p = 0; p < pert.size(); ++p) {
                Mat61 q = pert[p]; q.tail(3) *= size;
                Mat4 m = best.cast<double>(), s = m;
                s.topLeftCorner<3, 3>() = (ref::exp3(q.head(3).cast<L>()) * best.topLeftCorner<3, 3>()).cast<double>();
                // turn about the centre of the matched points, so that the start is near for every size
                Mat31 ctr = Y.topRows(n - (odd ? 1 : 0)).colwise().mean().transpose();
                s.topRightCorner<3, 1>() = ctr + q.tail(3) + s.topLeftCorner<3, 3>() * m.topLeftCorner<3, 3>().transpose() * (Mat31(m.topRightCorner<3, 1>()) - ctr);
                int it;
                Mat4 T = run(X, Y, w, s, TOL, it);
                Mat4 d = T - m; d.topRightCorner<3, 1>() /= size * (1 + trans[(si + r) % 3].norm()); // motion of points of this scene
                c.near("weighted optimum at every scale", d.cwiseAbs().maxCoeff(), (it < 20 ? 1e-6 : 1e-4) / (double)gap);
                c.outcome(vk::Hash().m(T).d(size).d(ws * 1e5).h);
            }
        });
    // ---- GICP ----
    std::vector<Mat3> covs;
    {
        Mat3 m = Mat3::Identity(); covs.push_back(m);
        m << .5, 0, 0, 0, 2, 0, 0, 0, .01; covs.push_back(m);
        m << 1, .6, -.3, .6, 2, .1, -.3, .1, .7; covs.push_back(m);
        Mat31 d = Mat31(1, 2, -2) / 3.; m = Mat3::Identity() - .999 * d * d.transpose(); covs.push_back(m);
        covs.push_back(Mat3::Identity() * 1e-3);
    }
    int NC = covs.size();
    for (size_t si = 0; si < sets.size(); ++si) for (size_t r = 0; r < rots.size(); ++r) for (int noise = 0; noise < 2; ++noise)
        c.each([&] { return vk::fmt("gicp: set %zu rotation %zu noise %d, covariance assignments", si, r, noise); }, [&] {
            int n = sets[si].size();
            MatX X = mat(sets[si]), Y(n, 3);
            Mat31 t = trans[(si + r) % 3];
            ref::M4 truth = grid::mk(rots[r], t).cast<L>();
            for (int i = 0; i < n; ++i) {
                Mat31 e((i * 7 % 5 - 2) * .004, (i * 3 % 7 - 3) * .003, (i * 5 % 3 - 1) * .005);
                Y.row(i) = ((rots[r] * X.row(i).transpose().cast<L>()).cast<double>() + t + noise * e).transpose();
            }
            int na = 1; for (int i = 0; i < 3; ++i) na *= NC; // assignments: all triples over points i mod 3, and all target rotations of it
            for (int a = 0; a < na; ++a) for (int b = 0; b < (c.thorough ? NC + 1 : 2); ++b) {
                if (!c.thorough && a % 3 != (int)(r % 3)) continue;
                MatX CX(3 * n, 3), CY(3 * n, 3);
                int dg[3] = {a % NC, a / NC % NC, a / NC / NC};
                for (int i = 0; i < n; ++i) { CX.middleRows<3>(3 * i) = covs[dg[i % 3]]; CY.middleRows<3>(3 * i) = b == NC ? Mat3(Mat3::Zero()) : covs[(dg[(i + 1) % 3] + b + i) % NC]; }
                for (size_t p = 0; p < pert.size(); ++p) {
                    if ((a + p) % (c.thorough ? 2 : 4)) continue;
                    Mat4 s = start(truth, (p == 3 ? .5 : .3) * pert[p]);
                    auto go = [&](const MatX &X, const MatX &Y, const MatX &CX, const MatX &CY, const Mat4 &s, double tol, int &it) {
                        Mat4 m = s; SE3 T(m);
                        MatX X1 = X, Y1 = Y, A = CX, B = CY;
                        it = PCRegistration::gicp(X, Y, CX, CY, T, tol);
                        c.req(it >= 1 && it <= 20, "between 1 and 20 iterations are reported");
                        c.req(X1 == X && Y1 == Y && A == CX && B == CY, "inputs unchanged");
                        c.near("proper rotation", (double)ref::se3_defect(T.T().cast<L>()), 1e-12);
                        c.transitions += it;
                        return T.T();
                    };
                    int it, one;
                    for (double tol : {1e-1, 1e-3, 1e-5}) farprotocol(X, Y, [&](const ref::M3 &R, int i) { return ref::M3((CY.middleRows<3>(3 * i).cast<L>() + R * CX.middleRows<3>(3 * i).cast<L>() * R.transpose()).inverse()); }, [&](SE3 &T, double tl) { return PCRegistration::gicp(X, Y, CX, CY, T, tl); }, start(truth, away[(a + p) % away.size()]), tol);
                    Mat4 T = go(X, Y, CX, CY, s, TOL, it);
                    if (!noise) c.near("gicp recovers the exact motion", ref::dist(T, truth), 1e-6 * (1 + t.norm()));
                    c.outcome(vk::Hash().m(T).h);
                    // first-order condition of the documented cost with the combined covariances at the solution
                    ref::V6 g = ref::V6::Zero(); ref::M6 H = ref::M6::Zero();
                    for (int i = 0; i < n; ++i) {
                        ref::V3 q = T.topLeftCorner<3, 3>().cast<L>() * X.row(i).transpose().cast<L>() + T.topRightCorner<3, 1>().cast<L>();
                        ref::V3 e = Y.row(i).transpose().cast<L>() - q;
                        ref::M3 R = T.topLeftCorner<3, 3>().cast<L>();
                        ref::M3 Li = (CY.middleRows<3>(3 * i).cast<L>() + R * CX.middleRows<3>(3 * i).cast<L>() * R.transpose()).inverse();
                        Eigen::Matrix<L, 3, 6> J; J << ref::hat(q), -ref::M3::Identity();
                        g += J.transpose() * Li * e; H += J.transpose() * Li * J;
                    }
                    ref::V6 left = H.inverse() * g; // the remaining step
                    if (it < 20) c.near("gicp stops where the weighted gradient vanishes", (double)left.norm(), 1e-7 * (1 + t.norm()));
                    else VK_REQ(noise, "gicp did not converge on exact data");
                    if (!noise || it < 20) {
                        MatX X3(n, 3), Y3(n, 3), A(3 * n, 3), B(3 * n, 3); int j;
                        for (int i = 0; i < n; ++i) { int q = n - 1 - i; X3.row(i) = X.row(q); Y3.row(i) = Y.row(q); A.middleRows<3>(3 * i) = CX.middleRows<3>(3 * q); B.middleRows<3>(3 * i) = CY.middleRows<3>(3 * q); }
                        c.near("order of the points is irrelevant", ref::dist(go(X3, Y3, A, B, s, TOL, j), T), 1e-6 * (1 + t.norm()));
                        for (double k : {7., 1e-8, 1e7, 1e-14, 1e13}) c.near("scaling the covariances changes nothing", ref::dist(go(X, Y, CX * k, CY * k, s, TOL, j), T), 1e-6 * (1 + t.norm()));
                        Mat4 cur = s;
                        if (a % 5 == 0) { for (double tol : {1e-2, 1e-5}) { cur = s; int k; Mat4 full = go(X, Y, CX, CY, s, tol, k);
                            for (int q = 1; q <= k; ++q) {
                                Mat4 nxt = go(X, Y, CX, CY, cur, 1e300, one);
                                c.req(one == 1, "a huge tolerance stops after one iteration");
                                L step = ref::ln6(nxt.cast<L>() * ref::inv4(cur.cast<L>())).norm();
                                if (q < k) c.req(step > tol * (1 - 1e-6), "iterations continue only while the update exceeds the tolerance");
                                else if (k < 20) c.req(step <= tol * (1 + 1e-6), "iterations stop once the update is within the tolerance");
                                cur = nxt;
                            }
                            c.near("step by step equals one call", ref::dist(cur, full), 1e-9); ++c.traces; } }
                        { Mat4 m = s; SE3 D(m); PCRegistration::gicp(X, Y, CX, CY, D); if (!noise) c.near("default tolerance", ref::dist(D.T(), truth), 1e-4 * (1 + t.norm())); }
                    }
                }
            }
        });
    // ---- both, sets of every size up to a limit and around larger powers of two; no point repeats and every point counts
    std::vector<int> sizes;
    for (int n = 4; n <= (c.thorough ? 600 : 140); ++n) sizes.push_back(n);
    for (int p : {256, 512, 1000, 1024}) for (int d : {-1, 0, 1}) sizes.push_back(p + d);
    if (c.thorough) for (int p : {2048, 4096, 5000, 10000}) for (int d : {-1, 0, 1}) sizes.push_back(p + d);
    for (int n : sizes) for (int drift = 0; drift < 2; ++drift)
        c.each([&] { return vk::fmt("%d irregular points%s", n, drift ? ", the last one far off" : ""); }, [&] {
            auto u = [&](int i, int k) { double x = std::sin(12.9898 * (i + 1) + 78.233 * (k + 1)) * 43758.5453; return (double)(float)(2 * (x - std::floor(x)) - 1); };
            const ref::M3 &R = rots[n % rots.size()];
            Mat31 t = trans[n % 3];
            MatX X(n, 3), Y(n, 3), CX(3 * n, 3), CY(3 * n, 3);
            MatX1 w(n);
            for (int i = 0; i < n; ++i) {
                X.row(i) << 2 * u(i, 0), u(i, 1), 1.5 * u(i, 2);
                Mat31 e(.05 * u(i, 3), .05 * u(i, 4), .05 * u(i, 5));
                if (drift && i == n - 1) e += Mat31(.4, -.3, .2) * std::sqrt((double)n);
                Y.row(i) = ((R * X.row(i).transpose().cast<L>()).cast<double>() + t + e).transpose();
                w(i) = i % 7 == 3 ? 0 : 1.2 + u(i, 6);
                Mat3 A, B;
                for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { A(a, b) = u(i, 10 + 3 * a + b); B(a, b) = u(i, 20 + 3 * a + b); }
                CX.middleRows<3>(3 * i) = A * A.transpose() * .3 + .05 * Mat3::Identity();
                CY.middleRows<3>(3 * i) = B * B.transpose() * .3 + .05 * Mat3::Identity();
            }
            L gap;
            ref::M4 best = optimum(X, Y, w, &gap);
            Mat4 s = start(best, Mat61(pert[n % pert.size()] * .3));
            int it;
            if (gap > .02L) { Mat4 T = run(X, Y, w, s, TOL, it); c.near("weighted optimum of a large set", ref::dist(T, best), (it < 20 ? 1e-7 : 1e-4) * (1 + t.norm()) / (double)gap); c.outcome(vk::Hash().m(T).i(n).h); }
            Mat4 m = s; SE3 D(m);
            int k = PCRegistration::gicp(X, Y, CX, CY, D, TOL);
            c.req(k >= 1 && k <= 20, "between 1 and 20 iterations are reported");
            if (k == 20) return;
            Mat4 T = D.T();
            ref::V6 g = ref::V6::Zero(); ref::M6 H = ref::M6::Zero();
            ref::M3 RR = T.topLeftCorner<3, 3>().cast<L>();
            for (int i = 0; i < n; ++i) {
                ref::V3 q = RR * X.row(i).transpose().cast<L>() + T.topRightCorner<3, 1>().cast<L>(), e = Y.row(i).transpose().cast<L>() - q;
                ref::M3 Li = (CY.middleRows<3>(3 * i).cast<L>() + RR * CX.middleRows<3>(3 * i).cast<L>() * RR.transpose()).inverse();
                Eigen::Matrix<L, 3, 6> J; J << ref::hat(q), -ref::M3::Identity();
                g += J.transpose() * Li * e; H += J.transpose() * Li * J;
            }
            c.near("gicp of a large set stops where the weighted gradient vanishes", (double)ref::V6(H.inverse() * g).norm(), 1e-7 * (1 + t.norm()));
            c.outcome(vk::Hash().m(T).i(-n).h);
            ++c.traces;
        });
    return c.finish();
}
