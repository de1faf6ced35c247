// P01: closed-form alignment over every small lattice point set, exact and mirrored and perturbed data.
// Oracle: Horn's quaternion eigenproblem in extended precision (a different algorithm from the library's SVD).
#include "grids.hpp"
#include <Eigen/Eigenvalues>
#include <mrob/pc_registration.hpp>
using namespace mrob;
using ref::L;
typedef std::vector<Mat31> Pts;
static MatX mat(const Pts &p) { MatX m(p.size(), 3); for (size_t i = 0; i < p.size(); ++i) m.row(i) = p[i].transpose(); return m; }
// ratio of the second to the first singular value of the centred set, squared
static L flatness(const MatX &X)
{
    ref::MX x = X.cast<L>();
    x.rowwise() -= (x.colwise().sum() / (L)x.rows()).eval();
    ref::M3 S = x.transpose() * x;
    Eigen::SelfAdjointEigenSolver<ref::M3> e(S);
    return e.eigenvalues()(2) > 0 ? e.eigenvalues()(1) / e.eigenvalues()(2) : 0;
}
struct Opt { ref::M3 R; ref::V3 t; L gap, cost; };
static Opt horn(const MatX &X, const MatX &Y)
{
    ref::MX x = X.cast<L>(), y = Y.cast<L>();
    ref::V3 cx = x.colwise().sum().transpose() / (L)x.rows(), cy = y.colwise().sum().transpose() / (L)y.rows();
    x.rowwise() -= cx.transpose();
    y.rowwise() -= cy.transpose();
    ref::M3 S = x.transpose() * y;
    ref::M4 N;
    N << S(0, 0) + S(1, 1) + S(2, 2), S(1, 2) - S(2, 1), S(2, 0) - S(0, 2), S(0, 1) - S(1, 0),
        S(1, 2) - S(2, 1), S(0, 0) - S(1, 1) - S(2, 2), S(0, 1) + S(1, 0), S(2, 0) + S(0, 2),
        S(2, 0) - S(0, 2), S(0, 1) + S(1, 0), -S(0, 0) + S(1, 1) - S(2, 2), S(1, 2) + S(2, 1),
        S(0, 1) - S(1, 0), S(2, 0) + S(0, 2), S(1, 2) + S(2, 1), -S(0, 0) - S(1, 1) + S(2, 2);
    Eigen::SelfAdjointEigenSolver<ref::M4> e(N);
    ref::V4 q = e.eigenvectors().col(3);
    L w = q(0), a = q(1), b = q(2), c = q(3), s = q.squaredNorm();
    Opt o;
    o.R << 1 - 2 * (b * b + c * c) / s, 2 * (a * b - c * w) / s, 2 * (a * c + b * w) / s,
        2 * (a * b + c * w) / s, 1 - 2 * (a * a + c * c) / s, 2 * (b * c - a * w) / s,
        2 * (a * c - b * w) / s, 2 * (b * c + a * w) / s, 1 - 2 * (a * a + b * b) / s;
    o.t = cy - o.R * cx;
    // eigenvalue gap relative to the largest magnitude: zero when the optimal rotation is not unique
    L mag = std::max(std::fabs(e.eigenvalues()(3)), std::fabs(e.eigenvalues()(0)));
    o.gap = mag > 0 ? (e.eigenvalues()(3) - e.eigenvalues()(2)) / mag : 0;
    o.cost = 0;
    for (int i = 0; i < x.rows(); ++i) o.cost += (y.row(i).transpose() - o.R * x.row(i).transpose()).squaredNorm();
    return o;
}
static L cost(const MatX &X, const MatX &Y, const Mat4 &T)
{
    L c = 0;
    for (int i = 0; i < X.rows(); ++i) c += (Y.row(i).transpose().cast<L>() - T.topLeftCorner<3, 3>().cast<L>() * X.row(i).transpose().cast<L>() - T.topRightCorner<3, 1>().cast<L>()).squaredNorm();
    return c;
}
int main(int argc, char **argv)
{
    vk::Ctx c("P01", argc, argv);
    const Mat4 T0 = grid::mk(ref::exp3(ref::V3(.3L, -.7L, .2L)), Mat31(4, -5, 6));
    // X, Y related exactly by (R, t): must be recovered. size: extent of the set, off: distance of the coordinates from 0
    auto exact = [&](const MatX &X, const ref::M3 &R, const Mat31 &t, double size, double off, double flat) {
        MatX Y(X.rows(), 3);
        for (int i = 0; i < X.rows(); ++i) Y.row(i) = (R * X.row(i).transpose().cast<L>() + t.cast<L>()).cast<double>().transpose();
        double o = std::max({off, size, t.norm()});
        Mat4 start = T0; // the previous value must not matter
        SE3 T(start);
        MatX X1 = X, Y1 = Y;
        int ok = PCRegistration::arun(X, Y, T);
        c.req(ok == 1, "alignment of a set that determines the motion reports success");
        c.req(X1 == X && Y1 == Y, "inputs unchanged");
        double tolR = 2e-14 * o / size / flat;
        c.near("rotation", ref::dist(T.T().topLeftCorner<3, 3>(), R), tolR + 1e-14);
        c.near("proper rotation", (double)ref::se3_defect(T.T().cast<L>()), 1e-13);
        double e = 0;
        for (int i = 0; i < X.rows(); ++i) e = std::max(e, ref::dist(T.transform(X.row(i).transpose()), Mat31(Y.row(i).transpose())));
        c.near("alignment", e, 1e-14 * o + tolR * size * 2);
        c.outcome(vk::Hash().m(T.T()).i(ok).h);
    };
    auto fails = [&](const MatX &X, const MatX &Y, const char *what) {
        Mat4 start = T0;
        SE3 T(start);
        int ok = PCRegistration::arun(X, Y, T);
        c.req(ok == 0, what);
        c.req(T.T() == T0, "a failed alignment leaves the transformation untouched");
        c.outcome(vk::Hash().m(X).i(ok).h);
    };
    auto general = [&](const MatX &X, const MatX &Y) {
        Opt o = horn(X, Y);
        Mat4 start = T0;
        SE3 T(start);
        int ok = PCRegistration::arun(X, Y, T);
        if (o.gap > 1e-6L) c.req(ok == 1, "alignment with a unique optimum reports success");
        if (!ok) c.req(T.T() == T0, "a failed alignment leaves the transformation untouched");
        else {
            c.near("proper rotation", (double)ref::se3_defect(T.T().cast<L>()), 1e-13);
            double size = X.cwiseAbs().maxCoeff() + Y.cwiseAbs().maxCoeff() + 1e-300;
            c.near("least-squares cost", (double)(cost(X, Y, T.T()) - o.cost), 1e-12 * size * size * X.rows());
            if (o.gap > 1e-6L) c.near("optimal rotation", ref::dist(T.T().topLeftCorner<3, 3>(), o.R), 1e-13 / (double)o.gap);
        }
        c.outcome(vk::Hash().m(T.T()).i(ok).h);
    };
    auto grots = grid::rotations(1);
    grots.push_back(ref::exp3(ref::V3(1, 2, -1) * 1e-6L));
    grots.push_back(ref::exp3(ref::V3(.6L, 0, .8L) * 3.1415926L));
    grots.push_back(ref::exp3(ref::V3(.3L, -1.1L, .5L)));
    std::vector<Mat31> trans = {Mat31(0, 0, 0), Mat31(1, -2, .5), Mat31(100, 20, -300)};

    // 1) every subset of 3..5 points of the 3x3x3 lattice (collinearity decided in exact integer arithmetic)
    Pts lat;
    for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) lat.push_back(Mat31(x, y, z));
    auto rankof = [](const Pts &p) { // 0: equal, 1: collinear, 2: more
        int r = 0;
        for (size_t i = 1; i < p.size(); ++i) { if ((p[i] - p[0]).norm() > 0) r = std::max(r, 1); for (size_t j = 1; j < i; ++j) if ((p[i] - p[0]).cross(p[j] - p[0]).norm() > 0) r = 2; }
        return r;
    };
    int kmax = c.thorough ? 6 : 4;
    std::vector<std::vector<int>> sub;
    std::function<void(std::vector<int> &, int, int)> rec = [&](std::vector<int> &s, int from, int k) {
        if ((int)s.size() == k) { sub.push_back(s); return; }
        for (int i = from; i < 27; ++i) { s.push_back(i); rec(s, i + 1, k); s.pop_back(); }
    };
    for (int k = 3; k <= kmax; ++k) { std::vector<int> s; rec(s, 0, k); }
    for (size_t si = 0; si < sub.size(); ++si)
        c.each([&] { return "lattice subset {" + vk::str(sub[si]) + "}"; }, [&] {
            Pts p;
            for (int i : sub[si]) p.push_back(lat[i]);
            int r = rankof(p);
            MatX base = mat(p);
            double flat = r == 2 ? (double)flatness(base) : 0;
            int nr = grots.size();
            for (double sc : {1., 1e-6, 1e5}) for (double off : {0., 1., 1e4}) {
                MatX X = base * sc;
                X.rowwise() += Mat13(off * sc, -.7 * off * sc, .3 * off * sc);
                for (int k = 0; k < (c.thorough ? 8 : 4); ++k) {
                    const ref::M3 &R = grots[(si * 7 + k * 11 + (int)off) % nr];
                    Mat31 t = trans[(si + k) % 3] * sc;
                    if (r == 2) exact(X, R, t, sc, off * sc, flat);
                    else {
                        MatX Y(X.rows(), 3);
                        for (int i = 0; i < X.rows(); ++i) Y.row(i) = (R * X.row(i).transpose().cast<L>() + t.cast<L>()).cast<double>().transpose();
                        if (off < 1e3) fails(X, Y, "alignment of a collinear set reports failure");
                    }
                }
                if (r == 2) { // mirror images: the optimum among proper rotations, not a reflection
                    for (int ax = 0; ax < 3; ++ax) { MatX Y = X; Y.col(ax) *= -1; if (off < 1e3) general(X, Y); }
                    MatX Y = -X;
                    if (off < 1e3) general(X, Y);
                }
            }
        });
    // 2) every row order, applied to both sets
    {
        std::vector<Pts> sets = {{{0, 0, 0}, {1, 0, 0}, {0, 2, 0}}, {{0, 0, 0}, {1, 0, 0}, {0, 2, 0}, {0, 0, 3}}, {{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}, {0, 0, 0}}, {{1, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, 1}}};
        for (size_t q = 0; q < sets.size(); ++q)
            vk::permutations(sets[q].size(), [&](const std::vector<int> &pm) {
                c.each([&] { return vk::fmt("set %zu in order ", q) + vk::str(pm); }, [&] {
                    Pts p;
                    for (int i : pm) p.push_back(sets[q][i]);
                    MatX X = mat(p);
                    for (auto &R : grots) exact(X, R, trans[1], 1, 0, (double)flatness(X));
                });
            });
    }
    // 3) thin sets down to 1 : 10^4, and long ones
    for (double thin : {1., .1, 1e-2, 1e-3, 1e-4}) for (double thin2 : {1., 1e-2, 1e-4, 0.}) for (int n : {3, 4, 5, 6, 7, 8, 10, 33, 100, 500})
        c.each([&] { return vk::fmt("%d points, extents 1 : %g : %g", n, thin, thin2 * thin); }, [&] {
            Pts p;
            for (int i = 0; i < n; ++i) p.push_back(Mat31((i * 7 % 11) / 5. - 1, thin * ((i * i + 3 * (i % 4)) % 7 / 3. - 1), thin * thin2 * ((i * 5 % 13) / 6. - 1)));
            MatX X = mat(p);
            if (flatness(X) < .2L * thin * thin) return;
            for (size_t k = 0; k < grots.size(); ++k) exact(X, grots[k], trans[k % 3], 1, 0, (double)flatness(X) * .5);
        });
    // 4) scales and distances
    for (double sc : {1e-8, 1e-3, 1., 1e4, 1e8}) for (double off : {0., 10., 1e3, 1e6}) for (int n : {3, 4, 9})
        c.each([&] { return vk::fmt("%d points of size %g at distance %g sizes", n, sc, off); }, [&] {
            Pts p;
            for (int i = 0; i < n; ++i) p.push_back(sc * (Mat31((i * 7 % 11) / 5. - 1, (i * i % 7) / 3. - 1, (i * 5 % 13) / 6. - 1) + off * Mat31(.6, -.5, .4)));
            MatX X = mat(p);
            for (size_t k = 0; k < grots.size(); ++k) exact(X, grots[k], trans[k % 3] * sc, sc, off * sc, (double)flatness(X) * .5);
        });
    // 5) degenerate sets: all points equal, or on a line in any direction, for any number of points
    for (auto &d : grid::directions(c.thorough ? 2 : 1)) for (int n : {3, 4, 7, 20}) for (double step : {0., 1., 1e-6, 1e6})
        c.each([&] { return vk::fmt("%d points on the line ", n) + ref::s(d) + vk::fmt(" step %g", step); }, [&] {
            for (double off : {0., 1., 5.}) {
                Pts p;
                for (int i = 0; i < n; ++i) p.push_back(step * (i * (i + 1) % 5 + i) * d + off * (step > 0 ? step : 1) * Mat31(1, -2, .5));
                MatX X = mat(p);
                if (step == 0 && off == 5.) continue;
                for (auto &R : grots) {
                    MatX Y(X.rows(), 3);
                    for (int i = 0; i < X.rows(); ++i) Y.row(i) = (R * X.row(i).transpose().cast<L>()).cast<double>().transpose();
                    // equal points away from the origin: the spread is rounding only, nothing relative to compare with
                    if (step == 0 && off != 0) { SE3 T; Mat4 b = T0; T = SE3(b); for (int i = 1; i < n; ++i) { X.row(i) = X.row(0); Y.row(i) = Y.row(0); } if ((X.colwise().sum() / (double)n - X.row(0)).norm() > 0 || (Y.colwise().sum() / (double)n - Y.row(0)).norm() > 0) continue; }
                    fails(X, Y, step == 0 ? "alignment of equal points reports failure" : "alignment of collinear points reports failure");
                }
                // a line onto a plane figure and vice versa cannot determine the rotation either
                MatX Z = X; for (int i = 0; i < n; ++i) Z.row(i) = Mat13(i % 2, i % 3, i);
                if (step > 0) { fails(X, Z, "collinear source reports failure"); fails(Z, X, "collinear target reports failure"); }
            }
        });
    // 6) all pairs of small configurations: noisy, reflected, permuted or unrelated, exact optimum
    {
        Pts cube;
        for (int i = 0; i < 8; ++i) cube.push_back(Mat31(i & 1, (i >> 1) & 1, (i >> 2) & 1));
        auto tuples = [&](int k) {
            std::vector<std::vector<int>> r;
            vk::sequences(8, k, [&](const std::vector<int> &s) { if ((int)s.size() == k) r.push_back(s); return true; });
            return r;
        };
        auto t3 = tuples(3), t4 = tuples(4);
        for (size_t a = 0; a < t3.size(); ++a) {
            if (!(t3[a][0] < t3[a][1] && t3[a][1] < t3[a][2])) continue;
            c.each([&] { return "corner triple " + vk::str(t3[a]) + " onto every triple"; }, [&] {
                MatX X = mat({cube[t3[a][0]], cube[t3[a][1]], cube[t3[a][2]]});
                for (auto &b : t3) general(X, mat({cube[b[0]], cube[b[1]], cube[b[2]]}));
            });
        }
        for (size_t a = 0; a < t4.size(); ++a) {
            auto &s = t4[a];
            if (!(s[0] < s[1] && s[1] < s[2] && s[2] < s[3])) continue;
            if (!c.thorough && s[0] != 0) continue;
            c.each([&] { return "corner quadruple " + vk::str(s) + " onto every quadruple"; }, [&] {
                MatX X = mat({cube[s[0]], cube[s[1]], cube[s[2]], cube[s[3]]});
                for (auto &b : t4) general(X, mat({cube[b[0]], cube[b[1]], cube[b[2]], cube[b[3]]}));
            });
        }
    }
    // 7) exact sets with every single coordinate perturbed
    for (size_t k = 0; k < grots.size(); ++k) for (int which = 0; which < 3; ++which)
        c.each([&] { return vk::fmt("perturbations of set %d under rotation %zu", which, k); }, [&] {
            std::vector<Pts> sets = {{{0, 0, 0}, {1, 0, 0}, {0, 2, 0}}, {{0, 0, 0}, {1, 0, 0}, {0, 2, 0}, {0, 0, 3}}, {{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}, {0, 0, .5}, {2, 2, 2}}};
            MatX X = mat(sets[which]), Y(X.rows(), 3);
            for (int i = 0; i < X.rows(); ++i) Y.row(i) = (grots[k] * X.row(i).transpose().cast<L>() + trans[1].cast<L>()).cast<double>().transpose();
            for (int i = 0; i < X.rows() * 3; ++i) for (double e : {1e-6, -.1, .5, 3., -20.}) { MatX Z = Y; Z(i / 3, i % 3) += e; general(X, Z); general(Z, X); }
        });
    // 8) sets of every size up to a few hundred and around larger powers of two; no point repeats and every point counts
    std::vector<int> sizes;
    for (int n = 3; n <= (c.thorough ? 1100 : 300); ++n) sizes.push_back(n);
    for (int p : {512, 1000, 1024, 2048, 4096, 5000}) for (int d : {-1, 0, 1}) sizes.push_back(p + d);
    if (c.thorough) for (int p : {8192, 10000, 65536, 100000}) for (int d : {-1, 0, 1}) sizes.push_back(p + d);
    for (int n : sizes) for (int drift = 0; drift < 2; ++drift)
        c.each([&] { return vk::fmt("%d irregular points%s", n, drift ? ", drifting away" : ""); }, [&] {
            auto u = [&](int i, int k) { double x = std::sin(12.9898 * (i + 1) + 78.233 * (k + 1)) * 43758.5453; return (double)(float)(2 * (x - std::floor(x)) - 1); };
            Pts p;
            for (int i = 0; i < n; ++i) p.push_back(Mat31(u(i, 0), u(i, 1), u(i, 2)) + drift * 2. * i / n * Mat31(1, -.4, .2));
            MatX X = mat(p), Y(n, 3), Z(n, 3);
            const ref::M3 &R = grots[n % grots.size()];
            if (n < 6000) { double f = (double)flatness(X); if (f > .02) exact(X, R, trans[n % 3], 1, 0, f * .25); }
            for (int i = 0; i < n; ++i) { Y.row(i) = (R * X.row(i).transpose().cast<L>() + trans[1].cast<L>()).cast<double>().transpose(); Z.row(i) = Y.row(i) + .2 * Mat13(u(i, 3), u(i, 4), u(i, 5)); }
            general(X, Z);
            // a gross error at either end moves the optimum
            for (int q : {0, n - 1, n / 2, std::min(n - 1, 128)}) { MatX V = Y; V.row(q) += Mat13(.3, -2, 1) * std::sqrt((double)n); general(X, V); }
        });
    return c.finish();
}
