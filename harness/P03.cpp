// P03: plane, normal and centroid estimates over every small lattice point set.
#include "grids.hpp"
#include <Eigen/Eigenvalues>
#include <mrob/estimate_plane.hpp>
using namespace mrob;
using ref::L;
typedef std::vector<Mat31> Pts;
static MatX mat(const Pts &p) { MatX m(p.size(), 3); for (size_t i = 0; i < p.size(); ++i) m.row(i) = p[i].transpose(); return m; }
int main(int argc, char **argv)
{
    vk::Ctx c("P03", argc, argv);
    auto rots = grid::rotations(1);
    rots.push_back(ref::exp3(ref::V3(.3L, -1.1L, .5L)));
    // returns the plane; checks everything a single call promises
    auto one = [&](const MatX &X, double size, double off) {
        MatX X1 = X;
        Mat41 pl = estimate_plane(X);
        Mat31 n = estimate_normal(X), ce = estimate_centroid(X);
        c.req(X1 == X, "inputs unchanged");
        c.req(n == pl.head<3>(), "the normal is the first three components of the plane");
        int N = X.rows();
        ref::MX x = X.cast<L>();
        ref::V3 cen = x.colwise().sum().transpose() / (L)N;
        double big = std::max(size, off);
        c.near("centroid", ref::dist(ce, cen), 4e-15 * N * big);
        c.near("unit normal", std::fabs((double)n.cast<L>().norm() - 1), 1e-13);
        c.near("plane through the centroid", std::fabs((double)(n.cast<L>().dot(cen) + (L)pl(3))), 1e-14 * N * big);
        x.rowwise() -= cen.transpose().eval();
        ref::M3 S = x.transpose() * x;
        Eigen::SelfAdjointEigenSolver<ref::M3> e(S);
        L tr = S.trace();
        L got = n.cast<L>().dot(S * n.cast<L>()), rnd = (L)1e-30 * N + (L)N * big * big * 1e-30L;
        // the sum of squared distances is minimal; tr: what the rounding of the normal may add is quadratic
        // in its error, which is bounded by (eps / relative gap)
        L gap = (e.eigenvalues()(1) - e.eigenvalues()(0)) / tr;
        c.near("sum of squared distances", (double)((got - e.eigenvalues()(0)) / tr), 1e-12 + (double)rnd);
        if (gap > 1e-3L) {
            ref::V3 d = e.eigenvectors().col(0);
            if (d.dot(n.cast<L>()) < 0) d = -d;
            c.near("optimal normal", ref::dist(n, d), 1e-12 / (double)gap + 1e-13 * big / size / (double)gap);
        }
        if (e.eigenvalues()(0) < 1e-24L * tr) for (int i = 0; i < N; ++i) c.near("coplanar points lie on the plane", std::fabs((double)(n.cast<L>().dot(X.row(i).transpose().cast<L>()) + (L)pl(3))), 1e-10 * size + 1e-12 * big);
        c.outcome(vk::Hash().m(pl).h);
        return pl;
    };
    Pts lat;
    for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) lat.push_back(Mat31(x, y, z));
    int kmax = c.thorough ? 6 : 5;
    for (int k = 3; k <= kmax; ++k) {
        std::vector<int> s;
        std::function<void(int)> rec = [&](int from) {
            if ((int)s.size() == k) {
                bool line = true;
                for (int i = 1; i < k; ++i) for (int j = 1; j < i; ++j) if ((lat[s[i]] - lat[s[0]]).cross(lat[s[j]] - lat[s[0]]).norm() > 0) line = false;
                if (line) return;
                std::vector<int> si = s;
                c.each([&] { return "lattice subset {" + vk::str(si) + "}"; }, [&] {
                    Pts p;
                    for (int i : si) p.push_back(lat[i]);
                    MatX B = mat(p);
                    int h = 0;
                    for (int i : si) h = h * 29 + i;
                    Mat41 pl = one(B, 1, 1);
                    for (double sc : {1e-5, 1e5}) { MatX X = B * sc; one(X, sc, sc); }
                    for (double off : {10., 1e3}) { MatX X = B; X.rowwise() += Mat13(off, -.7 * off, .3 * off); one(X, 1, off); }
                    // rotated order
                    MatX P(k, 3);
                    for (int i = 0; i < k; ++i) P.row(i) = B.row((i * (k == 4 ? 3 : k - 1) + 1) % k);
                    Mat41 q = one(P, 1, 1);
                    ref::MX x = B.cast<L>();
                    x.rowwise() -= (x.colwise().sum() / (L)k).eval();
                    Eigen::SelfAdjointEigenSolver<ref::M3> e(ref::M3(x.transpose() * x));
                    bool unique = e.eigenvalues()(1) - e.eigenvalues()(0) > 1e-3L * e.eigenvalues()(2);
                    auto same = [&](const Mat41 &a, const Mat41 &b, const char *what, double tol) { if (unique) c.near(what, std::min(ref::dist(a, b), ref::dist(a, Mat41(-b))), tol); };
                    same(pl, q, "order of the points is irrelevant", 1e-9);
                    // rigid motions
                    for (int m = 0; m < (c.thorough ? 8 : 3); ++m) {
                        const ref::M3 &R = rots[(h + m * 13) % rots.size()];
                        ref::V3 t(1.5L * (m % 3), -2, .5L * m);
                        MatX Y(k, 3);
                        for (int i = 0; i < k; ++i) Y.row(i) = (R * B.row(i).transpose().cast<L>() + t).cast<double>().transpose();
                        Mat41 w = one(Y, 1, 6), v;
                        v.head<3>() = (R * pl.head<3>().cast<L>()).cast<double>();
                        v(3) = (double)((L)pl(3) - (R * pl.head<3>().cast<L>()).dot(t));
                        same(w, v, "the plane moves with the points", 1e-8);
                    }
                });
                return;
            }
            for (int i = from; i < 27; ++i) { s.push_back(i); rec(i + 1); s.pop_back(); }
        };
        rec(0);
    }
    // planes of every direction, exact and noisy, with many points, thin sets and offsets
    auto dirs = grid::directions(2);
    for (auto &d : dirs) for (double noise : {0., 1e-9, 1e-4, .1}) for (int n : {3, 4, 5, 10, 100, 1000})
        c.each([&] { return "plane of normal " + ref::s(d) + vk::fmt(" noise %g, %d points", noise, n); }, [&] {
            Mat31 a = std::fabs(d(0)) < .7 ? Mat31(1, 0, 0) : Mat31(0, 1, 0);
            Mat31 u = d.cross(a).normalized(), v = d.cross(u);
            for (double thin : {1., .1, 1e-2, 1e-3}) for (double off : {0., 5., 1e3}) {
                if (noise > .1 * thin) continue;
                Pts p;
                for (int i = 0; i < n; ++i) p.push_back(u * ((i * 7 % 11) / 5. - 1) + thin * v * ((i * i + 2 * (i % 3)) % 7 / 3. - 1) + (off + noise * ((i * 5 % 13) / 6. - 1)) * d);
                MatX X = mat(p);
                Mat41 pl = one(X, 1, std::max(off, 1.));
                if (noise == 0 && thin >= 1e-3 && n > 3) {
                    Mat31 nn = pl.head<3>();
                    if (nn.dot(d) < 0) pl = -pl;
                    c.near("normal of an exact plane", ref::dist(Mat31(pl.head<3>()), d), 1e-12 * (off + 1) / (thin * thin));
                }
            }
        });
    // sets of every size up to a few hundred and around larger powers of two, no point repeats, spreading along the plane
    std::vector<int> sizes;
    for (int n = 3; n <= (c.thorough ? 1100 : 300); ++n) sizes.push_back(n);
    for (int p : {512, 1000, 1024, 2048, 4096, 5000, 8192, 10000}) for (int d : {-1, 0, 1}) sizes.push_back(p + d);
    if (c.thorough) for (int p : {16384, 32768, 65536, 100000}) for (int d : {-1, 0, 1}) sizes.push_back(p + d);
    for (int n : sizes) for (double off : {0., 30.})
        c.each([&] { return vk::fmt("%d irregular points, distance %g", n, off); }, [&] {
            auto r = [&](int i, int k) { double x = std::sin(12.9898 * (i + 1) + 78.233 * (k + 1)) * 43758.5453; return (double)(float)(2 * (x - std::floor(x)) - 1); };
            Mat31 d = dirs[n % dirs.size()], a = std::fabs(d(0)) < .7 ? Mat31(1, 0, 0) : Mat31(0, 1, 0), u = d.cross(a).normalized(), v = d.cross(u);
            Pts p;
            for (int i = 0; i < n; ++i) p.push_back(u * (r(i, 0) + 2. * i / n) + v * (r(i, 1) - 1. * i / n) + (off + .05 * r(i, 2) + (i % 2 ? .02 : 0.) * i / n) * d);
            MatX X = mat(p);
            one(X, 1, std::max(off, 1.));
            X.row(n - 1) += Mat13(.3, -.7, .5);
            one(X, 1, std::max(off, 1.));
        });
    return c.finish();
}
