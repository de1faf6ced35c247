// G07: action on points and metrics.
#include "grids.hpp"
#include <mrob/SE3.hpp>
using namespace mrob;
using ref::L;
int main(int argc, char **argv)
{
    vk::Ctx c("G07", argc, argv);
    std::vector<Mat4> Ts;
    auto trans = grid::translations(true);
    for (auto &R : grid::rotations(c.thorough ? 6 : 3)) for (auto &t : trans) Ts.push_back(grid::mk(R, t));
    for (auto &d : grid::directions(1)) for (double o : {1e-12, 1e-6, 1e-3, .1, 1., 2.5, grid::PI - 1e-4}) Ts.push_back(grid::mk(ref::exp3((d * o).cast<L>()), Mat31(.1, -.2, 3)));
    std::vector<Mat31> pts;
    for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) pts.push_back(Mat31(x, y, z));
    pts.push_back(Mat31(1e6, -2e6, 3e5)); pts.push_back(Mat31(1e-9, 0, 2)); pts.push_back(Mat31(.1, 20, -300));
    size_t step = std::max<size_t>(1, Ts.size() / (c.thorough ? 600 : 250));
    std::vector<int> lens = {0, 1, 2, 3, 4, 5, 7, 8, 16, 33};
    for (size_t n = 0; n < Ts.size(); ++n)
        c.each([&] { return "T = " + ref::s(Ts[n]); }, [&] {
            Mat4 T = Ts[n];
            SE3 g(T), gi = g.inv();
            double tn = 1 + g.t().norm();
            ref::M3 R = T.topLeftCorner<3, 3>().cast<L>();
            ref::V3 t = T.topRightCorner<3, 1>().cast<L>();
            std::vector<Mat31> q;
            for (auto &p : pts) {
                Mat31 y = g.transform(p);
                double pn = 1 + p.norm();
                c.near("transform = R p + t", ref::dist(y, R * p.cast<L>() + t), 1e-14 * (tn + pn));
                c.near("inverse undoes", ref::dist(gi.transform(y), p), 1e-14 * (tn + pn) * 4);
                q.push_back(y);
                c.outcome(vk::Hash().m(y).h);
            }
            for (size_t i = 0; i < pts.size(); ++i) for (size_t j = 0; j < i; ++j)
                c.near("distances preserved", std::fabs((q[i] - q[j]).norm() - (pts[i] - pts[j]).norm()), 1e-14 * (tn + 1 + pts[i].norm() + pts[j].norm()) * 4);
            for (int N : lens) {
                MatX P(N, 3);
                for (int i = 0; i < N; ++i) P.row(i) = pts[(i * 7 + N) % pts.size()].transpose();
                MatX P0 = P;
                MatX Y = g.transform_array(P);
                c.req(Y.rows() == N && Y.cols() == 3, "transform_array keeps the shape");
                for (int i = 0; i < N; ++i) c.near("transform_array rows", ref::dist(Mat31(Y.row(i).transpose()), q[(i * 7 + N) % pts.size()]), 1e-14 * (tn + 1 + P.row(i).norm()));
                c.req(P == P0, "transform_array leaves its argument");
            }
            // repeated rows, in runs and alternating
            for (int len = 2; len <= 9; ++len) for (int pat = 0; pat < 3; ++pat) {
                MatX P(len, 3);
                auto at = [&](int i) { return (n + (pat == 0 ? i / 2 : pat == 1 ? i / 3 : i & 1)) % pts.size(); };
                for (int i = 0; i < len; ++i) P.row(i) = pts[at(i)].transpose();
                MatX Y = g.transform_array(P);
                c.req(Y.rows() == len && Y.cols() == 3, "transform_array keeps the shape");
                for (int i = 0; i < len; ++i) c.near("transform_array with repeated rows", ref::dist(Mat31(Y.row(i).transpose()), q[at(i)]), 1e-14 * (tn + 1 + P.row(i).norm()));
            }
            // long arrays: lengths around the powers of two and multiples of them, every length up to 300 for a few motions
            std::vector<int> ll = n % 16 == 0 ? std::vector<int>{127, 128, 129, 255, 256, 257, 511, 512, 513, 768, 769, 1000, 1024, 1025, 2048, 3072, 4096, 4097} : n % 4 == 1 ? std::vector<int>{64, 65, 256, 257, 1024, 1025} : std::vector<int>();
            if (n % (c.thorough ? 50 : 400) == 3) for (int N = 34; N <= 300; ++N) ll.push_back(N);
            if (n % (c.thorough ? 100 : 800) == 5) for (int N : {65535, 65536, 65537, 99999, 100000, 100003}) ll.push_back(N);
            for (int N : ll) {
                MatX P(N, 3);
                for (int i = 0; i < N; ++i) P.row(i) = pts[(i * 7 + N) % pts.size()].transpose();
                MatX Y = g.transform_array(P);
                c.req(Y.rows() == N && Y.cols() == 3, "transform_array keeps the shape of a long array");
                for (int i = 0; i < N; ++i) c.near("transform_array rows of a long array", (Y.row(i).transpose() - q[(i * 7 + N) % pts.size()]).cwiseAbs().maxCoeff(), 1e-14 * (tn + 1 + P.row(i).norm()) * 2);
            }
            c.req(memcmp(Mat4(g.T()).data(), T.data(), sizeof(double) * 16) == 0, "the transformation is unchanged");
            ++c.traces;
            SO3 r(g.R());
            c.near("distance to itself", g.distance(g), 1e-6 * tn);
            c.near("distance_rotation to itself", g.distance_rotation(g), 1e-7);
            c.near("distance_trans to itself", g.distance_trans(g), 0 + 1e-300);
            c.near("default distance_trans", std::fabs(g.distance_trans() - g.t().norm()), 4e-15 * tn);
            for (size_t m = n % step; m < Ts.size(); m += step) {
                SE3 h(Ts[m]);
                ref::M4 LT = T.cast<L>(), LH = Ts[m].cast<L>();
                ref::M4 D = LT * ref::inv4(LH);
                ref::V6 x = ref::ln6(D);
                double hn = 1 + h.t().norm(), o = (double)x.head<3>().norm();
                // the angle of nearly equal or nearly opposite rotations is known to sqrt(eps) only
                double ta = (o < 1e-3 || grid::PI - o < 1e-3) ? 1e-7 : 1e-9;
                c.near("distance_rotation = |Ln(R R'^T)|", std::fabs(g.distance_rotation(h) - o), ta);
                c.near("SO3 distance", std::fabs(r.distance(SO3(h.R())) - o), ta);
                c.near("distance_rotation symmetric", std::fabs(g.distance_rotation(h) - h.distance_rotation(g)), ta);
                c.near("distance_trans = |t - t'|", std::fabs(g.distance_trans(h) - (g.t() - h.t()).norm()), 4e-15 * (tn + hn));
                c.near("distance_trans symmetric", std::fabs(g.distance_trans(h) - h.distance_trans(g)), 4e-15 * (tn + hn));
                double full = (double)x.norm(), tt = (tn + hn) * 1e-6;
                c.near("distance = |Ln(T T'^-1)|", std::fabs(g.distance(h) - full), grid::PI - o < 1e-3 ? 10 * tt : o < 1e-3 ? 1e-7 + (tn + hn) * 1e-7 : (tn + hn) * 1e-9);
                c.near("distance symmetric", std::fabs(g.distance(h) - h.distance(g)), (tn + hn) * 1e-5);
                // composition acts as successive transformation
                Mat31 p(.3, -2, 5);
                c.near("(T U) p = T (U p)", ref::dist((g * h).transform(p), g.transform(h.transform(p))), 1e-14 * (tn + hn + 6) * 4);
                SE3 k(grid::tw(.4, -1, .6, 2, 1, -3));
                c.near("distance_rotation right-invariant", std::fabs((g * k).distance_rotation(h * k) - g.distance_rotation(h)), 10 * ta);
                c.near("distance right-invariant", std::fabs((g * k).distance(h * k) - g.distance(h)), (tn + hn) * 1e-5);
                c.outcome(vk::Hash().m(x).i(1).h);
            }
            // partners with almost the same translation: their distance is known as well as the translations are
            for (double e : {1e-3, 1e-6, 1e-8, 1e-10}) for (auto &d : {Mat31(1, -2, .5), Mat31(0, 0, 1)}) {
                Mat4 H = Ts[(n * 7 + 3) % Ts.size()];
                H.topRightCorner<3, 1>() = g.t() + e * d;
                SE3 h(H);
                c.near("distance_trans of nearly equal translations", std::fabs(g.distance_trans(h) - (g.t() - h.t()).norm()), 1e-13 * tn);
            }
            c.near("default distance = distance to the identity", std::fabs(g.distance() - g.distance(SE3())), 1e-12 * (1 + g.distance()));
            c.near("default distance_rotation", std::fabs(g.distance_rotation() - g.distance_rotation(SE3())), 1e-12);
        });
    return c.finish();
}
