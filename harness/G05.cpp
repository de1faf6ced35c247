// G05: validity predicates on every rotation of a grid with structured perturbations.
#include "grids.hpp"
#include <mrob/SE3.hpp>
using namespace mrob;
using ref::L;
int main(int argc, char **argv)
{
    vk::Ctx c("G05", argc, argv);
    auto rots = grid::rotations(c.thorough ? 8 : 4);
    for (auto &d : grid::directions(1)) for (double o : {1e-7, 1e-3, .5, 2., grid::PI - 1e-8}) rots.push_back(ref::exp3((d * o).cast<L>()));
    std::vector<double> sizes = {2e-5, 1e-4, 1e-3, .01, .1, .5, 1, 2, 10, 1e6};
    auto trans = grid::translations(true);
    // expected verdict from the definition in extended precision; values in the dead band are not decided
    auto verdict3 = [](const Mat3 &R) { double d = (double)ref::so3_defect(R.cast<L>()); return d > 1e-5 ? 0 : d < 1e-7 ? 1 : 2; };
    auto verdict4 = [](const Mat4 &T) { double d = (double)ref::se3_defect(T.cast<L>()); return d > 1e-5 ? 0 : d < 1e-7 ? 1 : 2; };
    for (auto &Rx : rots)
        c.each([&] { return "R = " + ref::s(Rx); }, [&] {
            Mat3 R = Rx.cast<double>();
            ++c.traces;
            auto t3 = [&](const Mat3 &M, const char *what) {
                int v = verdict3(M);
                if (v == 2) return;
                bool got = isSO3(M);
                ++c.evals;
                c.outcome(vk::Hash().m(M).i(v).h);
                if (got != (v == 1)) VK_FAIL("isSO3(%s) = %d (%s)", ref::s(M).c_str(), (int)got, what);
                Mat4 T = Mat4::Identity();
                T.topLeftCorner<3, 3>() = M;
                auto with = [&](const Mat31 &t) {
                    T.topRightCorner<3, 1>() = t;
                    bool got4 = isSE3(T);
                    ++c.evals;
                    if (got4 != (v == 1)) VK_FAIL("isSE3 with that rotation block %s, translation %s = %d (%s)", ref::s(M).c_str(), ref::s(t).c_str(), (int)got4, what);
                };
                with(Mat31(1, -2, 3));
                for (auto &t : trans) with(t);
            };
            auto t4 = [&](const Mat4 &T, const char *what) {
                int v = verdict4(T);
                if (v == 2) return;
                bool got = isSE3(T);
                ++c.evals;
                c.outcome(vk::Hash().m(T).i(v).h);
                if (got != (v == 1)) VK_FAIL("isSE3(%s) = %d (%s)", ref::s(T).c_str(), (int)got, what);
            };
            t3(R, "valid");
            for (auto &t : trans) t4(grid::mk(Rx, t), "valid");
            // rounding far below 1e-7
            for (int i = 0; i < 9; ++i) for (double e : {1e-9, -1e-9, 1e-12, -3e-8, 3e-8}) { Mat3 M = R; M(i / 3, i % 3) += e; t3(M, "rounded"); }
            for (double e : sizes) for (double s : {1., -1.}) {
                for (int i = 0; i < 9; ++i) { Mat3 M = R; M(i / 3, i % 3) += s * e; t3(M, "one entry"); }
                t3(R * (1 + s * e), "scaled");
                for (int i = 0; i < 3; ++i) {
                    Mat3 D = Mat3::Identity(); D(i, i) = 1 + s * e;
                    t3(R * D, "scaled column"); t3(D * R, "scaled row");
                    for (int j = 0; j < 3; ++j) if (j != i) {
                        Mat3 S = Mat3::Identity(); S(i, j) = s * e;
                        t3(R * S, "shear"); t3(S * R, "shear");
                        Mat3 U = Mat3::Identity(); U(i, i) = 1 + e; U(j, j) = 1 / (1 + e);
                        t3(R * U, "unit determinant stretch"); t3(U * R, "unit determinant stretch");
                    }
                }
                for (auto &t : trans) for (int i = 0; i < 4; ++i) {
                    Mat4 T = grid::mk(Rx, t);
                    T(3, i) += s * e;
                    t4(T, "last row");
                    for (int j = 0; j < 4; ++j) if (j != i) for (double s2 : {1., -1., 2.}) { Mat4 U = T; U(3, j) += s2 * s * e; t4(U, "last row, two entries"); }
                }
            }
            for (int m = 0; m < 8; ++m) { // reflections
                Mat3 D = Mat3::Identity();
                for (int i = 0; i < 3; ++i) if (m >> i & 1) D(i, i) = -1;
                t3(R * D, "axis flips"); t3(D * R, "axis flips");
            }
            t3(-R, "negated"); t3(Mat3::Zero(), "zero"); t3(Mat3::Ones(), "ones"); t3(2 * R, "doubled");
            { Mat3 M = R; M.col(0).swap(M.col(1)); t3(M, "swapped columns"); }
            { Mat3 M = R; M.col(2) = M.col(1); t3(M, "repeated column"); }
            { Mat4 T = grid::mk(Rx, Mat31(1, 2, 3)); T.row(3).setZero(); t4(T, "zero last row"); }
            { Mat4 T = grid::mk(Rx, Mat31(1, 2, 3)); T.transposeInPlace(); t4(T, "transposed"); }
            for (int i = 0; i < 9; ++i) { Mat3 M = R; M(i / 3, i % 3) = NAN; c.req(!isSO3(M), "NaN entry rejected"); M(i / 3, i % 3) = INFINITY; c.req(!isSO3(M), "infinite entry rejected"); }
            for (int i = 0; i < 4; ++i) for (double e : {(double)NAN, (double)INFINITY, -(double)INFINITY}) { Mat4 T = grid::mk(Rx, Mat31(1, 2, 3)); T(3, i) = e; c.req(!isSE3(T), "last row that is not finite rejected"); }
            for (int i = 0; i < 9; ++i) for (double e : {(double)NAN, (double)INFINITY}) { Mat4 T = grid::mk(Rx, Mat31(1, 2, 3)); T(i / 3, i % 3) = e; c.req(!isSE3(T), "rotation block that is not finite rejected"); }
            // predicates take copies
            Mat3 K = R; isSO3(K);
            c.req(K == R, "isSO3 leaves its argument");
        });
    return c.finish();
}
