// Shared alphabets: directions, magnitudes around every numerical threshold, rotations, translations.
#pragma once
#include "ref.hpp"
#include <set>
namespace grid {
using namespace mrob;
inline std::vector<Mat31> directions(int n, bool skew = true)
{
    std::vector<Mat31> r;
    auto gcd = [](int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a < 0 ? -a : a; };
    for (int x = -n; x <= n; ++x) for (int y = -n; y <= n; ++y) for (int z = -n; z <= n; ++z) {
        if (!x && !y && !z) continue;
        if (gcd(gcd(x, y), z) > 1) continue;
        r.push_back(Mat31(x, y, z).normalized());
    }
    if (skew) {
        double v[][3] = {{1, 2, 3}, {-3, 1, 2}, {2, -3, 1}, {.1, 1, .001}, {1, 1e-4, -1e-4}, {1e-3, -1e-3, 1}, {-1e-7, 1, 1e-7}, {.6, .8, 1e-9}, {1, 1 + 1e-9, 1 - 1e-9}, {-1, -1 - 1e-7, .5}};
        for (auto &x : v) r.push_back(Mat31(x[0], x[1], x[2]).normalized());
    }
    return r;
}
const double PI = 3.14159265358979323846;
inline std::vector<double> angles(int perdecade, bool beyond)
{
    std::vector<double> r = {0, 1e-300, 1e-160, 1e-20, 1e-12};
    for (int k = -9 * perdecade; k <= 0; ++k) r.push_back(std::pow(10., (double)k / perdecade));
    for (double t : {1e-5, 1e-4, 1e-3, 5e-3, 1e-2, 1e-1}) for (double e : {-1e-3, 0., 1e-3}) r.push_back(t * (1 + e));
    for (double t : {.5, 1., 1.3, 1.7, 2., 2.2, 2.5, 2.8, 3., 3.1}) r.push_back(t);
    std::vector<double> eps = {0, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 5e-8, 6.5e-8, 1e-7, 1e-6, 2e-6, 1e-5, 1e-4, 1e-3, 3e-3, 1e-2, 3e-2};
    for (double c : {PI / 2, PI}) for (double e : eps) { r.push_back(c - e); if (beyond || c < 3) r.push_back(c + e); }
    if (beyond) {
        for (double c : {2 * PI, 3 * PI, 4 * PI}) for (double e : {0., 1e-12, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 4e-3, 1e-2, 1e-1}) { r.push_back(c - e); r.push_back(c + e); }
        for (double c : {4., 5., 6., 8., 11., 20., 31.4, 50., 100., 314., 1000.}) r.push_back(c);
    }
    std::set<double> s(r.begin(), r.end());
    return std::vector<double>(s.begin(), s.end());
}
// the rotation set: quaternions with components in [-n,n], one per rotation
inline std::vector<ref::M3> rotations(int n)
{
    std::vector<ref::M3> r;
    auto gcd = [](int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a < 0 ? -a : a; };
    for (int w = 0; w <= n; ++w) for (int x = -n; x <= n; ++x) for (int y = -n; y <= n; ++y) for (int z = -n; z <= n; ++z) {
        if (gcd(gcd(w, x), gcd(y, z)) != 1) continue;
        if (w == 0 && (x < 0 || (x == 0 && (y < 0 || (y == 0 && z < 0))))) continue;
        ref::L s = (ref::L)w * w + x * x + y * y + z * z;
        ref::M3 R;
        R << 1 - 2 * (y * y + z * z) / s, 2 * (x * y - z * w) / s, 2 * (x * z + y * w) / s,
            2 * (x * y + z * w) / s, 1 - 2 * (x * x + z * z) / s, 2 * (y * z - x * w) / s,
            2 * (x * z - y * w) / s, 2 * (y * z + x * w) / s, 1 - 2 * (x * x + y * y) / s;
        r.push_back(R);
    }
    return r;
}
inline std::vector<Mat31> translations(bool full)
{
    std::vector<Mat31> r = {Mat31(0, 0, 0), Mat31(1, 2, -3), Mat31(1e6, -2e5, 3e5), Mat31(1e-9, 2e-9, 0)};
    if (full) {
        r.push_back(Mat31(1, 0, 0)); r.push_back(Mat31(0, -1, 0)); r.push_back(Mat31(0, 0, 1));
        r.push_back(Mat31(-.1, .05, 20)); r.push_back(Mat31(1e-3, 1e3, -1)); r.push_back(Mat31(0, 1e9, 0));
    }
    return r;
}
inline Mat4 mk(const ref::M3 &R, const Mat31 &t)
{
    Mat4 T = Mat4::Identity();
    T.topLeftCorner<3, 3>() = R.cast<double>();
    T.topRightCorner<3, 1>() = t;
    return T;
}
inline Mat61 tw(double a, double b, double c, double d, double e, double f) { Mat61 x; x << a, b, c, d, e, f; return x; }
} // namespace grid
