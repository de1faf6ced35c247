// The documented accept/reject protocol as a reference model, and the alphabet of answers an objective may give.
#pragma once
#include "fg.hpp"
#include <map>
namespace proto {
using namespace fg;
enum Ans { WORSE_LOT, WORSE_BIT, EQUAL, BELOW_TOL, ABOVE_TOL, F10, F249, F251, F50, F79, F81, F300, NANV, INFV, NANS, AT_TOL, TWICE_TOL };
inline const char *aname(int a)
{
    static const char *n[] = {"much worse", "slightly worse", "equal", "better by less than the tolerance", "better by little more than the tolerance", "gain ratio .1", "gain ratio .249", "gain ratio .251", "gain ratio .5", "gain ratio .79", "gain ratio .81", "gain ratio 3", "not a number", "infinite", "-", "better by exactly the tolerance", "better by twice the tolerance"};
    return n[a];
}
// error of the trial state given the error before, the predicted decrease and the tolerance
inline double answer(int a, double prev, double pred, double tol)
{
    switch (a) {
    case WORSE_LOT: return prev + 100;
    case WORSE_BIT: return prev + 1e-7 * std::fmax(1, std::fabs(prev));
    case EQUAL: return prev;
    case BELOW_TOL: return prev - .5 * tol;
    case ABOVE_TOL: return prev - 1.5 * tol;
    case F10: return prev - .1 * pred;
    case F249: return prev - .249 * pred;
    case F251: return prev - .251 * pred;
    case F50: return prev - .5 * pred;
    case F79: return prev - .79 * pred;
    case F81: return prev - .81 * pred;
    case F300: return prev - 3 * pred;
    case AT_TOL: return prev - tol;
    case TWICE_TOL: return prev - 2 * tol;
    case NANV: return NAN;
    default: return INFINITY;
    }
}
// a smooth, non-trivial gradient and Hessian for every state.  Kinds: 0 positive definite of ordinary size, 1 the
// same scaled down, 2 scaled up, 3 with variables of very different scales, 4 indefinite
inline double kscale(int kind, int i) { return kind == 1 ? 3e-4 : kind == 2 ? 3e3 : kind == 3 ? (i % 2 ? 3e-4 : 200.) : 1; }
inline const char *kindname(int k) { static const char *n[] = {"ordinary", "tiny", "huge", "badly scaled", "indefinite"}; return n[k]; }
inline MatX1 grad(const MatX1 &x, int kind = 0) { MatX1 g(x.size()); for (int i = 0; i < g.size(); ++i) g(i) = kscale(kind, i) * (300 * (1 + i) * std::cos(.7 * i + .01 * x.sum()) + 3 * x(i)); if (kind == 1 || kind == 2) g *= kscale(kind, 0); return g; }
inline MatX hess(const MatX1 &x, int kind = 0)
{
    int n = x.size();
    MatX A(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = std::sin(1.3 * i + 2.1 * j + .02 * x(i));
    MatX H = A * A.transpose() + MatX::Identity(n, n) * (1.5 + .1 * n);
    if (kind == 4) H(0, 0) = -H(0, 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) H(i, j) *= kscale(kind, i) * kscale(kind, j);
    return H;
}
// damping that explains a step: H dx + lambda D dx = -g
inline double infer(const MatX &H, const MatX1 &g, const MatX1 &dx, bool ell, double &misfit)
{
    MatX1 rest = -g - H * dx, D = ell ? MatX1(H.diagonal().cwiseProduct(dx)) : dx;
    double lam = rest.dot(D) / D.dot(D);
    misfit = (rest - lam * D).norm() / (g.norm() + 1e-300);
    return lam;
}
inline double predicted(const MatX &H, const MatX1 &g, const MatX1 &dx, bool ell, double lam)
{
    MatX Hd = H;
    for (int i = 0; i < H.rows(); ++i) Hd(i, i) = ell ? H(i, i) * (1 + lam) : H(i, i) + lam;
    return -dx.dot(g) - .5 * dx.dot(Hd * dx);
}
// periodic answers for long solves: every word up to the given length, repeated to the limit.  The damping it
// leads to has to stay below `cap` (beyond, steps vanish in the rounding of the state)
inline void periodic(int len, double lam0, double cap, int limit, const std::function<void(const std::vector<int> &, const std::string &)> &visit)
{
    static const int al[] = {WORSE_LOT, WORSE_BIT, F10, F50, F81, F300, NANV, INFV};
    vk::sequences(8, len, [&](const std::vector<int> &w) {
        if (w.empty()) return true;
        std::vector<int> a;
        std::string name;
        for (int i : w) name += std::string(name.empty() ? "" : ", ") + aname(al[i]);
        double lam = lam0, top = lam0;
        for (int i = 0; i < limit; ++i) { int q = al[w[i % w.size()]]; a.push_back(q); lam *= q == F50 ? 1 : q == F81 || q == F300 ? .25 : 2; top = std::max(top, lam); }
        if (top <= cap) visit(a, name);
        return true;
    });
}
} // namespace proto
