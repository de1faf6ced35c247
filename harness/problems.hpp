// Well-posed estimation problems grown by gadgets: every sequence of gadgets is a problem.  A gadget adds a
// variable together with a factor that determines it, or a further factor between existing variables.
#pragma once
#include "fg.hpp"
namespace prob {
using namespace fg;
struct Cfg {
    double noise = .05;  // size of the observation noise
    double init = .05;   // size of the error of the initial states
    int robust = 0;      // kernel of every factor; 5: kernels cycle by factor
    int info = 0;        // 0 identity, 1 diagonal, 2 correlated, 5 cycles by factor
    int anchors = 0;     // bit set over variables
    int ws = 0;          // scale of the information matrices: 1 large, 2 small, 3 cycles by factor, 4 minute, 5 enormous
    double far = 0;      // the initial positions of free variables are off by this much
    bool prior = true;   // the first pose has a prior (otherwise it should be anchored)
    std::string str() const { return vk::fmt("noise %g init %g%s robust %d info %d anchors %d%s%s", noise, init, far ? vk::fmt(" far %g", far).c_str() : "", robust, info, anchors, ws ? vk::fmt(" information scale %d", ws).c_str() : "", prior ? "" : " without prior"); }
};
struct Grown { Problem p; std::vector<St> truth; std::vector<std::pair<int, int>> mark; }; // mark: number of variables and factors after each gadget
static const int N2 = 8, N3 = 9;
inline const char *gname(bool three, int g)
{
    static const char *a[] = {"pose+2Poses2d", "pose+odometry", "pose+reversed 2Poses2d", "landmark", "re-observe landmark", "loop", "prior on last", "anchored landmark"};
    static const char *b[] = {"pose+2Poses3d", "pose+reversed 2Poses3d", "landmark3d", "re-observe landmark3d", "plane", "re-observe plane", "loop", "point-to-plane on last", "prior on last"};
    return three ? b[g] : a[g];
}
inline std::string names(bool three, const std::vector<int> &s) { std::string r; for (int g : s) r += (r.empty() ? "" : " + ") + std::string(gname(three, g)); return r.empty() ? "one pose" : r; }
// deterministic, irregular values in [-1,1]
inline double rnd(int a, int b) { double x = std::sin(12.9898 * (a + 1) + 78.233 * (b + 1)) * 43758.5453; x -= std::floor(x); return (double)(float)(2 * x - 1); }
struct Grower {
    Grown o; Cfg c; int salt;
    std::vector<int> pose, land, plane; // variables
    bool three;
    explicit Grower(const Cfg &c_, bool t, int s = 0) : c(c_), salt(s), three(t) {}
    MX W(int dim)
    {
        static const L sc[] = {1, 1048576, 1 / 1048576.L, 0, 1 / 1152921504606846976.L, 1152921504606846976.L}, cyc[] = {256, 1, 1 / 256.L};
        int i = (int)o.p.f.size();
        return spd(dim, c.info == 5 ? i % 3 : c.info) * (c.ws == 3 ? cyc[i % 3] : sc[c.ws]);
    }
    int rob() { return c.robust == 5 ? (int)o.p.f.size() % 5 : c.robust; }
    VX noise(int n, double lvl) { VX v(n); int i = (int)o.p.f.size() + (int)o.p.x.size() * 31 + salt * 7; for (int k = 0; k < n; ++k) v(k) = lvl * rnd(i, k); return v; }
    VX rd(const VX &v) { return v.cast<double>().cast<L>(); }
    int var(const St &truth, bool anch)
    {
        St s = truth;
        int id = (int)o.p.x.size();
        anch = anch || (id < 31 && ((c.anchors >> id) & 1));
        if (!anch) s = update(s, noise(vdim(s.k), c.init)); // anchors stand at the truth
        if (!anch && c.far && s.k == P3) for (int i = 0; i < 3; ++i) s.T(i, 3) += c.far * rnd(id + 40, i);
        if (!anch && c.far && s.k != P3 && s.k != PL) for (int i = 0; i < (s.k == L3 ? 3 : 2); ++i) s.v(i) += c.far * rnd(id + 40, i);
        if (s.k == P3) s.T = s.T.cast<double>().cast<L>().eval(); else s.v = rd(s.v);
        o.truth.push_back(truth);
        return o.p.add(s, anch);
    }
    void vec(int k, int a, int b, VX extra = VX())
    {
        // observation = the one consistent with the truth + noise
        Fac f = mkf(k, a, b, k == FPL ? vx({0, 0, 1, 0}) : k == FPT ? extra : VX(VX::Zero(fdim(k))), W(fdim(k)), rob());
        const St &A = o.truth[a], &B = o.truth[b >= 0 ? b : a];
        VX n = noise(fdim(k), c.noise);
        if (k == FPL) {
            ref::V4 pl = A.T.transpose() * B.v;
            if (pl(3) < 0) pl = -pl;
            VX z = pl + n;
            z.head(3) /= z.head(3).norm();
            f.z = rd(z);
        } else if (k == FPT) {
            // point x on the sensor, y = its place in the world moved within the plane, then off it by the noise
            ref::V3 x = extra.segment(0, 3), nn = extra.segment(6, 3), t = extra.segment(3, 3);
            ref::V3 X = A.T.topLeftCorner<3, 3>() * x + A.T.topRightCorner<3, 1>();
            ref::V3 y = X + (t - nn * nn.dot(t)) + nn * n(0);
            f.z.segment(3, 3) = y; f.z = rd(f.z);
        } else if (k == FOD) {
            // a consistent odometry: rotate towards the target, translate, rotate
            L dx = B.v(0) - A.v(0), dy = B.v(1) - A.v(1);
            VX z(3);
            z(1) = std::sqrt(dx * dx + dy * dy);
            z(0) = ref::wrap(std::atan2(dy, dx) - A.v(2));
            z(2) = ref::wrap(B.v(2) - A.v(2) - z(0));
            f.z = rd(z + n);
        } else {
            f.z = VX::Zero(fdim(k));
            VX r = resid(f, A, B).r;
            f.z = rd(r + n);
        }
        o.p.f.push_back(f);
    }
    void tr(int k, int a, int b)
    {
        Fac f = mkT(k, a, b, grid::tw(0, 0, 0, 0, 0, 0), W(6), rob());
        ref::V6 n = noise(6, c.noise);
        ref::M4 T = k == F1P3 ? o.truth[a].T : ref::M4(ref::inv4(o.truth[a].T) * o.truth[b].T);
        f.Tz = (T * ref::exp6(n)).cast<double>().cast<L>();
        o.p.f.push_back(f);
    }
    St next()
    {
        int n = (int)pose.size() % 9; // a long trajectory stays within a bounded region
        if (!three) {
            const St &s = o.truth[pose.back()];
            return update(sv(P2, {(double)s.v(0), (double)s.v(1), (double)s.v(2)}), vx({1.5 * std::cos(1.3 * n), .7 + n * .25, .9 + .2 * n}));
        }
        St s; s.k = P3; s.T = o.truth[pose.back()].T;
        VX d = vx({.3 - .1 * n, .2 * n, -.4, 1, .5 * n, -.7});
        return update(s, d);
    }
    void start()
    {
        if (!three) pose.push_back(var(sv(P2, {.5 + salt, -.25, .4 + salt}), false));
        else pose.push_back(var(sT(grid::tw(.2, -.1, .3, 1 + salt, .5, -1)), false));
        if (c.prior) { if (three) tr(F1P3, pose[0], -1); else vec(F1P2, pose[0], -1); }
        o.mark.push_back({(int)o.p.x.size(), (int)o.p.f.size()});
    }
    bool gadget(int g)
    {
        int last = pose.back(), n = (int)o.p.x.size() % 11;
        if (!three) switch (g) {
        case 0: { int v = var(next(), false); pose.push_back(v); vec(F2P2, last, v); break; }
        case 1: { int v = var(next(), false); pose.push_back(v); vec(FOD, last, v); break; }
        case 2: { int v = var(next(), false); pose.push_back(v); vec(F2P2, v, last); break; }
        case 3: case 7: { St l = sv(L2, {2. + n, 3. - 1.5 * n}); int v = var(l, g == 7); land.push_back(v); vec(FL2, last, v); break; }
        case 4: if (land.empty()) return false; vec(FL2, pose.size() > 1 ? pose[0] : last, land.back()); break;
        case 5: if (pose.size() < 2) return false; vec(F2P2, last, pose[0]); break;
        case 6: vec(F1P2, last, -1); break;
        } else switch (g) {
        case 0: { int v = var(next(), false); pose.push_back(v); tr(F2P3, last, v); break; }
        case 1: { int v = var(next(), false); pose.push_back(v); tr(F2P3, v, last); break; }
        case 2: { St l = sv(L3, {2. + n, 3. - 1.5 * n, .5 * n}); int v = var(l, false); land.push_back(v); vec(FL3, last, v); break; }
        case 3: if (land.empty()) return false; vec(FL3, pose.size() > 1 ? pose[0] : last, land.back()); break;
        case 4: { double a = .6 + .7 * n; St l = sv(PL, {std::cos(a) * .8, std::sin(a) * .8, .6, 6. + n}); l.v.head(3) /= l.v.head(3).norm(); l.v = rd(l.v); int v = var(l, false); plane.push_back(v); vec(FPL, last, v); break; }
        case 5: if (plane.empty()) return false; vec(FPL, pose.size() > 1 ? pose[0] : last, plane.back()); break;
        case 6: if (pose.size() < 2) return false; tr(F2P3, last, pose[0]); break;
        case 7: vec(FPT, last, -1, vx({1, -2, .5 + n, .3, .2, -.4, .36, .48, .8})); break;
        case 8: tr(F1P3, last, -1); break;
        }
        o.mark.push_back({(int)o.p.x.size(), (int)o.p.f.size()});
        return true;
    }
};
// false when a gadget has nothing to attach to
inline bool grow(bool three, const std::vector<int> &s, const Cfg &c, Grown &out, int salt = 0)
{
    Grower g(c, three, salt);
    g.start();
    for (int x : s) if (!g.gadget(x)) return false;
    g.o.p.name = names(three, s);
    out = g.o;
    return true;
}
// long problems: every primitive word of up to `period` gadgets, repeated until the problem has the given number
// of gadgets
template <class F> inline void longs(bool three, int period, const std::vector<int> &lens, const Cfg &c, F visit)
{
    vk::sequences(three ? N3 : N2, period, [&](const std::vector<int> &w) {
        for (int d = 1; d < (int)w.size(); ++d) if ((int)w.size() % d == 0) {
            bool rep = true;
            for (size_t i = d; i < w.size(); ++i) rep = rep && w[i] == w[i - d];
            if (rep) return true;
        }
        if (!w.empty()) for (int n : lens) {
            std::vector<int> s;
            for (int i = 0; i < n; ++i) s.push_back(w[i % w.size()]);
            Grown g;
            if (!grow(three, s, c, g)) break;
            g.p.name = vk::fmt("%d gadgets, repeating ", n) + names(three, w);
            visit(g);
        }
        return true;
    });
}
// a 2D and a 3D problem in one graph, interleaved
inline Grown join(const Grown &a, const Grown &b)
{
    Grown o = a;
    int n = (int)a.p.x.size();
    for (size_t i = 0; i < b.p.x.size(); ++i) { o.p.x.push_back(b.p.x[i]); o.p.anchor.push_back(b.p.anchor[i]); o.truth.push_back(b.truth[i]); }
    for (auto f : b.p.f) { f.a += n; if (f.b >= 0) f.b += n; o.p.f.push_back(f); }
    o.mark.push_back({(int)o.p.x.size(), (int)o.p.f.size()});
    o.p.name = a.p.name + " with " + b.p.name;
    return o;
}
// node orders: identity, reversed, interleaved from both ends, rotated -- restricted to those in which every
// odometry's origin precedes its target
inline std::vector<std::vector<int>> orders(const Problem &p, bool all = false)
{
    int n = (int)p.x.size();
    std::vector<std::vector<int>> r, out;
    if (all) vk::permutations(n, [&](const std::vector<int> &q) { r.push_back(q); });
    else {
        std::vector<int> id = iota(n), rev(id.rbegin(), id.rend()), il, rot = id;
        for (int i = 0, j = n - 1; i <= j; ++i, --j) { il.push_back(j); if (i < j) il.push_back(i); }
        if (n > 1) std::rotate(rot.begin(), rot.begin() + n / 2, rot.end());
        r = {id, rev, il, rot};
    }
    std::set<std::vector<int>> seen;
    for (auto &q : r) {
        if (!seen.insert(q).second) continue;
        std::vector<int> at(n);
        for (int i = 0; i < n; ++i) at[q[i]] = i;
        bool ok = true;
        for (auto &f : p.f) if (f.k == FOD && at[f.a] > at[f.b]) ok = false;
        if (ok) out.push_back(q);
    }
    return out;
}
inline double scale(const std::vector<St> &x) { double m = 1; for (auto &s : x) m = std::max(m, mag(s)); return m; }
} // namespace prob
