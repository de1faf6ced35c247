// G03: every sequence of group operations over a file of two registers, against extended-precision
// reference values; operands and bystanders must stay bit-identical.
#include "grids.hpp"
#include <mrob/SE3.hpp>
using namespace mrob;
using ref::L;
struct TSE3 {
    typedef SE3 G; typedef ref::M4 R; typedef Mat61 X; typedef Mat4 D;
    static R ex(const X &x) { return ref::exp6(x.cast<L>()); }
    static R inv(const R &r) { return ref::inv4(r); }
    static D val(const G &g) { return g.T(); }
    static double defect(const D &d) { return (double)ref::se3_defect(d.cast<L>()); }
    static double angle(const R &r) { return (double)ref::ln3(r.topLeftCorner<3, 3>()).norm(); }
    static double mag(const R &r) { return 1 + (double)r.topRightCorner<3, 1>().norm(); }
    static std::vector<X> twists() { return {grid::tw(.3, -.4, .2, 1, -2, .5), grid::tw(0, 0, 0, .1, 20, -3), grid::tw(1e-6, 2e-6, -1e-6, 0, 1, 0), grid::tw(3e-8, -2e-8, 1e-8, 4e-8, 0, 5e-8)}; }
    static std::vector<std::pair<X, X>> init() {
        return {{grid::tw(.1, .2, -.3, 1, 2, 3), grid::tw(-1, .5, 2, -1, 0, 4)},
                {grid::tw(grid::PI, 0, 0, 1, 2, 3), grid::tw(0, .2, .1, 0, 5, 0)},
                {grid::tw(0, 0, 0, 0, 0, 0), grid::tw(1.2, -1.1, .4, 1e4, -2e3, 1)},
                {grid::tw(2, 1, -2, 0, 0, 0), grid::tw(1e-6, 0, 1e-6, 3, 1, 2)},
                {grid::tw(.5, .5, .5, 1, 1, 1), grid::tw(.5, .5, .5, 1, 1, 1)}}; }
    static void regen(G &g) { g.regenerate(); }
    static G rebuild(const G &g, int how) { if (how == 0) return SE3(g.R(), g.t()); return SE3(SO3(g.R()), g.t()); }
    static void poke(G &g, const D &d) { g.ref2T() = d; }
    static void setexp(G &g, const G &h) { Mat4 l = h.ln(); g.exp(l); }
    static const char *name() { return "SE3"; }
};
struct TSO3 {
    typedef SO3 G; typedef ref::M3 R; typedef Mat31 X; typedef Mat3 D;
    static R ex(const X &x) { return ref::exp3(x.cast<L>()); }
    static R inv(const R &r) { return r.transpose(); }
    static D val(const G &g) { return g.R(); }
    static double defect(const D &d) { return (double)ref::so3_defect(d.cast<L>()); }
    static double angle(const R &r) { return (double)ref::ln3(r).norm(); }
    static double mag(const R &) { return 1; }
    static std::vector<X> twists() { return {Mat31(.3, -.4, .2), Mat31(0, 2.5, 0), Mat31(1e-6, 2e-6, -1e-6), Mat31(3e-8, -2e-8, 1e-8)}; }
    static std::vector<std::pair<X, X>> init() {
        return {{Mat31(.1, .2, -.3), Mat31(-1, .5, 2)}, {Mat31(grid::PI, 0, 0), Mat31(0, .2, .1)}, {Mat31(0, 0, 0), Mat31(1.2, -1.1, .4)},
                {Mat31(2, 1, -2), Mat31(1e-6, 0, 1e-6)}, {Mat31(.5, .5, .5), Mat31(.5, .5, .5)}}; }
    static void regen(G &g) { Mat3 l = g.ln(); g.exp(l); }
    static G rebuild(const G &g, int how) { if (how == 0) return SO3(g.R()); return SO3(Mat3(g.adj())); }
    static void poke(G &g, const D &d) { g.ref2R() = d; }
    static void setexp(G &g, const G &h) { Mat3 l = h.ln(); g.exp(l); }
    static const char *name() { return "SO3"; }
};
template <class T> struct Model { typename T::R r[2]; double tol[2]; };
struct Op { int k, i, j, m; std::string s; };

template <class T> void run(vk::Ctx &c, int depth, bool reduced)
{
    auto tws = T::twists();
    std::vector<Op> ops;
    for (int i = 0; i < 2; ++i) {
        for (int j = 0; j < 2; ++j) {
            for (int k = 0; k < 2; ++k) {
                ops.push_back({0, i, j, k, vk::fmt("r%d=r%d*r%d", i, j, k)});
                if (!reduced) ops.push_back({1, i, j, k, vk::fmt("r%d=r%d.mul(r%d)", i, j, k)});
            }
            ops.push_back({2, i, j, 0, vk::fmt("r%d=r%d.inv()", i, j)});
            if (!reduced || i != j) ops.push_back({3, i, j, 0, vk::fmt("r%d=r%d", i, j)});
            if (!reduced) ops.push_back({4, i, j, 0, vk::fmt("r%d=copy(r%d)", i, j)});
            if (!reduced) ops.push_back({5, i, j, 0, vk::fmt("r%d=rebuild(r%d)", i, j)});
            if (!reduced) ops.push_back({6, i, j, 1, vk::fmt("r%d=rebuild'(r%d)", i, j)});
            if (!reduced || i == j) ops.push_back({7, i, j, 0, vk::fmt("r%d.exp(r%d.ln())", i, j)});
            if (!reduced) ops.push_back({11, i, j, 0, vk::fmt("r%d.ref()=r%d", i, j)});
        }
        for (int m = 0; m < (reduced ? 2 : (int)tws.size()); ++m) {
            ops.push_back({8, i, i, m, vk::fmt("r%d.update_lhs(x%d)", i, m)});
            ops.push_back({9, i, i, m, vk::fmt("r%d.update_rhs(x%d)", i, m)});
        }
        ops.push_back({10, i, i, 0, vk::fmt("r%d.regenerate()", i)});
    }
    typedef typename T::G G; typedef typename T::D D;
    auto apply_ref = [&](Model<T> s, const Op &o) {
        typename T::R v = s.r[o.j];
        double t = s.tol[o.j];
        auto acc = [&](double base) { return T::angle(v) > grid::PI - 1e-5 ? 2e-6 : base; };
        switch (o.k) {
        case 0: case 1: t = s.tol[o.j] * T::mag(s.r[o.m]) + s.tol[o.m] + 1e-13; v = s.r[o.j] * s.r[o.m]; break;
        case 2: v = T::inv(v); t = t * T::mag(v) + 1e-13; break;
        case 7: t += acc(1e-9); break;
        case 8: v = T::ex(tws[o.m]) * s.r[o.i]; t = t + 1e-12; break;
        case 9: v = s.r[o.i] * T::ex(tws[o.m]); t = t * T::mag(T::ex(tws[o.m])) + 1e-12; break;
        case 10: t += acc(1e-9); break;
        }
        s.r[o.i] = v; s.tol[o.i] = t;
        return s;
    };
    auto apply_impl = [&](G *g, const Op &o) {
        switch (o.k) {
        case 0: g[o.i] = g[o.j] * g[o.m]; break;
        case 1: g[o.i] = g[o.j].mul(g[o.m]); break;
        case 2: g[o.i] = g[o.j].inv(); break;
        case 3: g[o.i] = g[o.j]; break;
        case 4: { G h(g[o.j]); g[o.i] = h; break; }
        case 5: case 6: g[o.i] = T::rebuild(g[o.j], o.m); break;
        case 7: T::setexp(g[o.i], g[o.j]); break;
        case 8: g[o.i].update_lhs(tws[o.m]); break;
        case 9: g[o.i].update_rhs(tws[o.m]); break;
        case 10: T::regen(g[o.i]); break;
        case 11: T::poke(g[o.i], T::val(g[o.j])); break;
        }
    };
    auto inits = T::init();
    for (size_t n = 0; n < inits.size(); ++n) {
        Model<T> m0;
        m0.r[0] = T::ex(inits[n].first); m0.r[1] = T::ex(inits[n].second);
        m0.tol[0] = m0.tol[1] = 1e-13;
        // one case per pair of leading operations; the remaining depth is explored inside
        for (size_t a = 0; a < ops.size(); ++a) for (size_t b = 0; b < ops.size(); ++b)
            c.each([&] { return std::string(T::name()) + vk::fmt(" init %zu: ", n) + ops[a].s + "; " + ops[b].s + "; ...depth " + std::to_string(depth); }, [&] {
                std::vector<int> seq;
                auto visit = [&](const Model<T> &before, const Model<T> &after) {
                    G g[2] = {G(inits[n].first), G(inits[n].second)};
                    for (size_t i = 0; i + 1 < seq.size(); ++i) apply_impl(g, ops[seq[i]]);
                    const Op &o = ops[seq.back()];
                    D prev[2] = {T::val(g[0]), T::val(g[1])};
                    apply_impl(g, o);
                    ++c.transitions; ++c.traces;
                    auto desc = [&] { std::string s; for (int q : seq) s += ops[q].s + "; "; return s; };
                    for (int i = 0; i < 2; ++i) {
                        D v = T::val(g[i]);
                        ++c.evals;
                        if (i != o.i && memcmp(v.data(), prev[i].data(), sizeof(double) * v.size()) != 0)
                            VK_FAIL("after %s register %d changed although it was not the target", desc().c_str(), i);
                        double e = ref::dist(v, after.r[i]), tol = 50 * after.tol[i] * T::mag(after.r[i]);
                        if (!(e <= tol)) VK_FAIL("after %s register %d = %s, expected %s (error %.3g, tolerance %.3g)", desc().c_str(), i, ref::s(v).c_str(), ref::s(after.r[i]).c_str(), e, tol);
                        double d = T::defect(v);
                        if (!(d <= 1e-10)) VK_FAIL("after %s register %d is not a valid element (%.3g)", desc().c_str(), i, d);
                    }
                    c.state(vk::Hash().i(n).s(T::name()).m(after.r[0]).m(after.r[1]).h);
                    (void)before;
                };
                Model<T> m1 = apply_ref(m0, ops[a]);
                seq = {(int)a};
                if (b == 0) visit(m0, m1);
                Model<T> m2 = apply_ref(m1, ops[b]);
                seq = {(int)a, (int)b};
                visit(m1, m2);
                std::function<void(const Model<T> &)> rec = [&](const Model<T> &m) {
                    if ((int)seq.size() >= depth) return;
                    for (size_t q = 0; q < ops.size(); ++q) {
                        Model<T> mm = apply_ref(m, ops[q]);
                        seq.push_back(q);
                        visit(m, mm);
                        rec(mm);
                        seq.pop_back();
                    }
                };
                rec(m2);
            });
    }
}
int main(int argc, char **argv)
{
    vk::Ctx c("G03", argc, argv);
    run<TSE3>(c, 3, false);
    run<TSO3>(c, 3, false);
    run<TSE3>(c, c.thorough ? 5 : 4, true);
    run<TSO3>(c, c.thorough ? 5 : 4, true);
    // long chains: accumulated rounding stays bounded over one thousand mixed updates
    for (auto &x : TSE3::twists())
        c.each([&] { return "1000 alternating updates with x = " + ref::s(x); }, [&] {
            SE3 g; ref::M4 r = ref::M4::Identity();
            ref::M4 e = ref::exp6(x.cast<L>());
            for (int i = 0; i < 1000; ++i) {
                if (i % 3) { g.update_lhs(x); r = e * r; } else { g.update_rhs(x); r = r * e; }
                ++c.transitions;
                c.near("chain", ref::dist(g.T(), r), 1e-10 * TSE3::mag(r) * (i + 1));
            }
        });
    // regenerating an element that has drifted off the group: the result is valid and near it
    {
        std::vector<Mat61> xs;
        for (auto &d : grid::directions(1)) for (double o : {0., 1e-7, 1e-5, 3e-4, 2e-3, .05, .7, 1.5, 1.6, 2.2, 2.9}) { Mat61 x; x << d * o, Mat31(1, -2, .5) * (o == .05 ? 100. : o < 1e-3 ? 1e-4 : 1.); xs.push_back(x); }
        for (auto &x : xs) c.each([&] { return "regenerate after drifting from " + ref::s(x); }, [&] {
            const ref::M4 R = ref::exp6(x.cast<L>());
            for (double e : {1e-7, -1e-7, 1e-9, 1e-12}) for (int i = 0; i < 12; ++i) {
                Mat4 M = R.cast<double>();
                if (i < 9) M(i / 3, i % 3) += e;
                else if (i == 9) M.topLeftCorner<3, 3>() *= 1 + e;
                else if (i == 10) M.row(1).head<3>() *= 1 - e;
                else M.col(2).head<3>() += e * M.col(0).head<3>();
                SE3 g;
                g.ref2T() = M;
                g.regenerate();
                ++c.transitions;
                c.near("regenerated element is valid", (double)ref::se3_defect(g.T().cast<L>()), 1e-13);
                c.near("regenerated element is near the drifted one", ref::dist(g.T(), R), (100 * std::fabs(e) + 1e-11) * (1 + (double)x.tail<3>().norm()));
            }
            ++c.traces;
        });
    }
    // chains of products with small motions: by the operator, by mul, from either side, inverted, and by updates
    for (double rot : {0., 5e-9, 4e-10, 3e-11, 2e-7}) for (double tr : {0., 6e-9, 5e-10, 1e-3}) for (int how = 0; how < 7; ++how) {
        if (rot == 0 && tr == 0) continue;
        c.each([=] { return vk::fmt("3000 products with a motion of %g radians and %g length, way %d", rot, tr, how); }, [&] {
            Mat61 x = grid::tw(rot, -.3 * rot, .2 * rot, -.5 * tr, tr, .1 * tr);
            SE3 d(x), g(grid::tw(.3, -.4, 1.1, 0, 0, 0));
            SO3 q(d.R()), h(g.R());
            ref::M4 e = d.T().cast<L>(), r = g.T().cast<L>(), ei = ref::inv4(e), r0 = r;
            for (int i = 0; i < 3000; ++i) {
                switch (how) {
                case 0: g = g * d; h = h * q; r = r * e; break;
                case 1: g = d * g; h = q * h; r = e * r; break;
                case 2: g = g.mul(d); h = h.mul(q); r = r * e; break;
                case 3: g = d.mul(g); h = q.mul(h); r = e * r; break;
                case 4: g = g * d.inv(); h = h * q.inv(); r = r * ei; break;
                case 5: g.update_lhs(x); h.update_lhs(x.head<3>()); r = e * r; break;
                case 6: g.update_rhs(x); h.update_rhs(x.head<3>()); r = r * e; break;
                }
                ++c.transitions;
                double tol = 3e-15 * (i + 4);
                if (how == 5 || how == 6) tol += 1e-12 * rot * (i + 4) + 2e-8 * rot * tr * (i + 1); // the exponential of a small twist
                c.near("chain of small motions", ref::dist(g.T(), r), tol * (1 + (double)r.topRightCorner<3, 1>().norm()));
                c.near("chain of small rotations", ref::dist(h.R(), r.topLeftCorner<3, 3>()), tol);
            }
            ++c.traces;
            (void)r0;
        });
    }
    return c.finish();
}
