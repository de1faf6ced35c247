// F03: all sequences of initialising factors over a few nodes, every id order.
#include "fg.hpp"
using namespace fg;
struct Op { Fac f; bool init; };
// the state the observation predicts for the target
static St predicted(const Fac &f, const St &A, St want)
{
    switch (f.k) {
    case F2P2: {
        L cc = std::cos(A.v(2)), ss = std::sin(A.v(2));
        want.v << A.v(0) + cc * f.z(0) - ss * f.z(1), A.v(1) + ss * f.z(0) + cc * f.z(1), ref::wrap(A.v(2) + f.z(2));
        break; }
    case FOD: {
        L h = A.v(2) + f.z(0);
        want.v << A.v(0) + f.z(1) * std::cos(h), A.v(1) + f.z(1) * std::sin(h), ref::wrap(h + f.z(2));
        break; }
    case FL2: {
        L h = A.v(2) + f.z(1);
        want.v << A.v(0) + f.z(0) * std::cos(h), A.v(1) + f.z(0) * std::sin(h);
        break; }
    case F2P3: want.T = A.T * f.Tz; break;
    }
    return want;
}
static void explore(vk::Ctx &c, const char *name, const std::vector<std::vector<St>> &inits, const std::vector<Op> &ops, int depth)
{
    int nv = inits[0].size();
    vk::permutations(nv, [&](const std::vector<int> &np) {
        // the target is nearly where it belongs already
        for (size_t in = 0; in < inits.size(); ++in) for (size_t q = 0; q < ops.size(); ++q) if (ops[q].init)
            c.each([&] { return vk::fmt("%s insertion order %s initial %zu, factor %zu, target nearly initialised", name, vk::str(np).c_str(), in, q); }, [&] {
                const Fac &f = ops[q].f;
                std::vector<int> vid(nv);
                for (int i = 0; i < nv; ++i) vid[np[i]] = i;
                if (f.k == FOD && vid[f.a] > vid[f.b]) return;
                for (double d : {1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2, .1}) for (int i = 0; i < vdim(inits[in][f.b].k); ++i) for (double sg : {1., -1.}) {
                    std::vector<St> x = inits[in];
                    St want = predicted(f, x[f.a], x[f.b]);
                    VX e = VX::Zero(vdim(want.k)); e(i) = sg * d;
                    x[f.b] = update(want, e);
                    FGraphSolve g;
                    std::vector<PN> n(nv);
                    for (int v : np) { n[v] = mknode(x[v]); g.add_node(n[v]); }
                    PF pf = mkfactor(f, n[f.a], n[f.b], true);
                    ++c.transitions; ++c.traces;
                    c.near("target takes the predicted value", sdist(want, n[f.b]->get_state()), 2e-14 * (mag(x[f.a]) + mag(want)) * (want.k == P3 ? 10 : 1));
                }
            });
        for (size_t in = 0; in < inits.size(); ++in) for (size_t first = 0; first < ops.size(); ++first)
            c.each([&] { return vk::fmt("%s insertion order %s initial %zu, first factor %zu, sequences of length %d", name, vk::str(np).c_str(), in, first, depth); }, [&] {
                std::vector<int> vid(nv);
                for (int i = 0; i < nv; ++i) vid[np[i]] = i;
                auto legal = [&](const Op &o) { return o.f.k != FOD || vid[o.f.a] < vid[o.f.b]; };
                std::vector<int> seq = {(int)first};
                std::function<void()> rec = [&]() {
                    if (!legal(ops[seq.back()])) return;
                    // replay the sequence on a fresh graph, with the model in step
                    std::vector<St> x = inits[in];
                    FGraphSolve g;
                    std::vector<PN> n(nv);
                    for (int v : np) { n[v] = mknode(x[v]); g.add_node(n[v]); }
                    for (size_t q = 0; q < seq.size(); ++q) {
                        const Op &o = ops[seq[q]];
                        std::vector<MatX> before, aux;
                        for (int v = 0; v < nv; ++v) before.push_back(n[v]->get_state());
                        PF pf = mkfactor(o.f, n[o.f.a], n[o.f.b], o.init);
                        if (q % 2 == 0) g.add_factor(pf);
                        if (q + 1 == seq.size()) { ++c.transitions; ++c.traces; }
                        const St &A = x[o.f.a];
                        St want = o.init ? predicted(o.f, A, x[o.f.b]) : x[o.f.b];
                        for (int v = 0; v < nv; ++v) {
                            MatX now = n[v]->get_state();
                            if (v == o.f.b && o.init) {
                                double e = sdist(want, now);
                                c.near("target takes the predicted value", e, 1e-11 * (mag(A) + mag(want)));
                                if (want.k == P2) c.req(now(2, 0) >= -grid::PI && now(2, 0) < grid::PI, "heading of the target is wrapped");
                            } else c.req(now.rows() == before[v].rows() && now.cols() == before[v].cols() && (now.array() == before[v].array()).all(), "every other node keeps its state");
                        }
                        if (o.init) load(x[o.f.b], n[o.f.b]->get_state());
                        if (o.init && !(o.f.k == FL2 && o.f.z(0) < 2e-3L)) { // no bearing is defined at a distance of zero
                            pf->evaluate_residuals();
                            VX r = pf->get_residual().cast<L>();
                            double m = 0;
                            for (int i = 0; i < r.size(); ++i) m = std::max(m, (double)std::fabs(isangle(o.f.k, i) ? ref::wrap(r(i)) : r(i)));
                            c.near("residual of an initialising factor is zero", std::isnan(r.sum()) ? INFINITY : m, 1e-9 * (mag(A) + mag(want)));
                            pf->evaluate_chi2();
                            c.near("chi2 of an initialising factor is zero", pf->get_chi2(), 1e-15 * (mag(A) + mag(want)) * (mag(A) + mag(want)) * 1000);
                        }
                    }
                    vk::Hash h;
                    for (auto &s : x) h.m(val(s));
                    c.state(h.h);
                    if ((int)seq.size() < depth) for (size_t q = 0; q < ops.size(); ++q) { seq.push_back(q); rec(); seq.pop_back(); }
                };
                rec();
            });
    });
}
int main(int argc, char **argv)
{
    vk::Ctx c("F03", argc, argv);
    int d = c.thorough ? 3 : 2;
    {
        std::vector<std::vector<St>> in = {
            {sv(P2, {0, 0, 0}), sv(P2, {5, 5, 1}), sv(P2, {-1, 2, 3}), sv(L2, {9, 9})},
            {sv(P2, {1, -2, 2.5}), sv(P2, {0, 0, -3}), sv(P2, {10, 20, -1}), sv(L2, {0, 0})},
            {sv(P2, {-1, 1, -1.5707963267948966}), sv(P2, {100, 50, .7}), sv(P2, {0, 0, 0}), sv(L2, {-5, 1})}};
        std::vector<VX> z = {vx({1, -.5, .4}), vx({-2, 3, 3}), vx({0, 0, 0}), vx({1e-4, 2e-3, -1e-5})}, zo = {vx({.3, 1, -.2}), vx({2, 1.5, 2}), vx({0, 0, 0}), vx({2, 0, -2}), vx({.1, 3e-3, 1e-4})}, zl = {vx({2, .4}), vx({3, -2.5}), vx({5e-3, .2}), vx({0, 1}), vx({4e3, 9})};
        std::vector<Op> ops;
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) {
            for (auto &q : z) ops.push_back({mkf(F2P2, a, b, q, spd(3, 0)), true});
            for (auto &q : zo) ops.push_back({mkf(FOD, a, b, q, spd(3, 1)), true});
        }
        for (int a = 0; a < 3; ++a) { for (auto &q : zl) ops.push_back({mkf(FL2, a, 3, q, spd(2, 2)), true}); ops.push_back({mkf(FL2, a, 3, zl[0], spd(2, 0)), false}); }
        ops.push_back({mkf(F2P2, 0, 1, z[0], spd(3, 2)), false});
        ops.push_back({mkf(F2P2, 2, 0, z[1], spd(3, 0)), false});
        ops.push_back({mkf(FOD, 0, 2, zo[0], spd(3, 0)), false});
        explore(c, "2D", in, ops, d);
        // longer sequences over fewer factors
        if (c.thorough) {
            std::vector<Op> few;
            for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) { few.push_back({mkf(F2P2, a, b, z[0], spd(3, 0)), true}); few.push_back({mkf(FOD, a, b, zo[1], spd(3, 1)), true}); }
            for (int a = 0; a < 3; ++a) few.push_back({mkf(FL2, a, 3, zl[1], spd(2, 2)), true});
            few.push_back({mkf(F2P2, 2, 1, z[1], spd(3, 2)), false});
            explore(c, "2D, few", {in[1]}, few, 4);
        }
    }
    {
        std::vector<std::vector<St>> in = {
            {sT(grid::tw(0, 0, 0, 0, 0, 0)), sT(grid::tw(.1, .2, .3, 4, 5, 6)), sT(grid::tw(1, 0, 0, 0, 0, 2))},
            {sT(grid::tw(1, -2, .5, 3, -1, 2)), sT(grid::tw(0, 0, 3.1, 1, 0, 0)), sT(grid::tw(0, 0, 0, 100, 0, -50))}};
        std::vector<Mat61> z = {grid::tw(.2, .1, -.3, 1, -1, .5), grid::tw(-1.5, 1, 1, 0, 3, -2), grid::tw(0, 0, 3.14, 1, 0, 0), grid::tw(1e-7, -2e-7, 0, 1e-5, 0, 1e-6), grid::tw(0, 0, grid::PI - 1e-7, 100, 200, 300), grid::tw(-.6 * (grid::PI - 3e-9), .8 * (grid::PI - 3e-9), 0, -2e3, 1, 5e3)};
        std::vector<Op> ops;
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) {
            for (auto &q : z) ops.push_back({mkT(F2P3, a, b, q, spd(6, 0)), true});
            ops.push_back({mkT(F2P3, a, b, z[0], spd(6, 2)), false});
            for (auto &q : {z[0], z[2]}) { Op o = {mkT(F2P3, a, b, q, spd(6, 0)), true}; o.f.alt = true; ops.push_back(o); }
        }
        explore(c, "3D", in, ops, d);
    }
    return c.finish();
}
