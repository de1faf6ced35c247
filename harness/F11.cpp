// F11: every short sequence of queries in every gap of every short sequence of operations.
#include "problems.hpp"
using namespace fg; using namespace prob;
typedef std::vector<double> R;
static void put(R &r, const MatX &m) { r.push_back(m.rows()); r.push_back(m.cols()); for (int i = 0; i < m.size(); ++i) r.push_back(m.data()[i]); }
struct Base { Grown g; std::vector<PN> n; std::vector<PF> f; int iv = 0, jf = 0, m = 0; };
struct Sparse : Base {
    FGraphSolve gr;
    bool built = false;
    R state() { R r; for (auto &x : n) { put(r, x->get_state()); } return r; }
    static int nops() { return 6; }
    static const char *opname(int o) { static const char *s[] = {"gauss-newton", "levenberg-marquardt", "set a state", "grow", "update a node", "set the state of an anchor"}; return s[o]; }
    void op(int o)
    {
        switch (o) {
        case 0: gr.solve(FGraphSolve::GN); built = true; break;
        case 1: gr.solve(FGraphSolve::LM, 2, 1e-2, 1e-9); built = true; break;
        default: common(o, gr); }
    }
    template <class G> void common(int o, G &gr)
    {
        switch (o) {
        case 2: { int v = 0; while (v + 1 < (int)n.size() && g.p.anchor[v]) ++v; St s = g.p.x[v]; load(s, n[v]->get_state()); VX e(vdim(s.k)); for (int i = 0; i < e.size(); ++i) e(i) = .1 * rnd(v + m, i); n[v]->set_state(val(fg::update(s, e))); break; }
        case 3: grow_one(gr); break;
        case 4: { MatX1 e(n.back()->get_dim()); for (int i = 0; i < e.size(); ++i) e(i) = .05 * rnd(m, i + 3); n.back()->update(e); break; }
        case 5: for (size_t v = 0; v < n.size(); ++v) if (g.p.anchor[v]) { St s = g.p.x[v]; load(s, n[v]->get_state()); VX e(vdim(s.k)); for (int i = 0; i < e.size(); ++i) e(i) = .2 * rnd((int)v + m, i + 9); n[v]->set_state(val(fg::update(s, e))); }
            break;
        }
    }
    template <class G> void grow_one(G &gr)
    {
        if (m >= (int)g.mark.size()) return;
        for (; iv < g.mark[m].first; ++iv) { n.push_back(mknode(g.p.x[iv], g.p.anchor[iv] ? Node::ANCHOR : Node::STANDARD)); gr.add_node(n.back()); }
        for (; jf < g.mark[m].second; ++jf) { f.push_back(mkfactor(g.p.f[jf], n[g.p.f[jf].a], g.p.f[jf].b >= 0 ? n[g.p.f[jf].b] : PN())); gr.add_factor(f.back()); }
        ++m;
    }
    static int nq() { return 16; }
    static const char *qname(int q)
    {
        static const char *s[] = {"chi2(true)", "chi2(false)", "get_chi2_array", "get_estimated_state and write to it", "get_information_matrix and write to it", "get_adjacency_matrix and write to it", "get_W_matrix and write to it", "get_vector_b and write to it",
            "numbers and dimensions", "get_node of all", "get_factor of all", "print", "print complete", "node lists and states", "factor residuals and jacobians", "print every element"};
        return s[q];
    }
    static bool volatile_(int q) { return q == 1 || q == 2 || q == 14; } // reports the last evaluation
    R query(int q)
    {
        R r;
        switch (q) {
        case 0: r.push_back(gr.chi2(true)); break;
        case 1: r.push_back(gr.chi2(false)); break;
        case 2: { MatX1 a = gr.get_chi2_array(); put(r, a); a.setConstant(7); break; }
        case 3: { auto s = gr.get_estimated_state(); if (s.size() != n.size()) VK_FAIL("get_estimated_state returns %zu states for %zu nodes", s.size(), n.size()); for (size_t i = 0; i < s.size(); ++i) { MatX now = n[i]->get_state(); if (now.size() != s[i].size() || std::memcmp(now.data(), s[i].data(), now.size() * sizeof(double))) VK_FAIL("get_estimated_state does not return the state of node %zu", i); } for (auto &m : s) { put(r, m); m.setConstant(5); } break; }
        case 4: { auto s = gr.get_information_matrix(); if (built) put(r, MatX(s)); s *= 3; break; }
        case 5: { auto s = gr.get_adjacency_matrix(); if (built) put(r, MatX(s)); s *= 3; break; }
        case 6: { auto s = gr.get_W_matrix(); if (built) put(r, MatX(s)); s *= 3; break; }
        case 7: { auto s = gr.get_vector_b(); if (built) put(r, s); s *= 3; break; }
        default: r = generic(gr, q); }
        return r;
    }
    template <class G> R generic(G &gr, int q)
    {
        R r;
        switch (q) {
        case 8: r = {(double)gr.number_nodes(), (double)gr.number_factors(), (double)gr.get_dimension_state(), (double)gr.get_dimension_obs()}; break;
        case 9: for (size_t i = 0; i < n.size(); ++i) { auto x = gr.get_node(i); r.push_back(x == n[i]); put(r, x->get_state()); } break;
        case 10: for (size_t i = 0; i < f.size(); ++i) { auto x = gr.get_factor(i); r.push_back(x == f[i]); if (g.p.f[i].k != FPT) put(r, x->get_obs()); put(r, x->get_information_matrix()); } break;
        case 11: gr.print(); break;
        case 12: gr.print(true); break;
        case 13: for (auto &x : n) { r.push_back(x->get_neighbour_factors()->size()); r.push_back(x->get_id()); r.push_back(x->get_dim()); put(r, x->get_state()); MatX s = x->get_state(); s.setZero(); } break;
        case 14: for (auto &x : f) { r.push_back(x->get_id()); r.push_back(x->get_chi2()); } break;
        case 15: for (auto &x : n) x->print(); for (auto &x : f) x->print(); break;
        }
        return r;
    }
};
struct Dense : Sparse {
    FGraphSolveDense gd;
    static const char *opname(int o) { static const char *s[] = {"newton-raphson", "elliptic levenberg-marquardt", "set a state", "grow", "update a node", "set the state of an anchor"}; return s[o]; }
    void op(int o)
    {
        switch (o) {
        case 0: gd.Optimizer::solve(Optimizer::NEWTON_RAPHSON, 1); break;
        case 1: gd.Optimizer::solve(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 2, 1e-2); break;
        default: common(o, gd); }
    }
    void grow_first() { grow_one(gd); }
    R query(int q)
    {
        if (q >= 8) return generic(gd, q);
        R r;
        if (q == 0) r.push_back(gd.calculate_error());
        return r;
    }
};
inline void first(Sparse &s) { s.grow_one(s.gr); }
inline void first(Dense &s) { s.grow_one(s.gd); }
static bool same(const R &a, const R &b) { return a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0; }
template <class W> static void explore(vk::Ctx &c, const Grown &g, const std::vector<int> &ops, const char *cls, const std::string &what)
{
    const int len = (int)ops.size(), NQ = W::nq();
    auto fresh = [&] { std::unique_ptr<W> w(new W); w->g = g; first(*w); first(*w); return w; };
    // reference results: states after every prefix, and every single query after every prefix (fresh runs)
    auto prepare = [&](std::vector<R> &st, std::vector<std::vector<R>> &qr) {
        for (int k = 0; k <= len; ++k) {
            std::vector<R> row;
            for (int q = 0; q < NQ; ++q) {
                auto w = fresh();
                for (int i = 0; i < k; ++i) w->op(ops[i]);
                if (q == 0) {
                    st.push_back(w->state());
                    std::vector<St> x(g.p.x.begin(), g.p.x.begin() + w->n.size());
                    for (size_t v = 0; v < x.size(); ++v) load(x[v], w->n[v]->get_state());
                    L t = 0;
                    for (size_t i = 0; i < w->f.size(); ++i) t += chi2(g.p.f[i], x[g.p.f[i].a], x[g.p.f[i].b >= 0 ? g.p.f[i].b : g.p.f[i].a]);
                    R r = w->query(0);
                    if (std::isfinite((double)t) && t < 1e6) c.near("re-evaluated chi2 is the sum at the current states", std::fabs(r[0] - (double)t), 1e-7 * (1 + (double)t));
                    row.push_back(r);
                } else row.push_back(w->query(q));
            }
            qr.push_back(row);
        }
    };
    auto check = [&](const std::vector<R> &st, const std::vector<std::vector<R>> &qr, const std::vector<std::vector<int>> &gaps) {
        auto w = fresh();
        auto desc = [&](int k, size_t j) { std::string s; for (int i = 0; i <= k; ++i) { if (i) s += std::string(W::opname(ops[i - 1])) + "; "; for (size_t x = 0; x < gaps[i].size() && (i < k || x <= j); ++x) s += "[" + std::string(W::qname(gaps[i][x])) + "]; "; } return s; };
        for (int k = 0; k <= len; ++k) {
            if (k) w->op(ops[k - 1]);
            if (!same(w->state(), st[k])) VK_FAIL("%s: states differ from the run without queries", desc(k, 99).c_str());
            bool eval = false;
            for (size_t j = 0; j < gaps[k].size(); ++j) {
                int q = gaps[k][j];
                ++c.transitions;
                R r = w->query(q);
                ++c.evals;
                // cached errors are those of the last evaluation: comparable as long as none was asked for since
                bool cmp = !W::volatile_(q) || !eval;
                if (W::volatile_(q)) {
                    bool evaluated_before = false; // an evaluation asked for in an earlier gap may legitimately differ
                    for (int i = 0; i < k; ++i) for (int x : gaps[i]) if (x == 0) evaluated_before = true;
                    if (evaluated_before) cmp = k > 0 && ops[k - 1] <= 1; // a solve evaluates anew
                    if (eval) {
                        cmp = false;
                        if (q == 1 && !r.empty() && !same(r, qr[k][0])) VK_FAIL("%s: cached chi2 differs from the one just evaluated", desc(k, j).c_str());
                    }
                }
                if (cmp && !same(r, qr[k][q])) VK_FAIL("%s: the result differs from a run without other queries", desc(k, j).c_str());
                if (q == 0) eval = true;
            }
            if (!same(w->state(), st[k])) VK_FAIL("%s: queries changed a state", desc(k, 99).c_str());
        }
        ++c.traces;
    };
    c.each([&] { std::string s = std::string(cls) + ": " + what + "; "; for (int o : ops) s += std::string(W::opname(o)) + "; "; return s + "all query sequences"; }, [&] {
        c.slow(4);
        std::vector<R> st; std::vector<std::vector<R>> qr;
        prepare(st, qr);
        for (auto &r : st) { vk::Hash h; for (double d : r) h.d(d); c.state(h.h); }
        std::vector<std::vector<int>> none(len + 1);
        check(st, qr, none);
        for (int k = 0; k <= len; ++k) vk::sequences(NQ, c.thorough && len <= 2 ? 3 : 2, [&](const std::vector<int> &s) {
            if (s.empty()) return true;
            auto gaps = none;
            gaps[k] = s;
            check(st, qr, gaps);
            return true;
        });
        // one query in every gap
        if (len) vk::sequences(NQ, std::min(len + 1, c.thorough && len <= 2 ? 3 : 2), [&](const std::vector<int> &s) {
            auto gaps = none;
            for (int k = 0; k <= len; ++k) if (!s.empty()) gaps[k].push_back(s[k % s.size()]);
            check(st, qr, gaps);
            return true;
        });
    });
}
int main(int argc, char **argv)
{
    vk::Ctx c("F11", argc, argv);
    const int D = c.thorough ? 4 : 3;
    std::vector<std::pair<bool, std::vector<int>>> ps = {{false, {0, 3, 1}}, {false, {2, 7, 4, 5}}, {true, {0, 4, 5}}, {true, {1, 2, 7}}, {true, {4, 8, 0}}};
    std::vector<Cfg> cfgs(2);
    cfgs[0].noise = .2; cfgs[0].init = .3; cfgs[0].info = 5; cfgs[0].robust = 5;
    cfgs[1].noise = .1; cfgs[1].init = .2; cfgs[1].anchors = 1; cfgs[1].info = 2;
    for (auto &p : ps) for (auto &k : cfgs) {
        Grown g;
        if (!grow(p.first, p.second, k, g)) continue;
        vk::sequences(Sparse::nops(), D, [&](const std::vector<int> &ops) {
            // without anchors there is nothing to set
            if (!ops.empty() && ops.back() == 5 && std::find(g.p.anchor.begin(), g.p.anchor.end(), true) == g.p.anchor.end()) return false;
            if (c.thorough && ops.size() == 4 && &k != &cfgs[0]) return false;
            explore<Sparse>(c, g, ops, "sparse", g.p.name + "; " + k.str());
            explore<Dense>(c, g, ops, "dense", g.p.name + "; " + k.str());
            return c.mine();
        });
    }
    // a larger graph, one operation
    for (int three = 0; three < 2; ++three) {
        Grown g;
        std::vector<int> w;
        for (int i = 0; i < 14; ++i) w.push_back(three ? std::vector<int>{0, 2, 4, 3, 5, 1, 7}[i % 7] : std::vector<int>{0, 3, 1, 4, 2, 5, 7}[i % 7]);
        grow(three, w, cfgs[three], g);
        int k0 = (int)g.mark.size() - 3; // the last gadgets are left for the operation that grows the graph
        g.mark.erase(g.mark.begin(), g.mark.begin() + k0);
        vk::sequences(Sparse::nops(), c.thorough ? 2 : 1, [&](const std::vector<int> &ops) {
            explore<Sparse>(c, g, ops, "sparse", g.p.name);
            explore<Dense>(c, g, ops, "dense", g.p.name);
            return c.mine();
        });
    }
    return c.finish();
}
