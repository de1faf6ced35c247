// F14: construction/solving/destruction histories under address and undefined-behaviour sanitizers, with exact
// accounting of the allocated bytes and of every element's lifetime.
#include "problems.hpp"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t bytes() { return mallinfo2().uordblks; }
#endif
using namespace fg; using namespace prob;
struct Sp : FGraphSolve {
    double err() { return chi2(true); }
    void act(int a)
    {
        switch (a) {
        case 1: solve(FGraphSolve::GN); break;
        case 2: solve(FGraphSolve::LM, 3, 1e-2, 1e-9); break;
        case 3: { chi2(true); auto s = get_estimated_state(); get_chi2_array(); MatX(get_information_matrix()); MatX(get_adjacency_matrix()); MatX(get_W_matrix()); get_vector_b(); print(true); break; }
        case 4: solve(FGraphSolve::GN); solve(FGraphSolve::LM, 2, 1); solve(FGraphSolve::GN); break;
        }
    }
};
struct De : FGraphSolveDense {
    double err() { return calculate_error(); }
    void act(int a)
    {
        switch (a) {
        case 1: Optimizer::solve(NEWTON_RAPHSON, 2); break;
        case 2: Optimizer::solve(LEVENBERG_MARQUARDT_SPHER, 3, 1e-2); break;
        case 3: calculate_error(); print(true); break;
        case 4: Optimizer::solve(LEVENBERG_MARQUARDT_ELLIP, 2, 1e-2); calculate_gradient_hessian(); Optimizer::solve(LEVENBERG_MARQUARDT_SPHER, 2, 1); break;
        }
    }
};
static const char *actname(int a) { static const char *n[] = {"nothing", "newton step", "damped solve", "queries and print", "several solves"}; return n[a]; }
// hold: bit 0 nodes, bit 1 factors, bit 2: only the last of each; bit 3: destroy the graph before the handles; bit 4: re-add elements; bit 5: detach the first factor
template <class G> static uint64_t history(vk::Ctx &c, const Grown &g, const std::vector<int> &np, const std::vector<int> &acts, int hold)
{
    std::vector<std::weak_ptr<Node>> wn; std::vector<std::weak_ptr<Factor>> wf;
    std::vector<PN> kn; std::vector<PF> kf;
    uint64_t h;
    {
        std::unique_ptr<G> gr(new G());
        std::vector<PN> n(g.p.x.size()); std::vector<PF> f;
        size_t step = 0;
        auto growth = [&](int upn, int upf) {
            for (; (int)f.size() < upf;) {
                const Fac &ff = g.p.f[f.size()];
                f.push_back(mkfactor(ff, n[ff.a], ff.b >= 0 ? n[ff.b] : PN()));
                gr->add_factor(f.back());
                if (hold & 16) { gr->add_factor(f.back()); gr->add_factor(f[0]); }
            }
        };
        auto node = [&](int v) { n[v] = mknode(g.p.x[v], g.p.anchor[v] ? Node::ANCHOR : Node::STANDARD); gr->add_node(n[v]); if (hold & 16) gr->add_node(n[v]); };
        bool inorder = std::is_sorted(np.begin(), np.end());
        if (inorder) {
            int iv = 0;
            for (auto &m : g.mark) {
                for (; iv < m.first; ++iv) node(iv);
                growth(m.first, m.second);
                if (step < acts.size() && gr->get_dimension_state() > 0 && gr->get_dimension_obs() > 0) { gr->act(acts[step]); }
                ++step;
            }
        } else {
            for (int v : np) node(v);
            growth((int)g.p.x.size(), (int)g.p.f.size());
            for (int a : acts) if (gr->get_dimension_state() > 0 && gr->get_dimension_obs() > 0) gr->act(a);
        }
        if ((hold & 32) && !f.empty()) { for (auto &q : *f[0]->get_neighbour_nodes()) { PN x = q; x->rm_factor(f[0]); } }
        for (auto &x : n) wn.push_back(x);
        for (auto &x : f) wf.push_back(x);
        std::vector<MatX> last;
        for (auto &x : n) last.push_back(x->get_state());
        double e = f.empty() ? 0 : gr->err();
        if (hold & 1) kn = n;
        if (hold & 2) kf = f;
        if (hold & 4) { if (!kn.empty()) kn = {n.back()}; if (!kf.empty()) kf = {f.back()}; }
        if (hold & 8) gr.reset();
        else { n.clear(); f.clear(); for (auto &w : wn) c.req(!w.expired(), "elements live as long as the graph"); for (auto &w : wf) c.req(!w.expired(), "elements live as long as the graph"); gr.reset(); }
        n.clear(); f.clear();
        vk::Hash hh;
        hh.d(e).i(hold);
        // what nobody holds is gone, what is held (directly, or by a held factor) is alive and usable
        std::set<Factor *> heldf; std::set<Node *> heldn;
        for (auto &x : kf) { heldf.insert(x.get()); for (auto &y : *x->get_neighbour_nodes()) heldn.insert(y.get()); }
        for (auto &x : kn) heldn.insert(x.get());
        for (size_t i = 0; i < wn.size(); ++i) {
            PN x = wn[i].lock();
            c.req(x ? heldn.count(x.get()) == 1 : true, "a node outlives the graph without a holder");
            if (x) {
                MatX s = x->get_state();
                c.req(s.rows() == last[i].rows() && s.cols() == last[i].cols() && std::memcmp(s.data(), last[i].data(), s.size() * sizeof(double)) == 0, "a surviving node keeps its last state");
                hh.m(s);
            }
        }
        size_t alive = 0;
        for (auto &w : wn) alive += !w.expired();
        c.req(alive == heldn.size(), "every held node survives");
        alive = 0;
        for (auto &w : wf) { PF x = w.lock(); if (x) { ++alive; c.req(heldf.count(x.get()) == 1, "a factor outlives the graph without a holder"); } }
        c.req(alive == heldf.size(), "every held factor survives");
        for (auto &x : kf) { x->evaluate_residuals(); x->evaluate_jacobians(); x->evaluate_chi2(); MatX r = x->get_residual(), J = x->get_jacobian(); hh.d(x->get_chi2()); x->print(); }
        for (auto &x : kn) { MatX1 d = MatX1::Constant(x->get_dim(), .01); x->update(d); x->print(); hh.m(MatX(x->get_state())); }
        // survivors can be used in a new graph
        if (!kn.empty()) { G g2; PN x = kn.back(); g2.add_node(x); c.req(g2.get_node(x->get_id()) == x, "a survivor can join another graph"); }
        // all survivors together make a graph that works like one made of new elements in the same states
        if (kn.size() == g.p.x.size() && !kn.empty() && !g.p.f.empty()) {
            G g2, g3;
            std::vector<PN> n3(kn.size());
            for (int v : np) {
                St s = g.p.x[v];
                load(s, kn[v]->get_state());
                n3[v] = mknode(s, g.p.anchor[v] ? Node::ANCHOR : Node::STANDARD);
                g2.add_node(kn[v]); g3.add_node(n3[v]);
                c.req(kn[v]->get_neighbour_factors()->empty() && kn[v]->get_id() == n3[v]->get_id(), "a survivor joins another graph like a new node");
            }
            for (size_t i = 0; i < g.p.f.size(); ++i) {
                const Fac &ff = g.p.f[i];
                PF x = kf.size() == g.p.f.size() ? kf[i] : mkfactor(ff, kn[ff.a], ff.b >= 0 ? kn[ff.b] : PN());
                PF y = mkfactor(ff, n3[ff.a], ff.b >= 0 ? n3[ff.b] : PN());
                g2.add_factor(x); g3.add_factor(y);
                c.req(x->get_id() == i, "a survivor joins another graph like a new factor");
            }
            auto same = [&](const char *w) {
                for (size_t v = 0; v < kn.size(); ++v) {
                    MatX p = kn[v]->get_state(), q = n3[v]->get_state();
                    bool fin = q.allFinite() && q.norm() < 1e8;
                    c.req(p.rows() == q.rows() && p.cols() == q.cols() && (!fin || (p - q).norm() <= 1e-9 * (1 + q.norm())), w);
                }
            };
            same("survivors in a second graph: states");
            double e2 = g2.err(), e3 = g3.err();
            c.req(!(std::fabs(e3) < 1e12) || std::fabs(e2 - e3) <= 1e-9 * (1 + std::fabs(e3)), "survivors in a second graph: total error");
            if (g2.get_dimension_state() > 0) { g2.act(1); g3.act(1); same("survivors in a second graph: a solve"); hh.d(g2.err()); }
        }
        kn.clear(); kf.clear();
        for (auto &w : wn) c.req(w.expired(), "node released after its last holder");
        for (auto &w : wf) c.req(w.expired(), "factor released after its last holder");
        h = hh.h;
    }
    return h;
}
int main(int argc, char **argv)
{
    vk::Ctx c("F14", argc, argv);
    std::vector<Cfg> cfgs(2);
    cfgs[0].noise = .2; cfgs[0].init = .3; cfgs[0].info = 5; cfgs[0].robust = 5;
    cfgs[1].noise = .1; cfgs[1].init = .2; cfgs[1].anchors = 5; cfgs[1].prior = false;
    auto go = [&](const Grown &g, const Cfg &k, const std::vector<int> &np, const std::vector<int> &acts, int hold, bool dense) {
        c.each([&] { std::string s; for (int a : acts) s += std::string(actname(a)) + ", "; return std::string(dense ? "dense; " : "sparse; ") + g.p.name + "; " + k.str() + "; nodes inserted " + vk::str(np) + "; acts " + s + vk::fmt("hold %d", hold); }, [&] {
            uint64_t h = 0;
            for (int round = 0; round < 3; ++round) {
                size_t b0 = bytes();
                h = dense ? history<De>(c, g, np, acts, hold) : history<Sp>(c, g, np, acts, hold);
                size_t b1 = bytes();
                if (b0 == b1) { ++c.evals; break; }
                if (round == 2) VK_FAIL("%lld bytes are not released after the graph and every handle are gone", (long long)(b1 - b0)); // later rounds exclude one-time initialisations
            }
            ++c.traces; c.transitions += acts.size() + g.p.x.size() + g.p.f.size() + 1;
            c.state(h);
        });
    };
    // (a) all gadget sequences, solving after every growth, every way of holding on to the elements
    const std::vector<int> holds = {0, 1, 2, 3, 8, 9, 10, 11, 5, 6, 15, 16, 27, 33, 40, 63};
    for (int three = 0; three < 2; ++three) for (auto &k : cfgs) for (int dense = 0; dense < 2; ++dense)
        vk::sequences(three ? N3 : N2, c.thorough ? 3 : 2, [&](const std::vector<int> &s) {
            Grown g;
            if (!grow(three, s, k, g)) return false;
            std::vector<int> id = iota((int)g.p.x.size());
            bool deep = s.size() > 2; // three gadgets: fewer ways to hold on
            for (auto &np : orders(g.p)) for (int hold : holds) {
                if (deep && hold != 0 && hold != 3 && hold != 9 && hold != 15) continue;
                go(g, k, np, {1, 2, 3}, hold, dense);
                if (np == id && (deep ? hold == 0 : hold < 4 || hold == 15)) vk::sequences(5, (int)g.mark.size(), [&](const std::vector<int> &acts) { if (acts.size() == g.mark.size()) go(g, k, np, acts, hold, dense); return true; });
            }
            return c.mine();
        });
    for (auto &k : cfgs) for (int i = 0; i < N2; ++i) for (int j = 0; j < N3; ++j) for (int dense = 0; dense < 2; ++dense) {
        Grown a, b;
        if (!grow(false, {i, 3}, k, a) || !grow(true, {j, 4}, k, b)) continue;
        Grown g = join(a, b);
        for (auto &np : orders(g.p)) for (int hold : {0, 3, 11, 15}) go(g, k, np, {4, 3}, hold, dense);
    }
    // (b) graphs without factors, without nodes, large ones
    for (int n = 0; n < 4; ++n) for (int dense = 0; dense < 2; ++dense) for (int hold : {0, 1, 9, 8}) {
        Grown g;
        for (int i = 0; i < n; ++i) g.p.add(i % 2 ? sv(L2, {1, 2}) : sT(grid::tw(0, 0, 0, 1, 2, 3)), i == 2);
        g.mark.push_back({n, 0});
        g.p.name = vk::fmt("%d nodes without factors", n);
        if (n == 0 && (hold & 1)) continue;
        go(g, cfgs[0], iota(n), {3}, hold, dense);
    }
    for (int len : {30, 120}) for (int three = 0; three < 2; ++three) for (int hold : {0, 3, 8, 11, 5}) {
        Grown g;
        std::vector<int> s;
        for (int i = 0; i < len; ++i) s.push_back(three ? std::vector<int>{0, 2, 1, 4, 3}[i % 5] : std::vector<int>{0, 3, 1, 4, 2}[i % 5]);
        Cfg k = cfgs[0]; k.robust = 0; k.init = .01; k.noise = .01;
        if (grow(three, s, k, g)) { std::vector<int> acts(g.mark.size(), 0); acts.back() = 4; go(g, k, iota((int)g.p.x.size()), acts, hold, len == 30); }
    }
    return c.finish();
}
