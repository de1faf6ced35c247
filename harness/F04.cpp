// F04: all sequences of graph construction operations against a list model.
#include "fg.hpp"
using namespace fg;
struct MNode { int kind; bool anchor; std::vector<int> nb; };
struct MFac { int kind; std::vector<int> nodes; };
template <class G> struct World {
    G g; std::vector<PN> n; std::vector<PF> f, ef; // ef: the separate list of eigen factors, with ids of their own
    std::vector<MNode> mn; std::vector<MFac> mf;
};
static std::vector<MatX> states(FGraphSolve &g) { return g.get_estimated_state(); }
static std::vector<MatX> states(FGraphSolveDense &g) { std::vector<MatX> r; for (size_t i = 0; i < g.number_nodes(); ++i) r.push_back(g.get_node(i)->get_state()); return r; }

static const int NOPS = 23;
static const char *opname(int o)
{
    static const char *n[] = {"add Pose2d", "add anchored Pose2d", "add Landmark2d", "add anchored Landmark2d", "add Pose3d", "1Pose2d(first)", "1Pose2d(last)", "2Poses2d(first,last)", "2Poses2d(last,first)", "Landmark2d(pose,landmark)", "2Poses3d(first,last)",
        "re-add first node", "re-add last node", "re-add first factor", "re-add last factor", "remove first factor from a node", "remove absent factor", "2Poses2dOdom init (first,last)", "add Landmark3d", "Landmark3d(pose,landmark)",
        "eigen-factor list: 1Pose2d(first)", "eigen-factor list: 2Poses2d(first,last)", "remove last factor from its last node"};
    return n[o];
}
template <class G> struct Run {
    vk::Ctx &c;
    World<G> w;
    std::vector<int> of(int kind) { std::vector<int> r; for (size_t i = 0; i < w.mn.size(); ++i) if (w.mn[i].kind == kind) r.push_back(i); return r; }
    void addn(const St &s, bool anch)
    {
        PN n = mknode(s, anch ? Node::ANCHOR : Node::STANDARD);
        factor_id_t id = w.g.add_node(n);
        c.req(id == w.n.size(), "node ids are consecutive");
        w.n.push_back(n); w.mn.push_back({s.k, anch, {}});
    }
    void addf(const Fac &f, int a, int b, bool init = false)
    {
        PF p = mkfactor(f, w.n[a], b >= 0 ? w.n[b] : PN(), init);
        factor_id_t id = w.g.add_factor(p);
        c.req(id == w.f.size(), "factor ids are consecutive");
        int me = w.f.size();
        w.f.push_back(p);
        MFac m; m.kind = f.k; m.nodes.push_back(a); if (b >= 0) m.nodes.push_back(b);
        w.mf.push_back(m);
        for (int v : m.nodes) w.mn[v].nb.push_back(me);
    }
    // nb holds the index of a factor, or -1-i for the i-th one of the separate eigen-factor list
    PF &fac(int i) { return i >= 0 ? w.f[i] : w.ef[-1 - i]; }
    void adde(const Fac &f, int a, int b)
    {
        PF p = mkfactor(f, w.n[a], b >= 0 ? w.n[b] : PN());
        factor_id_t id = w.g.add_eigen_factor(p);
        c.req(id == w.ef.size(), "eigen factor ids are consecutive");
        w.ef.push_back(p);
        w.mn[a].nb.push_back(-(int)w.ef.size());
        if (b >= 0) w.mn[b].nb.push_back(-(int)w.ef.size());
    }
    bool apply(int o)
    {
        auto p2 = of(P2), l2 = of(L2), p3 = of(P3), l3 = of(L3);
        double k = w.n.size() + 1;
        switch (o) {
        case 0: addn(sv(P2, {k, -k, .1 * k}), false); return true;
        case 1: addn(sv(P2, {-k, k, -.1 * k}), true); return true;
        case 2: addn(sv(L2, {k, 3}), false); return true;
        case 3: addn(sv(L2, {3, k}), true); return true;
        case 4: addn(sT(grid::tw(.1 * k, 0, 0, k, 1, 1)), false); return true;
        case 5: if (p2.empty()) return false; addf(mkf(F1P2, 0, -1, vx({1, 2, .3}), spd(3, 0)), p2[0], -1); return true;
        case 6: if (p2.size() < 2) return false; addf(mkf(F1P2, 0, -1, vx({1, 2, .3}), spd(3, 0)), p2.back(), -1); return true;
        case 7: if (p2.size() < 2) return false; addf(mkf(F2P2, 0, 1, vx({1, 2, .3}), spd(3, 0)), p2[0], p2.back()); return true;
        case 8: if (p2.size() < 2) return false; addf(mkf(F2P2, 0, 1, vx({1, 2, .3}), spd(3, 0)), p2.back(), p2[0]); return true;
        case 9: if (p2.empty() || l2.empty()) return false; addf(mkf(FL2, 0, 1, vx({1, .3}), spd(2, 0)), p2.back(), l2[0]); return true;
        case 10: if (p3.size() < 2) return false; addf(mkT(F2P3, 0, 1, grid::tw(.1, 0, 0, 1, 0, 0), spd(6, 0)), p3[0], p3.back()); return true;
        case 11: case 12: {
            if (w.n.empty() || (o == 12 && w.n.size() < 2)) return false;
            int i = o == 11 ? 0 : (int)w.n.size() - 1;
            factor_id_t id = w.g.add_node(w.n[i]);
            c.req((int)id == i, "re-adding a node returns its id");
            return true; }
        case 13: case 14: {
            if (w.f.empty() || (o == 14 && w.f.size() < 2)) return false;
            int i = o == 13 ? 0 : (int)w.f.size() - 1;
            factor_id_t id = w.g.add_factor(w.f[i]);
            c.req((int)id == i, "re-adding a factor returns its id");
            return true; }
        case 15: {
            for (size_t v = 0; v < w.mn.size(); ++v) if (!w.mn[v].nb.empty()) {
                int fi = w.mn[v].nb[0];
                c.req(w.n[v]->rm_factor(fac(fi)), "removing a listed factor reports success");
                w.mn[v].nb.erase(w.mn[v].nb.begin());
                return true;
            }
            return false; }
        case 16: {
            // a factor that is not listed by a node
            for (size_t v = 0; v < w.mn.size(); ++v) for (size_t i = 0; i < w.mf.size(); ++i)
                if (std::find(w.mn[v].nb.begin(), w.mn[v].nb.end(), (int)i) == w.mn[v].nb.end()) {
                    c.req(!w.n[v]->rm_factor(w.f[i]), "removing a factor that is not listed is reported");
                    return true;
                }
            return false; }
        case 17: if (p2.size() < 2) return false; addf(mkf(FOD, 0, 1, vx({.1, 1, .3}), spd(3, 0)), p2[0], p2.back(), true); return true;
        case 20: if (p2.empty()) return false; adde(mkf(F1P2, 0, -1, vx({1, 2, .3}), spd(3, 0)), p2[0], -1); return true;
        case 21: if (p2.size() < 2) return false; adde(mkf(F2P2, 0, 1, vx({1, 2, .3}), spd(3, 0)), p2[0], p2.back()); return true;
        case 22: {
            for (size_t v = w.mn.size(); v-- > 0;) if (w.mn[v].nb.size() > 1) {
                int fi = w.mn[v].nb.back();
                c.req(w.n[v]->rm_factor(fac(fi)), "removing a listed factor reports success");
                w.mn[v].nb.pop_back();
                return true;
            }
            return false; }
        case 18: addn(sv(L3, {k, 3, 1}), false); return true;
        case 19: if (p3.empty() || l3.empty()) return false; addf(mkf(FL3, 0, 1, vx({1, .3, 2}), spd(3, 0)), p3[0], l3.back()); return true;
        }
        return false;
    }
    void check()
    {
        c.req(w.g.number_nodes() == w.n.size(), "number of nodes");
        c.req(w.g.number_factors() == w.f.size(), "number of factors");
        unsigned sd = 0, od = 0;
        for (auto &m : w.mn) if (!m.anchor) sd += vdim(m.kind);
        for (auto &m : w.mf) od += fdim(m.kind);
        c.req(w.g.get_dimension_state() == sd, "state dimension is the sum over free nodes");
        if (w.ef.empty()) c.req(w.g.get_dimension_obs() == od, "observation dimension is the sum over factors");
        for (size_t i = 0; i < w.n.size(); ++i) {
            c.req(w.g.get_node(i).get() == w.n[i].get() && w.n[i]->get_id() == i, "node retrieved by its id");
            c.req((int)w.n[i]->get_dim() == vdim(w.mn[i].kind), "node dimension");
            auto *l = w.n[i]->get_neighbour_factors();
            c.req(l->size() == w.mn[i].nb.size(), "every factor is listed exactly once by its nodes");
            for (size_t q = 0; q < l->size(); ++q) c.req((*l)[q].get() == fac(w.mn[i].nb[q]).get() , "neighbour factors of a node");
        }
        for (size_t i = 0; i < w.f.size(); ++i) {
            c.req(w.g.get_factor(i).get() == w.f[i].get() && w.f[i]->get_id() == i, "factor retrieved by its id");
            auto *l = w.f[i]->get_neighbour_nodes();
            std::set<int> want(w.mf[i].nodes.begin(), w.mf[i].nodes.end()), got;
            for (auto &n : *l) got.insert(n->get_id());
            c.req(l->size() == w.mf[i].nodes.size() && want == got, "nodes connected by a factor");
        }
        auto st = states(w.g);
        c.req(st.size() == w.n.size(), "estimated states for all nodes");
        for (size_t i = 0; i < st.size(); ++i) c.req(ref::dist(st[i], MatX(w.n[i]->get_state())) == 0, "estimated states in id order");
        for (factor_id_t bad : {(factor_id_t)w.n.size(), (factor_id_t)w.n.size() + 1, (factor_id_t)1000000, (factor_id_t)-1}) {
            bool thrown = false;
            try { w.g.get_node(bad); } catch (const std::exception &) { thrown = true; }
            c.req(thrown, "an id never handed out is rejected (node)");
        }
        for (factor_id_t bad : {(factor_id_t)w.f.size(), (factor_id_t)w.f.size() + 1, (factor_id_t)-1}) {
            bool thrown = false;
            try { w.g.get_factor(bad); } catch (const std::exception &) { thrown = true; }
            c.req(thrown, "an id never handed out is rejected (factor)");
        }
    }
};
template <class G> void explore(vk::Ctx &c, const char *name, int depth)
{
    for (int a = 0; a < NOPS; ++a) for (int b = 0; b < NOPS; ++b) for (int d = 0; d < NOPS; ++d)
        c.each([&] { return vk::fmt("%s: %s; %s; %s; ... depth %d", name, opname(a), opname(b), opname(d), depth); }, [&] {
            std::vector<int> seq;
            int fixed[3] = {a, b, d};
            std::function<void()> rec = [&]() {
                if ((int)seq.size() == depth) return;
                int lo = 0, hi = NOPS;
                if (seq.size() < 3) { lo = fixed[seq.size()]; hi = lo + 1; }
                for (int o = lo; o < hi; ++o) {
                    seq.push_back(o);
                    Run<G> r{c, {}};
                    bool ok = true;
                    for (int q : seq) ok = ok && r.apply(q);
                    if (ok) {
                        ++c.transitions; ++c.traces;
                        auto fail = [&](const vk::Fail &e) { std::string s; for (int q : seq) s += std::string(opname(q)) + "; "; throw vk::Fail(e.m + " after " + s); };
                        try { r.check(); } catch (const vk::Fail &e) { fail(e); }
                        vk::Hash h;
                        for (auto &m : r.w.mn) { h.i(m.kind).i(m.anchor).i(m.nb.size()); for (int x : m.nb) h.i(x); }
                        for (auto &m : r.w.mf) { h.i(m.kind); for (int x : m.nodes) h.i(x); }
                        c.state(h.h);
                        rec();
                    }
                    seq.pop_back();
                }
            };
            rec();
        });
}
int main(int argc, char **argv)
{
    vk::Ctx c("F04", argc, argv);
    explore<FGraphSolve>(c, "sparse", c.thorough ? 7 : 6);
    explore<FGraphSolveDense>(c, "dense", c.thorough ? 6 : 5);
    // larger graphs, the same checks along one long history per anchoring pattern
    for (int pat = 0; pat < 8; ++pat)
        c.each([&] { return vk::fmt("long chain, anchoring pattern %d", pat); }, [&] {
            Run<FGraphSolve> r{c, {}};
            for (int i = 0; i < 60; ++i) {
                r.apply((pat >> (i % 3)) & 1 ? 1 : 0);
                if (i % 4 == 1) r.apply(2);
                if (i % 5 == 2) { r.apply(7); r.apply(8); r.apply(9); }
                if (i % 7 == 3) { r.apply(11); r.apply(14); r.apply(15); }
                ++c.transitions;
                r.check();
            }
            ++c.traces;
        });
    // large graphs
    for (int pat = 0; pat < 8; ++pat) for (int dense = 0; dense < 2; ++dense)
        c.each([&] { return vk::fmt("large graph (%s), anchoring pattern %d", dense ? "dense" : "sparse", pat); }, [&] {
            auto go = [&](auto r) {
                for (int i = 0; i < (c.thorough ? 1500 : 700); ++i) {
                    r.apply((pat >> (i % 3)) & 1 ? 1 : 0);
                    if (i % 3 == 1) r.apply(i % 9 == 1 ? 3 : 2);
                    if (i % 40 == 2) { r.apply(4); r.apply(10); r.apply(18); r.apply(19); }
                    r.apply(i % 2 ? 7 : 8); r.apply(6);
                    if (i % 5 == 2) r.apply(9);
                    if (i % 7 == 3) { r.apply(12); r.apply(14); r.apply(22); }
                    ++c.transitions;
                    if (i % 97 == 96) r.check();
                }
                r.check();
            };
            if (dense) go(Run<FGraphSolveDense>{c, {}}); else go(Run<FGraphSolve>{c, {}});
            ++c.traces;
        });
    return c.finish();
}
