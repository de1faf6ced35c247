// Factors that delegate to a real one: Probe counts and records the calls of a solver, Frozen replaces the
// anchored variables of a real factor by constants held elsewhere.
#pragma once
#include "problems.hpp"
namespace prob {
struct Deleg : Factor {
    PF in;
    Deleg(PF f, int dim, int all, int robust) : Factor(dim, all, (robustFactorType)robust, 2), in(f) {}
    void evaluate_residuals() override { in->evaluate_residuals(); }
    void evaluate_jacobians() override { in->evaluate_jacobians(); }
    void evaluate_chi2() override { in->evaluate_chi2(); chi2_ = in->get_chi2(); }
    const Eigen::Ref<const MatX> get_obs() const override { return in->get_obs(); }
    const Eigen::Ref<const MatX1> get_residual() const override { return in->get_residual(); }
    const Eigen::Ref<const MatX> get_information_matrix() const override { return in->get_information_matrix(); }
    const Eigen::Ref<const MatX> get_jacobian() const override { return in->get_jacobian(); }
};
struct Probe : Deleg {
    int nj = 0, nr = 0;
    std::function<void()> onjac; // called at every linearisation
    Probe(PF f, int robust) : Deleg(f, f->get_dim(), f->get_all_nodes_dim(), robust)
    {
        for (auto &n : *f->get_neighbour_nodes()) neighbourNodes_.push_back(n);
    }
    void evaluate_residuals() override { ++nr; Deleg::evaluate_residuals(); }
    void evaluate_jacobians() override { ++nj; if (onjac) onjac(); Deleg::evaluate_jacobians(); }
};
// the same factor with its anchored variable turned into a constant; the private nodes keep the order of the ids
struct Frozen : Deleg {
    PN outer, inner;
    int col, dimf; // columns of the free node in the inner Jacobian
    MatX J;
    static PF make(const Fac &f, const St &A, const St &B, bool afree, bool afirst, PN real)
    {
        auto g = std::make_shared<FGraphSolve>();
        PN a = mknode(A), b = f.b >= 0 ? mknode(B) : PN();
        if (afirst || !b) { g->add_node(a); if (b) g->add_node(b); }
        else { g->add_node(b); g->add_node(a); }
        PF in = mkfactor(f, a, b);
        auto r = std::make_shared<Frozen>(in, f, afree ? vdim(A.k) : vdim(B.k));
        r->hold = g;
        r->outer = real; r->inner = afree ? a : b;
        r->dimf = afree ? vdim(A.k) : vdim(B.k);
        r->col = (*in->get_neighbour_nodes())[0] == r->inner ? 0 : (int)(*in->get_neighbour_nodes())[0]->get_dim();
        r->neighbourNodes_.push_back(real);
        return r;
    }
    std::shared_ptr<FGraphSolve> hold;
    Frozen(PF in, const Fac &f, int d) : Deleg(in, in->get_dim(), d, f.robust) {}
    void evaluate_residuals() override { inner->set_state(MatX(outer->get_state())); in->evaluate_residuals(); }
    void evaluate_jacobians() override { inner->set_state(MatX(outer->get_state())); in->evaluate_jacobians(); J = MatX(in->get_jacobian()).block(0, col, dim_, dimf); }
    const Eigen::Ref<const MatX> get_jacobian() const override { return J; }
};
// problem without its anchored variables: factors between a free and an anchored variable are frozen, factors
// without any free variable are left out (and returned as a constant part of the error)
template <class G> struct Reduced { std::unique_ptr<G> g; std::vector<PN> n; L constant = 0; int nf = 0; };
template <class G> Reduced<G> reduce(const Problem &p, const std::vector<int> &np, const std::vector<int> &fp)
{
    Reduced<G> b;
    b.g.reset(new G());
    b.n.resize(p.x.size());
    std::vector<int> at(p.x.size());
    for (size_t i = 0; i < np.size(); ++i) at[np[i]] = (int)i;
    for (int v : np) if (!p.anchor[v]) { b.n[v] = mknode(p.x[v]); b.g->add_node(b.n[v]); }
    for (int i : fp) {
        const Fac &f = p.f[i];
        bool fa = !p.anchor[f.a], fb = f.b >= 0 && !p.anchor[f.b];
        PF q;
        if (f.b < 0 || (fa && fb)) { if (!fa) { b.constant += chi2(f, p.x[f.a], p.x[f.a]); continue; } q = mkfactor(f, b.n[f.a], f.b >= 0 ? b.n[f.b] : PN()); }
        else if (!fa && !fb) { b.constant += chi2(f, p.x[f.a], p.x[f.b]); continue; }
        else q = Frozen::make(f, p.x[f.a], p.x[f.b], fa, at[f.a] < at[f.b], fa ? b.n[f.a] : b.n[f.b]);
        b.g->add_factor(q);
        ++b.nf;
    }
    return b;
}
} // namespace prob
