// P04: every operation sequence on a Plane accumulator up to a bounded depth, against a model that keeps the
// points and poses and recomputes everything from scratch in extended precision.
#include "grids.hpp"
#include <Eigen/Eigenvalues>
#include <mrob/plane.hpp>
using namespace mrob;
using ref::L;
typedef std::vector<Mat31> Pts;
static const int NT = 3; // time indices
struct Model {
    std::vector<Pts> pts = std::vector<Pts>(NT);
    const std::vector<SE3> *traj = nullptr;
    // as of the last (incremental) estimation
    bool est = false;
    std::vector<ref::M4> Q = std::vector<ref::M4>(NT, ref::M4(ref::M4::Zero()));
    ref::M4 now(int t) const
    {
        ref::M4 S = ref::M4::Zero(), T = traj->at(t).T().cast<L>();
        for (auto &p : pts[t]) { ref::V4 h; h << p.cast<L>(), 1; S += h * h.transpose(); }
        return T * S * T.transpose();
    }
    ref::M4 sum() const { ref::M4 r = ref::M4::Zero(); for (auto &q : Q) r += q; return r; }
};
static ref::M4 gen(int i)
{
    ref::V6 e = ref::V6::Zero(); e(i) = 1;
    return ref::hat6(e);
}
int main(int argc, char **argv)
{
    vk::Ctx c("P04", argc, argv);
    const std::vector<Mat31> P = {Mat31(1, 0, .1), Mat31(0, 2, -.1), Mat31(-1, 1, .2), Mat31(2, -1, 0), Mat31(5, 5, 5)};
    std::vector<Mat61> poses = {Mat61::Zero(), grid::tw(.1, -.2, .05, .5, 0, -.3), grid::tw(-1, .4, 2, 10, -20, 5), grid::tw(.02, .01, 0, 0, .1, .05)};
    enum { PUSH0, PUSH1, PUSH2, PUSH1B, PUSHX, CLEAR, RESET, MOVE1, MOVE2, SWAP, EST, INC1, INC0, PEEK, NUDGE1, NOPS };
    const char *name[] = {"push(0)", "push(1)", "push(2)", "push'(1)", "push(out of range)", "clear", "reset", "move pose 1", "move pose 2", "other trajectory", "estimate", "estimate incrementally(1)", "estimate incrementally(0)", "query", "nudge pose 1"};
    auto run = [&](const std::vector<int> &seq) {
        auto mk = [&](int k) { auto v = std::make_shared<std::vector<SE3>>(); for (int t = 0; t < NT; ++t) { Mat61 x = poses[(t + k) % 4]; v->push_back(SE3(x)); } return v; };
        std::shared_ptr<std::vector<SE3>> A = mk(0), B = mk(1), cur = A;
        int mv = 0, np = 0;
        Plane pl(NT);
        pl.set_trajectory(A);
        Model m;
        m.traj = A.get();
        vk::Hash h;
        auto same = [&](double got, const ref::M4 &Q, const char *what) {
            Eigen::SelfAdjointEigenSolver<ref::M4> e(Q);
            c.near(what, std::fabs((double)((L)got - e.eigenvalues()(0))), 1e-12 * ((double)Q.trace() + 1));
            return e;
        };
        auto afterest = [&] {
            ref::M4 Q = m.sum();
            auto e = same(pl.get_error(), Q, "error is the smallest eigenvalue of the summed scatter");
            L tr = Q.trace();
            ref::V4 v = pl.get_plane().cast<L>();
            c.near("plane is a unit vector", std::fabs((double)(v.norm() - 1)), 1e-12);
            c.near("plane is the eigenvector", (double)(Q * v - e.eigenvalues()(0) * v).norm(), 1e-11 * ((double)tr + 1));
            // derivatives of the error for a left perturbation of the pose at t, the plane being v
            for (int t = 0; t < NT; ++t) {
                Mat61 g = pl.calculate_gradient(t);
                Mat6 H = pl.calculate_hessian(t);
                double sc = 1e-11 * ((double)tr + 1);
                std::vector<ref::M4> dQ;
                for (int i = 0; i < 6; ++i) {
                    ref::M4 G = gen(i);
                    dQ.push_back(G * m.Q[t] + m.Q[t] * G.transpose());
                    c.near("gradient", std::fabs((double)((L)g(i) - v.dot(dQ[i] * v))), sc);
                }
                for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) {
                    ref::M4 Bm = (gen(i) * gen(j) + gen(j) * gen(i)) * m.Q[t] * .5L + gen(i) * dQ[j];
                    c.near("hessian", std::fabs((double)((L)H(i, j) - v.dot((Bm + Bm.transpose()) * v))), sc * 4);
                }
                c.req(pl.calculate_gradient(t) == g, "gradient is repeatable");
            }
            h.d(pl.get_error());
        };
        auto query = [&] {
            uint_t n = 0;
            for (int t = 0; t < NT; ++t) {
                c.req(pl.get_number_points(t) == m.pts[t].size(), "number of points at a time index");
                c.req(pl.get_points(t) == m.pts[t], "points at a time index");
                n += m.pts[t].size();
            }
            c.req(pl.get_total_number_points() == n, "total number of points");
            h.i(n);
        };
        for (int op : seq) {
            ++c.transitions;
            switch (op) {
            case PUSH0: case PUSH1: case PUSH2: case PUSH1B: {
                int t = op == PUSH1B ? 1 : op - PUSH0;
                Mat31 p = P[(np++ + (op == PUSH1B ? 2 : 0)) % 4], q = p;
                if (op == PUSH1B) { pl.reserve(np + 4, 1); pl.reserve(1, 0); pl.reserve(7, NT); } // memory only
                pl.push_back_point(p, t);
                c.req(p == q, "the point is not modified");
                p.setConstant(77); // a copy was taken
                m.pts[t].push_back(q);
                break;
            }
            case PUSHX: { Mat31 p = P[4]; pl.push_back_point(p, NT); pl.push_back_point(p, NT + 5); break; }
            case CLEAR: pl.clear_points(); for (auto &x : m.pts) x.clear(); break;
            case RESET: pl.reset(); m.est = false; break;
            case MOVE1: case MOVE2: { int t = op == MOVE1 ? 1 : 2; Mat61 x = poses[(++mv + t) % 4] * .7; cur->at(t) = SE3(x); break; }
            case NUDGE1: { ++mv; Mat61 x = grid::tw(2, -1, 1, 1, 2, -3) * 1e-8; SE3 T(x); cur->at(1) = T * cur->at(1); break; }
            case SWAP: cur = cur == A ? B : A; pl.set_trajectory(cur); m.traj = cur.get(); break;
            case EST: {
                double e = pl.estimate_plane();
                for (int t = 0; t < NT; ++t) m.Q[t] = m.now(t);
                m.est = true;
                same(e, m.sum(), "estimate_plane returns the error");
                afterest();
                for (int t = 0; t < NT; ++t) if (!m.pts[t].empty()) {
                    ref::V3 s = ref::V3::Zero();
                    for (auto &p : m.pts[t]) s += p.cast<L>();
                    c.near("mean point", ref::dist(pl.get_mean_point(t), ref::V3(s / (L)m.pts[t].size())), 1e-13);
                }
                break;
            }
            case INC1: case INC0: case PEEK:
                if (m.est) for (int t = 0; t < NT; ++t) {
                    if (op == INC1 && t != 1) continue;
                    if (op == INC0 && t != 0) continue;
                    Model k = m;
                    k.Q[t] = m.now(t);
                    double e0 = pl.get_error();
                    Mat41 v0 = pl.get_plane();
                    same(pl.get_error_incremental(t), k.sum(), "get_error_incremental equals a full estimation");
                    c.req(pl.get_error() == e0 && pl.get_plane() == v0, "get_error_incremental modifies nothing");
                    if (op != PEEK) {
                        double e = pl.estimate_plane_incrementally(t);
                        m = k;
                        same(e, m.sum(), "estimate_plane_incrementally equals a full estimation");
                        afterest();
                    }
                }
                query();
                break;
            }
        }
        query();
        double e = pl.estimate_plane();
        for (int t = 0; t < NT; ++t) m.Q[t] = m.now(t);
        same(e, m.sum(), "estimate_plane returns the error");
        afterest();
        for (int t = 0; t < NT; ++t) for (auto &p : m.pts[t]) h.m(p);
        for (auto &x : *cur) h.m(x.T());
        c.state(h.h);
        ++c.traces;
    };
    int depth = c.thorough ? 5 : 4;
    vk::sequences(NOPS, depth, [&](const std::vector<int> &s) {
        if (s.empty()) return true;
        int a = s.back(), b = s.size() > 1 ? s[s.size() - 2] : -1;
        // commuting or idempotent neighbours are explored in one order only
        if ((a == PEEK || a == PUSHX || a == RESET || a == CLEAR) && a == b) return false;
        if (a == PUSHX && s.size() > 2) return false;
        c.each([&] { std::string r; for (int o : s) r += std::string(r.empty() ? "" : "; ") + name[o]; return r; }, [&] { run(s); });
        return c.mine();
    });
    // longer histories built around an established plane
    {
        std::vector<int> pre = {PUSH0, PUSH1, PUSH2, PUSH1B, PUSH0, EST};
        vk::sequences(NOPS, c.thorough ? 5 : 4, [&](const std::vector<int> &s) {
            if (s.empty()) return true;
            if (s.back() == PUSHX && s.size() > 1) return false;
            c.each([&] { std::string r = "5 points, estimated"; for (int o : s) r += std::string("; ") + name[o]; return r; }, [&] { std::vector<int> q = pre; q.insert(q.end(), s.begin(), s.end()); run(q); });
            return c.mine();
        });
    }
    // the gradient is the derivative of the error: finite differences of the full error in extended precision
    auto rots = grid::rotations(1);
    for (size_t r = 0; r < rots.size(); ++r) for (int n = 1; n <= 4; ++n)
        c.each([&] { return vk::fmt("finite differences, rotation %zu, %d points per time", r, n); }, [&] {
            auto tr = std::make_shared<std::vector<SE3>>();
            for (int t = 0; t < NT; ++t) { Mat4 T = grid::mk(rots[(r + 7 * t) % rots.size()], Mat31(t, -1, .5 * t)); tr->push_back(SE3(T)); }
            Plane pl(NT);
            pl.set_trajectory(tr);
            Model m;
            m.traj = tr.get();
            for (int t = 0; t < NT; ++t) for (int i = 0; i < n; ++i) { Mat31 p(((i + t) * 7 % 11) / 3. - 1, ((i * i + t) % 7) / 2. - 1, ((i * 5 + 2 * t) % 13) / 6. - 1); pl.push_back_point(p, t); m.pts[t].push_back(p); }
            pl.estimate_plane();
            for (int t = 0; t < NT; ++t) m.Q[t] = m.now(t);
            Eigen::SelfAdjointEigenSolver<ref::M4> e0(m.sum());
            if (e0.eigenvalues()(1) - e0.eigenvalues()(0) < 1e-3L) return;
            for (int t = 0; t < NT; ++t) {
                Mat61 g = pl.calculate_gradient(t);
                for (int i = 0; i < 6; ++i) {
                    L d[2];
                    for (int s = 0; s < 2; ++s) {
                        ref::V6 x = ref::V6::Zero(); x(i) = (s ? 1 : -1) * 1e-6L;
                        ref::M4 D = ref::exp6(x);
                        Eigen::SelfAdjointEigenSolver<ref::M4> e(ref::M4(m.sum() - m.Q[t] + D * m.Q[t] * D.transpose()));
                        d[s] = e.eigenvalues()(0);
                    }
                    c.near("gradient by finite differences", std::fabs((double)((d[1] - d[0]) / 2e-6L - (L)g(i))), 1e-7);
                }
            }
            ++c.traces;
        });
    // planes of every size: numbers of poses and of points per pose, coordinates of every scale, poses without points
    std::vector<std::pair<int, int>> sizes;
    for (int nt : {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65}) for (int n : {1, 2, 3, 4, 5, 8, 15, 16, 17, 33, 64, 65, 100}) sizes.push_back({nt, n});
    for (int nt : {1, 2, 3}) for (int n : {127, 128, 129, 255, 257, 513, 1000, 1025, 4097}) sizes.push_back({nt, n});
    for (int nt : {100, 129, 257, 500}) sizes.push_back({nt, 4});
    if (c.thorough) for (int nt = 1; nt <= 20; ++nt) for (int n = 1; n <= 150; ++n) sizes.push_back({nt, n});
    for (auto &z : sizes) for (double sc : {1., 1e-3, 1e3}) for (int skip = 0; skip < 2; ++skip)
        c.each([&] { return vk::fmt("%d poses with %d points, size %g%s", z.first, z.second, sc, skip ? ", some poses without points" : ""); }, [&] {
            const int nt = z.first;
            auto u = [&](int i, int k) { double x = std::sin(12.9898 * (i + 1) + 78.233 * (k + 1)) * 43758.5453; return (double)(float)(2 * (x - std::floor(x)) - 1); };
            auto tr = std::make_shared<std::vector<SE3>>();
            for (int t = 0; t < nt; ++t) { Mat61 x; for (int k = 0; k < 6; ++k) x(k) = (k < 3 ? 1 : sc) * u(t, k); tr->push_back(SE3(x)); }
            Plane pl(nt);
            pl.set_trajectory(tr);
            std::vector<Pts> pts(nt);
            for (int i = 0; i < z.second; ++i) for (int t = 0; t < nt; ++t) if (!(skip && t % 3 == 1)) {
                Mat31 w(sc * (2 * u(i, t + 10) + i % 5), sc * (u(i, t + 1000) - t % 7), sc * .1 * u(i + 1, t + 2000)), p;
                p = (tr->at(t).inv()).transform(w);
                pl.push_back_point(p, t); pts[t].push_back(p);
            }
            std::vector<ref::M4> Q(nt);
            ref::M4 S = ref::M4::Zero();
            size_t total = 0;
            auto scat = [&](int t) { ref::M4 q = ref::M4::Zero(), T = tr->at(t).T().cast<L>(); for (auto &p : pts[t]) { ref::V4 h; h << p.cast<L>(), 1; q += h * h.transpose(); } return ref::M4(T * q * T.transpose()); };
            for (int t = 0; t < nt; ++t) { Q[t] = scat(t); S += Q[t]; total += pts[t].size(); }
            auto check = [&](double e, const char *what) {
                Eigen::SelfAdjointEigenSolver<ref::M4> es(S);
                L tol = 1e-12L * (S.trace() + 1);
                ref::V4 v = pl.get_plane().cast<L>();
                c.near(what, std::fabs((double)((L)e - es.eigenvalues()(0))), (double)tol);
                c.req(pl.get_error() == e, "the returned error is the one stored");
                c.near("eigenvector", (double)(S * v - es.eigenvalues()(0) * v).norm(), (double)tol * 10);
                for (int t = 0; t < nt; ++t) {
                    Mat61 g = pl.calculate_gradient(t);
                    Mat6 H = pl.calculate_hessian(t);
                    std::vector<ref::M4> dQ;
                    for (int i = 0; i < 6; ++i) { ref::M4 G = gen(i); dQ.push_back(G * Q[t] + Q[t] * G.transpose()); c.near("gradient", std::fabs((double)((L)g(i) - v.dot(dQ[i] * v))), (double)tol * 10); }
                    for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) { ref::M4 Bm = (gen(i) * gen(j) + gen(j) * gen(i)) * Q[t] * .5L + gen(i) * dQ[j]; c.near("hessian", std::fabs((double)((L)H(i, j) - v.dot((Bm + Bm.transpose()) * v))), (double)tol * 40); }
                }
            };
            c.req(pl.get_total_number_points() == total, "total number of points");
            for (int t = 0; t < nt; ++t) c.req(pl.get_number_points(t) == pts[t].size(), "number of points at a time index");
            check(pl.estimate_plane(), "error is the smallest eigenvalue of the summed scatter");
            for (int t : {nt - 1, nt / 2}) {
                Mat61 d; d << .01, -.02, .03, sc * .1, 0, sc * -.2;
                tr->at(t).update_lhs(d);
                S -= Q[t]; Q[t] = scat(t); S = ref::M4::Zero(); for (auto &q : Q) S += q;
                double inc = pl.get_error_incremental(t), e = pl.estimate_plane_incrementally(t);
                c.near("get_error_incremental equals the incremental estimation", std::fabs(inc - e), 1e-12 * ((double)S.trace() + 1));
                check(e, "incremental estimation equals a full one");
            }
            check(pl.estimate_plane(), "full estimation after incremental ones");
            // more points of the same plane after the estimations, as many again
            for (int t = 0; t < nt; ++t) if (!(skip && t % 3 == 1)) {
                for (int i = 0; i < z.second; ++i) {
                    Mat31 w(sc * (2 * u(i, t + 30) + i % 3), sc * (u(i, t + 1300) - t % 5), sc * (.3 + .1 * u(i + 2, t + 2100))), p;
                    p = (tr->at(t).inv()).transform(w);
                    pl.push_back_point(p, t); pts[t].push_back(p);
                }
                Q[t] = scat(t);
            }
            S = ref::M4::Zero(); for (auto &q : Q) S += q;
            check(pl.estimate_plane(), "estimation after more points");
            c.outcome(vk::Hash().m(pl.get_plane()).d(pl.get_error()).h);
            ++c.traces;
        });
    return c.finish();
}
