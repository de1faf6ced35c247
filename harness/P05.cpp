// P05: every sequence of solver calls, resets, initialisations and refills of a plane registration up to a
// bounded depth, over small scenes with every pattern of missing observations.
#include "grids.hpp"
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>
#include <algorithm>
#include <mrob/plane_registration.hpp>
using namespace mrob;
using ref::L;
struct Reg : PlaneRegistration {
    MatX1 grad() { calculate_gradient_hessian(); return gradient_; }
    // one attempted step that the optimiser takes back
    Mat4 attempt(const Mat61 &d) { bookkeep_state(); calculate_gradient_hessian(); dx_ = d; update_state(); Mat4 T = trajectory_->back().T(); calculate_error(); update_state_from_bookkeep(); return T; }
    uint_t few(optimMethod m, uint_t iters, double lambda) { return Optimizer::solve(m, iters, lambda); }
};
struct Scene {
    int K, N, miss; // bit k * N + t: plane k is not observed at time t
    bool same;      // the same points of the plane are seen at every time
    double noise;
    Mat61 xi;
    int extra = 0; // points added to plane 0, 1, ... afterwards, each seen at every time the plane is seen
    int single = 0; // bit t: a single point is seen at time t
    int line = 0;   // bit t: at time t one point of each plane is seen, all on one line (their alignment is undetermined)
    std::string str() const { return (line ? vk::fmt("points on a line at %x, ", line) : std::string()) + (single ? vk::fmt("single points at %x, ", single) : std::string()) + vk::fmt("%d planes, %d poses, missing %x, %s points, noise %g, motion ", K, N, miss, same ? "the same" : "different", noise) + ref::s(xi); }
    bool seen(int k, int t) const { return (!miss || !(miss >> (k * N + t) & 1)) && !(single >> t & 1 && k != t % K); }
    std::vector<Mat31> points(int k, int t) const
    {
        static const double nr[][3] = {{1, .1, 0}, {0, 1, .2}, {.1, 0, 1}, {.6, .6, .5}, {-.5, .7, .2}, {.2, -.8, .4}, {.7, .1, -.6}};
        Mat31 n = Mat31(nr[k][0], nr[k][1], nr[k][2]).normalized(), u = n.cross(Mat31(.3, .5, .8)).normalized(), v = n.cross(u);
        std::vector<Mat31> r;
        if (!seen(k, t)) return r;
        if (line >> t & 1) { for (int i = 0; i <= extra / K + (k < extra % K); ++i) r.push_back(Mat31(k + 1, 2 * k, .5 * k)); return r; }
        ref::M4 T = ref::inv4(ref::exp6((xi * (double)t / (N - 1.)).cast<L>()));
        int np = single >> t & 1 ? 1 : 4 + (same ? 0 : (k + t) % 3);
        const int more = extra / K + (k < extra % K);
        for (int i = 0; i < np + more; ++i) {
            int s = same || i >= np ? 0 : t;
            if (i >= np) s = 3 + i;
            Mat31 p = n * (1 + k * .5) + u * (((i * 2 + s) % 5 - 2.) * .5) + v * (((i * 3 + 2 * s) % 7 - 3.) * .4) + noise * ((i * 5 + t * 3 + k) % 7 - 3.) / 3. * n;
            ref::V4 h; h << p.cast<L>(), 1;
            r.push_back((T * h).head<3>().cast<double>());
        }
        return r;
    }
    void fill(PlaneRegistration &r, bool alt) const
    {
        r.set_number_planes_and_poses(K, N);
        for (int k = 0; k < K; ++k) {
            if (alt) { std::shared_ptr<Plane> p(new Plane(N)); for (int t = 0; t < N; ++t) for (auto x : points(k, t)) p->push_back_point(x, t); r.add_plane(10 + 3 * k, p); }
            else { r.add_new_plane(10 + 3 * k); for (int t = N - 1; t >= 0; --t) for (auto x : points(k, t)) r.plane_push_back_point(10 + 3 * k, t, x); }
        }
    }
    int total() const { int n = 0; for (int k = 0; k < K; ++k) for (int t = 0; t < N; ++t) n += points(k, t).size(); return n; }
    // error of a trajectory, from scratch
    L error(const std::vector<ref::M4> &T) const
    {
        L e = 0;
        for (int k = 0; k < K; ++k) {
            ref::M4 Q = ref::M4::Zero();
            for (int t = 0; t < N; ++t) for (auto &p : points(k, t)) { ref::V4 h; h << p.cast<L>(), 1; h = T[t] * h; Q += h * h.transpose(); }
            Eigen::SelfAdjointEigenSolver<ref::M4> s(Q);
            e += s.eigenvalues()(0);
        }
        return e;
    }
    // the initialisation from plane means: rotation and translation aligning the means at t with those at 0
    bool init(int t, ref::M4 &T) const
    {
        std::vector<ref::V3> x, y;
        auto mean = [&](int k, int t) { ref::V3 m = ref::V3::Zero(); auto p = points(k, t); for (auto &q : p) m += q.cast<L>(); return ref::V3(m / (L)p.size()); };
        for (int k = 0; k < K; ++k) if (seen(k, 0) && seen(k, t)) { x.push_back(mean(k, t)); y.push_back(mean(k, 0)); }
        if (x.size() < 3) return false;
        ref::V3 cx = ref::V3::Zero(), cy = cx;
        for (size_t i = 0; i < x.size(); ++i) { cx += x[i]; cy += y[i]; }
        cx /= (L)x.size(); cy /= (L)y.size();
        ref::M3 H = ref::M3::Zero();
        for (size_t i = 0; i < x.size(); ++i) H += (x[i] - cx) * (y[i] - cy).transpose();
        Eigen::JacobiSVD<Eigen::Matrix<L, 3, 3, Eigen::ColMajor>> svd(H, Eigen::ComputeFullU | Eigen::ComputeFullV);
        if (svd.singularValues()(1) <= 1e-12L * svd.singularValues()(0)) return false;
        ref::M3 D = ref::M3::Identity();
        D(2, 2) = (svd.matrixV() * svd.matrixU().transpose()).determinant() < 0 ? -1 : 1;
        T = ref::M4::Identity();
        T.topLeftCorner<3, 3>() = svd.matrixV() * D * svd.matrixU().transpose();
        T.topRightCorner<3, 1>() = cy - T.topLeftCorner<3, 3>() * cx;
        return true;
    }
};
// independent model of the first-order solvers: x = Exp(-step) x with step sizes as documented, the error and its
// gradient from the scatter matrices, poses without any observation left out
struct Descent {
    const Scene &s;
    L alpha = .75L, beta = .1L;
    ref::V6 mom = ref::V6::Zero();
    int iters = 0;
    std::vector<std::vector<ref::M4>> S;
    std::vector<L> n;
    explicit Descent(const Scene &s) : s(s) { fill(); }
    void fill()
    {
        S.assign(s.K, {}); n.assign(s.N, 0);
        for (int k = 0; k < s.K; ++k) for (int t = 0; t < s.N; ++t) {
            ref::M4 m = ref::M4::Zero();
            for (auto &p : s.points(k, t)) { ref::V4 h; h << p.cast<L>(), 1; m += h * h.transpose(); n[t] += 1; }
            S[k].push_back(m);
        }
    }
    // false: a plane is not determined (its smallest eigenvalues coincide)
    bool gradients(const std::vector<ref::M4> &T, L &e, std::vector<ref::V6> &g) const
    {
        e = 0; g.assign(s.N, ref::V6::Zero());
        for (int k = 0; k < s.K; ++k) {
            std::vector<ref::M4> Q; ref::M4 A = ref::M4::Zero();
            for (int t = 0; t < s.N; ++t) { Q.push_back(T[t] * S[k][t] * T[t].transpose()); A += Q.back(); }
            Eigen::SelfAdjointEigenSolver<ref::M4> es(A);
            if (!(es.eigenvalues()(1) - es.eigenvalues()(0) > 1e-3L * (1 + es.eigenvalues()(3)))) return false;
            e += es.eigenvalues()(0);
            ref::V4 pi = es.eigenvectors().col(0);
            for (int t = 0; t < s.N; ++t) for (int i = 0; i < 6; ++i) {
                ref::V6 x = ref::V6::Zero(); x(i) = 1;
                ref::M4 G = ref::hat6(x);
                g[t](i) += 2 * pi.dot(G * Q[t] * pi);
            }
        }
        return true;
    }
    enum Mode { PLAIN, NAG, ALL };
    bool solve(Mode mode, bool single, std::vector<ref::M4> &T)
    {
        L prev = 1e20L, diff = 10;
        iters = 0;
        do {
            L e; std::vector<ref::V6> g;
            if (!gradients(T, e, g)) return false;
            diff = prev - e; prev = e;
            if (std::fabs(std::fabs(diff) - 1e-4L) < 1e-7L) return false; // the last iteration could be decided by rounding
            if (mode == ALL) { for (int t = 1; t < s.N; ++t) if (n[t] > 0) T[t] = ref::exp6(ref::V6(-g[t] * (alpha / n[t] / s.N))) * T[t]; }
            else {
                ref::V6 J = ref::V6::Zero();
                for (int t = 1; t < s.N; ++t) if (n[t] > 0) J += g[t] * ((L)t / (s.N - 1) / n[t] / s.N);
                ref::V6 d = -alpha * J;
                if (mode == NAG) { d = beta * beta * mom - (1 + beta) * alpha * J; mom = beta * mom - alpha * J; }
                T.back() = ref::exp6(d) * T.back();
                ref::V6 l = ref::ln6(T.back());
                for (int t = 1; t < s.N - 1; ++t) T[t] = ref::exp6(ref::V6(l * ((L)t / (s.N - 1))));
            }
            ref::V6 l = ref::ln6(T.back());
            if (!(l.head<3>().norm() < 2 && l.norm() < 50)) return false;
            ++iters;
        } while (std::fabs(diff) > 1e-4L && !single && iters < 80);
        return single || iters < 80;
    }
};
int main(int argc, char **argv)
{
    vk::Ctx c("P05", argc, argv);
    enum { SPHER, ELLIP, GN, NAG1, NAG, ALLP, INIT, RESET, SETSMALL, SETTRUE, REFILL, EVAL, UNDO, SPHER1, ELLIP3, MORE, ALLP1, NOPS };
    const char *name[] = {"LM_SPHER", "LM_ELLIP", "GN_HESSIAN", "one NAG iteration", "NAG", "GRADIENT_ALL_POSES", "initialise", "reset", "set last pose near", "set true last pose", "refill", "evaluate", "step and undo", "at most one LM_SPHER iteration", "at most three LM_ELLIP iterations", "add points", "one GRADIENT_ALL_POSES iteration"};
    auto run = [&](const Scene &s0, const std::vector<int> &seq, bool alt, const Scene *earlier = nullptr, int used = 0) {
        Scene s = s0;
        Reg r;
        if (earlier) { // the registration served another scene before
            earlier->fill(r, !alt);
            if (used & 1) r.solve(PlaneRegistration::LM_SPHER);
            if (used & 2) { r.solve(PlaneRegistration::GRADIENT_BENGIOS_NAG, true); r.print_evaluate(); }
            if (used & 4) { Mat61 x = earlier->xi; SE3 l(x); r.set_last_pose(l); r.calculate_total_number_points(); }
        }
        s.fill(r, alt);
        std::unique_ptr<Reg> twin; // after a reset or a refill: a fresh registration, which every later step has to agree with
        if (earlier) { twin.reset(new Reg); s.fill(*twin, alt); }
        bool interp = true; // the trajectory currently follows the interpolation model
        vk::Hash h;
        auto traj = [&] { std::vector<ref::M4> T; for (int t = 0; t < s.N; ++t) T.push_back(r.get_trajectory(t).T().cast<L>()); return T; };
        auto finite = [&](const std::vector<ref::M4> &T) { for (auto &x : T) if (!(ref::mabs(x) < 1e6)) return false; return true; };
        double lasterr = -1;
        Descent desc(s);
        bool momknown = true, iterknown = false;
        std::vector<ref::M4> want;
        bool compare = false;
        auto predict = [&](int op) {
            compare = iterknown = false;
            if (op != NAG1 && op != NAG && op != ALLP && op != ALLP1) return;
            want = traj();
            if (!finite(want)) return;
            desc.fill();
            const bool nag = op == NAG || op == NAG1;
            compare = desc.solve(nag ? Descent::NAG : Descent::ALL, op == NAG1 || op == ALLP1, want);
            if (nag) { if (!compare) { momknown = false; } compare = compare && momknown; }
            iterknown = compare;
        };
        int sincesolve = -1; // operations since the last solve
        double before = 0;
        auto invariants = [&](const char *op) {
            auto T = traj();
            c.req(ref::dist(T[0], ref::M4(ref::M4::Identity())) == 0, "the first pose is the identity");
            if (!finite(T)) return false; // a diverged gradient or Newton iteration promises nothing more
            for (auto &x : T) c.near("poses are rigid motions", (double)ref::se3_defect(x), 1e-10);
            c.req(r.get_last_pose().T() == r.get_trajectory(s.N - 1).T(), "last pose");
            ref::V6 l = ref::ln6(T.back());
            if (interp && l.head<3>().norm() < 3.1L) for (int t = 0; t < s.N; ++t)
                c.near("poses interpolate to the last one", ref::dist(T[t], ref::exp6(l * (L)t / (L)(s.N - 1))), 1e-9 * (1 + (double)l.norm()));
            L e = s.error(T);
            double got = r.get_current_error(), sc = 1e-12 * (1 + (double)l.squaredNorm()) * s.total() * 10;
            c.near("total error", std::fabs((double)((L)got - e)), sc);
            for (int t = 0; t < s.N; ++t) {
                std::vector<Mat31> a, b = r.get_point_cloud(t);
                for (int k = 0; k < s.K; ++k) { auto p = s.points(k, t); a.insert(a.end(), p.begin(), p.end()); }
                auto lt = [](const Mat31 &x, const Mat31 &y) { return std::lexicographical_compare(x.data(), x.data() + 3, y.data(), y.data() + 3); };
                std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
                c.req(a == b, "the data is kept");
            }
            c.req(r.calculate_total_number_points() == (uint_t)s.total(), "number of points");
            c.req((int)r.get_number_planes() == s.K && (int)r.get_number_poses() == s.N, "number of planes and poses");
            std::vector<SE3> gt; L rm = 0;
            for (int t = 0; t < s.N; ++t) { Mat61 x = s.xi * (double)t / (s.N - 1.); SE3 g(x); gt.push_back(g); rm += ref::ln6(T[t] * ref::inv4(ref::exp6(x.cast<L>()))).squaredNorm() / s.N; }
            if (l.head<3>().norm() < 2.5L) c.near("rmse of the poses", std::fabs((double)((L)r.calculate_poses_rmse(gt) - std::sqrt(rm))), 1e-8 * (1 + (double)l.norm()));
            if (twin) {
                for (int t = 0; t < s.N; ++t) c.near("after a reset or a refill every step agrees with a fresh registration", ref::dist(r.get_trajectory(t).T(), twin->get_trajectory(t).T()), 1e-7 * (1 + (double)l.norm()));
            }
            lasterr = got;
            h.d(got); for (auto &x : T) h.m(x); h.s(op);
            c.state(vk::Hash(h).i(s.miss).i(s.K).i(s.N).h);
            return true;
        };
        bool curalt = alt;
        auto again = [&](Reg &q, int op) {
            switch (op) {
            case SPHER: q.solve(PlaneRegistration::LM_SPHER); break;
            case ELLIP: q.solve(PlaneRegistration::LM_ELLIP); break;
            case GN: q.solve(PlaneRegistration::GN_HESSIAN); break;
            case NAG1: q.solve(PlaneRegistration::GRADIENT_BENGIOS_NAG, true); break;
            case NAG: q.solve(PlaneRegistration::GRADIENT_BENGIOS_NAG); break;
            case ALLP: q.solve(PlaneRegistration::GRADIENT_ALL_POSES); break;
            case ALLP1: q.solve_gradient_all_poses(true); break;
            case INIT: q.solve(PlaneRegistration::INITIALIZE); break;
            case SETSMALL: case SETTRUE: { Mat61 x = op == SETTRUE ? s.xi : Mat61(s.xi * .5 + grid::tw(.02, -.03, .01, .05, 0, -.04)); SE3 l(x); q.set_last_pose(l); break; }
            case MORE: { int k = (s.extra - 1) % s.K; for (int t = 0; t < s.N; ++t) if (s.seen(k, t)) { Mat31 x = s.points(k, t).back(); q.plane_push_back_point(10 + 3 * k, t, x); } break; }
            case UNDO: q.attempt(s.xi * 2 + grid::tw(.3, -.2, .1, .5, .4, -.3)); break;
            case SPHER1: q.few(Optimizer::LEVENBERG_MARQUARDT_SPHER, 1, 1e-6); break;
            case ELLIP3: q.few(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 3, 1e-6); break;
            }
        };
        if (!invariants("start")) VK_FAIL("start");
        for (int op : seq) {
            ++c.transitions;
            double e0 = lasterr;
            bool wasint = interp;
            if (op <= ALLP || op == INIT) { sincesolve = 0; before = e0; } else if (op != EVAL && op != UNDO) sincesolve = sincesolve < 0 ? -1 : 1;
            const bool iterknown0 = iterknown;
            predict(op);
            switch (op) {
            case SPHER: r.solve(PlaneRegistration::LM_SPHER); interp = true; break;
            case ELLIP: r.solve(PlaneRegistration::LM_ELLIP); interp = true; break;
            case GN: r.solve(PlaneRegistration::GN_HESSIAN); interp = true; break;
            case NAG1: r.solve(PlaneRegistration::GRADIENT_BENGIOS_NAG, true); interp = true; break;
            case NAG: r.solve(PlaneRegistration::GRADIENT_BENGIOS_NAG); interp = true; break;
            case ALLP: r.solve(PlaneRegistration::GRADIENT_ALL_POSES); interp = s.N == 2; break;
            case ALLP1: r.solve_gradient_all_poses(true); interp = s.N == 2; break;
            case INIT: {
                auto T0 = traj();
                bool ok = r.solve(PlaneRegistration::INITIALIZE) == 1, want = true;
                for (int t = 1; t < s.N && want; ++t) {
                    ref::M4 T;
                    want = s.init(t, T);
                    if (want) c.near("initialisation pairs the means of the same plane", ref::dist(r.get_trajectory(t).T(), T), 1e-9);
                    else for (int q = t; q < s.N; ++q) c.req(ref::dist(r.get_trajectory(q).T(), T0[q]) == 0, "a failed initialisation stops before that pose");
                    if (want && s.same && s.noise == 0) c.near("initialisation from identical points is exact", ref::dist(r.get_trajectory(t).T(), ref::exp6((s.xi * (double)t / (s.N - 1.)).cast<L>())), 1e-9);
                }
                c.req(ok == want, "initialisation reports whether it succeeded");
                interp = s.N == 2;
                break;
            }
            case RESET: twin.reset(); r.reset_solution(); interp = true; for (auto &x : traj()) c.req(ref::dist(x, ref::M4(ref::M4::Identity())) == 0, "reset returns every pose to the identity"); break;
            case SETSMALL: case SETTRUE: {
                Mat61 x = op == SETTRUE ? s.xi : Mat61(s.xi * .5 + grid::tw(.02, -.03, .01, .05, 0, -.04));
                SE3 l(x), k(l);
                for (double q : {0., 1e-7}) { // back to (nearly) the identity from wherever the trajectory is
                    Mat61 y = s.xi * q;
                    SE3 id(y);
                    r.set_last_pose(id);
                    for (int t = 0; t < s.N; ++t) c.near("a trajectory set to nearly no motion", ref::dist(r.get_trajectory(t).T(), ref::exp6((y * (double)t / (s.N - 1.)).cast<L>())), 1e-9);
                }
                r.set_last_pose(l);
                c.req(l.T() == k.T(), "the pose passed in is not modified");
                interp = true;
                c.near("last pose as set", ref::dist(r.get_last_pose().T(), ref::exp6(x.cast<L>())), 1e-9);
                break;
            }
            case REFILL: twin.reset(); s.fill(r, !alt); curalt = !alt; interp = true; for (auto &x : traj()) c.req(ref::dist(x, ref::M4(ref::M4::Identity())) == 0, "refilling starts from the identity"); break;
            case EVAL: break;
            case MORE: {
                int k = s.extra % s.K;
                ++s.extra;
                for (int t = 0; t < s.N; ++t) if (s.seen(k, t)) { Mat31 x = s.points(k, t).back(); r.plane_push_back_point(10 + 3 * k, t, x); }
                break;
            }
            case UNDO: {
                auto T0 = traj();
                const Mat61 d = s.xi * 2 + grid::tw(.3, -.2, .1, .5, .4, -.3);
                c.near("a step moves the last pose by its exponential", ref::dist(r.attempt(d), ref::M4(ref::exp6(d.cast<L>()) * T0.back())), 1e-11 * (1 + (double)ref::mabs(T0.back())));
                const Mat61 far = grid::tw(1.5, -1.9, 1.1, 20, -9, 14); // a step beyond any reasonable size
                c.near("a large step moves the last pose by its exponential", ref::dist(r.attempt(far), ref::M4(ref::exp6(far.cast<L>()) * T0.back())), 1e-11 * (30 + (double)ref::mabs(T0.back())));
                auto T1 = traj();
                c.req(T0.back() == T1.back(), "undoing a step restores the last pose");
                if (wasint && ref::ln6(T0.back()).head<3>().norm() < 3.1L) for (int t = 0; t < s.N; ++t) c.near("undoing a step restores every pose", ref::dist(T0[t], T1[t]), 1e-9 * (1 + (double)ref::mabs(T0.back())));
                interp = true;
                break;
            }
            case SPHER1: r.few(Optimizer::LEVENBERG_MARQUARDT_SPHER, 1, 1e-6); interp = true; break;
            case ELLIP3: r.few(Optimizer::LEVENBERG_MARQUARDT_ELLIP, 3, 1e-6); interp = true; break;
            }
            if (compare) for (int t = 0; t < s.N; ++t) c.near("first-order solvers take the documented steps", ref::dist(r.get_trajectory(t).T(), want[t]), 1e-7);
            if (op == RESET || op == REFILL) { desc.mom.setZero(); momknown = true; }
            if (twin && op != RESET && op != REFILL) again(*twin, op);
            if (!invariants(name[op])) return;
            if (op == RESET || op == REFILL) { twin.reset(new Reg); s.fill(*twin, curalt); }
            if ((op == SPHER || op == ELLIP || op == SPHER1 || op == ELLIP3) && wasint && !(lasterr <= e0 * (1 + 1e-9) + 1e-10)) VK_FAIL("%s raised the error from %.9g to %.9g", name[op], e0, lasterr);
            if (op == SETTRUE && s.noise == 0) c.near("the true trajectory has zero error", lasterr, 1e-9);
            if (op == EVAL && sincesolve >= 0) {
                std::vector<double> v = r.print_evaluate();
                c.req(v.size() == 13 && v[0] == s.K && v[1] == s.N && v[2] == s.total(), "evaluation reports the sizes");
                c.near("evaluation reports the error", std::fabs(v[6] - lasterr), 1e-9 * (1 + lasterr));
                if (iterknown0) c.req((int)v[3] == desc.iters, "evaluation reports the iterations");
                c.near("evaluation reports the error before solving", std::fabs(v[5] - before), 1e-9 * (1 + before));
                if (!invariants("evaluated")) return;
            }
        }
        ++c.traces;
    };
    std::vector<Mat61> xs = {grid::tw(.1, -.06, .08, .2, -.1, .06), grid::tw(0, 0, 0, .3, .2, -.1), grid::tw(-.2, .1, .3, -.3, .1, .2)};
    std::vector<Scene> scenes;
    for (int N = 2; N <= 4; ++N) for (int K = 3; K <= (c.thorough ? 5 : 4); ++K) {
        std::vector<int> miss = {0};
        int nb = K * N;
        for (int i = 0; i < nb; ++i) { miss.push_back(1 << i); if (N < 4 || c.thorough) for (int j = 0; j < i; ++j) miss.push_back(1 << i | 1 << j); }
        // poses from which nothing is seen: each one, and each pair (the first pose too)
        for (int t = 0; t < N; ++t) for (int u = 0; u <= t; ++u) {
            int m = 0;
            for (int k = 0; k < K; ++k) m |= 1 << (k * N + t) | 1 << (k * N + u);
            if (t == u || N > 3) miss.push_back(m);
        }
        for (size_t mi = 0; mi < miss.size(); ++mi) for (int same = 0; same < 2; ++same) {
            Scene s{K, N, miss[mi], (bool)same, 0, xs[(mi + N) % 3]};
            bool ok = true;
            for (int k = 0; k < K; ++k) { int n = 0; for (int t = 0; t < N; ++t) n += s.seen(k, t); ok = ok && n > 0; }
            // the alignment of means asserts three pairs; scenes with fewer are explored without initialisation
            if (!ok) continue;
            scenes.push_back(s);
            if (mi % 3 == 0) { s.noise = .05; scenes.push_back(s); }
        }
        // poses from which a single point is seen in total: each one, and each pair
        for (int t = 1; t < N; ++t) for (int u = 1; u <= t; ++u) for (int same = 0; same < 2; ++same) {
            Scene s{K, N, 0, (bool)same, .05, xs[(t + N) % 3]};
            s.single = 1 << t | 1 << u;
            scenes.push_back(s);
            s.noise = 0; s.xi = xs[t % 3]; scenes.push_back(s);
        }
    }
    // the means at one time lie on a line: the initialisation fails there
    for (int N = 2; N <= 4; ++N) for (int K = 3; K <= 4; ++K) for (int t = 0; t < N; ++t) for (int same = 0; same < 2; ++same) {
        Scene s{K, N, 0, (bool)same, .05, xs[(t + N) % 3]};
        s.line = 1 << t;
        scenes.push_back(s);
    }
    auto caninit = [](const Scene &s) { for (int t = 1; t < s.N; ++t) { int n = 0; for (int k = 0; k < s.K; ++k) n += s.seen(k, 0) && s.seen(k, t); if (n < 3) return false; } return true; };
    // (a) short sequences on every scene, (b) longer ones on a few
    auto key = [&](const Scene &s, const std::vector<int> &q) { std::string r = s.str() + ":"; for (int o : q) r += std::string(" ") + name[o] + ";"; return r; };
    for (size_t i = 0; i < scenes.size(); ++i)
        vk::sequences(NOPS, 2, [&](const std::vector<int> &q) {
            if (std::find(q.begin(), q.end(), (int)INIT) != q.end() && !caninit(scenes[i])) return false;
            c.each([&] { return key(scenes[i], q); }, [&] { run(scenes[i], q, i & 1); });
            return c.mine();
        });
    std::vector<Scene> few = {{4, 3, 0, true, 0, xs[0]}, {4, 3, 1 << 4, false, .05, xs[2]}, {3, 2, 0, false, 0, xs[2]}, {4, 4, 1 << 1, true, 0, xs[1]}};
    for (auto &s : few)
        vk::sequences(NOPS, c.thorough ? 4 : 3, [&](const std::vector<int> &q) {
            if (q.size() < 3) return true;
            for (size_t i = 1; i < q.size(); ++i) if (q[i] == q[i - 1] && (q[i] == RESET || q[i] == EVAL || q[i] == UNDO || q[i] == SETTRUE || q[i] == SETSMALL)) return false;
            c.each([&] { return key(s, q); }, [&] { run(s, q, false); });
            return c.mine();
        });
    // (f) a registration that served a scene of another size before; long trajectories
    std::vector<Scene> sizes = {{4, 3, 0, true, 0, xs[0]}, {3, 2, 0, false, .05, xs[2]}, {5, 5, 0, false, 0, xs[1]}, {4, 9, 0, false, .02, xs[0]}, {6, 20, 0, true, 0, xs[2]}, {7, 33, 0, false, 0, xs[0]}};
    for (auto &s : sizes) for (auto &e : sizes) for (int used = 0; used < 8; ++used)
        vk::sequences(NOPS, c.thorough && s.N < 10 ? 2 : 1, [&](const std::vector<int> &q) {
            if (q.empty()) return true;
            c.each([&] { return vk::fmt("after use %d of a registration of %d planes and %d poses: ", used, e.K, e.N) + key(s, q); }, [&] { run(s, q, used & 1, &e, used); });
            return c.mine();
        });
    // (e) first-order solvers with other step sizes, called directly
    for (auto &s : few) for (double alpha : {0.0, .1, 1.5, 6., 20., 60.}) for (double beta : {0.0, .5, .9})
        c.each([&] { return vk::fmt("first-order solvers with alpha %g and beta %g: ", alpha, beta) + s.str(); }, [&] {
            for (int mode = 0; mode < 3; ++mode) for (int set = 0; set < 2; ++set) {
                Reg r;
                s.fill(r, mode & 1);
                Descent d(s);
                d.alpha = alpha; d.beta = beta;
                if (set) { Mat61 x = s.xi * .5; SE3 l(x); r.set_last_pose(l); }
                r.set_alpha_parameter(alpha); r.set_beta_parameter(beta);
                std::vector<ref::M4> T;
                for (int t = 0; t < s.N; ++t) T.push_back(r.get_trajectory(t).T().cast<L>());
                for (int k = 0; k < 5; ++k) {
                    const bool single = k < 4;
                    ++c.transitions;
                    if (!d.solve(mode == 0 ? Descent::PLAIN : mode == 1 ? Descent::NAG : Descent::ALL, single, T)) break;
                    uint_t it;
                    if (mode == 0) { if (k == 0) r.solve(PlaneRegistration::GRADIENT); it = r.solve_interpolate_gradient(single); }
                    else if (mode == 1) { r.solve(PlaneRegistration::GRADIENT_BENGIOS_NAG, single); it = (uint_t)r.print_evaluate()[3]; }
                    else it = r.solve_gradient_all_poses(single);
                    c.req((int)it == d.iters, "number of iterations");
                    for (int t = 0; t < s.N; ++t) c.near("first-order solvers take the documented steps", ref::dist(r.get_trajectory(t).T(), T[t]), 1e-7);
                }
            }
            ++c.traces;
        });
    // (c) convergence: repeated second-order solves reach a zero-error trajectory
    // with few shared planes the first step may leave the basin of attraction (see DESIGN.md): fully observed scenes
    std::vector<Scene> full;
    for (int K = 4; K <= 5; ++K) for (int N = 2; N <= 5; ++N) for (auto &x : xs) for (int same = 0; same < 2; ++same) for (double sc : {.3, 1.}) full.push_back({K, N, 0, (bool)same, 0, Mat61(x * sc)});
    for (auto &s : full) for (int op : {(int)SPHER, (int)ELLIP, (int)GN}) {
        c.each([&] { return "convergence of " + std::string(name[op]) + ": " + s.str(); }, [&] {
            Reg r;
            s.fill(r, false);
            double e = r.get_current_error(), first = 0;
            for (int k = 0; k < 1000; ++k) { r.solve(op == SPHER ? PlaneRegistration::LM_SPHER : op == ELLIP ? PlaneRegistration::LM_ELLIP : PlaneRegistration::GN_HESSIAN); ++c.transitions; if (k == 0) first = r.get_current_error(); if (r.get_current_error() < 1e-12) break; }
            VK_REQ(first < e || first < 1e-9, "error after the first solve %.3g, initially %.3g", first, e);
            c.near("repeated solves reach zero error", r.get_current_error(), 1e-7);
            c.near("repeated solves reach the true motion", ref::dist(r.get_last_pose().T(), ref::exp6(s.xi.cast<L>())), 2e-2);
            ++c.traces;
        });
    }
    // (d) the gradient used by the second-order solvers is the derivative of the error with respect to the last
    // pose: exact for two poses, and for any number at the identity
    for (auto &s : scenes)
        c.each([&] { return "derivative of the error: " + s.str(); }, [&] {
            Reg r;
            s.fill(r, true);
            ref::M4 T = ref::M4::Identity();
            for (int k = 0; k < (s.N == 2 ? 3 : 1); ++k) {
                if (k) { Mat61 x = s.xi * (k == 1 ? .5 : -1.); SE3 l(x); r.set_last_pose(l); T = ref::exp6(x.cast<L>()); }
                MatX1 g = r.grad();
                for (int i = 0; i < 6; ++i) {
                    L d[2];
                    for (int q = 0; q < 2; ++q) {
                        ref::V6 x = ref::V6::Zero(); x(i) = (q ? 1 : -1) * 1e-5L;
                        ref::V6 l = ref::ln6(ref::exp6(x) * T);
                        std::vector<ref::M4> tr;
                        for (int t = 0; t < s.N; ++t) tr.push_back(ref::exp6(l * (L)t / (L)(s.N - 1)));
                        d[q] = s.error(tr);
                    }
                    c.near("gradient", std::fabs((double)((d[1] - d[0]) / 2e-5L - (L)g(i))), 1e-6);
                }
            }
            ++c.traces;
        });
    return c.finish();
}
