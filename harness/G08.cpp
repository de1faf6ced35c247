// G08: every sequence of covariance compoundings; reference = the basis-free forms of the second and
// fourth order formulas (sums over ad(e_i)), extended precision.
#include "grids.hpp"
#include <mrob/SE3cov.hpp>
using namespace mrob;
using ref::L;
struct Model { ref::M4 T; ref::M6 S; };
static ref::M6 sum2(const ref::M6 &S)
{
    ref::M6 r = ref::M6::Zero();
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
        ref::V6 a = ref::V6::Zero(), b = a; a(i) = 1; b(j) = 1;
        r += S(i, j) * ref::ad(a) * ref::ad(b);
    }
    return r;
}
static Model comp(const Model &a, const Model &b, bool fourth)
{
    ref::M6 Ad = ref::Adj(a.T), S2 = Ad * b.S * Ad.transpose();
    Model r{a.T * b.T, a.S + S2};
    if (fourth) {
        ref::M6 A1 = sum2(a.S), A2 = sum2(S2), B = ref::M6::Zero();
        for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
            ref::V6 x = ref::V6::Zero(), y = x; x(i) = 1; y(j) = 1;
            B += a.S(i, j) * ref::ad(x) * S2 * ref::ad(y).transpose();
        }
        r.S += (A1 * S2 + S2 * A1.transpose() + A2 * a.S + a.S * A2.transpose()) / 12 + B / 4;
    }
    return r;
}
int main(int argc, char **argv)
{
    vk::Ctx c("G08", argc, argv);
    std::vector<Mat61> poses = {grid::tw(0, 0, 0, 0, 0, 0), grid::tw(.1, -.2, .3, 1, 2, -3), grid::tw(1, 2, -.5, -20, 5, 7), grid::tw(0, 0, 1.5, 100, 0, 0), grid::tw(grid::PI, 0, 0, 0, 1, .01)};
    std::vector<Mat6> covs;
    covs.push_back(Mat6::Zero());
    covs.push_back(Mat6::Identity() * 1e-2);
    { Mat61 d; d << 1e-4, 2e-2, 3e-3, .5, 1e-3, 2; covs.push_back(Mat6(d.asDiagonal())); }
    for (int k = 0; k < 3; ++k) { // correlated, generic
        Mat6 A;
        for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) A(i, j) = std::sin(1.3 * i + 2.1 * j * (k + 1) + k) * (i < 3 ? .1 : .7);
        covs.push_back(A * A.transpose());
    }
    { Mat61 v; v << .1, -.2, .05, .3, 1, -2; covs.push_back(v * v.transpose()); } // rank one
    { Mat6 S = Mat6::Zero(); S(0, 0) = .2; S(4, 4) = .3; S(0, 4) = S(4, 0) = .1; covs.push_back(S); } // a single rotation-translation correlation
    for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) { Mat6 S = Mat6::Identity() * .02; S(i, i) = S(j, j) = .3; S(i, j) = S(j, i) = -.25; covs.push_back(S); }
    for (int k : {1, 5, 6, 7, 12}) for (double q : {1e-3, 1e-6, 1e-9}) covs.push_back(Mat6(covs[k] * q));
    // size of the terms a compounding adds up
    auto scal = [](const Model &a, const Model &b) { ref::M6 Ad = ref::Adj(a.T).cwiseAbs(); return (double)ref::mabs(a.S) + (double)ref::mabs(ref::M6(Ad * b.S.cwiseAbs() * Ad.transpose())); };
    auto inc = [&](int k) { return std::make_pair(poses[1 + k % 4], covs[k % covs.size()]); };
    int nops = 2 * 6;
    int depth = c.thorough ? 6 : 4;
    auto same = [](const SE3Cov &a, const SE3Cov &b) { return ref::dist(a.cov(), b.cov()) == 0 && ref::dist(a.T(), b.T()) == 0; };
    for (size_t p = 0; p < poses.size(); ++p) for (size_t s = 0; s < covs.size(); ++s) for (size_t p2 = 0; p2 < poses.size(); ++p2) for (size_t s2 = 0; s2 < covs.size(); ++s2)
        c.each([&] { return vk::fmt("pose %zu cov %zu (+) pose %zu cov %zu", p, s, p2, s2); }, [&] {
            SE3 ta(poses[p]), tb(poses[p2]); SE3Cov a(ta, covs[s]), b(tb, covs[s2]);
            Model ma{a.T().cast<L>(), covs[s].cast<L>()}, mb{b.T().cast<L>(), covs[s2].cast<L>()};
            for (int f = 0; f < 2; ++f) {
                Model m = comp(ma, mb, f);
                SE3Cov r = f ? a.compound_4th_order(b) : a.compound_2nd_order(b);
                double sc = scal(ma, mb) + ref::mabs(m.S) + 1e-300, sp = 1 + (double)m.T.topRightCorner<3, 1>().norm();
                c.near(f ? "4th order covariance" : "2nd order covariance", ref::dist(r.cov(), m.S), 1e-12 * sc);
                c.near("pose composed", ref::dist(r.T(), m.T), 1e-13 * sp);
                c.near("covariance symmetric", ref::dist(r.cov(), r.cov().transpose()), 1e-12 * sc);
                SE3Cov r2 = f ? a.compound_4th_order(SE3(poses[p2]), covs[s2]) : a.compound_2nd_order(SE3(poses[p2]), covs[s2]);
                c.near("pose-plus-covariance form agrees (cov)", ref::dist(r2.cov(), r.cov()), 1e-13 * sc);
                c.near("pose-plus-covariance form agrees (pose)", ref::dist(r2.T(), r.T()), 1e-13 * sp);
                if (!f) {
                    SE3Cov r3 = a * b, r4 = a.mul(b);
                    c.near("operator* agrees (cov)", ref::dist(r3.cov(), r.cov()), 1e-13 * sc);
                    c.near("operator* agrees (pose)", ref::dist(r3.T(), r.T()), 1e-13 * sp);
                    c.near("mul agrees (cov)", ref::dist(r4.cov(), r.cov()), 1e-13 * sc);
                    c.near("mul agrees (pose)", ref::dist(r4.T(), r.T()), 1e-13 * sp);
                }
                c.transitions += f ? 2 : 4; ++c.traces;
                c.outcome(vk::Hash().m(r.cov()).h);
            }
            c.req(same(a, SE3Cov(SE3(poses[p]), covs[s])) && same(b, SE3Cov(SE3(poses[p2]), covs[s2])), "operands unchanged");
            if (p == p2 && s == s2) { // same object on both sides
                c.req(same(a.compound_4th_order(a), a.compound_4th_order(b)), "compounding with itself, fourth order");
                c.req(same(a * a, a * b), "compounding with itself, second order");
            }
            SE3Cov d(b);
            c.req(same(d, b), "copies are equal");
            c.state(vk::Hash().i(p).i(s).i(p2).i(s2).h);
        });
    // chains
    for (size_t p = 0; p < poses.size(); ++p) for (int f = 0; f < nops; ++f) for (int g = 0; g < nops; ++g)
        c.each([&] { return vk::fmt("chain from pose %zu starting with ops %d %d", p, f, g); }, [&] {
            std::vector<int> seq;
            std::function<void(const SE3Cov &, const Model &)> rec = [&](const SE3Cov &x, const Model &m) {
                if ((int)seq.size() == depth) return;
                for (int o = 0; o < nops; ++o) {
                    if (seq.size() == 0 && o != f) continue;
                    if (seq.size() == 1 && o != g) continue;
                    auto in = inc(o / 2);
                    Model mi{SE3(in.first).T().cast<L>(), in.second.cast<L>()};
                    SE3 tin(in.first); SE3Cov b(tin, in.second);
                    SE3Cov y = (o & 1) ? x.compound_4th_order(b) : x * b;
                    Model mm = comp(m, mi, o & 1);
                    seq.push_back(o);
                    ++c.transitions; ++c.traces;
                    double sc = 1 + ref::mabs(mm.S), sp = 1 + (double)mm.T.topRightCorner<3, 1>().norm();
                    c.near("chain covariance", ref::dist(y.cov(), mm.S), 1e-10 * sc);
                    c.near("chain pose", ref::dist(y.T(), mm.T), 1e-12 * sp);
                    c.state(vk::Hash().i(p).m(mm.T).m(mm.S).h);
                    rec(y, mm);
                    seq.pop_back();
                }
            };
            Model m0{SE3(poses[p]).T().cast<L>(), covs[3].cast<L>()};
            rec(SE3Cov(SE3(poses[p]), covs[3]), m0);
        });
    c.each([] { return std::string("default element"); }, [&] {
        SE3Cov e;
        c.near("default pose", ref::dist(e.T(), Mat4::Identity()), 1e-300);
        SE3 t1(poses[1]); SE3Cov b(t1, covs[3]);
        c.req(same(SE3Cov(SE3(), Mat6::Zero()).compound_2nd_order(b), b), "identity with zero covariance is neutral");
    });
    return c.finish();
}
