// P06: synthetic scenes for every small size under a controlled clock (the generators are seeded from it).
#include "grids.hpp"
#include <chrono>
#include <algorithm>
#include <mrob/create_points.hpp>
using namespace mrob;
using ref::L;
static long long now_ns = 1, now_step = 1;
// the library's calls resolve to this definition
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{
    now_ns += now_step;
    return time_point(duration(now_ns));
}
int main(int argc, char **argv)
{
    vk::Ctx c("P06", argc, argv);
    {
        now_ns = 41; now_step = 1;
        VK_REQ(std::chrono::system_clock::now().time_since_epoch().count() == 42, "the clock is not controlled");
        CreatePoints p(1, 1, 1, 0, 0);
        if (now_ns == 42) { fprintf(stderr, "the library does not read the controlled clock\n"); }
    }
    auto check = [&](int np, int nl, int nt, long long seed, long long step, double bias) {
        auto mk = [&] { now_ns = seed; now_step = step; return std::unique_ptr<CreatePoints>(new CreatePoints(np, nl, nt, 0.0, bias)); };
        auto s = mk();
        c.req(s->get_number_planes() == (uint_t)nl && s->get_number_poses() == (uint_t)nt, "number of planes and poses");
        auto gt = s->get_ground_truth_trajectory();
        c.req((int)gt.size() == nt && (int)s->get_plane_poses().size() == nl && (int)s->get_all_planes().size() == nl, "sizes of the scene");
        c.req(gt[0].T() == Mat4::Identity() || ref::dist(gt[0].T(), ref::M4(ref::M4::Identity())) < 1e-15, "the trajectory starts at the identity");
        c.req(s->get_ground_truth_last_pose().T() == gt.back().T(), "last pose");
        ref::V6 l = ref::ln6(gt.back().T().cast<L>());
        double turn = (double)l.head<3>().norm();
        for (int t = 0; t < nt; ++t) {
            c.near("poses are rigid motions", (double)ref::se3_defect(gt[t].T().cast<L>()), 1e-12);
            c.req(s->get_ground_truth_pose(t).T() == gt[t].T(), "ground truth pose by index");
            if (nt > 1 && turn < 3.13) c.near("the trajectory interpolates to the last pose", ref::dist(gt[t].T(), ref::exp6(l * (L)t / (L)(nt - 1))), 1e-9);
        }
        vk::Hash h;
        for (auto &p : s->get_plane_poses()) c.near("plane poses are rigid motions", (double)ref::se3_defect(p.T().cast<L>()), 1e-12);
        for (int k = 0; k < nl; ++k) c.req(s->get_all_planes()[k].first == (uint_t)k, "planes are listed by id");
        int prev;
        for (int t = 0; t < nt; ++t) {
            auto &X = s->get_point_cloud(t);
            auto &id = s->get_point_plane_ids(t);
            c.req((int)X.size() == np && (int)id.size() == np, "number of points and labels at every time");
            std::vector<std::vector<Mat31>> by(nl);
            std::vector<ref::V3> loc;
            for (int i = 0; i < np; ++i) {
                c.req(id[i] < (uint_t)nl, "labels are plane ids");
                ref::V4 q; q << X[i].cast<L>(), 1;
                q = ref::inv4(s->get_plane_poses()[id[i]].T().cast<L>()) * (gt[t].T().cast<L>() * q);
                c.near("points lie on the plane they are labelled with", std::fabs((double)q(2)), 1e-12);
                if (bias == 0) c.req(std::fabs((double)q(0)) <= 1 + 1e-9 && std::fabs((double)q(1)) <= 1 + 1e-9, "points lie on the patch of their plane");
                by[id[i]].push_back(X[i]);
                h.m(X[i]);
            }
            for (int k = 0; k < nl; ++k) {
                c.req(s->get_all_planes()[k].second->get_points(t) == by[k], "planes hold the points labelled with them");
                // every plane is observed when there are enough points
                if (np >= nl) c.req(!by[k].empty(), "every plane is observed");
                if (nl > 0) c.req(std::fabs((double)by[k].size() - (double)np / nl) <= 1.0001, "points are shared evenly among the planes");
            }
        }
        (void)prev;
        c.outcome(h.h);
        // the same clock gives the same scene
        auto s2 = mk();
        for (int t = 0; t < nt; ++t) c.req(s2->get_point_cloud(t) == s->get_point_cloud(t) && s2->get_ground_truth_pose(t).T() == gt[t].T(), "the scene is a function of the clock");
        s2.reset();
        s->print();
        // hand-over, into a fresh registration and into one that held another scene
        PlaneRegistration reg;
        const int held = (int)((np + nl + nt + seed % 6) % 4);
        if (held) {
            now_ns = seed + 99;
            CreatePoints other(np + 3, held == 1 ? nl + 1 : held == 2 ? nl : std::max(1, nl - 1), held == 1 ? nt + 2 : held == 2 ? nt : std::max(1, nt - 1), .1, .1);
            other.create_plane_registration(reg);
            SE3 away(other.get_ground_truth_last_pose());
            if (reg.get_number_poses() > 1) reg.set_last_pose(away);
            reg.get_current_error();
        }
        s->create_plane_registration(reg);
        c.req(reg.get_number_planes() == (uint_t)nl && reg.get_number_poses() == (uint_t)nt, "registration has the planes and poses of the scene");
        c.req(reg.calculate_total_number_points() == (uint_t)(np * nt), "registration holds every point");
        c.req((int)reg.get_all_planes().size() == nl, "registration holds every plane");
        for (int k = 0; k < nl; ++k) for (int t = 0; t < nt; ++t) {
            std::vector<Mat31> by;
            for (int i = 0; i < np; ++i) if (s->get_point_plane_ids(t)[i] == (uint_t)k) by.push_back(s->get_point_cloud(t)[i]);
            c.req(reg.get_all_planes().at(k)->get_points(t) == by, "registration labels the points as the scene does");
        }
        auto lt = [](const Mat31 &x, const Mat31 &y) { return std::lexicographical_compare(x.data(), x.data() + 3, y.data(), y.data() + 3); };
        for (int t = 0; t < nt; ++t) {
            c.req(reg.get_trajectory(t).T() == Mat4::Identity(), "registration starts from the identity");
            auto a = reg.get_point_cloud(t), b = s->get_point_cloud(t);
            std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
            c.req(a == b, "registration returns the points of the scene");
        }
        double e0 = reg.get_current_error();
        SE3 last = s->get_ground_truth_last_pose();
        if (nt > 1) {
            reg.set_last_pose(last);
            // at exactly half a turn the interpolation may take the other way round
            if (turn < 3.13) {
                for (int t = 0; t < nt; ++t) c.near("registration interpolates to the ground truth", ref::dist(reg.get_trajectory(t).T(), gt[t].T()), 1e-9);
                c.near("ground truth has zero error", std::fabs(reg.get_current_error()), 1e-12 * (1 + np * nt * 50));
                c.near("rmse of the ground truth is zero", reg.calculate_poses_rmse(gt), 1e-7);
            }
            reg.reset_solution();
            c.near("the scene survives a reset", std::fabs(reg.get_current_error() - e0), 1e-12 * (1 + np * nt * 50));
        }
        ++c.traces;
    };
    std::vector<int> nps = c.thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 23, 31, 50, 64, 97, 100} : std::vector<int>{0, 1, 2, 3, 5, 7, 10, 12, 13, 31};
    int maxl = c.thorough ? 13 : 7, maxt = c.thorough ? 8 : 5, seeds = c.thorough ? 16 : 12;
    for (int np : nps) for (int nl = 1; nl <= maxl; ++nl) for (int nt = 1; nt <= maxt; ++nt)
        for (int sd = 0; sd < seeds; ++sd) for (double bias : {0., .1}) {
            long long seed = sd < 6 ? sd : 1600000000000000000ll + 1234567891011ll * sd * sd, step = sd % 2 ? 137 : 0;
            c.each([&] { return vk::fmt("%d points, %d planes, %d poses, clock %lld step %lld, bias %g", np, nl, nt, seed, step, bias); }, [&] { check(np, nl, nt, seed, step, bias); });
        }
    for (int np : {1000, 4999}) for (int nl : {1, 3, 97, 640}) for (int sd = 0; sd < 4; ++sd)
        c.each([&] { return vk::fmt("%d points, %d planes, seed %d", np, nl, sd); }, [&] { check(np, nl, 3, 7 + sd, 5, 0); });
    // a cloud large enough for the labels to exceed the integers a float can hold
    for (int nl : c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{1})
        c.each([&] { return vk::fmt("%d points, %d planes, 1 pose", 1 << 25, nl); }, [&] {
            c.slow(6);
            const int np = 1 << 25;
            now_ns = 3; now_step = 5;
            CreatePoints s(np, nl, 1, 0, 0);
            auto &X = s.get_point_cloud(0);
            auto &id = s.get_point_plane_ids(0);
            c.req((int)X.size() == np && (int)id.size() == np, "number of points and labels of a large cloud");
            std::vector<int> n(nl, 0);
            for (int i = 0; i < np; ++i) { VK_REQ(id[i] < (uint_t)nl, "label %u of point %d of %d is not a plane id", (unsigned)id[i], i, np); ++n[id[i]]; }
            for (int k = 0; k < nl; ++k) {
                c.req(std::fabs(n[k] - (double)np / nl) <= 1.0001, "points of a large cloud are shared evenly among the planes");
                c.req((int)s.get_all_planes()[k].second->get_points(0).size() == n[k], "planes hold the points of a large cloud");
            }
            for (int i = 0; i < np; i += i < 1000 || i > np - 1000 ? 1 : 997) {
                ref::V4 q; q << X[i].cast<L>(), 1;
                q = ref::inv4(s.get_plane_poses()[id[i]].T().cast<L>()) * (s.get_ground_truth_pose(0).T().cast<L>() * q);
                c.near("points of a large cloud lie on the plane they are labelled with", std::fabs((double)q(2)), 1e-12);
            }
            ++c.traces;
        });
    // the samplers on their own: within the requested range for every clock
    for (int sd = 0; sd < (c.thorough ? 2000 : 400); ++sd)
        c.each([&] { return vk::fmt("samplers, clock %d", sd); }, [&] {
            for (double R : {0., .1, 1., 3.}) for (double t : {0., .5, 4.}) {
                now_ns = sd * 1000003ll;
                SampleUniformSE3 s(R, t);
                for (int k = 0; k < 5; ++k) {
                    SE3 T = s.samplePose();
                    c.near("sampled poses are rigid motions", (double)ref::se3_defect(T.T().cast<L>()), 1e-12);
                    ref::V6 l = ref::ln6(T.T().cast<L>());
                    if (R <= 1) { c.req((double)l.head<3>().cwiseAbs().maxCoeff() <= R + 1e-9, "rotation within the range"); c.req((double)l.tail<3>().cwiseAbs().maxCoeff() <= t + 1e-9, "translation within the range"); }
                    c.req(s.samplePosition().cwiseAbs().maxCoeff() <= t, "positions within the range");
                    SO3 Q = s.sampleOrientation();
                    c.near("sampled orientations are rotations", (double)ref::so3_defect(Q.R().cast<L>()), 1e-12);
                    if (R <= 1) c.req((double)ref::ln3(Q.R().cast<L>()).cwiseAbs().maxCoeff() <= R + 1e-9, "orientation within the range");
                }
                if (R > 0 && t > 0) {
                    SampleUniformSE3 r(R * .5, R, t * .5, t);
                    Mat31 p = r.samplePosition();
                    c.req(p.minCoeff() >= t * .5 && p.maxCoeff() <= t, "positions within an asymmetric range");
                    SO3 Q = r.sampleOrientation();
                    if (R <= 1) { ref::V3 w = ref::ln3(Q.R().cast<L>()); c.req((double)w.minCoeff() >= R * .5 - 1e-9 && (double)w.maxCoeff() <= R + 1e-9, "orientation within an asymmetric range"); }
                }
            }
        });
    return c.finish();
}
