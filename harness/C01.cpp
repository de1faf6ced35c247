// C01: every sequence of calls on two time profilers up to a bounded depth, under a controlled clock.
#include "grids.hpp"
#include <chrono>
#include <iostream>
#include <sstream>
#include <mrob/time_profiling.hpp>
using namespace mrob;
static long long now_us = 0;
// the library's calls resolve to these definitions
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(std::chrono::microseconds(now_us)); }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::microseconds(now_us)); }
int main(int argc, char **argv)
{
    vk::Ctx c("C01", argc, argv);
    enum { ADV1, ADV2, ADV3, STARTA, STOPA, STOPAK, RESETA, STARTB, STOPB, COPY, PRINT, NOPS };
    const char *name[] = {"3 us pass", "1.7 ms pass", "60 days pass", "start A", "stop A", "stop A \"key\"", "reset A", "start B", "stop B", "B = A", "print A"};
    static const long long adv[] = {3, 1700, 5184000000000LL};
    struct Model { long long t1 = -1; std::vector<std::pair<std::string, long long>> e; double total() const { long long s = 0; for (auto &x : e) s += x.second; return (double)s; } };
    auto run = [&](const std::vector<int> &seq) {
        now_us = 1000000;
        TimeProfiling A, B;
        Model a, b;
        vk::Hash h;
        for (int op : seq) {
            ++c.transitions;
            switch (op) {
            case ADV1: case ADV2: case ADV3: now_us += adv[op]; break;
            case STARTA: A.start(); a.t1 = now_us; break;
            case STARTB: B.start(); b.t1 = now_us; break;
            case STOPA: A.stop(); a.e.push_back({"", now_us - a.t1}); break;
            case STOPAK: A.stop("key"); a.e.push_back({"key", now_us - a.t1}); break;
            case STOPB: B.stop("other"); b.e.push_back({"other", now_us - b.t1}); break;
            case RESETA: A.reset(); a.e.clear(); a.t1 = -1; break;
            case COPY: B = A; b = a; break;
            case PRINT: {
                std::ostringstream o;
                auto *old = std::cout.rdbuf(o.rdbuf());
                A.print();
                std::cout.rdbuf(old);
                size_t n = 0, k = 0;
                for (auto &x : a.e) k += x.first == "key";
                for (size_t p = o.str().find("key"); p != std::string::npos; p = o.str().find("key", p + 1)) ++n;
                c.req(n == k, "printing lists every interval");
                break;
            }
            }
            // twice: a query changes nothing
            for (int q = 0; q < 2; ++q) {
                c.near("the total is the sum of the measured intervals", std::fabs(A.total_time() - a.total()), 1e-9 * a.total());
                c.near("the total of another profiler", std::fabs(B.total_time() - b.total()), 1e-9 * b.total());
            }
            h.d(A.total_time()); h.d(B.total_time());
        }
        c.state(h.i(a.t1).i(b.t1).i(now_us).h);
        ++c.traces;
    };
    vk::sequences(NOPS, c.thorough ? 8 : 6, [&](const std::vector<int> &s) {
        if (s.empty()) return true;
        // an interval is measured from a start on; time passes at once
        bool a = false, b = false;
        for (size_t i = 0; i < s.size(); ++i) {
            if (i && s[i] <= ADV3 && s[i - 1] <= ADV3) return false;
            if (i && s[i] == s[i - 1] && s[i] >= RESETA && s[i] != STOPB) return false;
            if ((s[i] == STOPA || s[i] == STOPAK) && !a) return false;
            if (s[i] == STOPB && !b) return false;
            if (s[i] == STARTA) a = true;
            if (s[i] == RESETA) a = false;
            if (s[i] == STARTB) b = true;
            if (s[i] == COPY) b = a;
        }
        c.each([&] { std::string r; for (int o : s) r += std::string(r.empty() ? "" : "; ") + name[o]; return r; }, [&] { run(s); });
        return c.mine();
    });
    // many intervals
    for (int n : {10, 100, 255, 256, 257, 1000, 4097, 70000}) for (int re = 0; re < 3; ++re)
        c.each([&] { return vk::fmt("%d intervals, started %d", n, re); }, [&] {
            now_us = 5;
            TimeProfiling A;
            long long total = 0;
            for (int rep = 0; rep < 2; ++rep) {
                A.reset();
                c.req(A.total_time() == 0, "a reset profiler has no time");
                total = 0;
                long long t1 = now_us;
                A.start();
                for (int i = 0; i < n; ++i) {
                    if (re == 1 || (re == 2 && i % 3 == 0)) { A.start(); t1 = now_us; }
                    now_us += (i * 7919LL) % 10007;
                    A.stop(std::to_string(i % 10));
                    total += now_us - t1;
                    ++c.transitions;
                }
                c.near("the total is the sum of the measured intervals", std::fabs(A.total_time() - (double)total), 1e-9 * total);
            }
            ++c.traces;
        });
    return c.finish();
}
