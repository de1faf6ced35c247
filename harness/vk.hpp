// Bounded-exhaustive exploration kernel.  A harness enumerates cases; each case drives the real
// library and compares it with a reference model.  Cases are numbered in enumeration order, so a
// single case can be replayed with --only <n>, and shards take every n-th case.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <iostream>
#include <functional>
#include <set>
#include <streambuf>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vk {

struct Fail : std::exception {
    std::string m;
    explicit Fail(std::string s) : m(std::move(s)) {}
    const char *what() const noexcept override { return m.c_str(); }
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
#define VK_FAIL(...) throw vk::Fail(vk::fmt(__VA_ARGS__))
#define VK_REQ(c, ...) do { if (!(c)) VK_FAIL(__VA_ARGS__); } while (0)

struct NullBuf : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
struct Hash { // hash of values rounded so that equal states hash equally; collisions only lower the count
    uint64_t h = 1469598103934665603ull;
    Hash &i(int64_t v) { h = mix(h, (uint64_t)v); return *this; }
    Hash &d(double v)
    {
        if (std::isnan(v)) return i(-7777);
        if (std::fabs(v) < 1e-7) v = 0; // avoids the sign of zero
        float f = (float)(v);
        double r = std::fabs(f) < 1e6 ? std::round(v * 1e5) : (double)f;
        return i((int64_t)std::fmax(-9e18, std::fmin(9e18, r)));
    }
    template <class M> Hash &m(const M &x)
    {
        for (int r = 0; r < (int)x.rows(); ++r) for (int c = 0; c < (int)x.cols(); ++c) d((double)x(r, c));
        return *this;
    }
    Hash &s(const std::string &x) { for (char c : x) i(c); return *this; }
};

// seen by run_check.py, which ends a shard that stays in one case for too long.  (No timer signal in
// the process: on some virtual machines the delivery of a signal disturbs the floating-point state.)
struct Shared { volatile uint64_t idx, running; };

class Ctx {
public:
    uint64_t shard = 0, nshard = 1;
    long long only = -1, upto = -1;
    bool thorough = false, list = false;
    std::string id, out;
    uint64_t idx = 0, cases = 0, execs = 0, evals = 0, transitions = 0, traces = 0;
    int maxviol = 5;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::set<std::string> known, known_hit;
    struct V { uint64_t idx; std::string key, msg; };
    std::vector<V> viols;
    Shared *sh = nullptr;
    bool stop = false;
    // largest observed error / tolerance quotient by label, for calibration
    std::vector<std::pair<std::string, std::pair<double, std::string>>> worst;
    std::string curkey;

    static Ctx *&self() { static Ctx *c = nullptr; return c; }
    Ctx(const char *id_, int argc, char **argv) : id(id_)
    {
        self() = this;
        std::string prog;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : "0"); };
            if (a == "--shard") { std::string v = nx(); shard = strtoull(v.c_str(), 0, 10); nshard = strtoull(v.c_str() + v.find('/') + 1, 0, 10); }
            else if (a == "--only") only = atoll(nx().c_str());
            else if (a == "--upto") upto = atoll(nx().c_str());
            else if (a == "--thorough") thorough = true;
            else if (a == "--out") out = nx();
            else if (a == "--progress") prog = nx();
            else if (a == "--known") known.insert(nx());
            else if (a == "--list") list = true;
            else if (a == "--maxviol") maxviol = atoi(nx().c_str());
        }
        void *p;
        if (!prog.empty()) {
            int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) _exit(3);
            p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        } else p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        sh = (Shared *)p;
        static NullBuf &nb = *new NullBuf; // outlives the stream
        if (!list) std::cout.rdbuf(&nb);
    }

    template <class K, class B> void each(K key, B body)
    {
        uint64_t me = idx++;
        if (stop) return;
        if (only >= 0) { if (me != (uint64_t)only) return; }
        else if (me % nshard != shard) return;
        if (upto >= 0 && me > (uint64_t)upto) { stop = true; return; }
        ++cases;
        if (list) { printf("%llu %s\n", (unsigned long long)me, key().c_str()); return; }
        sh->idx = me;
        sh->running = 1;
        std::string msg;
        bool bad = false;
        try { body(); }
        catch (const Fail &f) { bad = true; msg = f.m; }
        catch (const std::exception &e) { bad = true; msg = std::string("unexpected exception: ") + e.what(); }
        sh->running = 0;
        if (samples.size() < 3 && (cases == 1 || cases == 50 || cases == 1000)) samples.push_back(key());
        if (bad) {
            std::string k = key();
            if (known.count(k)) { known_hit.insert(k); return; }
            viols.push_back({me, k, msg});
            if ((int)viols.size() >= maxviol) stop = true;
        }
    }
    void slow(int factor) { sh->running = factor; } // the current case may take that many times longer
    bool mine() const { return !stop; }
    void state(uint64_t h) { states.insert(h); }
    void outcome(uint64_t h) { ++execs; outcomes.insert(h); } // one per execution examined
    // check |err| <= tol and remember the worst quotient
    void near(const char *label, double err, double tol)
    {
        ++evals;
        double q = err / tol;
        bool found = false;
        for (auto &w : worst) if (w.first == label) { found = true; if (!(q <= w.second.first)) { w.second.first = q; w.second.second = fmt("case %llu err %.3g", (unsigned long long)sh->idx, err); } break; }
        if (!found) worst.push_back({label, {q, fmt("case %llu err %.3g", (unsigned long long)sh->idx, err)}});
        if (!(err <= tol)) VK_FAIL("%s: error %.6g exceeds %.6g", label, err, tol);
    }
    void req(bool c, const char *label)
    {
        ++evals;
        if (!c) VK_FAIL("%s", label);
    }

    static std::string js(const std::string &s)
    {
        std::string r = "\"";
        for (char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if ((unsigned char)c < 32) r += fmt("\\u%04x", c);
            else r += c;
        }
        return r + "\"";
    }
    int finish()
    {
        sh->running = 0;
        if (list) return 0;
        std::string j = "{";
        j += fmt("\"cases\":%llu,\"execs\":%llu,\"total\":%llu,\"evals\":%llu,\"transitions\":%llu,\"traces\":%llu,\"stopped\":%s",
                 (unsigned long long)cases, (unsigned long long)execs, (unsigned long long)idx, (unsigned long long)evals, (unsigned long long)transitions,
                 (unsigned long long)traces, stop ? "true" : "false");
        j += ",\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) j += (i ? "," : "") + js(samples[i]);
        j += "],\"known\":[";
        bool first = true;
        for (auto &k : known_hit) { j += (first ? "" : ",") + js(k); first = false; }
        j += "],\"worst\":{";
        for (size_t i = 0; i < worst.size(); ++i) j += (i ? "," : "") + js(worst[i].first) + fmt(":[%.6g,", std::isfinite(worst[i].second.first) ? worst[i].second.first : 1e300) + js(worst[i].second.second) + "]";
        j += "},\"violations\":[";
        for (size_t i = 0; i < viols.size(); ++i)
            j += (i ? "," : "") + fmt("{\"idx\":%llu,\"key\":", (unsigned long long)viols[i].idx) + js(viols[i].key) + ",\"msg\":" + js(viols[i].msg) + "}";
        j += "]}";
        if (!out.empty()) {
            dump(out + ".st", states);
            dump(out + ".oc", outcomes);
            FILE *f = fopen((out + ".tmp").c_str(), "w");
            if (!f) return 3;
            fputs(j.c_str(), f);
            if (fclose(f)) return 3;
            rename((out + ".tmp").c_str(), out.c_str());
        } else printf("%s\nstates %zu outcomes %zu\n", j.c_str(), states.size(), outcomes.size());
        fflush(stdout);
        return viols.empty() ? 0 : 1;
    }
private:
    static void dump(const std::string &n, const std::unordered_set<uint64_t> &s)
    {
        FILE *f = fopen(n.c_str(), "wb");
        if (!f) return;
        std::vector<uint64_t> v(s.begin(), s.end());
        if (!v.empty()) fwrite(v.data(), 8, v.size(), f);
        fclose(f);
    }
};

// every sequence over an alphabet of size k of length 0..depth (or exactly depth); visit may prune by
// returning false (the sequence is not extended)
inline void sequences(int k, int depth, const std::function<bool(const std::vector<int> &)> &visit)
{
    std::vector<int> s;
    std::function<void()> rec = [&]() {
        if (!visit(s)) return;
        if ((int)s.size() == depth) return;
        for (int i = 0; i < k; ++i) { s.push_back(i); rec(); s.pop_back(); }
    };
    rec();
}
inline void permutations(int n, const std::function<void(const std::vector<int> &)> &visit)
{
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    do visit(p); while (std::next_permutation(p.begin(), p.end()));
}
inline std::string str(const std::vector<int> &v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s;
}
} // namespace vk
