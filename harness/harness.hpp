// Common machinery of the conformance drivers.
//
// A driver is a program that executes many short histories ("cases") against the
// real library code and writes one ndjson event per public call (name, arguments,
// projected result).  Every case runs in its own forked child, so an abort, a
// failed assertion, a sanitizer report or an endless loop becomes an event of the
// trace ("Crash") instead of ending the driver.
//
//   driver --seed S --shard I --shards N --cases K --out FILE [--only CASE] [--tier quick|thorough]
//
#ifndef VERIF_HARNESS_HPP
#define VERIF_HARNESS_HPP
#include "/repo/src/core.hpp"
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <functional>

namespace vh {

// ------------------------------------------------------------------ numbers
// Numbers are logged as integers: round(x * scale), clamped well inside TLC's
// 32-bit range; infinities and NaN have codes of their own.
constexpr long BIG = 1000000000L, PINF = 1000000001L, NINF = -1000000001L, NANC = 1000000002L;
inline long fix(double x, double scale) {
    if (std::isnan(x)) return NANC;
    if (std::isinf(x)) return x > 0 ? PINF : NINF;
    double v = std::nearbyint(x * scale);
    if (v > (double)BIG) return BIG;
    if (v < -(double)BIG) return -BIG;
    return (long)v;
}

// ------------------------------------------------------------------ rng
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    long range(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); }  // inclusive
    bool coin(int num = 1, int den = 2) { return (long)(next() % den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double gauss() { double s_ = 0; for (int i = 0; i < 12; i++) s_ += unit(); return s_ - 6; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

// ------------------------------------------------------------------ output
inline int& out_fd() { static int fd = -1; return fd; }
inline void emit(const std::string& line) {
    std::string s = line + "\n";
    const char* p = s.data(); size_t n = s.size();
    while (n) { ssize_t w = ::write(out_fd(), p, n); if (w <= 0) _exit(99); p += w; n -= w; }
}

struct Ev {
    std::string s;
    explicit Ev(const char* name) { s = std::string("{\"e\":\"") + name + "\""; }
    Ev& key(const char* k) { s += ",\""; s += k; s += "\":"; return *this; }
    Ev& i(const char* k, long v) { key(k); s += std::to_string(v); return *this; }
    Ev& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    static std::string esc(const std::string& v) {
        std::string r; for (unsigned char c : v) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        } return r;
    }
    Ev& str(const char* k, const std::string& v) { key(k); s += "\"" + esc(v) + "\""; return *this; }
    Ev& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
    Ev& x(const char* k, double v, double scale) { return i(k, fix(v, scale)); }
    template <class V> static std::string jvec(const V& v, double scale) {
        std::string r = "["; for (long i = 0; i < (long)v.size(); i++) { if (i) r += ","; r += std::to_string(fix((double)v(i), scale)); } return r + "]";
    }
    template <class Mt> static std::string jmat(const Mt& m, double scale) {
        std::string r = "["; for (long i = 0; i < (long)m.rows(); i++) { if (i) r += ","; r += "[";
            for (long j = 0; j < (long)m.cols(); j++) { if (j) r += ","; r += std::to_string(fix((double)m(i, j), scale)); } r += "]"; } return r + "]";
    }
    template <class T> static std::string jstd(const std::vector<T>& v, double scale = 1) {
        std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(fix((double)v[i], scale)); } return r + "]";
    }
    template <class T> static std::string jstd2(const std::vector<std::vector<T>>& v, double scale = 1) {
        std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += jstd(v[i], scale); } return r + "]";
    }
    template <class V> Ev& vec(const char* k, const V& v, double scale = 1) { return raw(k, jvec(v, scale)); }
    template <class Mt> Ev& mat(const char* k, const Mt& m, double scale = 1) { return raw(k, jmat(m, scale)); }
    template <class T> Ev& sv(const char* k, const std::vector<T>& v, double scale = 1) { return raw(k, jstd(v, scale)); }
    template <class T> Ev& sv2(const char* k, const std::vector<std::vector<T>>& v, double scale = 1) { return raw(k, jstd2(v, scale)); }
    void end() { emit(s + "}"); }
};

// Runs f, which must emit its own event; an exception becomes an event of kind `name`
// with ok=false, so that every call leaves exactly one line.
template <class F> bool guarded(const char* name, F f) {
    try { f(); return true; }
    catch (const std::exception& ex) { Ev(name).b("ok", false).str("what", ex.what()).end(); }
    catch (...) { Ev(name).b("ok", false).str("what", "?").end(); }
    return false;
}

struct Opt { uint64_t seed = 1; long shard = 0, shards = 1, cases = 10, only = -1; std::string out = "/dev/null", mode = "", script = "", dir = "."; bool thorough = false; };

// case body: (rng, case index, options)
using Body = std::function<void(Rng&, long, const Opt&)>;

inline Opt parse(int argc, char** argv) {
    Opt o;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--shard") o.shard = atol(v.c_str());
        else if (a == "--shards") o.shards = atol(v.c_str());
        else if (a == "--cases") o.cases = atol(v.c_str());
        else if (a == "--only") o.only = atol(v.c_str());
        else if (a == "--out") o.out = v;
        else if (a == "--mode") o.mode = v;
        else if (a == "--script") o.script = v;
        else if (a == "--dir") o.dir = v;
        else if (a == "--tier") o.thorough = (v == "thorough");
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(2); }
    }
    return o;
}

// Case c is executed by shard c % shards.  The case's rng depends on (seed, c) only.
inline int run(const Opt& o, const Body& body, long total, int cpu_seconds = 60) {
    int fd = ::open(o.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (fd < 0) { perror("open"); return 2; }
    out_fd() = fd;
    for (long c = 0; c < total; c++) {
        if (o.only >= 0 ? c != o.only : (c % o.shards) != o.shard) continue;
        Ev("Begin").i("case", c).end();
        fflush(0);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0) {
            int nul = ::open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            if (!getenv("VH_STDERR")) dup2(nul, 2);
            struct rlimit rl { (rlim_t)cpu_seconds, (rlim_t)cpu_seconds + 1 }; setrlimit(RLIMIT_CPU, &rl);
            struct rlimit co { 0, 0 }; setrlimit(RLIMIT_CORE, &co);
            Rng rng(o.seed * 1000003ull + (uint64_t)c * 7919ull + 17);
            int rc = 0;
            try { body(rng, c, o); }
            catch (const std::exception& ex) { rc = 98; Ev("Crash").str("what", std::string("exception ") + ex.what()).end(); }
            catch (...) { rc = 98; Ev("Crash").str("what", "exception").end(); }
            _exit(rc);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) Ev("Crash").str("what", std::string("signal ") + std::to_string(WTERMSIG(st))).end();
        else if (WEXITSTATUS(st) == 99) { fprintf(stderr, "cannot write trace\n"); return 2; }
        else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 98) Ev("Crash").str("what", std::string("exit ") + std::to_string(WEXITSTATUS(st))).end();
    }
    ::close(fd);
    return 0;
}

// ------------------------------------------------------------------ data
template <class Mt> Mt int_matrix(Rng& r, long n, long d, long lo, long hi) {
    Mt m(n, d); for (long i = 0; i < n; i++) for (long j = 0; j < d; j++) m(i, j) = (typename Mt::Scalar)r.range(lo, hi); return m;
}
// a permutation of 0..n-1
inline std::vector<long> perm(Rng& r, long n) {
    std::vector<long> p(n); for (long i = 0; i < n; i++) p[i] = i;
    for (long i = n - 1; i > 0; i--) std::swap(p[i], p[r.range(0, i)]); return p;
}
}  // namespace vh
#endif
