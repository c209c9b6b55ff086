// Common part of all harnesses: deterministic random cases, violation reporting,
// coverage counters, running of the command line tools.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <climits>
#include <cfloat>
#include <vector>
#include <array>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <utility>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <errno.h>
#include <time.h>

extern "C" {
#include "gridnodes.h"
#include "gridmap.h"
#include "gridbmap.h"
#include "gridkmap.h"
#include "kdtree.h"
#include "poly.h"
#include "gucommon.h"
}

using std::string;
using std::vector;
typedef long double ld;
static const double QNAN = __builtin_nan("");

// ---------------------------------------------------------------- random
static inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) { s[0] = mix64(seed); s[1] = mix64(seed ^ 0xabcdef1234567ULL); if (!s[0] && !s[1]) s[0] = 1; }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    double u() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    // integer in [a, b]
    int i(int a, int b) { return (b <= a) ? a : a + (int) (next() % (uint64_t) ((int64_t) b - a + 1)); }
    bool p(double prob) { return u() < prob; }
    double g() { double x = 0; for (int k = 0; k < 12; ++k) x += u(); return x - 6.0; }
    template <class T> const T& pick(const vector<T>& v) { return v[i(0, (int) v.size() - 1)]; }
};

// ---------------------------------------------------------------- reporting
struct CaseFail { };            // thrown after a violation was recorded
struct QuitEx { string msg; };  // thrown by the library calling its quit function

struct Violation { long c; string key, msg; };

struct Global {
    uint64_t seed = 1;
    bool thorough = false;
    string prop, work, bin, plain, msan;
    long cur = -1;
    uint64_t evals = 0;         // oracle evaluations
    std::map<string, uint64_t> cnt;
    vector<uint64_t> sigs;      // signatures of non-trivial cases
    vector<string> samples;
    vector<Violation> viol;
    int progress_fd = -1;
    uint64_t toolruns = 0;
};
extern Global G;

static inline string vfmt(const char* f, va_list ap)
{
    char buf[8192];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
static inline string fmt(const char* f, ...)
{
    va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap); return s;
}
[[noreturn]] static inline void fail(const char* key, const char* f, ...)
{
    va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap);
    G.viol.push_back({G.cur, key, s});
    throw CaseFail();
}
inline thread_local bool nocount = false;        // in threads other than the main one
static inline void count(const char* k, uint64_t n = 1) { if (!nocount) G.cnt[k] += n; }
static inline void evals(uint64_t n = 1) { G.evals += n; }
static inline uint64_t hashbytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char* c = (const unsigned char*) p;
    for (size_t k = 0; k < n; ++k) { h ^= c[k]; h *= 1099511628211ULL; }
    return mix64(h);
}
static inline uint64_t hashstr(const string& s, uint64_t h = 1469598103934665603ULL) { return hashbytes(s.data(), s.size(), h); }
static inline uint64_t hashdv(const vector<double>& v, uint64_t h = 1469598103934665603ULL) { return v.empty() ? h : hashbytes(v.data(), v.size() * sizeof(double), h); }
// record a non-trivial case by signature
static inline void nontrivial(uint64_t sig) { G.sigs.push_back(sig); }
static inline void sample(const string& s) { if (G.samples.size() < 3) G.samples.push_back(s); }

struct Case {
    long no;
    bool thorough;
    Rng rng;
};
// to be supplied by each harness
extern const char* PROP;
extern const char* RULE;
long ncases(bool thorough);
void run_case(Case& c);

// the library's quit function is replaced by a throw, which the library code
// (compiled with -fexceptions) lets through
template <class F> static bool quits(F f, string* msg = NULL)
{
    try { f(); } catch (QuitEx& q) { if (msg) *msg = q.msg; return true; }
    return false;
}

// ---------------------------------------------------------------- files
static inline void writefile(const string& f, const string& s)
{
    FILE* o = fopen(f.c_str(), "wb");
    if (!o || fwrite(s.data(), 1, s.size(), o) != s.size() || fclose(o) != 0) { fprintf(stderr, "harness: cannot write %s: %s\n", f.c_str(), strerror(errno)); exit(3); }
}
static inline string readfile(const string& f)
{
    string s; char buf[65536]; size_t n;
    FILE* i = fopen(f.c_str(), "rb");
    if (!i) return s;
    while ((n = fread(buf, 1, sizeof buf, i)) > 0) s.append(buf, n);
    fclose(i);
    return s;
}
static inline string wf(const char* name) { return G.work + "/" + name; }
static inline vector<string> lines(const string& s)
{
    vector<string> v; size_t a = 0;
    while (a < s.size()) {
        size_t b = s.find('\n', a);
        if (b == string::npos) { v.push_back(s.substr(a)); break; }
        v.push_back(s.substr(a, b - a));
        a = b + 1;
    }
    return v;
}

// once in a while something much larger than usual, numbers of things beyond what fits in 8 or 16 bits
#ifdef NOLARGE
static inline bool large(Rng&) { return false; }
#else
static inline bool large(Rng& g)
{
    static const double p = std::min(0.02, 100.0 / ncases(false));
    return g.p(p);
}
#endif

// ---------------------------------------------------------------- tools
struct Run {
    int status = -1;            // exit status, or 1000 + signal, or 2000 for a timeout
    string out, err;
    bool ok() const { return status == 0; }
    bool refused() const { return status > 0 && status < 99; }
};
extern char** environ;
struct RunOpt {
    string in;                  // standard input
    bool usein = false;
    string stdoutfile;          // instead of capturing
    vector<string> env;         // additional environment
    string dir;                 // directory with the programs (default: sanitized build)
    int timeout = 20;
    bool noscan = false;
};
Run run_tool(const vector<string>& args, const RunOpt& o = RunOpt());

// any sanitizer report or death by signal in a tool is a violation of whatever property is being checked
static inline string cmdline(const vector<string>& a) { string s; for (auto& x : a) { if (!s.empty()) s += ' '; s += x; } return s; }
