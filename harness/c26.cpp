#include "scen.hpp"
const char* PROP = "C26";
const char* RULE = "every tool on valid input of every kind with random options (and some with a truncated input): the program as shipped is run once plainly and then with other contents of fresh and of freed memory (malloc perturbation bytes), with the allocator's caches and arenas changed, with a larger environment and other locale and directory settings, with each input file moved to standard input, and with -v added; standard output and status must be the same; the same run under MemorySanitizer must report no use of uninitialised memory; non-trivial if something was written; distinct by input and options";
long ncases(bool t) { return t ? 50000 : 5000; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    Scen s = gen_scen(c, true, g.p(0.1) ? 40 : 12);
    bool cut = g.p(0.06);
    if (cut) { int k = g.i(0, (int) s.f.size() - 1); s.f[k].resize(g.i(0, (int) s.f[k].size())); }
    bool verb = std::find(s.a.begin(), s.a.end(), string("-v")) != s.a.end();
    auto run = [&](const Scen& q, int in, RunOpt o) { vector<string> a = scen_args(q, in, o, g.p(0.5)); return run_tool(a, o); };
    RunOpt base;
    base.dir = G.plain;
    Run r = run(s, -1, base);
    string what = s.desc;
    auto same_as = [&](const char* how, const Run& q) {
        evals();
        if (q.status != r.status) fail("status", "%s: status %d, but %d %s (%s)", what.c_str(), r.status, q.status, how, q.err.substr(0, 200).c_str());
        if (q.out != r.out) {
            vector<string> A = lines(r.out), B = lines(q.out);
            size_t k = 0;
            while (k < A.size() && k < B.size() && A[k] == B[k]) ++k;
            fail("output", "%s: output differs %s: line %d is \"%s\" instead of \"%s\"", what.c_str(), how, (int) k, k < B.size() ? B[k].substr(0, 100).c_str() : "(end)", k < A.size() ? A[k].substr(0, 100).c_str() : "(end)");
        }
        count(how);
    };
    // memory contents
    for (int v : {g.i(1, 255), 0x55, 0xff}) {
        RunOpt o = base;
        o.env.push_back(fmt("GLIBC_TUNABLES=glibc.malloc.perturb=%d", v));
        same_as("with other contents of fresh memory", run(s, -1, o));
        if (v == 0x55 && g.p(0.5)) break;
    }
    {
        RunOpt o = base;
        o.env.push_back("GLIBC_TUNABLES=glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=4096:glibc.malloc.perturb=170");
        same_as("with another memory layout", run(s, -1, o));
    }
    {
        RunOpt o = base;
        for (int k = g.i(1, 40); k > 0; --k) o.env.push_back(fmt("VP_PAD_%d=", k) + string(g.i(0, 2000), 'x'));
        static const char* E[] = {"TZ=Asia/Tokyo", "LC_ALL=de_DE.UTF-8", "LANG=fr_FR", "LC_NUMERIC=de_DE", "POSIXLY_CORRECT=1", "COLUMNS=20", "TMPDIR=/nonexistent", "HOME=/"};
        for (auto e : E) if (g.p(0.4)) o.env.push_back(e);
        same_as("in another environment", run(s, -1, o));
    }
    for (int k = 0; k < (int) s.f.size(); ++k) {
        RunOpt o = base;
        same_as("with an input from standard input", run(s, k, o));
    }
    if (!verb) {
        Scen v = s;
        v.a.insert(s.a[0] == "insertgrid" ? v.a.end() : v.a.begin() + 1, "-v");
        same_as("with -v", run(v, -1, base));
    }
    same_as("again", run(s, -1, base));
    if (g.p(0.5)) {
        RunOpt o;
        o.dir = G.msan;
        Run q = run(s, -1, o);
        evals();
        count("runs under MemorySanitizer");
    }
    if (!r.out.empty()) nontrivial(s.sig());
    if (r.status != 0) count("inputs that are refused");
    count(("tool " + s.a[0]).c_str());
    sample(what);
}
