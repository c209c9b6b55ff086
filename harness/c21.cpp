#define NOLARGE
#include "scen.hpp"
const char* PROP = "C21";
const char* RULE = "(a) each tool on valid input of every kind, the output of the run without fault being known: writing made to fail at byte k of the output, for every k (every k up to a bound, beyond it both ends, the surroundings of buffer boundaries and of line ends, and random k), on a full device, a closed descriptor, a pipe nobody reads, a full non-blocking pipe; slow readers; shortage of descriptors and memory; standard input closed or failing at byte k: status zero only with the complete output, what was delivered is a prefix of it; (b) valid scenarios made invalid in one known way (file missing or a directory or empty, header missing or malformed, sizes zero, negative, too big, even for double density, fewer lines than announced, for every number of lines, invalid mask values, unknown node types, unconvertible points without -f): status non-zero and a message on standard error; distinct by scenario and fault";
long ncases(bool t) { return t ? 60000 : 1800; }

static bool has(const Scen& s, const char* o) { return std::find(s.a.begin(), s.a.end(), string(o)) != s.a.end(); }
static vector<string> with_fault(const vector<string>& a, const char* mode, long k)
{
    vector<string> v = {G.plain + "/../fsize", mode, fmt("%ld", k), G.plain + "/" + a[0]};
    v.insert(v.end(), a.begin() + 1, a.end());
    return v;
}

static void faults(Case& c)
{
    Rng& g = c.rng;
    int big = g.p(0.15) ? (c.thorough ? 60 : 30) : g.p(0.5) ? 4 : 12;
    Scen s = gen_scen(c, true, big);
    RunOpt o;
    o.dir = G.plain;
    o.noscan = true;                            // death from a signal is a non-zero status here
    vector<string> a = scen_args(s, -1, o);
    Run r = run_tool(a, o);
    if (r.status >= 1000) fail("signal", "%s: status %d without any fault", s.desc.c_str(), r.status);
    long L = (long) r.out.size();
    if (r.status != 0) {
        // refused as asked; what it writes before is covered by the other properties
        count("scenarios refused");
        return;
    }
    auto judge = [&](const char* mode, long k, const Run& q, bool must) {
        evals();
        count((string("fault: ") + mode).c_str());
        if (q.status == 98) { fprintf(stderr, "harness: %s\n", q.err.c_str()); exit(3); }
        if (q.status == 0 && q.out != r.out)
            fail("lost", "%s: with fault \"%s %ld\", status 0 although %zu of %ld bytes of the output were delivered%s", s.desc.c_str(), mode, k, q.out.size(), L, q.out.size() <= r.out.size() && !r.out.compare(0, q.out.size(), q.out) ? "" : ", and other ones");
        if (r.out.compare(0, q.out.size(), q.out) != 0)
            fail("prefix", "%s: with fault \"%s %ld\", what was delivered is not the beginning of the complete output", s.desc.c_str(), mode, k);
        if (must && q.status == 0) fail("status", "%s: with fault \"%s %ld\", status 0", s.desc.c_str(), mode, k);
        if (q.status != 0) { count("failures reported"); nontrivial(hashbytes(&k, sizeof k, hashstr(mode, s.sig()))); }
    };
    // every byte
    std::set<long> K = {0, 1, L - 1, L, L + 1};
    long all = c.thorough ? 6000 : 120;
    if (L <= all) for (long k = 0; k <= L; ++k) K.insert(k);
    else {
        for (long k = 0; k < 20; ++k) { K.insert(k); K.insert(L - k); }
        for (long b = 4096; b < L + 4096; b += 4096) for (long d = -2; d <= 2; ++d) K.insert(b + d);
        for (int k = 0; k < (c.thorough ? 400 : 30); ++k) {
            long q = g.i(0, (int) L - 1);
            K.insert(q);
            size_t e = r.out.find('\n', q);
            if (e != string::npos) { K.insert((long) e); K.insert((long) e + 1); }
        }
    }
    for (long k : K) {
        if (k < 0 || k > L + 1) continue;
        Run q = run_tool(with_fault(a, "size", k), o);
        judge("size", k, q, k < L);
        if (k >= L && q.status != 0) fail("limit", "%s: status %d although all %ld bytes could be written", s.desc.c_str(), q.status, L);
    }
    count("output bytes at which writing failed", K.size());
    for (const char* m : {"full", "closed", "pipe"}) {
        Run q = run_tool(with_fault(a, m, 0), o);
        judge(m, 0, q, false);
        if (L > 0 && q.status == 0) fail("lost", "%s: with fault \"%s\", status 0 although nothing of %ld bytes was delivered", s.desc.c_str(), m, L);
    }
    judge("again", 0, run_tool(with_fault(a, "again", 0), o), L > 4096);
    {
        static const long S[] = {1, 7, 4095, 4096, 512};
        long k = S[L > 20000 ? g.i(2, 4) : g.i(0, 4)];
        Run q = run_tool(with_fault(a, "slow", k), o);
        judge("slow", k, q, false);
        if (q.status != 0) fail("slow", "%s: status %d with a slow reader", s.desc.c_str(), q.status);
    }
    for (int k = 3; k < 6; ++k) judge("nofile", k, run_tool(with_fault(a, "nofile", k), o), false);
    for (int k : {3, 4, g.i(3, 12)}) judge("mem", k, run_tool(with_fault(a, "mem", k), o), false);
    // standard input
    for (int f = 0; f < (int) s.f.size(); ++f) {
        if (s.a[0] == "gridbathy" && !strcmp(s.kind[f], "data")) continue;   // read by a library this repository does not contain
        RunOpt oi = o;
        vector<string> ai = scen_args(s, f, oi, g.p(0.5));
        Run q = run_tool(with_fault(ai, "noin", 0), oi);
        evals();
        count("fault: noin");
        // an output lost is a refusal as well: with its descriptor free, standard input may become another file
        if (q.status == 0 && q.out != r.out) fail("input", "%s: status 0 with standard input closed", s.desc.c_str());
        long n = (long) s.f[f].size(), top = n;
        bool whole = !strcmp(s.kind[f], "points") || s.a[0] == "setbathy";
        if (!whole) {                           // up to where the last line that is needed begins
            size_t need = 0;
            vector<string> l = lines(s.f[f]);
            for (size_t k = 0; k + 1 < l.size(); ++k) need += l[k].size() + 1;
            top = (long) need + 1;
        }
        for (int w = 0; w < (c.thorough ? 12 : 4); ++w) {
            long k = w == 0 ? 0 : w == 1 ? top - 1 : g.i(0, (int) std::max(0L, top - 1));
            if (k < 0 || k > 60000 || k >= n || (!whole && k >= top)) continue;
            Run q = run_tool(with_fault(ai, "readerr", k), oi);
            evals();
            count("fault: readerr");
            if (q.status == 0) fail("input", "%s: status 0 although reading %s from standard input failed at byte %ld of %ld", s.desc.c_str(), s.kind[f], k, n);
            nontrivial(hashbytes(&k, sizeof k, hashstr("readerr", s.sig() + f)));
        }
    }
    count(("tool " + s.a[0]).c_str());
    sample(s.desc + fmt(": %ld bytes, %zu failure positions", L, K.size()));
}

static void malformed(Case& c)
{
    Rng& g = c.rng;
    Scen s = gen_scen(c, true, 10);
    for (size_t k = s.a.size(); k-- > 0;) if (s.a[k] == "-v") s.a.erase(s.a.begin() + k);
    RunOpt o0;
    vector<string> a0 = scen_args(s, -1, o0);
    Run r = run_tool(a0, o0);
    if (r.status != 0) { count("scenarios refused"); return; }
    string tool = s.a[0];
    auto refuse = [&](const string& how, const Scen& q, int in = -1, std::function<void(vector<string>&)> ed = nullptr) {
        RunOpt o;
        vector<string> a = scen_args(q, in, o, g.p(0.5));
        if (ed) ed(a);
        Run x = run_tool(a, o);
        evals();
        if (x.status == 0) fail("accepted", "%s: %s, but status 0 (output %zu bytes, message \"%s\")", cmdline(q.a).c_str(), how.c_str(), x.out.size(), x.err.substr(0, 200).c_str());
        if (x.err.empty()) fail("silent", "%s: %s, status %d without a message", cmdline(q.a).c_str(), how.c_str(), x.status);
        string k = how.substr(0, how.find(':'));
        count(("refused: " + k).c_str());
        nontrivial(hashstr(how, s.sig()));
    };
    for (int n = 0; n < (int) s.f.size(); ++n) {
        bool grid = !strcmp(s.kind[n], "grid"), mask = !strcmp(s.kind[n], "mask"), data = !strcmp(s.kind[n], "data"), points = !strcmp(s.kind[n], "points");
        bool foreign = tool == "gridbathy" && data;
        int in = g.p(0.3) ? n : -1;
        auto put = [&](const string& how, const string& text) { Scen q = s; q.f[n] = text; refuse(how, q, in); };
        if (!foreign) {
            string name = fmt("@%d", n);
            size_t pos = 0;
            while (pos < s.a.size() && s.a[pos] != name) ++pos;
            if (pos < s.a.size()) {
                static const char* W[] = {"/nonexistent/file", "no-such-file", "./", "/dev/null/x"};
                refuse("missing file: " + string(s.kind[n]), s, -1, [&](vector<string>& a) { a[pos] = g.p(0.5) ? W[g.i(0, 3)] : g.p(0.5) ? G.work + "/" + string(300, 'a') : G.work + "/nofile"; });
                refuse("directory: " + string(s.kind[n]), s, -1, [&](vector<string>& a) { a[pos] = G.work; });
            }
        }
        vector<string> L = lines(s.f[n]);
        auto join = [&](const vector<string>& v) { string t; for (auto& x : v) t += x + "\n"; return t; };
        bool header = grid || (tool == "setbathy" && s.hdr);
        int hl = tool == "setbathy" ? s.off : 0;
        if (grid || mask || tool == "setbathy" || foreign) put("empty file: " + string(s.kind[n]), "");
        if (header) {
            vector<string> v = L;
            v.erase(v.begin() + hl);
            put("header missing: " + string(s.kind[n]), join(v));
            static const char* H[] = {"# %d x %d", "## %d by %d", "##", "", "%d x %d", "## %d", "## x %d", "## %d x", "## a x b", "NaN NaN", "## %d, %d", "header %d x %d", "// %d x %d", "## size %d x %d"};
            int nx = 0, ny = 0;
            sscanf(L[hl].c_str(), "## %d x %d", &nx, &ny);
            auto head = [&](const string& h) { vector<string> w = L; w[hl] = h; return join(w); };
            for (int q = 0; q < 3; ++q) { string h = fmt(H[g.i(0, 13)], nx, ny); put("malformed header: \"" + h + "\"", head(h)); }
            int bad = g.p(0.4) ? 0 : g.p(0.5) ? -nx : -g.i(1, 100000);
            if (bad == 0 || bad < 0) {
                put(fmt("size: %d x %d", bad, ny), head(fmt("## %d x %d", bad, ny)));
                put(fmt("size: %d x %d", nx, bad), head(fmt("## %d x %d", nx, bad)));
                put(fmt("size: %d x %d", bad, bad), head(fmt("## %d x %d", bad, bad)));
            }
            static const int B[][2] = {{65536, 65536}, {2147483647, 2147483647}, {46341, 46341}, {2147483647, 2}, {3, 715827883}, {1000001, 1000001}, {131071, 65537}};
            int q = g.i(0, 6);
            put(fmt("size: %d x %d", B[q][0], B[q][1]), head(fmt("## %d x %d", B[q][0], B[q][1])));
            if (grid && s.t == NT_DD && tool != "subgrid" && tool != "insertgrid") {
                // with as many lines as announced
                int ex = nx + g.i(0, 1), ey = ex > nx ? ny + g.i(0, 1) : ny + 1;
                vector<string> w = L;
                w.resize(1);
                w[0] = fmt("## %d x %d", ex, ey);
                for (int j = 0; j < ey; ++j) for (int i = 0; i < ex; ++i) w.push_back(i < nx && j < ny ? L[1 + j * nx + i] : L[1]);
                put("even double density: " + w[0], join(w));
            }
            if (grid && tool == "insertgrid" && s.t == NT_DD && has(s, "-i")) {
                Scen q = s;
                q.f[0] = "## 2 x 3\n1 1\n1 2\n1 3\n1 1\n1 1\n1 1\n";
                q.f[1] = "## 3 x 3\n1 1\n1 2\n1 3\n1 1\n1 1\n1 1\n1 1\n1 1\n1 1\n";
                q.a[3] = "1"; q.a[4] = "0";
                refuse("even double density: composite 4 x 3", q);
            }
        }
        // too few lines
        int need = grid ? (int) L.size() : mask ? s.cells : tool == "setbathy" ? s.need : 0;
        if (mask && (int) L.size() < need) { fprintf(stderr, "harness: mask\n"); exit(3); }
        for (int q = 0; q < (c.thorough ? 10 : 4) && need > 0; ++q) {
            int m = q == 0 ? need - 1 : g.i(0, need - 1);
            vector<string> v(L.begin(), L.begin() + m);
            string t = join(v);
            if (!t.empty() && g.p(0.2)) t.pop_back();
            // the last line may have been empty: then nothing is missing
            put(fmt("too few lines: %s, %d of %d", s.kind[n], m, need), t);
        }
        if (mask) {
            static const char* M[] = {"2", "-1", "x", "", "NaN", "1.5", "10", "11", "-", "one", "0 1", "9"};
            for (int q = 0; q < 4; ++q) { vector<string> v = L; const char* w = M[g.i(0, 11)]; v[q == 0 ? s.cells - 1 : g.i(0, s.cells - 1)] = w; put(fmt("mask value: \"%s\"", w), join(v)); }
        }
        if (points && tool == "xy2ij") {
            Scen q = s;
            auto it = std::find(q.a.begin(), q.a.end(), string("-f"));
            if (it != q.a.end()) q.a.erase(it);
            vector<string> v;
            for (auto& l : L) if (has(s, "-r")) v.push_back(l);
            v.insert(v.begin() + g.i(0, (int) v.size()), has(s, "-r") ? (g.p(0.5) ? "-100 -100 far" : "0.5 1e7") : (g.p(0.5) ? "-9e8 -9e8 far" : "3e9 1e3"));
            q.f[n] = join(v);
            refuse("unconvertible point", q, in);
        }
    }
    for (size_t k = 1; k < s.a.size(); ++k)
        if ((s.a[k] == "-i" || s.a[k] == "-o") && (tool == "getnodes" || tool == "insertgrid" || tool == "getbound" || tool == "gridbathy" || (tool == "xy2ij" && s.a[k] == "-i"))) {
            static const char* T[] = {"xx", "ddd", "d", "c", "center", "", "corner", "double", "none", "DDCO", "0", "@0"};
            Scen q = s;
            q.a[k + 1] = T[g.i(0, 11)];
            refuse("node type: \"" + q.a[k + 1] + "\"", q);
            if (s.a[k] == "-i" && tool != "getnodes" && tool != "insertgrid") {
                q.a[k + 1] = "ce";
                refuse("node type: cell centres", q);
            }
        }
    if (tool == "setbathy") {
        Scen q = s;
        auto it = std::find(q.a.begin(), q.a.end(), string("-z"));
        q.a.erase(it, it + 2);
        refuse("no value given", q);
        if (!s.hdr) {
            Scen q = s;
            static const char* D[] = {"0x5", "5x0", "65536x65536", "2147483647x2"};
            auto it = std::find(q.a.begin(), q.a.end(), string("-d"));
            it[1] = D[g.i(0, 3)];
            refuse("size: -d " + it[1], q);
        }
    }
    count(("tool " + tool).c_str());
    sample(s.desc);
}

void run_case(Case& c)
{
    if (c.no % 3 == 0) faults(c);
    else malformed(c);
}
