#include "gn.hpp"
const char* PROP = "C17";
const char* RULE = "data files with arbitrary lines (numbers, text, empty, long), size from the header or the command line, leading lines skipped, trailing lines with or without final newline, windows inside, across, outside, reversed or omitted; the output of setbathy is compared line by line with the model; short files, missing sizes and missing values must be refused; non-trivial if some lines were replaced and some kept; distinct by input and options";
long ncases(bool t) { return t ? 60000 : 10000; }

static string rline(Rng& g)
{
    string s;
    switch (g.i(0, 6)) {
    case 0: return fmt("%d", g.i(-100, 100));
    case 1: return fmt("%.3f", g.u(-5000, 5000));
    case 2: return "";
    case 3: return "NaN";
    case 4: return fmt("%d %d # remark", g.i(0, 9), g.i(0, 9));
    case 5: { int n = g.p(0.05) ? g.i(200, 9000) : g.i(1, 60); for (int k = 0; k < n; ++k) s += (char) g.i(33, 126); return s; }
    default: return "## 3 x 3";
    }
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    int nx = g.i(1, 12), ny = g.i(1, 12);
    if (large(g)) {
        int a = (int) exp(g.u(log(90.0), log(3000.0))), b = g.i(1, std::max(1, 20000 / a));
        nx = a; ny = b;
        if (g.p(0.5)) std::swap(nx, ny);
        count("much larger than usual");
    }
    bool hdr = g.p(0.5);
    int off = g.p(0.4) ? g.i(1, 6) : 0, trail = g.p(0.5) ? g.i(1, 6) : 0;
    vector<string> skip, data, tail;
    for (int k = 0; k < off; ++k) skip.push_back(rline(g));
    for (int k = 0; k < nx * ny; ++k) data.push_back(rline(g));
    for (int k = 0; k < trail; ++k) tail.push_back(rline(g));
    int lo[2] = {INT_MIN, INT_MIN}, hi[2] = {INT_MAX, INT_MAX}, sz[2] = {nx, ny};
    static const char* Z[] = {"-99", "NaN", "0", "12.5", "1e10", "land", "-0.00", "some text", "%d%s%n", ""};
    string z = Z[g.i(0, 9)];
    vector<vector<string>> opt;
    for (int d = 0; d < 2; ++d) {
        if (g.p(0.25)) continue;
        lo[d] = g.i(-1, sz[d]); hi[d] = g.i(-1, sz[d]);
        if (lo[d] > hi[d] && g.p(0.8)) std::swap(lo[d], hi[d]);
        opt.push_back({d ? "-j" : "-i", fmt("%d:%d", lo[d], hi[d])});
    }
    bool nl = g.p(0.7);
    string in, header = fmt("## %d x %d", nx, ny);
    vector<string> all = skip;
    if (hdr) all.push_back(header);
    size_t first = all.size();
    for (auto& s : data) all.push_back(s);
    for (auto& s : tail) all.push_back(s);
    int broken = g.p(0.15) ? g.i(1, 3) : 0;
    if (broken == 1) { all.resize(g.i(0, (int) (first + data.size()) - 1)); nl = true; }
    if (all.empty() || all.back().empty()) nl = true;       // a last line without newline must not be empty
    for (size_t k = 0; k < all.size(); ++k) { in += all[k]; if (k + 1 < all.size() || nl) in += "\n"; }
    if (!hdr && broken != 2) opt.push_back({"-d", fmt("%dx%d", nx, ny)});
    if (broken == 2 && hdr) {                                // no size: a header that is none
        string bad = g.p(0.5) ? fmt("# %d x %d", nx, ny) : g.p(0.5) ? fmt("## %d", nx) : "data";
        in = "";
        all[off] = bad;
        for (auto& s : all) in += s + "\n";
    }
    if (broken == 2 && !hdr && (!data[0].compare(0, 2, "##"))) return;
    if (off) opt.push_back({"-o", fmt("%d", off)});
    if (broken != 3) opt.push_back({"-z", z});
    RunOpt o;
    if (g.p(0.3)) { o.usein = true; o.in = in; opt.push_back({g.p(0.5) ? "-" : "stdin"}); }
    else { writefile(wf("d.txt"), in); opt.push_back({wf("d.txt")}); }
    vector<string> args = {"setbathy"};
    while (!opt.empty()) { int k = g.i(0, (int) opt.size() - 1); for (auto& s : opt[k]) args.push_back(s); opt.erase(opt.begin() + k); }
    Run r = run_tool(args, o);
    evals();
    string what = cmdline(args) + fmt(" (%d x %d, %d lines in)", nx, ny, (int) all.size());
    if (broken) {
        static const char* W[] = {"", "short input", "no size", "no value"};
        if (r.ok() || r.err.empty()) fail("refusal", "%s: %s, but status %d, message \"%s\"", what.c_str(), W[broken], r.status, r.err.c_str());
        count((string("refused: ") + W[broken]).c_str());
        return;
    }
    if (!r.ok()) fail("refused", "%s: refused: %s", what.c_str(), r.err.c_str());
    // expected output, the header being optional
    string w1, w2;
    int nrep = 0;
    for (size_t k = 0; k < all.size(); ++k) {
        string l = all[k];
        if (k + 1 < all.size() || nl) l += "\n";
        if (hdr && k == first - 1) { w2 += l; continue; }
        if (k >= first && k < first + data.size()) {
            int i = (int) (k - first) % nx, j = (int) (k - first) / nx;
            if (i >= lo[0] && i <= hi[0] && j >= lo[1] && j <= hi[1]) { l = z + "\n"; nrep++; }
        }
        w1 += l; w2 += l;
    }
    string got = r.out;
    // a replaced last line without newline may or may not get one
    if (got != w1 && got != w2 && got + "\n" != w1 && got + "\n" != w2) {
        vector<string> A = lines(got), B = lines(w1);
        size_t k = 0;
        while (k < A.size() && k < B.size() && A[k] == B[k]) ++k;
        fail("output", "%s: output line %d is \"%s\", expected \"%s\" (%d lines out, %d expected)", what.c_str(), (int) k, k < A.size() ? A[k].substr(0, 100).c_str() : "(end)", k < B.size() ? B[k].substr(0, 100).c_str() : "(end)", (int) A.size(), (int) B.size());
    }
    count("lines replaced", nrep);
    count("lines passed", all.size() - nrep);
    count(hdr ? "size from the header" : "size from the command line");
    if (nrep > 0 && nrep < nx * ny) nontrivial(hashstr(in) ^ hashstr(cmdline(args)));
    sample(what + fmt(": %d lines replaced", nrep));
}
