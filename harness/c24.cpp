#include "gn.hpp"
const char* PROP = "C24";
const char* RULE = "point files of up to 400 lines mixing points inside, outside, on edges, NaN, huge, in several number formats with trailing columns, and comments, blanks, text, single numbers, lines of up to 10000 characters, with or without final newline, are converted by xy2ij in both directions with both map types from corner and double-density grids, from file or standard input, with and without -f; the output is compared line by line with what the library gives for the numbers on that line; non-trivial if converted, unconvertible and other lines occurred; distinct by input";
long ncases(bool t) { return t ? 60000 : 6000; }

static const int LINEMAX = 10000;
static string number(Rng& g, double v)
{
    if (std::isnan(v)) return g.p(0.5) ? "NaN" : g.p(0.5) ? "nan" : "-nan";
    if (std::isinf(v)) return v > 0 ? (g.p(0.5) ? "inf" : "Infinity") : "-inf";
    string s;
    switch (g.i(0, 5)) {
    case 0: s = fmt("%.17g", v); break;
    case 1: s = fmt("%.15e", v); break;
    case 2: s = fmt("%.3f", v); if (s.size() > 60) s = fmt("%g", v); break;
    case 3: s = fmt("%a", v); break;
    case 4: s = fmt("%.6g", v); break;
    default: s = fmt("%.15g", v); break;
    }
    if (g.p(0.05) && s[0] != '-') s = "+" + s;
    return s;
}
static string rest(Rng& g)
{
    switch (g.i(0, 9)) {
    case 0: return fmt("%d", g.i(-5000, 5000));
    case 1: return fmt("%.3f label %d", g.u(-5000, 5000), g.i(0, 99));
    case 2: return "# a remark";
    case 3: return "%s%d%n %5$s";
    case 4: return "a\tb  c   ";
    case 5: return "1 2 3 4 5 6 7 8 9";
    case 6: if (g.p(0.1)) { string s; int n = g.i(100, 9800); for (int k = 0; k < n; ++k) s += (char) g.i(33, 126); return s; } return "x";
    case 7: return "\"quoted, text\"\\";
    case 8: return "\xc3\xa9\xff";
    default: return "";
    }
}
static string other(Rng& g)
{
    switch (g.i(0, 9)) {
    case 0: return "";
    case 1: return "# comment";
    case 2: return "## 3 x 4";
    case 3: return "   \t ";
    case 4: return fmt("%.6g", g.u(-100, 100));
    case 5: return fmt("%.6g x", g.u(-100, 100));
    case 6: return "text 1 2";
    case 7: return fmt("%d,%d", g.i(0, 9), g.i(0, 9));
    case 8: { string s = "#"; int n = g.p(0.2) ? g.i(100, 9900) : g.i(1, 60); for (int k = 0; k < n; ++k) s += (char) g.i(32, 126); return s; }
    default: return "%s %n %d";
    }
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    bool kd = g.p(0.4), rev = g.p(0.4), dd = g.p(0.3), force = g.p(0.7), verb = g.p(0.15);
    Grid r = kd && g.p(0.5) ? gen_any_grid(c, 15) : gen_disc_grid(c, 15);
    NG n(r.n1 + 1, r.n2 + 1, NT_COR);
    n.X = r.X; n.Y = r.Y;
    NG q = dd ? m_co2(n, NT_DD).g : n;
    string gt = ng_text(q);
    gridnodes* gn = ng_make(q);
    gridnodes_validate(gn);
    if (dd) { gridnodes* t = gridnodes_transform(gn, NT_COR); gridnodes_destroy(gn); gn = t; }
    gridmap* gm = gridmap_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn), kd ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY);

    bool lots = large(g);
    int nl = lots ? (g.p(0.1) ? g.i(70000, 140000) : g.i(900, 12000)) : g.p(0.1) ? g.i(100, 400) : g.i(0, 40), bad = 0, good = 0, oth = 0, stop = -1, nanline = 0;
    bool nl_final = g.p(0.8), crlf = g.p(0.05);
    if (lots && g.p(0.8)) force = true;
    double pout = g.pick(vector<double>{0, 0, 0.1, 0.5});
    string in, want, badline;
    for (int k = 0; k < nl; ++k) {
        string l, w;
        bool last = k == nl - 1;
        if (g.p(0.3)) {
            l = other(g);
            if (crlf) l += "\r";
            w = l + (last && !nl_final ? "" : "\n");
            oth++;
        } else {
            double x, y;
            if (rev) {
                if (g.p(pout)) { x = g.u(-2, r.n1 + 2); y = g.u(-2, r.n2 + 2); }
                else if (g.p(0.3)) { x = g.i(0, r.n1 * 2) / 2.0; y = g.i(0, r.n2 * 2) / 2.0; }
                else if (g.p(0.05)) { Pt p = gen_query(g, r); x = p.x; y = p.y; }
                else { x = g.u(0, r.n1); y = g.u(0, r.n2); }
            } else if (g.p(pout)) { Pt p = gen_query(g, r); x = p.x; y = p.y; }
            else {
                int cell = g.i(0, r.n1 * r.n2 - 1);
                for (int t = 0; t < r.n1 * r.n2 && !r.cell.c[cell]; ++t) cell = (cell + 1) % (r.n1 * r.n2);
                ld a, b;
                bilin(r.FX, r.n1, cell % r.n1, cell / r.n1, g.u(0.01, 0.99), g.u(0.01, 0.99), r.FY, a, b);
                x = (double) a; y = (double) b;
            }
            string sx = number(g, x), sy = number(g, y), R = rest(g), sep = g.p(0.8) ? " " : g.p(0.5) ? "\t" : "   \t ";
            if (crlf) R += "\r";
            x = strtod(sx.c_str(), NULL); y = strtod(sy.c_str(), NULL);
            l = (g.p(0.1) ? "  " : "") + sx + sep + sy;
            if (!R.empty() || g.p(0.1)) l += (g.p(0.8) ? string(" ") : string(" \t  ")) + R;
            // the rest starts at the first character that is no blank
            size_t b = R.find_first_not_of(" \t\r");
            string rem = b == string::npos ? "" : R.substr(b);
            double a = NAN, e = NAN;
            int ok = rev ? gridmap_fij2xy(gm, x, y, &a, &e) : gridmap_xy2fij(gm, x, y, &a, &e);
            if (ok && !std::isnan(a)) { w = fmt("%.15g %.15g ", a, e) + rem + "\n"; good++; }
            else {
                if (ok) nanline++;
                w = "NaN NaN " + rem + "\n";
                bad++;
                if (!ok && !force && stop < 0) { stop = k; badline = l; }
            }
        }
        if (l.size() > LINEMAX) { gridmap_destroy(gm); gridnodes_destroy(gn); return; }
        in += l;
        if (!last || nl_final || l.empty()) in += "\n";
        if (last && !nl_final && l.empty()) w = "\n";
        if (stop < 0) want += w;
    }
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
    string what = fmt("%s, %d lines%s%s%s%s", r.desc.c_str(), nl, kd ? ", kd-tree" : "", rev ? ", reverse" : "", force ? ", forced" : "", dd ? ", DD" : "");
    vector<string> a = {"xy2ij"};
    RunOpt o;
    vector<vector<string>> opt;
    if (dd ? g.p(0.5) : true) opt.push_back({"-i", dd ? "DD" : (g.p(0.5) ? "CO" : "co")});
    if (kd) opt.push_back({"-k"});
    if (rev) opt.push_back({"-r"});
    if (force) opt.push_back({"-f"});
    if (verb) opt.push_back({"-v"});
    int src = g.i(0, 3);
    bool split = src == 3 && nl_final;       // the grid and the points on the same standard input
    if (src == 0) { o.usein = true; o.in = in; writefile(wf("g.txt"), gt); opt.push_back({"-o", g.p(0.5) ? "-" : "stdin"}); opt.push_back({"-g", wf("g.txt")}); count("points from standard input"); }
    else if (src == 1) { o.usein = true; o.in = gt; writefile(wf("p.txt"), in); opt.push_back({"-g", g.p(0.5) ? "-" : "stdin"}); opt.push_back({"-o", wf("p.txt")}); count("grid from standard input"); }
    else { (void) split; writefile(wf("g.txt"), gt); writefile(wf("p.txt"), in); opt.push_back({"-g", wf("g.txt")}); opt.push_back({"-o", wf("p.txt")}); count("both from files"); }
    while (!opt.empty()) { int k = g.i(0, (int) opt.size() - 1); for (auto& s : opt[k]) a.push_back(s); opt.erase(opt.begin() + k); }
    Run t = run_tool(a, o);
    evals(nl + 1);
    if (stop >= 0) {
        if (t.ok() || t.err.empty()) fail("stop", "%s: line %d (\"%s\") cannot be converted without -f, but status %d, message \"%s\"", what.c_str(), stop, badline.substr(0, 200).c_str(), t.status, t.err.c_str());
    } else if (!t.ok())
        fail("refused", "%s: failed: %s", what.c_str(), t.err.substr(0, 500).c_str());
    if (t.out != want) {
        // blanks at the end of a converted line without further columns do not matter
        vector<string> A = lines(t.out), B = lines(want);
        auto trim = [](string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; };
        for (size_t k = 0; k < std::max(A.size(), B.size()); ++k)
            if (k >= A.size() || k >= B.size() || (A[k] != B[k] && trim(A[k]) != trim(B[k])))
                fail("line", "%s: line %d out is \"%s\", expected \"%s\" (%d lines out, %d expected)", what.c_str(), (int) k, k < A.size() ? A[k].substr(0, 200).c_str() : "(end)", k < B.size() ? B[k].substr(0, 200).c_str() : "(end)", (int) A.size(), (int) B.size());
    }
    if (verb && stop < 0) {
        static const char* K[3] = {"total mappings: ", "##   successful: ", "unsuccessful: "};
        int w[3] = {good + bad, good, bad};
        for (int k = 0; k < 3; ++k) {
            size_t p = t.err.find(K[k]);
            evals();
            if (p == string::npos || atoi(t.err.c_str() + p + strlen(K[k])) != w[k] || t.err.find(K[k], p + 1) != string::npos) fail("totals", "%s: \"%s\" is not followed by %d: \"%s\"", what.c_str(), K[k], w[k], t.err.substr(t.err.size() > 200 ? t.err.size() - 200 : 0).c_str());
        }
        count("totals reported");
    }
    if (lots) count("files of thousands of lines");
    count("lines converted", good);
    count("lines not convertible", bad);
    count("conversions to a missing place", nanline);
    count("lines passed through", oth);
    count("runs stopped at a point that cannot be converted", stop >= 0);
    if (good && bad && oth) nontrivial(hashstr(in) ^ hashstr(gt));
    sample(what);
}
