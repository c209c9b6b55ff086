#include "gn.hpp"
const char* PROP = "C16";
const char* RULE = "pairs of grids of any size and pattern, positions inside, across the edges and beyond the master on all sides, plain and merging, without and with a node type; the output of insertgrid is compared with the overlay model; non-trivial if nodes of both grids show in the result; distinct by both grids and position";
long ncases(bool t) { return t ? 60000 : 8000; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    NG a = gen_ng(g, g.p(0.5) ? NT_COR : NT_DD, 15, true), b = gen_ng(g, g.p(0.5) ? NT_COR : NT_DD, 12, true);
    for (auto& v : b.X) if (g.p(0.5)) v = v + 1000;
    for (size_t k = 0; k < b.X.size(); ++k) { char s[40]; snprintf(s, 40, "%.15g", b.X[k]); b.X[k] = strtod(s, NULL); }
    int i0 = g.i(0, a.nx + 2), j0 = g.i(0, a.ny + 2);
    if (g.p(0.3)) i0 = g.i(0, std::max(0, a.nx - b.nx));
    if (g.p(0.3)) j0 = g.i(0, std::max(0, a.ny - b.ny));
    if (g.p(0.05)) i0 = g.i(0, 60);
    if (g.p(0.05)) j0 = g.i(0, 60);
    // below the master's origin (the argument in quotes: " -3"); the result then starts at the inserted grid
    if (g.p(0.06)) i0 = g.i(-b.nx - 2, -1);
    if (g.p(0.06)) j0 = g.i(-b.ny - 2, -1);
    int si = std::max(0, -i0), sj = std::max(0, -j0);
    bool merge = g.p(0.5);
    NODETYPE t = g.p(0.5) ? NT_NONE : (NODETYPE) g.i(1, 3);
    NG w(std::max(a.nx, i0 + b.nx) + si, std::max(a.ny, j0 + b.ny) + sj, t);
    int fa = 0, fb = 0;
    for (int j = 0; j < w.ny; ++j)
        for (int i = 0; i < w.nx; ++i) {
            int k = i - si - i0, l = j - sj - j0, p = i - si, q = j - sj;
            if (b.in(k, l) && (!merge || b.ok(k, l))) { w.put(i, j, b.X[b.id(k, l)], b.Y[b.id(k, l)]); fb += b.ok(k, l); }
            else if (a.in(p, q)) { w.put(i, j, a.X[a.id(p, q)], a.Y[a.id(p, q)]); fa += a.ok(p, q); }
        }
    m_validate(w);
    writefile(wf("a.txt"), ng_text(a));
    writefile(wf("b.txt"), ng_text(b));
    vector<vector<string>> opt;
    if (merge) opt.push_back({"-m"});
    if (t != NT_NONE) opt.push_back({"-i", g.p(0.5) ? tname(t) : t == NT_DD ? "dd" : t == NT_COR ? "Co" : "cE"});
    vector<string> pos = {wf("a.txt"), wf("b.txt"), fmt(i0 < 0 ? " %d" : "%d", i0), fmt(j0 < 0 ? " %d" : "%d", j0)}, args = {"insertgrid"};
    RunOpt o;
    int rd = g.i(0, 9);
    if (rd == 0) { o.usein = true; o.in = ng_text(a); pos[0] = "-"; }
    if (rd == 1) { o.usein = true; o.in = ng_text(b); pos[1] = "stdin"; }
    for (size_t k = 0; k < pos.size() || !opt.empty();) {
        if (!opt.empty() && (k == pos.size() || g.p(0.3))) { for (auto& s : opt.back()) args.push_back(s); opt.pop_back(); }
        else args.push_back(pos[k++]);
    }
    string what = fmt("%d x %d grid into %d x %d at (%d, %d)%s%s", b.nx, b.ny, a.nx, a.ny, i0, j0, merge ? ", merging" : "", t == NT_NONE ? "" : t == NT_DD ? ", DD" : t == NT_COR ? ", CO" : ", CE");
    Run r = run_tool(args, o);
    evals();
    if (t == NT_DD && (w.nx % 2 == 0 || w.ny % 2 == 0)) {
        if (r.ok() || r.err.empty()) fail("even size", "%s: accepted", what.c_str());
        count("refused: even double-density size");
        return;
    }
    if (!r.ok()) fail("refused", "%s: refused: %s", what.c_str(), r.err.c_str());
    NG got = ng_parse("output", what, r.out, t);
    ng_compare("overlay", what, got, w);
    if (si || sj) count("below the master's origin");
    count(merge ? "merged" : "inserted");
    count("nodes compared", w.X.size());
    if (w.nx > a.nx || w.ny > a.ny) count("result larger than the master");
    if (fa && fb) nontrivial(a.sig() ^ mix64(b.sig()) ^ (i0 * 1000 + j0));
    sample(what + fmt(": %d nodes from the master, %d from the inserted grid", fa, fb));
}
