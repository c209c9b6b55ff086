#include "gn.hpp"
const char* PROP = "C18";
const char* RULE = "grids of coordinates with up to 15 digits over the range of doubles are written (both or single coordinates) and read back in process and through subgrid and getnodes, and text files with all spellings of missing nodes, comments, blanks, extra columns, padding up to 10000 characters, CRLF, no final newline are read from file and standard input and compared with the lines; grids are also filled point by point; non-trivial if present and missing nodes occurred; distinct by contents";
long ncases(bool t) { return t ? 500000 : 45000; }

static string num(Rng& g, double v)
{
    string s = fmt(g.p(0.7) ? "%.15g" : g.p(0.5) ? "%.15e" : "%.17g", v);
    if (v >= 0 && s[0] != '-' && g.p(0.1)) s = "+" + s;
    return s;
}
static string good_line(Rng& g, double x, double y, bool plain)
{
    string s = num(g, x) + " " + num(g, y);
    if (plain) return s;
    switch (g.i(0, 6)) {
    case 0: s = "  \t" + num(g, x) + " \t  " + num(g, y) + "  "; break;
    case 1: s += " 17 extra columns"; break;
    case 2: s += " NaN"; break;
    case 3: s += " # remark"; break;
    case 4: if (g.p(0.1)) s = string(g.i(100, 9900), ' ') + s; break;
    case 5: if (g.p(0.1)) s += " " + string(g.i(100, 9900), 'x'); break;
    default: break;
    }
    return s;
}
static string bad_line(Rng& g)
{
    static const char* NANS[] = {"NaN", "nan", "NAN", "-nan", "-NaN"};
    string a = num(g, nice(g)), b = num(g, nice(g)), n = NANS[g.i(0, 4)], m = NANS[g.i(0, 4)];
    switch (g.i(0, 15)) {
    case 0: return n + " " + m;
    case 1: return n + " " + b;
    case 2: return a + " " + n;
    case 3: return "";
    case 4: return " \t ";
    case 5: return "# " + a + " " + b;
    case 6: return "#" + a + " " + b;
    case 7: return a;
    case 8: return a + " # " + b;
    case 9: return "missing";
    case 10: return a + " text";
    case 11: return "x " + a + " " + b;
    case 12: return a + "," + b;
    case 13: return "## 3 x 3";
    case 14: return g.p(0.2) ? "#" + string(g.i(100, 9900), '1') + " 2" : "-";
    default: return n + " " + m + " 5";
    }
}
static string file_text(Rng& g, const NG& n, bool messy)
{
    string s = fmt("## %d x %d\n", n.nx, n.ny);
    double pb = messy ? g.u(0, 0.5) : 0;
    (void) pb;
    bool crlf = messy && g.p(0.1), final = g.p(0.2);
    for (size_t k = 0; k < n.X.size(); ++k) {
        string l = std::isnan(n.X[k]) ? (messy ? bad_line(g) : "NaN NaN") : good_line(g, n.X[k], n.Y[k], !messy);
        bool last = k + 1 == n.X.size();
        if (last && final && !l.empty()) s += l;            // no final newline
        else s += l + (crlf ? "\r\n" : "\n");
        if (last && !final && messy && g.p(0.3)) s += g.p(0.5) ? "9 9\n" : "\n# end\n";
    }
    return s;
}
static void expect_list(const string& what, const string& out, const NG& want, bool isx)
{
    NG got;
    if (!parse_grid(out, got.nx, got.ny, got.X, got.Y, 1)) fail("list", "%s: output is not a list of %d values: %s", what.c_str(), (int) want.X.size(), out.substr(0, 200).c_str());
    NG w = want;
    got.Y = got.X;
    if (isx) w.Y = w.X; else w.X = w.Y;
    ng_compare("list", what + (isx ? ", X only" : ", Y only"), got, w);
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    int mode = g.i(0, 99);
    NODETYPE t = (NODETYPE) g.i(1, 3);
    NG n = gen_ng(g, t, 30, true);
    string what = n.desc();
    if (mode < 40) {                            // write, read back
        gridnodes* gn = ng_make(n);
        string f = wf("o.txt");
        gridnodes_write(gn, (char*) f.c_str(), CT_XY);
        ng_compare("written", what + ", as written", ng_parse("written", what, readfile(f), t), n);
        gridnodes* r = gridnodes_read((char*) f.c_str(), t);
        ng_compare("round trip", what + ", read back", ng_get(r, t), n);
        ng_compare("source", what + ", after writing", ng_get(gn, t), n);
        int mt = gridnodes_getmaptype(r);
        if (mt != GRIDMAP_TYPE_DEF) fail("map type", "%s: a grid read has map type %d", what.c_str(), mt);
        if (g.p(0.4)) { gridnodes_write(gn, (char*) f.c_str(), CT_X); expect_list(what, readfile(f), n, true); }
        if (g.p(0.4)) { gridnodes_write(gn, (char*) f.c_str(), CT_Y); expect_list(what, readfile(f), n, false); }
        gridnodes_destroy(gn);
        gridnodes_destroy(r);
        count("round trips");
    } else if (mode < 80) {                     // text
        string s = file_text(g, n, true);
        writefile(wf("g.txt"), s);
        gridnodes* r = gridnodes_read((char*) wf("g.txt").c_str(), t);
        ng_compare("read", what + ", read from text", ng_get(r, t), n);
        if (gridnodes_getnx(r) != n.nx || gridnodes_getny(r) != n.ny) fail("size", "%s: size", what.c_str());
        gridnodes_destroy(r);
        count("texts read");
    } else if (mode < 94) {                     // point by point
        gridnodes* a = gridnodes_create(n.nx, n.ny, t);
        bool lone = g.p(0.3);       // missing nodes may be given by one coordinate only, as in files
        auto fill = [&](gridnodes* q) {
            for (size_t k = 0; k < n.X.size(); ++k) {
                double x = n.X[k], y = n.Y[k];
                if (lone && std::isnan(x)) { int w = g.i(0, 2); if (w == 0) x = nice(g); if (w == 1) y = nice(g); }
                gridnodes_readnextpoint(q, x, y);
            }
        };
        bool refill = g.p(0.3), used = false;
        if (refill) {               // a first pass that is overwritten
            for (size_t k = 0; k < n.X.size(); ++k) if (g.p(0.2)) gridnodes_readnextpoint(a, NAN, NAN); else gridnodes_readnextpoint(a, nice(g), nice(g));
            used = t != NT_NONE && (t != NT_DD || (n.nx % 2 && n.ny % 2)) && g.p(0.6);
            if (used) { gridnodes_validate(a); count("grids refilled after validation"); }
        }
        fill(a);
        if (lone) count("grids filled with lone coordinates");
        ng_compare("points", what + ", filled point by point", ng_get(a, t), n);
        double** gx = (double**) gu_alloc2d(n.ny, n.nx, sizeof(double));
        double** gy = (double**) gu_alloc2d(n.ny, n.nx, sizeof(double));
        for (int j = 0; j < n.ny; ++j) for (int i = 0; i < n.nx; ++i) { gx[j][i] = n.X[n.id(i, j)]; gy[j][i] = n.Y[n.id(i, j)]; }
        gridnodes* b = gridnodes_create2(n.nx, n.ny, t, gx, gy);
        ng_compare("arrays", what + ", from arrays", ng_get(b, t), n);
        if (g.p(0.5)) { for (size_t k = 0; k < n.X.size(); ++k) gridnodes_readnextpoint(b, n.X[k], n.Y[k]); ng_compare("arrays", what + ", from arrays and refilled", ng_get(b, t), n); }
        gridnodes* d = gridnodes_copy(a);
        if (g.p(0.5)) {             // a copy continues at the first point, too
            for (size_t k = 0; k < n.X.size(); ++k) gridnodes_readnextpoint(d, n.X[k], n.Y[k]);
        }
        ng_compare("copy", what + ", copy", ng_get(d, t), n);
        NG v = n;
        m_validate(v);
        if (used && g.p(0.7)) {     // conversions validate what has been filled in since
            gridnodes* e = gridnodes_transform(a, t);
            ng_compare("validated", what + ", refilled and transformed", ng_get(e, t), v);
            gridnodes_destroy(e);
        }
        gridnodes_validate(a);
        ng_compare("validated", what + ", filled and validated", ng_get(a, t), v);
        gridnodes_destroy(a);
        gridnodes_destroy(b);
        gridnodes_destroy(d);
        count("grids filled point by point");
    } else {                                    // tools
        string s = file_text(g, n, g.p(0.7));
        RunOpt o;
        bool sub = g.p(0.5);
        int ct = g.i(0, 3);
        NG want = n;
        vector<string> a = {sub ? "subgrid" : "getnodes"};
        if (!sub) { m_validate(want); a.insert(a.end(), {"-i", tname(t), "-o", tname(t)}); }
        if (ct == 1) a.push_back("-x");
        if (ct == 2) a.push_back("-y");
        if (g.p(0.4)) { o.usein = true; o.in = s; a.push_back(g.p(0.5) ? "-" : g.p(0.5) ? "stdin" : "STDIN"); count("tool runs from standard input"); }
        else { writefile(wf("g.txt"), s); a.push_back(wf("g.txt")); count("tool runs from a file"); }
        Run r = run_tool(a, o);
        if (!r.ok()) fail("refused", "%s: refused by %s: %s", what.c_str(), a[0].c_str(), r.err.c_str());
        if (ct == 1 || ct == 2) expect_list(what + ", " + a[0], r.out, want, ct == 1);
        else ng_compare("tool", what + ", " + a[0], ng_parse("tool", what, r.out, t), want);
    }
    count("nodes present", n.present());
    count("nodes missing", n.X.size() - n.present());
    if (n.present() > 0 && n.present() < (int) n.X.size()) nontrivial(n.sig() ^ (mode < 40 ? 1 : mode < 80 ? 2 : 3));
    sample(what);
}
