// Runs of the tools with valid input and options of every kind.
#pragma once
#include "gn.hpp"

struct Scen {
    vector<string> a;           // arguments; "@k" stands for input file k
    vector<string> f;           // contents of the input files
    vector<const char*> kind;   // what they are
    string desc;
    NODETYPE t = NT_NONE;       // how the grid is read
    int cells = 0;              // values needed in the mask
    int off = 0, need = 0;      // setbathy: lines to skip, lines needed
    bool hdr = false;           // and whether there is a header
    int add(const char* k, const string& s) { f.push_back(s); kind.push_back(k); return (int) f.size() - 1; }
    uint64_t sig() const { uint64_t h = 5; for (auto& s : a) h = hashstr(s, h); for (auto& s : f) h = hashstr(s, h); return h; }
};
static inline string scen_mask(Rng& g, int n) { string s; for (int k = 0; k < n; ++k) s += g.p(0.75) ? "1\n" : "0\n"; return s; }
// a grid that is a disc, as corner or double-density nodes
static inline NG scen_grid(Case& c, NODETYPE t, int big, Grid* out = NULL)
{
    Grid r = gen_disc_grid(c, big);
    NG n(r.n1 + 1, r.n2 + 1, NT_COR);
    n.X = r.X; n.Y = r.Y;
    if (out) *out = r;
    if (t != NT_COR) n = m_co2(n, t).g;
    n.t = t;
    return n;
}
// tool < 0: any; bathy: gridbathy is available
static inline Scen gen_scen(Case& c, bool bathy, int big = 12, int tool = -1)
{
    Rng& g = c.rng;
    Scen s;
    vector<vector<string>> opt;
    int k = tool >= 0 ? tool : g.i(0, bathy ? 6 : 5);
    NODETYPE t = (NODETYPE) g.i(1, 3);
    auto F = [&](const char* kind, const string& text) { return fmt("@%d", s.add(kind, text)); };
    if (g.p(0.1)) opt.push_back({"-v"});
    switch (k) {
    case 0: {                                   // getnodes
        s.a = {"getnodes"};
        NODETYPE o = (NODETYPE) g.i(1, 3);
        NG n = scen_grid(c, t, big);
        if (t == NT_CEN && o != NT_CEN) {       // a complete array of centres, so that it can be converted
            Grid r;
            int n1 = g.i(3, 8), n2 = g.i(3, 8);
            gen_geometry(g, r, n1, n2);
            n = NG(n1 + 1, n2 + 1, NT_COR);
            n.X = r.FX; n.Y = r.FY;
            n = m_co2(n, NT_CEN).g;
        }
        opt.push_back({F("grid", ng_text(n))});
        if (t != NT_DD || g.p(0.5)) opt.push_back({"-i", tname(t)});
        if (o != NT_DD || g.p(0.5)) opt.push_back({"-o", tname(o)});
        if (g.p(0.3)) opt.push_back({"-p"});
        int d = g.i(0, 5);
        if (d == 0) opt.push_back({"-x"});
        if (d == 1) opt.push_back({"-y"});
        if (o == t && t != NT_COR && g.p(0.4)) opt.push_back({"-m", F("mask", scen_mask(g, s.cells = t == NT_CEN ? n.nx * n.ny : (n.nx / 2) * (n.ny / 2)))});
        break;
    }
    case 1: {                                   // getbound
        if (t == NT_CEN) t = NT_COR;
        s.a = {"getbound"};
        opt.push_back({F("grid", ng_text(scen_grid(c, t, big)))});
        if (t != NT_DD || g.p(0.5)) opt.push_back({"-i", tname(t)});
        if (g.p(0.4)) opt.push_back({"-c"});
        if (g.p(0.4)) opt.push_back({"-r"});
        break;
    }
    case 2: {                                   // insertgrid
        s.a = {"insertgrid"};
        NG m = scen_grid(c, t, big), n = scen_grid(c, t, big);
        int i0 = g.i(0, m.nx), j0 = g.i(0, m.ny);
        if (t == NT_DD) { i0 = i0 / 2 * 2; j0 = j0 / 2 * 2; }
        s.a.push_back(F("grid", ng_text(m)));
        s.a.push_back(F("grid", ng_text(n)));
        s.a.push_back(fmt("%d", i0));
        s.a.push_back(fmt("%d", j0));
        if (g.p(0.6)) opt.push_back({"-i", tname(t)});
        if (g.p(0.5)) opt.push_back({"-m"});
        break;
    }
    case 3: {                                   // subgrid
        s.a = {"subgrid"};
        NG n = gen_ng(g, t, big, true);
        opt.push_back({F("grid", ng_text(n))});
        for (int d = 0; d < 2; ++d)
            if (g.p(0.6)) { int m = d ? n.ny : n.nx, a = g.i(0, m - 1), b = g.i(a, m); opt.push_back({d ? "-j" : "-i", fmt("%d:%d", a, b)}); }
        int d = g.i(0, 5);
        if (d == 0) opt.push_back({"-x"});
        if (d == 1) opt.push_back({"-y"});
        break;
    }
    case 4: {                                   // setbathy
        s.a = {"setbathy"};
        int nx = g.i(1, 15), ny = g.i(1, 15), off = g.p(0.3) ? g.i(1, 4) : 0;
        bool hdr = g.p(0.5);
        s.off = off; s.need = off + hdr + nx * ny; s.hdr = hdr;
        string d;
        for (int q = 0; q < off; ++q) d += fmt("# line %d\n", q);
        if (hdr) d += fmt("## %d x %d\n", nx, ny);
        for (int q = 0; q < nx * ny; ++q) d += fmt("%.2f\n", g.u(-100, 100));
        if (g.p(0.3)) d += "end\n";
        opt.push_back({F("data", d)});
        if (!hdr) opt.push_back({"-d", fmt("%dx%d", nx, ny)});
        if (off) opt.push_back({"-o", fmt("%d", off)});
        opt.push_back({"-z", g.p(0.5) ? "-99" : "NaN"});
        if (g.p(0.6)) { int a = g.i(0, nx - 1); opt.push_back({"-i", fmt("%d:%d", a, g.i(a, nx))}); }
        if (g.p(0.6)) { int a = g.i(0, ny - 1); opt.push_back({"-j", fmt("%d:%d", a, g.i(a, ny))}); }
        break;
    }
    case 5: {                                   // xy2ij
        s.a = {"xy2ij"};
        Grid r;
        if (t == NT_CEN) t = NT_COR;
        NG n = scen_grid(c, t, big, &r);
        bool rev = g.p(0.4);
        string p;
        for (int q = g.i(0, 40); q > 0; --q) {
            if (g.p(0.15)) { p += g.p(0.5) ? "# remark\n" : g.p(0.5) ? "\n" : "text\n"; continue; }
            if (rev) p += fmt("%.17g %.17g %d\n", g.u(0, r.n1), g.u(0, r.n2), q);
            else { Pt w = gen_query(g, r); p += fmt("%.17g %.17g %d\n", w.x, w.y, q); }
        }
        opt.push_back({"-g", F("grid", ng_text(n))});
        opt.push_back({"-o", F("points", p)});
        if (t != NT_DD || g.p(0.5)) opt.push_back({"-i", tname(t)});
        if (g.p(0.4)) opt.push_back({"-k"});
        if (rev) opt.push_back({"-r"});
        if (!rev || g.p(0.5)) opt.push_back({"-f"});
        break;
    }
    default: {                                  // gridbathy
        s.a = {"gridbathy"};
        Grid r;
        if (t == NT_CEN) t = NT_COR;
        NG n = scen_grid(c, t, big, &r);
        string b;
        for (int q = g.i(3, 40); q > 0; --q) {
            ld x, y;
            bilin(r.FX, r.n1, g.i(0, r.n1 - 1), g.i(0, r.n2 - 1), g.u(), g.u(), r.FY, x, y);
            b += fmt("%.17g %.17g %.2f\n", (double) x, (double) y, g.u(-100, 100));
        }
        opt.push_back({"-g", F("grid", ng_text(n))});
        opt.push_back({"-b", F("data", b)});
        if (t != NT_DD || g.p(0.5)) opt.push_back({"-i", tname(t)});
        if (g.p(0.3)) opt.push_back({"-m", F("mask", scen_mask(g, s.cells = r.n1 * r.n2))});
        if (g.p(0.8)) opt.push_back({"-a", fmt("%d", g.i(0, 4))});
        if (g.p(0.4)) opt.push_back({"-n", fmt("%d", g.i(1, 10))});
        if (g.p(0.4)) opt.push_back({"-r", "-50", "50"});
        if (g.p(0.2)) opt.push_back({"-c", fmt("%d", g.i(0, r.n1 - 1)), fmt("%d", g.i(0, r.n2 - 1))});
        if (g.p(0.3)) opt.push_back({"-x"});
        break;
    }
    }
    while (!opt.empty()) { int q = g.i(0, (int) opt.size() - 1); for (auto& x : opt[q]) s.a.push_back(x); opt.erase(opt.begin() + q); }
    s.t = t;
    s.desc = cmdline(s.a);
    return s;
}
// writes the files and returns the command line; file `in` (if >= 0) comes on standard input
static inline vector<string> scen_args(const Scen& s, int in, RunOpt& o, bool dash = true)
{
    vector<string> a = s.a;
    for (auto& x : a) {
        if (x.size() < 2 || x[0] != '@') continue;
        int k = atoi(x.c_str() + 1);
        if (k >= (int) s.f.size()) continue;
        if (k == in) { o.usein = true; o.in = s.f[k]; x = dash ? "-" : "stdin"; }
        else { x = wf(fmt("f%d.txt", k).c_str()); writefile(x, s.f[k]); }
    }
    return a;
}
