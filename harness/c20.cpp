#include "scen.hpp"
extern "C" {
#include "gridaverager.h"
}
const char* PROP = "C20";
const char* RULE = "(a) every tool, compiled with AddressSanitizer and UndefinedBehaviorSanitizer or with MemorySanitizer, on valid scenarios whose files (truncated, lines dropped, repeated, swapped or replaced, bytes flipped, inserted or removed, NUL bytes, huge and non-finite numbers, announced sizes altered, lines beyond the buffers, binary data, files exchanged) and command lines (options dropped, repeated, replaced by hostile values, cut off) were mutated; (b) all library calls on grids of arbitrary type, size and pattern with arbitrary coordinates (infinite, NaN in one coordinate, huge, tiny, coincident, folded), on arbitrary polylines and trees; any sanitizer report, signal or missing end is a violation; non-trivial if a file or the command line was mutated; distinct by input";
long ncases(bool t) { return t ? 1200000 : 40000; }

static string hostile_number(Rng& g)
{
    static const char* N[] = {"NaN", "nan", "-nan", "inf", "-inf", "1e308", "-1e308", "1e309", "1e-320", "0", "-0", "0x1p10", "1e400", "99999999999999999999", "2147483647", "2147483648", "-2147483648", "4294967296",
                              "-1", "1.5", "", "x", ".", "-", "+", "1e", "e5", "1,5", "\xff", "%n%n%s", "9223372036854775807", "0.1e-4000", "nan(12)", "infinity", "1:2", "3x4"};
    if (g.p(0.3)) return fmt("%.17g", g.u(-1, 1) * pow(10, g.u(-30, 30)));
    return N[g.i(0, (int) (sizeof N / sizeof N[0]) - 1)];
}
static string hostile_header(Rng& g)
{
    // sizes are small, or too big for the data given, or too big altogether
    static const char* D[] = {"0", "-1", "1", "2", "3", "5", "7", "100", "46341", "65536", "2147483647", "2147483648", "-2147483648", "4294967297", "1000000000", "99999999999999999999", "1e3", "3.5", "", "x"};
    static const char* F[] = {"## %s x %s", "## %sx%s", "##%s x %s", "## %s X %s", "# %s x %s", "## %s %s", "## %s x %s x 3", "  ## %s x %s", "## %s x %s # c", "%s x %s"};
    const char *a = D[g.i(0, 19)], *b = D[g.i(0, 19)];
    return fmt(F[g.p(0.7) ? 0 : g.i(0, 9)], a, b);
}
static string mutate(Rng& g, string s, const char* kind, int n)
{
    for (; n > 0; --n) {
        vector<string> L = lines(s);
        int m = (int) L.size();
        bool final = s.empty() || s.back() == '\n';
        int w = g.i(0, 17);
        auto join = [&]() { s.clear(); for (size_t k = 0; k < L.size(); ++k) { s += L[k]; if (k + 1 < L.size() || final) s += "\n"; } };
        switch (w) {
        case 0: s.resize(g.i(0, (int) s.size())); break;
        case 1: if (m) { int k = g.i(0, m - 1); L.erase(L.begin() + k, L.begin() + std::min(m, k + g.i(1, 3))); join(); } break;
        case 2: if (m) { int k = g.i(0, m - 1); string x = L[k]; L.insert(L.begin() + g.i(0, m), x); join(); } break;
        case 3: if (m) { std::swap(L[g.i(0, m - 1)], L[g.i(0, m - 1)]); join(); } break;
        case 4: case 5: if (m) { L[g.i(0, m - 1)] = hostile_number(g) + " " + hostile_number(g); join(); } break;
        case 6: if (!s.empty()) s[g.i(0, (int) s.size() - 1)] ^= (char) (1 << g.i(0, 7)); break;
        case 7: s.insert(g.i(0, (int) s.size()), 1, (char) g.i(0, 255)); break;
        case 8: if (!s.empty()) s.erase(g.i(0, (int) s.size() - 1), g.i(1, 5)); break;
        case 9: s.insert(g.i(0, (int) s.size()), string(g.i(1, 4), '\0')); break;
        case 10: case 11: if (m) { int k = 0; if (g.p(0.3)) k = g.i(0, m - 1); L[k] = hostile_header(g); join(); } break;
        case 12: {                                             // beyond the line buffers
            static const int N[] = {510, 511, 512, 1023, 1024, 2046, 2047, 2048, 2049, 4096, 10237, 10238, 10239, 10240, 10241, 20480, 50000, 65536};
            int k = N[g.i(0, 17)];
            string x = g.p(0.3) ? string(k, ' ') : g.p(0.3) ? string(k, '9') : g.p(0.3) ? "1 2 " + string(k, 'y') : g.p(0.5) ? "#" + string(k, '#') : string(k, (char) g.i(1, 255));
            if (m && g.p(0.5)) { int q = g.i(0, m - 1); L[q] = g.p(0.5) ? x : L[q] + " " + x; }
            else L.insert(L.begin() + g.i(0, m), x);
            join();
            break;
        }
        case 13: if (m) { int k = g.i(0, m - 1); size_t sp = L[k].find(' '); if (sp != string::npos) { if (g.p(0.5)) L[k] = hostile_number(g) + L[k].substr(sp); else L[k] = L[k].substr(0, sp + 1) + hostile_number(g); } join(); } break;
        case 14: for (auto& l : L) if (g.p(0.1)) l = g.p(0.5) ? "NaN NaN" : ""; join(); break;
        case 15: { string t; for (char ch : s) { if (ch == '\n') t += "\r\n"; else t += ch; } s = t; break; }
        case 16: if (g.p(0.3)) { s.clear(); for (int k = g.i(0, 2000); k > 0; --k) s += (char) g.i(0, 255); } else if (g.p(0.2)) s.clear(); else s += s; break;
        default: if (m) { int k = g.i(0, m - 1); L[k] = string(g.i(0, 3), g.p(0.5) ? '#' : ' ') + L[k]; join(); } break;
        }
    }
    (void) kind;
    if (s.size() > 2000000) s.resize(2000000);
    return s;
}
// announced sizes that are neither small nor absurd would only cost time and space
static bool costly(const string& s)
{
    for (size_t p = s.find("##"); p != string::npos; p = s.find("##", p + 1)) {
        int a = 0, b = 0;
        if (sscanf(s.c_str() + p, "## %d x %d", &a, &b) == 2 && a > 0 && b > 0 && (double) a * b > 2e7 && (double) a * b < 2.2e9) return true;
    }
    return false;
}
static bool costly_option(const vector<string>& a)
{
    // insertgrid at a location of some thousands in both directions would print hundreds of millions of lines
    int big = 0;
    for (auto& x : a) { char* e; long v = strtol(x.c_str(), &e, 10); if (v > 300 && v < 2000000000) big++; }
    return a[0] == "insertgrid" && big > 0;
}
static void tools(Case& c)
{
    Rng& g = c.rng;
    Scen s = gen_scen(c, true, g.p(0.05) ? 40 : 10);
    bool mf = g.p(0.75), mo = !mf || g.p(0.25);
    int nm = 0;
    if (mf) {
        for (auto& f : s.f) {
            if (s.f.size() > 1 && g.p(0.4)) continue;
            f = mutate(g, f, "", g.p(0.6) ? 1 : g.i(2, 6));
            nm++;
        }
        if (s.f.size() > 1 && g.p(0.03)) std::swap(s.f[0], s.f[1]);
    }
    if (mo) {
        for (int k = g.i(1, 3); k > 0; --k) {
            int m = (int) s.a.size(), w = g.i(0, 7), q = g.i(1, m - 1);
            static const char* O[] = {"-a", "-b", "-c", "-d", "-f", "-g", "-h", "-i", "-j", "-k", "-m", "-n", "-o", "-p", "-r", "-v", "-x", "-y", "-z", "-", "--", "-Q", "-%s", "stdin"};
            if (m < 2) break;
            switch (w) {
            case 0: s.a.erase(s.a.begin() + q); break;
            case 1: s.a.insert(s.a.begin() + q, s.a[g.i(1, m - 1)]); break;
            case 2: case 3: if (s.a[q][0] != '@') s.a[q] = hostile_number(g); break;
            case 4: s.a.insert(s.a.begin() + q, O[g.i(0, 23)]); break;
            case 5: s.a.resize(q + 1); break;
            case 6: std::swap(s.a[q], s.a[g.i(1, m - 1)]); break;
            default: {
                if (s.a[q][0] == '@') break;
                static const char* V[] = {"-1:-1", "0:0", "5:2", ":", "0:2147483647", "-2147483648:2147483647", "1:", ":3", "0x1", "0x0", "-1x-1", "2147483647x2147483647", "65536x65536", "3x", "DD", "CE", "CO", "cO", "", "2147483647", "-2147483648", "99999999999"};
                s.a[q] = V[g.i(0, 21)];
            }
            }
        }
    }
    for (auto& f : s.f) if (costly(f)) { count("inputs left out as too large"); return; }
    for (auto& x : s.a) { int p, q; if (sscanf(x.c_str(), "%dx%d", &p, &q) == 2 && (double) p * q > 2e7 && (double) p * q < 2.2e9) return; }
    if (costly_option(s.a)) return;
    RunOpt o;
    bool ms = g.p(0.35);
    if (ms) o.dir = G.msan;
    int in = g.p(0.3) && !s.f.empty() ? g.i(0, (int) s.f.size() - 1) : -1;
    vector<string> a = scen_args(s, in, o, g.p(0.5));
    for (auto& x : a) if (x.find('\0') != string::npos) x = x.c_str();
    Run r = run_tool(a, o);
    evals();
    if (r.status > 0 && r.err.empty() && r.out.empty()) fail("silent", "%s: status %d without a message", cmdline(a).c_str(), r.status);
    count(r.ok() ? "tool runs that completed" : "tool runs that stopped with an error");
    count(ms ? "tool runs under MemorySanitizer" : "tool runs under AddressSanitizer and UndefinedBehaviorSanitizer");
    count(("tool " + s.a[0]).c_str());
    nontrivial(s.sig());
    sample(cmdline(a) + fmt(": status %d", r.status));
}
static double wild(Rng& g, double base)
{
    static const double W[] = {0, -0.0, 1e308, -1e308, 1e200, 1e-200, 5e-324, INFINITY, -INFINITY, 1e16, -1e16, DBL_MAX, DBL_MIN};
    return g.p(0.7) ? base : g.p(0.5) ? W[g.i(0, 12)] : g.u(-1, 1) * pow(10, g.u(-20, 20));
}
// all library calls on anything
static void library(Case& c)
{
    Rng& g = c.rng;
    NODETYPE t = (NODETYPE) g.i(0, 3);
    int quits_ = 0, mode = g.i(0, 4);
    uint64_t sig = 0;
    auto Q = [&](std::function<void()> f) { evals(); if (quits(f)) quits_++; };
    NG n = gen_ng(g, t == NT_NONE ? NT_COR : t, g.p(0.1) ? 40 : 12, false);
    if (mode == 1 || mode == 4) { Grid r = g.p(0.5) ? gen_any_grid(c, 15) : gen_disc_grid(c, 15); n = NG(r.n1 + 1, r.n2 + 1, NT_COR); n.X = r.X; n.Y = r.Y; if (t != NT_NONE && t != NT_COR) { n = m_co2(n, t).g; } }
    if (n.nx < 1 || n.ny < 1) return;
    if (mode == 2) for (size_t k = 0; k < n.X.size(); ++k) if (!std::isnan(n.X[k])) { n.X[k] = wild(g, n.X[k]); n.Y[k] = wild(g, n.Y[k]); }
    if (mode == 3) for (size_t k = 0; k < n.X.size(); ++k) if (!std::isnan(n.X[k])) { n.X[k] = g.i(0, 4); n.Y[k] = g.i(0, 4); }
    if (mode == 4) for (size_t k = 0; k < n.X.size(); ++k) if (g.p(0.02)) { if (g.p(0.3)) n.X[k] = NAN; else if (g.p(0.5)) n.Y[k] = NAN; else n.X[k] = wild(g, n.X[k]); }
    sig = n.sig() ^ t;
    n.t = t;
    auto pt = [&](double& x, double& y) { size_t k = g.i(0, (int) n.X.size() - 1); x = wild(g, n.X[k] + (g.p(0.5) ? g.u(-1, 1) : 0)); y = wild(g, n.Y[k] + (g.p(0.5) ? g.u(-1, 1) : 0)); if (g.p(0.05)) x = NAN; if (g.p(0.05)) y = NAN; };
    gridnodes* gn = NULL;
    bool viaread = g.p(0.3);
    Q([&] {
        if (viaread) { writefile(wf("l.txt"), grid_text(n.X, n.Y, n.nx, n.ny)); gn = gridnodes_read((char*) wf("l.txt").c_str(), t); }
        else { gn = gridnodes_create(n.nx, n.ny, t); for (size_t k = 0; k < n.X.size(); ++k) gridnodes_readnextpoint(gn, n.X[k], n.Y[k]); }
    });
    if (!gn) { count("library histories ended by a refusal"); nontrivial(sig); return; }
    int ops = g.i(1, 12);
    bool val = false;
    for (int k = 0; k < ops && !quits_; ++k) {
        int nx = gridnodes_getnx(gn), ny = gridnodes_getny(gn), n1 = gridnodes_getnce1(gn), n2 = gridnodes_getnce2(gn);
        switch (g.i(0, 13)) {
        case 0: Q([&] { gridnodes_validate(gn); }); val = true; break;
        case 1: Q([&] { gridnodes_calcstats(gn); }); break;
        case 2: Q([&] { gridnodes* q = gridnodes_copy(gn); gridnodes_destroy(gn); gn = q; }); break;
        case 3: case 4: {
            NODETYPE nt = (NODETYPE) g.i(0, 3);
            if (g.p(0.5)) gridnodes_setmaptype(gn, g.i(0, 1));
            if ((double) nx * ny > 4000) break;
            Q([&] { gridnodes* q = gridnodes_transform(gn, nt); gridnodes_destroy(gn); gn = q; t = nt; });
            break;
        }
        case 5: {
            int v[4];
            for (int& x : v) x = g.p(0.7) ? g.i(-2, std::max(nx, ny) + 1) : g.pick(vector<int>{INT_MIN, INT_MAX, -1, 0});
            Q([&] { gridnodes* q = gridnodes_subgrid(gn, v[0], v[1], v[2], v[3]); gridnodes_destroy(gn); gn = q; });
            break;
        }
        case 6: {
            if (n1 < 1 || n2 < 1) break;
            if (!val && g.p(0.8)) { Q([&] { gridnodes_validate(gn); }); val = true; }
            int** m = (int**) gu_alloc2d(n2, n1, sizeof(int));
            for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) m[j][i] = g.p(0.7);
            Q([&] { gridnodes_applymask(gn, m); });
            gu_free2d(m);
            break;
        }
        case 7: Q([&] { gridnodes_write(gn, (char*) wf("o.txt").c_str(), (COORDTYPE) g.i(0, 2)); }); break;
        case 8: case 9: {                                   // maps
            Q([&] { gridnodes_validate(gn); });           // maps are specified for validated grids only
            val = true;
            if (quits_) break;
            if (t != NT_COR) break;
            gridmap* gm = NULL;
            int ty = g.i(0, 1);
            Q([&] { gm = gridmap_build(n1, n2, gridnodes_getx(gn), gridnodes_gety(gn), ty); });
            if (!gm) break;
            gridaverager* ga = ga_create(gm);
            for (int q = 0; q < 30; ++q) {
                double x, y, a, b;
                int i, j;
                pt(x, y);
                switch (g.i(0, 4)) {
                case 0: Q([&] { if (gridmap_xy2ij(gm, x, y, &i, &j) && (i < 0 || j < 0 || i >= n1 || j >= n2)) fail("range", "started as %s: xy2ij of %s map of %d x %d cells gives cell (%d, %d) for (%.17g, %.17g)", n.desc().c_str(), ty ? "kd" : "binary", n1, n2, i, j, x, y); }); break;
                case 1: Q([&] { gridmap_xy2fij(gm, x, y, &a, &b); }); break;
                case 2: Q([&] { gridmap_fij2xy(gm, wild(g, g.u(-1, n1 + 1)), wild(g, g.p(0.1) ? NAN : g.u(-1, n2 + 1)), &a, &b); }); break;
                case 3: { point p = {x, y, 1}; Q([&] { ga_addpoints(ga, 1, &p); }); break; }
                default: { point p = {x, y, 1}; Q([&] { ga_getvalue(ga, &p); }); break; }
                }
            }
            ga_destroy(ga);
            gridmap_destroy(gm);
            if (ty == 0) {
                gridkmap* km = NULL;
                gridbmap* bm = NULL;
                Q([&] { km = gridkmap_build(n1, n2, gridnodes_getx(gn), gridnodes_gety(gn)); });
                Q([&] { bm = gridbmap_build(n1, n2, gridnodes_getx(gn), gridnodes_gety(gn)); });
                for (int q = 0; q < 20; ++q) {
                    double x, y, e[4];
                    int i = -1, j = -1;
                    pt(x, y);
                    if (km) Q([&] { gridkmap_xy2ij(km, x, y, &i, &j); });
                    if (bm) Q([&] { gridbmap_xy2ij(bm, x, y, &i, &j); gridbmap_getextent(bm, e, e + 1, e + 2, e + 3); });
                }
                if (km) gridkmap_destroy(km);
                if (bm) gridbmap_destroy(bm);
            }
            break;
        }
        case 10: {                                          // boundary
            if (t != NT_COR) break;
            if (g.p(0.8)) { Q([&] { gridnodes_validate(gn); }); val = true; }
            poly* p = NULL;
            bool ij = g.p(0.5);
            Q([&] { p = ij ? poly_formboundij(n1, n2, gridnodes_getx(gn)) : poly_formbound(n1, n2, gridnodes_getx(gn), gridnodes_gety(gn)); if (g.p(0.5)) poly_compact(p, 1e-10); });
            if (p) poly_destroy(p);
            break;
        }
        case 11: {                                          // polylines
            poly* p = poly_create();
            vector<poly*> others;
            for (int q = g.i(0, 60); q > 0; --q) Q([&] { double x, y; if (g.p(0.6)) { x = g.i(0, 3); y = g.i(0, 3); } else pt(x, y); poly_addpoint(p, x, y); });
            quits_ = 0;
            for (int q = 0; q < 12; ++q) {
                double x, y;
                pt(x, y);
                switch (g.i(0, 11)) {
                case 0: Q([&] { poly_addpointat(p, g.i(0, p->n), x, y); }); break;
                case 1: { poly* w = poly_copy(p); others.push_back(w); if (p->n < 3000) Q([&] { poly_append(p, w); }); break; }
                case 2: Q([&] { poly_close(p); }); break;
                case 3: if (p->n) Q([&] { poly_deletepoint(p, g.i(0, p->n - 1)); }); break;
                case 4: Q([&] { poly_despike(p, fabs(wild(g, 0.5))); }); break;
                case 5: Q([&] { poly_resample(p, wild(g, 0.5)); }); break;
                case 6: Q([&] { poly_reverse(p); }); break;
                case 7: Q([&] { poly_compact(p, wild(g, 1e-10)); }); break;
                case 8: Q([&] { poly_clear(p); }); break;
                case 9: Q([&] { poly_containspoint(p, x, y); poly_findindex(p, x, y); poly_area(p); poly_isclosed(p, 1e-5); }); break;
                case 10: {
                    FILE* f = fopen(wf("p.txt").c_str(), "w+");
                    Q([&] { poly_write(p, f); });
                    rewind(f);
                    poly* w = poly_create();
                    Q([&] { poly_read(w, f); });
                    fclose(f);
                    others.push_back(w);
                    break;
                }
                default: {
                    writefile(wf("q.txt"), mutate(g, "# p\n1 2\n3 4\n5 6\n", "", g.i(1, 5)));
                    FILE* f = fopen(wf("q.txt").c_str(), "r");
                    poly* w = poly_create();
                    Q([&] { poly_read(w, f); });
                    fclose(f);
                    others.push_back(w);
                    break;
                }
                }
            }
            quits_ = 0;
            poly_destroy(p);
            for (auto w : others) poly_destroy(w);
            break;
        }
        case 12: {                                          // trees
            int nd = g.i(1, 4);
            kdtree* kt = kd_create(nd);
            for (int q = g.i(0, 6); q > 0; --q) {
                double x[4];
                for (double& v : x) v = wild(g, g.u());
                switch (g.i(0, 4)) {
                case 0: Q([&] { kd_insertnode(kt, x, q); }); break;
                case 1: {
                    int m = g.i(0, 60);
                    vector<vector<double>> A(nd, vector<double>(m + 1));
                    vector<double*> sp;
                    for (auto& v : A) { for (auto& w : v) w = wild(g, g.i(0, 9)); sp.push_back(v.data()); }
                    Q([&] { kd_insertnodes(kt, m, sp.data(), g.i(0, 1)); });
                    break;
                }
                case 2: Q([&] { if (g.p(0.1)) x[0] = NAN; size_t w = kd_findnearestnode(kt, x); if (w < kd_getsize(kt)) { kd_getnodecoords(kt, w)[0]; kd_getnodeorigid(kt, w); } else if (kd_getsize(kt) && !std::isnan(x[0])) { bool f = true; for (int d = 0; d < nd; ++d) f &= std::isfinite(x[d]); if (f) fail("nearest", "nearest node of a tree of %d nodes is %zu", (int) kd_getsize(kt), w); } }); break;
                default: Q([&] { kdset* set = kd_findnodeswithinrange(kt, x, fabs(wild(g, 0.3)), g.i(0, 1)); double d; for (int z = 0; z < 5; ++z) kdset_read(set, &d); kdset_free(set); }); break;
                }
            }
            quits_ = 0;
            kd_destroy(kt);
            break;
        }
        default: {
            writefile(wf("m.txt"), mutate(g, scen_mask(g, 6), "", g.i(0, 3)));
            int a = g.i(-1, 4), b = g.i(-1, 4);
            Q([&] { int** m = gu_readmask((char*) wf("m.txt").c_str(), a, b); gu_free2d(m); });
            quits_ = 0;
            string h = hostile_header(g) + "\n" + mutate(g, "1 2\n3 4\n5 6\n7 8\n", "", g.i(0, 3));
            if (!costly(h)) { writefile(wf("r.txt"), h); Q([&] { gridnodes* q = gridnodes_read((char*) wf("r.txt").c_str(), (NODETYPE) g.i(0, 3)); gridnodes_destroy(q); }); }
            quits_ = 0;
            size_t big[] = {0, 1, 3, 1000, (size_t) 1 << 33, (size_t) -1, (size_t) 1 << 62};
            Q([&] { void* p = gu_alloc2d(big[g.i(0, 6)], big[g.i(0, 6)], big[g.i(1, 6)]); gu_free2d(p); });
            quits_ = 0;
        }
        }
    }
    count(quits_ ? "library histories ended by a refusal" : "library histories completed");
    if (gn && !quits_) gridnodes_destroy(gn);
    nontrivial(sig);
}
void run_case(Case& c)
{
    if (c.no % 3 == 0) { tools(c); return; }
    try { library(c); }
    catch (QuitEx&) { count("library histories ended by a refusal"); }
}
