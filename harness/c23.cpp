#include "gn.hpp"
#include "stubs/surface.h"
const char* PROP = "C23";
const char* RULE = "gridbathy, linked with stand-ins for the interpolation libraries that give a known surface for each rule and data set (with areas without values), runs on disc grids of all geometries with random data, masks, points per edge 1 to 10, depth ranges (none, one-sided, narrow), all five rules, physical and index space, corner and double-density input, single cells, file and standard input; every line is compared with the definition evaluated at the exact positions; inadmissible options and data must be refused; non-trivial if numbers and NaN were printed; distinct by input and options";
long ncases(bool t) { return t ? 60000 : 8000; }

struct Bathy { double x, y, z; };
void run_case(Case& c)
{
    Rng& g = c.rng;
    Grid r = gen_disc_grid(c, 12);
    bool dd = g.p(0.5), xs = g.p(0.4), one = g.p(0.25);
    int rule = g.i(0, 4), ppe = g.p(0.3) ? 3 : g.i(1, 10), badopt = g.p(0.12) ? g.i(1, 8) : 0;
    NG n(r.n1 + 1, r.n2 + 1, NT_COR);
    n.X = r.X; n.Y = r.Y;
    if (!dd && g.p(0.3)) {                          // stray nodes, removed by validation
        vector<char> v = region_nodes(r.cell);
        for (int k = 0; k < 6; ++k) {
            int w = g.i(0, (int) v.size() - 1);
            if (v[w]) continue;
            v[w] = 1;
            if (cells_of_nodes(r.n1, r.n2, v).c != r.cell.c) v[w] = 0;
        }
        for (size_t k = 0; k < v.size(); ++k) if (v[k]) { n.X[k] = r.FX[k]; n.Y[k] = r.FY[k]; }
    }
    NG in = dd ? m_co2(n, NT_DD).g : n;
    string gt = ng_text(in), bt, mt;
    // the map the tool uses
    gridnodes* gn = ng_make(n);
    gridnodes_validate(gn);
    gridmap* gm = gridmap_build2(gn);
    // data
    int nb = g.p(0.1) ? 3 : g.p(0.2) ? g.i(100, 600) : g.i(3, 60);
    if (large(g)) { nb = g.i(900, 9000); count("thousands of data"); }
    if (badopt == 1) nb = g.i(0, 2);
    vector<Bathy> B;
    for (int k = 0; k < nb; ++k) {
        Bathy b;
        ld x, y;
        int cell = g.i(0, r.n1 * r.n2 - 1);
        for (int t = 0; t < 3 && !r.cell.c[cell]; ++t) cell = g.i(0, r.n1 * r.n2 - 1);
        bilin(r.FX, r.n1, cell % r.n1, cell / r.n1, g.u(0.05, 0.95), g.u(0.05, 0.95), r.FY, x, y);
        b.x = (double) x; b.y = (double) y;
        if (g.p(0.1)) { b.x += (g.u() - 0.5) * 4 * r.maxdiam; b.y += (g.u() - 0.5) * 4 * r.maxdiam; }
        b.z = strtod(fmt("%.2f", g.u(-200, 200)).c_str(), NULL);
        if (g.p(0.1)) bt += g.p(0.5) ? "# remark\n" : "\n";
        bt += fmt("%.17g %.17g %.2f\n", b.x, b.y, b.z);
        B.push_back(b);
    }
    // mask
    vector<char> mask(r.n1 * r.n2, 1);
    bool masked = g.p(0.4);
    if (masked) {
        double d = g.pick(vector<double>{0, 0.2, 0.5, 0.9, 1});
        for (auto& m : mask) { m = !g.p(d); mt += m ? "1\n" : "0\n"; }
    }
    double zmin = -DBL_MAX, zmax = DBL_MAX;
    vector<string> range;
    if (g.p(0.5)) {
        double a = g.u(-250, 350), b = g.p(0.3) ? a + g.u(0.1, 20) : g.u(-250, 350);
        if (a > b) std::swap(a, b);
        if (g.p(0.2)) a = -1e6;
        if (g.p(0.2)) b = 1e6;
        if (g.p(0.15)) { a = 0; b = fabs(b) + 1; }      // whole cells limited to zero
        else if (g.p(0.15)) { b = 0; a = -fabs(a) - 1; }
        string sa = fmt("%.2f", a), sb = fmt("%.2f", b);
        zmin = strtod(sa.c_str(), NULL); zmax = strtod(sb.c_str(), NULL);
        if (zmin >= zmax) { zmin = -10; zmax = 10; sa = "-10"; sb = "10"; }
        if (badopt == 2) std::swap(sa, sb);
        range = {"-r", sa, sb};
    } else if (badopt == 2) range = {"-r", "5", "5"};
    int ci = g.i(0, r.n1 - 1), cj = g.i(0, r.n2 - 1);
    if (badopt == 3) { one = true; int w = g.i(0, 3); if (w == 0) ci = r.n1 + g.i(0, 2); else if (w == 1) cj = r.n2 + g.i(0, 2); else if (w == 2) ci = -1 - g.i(0, 1); else cj = -1 - g.i(0, 1); }

    vector<vector<string>> opt;
    RunOpt o;
    int src = g.i(0, 4);
    auto file = [&](const char* sw, const char* name, const string& text, bool in) {
        if (in) { o.usein = true; o.in = text; opt.push_back({sw, g.p(0.5) ? "-" : "stdin"}); }
        else { writefile(wf(name), text); opt.push_back({sw, wf(name)}); }
    };
    if (badopt != 7) file("-b", "b.txt", bt, src == 0);
    if (badopt != 8) file("-g", "g.txt", gt, src == 1);
    if (masked) file("-m", "m.txt", mt, src == 2);
    if (badopt == 4) opt.push_back({"-a", g.p(0.5) ? "5" : "-1"});
    else if (rule || g.p(0.5)) opt.push_back({"-a", fmt("%d", rule)});
    if (badopt == 5) opt.push_back({"-n", g.p(0.5) ? "0" : g.p(0.5) ? "11" : "-3"});
    else if (ppe != 3 || g.p(0.5)) opt.push_back({"-n", fmt("%d", ppe)});
    if (badopt == 6) opt.push_back({"-i", g.p(0.5) ? "CE" : "XX"});
    else if (!dd || g.p(0.5)) opt.push_back({"-i", dd ? "DD" : "CO"});
    if (one) opt.push_back({"-c", fmt("%d", ci), fmt("%d", cj)});
    if (!range.empty()) opt.push_back(range);
    if (xs) opt.push_back({"-x"});
    if (g.p(0.1)) opt.push_back({"-v"});
    vector<string> a = {"gridbathy"};
    while (!opt.empty()) { int k = g.i(0, (int) opt.size() - 1); for (auto& s : opt[k]) a.push_back(s); opt.erase(opt.begin() + k); }
    string what = cmdline(a) + " (" + r.desc + fmt(", %d data)", nb);
    Run t = run_tool(a, o);
    if (badopt) {
        static const char* W[] = {"", "fewer than 3 data", "empty depth range", "cell outside the grid", "unknown rule", "points per edge", "node type", "no data", "no grid"};
        evals();
        gridmap_destroy(gm);
        gridnodes_destroy(gn);
        if (!t.refused() || t.err.empty()) fail("refusal", "%s: %s, but status %d, message \"%s\"", what.c_str(), W[badopt], t.status, t.err.substr(0, 200).c_str());
        if (!t.out.empty()) fail("refusal", "%s: %s, but wrote \"%s\"", what.c_str(), W[badopt], t.out.substr(0, 100).c_str());
        count((string("refused: ") + W[badopt]).c_str());
        return;
    }
    if (!t.ok()) fail("refused", "%s: refused: %s", what.c_str(), t.err.substr(0, 400).c_str());
    // data as the interpolator should get them
    bool index = xs && rule != 4;
    vector<Bathy> D;
    for (auto& b : B) {
        if (!index) { D.push_back(b); continue; }
        Bathy q = b;
        if (gridmap_xy2fij(gm, b.x, b.y, &q.x, &q.y)) D.push_back(q);
    }
    surface f;
    memset(&f, 0, sizeof f);
    surface_init(&f, (int) D.size(), D.empty() ? NULL : &D[0].x, D.empty() ? NULL : &D[0].y, D.empty() ? NULL : &D[0].z, 3);
    vector<vector<double>> avg((size_t) r.n1 * r.n2);
    if (rule == 4) for (auto& b : B) { int i, j; if (gridmap_xy2ij(gm, b.x, b.y, &i, &j)) avg[(size_t) j * r.n1 + i].push_back(b.z); }
    gridmap_destroy(gm);
    gridnodes_destroy(gn);

    vector<string> L = lines(t.out);
    int want = one ? 1 : r.n1 * r.n2, nan = 0, num = 0, unsure = 0, clipped = 0;
    if ((int) L.size() != want || t.out.empty() || t.out.back() != '\n') fail("lines", "%s: %d lines printed, %d expected", what.c_str(), (int) L.size(), want);
    for (int k = 0; k < want; ++k) {
        int i = one ? ci : k % r.n1, j = one ? cj : k / r.n1;
        size_t cell = (size_t) j * r.n1 + i;
        bool isnan_ = L[k] == "NaN";
        evals();
        if (!mask[cell] || !r.cell.at(i, j)) {
            if (!isnan_) fail("cell", "%s: cell (%d, %d) %s, but \"%s\" was printed", what.c_str(), i, j, mask[cell] ? "lacks a corner" : "is masked", L[k].c_str());
            nan++;
            continue;
        }
        ld sum = 0;
        int cnt = 0;
        bool doubt = false;
        if (rule == 4) {
            for (double z : avg[cell]) { sum += z; cnt++; }
            if (cnt) { ld m = sum / cnt; clipped += m < zmin || m > zmax; sum = m < zmin ? zmin : m > zmax ? zmax : m; cnt = 1; }
        } else {
            for (int p = 0; p < ppe && !doubt; ++p)
                for (int q = 0; q < ppe; ++q) {
                    ld u = (p + 0.5L) / ppe, v = (q + 0.5L) / ppe, x = i + u, y = j + v;
                    if (!index) bilin(r.FX, r.n1, i, j, u, v, r.FY, x, y);
                    if (D.empty() || !(f.s > 0)) continue;
                    double m = surface_margin(&f, rule, (double) x, (double) y);
                    if (fabs(m) < 1e-6) { doubt = true; break; }
                    if (m <= 0) continue;
                    double z = surface_value(&f, rule, (double) x, (double) y);
                    clipped += z < zmin || z > zmax;
                    sum += z < zmin ? zmin : z > zmax ? zmax : z;
                    cnt++;
                }
        }
        if (doubt) { unsure++; continue; }
        if (cnt == 0) {
            if (!isnan_) fail("value", "%s: no value is available in cell (%d, %d), but \"%s\" was printed", what.c_str(), i, j, L[k].c_str());
            nan++;
            continue;
        }
        char* e;
        double v = strtod(L[k].c_str(), &e), w = (double) (sum / cnt);
        if (isnan_ || *e || L[k].size() < 4 || L[k][L[k].size() - 3] != '.') fail("value", "%s: line for cell (%d, %d) is \"%s\", expected %.2f (of %d values)", what.c_str(), i, j, L[k].c_str(), w, cnt);
        if (fabs(v - w) > 0.005 + 1e-5 + 1e-9 * fabs(w)) fail("value", "%s: cell (%d, %d) is %s, expected %.4f (of %d values)", what.c_str(), i, j, L[k].c_str(), w, cnt);
        num++;
    }
    count("cells with a number", num);
    count("cells printed as NaN", nan);
    count("cells not compared (a position at the rim of the area with values)", unsure);
    count("values limited to the range", clipped);
    count(fmt("runs with rule %d", rule).c_str());
    if (index) count("runs in index space");
    if (one) count("runs for a single cell");
    if (num && nan) nontrivial(hashstr(gt) ^ hashstr(bt, 7) ^ hashstr(cmdline(a), 9));
    sample(what + fmt(": %d numbers, %d NaN", num, nan));
}
