#include "gn.hpp"
const char* PROP = "C34";
const char* RULE = "pipelines of the sanitized tools on disc grids (and on any grids where these do) of all geometries: two or more routes to the same result, the output of one tool being the input of the next, are run and their outputs compared byte by byte (or, for there-and-back conversions of points, within rounding): node types, windows, insertions, masks, columns, boundaries, points in batches, single cells, values set in windows; non-trivial if at least 3 relations were compared on a grid with missing cells or more than 4 cells; distinct by grid and relations";
long ncases(bool t) { return t ? 60000 : 1600; }

static string file(const char* name, const string& text) { writefile(wf(name), text); return wf(name); }
static string go(const vector<string>& a, const string& what)
{
    Run t = run_tool(a);
    count("tool runs in pipelines");
    if (!t.ok()) fail("refused", "%s: \"%s\" refused: %s", what.c_str(), cmdline(a).c_str(), t.err.substr(0, 300).c_str());
    return t.out;
}
static void same_text(const char* key, const string& what, const string& a, const string& b)
{
    evals();
    if (a == b) return;
    vector<string> x = lines(a), y = lines(b);
    size_t k = 0;
    while (k < x.size() && k < y.size() && x[k] == y[k]) ++k;
    fail(key, "%s: line %zu is \"%s\" by one route and \"%s\" by the other (%zu and %zu lines)", what.c_str(), k + 1, k < x.size() ? x[k].c_str() : "(none)", k < y.size() ? y[k].c_str() : "(none)", x.size(), y.size());
}
// the same values by two computations: equal within rounding
static void near_text(const char* key, const string& what, const string& a, const string& b, double cmax)
{
    evals();
    vector<string> x = lines(a), y = lines(b);
    bool ok = x.size() == y.size() && !x.empty() && x[0] == y[0];
    size_t k = 1;
    for (; ok && k < x.size(); ++k) {
        double u = NAN, v = NAN, s = NAN, t = NAN;
        if (x[k] == y[k]) continue;
        ok = sscanf(x[k].c_str(), "%lf %lf", &u, &v) == 2 && sscanf(y[k].c_str(), "%lf %lf", &s, &t) == 2 && fabs(u - s) <= 3e-14 * cmax && fabs(v - t) <= 3e-14 * cmax;
        if (!ok) break;
        count("the same within rounding");
    }
    if (!ok) fail(key, "%s: line %zu is \"%s\" by one route and \"%s\" by the other (%zu and %zu lines)", what.c_str(), k + 1, k < x.size() ? x[k].c_str() : "(none)", k < y.size() ? y[k].c_str() : "(none)", x.size(), y.size());
}
static string masktext(const vector<int>& m) { string s; for (int v : m) s += v ? "1\n" : "0\n"; return s; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    bool disc = g.p(0.7);               // others for the operations that do not need one region
    Grid r = disc ? gen_disc_grid(c, 14) : gen_any_grid(c, 14);
    NG in(r.n1 + 1, r.n2 + 1, NT_COR);
    in.X = r.X; in.Y = r.Y;
    string what = r.desc;
    // the grid as the tools write it
    string CO = go({"getnodes", file("g0", ng_text(in)), "-i", "CO", "-o", "CO"}, what);
    file("co", CO);
    int nx, ny;
    vector<double> X, Y;
    if (!parse_grid(CO, nx, ny, X, Y) || nx != r.n1 + 1 || ny != r.n2 + 1) fail("format", "%s: unreadable output of getnodes", what.c_str());
    string DD, CE;
    if (disc) {
        DD = go({"getnodes", wf("co"), "-i", "CO", "-o", "DD"}, what);
        CE = go({"getnodes", wf("co"), "-i", "CO", "-o", "CE"}, what);
    } else {                                    // (conversion from corners needs one region without holes)
        NG v(nx, ny, NT_COR);
        v.X = X; v.Y = Y;
        NG d = m_co2(v, NT_DD).g;
        for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) if (v.ok(i, j)) d.put(2 * i, 2 * j, v.X[v.id(i, j)], v.Y[v.id(i, j)]);   // zeros with their signs
        DD = go({"getnodes", file("d0", ng_text(d))}, what);
        CE = go({"getnodes", file("dd", DD), "-o", "CE"}, what);
    }
    file("dd", DD);
    file("ce", CE);
    auto rng2 = [&](int n, int& a, int& b) { a = g.i(0, n - 1); b = g.i(a, n - 1); };
    struct Gr { const char* f; const char* t; const string* s; int nx, ny; };
    vector<Gr> kinds = {{"co", "CO", &CO, nx, ny}, {"dd", "DD", &DD, 2 * r.n1 + 1, 2 * r.n2 + 1}, {"ce", "CE", &CE, r.n1, r.n2}};
    uint64_t sig = hashbytes(CO.data(), CO.size(), 3);
    int done = 0, nrel = g.i(3, 6);
    for (int q = 0; q < nrel; ++q) {
        int rel = g.i(0, 13);
        if (!disc && (rel == 1 || rel == 2 || rel == 10 || rel == 11)) rel = g.p(0.5) ? 3 : 8;
        sig = mix64(sig ^ rel);
        done++;
        switch (rel) {
        case 0: {                               // node types
            same_text("types", what + ": CO to DD to CO", go({"getnodes", wf("dd"), "-i", "DD", "-o", "CO"}, what), CO);
            near_text("types", what + ": CO to DD to CE, CO to CE", go({"getnodes", wf("dd"), "-i", "DD", "-o", "CE"}, what), CE, r.cmax);
            same_text("types", what + ": DD to DD", go({"getnodes", wf("dd")}, what), DD);
            same_text("types", what + ": CE to CE", go({"getnodes", wf("ce"), "-i", "CE", "-o", "CE"}, what), CE);
            count("relation: node types");
            break;
        }
        case 1: {                               // boundary by node type
            vector<string> o;
            if (g.p(0.5)) o.push_back("-c");
            if (g.p(0.5)) o.push_back("-r");
            vector<string> a = {"getbound", wf("co"), "-i", "CO"}, b = {"getbound", wf("dd"), "-i", "DD"};
            for (auto& s : o) { a.push_back(s); b.push_back(s); }
            same_text("boundary", what + ": boundary of CO and DD nodes", go(a, what), go(b, what));
            count("relation: boundary by node type");
            break;
        }
        case 2: {                               // boundary in indices, converted, is the boundary
            string ij = go({"getbound", wf("co"), "-i", "CO", "-r"}, what), xy = go({"getbound", wf("co"), "-i", "CO"}, what);
            vector<string> a = {"xy2ij", "-i", "CO", "-r", "-g", wf("co"), "-o", file("ij", ij)};
            if (g.p(0.5)) a.push_back("-k");
            vector<string> p = lines(go(a, what)), w = lines(xy);
            evals();
            if (p.size() != w.size()) fail("boundary", "%s: %zu vertices in index space, %zu in physical space", what.c_str(), p.size(), w.size());
            for (size_t k = 0; k < p.size(); ++k) {
                if (p[k][0] == '#' || w[k][0] == '#') { evals(); if (p[k] != w[k]) fail("boundary", "%s: \"%s\" and \"%s\"", what.c_str(), p[k].c_str(), w[k].c_str()); continue; }
                double u = NAN, v = NAN, x = NAN, y = NAN;
                int n1 = sscanf(p[k].c_str(), "%lf %lf", &u, &v), n2 = sscanf(w[k].c_str(), "%lf %lf", &x, &y);
                evals();
                if (n1 != 2 || n2 != 2 || fabs(u - x) > 2e-14 * fabs(x) || fabs(v - y) > 2e-14 * fabs(y)) fail("boundary", "%s: vertex %zu is \"%s\" by its indices and \"%s\"", what.c_str(), k, p[k].c_str(), w[k].c_str());
            }
            count("relation: boundary by indices");
            break;
        }
        case 3: {                               // points by node type, batches
            string P, Q;
            int n = g.i(1, 40);
            bool rev = g.p(0.4);
            for (int k = 0; k < n; ++k) {
                string l;
                if (rev) l = fmt("%.10g %.10g", g.u(-0.5, r.n1 + 0.5), g.u(-0.5, r.n2 + 0.5));
                else { Pt pt = gen_query(g, r); l = fmt("%.17g %.17g", pt.x, pt.y); }
                if (g.p(0.1)) l = "# " + l;
                if (g.p(0.2)) l += fmt(" %d", k);
                (k < n / 2 ? P : Q) += l + "\n";
            }
            vector<string> o = {"-f", "-o"};
            if (rev) o.insert(o.begin(), "-r");
            if (!disc || g.p(0.4)) o.insert(o.begin(), "-k");
            auto run = [&](const char* gf, const char* t, const string& text) {
                vector<string> a = {"xy2ij", "-i", t, "-g", wf(gf)};
                a.insert(a.end(), o.begin(), o.end());
                a.push_back(file("p", text));
                return go(a, what);
            };
            string whole = run("co", "CO", P + Q);
            same_text("points", what + ": points with CO and DD nodes", whole, run("dd", "DD", P + Q));
            same_text("batches", what + ": points in two files", whole, (P.empty() ? "" : run("co", "CO", P)) + (Q.empty() ? "" : run("co", "CO", Q)));
            count("relation: points by node type and in batches");
            break;
        }
        case 4: {                               // there and back
            string P;
            vector<double> U, V;
            int n = g.i(1, 40);
            for (int k = 0; k < n; ++k) {
                int cell = g.i(0, r.n1 * r.n2 - 1);
                for (int t = 0; t < 20 && !r.cell.c[cell]; ++t) cell = g.i(0, r.n1 * r.n2 - 1);
                if (!r.cell.c[cell]) continue;
                U.push_back(cell % r.n1 + g.i(1, 15) / 16.0);
                V.push_back(cell / r.n1 + g.i(1, 15) / 16.0);
                P += fmt("%.17g %.17g\n", U.back(), V.back());
            }
            if (P.empty()) break;
            string map = disc && g.p(0.7) ? "-f" : "-kf", xy = go({"xy2ij", map.substr(0, 2), "-i", "CO", "-r", "-g", wf("co"), "-o", file("p", P)}, what);
            string ij = go({"xy2ij", map.substr(0, 2), "-f", "-i", "CO", "-g", wf("co"), "-o", file("q", xy)}, what);
            vector<string> l = lines(ij);
            evals();
            if (l.size() != U.size()) fail("back", "%s: %zu lines for %zu points", what.c_str(), l.size(), U.size());
            double tol = 1e-5 + 1e3 * loc_tol(r) / r.minedge + 1e-14 * 1e3 * r.cmax / r.minedge;
            for (size_t k = 0; k < U.size(); ++k) {
                double u = NAN, v = NAN;
                sscanf(l[k].c_str(), "%lf %lf", &u, &v);
                evals();
                if (map == "-kf" && std::isnan(u)) continue;        // no corner of the cell may be the nearest node
                if (!(fabs(u - U[k]) <= tol && fabs(v - V[k]) <= tol)) fail("back", "%s: indices (%.17g, %.17g) come back as \"%s\"", what.c_str(), U[k], V[k], l[k].c_str());
            }
            count("relation: there and back", (long) U.size());
            break;
        }
        case 5: {                               // window of a window
            const Gr& k = kinds[g.i(0, 2)];
            int a, b, e, z, a2, b2, e2, z2;
            rng2(k.nx, a, b); rng2(k.ny, e, z);
            rng2(b - a + 1, a2, b2); rng2(z - e + 1, e2, z2);
            string w = go({"subgrid", wf(k.f), "-i", fmt("%d:%d", a, b), "-j", fmt("%d:%d", e, z)}, what);
            string ww = go({"subgrid", file("w", w), "-i", fmt("%d:%d", a2, b2), "-j", fmt("%d:%d", e2, z2)}, what);
            same_text("window", what + ": window of a window", ww, go({"subgrid", wf(k.f), "-i", fmt("%d:%d", a + a2, a + b2), "-j", fmt("%d:%d", e + e2, e + z2)}, what));
            string wj = go({"subgrid", wf(k.f), "-j", fmt("%d:%d", e, z)}, what);
            same_text("window", what + ": rows, then columns", w, go({"subgrid", file("w", wj), "-i", fmt("%d:%d", a, b)}, what));
            same_text("window", what + ": whole", *k.s, go({"subgrid", wf(k.f)}, what));
            count("relation: windows");
            break;
        }
        case 6: {                               // cut out and put back
            const Gr& k = kinds[g.i(0, 2)];
            int a, b, e, z;
            rng2(k.nx, a, b); rng2(k.ny, e, z);
            string w = go({"subgrid", wf(k.f), "-i", fmt("%d:%d", a, b), "-j", fmt("%d:%d", e, z)}, what);
            file("w", w);
            vector<string> at = {fmt("%d", a), fmt("%d", e)};
            vector<string> ins = {"insertgrid", wf(k.f), wf("w"), at[0], at[1]};
            if (g.p(0.5)) ins.push_back("-m");
            if (g.p(0.5)) { ins.push_back("-i"); ins.push_back(k.t); }
            same_text("insert", what + ": a window put back", go(ins, what), *k.s);
            same_text("insert", what + ": a grid inserted into itself", go({"insertgrid", wf(k.f), wf(k.f), "0", "0"}, what), *k.s);
            count("relation: cut out and put back");
            break;
        }
        case 7: {                               // insert another grid, cut it out; twice
            const Gr& k = kinds[g.i(0, 2)];
            NG s(g.i(1, 8), g.i(1, 8), NT_COR);
            for (size_t n = 0; n < s.X.size(); ++n) { s.X[n] = g.p(0.2) ? QNAN : nice(g); s.Y[n] = std::isnan(s.X[n]) ? QNAN : nice(g); }
            string S = go({"subgrid", file("s0", ng_text(s))}, what);
            file("s", S);
            int a = g.i(0, k.nx + 2), b = g.i(0, k.ny + 2);
            string m = go({"insertgrid", wf(k.f), wf("s"), fmt("%d", a), fmt("%d", b)}, what);
            file("m", m);
            same_text("insert", what + ": an inserted grid cut out", go({"subgrid", wf("m"), "-i", fmt("%d:%d", a, a + s.nx - 1), "-j", fmt("%d:%d", b, b + s.ny - 1)}, what), S);
            same_text("insert", what + ": inserted twice", go({"insertgrid", wf("m"), wf("s"), fmt("%d", a), fmt("%d", b)}, what), m);
            string mm = go({"insertgrid", wf(k.f), wf("s"), fmt("%d", a), fmt("%d", b), "-m"}, what);
            same_text("insert", what + ": merged twice", go({"insertgrid", file("mm", mm), wf("s"), fmt("%d", a), fmt("%d", b), "-m"}, what), mm);
            // the master under the inserted grid comes back when it is merged over it
            string m2 = go({"insertgrid", wf("mm"), wf(k.f), "0", "0", "-m"}, what);
            string m3 = go({"insertgrid", wf("m2"), wf("s"), fmt("%d", a), fmt("%d", b), "-m"}, what + (file("m2", m2), ""));
            same_text("insert", what + ": merged over, and merged again", m3, mm);
            count("relation: inserted and cut out");
            break;
        }
        case 8: {                               // masks
            vector<int> m1((size_t) r.n1 * r.n2), m2 = m1, m = m1;
            double d1 = g.u(0, 0.5), d2 = g.u(0, 0.5);
            for (size_t n = 0; n < m.size(); ++n) { m1[n] = !g.p(d1); m2[n] = !g.p(d2); m[n] = m1[n] && m2[n]; }
            file("m1", masktext(m1)); file("m2", masktext(m2)); file("m12", masktext(m));
            string a = go({"getnodes", wf("dd"), "-m", wf("m1")}, what);
            file("a", a);
            string ab = go({"getnodes", wf("a"), "-m", wf("m2")}, what);
            string both = go({"getnodes", wf("dd"), "-m", wf("m12")}, what);
            same_text("mask", what + ": one mask after the other", ab, both);
            file("both", both);
            string ce = go({"getnodes", wf("both"), "-o", "CE"}, what);
            same_text("mask", what + ": centres of masked nodes, masked centres", ce, go({"getnodes", wf("ce"), "-i", "CE", "-o", "CE", "-m", wf("m12")}, what));
            same_text("mask", what + ": masked and converted at once", ce, go({"getnodes", wf("dd"), "-o", "CE", "-m", wf("m12")}, what));
            count("relation: masks");
            break;
        }
        case 9: {                               // columns
            const Gr& k = kinds[g.i(0, 2)];
            bool sub = g.p(0.5);
            vector<string> a = sub ? vector<string>{"subgrid", wf(k.f)} : vector<string>{"getnodes", wf(k.f), "-i", k.t, "-o", k.t};
            vector<string> x = a, y = a;
            x.push_back("-x"); y.push_back("-y");
            vector<string> lx = lines(go(x, what)), ly = lines(go(y, what)), l = lines(*k.s);
            evals();
            if (lx.size() != ly.size() || l.size() != lx.size()) fail("columns", "%s: %zu and %zu lines of %s with -x and -y, %zu with both", what.c_str(), lx.size(), ly.size(), a[0].c_str(), l.size());
            for (size_t n = 1; n < l.size(); ++n) { evals(); if (lx[n] + " " + ly[n] != l[n]) fail("columns", "%s: line %zu of %s is \"%s\" with -x, \"%s\" with -y and \"%s\" with both", what.c_str(), n + 1, a[0].c_str(), lx[n].c_str(), ly[n].c_str(), l[n].c_str()); }
            count("relation: columns");
            break;
        }
        case 10: case 11: {                     // bathymetry
            string b;
            int nb = g.i(5, 60);
            for (int n = 0; n < nb; ++n) {
                int cell = g.i(0, r.n1 * r.n2 - 1);
                for (int t = 0; t < 3 && !r.cell.c[cell]; ++t) cell = g.i(0, r.n1 * r.n2 - 1);
                ld x, y;
                bilin(r.FX, r.n1, cell % r.n1, cell / r.n1, g.u(0.05, 0.95), g.u(0.05, 0.95), r.FY, x, y);
                b += fmt("%.17g %.17g %.2f\n", (double) x, (double) y, g.u(-200, 200));
            }
            file("b", b);
            vector<string> o = {"-b", wf("b"), "-a", fmt("%d", g.p(0.4) ? 4 : g.i(0, 3)), "-n", fmt("%d", g.i(1, 5))};
            if (g.p(0.3)) o.push_back("-x");
            auto run = [&](const char* gf, const char* t, vector<string> more) {
                vector<string> a = {"gridbathy", "-g", wf(gf), "-i", t};
                a.insert(a.end(), o.begin(), o.end());
                a.insert(a.end(), more.begin(), more.end());
                return go(a, what);
            };
            string all = run("co", "CO", {});
            same_text("bathymetry", what + ": bathymetry with CO and DD nodes", all, run("dd", "DD", {}));
            vector<string> L = lines(all);
            evals();
            if ((int) L.size() != r.n1 * r.n2) fail("bathymetry", "%s: %zu lines", what.c_str(), L.size());
            for (int n = 0; n < 5; ++n) {
                int i = g.i(0, r.n1 - 1), j = g.i(0, r.n2 - 1);
                for (int t = 0; t < 4 && n > 1 && L[(size_t) j * r.n1 + i] == "NaN"; ++t) i = g.i(0, r.n1 - 1), j = g.i(0, r.n2 - 1);
                same_text("single cell", what + fmt(": bathymetry of the cell (%d, %d)", i, j), L[(size_t) j * r.n1 + i] + "\n", run("co", "CO", {"-c", fmt("%d", i), fmt("%d", j)}));
            }
            int a, e, z, y;
            rng2(r.n1, a, e); rng2(r.n2, z, y);
            string ones;
            for (int n = 0; n < r.n1 * r.n2; ++n) ones += "1\n";
            string dim = fmt("%dx%d", r.n1, r.n2), ri = fmt("%d:%d", a, e), rj = fmt("%d:%d", z, y);
            string mask = go({"setbathy", file("ones", ones), "-d", dim, "-i", ri, "-j", rj, "-z", "0"}, what);
            string nan = go({"setbathy", file("all", all), "-d", dim, "-i", ri, "-j", rj, "-z", "NaN"}, what);
            same_text("masked window", what + ": bathymetry with a masked window, and set to NaN in the window", run("co", "CO", {"-m", file("mask", mask)}), nan);
            // limited in two steps as far as single values per cell go
            same_text("range", what + ": a range that limits nothing", all, run("co", "CO", {"-r", "-1e30", "1e30"}));
            // windows set one after the other
            int a2, e2, z2, y2;
            rng2(r.n1, a2, e2); rng2(r.n2, z2, y2);
            string ri2 = fmt("%d:%d", a2, e2), rj2 = fmt("%d:%d", z2, y2);
            string s12 = go({"setbathy", file("nan", nan), "-d", dim, "-i", ri2, "-j", rj2, "-z", "NaN"}, what);
            string s2 = go({"setbathy", wf("all"), "-d", dim, "-i", ri2, "-j", rj2, "-z", "NaN"}, what);
            same_text("set", what + ": two windows set, in either order", s12, go({"setbathy", file("s2", s2), "-d", dim, "-i", ri, "-j", rj, "-z", "NaN"}, what));
            count("relation: bathymetry");
            break;
        }
        case 12: {                              // set row by row
            vector<string> L;
            string text;
            for (int n = 0; n < r.n1 * r.n2; ++n) text += fmt("%.2f\n", g.u(-100, 100));
            int a, e, z, y;
            rng2(r.n1, a, e); rng2(r.n2, z, y);
            string dim = fmt("%dx%d", r.n1, r.n2), v = fmt("%.3g", g.u(-10, 10));
            string at = go({"setbathy", file("t", text), "-d", dim, "-i", fmt("%d:%d", a, e), "-j", fmt("%d:%d", z, y), "-z", v}, what), cur = text;
            for (int j = z; j <= y; ++j) cur = go({"setbathy", file("t", cur), "-d", dim, "-i", fmt("%d:%d", a, e), "-j", fmt("%d:%d", j, j), "-z", v}, what);
            same_text("set", what + ": a window set at once and row by row", at, cur);
            cur = text;
            for (int i = a; i <= e; ++i) cur = go({"setbathy", file("t", cur), "-d", dim, "-i", fmt("%d:%d", i, i), "-j", fmt("%d:%d", z, y), "-z", v}, what);
            same_text("set", what + ": a window set at once and column by column", at, cur);
            count("relation: values set");
            break;
        }
        case 13: {                              // points in a window of the grid
            if (r.n1 < 2 || r.n2 < 2) break;
            int a = g.i(0, r.n1 - 1), b = g.i(a + 1, r.n1), e = g.i(0, r.n2 - 1), z = g.i(e + 1, r.n2);
            string w = go({"subgrid", wf("co"), "-i", fmt("%d:%d", a, b), "-j", fmt("%d:%d", e, z)}, what), P;
            file("w", w);
            for (int k = 0; k < 30; ++k) {
                int i = g.i(a, b - 1), j = g.i(e, z - 1);
                if (!r.cell.at(i, j)) continue;
                ld x, y;
                bilin(r.FX, r.n1, i, j, g.u(0.02, 0.98), g.u(0.02, 0.98), r.FY, x, y);
                P += fmt("%.17g %.17g\n", (double) x, (double) y);
            }
            if (P.empty()) break;
            file("p", P);
            vector<string> A = lines(go({"xy2ij", "-k", "-f", "-i", "CO", "-g", wf("co"), "-o", wf("p")}, what)), B = lines(go({"xy2ij", "-k", "-f", "-i", "CO", "-g", wf("w"), "-o", wf("p")}, what));
            evals();
            if (A.size() != B.size()) fail("window", "%s: %zu and %zu lines", what.c_str(), A.size(), B.size());
            int both = 0;
            for (size_t k = 0; k < A.size(); ++k) {
                double u = NAN, v = NAN, x = NAN, y = NAN;
                sscanf(A[k].c_str(), "%lf %lf", &u, &v);
                sscanf(B[k].c_str(), "%lf %lf", &x, &y);
                if (std::isnan(u) || std::isnan(x)) continue;
                both++;
                evals();
                if (fabs(u - a - x) > 1e-9 || fabs(v - e - y) > 1e-9) fail("window", "%s: point %zu is at \"%s\" in the grid and at \"%s\" in the window from (%d, %d)", what.c_str(), k, A[k].c_str(), B[k].c_str(), a, e);
            }
            count("relation: points in a window", both);
            break;
        }
        }
    }
    if (done >= 3 && (r.n1 * r.n2 > 4)) nontrivial(sig);
    sample(what + fmt(": %d relations", done));
}
