#include "gn.hpp"
const char* PROP = "C19";
const char* RULE = "grids of every geometry and pattern of missing nodes, some with cells with a straight corner, of corner and double-density type, read, validated, examined and written in verbose mode (in process with standard error captured, and by getnodes -v with and without conversion); every number reported is compared with its definition, and what is written with the run without -v; non-trivial if the deviation is above zero and not all cells are valid; distinct by coordinates";
long ncases(bool t) { return t ? 400000 : 40000; }

struct Stats { double dmax = 0, dmean = 0, amax = 1, amean = 0, dx = 0, dy = 0; int n = 0; vector<double> dev, asp; };
static ld ang(ld x1, ld y1, ld x2, ld y2) { return fabsl(90 - atan2l(fabsl(x1 * y2 - x2 * y1), x1 * x2 + y1 * y2) * 180 / M_PIl); }
static Stats stats(const NG& q)         // corner nodes
{
    Stats s;
    ld ds = 0, as = 0, xs = 0, ys = 0;
    s.dev.assign(q.X.size(), -1);
    s.asp.assign(q.X.size(), -1);
    for (int j = 0; j + 1 < q.ny; ++j)
        for (int i = 0; i + 1 < q.nx; ++i) {
            if (!q.ok(i, j) || !q.ok(i + 1, j) || !q.ok(i, j + 1) || !q.ok(i + 1, j + 1)) continue;
            size_t id[4] = {q.id(i, j), q.id(i + 1, j), q.id(i + 1, j + 1), q.id(i, j + 1)};
            ld x[4], y[4], m = 0;
            for (int k = 0; k < 4; ++k) { x[k] = q.X[id[k]]; y[k] = q.Y[id[k]]; }
            for (int k = 0; k < 4; ++k) {
                int a = (k + 1) % 4, b = (k + 3) % 4;
                ld d = ang(x[a] - x[k], y[a] - y[k], x[b] - x[k], y[b] - y[k]);
                ds += d;
                m = std::max(m, d);
            }
            ld l1 = hypotl((x[1] + x[2] - x[0] - x[3]) / 2, (y[1] + y[2] - y[0] - y[3]) / 2), l2 = hypotl((x[2] + x[3] - x[0] - x[1]) / 2, (y[2] + y[3] - y[0] - y[1]) / 2);
            ld ar = std::max(l1, l2) / std::min(l1, l2);
            as += ar;
            xs += (hypotl(x[1] - x[0], y[1] - y[0]) + hypotl(x[2] - x[3], y[2] - y[3])) / 2;
            ys += (hypotl(x[3] - x[0], y[3] - y[0]) + hypotl(x[2] - x[1], y[2] - y[1])) / 2;
            s.dev[id[0]] = m; s.asp[id[0]] = ar;
            s.dmax = std::max(s.dmax, (double) m);
            s.amax = std::max(s.amax, (double) ar);
            s.n++;
        }
    if (s.n) { s.dmean = ds / s.n / 4; s.amean = as / s.n; s.dx = xs / s.n; s.dy = ys / s.n; }
    return s;
}
static vector<string> grep(const vector<string>& L, const char* w)
{
    vector<string> r;
    for (auto& l : L) if (l.find(w) != string::npos) r.push_back(l);
    return r;
}
// the first number in a line
static double numin(const string& what, const string& l, size_t from = 0)
{
    size_t p = l.find_first_of("-0123456789n", from);
    while (p != string::npos && l[p] == 'n' && l.compare(p, 3, "nan")) p = l.find_first_of("-0123456789n", p + 1);
    if (p == string::npos) fail("format", "%s: no number in \"%s\"", what.c_str(), l.c_str());
    return strtod(l.c_str() + p, NULL);
}
static void near(const string& what, const string& name, double got, double want, double tol)
{
    evals();
    if (!(fabs(got - want) <= tol)) fail(name.c_str(), "%s: %s is reported as %.10g instead of %.10g", what.c_str(), name.c_str(), got, want);
}
static double g3(double v) { return v <= 0 ? 0 : 0.5000001 * pow(10, floor(log10(v) + 1e-12) - 2); }     // half a unit of the third digit

static void check_stats(const string& what, const vector<string>& L, const NG& co, double minedge)
{
    Stats s = stats(co);
    vector<string> a = grep(L, "maximum deviation"), b = grep(L, "mean deviation"), c = grep(L, "maximum aspect"), d = grep(L, "mean aspect"), e = grep(L, "mean cell size");
    if (a.size() != 1 || b.size() != 1 || c.size() != 1 || d.size() != 1 || e.size() != 1) fail("missing", "%s: statistics not reported once", what.c_str());
    if (s.n == 0) { count("grids without cells"); return; }
    double cm = 0;
    for (size_t k = 0; k < co.X.size(); ++k) if (!std::isnan(co.X[k])) cm = std::max(cm, std::max(fabs(co.X[k]), fabs(co.Y[k])));
    double rel = 64 * DBL_EPSILON * cm / minedge + 1e-7, tol = 0.00051 + 100 * rel;
    for (int k = 0; k < 2; ++k) {
        const string& l = k ? c[0] : a[0];
        double v = numin(what, l), want = k ? s.amax : s.dmax, t = k ? 0.00051 + 4 * rel * s.amax * s.amax : tol;
        near(what, k ? "maximum aspect ratio" : "maximum deviation", v, want, t);
        int i, j;
        size_t p = l.find('(');
        if (p == string::npos || sscanf(l.c_str() + p, "(%d,%d)", &i, &j) != 2) fail("format", "%s: no cell in \"%s\"", what.c_str(), l.c_str());
        evals();
        const vector<double>& q = k ? s.asp : s.dev;
        double none = k ? 1 : 0, ct = k ? 8 * rel * s.amax * s.amax : 200 * rel;
        if (i == -1 && j == -1) {
            if (want > none + ct) fail("no cell", "%s: no cell reported for %s %.10g", what.c_str(), k ? "aspect ratio" : "deviation", want);
        } else if (!co.in(i, j) || q[co.id(i, j)] < want - ct)
            fail("wrong cell", "%s: cell (%d, %d) with %.10g reported for the maximum %s %.10g", what.c_str(), i, j, co.in(i, j) ? q[co.id(i, j)] : -1, k ? "aspect ratio" : "deviation", want);
    }
    near(what, "mean deviation", numin(what, b[0]), s.dmean, tol);
    near(what, "mean aspect ratio", numin(what, d[0]), s.amean, 0.00051 + 4 * rel * s.amax * s.amax);
    double u = -1, v = -1;
    size_t p = e[0].find('=');
    if (p == string::npos || sscanf(e[0].c_str() + p + 1, "%lf x %lf", &u, &v) != 2) fail("format", "%s: \"%s\"", what.c_str(), e[0].c_str());
    near(what, "mean cell size (1)", u, s.dx, std::max(g3(s.dx), g3(u)) + rel * s.dx);
    near(what, "mean cell size (2)", v, s.dy, std::max(g3(s.dy), g3(v)) + rel * s.dy);
    count("cells in statistics", s.n);
    count("statistics compared");
}
static int cells(const NG& n)           // by corners
{
    int c = 0, s = n.t == NT_DD ? 2 : 1;
    for (int j = 0; j + s < n.ny; j += s) for (int i = 0; i + s < n.nx; i += s) c += n.ok(i, j) && n.ok(i + s, j) && n.ok(i, j + s) && n.ok(i + s, j + s);
    return c;
}
static void check_count(const string& what, const string& l, double want, double total)
{
    near(what, "count", numin(what, l), want, 0);
    size_t p = l.find('(');
    double pc;
    if (p == string::npos || sscanf(l.c_str() + p + 1, "%lf%%", &pc) != 1) fail("format", "%s: no percentage in \"%s\"", what.c_str(), l.c_str());
    near(what, "percentage", pc, 100.0 * want / total, 0.0501);
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    bool tool = g.p(0.05);
    Grid r = g.p(0.4) ? gen_disc_grid(c, 20) : gen_any_grid(c, 20);
    NG co(r.n1 + 1, r.n2 + 1, NT_COR);
    co.X = r.X; co.Y = r.Y;
    // cells with a straight corner: a node put on the line between its two neighbours
    double minedge = r.minedge;
    if (g.p(0.12)) {
        NG q = co;
        int done = 0;
        for (int k = g.i(1, 4); k > 0; --k) {
            int i = g.i(0, q.nx - 1), j = g.i(0, q.ny - 1), i2 = i + (g.p(0.5) ? 1 : -1), j2 = j + (g.p(0.5) ? 1 : -1);
            if (!q.in(i2, j2) || !q.ok(i, j) || !q.ok(i2, j) || !q.ok(i, j2) || !q.ok(i2, j2)) continue;
            double t = g.p(0.3) ? 0.5 : g.u(0.2, 0.8);
            q.put(i, j, q.X[q.id(i2, j)] * t + q.X[q.id(i, j2)] * (1 - t), q.Y[q.id(i2, j)] * t + q.Y[q.id(i, j2)] * (1 - t));
            done++;
        }
        double me = INFINITY;
        for (int j = 0; j + 1 < q.ny; ++j)
            for (int i = 0; i + 1 < q.nx; ++i) {
                if (!q.ok(i, j) || !q.ok(i + 1, j) || !q.ok(i, j + 1) || !q.ok(i + 1, j + 1)) continue;
                size_t id[4] = {q.id(i, j), q.id(i + 1, j), q.id(i + 1, j + 1), q.id(i, j + 1)};
                double x[4], y[4];
                for (int k = 0; k < 4; ++k) { x[k] = q.X[id[k]]; y[k] = q.Y[id[k]]; }
                for (int k = 0; k < 4; ++k) me = std::min(me, hypot(x[(k + 1) % 4] - x[k], y[(k + 1) % 4] - y[k]));
                me = std::min(me, hypot((x[1] + x[2] - x[0] - x[3]) / 2, (y[1] + y[2] - y[0] - y[3]) / 2));
                me = std::min(me, hypot((x[2] + x[3] - x[0] - x[1]) / 2, (y[2] + y[3] - y[0] - y[1]) / 2));
            }
        if (done && std::isfinite(me) && me > r.minedge * 0.05) { co = q; minedge = me; count("grids with cells with a straight corner"); }
    }
    bool dd = g.p(0.4), allcen = true;
    NG in = co;
    if (dd) {
        in = m_co2(co, NT_DD).g;
        if (g.p(0.3)) { for (int k = 0; k < 10; ++k) in.drop(g.i(0, in.nx - 1), g.i(0, in.ny - 1)); allcen = false; }
    }
    NG val = in;
    m_validate(val);
    if (dd) { co = m_dd2(val, NT_COR).g; } else co = val;
    string what = r.desc + (dd ? ", double density" : ", corners");
    double total = (double) in.nx * in.ny, tc = (double) (co.nx - 1) * (co.ny - 1);
    vector<string> L;
    NG out = val;
    bool mask = dd && allcen && g.p(0.3);
    vector<int> M((size_t) r.n1 * r.n2, 1);
    int nm = 0;
    if (mask) { for (auto& m : M) { m = !g.p(0.2); nm += m; } m_mask(out, M); co = m_dd2(out, NT_COR).g; what += ", masked"; }
    if (tool) {
        writefile(wf("g.txt"), ng_text(in));
        vector<string> a = {"getnodes", wf("g.txt"), "-i", tname(in.t), "-o", tname(in.t)};
        bool toco = dd && !mask && g.p(0.4);
        if (toco) { a.back() = "CO"; out = m_dd2(val, NT_COR).g; }
        if (mask) { string s; for (int m : M) s += m ? "1\n" : "0\n"; writefile(wf("m.txt"), s); a.push_back("-m"); a.push_back(wf("m.txt")); }
        if (g.p(0.2)) a.push_back(g.p(0.5) ? "-x" : "-y");
        Run q = run_tool(a);
        a.insert(a.begin() + g.i(1, (int) a.size() - (mask ? 2 : 1)) * 0 + 1, "-v");
        Run v = run_tool(a);
        if (!q.ok() || !v.ok()) fail("refused", "%s: refused by getnodes: %s", what.c_str(), v.err.c_str());
        evals();
        if (q.out != v.out) fail("altered", "%s: verbose output differs", what.c_str());
        L = lines(v.err);
        count("getnodes -v runs compared");
    } else {
        int early = g.p(0.3) ? g.i(1, 2) : 0;
        if (early) { what += ", examined before"; count("examined before, with other nodes"); }
        writefile(wf("g.txt"), ng_text(in));
        string me = wf("m.txt");
        if (mask) { string s; for (int m : M) s += m ? "1\n" : "0\n"; writefile(me, s); }
        string ef = wf("err.txt"), of = wf("o.txt");
        fflush(stderr);
        int keep = dup(2), fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 2);
        close(fd);
        gu_verbose = 1;
        gridnodes* gn = gridnodes_read((char*) wf("g.txt").c_str(), in.t);
        gridnodes_validate(gn);
        if (early == 1) { gu_verbose = 0; gridnodes_calcstats(gn); gu_verbose = 1; }     // examined before it is masked, too
        if (early == 2) {                       // examined with other nodes in it, too
            double** X = gridnodes_getx(gn);
            for (int q = 0; q < val.ny; ++q) for (int p = 0; p < val.nx; ++p) X[q][p] = X[q][p] * 3 + 7 * p - 5 * q;
            gu_verbose = 0;
            gridnodes_calcstats(gn);
            gu_verbose = 1;
            for (int q = 0; q < val.ny; ++q) for (int p = 0; p < val.nx; ++p) X[q][p] = val.X[val.id(p, q)];
        }
        if (mask) { int** m = gu_readmask((char*) me.c_str(), r.n1, r.n2); gridnodes_applymask(gn, m); gu_free2d(m); }
        NG b = ng_get(gn, in.t);
        gridnodes_calcstats(gn);
        NG af = ng_get(gn, in.t);
        gridnodes_write(gn, (char*) of.c_str(), CT_XY);
        gu_verbose = 0;
        fflush(stderr);
        dup2(keep, 2);
        close(keep);
        gridnodes_destroy(gn);
        ng_compare("altered", what + ", after computing statistics", af, b);
        ng_compare("validated", what, b, out);
        L = lines(readfile(ef));
    }
    vector<string> ne = grep(L, "non-empty"), vc = grep(L, "valid cells");
    if (ne.size() < 2) fail("missing", "%s: counts of nodes are not reported", what.c_str());
    check_count(what + ", nodes read", ne[0], in.present(), total);
    check_count(what + ", nodes written", ne.back(), out.present(), (double) out.nx * out.ny);
    if (allcen && !mask && tc > 0) {
        if (vc.empty()) fail("missing", "%s: number of valid cells is not reported", what.c_str());
        check_count(what + ", valid cells", vc[0], cells(val), tc);
    }
    if (dd) {
        vector<string> mi = grep(L, "marked as invalid");
        if (mi.empty()) fail("missing", "%s: number of nodes marked as invalid is not reported", what.c_str());
        check_count(what + ", valid nodes marked as invalid", mi[0], in.present() - val.present(), total);
        if (in.present() > val.present()) count("nodes marked as invalid reported");
    }
    if (mask) {
        vector<string> ml = grep(L, "mask:");
        if (ml.size() != 1) fail("missing", "%s: mask is not reported", what.c_str());
        check_count(what + ", mask", ml[0], nm, tc);
        check_count(what + ", mask", ml[0].substr(ml[0].find(')') + 1), tc - nm, tc);
        count("masks reported");
    }
    check_stats(what, L, co, minedge);
    Stats s = stats(co);
    if (s.n > 0 && s.n < tc && s.dmax > 1e-3) nontrivial(in.sig());
    sample(what + fmt(": %d cells, deviation %.3f / %.3f, aspect ratio %.3f / %.3f", s.n, s.dmax, s.dmean, s.amax, s.amean));
}
