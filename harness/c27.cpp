#include "gn.hpp"
const char* PROP = "C27";
const char* RULE = "grids of longitudes and latitudes (regional, crossing the date line along rows or columns or both, several times, around a pole with a jump between meridians, with missing nodes, corner, centre and double-density types) are written with and without -p; the output is compared with the rules of the tweak node by node; non-trivial if nodes were shifted or removed; distinct by coordinates";
long ncases(bool t) { return t ? 90000 : 10000; }

static double wrap(double x, int conv)
{
    if (conv == 0) { while (x > 180) x -= 360; while (x <= -180) x += 360; }
    else { while (x >= 360) x -= 360; while (x < 0) x += 360; }
    return x;
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    NODETYPE t = (NODETYPE) g.i(1, 3);
    NG n = gen_ng(g, t, 30, true);
    int nx = n.nx, ny = n.ny, kind = g.i(0, 6), conv = g.i(0, 1);
    double lon0 = g.i(-180, 360), di = g.i(-40, 40) / 4.0, dj = g.i(-40, 40) / 4.0, lat0 = g.i(-60, 60), si = g.i(-8, 8) / 4.0, sj = g.i(-8, 8) / 4.0;
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            double x, y;
            switch (kind) {
            case 0: x = 10 + 0.25 * i + 0.125 * j; y = -20 + 0.5 * j; break;            // regional, no jump
            case 1: x = wrap(lon0 + di * i, conv); y = lat0 + 0.25 * j; break;           // along rows
            case 2: x = wrap(lon0 + dj * j, conv); y = lat0 + 0.25 * i; break;           // along columns
            case 3: x = wrap(lon0 + di * i + dj * j, conv); y = lat0 + si * i + sj * j; break;
            case 4: {                                                                    // around a pole
                double a = (i - nx / 2) + 0.25, b = (j - ny / 2) + 0.5;
                x = round(atan2(b, a) * 180 / M_PI * 1000) / 1000;
                if (conv && x < 0) x += 360;
                y = std::max(-90.0, 90 - hypot(a, b) * 4);
                y = round(y * 1000) / 1000;
                break;
            }
            case 5: x = g.i(-180, 180); y = g.i(-90, 90); break;                          // anything
            default: x = lon0 + (g.p(0.5) ? 180 : g.p(0.5) ? -180 : 181 * g.i(-1, 1)) * g.i(0, 1); y = g.p(0.1) ? g.pick(vector<double>{90, -90, 0, 0.5}) : 0; break;
            }
            if (n.ok(i, j)) n.put(i, j, x, y);
        }
    m_validate(n);
    // the rules: longitudes continued along columns ...
    NG s = n;
    vector<char> open(n.X.size(), 0);               // unspecified (a jump to the east along a column, and what follows it)
    int shifted = 0, removed = 0, unspec = 0;
    for (int i = 0; i < nx; ++i)
        for (int j = 1; j < ny; ++j) {
            size_t k = n.id(i, j), b = n.id(i, j - 1);
            if (std::isnan(n.X[k]) || std::isnan(n.X[b])) continue;
            if (open[b]) { open[k] = 1; continue; }
            double d = s.X[k] - s.X[b];
            if (d < -180) { s.X[k] += 360; shifted++; }
            else if (d > 180) { open[k] = 1; unspec++; }
        }
    // ... and nodes across a seam from the next node of their row removed
    vector<char> gone(n.X.size(), 0);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i + 1 < nx; ++i) {
            size_t k = n.id(i, j), e = n.id(i + 1, j);
            if (std::isnan(n.X[k]) || std::isnan(n.X[e])) continue;
            if (open[k] || open[e]) gone[k] = 2;                   // cannot say
            else if (fabs(s.X[e] - s.X[k]) > 180) gone[k] = 1;
            removed += gone[k] == 1;
        }
    // ... in longitude first; latitudes are compared between the nodes that remain
    {
        vector<char> lon = gone;
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i + 1 < nx; ++i) {
                size_t k = n.id(i, j), e = n.id(i + 1, j);
                if (std::isnan(n.X[k]) || std::isnan(n.X[e]) || lon[k] == 1 || fabs(s.Y[e] - s.Y[k]) <= 90) continue;
                if (lon[e]) gone[k] = 2;
                else { gone[k] = 1; removed++; }
            }
    }
    string what = n.desc() + fmt(" (kind %d)", kind), f = wf("g.txt");
    writefile(f, ng_text(n));
    vector<string> a = {"getnodes", f, "-i", tname(t), "-o", tname(t), "-p"};
    if (g.p(0.2)) a.push_back("-v");
    Run r = run_tool(a);
    if (!r.ok()) fail("refused", "%s: refused: %s", what.c_str(), r.err.c_str());
    NG o = ng_parse("output", what, r.out, t);
    if (o.nx != nx || o.ny != ny) fail("size", "%s: size %d x %d", what.c_str(), o.nx, o.ny);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
            size_t k = n.id(i, j);
            evals();
            bool present = !std::isnan(o.X[k]) || !std::isnan(o.Y[k]);
            if (std::isnan(n.X[k])) { if (present) fail("missing", "%s: missing node (%d, %d) appeared at (%.17g, %.17g)", what.c_str(), i, j, o.X[k], o.Y[k]); continue; }
            if (gone[k] == 2 && !present) continue;
            if (gone[k] == 1) {
                if (present) fail("seam", "%s: node (%d, %d) at (%.17g, %.17g) is across a seam from its next node at (%.17g, %.17g), but was kept", what.c_str(), i, j, s.X[k], s.Y[k], s.X[k + 1], s.Y[k + 1]);
                continue;
            }
            if (!present) fail("removed", "%s: node (%d, %d) at (%.17g, %.17g) was removed without a seam behind it", what.c_str(), i, j, s.X[k], s.Y[k]);
            if (fabs(o.Y[k] - n.Y[k]) > 1e-12) fail("latitude", "%s: latitude of node (%d, %d) changed from %.17g to %.17g", what.c_str(), i, j, n.Y[k], o.Y[k]);
            if (open[k]) {
                double d = (o.X[k] - n.X[k]) / 360;
                if (fabs(d - round(d)) > 1e-12) fail("longitude", "%s: longitude of node (%d, %d) changed from %.17g to %.17g", what.c_str(), i, j, n.X[k], o.X[k]);
            } else if (fabs(o.X[k] - s.X[k]) > 1e-11)
                fail("longitude", "%s: longitude of node (%d, %d) is %.17g after %.17g in its column, written as %.17g, expected %.17g", what.c_str(), i, j, n.X[k], j ? s.X[k - nx] : NAN, o.X[k], s.X[k]);
            if (i && !std::isnan(o.X[k - 1])) {
                if (fabs(o.X[k] - o.X[k - 1]) > 180 || fabs(o.Y[k] - o.Y[k - 1]) > 90)
                    fail("jump", "%s: neighbours (%d, %d) at (%.17g, %.17g) and (%d, %d) at (%.17g, %.17g) remain across a seam", what.c_str(), i - 1, j, o.X[k - 1], o.Y[k - 1], i, j, o.X[k], o.Y[k]);
            }
        }
    // without the option nothing of this happens; without jumps the option changes nothing
    if (shifted + removed + unspec == 0 || g.p(0.2)) {
        a.erase(std::find(a.begin(), a.end(), "-p"));
        Run q = run_tool(a);
        evals();
        if (!q.ok()) fail("refused", "%s: refused without -p: %s", what.c_str(), q.err.c_str());
        if (shifted + removed + unspec == 0 && q.out != r.out) fail("no jump", "%s: the grid has no jump, but -p changes the output", what.c_str());
        NG p = ng_parse("output", what, q.out, t);
        vector<double> tol = tol15(n);
        ng_compare("plain", what + ", without -p", p, n, &tol);
        count("grids also written without -p");
    }
    count("nodes shifted", shifted);
    count("nodes removed at a seam", removed);
    count("jumps to the east along a column (only checked modulo 360)", unspec);
    if (shifted || removed) nontrivial(n.sig());
    sample(what + fmt(": %d shifted, %d removed", shifted, removed));
}
