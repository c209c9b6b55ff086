#include "gridgen.hpp"
const char* PROP = "C03";
const char* RULE = "random grids as for C01 (both map types) and C02 (kd-tree map), points everywhere; for each located point physical -> index -> physical, for random interior index positions index -> physical -> index; lattices of whole numbers, on which the indices are exact, with points at nodes and on edges; cells that are nearly triangles, with points next to the blunt corner; a case is non-trivial if at least 5 points made the round trip; distinct by node coordinates";
long ncases(bool t) { return t ? 1000000 : 80000; }

static void cellmetric(const Grid& r, int i, int j, double& diam, double& height)
{
    int m1 = r.n1 + 1, a = j * m1 + i, b = a + 1, d = a + m1, c = d + 1;
    const vector<double>&X = r.FX, &Y = r.FY;
    diam = std::max(hypot(X[a] - X[c], Y[a] - Y[c]), hypot(X[b] - X[d], Y[b] - Y[d]));
    int id[4] = {a, b, c, d};
    height = 1e300;     // smallest distance from a corner to the line of an edge at the next corner
    for (int k = 0; k < 4; ++k) {
        int p = id[k], q = id[(k + 1) % 4], s = id[(k + 2) % 4];
        double cr = fabs((X[q] - X[p]) * (Y[s] - Y[q]) - (Y[q] - Y[p]) * (X[s] - X[q]));
        height = std::min(height, cr / std::max(hypot(X[q] - X[p], Y[q] - Y[p]), hypot(X[s] - X[q], Y[s] - Y[q])));
    }
}

// lattices of whole numbers: no rounding anywhere, so that the indices are exact, also at nodes and on the far edges of cells
static void lattice_case(Case& c)
{
    Rng& g = c.rng;
    int n1 = g.i(1, 12), n2 = g.i(1, 12), m1 = n1 + 1, a, b, e, f;
    do { a = 2 * g.i(-5, 5); b = 2 * g.i(-5, 5); e = 2 * g.i(-5, 5); f = 2 * g.i(-5, 5); if (g.p(0.4)) b = e = 0; } while (a * f - b * e == 0);
    int ox = g.p(0.3) ? 0 : g.i(-1000, 1000), oy = g.p(0.3) ? 0 : g.i(-1000, 1000);
    Region R = region_disc(g, n1, n2);
    vector<double> X, Y;
    for (int j = 0; j <= n2; ++j) for (int i = 0; i <= n1; ++i) {
        bool v = R.at(i, j) || R.at(i - 1, j) || R.at(i, j - 1) || R.at(i - 1, j - 1);
        X.push_back(v ? ox + a * i + b * j : QNAN);
        Y.push_back(v ? oy + e * i + f * j : QNAN);
    }
    gridnodes* gn = to_gridnodes(X, Y, m1, n2 + 1, NT_COR);
    bool kd = g.p(0.5);
    gridnodes_setmaptype(gn, kd ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY);
    gridmap* gm = gridmap_build2(gn);
    int nfar = 0, nfound = 0;
    for (int k = 0; k < 40; ++k) {
        int p = g.i(0, 2 * n1), q = g.i(0, 2 * n2);     // half indices
        double x = ox + a * p / 2.0 + b * q / 2.0, y = oy + e * p / 2.0 + f * q / 2.0, fi, fj, x2, y2;
        int i, j, ok = gridmap_xy2ij(gm, x, y, &i, &j), ok2 = gridmap_xy2fij(gm, x, y, &fi, &fj);
        string what = fmt("%d x %d lattice (%d, %d), (%d, %d), offset %d, %d%s, index (%g, %g)", n1, n2, a, e, b, f, ox, oy, kd ? ", kd-tree map" : "", p / 2.0, q / 2.0);
        evals();
        if (!ok != !ok2) fail("agreement", "%s: cell lookup says %d, fractional lookup %d", what.c_str(), ok, ok2);
        if (!ok) continue;
        nfound++;
        if (p / 2.0 == i + 1 || q / 2.0 == j + 1) nfar++;
        if (floor(fi) != i || floor(fj) != j) fail("index outside cell", "%s: in cell (%d, %d), but fractional indices are %.17g %.17g", what.c_str(), i, j, fi, fj);
        if (!(fabs(fi - p / 2.0) <= 1.1e-8 && fabs(fj - q / 2.0) <= 1.1e-8)) fail("lattice", "%s: fractional indices are %.17g %.17g", what.c_str(), fi, fj);
        if (!gridmap_fij2xy(gm, fi, fj, &x2, &y2) || !(fabs(x2 - x) + fabs(y2 - y) <= 2e-8 * (abs(a) + abs(b) + abs(e) + abs(f)) + 1e-12)) fail("round trip", "%s: back at (%.17g, %.17g)", what.c_str(), x2, y2);
    }
    count("exact lattices");
    count("points on far edges of exact cells", nfar);
    if (nfound >= 5) nontrivial(mix64(hashbytes(X.data(), X.size() * 8, 3) ^ hashbytes(Y.data(), Y.size() * 8, 5)));
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
}
// a cell that is nearly a triangle: beyond its blunt corner the bilinear map folds over, and the other root of the equation is close by;
// the branch of the root is decided by the first point located in a map
static void blunt_case(Case& c)
{
    Rng& g = c.rng;
    int n1 = g.i(1, 3), n2 = g.i(1, 3), m1 = n1 + 1, ci = g.i(0, n1 - 1), cj = g.i(0, n2 - 1), pi = g.i(0, 1), pj = g.i(0, 1);
    double th = g.p(0.3) ? 0 : g.u(0, 6.283), S = pow(10, g.u(-1, 3)), sh = g.p(0.5) ? 0 : g.u(-0.8, 0.8), delta = pow(10, g.u(-4.5, -1.2)), ox = S * g.u(-10, 10), oy = S * g.u(-10, 10);
    bool mirror = g.p(0.5), kd = g.p(0.4);
    vector<double> X, Y;
    for (int j = 0; j <= n2; ++j) for (int i = 0; i <= n1; ++i) {
        double u = i, v = j;
        if (i == ci + pi && j == cj + pj) { u = ci + 0.5 + (pi ? delta : -delta); v = cj + 0.5 + (pj ? delta : -delta); }
        double x = u + sh * v, y = v, t = mirror ? -x : x;
        X.push_back(S * (cos(th) * t - sin(th) * y) + ox);
        Y.push_back(S * (sin(th) * t + cos(th) * y) + oy);
    }
    gridnodes* gn = to_gridnodes(X, Y, m1, n2 + 1, NT_COR);
    gridnodes_setmaptype(gn, kd ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY);
    gridmap* gm = gridmap_build2(gn);
    int nfound = 0;
    bool first = g.p(0.6);          // the first point next to the corner itself
    for (int k = 0; k < 12; ++k) {
        double lo = k == 0 && first ? -5 : -4, hi = k == 0 && first ? -2.5 : -0.3, s = pow(10, g.u(lo, hi)), t = pow(10, g.u(lo, hi));
        double u = pi ? 1 - s : s, v = pj ? 1 - t : t;
        ld ex = 0, ey = 0;
        for (int q = 0; q < 4; ++q) {
            ld w = (ld) (q & 1 ? u : 1 - u) * (ld) (q & 2 ? v : 1 - v);
            size_t id = (size_t) (cj + (q >> 1)) * m1 + ci + (q & 1);
            ex += w * X[id]; ey += w * Y[id];
        }
        double x = ex, y = ey, fi, fj, x2, y2;
        string what = fmt("%d x %d cells of about %g, corner (%d, %d) of cell (%d, %d) within %g of the diagonal%s%s, query %d, index (%.17g, %.17g), point (%.17g, %.17g)", n1, n2, S, pi, pj, ci, cj, delta, mirror ? ", mirrored" : "", kd ? ", kd-tree map" : "", k, ci + u, cj + v, x, y);
        int i, j, ok = gridmap_xy2ij(gm, x, y, &i, &j), ok2 = gridmap_xy2fij(gm, x, y, &fi, &fj);
        evals();
        if (!ok != !ok2) fail("agreement", "%s: cell lookup says %d, fractional lookup %d", what.c_str(), ok, ok2);
        if (!ok || i != ci || j != cj) continue;        // on an edge up to rounding; location is the subject of C01 and C02
        nfound++;
        if (!(fi >= i && fi <= i + 1 && fj >= j && fj <= j + 1)) fail("index outside cell", "%s: fractional indices are %.17g %.17g", what.c_str(), fi, fj);
        if (!gridmap_fij2xy(gm, fi, fj, &x2, &y2)) fail("back", "%s: cannot convert indices %.17g %.17g back", what.c_str(), fi, fj);
        double lim = 3e-7 * S + 1e-12 * S / delta;
        if (!(fabs(x2 - x) <= lim && fabs(y2 - y) <= lim)) fail("round trip", "%s: indices %.17g %.17g, back at (%.17g, %.17g)", what.c_str(), fi, fj, x2, y2);
        count("points next to the blunt corner of a nearly triangular cell");
    }
    if (nfound >= 5) nontrivial(hashdv(Y, hashdv(X)));
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    if (g.p(0.05)) return blunt_case(c);
    if (g.p(0.1)) return lattice_case(c);
    bool kd = g.p(0.4);
    Grid r = kd && g.p(0.5) ? gen_any_grid(c) : gen_disc_grid(c);
    double tol = loc_tol(r);
    gridmap* gm = gridmap_build(r.n1, r.n2, r.gx(), r.gy(), kd ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY);
    int nq = 40 + r.n1 * r.n2 / 8, ntrip = 0;
    double worst = 0;
    for (int k = 0; k < nq; ++k) {
        evals();
        if (g.p(0.5)) {
            Pt q = gen_query(g, r);
            int i, j;
            double fi = -1, fj = -1, x = 0, y = 0;
            int ok = gridmap_xy2ij(gm, q.x, q.y, &i, &j);
            int ok2 = gridmap_xy2fij(gm, q.x, q.y, &fi, &fj);
            string what = r.desc + fmt("%s, point (%.17g, %.17g) (%s)", kd ? ", kd-tree map" : "", q.x, q.y, q.kind);
            if (!ok != !ok2) fail("agreement", "%s: cell lookup says %d, fractional lookup %d", what.c_str(), ok, ok2);
            if (!ok) {
                if (!std::isnan(fi) || !std::isnan(fj)) fail("agreement", "%s: not located, but indices are %g %g", what.c_str(), fi, fj);
                continue;
            }
            if (!(fi >= i && fi <= i + 1 && fj >= j && fj <= j + 1))
                fail("index outside cell", "%s: in cell (%d, %d), but fractional indices are %.17g %.17g", what.c_str(), i, j, fi, fj);
            if (!gridmap_fij2xy(gm, fi, fj, &x, &y))
                fail("back", "%s: cannot convert indices %.17g %.17g back", what.c_str(), fi, fj);
            double d, h;
            cellmetric(r, i, j, d, h);
            double lim = 1.2e-7 * d + 512 * DBL_EPSILON * r.cmax * (d / h) + 2 * tol;
            double e = std::max(fabs(x - q.x), fabs(y - q.y));
            if (!(e <= lim))
                fail("round trip", "%s: indices %.17g %.17g, back at (%.17g, %.17g): off by %g (cell size %g, limit %g)", what.c_str(), fi, fj, x, y, e, d, lim);
            worst = std::max(worst, e / lim);
            ntrip++;
            count("physical -> index -> physical");
        } else {
            int i = g.i(0, r.n1 - 1), j = g.i(0, r.n2 - 1);
            if (!r.cell.at(i, j)) continue;
            double u = g.u(0.01, 0.99), v = g.u(0.01, 0.99), x, y, fi, fj;
            if (g.p(0.1)) u = 0.5;
            if (g.p(0.1)) v = 0.5;
            if (!gridmap_fij2xy(gm, i + u, j + v, &x, &y)) fail("forward", "%s: cannot convert index %g %g", r.desc.c_str(), i + u, j + v);
            double d, h;
            cellmetric(r, i, j, d, h);
            if (0.01 * h < 4 * tol) continue;
            int ok = gridmap_xy2fij(gm, x, y, &fi, &fj);
            if (!ok && kd) continue;
            string what = r.desc + fmt("%s, index (%.17g, %.17g)", kd ? ", kd-tree map" : "", i + u, j + v);
            if (!ok) fail("not found", "%s -> point (%.17g, %.17g) is reported outside", what.c_str(), x, y);
            double lim = (1.2e-7 * d + 512 * DBL_EPSILON * r.cmax * (d / h) + 2 * tol) * 4 / h;
            double e = std::max(fabs(fi - i - u), fabs(fj - j - v));
            if (!(e <= lim))
                fail("reverse trip", "%s -> (%.17g, %.17g) -> index (%.17g, %.17g): off by %g, limit %g", what.c_str(), x, y, fi, fj, e, lim);
            ntrip++;
            count("index -> physical -> index");
        }
    }
    if (kd) count("kd-tree maps"); else count("default maps");
    if (ntrip >= 5) nontrivial(r.sig());
    sample(r.desc + fmt("%s: %d round trips, worst error %.2g of the limit", kd ? ", kd-tree map" : "", ntrip, worst));
    gridmap_destroy(gm);
}
