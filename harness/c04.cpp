#include "gridgen.hpp"
const char* PROP = "C04";
const char* RULE = "random grids with any pattern of missing nodes (also one row, one column, no cells), both map types, indices: integer, on edges, inside, at and just beyond the limits, huge, infinite, NaN; a case is non-trivial if it had interior, edge and node positions with valid nodes; distinct by node coordinates";
long ncases(bool t) { return t ? 1000000 : 120000; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    Grid r = g.p(0.3) ? gen_disc_grid(c) : gen_any_grid(c, 20);
    bool kd = !is_disc(r.cell) || g.p(0.5);
    if (g.p(0.05)) {            // no cells in one direction
        int a = g.p(0.5) ? 0 : g.i(0, 5), b = a ? 0 : g.i(0, 5);
        Grid q;
        q.n1 = a; q.n2 = b;
        q.FX.assign((a + 1) * (b + 1), 0); q.FY = q.FX;
        for (size_t k = 0; k < q.FX.size(); ++k) { q.FX[k] = g.u(-5, 5); q.FY[k] = g.u(-5, 5); }
        q.X = q.FX; q.Y = q.FY;
        q.cell = Region(a, b);
        q.desc = fmt("%d x %d cells", a, b);
        r = q;
        kd = true;
    }
    double tol = 64 * DBL_EPSILON;
    gridmap* gm = gridmap_build(r.n1, r.n2, r.gx(), r.gy(), kd ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY);
    int seen = 0;
    for (int k = 0; k < 80; ++k) {
        double f[2];
        int n[2] = {r.n1, r.n2};
        bool in = true;
        for (int d = 0; d < 2; ++d) {
            int kind = g.i(0, 15);
            if (kind <= 5) f[d] = g.i(0, n[d]);
            else if (kind <= 12) f[d] = g.u(0, n[d]);
            else if (kind == 13) f[d] = std::min((double) n[d], std::max(0.0, g.i(0, n[d]) + pow(10, g.u(-17, -2)) * (g.p(0.5) ? 1 : -1)));
            else {
                static const double W[] = {-1e-300, -1e-9, -1, -1e9, -1e300, -INFINITY, INFINITY, 1e9, 3e9, 1e300};
                int w = g.i(0, 13);
                f[d] = w < 10 ? W[w] : w == 10 ? n[d] * (1 + 2e-16) + 1e-12 : w == 11 ? n[d] + 1 : w == 12 ? n[d] + 0.5 : QNAN;
            }
            if (!(f[d] >= 0 && f[d] <= n[d])) in = false;
        }
        double x = 7e77, y = 7e77;
        int ok = gridmap_fij2xy(gm, f[0], f[1], &x, &y);
        evals();
        string what = r.desc + fmt("%s, index (%.17g, %.17g)", kd ? ", kd-tree map" : "", f[0], f[1]);
        if (!ok != !in) fail("status", "%s: %s the grid, but the status is %d", what.c_str(), in ? "inside" : "outside", ok);
        if (!in) {
            count("outside or NaN");
            evals();
            if (std::isnan(f[0]) || std::isnan(f[1])) {
                if (!std::isnan(x) || !std::isnan(y)) fail("nan", "%s: gives (%.17g, %.17g) instead of not-a-number", what.c_str(), x, y);
                continue;
            }
            // outside: the nearest position within (the last bit of a cell is left out at the upper ends)
            double t[2], lo[2] = {INFINITY, INFINITY}, hi[2] = {-INFINITY, -INFINITY};
            bool whole = true;
            for (int d = 0; d < 2; ++d) t[d] = std::min((double) n[d], std::max(0.0, f[d]));
            for (int ii = std::max(0, (int) ceil(t[0] - 1)); ii <= std::min(n[0], (int) floor(t[0] + 1)); ++ii)
                for (int jj = std::max(0, (int) ceil(t[1] - 1)); jj <= std::min(n[1], (int) floor(t[1] + 1)); ++jj) {
                    size_t id = (size_t) jj * (n[0] + 1) + ii;
                    double px = r.X[id], py = r.Y[id];
                    if (std::isnan(px)) { whole = false; continue; }
                    lo[0] = std::min(lo[0], px); hi[0] = std::max(hi[0], px); lo[1] = std::min(lo[1], py); hi[1] = std::max(hi[1], py);
                }
            if (!whole) { count("outside, next to a missing node"); continue; }
            int i = std::max(0, std::min(n[0] - 1, (int) t[0])), j = std::max(0, std::min(n[1] - 1, (int) t[1])), m1 = n[0] + 1;
            ld u = t[0] - i, v = t[1] - j, ex = 0, ey = 0;
            for (int q = 0; q < 4; ++q) {
                ld w = (q & 1 ? u : 1 - u) * (q & 2 ? v : 1 - v);
                if (w == 0) continue;
                size_t id = (size_t) (j + (q >> 1)) * m1 + i + (q & 1);
                ex += w * r.X[id]; ey += w * r.Y[id];
            }
            double tol = 3e-8 * ((hi[0] - lo[0]) + (hi[1] - lo[1])) + 1e-12 * (fabs(ex) + fabs(ey));
            if (!(fabs(x - (double) ex) <= tol && fabs(y - (double) ey) <= tol)) fail("outside", "%s: gives (%.17g, %.17g), the nearest position within is (%.17g, %.17g)", what.c_str(), x, y, (double) ex, (double) ey);
            count("outside, trimmed");
            continue;
        }
        int i = (int) floor(f[0]), j = (int) floor(f[1]), m1 = r.n1 + 1;
        ld u = (ld) f[0] - i, v = (ld) f[1] - j, ex = 0, ey = 0, mag = 0;
        bool miss = false;
        for (int q = 0; q < 4; ++q) {
            ld w = (q & 1 ? u : 1 - u) * (q & 2 ? v : 1 - v);
            if ((q & 1 && u == 0) || (q & 2 && v == 0)) continue;
            size_t id = (size_t) (j + (q >> 1)) * m1 + i + (q & 1);
            if (std::isnan(r.X[id])) { miss = true; continue; }
            ex += w * r.X[id];
            ey += w * r.Y[id];
            mag = std::max(mag, std::max(fabsl(r.X[id]), fabsl(r.Y[id])));
        }
        if (miss) {
            if (!std::isnan(x) || !std::isnan(y)) fail("missing", "%s: depends on a missing node, but gives %.17g %.17g", what.c_str(), x, y);
            count("missing");
            continue;
        }
        if (u == 0 && v == 0) {
            if (x != (double) ex || y != (double) ey) fail("node", "%s: gives (%.17g, %.17g), the node is (%.17g, %.17g)", what.c_str(), x, y, (double) ex, (double) ey);
            count("nodes");
            seen |= 1;
        } else {
            if (!(fabsl(x - ex) <= tol * mag && fabsl(y - ey) <= tol * mag))
                fail("bilinear", "%s: gives (%.17g, %.17g), bilinear (%.17g, %.17g)", what.c_str(), x, y, (double) ex, (double) ey);
            if (u == 0 || v == 0) { count("edges"); seen |= 2; } else { count("interiors"); seen |= 4; }
        }
    }
    if (seen == 7) nontrivial(r.sig());
    sample(r.desc);
    gridmap_destroy(gm);
}
