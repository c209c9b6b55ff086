#include "gridgen.hpp"
extern "C" {
#include "gridaverager.h"
}
const char* PROP = "C22";
const char* RULE = "points of all kinds (inside, outside, on edges and nodes, NaN and infinite) with integer values are added in random order and batches (including empty ones) to averagers on grids with binary-tree and kd-tree maps, values being read between the batches; every value is compared with the mean over a record of the points whose cell the map of another instance gives, and with a second averager filled in another order and batching, and a third one of a grid with the same cells at other indices, filled and read by turns with the first; non-trivial if cells with none, one and several points were read and some points were ignored; distinct by grid and points";
long ncases(bool t) { return t ? 400000 : 20000; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    int type = g.p(0.4) ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY;
    Grid r = type == GRIDMAP_TYPE_KDTREE && g.p(0.6) ? gen_any_grid(c, 20) : gen_disc_grid(c, 20);
    gridnodes* gn = to_gridnodes(r.X, r.Y, r.n1 + 1, r.n2 + 1, NT_COR);
    gridnodes_setmaptype(gn, type);
    gridnodes_validate(gn);
    gridmap* gm = gridmap_build2(gn);
    gridmap* ref = gridmap_build(r.n1, r.n2, gridnodes_getx(gn), gridnodes_gety(gn), type);
    gridaverager* A = ga_create(gm);
    gridaverager* B = ga_create(gm);
    // the same cells at other indices (empty rows and columns before them) and an averager that gets the same points
    int si = g.i(0, 2), sj = g.i(si ? 0 : 1, 2), m1 = r.n1 + si, m2 = r.n2 + sj;
    double** sx = (double**) gu_alloc2d(m2 + 1, m1 + 1, sizeof(double));
    double** sy = (double**) gu_alloc2d(m2 + 1, m1 + 1, sizeof(double));
    for (int j = 0; j <= m2; ++j) for (int i = 0; i <= m1; ++i) {
        bool in = i >= si && j >= sj;
        sx[j][i] = in ? gridnodes_getx(gn)[j - sj][i - si] : NAN;
        sy[j][i] = in ? gridnodes_gety(gn)[j - sj][i - si] : NAN;
    }
    gridmap* gm2 = gridmap_build(m1, m2, sx, sy, type);
    gridmap* ref2 = gridmap_build(m1, m2, sx, sy, type);
    gridaverager* S = ga_create(gm2);
    vector<vector<double>> rec2((size_t) m1 * m2);
    // integer values: sums are exact, whatever their order
    bool integers = g.p(0.7);
    bool lots = large(g);
    int n = lots ? g.i(5000, 75000) : g.p(0.1) ? 0 : g.i(1, g.p(0.2) ? 600 : 80), big = g.p(0.5) ? 1000 : 1000000;
    double pfocus = lots ? 0.95 : 0.5;
    int focus = g.p(lots ? 0.7 : 0.4) ? g.i(0, r.n1 * r.n2 - 1) : -1;
    double off = g.p(0.3) ? g.i(-100000000, 100000000) : 0;
    vector<point> pts;
    vector<int> cellof;
    int ignored = 0, none = 0, one = 0, many = 0;
    for (int k = 0; k < n; ++k) {
        point p;
        if (focus >= 0 && g.p(pfocus)) {
            ld x, y;
            bilin(r.FX, r.n1, focus % r.n1, focus / r.n1, g.u(0.05, 0.95), g.u(0.05, 0.95), r.FY, x, y);
            p.x = (double) x; p.y = (double) y;
        } else if (!pts.empty() && g.p(0.1)) p = pts[g.i(0, (int) pts.size() - 1)];
        else { Pt q = gen_query(g, r); p.x = q.x; p.y = q.y; }
        p.z = integers ? off + g.i(-big, big) : g.u(-1, 1) * pow(10, g.u(-3, 5));
        if (g.p(0.03)) p.z = 0;
        int i, j;
        pts.push_back(p);
        if (gridmap_xy2ij(ref, p.x, p.y, &i, &j)) {
            if (!std::isfinite(p.x) || !std::isfinite(p.y)) fail("non-finite", "%s: the map puts (%g, %g) into cell (%d, %d)", r.desc.c_str(), p.x, p.y, i, j);
            cellof.push_back(j * r.n1 + i);
        } else { cellof.push_back(-1); ignored++; }
    }
    vector<int> order(n);
    for (int k = 0; k < n; ++k) order[k] = k;
    for (int k = n - 1; k > 0; --k) std::swap(order[k], order[g.i(0, k)]);

    vector<vector<double>> rec((size_t) r.n1 * r.n2);
    auto read = [&](gridaverager* ga, const char* which, bool second = false) {
        gridmap* ref_ = second ? ref2 : ref;
        auto& rec_ = second ? rec2 : rec;
        int n1_ = second ? m1 : r.n1;
        point q;
        if (!pts.empty() && g.p(0.5)) q = pts[g.i(0, n - 1)];
        else { Pt s = gen_query(g, r); q.x = s.x; q.y = s.y; }
        double x0 = q.x, y0 = q.y;
        q.z = g.p(0.5) ? 12345.678 : NAN;
        int i, j, in = gridmap_xy2ij(ref_, q.x, q.y, &i, &j);
        ga_getvalue(ga, &q);
        evals();
        if (!same(q.x, x0) || !same(q.y, y0)) fail("location", "%s: reading a value moved the location from (%.17g, %.17g) to (%.17g, %.17g)", r.desc.c_str(), x0, y0, q.x, q.y);
        size_t m = in ? rec_[(size_t) j * n1_ + i].size() : 0;
        if (m == 0) {
            if (!std::isnan(q.z)) fail("empty", "%s: %s reports %.17g at (%.17g, %.17g), %s", r.desc.c_str(), which, q.z, q.x, q.y, in ? "in a cell without points" : "outside the grid");
            none++;
            return;
        }
        ld s = 0, mag = 0;
        for (double z : rec_[(size_t) j * n1_ + i]) { s += z; mag += fabs(z); }
        ld want = s / m, tol = integers ? 0 : 4 * DBL_EPSILON * (m + 2) * mag / m;
        tol += DBL_EPSILON * fabsl(want);
        if (!(fabsl(q.z - want) <= tol)) fail("mean", "%s: %s reports %.17g at (%.17g, %.17g) in cell (%d, %d), the mean of its %d points is %.17Lg", r.desc.c_str(), which, q.z, q.x, q.y, i, j, (int) m, want);
        if (m == 1) one++; else many++;
    };
    // A: in batches, with reading in between
    for (int k = 0; k < n;) {
        int b = g.p(0.1) ? 0 : g.p(0.3) ? 1 : g.p(0.2) ? n - k : g.i(1, std::min(n - k, lots ? 30000 : 50));
        vector<point> batch(pts.begin() + k, pts.begin() + k + b), copy = batch;
        ga_addpoints(A, b, batch.data());
        if (b && memcmp(batch.data(), copy.data(), b * sizeof(point))) fail("data", "%s: adding points changed them", r.desc.c_str());
        for (int q = k; q < k + b; ++q) if (cellof[q] >= 0) rec[cellof[q]].push_back(pts[q].z);
        if (g.p(0.5)) std::reverse(batch.begin(), batch.end());
        ga_addpoints(S, b, batch.data());
        for (auto& p : batch) { int i, j; if (gridmap_xy2ij(ref2, p.x, p.y, &i, &j)) rec2[(size_t) j * m1 + i].push_back(p.z); }
        k += b;
        for (int q = g.i(0, 6); q > 0; --q) {
            if (g.p(0.6)) read(A, "the averager between batches");
            else read(S, "the averager of the other grid between batches", true);
        }
        count("batches");
    }
    if (lots) count("cases with thousands of points");
    for (int q = 0; q < 60; ++q) read(A, "the averager");
    // B: in another order, all at once or one by one
    if (g.p(0.5)) {
        vector<point> all;
        for (int k : order) all.push_back(pts[k]);
        ga_addpoints(B, n, all.data());
    } else
        for (int k : order) ga_addpoints(B, 1, &pts[k]);
    for (int q = 0; q < 30; ++q) read(B, "the averager filled in another order");
    // reading changes nothing
    for (int q = 0; q < 10; ++q) { read(A, "the averager"); read(S, "the averager of the other grid", true); }
    ga_destroy(S);
    gridmap_destroy(gm2);
    gridmap_destroy(ref2);
    gu_free2d(sx);
    gu_free2d(sy);
    ga_destroy(A);
    ga_destroy(B);
    gridmap_destroy(gm);
    gridmap_destroy(ref);
    gridnodes_destroy(gn);
    count("points added", n);
    count("points ignored", ignored);
    count("values read in cells without points or outside", none);
    count("values read in cells with one point", one);
    count("values read in cells with several points", many);
    count(type == GRIDMAP_TYPE_KDTREE ? "kd-tree maps" : "binary-tree maps");
    if (none && one && many && ignored) nontrivial(r.sig() ^ hashbytes(pts.data(), pts.size() * sizeof(point)));
    sample(r.desc + fmt(": %d points, %d ignored", n, ignored));
}
