#include "gn.hpp"
extern "C" {
#include "gridaverager.h"
}
const char* PROP = "C31";
const char* RULE = "grids over regions of all kinds and four geometries at two resolutions, the second with 16 times the cells (in both directions or in one); the work of every operation (basic blocks of the library executed, as counted by compiler instrumentation, plus allocations and memory moved) per cell, per vertex or per query must not have grown by more than the factor allowed for its kind; non-trivial if all operations were measured at both resolutions; distinct by shape and geometry";
long ncases(bool t) { return t ? 6000 : 720; }

// work: basic blocks executed by library code, allocations, and memory moved
static uint64_t W;
extern "C" {
void __sanitizer_cov_trace_pc(void) { W++; }
void* __real_malloc(size_t); void* __wrap_malloc(size_t n) { W += 20; return __real_malloc(n); }
void* __real_calloc(size_t, size_t); void* __wrap_calloc(size_t a, size_t b) { W += 20 + a * b / 32; return __real_calloc(a, b); }
void* __real_realloc(void*, size_t); void* __wrap_realloc(void* p, size_t n) { W += 20 + n / 32; return __real_realloc(p, n); }
void* __real_memcpy(void*, const void*, size_t); void* __wrap_memcpy(void* a, const void* b, size_t n) { W += 1 + n / 32; return __real_memcpy(a, b, n); }
void* __real_memmove(void*, const void*, size_t); void* __wrap_memmove(void* a, const void* b, size_t n) { W += 1 + n / 32; return __real_memmove(a, b, n); }
void* __real_memset(void*, int, size_t); void* __wrap_memset(void* a, int b, size_t n) { W += 1 + n / 32; return __real_memset(a, b, n); }
}
template <class F> static double work(F f) { uint64_t w = W; f(); return (double) (W - w); }

struct Shape { int c1, c2, fam; Region r; double p[8]; bool sw, mi; };
static void place(const Shape& s, double u, double v, double& x, double& y)
{
    double a = s.p[0], b = s.p[1];
    switch (s.fam) {
    case 0: x = u * s.c1; y = v * s.c2; break;                                         // straight
    case 1: { double t = 0.3 + 1.2 * u, r = 1 + v; x = r * cos(t); y = r * sin(t); break; }      // sectors
    case 2: { double z = 1 + u, w = 0.3 + v; x = z * z - w * w; y = 2 * z * w; break; }
    default: x = u * s.c1 + 0.05 * a * sin(3 * v + b); y = v * s.c2 + 0.05 * b * sin(3 * u + a); break;
    }
    if (s.mi) x = -x;
    if (s.sw) std::swap(x, y);
}
static Grid make(const Shape& s, int k, int k2)
{
    Grid r;
    r.n1 = s.c1 * k; r.n2 = s.c2 * k2;
    r.FX.resize((size_t) (r.n1 + 1) * (r.n2 + 1)); r.FY = r.FX;
    for (int j = 0; j <= r.n2; ++j) for (int i = 0; i <= r.n1; ++i) place(s, (double) i / r.n1, (double) j / r.n2, r.FX[(size_t) j * (r.n1 + 1) + i], r.FY[(size_t) j * (r.n1 + 1) + i]);
    Region q(r.n1, r.n2);
    for (int j = 0; j < r.n2; ++j) for (int i = 0; i < r.n1; ++i) q(i, j) = const_cast<Shape&>(s).r(i / k, j / k2);
    set_region(r, q);
    return r;
}
typedef std::map<string, double> Meas;
static Meas measure(const Shape& s, int k, int k2, uint64_t seed)
{
    Meas m;
    Rng g(seed);
    Grid r = make(s, k, k2);
    int nx = r.n1 + 1, ny = r.n2 + 1;
    double cells = r.cell.size();
    gridnodes* gn = NULL;
    m["per cell: grid from values"] = work([&]() { gn = to_gridnodes(r.X, r.Y, nx, ny, NT_COR); }) / cells;
    m["per cell: validation"] = work([&]() { gridnodes_validate(gn); }) / cells;
    m["per cell: statistics"] = work([&]() { gridnodes_calcstats(gn); }) / cells;
    gridnodes *ce = NULL, *dd = NULL, *t = NULL;
    gridnodes_setmaptype(gn, 0);
    m["per cell: CO to CE"] = work([&]() { ce = gridnodes_transform(gn, NT_CEN); }) / cells;
    gridnodes_setmaptype(gn, 1);
    m["per cell: CO to DD"] = work([&]() { dd = gridnodes_transform(gn, NT_DD); }) / cells;
    m["per cell: CE to CO"] = work([&]() { t = gridnodes_transform(ce, NT_COR); }) / cells; gridnodes_destroy(t);
    m["per cell: CE to DD"] = work([&]() { t = gridnodes_transform(ce, NT_DD); }) / cells; gridnodes_destroy(t);
    m["per cell: DD to CO"] = work([&]() { t = gridnodes_transform(dd, NT_COR); }) / cells; gridnodes_destroy(t);
    m["per cell: copy"] = work([&]() { t = gridnodes_copy(gn); }) / cells; gridnodes_destroy(t);
    m["per cell: subgrid"] = work([&]() { t = gridnodes_subgrid(gn, 1, nx - 1, 1, ny - 1); }) / cells; gridnodes_destroy(t);
    int** mask = (int**) gu_alloc2d(r.n2, r.n1, sizeof(int));
    for (int j = 0; j < r.n2; ++j) for (int i = 0; i < r.n1; ++i) mask[j][i] = (i / k + j / k2) % 3 != 0;
    m["per cell: mask"] = work([&]() { gridnodes_applymask(dd, mask); }) / cells;
    gu_free2d(mask);
    string f = wf("g.txt");
    m["per cell: written"] = work([&]() { gridnodes_write(gn, (char*) f.c_str(), (COORDTYPE) 2); }) / cells;
    string mt;
    for (int q = 0; q < r.n1 * r.n2; ++q) mt += "1\n";
    writefile(wf("m.txt"), mt);
    m["per cell: mask read"] = work([&]() { gu_free2d(gu_readmask((char*) wf("m.txt").c_str(), r.n1, r.n2)); }) / (r.n1 * r.n2);
    m["per cell: read"] = work([&]() { t = gridnodes_read((char*) f.c_str(), NT_COR); }) / cells; gridnodes_destroy(t);
    from_gridnodes(gn, r.X, r.Y);
    poly* b = NULL;
    m["per cell: boundary"] = work([&]() { b = poly_formbound(r.n1, r.n2, r.gx(), r.gy()); }) / cells;
    double len = b->n;
    m["per vertex: copy of a polyline"] = work([&]() { poly* z = poly_copy(b); poly_destroy(z); }) / len;
    m["per vertex: area"] = work([&]() { poly_area(b); }) / len;
    m["per vertex: reversal"] = work([&]() { poly_reverse(b); }) / len;
    m["per vertex: point in polygon"] = work([&]() { poly_containspoint(b, r.X[0] + 0.1, r.Y[0]); }) / len;
    m["per vertex: compaction"] = work([&]() { poly_compact(b, 1e-10); }) / len;
    poly_destroy(b);
    {
        Rng h(seed ^ 5);
        int n = r.n1 * r.n2 * 3 / 2;
        vector<double> px(n), py(n);
        for (int q = 0; q < n; ++q) { double a = 6.28 * q / n; px[q] = cos(a) * (1 + 0.1 * h.u()); py[q] = sin(a) * (1 + 0.1 * h.u()); }
        poly *p = poly_create(), *z;
        m["per vertex: polyline from points"] = work([&]() { for (int q = 0; q < n; ++q) poly_addpoint(p, px[q], py[q]); }) / n;
        z = poly_create();
        m["per vertex: polylines joined"] = work([&]() { poly_append(z, p); poly_append(z, p); }) / n;
        m["per vertex: polyline searched"] = work([&]() { poly_findindex(p, 7, 7); }) / n;
        m["per vertex: resampling"] = work([&]() { poly_resample(z, 1e-3); }) / n;
        poly_destroy(z);
        z = poly_copy(p);
        m["per vertex: despiking"] = work([&]() { poly_despike(z, 1e-3); }) / n;
        poly_destroy(z);
        z = poly_copy(p);
        m["per vertex: compaction of a rough polyline"] = work([&]() { poly_compact(z, 1e-10); }) / n;
        poly_destroy(z);
        FILE* f = fopen(wf("p.txt").c_str(), "w+");
        if (!f) exit(3);
        m["per vertex: polyline written"] = work([&]() { poly_write(p, f); }) / n;
        rewind(f);
        z = poly_create();
        m["per vertex: polyline read"] = work([&]() { poly_read(z, f); }) / n;
        if (z->n != n) { fprintf(stderr, "harness: polyline\n"); exit(3); }
        fclose(f);
        poly_destroy(z);
        poly_destroy(p);
    }
    vector<Pt> in, out, edge;
    for (int q = 0; q < 200; ++q) {         // on the outline
        int i, j, o, w;
        do { i = g.i(0, r.n1 - 1); j = g.i(0, r.n2 - 1); o = g.i(0, 3); int di[] = {1, -1, 0, 0}, dj[] = {0, 0, 1, -1}, a = i + di[o], b = j + dj[o]; w = r.cell(i, j) && (a < 0 || b < 0 || a >= r.n1 || b >= r.n2 || !r.cell(a, b)); } while (!w);
        int ia = i + (o == 0), ja = j + (o == 2), ib = i + (o != 1), jb = j + (o != 3);
        double t = g.u();
        edge.push_back({r.x(ia, ja) * t + r.x(ib, jb) * (1 - t), r.y(ia, ja) * t + r.y(ib, jb) * (1 - t), ""});
    }
    for (int q = 0; q < 200; ++q) {
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
        if (q == 0) for (size_t z = 0; z < r.X.size(); ++z) if (r.X[z] == r.X[z]) { x0 = std::min(x0, r.X[z]); x1 = std::max(x1, r.X[z]); y0 = std::min(y0, r.Y[z]); y1 = std::max(y1, r.Y[z]); }
        static double bx[4];
        if (q == 0) { bx[0] = x0; bx[1] = x1; bx[2] = y0; bx[3] = y1; }
        out.push_back({g.u(bx[0], bx[1]), g.u(bx[2], bx[3]), ""});
    }
    for (int q = 0; q < 200; ++q) {
        double u, v; Pt p;
        do { u = g.u(); v = g.u(); } while (!r.cell((int) (u * r.n1), (int) (v * r.n2)));
        place(s, u, v, p.x, p.y);
        in.push_back(p);
    }
    for (int type = 0; type < 2; ++type) {
        string T = type ? ", kd-tree map" : ", binary map";
        gridmap* gm = NULL;
        m["per cell: building" + T] = work([&]() { gm = gridmap_build(r.n1, r.n2, r.gx(), r.gy(), type); }) / cells;
        int i, j; double x, y; long ok = 0;
        m["query: cell" + T] = work([&]() { for (auto& p : in) ok += gridmap_xy2ij(gm, p.x, p.y, &i, &j); }) / in.size();
        m["query: cell, anywhere in the box" + T] = work([&]() { for (auto& p : out) gridmap_xy2ij(gm, p.x, p.y, &i, &j); }) / out.size();
        m["query: cell, on the outline" + T] = work([&]() { for (auto& p : edge) gridmap_xy2ij(gm, p.x, p.y, &i, &j); }) / edge.size();
        m["query: position" + T] = work([&]() { for (auto& p : in) gridmap_xy2fij(gm, p.x, p.y, &x, &y); }) / in.size();
        m["query: index" + T] = work([&]() { for (int q = 0; q < 200; ++q) gridmap_fij2xy(gm, g.u(0, r.n1), g.u(0, r.n2), &x, &y); }) / 200;
        m["ok" + T] = ok;
        gridaverager* ga = NULL;
        m["per cell: averager made" + T] = work([&]() { ga = ga_create(gm); }) / cells;
        vector<point> pt(in.size());
        for (size_t q = 0; q < in.size(); ++q) { pt[q].x = in[q].x; pt[q].y = in[q].y; pt[q].z = 1; }
        m["query: averager fed" + T] = work([&]() { ga_addpoints(ga, (int) pt.size(), pt.data()); }) / pt.size();
        m["query: averager asked" + T] = work([&]() { for (auto& p : pt) ga_getvalue(ga, &p); }) / pt.size();
        ga_destroy(ga);
        gridmap_destroy(gm);
    }
    gridnodes_destroy(gn); gridnodes_destroy(ce); gridnodes_destroy(dd);
    // trees
    int n = s.c1 * s.c2 * k * k2;
    vector<double> a(n), c(n);
    for (int order = 0; order < 2; ++order) {
        for (int q = 0; q < n; ++q) { a[q] = order ? g.u() : (q + g.u()) / n; c[q] = order ? g.u() : (double) q / n + g.u(0, 0.01); }
        double* src[2] = {a.data(), c.data()};
        kdtree* kt = kd_create(2);
        string T = order ? ", random" : ", sorted and shuffled";
        m["per cell: tree of points" + T] = work([&]() { kd_insertnodes(kt, n, src, 1); }) / n;
        m["query: nearest point" + T] = work([&]() { for (int q = 0; q < 200; ++q) { int z = g.i(0, n - 1); double p[2] = {a[z] + g.u(-1e-4, 1e-4), c[z] + g.u(-1e-4, 1e-4)}; kd_findnearestnode(kt, p); } }) / 200;
        double found = 0;
        m["query: points in range" + T] = work([&]() { for (int q = 0; q < 50; ++q) { int z = g.i(0, n - 1); double p[2] = {a[z], c[z]}; kdset* S = kd_findnodeswithinrange(kt, p, 2.0 / sqrt((double) n), 0); found += kdset_getsize(S); double d; while (kdset_read(S, &d) != SIZE_MAX); kdset_free(S); } }) / std::max(50.0, found);
        kd_destroy(kt);
        if (order) {
            kt = kd_create(2);
            m["per cell: tree point by point"] = work([&]() { for (int q = 0; q < n; ++q) { double p[2] = {a[q], c[q]}; kd_insertnode(kt, p, q); } }) / n;
            kd_destroy(kt);
        }
    }
    m["len"] = len;
    return m;
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    Shape s;
    int kd;
    s.c1 = g.i(1, 4); s.c2 = g.i(1, 4);
    s.r = region_disc(g, s.c1, s.c2, &kd);
    s.fam = g.i(0, 3);
    for (auto& p : s.p) p = g.u();
    s.sw = g.p(0.5); s.mi = g.p(0.5);
    int k = std::max(8, (int) (40.0 / std::max(s.c1, s.c2)));
    uint64_t seed = g.next();
    int dir = g.i(0, 3), k2 = k, a = 4, b = 4;
    if (dir == 1) { a = 16; b = 1; }
    if (dir == 2) { a = 1; b = 16; }
    if (c.thorough && g.p(0.3)) { k *= 2; k2 *= 2; }
    Meas A = measure(s, k, k2, seed), B = measure(s, a * k, b * k2, seed);
    double lr = B["len"] / A["len"];
    for (auto& x : A) {
        const string& n = x.first;
        double ra = B[n] / std::max(x.second, 1e-9), lim;
        auto is = [&](const char* z) { return n.find(z) != string::npos; };
        if (n == "len") continue;
        if (is("ok, ")) { if (is("binary") && B[n] < 190) fail("found", "%.0f of 200 positions found", B[n]); continue; }
        if (is("query") && is("binary") && !is("index")) lim = 2 * std::max(lr, 1.0);      // a walk along the boundary
        else if (is("index")) lim = 2;
        else if (is("anywhere in the box") || is("CE to")) lim = 7;
        else if (is("per vertex")) lim = is("resampl") || is("rough") ? 6 : 3;
        else if (is("query")) lim = 3.5;
        else lim = 3;
        evals();
        if (getenv("C31_PRINT")) fprintf(stderr, "M %s | %g %g %g | %.3f\n", n.c_str(), x.second, B[n], lim, ra / lim);
        if (ra > lim && B[n] - x.second * lim > 3) fail("growth", "%s: region %s, geometry %d: work was %.1f with %d x %d cells, is %.1f with %d x %d: %.1f times as much, not more than %.1f times expected", n.c_str(), REGION_KIND[kd], s.fam, x.second, s.c1 * k, s.c2 * k2, B[n], s.c1 * k * a, s.c2 * k2 * b, ra, lim);
        count(("measured: " + n).c_str());
    }
    if (A.size() != B.size() || A.size() < 50) { fprintf(stderr, "harness: %zu measurements\n", A.size()); exit(3); }
    count((string("region ") + REGION_KIND[kd]).c_str());
    count(fmt("geometry %d", s.fam).c_str());
    nontrivial(seed);
    sample(fmt("%s of %d x %d: cell found with work %.0f, then %.0f (binary map), %.0f, then %.0f (kd-tree map); building %.0f, then %.0f per cell", REGION_KIND[kd], s.c1 * k, s.c2 * k2,
               A["query: cell, binary map"], B["query: cell, binary map"], A["query: cell, kd-tree map"], B["query: cell, kd-tree map"], A["per cell: building, binary map"], B["per cell: building, binary map"]));
}
