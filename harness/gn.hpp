// Arrays of nodes with arbitrary values, and a model of the operations on them.
#pragma once
#include "gridgen.hpp"

struct NG {
    int nx = 0, ny = 0;
    NODETYPE t = NT_NONE;
    vector<double> X, Y;
    NG() { }
    NG(int a, int b, NODETYPE k) : nx(a), ny(b), t(k), X((size_t) a * b, QNAN), Y((size_t) a * b, QNAN) { }
    size_t id(int i, int j) const { return (size_t) j * nx + i; }
    bool in(int i, int j) const { return i >= 0 && j >= 0 && i < nx && j < ny; }
    bool ok(int i, int j) const { return in(i, j) && !std::isnan(X[id(i, j)]); }
    void drop(int i, int j) { X[id(i, j)] = Y[id(i, j)] = QNAN; }
    void put(int i, int j, double x, double y) { X[id(i, j)] = x; Y[id(i, j)] = y; }
    int present() const { int n = 0; for (double x : X) n += !std::isnan(x); return n; }
    uint64_t sig() const { return hashdv(Y, hashdv(X, mix64(nx * 1000003ULL + ny * 7 + t))); }
    string desc() const { return fmt("%s %d x %d, %d nodes present", t == NT_DD ? "DD" : t == NT_CEN ? "CE" : t == NT_COR ? "CO" : "untyped", nx, ny, present()); }
};
static inline const char* tname(NODETYPE t) { return t == NT_DD ? "DD" : t == NT_CEN ? "CE" : "CO"; }

// a number with at most 15 significant digits
static inline double nice(Rng& g)
{
    char b[64];
    double v;
    switch (g.i(0, 7)) {
    case 0: return g.i(-9, 9);
    case 1: return g.i(-100000, 100000);
    case 2: v = g.u(-180, 180); snprintf(b, sizeof b, "%.6f", v); break;
    case 3: v = g.u(-1, 1); snprintf(b, sizeof b, "%.15g", v); break;
    case 4: v = g.u(-1, 1) * pow(10, g.u(-300, 300)); snprintf(b, sizeof b, "%.15g", v); break;
    case 5: v = g.u(-1, 1) * pow(10, g.u(-8, 8)); snprintf(b, sizeof b, "%.15g", v); break;
    case 6: v = g.u(100000, 9999999); snprintf(b, sizeof b, "%.3f", v); break;
    default: v = g.u(-1, 1) * pow(10, g.u(-20, 20)); snprintf(b, sizeof b, "%.*g", g.i(1, 15), v); break;
    }
    return strtod(b, NULL);
}
static inline void fill_values(Rng& g, NG& n, const vector<char>& present, bool nicevals)
{
    int mode = g.i(0, 2);
    for (size_t k = 0; k < n.X.size(); ++k) {
        if (!present[k]) { n.X[k] = n.Y[k] = QNAN; continue; }
        if (mode == 0) { n.X[k] = (double) (k % n.nx) * 10 + 0.25; n.Y[k] = (double) (k / n.nx) * 10 + 0.75; }
        else if (mode == 1 && !nicevals) { n.X[k] = g.u(-1e3, 1e3); n.Y[k] = g.u(-1e3, 1e3); }
        else { n.X[k] = nice(g); n.Y[k] = nice(g); }
        if (g.p(0.01)) n.X[k] = 0;
        if (g.p(0.01)) n.Y[k] = -0.0;
    }
}
static inline vector<char> dd_pattern(Rng& g, int nx, int ny)
{
    int a = nx / 2 + 1, b = ny / 2 + 1;
    vector<char> c = random_nodes(g, a, b), v((size_t) nx * ny, 1);
    double pe = g.pick(vector<double>{0, 0, 0.1, 0.5, 1}), pc = g.pick(vector<double>{0, 0, 0.1, 0.5, 1});
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        if (i % 2 == 0 && j % 2 == 0) v[j * nx + i] = c[(j / 2) * a + i / 2];
        else if (i % 2 && j % 2) v[j * nx + i] = !g.p(pc);
        else v[j * nx + i] = !g.p(pe);
    }
    return v;
}
static inline NG gen_ng(Rng& g, NODETYPE t, int big, bool nicevals)
{
    int nx, ny, top = g.p(0.2) ? 3 : g.p(0.85) ? 12 : big;
    nx = g.i(1, top); ny = g.i(1, top);
    if (g.p(0.06)) nx = 1;
    if (g.p(0.06)) ny = 1;
    if (big >= 10 && large(g)) {
        if (g.p(0.15)) { nx = g.i(33000, 70000); ny = g.i(1, 2); if (g.p(0.5)) std::swap(nx, ny); count("tens of thousands of columns or rows"); }
        else large_size(g, nx, ny);
    }
    if (t == NT_DD) {
        nx = (nx - 1) * 2 + 1; ny = (ny - 1) * 2 + 1;
    }
    NG n(nx, ny, t);
    vector<char> p = t == NT_DD && g.p(0.7) ? dd_pattern(g, nx, ny) : random_nodes(g, nx, ny);
    fill_values(g, n, p, nicevals);
    return n;
}
// ------------------------------------------------------------ model
static inline void m_validate(NG& n)
{
    if (n.t != NT_DD && n.t != NT_COR) return;
    int s = n.t == NT_DD ? 2 : 1;
    vector<char> keep(n.X.size(), 0);
    for (int j = 0; j + s < n.ny; j += s)
        for (int i = 0; i + s < n.nx; i += s)
            if (n.ok(i, j) && n.ok(i + s, j) && n.ok(i, j + s) && n.ok(i + s, j + s))
                keep[n.id(i, j)] = keep[n.id(i + s, j)] = keep[n.id(i, j + s)] = keep[n.id(i + s, j + s)] = 1;
    if (n.t == NT_DD)
        for (int j = 0; j < n.ny; ++j)
            for (int i = 0; i < n.nx; ++i) {
                if (!(i % 2) && !(j % 2)) continue;
                if (!n.ok(i, j)) continue;
                int di = i % 2, dj = j % 2;
                keep[n.id(i, j)] = keep[n.id(i - di, j - dj)] && keep[n.id(i + di, j + dj)] && keep[n.id(i - di, j + dj)] && keep[n.id(i + di, j - dj)];
            }
    for (int j = 0; j < n.ny; ++j) for (int i = 0; i < n.nx; ++i) if (!keep[n.id(i, j)]) n.drop(i, j);
}
// TX: absolute tolerance of each node (empty: exact)
struct NT2 { NG g; vector<double> tol; };
static inline NT2 m_dd2(const NG& n, NODETYPE t)       // n validated DD
{
    int o = t == NT_CEN ? 1 : 0;
    NT2 r;
    r.g = NG(t == NT_CEN ? n.nx / 2 : n.nx / 2 + 1, t == NT_CEN ? n.ny / 2 : n.ny / 2 + 1, t);
    for (int j = 0; j < r.g.ny; ++j) for (int i = 0; i < r.g.nx; ++i) r.g.put(i, j, n.X[n.id(2 * i + o, 2 * j + o)], n.Y[n.id(2 * i + o, 2 * j + o)]);
    return r;
}
static inline NT2 m_co2(const NG& n, NODETYPE t)       // n validated CO
{
    NT2 r;
    bool cen = t == NT_CEN;
    r.g = NG(cen ? n.nx - 1 : n.nx * 2 - 1, cen ? n.ny - 1 : n.ny * 2 - 1, t);
    r.tol.assign(r.g.X.size(), 0);
    for (int j = 0; j < r.g.ny; ++j)
        for (int i = 0; i < r.g.nx; ++i) {
            int a = cen ? 2 * i + 1 : i, b = cen ? 2 * j + 1 : j;       // position in half cells
            int i0 = a / 2, i1 = (a + 1) / 2, j0 = b / 2, j1 = (b + 1) / 2;
            if (!n.ok(i0, j0) || !n.ok(i1, j0) || !n.ok(i0, j1) || !n.ok(i1, j1)) continue;
            size_t q[4] = {n.id(i0, j0), n.id(i1, j0), n.id(i0, j1), n.id(i1, j1)};
            ld x = 0, y = 0;
            double mag = 0;
            for (int k = 0; k < 4; ++k) { x += n.X[q[k]] * 0.25L; y += n.Y[q[k]] * 0.25L; mag = std::max(mag, std::max(fabs(n.X[q[k]]), fabs(n.Y[q[k]]))); }
            r.g.put(i, j, (double) x, (double) y);
            r.tol[r.g.id(i, j)] = q[0] == q[3] ? 0 : 16 * DBL_EPSILON * mag + 1e-320;
        }
    return r;
}
static inline void m_mask(NG& n, const vector<int>& mask)
{
    if (n.t == NT_CEN) {
        for (size_t k = 0; k < n.X.size(); ++k) if (!mask[k]) n.X[k] = n.Y[k] = QNAN;
        return;
    }
    int m = n.nx / 2;
    for (int j = 1; j < n.ny; j += 2) for (int i = 1; i < n.nx; i += 2) if (!mask[(j / 2) * m + i / 2]) n.drop(i, j);
    for (int j = 0; j < n.ny; j += 2) for (int i = 0; i < n.nx; i += 2)
        if (!n.ok(i - 1, j - 1) && !n.ok(i + 1, j - 1) && !n.ok(i - 1, j + 1) && !n.ok(i + 1, j + 1)) n.drop(i, j);
    m_validate(n);
}
// ------------------------------------------------------------ comparison
static inline gridnodes* ng_make(const NG& n) { return to_gridnodes(n.X, n.Y, n.nx, n.ny, n.t); }
static inline NG ng_get(gridnodes* gn, NODETYPE t)
{
    NG n(gridnodes_getnx(gn), gridnodes_getny(gn), t);
    from_gridnodes(gn, n.X, n.Y);
    return n;
}
static inline void ng_compare(const char* key, const string& what, const NG& got, const NG& want, const vector<double>* tol = NULL)
{
    if (got.nx != want.nx || got.ny != want.ny) fail(key, "%s: size is %d x %d instead of %d x %d", what.c_str(), got.nx, got.ny, want.nx, want.ny);
    for (int j = 0; j < want.ny; ++j)
        for (int i = 0; i < want.nx; ++i) {
            size_t k = want.id(i, j);
            double gx = got.X[k], gy = got.Y[k], wx = want.X[k], wy = want.Y[k], t = tol && !tol->empty() ? (*tol)[k] : 0;
            evals();
            if (std::isnan(wx) && std::isnan(gx) && std::isnan(gy)) continue;
            if (t == 0 && same(gx, wx) && same(gy, wy)) continue;
            if (t != 0 && fabs(gx - wx) <= t && fabs(gy - wy) <= t) continue;
            fail(key, "%s: node (%d, %d) is (%.17g, %.17g) instead of (%.17g, %.17g)", what.c_str(), i, j, gx, gy, wx, wy);
        }
}
static inline string ng_text(const NG& n) { return grid_text(n.X, n.Y, n.nx, n.ny); }
static inline NG ng_parse(const char* key, const string& what, const string& out, NODETYPE t)
{
    NG n;
    n.t = t;
    if (!parse_grid(out, n.nx, n.ny, n.X, n.Y)) fail(key, "%s: output is not a grid: %s", what.c_str(), out.substr(0, 300).c_str());
    return n;
}
// output has 15 digits: tolerances for comparison of parsed output with exact values
static inline vector<double> tol15(const NG& n, const vector<double>* t = NULL)
{
    vector<double> r(n.X.size(), 0);
    for (size_t k = 0; k < r.size(); ++k) r[k] = (t && !t->empty() ? (*t)[k] : 0) + 1e-14 * std::max(fabs(n.X[k]), fabs(n.Y[k])) + 1e-320;
    return r;
}
