// Random grids: valid regions in index space, node geometry, exact-ish geometry oracles.
#pragma once
#include "common.hpp"

struct Region {                 // set of cells
    int n1, n2;
    vector<char> c;
    Region(int a = 0, int b = 0, char v = 0) : n1(a), n2(b), c((size_t) a * b, v) { }
    char at(int i, int j) const { return i >= 0 && j >= 0 && i < n1 && j < n2 && c[(size_t) j * n1 + i]; }
    char& operator()(int i, int j) { return c[(size_t) j * n1 + i]; }
    int size() const { int s = 0; for (char x : c) s += x; return s; }
};

// nodes that are corners of the cells in the region
static inline vector<char> region_nodes(const Region& r)
{
    int m1 = r.n1 + 1;
    vector<char> v((size_t) m1 * (r.n2 + 1), 0);
    for (int j = 0; j < r.n2; ++j)
        for (int i = 0; i < r.n1; ++i)
            if (r.at(i, j))
                v[j * m1 + i] = v[j * m1 + i + 1] = v[(j + 1) * m1 + i] = v[(j + 1) * m1 + i + 1] = 1;
    return v;
}
// the four corner rule: a cell is valid if its four corners are
static inline Region cells_of_nodes(int n1, int n2, const vector<char>& v)
{
    Region r(n1, n2);
    int m1 = n1 + 1;
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i)
            r(i, j) = v[j * m1 + i] && v[j * m1 + i + 1] && v[(j + 1) * m1 + i] && v[(j + 1) * m1 + i + 1];
    return r;
}
static inline Region close4(const Region& r) { return cells_of_nodes(r.n1, r.n2, region_nodes(r)); }

static inline int flood(const Region& r, char val, int i0, int j0, vector<char>& seen, bool pad)
{
    // counts cells of value val connected by edges; with pad the ring around the array counts as value 0
    int w = r.n1 + 2, cnt = 0;
    vector<std::pair<int, int>> st;
    st.push_back({i0, j0});
    seen[(j0 + 1) * w + i0 + 1] = 1;
    while (!st.empty()) {
        auto p = st.back();
        st.pop_back();
        cnt++;
        static const int di[] = {1, -1, 0, 0}, dj[] = {0, 0, 1, -1};
        for (int k = 0; k < 4; ++k) {
            int i = p.first + di[k], j = p.second + dj[k];
            int lo = pad ? -1 : 0;
            if (i < lo || j < lo || i >= r.n1 - lo || j >= r.n2 - lo) continue;
            if (seen[(j + 1) * w + i + 1] || r.at(i, j) != val) continue;
            seen[(j + 1) * w + i + 1] = 1;
            st.push_back({i, j});
        }
    }
    return cnt;
}
// simply connected, without corner-only contacts
static inline bool is_disc(const Region& r)
{
    int n = r.size();
    if (n == 0) return false;
    for (int j = 0; j <= r.n2; ++j)
        for (int i = 0; i <= r.n1; ++i) {
            bool a = r.at(i - 1, j - 1), b = r.at(i, j - 1), c = r.at(i - 1, j), d = r.at(i, j);
            if ((a && d && !b && !c) || (b && c && !a && !d)) return false;
        }
    vector<char> seen((size_t) (r.n1 + 2) * (r.n2 + 2), 0);
    int k = 0;
    while (!r.c[k]) k++;
    if (flood(r, 1, k % r.n1, k / r.n1, seen, false) != n) return false;
    std::fill(seen.begin(), seen.end(), 0);
    return flood(r, 0, -1, -1, seen, true) == (r.n1 + 2) * (r.n2 + 2) - n;
}
// adjacent valid nodes whose common edge belongs to no valid cell
static inline int bridging_edges(const Region& r)
{
    vector<char> v = region_nodes(r);
    int m1 = r.n1 + 1, n = 0;
    for (int j = 0; j <= r.n2; ++j)
        for (int i = 0; i <= r.n1; ++i) {
            if (i < r.n1 && v[j * m1 + i] && v[j * m1 + i + 1] && !r.at(i, j) && !r.at(i, j - 1)) n++;
            if (j < r.n2 && v[j * m1 + i] && v[(j + 1) * m1 + i] && !r.at(i, j) && !r.at(i - 1, j)) n++;
        }
    return n;
}

static const char* REGION_KIND[] = {"full", "L", "U", "spiral", "comb", "strip", "growth", "coarse growth", "staircase", "hook", "single"};

static inline Region region_disc(Rng& g, int n1, int n2, int* kindout = NULL)
{
    for (int attempt = 0;; ++attempt) {
        int kind = attempt > 20 ? 0 : g.i(0, 10);
        Region r(n1, n2);
        switch (kind) {
        case 0:
            r = Region(n1, n2, 1);
            if (g.p(0.3)) {         // a rectangle inside a larger array
                r = Region(n1, n2);
                int i1 = g.i(0, n1 - 1), i2 = g.i(i1, n1 - 1), j1 = g.i(0, n2 - 1), j2 = g.i(j1, n2 - 1);
                for (int j = j1; j <= j2; ++j) for (int i = i1; i <= i2; ++i) r(i, j) = 1;
            }
            break;
        case 1: {                   // L
            int a = g.i(0, n1 - 1), b = g.i(0, n2 - 1), fi = g.i(0, 1), fj = g.i(0, 1);
            for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i)
                if (i <= a || j <= b) r(fi ? n1 - 1 - i : i, fj ? n2 - 1 - j : j) = 1;
            break;
        }
        case 2: {                   // U or C
            int o = g.i(0, 3), a1 = g.i(0, n1 - 1), a2 = g.i(a1, n1 - 1), b1 = g.i(0, n2 - 1), b2 = g.i(b1, n2 - 1);
            r = Region(n1, n2, 1);
            for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) {
                bool cut = o == 0 ? (i >= a1 && i <= a2 && j <= b2) : o == 1 ? (i >= a1 && i <= a2 && j >= b1) : o == 2 ? (j >= b1 && j <= b2 && i <= a2) : (j >= b1 && j <= b2 && i >= a1);
                if (cut) r(i, j) = 0;
            }
            break;
        }
        case 3: {                   // spiral
            int i = 0, j = 0, d = 0, w = g.i(1, 2);
            static const int di[] = {1, 0, -1, 0}, dj[] = {0, 1, 0, -1};
            int lo1 = 0, hi1 = n1 - 1, lo2 = 0, hi2 = n2 - 1, gap = 2 + g.i(0, 1);
            (void) w;
            r(0, 0) = 1;
            for (int turn = 0; turn < 40; ++turn) {
                int ti = d == 0 ? hi1 : d == 2 ? lo1 : i, tj = d == 1 ? hi2 : d == 3 ? lo2 : j;
                if ((d == 0 && ti <= i) || (d == 2 && ti >= i) || (d == 1 && tj <= j) || (d == 3 && tj >= j)) break;
                while (i != ti || j != tj) { i += di[d]; j += dj[d]; r(i, j) = 1; }
                if (d == 0) lo2 += gap; else if (d == 1) hi1 -= gap; else if (d == 2) hi2 -= gap; else lo1 += gap;
                d = (d + 1) % 4;
                if (lo1 > hi1 || lo2 > hi2) break;
            }
            break;
        }
        case 4: {                   // comb
            bool tr = g.p(0.5);
            int period = g.i(3, 5), w = g.i(1, period - 2), a = tr ? n2 : n1, b = tr ? n1 : n2, h = g.i(0, b - 1), base = g.i(1, b);
            for (int q = 0; q < b; ++q) for (int p = 0; p < a; ++p) {
                bool on = q < base || (p % period < w && q <= h);
                if (on) { if (tr) r(q, p) = 1; else r(p, q) = 1; }
            }
            break;
        }
        case 5: {                   // strip
            if (g.p(0.5)) { int j = g.i(0, n2 - 1); for (int i = 0; i < n1; ++i) r(i, j) = 1; }
            else { int i = g.i(0, n1 - 1); for (int j = 0; j < n2; ++j) r(i, j) = 1; }
            break;
        }
        case 6: {                   // random growth keeping a disc
            if (n1 * n2 > 150) continue;
            r(g.i(0, n1 - 1), g.i(0, n2 - 1)) = 1;
            int target = g.i(1, n1 * n2);
            for (int k = 0; k < 6 * n1 * n2 && r.size() < target; ++k) {
                int i = g.i(0, n1 - 1), j = g.i(0, n2 - 1);
                if (r.at(i, j) || !(r.at(i - 1, j) || r.at(i + 1, j) || r.at(i, j - 1) || r.at(i, j + 1))) continue;
                Region q = r;
                q(i, j) = 1;
                q = close4(q);
                if (is_disc(q)) r = q;
            }
            break;
        }
        case 7: {                   // coarse growth, upsampled
            int f = g.i(2, 6), m1 = n1 / f, m2 = n2 / f;
            if (m1 < 2 || m2 < 2 || m1 * m2 > 150) continue;
            Region q = Region(m1, m2);
            q(g.i(0, m1 - 1), g.i(0, m2 - 1)) = 1;
            for (int k = 0; k < 6 * m1 * m2; ++k) {
                int i = g.i(0, m1 - 1), j = g.i(0, m2 - 1);
                if (q.at(i, j) || !(q.at(i - 1, j) || q.at(i + 1, j) || q.at(i, j - 1) || q.at(i, j + 1))) continue;
                Region s = q;
                s(i, j) = 1;
                if (is_disc(s)) q = s;
            }
            for (int j = 0; j < m2 * f; ++j) for (int i = 0; i < m1 * f; ++i) r(i, j) = q.at(i / f, j / f);
            break;
        }
        case 8: {                   // staircase
            int w = g.i(1, 3);
            bool fl = g.p(0.5);
            for (int j = 0; j < n2; ++j) {
                int c = (int) ((double) j * n1 / n2), c2 = (int) ((double) (j + 1) * n1 / n2);
                for (int i = c; i <= c2 + w - 1 && i < n1; ++i) r(fl ? n1 - 1 - i : i, j) = 1;
            }
            break;
        }
        case 9: {                   // hooks around a bay whose rim nodes are adjacent
            static const char* H[] = {"XX...", "X..X.", "X..X.", "XXXX."};
            static const char* H2[] = {"XXX...", "X.....", "X...XX", "X...X.", "XXXXX."};
            static const char* H3[] = {"XX....", "X..XX.", "X...X.", "XXXXX."};
            int which = g.i(0, 2);
            const char** h = which == 0 ? H : which == 1 ? H2 : H3;
            int hh = which == 0 ? 4 : which == 1 ? 5 : 4, ww = (int) strlen(h[0]);
            if (n1 < ww || n2 < hh) continue;
            int oi = g.i(0, n1 - ww), oj = g.i(0, n2 - hh), fi = g.i(0, 1), fj = g.i(0, 1);
            for (int j = 0; j < hh; ++j) for (int i = 0; i < ww; ++i)
                if (h[fj ? hh - 1 - j : j][fi ? ww - 1 - i : i] == 'X') r(oi + i, oj + j) = 1;
            int more = g.i(0, n1 * n2 > 150 ? 10 : n1 * n2 / 3);
            for (int k = 0; k < 4 * more; ++k) {
                int i = g.i(0, n1 - 1), j = g.i(0, n2 - 1);
                if (r.at(i, j) || !(r.at(i - 1, j) || r.at(i + 1, j) || r.at(i, j - 1) || r.at(i, j + 1))) continue;
                Region q = r;
                q(i, j) = 1;
                q = close4(q);
                if (is_disc(q)) r = q;
            }
            break;
        }
        case 10:
            r(g.i(0, n1 - 1), g.i(0, n2 - 1)) = 1;
            break;
        }
        r = close4(r);
        if (is_disc(r)) {
            if (kindout) *kindout = kind;
            return r;
        }
    }
}

// any pattern of valid nodes
static inline vector<char> random_nodes(Rng& g, int m1, int m2)
{
    vector<char> v((size_t) m1 * m2, 1);
    int kind = g.i(0, 6);
    double d = g.pick(vector<double>{0.0, 0.02, 0.1, 0.25, 0.5, 0.8, 1.0});
    if (kind <= 2) {
        for (auto& x : v) x = !g.p(d);
    } else if (kind == 3) {         // holes and patches
        int n = g.i(0, 6);
        for (int k = 0; k < n; ++k) {
            int a = g.i(0, m1 - 1), b = g.i(0, m2 - 1), w = g.i(1, 1 + m1 / 3), h = g.i(1, 1 + m2 / 3);
            for (int j = b; j < b + h && j < m2; ++j) for (int i = a; i < a + w && i < m1; ++i) v[j * m1 + i] = 0;
        }
    } else if (kind == 4) {         // islands
        for (auto& x : v) x = 0;
        int n = g.i(0, 6);
        for (int k = 0; k < n; ++k) {
            int a = g.i(0, m1 - 1), b = g.i(0, m2 - 1), w = g.i(1, 1 + m1 / 2), h = g.i(1, 1 + m2 / 2);
            for (int j = b; j < b + h && j < m2; ++j) for (int i = a; i < a + w && i < m1; ++i) v[j * m1 + i] = 1;
        }
    } else if (kind == 5) {         // checkerboard of cells
        int s = g.i(1, 3);
        for (int j = 0; j < m2; ++j) for (int i = 0; i < m1; ++i) v[j * m1 + i] = ((i / (s + 1)) + (j / (s + 1))) % 2 == 0;
    } else {                        // missing rows and columns
        int r = g.i(0, m2 - 1), c = g.i(0, m1 - 1);
        if (g.p(0.6)) for (int i = 0; i < m1; ++i) v[r * m1 + i] = 0;
        if (g.p(0.6)) for (int j = 0; j < m2; ++j) v[j * m1 + c] = 0;
    }
    return v;
}

struct Grid {                   // corner nodes of a grid with geometry
    int n1 = 0, n2 = 0;         // numbers of cells
    vector<double> X, Y;        // nodes, NaN if missing
    vector<double> FX, FY;      // nodes of the complete rectangle
    Region cell;                // valid cells
    bool lattice = false;
    int family = 0;
    double minedge = 0, maxdiam = 0, cmax = 0, aspect = 1;
    string desc;
    vector<double*> px, py;
    int m1() const { return n1 + 1; }
    double x(int i, int j) const { return X[(size_t) j * (n1 + 1) + i]; }
    double y(int i, int j) const { return Y[(size_t) j * (n1 + 1) + i]; }
    uint64_t sig() const { return hashdv(Y, hashdv(X)); }
    double** gx() { px.clear(); for (int j = 0; j <= n2; ++j) px.push_back(&X[(size_t) j * (n1 + 1)]); return px.data(); }
    double** gy() { py.clear(); for (int j = 0; j <= n2; ++j) py.push_back(&Y[(size_t) j * (n1 + 1)]); return py.data(); }
};

static const char* FAMILY[] = {"lattice", "stretched", "affine", "polar", "sinusoidal", "jitter", "projective", "geometric", "quadratic", "columns", "rows"};

// coordinates of the complete rectangle of nodes; every cell strictly convex, all with the same orientation
static inline bool geometry_raw(Rng& g, Grid& r, int fam)
{
    int n1 = r.n1, n2 = r.n2, m1 = n1 + 1;
    vector<double>& X = r.FX;
    vector<double>& Y = r.FY;
    X.assign((size_t) m1 * (n2 + 1), 0);
    Y = X;
    double a = g.u(), b = g.u(), p = g.u(0, 6.28), q = g.u(0, 6.28), w1 = g.u(0.1, 1.2), w2 = g.u(0.1, 1.2), w3 = g.u(0.05, 0.5);
    vector<double> sx(m1), sy(n2 + 1);
    r.lattice = fam == 0;
    if (fam == 0) {
        int A = g.i(1, 4), B = g.i(1, 4), K = g.p(0.5) ? 0 : g.i(-3, 3), oi = g.i(-50, 50), oj = g.i(-50, 50);
        bool sheary = g.p(0.3);
        for (int j = 0; j <= n2; ++j) for (int i = 0; i <= n1; ++i) {
            X[j * m1 + i] = i * A + (sheary ? 0 : K * j) + oi;
            Y[j * m1 + i] = j * B + (sheary ? K * i : 0) + oj;
        }
        return true;
    }
    if (fam >= 9) {                 // one coordinate depends on one index only, the other increases along the other index: straight parallel sides, crooked ends
        int a1 = fam == 9 ? n1 : n2, a2 = fam == 9 ? n2 : n1;
        double hmax = g.u(0.5, 3), s = 0, slope = g.p(0.5) ? g.u(-1, 1) : 0;
        bool alike = g.p(0.3);
        for (int p = 0; p <= a1; ++p) {
            if (p) s += g.u(0.4, 2);
            double t = slope * s + g.u(-0.5, 0.5);
            for (int q = 0; q <= a2; ++q) {
                if (q) t += alike ? 1 + 0.3 * p : g.u(0.4, hmax + 0.4);
                int i = fam == 9 ? p : q, j = fam == 9 ? q : p;
                X[j * m1 + i] = fam == 9 ? s : t;
                Y[j * m1 + i] = fam == 9 ? t : s;
            }
        }
        return true;
    }
    if (fam == 1 || fam == 7) {
        double r1 = fam == 7 ? g.u(0.8, 1.25) : 1, r2 = fam == 7 ? g.u(0.8, 1.25) : 1, d1 = 1, d2 = 1;
        for (int i = 1; i <= n1; ++i) { sx[i] = sx[i - 1] + (fam == 7 ? d1 : g.u(0.2, 2)); d1 *= r1; if (d1 < 0.05 || d1 > 20) r1 = 1 / r1; }
        for (int j = 1; j <= n2; ++j) { sy[j] = sy[j - 1] + (fam == 7 ? d2 : g.u(0.2, 2)); d2 *= r2; if (d2 < 0.05 || d2 > 20) r2 = 1 / r2; }
    }
    double th0 = g.u(0, 6.28), span = std::min(g.u(0.3, 5.4), (g.p(0.3) ? g.u(0.6, 1.35) : 0.6) * n1), r0 = g.u(0.5, 10), dr = g.u(0.2, 2);
    double sh = g.u(-1.5, 1.5), asp = exp(g.u(-3, 3));
    double amp = g.u(0.02, 0.24);
    double P = g.u(-0.6, 0.6) / n1, Q = g.u(-0.3, 0.3) / n2;
    double c0 = g.u(0.5, 5), c1 = g.u(0.0, 3);
    for (int j = 0; j <= n2; ++j)
        for (int i = 0; i <= n1; ++i) {
            double x = i, y = j;
            switch (fam) {
            case 1: case 7: x = sx[i]; y = sy[j]; break;
            case 2: x = i + sh * j * std::min(1.0, asp); y = j * asp; break;
            case 3: { double t = th0 + span * i / n1, rr = r0 + dr * j; x = rr * cos(t); y = rr * sin(t); break; }
            case 4: {
                double A = 0.6 * a / w1, B = 0.6 * b / w2;
                x = i + A * sin(w1 * j + p) * cos(w3 * 0.3 * i / (1 + A)); y = j + B * sin(w2 * i + q) * cos(w3 * 0.3 * j / (1 + B)); break;
            }
            case 5: x = i + g.u(-amp, amp); y = j + g.u(-amp, amp); break;
            case 6: { double d = 1 + P * i + Q * j; x = i / d; y = j / d; break; }
            case 8: { double u = c0 + 0.7 * i, v = c1 + 0.7 * j; x = u * u - v * v; y = 2 * u * v; break; }
            }
            X[j * m1 + i] = x;
            Y[j * m1 + i] = y;
        }
    return true;
}

static inline bool geometry_check(Grid& r)
{
    int n1 = r.n1, n2 = r.n2, m1 = n1 + 1, or0 = 0;
    const vector<double>&X = r.FX, &Y = r.FY;
    r.minedge = 1e300; r.maxdiam = 0; r.cmax = 0; r.aspect = 1;
    for (size_t k = 0; k < X.size(); ++k) r.cmax = std::max(r.cmax, std::max(fabs(X[k]), fabs(Y[k])));
    for (int j = 0; j < n2; ++j)
        for (int i = 0; i < n1; ++i) {
            int id[4] = {j * m1 + i, j * m1 + i + 1, (j + 1) * m1 + i + 1, (j + 1) * m1 + i};
            double lmin = 1e300, lmax = 0;
            for (int k = 0; k < 4; ++k) {
                int a = id[k], b = id[(k + 1) % 4], c = id[(k + 2) % 4];
                double ux = X[b] - X[a], uy = Y[b] - Y[a], vx = X[c] - X[b], vy = Y[c] - Y[b];
                double lu = hypot(ux, uy), lv = hypot(vx, vy), cr = (ux * vy - uy * vx) / (lu * lv);
                lmin = std::min(lmin, lu);
                lmax = std::max(lmax, lu);
                if (!(fabs(cr) > 0.03)) return false;
                int s = cr > 0 ? 1 : -1;
                if (!or0) or0 = s;
                if (s != or0) return false;
            }
            double d = std::max(hypot(X[id[0]] - X[id[2]], Y[id[0]] - Y[id[2]]), hypot(X[id[1]] - X[id[3]], Y[id[1]] - Y[id[3]]));
            r.minedge = std::min(r.minedge, lmin);
            r.maxdiam = std::max(r.maxdiam, d);
            r.aspect = std::max(r.aspect, lmax / lmin);
        }
    return true;
}

// size, geometry, scale and offset; the valid region is set by the caller through set_region()/set_nodes()
static inline void gen_geometry(Rng& g, Grid& r, int n1, int n2, bool wild = true)
{
    for (int attempt = 0;; ++attempt) {
        r = Grid();
        r.n1 = n1;
        r.n2 = n2;
        int fam = attempt > 15 ? 1 : g.i(0, 10);
        r.family = fam;
        geometry_raw(g, r, fam);
        double S = 1, ox = 0, oy = 0, rot = 0;
        bool mirror = g.p(0.5), swap = g.p(0.3);
        if (fam == 0) {
            S = ldexp(1.0, g.i(-4, 4));
            for (auto& v : r.FX) v *= S;
            for (auto& v : r.FY) v *= S;
        } else {
            int k = wild ? g.i(0, 6) : 0;
            if (k == 1) S = pow(10, g.u(-1.5, 4));
            else if (k == 2) { S = g.u(0.02, 0.5); ox = g.u(-180, 180); oy = g.u(-80, 80); }
            else if (k == 3) { S = pow(10, g.u(1.5, 4.5)); ox = g.u(1e5, 9e5); oy = g.u(1e6, 9e6); }
            else if (k == 4) { ox = g.u(-1e4, 1e4); oy = g.u(-1e4, 1e4); }
            else if (k == 6) {      // cells of some thousandths
                if (!geometry_check(r)) continue;
                S = pow(10, g.u(-2.99, -2)) / r.minedge;
                ox = g.u(-1, 1); oy = g.u(-1, 1);
            }
            if (fam < 9 && g.p(0.6)) rot = g.u(0, 6.283);
            int ea = 0, eb = 0;
            if (fam < 9 && g.p(0.3)) {         // some side of a cell parallel to an axis
                int i = g.i(0, n1), j = g.i(0, n2);
                bool h = i == n1 ? false : j == n2 ? true : g.p(0.5);
                if (i == n1 && j == n2) { i--; h = true; }
                ea = j * (n1 + 1) + i;
                eb = h ? ea + 1 : ea + n1 + 1;
                rot = -atan2(r.FY[eb] - r.FY[ea], r.FX[eb] - r.FX[ea]);
                count("a side parallel to an axis");
            }
            double c = cos(rot), s = sin(rot);
            for (size_t q = 0; q < r.FX.size(); ++q) {
                double x = r.FX[q], y = r.FY[q];
                r.FX[q] = S * (rot == 0 ? x : c * x - s * y) + ox;
                r.FY[q] = S * (rot == 0 ? y : s * x + c * y) + oy;
            }
            r.FY[eb] = r.FY[ea];
            if (ea != eb && g.p(0.5)) std::swap(r.FX, r.FY);
        }
        if (mirror) for (auto& v : r.FX) v = -v;
        if (swap) std::swap(r.FX, r.FY);
        if (!geometry_check(r)) continue;
        if (r.minedge < 1e-3) continue;
        r.X = r.FX;
        r.Y = r.FY;
        r.desc = fmt("%s %dx%d cells, scale %.3g, max|coord| %.4g%s", FAMILY[fam], n1, n2, S, r.cmax, mirror != swap ? ", mirrored" : "");
        return;
    }
}
static inline void set_nodes(Grid& r, const vector<char>& v)
{
    r.X = r.FX;
    r.Y = r.FY;
    for (size_t k = 0; k < v.size(); ++k) if (!v[k]) r.X[k] = r.Y[k] = QNAN;
    r.cell = cells_of_nodes(r.n1, r.n2, v);
}
static inline void set_region(Grid& r, const Region& q)
{
    set_nodes(r, region_nodes(q));
}
static inline void large_size(Rng& g, int& n1, int& n2)
{
    double t = g.u();
    int a = (int) exp(g.u(log(90.0), log(700.0))), b = g.i(1, 4);
    if (t < 0.35) { n1 = a; n2 = b; }
    else if (t < 0.7) { n1 = b; n2 = a; }
    else if (t < 0.93) { n1 = g.i(30, 110); n2 = g.i(30, 110); }
    else { n1 = g.i(180, 290); n2 = 70000 / n1 + g.i(-9, 30); }
    count("much larger than usual");
}
static inline void gen_size(Rng& g, bool thorough, int& n1, int& n2, int big = 40)
{
    if (big >= 10 && large(g)) { large_size(g, n1, n2); return; }
    double t = g.u();
    int m = t < 0.15 ? 3 : t < 0.75 ? 10 : t < 0.95 ? 20 : big;
    if (thorough && t > 0.99) m = big * 3;
    n1 = g.i(1, m);
    n2 = g.i(1, m);
    if (g.p(0.08)) n1 = 1;
    if (g.p(0.08)) n2 = 1;
}
// a grid whose valid region is a disc
static inline Grid gen_disc_grid(Case& c, int big = 40, string* kind = NULL)
{
    Rng& g = c.rng;
    int n1, n2, k;
    Grid r;
    gen_size(g, c.thorough, n1, n2, big);
    gen_geometry(g, r, n1, n2);
    set_region(r, region_disc(g, n1, n2, &k));
    r.desc += string(", region ") + REGION_KIND[k];
    if (kind) *kind = REGION_KIND[k];
    count((string("region ") + REGION_KIND[k]).c_str());
    count((string("family ") + FAMILY[r.family]).c_str());
    return r;
}
static inline Grid gen_any_grid(Case& c, int big = 40)
{
    Rng& g = c.rng;
    int n1, n2;
    Grid r;
    gen_size(g, c.thorough, n1, n2, big);
    gen_geometry(g, r, n1, n2);
    set_nodes(r, random_nodes(g, n1 + 1, n2 + 1));
    r.desc += fmt(", %d of %d cells valid", r.cell.size(), n1 * n2);
    count((string("family ") + FAMILY[r.family]).c_str());
    return r;
}
// drops nodes that are not corners of a valid cell
static inline void drop_stray(Grid& r) { set_region(r, Region(r.cell)); }

// signed depth of a point in a convex cell: positive inside, the distance to the nearest edge line
static inline ld cell_depth(const Grid& r, int i, int j, double px, double py)
{
    int m1 = r.n1 + 1, id[4] = {j * m1 + i, j * m1 + i + 1, (j + 1) * m1 + i + 1, (j + 1) * m1 + i};
    ld area = 0, best = 1e300L;
    for (int k = 0; k < 4; ++k) {
        ld ax = (ld) r.FX[id[k]] - px, ay = (ld) r.FY[id[k]] - py, bx = (ld) r.FX[id[(k + 1) % 4]] - px, by = (ld) r.FY[id[(k + 1) % 4]] - py;
        area += ax * by - ay * bx;
    }
    for (int k = 0; k < 4; ++k) {
        ld ax = (ld) r.FX[id[k]] - px, ay = (ld) r.FY[id[k]] - py, bx = (ld) r.FX[id[(k + 1) % 4]] - px, by = (ld) r.FY[id[(k + 1) % 4]] - py;
        ld cr = ax * by - ay * bx, l = sqrtl((bx - ax) * (bx - ax) + (by - ay) * (by - ay));
        ld d = (area > 0 ? cr : -cr) / l;
        if (d < best) best = d;
    }
    return best;
}
struct Loc {                    // where a point is
    vector<std::pair<int, int>> in, near;   // cells containing it by more than tol; cells within tol
    bool outside() const { return in.empty() && near.empty(); }
};
static inline double loc_tol(const Grid& r)
{
    // rounding of coordinates and of the containment test, and the absolute 1e-10 (an area) of polygon compaction
    return 64 * DBL_EPSILON * r.cmax + 1e-11 * r.maxdiam + 3e-10 / r.minedge;
}
static inline Loc locate(const Grid& r, double px, double py, double tol, int* cellguess = NULL)
{
    Loc L;
    (void) cellguess;
    int m1 = r.n1 + 1;
    for (int j = 0; j < r.n2; ++j)
        for (int i = 0; i < r.n1; ++i) {
            if (!r.cell.c[(size_t) j * r.n1 + i]) continue;
            int a = j * m1 + i, b = a + 1, c = a + m1, d = c + 1;
            const double *X = &r.FX[0], *Y = &r.FY[0];
            double xmin = std::min(std::min(X[a], X[b]), std::min(X[c], X[d])), xmax = std::max(std::max(X[a], X[b]), std::max(X[c], X[d]));
            if (px < xmin - tol || px > xmax + tol) continue;
            double ymin = std::min(std::min(Y[a], Y[b]), std::min(Y[c], Y[d])), ymax = std::max(std::max(Y[a], Y[b]), std::max(Y[c], Y[d]));
            if (py < ymin - tol || py > ymax + tol) continue;
            ld q = cell_depth(r, i, j, px, py);
            if (q > tol) L.in.push_back({i, j});
            else if (q >= -tol) L.near.push_back({i, j});
        }
    return L;
}
// whether the point is within tol of an edge of the cells in L that has no valid cell behind it
static inline bool near_outer(const Grid& r, const Loc& L, double px, double py, double tol)
{
    int m1 = r.n1 + 1;
    for (int w = 0; w < 2; ++w)
        for (auto& p : w ? L.near : L.in) {
            int i = p.first, j = p.second;
            int e[4][4] = {{i, j, i + 1, j}, {i + 1, j, i + 1, j + 1}, {i, j + 1, i + 1, j + 1}, {i, j, i, j + 1}};
            bool out[4] = {!r.cell.at(i, j - 1), !r.cell.at(i + 1, j), !r.cell.at(i, j + 1), !r.cell.at(i - 1, j)};
            for (int k = 0; k < 4; ++k) {
                if (!out[k]) continue;
                ld ax = r.FX[e[k][1] * m1 + e[k][0]], ay = r.FY[e[k][1] * m1 + e[k][0]], bx = r.FX[e[k][3] * m1 + e[k][2]], by = r.FY[e[k][3] * m1 + e[k][2]];
                ld l2 = (bx - ax) * (bx - ax) + (by - ay) * (by - ay), t = ((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / l2;
                t = t < 0 ? 0 : t > 1 ? 1 : t;
                if (hypotl(ax + t * (bx - ax) - px, ay + t * (by - ay) - py) <= tol) return true;
            }
        }
    return false;
}
// bilinear image of (fi, fj)
static inline void bilin(const vector<double>& X, int n1, int i, int j, ld u, ld v, const vector<double>& Y, ld& x, ld& y)
{
    int m1 = n1 + 1, a = j * m1 + i, b = a + 1, c = a + m1, d = c + 1;
    x = (1 - u) * (1 - v) * X[a] + u * (1 - v) * X[b] + (1 - u) * v * X[c] + u * v * X[d];
    y = (1 - u) * (1 - v) * Y[a] + u * (1 - v) * Y[b] + (1 - u) * v * Y[c] + u * v * Y[d];
}
struct Pt { double x, y; const char* kind; };
// query points of all kinds for a grid
static inline Pt gen_query(Rng& g, const Grid& r)
{
    int k = g.i(0, 11);
    double xmin = 1e300, xmax = -1e300, ymin = 1e300, ymax = -1e300;
    if (k <= 1 || k == 9) {
        for (size_t q = 0; q < r.FX.size(); ++q) {
            xmin = std::min(xmin, r.FX[q]); xmax = std::max(xmax, r.FX[q]);
            ymin = std::min(ymin, r.FY[q]); ymax = std::max(ymax, r.FY[q]);
        }
    }
    int i = g.i(0, r.n1 - 1), j = g.i(0, r.n2 - 1), m1 = r.n1 + 1, n = g.i(0, (int) r.FX.size() - 1);
    ld x, y;
    switch (k) {
    case 0: case 1:
        return {g.u(xmin, xmax), g.u(ymin, ymax), "bounding box"};
    case 2: case 3: case 4: case 5:
        bilin(r.FX, r.n1, i, j, g.u(), g.u(), r.FY, x, y);
        return {(double) x, (double) y, r.cell.at(i, j) ? "inside a valid cell" : "inside an invalid cell"};
    case 6: {                   // on an edge
        double t = g.p(0.5) ? 0.5 : g.u();
        if (g.p(0.5)) bilin(r.FX, r.n1, i, j, t, g.i(0, 1), r.FY, x, y); else bilin(r.FX, r.n1, i, j, g.i(0, 1), t, r.FY, x, y);
        return {(double) x, (double) y, "on an edge"};
    }
    case 7:
        return {r.FX[n], r.FY[n], "on a node"};
    case 8: {                   // close to an edge
        double t = g.u(), e = pow(10, g.u(-9, -1)) * (g.p(0.5) ? 1 : -1);
        if (g.p(0.5)) bilin(r.FX, r.n1, i, j, t, g.i(0, 1) + e, r.FY, x, y); else bilin(r.FX, r.n1, i, j, g.i(0, 1) + e, t, r.FY, x, y);
        return {(double) x, (double) y, "close to an edge"};
    }
    case 9:
        return {g.u(xmin - (xmax - xmin), xmax + (xmax - xmin)), g.u(ymin - (ymax - ymin), ymax + (ymax - ymin)), "around the grid"};
    case 10: {                  // level with a node
        int n2 = g.i(0, (int) r.FX.size() - 1);
        (void) m1;
        return {r.FX[n], r.FY[n2], "level with nodes"};
    }
    default: {
        static const double W[] = {0, 1e308, -1e308, INFINITY, -INFINITY, NAN};
        return {g.p(0.5) ? W[g.i(0, 5)] : r.FX[n], g.p(0.5) ? W[g.i(0, 5)] : r.FY[n], "extreme"};
    }
    }
}
// a library object from a grid
static inline gridnodes* to_gridnodes(const vector<double>& X, const vector<double>& Y, int nx, int ny, NODETYPE t)
{
    gridnodes* gn = gridnodes_create(nx, ny, t);
    double **gx = gridnodes_getx(gn), **gy = gridnodes_gety(gn);
    for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) { gx[j][i] = X[(size_t) j * nx + i]; gy[j][i] = Y[(size_t) j * nx + i]; }
    return gn;
}
static inline void from_gridnodes(gridnodes* gn, vector<double>& X, vector<double>& Y)
{
    int nx = gridnodes_getnx(gn), ny = gridnodes_getny(gn);
    double **gx = gridnodes_getx(gn), **gy = gridnodes_gety(gn);
    X.clear(); Y.clear();
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { X.push_back(gx[j][i]); Y.push_back(gy[j][i]); }
}
static inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || memcmp(&a, &b, 8) == 0 || a == b; }
static inline string grid_text(const vector<double>& X, const vector<double>& Y, int nx, int ny)
{
    string s = fmt("## %d x %d\n", nx, ny);
    for (size_t k = 0; k < X.size(); ++k)
        s += std::isnan(X[k]) ? string("NaN NaN\n") : fmt("%.17g %.17g\n", X[k], Y[k]);
    return s;
}
// parses "## nx x ny" and nx * ny lines of ncol numbers
static inline bool parse_grid(const string& s, int& nx, int& ny, vector<double>& X, vector<double>& Y, int ncol = 2)
{
    vector<string> L = lines(s);
    X.clear(); Y.clear();
    if (L.empty() || sscanf(L[0].c_str(), "## %d x %d", &nx, &ny) != 2) return false;
    if ((long) L.size() != 1 + (long) nx * ny) return false;
    for (size_t k = 1; k < L.size(); ++k) {
        char* e;
        const char* p = L[k].c_str();
        double v = strtod(p, &e);
        if (e == p) return false;
        X.push_back(v);
        if (ncol == 2) {
            p = e;
            v = strtod(p, &e);
            if (e == p) return false;
            Y.push_back(v);
        }
        while (*e == ' ') ++e;
        if (*e) return false;
    }
    return true;
}
