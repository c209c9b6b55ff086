#include "polygen.hpp"
const char* PROP = "C12";
const char* RULE = "simple polygons with integer vertices (outlines of cell regions under affine maps, star-shaped, monotone, random, zigzag; any orientation, start, closure, with redundant and repeated points, scaled by powers of two and moved), queried at vertices, on edges, level with vertices, next to edges and anywhere, against exact integer geometry; plus outlines of random grids against their cells; non-trivial if points of both answers occurred; distinct by vertices";
long ncases(bool t) { return t ? 12000000 : 600000; }

static void grid_case(Case& c)
{
    Rng& g = c.rng;
    Grid r = gen_disc_grid(c, 16);
    double tol = 64 * DBL_EPSILON * r.cmax + 1e-11 * r.maxdiam;
    poly* p = poly_formbound(r.n1, r.n2, r.gx(), r.gy());
    int nin = 0, nout = 0;
    for (int k = 0; k < 60; ++k) {
        Pt q = gen_query(g, r);
        int ok = poly_containspoint(p, q.x, q.y);
        Loc L;
        if (std::isfinite(q.x) && std::isfinite(q.y)) L = locate(r, q.x, q.y, tol);
        if (L.in.size() > 1) continue;
        if (L.in.empty() && !L.near.empty() && near_outer(r, L, q.x, q.y, 2 * tol)) { count("grid outlines: points on the outline"); continue; }
        evals();
        if (!ok != L.outside()) fail("grid outline", "%s: point (%.17g, %.17g) (%s) is %s the cells, the polygon says the opposite", r.desc.c_str(), q.x, q.y, q.kind, L.outside() ? "outside" : "inside");
        (ok ? nin : nout)++;
    }
    poly_destroy(p);
    count("grid outlines");
    if (nin && nout) nontrivial(r.sig());
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    if (g.p(0.15)) return grid_case(c);
    int kind;
    IPoly p = gen_ipoly(g, &kind);
    ll m = g.pick(vector<ll>{1, 2, 4, 8});
    for (auto& q : p) q = {q.first * m, q.second * m};
    int sh = g.p(0.5) ? 0 : g.p(0.7) ? g.i(-10, 10) : g.i(-200, 200);
    ll ox = g.p(0.5) ? 0 : g.i(-1000000, 1000000), oy = g.p(0.5) ? 0 : g.i(-1000000, 1000000);
    auto D = [&](ll v, ll o) { return ldexp((double) (v + o), sh); };
    // variants of the vertex list
    vector<IPoly> var;
    for (int k = 0; k < 3; ++k) {
        IPoly v = p;
        std::rotate(v.begin(), v.begin() + g.i(0, (int) v.size() - 1), v.end());
        if (k && g.p(0.5)) std::reverse(v.begin(), v.end());
        if (k == 2) {
            IPoly w;
            for (size_t q = 0; q < v.size(); ++q) {
                IP a = v[q], b = v[(q + 1) % v.size()];
                w.push_back(a);
                if (g.p(0.3)) w.push_back(a);
                ll d = std::__gcd(std::abs(a.first - b.first), std::abs(a.second - b.second));
                if (d > 1 && g.p(0.5)) { ll t = g.i(1, (int) d - 1); w.push_back({a.first + (b.first - a.first) / d * t, a.second + (b.second - a.second) / d * t}); }
            }
            v = w;
        }
        if (g.p(0.5)) v.push_back(v[0]);
        var.push_back(v);
    }
    vector<poly*> pl;
    for (auto& v : var) {
        poly* q = poly_create();
        for (auto& x : v) poly_addpoint(q, D(x.first, ox), D(x.second, oy));
        pl.push_back(q);
    }
    if (g.p(0.2)) poly_close(pl[0]);
    ll x1 = p[0].first, x2 = x1, y1 = p[0].second, y2 = y1;
    for (auto& q : p) { x1 = std::min(x1, q.first); x2 = std::max(x2, q.first); y1 = std::min(y1, q.second); y2 = std::max(y2, q.second); }
    vector<IP> Q;
    for (auto& q : p) Q.push_back(q);
    int n = (int) p.size();
    for (int k = 0; k < 50; ++k) {
        IP a = p[g.i(0, n - 1)];
        int e = g.i(0, n - 1);
        IP b = p[e], d = p[(e + 1) % n];
        switch (g.i(0, 5)) {
        case 0: Q.push_back({g.i((int) x1 - 2, (int) x2 + 2), g.i((int) y1 - 2, (int) y2 + 2)}); break;
        case 1: Q.push_back({g.i((int) x1 - 1, (int) x2 + 1), a.second}); break;
        case 2: Q.push_back({a.first, g.i((int) y1 - 1, (int) y2 + 1)}); break;
        case 3: { ll w = std::__gcd(std::abs(b.first - d.first), std::abs(b.second - d.second)); ll t = g.i(0, (int) w); Q.push_back({b.first + (d.first - b.first) / w * t, b.second + (d.second - b.second) / w * t}); break; }
        case 4: { double t = g.u(); Q.push_back({(ll) (b.first + t * (d.first - b.first)) + g.i(-1, 1), (ll) (b.second + t * (d.second - b.second)) + g.i(-1, 1)}); break; }
        case 5: Q.push_back({a.first + g.i(-1, 1), a.second + g.i(-1, 1)}); break;
        }
    }
    int nin = 0, nout = 0;
    static const char* W[] = {"outside", "inside", "on a slanted edge", "on a horizontal or vertical edge", "on a vertex"};
    string what = fmt("%s polygon of %d vertices, scale 2^%d", POLYKIND[kind], n, sh);
    for (auto& q : Q) {
        int w = where_is(p, q);
        count(W[w]);
        if (w == P_SLANT) continue;
        for (size_t k = 0; k < pl.size(); ++k) {
            int ok = poly_containspoint(pl[k], D(q.first, ox), D(q.second, oy));
            evals();
            if (!ok != (w == P_OUT)) {
                string s;
                for (auto& x : var[k]) s += fmt(" %lld,%lld", x.first, x.second);
                fail("contains", "%s: point %lld,%lld is %s, but the answer is %d; vertices%s, offset %lld,%lld", what.c_str(), q.first, q.second, W[w], ok, s.substr(0, 800).c_str(), ox, oy);
            }
        }
        (w == P_OUT ? nout : nin)++;
    }
    static const double X[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308};
    for (int k = 0; k < 3; ++k) {
        double x = g.p(0.7) ? X[g.i(0, 4)] : D(p[0].first, ox), y = g.p(0.7) ? X[g.i(0, 4)] : D(p[0].second, oy);
        bool far = !(fabs(x) < 1e307) || !(fabs(y) < 1e307);
        evals();
        if (far && poly_containspoint(pl[0], x, y)) fail("far", "%s contains (%g, %g)", what.c_str(), x, y);
    }
    // fewer than two points
    poly* q = poly_create();
    double x = g.i(-3, 3), y = g.i(-3, 3);
    evals(2);
    if (poly_containspoint(q, x, y)) fail("empty", "an empty polygon contains (%g, %g)", x, y);
    poly_addpoint(q, x, y);
    if (poly_containspoint(q, x, y) || poly_containspoint(q, x + 1, y)) fail("point", "a polygon of one point contains a point");
    // two points: a segment, which contains its ends, if level or upright all of it, and nothing beside it
    double dx = g.i(-3, 3), dy = g.i(-3, 3), t = g.i(0, 8) / 8.0;
    poly_addpoint(q, x + dx, y + dy);
    if (g.p(0.3)) poly_addpoint(q, x, y);
    evals(4);
    if (!poly_containspoint(q, x, y) || !poly_containspoint(q, x + dx, y + dy)) fail("segment", "the segment (%g, %g) - (%g, %g) does not contain its ends", x, y, x + dx, y + dy);
    if ((dx == 0 || dy == 0) && !poly_containspoint(q, x + t * dx, y + t * dy)) fail("segment", "the segment (%g, %g) - (%g, %g) does not contain (%g, %g)", x, y, x + dx, y + dy, x + t * dx, y + t * dy);
    double sx = x + t * dx + g.i(-1, 1) / 4.0, sy = y + t * dy + g.i(-1, 1) / 4.0;
    if ((sx - x) * dy != (sy - y) * dx && poly_containspoint(q, sx, sy)) fail("segment", "the segment (%g, %g) - (%g, %g) contains (%g, %g)", x, y, x + dx, y + dy, sx, sy);
    pl.push_back(q);
    for (auto z : pl) poly_destroy(z);
    count((string("polygons: ") + POLYKIND[kind]).c_str());
    if (nin && nout) nontrivial(hashbytes(&p[0], p.size() * sizeof(IP), sh));
    sample(what + fmt(": %d points inside or on it, %d outside", nin, nout));
}
