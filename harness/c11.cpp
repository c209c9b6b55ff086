#include "polygen.hpp"
#include "gn.hpp"
const char* PROP = "C11";
const char* RULE = "simple polygons with integer vertices with points added on edges and repeated, and slight bends, at any start, closed or not, scaled by powers of two and moved: the compacted polygon must be the cyclic list of exact corners and remain usable; outlines of random grids in physical and index space before and after compaction must contain the same points, also as printed by getbound -c; finely sampled curves with bends below the tolerance must keep their area; polygons without area must be handled; non-trivial if vertices were removed and others kept; distinct by vertices";
long ncases(bool t) { return t ? 8000000 : 400000; }

// whether b is a rotation of a
static bool rotation(const vector<std::pair<double, double>>& a, const vector<std::pair<double, double>>& b)
{
    if (a.size() != b.size()) return false;
    size_t n = a.size();
    for (size_t s = 0; s < n; ++s) {
        size_t k = 0;
        while (k < n && a[(s + k) % n] == b[k]) k++;
        if (k == n) return true;
    }
    return n == 0;
}
static vector<std::pair<double, double>> pts(poly* p)
{
    vector<std::pair<double, double>> v;
    for (int k = 0; k < p->n; ++k) v.push_back({p->x[k], p->y[k]});
    if (v.size() > 1 && v.front() == v.back()) v.pop_back();
    return v;
}
// whether b is a subsequence of a rotation of a
static bool subsequence(const vector<std::pair<double, double>>& a, const vector<std::pair<double, double>>& b)
{
    if (b.empty()) return true;
    for (size_t s = 0; s < a.size(); ++s) {
        if (a[s] != b[0]) continue;
        size_t k = 1;
        for (size_t q = 1; q < a.size() && k < b.size(); ++q) if (a[(s + q) % a.size()] == b[k]) k++;
        if (k == b.size()) return true;
    }
    return false;
}
static vector<std::pair<double, double>> index_corners(poly* p)
{
    IPoly q;
    for (int k = 0; k < p->n; ++k) q.push_back({(ll) p->x[k], (ll) p->y[k]});
    if (q.size() > 1 && q.front() == q.back()) q.pop_back();
    vector<std::pair<double, double>> v;
    for (auto& x : corners(q)) v.push_back({(double) x.first, (double) x.second});
    return v;
}
static void still_usable(const string& what, Rng& g, poly* p)
{
    int n = p->n;
    vector<std::pair<double, double>> v;
    for (int k = 0; k < n; ++k) v.push_back({p->x[k], p->y[k]});
    double x1 = DBL_MAX, x2 = -DBL_MAX, y1 = DBL_MAX, y2 = -DBL_MAX;
    for (auto& q : v) { x1 = std::min(x1, q.first); x2 = std::max(x2, q.first); y1 = std::min(y1, q.second); y2 = std::max(y2, q.second); }
    evals();
    if (p->e.xmin != x1 || p->e.xmax != x2 || p->e.ymin != y1 || p->e.ymax != y2) fail("extent", "%s: extent [%g, %g] [%g, %g] instead of [%g, %g] [%g, %g]", what.c_str(), p->e.xmin, p->e.xmax, p->e.ymin, p->e.ymax, x1, x2, y1, y2);
    int m = g.i(1, 9);
    for (int k = 0; k < m; ++k) {
        v.push_back({k, -k});
        poly_addpoint(p, k, -k);
    }
    if (g.p(0.5)) { poly_append(p, p); auto w = v; v.insert(v.end(), w.begin(), w.end()); }
    if (p->n != (int) v.size()) fail("extend", "%s: %d points after adding %d to %d", what.c_str(), p->n, m, n);
    for (size_t k = 0; k < v.size(); ++k) if (p->x[k] != v[k].first || p->y[k] != v[k].second) fail("extend", "%s: point %d changed when extended", what.c_str(), (int) k);
}
static void grid_case(Case& c)
{
    Rng& g = c.rng;
    Grid r = gen_disc_grid(c, g.p(0.1) ? 40 : 16);
    double tol = loc_tol(r);
    poly* p = poly_formbound(r.n1, r.n2, r.gx(), r.gy());
    poly* pi = poly_formboundij(r.n1, r.n2, r.gx());
    poly* q = poly_copy(p);
    poly* qi = poly_copy(pi);
    poly_compact(q, 1e-10);
    poly_compact(qi, 1e-10);
    bool tiny = p->n <= 4;
    evals(2);
    if (!subsequence(pts(p), pts(q))) fail("subsequence", "%s: the vertices of the compacted outline (%d of %d) are not a subsequence", r.desc.c_str(), q->n, p->n);
    if (!tiny && !rotation(index_corners(pi), pts(qi))) fail("index", "%s: compacted index outline has %d points, not the %d corners", r.desc.c_str(), qi->n, (int) index_corners(pi).size());
    int nin = 0, nout = 0, before = p->n, after = q->n;
    for (int k = 0; k < 50; ++k) {
        Pt z = gen_query(g, r);
        Loc L;
        if (std::isfinite(z.x) && std::isfinite(z.y)) L = locate(r, z.x, z.y, tol);
        if (L.in.size() > 1 || (!L.near.empty() && near_outer(r, L, z.x, z.y, 2 * tol))) { count("grid outlines: points on the outline"); continue; }
        int a = poly_containspoint(p, z.x, z.y), b = poly_containspoint(q, z.x, z.y);
        evals();
        if (!a != !b) fail("shape", "%s: point (%.17g, %.17g) (%s) is %s the outline of %d points, but not of the compacted one of %d points", r.desc.c_str(), z.x, z.y, z.kind, a ? "inside" : "outside", p->n, q->n);
        (a ? nin : nout)++;
        // in index space every point has an exact answer
        double fi = g.p(0.3) ? g.i(0, r.n1) : g.u(-0.5, r.n1 + 0.5), fj = g.p(0.3) ? g.i(0, r.n2) : g.u(-0.5, r.n2 + 0.5);
        a = poly_containspoint(pi, fi, fj); b = poly_containspoint(qi, fi, fj);
        bool w = false;             // in a cell or on its edge
        for (int dj = -1; dj <= 0; ++dj) for (int di = -1; di <= 0; ++di) {
            int i = (int) floor(fi) + (fi == floor(fi) ? di : 0), j = (int) floor(fj) + (fj == floor(fj) ? dj : 0);
            w = w || r.cell.at(i, j);
        }
        evals(2);
        if (!a != !b || !a == w) fail("index shape", "%s: index point (%.17g, %.17g) is %s the cells, the outline says %d, the compacted one %d", r.desc.c_str(), fi, fj, w ? "in" : "outside", a, b);
    }
    if (g.p(0.03)) {
        NG n(r.n1 + 1, r.n2 + 1, NT_COR);
        n.X = r.X; n.Y = r.Y;
        writefile(wf("g.txt"), ng_text(n));
        for (int ij = 0; ij < 2; ++ij) {
            vector<string> a = {"getbound", "-c", "-i", "CO", wf("g.txt")};
            if (ij) a.push_back("-r");
            Run t = run_tool(a);
            if (!t.ok()) fail("refused", "%s: refused by getbound -c: %s", r.desc.c_str(), t.err.c_str());
            vector<string> L = lines(t.out);
            int m = -1;
            if (L.empty() || sscanf(L[0].c_str(), "## %d", &m) != 1 || m != (int) L.size() - 1) fail("tool", "%s: getbound -c announces %d points, has %d", r.desc.c_str(), m, (int) L.size() - 1);
            poly* z = ij ? qi : q;
            evals();
            if (m != z->n) fail("tool", "%s: getbound -c%s gives %d points instead of %d", r.desc.c_str(), ij ? " -r" : "", m, z->n);
            for (int k = 0; k < m; ++k) {
                double x, y;
                evals();
                if (sscanf(L[k + 1].c_str(), "%lf %lf", &x, &y) != 2 || fabs(x - z->x[k]) > 1e-14 * fabs(x) || fabs(y - z->y[k]) > 1e-14 * fabs(y)) fail("tool", "%s: point %d of getbound -c%s is \"%s\" instead of %.15g %.15g", r.desc.c_str(), k, ij ? " -r" : "", L[k + 1].c_str(), z->x[k], z->y[k]);
            }
            count("getbound -c runs compared");
        }
    }
    if (!tiny) still_usable(r.desc, g, q);
    count("grid outlines");
    count("grid outline vertices removed", before - after);
    if (nin && nout && after < before) nontrivial(r.sig());
    poly_destroy(p); poly_destroy(q); poly_destroy(pi); poly_destroy(qi);
}
// a finely sampled curve, with every bend below the tolerance: the redundant points go, the shape stays
static void curve_case(Case& c)
{
    Rng& g = c.rng;
    int n = g.i(300, 1500), lobes = g.i(2, 5);
    double amp = g.p(0.4) ? 0 : g.u(0, 0.3), asp = g.u(0.4, 1), ph = g.u(0, 6.28), cx = g.u(-10, 10), cy = g.u(-10, 10), size = pow(10, g.u(-1, 2)), dir = g.p(0.5) ? 1 : -1;
    double h = 2 * M_PI / n, eps = size * size * h * h * h * g.u(1, 20);
    poly* p = poly_create();
    for (int k = 0; k < n; ++k) {
        double t = ph + dir * h * k, rr = size * (1 + amp * sin(lobes * t));
        poly_addpoint(p, cx + rr * cos(t), cy + asp * rr * sin(t));
        if (g.p(0.02)) poly_addpoint(p, p->x[p->n - 1], p->y[p->n - 1]);
    }
    if (g.p(0.5)) poly_close(p);
    poly* q = poly_copy(p);
    poly_compact(q, eps);
    string what = fmt("curve of %d points, %d lobes of %.2g, size %g, eps %g", p->n, lobes, amp, size, eps);
    evals(3);
    if (!subsequence(pts(p), pts(q))) fail("subsequence", "%s: the %d vertices left are not a subsequence", what.c_str(), q->n);
    auto area = [](poly* z) { ld s = 0; for (int k = 0; k < z->n; ++k) { int m = (k + 1) % z->n; s += ((ld) z->x[k] - z->x[0]) * ((ld) z->y[m] - z->y[0]) - ((ld) z->x[m] - z->x[0]) * ((ld) z->y[k] - z->y[0]); } return z->n ? s / 2 : 0; };
    ld d = fabsl(area(p) - area(q));
    if (!(d <= eps * (p->n + 50))) fail("curve", "%s: %d points left, area changed from %Lg to %Lg", what.c_str(), q->n, area(p), area(q));
    still_usable(what, g, q);
    count("finely sampled curves");
    count("curve points removed", p->n - std::min(p->n, q->n));
    if (q->n < p->n) nontrivial(hashbytes(p->x, p->n * sizeof(double), n));
    poly_destroy(p); poly_destroy(q);
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    if (g.p(0.2)) return grid_case(c);
    if (g.p(0.01)) return curve_case(c);
    int kind, sh = g.i(-3, 10);
    double eps = g.pick(vector<double>{1e-10, 1e-10, 0, 1e-6});
    if (g.p(0.05)) {                // no area: only has to be survived
        poly* p = poly_create();
        int n = g.i(0, 12), w = g.i(0, 3), dx = g.i(-2, 2), dy = g.i(-2, 2);
        for (int k = 0; k < n; ++k) { int t = w ? g.i(0, w) : 0; poly_addpoint(p, dx * t, dy * t); }
        if (g.p(0.5)) poly_close(p);
        poly_compact(p, eps);
        evals();
        if (p->n < 0 || p->n > n + 1) fail("degenerate", "polygon of %d points on a line has %d points after compaction", n, p->n);
        still_usable("polygon without area", g, p);
        poly_destroy(p);
        count("polygons without area");
        return;
    }
    IPoly p = gen_ipoly(g, &kind), v;
    ll m = g.pick(vector<ll>{1, 2, 6, 12});
    for (auto& q : p) q = {q.first * m, q.second * m};
    if (g.p(0.15)) {                // slight bends: edges up to 1e7 long with corners one unit off them
        ll s = g.pick(vector<ll>{1000, 30000, 100000});
        IPoly w;
        for (auto& q : p) q = {q.first * s, q.second * s};
        for (size_t q = 0; q < p.size(); ++q) {
            IP a = p[q], b = p[(q + 1) % p.size()];
            w.push_back(a);
            if (g.p(0.6)) {
                ll t = g.i(1, 999), dx = b.first - a.first, dy = b.second - a.second;
                IP z = {a.first + dx / 1000 * t, a.second + dy / 1000 * t};
                (std::abs(dx) < std::abs(dy) ? z.first : z.second) += g.p(0.5) ? 1 : -1;
                w.push_back(z);
            }
        }
        w = corners(w);
        if (is_simple(w)) p = w;
        count("polygons with slight bends");
    }
    ll ox = g.p(0.5) ? 0 : g.i(-100000, 100000), oy = g.p(0.5) ? 0 : g.i(-100000, 100000);
    double pc = g.pick(vector<double>{0, 0.2, 0.6, 1}), pd = g.pick(vector<double>{0, 0, 0.2, 0.7});
    for (size_t q = 0; q < p.size(); ++q) {
        IP a = p[q], b = p[(q + 1) % p.size()];
        v.push_back(a);
        while (g.p(pd)) v.push_back(a);
        ll d = std::__gcd(std::abs(a.first - b.first), std::abs(a.second - b.second));
        if (d > 1 && g.p(pc)) {
            std::set<ll> T;
            int nt = g.i(1, 4);
            for (int k = 0; k < nt; ++k) T.insert(g.i(1, (int) d - 1));
            for (ll t : T) do v.push_back({a.first + (b.first - a.first) / d * t, a.second + (b.second - a.second) / d * t}); while (g.p(pd));
        }
    }
    std::rotate(v.begin(), v.begin() + g.i(0, (int) v.size() - 1), v.end());
    bool closed = g.p(0.5);
    if (closed) v.push_back(v[0]);
    if (v.size() <= 4) { count("not more than four points"); return; }
    poly* pl = poly_create();
    auto D = [&](ll x, ll o) { return ldexp((double) (x + o), sh); };
    for (auto& q : v) poly_addpoint(pl, D(q.first, ox), D(q.second, oy));
    vector<std::pair<double, double>> want;
    for (auto& q : p) want.push_back({D(q.first, ox), D(q.second, oy)});
    int n = pl->n;
    poly_compact(pl, eps);
    string what = fmt("%s polygon of %d points (%s), scale 2^%d, eps %g", POLYKIND[kind], n, closed ? "closed" : "not closed", sh, eps);
    evals();
    if (!rotation(want, pts(pl))) {
        string s;
        for (auto& q : v) s += fmt(" %lld,%lld", q.first, q.second);
        s += "; result";
        for (int k = 0; k < pl->n; ++k) s += fmt(" %g,%g", ldexp(pl->x[k], -sh) - ox, ldexp(pl->y[k], -sh) - oy);
        fail("corners", "%s: result has %d points, not the %d corners; points%s", what.c_str(), pl->n, (int) want.size(), s.substr(0, 900).c_str());
    }
    for (int k = 0; k < 6; ++k) {
        IP q = {g.i(-100, 100) * (k % 2 ? m : 1), g.i(-100, 100)};
        int w = where_is(p, q);
        evals();
        if (w != P_SLANT && !poly_containspoint(pl, D(q.first, ox), D(q.second, oy)) != (w == P_OUT)) fail("contains", "%s: the compacted polygon gives the wrong answer for %lld,%lld", what.c_str(), q.first, q.second);
    }
    still_usable(what, g, pl);
    poly_destroy(pl);
    count("vertices removed", v.size() - want.size());
    count((string("polygons: ") + POLYKIND[kind]).c_str());
    if (want.size() < v.size() - closed) nontrivial(hashbytes(&v[0], v.size() * sizeof(IP), sh));
    sample(what + fmt(": %d corners", (int) want.size()));
}
