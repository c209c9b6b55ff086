#include "common.hpp"
const char* PROP = "C14";
const char* RULE = "kd-trees of dimension 1 to 6 (rarely up to 40) filled by single, bulk and shuffled bulk insertions in any sequence, with (now and then up to 140000 points) identifiers over the whole range (lattice points with ties, repeated points, clusters, sorted, random; infinite and NaN first coordinates), queried before, between and after insertions: nearest node, ordered and unordered range with ranges on, below and above node distances, zero, infinite and negative ranges, some results read only later, between other calls; all compared with exhaustive search; non-trivial if ranges returned a proper part of the nodes; distinct by contents";
long ncases(bool t) { return t ? 600000 : 25000; }

struct P { vector<double> x; size_t orig; };
static double d2(const vector<double>& a, const double* b)
{
    double s = 0;
    for (size_t k = 0; k < a.size(); ++k) s += (a[k] - b[k]) * (a[k] - b[k]);
    return s;
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    int nd = g.p(0.6) ? 2 : g.p(0.9) ? g.i(1, 6) : g.i(7, 40), kind = g.i(0, 4), R = g.pick(vector<int>{1, 3, 20}), ops = g.i(1, 8);
    double scale = kind < 2 ? ldexp(1, g.i(-20, 20)) : pow(10, g.u(-6, 6)), off = g.p(0.3) ? (kind < 2 ? g.i(-1000, 1000) * scale : g.u(-1000, 1000) * scale) : 0;
    kdtree* t = kd_create(nd);
    vector<P> pts;                  // what was accepted
    std::map<size_t, int> origs;
    bool exact = kind < 2;          // lattice: distances are exact
    size_t proper = 0, offered = 0;
    size_t idbase = g.pick(vector<size_t>{100000, 0, INT_MAX - (size_t) g.i(0, 50), UINT_MAX - (size_t) g.i(0, 50), (size_t) 1 << 40, (size_t) -5});
    vector<double> cl(nd);
    for (auto& v : cl) v = g.u(-1, 1);
    auto coord = [&](int d, int k) -> double {
        switch (kind) {
        case 0: case 1: return g.i(-R, R) * scale + off;
        case 2: return g.u(-1, 1) * scale + off;
        case 3: return (cl[d] + 1e-3 * g.g()) * scale + off;
        default: return ((k + offered) * (d + 1) + (g.p(0.3) ? g.u() : 0)) * scale + off;   // sorted: degenerate tree
        }
    };
    string what = fmt("%d-dimensional tree, points of kind %d", nd, kind);
    uint64_t sig = nd;
    // now and then more nodes than a short holds
    bool large = (kind == 2 || kind == 3) && nd <= 3 && ops >= 3 && g.p(1.0 / 300);
    if (large) { ops = 4; count("large trees"); }
    int nbad = 0;
    // results kept while the tree is used further: they are read bit by bit, between other calls
    struct Kept { kdset* s; vector<std::pair<size_t, double>> want, got; bool ord; };
    vector<Kept> kept;
    auto advance = [&](Kept& h, int k) {
        for (; k > 0; --k) {
            double dist = -5;
            size_t id = kdset_read(h.s, &dist);
            if (id == SIZE_MAX) return;
            evals();
            if (h.ord && !h.got.empty() && dist < h.got.back().second) fail("order", "%s: %.17g after %.17g in ordered results read later", what.c_str(), dist, h.got.back().second);
            h.got.push_back({id, dist});
            if (h.got.size() > h.want.size()) return;
        }
    };
    auto settle = [&](Kept& h) {
        if (kdset_getsize(h.s) != h.want.size()) fail("set size", "%s: size of results is %zu later instead of %zu", what.c_str(), kdset_getsize(h.s), h.want.size());
        advance(h, INT_MAX);
        std::sort(h.got.begin(), h.got.end());
        std::sort(h.want.begin(), h.want.end());
        if (h.got != h.want) fail("later", "%s: results read later, between other calls, are others than those read at once (%zu, %zu)", what.c_str(), h.got.size(), h.want.size());
        kdset_free(h.s);
        count("results read between other calls");
    };
    for (int o = 0; o < ops; ++o) {
        int m = g.p(0.15) ? 0 : g.p(0.5) ? 1 : g.p(0.8) ? g.i(2, 60) : g.p(0.95) ? g.i(61, 500) : g.i(1000, kind == 4 ? 1500 : 4000);
        if (large && (o == 0 || o == 2)) m = g.i(33000, 70000);
        vector<vector<double>> A(nd, vector<double>(m));
        for (int k = 0; k < m; ++k) for (int d = 0; d < nd; ++d) A[d][k] = coord(d, k);
        if (!pts.empty() && g.p(0.3)) for (int k = 0; k < m; ++k) if (g.p(0.3)) { auto& q = pts[g.i(0, (int) pts.size() - 1)].x; for (int d = 0; d < nd; ++d) A[d][k] = q[d]; }
        if (g.p(0.3)) for (int k = 0; k < m; ++k) if (g.p(0.2)) { A[0][k] = g.p(0.6) ? NAN : g.p(0.5) ? INFINITY : -INFINITY; if (g.p(0.7)) for (int d = 1; d < nd; ++d) A[d][k] = NAN; nbad++; }
        size_t before = kd_getsize(t);
        if (before != pts.size()) fail("size", "%s: size is %zu after inserting %zu valid points", what.c_str(), before, pts.size());
        bool bulk = g.p(0.6);
        if (bulk) {
            vector<double*> S;
            for (auto& a : A) S.push_back(a.data());
            auto B = A;
            kd_insertnodes(t, m, S.data(), g.p(0.6));
            for (int d = 0; d < nd; ++d) if (m && memcmp(B[d].data(), A[d].data(), m * 8)) fail("source", "%s: the source array of a bulk insertion was changed", what.c_str());
        }
        for (int k = 0; k < m; ++k) {
            vector<double> x(nd);
            for (int d = 0; d < nd; ++d) x[d] = A[d][k];
            size_t id = bulk ? before + k : (idbase == (size_t) -5 ? idbase - offered - k : idbase + offered + k);
            if (!bulk) kd_insertnode(t, x.data(), id);
            if (std::isfinite(x[0])) { pts.push_back({x, id}); sig = hashdv(x, sig); }
        }
        offered += m;
        count(bulk ? "bulk insertions" : "single insertions", bulk ? 1 : m);
        // contents: every stored node is one of the accepted points
        size_t n = pts.size();
        evals();
        if (kd_getsize(t) != n) fail("size", "%s: size is %zu after inserting %zu valid points", what.c_str(), kd_getsize(t), n);
        if (o == ops - 1 || g.p(0.3)) {
            std::map<std::pair<size_t, vector<double>>, int> want;
            for (auto& p : pts) want[{p.orig, p.x}]++;
            for (size_t k = 0; k < n; ++k) {
                double* x = kd_getnodecoords(t, k);
                auto it = want.find({kd_getnodeorigid(t, k), vector<double>(x, x + nd)});
                evals();
                if (it == want.end() || it->second-- == 0) fail("contents", "%s: node %zu (original %zu, first coordinate %.17g) was not inserted like that", what.c_str(), k, kd_getnodeorigid(t, k), x[0]);
            }
        }
        if (n > 0) {
            double* mm = kd_getminmax(t);
            for (int d = 0; d < nd; ++d) {
                double a = INFINITY, b = -INFINITY;
                for (auto& p : pts) { a = std::min(a, p.x[d]); b = std::max(b, p.x[d]); }
                evals();
                if (mm[d] != a || mm[nd + d] != b) fail("minmax", "%s: bounding box in dimension %d is [%.17g, %.17g] instead of [%.17g, %.17g]", what.c_str(), d, mm[d], mm[nd + d], a, b);
            }
        }
        int nq = n > 1000 ? 8 : 20;
        for (int q = 0; q < nq; ++q) {
            vector<double> z(nd);
            int qk = g.i(0, 3);
            for (int d = 0; d < nd; ++d) z[d] = qk == 0 && n ? pts[g.i(0, (int) n - 1)].x[d] : exact && g.p(0.8) ? g.i(-2 * R, 2 * R) * 0.5 * scale + off : coord(d, g.i(0, 50)) + (g.p(0.2) ? g.u(-3, 3) * scale : 0);
            if (qk == 1 && n) z = pts[g.i(0, (int) n - 1)].x;
            if (qk == 3 && n && g.p(0.3)) for (auto& v : z) v += g.u(-100, 100) * scale;
            bool ex = exact;
            if (exact) for (double v : z) if (v != rint(v / scale * 2) / 2 * scale) ex = false;
            vector<double> D(n);
            double best = INFINITY, worst = 0;
            // distances by the coordinates stored, indexed by node
            for (size_t k = 0; k < n; ++k) { double* x = kd_getnodecoords(t, k); D[k] = d2(z, x); best = std::min(best, D[k]); worst = std::max(worst, D[k]); }
            double rel = ex ? 0 : 1e-13;
            if (n > 0) {
                size_t r = kd_findnearestnode(t, z.data());
                evals();
                if (r >= n) fail("nearest", "%s: nearest node is %zu of %zu", what.c_str(), r, n);
                if (D[r] > best * (1 + rel)) fail("nearest", "%s: node %zu at distance %.17g reported as nearest, but there is one at %.17g (%zu nodes)", what.c_str(), r, sqrt(D[r]), sqrt(best), n);
                count("nearest node queries");
            }
            double range;
            int rk = g.p(0.05) ? 9 : g.i(0, 6);
            double pickd = n ? sqrt(D[g.i(0, (int) n - 1)]) : 1;
            if (rk == 0) range = 0;
            else if (rk == 1) range = pickd;
            else if (rk == 2) range = nextafter(pickd, INFINITY);
            else if (rk == 3) range = g.i(0, 2 * R) * scale;
            else if (rk == 4) range = g.p(0.3) ? INFINITY : 2 * sqrt(worst) + scale;
            else if (rk == 9) range = g.p(0.2) ? -INFINITY : g.p(0.5) ? -pickd : -2 * sqrt(worst) - scale;
            else range = g.u(0, 1) * sqrt(worst);
            bool ord = g.p(0.6);
            if (n > 10000 && ord && range > 0) range = std::min(range, sqrt([&] { auto E = D; std::nth_element(E.begin(), E.begin() + 3000, E.end()); return E[3000]; }()));
            kdset* s = kd_findnodeswithinrange(t, z.data(), range, ord);
            size_t sz = kdset_getsize(s), got = 0;
            vector<char> seen(n, 0);
            double prev = -1, dist;
            bool keep = kept.size() < 5 && g.p(0.06);
            if (keep) {
                kept.push_back({kd_findnodeswithinrange(t, z.data(), range, ord), {}, {}, ord});
                if (g.p(0.5)) advance(kept.back(), 1);
            }
            for (;;) {
                dist = -5;
                size_t id = kdset_read(s, &dist);
                if (keep && id != SIZE_MAX) kept.back().want.push_back({id, dist});
                if (id == SIZE_MAX) { if (!std::isnan(dist)) fail("end", "%s: distance %g at the end of the results", what.c_str(), dist); break; }
                evals();
                if (id >= n || seen[id]) fail("range", "%s: node %zu of %zu is %s", what.c_str(), id, n, id >= n ? "no node" : "reported twice");
                seen[id] = 1;
                if (fabs(dist - sqrt(D[id])) > 1e-13 * dist) fail("distance", "%s: node %zu is at %.17g, reported %.17g", what.c_str(), id, sqrt(D[id]), dist);
                if (ord && dist < prev) fail("order", "%s: %.17g after %.17g in ordered results", what.c_str(), dist, prev);
                prev = dist;
                got++;
            }
            if (kdset_read(s, &dist) != SIZE_MAX) fail("end", "%s: results go on after their end", what.c_str());
            size_t need = 0;
            for (size_t k = 0; k < n; ++k) {
                double r2 = range * range, tol = rel ? rel * (r2 + D[k]) + 1e-300 : ex && rk != 1 && rk != 2 ? 0 : 1e-15 * (r2 + D[k]);
                evals();
                bool must = D[k] < r2 - tol || (tol == 0 && D[k] == r2) || r2 == INFINITY, may = D[k] <= r2 + tol;
                if (rk == 0) { must = D[k] == 0; may = must; }
                if (range < 0) must = may = false;
                need += seen[k];
                if (must && !seen[k]) fail("range", "%s: node %zu at %.17g not found within %.17g (%zu nodes)", what.c_str(), k, sqrt(D[k]), range, n);
                if (!may && seen[k]) fail("range", "%s: node %zu at %.17g reported within %.17g", what.c_str(), k, sqrt(D[k]), range);
            }
            if (sz != got) fail("set size", "%s: size of the results is %zu, %zu can be read", what.c_str(), sz, got);
            kdset_free(s);
            if (!kept.empty() && g.p(0.3)) {
                int w = g.i(0, (int) kept.size() - 1);
                advance(kept[w], g.i(1, 3));
                if (g.p(0.2)) { settle(kept[w]); kept.erase(kept.begin() + w); }
            }
            if (got > 0 && got < n) proper++;
            count(ord ? "ordered range queries" : "unordered range queries");
            count("nodes in ranges", got);
        }
    }
    for (auto& h : kept) settle(h);
    kd_destroy(t);
    count("points with infinite or NaN first coordinate", nbad);
    if (proper > 0) nontrivial(sig);
    sample(what + fmt(": %zu nodes from %d insertions, %zu ranges with a proper part", pts.size(), ops, proper));
}
