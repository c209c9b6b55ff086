#include "gn.hpp"
const char* PROP = "C13";
const char* RULE = "histories of up to 60 operations on up to four polylines (append, insert anywhere, append polyline incl. itself, delete, clear, close, copy, reverse, resample, despike, compact, write and read back, read of text with comments, blank lines and several polylines), with every state compared with a list model: points, bounding box, closure, search, signed area; non-trivial if a history changed at least 5 states with points; distinct by history";
long ncases(bool t) { return t ? 3000000 : 180000; }

struct M { poly* p; vector<std::pair<double, double>> v; };
static string show(const M& m)
{
    string s = fmt("%d points:", (int) m.v.size());
    for (auto& q : m.v) { s += fmt(" %.15g,%.15g", q.first, q.second); if (s.size() > 500) break; }
    return s;
}
static void check(const string& op, M& m)
{
    poly* p = m.p;
    evals();
    if (p->n != (int) m.v.size()) fail("points", "after %s: %d points instead of %s", op.c_str(), p->n, show(m).c_str());
    double x1 = DBL_MAX, x2 = -DBL_MAX, y1 = DBL_MAX, y2 = -DBL_MAX;
    for (int k = 0; k < p->n; ++k) {
        if (p->x[k] != m.v[k].first || p->y[k] != m.v[k].second) fail("points", "after %s: point %d is (%.17g, %.17g); should be %s", op.c_str(), k, p->x[k], p->y[k], show(m).c_str());
        x1 = std::min(x1, m.v[k].first); x2 = std::max(x2, m.v[k].first); y1 = std::min(y1, m.v[k].second); y2 = std::max(y2, m.v[k].second);
    }
    if (p->n == 0) {
        if (!(p->e.xmin > p->e.xmax) || !(p->e.ymin > p->e.ymax)) fail("extent", "after %s: the extent of no points is not empty", op.c_str());
    } else if (p->e.xmin != x1 || p->e.xmax != x2 || p->e.ymin != y1 || p->e.ymax != y2)
        fail("extent", "after %s: extent [%.17g, %.17g] x [%.17g, %.17g] for %s", op.c_str(), p->e.xmin, p->e.xmax, p->e.ymin, p->e.ymax, show(m).c_str());
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    int np = g.i(1, 4), nop = g.i(1, 60), changed = 0, R = g.pick(vector<int>{2, 10, 1000});
    bool nc = g.p(0.3);                 // wide range of coordinates
    vector<M> P;
    uint64_t sig = 1;
    string hist;
    for (int k = 0; k < np; ++k) P.push_back({poly_create(), {}});
    auto co = [&]() -> double { return nc ? nice(g) : g.p(0.1) ? g.i(-2 * R, 2 * R) * 0.5 : g.i(-R, R); };
    for (int o = 0; o < nop; ++o) {
        int w = g.i(0, np - 1);
        M& m = P[w];
        int n = (int) m.v.size(), k = g.i(0, 19);
        double x = co(), y = co();
        if (n > 0 && g.p(0.1)) { x = m.v[g.i(0, n - 1)].first; y = m.v[g.i(0, n - 1)].second; }
        string op;
        auto before = m.v;
        if (k <= 4) {
            int r = g.p(0.2) ? g.i(1, 20) : 1;
            op = fmt("addpoint x%d", r);
            for (int q = 0; q < r; ++q) { if (q) { x = co(); y = co(); } poly_addpoint(m.p, x, y); m.v.push_back({x, y}); }
        } else if (k <= 7) {
            int at = g.p(0.1) ? -g.i(1, 3) : g.p(0.1) ? n + g.i(0, 3) : g.i(0, n);
            op = fmt("addpointat %d", at);
            poly_addpointat(m.p, at, x, y);
            if (at >= 0) m.v.insert(m.v.begin() + std::min(at, n), {x, y});
        } else if (k == 8) {
            int f = g.i(0, np - 1);
            op = f == w ? "append itself" : "append";
            if (n + P[f].v.size() > 2000) continue;
            poly_append(m.p, P[f].p);
            auto add = P[f].v;
            m.v.insert(m.v.end(), add.begin(), add.end());
            check("append (source)", P[f]);
        } else if (k <= 10) {
            if (n == 0) continue;
            int at = g.p(0.2) ? 0 : g.p(0.2) ? n - 1 : g.i(0, n - 1);
            op = fmt("deletepoint %d", at);
            poly_deletepoint(m.p, at);
            m.v.erase(m.v.begin() + at);
        } else if (k == 11) {
            if (!g.p(0.3)) continue;
            op = "clear";
            poly_clear(m.p);
            m.v.clear();
        } else if (k == 12) {
            op = "close";
            poly_close(m.p);
            if (n == 1 || (n > 1 && m.v.front() != m.v.back())) m.v.push_back(m.v.front());
        } else if (k == 13) {
            int f = g.i(0, np - 1);
            op = "copy";
            poly* q = poly_copy(P[f].p);
            if (f != w || g.p(0.5)) { auto v = P[f].v; poly_destroy(m.p); m.p = q; m.v = v; }
            else { poly_addpoint(q, x, y); poly_clear(q); poly_destroy(q); }
            if (f != w) check("copy (source)", P[f]);
        } else if (k == 14) {
            op = "reverse";
            poly_reverse(m.p);
            std::reverse(m.v.begin(), m.v.end());
        } else if (k == 15) {
            double eps = nc ? fabs(nice(g)) : g.pick(vector<double>{0, 0.5, 1, 2.5, 10});
            op = fmt("resample %g", eps);
            poly_resample(m.p, eps);
            vector<std::pair<double, double>> v;
            for (auto& q : m.v) if (v.empty() || !(fabs(v.back().first - q.first) <= eps && fabs(v.back().second - q.second) <= eps)) v.push_back(q);
            m.v = v;
        } else if (k == 16) {
            if (nc) continue;
            double d = g.pick(vector<double>{0, 0.75, 1, 2.25, 5, 7.375, (double) R, 3.0 * R});
            op = fmt("despike %g", d);
            poly_despike(m.p, d);
            vector<std::pair<double, double>> v;
            for (auto& q : m.v) if (v.empty() || hypot(v.back().first - q.first, v.back().second - q.second) < d) v.push_back(q);
            m.v = v;
        } else if (k == 17) {
            if (nc) continue;
            op = "compact";
            poly_compact(m.p, 1e-10);
            auto full = m.v;
            if (m.p->n > n) fail("compact", "compaction of %d points gives %d", n, m.p->n);
            m.v.clear();
            for (int q = 0; q < m.p->n; ++q) {
                m.v.push_back({m.p->x[q], m.p->y[q]});
                if (std::find(full.begin(), full.end(), m.v.back()) == full.end()) fail("compact", "compaction invents the point (%g, %g)", m.p->x[q], m.p->y[q]);
            }
        } else if (k == 18) {           // write, read back
            op = "write and read";
            string f = wf("p.txt");
            FILE* fp = fopen(f.c_str(), "w");
            int rep = g.i(1, 3);
            for (int q = 0; q < rep; ++q) poly_write(m.p, fp);
            fclose(fp);
            vector<string> L = lines(readfile(f));
            evals();
            if ((int) L.size() != rep * (n + 1)) fail("write", "%d points are written as %d lines", n, (int) L.size() / rep);
            for (int q = 0; q < rep * (n + 1); ++q) {
                if (q % (n + 1) == 0) { if (L[q] != fmt("## %d", n)) fail("write", "header of %d points is \"%s\"", n, L[q].c_str()); continue; }
                char* e;
                double a = strtod(L[q].c_str(), &e), b = strtod(e, &e);
                if (*e || a != m.v[q % (n + 1) - 1].first || b != m.v[q % (n + 1) - 1].second) fail("write", "point (%.17g, %.17g) is written as \"%s\"", m.v[q % (n + 1) - 1].first, m.v[q % (n + 1) - 1].second, L[q].c_str());
            }
            fp = fopen(f.c_str(), "r");
            for (int q = 0; q < (n ? rep : 1); ++q) {
                M t = {poly_create(), m.v};
                int r = poly_read(t.p, fp);
                if (r != n) fail("read", "poly_read() returns %d for %d points", r, n);
                check("write and read back", t);
                poly_destroy(t.p);
            }
            fclose(fp);
        } else {                        // read text
            op = "read";
            string s;
            int lead = g.i(0, 3), cnt = g.i(0, 12), tail = g.i(0, 2);
            for (int q = 0; q < lead; ++q) s += g.p(0.5) ? "# comment 1 2\n" : g.p(0.5) ? "\n" : g.p(0.5) ? " \t \n" : "## 99\n";
            for (int q = 0; q < cnt; ++q) {
                double a = co(), b = co();
                s += fmt(g.p(0.7) ? "%.15g %.15g" : g.p(0.5) ? "  %.15g\t%.15g  " : "%.15g %.15g 17 extra", a, b);
                if (q < cnt - 1 || g.p(0.8) || tail) s += g.p(0.9) ? "\n" : "\r\n";
                m.v.push_back({a, b});
            }
            if (tail && cnt) s += fmt("%s\n%d %d\n", g.p(0.3) ? "end" : g.p(0.5) ? "" : g.p(0.5) ? "# 3 4" : "5", g.i(0, 9), g.i(0, 9));
            writefile(wf("p.txt"), s);
            FILE* fp = fopen(wf("p.txt").c_str(), "r");
            poly_read(m.p, fp);
            fclose(fp);
        }
        hist += op + "; ";
        count(op.substr(0, op.find(' ')).c_str());
        check(op, m);
        if (before != m.v) changed++;
        n = (int) m.v.size();
        // observations
        if (g.p(0.4)) {
            double eps = g.p(0.5) ? 0 : g.i(0, R);
            bool cl = n > 1 && fabs(m.v[0].first - m.v[n - 1].first) <= eps && fabs(m.v[0].second - m.v[n - 1].second) <= eps;
            evals(2);
            if (!poly_isclosed(m.p, eps) != !cl) fail("closed", "poly_isclosed(%g) is %d for %s", eps, !cl, show(m).c_str());
            int q = n && g.p(0.7) ? g.i(0, n - 1) : -1, want = -1;
            double a = q >= 0 ? m.v[q].first : co(), b = q >= 0 ? m.v[q].second : co();
            for (int z = 0; z < n && want < 0; ++z) if (m.v[z].first == a && m.v[z].second == b) want = z;
            if (poly_findindex(m.p, a, b) != want) fail("find", "(%g, %g) is found at %d instead of %d in %s", a, b, poly_findindex(m.p, a, b), want, show(m).c_str());
            if (!nc) {
                ld ar = 0;
                for (int z = 0; z < n; ++z) { auto &s = m.v[z], &t = m.v[(z + 1) % n]; ar += ((ld) s.first * t.second - (ld) t.first * s.second) / 2; }
                evals();
                double got = poly_area(m.p);
                if (fabsl(got - ar) > 1e-9L * R * R * (n + 1) * 0.001L) fail("area", "area is %.17g instead of %.17Lg for %s", got, ar, show(m).c_str());
            }
        }
        if (g.p(0.01)) {
            evals();
            int wn = g.i(1, 3);
            double a = wn & 1 ? QNAN : 1, b = wn & 2 ? QNAN : 1;
            int at = g.i(-1, n);        // -1: append
            if (!quits([&] { if (at < 0) poly_addpoint(m.p, a, b); else poly_addpointat(m.p, at, a, b); })) fail("nan", "a NaN point was added (%d)", at);
            check("attempt to add NaN", m);
        }
        sig = hashbytes(m.v.data(), m.v.size() * 16, sig);
    }
    for (auto& m : P) { check("all", m); poly_destroy(m.p); }
    if (changed >= 5) nontrivial(sig);
    sample(hist.substr(0, 300));
}
