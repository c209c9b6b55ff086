#include "gn.hpp"
const char* PROP = "C10";
const char* RULE = "grids whose valid cells form a disc (bays with adjacent rims, channels, spirals, combs, strips, random growth, islands of missing cells along the outline) on every geometry; the edges of the boundary polygon, in physical and index space, in process and printed by getbound for corner and double-density input, are compared as a set with the edges that have a valid cell on exactly one side; non-trivial if some cells are missing; distinct by coordinates";
long ncases(bool t) { return t ? 600000 : 60000; }

typedef std::array<int, 4> Edge;
static Edge edge(int a, int b, int c, int d) { return std::make_pair(a, b) < std::make_pair(c, d) ? Edge{a, b, c, d} : Edge{c, d, a, b}; }
static std::set<Edge> outline(const Region& r)
{
    std::set<Edge> s;
    for (int j = 0; j <= r.n2; ++j)
        for (int i = 0; i <= r.n1; ++i) {
            if (i < r.n1 && r.at(i, j) != r.at(i, j - 1)) s.insert(edge(i, j, i + 1, j));
            if (j < r.n2 && r.at(i, j) != r.at(i - 1, j)) s.insert(edge(i, j, i, j + 1));
        }
    return s;
}
static void check(const string& what, const vector<std::pair<int, int>>& p, const std::set<Edge>& want)
{
    std::set<Edge> got;
    if (p.empty()) fail("boundary", "%s: boundary is empty, %d edges expected", what.c_str(), (int) want.size());
    if (p.front() != p.back() || p.size() < 2) fail("closed", "%s: boundary of %d points from (%d, %d) to (%d, %d) is not closed", what.c_str(), (int) p.size(), p[0].first, p[0].second, p.back().first, p.back().second);
    for (size_t k = 0; k + 1 < p.size(); ++k) {
        int d = abs(p[k].first - p[k + 1].first) + abs(p[k].second - p[k + 1].second);
        evals();
        if (d != 1) fail("step", "%s: step %d from (%d, %d) to (%d, %d) is not between adjacent nodes", what.c_str(), (int) k, p[k].first, p[k].second, p[k + 1].first, p[k + 1].second);
        Edge e = edge(p[k].first, p[k].second, p[k + 1].first, p[k + 1].second);
        if (!want.count(e)) fail("edge", "%s: step %d from (%d, %d) to (%d, %d) is no outline edge", what.c_str(), (int) k, p[k].first, p[k].second, p[k + 1].first, p[k + 1].second);
        if (!got.insert(e).second) fail("twice", "%s: step %d from (%d, %d) to (%d, %d) is repeated", what.c_str(), (int) k, p[k].first, p[k].second, p[k + 1].first, p[k + 1].second);
    }
    if (got.size() != want.size()) fail("incomplete", "%s: boundary has %d of %d outline edges", what.c_str(), (int) got.size(), (int) want.size());
}
// points of getbound output
static vector<string> parse(const string& what, const string& out)
{
    vector<string> L = lines(out);
    int n = -1;
    if (L.empty() || sscanf(L[0].c_str(), "## %d", &n) != 1) fail("tool", "%s: no header in the output: %s", what.c_str(), out.substr(0, 200).c_str());
    L.erase(L.begin());
    if (n != (int) L.size()) fail("tool", "%s: %d points announced, %d written", what.c_str(), n, (int) L.size());
    return L;
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    bool empty = g.p(0.02), tool = g.p(0.05);
    Grid r;
    if (empty) {
        int n1, n2;
        gen_size(g, false, n1, n2);
        gen_geometry(g, r, n1, n2);
        set_nodes(r, vector<char>(r.FX.size(), 0));
    } else
        r = gen_disc_grid(c, 40);
    std::set<Edge> want = outline(r.cell);
    string what = r.desc;
    if (!tool) {
        poly* p = poly_formbound(r.n1, r.n2, r.gx(), r.gy());
        poly* q = poly_formboundij(r.n1, r.n2, r.gx());
        if (empty) {
            evals();
            if (p->n != 0 || q->n != 0) fail("empty", "%s: boundary of an empty grid has %d (%d) points", what.c_str(), p->n, q->n);
            count("empty grids");
        } else {
            std::map<std::pair<double, double>, std::pair<int, int>> node;
            for (int j = 0; j <= r.n2; ++j) for (int i = 0; i <= r.n1; ++i) if (!std::isnan(r.x(i, j))) node[{r.x(i, j), r.y(i, j)}] = {i, j};
            vector<std::pair<int, int>> a, b;
            for (int k = 0; k < p->n; ++k) {
                auto it = node.find({p->x[k], p->y[k]});
                if (it == node.end()) fail("node", "%s: boundary point %d (%.17g, %.17g) is not a node", what.c_str(), k, p->x[k], p->y[k]);
                a.push_back(it->second);
            }
            for (int k = 0; k < q->n; ++k) {
                if (q->x[k] != (int) q->x[k] || q->y[k] != (int) q->y[k]) fail("node", "%s: index boundary point %d (%.17g, %.17g) is not a node", what.c_str(), k, q->x[k], q->y[k]);
                b.push_back({(int) q->x[k], (int) q->y[k]});
            }
            check(what + ", physical", a, want);
            check(what + ", index space", b, want);
            if (a != b) fail("order", "%s: the boundaries in physical and index space visit different nodes", what.c_str());
            ld area = 0, mag = 0;
            for (int j = 0; j < r.n2; ++j) for (int i = 0; i < r.n1; ++i) {
                if (!r.cell.at(i, j)) continue;
                ld x[4] = {r.x(i, j), r.x(i + 1, j), r.x(i + 1, j + 1), r.x(i, j + 1)}, y[4] = {r.y(i, j), r.y(i + 1, j), r.y(i + 1, j + 1), r.y(i, j + 1)};
                for (int k = 0; k < 4; ++k) area += (x[k] * y[(k + 1) % 4] - x[(k + 1) % 4] * y[k]) / 2;
            }
            mag = (ld) r.cmax * r.cmax * p->n;
            double ar = poly_area(p);
            evals();
            if (fabsl(fabs(ar) - fabsl(area)) > 1e-13L * mag) fail("area", "%s: the polygon encloses %.17g instead of %.17Lg", what.c_str(), ar, area);
            count("boundary edges", want.size());
            count("boundaries with adjacent nodes not joined by a cell", bridging_edges(r.cell) > 0);
        }
        poly_destroy(p);
        poly_destroy(q);
    } else {
        NG n(r.n1 + 1, r.n2 + 1, NT_COR);
        n.X = r.X; n.Y = r.Y;
        bool dd = g.p(0.4);
        if (dd) {
            NG d = m_co2(n, NT_DD).g;
            if (!empty && g.p(0.5)) for (int k = 0; k < 20; ++k) { int i = g.i(0, d.nx - 1), j = g.i(0, d.ny - 1); if (i % 2 || j % 2) d.drop(i, j); }
            writefile(wf("g.txt"), ng_text(d));
        } else {
            if (!empty && g.p(0.5)) {                   // stray nodes, which validation removes
                vector<char> v = region_nodes(r.cell);
                Grid q = r;
                for (int k = 0; k < 10; ++k) {
                    int w = g.i(0, (int) v.size() - 1);
                    if (v[w]) continue;
                    v[w] = 1;
                    if (cells_of_nodes(r.n1, r.n2, v).c != r.cell.c) v[w] = 0;
                }
                set_nodes(q, v);
                n.X = q.X; n.Y = q.Y;
            }
            writefile(wf("g.txt"), ng_text(n));
        }
        vector<string> a = {"getbound", wf("g.txt")};
        if (!dd || g.p(0.5)) { a.push_back("-i"); a.push_back(dd ? (g.p(0.5) ? "DD" : "dd") : "CO"); }
        Run ph = run_tool(a);
        a.push_back("-r");
        Run ix = run_tool(a);
        if (!ph.ok() || !ix.ok()) fail("refused", "%s: refused by getbound: %s%s", what.c_str(), ph.err.c_str(), ix.err.c_str());
        vector<string> pl = parse(what, ph.out), il = parse(what, ix.out);
        if (empty) {
            evals();
            if (pl.size() || il.size()) fail("empty", "%s: boundary of an empty grid printed with %d points", what.c_str(), (int) pl.size());
            return;
        }
        vector<std::pair<int, int>> b;
        for (auto& l : il) {
            int i, j, m = 0;
            if (sscanf(l.c_str(), "%d %d%n", &i, &j, &m) != 2 || l.find_first_not_of(" ", m) != string::npos) fail("tool", "%s: line \"%s\" of getbound -r", what.c_str(), l.c_str());
            b.push_back({i, j});
        }
        check(what + ", getbound -r", b, want);
        if (pl.size() != il.size()) fail("order", "%s: %d points printed in physical, %d in index space", what.c_str(), (int) pl.size(), (int) il.size());
        for (size_t k = 0; k < pl.size(); ++k) {
            double x, y, wx = r.x(b[k].first, b[k].second), wy = r.y(b[k].first, b[k].second);
            evals();
            if (sscanf(pl[k].c_str(), "%lf %lf", &x, &y) != 2 || fabs(x - wx) > 1e-14 * fabs(wx) || fabs(y - wy) > 1e-14 * fabs(wy))
                fail("order", "%s: point %d of getbound is \"%s\", in index space (%d, %d), which is at (%.17g, %.17g)", what.c_str(), (int) k, pl[k].c_str(), b[k].first, b[k].second, wx, wy);
        }
        count("getbound runs compared", 2);
    }
    if (!empty && r.cell.size() < r.n1 * r.n2) nontrivial(r.sig());
    sample(what + fmt(": %d boundary edges", (int) want.size()));
}
