#include "gridgen.hpp"
#include "zygote.hpp"
const char* PROP = "C05";
const char* RULE = "random histories of 40-120 operations over up to three validated grids and up to four live maps: queries of all three kinds (repeated, failing, on edges, NaN), building and destroying further maps, copying, subsetting, transforming and overwriting derived grids; every answer is compared bit by bit with that of a fresh map asked only once, all answers of a grid again with those of a process that has seen nothing else, and source coordinates with a snapshot; a case is non-trivial if at least 20 answers were compared and 3 other operations done; distinct by history";
long ncases(bool t) { return t ? 300000 : 12000; }

struct Src { Grid r; gridnodes* gn; int type; vector<double> X, Y; std::map<string, string> memo; };
static gridmap* mk(Src& s) { gridnodes_setmaptype(s.gn, s.type); return gridmap_build2(s.gn); }
static string ask(gridmap* gm, int kind, double a, double b)
{
    // what the variables of the caller hold beforehand must not matter, not even if the query fails
    static int before = 0;
    before = (before + 1) % 1000;
    if (kind == 0) {
        int i = before, j = before + 1;
        int ok = gridmap_xy2ij(gm, a, b, &i, &j);
        return fmt("%d %d %d", ok != 0, i, j);
    }
    double x = before, y = before + 0.5;
    int ok = kind == 1 ? gridmap_xy2fij(gm, a, b, &x, &y) : gridmap_fij2xy(gm, a, b, &x, &y);
    return fmt("%d %a %a", ok != 0, std::isnan(x) ? NAN : x, std::isnan(y) ? NAN : y);
}
// request: type, n1, n2, coordinates, queries (kind, a, b)
static string zy_request(Src& s, const vector<string>& keys)
{
    string o;
    auto put = [&](const void* p, size_t n) { o.append((const char*) p, n); };
    int hd[4] = {s.type, s.r.n1, s.r.n2, (int) keys.size()};
    put(hd, sizeof hd);
    put(s.X.data(), s.X.size() * 8);
    put(s.Y.data(), s.Y.size() * 8);
    for (auto& k : keys) {
        double v[3];
        int kind;
        if (sscanf(k.c_str(), "%d %la %la", &kind, &v[1], &v[2]) != 3) { fprintf(stderr, "harness: key %s\n", k.c_str()); exit(3); }
        v[0] = kind;
        put(v, sizeof v);
    }
    return o;
}
static string zy_serve(const string& req)
{
    const char* p = req.data();
    int hd[4];
    memcpy(hd, p, sizeof hd); p += sizeof hd;
    Src s;
    s.type = hd[0];
    size_t n = (size_t) (hd[1] + 1) * (hd[2] + 1);
    s.X.resize(n); s.Y.resize(n);
    memcpy(s.X.data(), p, n * 8); p += n * 8;
    memcpy(s.Y.data(), p, n * 8); p += n * 8;
    s.gn = to_gridnodes(s.X, s.Y, hd[1] + 1, hd[2] + 1, NT_COR);
    gridnodes_setmaptype(s.gn, s.type);
    gridmap* gm = mk(s);
    string o;
    for (int k = 0; k < hd[3]; ++k) {
        double v[3];
        memcpy(v, p, sizeof v); p += sizeof v;
        o += ask(gm, (int) v[0], v[1], v[2]) + "\n";
    }
    return o;
}
// whether the nearest node is unique, so that the order of insertion into the tree cannot matter
static bool unique_nearest(const Grid& r, double x, double y)
{
    ld best = 1e300L, second = 1e300L;
    for (size_t n = 0; n < r.X.size(); ++n) {
        if (std::isnan(r.X[n])) continue;
        ld d = hypotl((ld) r.X[n] - x, (ld) r.Y[n] - y);
        if (d < best) { second = best; best = d; } else if (d < second) second = d;
    }
    return second - best > 1e-9 * second + 8 * DBL_EPSILON * r.cmax;
}

void run_case(Case& c)
{
    Rng& g = c.rng;
    vector<Src*> S;
    int ns = g.i(1, 3), compared = 0, others = 0;
    uint64_t h = 1;
    string log;
    for (int k = 0; k < ns; ++k) {
        Src* s = new Src();
        s->type = g.p(0.4) ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY;
        s->r = s->type == GRIDMAP_TYPE_KDTREE && g.p(0.6) ? gen_any_grid(c, 12) : gen_disc_grid(c, 12);
        s->gn = to_gridnodes(s->r.X, s->r.Y, s->r.n1 + 1, s->r.n2 + 1, NT_COR);
        gridnodes_setmaptype(s->gn, s->type);
        gridnodes_validate(s->gn);
        from_gridnodes(s->gn, s->X, s->Y);
        s->r.X = s->X; s->r.Y = s->Y;
        h = mix64(h ^ s->r.sig());
        S.push_back(s);
    }
    struct M { Src* s; gridmap* gm; };
    vector<M> maps;
    struct Qy { Src* s; int kind; double a, b; };
    vector<Qy> old;
    auto unchanged = [&](Src* s, const char* after) {
        vector<double> X, Y;
        from_gridnodes(s->gn, X, Y);
        evals();
        for (size_t k = 0; k < X.size(); ++k)
            if (!same(X[k], s->X[k]) || !same(Y[k], s->Y[k]))
                fail("source changed", "%s: node %zu changed from (%.17g, %.17g) to (%.17g, %.17g) after %s", s->r.desc.c_str(), k, s->X[k], s->Y[k], X[k], Y[k], after);
    };
    int nops = g.i(40, 120);
    for (auto* s : S) if (s->X.size() > 1500) nops = g.i(6, 12);
    for (int k = 0; k < nops; ++k) {
        int op = g.i(0, 19);
        if (maps.empty()) op = 0;
        h = mix64(h ^ op);
        if (op <= 1) {                          // another map
            if (maps.size() >= 4) { int m = g.i(0, 3); gridmap_destroy(maps[m].gm); unchanged(maps[m].s, "destroying a map"); maps.erase(maps.begin() + m); }
            Src* s = g.pick(S);
            maps.push_back({s, mk(*s)});
            unchanged(s, "building a map");
            others++;
        } else if (op == 2) {                   // destroy a map
            int m = g.i(0, (int) maps.size() - 1);
            gridmap_destroy(maps[m].gm);
            unchanged(maps[m].s, "destroying a map");
            maps.erase(maps.begin() + m);
            others++;
        } else if (op <= 4) {                   // derived grid
            Src* s = g.pick(S);
            int what = g.i(0, 3);
            gridnodes* d = NULL;
            int nx = gridnodes_getnx(s->gn), ny = gridnodes_getny(s->gn);
            const char* name = what == 0 ? "copying" : what == 1 ? "taking a subgrid" : what == 2 ? "transforming to CE" : "transforming to DD";
            if (what == 0) d = gridnodes_copy(s->gn);
            else if (what == 1) { int a = g.i(0, nx - 1), b = g.i(0, ny - 1); d = gridnodes_subgrid(s->gn, g.p(0.3) ? 0 : a, g.p(0.3) ? nx - 1 : g.i(a, nx - 1), g.p(0.3) ? 0 : b, g.i(b, ny - 1)); }
            else d = gridnodes_transform(s->gn, what == 2 ? NT_CEN : NT_DD);
            unchanged(s, name);
            if (d) {
                if (d == s->gn) fail("alias", "%s returned the source itself", name);
                int dx = gridnodes_getnx(d), dy = gridnodes_getny(d);
                double **x = gridnodes_getx(d), **y = gridnodes_gety(d);
                for (int j = 0; j < dy; ++j) for (int i = 0; i < dx; ++i) { x[j][i] = 1e5 + i; y[j][i] = -1e5 - j; }
                unchanged(s, (string("overwriting the result of ") + name).c_str());
                gridnodes_destroy(d);
                unchanged(s, (string("destroying the result of ") + name).c_str());
            }
            others++;
        } else {                                // a query
            M& m = maps[g.i(0, (int) maps.size() - 1)];
            Src* s = m.s;
            Qy q;
            vector<Qy> mine;
            for (auto& o : old) if (o.s == s) mine.push_back(o);
            if (!mine.empty() && g.p(0.35)) q = g.pick(mine);
            else {
                q = {s, g.i(0, 2), 0, 0};
                if (q.kind == 2) {
                    q.a = g.p(0.3) ? g.i(0, s->r.n1) : g.p(0.8) ? g.u(0, s->r.n1) : g.u(-2, s->r.n1 + 2);
                    q.b = g.p(0.3) ? g.i(0, s->r.n2) : g.p(0.8) ? g.u(0, s->r.n2) : g.u(-2, s->r.n2 + 2);
                    if (g.p(0.03)) q.a = QNAN;
                } else { Pt p = gen_query(g, s->r); q.a = p.x; q.b = p.y; }
                if (s->type == GRIDMAP_TYPE_KDTREE && q.kind != 2 && std::isfinite(q.a) && std::isfinite(q.b) && !unique_nearest(s->r, q.a, q.b)) {
                    ask(m.gm, q.kind, q.a, q.b);        // part of the history only
                    continue;
                }
                old.push_back(q);
            }
            h = hashbytes(&q.a, 16, h);
            string key = fmt("%d %a %a", q.kind, q.a, q.b), ans = ask(m.gm, q.kind, q.a, q.b);
            auto it = s->memo.find(key);
            if (it == s->memo.end()) {
                gridmap* f = mk(*s);
                string a1 = ask(f, q.kind, q.a, q.b);
                gridmap_destroy(f);
                it = s->memo.insert({key, a1}).first;
            }
            evals();
            compared++;
            if (ans != it->second)
                fail("history", "%s, map type %d: query %d (%.17g, %.17g) answered \"%s\", a fresh map answers \"%s\"", s->r.desc.c_str(), s->type, q.kind, q.a, q.b, ans.c_str(), it->second.c_str());
        }
    }
    // the same questions in other orders, to processes that have not seen any other grid
    for (auto* s : S) {
        vector<string> keys;
        for (auto& m : s->memo) keys.push_back(m.first);
        if (keys.empty()) continue;
        int rounds = g.i(1, 3);
        for (int k = 0; k < rounds; ++k) {
            for (size_t a = keys.size(); a > 1; --a) std::swap(keys[a - 1], keys[g.i(0, (int) a - 1)]);
            vector<string> ks(keys.begin(), k == 0 ? keys.end() : keys.begin() + 1);
            string ans = zy_call(zy_request(*s, ks));
            if (!ans.empty() && ans[0] == '!') fail("clean process", "%s, map type %d: %s", s->r.desc.c_str(), s->type, ans.c_str());
            std::istringstream in(ans);
            string l;
            for (auto& q : ks) {
                std::getline(in, l);
                evals();
                compared++;
                if (l != s->memo[q]) fail("history", "%s, map type %d: query %s answered \"%s\" by a fresh map after this history, \"%s\" in a process that has done nothing else", s->r.desc.c_str(), s->type, q.c_str(), s->memo[q].c_str(), l.c_str());
            }
        }
    }
    for (auto& m : maps) gridmap_destroy(m.gm);
    for (auto* s : S) { unchanged(s, "everything"); gridnodes_destroy(s->gn); delete s; }
    count("answers compared", compared);
    count("other operations", others);
    if (compared >= 20 && others >= 3) nontrivial(h);
    sample(fmt("%d grids, %d operations, %d answers compared", ns, nops, compared));
}
