#include <memory>
#include "gn.hpp"
const char* PROP = "C33";
const char* RULE = "histories of up to 50 operations on up to 5 live grids (created and filled in part, over again and past the end, made from arrays, read, copied, cut, converted, masked, validated, changed through their arrays and validated, given map types, examined, mapped and queried, written and read back, refused operations, destroyed in any order); every operation is carried out a second time on a grid newly made of the same nodes, and results, texts, refusals and the nodes afterwards must be identical, all other grids unchanged, and equal to the model where there is one; non-trivial if at least 8 operations of 5 kinds changed or made a grid; distinct by history";
long ncases(bool t) { return t ? 2000000 : 80000; }

struct Live { gridnodes* p; NG m; int mt; int next; };

static gridnodes* fresh(const Live& h)
{
    gridnodes* q = gridnodes_create(h.m.nx, h.m.ny, h.m.t);
    double** X = gridnodes_getx(q);
    double** Y = gridnodes_gety(q);
    for (int j = 0; j < h.m.ny; ++j) for (int i = 0; i < h.m.nx; ++i) { X[j][i] = h.m.X[h.m.id(i, j)]; Y[j][i] = h.m.Y[h.m.id(i, j)]; }
    gridnodes_setmaptype(q, h.mt);
    return q;
}
static string capture(std::function<void()> f)          // standard error of a call
{
    string ef = wf("err.txt");
    fflush(stderr);
    int keep = dup(2), fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    close(fd);
    gu_verbose = 1;
    f();
    gu_verbose = 0;
    fflush(stderr);
    dup2(keep, 2);
    close(keep);
    return readfile(ef);
}
typedef std::function<gridnodes*(gridnodes*, string&)> Op;
struct Out { bool quit = false; string msg, text; gridnodes* res = NULL; };
static Out perform(const Op& f, gridnodes* p)
{
    Out o;
    o.quit = quits([&] { o.res = f(p, o.text); }, &o.msg);
    return o;
}
static bool is_valid(const NG& n) { NG v = n; m_validate(v); return v.present() == n.present(); }

void run_case(Case& c)
{
    Rng& g = c.rng;
    vector<Live> L;
    string hist;
    std::set<int> kinds;
    int changed = 0, nop = g.i(3, 50);
    uint64_t sig = 1;
    auto where = [&](const string& op) { return (hist.size() > 500 ? "..." + hist.substr(hist.size() - 500) : hist) + op; };
    auto gen = [&]() {
        NODETYPE t = g.p(0.04) ? NT_NONE : (NODETYPE) g.i(1, 3);
        if (t != NT_CEN && g.p(0.4)) {
            Grid r = gen_any_grid(c, 7);
            NG co(r.n1 + 1, r.n2 + 1, NT_COR);
            co.X = r.X; co.Y = r.Y;
            if (t == NT_DD) return m_co2(co, NT_DD).g;
            co.t = t;
            return co;
        }
        NG n = gen_ng(g, t == NT_NONE ? NT_COR : t, 9, true);
        n.t = t;
        return n;
    };
    auto check_all = [&](const string& op) {
        for (size_t k = 0; k < L.size(); ++k) {
            ng_compare("others", where(op) + fmt("; grid %zu of %zu afterwards", k, L.size()), ng_get(L[k].p, L[k].m.t), L[k].m);
            if (gridnodes_getmaptype(L[k].p) != L[k].mt) fail("map type", "%s: map type of grid %zu is %d instead of %d", where(op).c_str(), k, gridnodes_getmaptype(L[k].p), L[k].mt);
        }
    };
    auto adopt = [&](gridnodes* p, const NG& m, int mt) {
        L.push_back({p, m, mt, 0});
        if (m.t != NT_NONE) {
            int a = m.t == NT_DD ? (m.nx - 1) / 2 : m.t == NT_COR ? m.nx - 1 : m.nx, b = m.t == NT_DD ? (m.ny - 1) / 2 : m.t == NT_COR ? m.ny - 1 : m.ny;
            evals();
            if (gridnodes_getnce1(p) != a || gridnodes_getnce2(p) != b) fail("cells", "%s: %d x %d cells instead of %d x %d", hist.c_str(), gridnodes_getnce1(p), gridnodes_getnce2(p), a, b);
        }
    };
    for (int o = 0; o < nop; ++o) {
        int k = L.empty() ? 0 : L.size() >= 5 ? g.i(2, 15) : g.i(0, 15);
        if (k <= 1) {                           // a new grid
            NG n = gen();
            int how = g.i(0, 3);
            gridnodes* p;
            Live h;
            h.mt = GRIDMAP_TYPE_DEF;
            h.next = 0;
            if (how == 0 && n.t != NT_NONE) {
                writefile(wf("g.txt"), ng_text(n));
                p = gridnodes_read((char*) wf("g.txt").c_str(), n.t);
                ng_compare("read", where("read"), ng_get(p, n.t), n, NULL);
                hist += "read";
            } else if (how == 1) {
                double** gx = (double**) gu_alloc2d(n.ny, n.nx, sizeof(double));
                double** gy = (double**) gu_alloc2d(n.ny, n.nx, sizeof(double));
                for (int j = 0; j < n.ny; ++j) for (int i = 0; i < n.nx; ++i) { gx[j][i] = n.X[n.id(i, j)]; gy[j][i] = n.Y[n.id(i, j)]; }
                p = gridnodes_create2(n.nx, n.ny, n.t, gx, gy);
                hist += "from arrays";
            } else {
                p = gridnodes_create(n.nx, n.ny, n.t);
                int N = (int) n.X.size(), cnt = g.p(0.8) ? N : g.i(0, N);
                for (int q = 0; q < cnt; ++q) gridnodes_readnextpoint(p, n.X[q], n.Y[q]);
                for (int q = cnt; q < N; ++q) n.X[q] = n.Y[q] = 0;
                h.next = cnt % N;
                hist += fmt("created, %d of %d points", cnt, N);
            }
            hist += fmt(" %s; ", n.desc().c_str());
            adopt(p, n, h.mt);
            L.back().next = h.next;
            sig = mix64(sig ^ n.sig());
            check_all("");
            kinds.insert(0);
            changed++;
            count("grids made");
            continue;
        }
        int w = g.i(0, (int) L.size() - 1);
        Live& h = L[w];
        NODETYPE t = h.m.t;
        if (k == 2) {                           // more points
            int N = (int) h.m.X.size(), cnt = g.p(0.3) ? N : g.p(0.3) ? g.i(N, 2 * N) : g.i(1, N);
            for (int q = 0; q < cnt; ++q) {
                double x = nice(g), y = nice(g);
                if (g.p(0.15)) { if (g.p(0.7)) x = QNAN; if (g.p(0.7)) y = QNAN; }
                gridnodes_readnextpoint(h.p, x, y);
                if (std::isnan(x) || std::isnan(y)) x = y = QNAN;
                h.m.X[h.next] = x;
                h.m.Y[h.next] = y;
                h.next = (h.next + 1) % N;
            }
            string op = fmt("%d more points into %d", cnt, w);
            check_all(op);
            hist += op + "; ";
            kinds.insert(1);
            changed++;
            count("fillings");
            continue;
        }
        if (k == 3) {                           // changed through the arrays, then validated
            if (t == NT_DD && (h.m.nx % 2 == 0 || h.m.ny % 2 == 0)) continue;
            double** X = gridnodes_getx(h.p);
            double** Y = gridnodes_gety(h.p);
            for (int q = g.i(1, 6); q > 0; --q) {
                int i = g.i(0, h.m.nx - 1), j = g.i(0, h.m.ny - 1);
                double x = g.p(0.5) ? QNAN : nice(g), y = std::isnan(x) ? x : nice(g);
                X[j][i] = x; Y[j][i] = y;
                h.m.put(i, j, x, y);
            }
            gridnodes_validate(h.p);
            m_validate(h.m);
            string op = fmt("%d changed and validated", w);
            check_all(op);
            hist += op + "; ";
            kinds.insert(2);
            changed++;
            count("changes through the arrays");
            continue;
        }
        if (k == 4) {
            if (g.p(0.5)) {
                gridnodes_destroy(h.p);
                L.erase(L.begin() + w);
                hist += fmt("%d destroyed; ", w);
                check_all("");
                count("destroyed");
            } else {
                h.mt = g.i(0, 1);
                gridnodes_setmaptype(h.p, h.mt);
                hist += fmt("map type of %d is %d; ", w, h.mt);
                check_all("");
                count("map types set");
            }
            continue;
        }
        // the others are carried out twice
        string op;
        Op f;
        NG after = h.m;                         // model of the source afterwards
        bool known = true, produces = false;
        NT2 want;
        bool wanted = false;
        int kind = k;
        if (k <= 6) {
            op = fmt("validate %d", w);
            f = [](gridnodes* p, string&) -> gridnodes* { gridnodes_validate(p); return NULL; };
            m_validate(after);
        } else if (k <= 9) {
            NODETYPE to = g.p(0.05) ? NT_NONE : (NODETYPE) g.i(1, 3);
            op = fmt("transform %d to %s", w, to == NT_NONE ? "none" : tname(to));
            f = [=](gridnodes* p, string&) { return gridnodes_transform(p, to); };
            m_validate(after);
            produces = true;
            if (to == NT_NONE || to == t) { want.g = after; wanted = true; }
            else if (t == NT_DD && h.m.nx % 2 && h.m.ny % 2) { want = m_dd2(after, to); wanted = true; }
            else if (t == NT_COR && h.m.nx > 1 && h.m.ny > 1) { want = m_co2(after, to); wanted = true; }
            else want.g.t = to;
        } else if (k == 10) {
            int n1 = t == NT_DD ? h.m.nx / 2 : h.m.nx, n2 = t == NT_DD ? h.m.ny / 2 : h.m.ny;
            auto mask = std::make_shared<vector<int>>((size_t) std::max(1, n1) * std::max(1, n2), 1);
            auto rows = std::make_shared<vector<int*>>();
            double d = g.pick(vector<double>{0, 0.05, 0.3, 0.9});
            for (auto& v : *mask) v = !g.p(d);
            for (int j = 0; j < std::max(1, n2); ++j) rows->push_back(mask->data() + (size_t) j * std::max(1, n1));
            op = fmt("mask %d", w);
            f = [=](gridnodes* p, string&) -> gridnodes* { (void) mask->size(); gridnodes_applymask(p, rows->data()); return NULL; };
            if ((t == NT_DD && h.m.nx % 2 && h.m.ny % 2 && is_valid(h.m)) || t == NT_CEN) m_mask(after, *mask);
            else known = false;
        } else if (k == 11) {
            int a = g.i(-2, h.m.nx - 1), b = g.p(0.9) ? g.i(std::max(a, 0), h.m.nx + 2) : g.i(-2, h.m.nx + 2), e = g.i(-2, h.m.ny - 1), z = g.p(0.9) ? g.i(std::max(e, 0), h.m.ny + 2) : g.i(-2, h.m.ny + 2);
            if (g.p(0.2)) { a = 0; b = h.m.nx - 1; e = 0; z = h.m.ny - 1; }
            if (t == NT_DD && g.p(0.7)) { a &= ~1; e &= ~1; if (b >= a) b = a + ((b - a) & ~1); if (z >= e) z = e + ((z - e) & ~1); }
            op = fmt("subgrid [%d:%d] x [%d:%d] of %d", a, b, e, z, w);
            f = [=](gridnodes* p, string&) { return gridnodes_subgrid(p, a, b, e, z); };
            produces = true;
            int A = std::max(a, 0), B = std::min(b, h.m.nx - 1), E = std::max(e, 0), Z = std::min(z, h.m.ny - 1);
            if (A <= B && E <= Z) {
                want.g = NG(B - A + 1, Z - E + 1, t);
                for (int j = E; j <= Z; ++j) for (int i = A; i <= B; ++i) want.g.put(i - A, j - E, h.m.X[h.m.id(i, j)], h.m.Y[h.m.id(i, j)]);
                wanted = true;
            }
        } else if (k == 12) {
            op = fmt("copy %d", w);
            f = [](gridnodes* p, string&) { return gridnodes_copy(p); };
            produces = true;
            want.g = h.m;
            wanted = true;
        } else if (k == 13) {
            bool v = g.p(0.3);
            op = fmt("statistics of %d%s", w, v ? ", reported" : "");
            if (v) f = [](gridnodes* p, string& s) -> gridnodes* {
                bool q = false;
                string m;
                s = capture([&] { q = quits([&] { gridnodes_calcstats(p); }, &m); });
                size_t at = s.find("## maximum");       // (whether it has to be validated first is another matter)
                s = at == string::npos ? "" : s.substr(at);
                if (q) throw QuitEx{m};
                return NULL;
            };
            else f = [](gridnodes* p, string&) -> gridnodes* { gridnodes_calcstats(p); return NULL; };
            m_validate(after);
        } else if (k == 14) {
            COORDTYPE ct = g.p(0.6) ? CT_XY : g.p(0.5) ? CT_X : CT_Y;
            bool back = ct == CT_XY && t != NT_NONE && L.size() < 5;
            op = fmt("write %d%s", w, back ? " and read back" : "");
            f = [=](gridnodes* p, string& s) -> gridnodes* {
                gridnodes_write(p, (char*) wf("o.txt").c_str(), ct);
                s = readfile(wf("o.txt"));
                return back ? gridnodes_read((char*) wf("o.txt").c_str(), t) : NULL;
            };
            produces = back;
            if (back) {
                want.g = h.m;
                for (auto* V : {&want.g.X, &want.g.Y}) for (double& v : *V) v = strtod(fmt("%.15g", v).c_str(), NULL);
                wanted = true;
            }
        } else {                                // a map and what it says
            if (t != NT_COR || h.m.nx < 2 || h.m.ny < 2) continue;
            uint64_t s0 = g.next();
            op = fmt("map of %d", w);
            auto P = std::make_shared<vector<double>>();
            for (int q = 0; q < 8; ++q) {
                int i = g.i(0, h.m.nx - 2), j = g.i(0, h.m.ny - 2);
                double u = g.u(0, 1), v = g.u(0, 1), x = 0, y = 0;
                for (int z = 0; z < 4; ++z) { double wt = (z & 1 ? u : 1 - u) * (z & 2 ? v : 1 - v); size_t id = h.m.id(i + (z & 1), j + z / 2); x += wt * h.m.X[id]; y += wt * h.m.Y[id]; }
                P->push_back(x); P->push_back(y); P->push_back(i + u); P->push_back(j + v);
            }
            (void) s0;
            f = [=](gridnodes* p, string& s) -> gridnodes* {
                gridnodes_validate(p);
                gridmap* m = gridmap_build2(p);
                for (size_t q = 0; q + 3 < P->size(); q += 4) {
                    int i = -9, j = -9;
                    double a = -9, b = -9;
                    int r = gridmap_xy2ij(m, (*P)[q], (*P)[q + 1], &i, &j);
                    s += fmt("%d %d %d ", r, i, j);
                    r = gridmap_xy2fij(m, (*P)[q], (*P)[q + 1], &a, &b);
                    s += fmt("%d %.17g %.17g ", r, a, b);
                    r = gridmap_fij2xy(m, (*P)[q + 2], (*P)[q + 3], &a, &b);
                    s += fmt("%d %.17g %.17g\n", r, a, b);
                }
                gridmap_destroy(m);
                return NULL;
            };
            m_validate(after);
        }
        if (produces && L.size() >= 5) continue;
        gridnodes* q = fresh(h);
        Out a = perform(f, h.p), b = perform(f, q);
        string wh = where(op);
        evals(3);
        if (a.quit != b.quit) fail("refusal", "%s: %s, but %s on a new grid of the same nodes", wh.c_str(), a.quit ? ("refused (" + a.msg + ")").c_str() : "carried out", b.quit ? ("refused (" + b.msg + ")").c_str() : "carried out");
        if (a.msg != b.msg) fail("refusal", "%s: refused with \"%s\", but with \"%s\" on a new grid of the same nodes", wh.c_str(), a.msg.c_str(), b.msg.c_str());
        if (a.text != b.text) fail("report", "%s: reports or writes\n%s\nbut on a new grid of the same nodes\n%s", wh.c_str(), a.text.substr(0, 300).c_str(), b.text.substr(0, 300).c_str());
        NG sa = ng_get(h.p, t), sb = ng_get(q, t);
        ng_compare("source", wh + "; source afterwards, compared with that of a new grid", sa, sb);
        if (!a.quit) {
            if (known) ng_compare("source", wh + "; source afterwards", sa, after);
        }
        h.m = sb;
        int mt = h.mt;
        if (a.quit) { if (a.res || b.res) fail("refusal", "%s: result in spite of refusal", wh.c_str()); count("refused"); }
        else count((std::string("twice: ") + op.substr(0, op.find(' '))).c_str());
        gridnodes_destroy(q);
        if (!a.quit && produces) {
            NODETYPE rt = wanted ? want.g.t : want.g.t;
            NG ra = ng_get(a.res, rt), rb = ng_get(b.res, rt);
            ng_compare("result", wh + "; result, compared with that for a new grid", ra, rb);
            if (wanted) ng_compare("result", wh + "; result", ra, want.g, &want.tol);
            int rm = k == 14 ? GRIDMAP_TYPE_DEF : mt;
            if (gridnodes_getmaptype(b.res) != rm) fail("map type", "%s: map type of the result is %d instead of %d", wh.c_str(), gridnodes_getmaptype(b.res), rm);
            gridnodes_destroy(b.res);
            adopt(a.res, ra, rm);
        }
        check_all(op);
        hist += op + (a.quit ? " (refused); " : "; ");
        sig = mix64(sig ^ hashbytes(op.data(), op.size(), 7));
        if (!a.quit) { changed++; kinds.insert(kind); }
    }
    while (!L.empty()) {
        int w = g.i(0, (int) L.size() - 1);
        gridnodes_destroy(L[w].p);
        L.erase(L.begin() + w);
        check_all("destruction");
    }
    if (changed >= 8 && kinds.size() >= 5) nontrivial(sig);
    sample(hist.substr(0, 400));
}
