#include "gn.hpp"
const char* PROP = "C15";
const char* RULE = "grids of any type and pattern with windows inside, across and outside the grid, reversed, of one row or column, with huge bounds, whole; in process and by the subgrid tool (with -x, -y, standard input, one or no range); non-trivial if a proper non-empty part with present nodes was returned; distinct by grid and window";
long ncases(bool t) { return t ? 1500000 : 160000; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    NODETYPE t = (NODETYPE) g.i(1, 3);
    bool tool = g.p(0.04);
    NG n = gen_ng(g, t, 40, tool);
    int lo[2], hi[2], sz[2] = {n.nx, n.ny};
    bool given[2];
    bool whole = std::max(n.nx, n.ny) > 10000 && g.p(0.5);
    for (int d = 0; d < 2; ++d) {
        given[d] = !whole && g.p(0.85);
        int k = g.i(0, 11);
        lo[d] = g.i(0, sz[d] - 1); hi[d] = g.i(lo[d], sz[d] - 1);
        if (k == 0) lo[d] = g.i(-5, 0);
        else if (k == 1) hi[d] = sz[d] - 1 + g.i(0, 5);
        else if (k == 2) { lo[d] = g.i(-3, sz[d] + 2); hi[d] = g.i(-3, sz[d] + 2); }
        else if (k == 3) { lo[d] = sz[d] + g.i(0, 3); hi[d] = lo[d] + g.i(0, 3); }
        else if (k == 4) { hi[d] = -1 - g.i(0, 3); lo[d] = hi[d] - g.i(0, 3); }
        else if (k == 5) { lo[d] = -1000000000; hi[d] = 2000000000; }
        else if (k == 6) hi[d] = lo[d];
        else if (k == 7) { lo[d] = 0; hi[d] = sz[d] - 1; }
        if (!given[d]) { lo[d] = INT_MIN; hi[d] = INT_MAX; }
    }
    int a1 = std::max(lo[0], 0), a2 = std::min(hi[0], n.nx - 1), b1 = std::max(lo[1], 0), b2 = std::min(hi[1], n.ny - 1);
    bool empty = a1 > a2 || b1 > b2;
    NG want;
    if (!empty) {
        want = NG(a2 - a1 + 1, b2 - b1 + 1, t);
        for (int j = b1; j <= b2; ++j) for (int i = a1; i <= a2; ++i) want.put(i - a1, j - b1, n.X[n.id(i, j)], n.Y[n.id(i, j)]);
    }
    string what = n.desc() + fmt(", window %d:%d %d:%d", lo[0], hi[0], lo[1], hi[1]);
    evals();
    if (tool) {
        vector<string> a = {"subgrid"};
        RunOpt o;
        int ct = g.i(0, 4);
        string in = ng_text(n);
        vector<vector<string>> parts;
        if (g.p(0.25)) { o.usein = true; o.in = in; parts.push_back({g.p(0.5) ? "-" : "stdin"}); }
        else { writefile(wf("g.txt"), in); parts.push_back({wf("g.txt")}); }
        if (given[0]) parts.push_back({"-i", fmt("%d:%d", lo[0], hi[0])});
        if (given[1]) parts.push_back({"-j", fmt("%d:%d", lo[1], hi[1])});
        if (ct == 1) parts.push_back({"-x"});
        if (ct == 2) parts.push_back({"-y"});
        while (!parts.empty()) { int k = g.i(0, (int) parts.size() - 1); for (auto& s : parts[k]) a.push_back(s); parts.erase(parts.begin() + k); }
        Run r = run_tool(a, o);
        if (empty) {
            if (r.ok() || r.err.empty()) fail("empty", "%s: accepted (status %d): %s", what.c_str(), r.status, r.out.substr(0, 200).c_str());
            count("tool: refused");
            return;
        }
        if (!r.ok()) fail("refused", "%s: refused by subgrid: %s", what.c_str(), r.err.c_str());
        if (ct == 1 || ct == 2) {
            NG got;
            got.t = t;
            if (!parse_grid(r.out, got.nx, got.ny, got.X, got.Y, 1)) fail("tool", "%s: output of subgrid -%c is not a list: %s", what.c_str(), ct == 1 ? 'x' : 'y', r.out.substr(0, 200).c_str());
            got.Y = got.X;
            NG w = want;
            if (ct == 1) w.Y = w.X; else w.X = w.Y;
            ng_compare("tool", what + ", single coordinate", got, w);
        } else
            ng_compare("tool", what + ", subgrid", ng_parse("tool", what, r.out, t), want);
        count("tool: compared");
    } else {
        gridnodes* gn = ng_make(n);
        int mt = g.i(0, 1);
        gridnodes_setmaptype(gn, mt);
        gridnodes* d = NULL;
        if (quits([&] { d = gridnodes_subgrid(gn, lo[0], hi[0], lo[1], hi[1]); })) {
            if (!empty) fail("refused", "%s: refused", what.c_str());
            count("refused");
        } else {
            if (empty) fail("empty", "%s: accepted, gives %d x %d", what.c_str(), gridnodes_getnx(d), gridnodes_getny(d));
            if (d == gn) fail("alias", "%s: the grid itself is returned", what.c_str());
            ng_compare("subgrid", what, ng_get(d, t), want);
            // the node type: number of cells for the size
            int n1 = gridnodes_getnce1(d), w1 = t == NT_DD ? (want.nx - 1) / 2 : t == NT_COR ? want.nx - 1 : want.nx;
            int n2 = gridnodes_getnce2(d), w2 = t == NT_DD ? (want.ny - 1) / 2 : t == NT_COR ? want.ny - 1 : want.ny;
            if (n1 != w1 || n2 != w2) fail("type", "%s: the result has %d x %d cells, not %d x %d: another node type", what.c_str(), n1, n2, w1, w2);
            if (gridnodes_getmaptype(d) != mt) fail("maptype", "%s: map type changed", what.c_str());
            ng_compare("source", what + ", source", ng_get(gn, t), n);
            gridnodes_destroy(d);
            count("compared");
            count("nodes compared", want.X.size());
        }
        gridnodes_destroy(gn);
    }
    if (!empty && want.present() > 0 && want.X.size() < n.X.size()) nontrivial(n.sig() ^ hashbytes(lo, sizeof lo) ^ hashbytes(hi, sizeof hi));
    sample(what + (empty ? ": refused" : fmt(": %d x %d nodes", want.nx, want.ny)));
}
