#include "gn.hpp"
const char* PROP = "C07";
const char* RULE = "conversions DD to CO and CE (any pattern), CO to CE, DD and back (any pattern with the kd-tree map type, disc-shaped regions with real geometry for the default map), copies, in process or by the tool, from validated or not yet validated grids; results, sizes, cell counts and the source compared with the model; non-trivial if the result has present and missing nodes; distinct by grid and conversion";
long ncases(bool t) { return t ? 800000 : 80000; }

static void derived(gridnodes* src, gridnodes* d, const NG& want, const NG& wsrc, const string& what)
{
    if (d == NULL || d == src) fail("result", "%s: no new grid", what.c_str());
    int n1 = gridnodes_getnce1(src), n2 = gridnodes_getnce2(src), k1 = gridnodes_getnce1(d), k2 = gridnodes_getnce2(d);
    evals();
    if (n1 != k1 || n2 != k2) fail("cells", "%s: %d x %d cells became %d x %d", what.c_str(), n1, n2, k1, k2);
    if (gridnodes_getmaptype(d) != gridnodes_getmaptype(src)) fail("maptype", "%s: the map type changed", what.c_str());
    ng_compare("source", what + ", source", ng_get(src, wsrc.t), wsrc);
    (void) want;
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    NG n;
    bool dd = g.p(0.4), disc = false, tool = g.p(0.04);
    if (dd) n = gen_ng(g, NT_DD, 30, tool);
    else if (tool || g.p(0.5)) {
        Grid r = gen_disc_grid(c, 25);
        n = NG(r.n1 + 1, r.n2 + 1, NT_COR);
        n.X = r.X; n.Y = r.Y;
        disc = true;
    } else
        n = gen_ng(g, NT_COR, 30, false);
    if (n.nx == 1 || n.ny == 1) {               // no cells: a conversion to centres has no nodes
        if (!dd || g.p(0.5)) {
            gridnodes* gn = ng_make(n);
            gridnodes_setmaptype(gn, GRIDMAP_TYPE_KDTREE);
            gridnodes* d = NULL;
            evals();
            if (!quits([&] { d = gridnodes_transform(gn, NT_CEN); })) fail("no cells", "%s: centres of a grid with no cells", n.desc().c_str());
            gridnodes_destroy(gn);
            count("no cells: refused");
            return;
        }
    }
    NG v = n;
    m_validate(v);
    NODETYPE to = dd ? (g.p(0.5) && n.nx > 1 && n.ny > 1 ? NT_CEN : NT_COR) : (g.p(0.5) ? NT_CEN : NT_DD);
    NT2 want = dd ? m_dd2(v, to) : m_co2(v, to);
    string what = n.desc() + fmt(" -> %s%s", tname(to), dd ? "" : disc ? ", default map" : ", kd-tree map");
    count(fmt("%s to %s", tname(n.t), tname(to)).c_str());
    if (tool) {
        writefile(wf("g.txt"), ng_text(n));
        Run r = run_tool({"getnodes", wf("g.txt"), "-i", tname(n.t), "-o", tname(to)});
        if (!r.ok()) fail("refused", "%s: refused by getnodes: %s", what.c_str(), r.err.c_str());
        vector<double> t = tol15(want.g, &want.tol);
        ng_compare("tool", what + ", getnodes", ng_parse("tool", what, r.out, to), want.g, &t);
        count("tool runs compared");
    } else {
        gridnodes* gn = ng_make(n);
        if (!disc) gridnodes_setmaptype(gn, GRIDMAP_TYPE_KDTREE);
        if (g.p(0.5)) gridnodes_validate(gn);
        gridnodes* d = gridnodes_transform(gn, to);
        derived(gn, d, want.g, v, what);
        ng_compare("transform", what, ng_get(d, to), want.g, &want.tol);
        gridnodes_setmaptype(gn, GRIDMAP_TYPE_KDTREE);
        if (!dd && to == NT_DD) {               // and back
            gridnodes* b = gridnodes_transform(d, NT_COR);
            ng_compare("back", what + " -> CO", ng_get(b, NT_COR), v);
            gridnodes_destroy(b);
            count("CO to DD to CO");
        }
        if (g.p(0.2)) {                         // same type: a copy
            gridnodes* b = gridnodes_transform(gn, g.p(0.5) ? n.t : NT_NONE);
            derived(gn, b, v, v, what + ", copy");
            ng_compare("copy", what + ", copy", ng_get(b, n.t), v);
            gridnodes_destroy(b);
            count("copies");
        }
        gridnodes_destroy(d);
        ng_compare("source", what + ", source after all", ng_get(gn, n.t), v);
        gridnodes_destroy(gn);
    }
    if (want.g.present() > 0 && want.g.present() < (int) want.g.X.size()) nontrivial(n.sig() ^ to);
    sample(what + fmt(": %d of %d nodes present", want.g.present(), (int) want.g.X.size()));
}
