#include "gn.hpp"
const char* PROP = "C06";
const char* RULE = "corner, double-density and centre grids of 1x1 to 41x41 nodes with random patterns of missing nodes (including corner-only contacts, missing centres and edges, single rows and columns) and arbitrary values, validated in process (twice) or by the tool; compared with the model node by node; non-trivial if validation had at least one node to drop and one to keep; distinct by grid";
long ncases(bool t) { return t ? 1500000 : 120000; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    NODETYPE t = g.p(0.45) ? NT_DD : g.p(0.85) ? NT_COR : NT_CEN;
    bool tool = g.p(0.03);
    NG n = gen_ng(g, t, 41, tool), want = n;
    m_validate(want);
    count((string("grids ") + tname(t)).c_str());
    if (tool) {
        writefile(wf("g.txt"), ng_text(n));
        Run r = run_tool({"getnodes", wf("g.txt"), "-i", tname(t), "-o", tname(t)});
        if (!r.ok()) fail("refused", "%s: refused by getnodes: %s", n.desc().c_str(), r.err.c_str());
        ng_compare("tool", n.desc() + ", getnodes", ng_parse("tool", n.desc(), r.out, t), want);
        count("tool runs compared");
    } else {
        gridnodes* gn = ng_make(n);
        gridnodes_validate(gn);
        ng_compare("validate", n.desc(), ng_get(gn, t), want);
        gridnodes_validate(gn);
        ng_compare("validate twice", n.desc() + ", second validation", ng_get(gn, t), want);
        gridnodes_destroy(gn);
    }
    int d = n.present() - want.present();
    count("nodes dropped", d);
    count("nodes kept", want.present());
    if ((d > 0 || t == NT_CEN) && want.present() > 0) nontrivial(n.sig());
    sample(n.desc() + fmt(": %d dropped%s", d, tool ? " (getnodes)" : ""));
}
