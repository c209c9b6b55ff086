#include "gn.hpp"
const char* PROP = "C09";
const char* RULE = "double-density and centre grids with random patterns of missing nodes and random masks (all ones, all zeros, sparse, dense, blocks), applied in process (twice) or by getnodes -m with conversion, mask files well-formed (with and without final newline, from standard input), short, with other values or for corner grids; non-trivial if something was masked and something is left; distinct by grid and mask";
long ncases(bool t) { return t ? 700000 : 80000; }

static string mask_text(const vector<int>& m, bool nl)
{
    string s;
    for (size_t k = 0; k < m.size(); ++k) { s += m[k] ? "1" : "0"; if (k + 1 < m.size() || nl) s += "\n"; }
    return s;
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    int mode = g.i(0, 99);
    NODETYPE t = g.p(0.6) ? NT_DD : NT_CEN;
    NG n = gen_ng(g, t, 30, mode < 6);
    while (t == NT_DD && (n.nx == 1 || n.ny == 1)) n = gen_ng(g, t, 30, mode < 6);
    int n1 = t == NT_DD ? n.nx / 2 : n.nx, n2 = t == NT_DD ? n.ny / 2 : n.ny;
    vector<int> mask((size_t) n1 * n2, 1);
    int mk = g.i(0, 5);
    double d = g.pick(vector<double>{0.02, 0.1, 0.3, 0.6, 0.95});
    if (mk == 1) std::fill(mask.begin(), mask.end(), 0);
    else if (mk >= 2) for (auto& v : mask) v = !g.p(d);
    if (mk == 5) { int a = g.i(0, n1 - 1), b = g.i(0, n2 - 1); for (int j = b; j < n2; ++j) for (int i = a; i < n1; ++i) mask[j * n1 + i] = 0; }
    int nz = 0;
    for (int v : mask) nz += !v;
    string what = n.desc() + fmt(", mask with %d of %d cells masked", nz, (int) mask.size());
    if (mode < 6) {                             // the tool, with a conversion in front of the mask
        NODETYPE to = t;
        NG want = n;
        m_validate(want);
        if (t == NT_DD && g.p(0.4)) { want = m_dd2(want, NT_CEN).g; to = NT_CEN; }
        m_mask(want, mask);
        writefile(wf("g.txt"), ng_text(n));
        string mt = mask_text(mask, g.p(0.6));
        if (g.p(0.2)) mt += "\n";
        RunOpt o;
        vector<string> a = {"getnodes", wf("g.txt"), "-i", tname(t), "-o", tname(to), "-m"};
        if (g.p(0.3)) { o.usein = true; o.in = mt; a.push_back(g.p(0.5) ? "-" : "stdin"); }
        else { writefile(wf("m.txt"), mt); a.push_back(wf("m.txt")); }
        Run r = run_tool(a, o);
        if (!r.ok()) fail("refused", "%s: refused by getnodes: %s", what.c_str(), r.err.c_str());
        ng_compare("tool", what + ", getnodes -m", ng_parse("tool", what, r.out, to), want);
        count("tool runs compared");
    } else if (mode < 12) {                     // refusals
        string mt = mask_text(mask, true);
        vector<string> L = lines(mt);
        int k = g.i(0, 2);
        const char* why;
        evals();
        if (k == 0) {                           // corner grid
            NG q = gen_ng(g, NT_COR, 8, true);
            while (q.nx == 1 || q.ny == 1) q = gen_ng(g, NT_COR, 8, true);
            gridnodes* gn = ng_make(q);
            vector<int> ones((size_t) q.nx * q.ny, 1);
            vector<int*> p;
            for (int j = 0; j < q.ny; ++j) p.push_back(&ones[(size_t) j * q.nx]);
            if (!quits([&] { gridnodes_applymask(gn, p.data()); })) fail("corner mask", "%s: mask accepted", q.desc().c_str());
            gridnodes_destroy(gn);
            count("refused: corner grid");
            return;
        }
        if (k == 1) { L.resize(g.i(0, (int) L.size() - 1)); why = "short mask"; }
        else {
            static const char* BAD[] = {"2", "", "01", " 1", "1 ", "-1", "x", "NaN", "1.0", "0 0", "10", "0\r", "+1"};
            L[g.i(0, (int) L.size() - 1)] = BAD[g.i(0, 12)];
            why = "wrong value";
        }
        mt = "";
        for (auto& l : L) mt += l + "\n";
        writefile(wf("m.txt"), mt);
        int** m = NULL;
        if (!quits([&] { m = gu_readmask((char*) wf("m.txt").c_str(), n1, n2); })) fail("bad mask", "%s accepted: %d x %d, file \"%s\"", why, n1, n2, mt.substr(0, 200).c_str());
        count((string("refused: ") + why).c_str());
        return;
    } else {
        NG want = n;
        bool valid = true;
        m_validate(n);
        want = n;
        bool allc = true;                       // all cells have their centre
        if (t == NT_DD) for (int j = 0; j + 2 < n.ny; j += 2) for (int i = 0; i + 2 < n.nx; i += 2)
            if (n.ok(i, j) && n.ok(i + 2, j) && n.ok(i, j + 2) && n.ok(i + 2, j + 2) && !n.ok(i + 1, j + 1)) allc = false;
        m_mask(want, mask);
        gridnodes* gn = ng_make(n);
        if (valid && g.p(0.5)) gridnodes_validate(gn);
        string mt = mask_text(mask, g.p(0.5));
        int** m;
        if (g.p(0.3)) {
            writefile(wf("m.txt"), mt);
            m = gu_readmask((char*) wf("m.txt").c_str(), n1, n2);
            count("mask files read");
            for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) if (!m[j][i] != !mask[(size_t) j * n1 + i]) fail("read", "%s: mask value (%d, %d) read as %d", what.c_str(), i, j, m[j][i]);
        } else {
            bool any = g.p(0.2);            // what is not 0 is not masked
            m = (int**) gu_alloc2d(n2, n1, sizeof(int));
            for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) m[j][i] = !mask[(size_t) j * n1 + i] ? 0 : any ? g.pick(vector<int>{1, 1, 2, -1, 256, INT_MIN, INT_MAX}) : 1;
            if (any) count("masks of other values than 0 and 1");
        }
        gridnodes_applymask(gn, m);
        ng_compare("mask", what, ng_get(gn, t), want);
        if (nz == 0 && valid && allc) { ng_compare("ones", what + ", all ones", ng_get(gn, t), n); count("masks of ones on a grid with all centres"); }
        gridnodes_applymask(gn, m);
        ng_compare("mask twice", what + ", applied twice", ng_get(gn, t), want);
        for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) if (!m[j][i] != !mask[(size_t) j * n1 + i]) fail("mask changed", "%s: the mask was changed", what.c_str());
        gu_free2d(m);
        gridnodes_destroy(gn);
        if (nz > 0 && want.present() > 0) nontrivial(n.sig() ^ hashbytes(mask.data(), mask.size() * sizeof(int)));
        sample(what + fmt(": %d nodes left", want.present()));
        count("nodes removed", n.present() - want.present());
    }
}
