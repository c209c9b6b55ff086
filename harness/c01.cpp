#include "gridgen.hpp"
const char* PROP = "C01";
const char* RULE = "random grid of convex cells whose valid cells form a disc (11 region families, 9 geometry families, units 1e-3 to 1e5, offsets, both handednesses, 1x1 to 40x40 cells, thorough to 120x120), default map built from arrays or from a grid object, queries in the bounding box, inside valid and invalid cells, on and next to edges and nodes, far away and non-finite; a case is non-trivial if at least one point was found and one was reported outside; distinct by node coordinates";
long ncases(bool t) { return t ? 2000000 : 60000; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    Grid r = gen_disc_grid(c);
    double tol = loc_tol(r);
    gridnodes* gn = NULL;
    gridmap* gm;
    bool viagn = g.p(0.5);
    if (viagn) {
        gn = to_gridnodes(r.X, r.Y, r.n1 + 1, r.n2 + 1, NT_COR);
        if (g.p(0.5)) gridnodes_validate(gn);
        gm = gridmap_build2(gn);
    } else
        gm = gridmap_build(r.n1, r.n2, r.gx(), r.gy(), GRIDMAP_TYPE_DEF);
    if (gridmap_getnce1(gm) != r.n1 || gridmap_getnce2(gm) != r.n2)
        fail("size", "%s: the map reports %d x %d cells", r.desc.c_str(), gridmap_getnce1(gm), gridmap_getnce2(gm));
    int nq = 60 + r.n1 * r.n2 / 8, nin = 0, nout = 0, nnear = 0;
    vector<Pt> Q;
    for (int k = 0; k < nq; ++k) Q.push_back(gen_query(g, r));
    if (r.n1 * r.n2 <= 400)             // the middle of every cell
        for (int j = 0; j < r.n2; ++j) for (int i = 0; i < r.n1; ++i) {
            ld x, y;
            bilin(r.FX, r.n1, i, j, 0.5, 0.5, r.FY, x, y);
            Q.push_back({(double) x, (double) y, "middle of a cell"});
        }
    for (Pt& q : Q) {
        int i = -777, j = -777;
        int ok = gridmap_xy2ij(gm, q.x, q.y, &i, &j);
        evals();
        Loc L;
        if (std::isfinite(q.x) && std::isfinite(q.y)) L = locate(r, q.x, q.y, tol);
        if (L.in.size() > 1) { count("skipped: overlapping cells"); continue; }
        string what = r.desc + fmt(", point (%.17g, %.17g) (%s)", q.x, q.y, q.kind);
        if (ok) {
            if (i < 0 || j < 0 || i >= r.n1 || j >= r.n2 || !r.cell.at(i, j))
                fail("invalid cell", "%s: returned (%d, %d), which is not a valid cell", what.c_str(), i, j);
            if (L.outside()) fail("found outside", "%s: outside all valid cells, but reported in (%d, %d)", what.c_str(), i, j);
            bool good = false;
            for (auto& p : L.in) if (p.first == i && p.second == j) good = true;
            if (L.in.empty()) for (auto& p : L.near) if (p.first == i && p.second == j) good = true;
            if (!good) fail("wrong cell", "%s: reported in (%d, %d), but it is in (%d, %d)", what.c_str(), i, j, L.in.empty() ? L.near[0].first : L.in[0].first, L.in.empty() ? L.near[0].second : L.in[0].second);
            nin++;
            if (L.in.empty()) nnear++;
        } else {
            nout++;
            if (!L.in.empty()) fail("not found", "%s: in cell (%d, %d), but reported outside", what.c_str(), L.in[0].first, L.in[0].second);
            if (!L.near.empty() && !near_outer(r, L, q.x, q.y, 2 * tol))
                fail("not found", "%s: on an inner edge of cell (%d, %d), but reported outside", what.c_str(), L.near[0].first, L.near[0].second);
        }
        if (L.in.empty() && !L.near.empty()) count("points on an edge");
        count((string("query ") + q.kind).c_str());
    }
    count("found", nin);
    count("reported outside", nout);
    if (nin && nout) nontrivial(r.sig());
    sample(r.desc + fmt(": %d points found, %d outside, %d of them on edges", nin, nout, nnear));
    gridmap_destroy(gm);
    if (gn) gridnodes_destroy(gn);
}
