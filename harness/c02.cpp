#include "gridgen.hpp"
const char* PROP = "C02";
const char* RULE = "random grid of convex cells with any pattern of missing nodes (holes, islands, corner contacts, stray nodes, no valid cell at all) or a disc, kd-tree map built from arrays or through a grid object, queries of the same kinds as for C01; the answer is compared with a search over all valid cells and with a brute-force search for the nearest node; a case is non-trivial if some point was found and some was outside; distinct by node coordinates";
long ncases(bool t) { return t ? 600000 : 30000; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    Grid r = g.p(0.3) ? gen_disc_grid(c) : gen_any_grid(c);
    if (g.p(0.3)) drop_stray(r);
    double tol = loc_tol(r);
    gridnodes* gn = NULL;
    gridmap* gm;
    if (g.p(0.5)) {
        gn = to_gridnodes(r.X, r.Y, r.n1 + 1, r.n2 + 1, NT_COR);
        gridnodes_setmaptype(gn, GRIDMAP_TYPE_KDTREE);
        if (gridnodes_getmaptype(gn) != GRIDMAP_TYPE_KDTREE) fail("maptype", "map type not kept");
        gm = gridmap_build2(gn);
    } else
        gm = gridmap_build(r.n1, r.n2, r.gx(), r.gy(), GRIDMAP_TYPE_KDTREE);
    if (gridmap_getnce1(gm) != r.n1 || gridmap_getnce2(gm) != r.n2)
        fail("size", "%s: the map reports %d x %d cells", r.desc.c_str(), gridmap_getnce1(gm), gridmap_getnce2(gm));
    int nq = 60 + r.n1 * r.n2 / 8, nin = 0, nout = 0, ncompl = 0, m1 = r.n1 + 1;
    for (int k = 0; k < nq; ++k) {
        Pt q = gen_query(g, r);
        int i = -777, j = -777;
        int ok = gridmap_xy2ij(gm, q.x, q.y, &i, &j);
        evals();
        Loc L;
        bool fin = std::isfinite(q.x) && std::isfinite(q.y);
        if (fin) L = locate(r, q.x, q.y, tol);
        string what = r.desc + fmt(", point (%.17g, %.17g) (%s)", q.x, q.y, q.kind);
        if (ok) {
            nin++;
            if (i < 0 || j < 0 || i >= r.n1 || j >= r.n2 || !r.cell.at(i, j))
                fail("invalid cell", "%s: returned (%d, %d), which is not a valid cell", what.c_str(), i, j);
            bool good = false;
            for (auto& p : L.in) if (p.first == i && p.second == j) good = true;
            for (auto& p : L.near) if (p.first == i && p.second == j) good = true;
            if (!good) fail("wrong cell", "%s: reported in (%d, %d), which does not contain it", what.c_str(), i, j);
            continue;
        }
        nout++;
        if (!L.near.empty()) {      // a node is a corner of the cells around it, whatever the rounding
            int at = -1, same = 0;
            for (size_t n = 0; n < r.X.size(); ++n) if (r.X[n] == q.x && r.Y[n] == q.y) { at = (int) n; same++; }
            if (same == 1) {
                count("queries at nodes not found");
                for (int dj = -1; dj <= 0; ++dj) for (int di = -1; di <= 0; ++di)
                    if (r.cell.at(at % m1 + di, at / m1 + dj)) fail("node not found", "%s: this is node (%d, %d), a corner of cell (%d, %d), but it is not found", what.c_str(), at % m1, at / m1, at % m1 + di, at / m1 + dj);
            }
        }
        if (L.in.empty()) continue;
        // nearest node
        ld best = 1e300L, second = 1e300L;
        int bi = -1;
        for (size_t n = 0; n < r.X.size(); ++n) {
            if (std::isnan(r.X[n])) continue;
            ld d = hypotl((ld) r.X[n] - q.x, (ld) r.Y[n] - q.y);
            if (d < best) { second = best; best = d; bi = (int) n; }
            else if (d < second) second = d;
        }
        if (second - best <= 1e-9 * second + 8 * DBL_EPSILON * r.cmax) continue;    // a tie: either may be taken
        int ni = bi % m1, nj = bi / m1;
        for (auto& p : L.in)
            if ((p.first == ni || p.first == ni - 1) && (p.second == nj || p.second == nj - 1))
                fail("not found", "%s: in cell (%d, %d), of which the nearest node (%d, %d) is a corner, but not found", what.c_str(), p.first, p.second, ni, nj);
        ncompl++;
    }
    count("found", nin);
    count("not found", nout);
    count("inside, but nearest node is not a corner of the cell", ncompl);
    if (nin && nout) nontrivial(r.sig());
    sample(r.desc + fmt(": %d found, %d not", nin, nout));
    gridmap_destroy(gm);
    if (gn) gridnodes_destroy(gn);
}
