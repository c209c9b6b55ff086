#include "gn.hpp"
const char* PROP = "C08";
const char* RULE = "centre grids (arbitrary values, affine functions of the index, bilinear fields, real geometries) with random patterns of missing centres, among them grids without any complete 2x2 block, single rows and columns; converted to CO or DD in process or by the tool; presence must be as modelled, values equal to the evaluation of the bilinear map of one of the nearest complete blocks; non-trivial if there are extrapolated and missing nodes; distinct by grid";
long ncases(bool t) { return t ? 600000 : 50000; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    bool tool = g.p(0.04);
    NG n = gen_ng(g, NT_CEN, 30, tool);
    int kind = g.i(0, 3);
    double A[6];
    for (auto& a : A) a = g.i(-8, 8) / 4.0;
    if (kind == 1)
        for (int j = 0; j < n.ny; ++j) for (int i = 0; i < n.nx; ++i) if (n.ok(i, j)) n.put(i, j, A[0] * i + A[1] * j + A[2], A[3] * i + A[4] * j + A[5]);
    if (kind == 2)
        for (int j = 0; j < n.ny; ++j) for (int i = 0; i < n.nx; ++i) if (n.ok(i, j)) n.put(i, j, i + 0.1 * sin(j * 0.7) + 100, j * 1.5 + 0.1 * cos(i * 0.5) - 20);
    NODETYPE to = g.p(0.5) ? NT_COR : NT_DD;
    int s = to == NT_COR ? 1 : 2, next = 0, naff = 0;
    NG want(to == NT_COR ? n.nx + 1 : 2 * n.nx + 1, to == NT_COR ? n.ny + 1 : 2 * n.ny + 1, to);
    // candidate values of each node
    vector<vector<std::array<double, 3>>> cand(want.X.size());
    vector<std::pair<int, int>> blocks;
    int nblock = 0;
    vector<char> isblock(n.X.size(), 0);
    for (int j = 0; j + 1 < n.ny; ++j) for (int i = 0; i + 1 < n.nx; ++i)
        if (n.ok(i, j) && n.ok(i + 1, j) && n.ok(i, j + 1) && n.ok(i + 1, j + 1)) { isblock[n.id(i, j)] = 1; nblock++; }
    for (int j = 0; j < want.ny; ++j)
        for (int i = 0; i < want.nx; ++i) {
            double fi = (double) i / s - 0.5, fj = (double) j / s - 0.5, best = 1e300;
            blocks.clear();         // those further away are out of reach anyway
            for (int b = (int) floor(fj) - 3; b <= (int) fj + 3; ++b) for (int a = (int) floor(fi) - 3; a <= (int) fi + 3; ++a)
                if (n.in(a, b) && isblock[n.id(a, b)]) blocks.push_back({a, b});
            for (auto& b : blocks) best = std::min(best, (b.first + 0.5 - fi) * (b.first + 0.5 - fi) + (b.second + 0.5 - fj) * (b.second + 0.5 - fj));
            if (!(best < 2.25)) continue;
            want.put(i, j, 1, 1);
            for (auto& b : blocks) {
                if ((b.first + 0.5 - fi) * (b.first + 0.5 - fi) + (b.second + 0.5 - fj) * (b.second + 0.5 - fj) != best) continue;
                ld u = fi - b.first, v = fj - b.second, x = 0, y = 0;
                double mag = 0;
                if (u < 0 || u > 1 || v < 0 || v > 1) next++;
                for (int k = 0; k < 4; ++k) {
                    size_t q = n.id(b.first + (k & 1), b.second + (k >> 1));
                    ld w = (k & 1 ? u : 1 - u) * (k >> 1 ? v : 1 - v);
                    x += w * n.X[q]; y += w * n.Y[q];
                    mag = std::max(mag, std::max(fabs(n.X[q]), fabs(n.Y[q])));
                }
                cand[want.id(i, j)].push_back({(double) x, (double) y, 128 * DBL_EPSILON * mag + 1e-320});
            }
        }
    int before = want.present();
    m_validate(want);
    string what = n.desc() + " -> " + tname(to);
    NG got;
    if (tool) {
        writefile(wf("g.txt"), ng_text(n));
        Run r = run_tool({"getnodes", wf("g.txt"), "-i", "CE", "-o", tname(to)});
        if (!r.ok()) fail("refused", "%s: refused by getnodes: %s", what.c_str(), r.err.c_str());
        got = ng_parse("tool", what, r.out, to);
        count("tool runs compared");
    } else {
        gridnodes* gn = ng_make(n);
        gridnodes* d = gridnodes_transform(gn, to);
        got = ng_get(d, to);
        if (gridnodes_getnce1(d) != n.nx || gridnodes_getnce2(d) != n.ny) fail("cells", "%s: %d x %d cells", what.c_str(), gridnodes_getnce1(d), gridnodes_getnce2(d));
        ng_compare("source", what + ", source", ng_get(gn, NT_CEN), n);
        gridnodes_destroy(d);
        gridnodes_destroy(gn);
    }
    if (got.nx != want.nx || got.ny != want.ny) fail("size", "%s: size is %d x %d instead of %d x %d", what.c_str(), got.nx, got.ny, want.nx, want.ny);
    for (int j = 0; j < want.ny; ++j)
        for (int i = 0; i < want.nx; ++i) {
            size_t k = want.id(i, j);
            double x = got.X[k], y = got.Y[k];
            evals();
            if (!want.ok(i, j)) {
                if (!std::isnan(x) || !std::isnan(y)) fail("presence", "%s: node (%d, %d) should be missing, is (%.17g, %.17g)", what.c_str(), i, j, x, y);
                continue;
            }
            if (std::isnan(x) || std::isnan(y)) fail("presence", "%s: node (%d, %d) is missing", what.c_str(), i, j);
            bool ok = false;
            for (auto& q : cand[k]) {
                double t = q[2] + (tool ? 1e-14 * std::max(fabs(q[0]), fabs(q[1])) : 0);
                if (fabs(x - q[0]) <= t && fabs(y - q[1]) <= t) ok = true;
            }
            if (!ok) fail("value", "%s: node (%d, %d) is (%.17g, %.17g), a nearest block gives (%.17g, %.17g)", what.c_str(), i, j, x, y, cand[k][0][0], cand[k][0][1]);
            if (kind == 1) {
                double fi = (double) i / s - 0.5, fj = (double) j / s - 0.5, ex = A[0] * fi + A[1] * fj + A[2], ey = A[3] * fi + A[4] * fj + A[5];
                if (fabs(x - ex) > 1e-11 * (1 + n.nx + n.ny) || fabs(y - ey) > 1e-11 * (1 + n.nx + n.ny))
                    fail("affine", "%s: affine grid, node (%d, %d) is (%.17g, %.17g) instead of (%.17g, %.17g)", what.c_str(), i, j, x, y, ex, ey);
                naff++;
            }
        }
    count("nodes extrapolated", next);
    count("nodes of affine grids", naff);
    count("nodes dropped by validation", before - want.present());
    if (!nblock) count("grids with no complete block");
    if (want.present() > 0 && want.present() < (int) want.X.size()) nontrivial(n.sig() ^ to);
    sample(what + fmt(": %d blocks, %d nodes present of %d", nblock, want.present(), (int) want.X.size()));
}
