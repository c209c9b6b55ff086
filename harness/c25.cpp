#include "gn.hpp"
#include <dirent.h>
extern "C" {
#include "gridaverager.h"
size_t __sanitizer_get_current_allocated_bytes(void);
}
const char* PROP = "C25";
const char* RULE = "random histories of up to 60 library operations over live grids, maps, averagers, trees, result sets, polylines and masks (created, read, copied, transformed, masked, subset, validated, written, queried with success and failure, destroyed in any order), each carried out three times; allocated bytes and open descriptors at the end must be those after the first time, and every block of queries is repeated with the bytes compared after each pass; non-trivial if at least 5 kinds of objects were created; distinct by history";
long ncases(bool t) { return t ? 200000 : 10000; }

static int nfds()
{
    DIR* d = opendir("/proc/self/fd");
    int n = 0;
    if (!d) { fprintf(stderr, "harness: cannot read /proc/self/fd\n"); exit(3); }
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }

enum { NOPS = 26 };
static const char* OPNAME[NOPS] = {"grid created", "grid from arrays", "grid read", "grid copied", "subgrid", "transformed", "mask applied", "validated", "written", "statistics", "map built", "binary map built", "kd map built", "averager", "map queried", "binary map queried", "kd map queried", "averager filled and read", "tree built", "tree queried", "polyline built", "polyline edited", "boundary", "polyline read", "array", "destroyed"};
static unsigned long opcount[NOPS];
static char growth[600];

struct Hist {
    Rng g;
    vector<gridnodes*> gns; vector<NODETYPE> gt;
    vector<gridmap*> gms; vector<gridnodes*> gmsrc;
    vector<gridbmap*> bms; vector<gridnodes*> bmsrc;
    vector<gridkmap*> kms; vector<gridnodes*> kmsrc;
    vector<gridaverager*> gas; vector<gridmap*> gasrc;
    vector<kdtree*> kts; vector<int> ktd;
    vector<poly*> pls;
    vector<void*> arr;
    vector<NG>* pool;
    vector<string>* files;
    string out, pfile;
    std::set<int> kinds;
    explicit Hist(uint64_t s) : g(s) { }
    void add(gridnodes* gn, NODETYPE t) { gns.push_back(gn); gt.push_back(t); }
    bool usedgn(gridnodes* gn) { for (auto p : gmsrc) if (p == gn) return true; for (auto p : bmsrc) if (p == gn) return true; for (auto p : kmsrc) if (p == gn) return true; return false; }
    void pt(gridnodes* gn, double& x, double& y)
    {
        double** X = gridnodes_getx(gn); double** Y = gridnodes_gety(gn);
        int i = g.i(0, gridnodes_getnx(gn) - 1), j = g.i(0, gridnodes_getny(gn) - 1);
        x = X[j][i]; y = Y[j][i];
        if (g.p(0.6)) { x += g.u(-1, 1); y += g.u(-1, 1); }
        if (g.p(0.3)) { x = g.u(-5, 30); y = g.u(-5, 30); }
        if (g.p(0.03)) x = NAN;
        if (g.p(0.03)) y = 1e300;
    }
    // repeats a block of queries and watches the allocator
    template <class F> void block(const char* what, F f)
    {
        Rng save = g;
        size_t b[3];
        for (int k = 0; k < 3; ++k) { g = save; f(); b[k] = live(); }
        if (b[2] != b[1] && !growth[0]) snprintf(growth, sizeof growth, "%s: %zu bytes allocated after repeating the same queries, %zu after repeating them again", what, b[1], b[2]);
    }
    void destroy(bool all)
    {
        for (int guard = 0; guard < 100000; ++guard) {
            int n = (int) (gns.size() + gms.size() + bms.size() + kms.size() + gas.size() + kts.size() + pls.size() + arr.size());
            if (!n) return;
            int w = g.i(0, 7), k;
#define PICK(v) (v.empty() ? -1 : g.i(0, (int) v.size() - 1))
            bool did = true;
            if (w == 0 && (k = PICK(gns)) >= 0 && !usedgn(gns[k])) { gridnodes_destroy(gns[k]); gns.erase(gns.begin() + k); gt.erase(gt.begin() + k); }
            else if (w == 1 && (k = PICK(gms)) >= 0 && std::find(gasrc.begin(), gasrc.end(), gms[k]) == gasrc.end()) { gridmap_destroy(gms[k]); gms.erase(gms.begin() + k); gmsrc.erase(gmsrc.begin() + k); }
            else if (w == 2 && (k = PICK(bms)) >= 0) { gridbmap_destroy(bms[k]); bms.erase(bms.begin() + k); bmsrc.erase(bmsrc.begin() + k); }
            else if (w == 3 && (k = PICK(kms)) >= 0) { gridkmap_destroy(kms[k]); kms.erase(kms.begin() + k); kmsrc.erase(kmsrc.begin() + k); }
            else if (w == 4 && (k = PICK(gas)) >= 0) { ga_destroy(gas[k]); gas.erase(gas.begin() + k); gasrc.erase(gasrc.begin() + k); }
            else if (w == 5 && (k = PICK(kts)) >= 0) { kd_destroy(kts[k]); kts.erase(kts.begin() + k); ktd.erase(ktd.begin() + k); }
            else if (w == 6 && (k = PICK(pls)) >= 0) { poly_destroy(pls[k]); pls.erase(pls.begin() + k); }
            else if (w == 7 && (k = PICK(arr)) >= 0) { gu_free2d(arr[k]); arr.erase(arr.begin() + k); }
            else did = false;
            if (did && !all) return;
        }
    }
    void op()
    {
        int o = g.i(0, NOPS - 1), k;
        // nodes for maps
        auto corner = [&]() -> gridnodes* { for (int t = 0; t < 6; ++t) { int q = PICK(gns); if (q >= 0 && gt[q] == NT_COR) return gns[q]; } return NULL; };
        gridnodes* gn;
        switch (o) {
        case 0: {
            const NG& n = (*pool)[g.i(0, (int) pool->size() - 1)];
            gn = gridnodes_create(n.nx, n.ny, n.t);
            for (size_t q = 0; q < n.X.size(); ++q) gridnodes_readnextpoint(gn, n.X[q], n.Y[q]);
            add(gn, n.t);
            break;
        }
        case 1: {
            const NG& n = (*pool)[g.i(0, (int) pool->size() - 1)];
            double** gx = (double**) gu_alloc2d(n.ny, n.nx, sizeof(double));
            double** gy = (double**) gu_alloc2d(n.ny, n.nx, sizeof(double));
            for (int j = 0; j < n.ny; ++j) for (int i = 0; i < n.nx; ++i) { gx[j][i] = n.X[n.id(i, j)]; gy[j][i] = n.Y[n.id(i, j)]; }
            add(gridnodes_create2(n.nx, n.ny, n.t, gx, gy), n.t);
            break;
        }
        case 2: { int q = g.i(0, (int) files->size() - 1); add(gridnodes_read((char*) (*files)[q].c_str(), (*pool)[q].t), (*pool)[q].t); break; }
        case 3: if ((k = PICK(gns)) < 0) return; add(gridnodes_copy(gns[k]), gt[k]); break;
        case 4: {
            if ((k = PICK(gns)) < 0) return;
            int nx = gridnodes_getnx(gns[k]), ny = gridnodes_getny(gns[k]), i1 = g.i(0, nx - 1), i2 = g.i(i1, nx), j1 = g.i(0, ny - 1), j2 = g.i(j1, ny);
            if (gt[k] == NT_DD) { i1 = i1 / 2 * 2; j1 = j1 / 2 * 2; i2 = std::min(nx - 1, i2 / 2 * 2); j2 = std::min(ny - 1, j2 / 2 * 2); }
            add(gridnodes_subgrid(gns[k], i1, i2, j1, j2), gt[k]);
            break;
        }
        case 5: {
            if ((k = PICK(gns)) < 0) return;
            NODETYPE t = (NODETYPE) g.i(1, 3);
            if (t == gt[k]) return;
            if (gt[k] == NT_CEN && g.p(0.5)) gridnodes_setmaptype(gns[k], GRIDMAP_TYPE_KDTREE);
            else if (gt[k] != NT_CEN) gridnodes_validate(gns[k]);
            gridnodes* r = NULL;
            string msg;
            size_t before = live();
            (void) before;
            if (gt[k] == NT_CEN) {
                // may be refused, which ends a program: only grids known to convert
                NG n = ng_get(gns[k], NT_CEN);
                bool block = false;
                for (int j = 0; j + 1 < n.ny; ++j) for (int i = 0; i + 1 < n.nx; ++i) block |= n.ok(i, j) && n.ok(i + 1, j) && n.ok(i, j + 1) && n.ok(i + 1, j + 1);
                if (!block || n.present() != n.nx * n.ny) return;
            }
            if (t == NT_CEN && (gridnodes_getnce1(gns[k]) < 1 || gridnodes_getnce2(gns[k]) < 1)) return;
            r = gridnodes_transform(gns[k], t);
            add(r, t);
            break;
        }
        case 6: {
            if ((k = PICK(gns)) < 0 || gt[k] == NT_COR) return;
            gridnodes* q = gns[k];
            if (usedgn(q)) return;
            int n1 = gridnodes_getnce1(q), n2 = gridnodes_getnce2(q);
            if (n1 < 1 || n2 < 1) return;
            gridnodes_validate(q);
            int** mask = (int**) gu_alloc2d(n2, n1, sizeof(int));
            for (int j = 0; j < n2; ++j) for (int i = 0; i < n1; ++i) mask[j][i] = g.p(0.7);
            gridnodes_applymask(q, mask);
            gu_free2d(mask);
            string s;
            for (int q2 = 0; q2 < n1 * n2; ++q2) s += g.p(0.5) ? "1\n" : "0\n";
            writefile(out, s);
            gu_free2d(gu_readmask((char*) out.c_str(), n1, n2));
            break;
        }
        case 7: if ((k = PICK(gns)) < 0 || usedgn(gns[k])) return; gridnodes_validate(gns[k]); break;
        case 8: if ((k = PICK(gns)) < 0) return; gridnodes_write(gns[k], (char*) out.c_str(), (COORDTYPE) g.i(0, 2)); break;
        case 9: if ((k = PICK(gns)) < 0 || usedgn(gns[k])) return; gridnodes_calcstats(gns[k]); if (g.p(0.5)) gridnodes_calcstats(gns[k]); break;
        case 10: {
            if (!(gn = corner()) || gridnodes_getnce1(gn) < 1 || gridnodes_getnce2(gn) < 1) return;
            if (!usedgn(gn)) gridnodes_validate(gn);
            if (g.p(0.5)) { gridnodes_setmaptype(gn, g.i(0, 1)); gms.push_back(gridmap_build2(gn)); }
            else gms.push_back(gridmap_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn), g.i(0, 1)));
            gmsrc.push_back(gn);
            break;
        }
        case 11: case 12:
            if (!(gn = corner()) || gridnodes_getnce1(gn) < 1 || gridnodes_getnce2(gn) < 1) return;
            if (!usedgn(gn)) gridnodes_validate(gn);
            if (o == 11) { bms.push_back(gridbmap_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn))); bmsrc.push_back(gn); }
            else { kms.push_back(gridkmap_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn))); kmsrc.push_back(gn); }
            break;
        case 13: if ((k = PICK(gms)) < 0) return; gas.push_back(ga_create(gms[k])); gasrc.push_back(gms[k]); break;
        case 14: {
            if ((k = PICK(gms)) < 0) return;
            gridmap* m = gms[k];
            gridnodes* src = gmsrc[k];
            block("map queries", [&] {
                for (int q = g.i(1, 30); q > 0; --q) {
                    double x, y, a, b;
                    int i, j;
                    pt(src, x, y);
                    int w = g.i(0, 2);
                    if (w == 0) gridmap_xy2ij(m, x, y, &i, &j);
                    else if (w == 1) gridmap_xy2fij(m, x, y, &a, &b);
                    else gridmap_fij2xy(m, g.u(-1, gridmap_getnce1(m) + 1), g.u(-1, gridmap_getnce2(m) + 1), &a, &b);
                }
            });
            break;
        }
        case 15: {
            if ((k = PICK(bms)) < 0) return;
            block("binary map queries", [&] { for (int q = g.i(1, 30); q > 0; --q) { double x, y, e[4]; int i, j; pt(bmsrc[k], x, y); gridbmap_xy2ij(bms[k], x, y, &i, &j); gridbmap_getextent(bms[k], e, e + 1, e + 2, e + 3); } });
            break;
        }
        case 16: {
            if ((k = PICK(kms)) < 0) return;
            block("kd map queries", [&] { for (int q = g.i(1, 30); q > 0; --q) { double x, y; int i, j; pt(kmsrc[k], x, y); gridkmap_xy2ij(kms[k], x, y, &i, &j); } });
            break;
        }
        case 17: {
            if ((k = PICK(gas)) < 0) return;
            gridnodes* src = NULL;
            for (size_t q = 0; q < gms.size(); ++q) if (gms[q] == gasrc[k]) src = gmsrc[q];
            block("averager", [&] { for (int q = g.i(1, 30); q > 0; --q) { point p; pt(src, p.x, p.y); p.z = g.u(); if (g.p(0.5)) ga_addpoints(gas[k], 1, &p); else ga_getvalue(gas[k], &p); } });
            break;
        }
        case 18: {
            int nd = g.i(1, 4);
            kdtree* t = kd_create(nd);
            for (int q = g.i(0, 3); q > 0; --q) {
                if (g.p(0.5)) { double x[4] = {g.u(), g.u(), g.u(), g.u()}; kd_insertnode(t, x, q); continue; }
                int m = g.i(0, 150);
                vector<vector<double>> A(nd, vector<double>(m + 1));
                vector<double*> s;
                for (auto& v : A) { for (auto& x : v) x = g.p(0.05) ? NAN : g.u(); s.push_back(v.data()); }
                kd_insertnodes(t, m, s.data(), g.i(0, 1));
            }
            kts.push_back(t); ktd.push_back(nd);
            break;
        }
        case 19: {
            if ((k = PICK(kts)) < 0) return;
            block("tree queries", [&] {
                for (int q = g.i(1, 10); q > 0; --q) {
                    double x[4] = {g.u(), g.u(), g.u(), g.u()}, d;
                    if (kd_getsize(kts[k])) kd_findnearestnode(kts[k], x);
                    kdset* s = kd_findnodeswithinrange(kts[k], x, g.u(0, 1), g.i(0, 1));
                    int lim = g.p(0.5) ? INT_MAX : g.i(0, 5);
                    while (lim-- > 0 && kdset_read(s, &d) != SIZE_MAX) ;
                    kdset_getsize(s);
                    kdset_free(s);
                }
            });
            break;
        }
        case 20: {
            poly* p = poly_create();
            for (int q = g.i(0, 120); q > 0; --q) poly_addpoint(p, g.i(0, 5), g.i(0, 5));
            pls.push_back(p);
            break;
        }
        case 21: {
            if ((k = PICK(pls)) < 0) return;
            poly* p = pls[k];
            switch (g.i(0, 10)) {
            case 0: poly_addpointat(p, g.i(0, p->n), g.u(0, 5), g.u(0, 5)); break;
            case 1: { poly* q = pls[g.i(0, (int) pls.size() - 1)]; if (q != p && p->n + q->n < 20000) poly_append(p, q); break; }
            case 2: poly_close(p); break;
            case 3: pls.push_back(poly_copy(p)); break;
            case 4: if (p->n) poly_deletepoint(p, g.i(0, p->n - 1)); break;
            case 5: poly_despike(p, 0.5); break;
            case 6: poly_resample(p, 0.5); break;
            case 7: poly_reverse(p); break;
            case 8: poly_compact(p, 1e-10); break;
            case 9: poly_clear(p); break;
            default: poly_containspoint(p, g.u(0, 5), g.u(0, 5)); poly_findindex(p, 1, 1); poly_area(p); break;
            }
            break;
        }
        case 22: {
            if (!(gn = corner()) || gridnodes_getnce1(gn) < 1 || gridnodes_getnce2(gn) < 1) return;
            if (!usedgn(gn)) gridnodes_validate(gn);
            pls.push_back(g.p(0.5) ? poly_formbound(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn)) : poly_formboundij(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn)));
            break;
        }
        case 23: {
            FILE* f = gu_fopen(pfile.c_str(), "r");
            poly* p = poly_create();
            poly_read(p, f);
            fclose(f);
            f = gu_fopen(out.c_str(), "w");
            poly_write(p, f);
            fclose(f);
            pls.push_back(p);
            break;
        }
        case 24: arr.push_back(gu_alloc2d(g.i(1, 20), g.i(1, 20), g.i(1, 16))); break;
        default: destroy(false); break;
        }
        kinds.insert(o);
        opcount[o]++;
    }
};
void run_case(Case& c)
{
    Rng& g = c.rng;
    vector<NG> pool;
    vector<string> files;
    uint64_t seed = g.next();
    for (int k = 0; k < 4; ++k) {
        Grid r = gen_disc_grid(c, 10);
        NG n(r.n1 + 1, r.n2 + 1, NT_COR);
        n.X = r.X; n.Y = r.Y;
        if (k == 1) n = m_co2(n, NT_DD).g;
        if (k == 2) n = m_co2(n, NT_CEN).g;
        if (n.t == NT_COR && g.p(0.1)) for (auto& x : n.X) x = NAN;
        for (size_t q = 0; q < n.X.size(); ++q) if (std::isnan(n.X[q])) n.Y[q] = NAN;
        pool.push_back(n);
        files.push_back(wf(fmt("g%d.txt", k).c_str()));
        writefile(files.back(), ng_text(n));
    }
    string pf = wf("p.txt"), s = "# polyline\n\n";
    for (int k = 0; k < 30; ++k) s += fmt("%d %d\n", g.i(0, 9), g.i(0, 9));
    writefile(pf, s);
    int nops = g.i(5, 60), nk = 0, quit = 0;
    size_t b[3];
    int f[3];
    string msg;
    growth[0] = 0;
    for (int pass = 0; pass < 3; ++pass) {
        {
            Hist h(seed);
            h.pool = &pool; h.files = &files; h.out = wf("o.txt"); h.pfile = pf;
            try {
                for (int k = 0; k < nops; ++k) h.op();
                h.destroy(true);
            } catch (QuitEx& q) { msg = q.msg; quit = 1; }
            nk = (int) h.kinds.size();
        }
        if (quit) break;
        b[pass] = live();
        f[pass] = nfds();
    }
    if (quit) {             // masking or subsetting left a grid that is not simply connected: the program would end here
        count("histories ended by a refusal");
        for (int k = 0; k < NOPS; ++k) opcount[k] = 0;
        return;
    }
    evals(5);
    if (growth[0]) fail("growth", "%s", growth);
    if (b[1] != b[0] || b[2] != b[1]) fail("memory", "history of %d operations: %zu bytes allocated after the first time, %zu after the second, %zu after the third, although all objects were destroyed", nops, b[0], b[1], b[2]);
    if (f[1] != f[0] || f[2] != f[1]) fail("files", "history of %d operations: %d descriptors open after the first time, %d after the second, %d after the third", nops, f[0], f[1], f[2]);
    for (int k = 0; k < NOPS; ++k) if (opcount[k]) { count((string("operations: ") + OPNAME[k]).c_str(), opcount[k]); opcount[k] = 0; }
    count("histories");
    if (nk >= 5) nontrivial(seed);
    if (c.no < 3) sample(fmt("%d operations of %d kinds, three times: %zu bytes, %d descriptors each time", nops, nk, b[0], f[0]));
}
