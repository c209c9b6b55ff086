#define NOLARGE
#include "gn.hpp"
#include "polygen.hpp"
#include <thread>
#include <atomic>
#include <dirent.h>
#include <fenv.h>
#include <locale.h>
#include <sched.h>
extern "C" {
#include "gridaverager.h"
}
const char* PROP = "C30";
const char* RULE = "2-6 threads released together, each with a script of 6-24 steps on objects of its own (grids created, read, validated, converted, masked, subset, written, analysed; maps of both kinds built and queried in all ways; averagers; kd-trees; polylines) and on objects shared for reading (two maps, a tree, a polyline, a validated grid), with random delays; ThreadSanitizer watches every access, the results of each step are compared with those of the same script carried out alone, and the random number generators, strtok(), locale, rounding mode, environment, directory, umask, signal handlers, descriptors, standard streams and the library's two settings with what they were; non-trivial if steps of different threads alternated; distinct by the order in which the steps began";
long ncases(bool t) { return t ? 300000 : 8000; }

struct Shared { gridmap* gm[2]; Grid r[2]; kdtree* kd; int kdim; vector<double> kpos; poly* pl; IPoly ip; gridnodes* gn; NODETYPE gt; };
struct Step { int kind; uint64_t seed; int delay; };
enum { NK = 13 };
static const char* KIND[NK] = {"grid made and validated", "grid converted", "grid masked and subset", "grid written and read", "map built and queried", "averager", "tree built and queried", "polyline edited", "boundary", "shared map queried", "shared tree searched", "shared polyline asked", "shared grid copied, converted and written"};

static void hd(uint64_t& h, double v) { if (std::isnan(v)) v = QNAN; if (v == 0) v = 0; h = hashbytes(&v, 8, h); }
static void hgn(uint64_t& h, gridnodes* gn)
{
    int nx = gridnodes_getnx(gn), ny = gridnodes_getny(gn);
    h = mix64(h ^ (nx * 1000003ULL + ny));
    double **x = gridnodes_getx(gn), **y = gridnodes_gety(gn);
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { hd(h, x[j][i]); hd(h, y[j][i]); }
}
static void hpl(uint64_t& h, poly* p) { h = mix64(h ^ p->n); for (int k = 0; k < p->n; ++k) { hd(h, p->x[k]); hd(h, p->y[k]); } hd(h, p->e.xmin); hd(h, p->e.ymax); }
static void ask(uint64_t& h, gridmap* gm, int kind, double a, double b)
{
    int i = -9, j = -9, ok;
    double x = -9, y = -9;
    if (kind == 0) { ok = gridmap_xy2ij(gm, a, b, &i, &j) != 0; h = mix64(h ^ (ok ? 1 + i * 65537 + j : 0)); return; }
    ok = (kind == 1 ? gridmap_xy2fij(gm, a, b, &x, &y) : gridmap_fij2xy(gm, a, b, &x, &y)) != 0;
    h = mix64(h ^ ok);
    hd(h, x); hd(h, y);
}
static void ask_some(uint64_t& h, Rng& g, gridmap* gm, const Grid& r, bool all, int n)
{
    for (int k = 0; k < n; ++k) {
        int kind = all ? g.i(0, 2) : g.p(0.7) ? 0 : 2;
        if (kind == 2) ask(h, gm, 2, g.p(0.3) ? g.i(0, r.n1) : g.u(-1, r.n1 + 1), g.u(-1, r.n2 + 1));
        else { Pt p = gen_query(g, r); ask(h, gm, kind, p.x, p.y); }
    }
}
static void search_tree(uint64_t& h, Rng& g, kdtree* t, int dim, const vector<double>& pos)
{
    vector<double> q(dim);
    for (int n = g.i(1, 12); n > 0; --n) {
        for (int d = 0; d < dim; ++d) q[d] = g.p(0.2) ? pos[g.i(0, (int) pos.size() - 1)] : g.u(-1200, 1200);
        size_t id = kd_findnearestnode(t, q.data());
        h = mix64(h ^ id);
        if (id != SIZE_MAX) { h = mix64(h ^ kd_getnodeorigid(t, id)); hd(h, kd_getnodecoords(t, id)[0]); }
        kdset* s = kd_findnodeswithinrange(t, q.data(), g.u(0, 400), g.i(0, 1));
        h = mix64(h ^ kdset_getsize(s));
        double d;
        while ((id = kdset_read(s, &d)) != SIZE_MAX) { h = mix64(h ^ id); hd(h, d); }
        kdset_free(s);
    }
    h = mix64(h ^ kd_getsize(t));
}
static poly* mkpoly(const IPoly& ip)
{
    poly* p = poly_create();
    for (auto& q : ip) poly_addpoint(p, (double) q.first, (double) q.second);
    return p;
}
static void nodes_some(Rng& g, NG& n)
{
    NODETYPE t = (NODETYPE) g.i(1, 3);
    int nx = g.i(2, 12), ny = g.i(2, 12);
    if (t == NT_DD) { nx |= 1; ny |= 1; nx = std::max(nx, 3); ny = std::max(ny, 3); }
    n = NG(nx, ny, t);
    vector<char> pr((size_t) nx * ny, 1);
    if (t != NT_CEN && g.p(0.6)) pr = t == NT_DD ? dd_pattern(g, nx, ny) : random_nodes(g, nx, ny);
    fill_values(g, n, pr, true);
}
static uint64_t step(const Step& s, Shared& S, const string& mine)
{
    Rng g(s.seed);
    uint64_t h = s.kind;
    try {
        switch (s.kind) {
        case 0: case 1: case 2: case 3: {
            NG n;
            nodes_some(g, n);
            gridnodes* a = ng_make(n);
            gridnodes_setmaptype(a, g.i(0, 1));
            if (s.kind == 1 || s.kind == 0) gridnodes_validate(a);
            if (s.kind == 0) { gridnodes_calcstats(a); h = mix64(h ^ gridnodes_getnce1(a)); gridnodes* b = gridnodes_copy(a); hgn(h, b); gridnodes_destroy(b); }
            if (s.kind == 1) {
                gridnodes* b = gridnodes_transform(a, (NODETYPE) g.i(1, 3));
                if (b && b != a) { hgn(h, b); gridnodes_destroy(b); }
            }
            if (s.kind == 2) {
                if (n.t != NT_COR) {
                    gridnodes_validate(a);
                    int n1 = gridnodes_getnce1(a), n2 = gridnodes_getnce2(a);
                    string txt;
                    for (int k = 0; k < n1 * n2; ++k) txt += g.p(0.7) ? "1\n" : "0\n";
                    writefile(mine, txt);
                    int** m = gu_readmask((char*) mine.c_str(), n1, n2);
                    gridnodes_applymask(a, m);
                    gu_free2d(m);
                }
                gridnodes* b = gridnodes_subgrid(a, 0, g.i(0, n.nx - 1) & ~1, 0, g.i(0, n.ny - 1) & ~1);
                hgn(h, b);
                gridnodes_destroy(b);
            }
            if (s.kind == 3) {
                gridnodes_write(a, (char*) mine.c_str(), (COORDTYPE) 2);
                h = hashstr(readfile(mine), h);
                gridnodes* b = gridnodes_read((char*) mine.c_str(), n.t);
                hgn(h, b);
                gridnodes_destroy(b);
            }
            hgn(h, a);
            gridnodes_destroy(a);
            break;
        }
        case 4: case 5: {
            Case c{0, false, g};
            Grid r = gen_disc_grid(c, 8);
            g = c.rng;
            gridnodes* gn = to_gridnodes(r.X, r.Y, r.n1 + 1, r.n2 + 1, NT_COR);
            gridnodes_setmaptype(gn, g.i(0, 1));
            gridnodes_validate(gn);
            from_gridnodes(gn, r.X, r.Y);
            gridmap* gm = gridmap_build2(gn);
            if (s.kind == 4) ask_some(h, g, gm, r, true, g.i(5, 40));
            else {
                gridaverager* ga = ga_create(gm);
                vector<point> p(g.i(1, 40));
                for (auto& q : p) { Pt z = gen_query(g, r); q.x = z.x; q.y = z.y; q.z = g.i(-50, 50); }
                ga_addpoints(ga, (int) p.size(), p.data());
                for (auto& q : p) { ga_getvalue(ga, &q); hd(h, q.z); }
                ga_destroy(ga);
            }
            gridmap_destroy(gm);
            gridnodes_destroy(gn);
            break;
        }
        case 6: {
            int dim = g.i(1, 4), n = g.i(1, 120);
            vector<vector<double>> a(dim, vector<double>(n));
            vector<double*> src;
            vector<double> pos;
            for (auto& v : a) { for (auto& x : v) { x = g.p(0.2) ? g.i(-5, 5) : g.u(-1000, 1000); pos.push_back(x); } src.push_back(v.data()); }
            kdtree* t = kd_create(dim);
            if (g.p(0.6)) kd_insertnodes(t, n, src.data(), g.i(0, 1));
            else for (int k = 0; k < n; ++k) { vector<double> q(dim); for (int d = 0; d < dim; ++d) q[d] = a[d][k]; kd_insertnode(t, q.data(), k); }
            search_tree(h, g, t, dim, pos);
            kd_destroy(t);
            break;
        }
        case 7: {
            poly* p = mkpoly(gen_ipoly(g));
            FILE* f;
            if (g.p(0.5)) poly_close(p);
            for (int k = g.i(1, 8); k > 0; --k) {
                int q = g.i(0, 8);
                if (q == 0) poly_reverse(p);
                else if (q == 1) poly_addpointat(p, g.i(0, p->n), g.i(-100, 100), g.i(-100, 100));
                else if (q == 2 && p->n > 0) poly_deletepoint(p, g.i(0, p->n - 1));
                else if (q == 3) { poly* z = poly_copy(p); poly_append(p, z); poly_destroy(z); }
                else if (q == 4) poly_compact(p, 1e-10);
                else if (q == 5) poly_despike(p, g.u(0, 20));
                else if (q == 6) poly_resample(p, g.u(0, 20));
                else if (q == 7) { hd(h, poly_area(p)); h = mix64(h ^ poly_isclosed(p, 1e-3)); h = mix64(h ^ (p->n > 2 && poly_containspoint(p, g.u(-100, 100), g.u(-100, 100)))); }
                else if (q == 8 && p->n > 0) {
                    if (!(f = fopen(mine.c_str(), "w"))) exit(3);
                    poly_write(p, f);
                    fclose(f);
                    if (!(f = fopen(mine.c_str(), "r"))) exit(3);
                    poly* z = poly_create();
                    while (poly_read(z, f) > 0 && z->n > 0) { hpl(h, z); if (feof(f)) break; }
                    fclose(f);
                    poly_destroy(z);
                }
                if (p->n > 3000) break;
            }
            hpl(h, p);
            poly_destroy(p);
            break;
        }
        case 8: {
            Case c{0, false, g};
            Grid r = gen_any_grid(c, 10);
            g = c.rng;
            gridnodes* gn = to_gridnodes(r.X, r.Y, r.n1 + 1, r.n2 + 1, NT_COR);
            gridnodes_validate(gn);
            from_gridnodes(gn, r.X, r.Y);
            poly* p = poly_formbound(r.n1, r.n2, r.gx(), r.gy());
            hpl(h, p);
            poly_compact(p, 1e-10);
            hpl(h, p);
            poly_destroy(p);
            p = poly_formboundij(r.n1, r.n2, r.gx());
            hpl(h, p);
            poly_destroy(p);
            gridnodes_destroy(gn);
            break;
        }
        case 9: { int k = g.i(0, 1); ask_some(h, g, S.gm[k], S.r[k], false, g.i(5, 60)); break; }
        case 10: search_tree(h, g, S.kd, S.kdim, S.kpos); break;
        case 11: {
            for (int k = g.i(5, 60); k > 0; --k) { auto& q = g.pick(S.ip); h = mix64(h ^ poly_containspoint(S.pl, q.first + g.i(-3, 3) * 0.5, q.second + g.i(-3, 3) * 0.5)); h = mix64(h ^ poly_findindex(S.pl, q.first, q.second)); }
            hd(h, poly_area(S.pl));
            poly* z = poly_copy(S.pl);
            hpl(h, z);
            poly_destroy(z);
            break;
        }
        default: {
            gridnodes* b = gridnodes_copy(S.gn);
            hgn(h, b);
            gridnodes_destroy(b);
            NODETYPE t = (NODETYPE) g.i(1, 3);
            if (t != S.gt) { b = gridnodes_transform(S.gn, t); if (b && b != S.gn) { hgn(h, b); gridnodes_destroy(b); } }
            b = gridnodes_subgrid(S.gn, 0, 2, 0, 2);
            hgn(h, b);
            gridnodes_destroy(b);
            gridnodes_write(S.gn, (char*) mine.c_str(), (COORDTYPE) 2);
            h = hashstr(readfile(mine), h);
            hgn(h, S.gn);
        }
        }
    } catch (QuitEx& q) { h = hashstr(q.msg.substr(0, 12), h ^ 77); }
    return h;
}

// ------------------------------------------------------------ state of the process
struct State {
    vector<std::pair<string, string>> v;
    void add(const string& n, const string& s) { v.push_back({n, s}); }
};
static State state()
{
    State s;
    char buf[4096];
    s.add("locale", setlocale(LC_ALL, NULL));
    s.add("rounding mode", fmt("%d", fegetround()));
    string e;
    for (char** p = environ; *p; ++p) e += string(*p) + "\n";
    s.add("environment", e);
    s.add("directory", getcwd(buf, sizeof buf) ? buf : "?");
    mode_t m = umask(022);
    umask(m);
    s.add("umask", fmt("%o", m));
    for (int k = 1; k < 65; ++k) {
        struct sigaction a;
        if (sigaction(k, NULL, &a) == 0) s.add(fmt("handler of signal %d", k), fmt("%p", (void*) a.sa_handler));
    }
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) { fprintf(stderr, "harness: cannot read /proc/self/fd\n"); exit(3); }
    while (readdir(d)) n++;
    closedir(d);
    s.add("open descriptors", fmt("%d", n));
    fflush(stdout);
    for (int k = 1; k <= 2; ++k) { struct stat st; fstat(k, &st); s.add(fmt("size of stream %d", k), fmt("%ld", (long) st.st_size)); }
    s.add("gu_verbose", fmt("%d", gu_verbose));
    s.add("gu_quit", fmt("%p", (void*) gu_quit));
    return s;
}

void run_case(Case& c)
{
    Rng& g = c.rng;
    static string wd = G.work;
    Shared S;
    for (int k = 0; k < 2; ++k) {
        S.r[k] = k ? gen_any_grid(c, 10) : gen_disc_grid(c, 10);
        gridnodes* gn = to_gridnodes(S.r[k].X, S.r[k].Y, S.r[k].n1 + 1, S.r[k].n2 + 1, NT_COR);
        gridnodes_validate(gn);
        from_gridnodes(gn, S.r[k].X, S.r[k].Y);
        gridnodes_destroy(gn);
        S.gm[k] = gridmap_build(S.r[k].n1, S.r[k].n2, S.r[k].gx(), S.r[k].gy(), k);
    }
    S.kdim = g.i(1, 3);
    S.kd = kd_create(S.kdim);
    for (int k = g.i(1, 100); k > 0; --k) { vector<double> q(S.kdim); for (auto& x : q) { x = g.p(0.3) ? g.i(-9, 9) : g.u(-1000, 1000); S.kpos.push_back(x); } kd_insertnode(S.kd, q.data(), k); }
    S.ip = gen_ipoly(g);
    S.pl = mkpoly(S.ip);
    {
        NG n;
        do nodes_some(g, n); while (n.nx < 3 || n.ny < 3);
        S.gt = n.t;
        S.gn = ng_make(n);
        gridnodes_setmaptype(S.gn, g.i(0, 1));
        gridnodes_validate(S.gn);
    }
    int nt = g.i(2, 6), focus = g.p(0.4) ? g.i(0, NK - 1) : -1;
    vector<vector<Step>> script(nt);
    for (auto& s : script) for (int k = g.i(6, 24); k > 0; --k) s.push_back({focus >= 0 && g.p(0.7) ? focus : g.i(0, NK - 1), g.next(), g.p(0.3) ? g.i(0, 3) : 0});
    vector<vector<uint64_t>> alone(nt), together(nt);
    vector<vector<unsigned>> ticket(nt);
    for (int t = 0; t < nt; ++t) { alone[t].assign(script[t].size(), 0); together[t] = alone[t]; ticket[t].assign(script[t].size(), 0); }
    auto file = [&](int t) { return wd + fmt("/thread%d.txt", t); };

    // a caller that has settings of its own: a library that "restores" the usual ones is found, too
    static const char* LOC[] = {"C.UTF-8", "C.utf8", "POSIX", "C"};
    for (int k = g.p(0.7) ? 0 : 3; k < 4; ++k) if (setlocale(LC_ALL, LOC[k])) { count((string("locale ") + LOC[k]).c_str()); break; }
    umask(g.p(0.5) ? 022 : 027);
    signal(SIGUSR1, g.p(0.5) ? SIG_IGN : SIG_DFL);
    signal(SIGFPE, g.p(0.5) ? SIG_IGN : SIG_DFL);
    State s0 = state();
    long seed = (long) (g.next() & 0x7fffffff);
    char text[] = "one two three";
    srand48(seed); srand((unsigned) seed);
    double d1 = drand48(), d2 = drand48(); int r1 = rand(), r2 = rand();
    srand48(seed); srand((unsigned) seed);
    if (drand48() != d1 || rand() != r1) { fprintf(stderr, "harness: generator\n"); exit(3); }
    strtok(text, " ");
    auto seq = [&]() { for (int t = 0; t < nt; ++t) for (size_t k = 0; k < script[t].size(); ++k) alone[t][k] = step(script[t][k], S, file(t)); };
    bool first = g.p(0.5);
    if (first) seq();
    std::atomic<unsigned> tick{0};
    std::atomic<int> ready{0};
    vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
        th.emplace_back([&, t]() {
            nocount = true;
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt) sched_yield();
            for (size_t k = 0; k < script[t].size(); ++k) {
                if (script[t][k].delay == 1) sched_yield();
                else if (script[t][k].delay) usleep(50 * script[t][k].delay);
                ticket[t][k] = tick.fetch_add(1, std::memory_order_relaxed);
                together[t][k] = step(script[t][k], S, file(t));
            }
        });
    for (auto& x : th) x.join();
    if (!first) seq();
    // oracle
    for (int t = 0; t < nt; ++t)
        for (size_t k = 0; k < script[t].size(); ++k) {
            evals();
            count((string("step: ") + KIND[script[t][k].kind]).c_str());
            if (alone[t][k] != together[t][k]) fail("result", "thread %d of %d, step %zu (%s, seed %llu): another result with other threads running than without", t, nt, k, KIND[script[t][k].kind], (unsigned long long) script[t][k].seed);
        }
    char* tk = strtok(NULL, " ");
    double e2 = drand48(); int q2 = rand();
    State s1 = state();
    evals(s1.v.size() + 3);
    if (!tk || strcmp(tk, "two")) fail("state", "strtok() of the caller goes on with \"%s\" instead of \"two\"", tk ? tk : "(null)");
    if (e2 != d2) fail("state", "the caller's drand48() sequence was changed: %.17g instead of %.17g", e2, d2);
    if (q2 != r2) fail("state", "the caller's rand() sequence was changed: %d instead of %d", q2, r2);
    for (size_t k = 0; k < s0.v.size(); ++k) if (s0.v[k] != s1.v[k]) fail("state", "%s: \"%s\" became \"%s\"", s0.v[k].first.c_str(), s0.v[k].second.substr(0, 200).c_str(), s1.v[k].second.substr(0, 200).c_str());
    // interleaving
    vector<std::pair<unsigned, int>> o;
    for (int t = 0; t < nt; ++t) for (auto x : ticket[t]) o.push_back({x, t});
    std::sort(o.begin(), o.end());
    uint64_t h = nt;
    int alt = 0;
    for (size_t k = 0; k < o.size(); ++k) { h = mix64(h ^ o[k].second); alt += k && o[k].second != o[k - 1].second; }
    count("steps with another thread's before", alt);
    count("threads", nt);
    if (alt > nt) nontrivial(h);
    for (int k = 0; k < 2; ++k) gridmap_destroy(S.gm[k]);
    kd_destroy(S.kd);
    poly_destroy(S.pl);
    gridnodes_destroy(S.gn);
    sample(fmt("%d threads, %zu steps, %d changes of thread", nt, o.size(), alt));
}
