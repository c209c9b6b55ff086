#include "gn.hpp"
#include "polygen.hpp"
const char* PROP = "C32";
const char* RULE = "calls of library functions that cannot be carried out (files missing, empty, short, with inadmissible sizes or mask values; arrays of no or excessive size; unknown map kinds; empty index ranges; masks for corner nodes; unspecified node types; double density grids of even size; NaN vertices; output that cannot be opened or written), mixed with valid calls on the same objects: the function set by the caller must be called exactly once, with a message naming what is wrong, nothing may be written to standard output or error, the objects passed must be as before and remain usable, and valid calls must not call it; the default function must give the message on standard error after what was written to standard output, and end the process with status 1; non-trivial if at least 5 refusals were observed; distinct by the calls";
long ncases(bool t) { return t ? 400000 : 16000; }

static gu_quitfn DEFAULT = gu_quit;             // before the harness sets its own
static int calls[2];
static void quit0(char* format, ...) { va_list ap; va_start(ap, format); string s = vfmt(format, ap); va_end(ap); calls[0]++; throw QuitEx{s}; }
static void quit1(char* format, ...) { va_list ap; va_start(ap, format); string s = vfmt(format, ap); va_end(ap); calls[1]++; throw QuitEx{s}; }

struct Bad { string name; vector<string> words; std::function<void()> f; };    // words: parts of the message

static string header(Rng& g, int nx, int ny, int n)
{
    string s = fmt("## %d x %d\n", nx, ny);
    for (int k = 0; k < n; ++k) s += g.p(0.1) ? string("NaN NaN\n") : fmt("%d %d\n", k, k * k % 17);
    return s;
}
static Bad gen_bad(Rng& g, gridnodes** gn, NG* n, poly* pl, Grid& r)
{
    string f = wf("bad.txt"), none = wf("none") + fmt("/%d.txt", g.i(0, 999));
    auto file = [&](const string& s) { writefile(f, s); return f; };
    NODETYPE t = (NODETYPE) g.i(1, 3);
    int nx = g.i(1, 9), ny = g.i(1, 9);
    if (t == NT_DD) { nx |= 1; ny |= 1; }
    switch (g.i(0, 21)) {
    case 0: return {"grid file missing", {none, "could not open"}, [=]() { gridnodes_read((char*) none.c_str(), t); }};
    case 1: file(""); return {"grid file empty", {f, "empty"}, [=]() { gridnodes_read((char*) f.c_str(), t); }};
    case 2: {
        static const char* H[] = {"#\n", "## 5\n", "5 x 5\n", "## x 5\n", "##5 y 5\n", "\n", "## five x 5\n", "# 5 x 5\n", "## 5 * 5\n"};
        file(H[g.i(0, 8)] + header(g, 5, 5, 25).substr(9));
        return {"header", {f, "size"}, [=]() { gridnodes_read((char*) f.c_str(), t); }};
    }
    case 3: { int a = g.p(0.5) ? 0 : -g.i(1, 1000000), b = g.i(1, 9) | 1; bool q = g.p(0.5); file(header(g, q ? a : b, q ? b : a, 9)); return {"size not positive", {fmt("%s = %d", q ? "nx" : "ny", a)}, [=]() { gridnodes_read((char*) f.c_str(), t); }}; }
    case 4: { int a = g.i(1, 1 << 14) * 2 + 46341, b = 2147483647 / a + g.i(1, 1000); a |= 1; b |= 1; file(header(g, a, b, 3)); return {"size excessive", {fmt("%d", a), fmt("%d", b), "big"}, [=]() { gridnodes_read((char*) f.c_str(), t); }}; }
    case 5: { int a = g.i(1, 4) * 2, b = g.i(0, 4) * 2 + 1; bool q = g.p(0.5); file(header(g, q ? a : b, q ? b : a, a * b)); return {"double density file of even size", {fmt("%s = %d", q ? "nx" : "ny", a), "odd"}, [=]() { gridnodes_read((char*) f.c_str(), NT_DD); }}; }
    case 6: { int k = g.i(0, nx * ny - 1); file(header(g, nx, ny, k)); return {"grid file short", {f, fmt("%d-th", k + 1), fmt("%d x %d", nx, ny)}, [=]() { gridnodes_read((char*) f.c_str(), t); }}; }
    case 7: return {"mask file missing", {none, "could not open"}, [=]() { gu_readmask((char*) none.c_str(), nx, ny); }};
    case 8: case 9: {
        int k = g.i(0, nx * ny - 1), bad = g.p(0.5);
        static const char* V[] = {"2", "", " 1", "1 ", "x", "-1", "00", "0.0", "NaN", "1\r", "true"};
        string s, v = V[g.i(0, 10)];
        for (int q = 0; q < k; ++q) s += g.p(0.5) ? "1\n" : "0\n";
        if (bad) { s += v + "\n"; for (int q = k + 1; q < nx * ny; ++q) s += "1\n"; }
        file(s);
        vector<string> w = {f, fmt("%d-th", k + 1)};
        if (bad) w.push_back("\"" + v + "\"");
        return {bad ? "mask value" : "mask file short", w, [=]() { gu_readmask((char*) f.c_str(), nx, ny); }};
    }
    case 10: { size_t a = g.p(0.5) ? 0 : (size_t) -1 - (size_t) g.i(0, 1000), b = (size_t) g.i(0, 9); bool q = g.p(0.5); return {"array without or of excessive size", {"gu_alloc2d"}, [=]() { if (!a || b) gu_alloc2d(q ? a : b, q ? b : a, 8); else gu_alloc2d(a, 3, 8); }}; }
    case 11: { int a = -g.i(0, 100), b = g.i(1, 9); bool q = g.p(0.5); return {"grid of no size", {"invalid size"}, [=]() { gridnodes_create(q ? a : b, q ? b : a, t); }}; }
    case 12: { int k = g.p(0.5) ? g.i(2, 100) : -g.i(1, 100); Grid* R = &r; return {"unknown map kind", {fmt("%d", k), "type"}, [=]() { gridmap_build(R->n1, R->n2, R->gx(), R->gy(), k); }}; }
    case 13: { int q = g.i(0, 2), NX = n[q].nx, NY = n[q].ny, a[4] = {0, NX - 1, 0, NY - 1}; gridnodes* G1 = gn[q];
        switch (g.i(0, 3)) {
        case 0: a[0] = NX + g.i(0, 5); a[1] = a[0] + g.i(0, 3); break;
        case 1: a[1] = -g.i(1, 5); a[0] = a[1] - g.i(0, 3); break;
        case 2: a[2] = NY + g.i(0, 5); a[3] = a[2]; break;
        default: a[3] = g.i(-3, NY - 2); a[2] = a[3] + g.i(1, 4); if (a[2] < 0) a[3] = -1; if (a[2] <= 0 && a[3] < 0) a[2] = 0; break;
        }
        int a0 = a[0], a1 = a[1], a2 = a[2], a3 = a[3];
        return {"empty index range", {"subgrid", "empty"}, [=]() { gridnodes_subgrid(G1, a0, a1, a2, a3); }}; }
    case 14: { gridnodes* G1 = gn[2]; int NX = n[2].nx - 1, NY = n[2].ny - 1; return {"mask for corner nodes", {"mask", nodetype2str[NT_COR]}, [=]() { int** m = (int**) gu_alloc2d(NY, NX, sizeof(int)); try { gridnodes_applymask(G1, m); } catch (QuitEx&) { gu_free2d(m); throw; } gu_free2d(m); }}; }
    case 15: { int k = g.i(0, 3), t = g.i(1, 3); return {"no node type", {"not specified"}, [=]() {
        gridnodes* z = gridnodes_create(nx, ny, NT_NONE);
        int row[10] = {}; int* m[10]; for (auto& q : m) q = row;
        try { if (k == 0) gridnodes_getnce1(z); else if (k == 1) gridnodes_getnce2(z); else if (k == 2) gridnodes_applymask(z, m); else { gridnodes* y = gridnodes_transform(z, (NODETYPE) t); gridnodes_destroy(y); } } catch (QuitEx&) { gridnodes_destroy(z); throw; }
        gridnodes_destroy(z);
    }}; }
    case 16: { int a = g.i(1, 5) * 2, b = g.i(1, 9), k = g.i(0, 1); bool q = g.p(0.5); return {"double density grid of even size", {fmt("%d", a), fmt("%d", b), "odd"}, [=]() {
        gridnodes* z = gridnodes_create(q ? a : b, q ? b : a, NT_DD);
        try { if (k) gridnodes_validate(z); else { gridnodes* y = gridnodes_transform(z, NT_COR); gridnodes_destroy(y); } } catch (QuitEx&) { gridnodes_destroy(z); throw; }
        gridnodes_destroy(z);
    }}; }
    case 17: { int k = g.i(0, 2), at = g.p(0.5) ? -1 : g.i(0, pl->n); double v = g.u(-9, 9); return {"NaN vertex", {"NaN"}, [=]() { if (at < 0) poly_addpoint(pl, k != 1 ? QNAN : v, k != 0 ? QNAN : v); else poly_addpointat(pl, at, k != 1 ? QNAN : v, k != 0 ? QNAN : v); }}; }
    case 18: { int q = g.i(0, 2); gridnodes* G1 = gn[q]; return {"output cannot be opened", {none, "could not open"}, [=]() { gridnodes_write(G1, (char*) none.c_str(), (COORDTYPE) 2); }}; }
    case 19: { int q = g.i(0, 2), c = g.i(0, 2); gridnodes* G1 = gn[q]; return {"output cannot be written", {"/dev/full", "writing"}, [=]() { gridnodes_write(G1, (char*) "/dev/full", (COORDTYPE) c); }}; }
    case 20: { bool w = g.p(0.5); return {"file cannot be opened", {none, "could not open", w ? "\"w\"" : "\"r\""}, [=]() { gu_fopen(none.c_str(), w ? "w" : "r"); }}; }
    default: { int k = g.p(0.5) ? g.i(2, 100) : -g.i(1, 100); gridnodes* G1 = gn[2]; return {"unknown map kind of a grid", {fmt("%d", k), "type"}, [=]() { int old = gridnodes_getmaptype(G1); gridnodes_setmaptype(G1, k); try { gridmap_build2(G1); } catch (QuitEx&) { gridnodes_setmaptype(G1, old); throw; } gridnodes_setmaptype(G1, old); }}; }
    }
}
static long fsz(int fd) { struct stat st; return fstat(fd, &st) == 0 ? (long) st.st_size : -1; }

void run_case(Case& c)
{
    Rng& g = c.rng;
    NG n[3];
    gridnodes* gn[3];
    for (int k = 0; k < 3; ++k) {
        int a = g.i(2, 9), b = g.i(2, 9);
        if (k == 0) { a |= 1; b |= 1; }
        n[k] = NG(a, b, (NODETYPE) (k + 1));
        vector<char> v((size_t) a * b);
        for (auto& x : v) x = !g.p(0.2);
        fill_values(g, n[k], v, true);
        gn[k] = ng_make(n[k]);
    }
    Grid r = gen_disc_grid(c, 6);
    poly* pl = poly_create();
    vector<std::pair<double, double>> pts;
    uint64_t h = 1;
    int refused = 0, nsteps = g.i(8, 30);
    gu_quitfn Q[2] = {quit0, quit1};
    int cur = 0;
    gu_quitfn old = gu_quit;
    struct Restore { gu_quitfn q; ~Restore() { gu_setquitfn(q); } } restore{old};
    gu_setquitfn(Q[0]);
    auto intact = [&](const string& what) {
        for (int k = 0; k < 3; ++k) ng_compare("object changed", "after \"" + what + "\"", ng_get(gn[k], n[k].t), n[k]);
        evals();
        if (pl->n != (int) pts.size()) fail("object changed", "after \"%s\": polyline has %d points instead of %zu", what.c_str(), pl->n, pts.size());
        for (size_t k = 0; k < pts.size(); ++k) if (!same(pl->x[k], pts[k].first) || !same(pl->y[k], pts[k].second)) fail("object changed", "after \"%s\": point %zu of the polyline is (%g, %g)", what.c_str(), k, pl->x[k], pl->y[k]);
    };
    for (int s = 0; s < nsteps; ++s) {
        if (g.p(0.15)) { cur = 1 - cur; gu_setquitfn(Q[cur]); }
        int before[2] = {calls[0], calls[1]};
        fflush(stdout);
        long o1 = fsz(1), o2 = fsz(2);
        if (g.p(0.3)) {
            // valid calls
            int k = g.i(0, 5), q = g.i(0, 2);
            string msg;
            const char* name = "";
            bool gave = quits([&]() {
                switch (k) {
                case 0: { name = "subgrid"; int i = g.i(0, n[q].nx - 1), j = g.i(0, n[q].ny - 1); gridnodes* z = gridnodes_subgrid(gn[q], i - g.i(0, 3) * (i == 0), i + g.i(0, 9), 0, j); gridnodes_destroy(z); break; }
                case 1: { name = "copy"; gridnodes_destroy(gridnodes_copy(gn[q])); break; }
                case 2: { name = "writing and reading"; string f = wf("ok.txt"); gridnodes_write(gn[q], (char*) f.c_str(), (COORDTYPE) 2); gridnodes_destroy(gridnodes_read((char*) f.c_str(), n[q].t)); break; }
                case 3: { name = "adding a point"; double x = g.u(-9, 9), y = g.i(-9, 9); poly_addpoint(pl, x, y); pts.push_back({x, y}); break; }
                case 4: { name = "building a map"; for (int m = 0; m < 2; ++m) gridmap_destroy(gridmap_build(r.n1, r.n2, r.gx(), r.gy(), m)); break; }
                default: { name = "mask file"; string f = wf("ok.txt"), t; for (int z = 0; z < 6; ++z) t += z % 2 ? "1\n" : "0\n"; writefile(f, t); gu_free2d(gu_readmask((char*) f.c_str(), 2, 3)); gridnodes_getnce1(gn[q]); gridnodes_getnce2(gn[q]); }
                }
            }, &msg);
            evals();
            if (gave) fail("valid refused", "%s (%s): \"%s\"", name, n[q].desc().c_str(), msg.c_str());
            if (calls[0] != before[0] || calls[1] != before[1]) fail("valid refused", "%s: the quit function was called", name);
            intact(name);
            count("valid calls");
            continue;
        }
        Bad b = gen_bad(g, gn, n, pl, r);
        string msg;
        bool gave = quits(b.f, &msg);
        evals(4);
        fflush(stdout);
        if (!gave) fail("not refused", "%s: the call came back", b.name.c_str());
        if (calls[cur] != before[cur] + 1 || calls[1 - cur] != before[1 - cur]) fail("quit function", "%s: the quit function was called %d times, the one set before %d times", b.name.c_str(), calls[cur] - before[cur], calls[1 - cur] - before[1 - cur]);
        for (auto& w : b.words) if (msg.find(w) == string::npos) fail("message", "%s: message \"%s\" says nothing about \"%s\"", b.name.c_str(), msg.c_str(), w.c_str());
        if (fsz(1) != o1 || fsz(2) != o2) fail("output", "%s: something was written to standard output or error", b.name.c_str());
        intact(b.name);
        count(("refused: " + b.name).c_str());
        h = hashstr(b.name, h) ^ hashstr(msg);
        refused++;
        if (g.p(0.06)) {
            // the default function
            string fo = wf("child.out"), fe = wf("child.err"), pre = fmt("before %d", g.i(0, 999));
            pid_t p = fork();
            if (p < 0) { fprintf(stderr, "harness: fork\n"); exit(3); }
            if (p == 0) {
                int a = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
                dup2(a, 1); dup2(e, 2);
                gu_setquitfn(DEFAULT);
                printf("%s", pre.c_str());
                try { b.f(); } catch (...) { _exit(78); }
                _exit(77);
            }
            int st;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR);
            string o = readfile(fo), e = readfile(fe);
            evals(3);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) fail("default", "%s with the default quit function: status %d%s", b.name.c_str(), WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), st == 77 << 8 ? " (the call came back)" : "");
            if (o != pre) fail("default", "%s with the default quit function: standard output is \"%s\" instead of \"%s\"", b.name.c_str(), o.c_str(), pre.c_str());
            if (e.find(msg) == string::npos || e.find("error") == string::npos) fail("default", "%s with the default quit function: standard error is \"%s\", should have the message \"%s\"", b.name.c_str(), e.c_str(), msg.c_str());
            count("default quit function");
        }
    }
    for (auto* x : gn) gridnodes_destroy(x);
    poly_destroy(pl);
    if (refused >= 5) nontrivial(h);
    sample(fmt("%d steps, %d refused", nsteps, refused));
}
