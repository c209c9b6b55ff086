#include "common.hpp"
const char* PROP = "C28";
const char* RULE = "the search program at the end of kdtree.c (compiled with -DSTANDALONE, AddressSanitizer or MemorySanitizer) reads files of up to 5000 points of 1 to 8 dimensions (lattice with ties, repeated, clustered, sorted, random, without finite first coordinate) with comments, blank and incomplete lines and any separators, in plain or geographic mode, shuffled or not, and searches the nearest point or those within a radius (zero, on a distance, huge, negative, infinite), sorted or not; its output is compared with exhaustive search in the written order of options; missing or wrong options must be refused; non-trivial if a proper part of the points was found or the nearest among several; distinct by file and options";
long ncases(bool t) { return t ? 60000 : 10000; }

static const long double RE = 6371.0L, PI = 3.14159265358979323846264338327950288L;
typedef long double ld;
static string number(Rng& g, double v)
{
    if (std::isnan(v)) return "nan";
    switch (g.i(0, 4)) {
    case 0: return fmt("%.17g", v);
    case 1: return fmt("%.3f", v);
    case 2: return fmt("%g", v);
    case 3: return (!std::signbit(v) && g.p(0.3) ? "+" : "") + fmt("%.6e", v);
    default: return fmt("%.10g", v);
    }
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    bool geo = g.p(0.35), sorted = g.p(0.5), keep = g.p(0.4), range = g.p(0.6), hasfile = true;
    int nd = geo ? 2 : g.p(0.5) ? g.i(1, 3) : g.i(1, 8), bad = g.p(0.08) ? g.i(1, 8) : 0;
    int n = g.p(0.05) ? 0 : g.p(0.05) ? g.i(1000, 5000) : g.p(0.2) ? 1 : g.i(1, 200), kind = g.i(0, 4);
    if (kind == 4 && n > 1500) n = 1500;
    if (large(g) && g.p(0.25)) { n = g.i(60000, 70000); kind = g.i(0, 2); count("tens of thousands of points"); }
    if (bad == 8) n = std::max(n, 1);
    double scale = geo ? 1 : pow(10, g.i(-2, 5));
    vector<vector<double>> P;           // as read, in order
    string in;
    vector<double> centre(nd);
    for (auto& x : centre) x = g.u(-50, 50);
    for (int k = 0; k < n; ++k) {
        if (g.p(0.04)) in += g.p(0.5) ? "# a comment 1 2 3\n" : "\n";
        if (g.p(0.02) && nd > 1) in += "5\n";
        if (g.p(0.02)) in += "text\n";
        vector<double> p(nd);
        if (!P.empty() && g.p(0.08)) p = g.pick(P);
        else for (int d = 0; d < nd; ++d) {
            double lim = geo ? (d ? 90 : g.p(0.8) ? 180 : 360) : 100;
            double v = kind == 0 ? g.i(-4, 4) * lim / 4 : kind == 1 ? g.u(-lim, lim) : kind == 2 ? std::max(-lim, std::min(lim, centre[d] + g.u(-1, 1))) : kind == 3 ? g.i(-2, 2) * lim / 4 : -lim + 2 * lim * k / n;
            p[d] = v * scale;
        }
        string l;
        bool nan = g.p(0.01);
        for (int d = 0; d < nd; ++d) {
            string s = number(g, d == 0 && nan ? NAN : p[d]);
            p[d] = strtod(s.c_str(), NULL);
            if (geo && d == 1 && fabs(p[d]) > 90) { p[d] = copysign(90, p[d]); s = fmt("%g", p[d]); }
            l += (d ? g.pick(vector<string>{" ", " ", ",", ";", "\t", "  ", ", "}) : string(g.p(0.1) ? "  " : "")) + s;
        }
        if (g.p(0.1)) l += " 77 more";
        in += l + (k == n - 1 && g.p(0.3) ? "" : "\n");
        P.push_back(p);
    }
    // the place to search around, as printed
    vector<string> zs(nd);
    vector<double> z(nd);
    bool atnode = !P.empty() && g.p(0.3);
    int at = P.empty() ? 0 : g.i(0, (int) P.size() - 1);
    for (int d = 0; d < nd; ++d) {
        double lim = geo ? (d ? 90 : 180) : 100;
        double v = atnode ? P[at][d] : kind == 0 && g.p(0.5) ? g.i(-8, 8) * lim / 8 * scale : kind == 2 && g.p(0.7) ? std::max(-lim, std::min(lim, centre[d] + g.u(-2, 2))) * scale : g.u(-lim, lim) * scale;
        if (!std::isfinite(v)) v = 0;
        if (geo && d == 1 && fabs(v) > 90) v = copysign(90, v);
        string s = fmt(g.p(0.5) ? "%.17g" : "%.4f", v);
        if (s[0] == '0' && s[1] == '.' && g.p(0.5)) s = s.substr(1);
        if (s[0] == '-' && s[1] == '0' && s[2] == '.' && g.p(0.5)) s = "-" + s.substr(2);
        if (s[0] != '-' && g.p(0.1)) s = "+" + s;
        zs[d] = s;
        z[d] = strtod(s.c_str(), NULL);
    }
    auto xyz = [&](const vector<double>& p) {
        vector<ld> r(p.begin(), p.end());
        if (geo) {
            ld lon = p[0] * PI / 180, lat = p[1] * PI / 180;
            r = {RE * sinl(lon) * cosl(lat), RE * cosl(lon) * cosl(lat), RE * sinl(lat)};
        }
        return r;
    };
    vector<ld> Z = xyz(z), D(P.size()), D2(P.size(), NAN);
    ld mag = geo ? RE : 0, best = INFINITY, best2 = INFINITY;
    // coordinates of which squares of distances are free of rounding: exact answers
    auto plain = [](double v) { return fabs(v) <= 1e5 && v * 256 == floor(v * 256); };
    bool exact = !geo;
    for (double v : z) exact = exact && plain(v);
    for (auto& q : P) if (std::isfinite(q[0])) for (double v : q) exact = exact && plain(v);
    for (ld x : Z) mag = std::max(mag, fabsl(x));
    size_t nfin = 0;
    for (size_t k = 0; k < P.size(); ++k) {
        if (!std::isfinite(P[k][0])) { D[k] = NAN; continue; }
        nfin++;
        vector<ld> q = xyz(P[k]);
        ld s = 0;
        for (size_t d = 0; d < q.size(); ++d) { s += (q[d] - Z[d]) * (q[d] - Z[d]); mag = std::max(mag, fabsl(q[d])); }
        D[k] = sqrtl(s);
        D2[k] = s;
        best2 = std::min(best2, s);
        best = std::min(best, D[k]);
    }
    // rounding: of coordinates and of squares
    ld tol = 32 * DBL_EPSILON * mag * sqrtl(nd + 1);
    double rad = 0;
    string rs;
    if (range) {
        int rk = g.i(0, 9);
        ld pick = P.empty() || std::isnan(D[at]) ? 1 : D[g.i(0, (int) P.size() - 1)];
        if (std::isnan(pick)) pick = 1;
        rad = rk == 0 ? 0 : rk == 1 ? -g.u(1, 100) * scale : rk == 2 ? 1e9 * scale : rk <= 5 ? (double) pick : g.u(0, 1.5) * (double) pick;
        if (exact && rk >= 3 && g.p(0.85)) {
            // whole distances, if any
            vector<double> w = {rad};
            for (ld x : D) if (!std::isnan(x) && x == floorl(x)) w.push_back((double) x);
            rad = g.pick(w);
        }
        rs = fmt(g.p(0.7) ? "%.17g" : "%.2f", rad);
        if (rk == 2 && g.p(0.2)) rs = "inf";
        rad = strtod(rs.c_str(), NULL);
        exact = exact && plain(rad);
    }
    vector<vector<string>> opt;
    RunOpt o;
    if (bad == 1) hasfile = false;
    if (!hasfile) opt.push_back({"-i", wf("none.txt")});
    else if (g.p(0.3)) { o.usein = true; o.in = in; opt.push_back({"-i", g.p(0.5) ? "-" : "stdin"}); count("points from standard input"); }
    else { writefile(wf("p.txt"), in); opt.push_back({"-i", wf("p.txt")}); }
    if (bad == 2) { if (g.p(0.5)) opt.push_back({"-n", g.p(0.5) ? "0" : "-2"}); }
    else if (bad == 3) opt.push_back({"-n", "257"});
    else if (geo) { opt.push_back({"-g"}); if (g.p(0.1)) opt.push_back({"-n", "2"}); }
    else opt.push_back({"-n", fmt("%d", nd)});
    vector<string> p = {"-p"};
    p.insert(p.end(), zs.begin(), zs.end());
    if (bad == 4) p.pop_back();
    if (bad == 5) { int m = g.p(0.3) ? 400 : 1; while (m--) p.push_back("1"); }
    if (bad != 6) { if (p.size() > 1) opt.push_back(p); }
    if (range) opt.push_back({"-r", rs});
    if (sorted) opt.push_back({"-s"});
    if (keep) opt.push_back({"-o"});
    vector<string> a = {"kd"};
    while (!opt.empty()) { int k = g.i(0, (int) opt.size() - 1); for (auto& s : opt[k]) a.push_back(s); opt.erase(opt.begin() + k); }
    if (bad == 7) a.push_back(g.pick(vector<string>{"-i", "-n", "-p", "-r"}));
    if (bad == 8) { bad = 0; }
    bool ms = g.p(0.3);
    if (ms) o.dir = G.msan;
    string what = fmt("%d points of %d dimensions: ", n, nd) + cmdline(a).substr(0, 600);
    Run t = run_tool(a, o);
    evals();
    if (bad) {
        static const char* W[] = {"", "no such file", "no dimension", "too many dimensions", "too few coordinates", "too many coordinates", "no coordinates", "no value after the last option"};
        if (!t.refused() || t.err.empty()) fail("refusal", "%s: %s, but status %d, message \"%s\"", what.c_str(), W[bad], t.status, t.err.substr(0, 200).c_str());
        count((string("refused: ") + W[bad]).c_str());
        return;
    }
    if (!t.ok()) fail("refused", "%s: status %d: %s", what.c_str(), t.status, t.err.substr(0, 300).c_str());
    count(ms ? "runs with MemorySanitizer" : "runs with AddressSanitizer");
    vector<string> L = lines(t.out);
    size_t q = 0, m = 0;
    // number of points
    for (; q < L.size(); ++q) { char e[8]; if (sscanf(L[q].c_str(), "%zu %7s", &m, e) == 2 && !strncmp(e, "points", 6)) break; }
    if (q == L.size() || m != nfin) fail("size", "%s: reports %zu points, %zu were given: %s", what.c_str(), m, nfin, t.out.substr(0, 300).c_str());
    if (nfin == 0) { count("no points"); return; }
    // the place
    string loc = "location = (";
    for (int d = 0; d < nd; ++d) loc += (d ? ", " : "") + fmt("%.6g", z[d]);
    if (t.out.find(loc + ")") == string::npos) fail("location", "%s: does not report \"%s)\": %s", what.c_str(), loc.c_str(), t.out.substr(0, 300).c_str());
    size_t nfound = 1;
    if (range) {
        size_t w = t.out.find(" points found");
        if (w == string::npos) fail("found", "%s: no number of points found: %s", what.c_str(), t.out.substr(0, 300).c_str());
        size_t b = w;
        while (b > 0 && isdigit((unsigned char) t.out[b - 1])) b--;
        nfound = strtoull(t.out.c_str() + b, NULL, 10);
        string rr = fmt("r < %.3g", rad);
        if (t.out.find(rr) == string::npos) fail("radius", "%s: does not report \"%s\": %s", what.c_str(), rr.c_str(), t.out.substr(0, 300).c_str());
    }
    // the table
    for (++q; q < L.size() && L[q].find("ID") == string::npos; ++q) ;
    vector<char> seen(P.size(), 0);
    ld last = -1;
    size_t rows = 0;
    for (++q; q < L.size(); ++q) {
        const char* s = L[q].c_str();
        char* e;
        vector<double> v;
        for (int d = 0; d < nd; ++d) { v.push_back(strtod(s, &e)); if (e == s) fail("row", "%s: row \"%s\"", what.c_str(), L[q].c_str()); s = e; }
        unsigned long long id = strtoull(s, &e, 10);
        if (e == s) fail("row", "%s: row \"%s\"", what.c_str(), L[q].c_str());
        s = e;
        double dist = strtod(s, &e);
        if (e == s || *e) fail("row", "%s: row \"%s\"", what.c_str(), L[q].c_str());
        rows++;
        evals();
        if (id >= P.size() || std::isnan(D[id])) fail("id", "%s: row \"%s\" is no point of the %zu", what.c_str(), L[q].c_str(), P.size());
        if (seen[id]++) fail("twice", "%s: point %llu reported twice", what.c_str(), id);
        for (int d = 0; d < nd; ++d) {
            ld w = P[id][d], er = fabsl(v[d] - w), al = 0.0005L * (1 + 1e-6L) + 4 * DBL_EPSILON * fabsl(w);
            if (geo) {
                ld cl = cosl(P[id][1] * PI / 180);
                if (d == 0) { er = fabsl(remainderl(v[d] - w, 360)); al += 1e-13L / std::max(fabsl(cl), 1e-16L); if (fabs(P[id][1]) == 90) er = 0; if (fabs(v[d]) > 180.0005) er = 1e9; }
                else al += 3e-6;
            }
            if (!(er <= al)) fail("coordinates", "%s: row \"%s\" for point %llu, coordinate %d of which is %.17g", what.c_str(), L[q].c_str(), id, d, P[id][d]);
        }
        if (!(fabsl(dist - D[id]) <= 0.0005L * (1 + 1e-6L) + tol + 4 * DBL_EPSILON * D[id] + (D[id] > 0 ? tol * tol / D[id] : 0))) fail("distance", "%s: row \"%s\", the distance is %.10Lg", what.c_str(), L[q].c_str(), D[id]);
        if (!range) { if (exact ? D2[id] > best2 : D[id] > best + 2 * tol) fail("nearest", "%s: reports point %llu at %.17Lg, there is one at %.17Lg", what.c_str(), id, D[id], best); }
        else {
            if (!(rad >= 0) || (exact ? D2[id] > (ld) rad * rad : D[id] > rad + 2 * tol + 4 * DBL_EPSILON * rad)) fail("within", "%s: reports point %llu at %.17Lg, beyond %.17g", what.c_str(), id, D[id], rad);
            if (sorted && D[id] < last - 2 * tol) fail("order", "%s: row \"%s\" after one at %.17Lg", what.c_str(), L[q].c_str(), last);
            last = D[id];
        }
    }
    if (rows != nfound) fail("rows", "%s: %zu rows, %zu announced", what.c_str(), rows, nfound);
    if (range && rad >= 0)
        for (size_t k = 0; k < P.size(); ++k)
            if (!seen[k] && !std::isnan(D[k]) && (exact ? D2[k] <= (ld) rad * rad : D[k] < rad - 2 * tol - 4 * DBL_EPSILON * rad)) fail("lost", "%s: point %zu at %.17Lg is not reported within %.17g (%zu are)", what.c_str(), k, D[k], rad, rows);
    count(range ? "searches within a radius" : "searches for the nearest");
    count("points reported", rows);
    if (geo) count("geographic searches");
    if (exact) count("searches free of rounding");
    if (exact && range) for (ld x : D2) if (x == (ld) rad * rad) { count("searches with a point exactly at the radius"); break; }
    if (range ? rows > 0 && rows < nfin : nfin > 1) nontrivial(hashstr(in) ^ hashstr(cmdline(a), 5));
    sample(what + fmt(": %zu reported", rows));
}
