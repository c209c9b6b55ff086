#include "scen.hpp"
const char* PROP = "C29";
const char* RULE = "valid runs of every tool and kind: with the options in another order, an option given twice, and positional arguments at other places the output must be the same bytes; with an unknown option at any place, a surplus argument, a required argument left out, an option lacking its value at the end, a range that is none, text where a number is expected, or a value the option does not admit (reversed or outside ranges, zero sizes, unknown node types, numbers and cells out of bounds), the tool must not produce output but refuse or print its usage; -v alone must print the version, -h the description; non-trivial if the run gives output and a variation was judged; distinct by scenario and variation";
long ncases(bool t) { return t ? 60000 : 6000; }

struct Opt { vector<string> a; };
// splits the arguments into options with their values and positional arguments
static vector<Opt> split(const string& tool, const vector<string>& a)
{
    auto nval = [&](char o) -> int {
        if (tool == "getbound") return o == 'i';
        if (tool == "getnodes") return o == 'i' || o == 'o' || o == 'm';
        if (tool == "insertgrid") return o == 'i';
        if (tool == "subgrid") return o == 'i' || o == 'j';
        if (tool == "setbathy") return strchr("ijdoz", o) != NULL;
        if (tool == "xy2ij") return o == 'i' || o == 'g' || o == 'o';
        return strchr("cr", o) ? 2 : strchr("abgimn", o) ? 1 : 0;       // gridbathy
    };
    vector<Opt> v;
    for (size_t k = 1; k < a.size();) {
        Opt o;
        o.a.push_back(a[k]);
        int n = a[k].size() > 1 && a[k][0] == '-' ? nval(a[k][1]) : 0;
        for (++k; n > 0 && k < a.size(); --n, ++k) o.a.push_back(a[k]);
        v.push_back(o);
    }
    return v;
}
static bool positional(const Opt& o) { return o.a[0][0] != '-'; }
static vector<string> join(const string& tool, const vector<Opt>& v)
{
    vector<string> a = {tool};
    for (auto& o : v) a.insert(a.end(), o.a.begin(), o.a.end());
    return a;
}
static string word(Rng& g)
{
    string s;
    if (g.p(0.1)) return "surplus";
    if (g.p(0.1)) return fmt("%d", g.i(0, 99));
    for (int n = g.i(0, 6); n > 0; --n) s += (char) (s.empty() || g.p(0.9) ? g.i('a', 'z') : g.i('0', '9'));
    return s;
}
void run_case(Case& c)
{
    Rng& g = c.rng;
    Scen s = gen_scen(c, true, 6);
    string tool = s.a[0];
    if (tool == "getnodes" && std::find(s.a.begin(), s.a.end(), "-p") != s.a.end() && g.p(0.7)) {      // across the date line
        string t;
        for (auto& l : lines(s.f[0])) {
            double x, y;
            if (sscanf(l.c_str(), "%lf %lf", &x, &y) == 2 && std::isfinite(x) && std::isfinite(y)) t += fmt("%.9g %.9g\n", remainder(x, 360 * 3) / 3 * (g.p(0.01) ? -1 : 1), remainder(y, 180));
            else t += l + "\n";
        }
        s.f[0] = t;
        count("grids across the date line");
    }
    RunOpt o;
    Scen d = s;
    vector<string> a = scen_args(s, -1, o);
    Run r = run_tool(a, o);
    vector<Opt> v = split(tool, a);
    string what = cmdline(a);
    uint64_t sig = s.sig();
    auto same = [&](const char* how, const vector<Opt>& w) {
        vector<string> b = join(tool, w);
        Run q = run_tool(b, o);
        evals();
        count((string("same: ") + how).c_str());
        if (q.status != r.status || q.out != r.out) fail("differs", "%s: %s: status %d, %zu bytes; %s: status %d, %zu bytes: %s", what.c_str(), how, r.status, r.out.size(), cmdline(b).c_str(), q.status, q.out.size(), q.err.substr(0, 200).c_str());
        if (!r.out.empty()) nontrivial(hashstr(how, sig) ^ hashstr(cmdline(b), 3));
    };
    auto refuse = [&](const string& how, const vector<string>& b, bool usage) {
        Run q = run_tool(b, o);
        evals();
        count(("refused: " + how.substr(0, how.find(':'))).c_str());
        if (q.refused() && !q.err.empty() && q.out.empty()) { count("refused with status and message"); return; }
        if (q.refused() && q.err.empty()) fail("silent", "%s: %s, status %d without a message", cmdline(b).c_str(), how.c_str(), q.status);
        bool u = q.out.find("sage") != string::npos && q.out.find("## ") == string::npos;
        if (tool == "setbathy") u = q.out.find("sage: setbathy") != string::npos && q.out.size() < 1000;
        if (!usage && q.status == 0) fail("accepted", "%s: %s, but status 0, output \"%s\"", cmdline(b).c_str(), how.c_str(), q.out.substr(0, 200).c_str());
        if (usage && !u) fail("accepted", "%s: %s, but neither refused nor usage printed: status %d, output \"%s\"", cmdline(b).c_str(), how.c_str(), q.status, q.out.substr(0, 200).c_str());
        count("usage printed");
    };
    // order
    for (int t = 0; t < 2; ++t) {
        vector<Opt> pos, w;
        for (auto& x : v) (positional(x) ? pos : w).push_back(x);
        for (size_t k = w.size(); k > 1; --k) std::swap(w[k - 1], w[g.i(0, (int) k - 1)]);
        size_t at = 0;
        for (auto& p : pos) { at = g.i((int) at, (int) w.size()); w.insert(w.begin() + at, p); at++; }
        same("other order", w);
    }
    // twice
    {
        vector<Opt> w = v;
        int k = g.i(0, (int) v.size() - 1);
        if (!positional(v[k])) { w.insert(w.begin() + g.i(0, (int) w.size()), v[k]); same("option twice", w); }
    }
    if (r.status != 0) { count("scenarios refused"); return; }
    // unknown option
    {
        static const char* known[][2] = {{"getbound", "chirv"}, {"getnodes", "himopxyv"}, {"insertgrid", "himv"}, {"subgrid", "ijhxyv"}, {"setbathy", "ijdovz"}, {"xy2ij", "ighforkv"}, {"gridbathy", "abcghimnrvx"}};
        string K;
        for (auto& x : known) if (tool == x[0]) K = x[1];
        char ch;
        do ch = (char) g.i(33, 126); while (K.find(ch) != string::npos || ch == '-');
        vector<Opt> w = v;
        w.insert(w.begin() + g.i(0, (int) w.size()), Opt{{string("-") + ch}});
        refuse(string("unknown option: -") + ch, join(tool, w), true);
    }
    // surplus argument
    if (tool != "setbathy") {       // the last file counts there
        vector<Opt> w = v;
        w.insert(w.begin() + g.i(0, (int) w.size()), Opt{{g.p(0.3) ? wf("f0.txt") : word(g)}});
        if (tool == "getnodes" || tool == "getbound" || tool == "subgrid") {
            // either may be taken for the file
            Run q = run_tool(join(tool, w), o);
            evals();
            if (q.status == 0 && q.out != r.out && q.out.find("sage") == string::npos) fail("surplus", "%s: status 0 with another output than without the surplus argument", cmdline(join(tool, w)).c_str());
            count("surplus file names");
        } else refuse("surplus argument", join(tool, w), true);
    }
    // required argument left out
    {
        vector<Opt> w;
        int drop = -1, n = 0;
        for (size_t k = 0; k < v.size(); ++k) {
            const string& x = v[k].a[0];
            bool req = positional(v[k]) || (tool == "setbathy" && x == "-z") || (tool == "xy2ij" && (x == "-g" || x == "-o")) || (tool == "gridbathy" && (x == "-g" || x == "-b"));
            if (req && g.i(0, n++) == 0) drop = (int) k;
        }
        for (size_t k = 0; k < v.size(); ++k) if ((int) k != drop) w.push_back(v[k]);
        vector<string> b = join(tool, w);
        if (drop >= 0 && !(b.size() == 2 && b[1] == "-v")) refuse("left out: " + v[drop].a[0], b, true);
    }
    // value left out
    for (int t = 0; t < 2; ++t) {
        static const char* O[][2] = {{"getbound", "i"}, {"getnodes", "iom"}, {"insertgrid", "i"}, {"subgrid", "ij"}, {"setbathy", "ijdoz"}, {"xy2ij", "igo"}, {"gridbathy", "abcgimnrcr"}};
        for (auto& x : O) {
            if (tool != x[0]) continue;
            string K = x[1];
            char ch = K[g.i(0, (int) K.size() - 1)];
            vector<string> b = a;
            if (g.p(0.3)) b = {tool};           // nothing else given
            b.push_back(string("-") + ch);
            if (tool == "gridbathy" && strchr("cr", ch) && g.p(0.5)) b.push_back("0");
            refuse(fmt("no value: -%c", ch), b, tool == "xy2ij" || b.size() == 2);
        }
    }
    // ranges
    if (tool == "subgrid" || tool == "setbathy") {
        static const char* R[] = {"x", ":", "a:b", "", ":3", "NaN", "to 5"};
        vector<string> b = a;
        b.insert(b.begin() + 1, {g.p(0.5) ? "-i" : "-j", R[g.i(0, 6)]});
        refuse("range: \"" + b[2] + "\"", b, false);
    }
    // numbers
    if (tool == "insertgrid" || tool == "setbathy" || tool == "gridbathy") {
        static const char* T[] = {"x", "", "abc", "x5", "-", "#1", ".", "five", ",3", " "};
        string t = T[g.i(0, 9)];
        vector<Opt> w = v;
        if (tool == "insertgrid") {
            int n = g.i(0, 1);              // the last positional argument, or the one before
            for (size_t q = w.size(); q-- > 0;) if (positional(w[q]) && n-- == 0) w[q].a[0] = t == "-" ? "one" : t;
        } else {
            const char* O = tool == "setbathy" ? "od" : "ancr";
            char ch = O[g.i(0, (int) strlen(O) - 1)];
            vector<string> a = {string("-") + ch, t};
            if (ch == 'c' || ch == 'r') { a.push_back("1"); if (g.p(0.5)) std::swap(a[1], a[2]); }
            w.push_back(Opt{a});
        }
        refuse("not a number", join(tool, w), true);
    }
    // values the option does not admit
    {
        static const char* T[][4] = {
            {"getbound", "-i", "CE", ""}, {"getbound", "-i", "D", ""}, {"getbound", "-i", "COR", ""},
            {"getnodes", "-i", "CX", ""}, {"getnodes", "-o", "DDD", ""}, {"getnodes", "-o", "C", ""}, {"getnodes", "-i", "0", ""},
            {"insertgrid", "-i", "CEN", ""}, {"insertgrid", "-i", "XX", ""},
            {"subgrid", "-i", "3:2", ""}, {"subgrid", "-j", "1:0", ""}, {"subgrid", "-i", "1000000:1000001", ""}, {"subgrid", "-j", "-5:-1", ""},
            {"setbathy", "-d", "0x3", ""}, {"setbathy", "-d", "3x0", ""}, {"setbathy", "-d", "3x-2", ""}, {"setbathy", "-d", "100000x100000", ""},
            {"xy2ij", "-i", "CE", ""}, {"xy2ij", "-i", "DO", ""},
            {"gridbathy", "-n", "0", ""}, {"gridbathy", "-n", "-1", ""}, {"gridbathy", "-n", "11", ""}, {"gridbathy", "-n", "1000000", ""}, {"gridbathy", "-a", "-1", ""}, {"gridbathy", "-a", "5", ""}, {"gridbathy", "-r", "5", "5"}, {"gridbathy", "-r", "6", "-6"}, {"gridbathy", "-r", "0", "-1e9"},
            {"gridbathy", "-c", "-1", "0"}, {"gridbathy", "-c", "0", "-1"}, {"gridbathy", "-c", "-1", "-1"}, {"gridbathy", "-c", "100000", "0"}, {"gridbathy", "-c", "0", "100000"}, {"gridbathy", "-i", "CE", ""}, {"gridbathy", "-i", "CC", ""}};
        vector<vector<string>> K;
        for (auto& x : T) if (tool == x[0]) { K.push_back({x[1], x[2]}); if (x[3][0]) K.back().push_back(x[3]); }
        auto& k = g.pick(K);
        vector<Opt> w;
        for (auto& x : v) if (x.a[0] != k[0] && !(tool == "setbathy" && (x.a[0] == "-d" || x.a[0] == "-o"))) w.push_back(x);
        w.insert(w.begin() + g.i(0, (int) w.size()), Opt{k});
        refuse("not admitted: " + k[0] + " " + k[1], join(tool, w), tool == "setbathy");
    }
    if (g.p(0.1)) {
        Run q = run_tool({tool, "-v"}, o);
        evals();
        if (q.status != 0 || q.out.find("version") == string::npos) fail("version", "%s -v: status %d, output \"%s\"", tool.c_str(), q.status, q.out.substr(0, 200).c_str());
        if (tool != "setbathy") {
            vector<Opt> w = v;
            if (g.p(0.5)) w.clear();
            w.insert(w.begin() + g.i(0, (int) w.size()), Opt{{"-h"}});
            q = run_tool(join(tool, w), o);
            evals();
            if (q.status != 0 || q.out.find("sage: " + tool) == string::npos || q.out.size() < 200) fail("help", "%s -h: status %d, output \"%s\"", tool.c_str(), q.status, q.out.substr(0, 200).c_str());
        }
        count("version and help");
    }
    count(("tool " + tool).c_str());
    sample(what);
}
