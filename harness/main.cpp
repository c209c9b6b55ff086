#include "common.hpp"
#include <sys/prctl.h>
Global G;

static void quitfn(char* format, ...)
{
    va_list ap;
    va_start(ap, format);
    string s = vfmt(format, ap);
    va_end(ap);
    throw QuitEx{s};
}

static string jstr(const string& s)
{
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static Run run_once(const vector<string>& args, const RunOpt& o, int limit)
{
    Run r;
    string dir = o.dir.empty() ? G.bin : o.dir;
    string prog = args[0][0] == '/' ? args[0] : dir + "/" + args[0];
    string fin = "/dev/null", fout = o.stdoutfile.empty() ? wf("t.out") : o.stdoutfile, ferr = wf("t.err");
    vector<char*> av, ev;
    vector<string> env;
    posix_spawn_file_actions_t fa;
    posix_spawnattr_t at;
    pid_t pid;
    int st = 0;

    if (o.usein) { fin = wf("t.in"); writefile(fin, o.in); }
    for (auto& a : args) av.push_back((char*) a.c_str());
    av.push_back(NULL);
    for (char** e = environ; *e; ++e) if (strncmp(*e, "ASAN_OPTIONS=", 13) && strncmp(*e, "UBSAN_OPTIONS=", 14)) env.push_back(*e);
    env.push_back("ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1500:handle_abort=0:detect_stack_use_after_return=1");
    env.push_back("UBSAN_OPTIONS=exitcode=99:print_stacktrace=1:halt_on_error=1");
    env.push_back("MSAN_OPTIONS=exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1500");
    for (auto& e : o.env) env.push_back(e);
    for (auto& e : env) ev.push_back((char*) e.c_str());
    ev.push_back(NULL);
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, fin.c_str(), O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, fout.c_str(), o.stdoutfile.empty() ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY, 0600);
    posix_spawn_file_actions_addopen(&fa, 2, ferr.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawnattr_init(&at);
    int e = posix_spawn(&pid, prog.c_str(), &fa, &at, av.data(), ev.data());
    posix_spawn_file_actions_destroy(&fa);
    posix_spawnattr_destroy(&at);
    if (e != 0) { fprintf(stderr, "harness: cannot run %s: %s\n", prog.c_str(), strerror(e)); exit(3); }
    G.toolruns++;
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    useconds_t us = 200;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (w < 0 && errno != EINTR) { fprintf(stderr, "harness: waitpid: %s\n", strerror(errno)); exit(3); }
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (t.tv_sec - t0.tv_sec > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.status = 2000;
            break;
        }
        usleep(us);
        if (us < 3000) us += us / 4;
    }
    if (r.status != 2000)
        r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    if (o.stdoutfile.empty()) r.out = readfile(fout);
    r.err = readfile(ferr);
    return r;
}

static bool progress()
{
    char b[64];
    if (G.progress_fd < 0) return true;
    int l = snprintf(b, sizeof b, "%-20ld %-20llu", G.cur, (unsigned long long) G.toolruns);
    return pwrite(G.progress_fd, b, l, 0) == l;
}

Run run_tool(const vector<string>& args, const RunOpt& o)
{
    Run r = run_once(args, o, o.timeout);
    progress();
    if (r.status >= 2000)       // again before it is called a hang
        r = run_once(args, o, 2 * o.timeout);
    if (r.status >= 2000)
        fail("hang", "%s: no end within %d s (twice)", cmdline(args).c_str(), o.timeout);
    if (!o.noscan) {
        bool san = r.status == 99 || r.err.find("ERROR: AddressSanitizer") != string::npos || r.err.find("runtime error:") != string::npos || r.err.find("WARNING: MemorySanitizer: ") != string::npos;
        if (san)
            fail("sanitizer", "%s: sanitizer report: %s", cmdline(args).c_str(), r.err.substr(0, 1500).c_str());
        if (r.status >= 1000)
            fail("signal", "%s: died from signal %d: %s", cmdline(args).c_str(), r.status - 1000, r.err.substr(0, 500).c_str());
    }
    return r;
}

// what refusals left behind by throwing adds up: beyond a bound, the rest is done by a new process
static long rss_mb()
{
    long a = 0, b = 0;
    FILE* f = fopen("/proc/self/statm", "r");
    if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
    return b / 256;
}

int main(int argc, char** argv)
{
    long from = 0, step = 1, n = 0, only = -1;
    string out;
    double budget = 1e9;

    G.prop = PROP;
    for (int k = 1; k < argc; ++k) {
        string a = argv[k];
        auto v = [&]() -> string { if (++k >= argc) exit(3); return argv[k]; };
        if (a == "--seed") G.seed = strtoull(v().c_str(), NULL, 10);
        else if (a == "--from") from = atol(v().c_str());
        else if (a == "--step") step = atol(v().c_str());
        else if (a == "--n") n = atol(v().c_str());
        else if (a == "--case") only = atol(v().c_str());
        else if (a == "--thorough") G.thorough = true;
        else if (a == "--work") G.work = v();
        else if (a == "--bin") G.bin = v();
        else if (a == "--plain") G.plain = v();
        else if (a == "--msan") G.msan = v();
        else if (a == "--out") out = v();
        else if (a == "--budget") budget = atof(v().c_str());
        else if (a == "--progress") G.progress_fd = open(v().c_str(), O_WRONLY | O_CREAT, 0600);
        else if (a == "--ncases") { printf("%ld\n", ncases(G.thorough)); return 0; }
        else { fprintf(stderr, "harness: unknown option %s\n", a.c_str()); return 3; }
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_IGN);
    gu_setquitfn(quitfn);
    if (only >= 0) { from = only; n = only + 1; step = 1; }

    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    long done = 0, again = -1;
    for (long k = from; k < n; k += step) {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > budget) break;
        G.cur = k;
        if (!progress()) return 3;
        Case c{k, G.thorough, Rng(mix64(G.seed * 1000003ULL + hashstr(G.prop)) ^ mix64((uint64_t) k + 77))};
        gu_verbose = 0;
        try { run_case(c); }
        catch (CaseFail&) { }
        catch (QuitEx& q) { G.viol.push_back({k, "quit", "library gave up: " + q.msg}); }
        done++;
        if (G.viol.size() >= 5 || (!G.viol.empty() && G.viol.back().key == "hang")) break;
        if (only < 0 && done % 16 == 0 && rss_mb() > 1000) { again = k + step; break; }
    }
    string s = "{\"again\":" + fmt("%ld", again < n ? again : -1) + ",\"cases\":" + fmt("%ld", done) + ",\"evals\":" + fmt("%llu", (unsigned long long) G.evals) + ",\"toolruns\":" + fmt("%llu", (unsigned long long) G.toolruns) + ",\"rule\":" + jstr(RULE) + ",\"counters\":{";
    bool first = true;
    for (auto& c : G.cnt) { s += (first ? "" : ",") + jstr(c.first) + ":" + fmt("%llu", (unsigned long long) c.second); first = false; }
    s += "},\"samples\":[";
    for (size_t k = 0; k < G.samples.size(); ++k) s += (k ? "," : "") + jstr(G.samples[k]);
    s += "],\"violations\":[";
    for (size_t k = 0; k < G.viol.size(); ++k)
        s += string(k ? "," : "") + "{\"case\":" + fmt("%ld", G.viol[k].c) + ",\"key\":" + jstr(G.viol[k].key) + ",\"msg\":" + jstr(G.viol[k].msg) + "}";
    s += "]}";
    if (!out.empty()) {
        writefile(out + ".tmp", s);
        writefile(out + ".sigs", string((const char*) G.sigs.data(), G.sigs.size() * 8));
        rename((out + ".tmp").c_str(), out.c_str());
    } else
        printf("%s\n", s.c_str());
    return 0;
}
