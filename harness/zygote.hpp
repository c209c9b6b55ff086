// answers from processes that have done nothing else: a server forked before main() forks a process for
// every request; zy_serve() runs there
#pragma once
#include "common.hpp"
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sstream>
static string zy_serve(const string& req);
static int zy_fd = -1;
static bool zy_read(int fd, void* p, size_t n)
{
    char* c = (char*) p;
    while (n) {
        ssize_t k = read(fd, c, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        c += k;
        n -= k;
    }
    return true;
}
static bool zy_write(int fd, const void* p, size_t n)
{
    const char* c = (const char*) p;
    while (n) {
        ssize_t k = send(fd, c, n, MSG_NOSIGNAL);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        c += k;
        n -= k;
    }
    return true;
}
static bool zy_get(int fd, string& s)
{
    uint64_t n;
    if (!zy_read(fd, &n, 8)) return false;
    s.resize(n);
    return zy_read(fd, &s[0], n);
}
static bool zy_put(int fd, const string& s)
{
    uint64_t n = s.size();
    return zy_write(fd, &n, 8) && zy_write(fd, s.data(), n);
}
static void zy_quit(char* format, ...)
{
    va_list ap;
    va_start(ap, format);
    string s = vfmt(format, ap);
    va_end(ap);
    throw QuitEx{s};
}
__attribute__((constructor)) static void zy_start()
{
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) { perror("socketpair"); exit(3); }
    pid_t parent = getpid(), p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p > 0) { close(sv[1]); zy_fd = sv[0]; return; }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(0);
    close(sv[0]);
    string req;
    while (zy_get(sv[1], req)) {
        pid_t q = fork();
        if (q < 0) { zy_put(sv[1], "!cannot fork"); continue; }
        if (q == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            alarm(60);
            string ans;
            gu_setquitfn(zy_quit);
            try { ans = zy_serve(req); } catch (QuitEx& e) { ans = "!library gave up: " + e.msg; }
            if (!zy_put(sv[1], ans)) _exit(1);
            _exit(0);
        }
        int st = 0;
        while (waitpid(q, &st, 0) < 0 && errno == EINTR) ;
        if (st != 0) zy_put(sv[1], fmt("!died with status %d", st));
    }
    _exit(0);
}
static inline string zy_call(const string& req)
{
    string ans;
    if (!zy_put(zy_fd, req) || !zy_get(zy_fd, ans)) { fprintf(stderr, "harness: no answer from the clean process\n"); exit(3); }
    count("requests to clean processes");
    return ans;
}
