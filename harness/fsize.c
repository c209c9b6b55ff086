/* fsize <mode> <k> <prog> [args]: runs a program with a fault at its standard output or input.
 *   size k    writing fails beyond byte k of a file (file size limit, SIGXFSZ ignored)
 *   full -    standard output is a full device
 *   closed -  standard output is closed
 *   pipe -    standard output is a pipe nobody reads (SIGPIPE ignored)
 *   again -   standard output is a non-blocking pipe of one page nobody reads; what went in is copied out
 *   slow k    standard output is a pipe of one page read k bytes at a time, and copied out
 *   noin -    standard input is closed
 *   readerr k reading standard input fails beyond byte k
 *   nofile k  no more than k file descriptors
 *   mem k     no more than k MB of address space
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/resource.h>
#include <sys/wait.h>

static void die(const char* s)
{
    fprintf(stderr, "fsize: %s: %s\n", s, strerror(errno));
    _exit(98);
}
static void limit(int what, rlim_t k)
{
    struct rlimit r = { k, k };
    if (setrlimit(what, &r) != 0)
        die("setrlimit");
}
int main(int argc, char** argv)
{
    const char* m = argv[1];
    long k = atol(argv[2]);
    int p[2];

    if (argc < 4)
        return 98;
    signal(SIGPIPE, SIG_IGN);
    if (!strcmp(m, "size")) {
        signal(SIGXFSZ, SIG_IGN);
        limit(RLIMIT_FSIZE, k);
    } else if (!strcmp(m, "full")) {
        int fd = open("/dev/full", O_WRONLY);
        if (fd < 0 || dup2(fd, 1) != 1)
            die("/dev/full");
        close(fd);
    } else if (!strcmp(m, "closed"))
        close(1);
    else if (!strcmp(m, "pipe")) {
        if (pipe(p) != 0 || dup2(p[1], 1) != 1)
            die("pipe");
        close(p[0]);
        close(p[1]);
    } else if (!strcmp(m, "again") || !strcmp(m, "slow")) {
        int slow = m[0] == 's', st;
        char buf[65536];
        pid_t pid;

        if (pipe(p) != 0 || fcntl(p[1], F_SETPIPE_SZ, 4096) < 0)
            die("pipe");
        if (!slow && fcntl(p[1], F_SETFL, O_NONBLOCK) != 0)
            die("fcntl");
        pid = fork();
        if (pid < 0)
            die("fork");
        if (pid == 0) {
            if (dup2(p[1], 1) != 1)
                die("dup2");
            close(p[0]);
            close(p[1]);
            execv(argv[3], argv + 3);
            die(argv[3]);
        }
        close(p[1]);
        if (!slow && waitpid(pid, &st, 0) != pid)
            die("waitpid");
        for (;;) {
            ssize_t n = read(p[0], buf, slow ? (size_t) k : sizeof buf);
            if (n < 0 && errno == EINTR)
                continue;
            if (n <= 0)
                break;
            if (write(1, buf, n) != n)
                die("write");
        }
        if (slow && waitpid(pid, &st, 0) != pid)
            die("waitpid");
        if (WIFSIGNALED(st)) {
            signal(WTERMSIG(st), SIG_DFL);
            kill(getpid(), WTERMSIG(st));
        }
        return WEXITSTATUS(st);
    } else if (!strcmp(m, "noin"))
        close(0);
    else if (!strcmp(m, "readerr")) {
        char buf[65536];
        ssize_t n;
        int w;

        if (k > 60000 || pipe(p) != 0)
            die("pipe");
        n = read(0, buf, k);
        if (n != k || write(p[1], buf, k) != k)
            die("input");
        if (fcntl(p[0], F_SETFL, O_NONBLOCK) != 0 || dup2(p[0], 0) != 0)
            die("dup2");
        close(p[0]);
        w = fcntl(p[1], F_DUPFD, 100);       /* stays open, so that there is no end of file */
        close(p[1]);
        if (w < 0)
            die("fcntl");
    } else if (!strcmp(m, "nofile"))
        limit(RLIMIT_NOFILE, k);
    else if (!strcmp(m, "mem"))
        limit(RLIMIT_AS, (rlim_t) k << 20);
    else
        return 98;
    execv(argv[3], argv + 3);
    die(argv[3]);
    return 98;
}
