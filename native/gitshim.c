/* Stand-in for git on git-who's PATH.  Runs the real git ($GWV_GIT) and
 *  - logs every invocation ($GWV_LOG/<pid>: kind, then for `log --stdin` the
 *    revisions asked for),
 *  - applies the rules in $GWV_PLAN, one per line:
 *        KIND INDEX ACTION [ARG..]
 *    KIND: rev-parse, log, logstdin, ls-files, config, any; INDEX: the how
 *    many-th process of that kind (from 0), or * ; ACTION:
 *      order R        emit nothing before R processes of this kind have ended
 *      delay MS       wait before emitting anything
 *      cut PM CODE    emit PM permille of the output, then exit CODE
 *      kill PM SIG    emit PM permille of the output, then die by SIG
 *      last N CODE    emit all but the last N bytes, then exit CODE
 *      exit CODE      emit everything, then exit CODE
 *      deny CODE      exit CODE at once, reading and emitting nothing
 *      err N          write N bytes to stderr before the output
 *      errafter N     write N bytes to stderr after the output
 *      hang PM        emit PM permille of the output, then sleep
 *      slow MS        emit in 7 parts with pauses
 *      linger MS      emit everything, close stdout, stay for MS
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static void msleep(long ms) {
    struct timespec t = {ms / 1000, (ms % 1000) * 1000000};
    while (nanosleep(&t, &t) < 0 && errno == EINTR) {}
}

typedef struct { char *p; size_t n, cap; } buf;

static void slurp(int fd, buf *b) {
    for (;;) {
        if (b->cap - b->n < 65536) {
            b->cap = b->cap * 2 + 131072;
            b->p = realloc(b->p, b->cap);
        }
        ssize_t k = read(fd, b->p + b->n, b->cap - b->n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return;
        b->n += k;
    }
}

static int put(int fd, const char *p, size_t n) {
    while (n) {
        ssize_t k = write(fd, p, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return -1;
        p += k; n -= k;
    }
    return 0;
}

/* counter file: returns the value before adding d */
static long counter(const char *dir, const char *kind, const char *what, long d) {
    char path[4096], txt[32] = "";
    snprintf(path, sizeof path, "%s/.%s.%s", dir, what, kind);
    int fd = open(path, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
    if (fd < 0) return 0;
    flock(fd, LOCK_EX);
    ssize_t k = pread(fd, txt, sizeof txt - 1, 0);
    long v = k > 0 ? atol(txt) : 0;
    if (d) {
        int n = snprintf(txt, sizeof txt, "%ld\n", v + d);
        if (pwrite(fd, txt, n, 0) < 0) {}
    }
    close(fd);
    return v;
}

static void noise(long n) {
    char line[128];
    memset(line, 'w', sizeof line);
    line[127] = '\n';
    while (n > 0) {
        size_t k = n < 128 ? n : 128;
        if (put(2, line + (128 - k), k)) return;
        n -= k;
    }
}

int main(int argc, char **argv) {
    const char *git = getenv("GWV_GIT"), *dir = getenv("GWV_LOG"), *plan = getenv("GWV_PLAN");
    const char *kind = "other";
    int hasStdin = 0;
    if (!git) git = "/usr/bin/git";
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--")) break;
        if (!strcmp(argv[i], "--stdin")) hasStdin = 1;
    }
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-c") || !strcmp(argv[i], "-C")) { i++; continue; }
        if (argv[i][0] == '-') continue;
        kind = argv[i];
        break;
    }
    if (!strcmp(kind, "log") && hasStdin) kind = "logstdin";
    /* a rev-list fed with revisions would serve the same purpose */
    if (!strcmp(kind, "rev-list")) kind = hasStdin ? "logstdin" : "log";
    long idx = dir ? counter(dir, kind, "start", 1) : 0;

    long order = -1, delay = 0, pm = 1000, code = -1, sig = 0, err = 0, erra = 0, slow = 0,
         linger = 0, last = 0;
    int hang = 0, deny = 0;
    if (plan) {
        FILE *f = fopen(plan, "r");
        char k[64], ix[32], act[32];
        long a, b;
        char line[512];
        while (f && fgets(line, sizeof line, f)) {
            a = b = 0;
            if (sscanf(line, "%63s %31s %31s %ld %ld", k, ix, act, &a, &b) < 3) continue;
            if (strcmp(k, kind) && strcmp(k, "any")) continue;
            if (strcmp(ix, "*") && atol(ix) != idx) continue;
            if (!strcmp(act, "order")) order = a;
            else if (!strcmp(act, "delay")) delay = a;
            else if (!strcmp(act, "cut")) pm = a, code = b;
            else if (!strcmp(act, "kill")) pm = a, sig = b;
            else if (!strcmp(act, "last")) last = a, code = b;
            else if (!strcmp(act, "exit")) code = a;
            else if (!strcmp(act, "deny")) deny = 1, code = a;
            else if (!strcmp(act, "err")) err = a;
            else if (!strcmp(act, "errafter")) erra = a;
            else if (!strcmp(act, "hang")) hang = 1, pm = a;
            else if (!strcmp(act, "slow")) slow = a;
            else if (!strcmp(act, "linger")) linger = a;
        }
        if (f) fclose(f);
    }

    FILE *lf = NULL;
    if (dir) {
        char path[4096];
        snprintf(path, sizeof path, "%s/%06ld.%s.%d", dir, idx, kind, (int)getpid());
        lf = fopen(path, "we");
    }
    if (deny) {
        if (lf) fclose(lf);
        fprintf(stderr, "fatal: simulated failure\n");
        if (dir) counter(dir, kind, "end", 1);
        _exit(code);
    }

    buf in = {0}, out = {0};
    if (hasStdin) {
        slurp(0, &in);
        if (lf) fwrite(in.p, 1, in.n, lf);
    }
    if (lf) fclose(lf);

    int pi[2], po[2];
    if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC)) return 125;
    pid_t pid = fork();
    if (pid == 0) {
        if (hasStdin) dup2(pi[0], 0);
        dup2(po[1], 1);
        argv[0] = (char *)"git";
        execv(git, argv);
        _exit(125);
    }
    close(pi[0]);
    close(po[1]);
    pid_t feeder = 0;
    if (hasStdin) {
        feeder = fork();
        if (feeder == 0) { close(po[0]); put(pi[1], in.p, in.n); _exit(0); }
    }
    close(pi[1]);
    slurp(po[0], &out);
    int st = 0;
    waitpid(pid, &st, 0);
    if (feeder > 0) waitpid(feeder, NULL, 0);

    if (order >= 0 && dir)
        for (int i = 0; i < 3000 && counter(dir, kind, "end", 0) < order; i++) msleep(1);
    if (delay) msleep(delay);
    if (err) noise(err);
    size_t n = pm >= 1000 ? out.n : out.n / 1000 * pm + out.n % 1000 * pm / 1000;
    if (last) n = n > (size_t)last ? n - last : 0;
    if (slow) {
        size_t done = 0;
        for (int i = 1; i <= 7; i++) {
            size_t to = n * i / 7;
            if (put(1, out.p + done, to - done)) break;
            done = to;
            msleep(slow);
        }
    } else
        put(1, out.p, n);
    if (erra) noise(erra);
    if (hang) {
        if (dir) counter(dir, kind, "hung", 1);
        msleep(120000);
    }
    if (linger) { close(1); msleep(linger); }
    if (dir) counter(dir, kind, "end", 1);
    if (sig) { signal(sig, SIG_DFL); kill(getpid(), sig); }
    if (code >= 0) {
        fprintf(stderr, "fatal: simulated failure\n");
        _exit(code);
    }
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); }
    _exit(WEXITSTATUS(st));
}
