/* Runs several programs and puts their file operations below given
 * directories under control, by seccomp user notification.
 *
 *   fstrap SPEC
 *
 * SPEC is a file of lines:
 *   root DIR              directories of interest (several allowed)
 *   log FILE              where to write the operations seen
 *   reads                 reads count as operations as well
 *   schedule ABBA..       one letter per operation: whose next operation is
 *                         let through (the others wait); afterwards all run
 *   start N               (after prog) start this program only once the
 *                         schedule first names it; otherwise all at once
 *   prog OUT ERR CWD      a program: stdout, stderr files, directory
 *   arg TEXT / env K=V    its arguments and extra environment
 *   crash K               kill the program when it attempts operation K (from 0)
 *   torn K BYTES          operation K (a write) writes BYTES bytes, then kill
 *   fail K ERRNO          operation K fails
 *   failfrom K ERRNO      operation K and all later ones fail
 *   short K BYTES ERRNO   operation K writes BYTES bytes; all later writes fail
 *   room BYTES ERRNO      the first BYTES bytes written get through; no more
 * Output: one line per program on stdout: exit status (code, or -signal).
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXP 8
typedef struct {
    char *out, *err, *cwd, *args[256], *env[64];
    int nargs, nenv;
    long crash, torn, tornN, fail, failErr, failFrom, failFromErr, shortAt, shortN, shortErr, room, roomErr;
    pid_t pid;
    int fd, started, done, status;
    long ops;
    int pend, stepping;          /* queued notifications, being stepped */
    struct seccomp_notif q[64];
    char qd[64][600];
} prog;

static prog P[MAXP];
static int np, reads_too;
static char *roots[8], *schedule;
static int nroots;
static FILE *lg;


static int nrs[] = {SYS_write, SYS_pwrite64, SYS_writev, SYS_openat, SYS_open, SYS_unlink, SYS_unlinkat,
    SYS_mkdir, SYS_mkdirat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_rmdir, SYS_ftruncate,
    SYS_truncate, SYS_copy_file_range, SYS_link, SYS_linkat, SYS_read, SYS_pread64, SYS_getdents64};

static int install(void) {
    int n = sizeof nrs / sizeof *nrs - (reads_too ? 0 : 3);
    struct sock_filter f[64];
    int k = 0;
    f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < n; i++) {
        f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nrs[i], 0, 1);
        f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_USER_NOTIF);
    }
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    struct sock_fprog pr = {k, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -1;
    return syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_NEW_LISTENER, &pr);
}

static void sendfd(int s, int fd) {
    char b = 'x', c[CMSG_SPACE(sizeof(int))];
    struct iovec io = {&b, 1};
    struct msghdr m = {.msg_iov = &io, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c};
    struct cmsghdr *h = CMSG_FIRSTHDR(&m);
    h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof(int));
    memcpy(CMSG_DATA(h), &fd, sizeof fd);
    sendmsg(s, &m, 0);
}

static int recvfd(int s) {
    char b, c[CMSG_SPACE(sizeof(int))];
    struct iovec io = {&b, 1};
    struct msghdr m = {.msg_iov = &io, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c};
    if (recvmsg(s, &m, MSG_CMSG_CLOEXEC) <= 0) return -1;
    struct cmsghdr *h = CMSG_FIRSTHDR(&m);
    int fd;
    if (!h) return -1;
    memcpy(&fd, CMSG_DATA(h), sizeof fd);
    return fd;
}

static void start(prog *p) {
    int s[2];
    p->started = 1;
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) exit(120);
    p->pid = fork();
    if (p->pid == 0) {
        setpgid(0, 0);
        int o = open(p->out, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        int e = open(p->err, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        int n = open("/dev/null", O_RDONLY);
        if (o < 0 || e < 0 || chdir(p->cwd)) _exit(121);
        dup2(n, 0); dup2(o, 1); dup2(e, 2);
        for (int i = 0; i < p->nenv; i++) putenv(p->env[i]);
        int keep = fcntl(s[1], F_DUPFD_CLOEXEC, 100);
        int fd = install();
        if (fd < 0) _exit(122);
        /* sendmsg is not trapped */
        sendfd(keep, fd);
        close(fd);
        p->args[p->nargs] = NULL;
        execv(p->args[0], p->args);
        _exit(123);
    }
    close(s[1]);
    p->fd = recvfd(s[0]);
    close(s[0]);
}

static int tgid(pid_t tid) {
    char path[64], line[256];
    int r = -1;
    snprintf(path, sizeof path, "/proc/%d/status", tid);
    FILE *f = fopen(path, "re");
    if (!f) return -1;
    while (fgets(line, sizeof line, f))
        if (sscanf(line, "Tgid: %d", &r) == 1) break;
    fclose(f);
    return r;
}

static void rstr(pid_t pid, unsigned long addr, char *dst, size_t n) {
    size_t k = 0;
    dst[0] = 0;
    while (k < n - 1) {
        size_t step = 256 - (addr + k) % 256;
        if (step > n - 1 - k) step = n - 1 - k;
        struct iovec l = {dst + k, step}, r = {(void *)(addr + k), step};
        if (process_vm_readv(pid, &l, 1, &r, 1, 0) <= 0) break;
        for (size_t i = 0; i < step; i++) if (!dst[k + i]) return;
        k += step;
    }
    dst[k] = 0;
}

static void fdpath(pid_t pid, int fd, char *dst, size_t n) {
    char p[64];
    snprintf(p, sizeof p, "/proc/%d/fd/%d", pid, fd);
    ssize_t k = readlink(p, dst, n - 1);
    dst[k > 0 ? k : 0] = 0;
}

static void atpath(pid_t pid, int dfd, unsigned long addr, char *dst, size_t n) {
    char rel[400], base[400];
    rstr(pid, addr, rel, sizeof rel);
    if (rel[0] == '/') { snprintf(dst, n, "%s", rel); return; }
    if (dfd == AT_FDCWD) {
        char p[64];
        snprintf(p, sizeof p, "/proc/%d/cwd", pid);
        ssize_t k = readlink(p, base, sizeof base - 1);
        base[k > 0 ? k : 0] = 0;
    } else fdpath(pid, dfd, base, sizeof base);
    snprintf(dst, n, "%s/%s", base, rel);
}

static int under(const char *p) {
    for (int i = 0; i < nroots; i++) {
        size_t k = strlen(roots[i]);
        if (!strncmp(p, roots[i], k) && (p[k] == 0 || p[k] == '/' || p[k] == ' ')) return 1;
    }
    return 0;
}

/* Is this an operation of interest?  Describes it in d. */
static int interesting(prog *p, struct seccomp_notif *n, char *d, size_t dn) {
    if (tgid(n->pid) != p->pid) return 0;
    char a[500] = "";
    unsigned long long *A = (unsigned long long *)n->data.args;
    const char *name = "?";
    int wr = 1;
    switch (n->data.nr) {
    case SYS_openat: atpath(n->pid, A[0], A[1], a, sizeof a); name = "open";
        wr = (A[2] & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0; break;
    case SYS_open: atpath(n->pid, AT_FDCWD, A[0], a, sizeof a); name = "open";
        wr = (A[1] & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0; break;
    case SYS_write: fdpath(n->pid, A[0], a, sizeof a); name = "write"; break;
    case SYS_pwrite64: fdpath(n->pid, A[0], a, sizeof a); name = "pwrite"; break;
    case SYS_writev: fdpath(n->pid, A[0], a, sizeof a); name = "writev"; break;
    case SYS_copy_file_range: fdpath(n->pid, A[2], a, sizeof a); name = "copy"; break;
    case SYS_ftruncate: fdpath(n->pid, A[0], a, sizeof a); name = "truncate"; break;
    case SYS_truncate: atpath(n->pid, AT_FDCWD, A[0], a, sizeof a); name = "truncate"; break;
    case SYS_unlink: case SYS_rmdir: atpath(n->pid, AT_FDCWD, A[0], a, sizeof a); name = "unlink"; break;
    case SYS_unlinkat: atpath(n->pid, A[0], A[1], a, sizeof a); name = "unlink"; break;
    case SYS_mkdir: atpath(n->pid, AT_FDCWD, A[0], a, sizeof a); name = "mkdir"; break;
    case SYS_mkdirat: atpath(n->pid, A[0], A[1], a, sizeof a); name = "mkdir"; break;
    case SYS_rename: atpath(n->pid, AT_FDCWD, A[1], a, sizeof a); name = "rename"; break;
    case SYS_renameat: case SYS_renameat2: atpath(n->pid, A[2], A[3], a, sizeof a); name = "rename"; break;
    case SYS_link: atpath(n->pid, AT_FDCWD, A[1], a, sizeof a); name = "link"; break;
    case SYS_linkat: atpath(n->pid, A[2], A[3], a, sizeof a); name = "link"; break;
    case SYS_read: case SYS_pread64: fdpath(n->pid, A[0], a, sizeof a); name = "read"; wr = 0; break;
    case SYS_getdents64: fdpath(n->pid, A[0], a, sizeof a); name = "list"; wr = 0; break;
    }
    if (!under(a) || (!wr && !reads_too)) return 0;
    if (n->data.nr == SYS_write || n->data.nr == SYS_pwrite64)
        snprintf(d, dn, "%s %llu %s", name, A[2], a);
    else snprintf(d, dn, "%s %s", name, a);
    return 1;
}

static void reply(prog *p, struct seccomp_notif *n, int err, long val, int cont) {
    struct seccomp_notif_resp r = {.id = n->id, .error = -err, .val = val,
        .flags = cont ? SECCOMP_USER_NOTIF_FLAG_CONTINUE : 0};
    ioctl(p->fd, SECCOMP_IOCTL_NOTIF_SEND, &r);
}

static void partial(prog *p, struct seccomp_notif *n, long k) {
    int pf = syscall(SYS_pidfd_open, p->pid, 0);
    int fd = pf < 0 ? -1 : syscall(SYS_pidfd_getfd, pf, (int)n->data.args[0], 0);
    if (fd < 0) { fprintf(stderr, "fstrap: cannot take descriptor: %m\n"); exit(119); }
    if ((unsigned long)k > n->data.args[2]) k = n->data.args[2];
    char *b = malloc(k + 1);
    struct iovec l = {b, k}, r = {(void *)n->data.args[1], k};
    k = process_vm_readv(n->pid, &l, 1, &r, 1, 0);
    if (k > 0 && write(fd, b, k) < 0) {}
    free(b);
    close(fd); close(pf);
}

/* Lets the oldest queued operation of p go ahead, with its faults */
static void release(prog *p) {
    struct seccomp_notif n = p->q[0];
    char d[600];
    strcpy(d, p->qd[0]);
    p->pend--;
    memmove(p->q, p->q + 1, p->pend * sizeof *p->q);
    memmove(p->qd, p->qd + 1, p->pend * sizeof *p->qd);
    long k = p->ops++;
    const char *what = "";
    int isw = n.data.nr == SYS_write;
    if (k == p->crash) {
        what = " CRASH";
        kill(p->pid, SIGKILL);
    } else if (k == p->torn) {
        what = " TORN";
        if (isw) partial(p, &n, p->tornN);
        kill(p->pid, SIGKILL);
    } else if (k == p->fail) {
        what = " FAIL";
        reply(p, &n, p->failErr, 0, 0);
    } else if (p->failFrom >= 0 && k >= p->failFrom && strncmp(d, "unlink", 6)) {
        what = " FAIL";
        reply(p, &n, p->failFromErr, 0, 0);
    } else if (p->shortAt >= 0 && k == p->shortAt && isw) {
        what = " SHORT";
        partial(p, &n, p->shortN);
        reply(p, &n, 0, p->shortN < (long)n.data.args[2] ? p->shortN : (long)n.data.args[2], 0);
    } else if (p->shortAt >= 0 && k > p->shortAt && strncmp(d, "unlink", 6)) {
        what = " FAIL";
        reply(p, &n, p->shortErr, 0, 0);
    } else if (p->room >= 0 && isw && (long)n.data.args[2] > p->room) {
        what = p->room ? " SHORT" : " FAIL";
        long r = p->room;
        if (r) partial(p, &n, r);
        reply(p, &n, r ? 0 : p->roomErr, r, 0);
        p->room = 0;
    } else {
        if (p->room >= 0 && isw) p->room -= n.data.args[2];
        reply(p, &n, 0, 0, 1);
    }
    if (lg) { fprintf(lg, "%c %ld %s%s\n", (char)('A' + (p - P)), k, d, what); fflush(lg); }
}

int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "re");
    static char line[70000];
    prog *p = NULL;
    int after[MAXP] = {0};
    if (argc < 2 || !f) return 118;
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        char *v = strchr(line, ' ');
        if (v) *v++ = 0; else v = line + strlen(line);
        if (!strcmp(line, "root")) roots[nroots++] = strdup(v);
        else if (!strcmp(line, "log")) lg = fopen(v, "we");
        else if (!strcmp(line, "reads")) reads_too = 1;
        else if (!strcmp(line, "schedule")) schedule = strdup(v);
        else if (!strcmp(line, "prog")) {
            char o[1000], e[1000], c[1000];
            p = &P[np++];
            sscanf(v, "%999s %999s %999s", o, e, c);
            p->out = strdup(o); p->err = strdup(e); p->cwd = strdup(c);
            p->crash = p->torn = p->fail = p->failFrom = p->shortAt = p->room = -1;
        } else if (!strcmp(line, "arg")) p->args[p->nargs++] = strdup(v);
        else if (!strcmp(line, "env")) p->env[p->nenv++] = strdup(v);
        else if (!strcmp(line, "crash")) p->crash = atol(v);
        else if (!strcmp(line, "torn")) sscanf(v, "%ld %ld", &p->torn, &p->tornN);
        else if (!strcmp(line, "fail")) sscanf(v, "%ld %ld", &p->fail, &p->failErr);
        else if (!strcmp(line, "failfrom")) sscanf(v, "%ld %ld", &p->failFrom, &p->failFromErr);
        else if (!strcmp(line, "short")) sscanf(v, "%ld %ld %ld", &p->shortAt, &p->shortN, &p->shortErr);
        else if (!strcmp(line, "room")) sscanf(v, "%ld %ld", &p->room, &p->roomErr);
        else if (!strcmp(line, "late")) after[p - P] = 1;
    }
    fclose(f);
    for (int i = 0; i < np; i++) if (!after[i]) start(&P[i]);
    char *s = schedule ? schedule : "";
    prog *cur = NULL;           /* let through its step, not yet at its next */
    for (;;) {
        int live = 0;
        struct pollfd pf[MAXP];
        int who[MAXP], k = 0;
        /* reap */
        for (int i = 0; i < np; i++) {
            p = &P[i];
            if (p->started && !p->done) {
                int st;
                if (waitpid(p->pid, &st, WNOHANG) == p->pid) {
                    p->done = 1;
                    p->status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
                    p->pend = 0;
                    if (cur == p) cur = NULL;
                    /* its git processes may still be running */
                }
            }
            if (!p->done) live++;
        }
        if (!live) break;
        /* schedule */
        for (;;) {
            while (*s && (*s < 'A' || *s >= 'A' + np || P[*s - 'A'].done)) s++;
            if (*s) {
                p = &P[*s - 'A'];
                if (!p->started) start(p);
                if (cur && cur != p && !cur->pend) break;   /* still under way */
                if (!p->pend) break;                        /* not there yet */
                cur = p;
                s++;
                release(p);
                continue;
            }
            int any = 0;
            for (int i = 0; i < np; i++) {
                p = &P[i];
                if (!p->started) start(p);
                while (p->pend) { release(p); any = 1; }
            }
            cur = NULL;
            if (!any) break;
        }
        for (int i = 0; i < np; i++)
            if (P[i].started && P[i].fd >= 0) {
                pf[k].fd = P[i].fd; pf[k].events = POLLIN; who[k++] = i;
            }
        if (k == 0) { struct timespec t = {0, 1000000}; nanosleep(&t, NULL); continue; }
        if (poll(pf, k, 1) <= 0) continue;
        for (int i = 0; i < k; i++) {
            p = &P[who[i]];
            if (pf[i].revents & POLLIN) {
                struct seccomp_notif n;
                memset(&n, 0, sizeof n);
                if (ioctl(p->fd, SECCOMP_IOCTL_NOTIF_RECV, &n) < 0) continue;
                char d[600];
                if (p->done || !interesting(p, &n, d, sizeof d) || p->pend >= 60) {
                    reply(p, &n, 0, 0, 1);
                    continue;
                }
                strcpy(p->qd[p->pend], d);
                p->q[p->pend++] = n;
            } else if (pf[i].revents & (POLLHUP | POLLERR)) {
                close(p->fd);
                p->fd = -1;
            }
        }
    }
    for (int i = 0; i < np; i++) {
        printf("%d %ld\n", P[i].status, P[i].ops);
        kill(-P[i].pid, SIGKILL);
    }
    return 0;
}
