/*
 * sysmon: runs one or more programs under ptrace, records the system calls they make on a directory
 * tree and on their standard streams in one global order, decides which program may take its next
 * step on the tree, and injects faults at chosen steps.
 *
 * Usage: sysmon SPEC
 *
 * SPEC is a file with tab-separated lines:
 *   root PATH              calls on paths or descriptors below PATH are events
 *   log PATH               where to write the record
 *   seed N
 *   policy free            no scheduling (every program runs freely)
 *   policy random P        of the waiting programs continue the last one with P percent, else any
 *   policy pct D N         random priorities with D change points in the first N steps
 *   policy list A,B,...    follow the list of program numbers, then continue the last one
 *   limit SECONDS          give up (and say so) after this long
 *   hold MASK              which classes of events are scheduling points (1 mutation, 2 lookup, 4 data)
 *   child STDIN STDOUT STDERR ARGV0 ARGV1...
 *   fault CHILD EVENT kill|part N|err E|errp E|short N     (follows the child lines)
 *   fault CHILD EVENT run N     the shell script LOG.N runs from start to end before the call is made
 *
 * Record (tab separated):
 *   E seq child event name class path path2 length    a call is about to be made
 *   X seq child event result                          it has returned
 *   S seq child                                       the program was chosen to take a step
 *   K seq child event                                 it was killed at this event
 *   F seq child event kind                            a fault was injected here
 *   R seq child event status                          a script was run here
 *   B seq child                                       it was found blocked inside the kernel
 *   D seq child exit|signal N                         it ended
 *   T                                                 gave up
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXC 16
#define MAXT 64
#define MAXF 64

enum { MUT = 1, LOOK = 2, DATA = 4, STD = 8, OTHER = 16 };
enum { FK_KILL = 1, FK_PART, FK_ERR, FK_ERRP, FK_SHORT, FK_RUN };

struct fault { int child; long ev; int kind; long arg; };
struct childspec { char *in, *out, *err; char **argv; };

struct task {
    pid_t pid;
    int child;          /* program number */
    int main;           /* first thread of the program */
    int insys;          /* between entry and exit of a call */
    int held, done, blocked, started;
    int isevent;        /* current call is an event */
    long ev;            /* its number */
    int post;           /* what to do at its exit: 0, FK_ERR, FK_PART */
    long postarg;
    long sysno;
    int curclass;
};

static char *roots[8];
static int nroots;
static FILE *logf_;
static char *logname;
static uint64_t rng;
static int policy; /* 0 free 1 random 2 pct 3 list */
static int stickp, pctd, pctn;
static int *list_, nlist, listpos;
static int limit_s = 60;
static int holdmask = MUT | LOOK;
static struct childspec cs[MAXC];
static int nc;
static struct fault faults[MAXF];
static int nf;
static long errp_sys[MAXC]; /* persistent failure: call number, or -1 */
static long errp_err[MAXC];
static int errp_std[MAXC];  /* whether it is the standard streams that fail, or the tree */
static struct task tasks[MAXT];
static int nt;
static long evcount[MAXC];
static long seq;
static long prio[MAXC];
static long chpt[64];
static long step_;
static int last_ = -1;

static uint64_t rnd(void)
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng * 2685821657736338717ull;
}

static void die(const char *m)
{
    fprintf(stderr, "sysmon: %s: %s\n", m, strerror(errno));
    exit(3);
}

static void put(const char *s)
{
    for (; *s; s++) {
        unsigned char c = *s;
        if (c < 32 || c == 127 || c == '\\')
            fprintf(logf_, "\\x%02x", c);
        else
            fputc(c, logf_);
    }
}

static int readstr(pid_t pid, unsigned long addr, char *buf, size_t n)
{
    size_t off = 0;
    if (!addr) {
        buf[0] = 0;
        return -1;
    }
    while (off + sizeof(long) <= n) {
        errno = 0;
        long w = ptrace(PTRACE_PEEKDATA, pid, addr + off, 0);
        if (errno) {
            buf[off] = 0;
            return -1;
        }
        memcpy(buf + off, &w, sizeof w);
        for (size_t i = 0; i < sizeof w; i++)
            if (!buf[off + i])
                return 0;
        off += sizeof w;
    }
    buf[n - 1] = 0;
    return 0;
}

static void fdpath(pid_t pid, int fd, char *buf, size_t n)
{
    char p[64];
    if (fd == AT_FDCWD)
        snprintf(p, sizeof p, "/proc/%d/cwd", pid);
    else
        snprintf(p, sizeof p, "/proc/%d/fd/%d", pid, fd);
    ssize_t k = readlink(p, buf, n - 1);
    if (k < 0)
        k = 0;
    buf[k] = 0;
}

/* Makes an absolute path with "." and ".." resolved by text; symbolic links are not followed. */
static void abspath(pid_t pid, int dfd, const char *in, char *out, size_t n)
{
    static char tmp[PATH_MAX * 3];
    char base[PATH_MAX];
    if (in[0] == '/')
        snprintf(tmp, sizeof tmp, "%s", in);
    else {
        fdpath(pid, dfd, base, sizeof base);
        snprintf(tmp, sizeof tmp, "%s/%s", base, in);
    }
    size_t o = 0;
    char *p = tmp;
    out[0] = 0;
    while (*p) {
        while (*p == '/')
            p++;
        if (!*p)
            break;
        char *e = strchrnul(p, '/');
        size_t l = e - p;
        if (l == 1 && p[0] == '.')
            ;
        else if (l == 2 && p[0] == '.' && p[1] == '.') {
            while (o && out[o - 1] != '/')
                o--;
            if (o)
                o--;
            out[o] = 0;
        } else if (o + l + 2 < n) {
            out[o++] = '/';
            memcpy(out + o, p, l);
            o += l;
            out[o] = 0;
        }
        p = e;
    }
    if (!o)
        strcpy(out, "/");
}

static int under(const char *p)
{
    for (int i = 0; i < nroots; i++) {
        size_t l = strlen(roots[i]);
        if (!strncmp(p, roots[i], l) && (p[l] == 0 || p[l] == '/' || l == 1))
            return 1;
    }
    return 0;
}

struct call { const char *name; int cls; int kind; };
/* kinds: 'p' path at arg0; 'a' dirfd,path at 0,1; 'P' two paths; 'A' two dirfd,path; 'f' fd;
   's' path at arg1 (symlink), 'S' symlinkat; 'o' open; 'O' openat; 't' stat-at; 'u' utimensat */
static struct call lookup(long no)
{
#define C(n, c, k) case SYS_##n: return (struct call){#n, c, k}
    switch (no) {
        C(open, LOOK, 'o'); C(openat, LOOK, 'O'); C(creat, MUT, 'p');
        C(mkdir, MUT, 'p'); C(mkdirat, MUT, 'a'); C(rmdir, MUT, 'p');
        C(rename, MUT, 'P'); C(renameat, MUT, 'A'); C(renameat2, MUT, 'A');
        C(link, MUT, 'P'); C(linkat, MUT, 'A'); C(symlink, MUT, 's'); C(symlinkat, MUT, 'S');
        C(unlink, MUT, 'p'); C(unlinkat, MUT, 'a');
        C(chmod, MUT, 'p'); C(fchmodat, MUT, 'a'); C(fchmod, MUT, 'f');
        C(chown, MUT, 'p'); C(lchown, MUT, 'p'); C(fchownat, MUT, 'a'); C(fchown, MUT, 'f');
        C(truncate, MUT, 'p'); C(ftruncate, MUT, 'f'); C(fallocate, MUT, 'f');
        C(mknod, MUT, 'p'); C(mknodat, MUT, 'a'); C(utimensat, MUT, 'u');
        C(setxattr, MUT, 'p'); C(lsetxattr, MUT, 'p'); C(fsetxattr, MUT, 'f');
        C(removexattr, MUT, 'p'); C(fremovexattr, MUT, 'f');
        C(stat, LOOK, 'p'); C(lstat, LOOK, 'p'); C(newfstatat, LOOK, 't'); C(statx, LOOK, 't');
        C(access, LOOK, 'p'); C(faccessat, LOOK, 'a'); C(faccessat2, LOOK, 'a');
        C(readlink, LOOK, 'p'); C(readlinkat, LOOK, 'a');
        C(fstat, OTHER, 'f'); C(lseek, OTHER, 'f'); C(close, OTHER, 'f');
        C(fsync, DATA, 'f'); C(fdatasync, DATA, 'f'); C(flock, LOOK, 'f'); C(fcntl, OTHER, 'f');
        C(getdents64, LOOK, 'f');
        C(read, DATA, 'f'); C(pread64, DATA, 'f'); C(readv, DATA, 'f');
        C(write, DATA, 'f'); C(pwrite64, DATA, 'f'); C(writev, DATA, 'f');
        C(copy_file_range, DATA, 'c'); C(sendfile, DATA, 'f'); C(splice, DATA, 'c');
        C(chdir, OTHER, 'p'); C(execve, OTHER, 'p');
#ifdef SYS_openat2
        C(openat2, LOOK, 'O');
#endif
#ifdef SYS_fchmodat2
        C(fchmodat2, MUT, 'a');
#endif
    }
#undef C
    return (struct call){NULL, 0, 0};
}

/* Looks at the call which is about to be made; returns its class if it's an event. */
static int inspect(struct task *t, struct user_regs_struct *r, char *p1, char *p2, const char **name,
                   long *len)
{
    struct call c = lookup(r->orig_rax);
    char s[PATH_MAX];
    p1[0] = p2[0] = 0;
    *name = c.name;
    *len = -1;
    if (!c.name)
        return 0;
    int cls = c.cls;
    long a0 = r->rdi, a1 = r->rsi, a2 = r->rdx, a3 = r->r10;
    switch (c.kind) {
    case 'o':
        if (readstr(t->pid, a0, s, sizeof s)) return 0;
        abspath(t->pid, AT_FDCWD, s, p1, PATH_MAX);
        *len = a1;
        if (a1 & (O_CREAT | O_TRUNC | 020000000 /* of O_TMPFILE */)) cls = MUT;
        break;
    case 'O':
        if (readstr(t->pid, a1, s, sizeof s)) return 0;
        abspath(t->pid, (int)a0, s, p1, PATH_MAX);
        *len = a2;
        if (r->orig_rax == SYS_openat && (a2 & (O_CREAT | O_TRUNC | 020000000))) cls = MUT;
        break;
    case 'p':
        if (readstr(t->pid, a0, s, sizeof s)) return 0;
        abspath(t->pid, AT_FDCWD, s, p1, PATH_MAX);
        *len = a1;
        break;
    case 'a':
        if (readstr(t->pid, a1, s, sizeof s)) return 0;
        abspath(t->pid, (int)a0, s, p1, PATH_MAX);
        *len = a2;
        break;
    case 't':
        if (readstr(t->pid, a1, s, sizeof s)) s[0] = 0;
        if (!s[0]) {
            fdpath(t->pid, (int)a0, p1, PATH_MAX);
            cls = OTHER;
        } else
            abspath(t->pid, (int)a0, s, p1, PATH_MAX);
        break;
    case 'u':
        if (readstr(t->pid, a1, s, sizeof s)) fdpath(t->pid, (int)a0, p1, PATH_MAX);
        else abspath(t->pid, (int)a0, s, p1, PATH_MAX);
        break;
    case 'P':
        if (readstr(t->pid, a0, s, sizeof s)) return 0;
        abspath(t->pid, AT_FDCWD, s, p1, PATH_MAX);
        if (readstr(t->pid, a1, s, sizeof s)) return 0;
        abspath(t->pid, AT_FDCWD, s, p2, PATH_MAX);
        break;
    case 'A':
        if (readstr(t->pid, a1, s, sizeof s)) return 0;
        abspath(t->pid, (int)a0, s, p1, PATH_MAX);
        if (readstr(t->pid, a3, s, sizeof s)) return 0;
        abspath(t->pid, (int)a2, s, p2, PATH_MAX);
        break;
    case 's':
        if (readstr(t->pid, a1, s, sizeof s)) return 0;
        abspath(t->pid, AT_FDCWD, s, p1, PATH_MAX);
        break;
    case 'S':
        if (readstr(t->pid, a2, s, sizeof s)) return 0;
        abspath(t->pid, (int)a1, s, p1, PATH_MAX);
        break;
    case 'c':
        fdpath(t->pid, (int)a0, p1, PATH_MAX);
        fdpath(t->pid, (int)a2, p2, PATH_MAX);
        *len = r->r8;
        if (a2 == 1) return STD;
        break;
    case 'f':
        *len = a2;
        if ((int)a0 >= 0 && (int)a0 <= 2) {
            if (r->orig_rax == SYS_read || r->orig_rax == SYS_write || r->orig_rax == SYS_writev ||
                r->orig_rax == SYS_readv || r->orig_rax == SYS_sendfile) {
                snprintf(p1, PATH_MAX, "<%d>", (int)a0);
                return STD;
            }
            return 0;
        }
        fdpath(t->pid, (int)a0, p1, PATH_MAX);
        if (r->orig_rax == SYS_sendfile)
            *len = r->r10;
        break;
    }
    if (under(p1) || (p2[0] && under(p2)))
        return cls;
    return 0;
}

static struct task *find(pid_t pid)
{
    for (int i = 0; i < nt; i++)
        if (tasks[i].pid == pid && !tasks[i].done)
            return &tasks[i];
    return NULL;
}

static struct fault *fault_at(int child, long ev)
{
    for (int i = 0; i < nf; i++)
        if (faults[i].child == child && faults[i].ev == ev)
            return &faults[i];
    return NULL;
}

/* Lets a task continue from the entry of an event, injecting a fault if one is due. */
static void release(struct task *t)
{
    struct user_regs_struct r;
    struct fault *f = fault_at(t->child, t->ev);
    t->held = 0;
    if (t->isevent && (f || (errp_sys[t->child] == t->sysno && errp_std[t->child] == (t->curclass & STD)))) {
        int kind = f ? f->kind : FK_ERR;
        long arg = f ? f->arg : errp_err[t->child];
        if (kind == FK_KILL) {
            fprintf(logf_, "K\t%ld\t%d\t%ld\n", seq++, t->child, t->ev);
            kill(t->pid, SIGKILL);
            return; /* its end will be reported */
        }
        if (kind == FK_RUN) {
            char cmd[PATH_MAX + 40];
            snprintf(cmd, sizeof cmd, "exec sh '%s.%ld'", logname, arg);
            int st = system(cmd);
            fprintf(logf_, "R\t%ld\t%d\t%ld\t%d\n", seq++, t->child, t->ev, st);
        } else if (ptrace(PTRACE_GETREGS, t->pid, 0, &r) == 0) {
            if (kind == FK_ERRP) {
                errp_sys[t->child] = t->sysno;
                errp_err[t->child] = arg;
                errp_std[t->child] = t->curclass & STD;
                kind = FK_ERR;
            }
            if (kind == FK_ERR) {
                r.orig_rax = -1;
                t->post = FK_ERR;
                t->postarg = arg;
            } else if (kind == FK_PART || kind == FK_SHORT) {
                unsigned long long *len = &r.rdx;
                int moves = t->sysno == SYS_read || t->sysno == SYS_write || t->sysno == SYS_pread64 || t->sysno == SYS_pwrite64;
                if (moves && *len > (unsigned long long)arg)
                    *len = arg;
                if (kind == FK_PART)
                    t->post = FK_PART;
            }
            ptrace(PTRACE_SETREGS, t->pid, 0, &r);
            fprintf(logf_, "F\t%ld\t%d\t%ld\t%d\n", seq++, t->child, t->ev, kind);
        }
    }
    ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
}

static char path1[PATH_MAX], path2[PATH_MAX];

static void on_stop(struct task *t, int st)
{
    int sig = WSTOPSIG(st);
    int ev = st >> 16;
    if (ev == PTRACE_EVENT_CLONE || ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK ||
        ev == PTRACE_EVENT_EXEC) {
        ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
        return;
    }
    if (sig == (SIGTRAP | 0x80)) {
        struct user_regs_struct r;
        if (ptrace(PTRACE_GETREGS, t->pid, 0, &r)) {
            ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
            return;
        }
        if (!t->insys) {
            const char *name;
            long len;
            int cls = inspect(t, &r, path1, path2, &name, &len);
            t->insys = 1;
            t->isevent = cls != 0;
            t->sysno = r.orig_rax;
            t->curclass = cls;
            t->post = 0;
            if (!cls) {
                ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
                return;
            }
            t->ev = evcount[t->child]++;
            fprintf(logf_, "E\t%ld\t%d\t%ld\t%s\t%d\t", seq++, t->child, t->ev, name, cls);
            put(path1);
            fputc('\t', logf_);
            put(path2);
            fprintf(logf_, "\t%ld\n", len);
            if (policy && t->main && (cls & holdmask)) {
                t->held = 1;
                return;
            }
            release(t);
        } else {
            t->insys = 0;
            if (t->isevent) {
                if (t->post == FK_ERR) {
                    r.rax = -t->postarg;
                    ptrace(PTRACE_SETREGS, t->pid, 0, &r);
                }
                fprintf(logf_, "X\t%ld\t%d\t%ld\t%ld\n", seq++, t->child, t->ev, (long)r.rax);
                if (t->post == FK_PART) {
                    fprintf(logf_, "K\t%ld\t%d\t%ld\n", seq++, t->child, t->ev);
                    kill(t->pid, SIGKILL);
                    return;
                }
            }
            ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
        }
        return;
    }
    if (!t->started) {
        t->started = 1;
        ptrace(PTRACE_SETOPTIONS, t->pid, 0,
               PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC | PTRACE_O_TRACECLONE |
                   PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK);
        ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
        return;
    }
    if (sig == SIGTRAP || sig == SIGSTOP)
        sig = 0;
    ptrace(PTRACE_SYSCALL, t->pid, 0, sig);
}

static struct task *newtask(pid_t pid, int child, int mainp)
{
    if (nt >= MAXT) {
        for (int i = 0; i < nt; i++)
            if (tasks[i].done && !tasks[i].main) {
                memset(&tasks[i], 0, sizeof tasks[i]);
                tasks[i].pid = pid;
                tasks[i].child = child;
                return &tasks[i];
            }
        die("too many tasks");
    }
    struct task *t = &tasks[nt++];
    memset(t, 0, sizeof *t);
    t->pid = pid;
    t->child = child;
    t->main = mainp;
    return t;
}

static void spawn(int i)
{
    pid_t pid = fork();
    if (pid < 0)
        die("fork");
    if (!pid) {
        int a = open(cs[i].in, O_RDONLY), b = open(cs[i].out, O_WRONLY | O_CREAT | O_TRUNC, 0600),
            c = open(cs[i].err, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (a < 0 || b < 0 || c < 0)
            _exit(126);
        dup2(a, 0);
        dup2(b, 1);
        dup2(c, 2);
        for (int k = 3; k < 64; k++)
            close(k);
        signal(SIGALRM, SIG_DFL);
        if (ptrace(PTRACE_TRACEME, 0, 0, 0))
            _exit(125);
        raise(SIGSTOP);
        execv(cs[i].argv[0], cs[i].argv);
        _exit(127);
    }
    newtask(pid, i, 1);
}

static int pstate(pid_t pid)
{
    char p[64], b[512];
    snprintf(p, sizeof p, "/proc/%d/stat", pid);
    int fd = open(p, O_RDONLY);
    if (fd < 0)
        return 'X';
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    if (n <= 0)
        return 'X';
    b[n] = 0;
    char *q = strrchr(b, ')');
    return q && q[1] ? q[2] : 'X';
}

static double now(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

static void onalarm(int s) { (void)s; }

static struct task *choose(void)
{
    struct task *h[MAXT];
    int n = 0;
    for (int i = 0; i < nt; i++)
        if (tasks[i].held && !tasks[i].done)
            h[n++] = &tasks[i];
    if (!n)
        return NULL;
    struct task *pick = NULL, *prev = NULL;
    for (int i = 0; i < n; i++)
        if (h[i]->child == last_)
            prev = h[i];
    if (policy == 1) {
        if (prev && (int)(rnd() % 100) < stickp)
            pick = prev;
        else
            pick = h[rnd() % n];
    } else if (policy == 2) {
        for (int i = 0; i < pctd; i++)
            if (chpt[i] == step_ && last_ >= 0)
                prio[last_] = -(long)(i + 1);
        for (int i = 0; i < n; i++)
            if (!pick || prio[h[i]->child] > prio[pick->child])
                pick = h[i];
    } else {
        while (listpos < nlist && !pick) {
            int want = list_[listpos++];
            for (int i = 0; i < n; i++)
                if (h[i]->child == want)
                    pick = h[i];
        }
        if (!pick)
            pick = prev ? prev : h[0];
    }
    step_++;
    last_ = pick->child;
    fprintf(logf_, "S\t%ld\t%d\n", seq++, pick->child);
    return pick;
}

static char *next(char **s)
{
    char *p = strsep(s, "\t");
    return p ? p : (char *)"";
}

int main(int argc, char **argv)
{
    if (argc != 2) {
        fprintf(stderr, "usage: sysmon SPEC\n");
        return 3;
    }
    FILE *f = fopen(argv[1], "r");
    if (!f)
        die(argv[1]);
    char *line = NULL;
    size_t cap = 0;
    ssize_t k;
    uint64_t seed = 1;
    while ((k = getline(&line, &cap, f)) > 0) {
        if (line[k - 1] == '\n')
            line[k - 1] = 0;
        char *s = strdup(line);
        char *w = next(&s);
        if (!strcmp(w, "root")) roots[nroots++] = strdup(next(&s));
        else if (!strcmp(w, "log")) {
            logname = next(&s);
            logf_ = fopen(logname, "w");
            if (!logf_) die("log");
        } else if (!strcmp(w, "seed")) seed = strtoull(next(&s), 0, 10);
        else if (!strcmp(w, "limit")) limit_s = atoi(next(&s));
        else if (!strcmp(w, "hold")) holdmask = atoi(next(&s));
        else if (!strcmp(w, "policy")) {
            char *kind = next(&s);
            if (!strcmp(kind, "random")) { policy = 1; stickp = atoi(next(&s)); }
            else if (!strcmp(kind, "pct")) { policy = 2; pctd = atoi(next(&s)); pctn = atoi(next(&s)); }
            else if (!strcmp(kind, "list")) {
                policy = 3;
                char *l = next(&s), *e;
                list_ = calloc(strlen(l) + 1, sizeof(int));
                while ((e = strsep(&l, ","))) if (*e) list_[nlist++] = atoi(e);
            }
        } else if (!strcmp(w, "child")) {
            cs[nc].in = strdup(next(&s));
            cs[nc].out = strdup(next(&s));
            cs[nc].err = strdup(next(&s));
            cs[nc].argv = calloc(64, sizeof(char *));
            int a = 0;
            while (s && a < 63) cs[nc].argv[a++] = strdup(next(&s));
            if (++nc >= MAXC) die("too many programs");
        } else if (!strcmp(w, "fault")) {
            struct fault *x = &faults[nf++];
            if (nf >= MAXF) die("too many faults");
            x->child = atoi(next(&s));
            x->ev = atol(next(&s));
            char *kind = next(&s);
            x->arg = atol(next(&s));
            x->kind = !strcmp(kind, "kill") ? FK_KILL : !strcmp(kind, "part") ? FK_PART
                    : !strcmp(kind, "err") ? FK_ERR : !strcmp(kind, "errp") ? FK_ERRP
                    : !strcmp(kind, "run") ? FK_RUN : FK_SHORT;
        }
    }
    fclose(f);
    if (!logf_ || !nc)
        die("incomplete specification");
    rng = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    for (int i = 0; i < 8; i++)
        rnd();
    for (int i = 0; i < nc; i++) {
        errp_sys[i] = -1;
        prio[i] = 1 + (long)(rnd() >> 40);
    }
    for (int i = 0; i < pctd && i < 64; i++)
        chpt[i] = rnd() % (pctn ? pctn : 1);

    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onalarm;
    sigaction(SIGALRM, &sa, 0);
    struct itimerval it = {{0, 100000}, {0, 100000}};
    setitimer(ITIMER_REAL, &it, 0);

    for (int i = 0; i < nc; i++)
        spawn(i);
    double start = now(), lastprog = now();
    for (;;) {
        int alive = 0, running = 0;
        for (int i = 0; i < nt; i++)
            if (!tasks[i].done) {
                alive++;
                if (!tasks[i].held && !tasks[i].blocked && tasks[i].main)
                    running++;
            }
        if (!alive)
            break;
        if (now() - start > limit_s) {
            fprintf(logf_, "T\n");
            for (int i = 0; i < nt; i++)
                if (!tasks[i].done)
                    kill(tasks[i].pid, SIGKILL);
            break;
        }
        if (policy && !running) {
            struct task *t = choose();
            if (t) {
                lastprog = now();
                release(t);
                continue;
            }
        }
        int st;
        pid_t pid = waitpid(-1, &st, __WALL);
        if (pid < 0) {
            if (errno == EINTR) {
                if (policy && now() - lastprog > 0.3)
                    for (int i = 0; i < nt; i++) {
                        struct task *t = &tasks[i];
                        if (!t->done && !t->held && !t->blocked && t->main) {
                            int s = pstate(t->pid);
                            if (s == 'S') {
                                t->blocked = 1;
                                fprintf(logf_, "B\t%ld\t%d\n", seq++, t->child);
                            }
                        }
                    }
                continue;
            }
            if (errno == ECHILD)
                break;
            die("waitpid");
        }
        lastprog = now();
        struct task *t = find(pid);
        if (!t) {
            /* A new thread or process; the parent's number is good enough. */
            if (WIFSTOPPED(st)) {
                t = newtask(pid, last_ >= 0 ? last_ : 0, 0);
                t->started = 1;
                ptrace(PTRACE_SYSCALL, pid, 0, 0);
            }
            continue;
        }
        t->blocked = 0;
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            t->done = 1;
            t->held = 0;
            if (t->main)
                fprintf(logf_, "D\t%ld\t%d\t%s\t%d\n", seq++, t->child,
                        WIFEXITED(st) ? "exit" : "signal",
                        WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
        } else if (WIFSTOPPED(st))
            on_stop(t, st);
    }
    fclose(logf_);
    return 0;
}
