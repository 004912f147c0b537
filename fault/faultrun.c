/* Runs a command under ptrace, lists the operations at which it can fail, and makes one of them fail.
 *
 *   faultrun ROOT POINTS TIMEOUT ACTION POINT -- command...
 *
 * ROOT: the run directory; operations on files below ROOT/results and ROOT/tmp, on pipes, and the creation and
 * execution of processes are fault points. POINTS: file that gets one line per point, in the order of their execution:
 *   process<TAB>program<TAB>operation<TAB>object<TAB>number
 * process is the place of the process in the tree of processes (0, 0.1, 0.1.2 ...), number counts the same operation on
 * the same object in the same process. POINT: such a line, or "-". ACTION: none, error, short, kill (the process),
 * torn (half of the write, then the process is killed), crash (all processes are killed), torncrash; or other: nothing
 * fails, but the command in the environment variable FAULTRUN_OTHER runs from start to end while the process waits at the point.
 * Exit status: that of the command (128 + signal if it was killed); 124 on timeout, 125 on an error of this program.
 * The last line of POINTS is "reached" if the fault was injected. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/sched.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static int calls[] = {SYS_read, SYS_pread64, SYS_readv, SYS_write, SYS_pwrite64, SYS_writev, SYS_open, SYS_openat, SYS_creat, SYS_rename,
                      SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_getdents64, SYS_execve,
                      SYS_fork, SYS_vfork, SYS_clone, SYS_clone3, SYS_copy_file_range, SYS_sendfile, SYS_splice, SYS_ftruncate, SYS_truncate, SYS_link,
                      SYS_linkat, SYS_fsync, SYS_fdatasync};
#define NC (sizeof calls / sizeof *calls)

struct cnt { char *key; int n; struct cnt *next; };
struct proc {              /* one process (thread group) */
    int tgid, children, refs;
    char label[256], prog[64];
    struct cnt *counts;
};
struct task { int tid, pending; struct proc *p; struct task *next; };
static struct task *tasks;
static char root[4096], want[8192], action[32];
static FILE *out;
static int reached;

static void die(const char *s) { perror(s); exit(125); }

static struct task *find(int tid) {
    for (struct task *t = tasks; t; t = t->next) if (t->tid == tid) return t;
    return NULL;
}
static struct task *add(int tid, struct proc *p) {
    struct task *t = calloc(1, sizeof *t);
    t->tid = tid; t->p = p; t->next = tasks; tasks = t;
    if (p) p->refs++;
    return t;
}
static void drop(int tid) {
    for (struct task **t = &tasks; *t; t = &(*t)->next)
        if ((*t)->tid == tid) { struct task *x = *t; *t = x->next; free(x); return; }
}
static int number(struct proc *p, const char *key) {
    for (struct cnt *c = p->counts; c; c = c->next) if (!strcmp(c->key, key)) return ++c->n;
    struct cnt *c = calloc(1, sizeof *c);
    c->key = strdup(key); c->n = 1; c->next = p->counts; p->counts = c;
    return 1;
}
static int tgid_of(int tid) {
    char f[64], line[256]; int r = tid;
    snprintf(f, sizeof f, "/proc/%d/status", tid);
    FILE *g = fopen(f, "r");
    if (!g) return tid;
    while (fgets(line, sizeof line, g)) if (sscanf(line, "Tgid: %d", &r) == 1) break;
    fclose(g);
    return r;
}
static void progname(struct proc *p, int tid) {
    char f[64], b[4096]; ssize_t n;
    snprintf(f, sizeof f, "/proc/%d/exe", tid);
    n = readlink(f, b, sizeof b - 1);
    if (n < 0) return;
    b[n] = 0;
    char *s = strrchr(b, '/');
    snprintf(p->prog, sizeof p->prog, "%.60s", s ? s + 1 : b);
}
static void str_at(int tid, unsigned long a, char *b, size_t n) {
    size_t i = 0; b[0] = 0;
    while (i + 1 < n) {
        size_t k = 4096 - (a + i) % 4096;
        if (k > n - 1 - i) k = n - 1 - i;
        struct iovec l = {b + i, k}, r = {(void *)(a + i), k};
        ssize_t g = process_vm_readv(tid, &l, 1, &r, 1, 0);
        if (g <= 0) break;
        for (ssize_t j = 0; j < g; j++) if (!b[i + j]) return;
        i += g;
    }
    b[i] = 0;
}
/* the name of an object: path relative to the root, "pipe", or "" for what is no fault point */
static void object(char *full, char *o, size_t n) {
    size_t l = strlen(root);
    o[0] = 0;
    if (!strncmp(full, "pipe:", 5)) { snprintf(o, n, "pipe"); return; }
    if (strncmp(full, root, l) || full[l] != '/') return;
    char *s = full + l + 1;
    while (!strncmp(s, "./", 2)) s += 2;
    if (!strncmp(s, "results", 7) || !strncmp(s, "tmp", 3)) snprintf(o, n, "%s", s);
}
static void squeeze(char *s) {   /* "//" and "/./" */
    char *d = s;
    for (char *c = s; *c; ) {
        if (c[0] == '/' && c[1] == '/') { c++; continue; }
        if (c[0] == '/' && c[1] == '.' && (c[2] == '/' || !c[2])) { c += 2; continue; }
        *d++ = *c++;
    }
    *d = 0;
}
static void path_object(int tid, int dfd, unsigned long a, char *o, size_t n) {
    char s[4096], f[64], full[8300];
    str_at(tid, a, s, sizeof s);
    if (s[0] == '/') snprintf(full, sizeof full, "%s", s);
    else {
        char b[4096]; ssize_t k;
        if (dfd == AT_FDCWD) snprintf(f, sizeof f, "/proc/%d/cwd", tid); else snprintf(f, sizeof f, "/proc/%d/fd/%d", tid, dfd);
        k = readlink(f, b, sizeof b - 1);
        if (k < 0) { o[0] = 0; return; }
        b[k] = 0;
        snprintf(full, sizeof full, "%s/%s", b, s);
    }
    squeeze(full);
    object(full, o, n);
}
static void fd_object(int tid, int fd, char *o, size_t n) {
    char f[64], b[4096]; ssize_t k;
    snprintf(f, sizeof f, "/proc/%d/fd/%d", tid, fd);
    k = readlink(f, b, sizeof b - 1);
    o[0] = 0;
    if (k < 0) return;
    b[k] = 0;
    object(b, o, n);
}
static void kill_all(void) {
    for (struct task *t = tasks; t; t = t->next) kill(t->tid, SIGKILL);
}
static void on_alarm(int s) { (void)s; kill_all(); _exit(124); }

/* the stop before a system call; returns 1 if the task is to be stopped again after it */
static int stop(struct task *t) {
    struct user_regs_struct r;
    if (ptrace(PTRACE_GETREGS, t->tid, 0, &r)) return 0;
    char o[4096] = "", key[4300], line[8192];
    const char *op = NULL;
    int err = EIO, shortable = 0;
    switch (r.orig_rax) {
    case SYS_read: case SYS_pread64: op = "read"; fd_object(t->tid, r.rdi, o, sizeof o); shortable = r.rdx > 1; break;
    case SYS_readv: op = "read"; fd_object(t->tid, r.rdi, o, sizeof o); break;
    case SYS_write: case SYS_pwrite64: op = "write"; err = ENOSPC; fd_object(t->tid, r.rdi, o, sizeof o); shortable = r.rdx > 1; break;
    case SYS_writev: op = "write"; err = ENOSPC; fd_object(t->tid, r.rdi, o, sizeof o); break;
    case SYS_copy_file_range: op = "write"; err = ENOSPC; fd_object(t->tid, r.rdx, o, sizeof o); break;
    case SYS_sendfile: op = "write"; err = ENOSPC; fd_object(t->tid, r.rdi, o, sizeof o); break;
    case SYS_splice: op = "write"; err = ENOSPC; fd_object(t->tid, r.rdx, o, sizeof o); break;
    case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync: op = "write"; fd_object(t->tid, r.rdi, o, sizeof o); break;
    case SYS_truncate: op = "write"; path_object(t->tid, AT_FDCWD, r.rdi, o, sizeof o); break;
    case SYS_open: path_object(t->tid, AT_FDCWD, r.rdi, o, sizeof o); op = r.rsi & (O_WRONLY | O_RDWR | O_CREAT) ? "create" : "open"; break;
    case SYS_creat: path_object(t->tid, AT_FDCWD, r.rdi, o, sizeof o); op = "create"; break;
    case SYS_openat: path_object(t->tid, (int)r.rdi, r.rsi, o, sizeof o); op = r.rdx & (O_WRONLY | O_RDWR | O_CREAT) ? "create" : "open"; break;
    case SYS_rename: case SYS_link: op = "rename"; path_object(t->tid, AT_FDCWD, r.rdi, o, sizeof o); break;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat: op = "rename"; path_object(t->tid, (int)r.rdi, r.rsi, o, sizeof o); break;
    case SYS_unlink: case SYS_rmdir: op = "unlink"; path_object(t->tid, AT_FDCWD, r.rdi, o, sizeof o); break;
    case SYS_unlinkat: op = "unlink"; path_object(t->tid, (int)r.rdi, r.rsi, o, sizeof o); break;
    case SYS_mkdir: op = "mkdir"; path_object(t->tid, AT_FDCWD, r.rdi, o, sizeof o); break;
    case SYS_mkdirat: op = "mkdir"; path_object(t->tid, (int)r.rdi, r.rsi, o, sizeof o); break;
    case SYS_getdents64: op = "list"; fd_object(t->tid, r.rdi, o, sizeof o); break;
    case SYS_execve: {
        char s[4096]; str_at(t->tid, r.rdi, s, sizeof s);
        char *b = strrchr(s, '/');
        op = "exec"; err = ENOENT; snprintf(o, sizeof o, "%s", b ? b + 1 : s);
        if (t->p->tgid == t->p->children && 0) return 0;
        break; }
    case SYS_fork: case SYS_vfork: op = "fork"; err = ENOMEM; snprintf(o, sizeof o, "process"); break;
    case SYS_clone: if (!(r.rdi & CLONE_THREAD)) { op = "fork"; err = ENOMEM; snprintf(o, sizeof o, "process"); } break;
    case SYS_clone3: {
        unsigned long fl = 0; struct iovec l = {&fl, 8}, m = {(void *)r.rdi, 8};
        process_vm_readv(t->tid, &l, 1, &m, 1, 0);
        if (!(fl & CLONE_THREAD)) { op = "fork"; err = ENOMEM; snprintf(o, sizeof o, "process"); }
        break; }
    }
    if (!op || !o[0]) return 0;
    snprintf(key, sizeof key, "%s\t%s\t%s", t->p->prog, op, o);
    snprintf(line, sizeof line, "%s\t%s\t%d", t->p->label, key, number(t->p, key));
    fprintf(out, "%s\n", line);
    if (reached || strcmp(line, want)) return 0;
    if (!strcmp(action, "short") || !strcmp(action, "torn") || !strcmp(action, "torncrash")) {
        if (!shortable) return 0;
        reached = 1;
        r.rdx = op[0] == 'r' ? 1 : r.rdx / 2;
        ptrace(PTRACE_SETREGS, t->tid, 0, &r);
        t->pending = action[0] == 't';
        return t->pending;
    }
    reached = 1;
    if (!strcmp(action, "other")) {
        if (system(getenv("FAULTRUN_OTHER")) == -1) die("other");
        return 0;
    }
    if (!strcmp(action, "error")) {
        r.orig_rax = -1; r.rax = -(long)err;
        ptrace(PTRACE_SETREGS, t->tid, 0, &r);
    } else if (!strcmp(action, "kill")) kill(t->p->tgid, SIGKILL);
    else if (!strcmp(action, "crash")) kill_all();
    return 0;
}

int main(int argc, char **argv) {
    if (argc < 8 || strcmp(argv[6], "--")) { fprintf(stderr, "usage: faultrun ROOT POINTS TIMEOUT ACTION POINT -- command...\n"); return 125; }
    if (!realpath(argv[1], root)) die("root");
    out = fopen(argv[2], "we");
    if (!out) die("points");
    snprintf(action, sizeof action, "%s", argv[4]);
    snprintf(want, sizeof want, "%s", argv[5]);
    int pid = fork();
    if (pid < 0) die("fork");
    if (!pid) {
        struct sock_filter f[NC + 6]; int k = 0;
        f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
        for (size_t i = 0; i < NC; i++) f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, calls[i], NC - i, 0);
        f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
        f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
        struct sock_fprog pr = {k, f};
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) die("traceme");
        raise(SIGSTOP);
        if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) die("seccomp");
        execvp(argv[7], argv + 7);
        die("exec");
    }
    int st, status = 125;
    if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) die("start");
    struct proc *p = calloc(1, sizeof *p);
    p->tgid = pid; strcpy(p->label, "0"); strcpy(p->prog, "start");
    add(pid, p);
    long opt = PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_TRACESECCOMP | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL;
    if (ptrace(PTRACE_SETOPTIONS, pid, 0, opt)) die("options");
    signal(SIGALRM, on_alarm);
    alarm(atoi(argv[3]));
    ptrace(PTRACE_CONT, pid, 0, 0);
    for (;;) {
        int tid = waitpid(-1, &st, __WALL);
        if (tid < 0) { if (errno == EINTR) continue; break; }
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (tid == pid) status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            drop(tid);
            continue;
        }
        struct task *t = find(tid);
        int sig = WSTOPSIG(st), ev = st >> 16, req = PTRACE_CONT;
        if (!t) {   /* a new task whose stop came before the event of its parent */
            t = add(tid, NULL);
            continue;      /* stays stopped until the event */
        }
        if (!t->p) continue;
        if (sig == SIGTRAP && ev) {
            if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE) {
                unsigned long c = 0;
                ptrace(PTRACE_GETEVENTMSG, tid, 0, &c);
                struct proc *q = t->p;
                if (tgid_of(c) == (int)c) {
                    q = calloc(1, sizeof *q);
                    q->tgid = c;
                    snprintf(q->label, sizeof q->label, "%.200s.%d", t->p->label, ++t->p->children);
                    strcpy(q->prog, t->p->prog);
                }
                struct task *n = find(c);
                if (n) { n->p = q; ptrace(PTRACE_CONT, c, 0, 0); }
                else { n = add(c, q); n->pending = 2; }   /* its first stop is still to come */
            } else if (ev == PTRACE_EVENT_EXEC) progname(t->p, tid);
            else if (ev == PTRACE_EVENT_SECCOMP && stop(t)) req = PTRACE_SYSCALL;
            sig = 0;
        } else if (sig == (SIGTRAP | 0x80)) {
            if (t->pending == 1) {   /* after the torn write */
                t->pending = 0;
                if (!strcmp(action, "torncrash")) kill_all(); else kill(t->p->tgid, SIGKILL);
            }
            sig = 0;
        } else if (sig == SIGSTOP && t->pending == 2) { t->pending = 0; sig = 0; }
        ptrace(req, tid, 0, sig);
    }
    if (reached) fprintf(out, "reached\n");
    fclose(out);
    return status;
}
