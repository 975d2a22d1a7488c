// tracer: runs a command and records every change it makes to the files below a directory,
// in order, with the bytes written.  It only traces the process it starts itself.
//
//   tracer OUT WATCHDIR HOLD USEC -- CMD ARGS...
//
// HOLD: a comma-separated list of path fragments; a change to a file whose path (below
// WATCHDIR) contains one of them is held back for USEC microseconds before it happens, so
// that everything that does not wait for it overtakes it ("-" for none).
//
// OUT: records of  u32 kind, u32 len(path), u32 len(path2), u32 flags, i64 off, u64 len,
// path, path2, data[len if kind is 'W'].  Kinds: C create/open-truncate, W write, T truncate,
// U unlink, R rename, M mkdir, D rmdir, L link.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <limits.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static const int traced[] = {SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev,
	SYS_pwritev2, SYS_ftruncate, SYS_truncate, SYS_fallocate, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat,
	SYS_renameat2, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_link, SYS_linkat};
#define NTRACED ((int)(sizeof traced / sizeof *traced))

struct op {
	uint32_t kind, n1, n2, flags;
	int64_t off;
	uint64_t len;
	char p1[PATH_MAX], p2[PATH_MAX];
	char *data;
};
enum { RUN, HELD, INCALL };
struct thr {
	pid_t tid;
	int state, haveop;
	struct op op;
	struct timespec due;
};
static struct thr *thrs[4096];
static FILE *out;
static char watch[PATH_MAX];
static size_t nwatch;
static char *holds[32];
static int nholds;
static long hold_us;

static void die(const char *m) { perror(m); fprintf(stderr, "HARNESS-ERROR: tracer\n"); exit(97); }

static struct thr *get(pid_t t, int create) {
	int i, f = -1;
	for (i = 0; i < 4096; i++) {
		if (thrs[i] && thrs[i]->tid == t) return thrs[i];
		if (!thrs[i] && f < 0) f = i;
	}
	if (!create || f < 0) return NULL;
	thrs[f] = calloc(1, sizeof(struct thr));
	thrs[f]->tid = t;
	return thrs[f];
}
static void drop(pid_t t) {
	for (int i = 0; i < 4096; i++)
		if (thrs[i] && thrs[i]->tid == t) { free(thrs[i]->op.data); free(thrs[i]); thrs[i] = NULL; }
}
static int readmem(pid_t t, uint64_t addr, void *buf, size_t n) {
	struct iovec l = {buf, n}, r = {(void *)addr, n};
	return process_vm_readv(t, &l, 1, &r, 1, 0) == (ssize_t)n ? 0 : -1;
}
static int readstr(pid_t t, uint64_t addr, char *buf) {
	size_t i = 0;
	while (i < PATH_MAX - 1) {
		size_t n = 64 - (addr + i) % 64;
		if (n > PATH_MAX - 1 - i) n = PATH_MAX - 1 - i;
		if (readmem(t, addr + i, buf + i, n)) return -1;
		for (size_t j = 0; j < n; j++) if (!buf[i + j]) return 0;
		i += n;
	}
	return -1;
}
static int fdpath(pid_t t, int fd, char *buf) {
	char l[64];
	if (fd == AT_FDCWD) sprintf(l, "/proc/%d/cwd", t); else sprintf(l, "/proc/%d/fd/%d", t, fd);
	ssize_t n = readlink(l, buf, PATH_MAX - 1);
	if (n < 0) return -1;
	buf[n] = 0;
	return 0;
}
static int atpath(pid_t t, int dirfd, uint64_t addr, char *buf) {
	char s[PATH_MAX], d[PATH_MAX];
	if (readstr(t, addr, s)) return -1;
	if (s[0] == '/') { strcpy(buf, s); return 0; }
	if (fdpath(t, dirfd, d)) return -1;
	const char *q = s;
	while (q[0] == '.' && q[1] == '/') q += 2;
	if (strlen(d) + strlen(q) + 2 > PATH_MAX) return -1;
	sprintf(buf, "%s/%s", d, q);
	return 0;
}
static void squeeze(char *p) { // collapse // and /./
	char *w = p, *r = p;
	while (*r) {
		if (r[0] == '/' && r[1] == '/') { r++; continue; }
		if (r[0] == '/' && r[1] == '.' && (r[2] == '/' )) { r += 2; continue; }
		*w++ = *r++;
	}
	*w = 0;
}
static int inside(char *p) {
	squeeze(p);
	if (strncmp(p, watch, nwatch) || p[nwatch] != '/') return 0;
	memmove(p, p + nwatch + 1, strlen(p + nwatch + 1) + 1);
	return 1;
}
static int fdinfo(pid_t t, int fd, int64_t *pos, int *flags) {
	char l[64], s[128];
	sprintf(l, "/proc/%d/fdinfo/%d", t, fd);
	FILE *f = fopen(l, "r");
	if (!f) return -1;
	long long p; unsigned fl; int got = 0;
	while (fgets(s, sizeof s, f)) {
		if (sscanf(s, "pos: %lld", &p) == 1) { *pos = p; got |= 1; }
		if (sscanf(s, "flags: %o", &fl) == 1) { *flags = fl; got |= 2; }
	}
	fclose(f);
	return got == 3 ? 0 : -1;
}

// decode: fills op from the registers at syscall entry; 1 if it concerns the watched files.
static int decode(pid_t t, struct user_regs_struct *r, struct op *o) {
	long nr = r->orig_rax;
	free(o->data);
	memset(o, 0, offsetof(struct op, p1));
	o->data = NULL;
	o->p1[0] = o->p2[0] = 0;
	switch (nr) {
	case SYS_open: case SYS_openat: case SYS_creat: {
		int fl = nr == SYS_open ? (int)r->rsi : nr == SYS_openat ? (int)r->rdx : O_CREAT | O_TRUNC;
		if (!(fl & (O_CREAT | O_TRUNC))) return 0;
		if (atpath(t, nr == SYS_openat ? (int)r->rdi : AT_FDCWD, nr == SYS_openat ? r->rsi : r->rdi, o->p1)) return 0;
		o->kind = 'C';
		o->flags = (fl & O_TRUNC) ? 1 : 0;
		return inside(o->p1);
	}
	case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_pwritev2: {
		int fd = (int)r->rdi;
		if (fdpath(t, fd, o->p1) || !inside(o->p1)) return 0;
		int64_t pos = 0; int fl = 0;
		if (nr == SYS_write || nr == SYS_writev) { if (fdinfo(t, fd, &pos, &fl)) die("fdinfo"); }
		else { pos = (int64_t)r->r10; }
		o->kind = 'W';
		o->off = (fl & O_APPEND) ? -1 : pos;
		if (nr == SYS_write || nr == SYS_pwrite64) {
			o->len = r->rdx;
			o->data = malloc(o->len + 1);
			if (o->len && readmem(t, r->rsi, o->data, o->len)) die("readmem");
		} else {
			int n = (int)r->rdx;
			struct iovec *v = calloc(n + 1, sizeof *v);
			if (n && readmem(t, r->rsi, v, n * sizeof *v)) die("readmem iov");
			for (int i = 0; i < n; i++) o->len += v[i].iov_len;
			o->data = malloc(o->len + 1);
			size_t k = 0;
			for (int i = 0; i < n; i++) {
				if (v[i].iov_len && readmem(t, (uint64_t)v[i].iov_base, o->data + k, v[i].iov_len)) die("readmem v");
				k += v[i].iov_len;
			}
			free(v);
		}
		return 1;
	}
	case SYS_ftruncate:
		if (fdpath(t, (int)r->rdi, o->p1)) return 0;
		o->kind = 'T'; o->off = (int64_t)r->rsi;
		return inside(o->p1);
	case SYS_truncate:
		if (atpath(t, AT_FDCWD, r->rdi, o->p1)) return 0;
		o->kind = 'T'; o->off = (int64_t)r->rsi;
		return inside(o->p1);
	case SYS_fallocate:
		if (r->rsi & 1) return 0; // FALLOC_FL_KEEP_SIZE
		if (fdpath(t, (int)r->rdi, o->p1)) return 0;
		o->kind = 'A'; o->off = (int64_t)(r->rdx + r->r10);
		return inside(o->p1);
	case SYS_unlink: case SYS_rmdir:
		if (atpath(t, AT_FDCWD, r->rdi, o->p1)) return 0;
		o->kind = nr == SYS_unlink ? 'U' : 'D';
		return inside(o->p1);
	case SYS_unlinkat:
		if (atpath(t, (int)r->rdi, r->rsi, o->p1)) return 0;
		o->kind = (r->rdx & AT_REMOVEDIR) ? 'D' : 'U';
		return inside(o->p1);
	case SYS_mkdir: case SYS_mkdirat:
		if (atpath(t, nr == SYS_mkdir ? AT_FDCWD : (int)r->rdi, nr == SYS_mkdir ? r->rdi : r->rsi, o->p1)) return 0;
		o->kind = 'M';
		return inside(o->p1);
	case SYS_rename: case SYS_link:
		if (atpath(t, AT_FDCWD, r->rdi, o->p1) || atpath(t, AT_FDCWD, r->rsi, o->p2)) return 0;
		o->kind = nr == SYS_rename ? 'R' : 'L';
		return inside(o->p1) & inside(o->p2);
	case SYS_renameat: case SYS_renameat2: case SYS_linkat:
		if (atpath(t, (int)r->rdi, r->rsi, o->p1) || atpath(t, (int)r->rdx, r->r10, o->p2)) return 0;
		o->kind = nr == SYS_linkat ? 'L' : 'R';
		return inside(o->p1) & inside(o->p2);
	}
	return 0;
}

static void emit(struct op *o) {
	o->n1 = strlen(o->p1);
	o->n2 = strlen(o->p2);
	fwrite(&o->kind, 4, 1, out); fwrite(&o->n1, 4, 1, out); fwrite(&o->n2, 4, 1, out); fwrite(&o->flags, 4, 1, out);
	fwrite(&o->off, 8, 1, out); fwrite(&o->len, 8, 1, out);
	fwrite(o->p1, o->n1, 1, out); fwrite(o->p2, o->n2, 1, out);
	if (o->kind == 'W' && o->len) fwrite(o->data, o->len, 1, out);
}

static long us_left(struct timespec *d) {
	struct timespec n;
	clock_gettime(CLOCK_MONOTONIC, &n);
	return (d->tv_sec - n.tv_sec) * 1000000L + (d->tv_nsec - n.tv_nsec) / 1000;
}

int main(int argc, char **argv) {
	int a = 1;
	if (argc < 7) return 97;
	out = fopen(argv[a++], "w");
	if (!out) die("out");
	if (!realpath(argv[a++], watch)) die("watch");
	nwatch = strlen(watch);
	char *h = argv[a++];
	if (strcmp(h, "-")) for (char *p = strtok(h, ","); p && nholds < 32; p = strtok(NULL, ",")) holds[nholds++] = p;
	hold_us = atol(argv[a++]);
	if (strcmp(argv[a++], "--")) return 97;

	pid_t child = fork();
	if (child == 0) {
		raise(SIGSTOP);
		struct sock_filter f[NTRACED + 8];
		int n = 0;
		f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
		for (int i = 0; i < NTRACED; i++)
			f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, traced[i], NTRACED - i, 0);
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
		struct sock_fprog pr = {n, f};
		prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
		if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) { perror("seccomp"); _exit(97); }
		execvp(argv[a], argv + a);
		perror("exec");
		_exit(97);
	}
	int st;
	if (waitpid(child, &st, WUNTRACED) != child) die("wait");
	if (ptrace(PTRACE_SEIZE, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK |
			PTRACE_O_TRACEEXEC | PTRACE_O_TRACESECCOMP | PTRACE_O_EXITKILL)) die("PTRACE_SEIZE");
	kill(child, SIGCONT);
	int rc = 97, nheld = 0;
	for (;;) {
		pid_t t = waitpid(-1, &st, __WALL | (nheld ? WNOHANG : 0));
		if (t == 0) { // nothing to report: release what is due
			for (int i = 0; i < 4096; i++) if (thrs[i] && thrs[i]->state == HELD && us_left(&thrs[i]->due) <= 0) {
				thrs[i]->state = INCALL;
				nheld--;
				ptrace(PTRACE_SYSCALL, thrs[i]->tid, 0, 0);
			}
			usleep(100);
			continue;
		}
		if (t < 0) { if (errno == EINTR) continue; break; }
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			struct thr *x = get(t, 0);
			if (x && x->state == HELD) nheld--;
			drop(t);
			if (t == child) rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
			continue;
		}
		if (!WIFSTOPPED(st)) continue;
		struct thr *x = get(t, 1);
		if (!x) die("too many threads");
		int sig = WSTOPSIG(st), ev = st >> 16;
		if (ev == PTRACE_EVENT_SECCOMP) {
			struct user_regs_struct r;
			if (ptrace(PTRACE_GETREGS, t, 0, &r)) { continue; }
			x->haveop = decode(t, &r, &x->op);
			if (!x->haveop) { ptrace(PTRACE_CONT, t, 0, 0); continue; }
			int hold = 0;
			for (int i = 0; i < nholds; i++) if (strstr(x->op.p1, holds[i])) hold = 1;
			if (hold) {
				clock_gettime(CLOCK_MONOTONIC, &x->due);
				x->due.tv_nsec += hold_us * 1000L;
				while (x->due.tv_nsec >= 1000000000L) { x->due.tv_nsec -= 1000000000L; x->due.tv_sec++; }
				x->state = HELD;
				nheld++;
			} else {
				x->state = INCALL;
				ptrace(PTRACE_SYSCALL, t, 0, 0);
			}
		} else if (sig == (SIGTRAP | 0x80)) { // syscall exit
			struct user_regs_struct r;
			if (x->haveop && !ptrace(PTRACE_GETREGS, t, 0, &r)) {
				int64_t ret = (int64_t)r.rax;
				if (ret >= 0) {
					if (x->op.kind == 'W') x->op.len = (uint64_t)ret;
					emit(&x->op);
				}
			}
			x->haveop = 0;
			x->state = RUN;
			ptrace(PTRACE_CONT, t, 0, 0);
		} else if (ev == PTRACE_EVENT_STOP) {
			if (sig == SIGSTOP || sig == SIGTSTP || sig == SIGTTIN || sig == SIGTTOU) ptrace(PTRACE_LISTEN, t, 0, 0);
			else ptrace(PTRACE_CONT, t, 0, 0);
		} else if (ev) {
			ptrace(PTRACE_CONT, t, 0, 0);
		} else {
			ptrace(x->haveop && x->state == INCALL ? PTRACE_SYSCALL : PTRACE_CONT, t, 0, sig == SIGTRAP ? 0 : sig);
		}
	}
	fclose(out);
	return rc;
}
