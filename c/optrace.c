/* optrace -d DIR -o LOG [-b BLOBS] [-x PREFIX]... [-n N -m MODE [-e ERRNO]] -- CMD...
 *
 * Runs CMD and logs, one JSON object per line, every operation of it on files
 * below DIR that could change what is on disk, with the contents of the file
 * after it (stored in BLOBS by a hash).  Files whose name starts with PREFIX
 * are left out.  At operation N it interferes:
 *   before  kill the program instead of doing it
 *   part    do half of it if it writes, then kill
 *   after   do it, then kill
 *   error   let it fail with ERRNO
 *   errors  let it and every later operation of its kind fail with ERRNO
 *   short   let it write half of what it is to write
 *   full    as short, and let all later ones of its kind fail with ERRNO
 * Only system calls that matter stop the program (a seccomp filter picks them).
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static const int calls[] = {
	SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_pwritev2,
	SYS_sendfile, SYS_copy_file_range, SYS_splice, SYS_ftruncate, SYS_truncate, SYS_fallocate,
	SYS_fsync, SYS_fdatasync, SYS_sync_file_range, SYS_sync, SYS_syncfs, SYS_msync, SYS_mmap,
	SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat,
	SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_mkdir, SYS_mkdirat,
};
#define NCALLS (sizeof calls / sizeof *calls)

static char dir[PATH_MAX], *blobs, *prefix[8];
static int nprefix;
static FILE *out;
static long opn, target;
static char *mode;
static int err, killed, hitkind = -1;
static pid_t root;

struct op {
	pid_t tid;
	int live, kill;
	long nr, n;
	const char *kind;
	char a[PATH_MAX], b[PATH_MAX];
	int existed, fd, sync, creat, trunc;
	char was[20];
};
static struct op ops[512];

static struct op *opof(pid_t tid)
{
	int i, f = -1;
	for (i = 0; i < 512; i++) {
		if (ops[i].live && ops[i].tid == tid) return &ops[i];
		if (!ops[i].live && f < 0) f = i;
	}
	if (f < 0) { fprintf(stderr, "optrace: too many threads\n"); exit(99); }
	return &ops[f];
}

static void peekstr(pid_t tid, unsigned long addr, char *s, size_t n)
{
	size_t i = 0;
	s[0] = 0;
	if (!addr) return;
	while (i < n - 1) {
		size_t chunk = 64 - (addr + i) % 64;
		if (chunk > n - 1 - i) chunk = n - 1 - i;
		struct iovec l = {s + i, chunk}, r = {(void *)(addr + i), chunk};
		if (process_vm_readv(tid, &l, 1, &r, 1, 0) <= 0) break;
		char *z = memchr(s + i, 0, chunk);
		if (z) return;
		i += chunk;
	}
	s[i] = 0;
}

/* path of a file descriptor */
static void fdpath(pid_t tid, int fd, char *s)
{
	char p[64];
	snprintf(p, sizeof p, "/proc/%d/fd/%d", tid, fd);
	ssize_t n = readlink(p, s, PATH_MAX - 1);
	s[n < 0 ? 0 : n] = 0;
}

/* full path of path relative to dirfd, its directory resolved */
static void full(pid_t tid, int dirfd, unsigned long addr, char *s)
{
	char p[PATH_MAX], q[2 * PATH_MAX + 2], base[PATH_MAX], d[PATH_MAX], l[64];
	peekstr(tid, addr, p, sizeof p);
	if (p[0] == '/') snprintf(q, sizeof q, "%s", p);
	else {
		if (dirfd == AT_FDCWD) {
			snprintf(l, sizeof l, "/proc/%d/cwd", tid);
			ssize_t n = readlink(l, d, sizeof d - 1);
			d[n < 0 ? 0 : n] = 0;
		} else fdpath(tid, dirfd, d);
		snprintf(q, sizeof q, "%s/%s", d, p);
	}
	char *z = strrchr(q, '/');
	if (!z) { s[0] = 0; return; }
	snprintf(base, sizeof base, "%s", z + 1);
	*z = 0;
	if (!realpath(q[0] ? q : "/", d)) { s[0] = 0; return; }
	snprintf(s, PATH_MAX, "%s/%s", strcmp(d, "/") ? d : "", base);
}

static int ours(const char *p)
{
	size_t n = strlen(dir);
	if (strncmp(p, dir, n) || (p[n] != '/' && p[n])) return 0;
	const char *b = strrchr(p, '/') + 1;
	for (int i = 0; i < nprefix; i++)
		if (!strncmp(b, prefix[i], strlen(prefix[i]))) return 0;
	return 1;
}

static unsigned long long fnv(const unsigned char *b, size_t n)
{
	unsigned long long h = 14695981039346656037ULL;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
	return h;
}

/* hash of the contents of a file, which are kept */
static void contents(const char *path, char *tok)
{
	struct stat st;
	strcpy(tok, "");
	int fd = open(path, O_RDONLY | O_NONBLOCK);
	if (fd < 0) return;
	if (fstat(fd, &st) || !S_ISREG(st.st_mode)) { close(fd); return; }
	size_t cap = st.st_size + 1, n = 0;
	unsigned char *b = malloc(cap);
	ssize_t k;
	while ((k = read(fd, b + n, cap - n)) > 0) {
		n += k;
		if (n == cap) b = realloc(b, cap *= 2);
	}
	close(fd);
	sprintf(tok, "%016llx", fnv(b, n));
	if (blobs) {
		char p[PATH_MAX];
		snprintf(p, sizeof p, "%s/%s", blobs, tok);
		if (access(p, F_OK)) {
			FILE *f = fopen(p, "wb");
			if (f) { fwrite(b, 1, n, f); fclose(f); }
		}
	}
	free(b);
}

static unsigned long ino_of(const char *p, int follow)
{
	struct stat st;
	if (follow ? stat(p, &st) : lstat(p, &st)) return 0;
	return st.st_ino;
}

static void esc(const char *s)
{
	fputc('"', out);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(out, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(out, "\\u00%02x", c);
		else fputc(c, out);
	}
	fputc('"', out);
}

/* what the call is about; kind is NULL if it does not matter */
static void classify(pid_t tid, struct user_regs_struct *r, struct op *o)
{
	long nr = r->orig_rax;
	int fd = r->rdi, dfd = AT_FDCWD, flags = 0;
	unsigned long pa = r->rdi;
	memset(o, 0, sizeof *o);
	o->tid = tid; o->nr = nr; o->fd = -1;
	switch (nr) {
	case SYS_open: flags = r->rsi; goto Open;
	case SYS_creat: flags = O_CREAT | O_WRONLY | O_TRUNC; goto Open;
	case SYS_openat: flags = r->rdx; dfd = (int)r->rdi; pa = r->rsi;
	Open:
		if (!(flags & (O_CREAT | O_TRUNC)) && (flags & O_ACCMODE) == O_RDONLY) return;
		full(tid, dfd, pa, o->a);
		o->existed = ino_of(o->a, 1) != 0;
		if (!(flags & O_TRUNC) && !(flags & O_CREAT && !o->existed)) return;
		o->creat = flags & O_CREAT && !o->existed;
		o->trunc = !!(flags & O_TRUNC);
		if (o->existed) {
			char t[PATH_MAX];
			if (realpath(o->a, t)) strcpy(o->a, t);
		}
		o->kind = o->creat ? "create" : "data";
		break;
	case SYS_copy_file_range: case SYS_splice: fd = r->rdx; /* fall through */
	case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_pwritev2: case SYS_sendfile:
	case SYS_ftruncate: case SYS_fallocate:
		fdpath(tid, fd, o->a);
		o->fd = fd; o->kind = "data";
		break;
	case SYS_mmap:
		if (!(r->rdx & PROT_WRITE) || !(r->r10 & MAP_SHARED) || (int)r->r8 < 0) return;
		fd = r->r8;
		fdpath(tid, fd, o->a);
		o->fd = fd; o->kind = "wild";
		break;
	case SYS_truncate:
		full(tid, AT_FDCWD, r->rdi, o->a);
		o->kind = "data";
		break;
	case SYS_fsync: case SYS_fdatasync:
		fdpath(tid, fd, o->a);
		o->fd = fd; o->kind = "sync";
		break;
	case SYS_sync: case SYS_syncfs:
		strcpy(o->a, dir); o->kind = "syncall";
		break;
	case SYS_sync_file_range: case SYS_msync: return; /* no guarantee is taken from these */
	case SYS_rename: full(tid, AT_FDCWD, r->rdi, o->a); full(tid, AT_FDCWD, r->rsi, o->b); o->kind = "move"; break;
	case SYS_renameat: case SYS_renameat2:
		full(tid, (int)r->rdi, r->rsi, o->a); full(tid, (int)r->rdx, r->r10, o->b);
		o->kind = nr == SYS_renameat2 && (r->r8 & 2) ? "swap" : "move"; break;
	case SYS_link: full(tid, AT_FDCWD, r->rdi, o->a); full(tid, AT_FDCWD, r->rsi, o->b); o->kind = "link"; break;
	case SYS_linkat: full(tid, (int)r->rdi, r->rsi, o->a); full(tid, (int)r->rdx, r->r10, o->b); o->kind = "link"; break;
	case SYS_symlink: full(tid, AT_FDCWD, r->rsi, o->a); peekstr(tid, r->rdi, o->b, PATH_MAX); o->kind = "symlink"; break;
	case SYS_symlinkat: full(tid, (int)r->rsi, r->rdx, o->a); peekstr(tid, r->rdi, o->b, PATH_MAX); o->kind = "symlink"; break;
	case SYS_unlink: case SYS_rmdir: full(tid, AT_FDCWD, r->rdi, o->a); o->kind = "remove"; break;
	case SYS_unlinkat: full(tid, (int)r->rdi, r->rsi, o->a); o->kind = "remove"; break;
	case SYS_chmod: full(tid, AT_FDCWD, r->rdi, o->a); o->kind = "mode"; break;
	case SYS_fchmodat: full(tid, (int)r->rdi, r->rsi, o->a); o->kind = "mode"; break;
	case SYS_fchmod: fdpath(tid, fd, o->a); o->fd = fd; o->kind = "mode"; break;
	case SYS_mkdir: full(tid, AT_FDCWD, r->rdi, o->a); o->kind = "mkdir"; break;
	case SYS_mkdirat: full(tid, (int)r->rdi, r->rsi, o->a); o->kind = "mkdir"; break;
	}
	if (!o->kind) return;
	if (!ours(o->a) && !(o->b[0] && ours(o->b))) { o->kind = NULL; return; }
	if (!strcmp(o->kind, "data") && o->fd >= 0) {
		char p[64], l[128];
		snprintf(p, sizeof p, "/proc/%d/fdinfo/%d", tid, o->fd);
		FILE *f = fopen(p, "r");
		while (f && fgets(l, sizeof l, f)) {
			unsigned fl;
			if (sscanf(l, "flags: %o", &fl) == 1 && (fl & O_DSYNC)) o->sync = 1;
		}
		if (f) fclose(f);
	}
	if (!strcmp(o->kind, "data") && o->existed) contents(o->a, o->was);
}

/* log what has been done */
static void record(struct op *o, long ret)
{
	char tok[20] = "", p[PATH_MAX];
	unsigned long ino = 0;
	const char *k = o->kind;
	if (ret >= 0 && (!strcmp(k, "create") || !strcmp(k, "data") || !strcmp(k, "sync") || !strcmp(k, "wild"))) {
		if (o->fd >= 0) snprintf(p, sizeof p, "/proc/%d/fd/%d", o->tid, o->fd);
		else snprintf(p, sizeof p, "%s", o->a);
		ino = ino_of(p, 1);
		contents(p, tok);
	}
	fprintf(out, "{\"n\": %ld, \"k\": \"%s\", \"a\": ", o->n, k);
	esc(o->a);
	fprintf(out, ", \"b\": ");
	esc(o->b);
	fprintf(out, ", \"ret\": %ld, \"ino\": %lu, \"tok\": \"%s\", \"sync\": %d}\n", ret, ino, tok, o->sync);
	fflush(out);
}

static void die(void)
{
	killed = 1;
	kill(root, SIGKILL);
}

static void child(char **argv)
{
	struct sock_filter f[NCALLS * 1 + 8];
	int n = 0;
	f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (unsigned i = 0; i < NCALLS; i++)
		f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, calls[i], NCALLS - i, 0);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
	struct sock_fprog prog = {n, f};
	ptrace(PTRACE_TRACEME, 0, 0, 0);
	raise(SIGSTOP);
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) {
		perror("optrace: seccomp");
		_exit(98);
	}
	execvp(argv[0], argv);
	perror("optrace: exec");
	_exit(97);
}

int main(int argc, char **argv)
{
	int c, status, rc = 0;
	while ((c = getopt(argc, argv, "+d:o:b:x:n:m:e:")) != -1) switch (c) {
		case 'd': if (!realpath(optarg, dir)) return 96; break;
		case 'o': out = fopen(optarg, "w"); break;
		case 'b': blobs = optarg; mkdir(optarg, 0700); break;
		case 'x': prefix[nprefix++] = optarg; break;
		case 'n': target = atol(optarg); break;
		case 'm': mode = optarg; break;
		case 'e': err = atoi(optarg); break;
		default: return 96;
	}
	if (!out || !dir[0] || optind >= argc) return 96;
	fcntl(fileno(out), F_SETFD, FD_CLOEXEC);
	root = fork();
	if (root == 0) child(argv + optind);
	waitpid(root, &status, 0);
	if (ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK |
			PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD)) { perror("optrace: ptrace"); return 95; }
	ptrace(PTRACE_CONT, root, 0, 0);
	for (;;) {
		pid_t tid = waitpid(-1, &status, __WALL);
		if (tid < 0) { if (errno == EINTR) continue; break; }
		if (WIFEXITED(status) || WIFSIGNALED(status)) {
			if (tid == root) rc = WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
			struct op *o = opof(tid);
			if (o->live) o->live = 0;
			continue;
		}
		int sig = WSTOPSIG(status), ev = status >> 16;
		if (ev == PTRACE_EVENT_SECCOMP) {
			struct user_regs_struct r;
			struct op *o = opof(tid);
			ptrace(PTRACE_GETREGS, tid, 0, &r);
			classify(tid, &r, o);
			if (!o->kind) { ptrace(PTRACE_CONT, tid, 0, 0); continue; }
			o->n = ++opn;
			o->live = 1;
			int hit = mode && o->n == target, fail = hit && !strcmp(mode, "error");
			int data = !strcmp(o->kind, "data") && (o->nr == SYS_write || o->nr == SYS_pwrite64);
			if (mode && !strcmp(mode, "errors")) {
				if (hit) hitkind = o->nr;
				if (hitkind == o->nr) fail = 1;
			}
			if (mode && !strcmp(mode, "full")) {
				if (hitkind == o->nr) fail = 1;
				if (hit) hitkind = o->nr;
			}
			if (fail) {
				r.orig_rax = -1;
				r.rax = -err;
				ptrace(PTRACE_SETREGS, tid, 0, &r);
			} else if (hit && !strcmp(mode, "before")) {
				die();
				continue;
			} else if (hit && (!strcmp(mode, "part") || !strcmp(mode, "short") || !strcmp(mode, "full"))) {
				if (data && r.rdx > 1) { r.rdx /= 2; ptrace(PTRACE_SETREGS, tid, 0, &r); }
				o->kill = !strcmp(mode, "part");
			} else if (hit && !strcmp(mode, "after")) o->kill = 1;
			ptrace(PTRACE_SYSCALL, tid, 0, 0);
			continue;
		}
		if (sig == (SIGTRAP | 0x80)) {
			struct op *o = opof(tid);
			if (o->live) {
				struct user_regs_struct r;
				ptrace(PTRACE_GETREGS, tid, 0, &r);
				record(o, (long)r.rax);
				o->live = 0;
				if (o->kill) { die(); continue; }
			}
			ptrace(PTRACE_CONT, tid, 0, 0);
			continue;
		}
		if (ev) { ptrace(PTRACE_CONT, tid, 0, 0); continue; }
		if (sig == SIGSTOP || sig == SIGTRAP) sig = 0;
		ptrace(PTRACE_CONT, tid, 0, sig);
	}
	fprintf(out, "{\"k\": \"end\", \"rc\": %d, \"killed\": %d, \"ops\": %ld}\n", rc, killed, opn);
	fclose(out);
	return rc;
}
