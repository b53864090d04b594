// In-memory file system under the code being checked: files and directories with crash points and injected faults.
// Engine build: defines the C library entry points. Replay build: linked with --wrap for each of them.
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include "../harness/symfs.h"
typedef unsigned long ul;
#ifdef SYMIR
#define W(x) x
#else
#define W(x) __wrap_##x
#endif
extern "C" {
void *malloc(ul); void free(void *); void *memcpy(void *, const void *, ul); void *memset(void *, int, ul); ul strlen(const char *); int strcmp(const char *, const char *); int strncmp(const char *, const char *, ul);
unsigned long sym_choose(unsigned long n, const char *name); long sym_concrete(long);
}
#define NX_
#define CHUNK 1024
struct Node { char *name; int dir; int alive; int nlink; Node *target; long size; int nch; char **ch; };
struct Fd { Node *n; long pos; int flags; int used; };
#define MAXN 96
#define MAXF 64
static Node *nodes[MAXN]; static int nnodes;
static Fd fds[MAXF];
long symfs_ops, symfs_crash_at = -1, symfs_fail_at = -1, symfs_fail_len = 1; int symfs_frozen, symfs_torn, symfs_writes_ro, symfs_mutations; int symfs_fail_errno = ENOSPC;
char symfs_log[64]; int symfs_logn;
struct SymCrash_ {};
static Node *base(Node *n) { while (n->target) n = n->target; return n; }
static char *norm(const char *p) { // collapse "//", "./", "../" and drop trailing '/'
  ul n = strlen(p); char *r = (char *)malloc(n + 2); ul j = 0; int abs = p[0] == '/';
  if (abs) r[j++] = '/';
  ul i = 0;
  while (i < n) {
    while (i < n && p[i] == '/') ++i;
    ul b = i; while (i < n && p[i] != '/') ++i;
    ul k = i - b;
    if (!k || (k == 1 && p[b] == '.')) continue;
    if (k == 2 && p[b] == '.' && p[b + 1] == '.' && j > (ul)abs) {
      ul q = j; while (q > (ul)abs && r[q - 1] != '/') --q;
      if (!(j - q == 2 && r[q] == '.' && r[q + 1] == '.')) { j = q > (ul)abs ? q - 1 : q; continue; }
    }
    if (j > (ul)abs) r[j++] = '/';
    memcpy(r + j, p + b, k); j += k;
  }
  r[j] = 0;
  return r;
}
static Node *find(const char *p) { char *q = norm(p); Node *r = 0; for (int i = 0; i < nnodes; ++i) if (nodes[i]->alive && !strcmp(nodes[i]->name, q)) { r = nodes[i]; break; } free(q); return r; }
static int isRoot(const char *q) { return q[0] == 0 || (q[0] == '/' && q[1] == 0); }
static Node *mk(const char *p, int dir) { char *q = norm(p); Node *n = (Node *)malloc(sizeof(Node)); n->name = q; n->dir = dir; n->alive = 1; n->nlink = 1; n->target = 0; n->size = 0; n->nch = 0; n->ch = 0; if (nnodes < MAXN) nodes[nnodes++] = n; return n; }
static int parentOk(const char *p) {
  char *q = norm(p); ul n = strlen(q); while (n > 0 && q[n - 1] != '/') --n;
  if (n <= 1) { free(q); return 1; }
  q[n - 1] = 0; Node *d = find(q); int r = d && d->dir; free(q); return r;
}
static int mut(char op) { // a mutating operation: 0 go on, 1 fail with errno
  if (symfs_frozen) return 2;
  long k = symfs_ops++;
  ++symfs_mutations;
  if (symfs_logn < 63) symfs_log[symfs_logn++] = op;
  if (k == symfs_crash_at) { symfs_frozen = 1; throw SymCrash(); }
  if (symfs_fail_at >= 0 && k >= symfs_fail_at && k < symfs_fail_at + symfs_fail_len) { errno = symfs_fail_errno; return 1; }
  return 0;
}
static void setch(Node *n, long need) { // chunks available up to byte 'need'
  int c = (int)((need + CHUNK - 1) / CHUNK);
  if (c <= n->nch) return;
  int cap = c + 2; char **ch = (char **)malloc(cap * sizeof(char *));
  for (int i = 0; i < cap; ++i) ch[i] = i < n->nch ? n->ch[i] : 0;
  free(n->ch); n->ch = ch; n->nch = cap;
}
static void wr(Node *n, long pos, const char *p, long k) {
  setch(n, pos + k);
  while (k > 0) { long c = pos / CHUNK, o = pos % CHUNK, m = CHUNK - o; if (m > k) m = k; if (!n->ch[c]) { n->ch[c] = (char *)malloc(CHUNK); memset(n->ch[c], 0, CHUNK); } memcpy(n->ch[c] + o, p, m); p += m; pos += m; k -= m; }
  if (pos > n->size) n->size = pos;
}
static long rd(Node *n, long pos, char *p, long k) {
  if (pos >= n->size) return 0;
  if (k > n->size - pos) k = n->size - pos;
  long left = k;
  while (left > 0) { long c = pos / CHUNK, o = pos % CHUNK, m = CHUNK - o; if (m > left) m = left; if (c < n->nch && n->ch[c]) memcpy(p, n->ch[c] + o, m); else memset(p, 0, m); p += m; pos += m; left -= m; }
  return k;
}
static void trunc_(Node *n, long size) {
  for (int i = 0; i < n->nch; ++i) if (n->ch[i]) {
    long b = (long)i * CHUNK;
    if (b >= size) { free(n->ch[i]); n->ch[i] = 0; }
    else if (b + CHUNK > size) memset(n->ch[i] + (size - b), 0, b + CHUNK - size);
  }
  n->size = size;
}
static int open_(const char *name, int flags) {
  Node *n = find(name);
  if (n) n = base(n);
  if (!n) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (!parentOk(name)) { errno = ENOENT; return -1; }
    if (mut('c')) return -1;
    n = mk(name, 0);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (n->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
  if ((flags & O_TRUNC) && n->size) { if (mut('t')) return -1; trunc_(n, 0); }
  for (int i = 0; i < MAXF; ++i) if (!fds[i].used) { fds[i].used = 1; fds[i].n = n; fds[i].pos = 0; fds[i].flags = flags; return i + 3; }
  errno = EMFILE; return -1;
}
static Fd *fd_(int fd) { if (fd < 3 || fd >= MAXF + 3 || !fds[fd - 3].used) { errno = EBADF; return 0; } return &fds[fd - 3]; }
static long write_(Fd *f, const void *p, long n) {
  if ((f->flags & O_ACCMODE) == O_RDONLY) { ++symfs_writes_ro; errno = EBADF; return -1; }
  if (n <= 0) return 0;
  if (f->flags & O_APPEND) f->pos = f->n->size;
  if (symfs_torn && !symfs_frozen && symfs_ops == symfs_crash_at) { // the write in progress at the crash is cut short
    long cut = symfs_torn == 1 ? n / 2 : symfs_torn == 2 ? (n > 4096 ? 4096 : n / 4) : n - 1;
    wr(f->n, f->pos, (const char *)p, cut);
  }
  int m = mut('w');
  if (m == 2) return n;
  if (m) return -1;
  wr(f->n, f->pos, (const char *)p, n); f->pos += n; return n;
}
extern "C" {
int W(open)(const char *name, int flags, ...) { return open_(name, flags); }
int W(open64)(const char *name, int flags, ...) { return open_(name, flags); }
int W(close)(int fd) { Fd *f = fd_(fd); if (!f) return -1; f->used = 0; return 0; }
ssize_t W(read)(int fd, void *p, size_t n) { n = sym_concrete(n); Fd *f = fd_(fd); if (!f) return -1; if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; } long k = rd(f->n, f->pos, (char *)p, (long)n); f->pos += k; return k; }
ssize_t W(write)(int fd, const void *p, size_t n) { n = sym_concrete(n); Fd *f = fd_(fd); if (!f) return -1; return write_(f, p, (long)n); }
ssize_t W(pread)(int fd, void *p, size_t n, off_t o) { Fd *f = fd_(fd); if (!f) return -1; return rd(f->n, o, (char *)p, (long)n); }
ssize_t W(pwrite)(int fd, const void *p, size_t n, off_t o) { Fd *f = fd_(fd); if (!f) return -1; long sv = f->pos; f->pos = o; long r = write_(f, p, (long)n); f->pos = sv; return r; }
off_t W(lseek)(int fd, off_t o, int wh) { o = sym_concrete(o); Fd *f = fd_(fd); if (!f) return -1; long b = wh == 0 ? 0 : wh == 1 ? f->pos : f->n->size; if (b + o < 0) { errno = EINVAL; return -1; } return f->pos = b + o; }
off_t W(lseek64)(int fd, off_t o, int wh) { return W(lseek)(fd, o, wh); }
int W(ftruncate)(int fd, off_t n) NX_ { n = sym_concrete(n); Fd *f = fd_(fd); if (!f) return -1; if ((f->flags & O_ACCMODE) == O_RDONLY) { ++symfs_writes_ro; errno = EINVAL; return -1; } if (n < 0) { errno = EINVAL; return -1; } int m = mut('T'); if (m == 2) return 0; if (m) return -1; trunc_(f->n, n); return 0; }
int W(ftruncate64)(int fd, off_t n) NX_ { return W(ftruncate)(fd, n); }
int W(posix_fallocate)(int fd, off_t o, off_t n) { Fd *f = fd_(fd); if (!f) return EBADF; if ((f->flags & O_ACCMODE) == O_RDONLY) return EBADF; int m = mut('a'); if (m == 2) return 0; if (m) return symfs_fail_errno; if (f->n->size < o + n) f->n->size = o + n; return 0; }
int W(posix_fallocate64)(int fd, off_t o, off_t n) { return W(posix_fallocate)(fd, o, n); }
int W(fsync)(int fd) { return fd_(fd) ? 0 : -1; }
int W(fdatasync)(int fd) { return fd_(fd) ? 0 : -1; }
int W(unlink)(const char *p) NX_ { Node *n = find(p); if (!n) { errno = ENOENT; return -1; } if (n->dir) { errno = EISDIR; return -1; } int m = mut('u'); if (m == 2) return 0; if (m) return -1; n->alive = 0; return 0; }
int W(rmdir)(const char *p) { Node *n = find(p); if (!n || !n->dir) { errno = ENOENT; return -1; } ul k = strlen(n->name); for (int i = 0; i < nnodes; ++i) if (nodes[i]->alive && nodes[i] != n && !strncmp(nodes[i]->name, n->name, k) && nodes[i]->name[k] == '/') { errno = ENOTEMPTY; return -1; } int m = mut('d'); if (m == 2) return 0; if (m) return -1; n->alive = 0; return 0; }
int W(remove)(const char *p) NX_ { Node *n = find(p); if (n && n->dir) return W(rmdir)(p); return W(unlink)(p); }
int W(rename)(const char *a, const char *b) NX_ { Node *n = find(a); if (!n) { errno = ENOENT; return -1; } if (!parentOk(b)) { errno = ENOENT; return -1; } int m = mut('r'); if (m == 2) return 0; if (m) return -1; Node *t = find(b); if (t == n) return 0; if (t) t->alive = 0; n->name = norm(b); return 0; }
int W(link)(const char *a, const char *b) NX_ { Node *n = find(a); if (!n) { errno = ENOENT; return -1; } if (find(b)) { errno = EEXIST; return -1; } if (!parentOk(b)) { errno = ENOENT; return -1; } int m = mut('l'); if (m == 2) return 0; if (m) return -1; Node *t = mk(b, n->dir); t->target = base(n); return 0; }
int W(mkdir)(const char *p, mode_t) NX_ { char *q = norm(p); int root = isRoot(q); free(q); if (root || find(p)) { errno = EEXIST; return -1; } if (!parentOk(p)) { errno = ENOENT; return -1; } int m = mut('m'); if (m == 2) return 0; if (m) return -1; mk(p, 1); return 0; }
int W(access)(const char *p, int) NX_ { char *q = norm(p); int root = isRoot(q); free(q); if (root || find(p)) return 0; errno = ENOENT; return -1; }
static void fillst(Node *n, struct stat *s) { memset(s, 0, sizeof *s); if (n) n = base(n); s->st_size = n ? n->size : 0; s->st_mode = (!n || n->dir) ? (S_IFDIR | 0755) : (S_IFREG | 0644); s->st_nlink = 1; s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512; }
int W(stat)(const char *p, struct stat *s) NX_ { char *q = norm(p); int root = isRoot(q); free(q); Node *n = find(p); if (!n && !root) { errno = ENOENT; return -1; } fillst(n, s); return 0; }
int W(lstat)(const char *p, struct stat *s) NX_ { return W(stat)(p, s); }
int W(fstat)(int fd, struct stat *s) NX_ { Fd *f = fd_(fd); if (!f) return -1; fillst(f->n, s); return 0; }
int W(stat64)(const char *p, struct stat64 *s) NX_ { return W(stat)(p, (struct stat *)s); }
int W(lstat64)(const char *p, struct stat64 *s) NX_ { return W(stat)(p, (struct stat *)s); }
int W(fstat64)(int fd, struct stat64 *s) NX_ { return W(fstat)(fd, (struct stat *)s); }
long symfs_free_bytes = 1L << 40;
int W(statvfs)(const char *, struct statvfs *s) NX_ { memset(s, 0, sizeof *s); s->f_bsize = 4096; s->f_frsize = 4096; s->f_bavail = symfs_free_bytes / 4096; s->f_bfree = s->f_bavail; s->f_favail = 1 << 20; s->f_ffree = 1 << 20; s->f_files = 1 << 20; s->f_blocks = 1 << 28; s->f_namemax = 255; return 0; }
int W(statvfs64)(const char *p, struct statvfs64 *s) NX_ { return W(statvfs)(p, (struct statvfs *)s); }
long W(sysconf)(int n) NX_ { return n == 30 ? 4096 : n == 84 ? 8 : -1; }
// FILE-less stream interface used by the fstream stand-in; flags 1 read 2 write 4 trunc 8 app
void *symrt_fopen(const char *name, int fl) {
  int f = (fl & 2) ? ((fl & 1) ? O_RDWR : O_WRONLY | O_CREAT) : O_RDONLY;
  if ((fl & 2) && !(fl & 1) && !(fl & 8)) f |= O_TRUNC;
  if (fl & 4) f |= O_TRUNC | O_CREAT;
  if (fl & 8) f |= O_APPEND | O_CREAT;
  int d = open_(name, f); return d < 0 ? 0 : (void *)&fds[d - 3];
}
long symrt_fwrite(void *f, const char *p, long n) { return write_((Fd *)f, p, n); }
int symrt_fpeek(void *f) { Fd *d = (Fd *)f; unsigned char c; if (d->n->dir) return -1; return rd(d->n, d->pos, (char *)&c, 1) == 1 ? c : -1; }
int symrt_fgetc(void *f) { int c = symrt_fpeek(f); if (c >= 0) ++((Fd *)f)->pos; return c; }
int symrt_fclose(void *f) { ((Fd *)f)->used = 0; return 0; }
// the FILE functions the daemon uses to serve files
void *W(fopen)(const char *name, const char *mode) { return symrt_fopen(name, mode[0] == 'r' ? 1 : mode[0] == 'w' ? 2 | 4 : 2 | 8); }
void *W(fopen64)(const char *name, const char *mode) { return W(fopen)(name, mode); }
int W(fclose)(void *f) { return symrt_fclose(f); }
int W(fseek)(void *v, long o, int wh) { Fd *f = (Fd *)v; long b = wh == 0 ? 0 : wh == 1 ? f->pos : f->n->dir ? 0x7fffffffffffffffL : f->n->size; f->pos = b + o; return 0; }
long W(ftell)(void *v) { return ((Fd *)v)->pos; }
ul W(fread)(void *p, ul sz, ul n, void *v) { Fd *f = (Fd *)v; if (f->n->dir) { errno = EISDIR; return 0; } long k = rd(f->n, f->pos, (char *)p, (long)(sz * n)); if (k <= 0) return 0; f->pos += k; return (ul)k / sz; }
// ---- harness side
struct symfs_dir { int i; char *name; struct dirent64 e; };
int symfs_iter(const char *dir, int from, const char **leaf) { // next entry of dir at or after index 'from'; returns index+1 or 0
  char *q = norm(dir); ul k = strlen(q); int root = isRoot(q); int r = 0;
  for (int i = from; i < nnodes; ++i) { Node *n = nodes[i]; if (!n->alive) continue; const char *l = 0;
    if (root && q[0] == 0) { if (n->name[0] != '/') l = n->name; }
    else if (root) { if (n->name[0] == '/') l = n->name + 1; }
    else if (!strncmp(n->name, q, k) && n->name[k] == '/') l = n->name + k + 1;
    if (!l) continue; int sl = 0; for (const char *c = l; *c; ++c) if (*c == '/') sl = 1; if (sl) continue;
    *leaf = l; r = i + 1; break; }
  free(q); return r;
}
DIR *W(opendir)(const char *p) { char *q = norm(p); int root = isRoot(q); Node *n = find(p); if (!root && (!n || !n->dir)) { free(q); errno = ENOENT; return 0; } symfs_dir *d = (symfs_dir *)malloc(sizeof *d); d->i = -2; d->name = q; return (DIR *)d; }
struct dirent64 *W(readdir64)(DIR *v) { symfs_dir *d = (symfs_dir *)v; if (d->i < 0) { const char *t = d->i == -2 ? "." : ".."; memcpy(d->e.d_name, t, strlen(t) + 1); d->e.d_type = DT_DIR; ++d->i; return &d->e; }
  const char *l; int r = symfs_iter(d->name, d->i, &l); if (!r) return 0; d->i = r; ul n = strlen(l); if (n > 250) n = 250; memcpy(d->e.d_name, l, n); d->e.d_name[n] = 0; d->e.d_type = nodes[r - 1]->dir ? DT_DIR : DT_REG; return &d->e; }
struct dirent *W(readdir)(DIR *v) { return (struct dirent *)W(readdir64)(v); }
int W(closedir)(DIR *v) { free(v); return 0; }
int symfs_isdir(const char *p) { char *q = norm(p); int root = isRoot(q); free(q); if (root) return 1; Node *n = find(p); return n && n->dir; }
int symfs_exists(const char *p) { return W(access)(p, 0) == 0; }
long symfs_size(const char *p) { Node *n = find(p); return n ? base(n)->size : -1; }
long symfs_read(const char *p, long pos, void *buf, long n) { Node *x = find(p); return x ? rd(base(x), pos, (char *)buf, n) : -1; }
void symfs_put(const char *p, long pos, const void *buf, long n) { Node *x = find(p); if (!x) x = mk(p, 0); wr(base(x), pos, (const char *)buf, n); }
void symfs_resize(const char *p, long n) { Node *x = find(p); if (!x) x = mk(p, 0); trunc_(base(x), n); }
void symfs_mkdirs(const char *p) { char *q = norm(p); ul n = strlen(q); for (ul i = 1; i <= n; ++i) if (i == n || q[i] == '/') { char c = q[i]; q[i] = 0; if (!find(q)) mk(q, 1); q[i] = c; } free(q); }
void symfs_reboot() { symfs_frozen = 0; symfs_crash_at = symfs_fail_at = -1; for (int i = 0; i < MAXF; ++i) fds[i].used = 0; }
int symfs_open_fds() { int n = 0; for (int i = 0; i < MAXF; ++i) n += fds[i].used; return n; }
int symfs_count() { int n = 0; for (int i = 0; i < nnodes; ++i) n += nodes[i]->alive; return n; }
const char *symfs_name(int k) { for (int i = 0; i < nnodes; ++i) if (nodes[i]->alive && k-- == 0) return nodes[i]->name; return 0; }
}
