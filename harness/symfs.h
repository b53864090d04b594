// In-memory file system controls (rt/fs.cpp)
#pragma once
struct SymCrash {};
extern long symfs_ops, symfs_crash_at, symfs_fail_at, symfs_fail_len; extern int symfs_frozen, symfs_torn, symfs_writes_ro, symfs_mutations, symfs_fail_errno;
extern char symfs_log[64]; extern int symfs_logn;
extern "C" {
extern long symfs_free_bytes;
int symfs_isdir(const char *p);
int symfs_exists(const char *p);
long symfs_size(const char *p);
long symfs_read(const char *p, long pos, void *buf, long n);
void symfs_put(const char *p, long pos, const void *buf, long n);
void symfs_resize(const char *p, long n);
void symfs_mkdirs(const char *p);
void symfs_reboot();
int symfs_open_fds();
int symfs_count();
const char *symfs_name(int k);
int symfs_iter(const char *dir, int from, const char **leaf);
}
