#include "simfs.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace rt;
namespace simfs {
u32 p_fail_ppm, p_short_ppm, p_tear_ppm; i64 space_left = -1; bool faults_on;
struct Inode { std::string data; };
struct Open { std::shared_ptr<Inode> ino; off_t pos = 0; bool rd = false, wr = false, app = false; int node = -1; int fd = 0; std::string path; };
static std::map<std::string, std::shared_ptr<Inode>>* names;
static std::map<int, Open*>* fds;
static int next_fd = 100000; static u64 nfaults;
static void init() { if (!names) { names = new std::map<std::string, std::shared_ptr<Inode>>(); fds = new std::map<int, Open*>(); } }
static bool sim_path(const char* p) { return spec && p && !strncmp(p, "/sim/", 5); }
static Open* of(int fd) { if (fd < 100000 || fd >= 200000 || !fds) return nullptr; auto it = fds->find(fd); return it == fds->end() ? nullptr : it->second; }
static bool is_open_ptr(void* f) { if (!fds || !spec) return false; for (auto& p : *fds) if (p.second == f) return true; return false; }
bool exists(const std::string& p) { Hold h; init(); return names->count(p) > 0; }
std::string content(const std::string& p) { Hold h; init(); auto it = names->find(p); return it == names->end() ? std::string() : it->second->data; }
void put(const std::string& p, const std::string& b) { Hold h; init(); auto& i = (*names)[p]; if (!i) i = std::make_shared<Inode>(); i->data = b; }
void remove_all(const std::string& pre) { Hold h; init(); for (auto it = names->begin(); it != names->end();) if (!it->first.compare(0, pre.size(), pre)) it = names->erase(it); else ++it; }
void close_all(int node) { Hold h; init(); for (auto it = fds->begin(); it != fds->end();) if (it->second->node == node) { it = fds->erase(it); } else ++it; }   // the Open objects of a dead process are never freed: stale pointers stay harmless
u64 faults() { return nfaults; }
// an operation begins: a scheduling point, then perhaps an error
static int begin(const char* op, const std::string& path) {
    yield_point('F');
    Hold h;
    fold(hash_bytes(path.data(), path.size(), hash_bytes(op, strlen(op))));
    static const int errs[] = {EIO, ENOSPC, EMFILE, EACCES, EIO, EINTR};
    if (!faults_on || !p_fail_ppm) { note("fs.ops"); return 0; }
    note("fs.ops");
    u32 v = choose('F', mix(cur_ident(), hash_bytes(op, strlen(op))), p_fail_ppm, 5);
    if (!v) return 0;
    nfaults++; note((std::string("fault.fs_") + op).c_str()); trace("fault: %s %s fails (errno %d)", op, path.c_str(), errs[v - 1]);
    return errs[v - 1];
}
static size_t shorten(const char* op, size_t n) {
    if (!faults_on || !p_short_ppm || n < 2) return n;
    Hold h;
    u32 v = choose('f', mix(cur_ident(), hash_bytes(op, strlen(op))), p_short_ppm, 16);
    if (!v) return n;
    nfaults++; note((std::string("fault.fs_short_") + op).c_str());
    size_t m = n * v / 17; return m < 1 ? 1 : m;
}
static ssize_t do_write(Open* o, const char* p, size_t n) {
    if (int e = begin("write", o->path)) { errno = e; return -1; }
    if (!o->wr) { errno = EBADF; return -1; }
    size_t m = shorten("write", n);
    { Hold h;
      if (space_left >= 0 && faults_on) { if (space_left == 0 && m) { nfaults++; note("fault.fs_full"); errno = ENOSPC; return -1; } if ((i64)m > space_left) m = (size_t)space_left; space_left -= (i64)m; } }
    auto put = [&](const char* q, size_t k) { Hold h; std::string& d = o->ino->data; if (o->app) o->pos = (off_t)d.size(); if (d.size() < (size_t)o->pos + k) d.resize((size_t)o->pos + k); memcpy(&d[(size_t)o->pos], q, k); o->pos += (off_t)k; fold(mix(hash_bytes(q, k), (u64)o->pos)); };
    u32 tear = 0; if (m > 1 && p_tear_ppm) { Hold h; tear = choose('t', cur_ident(), p_tear_ppm, 8); }
    if (tear) { size_t a = std::max<size_t>(1, m * tear / 9); put(p, a); note("fs.torn_write_points"); yield_point('F'); if (m > a) put(p + a, m - a); }
    else put(p, m);
    yield_point('F');
    return (ssize_t)m;
}
static ssize_t do_read(Open* o, char* p, size_t n) {
    if (int e = begin("read", o->path)) { errno = e; return -1; }
    Hold h;
    if (!o->rd) { errno = EBADF; return -1; }
    std::string& d = o->ino->data;
    if ((size_t)o->pos >= d.size()) return 0;
    size_t m = std::min(n, d.size() - (size_t)o->pos); m = shorten("read", m);
    memcpy(p, d.data() + o->pos, m); o->pos += (off_t)m; return (ssize_t)m;
}
static Open* do_open(const char* path, bool rd, bool wr, bool creat, bool trunc, bool app) {
    if (int e = begin("open", path)) { errno = e == EINTR ? EIO : e; return nullptr; }
    Hold h; init();
    auto it = names->find(path);
    if (it == names->end()) { if (!creat) { errno = ENOENT; return nullptr; } it = names->emplace(path, std::make_shared<Inode>()).first; }
    if (trunc) it->second->data.clear();
    Open* o = new Open(); o->ino = it->second; o->rd = rd; o->wr = wr; o->app = app; o->node = cur_node(); o->path = path;
    o->fd = next_fd++; (*fds)[o->fd] = o;
    return o;
}
static int do_close(Open* o) {
    yield_point('F');
    Hold h; fds->erase(o->fd); delete o; return 0;
}
static int do_truncate(const char* path, off_t len) {
    if (int e = begin("truncate", path)) { errno = e; return -1; }
    { Hold h; init(); auto it = names->find(path); if (it == names->end()) { errno = ENOENT; return -1; } it->second->data.resize((size_t)len); }
    yield_point('F');
    return 0;
}
static int do_remove(const char* path) {
    if (int e = begin("remove", path)) { errno = e; return -1; }
    { Hold h; init(); if (!names->erase(path)) { errno = ENOENT; return -1; } }
    yield_point('F');
    return 0;
}
static int do_rename(const char* a, const char* b) {
    if (int e = begin("rename", a)) { errno = e; return -1; }
    { Hold h; init(); auto it = names->find(a); if (it == names->end()) { errno = ENOENT; return -1; } auto i = it->second; names->erase(it); (*names)[b] = i; }
    yield_point('F');
    return 0;
}
template <class T> static T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
}
using namespace simfs;
extern "C" {
static FILE* sim_fopen(const char* path, const char* mode) {
    bool plus = strchr(mode, '+') != nullptr; char m = mode[0];
    Open* o = do_open(path, m == 'r' || plus, m != 'r' || plus, m != 'r', m == 'w', m == 'a');
    if (o && strchr(mode, 'x')) {}
    return (FILE*)o;
}
FILE* fopen(const char* p, const char* m) { if (sim_path(p)) return sim_fopen(p, m); static auto r = real<FILE* (*)(const char*, const char*)>("fopen"); return r(p, m); }
FILE* fopen64(const char* p, const char* m) { if (sim_path(p)) return sim_fopen(p, m); static auto r = real<FILE* (*)(const char*, const char*)>("fopen64"); return r(p, m); }
int fclose(FILE* f) { if (is_open_ptr(f)) return do_close((Open*)f); static auto r = real<int (*)(FILE*)>("fclose"); return r(f); }
int fflush(FILE* f) { if (f && is_open_ptr(f)) return 0; static auto r = real<int (*)(FILE*)>("fflush"); return r(f); }
int fileno(FILE* f) { if (is_open_ptr(f)) return ((Open*)f)->fd; static auto r = real<int (*)(FILE*)>("fileno"); return r(f); }
int setvbuf(FILE* f, char* b, int m, size_t n) { if (is_open_ptr(f)) return 0; static auto r = real<int (*)(FILE*, char*, int, size_t)>("setvbuf"); return r(f, b, m, n); }
ssize_t simfs_write(int fd, const void* p, size_t n, int* handled) { Open* o = of(fd); *handled = o != nullptr; return o ? do_write(o, (const char*)p, n) : -1; }
ssize_t simfs_read(int fd, void* p, size_t n, int* handled) { Open* o = of(fd); *handled = o != nullptr; return o ? do_read(o, (char*)p, n) : -1; }
int simfs_close(int fd, int* handled) { Open* o = of(fd); *handled = o != nullptr; return o ? do_close(o) : -1; }
#ifndef SIM_KERNEL
ssize_t write(int fd, const void* p, size_t n) { if (Open* o = of(fd)) return do_write(o, (const char*)p, n); static auto r = real<ssize_t (*)(int, const void*, size_t)>("write"); return r(fd, p, n); }
ssize_t read(int fd, void* p, size_t n) { if (Open* o = of(fd)) return do_read(o, (char*)p, n); static auto r = real<ssize_t (*)(int, void*, size_t)>("read"); return r(fd, p, n); }
int poll(struct pollfd* p, nfds_t n, int t) { if (n == 1 && of(p->fd)) { p->revents = p->events; return 1; } static auto r = real<int (*)(struct pollfd*, nfds_t, int)>("poll"); return r(p, n, t); }
#endif
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (Open* o = of(fd)) { std::string s; { Hold h; for (int i = 0; i < n; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); } return do_write(o, s.data(), s.size()); }
    static auto r = real<ssize_t (*)(int, const struct iovec*, int)>("writev"); return r(fd, v, n);
}
static off_t sim_seek(Open* o, off_t off, int wh) { Hold h; off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (off_t)o->ino->data.size(); if (b + off < 0) { errno = EINVAL; return -1; } return o->pos = b + off; }
off_t lseek(int fd, off_t off, int wh) { if (Open* o = of(fd)) return sim_seek(o, off, wh); static auto r = real<off_t (*)(int, off_t, int)>("lseek"); return r(fd, off, wh); }
off64_t lseek64(int fd, off64_t off, int wh) { if (Open* o = of(fd)) return sim_seek(o, off, wh); static auto r = real<off64_t (*)(int, off64_t, int)>("lseek64"); return r(fd, off, wh); }
static int sim_fstat(Open* o, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = (off_t)o->ino->data.size(); return 0; }
int fstat(int fd, struct stat* s) { if (Open* o = of(fd)) return sim_fstat(o, s); static auto r = real<int (*)(int, struct stat*)>("fstat"); return r(fd, s); }
int fstat64(int fd, struct stat64* s) { if (Open* o = of(fd)) return sim_fstat(o, (struct stat*)s); static auto r = real<int (*)(int, struct stat64*)>("fstat64"); return r(fd, s); }
int truncate(const char* p, off_t n) { if (sim_path(p)) return do_truncate(p, n); static auto r = real<int (*)(const char*, off_t)>("truncate"); return r(p, n); }
int truncate64(const char* p, off64_t n) { if (sim_path(p)) return do_truncate(p, n); static auto r = real<int (*)(const char*, off64_t)>("truncate64"); return r(p, n); }
int ftruncate(int fd, off_t n) { if (Open* o = of(fd)) { if (int e = begin("truncate", o->path)) { errno = e; return -1; } { Hold h; o->ino->data.resize((size_t)n); } yield_point('F'); return 0; } static auto r = real<int (*)(int, off_t)>("ftruncate"); return r(fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int remove(const char* p) { if (sim_path(p)) return do_remove(p); static auto r = real<int (*)(const char*)>("remove"); return r(p); }
int unlink(const char* p) { if (sim_path(p)) return do_remove(p); static auto r = real<int (*)(const char*)>("unlink"); return r(p); }
int rename(const char* a, const char* b) { if (sim_path(a)) return do_rename(a, b); static auto r = real<int (*)(const char*, const char*)>("rename"); return r(a, b); }
static int sim_stat(const char* p, struct stat* s) { Hold h; init(); auto it = names->find(p); if (it == names->end()) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = (off_t)it->second->data.size(); return 0; }
int stat(const char* p, struct stat* s) { if (sim_path(p)) return sim_stat(p, s); static auto r = real<int (*)(const char*, struct stat*)>("stat"); return r(p, s); }
int access(const char* p, int m) { if (sim_path(p)) { Hold h; init(); if (names->count(p)) return 0; errno = ENOENT; return -1; } static auto r = real<int (*)(const char*, int)>("access"); return r(p, m); }
int fsync(int fd) { if (Open* o = of(fd)) { if (int e = begin("fsync", o->path)) { errno = e; return -1; } return 0; } static auto r = real<int (*)(int)>("fsync"); return r(fd); }
int ioctl(int fd, unsigned long q, ...) { va_list ap; va_start(ap, q); void* a = va_arg(ap, void*); va_end(ap);
    if (fd >= 200000) return 0;   // simulated sockets (simnet.cxx)
    if (Open* o = of(fd)) { if (q == FIONREAD) { *(int*)a = (int)std::max<off_t>(0, (off_t)o->ino->data.size() - o->pos); return 0; } errno = ENOTTY; return -1; }
    static auto r = real<int (*)(int, unsigned long, ...)>("ioctl"); return r(fd, q, a); }
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap);
    if (sim_path(p)) { int a = fl & O_ACCMODE; if ((fl & O_EXCL) && (fl & O_CREAT) && exists(p)) { errno = EEXIST; return -1; } Open* o = do_open(p, a != O_WRONLY, a != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND); return o ? o->fd : -1; }
    static auto r = real<int (*)(const char*, int, ...)>("open"); return r(p, fl, md); }
}
