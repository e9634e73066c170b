#include "disk.h"
#include "alloc.h"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
const char* opName[OP_N] = {"open", "read", "write", "seek", "close", "sync", "rename", "unlink", "stat", "truncate"};
Disk disk;

enum { LOGDATA = 4 << 20, MAXLOG = 20000 };
struct SFile { char path[120]; int exists; uint32_t size; };
struct DiskShared {
  int nfiles;
  SFile f[MAXFILES];
  int nlog; int logOn; uint32_t logData;
  char lpath[MAXFILES][120]; int nlpath;
  DEv ev[MAXLOG];
  unsigned char logBytes[LOGDATA];
  unsigned char data[MAXFILES][MAXFILE];
};
static DiskShared* ds;
size_t dkSharedSize() { return sizeof(DiskShared); }
void dkAttach(void* p) { ds = (DiskShared*)p; }

void dkReset() { ds->nfiles = 0; ds->nlog = 0; ds->logOn = 0; ds->logData = 0; ds->nlpath = 0; }
static int findFile(const char* p) {
  for (int i = 0; i < ds->nfiles; ++i) if (!strcmp(ds->f[i].path, p)) return i;
  return -1;
}
static int makeFile(const char* p) {
  int i = findFile(p);
  if (i >= 0) return i;
  for (i = 0; i < ds->nfiles; ++i) if (!ds->f[i].path[0]) break;
  if (i == ds->nfiles) { if (ds->nfiles == MAXFILES) harness("simulated disk: too many files"); ++ds->nfiles; }
  if (strlen(p) >= sizeof(ds->f[i].path)) harness("simulated disk: path too long");
  strcpy(ds->f[i].path, p);
  ds->f[i].exists = 0;
  ds->f[i].size = 0;
  return i;
}
bool dkExists(const std::string& p) { int i = findFile(p.c_str()); return i >= 0 && ds->f[i].exists; }
std::string dkGet(const std::string& p) {
  int i = findFile(p.c_str());
  if (i < 0 || !ds->f[i].exists) return std::string();
  return std::string((char*)ds->data[i], ds->f[i].size);
}
void dkPut(const std::string& p, const std::string& c) {
  int i = makeFile(p.c_str());
  if (c.size() > MAXFILE) harness("simulated disk: file too large");
  ds->f[i].exists = 1; ds->f[i].size = c.size();
  memcpy(ds->data[i], c.data(), c.size());
}
void dkRemove(const std::string& p) { int i = findFile(p.c_str()); if (i >= 0) { ds->f[i].exists = 0; ds->f[i].size = 0; } }
DiskImage dkImage() { DiskImage m; for (int i = 0; i < ds->nfiles; ++i) if (ds->f[i].exists) m[ds->f[i].path] = std::string((char*)ds->data[i], ds->f[i].size); return m; }
void dkRestore(const DiskImage& m) { ds->nfiles = 0; for (auto& e : m) dkPut(e.first, e.second); }
u64 dkHash() { u64 h = 7; for (auto& e : dkImage()) { h = hashBytes(e.first.data(), e.first.size(), h); h = hashBytes(e.second.data(), e.second.size(), h); } return h; }

// ------------------------------------------------------------------ event log
void dkLogStart() { ds->nlog = 0; ds->logData = 0; ds->logOn = 1; ds->nlpath = 0; }
int dkLogSize() { return ds->nlog; }
const DEv* dkLog() { return ds->ev; }
std::string dkLogPath(int i) { return ds->lpath[i]; }
static int logPath(const char* p) {
  for (int i = 0; i < ds->nlpath; ++i) if (!strcmp(ds->lpath[i], p)) return i;
  if (ds->nlpath == MAXFILES) harness("simulated disk: too many paths in the log");
  strcpy(ds->lpath[ds->nlpath], p);
  return ds->nlpath++;
}
static void logEv(int type, const char* path, uint32_t off = 0, uint32_t len = 0, const void* data = nullptr) {
  if (!ds->logOn) return;
  if (ds->nlog == MAXLOG || ds->logData + len > LOGDATA) harness("simulated disk: event log full");
  DEv& e = ds->ev[ds->nlog++];
  e.type = type; e.file = logPath(path); e.off = off; e.len = len; e.data = ds->logData;
  if (data) { memcpy(ds->logBytes + ds->logData, data, len); ds->logData += len; }
}
static void applyWrite(std::string& c, uint32_t off, const unsigned char* d, uint32_t n) {
  if (c.size() < off + n) c.resize(off + n, '\0');
  memcpy(&c[off], d, n);
}
DiskImage dkReplay(const DiskImage& base, int n, int torn) {
  DiskImage m = base;
  for (int i = 0; i < n && i < ds->nlog; ++i) {
    const DEv& e = ds->ev[i];
    std::string p = ds->lpath[e.file];
    uint32_t len = e.len;
    if (torn >= 0 && i == n - 1 && e.type == DE_WRITE) len = (uint32_t)((u64)e.len * torn / 1000);
    switch (e.type) {
      case DE_CREATE: m[p]; break;
      case DE_TRUNC: m[p].resize(e.len, '\0'); break;
      case DE_WRITE: if (len) applyWrite(m[p], e.off, ds->logBytes + e.data, len); break;
      case DE_RENAME: { std::string to = ds->lpath[e.off]; m[to] = m[p]; m.erase(p); break; }
      case DE_UNLINK: m.erase(p); break;
      default: break;
    }
  }
  return m;
}

// ------------------------------------------------------------------ open files
struct Open {
  bool used = false; int file = -1; long pos = 0; bool rd = false, wr = false, app = false; FILE* stream = nullptr; bool stickyErr = false;
};
enum { VFD = 1000000, MAXOPEN = 64 };
static Open opens[MAXOPEN];
bool dkOpenStreams() { for (auto& o : opens) if (o.used) return true; return false; }

void ioYield(const char* path, bool write);    // scheduler seam (defined by the mt build, weak here)
__attribute__((weak)) void ioYield(const char*, bool) {}

static bool isSim(const char* p) { return p && !strncmp(p, "/sim/", 5); }

// per-file operation counts (sessions that run next to each other)
struct PF { char path[120]; int count[OP_N]; };
static PF pfs[MAXFILES];
static int npf;
void dkPerFileReset() { npf = 0; }
static int* fileCounts(const char* path) {
  int k = 0;
  for (; k < npf; ++k) if (!strcmp(pfs[k].path, path)) return pfs[k].count;
  if (npf == MAXFILES) harness("simulated disk: too many files");
  memset(&pfs[k], 0, sizeof(PF));
  strncpy(pfs[k].path, path, sizeof(pfs[k].path) - 1);
  ++npf;
  return pfs[k].count;
}
// counts the operation, decides whether a fault shows; returns the fault or null
static Fault* stepFile(int op, const char* path) {
  Unarm u;
  int n = disk.count[op]++;
  int nf = fileCounts(path)[op]++;
  ++disk.events;
  if (sh) ++sh->events;
  ioYield(path, op == OP_WRITE || op == OP_TRUNC || op == OP_RENAME || op == OP_UNLINK || op == OP_OPEN);
  for (auto& f : disk.faults) {
    if (f.op != op || (!f.path.empty() && f.path != path)) continue;
    int at = f.path.empty() ? n : nf;
    if (at == f.at || (f.sticky && at > f.at)) {
      f.fired = true; ++disk.fired;
      static const char* ext[] = {".err", ".short", ".eof", ".lose", ".part"};
      char name[48];
      snprintf(name, sizeof name, "fault.%s%s", opName[op], ext[f.mode]);
      cnt(name);
      traceEv("fault", op, n);
      return &f;
    }
  }
  return nullptr;
}

static void crashMaybe() {
  if (disk.crashAt >= 0 && disk.events > disk.crashAt) {
    cnt("fault.crash");
    traceEv("crash", disk.events);
    _exit(SIM_CRASH);
  }
}
static long used() { long t = 0; for (int i = 0; i < ds->nfiles; ++i) if (ds->f[i].exists) t += ds->f[i].size; return t; }

static int doOpen(const char* path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl, int& err) {
  Fault* f = stepFile(OP_OPEN, path);
  Unarm u;
  crashMaybe();
  traceEv("open", hashBytes(path, strlen(path)), (rd ? 1 : 0) | (wr ? 2 : 0) | (trunc ? 4 : 0));
  if (f) { err = f->err; return -1; }
  int i = findFile(path);
  bool ex = i >= 0 && ds->f[i].exists;
  if (!ex && !creat) { err = ENOENT; return -1; }
  if (ex && creat && excl) { err = EEXIST; return -1; }
  if (!ex) { i = makeFile(path); ds->f[i].exists = 1; ds->f[i].size = 0; logEv(DE_CREATE, path); }
  if (trunc && wr && ds->f[i].size) { ds->f[i].size = 0; logEv(DE_TRUNC, path, 0, 0); }
  for (int k = 0; k < MAXOPEN; ++k)
    if (!opens[k].used) {
      Open& o = opens[k];
      o = Open(); o.used = true; o.file = i; o.rd = rd; o.wr = wr; o.app = app;
      return k;
    }
  err = EMFILE;
  return -1;
}
static ssize_t doRead(Open& o, char* buf, size_t n, int& err) {
  const char* path = ds->f[o.file].path;
  Fault* f = stepFile(OP_READ, path);
  Unarm u;
  crashMaybe();
  if (!o.rd) { err = EBADF; return -1; }
  if (f && f->mode == FM_ERR) { err = f->err; return -1; }
  if (f && f->mode == FM_EOF) return 0;
  long left = (long)ds->f[o.file].size - o.pos;
  if (left <= 0) return 0;
  size_t m = n < (size_t)left ? n : (size_t)left;
  if (disk.readMax > 0 && m > (size_t)disk.readMax) m = disk.readMax;
  if (f && f->mode == FM_SHORT && m > 1) { size_t k = 1 + (f->arg % (long)m); m = k < m ? k : m - 1; if (!m) m = 1; }
  memcpy(buf, ds->data[o.file] + o.pos, m);
  o.pos += m;
  return m;
}
// one kernel-level write
static ssize_t doWrite1(Open& o, const char* buf, size_t n, int& err) {
  const char* path = ds->f[o.file].path;
  Fault* f = stepFile(OP_WRITE, path);
  Unarm u;
  if (!o.wr) { err = EBADF; return -1; }
  if (f && f->mode == FM_ERR) { crashMaybe(); err = f->err; return -1; }
  size_t m = n;
  int after = 0;
  if (f && (f->mode == FM_SHORT || f->mode == FM_PART_ERR) && m > 1) {
    size_t k = 1 + (f->arg % (long)m); if (k >= m) k = m - 1;
    m = k;
    if (f->mode == FM_PART_ERR) after = f->err;
  } else if (f && f->mode == FM_PART_ERR) { crashMaybe(); err = f->err; return -1; }
  if (o.app) o.pos = ds->f[o.file].size;
  if (disk.capacity >= 0) {
    long grow = o.pos + (long)m - (long)ds->f[o.file].size;
    long room = disk.capacity - used();
    if (grow > room) {
      long can = (long)m - (grow - room);
      if (!disk.capacityHit) cnt("fault.write.enospc");
      disk.capacityHit = true; ++disk.fired;
      traceEv("enospc", can > 0 ? can : 0);
      if (can <= 0) { crashMaybe(); err = ENOSPC; return -1; }
      m = can;
    }
  }
  bool crashing = disk.crashAt >= 0 && disk.events > disk.crashAt;
  if (crashing) m = m * disk.crashTorn / 1000;
  if (o.pos + m > (size_t)MAXFILE) harness("simulated disk: file grows too large");
  SFile& sf = ds->f[o.file];
  if (m) {
    if ((long)sf.size < o.pos) memset(ds->data[o.file] + sf.size, 0, o.pos - sf.size);
    memcpy(ds->data[o.file] + o.pos, buf, m);
    logEv(DE_WRITE, path, o.pos, m, buf);
    if (sf.size < o.pos + m) sf.size = o.pos + m;
    traceEv("write", o.pos, hashBytes(buf, m));
    o.pos += m;
  }
  if (crashing) crashMaybe();
  if (after) { err = after; return -1; }
  return m;
}
static int doSeek(Open& o, long off, int whence, long& res, int& err) {
  const char* path = ds->f[o.file].path;
  Fault* f = stepFile(OP_SEEK, path);
  Unarm u;
  crashMaybe();
  if (f) { err = f->err; return -1; }
  long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o.pos : (long)ds->f[o.file].size;
  if (base + off < 0) { err = EINVAL; return -1; }
  o.pos = base + off;
  res = o.pos;
  return 0;
}
static int doClose(Open& o, int& err) {
  const char* path = ds->f[o.file].path;
  Fault* f = stepFile(OP_CLOSE, path);
  Unarm u;
  crashMaybe();
  traceEv("close", hashBytes(path, strlen(path)));
  bool wr = o.wr;
  int file = o.file;
  o.used = false;
  if (wr) logEv(DE_CLOSE, path);
  if (f) {
    if (f->mode == FM_LOSE && wr) {
      SFile& sf = ds->f[file];
      uint32_t lose = (uint32_t)(1 + f->arg % (sf.size ? sf.size : 1));
      if (sf.size) { sf.size = sf.size > lose ? sf.size - lose : 0; logEv(DE_TRUNC, path, 0, sf.size); }
    }
    err = f->err;
    return -1;
  }
  return 0;
}

// ------------------------------------------------------------------ cookie streams
static ssize_t ckRead(void* c, char* b, size_t n) {
  int e = 0; ssize_t r = doRead(opens[(long)c], b, n, e);
  if (r < 0) errno = e;
  return r;
}
static ssize_t ckWrite(void* c, const char* b, size_t n) {
  // like the C library on a real descriptor: continue after short writes, stop at an error
  size_t done = 0;
  while (done < n) {
    int e = 0; ssize_t r = doWrite1(opens[(long)c], b + done, n - done, e);
    if (r < 0) { errno = e; break; }
    done += r;
  }
  return done;
}
static int ckSeek(void* c, off64_t* off, int whence) {
  int e = 0; long res = 0;
  if (doSeek(opens[(long)c], *off, whence, res, e)) { errno = e; return -1; }
  *off = res;
  return 0;
}
static int ckClose(void* c) {
  int e = 0; int r = doClose(opens[(long)c], e);
  if (r) errno = e;
  return r;
}
static FILE* simFopen(const char* path, const char* mode) {
  bool rd = false, wr = false, creat = false, trunc = false, app = false, excl = false;
  bool plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r': rd = true; wr = plus; break;
    case 'w': wr = true; rd = plus; creat = trunc = true; break;
    case 'a': wr = true; rd = plus; creat = app = true; break;
    default: errno = EINVAL; return nullptr;
  }
  if (strchr(mode, 'x')) excl = true;
  int err = 0;
  int k = doOpen(path, rd, wr, creat, trunc, app, excl, err);
  if (k < 0) { errno = err; return nullptr; }
  Unarm u;
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  char m[4] = {mode[0], 0, 0, 0};
  if (plus) m[1] = '+';
  FILE* f = fopencookie((void*)(long)k, m, io);
  if (!f) harness("fopencookie failed");
  opens[k].stream = f;
  if (disk.iobuf == 0) setvbuf(f, nullptr, _IONBF, 0);
  else if (disk.iobuf > 0) setvbuf(f, (char*)malloc(disk.iobuf), _IOFBF, disk.iobuf);
  else setvbuf(f, (char*)malloc(4096), _IOFBF, 4096);
  return f;
}
static Open* vfd(int fd) { return fd >= VFD && fd < VFD + MAXOPEN && opens[fd - VFD].used ? &opens[fd - VFD] : nullptr; }
static void fillStat(int file, struct stat* st) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = ds->f[file].size; st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = file + 1; }
static int simStat(const char* path, struct stat* st) {
  Fault* f = stepFile(OP_STAT, path);
  if (f) { errno = f->err; return -1; }
  if (!strcmp(path, "/sim/") || !strcmp(path, "/sim")) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
  int i = findFile(path);
  if (i < 0 || !ds->f[i].exists) { errno = ENOENT; return -1; }
  fillStat(i, st);
  return 0;
}
static int simRename(const char* a, const char* b) {
  Fault* f = stepFile(OP_RENAME, a);
  Unarm u;
  crashMaybe();
  if (f) { errno = f->err; return -1; }
  int i = findFile(a);
  if (i < 0 || !ds->f[i].exists) { errno = ENOENT; return -1; }
  std::string c((char*)ds->data[i], ds->f[i].size);
  int j = makeFile(b);
  ds->f[j].exists = 1; ds->f[j].size = c.size(); memcpy(ds->data[j], c.data(), c.size());
  ds->f[i].exists = 0; ds->f[i].size = 0;
  if (ds->logOn) { int to = logPath(b); logEv(DE_RENAME, a, to); }
  traceEv("rename", hashBytes(a, strlen(a)), hashBytes(b, strlen(b)));
  return 0;
}
static int simUnlink(const char* p) {
  Fault* f = stepFile(OP_UNLINK, p);
  Unarm u;
  crashMaybe();
  if (f) { errno = f->err; return -1; }
  int i = findFile(p);
  if (i < 0 || !ds->f[i].exists) { errno = ENOENT; return -1; }
  ds->f[i].exists = 0; ds->f[i].size = 0;
  logEv(DE_UNLINK, p);
  return 0;
}
static int simOpenFd(const char* path, int flags) {
  int acc = flags & O_ACCMODE;
  int err = 0;
  int k = doOpen(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, flags & O_APPEND, flags & O_EXCL, err);
  if (k < 0) { errno = err; return -1; }
  return VFD + k;
}
static int simTruncate(int file, long len) {
  Fault* f = stepFile(OP_TRUNC, ds->f[file].path);
  Unarm u;
  crashMaybe();
  if (f) { errno = f->err; return -1; }
  SFile& sf = ds->f[file];
  if ((long)sf.size < len) memset(ds->data[file] + sf.size, 0, len - sf.size);
  sf.size = len;
  logEv(DE_TRUNC, sf.path, 0, len);
  return 0;
}
void Disk::arm() { armInline(); dkPerFileReset(); }
template <class T> static T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
}  // namespace sim

using namespace sim;
extern "C" {
FILE* fopen(const char* p, const char* m) {
  if (isSim(p)) return simFopen(p, m);
  static auto r = real<FILE* (*)(const char*, const char*)>("fopen");
  return r(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  if (isSim(p)) return simFopen(p, m);
  static auto r = real<FILE* (*)(const char*, const char*)>("fopen64");
  return r(p, m);
}
int fileno(FILE* f) {
  for (int k = 0; k < MAXOPEN; ++k) if (opens[k].used && opens[k].stream == f) return VFD + k;
  static auto r = real<int (*)(FILE*)>("fileno");
  return r(f);
}
FILE* fdopen(int fd, const char* mode) {
  if (Open* o = vfd(fd)) {
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    FILE* f = fopencookie((void*)(long)(o - opens), mode, io);
    o->stream = f;
    return f;
  }
  static auto r = real<FILE* (*)(int, const char*)>("fdopen");
  return r(fd, mode);
}
int open(const char* p, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (flags & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
  if (isSim(p)) return simOpenFd(p, flags);
  return syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int open64(const char* p, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (flags & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
  if (isSim(p)) return simOpenFd(p, flags);
  return syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int openat(int d, const char* p, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (flags & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
  if (isSim(p)) return simOpenFd(p, flags);
  return syscall(SYS_openat, d, p, flags, m);
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void* b, size_t n) {
  if (Open* o = vfd(fd)) { int e = 0; ssize_t r = doRead(*o, (char*)b, n, e); if (r < 0) errno = e; return r; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (Open* o = vfd(fd)) { int e = 0; ssize_t r = doWrite1(*o, (const char*)b, n, e); if (r < 0) errno = e; return r; }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (Open* o = vfd(fd)) {
    ssize_t t = 0;
    for (int i = 0; i < n; ++i) {
      if (!v[i].iov_len) continue;
      int e = 0; ssize_t r = doWrite1(*o, (const char*)v[i].iov_base, v[i].iov_len, e);
      if (r < 0) { if (t) return t; errno = e; return -1; }
      t += r;
      if ((size_t)r < v[i].iov_len) return t;
    }
    return t;
  }
  return syscall(SYS_writev, fd, v, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t off) {
  if (Open* o = vfd(fd)) { long p = o->pos; o->pos = off; int e = 0; ssize_t r = doRead(*o, (char*)b, n, e); o->pos = p; if (r < 0) errno = e; return r; }
  return syscall(SYS_pread64, fd, b, n, off);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t off) {
  if (Open* o = vfd(fd)) { long p = o->pos; o->pos = off; int e = 0; ssize_t r = doWrite1(*o, (const char*)b, n, e); o->pos = p; if (r < 0) errno = e; return r; }
  return syscall(SYS_pwrite64, fd, b, n, off);
}
off_t lseek(int fd, off_t off, int w) {
  if (Open* o = vfd(fd)) { long res = 0; int e = 0; if (doSeek(*o, off, w, res, e)) { errno = e; return -1; } return res; }
  return syscall(SYS_lseek, fd, off, w);
}
off64_t lseek64(int fd, off64_t off, int w) { return lseek(fd, off, w); }
int close(int fd) {
  if (Open* o = vfd(fd)) { int e = 0; int r = doClose(*o, e); if (r) errno = e; return r; }
  return syscall(SYS_close, fd);
}
int fsync(int fd) {
  if (Open* o = vfd(fd)) {
    Fault* f = stepFile(OP_SYNC, ds->f[o->file].path);
    crashMaybe();
    if (f) { errno = f->err; return -1; }
    logEv(DE_SYNC, ds->f[o->file].path);
    return 0;
  }
  return syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { if (vfd(fd)) return fsync(fd); return syscall(SYS_fdatasync, fd); }
int fstat(int fd, struct stat* st) {
  if (Open* o = vfd(fd)) { Fault* f = stepFile(OP_STAT, ds->f[o->file].path); if (f) { errno = f->err; return -1; } fillStat(o->file, st); return 0; }
  return syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) { if (isSim(p) || (p && !strcmp(p, "/sim"))) return simStat(p, st); return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { if (isSim(p) || (p && !strcmp(p, "/sim"))) return simStat(p, st); return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int access(const char* p, int m) {
  if (isSim(p)) { struct stat st; return simStat(p, &st); }
  return syscall(SYS_faccessat, AT_FDCWD, p, m);
}
int rename(const char* a, const char* b) { if (isSim(a) || isSim(b)) return simRename(a, b); return syscall(SYS_rename, a, b); }
int unlink(const char* p) { if (isSim(p)) return simUnlink(p); return syscall(SYS_unlink, p); }
int remove(const char* p) { if (isSim(p)) return simUnlink(p); static auto r = real<int (*)(const char*)>("remove"); return r(p); }
int truncate(const char* p, off_t n) { if (isSim(p)) { int i = findFile(p); if (i < 0 || !ds->f[i].exists) { errno = ENOENT; return -1; } return simTruncate(i, n); } return syscall(SYS_truncate, p, n); }
int ftruncate(int fd, off_t n) { if (Open* o = vfd(fd)) return simTruncate(o->file, n); return syscall(SYS_ftruncate, fd, n); }
int mkstemp(char* t) {
  if (isSim(t)) {
    size_t l = strlen(t);
    static int seq = 0;
    for (int tries = 0; tries < 100; ++tries) {
      if (l >= 6) snprintf(t + l - 6, 7, "%06d", ++seq);
      int fd = simOpenFd(t, O_CREAT | O_EXCL | O_RDWR);
      if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
  }
  static auto r = real<int (*)(char*)>("mkstemp");
  return r(t);
}
}
