#include "util.h"
#include "gearxml/GearXML.h"
#include "gearxml/XMLHandlerMgr.h"
namespace sim {
using namespace gear;
Res loadInto(const std::string& path, GearMgr*& m, bool) {
  m = nullptr;
  return guarded([&] {
    GearXML* x = new GearXML(path);        // a reader owns nothing it handed out
    std::unique_ptr<GearXML> own(x);
    m = x->createGearMgr();
    if (!m) { Unarm u; fail("load-null", "createGearMgr returned a null pointer instead of reporting an error"); }
    own.release();
  });
}
Res saveTo(GearMgr* m, const std::string& path) { return guarded([&] { GearXML::createXMLFile(m, path); }); }
Facts answers(const GearMgr& m, bool geometric) {
  Facts f;
  bool bad = false;
  Res r = guarded([&] { f = fingerprint(m, geometric); });
  if (!r.ok) bad = true;
  if (bad) fail("query-throws", "reading the geometry ended with " + r.exc);
  return f;
}
static const int readErr[] = {EIO, EINTR, EAGAIN, EBADF, ESTALE, ENXIO, EISDIR};
static const int openErr[] = {ENOENT, EACCES, EMFILE, ENFILE, EIO, ENOMEM, EINTR, ELOOP, ESTALE};
static const int writeErr[] = {ENOSPC, EIO, EDQUOT, EFBIG, EINTR, EAGAIN, EPIPE, EROFS};
const char* errNames(int e) {
  switch (e) { case EIO: return "EIO"; case EINTR: return "EINTR"; case EAGAIN: return "EAGAIN"; case EBADF: return "EBADF"; case ESTALE: return "ESTALE"; case ENXIO: return "ENXIO"; case EISDIR: return "EISDIR"; case ENOENT: return "ENOENT"; case EACCES: return "EACCES"; case EMFILE: return "EMFILE"; case ENFILE: return "ENFILE"; case ENOMEM: return "ENOMEM"; case ELOOP: return "ELOOP"; case ENOSPC: return "ENOSPC"; case EDQUOT: return "EDQUOT"; case EFBIG: return "EFBIG"; case EPIPE: return "EPIPE"; case EROFS: return "EROFS"; }
  return "error";
}
// fault=<op> at=<permille of the operations of that kind a clean run makes> err mode sticky arg
Fault makeFault(const Item& it, const int* c, std::string* what) {
  Fault f;
  f.op = (int)it.get("op");
  if (f.op < 0 || f.op >= OP_N) f.op = OP_READ;
  int n = c ? c[f.op] : 1;
  f.at = n > 0 ? (int)((i64)n * it.get("at") / 1000) : 0;
  if (n > 0 && f.at >= n) f.at = n - 1;
  f.err = (int)it.get("err", EIO);
  f.mode = (int)it.get("mode");
  f.sticky = it.get("sticky") != 0;
  f.arg = (long)it.get("arg");
  if (what) *what = fmt("%s number %d of %d: mode %d %s%s arg %ld", opName[f.op], f.at, n, f.mode, errNames(f.err), f.sticky ? " and all further" : "", f.arg);
  return f;
}
void genReadFault(Rng& r, Item& it) {
  static const int ops[] = {OP_READ, OP_READ, OP_READ, OP_READ, OP_OPEN, OP_SEEK, OP_SEEK, OP_CLOSE, OP_STAT};
  int op = ops[r.below(9)];
  it.set("op", op).set("at", r.range(0, 1000));
  if (r.chance(30)) it.set("at", r.chance(50) ? 0 : 1000);
  if (op == OP_OPEN) it.set("err", openErr[r.below(9)]);
  else it.set("err", readErr[r.below(7)]);
  int mode = FM_ERR;
  if (op == OP_READ) { int m = (int)r.below(10); mode = m < 5 ? FM_ERR : m < 7 ? FM_SHORT : FM_EOF; }
  it.set("mode", mode);
  if (mode == FM_SHORT) it.set("arg", r.range(1, 400));
  if (r.chance(35)) it.set("sticky", 1);
}
void genWriteFault(Rng& r, Item& it) {
  static const int ops[] = {OP_WRITE, OP_WRITE, OP_WRITE, OP_WRITE, OP_OPEN, OP_CLOSE, OP_CLOSE, OP_SYNC, OP_RENAME, OP_UNLINK};
  int op = ops[r.below(10)];
  it.set("op", op).set("at", r.range(0, 1000));
  if (r.chance(35)) it.set("at", r.chance(40) ? 0 : 1000);
  it.set("err", op == OP_OPEN ? (r.chance(50) ? openErr[r.below(9)] : writeErr[r.below(8)]) : writeErr[r.below(8)]);
  int mode = FM_ERR;
  if (op == OP_WRITE) { int m = (int)r.below(10); mode = m < 5 ? FM_ERR : m < 7 ? FM_SHORT : FM_PART_ERR; }
  if (op == OP_CLOSE && r.chance(60)) mode = FM_LOSE;
  it.set("mode", mode);
  if (mode != FM_ERR) it.set("arg", r.range(1, 700));
  if (r.chance(35)) it.set("sticky", 1);
}
void applyIo(const Item& it) {
  disk.iobuf = (long)it.get("iobuf", -1);
  disk.readMax = (int)it.get("rmax", 0);
}
}
