// The simulated disk: every path below /sim/ lives in shared memory of the run and
// is served through interposed C library calls (stdio streams, POSIX descriptors).
#ifndef GEARSIM_DISK_H
#define GEARSIM_DISK_H
#include "core.h"

namespace sim {

enum Op { OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_SYNC, OP_RENAME, OP_UNLINK, OP_STAT, OP_TRUNC, OP_N };
extern const char* opName[OP_N];

// how an injected fault shows
enum FMode {
  FM_ERR = 0,      // the call fails with err
  FM_SHORT = 1,    // the call transfers only part (legal; callers must cope)
  FM_EOF = 2,      // read: end of file before the end
  FM_LOSE = 3,     // close: fails and the last arg bytes never reach the disk
  FM_PART_ERR = 4, // write: part of the block is stored, then the error
};

struct Fault {
  int op = OP_READ;
  int at = 0;         // n-th operation of that kind since arming (0-based)
  int err = 5;
  int mode = FM_ERR;
  bool sticky = false; // every later operation of the kind fails as well
  long arg = 0;
  std::string path;    // "" = any file
  bool fired = false;
};

struct Disk {
  std::vector<Fault> faults;
  long capacity = -1;         // total bytes the disk can hold, -1 = unlimited
  bool capacityHit = false;
  int count[OP_N] = {0};      // operations since arm()
  int fired = 0;              // faults that actually showed since arm()
  long iobuf = -1;            // stdio buffer size for streams, -1 = libc default
  int readMax = 0;            // at most so many bytes per read call, 0 = unlimited
  bool log = false;           // record an event log (for crash states)
  long crashAt = -1;          // simulated process crash at this disk event (counted since arm)
  long crashTorn = 0;         // permille of the write that is stored when crashing in a write
  long events = 0;            // disk events since arm
  bool yields = false;        // scheduler points in callbacks
  void arm();
  void armInline() { for (int& c : count) c = 0; fired = 0; capacityHit = false; events = 0; for (auto& f : faults) f.fired = false; }
  void clear() { faults.clear(); capacity = -1; iobuf = -1; readMax = 0; crashAt = -1; arm(); }
};
extern Disk disk;

struct DEv { uint8_t type; uint8_t file; uint32_t off, len, data; };
enum { DE_CREATE = 1, DE_TRUNC, DE_WRITE, DE_SYNC, DE_RENAME, DE_UNLINK, DE_CLOSE };

typedef std::map<std::string, std::string> DiskImage;   // path -> content

// harness access (never faulted, never counted)
void dkReset();
bool dkExists(const std::string& p);
std::string dkGet(const std::string& p);
void dkPut(const std::string& p, const std::string& content);
void dkRemove(const std::string& p);
DiskImage dkImage();
void dkRestore(const DiskImage&);
void dkLogStart();
int dkLogSize();
// image after the first n logged events; if torn >= 0 the n-th event (a write) is
// applied only for torn permille of its bytes
DiskImage dkReplay(const DiskImage& base, int n, int tornPermille);
const DEv* dkLog();
std::string dkLogPath(int file);
bool dkOpenStreams();   // true if any simulated stream or descriptor is still open
u64 dkHash();
void dkPerFileReset();
size_t dkSharedSize();
void dkAttach(void*);
}
#endif
