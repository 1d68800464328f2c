// Interposes the file-writing system calls of the whole process (RocksDB included), to
// (a) kill the process at an exact call, before, after or in the middle of it, and
// (b) know which bytes of each file had been synced, to simulate loss of power.
// Include in exactly one translation unit of a harness.
#ifndef VF_CRASHFS_HH
#define VF_CRASHFS_HH
#include "vf.hh"
#include <dlfcn.h>
#include <sys/uio.h>
#include <shared_mutex>

namespace crashfs {

// shared with the parent
struct Shared {
  std::atomic<int64_t> writes;        // write calls seen on watched files
  std::atomic<int64_t> syncs;
  int64_t crashAt;                    // -1: never
  int mode;                           // 0: before, 1: after, 2: half of it
  std::atomic<int64_t> progress;      // set by the child: operations completed
  std::atomic<int64_t> started;
  std::atomic<int64_t> aux[16];
};
inline Shared *sh = nullptr;
inline std::atomic<bool> armed {false};
inline std::string watchDir;
inline std::mutex mtx;
// held shared while the files change, exclusively to take a picture of all of them at one moment
inline std::shared_mutex &world() { static auto *m = new std::shared_mutex(); return *m; }
inline thread_local bool holding = false;
struct Change {
  bool mine;
  Change() : mine(!holding) { if(mine) { world().lock_shared(); holding = true; } }
  void end() { if(mine) { mine = false; holding = false; world().unlock_shared(); } }
  ~Change() { end(); }
};
struct Picture {
  Picture() { world().lock(); holding = true; }
  ~Picture() { holding = false; world().unlock(); }
};
inline std::function<void()> onSync;

struct FileInfo { std::string path; int64_t size = 0; int64_t synced = 0; };
inline std::map<int, FileInfo> &fds() { static auto *m = new std::map<int, FileInfo>(); return *m; }
// path -> (size, synced); survives close
inline std::map<std::string, FileInfo> &files() { static auto *m = new std::map<std::string, FileInfo>(); return *m; }

inline Shared* share() {
  void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared *s = new (m) Shared();
  s->crashAt = -1;
  return s;
}

inline std::string pathOf(int fd) {
  char link[64], buf[4096];
  snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, buf, sizeof(buf));
  return n > 0 ? std::string(buf, n) : std::string();
}

inline bool watched(int fd, std::string &p) {
  if(!armed || watchDir.empty()) return false;
  p = pathOf(fd);
  return p.compare(0, watchDir.size(), watchDir) == 0;
}

inline bool interesting(const std::string &p) {
  // the info log is not data
  size_t s = p.rfind('/');
  return p.compare(s + 1, 3, "LOG") != 0;
}

// on simulated power loss: what each watched file keeps
inline void dumpSynced(const std::string &outFile) {
  std::scoped_lock l(mtx);
  std::ofstream o(outFile);
  for(auto &f : files()) o << f.second.synced << " " << f.second.size << " " << f.first << "\n";
}

}

typedef ssize_t (*vf_write_t)(int, const void*, size_t);
typedef ssize_t (*vf_pwrite_t)(int, const void*, size_t, off_t);
typedef int (*vf_sync_t)(int);

extern "C" ssize_t write(int fd, const void *buf, size_t n) {
  static vf_write_t real = (vf_write_t) dlsym(RTLD_NEXT, "write");
  std::string p;
  if(!crashfs::armed || !crashfs::sh || !crashfs::watched(fd, p) || !crashfs::interesting(p)) return real(fd, buf, n);
  int64_t k = crashfs::sh->writes++;
  if(k == crashfs::sh->crashAt) {
    if(crashfs::sh->mode == 2) { if(n > 1) real(fd, buf, n / 2); }
    else if(crashfs::sh->mode == 1) real(fd, buf, n);
    _exit(77);
  }
  crashfs::Change change;
  ssize_t rc = real(fd, buf, n);
  if(rc > 0) {
    std::scoped_lock l(crashfs::mtx);
    auto &f = crashfs::files()[p];
    f.size += rc;
  }
  return rc;
}

extern "C" ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) {
  static vf_pwrite_t real = (vf_pwrite_t) dlsym(RTLD_NEXT, "pwrite64");
  std::string p;
  if(crashfs::armed && crashfs::sh && crashfs::watched(fd, p)) {
    crashfs::Change change;
    {
      std::scoped_lock l(crashfs::mtx);
      auto &f = crashfs::files()[p];
      f.size = std::max<int64_t>(f.size, off + n);
    }
    return real(fd, buf, n, off);
  }
  return real(fd, buf, n, off);
}

static int vf_sync(int fd, vf_sync_t real) {
  std::string p;
  bool w = crashfs::armed && crashfs::sh && crashfs::watched(fd, p);
  int64_t sz = 0;
  if(w) {
    std::scoped_lock l(crashfs::mtx);
    auto it = crashfs::files().find(p);
    if(it != crashfs::files().end()) sz = it->second.size;
  }
  int rc = real(fd);
  if(w && rc == 0) {
    crashfs::sh->syncs++;
    {
      std::scoped_lock l(crashfs::mtx);
      auto &f = crashfs::files()[p];
      f.synced = std::max(f.synced, sz);
    }
    if(crashfs::onSync) crashfs::onSync();
  }
  return rc;
}

extern "C" int unlink(const char *p) {
  static auto real = (int (*)(const char*)) dlsym(RTLD_NEXT, "unlink");
  if(!crashfs::armed) return real(p);
  crashfs::Change change;
  return real(p);
}
extern "C" int rename(const char *a, const char *b) {
  static auto real = (int (*)(const char*, const char*)) dlsym(RTLD_NEXT, "rename");
  if(!crashfs::armed) return real(a, b);
  crashfs::Change change;
  return real(a, b);
}
extern "C" int ftruncate64(int fd, off_t n) {
  static auto real = (int (*)(int, off_t)) dlsym(RTLD_NEXT, "ftruncate64");
  if(!crashfs::armed) return real(fd, n);
  crashfs::Change change;
  return real(fd, n);
}

extern "C" int fdatasync(int fd) {
  static vf_sync_t real = (vf_sync_t) dlsym(RTLD_NEXT, "fdatasync");
  return vf_sync(fd, real);
}
extern "C" int fsync(int fd) {
  static vf_sync_t real = (vf_sync_t) dlsym(RTLD_NEXT, "fsync");
  return vf_sync(fd, real);
}

#endif
