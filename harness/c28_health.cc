// C28: health indicators, manifest and checksum scans against independent computations.
#include "qdb.hh"
#include "resp.hh"
#include "health/HealthIndicator.hh"
#include "storage/ParanoidManifestChecker.hh"
#include "storage/ConsistencyScanner.hh"
#include "storage/WriteStallWarner.hh"
#include "StateMachine.hh"
#include "StandaloneGroup.hh"
#include "Formatter.hh"
#include <dlfcn.h>
#include <math.h>
#include <sys/vfs.h>
#include <sys/stat.h>
#include <dirent.h>
using namespace vf;
using namespace quarkdb;

// ------------------------------------------------------------ injected file system sizes
static std::atomic<int> fakeFs{0};      // 0 real, 1 fake, 2 failing
static uint64_t fBlocks, fFree, fAvail, fBsize;
static int fake(struct statfs *o) { if(fakeFs == 2) { errno = EIO; return -1; } o->f_blocks = fBlocks; o->f_bfree = fFree; o->f_bavail = fAvail; o->f_bsize = fBsize; return 0; }
extern "C" int statfs(const char *p, struct statfs *o) noexcept {
  static auto real = (int (*)(const char*, struct statfs*)) dlsym(RTLD_NEXT, "statfs");
  int rc = real(p, o);
  return fakeFs ? fake(o) : rc;
}
extern "C" int statfs64(const char *p, struct statfs64 *o) noexcept {
  static auto real = (int (*)(const char*, struct statfs64*)) dlsym(RTLD_NEXT, "statfs64");
  int rc = real(p, o);
  return fakeFs ? fake((struct statfs*) o) : rc;
}

static int rank(HealthStatus h) { return h == HealthStatus::kGreen ? 0 : h == HealthStatus::kYellow ? 1 : 2; }
static const char *names[] = {"GREEN", "YELLOW", "RED"};

static void indicators(Rng &r) {
  static const HealthStatus all[] = {HealthStatus::kGreen, HealthStatus::kYellow, HealthStatus::kRed};
  for(auto a : all) for(auto b : all) {
    VF_CHECK(rank(chooseWorstHealth(a, b)) == std::max(rank(a), rank(b)), "health:worst", "the worst of " << names[rank(a)] << " and " << names[rank(b)] << " is " << names[rank(chooseWorstHealth(a, b))]);
    VF_CHECK(healthStatusAsString(a) == names[rank(a)], "health:name", "status name " << healthStatusAsString(a));
  }
  auto text = [&] { std::string s; for(int n = r.below(20); n > 0; n--) s += (char) (32 + r.below(95)); return s; };
  for(int i = 0; i < ctx().n(4000); i++) {
    std::vector<HealthIndicator> v;
    int worst = 0;
    std::string shape;
    std::vector<std::string> lines;
    for(int n = r.below(7); n > 0; n--) {
      HealthStatus s = all[r.chance(60) ? 0 : r.below(3)];
      std::string d = text(), m = text();
      v.emplace_back(s, d, m);
      const HealthIndicator &h = v.back();
      VF_CHECK(h.getStatus() == s && h.getDescription() == d && h.getMessage() == m, "health:getters", "indicator getters");
      std::string pad = names[rank(s)];
      while(pad.size() < 7) pad += ' ';
      lines.push_back(pad + ">> " + d + " " + m);
      VF_CHECK(h.toString() == lines.back(), "health:text", "indicator text '" << h.toString() << "' instead of '" << lines.back() << "'");
      worst = std::max(worst, rank(s));
      shape += names[rank(s)][0];
    }
    VF_CHECK(rank(chooseWorstHealth(v)) == worst, "health:worst", "the worst of " << shape << " is " << names[rank(chooseWorstHealth(v))]);
    VF_CHECK(healthIndicatorsAsStrings(v) == lines, "health:texts", "healthIndicatorsAsStrings of " << shape);
    std::string ver = text(), node = r.chance(40) ? "" : text() + "x";
    NodeHealth nh = node.empty() && r.chance(50) ? NodeHealth(ver, v) : NodeHealth(ver, node, v);
    VF_CHECK(nh.getVersion() == ver && nh.getNode() == node && nh.getIndicatorsSize() == v.size() && healthIndicatorsAsStrings(nh.getIndicators()) == lines, "health:node", "NodeHealth getters");
    std::vector<resp::Val> want;
    want.push_back(resp::status(std::string("NODE-HEALTH ") + names[worst]));
    if(!node.empty()) want.push_back(resp::status("NODE " + node));
    want.push_back(resp::status("VERSION " + ver));
    want.push_back(resp::status("----------"));
    for(auto &l : lines) want.push_back(resp::status(l));
    resp::Val got;
    std::string enc = Formatter::nodeHealth(nh).val;
    if(!resp::one(enc, got) || !(got == resp::arr(want))) VF_FAIL("health:format", "node health decodes to " << resp::show(got) << "\ninstead of " << resp::show(resp::arr(want)));
    ctx().eval(shape + (node.empty() ? "" : "n"));
  }
}

static void mtimes(Rng &r, const std::string &root) {
  static const std::vector<int64_t> diffs = {0, 1, -1, 3598, 3599, 3600, 3601, 7200, 100000, -3600, -100000, 2147483647, 2147483648ll, 4294967296ll, 4294967296ll + 10};
  for(int i = 0; i < ctx().n(3000); i++) {
    int64_t m = r.chance(5) ? 0 : 1000000000 + r.below(1000000000), d = r.chance(70) ? r.pick(diffs) : r.range(-20000, 20000);
    int64_t s = r.chance(5) ? 0 : m + d;
    long ns = r.below(1000000000);
    struct timespec a = {m, ns}, b = {s, ns};
    Status st = ParanoidManifestChecker::compareMTimes(a, b);
    bool bad = m != 0 && s != 0 && s - m >= 3600;
    VF_CHECK(st.ok() == !bad, "health:manifest", "manifest at " << m << ", newest table at " << s << " (" << s - m << " s later): " << (st.ok() ? "ok" : "reported"));
    ctx().eval("mt" + std::to_string(s - m) + (m == 0 ? "m" : "") + (s == 0 ? "s" : ""));
  }
  for(int i = 0; i < ctx().n(250); i++) {
    std::string dir = root + "/m";
    removeTree(dir);
    mkdir(dir.c_str(), 0755);
    int64_t base = 1500000000 + r.below(1000000);
    int64_t man = -1, sst = -1;
    std::string what;
    for(int n = r.below(9); n > 0; n--) {
      static const std::vector<std::string> nm = {"MANIFEST-000005", "MANIFEST-000009", "000012.sst", "000013.sst", "000014.log", "CURRENT", "xMANIFEST", "000015.sstx", "a.sst", "LOG", "OPTIONS-1", ".sst", "MANIFEST"};
      std::string f = r.pick(nm);
      int64_t t = base + (r.chance(60) ? r.range(-5000, 5000) : 3600 * r.range(-1, 1) + r.range(-1, 1));
      std::string p = dir + "/" + f;
      if(access(p.c_str(), F_OK) == 0) continue;
      { std::ofstream o(p); o << "x"; }
      struct timespec ts[2] = {{t, 500}, {t, 500}};
      utimensat(AT_FDCWD, p.c_str(), ts, 0);
      if(f.compare(0, 8, "MANIFEST") == 0) man = std::max(man, t);
      if(f.size() >= 4 && f.compare(f.size() - 4, 4, ".sst") == 0) sst = std::max(sst, t);
      what += f + "@" + std::to_string(t - base) + " ";
    }
    ctx().current("manifest check of " + what);
    Status st = ParanoidManifestChecker::checkDB(dir);
    bool bad = man >= 0 && sst >= 0 && sst - man >= 3600;
    VF_CHECK(st.ok() == !bad, "health:manifest-dir", "directory with " << what << ": " << (st.ok() ? "ok" : "reported " + st.getMsg()));
    ctx().eval("dir" + what);
    ctx().count(bad ? "manifest_behind" : "manifest_fine");
    if(i % 25 == 0) {
      ParanoidManifestChecker pm(dir);
      bool ok = false;
      for(int k = 0; k < 400 && !ok; k++) { Status s = pm.getLastStatus(); ok = !s.getMsg().empty(); if(ok) VF_CHECK(s.ok() == !bad, "health:manifest-thread", "the checker's last status is " << s.getMsg() << " for " << what); else std::this_thread::sleep_for(std::chrono::milliseconds(5)); }
      VF_CHECK(ok, "health:manifest-thread", "the checker never produced a status");
    }
  }
}

static void freeSpace(Rng &r, StateMachine &sm, StandaloneGroup *sg) {
  const double G = 1024.0 * 1024 * 1024;
  for(int i = 0; i < ctx().n(3000); i++) {
    fBsize = r.chance(50) ? 4096 : 512 << r.below(12);
    fBlocks = 1 + r.below(1ull << (10 + r.below(28)));
    uint64_t res = r.chance(50) ? 0 : r.below(fBlocks / 10 + 1);
    double gib = r.chance(60) ? r.below(12) / 2.0 : r.below(10000);
    uint64_t avail = r.chance(60) ? (uint64_t) (gib * G / fBsize) + r.range(-1, 1) : fBlocks * r.below(101) / 100;
    if((int64_t) avail < 0) avail = 0;
    if(avail + res > fBlocks) { if(r.chance(50)) fBlocks = avail + res + r.below(avail * 30 + 2); else avail = fBlocks - res; }
    fAvail = avail; fFree = avail + res;
    // independent computation, in exact arithmetic
    unsigned __int128 bytes = (unsigned __int128) fAvail * fBsize;
    if(bytes >> 62) continue;
    unsigned __int128 used = fBlocks - fFree, total = used + fAvail;
    if(total == 0) continue;
    int want = 0;
    const unsigned __int128 gi = 1ull << 30;
    if(bytes <= gi) want = 2; else if(bytes <= 5 * gi) want = 1;
    double pct = 100.0 * (double) fAvail / (double) total;
    if(fabs(pct - 3) < 1e-9 || fabs(pct - 10) < 1e-9) continue;
    if(pct < 3) want = 2; else if(pct < 10) want = std::max(want, 1);
    fakeFs = 1;
    std::vector<HealthIndicator> h = sm.getHealthIndicators();
    fakeFs = 0;
    bool found = false;
    for(auto &x : h) if(x.getDescription() == "SM-FREE-SPACE") {
      found = true;
      VF_CHECK(rank(x.getStatus()) == want, "health:free-space", (uint64_t) bytes << " bytes free, " << pct << "%: " << x.toString() << ", expected " << names[want]);
      VF_CHECK(x.getMessage().find(std::to_string((uint64_t) bytes)) != std::string::npos, "health:free-space-text", "message '" << x.getMessage() << "' for " << (uint64_t) bytes << " bytes");
    }
    VF_CHECK(found, "health:free-space", "no free space indicator");
    ctx().eval("fs" + std::to_string(want) + std::to_string((int) pct) + ":" + std::to_string((uint64_t) (bytes / gi)));
  }
  fakeFs = 2;
  std::vector<HealthIndicator> h = sm.getHealthIndicators();
  fakeFs = 0;
  for(auto &x : h) if(x.getDescription() == "SM-FREE-SPACE") VF_CHECK(x.getStatus() == HealthStatus::kRed, "health:free-space", "free space unknown, but status " << x.toString());
}

static void scans(Rng &r, const std::string &root) {
  for(int i = 0; i < ctx().n(6); i++) {
    std::string path = root + "/sm";
    removeTree(path);
    std::string victim;
    {
      StateMachine sm(path);
      LogIndex idx = 0;
      for(int k = 0; k < 300; k++) sm.set("key-" + std::to_string(r.below(1000)), r.bytes(200, 0), ++idx);
      sm.manualCompaction();
      VF_CHECK(sm.verifyChecksum().ok(), "health:scan", "a checksum scan of a sound database fails: " << sm.verifyChecksum().ToString());
      // scan period
      for(auto v : std::vector<std::pair<std::string, int64_t>>{{"", -1}, {"5", 5}, {"0", 0}, {"100000", 100000}, {"-3", -1}, {"x", -1}, {"7x", -1}}) {
        if(!v.first.empty()) sm.configSet(ConsistencyScanner::kConfigurationKey, v.first, ++idx);
        int64_t got = ConsistencyScanner::obtainScanPeriod(sm).count(), want = v.second < 0 ? 12 * 3600 : v.second;
        VF_CHECK(got == want, "health:scan-period", "scan period configured as '" << v.first << "' is " << got << " s");
      }
      sm.configSet(ConsistencyScanner::kConfigurationKey, "1000000", ++idx);
      {
        ConsistencyScanner cs(sm);
        VF_CHECK(!throws([&] { cs.singlePass(); }), "health:scan", "a scan pass over a sound database throws");
      }
      DIR *d = opendir((path).c_str());
      while(dirent *e = readdir(d)) if(std::string(e->d_name).find(".sst") != std::string::npos) victim = path + "/" + e->d_name;
      closedir(d);
      if(i == 0) freeSpace(r, sm, nullptr);
      if(victim.empty()) { fprintf(stderr, "VF-HARNESS-ERROR no sst\n"); exit(2); }
      // flip a byte of a data block
      int fd = open(victim.c_str(), O_RDWR);
      struct stat sb;
      fstat(fd, &sb);
      off_t off = r.below(sb.st_size / 2);
      unsigned char c;
      (void)! pread(fd, &c, 1, off);
      c ^= 1 << r.below(8);
      (void)! pwrite(fd, &c, 1, off);
      close(fd);
      ctx().current("corrupted byte " + std::to_string(off));
      VF_CHECK(!sm.verifyChecksum().ok(), "health:scan-corrupt", "byte " << off << " of a table was changed, the scan reports nothing");
      ConsistencyScanner cs(sm);
      VF_CHECK(throws([&] { cs.singlePass(); }), "health:scan-corrupt", "byte " << off << " of a table was changed, the scan pass reports nothing");
      ctx().eval("corrupt" + std::to_string(off));
      ctx().count("corruptions");
    }
  }
}

struct Capture : public std::streambuf {
  std::string s; std::mutex m;
  int overflow(int c) override { std::scoped_lock l(m); s += (char) c; return c; }
  std::streamsize xsputn(const char *p, std::streamsize n) override { std::scoped_lock l(m); s.append(p, n); return n; }
};

static void stalls() {
  static const rocksdb::WriteStallCondition cs[] = {rocksdb::WriteStallCondition::kNormal, rocksdb::WriteStallCondition::kDelayed, rocksdb::WriteStallCondition::kStopped};
  static const char *nm[] = {"normal", "delayed", "stopped"};
  for(int a = 0; a < 3; a++) for(int b = 0; b < 3; b++) {
    Capture cap;
    std::streambuf *old = std::cerr.rdbuf(&cap);
    rocksdb::WriteStallInfo info;
    info.condition.prev = cs[a]; info.condition.cur = cs[b];
    WriteStallWarner w("journal-xyz");
    w.OnStallConditionsChanged(info);
    std::cerr.rdbuf(old);
    size_t p = cap.s.rfind(std::string(nm[a])), q = cap.s.rfind(std::string(nm[b]));
    VF_CHECK(cap.s.find("journal-xyz") != std::string::npos && p != std::string::npos && q != std::string::npos && p <= q, "health:stall", "a change from " << nm[a] << " to " << nm[b] << " is logged as: " << cap.s);
    ctx().eval(std::string("stall") + nm[a] + nm[b]);
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Rng r(ctx().seed);
  std::string root = freshDir("h");
  indicators(r);
  stalls();
  mtimes(r, root);
  scans(r, root);
  return ctx().finish();
}
