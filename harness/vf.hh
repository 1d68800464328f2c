// Shared by all harnesses: seeded randomness, observation counters, violation reports.
//
// A harness is run as `harness --out FILE [--key value ...]`. It writes FILE at the end
// (and after every violation) as JSON. Exit code 0: nothing wrong; 3: violations listed
// in FILE. Anything else is a crash, and judged by the runner together with the
// "current case" which the harness keeps in FILE.cur.
#ifndef VF_HH
#define VF_HH

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

inline std::string esc(std::string_view s, size_t limit = 400) {
  std::string o;
  for(size_t i = 0; i < s.size() && i < limit; i++) {
    unsigned char c = s[i];
    char b[8];
    if(c == '\\') o += "\\\\";
    else if(c < 32 || c > 126) { snprintf(b, sizeof(b), "\\x%02X", c); o += b; }
    else o += (char) c;
  }
  if(s.size() > limit) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}

inline std::string jstr(std::string_view s) {
  std::string o = "\"";
  for(unsigned char c : s) {
    char b[8];
    if(c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if(c < 32 || c > 126) { snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o + "\"";
}

inline uint64_t hash64(std::string_view s, uint64_t h = 1469598103934665603ull) {
  for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

struct Rng {
  uint64_t s;
  // mixed first: streams of neighbouring seeds must not be shifts of each other
  explicit Rng(uint64_t seed = 1) : s((seed ^ 0x5851F42D4C957F2Dull) * 0xD1342543DE82EF95ull + 0x1234567ull) { s = next() * 0xAF251AF3B0F025B5ull; s = next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t) (b - a) + 1); }
  bool chance(int pct) { return (int) below(100) < pct; }
  template<typename T> const T& pick(const std::vector<T> &v) { return v[below(v.size())]; }
  // hostile byte strings: separators, NUL, 0xff, prefixes of each other
  std::string bytes(size_t maxlen, int style = -1) {
    static const std::string nasty("\0\xff#|a\nb\r:*$?[]\\ ", 17);
    if(style < 0) style = below(4);
    size_t n = below(maxlen + 1);
    std::string o;
    for(size_t i = 0; i < n; i++) {
      if(style == 0) o += (char) next();
      else if(style == 1) o += nasty[below(nasty.size())];
      else if(style == 2) o += (char) ('a' + below(3));
      else o += (char) (32 + below(95));
    }
    return o;
  }
};

struct Ctx {
  std::string out;
  std::map<std::string, std::string> args;
  uint64_t seed = 1;
  bool thorough = false;
  std::recursive_mutex mtx;

  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> counters;
  struct Viol { std::string key, msg; };
  std::vector<Viol> violations;
  std::set<std::string> violKeys;
  char *cur = nullptr;
  static const size_t kCur = 65536;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

  std::string arg(const std::string &k, const std::string &d = "") { return args.count(k) ? args[k] : d; }
  int64_t iarg(const std::string &k, int64_t d) { return args.count(k) ? strtoll(args[k].c_str(), nullptr, 10) : d; }
  // number of cases: quick count, multiplied by `scale` in thorough runs
  int64_t n(int64_t quick, int64_t scale = 10) { return thorough ? quick * scale : quick; }

  void write() {
    std::scoped_lock l(mtx);
    std::ostringstream ss;
    ss << "{\"evaluations\":" << evaluations << ",\"distinct\":" << distinct.size() << ",\"samples\":[";
    for(size_t i = 0; i < samples.size(); i++) ss << (i ? "," : "") << jstr(samples[i]);
    ss << "],\"counters\":{";
    bool f = true;
    for(auto &c : counters) { ss << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
    ss << "},\"violations\":[";
    for(size_t i = 0; i < violations.size(); i++)
      ss << (i ? "," : "") << "{\"key\":" << jstr(violations[i].key) << ",\"msg\":" << jstr(violations[i].msg) << "}";
    ss << "]}\n";
    std::string tmp = out + ".tmp";
    std::ofstream(tmp) << ss.str();
    rename(tmp.c_str(), out.c_str());
  }

  // one evaluated case; `shape` identifies it for the distinct count (empty: trivial)
  void eval(std::string_view shape) {
    std::scoped_lock l(mtx);
    evaluations++;
    if(!shape.empty()) distinct.insert(hash64(shape));
  }
  void sample(const std::string &s, size_t max = 4) {
    std::scoped_lock l(mtx);
    if(samples.size() < max) samples.push_back(s.substr(0, 2000));
  }
  void count(const std::string &k, uint64_t n = 1) { std::scoped_lock l(mtx); counters[k] += n; }

  // what is being executed, readable by the runner even if we crash
  void current(std::string_view s) {
    if(!cur) return;
    size_t n = std::min(s.size(), kCur - 1);
    memcpy(cur, s.data(), n);
    cur[n] = 0;
  }

  // key: stable identity of what failed (for the known-findings file); msg: the witness
  void fail(const std::string &key, const std::string &msg) {
    std::scoped_lock l(mtx);
    if(violKeys.insert(key).second) {
      violations.push_back({key, msg.substr(0, 20000)});
      write();
      fprintf(stderr, "VF-FAIL %s: %s\n", key.c_str(), msg.substr(0, 3000).c_str());
    }
    counters["violations_observed"]++;
  }
  bool failed() { std::scoped_lock l(mtx); return !violations.empty(); }
  bool failed(const std::string &k) { std::scoped_lock l(mtx); return violKeys.count(k); }

  int finish() {
    write();
    return violations.empty() ? 0 : 3;
  }
};

inline Ctx& ctx() { static Ctx *c = new Ctx(); return *c; }

inline void init(int argc, char **argv) {
  Ctx &c = ctx();
  for(int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    if(k.substr(0, 2) != "--") { fprintf(stderr, "bad argument %s\n", argv[i]); exit(2); }
    c.args[k.substr(2)] = argv[i+1];
  }
  c.out = c.arg("out", "/dev/null");
  c.seed = c.iarg("seed", 1);
  c.thorough = c.arg("tier", "quick") == "thorough";
  if(c.out != "/dev/null") {
    std::string p = c.out + ".cur";
    int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if(fd >= 0 && ftruncate(fd, Ctx::kCur) == 0) {
      void *m = mmap(nullptr, Ctx::kCur, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if(m != MAP_FAILED) c.cur = (char*) m;
    }
    if(fd >= 0) close(fd);
  }
}

// scratch directory given by the runner
inline std::string scratch() { return ctx().arg("scratch", "/tmp/vf-scratch"); }

inline void removeTree(const std::string &p) {
  if(p.size() < 12 || p.find("/vf-") == std::string::npos) { fprintf(stderr, "refusing to remove %s\n", p.c_str()); abort(); }
  std::string cmd = "rm -rf -- '" + p + "'";
  (void)! system(cmd.c_str());
}

inline std::string freshDir(const std::string &name) {
  std::string p = scratch() + "/" + name;
  removeTree(p);
  mkdir(p.c_str(), 0755);
  return p;
}

}

#define VF_FAIL(key, expr) do { std::ostringstream vf_ss; vf_ss << expr; vf::ctx().fail(key, vf_ss.str()); } while(0)
#define VF_CHECK(cond, key, expr) do { if(!(cond)) VF_FAIL(key, expr); } while(0)

#endif
