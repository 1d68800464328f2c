// C29: clocks and timeouts.
#include "qdb.hh"
#include "Timekeeper.hh"
#include "raft/RaftTimeouts.hh"
#include "utils/ClockWrapper.hh"
#include <dlfcn.h>
#include <time.h>
using namespace vf;
using namespace quarkdb;
using std::chrono::milliseconds;
typedef std::chrono::steady_clock SC;

// the wall clock of this process jumps wildly; steady clocks do not
static std::atomic<int64_t> wallShift{0};
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  static auto real = (int (*)(clockid_t, struct timespec*)) dlsym(RTLD_NEXT, "clock_gettime");
  int rc = real(id, ts);
  if(id == CLOCK_REALTIME) ts->tv_sec += wallShift;
  return rc;
}

static int64_t ms(SC::duration d) { return std::chrono::duration_cast<milliseconds>(d).count(); }

static void timekeeper(Rng &r) {
  static const std::vector<uint64_t> starts = {0, 1, 12345, 1ull << 31, 1ull << 32, 1ull << 40, 1ull << 62};
  uint64_t v = r.pick(starts) + r.below(3);
  SC::time_point a0 = SC::now();
  Timekeeper tk(v);
  SC::time_point a1 = SC::now();
  std::string trace = "startup " + std::to_string(v);
  uint64_t last = v;
  auto read = [&] {
    SC::time_point b = SC::now();
    uint64_t t = tk.getDynamicTime();
    SC::time_point e = SC::now();
    VF_CHECK(t >= v + ms(b - a1) && t <= v + ms(e - a0), "clock:dynamic", "clock reads " << t << ", expected between " << v + ms(b - a1) << " and " << v + ms(e - a0) << " after " << trace);
    VF_CHECK(t >= last, "clock:back", "clock went from " << last << " to " << t << " after " << trace);
    last = t;
    ctx().count("clock_reads");
  };
  int n = 3 + r.below(12);
  for(int i = 0; i < n; i++) {
    wallShift = r.range(-1000000, 1000000);
    int k = r.below(10);
    if(k < 3) { int s = r.below(4); std::this_thread::sleep_for(std::chrono::microseconds(s * 700)); trace += "; sleep"; read(); }
    else if(k < 5) {
      uint64_t nv = v + (r.chance(30) ? 0 : r.chance(50) ? r.below(5) : r.below(100000));
      trace += "; synchronize(" + std::to_string(nv) + ")";
      ctx().current(trace);
      a0 = SC::now(); tk.synchronize(nv); a1 = SC::now();
      v = nv; last = v;       // documented: the dynamic time may be set back to the new static value
      read();
    }
    else if(k < 6) {
      uint64_t nv = r.chance(50) ? r.below(v + 1) : v + r.below(1000);
      trace += "; reset(" + std::to_string(nv) + ")";
      a0 = SC::now(); tk.reset(nv); a1 = SC::now();
      v = nv; last = v;
      read();
    }
    else if(k < 7 && v > 0) {
      uint64_t nv = v - 1 - (r.chance(50) ? 0 : r.below(v));
      trace += "; synchronize backwards(" + std::to_string(nv) + ")";
      ctx().current(trace);
      VF_CHECK(throws([&] { tk.synchronize(nv); }), "clock:synchronize-back", "a synchronization from " << v << " back to " << nv << " was accepted after " << trace);
      read();
    }
    else read();
  }
  ctx().eval(trace);
}

static void timekeeperThreads(Rng &r) {
  Timekeeper tk(1000);
  std::atomic<uint64_t> floor{1000};     // the last synchronization completed
  std::atomic<bool> stop{false};
  std::vector<std::thread> th;
  for(int i = 0; i < 4; i++) th.emplace_back([&] {
    while(!stop) {
      uint64_t f = floor;
      uint64_t t = tk.getDynamicTime();
      VF_CHECK(t >= f, "clock:below-static", "clock reads " << t << " after it was synchronized to " << f);
      VF_CHECK(t < 1000 + 400 * 5000 + 600000, "clock:far", "clock reads " << t);
      ctx().count("clock_reads");
    }
  });
  uint64_t v = 1000;
  for(int i = 0; i < 400; i++) { v += r.below(5000); tk.synchronize(v); floor = v; if(i % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds(300)); }
  stop = true;
  for(auto &t : th) t.join();
  ctx().eval("threads" + std::to_string(v));
}

static void draws(Rng &r) {
  int64_t low = r.chance(30) ? r.below(3) : r.below(3000);
  int64_t width = r.chance(20) ? 0 : r.below(40);
  if(r.chance(10)) low = (1ll << 31) + r.below(100);
  RaftTimeouts t{milliseconds(low), milliseconds(low + width), milliseconds(r.below(500))};
  std::string what = t.toString();
  ctx().current("draws from " + what);
  std::map<int64_t, int> seen;
  const int N = (width + 1) * 60;
  bool tracker = r.chance(50);
  RaftHeartbeatTracker tr(t);
  for(int i = 0; i < N; i++) {
    int64_t d = tracker ? tr.refreshRandomTimeout().count() : t.getRandom().count();
    if(tracker) VF_CHECK(tr.getRandomTimeout().count() == d, "timeouts:refresh", "getRandomTimeout differs from what refreshRandomTimeout returned");
    VF_CHECK(d >= low && d <= low + width, "timeouts:range", "a timeout of " << d << " ms was drawn from " << what);
    seen[d]++;
  }
  // 60 draws per value: the chance of missing one of at most 40 values is below 1e-24
  VF_CHECK((int64_t) seen.size() == width + 1, "timeouts:cover", N << " draws from " << what << " gave only " << seen.size() << " of " << width + 1 << " values");
  for(auto &s : seen) VF_CHECK(s.second < N / 2 || width < 2, "timeouts:skew", s.first << " ms was drawn " << s.second << " of " << N << " times from " << what);
  ctx().eval("draw" + what);
  ctx().count("draws", N);
}

static void differ(const char *self) {
  // independent draws do not repeat, neither between objects nor between processes
  RaftTimeouts a{milliseconds(0), milliseconds(100000000), milliseconds(1)}, b = a;
  std::set<std::vector<int64_t>> seqs;
  for(RaftTimeouts *t : {&a, &b}) { std::vector<int64_t> v; for(int i = 0; i < 6; i++) v.push_back(t->getRandom().count()); seqs.insert(v); VF_CHECK(std::set<int64_t>(v.begin(), v.end()).size() > 1, "timeouts:same", "six draws were all the same"); }
  VF_CHECK(seqs.size() == 2, "timeouts:same-object", "two timeout objects draw the same sequence");
  std::set<std::string> outs;
  for(int i = 0; i < 3; i++) {
    std::string o;
    FILE *p = popen((std::string(self) + " --mode draw").c_str(), "r");
    char buf[400];
    while(p && fgets(buf, sizeof(buf), p)) o += buf;
    if(p) pclose(p);
    if(o.empty()) { fprintf(stderr, "VF-HARNESS-ERROR no draws from child\n"); exit(2); }
    VF_CHECK(outs.insert(o).second, "timeouts:same-process", "two processes draw the same timeouts: " << o);
    ctx().eval("process" + o);
  }
}

static void roundtrip(Rng &r) {
  static const std::vector<int64_t> vals = {0, 1, 2, 5, 100, 150, 1000, 2147483647, 2147483648ll, 1ll << 40};
  int64_t low = r.chance(50) ? r.pick(vals) : r.below(5000), high = low + (r.chance(50) ? r.pick(vals) : r.below(5000)), hb = r.chance(50) ? r.pick(vals) : r.below(500);
  RaftTimeouts t{milliseconds(low), milliseconds(high), milliseconds(hb)};
  VF_CHECK(t.getLow().count() == low && t.getHigh().count() == high && t.getHeartbeatInterval().count() == hb, "timeouts:getters", "getters of " << t.toString());
  std::string s = t.toString();
  VF_CHECK(s == std::to_string(low) + ":" + std::to_string(high) + ":" + std::to_string(hb), "timeouts:text", "text of " << low << "," << high << "," << hb << " is " << s);
  RaftTimeouts back = aggressiveTimeouts;
  ctx().current("parse " + s);
  bool ok = RaftTimeouts::fromString(back, s);
  VF_CHECK(ok && back == t && back.getLow().count() == low && back.getHigh().count() == high && back.getHeartbeatInterval().count() == hb, "timeouts:roundtrip", s << " parsed as " << (ok ? back.toString() : "invalid"));
  if(ok) { int64_t d = back.getRandom().count(); VF_CHECK(d >= low && d <= high, "timeouts:range", "a timeout of " << d << " ms was drawn from parsed " << s); }
  RaftTimeouts other{milliseconds(low + (r.chance(33) ? 1 : 0)), milliseconds(high + 1 + (r.chance(50) ? 1 : 0)), milliseconds(hb)};
  VF_CHECK(!(other == t), "timeouts:equal", "different timeouts compare equal");
  RaftTimeouts other2{milliseconds(low), milliseconds(high), milliseconds(hb + 1)};
  VF_CHECK(!(other2 == t), "timeouts:equal", "different timeouts compare equal");
  ctx().eval("rt" + s);
  // malformed
  std::string b;
  switch(r.below(7)) {
    case 0: b = s + ":1"; break;
    case 1: b = std::to_string(low) + ":" + std::to_string(high); break;
    case 2: b = s + "x"; break;
    case 3: b = "x" + s; break;
    case 4: b = std::to_string(high + 1) + ":" + std::to_string(low) + ":" + std::to_string(hb); break;
    case 5: b = "-" + std::to_string(low + 1) + ":" + std::to_string(high) + ":" + std::to_string(hb); break;
    default: b = r.bytes(12, 3); if(std::count(b.begin(), b.end(), ':') == 2) b += ":"; break;
  }
  RaftTimeouts keep = aggressiveTimeouts;
  ctx().current("parse " + b);
  VF_CHECK(!RaftTimeouts::fromString(keep, b), "timeouts:malformed", "'" << esc(b) << "' accepted as " << keep.toString());
  ctx().eval("bad" + b);
}

static void tracker(Rng &r) {
  int64_t low = 50 + r.below(50), width = r.below(60);
  RaftHeartbeatTracker t(RaftTimeouts{milliseconds(low), milliseconds(low + width), milliseconds(5)});
  SC::time_point base = SC::time_point() + std::chrono::hours(100), last = SC::time_point(), now = base;
  bool art = false;
  int64_t rnd = t.getRandomTimeout().count();
  std::string trace;
  for(int i = 0; i < 40; i++) {
    int k = r.below(10);
    if(k < 3) {
      SC::time_point p = now + milliseconds(r.chance(80) ? r.below(100) : -(int64_t) r.below(200));
      t.heartbeat(p);
      if(p >= last) last = p;
      now = std::max(now, p);
      trace += "h";
      VF_CHECK(t.getLastHeartbeat() == last, "timeouts:heartbeat", "the last heartbeat is not the latest one, after " << trace);
    }
    else if(k < 4) { t.triggerTimeout(); art = true; trace += "t"; }
    else if(k < 5) { rnd = t.refreshRandomTimeout().count(); trace += "r"; }
    else {
      SC::time_point q = last + (r.chance(70) ? milliseconds(rnd) + std::chrono::nanoseconds(r.range(-1, 1)) : milliseconds(r.below(300)));
      TimeoutStatus want = art ? TimeoutStatus::kArtificial : q - last > milliseconds(rnd) ? TimeoutStatus::kYes : TimeoutStatus::kNo;
      art = false;
      TimeoutStatus got = t.timeout(q);
      trace += std::to_string((int) want);
      VF_CHECK(got == want, "timeouts:status", "timeout status " << (int) got << " instead of " << (int) want << " at " << (q - last).count() << " ns with a timeout of " << rnd << " ms, after " << trace);
    }
    VF_CHECK(rnd >= low && rnd <= low + width && t.getRandomTimeout().count() == rnd, "timeouts:tracker-range", "timeout " << t.getRandomTimeout().count());
  }
  ctx().eval(trace);
}

template<typename C, bool steady>
static void fakeClock(Rng &r) {
  C f(true), real(false);
  typename C::time_point want;
  VF_CHECK(f.fake() && !real.fake() && f.now() == want, "clock:fake", "a fake clock does not start at its epoch");
  for(int i = 0; i < 30; i++) {
    if(r.chance(60)) { milliseconds d(r.below(100000)); f.advance(d); real.advance(d); want += d; }
    else { typename C::time_point p = typename C::time_point() + milliseconds(r.below(1000000)); f.set(p); real.set(p); if(!steady) want = p; }
    VF_CHECK(f.now() == want, "clock:fake", "a fake clock shows the wrong time");
  }
  auto b = C::time_point::clock::now(), m = real.now(), e = C::time_point::clock::now();
  VF_CHECK(b <= m && m <= e, "clock:real", "a real clock was moved by advance or set");
  ctx().eval("fake" + std::to_string(steady) + std::to_string(want.time_since_epoch().count()));
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  if(ctx().arg("mode") == "draw") {
    RaftTimeouts t{milliseconds(0), milliseconds(1000000000), milliseconds(1)};
    for(int i = 0; i < 8; i++) printf("%lld ", (long long) t.getRandom().count());
    return 0;
  }
  Rng r(ctx().seed);
  if(ctx().arg("mode") != "threads") {
    for(int i = 0; i < ctx().n(500); i++) timekeeper(r);
    for(int i = 0; i < ctx().n(400); i++) draws(r);
    differ(argv[0]);
    for(int i = 0; i < ctx().n(4000); i++) roundtrip(r);
    for(int i = 0; i < ctx().n(2000); i++) tracker(r);
    wallShift = 0;
    for(int i = 0; i < 100; i++) { fakeClock<SteadyClock, true>(r); fakeClock<SystemClock, false>(r); }
  }
  for(int i = 0; i < ctx().n(3); i++) timekeeperThreads(r);
  // several threads draw at once
  RaftTimeouts t{milliseconds(5), milliseconds(25), milliseconds(1)};
  RaftHeartbeatTracker ht(t);
  std::vector<std::thread> th;
  for(int i = 0; i < 4; i++) th.emplace_back([&] {
    for(int k = 0; k < 5000; k++) {
      int64_t d = t.getRandom().count();
      if(d < 5 || d > 25) VF_FAIL("timeouts:range", "concurrent draw of " << d);
      ht.refreshRandomTimeout(); ht.heartbeat(SC::now()); ht.timeout(SC::now()); ht.getLastHeartbeat();
      d = ht.getRandomTimeout().count();
      if(d < 5 || d > 25) VF_FAIL("timeouts:range", "concurrent draw of " << d);
    }
  });
  for(auto &x : th) x.join();
  return ctx().finish();
}
