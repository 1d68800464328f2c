// C27: the components that several threads share.
//  assisted  the thread helper: stopping, joining, sleeping, callbacks, propagation, reuse
//  inflight  the in-flight tracker as a barrier, on few and on many CPUs
//  values    synchronized values, statistics, request counters, scoped adders
//  fsync     the periodic sync of a database
//  journal   waiting, reading and writing a journal from many threads
//  raft      state, lease, heartbeat and commit trackers, clocks
#include "qdb.hh"
#include "raft.hh"
#include "Timekeeper.hh"
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftTimeouts.hh"
#include "redis/Transaction.hh"
#include "utils/AssistedThread.hh"
#include "utils/CoreLocalArray.hh"
#include "utils/InFlightTracker.hh"
#include "utils/RequestCounter.hh"
#include "utils/Resilvering.hh"
#include "utils/ScopedAdder.hh"
#include "utils/Statistics.hh"
#include "utils/Synchronized.hh"
#include <climits>
#include <sched.h>
#include <sys/syscall.h>
using namespace vf;
using namespace quarkdb;
using Clock = std::chrono::steady_clock;

static std::atomic<uint64_t> beat {0};
static std::atomic<bool> over {false};
struct Watchdog {
  std::thread t;
  Watchdog() : t([] {
    uint64_t last = beat; auto since = Clock::now();
    while(!over) {
      usleep(100000);
      auto now = Clock::now();
      if(beat != last) { last = beat; since = now; }
      else if(now - since > std::chrono::seconds(60)) { VF_FAIL("hang", "no progress for 60 s: " << (ctx().cur ? std::string(ctx().cur).substr(0, 600) : std::string())); _exit(3); }
    }
  }) {}
  ~Watchdog() { over = true; t.join(); }
};
static double secs(Clock::time_point a) { return std::chrono::duration<double>(Clock::now() - a).count(); }
static std::vector<int> myCpus() {
  cpu_set_t s; std::vector<int> v;
  if(sched_getaffinity(0, sizeof(s), &s) == 0) for(int i = 0; i < CPU_SETSIZE; i++) if(CPU_ISSET(i, &s)) v.push_back(i);
  return v;
}
// the CPU a thread runs on, as the kernel would number it where CPUs have been taken offline
static std::atomic<int> cpuShift {0};
extern "C" int sched_getcpu() {
  unsigned c = 0;
  if(syscall(SYS_getcpu, &c, nullptr, nullptr) != 0) return -1;
  int s = cpuShift.load(std::memory_order_relaxed);
  return s == INT_MIN ? -1 : (int) c + s;
}
static void pin(const std::vector<int> &c) { cpu_set_t s; CPU_ZERO(&s); for(int i : c) CPU_SET(i, &s); sched_setaffinity(0, sizeof(s), &s); }

// ---------------------------------------------------------------- thread helper
struct Body {
  std::atomic<int> began {0}, ended {0}, calls {0}, waits {0};
  void sleeper(ThreadAssistant &a) { began++; while(!a.terminationRequested()) a.wait_for(std::chrono::hours(1)); ended++; }
  void napper(int us, ThreadAssistant &a) { began++; while(!a.terminationRequested()) { a.wait_for(std::chrono::microseconds(us)); waits++; } ended++; }
  void until(ThreadAssistant &a) { began++; while(!a.terminationRequested()) a.wait_until(Clock::now() + std::chrono::hours(1)); ended++; }
  void quick(ThreadAssistant&) { began++; ended++; }
  // woken by a callback only
  std::mutex mtx; std::condition_variable cv; bool wake = false;
  void called(ThreadAssistant &a) {
    began++;
    { std::scoped_lock l(mtx); wake = false; }
    a.registerCallback([this] { std::scoped_lock l(mtx); wake = true; calls++; cv.notify_all(); });
    std::unique_lock l(mtx);
    while(!wake) cv.wait(l);
    ended++;
  }
  // waits for threads of its own, which only stop when it is asked to
  void coordinator(int n, ThreadAssistant &a) {
    began++;
    Body kids[4];
    {
      std::vector<std::unique_ptr<AssistedThread>> th;
      for(int i = 0; i < n; i++) th.emplace_back(i % 2 ? new AssistedThread(&Body::sleeper, &kids[i]) : new AssistedThread(&Body::called, &kids[i]));
      for(auto &t : th) a.propagateTerminationSignal(*t);
      for(auto &t : th) t->blockUntilThreadJoins();
      a.dropCallbacks();
    }
    for(int i = 0; i < n; i++) VF_CHECK(kids[i].ended == 1, "assisted:child", "a child did not end");
    ended++;
  }
};

static void assisted(int rounds) {
  std::vector<std::thread> drivers;
  for(int d = 0; d < 4; d++) drivers.emplace_back([=] {
    for(int round = d; round < rounds && !ctx().failed(); round += 4) {
      Rng g(ctx().seed * 100000 + round);
      Body b;
      int kind = g.below(6), kids = g.range(1, 4);
      int runs = 0;
      std::unique_ptr<AssistedThread> t;
      bool viaReset = g.chance(50);
      auto launch = [&](AssistedThread *x) {
        runs++;
        switch(kind) {
          case 0: x->reset(&Body::sleeper, &b); break;
          case 1: x->reset(&Body::napper, &b, 50); break;
          case 2: x->reset(&Body::until, &b); break;
          case 3: x->reset(&Body::quick, &b); break;
          case 4: x->reset(&Body::called, &b); break;
          default: x->reset(&Body::coordinator, &b, kids);
        }
      };
      if(viaReset) { t.reset(new AssistedThread()); if(g.chance(30)) { t->join(); t->stop(); } launch(t.get()); }
      else {
        runs++;
        switch(kind) {
          case 0: t.reset(new AssistedThread(&Body::sleeper, &b)); break;
          case 1: t.reset(new AssistedThread(&Body::napper, &b, 50)); break;
          case 2: t.reset(new AssistedThread(&Body::until, &b)); break;
          case 3: t.reset(new AssistedThread(&Body::quick, &b)); break;
          case 4: t.reset(new AssistedThread(&Body::called, &b)); break;
          default: t.reset(new AssistedThread(&Body::coordinator, &b, kids));
        }
      }
      int n = g.below(4);
      std::string did;
      std::atomic<int> mine {0};
      bool hook = kind != 3 && kind != 4 && kind != 5 && g.chance(50);
      for(int i = 0; i <= n && !ctx().failed(); i++) {
        if(g.chance(60)) usleep(g.below(400));
        if(hook && i == n) t->registerCallback([&] { mine++; });
        int how = i == n ? g.below(3) : g.below(5);
        did += std::to_string(how);
        auto t0 = Clock::now();
        switch(how) {
          case 0: t->join(); break;
          case 1: t->stop(); t->stop(); t->join(); t->join(); break;
          case 2: { // asked to stop by another thread, waited for here
            if(kind == 3) { t->blockUntilThreadJoins(); break; }
            std::thread other([&] { t->stop(); });
            other.join();
            t->blockUntilThreadJoins();
            break;
          }
          case 3: launch(t.get()); continue;                 // ends the old one, starts anew
          default: { // moved while running
            if(g.chance(50)) { std::unique_ptr<AssistedThread> u(new AssistedThread(std::move(*t))); t.reset(); t = std::move(u); }
            continue;
          }
        }
        VF_CHECK(b.began == runs && b.ended == runs, "assisted:ended", "kind " << kind << ": started " << runs << " times, began " << b.began << ", ended " << b.ended << " when joined (" << did << ")");
        VF_CHECK(secs(t0) < 30, "assisted:slow", "kind " << kind << ": stopping took " << secs(t0) << " s");
        if(kind == 4) VF_CHECK(b.calls == runs, "assisted:callback", "the termination callback ran " << b.calls << " times in " << runs << " runs");
        if(i < n) launch(t.get());
      }
      if(hook) VF_CHECK(mine == 1, "assisted:hook", "a callback registered from outside ran " << mine << " times (" << did << ", kind " << kind << ")");
      t.reset();
      VF_CHECK(b.began == runs && b.ended == runs, "assisted:destroyed", "kind " << kind << ": started " << runs << " times, ended " << b.ended << " when destroyed (" << did << ")");
      beat++;
      ctx().eval(SSTR("a" << kind << did));
      ctx().count("threads_started", runs);
      ctx().count("callbacks_run", b.calls + mine);
    }
  });
  for(auto &t : drivers) t.join();
  // sleeping takes its time, and no more than it was asked for
  for(int k = 0; k < 2; k++) {
    std::atomic<double> took {0};
    auto f = [&](ThreadAssistant &a) { auto t0 = Clock::now(); for(int i = 0; i < 25; i++) { if(k) a.wait_until(Clock::now() + std::chrono::milliseconds(4)); else a.wait_for(std::chrono::milliseconds(4)); } took = secs(t0); };
    AssistedThread t(f);
    t.blockUntilThreadJoins();
    VF_CHECK(took > 0.05, "assisted:nap", "25 naps of 4 ms take " << took << " s");
    VF_CHECK(took < 30, "assisted:nap", "25 naps of 4 ms take " << took << " s");
  }
  // a late callback still runs; dropped ones do not
  {
    std::atomic<int> a {0}, b {0}, go {0};
    AssistedThread t([&](ThreadAssistant &as) { while(!as.terminationRequested()) as.wait_for(std::chrono::seconds(60)); while(!go) usleep(100); as.registerCallback([&] { a++; }); });
    t.stop(); go = 1; t.blockUntilThreadJoins();
    VF_CHECK(a == 1, "assisted:late", "a callback registered after the stop ran " << a << " times");
    AssistedThread u([&](ThreadAssistant &as) { while(!as.terminationRequested()) as.wait_for(std::chrono::seconds(60)); });
    u.registerCallback([&] { b++; });
    u.dropCallbacks();
    u.stop(); u.join();
    VF_CHECK(b == 0, "assisted:dropped", "a dropped callback ran");
  }
}

// ---------------------------------------------------------------- in flight
static void inflightOn(const std::vector<int> &build, const std::vector<int> &use, int rounds, uint64_t seed) {
  std::vector<int> all = myCpus();
  pin(build);
  std::unique_ptr<InFlightTracker> t(new InFlightTracker(seed % 2));
  std::unique_ptr<StatAggregator> stats(new StatAggregator());
  pin(use);
  bool accepting = seed % 2;
  VF_CHECK(t->isAcceptingRequests() == accepting, "inflight:start", "a tracker starts the other way round");
  std::atomic<bool> go {true};
  std::atomic<int64_t> active {0}, accepted {0}, refused {0}, rejectedWhileOpen {0};
  std::vector<std::thread> th;
  std::atomic<uint64_t> opened {0};    // generation, odd: closed and drained
  for(int i = 0; i < 6; i++) th.emplace_back([&, i] {
    Rng g(seed * 7 + i);
    while(go) {
      InFlightRegistration r(*t);
      if(r.ok()) {
        active++; accepted++;
        VF_CHECK(t->getInFlight() >= 1, "inflight:sum", "a request is in flight and the sum is " << t->getInFlight());
        stats->getStats()->reads++;
        if(g.chance(20)) pin({g.pick(use)});        // finish on another CPU
        else if(g.chance(20)) sched_yield();
        active--;
      }
      else { refused++; if(g.chance(50)) sched_yield(); }
    }
  });
  ctx().current(SSTR("in flight on " << use.size() << " CPUs, made on " << build.size() << ", numbers off by " << cpuShift.load()));
  for(int r = 0; r < rounds && !ctx().failed(); r++) {
    Rng g(seed * 1000 + r);
    t->setAcceptingRequests(true);
    VF_CHECK(t->isAcceptingRequests(), "inflight:flag", "does not accept after being told to");
    int64_t before = accepted;
    auto t0 = Clock::now();
    while(accepted == before && secs(t0) < 30) sched_yield();
    VF_CHECK(accepted != before, "inflight:closed", "no request accepted after opening again");
    usleep(g.below(300));
    t->setAcceptingRequests(false);
    t->spinUntilNoRequestsInFlight();
    int64_t a = active, n = accepted;
    VF_CHECK(a == 0, "inflight:barrier", a << " requests in flight after waiting for none");
    usleep(g.below(200));
    VF_CHECK(accepted == n && active == 0, "inflight:barrier", accepted - n << " requests accepted although closed, " << active << " in flight");
    beat++;
    ctx().eval(SSTR("i" << use.size() << build.size() << std::min<int64_t>(n - before, 20)));
    ctx().count("barriers");
  }
  go = false;
  for(auto &x : th) x.join();
  VF_CHECK(t->getInFlight() == 0, "inflight:end", t->getInFlight() << " in flight after the end");
  VF_CHECK(stats->getOverallStats().reads == accepted, "stats:total", stats->getOverallStats().reads << " counted of " << accepted);
  ctx().count("requests_accepted", accepted);
  ctx().count("requests_refused", refused);
  t.reset(); stats.reset();
  pin(all);
}
static void inflight(int rounds) {
  std::vector<int> all = myCpus();
  uint64_t s = ctx().seed * 10;
  inflightOn(all, all, rounds, s);
  inflightOn(all, all, rounds, s + 1);
  int n = std::thread::hardware_concurrency();
  for(int shift : {1, n - 1, n, n + 1, 3 * n, INT_MIN}) {
    cpuShift = shift;
    inflightOn(all, all, rounds / 4 + 2, s + 6);
    cpuShift = 0;
    if(ctx().failed()) return;
  }
  if(all.size() < 2) return;
  // what exists of CPUs is not numbered from zero, nor fixed
  inflightOn({all.back()}, {all.back()}, rounds, s + 2);
  inflightOn({all[0]}, {all[1]}, rounds, s + 3);
  inflightOn({all[0], all[1]}, std::vector<int>(all.begin() + 1, all.end()), rounds, s + 4);
  inflightOn({all[all.size() / 2]}, all, rounds, s + 5);
}

// ---------------------------------------------------------------- values and counters
struct Slot { alignas(64) std::atomic<int64_t> n {0}; char pad[56]; };
static void values(int rounds) {
  // as constructed
  { Synchronized<std::string> s("initial"); VF_CHECK(s.get() == "initial", "sync:initial", "a value constructed as 'initial' is '" << s.get() << "'"); Synchronized<int> i(7); VF_CHECK(i.get() == 7, "sync:initial", "a value constructed as 7 is " << i.get()); Synchronized<std::string> e; VF_CHECK(e.get().empty(), "sync:initial", "not empty"); }
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    beat++;
    // whole values, never going back for one writer
    Synchronized<std::string> str; Synchronized<std::vector<int64_t>> vec;
    str.set(std::string(10, 'a'));
    std::atomic<bool> go {true};
    std::vector<std::thread> th;
    for(int r = 0; r < 3; r++) th.emplace_back([&] {
      int64_t last = -1; uint64_t seen = 0;
      while(go) {
        std::string s = str.get();
        for(char c : s) if(c != s[0]) { VF_FAIL("sync:torn", "a mixture of two values is read: " << esc(s, 100)); break; }
        VF_CHECK(s.size() % 10 == 0 && !s.empty(), "sync:torn", "a part of a value is read");
        std::vector<int64_t> v = vec.get();
        for(auto x : v) if(x != v[0]) { VF_FAIL("sync:torn", "a mixture of two vectors is read"); break; }
        if(!v.empty()) { VF_CHECK(v[0] >= last, "sync:back", "value " << v[0] << " read after " << last); if(v[0] > last) seen++; last = v[0]; }
      }
      ctx().count("values_seen_changing", seen);
    });
    for(int w = 0; w < 2; w++) th.emplace_back([&, w] { Rng g(seed + w); for(int i = 0; i < 400; i++) { str.set(std::string(10 * (1 + g.below(20)), (char) ('a' + g.below(26)))); if(w == 0) vec.set(std::vector<int64_t>(1 + g.below(40), i)); if(g.chance(10)) usleep(g.below(50)); } });
    th[3].join(); th[4].join();
    go = false;
    for(int r = 0; r < 3; r++) th[r].join();
    str.set("end"); VF_CHECK(str.get() == "end", "sync:last", "the last value is lost");
    // conservation of counts while somebody keeps asking
    {
      StatAggregator agg;
      std::atomic<bool> run {true};
      Statistics sum;
      std::thread asker([&] { int64_t last = 0; while(run) { sum += agg.getOverallStatsSinceLastTime(); int64_t n = agg.getOverallStats().reads; VF_CHECK(n >= last, "stats:back", "the total goes from " << last << " to " << n); last = n; } });
      std::vector<std::thread> ws;
      Rng g0(seed);
      int n = 500 + g0.below(3000);
      for(int i = 0; i < 5; i++) ws.emplace_back([&, i] { for(int k = 0; k < n; k++) { Statistics *s = agg.getStats(); s->reads++; s->writes += 2; if(k % 3 == 0) s->txread++; if(k % 5 == 0) s->txreadwrite++; } });
      for(auto &w : ws) w.join();
      run = false; asker.join();
      sum += agg.getOverallStatsSinceLastTime();
      Statistics t = agg.getOverallStats();
      int64_t e[4] = {5ll * n, 10ll * n, 5ll * ((n + 2) / 3), 5ll * ((n + 4) / 5)};
      VF_CHECK(t.reads == e[0] && t.writes == e[1] && t.txread == e[2] && t.txreadwrite == e[3], "stats:total", "counted " << t.reads << " " << t.writes << " " << t.txread << " " << t.txreadwrite << " of " << e[0] << " " << e[1] << " " << e[2] << " " << e[3]);
      VF_CHECK(sum.reads == e[0] && sum.writes == e[1] && sum.txread == e[2] && sum.txreadwrite == e[3], "stats:since", "the differences add up to " << sum.reads << " " << sum.writes << " " << sum.txread << " " << sum.txreadwrite << " of " << e[0] << " " << e[1] << " " << e[2] << " " << e[3]);
      ctx().eval(SSTR("v" << n % 500));
      ctx().count("increments", 5ll * n);
    }
    // history keeps the latest
    {
      Rng g(seed + 9);
      size_t limit = g.range(1, 6), n = g.below(15);
      HistoricalStatistics h(limit);
      std::vector<std::pair<int64_t, int64_t>> m;
      for(size_t i = 0; i < n; i++) { Statistics s; s.reads = g.below(1000); s.writes = i; h.push(s, std::chrono::system_clock::from_time_t(1000 + i)); m.insert(m.begin(), {1000 + i, s.reads.load()}); if(m.size() > limit) m.pop_back(); }
      std::vector<std::string> hd; std::vector<std::vector<std::string>> dt;
      h.serialize(hd, dt);
      VF_CHECK(hd.size() == m.size() && dt.size() == m.size(), "stats:history", hd.size() << " points kept instead of " << m.size() << ", limit " << limit);
      for(size_t i = 0; i < m.size() && i < hd.size() && i < dt.size(); i++) {
        VF_CHECK(hd[i] == SSTR("TIMESTAMP " << m[i].first), "stats:history", "point " << i << " is " << hd[i] << " instead of " << m[i].first);
        VF_CHECK(dt[i] == std::vector<std::string>({SSTR("READS " << m[i].second), SSTR("WRITES " << m[i].first - 1000), "TXREAD 0", "TXREADWRITE 0"}), "stats:history", "point " << i << " has " << show(dt[i]));
      }
    }
    // scoped additions
    {
      std::atomic<int64_t> x {0}, peak {0};
      std::vector<std::thread> ws;
      for(int i = 0; i < 4; i++) ws.emplace_back([&, i] { for(int k = 0; k < 300; k++) { ScopedAdder<int64_t> a(x, i + 1); int64_t v = x; VF_CHECK(v >= i + 1 && v <= 10, "adder", "value " << v); peak = std::max<int64_t>(peak, v); } });
      for(auto &w : ws) w.join();
      VF_CHECK(x == 0, "adder", x << " left over");
    }
  }
  // requests are counted once, by their kind
  {
    RequestCounter rc(std::chrono::seconds(1));
    rc.setReportingStatus(true);
    std::atomic<int64_t> r {0}, w {0}, tr {0}, tw {0};
    std::vector<std::thread> ws;
    std::atomic<bool> run {true};
    auto end = Clock::now() + std::chrono::milliseconds(2600);
    for(int i = 0; i < 3; i++) ws.emplace_back([&, i] {
      Rng g(ctx().seed + i);
      while(Clock::now() < end) {
        beat++;
        switch(g.below(4)) {
          case 0: rc.account(req({"GET", "k"})); r++; break;
          case 1: rc.account(req({"SET", "k", "v"})); w++; break;
          case 2: rc.account(req({"PING"})); break;
          default: {
            Transaction tx; int n = g.range(1, 5); bool wr = g.chance(50); bool any = false;
            for(int k = 0; k < n; k++) { if(wr && (k == 0 || g.chance(50))) { tx.emplace_back("SET", "k", "v"); any = true; w++; } else { tx.emplace_back("GET", "k"); r++; } }
            rc.account(tx);
            if(any) tw++; else tr++;
          }
        }
        if(g.chance(30)) usleep(g.below(200));
      }
    });
    std::thread asker([&] { while(run) { std::vector<std::string> h; std::vector<std::vector<std::string>> d; rc.fillHistorical(h, d); VF_CHECK(!h.empty() && h.size() == d.size() && h[0] == "TOTALS", "requests:history", "odd shape"); rc.setReportingStatus(run); usleep(1000); } });
    for(auto &x : ws) x.join();
    run = false; asker.join();
    auto want = std::vector<std::string>({SSTR("READS " << r), SSTR("WRITES " << w), SSTR("TXREAD " << tr), SSTR("TXREADWRITE " << tw)});
    std::vector<std::string> h; std::vector<std::vector<std::string>> d;
    rc.fillHistorical(h, d);
    VF_CHECK(d.size() >= 1 && d[0] == want, "requests:total", show(d.at(0)) << " instead of " << show(want));
    // what the points of the history add up to, once all is reported
    auto add = [&] { rc.fillHistorical(h, d); std::vector<int64_t> s(4, 0); for(size_t i = 1; i < d.size(); i++) for(int k = 0; k < 4; k++) s[k] += atoll(d[i][k].substr(d[i][k].find(' ')).c_str()); return s; };
    std::vector<int64_t> all = {r, w, tr, tw};
    bool ok = eventually([&] { beat++; return add() == all; }, 20000);
    VF_CHECK(ok, "requests:points", "the points of the history add up to " << add()[0] << " reads of " << r << ", " << add()[1] << " writes of " << w);
    VF_CHECK(h.size() >= 3, "requests:points", "only " << h.size() - 1 << " points after more than two seconds");
    ctx().count("requests_counted", r + w);
    ctx().count("history_points", h.size() - 1);
  }
}

// ---------------------------------------------------------------- periodic sync
static std::atomic<uint64_t> synced {0};
extern "C" int fdatasync(int fd) { int r = syscall(SYS_fdatasync, fd); synced++; return r; }
extern "C" int fsync(int fd) { int r = syscall(SYS_fsync, fd); synced++; return r; }
static void fsyncs(int rounds) {
  std::string path = freshDir("fs") + "/db";
  rocksdb::Options o; o.create_if_missing = true;
  rocksdb::DB *raw = nullptr;
  if(!rocksdb::DB::Open(o, path, &raw).ok()) { fprintf(stderr, "VF-HARNESS-ERROR open\n"); _exit(2); }
  std::unique_ptr<rocksdb::DB> db(raw);
  for(int i = 0; i < rounds && !ctx().failed(); i++) {
    Rng g(ctx().seed * 100 + i);
    beat++;
    int period = g.pick(std::vector<int>{1, 3, 20, 3600 * 1000});
    ctx().current(SSTR("periodic sync every " << period << " ms"));
    auto t0 = Clock::now();
    {
      std::unique_ptr<FsyncThread> f(new FsyncThread(db.get(), std::chrono::milliseconds(period)));
      std::thread w([&] { for(int k = 0; k < 30; k++) db->Put(rocksdb::WriteOptions(), std::to_string(k), "some value"); });
      if(g.chance(70)) usleep(g.below(4000));
      w.join();
      if(period <= 20) for(int k = 0; k < 3; k++) {
        db->Put(rocksdb::WriteOptions(), "again", "value");
        uint64_t before = synced;
        VF_CHECK(eventually([&] { return synced > before; }, 20000), "fsync:none", "a write is not synced, period " << period << " ms");
        beat++;
        ctx().count("periodic_syncs");
      }
      else { uint64_t before = synced; usleep(2000); VF_CHECK(synced == before, "fsync:early", "synced long before the period of " << period << " ms is over"); }
      t0 = Clock::now();
    }
    VF_CHECK(secs(t0) < 30, "fsync:stop", "stopping takes " << secs(t0) << " s");
    ctx().eval(SSTR("f" << period));
    ctx().count("sync_threads_stopped");
  }
}

// ---------------------------------------------------------------- journal
static void journal(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    std::string path = freshDir("journal") + "/j";
    std::vector<RaftServer> nodes = {RaftServer("a", 1), RaftServer("b", 2), RaftServer("c", 3)};
    RaftJournal j(path, "cid", nodes, 0, FsyncPolicy::kAsync);
    std::atomic<bool> go {true}, writing {true};
    const int N = 250;
    std::vector<std::thread> th;
    std::mutex content;    // as the dispatcher does
    // writer: appends, truncations, members
    std::thread writer([&] {
      Rng g(seed);
      while(j.getLogSize() < N && !ctx().failed()) {
        std::scoped_lock l(content);
        beat++;
        RaftTerm t = j.getCurrentTerm();
        LogIndex n = j.getLogSize();
        int op = g.below(20);
        RaftTerm last = 0; j.fetch(n - 1, last);
        std::string err;
        if(op == 0 && n - 1 > j.getCommitIndex()) {
          // truncation of what is not committed: nobody commits meanwhile
          j.removeEntries(g.range(j.getCommitIndex() + 1, n - 1));
        }
        else if(op == 1) { RaftServer s("d", 4); if(g.chance(50)) j.addObserver(std::max(t, last), s, err); else j.removeMember(std::max(t, last), s, err); }
        else if(op == 2) j.appendLeadershipMarker(n, std::max(t, last), nodes[0]);
        else if(op == 3) j.setFsyncPolicy(g.chance(50) ? FsyncPolicy::kAsync : FsyncPolicy::kSyncImportantUpdates);
        else j.append(n, RaftEntry(std::max(t, last), req({"SET", "k" + std::to_string(n), g.bytes(20)})), g.chance(5));
      }
      writing = false;
    });
    th.emplace_back([&] { // committer
      Rng g(seed + 1);
      while(writing) { { std::scoped_lock l(content); LogIndex c = j.getCommitIndex(), s = j.getLogSize() - 1; if(c < s) j.setCommitIndex(g.range(c, s)); } beat++; usleep(g.below(600)); }
      j.setCommitIndex(j.getLogSize() - 1);
    });
    th.emplace_back([&] { // terms
      Rng g(seed + 2);
      RaftTerm last = 0;
      while(go) { j.setCurrentTerm(j.getCurrentTerm() + 1, g.chance(50) ? nodes[g.below(3)] : RaftServer()); RaftTerm t = j.getCurrentTerm(); VF_CHECK(t > last, "journal:term", "term " << t << " after " << last); last = t; usleep(g.below(3000)); }
    });
    th.emplace_back([&] { // trimmer
      Rng g(seed + 3);
      while(go) { LogIndex c = j.getCommitIndex(); if(c > 60) j.trimUntil(c - 60); usleep(g.below(2000)); }
    });
    for(int r = 0; r < 3; r++) th.emplace_back([&, r] { // readers
      Rng g(seed + 10 + r);
      LogIndex lastC = 0, lastS = 0;
      while(go) {
        LogIndex c = j.getCommitIndex();
        VF_CHECK(c >= lastC, "journal:commit", "the commit index goes from " << lastC << " to " << c);
        lastC = c;
        LogIndex s = j.getLogStart();
        VF_CHECK(s >= lastS, "journal:start", "the start goes from " << lastS << " to " << s);
        lastS = s;
        RaftMembership m = j.getMembership();
        VF_CHECK(m.nodes.size() == 3 && m.observers.size() <= 1, "journal:members", "odd membership of " << m.nodes.size() << " and " << m.observers.size());
        j.getNodes(); j.getVotedFor(); j.getClusterID(); j.getEpoch(); j.getFsyncPolicy(); j.getLogSize();
        RaftEntry e;
        if(j.fetch(c, e).ok()) { if(e.request.size() == 3 && e.request[0] == "SET") VF_CHECK(std::string(e.request[1]) == "k" + std::to_string(c), "journal:entry", "entry " << c << " holds " << e.request[1]); }
        if(g.chance(20)) { int n = 0; for(auto it = j.getIterator(c > 20 ? c - 20 : 0, false); it.valid() && n < 30; it.next(), n++) { RaftSerializedEntry x; it.current(x); } }
        if(g.chance(5)) { std::vector<RaftEntryWithIndex> out; LogIndex nc; j.scanContents(0, 10, "", out, nc); }
      }
    });
    std::atomic<int> woken {0};
    for(int r = 0; r < 2; r++) th.emplace_back([&, r] { // waits for commits, for new entries
      Rng g(seed + 20 + r);
      LogIndex have = 0;
      while(go && have < N - 1) {
        if(r == 0) { j.waitForCommits(have); LogIndex c = j.getCommitIndex(); if(c > have) woken++; have = c; }
        else { LogIndex s = j.getLogSize(); j.waitForUpdates(s, std::chrono::milliseconds(g.pick(std::vector<int>{1, 50, 200}))); have = j.getCommitIndex(); if(j.getLogSize() > s) woken++; }
        beat++;
      }
    });
    writer.join();
    th[0].join();
    // the one who waits for commits ends by itself now
    ctx().current(SSTR("journal: waiters, seed " << seed));
    eventually([&] { return woken > 0; }, 20000);
    th[th.size() - 2].join(); th[th.size() - 1].join();
    go = false;
    for(size_t i = 1; i + 2 < th.size(); i++) th[i].join();
    VF_CHECK(j.getCommitIndex() == j.getLogSize() - 1, "journal:end", "commit index " << j.getCommitIndex());
    // a waiter is released by a notification, too
    { std::atomic<bool> done {false}; LogIndex c = j.getCommitIndex(); std::thread w([&] { j.waitForCommits(c); done = true; }); eventually([&] { j.notifyWaitingThreads(); return done.load(); }, 20000); VF_CHECK(done, "journal:notify", "a waiter is not released"); if(!done) _exit(ctx().finish()); w.join(); }
    { auto t0 = Clock::now(); std::thread w([&] { j.waitForUpdates(j.getLogSize(), std::chrono::seconds(3600)); }); usleep(20000); RaftTerm last = 0; j.fetch(j.getLogSize() - 1, last); j.setCurrentTerm(j.getCurrentTerm() + 1, {}); VF_CHECK(j.append(j.getLogSize(), RaftEntry(std::max(j.getCurrentTerm(), last), req({"SET", "a", "b"}))), "journal:append", "an entry is refused"); ctx().current("journal: waiting for updates"); w.join(); VF_CHECK(secs(t0) < 30, "journal:update", "waiting for an update takes " << secs(t0) << " s"); }
    { auto t0 = Clock::now(); j.waitForUpdates(j.getLogSize() - 1, std::chrono::seconds(3600)); VF_CHECK(secs(t0) < 30, "journal:already", "waits although there is an update"); }
    ctx().eval(SSTR("j" << seed % 50));
    ctx().count("woken", woken);
    ctx().count("entries_in_parallel", N);
  }
}

// ---------------------------------------------------------------- raft's shared parts
static void raft(int rounds) {
  std::vector<RaftServer> nodes = {RaftServer("a", 1), RaftServer("b", 2), RaftServer("c", 3), RaftServer("d", 4), RaftServer("e", 5)};
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    beat++;
    std::string path = freshDir("raft") + "/j";
    RaftJournal j(path, "cid", nodes, 0, FsyncPolicy::kAsync);
    {
      RaftState st(j, nodes[0]);
      std::atomic<int> woken {0}, changes {0};
      std::atomic<bool> stop {false};
      std::vector<std::thread> th;
      for(int i = 0; i < 3; i++) th.emplace_back([&, i] {
        RaftTerm last = 0;
        while(st.getSnapshot()->status != RaftStatus::SHUTDOWN) {
          RaftStateSnapshotPtr s = st.getSnapshot();
          VF_CHECK(s->term >= last, "state:term", "term " << s->term << " after " << last);
          last = s->term;
          if(s->status == RaftStatus::LEADER) VF_CHECK(s->leader == nodes[0] && s->leadershipMarker > 0, "state:leader", "a leader with leader " << s->leader.toString() << " marker " << s->leadershipMarker);
          if(i == 0) st.wait(std::chrono::milliseconds(3600 * 1000));
          else if(i == 1) st.wait_until(Clock::now() + std::chrono::hours(1));
          else usleep(50);
          woken++;
        }
      });
      for(int i = 0; i < 2; i++) th.emplace_back([&, i] {
        Rng g(seed + i);
        for(int k = 0; k < 80; k++) {
          RaftTerm t = st.getSnapshot()->term;
          bool c = false;
          switch(g.below(5)) {
            case 0: c = st.observed(t + g.below(2), g.chance(50) ? nodes[1 + g.below(4)] : RaftServer()); break;
            case 1: c = st.grantVote(t + g.below(2), nodes[1 + g.below(4)]); break;
            case 2: c = st.becomeCandidate(t); break;
            case 3: c = st.ascend(t); break;
            default: c = st.dropOut(t);
          }
          changes += c;
          beat++;
        }
      });
      th[3].join(); th[4].join();
      ctx().current("state: shutting down");
      st.shutdown();
      for(int i = 0; i < 3; i++) th[i].join();     // everybody who waits wakes up
      { auto t0 = Clock::now(); st.wait(std::chrono::hours(1)); st.wait_until(Clock::now() + std::chrono::hours(1)); VF_CHECK(secs(t0) < 30, "state:wait", "waits in shutdown"); }
      VF_CHECK(!st.observed(st.getSnapshot()->term + 1, {}), "state:shutdown", "changes after shutdown");
      ctx().eval(SSTR("s" << changes / 10));
      ctx().count("state_changes", changes);
      ctx().count("state_wakeups", woken);
    }
    {
      // leases
      RaftLease lease({nodes.begin() + 1, nodes.end()}, std::chrono::seconds(10));
      std::vector<std::thread> th;
      std::atomic<bool> go {true};
      Clock::time_point base = Clock::now();
      for(int i = 1; i < 5; i++) th.emplace_back([&, i] { Rng g(seed + i); for(int k = 1; k <= 200; k++) { lease.getHandler(nodes[i]).heartbeat(base + std::chrono::milliseconds(k)); if(g.chance(20)) lease.getHandler(nodes[i]).heartbeat(base); } });
      std::thread asker([&] { Clock::time_point last {}; while(go) { auto d = lease.getDeadline(); VF_CHECK(d >= last, "lease:back", "the deadline goes back"); last = d; lease.getShakyQuorumDeadline(); } });
      std::thread changer([&] { while(go) { lease.updateTargets({nodes.begin() + 1, nodes.end()}); usleep(100); } });
      for(auto &t : th) t.join();
      go = false; asker.join(); changer.join();
      VF_CHECK(lease.getDeadline() == base + std::chrono::milliseconds(200) + std::chrono::seconds(10), "lease:end", "the deadline is off");
      for(int i = 1; i < 5; i++) VF_CHECK(lease.getHandler(nodes[i]).get() == base + std::chrono::milliseconds(200), "lease:contact", "a contact is lost");
      ctx().count("lease_rounds");
    }
    {
      // heartbeats and timeouts
      RaftTimeouts to(std::chrono::milliseconds(100), std::chrono::milliseconds(200), std::chrono::milliseconds(5));
      RaftHeartbeatTracker h(to);
      std::vector<std::thread> th;
      Clock::time_point base = Clock::now();
      std::atomic<int> artificial {0}, triggered {0};
      for(int i = 0; i < 3; i++) th.emplace_back([&, i] { Rng g(seed + i); for(int k = 1; k <= 200; k++) {
        h.heartbeat(base + std::chrono::milliseconds(k));
        auto r = h.getRandomTimeout(); VF_CHECK(r >= to.getLow() && r <= to.getHigh(), "heartbeat:random", "timeout of " << r.count());
        if(i == 0) { r = h.refreshRandomTimeout(); VF_CHECK(r >= to.getLow() && r <= to.getHigh(), "heartbeat:random", "timeout of " << r.count()); }
        TimeoutStatus s = h.timeout(base + std::chrono::milliseconds(k));
        if(s == TimeoutStatus::kArtificial) artificial++; else VF_CHECK(s == TimeoutStatus::kNo, "heartbeat:timeout", "times out right after a heartbeat");
        VF_CHECK(h.getLastHeartbeat() >= base + std::chrono::milliseconds(k), "heartbeat:back", "the last heartbeat goes back");
        auto v = to.getRandom(); VF_CHECK(v >= to.getLow() && v <= to.getHigh(), "heartbeat:random", "timeout of " << v.count());
      } });
      for(auto &t : th) t.join();
      h.triggerTimeout();
      VF_CHECK(h.timeout(base) == TimeoutStatus::kArtificial && h.timeout(base) == TimeoutStatus::kNo, "heartbeat:artificial", "a triggered timeout does not occur exactly once");
      VF_CHECK(h.timeout(base + std::chrono::milliseconds(200 + 201)) == TimeoutStatus::kYes && h.timeout(base + std::chrono::milliseconds(200 + 99)) == TimeoutStatus::kNo, "heartbeat:expiry", "does not time out when it should");
    }
    {
      // commits
      while(j.getLogSize() < 120) { RaftTerm t = 0; j.fetch(j.getLogSize() - 1, t); j.append(j.getLogSize(), RaftEntry(std::max(t, j.getCurrentTerm()), req({"SET", "a", "b"}))); }
      RaftCommitTracker ct(j);
      LogIndex start = j.getCommitIndex();
      ct.updateTargets({nodes.begin() + 1, nodes.end()});
      std::vector<std::thread> th;
      std::atomic<bool> go {true};
      for(int i = 1; i < 5; i++) th.emplace_back([&, i] { RaftMatchIndexTracker &m = ct.getHandler(nodes[i]); for(LogIndex k = start; k <= 100 + i; k++) { m.update(k); if(k % 10 == i) usleep(100); } });
      std::thread watcher([&] { LogIndex last = 0; while(go) { LogIndex c = j.getCommitIndex(); VF_CHECK(c >= last && c < j.getLogSize(), "commit:back", "the commit index goes from " << last << " to " << c); last = c; } });
      std::thread changer([&] { while(go) { ct.updateTargets({nodes.begin() + 1, nodes.end()}); usleep(100); } });
      for(auto &t : th) t.join();
      go = false; watcher.join(); changer.join();
      // two of four others hold entry 103
      VF_CHECK(eventually([&] { return j.getCommitIndex() == 103; }, 20000), "commit:end", "the commit index is " << j.getCommitIndex() << ", a quorum holds 103");
    }
    {
      Timekeeper tk(1000);
      std::atomic<uint64_t> synced {1000};
      std::atomic<bool> go {true};
      std::vector<std::thread> th;
      for(int i = 0; i < 3; i++) th.emplace_back([&] { while(go) { uint64_t s = synced; uint64_t d = tk.getDynamicTime(); VF_CHECK(d >= s, "clock:back", "the clock shows " << d << " after " << s << " was set"); VF_CHECK(d < 1000 + 200 * 50 + 600000, "clock:far", "the clock shows " << d); } });
      for(int k = 1; k <= 200; k++) { uint64_t t = 1000 + k * 50; tk.synchronize(t); synced = t; if(k % 20 == 0) usleep(200); }
      go = false;
      for(auto &t : th) t.join();
    }
    {
      ResilveringHistory h;
      std::vector<std::thread> th;
      for(int i = 0; i < 4; i++) th.emplace_back([&, i] { for(int k = 0; k < 50; k++) { h.append(ResilveringEvent(SSTR(i << "-" << k), 1000 + k)); size_t n = h.size(); VF_CHECK(n >= (size_t) k + 1, "history:size", n << " events"); if(k % 7 == 0) { ResilveringHistory o; VF_CHECK(ResilveringHistory::deserialize(h.serialize(), o), "history:parse", "does not parse"); ResilveringHistory p; VF_CHECK(ResilveringHistory::deserialize(o.serialize(), p) && o == p, "history:self", "differs from its copy"); } } });
      for(auto &t : th) t.join();
      VF_CHECK(h.size() == 200, "history:total", h.size() << " of 200 events");
    }
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Watchdog dog;
  std::string mode = ctx().arg("mode", "assisted");
  if(mode == "assisted") assisted(ctx().n(5000, 60000));
  else if(mode == "inflight") inflight(ctx().n(150, 1500));
  else if(mode == "values") values(ctx().n(12, 200));
  else if(mode == "fsync") fsyncs(ctx().n(120, 1500));
  else if(mode == "journal") journal(ctx().n(6, 80));
  else if(mode == "raft") raft(ctx().n(40, 400));
  else { fprintf(stderr, "mode?\n"); return 2; }
  return ctx().finish();
}
