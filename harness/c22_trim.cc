// C22: the trimmer. Its limits and blocks on a real journal and state machine, while both grow and readers
// walk entries they protect (mode limits; waits of the background threads are cut short), the configuration
// (mode config), and a leader trimming while a slow target is being fed (mode target).
#include "raft.hh"
#include <dlfcn.h>
#include <pthread.h>
using namespace vf;
using namespace quarkdb;

#ifndef __SANITIZE_THREAD__
// The trimmer looks once a second: let long waits end early
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *abs) {
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  static F real = (F) dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  struct timespec now;
  clock_gettime(clk, &now);
  int64_t left = (abs->tv_sec - now.tv_sec) * 1000000000ll + abs->tv_nsec - now.tv_nsec;
  if(left < 500000000ll) return real(c, m, clk, abs);
  now.tv_nsec += 1500000;
  if(now.tv_nsec >= 1000000000) { now.tv_nsec -= 1000000000; now.tv_sec++; }
  return real(c, m, clk, &now);
}
#endif

static void limits(uint64_t seed, int steps) {
  Rng g(seed);
  std::string dir = freshDir("t");
  RaftJournal::ObliterateAndReinitializeJournal(dir + "/j", "cid", {RaftServer("a", 1)}, 0, FsyncPolicy::kAsync);
  RaftJournal j(dir + "/j");
  StateMachine sm(dir + "/sm");
  RaftConfig conf(sm);
  j.setCurrentTerm(1, RaftServer("a", 1));
  std::atomic<LogIndex> applied {0};
  std::mutex mtx;                      // growth of log, commit index and applied index
  auto value = [](LogIndex i) { return std::to_string(i * 31) + std::string(i % 50, 'v'); };
  std::atomic<LogIndex> keepNow {1000000}, keepBefore {1000000};
  std::string trace = SSTR("seed " << seed);
  auto apply = [&](LogIndex to) { while(applied < to) { sm.noop(applied + 1); applied++; } };
  auto setConf = [&](int64_t keep, int64_t step) {
    auto r = conf.setTrimmingConfig({keep, step}, true);
    // through the log, like any other write
    keepBefore = keepNow.load();
    keepNow = keep;
    std::scoped_lock l(mtx);
    LogIndex i = j.getLogSize();
    j.append(i, RaftEntry(1, RedisRequest(r.request)));
    j.setCommitIndex(i);
    apply(i - 1);
    sm.configSet(r.request[1], r.request[2], i);
    applied = i;
    TrimmingConfig c = conf.getTrimmingConfig();
    if(c.keepAtLeast != keep || c.step != step) VF_FAIL("limits:config", "limits " << keep << ":" << step << " read back as " << c.toString());
  };
  setConf(1000000, 1000000);
  RaftTrimmer trimmer(j, conf, sm);
  std::atomic<bool> stop {false}, stopReaders {false};
  uint64_t trims = 0;
  std::thread mon([&] {
    LogIndex last = 0;
    while(!stop) {
      // whatever is read later can only be larger
      LogIndex keep = std::min(keepNow.load(), keepBefore.load());
      LogIndex s = j.getLogStart();
      LogIndex keep2 = std::min(keepNow.load(), keepBefore.load());
      LogIndex c = j.getCommitIndex(), a = sm.getLastApplied(), n = j.getLogSize();
      if(s < last) VF_FAIL("limits:back", "the log starts at " << s << ", before it was " << last << "; seed " << seed);
      if(s > c) VF_FAIL("limits:uncommitted", "trimmed to " << s << " with commit index " << c << ", seed " << seed);
      if(s > a) VF_FAIL("limits:unapplied", "trimmed to " << s << " with " << a << " applied, seed " << seed);
      if(s > last && n - s < std::min(keep, keep2)) VF_FAIL("limits:keep", n - s << " entries are left instead of " << std::min(keep, keep2) << ", seed " << seed);
      if(s > last) trims++;
      last = s;
    }
  });
  // readers which protect what they read
  std::vector<std::thread> readers;
  for(int r = 0; r < 2; r++) readers.emplace_back([&, r] {
    Rng g(seed * 31 + r);
    RaftTrimmingBlock block(trimmer);
    uint64_t walks = 0;
    while(!stopReaders) {
      LogIndex n = j.getLogSize(), s = j.getLogStart();
      if(n <= s) continue;
      LogIndex at = s + g.below(std::min<LogIndex>(n - s, g.chance(50) ? 4 : 100));
      block.enforce(g.chance(10) ? 0 : at);
      if(block.getPreservationIndex() > at) VF_FAIL("limits:block", "the block protects from " << block.getPreservationIndex() << " only");
      if(j.getLogStart() <= at) {
        if(trimmer.canTrimUntil(at)) VF_FAIL("limits:block", "trimming until " << at << " would be allowed although it is blocked");
        LogIndex end = std::min<LogIndex>(j.getLogSize(), at + 1 + g.below(30));
        if(g.chance(50)) {
          auto it = j.getIterator(at, true);
          for(LogIndex i = at; i < end; i++, it.next()) {
            if(!it.valid()) { VF_FAIL("limits:lost", "entry " << i << " disappeared while protected from " << at << " on; log starts at " << j.getLogStart() << ", seed " << seed); break; }
            RaftSerializedEntry e;
            it.current(e);
          }
        }
        else for(LogIndex i = at; i < end; i++) {
          RaftEntry e;
          if(!j.fetch(i, e).ok()) { VF_FAIL("limits:lost", "entry " << i << " disappeared while protected from " << at << " on; log starts at " << j.getLogStart() << ", seed " << seed); break; }
          if(e.request[0] == "SET" && e.request[2] != value(i)) VF_FAIL("limits:content", "entry " << i << " changed");
          if(g.chance(3)) std::this_thread::yield();
        }
        // move on, as a replicator does: what lies behind is given up
        if(g.chance(50) && end < j.getLogSize()) {
          block.enforce(end - 1);
          for(int k = 0; k < 5; k++) { if(j.getLogStart() > end - 1) VF_FAIL("limits:lost", "trimmed to " << j.getLogStart() << " while protected from " << end - 1 << " on, seed " << seed); std::this_thread::yield(); }
        }
        walks++;
      }
      if(g.chance(90)) block.lift();
      if(g.chance(20)) { block.lift(); std::this_thread::sleep_for(std::chrono::microseconds(g.below(3000))); }
    }
    ctx().count("protected_walks", walks);
  });
  std::unique_ptr<RaftTrimmingBlock> held;
  LogIndex heldAt = 0;
  for(int i = 0; i < steps && !ctx().failed(); i++) {
    int k = g.below(100);
    if(k < 40) {
      std::scoped_lock l(mtx);
      for(int n = 1 + g.below(60); n > 0; n--) { LogIndex at = j.getLogSize(); j.append(at, RaftEntry(1, RedisRequest{"SET", "k", value(at)})); }
    }
    else if(k < 60) { std::scoped_lock l(mtx); LogIndex c = j.getCommitIndex(); j.setCommitIndex(c + g.below(j.getLogSize() - c)); }
    else if(k < 78) { std::scoped_lock l(mtx); LogIndex c = j.getCommitIndex(); apply(applied + g.below(c - applied + 1)); }
    else if(k < 86) { int64_t keep = g.chance(20) ? 0 : g.below(150), step = 1 + g.below(g.chance(50) ? 3 : 40); setConf(keep, step); trace += SSTR("\nlimits " << keep << ":" << step); }
    else if(k < 92) {
      if(held) { held.reset(); trace += "\nunblock"; }
      else {
        heldAt = g.chance(40) ? 0 : j.getLogStart() + g.below(j.getLogSize() - j.getLogStart());
        held.reset(new RaftTrimmingBlock(trimmer, heldAt));
        heldAt = std::max(heldAt, j.getLogStart());
        trace += SSTR("\nblock at " << heldAt);
        ctx().count("blocks");
      }
    }
    else std::this_thread::sleep_for(std::chrono::microseconds(g.below(8000)));
    if(held && j.getLogStart() > heldAt) VF_FAIL("limits:blocked", "trimmed to " << j.getLogStart() << " while blocked at " << heldAt << "; " << trace);
    ctx().current(trace.substr(trace.size() > 3000 ? trace.size() - 3000 : 0));
    LogIndex s = j.getLogStart();
    ctx().eval(SSTR(k / 20 << (held != nullptr) << std::min<LogIndex>(9, (j.getLogSize() - s) / 20) << (j.getCommitIndex() - applied > 5)));
  }
  // with nothing in the way, it trims
  held.reset();
  stopReaders = true;
  for(auto &r : readers) r.join();
  setConf(5, 3);
  { std::scoped_lock l(mtx); for(int n = 0; n < 60; n++) { LogIndex at = j.getLogSize(); j.append(at, RaftEntry(1, RedisRequest{"SET", "k", value(at)})); } j.setCommitIndex(j.getLogSize() - 1); apply(j.getLogSize() - 1); }
  bool ok = eventually([&] { return j.getLogSize() - j.getLogStart() <= 8; }, 60000);
  if(!ok && !ctx().failed()) VF_FAIL("limits:idle", "nothing is trimmed although " << j.getLogSize() - j.getLogStart() << " entries are there, all committed and applied, and 5 are to be kept");
  stop = true;
  mon.join();
  // what is left is exactly a suffix
  for(LogIndex i = 0; i < j.getLogSize() + 2; i++) {
    RaftEntry e;
    bool there = j.fetch(i, e).ok(), want = i >= j.getLogStart() && i < j.getLogSize();
    if(there != want) VF_FAIL("limits:suffix", "entry " << i << (there ? " is still there" : " is missing") << ", the log is " << j.getLogStart() << " to " << j.getLogSize());
    if(there && e.request[0] == "SET" && e.request[2] != value(i)) VF_FAIL("limits:content", "entry " << i << " changed");
  }
  ctx().count("trims_seen", trims);
}

static void config(uint64_t seed) {
  Rng g(seed);
  std::string dir = freshDir("c") + "/sm";
  std::unique_ptr<StateMachine> sm(new StateMachine(dir));
  LogIndex at = 0;
  std::unique_ptr<RaftConfig> c(new RaftConfig(*sm));
  TrimmingConfig def = c->getTrimmingConfig(), cur = def;
  if(!c->getResilveringEnabled()) VF_FAIL("config:resilvering", "resilvering is off by default");
  if(def.keepAtLeast <= 100000 || def.step <= 0) VF_FAIL("config:default", "default limits are " << def.toString());
  bool res = true;
  for(int i = 0; i < 120 && !ctx().failed(); i++) {
    int k = g.below(10);
    if(k < 5) {
      auto pick = [&](int64_t b) { switch(g.below(5)) { case 0: return b; case 1: return b + 1; case 2: return (int64_t) g.below(b); case 3: return b + (int64_t) g.below(1000000000); default: return b - 1; } };
      TrimmingConfig t {pick(100000), std::max<int64_t>(1, pick(10000))};
      bool force = g.chance(40), want = force || (t.keepAtLeast > 100000 && t.step > 10000);
      EncodedConfigChange e = c->setTrimmingConfig(t, force);
      if(e.error.empty() != want) VF_FAIL("config:validation", t.toString() << (want ? " was refused: " + e.error : " was accepted") << " with override " << force);
      if(e.error.empty()) { sm->configSet(e.request[1], e.request[2], ++at); cur = t; }
      else if(e.request.size() != 0) VF_FAIL("config:validation", "a refused change carries a request");
      if(e.error.empty() && (e.request.size() != 3 || e.request[0] != "CONFIG_SET")) VF_FAIL("config:request", "the change is not a configuration update");
    }
    else if(k < 7) {
      // not limits at all
      std::string bad = g.pick<std::string>({"", ":", "1", "1:", ":1", "1:2:3", "a:b", "-1:5", "5:0", "5:-1", "10:x", "99999999999999999999:1", "1:2 ", "1;2"});
      sm->configSet("raft.trimming", bad, ++at);
      cur = def;
      ctx().count("unusable");
    }
    else if(k < 9) { res = g.chance(50); EncodedConfigChange e = c->setResilveringEnabled(res); sm->configSet(e.request[1], e.request[2], ++at); }
    else { c.reset(); sm.reset(); sm.reset(new StateMachine(dir)); c.reset(new RaftConfig(*sm)); ctx().count("reopened"); }
    TrimmingConfig got = c->getTrimmingConfig();
    if(got.keepAtLeast != cur.keepAtLeast || got.step != cur.step) { std::string raw; sm->configGet("raft.trimming", raw); VF_FAIL("config:value", "limits are " << got.toString() << " instead of " << cur.toString() << ", stored '" << esc(raw) << "'"); }
    if(c->getResilveringEnabled() != res) VF_FAIL("config:resilvering", "the resilvering flag is not what was set");
    ctx().eval(SSTR(k << cur.toString()));
  }
  // a flag nobody can make sense of must not take the node down
  for(const char *bad : {"", "maybe", "true"}) {
    sm->configSet("raft.resilvering.enabled", bad, ++at);
    if(throws([&] { c->getResilveringEnabled(); })) VF_FAIL("config:resilvering-garbage", "resilvering flag '" << bad << "' throws");
  }
}

// a leader with a quorum of fast peers and a slow one; the journal is trimmed as much as allowed
static void target(uint64_t seed) {
  Rng g(seed);
  RaftServer me("me", 1);
  FakePeer fast, slow;
  RaftNode n(freshDir("l") + "/n", {me, fast.srv(), slow.srv()}, me, RaftTimeouts(std::chrono::milliseconds(3000), std::chrono::milliseconds(4000), std::chrono::milliseconds(40)));
  RaftJournal &j = n.j();
  n.st().observed(2, {});
  int old = g.below(400);
  for(int i = 0; i < old; i++) j.append(j.getLogSize(), RaftEntry(1, RedisRequest{"SET", "k", std::to_string(i)}));
  auto mine = n.serialized();
  fast.log = mine;
  slow.log.assign(mine.begin(), mine.begin() + 1 + g.below(mine.size()));
  std::string what = SSTR("seed " << seed << ", " << old << " entries, slow peer has " << slow.log.size());
  ctx().current(what);
  int maxDelay = 1 + g.below(60);
  std::atomic<bool> crawl {true};
  auto due = std::chrono::steady_clock::now();
  bool waiting = false;
  Rng sg(seed + 7);
  slow.brain = [&](const FakePeer::Args &a, std::string &r) {
    if(a[0] != "RAFT_APPEND_ENTRIES" || !crawl) return false;
    auto now = std::chrono::steady_clock::now();
    if(!waiting) { waiting = true; due = now + std::chrono::milliseconds(sg.below(maxDelay)); }
    if(now < due) { r = ""; return true; }
    waiting = false;
    return false;
  };
  if(!n.ascend()) { VF_FAIL("target:ascend", "could not become leader"); return; }
  RaftTerm term = n.st().getSnapshot()->term;
  n.d();
  n.activate();
  auto seen = [&] { auto rs = n.g->replicator()->getStatus(); return rs.contains(slow.srv()) && rs.getReplicaStatus(slow.srv()).online && rs.getReplicaStatus(slow.srv()).logSize > 0; };
  if(!eventually(seen)) { VF_FAIL("target:offline", "the slow peer is never seen, " << what); return; }
  std::atomic<bool> stop {false};
  std::thread mon([&] {
    LogIndex last = 0;
    uint64_t steps = 0, tight = 0;
    while(!stop) {
      LogIndex have = slow.logSize();
      LogIndex s = j.getLogStart();
      // its last entry is what the next append is matched against
      if(s > have - 1) VF_FAIL("target:lost", "the log starts at " << s << ", but a target in progress has only " << have << " entries, " << what);
      if(s > last) { steps++; if(have - s < 8) tight++; }
      last = s;
      std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    ctx().count("target_trims", steps);
    ctx().count("target_trims_close", tight);
  });
  // greedy limits
  auto r = n.g->config()->setTrimmingConfig({(int64_t) g.below(3), 1 + (int64_t) g.below(3)}, true);
  j.append(j.getLogSize(), RaftEntry(term, RedisRequest(r.request)));
  n.g->trimmer();
  for(int i = 0; i < 500 && !ctx().failed(); i++) {
    for(int k = g.below(5); k > 0; k--) j.append(j.getLogSize(), RaftEntry(term, RedisRequest{"SET", "k", std::to_string(i)}));
    std::this_thread::sleep_for(std::chrono::milliseconds(g.below(5)));
    if(i == 250 && g.chance(50)) {
      // falls out of streaming, but stays with us
      crawl = false;
    }
  }
  crawl = false;
  std::string why;
  if(!eventually([&] { return slow.logSize() == j.getLogSize(); }, 20000)) VF_FAIL("target:stuck", "the slow peer has " << slow.logSize() << " of " << j.getLogSize() << " entries, the log starts at " << j.getLogStart() << ", " << what);
  if(!eventually([&] { return j.getLogSize() - j.getLogStart() < 30; }, 20000)) VF_FAIL("target:idle", "nothing is trimmed although all have everything: " << j.getLogStart() << " of " << j.getLogSize() << ", " << what);
  stop = true;
  mon.join();
  n.g->replicator()->deactivate();
  ctx().eval(SSTR("target" << seed << (j.getLogStart() > 100)));
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "limits");
  uint64_t s = ctx().seed;
  if(mode == "limits") for(int i = 0; i < ctx().n(4, 20) && !ctx().failed(); i++) limits(s * 1009 + i, 600);
  if(mode == "config") for(int i = 0; i < ctx().n(4, 20) && !ctx().failed(); i++) config(s * 1013 + i);
  if(mode == "target") for(int i = 0; i < ctx().n(4, 10) && !ctx().failed(); i++) target(s * 1019 + i);
  return ctx().finish();
}
