// Raft journal against a list model: random operation sequences with reopening
// (mode model), every crash point of a scripted child (mode crash), concurrent readers
// (mode threads).
#include "journal_model.hh"
#include "crashfs.hh"
#include <sys/wait.h>
#include <signal.h>

using namespace jm;
using vf::ctx;
using vf::Rng;

struct Op {
  int kind; int64_t a = 0, b = 0; Entry e; Srv srv; std::vector<Entry> es; FsyncPolicy pol;
  bool important = false;
  std::string desc;
};

static std::vector<Srv> pool = {{"n1", 1}, {"n2", 2}, {"n3", 3}, {"long-host.name.example", 65535}, {"n4", 4}};

static Entry genEntry(Rng &g, const Model &m, int64_t term) {
  Entry e; e.term = term;
  int k = g.below(20);
  if(k == 0) {
    Mem mm;
    std::vector<Srv> p = pool;
    for(auto &x : p) { int w = g.below(3); if(w == 0) mm.nodes.push_back(x); if(w == 1) mm.observers.push_back(x); }
    if(mm.nodes.empty()) mm.nodes.push_back(pool[0]);
    mm.observers.erase(std::remove(mm.observers.begin(), mm.observers.end(), mm.nodes[0]), mm.observers.end());
    e.req = {"JOURNAL_UPDATE_MEMBERS", str(mm), g.chance(75) ? m.cluster : std::string("other-cluster")};
  }
  else if(k == 1) { e.req = {"JOURNAL_LEADERSHIP_MARKER", std::to_string(term), str(pool[0])}; }
  else {
    size_t n = 1 + g.below(4);
    for(size_t i = 0; i < n; i++) e.req.push_back(g.bytes(g.chance(5) ? 3000 : 12));
  }
  return e;
}

static Op gen(Rng &g, const Model &m) {
  Op o; std::ostringstream d;
  int k = g.below(100);
  int64_t lastTerm = m.log.at(m.size-1).term;
  if(k < 40) {
    o.kind = 0;
    o.a = g.chance(92) ? m.size : m.size + g.range(-2, 2);
    int64_t t = g.chance(90) ? g.range(lastTerm, std::max(lastTerm, m.term)) : m.term + g.range(-2, 2);
    if(t < 0) t = 0;
    o.e = genEntry(g, m, t);
    o.important = g.chance(20);
    d << "append(" << o.a << ", " << show(o.e) << ")";
  } else if(k < 50) {
    o.kind = 1; o.a = m.term + g.range(-1, 2); if(o.a < 0) o.a = 0;
    o.srv = g.chance(40) ? Srv{"", 0} : g.pick(pool);
    d << "setCurrentTerm(" << o.a << ", " << o.srv.first << ")";
  } else if(k < 63) {
    o.kind = 2; o.a = g.chance(85) ? g.range(m.commit, m.size - 1) : m.commit + g.range(-2, 2) + (g.chance(30) ? m.size - m.commit : 0);
    d << "setCommitIndex(" << o.a << ")";
  } else if(k < 75) {
    o.kind = 3; o.a = g.chance(80) ? g.range(m.commit + 1, m.size) : m.commit + g.range(-1, 1);
    d << "removeEntries(" << o.a << ")";
  } else if(k < 81) {
    o.kind = 4; o.a = g.chance(80) ? g.range(m.start, m.commit) : m.commit + g.range(-1, 3) + (g.chance(30) ? m.size - m.commit : 0);
    d << "trimUntil(" << o.a << ")";
  } else if(k < 91) {
    o.kind = 5; o.a = g.below(4); o.b = g.chance(85) ? std::max(lastTerm, m.term) : m.term + g.range(-1, 1);
    o.srv = g.pick(pool);
    static const char *nm[] = {"addObserver", "promoteObserver", "demoteToObserver", "removeMember"};
    d << nm[o.a] << "(term " << o.b << ", " << str(o.srv) << ")";
  } else if(k < 93) {
    o.kind = 6; o.a = g.chance(90) ? m.size : m.size - 1; o.b = g.chance(80) ? m.term : m.term + g.range(-1, 1);
    if(o.b < 0) o.b = 0;
    o.srv = g.pick(pool);
    d << "appendLeadershipMarker(" << o.a << ", " << o.b << ")";
  } else if(k < 95) {
    o.kind = 7; o.pol = (FsyncPolicy) g.below(3);
    d << "setFsyncPolicy(" << fsyncPolicyToString(o.pol) << ")";
  } else {
    o.kind = 8;
    // entries which were trimmed already are not judged: some of those given may be
    o.a = std::max<int64_t>(0, g.chance(30) ? g.range(m.start - 8, m.start) : g.range(m.start, m.size));
    size_t n = g.below(o.a < m.start ? 14 : 6);
    for(size_t i = 0; i < n; i++) {
      int64_t idx = o.a + i;
      if(m.log.count(idx) && g.chance(85)) o.es.push_back(m.log.at(idx));
      else {
        Entry e = m.log.count(idx) ? m.log.at(idx) : genEntry(g, m, m.term);
        if(g.chance(50)) e.term++; else e.req.back() += "x";
        if(g.chance(20)) e.req.push_back("");
        o.es.push_back(e);
      }
    }
    d << "compareEntries(" << o.a << ", " << n << " entries)";
  }
  o.desc = d.str();
  return o;
}

// applies to the journal, returns outcome: 0/1 result, 2 threw, for compareEntries the index
static int64_t apply(RaftJournal &j, const Op &o) {
  std::string err;
  try {
    switch(o.kind) {
      case 0: return j.append(o.a, toReal(o.e), o.important);
      case 1: return j.setCurrentTerm(o.a, r(o.srv));
      case 2: return j.setCommitIndex(o.a);
      case 3: return j.removeEntries(o.a);
      case 4: j.trimUntil(o.a); return 1;
      case 5: switch(o.a) {
        case 0: return j.addObserver(o.b, r(o.srv), err);
        case 1: return j.promoteObserver(o.b, r(o.srv), err);
        case 2: return j.demoteToObserver(o.b, r(o.srv), err);
        default: return j.removeMember(o.b, r(o.srv), err);
      }
      case 6: return j.appendLeadershipMarker(o.a, o.b, r(o.srv));
      case 7: j.setFsyncPolicy(o.pol); return 1;
      case 8: {
        std::vector<RaftEntry> v;
        for(auto &e : o.es) v.push_back(toReal(e));
        return j.compareEntries(o.a, v);
      }
    }
  } catch(const FatalException &e) { return 2; }
  return -99;
}

static int64_t apply(Model &m, const Op &o) {
  switch(o.kind) {
    case 0: return m.append(o.a, o.e);
    case 1: return m.setTerm(o.a, o.srv);
    case 2: return m.setCommit(o.a);
    case 3: return m.remove(o.a);
    case 4: return m.trim(o.a);
    case 5: {
      // a change that would leave no full member cannot be written down
      Mem mm = m.members;
      return m.membership(o.a, o.b, o.srv);
    }
    case 6: return m.append(o.a, Entry{o.b, {"JOURNAL_LEADERSHIP_MARKER", std::to_string(o.b), str(o.srv)}});
    case 7: m.policy = o.pol; return 1;
    case 8: {
      int64_t end = std::min(m.size, o.a + (int64_t) o.es.size());
      for(int64_t i = std::max(o.a, m.start); i < end; i++) if(!(m.log.at(i) == o.es[i - o.a])) return i;
      return end;
    }
  }
  return -99;
}

// avoid asking for a membership without full members: not a legal request
static bool legal(const Op &o, const Model &m) {
  if(o.kind == 5 && (o.a == 2 || o.a == 3) && m.members.nodes.size() == 1 && has(m.members.nodes, o.srv)) return false;
  return true;
}

static void sequence(uint64_t seed, int nops, const std::string &dir) {
  Rng g(seed);
  Model m;
  std::string path = dir + "/j";
  vf::removeTree(path);
  std::vector<Srv> init = {pool[0], pool[1], pool[2]};
  if(g.chance(30)) init.pop_back();
  int64_t startIndex = g.chance(50) ? 0 : g.chance(50) ? g.below(10) : 250 + g.below(20);
  std::string cid = "cluster-" + std::to_string(g.below(3));
  FsyncPolicy pol = (FsyncPolicy) g.below(3);
  m.init(cid, init, startIndex, pol);
  std::vector<RaftServer> ns;
  for(auto &x : init) ns.push_back(r(x));
  std::unique_ptr<RaftJournal> j(new RaftJournal(path, cid, ns, startIndex, pol));
  std::string trace = "startIndex=" + std::to_string(startIndex) + " ";
  auto bad = [&](const std::string &key, const std::string &what) {
    VF_FAIL(key, what << "\nsequence (seed " << seed << "): " << trace);
  };
  std::string d = compare(m, *j, true);
  if(!d.empty()) { bad("journal-model:init", d); return; }
  std::string shape;
  for(int i = 0; i < nops; i++) {
    if(g.chance(4)) {
      trace += "; reopen";
      ctx().current(trace.size() > 60000 ? trace.substr(trace.size() - 60000) : trace);
      j.reset();
      j.reset(new RaftJournal(path));
      ctx().count("reopens");
      d = compare(m, *j, true);
      if(!d.empty()) { bad("journal-model:reopen", d); return; }
      shape += "R";
      continue;
    }
    Op o = gen(g, m);
    if(!legal(o, m)) continue;
    trace += "; " + o.desc;
    ctx().current(trace.size() > 60000 ? trace.substr(trace.size() - 60000) : trace);
    int64_t before_size = m.size;
    int64_t want = apply(m, o);
    int64_t got = apply(*j, o);
    shape += (char) ('a' + o.kind);
    shape += (char) ('0' + (o.kind == 8 ? 1 : want));
    static const char *names[] = {"append", "setCurrentTerm", "setCommitIndex", "removeEntries", "trimUntil", "membership", "leadershipMarker", "setFsyncPolicy", "compareEntries"};
    ctx().count(std::string(names[o.kind]) + (o.kind == 8 ? "" : want == 0 ? ".refused" : want == 2 ? ".throws" : ".ok"));
    if(got != want) { bad(std::string("journal-model:") + names[o.kind] + ":result", "returned " + std::to_string(got) + ", expected " + std::to_string(want)); return; }
    d = compare(m, *j, g.chance(15) || o.kind == 3 || o.kind == 4);
    if(!d.empty()) { bad(std::string("journal-model:") + names[o.kind] + ":state", d); return; }
    if(g.chance(5)) {
      int n = g.chance(70) ? g.below(m.log.size() + 3) : 1000;
      std::vector<RaftEntry> last;
      j->fetch_last(n, last);
      std::vector<Entry> want, gotv;
      for(int64_t k = std::max(m.start, m.size - n); k < m.size; k++) want.push_back(m.log.at(k));
      for(auto &e : last) gotv.push_back(fromReal(e));
      if(want != gotv) {
        bad("journal-model:fetch_last", "fetch_last(" + std::to_string(n) + ") returned " + std::to_string(gotv.size()) + " entries, expected the last " + std::to_string(want.size()));
        return;
      }
      ctx().count("fetch_last");
    }
    (void) before_size;
  }
  d = compare(m, *j, true);
  if(!d.empty()) { bad("journal-model:end", d); return; }
  j.reset();
  // nothing else is stored
  std::map<std::string, std::string> raw = vf::dumpRaw(path);
  size_t entries = 0;
  for(auto &kv : raw) if(kv.first.size() == 9 && kv.first[0] == 'E') entries++;
  if(entries != m.log.size()) bad("journal-model:orphans", "stored entries: " + std::to_string(entries) + ", live: " + std::to_string(m.log.size()));
  ctx().eval(shape);
  ctx().sample(trace);
}

//------------------------------------------------------------------------------
// Crash points
//------------------------------------------------------------------------------
static int runChild(const std::string &path, const Model &m0, const std::vector<Op> &ops, int64_t crashAt, int mode) {
  crashfs::sh->writes = 0; crashfs::sh->syncs = 0; crashfs::sh->crashAt = crashAt; crashfs::sh->mode = mode;
  crashfs::sh->progress = 0; crashfs::sh->started = 0;
  pid_t p = fork();
  if(p == 0) {
    RaftJournal *j = new RaftJournal(path);
    crashfs::watchDir = path;
    crashfs::armed = true;
    for(size_t i = 0; i < ops.size(); i++) {
      crashfs::sh->started = i + 1;
      apply(*j, ops[i]);
      crashfs::sh->progress = i + 1;
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

static void copyTree(const std::string &a, const std::string &b) {
  std::string cmd = "cp -a '" + a + "' '" + b + "'";
  if(system(cmd.c_str()) != 0) { fprintf(stderr, "VF-HARNESS-ERROR cp failed\n"); exit(2); }
}

static void crashes(uint64_t seed, int nops, const std::string &dir) {
  Rng g(seed);
  Model m0;
  std::string base = dir + "/base";
  vf::removeTree(base);
  std::vector<Srv> init = {pool[0], pool[1], pool[2]};
  m0.init("cid", init, 0, FsyncPolicy::kAsync);
  std::vector<RaftServer> ns;
  for(auto &x : init) ns.push_back(r(x));
  std::vector<Op> warm, ops;
  std::vector<Model> states;
  {
    RaftJournal j(base, "cid", ns, 0, FsyncPolicy::kAsync);
    for(int i = 0; i < 12; i++) { Op o = gen(g, m0); if(!legal(o, m0) || o.kind == 7) continue; apply(m0, o); apply(j, o); }
  }
  Model m = m0;
  states.push_back(m);
  std::string trace;
  for(int i = 0; i < nops; i++) {
    Op o = gen(g, m);
    if(!legal(o, m) || o.kind == 8) continue;
    apply(m, o);
    ops.push_back(o);
    states.push_back(m);
    trace += o.desc + "; ";
  }
  std::string work = dir + "/work";
  vf::removeTree(work);
  copyTree(base, work);
  int rc = runChild(work, m0, ops, -1, 0);
  if(rc != 0) { VF_FAIL("journal-crash:child", "uninterrupted child ended with " << rc << ": " << trace); return; }
  int64_t total = crashfs::sh->writes;
  {
    RaftJournal j(work);
    std::string d = compare(states.back(), j, true);
    if(!d.empty()) { VF_FAIL("journal-crash:noclose", "state after exit without close: " << d << "\n" << trace); return; }
  }
  int64_t step = 1;
  int64_t budget = ctx().n(25, 4);
  if(total > budget) step = (total + budget - 1) / budget;
  for(int64_t k = g.below(step); k < total; k += step) {
    int mode = g.below(3);
    vf::removeTree(work);
    copyTree(base, work);
    rc = runChild(work, m0, ops, k, mode);
    int64_t done = crashfs::sh->progress, started = crashfs::sh->started;
    std::string where = "killed at write " + std::to_string(k) + " of " + std::to_string(total) + " mode " + std::to_string(mode) +
      " after " + std::to_string(done) + " completed operations";
    ctx().current(where + ": " + trace.substr(0, 50000));
    if(rc != 77) { VF_FAIL("journal-crash:child", "child ended with " << rc << " instead of crashing, " << where << ": " << trace); return; }
    try {
      RaftJournal j(work);
      std::string best;
      bool ok = false;
      for(int64_t s = done; s <= started && s < (int64_t) states.size(); s++) {
        std::string d = compare(states[s], j, true);
        if(d.empty()) { ok = true; break; }
        best += "[vs state after " + std::to_string(s) + "] " + d;
      }
      if(!ok) VF_FAIL("journal-crash:state", where << ": matches no allowed state: " << best << "\noperation in flight: " << (started > 0 ? ops[started-1].desc : "-") << "\nops: " << trace);
      else {
        // and it must be usable
        Model mm = states[done];
        bool grew = j.append(j.getLogSize(), RaftEntry(j.getCurrentTerm(), "probe"));
        if(!grew) VF_FAIL("journal-crash:unusable", where << ": cannot append after recovery\n" << trace);
      }
    } catch(const FatalException &e) {
      VF_FAIL("journal-crash:open", where << ": journal does not open any more: " << e.what() << "\n" << trace);
    }
    ctx().eval("crash" + std::to_string(seed) + ":" + std::to_string(k) + ":" + std::to_string(mode));
    ctx().count("crash_points");
    if(ctx().failed()) return;
  }
  ctx().sample("crash points 0.." + std::to_string(total) + " of: " + trace.substr(0, 600));
}

//------------------------------------------------------------------------------
// One writer, many readers: what a reader sees was true at some moment
//------------------------------------------------------------------------------
static void threads(uint64_t seed, const std::string &dir, int nops) {
  std::string path = dir + "/t";
  vf::removeTree(path);
  std::vector<RaftServer> ns = {r(pool[0]), r(pool[1])};
  RaftJournal j(path, "cid", ns, 0, FsyncPolicy::kAsync);
  std::atomic<bool> stop {false};
  std::atomic<int64_t> maxCommit {0}, reads {0};
  j.setCurrentTerm(1, r(pool[0]));
  std::vector<std::thread> ts;
  for(int t = 0; t < 4; t++) ts.emplace_back([&, t]() {
    Rng g(seed * 77 + t);
    int64_t lastCommit = 0;
    while(!stop) {
      int64_t c = j.getCommitIndex();
      if(c < lastCommit) VF_FAIL("journal-threads:commit", "commit index went from " << lastCommit << " to " << c);
      lastCommit = c;
      int64_t st = j.getLogStart();
      if(c > 0) {
        int64_t i = g.range(std::max<int64_t>(1, c - 20), c);
        RaftEntry e;
        rocksdb::Status s = j.fetch(i, e);
        if(s.ok()) {
          // the content of a committed entry is a function of its index
          if(e.request.size() != 2 || std::string(e.request[1].data(), e.request[1].size()) != "c" + std::to_string(i))
            VF_FAIL("journal-threads:committed", "committed entry " << i << " reads as " << vf::show(e.request));
        }
        else if(i >= j.getLogStart()) VF_FAIL("journal-threads:missing", "committed entry " << i << " missing, start " << st);
        if(t == 0) { RaftMembership mm = j.getMembership(); if(mm.nodes.size() != 2) VF_FAIL("journal-threads:members", "membership torn"); }
        if(t == 1) j.waitForUpdates(j.getLogSize(), std::chrono::milliseconds(1));
        if(t == 2) j.matchEntries(i, 1);
      }
      reads++;
    }
  });
  std::thread waiter([&]() {
    while(!stop) { j.waitForCommits(j.getCommitIndex()); }
  });
  Rng g(seed);
  int64_t commit = 0;
  for(int i = 0; i < nops; i++) {
    int k = g.below(10);
    int64_t sz = j.getLogSize();
    if(k < 6) {
      // uncommitted entries may be replaced: content marks whether it is the final one
      j.append(sz, RaftEntry(1, "SET", "c" + std::to_string(sz)));
    }
    else if(k < 8) { int64_t to = g.range(commit, sz - 1); if(j.setCommitIndex(to)) commit = to; }
    else if(k == 8) { if(sz - 1 > commit) j.removeEntries(g.range(commit + 1, sz - 1)); }
    else if(commit > 60 && g.chance(20)) j.trimUntil(commit - 40);
  }
  j.append(j.getLogSize(), RaftEntry(1, "SET", "c" + std::to_string(j.getLogSize())));
  stop = true;
  std::atomic<bool> waiterDone {false};
  std::thread nudge([&]() { while(!waiterDone) { j.notifyWaitingThreads(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); } });
  for(auto &t : ts) t.join();
  waiter.join();
  waiterDone = true;
  nudge.join();
  ctx().eval("threads" + std::to_string(seed));
  ctx().count("concurrent_reads", reads);
  ctx().count("concurrent_ops", nops);
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  vf::quiet();
  std::string mode = ctx().arg("mode", "model");
  std::string dir = vf::scratch();
  if(mode == "model") {
    int n = ctx().iarg("n", ctx().n(60));
    for(int i = 0; i < n && !ctx().failed(); i++) sequence(ctx().seed * 100003 + i, 60 + (i % 3) * 60, dir);
  }
  else if(mode == "crash") {
    crashfs::sh = crashfs::share();
    int n = ctx().iarg("n", ctx().n(4, 5));
    for(int i = 0; i < n && !ctx().failed(); i++) crashes(ctx().seed * 31337 + i, 25, dir);
  }
  else if(mode == "threads") {
    int n = ctx().iarg("n", ctx().n(2, 5));
    for(int i = 0; i < n && !ctx().failed(); i++) threads(ctx().seed * 7 + i, dir, ctx().n(1500, 4));
  }
  return ctx().finish();
}
