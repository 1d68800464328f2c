// C16: raft state transitions against a reference model, with restarts (mode model), kills
// at system calls (mode crash), and concurrent histories checked for linearizability (mode threads).
#include "qdb.hh"
#include "raft/RaftState.hh"
#include "raft/RaftJournal.hh"
#include "crashfs.hh"
#include <sys/wait.h>
#include <signal.h>
using namespace vf;
using namespace quarkdb;

typedef std::pair<std::string, int> Srv;
static Srv s(const RaftServer &r) { return {r.hostname, r.port}; }
static RaftServer r(const Srv &x) { RaftServer o; o.hostname = x.first; o.port = x.second; return o; }
static std::string str(const Srv &x) { return x.first.empty() ? "-" : x.first + ":" + std::to_string(x.second); }
static const Srv none{"", 0};

static const char *stname[] = {"follower", "candidate", "leader", "shutdown"};

struct M {
  int64_t term = 0, size = 1, marker = -1, lastTerm = 0, jterm = 0;
  int status = 0;       // 0 follower 1 candidate 2 leader 3 shutdown
  Srv leader = none, vote = none, jvote = none;   // jterm/jvote: what the journal must hold
  bool member = true;
  Srv me{"me", 7};
  bool operator==(const M &o) const { return term == o.term && size == o.size && marker == o.marker && status == o.status && leader == o.leader && vote == o.vote && jterm == o.jterm && jvote == o.jvote; }
  bool operator<(const M &o) const { return std::tie(term, size, marker, status, leader, vote, jterm, jvote) < std::tie(o.term, o.size, o.marker, o.status, o.leader, o.vote, o.jterm, o.jvote); }
  std::string show() const { std::ostringstream o; o << "term " << term << " " << stname[status] << " leader " << str(leader) << " vote " << str(vote) << " marker " << marker << " (journal: term " << jterm << " vote " << str(jvote) << " size " << size << ")"; return o.str(); }
};

static bool blocked(const Srv &x) { return x == s(RaftState::BLOCKED_VOTE); }

struct Op { int kind; int64_t t; Srv who; };
static const char *opname[] = {"observed", "grantVote", "becomeCandidate", "ascend", "dropOut", "shutdown"};
static std::string str(const Op &o) { return std::string(opname[o.kind]) + "(" + std::to_string(o.t) + (o.kind < 2 ? ", " + str(o.who) : "") + ")"; }

// the specification
static bool apply(M &m, const Op &o) {
  Srv block = s(RaftState::BLOCKED_VOTE);
  switch(o.kind) {
    case 0:
      if(m.status == 3) return false;
      if(o.t > m.term) {
        m.status = 0; m.marker = -1;
        m.term = o.t; m.leader = o.who;
        m.vote = o.who == none ? none : block;
        m.jterm = m.term; m.jvote = m.vote;
        return true;
      }
      if(o.t == m.term && m.leader == none) {
        m.leader = o.who;
        if(!(o.who == none) && m.vote == none) { m.vote = block; m.jvote = block; m.jterm = m.term; }
        return true;
      }
      return false;
    case 1:
      if(m.status != 0 || o.t != m.term || !(m.leader == none) || !(m.vote == none)) return false;
      m.vote = o.who; m.jvote = o.who; m.jterm = m.term;
      return true;
    case 2:
      if(m.status != 0 || o.t != m.term || !(m.leader == none) || !(m.vote == none) || !m.member) return false;
      m.vote = m.me; m.jvote = m.me; m.jterm = m.term; m.status = 1;
      return true;
    case 3:
      if(m.status != 1 || o.t != m.term || !(m.leader == none) || m.vote != m.me || !m.member) return false;
      if(m.lastTerm > m.term) return false;
      m.leader = m.me; m.marker = m.size; m.size++; m.lastTerm = m.term; m.status = 2;
      return true;
    case 4:
      if(m.status != 1 || o.t != m.term) return false;
      m.status = 0; m.marker = -1;
      return true;
    case 5:
      m.status = 3; m.marker = -1;
      return true;
  }
  return false;
}
static bool apply(RaftState &st, const Op &o) {
  switch(o.kind) {
    case 0: return st.observed(o.t, r(o.who));
    case 1: return st.grantVote(o.t, r(o.who));
    case 2: return st.becomeCandidate(o.t);
    case 3: return st.ascend(o.t);
    case 4: return st.dropOut(o.t);
    case 5: st.shutdown(); return true;
  }
  return false;
}
static int stat(RaftStatus x) { return x == RaftStatus::FOLLOWER ? 0 : x == RaftStatus::CANDIDATE ? 1 : x == RaftStatus::LEADER ? 2 : 3; }

struct Snap {
  int64_t term, marker; int status; Srv leader, vote;
  bool operator==(const Snap &o) const { return term == o.term && marker == o.marker && status == o.status && leader == o.leader && vote == o.vote; }
  bool of(const M &m) const { return term == m.term && marker == m.marker && status == m.status && leader == m.leader && vote == m.vote; }
  std::string show() const { std::ostringstream o; o << "term " << term << " " << stname[status] << " leader " << str(leader) << " vote " << str(vote) << " marker " << marker; return o.str(); }
};
static Snap snap(const RaftState &st) {
  RaftStateSnapshotPtr p = st.getSnapshot();
  return {p->term, p->leadershipMarker, stat(p->status), s(p->leader), s(p->votedFor)};
}

static std::string compare(const M &m, RaftState &st, RaftJournal &j) {
  std::ostringstream o;
  Snap x = snap(st);
  if(!x.of(m)) o << "state is " << x.show() << ", expected " << m.show() << "; ";
  if(j.getCurrentTerm() != m.jterm || s(j.getVotedFor()) != m.jvote) o << "journal holds term " << j.getCurrentTerm() << " vote " << str(s(j.getVotedFor())) << ", expected " << m.show() << "; ";
  if(j.getLogSize() != m.size) o << "log size " << j.getLogSize() << ", expected " << m.size << "; ";
  if(m.status == 2) {
    RaftEntry e;
    if(!j.fetch(m.marker, e).ok() || e.term != m.term || e.request.size() < 1 || std::string(e.request[0].data(), e.request[0].size()) != "JOURNAL_LEADERSHIP_MARKER") o << "no leadership marker at " << m.marker << "; ";
  }
  return o.str();
}

static std::vector<Srv> pool = {{"a", 1}, {"b", 2}, {"me", 7}, {"me", 8}};

static Op gen(Rng &g, const M &m, bool shutdowns) {
  int k = g.below(100);
  int64_t t = g.chance(75) ? m.term : m.term + g.range(-1, 2);
  Srv w = g.pick(pool);
  if(m.status == 1 && g.chance(60)) {
    if(k < 20) return {4, m.term, none};
    if(k < 65) return {3, m.term, none};
    if(k < 80) return {0, m.term, w};
    return {0, m.term + 1, none};
  }
  if(m.status == 2 && g.chance(40)) return {0, m.term + g.range(0, 1), g.chance(50) ? none : w};
  if(k < 30) return {0, g.chance(60) ? m.term + g.range(0, 1) : t, g.chance(50) ? none : w};
  if(k < 45) return {1, t, w};
  if(k < 65) return {2, t, none};
  if(k < 82) return {3, t, none};
  if(k < 98 || !shutdowns) return {4, t, none};
  return {5, 0, none};
}

static void sequence(uint64_t seed, int nops, const std::string &dir) {
  Rng g(seed);
  M m;
  m.member = g.chance(85);
  std::string path = dir + "/j";
  removeTree(path);
  std::vector<RaftServer> nodes = {r({"a", 1}), r({"b", 2})};
  if(m.member) nodes.push_back(r(m.me));
  std::unique_ptr<RaftJournal> j(new RaftJournal(path, "cid", nodes, 0, FsyncPolicy::kAsync));
  std::unique_ptr<RaftState> st(new RaftState(*j, r(m.me)));
  std::string trace;
  for(int i = 0; i < nops; i++) {
    if(g.chance(m.status == 3 ? 60 : 5)) {
      trace += "; restart";
      ctx().current(trace);
      bool hard = g.chance(50);
      st.reset();
      if(hard) j.reset(), j.reset(new RaftJournal(path));
      st.reset(new RaftState(*j, r(m.me)));
      m.status = 0; m.leader = none; m.marker = -1; m.term = m.jterm; m.vote = m.jvote;
      ctx().count("restarts");
    }
    else {
      Op o = gen(g, m, true);
      trace += "; " + str(o);
      ctx().current(trace);
      RaftStateSnapshotPtr before = st->getSnapshot();
      Snap b = snap(*st);
      bool want = apply(m, o), got = apply(*st, o);
      trace += want ? "+" : "-";
      if(want != got) { VF_FAIL(std::string("state:result:") + opname[o.kind], str(o) << " returned " << got << "\n" << trace); return; }
      if(!(Snap{before->term, before->leadershipMarker, stat(before->status), s(before->leader), s(before->votedFor)} == b)) VF_FAIL("state:snapshot-mutated", "an old snapshot changed" << trace);
      if(!st->isSnapshotCurrent(st->getSnapshot().get())) VF_FAIL("state:current", "the current snapshot is not current");
      Snap a = snap(*st);
      if(!(a == b) && st->isSnapshotCurrent(before.get())) VF_FAIL("state:current", "an outdated snapshot is said to be current");
      ctx().count(std::string(opname[o.kind]) + (want ? ".ok" : ".refused"));
      ctx().eval(b.show().substr(b.show().find(' ', 5)) + str(Op{o.kind, o.t - b.term, o.who}));
    }
    std::string d = compare(m, *st, *j);
    if(!d.empty()) { VF_FAIL("state:model", d << "\nafter " << trace); return; }
    if(st->getMyself().hostname != m.me.first || st->getClusterID() != "cid") VF_FAIL("state:identity", "identity changed");
  }
  ctx().sample(trace);
}

// ---------------------------------------------------------------- crash
static void crashes(uint64_t seed, const std::string &dir) {
  Rng g(seed);
  std::string path = dir + "/c";
  std::vector<Op> ops;
  std::vector<M> states;
  M m;
  states.push_back(m);
  for(int i = 0; i < 30; i++) { Op o = gen(g, m, false); ops.push_back(o); apply(m, o); states.push_back(m); }
  std::vector<RaftServer> nodes = {r({"a", 1}), r({"b", 2}), r(m.me)};
  int64_t total = -1;
  std::string trace;
  for(auto &o : ops) trace += str(o) + "; ";
  for(int64_t k = -1; total < 0 || k < total; k++) {
    if(k >= 0 && !ctx().thorough && !g.chance(60)) continue;
    removeTree(path);
    { RaftJournal j(path, "cid", nodes, 0, FsyncPolicy::kAsync); }
    crashfs::sh->writes = 0; crashfs::sh->crashAt = k; crashfs::sh->mode = g.below(3); crashfs::sh->progress = 0; crashfs::sh->aux[0] = 0;
    ctx().current("crash at write " + std::to_string(k) + " of " + trace);
    pid_t pid = fork();
    if(pid == 0) {
      alarm(60);
      RaftJournal j(path);
      RaftState st(j, r(m.me));
      crashfs::watchDir = path;
      crashfs::armed = true;
      for(size_t i = 0; i < ops.size(); i++) {
        bool got = apply(st, ops[i]);
        M tmp = states[i];
        if(got != apply(tmp, ops[i])) crashfs::sh->aux[0] = 1;
        crashfs::sh->progress = i + 1;
      }
      _exit(0);
    }
    int wst = 0;
    waitpid(pid, &wst, 0);
    int rc = WIFEXITED(wst) ? WEXITSTATUS(wst) : -1;
    if(rc != (k < 0 ? 0 : 77)) { VF_FAIL("state-crash:child", "child ended with " << wst << ": " << trace); return; }
    if(k < 0) total = crashfs::sh->writes;
    size_t done = crashfs::sh->progress;
    try {
      RaftJournal j(path);
      RaftState st(j, r(m.me));
      Snap x = snap(st);
      bool ok = false;
      for(size_t c : {done, std::min(done + 1, ops.size())}) {
        const M &w = states[c];
        ok = ok || (x.term == w.jterm && x.vote == w.jvote && x.status == 0 && x.leader == none && j.getLogSize() == w.size);
        // within one operation the term/vote may be stored before its log entry, never after
        if(c > done) ok = ok || (x.term == w.jterm && x.vote == w.jvote && x.status == 0 && j.getLogSize() == states[done].size);
      }
      VF_CHECK(ok, "state-crash:forgotten", "killed at write " << k << " after " << done << " completed operations: restarted with " << x.show() << " log size " << j.getLogSize() << "\nexpected " << states[done].show() << "\nor " << states[std::min(done + 1, ops.size())].show() << "\nops: " << trace);
    } catch(const std::exception &e) { VF_FAIL("state-crash:open", "journal does not open after a kill: " << e.what() << " " << trace); }
    ctx().eval("crash:" + std::to_string(seed) + ":" + std::to_string(k));
    ctx().count("crash_points");
  }
}

// ---------------------------------------------------------------- threads
struct Ev { Op o; int kind; bool res; Snap sn; int64_t jterm; uint64_t inv, ret; };   // kind 0: op, 1: snapshot, 2: journal term after snapshot

struct Lin {
  const std::vector<Ev> &ev;
  std::set<std::pair<uint64_t, M>> seen;
  uint64_t nodes = 0;
  const M *final_ = nullptr;
  Snap fin;
  int64_t fjterm; Srv fjvote;
  bool go(uint64_t done, const M &m) {
    if(done == ((uint64_t) 1 << ev.size()) - 1) return fin.of(m) && m.jterm == fjterm && m.jvote == fjvote;
    if(++nodes > 3000000) return true;      // give up: no verdict
    if(!seen.insert({done, m}).second) return false;
    uint64_t minRet = ~0ull;
    for(size_t i = 0; i < ev.size(); i++) if(!(done >> i & 1)) minRet = std::min(minRet, ev[i].ret);
    for(size_t i = 0; i < ev.size(); i++) {
      if(done >> i & 1 || ev[i].inv > minRet) continue;
      M n = m;
      if(ev[i].kind == 0) { if(apply(n, ev[i].o) != ev[i].res) continue; }
      else if(!ev[i].sn.of(m)) continue;
      if(go(done | (uint64_t) 1 << i, n)) return true;
    }
    return false;
  }
};

static void threads(uint64_t seed, const std::string &dir, int rounds) {
  std::string path = dir + "/t";
  removeTree(path);
  M base;
  std::vector<RaftServer> nodes = {r({"a", 1}), r({"b", 2}), r(base.me)};
  RaftJournal j(path, "cid", nodes, 0, FsyncPolicy::kAsync);
  RaftState st(j, r(base.me));
  const int T = 4;
  std::atomic<int> phase{0}, arrived{0};
  std::atomic<uint64_t> clock{1};
  std::atomic<int64_t> roundTerm{0};
  std::atomic<bool> stop{false};
  std::vector<std::vector<Ev>> ev(T);
  // watcher: what it sees must be persisted, monotonic, and unique per term
  std::atomic<uint64_t> watched{0};
  std::thread watcher([&] {
    int64_t last = -1;
    std::map<int64_t, Srv> leader, vote;
    while(!stop) {
      RaftStateSnapshotPtr p = st.getSnapshot();
      RaftServer v;
      int64_t jt = j.getCurrentTerm();
      VF_CHECK(jt >= p->term, "state:unpersisted", "a snapshot shows term " << p->term << " while the journal still holds " << jt);
      VF_CHECK(p->term >= last, "state:term-back", "term went back from " << last << " to " << p->term);
      last = std::max<int64_t>(last, p->term);
      if(!p->leader.empty()) { auto e = leader.emplace(p->term, s(p->leader)); VF_CHECK(e.first->second == s(p->leader), "state:two-leaders", "term " << p->term << " has leaders " << str(e.first->second) << " and " << p->leader.toString()); }
      if(!p->votedFor.empty()) { auto e = vote.emplace(p->term, s(p->votedFor)); VF_CHECK(e.first->second == s(p->votedFor), "state:two-votes", "term " << p->term << " has votes " << str(e.first->second) << " and " << p->votedFor.toString()); }
      if(p->status == RaftStatus::LEADER) VF_CHECK(s(p->leader) == base.me && s(p->votedFor) == base.me && p->leadershipMarker >= 1, "state:leader", "leader without its own vote, or without a marker");
      else VF_CHECK(p->leadershipMarker == -1, "state:marker", "a leadership marker without being the leader");
      watched++;
    }
  });
  auto body = [&](int id) {
    Rng g(seed * 977 + id);
    for(int round = 0; round < rounds; round++) {
      while(phase.load() <= round) std::this_thread::yield();
      int64_t t = roundTerm;
      ev[id].clear();
      int n = 3 + g.below(2);
      for(int i = 0; i < n; i++) {
        Ev e{};
        int k = g.below(100);
        int64_t tt = g.chance(80) ? t : t + 1;
        if(k < 20) { e.kind = 1; }
        else if(k < 40) e.o = {0, tt, g.chance(40) ? none : pool[g.below(2)]};
        else if(k < 55) e.o = {1, tt, pool[g.below(2)]};
        else if(k < 75) e.o = {2, tt, none};
        else if(k < 90) e.o = {3, tt, none};
        else e.o = {4, tt, none};
        if(g.chance(30)) std::this_thread::yield();
        e.inv = clock++;
        if(e.kind == 0) e.res = apply(st, e.o);
        else e.sn = snap(st);
        e.ret = clock++;
        ev[id].push_back(e);
      }
      arrived++;
      while(phase.load() == round + 1 && arrived.load() != 0) std::this_thread::yield();
    }
  };
  std::vector<std::thread> th;
  for(int i = 0; i < T; i++) th.emplace_back(body, i);
  for(int round = 0; round < rounds; round++) {
    // a fresh term, so that every round starts from a known state
    int64_t t = st.getSnapshot()->term + 2;
    Rng g(seed * 31 + round);
    st.observed(t, r(none));
    M m;
    m.term = t; m.jterm = t; m.size = j.getLogSize();
    { RaftTerm lt; j.fetch_or_die(m.size - 1, lt); m.lastTerm = lt; }
    roundTerm = t;
    arrived = 0;
    phase = round + 1;
    while(arrived.load() != T) std::this_thread::yield();
    std::vector<Ev> all;
    for(auto &v : ev) for(auto &e : v) all.push_back(e);
    Snap fin = snap(st);
    arrived = 0;
    std::string h;
    std::sort(all.begin(), all.end(), [](const Ev &a, const Ev &b) { return a.inv < b.inv; });
    std::string shape;
    for(auto &e : all) {
      h += "[" + std::to_string(e.inv) + "," + std::to_string(e.ret) + "] " + (e.kind == 0 ? str(e.o) + " = " + std::to_string(e.res) : "snapshot = " + e.sn.show()) + "\n";
      shape += std::to_string(e.kind == 0 ? e.o.kind : 9) + std::to_string(e.res) + (e.o.t > t ? "n" : "") + ",";
    }
    Lin lin{all};
    lin.fin = fin; lin.fjterm = j.getCurrentTerm(); lin.fjvote = s(j.getVotedFor());
    bool ok = lin.go(0, m);
    if(lin.nodes > 3000000) ctx().count("lin_gave_up");
    VF_CHECK(ok, "state:linearizability", "no order of these concurrent transitions explains the results; start " << m.show() << "\n" << h << "final " << fin.show() << ", journal term " << lin.fjterm << " vote " << str(lin.fjvote));
    ctx().eval(shape);
    ctx().count("histories");
    if(round == 0) ctx().sample(h);
    if(ctx().failed()) { /* let the threads finish */ }
  }
  stop = true;
  for(auto &t : th) t.join();
  watcher.join();
  ctx().count("snapshots_watched", watched);
  // waiters wake up on shutdown
  std::thread w1([&] { st.wait(std::chrono::seconds(100)); });
  std::thread w2([&] { st.wait_until(std::chrono::steady_clock::now() + std::chrono::seconds(100)); });
  std::this_thread::sleep_for(std::chrono::milliseconds(20));
  st.shutdown();
  w1.join(); w2.join();
  st.wait(std::chrono::seconds(100));
  VF_CHECK(snap(st).status == 3, "state:shutdown", "not shut down");
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "model");
  std::string dir = freshDir("s");
  if(mode == "model") for(int i = 0; i < ctx().n(150) && !ctx().failed(); i++) sequence(ctx().seed * 7919 + i, 60, dir);
  if(mode == "crash") { crashfs::sh = crashfs::share(); for(int i = 0; i < ctx().n(14) && !ctx().failed(); i++) crashes(ctx().seed * 37 + i, dir); }
  if(mode == "threads") threads(ctx().seed, dir, ctx().n(4000));
  return ctx().finish();
}
