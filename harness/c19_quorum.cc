// C19: commit index and lease against their definitions: updates and membership changes one by one and
// from several threads (modes tracker, lease), and a leader replicating to peers played by the harness
// which stall, fall behind, diverge, vanish, lie about nothing, and observe (mode leader).
#include "raft.hh"
#include "raft/RaftMembers.hh"
#include "raft/RaftVoteRegistry.hh"
using namespace vf;
using namespace quarkdb;

static const RaftServer ME("me", 1);
static std::vector<RaftServer> pool() {
  std::vector<RaftServer> o;
  for(int i = 0; i < 8; i++) o.emplace_back(i % 3 ? "n" + std::to_string(i) : "n", 100 + i);
  return o;
}
static std::vector<RaftServer> pick(Rng &g, size_t lo) {
  auto p = pool();
  for(size_t i = p.size() - 1; i > 0; i--) std::swap(p[i], p[g.below(i + 1)]);
  p.resize(lo + g.below(7 - lo));
  return p;
}
// highest position on a quorum of us and the targets
static LogIndex supported(std::vector<LogIndex> m) {
  std::sort(m.rbegin(), m.rend());
  size_t n = m.size() + 1, quorum = n / 2 + 1;
  if(quorum == 1) return std::numeric_limits<LogIndex>::max();
  return m[quorum - 2];
}

static std::unique_ptr<RaftJournal> journal(const std::string &dir, const std::vector<RaftServer> &nodes, int entries) {
  RaftJournal::ObliterateAndReinitializeJournal(dir, "cid", nodes, 0, FsyncPolicy::kAsync);
  std::unique_ptr<RaftJournal> j(new RaftJournal(dir));
  j->setCurrentTerm(1, RaftServer("x", 1));
  for(int i = 1; i <= entries; i++) j->append(i, RaftEntry(1, RedisRequest{"SET", "k", std::to_string(i)}));
  return j;
}

static void tracker(uint64_t seed, int steps) {
  Rng g(seed);
  std::vector<RaftServer> nodes = pick(g, 2);
  auto j = journal(freshDir("t") + "/j", nodes, 120);
  RaftCommitTracker t(*j);
  auto targets = nodes;
  std::map<RaftServer, LogIndex> match;
  std::string trace = SSTR(targets.size() << " targets");
  LogIndex floor = 0;         // what the commit index had been
  for(int i = 0; i < steps && !ctx().failed(); i++) {
    int k = g.below(100);
    if(k < 6) {
      targets = pick(g, g.chance(20) ? 0 : 1);
      t.updateTargets(targets);
      trace += "\n targets";
      for(auto &s : targets) trace += " " + s.toString();
      ctx().count("target_changes");
      if(targets.empty()) {
        if(!eventually([&] { return j->getCommitIndex() == j->getLogSize() - 1; }, 5000)) VF_FAIL("tracker:alone", "a lone node did not commit its log, seed " << seed);
        j->append(j->getLogSize(), RaftEntry(1, RedisRequest{"SET", "k", "more"}));
        if(!eventually([&] { return j->getCommitIndex() == j->getLogSize() - 1; }, 5000)) VF_FAIL("tracker:alone", "a lone node did not commit a new entry, seed " << seed);
        floor = j->getCommitIndex();
        ctx().count("alone");
        targets = pick(g, 1);
        t.updateTargets(targets);
        for(int e = 0; e < 30; e++) j->append(j->getLogSize(), RaftEntry(1, RedisRequest{"SET", "k", "more"}));
        trace += SSTR("\n alone until " << floor << ", then " << targets.size() << " targets");
      }
      continue;
    }
    // an observer or former member now and then
    RaftServer s = g.chance(75) ? targets[g.below(targets.size())] : pool()[g.below(8)];
    LogIndex last = j->getLogSize() - 1;
    LogIndex v = g.chance(5) ? g.below(last + 1) : std::min<LogIndex>(last, match[s] + g.below(10));
    match[s] = v;
    trace += SSTR("\n " << s.toString() << " has " << v);
    t.getHandler(s).update(v);
    if(t.getHandler(s).get() != v) VF_FAIL("tracker:handler", "the handler forgot its value" << trace);
    std::vector<LogIndex> m;
    for(auto &x : targets) m.push_back(match[x]);
    LogIndex want = supported(m), c = j->getCommitIndex();
    if(c < floor) VF_FAIL("tracker:back", "commit index went from " << floor << " to " << c << ", seed " << seed << trace);
    else if(c > std::max(want, floor)) VF_FAIL("tracker:ahead", "commit index " << c << " but a quorum has only " << want << ", seed " << seed << trace);
    else if(contains(targets, s) && v > floor && c < want) VF_FAIL("tracker:behind", "commit index " << c << " although a quorum has " << want << ", seed " << seed << trace);
    if(c > floor) ctx().count("commits");
    floor = c;
    ctx().eval(SSTR(m.size() << ":" << (want - c) << ":" << contains(targets, s) << ":" << (v - c)));
    if(g.chance(1)) { t.reset(); match.clear(); t.updateTargets(targets); trace += "\n reset"; }
  }
}

static void trackerThreads(uint64_t seed) {
  Rng g(seed);
  std::vector<RaftServer> nodes = pick(g, 2);
  const int N = 800;
  auto j = journal(freshDir("tt") + "/j", nodes, N);
  RaftCommitTracker t(*j);
  std::vector<RaftMatchIndexTracker*> h;
  for(auto &s : nodes) h.push_back(&t.getHandler(s));
  std::atomic<bool> stop {false};
  std::vector<std::thread> th;
  for(size_t i = 0; i < nodes.size(); i++) th.emplace_back([&, i] {
    Rng r(seed * 17 + i);
    LogIndex v = 0;
    LogIndex end = i % 2 ? N : N - 100 * i;
    while(v < end) { v = std::min<LogIndex>(end, v + 1 + r.below(6)); h[i]->update(v); if(r.chance(10)) std::this_thread::yield(); }
  });
  uint64_t looks = 0;
  std::thread mon([&] {
    LogIndex last = 0;
    while(!stop) {
      LogIndex c = j->getCommitIndex();
      std::vector<LogIndex> m;
      for(auto *x : h) m.push_back(x->get());
      if(c > supported(m)) VF_FAIL("tracker:ahead", "commit index " << c << " but a quorum has only " << supported(m) << ", seed " << seed);
      if(c < last) VF_FAIL("tracker:back", "commit index went from " << last << " to " << c);
      last = c;
      looks++;
    }
  });
  for(auto &x : th) x.join();
  stop = true;
  mon.join();
  std::vector<LogIndex> m;
  for(auto *x : h) m.push_back(x->get());
  if(j->getCommitIndex() != supported(m)) VF_FAIL("tracker:final", "commit index " << j->getCommitIndex() << " although a quorum has " << supported(m) << ", seed " << seed);
  ctx().eval(SSTR("t" << seed));
  ctx().count("tracker_looks", looks);
}

static void lease(uint64_t seed, int steps) {
  Rng g(seed);
  typedef std::chrono::steady_clock::time_point TP;
  auto dur = std::chrono::milliseconds(1 + g.below(5000));
  auto targets = pick(g, 0);
  RaftLease l(targets, dur);
  std::map<RaftServer, TP> last;
  TP now = std::chrono::steady_clock::now();
  for(int i = 0; i < steps && !ctx().failed(); i++) {
    if(g.chance(7)) { targets = pick(g, 0); l.updateTargets(targets); ctx().count("target_changes"); }
    else {
      RaftServer s = g.chance(75) && !targets.empty() ? targets[g.below(targets.size())] : pool()[g.below(8)];
      now += std::chrono::microseconds(g.below(900));
      TP t = g.chance(20) ? now - std::chrono::milliseconds(g.below(200)) : now;
      l.getHandler(s).heartbeat(t);
      last[s] = std::max(last[s], t);
      if(l.getHandler(s).get() != last[s]) VF_FAIL("lease:handler", "the last contact is not the latest, seed " << seed);
    }
    std::vector<TP> c;
    for(auto &s : targets) c.push_back(last[s]);
    std::sort(c.rbegin(), c.rend());
    size_t n = c.size() + 1, quorum = n / 2 + 1;
    if(targets.empty()) {
      auto a = std::chrono::steady_clock::now(), d = l.getDeadline(), b = std::chrono::steady_clock::now();
      if(d < a + dur || d > b + dur) VF_FAIL("lease:alone", "a lone node's lease is not a full period from now");
    }
    else {
      if(l.getDeadline() != c[quorum - 2] + dur) VF_FAIL("lease:deadline", "wrong deadline with " << n << " nodes, seed " << seed << ", off by " << std::chrono::duration_cast<std::chrono::microseconds>(l.getDeadline() - (c[quorum - 2] + dur)).count() << " us");
      // the loss of which one would cost us the quorum
      TP shaky = quorum - 1 < c.size() ? c[quorum - 1] + dur : c.back() + dur;
      if(l.getShakyQuorumDeadline() != shaky) VF_FAIL("lease:shaky", "wrong deadline of a shaky quorum with " << n << " nodes, seed " << seed);
    }
    ctx().eval(SSTR(n << ":" << (c.empty() ? 0 : (c[0] - c.back()).count() % 97)));
  }
}

// votes count for the lease too, from the moment they were asked for
static void leaseVotes(uint64_t seed) {
  Rng g(seed);
  typedef std::chrono::steady_clock::time_point TP;
  auto nodes = pick(g, 2);
  nodes.insert(nodes.begin(), ME);
  std::vector<RaftServer> targets(nodes.begin() + 1, nodes.end());
  auto j = journal(freshDir("lv") + "/j", nodes, 1);
  RaftState state(*j, ME);
  auto dur = std::chrono::milliseconds(1 + g.below(5000));
  RaftLease l(targets, dur);
  std::map<RaftServer, TP> last;
  std::string hist;
  for(int round = 0; round < 40 && !ctx().failed(); round++) {
    RaftTerm term = state.getSnapshot()->term, newest = term;
    TP asked = std::chrono::steady_clock::now() - std::chrono::milliseconds(g.chance(30) ? g.below(300) : 0);
    RaftVoteRegistry reg(term, false);
    std::string d;
    for(auto &s : targets) {
      int k = g.below(8);
      if(k == 0) { reg.registerNetworkError(s); d += "N"; continue; }
      if(k == 1) { reg.registerParseError(s); d += "P"; continue; }
      RaftVoteResponse r;
      r.vote = k < 5 ? RaftVote::GRANTED : k < 7 ? RaftVote::REFUSED : RaftVote::VETO;
      r.term = g.chance(10) ? term + 1 + g.below(3) : g.chance(20) ? term - 1 : term;
      newest = std::max(newest, r.term);
      if(r.vote == RaftVote::GRANTED) last[s] = std::max(last[s], asked);
      d += r.vote == RaftVote::GRANTED ? "G" : r.vote == RaftVote::REFUSED ? "R" : "V";
      reg.registerVote(s, r);
    }
    hist += " " + d;
    // replies took their time
    if(g.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(2000)));
    reg.observeTermsAndLeases(state, l, asked);
    for(auto &s : targets) {
      TP c = l.getHandler(s).get();
      if(c != last[s]) VF_FAIL("lease:votes", "after the votes" << hist << " (Granted, Refused, Veto, Network error, Parse error) the last contact with " << s.toString() << " is off by " << std::chrono::duration_cast<std::chrono::microseconds>(c - last[s]).count() << " us, seed " << seed);
    }
    if(state.getSnapshot()->term != newest) VF_FAIL("lease:votes-term", "term is " << state.getSnapshot()->term << " although " << newest << " was heard of, seed " << seed);
    ctx().eval("v" + d);
    ctx().count("vote_rounds");
    if(g.chance(30)) { RaftServer s = g.pick(targets); TP t = std::chrono::steady_clock::now(); l.getHandler(s).heartbeat(t); last[s] = std::max(last[s], t); }
  }
}

static void leaseThreads(uint64_t seed) {
  Rng g(seed);
  auto targets = pick(g, 2);
  auto dur = std::chrono::milliseconds(500);
  RaftLease l(targets, dur);
  std::atomic<int> done {0};
  auto base = std::chrono::steady_clock::now();
  std::vector<std::thread> th;
  std::vector<std::atomic<int64_t>> about(targets.size()), sure(targets.size());
  for(size_t i = 0; i < targets.size(); i++) th.emplace_back([&, i] {
    Rng r(seed * 13 + i);
    int64_t v = 0;
    for(int k = 0; k < 3000; k++) { v += r.below(50); about[i] = v; l.getHandler(targets[i]).heartbeat(base + std::chrono::microseconds(v)); sure[i] = v; }
    done++;
  });
  std::vector<LogIndex> a(targets.size()), s(targets.size());
  size_t looks = 0;
  bool warm = false;
  while(done < (int) targets.size()) {
    for(size_t i = 0; i < s.size(); i++) s[i] = sure[i];
    auto d = l.getDeadline();
    for(size_t i = 0; i < a.size(); i++) a[i] = about[i];
    warm = true;
    for(auto x : s) warm &= x > 0;
    if(!warm) continue;
    LogIndex lo = supported(s), hi = supported(a);
    if(d < base + dur + std::chrono::microseconds(lo) || d > base + dur + std::chrono::microseconds(hi)) VF_FAIL("lease:race", "the deadline is outside what the heartbeats support, seed " << seed);
    looks++;
  }
  for(auto &x : th) x.join();
  ctx().count("lease_looks", looks);
  ctx().eval(SSTR("l" << seed));
}

struct Lead {
  Rng g;
  uint64_t seed;
  std::vector<std::unique_ptr<FakePeer>> peers;
  std::unique_ptr<FakePeer> obs;
  std::unique_ptr<RaftNode> n;
  RaftTerm term = 0;
  std::string what;
  std::chrono::milliseconds low {1500};

  Lead(uint64_t s) : g(s), seed(s) { }

  // position up to which a peer holds exactly our log
  static LogIndex agreed(FakePeer &p, const std::vector<std::string> &mine) {
    std::scoped_lock l(p.mtx);
    size_t i = 0;
    while(i < p.log.size() && i < mine.size() && p.log[i] == mine[i]) i++;
    return (LogIndex) i - 1;
  }

  void run() {
    size_t members = 2 + g.below(4);
    std::vector<RaftServer> nodes {ME};
    for(size_t i = 1; i < members; i++) { peers.emplace_back(new FakePeer()); nodes.push_back(peers.back()->srv()); }
    obs.reset(new FakePeer());
    n.reset(new RaftNode(freshDir("l") + "/n", nodes, ME, RaftTimeouts(low, std::chrono::milliseconds(2500), std::chrono::milliseconds(50))));
    RaftJournal &j = n->j();
    // history: entries of older terms, not committed
    n->st().observed(3, {});
    std::string err;
    if(g.chance(70)) j.addObserver(1, obs->srv(), err);
    LogIndex committed = j.getLogSize() - 1;
    j.setCommitIndex(committed);
    // many enough at times for whole streamed batches of older entries
    int old = g.chance(35) ? 600 + g.below(900) : g.below(30);
    for(int i = 0; i < old; i++) j.append(j.getLogSize(), RaftEntry(1 + (i > old / 2), RedisRequest{"SET", "k" + std::to_string(i % 5), std::to_string(i)}));
    std::vector<std::string> mine = n->serialized();
    for(auto &p : peers) {
      // they have some of it, and perhaps leftovers of their own
      std::scoped_lock l(p->mtx);
      p->term = 3;
      size_t keep = old < 100 && g.chance(40) ? mine.size() : committed + 1 + g.below(std::min<size_t>(40, mine.size() - committed));
      p->log.assign(mine.begin(), mine.begin() + keep);
      if(g.chance(40)) for(size_t x = 1 + g.below(5); x > 0; x--) p->log.push_back(RaftEntry(3, RedisRequest{"SET", "stale", std::to_string(x)}).serialize());
    }
    { std::scoped_lock l(obs->mtx); obs->log.assign(mine.begin(), mine.begin() + committed + 1); }
    if(!n->ascend()) { VF_FAIL("leader:ascend", "could not become leader"); return; }
    term = n->st().getSnapshot()->term;
    LogIndex marker = n->st().getSnapshot()->leadershipMarker;
    what = SSTR("leader of " << members << " members in term " << term << ", " << old << " older entries, marker at " << marker << ", seed " << seed);
    ctx().current(what);
    // Entries of older terms may reach everybody, but nothing is committed until one of ours does
    bool figure8 = g.chance(60);
    std::atomic<bool> holdOurs {figure8};
    std::atomic<bool> tell {false};
    std::map<FakePeer*, std::atomic<bool>> refuses;       // says no, about a log as long as expected
    for(auto &p : peers) refuses[p.get()] = false;
    for(auto &p : peers) {
      FakePeer *q = p.get();
      q->brain = [&holdOurs, &refuses, q, this](const FakePeer::Args &a, std::string &r) {
        FakePeer::Append ap;
        if(a[0] != "RAFT_APPEND_ENTRIES" || !FakePeer::decode(a, ap)) return false;
        if(refuses[q] && !ap.entries.empty()) { ctx().count("refusals"); r = rbulk({std::to_string(term), std::to_string(ap.prevIndex + 1 + ap.entries.size()), "0", "no"}); return true; }
        if(!holdOurs) return false;
        // takes the older entries, but then loses touch
        for(auto &e : ap.entries) if(FakePeer::le(e) == term) { r = ""; return true; }
        return false;
      };
    }
    n->d();
    n->activate();
    std::atomic<bool> stop {false};
    uint64_t looks = 0;
    std::thread mon([&] {
      LogIndex last = 0;
      while(!stop) {
        LogIndex c = j.getCommitIndex();
        if(c < last) VF_FAIL("leader:back", "commit index went from " << last << " to " << c << ", " << what);
        if(c > last && c > committed) {
          if(c < marker) VF_FAIL("leader:old-term", "entry " << c << " of an older term was committed by itself, " << what);
          std::vector<std::string> log = n->serialized();
          std::vector<LogIndex> m;
          for(auto &p : peers) m.push_back(agreed(*p, log));
          if(c > supported(m)) VF_FAIL("leader:no-quorum", "entry " << c << " was committed, a quorum holds only up to " << supported(m) << ", " << what);
          ctx().count("commits_seen");
        }
        last = c;
        // nobody vouches for a time after hearing from us
        for(auto &p : peers) {
          auto contact = n->g->lease()->getHandler(p->srv()).get();
          auto heard = p->heard();
          if(contact > heard) VF_FAIL("leader:lease-contact", "the lease counts on a peer's word for " << std::chrono::duration_cast<std::chrono::microseconds>(contact - heard).count() << " us after the last request it has answered, " << what);
        }
        looks++;
        std::this_thread::sleep_for(std::chrono::microseconds(300));
      }
    });
    auto settleLogs = [&](const char *when, bool withObs) {
      bool ok = eventually([&] {
        if(j.getCommitIndex() != j.getLogSize() - 1) return false;
        auto log = n->serialized();
        for(auto &p : peers) { std::scoped_lock l(p->mtx); if(p->log != log) return false; }
        if(withObs) { std::scoped_lock l(obs->mtx); if(obs->log != log) return false; }
        return true;
      }, 20000);
      if(!ok) VF_FAIL("leader:stuck", when << ": logs did not converge, commit index " << j.getCommitIndex() << " of " << j.getLogSize() << ", " << what);
      return ok;
    };
    if(figure8) {
      std::this_thread::sleep_for(std::chrono::milliseconds(700));
      if(j.getCommitIndex() != committed) VF_FAIL("leader:old-term", "older entries were committed without one of our own, commit index " << j.getCommitIndex() << ", " << what);
      holdOurs = false;
      for(auto &p : peers) p->online = false;     // drop what was held back
      std::this_thread::sleep_for(std::chrono::milliseconds(30));
      for(auto &p : peers) p->online = true;
      ctx().count("older_entries_withheld");
    }
    bool hasObs = !j.getMembership().observers.empty();
    settleLogs("start", hasObs);
    // writes while peers come and go
    Peer client;
    uint64_t sent = 0;
    std::vector<LogIndex> at;
    for(int r = 0; r < 6 && !ctx().failed(); r++) {
      size_t down = g.below((members - 1) / 2 + 1);       // a quorum stays
      bool noQuorum = g.chance(25);
      if(noQuorum) down = members / 2 + (members % 2 ? 1 : 0);
      if(down > peers.size()) down = peers.size();
      std::vector<size_t> idx;
      for(size_t i = 0; i < peers.size(); i++) idx.push_back(i);
      for(size_t i = idx.size() - 1; i > 0; i--) std::swap(idx[i], idx[g.below(i + 1)]);
      for(size_t i = 0; i < down; i++) { FakePeer &p = *peers[idx[i]]; uint64_t how = g.below(100); if(how < 40) p.holdAppends = true; else if(how < 70) refuses[&p] = true; else p.online = false; }
      noQuorum = 1 + (peers.size() - down) < members / 2 + 1;
      if(noQuorum) std::this_thread::sleep_for(std::chrono::milliseconds(60));   // let it sink in
      LogIndex before = j.getCommitIndex();
      size_t w = 1 + g.below(40);
      LogIndex firstNew = j.getLogSize();
      for(size_t i = 0; i < w; i++) {
        j.append(j.getLogSize(), RaftEntry(term, RedisRequest{"SET", "w", std::to_string(sent++)}));
        if(g.chance(20)) std::this_thread::sleep_for(std::chrono::milliseconds(1));
      }
      if(noQuorum) {
        std::this_thread::sleep_for(std::chrono::milliseconds(150));
        if(j.getCommitIndex() >= firstNew) VF_FAIL("leader:no-quorum", "committed " << j.getCommitIndex() << " without a quorum, " << what);
        ctx().count("rounds_without_quorum");
      }
      else {
        if(!eventually([&] { return j.getCommitIndex() == j.getLogSize() - 1; }, 20000)) VF_FAIL("leader:no-progress", "a quorum is up but the commit index stays at " << j.getCommitIndex() << " of " << j.getLogSize() << " (was " << before << "), " << what);
        ctx().count("rounds_with_quorum");
      }
      for(auto &p : peers) { p->holdAppends = false; p->online = true; refuses[p.get()] = false; }
      if(!settleLogs("all back", hasObs)) break;
      // status reports
      bool ok = eventually([&] {
        ReplicationStatus rs = n->g->replicator()->getStatus();
        if(rs.replicas.size() != peers.size() + hasObs) return false;
        for(auto &p : peers) { if(!rs.contains(p->srv())) return false; auto x = rs.getReplicaStatus(p->srv()); if(!x.online || x.logSize != j.getLogSize() || !x.upToDate(j.getLogSize())) return false; }
        return !rs.shakyQuorum;
      }, 10000);
      if(!ok) VF_FAIL("leader:status", "the status report does not settle, " << what);
      ctx().eval(SSTR(members << ":" << down << ":" << w % 7 << ":" << hasObs << figure8 << r));
    }
    // the lease rests on answers only
    if(!ctx().failed()) {
      size_t silent = peers.size() - g.below(members / 2 + (members % 2));     // lets the quorum go
      if(1 + peers.size() - silent >= members / 2 + 1) silent = peers.size();
      for(size_t i = 0; i < silent; i++) { peers[i]->holdHeartbeats = true; peers[i]->holdAppends = true; }
      std::this_thread::sleep_for(std::chrono::milliseconds(200));
      auto d1 = n->g->lease()->getDeadline();
      std::this_thread::sleep_for(std::chrono::milliseconds(800));    // longer than requests are waited for
      auto d2 = n->g->lease()->getDeadline();
      if(d1 != d2) VF_FAIL("leader:lease-extended", "the lease was extended although a quorum is silent, " << what);
      if(d2 > std::chrono::steady_clock::now() + low) VF_FAIL("leader:lease-long", "the lease reaches too far, " << what);
      // the shaky deadline needs one more
      ReplicationStatus rs = n->g->replicator()->getStatus();
      (void) rs;
      for(auto &p : peers) { p->holdHeartbeats = false; p->holdAppends = false; }
      if(!eventually([&] { return n->g->lease()->getDeadline() > d2 + std::chrono::milliseconds(300); }, 10000)) VF_FAIL("leader:lease-stuck", "the lease is not extended although all peers answer, " << what);
      ctx().count("lease_silences");
    }
    // a newer term ends the leadership, and with it all progress
    if(!ctx().failed()) {
      FakePeer &p = *peers[g.below(peers.size())];
      RaftTerm newer = term + 1 + g.below(3);
      // learned from either kind of reply
      if(g.chance(50)) p.holdAppends = true; else p.holdHeartbeats = true;
      { std::scoped_lock l(p.mtx); p.term = newer; }
      if(!eventually([&] { return n->st().getSnapshot()->status != RaftStatus::LEADER; }, 10000)) VF_FAIL("leader:newer-term", "a newer term was ignored, " << what);
      else if(n->st().getSnapshot()->term != newer || n->j().getCurrentTerm() != newer) VF_FAIL("leader:newer-term", "term " << n->st().getSnapshot()->term << " instead of " << newer);
      n->g->replicator()->deactivate();
      ctx().count("stepped_down");
    }
    stop = true;
    mon.join();
    ctx().count("leader_looks", looks);
    n->g->replicator()->deactivate();
    for(auto &p : peers) p->brain = {};
  }
};

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "tracker");
  uint64_t s = ctx().seed;
  if(mode == "tracker") for(int i = 0; i < ctx().n(12, 20) && !ctx().failed(); i++) tracker(s * 1000003 + i, 400);
  if(mode == "tracker-threads") for(int i = 0; i < ctx().n(6, 20) && !ctx().failed(); i++) trackerThreads(s * 1009 + i);
  if(mode == "lease") for(int i = 0; i < ctx().n(60, 40) && !ctx().failed(); i++) lease(s * 1013 + i, 300);
  if(mode == "lease-votes") for(int i = 0; i < ctx().n(30, 40) && !ctx().failed(); i++) leaseVotes(s * 1031 + i);
  if(mode == "lease-threads") for(int i = 0; i < ctx().n(6, 20) && !ctx().failed(); i++) leaseThreads(s * 1019 + i);
  if(mode == "leader") for(int i = 0; i < ctx().n(4, 6) && !ctx().failed(); i++) { Lead l(s * 1021 + i); l.run(); }
  return ctx().finish();
}
