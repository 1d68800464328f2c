// C18: a follower in a simulated cluster which follows the Raft rules. The real node gets every message
// through its handler (often over a real connection), duplicated, late and reordered; its log, commit
// index, term, membership and replies are compared with the rules (mode history), and with what the
// leaders' logs allow while several threads deliver at once (mode storm).
#include "raft.hh"
#include "raft/RaftMembers.hh"
using namespace vf;
using namespace quarkdb;

static const RaftServer ME("me", 1);

struct Msg { RaftTerm term; int leader; LogIndex prev; RaftTerm prevTerm; LogIndex commit; std::vector<RaftEntry> entries; };

static std::string show(const Msg &m) {
  std::string o = SSTR("append[term " << m.term << " leader " << m.leader << " prev " << m.prev << "/" << m.prevTerm << " commit " << m.commit << " entries");
  for(auto &e : m.entries) o += SSTR(" " << e.term);
  return o + "]";
}
static std::string show(const std::vector<RaftEntry> &l, LogIndex commit) {
  std::string o;
  for(size_t i = 0; i < l.size(); i++) o += SSTR(l[i].term << ((LogIndex) i == commit ? "| " : " "));
  return o;
}

struct VNode {
  RaftTerm term = 0, leads = -1;
  int voted = -1;                       // in `term`
  LogIndex commit = 0;
  std::vector<RaftEntry> log;
  std::vector<LogIndex> match;
  RaftTerm lastTerm() { return log.back().term; }
};

static RedisRequest randomWrite(Rng &g, uint64_t n) {
  std::string v = std::to_string(n) + std::string(g.below(4), '\0') + (g.chance(10) ? std::string(g.below(3000), 'x') : "") + (g.chance(20) ? "\r\n$3\r\n" : "");
  switch(g.below(4)) {
    case 0: return {"HSET", "h" + std::to_string(g.below(3)), "f" + std::to_string(g.below(3)), v};
    case 1: return {"DEL", "k" + std::to_string(g.below(6))};
    default: return {"SET", "k" + std::to_string(g.below(6)), v};
  }
}

struct World {
  Rng g;
  std::vector<RaftServer> nodes;
  std::vector<VNode> v;                // v[0] mirrors the real node
  std::unique_ptr<RaftNode> n;
  std::unique_ptr<Peer> peer;
  RaftServer leader;                   // as the real node should know it
  int64_t start = 0;
  std::vector<Msg> bag;
  std::string trace, dir;
  uint64_t seed, counter = 0;
  int observers = 0;
  bool viaWire;

  World(uint64_t s, bool wire) : g(s), seed(s), viaWire(wire) {
    nodes = {ME, {"b", 2}, {"c", 3}, {"d", 4}, {"e", 5}};
    nodes.resize(g.chance(50) ? 5 : 3);
    dir = freshDir("a") + "/n";
    n.reset(new RaftNode(dir, nodes, ME));
    n->d();
    v.resize(nodes.size());
    RaftEntry first;
    n->j().fetch(0, first);
    for(auto &x : v) x.log = {first};
    connect();
  }
  InFlightTracker tracker;
  void talk(const std::vector<std::string> &c) {
    peer->send(wire(c));
    for(int i = 0; i < 1000 && peer->got.empty(); i++) { peer->conn->processRequests(&n->d(), tracker); peer->pump(i ? 1 : 0); }
  }
  void connect() {
    peer.reset();
    if(!viaWire) return;
    peer.reset(new Peer());
    talk({"RAFT_HANDSHAKE", "x", "cid", n->timeouts.toString()});
    if(!peer->await(1)) { VF_FAIL("wire:handshake", "no reply to the handshake"); return; }
    resp::Val x = peer->take();
    if(x.s != "OK") VF_FAIL("wire:handshake", "handshake refused: " << x.s);
  }
  void fail(const char *key, const std::string &m) {
    VF_FAIL(key, m << "\nreal node should have log " << show(v[0].log, v[0].commit) << " start " << start << " term " << v[0].term << "\nseed " << seed << (trace.size() > 6000 ? "..." + trace.substr(trace.size() - 6000) : trace));
  }
  void say(const std::string &s) { trace += "\n " + s; ctx().current(trace.size() > 4000 ? trace.substr(trace.size() - 4000) : trace); }

  RaftAppendEntriesResponse send(const Msg &m) {
    RaftAppendEntriesResponse r;
    if(!peer || g.chance(40)) {
      RaftAppendEntriesRequest q;
      q.term = m.term; q.leader = nodes[m.leader]; q.prevIndex = m.prev; q.prevTerm = m.prevTerm; q.commitIndex = m.commit; q.entries = m.entries;
      return n->d().appendEntries(std::move(q));
    }
    auto put = [](int64_t x) { std::string s(8, 0); for(int i = 0; i < 8; i++) s[i] = (char) (((uint64_t) x) >> (56 - 8 * i)); return s; };
    std::vector<std::string> q {"RAFT_APPEND_ENTRIES", nodes[m.leader].toString(), put(m.term) + put(m.prev) + put(m.prevTerm) + put(m.commit) + put(m.entries.size())};
    for(auto &e : m.entries) q.push_back(e.serialize());
    talk(q);
    if(!peer->await(1)) { fail("wire:no-reply", "no reply to " + ::show(m)); return r; }
    resp::Val x = peer->take();
    if(x.kids.size() != 4) { fail("wire:reply", "unexpected reply to " + ::show(m)); return r; }
    r.term = atoll(x.kids[0].s.c_str()); r.logSize = atoll(x.kids[1].s.c_str()); r.outcome = x.kids[2].s == "1"; r.err = x.kids[3].s;
    ctx().count("messages_over_a_connection");
    return r;
  }

  // what the rules say about the message
  bool expect(const Msg &m, VNode &x, LogIndex from) {
    if(m.term < x.term) return false;
    if(m.term > x.term) { x.term = m.term; x.voted = -2; }      // the leader is known: no vote to give
    x.leads = -1;
    if(m.prev < from || m.prev >= (LogIndex) x.log.size() || x.log[m.prev].term != m.prevTerm) return false;
    bool cut = false;
    for(size_t i = 0; i < m.entries.size(); i++) {
      size_t at = m.prev + 1 + i;
      if(at < x.log.size() && !cut && x.log[at] != m.entries[i]) { x.log.resize(at); cut = true; }
      if(at >= x.log.size()) x.log.push_back(m.entries[i]);
    }
    if(cut) ctx().count("truncations");
    x.commit = std::max(x.commit, std::min<LogIndex>(m.commit, m.prev + m.entries.size()));
    return true;
  }

  bool check(const char *when) {
    RaftJournal &j = n->j();
    auto s = n->st().getSnapshot();
    if(s->term != v[0].term || j.getCurrentTerm() != v[0].term) { fail("state:term", SSTR(when << ": term is " << s->term << ", in the journal " << j.getCurrentTerm() << ", expected " << v[0].term)); return false; }
    if(j.getLogSize() != (LogIndex) v[0].log.size()) { fail("state:size", SSTR(when << ": log size " << j.getLogSize() << ", expected " << v[0].log.size())); return false; }
    if(j.getCommitIndex() != v[0].commit) { fail("state:commit", SSTR(when << ": commit index " << j.getCommitIndex() << ", expected " << v[0].commit)); return false; }
    if(j.getLogStart() != start) { fail("state:start", SSTR(when << ": log start " << j.getLogStart())); return false; }
    LogIndex from = std::max<LogIndex>(start, g.chance(15) ? 0 : (LogIndex) v[0].log.size() - 12);
    for(LogIndex i = from; i < (LogIndex) v[0].log.size(); i++) {
      RaftEntry e; RaftTerm t = -7;
      if(!j.fetch(i, e).ok() || e != v[0].log[i]) { fail("state:entry", SSTR(when << ": wrong entry at " << i << ": " << e << ", expected " << v[0].log[i])); return false; }
      if(!j.fetch(i, t).ok() || t != e.term) { fail("state:entry-term", SSTR(when << ": wrong term of entry " << i)); return false; }
    }
    RaftEntry e;
    if(j.fetch(v[0].log.size(), e).ok()) { fail("state:beyond", std::string(when) + ": there is an entry beyond the end"); return false; }
    LogIndex ep = 0;
    for(LogIndex i = 0; i < (LogIndex) v[0].log.size(); i++) if(v[0].log[i].request[0] == "JOURNAL_UPDATE_MEMBERS") ep = i;
    std::string want(v[0].log[ep].request[1]);
    RaftMembership mm = j.getMembership();
    if(RaftMembers(mm.nodes, mm.observers).toString() != want || mm.epoch != ep) { fail("state:members", SSTR(when << ": membership " << RaftMembers(mm.nodes, mm.observers).toString() << " epoch " << mm.epoch << ", expected " << want << " epoch " << ep)); return false; }
    LogIndex ap = n->sm().getLastApplied();
    if(ap > v[0].commit) { fail("state:applied", SSTR(when << ": entry " << ap << " was applied while only " << v[0].commit << " is committed")); return false; }
    return true;
  }

  void deliver(const Msg &m) {
    VNode before = v[0];
    bool running = n->st().getSnapshot()->status == RaftStatus::CANDIDATE;
    bool ok = expect(m, v[0], start);
    if(m.term >= before.term) leader = nodes[m.leader];
    say("deliver " + ::show(m) + (ok ? "" : " (to refuse)"));
    RaftAppendEntriesResponse r;
    std::string what;
    if(throws([&] { r = send(m); }, &what)) { fail("append:threw", "a legal message made the node fail: " + what); return; }
    if(r.outcome != ok) { fail("append:outcome", SSTR((r.outcome ? "accepted " : "refused ") << ::show(m) << " (" << r.err << ")")); return; }
    if(r.term != v[0].term) fail("append:term", SSTR("replied with term " << r.term));
    if(r.logSize != (LogIndex) v[0].log.size()) fail("append:reply-size", SSTR("replied with log size " << r.logSize));
    if(!check("after a message")) return;
    auto s = n->st().getSnapshot();
    if(m.term >= before.term && (s->leader != nodes[m.leader] || (s->status != RaftStatus::FOLLOWER && !(running && s->status == RaftStatus::CANDIDATE)))) fail("append:leader", "the leader was not recognized, status " + statusToString(s->status));
    ctx().count(ok ? "accepted" : m.term < before.term ? "refused_old_term" : "refused_mismatch");
    ctx().eval(SSTR(ok << (m.term - before.term) << (m.prev - (LogIndex) before.log.size()) << m.entries.size() << (m.commit - before.commit) << (v[0].log.size() - before.log.size())));
    VNode &l = v[m.leader];
    if(ok && l.leads == m.term) { l.match[0] = std::max<LogIndex>(l.match[0], m.prev + m.entries.size()); advance(m.leader); }
    if(!ok && r.term > l.term) { l.term = r.term; l.voted = -1; l.leads = -1; }
  }
  void advance(int i) {
    VNode &l = v[i];
    for(LogIndex c = l.log.size() - 1; c > l.commit; c--) {
      if(l.log[c].term != l.leads) break;
      size_t k = 1;
      for(size_t o = 0; o < v.size(); o++) if((int) o != i && l.match[o] >= c) k++;
      if(k >= v.size() / 2 + 1) { l.commit = c; if(i == 0) { n->j().setCommitIndex(c); } break; }
    }
  }
  Msg make(int i) {
    VNode &l = v[i];
    Msg m;
    m.term = l.leads; m.leader = i; m.commit = l.commit;
    int64_t last = l.log.size() - 1;
    // mostly somewhere near the end of what the real node has
    m.prev = g.chance(50) ? std::max<int64_t>(0, std::min<int64_t>(last, (int64_t) v[0].log.size() - 1 - (int64_t) g.below(5))) : g.range(0, last);
    m.prevTerm = l.log[m.prev].term;
    size_t k = std::min<size_t>(g.below(6), last - m.prev);
    m.entries.assign(l.log.begin() + m.prev + 1, l.log.begin() + m.prev + 1 + k);
    return m;
  }
  void elect(int c) {
    VNode &x = v[c];
    RaftTerm t = x.term + 1;
    x.leads = -1;
    if(c == 0) {
      bool ok = n->st().observed(t, {}) && n->st().becomeCandidate(t);
      if(!ok) { fail("elect:candidate", "could not become a candidate"); return; }
      leader = {};
    }
    x.term = t; x.voted = c;
    size_t got = 1;
    for(size_t o = 0; o < v.size(); o++) {
      if((int) o == c || g.chance(25)) continue;
      VNode &y = v[o];
      if(o == 0) {
        RaftVoteRequest q;
        q.candidate = nodes[c]; q.term = t; q.lastIndex = x.log.size() - 1; q.lastTerm = x.lastTerm();
        bool isLeading = y.leads >= 0 && t <= y.term;
        RaftVoteResponse r = n->d().requestVote(q);
        if(t > y.term) { y.term = t; y.voted = -1; y.leads = -1; leader = {}; }
        (void) isLeading;
        if(r.vote == RaftVote::GRANTED) { y.voted = c; got++; }
        if(r.term > x.term) { x.term = r.term; x.voted = -1; }
        continue;
      }
      if(t > y.term) { y.term = t; y.voted = -1; y.leads = -1; }
      if(y.term > x.term) { x.term = y.term; x.voted = -1; }
      bool fresh = x.lastTerm() > y.lastTerm() || (x.lastTerm() == y.lastTerm() && x.log.size() >= y.log.size());
      if(y.term == t && y.voted == -1 && fresh) { y.voted = c; got++; }
    }
    bool won = got >= v.size() / 2 + 1 && x.term == t;
    say(SSTR("node " << c << " runs in term " << t << (won ? ", wins" : ", loses")));
    if(c == 0) {
      if(won) {
        if(!n->st().ascend(t)) { fail("elect:ascend", "could not ascend"); return; }
        leader = ME;
      }
      else if(x.term != t) n->st().observed(x.term, {});
      else if(g.chance(60)) n->st().dropOut(t);
    }
    if(won) {
      x.leads = t;
      x.match.assign(v.size(), 0);
      x.log.emplace_back(t, "JOURNAL_LEADERSHIP_MARKER", SSTR(t), nodes[c].toString());
      ctx().count(c == 0 ? "real_node_led" : "leaders");
      if(v[c].log.size() > 1) for(size_t o = 0; o < v.size(); o++) if(v[o].log.size() > x.log.size()) { ctx().count("leaders_with_a_shorter_log"); break; }
    }
    check("after an election");
  }
  void step() {
    int k = g.below(100);
    std::vector<int> lead;
    for(size_t i = 0; i < v.size(); i++) if(v[i].leads >= 0) lead.push_back(i);
    if(lead.empty() || k < 5) { elect(g.below(v.size())); return; }
    int l = lead[g.below(lead.size())];
    VNode &x = v[l];
    if(k < 25) {
      for(size_t c = 1 + g.below(4); c > 0; c--) {
        RaftEntry e(x.leads, randomWrite(g, counter++));
        if(g.chance(8)) {
          LogIndex ep = 0;
          for(size_t i = 0; i < x.log.size(); i++) if(x.log[i].request[0] == "JOURNAL_UPDATE_MEMBERS") ep = i;
          if(ep <= x.commit) {
            RaftMembers mm(std::string(x.log[ep].request[1]));
            std::string err;
            if(mm.observers.empty() || g.chance(50)) mm.addObserver(RaftServer("o", 100 + observers++), err);
            else mm.removeMember(mm.observers[g.below(mm.observers.size())], err);
            e = RaftEntry(x.leads, "JOURNAL_UPDATE_MEMBERS", mm.toString(), "cid");
            ctx().count("membership_entries");
          }
        }
        if(l == 0 && !n->j().append(x.log.size(), e)) { fail("lead:append", "a leader could not append"); return; }
        x.log.push_back(e);
      }
      say(SSTR("leader " << l << " of term " << x.leads << " now has " << ::show(x.log, x.commit)));
    }
    else if(k < 48) {
      // to another virtual node, at once
      size_t o = 1 + g.below(v.size() - 1);
      if((int) o == l) return;
      Msg m = make(l);
      if(g.chance(60)) { m.prev = std::max<int64_t>(0, (int64_t) x.log.size() - 1 - (int64_t) g.below(8)); m.prevTerm = x.log[m.prev].term; m.entries.assign(x.log.begin() + m.prev + 1, x.log.end()); }
      RaftTerm was = v[o].term;
      bool ok = expect(m, v[o], 0);
      if(m.term < was) { x.term = std::max(x.term, was); x.voted = -1; x.leads = -1; if(l == 0) { n->st().observed(was, {}); leader = {}; } return; }
      if(ok) { x.match[o] = std::max<LogIndex>(x.match[o], m.prev + m.entries.size()); advance(l); }
      if(l == 0) say(SSTR("the real node replicates to " << o << ", commit is " << x.commit));
    }
    else if(k < 66) {
      if(l == 0) return;
      for(size_t c = 1 + g.below(3); c > 0; c--) bag.push_back(make(l));
    }
    else if(k < 94) {
      if(bag.empty()) return;
      size_t i = g.chance(40) ? bag.size() - 1 : g.below(bag.size());
      Msg m = bag[i];
      if(g.chance(65)) bag.erase(bag.begin() + i);
      deliver(m);
    }
    else if(k < 96) {
      if(v[0].commit <= start + 1) return;
      LogIndex to = start + 1 + g.below(v[0].commit - start);
      if(to > v[0].commit || !eventually([&] { return n->sm().getLastApplied() >= v[0].commit; })) return;
      n->j().trimUntil(to);
      start = to;
      say(SSTR("trim until " << to));
      ctx().count("trims");
      check("after trimming");
    }
    else if(k < 97) {
      bag.clear();
    }
    else if(k < 98) {
      peer.reset();
      n->reopen();
      n->d();
      v[0].leads = -1;
      leader = {};
      say("restart");
      connect();
      check("after a restart");
      ctx().count("restarts");
    }
    else {
      if(l == 0) return;
      RaftHeartbeatResponse r = n->d().heartbeat({x.leads, nodes[l]});
      bool ok = x.leads >= v[0].term;
      if(x.leads > v[0].term) { v[0].voted = -2; v[0].term = x.leads; }
      if(ok) { v[0].leads = -1; leader = nodes[l]; }
      say(SSTR("heartbeat of leader " << l << " in term " << x.leads));
      if(r.nodeRecognizedAsLeader != ok || r.term != v[0].term) fail("heartbeat:reply", "unexpected reply to a heartbeat");
      check("after a heartbeat");
    }
  }
  // the state machine holds exactly the committed writes
  void settle() {
    if(ctx().failed()) return;
    if(!eventually([&] { return n->sm().getLastApplied() == v[0].commit; })) { fail("apply:stuck", SSTR("only " << n->sm().getLastApplied() << " of " << v[0].commit << " committed entries were applied")); return; }
    std::map<std::string, std::string> kv; std::map<std::string, std::map<std::string, std::string>> h;
    for(LogIndex i = 0; i <= v[0].commit; i++) {
      std::vector<std::string> q;
      for(size_t a = 0; a < v[0].log[i].request.size(); a++) q.emplace_back(v[0].log[i].request[a]);
      if(q[0] == "SET") kv[q[1]] = q[2];
      if(q[0] == "HSET") h[q[1]][q[2]] = q[3];
      if(q[0] == "DEL") kv.erase(q[1]);
    }
    for(int k = 0; k < 6; k++) {
      std::string key = "k" + std::to_string(k), val;
      bool there = n->sm().get(key, val).ok();
      if(there != (bool) kv.count(key) || (there && val != kv[key])) fail("apply:value", "key " + key + " is " + (there ? esc(val) : "missing") + ", expected " + (kv.count(key) ? esc(kv[key]) : "missing"));
      ctx().count("values_compared");
    }
    for(int k = 0; k < 3; k++) for(int f = 0; f < 3; f++) {
      std::string key = "h" + std::to_string(k), fl = "f" + std::to_string(f), val;
      bool there = n->sm().hget(key, fl, val).ok();
      if(there != (bool) h[key].count(fl) || (there && val != h[key][fl])) fail("apply:value", "wrong value in hash " + key);
    }
  }
};

static void history(uint64_t seed, int steps) {
  World w(seed, Rng(seed * 7).chance(60));
  for(int i = 0; i < steps && !ctx().failed(); i++) w.step();
  w.settle();
  ctx().sample(w.trace.substr(0, 2500), 2);
}

// several threads deliver the messages of a sequence of leaders, of all ages
static void storm(uint64_t seed, int rounds) {
  Rng g(seed);
  std::vector<RaftServer> nodes {ME, {"b", 2}, {"c", 3}};
  RaftNode n(freshDir("s") + "/n", nodes, ME);
  n.d();
  RaftEntry first; n.j().fetch(0, first);
  std::vector<RaftEntry> log {first};       // of the current leader; its committed part never changes
  LogIndex committed = 0;
  RaftTerm term = 0;
  std::vector<Msg> old;
  uint64_t counter = 0;
  std::atomic<bool> stop {false};
  std::mutex mtx;                            // guards the known committed entries
  std::vector<RaftEntry> sure {first};
  std::atomic<uint64_t> looks {0};
  std::thread monitor([&] {
    LogIndex last = 0; RaftTerm lt = 0, lu = 0;
    while(!stop) {
      LogIndex ap = n.sm().getLastApplied();
      LogIndex c = n.j().getCommitIndex();
      LogIndex sz = n.j().getLogSize();
      RaftTerm t = n.j().getCurrentTerm();
      if(c < last) VF_FAIL("storm:commit-back", "commit index went from " << last << " to " << c);
      if(ap > c) VF_FAIL("storm:applied", "entry " << ap << " was applied, commit index " << c);
      if(c >= sz) VF_FAIL("storm:commit-beyond", "commit index " << c << " while the log ends at " << sz);
      if(t < lt) VF_FAIL("storm:term-back", "term went from " << lt << " to " << t);
      RaftTerm u = n.st().getSnapshot()->term;
      if(u < lu) VF_FAIL("storm:term-back", "term of the state went from " << lu << " to " << u);
      last = c; lt = t; lu = u;
      std::unique_lock l(mtx);
      if((LogIndex) sure.size() <= c) VF_FAIL("storm:commit-early", "commit index " << c << " while no leader committed more than " << sure.size() - 1);
      else {
        LogIndex i = c - std::min<LogIndex>(c, looks % 7);
        RaftEntry want = sure[i], e;
        l.unlock();
        if(!n.j().fetch(i, e).ok() || e != want) VF_FAIL("storm:committed-entry", "committed entry " << i << " is " << e << ", should be " << want);
      }
      looks++;
    }
  });
  for(int r = 0; r < rounds && !ctx().failed(); r++) {
    // a new leader: keeps what is committed, and some of the rest
    term += 1 + g.below(2);
    int lead = 1 + g.below(2);
    size_t keep = committed + 1 + g.below(log.size() - committed);
    log.resize(keep);
    log.emplace_back(term, "JOURNAL_LEADERSHIP_MARKER", SSTR(term), nodes[lead].toString());
    for(size_t i = g.below(25); i > 0; i--) log.emplace_back(term, randomWrite(g, counter++));
    LogIndex newCommit = committed + g.below(log.size() - committed);
    if(newCommit < (LogIndex) keep) newCommit = committed;      // only entries of its own term
    { std::scoped_lock l(mtx); sure.assign(log.begin(), log.begin() + newCommit + 1); }
    std::vector<Msg> mine;
    for(int i = 0; i < 40; i++) {
      Msg m; m.term = term; m.leader = lead; m.commit = g.chance(70) ? newCommit : committed;
      m.prev = g.below(log.size()); m.prevTerm = log[m.prev].term;
      size_t k = g.below(log.size() - m.prev);
      m.entries.assign(log.begin() + m.prev + 1, log.begin() + m.prev + 1 + k);
      mine.push_back(m);
    }
    std::vector<std::thread> th;
    std::atomic<uint64_t> ok {0}, no {0};
    for(int t = 0; t < 3; t++) th.emplace_back([&, t] {
      Rng q(seed * 101 + r * 7 + t);
      for(int i = 0; i < 30; i++) {
        Msg m = !old.empty() && q.chance(25) ? old[q.below(old.size())] : mine[q.below(mine.size())];
        RaftAppendEntriesRequest a;
        a.term = m.term; a.leader = nodes[m.leader]; a.prevIndex = m.prev; a.prevTerm = m.prevTerm; a.commitIndex = m.commit; a.entries = m.entries;
        std::string what;
        RaftAppendEntriesResponse p;
        if(throws([&] { p = n.d().appendEntries(std::move(a)); }, &what)) { VF_FAIL("storm:threw", "a legal message made the node fail: " << what << " " << show(m)); return; }
        if(p.outcome && m.term < p.term) VF_FAIL("storm:old-term", "accepted " << show(m) << " in term " << p.term);
        (p.outcome ? ok : no)++;
      }
    });
    th.emplace_back([&] {
      Rng q(seed * 103 + r);
      for(int i = 0; i < 40; i++) {
        if(q.chance(70)) n.d().heartbeat({term, nodes[lead]});
        else if(!old.empty()) { auto &m = old[q.below(old.size())]; if(n.d().heartbeat({m.term, nodes[m.leader]}).nodeRecognizedAsLeader && m.term < term && n.st().getSnapshot()->term > m.term) { /* may have been the current term then */ } }
        RaftEntry e;
        n.j().fetch(q.below(n.j().getLogSize()), e);
        n.d().info();
      }
    });
    for(auto &t : th) t.join();
    if(ctx().failed()) break;
    // everything, once more
    RaftAppendEntriesRequest a;
    a.term = term; a.leader = nodes[lead]; a.prevIndex = committed; a.prevTerm = log[committed].term; a.commitIndex = newCommit;
    a.entries.assign(log.begin() + committed + 1, log.end());
    RaftAppendEntriesResponse p = n.d().appendEntries(std::move(a));
    if(!p.outcome) VF_FAIL("storm:refused", "the whole log was refused: " << p.err);
    if(n.j().getLogSize() != (LogIndex) log.size() || n.j().getCommitIndex() != newCommit) VF_FAIL("storm:converge", "log size " << n.j().getLogSize() << " commit " << n.j().getCommitIndex() << " instead of " << log.size() << " and " << newCommit);
    for(size_t i = 0; i < log.size() && !ctx().failed(); i++) { RaftEntry e; if(!n.j().fetch(i, e).ok() || e != log[i]) VF_FAIL("storm:converge-entry", "entry " << i << " is not the leader's"); }
    ctx().eval(SSTR(seed << "/" << r << ":" << ok << "/" << no));
    ctx().count("storm_accepted", ok);
    ctx().count("storm_refused", no);
    committed = newCommit;
    old.insert(old.end(), mine.begin(), mine.begin() + 10);
  }
  stop = true;
  monitor.join();
  if(!ctx().failed() && !eventually([&] { return n.sm().getLastApplied() == n.j().getCommitIndex(); })) VF_FAIL("storm:apply", "committed entries were not applied");
  ctx().count("storm_looks", looks);
}

// A journal is asked which of the entries it is sent it holds already: trimmed, conflicting and future ones among them.
static void compare(uint64_t seed, const std::string &dir) {
  Rng g(seed);
  removeTree(dir);
  RaftJournal j(dir, "cid", {{"a", 1}, {"b", 2}, {"c", 3}}, 0, FsyncPolicy::kAsync);
  std::vector<RaftEntry> log(1);
  LogIndex start = 0, size = 1, commit = 0;
  RaftTerm term = 0;
  uint64_t serial = 0;
  for(int step = 0; step < 150 && !ctx().failed(); step++) {
    size_t k = g.below(100);
    if(k < 40) {
      if(g.chance(20)) { term += 1 + g.below(3); j.setCurrentTerm(term, RaftServer("a", 1)); }
      log.emplace_back(term, randomWrite(g, serial++));
      VF_CHECK(j.append(size, log.back()), "compare:append", "an entry was refused");
      size++;
    }
    else if(k < 48) { commit = g.range(commit, size - 1); j.setCommitIndex(commit); }
    else if(k < 52) { LogIndex to = g.range(start, commit); if(to > start) { j.trimUntil(to); start = to; } }
    else if(k < 55) { if(commit + 1 < size) { LogIndex from = g.range(commit + 1, size - 1); j.removeEntries(from); size = from; log.resize(size); } }
    else {
      // the index before the first one sent must match
      LogIndex prev = g.range(std::max<LogIndex>(0, start - 3), size + 1);
      if(prev > 0) {
        RaftTerm t = prev < size ? log[prev].term : term;
        if(g.chance(40)) t += g.range(-1, 1);
        bool want = prev >= start && prev < size && log[prev].term == t;
        VF_CHECK(j.matchEntries(prev, t) == want, "compare:match", "log from " << start << " to " << size << ": entry " << prev << " in term " << t << (want ? " does not match" : " matches"));
      }
      LogIndex from = g.range(std::max<LogIndex>(1, start - 5), size);
      std::vector<RaftEntry> es;
      size_t n = g.below(12);
      LogIndex differs = -1;
      for(size_t i = 0; i < n; i++) {
        LogIndex at = from + i;
        RaftEntry e = at < size ? log[at] : RaftEntry(term, randomWrite(g, serial++));
        if(at < size && g.chance(8)) {
          if(g.chance(50)) e.term++;
          else e.request = randomWrite(g, serial++);
          if(at >= start && differs < 0 && !(e == log[at])) differs = at;
        }
        es.push_back(e);
      }
      LogIndex want = differs >= 0 ? differs : std::min<LogIndex>(size, from + n), got = j.compareEntries(from, es);
      VF_CHECK(got == want, "compare:entries", "log from " << start << " to " << size << ", " << n << " entries from " << from << " sent: equal up to " << got << " rather than " << want);
      ctx().eval(SSTR("compare " << (from < start ? "trimmed" : from == start ? "start" : "in") << (from + (LogIndex) n > size ? " beyond" : "") << (differs < 0 ? " equal" : " differ") << n));
      ctx().count("comparisons");
    }
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "history");
  uint64_t s = ctx().seed;
  if(mode == "history") for(int i = 0; i < ctx().n(14, 15) && !ctx().failed(); i++) history(s * 1000003 + i, 700);
  if(mode == "storm") for(int i = 0; i < ctx().n(2, 10) && !ctx().failed(); i++) storm(s * 1009 + i, 25);
  if(mode == "compare") for(int i = 0; i < ctx().n(40, 15) && !ctx().failed(); i++) compare(s * 1009 + i, scratch() + "/vf-compare");
  return ctx().finish();
}
