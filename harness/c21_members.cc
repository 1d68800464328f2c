// C21: membership. The set algebra and its text (mode algebra), the journal's gates and rollback (mode
// journal), a leader serving membership commands while peers come and go (mode live), and a follower whose
// log is rewritten by later leaders, watched by readers (mode follower).
#include "raft.hh"
#include "journal_model.hh"
#include "raft/RaftMembers.hh"
#include "Formatter.hh"
using namespace vf;
using namespace quarkdb;

static const RaftServer ME("me", 1);

static std::string show(const RaftMembership &m) { return serializeNodes(m.nodes) + "|" + serializeNodes(m.observers) + "@" + std::to_string(m.epoch); }

static RaftServer anyServer(Rng &g, int n) {
  static const char *hosts[] = {"a", "b", "a.b", "x-1", "127.0.0.1", "server.example.com"};
  int k = g.below(n);
  return RaftServer(hosts[k % 6], 1 + (k / 6) * 7 + (k % 3));
}

static void algebra(uint64_t seed, int steps) {
  Rng g(seed);
  RaftMembers m;
  jm::Mem w;
  for(int i = g.below(5); i >= 0; i--) { RaftServer s = anyServer(g, 30); if(!jm::has(w.nodes, jm::s(s))) { m.nodes.push_back(s); w.nodes.push_back(jm::s(s)); } }
  std::string trace;
  for(int i = 0; i < steps && !ctx().failed(); i++) {
    RaftServer srv = anyServer(g, 12);
    jm::Srv x = jm::s(srv);
    int kind = g.below(4);
    std::string err;
    bool in = jm::has(w.nodes, x), ob = jm::has(w.observers, x), want, got;
    jm::Mem before = w;
    if(kind == 0) { want = !in && !ob; if(want) w.observers.push_back(x); got = m.addObserver(srv, err); }
    else if(kind == 1) { want = ob; if(want) { jm::del(w.observers, x); w.nodes.push_back(x); } got = m.promoteObserver(srv, err); }
    else if(kind == 2) { want = in; if(want) { jm::del(w.nodes, x); w.observers.push_back(x); } got = m.demoteToObserver(srv, err); }
    else { want = in || ob; if(ob) jm::del(w.observers, x); else if(in) jm::del(w.nodes, x); got = m.removeMember(srv, err); }
    trace = SSTR("operation " << kind << " on " << srv.toString() << " with " << jm::str(before));
    if(got != want) VF_FAIL("algebra:outcome", trace << (got ? " accepted" : " refused"));
    if(!got && err.empty()) VF_FAIL("algebra:error", trace << " refused without saying why");
    if(m.toString() != jm::str(w)) VF_FAIL("algebra:set", trace << " gives " << m.toString());
    if(m.nodes.size() != w.nodes.size() || m.observers.size() != w.observers.size()) { VF_FAIL("algebra:set", trace << " lost somebody"); return; }
    if(!w.nodes.empty()) {
      // read into a fresh object, or into one which held another membership
      static RaftMembers reused;
      RaftMembers fresh;
      RaftMembers &back = g.chance(50) ? reused : fresh;
      std::string text = m.toString();
      if(!back.parse(text) || !(back == m)) VF_FAIL("algebra:text", "'" << text << "' does not parse back");
      RaftMembers direct(text);
      if(!(direct == m)) VF_FAIL("algebra:text", "'" << text << "' does not construct back");
      // text which is not a membership
      std::string bad = text;
      switch(g.below(6)) {
        case 0: bad = serializeNodes(m.nodes); break;
        case 1: bad += "|"; break;
        case 2: bad = "|" + serializeNodes(m.nodes); break;
        case 3: bad = "x:" + bad; break;
        case 4: bad += ",y"; break;
        default: bad = bad.substr(0, bad.find(':')) + "|"; break;
      }
      RaftMembers b;
      if(b.parse(bad)) VF_FAIL("algebra:malformed", "'" << bad << "' was accepted as " << b.toString());
      if(!throws([&] { RaftMembers c(bad); })) VF_FAIL("algebra:malformed", "'" << bad << "' was constructed");
      RaftMembership ms {m.nodes, m.observers, 5};
      for(int k = 0; k < 12; k++) {
        RaftServer s = anyServer(g, 12);
        if(ms.contains(s) != (jm::has(w.nodes, jm::s(s)) || jm::has(w.observers, jm::s(s)))) VF_FAIL("algebra:contains", "contains(" << s.toString() << ") is wrong for " << text);
      }
      if(ms.inLimbo()) VF_FAIL("algebra:limbo", text << " is not limbo");
    }
    ctx().eval(SSTR(kind << want << w.nodes.size() << w.observers.size()));
  }
  RaftMembers limbo = RaftMembers::LimboMembers();
  RaftMembership l {limbo.nodes, limbo.observers, 0};
  RaftMembers back;
  if(!l.inLimbo() || !back.parse(limbo.toString()) || !(back == limbo)) VF_FAIL("algebra:limbo", "the initial membership does not round-trip");
}

static void journalMode(uint64_t seed, int steps) {
  Rng g(seed);
  std::string dir = freshDir("j") + "/j";
  jm::Model m;
  std::vector<jm::Srv> nodes;
  for(int i = g.below(4); i >= 0; i--) { jm::Srv x = jm::s(anyServer(g, 30)); if(!jm::has(nodes, x)) nodes.push_back(x); }
  std::vector<RaftServer> rn;
  for(auto &x : nodes) rn.push_back(jm::r(x));
  LogIndex start = g.chance(30) ? g.below(50) : 0;
  m.init("cid", nodes, start, FsyncPolicy::kAsync);
  RaftJournal::ObliterateAndReinitializeJournal(dir, "cid", rn, start, FsyncPolicy::kAsync);
  std::unique_ptr<RaftJournal> j(new RaftJournal(dir));
  std::string trace = SSTR("start " << start << " members " << jm::str(m.members));
  for(int i = 0; i < steps && !ctx().failed(); i++) {
    int k = g.below(100);
    RaftServer srv = anyServer(g, 14);
    ctx().current(trace.substr(trace.size() > 3000 ? trace.size() - 3000 : 0));
    if(k < 45) {
      // the model's kinds: add observer, promote, demote, remove
      int kind = g.below(4);
      if(kind == 3 && m.members.nodes.size() < 2) kind = 0;     // the dispatcher never removes the last one
      if(kind == 2 && m.members.nodes.size() < 2) kind = 0;
      RaftTerm t = g.chance(90) ? m.term : m.term + g.range(-1, 1);
      std::string err;
      bool want = m.membership(kind, t, jm::s(srv)), got;
      if(kind == 0) got = j->addObserver(t, srv, err);
      else if(kind == 1) got = j->promoteObserver(t, srv, err);
      else if(kind == 2) got = j->demoteToObserver(t, srv, err);
      else got = j->removeMember(t, srv, err);
      trace += SSTR("\n" << kind << " " << srv.toString() << " in term " << t << (got ? " ok" : " refused"));
      if(got != want) VF_FAIL("journal:gate", "a membership change was " << (got ? "accepted" : "refused: " + err) << ", seed " << seed << ": " << trace);
      ctx().count(got ? "changes" : "changes_refused");
    }
    else if(k < 60) { int64_t to = m.commit + g.below(m.size - m.commit); m.setCommit(to); j->setCommitIndex(to); trace += SSTR("\ncommit " << to); }
    else if(k < 72) {
      if(m.commit + 1 < m.size) {
        int64_t from = m.commit + 1 + g.below(m.size - m.commit);
        m.remove(from);
        j->removeEntries(from);
        trace += SSTR("\nremove from " << from);
        ctx().count("truncations");
      }
    }
    else if(k < 82) { jm::Entry e{m.term, {"SET", "a", std::to_string(i)}}; m.append(m.size, e); j->append(j->getLogSize(), jm::toReal(e)); trace += "\nappend"; }
    else if(k < 86) {
      // an update of another cluster's membership means nothing to us
      jm::Entry e{m.term, {"JOURNAL_UPDATE_MEMBERS", "q:1,r:2|", "other"}};
      m.append(m.size, e);
      j->append(j->getLogSize(), jm::toReal(e));
      trace += "\nappend an update of another cluster";
    }
    else if(k < 92) { int64_t t = m.term + g.below(2); jm::Srv v = g.chance(50) ? jm::Srv("v", 1) : jm::Srv("", 0); if(m.setTerm(t, v)) j->setCurrentTerm(t, jm::r(v)); trace += SSTR("\nterm " << t); }
    else if(k < 95) { int64_t to = m.start + g.below(m.commit - m.start + 1); m.trim(to); j->trimUntil(to); trace += SSTR("\ntrim " << to); }
    else { j.reset(); j.reset(new RaftJournal(dir)); trace += "\nreopen"; ctx().count("reopened"); }
    std::string d = jm::compare(m, *j, g.chance(8));
    if(!d.empty()) VF_FAIL("journal:state", d << " seed " << seed << ": " << trace);
    ctx().eval(SSTR(jm::str(m.members) << (m.commit < m.epoch)));
  }
}

struct Live {
  Rng g;
  uint64_t seed;
  std::vector<std::unique_ptr<FakePeer>> peers;      // everybody who ever takes part
  std::unique_ptr<RaftNode> n;
  std::unique_ptr<Peer> client;
  InFlightTracker tracker;
  jm::Mem want;                                      // nodes, observers
  std::string what;
  RaftTerm term = 0;

  Live(uint64_t s) : g(s), seed(s) { }

  resp::Val talk(const std::vector<std::string> &c) {
    client->send(wire(c));
    for(int i = 0; i < 2000 && client->got.empty(); i++) { client->conn->processRequests(&n->d(), tracker); client->pump(i ? 1 : 0); }
    if(!client->await(1, 10000)) { VF_FAIL("live:reply", "no reply to " << vf::show(c) << ", " << what); return {}; }
    return client->take();
  }
  FakePeer *peer(const jm::Srv &s) { for(auto &p : peers) if(jm::s(p->srv()) == s) return p.get(); return nullptr; }
  static bool answering(FakePeer *p) { return p && p->online && !p->holdAppends; }
  bool statusSettled(std::string &why) {
    // every target is reported the way it is
    ReplicationStatus rs = n->g->replicator()->getStatus();
    std::vector<jm::Srv> all = want.nodes;
    for(auto &o : want.observers) all.push_back(o);
    if(rs.replicas.size() + 1 != all.size()) { why = SSTR(rs.replicas.size() << " targets instead of " << all.size() - 1); return false; }
    for(auto &s : all) {
      if(s == jm::s(ME)) continue;
      if(!rs.contains(jm::r(s))) { why = "no target " + jm::str(s); return false; }
      auto x = rs.getReplicaStatus(jm::r(s));
      bool up = answering(peer(s));
      if(x.online != up) { why = jm::str(s) + (up ? " is up but reported offline" : " is down but reported online"); return false; }
      if(up && x.logSize != n->j().getLogSize()) { why = SSTR(jm::str(s) << " is up but lags: " << x.logSize << " of " << n->j().getLogSize() << ", really " << peer(s)->logSize()); return false; }
    }
    return true;
  }
  size_t alive() { size_t a = 1; for(auto &s : want.nodes) if(!(s == jm::s(ME)) && answering(peer(s))) a++; return a; }
  bool quorum() { return alive() >= want.nodes.size() / 2 + 1; }

  void checkLog(const char *when) {
    // the membership is what the last update in the log says
    RaftMembership m = n->j().getMembership();
    LogIndex epoch = -1;
    std::string text;
    for(LogIndex i = n->j().getLogStart(); i < n->j().getLogSize(); i++) {
      RaftEntry e;
      if(!n->j().fetch(i, e).ok()) { VF_FAIL("live:log", "entry " << i << " is missing, " << what); return; }
      if(e.request[0] == "JOURNAL_UPDATE_MEMBERS") { epoch = i; text = std::string(e.request[1]); }
    }
    std::string have = serializeNodes(m.nodes) + "|" + serializeNodes(m.observers);
    if(text != have || epoch != m.epoch) VF_FAIL("live:log", when << ": membership " << show(m) << " but the log says " << text << "@" << epoch << ", " << what);
    if(have != jm::str(want)) VF_FAIL("live:set", when << ": membership is " << have << " instead of " << jm::str(want) << ", " << what);
  }

  void run(bool lag) {
    size_t members = 1 + g.below(5);
    for(size_t i = 0; i < members + 3; i++) { peers.emplace_back(new FakePeer()); peers.back()->online = i + 1 < members; }
    std::vector<RaftServer> nodes {ME};
    for(size_t i = 0; i + 1 < members; i++) nodes.push_back(peers[i]->srv());
    for(auto &x : nodes) want.nodes.push_back(jm::s(x));
    n.reset(new RaftNode(freshDir("l") + "/n", nodes, ME, RaftTimeouts(std::chrono::milliseconds(3000), std::chrono::milliseconds(4000), std::chrono::milliseconds(40))));
    RaftEntry first;
    n->j().fetch(0, first);
    for(auto &p : peers) p->log = {first.serialize()};
    client.reset(new Peer());
    what = SSTR(members << " members, seed " << seed);
    n->d();
    if(g.chance(40)) {
      auto r = talk({"RAFT_ADD_OBSERVER", "obs:1"});
      if(r.type != '-') VF_FAIL("live:not-leader", "a membership change was accepted by a node which does not lead, " << what);
    }
    bool early = g.chance(50) && members > 1;
    if(early) for(auto &p : peers) p->holdAppends = true;
    if(!n->ascend()) { VF_FAIL("live:ascend", "could not become leader, " << what); return; }
    term = n->st().getSnapshot()->term;
    LogIndex marker = n->st().getSnapshot()->leadershipMarker;
    if(g.chance(40)) {
      // the replicator is not running yet
      std::string cmd = g.pick<std::string>({"RAFT_ADD_OBSERVER", "RAFT_REMOVE_MEMBER", "RAFT_PROMOTE_OBSERVER", "RAFT_DEMOTE_TO_OBSERVER"});
      ctx().current("before activation: " + cmd);
      RaftServer t = peers[g.below(peers.size())]->srv();
      auto r = talk({cmd, t.toString()});
      if(n->j().getCommitIndex() < marker && r.type != '-') VF_FAIL("live:early", cmd << " was accepted before the leader committed an entry of its own term, " << what);
      if(r.type == '+') { want = jm::Mem(); for(auto &x : n->j().getMembership().nodes) want.nodes.push_back(jm::s(x)); for(auto &x : n->j().getMembership().observers) want.observers.push_back(jm::s(x)); }
      ctx().count("before_activation");
    }
    n->activate();
    if(early) {
      // Nothing of our own term is committed: some other leader's change may be pending elsewhere
      for(int i = 0; i < 3; i++) {
        RaftServer t = peers[g.below(peers.size())]->srv();
        std::string cmd = g.pick<std::string>({"RAFT_ADD_OBSERVER", "RAFT_REMOVE_MEMBER", "RAFT_PROMOTE_OBSERVER", "RAFT_DEMOTE_TO_OBSERVER"});
        if(i == 2) { std::this_thread::sleep_for(std::chrono::milliseconds(60)); cmd = "RAFT_ADD_OBSERVER"; t = peers.back()->srv(); }
        auto r = talk({cmd, t.toString()});
        if(n->j().getCommitIndex() < marker && r.type != '-') VF_FAIL("live:early", cmd << " was accepted before the leader committed an entry of its own term, " << what);
      }
      ctx().count("before_own_commit");
      for(auto &p : peers) p->holdAppends = false;
    }
    if(!eventually([&] { return n->j().getCommitIndex() >= marker; }, 20000)) { VF_FAIL("live:stuck", "the leader does not commit its first entry, " << what); return; }
    // clients write all along
    std::atomic<bool> stop {false};
    std::atomic<uint64_t> wrote {0};
    std::atomic<bool> still {false};
    std::thread writer([&] {
      Peer c;
      InFlightTracker t;
      uint64_t i = 0;
      while(!stop) {
        if(!still) c.send(wire({"SET", "k" + std::to_string(i % 7), std::to_string(i)}));
        i++;
        c.conn->processRequests(&n->d(), t);
        c.pump();
        if(c.malformed) VF_FAIL("live:writer", "garbled replies");
        for(auto &v : c.got) if(v.type == '+') wrote++;
        c.got.clear();
        std::this_thread::sleep_for(std::chrono::milliseconds(1 + i % 3));
      }
      n->g->writeTracker()->flushQueues(Formatter::err("over"));
    });
    for(int step = 0; step < (lag ? 3 : 20) && !ctx().failed(); step++) {
      // somebody comes or goes; seldom so many that nothing can be committed
      if(step && g.chance(55)) {
        FakePeer &p = *peers[g.below(peers.size())];
        if(answering(&p)) { if(g.chance(88)) p.online = false; else p.holdAppends = true; if(!quorum() && g.chance(60)) { p.online = true; p.holdAppends = false; } }
        else { p.online = true; p.holdAppends = false; }
      }
      std::string why;
      // wait until what the leader reports is the truth (all entries replicated or not replicable)
      still = true;
      if(!eventually([&] { return statusSettled(why); }, 15000)) { VF_FAIL("live:status", "the replication status does not settle: " << why << ", " << what); break; }
      still = false;
      bool pendingBefore = n->j().getCommitIndex() < n->j().getMembership().epoch;
      bool canCommit = quorum();
      // what to ask
      int kind = g.below(4);
      jm::Srv x = jm::s(peers[g.below(peers.size())]->srv());
      // mostly what makes sense for that one
      if(g.chance(75)) kind = jm::has(want.nodes, x) ? 2 + g.below(2) : jm::has(want.observers, x) ? (g.chance(80) ? 1 : 3) : 0;
      int bad = g.below(100);
      static const char *cmds[] = {"RAFT_ADD_OBSERVER", "RAFT_PROMOTE_OBSERVER", "RAFT_DEMOTE_TO_OBSERVER", "RAFT_REMOVE_MEMBER"};
      std::vector<std::string> req {cmds[kind], jm::str(x)};
      bool invalid = true;
      if(bad < 4) req[1] = ME.toString();
      else if(bad < 8) req[1] = g.pick<std::string>({"a", "a:", ":1:2", "a:b", "127.0.0.1:x"});
      else if(bad < 11) req.push_back("more");
      else if(bad < 13) req.pop_back();
      else if(bad < 20) { x = {"unknown", 1000}; req[1] = jm::str(x); invalid = kind != 0; }
      else if(bad < 21) req[1] = "?" + g.bytes(20);
      else invalid = false;
      if(!invalid && kind == 0 && x.first == "unknown") { x = jm::s(peers.back()->srv()); req[1] = jm::str(x); }
      bool isNode = jm::has(want.nodes, x), isObs = jm::has(want.observers, x);
      jm::Mem next = want;
      bool acceptable = !invalid;
      if(acceptable) {
        if(kind == 0) { acceptable = !isNode && !isObs; if(acceptable) next.observers.push_back(x); }
        if(kind == 1) { acceptable = isObs && answering(peer(x)); if(isObs) { jm::del(next.observers, x); next.nodes.push_back(x); } }
        if(kind == 2) { acceptable = isNode; if(isNode) { jm::del(next.nodes, x); next.observers.push_back(x); } }
        if(kind == 3) { acceptable = isNode || isObs; if(isObs) jm::del(next.observers, x); else if(isNode) jm::del(next.nodes, x); }
        if(kind >= 2 && acceptable) {
          size_t up = 1;
          for(auto &s : next.nodes) if(!(s == jm::s(ME)) && answering(peer(s))) up++;
          if(next.nodes.size() > 1 && up < next.nodes.size() / 2 + 1) acceptable = false;
        }
      }
      ctx().current(SSTR(vf::show(req) << " with " << jm::str(want) << ", " << what));
      auto r = talk(req);
      bool pendingAfter = n->j().getCommitIndex() < n->j().getMembership().epoch;
      if(r.type != '+' && r.type != '-') VF_FAIL("live:reply", "unexpected reply to " << vf::show(req) << ", " << what);
      bool ok = r.type == '+';
      std::string ctxt = SSTR(vf::show(req) << " with members " << jm::str(want) << ", " << alive() << " alive, reply '" << r.s << "', " << what);
      if(ok && (!acceptable || (pendingBefore && pendingAfter && !canCommit))) VF_FAIL(std::string("live:accepted:") + cmds[kind], "accepted: " << ctxt);
      if(!ok && acceptable && !pendingBefore) VF_FAIL(std::string("live:refused:") + cmds[kind], "refused: " << ctxt);
      if(ok) {
        jm::Mem old = want;
        want = next;
        LogIndex epoch = n->j().getMembership().epoch;
        checkLog("after a change");
        ctx().count(SSTR("accepted_" << kind));
        // committed by a quorum of the new set
        if(quorum()) {
          if(!eventually([&] { return n->j().getCommitIndex() >= epoch; }, 20000)) VF_FAIL("live:commit", "the change is never committed although a quorum of the new set is up: " << ctxt);
          std::vector<std::string> log = n->serialized();
          // Majorities of the set before and after always overlap: either will do for the change itself
          size_t have = 1, haveOld = 1;
          auto holds = [&](const jm::Srv &s) {
            FakePeer *p = peer(s);
            if(!p) return false;
            std::scoped_lock l(p->mtx);
            return (LogIndex) p->log.size() > epoch && p->log[epoch] == log[epoch];
          };
          for(auto &s : old.nodes) haveOld += holds(s);
          for(auto &s : want.nodes) have += holds(s);
          if(have < want.nodes.size() / 2 + 1 && haveOld < old.nodes.size() / 2 + 1) VF_FAIL("live:quorum", "the change was committed with " << have << " copies only: " << ctxt);
        }
        else {
          std::this_thread::sleep_for(std::chrono::milliseconds(80));
          size_t up = 1;
          for(auto &s : old.nodes) if(!(s == jm::s(ME)) && answering(peer(s))) up++;
          bool oldQuorum = up >= old.nodes.size() / 2 + 1, done = n->j().getCommitIndex() >= epoch;
          if(done && !oldQuorum) VF_FAIL("live:quorum", "the change was committed without a quorum of either set: " << ctxt);
          // and nothing else may change meanwhile
          jm::Srv y = jm::s(peers[g.below(peers.size())]->srv());
          std::vector<std::string> second {cmds[g.below(4)], jm::str(y)};
          if(!done && talk(second).type == '+') VF_FAIL("live:second", vf::show(second) << " was accepted while a change is pending: " << ctxt);
          ctx().count("second_refused");
          checkLog("after a refused second change");
          for(auto &p : peers) { p->online = true; p->holdAppends = false; }
          if(!eventually([&] { return n->j().getCommitIndex() >= epoch; }, 20000)) VF_FAIL("live:commit", "the change is never committed: " << ctxt);
        }
        // those who left are left alone
        if(kind == 3) {
          FakePeer *p = peer(x);
          if(answering(p)) {
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
            int64_t a = p->appends, h = p->heartbeats;
            std::this_thread::sleep_for(std::chrono::milliseconds(100));
            if(p->appends != a || p->heartbeats != h) VF_FAIL("live:removed", "a removed member is still being sent to: " << ctxt);
          }
        }
      }
      else { checkLog("after a refusal"); ctx().count("refused"); }
      // progress follows the current set, and only the full members
      if(!ctx().failed() && g.chance(50)) {
        still = true;
        LogIndex at = n->j().getLogSize();
        talk({"RAFT_FETCH_LAST", "1"});
        Peer c;
        InFlightTracker t;
        c.send(wire({"SET", "probe", std::to_string(step)}));
        for(int i = 0; i < 100 && n->j().getLogSize() == at; i++) { c.conn->processRequests(&n->d(), t); std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
        at = n->j().getLogSize() - 1;
        if(quorum()) { if(!eventually([&] { return n->j().getCommitIndex() >= at; }, 15000)) VF_FAIL("live:progress", "a quorum is up, but nothing is committed: " << ctxt); }
        else {
          std::this_thread::sleep_for(std::chrono::milliseconds(100));
          if(n->j().getCommitIndex() >= at) VF_FAIL("live:quorum", "committed without a quorum: " << ctxt << ", then " << jm::str(want) << " with " << alive() << " alive");
          ctx().count("no_progress");
        }
        n->g->writeTracker()->flushQueues(Formatter::err("over"));
        still = false;
      }
      ctx().eval(SSTR(kind << bad / 7 << ok << acceptable << pendingBefore << want.nodes.size() << want.observers.size() << alive()));
    }
    stop = true;
    writer.join();
    if(lag && !ctx().failed()) lagging();
    // what was decided is remembered
    n->g->replicator()->deactivate();
    client.reset();
    auto before = n->j().getMembership();
    n->reopen();
    if(!(n->j().getMembership() == before)) VF_FAIL("live:reopen", "membership " << show(n->j().getMembership()) << " instead of " << show(before) << " after a restart, " << what);
    ctx().count("writes", wrote);
  }

  // an observer far behind is not to be promoted
  void lagging() {
    for(auto &p : peers) { p->online = true; p->holdAppends = false; }
    RaftJournal &j = n->j();
    FakePeer late;
    std::atomic<bool> behind {true};
    late.brain = [&](const FakePeer::Args &a, std::string &r) {
      if(a[0] != "RAFT_APPEND_ENTRIES" || !behind) return false;
      r = rbulk({std::to_string(term), "2", "0", "Log entry mismatch"});
      return true;
    };
    RaftEntry first;
    j.fetch(0, first);
    late.log = {first.serialize()};
    for(int i = 0; i < 30100; i++) j.append(j.getLogSize(), RaftEntry(term, RedisRequest{"SET", "many", std::to_string(i)}));
    eventually([&] { return j.getCommitIndex() == j.getLogSize() - 1; }, 30000);
    auto r = talk({"RAFT_ADD_OBSERVER", late.name()});
    if(r.type != '+') { VF_FAIL("live:refused:lag", "the observer was refused: " << r.s << ", " << what); return; }
    if(!eventually([&] { auto rs = n->g->replicator()->getStatus(); return rs.contains(late.srv()) && rs.getReplicaStatus(late.srv()).online; }, 15000)) { VF_FAIL("live:status", "the observer is never seen, " << what); return; }
    eventually([&] { return j.getCommitIndex() == j.getLogSize() - 1; }, 30000);
    for(int i = 0; i < 5; i++) {
      r = talk({"RAFT_PROMOTE_OBSERVER", late.name()});
      if(r.type == '+') { VF_FAIL("live:accepted:lag", "an observer 30000 entries behind was promoted, " << what); return; }
      std::this_thread::sleep_for(std::chrono::milliseconds(20));
    }
    behind = false;
    if(!eventually([&] { auto rs = n->g->replicator()->getStatus(); return rs.getReplicaStatus(late.srv()).logSize == j.getLogSize(); }, 60000)) { VF_FAIL("live:status", "the observer does not catch up, " << what); return; }
    r = talk({"RAFT_PROMOTE_OBSERVER", late.name()});
    if(r.type != '+') VF_FAIL("live:refused:lag", "an observer which caught up was not promoted: " << r.s << ", " << what);
    ctx().count("lagging_observers");
    ctx().eval(SSTR("lag" << seed));
    n->g->replicator()->deactivate();
  }
};

// the log of a follower is written by a sequence of leaders, each of which may have lost the previous one's
// uncommitted entries
static void follower(uint64_t seed, int steps) {
  Rng g(seed);
  std::vector<RaftServer> nodes {ME, {"b", 2}, {"c", 3}};
  bool limbo = g.chance(30);
  std::unique_ptr<RaftNode> n(new RaftNode(freshDir("f") + "/n", limbo ? std::vector<RaftServer>{RaftServer::Null()} : nodes, ME));
  n->d();
  struct Known { LogIndex index; std::string text; };
  std::vector<RaftEntry> log(1);
  n->j().fetch(0, log[0]);
  std::vector<Known> updates {{0, std::string(log[0].request[1])}};
  LogIndex commit = 0;
  RaftTerm term = 0;
  std::string trace = SSTR("seed " << seed);
  std::mutex mtx;
  std::set<std::string> legal {show(n->j().getMembership())};
  std::atomic<bool> stop {false};
  std::atomic<bool> paused {false}, idle {false};
  std::thread reader([&] {
    uint64_t looks = 0;
    while(!stop) {
      if(paused) { idle = true; while(paused && !stop) std::this_thread::sleep_for(std::chrono::microseconds(100)); idle = false; continue; }
      RaftMembership m = n->j().getMembership();
      std::scoped_lock l(mtx);
      if(!legal.count(show(m))) VF_FAIL("follower:torn", "a reader saw " << show(m) << ", which never was the membership; " << trace);
      looks++;
    }
    ctx().count("reader_looks", looks);
  });
  for(int i = 0; i < steps && !ctx().failed(); i++) {
    // a new leader, or the same one going on
    bool fresh = term == 0 || g.chance(30);
    if(fresh) term++;
    RaftServer leader = nodes[1 + term % 2];
    LogIndex keep = fresh ? commit + g.below(log.size() - commit) : (LogIndex) log.size() - 1;
    std::vector<RaftEntry> next(log.begin(), log.begin() + keep + 1);
    std::vector<Known> nu;
    for(auto &u : updates) if(u.index <= keep) nu.push_back(u);
    std::vector<RaftEntry> add;
    for(int k = g.below(4); k > 0 || add.empty(); k--) {
      // a leader has the previous change committed before it makes another
      bool pending = nu.back().index > commit;
      if(g.chance(50) && !pending) {
        RaftMembers m;
        if(nu.size() == 1 && limbo) m.nodes = nodes;
        else m.parse(nu.back().text);
        std::string err;
        RaftServer s("o" + std::to_string(g.below(6)), 7);
        switch(g.below(3)) { case 0: m.addObserver(s, err); break; case 1: m.removeMember(s, err); break; default: m.promoteObserver(s, err); }
        nu.push_back({(LogIndex) (next.size() + add.size()), m.toString()});
        add.push_back(RaftEntry(term, "JOURNAL_UPDATE_MEMBERS", m.toString(), "cid"));
      }
      else add.push_back(RaftEntry(term, RedisRequest{"SET", "k", std::to_string(i)}));
    }
    LogIndex newCommit = g.chance(50) ? commit : commit + g.below(keep + 1 + add.size() - commit);
    RaftAppendEntriesRequest r;
    r.term = term; r.leader = leader; r.prevIndex = keep; r.prevTerm = log[keep].term; r.commitIndex = newCommit; r.entries = add;
    for(auto &e : add) next.push_back(e);
    bool removes = keep + 1 < (LogIndex) log.size();
    {
      std::scoped_lock l(mtx);
      // also every intermediate state: the rollback, and each update
      std::vector<Known> kept;
      for(auto &u : updates) if(u.index <= keep) kept.push_back(u);
      auto text = [&](const Known &u) { return u.text + "@" + std::to_string(u.index); };
      if(removes) legal.insert(text(kept.back()));
      for(auto &u : nu) if(u.index > keep) legal.insert(text(u));
      trace += SSTR("\nleader of term " << term << " after " << keep << " sends " << add.size() << " entries, last update at " << nu.back().index << ", commit " << newCommit);
    }
    ctx().current(trace.substr(trace.size() > 3000 ? trace.size() - 3000 : 0));
    auto reply = n->d().appendEntries(std::move(r));
    if(!reply.outcome) { VF_FAIL("follower:append", "refused: " << reply.err << "; " << trace); break; }
    log = next; updates = nu; commit = newCommit;
    std::string wantText = updates.back().text + "@" + std::to_string(updates.back().index);
    if(g.chance(6)) {
      paused = true;
      while(!idle) std::this_thread::sleep_for(std::chrono::microseconds(100));
      n->reopen();
      n->d();
      paused = false;
      trace += "\nrestart";
      ctx().count("restarts");
    }
    RaftMembership m = n->j().getMembership();
    if(show(m) != wantText) VF_FAIL("follower:membership", "membership " << show(m) << " instead of " << wantText << "; " << trace);
    bool inLimbo = limbo && updates.size() == 1;
    if(m.inLimbo() != inLimbo) VF_FAIL("follower:limbo", "limbo state is wrong; " << trace);
    if(n->j().getEpoch() != updates.back().index) VF_FAIL("follower:epoch", "epoch " << n->j().getEpoch() << "; " << trace);
    if(removes) ctx().count("rewritten");
    ctx().eval(SSTR(wantText << removes << fresh));
  }
  stop = true;
  reader.join();
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "algebra");
  uint64_t s = ctx().seed;
  if(mode == "algebra") for(int i = 0; i < ctx().n(40, 40) && !ctx().failed(); i++) algebra(s * 1000003 + i, 150);
  if(mode == "journal") for(int i = 0; i < ctx().n(10, 30) && !ctx().failed(); i++) journalMode(s * 1009 + i, 150);
  if(mode == "live") for(int i = 0; i < ctx().n(3, 10) && !ctx().failed(); i++) { Live l(s * 1013 + i); l.run(false); }
  if(mode == "lag") for(int i = 0; i < ctx().n(1, 3) && !ctx().failed(); i++) { Live l(s * 1019 + i); l.run(true); }
  if(mode == "follower") for(int i = 0; i < ctx().n(6, 20) && !ctx().failed(); i++) follower(s * 1021 + i, 60);
  return ctx().finish();
}
