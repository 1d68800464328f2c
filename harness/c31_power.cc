// C31: what a journal still holds once everything which was not synced is gone.
//  journal   random operations on a journal, power lost after and in the middle of them
//  threads   the same from several threads
//  node      a raft node answering vote requests, heartbeats and entries: an answer is a promise
//  client    a node alone, serving clients under the strictest policy
//  periodic  the sync which happens every second
#include "node.hh"
#include "raft.hh"
#include "crashfs.hh"
#include "pubsub/Publisher.hh"
#include <dirent.h>
#include <fcntl.h>
using namespace vf;
using namespace quarkdb;

static thread_local bool imaging = false;

// What the disk would hold now. keepMore: bytes which were not synced may have made it, too.
static void image(const std::string &from, const std::string &to, Rng &g, bool keepMore) {
  imaging = true;
  crashfs::Picture still;
  std::map<std::string, crashfs::FileInfo> known;
  { std::scoped_lock l(crashfs::mtx); known = crashfs::files(); }
  std::function<void(const std::string&, const std::string&)> rec = [&](const std::string &a, const std::string &b) {
    mkdir(b.c_str(), 0755);
    DIR *d = opendir(a.c_str());
    if(!d) return;
    while(dirent *e = readdir(d)) {
      std::string n = e->d_name, p = a + "/" + n;
      struct stat st;
      if(n == "." || n == ".." || n == "LOCK" || n.compare(0, 3, "LOG") == 0 || lstat(p.c_str(), &st) != 0) continue;
      if(S_ISDIR(st.st_mode)) { rec(p, b + "/" + n); continue; }
      int64_t len = st.st_size;
      auto it = known.find(p);
      if(it != known.end()) {
        len = std::min<int64_t>(it->second.synced, st.st_size);
        if(keepMore && it->second.size > len) len += g.below(it->second.size - len + 1);
        if(len < it->second.size) ctx().count("bytes_lost", it->second.size - len);
      }
      std::ifstream in(p, std::ios::binary);
      std::string buf(len, 0);
      in.read(&buf[0], len);
      buf.resize(in.gcount());
      std::ofstream(b + "/" + n, std::ios::binary) << buf;
    }
    closedir(d);
  };
  rec(from, to);
  imaging = false;
}

static std::string fingerprint(RaftJournal &j) {
  std::string o = SSTR("term " << j.getCurrentTerm() << " vote " << j.getVotedFor().toString() << " log " << j.getLogStart() << ".." << j.getLogSize() << " commit " << j.getCommitIndex() << " policy " << fsyncPolicyToString(j.getFsyncPolicy())
    << " cluster " << j.getClusterID() << " epoch " << j.getEpoch() << " members");
  RaftMembership m = j.getMembership();
  for(auto &n : m.nodes) o += " " + n.toString();
  o += " |";
  for(auto &n : m.observers) o += " " + n.toString();
  o += " entries";
  for(LogIndex i = j.getLogStart(); i < j.getLogSize(); i++) { RaftSerializedEntry e; o += j.fetch(i, e).ok() ? SSTR(" " << std::hex << hash64(e)) : std::string(" ?"); }
  return o;
}

static std::string tail(const std::vector<std::string> &v) { std::string s; for(size_t i = v.size() > 25 ? v.size() - 25 : 0; i < v.size(); i++) s += v[i] + "; "; return s; }
static std::vector<RaftServer> three() { return {RaftServer("a", 1), RaftServer("b", 2), RaftServer("c", 3)}; }
static RaftServer someone(Rng &g) { return g.pick(std::vector<RaftServer>{RaftServer("a", 1), RaftServer("b", 2), RaftServer("c", 3), RaftServer("d.example", 4)}); }
static RedisRequest someWrite(Rng &g) { return req({"SET", "k" + std::to_string(g.below(9)), g.bytes(g.chance(4) ? 60000 : g.below(200) + 1)}); }

// ---------------------------------------------------------------- one thread, every moment
static void journal(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    Rng g(seed);
    std::string base = freshDir("power"), path = base + "/j";
    crashfs::files().clear();
    crashfs::watchDir = path;
    FsyncPolicy pol = (FsyncPolicy) g.below(3);
    std::unique_ptr<RaftJournal> j(new RaftJournal(path, "cid", three(), g.chance(30) ? 1000 : 0, pol));
    std::vector<std::string> states, log;
    size_t durable = 0;             // no earlier than this state
    // the first one: whatever a power loss leaves of a journal being made is not judged
    j->setCurrentTerm(j->getCurrentTerm() + 1, someone(g));
    { std::string k; j->checkpoint(base + "/flush"); }
    states.push_back(fingerprint(*j));
    int n = 0;
    auto check = [&](const std::string &img, size_t upto, const std::string &when) {
      std::string what = SSTR("power lost " << when << ", policy " << fsyncPolicyToString(pol) << ", seed " << seed << ", after " << tail(log));
      ctx().current(what);
      std::string got, msg;
      if(throws([&] { RaftJournal r(img); got = fingerprint(r); }, &msg)) { VF_FAIL("open", what << ": the journal does not open: " << msg); return; }
      for(size_t i = upto + 1; i-- > durable; ) if(states[i] == got) { ctx().eval(SSTR((int) pol << upto - i << "/" << upto - durable << when)); if(i < upto) ctx().count("states_lost", upto - i); return; }
      for(size_t i = 0; i < durable; i++) if(states[i] == got) { VF_FAIL("lost", what << ": the journal is at " << got << "\nalthough it was promised to be at least at " << states[durable]); return; }
      VF_FAIL("mixed", what << ": the journal is at " << got << "\nwhich it never was, last: " << states[upto] << (upto ? "\nbefore: " + states[upto - 1] : ""));
    };
    std::string inflight;
    int want = -1;
    crashfs::onSync = nullptr;
    bool before = false;
    for(int step = 0; step < 60 && !ctx().failed(); step++) {
      std::string err, d;
      bool important = false, did = false;
      FsyncPolicy at = pol;
      RaftTerm term = j->getCurrentTerm();
      int op = g.below(100);
      RaftTerm last = 0;
      j->fetch(j->getLogSize() - 1, last);
      if(op < 40) { RaftEntry e(std::max(last, g.chance(50) ? term : last), someWrite(g)); bool imp = g.chance(20); d = SSTR("append " << j->getLogSize() << (imp ? " important" : "")); did = j->append(j->getLogSize(), e, imp); important = imp; }
      else if(op < 55) { RaftTerm t = term + g.below(2); RaftServer v = g.chance(40) ? RaftServer() : someone(g); d = SSTR("term " << t << " vote " << v.toString()); did = j->setCurrentTerm(t, v); important = true; }
      else if(op < 67) { LogIndex c = g.range(j->getCommitIndex(), j->getLogSize() - 1); d = SSTR("commit " << c); did = j->setCommitIndex(c); }
      else if(op < 75) { LogIndex from = g.range(j->getCommitIndex() + 1, j->getLogSize()); important = from <= j->getEpoch(); d = SSTR("remove from " << from << (important ? ", members roll back" : "")); did = j->removeEntries(from); }
      else if(op < 80) { LogIndex t = g.range(j->getLogStart(), j->getCommitIndex()); d = SSTR("trim until " << t); j->trimUntil(t); did = true; }
      else if(op < 88) {
        RaftServer s = someone(g);
        int k = g.below(4);
        if(k >= 2 && j->getMembership().nodes == std::vector<RaftServer>{s}) k = 0; // the last full member is never removed
        d = SSTR("members " << k << " " << s.toString());
        did = k == 0 ? j->addObserver(term, s, err) : k == 1 ? j->promoteObserver(term, s, err) : k == 2 ? j->demoteToObserver(term, s, err) : j->removeMember(term, s, err);
        important = true;
      }
      else if(op < 92) { pol = (FsyncPolicy) g.below(3); d = SSTR("policy " << fsyncPolicyToString(pol)); j->setFsyncPolicy(pol); did = true; important = pol != at; at = pol; }
      else if(op < 94) { d = "leadership marker"; did = j->appendLeadershipMarker(j->getLogSize(), term, someone(g)); }
      else if(op < 96) { d = "flush"; j->checkpoint(base + "/f" + std::to_string(step)); removeTree(base + "/f" + std::to_string(step)); }
      else {
        d = "restart";
        j.reset();
        std::string msg;
        if(throws([&] { j.reset(new RaftJournal(path)); }, &msg)) { VF_FAIL("restart", "the journal does not open again: " << msg << ", after " << tail(log)); return; }
      }
      log.push_back(d + (did ? "" : " -"));
      std::string now = fingerprint(*j);
      if(d == "restart") VF_CHECK(now == states.back(), "restart", "after a restart the journal is at " << now << "\nnot at " << states.back() << ", after " << tail(log));
      states.push_back(now);
      if(did && (at == FsyncPolicy::kAlways || (at == FsyncPolicy::kSyncImportantUpdates && important))) { durable = states.size() - 1; ctx().count("promises"); }
      ctx().count("operations");
      if(g.chance(70)) {
        std::string img = freshDir("image");
        image(path, img, g, g.chance(40));
        check(img, states.size() - 1, "after " + d.substr(0, d.find(' ')));
        ctx().count("images");
        n++;
      }
    }
    if(round < 2) ctx().sample(SSTR("journal, seed " << seed << ": " << tail(log)));
  }
}

// ---------------------------------------------------------------- several threads
static void threads(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    Rng g(seed);
    std::string base = freshDir("threads"), path = base + "/j";
    crashfs::files().clear();
    crashfs::watchDir = path;
    bool always = g.chance(60);
    RaftJournal j(path, "cid", three(), 0, always ? FsyncPolicy::kAlways : FsyncPolicy::kSyncImportantUpdates);
    j.setCurrentTerm(1, someone(g));      // whatever is left of a journal being made is not judged
    { std::string k; j.checkpoint(base + "/flush"); }
    std::atomic<int64_t> ackedSize {1}, ackedTerm {1}, ackedCommit {0};
    std::atomic<bool> stop {false};
    std::thread a([&] { Rng ag(seed + 1); while(!stop) { RaftTerm t = 0; j.append(j.getLogSize(), RaftEntry(t, someWrite(ag))); ackedSize = j.getLogSize(); usleep(ag.below(150)); } });
    std::thread b([&] { Rng bg(seed + 2); for(RaftTerm t = 2; !stop; t++) { j.setCurrentTerm(t, someone(bg)); ackedTerm = t; usleep(bg.below(300)); } });
    std::thread c([&] { Rng cg(seed + 3); while(!stop) { LogIndex to = j.getLogSize() - 1; if(to > j.getCommitIndex()) { j.setCommitIndex(to); ackedCommit = to; } usleep(cg.below(300)); } });
    for(int k = 0; k < 12 && !ctx().failed(); k++) {
      usleep(g.below(5000));
      int64_t size = ackedSize, term = ackedTerm, commit = ackedCommit;
      std::string img = freshDir("image"), msg;
      image(path, img, g, g.chance(40));
      if(throws([&] {
        RaftJournal r(img);
        VF_CHECK(r.getCurrentTerm() >= term, "lost:term", "term " << r.getCurrentTerm() << " is left, " << term << " had been set, seed " << seed);
        if(always) VF_CHECK(r.getLogSize() >= size && r.getCommitIndex() >= commit, "lost:entries", "a log of " << r.getLogSize() << ", committed up to " << r.getCommitIndex() << ", is left of " << size << " and " << commit << ", seed " << seed);
        VF_CHECK(r.getCommitIndex() < r.getLogSize(), "mixed", "committed up to " << r.getCommitIndex() << " in a log of " << r.getLogSize());
        for(LogIndex i = 0; i < r.getLogSize(); i++) { RaftSerializedEntry x, y; VF_CHECK(r.fetch(i, x).ok() && j.fetch(i, y).ok() && x == y, "mixed", "entry " << i << " is not as it was"); }
        ctx().eval(SSTR("t" << always << r.getLogSize() - size << r.getCurrentTerm() - term));
      }, &msg)) VF_FAIL("open", "the journal does not open: " << msg);
      ctx().count("images");
    }
    stop = true;
    a.join(); b.join(); c.join();
    ctx().count("entries", j.getLogSize());
  }
}

// ---------------------------------------------------------------- answers are promises
static void node(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    Rng g(seed);
    std::string base = freshDir("node");
    crashfs::files().clear();
    crashfs::watchDir = base;
    FsyncPolicy pol = g.chance(60) ? FsyncPolicy::kAlways : FsyncPolicy::kSyncImportantUpdates;
    RaftServer me("127.0.0.1", 65001), o1("127.0.0.1", 65002), o2("127.0.0.1", 65003);
    RaftTimeouts slow(std::chrono::milliseconds(60000), std::chrono::milliseconds(90000), std::chrono::milliseconds(50));
    RaftNode n(base + "/n", {me, o1, o2}, me, slow, 0, pol);
    std::string jpath = base + "/n/current/raft-journal";
    std::vector<std::string> log;
    n.d();
    n.st().observed(1, {});      // whatever is left of a journal being made is not judged
    auto lost = [&](const std::function<void(RaftJournal&)> &f) {
      std::string img = freshDir("image"), msg;
      image(jpath, img, g, g.chance(30));
      if(throws([&] { RaftJournal r(img); f(r); }, &msg)) VF_FAIL("node:open", "the journal does not open: " << msg << ", after " << tail(log));
      ctx().count("images");
    };
    for(int step = 0; step < 40 && !ctx().failed(); step++) {
      RaftStateSnapshotPtr s = n.st().getSnapshot();
      RaftTerm t = s->term + g.below(3);
      ctx().current("after " + tail(log));
      int op = g.below(10);
      std::string what = SSTR("policy " << fsyncPolicyToString(pol) << ", seed " << seed << ", after ");
      if(op < 3) {
        RaftVoteRequest q;
        q.term = t + (g.chance(70) ? 1 : 0); q.candidate = g.chance(50) ? o1 : o2;
        q.lastIndex = n.j().getLogSize() - 1 + g.below(3); n.j().fetch(n.j().getLogSize() - 1, q.lastTerm); q.lastTerm += g.below(2);
        bool pre = g.chance(20);
        RaftVoteResponse a = n.d().requestVote(q, pre);
        log.push_back(SSTR((pre ? "pre-vote " : "vote ") << q.term << " for " << q.candidate.toString() << (a.vote == RaftVote::GRANTED ? " granted" : " -")));
        RaftTerm told = a.term;
        lost([&](RaftJournal &r) {
          if(a.vote == RaftVote::GRANTED && !pre) VF_CHECK(r.getCurrentTerm() == q.term && r.getVotedFor() == q.candidate, "node:vote", "a vote for " << q.candidate.toString() << " in term " << q.term << " was granted, the journal keeps term " << r.getCurrentTerm() << ", vote '" << r.getVotedFor().toString() << "', " << what << tail(log));
          VF_CHECK(r.getCurrentTerm() >= told, "node:term", "term " << told << " was reported, the journal keeps " << r.getCurrentTerm() << ", " << what << tail(log));
        });
      }
      else if(op < 4) {
        RaftHeartbeatRequest q;
        q.term = t; q.leader = s->leader.empty() || q.term > s->term ? o1 : s->leader;
        if(q.leader == me) q.leader = o1, q.term++;
        RaftHeartbeatResponse a = n.d().heartbeat(q);
        log.push_back(SSTR("heartbeat " << q.term));
        lost([&](RaftJournal &r) { VF_CHECK(r.getCurrentTerm() >= a.term, "node:term", "term " << a.term << " was reported, the journal keeps " << r.getCurrentTerm() << ", " << what << tail(log)); });
      }
      else if(op < 9) {
        RaftAppendEntriesRequest q;
        q.term = t; q.leader = s->leader.empty() || q.term > s->term ? o1 : s->leader;
        if(q.leader == me) q.leader = o1, q.term++;
        q.prevIndex = g.range(std::max<LogIndex>(n.j().getCommitIndex(), n.j().getLogSize() - 4), n.j().getLogSize() - 1);
        n.j().fetch(q.prevIndex, q.prevTerm);
        q.commitIndex = g.range(n.j().getCommitIndex(), q.prevIndex);
        int k = 1 + g.below(4);
        LogIndex lastMember = -1;
        std::vector<RaftEntry> es;
        for(int i = 0; i < k; i++) {
          if(g.chance(25)) { RaftMembers m({me, o1, o2}, {}); std::string err; if(g.chance(50)) m.addObserver(RaftServer("obs", 100 + g.below(9)), err); es.push_back(RaftEntry(q.term, "JOURNAL_UPDATE_MEMBERS", m.toString(), "cid")); lastMember = q.prevIndex + 1 + i; }
          else es.push_back(RaftEntry(q.term, someWrite(g)));
        }
        for(auto &e : es) q.entries.push_back(e);
        RaftAppendEntriesResponse a = n.d().appendEntries(std::move(q));
        log.push_back(SSTR(k << " entries of term " << t << (a.outcome ? "" : " -")));
        LogIndex size = a.logSize;
        lost([&](RaftJournal &r) {
          VF_CHECK(r.getCurrentTerm() >= a.term, "node:term", "term " << a.term << " was reported, the journal keeps " << r.getCurrentTerm() << ", " << what << tail(log));
          if(!a.outcome) return;
          LogIndex need = pol == FsyncPolicy::kAlways ? size : lastMember + 1;
          VF_CHECK(r.getLogSize() >= need, "node:entries", "entries up to " << need - 1 << " were accepted, the journal keeps a log of " << r.getLogSize() << ", " << what << tail(log));
          for(LogIndex i = r.getLogStart(); i < std::min(need, r.getLogSize()); i++) { RaftSerializedEntry x, y; r.fetch(i, x); n.j().fetch(i, y); if(x != y) { VF_FAIL("node:entries", "entry " << i << " was accepted, the journal keeps another one, " << what << tail(log)); break; } }
          if(lastMember >= 0) VF_CHECK(r.getEpoch() >= lastMember, "node:members", "members of entry " << lastMember << " were accepted, the journal keeps those of " << r.getEpoch() << ", " << what << tail(log));
        });
      }
      else {
        // campaigning is voting for oneself
        RaftTerm nt = s->term + 1;
        if(n.st().observed(nt, {}) && n.st().becomeCandidate(nt)) {
          log.push_back(SSTR("candidate " << nt));
          lost([&](RaftJournal &r) { VF_CHECK(r.getCurrentTerm() == nt && r.getVotedFor() == me, "node:candidate", "a candidate of term " << nt << " keeps term " << r.getCurrentTerm() << ", vote '" << r.getVotedFor().toString() << "', " << what << tail(log)); });
          if(g.chance(60) && n.st().ascend(nt)) {
            log.push_back("leader");
            n.st().dropOut(nt);
          }
        }
      }
      ctx().eval(SSTR((int) pol << log.back()));
      ctx().count("answers");
    }
    if(round < 2) ctx().sample(SSTR("node, seed " << seed << ": " << tail(log)));
  }
}

// ---------------------------------------------------------------- confirmed to a client
static std::string infoField(const resp::Val &v, const std::string &name) {
  for(auto &k : v.kids) if(k.s.compare(0, name.size() + 1, name + " ") == 0) return k.s.substr(name.size() + 1);
  return "";
}
static void client(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    Rng g(seed);
    std::string base = freshDir("client"), dir = base + "/n";
    crashfs::files().clear();
    crashfs::watchDir = base;
    Status st;
    delete ShardDirectory::create(dir, "cid", "default", {RaftServer("127.0.0.1", 7777)}, 0, FsyncPolicy::kAsync, nullptr, st);
    Configuration cfg;
    Configuration::fromString("redis.mode raft\nredis.myself 127.0.0.1:7777\nredis.database " + dir + "\n", cfg);
    std::unique_ptr<QuarkDBNode> n(new QuarkDBNode(cfg, RaftTimeouts(std::chrono::milliseconds(40), std::chrono::milliseconds(60), std::chrono::milliseconds(10))));
    std::unique_ptr<Client> cl(new Client(n.get()));
    auto call = [&](const std::vector<std::vector<std::string>> &cs) {
      std::string o;
      for(auto &c : cs) { o += "*" + std::to_string(c.size()) + "\r\n"; for(auto &a : c) o += "$" + std::to_string(a.size()) + "\r\n" + a + "\r\n"; }
      cl->wire.arrive(o);
      cl->step();
      auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
      while(cl->got.size() < cs.size() && !cl->dead && std::chrono::steady_clock::now() < end) { usleep(100); cl->collect(); }
      std::vector<resp::Val> r(cl->got.begin(), cl->got.end());
      cl->got.clear();
      if(r.size() != cs.size()) { VF_FAIL("client:replies", r.size() << " replies to " << cs.size() << " requests"); r.resize(cs.size()); }
      return r;
    };
    if(!eventually([&] { return infoField(call({{"RAFT_INFO"}})[0], "STATUS") == "LEADER"; }, 30000)) { VF_FAIL("client:leader", "a node alone does not become leader"); return; }
    std::string pol = "async";
    int gen = 0;
    auto kept = [&](const std::function<void(RaftJournal&)> &f) {
      std::string img = freshDir("image"), msg;
      image(dir + "/current/raft-journal", img, g, g.chance(30));
      if(throws([&] { RaftJournal r(img); f(r); }, &msg)) VF_FAIL("client:open", "the journal does not open: " << msg);
      ctx().count("images");
    };
    for(int step = 0; step < 40 && !ctx().failed(); step++) {
      if(g.chance(15)) {
        std::string was = pol;
        pol = g.pick(std::vector<std::string>{"always", "always", "sync-important-updates", "async"});
        auto r = call({{"RAFT_SET_FSYNC_POLICY", pol}});
        VF_CHECK(r[0].s == "OK", "client:policy", "setting the policy answers " << resp::show(r[0]));
        VF_CHECK(infoField(call({{"RAFT_INFO"}})[0], "JOURNAL-FSYNC-POLICY") == pol, "client:policy", "policy " << pol << " was set, and " << infoField(call({{"RAFT_INFO"}})[0], "JOURNAL-FSYNC-POLICY") << " is in use");
        if(pol != "async" && pol != was) kept([&](RaftJournal &r) { VF_CHECK(fsyncPolicyToString(r.getFsyncPolicy()) == pol, "client:policy-lost", "policy " << pol << " was confirmed, the journal keeps " << fsyncPolicyToString(r.getFsyncPolicy())); });
        VF_CHECK(call({{"RAFT_SET_FSYNC_POLICY", "sometimes"}})[0].type == '-', "client:policy-bad", "policy 'sometimes' is accepted");
        continue;
      }
      if(g.chance(8)) {     // the policy outlives the process
        cl.reset(); n.reset();
        n.reset(new QuarkDBNode(cfg, RaftTimeouts(std::chrono::milliseconds(40), std::chrono::milliseconds(60), std::chrono::milliseconds(10))));
        cl.reset(new Client(n.get()));
        if(!eventually([&] { return infoField(call({{"RAFT_INFO"}})[0], "STATUS") == "LEADER"; }, 30000)) { VF_FAIL("client:leader", "no leader after a restart"); return; }
        VF_CHECK(infoField(call({{"RAFT_INFO"}})[0], "JOURNAL-FSYNC-POLICY") == pol, "client:policy", "policy " << pol << " is forgotten by a restart");
        ctx().count("restarts");
        continue;
      }
      std::vector<std::vector<std::string>> cs;
      int k = 1 + g.below(5);
      gen++;
      std::string marks;
      bool multi = g.chance(30);
      if(multi) cs.push_back({"MULTI"});
      for(int i = 0; i < k; i++) cs.push_back({"SET", "key", "mark-" + std::to_string(gen) + "-" + std::to_string(i) + "!"});
      if(multi) cs.push_back({"EXEC"});
      auto r = call(cs);
      bool ok = multi ? r.back().type == '*' : r.back().s == "OK";
      VF_CHECK(ok, "client:write", "a write answers " << resp::show(r.back()));
      if(pol != "always") continue;
      kept([&](RaftJournal &rj) {
        // the entries hold what was written
        std::string all;
        for(LogIndex i = rj.getLogStart(); i < rj.getLogSize(); i++) { RaftSerializedEntry e; rj.fetch(i, e); all += e; }
        for(int i = 0; i < k; i++) VF_CHECK(all.find("mark-" + std::to_string(gen) + "-" + std::to_string(i) + "!") != std::string::npos, "client:lost", "a write confirmed under policy always is not in what is left of the journal, seed " << seed);
      });
      ctx().count("confirmed_writes_checked", k);
      ctx().eval(SSTR("cl" << seed << step));
    }
    cl.reset(); n.reset();
  }
}

// ---------------------------------------------------------------- every second
static void periodic(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    Rng g(ctx().seed + round);
    std::string path = freshDir("periodic") + "/j";
    crashfs::files().clear();
    crashfs::watchDir = path;
    std::unique_ptr<RaftJournal> j(new RaftJournal(path, "cid", three(), 0, round % 2 ? FsyncPolicy::kAsync : FsyncPolicy::kSyncImportantUpdates));
    if(g.chance(50)) { j.reset(); j.reset(new RaftJournal(path)); }
    for(int k = 0; k < 3 && !ctx().failed(); k++) {
      int n = 1 + g.below(20);
      for(int i = 0; i < n; i++) j->append(j->getLogSize(), RaftEntry(0, someWrite(g)));
      auto t0 = std::chrono::steady_clock::now();
      auto pending = [&] { std::scoped_lock l(crashfs::mtx); int64_t p = 0; for(auto &f : crashfs::files()) if(f.first.find(".log") != std::string::npos && access(f.first.c_str(), F_OK) == 0) p += f.second.size - f.second.synced; return p; };
      if(pending() > 0) ctx().count("pending_seen");
      bool ok = eventually([&] { return pending() == 0; }, 25000);
      double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      VF_CHECK(ok, "periodic:never", pending() << " bytes of the journal are not synced after " << s << " s");
      ctx().eval(SSTR("p" << round << k));
      ctx().count("periodic_syncs");
      if(k == 0) ctx().sample(SSTR("synced " << s << " s after a write"));
      usleep(g.below(700000));
    }
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Link::setConnectionLogging(false);
  chdir(freshDir("cwd").c_str());
  crashfs::sh = crashfs::share();
  crashfs::armed = true;
  std::string mode = ctx().arg("mode", "journal");
  if(mode == "journal") journal(ctx().n(12, 250));
  else if(mode == "threads") threads(ctx().n(8, 120));
  else if(mode == "node") node(ctx().n(20, 300));
  else if(mode == "client") client(ctx().n(4, 60));
  else if(mode == "periodic") periodic(ctx().n(3, 20));
  else { fprintf(stderr, "mode?\n"); return 2; }
  return ctx().finish();
}
