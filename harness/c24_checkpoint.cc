// C24: checkpoints taken while a node works.
//  standalone  clients writing transactions, checkpoints through the node, opened one by one
//  raft        the same on a raft node, whose checkpoint is replayed from its own journal
//  log         a shard whose log is appended to, committed and applied by three threads
//  refused     places a checkpoint cannot be made in, and file systems which fail in the middle
//  swap        checkpoints while the contents of the node are replaced
#include "node.hh"
#include "raft.hh"
#include "pubsub/Publisher.hh"
#include "Dispatcher.hh"
#include "Version.hh"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
using namespace vf;
using namespace quarkdb;

typedef std::map<std::string, std::string> Raw;
static Raw rawData(const std::string &current) {
  Raw m = dumpRaw(current + "/state-machine");
  for(auto it = m.begin(); it != m.end(); ) it = (!it->first.empty() && it->first[0] == '_') ? m.erase(it) : std::next(it);
  return m;
}
static std::string diff(const Raw &want, const Raw &got) {
  for(auto &k : want) { auto it = got.find(k.first); if(it == got.end()) return "'" + esc(k.first, 60) + "' is missing"; if(it->second != k.second) return "'" + esc(k.first, 60) + "' is '" + esc(it->second, 60) + "', not '" + esc(k.second, 60) + "'"; }
  for(auto &k : got) if(!want.count(k.first)) return "'" + esc(k.first, 60) + "' should not be there";
  return "";
}
static Raw readTree(const std::string &dir, const std::string &prefix = "") {
  Raw t;
  DIR *d = opendir(dir.c_str());
  if(!d) return t;
  while(dirent *e = readdir(d)) {
    std::string n = e->d_name, p = dir + "/" + n;
    if(n == "." || n == "..") continue;
    struct stat st;
    if(lstat(p.c_str(), &st) != 0) continue;
    if(S_ISDIR(st.st_mode)) { t[prefix + n + "/"] = ""; for(auto &k : readTree(p, prefix + n + "/")) t.insert(k); }
    else { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); t[prefix + n] = ss.str(); }
  }
  closedir(d);
  return t;
}

// ---------------------------------------------------------------- what the writers do
static std::string blobOf(int w, int g) {
  Rng r(w * 1000003ull + g);
  std::string s(r.chance(10) ? 30000 + r.below(30000) : r.below(200) + 1, 0);
  for(auto &c : s) c = r.below(256);
  return s;
}
// the g-th transaction of writer w
static std::vector<std::vector<std::string>> work(int w, int g) {
  std::string p = "w" + std::to_string(w) + ":", G = std::to_string(g);
  std::vector<std::vector<std::string>> o;
  o.push_back({"SET", p + "gen", G});
  o.push_back({"HSET", p + "h", "f" + std::to_string(g % 13), G});
  if(g % 2) o.push_back({"SMOVE", p + "s", p + "moved", std::to_string(g - 1)}); else o.push_back({"SADD", p + "s", G});
  o.push_back({"DEQUE_PUSH_BACK", p + "d", G});
  if(g % 3 == 0) o.push_back({"DEQUE_POP_FRONT", p + "d"});
  o.push_back({"LHSET", p + "l", "f" + std::to_string(g % 11), "hint" + std::to_string(g % 5), G});
  if(g % 7 == 0) o.push_back({"DEL", p + "x"}); else o.push_back({"SET", p + "x", blobOf(w, g)});
  o.push_back({"HINCRBY", p + "h", "count", "1"});
  return o;
}

struct Twin {           // what must be there after given generations
  std::string dir;
  std::unique_ptr<StateMachine> sm;
  Publisher pub;
  std::unique_ptr<RedisDispatcher> rd;
  std::vector<int> at;
  Twin(const std::string &d, int writers) : dir(d), at(writers, 0) { open(); }
  void open() { sm.reset(new StateMachine(dir + "/state-machine")); rd.reset(new RedisDispatcher(*sm, pub)); }
  void advance(int w, int g) {
    while(at[w] < g) {
      at[w]++;
      Transaction tx;
      for(auto &c : work(w, at[w])) tx.emplace_back(req(c));
      tx.setPhantom(false);
      rd->dispatch(tx, 0);
    }
  }
  Raw dump() { rd.reset(); sm.reset(); Raw r = rawData(dir); open(); return r; }
};

// a client of a node which may answer later
struct User {
  Client cl;
  User(Dispatcher *d) : cl(d) {}
  std::vector<resp::Val> call(const std::vector<std::vector<std::string>> &cs, size_t n) {
    std::string o;
    for(auto &c : cs) { o += "*" + std::to_string(c.size()) + "\r\n"; for(auto &a : c) o += "$" + std::to_string(a.size()) + "\r\n" + a + "\r\n"; }
    cl.wire.arrive(o);
    cl.step();
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
    while(cl.got.size() < n && !cl.dead && std::chrono::steady_clock::now() < end) { usleep(100); cl.collect(); }
    std::vector<resp::Val> r(cl.got.begin(), cl.got.end());
    cl.got.clear();
    return r;
  }
  resp::Val one(const std::vector<std::string> &c) { auto r = call({c}, 1); if(r.size() != 1) { resp::Val v; v.type = '?'; return v; } return r[0]; }
};

static std::unique_ptr<QuarkDBNode> openNode(const std::string &dir, bool raft, const std::string &extra = "") {
  Configuration cfg;
  std::string s = SSTR("redis.mode " << (raft ? "raft\nredis.myself 127.0.0.1:7777" : "standalone") << "\nredis.database " << dir << "\n" << extra);
  if(!Configuration::fromString(s, cfg)) { fprintf(stderr, "VF-HARNESS-ERROR configuration\n"); _exit(2); }
  return std::unique_ptr<QuarkDBNode>(new QuarkDBNode(cfg, RaftTimeouts(std::chrono::milliseconds(40), std::chrono::milliseconds(60), std::chrono::milliseconds(10))));
}

struct Point {      // a checkpoint, and what was known around it
  std::string path;
  std::vector<int> before, after;
  int64_t term = 0, size = 0, commitBefore = 0, sizeBefore = 0;
};

static std::string field(const resp::Val &v, const std::string &name) {
  for(auto &k : v.kids) if(k.s.compare(0, name.size() + 1, name + " ") == 0) return k.s.substr(name.size() + 1);
  return "";
}

static void working(bool raft, int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 100 + round;
    Rng g(seed);
    std::string base = freshDir(raft ? "raft" : "standalone"), dir = base + "/node";
    chdir(freshDir("cwd").c_str());
    Status st;
    std::vector<RaftServer> nodes {RaftServer("127.0.0.1", 7777)};
    delete (raft ? ShardDirectory::create(dir, "cid-" + std::to_string(seed), "default", nodes, 0, FsyncPolicy::kAsync, nullptr, st) : ShardDirectory::create(dir, "cid", "default", nullptr, st));
    if(!st.ok()) { VF_FAIL("create", st.getMsg()); return; }
    std::string extra = !raft && g.chance(40) ? "redis.write_ahead_log false\n" : "";
    Configuration probe;
    if(!extra.empty() && !Configuration::fromString("redis.mode standalone\nredis.database /x\n" + extra, probe)) extra = "";
    std::unique_ptr<QuarkDBNode> node = openNode(dir, raft, extra);
    const int W = 4;
    std::vector<std::unique_ptr<User>> us;
    for(int i = 0; i < W + 2; i++) us.emplace_back(new User(node.get()));
    User &adm = *us[W];
    if(raft) {
      bool up = eventually([&] { return field(adm.one({"RAFT_INFO"}), "STATUS") == "LEADER" && adm.one({"SET", "ready", "1"}).type == '+'; }, 30000);
      if(!up) { VF_FAIL("leader", "a node alone does not become leader"); return; }
    }
    else adm.one({"SET", "ready", "1"});
    std::vector<std::atomic<int>> acked(W), issued(W);
    for(int w = 0; w < W; w++) { acked[w] = 0; issued[w] = 0; }
    std::atomic<bool> stop {false}, slow {false};
    std::vector<std::thread> ths;
    for(int w = 0; w < W; w++) ths.emplace_back([&, w] {
      for(int gen = 1; !stop && !ctx().failed(); gen++) {
        auto cs = work(w, gen);
        size_t n = cs.size();
        issued[w] = gen;
        if(w % 2 == 0) {
          cs.insert(cs.begin(), {"MULTI"});
          cs.push_back({"EXEC"});
          auto r = us[w]->call(cs, cs.size());
          if(r.size() != n + 2 || r.back().type != '*' || r.back().kids.size() != n) { VF_FAIL("write", "a transaction of " << n << " writes answers " << (r.empty() ? "nothing" : resp::show(r.back()))); return; }
        }
        else {    // piled up writes form a transaction, too
          auto r = us[w]->call(cs, n);
          if(r.size() != n || r[0].type != '+') { VF_FAIL("write", n << " writes get " << r.size() << " replies, the first " << (r.empty() ? "nothing" : resp::show(r[0]))); return; }
        }
        acked[w] = gen;
        if(slow) usleep(2000);
      }
    });
    std::thread compactor([&] { while(!stop && !ctx().failed()) { usleep(30000); us[W + 1]->one({"QUARKDB_MANUAL_COMPACTION"}); ctx().count("compactions"); } });
    std::vector<Point> pts;
    for(int k = 0; k < 8 && !ctx().failed(); k++) {
      usleep(g.below(40000));
      Point p;
      p.path = g.chance(50) ? base + "/ckpt" + std::to_string(k) : base + "/with space " + std::to_string(k) + "/";
      for(int w = 0; w < W; w++) p.before.push_back(acked[w]);
      if(raft) { auto i = adm.one({"RAFT_INFO"}); p.commitBefore = atoll(field(i, "COMMIT-INDEX").c_str()); }
      ctx().current("checkpoint into " + p.path);
      auto r = adm.one({k % 2 ? "QUARKDB_CHECKPOINT" : "RAFT_CHECKPOINT", p.path});
      VF_CHECK(r.type == '+' && r.s == "OK", "refused", "a checkpoint answers " << resp::show(r));
      for(int w = 0; w < W; w++) p.after.push_back(issued[w]);
      if(raft) { auto i = adm.one({"RAFT_INFO"}); p.size = atoll(field(i, "LOG-SIZE").c_str()); p.term = atoll(field(i, "TERM").c_str()); }
      pts.push_back(p);
      ctx().count("checkpoints");
      if(k >= 5) slow = true;
    }
    stop = true;
    for(auto &x : ths) x.join();
    compactor.join();
    std::string clusterID = raft ? field(adm.one({"RAFT_INFO"}), "CLUSTER-ID") : "";
    us.clear();
    node.reset();
    if(ctx().failed()) return;
    ctx().current("checking the checkpoints");
    // the live node is what its clients made it
    mkdir((base + "/twin").c_str(), 0755);
    Twin twin(base + "/twin", W);
    { Transaction tx; tx.emplace_back(req({"SET", "ready", "1"})); twin.rd->dispatch(tx, 0); }
    Raw live = rawData(dir + "/current");
    for(auto &p : pts) {
      std::string cur = p.path + (p.path.back() == '/' ? "" : "/") + "current";
      Raw got = rawData(cur);
      std::string what = SSTR((raft ? "raft" : "standalone") << " checkpoint, seed " << seed << (extra.empty() ? "" : ", without write ahead log"));
      std::string span;
      for(int w = 0; w < W; w++) {
        auto it = got.find("awx");
        for(auto &k : got) if(k.first.compare(0, 1, "a") == 0 && k.first == "aw" + std::to_string(w) + ":gen") it = got.find(k.first);
        int gen = it == got.end() ? 0 : atoi(it->second.c_str());
        VF_CHECK(gen >= p.before[w], "lost", what << ": writer " << w << " had " << p.before[w] << " transactions confirmed before, the checkpoint holds " << gen);
        VF_CHECK(gen <= p.after[w], "future", what << ": writer " << w << " had issued " << p.after[w] << " transactions, the checkpoint holds " << gen);
        if(ctx().failed()) return;
        twin.advance(w, gen);
        span += SSTR(gen - p.before[w] << "/" << p.after[w] - p.before[w] << " ");
        if(p.after[w] > p.before[w]) ctx().count("writers_caught_in_flight");
      }
      Raw want = twin.dump();
      VF_CHECK(want == got, "content", what << ": " << diff(want, got));
      ctx().count("records_compared", want.size());
      ctx().eval(span);
      std::vector<std::string> top;
      for(auto &n : {"SHARD-ID", "RESILVERING-HISTORY"}) {
        std::ifstream a(dir + "/" + n), b(p.path + "/" + n);
        std::stringstream sa, sb; sa << a.rdbuf(); sb << b.rdbuf();
        VF_CHECK(a && b && sa.str() == sb.str(), "identity", what << ": " << n << " is '" << esc(sb.str()) << "', not '" << esc(sa.str()) << "'");
      }
      if(raft) {
        std::unique_ptr<ShardDirectory> sd;
        std::string msg;
        if(throws([&] { sd.reset(new ShardDirectory(p.path)); sd->getStateMachine(); sd->getRaftJournal(); }, &msg)) { VF_FAIL("open", what << ": cannot be opened: " << msg); return; }
        RaftJournal *j = sd->getRaftJournal();
        LogIndex la = sd->getStateMachine()->getLastApplied();
        VF_CHECK(j->getClusterID() == clusterID, "identity", what << ": cluster id " << j->getClusterID() << ", not " << clusterID);
        VF_CHECK(j->getMembership().nodes == nodes, "identity", what << ": other members");
        VF_CHECK(la <= j->getCommitIndex() && j->getCommitIndex() < j->getLogSize() && j->getCommitIndex() >= p.commitBefore && j->getLogSize() <= p.size && j->getCurrentTerm() <= p.term, "journal",
          what << ": applied " << la << ", committed " << j->getCommitIndex() << ", log of " << j->getLogSize() << ", term " << j->getCurrentTerm() << "; committed before: " << p.commitBefore << ", log afterwards: " << p.size << ", term " << p.term);
        // the data are exactly what the log says, up to there
        std::string tdir = freshDir("replay");
        {
          StateMachine sm(tdir + "/state-machine");
          Publisher pub;
          RedisDispatcher rd(sm, pub);
          for(LogIndex i = 1; i <= la; i++) { RaftEntry e; if(!j->fetch(i, e).ok()) { VF_FAIL("journal", what << ": entry " << i << " cannot be read"); return; } rd.dispatch(e.request, i); }
          ctx().count("entries_replayed", la);
        }
        sd.reset();
        Raw rep = rawData(tdir);
        VF_CHECK(rep == got, "replay", what << ": replaying its own log up to " << la << " gives other data: " << diff(rep, got));
      }
      if(ctx().failed()) return;
      // it serves as a node, and does not touch the one it came from
      if(g.chance(50)) {
        std::unique_ptr<QuarkDBNode> n2;
        std::string msg;
        std::string moved = base + "/moved" + std::to_string(&p - &pts[0]);       // wherever it is put
        if(rename(p.path.c_str(), moved.c_str()) != 0) { fprintf(stderr, "VF-HARNESS-ERROR rename\n"); _exit(2); }
        if(throws([&] { n2 = openNode(moved, raft); }, &msg)) { VF_FAIL("open", what << ": a node cannot start from it: " << msg); return; }
        {
          User u(n2.get());
          if(raft && !eventually([&] { return field(u.one({"RAFT_INFO"}), "STATUS") == "LEADER" && u.one({"SET", "again", "1"}).type == '+'; }, 30000)) { VF_FAIL("serve", what << ": a node started from it does not become leader"); return; }
          for(int w = 0; w < W; w++) {
            auto r = u.one({"GET", "w" + std::to_string(w) + ":gen"});
            int gen = r.type == '$' && !r.nil ? atoi(r.s.c_str()) : 0;
            if(gen < p.before[w]) VF_FAIL("serve", what << ": a node started from it has " << gen << " transactions of writer " << w << ", " << p.before[w] << " had been confirmed");
            auto h = u.one({"HGET", "w" + std::to_string(w) + ":h", "count"});
            if(gen) VF_CHECK(h.s == std::to_string(gen), "serve", what << ": " << gen << " transactions, and a count of " << h.s);
          }
          VF_CHECK(u.one({"SET", "new", "value"}).type == '+' && u.one({"FLUSHALL"}).type == '+', "serve", what << ": a node started from it does not take writes");
          u.one({"QUARKDB_MANUAL_COMPACTION"});
        }
        ctx().count("nodes_started");
      }
    }
    Raw again = rawData(dir + "/current");
    VF_CHECK(again == live, "live", "working with the checkpoints changed the data they were taken from: " << diff(live, again));
    for(int w = 0; w < W; w++) twin.advance(w, acked[w]);
    Raw want = twin.dump();
    VF_CHECK(want == live, "live", "the node itself does not hold what was confirmed: " << diff(want, live));
    if(round == 0) ctx().sample(SSTR((raft ? "raft" : "standalone") << ": " << pts.size() << " checkpoints, writers at " << acked[0] << ", " << acked[1] << ", " << acked[2] << ", " << acked[3]));
  }
}

// ---------------------------------------------------------------- a log in motion
static void logMode(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 100 + round;
    Rng g(seed);
    std::string base = freshDir("log"), dir = base + "/n";
    std::vector<RaftServer> nodes {RaftServer("127.0.0.1", 7777), RaftServer("127.0.0.1", 7778), RaftServer("127.0.0.1", 7779)};
    LogIndex start = g.chance(50) ? 0 : 1000 + g.below(100000);
    Status st;
    std::unique_ptr<ShardDirectory> sd(ShardDirectory::create(dir, "cid", "default", nodes, start, FsyncPolicy::kAsync, nullptr, st));
    if(!st.ok()) { VF_FAIL("create", st.getMsg()); return; }
    RaftJournal *j = sd->getRaftJournal();
    StateMachine *sm = sd->getStateMachine();
    std::atomic<bool> stop {false};
    std::atomic<int64_t> applied {sm->getLastApplied()}, committed {j->getCommitIndex()};
    std::atomic<int64_t> term {1};
    std::thread appender([&] {
      Rng ag(seed + 1);
      int gen = 0;
      while(!stop && !ctx().failed()) {
        if(ag.chance(3)) { j->setCurrentTerm(term + 1, RaftServer("127.0.0.1", 7778)); term++; }
        if(ag.chance(4) && j->getLogSize() - 1 > committed.load() + 2) { j->removeEntries(j->getLogSize() - 1); continue; }
        gen++;
        RedisRequest r = req({"SET", "k" + std::to_string(gen % 50), std::string(ag.below(3000), 'v') + std::to_string(gen)});
        if(ag.chance(30)) r = req({"HINCRBY", "h", "f" + std::to_string(gen % 7), "1"});
        j->append(j->getLogSize(), RaftEntry(term, r));
        if(ag.chance(20)) usleep(ag.below(300));
        if(j->getLogSize() - committed > 30) usleep(1000);
      }
    });
    std::thread committer([&] {
      Rng cg(seed + 2);
      while(!stop && !ctx().failed()) {
        LogIndex to = j->getLogSize() - 3 - cg.below(6);      // the last ones may still be taken back
        if(to > committed) { j->setCommitIndex(to); committed = to; }
        usleep(cg.below(400));
      }
    });
    std::thread applier([&] {
      Rng pg(seed + 3);
      Publisher pub;
      RedisDispatcher rd(*sm, pub);
      while(!stop && !ctx().failed()) {
        while(applied < committed) { RaftEntry e; j->fetch(applied + 1, e); rd.dispatch(e.request, applied + 1); applied++; if(pg.chance(10)) usleep(200); }
        usleep(50);
      }
    });
    struct P { std::string path; int64_t appliedBefore, committedBefore, appliedAfter, termAfter; bool snap; };
    std::vector<P> ps;
    std::vector<std::unique_ptr<ShardSnapshot>> keep;
    for(int k = 0; k < 10 && !ctx().failed(); k++) {
      usleep(g.below(30000));
      P p;
      p.appliedBefore = applied; p.committedBefore = committed;
      std::string err;
      p.snap = k % 2;
      if(!p.snap) { p.path = base + "/c" + std::to_string(k); err = sd->checkpoint(p.path); p.path += "/current"; }
      else { keep.push_back(sd->takeSnapshot("s" + std::to_string(k), err)); if(keep.back()) p.path = keep.back()->getPath(); else err = "no snapshot"; }
      VF_CHECK(err.empty(), "refused", "a " << (p.snap ? "snapshot" : "checkpoint") << " fails: " << err);
      p.appliedAfter = applied + 1; p.termAfter = term + 1;
      ps.push_back(p);
      ctx().count("checkpoints");
    }
    stop = true;
    appender.join(); committer.join(); applier.join();
    if(ctx().failed()) return;
    for(auto &p : ps) {
      std::string what = SSTR((p.snap ? "snapshot" : "checkpoint") << " of a log from " << start << ", seed " << seed);
      std::string msg;
      std::string tdir = freshDir("replay");
      LogIndex la = 0;
      if(throws([&] {
        {
          RaftJournal cj(p.path + "/raft-journal");
          StateMachine csm(p.path + "/state-machine");
          la = csm.getLastApplied();
          VF_CHECK(la >= p.appliedBefore && la <= p.appliedAfter, "applied", what << ": applied up to " << la << ", it was " << p.appliedBefore << " before and at most " << p.appliedAfter << " afterwards");
          VF_CHECK(la <= cj.getCommitIndex() && cj.getCommitIndex() < cj.getLogSize() && la + 1 >= cj.getLogStart() && cj.getCommitIndex() >= p.committedBefore && cj.getCurrentTerm() <= p.termAfter, "journal", what << ": applied " << la << ", committed " << cj.getCommitIndex() << ", log " << cj.getLogStart() << ".." << cj.getLogSize() << "; committed before: " << p.committedBefore);
          RaftTerm last = 0;
          for(LogIndex i = cj.getLogStart(); i < cj.getLogSize() && !ctx().failed(); i++) { RaftTerm t = 0; VF_CHECK(cj.fetch(i, t).ok() && t >= last && t <= cj.getCurrentTerm(), "journal", what << ": entry " << i << " is of term " << t << ", after " << last); last = t; }
          StateMachine rep(tdir + "/state-machine");
          if(start) rep.forceResetLastApplied(start);
          Publisher pub;
          RedisDispatcher rd(rep, pub);
          for(LogIndex i = std::max<LogIndex>(start, 0) + 1; i <= la; i++) { RaftEntry e; if(!cj.fetch(i, e).ok()) { VF_FAIL("journal", what << ": entry " << i << " cannot be read"); break; } rd.dispatch(e.request, i); }
        }
      }, &msg)) VF_FAIL("open", what << ": " << msg);
      if(ctx().failed()) return;
      Raw a = rawData(tdir), b = rawData(p.path);
      VF_CHECK(a == b, "replay", what << ": the data are not what its log says up to " << la << ": " << diff(a, b));
      ctx().eval(SSTR(la - p.appliedBefore << "," << start));
      ctx().count("entries_replayed", la - start);
    }
    if(round == 0) ctx().sample(SSTR("log from " << start << ": " << ps.size() << " taken, " << applied << " applied"));
  }
}

// ---------------------------------------------------------------- places, and failing file systems
static std::string failPrefix;
static std::atomic<long> failAt {-1}, ops {0};
static std::atomic<bool> hit {false};
static thread_local bool inside = false;
static bool failNow(const std::string &p) {
  if(failAt < 0 || p.compare(0, failPrefix.size(), failPrefix) != 0) return false;
  if(ops++ != failAt) return false;
  hit = true;
  errno = ENOSPC;
  return true;
}
static bool failNow(const char *p) {
  if(failAt < 0 || inside || !p) return false;
  inside = true;
  bool r = failNow(std::string(p));
  inside = false;
  if(r) errno = ENOSPC;
  return r;
}
static bool failNow(int fd) {
  if(failAt < 0 || inside) return false;
  char l[64], b[4096];
  snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof(b) - 1);
  if(n <= 0) return false;
  b[n] = 0;
  return failNow((const char*) b);
}
#ifndef __SANITIZE_THREAD__
extern "C" int link(const char *a, const char *b) { if(failNow(b)) return -1; return syscall(SYS_link, a, b); }
extern "C" int rename(const char *a, const char *b) { if(failNow(b)) return -1; return syscall(SYS_rename, a, b); }
extern "C" int mkdir(const char *p, mode_t m) { if(failNow(p)) return -1; return syscall(SYS_mkdir, p, m); }
extern "C" ssize_t write(int fd, const void *b, size_t n) { if(failNow(fd)) return -1; return syscall(SYS_write, fd, b, n); }
extern "C" int fdatasync(int fd) { if(failNow(fd)) return -1; return syscall(SYS_fdatasync, fd); }
extern "C" int fsync(int fd) { if(failNow(fd)) return -1; return syscall(SYS_fsync, fd); }
extern "C" int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap); if((fl & O_CREAT) && failNow(p)) return -1; return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
extern "C" int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap); if((fl & O_CREAT) && failNow(p)) return -1; return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
extern "C" FILE* fopen(const char *p, const char *m) {
  static FILE* (*real)(const char*, const char*) = nullptr;
  if(!real) real = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  if(m[0] != 'r' && failNow(p)) return nullptr;
  return real(p, m);
}
extern "C" size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { if(failAt >= 0 && !inside && failNow(fileno(f))) return 0; return fwrite_unlocked(p, s, n, f); }
#endif

static void refused(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    bool raft = round % 2;
    Rng g(ctx().seed + round);
    std::string base = freshDir("refused"), dir = base + "/node";
    std::string cwd = freshDir("cwd");
    chdir(cwd.c_str());
    Status st;
    std::vector<RaftServer> nodes {RaftServer("127.0.0.1", 7777)};
    delete (raft ? ShardDirectory::create(dir, "cid", "default", nodes, 0, FsyncPolicy::kAsync, nullptr, st) : ShardDirectory::create(dir, "cid", "default", nullptr, st));
    std::unique_ptr<QuarkDBNode> node = openNode(dir, raft);
    std::unique_ptr<User> u(new User(node.get()));
    if(raft && !eventually([&] { return field(u->one({"RAFT_INFO"}), "STATUS") == "LEADER" && u->one({"SET", "ready", "1"}).type == '+'; }, 30000)) { VF_FAIL("leader", "a node alone does not become leader"); return; }
    if(!raft) u->one({"SET", "ready", "1"});
    mkdir((base + "/twin").c_str(), 0755);
    Twin twin(base + "/twin", 1);
    { Transaction tx; tx.emplace_back(req({"SET", "ready", "1"})); twin.rd->dispatch(tx, 0); }
    int gen = 0;
    auto writeOne = [&] { auto cs = work(0, ++gen); cs.insert(cs.begin(), {"MULTI"}); cs.push_back({"EXEC"}); auto r = u->call(cs, cs.size()); bool ok = r.size() == cs.size() && r.back().type == '*'; VF_CHECK(ok, "after:write", "after a failed checkpoint a write answers " << (r.empty() ? "nothing" : resp::show(r.back()))); };
    for(int i = 0; i < 20; i++) writeOne();
    // somebody else's things
    mkdir((base + "/taken").c_str(), 0755);
    { std::ofstream f(base + "/taken/precious"); f << "precious"; }
    { std::ofstream f(base + "/file"); f << "precious"; }
    mkdir((base + "/empty").c_str(), 0755);
    mkdir((base + "/half").c_str(), 0755); mkdir((base + "/half/current").c_str(), 0755);
    if(symlink((base + "/taken").c_str(), (base + "/link").c_str()) != 0 || symlink("nowhere", (base + "/dangling").c_str()) != 0) {}
    std::vector<std::string> bad {base + "/taken", base + "/taken/", base + "/file", base + "/file/x", base + "/empty", base + "/half", base + "/missing/x", base + "/link", base + "/dangling", dir, dir + "/current", "/", ".", "..", base + "/" + std::string(300, 'n'), "/proc/x", "/dev/null/x"};
    struct stat s1, s2;
    std::string elsewhere;
    if(stat("/dev/shm", &s1) == 0 && stat(base.c_str(), &s2) == 0 && s1.st_dev != s2.st_dev && access("/dev/shm", W_OK) == 0) { elsewhere = "/dev/shm/vf-c24-" + std::to_string(getpid()); bad.push_back(elsewhere); ctx().count("other_filesystem"); }
    for(auto &b : bad) {
      ctx().current("checkpoint into " + b);
      Raw before = readTree(base + "/taken"), cwdBefore = readTree(cwd);
      auto r = u->one({"QUARKDB_CHECKPOINT", b});
      VF_CHECK(r.type == '-', "reported", "a checkpoint into '" << b << "' answers " << resp::show(r));
      VF_CHECK(readTree(base + "/taken") == before && readTree(cwd) == cwdBefore, "overwritten", "a checkpoint into '" << b << "' changes what is there");
      std::ifstream f(base + "/file"); std::stringstream ss; ss << f.rdbuf();
      VF_CHECK(ss.str() == "precious", "overwritten", "a checkpoint into '" << b << "' changes what is there");
      writeOne();
      ctx().count("places_refused");
      ctx().eval("bad:" + b.substr(0, 200));
    }
    if(!elsewhere.empty()) { std::string tmp = elsewhere; removeTree(tmp); }
    for(auto &a : std::vector<std::vector<std::string>>{{"QUARKDB_CHECKPOINT"}, {"QUARKDB_CHECKPOINT", base + "/a", base + "/b"}}) {
      auto r = u->one(a);
      VF_CHECK(r.type == '-', "arguments", vf::show(a) << " answers " << resp::show(r));
    }
    // a file system which fails once, at every place
    int n = 0;
    for(long k = 0; k < 400 && !ctx().failed(); k++) {
      std::string at = base + "/fault" + std::to_string(k);
      ctx().current("failing at operation " + std::to_string(k));
      failPrefix = at; ops = 0; hit = false;
      failAt = k;
      auto r = u->one({"QUARKDB_CHECKPOINT", at});
      failAt = -1;
      bool was = hit;
      if(r.type == '+') {
        // then it has to be one
        for(int w = 0; w < 1; w++) twin.advance(w, gen);
        Raw want = twin.dump(), got;
        got = rawData(at + "/current");
        VF_CHECK(want == got, "fault:content", "operation " << k << " on the files of a checkpoint failed, it was reported as done, and " << diff(want, got));
        std::string msg;
        if(throws([&] { ShardDirectory sd(at); sd.getStateMachine(); if(raft) sd.getRaftJournal(); }, &msg)) VF_FAIL("fault:open", "operation " << k << " on the files of a checkpoint failed, it was reported as done, and cannot be opened: " << msg);
        if(was) ctx().count("faults_survived");
      }
      else { VF_CHECK(was, "fault:refused", "a checkpoint answers " << resp::show(r)); ctx().count("faults_reported"); }
      removeTree(at);
      ctx().eval(SSTR("fault:" << raft << k << r.type));
      writeOne();
      n++;
      if(!was) break;
    }
    // and works again
    auto r = u->one({"QUARKDB_CHECKPOINT", base + "/final"});
    VF_CHECK(r.type == '+', "after:checkpoint", "after the failures a checkpoint answers " << resp::show(r));
    u.reset(); node.reset();
    if(ctx().failed()) return;
    twin.advance(0, gen);
    Raw want = twin.dump(), got = rawData(dir + "/current"), fin = rawData(base + "/final/current");
    VF_CHECK(want == got, "after:live", "after failed checkpoints the data are not what was confirmed: " << diff(want, got));
    VF_CHECK(want == fin, "after:content", "a checkpoint after failed ones: " << diff(want, fin));
    ctx().sample(SSTR((raft ? "raft: " : "standalone: ") << bad.size() << " places refused, " << n << " operations failed"));
  }
}

// ---------------------------------------------------------------- while the contents are replaced
static void swapMode(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    Rng g(ctx().seed * 7 + round);
    std::string base = freshDir("swap");
    RaftServer me("127.0.0.1", 7777);
    std::vector<RaftServer> nodes {me, RaftServer("127.0.0.1", 7778), RaftServer("127.0.0.1", 7779)};
    RaftTimeouts slow(std::chrono::milliseconds(60000), std::chrono::milliseconds(90000), std::chrono::milliseconds(50));
    auto mk = [&](const std::string &d, int gens, RaftTerm t) {
      Status st;
      std::unique_ptr<ShardDirectory> sd(ShardDirectory::create(d, "cid", "default", nodes, 0, FsyncPolicy::kAsync, nullptr, st));
      RaftJournal *j = sd->getRaftJournal();
      j->setCurrentTerm(t, me);
      Publisher pub;
      RedisDispatcher rd(*sd->getStateMachine(), pub);
      for(int i = 1; i <= gens; i++) { j->append(i, RaftEntry(t, req({"SET", "gen", std::to_string(t) + "/" + std::to_string(i)}))); j->setCommitIndex(i); RaftEntry e; j->fetch(i, e); rd.dispatch(e.request, i); }
      return sd;
    };
    const int k = 5;
    std::vector<Raw> donors;
    for(int i = 0; i < k; i++) {
      auto sd = mk(base + "/donor" + std::to_string(i), 10 + 10 * i, 2 + i);
      std::string err = sd->checkpoint(base + "/d" + std::to_string(i));
      VF_CHECK(err.empty(), "refused", err);
      donors.push_back(readTree(base + "/d" + std::to_string(i) + "/current"));
    }
    std::unique_ptr<ShardDirectory> own = mk(base + "/n", 5, 1);
    Configuration cfg;
    Configuration::fromString("redis.mode raft\nredis.myself 127.0.0.1:7777\nredis.database " + base + "/n\n", cfg);
    std::unique_ptr<QuarkDBNode> node(new QuarkDBNode(cfg, slow, own.get()));
    User u1(node.get()), u2(node.get());
    std::atomic<bool> stop {false};
    std::vector<std::string> made;
    std::thread cp([&] {
      for(int i = 0; !stop && !ctx().failed(); i++) {
        std::string p = base + "/c" + std::to_string(i);
        auto r = u1.one({"QUARKDB_CHECKPOINT", p});
        if(r.type == '+') { made.push_back(p); ctx().count("checkpoints"); }
        else { VF_CHECK(r.type == '-', "swap:reply", "a checkpoint during a resilvering answers " << resp::show(r)); ctx().count("checkpoints_refused"); }
      }
    });
    auto hs = u2.one({"RAFT_HANDSHAKE", VERSION_FULL_STRING, "cid", slow.toString()});
    VF_CHECK(hs.type == '+', "swap:handshake", resp::show(hs));
    for(int i = 0; i < k && !ctx().failed(); i++) {
      std::string id = "id" + std::to_string(i);
      VF_CHECK(u2.one({"QUARKDB_START_RESILVERING", id}).type == '+', "swap:start", "refused");
      for(auto &f : donors[i]) if(f.first.back() != '/') {
        if(f.second.empty()) { std::string err; own->resilveringCopy(id, f.first, "", err); continue; }
        auto r = u2.one({"QUARKDB_RESILVERING_COPY_FILE", id, f.first, f.second});
        VF_CHECK(r.type == '+', "swap:copy", resp::show(r));
      }
      auto r = u2.one({"QUARKDB_FINISH_RESILVERING", id});
      VF_CHECK(r.type == '+', "swap:finish", "a resilvering finishes with " << resp::show(r));
      ctx().count("swaps");
      usleep(g.below(30000));
    }
    stop = true;
    cp.join();
    u1.cl.hangup(); u2.cl.hangup();
    node.reset(); own.reset();
    if(ctx().failed()) return;
    for(auto &p : made) {
      Raw d = rawData(p + "/current");
      RaftJournal j(p + "/current/raft-journal");
      StateMachine sm(p + "/current/state-machine");
      RaftTerm t = j.getCurrentTerm();
      LogIndex n = t == 1 ? 5 : 10 + 10 * (t - 2);
      VF_CHECK(d["agen"] == SSTR(t << "/" << n) && sm.getLastApplied() == n && j.getLogSize() == n + 1, "swap:mixed", "a checkpoint during a resilvering holds data '" << esc(d["agen"]) << "' applied up to " << sm.getLastApplied() << ", with a journal of " << j.getLogSize() << " entries of term " << t);
      std::ifstream f(p + "/RESILVERING-HISTORY"); std::stringstream ss; ss << f.rdbuf();
      std::string h = ss.str();
      VF_CHECK(std::count(h.begin(), h.end(), '\n') == t, "swap:history", "a checkpoint with data of term " << t << " has the history '" << esc(h) << "'");
      ctx().eval(SSTR("swap" << t << round));
    }
    if(round == 0) ctx().sample(SSTR("swap: " << made.size() << " checkpoints during " << k << " resilverings"));
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Link::setConnectionLogging(false);
  std::string mode = ctx().arg("mode", "standalone");
  if(mode == "standalone") working(false, ctx().n(8, 80));
  else if(mode == "raft") working(true, ctx().n(3, 30));
  else if(mode == "log") logMode(ctx().n(5, 60));
  else if(mode == "refused") refused(ctx().n(4, 12));
  else if(mode == "swap") swapMode(ctx().n(5, 60));
  else { fprintf(stderr, "mode?\n"); return 2; }
  return ctx().finish();
}
