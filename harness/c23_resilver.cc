// C23: what a resilvering leaves behind on the node which receives it.
//  proto    start, copy, finish in every order on a shard directory, with hostile names, incomplete and outdated contents
//  copy     the real sender against a real shard, with every kind of failure in between
//  busy     a shard resilvered over and over while clients talk to it
//  crash    the receiver dies at every file operation of the finish, and starts again
//  history  the event log through its serialization
#include "raft.hh"
#include "node.hh"
#include "Shard.hh"
#include "pubsub/Publisher.hh"
#include "storage/Randomization.hh"
#include "utils/Resilvering.hh"
#include "raft/RaftResilverer.hh"
#include "Version.hh"
#include <array>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/wait.h>
using namespace vf;
using namespace quarkdb;

typedef std::map<std::string, std::string> Tree;      // path -> contents, directories end in '/'

static void readTree(const std::string &dir, const std::string &prefix, Tree &t) {
  DIR *d = opendir(dir.c_str());
  if(!d) return;
  while(dirent *e = readdir(d)) {
    std::string n = e->d_name, p = dir + "/" + n;
    if(n == "." || n == "..") continue;
    struct stat st;
    if(lstat(p.c_str(), &st) != 0) continue;
    if(S_ISDIR(st.st_mode)) { t[prefix + n + "/"] = ""; readTree(p, prefix + n + "/", t); }
    else if(S_ISREG(st.st_mode)) { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); t[prefix + n] = ss.str(); }
    else t[prefix + n] = "(special)";
  }
  closedir(d);
}
static Tree tree(const std::string &dir) { Tree t; readTree(dir, "", t); return t; }
static Tree files(const Tree &t) { Tree o; for(auto &k : t) if(k.first.back() != '/') o.insert(k); return o; }
static std::string diff(const Tree &a, const Tree &b) {
  for(auto &k : a) { auto it = b.find(k.first); if(it == b.end()) return "'" + esc(k.first) + "' is missing"; if(it->second != k.second) return "'" + esc(k.first) + "' differs: " + std::to_string(k.second.size()) + " and " + std::to_string(it->second.size()) + " bytes"; }
  for(auto &k : b) if(!a.count(k.first)) return "'" + esc(k.first) + "' is new";
  return "";
}
// the directory called name, wherever it is
static std::string locate(const std::string &dir, const std::string &name) {
  DIR *d = opendir(dir.c_str());
  if(!d) return "";
  std::string found;
  while(dirent *e = readdir(d)) {
    std::string n = e->d_name, p = dir + "/" + n;
    struct stat st;
    if(n == "." || n == ".." || lstat(p.c_str(), &st) != 0 || !S_ISDIR(st.st_mode)) continue;
    found = n == name ? p : locate(p, name);
    if(!found.empty()) break;
  }
  closedir(d);
  return found;
}
static void writeTree(const std::string &dir, const Tree &t) {
  for(auto &k : t) {
    std::string p = dir + "/" + k.first;
    if(k.first.back() == '/') { mkdir(p.c_str(), 0755); continue; }
    std::ofstream f(p, std::ios::binary);
    f << k.second;
  }
}
static Tree noInternals(Tree m) { for(auto it = m.begin(); it != m.end(); ) it = (!it->first.empty() && it->first[0] == '_') ? m.erase(it) : std::next(it); return m; }

// The contents of a shard: what is in its state machine, and its journal.
struct Content {
  Tree sm, journal;
  std::map<std::string, std::string> kv;
  RaftTerm term = 0, lastTerm = 0;
  LogIndex size = 0, start = 0, commit = 0;
};
static Content contentOf(const std::string &current) {
  Content c;
  c.sm = noInternals(dumpRaw(current + "/state-machine"));
  c.journal = dumpRaw(current + "/raft-journal");
  return c;
}
static void stamp(Content &c, RaftJournal *j) {
  c.term = j->getCurrentTerm(); c.size = j->getLogSize(); c.start = j->getLogStart(); c.commit = j->getCommitIndex();
  j->fetch(c.size - 1, c.lastTerm).ok();
}

static std::string blob(Rng &g) {
  size_t n = g.chance(4) ? 20000 + g.below(120000) : g.chance(20) ? g.below(5000) : g.below(60);
  std::string s(n, 0);
  for(auto &ch : s) ch = g.below(256);
  return s;
}

// appends n entries of the given term, commits and applies all but the last `loose`
static void grow(Rng &g, ShardDirectory &sd, RaftTerm term, int n, int loose, const std::string &tag) {
  RaftJournal *j = sd.getRaftJournal();
  StateMachine *sm = sd.getStateMachine();
  if(term > j->getCurrentTerm()) j->setCurrentTerm(term, RaftServer("127.0.0.1", 7777));
  Publisher pub;
  RedisDispatcher rd(*sm, pub);
  for(int i = 0; i < n; i++) {
    RedisRequest r;
    switch(g.below(4)) {
      case 0: r = req({"HSET", tag + "h" + std::to_string(g.below(20)), "f" + std::to_string(g.below(50)), blob(g)}); break;
      case 1: r = req({"DEL", tag + "k" + std::to_string(g.below(60))}); break;
      default: r = req({"SET", tag + "k" + std::to_string(g.below(60)), blob(g)});
    }
    j->append(j->getLogSize(), RaftEntry(term, r));
  }
  LogIndex commit = std::max<LogIndex>(j->getCommitIndex(), j->getLogSize() - 1 - loose);
  j->setCommitIndex(commit);
  for(LogIndex i = sm->getLastApplied() + 1; i <= commit; i++) { RaftEntry e; j->fetch(i, e); rd.dispatch(e.request, i); }
}

static std::vector<RaftServer> theNodes() { return {RaftServer("127.0.0.1", 7777), RaftServer("127.0.0.1", 7778), RaftServer("127.0.0.1", 7779)}; }
static ShardDirectory* makeShard(const std::string &dir, const std::vector<RaftServer> &nodes) {
  Status s;
  ShardDirectory *sd = ShardDirectory::create(dir, "cid", "default", nodes, 0, FsyncPolicy::kAsync, nullptr, s);
  if(!s.ok() || !sd) { fprintf(stderr, "VF-HARNESS-ERROR cannot create %s: %s\n", dir.c_str(), s.getMsg().c_str()); _exit(2); }
  return sd;
}

// A snapshot as a leader would send it
struct Donor { Tree files; Content c; std::string name; };
static Donor makeDonor(Rng &g, const std::string &name, const std::vector<std::array<int, 3>> &history, int trim) {
  std::string dir = freshDir("donor-" + name) + "/d";
  Donor d;
  d.name = name;
  std::unique_ptr<ShardDirectory> sd(makeShard(dir, theNodes()));
  for(auto &h : history) grow(g, *sd, h[0], h[1], h[2], "d" + name);
  if(trim > 0) sd->getRaftJournal()->trimUntil(std::min<LogIndex>(trim, sd->getStateMachine()->getLastApplied()));
  stamp(d.c, sd->getRaftJournal());
  std::string err, where;
  {
    auto snap = sd->takeSnapshot("snap", err);
    if(!snap) { VF_FAIL("snapshot:failed", "cannot take a snapshot: " << err); return d; }
    where = snap->getPath();
    Tree t = tree(where);
    d.files = files(t);
    // readable on its own, on a copy
    std::string copy = freshDir("donor-copy-" + name);
    writeTree(copy, t);
    Content c = contentOf(copy);
    d.c.sm = c.sm; d.c.journal = c.journal;
  }
  struct stat st;
  VF_CHECK(stat(where.c_str(), &st) != 0, "snapshot:left", "the snapshot is still there after its release");
  sd.reset();
  Content live = contentOf(dir + "/current");
  VF_CHECK(live.sm == d.c.sm && live.journal == d.c.journal, "snapshot:content", "a snapshot of an idle shard does not hold its data: " << diff(live.sm, d.c.sm) << diff(live.journal, d.c.journal));
  return d;
}

static bool newerOrSame(const Content &a, const Content &b) {   // may a replace b?
  if(a.term < b.term) return false;
  if(a.lastTerm != b.lastTerm) return a.lastTerm > b.lastTerm;
  return a.size >= b.size;
}

static void usable(ShardDirectory &sd, const std::string &what) {
  std::string v;
  LogIndex la = sd.getStateMachine()->getLastApplied();
  RaftJournal *j = sd.getRaftJournal();
  RaftEntry e;
  VF_CHECK(j->fetch(j->getLogSize() - 1, e).ok(), "live:journal", "the last journal entry cannot be read, " << what);
  VF_CHECK(la <= j->getCommitIndex() && la + 1 >= j->getLogStart(), "live:applied", "applied index " << la << ", log from " << j->getLogStart() << ", commit index " << j->getCommitIndex() << ", " << what);
  std::string key = "probe";
  rocksdb::Status st = sd.getStateMachine()->get(key, v);
  VF_CHECK(st.ok() || st.IsNotFound(), "live:read", "cannot read: " << st.ToString() << ", " << what);
}

static void proto(int rounds) {
  Rng g(ctx().seed * 31 + 1);
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    std::string base = freshDir(g.chance(50) ? "proto dir" : "proto");
    // things which must not be touched
    Tree bystanders {{"outside/", ""}, {"outside/file", "precious"}, {"file", "precious"}, {"nodes/", ""}};
    writeTree(base, bystanders);
    std::string dir = base + "/nodes/n";
    std::unique_ptr<ShardDirectory> sd(makeShard(dir, theNodes()));
    grow(g, *sd, 2, 5 + g.below(30), 0, "own");
    if(g.chance(50)) grow(g, *sd, 4, 1 + g.below(20), g.below(4), "own");
    int ownSize = sd->getRaftJournal()->getLogSize();
    std::vector<Donor> donors;
    donors.push_back(makeDonor(g, "newest", {{1, 10, 0}, {7, 40 + (int) g.below(60), (int) g.below(3)}}, g.chance(50) ? 30 : 0));
    donors.push_back(makeDonor(g, "same-term", {{2, 10, 0}, {4, std::max<int>(1, ownSize - 14 + (int) g.below(9)), 0}}, 0));
    donors.push_back(makeDonor(g, "old-term", {{1, 10, 0}, {3, 200, 0}}, 100));
    donors.push_back(makeDonor(g, "oldest", {{1, 3, 0}}, 0));
    donors.push_back(makeDonor(g, "newer-still", {{1, 10, 0}, {9, 30, 1}}, 20));
    if(ctx().failed()) return;
    sd.reset();
    Content live = contentOf(dir + "/current");
    sd.reset(new ShardDirectory(dir));
    stamp(live, sd->getRaftJournal());
    std::vector<std::string> history {"GENESIS"};
    std::map<std::string, std::map<std::string, std::string>> arena;   // what was accepted
    std::vector<std::string> log;
    // hostile as well
    std::vector<std::string> ids {"5d2ba2c0-aaaa", "b", "c d", "id'quote", "UUID-4-4-4", "x..y"}, badIds {"", ".", "..", "a/b", "../../outside", "../supplanted/q", "new\nline", "a - b", "/", std::string("nul\0nul", 7)};
    auto tell = [&] { std::string s; for(size_t i = log.size() > 25 ? log.size() - 25 : 0; i < log.size(); i++) s += log[i] + "; "; return s; };
    Tree before = files(tree(base));
    for(int step = 0; step < 40 && !ctx().failed(); step++) {
      ctx().current("proto round " + std::to_string(round) + ": " + tell());
      std::string err;
      bool hostile = g.chance(20);
      std::string id = hostile ? g.pick(badIds) : g.pick(ids);
      int op = g.below(10);
      auto snapshotBefore = [&] { before = files(tree(base)); };
      auto unchangedBut = [&](const std::string &allowed) {   // an absolute prefix
        Tree now = files(tree(base));
        for(auto *pr : {&before, &now}) for(auto it = pr->begin(); it != pr->end(); ) {
          std::string abs = base + "/" + it->first;
          // the databases keep logs and the like of their own
          bool db = abs.compare(0, dir.size() + 9, dir + "/current/") == 0;
          bool ok = db || (!allowed.empty() && abs.compare(0, allowed.size(), allowed) == 0);
          it = ok ? pr->erase(it) : std::next(it);
        }
        std::string df = diff(before, now);
        VF_CHECK(df.empty(), "proto:outside", "files outside the arena change: " << df << ", after " << tell());
      };
      if(op < 2) {
        log.push_back("start " + esc(id));
        snapshotBefore();
        bool ok = sd->resilveringStart(id, err);
        if(hostile) VF_CHECK(!ok, "proto:id", "a resilvering named '" << esc(id) << "' is accepted");
        else { VF_CHECK(ok, "proto:start", "start refused: " << err << ", after " << tell()); arena[id]; }
        unchangedBut("");
        ctx().count("starts");
      }
      else if(op < 5) {
        // a file or two, with names good and bad
        static const std::vector<std::string> names {"a", "state-machine/x", "dir with space/f", "deep/er/and/deeper", "..a", "a..", ".hidden", "state-machine.bak/CURRENT"};
        static const std::vector<std::string> bad {"../escaped", "../../current/state-machine/CURRENT", "a/../../escaped", "", "x/..", "..", ".", "a//b", "a/", "/abs", "a/./b", "../../../../outside/file", std::string("../\0x", 5)};
        bool badName = g.chance(40);
        std::string fn = badName ? g.pick(bad) : g.pick(names), data = blob(g);
        log.push_back("copy " + esc(id) + " " + esc(fn) + " " + std::to_string(data.size()));
        snapshotBefore();
        bool ok = sd->resilveringCopy(id, fn, data, err);
        std::string where = hostile ? "" : dir + "/resilvering-arena/" + id + "/";
        std::string at = locate(dir, id);
        unchangedBut(ok && !hostile ? (at.empty() ? where : at + "/") : "");
        if(hostile || badName) { if(ok && (hostile || fn.find("..") != std::string::npos)) VF_FAIL("proto:escape", "copying into '" << esc(id) << "', file '" << esc(fn) << "' is accepted"); }
        else {
          VF_CHECK(ok, "proto:copy", "copy refused: " << err << ", after " << tell());
          Tree t = tree(at);
          VF_CHECK(!at.empty() && t.count(fn) && t[fn] == data, "proto:bytes", "file '" << fn << "' of " << data.size() << " bytes is not there as sent, after " << tell());
          arena[id][fn] = data;
        }
        ctx().count("copies");
      }
      else if(op < 7) {
        // finishing what was never there, or holds nothing of use
        log.push_back("finish " + esc(id));
        bool known = !hostile && arena.count(id);
        snapshotBefore();
        bool ok = true;
        std::string what;
        bool threw = throws([&] { ok = sd->resilveringFinish(id, err); }, &what);
        VF_CHECK(!threw, "proto:throws", "finishing '" << esc(id) << "' throws: " << what << ", after " << tell());
        if(threw) return;
        VF_CHECK(!ok, "proto:empty", "finishing '" << esc(id) << "' succeeds without its data (" << (known ? "started" : "never started") << "), after " << tell());
        unchangedBut(known ? locate(dir, id) + "/" : "");
        usable(*sd, "after a refused finish: " + tell());
        ctx().count("finishes_refused");
      }
      else {
        // a whole one, complete or not
        std::string nid = "full-" + std::to_string(round) + "-" + std::to_string(step);
        const Donor &d = g.pick(donors);
        std::vector<std::pair<std::string, std::string>> fs(d.files.begin(), d.files.end());
        for(size_t i = fs.size(); i > 1; i--) std::swap(fs[i - 1], fs[g.below(i)]);
        int damage = g.below(4);       // 0, 1: none, 2: a file is missing, 3: nothing of one database
        std::string lost;
        sd->resilveringStart(nid, err);
        if(damage == 2) { lost = fs.back().first; fs.pop_back(); }
        if(damage == 3) { lost = g.chance(50) ? "raft-journal" : "state-machine"; for(size_t i = 0; i < fs.size(); ) if(fs[i].first.compare(0, lost.size(), lost) == 0) fs.erase(fs.begin() + i); else i++; }
        log.push_back("resilver from " + d.name + (lost.empty() ? "" : " without " + lost));
        for(auto &f : fs) {
          if(g.chance(3)) sd->resilveringCopy(nid, f.first, "something else, sent again later", err);
          VF_CHECK(sd->resilveringCopy(nid, f.first, f.second, err), "proto:copy", "copy refused: " << err << ", after " << tell());
        }
        std::string at = locate(dir, nid);
        Tree got = files(tree(at)), want;
        for(auto &f : fs) want[f.first] = f.second;
        VF_CHECK(got == want, "proto:bytes", "the arena does not hold what was sent: " << diff(want, got) << ", after " << tell());
        if(g.chance(15)) { log.push_back("(interrupted)"); ctx().count("interrupted"); continue; }
        bool ok = false;
        std::string what;
        bool threw = throws([&] { ok = sd->resilveringFinish(nid, err); }, &what);
        VF_CHECK(!threw, "proto:throws", "finish throws: " << what << ", after " << tell());
        if(threw) return;
        bool may = newerOrSame(d.c, live);
        if(damage < 2 && may) VF_CHECK(ok, "proto:refused", "a complete copy is refused: " << err << ", after " << tell());
        if(!may) VF_CHECK(!ok, "proto:older", "older contents (term " << d.c.term << ", last entry " << d.c.size - 1 << " of term " << d.c.lastTerm << ") replace newer ones (term " << live.term << ", " << live.size - 1 << " of " << live.lastTerm << "), after " << tell());
        if(damage == 3) VF_CHECK(!ok, "proto:incomplete", "contents without " << lost << " are accepted, after " << tell());
        usable(*sd, "after " + tell());
        ctx().count(ok ? "finishes" : "finishes_refused");
        ctx().eval(SSTR("f" << ok << d.name << damage << history.size()));
        // what is there now
        std::vector<std::string> h;
        for(size_t i = 0; i < sd->getResilveringHistory().size(); i++) h.push_back(sd->getResilveringHistory().at(i).getID());
        std::string oldAt = dir + "/supplanted/" + nid;
        sd.reset();
        Content now = contentOf(dir + "/current");
        if(ok) {
          VF_CHECK(now.sm == d.c.sm && now.journal == d.c.journal, "proto:content", "the installed data are not the sender's: " << diff(d.c.sm, now.sm) << "; " << diff(d.c.journal, now.journal) << ", after " << tell());
          std::string kept = locate(dir, nid);
          VF_CHECK(!kept.empty(), "proto:supplanted", "the old data are gone, after " << tell());
          if(!kept.empty()) { Content old = contentOf(kept); VF_CHECK(old.sm == live.sm && old.journal == live.journal, "proto:supplanted", "what was kept as the old data are not the old data, after " << tell()); }
          int64_t t = d.c.term, lt = d.c.lastTerm; LogIndex sz = d.c.size;
          live = now; live.term = t; live.lastTerm = lt; live.size = sz;
          history.push_back(nid);
        }
        else VF_CHECK(now.sm == live.sm && now.journal == live.journal, "proto:touched", "a refused resilvering changes the live data: " << diff(live.sm, now.sm) << "; " << diff(live.journal, now.journal) << ", after " << tell());
        VF_CHECK(h == history, "proto:history", "the history is " << vf::show(h) << ", expected " << vf::show(history));
        // the next steps belong to a restarted process
        std::string msg;
        if(throws([&] { sd.reset(new ShardDirectory(dir)); sd->getStateMachine(); sd->getRaftJournal(); }, &msg)) { VF_FAIL("proto:restart", "cannot start again: " << msg << ", after " << tell()); return; }
        h.clear();
        for(size_t i = 0; i < sd->getResilveringHistory().size(); i++) h.push_back(sd->getResilveringHistory().at(i).getID());
        VF_CHECK(h == history, "proto:history", "after a restart the history is " << vf::show(h) << ", expected " << vf::show(history));
      }
      if(g.chance(10)) {
        std::string msg;
        log.push_back("restart");
        sd.reset();
        if(throws([&] { sd.reset(new ShardDirectory(dir)); sd->getStateMachine(); sd->getRaftJournal(); }, &msg)) { VF_FAIL("proto:restart", "cannot start again: " << msg << ", after " << tell()); return; }
      }
    }
    if(round < 2) ctx().sample("proto " + tell());
  }
}

// ---------------------------------------------------------------- the real sender
static RaftTimeouts slowTimeouts() { return RaftTimeouts(std::chrono::milliseconds(60000), std::chrono::milliseconds(90000), std::chrono::milliseconds(50)); }

struct Target {     // a shard behind a socket, which the harness can disturb
  FakePeer peer;
  std::string dir;
  std::unique_ptr<ShardDirectory> sd;
  std::unique_ptr<Shard> shard;
  std::unique_ptr<Client> cl;
  std::mutex mtx;
  void open(const std::string &d, const std::vector<RaftServer> &nodes) {
    dir = d;
    shard.reset(new Shard(sd.get(), peer.srv(), Mode::raft, slowTimeouts(), ""));
    connect();
  }
  void connect() {
    cl.reset(new Client(shard.get()));
    cl->conn->authorization = true;
    auto r = cl->ask({"RAFT_HANDSHAKE", VERSION_FULL_STRING, "cid", slowTimeouts().toString()});
    if(r.size() != 1 || r[0].type != '+') { fprintf(stderr, "VF-HARNESS-ERROR handshake: %s\n", r.empty() ? "nothing" : resp::show(r[0]).c_str()); _exit(2); }
  }
  std::string forward(const FakePeer::Args &a) {
    std::scoped_lock l(mtx);
    if(cl->dead) { ctx().count("target_hung_up"); connect(); }
    auto r = cl->ask(std::vector<std::string>(a.begin(), a.end()));
    if(r.size() != 1) return "-ERR nothing\r\n";
    return resp::encode(r[0]);
  }
  ~Target() { peer.online = false; peer.stop = true; }
};

static void copy(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    Rng g(seed);
    std::string base = freshDir(g.chance(50) ? "copy dir" : "copy");
    chdir(freshDir("cwd").c_str());
    mkdir((base + "/x").c_str(), 0755);
    Target t;
    FakePeer other;
    RaftServer me("127.0.0.1", 65001);
    std::vector<RaftServer> nodes {me, t.peer.srv(), other.srv()};
    t.peer.online = false;
    // the leader has trimmed what the target would need
    RaftNode n(base + "/x/leader", nodes, me, slowTimeouts());
    t.sd.reset(makeShard(base + "/x/target", nodes));
    int common = 1 + g.below(10), size = 40 + g.below(100);
    {
      Rng g2(seed + 1), g3(seed + 1);
      grow(g2, *n.sd, 1, common, 0, "c");
      grow(g3, *t.sd, 1, common, 0, "c");
      if(g.chance(30)) grow(g3, *t.sd, 1, 3, 3, "lost");        // uncommitted
      grow(g2, *n.sd, 2, size, 0, "l");
    }
    n.j().trimUntil(common + 5 + g.below(size / 2));
    other.log = {};
    t.open(base + "/x/target", nodes);
    Content old;
    stamp(old, t.sd->getRaftJournal());
    std::string key0;
    // what may go wrong, per attempt
    struct Attempt { std::string id; int copies = 0; bool failed = false, finished = false, started = false; Tree sent; };
    std::map<std::string, Attempt> att;
    std::vector<int> faults;
    for(int k = 0; k < 3; k++) faults.push_back(g.below(7));   // then undisturbed
    std::vector<std::string> order;
    std::string problem;
    std::mutex am;
    std::atomic<bool> drop {false};
    std::atomic<int> swaps {0};
    Rng bg(seed + 5);
    t.peer.brain = [&](const FakePeer::Args &a, std::string &r) {
      std::string cmd;
      for(char c : a[0]) cmd += toupper(c);
      if(cmd == "QUARKDB_START_RESILVERING") {
        std::scoped_lock l(am);
        Attempt &x = att[a[1]];
        x.id = a[1]; x.started = true;
        order.push_back(a[1]);
        int f = order.size() <= faults.size() ? faults[order.size() - 1] : -1;
        if(f == 0) { x.failed = true; r = "-ERR injected\r\n"; return true; }
        r = t.forward(a);
        return true;
      }
      if(cmd == "QUARKDB_RESILVERING_COPY_FILE") {
        std::scoped_lock l(am);
        Attempt &x = att[a[1]];
        int f = -1;
        for(size_t i = 0; i < order.size() && i < faults.size(); i++) if(order[i] == a[1]) f = faults[i];
        if(!x.started) problem = "a file arrives for a resilvering which was never started";
        x.copies++;
        if(f == 1 && x.copies == 1 + (int) bg.below(5)) { x.failed = true; r = "-ERR injected\r\n"; return true; }
        if(f == 2 && x.copies == 3) { x.failed = true; t.forward(a); drop = true; r = ""; return true; }
        if(f == 3 && x.copies == 2) {   // the rest of the snapshot goes bad while it is being sent
          std::string at = locate(base + "/x/leader", a[1]);
          int k = 0;
          for(auto &fl : files(tree(at))) {
            std::string rel = fl.first;
            if(x.sent.count(rel) || rel == a[2]) continue;
            std::string p = at + "/" + rel;
            ::unlink(p.c_str());
            if(symlink("/nonexistent/nowhere", p.c_str()) == 0) k++;
          }
          if(k) { x.failed = true; ctx().count("snapshots_spoiled"); }
        }
        // byte for byte what the snapshot holds
        std::string at = locate(base + "/x/leader", a[1]);
        if(!at.empty() && f != 3) {
          std::ifstream in(at + "/" + a[2], std::ios::binary);
          std::stringstream ss; ss << in.rdbuf();
          if(!in || ss.str() != a[3]) problem = "file '" + esc(a[2]) + "' is sent with " + std::to_string(a[3].size()) + " bytes, not as it is in the snapshot";
        }
        if(x.sent.count(a[2])) problem = "file '" + esc(a[2]) + "' is sent twice";
        x.sent[a[2]] = a[3];
        ctx().count("files_sent");
        r = t.forward(a);
        return true;
      }
      if(cmd == "QUARKDB_FINISH_RESILVERING") {
        std::scoped_lock l(am);
        Attempt &x = att[a[1]];
        int f = -1;
        for(size_t i = 0; i < order.size() && i < faults.size(); i++) if(order[i] == a[1]) f = faults[i];
        if(x.finished) {       // sent again, on a new connection
          r = t.forward(a);
          if(r[0] != '-') problem = "finishing twice is accepted";
          ctx().count("finished_twice");
          return true;
        }
        if(x.failed) problem = "a resilvering is finished although sending it had failed (fault " + std::to_string(f) + ")";
        if(f == 4) { x.failed = true; r = "-ERR injected\r\n"; return true; }
        std::string at = locate(base + "/x/leader", a[1]), here = locate(base + "/x/target", a[1]);
        Tree want = files(tree(at)), got = files(tree(here));
        if(at.empty()) problem = "the snapshot is gone before the finish";
        else if(!diff(want, got).empty() && !x.failed) problem = "the copy is not the snapshot: " + diff(want, got);
        Tree wd = tree(at), gd = tree(here);
        for(auto &k : gd) if(!wd.count(k.first)) problem = "'" + k.first + "' is in the copy and not in the snapshot";
        if(problem.empty()) ctx().count("copies_compared");
        x.finished = true;
        swaps++;
        r = t.forward(a);
        if(r[0] == '-') { swaps--; x.finished = false; if(f != 5) problem = "the finish is refused: " + esc(r); }
        if(f == 5) { drop = true; r = ""; }      // done, but nobody is told
        return true;
      }
      if(cmd == "QUARKDB_CANCEL_RESILVERING") { ctx().count("cancels"); r = "-ERR whatever\r\n"; return true; }
      if(cmd.compare(0, 5, "RAFT_") == 0 && cmd != "RAFT_HANDSHAKE") { r = t.forward(a); return true; }
      return false;
    };
    if(!n.ascend()) { VF_FAIL("copy:ascend", "could not become leader"); return; }
    std::string what = SSTR("seed " << seed << ", faults " << faults[0] << faults[1] << faults[2]);
    ctx().current(what);
    n.d();
    n.activate();
    t.peer.online = true;
    // writes go on
    std::atomic<bool> stop {false};
    RaftTerm term = n.st().getSnapshot()->term;
    int extra = g.below(200);
    std::thread writer([&] {
      Rng wg(seed + 9);
      for(int i = 0; i < extra && !stop; i++) {
        n.j().append(n.j().getLogSize(), RaftEntry(term, req({"SET", "w" + std::to_string(wg.below(50)), blob(wg)})));
        n.j().setCommitIndex(n.j().getLogSize() - 1);
        std::this_thread::sleep_for(std::chrono::milliseconds(wg.below(20)));
      }
    });
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(150);
    bool done = false;
    while(std::chrono::steady_clock::now() < end && !ctx().failed()) {
      if(drop.exchange(false)) { t.peer.online = false; usleep(30000); t.peer.online = true; ctx().count("connections_dropped"); }
      { std::scoped_lock l(am); if(!problem.empty()) { VF_FAIL("copy:" + std::string(problem.find("finished although") != std::string::npos ? "finish" : "content"), problem << ", " << what); break; } }
      if(swaps == 0) {
        std::scoped_lock l(t.mtx);
        if(swaps == 0 && g.chance(10)) {
          RaftJournal *j = t.sd->getRaftJournal();
          VF_CHECK(j->getLogSize() == old.size && j->getLogStart() == old.start, "copy:touched", "the live journal changes before any resilvering has finished: " << j->getLogStart() << ".." << j->getLogSize() << " instead of " << old.start << ".." << old.size << ", " << what);
          VF_CHECK(t.sd->getResilveringHistory().size() == 1, "copy:history", "the history has " << t.sd->getResilveringHistory().size() << " events before any resilvering has finished");
          ctx().count("checks_before");
        }
      }
      else {
        std::unique_lock<std::mutex> l(t.mtx, std::try_to_lock);
        if(l && t.sd->getRaftJournal()->getLogSize() == n.j().getLogSize()) { done = true; if(n.j().getLogSize() >= extra + size) break; }
      }
      usleep(5000);
    }
    if(!ctx().failed()) VF_CHECK(done, "copy:stuck", "the target is not up to date after 150 s, " << order.size() << " attempts, " << swaps << " of them finished, " << what);
    stop = true;
    writer.join();
    if(!ctx().failed()) {
      bool ok = eventually([&] { std::scoped_lock l(t.mtx); return t.sd->getRaftJournal()->getLogSize() == n.j().getLogSize() && t.sd->getRaftJournal()->getCommitIndex() == n.j().getCommitIndex() && t.sd->getStateMachine()->getLastApplied() == n.sm().getLastApplied(); }, 30000);
      VF_CHECK(ok, "copy:behind", "the resilvered node does not catch up: log size " << t.sd->getRaftJournal()->getLogSize() << " of " << n.j().getLogSize() << ", " << what);
    }
    std::vector<std::string> h;
    { std::scoped_lock l(t.mtx); for(size_t i = 0; i < t.sd->getResilveringHistory().size(); i++) h.push_back(t.sd->getResilveringHistory().at(i).getID()); }
    n.g->replicator()->deactivate();
    t.peer.online = false;
    usleep(20000);
    { std::scoped_lock l(t.mtx); t.cl.reset(); t.shard.reset(); t.sd.reset(); }
    LogIndex trimmedTo = n.j().getLogStart();
    n.g.reset(); n.sd.reset();
    if(ctx().failed()) return;
    Content a = contentOf(base + "/x/leader/current"), b = contentOf(base + "/x/target/current");
    VF_CHECK(a.sm == b.sm, "copy:data", "the resilvered node has other data than the leader: " << diff(a.sm, b.sm) << ", " << what);
    for(auto &k : a.journal) if(!k.first.empty() && k.first[0] == 'E' && (!b.journal.count(k.first) || b.journal[k.first] != k.second)) { VF_FAIL("copy:journal", "the resilvered node lacks a journal entry of the leader, " << what); break; }
    size_t fin = 0;
    std::vector<std::string> want {"GENESIS"};
    for(auto &id : order) { if(att[id].finished) { fin++; want.push_back(id); } }
    VF_CHECK(h == want, "copy:history", "the history is " << vf::show(h) << ", expected " << vf::show(want) << ", " << what);
    // nothing is left of the snapshots
    for(auto &id : order) VF_CHECK(locate(base + "/x/leader", id).empty(), "copy:left", "the snapshot of a resilvering is still there, " << what);
    std::string kept = locate(base + "/x/target", want.size() > 1 ? want[1] : "-");
    VF_CHECK(!kept.empty(), "copy:supplanted", "the data from before are gone, " << what);
    if(!kept.empty()) VF_CHECK(contentOf(kept).journal.size() > 3, "copy:supplanted", "the data from before are not there");
    ctx().count("attempts", order.size());
    ctx().count("attempts_finished", fin);
    ctx().eval(SSTR("c" << seed << ":" << order.size() << fin));
    if(round < 2) ctx().sample(SSTR("resilvering, " << what << ": " << order.size() << " attempts, " << fin << " finished, log from " << trimmedTo));
  }
}

// ---------------------------------------------------------------- clients while it happens
static void busy(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    Rng g(ctx().seed * 77 + round);
    std::string base = freshDir("busy");
    std::vector<Donor> ds;
    int k = 4;
    for(int i = 0; i < k; i++) ds.push_back(makeDonor(g, "b" + std::to_string(i), {{1, 10, 0}, {2 + i, 20 + i * 20, (int) g.below(3)}}, g.chance(50) ? 15 : 0));
    if(ctx().failed()) return;
    std::unique_ptr<ShardDirectory> sd(makeShard(base + "/n", theNodes()));
    std::unique_ptr<Shard> shard(new Shard(sd.get(), theNodes()[0], Mode::raft, slowTimeouts(), ""));
    std::atomic<bool> stop {false};
    std::atomic<int64_t> replies {0}, unavailable {0};
    std::vector<std::thread> ths;
    std::vector<std::unique_ptr<Client>> cls;
    for(int c = 0; c < 3; c++) cls.emplace_back(new Client(shard.get()));
    for(int c = 0; c < 3; c++) ths.emplace_back([&, c] {
      Rng cg(ctx().seed + c);
      Client *p = cls[c].get();
      p->ask({"RAFT_HANDSHAKE", VERSION_FULL_STRING, "cid", slowTimeouts().toString()});
      static const std::vector<std::vector<std::string>> asks {{"GET", "x"}, {"SET", "x", "y"}, {"RAFT_INFO"}, {"QUARKDB_HEALTH"}, {"QUARKDB_LEVEL_STATS"}, {"RAFT_FETCH", "5"}, {"COMMAND_STATS"}, {"RAFT_LEADER_INFO"}, {"QUARKDB_VERIFY_CHECKSUM"}, {"RAFT_JOURNAL_SCAN", "0"}, {"SCAN", "0"}, {"MULTI"}, {"EXEC"}};
      while(!stop && !ctx().failed()) {
        auto &q = cg.pick(asks);
        auto r = p->ask(q);
        replies += r.size();
        for(auto &x : r) if(x.type == '-' && x.s.find("unavailable") != std::string::npos) unavailable++;
        VF_CHECK(!p->malformed && r.size() >= 1, "busy:reply", vf::show(q) << " gets " << r.size() << " replies while the node is resilvered");
      }
    });
    Client adm(shard.get());
    adm.ask({"RAFT_HANDSHAKE", VERSION_FULL_STRING, "cid", slowTimeouts().toString()});
    for(int i = 0; i < k && !ctx().failed(); i++) {
      std::string id = "busy-" + std::to_string(i);
      auto ok = [&](const std::vector<std::string> &c) { auto r = adm.ask(c); bool o = r.size() == 1 && r[0].type == '+' && r[0].s == "OK"; if(!o) VF_FAIL("busy:refused", c[0] << " answers " << (r.empty() ? "nothing" : resp::show(r[0]))); return o; };
      if(!ok({"QUARKDB_START_RESILVERING", id})) break;
      for(auto &f : ds[i].files) if(!f.second.empty()) { if(!ok({"QUARKDB_RESILVERING_COPY_FILE", id, f.first, f.second})) break; }
      // empty arguments end a connection: the directory interface for these
      std::string err;
      for(auto &f : ds[i].files) if(f.second.empty()) sd->resilveringCopy(id, f.first, "", err);
      if(g.chance(40)) {     // wrong ones first
        auto r = adm.ask({"QUARKDB_FINISH_RESILVERING", "another-" + id});
        VF_CHECK(r.size() == 1 && r[0].type == '-', "busy:wrongid", "finishing an unknown resilvering answers " << (r.empty() ? "nothing" : resp::show(r[0])));
        VF_CHECK(sd->getResilveringHistory().size() == 1 + (size_t) i, "busy:history", "the history grows with an unknown resilvering");
      }
      if(!ok({"QUARKDB_FINISH_RESILVERING", id})) break;
      // a follower again, with the sender's data
      auto r = adm.ask({"RAFT_HEARTBEAT", std::to_string(ds[i].c.term), theNodes()[1].toString()});
      VF_CHECK(r.size() == 1 && r[0].type == '*' && r[0].kids.size() == 3 && r[0].kids[1].s == "1", "busy:follower", "after a resilvering a heartbeat of the leader is answered with " << (r.empty() ? "nothing" : resp::show(r[0])));
      VF_CHECK(sd->getResilveringHistory().size() == 2 + (size_t) i && sd->getRaftJournal()->getLogSize() >= ds[i].c.size, "busy:content", "the data are not there after a resilvering");
      ctx().count("busy_finishes");
      usleep(g.below(40000));
    }
    stop = true;
    for(auto &x : ths) x.join();
    cls.clear();
    adm.hangup();
    shard.reset(); sd.reset();
    if(ctx().failed()) return;
    Content c = contentOf(base + "/n/current");
    // committed entries are applied once a leader says so; these were committed before
    VF_CHECK(c.sm == ds.back().c.sm, "busy:data", "after the last resilvering the data are not the sender's: " << diff(ds.back().c.sm, c.sm));
    ctx().count("busy_replies", replies);
    ctx().count("busy_unavailable", unavailable);
    ctx().eval(SSTR("b" << round << replies));
  }
}

// ---------------------------------------------------------------- a crash in the middle
static long crashAt = -1;
static std::atomic<long> ops {0};
static void maybeDie() { if(crashAt >= 0 && ops++ == crashAt) _exit(77); }
#ifndef __SANITIZE_THREAD__
extern "C" int rename(const char *a, const char *b) { maybeDie(); return syscall(SYS_rename, a, b); }
extern "C" int mkdir(const char *p, mode_t m) { maybeDie(); return syscall(SYS_mkdir, p, m); }
extern "C" int unlink(const char *p) { maybeDie(); return syscall(SYS_unlink, p); }
extern "C" size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { maybeDie(); return fwrite_unlocked(p, s, n, f); }
extern "C" int fclose(FILE *f) {
  static int (*real)(FILE*) = nullptr;
  if(!real) real = (int (*)(FILE*)) dlsym(RTLD_NEXT, "fclose");
  maybeDie();
  return real(f);
}
#endif

static int finishChild() {
  std::string err;
  ShardDirectory sd(ctx().arg("dir", ""));
  sd.getRaftJournal();
  sd.getStateMachine();
  crashAt = atol(ctx().arg("k", "-1").c_str());
  bool ok = sd.resilveringFinish(ctx().arg("id", ""), err);
  crashAt = -1;
  _exit(ok ? 0 : 5);
}

static void crash(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    Rng g(ctx().seed * 91 + round);
    std::string base = freshDir("crash");
    Donor d = makeDonor(g, "c", {{1, 10, 0}, {5, 30 + (int) g.below(30), (int) g.below(3)}}, g.chance(50) ? 12 : 0);
    if(ctx().failed()) return;
    std::string proto = base + "/proto";
    {
      std::unique_ptr<ShardDirectory> sd(makeShard(proto, theNodes()));
      grow(g, *sd, 2, 5 + g.below(30), 0, "own");
      std::string err;
      std::string id0 = "earlier";
      // it has been resilvered before
      Donor e = makeDonor(g, "e", {{1, 10, 0}, {3, 40, 0}}, 0);
      sd->resilveringStart(id0, err);
      for(auto &f : e.files) sd->resilveringCopy(id0, f.first, f.second, err);
      if(!sd->resilveringFinish(id0, err)) { VF_FAIL("crash:refused", "cannot resilver: " << err); return; }
      sd->resilveringStart("now", err);
      for(auto &f : d.files) sd->resilveringCopy("now", f.first, f.second, err);
    }
    Tree start = tree(proto);
    Content old = contentOf(proto + "/current");
    bool over = false;
    int sawOld = 0, sawNew = 0;
    for(long k = 0; !over && k < 400 && !ctx().failed(); k++) {
      std::string dir = base + "/n" + std::to_string(k);
      mkdir(dir.c_str(), 0755);
      writeTree(dir, start);
      std::string ks = std::to_string(k), out = base + "/child.json";
      ctx().current("crash at file operation " + ks);
      pid_t pid = fork();
      if(pid == 0) {
        execl("/proc/self/exe", "c23", "--out", out.c_str(), "--mode", "finish-child", "--dir", dir.c_str(), "--id", "now", "--k", ks.c_str(), (char*) nullptr);
        _exit(99);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if(!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77)) { VF_FAIL("crash:child", "finishing ends with status " << st << " (crash planned at operation " << k << ")"); return; }
      over = WEXITSTATUS(st) == 0;
      std::string msg;
      std::vector<std::string> h;
      LogIndex la = 0;
      if(throws([&] {
        ShardDirectory sd(dir);
        sd.getStateMachine(); sd.getRaftJournal();
        usable(sd, "after a crash at file operation " + ks);
        la = sd.getStateMachine()->getLastApplied();
        for(size_t i = 0; i < sd.getResilveringHistory().size(); i++) h.push_back(sd.getResilveringHistory().at(i).getID());
      }, &msg)) { VF_FAIL("crash:start", "after a crash at file operation " << k << " of a finish, the node cannot start: " << msg); return; }
      Content now = contentOf(dir + "/current");
      bool isOld = now.sm == old.sm && now.journal == old.journal, isNew = now.sm == d.c.sm && now.journal == d.c.journal;
      if(!isOld && !isNew) VF_FAIL("crash:data", "after a crash at file operation " << k << " of a finish, the data are neither the old nor the new ones: " << diff(old.sm, now.sm) << "; " << diff(d.c.sm, now.sm));
      if(over) VF_CHECK(isNew, "crash:done", "a finish without crash leaves the old data");
      (isOld ? sawOld : sawNew)++;
      std::vector<std::string> want {"GENESIS", "earlier"};
      if(isNew) want.push_back("now");
      VF_CHECK(h == want, "crash:history", "after a crash at file operation " << k << ", the history is " << vf::show(h) << ", with the " << (isNew ? "new" : "old") << " data");
      // and it can be resilvered again
      if(g.chance(30)) {
        ShardDirectory sd(dir);
        std::string err;
        sd.resilveringStart("again", err);
        for(auto &f : d.files) sd.resilveringCopy("again", f.first, f.second, err);
        bool ok = false;
        bool thr = throws([&] { ok = sd.resilveringFinish("again", err); }, &msg);
        VF_CHECK(ok && !thr, "crash:again", "after a crash at file operation " << k << ", the next resilvering fails: " << err << msg);
      }
      ctx().count("crashes", !over);
      ctx().eval(SSTR("k" << round << "." << k << isOld));
      system(("rm -rf '" + dir + "'").c_str());
    }
    VF_CHECK(over, "crash:endless", "more than 400 file operations");
    ctx().count("crash_old", sawOld);
    ctx().count("crash_new", sawNew);
    if(round == 0) ctx().sample(SSTR("crash: " << sawOld << " points leave the old data, " << sawNew << " the new ones"));
  }
}

static void history(int rounds) {
  Rng g(ctx().seed * 3 + 7);
  for(int r = 0; r < rounds && !ctx().failed(); r++) {
    ResilveringHistory h;
    size_t n = g.below(g.chance(5) ? 300 : 12);
    std::vector<std::pair<std::string, int64_t>> want;
    for(size_t i = 0; i < n; i++) {
      std::string id;
      static const std::string alpha = "abcdef0123456789-- _:.,'\"\\\t%GENESIS";
      do { id.clear(); for(size_t k = 1 + g.below(40); k > 0; k--) id += alpha[g.below(alpha.size())]; } while(id.find(" - ") != std::string::npos || id.back() == ' ' || id.find(" -") != std::string::npos);
      if(g.chance(20)) id = "GENESIS-FROM-EXISTING-SM-AT-INDEX:" + std::to_string(g.below(100000));
      int64_t t = g.chance(10) ? 0 : g.chance(10) ? INT32_MAX + (int64_t) g.below(1000000) : g.below(2000000000);
      want.emplace_back(id, t);
      ResilveringEvent e(id, t), e2;
      VF_CHECK(ResilveringEvent::deserialize(e.serialize(), e2) && e2 == e && e2.getID() == id && e2.getStartTime() == t, "history:event", "event '" << esc(id) << "' at " << t << " does not survive its serialization");
      h.append(e);
    }
    ResilveringHistory h2;
    h2.append(ResilveringEvent("stale", 1));
    VF_CHECK(ResilveringHistory::deserialize(h.serialize(), h2), "history:parse", "a history of " << n << " events cannot be read back");
    bool same = h2.size() == n;
    for(size_t i = 0; same && i < n; i++) same = h2.at(i).getID() == want[i].first && h2.at(i).getStartTime() == want[i].second;
    VF_CHECK(same && h2 == h, "history:content", "a history of " << n << " events reads back with " << h2.size());
    // equality tells them apart
    if(n) {
      ResilveringHistory h3;
      size_t k = g.below(n);
      for(size_t i = 0; i < n; i++) h3.append(ResilveringEvent(want[i].first, want[i].second + (i == k)));
      VF_CHECK(!(h3 == h), "history:equal", "different histories compare as equal");
      ResilveringHistory h4;
      for(size_t i = 0; i + 1 < n; i++) h4.append(ResilveringEvent(want[i].first, want[i].second));
      VF_CHECK(!(h4 == h), "history:equal", "a shorter history compares as equal");
      // garbage in between is noticed
      std::string s = h.serialize();
      ResilveringHistory h5;
      std::string broken = "no time here\n" + s;
      VF_CHECK(!ResilveringHistory::deserialize(broken, h5), "history:garbage", "a line without time is accepted");
    }
    h.clear();
    VF_CHECK(h.size() == 0, "history:clear", "a cleared history has events");
    ctx().count("histories");
    ctx().eval("h" + std::to_string(r % 50));
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "proto");
  if(mode == "finish-child") return finishChild();
  if(mode == "proto") proto(ctx().n(6, 60));
  if(mode == "copy") copy(ctx().n(6, 60));
  if(mode == "busy") busy(ctx().n(3, 20));
  if(mode == "crash") crash(ctx().n(1, 8));
  if(mode == "history") history(ctx().n(3000, 30000));
  return ctx().finish();
}
