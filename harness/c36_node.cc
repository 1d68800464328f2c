// Real executables: quarkdb-create, quarkdb-validate-checkpoint, quarkdb-recovery and quarkdb-server, run as processes on scratch directories.
//  create     random invocations, on paths in every state; what they left behind is read back
//  validate   checkpoints of every shape, sound and not
//  server     a node in a process: signals, restarts, two on one directory or port, broken configurations
//  restore    the documented backup procedure, from the checkpoint command to a cluster of one
//  bulkload   the documented bulkload procedure, to a standalone node and to a cluster of three
#include "jdirs.hh"
#include "node.hh"
#include "Configuration.hh"
#include "utils/Resilvering.hh"
#include <dirent.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <netinet/tcp.h>
using namespace vf;
using namespace quarkdb;
extern char **environ;

static std::string toolCreate, toolValidate, toolRecovery, toolServer;

// ---------------------------------------------------------------- processes
struct Proc {
  pid_t pid = -1;
  std::string log;
  Proc() {}
  Proc(const std::vector<std::string> &argv, const std::string &logfile) : log(logfile) {
    static std::vector<std::string> env {"PATH=/usr/bin:/bin", "HOME=/nonexistent", "ASAN_OPTIONS=exitcode=99:detect_leaks=0:abort_on_error=0", "UBSAN_OPTIONS=exitcode=99:print_stacktrace=1"};
    std::vector<char*> a, e;
    for(auto &s : argv) a.push_back((char*) s.c_str());
    a.push_back(nullptr);
    for(auto &s : env) e.push_back((char*) s.c_str());
    e.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    if(posix_spawn(&pid, argv[0].c_str(), &fa, nullptr, a.data(), e.data()) != 0) { fprintf(stderr, "VF-HARNESS-ERROR cannot run %s\n", argv[0].c_str()); _exit(2); }
    posix_spawn_file_actions_destroy(&fa);
  }
  std::string tail() { std::ifstream f(log); std::stringstream s; s << f.rdbuf(); std::string o = s.str(); return o.size() > 3000 ? o.substr(o.size() - 3000) : o; }
  // exit code, 1000 + signal, or -1: still running
  int wait(int ms) {
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while(pid > 0) {
      int st;
      pid_t r = waitpid(pid, &st, WNOHANG);
      if(r == pid) {
        pid = -1;
        int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        if(rc == 99 || rc == 1000 + SIGSEGV || rc == 1000 + SIGBUS || rc == 1000 + SIGFPE || rc == 1000 + SIGILL) VF_FAIL("tool:crash", "a tool crashed: " << tail());
        return rc;
      }
      if(std::chrono::steady_clock::now() >= end) return -1;
      std::this_thread::sleep_for(std::chrono::milliseconds(2));
    }
    return -2;
  }
  void kill9() { if(pid > 0) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); pid = -1; } }
};

static int runTool(const std::vector<std::string> &argv, std::string *out = nullptr) {
  Proc p(argv, scratch() + "/tool.log");
  int rc = p.wait(120000);
  if(rc == -1) { p.kill9(); VF_FAIL("tool:hang", "did not finish within two minutes: " << show(argv)); }
  if(out) *out = p.tail();
  ctx().count("tool runs");
  return rc;
}

// ---------------------------------------------------------------- files
// path -> contents; directories end in '/'
static void treeInto(const std::string &p, const std::string &rel, std::map<std::string, std::string> &o) {
  struct stat st;
  if(lstat(p.c_str(), &st) != 0) return;
  if(S_ISDIR(st.st_mode)) {
    o[rel + "/"] = "";
    DIR *d = opendir(p.c_str());
    std::vector<std::string> names;
    while(struct dirent *e = readdir(d)) if(std::string(e->d_name) != "." && std::string(e->d_name) != "..") names.push_back(e->d_name);
    closedir(d);
    for(auto &n : names) treeInto(p + "/" + n, rel + "/" + n, o);
  }
  else { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); o[rel] = s.str(); }
}
static std::map<std::string, std::string> tree(const std::string &p) { std::map<std::string, std::string> o; treeInto(p, "", o); return o; }
static bool exists(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
static void put(const std::string &p, const std::string &c) { std::ofstream f(p, std::ios::binary); f << c; }
static void copyTree(const std::string &a, const std::string &b) {
  if(a.find('\'') != std::string::npos || b.find('\'') != std::string::npos || b.find("/vf-") == std::string::npos) abort();
  if(system(("cp -a -- '" + a + "' '" + b + "'").c_str()) != 0) { fprintf(stderr, "VF-HARNESS-ERROR copying\n"); _exit(2); }
}

// the records a user cares about: all but the bookkeeping
static std::map<std::string, std::string> userRecords(const std::string &path) {
  auto m = dumpRaw(path);
  for(auto it = m.begin(); it != m.end(); ) { if(it->first.substr(0, 2) == "__") it = m.erase(it); else ++it; }
  return m;
}

// data of every type, through the dispatcher
static std::vector<std::vector<std::string>> someWrites(Rng &g, int n, const std::string &tag = "") {
  std::vector<std::vector<std::string>> o;
  for(int i = 0; i < n; i++) {
    std::string k = tag + "k" + std::to_string(g.below(12)), f = g.bytes(6), v = g.bytes(20);
    if(f.empty()) f = "f";
    if(v.empty()) v = "v";
    switch(g.below(7)) {
      case 0: o.push_back({"SET", "s" + k, v}); break;
      case 1: o.push_back({"HSET", "h" + k, f, v}); break;
      case 2: o.push_back({"SADD", "S" + k, f, v}); break;
      case 3: o.push_back({"DEQUE_PUSH_BACK", "d" + k, v}); break;
      case 4: o.push_back({"LHSET", "l" + k, f, "hint" + std::to_string(g.below(3)), v}); break;
      case 5: o.push_back({"CONFIG_SET", "c" + k, v}); break;
      default: o.push_back({"VHSET", "v" + k, f, v}); break;
    }
  }
  return o;
}

// ---------------------------------------------------------------- network
static int freePort() {
  static std::set<int> used;
  for(int k = 0; k < 100; k++) {
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY);
    socklen_t l = sizeof(a);
    int p = -1;
    if(bind(fd, (struct sockaddr*) &a, l) == 0 && getsockname(fd, (struct sockaddr*) &a, &l) == 0) p = ntohs(a.sin_port);
    close(fd);
    if(p > 0 && used.insert(p).second) return p;
  }
  fprintf(stderr, "VF-HARNESS-ERROR no port\n"); _exit(2);
}

struct Tcp {
  int fd = -1;
  std::string rx;
  ~Tcp() { drop(); }
  void drop() { if(fd >= 0) close(fd); fd = -1; rx.clear(); }
  bool connect(int port) {
    drop();
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in a {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    if(::connect(fd, (struct sockaddr*) &a, sizeof(a)) != 0) { drop(); return false; }
    int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    return true;
  }
  bool send(const std::string &s) {
    size_t off = 0;
    while(off < s.size()) { ssize_t n = ::send(fd, s.data() + off, s.size() - off, MSG_NOSIGNAL); if(n <= 0) return false; off += n; }
    return true;
  }
  // 1: got one; 0: nothing within ms; -1: connection over or garbage
  int next(resp::Val &v, int ms) {
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while(true) {
      size_t pos = 0;
      int rc = resp::decode(rx, pos, v);
      if(rc == 1) { rx.erase(0, pos); return 1; }
      if(rc < 0) { VF_FAIL("server:malformed", "malformed reply " << esc(rx)); return -1; }
      int left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count();
      if(left <= 0) return 0;
      struct pollfd p = {fd, POLLIN, 0};
      poll(&p, 1, left);
      char b[65536];
      ssize_t n = recv(fd, b, sizeof(b), MSG_DONTWAIT);
      if(n == 0 || (n < 0 && errno != EAGAIN)) return -1;
      if(n > 0) rx.append(b, n);
    }
  }
  bool ask(const std::vector<std::string> &c, resp::Val &v, int ms = 20000) { return fd >= 0 && send(wire(c)) && next(v, ms) == 1; }
};

struct Server {
  std::string dir, conf;
  int port;
  std::string mode, extra;
  Proc p;
  Server(const std::string &d, int po, const std::string &m = "raft", const std::string &ex = "") : dir(d), conf(scratch() + "/conf-" + std::to_string(po)), port(po), mode(m), extra(ex) {}
  ~Server() { p.kill9(); }
  void writeConf() {
    std::string c = "xrd.port " + std::to_string(port) + "\nxrd.protocol redis:" + std::to_string(port) + " libXrdQuarkDB.so\nredis.mode " + mode + "\nredis.database " + dir + "\n";
    if(mode == "raft") c += "redis.myself 127.0.0.1:" + std::to_string(port) + "\n";
    put(conf, c + extra);
  }
  void launch() { writeConf(); p = Proc({toolServer, "--configuration", conf}, scratch() + "/server-" + std::to_string(port) + ".log"); ctx().count("servers started"); }
  // until it accepts connections; false if it exited, or takes forever
  bool up(int ms = 60000) {
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while(std::chrono::steady_clock::now() < end) {
      Tcp t; resp::Val v;
      if(t.connect(port) && t.ask({"PING"}, v, 5000)) return true;
      int st;
      if(p.pid > 0 && waitpid(p.pid, &st, WNOHANG) == p.pid) { exitCode = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); p.pid = -1; return false; }
      std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
    return false;
  }
  int exitCode = -1;
  int stop(int sig = SIGTERM, int ms = 60000) {
    kill(p.pid, sig);
    int rc = p.wait(ms);
    if(rc == -1) p.kill9();
    return rc;
  }
};

// a leader among these ports, which has taken office
static int leader(const std::vector<int> &ports, int ms = 90000) {
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  while(std::chrono::steady_clock::now() < end) {
    for(int p : ports) {
      Tcp t; resp::Val v;
      if(t.connect(p) && t.ask({"GET", "nothing"}, v, 3000) && v.type != '-') return p;
    }
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
  }
  return -1;
}

// ---------------------------------------------------------------- create
static bool makeSM(Rng &g, const std::string &path, std::map<std::string, std::string> &records, LogIndex applied) {
  {
    StateMachine sm(path);
    Publisher pub;
    RedisDispatcher d(sm, pub);
    LogIndex i = 0;
    for(auto &w : someWrites(g, 5 + g.below(40))) { RedisRequest r = req(w); d.dispatch(r, 0); i++; }
    if(applied) sm.forceResetLastApplied(applied);
  }
  records = userRecords(path);
  return !records.empty();
}

static void createCases(Rng &g) {
  int64_t cases = ctx().n(70, 8);
  for(int64_t c = 0; c < cases && !ctx().failed(); c++) {
    std::string base = freshDir("vf-create");
    std::vector<std::string> argv {toolCreate};
    std::string desc;
    // where
    static const std::vector<std::string> names {"db", "with space", "deep/er/db", "db/", "-db", "ünïcode", "a.b", "db$HOME", "db;x", "star*"};
    std::string name = g.pick(names), path = base + "/" + name;
    int state = g.below(14);        // 0: a directory, 1: a file, 2: below a file, 3: an empty directory, else: nothing there
    std::string bare = path.back() == '/' ? path.substr(0, path.size() - 1) : path;
    if(state <= 3 && name.find('/') != std::string::npos && name.back() != '/') { bare = path = base + "/db"; }
    if(state == 0) { mkdir(bare.c_str(), 0755); put(bare + "/precious", "do not touch"); mkdir((bare + "/current").c_str(), 0755); put(bare + "/current/x", "y"); }
    if(state == 1) put(bare, "a file");
    if(state == 2) { put(base + "/file", "a file"); path = bare = base + "/file/db"; }
    if(state == 3) mkdir(bare.c_str(), 0755);
    argv.push_back("--path"); argv.push_back(path);
    desc = "path:" + std::to_string(std::min(state, 4));
    bool refuse = state <= 3;
    // identity and members
    std::string cid;
    bool nodesGiven = false, nodesBad = false;
    std::vector<RaftServer> nodes;
    if(g.chance(75)) {
      cid = g.pick(std::vector<std::string>{"cluster", "a b", "c0ffee-1234", "x", "-dash", std::string(300, 'i')});
      if(cid == "-dash") { argv.push_back("--clusterID=" + cid); }
      else { argv.push_back("--clusterID"); argv.push_back(cid); }
    }
    if(g.chance(cid.empty() ? 15 : 75)) {
      nodesGiven = true;
      std::string n;
      if(g.chance(20)) { nodesBad = true; n = g.pick(std::vector<std::string>{"host", "host:", "host:port", "a:1,b", "a:1,,b:2", "a:1 b:2x", "a:12x", ","}); }
      else {
        int k = 1 + g.below(5);
        for(int i = 0; i < k; i++) { nodes.emplace_back("host" + std::to_string(g.below(100)) + ".example.com", 1 + (int) g.below(65535)); }
        std::set<std::string> uniq; std::vector<RaftServer> u;
        for(auto &s : nodes) if(uniq.insert(s.toString()).second) u.push_back(s);
        nodes = u;
        for(auto &s : nodes) n += (n.empty() ? "" : ",") + s.toString();
      }
      argv.push_back("--nodes"); argv.push_back(n);
    }
    bool raft = !cid.empty();
    if(nodesGiven && (!raft || nodesBad)) refuse = true;
    // contents
    int steal = 0;                  // 1: a state machine, 2: nothing, 3: a file, 4: not a state machine
    std::map<std::string, std::string> records;
    LogIndex oldApplied = 0;
    std::string source = base + "/old node/current/state-machine";
    if(g.chance(50)) {
      steal = g.chance(60) ? 1 : g.chance(50) ? 4 : 2 + (int) g.below(2);
      mkdir((base + "/old node").c_str(), 0755); mkdir((base + "/old node/current").c_str(), 0755);
      if(steal == 1) { oldApplied = g.chance(50) ? 0 : (LogIndex) g.below(100000); makeSM(g, source, records, oldApplied); }
      if(steal == 3) put(source, "a file");
      if(steal == 4) { mkdir(source.c_str(), 0755); put(source + "/thesis", "irreplaceable"); }
      argv.push_back("--steal-state-machine"); argv.push_back(source);
      if(steal != 1 || (raft && !nodesGiven)) refuse = true;
    }
    desc += std::string(raft ? nodesGiven ? nodesBad ? " badnodes" : " cluster" : " limbo" : nodesGiven ? " nodes only" : " standalone") + " steal:" + std::to_string(steal);
    ctx().current("create " + show(argv));
    auto before = tree(base);
    time_t t0 = time(nullptr);
    std::string out;
    int rc = runTool(argv, &out);
    time_t t1 = time(nullptr);
    ctx().eval(desc);
    ctx().count(refuse ? "creations refused" : "creations");
    ctx().sample(desc + ": " + show(argv));
    if((rc == 0) == refuse) { VF_FAIL(refuse ? "create:accepted" : "create:refused", desc << " " << show(argv) << " ended with " << rc << ": " << out); return; }
    if(refuse) {
      // nothing of what was there may have changed; opening a state machine rewrites its files, not its contents
      auto after = tree(base);
      for(auto &f : before) {
        bool inSM = f.first.find("/old node/current/state-machine/") == 0 && steal == 1;
        if(inSM) continue;
        if(!after.count(f.first) || after[f.first] != f.second) { VF_FAIL("create:damage", desc << " " << show(argv) << " was refused, but " << f.first << (after.count(f.first) ? " changed" : " is gone")); return; }
      }
      if(state == 0 || state == 1 || state == 3) for(auto &f : after) if(!before.count(f.first) && f.first.find("/old node") != 0) { VF_FAIL("create:litter", desc << " was refused, but left " << f.first); return; }
      if(steal == 1 && userRecords(source) != records) { VF_FAIL("create:source", desc << " was refused, but the state machine it was given changed"); return; }
      continue;
    }
    // identity
    std::string cur = bare + "/current";
    auto left = tree(bare);
    VF_CHECK(left.count("/SHARD-ID") && left["/SHARD-ID"] == "default", "create:shardid", desc << ": shard id is " << esc(left["/SHARD-ID"]));
    ResilveringHistory h;
    if(!ResilveringHistory::deserialize(left["/RESILVERING-HISTORY"], h) || h.size() != 1) { VF_FAIL("create:history", desc << ": resilvering history has " << h.size() << " events"); return; }
    else {
      auto e = h.at(0);
      VF_CHECK(e.getID().compare(0, 7, "GENESIS") == 0 && e.getStartTime() >= t0 - 1 && e.getStartTime() <= t1 + 1, "create:history", desc << ": first event is " << e.getID() << " at " << e.getStartTime());
      VF_CHECK(!raft || (steal == 1) == (e.getID() == "GENESIS-FROM-EXISTING-SM-AT-INDEX:1111"), "create:history-origin", desc << ": first event is " << e.getID());
    }
    if(raft != exists(cur + "/raft-journal")) { VF_FAIL("create:journal", desc << ": a journal " << (raft ? "is missing" : "was created")); return; }
    LogIndex start = steal == 1 ? 1111 : 0;
    if(raft) {
      RaftJournal j(cur + "/raft-journal");
      std::vector<RaftServer> expected = nodesGiven ? nodes : std::vector<RaftServer>{RaftServer::Null()};
      VF_CHECK(j.getClusterID() == cid, "create:cluster", desc << ": cluster id is " << esc(j.getClusterID()));
      VF_CHECK(j.getNodes() == expected, "create:members", desc << ": " << j.getNodes().size() << " members rather than " << expected.size());
      VF_CHECK(j.getMembership().observers.empty(), "create:observers", desc << ": there are observers");
      VF_CHECK(j.getCurrentTerm() == 0 && j.getVotedFor().empty(), "create:term", desc << ": term " << j.getCurrentTerm() << " vote " << j.getVotedFor().toString());
      VF_CHECK(j.getLogStart() == start && j.getLogSize() == start + 1 && j.getCommitIndex() == start, "create:log", desc << ": log from " << j.getLogStart() << " to " << j.getLogSize() << ", commit index " << j.getCommitIndex());
      VF_CHECK(j.getFsyncPolicy() == FsyncPolicy::kSyncImportantUpdates, "create:fsync", desc << ": fsync policy " << (int) j.getFsyncPolicy());
    }
    if(steal == 1) {
      VF_CHECK(!exists(source), "create:source-left", desc << ": the state machine is still in its old place");
      if(!exists(cur + "/state-machine/CURRENT")) { VF_FAIL("create:contents", desc << ": the state machine is not there"); return; }
      VF_CHECK(userRecords(cur + "/state-machine") == records, "create:contents", desc << ": the contents changed on the way");
      StateMachine sm(cur + "/state-machine");
      VF_CHECK(sm.getLastApplied() == (raft ? start : 0), "create:applied", desc << ": last applied is " << sm.getLastApplied());
    }
    else if(exists(cur + "/state-machine")) {
      VF_CHECK(userRecords(cur + "/state-machine").empty(), "create:empty", desc << ": the new state machine is not empty");
    }
    // and it is a node the owner accepts, as it was given
    {
      ShardDirectory sd(bare);
      StateMachine *sm = sd.getStateMachine();
      VF_CHECK(sm->getLastApplied() == (raft ? start : 0), "create:applied", desc << ": last applied is " << sm->getLastApplied());
      if(raft) VF_CHECK(sd.getRaftJournal()->getClusterID() == cid, "create:cluster", desc << ": cluster id after reopening");
    }
    // valid, as the other tool sees it; a standalone one only if that was asked for
    int v = runTool({toolValidate, "--path", bare});
    VF_CHECK((v == 0) == raft, "create:validate", desc << ": validation of the new node ended with " << v);
    if(!raft) { v = runTool({toolValidate, "--path", bare, "--accept-standalone"}); VF_CHECK(v == 0, "create:validate", desc << ": validation as a standalone node ended with " << v); }
  }
}

// in process: the same, through ShardDirectory, and obliterate over what is there
static void shardCases(Rng &g) {
  int64_t cases = ctx().n(60, 8);
  for(int64_t c = 0; c < cases && !ctx().failed(); c++) {
    std::string base = freshDir("vf-shard"), path = base + "/db";
    ctx().current("shard case " + std::to_string(c));
    Status st;
    // not on top of something else, be it a shard in parts or nothing of ours
    if(g.chance(40)) {
      std::string q = base + "/taken";
      int what = g.below(5);
      if(what == 4) put(q, "precious");
      else {
        mkdir(q.c_str(), 0755);
        if(what >= 1) put(q + "/SHARD-ID", "precious");
        if(what >= 2) { mkdir((q + "/supplanted").c_str(), 0755); put(q + "/supplanted/CURRENT", "x"); }
        if(what == 3) { mkdir((q + "/current").c_str(), 0755); }
      }
      auto before = tree(q);
      Status s2;
      std::unique_ptr<ShardDirectory> over;
      bool threw = throws([&]() { over.reset(g.chance(50) ? ShardDirectory::create(q, "c", "s", {RaftServer("h", 1)}, 0, FsyncPolicy::kAsync, nullptr, s2) : ShardDirectory::create(q, "c", "s", nullptr, s2)); });
      VF_CHECK(threw || (!over && !s2.ok()), "shard:taken", "a node was created on a path in use (kind " << what << ")");
      over.reset();
      VF_CHECK(tree(q) == before, "shard:taken", "refusing to create a node on a path in use changed what was there (kind " << what << ")");
      ctx().count("paths in use");
    }
    auto someNodes = [&]() { std::vector<RaftServer> n; int k = 1 + g.below(4); for(int i = 0; i < k; i++) n.emplace_back("h" + std::to_string(i), 1 + (int) g.below(60000)); return n; };
    auto policy = [&]() { return g.pick(std::vector<FsyncPolicy>{FsyncPolicy::kAlways, FsyncPolicy::kAsync, FsyncPolicy::kSyncImportantUpdates}); };
    auto seed = [&](std::map<std::string, std::string> &rec) -> std::unique_ptr<StateMachine> {
      std::string p = base + "/seed" + std::to_string(g.below(1000000));
      makeSM(g, p, rec, g.below(2) ? g.below(5000) : 0);
      return std::unique_ptr<StateMachine>(new StateMachine(p));
    };
    std::vector<RaftServer> nodes = someNodes();
    LogIndex start = g.chance(40) ? 0 : 1 + (LogIndex) g.below(100000);
    FsyncPolicy pol = policy();
    std::map<std::string, std::string> rec;
    bool seeded = g.chance(40);
    std::string sid = g.pick(std::vector<std::string>{"default", "shard 1", "x"});
    std::string cid = "cid" + std::to_string(g.below(1000));
    std::unique_ptr<StateMachine> sm;
    if(seeded) sm = seed(rec);
    std::string seedPath = sm ? sm->getPhysicalLocation() : "";
    std::unique_ptr<ShardDirectory> sd(ShardDirectory::create(path, cid, sid, nodes, start, pol, std::move(sm), st));
    if(!st.ok() || !sd) { VF_FAIL("shard:create", "creation failed: " << st.getMsg()); return; }
    std::string what = "created";
    auto judge = [&]() {
      RaftJournal *j = sd->getRaftJournal();
      StateMachine *s = sd->getStateMachine();
      VF_CHECK(j->getClusterID() == cid && j->getNodes() == nodes && j->getMembership().observers.empty() && j->getCurrentTerm() == 0 && j->getVotedFor().empty(), "shard:identity", what << ": identity " << j->getClusterID() << ", " << j->getNodes().size() << " nodes, term " << j->getCurrentTerm());
      VF_CHECK(j->getLogStart() == start && j->getLogSize() == start + 1 && j->getCommitIndex() == start, "shard:log", what << ": log from " << j->getLogStart() << " to " << j->getLogSize() << ", commit index " << j->getCommitIndex() << ", should start at " << start);
      VF_CHECK(j->getFsyncPolicy() == pol, "shard:fsync", what << ": fsync policy " << (int) j->getFsyncPolicy());
      VF_CHECK(s->getLastApplied() == start, "shard:applied", what << ": last applied " << s->getLastApplied() << " rather than " << start);
      const ResilveringHistory &h = sd->getResilveringHistory();
      VF_CHECK(h.size() == 1 && h.at(0).getID() == (seeded ? "GENESIS-FROM-EXISTING-SM-AT-INDEX:" + std::to_string(start) : std::string("GENESIS")), "shard:history", what << ": history has " << h.size() << " events, the first " << (h.size() ? h.at(0).getID() : ""));
      if(seeded) VF_CHECK(!exists(seedPath), "shard:seed", what << ": the seed is still in its old place");
    };
    auto judgeClosed = [&]() {
      auto r = userRecords(path + "/current/state-machine");
      VF_CHECK(r == rec, "shard:contents", what << ": " << r.size() << " records rather than " << rec.size());
      auto t = tree(path);
      VF_CHECK(t["/SHARD-ID"] == sid, "shard:id", what << ": shard id " << esc(t["/SHARD-ID"]));
      ResilveringHistory h;
      VF_CHECK(ResilveringHistory::deserialize(t["/RESILVERING-HISTORY"], h) && h.size() == 1, "shard:history", what << ": stored history");
    };
    judge();
    int rounds = g.below(3);
    // in use for a while
    if(rounds && g.chance(70)) {
      RaftJournal *j = sd->getRaftJournal();
      StateMachine *s = sd->getStateMachine();
      j->setCurrentTerm(1 + g.below(5), nodes[0]);
      Publisher pub;
      RedisDispatcher d(*s, pub);
      for(auto &w : someWrites(g, 1 + g.below(20), "used")) {
        RedisRequest r = req(w);
        LogIndex i = j->getLogSize();
        if(!j->append(i, RaftEntry(j->getCurrentTerm(), RedisRequest(r)))) { VF_FAIL("shard:append", what << ": appending " << i << " failed"); return; }
        j->setCommitIndex(i);
        d.dispatch(r, i);
      }
    }
    for(int k = 0; k < rounds && !ctx().failed(); k++) {
      if(g.chance(50)) { sd.reset(); sd.reset(new ShardDirectory(path)); if(g.chance(50)) sd->getStateMachine(); if(g.chance(50)) sd->getRaftJournal(); }
      // started anew over what is there
      cid = "again" + std::to_string(g.below(1000)); nodes = someNodes(); start = g.chance(40) ? 0 : 1 + (LogIndex) g.below(100000); pol = policy();
      seeded = g.chance(40);
      rec.clear(); sm.reset(); seedPath.clear();
      if(seeded) { sm = seed(rec); seedPath = sm->getPhysicalLocation(); }
      what = "obliterated";
      sd->obliterate(cid, nodes, start, pol, std::move(sm));
      judge();
      ctx().count("nodes started anew");
    }
    // no second node in the same place
    if(g.chance(50)) {
      Status st2;
      std::map<std::string, std::string> r2;
      ShardDirectory *sd2 = g.chance(50) ? ShardDirectory::create(path, "other", "other", someNodes(), 0, pol, nullptr, st2) : ShardDirectory::create(path, "other", "other", nullptr, st2);
      VF_CHECK(!sd2 && !st2.ok(), "shard:over", "a node was created over an existing one");
      if(sd2) { delete sd2; return; }
      judge();
    }
    sd.reset();
    judgeClosed();
    sd.reset(new ShardDirectory(path));
    what += ", reopened";
    judge();
    sd.reset();
    judgeClosed();
    // wiping the state machine, open or not, leaves an empty one
    sd.reset(new ShardDirectory(path));
    bool open = g.chance(50);
    if(open) sd->getStateMachine();
    sd->wipeoutStateMachineContents();
    { StateMachine *s = sd->getStateMachine(); VF_CHECK(s->getLastApplied() == 0, "shard:wipe", "last applied is " << s->getLastApplied() << " after wiping"); }
    sd.reset();
    VF_CHECK(userRecords(path + "/current/state-machine").empty(), "shard:wipe", "records are left after wiping the " << (open ? "open" : "closed") << " state machine");
    ctx().eval("shard " + what + " " + std::to_string(rounds) + (seeded ? " seeded" : "") + (start ? " offset" : "") + std::to_string((int) pol) + (open ? "o" : "c") + std::to_string(rec.size() % 8));
  }
}

// ---------------------------------------------------------------- validate
static void validateCases(Rng &g) {
  int64_t cases = ctx().n(90, 8);
  for(int64_t c = 0; c < cases && !ctx().failed(); c++) {
    std::string base = freshDir("vf-validate"), path = base + "/cp";
    Status st;
    bool raft = g.chance(80);
    LogIndex start = g.chance(50) ? 0 : 1 + (LogIndex) g.below(1000), commit = 0, applied = 0;
    bool files = false, conts = false;
    std::string desc;
    {
      std::unique_ptr<ShardDirectory> sd(raft ? ShardDirectory::create(path, "cid", "default", {RaftServer("a", 1), RaftServer("b", 2)}, start, FsyncPolicy::kAsync, nullptr, st) : ShardDirectory::create(path, "cid", "default", nullptr, st));
      StateMachine *sm = sd->getStateMachine();
      Publisher pub;
      RedisDispatcher d(*sm, pub);
      int n = g.below(12);
      files = g.chance(50); conts = g.chance(50);
      auto ws = someWrites(g, n);
      if(files) ws.push_back({"LHSET", "eos-file-md", "f", "h", "v"});
      if(conts) ws.push_back({"LHSET", "eos-container-md", "f", "h", "v"});
      for(auto &w : ws) {
        RedisRequest r = req(w);
        LogIndex i = 0;
        if(raft) { RaftJournal *j = sd->getRaftJournal(); i = j->getLogSize(); j->append(i, RaftEntry(0, RedisRequest(r))); }
        d.dispatch(r, i);
      }
      if(raft) {
        RaftJournal *j = sd->getRaftJournal();
        LogIndex last = j->getLogSize() - 1;
        commit = start + (LogIndex) g.below(last - start + 1);
        j->setCommitIndex(commit);
        if(commit > start && g.chance(50)) { start += 1 + g.below(commit - start); j->trimUntil(start); }
        // what was applied: on, next to and far off the bounds
        applied = g.pick(std::vector<LogIndex>{start, commit, start - 1, commit + 1, (start + commit) / 2, commit + 1000, 0, last});
        if(applied < 0) applied = 0;
        sm->forceResetLastApplied(applied);
      }
    }
    bool ok = !raft || (applied >= start && applied <= commit);
    bool whole = true;
    int damage = g.chance(35) ? 1 + g.below(5) : 0;
    std::string cur = path + "/current";
    auto gone = [&](const std::string &p) { removeTree(p); };
    if(damage == 1) { gone(cur + "/state-machine"); whole = false; desc = "no state machine"; }
    if(damage == 2) { gone(cur + "/raft-journal"); raft = false; ok = true; desc = "no journal"; }
    if(damage == 3) { unlink((path + "/SHARD-ID").c_str()); whole = false; desc = "no shard id"; }
    if(damage == 4) { unlink((path + "/RESILVERING-HISTORY").c_str()); whole = false; desc = "no history"; }
    if(damage == 5) { unlink((cur + "/state-machine/CURRENT").c_str()); put(cur + "/state-machine/CURRENT", "MANIFEST-999999\n"); whole = false; desc = "broken state machine"; }
    bool accept = g.chance(40), eos = g.chance(40);
    std::vector<std::string> argv {toolValidate, "--path", path};
    if(accept) argv.push_back("--accept-standalone");
    if(eos) argv.push_back("--eos");
    bool valid = whole && ok && (raft || accept) && (!eos || (files && conts));
    ctx().current("validate " + show(argv) + " " + desc);
    std::map<std::string, std::string> rec, jrec;
    bool readable = damage != 1 && damage != 5;
    if(readable) rec = dumpRaw(cur + "/state-machine");
    if(raft) jrec = dumpRaw(cur + "/raft-journal");
    std::string out;
    int rc = runTool(argv, &out);
    std::string shape = desc + (raft ? applied < start ? " early" : applied > commit ? " late" : applied == start ? " start" : applied == commit ? " commit" : " between" : " standalone") + (accept ? " accept" : "") + (eos ? files && conts ? " eos" : files ? " eos:files" : conts ? " eos:containers" : " eos:none" : "") + (start ? " trimmed" : "");
    ctx().eval(shape);
    ctx().count(valid ? "checkpoints found valid" : "checkpoints found invalid");
    ctx().sample(shape + " -> " + std::to_string(rc));
    std::string kind = desc.empty() ? "" : ":" + desc;
    if((rc == 0) != valid) { VF_FAIL((valid ? "validate:rejected" : "validate:accepted") + kind, shape << ": log start " << start << " commit index " << commit << " last applied " << applied << ", ended with " << rc << ": " << out); return; }
    if(readable) VF_CHECK(dumpRaw(cur + "/state-machine") == rec, "validate:touched", shape << ": validation changed the state machine");
    if(raft) VF_CHECK(dumpRaw(cur + "/raft-journal") == jrec, "validate:touched", shape << ": validation changed the journal");
  }
}

// ---------------------------------------------------------------- server
static bool createNode(const std::string &dir, const std::string &cid, const std::string &nodes) {
  std::string out;
  int rc = runTool({toolCreate, "--path", dir, "--clusterID", cid, "--nodes", nodes}, &out);
  if(rc != 0) VF_FAIL("create:refused", "creating " << dir << " with " << nodes << " ended with " << rc << ": " << out);
  return rc == 0;
}

static void serverCases(Rng &g) {
  int64_t cases = ctx().n(4, 6);
  for(int64_t c = 0; c < cases && !ctx().failed(); c++) {
    std::string base = freshDir("vf-server");
    int port = freePort();
    std::string dir = base + "/db";
    if(!createNode(dir, "lonely", "127.0.0.1:" + std::to_string(port))) return;
    Server s(dir, port);
    // key -> values which may be there
    std::map<std::string, std::set<std::string>> may;
    int rounds = 2 + g.below(2);
    uint64_t serial = 0;
    for(int r = 0; r < rounds && !ctx().failed(); r++) {
      s.launch();
      ctx().current("server round " + std::to_string(r));
      if(!s.up()) { VF_FAIL("server:start", "the server did not start: " << s.exitCode << " " << s.p.tail()); return; }
      if(leader({port}) < 0) { VF_FAIL("server:leader", "a cluster of one has no leader: " << s.p.tail()); return; }
      Tcp t; resp::Val v;
      t.connect(port);
      for(auto &k : may) {
        if(!t.ask({"GET", k.first}, v)) { VF_FAIL("server:read", "no reply"); return; }
        std::string got = v.nil ? "" : v.s;
        if(!k.second.count(got)) { VF_FAIL("server:lost", k.first << " reads " << esc(got) << ", was acknowledged as " << esc(*k.second.begin())); return; }
        k.second = {got};
        ctx().count("acknowledged values read back");
      }
      if(r + 1 == rounds) { int rc = s.stop(); VF_CHECK(rc == 0, "server:exit", "an idle server ended with " << rc << " on SIGTERM: " << s.p.tail()); break; }
      // pipelines from several clients, and a signal in the middle of them
      int n = 1 + g.below(3);
      std::atomic<bool> over {false};
      std::vector<std::thread> th;
      std::mutex mtx;
      struct Sent { std::string k, v; };
      std::atomic<uint64_t> acked {0};
      std::vector<uint64_t> seeds;
      for(int i = 0; i < n; i++) seeds.push_back(g.next());
      uint64_t round = ++serial;
      for(int i = 0; i < n; i++) th.emplace_back([&, i]() {
        Rng h(seeds[i]);
        Tcp c;
        if(!c.connect(port)) return;
        std::deque<Sent> pending;
        uint64_t x = 0;
        bool alive = true;
        while(alive && !over) {
          std::string out;
          int depth = 1 + h.below(20);
          for(int k = 0; k < depth; k++) {
            Sent m {"c" + std::to_string(i) + "k" + std::to_string(h.below(20)), std::to_string(round) + "." + std::to_string(i) + "." + std::to_string(x++)};
            out += wire({"SET", m.k, m.v});
            pending.push_back(m);
            std::scoped_lock l(mtx);
            if(!may.count(m.k)) may[m.k] = {""};
            may[m.k].insert(m.v);
          }
          alive = c.send(out);
          while(!pending.empty()) {
            resp::Val v;
            int rc = c.next(v, 60000);
            if(rc <= 0) { alive = false; break; }
            Sent m = pending.front(); pending.pop_front();
            if(v.type == '+') { std::scoped_lock l(mtx); auto &set = may[m.k]; std::set<std::string> keep {m.v}; for(auto &q : pending) if(q.k == m.k) keep.insert(q.v); set = keep; acked++; }
          }
        }
      });
      std::this_thread::sleep_for(std::chrono::milliseconds(50 + g.below(400)));
      int kind = g.below(4);
      int rc;
      if(kind == 3) { s.p.kill9(); rc = 0; ctx().count("servers killed"); }
      else {
        if(kind == 2) { kill(s.p.pid, SIGINT); kill(s.p.pid, SIGTERM); }
        rc = s.stop(kind == 0 ? SIGTERM : SIGINT);
        ctx().count("servers stopped under load");
      }
      over = true;
      for(auto &t : th) t.join();
      VF_CHECK(rc == 0, rc == -1 ? "server:hang" : "server:exit", "a server under load ended with " << rc << " after a signal to shut down: " << s.p.tail());
      ctx().count("values acknowledged", acked);
      ctx().eval("server kind " + std::to_string(kind) + " clients " + std::to_string(n) + " acked " + std::to_string(std::min<uint64_t>(20, acked / 50)));
    }
    if(ctx().failed()) return;
    // a second server on the same directory, and on the same port: refused, the first unharmed
    s.launch();
    if(!s.up() || leader({port}) < 0) { VF_FAIL("server:start", "the server did not start again: " << s.p.tail()); return; }
    Tcp t; resp::Val v;
    t.connect(port);
    t.ask({"SET", "mine", "1"}, v);
    VF_CHECK(v.type == '+', "server:write", "write was answered with " << resp::show(v));
    {
      Server b(dir, freePort());
      b.launch();
      VF_CHECK(!b.up(60000) && b.exitCode != 0 && b.exitCode != -1, "server:shared-directory", "a second server started on a directory in use: " << b.exitCode);
    }
    if(g.chance(50)) {
      std::string dir2 = base + "/db2";
      if(!createNode(dir2, "other", "127.0.0.1:" + std::to_string(port))) return;
      Proc p({toolServer, "--configuration", (put(base + "/conf2", "xrd.port " + std::to_string(port) + "\nredis.mode raft\nredis.database " + dir2 + "\nredis.myself 127.0.0.1:" + std::to_string(port) + "\n"), base + "/conf2")}, base + "/second.log");
      int rc = p.wait(60000);
      if(rc == -1) p.kill9();
      VF_CHECK(rc != 0 && rc != -1, "server:shared-port", "a second server on a port in use ended with " << rc);
    }
    VF_CHECK(t.ask({"GET", "mine"}, v) && v.s == "1", "server:disturbed", "the first server was disturbed: " << resp::show(v));
    int rc = s.stop();
    VF_CHECK(rc == 0, "server:exit", "ended with " << rc << " on SIGTERM");
    // broken configurations end it at once
    static const std::vector<std::string> broken {"", "redis.mode raft\n", "redis.mode\n", "redis.mode raft\nredis.database /nonexistent/vf\n", "nonsense\n", "redis.mode raft\nredis.myself 127.0.0.1:1\n", "redis.mode raft\nredis.database /nonexistent/vf\nredis.myself localhost:1\n"};
    std::string cf = base + "/broken";
    put(cf, g.pick(broken));
    std::vector<std::string> argv {toolServer, "--configuration", g.chance(20) ? base + "/missing" : cf};
    if(g.chance(15)) argv = {toolServer};
    Proc p(argv, base + "/broken.log");
    rc = p.wait(60000);
    if(rc == -1) p.kill9();
    VF_CHECK(rc != 0 && rc != -1, "server:broken-config", "a server with a broken configuration ended with " << rc);
    ctx().eval("server lifecycle " + std::to_string(rounds));
  }
}

// ---------------------------------------------------------------- restore
static void restoreCases(Rng &g) {
  int64_t cases = ctx().n(4, 6);
  for(int64_t c = 0; c < cases && !ctx().failed(); c++) {
    std::string base = freshDir("vf-restore");
    int port = freePort(), port2 = freePort();
    std::string dir = base + "/db", cp = base + "/backup";
    if(!createNode(dir, "original", "127.0.0.1:" + std::to_string(port))) return;
    Server s(dir, port);
    s.launch();
    ctx().current("restore " + std::to_string(c));
    if(!s.up() || leader({port}) < 0) { VF_FAIL("server:start", "the server did not start: " << s.p.tail()); return; }
    Tcp t; resp::Val v;
    t.connect(port);
    for(auto &w : someWrites(g, 50 + g.below(100))) t.ask(w, v);
    uint64_t before = g.below(1000);
    t.ask({"SET", "marker", std::to_string(before)}, v);
    if(!t.ask({"QUARKDB_CHECKPOINT", cp}, v, 60000) || v.type != '+') { VF_FAIL("restore:checkpoint", "the checkpoint was answered with " << resp::show(v)); return; }
    // a second time into the same place: refused
    if(!t.ask({"QUARKDB_CHECKPOINT", cp}, v, 60000) || v.type != '-') VF_FAIL("restore:checkpoint-over", "a checkpoint over an existing one was answered with " << resp::show(v));
    t.ask({"SET", "marker", "later"}, v);
    t.ask({"SET", "after", "later"}, v);
    std::string out;
    int rc = runTool({toolValidate, "--path", cp}, &out);
    VF_CHECK(rc == 0, "restore:validate", "validation of a fresh checkpoint ended with " << rc << ": " << out);
    auto jn0 = jd::Jn(cp + "/current/raft-journal");
    rc = runTool({toolRecovery, "--path", cp + "/current/raft-journal", "--command", "recovery-force-reconfigure-journal 127.0.0.1:" + std::to_string(port2) + "| new-id"}, &out);
    VF_CHECK(rc == 0 && out.find("OK") != std::string::npos, "restore:reconfigure", "reconfiguration ended with " << rc << ": " << out);
    auto jn1 = jd::Jn(cp + "/current/raft-journal");
    VF_CHECK(jn1.cluster == "new-id" && jn1.members == "127.0.0.1:" + std::to_string(port2) + "|", "restore:identity", "the restored node is " << jn1.cluster << " " << jn1.members);
    std::map<std::string, std::string> a, b;
    a = userRecords(cp + "/current/state-machine");
    {
      Server r(cp, port2);
      r.launch();
      if(!r.up() || leader({port2}) < 0) { VF_FAIL("restore:start", "the restored node did not start: " << r.p.tail()); return; }
      Tcp u;
      u.connect(port2);
      VF_CHECK(u.ask({"GET", "marker"}, v) && v.s == std::to_string(before), "restore:point", "marker reads " << resp::show(v) << ", was " << before << " when the checkpoint was taken");
      VF_CHECK(u.ask({"GET", "after"}, v) && v.nil, "restore:point", "the restored node holds a later write: " << resp::show(v));
      VF_CHECK(u.ask({"SET", "fresh", "x"}, v) && v.type == '+', "restore:write", "the restored node answers a write with " << resp::show(v));
      rc = r.stop();
      VF_CHECK(rc == 0, "server:exit", "ended with " << rc);
    }
    b = userRecords(cp + "/current/state-machine");
    // the write above, and nothing else (leases and elections keep records of their own: "__" and '~', '_')
    for(auto &x : a) if(x.first[0] != '_' && (!b.count(x.first) || b[x.first] != x.second)) { VF_FAIL("restore:contents", "record " << esc(x.first) << " was lost or changed in the restored node"); break; }
    VF_CHECK(t.ask({"GET", "after"}, v) && v.s == "later", "restore:original", "the original node answers " << resp::show(v));
    rc = s.stop();
    VF_CHECK(rc == 0, "server:exit", "ended with " << rc);
    VF_CHECK(jd::Jn(dir + "/current/raft-journal").cluster == "original", "restore:original", "the original changed identity");
    ctx().eval("restore " + std::to_string(c) + " " + std::to_string(a.size()));
    ctx().count("records restored", a.size());
  }
}

// ---------------------------------------------------------------- bulkload
static bool dataEqual(const std::string &what, const std::vector<std::vector<std::string>> &writes, std::function<resp::Val(const std::vector<std::string>&)> ask) {
  smm::Model m;
  std::set<std::string> seen;
  std::vector<std::vector<std::string>> reads;
  for(auto &w : writes) {
    m.apply(w);
    if(!seen.insert(w[1]).second) continue;
    if(w[0] == "SET") reads.push_back({"GET", w[1]});
    if(w[0] == "HSET") reads.push_back({"HGETALL", w[1]});
    if(w[0] == "SADD") reads.push_back({"SMEMBERS", w[1]});
    if(w[0] == "DEQUE_PUSH_BACK") reads.push_back({"DEQUE_LEN", w[1]});
    if(w[0] == "LHSET") reads.push_back({"LHLEN", w[1]});
  }
  for(auto &r : reads) {
    resp::Val e = m.apply(r), a = ask(r);
    if(!smm::agree(e, a)) { VF_FAIL("bulk:contents", what << ": " << show(r) << " answers " << resp::show(a) << " rather than " << resp::show(e)); return false; }
    ctx().count("bulkloaded objects read");
  }
  return true;
}

static void bulkCases(Rng &g) {
  int64_t cases = ctx().n(4, 6);
  for(int64_t c = 0; c < cases && !ctx().failed(); c++) {
    std::string base = freshDir("vf-bulk"), dir = base + "/bulk";
    std::string out;
    ctx().current("bulk " + std::to_string(c));
    int rc = runTool({toolCreate, "--path", dir}, &out);
    VF_CHECK(rc == 0, "create:refused", "creating a bulkload node ended with " << rc << ": " << out);
    // every key is written once only: there is no reading what was there before
    std::vector<std::vector<std::string>> writes;
    { std::set<std::string> k; for(auto &w : someWrites(g, 100 + g.below(100))) if(k.insert(w[1]).second) writes.push_back(w); for(int i = 0; i < 500; i++) writes.push_back({"SET", "many" + std::to_string(i), g.bytes(100) + "x"}); }
    bool finalize = g.chance(85);
    {
      Standalone n(dir, "", "bulkload");
      Client u(n.node.get());
      for(auto &w : writes) { auto r = u.ask(w); if(r.size() != 1 || r[0].type == '-') { VF_FAIL("bulk:write", show(w) << " was refused"); return; } }
      auto r = u.ask({"GET", "many7"});
      VF_CHECK(r.size() == 1 && r[0].nil, "bulk:read", "a read during bulkload is not empty");
      if(finalize) {
        r = u.ask({"QUARKDB_BULKLOAD_FINALIZE"});
        VF_CHECK(r.size() == 1 && r[0].type == '+', "bulk:finalize", "finalization failed");
        r = u.ask({"SET", "too", "late"});
        VF_CHECK(r.size() == 1 && r[0].type == '-', "bulk:late", "a write was accepted after finalization");
      }
      u.hangup();
    }
    std::string sm = dir + "/current/state-machine";
    // bulkload is for new nodes only
    auto rec = userRecords(sm);
    {
      std::string what;
      Configuration cfg;
      Configuration::fromString("redis.mode bulkload\nredis.database " + dir + "\n", cfg);
      VF_CHECK(throws([&]() { QuarkDBNode n(cfg, defaultTimeouts); }, &what), "bulk:again", "a node with data started in bulkload mode");
      VF_CHECK(userRecords(sm) == rec, "bulk:again", "starting in bulkload mode over existing data changed it");
    }
    bool cluster = g.chance(60);
    std::vector<int> ports {freePort(), freePort(), freePort()};
    std::string nodes;
    for(int p : ports) nodes += (nodes.empty() ? "127.0.0.1:" : ",127.0.0.1:") + std::to_string(p);
    std::string fresh = base + "/new";
    std::vector<std::string> argv {toolCreate, "--path", fresh, "--steal-state-machine", sm};
    if(cluster) for(auto &x : std::vector<std::string>{"--clusterID", "bulk", "--nodes", nodes}) argv.push_back(x);
    rc = runTool(argv, &out);
    if(!finalize) {
      VF_CHECK(rc != 0, "bulk:unfinished", "a state machine whose bulkload was not finalized was accepted");
      ctx().eval("bulk unfinished");
      ctx().count("unfinished bulkloads");
      continue;
    }
    if(rc != 0) { VF_FAIL("bulk:steal", show(argv) << " ended with " << rc << ": " << out); return; }
    ctx().eval(std::string("bulk ") + (cluster ? "cluster" : "standalone"));
    if(!cluster) {
      Standalone n(fresh);
      Client u(n.node.get());
      dataEqual("standalone", writes, [&](const std::vector<std::string> &q) { auto r = u.ask(q); return r.empty() ? resp::Val() : r[0]; });
      auto r = u.ask({"SET", "many7", "new"});
      VF_CHECK(r.size() == 1 && r[0].type == '+', "bulk:write-after", "a write was refused");
      r = u.ask({"GET", "many7"});
      VF_CHECK(r.size() == 1 && r[0].s == "new", "bulk:write-after", "a write was lost");
      u.hangup();
      ctx().count("standalone nodes from bulkload");
      continue;
    }
    // copied to every node, as documented
    std::vector<std::unique_ptr<Server>> servers;
    for(size_t i = 0; i < 3; i++) { copyTree(fresh, base + "/node" + std::to_string(i)); servers.emplace_back(new Server(base + "/node" + std::to_string(i), ports[i])); servers.back()->launch(); }
    int l = leader(ports);
    if(l < 0) { VF_FAIL("bulk:quorum", "the new cluster has no leader: " << servers[0]->p.tail()); return; }
    Tcp t; resp::Val v;
    t.connect(l);
    dataEqual("leader", writes, [&](const std::vector<std::string> &q) { resp::Val r; t.ask(q, r); return r; });
    t.ask({"SET", "many7", "new"}, v);
    std::this_thread::sleep_for(std::chrono::milliseconds(1500));
    for(auto &s : servers) { int r = s->stop(); VF_CHECK(r == 0, "server:exit", "a cluster node ended with " << r << ": " << s->p.tail()); }
    for(size_t i = 0; i < 3; i++) {
      auto x = userRecords(base + "/node" + std::to_string(i) + "/current/state-machine");
      size_t bad = 0;
      for(auto &q : rec) if(q.first[0] != '_' && (!x.count(q.first) || x[q.first] != q.second) && q.first.find("many7") == std::string::npos) bad++;
      VF_CHECK(bad == 0, "bulk:cluster-contents", "node " << i << " lost or changed " << bad << " records");
      VF_CHECK(jd::Jn(base + "/node" + std::to_string(i) + "/current/raft-journal").start == 1111, "bulk:start", "the log of node " << i << " starts elsewhere");
    }
    ctx().count("clusters from bulkload");
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  toolCreate = ctx().arg("create"); toolValidate = ctx().arg("validate"); toolRecovery = ctx().arg("recovery"); toolServer = ctx().arg("server");
  Rng g(ctx().seed * 7919 + 36);
  std::string m = ctx().arg("mode", "create");
  if(m == "create") createCases(g);
  else if(m == "shard") shardCases(g);
  else if(m == "validate") validateCases(g);
  else if(m == "server") serverCases(g);
  else if(m == "restore") restoreCases(g);
  else if(m == "bulkload") bulkCases(g);
  else { fprintf(stderr, "VF-HARNESS-ERROR mode\n"); return 2; }
  return ctx().finish();
}
