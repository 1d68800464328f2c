// C20: real nodes in processes of their own, talking over loopback, under kills, restarts, pauses, partitions
// and membership changes. Clients record what they were told and when; the histories are checked afterwards.
#include "qdb.hh"
#include "resp.hh"
#include "jdirs.hh"
#include "Configuration.hh"
#include "QuarkDBNode.hh"
#include "ShardDirectory.hh"
#include "netio/AsioPoller.hh"
#include <qclient/QClient.hh>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
using namespace vf;
using namespace quarkdb;
typedef std::vector<std::string> Args;

static int64_t now() { return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void nap(int64_t ms) { if(ms > 0) usleep(ms * 1000); }

static const int kMax = 5;
struct Control {
  int ports[kMax];
  std::atomic<int> blocked[kMax][kMax];
  std::atomic<int> delay[kMax][kMax];
};

static Control* mapControl(const std::string &path, bool create) {
  int fd = open(path.c_str(), O_RDWR | O_CLOEXEC | (create ? O_CREAT | O_TRUNC : 0), 0644);
  if(fd < 0 || (create && ftruncate(fd, sizeof(Control)) != 0)) { perror("control"); _exit(2); }
  void *m = mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if(m == MAP_FAILED) { perror("mmap"); _exit(2); }
  close(fd);
  return (Control*) m;
}

// ------------------------------------------------------------------ a node
static int child(const std::string &ctl, int me, const std::string &dir) {
  quarkdb::setStacktraceOnError(false);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if(getppid() == 1) return 0;
  Control *c = mapControl(ctl, false);
  sigset_t set;
  sigemptyset(&set);
  sigaddset(&set, SIGTERM);
  pthread_sigmask(SIG_BLOCK, &set, nullptr);
  qclient::setLinkPolicy([c, me](const std::string&, const std::string&, int port) {
    qclient::LinkPolicy p;
    for(int i = 0; i < kMax; i++) if(c->ports[i] == port) { p.blocked = c->blocked[me][i]; p.delayMs = c->delay[me][i]; }
    return p;
  });
  Configuration cfg;
  if(!Configuration::fromString("redis.mode raft\nredis.myself 127.0.0.1:" + std::to_string(c->ports[me]) + "\nredis.database " + dir + "\n", cfg)) _exit(2);
  using std::chrono::milliseconds;
  std::unique_ptr<QuarkDBNode> node(new QuarkDBNode(cfg, RaftTimeouts(milliseconds(400), milliseconds(800), milliseconds(80))));
  std::unique_ptr<AsioPoller> poller(new AsioPoller(c->ports[me], 10, node.get()));
  int sig;
  while(sigwait(&set, &sig) != 0 || sig != SIGTERM) {}
  poller.reset();
  node.reset();
  _exit(0);
}

// ------------------------------------------------------------------ the processes
extern char **environ;
struct Cluster {
  std::string dir, self;
  Control *c = nullptr;
  int n = 0;
  pid_t pid[kMax] {};
  bool stopped[kMax] {};
  int starts[kMax] {};
  std::mutex mtx;
  struct Pause { int node; int64_t from, to; };
  std::vector<Pause> pauses;       // reads answered meanwhile are not judged

  std::string log(int i) { return dir + "/log-" + std::to_string(i); }
  std::string data(int i) { return dir + "/node-" + std::to_string(i); }
  std::string srv(int i) { return "127.0.0.1:" + std::to_string(c->ports[i]); }
  int byPort(int p) { for(int i = 0; i < kMax; i++) if(c->ports[i] == p) return i; return -1; }
  bool up(int i) { return pid[i] > 0; }

  void start(int i) {
    if(up(i)) return;
    std::string ctl = dir + "/control", idx = std::to_string(i), d = data(i), cmd = "1";
    std::vector<std::string> a {self, "--child", "1", "--control", ctl, "--index", idx, "--data", d};
    std::vector<char*> v;
    for(auto &s : a) v.push_back((char*) s.c_str());
    v.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, log(i).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t p = -1;
    if(posix_spawn(&p, self.c_str(), &fa, nullptr, v.data(), environ) != 0) { perror("spawn"); _exit(2); }
    posix_spawn_file_actions_destroy(&fa);
    std::scoped_lock l(mtx);
    pid[i] = p;
    starts[i]++;
    ctx().count("starts of a node");
  }

  std::string tail(int i) {
    std::ifstream f(log(i), std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    size_t at = s.find("ERROR: ");        // sanitizer report
    if(at == std::string::npos) at = s.find("runtime error");
    if(at != std::string::npos) return s.substr(at > 200 ? at - 200 : 0, 6000);
    return s.size() > 3000 ? s.substr(s.size() - 3000) : s;
  }

  // has any node ended by itself?
  bool watch() {
    bool ok = true;
    for(int i = 0; i < kMax; i++) {
      if(!up(i)) continue;
      int st;
      if(waitpid(pid[i], &st, WNOHANG) == pid[i]) {
        std::string t = tail(i);
        VF_FAIL("crash", "node " << i << " ended by itself, " << (WIFSIGNALED(st) ? "signal " : "exit code ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ", its log ends with: " << t);
        pid[i] = 0;
        ok = false;
      }
    }
    return ok;
  }

  void kill9(int i) {
    if(!up(i)) return;
    watch();
    if(!up(i)) return;
    ::kill(pid[i], SIGKILL);
    waitpid(pid[i], nullptr, 0);
    std::scoped_lock l(mtx);
    pid[i] = 0;
    ctx().count("nodes killed");
  }

  void terminate(int i) {
    if(!up(i)) return;
    watch();
    if(!up(i)) return;
    ::kill(pid[i], SIGTERM);
    int st = 0;
    int64_t t0 = now();
    while(waitpid(pid[i], &st, WNOHANG) == 0) {
      if(now() - t0 > 60000000) {
        VF_FAIL("hang", "node " << i << " did not shut down within a minute of being asked to: " << tail(i));
        ::kill(pid[i], SIGKILL);
        waitpid(pid[i], &st, 0);
        break;
      }
      nap(5);
    }
    pid_t was = pid[i];
    { std::scoped_lock l(mtx); pid[i] = 0; }
    if(WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) VF_FAIL("crash", "node " << i << " (" << was << ") crashed while shutting down, signal " << WTERMSIG(st) << ": " << tail(i));
    else if(WIFEXITED(st) && WEXITSTATUS(st) != 0) VF_FAIL("crash", "node " << i << " failed while shutting down, exit code " << WEXITSTATUS(st) << ": " << tail(i));
    ctx().count("clean shutdowns");
  }

  void pause(int i) {
    if(!up(i) || stopped[i]) return;
    { std::scoped_lock l(mtx); pauses.push_back({i, now(), INT64_MAX}); }
    ::kill(pid[i], SIGSTOP);
    stopped[i] = true;
    ctx().count("nodes paused");
  }
  void resume(int i) {
    if(!stopped[i]) return;
    ::kill(pid[i], SIGCONT);
    stopped[i] = false;
    std::scoped_lock l(mtx);
    for(auto &p : pauses) if(p.node == i && p.to == INT64_MAX) p.to = now() + 1000000;
  }
  void cut(int i) { for(int j = 0; j < kMax; j++) if(j != i) c->blocked[i][j] = c->blocked[j][i] = 1; ctx().count("nodes cut off"); }
  void cutPair(int i, int j) { c->blocked[i][j] = c->blocked[j][i] = 1; ctx().count("pairs of nodes cut off"); }
  void heal() { for(int i = 0; i < kMax; i++) for(int j = 0; j < kMax; j++) { c->blocked[i][j] = 0; c->delay[i][j] = 0; } }
  void killAll() {
    // at once: they must not notice each other's absence
    for(int i = 0; i < kMax; i++) if(up(i)) ::kill(pid[i], SIGKILL);
    for(int i = 0; i < kMax; i++) if(up(i)) { waitpid(pid[i], nullptr, 0); pid[i] = 0; }
  }
};

// ------------------------------------------------------------------ a client connection
struct Sock {
  int fd = -1;
  std::string in;
  ~Sock() { drop(); }
  void drop() { if(fd >= 0) ::close(fd); fd = -1; in.clear(); }
  bool open(int port) {
    drop();
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if(fd < 0 || connect(fd, (sockaddr*) &a, sizeof(a)) != 0) { drop(); return false; }
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
    return true;
  }
  bool put(const std::string &s) {
    size_t off = 0;
    int64_t t0 = now();
    while(off < s.size()) {
      ssize_t rc = ::send(fd, s.data() + off, s.size() - off, MSG_NOSIGNAL);
      if(rc > 0) { off += rc; continue; }
      if(rc < 0 && errno == EAGAIN && now() - t0 < 2000000) { pollfd p {fd, POLLOUT, 0}; poll(&p, 1, 50); continue; }
      drop();
      return false;
    }
    return true;
  }
  // false: nothing came in time, or the connection is gone
  bool get(resp::Val &v, int64_t timeoutMs) {
    int64_t end = now() + timeoutMs * 1000;
    while(true) {
      if(fd < 0) return false;
      size_t p = 0;
      int rc = resp::decode(in, p, v);
      if(rc == 1) { in.erase(0, p); return true; }
      if(rc < 0) { VF_FAIL("reply", "bytes which are no reply: " << esc(in)); drop(); return false; }
      int64_t left = (end - now()) / 1000;
      if(left <= 0) { drop(); return false; }
      pollfd pf {fd, POLLIN, 0};
      poll(&pf, 1, std::min<int64_t>(left, 100));
      char buf[65536];
      ssize_t n = ::recv(fd, buf, sizeof(buf), 0);
      if(n > 0) in.append(buf, n);
      else if(n == 0 || (errno != EAGAIN && errno != EINTR)) { drop(); return false; }
    }
  }
};

static std::string wireOf(const Args &a) {
  std::string o = "*" + std::to_string(a.size()) + "\r\n";
  for(auto &s : a) o += "$" + std::to_string(s.size()) + "\r\n" + s + "\r\n";
  return o;
}
static bool isMoved(const resp::Val &v) { return v.type == '-' && v.s.compare(0, 6, "MOVED ") == 0; }
static bool isUnavailable(const resp::Val &v) { return v.type == '-' && v.s.find("unavailable") != std::string::npos; }

// ------------------------------------------------------------------ what is recorded
enum Kind { kWrite, kRead, kPush, kCount, kLease, kRelease };
struct Op {
  Kind kind;
  std::string reg;       // register, deque, counter or lease
  std::string val;       // written, read ("" for nil), pushed; or holder of a lease
  int64_t inv = 0, resp = INT64_MAX;
  bool ok = false;       // answered
  int64_t num = 0;       // reply of a push or an increment
  int node = -1;
  std::string show() const {
    std::ostringstream ss;
    static const char *names[] = {"write", "read", "push", "increment", "lease", "release"};
    ss << names[kind] << " " << reg << " '" << val << "' at " << inv / 1000.0 << " - ";
    if(ok) ss << resp / 1000.0 << " ms, node " << node; else ss << "never answered";
    if(ok && (kind == kPush || kind == kCount)) ss << " = " << num;
    return ss.str();
  }
};

struct Recorder {
  std::mutex mtx;
  std::vector<Op> ops;
  void add(const Op &o) { std::scoped_lock l(mtx); ops.push_back(o); }
};

// how late threads of this machine wake up, for judging how stale a read may be
struct Jitter {
  std::atomic<bool> stop {false};
  std::atomic<int64_t> worst {0};
  std::thread th;
  Jitter() : th([this] { while(!stop) { int64_t t = now(); usleep(5000); int64_t d = now() - t - 5000; if(d > worst) worst = d; } }) {}
  ~Jitter() { stop = true; th.join(); }
};

// ------------------------------------------------------------------ clients
struct Client {
  Cluster &cl;
  Recorder &rec;
  Rng g;
  int id, target = 0;
  Sock s;
  int64_t serial = 0;
  Client(Cluster &c, Recorder &r, int i, uint64_t seed) : cl(c), rec(r), g(seed), id(i) { target = g.below(3); }

  void elsewhere() { s.drop(); target = g.below(cl.n); }
  void follow(const resp::Val &v) {
    size_t p = v.s.rfind(':');
    int k = p == std::string::npos ? -1 : cl.byPort(atoi(v.s.c_str() + p + 1));
    if(k < 0) VF_FAIL("redirect", "redirected to nowhere: " << v.s);
    else target = k;
    s.drop();
    ctx().count("redirects followed");
  }

  // one request, or several in one packet. Replies in order; those which did not come are missing
  std::vector<resp::Val> ask(const std::vector<Args> &reqs, int64_t timeoutMs, std::vector<int64_t> &when) {
    std::vector<resp::Val> o;
    if(s.fd < 0 && !s.open(cl.c->ports[target])) { elsewhere(); nap(20); return o; }
    std::string w;
    for(auto &r : reqs) w += wireOf(r);
    if(!s.put(w)) { elsewhere(); return o; }
    for(size_t i = 0; i < reqs.size(); i++) {
      resp::Val v;
      if(!s.get(v, timeoutMs)) { elsewhere(); break; }
      when.push_back(now());
      o.push_back(v);
    }
    return o;
  }

  struct Planned { std::vector<Args> reqs; Op op; };
  Planned plan() {
    Planned p;
    int r = g.below(100);
    std::string uniq = std::to_string(id) + "." + std::to_string(++serial);
    if(r < 25) { p.op.kind = kWrite; p.op.reg = "reg" + std::to_string(g.below(4)); p.op.val = uniq; p.reqs = {{"SET", p.op.reg, uniq}}; }
    else if(r < 55) { p.op.kind = kRead; p.op.reg = "reg" + std::to_string(g.below(4)); p.reqs = {{"GET", p.op.reg}}; }
    else if(r < 63) { p.op.kind = kWrite; p.op.reg = "pair"; p.op.val = uniq; p.reqs = {{"MULTI"}, {"SET", "pair-a", uniq}, {"HSET", "pair-b", "f", uniq}, {"EXEC"}}; }
    else if(r < 71) { p.op.kind = kRead; p.op.reg = "pair"; p.reqs = {{"MULTI"}, {"HGET", "pair-b", "f"}, {"GET", "pair-a"}, {"EXEC"}}; }
    else if(r < 82) { p.op.kind = kPush; p.op.reg = "deque"; p.op.val = uniq; p.reqs = {{"DEQUE_PUSH_BACK", "deque", uniq}}; }
    else if(r < 92) { p.op.kind = kCount; p.op.reg = "counter"; p.op.val = "1"; p.reqs = {{"HINCRBY", "counters", "c", "1"}}; }
    else if(r < 97) { p.op.kind = kLease; p.op.reg = "lease" + std::to_string(g.below(2)); p.op.val = "holder-" + std::to_string(id); p.reqs = {{"LEASE_ACQUIRE", p.op.reg, p.op.val, "8000"}}; }
    else { p.op.kind = kRelease; p.op.reg = "lease" + std::to_string(g.below(2)); p.op.val = "holder-" + std::to_string(id); p.reqs = {{"LEASE_GET", p.op.reg}}; }
    return p;
  }

  // the reply of one planned operation
  void judge(Planned &p, const std::vector<resp::Val> &vs, int64_t when) {
    Op &o = p.op;
    o.node = target;
    const resp::Val &v = vs.back();
    if(isMoved(v) || isUnavailable(v)) { if(o.kind != kRead && o.kind != kRelease) rec.add(o); return; }
    for(auto &x : vs) if(isMoved(x) || isUnavailable(x)) { rec.add(o); return; }
    auto bad = [&] { VF_FAIL("reply", "unexpected reply to " << show(p.reqs[0]) << ": " << resp::show(v)); };
    o.ok = true;
    o.resp = when;
    ctx().count("operations answered");
    switch(o.kind) {
      case kWrite:
        if(o.reg == "pair") {
          if(v.type != '*' || v.kids.size() != 2 || v.kids[0].s != "OK" || v.kids[1].type != ':') return bad();
        }
        else if(v.type != '+' || v.s != "OK") return bad();
        break;
      case kRead:
        if(o.reg == "pair") {
          if(v.type != '*' || v.kids.size() != 2 || v.kids[0].type != '$' || v.kids[1].type != '$') return bad();
          if(v.kids[0].nil != v.kids[1].nil || v.kids[0].s != v.kids[1].s) VF_FAIL("torn", "a transaction read half of another transaction: " << resp::show(v));
          o.val = v.kids[0].s;
        }
        else { if(v.type != '$') return bad(); o.val = v.s; }
        break;
      case kPush: case kCount:
        if(v.type != ':') return bad();
        o.num = v.i;
        break;
      case kLease:
        if(v.type == '-' && v.s.find("lease held by") != std::string::npos) return;
        if(v.type != '+' || (v.s != "ACQUIRED" && v.s != "RENEWED")) return bad();
        break;
      case kRelease:
        return;
    }
    rec.add(o);
  }

  void step() {
    size_t k = g.chance(70) ? 1 : 2 + g.below(4);
    std::vector<Planned> ps;
    std::vector<Args> all;
    for(size_t i = 0; i < k; i++) { ps.push_back(plan()); for(auto &r : ps.back().reqs) all.push_back(r); }
    int64_t t0 = now();
    for(auto &p : ps) p.op.inv = t0;
    std::vector<int64_t> when;
    int asked = target;
    std::vector<resp::Val> vs = ask(all, 2000, when);
    bool lost = vs.size() < all.size();
    if(!lost) target = asked;
    size_t at = 0;
    const resp::Val *moved = nullptr;
    bool unavailable = false;
    for(auto &p : ps) {
      size_t m = p.reqs.size();
      if(at + m > vs.size()) { p.op.node = asked; if(p.op.kind != kRead && p.op.kind != kRelease) { rec.add(p.op); ctx().count("outcomes unknown"); } at = vs.size() + 1; continue; }
      std::vector<resp::Val> mine(vs.begin() + at, vs.begin() + at + m);
      int keep = target;
      target = asked;
      judge(p, mine, when[at + m - 1]);
      target = keep;
      at += m;
      for(size_t i = at - m; i < at; i++) { if(isMoved(vs[i])) moved = &vs[i]; if(isUnavailable(vs[i])) unavailable = true; }
    }
    if(!lost && moved) follow(*moved);
    else if(!lost && unavailable) { ctx().count("told to come back later"); elsewhere(); nap(20 + g.below(50)); }
  }
};

// ------------------------------------------------------------------ checkers
// A register with unique values: it is linearizable exactly if the zones of its values can be laid out
// (Gibbons and Korach): forward zones do not overlap, no backward zone lies within a forward zone.
struct Zone { std::string val; int64_t f = INT64_MAX, s = INT64_MIN; const Op *write = nullptr; const Op *first = nullptr, *last = nullptr; };

static void checkRegister(const std::string &reg, const std::vector<const Op*> &ops, int64_t slack, const std::string &head) {
  std::map<std::string, Zone> zones;
  zones[""].f = INT64_MIN;    // the initial value was written before everything
  zones[""].val = "(nothing)";
  for(const Op *o : ops) if(o->kind == kWrite) {
    Zone &z = zones[o->val];
    if(z.write) { VF_FAIL("harness", "value written twice"); return; }
    z.write = o;
    z.val = o->val;
  }
  size_t reads = 0;
  std::set<std::string> read;
  for(const Op *o : ops) if(o->kind == kRead) {
    auto it = zones.find(o->val);
    if(it == zones.end() || (o->val != "" && !it->second.write)) { VF_FAIL("invented", head << "a value which was never written: " << o->show()); continue; }
    Zone &z = it->second;
    if(z.write && o->resp < z.write->inv) VF_FAIL("future", head << "read before it was written: " << o->show() << "; " << z.write->show());
    if(o->resp < z.f) z.f = o->resp, z.first = o;
    if(o->inv - slack > z.s) z.s = o->inv - slack, z.last = o;
    read.insert(o->val);
    reads++;
  }
  std::vector<Zone> fwd, bwd;
  for(auto &kv : zones) {
    Zone &z = kv.second;
    if(z.write) {
      bool answered = z.write->ok;
      if(!answered && !read.count(kv.first)) continue;      // perhaps it never happened
      if(answered && z.write->resp < z.f) z.f = z.write->resp, z.first = z.write;
      if(z.write->inv > z.s) z.s = z.write->inv, z.last = z.write;
      if(!answered) ctx().count("writes of unknown outcome seen later");
    }
    else if(kv.first == "" && z.s == INT64_MIN) continue;
    if(z.f < z.s) fwd.push_back(z);
    else { std::swap(z.f, z.s); bwd.push_back(z); }          // [f, s] again
  }
  std::sort(fwd.begin(), fwd.end(), [](const Zone &a, const Zone &b) { return a.f < b.f; });
  auto tell = [](const Zone &z) {
    std::ostringstream ss;
    ss << "value '" << z.val << "'";
    if(z.write) ss << " (" << z.write->show() << ")";
    if(z.first) ss << " earliest end: " << z.first->show();
    if(z.last) ss << "; latest begin: " << z.last->show();
    return ss.str();
  };
  for(size_t i = 1; i < fwd.size(); i++)
    if(fwd[i].f < fwd[i-1].s) { VF_FAIL("linearizability", head << reg << ": an older value was seen again: " << tell(fwd[i-1]) << " | " << tell(fwd[i])); return; }
  for(auto &b : bwd) {
    auto it = std::upper_bound(fwd.begin(), fwd.end(), b.f, [](int64_t t, const Zone &z) { return t < z.f; });
    if(it == fwd.begin()) continue;
    --it;
    if(it->f < b.f && b.s < it->s) { VF_FAIL("linearizability", head << reg << ": a write in between was not seen: " << tell(*it) << " | " << tell(b)); return; }
  }
  ctx().count("zones laid out", fwd.size() + bwd.size());
  ctx().count("values seen by several operations", fwd.size());
  ctx().count("reads judged", reads);
  for(auto &z : fwd) ctx().eval(reg + z.val);
  for(auto &z : bwd) ctx().eval(reg + z.val);
}

// acknowledged increments and pushes: all different, in real-time order, within the final value
static void checkSequence(const char *what, std::vector<const Op*> ops, int64_t fin, const std::string &head) {
  std::vector<const Op*> ok;
  size_t unknown = 0;
  for(auto *o : ops) if(o->ok) ok.push_back(o); else unknown++;
  std::sort(ok.begin(), ok.end(), [](const Op *a, const Op *b) { return a->num < b->num; });
  int64_t maxInv = INT64_MIN;
  const Op *late = nullptr;
  for(size_t i = 0; i < ok.size(); i++) {
    if(i && ok[i]->num == ok[i-1]->num) VF_FAIL("lost-update", head << what << ": the same result twice: " << ok[i-1]->show() << " | " << ok[i]->show());
    if(late && ok[i]->resp < maxInv) VF_FAIL("order", head << what << ": a later one came out smaller: " << ok[i]->show() << " before " << late->show() << ", which began after it had been answered");
    if(ok[i]->inv > maxInv) maxInv = ok[i]->inv, late = ok[i];
    if(ok[i]->num > fin) VF_FAIL("lost-write", head << what << ": acknowledged, but in the end it is " << fin << ": " << ok[i]->show());
    ctx().eval(std::string(what) + std::to_string(ok[i]->num));
  }
  if(fin < (int64_t) ok.size()) VF_FAIL("lost-write", head << what << ": " << ok.size() << " acknowledged, but in the end it is " << fin);
  if(fin > (int64_t) (ok.size() + unknown)) VF_FAIL("duplicate", head << what << ": " << ok.size() << " acknowledged and " << unknown << " of unknown outcome, but in the end it is " << fin);
  ctx().count(std::string(what) + " acknowledged", ok.size());
}

static void checkLease(std::vector<const Op*> ops, int64_t duration, int64_t tolerance, const std::string &head) {
  std::vector<const Op*> ok;
  for(auto *o : ops) if(o->ok) ok.push_back(o);
  std::sort(ok.begin(), ok.end(), [](const Op *a, const Op *b) { return a->resp < b->resp; });
  for(size_t i = 0; i < ok.size(); i++)
    for(size_t j = i + 1; j < ok.size(); j++) {
      if(ok[j]->val == ok[i]->val) continue;
      if(ok[j]->inv < ok[i]->resp) continue;                              // concurrent
      if(ok[j]->resp < ok[i]->inv + duration - tolerance) VF_FAIL("lease", head << "two holders at a time: " << ok[i]->show() << " | " << ok[j]->show());
    }
  ctx().count("leases acquired or renewed", ok.size());
}

// ------------------------------------------------------------------ what nodes say about themselves
struct Observed {
  std::mutex mtx;
  std::map<int64_t, std::set<int>> leaders;     // by term
  std::set<std::string> states;
  int64_t term[kMax] {};
  int leaderNow = -1;
  int64_t leaderTerm = -1;
  std::map<std::string, std::string> last[kMax];
};

static void poller(Cluster &cl, Observed &ob, int i, std::atomic<bool> &stop) {
  Sock s;
  int64_t commit = -1;
  int inc = -1;
  while(!stop) {
    nap(15);
    int starts;
    { std::scoped_lock l(cl.mtx); starts = cl.starts[i]; if(!cl.up(i)) { s.drop(); continue; } }
    if(s.fd < 0 && !s.open(cl.c->ports[i])) continue;
    resp::Val v;
    if(!s.put(wireOf({"RAFT_INFO"})) || !s.get(v, 500) || v.type != '*') continue;
    std::map<std::string, std::string> f;
    for(auto &k : v.kids) { size_t p = k.s.find(' '); if(p != std::string::npos) f[k.s.substr(0, p)] = k.s.substr(p + 1); }
    if(!f.count("TERM") || !f.count("STATUS")) continue;
    int64_t t = strtoll(f["TERM"].c_str(), nullptr, 10), ci = strtoll(f["COMMIT-INDEX"].c_str(), nullptr, 10), applied = strtoll(f["LAST-APPLIED"].c_str(), nullptr, 10);
    std::scoped_lock l(ob.mtx);
    ctx().count("reports of a node");
    if(t < ob.term[i]) VF_FAIL("term", "the term of node " << i << " went back from " << ob.term[i] << " to " << t);
    ob.term[i] = std::max(ob.term[i], t);
    if(starts == inc && ci < commit) VF_FAIL("commit", "the commit index of node " << i << " went back from " << commit << " to " << ci);
    inc = starts;
    commit = ci;
    if(applied > ci) ctx().count("applied ahead of the commit index");
    if(f["STATUS"] == "LEADER") {
      ob.leaders[t].insert(i);
      if(ob.leaders[t].size() > 1) VF_FAIL("two-leaders", "two nodes were leaders in term " << t);
      if(t > ob.leaderTerm) { ob.leaderTerm = t; ob.leaderNow = i; }
    }
    ob.states.insert(std::to_string(i) + f["STATUS"] + f["TERM"]);
    ob.last[i] = f;
  }
}

static int freePort(int from) {
  for(int p = from; ; p++) {
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_port = htons(p);
    bool ok = bind(fd, (sockaddr*) &a, sizeof(a)) == 0;
    ::close(fd);
    if(ok) return p;
  }
}

// ------------------------------------------------------------------ one run
static void run(const std::string &mode) {
  Rng g(ctx().seed * 977 + hash64(mode));
  Cluster cl;
  cl.dir = freshDir("cluster-" + mode);
  char self[4096];
  ssize_t len = readlink("/proc/self/exe", self, sizeof(self) - 1);
  cl.self = std::string(self, len);
  cl.c = mapControl(cl.dir + "/control", true);
  int from = 11000 + (getpid() % 2000) * 10;
  for(int i = 0; i < kMax; i++) { cl.c->ports[i] = freePort(from); from = cl.c->ports[i] + 1; }
  cl.n = mode == "members" ? 5 : 3;
  std::vector<RaftServer> nodes;
  for(int i = 0; i < 3; i++) nodes.emplace_back("127.0.0.1", cl.c->ports[i]);
  // starting further on, nodes which join have to be resilvered
  int64_t base = mode == "members" && g.chance(70) ? 1000 + g.below(100000) : 0;
  for(int i = 0; i < cl.n; i++) {
    Status st;
    std::unique_ptr<ShardDirectory> sd(ShardDirectory::create(cl.data(i), "c20", "default", i < 3 ? nodes : std::vector<RaftServer>{RaftServer::Null()}, i < 3 ? base : 0, g.pick(std::vector<FsyncPolicy>{FsyncPolicy::kAsync, FsyncPolicy::kSyncImportantUpdates}), nullptr, st));
    if(!sd || !st.ok()) { fprintf(stderr, "VF-HARNESS-ERROR create\n"); _exit(2); }
  }
  for(int i = 0; i < cl.n; i++) cl.start(i);

  Jitter jitter;
  Observed ob;
  std::atomic<bool> stop {false}, stopPoll {false};
  std::vector<std::thread> pollers, clients;
  for(int i = 0; i < cl.n; i++) pollers.emplace_back([&, i] { poller(cl, ob, i, stopPoll); });
  Recorder rec;
  const int nc = 6;
  std::atomic<int64_t> answered {0};
  for(int i = 0; i < nc; i++) clients.emplace_back([&, i, seed = g.next()] {
    Client c(cl, rec, i, seed);
    Rng r(seed ^ 77);
    while(!stop) { c.step(); nap(r.below(8)); }
  });
  auto leader = [&] { std::scoped_lock l(ob.mtx); return ob.leaderNow; };
  auto said = [&](int i, const char *f) { std::scoped_lock l(ob.mtx); return ob.last[i].count(f) ? ob.last[i][f] : std::string(); };
  auto victim = [&] { int l = leader(); return l >= 0 && g.chance(60) ? l : (int) g.below(cl.n); };
  // wait, watching
  auto let = [&](int64_t ms) { int64_t end = now() + ms * 1000; while(now() < end && cl.watch() && !ctx().failed()) nap(5); };
  // wait until somebody leads
  auto led = [&](int64_t ms) {
    int64_t end = now() + ms * 1000;
    while(now() < end && cl.watch() && !ctx().failed()) {
      for(int i = 0; i < cl.n; i++) if(cl.up(i) && said(i, "STATUS") == "LEADER") return true;
      nap(5);
    }
    return false;
  };
  led(30000);

  std::ostringstream did;
  int64_t start = now(), end = start + ctx().n(14, 12) * 1000000;
  Sock adm;
  auto admin = [&](const Args &a) {
    resp::Val v;
    int l = leader();
    if(l < 0 || !adm.open(cl.c->ports[l]) || !adm.put(wireOf(a)) || !adm.get(v, 2000)) return std::string("(no answer)");
    return resp::show(v);
  };
  int rounds = 0;
  while(now() < end && !ctx().failed()) {
    rounds++;
    int what = mode == "kill" ? 0 : mode == "isolate" ? 1 : mode == "pause" ? 2 : mode == "members" ? (g.chance(25) ? (int) g.below(3) : 3) : (int) g.below(3);
    did << " " << (now() - start) / 1000 << ":";
    if(what == 0) {
      std::vector<int> vs {victim()};
      if(g.chance(25)) vs.push_back(g.below(cl.n));
      if(g.chance(10)) { vs.clear(); for(int i = 0; i < cl.n; i++) vs.push_back(i); }
      for(int v : vs) { did << "kill" << v << ","; if(g.chance(75)) cl.kill9(v); else cl.terminate(v); }
      let(g.below(1200));
      for(int v : vs) { cl.start(v); if(g.chance(30)) let(g.below(500)); }
    }
    else if(what == 1) {
      for(int i = 0; i < cl.n; i++) for(int j = 0; j < cl.n; j++) cl.c->delay[i][j] = g.chance(25) ? g.below(40) : 0;
      int v = victim();
      if(g.chance(70)) { cl.cut(v); did << "cut" << v; }
      else { int a = g.below(cl.n), b = (a + 1 + g.below(cl.n - 1)) % cl.n; cl.cutPair(a, b); did << "cut" << a << "-" << b; }
      let(300 + g.below(2700));
      cl.heal();
    }
    else if(what == 2) {
      std::vector<int> vs {victim()};
      if(g.chance(20)) vs.push_back(g.below(cl.n));
      for(int v : vs) { cl.pause(v); did << "pause" << v << ","; }
      let(100 + g.below(2300));
      for(int v : vs) cl.resume(v);
    }
    else {
      int t = g.below(cl.n);
      const char *cmd = g.pick(std::vector<const char*>{"RAFT_ADD_OBSERVER", "RAFT_PROMOTE_OBSERVER", "RAFT_PROMOTE_OBSERVER", "RAFT_DEMOTE_TO_OBSERVER", "RAFT_REMOVE_MEMBER"});
      // mostly what makes sense
      std::string nodesNow = said(std::max(0, leader()), "NODES"), obsNow = said(std::max(0, leader()), "OBSERVERS");
      auto has = [&](const std::string &l, int i) { return ("," + l + ",").find("," + cl.srv(i) + ",") != std::string::npos; };
      int members = std::count(nodesNow.begin(), nodesNow.end(), ',') + 1;
      if(has(obsNow, t)) cmd = g.chance(80) ? "RAFT_PROMOTE_OBSERVER" : "RAFT_REMOVE_MEMBER";
      else if(has(nodesNow, t)) cmd = members <= 3 ? "" : g.chance(50) ? "RAFT_REMOVE_MEMBER" : "RAFT_DEMOTE_TO_OBSERVER";
      else cmd = "RAFT_ADD_OBSERVER";
      if(*cmd) {
        std::string a = admin({cmd, cl.srv(t)});
        if(a == "+OK") { did << cmd + 5 << t; ctx().count(std::string("accepted ") + cmd); }
        else ctx().count("membership changes refused or unanswered");
      }
      let(150 + g.below(500));
      continue;
    }
    led(2500);
    let(g.below(1500));
  }
  // the end of all faults
  for(int i = 0; i < cl.n; i++) cl.resume(i);
  cl.heal();
  for(int i = 0; i < cl.n; i++) cl.start(i);
  int64_t healed = now();
  if(!ctx().failed() && !led(60000)) VF_FAIL("no-leader", mode << ": no leader within a minute after all faults ended;" << did.str());
  let(1000);
  stop = true;
  for(auto &t : clients) t.join();
  std::string head = mode + " [" + did.str() + " ]: ";

  // final values, from whoever leads
  std::map<std::string, std::string> fin;
  std::vector<std::string> deque;
  int64_t counter = 0;
  if(!ctx().failed()) {
    Client c(cl, rec, 99, g.next());
    std::vector<Args> q;
    for(int i = 0; i < 4; i++) q.push_back({"GET", "reg" + std::to_string(i)});
    q.push_back({"GET", "pair-a"});
    q.push_back({"HGET", "pair-b", "f"});
    q.push_back({"HGET", "counters", "c"});
    q.push_back({"DEQUE_SCAN_BACK", "deque", "0", "COUNT", "1000000"});
    int64_t deadline = now() + 60000000;
    bool got = false;
    while(!got && now() < deadline && cl.watch()) {
      std::vector<int64_t> when;
      int64_t inv = now();
      int asked = c.target;
      auto vs = c.ask(q, 10000, when);
      if(vs.size() != q.size()) { nap(50); continue; }
      bool again = false;
      for(auto &v : vs) if(v.type == '-') again = true;
      if(again) { if(isMoved(vs[0])) c.follow(vs[0]); else c.elsewhere(); nap(50); continue; }
      got = true;
      for(int i = 0; i < 5; i++) { Op o; o.kind = kRead; o.reg = i < 4 ? q[i][1] : "pair"; o.val = vs[i].s; o.inv = inv; o.resp = when[i]; o.ok = true; o.node = asked; rec.add(o); }
      if(vs[4].s != vs[5].s) VF_FAIL("torn", head << "half of a transaction in the end: '" << vs[4].s << "', '" << vs[5].s << "'");
      counter = strtoll(vs[6].s.c_str(), nullptr, 10);
      for(auto &k : vs[7].kids[1].kids) deque.push_back(k.s);
    }
    if(!got && !ctx().failed()) VF_FAIL("unavailable", head << "no reads served within a minute after all faults ended");
  }
  // everyone catches up
  std::set<int> members;
  if(!ctx().failed()) {
    int64_t deadline = now() + 60000000;
    bool same = false;
    while(!same && now() < deadline && cl.watch()) {
      nap(50);
      members.clear();
      int l = -1;
      for(int i = 0; i < cl.n; i++) if(said(i, "STATUS") == "LEADER" && strtoll(said(i, "TERM").c_str(), nullptr, 10) == [&] { std::scoped_lock lk(ob.mtx); return ob.leaderTerm; }()) l = i;
      if(l < 0) continue;
      std::string ns = said(l, "NODES") + "," + said(l, "OBSERVERS");
      for(int i = 0; i < cl.n; i++) if(("," + ns + ",").find("," + cl.srv(i) + ",") != std::string::npos) members.insert(i);
      same = true;
      std::string size = said(l, "LOG-SIZE");
      for(int i : members) if(said(i, "LOG-SIZE") != size || strtoll(said(i, "LAST-APPLIED").c_str(), nullptr, 10) != strtoll(size.c_str(), nullptr, 10) - 1 || said(i, "TERM") != said(l, "TERM")) same = false;
    }
    if(!same && !ctx().failed()) {
      std::ostringstream ss;
      for(int i = 0; i < cl.n; i++) ss << " node " << i << ": " << said(i, "STATUS") << " term " << said(i, "TERM") << " size " << said(i, "LOG-SIZE") << " commit " << said(i, "COMMIT-INDEX") << " applied " << said(i, "LAST-APPLIED") << " nodes " << said(i, "NODES") << " leader " << said(i, "LEADER") << ";";
      VF_FAIL("no-convergence", head << "the nodes did not catch up within a minute after all faults ended:" << ss.str());
    }
    ctx().count("ms until everyone had caught up", (now() - healed) / 1000);
  }
  stopPoll = true;
  for(auto &t : pollers) t.join();
  cl.watch();
  cl.killAll();
  for(int i = 0; i < cl.n; i++) {
    std::ifstream f(cl.log(i), std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    size_t at = s.find("WARNING: ThreadSanitizer");
    if(at != std::string::npos) VF_FAIL("race", "in node " << i << ": " << s.substr(at, 6000));
    for(size_t p = 0; (p = s.find("esilvering", p)) != std::string::npos; p++) ctx().count("lines of logs on resilvering");
  }
  if(ctx().failed()) { fprintf(stderr, "%s\n", head.c_str()); return; }

  // histories
  int64_t slack = 500000 + 4 * jitter.worst;
  std::map<std::string, std::vector<const Op*>> by;
  size_t discarded = 0;
  for(auto &o : rec.ops) {
    bool skip = false;
    if(o.kind == kRead) for(auto &p : cl.pauses) if(p.node == o.node && o.resp >= p.from && o.inv <= p.to) skip = true;
    if(skip) { discarded++; continue; }
    by[o.reg].push_back(&o);
  }
  ctx().count("reads by paused nodes not judged", discarded);
  for(auto &kv : by) {
    if(kv.first.compare(0, 3, "reg") == 0 || kv.first == "pair") checkRegister(kv.first, kv.second, slack, head);
    if(kv.first.compare(0, 5, "lease") == 0) checkLease(kv.second, 8000000, 5000000 + 4 * jitter.worst, head);
  }
  checkSequence("counter", by["counter"], counter, head);
  checkSequence("deque", by["deque"], deque.size(), head);
  std::set<std::string> ids, sent;
  for(auto &x : deque) if(!ids.insert(x).second) VF_FAIL("duplicate", head << "pushed once, but twice in the deque: " << x);
  for(auto *o : by["deque"]) {
    sent.insert(o->val);
    if(o->ok && (o->num < 1 || o->num > (int64_t) deque.size() || deque[o->num-1] != o->val)) VF_FAIL("lost-write", head << "not where it was put: " << o->show());
  }
  for(auto &x : deque) if(!sent.count(x)) VF_FAIL("invented", head << "in the deque, but never pushed: " << x);

  // replicas
  std::map<int, jd::Jn> js;
  std::map<int, std::map<std::string, std::string>> sms;
  for(int i : members) {
    std::string base = cl.data(i) + "/current";
    js.emplace(i, jd::Jn(base + "/raft-journal"));
    sms[i] = dumpRaw(base + "/state-machine");
    sms[i].erase("__clock");
  }
  int a = *members.begin();
  for(int i : members) {
    if(i == a) continue;
    jd::Jn &x = js.at(a), &y = js.at(i);
    if(x.size != y.size || x.members != y.members || x.epoch != y.epoch) VF_FAIL("replicas", head << "journals of nodes " << a << " and " << i << " end differently: " << x.size << " " << x.members << " / " << y.size << " " << y.members);
    // a node which joined began with an entry of its own at 0
    for(int64_t k = std::max<int64_t>({x.start, y.start, 1}); k < std::min(x.size, y.size); k++)
      if(x.entries[k] != y.entries[k]) { VF_FAIL("replicas", head << "nodes " << a << " and " << i << " have different entries at " << k << ": " << esc(x.entries[k]) << " / " << esc(y.entries[k])); break; }
    if(sms[a] != sms[i]) {
      std::ostringstream ss;
      for(auto &kv : sms[a]) if(!sms[i].count(kv.first) || sms[i][kv.first] != kv.second) { ss << esc(kv.first) << " = " << esc(kv.second) << " / " << (sms[i].count(kv.first) ? esc(sms[i][kv.first]) : "missing"); break; }
      for(auto &kv : sms[i]) if(!sms[a].count(kv.first)) { ss << " only in the second: " << esc(kv.first); break; }
      VF_FAIL("replicas", head << "nodes " << a << " and " << i << " hold different contents: " << ss.str());
    }
    ctx().count("journal entries compared", std::min(x.size, y.size) - std::max(x.start, y.start));
    ctx().count("records of state machines compared", sms[a].size());
  }
  ctx().count("leaders", ob.leaders.size());
  ctx().count("distinct node states", ob.states.size());
  ctx().count("rounds of faults", rounds);
  ctx().count("operations", rec.ops.size());
  ctx().count("microseconds of slack for reads", slack);
  ctx().sample(head + std::to_string(rec.ops.size()) + " operations, " + std::to_string(ob.leaders.size()) + " leaders");
  if(ob.leaders.empty()) ctx().count("runs without leader");
}

int main(int argc, char **argv) {
  init(argc, argv);
  if(ctx().arg("child") == "1") return child(ctx().arg("control"), ctx().iarg("index", 0), ctx().arg("data"));
  quiet();
  signal(SIGPIPE, SIG_IGN);
  run(ctx().arg("mode", "mixed"));
  return ctx().finish();
}
