// C32: recovery operations on stopped databases against a map of the raw records.
//  raw       sessions of commands on random databases, on journals and on state machines, raw dumps before and after
//  reconf    forcing a new configuration on journals of every shape; the journal reopened afterwards
//  refuse    every command there is, and malformed recovery commands, change nothing
//  server    the recovery server over TCP, several clients at once
#include "jdirs.hh"
using namespace vf;
using namespace quarkdb;
using namespace jd;

typedef std::map<std::string, std::string> Raw;
typedef std::vector<std::string> Cmd;

static const std::vector<std::string> kImportant = {
  "RAFT_CURRENT_TERM", "RAFT_LOG_SIZE", "RAFT_LOG_START", "RAFT_CLUSTER_ID", "RAFT_VOTED_FOR", "RAFT_COMMIT_INDEX",
  "RAFT_MEMBERS", "RAFT_MEMBERSHIP_EPOCH", "RAFT_PREVIOUS_MEMBERS", "RAFT_PREVIOUS_MEMBERSHIP_EPOCH", "RAFT_FSYNC_POLICY",
  "__format", "__last-applied", "__in-bulkload", "__clock"};

static resp::Val decoded(const RedisEncodedResponse &r, const Cmd &c) {
  resp::Val v;
  if(!resp::one(r.val, v)) VF_FAIL("reply:malformed", vf::show(c) << " was answered with '" << esc(r.val) << "'");
  return v;
}

static std::string be(int64_t n) { std::string o; for(int i = 7; i >= 0; i--) o += (char) ((uint64_t) n >> (8 * i)); return o; }

static std::string diff(const Raw &a, const Raw &b) {
  std::ostringstream o;
  int n = 0;
  for(auto &x : a) { auto it = b.find(x.first); if(it == b.end()) { if(n++ < 5) o << "\n  gone: '" << esc(x.first, 80) << "'"; } else if(it->second != x.second) { if(n++ < 5) o << "\n  '" << esc(x.first, 80) << "' was '" << esc(x.second, 80) << "', is '" << esc(it->second, 80) << "'"; } }
  for(auto &x : b) if(!a.count(x.first)) { if(n++ < 5) o << "\n  appeared: '" << esc(x.first, 80) << "'='" << esc(x.second, 80) << "'"; }
  return o.str();
}

static std::string showN(const std::vector<Cmd> &h) {
  std::string o;
  for(size_t i = h.size() > 25 ? h.size() - 25 : 0; i < h.size(); i++) o += "\n    " + vf::show(h[i]);
  return o;
}

// one database under recovery
struct Session {
  std::string path;
  Raw model;
  std::map<std::string, int> versions;    // what was written to a key last: 1 value, 0 deletion
  std::vector<Cmd> hist;
  std::unique_ptr<RecoveryEditor> ed;
  std::unique_ptr<RecoveryDispatcher> disp;
  bool oneOff = false;
  bool stop = false;

  explicit Session(const std::string &p) : path(p), model(dumpRaw(p)) {}
  void bad(const std::string &k, const std::string &m) { if(!stop) VF_FAIL(k, m << "\n  after" << showN(hist)); stop = true; }
  void open() { ed.reset(new RecoveryEditor(path)); disp.reset(new RecoveryDispatcher(*ed)); }
  void close() {
    disp.reset(); ed.reset();
    Raw now = dumpRaw(path);
    if(now != model) bad("raw", "the database is not what the commands ask for:" + diff(model, now));
    ctx().count("raw records compared", now.size());
  }
  resp::Val run(const Cmd &c) {
    hist.push_back(c);
    ctx().current(showN(hist));
    RedisRequest r = req(c);
    if(oneOff) { disp.reset(); ed.reset(); return decoded(RecoveryRunner::issueOneOffCommand(path, r), c); }
    if(!disp) open();
    return decoded(disp->dispatch(r), c);
  }
  void get(const std::string &k) {
    resp::Val v = run({"RECOVERY_GET", k});
    auto it = model.find(k);
    if(it == model.end()) { if(v.type != '-') bad("get:missing", "a missing key was answered with " + resp::show(v)); ctx().count("get of a missing key"); }
    else { if(v.type != '$' || v.nil || v.s != it->second) bad("get", "'" + esc(k, 100) + "' holds '" + esc(it->second, 100) + "', was answered with " + resp::show(v)); ctx().count("get"); }
  }
  void set(const std::string &k, const std::string &val) {
    resp::Val v = run({"RECOVERY_SET", k, val});
    if(!(v == resp::status("OK"))) bad("set", "set was answered with " + resp::show(v));
    model[k] = val; versions[k] = 1;
    ctx().count("set");
  }
  void del(const std::string &k) {
    resp::Val v = run({"RECOVERY_DEL", k});
    if(model.count(k)) { if(!(v == resp::status("OK"))) bad("del", "deletion was answered with " + resp::show(v)); ctx().count("del"); }
    else { if(v.type != '-') bad("del:missing", "deletion of a missing key was answered with " + resp::show(v)); ctx().count("del of a missing key"); }
    model.erase(k); versions[k] = 0;
  }
  void info() {
    resp::Val v = run({"RECOVERY_INFO"});
    if(v.type != '*') { bad("info", "info was answered with " + resp::show(v)); return; }
    std::map<std::string, std::string> got;
    std::set<std::string> missing;
    for(size_t i = 0; i < v.kids.size(); i++) {
      std::string s = v.kids[i].s;
      if(v.kids[i].type != '$' || v.kids[i].nil) { bad("info", "info was answered with " + resp::show(v)); return; }
      bool absent = false;
      for(auto &k : kImportant) if(!model.count(k) && s.compare(0, k.size() + 1, k + ":") == 0) { missing.insert(k); absent = true; }
      if(absent) continue;
      if(i + 1 >= v.kids.size()) { bad("info", "info ends in '" + esc(s) + "'"); return; }
      got[s] = v.kids[++i].s;
    }
    for(auto &k : kImportant) {
      if(!model.count(k)) { if(!missing.count(k)) bad("info:missing", k + " is missing, which info does not say: " + resp::show(v)); }
      else if(!got.count(k) || got[k] != model[k]) bad("info:value", k + " is '" + esc(model[k]) + "', info says " + resp::show(v));
    }
    ctx().count("info");
  }
  void all(const std::string &k) {
    resp::Val v = run({"RECOVERY_GET_ALL_VERSIONS", k});
    if(v.type != '*' || v.kids.size() % 4) { bad("versions", "versions were answered with " + resp::show(v)); return; }
    uint64_t prev = UINT64_MAX;
    for(size_t i = 0; i < v.kids.size(); i += 4) {
      if(v.kids[i].s != "KEY: " + k) { bad("versions:key", "asked for versions of '" + esc(k, 100) + "', got " + resp::show(v)); return; }
      uint64_t seq = strtoull(v.kids[i+2].s.substr(10).c_str(), nullptr, 10);
      if(seq >= prev) { bad("versions:order", "versions out of order: " + resp::show(v)); return; }
      prev = seq;
    }
    if(model.count(k)) {
      if(v.kids.empty() || v.kids[1].s != "VALUE: " + model[k] || v.kids[3].s != "TYPE: 1") bad("versions:newest", "the newest version is '" + esc(model[k], 80) + "', was answered with " + resp::show(v));
    } else if(!v.kids.empty() && v.kids[3].s == "TYPE: 1") bad("versions:deleted", "a missing key has the newest version " + resp::show(v));
    ctx().count("versions shown", v.kids.size() / 4);
  }
  // nothing but an error, nothing changed
  void refused(const Cmd &c, const std::string &key) {
    resp::Val v = run(c);
    if(v.type != '-') bad(key, vf::show(c) + " was answered with " + resp::show(v));
    ctx().count("refused");
  }
};

static std::string pickKey(Rng &g, Session &s) {
  if(!s.model.empty() && g.chance(60)) {
    auto it = s.model.lower_bound(std::string(1, (char) g.below(256)));
    if(g.chance(50)) { it = s.model.begin(); std::advance(it, g.below(s.model.size())); }
    if(it == s.model.end()) it = s.model.begin();
    std::string k = it->first;
    int r = g.below(10);                             // or a neighbour of it
    if(r == 0) k += '\0';
    else if(r == 1 && k.size() > 1) k.pop_back();
    else if(r == 2) k.back()++;
    return k.empty() ? "a" : k;
  }
  if(g.chance(40)) return g.pick(kImportant);
  std::string k = g.bytes(12);
  return k.empty() ? "k" : k;
}
static std::string pickValue(Rng &g) {
  if(g.chance(5)) return g.bytes(20000, 0);
  if(g.chance(40)) return be(g.chance(50) ? g.below(100) : (int64_t) g.next());
  return g.bytes(30);
}

static void step(Rng &g, Session &s, bool anything) {
  int r = g.below(100);
  std::string k = pickKey(g, s);
  // a journal or state machine is to be reopened: only records it does not know are changed
  if(!anything && g.chance(50)) k = "_extra" + g.bytes(3);
  auto touchable = [&](const std::string &k) { return anything || k.compare(0, 6, "_extra") == 0; };
  if(r < 30) s.get(k);
  else if(r < 55) { if(touchable(k)) s.set(k, pickValue(g)); }
  else if(r < 75) { if(touchable(k)) s.del(k); }
  else if(r < 82) s.info();
  else if(r < 92) s.all(k);
  else if(r < 95) { int64_t n = g.chance(50) ? (int64_t) g.next() : g.range(-300, 300);
    resp::Val v = s.run({"CONVERT_INT_TO_STRING", std::to_string(n)});
    if(v.type != '*' || v.kids.size() != 2 || v.kids[0].s != "As int64_t: " + be(n) || v.kids[1].s != "As uint64_t: " + be(n)) s.bad("convert", "conversion of " + std::to_string(n) + " was answered with " + resp::show(v));
    v = s.run({"CONVERT_STRING_TO_INT", be(n)});
    if(v.type != '*' || v.kids.size() != 2 || v.kids[0].s != "Interpreted as int64_t: " + std::to_string(n) || v.kids[1].s != "Interpreted as uint64_t: " + std::to_string((uint64_t) n)) s.bad("convert", "conversion of " + std::to_string(n) + " was answered with " + resp::show(v));
    ctx().count("conversions"); }
  else s.refused({g.pick(Cmd{"GET", "SET", "DEL", "PING", "FLUSHALL", "nonsense", "RAFT_INFO", "EXEC"}), k, pickValue(g)}, "refused:other");
}

static void raw() {
  for(int64_t i = 0; i < ctx().n(45) && !ctx().failed(); i++) {
    Rng g(ctx().seed * 1000003 + i);
    std::string path = freshDir("vf-db") + "/db";
    int kind = g.below(3);
    if(kind == 0) {
      rocksdb::DB *db; rocksdb::Options o; o.create_if_missing = true;
      if(!rocksdb::DB::Open(o, path, &db).ok()) _exit(2);
      for(int k = g.below(60); k > 0; k--) { std::string key = g.bytes(6); db->Put(rocksdb::WriteOptions(), key.empty() ? "x" : key, pickValue(g)); if(g.chance(5)) db->Flush(rocksdb::FlushOptions()); }
      delete db;
    }
    Jn before;
    Sm sm;
    if(kind == 1) { makeJournal(g, path); before = Jn(path); }
    if(kind == 2) { makeSm(g, path); sm = Sm(path); }
    Session s(path);
    int64_t applied = -1;
    for(int round = 0; round < 4 && !s.stop; round++) {
      s.oneOff = g.chance(30);
      for(int k = s.oneOff ? 4 : 3 + g.below(50); k > 0 && !s.stop; k--) step(g, s, kind == 0);
      if(kind == 2 && g.chance(40)) { applied = g.below(100000); s.set("__last-applied", be(applied)); }
      if(!s.oneOff && g.chance(30)) {
        std::string what;
        bool t = throws([&] { RecoveryEditor second(path); }, &what);
        if(s.ed && !t) s.bad("open:twice", "a database in use was opened a second time");
        ctx().count("second opening refused");
      }
      s.close();
    }
    if(s.stop) return;
    // the database is still one its owner can open
    if(kind == 1) {
      Jn after(path);
      std::string d = before.diff(after);
      if(!d.empty()) s.bad("reopen:journal", "after edits elsewhere, the journal reads differently: " + d);
    }
    if(kind == 2) {
      Sm after(path);
      if(applied >= 0) { if(after.applied != applied) s.bad("reopen:applied", "last-applied was set to " + std::to_string(applied) + ", the state machine says " + std::to_string(after.applied)); after.applied = sm.applied; }
      std::string d = sm.diff(after);
      if(!d.empty()) s.bad("reopen:sm", "after edits elsewhere, the state machine reads differently: " + d);
    }
    ctx().eval(SSTR(kind << ":" << s.hist.size() << ":" << s.model.size()));
    ctx().count(kind == 0 ? "plain databases" : kind == 1 ? "journals" : "state machines");
    if(i < 2) ctx().sample(showN(s.hist));
  }
  // a path holding no database
  for(int i = 0; i < 3; i++) {
    std::string dir = freshDir("vf-none");
    std::string p = i == 0 ? dir : i == 1 ? dir + "/missing" : dir + "/file";
    if(i == 2) std::ofstream(p) << "x";
    if(!throws([&] { RecoveryEditor ed(p); })) VF_FAIL("open:missing", "recovery of something that is no database (case " << i << ") succeeded");
    if(access((p + "/CURRENT").c_str(), F_OK) == 0) VF_FAIL("open:created", "recovery created a database");
  }
}

static void reconf() {
  for(int64_t i = 0; i < ctx().n(60) && !ctx().failed(); i++) {
    Rng g(ctx().seed * 7000003 + i);
    std::string path = freshDir("vf-db") + "/db";
    makeJournal(g, path);
    Jn before(path);
    Session s(path);
    s.oneOff = g.chance(40);
    // refusals first
    std::string newId = "new-" + std::to_string(g.below(1000)), mem = members(g);
    for(int k = g.below(4); k > 0 && !s.stop; k--) {
      int r = g.below(6);
      if(r == 0) s.refused({"RECOVERY_FORCE_RECONFIGURE_JOURNAL", mem, before.cluster}, "reconf:same-id");
      else if(r == 1) s.refused({"RECOVERY_FORCE_RECONFIGURE_JOURNAL", g.pick(Cmd{"", "nonsense", "a:1", "a:b|", "a|", "a:1|b", "a:1|b:2|c:3", "a:1,b|", "|", "a:1|x:y", "a:99x|"}), newId}, "reconf:members");
      else if(r == 2) s.refused({"RECOVERY_FORCE_RECONFIGURE_JOURNAL", mem}, "reconf:args");
      else if(r == 3) s.refused({"RECOVERY_FORCE_RECONFIGURE_JOURNAL", mem, newId, "x"}, "reconf:args");
      else s.get("RAFT_MEMBERS");
      if(g.chance(30)) s.close();
    }
    if(s.stop) return;
    int rounds = g.chance(20) ? 2 : 1;
    for(int k = 0; k < rounds && !s.stop; k++) {
      if(k) { newId += "x"; mem = members(g); }
      resp::Val v = s.run({g.chance(50) ? "RECOVERY_FORCE_RECONFIGURE_JOURNAL" : "recovery-force-reconfigure-journal", mem, newId});
      if(!(v == resp::status("OK"))) s.bad("reconf:reply", "a good new configuration was answered with " + resp::show(v));
      s.model["RAFT_CLUSTER_ID"] = newId; s.model["RAFT_MEMBERS"] = mem; s.model["RAFT_MEMBERSHIP_EPOCH"] = be(0);
      s.model.erase("RAFT_PREVIOUS_MEMBERS"); s.model.erase("RAFT_PREVIOUS_MEMBERSHIP_EPOCH");
      if(g.chance(50)) s.close();
    }
    s.close();
    if(s.stop) return;
    for(int reopen = 0; reopen < 2 && !s.stop; reopen++) {
      Jn after(path);
      if(after.members != mem || after.epoch != 0) s.bad("reconf:membership", "forced to '" + mem + "', the journal says '" + after.members + "', epoch " + std::to_string(after.epoch));
      if(after.cluster != newId) s.bad("reconf:id", "forced to identity '" + newId + "', the journal says '" + after.cluster + "'");
      Jn same = after;
      same.members = before.members; same.epoch = before.epoch; same.cluster = before.cluster;
      std::string d = before.diff(same);
      if(!d.empty()) s.bad("reconf:entries", "forcing a new configuration changed the journal: " + d);
    }
    if(s.stop) return;
    // nothing of the previous configuration comes back
    {
      RaftJournal j(path);
      if(j.getLogSize() > j.getCommitIndex() + 1 && g.chance(70)) {
        int64_t from = j.getCommitIndex() + 1;
        j.removeEntries(from + g.below(j.getLogSize() - from));
        ctx().count("truncated after the change");
      }
      std::string now = RaftMembers(j.getMembership().nodes, j.getMembership().observers).toString();
      if(now != mem || j.getClusterID() != newId) s.bad("reconf:rollback", "forced to '" + mem + "', after truncation the journal says '" + now + "'");
      // and the next change of membership works
      std::string err;
      bool ok = j.addObserver(j.getCurrentTerm(), RaftServer("later.example.com", 4242), err);
      if(!ok) { j.setCommitIndex(j.getLogSize() - 1); ok = j.addObserver(j.getCurrentTerm(), RaftServer("later.example.com", 4242), err); }
      if(!ok) s.bad("reconf:next", "no membership change is possible after a forced configuration: " + err);
      now = RaftMembers(j.getMembership().nodes, j.getMembership().observers).toString();
      std::string want = mem + (mem.back() == '|' ? "" : ",") + "later.example.com:4242";
      if(now != want) s.bad("reconf:next", "forced to '" + mem + "', adding an observer gives '" + now + "'");
    }
    ctx().count("forced configurations");
    ctx().count(before.pending ? "with an uncommitted membership change" : "with a settled membership");
    if(before.start) ctx().count("on a trimmed journal");
    ctx().eval(SSTR(before.entries.size() << ":" << before.start << ":" << before.pending << ":" << mem));
    if(i < 2) ctx().sample(SSTR(before.cluster << " " << before.members << " -> " << newId << " " << mem));
  }
  // not a journal
  for(int k = 0; k < 2; k++) {
    Rng g(ctx().seed + 99 + k);
    std::string path = freshDir("vf-db") + "/db";
    makeSm(g, path);
    Session s(path);
    s.refused({"RECOVERY_FORCE_RECONFIGURE_JOURNAL", "a:1|", "id"}, "reconf:no-journal");
    s.close();
  }
}

static void refuse() {
  Rng g(ctx().seed);
  std::string path = freshDir("vf-db") + "/db";
  makeSm(g, path);
  Session s(path);
  std::vector<std::string> names;
  for(auto &p : redis_cmd_map) names.push_back(p.first);
  std::sort(names.begin(), names.end());
  std::string cwd = freshDir("vf-cwd");
  if(chdir(cwd.c_str()) != 0) _exit(2);
  int64_t tried = 0;
  for(auto &n : names) {
    bool rec = n.compare(0, 9, "recovery_") == 0;
    if(n == "convert_string_to_int" || n == "convert_int_to_string") continue;
    for(int64_t v = 0; v < ctx().n(6) && !s.stop; v++) {
      std::string nm = n;
      for(auto &c : nm) { if(g.chance(30)) c = toupper(c); if(c == '_' && g.chance(50)) c = '-'; }
      Cmd c{nm};
      size_t args = g.below(6);
      for(size_t a = 0; a < args; a++) c.push_back(g.chance(40) && !s.model.empty() ? pickKey(g, s) : g.chance(30) ? std::to_string(g.below(50)) : g.bytes(8));
      if(rec) {      // a wrong number of arguments
        size_t ok = n == "recovery_info" ? 1 : n == "recovery_set" || n == "recovery_force_reconfigure_journal" ? 3 : 2;
        if(n == "recovery_scan") { c.resize(1); }
        if(c.size() == ok) continue;
      }
      s.refused(c, rec ? "refused:arguments" : "refused:other");
      tried++;
    }
  }
  s.close();
  // through a connection, and in transactions
  s.open();
  for(int k = 0; k < 60 && !s.stop; k++) {
    Peer p;
    size_t n = 1 + g.below(5);
    std::string w = wire({"MULTI"});
    for(size_t i = 0; i < n; i++) w += wire(g.chance(50) ? Cmd{"SET", pickKey(g, s), "v"} : Cmd{"GET", pickKey(g, s)});
    bool phantom = g.chance(50);
    if(phantom) w = w.substr(wire({"MULTI"}).size());
    else w += wire({"EXEC"});
    w += wire({"RECOVERY_GET", "__format"});
    p.send(w);
    InFlightTracker t;
    try { p.conn->processRequests(s.disp.get(), t); }
    catch(const FatalException &e) { s.bad("transaction:fatal", std::string("a transaction sent to a node in recovery: ") + e.what()); break; }
    p.pump(); 
    // MULTI and what follows are answered one way or another, then comes the value
    if(p.malformed || p.got.empty()) { s.bad("transaction:reply", "odd replies"); break; }
    if(!(p.got.back() == resp::str(s.model["__format"]))) s.bad("transaction:after", "after a refused transaction, RECOVERY_GET was answered with " + resp::show(p.got.back()));
    bool err = false;
    std::function<void(const resp::Val&)> walk = [&](const resp::Val &v) { if(v.type == '-') err = true; for(auto &x : v.kids) walk(x); };
    for(auto &v : p.got) walk(v);
    if(!err) s.bad("transaction:accepted", "a transaction was not refused");
    if(phantom && p.got.size() != n + 1) s.bad("transaction:replies", std::to_string(n) + " commands and RECOVERY_GET were answered by " + std::to_string(p.got.size()) + " replies");
    ctx().count("transactions refused");
    ctx().eval(SSTR("tx" << phantom << n << p.got.size()));
  }
  s.close();
  ctx().count("refused commands", tried);
  ctx().count("command names", names.size());
  for(auto &n : names) ctx().eval(n);
}

struct Tcp {
  int fd = -1;
  std::string rx;
  explicit Tcp(int port) {
    for(int k = 0; k < 200; k++) {
      fd = socket(AF_INET, SOCK_STREAM, 0);
      struct sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      if(connect(fd, (struct sockaddr*) &a, sizeof(a)) == 0) return;
      ::close(fd); fd = -1;
      usleep(20000);
    }
  }
  ~Tcp() { if(fd >= 0) ::close(fd); }
  bool ask(const std::string &w, size_t n, std::vector<resp::Val> &out) {
    size_t off = 0;
    while(off < w.size()) { ssize_t k = ::send(fd, w.data() + off, w.size() - off, MSG_NOSIGNAL); if(k <= 0) return false; off += k; }
    while(out.size() < n) {
      struct pollfd p = {fd, POLLIN, 0};
      if(poll(&p, 1, 60000) <= 0) return false;
      char buf[65536];
      ssize_t k = ::recv(fd, buf, sizeof(buf), 0);
      if(k <= 0) return false;
      rx.append(buf, k);
      size_t pos = 0;
      while(true) { resp::Val v; int rc = resp::decode(rx, pos, v); if(rc < 0) return false; if(rc != 1) break; out.push_back(v); }
      rx.erase(0, pos);
    }
    return true;
  }
};

static int freePort() {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  struct sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t l = sizeof(a);
  if(bind(fd, (struct sockaddr*) &a, l) != 0 || getsockname(fd, (struct sockaddr*) &a, &l) != 0) _exit(2);
  ::close(fd);
  return ntohs(a.sin_port);
}

static void server() {
  for(int64_t i = 0; i < ctx().n(3, 5) && !ctx().failed(); i++) {
    Rng g(ctx().seed * 31 + i);
    std::string path = freshDir("vf-db") + "/db";
    makeJournal(g, path);
    Raw base = dumpRaw(path);
    const int T = 4;
    std::vector<Raw> mine(T);
    std::vector<std::set<std::string>> gone(T);
    {
      int port = freePort();
      RecoveryRunner runner(path, port);
      std::vector<std::thread> th;
      for(int t = 0; t < T; t++) th.emplace_back([&, t] {
        Rng r(ctx().seed * 77 + i * 10 + t);
        Tcp c(port);
        if(c.fd < 0) { VF_FAIL("server:connect", "no connection to the recovery server"); return; }
        std::string pre = "client-" + std::to_string(t) + "-";
        for(int k = 0; k < 60; k++) {
          std::string w; std::vector<resp::Val> want;
          size_t n = 1 + r.below(6);
          for(size_t x = 0; x < n; x++) {
            std::string key = pre + std::to_string(r.below(12));
            int op = r.below(4);
            if(op == 0) { std::string v = r.bytes(40); w += wire({"RECOVERY_SET", key, v.empty() ? "e" : v}); mine[t][key] = v.empty() ? "e" : v; want.push_back(resp::status("OK")); }
            else if(op == 1) { w += wire({"RECOVERY_DEL", key}); want.push_back(mine[t].count(key) ? resp::status("OK") : resp::err("")); mine[t].erase(key); }
            else if(op == 2) { auto it = base.begin(); std::advance(it, r.below(base.size())); w += wire({"RECOVERY_GET", it->first}); want.push_back(resp::str(it->second)); }
            else { w += wire({"RECOVERY_GET", key}); want.push_back(mine[t].count(key) ? resp::str(mine[t][key]) : resp::err("")); }
          }
          std::vector<resp::Val> got;
          if(!c.ask(w, n, got) || got.size() != n) { VF_FAIL("server:reply", "client " << t << ": " << n << " commands, " << got.size() << " replies"); return; }
          for(size_t x = 0; x < n; x++) if(want[x].type == '-' ? got[x].type != '-' : !(want[x] == got[x])) { VF_FAIL("server:value", "client " << t << " expected " << resp::show(want[x]) << ", got " << resp::show(got[x]) << " to command " << x << " of " << esc(w, 600)); return; }
          ctx().count("commands over TCP", n);
        }
      });
      for(auto &x : th) x.join();
    }
    Raw want = base;
    for(auto &m : mine) want.insert(m.begin(), m.end());
    Raw now = dumpRaw(path);
    if(now != want && !ctx().failed()) VF_FAIL("server:raw", "after the clients left, the database is not what they asked for:" << diff(want, now));
    Jn after(path);
    ctx().eval(SSTR("server" << i << now.size()));
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string m = ctx().arg("mode", "raw");
  if(m == "raw") raw();
  else if(m == "reconf") reconf();
  else if(m == "refuse") refuse();
  else server();
  return ctx().finish();
}
