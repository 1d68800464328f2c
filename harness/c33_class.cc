// C33: commands do only what their class allows.
//  table       the class of every name, in every spelling
//  reads       reads dispatched in every way on a state machine: nothing stored changes
//  leader      every command on a one-node cluster: only writes reach the log, each exactly once; nothing else changes data
//  standalone  the same on a standalone node
//  follower    every command on a follower: redirections, or local reads once these were activated
#include "sm_model.hh"
#include "node.hh"
#include "raft.hh"
#include "Commands.hh"
#include "redis/InternalFilter.hh"
#include "redis/Transaction.hh"
using namespace vf;
using namespace quarkdb;
using namespace smm;

static const std::set<std::string> kRead = {"get", "exists", "keys", "scan", "hget", "hexists", "hkeys", "hgetall", "hlen", "hvals", "hscan", "sismember", "smembers", "scard", "sscan",
  "deque_len", "deque_scan_back", "config_get", "config_getall", "lhget", "lhlen", "lhscan", "lhget_with_fallback", "raw_scan_tombstones", "raw_scan", "raw_get_all_versions", "clock_get", "type",
  "vhgetall", "vhlen", "lease_get_pending_expiration_events", "tx_readonly", "multiop_read"};
static const std::set<std::string> kWrite = {"flushall", "set", "del", "hset", "hmset", "hsetnx", "hincrby", "hincrbyfloat", "hincrbymulti", "hdel", "hclone", "sadd", "srem", "smove",
  "deque_push_front", "deque_pop_front", "deque_push_back", "deque_pop_back", "deque_trim_front", "deque_clear", "config_set", "lhset", "lhdel", "lhlocdel", "lhmset", "lhdel_with_fallback",
  "lhset_and_del_fallback", "convert_hash_field_to_lhash", "lease_acquire", "lease_get", "lease_release", "vhset", "vhdel", "artificially_slow_write_never_use_this", "tx_readwrite", "multiop_readwrite"};
static const std::set<std::string> kInternal = {"timestamped_lease_acquire", "timestamped_lease_get", "timestamped_lease_release"};
static const std::set<std::string> kPubsub = {"publish", "subscribe", "psubscribe", "unsubscribe", "punsubscribe"};
static const std::set<std::string> kMember = {"raft_add_observer", "raft_remove_member", "raft_promote_observer", "raft_demote_to_observer"};
static const std::set<std::string> kSerialized = {"tx_readonly", "tx_readwrite", "multiop_read", "multiop_readwrite"};

static std::string norm(std::string s) { for(auto &c : s) { c = tolower(c); if(c == '-') c = '_'; } return s; }
static std::string spelled(Rng &g, std::string s) { if(g.chance(50)) return s; for(auto &c : s) { if(g.chance(30)) c = toupper(c); if(c == '_' && g.chance(50)) c = '-'; } return s; }

static std::vector<std::string> allNames() {
  std::vector<std::string> o;
  for(auto &p : redis_cmd_map) o.push_back(p.first);
  std::sort(o.begin(), o.end());
  return o;
}

static std::string serialized(const std::vector<Cmd> &cs) {
  std::string o = intToBinaryString(cs.size());
  for(auto &c : cs) { o += intToBinaryString(c.size()); for(auto &a : c) o += intToBinaryString(a.size()) + a; }
  return o;
}

static void table() {
  Rng g(ctx().seed);
  std::set<std::string> known;
  for(auto &s : {kRead, kWrite, kInternal, kPubsub, kMember}) known.insert(s.begin(), s.end());
  for(auto &n : known) if(toReq({n}).getCommand() == RedisCommand::INVALID) VF_FAIL("table:missing", "the command " << n << " is unknown");
  for(auto &n : allNames()) {
    for(int v = 0; v < 12; v++) {
      std::string nm = v == 0 ? n : v == 1 ? n : spelled(g, n);
      if(v == 1) for(auto &c : nm) c = toupper(c);
      RedisRequest r = toReq({nm, "x"});
      bool rd = r.getCommandType() == CommandType::READ, wr = r.getCommandType() == CommandType::WRITE;
      bool wantRd = kRead.count(n), wantWr = kWrite.count(n) || kInternal.count(n);
      if(rd != wantRd || wr != wantWr) VF_FAIL("table:class", nm << " is classed as " << (rd ? "a read" : wr ? "a write" : "neither read nor write") << ", is " << (wantRd ? "a read" : wantWr ? "a write" : "neither"));
      RedisRequest f = toReq({nm, "k", "h", "1"});
      RedisRequest clean = toReq({nm, "k", "h", "1"});
      InternalFilter::process(f);
      bool gone = f.getCommand() == RedisCommand::INVALID;
      if(gone != (kInternal.count(n) || kSerialized.count(n))) VF_FAIL("table:filter", nm << (gone ? " is refused to clients" : " is accepted from clients"));
      if(gone && (f.getCommandType() == CommandType::WRITE || f.getCommandType() == CommandType::READ)) VF_FAIL("table:filter", nm << " is refused but still classed");
      ctx().count("spellings");
    }
    ctx().eval(n);
    // names close to this one
    for(int v = 0; v < 8; v++) {
      std::string nm = n;
      int k = g.below(6);
      if(k == 0) nm += '\0'; else if(k == 1) nm = " " + nm; else if(k == 2) nm.pop_back(); else if(k == 3) nm += nm.back(); else if(k == 4) nm[g.below(nm.size())] ^= 0x80; else nm += '_';
      if(redis_cmd_map.count(norm(nm)) || nm.empty()) continue;
      if(toReq({nm, "x"}).getCommandType() == CommandType::WRITE || toReq({nm}).getCommandType() == CommandType::READ || toReq({nm}).getCommand() != RedisCommand::INVALID)
        VF_FAIL("table:alike", "'" << esc(nm) << "' is taken for a command");
      ctx().count("names close to a command");
    }
  }
  // a transaction holds writes if one of its commands is one, however it was made
  for(int64_t i = 0; i < ctx().n(400); i++) {
    Gen gen(g);
    Transaction t;
    bool want = false;
    std::vector<Cmd> cs;
    for(size_t n = 1 + g.below(5); n > 0; n--) {
      Cmd c = g.chance(30) ? gen.write() : gen.read();
      if(norm(c[0]).compare(0, 11, "timestamped") == 0) c = {"DEL", "x"};
      want = want || kWrite.count(norm(c[0]));
      cs.push_back(c);
      if(g.chance(50)) t.push_back(toReq(c)); else { RedisRequest r = toReq(c); t.push_back(std::move(r)); }
    }
    t.setPhantom(g.chance(50));
    if(t.containsWrites() != want) VF_FAIL("tx:class", "containsWrites says " << !want << smm::show(cs));
    RedisRequest r = t.toRedisRequest();
    r.parseCommand();
    if((r.getCommandType() == CommandType::WRITE) != want || (r.getCommandType() == CommandType::READ) == want) VF_FAIL("tx:fused", "serialized, a transaction changed its class" << smm::show(cs));
    if(r.size() == 3 && kSerialized.count(norm(std::string(r[0].data(), r[0].size())))) {
      Transaction back;
      if(!back.deserialize(r) || back.containsWrites() != want || back.size() != cs.size()) VF_FAIL("tx:back", "a transaction does not survive serialization" << smm::show(cs));
      // under the wrong label
      RedisRequest w = toReq({want ? "TX_READONLY" : "TX_READWRITE", std::string(r[1].data(), r[1].size()), std::string(r[2].data(), r[2].size())});
      InternalFilter::process(w);
      if(w.getCommand() != RedisCommand::INVALID) VF_FAIL("tx:label", "a transaction labelled " << (want ? "read-only" : "read-write") << " is accepted from clients" << smm::show(cs));
    }
    ctx().count("transactions");
    ctx().eval(SSTR("tx" << want << cs.size() << cs[0][0]));
  }
}

// arguments for a command
static Cmd argsFor(Rng &g, Gen &gen, const std::string &n) {
  if(g.chance(70) && (kRead.count(n) || kWrite.count(n) || kInternal.count(n))) {
    for(int k = 0; k < 150; k++) {
      Cmd c = kRead.count(n) ? gen.read() : gen.write();
      if(norm(c[0]) == n) return c;
    }
  }
  if(n == "lease_acquire" && g.chance(80)) return {n, gen.tkey(LEASE), "holder", std::to_string(1 + g.below(100000))};
  if((n == "lease_get" || n == "lease_release") && g.chance(80)) return {n, gen.tkey(LEASE)};
  Cmd c{n};
  for(size_t k = g.below(6); k > 0; k--) c.push_back(g.chance(40) ? gen.key() : g.chance(40) ? std::to_string(g.range(-3, 30)) : g.chance(50) ? gen.field() : gen.value());
  if(n == "raw_scan" || n == "raw_scan_tombstones") { if(c.size() > 1 && g.chance(70)) c.resize(2); }
  return c;
}
static Cmd noEmpty(Cmd c) { for(size_t i = 0; i < c.size(); i++) if(c[i].empty()) c[i] = "e"; return c; }

static std::string diff(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) {
  std::ostringstream o;
  int n = 0;
  for(auto &x : a) { auto it = b.find(x.first); if(it == b.end()) { if(n++ < 5) o << "\n  gone: '" << esc(x.first, 80) << "'"; } else if(it->second != x.second) { if(n++ < 5) o << "\n  '" << esc(x.first, 80) << "' was '" << esc(x.second, 80) << "', is '" << esc(it->second, 80) << "'"; } }
  for(auto &x : b) if(!a.count(x.first)) { if(n++ < 5) o << "\n  appeared: '" << esc(x.first, 80) << "'='" << esc(x.second, 80) << "'"; }
  return o.str();
}
static std::map<std::string, std::string> dumpOf(StateMachine &sm) {
  std::map<std::string, std::string> out;
  auto it = sm.getRawIterator();
  for(it->SeekToFirst(); it->Valid(); it->Next()) out[it->key().ToString()] = it->value().ToString();
  return out;
}

static void reads() {
  Publisher pub;
  for(int64_t i = 0; i < ctx().n(8) && !ctx().failed(); i++) {
    Rng g(ctx().seed * 1000 + i);
    Gen gen(g);
    Sut sut(freshDir("vf-sm") + "/sm", &pub);
    int64_t idx = 0;
    for(int k = 0; k < 80; k++) { RedisRequest r = toReq(gen.write()); sut.disp->dispatch(r, ++idx); }
    std::vector<std::string> names(kRead.begin(), kRead.end());
    auto before = sut.dump();
    for(int k = 0; k < 350; k++) {
      std::vector<Cmd> cs;
      int how = g.below(3);
      for(size_t n = how ? 1 + g.below(4) : 1; n > 0; n--) {
        std::string nm = g.pick(names);
        if(kSerialized.count(nm)) nm = "get";
        cs.push_back(argsFor(g, gen, nm));
      }
      ctx().current(smm::show(cs));
      std::string rep;
      if(how == 0) { RedisRequest r = toReq(cs[0]); rep = sut.disp->dispatch(r, 0).val; }
      else {
        Transaction t;
        for(auto &c : cs) t.push_back(toReq(c));
        t.setPhantom(how == 1);
        rep = sut.disp->dispatch(t, 0).val;
      }
      std::vector<resp::Val> vs;
      if(!resp::many(rep, vs)) VF_FAIL("reads:reply", "malformed reply" << smm::show(cs));
      if(!vs.empty() && vs[0].type != '-') ctx().eval(norm(cs[0][0]) + resp::show(vs[0]).substr(0, 20));
      if(sut.sm->getLastApplied() != idx) { VF_FAIL("reads:log", "reads used up a position of the log" << smm::show(cs)); return; }
      if(k % 5 == 4 || k == 349) {
        auto after = sut.dump();
        if(after != before) { VF_FAIL("reads:changed", "reads changed what is stored, the last of them" << smm::show(cs) << diff(before, after)); return; }
        before = after;
        ctx().count("dumps compared");
      }
      ctx().count("reads", cs.size());
    }
    // and nothing is left behind for the next opening
    sut.reopen();
    auto after = sut.dump();
    if(after != before) VF_FAIL("reads:reopened", "after reopening" << diff(before, after));
  }
}

// the dynamic clock moves by itself
static resp::Val still(resp::Val v) {
  if(v.s.compare(0, 13, "DYNAMIC-CLOCK") == 0) v.s = "DYNAMIC-CLOCK";
  for(auto &k : v.kids) k = still(k);
  return v;
}

struct User {
  Client cl;
  int64_t serial = 0;
  bool over = false;
  explicit User(Dispatcher *d) : cl(d) {}
  // everything answered to these commands
  std::vector<resp::Val> call(const std::vector<Cmd> &cs) {
    std::string tok = "token-" + std::to_string(++serial), o;
    for(auto &c : cs) o += wire(c);
    o += wire({"PING", tok});
    cl.wire.arrive(o);
    cl.step();
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(40);
    while(true) {
      cl.collect();
      if(!cl.got.empty() && cl.got.back() == resp::str(tok)) break;
      if(cl.dead || cl.malformed || std::chrono::steady_clock::now() > end) { over = true; break; }
      usleep(50);
    }
    std::vector<resp::Val> r(cl.got.begin(), cl.got.end());
    cl.got.clear();
    if(!over) r.pop_back();
    return r;
  }
};

static std::string showAll(const std::vector<resp::Val> &v) { std::string o; for(auto &x : v) o += " " + resp::show(x); return o; }

static const std::set<std::string> kNever = {"multi", "debug", "artificially_slow_write_never_use_this", "monitor", "raft_observe_term", "raft_attempt_coup"};

// a node doing everything by itself
static void whole(bool raft) {
  Rng g(ctx().seed);
  std::string base = freshDir("vf-node"), dir = base + "/n";
  std::string cwd = base + "/cwd";
  mkdir(cwd.c_str(), 0755);
  if(chdir(cwd.c_str()) != 0) _exit(2);
  {
    Status s;
    ShardDirectory *sd = raft ? ShardDirectory::create(dir, "cid", "default", {RaftServer("127.0.0.1", 7777)}, 0, FsyncPolicy::kAsync, nullptr, s) : ShardDirectory::create(dir, "cid", "default", nullptr, s);
    delete sd;
    if(!s.ok()) _exit(2);
  }
  Configuration cfg;
  if(!Configuration::fromString(SSTR("redis.mode " << (raft ? "raft\nredis.myself 127.0.0.1:7777" : "standalone") << "\nredis.database " << dir << "\n"), cfg)) _exit(2);
  // a lease which survives stalls of this machine
  std::unique_ptr<QuarkDBNode> node(new QuarkDBNode(cfg, RaftTimeouts(std::chrono::milliseconds(40), std::chrono::milliseconds(60), std::chrono::milliseconds(10))));
  {
  User watcher(node.get());
  std::unique_ptr<User> u;
  auto info = [&](const std::string &f) -> int64_t {
    auto r = watcher.call({{"RAFT_INFO"}});
    if(r.size() == 1) for(auto &k : r[0].kids) if(k.s.compare(0, f.size() + 1, f + " ") == 0) return strtoll(k.s.c_str() + f.size() + 1, nullptr, 10);
    return -1;
  };
  auto logSize = [&] { return raft ? info("LOG-SIZE") : 0; };
  // zero-sized arguments end connections: seek to the smallest key there can be instead
  auto dumpAll = [&] {
    std::map<std::string, std::string> o;
    auto r = watcher.call({{"RAW_SCAN", std::string(1, '\0'), "COUNT", "100000"}});
    if(r.size() == 1 && r[0].type == '*') for(size_t i = 0; i + 1 < r[0].kids.size(); i += 2) o[r[0].kids[i].s] = r[0].kids[i+1].s;
    return o;
  };
  if(raft && !eventually([&] { auto r = watcher.call({{"RAFT_LEADER_INFO"}}); auto w = watcher.call({{"SET", "first", "v"}}); return w.size() == 1 && w[0].type == '+'; }, 30000)) { VF_FAIL("leader:start", "a single node never became a leader"); return; }
  if(!raft) watcher.call({{"SET", "first", "v"}});
  int64_t term = raft ? info("TERM") : 0;
  Gen gen(g);
  std::vector<std::string> names = allNames(), rd(kRead.begin(), kRead.end()), wr(kWrite.begin(), kWrite.end());
  for(auto *v : {&rd, &wr}) v->erase(std::remove_if(v->begin(), v->end(), [](const std::string &n) { return kSerialized.count(n) || kNever.count(n); }), v->end());
  auto before = dumpAll();
  int64_t log0 = logSize();
  std::vector<std::string> last;
  auto one = [&](const std::string &n) { Cmd c = noEmpty(argsFor(g, gen, n)); c[0] = spelled(g, c[0]); return c; };
  size_t at = 0;
  std::map<std::string, int> did;
  for(int64_t i = 0; i < ctx().n(1100) && !ctx().failed(); i++) {
    if(!u || u->over || g.chance(3)) { if(u) u->cl.hangup(); u.reset(new User(node.get())); }
    std::vector<Cmd> cs;
    int64_t grow = 0;                 // entries which must appear in the log
    bool mayChange = false, member = false, hangs = false;
    std::string kind;
    int r = g.below(100);
    if(r < 45) {
      // every name in turn
      std::string n = names[at++ % names.size()];
      if(kNever.count(n) || kSerialized.count(n)) continue;
      if(kInternal.count(n)) cs = {{spelled(g, n), noEmpty({gen.tkey(LEASE)})[0], "INTERNAL-TOKEN", "1000", be64(g.chance(50) ? 0xfffffffffffffull : g.below(100000))}};
      else cs = {one(n)};
      if(kInternal.count(n) && n == "timestamped_lease_get") cs[0].erase(cs[0].begin() + 2, cs[0].begin() + 4);
      if(kInternal.count(n) && n == "timestamped_lease_release") cs[0].erase(cs[0].begin() + 2, cs[0].begin() + 4);
      if(kWrite.count(n)) { grow = 1; mayChange = true; }
      if(kMember.count(n)) { member = true; cs = {{n, g.chance(50) ? "127.0.0.1:1" : g.pick(std::vector<std::string>{"127.0.0.1:7777", "x", "127.0.0.1:2"})}}; }
      hangs = kPubsub.count(n);
      kind = n;
    }
    else if(r < 60) { cs = {one(g.pick(wr))}; grow = 1; mayChange = true; kind = "write"; }
    else if(r < 70) { for(size_t k = 1 + g.below(4); k > 0; k--) cs.push_back(one(g.pick(rd))); kind = "reads"; }
    else if(r < 75) { for(size_t k = 1 + g.below(4); k > 0; k--) cs.push_back(one(g.pick(wr))); grow = -1; mayChange = true; kind = "writes"; }
    else if(r < 88) {
      cs.push_back({"MULTI"});
      bool foreign = false;
      for(size_t k = g.below(5); k > 0; k--) {
        int w = g.below(10);
        if(w < 4) cs.push_back(one(g.pick(rd)));
        else if(w < 8) { cs.push_back(one(g.pick(wr))); mayChange = true; }
        else if(w < 9) { cs.push_back({"TIMESTAMPED_LEASE_ACQUIRE", "lease", "INTERNAL-TOKEN", "1000", be64(g.below(1000))}); foreign = true; }
        else { cs.push_back({g.pick(Cmd{"PING", "CLIENT_ID", "RAFT_INFO", "QUARKDB_VERSION", "PUBLISH"})}); foreign = true; }
      }
      bool discard = g.chance(20);
      cs.push_back({discard ? "DISCARD" : "EXEC"});
      if(discard) mayChange = false;
      grow = !mayChange ? 0 : foreign ? -2 : 1;
      kind = SSTR("multi" << discard << foreign << mayChange);
    }
    else {
      // written by hand: a client is free to put anything inside
      std::vector<Cmd> in;
      bool intern = false, w = false;
      for(size_t k = 1 + g.below(3); k > 0; k--) {
        int x = g.below(20);
        if(x < 10) in.push_back(one(g.pick(rd)));
        else if(x < 17) { in.push_back(one(g.pick(wr))); w = true; }
        else if(x < 19) {
          intern = true;
          std::string ts = be64(g.chance(50) ? 0xfffffffffffffull : g.below(100000));
          switch(g.below(3)) {
            case 0: in.push_back({"TIMESTAMPED_LEASE_ACQUIRE", "lease", "INTERNAL-TOKEN", "1000", ts}); break;
            case 1: in.push_back({"TIMESTAMPED_LEASE_GET", "lease", ts}); break;
            default: in.push_back({"TIMESTAMPED_LEASE_RELEASE", "lease", ts}); break;
          }
          w = true;
        }
        else {
          // neither read nor write, or one within the other
          intern = true;
          if(g.chance(40)) { Cmd c = one(g.pick(wr)); in.push_back({g.pick(Cmd{"TX_READWRITE", "TX_READONLY"}), serialized({c}), "real"}); w = true; }
          else in.push_back({g.pick(Cmd{"PING", "RAFT_INFO", "MULTI", "EXEC", "SUBSCRIBE", "nosuchcommand"}), "x"});
        }
      }
      bool wrong = g.chance(30);
      std::string label = w != wrong ? g.pick(Cmd{"TX_READWRITE", "MULTIOP_READWRITE"}) : g.pick(Cmd{"TX_READONLY", "MULTIOP_READ"});
      cs = {{label, serialized(in), g.chance(50) ? "real" : "phantom"}};
      if(w && !wrong && !intern) { grow = 1; mayChange = true; }
      kind = SSTR("serialized" << w << wrong << intern);
    }
    ctx().current(smm::show(cs));
    std::vector<resp::Val> rep = u->call(cs);
    if(u->cl.malformed) { VF_FAIL("node:reply", "malformed replies to" << smm::show(cs)); return; }
    int64_t log1 = logSize();
    auto after = dumpAll();
    if(raft) eventually([&] { after = dumpAll(); return after["__last-applied"] == be64(log1 - 1); }, 5000);
    if(raft && info("TERM") != term) { ctx().count("terms lost"); term = info("TERM"); eventually([&] { auto w = watcher.call({{"SET", "first", "v"}}); return w.size() == 1 && w[0].type == '+'; }, 30000); log0 = logSize(); before = dumpAll(); continue; }
    if(raft && !u->over) {
      int64_t d = log1 - log0;
      int64_t most = grow == -1 ? (int64_t) cs.size() : grow == -2 ? 1 : member ? 1 : grow, least = grow == -1 ? 1 : grow == -2 || member ? 0 : grow;
      if(d < least || d > most) VF_FAIL("log:" + kind, "the log grew by " << d << ", expected " << least << ".." << most << ", replies" << showAll(rep).substr(0, 600) << " to" << smm::show(cs));
    }
    if(member && log1 > log0) before["__last-applied"] = after["__last-applied"];
    if(!mayChange && after != before) VF_FAIL("data:" + kind, "commands which are no writes changed what is stored:" << diff(before, after) << "\nreplies" << showAll(rep).substr(0, 600) << " to" << smm::show(cs));
    for(auto &c : cs) if(kInternal.count(norm(c[0])) && cs.size() == 1 && (rep.size() != 1 || rep[0].type != '-')) VF_FAIL("internal:" + norm(c[0]), "an internal command of a client was answered with" << showAll(rep) << ":" << smm::show(cs));
    for(auto &x : after) if(x.first.find("INTERNAL-TOKEN") != std::string::npos || x.second.find("INTERNAL-TOKEN") != std::string::npos) VF_FAIL("internal:stored", "an internal command of a client took effect" << smm::show(cs));
    if(raft && log1 > log0 && g.chance(30)) {
      auto e = watcher.call({{"RAFT_FETCH_LAST", "5", "raw"}});
      if(showAll(e).find("INTERNAL-TOKEN") != std::string::npos) VF_FAIL("internal:logged", "an internal command of a client reached the log" << smm::show(cs));
    }
    if(hangs && g.chance(50)) u->over = true;
    did[kind]++;
    ctx().count(mayChange ? "cases with writes" : "cases without writes");
    if(after != before) ctx().count("changes seen");
    ctx().eval(SSTR(kind << ":" << (rep.empty() ? '0' : rep[0].type) << (after != before)));
    before.swap(after);
    log0 = log1;
    if(i < 3) ctx().sample(smm::show(cs));
  }
  ctx().count("kinds of cases", did.size());
  if(u) u->cl.hangup();
  watcher.cl.hangup();
  }
  node.reset();
}

static void follower() {
  Rng g(ctx().seed);
  std::string base = freshDir("vf-node"), dir = base + "/n";
  std::string cwd = base + "/cwd";
  mkdir(cwd.c_str(), 0755);
  if(chdir(cwd.c_str()) != 0) _exit(2);
  Status s;
  std::vector<RaftServer> nodes = {RaftServer("127.0.0.1", 7777), RaftServer("leader-a.example.com", 1111), RaftServer("leader-b.example.com", 2222)};
  if(g.chance(30)) nodes.erase(nodes.begin());        // we may be an observer, or unknown
  std::unique_ptr<ShardDirectory> sd(ShardDirectory::create(dir, "cid", "default", nodes, 0, FsyncPolicy::kAsync, nullptr, s));
  if(!s.ok()) _exit(2);
  Configuration cfg;
  if(!Configuration::fromString("redis.mode raft\nredis.myself 127.0.0.1:7777\nredis.database " + dir + "\n", cfg)) _exit(2);
  RaftTimeouts slow(std::chrono::milliseconds(600000), std::chrono::milliseconds(900000), std::chrono::milliseconds(1000));
  std::unique_ptr<QuarkDBNode> node(new QuarkDBNode(cfg, slow, sd.get()));
  {
  StateMachine &sm = *sd->getStateMachine();
  RaftJournal &j = *sd->getRaftJournal();
  Publisher pub;
  RedisDispatcher direct(sm, pub);
  User boss(node.get());
  auto hs = boss.call({{"RAFT_HANDSHAKE", "x", "cid", slow.toString()}});
  if(hs.size() != 1 || hs[0].type != '+') { VF_FAIL("follower:handshake", showAll(hs)); return; }
  int64_t term = 0;
  std::string leader;
  Gen gen(g);
  auto beat = [&](const std::string &l) { leader = l; auto r = boss.call({{"RAFT_HEARTBEAT", std::to_string(++term), l}}); if(r.size() != 1 || r[0].type != '*') VF_FAIL("follower:heartbeat", showAll(r)); };
  auto put = [](int64_t n) { return intToBinaryString(n); };
  // the leader replicates and commits some writes
  auto feed = [&](int n) {
    int64_t prev = j.getLogSize() - 1;
    RaftTerm pt; j.fetch_or_die(prev, pt);
    Cmd q{"RAFT_APPEND_ENTRIES", leader, put(term) + put(prev) + put(pt) + put(prev + n) + put(n)};
    for(int k = 0; k < n; k++) { RaftEntry e; e.term = term; Cmd c = noEmpty(gen.write()); e.request = toReq(c); q.push_back(e.serialize()); }
    auto r = boss.call({q});
    if(r.size() != 1 || r[0].type != '*' || r[0].kids.size() < 3 || r[0].kids[2].s != "1") { VF_FAIL("follower:append", "an append was answered with" << showAll(r)); return; }
    if(!eventually([&] { return sm.getLastApplied() == prev + n; })) VF_FAIL("follower:apply", "committed entries are not applied");
  };
  std::vector<std::string> names = allNames(), rd(kRead.begin(), kRead.end()), wr(kWrite.begin(), kWrite.end());
  for(auto *v : {&rd, &wr}) v->erase(std::remove_if(v->begin(), v->end(), [](const std::string &n) { return kSerialized.count(n) || kNever.count(n); }), v->end());
  std::vector<std::unique_ptr<User>> us;
  std::vector<bool> stale;
  auto fresh = [&](size_t k) { if(us[k]) us[k]->cl.hangup(); us[k].reset(new User(node.get())); stale[k] = false; };
  us.resize(4); stale.resize(4);
  for(size_t k = 0; k < 4; k++) fresh(k);
  size_t at = 0;
  auto before = dumpOf(sm);
  for(int64_t i = 0; i < ctx().n(1500) && !ctx().failed(); i++) {
    int ev = g.below(100);
    if(ev < 2) { boss.call({{"RAFT_OBSERVE_TERM", std::to_string(++term)}}); leader = ""; ctx().count("leader lost"); }
    else if(ev < 5 || (leader.empty() && ev < 15)) { beat(g.chance(50) ? "leader-a.example.com:1111" : "leader-b.example.com:2222"); ctx().count("new leader"); }
    if(ev > 90 && !leader.empty()) { feed(1 + g.below(4)); if(ctx().failed()) return; }
    before = dumpOf(sm);
    size_t k = g.below(us.size());
    if(us[k]->over || g.chance(1)) fresh(k);
    if(g.chance(4)) { auto r = us[k]->call({{"ACTIVATE_STALE_READS"}}); if(r.size() != 1 || r[0].type != '+') VF_FAIL("follower:activate", showAll(r)); stale[k] = true; }
    int64_t size0 = j.getLogSize(), commit0 = j.getCommitIndex(), applied0 = sm.getLastApplied();
    std::vector<Cmd> cs;                   // what is asked
    std::vector<std::vector<Cmd>> units;   // data commands, as they are answered together
    auto one = [&](const std::string &n) { Cmd c = noEmpty(argsFor(g, gen, n)); c[0] = spelled(g, c[0]); return c; };
    int how = g.below(10);
    std::string kind;
    bool multi = false, other = false;
    if(how < 3) { Cmd c = one(g.pick(rd)); cs = {c}; units = {{c}}; kind = "read"; }
    else if(how < 5) { Cmd c = one(g.pick(wr)); cs = {c}; units = {{c}}; kind = "write"; }
    else if(how < 6) { for(size_t n = 2 + g.below(3); n > 0; n--) { Cmd c = one(g.pick(g.chance(60) ? rd : wr)); cs.push_back(c); units.push_back({c}); } kind = "pipelined"; }
    else if(how < 8) {
      cs.push_back({"MULTI"}); units.push_back({});
      for(size_t n = 1 + g.below(4); n > 0; n--) { Cmd c = one(g.pick(g.chance(75) ? rd : wr)); cs.push_back(c); units[0].push_back(c); }
      cs.push_back({"EXEC"});
      multi = true; kind = "multi";
    }
    else {
      std::string n = names[at++ % names.size()];
      if(kNever.count(n) || kSerialized.count(n) || n == "activate_stale_reads" || n == "raft_handshake") continue;
      if(kPubsub.count(n)) { Cmd c{n, "chan", "msg"}; if(n != "publish") c.pop_back(); cs = {c}; units = {{c}}; }
      else if(kInternal.count(n)) { cs = {{n, "lease", "INTERNAL-TOKEN", "1000", be64(5)}}; other = true; }
      else if(kRead.count(n) || kWrite.count(n)) { Cmd c = one(n); cs = {c}; units = {{c}}; }
      else { cs = {one(n)}; other = true; }
      if(kMember.count(n)) cs = {{n, "127.0.0.1:1"}};
      kind = n;
    }
    ctx().current(SSTR(leader << " stale=" << stale[k] << smm::show(cs)));
    std::vector<resp::Val> rep = us[k]->call(cs);
    std::string ctxt = SSTR(" (leader '" << leader << "', stale reads " << stale[k] << "), replies" << showAll(rep).substr(0, 600) << " to" << smm::show(cs));
    if(us[k]->cl.malformed) { VF_FAIL("follower:reply", "malformed" << ctxt); return; }
    if(us[k]->over && getenv("VF_VERBOSE")) fprintf(stderr, "OVER dead=%d %s\n", us[k]->cl.dead, ctxt.c_str());
    if(us[k]->over) { ctx().count("connections ended"); continue; }
    resp::Val redirect = leader.empty() ? resp::err("ERR unavailable") : resp::err("MOVED 0 " + leader);
    auto local = [&](const std::vector<Cmd> &u) {
      resp::Val v;
      std::string o;
      if(!multi) { RedisRequest r = toReq(u[0]); o = direct.dispatch(r, 0).val; }
      else { Transaction t; for(auto &c : u) t.push_back(toReq(c)); t.setPhantom(false); o = direct.dispatch(t, 0).val; }
      if(!resp::one(o, v)) v.type = '?';
      return v;
    };
    if(!other) {
      size_t skip = multi ? cs.size() - 1 : 0;
      if(rep.size() != skip + units.size()) { VF_FAIL("follower:count", rep.size() << " replies" << ctxt); return; }
      for(size_t x = 0; x < units.size(); x++) {
        bool writes = false, pubsub = false;
        for(auto &c : units[x]) { writes |= kWrite.count(norm(c[0])) > 0; pubsub |= kPubsub.count(norm(c[0])) > 0; }
        const resp::Val &got = rep[skip + x];
        bool mayRead = stale[k] && !leader.empty() && !writes && !pubsub;
        if(mayRead) {
          std::string n = norm(units[x][0][0]);
          resp::Val want = local(units[x]);
          if(!(still(got) == still(want))) VF_FAIL("follower:stale:" + kind, "a local read gives " << resp::show(got).substr(0, 300) << ", the state machine says " << resp::show(want).substr(0, 300) << ctxt);
          ctx().count("local reads");
        }
        else {
          if(!(got == redirect)) VF_FAIL("follower:redirect:" + kind, "expected " << resp::show(redirect) << ", got " << resp::show(got).substr(0, 300) << ctxt);
          ctx().count(leader.empty() ? "unavailable" : pubsub ? "pubsub redirected" : writes ? "writes redirected" : "reads redirected");
        }
      }
    }
    else {
      for(auto &v : rep) if(kInternal.count(norm(cs[0][0])) && v.type != '-') VF_FAIL("internal:" + norm(cs[0][0]), "accepted" << ctxt);
      ctx().count("other commands");
    }
    if(j.getLogSize() != size0 || j.getCommitIndex() != commit0 || sm.getLastApplied() != applied0) VF_FAIL("follower:log:" + kind, "a client changed the journal of a follower" << ctxt);
    auto after = dumpOf(sm);
    if(after != before) VF_FAIL("follower:data:" + kind, "a client changed the data of a follower" << diff(before, after) << ctxt);
    if(i < 3) ctx().sample(SSTR(leader << smm::show(cs)));
    ctx().eval(SSTR(kind << stale[k] << leader.empty() << (rep.empty() ? '0' : rep.back().type)));
  }
  for(auto &u : us) u->cl.hangup();
  boss.cl.hangup();
  }
  node.reset();
  sd.reset();
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string m = ctx().arg("mode", "table");
  if(m == "table") table();
  else if(m == "reads") reads();
  else if(m == "leader") whole(true);
  else if(m == "standalone") whole(false);
  else follower();
  return ctx().finish();
}
