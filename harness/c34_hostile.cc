// C34: nothing a client sends takes the node down, blocks it, breaks the protocol or harms other clients.
//  standalone, leader, follower, bulkload   a whole node in that role, hostile clients, a well-behaved one, a monitoring one
//  globs                                     patterns of every length against subjects of every length
#include "sm_model.hh"
#include "node.hh"
#include "raft.hh"
#include "Commands.hh"
#include "redis/InternalFilter.hh"
#include "redis/Transaction.hh"
#include "utils/CommandParsing.hh"
#include "../deps/StringMatchLen.h"
#include <thread>
using namespace vf;
using namespace quarkdb;
using namespace smm;

static std::atomic<uint64_t> beat {0};
static std::mutex whatMtx;
static std::string what;
static void doing(const std::string &s) { std::scoped_lock l(whatMtx); what = s; ctx().current(s); beat++; }
static void watchdog() {
  std::thread([] {
    uint64_t last = beat;
    auto since = std::chrono::steady_clock::now();
    while(true) {
      usleep(100000);
      auto now = std::chrono::steady_clock::now();
      if(beat != last) { last = beat; since = now; }
      else if(now - since > std::chrono::seconds(100)) {
        std::string w;
        { std::scoped_lock l(whatMtx); w = what; }
        VF_FAIL("hang", "no answer for 100 seconds, last asked: " << w.substr(0, 3000));
        ctx().write();
        _exit(3);
      }
    }
  }).detach();
}

static std::string lower(std::string s) { for(auto &c : s) { c = tolower(c); if(c == '-') c = '_'; } return s; }
static std::vector<std::string> allNames() {
  std::vector<std::string> o;
  for(auto &p : redis_cmd_map) o.push_back(p.first);
  std::sort(o.begin(), o.end());
  return o;
}
static std::string showAll(const std::vector<resp::Val> &v) { std::string o; for(auto &x : v) o += " " + resp::show(x); return o; }
static std::string showCs(const std::vector<Cmd> &cs) { std::string o; for(auto &c : cs) { o += "\n  "; for(auto &a : c) o += " '" + esc(a, 120) + "'"; } return o; }

struct Hostile {
  Rng &g;
  Gen gen;
  std::string role, cid, timeouts;
  std::vector<std::string> names = allNames();
  explicit Hostile(Rng &r, const std::string &ro) : g(r), gen(r), role(ro) {}

  std::string number() {
    static const std::vector<std::string> v = {"0", "-1", "1", "2", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "99999999999999999999999999", "1e400", "-1e308", "nan", "inf", "-inf",
      "0x10", " 5", "+5", "-", "+", "1.", ".5", "4294967296", "2147483648", "-2147483649", "00000000000000000000001", "1e-320"};
    return g.chance(70) ? g.pick(v) : std::to_string((int64_t) g.next() >> g.below(60));
  }
  std::string blob() {
    std::string o;
    for(size_t k = g.below(5); k > 0; k--) {
      int w = g.below(4);
      if(w == 0) o += be64(g.pick(std::vector<uint64_t>{0, 1, 2, 3, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x100000000ull, 100000}));
      else if(w == 1) o += be64(g.below(40));
      else o += g.bytes(20);
    }
    return o;
  }
  std::string tx(int depth = 0) {
    std::vector<Cmd> cs;
    for(size_t k = g.below(4); k > 0; k--) cs.push_back(g.chance(20) && depth < 3 ? Cmd{"TX_READONLY", tx(depth + 1), "real"} : g.chance(80) ? (g.chance(50) ? gen.read() : gen.write()) : anything(1));
    std::string o = be64(cs.size());
    for(auto &c : cs) { o += be64(c.size()); for(auto &a : c) o += be64(a.size()) + a; }
    for(size_t k = g.chance(50) ? g.below(4) : 0; k > 0 && !o.empty(); k--) {
      int w = g.below(4);
      if(w == 0) o[g.below(o.size())] = (char) g.next();
      else if(w == 1) o.resize(g.below(o.size() + 1));
      else if(w == 2) o += g.bytes(10);
      else { size_t at = g.below(o.size() / 8 + 1) * 8; if(at + 8 <= o.size()) o.replace(at, 8, be64(g.chance(50) ? g.next() : ~0ull - g.below(20))); }
    }
    return o;
  }
  std::string pattern() {
    std::string p;
    int w = g.below(6);
    if(w == 0) for(size_t k = g.below(300); k > 0; k--) p += "*a";
    else if(w == 1) { for(size_t k = g.below(60); k > 0; k--) p += "*?"; p += "z"; }
    else if(w == 2) { p = std::string(g.below(2000), '['); }
    else if(w == 3) { for(size_t k = g.below(40); k > 0; k--) p += g.pick(std::vector<std::string>{"[a-", "[^", "]", "\\", "*", "?", "a", "[z-a]", "[]", "[\\", "\xff", "-"}); }
    else p = randomPattern(g, 40);
    return p;
  }
  std::string arg() {
    switch(g.below(16)) {
      case 0: case 1: case 2: return gen.key();
      case 3: case 4: return number();
      case 5: return g.bytes(40);
      case 6: return blob();
      case 7: return g.pick(std::vector<std::string>{"COUNT", "MATCH", "MATCHLOC", "count", "match", "raw", "real", "phantom", "leader", "setname", "getname", "always", "async", "next:", "next:a##b", "0", "*"});
      case 8: { std::string s(1 + g.below(g.chance(10) ? 300000 : 3000), 'a' + g.below(3)); return s; }
      case 9: return pattern();
      case 10: return g.pick(names);
      case 11: return tx();
      case 12: return g.pick(std::vector<std::string>{"127.0.0.1:7777", "127.0.0.1:1", "host:0", "host:99999999999", ":", "a:b", "[::1]:5", "leader.example:1"});
      case 13: return "next:" + g.bytes(30);
      case 14: return gen.field();
      default: return gen.value();
    }
  }
  Cmd anything(int depth = 0) {
    Cmd c{g.pick(names)};
    if(g.chance(3)) c[0] = g.bytes(30);
    if(g.chance(10)) for(auto &ch : c[0]) ch = toupper(ch);
    size_t n = g.chance(10) ? g.below(60) : g.below(6);
    for(; n > 0; n--) c.push_back(depth && g.chance(70) ? gen.key() : arg());
    return c;
  }
  Cmd one() {
    if(g.chance(30)) {
      // something right with something wrong in it
      Cmd c = g.chance(50) ? gen.write() : gen.read();
      for(size_t k = g.below(3); k > 0; k--) {
        int w = g.below(4);
        if(w == 0) c.insert(c.begin() + 1 + g.below(c.size()), arg());
        else if(w == 1 && c.size() > 1) c.erase(c.begin() + 1 + g.below(c.size() - 1));
        else if(w == 2 && c.size() > 1) c[1 + g.below(c.size() - 1)] = arg();
        else if(c.size() > 2) std::swap(c[1], c.back());
      }
      return c;
    }
    if(g.chance(8)) return {g.pick(Cmd{"TX_READONLY", "TX_READWRITE", "MULTIOP_READ", "MULTIOP_READWRITE", "tx_readwrite"}), tx(), g.pick(Cmd{"real", "phantom", "x"})};
    if(g.chance(10)) {
      switch(g.below(8)) {
        case 0: return {"SCAN", g.chance(50) ? "0" : "next:" + g.bytes(20), "COUNT", number(), "MATCH", pattern()};
        case 1: return {g.pick(Cmd{"HSCAN", "SSCAN", "LHSCAN", "DEQUE_SCAN_BACK"}), gen.key(), g.chance(50) ? "0" : "next:" + blob(), "COUNT", number(), g.pick(Cmd{"MATCHLOC", "MATCH"}), pattern()};
        case 2: return {"KEYS", pattern()};
        case 3: return {"RAFT_JOURNAL_SCAN", g.chance(50) ? number() : "next:" + number(), "COUNT", g.chance(50) ? number() : "5", "MATCH", pattern()};
        case 4: return {g.pick(Cmd{"RAFT_FETCH", "RAFT_FETCH_LAST"}), number(), "raw"};
        case 5: return {"PSUBSCRIBE", pattern(), pattern()};
        case 6: return {"PUBLISH", arg(), arg()};
        default: return {g.pick(Cmd{"RAW_SCAN", "RAW_SCAN_TOMBSTONES", "RAW_GET_ALL_VERSIONS"}), arg(), "COUNT", number()};
      }
    }
    return anything();
  }
  // what must not be sent, since it is meant to do harm, or is for those who run the cluster
  void tame(Cmd &c) {
    if(c.empty()) { c = {"PING"}; return; }
    std::string n = lower(c[0]);
    auto is = [&](std::initializer_list<const char*> l) { for(auto s : l) if(n == s) return true; return false; };
    if(n == "debug" && c.size() == 2) { std::string a = c[1]; for(auto &ch : a) ch = tolower(ch); if(a == "segfault" || a == "kill" || a == "terminate") c[1] = "x"; }
    if(is({"artificially_slow_write_never_use_this"})) c = {"GET", "slow"};
    if(is({"quarkdb_checkpoint", "raft_checkpoint"})) for(size_t i = 1; i < c.size(); i++) { std::string o = "cp-"; for(char ch : c[i].substr(0, 30)) o += ch == '/' || ch == '\0' ? 'x' : ch; c[i] = o; }
    if(is({"raft_observe_term"}) && c.size() == 2) c[1] = g.chance(50) ? "-5" : g.chance(50) ? "0" : "x" + c[1];
    if(is({"flushall"}) && c.size() == 1) c.push_back("x");
    if(is({"raft_attempt_coup"}) && role == "follower") c = {"PING"};
    if(is({"raft_handshake"}) && c.size() != 4) return;
    if(is({"monitor"})) c = {"PING"};           // monitoring connections are not answered any more
    if(is({"quarkdb_bulkload_finalize"}) && role == "bulkload" && c.size() == 1) c.push_back("x");
    if(is({"raft_add_observer", "raft_promote_observer"}) && c.size() == 2 && role == "leader" && g.chance(90)) c[1] = "nobody";
    // once stored these would be the same commands
    for(size_t i = 0; i < c.size(); i++) if(lower(c[i]) == "flushall" || lower(c[i]) == "artificially_slow_write_never_use_this") c[i] = "x";
    if(is({"tx_readonly", "tx_readwrite", "multiop_read", "multiop_readwrite"}))
      for(size_t i = 1; i < c.size(); i++) {
        std::string l = lower(c[i]);
        if(l.find("flushall") != std::string::npos || l.find("artificially_slow") != std::string::npos) c[i] = "x";
        Transaction t;
        RedisRequest r = toReq(c);
        if(i == 1 && t.deserialize(r)) for(size_t k = 0; k < t.size(); k++) for(size_t x = 0; x < t[k].size(); x++) if(!t[k][x].empty() && t[k][x][t[k][x].size() - 1] == '|') { c[i] = "x"; break; }
      }
    // (K01: names ending in the escape character collide with others)
    for(auto &a : c) if(!a.empty() && a.back() == '|') a += "x";
  }
};

struct User {
  Client cl;
  int64_t serial = 0;
  bool over = false, slow = false, handshake = false, subscribed = false;
  explicit User(Dispatcher *d, const std::string &host = "client.example") : cl(d, host) {}
  std::vector<resp::Val> call(const std::vector<Cmd> &cs, size_t chunk = 0) {
    std::string tok = "token-" + std::to_string(++serial), o;
    for(auto &c : cs) o += wire(c);
    o += wire({"DISCARD"});
    o += wire({"PING", tok});
    if(!chunk) cl.wire.arrive(o);
    else for(size_t p = 0; p < o.size(); p += chunk) cl.wire.arrive(o.substr(p, chunk));
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
    while(true) {
      cl.step();
      if(!cl.got.empty() && cl.got.back() == resp::str(tok)) break;
      // a monitored or subscribed connection may hear more after the token
      bool seen = false;
      for(auto &v : cl.got) seen |= v == resp::str(tok);
      if(seen) break;
      if(cl.dead || cl.malformed) { over = true; break; }
      if(std::chrono::steady_clock::now() > end) { over = slow = true; break; }
      usleep(50);
    }
    std::vector<resp::Val> r(cl.got.begin(), cl.got.end());
    cl.got.clear();
    return r;
  }
};

// The key a well-behaved client keeps
struct Victim {
  User u;
  std::map<std::string, std::string> str, hash;
  std::deque<std::string> deq;
  std::string prefix;
  Victim(Dispatcher *d, const std::string &p) : u(d), prefix(p) {}
  resp::Val ask(const Cmd &c) {
    auto r = u.call({c});
    if(r.size() != 3) { VF_FAIL("victim:count", "the well-behaved client received" << showAll(r) << " to " << showCs({c})); return {}; }
    return r[0];
  }
  bool away(const resp::Val &v) { return v.type == '-' && (v.s.find("unavailable") != std::string::npos || v.s.compare(0, 5, "MOVED") == 0); }
  void act(Rng &g, bool mayBeAway) {
    std::string k = prefix + std::to_string(g.below(6)), v = g.bytes(50);
    if(v.empty()) v = "v";
    auto put = [&](const Cmd &c, std::function<void(const resp::Val&)> fn) {
      resp::Val r;
      auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
      do { r = ask(c); if(ctx().failed()) return; } while(mayBeAway && away(r) && std::chrono::steady_clock::now() < end && (usleep(20000), beat++, true));
      fn(r);
    };
    auto must = [&](const resp::Val &got, const resp::Val &want, const std::string &c) { if(!(got == want)) VF_FAIL("victim:" + c, "the well-behaved client received " << resp::show(got) << " instead of " << resp::show(want) << " to " << c); };
    switch(g.below(5)) {
      case 0: put({"SET", k + "s", v}, [&](const resp::Val &r) { must(r, resp::status("OK"), "SET"); str[k + "s"] = v; }); break;
      case 1: put({"HSET", prefix + "h", k, v}, [&](const resp::Val &r) { must(r, resp::num(!hash.count(k)), "HSET"); hash[k] = v; }); break;
      case 2: put({"DEQUE_PUSH_BACK", prefix + "d", v}, [&](const resp::Val &r) { deq.push_back(v); must(r, resp::num(deq.size()), "DEQUE_PUSH_BACK"); }); break;
      case 3: put({"DEQUE_POP_FRONT", prefix + "d"}, [&](const resp::Val &r) { must(r, deq.empty() ? resp::nil() : resp::str(deq.front()), "DEQUE_POP_FRONT"); if(!deq.empty()) deq.pop_front(); }); break;
      default: put({"HGET", prefix + "h", k}, [&](const resp::Val &r) { must(r, hash.count(k) ? resp::str(hash[k]) : resp::nil(), "HGET"); }); break;
    }
    if(g.chance(20)) put({"GET", k + "s"}, [&](const resp::Val &r) { must(r, str.count(k + "s") ? resp::str(str[k + "s"]) : resp::nil(), "GET"); });
    ctx().count("steps of the well-behaved client");
  }
  void final(StateMachine &sm) {
    Publisher pub;
    RedisDispatcher d(sm, pub);
    auto get = [&](const Cmd &c) { RedisRequest r = toReq(c); resp::Val v; resp::one(d.dispatch(r, 0).val, v); return v; };
    for(auto &p : str) if(!(get({"GET", p.first}) == resp::str(p.second))) VF_FAIL("victim:lost", "after reopening, " << p.first << " is " << resp::show(get({"GET", p.first})) << ", was " << esc(p.second));
    for(auto &p : hash) if(!(get({"HGET", prefix + "h", p.first}) == resp::str(p.second))) VF_FAIL("victim:lost", "after reopening, field " << p.first << " is " << resp::show(get({"HGET", prefix + "h", p.first})));
    if(!(get({"DEQUE_LEN", prefix + "d"}) == resp::num(deq.size()))) VF_FAIL("victim:lost", "after reopening, the deque has " << resp::show(get({"DEQUE_LEN", prefix + "d"})) << " elements instead of " << deq.size());
  }
};

// Hears everything
struct Spy {
  User u;
  explicit Spy(Dispatcher *d) : u(d) { u.cl.ask({"MONITOR"}); }
  void check() {
    u.cl.collect();
    if(u.cl.malformed) VF_FAIL("monitor:malformed", "what a monitoring client receives is no valid sequence of replies: " << esc(u.cl.rx, 300));
    for(auto &v : u.cl.got) if(v.type != '+') VF_FAIL("monitor:type", "a monitoring client received " << resp::show(v).substr(0, 300));
    ctx().count("lines monitored", u.cl.got.size());
    u.cl.got.clear();
  }
};

static void judge(Hostile &h, User &u, const std::vector<Cmd> &cs, const std::vector<resp::Val> &rep) {
  if(u.cl.malformed) { VF_FAIL("malformed", "malformed replies" << showAll(rep).substr(0, 500) << " then " << esc(u.cl.rx, 200) << " to" << showCs(cs)); return; }
  if(u.slow) { VF_FAIL("unanswered", "no answer within a minute" << showAll(rep).substr(0, 500) << " to" << showCs(cs)); return; }
  bool empty = false, sub = false, tx = false;
  for(auto &c : cs) { for(auto &a : c) empty |= a.empty(); std::string n = lower(c[0]); tx |= n.compare(0, 3, "tx_") == 0 || n.compare(0, 8, "multiop_") == 0; sub |= n.find("subscribe") != std::string::npos || n == "monitor"; }
  if(sub) u.subscribed = true;
  if(u.over) { if(!empty) VF_FAIL("dropped", "the connection was ended without a reason, replies" << showAll(rep).substr(0, 500) << " to" << showCs(cs)); ctx().count("connections ended by an empty argument"); return; }
  if(!u.subscribed && (tx ? rep.size() < cs.size() + 2 : rep.size() != cs.size() + 2)) VF_FAIL("replies", rep.size() << " replies to " << cs.size() + 2 << " requests:" << showAll(rep).substr(0, 800) << " to" << showCs(cs));
  if(!rep.empty()) ctx().eval(SSTR(h.role << lower(cs[0][0]) << cs[0].size() << rep[0].type << rep[0].s.substr(0, 12)));
}

static std::vector<Cmd> batch(Hostile &h) {
  std::vector<Cmd> cs;
  Rng &g = h.g;
  size_t n = g.chance(60) ? 1 : 1 + g.below(8);
  bool multi = g.chance(25), empties = g.chance(3);
  if(multi) cs.push_back({"MULTI"});
  for(; n > 0; n--) { Cmd c = h.one(); h.tame(c); if(!empties) for(auto &a : c) if(a.empty()) a = "e"; cs.push_back(c); }
  if(multi && g.chance(80)) cs.push_back({"EXEC"});
  if(g.chance(3)) cs.push_back({g.pick(Cmd{"MULTI", "EXEC", "DISCARD"})});
  return cs;
}

// garbage, or half a request, then nothing more
static void vandal(Rng &g, Dispatcher *d, Hostile &h) {
  Client c(d);
  std::string o;
  for(size_t k = g.below(3); k > 0; k--) { Cmd q = h.one(); h.tame(q); o += wire(q); }
  if(g.chance(15)) o += wire({"MONITOR"});
  int w = g.below(5);
  if(w == 0) o += g.bytes(100);
  else if(w == 1) o += "*" + h.number() + "\r\n";
  else if(w == 2) o += "*2\r\n$" + h.number() + "\r\n" + g.bytes(20);
  else if(w == 3) { Cmd q = h.one(); h.tame(q); std::string s = wire(q); o += s.substr(0, g.below(s.size())); }
  else { Cmd q = h.one(); h.tame(q); std::string s = wire(q); for(int k = 0; k < 3; k++) s[g.below(std::min<size_t>(s.size(), 12))] = g.pick(std::vector<char>{'*', '$', '\r', '\n', '-', '0', '9', 'x', '\0'});
    if(lower(s).find("flushall") == std::string::npos && lower(s).find("debug") == std::string::npos) o += s; }
  // nothing may turn into another command by accident
  doing("garbage " + esc(o, 2000));
  size_t step = 1 + g.below(o.size() + 1);
  for(size_t p = 0; p < o.size(); p += step) { c.wire.arrive(o.substr(p, step)); if(!c.step()) break; }
  if(c.malformed) VF_FAIL("malformed", "malformed replies " << esc(c.rx, 200) << " to " << esc(o, 800));
  ctx().count("broken requests");
}

static void whole(const std::string &role) {
  bool raft = role == "leader";
  Rng g(ctx().seed);
  std::string base = freshDir("vf-node"), dir = base + "/n", cwd = base + "/cwd";
  mkdir(cwd.c_str(), 0755);
  if(chdir(cwd.c_str()) != 0) _exit(2);
  {
    Status s;
    ShardDirectory *sd = raft ? ShardDirectory::create(dir, "cid", "default", {RaftServer("127.0.0.1", 7777)}, 0, FsyncPolicy::kAsync, nullptr, s) : ShardDirectory::create(dir, "cid", "default", nullptr, s);
    delete sd;
    if(!s.ok()) _exit(2);
  }
  auto open = [&](const std::string &mode) {
    Configuration cfg;
    if(!Configuration::fromString(SSTR("redis.mode " << mode << (raft ? "\nredis.myself 127.0.0.1:7777" : "") << "\nredis.database " << dir << "\n"), cfg)) _exit(2);
    return std::unique_ptr<QuarkDBNode>(new QuarkDBNode(cfg, RaftTimeouts(std::chrono::milliseconds(40), std::chrono::milliseconds(60), std::chrono::milliseconds(10))));
  };
  if(role == "bulkload") removeTree(dir + "/current/state-machine");
  auto node = open(raft ? "raft" : role);
  std::map<std::string, std::string> before;
  std::vector<std::unique_ptr<Victim>> victims;
  {
    Victim &v = *(victims.emplace_back(new Victim(node.get(), "victim")));
    if(raft && !eventually([&] { auto w = v.u.call({{"SET", "first", "v"}}); return w.size() == 3 && w[0].type == '+'; }, 30000)) { VF_FAIL("leader:start", "a single node never became a leader"); return; }
    Spy spy(node.get());
    size_t crowd = g.chance(40) ? 3 : 1;
    int64_t n = ctx().n(role == "bulkload" ? 6000 : 5000) / crowd;
    auto attack = [&](uint64_t seed, bool main) {
      Rng r(seed);
      Hostile h(r, role);
      std::unique_ptr<User> u;
      for(int64_t i = 0; i < n && !ctx().failed(); i++) {
        if(!u || u->over || r.chance(3)) {
          u.reset();
          u.reset(new User(node.get(), r.chance(5) ? "localhost" : "evil.example"));
          if(raft && r.chance(30)) { auto a = u->call({{"RAFT_HANDSHAKE", "x", "cid", "40:60:10"}}); u->handshake = a.size() == 3 && a[0].type == '+'; }
        }
        if(r.chance(4)) { vandal(r, node.get(), h); continue; }
        std::vector<Cmd> cs = batch(h);
        if(u->handshake) for(auto &c : cs) { std::string nm = lower(c[0]); if(nm.find("resilver") != std::string::npos) c = {"PING"}; if(nm.compare(0, 5, "raft_") == 0) for(size_t k = 1; k < c.size(); k++) if(c[k].find("127.0.0.1:7777") != std::string::npos) c[k] = "x"; }
        doing(showCs(cs));
        judge(h, *u, cs, u->call(cs, r.chance(15) ? 1 + r.below(300) : 0));
        ctx().count("hostile batches");
        ctx().count("hostile requests", cs.size());
        if(main && i % 3 == 0 && role != "bulkload") v.act(r, raft);
        if(main && role == "bulkload" && i % 3 == 0) { std::string k = "victim" + std::to_string(r.below(50)), x = "v" + std::to_string(i); auto a = v.ask({"SET", k, x}); if(!(a == resp::status("OK"))) VF_FAIL("victim:bulk", "SET was answered with " << resp::show(a)); v.str[k] = x; }
        if(main) spy.check();
        if(main && i < 3) ctx().sample(showCs(cs));
      }
    };
    std::vector<std::thread> ts;
    for(size_t k = 1; k < crowd; k++) ts.emplace_back(attack, ctx().seed * 100 + k, false);
    attack(ctx().seed * 100, true);
    for(auto &t : ts) t.join();
    spy.check();
    if(role == "bulkload") { doing("finalize"); auto r = v.u.call({{"QUARKDB_BULKLOAD_FINALIZE"}}); if(r.size() != 3 || r[0].type != '+') VF_FAIL("bulk:finalize", showAll(r)); }
    else {
      auto r = v.u.call({{"RAW_SCAN", std::string(1, '\0'), "COUNT", "1000000"}});
      if(!r.empty()) for(size_t i = 0; i + 1 < r[0].kids.size(); i += 2) before[r[0].kids[i].s] = r[0].kids[i+1].s;
    }
    v.u.cl.hangup();
  }
  doing("closing");
  node.reset();
  if(ctx().failed()) return;
  doing("reopening");
  if(raft) {
    // the log leads to the same data
    std::map<std::string, std::string> replayed, kept;
    StateMachine fresh(base + "/fresh");
    {
      RaftJournal j(dir + "/current/raft-journal");
      StateMachine sm(dir + "/current/state-machine");
      auto dumpOf = [](StateMachine &s) { std::map<std::string, std::string> o; auto it = s.getRawIterator(); for(it->SeekToFirst(); it->Valid(); it->Next()) o[it->key().ToString()] = it->value().ToString(); return o; };
      kept = dumpOf(sm);
      Publisher pub;
      RedisDispatcher d(fresh, pub);
      for(LogIndex i = 1; i <= sm.getLastApplied(); i++) {
        RaftEntry e;
        if(!j.fetch(i, e).ok()) { VF_FAIL("journal:hole", "entry " << i << " cannot be read"); break; }
        doing(SSTR("replaying entry " << i << " " << e.request));
        std::string err;
        if(throws([&] { d.dispatch(e.request, i); }, &err)) { VF_FAIL("replay:throws", "replaying entry " << i << ": " << err << " " << e.request); return; }
        ctx().count("entries replayed");
      }
      replayed = dumpOf(fresh);
      victims[0]->final(sm);
    }
    if(replayed != kept) VF_FAIL("replay:differs", "replaying the journal gives " << replayed.size() << " records instead of " << kept.size());
    for(auto &p : before) if(p.first[0] != '_' && (!kept.count(p.first) || kept[p.first] != p.second)) { VF_FAIL("reopen:differs", "record '" << esc(p.first, 80) << "' changed by reopening"); break; }
  }
  else if(role == "standalone") {
    StateMachine sm(dir + "/current/state-machine");
    victims[0]->final(sm);
    for(auto &p : before) if(p.first[0] != '_') {
      std::string v;
      auto it = sm.getRawIterator();
      it->Seek(p.first);
      if(!it->Valid() || it->key().ToString() != p.first || it->value().ToString() != p.second) { VF_FAIL("reopen:differs", "record '" << esc(p.first, 80) << "' changed by reopening"); break; }
    }
  }
  else {
    StateMachine sm(dir + "/current/state-machine");
    victims[0]->final(sm);
  }
  auto again = open(raft ? "raft" : "standalone");
  User u(again.get());
  auto r = u.call({{"PING", "x"}});
  if(r.size() != 3) VF_FAIL("reopen:ping", showAll(r));
  u.cl.hangup();
  again.reset();
}

static void follower() {
  Rng g(ctx().seed);
  std::string base = freshDir("vf-node"), dir = base + "/n", cwd = base + "/cwd";
  mkdir(cwd.c_str(), 0755);
  if(chdir(cwd.c_str()) != 0) _exit(2);
  Status s;
  std::unique_ptr<ShardDirectory> sd(ShardDirectory::create(dir, "cid", "default", {RaftServer("127.0.0.1", 7777), RaftServer("leader.example.com", 1111), RaftServer("other.example.com", 2222)}, 0, FsyncPolicy::kAsync, nullptr, s));
  if(!s.ok()) _exit(2);
  Configuration cfg;
  if(!Configuration::fromString("redis.mode raft\nredis.myself 127.0.0.1:7777\nredis.database " + dir + "\n", cfg)) _exit(2);
  RaftTimeouts slow(std::chrono::milliseconds(600000), std::chrono::milliseconds(900000), std::chrono::milliseconds(1000));
  std::unique_ptr<QuarkDBNode> node(new QuarkDBNode(cfg, slow, sd.get()));
  {
    RaftJournal &j = *sd->getRaftJournal();
    StateMachine &sm = *sd->getStateMachine();
    User boss(node.get());
    auto handshake = [&](User &u) { auto a = u.call({{"RAFT_HANDSHAKE", "x", "cid", slow.toString()}}); u.handshake = a.size() == 3 && a[0].type == '+'; if(!u.handshake) VF_FAIL("follower:handshake", showAll(a)); };
    handshake(boss);
    std::string leader = "leader.example.com:1111";
    auto put = [](int64_t n) { return intToBinaryString(n); };
    auto beatIt = [&] { auto r = boss.call({{"RAFT_HEARTBEAT", "5", leader}}); if(r.size() != 3 || r[0].type != '*' || r[0].kids.size() < 2 || r[0].kids[1].s != "1") VF_FAIL("follower:heartbeat", "a heartbeat was answered with" << showAll(r)); };
    beatIt();
    Gen gen(g);
    auto feed = [&](int n) {
      int64_t prev = j.getLogSize() - 1;
      RaftTerm pt; j.fetch_or_die(prev, pt);
      Cmd q{"RAFT_APPEND_ENTRIES", leader, put(5) + put(prev) + put(pt) + put(prev + n) + put(n)};
      for(int k = 0; k < n; k++) { RaftEntry e; e.term = 5; Cmd c = gen.write(); for(auto &a : c) if(a.empty()) a = "e"; e.request = toReq(c); q.push_back(e.serialize()); }
      auto r = boss.call({q});
      if(r.size() != 3 || r[0].type != '*' || r[0].kids.size() < 3 || r[0].kids[2].s != "1") { VF_FAIL("follower:append", "an append of the leader was answered with" << showAll(r)); return; }
      if(!eventually([&] { return sm.getLastApplied() == prev + n; })) VF_FAIL("follower:apply", "committed entries are not applied");
      ctx().count("appends of the leader");
    };
    Spy spy(node.get());
    Hostile h(g, "follower");
    std::unique_ptr<User> u;
    auto lowTerm = [&] { return std::to_string(g.range(-3, 4)); };
    for(int64_t i = 0; i < ctx().n(6000) && !ctx().failed(); i++) {
      if(!u || u->over || g.chance(3)) { u.reset(); u.reset(new User(node.get(), "evil.example")); if(g.chance(50)) handshake(*u); if(g.chance(30)) u->call({{"ACTIVATE_STALE_READS"}}); }
      if(g.chance(3)) { vandal(g, node.get(), h); continue; }
      std::vector<Cmd> cs;
      if(u->handshake && g.chance(50)) {
        // requests of nodes, which are malformed or outdated
        Cmd c;
        switch(g.below(5)) {
          case 0: c = {"RAFT_HEARTBEAT", g.chance(50) ? lowTerm() : "x" + h.number(), g.chance(50) ? "other.example.com:2222" : h.arg()}; break;
          case 1: c = {g.pick(Cmd{"RAFT_REQUEST_VOTE", "RAFT_REQUEST_PRE_VOTE"}), lowTerm(), g.chance(70) ? "other.example.com:2222" : "stranger:" + h.number(), h.number(), h.number()}; break;
          case 2: {
            int64_t k = g.below(4);
            c = {"RAFT_APPEND_ENTRIES", g.chance(80) ? "other.example.com:2222" : h.arg(), put(g.range(-2, 4)) + put((int64_t) g.next() >> g.below(64)) + put(g.below(6)) + put((int64_t) g.next() >> g.below(64)) + put(g.chance(50) ? k : (int64_t) g.next() >> g.below(64))};
            for(; k > 0; k--) { RaftEntry e; e.term = g.below(5); e.request = toReq(h.gen.write()); std::string sr = e.serialize(); if(g.chance(40)) sr = g.chance(50) ? sr.substr(0, g.below(sr.size())) : h.blob(); c.push_back(sr); }
            break;
          }
          case 3: c = {"RAFT_APPEND_ENTRIES", leader, g.bytes(39)}; for(size_t k = g.below(3); k > 0; k--) c.push_back(h.blob()); if(c[2].size() > 39) c[2].resize(39); break;
          default: c = {g.pick(Cmd{"RAFT_HEARTBEAT", "RAFT_APPEND_ENTRIES", "RAFT_REQUEST_VOTE", "RAFT_REQUEST_PRE_VOTE"})}; for(size_t k = g.below(7); k > 0; k--) { std::string a = h.arg(); if(a.size() >= 40 || (!a.empty() && strtoll(a.c_str(), nullptr, 0) > 4)) a = "x"; c.push_back(a); } break;
        }
        for(auto &a : c) if(a.empty()) a = "e";
        cs = {c};
      }
      else cs = batch(h);
      if(u->handshake) for(auto &c : cs) {
        std::string nm = lower(c[0]);
        if(nm.find("resilver") != std::string::npos) c = {"PING"};
        for(auto &a : c) if(a.find("127.0.0.1:7777") != std::string::npos) a = "x:1";
      }
      int64_t size0 = j.getLogSize(), commit0 = j.getCommitIndex(), applied0 = sm.getLastApplied();
      doing(showCs(cs));
      judge(h, *u, cs, u->call(cs, g.chance(15) ? 1 + g.below(300) : 0));
      if(j.getLogSize() != size0 || j.getCommitIndex() != commit0 || sm.getLastApplied() != applied0) VF_FAIL("follower:journal", "the journal was changed by" << showCs(cs));
      if(j.getCurrentTerm() != 5) VF_FAIL("follower:term", "the term is " << j.getCurrentTerm() << " after" << showCs(cs));
      ctx().count("hostile batches");
      if(i % 10 == 0) { beatIt(); feed(1 + g.below(3)); }
      spy.check();
      if(i < 3) ctx().sample(showCs(cs));
    }
    boss.cl.hangup();
  }
  doing("closing");
  node.reset();
  sd.reset();
}

// patterns and subjects far longer than anybody would use
static void globs() {
  Rng g(ctx().seed);
  std::string base = freshDir("vf-node"), dir = base + "/n";
  Standalone s(dir);
  std::unique_ptr<User> u(new User(s.node.get()));
  for(int64_t i = 0; i < ctx().n(10) && !ctx().failed(); i++) {
    size_t n = 1000 + g.below(i < 3 ? 20000 : 700000);
    int kind = g.below(4);
    std::string p, subj(n, 'a');
    const char *unit = kind == 0 ? "*a" : kind == 1 ? "*?" : kind == 2 ? "*[a-c]" : "*\\a";
    size_t k = g.chance(50) ? n : 1 + g.below(n);
    for(size_t x = 0; x < k; x++) p += unit;
    bool want = true;
    int w = g.below(3);
    if(w == 1) p += "*";
    if(w == 2 && kind != 1) { p += "*b"; want = false; }
    if(w == 2 && kind == 1) { p += "b"; want = false; }
    if(!want && n > 20000) { n = 20000; subj.resize(n); p = p.substr(0, strlen(unit) * 10000) + (kind == 1 ? "b" : "*b"); }
    doing(SSTR("a pattern of " << p.size() << " bytes, " << esc(p, 40) << ", on a subject of " << n << " bytes, way " << i % 4));
    auto one = [&](const std::vector<Cmd> &cs) { auto r = u->call(cs); if(u->over || u->cl.malformed) VF_FAIL("glob:reply", "no answer" << showAll(r).substr(0, 300)); return r; };
    one({{"SET", subj, "v"}});
    bool got = false;
    switch(i % 4) {
      case 0: { auto r = one({{"KEYS", p}}); got = r.size() == 3 && r[0].kids.size() == 1; break; }
      case 1: { auto r = one({{"SCAN", "0", "COUNT", "100000", "MATCH", p}}); got = r.size() == 3 && r[0].kids.size() == 2 && r[0].kids[1].kids.size() == 1; break; }
      case 2: { one({{"LHSET", "lh", "f", subj, "v"}}); auto r = one({{"LHSCAN", "lh", "0", "MATCHLOC", p}}); got = r.size() == 3 && r[0].kids.size() == 2 && !r[0].kids[1].kids.empty(); one({{"DEL", "lh"}}); break; }
      default: { one({{"PSUBSCRIBE", p}}); auto r = one({{"PUBLISH", subj, "m"}}); got = false; for(auto &v : r) got |= v.type == ':' && v.i == 1; u.reset(); u.reset(new User(s.node.get())); break; }
    }
    if(got != want && !ctx().failed()) VF_FAIL("glob:wrong", "matched " << got << ", expected " << want << ": " << what);
    one({{"DEL", subj}});
    ctx().count("long patterns");
    ctx().eval(SSTR(i % 4 << kind << w << n));
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  watchdog();
  std::string m = ctx().arg("mode", "standalone");
  if(m == "follower") follower();
  else if(m == "globs") globs();
  else whole(m);
  return ctx().finish();
}
