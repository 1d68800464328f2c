// C06: leases: one holder, exact expiration, the index of expirations, the replicated clock.
#include "sm_model.hh"
#include "storage/ExpirationEventCache.hh"
#include "redis/LeaseFilter.hh"
using namespace vf;
using namespace quarkdb;
using namespace smm;

static void cache(int n) {
  for(int it = 0; it < n && ctx().violations.size() < 4; it++) {
    Rng g(ctx().seed * 733 + it);
    ExpirationEventCache c;
    std::map<std::string, uint64_t> m;
    std::string shape, trace;
    int ops = 1 + g.below(60);
    uint64_t span = g.chance(50) ? 4 : g.chance(50) ? 50 : UINT64_MAX;
    for(int i = 0; i < ops && !ctx().failed(); i++) {
      std::string name = g.chance(85) ? "l" + std::to_string(g.below(8)) : g.bytes(5);
      uint64_t cl = g.below(span);
      int k = g.below(10);
      trace += " " + std::to_string(k) + ":" + std::to_string(cl) + "'" + esc(name) + "'";
      ctx().current(trace);
      if(k < 5) {
        bool th = throws([&] { c.insert(cl, name); });
        VF_CHECK(th == (m.count(name) == 1), "lease:cache", "inserting a lease " << (m.count(name) ? "twice is accepted" : "is refused") << ":" << trace);
        if(!m.count(name)) m[name] = cl;
        shape += th ? "I" : "i";
      }
      else if(k < 8) {
        bool have = m.count(name);
        uint64_t at = have && g.chance(80) ? m[name] : cl;
        bool right = have && m[name] == at;
        bool th = throws([&] { c.remove(at, name); });
        VF_CHECK(th == !right, "lease:cache", "removing " << at << " '" << esc(name) << "' " << (th ? "is refused" : "is accepted") << ":" << trace);
        if(right) m.erase(name);
        shape += th ? "R" : "r";
      }
      else if(k == 8 && !m.empty()) {
        std::string l = c.getFrontLease();
        c.pop_front();
        VF_CHECK(m.erase(l) == 1, "lease:cache", "'" << esc(l) << "' is not there any more:" << trace);
        shape += "p";
      }
      else if(k == 9 && g.chance(10)) { c.clear(); m.clear(); shape += "c"; }
      uint64_t best = UINT64_MAX;
      for(auto &x : m) best = std::min(best, x.second);
      VF_CHECK(c.size() == m.size() && c.empty() == m.empty(), "lease:cache", "holds " << c.size() << " events instead of " << m.size() << ":" << trace);
      if(!m.empty() && !ctx().failed()) {
        std::string l = c.getFrontLease();
        VF_CHECK(c.getFrontDeadline() == best && m.count(l) && m[l] == best, "lease:cache", "the front is " << c.getFrontDeadline() << " '" << esc(l) << "', the earliest is " << best << ":" << trace);
      }
    }
    // drained in order
    uint64_t last = 0;
    size_t k = 0, total = m.size();
    while(!c.empty() && k <= total) { uint64_t d = c.getFrontDeadline(); std::string l = c.getFrontLease(); VF_CHECK(d >= last && m.count(l) && m[l] == d, "lease:cache", "drained out of order:" << trace); last = d; c.pop_front(); k++; }
    VF_CHECK(k == total, "lease:cache", "drains " << k << " of " << total << " events:" << trace);
    ctx().eval("c" + shape);
    ctx().count("cache_operations", ops);
  }
}

static void filter() {
  Rng g(ctx().seed + 3);
  Gen gen(g);
  for(int it = 0; it < 400; it++) {
    Transaction tx;
    std::vector<Cmd> cs;
    uint64_t ts = g.chance(30) ? g.next() : 1 + g.below(1u << 30);
    for(size_t i = 1 + g.below(5); i > 0; i--) {
      Cmd c;
      int k = g.below(5);
      if(k == 0) c = {"LEASE-ACQUIRE", "k", "h", "10"};
      else if(k == 1) c = {"lease_get", "k"};
      else if(k == 2) c = {"Lease_Release", g.bytes(5)};
      else c = g.chance(50) ? gen.write() : gen.read();
      if(k < 3 && g.chance(20)) c.push_back("extra");
      cs.push_back(c);
      tx.push_back(toReq(c));
    }
    LeaseFilter::transform(tx, ts);
    for(size_t i = 0; i < cs.size(); i++) {
      Cmd want = cs[i];
      std::string n = Model::lower(want[0]);
      for(char &ch : n) if(ch == '-') ch = '_';
      RedisCommand cmd = toReq(want).getCommand();
      if(n == "lease_acquire" || n == "lease_get" || n == "lease_release") {
        want.push_back(be64(ts));
        cmd = n == "lease_get" ? RedisCommand::TIMESTAMPED_LEASE_GET : n == "lease_acquire" ? RedisCommand::TIMESTAMPED_LEASE_ACQUIRE : RedisCommand::TIMESTAMPED_LEASE_RELEASE;
        want[0].clear();
        ctx().count("requests_timestamped");
      }
      bool ok = tx[i].size() == want.size() && tx[i].getCommand() == cmd;
      for(size_t j = 0; ok && j < want.size(); j++) {
        std::string_view a(tx[i][j].data(), tx[i][j].size());
        if(j == 0 && want[0].empty()) { RedisRequest r = toReq({std::string(a)}); ok = r.getCommand() == cmd; }
        else ok = a == want[j];
      }
      VF_CHECK(ok, "lease:filter", vf::show(cs[i]) << " at clock " << ts << " becomes " << vf::show(tx[i]));
    }
    ctx().eval("filter" + std::to_string(cs.size()) + (ts > (1ull << 31) ? "h" : "l"));
  }
}

static bool run(uint64_t seed, int len) {
  Rng g(seed);
  Publisher pub;
  Sut sut(freshDir("ls") + "/db", &pub);
  Model m;
  std::vector<Cmd> hist;
  std::string shape;
  bool indexed = g.chance(70);
  int64_t index = 0;
  uint64_t now = g.chance(20) ? 0 : 1000 + g.below(1000);
  if(g.chance(10)) now += 1ull << 40;
  std::vector<std::string> keys = {"a", "b", "l", "l2", "", std::string("a\0", 2), "\xff\xff", "a#b"};
  keys.resize(2 + g.below(keys.size() - 1));
  std::vector<std::string> holders = {"me", "you", std::string("m\0e", 3), "me2", "x\r\n+y"};
  auto bad = [&](const std::string &key, const std::string &msg) { VF_FAIL(key, msg << "\n  (clock " << m.clock << ") after" << smm::show(hist, 40)); return false; };
  // an instant worth trying: around deadlines
  auto instant = [&]() -> uint64_t {
    int k = g.below(10);
    std::vector<uint64_t> dl;
    for(auto &x : m.keys) if(x.second.type == LEASE) dl.push_back(x.second.deadline);
    if(k < 5 && !dl.empty()) { uint64_t d = g.pick(dl); int64_t off = g.range(-2, 1); if(d >= (1ull << 62)) return now; now = std::max(now, d + off); return g.chance(85) ? now : d + off; }
    if(k == 5) return now ? now - g.below(std::min<uint64_t>(now, 50) + 1) : 0;   // a clock behind
    if(k < 9) now += g.below(4);
    else now += g.below(200);
    return now;
  };
  auto gen = [&]() -> Cmd {
    int k = g.below(100);
    std::string key = g.pick(keys);
    if(k < 55) return {"TIMESTAMPED_LEASE_ACQUIRE", key, g.pick(holders), g.chance(93) ? std::to_string(1 + g.below(g.chance(60) ? 8 : 200)) : g.pick(std::vector<std::string>{"0", "-1", "x", "", "9223372036854775807", "99999999999999999999"}), be64(instant())};
    if(k < 70) return {"TIMESTAMPED_LEASE_GET", key, be64(instant())};
    if(k < 82) return {"TIMESTAMPED_LEASE_RELEASE", key, be64(instant())};
    if(k < 87) return {"DEL", key, g.pick(keys)};
    if(k < 90) return {"SET", key, "x"};
    if(k < 92) return {"FLUSHALL"};
    if(k < 95) return {"EXISTS", key};
    if(k < 97) return {"TYPE", key};
    return {"GET", key};
  };
  auto check = [&]() {
    std::string w = m.checkDump(sut.dump());
    if(!w.empty()) return bad("lease:state", w);
    ClockValue cl = 0;
    sut.sm->getClock(cl);
    if(cl != m.clock) return bad("lease:clock", "the replicated clock is " + std::to_string(cl) + ", not " + std::to_string(m.clock));
    RedisRequest q = toReq({"LEASE_GET_PENDING_EXPIRATION_EVENTS"});
    Val v;
    if(!resp::one(sut.disp->dispatch(q, 0).val, v) || v.type != '*' || v.kids.size() < 2) return bad("lease:pending", "replied " + resp::show(v));
    std::multimap<uint64_t, std::string> ev;
    for(auto &x : m.keys) if(x.second.type == LEASE) ev.emplace(x.second.deadline, x.first);
    std::vector<std::string> want{"STATIC-CLOCK: " + std::to_string(m.clock)};
    std::set<std::string> lines, got;
    for(auto &e : ev) lines.insert(std::to_string(e.first) + ": " + e.second);
    uint64_t prev = 0;
    bool ordered = true;
    for(size_t i = 2; i < v.kids.size(); i++) { got.insert(v.kids[i].s); uint64_t d = strtoull(v.kids[i].s.c_str(), nullptr, 10); if(d < prev) ordered = false; prev = d; }
    if(v.kids[0].s != want[0] || got != lines || v.kids.size() != lines.size() + 2 || !ordered) return bad("lease:pending", "pending expirations are " + resp::show(v) + " for " + std::to_string(ev.size()) + " leases at clock " + std::to_string(m.clock));
    ctx().count("pending_lists_compared");
    return true;
  };
  for(int step = 0; step < len; step++) {
    int n = g.chance(70) ? 1 : 2 + g.below(5);
    bool phantom = n == 1 ? g.chance(80) : g.chance(50);
    std::vector<Cmd> cs;
    bool wr = false;
    for(int i = 0; i < n; i++) { cs.push_back(gen()); wr |= isWrite(cs.back()); }
    if(n > 1) hist.push_back({phantom ? "(batch" : "(multi", std::to_string(n)});
    for(auto &c : cs) hist.push_back(c);
    ctx().current(smm::show(hist, 40));
    m.begin();
    uint64_t clockBefore = m.clock;
    std::vector<Val> want, got;
    for(auto &c : cs) want.push_back(m.apply(c));
    Transaction tx;
    for(auto &c : cs) tx.push_back(toReq(c));
    tx.setPhantom(phantom);
    std::string raw = sut.disp->dispatch(tx, wr && indexed ? ++index : 0).val;
    if(!resp::many(raw, got)) return bad("lease:malformed", "malformed reply '" + esc(raw) + "'");
    if(!phantom) { auto k = got[0].kids; got = k; }
    if(got.size() != want.size()) return bad("lease:reply", "number of replies");
    for(size_t i = 0; i < want.size(); i++) {
      shape += Model::lower(cs[i][0]).substr(0, 24) + (want[i].type == '+' ? want[i].s.substr(0, 1) : std::string(1, want[i].type));
      if(!agree(want[i], got[i])) return bad("lease:reply", vf::show(cs[i]) + " replied " + resp::show(got[i]) + ", expected " + resp::show(want[i]));
      if(cs[i][0] == "TIMESTAMPED_LEASE_ACQUIRE") ctx().count(want[i].type == '+' ? want[i].s : "refused_acquisitions");
    }
    if(m.clock < clockBefore) { fprintf(stderr, "VF-HARNESS-ERROR clock\n"); _exit(2); }
    if(!check()) return false;
    if(g.chance(4)) {
      hist.push_back({"(reopen)"});
      sut.reopen();
      if(sut.sm->getDynamicClock() < m.clock) return bad("lease:clock", "after reopening, the dynamic clock is below the replicated clock");
      if(!check()) return false;
      ctx().count("reopens");
      shape += "R";
    }
    if(g.chance(1)) {
      hist.push_back({"(reset)"});
      sut.sm->reset();
      m = Model();
      index = 0;
      now = std::min<uint64_t>(now, 2000);
      if(!check()) return false;
      ctx().count("resets");
      shape += "X";
    }
  }
  ctx().eval(shape);
  ctx().count("leases_expired", m.expired);
  ctx().count("leases_renewed", m.renewed);
  ctx().sample(smm::show(hist, 10));
  return true;
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "run");
  if(mode == "cache") { cache(ctx().n(4000, 20)); filter(); }
  else { int n = ctx().n(50, 20); for(int i = 0; i < n && !ctx().failed(); i++) run(ctx().seed * 2003 + i, 80); }
  return ctx().finish();
}
