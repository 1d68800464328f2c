// C03: serialization of transactions; isolation between concurrent clients.
#include "sm_model.hh"
#include "memory/RingAllocator.hh"
#include "memory/PinnedBuffer.hh"
using namespace vf;
using namespace quarkdb;
using namespace smm;

// a buffer of exactly these bytes: looking beyond them is caught by ASan
struct Exact {
  std::shared_ptr<MemoryRegion> region = MemoryRegion::Construct(8);
  char *p;
  size_t n;
  explicit Exact(const std::string &s) : p((char*) malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  PinnedBuffer buf() { return PinnedBuffer(region, p, n); }
};

static std::string bi(int64_t v) { return be64((uint64_t) v); }
// the documented layout, written independently
static std::string encode(const std::vector<Cmd> &cs) {
  std::string o = bi(cs.size());
  for(auto &c : cs) { o += bi(c.size()); for(auto &a : c) o += bi(a.size()) + a; }
  return o;
}
static bool decode(const std::string &s, std::vector<Cmd> &out) {
  size_t p = 0;
  auto num = [&](int64_t &v) { if(s.size() - p < 8) return false; v = (int64_t) ube64(std::string_view(s).substr(p)); p += 8; return true; };
  int64_t n;
  if(!num(n) || n < 0) return false;
  for(int64_t i = 0; i < n; i++) {
    int64_t k;
    if(!num(k) || k < 0) return false;
    Cmd c;
    for(int64_t j = 0; j < k; j++) { int64_t l; if(!num(l) || l < 0 || (uint64_t) l > s.size() - p) return false; c.push_back(s.substr(p, l)); p += l; }
    out.push_back(c);
  }
  return p == s.size();
}
static bool rw(const Cmd &c) { if(c.empty()) return false; RedisRequest r = toReq(c); return r.getCommandType() == CommandType::READ || r.getCommandType() == CommandType::WRITE; }

static std::string differs(const Transaction &t, const std::vector<Cmd> &cs) {
  if(t.size() != cs.size()) return "has " + std::to_string(t.size()) + " commands instead of " + std::to_string(cs.size());
  for(size_t i = 0; i < cs.size(); i++) {
    if(t[i].size() != cs[i].size()) return "command " + std::to_string(i) + " has " + std::to_string(t[i].size()) + " arguments instead of " + std::to_string(cs[i].size());
    for(size_t j = 0; j < cs[i].size(); j++)
      if(std::string_view(t[i][j].data(), t[i][j].size()) != cs[i][j]) return "argument " + std::to_string(j) + " of command " + std::to_string(i) + " is '" + esc(std::string_view(t[i][j].data(), t[i][j].size())) + "'";
    RedisRequest r = toReq(cs[i]);
    if(t[i].getCommand() != r.getCommand() || t[i].getCommandType() != r.getCommandType()) return "command " + std::to_string(i) + " is not recognised any more";
  }
  return "";
}

static std::vector<Cmd> randomTx(Rng &g, Gen &gen) {
  std::vector<Cmd> cs;
  size_t n = 1 + g.below(g.chance(10) ? 200 : 8);
  int reads = g.chance(30) ? 100 : g.below(100);
  for(size_t i = 0; i < n; i++) {
    Cmd c = g.chance(reads) ? gen.read() : gen.write();
    if(g.chance(30)) c.push_back(g.bytes(g.chance(10) ? 3000 : 30));
    if(g.chance(10)) { c = {"get"}; for(size_t k = g.below(20); k > 0; k--) c.push_back(g.bytes(6)); }
    if(g.chance(5)) c.push_back("");
    cs.push_back(c);
  }
  return cs;
}

static std::string rejectAll(const std::string &bytes, bool mustReject, const std::vector<Cmd> &original) {
  Exact x(bytes);
  Transaction t;
  bool ok = t.deserialize(x.buf());
  std::vector<Cmd> want;
  bool good = decode(bytes, want);
  if(good) for(auto &c : want) if(!rw(c)) good = false;
  if(ok != good) return std::string(ok ? "accepted" : "rejected");
  if(!ok) { if(t.size() || t.containsWrites()) return "rejected, but keeps something"; return ""; }
  (void) mustReject; (void) original;
  return differs(t, want);
}

static void roundtrips(int n) {
  Rng g(ctx().seed * 31 + 5);
  Gen gen(g);
  for(int it = 0; it < n && ctx().violations.size() < 5; it++) {
    std::vector<Cmd> cs = randomTx(g, gen);
    bool phantom = g.chance(50), wr = false;
    Transaction t;
    for(auto &c : cs) { wr |= isWrite(c); if(g.chance(50) || c.size() > 1) t.push_back(toReq(c)); else t.emplace_back(c[0]); }
    t.setPhantom(phantom);
    std::string label = smm::show(cs, 10);
    ctx().current(label);
    std::string bytes = t.serialize();
    VF_CHECK(t.containsWrites() == wr, "tx:writes", "containsWrites() is " << t.containsWrites() << " for " << label);
    VF_CHECK(t.expectedResponses() == (phantom ? (int64_t) cs.size() : 1), "tx:expected", "expectedResponses() " << t.expectedResponses() << (phantom ? " for a batch of " : " for a transaction of ") << cs.size());
    { Exact x(bytes); Transaction u; VF_CHECK(u.deserialize(x.buf()), "tx:roundtrip", "what was serialized is rejected: " << label);
      std::string d = differs(u, cs);
      VF_CHECK(d.empty(), "tx:roundtrip", "after a round trip it " << d << ": " << label);
      VF_CHECK(u.containsWrites() == wr && u == t && u.serialize() == bytes, "tx:roundtrip", "flags or text differ after a round trip: " << label); }
    // through one request
    RedisRequest q = t.toRedisRequest();
    if(phantom && cs.size() == 1) {
      bool same = q.size() == cs[0].size();
      for(size_t j = 0; same && j < q.size(); j++) same = std::string_view(q[j].data(), q[j].size()) == cs[0][j];
      VF_CHECK(same, "tx:single", "a batch of one command becomes " << vf::show(q) << ": " << label);
      Transaction u; VF_CHECK(!u.deserialize(q), "tx:single", "a plain command is taken for a transaction: " << label);
    }
    else {
      Transaction u, v;
      VF_CHECK(u.deserialize(q), "tx:request", "as a request, it is rejected: " << label);
      std::string d = differs(u, cs);
      VF_CHECK(d.empty(), "tx:request", "as a request, it " << d << ": " << label);
      VF_CHECK(u.isPhantom() == phantom && u.containsWrites() == wr, "tx:request", "as a request, its kind changes: " << label);
      v.fromRedisRequest(q);
      VF_CHECK(differs(v, cs).empty() && v.isPhantom() == phantom && v.containsWrites() == wr, "tx:request", "fromRedisRequest differs: " << label);
      VF_CHECK(q.getCommand() == (wr ? RedisCommand::TX_READWRITE : RedisCommand::TX_READONLY) && q.getCommandType() == (wr ? CommandType::WRITE : CommandType::READ), "tx:request-class", "travels as " << vf::show(q).substr(0, 30) << ": " << label);
      // wrong envelopes
      auto arg = [&](size_t i) { return std::string(q[i].data(), q[i].size()); };
      std::vector<Cmd> wrong = {{wr ? "TX_READONLY" : "TX_READWRITE", arg(1), arg(2)}, {arg(0), arg(1)}, {arg(0), arg(1), "bogus"}, {arg(0), arg(1), ""}, {arg(0), arg(1), arg(2), arg(2)},
        {arg(0), arg(1) + "x", arg(2)}, {arg(0), "", arg(2)}, {arg(0), bi(0), arg(2)}, {"SET", arg(1), arg(2)}, {"MULTI", arg(1), arg(2)}, {"nope", arg(1), arg(2)}, {arg(0), arg(1).substr(0, arg(1).size() - 1), arg(2)}};
      for(auto &w : wrong) {
        ctx().current("envelope " + vf::show(w));
        Transaction x;
        RedisRequest r = toReq(w);
        VF_CHECK(!x.deserialize(r) && x.empty(), "tx:envelope", "the request " << vf::show(w) << " is accepted as a transaction");
        ctx().count("wrong_envelopes");
      }
    }
    // damage
    VF_CHECK(bytes == encode(cs), "tx:layout", "unexpected layout of " << label);
    if(bytes != encode(cs)) continue;
    for(int k = 0; k < 40; k++) {
      std::string b = bytes;
      int what = g.below(6);
      if(what == 0) b.resize(g.below(b.size()));
      else if(what == 1) b += g.bytes(12);
      else if(what == 2) b[g.below(b.size())] ^= 1 << g.below(8);
      else if(what == 3 && b.size() >= 8) {
        // an integer field replaced
        size_t p = 0; std::vector<size_t> ints{0};
        p = 8; for(auto &c : cs) { ints.push_back(p); p += 8; for(auto &a : c) { ints.push_back(p); p += 8 + a.size(); } }
        static const std::vector<int64_t> evil = {0, 1, -1, -8, 7, 8, 9, INT64_MAX, INT64_MIN, 1ll << 32, (1ll << 32) + 1, 1ll << 61, -(1ll << 61), 0x7fffffff, 0x80000000ll, INT64_MAX - 7, 1ll << 60};
        b.replace(ints[g.below(ints.size())], 8, bi(g.chance(70) ? g.pick(evil) : (int64_t) g.below(b.size() + 4)));
      }
      else if(what == 4) { size_t a = g.below(b.size()), l = g.below(20); b.erase(a, l); }
      else { size_t a = g.below(b.size()); b.insert(a, g.bytes(9)); }
      ctx().current("damaged serialization '" + esc(b, 3000) + "'");
      std::string d = rejectAll(b, false, cs);
      VF_CHECK(d.empty(), "tx:malformed", "the serialization '" << esc(b, 800) << "' is " << d);
      ctx().count("damaged_serializations");
    }
    ctx().eval("tx" + std::to_string(vf::hash64(bytes)));
    if(it < 2) ctx().sample("serialized and damaged: " + label);
  }
  // not commands of a transaction
  for(auto c : std::vector<Cmd>{{"PING"}, {"MULTI"}, {"EXEC"}, {"RAFT_INFO"}, {"nope"}, {"AUTH", "x"}, {"TX_READWRITE", "x", "real"}, {"PUBLISH", "a", "b"}, {}, {""}}) {
    if(!c.empty() && rw(c)) continue;
    std::string b = encode({{"SET", "a", "b"}, c});
    ctx().current("not a command '" + esc(b) + "'");
    Exact x(b);
    Transaction t;
    VF_CHECK(!t.deserialize(x.buf()), "tx:malformed", "accepted with " << vf::show(c) << " in it");
    Exact y(encode({c}));
    Transaction u;
    VF_CHECK(!u.deserialize(y.buf()), "tx:malformed", "accepted with only " << vf::show(c) << " in it");
    ctx().eval("notcmd" + vf::show(c));
  }
}

// -------------------------------------------------------------------- isolation
static Val one(Sut &s, const Cmd &c) {
  RedisRequest q = toReq(c);
  Val v;
  if(!resp::one(s.disp->dispatch(q, 0).val, v)) VF_FAIL("iso:malformed", "malformed reply");
  return v;
}
static std::vector<Val> tx(Sut &s, const std::vector<Cmd> &cs, bool phantom, int64_t index) {
  Transaction t;
  for(auto &c : cs) t.push_back(toReq(c));
  t.setPhantom(phantom);
  std::vector<Val> out;
  std::string raw = s.disp->dispatch(t, index).val;
  if(!resp::many(raw, out)) VF_FAIL("iso:malformed", "malformed reply '" << esc(raw) << "'");
  if(!phantom) { auto k = out.empty() ? std::vector<Val>() : out[0].kids; out = k; }
  return out;
}

// which generation does a reply show? -1: nothing there; -2: mixed
static int64_t gen1(const Val &v) {
  if(v.type == '-') return -3;
  if(v.type == '$') return v.nil ? -1 : strtoll(v.s.c_str(), nullptr, 10);
  return -1;
}
static int64_t all(const std::vector<std::string> &xs, size_t n) {
  if(xs.empty()) return -1;
  if(xs.size() != n) return -2;
  for(auto &x : xs) if(x != xs[0]) return -2;
  return strtoll(xs[0].c_str(), nullptr, 10);
}
static std::vector<std::string> texts(const Val &v) { std::vector<std::string> o; for(auto &k : v.kids) o.push_back(k.s); return o; }

static void isolation(int seconds_ms) {
  Publisher pub;
  Sut s(freshDir("iso") + "/db", &pub);
  bool indexed = ctx().seed % 2;
  std::atomic<bool> stop {false};
  std::atomic<int64_t> committed {0};
  const int F = 12;
  std::atomic<uint64_t> seenGen {0}, seenEmpty {0};
  std::thread writer([&] {
    Rng g(ctx().seed + 7);
    int64_t idx = 0;
    for(int64_t i = 1; !stop; i++) {
      std::string v = std::to_string(i);
      std::vector<Cmd> cs;
      bool wipe = i % 7 == 0;
      if(wipe) {
        if(i % 2) cs = {{"DEL", "s", "h", "set", "dq", "lh"}, {"DEL", "vh"}};
        else { cs.push_back({"FLUSHALL"}); }
      }
      else {
        cs.push_back({"SET", "s", v});
        for(int f = 0; f < F; f++) cs.push_back({"HSET", "h", "f" + std::to_string(f), v});
        cs.push_back({"DEL", "set", "dq"});
        cs.push_back({"SADD", "set", v});
        for(int f = 0; f < 3; f++) cs.push_back({f % 2 ? "DEQUE_PUSH_FRONT" : "DEQUE_PUSH_BACK", "dq", v});
        Cmd m{"LHMSET", "lh"};
        for(int f = 0; f < F; f++) { m.push_back("f" + std::to_string(f)); m.push_back(g.chance(50) ? "x" : "y"); m.push_back(v); }
        cs.push_back(m);
        for(int f = 0; f < F; f++) cs.push_back({"VHSET", "vh", "f" + std::to_string(f), v});
        for(size_t a = cs.size(); a > 1; a--) { size_t b = g.below(a); if(cs[a-1][0] != "DEL" && cs[b][0] != "DEL" && cs[a-1][1] != "set" && cs[b][1] != "set" && cs[a-1][1] != "dq" && cs[b][1] != "dq") std::swap(cs[a-1], cs[b]); }
        // reads of the block itself
        cs.push_back({"GET", "s"}); cs.push_back({"HVALS", "h"}); cs.push_back({"DEQUE_LEN", "dq"}); cs.push_back({"LHLEN", "lh"}); cs.push_back({"SMEMBERS", "set"});
      }
      auto r = tx(s, cs, g.chance(30), indexed ? ++idx : 0);
      if(r.size() != cs.size()) { VF_FAIL("iso:replies", cs.size() << " commands, " << r.size() << " replies"); return; }
      if(!wipe) {
        size_t n = r.size();
        if(r[n-5].s != v || all(texts(r[n-4]), F) != i || r[n-3].i != 3 || r[n-2].i != F || texts(r[n-1]) != std::vector<std::string>{v})
          VF_FAIL("iso:own-writes", "a block does not read its own writes of generation " << i << ": " << resp::show(r[n-5]) << resp::show(r[n-4]) << resp::show(r[n-3]) << resp::show(r[n-2]) << resp::show(r[n-1]));
      }
      committed = i;
      if(g.chance(20)) usleep(g.below(300));
    }
  });
  std::vector<std::thread> readers;
  for(int t = 0; t < 3; t++) readers.emplace_back([&, t] {
    Rng g(ctx().seed * 11 + t);
    int64_t last = 0;
    while(!stop && !ctx().failed()) {
      int64_t lo = committed;
      std::vector<Cmd> cs;
      std::vector<int> kind;
      int n = 2 + g.below(6);
      for(int i = 0; i < n; i++) {
        int k = g.below(8);
        kind.push_back(k);
        static const std::vector<Cmd> q = {{"GET", "s"}, {"HVALS", "h"}, {"HGET", "h", "f3"}, {"SMEMBERS", "set"}, {"DEQUE_SCAN_BACK", "dq", "0", "COUNT", "10"}, {"LHSCAN", "lh", "0", "COUNT", "100"}, {"VHGETALL", "vh"}, {"LHGET", "lh", "f2"}};
        cs.push_back(q[k]);
      }
      auto judge = [&](int k, const Val &v) -> int64_t {
        if(v.type == '-') return -3;
        switch(k) {
          case 0: case 2: case 7: return gen1(v);
          case 1: return all(texts(v), F);
          case 3: return all(texts(v), 1);
          case 4: { auto x = texts(v.kids[1]); return all(x, 3); }
          case 5: { std::vector<std::string> x; auto &a = v.kids[1].kids; for(size_t i = 2; i < a.size(); i += 3) x.push_back(a[i].s); return all(x, F); }
          default: { std::vector<std::string> x; auto &a = v.kids[1].kids; for(size_t i = 1; i < a.size(); i += 2) x.push_back(a[i].s); return all(x, F); }
        }
      };
      int mode = g.below(3);
      int64_t got = -9;
      if(mode == 2) {
        Val v = one(s, cs[0]);
        got = judge(kind[0], v);
        if(got <= -2) VF_FAIL("iso:torn-read", vf::show(cs[0]) << " shows part of a transaction: " << resp::show(v));
        ctx().count("single_reads");
      }
      else {
        auto r = tx(s, cs, mode == 1, 0);
        if(r.size() != cs.size()) { VF_FAIL("iso:replies", cs.size() << " reads, " << r.size() << " replies"); break; }
        for(size_t i = 0; i < r.size(); i++) {
          int64_t v = judge(kind[i], r[i]);
          if(v <= -2) VF_FAIL("iso:torn-read", vf::show(cs[i]) << " shows part of a transaction: " << resp::show(r[i]));
          if(i == 0) got = v;
          else if(v != got) VF_FAIL("iso:snapshot", "a block of reads sees generation " << got << " in " << vf::show(cs[0]) << " and " << v << " in " << vf::show(cs[i]));
        }
        ctx().count(mode ? "batched_reads" : "snapshot_blocks");
      }
      int64_t hi = committed + 1;
      if(got == -1) {
        seenEmpty++;
        bool okEmpty = lo == 0;
        for(int64_t x = lo; x <= hi; x++) if(x % 7 == 0) okEmpty = true;
        if(!okEmpty) VF_FAIL("iso:stale", "sees nothing while generations " << lo << ".." << hi << " were there");
      }
      else if(got > 0) {
        seenGen++;
        if(got > hi || got < last || got < lo) VF_FAIL("iso:stale", "sees generation " << got << " although " << lo << " was committed before, " << last << " seen, and " << hi << " is the newest");
        last = got;
      }
      ctx().eval("iso" + std::to_string(t) + ":" + std::to_string(got) + ":" + std::to_string(kind[0]) + std::to_string(mode));
    }
  });
  usleep(seconds_ms * 1000);
  stop = true;
  writer.join();
  for(auto &t : readers) t.join();
  ctx().count("generations_committed", committed);
  ctx().count("reads_of_a_generation", seenGen);
  ctx().count("reads_of_nothing", seenEmpty);
}

// several writers: no update is lost, and blocks do not interleave
static void writers(int ms) {
  Publisher pub;
  Sut s(freshDir("wr") + "/db", &pub);
  std::atomic<bool> stop {false};
  std::atomic<int64_t> total {0};
  std::mutex m;
  std::set<int64_t> seen;
  std::vector<std::thread> ts;
  for(int t = 0; t < 4; t++) ts.emplace_back([&, t] {
    Rng g(ctx().seed * 17 + t);
    while(!stop && !ctx().failed()) {
      std::vector<Cmd> cs = {{"HINCRBY", "c", "x", "1"}, {"HINCRBY", "d", "y", "1"}, {"HGET", "c", "x"}, {"DEQUE_PUSH_BACK", "q", std::to_string(t)}, {"VHSET", "v", "f", "x"}};
      auto r = tx(s, cs, g.chance(30), 0);
      if(r.size() != 5 || r[0].type != ':' || r[0].i != r[1].i || r[2].s != std::to_string(r[0].i) || r[3].i != r[0].i || r[4].i != r[0].i) {
        VF_FAIL("iso:writers", "concurrent blocks interleave: " << resp::show(r[0]) << resp::show(r[1]) << resp::show(r[2]) << resp::show(r[3]) << resp::show(r[4]));
        break;
      }
      total++;
      std::scoped_lock l(m);
      if(!seen.insert(r[0].i).second) VF_FAIL("iso:lost-update", "two blocks were both told " << r[0].i);
      ctx().eval("w" + std::to_string(t) + ":" + std::to_string(r[0].i));
    }
  });
  usleep(ms * 1000);
  stop = true;
  for(auto &t : ts) t.join();
  Val v = one(s, {"HGET", "c", "x"});
  VF_CHECK(ctx().failed() || v.s == std::to_string(total), "iso:lost-update", total << " increments, but the counter holds " << resp::show(v));
  Val q = one(s, {"DEQUE_LEN", "q"});
  VF_CHECK(ctx().failed() || q.i == total, "iso:lost-update", total << " pushes, but the deque holds " << q.i);
  ctx().count("concurrent_blocks", total);
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "serialize");
  if(mode == "serialize") roundtrips(ctx().n(1500, 20));
  else if(mode == "isolation") isolation(ctx().n(4000, 20));
  else writers(ctx().n(2000, 20));
  return ctx().finish();
}
