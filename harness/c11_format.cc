// C11: every formatter, decoded by an independent RESP reader.
#include "qdb.hh"
#include "resp.hh"
#include "Formatter.hh"
#include "RedisRequest.hh"
#include "BufferedWriter.hh"
#include "Link.hh"
#include "redis/ArrayResponseBuilder.hh"
#include "redis/Transaction.hh"
#include "raft/RaftCommon.hh"
#include "utils/Statistics.hh"
#include "health/HealthIndicator.hh"
#include <list>
using namespace quarkdb;
using vf::ctx; using vf::esc; using vf::Rng;
using resp::Val;

static std::string text(Rng &g, size_t n = 30) {
  if(g.chance(3)) return std::string(g.below(40000), (char) g.next());
  if(g.chance(10)) return "a\r\n+OK\r\n$3\r\nfoo\r\n";
  return g.bytes(n);
}
static std::string flat(std::string s) { for(auto &c : s) if(c == '\r' || c == '\n') c = ' '; return s; }
static bool clean(const std::string &s) { return s.find('\r') == std::string::npos && s.find('\n') == std::string::npos; }

static void expect(const char *what, const RedisEncodedResponse &r, const Val &want) {
  Val got;
  std::string key = std::string("format:") + what;
  if(!resp::one(r.val, got)) { VF_FAIL(key, what << ": not exactly one protocol value: '" << esc(r.val) << "', expected " << resp::show(want)); return; }
  if(!(got == want)) VF_FAIL(key, what << ": decodes to " << resp::show(got) << ", expected " << resp::show(want));
  ctx().count(std::string("format.") + what);
  ctx().eval(std::string(what) + r.val);
}
// texts on a single line: exact without newlines, otherwise one value of the right type
static void expectLine(const char *what, const RedisEncodedResponse &r, char type, const std::string &want) {
  Val got;
  std::string key = std::string("format:") + what;
  if(!resp::one(r.val, got)) { VF_FAIL(key + ":framing", what << ": not exactly one protocol value: '" << esc(r.val) << "'"); return; }
  if(got.type != type) VF_FAIL(key, what << ": type " << got.type);
  if(clean(want) && got.s != want) VF_FAIL(key, what << ": text '" << esc(got.s) << "', expected '" << esc(want) << "'");
  ctx().count(std::string("format.") + what + (clean(want) ? "" : ".newline"));
  ctx().eval(std::string(what) + r.val);
}
// arrays of status lines
static void expectLines(const char *what, const RedisEncodedResponse &r, const std::vector<std::string> &want) {
  Val got;
  std::string key = std::string("format:") + what;
  if(!resp::one(r.val, got) || got.type != '*' || got.kids.size() != want.size()) { VF_FAIL(key + ":framing", what << ": not one array of " << want.size() << ": '" << esc(r.val) << "'"); return; }
  for(size_t i = 0; i < want.size(); i++) {
    if(got.kids[i].type != '+' || (clean(want[i]) && got.kids[i].s != want[i])) VF_FAIL(key, what << ": line " << i << " is " << resp::show(got.kids[i]) << ", expected '" << esc(want[i]) << "'");
  }
  ctx().count(std::string("format.") + what);
  ctx().eval(std::string(what) + r.val);
}

static int64_t num(Rng &g) {
  switch(g.below(4)) { case 0: return g.range(-20, 20); case 1: return (int64_t) g.next(); case 2: return INT64_MAX - (int64_t) g.below(2); default: return INT64_MIN + (int64_t) g.below(2); }
}
static std::vector<std::string> vec(Rng &g) { std::vector<std::string> v; for(size_t n = g.below(g.chance(10) ? 120 : 5); v.size() < n; ) v.push_back(text(g, 12)); return v; }

static RedisRequest command(Rng &g, bool write, std::vector<std::string> *parts = nullptr) {
  std::vector<std::string> v;
  static const std::vector<std::string> W {"SET", "hset", "DEL", "sadd", "lease-get", "VHSET"}, R {"GET", "hgetall", "scan", "LHGET"};
  v.push_back(g.pick(write ? W : R));
  for(size_t n = g.below(4); n; n--) v.push_back(text(g, 12));
  if(parts) *parts = v;
  return vf::req(v);
}

static void formatters(Rng &g) {
  std::string a = text(g), b = text(g), c = text(g);
  int64_t n = num(g);
  bool push = g.chance(50);
  size_t cnt = g.below(1000000);
  expect("string", Formatter::string(a), resp::str(a));
  expect("integer", Formatter::integer(n), resp::num(n));
  expect("ok", Formatter::ok(), resp::status("OK"));
  expect("pong", Formatter::pong(), resp::status("PONG"));
  expect("null", Formatter::null(), resp::nil());
  expectLine("err", Formatter::err(a), '-', "ERR " + a);
  expectLine("errArgs", Formatter::errArgs(a), '-', "ERR wrong number of arguments for '" + a + "' command");
  expectLine("noauth", Formatter::noauth(a), '-', "NOAUTH " + a);
  expectLine("status", Formatter::status(a), '+', a);
  {
    rocksdb::Status st = g.chance(30) ? rocksdb::Status::OK() : g.chance(50) ? rocksdb::Status::InvalidArgument(a) : rocksdb::Status::NotFound(a, b);
    if(st.ok()) expect("fromStatus", Formatter::fromStatus(st), resp::status("OK"));
    else expectLine("fromStatus", Formatter::fromStatus(st), '-', "ERR " + st.ToString());
  }
  {
    std::string host = "h" + std::to_string(g.below(1000)) + ".cern.ch";
    int port = g.range(1, 65535);
    int64_t shard = g.below(100);
    expectLine("moved", Formatter::moved(shard, RaftServer(host, port)), '-', "MOVED " + std::to_string(shard) + " " + host + ":" + std::to_string(port));
  }
  auto v = vec(g);
  expect("vector", Formatter::vector(v), resp::strs(v));
  expectLines("statusVector", Formatter::statusVector(v), v);
  expect("scan", Formatter::scan(a, v), resp::arr({resp::str(a), resp::strs(v)}));
  uint64_t rev = g.chance(50) ? g.below(100) : (uint64_t) INT64_MAX - g.below(3);
  expect("versionedVector", Formatter::versionedVector(rev, v), resp::arr({resp::num(rev), resp::strs(v)}));
  {
    std::vector<std::pair<std::string_view, std::string_view>> kv;
    std::vector<std::string> fl;
    for(size_t i = 0; i + 1 < v.size(); i += 2) { kv.emplace_back(v[i], v[i+1]); fl.push_back(v[i]); fl.push_back(v[i+1]); }
    expect("vhashRevision", Formatter::vhashRevision(rev, kv), resp::arr({resp::num(rev), resp::strs(fl)}));
  }
  auto ps = [&](const char *nm, RedisEncodedResponse r, std::vector<Val> k) {
    Val w = resp::arr(std::move(k));
    if(push) { w.type = '>'; w.kids.insert(w.kids.begin(), resp::str("pubsub")); }
    expect(nm, r, w);
  };
  ps("subscribe", Formatter::subscribe(push, a, cnt), {resp::str("subscribe"), resp::str(a), resp::num(cnt)});
  ps("psubscribe", Formatter::psubscribe(push, a, cnt), {resp::str("psubscribe"), resp::str(a), resp::num(cnt)});
  ps("unsubscribe", Formatter::unsubscribe(push, a, cnt), {resp::str("unsubscribe"), resp::str(a), resp::num(cnt)});
  ps("punsubscribe", Formatter::punsubscribe(push, a, cnt), {resp::str("punsubscribe"), resp::str(a), resp::num(cnt)});
  ps("message", Formatter::message(push, a, b), {resp::str("message"), resp::str(a), resp::str(b)});
  ps("pmessage", Formatter::pmessage(push, a, b, c), {resp::str("pmessage"), resp::str(a), resp::str(b), resp::str(c)});
  {
    size_t f = 1 + g.below(6);
    RedisEncodedResponse one = g.chance(50) ? Formatter::string(a) : Formatter::err(a);
    RedisEncodedResponse m = Formatter::multiply(one, f);
    std::vector<Val> vals; Val w;
    bool ok = resp::one(one.val, w) && resp::many(m.val, vals) && vals.size() == f;
    for(auto &x : vals) ok = ok && x == w;
    VF_CHECK(ok, "format:multiply", "multiply(" << f << ") of '" << esc(one.val) << "' gave '" << esc(m.val) << "'");
  }
  {
    std::vector<std::string> hd; std::vector<std::vector<std::string>> data;
    for(size_t i = g.below(4); i; i--) { hd.push_back(text(g, 10)); data.push_back(vec(g)); }
    Val got;
    RedisEncodedResponse r = Formatter::vectorsWithHeaders(hd, data);
    bool ok = resp::one(r.val, got) && got.type == '*' && got.kids.size() == hd.size();
    for(size_t i = 0; ok && i < hd.size(); i++) {
      ok = got.kids[i].kids.size() == 2 && got.kids[i].kids[0].type == '+' && got.kids[i].kids[1].type == '*' && got.kids[i].kids[1].kids.size() == data[i].size();
      if(ok && clean(hd[i])) ok = got.kids[i].kids[0].s == hd[i];
      for(size_t j = 0; ok && j < data[i].size(); j++) ok = got.kids[i].kids[1].kids[j].type == '+' && (!clean(data[i][j]) || got.kids[i].kids[1].kids[j].s == data[i][j]);
    }
    VF_CHECK(ok, "format:vectorsWithHeaders", "'" << esc(r.val) << "'");
    ctx().eval("vwh" + r.val);
  }
  {
    Statistics s; s.reads = g.below(1 << 30); s.writes = g.below(1000); s.txread = g.below(1000); s.txreadwrite = num(g);
    expectLines("stats", Formatter::stats(s), {"TOTAL-READS " + std::to_string(s.reads), "TOTAL-WRITES " + std::to_string(s.writes), "TOTAL-TXREAD " + std::to_string(s.txread), "TOTAL-TXREADWRITE " + std::to_string(s.txreadwrite)});
  }
  {
    std::vector<HealthIndicator> ind;
    static const char *names[] = {"GREEN", "YELLOW", "RED"};
    int worst = 0;
    std::string node = g.chance(50) ? "" : "node-" + std::to_string(g.below(9)), ver = "1.2." + std::to_string(g.below(99));
    std::vector<std::string> want;
    for(size_t k = g.below(5); k; k--) {
      int st = g.below(3);
      worst = std::max(worst, st);
      std::string d = text(g, 10), m = text(g, 10);
      ind.emplace_back((HealthStatus) st, d, m);
      std::string pad = names[st]; pad.resize(7, ' ');
      want.push_back(pad + ">> " + d + " " + m);
    }
    std::vector<std::string> head {"NODE-HEALTH " + std::string(names[worst])};
    if(!node.empty()) head.push_back("NODE " + node);
    head.push_back("VERSION " + ver); head.push_back("----------");
    want.insert(want.begin(), head.begin(), head.end());
    expectLines("nodeHealth", Formatter::nodeHealth(node.empty() && g.chance(50) ? NodeHealth(ver, ind) : NodeHealth(ver, node, ind)), want);
  }
}

static void requests(Rng &g) {
  std::vector<std::string> parts;
  RedisRequest r = command(g, g.chance(50), &parts);
  expect("simpleRedisRequest", Formatter::simpleRedisRequest(r), resp::strs(parts));
  expect("redisRequest", Formatter::redisRequest(r), resp::strs(parts));
  Transaction tx;
  std::vector<Val> want;
  bool writes = false;
  for(size_t n = 1 + g.below(4); n; n--) {
    bool w = g.chance(50);
    writes |= w;
    std::vector<std::string> p;
    tx.push_back(command(g, w, &p));
    want.push_back(resp::strs(p));
  }
  bool phantom = g.chance(50) && tx.size() > 1;
  tx.setPhantom(phantom);
  RedisRequest t = tx.toRedisRequest();
  Val wt = resp::arr(want);
  wt.kids.insert(wt.kids.begin(), resp::str(writes ? "TX_READWRITE" : "TX_READONLY"));
  expect("redisRequest.tx", Formatter::redisRequest(t), wt);

  int64_t term = g.below(1000), idx = g.range(-1, 1000);
  std::vector<RaftEntry> entries; std::vector<RaftEntryWithIndex> wi;
  std::vector<Val> ev, jv;
  bool raw = g.chance(50);
  for(size_t n = g.below(4); n; n--) {
    bool useTx = g.chance(30);
    int64_t tm = g.below(1000), ix = g.below(100000);
    RaftEntry e(tm, RedisRequest(useTx ? t : r));
    std::vector<std::string> tparts; for(auto &x : t) tparts.emplace_back(std::string_view(x));
    Val plain = useTx ? resp::strs(tparts) : resp::strs(parts), cooked = useTx ? wt : resp::strs(parts);
    ev.push_back(resp::arr({resp::str("TERM: " + std::to_string(tm)), raw ? plain : cooked}));
    jv.push_back(resp::arr({resp::str("INDEX: " + std::to_string(ix)), resp::str("TERM: " + std::to_string(tm)), cooked}));
    entries.push_back(e); wi.emplace_back(e, ix);
  }
  expect("raftEntries", Formatter::raftEntries(entries, raw), resp::arr(ev));
  int64_t cursor = g.chance(30) ? 0 : g.below(1000000) + 1;
  expect("journalScan", Formatter::journalScan(cursor, wi), resp::arr({resp::str(cursor ? "next:" + std::to_string(cursor) : "0"), resp::arr(jv)}));
  RaftEntry e(term, RedisRequest(r));
  std::vector<Val> k {resp::str("TERM: " + std::to_string(term)), resp::strs(parts)};
  if(idx != -1) k.insert(k.begin(), resp::str("INDEX: " + std::to_string(idx)));
  expect("raftEntry", Formatter::raftEntry(e, raw, idx), resp::arr(k));
}

static void builder(Rng &g) {
  size_t n = 1 + g.below(8);
  bool phantom = g.chance(40);
  ArrayResponseBuilder b(n, phantom);
  std::vector<Val> want;
  for(size_t i = 0; i < n; i++) {
    std::string e;
    VF_CHECK(vf::throws([&] { b.buildResponse(); }, &e), "format:builder-early", "an array builder gave a reply with " << i << " of " << n << " items");
    std::string s = text(g);
    switch(g.below(4)) {
      case 0: b.push_back(Formatter::string(s)); want.push_back(resp::str(s)); break;
      case 1: { int64_t v = num(g); b.push_back(Formatter::integer(v)); want.push_back(resp::num(v)); break; }
      case 2: b.push_back(Formatter::null()); want.push_back(resp::nil()); break;
      case 3: b.push_back(Formatter::vector({s, "x"})); want.push_back(resp::strs({s, "x"})); break;
    }
  }
  VF_CHECK(vf::throws([&] { b.push_back(Formatter::ok()); }), "format:builder-overfull", "an array builder took more items than announced");
  RedisEncodedResponse r = b.buildResponse();
  std::vector<Val> got;
  if(!resp::many(r.val, got)) VF_FAIL("format:builder", "builder output is not RESP: '" << esc(r.val) << "'");
  else if(phantom) VF_CHECK(got == want, "format:builder-phantom", "a phantom array of " << n << " gave " << got.size() << " values");
  else VF_CHECK(got.size() == 1 && got[0] == resp::arr(want), "format:builder", "array of " << n << " decodes to '" << esc(r.val) << "'");
  VF_CHECK(b.buildResponse() == r, "format:builder-twice", "building twice differs");
  ctx().eval("b" + r.val);
}

// everything handed to the writer comes out once, in order
static void writer(Rng &g) {
  Link link;
  BufferedWriter w(&link);
  std::string sent, got, trace;
  char buf[70000];
  auto drain = [&] { int k; while((k = link.Recv(buf, sizeof(buf), 0)) > 0) got.append(buf, k); };
  bool active = true;
  for(int i = 0; i < 40; i++) {
    int op = g.below(12);
    if(op == 0) { w.flush(); trace += "f"; drain(); VF_CHECK(got == sent, "format:writer-flush", "after a flush " << got.size() << " bytes came out of " << sent.size()); }
    else if(op == 1) { active = g.chance(50); w.setActive(active); trace += active ? "A" : "I"; drain(); VF_CHECK(got == sent, "format:writer-setActive", "after setActive " << got.size() << " of " << sent.size()); }
    else {
      size_t n;
      switch(g.below(5)) { case 0: n = g.below(10); break; case 1: n = OUTPUT_BUFFER_SIZE - 5 + g.below(10); break; case 2: n = g.below(OUTPUT_BUFFER_SIZE); break; case 3: n = g.below(60000); break; default: n = g.below(2000); }
      std::string s(n, 0);
      uint64_t x = g.next();
      for(auto &ch : s) { ch = (char) x; x = x * 6364136223846793005ull + 1442695040888963407ull; ch ^= (char) (x >> 56); }
      sent += s;
      w.send(std::move(s));
      trace += "s" + std::to_string(n) + ",";
      if(g.chance(50)) drain();
      if(!active) { drain(); VF_CHECK(got == sent, "format:writer-unbuffered", "unbuffered writer held data back"); }
    }
    VF_CHECK(got.size() <= sent.size() && sent.compare(0, got.size(), got) == 0, "format:writer-order", "the writer's output is not a prefix of what was sent; " << trace);
    if(ctx().failed("format:writer-order")) return;
  }
  w.flush(); drain();
  VF_CHECK(got == sent, "format:writer-total", "the writer delivered " << got.size() << " of " << sent.size() << " bytes; " << trace);
  ctx().count("writer.bytes", sent.size());
  ctx().eval(trace);
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  vf::quiet();
  Link::setConnectionLogging(false);
  Rng g(ctx().seed);
  int n = ctx().n(2500, 20);
  for(int i = 0; i < n; i++) {
    formatters(g); requests(g); builder(g);
    if(i % 10 == 0) writer(g);
  }
  return ctx().finish();
}
