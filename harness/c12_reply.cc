// C12: exactly one reply per request, in order, however requests are pipelined, and whatever happens to leadership.
#include "sm_model.hh"
#include "raft.hh"
#include "node.hh"
#include "netio/AsioPoller.hh"
#include "redis/Transaction.hh"
using namespace vf;
using namespace quarkdb;
using namespace smm;

static std::string low(const std::string &s) { return Model::lower(s); }

// ---------------------------------------------------------------- one pipeline against the same requests one by one
struct Op { Cmd c; bool compare; };       // compare: the reply itself is determined by what came before

static Op randomOp(Rng &g, Gen &gen, int &n, bool raft) {
  n++;
  switch(g.below(24)) {
    case 0: return {{"PING", "p" + std::to_string(n)}, true};
    case 1: return {{"PING"}, true};
    case 2: return {{"PING", "a", "b"}, true};
    case 3: case 4: return {{"MULTI"}, true};
    case 5: case 6: case 7: return {{g.chance(50) ? "EXEC" : "exec"}, true};
    case 8: return {{"DISCARD"}, true};
    case 9: { static const std::vector<Cmd> odd = {{"MULTI", "x"}, {"EXEC", "x"}, {"DISCARD", "x"}, {"GET"}, {"SET", "a"}, {"CONVERT_INT_TO_STRING", "12"}, {"CONVERT_STRING_TO_INT", "x"},
        {"CONVERT_INT_TO_STRING"}, {"CLIENT", "SETNAME", "n"}, {"CLIENT", "GETNAME"}, {"CLIENT", "x"}, {"CLIENT"}, {"QUARKDB_VERSION"}, {"QUARKDB_INVALID_COMMAND"}, {"RECOVERY_INFO"}, {"CLOCK_GET", "x"}, {"AUTH"},
        {"HMAC_AUTH_VALIDATE_CHALLENGE"}, {"ARTIFICIALLY_SLOW_WRITE_NEVER_USE_THIS"}, {"QUARKDB_BULKLOAD_FINALIZE"}};
      Cmd c = g.pick(odd); return {c, c[0] != "CLOCK_GET"}; }
    case 10: return {{"unknown" + std::to_string(n)}, true};
    case 11: { static const std::vector<Cmd> info = {{"QUARKDB_INFO"}, {"QUARKDB_HEALTH"}, {"CLIENT_ID"}, {"COMMAND_STATS"}, {"RAFT_INFO"}, {"RAFT_LEADER_INFO"}, {"QUARKDB_LEVEL_STATS"}, {"QUARKDB_COMPRESSION_STATS"}, {"RAFT_FETCH", "0"}, {"RAFT_FETCH_LAST", "1"},
        {"RAFT_HEARTBEAT", "1", "x"}, {"RAFT_REQUEST_VOTE"}, {"RAFT_APPEND_ENTRIES"}, {"RAFT_JOURNAL_SCAN", "0", "COUNT", "2"}, {"ACTIVATE_STALE_READS"}, {"QUARKDB_START_RESILVERING", "x"}, {"CLOCK_GET"}, {"HMAC_AUTH_GENERATE_CHALLENGE", "01234567890123456789012345678901234567890123456789012345678901234"},
        {"RAFT_ADD_OBSERVER", "x"}, {"RAFT_ATTEMPT_COUP"}, {"LEASE_GET_PENDING_EXPIRATION_EVENTS"}, {"QUARKDB_VERIFY_CHECKSUM"}, {"RAFT_SET_FSYNC_POLICY", "async"}, {"RAW_GET_ALL_VERSIONS", "x"}};
      return {g.pick(info), false}; }
    case 12: { // a serialized transaction
      Transaction t;
      size_t k = 1 + g.below(4);
      bool phantom = g.chance(40);
      for(size_t i = 0; i < k; i++) t.push_back(toReq(g.chance(50) ? gen.write() : gen.read()));
      t.setPhantom(phantom);
      Cmd c = {t.containsWrites() ? "TX_READWRITE" : "TX_READONLY", t.serialize(), phantom ? "phantom" : "real"};
      if(g.chance(25)) { if(g.chance(50)) c[1].resize(c[1].size() / 2); else c.pop_back(); }
      return {c, true}; }
    case 13: case 14: case 15: case 16: case 17: return {gen.read(), true};
    default: return {gen.write(), true};
  }
}
// journal contents count as internal state
static std::map<std::string, std::string> dataOf(std::map<std::string, std::string> m) { for(auto it = m.begin(); it != m.end(); ) it = (!it->first.empty() && it->first[0] == '_') ? m.erase(it) : std::next(it); return m; }

struct BigNode {
  std::string dir;
  Configuration cfg;
  std::unique_ptr<QuarkDBNode> node;
  explicit BigNode(const std::string &d, int kind) : dir(d) {
    Status s;
    if(kind == 0) delete ShardDirectory::create(dir, "cluster", "default", nullptr, s);
    else delete ShardDirectory::create(dir, "cluster", "default", std::vector<RaftServer>{RaftServer("lonely", 4000)}, 0, FsyncPolicy::kAsync, nullptr, s);
    std::string text = kind == 0 ? "redis.mode standalone\n" : "redis.mode raft\nredis.myself lonely:4000\n";
    if(!s.ok() || !Configuration::fromString(text + "redis.database " + dir + "\n", cfg)) { fprintf(stderr, "VF-HARNESS-ERROR cannot create %s: %s\n", dir.c_str(), s.getMsg().c_str()); _exit(2); }
    node.reset(new QuarkDBNode(cfg, RaftTimeouts(std::chrono::milliseconds(100), std::chrono::milliseconds(150), std::chrono::milliseconds(30))));
    if(kind == 1) {
      Client c(node.get());
      if(!eventually([&] { auto r = c.ask({"RAFT_LEADER_INFO"}); return r.size() == 1 && r[0].type != '-'; }, 60000)) { fprintf(stderr, "VF-HARNESS-ERROR no leader\n"); _exit(2); }
    }
  }
};

static bool tryPipeline(Peer &p, QuarkDBNode *n, InFlightTracker &trk, const std::vector<Cmd> &cs, Rng &g, const std::string &label) {
  std::string bytes;
  for(auto &c : cs) bytes += wire(c);
  size_t pos = 0;
  int style = g.below(4);
  while(pos < bytes.size()) {
    size_t k = style == 0 ? bytes.size() : style == 1 ? 1 + g.below(7) : style == 2 ? 1 + g.below(200) : 1 + g.below(5000);
    k = std::min(k, bytes.size() - pos);
    p.send(bytes.substr(pos, k));
    pos += k;
    if(p.conn->processRequests(n, trk) < 0) { VF_FAIL("reply:closed", "the connection is closed while processing " << label); return false; }
    p.pump();
  }
  return true;
}

static void pipeline(int rounds, int kind) {
  Rng g(ctx().seed * 977 + kind);
  chdir(freshDir("cwd").c_str());
  std::string da = freshDir("pa") + "/a", db = freshDir("pb") + "/b";
  BigNode a(da, 0), b(db, kind);
  InFlightTracker trk {true};
  Gen gen(g);
  gen.vh = gen.lease = gen.conf = false;
  std::vector<Cmd> history;
  for(int it = 0; it < rounds && !ctx().failed(); it++) {
    Client ca(a.node.get());
    Peer pb;
    int n = 0;
    std::vector<Op> ops;
    size_t len = 1 + g.below(g.chance(10) ? 400 : 40);
    bool writesOnly = g.chance(15);
    for(size_t i = 0; i < len; i++) ops.push_back(writesOnly && g.chance(97) ? Op{gen.write(), true} : randomOp(g, gen, n, kind == 1));
    if(g.chance(15)) {   // writes and nothing after them
      ops.clear();
      for(size_t k = g.chance(50) ? 1 + g.below(120) : 88 + g.below(24); k > 0; k--) ops.push_back({gen.write(), true});
      ctx().count("pipelines_ending_in_writes");
    }
    else {
      // a MULTI block left open, then closed
      ops.push_back({{"DISCARD"}, true});
      ops.push_back({{"PING", "END-OF-PIPELINE"}, true});
    }
    std::vector<Cmd> cs;
    for(auto &o : ops) { for(auto &a : o.c) if(a.empty()) a = "E"; cs.push_back(o.c); }     // an empty argument ends the connection
    std::string label = smm::show(cs, 500);
    ctx().current("pipeline " + label);
    std::vector<resp::Val> want;
    std::vector<int> from;                 // which request a reply belongs to
    bool multi = false, opaque = false;
    for(size_t i = 0; i < ops.size(); i++) {
      auto r = ca.ask(ops[i].c);
      if(ca.dead) { VF_FAIL("reply:closed", "one by one: the connection is closed by " << vf::show(ops[i].c)); return; }
      std::string nm = low(ops[i].c[0]);
      size_t expect = 1;
      if(!multi && nm.compare(0, 3, "tx_") == 0 && ops[i].c.size() == 3) {
        Transaction t; RedisRequest q = toReq(ops[i].c);
        if(t.deserialize(q)) expect = t.expectedResponses();
      }
      VF_CHECK(r.size() == expect, "reply:count", vf::show(ops[i].c) << " gets " << r.size() << " replies instead of " << expect << " (standalone, one request at a time), after " << smm::show(std::vector<Cmd>(cs.begin(), cs.begin() + i), 12));
      if(r.size() != expect) return;
      if(nm == "multi" && r[0].type == '+') { multi = true; opaque = false; }
      if(multi && !ops[i].compare) opaque = true;
      if(multi && nm == "exec" && opaque) ops[i].compare = false;
      if((nm == "exec" || nm == "discard")) multi = false;
      // what standalone and raft mode answer differently
      for(auto &v : r) { want.push_back(v); from.push_back(i); }
    }
    if(!tryPipeline(pb, b.node.get(), trk, cs, g, label)) return;
    bool all = pb.await(want.size(), 30000);
    for(int k = 0; k < 2; k++) { usleep(k * 300); pb.pump(); }
    VF_CHECK(!pb.malformed && !pb.eof, "reply:stream", "the reply stream is " << (pb.malformed ? "malformed" : "closed") << " for " << label);
    VF_CHECK(all && pb.got.size() == want.size(), "reply:count", "pipelined, " << cs.size() << " requests get " << pb.got.size() << " replies instead of " << want.size() << ": " << label);
    for(size_t i = 0; i < want.size() && i < pb.got.size(); i++) {
      Op &o = ops[from[i]];
      if(!o.compare) { ctx().count("replies_counted_only"); continue; }
      if(resp::show(want[i]) != resp::show(pb.got[i])) {
        // EXEC of a block with informational commands never holds such commands; anything else must agree
        VF_FAIL("reply:order", "reply " << i << ", to " << vf::show(o.c) << ", is " << resp::show(pb.got[i]) << " when pipelined and " << resp::show(want[i]) << " one by one, in " << label);
        return;
      }
      ctx().count("replies_compared");
    }
    ctx().count("pipelines");
    ctx().eval(std::string(kind ? "r" : "s") + std::to_string(vf::hash64(label)));
    if(it < 2) ctx().sample((kind ? "raft pipeline" : "standalone pipeline") + smm::show(cs, 12));
  }
  a.node.reset(); b.node.reset();
  auto ra = dataOf(dumpRaw(da + "/current/state-machine")), rb = dataOf(dumpRaw(db + "/current/state-machine"));
  VF_CHECK(ra == rb, "reply:state", "after the same requests pipelined and one by one, the stored data differ (" << ra.size() << " and " << rb.size() << " records)");
}

// ---------------------------------------------------------------- clients of a leader which is not always the leader
struct Sent { int kind; int64_t num; std::string text; };     // 0 read-only, 1 unknown command, 2 counter, 3 SET, 4 GET, 5 MULTI ok, 6 QUEUED, 7 EXEC of n increments, 8 DISCARD ok

struct RaftClient {
  Dispatcher *disp;
  InFlightTracker trk {true};
  std::string me;
  Rng g;
  std::unique_ptr<Peer> p;
  std::deque<Sent> out;
  int64_t incrSent = 0, lastCounter = 0, setSent = 0, lastSetAcked = 0, ro = 0, cid = 0;
  uint64_t acked = 0, moved = 0, unavailable = 0, replies = 0;
  int hangups = 0;
  bool broken = false;
  RaftClient(Dispatcher *d, const std::string &m, uint64_t seed) : disp(d), me(m), g(seed) { p.reset(new Peer()); }
  std::string make() {
    std::string o;
    switch(g.below(9)) {
      case 0: case 1: { int64_t i = g.below(10); out.push_back({0, i, ""}); return wire({"GET", "ro" + std::to_string(i)}); }
      case 2: { std::string u = "u" + std::to_string(ro++); out.push_back({1, 0, u}); return wire({u}); }
      case 3: case 4: case 5: out.push_back({2, ++incrSent, ""}); return wire({"HINCRBY", "c" + me, "f", "1"});
      case 6: out.push_back({3, ++setSent, ""}); return wire({"SET", "k" + me, std::to_string(setSent)});
      case 7: out.push_back({4, setSent, ""}); return wire({"GET", "k" + me});
      default: {
        out.push_back({5, 0, ""});
        o = wire({"MULTI"});
        int n = g.below(4);
        for(int i = 0; i < n; i++) { out.push_back({6, 0, ""}); o += wire(i == 1 ? std::vector<std::string>{"GET", "ro3"} : std::vector<std::string>{"HINCRBY", "c" + me, "f", "1"}); }
        if(g.chance(20)) { out.push_back({8, 0, ""}); o += wire({"DISCARD"}); }
        else { int incr = n - (n > 1); out.push_back({7, incrSent + incr, std::to_string(n)}); incrSent += incr; o += wire({"EXEC"}); }
        return o; }
    }
  }
  std::string what(const Sent &s) {
    static const char *names[] = {"GET ro", "unknown command", "HINCRBY", "SET", "GET", "MULTI", "(queued)", "EXEC", "DISCARD"};
    return std::string(names[s.kind]) + " " + std::to_string(s.num) + " " + s.text;
  }
  void counter(int64_t v, const Sent &s, const resp::Val &r) {
    if(v <= lastCounter || v > s.num) VF_FAIL("raft:counter", "client " << me << ": increment number " << s.num << " answered with " << v << ", the one before with " << lastCounter << " (" << resp::show(r) << ")");
    lastCounter = v;
  }
  void judge(const Sent &s, const resp::Val &r) {
    replies++;
    bool err = r.type == '-', una = err && r.s.find("unavailable") != std::string::npos, mov = err && r.s.compare(0, 5, "MOVED") == 0;
    auto bad = [&](const std::string &w) { VF_FAIL("raft:order", "client " << me << ": " << what(s) << " is answered with " << resp::show(r) << ": " << w << ". " << out.size() << " requests outstanding"); broken = true; };
    if(s.kind == 1) { if(!err || r.s.find("'" + s.text + "'") == std::string::npos) bad("not the error for this command"); return; }
    if(s.kind == 5 || s.kind == 8) { if(r.type != '+' || r.s != "OK") bad("expected OK"); return; }
    if(s.kind == 6) { if(r.type != '+' || r.s != "QUEUED") bad("expected QUEUED"); return; }
    if(s.kind == 7 && s.text == "0") { if(r.type != '*' || !r.kids.empty()) bad("expected an empty array"); return; }
    if(una) { unavailable++; return; }
    if(mov) { moved++; return; }
    acked++;
    if(s.kind == 0) { if(r.type != '$' || r.s != "v" + std::to_string(s.num)) bad("another value was stored"); }
    else if(s.kind == 2) { if(r.type != ':') bad("expected an integer"); else counter(r.i, s, r); }
    else if(s.kind == 3) { if(r.type != '+' || r.s != "OK") bad("expected OK"); lastSetAcked = s.num; }
    else if(s.kind == 4) {
      int64_t v = r.type == '$' ? (r.nil ? 0 : strtoll(r.s.c_str(), nullptr, 10)) : -1;
      if(v < 0) bad("expected a value");
      else if(v < lastSetAcked || v > s.num) VF_FAIL("raft:stale", "client " << me << ": GET shows " << v << " although " << lastSetAcked << " was acknowledged and " << s.num << " was the last one sent before");
    }
    else if(s.kind == 7) {
      int n = atoi(s.text.c_str());
      if(r.type != '*' || (int) r.kids.size() != n) bad("expected " + s.text + " replies");
      else { int64_t left = n - (n > 1); for(int i = 0; i < n; i++) { if(i == 1) { if(r.kids[i].s != "v3") bad("another value was stored"); } else { left--; Sent q = s; q.num -= left; if(r.kids[i].type != ':') bad("expected an integer"); else counter(r.kids[i].i, q, r); } } }
    }
  }
  void digest() {
    p->pump();
    while(!p->got.empty()) {
      resp::Val v = p->take();
      if(out.empty()) { VF_FAIL("raft:extra", "client " << me << ": a reply nobody asked for: " << resp::show(v)); broken = true; return; }
      Sent s = out.front(); out.pop_front();
      judge(s, v);
      if(broken) return;
    }
    if(p->malformed || p->eof) { VF_FAIL("raft:stream", "client " << me << ": the reply stream is " << (p->malformed ? "malformed" : "closed")); broken = true; }
  }
  // a batch of requests
  void fire() {
    std::string bytes;
    for(size_t n = 1 + g.below(g.chance(10) ? 150 : 15); n > 0; n--) bytes += make();
    size_t pos = 0;
    bool cut = g.chance(50);
    while(pos < bytes.size() && !broken) {
      size_t k = cut ? std::min<size_t>(bytes.size() - pos, 1 + g.below(120)) : bytes.size();
      p->send(bytes.substr(pos, k));
      pos += k;
      if(p->conn->processRequests(disp, trk) < 0) { VF_FAIL("raft:closed", "client " << me << ": the connection was closed"); broken = true; return; }
      if(g.chance(50)) digest();
    }
  }
  // everything answered
  bool settle(int ms) {
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while(!out.empty() && !broken && std::chrono::steady_clock::now() < end) { p->pump(20); digest(); }
    return out.empty();
  }
  void hangup() {
    disp->notifyDisconnect(p->conn.get());
    p->hangup();
    p->pump();
    // replies already on the wire
    while(!p->got.empty() && !out.empty() && !broken) { resp::Val v = p->take(); Sent s = out.front(); out.pop_front(); judge(s, v); }
    if(!p->got.empty()) VF_FAIL("raft:extra", "client " << me << ": a reply nobody asked for");
    out.clear();
    hangups++;
    p.reset(new Peer());
  }
};

static void raft(int seconds) {
  Rng g(ctx().seed * 131 + 3);
  FakePeer p0, p1;
  RaftServer me("127.0.0.1", 65000);
  std::vector<RaftServer> nodes {me, p0.srv(), p1.srv()};
  std::string dir = freshDir("raft") + "/n";
  RaftTimeouts t(std::chrono::milliseconds(300), std::chrono::milliseconds(400), std::chrono::milliseconds(40));
  Status s;
  std::unique_ptr<ShardDirectory> sd(ShardDirectory::create(dir, "cid", "default", nodes, 0, FsyncPolicy::kAsync, nullptr, s));
  if(!s.ok()) { fprintf(stderr, "VF-HARNESS-ERROR %s\n", s.getMsg().c_str()); _exit(2); }
  { // the peers start with the same log
    RaftSerializedEntry e;
    RaftJournal *j = sd->getRaftJournal();
    j->fetch(0, e);
    p0.log.push_back(e); p1.log.push_back(e);
  }
  std::unique_ptr<Shard> shard(new Shard(sd.get(), me, Mode::raft, t, ""));
  shard->spinup();
  RaftGroup *rg = shard->getRaftGroup();
  RaftState &st = *rg->state();
  RaftDispatcher &d = *rg->dispatcher();
  auto leads = [&] { return st.getSnapshot()->status == RaftStatus::LEADER; };
  if(!eventually(leads, 60000)) { fprintf(stderr, "VF-HARNESS-ERROR never elected\n"); _exit(2); }
  {
    RaftClient pre(shard.get(), "pre", 1);
    for(int i = 0; i < 10; i++) {
      bool ok = false;
      for(int k = 0; k < 200 && !ok; k++) {
        pre.p->send(wire({"SET", "ro" + std::to_string(i), "v" + std::to_string(i)}));
        pre.p->conn->processRequests(shard.get(), pre.trk);
        if(!pre.p->await(1, 30000)) { VF_FAIL("raft:stuck", "the first writes get no reply"); return; }
        ok = pre.p->take().type == '+';
        if(!ok) usleep(20000);
      }
      if(!ok) { fprintf(stderr, "VF-HARNESS-ERROR cannot prepare\n"); _exit(2); }
    }
  }
  std::atomic<bool> stop {false}, pile {false};
  const int C = 4;
  std::vector<std::unique_ptr<RaftClient>> cl;
  std::vector<std::thread> ths;
  for(int i = 0; i < C; i++) cl.emplace_back(new RaftClient(shard.get(), std::to_string(i), ctx().seed * 1000 + i));
  for(int i = 0; i < C; i++) ths.emplace_back([&, i] {
    RaftClient &c = *cl[i];
    while(!stop && !c.broken && !ctx().failed()) {
      c.fire();
      int r = c.g.chance(95) ? 3 + c.g.below(97) : c.g.below(100);     // connections should live through several leaderships
      if(pile && r >= 3) { c.digest(); usleep(500); continue; }
      if(r < 3) c.hangup();
      else if(r < 60) {
        if(!c.settle(60000) && !c.broken) { VF_FAIL("raft:stuck", "client " << c.me << ": " << c.out.size() << " requests, the first one " << c.what(c.out.front()) << ", got no reply within 60 s"); break; }
      }
      else c.digest();
      if(c.g.chance(30)) usleep(c.g.below(4000));
    }
  });
  int64_t coups = 0, fakeLeaders = 0, holds = 0, truncated = 0, foreign = 0;
  int64_t term0 = st.getSnapshot()->term;
  auto tEnd = std::chrono::steady_clock::now() + std::chrono::seconds(seconds);
  while(std::chrono::steady_clock::now() < tEnd && !ctx().failed()) {
    usleep(10000 + g.below(120000));
    switch(g.below(6)) {
      case 0: if(leads()) { st.observed(st.getSnapshot()->term + 1, {}); coups++; } break;
      case 1: { p0.holdAppends = p1.holdAppends = true; usleep(g.below(250000)); p0.holdAppends = p1.holdAppends = false; holds++; break; }
      case 2: { (g.chance(50) ? p0 : p1).online = false; usleep(g.below(100000)); p0.online = p1.online = true; break; }
      case 3: { p0.online = p1.online = false; usleep(g.below(600000)); p0.online = p1.online = true; break; }
      default: {   // one of the others is the leader for a while
        // writes pile up unreplicated first
        if(g.chance(60)) { p0.holdAppends = p1.holdAppends = true; pile = true; usleep(g.below(60000)); pile = false; }
        p0.holdVotes = p1.holdVotes = true;
        FakePeer *L = nullptr;
        int64_t T;
        bool committed = false;
        {
          std::scoped_lock l(p0.mtx, p1.mtx);
          auto key = [](FakePeer &p) { return std::make_pair(FakePeer::le(p.log.back()), (int64_t) p.log.size()); };
          L = key(p0) >= key(p1) ? &p0 : &p1;
          T = std::max({st.getSnapshot()->term, p0.term, p1.term}) + 1;
          p0.term = p1.term = T;                   // both have voted
          RaftEntry e(T, "JOURNAL_LEADERSHIP_MARKER", std::to_string(T), L->name());
          L->log.push_back(e.serialize());
          // its own writes, which the two of them may have committed by now
          for(int k = g.chance(50) ? 0 : g.below(40); k > 0; k--) L->log.push_back(RaftEntry(T, "SET", "foreign" + std::to_string(k), std::to_string(foreign++)).serialize());
          committed = g.chance(60);
          if(committed) (L == &p0 ? p1 : p0).log = L->log;
        }
        fakeLeaders++;
        int beats = 1 + g.below(5);
        for(int b = 0; b < beats; b++) {
          auto hb = d.heartbeat({T, L->srv()});
          if(!hb.nodeRecognizedAsLeader) break;
          // as a real leader would, walk back until the logs agree
          std::vector<std::string> log;
          { std::scoped_lock l(L->mtx); log = L->log; }
          int64_t next = log.size() - 1;
          for(int k = 0; k < 100; k++) {
            RaftAppendEntriesRequest q;
            q.term = T; q.leader = L->srv(); q.prevIndex = next - 1; q.prevTerm = FakePeer::le(log[next - 1]);
            q.commitIndex = committed ? (int64_t) log.size() - 1 : 0;
            for(size_t x = next; x < log.size(); x++) { RaftEntry en; RaftEntry::deserialize(en, log[x]); q.entries.push_back(en); }
            int64_t before = sd->getRaftJournal()->getLogSize();
            auto resp = d.appendEntries(std::move(q));
            if(resp.outcome) { if(before > (int64_t) log.size()) truncated++; break; }
            if(resp.term > T) break;
            next = std::max<int64_t>(1, resp.logSize < next ? resp.logSize : next - 1);
          }
          p0.holdAppends = p1.holdAppends = false;
          usleep(g.below(80000));
        }
        p0.holdAppends = p1.holdAppends = false;
        p0.holdVotes = p1.holdVotes = false;
      }
    }
  }
  stop = true;
  p0.online = p1.online = true;
  for(auto &x : ths) x.join();
  for(auto &c : cl) if(!c->broken && !ctx().failed() && !c->settle(60000) && !c->broken) VF_FAIL("raft:stuck", "client " << c->me << ": " << c->out.size() << " requests, the first one " << c->what(c->out.front()) << ", got no reply within 60 s");
  // what is there in the end
  if(!ctx().failed()) for(int i = 0; i < C; i++) {
    RaftClient &c = *cl[i];
    Peer q;
    InFlightTracker trk {true};
    resp::Val cnt, val;
    bool ok = eventually([&] {
      q.send(wire({"HGET", "c" + c.me, "f"}) + wire({"GET", "k" + c.me}));
      q.conn->processRequests(shard.get(), trk);
      if(!q.await(2, 30000)) { VF_FAIL("raft:stuck", "a read gets no reply within 30 s"); return true; }
      cnt = q.take(); val = q.take();
      return cnt.type != '-' && val.type != '-';
    }, 60000);
    if(ctx().failed()) break;
    if(!ok) { VF_FAIL("raft:stuck", "no leader any more, 60 s after the disturbances ended"); break; }
    int64_t n = cnt.nil ? 0 : strtoll(cnt.s.c_str(), nullptr, 10), v = val.nil ? 0 : strtoll(val.s.c_str(), nullptr, 10);
    if(n < c.lastCounter || n > c.incrSent) VF_FAIL("raft:lost", "client " << c.me << ": the counter is " << n << " in the end; " << c.lastCounter << " was acknowledged, " << c.incrSent << " increments were sent");
    if(v < c.lastSetAcked || v > c.setSent) VF_FAIL("raft:lost", "client " << c.me << ": the value is " << v << " in the end; " << c.lastSetAcked << " was acknowledged, " << c.setSent << " was the last one sent");
    ctx().count("raft_acknowledged", c.acked);
    ctx().count("raft_unavailable", c.unavailable);
    ctx().count("raft_moved", c.moved);
    ctx().count("raft_replies", c.replies);
    ctx().count("raft_hangups", c.hangups);
    ctx().eval("rc" + std::to_string(c.acked) + ":" + std::to_string(c.unavailable) + ":" + std::to_string(c.moved));
  }
  ctx().count("raft_terms", st.getSnapshot()->term - term0);
  ctx().count("raft_coups", coups); ctx().count("raft_foreign_leaders", fakeLeaders); ctx().count("raft_truncations", truncated); ctx().count("raft_held_appends", holds);
  for(auto &c : cl) { shard->notifyDisconnect(c->p->conn.get()); c->p->hangup(); }
  cl.clear();
  shard.reset();
  if(!ctx().failed()) {   // what the clients were told is what the journal says: replay it
    RaftJournal *j = sd->getRaftJournal();
    StateMachine *sm = sd->getStateMachine();
    std::string rd = freshDir("raft-replay") + "/sm";
    {
      StateMachine twin(rd, false);
      Publisher pub;
      RedisDispatcher rdisp(twin, pub);
      for(int64_t i = 1; i <= sm->getLastApplied(); i++) {
        RaftEntry e;
        if(!j->fetch(i, e).ok()) { VF_FAIL("raft:journal", "entry " << i << " has been applied and is not in the journal"); break; }
        rdisp.dispatch(e.request, i);
      }
    }
    sd.reset();
    auto real = dataOf(dumpRaw(dir + "/current/state-machine")), twin = dataOf(dumpRaw(rd));
    VF_CHECK(real == twin, "raft:journal", "what is stored is not what applying the journal gives (" << real.size() << " and " << twin.size() << " records)");
    ctx().count("raft_replayed");
  }
  sd.reset();
}

// ---------------------------------------------------------------- a request stalled on a leadership which ends
static void stalled(int rounds) {
  for(int it = 0; it < rounds && !ctx().failed(); it++) {
    RaftServer me("me", 1);
    std::string dir = freshDir("stall") + "/n";
    RaftNode n(dir, {me, RaftServer("other", 2), RaftServer("third", 3)}, me);
    n.ascend();
    RaftDispatcher &d = n.d();
    Peer p;
    InFlightTracker trk {true};
    Rng g(ctx().seed * 7 + it);
    std::string bytes;
    int k = 1 + g.below(3);
    for(int i = 0; i < k; i++) bytes += wire(g.chance(50) ? std::vector<std::string>{"SET", "a", "b"} : std::vector<std::string>{"GET", "a"});
    p.send(bytes);
    std::atomic<bool> returned {false};
    std::thread th([&] { p.conn->processRequests(&d, trk); returned = true; });
    usleep(g.below(30000));
    int end = g.below(3);
    RaftTerm t = n.st().getSnapshot()->term;
    if(end == 0) { n.st().observed(t + 1, {}); n.st().becomeCandidate(t + 1); n.st().ascend(t + 1); n.j().setCommitIndex(n.j().getLogSize() - 1); }
    else if(end == 1) { n.st().observed(t + 1, RaftServer("other", 2)); }
    else n.j().setCommitIndex(n.j().getLogSize() - 1);
    bool ok = eventually([&] {
      // what was appended commits; what is queued on a follower is flushed by its director
      if(end != 1) n.j().setCommitIndex(n.j().getLogSize() - 1);
      p.pump();
      return returned && p.got.size() >= (size_t) k;
    }, 20000);
    VF_CHECK(ok, "stall:stuck", k << " requests stalled on a leadership marker got " << p.got.size() << " replies 20 s after " << (end == 0 ? "the node was elected once more and committed everything" : end == 1 ? "another leader was recognised" : "the marker was committed"));
    if(!ok) { fprintf(stderr, "stuck\n"); ctx().write(); _exit(3); }
    th.join();
    VF_CHECK(p.got.size() == (size_t) k, "stall:count", k << " requests got " << p.got.size() << " replies");
    for(auto &v : p.got) if(end == 1) VF_CHECK(v.type == '-', "stall:reply", "answered " << resp::show(v) << " by a node which follows another one");
    ctx().eval("st" + std::to_string(end) + std::to_string(k));
    ctx().count("stalled_requests", k);
    p.hangup();
  }
}

// ---------------------------------------------------------------- real sockets
static int tcpConnect(int port) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a {};
  a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
  if(connect(fd, (sockaddr*) &a, sizeof(a)) != 0) { ::close(fd); return -1; }
  int one = 1;
  setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
  return fd;
}
static int freePort() {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a {};
  a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  bind(fd, (sockaddr*) &a, sizeof(a));
  socklen_t l = sizeof(a);
  getsockname(fd, (sockaddr*) &a, &l);
  ::close(fd);
  return ntohs(a.sin_port);
}

static void tcp(int seconds, int kind) {
  BigNode n(freshDir("tcp") + "/n", kind);
  int port = freePort();
  std::unique_ptr<AsioPoller> poller(new AsioPoller(port, 3, n.node.get()));
  auto tEnd = std::chrono::steady_clock::now() + std::chrono::seconds(seconds);
  std::vector<std::thread> ths;
  std::atomic<uint64_t> total {0}, conns {0}, cuts {0};
  for(int i = 0; i < 6; i++) ths.emplace_back([&, i] {
    Rng g(ctx().seed * 71 + i);
    int64_t counter = 0, sentIncr = 0;
    std::string me = std::to_string(i);
    while(std::chrono::steady_clock::now() < tEnd && !ctx().failed()) {
      int fd = tcpConnect(port);
      if(fd < 0) { usleep(1000); continue; }
      if(g.chance(20)) { int sz = 4096; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof(sz)); }
      fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
      int batches = 1 + g.below(6);
      std::string mine = "t" + me + "_" + std::to_string(conns++);      // what an earlier connection left behind may still be executed
      bool dead = false;
      std::string rx;
      for(int b = 0; b < batches && !dead && !ctx().failed(); b++) {
        std::string bytes;
        std::deque<Sent> out;
        size_t k = 1 + g.below(g.chance(15) ? 600 : 30);
        for(size_t q = 0; q < k; q++) switch(g.below(6)) {
          case 0: out.push_back({0, 0, "p" + std::to_string(g.next())}); bytes += wire({"PING", out.back().text}); break;
          case 1: out.push_back({1, 0, "u" + std::to_string(g.next())}); bytes += wire({out.back().text}); break;
          case 2: { std::string v(g.below(g.chance(5) ? 200000 : 200), 'a' + q % 26); v += std::to_string(q); out.push_back({3, 0, ""}); bytes += wire({"SET", mine, v}); out.push_back({4, 0, v}); bytes += wire({"GET", mine}); break; }
          default: out.push_back({2, ++sentIncr, ""}); bytes += wire({"HINCRBY", "c" + me, "f", "1"});
        }
        bool cut = g.chance(8);           // leave in the middle
        size_t stopAt = cut ? g.below(bytes.size()) : bytes.size(), pos = 0;
        auto until = std::chrono::steady_clock::now() + std::chrono::seconds(40);
        int style = g.below(3);
        while((pos < stopAt || (!cut && !out.empty())) && !dead && std::chrono::steady_clock::now() < until) {
          pollfd pf {fd, (short) (POLLIN | (pos < stopAt ? POLLOUT : 0)), 0};
          poll(&pf, 1, 100);
          if(pos < stopAt && (pf.revents & POLLOUT)) {
            size_t z = std::min<size_t>(stopAt - pos, style == 0 ? 1 + g.below(9) : style == 1 ? 1 + g.below(3000) : stopAt);
            ssize_t w = ::send(fd, bytes.data() + pos, z, MSG_NOSIGNAL);
            if(w > 0) pos += w;
            else if(w < 0 && errno != EAGAIN) dead = true;
          }
          if(pf.revents & (POLLIN | POLLHUP | POLLERR)) {
            char buf[65536];
            ssize_t r = ::recv(fd, buf, sizeof(buf), 0);
            if(r == 0) { dead = true; }
            else if(r > 0) rx.append(buf, r);
            size_t at = 0;
            resp::Val v;
            int rc = 0;
            while((rc = resp::decode(rx, at, v)) == 1) {
              if(out.empty()) { VF_FAIL("tcp:extra", "a reply nobody asked for: " << resp::show(v)); break; }
              Sent s = out.front(); out.pop_front();
              bool ok = true;
              if(s.kind == 0) ok = v.type == '$' && v.s == s.text;
              else if(s.kind == 1) ok = v.type == '-' && v.s.find(s.text) != std::string::npos;
              else if(s.kind == 3) ok = v.type == '+';
              else if(s.kind == 4) ok = v.type == '$' && v.s == s.text;
              else { ok = v.type == ':' && v.i > counter && v.i <= s.num; counter = v.i; }
              if(!ok) { VF_FAIL("tcp:order", "over TCP, request kind " << s.kind << " '" << esc(s.text, 60) << "' is answered with " << resp::show(v).substr(0, 200)); break; }
              total++;
            }
            rx.erase(0, at);
            if(rc < 0) { VF_FAIL("tcp:stream", "malformed reply stream: '" << esc(rx, 100) << "'"); }
          }
          if(ctx().failed()) break;
        }
        if(dead && !ctx().failed()) VF_FAIL("tcp:closed", "the server closes the connection of a well-behaved client, " << out.size() << " requests unanswered");
        if(!cut && !out.empty() && !dead && !ctx().failed()) VF_FAIL("tcp:stuck", out.size() << " requests have no reply after 40 s, the first of kind " << out.front().kind);
        ctx().eval("tcp" + std::to_string(k) + ":" + std::to_string(style) + std::to_string(cut));
        if(cut) { cuts++; break; }
      }
      ::close(fd);
    }
  });
  for(auto &t : ths) t.join();
  ctx().count("tcp_replies", total); ctx().count("tcp_connections", conns); ctx().count("tcp_left_midway", cuts);
  poller.reset();
  n.node.reset();
}

int main(int argc, char **argv) {
  init(argc, argv);
  vf::quiet();
  Link::setConnectionLogging(false);
  std::string m = ctx().arg("mode", "pipeline");
  if(m == "pipeline") pipeline(ctx().n(700, 15), 0);
  else if(m == "pipeline-raft") pipeline(ctx().n(400, 15), 1);
  else if(m == "raft") raft(ctx().n(14, 15));
  else if(m == "stalled") stalled(ctx().n(12, 10));
  else if(m == "tcp") { tcp(ctx().n(6, 15), 0); }
  else if(m == "tcp-raft") { tcp(ctx().n(6, 15), 1); }
  return ctx().finish();
}
