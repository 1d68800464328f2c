// C01/C02 (and the sequential part of C03): random commands, batches and transactions on a
// state machine against the reference model: replies, effects, sizes, records, restarts.
#include "sm_model.hh"
using namespace vf;
using namespace quarkdb;
using namespace smm;

static Publisher *publisher;

struct Run {
  Rng g;
  Gen gen;
  Model m;
  Sut sut;
  std::vector<Cmd> hist;
  bool indexed;
  int64_t index = 0;
  bool dumps;
  std::string shape;
  bool stop = false;
  int multiPct = 0;      // extra transactions

  Run(uint64_t seed, const std::string &path, bool dumpsEach) : g(seed), gen(g), sut(path, publisher), dumps(dumpsEach) {
    indexed = g.chance(60);
    gen.flush = g.chance(70);
  }

  void bad(const std::string &key, const std::string &msg) {
    VF_FAIL(key, msg << "\n  after" << smm::show(hist));
    stop = true;
  }
  std::string name(const Cmd &c) { std::string n = Model::lower(c[0]); for(char &ch : n) if(ch == '-') ch = '_'; return n; }

  bool compare(const Cmd &c, const Val &want, const Val &got, const char *where) {
    if(name(c) == "hincrbymulti" && m.swallowed) {
      m.swallowed = false;
      if(got.type == ':') { if(ctx().arg("swallow") != "ignore") VF_FAIL("model:hincrbymulti-error", vf::show(c) << " ignores that one of its increments is not possible and replies " << resp::show(got)); return true; }
    }
    m.swallowed = false;
    shape += name(c).substr(0, 6) + (want.type == '-' ? "-" : "+");
    if(agree(want, got)) return true;
    bad("model:" + name(c), std::string(where) + vf::show(c) + " replied " + resp::show(got) + ", expected " + resp::show(want));
    return false;
  }
  Val decode(const RedisEncodedResponse &r) {
    Val v;
    if(!resp::one(r.val, v)) bad("model:malformed", "malformed reply '" + esc(r.val) + "'");
    return v;
  }

  void committed() {
    ctx().count("commits");
    if(indexed) {
      if(sut.sm->getLastApplied() != index) bad("model:last-applied", "last applied is " + std::to_string(sut.sm->getLastApplied()) + " after committing entry " + std::to_string(index));
    }
    else if(sut.sm->getLastApplied() != 0) bad("model:last-applied", "last applied changed without an index");
    if(dumps || g.chance(10)) checkDump();
  }
  void checkDump() {
    ctx().count("database_dumps_checked");
    std::string w = m.checkDump(sut.dump());
    if(!w.empty()) {
      std::string kind = w.substr(0, w.find(' '));
      bad("state:" + kind, w);
    }
  }
  LogIndex next() { return indexed ? ++index : 0; }

  void single(const Cmd &c, bool phantom) {
    hist.push_back(c);
    ctx().current(smm::show(hist, 40));
    m.begin();
    Val want = m.apply(c);
    bool wr = isWrite(c);
    RedisEncodedResponse r;
    if(phantom) {
      Transaction tx(toReq(c));
      if(tx.containsWrites() != wr || !tx.isPhantom()) bad("model:transaction-class", "a transaction of " + vf::show(c) + " does not know whether it writes");
      r = sut.disp->dispatch(tx, wr ? next() : 0);
    }
    else {
      RedisRequest q = toReq(c);
      r = sut.disp->dispatch(q, wr ? next() : 0);
    }
    Val got = decode(r);
    if(stop) return;
    compare(c, want, got, "");
    if(wr && !stop) committed();
    ctx().count(wr ? "single_writes" : "single_reads");
  }

  void multi(bool phantom, int readPct) {
    Transaction tx;
    std::vector<Cmd> cmds;
    std::vector<Val> want;
    bool wr = false;
    size_t n = 1 + g.below(phantom ? 5 : 7);
    m.begin();
    for(size_t i = 0; i < n; i++) {
      Cmd c;
      do c = g.chance(readPct) ? gen.read() : gen.write(); while(!judged(c));
      // rather look at what was just written
      if(!cmds.empty() && !isWrite(c) && c.size() > 1 && g.chance(60) && cmds.back().size() > 1) c[1] = cmds.back()[1];
      if(!judged(c)) { i--; continue; }
      if(isWrite(c)) wr = true;
      cmds.push_back(c);
    }
    hist.push_back({phantom ? "(batch" : "(multi", std::to_string(cmds.size())});
    for(auto &c : cmds) hist.push_back(c);
    ctx().current(smm::show(hist, 40));
    std::vector<bool> sw;
    for(auto &c : cmds) { want.push_back(m.apply(c)); sw.push_back(m.swallowed); m.swallowed = false; }
    if(g.chance(50)) for(auto &c : cmds) tx.push_back(toReq(c));
    else {
      // as it arrives through the raft log
      Transaction src;
      for(auto &c : cmds) src.push_back(toReq(c));
      src.setPhantom(phantom);
      if(!tx.deserialize(src.toRedisRequest()) && cmds.size() > 1) { bad("model:deserialize", "a serialized transaction is refused"); return; }
      if(tx.size() != cmds.size()) { tx.clear(); for(auto &c : cmds) tx.push_back(toReq(c)); }
    }
    tx.setPhantom(phantom);
    if(tx.containsWrites() != wr) bad("model:transaction-class", "a transaction does not know whether it writes");
    if(tx.expectedResponses() != (phantom ? (int64_t) cmds.size() : 1)) bad("model:expected-responses", "a transaction announces " + std::to_string(tx.expectedResponses()) + " replies");
    RedisEncodedResponse r = sut.disp->dispatch(tx, wr ? next() : 0);
    std::vector<Val> got;
    if(phantom) { if(!resp::many(r.val, got)) bad("model:malformed", "malformed reply '" + esc(r.val) + "'"); }
    else { Val v = decode(r); if(v.type != '*') bad("model:malformed", "a transaction replied " + resp::show(v)); got = v.kids; }
    if(stop) return;
    if(got.size() != want.size()) { bad("model:reply-count", std::to_string(want.size()) + " commands got " + std::to_string(got.size()) + " replies"); return; }
    for(size_t i = 0; i < want.size() && !stop; i++) { m.swallowed = sw[i]; compare(cmds[i], want[i], got[i], phantom ? "in a batch, " : "in a transaction, "); }
    if(wr && !stop) committed();
    ctx().count(phantom ? "batches" : wr ? "rw_transactions" : "ro_transactions");
    shape += phantom ? "B" : "T";
  }

  void readAll() {
    for(auto &c : Gen::readAll(m)) {
      Val want = m.apply(c);
      RedisRequest q = toReq(c);
      Val got = decode(sut.disp->dispatch(q, 0));
      if(stop) return;
      if(!agree(want, got)) { bad("model:" + name(c), "reading everything, " + vf::show(c) + " replied " + resp::show(got) + ", expected " + resp::show(want)); return; }
      ctx().count("full_read_commands");
    }
  }

  void steps(int n) {
    for(int i = 0; i < n && !stop; i++) {
      int k = g.below(100);
      if(g.chance(multiPct)) { multi(g.chance(30), 40); continue; }
      if(k < 45) single(gen.write(), g.chance(50));
      else if(k < 62) { Cmd c; do c = gen.read(); while(!judged(c)); single(c, g.chance(30)); }
      else if(k < 72) multi(true, 0);
      else if(k < 90) multi(false, 40);
      else if(k < 94) multi(false, 100);
      else if(k < 98) readAll();
      else {
        hist.push_back({"(reopen)"});
        ctx().current(smm::show(hist, 40));
        sut.reopen();
        ctx().count("reopens");
        if(indexed && sut.sm->getLastApplied() != index) bad("model:last-applied", "last applied is " + std::to_string(sut.sm->getLastApplied()) + " after reopening, not " + std::to_string(index));
        checkDump();
        readAll();
        shape += "R";
      }
    }
    if(!stop) readAll();
    if(!stop) checkDump();
    // everything goes away with its keys
    if(!stop && g.chance(50)) {
      std::vector<std::string> ks;
      for(auto &k : m.keys) ks.push_back(k.first);
      if(g.chance(50) && !ks.empty()) { Cmd c{"DEL"}; for(auto &k : ks) c.push_back(k); single(c, g.chance(50)); }
      else single({"FLUSHALL"}, g.chance(50));
      if(!stop && !m.keys.empty()) { fprintf(stderr, "VF-HARNESS-ERROR model keeps keys\n"); _exit(2); }
      if(!stop) checkDump();
    }
    ctx().count("keys_alive_at_end", m.keys.size());
    ctx().count("leases_expired", m.expired);
  }
};

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  publisher = new Publisher();
  int n = ctx().iarg("n", 40), len = ctx().iarg("len", 120);
  bool dumps = ctx().arg("dumps") == "each";
  for(int i = 0; i < n && !ctx().failed("crash"); i++) {
    std::string dir = freshDir("sm");
    Run r(ctx().seed * 1000003 + i * 7 + (dumps ? 500000 : 0), dir + "/db", dumps);
    r.multiPct = ctx().iarg("multi", 0);
    r.steps(len);
    ctx().eval(r.shape);
    if(i < 3) ctx().sample(smm::show(r.hist, 12));
    if(ctx().violations.size() > 6) break;
  }
  return ctx().finish();
}
