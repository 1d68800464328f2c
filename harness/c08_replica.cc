// C08: replicas that apply the same log are identical; bulk load; reset.
#include "sm_model.hh"
#include <dlfcn.h>
#include <time.h>
#include <sys/wait.h>
using namespace vf;
using namespace quarkdb;
using namespace smm;

// the wall clock of each replica differs
static thread_local int64_t skew = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  static int (*real)(clockid_t, struct timespec*) = (int (*)(clockid_t, struct timespec*)) dlsym(RTLD_NEXT, "clock_gettime");
  int rc = real(id, ts);
  if(id == CLOCK_REALTIME) ts->tv_sec += skew;
  return rc;
}

struct Entry { std::vector<Cmd> cmds; int kind; };   // 0: single, 1: batch, 2: transaction, 3: marker

static std::string apply(Sut &s, const Entry &e, int64_t index, bool asRequest) {
  if(e.kind == 0 || e.kind == 3) {
    RedisRequest r = toReq(e.cmds[0]);
    return s.disp->dispatch(r, index).val;
  }
  Transaction tx;
  for(auto &c : e.cmds) tx.push_back(toReq(c));
  tx.setPhantom(e.kind == 1);
  if(asRequest) { RedisRequest r = tx.toRedisRequest(); r.parseCommand(); return s.disp->dispatch(r, index).val; }
  return s.disp->dispatch(tx, index).val;
}
static Entry generate(Rng &g, Gen &gen) {
  Entry e;
  int k = g.below(100);
  if(k < 4) { e.kind = 3; e.cmds.push_back({"JOURNAL_LEADERSHIP_MARKER", "3", "n:1"}); return e; }
  if(k < 50) { e.kind = 0; e.cmds.push_back(gen.write()); return e; }
  e.kind = k < 75 ? 1 : 2;
  bool wr = false;
  for(size_t i = 1 + g.below(6); i > 0; i--) { Cmd c; do c = g.chance(75) ? gen.write() : gen.read(); while(!judged(c)); wr |= isWrite(c); e.cmds.push_back(c); }
  if(!wr) e.cmds.push_back({"SET", "k", "v"});
  return e;
}
static std::string diff(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) {
  for(auto &x : a) { auto it = b.find(x.first); if(it == b.end()) return "record '" + esc(x.first) + "' = '" + esc(x.second) + "' is only in the first"; if(it->second != x.second) return "record '" + esc(x.first) + "' is '" + esc(x.second) + "' in the first, '" + esc(it->second) + "' in the second"; }
  for(auto &x : b) if(!a.count(x.first)) return "record '" + esc(x.first) + "' = '" + esc(x.second) + "' is only in the second";
  return "";
}
static std::string show(const std::vector<Entry> &es) { std::string o; for(size_t i = es.size() > 30 ? es.size() - 30 : 0; i < es.size(); i++) { o += "\n   "; for(auto &c : es[i].cmds) o += vf::show(c) + " "; } return o; }

static bool replicas(uint64_t seed, int len) {
  Rng g(seed);
  Gen gen(g);
  gen.flush = g.chance(30);
  Publisher pubA, pubB;
  std::string dir = freshDir("rep");
  Sut A(dir + "/a", &pubA);
  std::unique_ptr<Sut> B(new Sut(dir + "/b", &pubB));
  std::vector<Entry> es;
  std::vector<std::string> replies;
  std::string shape;
  auto bad = [&](const std::string &key, const std::string &msg) { VF_FAIL(key, msg << "\n  after" << show(es)); return false; };
  for(int i = 0; i < len; i++) {
    es.push_back(generate(g, gen));
    ctx().current(show(es));
    skew = 0;
    replies.push_back(apply(A, es.back(), i + 1, g.chance(50)));
    shape += char('0' + es.back().kind);
    for(auto &c : es.back().cmds) shape += c[0].substr(0, 4);
  }
  // later, elsewhere, with another clock, restarted now and then, and bothered by readers
  std::atomic<bool> stop {false};
  skew = g.chance(50) ? -400000000 : 100000000 * g.range(1, 20);
  std::unique_ptr<std::thread> noise;
  std::mutex gate;
  if(g.chance(40)) noise.reset(new std::thread([&, seed] {
    Rng g2(seed + 1); Gen gen2(g2);
    while(!stop) {
      Cmd c = gen2.read();
      std::scoped_lock l(gate);
      RedisRequest q = toReq(c);
      B->disp->dispatch(q, 0);
      ctx().count("reads_meanwhile");
    }
  }));
  bool ok = true;
  for(int i = 0; i < len && ok; i++) {
    if(g.chance(5)) { std::scoped_lock l(gate); B->reopen(); ctx().count("restarts"); }
    if(g.chance(2)) { std::scoped_lock l(gate); B->sm->manualCompaction(); ctx().count("compactions"); }
    if(g.chance(2)) { usleep(g.below(20000)); B->sm->hardSynchronizeDynamicClock(); }
    std::unique_lock l(gate);
    std::string r = apply(*B, es[i], i + 1, g.chance(50));
    ctx().count("entries_applied_twice");
    if(r != replies[i]) ok = bad("replica:reply", "entry " + std::to_string(i + 1) + " is answered '" + esc(replies[i]) + "' by one replica and '" + esc(r) + "' by another");
  }
  stop = true;
  if(noise) noise->join();
  skew = 0;
  if(!ok) return false;
  std::string d = diff(A.dump(), B->dump());
  if(!d.empty()) return bad("replica:state", "two replicas differ: " + d);
  ClockValue ca, cb;
  A.sm->getClock(ca); B->sm->getClock(cb);
  if(ca != cb || A.sm->getLastApplied() != B->sm->getLastApplied()) return bad("replica:state", "clocks or last applied differ");
  ctx().count("records_compared", A.dump().size());

  // reset: like new, then the same log again
  std::map<std::string, std::string> fresh;
  { Sut F(dir + "/f", &pubB); fresh = F.dump(); }
  A.sm->reset();
  d = diff(fresh, A.dump());
  if(!d.empty()) return bad("reset:remains", "a reset state machine differs from a new one: " + d);
  if(A.sm->getLastApplied() != 0) return bad("reset:index", "last applied is " + std::to_string(A.sm->getLastApplied()) + " after a reset");
  A.sm->getClock(ca);
  if(ca != 0 ) return bad("reset:clock", "the clock is " + std::to_string(ca) + " after a reset");
  ctx().count("resets");
  if(g.chance(50)) A.reopen();
  for(int i = 0; i < len; i++) {
    std::string r = apply(A, es[i], i + 1, false);
    if(r != replies[i]) return bad("reset:reply", "after a reset, entry " + std::to_string(i + 1) + " is answered '" + esc(r) + "' instead of '" + esc(replies[i]) + "'");
  }
  d = diff(B->dump(), A.dump());
  if(!d.empty()) return bad("reset:state", "after a reset and the same log again: " + d);
  ctx().eval(shape);
  ctx().sample(show(es));
  return true;
}

static bool bulk(uint64_t seed, int len) {
  Rng g(seed);
  Gen gen(g);
  Publisher pub;
  std::string dir = freshDir("bulk");
  std::vector<Cmd> cs;
  // each key keeps to one type, each field of a locality hash to one hint
  std::vector<std::string> keys = gen.keys, fields = gen.fields, values = gen.values, hints = gen.hints;
  std::map<std::string, std::string> hintOf;
  std::string shape;
  for(int i = 0; i < len; i++) {
    size_t kx = g.below(keys.size());
    std::string key = keys[kx];
    auto hint = [&](const std::string &f) { auto &h = hintOf[std::to_string(key.size()) + ":" + key + f]; if(h.empty()) do h = g.pick(hints); while(h.empty()); return h; };
    auto field = [&] { return g.chance(60) ? g.pick(fields) : "f" + std::to_string(g.below(500)); };
    Cmd c;
    switch((vf::hash64(key) ^ seed) % 4) {
      case 0: c = {"SET", key, g.pick(values)}; break;
      case 1: if(g.chance(50)) c = {"HSET", key, field(), g.pick(values)}; else { c = {"HMSET", key}; for(size_t j = 1 + g.below(4); j > 0; j--) { c.push_back(field()); c.push_back(g.pick(values)); } } break;
      case 2: c = {"SADD", key}; for(size_t j = 1 + g.below(4); j > 0; j--) c.push_back(field()); break;
      default: { if(key.empty()) key = "lh"; std::string f; do f = field(); while(f.empty()); c = {"LHSET", key, f, hint(f), g.pick(values)}; }
    }
    if(key.empty() && c[0] == "LHSET") continue;
    shape += c[0].substr(0, 3) + std::to_string(kx);
    cs.push_back(c);
  }
  ctx().current(smm::show(cs, 60));
  Model m;
  std::map<std::string, std::string> normal, loaded;
  {
    Sut N(dir + "/n", &pub);
    for(auto &c : cs) { m.apply(c); RedisRequest r = toReq(c); N.disp->dispatch(r, 0); }
    normal = N.dump();
  }
  {
    StateMachine sm(dir + "/b", g.chance(50), true);
    RedisDispatcher disp(sm, pub);
    if(!sm.inBulkLoad()) { VF_FAIL("bulk:mode", "not in bulk load mode"); return false; }
    for(size_t i = 0; i < cs.size();) {
      if(g.chance(30)) {
        Transaction tx;
        for(size_t n = 1 + g.below(10); n > 0 && i < cs.size(); n--) tx.push_back(toReq(cs[i++]));
        tx.setPhantom(g.chance(80));
        disp.dispatch(tx, 0);
      }
      else { RedisRequest r = toReq(cs[i++]); disp.dispatch(r, 0); }
    }
    sm.finalizeBulkload();
  }
  bool refused = throws([&] { StateMachine again(dir + "/b", true, true); });
  if(!refused) { VF_FAIL("bulk:reopen", "an existing database is opened in bulk load mode"); return false; }
  {
    Sut L(dir + "/b", &pub);
    loaded = L.dump();
    std::string d = diff(normal, loaded);
    if(!d.empty()) { VF_FAIL("bulk:state", "written normally (first) and bulk loaded (second): " << d << "\n after" << smm::show(cs, 40)); return false; }
    for(auto &c : Gen::readAll(m)) {
      Val want = m.apply(c), got;
      RedisRequest q = toReq(c);
      resp::one(L.disp->dispatch(q, 0).val, got);
      if(!agree(want, got)) { VF_FAIL("bulk:read", "bulk loaded, " << vf::show(c) << " replies " << resp::show(got) << ", expected " << resp::show(want)); return false; }
    }
    // and it behaves like any other from now on
    Gen more(g);
    std::vector<Cmd> hist;
    for(int i = 0; i < 60; i++) {
      Cmd c; do c = g.chance(70) ? more.write() : more.read(); while(!judged(c) || Model::lower(c[0]) == "hincrbymulti");
      hist.push_back(c);
      m.begin();
      Val want = m.apply(c), got;
      RedisRequest q = toReq(c);
      resp::one(L.disp->dispatch(q, 0).val, got);
      if(!agree(want, got)) { VF_FAIL("bulk:later", "bulk loaded, later " << vf::show(c) << " replies " << resp::show(got) << ", expected " << resp::show(want) << "\n after" << smm::show(hist)); return false; }
    }
    std::string w = m.checkDump(L.dump());
    if(!w.empty()) { VF_FAIL("bulk:later", "after more commands: " << w); return false; }
  }
  ctx().count("bulk_loads");
  ctx().count("bulk_records", loaded.size());
  ctx().eval("bulk" + shape);
  ctx().sample("bulk load of" + smm::show(cs, 8));
  return true;
}

// types whose descriptor carries more than a count
static void unsupported() {
  Publisher pub;
  std::string dir = freshDir("bu");
  std::vector<Cmd> cs = {{"DEQUE_PUSH_BACK", "q", "a"}, {"VHSET", "v", "f", "x"}, {"TIMESTAMPED_LEASE_ACQUIRE", "l", "h", "1000", be64(5)}};
  std::vector<Cmd> reads = {{"DEQUE_POP_FRONT", "q"}, {"VHGETALL", "v"}, {"TIMESTAMPED_LEASE_GET", "l", be64(6)}};
  for(size_t i = 0; i < cs.size(); i++) {
    Model m;
    std::string p = dir + "/" + std::to_string(i), why;
    bool refused = false;
    pid_t pid = fork();
    if(pid == 0) {
      close(2);
      int rc = 1;
      try {
        Publisher *pp = new Publisher();
        { StateMachine sm(p, true, true); RedisDispatcher disp(sm, *pp); RedisRequest r = toReq(cs[i]); Val v; resp::one(disp.dispatch(r, 0).val, v); if(v.type == '-') _exit(0); sm.finalizeBulkload(); }
        Sut L(p, pp);
        m.apply(cs[i]);
        Val want = m.apply(reads[i]), got;
        RedisRequest q = toReq(reads[i]);
        resp::one(L.disp->dispatch(q, 0).val, got);
        rc = agree(want, got) ? 0 : 1;
      } catch(...) { rc = 1; }
      _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    (void) refused;
    ctx().eval("unsupported" + std::to_string(i));
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) VF_FAIL("bulk:unsupported-type:" + cs[i][0], vf::show(cs[i]) << " in bulk load mode is neither refused nor equivalent to the normal write");
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "replicas");
  if(mode == "replicas") { int n = ctx().n(60, 20); for(int i = 0; i < n && !ctx().failed(); i++) replicas(ctx().seed * 4001 + i, 80); }
  else { unsupported(); int n = ctx().n(40, 20); for(int i = 0; i < n; i++) if(!bulk(ctx().seed * 5003 + i, 150)) break; }
  return ctx().finish();
}
