// C03/C06/C07: a process applying log entries is killed at some write; the state machine it
// leaves behind must hold exactly the effects of the entries up to the index it reports.
#include "sm_model.hh"
#include "crashfs.hh"
#include <sys/wait.h>
using namespace vf;
using namespace quarkdb;
using namespace smm;

struct Entry {
  std::vector<Cmd> cmds;
  bool phantom = false, single = false, marker = false;
  std::string desc() const { std::string o = marker ? "marker" : single ? "" : phantom ? "(batch)" : "(multi)"; for(auto &c : cmds) o += " " + vf::show(c); return o; }
};

static Publisher *publisher;
enum { MIX, MULTI, LEASES };

static Entry generate(Rng &g, Gen &gen, int focus) {
  Entry e;
  int k = g.below(100);
  if(k < 5) { e.marker = true; e.cmds.push_back({"JOURNAL_LEADERSHIP_MARKER", "5", "node:1"}); return e; }
  if(focus == LEASES && k < 70) {
    Cmd c;
    do c = gen.write(); while(c[0].substr(0, 11) != "TIMESTAMPED");
    e.cmds.push_back(c); e.single = true; return e;
  }
  if(focus != MULTI && k < 50) { e.single = true; e.cmds.push_back(gen.write()); return e; }
  e.phantom = g.chance(focus == MULTI ? 25 : 50);
  size_t n = 2 + g.below(focus == MULTI ? 9 : 5);
  bool wr = false;
  for(size_t i = 0; i < n; i++) { Cmd c; do c = g.chance(80) ? gen.write() : gen.read(); while(!judged(c)); wr |= isWrite(c); e.cmds.push_back(c); }
  if(!wr) e.cmds.push_back({"SET", "k", "x"});
  return e;
}

// as the log applier hands it over
static std::string applyReal(Sut &s, const Entry &e, int64_t index) {
  RedisRequest r;
  if(e.single || e.marker) r = toReq(e.cmds[0]);
  else {
    Transaction tx;
    for(auto &c : e.cmds) tx.push_back(toReq(c));
    tx.setPhantom(e.phantom);
    r = tx.toRedisRequest();
    r.parseCommand();
  }
  return s.disp->dispatch(r, index).val;
}

static bool expectReply(const Entry &e, const std::vector<Val> &want, const std::string &raw, std::string &why) {
  std::vector<Val> got;
  if(!resp::many(raw, got)) { why = "malformed reply"; return false; }
  if(!e.single && !e.marker && !e.phantom) { if(got.size() != 1 || got[0].type != '*') { why = "not one array"; return false; } auto k = got[0].kids; got = k; }
  if(e.marker) return true;
  if(got.size() != want.size()) { why = "number of replies " + std::to_string(got.size()); return false; }
  for(size_t i = 0; i < want.size(); i++) {
    if(Model::lower(e.cmds[i][0]) == "hincrbymulti") continue;
    if(!agree(want[i], got[i])) { why = vf::show(e.cmds[i]) + " replied " + resp::show(got[i]) + ", expected " + resp::show(want[i]); return false; }
  }
  return true;
}

static std::vector<Val> applyModel(Model &m, const Entry &e) {
  std::vector<Val> out;
  m.begin();
  if(e.marker) return out;
  for(auto &c : e.cmds) out.push_back(m.apply(c));
  return out;
}

static int child(const std::string &path, const std::vector<Entry> &es, int64_t first, int64_t crashAt, int mode) {
  crashfs::sh->writes = 0; crashfs::sh->syncs = 0; crashfs::sh->crashAt = crashAt; crashfs::sh->mode = mode;
  crashfs::sh->progress = 0; crashfs::sh->started = 0;
  pid_t p = fork();
  if(p == 0) {
    Publisher *pub = new Publisher();
    Sut *s = new Sut(path, pub);
    crashfs::watchDir = path;
    crashfs::armed = true;
    for(size_t i = 0; i < es.size(); i++) {
      crashfs::sh->started = i + 1;
      applyReal(*s, es[i], first + i);
      crashfs::sh->progress = i + 1;
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

static void copyTree(const std::string &a, const std::string &b) {
  std::string cmd = "cp -a '" + a + "' '" + b + "'";
  if(system(cmd.c_str()) != 0) { fprintf(stderr, "VF-HARNESS-ERROR cp failed\n"); exit(2); }
}

// reopened: which entries are in?
static bool judge(const std::string &path, const std::vector<Model> &states, const std::vector<Entry> &es, int64_t base, int64_t done, int64_t started, const std::string &where, Rng &g) {
  auto bad = [&](const char *key, const std::string &msg) {
    std::string t;
    for(size_t i = 0; i < es.size(); i++) t += "\n   " + std::to_string(base + 1 + i) + ": " + es[i].desc();
    VF_FAIL(key, where << ": " << msg << t);
    return false;
  };
  try {
    Sut s(path, publisher);
    int64_t L = s.sm->getLastApplied() - base;
    if(L < done) return bad("kill:lost", "entries up to " + std::to_string(base + done) + " were applied, but the reopened state machine reports " + std::to_string(base + L));
    if(L > started) return bad("kill:ahead", "reports " + std::to_string(base + L) + " though at most " + std::to_string(base + started) + " was given");
    const Model &m = states[L];
    std::string w = m.checkDump(s.dump());
    if(!w.empty()) return bad("kill:state", "reports " + std::to_string(base + L) + " as last applied, but " + w);
    ClockValue cl = 0;
    s.sm->getClock(cl);
    if(cl != m.clock) return bad("kill:clock", "the replicated clock is " + std::to_string(cl) + " after entry " + std::to_string(base + L) + ", not " + std::to_string(m.clock));
    if(s.sm->getDynamicClock() < m.clock) return bad("kill:clock", "the dynamic clock restarts below the replicated one");
    ctx().count(L == done ? "in_flight_entry_absent" : "in_flight_entry_present");
    // other indices are refused and change nothing
    if(g.chance(30)) {
      for(int64_t wrong : {base + L, base + L + 2, base + L - 1, (int64_t) 0}) {
        if(wrong < 0 || (wrong == 0 && base + L == 0)) continue;
        RedisRequest q = toReq({"SET", "wrong", "wrong"});
        bool t = throws([&] { s.disp->dispatch(q, wrong); });
        if(!t) return bad("kill:wrong-index", "entry " + std::to_string(wrong) + " is accepted after entry " + std::to_string(base + L));
      }
      if(!m.checkDump(s.dump()).empty() || s.sm->getLastApplied() != base + L) return bad("kill:wrong-index-effect", "a refused entry had an effect");
      ctx().count("wrong_index_probes");
    }
    // carry on from there
    Model mm = m;
    int n = 0;
    for(int64_t i = L; i < (int64_t) es.size() && n < 4; i++, n++) {
      auto want = applyModel(mm, es[i]);
      std::string why, raw = applyReal(s, es[i], base + i + 1);
      if(!expectReply(es[i], want, raw, why)) return bad("kill:resume", "resuming, " + why);
      if(s.sm->getLastApplied() != base + i + 1) return bad("kill:resume-index", "last applied is " + std::to_string(s.sm->getLastApplied()) + " after entry " + std::to_string(base + i + 1));
    }
    w = mm.checkDump(s.dump());
    if(!w.empty()) return bad("kill:resume", "after resuming, " + w);
  } catch(const FatalException &e) {
    return bad("kill:open", std::string("does not come up any more: ") + e.what());
  }
  return true;
}

static void round(uint64_t seed, int nops, int focus, int budget, const std::string &dir) {
  Rng g(seed);
  Gen gen(g);
  gen.flush = g.chance(30);
  gen.goodArgs = g.chance(50);
  Model m;
  std::string base = dir + "/base", work = dir + "/work";
  vf::removeTree(base);
  int64_t first = 0;
  {
    Sut s(base, publisher);
    int warm = g.below(40);
    for(int i = 0; i < warm; i++) {
      Entry e = generate(g, gen, focus);
      auto want = applyModel(m, e);
      std::string why, raw = applyReal(s, e, ++first);
      if(!expectReply(e, want, raw, why)) { VF_FAIL("kill:warm", why); return; }
      if(s.sm->getLastApplied() != first) { VF_FAIL("kill:index", "last applied is " << s.sm->getLastApplied() << " after entry " << first << ": " << e.desc()); return; }
      ctx().count("entries_applied");
    }
  }
  std::vector<Entry> es;
  std::vector<Model> states{m};
  for(int i = 0; i < nops; i++) {
    es.push_back(generate(g, gen, focus));
    applyModel(m, es.back());
    states.push_back(m);
  }
  vf::removeTree(work);
  copyTree(base, work);
  ctx().current("seed " + std::to_string(seed));
  int rc = child(work, es, first + 1, -1, 0);
  if(rc != 0) { VF_FAIL("kill:child", "child ended with " << rc << " applying " << nops << " entries, seed " << seed); return; }
  int64_t total = crashfs::sh->writes;
  if(!judge(work, states, es, first, nops, nops, "ended without closing", g)) return;
  int64_t step = std::max<int64_t>(1, (total + budget - 1) / budget);
  for(int64_t k = g.below(step); k < total; k += step) {
    int mode = g.below(3);
    vf::removeTree(work);
    copyTree(base, work);
    rc = child(work, es, first + 1, k, mode);
    int64_t done = crashfs::sh->progress, started = crashfs::sh->started;
    static const char *mn[] = {"before", "after", "in the middle of"};
    std::string where = std::string("killed ") + mn[mode] + " write " + std::to_string(k) + " of " + std::to_string(total) + ", in entry " + std::to_string(first + started);
    ctx().current(where);
    if(rc != 77) { VF_FAIL("kill:child", "child ended with " << rc << ", " << where); return; }
    if(!judge(work, states, es, first, done, started, where, g)) return;
    ctx().eval("kill" + std::to_string(seed) + ":" + std::to_string(k) + ":" + std::to_string(mode));
    ctx().count("crash_points");
    ctx().count(std::string("crash_") + (mode == 0 ? "before" : mode == 1 ? "after" : "torn"));
  }
  // once more on what is there already: applying again is refused
  ctx().sample("crash points 0.." + std::to_string(total) + " while applying " + es[0].desc() + "; " + es[1].desc());
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  publisher = new Publisher();
  crashfs::sh = crashfs::share();
  int n = ctx().iarg("n", 4), nops = ctx().iarg("ops", 12), budget = ctx().iarg("points", 20);
  std::string f = ctx().arg("focus", "mix");
  int focus = f == "multi" ? MULTI : f == "leases" ? LEASES : MIX;
  for(int i = 0; i < n && !ctx().failed(); i++) round(ctx().seed * 7919 + i * 31 + focus * 100003, nops, focus, budget, freshDir("kill"));
  return ctx().finish();
}
