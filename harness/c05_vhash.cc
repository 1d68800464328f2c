// C05: versioned hashes: revisions, and what subscribers are told.
#include "sm_model.hh"
#include "peer.hh"
#include "storage/VersionedHashRevisionTracker.hh"
using namespace vf;
using namespace quarkdb;
using namespace smm;

typedef std::map<std::string, std::string> Fields;

// payload of a revision: number and updates in order, an empty value deletes
static bool parseRevision(const Val &v, uint64_t &num, std::vector<std::pair<std::string, std::string>> &ups) {
  if(v.type != '*' || v.kids.size() != 2 || v.kids[0].type != ':' || v.kids[1].type != '*' || v.kids[1].kids.size() % 2) return false;
  num = (uint64_t) v.kids[0].i;
  for(size_t i = 0; i < v.kids[1].kids.size(); i += 2) {
    auto &a = v.kids[1].kids[i], &b = v.kids[1].kids[i+1];
    if(a.type != '$' || b.type != '$' || a.nil || b.nil) return false;
    ups.emplace_back(a.s, b.s);
  }
  return true;
}
static Fields fold(const std::vector<std::pair<std::string, std::string>> &u) { Fields f; for(auto &x : u) f[x.first] = x.second; return f; }
static std::string showF(const Fields &f) { std::string o = "{"; for(auto &x : f) o += " '" + esc(x.first, 40) + "'='" + esc(x.second, 40) + "'"; return o + " }"; }

// -------------------------------------------------------------- the tracker alone
static void tracker(int n) {
  for(int it = 0; it < n && ctx().violations.size() < 4; it++) {
    Rng g(ctx().seed * 997 + it);
    VersionedHashRevisionTracker t;
    std::map<std::string, std::pair<uint64_t, std::vector<std::pair<std::string, std::string>>>> m;
    std::string shape, trace;
    int ops = 1 + g.below(30);
    std::vector<std::string> keys = {"a", "b", "", std::string("a\0", 2), g.bytes(30), std::string(100, 'x')};
    uint64_t rev = 1 + g.below(5);
    for(int i = 0; i < ops; i++) {
      int k = g.below(12);
      // names in short-lived buffers: nothing may keep pointing at them
      std::unique_ptr<std::string> key(new std::string(g.pick(keys))), f(new std::string(g.bytes(40))), v(new std::string(g.chance(30) ? "" : g.bytes(60)));
      trace += " " + std::to_string(k) + "'" + esc(*key, 10) + "'";
      ctx().current(trace);
      if(k < 8) {
        uint64_t r = rev + vf::hash64(*key) % 3;
        auto &x = t.forKey(*key);
        x.setRevisionNumber(r);
        x.addUpdate(*f, *v);
        m[*key].first = r;
        m[*key].second.emplace_back(*f, *v);
        shape += "u";
      }
      else if(k == 8) { t.drop(*key); m.erase(*key); shape += "d"; }
      else if(k == 9) { if(g.chance(20)) { t.clear(); m.clear(); shape += "c"; } }
      else if(k == 10) { VersionedHashRevisionTracker u(std::move(t)); t.clear(); std::swap(t, u); shape += "m"; }
      else if(!m.empty()) {
        auto x = m.begin();
        std::advance(x, g.below(m.size()));
        bool same = g.chance(50);
        bool th = throws([&] { t.forKey(x->first).setRevisionNumber(x->second.first + (same ? 0 : 1)); });
        VF_CHECK(th == !same, "vhash:tracker", "changing the number of a revision is " << (th ? "refused" : "accepted"));
        shape += "r";
      }
      if(t.empty() != m.empty()) { VF_FAIL("vhash:tracker", "empty() is " << t.empty() << " after" << trace); break; }
      size_t c = 0;
      for(auto x = t.begin(); x != t.end(); ++x, ++c) {
        if(!m.count(x->first)) { VF_FAIL("vhash:tracker", "tracks '" << esc(x->first) << "' after" << trace); break; }
        Val val; uint64_t num; std::vector<std::pair<std::string, std::string>> u;
        if(!resp::one(x->second.serialize(), val) || !parseRevision(val, num, u)) { VF_FAIL("vhash:tracker", "malformed revision " << esc(x->second.serialize())); break; }
        auto &w = m[x->first];
        if(num != w.first || u != w.second) { VF_FAIL("vhash:tracker", "'" << esc(x->first) << "' serializes to " << resp::show(val) << ", expected revision " << w.first << " with " << w.second.size() << " updates " << showF(fold(w.second)) << " after" << trace); break; }
      }
      if(c != m.size()) VF_FAIL("vhash:tracker", "tracks " << c << " keys instead of " << m.size() << " after" << trace);
    }
    ctx().eval("t" + shape);
    ctx().count("tracker_operations", ops);
  }
}

// -------------------------------------------------------------- end to end
struct Sub {
  Peer p;
  std::string name;
  std::set<std::string> channels;
  bool pattern = false, push = false;
  bool wants(const std::string &key) { return pattern || channels.count(key); }
  std::map<std::string, Fields> replica;
  std::map<std::string, uint64_t> at;
};
struct Expect { std::string key; uint64_t number; Fields updates; bool whole; };

static bool endToEnd(uint64_t seed, int len) {
  Rng g(seed);
  std::unique_ptr<Publisher> pub(new Publisher());
  std::string dir = freshDir("vh");
  std::unique_ptr<Sut> sut(new Sut(dir + "/db", pub.get()));
  Model m;
  std::vector<std::string> keys = {"v", "v1", "", "v#", std::string("v\0x", 3), "\xff"};
  keys.resize(1 + g.below(keys.size()));
  std::vector<std::string> fields = {"f", "g", "", "f#", std::string("\0", 1), std::string(300, 'F')};
  std::deque<Sub> subs;
  std::vector<Cmd> hist;
  bool indexed = g.chance(60);
  int64_t index = 0;
  std::string shape;
  auto bad = [&](const std::string &key, const std::string &msg) { VF_FAIL(key, msg << "\n  after" << smm::show(hist, 40)); return false; };
  auto addSub = [&](int kind) {
    subs.emplace_back();
    Sub &s = subs.back();
    s.name = std::string(kind == 0 ? "channel" : kind == 1 ? "pattern" : "partial") + std::to_string(subs.size());
    s.push = g.chance(50);
    if(s.push) s.p.conn->activatePushTypes();
    Cmd c;
    if(kind == 1) { s.pattern = true; c = {"PSUBSCRIBE", "__vhash@*"}; }
    else { c = {"SUBSCRIBE"}; for(auto &k : keys) if(kind == 0 || g.chance(50)) { s.channels.insert(k); c.push_back("__vhash@" + k); } if(c.size() == 1) { c.push_back("__vhash@" + keys[0]); s.channels.insert(keys[0]); } }
    RedisRequest r = toReq(c);
    pub->dispatch(s.p.conn.get(), r);
    s.p.conn->flush();
    size_t n = c.size() - 1 + (s.push ? 1 : 0);
    if(!s.p.await(n)) return bad("vhash:subscribe", "no confirmation of a subscription");
    s.p.got.clear();
    return true;
  };
  for(int k = 0; k < 3; k++) if(!addSub(k)) return false;

  for(int step = 0; step < len && !ctx().failed(); step++) {
    int n = g.chance(30) ? 1 : 1 + g.below(8);
    bool phantom = n == 1 || g.chance(40);
    std::vector<Cmd> cs;
    bool wr = false;
    for(int i = 0; i < n; i++) {
      int k = g.below(100);
      std::string key = g.pick(keys);
      Cmd c;
      auto val = [&] { return g.chance(5) ? std::string(5000, 'v') : "v" + std::to_string(g.below(1000)) + g.bytes(3); };
      if(k < 50) c = {"VHSET", key, g.pick(fields), val()};
      else if(k < 75) { c = {"VHDEL", key}; for(size_t j = 1 + g.below(3); j > 0; j--) c.push_back(g.pick(fields)); }
      else if(k < 80) c = {"VHGETALL", key};
      else if(k < 84) c = {"VHLEN", key};
      else if(k < 89) c = {"DEL", key};
      else if(k < 91) c = {"FLUSHALL"};
      else if(k < 94) c = {"SET", key, "x"};
      else if(k < 96) c = {"HSET", key, "f", "x"};
      else if(k < 98) c = {"VHSET", key, "f"};
      else c = {"VHDEL", key};
      wr |= isWrite(c);
      cs.push_back(c);
    }
    hist.push_back({phantom ? "(batch" : "(multi", std::to_string(n)});
    for(auto &c : cs) hist.push_back(c);
    ctx().current(smm::show(hist, 30));
    m.begin();
    std::map<std::string, uint64_t> before;
    for(auto &k : m.keys) if(k.second.type == VHASH) before[k.first] = k.second.version;
    std::vector<Val> want;
    for(auto &c : cs) want.push_back(m.apply(c));
    Transaction tx;
    for(auto &c : cs) tx.push_back(toReq(c));
    tx.setPhantom(phantom);
    std::vector<Val> got;
    std::string raw = sut->disp->dispatch(tx, wr && indexed ? ++index : 0).val;
    // nothing may depend on the requests any more
    tx.clear();
    if(!resp::many(raw, got)) return bad("vhash:malformed", "malformed reply");
    if(!phantom) { auto k = got[0].kids; got = k; }
    if(got.size() != want.size()) return bad("vhash:replies", "number of replies");
    for(size_t i = 0; i < want.size(); i++) {
      shape += cs[i][0].substr(0, 3) + (want[i].type == '-' ? "-" : "+");
      if(!agree(want[i], got[i])) return bad("vhash:reply", vf::show(cs[i]) + " replied " + resp::show(got[i]) + ", expected " + resp::show(want[i]));
    }
    shape += phantom ? "b" : "m";
    std::vector<Expect> ex;
    for(auto &r : m.rev) if(!r.second.updates.empty()) {
      ex.push_back({r.first, r.second.number, r.second.updates, false});
      if(before.count(r.first) && r.second.number != 1 && r.second.number != before[r.first] + 1) { fprintf(stderr, "VF-HARNESS-ERROR model\n"); _exit(2); }
    }
    ctx().count("transactions");
    ctx().count("revisions", ex.size());
    // what everybody must hear
    for(auto &s : subs) {
      size_t n = 0;
      for(auto &e : ex) if(s.wants(e.key)) n++;
      if(!s.p.await(n)) {
        if(s.p.malformed) return bad("vhash:message", "subscriber '" + s.name + "' received malformed data");
        return bad("vhash:missing", "subscriber '" + s.name + "' received " + std::to_string(s.p.got.size()) + " of " + std::to_string(n) + " revisions");
      }
      std::map<std::string, int> seen;
      for(size_t i = 0; i < n; i++) {
        Val v = s.p.take();
        size_t o = s.push ? 1 : 0, off = o + (s.pattern ? 1 : 0);
        bool ok = v.type == (s.push ? '>' : '*') && v.kids.size() == off + 3 && (!s.push || v.kids[0].s == "pubsub") && v.kids[o].s == (s.pattern ? "pmessage" : "message") && (!s.pattern || v.kids[o+1].s == "__vhash@*");
        std::string ch = ok ? v.kids[off+1].s : "";
        Val rev; uint64_t num = 0; std::vector<std::pair<std::string, std::string>> u;
        ok = ok && ch.substr(0, 8) == "__vhash@" && resp::one(v.kids[off+2].s, rev) && parseRevision(rev, num, u);
        if(!ok) return bad("vhash:message", "subscriber '" + s.name + "' received " + resp::show(v));
        std::string key = ch.substr(8);
        const Expect *e = nullptr;
        for(auto &x : ex) if(x.key == key && s.wants(key)) e = &x;
        if(!e || seen[key]++) return bad("vhash:spurious", "subscriber '" + s.name + "' received a revision for '" + esc(key) + "': " + resp::show(rev));
        if(num != e->number) return bad("vhash:number", "revision " + std::to_string(num) + " published for '" + esc(key) + "', expected " + std::to_string(e->number));
        if(fold(u) != e->updates) return bad("vhash:updates", "revision " + std::to_string(num) + " of '" + esc(key) + "' published with " + showF(fold(u)) + ", expected " + showF(e->updates));
        if(num == 1) s.replica[key].clear();
        else if(s.at.count(key) && num != s.at[key] + 1) return bad("vhash:number", "revision " + std::to_string(num) + " of '" + esc(key) + "' follows " + std::to_string(s.at[key]));
        s.at[key] = num;
        for(auto &x : u) { if(x.second.empty()) s.replica[key].erase(x.first); else s.replica[key][x.first] = x.second; }
        ctx().count("revisions_received");
      }
    }
    if(g.chance(15)) {
      // replaying the change sets reproduces the hashes
      for(auto &s : subs) for(auto &k : keys) {
        Obj *o = m.get(k);
        if(!s.wants(k) || !s.at.count(k) || !o || o->type != VHASH) continue;
        if(o->version != s.at[k] || o->map != s.replica[k]) return bad("vhash:replay", "replaying the revisions of '" + esc(k) + "' gives " + showF(s.replica[k]) + " at " + std::to_string(s.at[k]) + ", the hash is " + showF(o->map) + " at " + std::to_string(o->version));
        ctx().count("replays_compared");
      }
      RedisRequest q = toReq({"VHGETALL", keys[0]});
      Val v; resp::one(sut->disp->dispatch(q, 0).val, v);
      Val w = m.apply({"VHGETALL", keys[0]});
      if(!agree(w, v)) return bad("vhash:reply", "VHGETALL replied " + resp::show(v) + ", expected " + resp::show(w));
    }
    if(g.chance(4)) { hist.push_back({"(reopen)"}); sut->reopen(); shape += "R"; std::string w = m.checkDump(sut->dump()); if(!w.empty()) return bad("vhash:state", w); }
    if(g.chance(3) && subs.size() > 2) { hist.push_back({"(disconnect)"}); subs.pop_back(); shape += "D"; }
  }
  // nothing more is coming: fence through the same queue
  if(!ctx().failed()) {
    Transaction tx(toReq({"VHSET", "fence", "f", "x"}));
    Peer fence;
    RedisRequest r = toReq({"SUBSCRIBE", "__vhash@fence"});
    pub->dispatch(fence.conn.get(), r);
    fence.conn->flush();
    sut->disp->dispatch(tx, indexed ? ++index : 0);
    if(!fence.await(2)) return bad("vhash:missing", "the last revision does not arrive");
    for(auto &s : subs) { s.p.pump(); size_t n = s.p.got.size(); if(s.pattern && n) n--; if(n || (s.pattern && s.p.got.empty() && !s.p.await(1))) { return bad("vhash:spurious", "subscriber '" + s.name + "' has " + std::to_string(s.p.got.size()) + " messages too many"); } }
  }
  ctx().eval(shape);
  ctx().sample(smm::show(hist, 10));
  subs.clear();
  return true;
}

// an empty value is stored, but told as a deletion
static void emptyValue() {
  Publisher pub;
  Sut sut(freshDir("ev") + "/db", &pub);
  Peer p;
  RedisRequest r = toReq({"SUBSCRIBE", "__vhash@k"});
  pub.dispatch(p.conn.get(), r);
  p.conn->flush();
  Transaction t(toReq({"VHSET", "k", "f", ""}));
  sut.disp->dispatch(t, 0);
  if(!p.await(2)) { VF_FAIL("vhash:missing", "no revision for an empty value"); return; }
  Val rev; uint64_t num; std::vector<std::pair<std::string, std::string>> u;
  if(resp::one(p.got[1].kids[2].s, rev) && parseRevision(rev, num, u) && u.size() == 1 && u[0].second.empty())
    VF_FAIL("vhash:empty-value", "VHSET k f '' stores the field, but the revision published says f='' which subscribers take for its deletion");
  ctx().eval("empty");
}

// several writers at once: revisions of one hash are gapless and arrive in order
static void concurrent(int ms) {
  Publisher pub;
  Sut sut(freshDir("cv") + "/db", &pub);
  Peer p;
  RedisRequest r = toReq({"SUBSCRIBE", "__vhash@k"});
  pub.dispatch(p.conn.get(), r);
  p.conn->flush();
  p.await(1); p.got.clear();
  std::atomic<bool> stop {false};
  std::atomic<int64_t> total {0};
  std::mutex mx;
  std::map<uint64_t, std::string> wrote;
  std::vector<std::thread> ts;
  for(int t = 0; t < 3; t++) ts.emplace_back([&, t] {
    for(int i = 0; !stop; i++) {
      std::string v = std::to_string(t) + "." + std::to_string(i);
      Transaction tx(toReq({"VHSET", "k", "f" + std::to_string(i % 5), v}));
      Val x;
      resp::one(sut.disp->dispatch(tx, 0).val, x);
      total++;
      std::scoped_lock l(mx);
      if(x.type != ':' || !wrote.emplace(x.i, v).second) VF_FAIL("vhash:concurrent", "revision " << resp::show(x) << " given twice");
      usleep(50);
    }
  });
  uint64_t next = 1;
  int misorder = 0;
  std::map<uint64_t, std::string> heard;
  auto drain = [&] {
    while(!p.got.empty()) {
      Val v = p.take(), rev; uint64_t num; std::vector<std::pair<std::string, std::string>> u;
      if(!resp::one(v.kids[2].s, rev) || !parseRevision(rev, num, u) || u.size() != 1) { VF_FAIL("vhash:message", "received " << resp::show(v)); return; }
      if(num != next) { misorder++; VF_FAIL("vhash:order", "revision " << num << " is published where " << next << " must follow"); }
      next = num + 1;
      if(!heard.emplace(num, u[0].second).second) VF_FAIL("vhash:concurrent", "revision " << num << " is published twice");
      ctx().eval("c" + std::to_string(num));
    }
  };
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  while(std::chrono::steady_clock::now() < end) { p.pump(20); drain(); }
  stop = true;
  for(auto &t : ts) t.join();
  for(int i = 0; i < 400 && heard.size() < wrote.size(); i++) { p.pump(50); drain(); }
  VF_CHECK(heard == wrote, "vhash:concurrent", wrote.size() << " revisions written, " << heard.size() << " heard");
  ctx().count("concurrent_revisions", total);
  ctx().count("concurrent_revisions_out_of_order", misorder);
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Link::setConnectionLogging(false);
  std::string mode = ctx().arg("mode", "e2e");
  if(mode == "tracker") tracker(ctx().n(3000, 20));
  else if(mode == "e2e") { int n = ctx().n(25, 20); for(int i = 0; i < n && !ctx().failed(); i++) endToEnd(ctx().seed * 1009 + i, 60); }
  else { emptyValue(); concurrent(ctx().n(1500, 10)); }
  return ctx().finish();
}
