// C04: following cursors, with changes in between.
//  walk      one client: every page of a walk against the model, changes between pages and within transactions
//  threads   walks by several threads while others change the same objects
//  glob      the pattern matcher and the prefixes derived from patterns against a reference
//  journal   scans of the journal through a dispatcher, while it grows, is truncated and trimmed
#include "sm_model.hh"
#include "raft.hh"
#include "peer.hh"
#include "storage/PatternMatching.hh"
#include "../deps/StringMatchLen.h"
using namespace vf;
using namespace quarkdb;
using namespace smm;

static Publisher *publisher;
enum Kind { KEYSPACE, H, S, LH, DQ, RAW, KINDS };
static const char *kindName[] = {"SCAN", "HSCAN", "SSCAN", "LHSCAN", "DEQUE-SCAN-BACK", "RAW-SCAN"};

// short names, prefixes of each other, full of what separates, escapes, matches
static std::string mkname(Rng &g, bool mayBeEmpty, bool mayEndInBar) {
  static const std::string alpha = std::string("aab##*[?n0:|\\\0\x01\xff", 16);
  while(true) {
    std::string o;
    size_t n = g.below(g.chance(10) ? 12 : 5);
    for(size_t i = 0; i < n; i++) o += alpha[g.below(alpha.size())];
    if(g.chance(3)) o += std::string(300, alpha[g.below(alpha.size())]);
    if(o.empty() && !mayBeEmpty) continue;
    if(!o.empty() && o.back() == '|' && !mayEndInBar) continue;
    return o;
  }
}

struct Walk {
  Rng g;
  Model m;
  Sut sut;
  int64_t index = 0;
  std::vector<Cmd> hist;
  bool stop = false;
  int serial = 0;

  Walk(uint64_t seed, const std::string &path) : g(seed), sut(path, publisher) {}
  void bad(const std::string &key, const std::string &msg) { if(!stop) VF_FAIL(key, msg << "\n  after" << smm::show(hist, 50)); stop = true; }

  // commands, the last of them a scan or all writes, as one transaction or one by one; the reply of the last
  Val run(const std::vector<Cmd> &cs, bool tx) {
    for(auto &c : cs) hist.push_back(c);
    ctx().current(smm::show(hist, 30));
    Val last;
    m.begin();
    if(tx) {
      Transaction t;
      for(auto &c : cs) t.push_back(toReq(c));
      t.setPhantom(false);
      bool wr = t.containsWrites();
      RedisEncodedResponse r = sut.disp->dispatch(t, wr ? ++index : 0);
      Val v;
      if(!resp::one(r.val, v) || v.type != '*' || v.kids.size() != cs.size()) { bad("reply", "odd reply of a transaction: " + resp::show(v)); return last; }
      return v.kids.back();
    }
    for(auto &c : cs) {
      RedisRequest q = toReq(c);
      RedisEncodedResponse r = sut.disp->dispatch(q, isWrite(c) ? ++index : 0);
      if(!resp::one(r.val, last)) { bad("reply", "malformed reply to " + vf::show(c)); return last; }
    }
    return last;
  }

  // a change: the command and its effect on the model
  Cmd change(Kind k, const std::string &key, std::vector<std::string> &names, std::vector<std::string> &hints) {
    auto name = [&](bool e) { if(names.empty() || g.chance(20)) names.push_back(mkname(g, e, false)); return names[g.below(names.size())]; };
    Cmd c;
    switch(k) {
      case KEYSPACE: case RAW: {
        std::string n = name(true);
        switch(g.below(6)) {
          case 0: case 1: c = {"DEL", n}; break;
          case 2: c = {"SET", n, std::to_string(serial++)}; break;
          case 3: c = {"SADD", n, "x"}; break;
          case 4: c = {"HSET", n, mkname(g, true, true), "y"}; break;
          default: c = {"DEQUE-PUSH-BACK", n, "z"};
        }
        break;
      }
      case H: c = g.chance(40) ? Cmd{"HDEL", key, name(true)} : Cmd{"HSET", key, name(true), std::to_string(serial++)}; break;
      case S: c = g.chance(40) ? Cmd{"SREM", key, name(true)} : Cmd{"SADD", key, name(true)}; break;
      case LH: {
        if(hints.empty() || g.chance(10)) hints.push_back(mkname(g, false, false));
        std::string f = name(false), h = hints[g.below(hints.size())];
        if(f.empty()) f = "f";
        c = g.chance(35) ? Cmd{"LHDEL", key, f} : Cmd{"LHSET", key, f, h, std::to_string(serial++)};
        break;
      }
      default: {
        std::string v = "v" + std::to_string(serial++);
        switch(g.below(10)) {
          case 0: case 1: case 2: c = {"DEQUE-PUSH-FRONT", key, v}; break;
          case 3: case 4: case 5: c = {"DEQUE-PUSH-BACK", key, v}; break;
          case 6: case 7: c = {"DEQUE-POP-FRONT", key}; break;
          case 8: c = {"DEQUE-POP-BACK", key}; break;
          default: c = {"DEQUE-TRIM-FRONT", key, std::to_string(g.below(30))};
        }
      }
    }
    return c;
  }

  // what a complete scan has to show: sort key -> what is listed for it
  typedef std::map<std::string, std::vector<std::string>> Set;
  Set present(Kind k, const std::string &key, const std::string &pattern) {
    Set o;
    vf::GlobRef p(pattern);
    auto fits = [&](const std::string &s) { return pattern.empty() || p.match(s); };
    if(k == KEYSPACE) { for(auto &x : m.keys) if(fits(x.first)) o[x.first] = {x.first}; return o; }
    if(k == RAW) { for(auto &x : sut.dump()) o[x.first] = {x.first, x.second}; return o; }
    Obj *obj = m.get(key);
    if(!obj) return o;
    if(k == H && obj->type == HASH) for(auto &x : obj->map) o[x.first] = {x.first, x.second};
    if(k == S && obj->type == SET) for(auto &x : obj->map) o[x.first] = {x.first};
    if(k == LH && obj->type == LHASH) for(auto &x : obj->lh) if(fits(x.second.first)) o[Model::lhEnc(x.second.first, x.first)] = {x.second.first, x.first, x.second.second};
    if(k == DQ && obj->type == DEQUE) for(auto &x : obj->dq) o[x] = {x};
    return o;
  }

  void walk(bool changing) {
    Kind k = (Kind) g.below(KINDS);
    std::vector<std::string> names, hints;
    std::string key = mkname(g, k != LH, false), pattern;
    for(size_t i = 0, n = 3 + g.below(40); i < n; i++) names.push_back(mkname(g, k != LH, k == H || k == S));
    for(size_t i = 0, n = 1 + g.below(6); i < n; i++) hints.push_back(mkname(g, false, false));
    hist.push_back({"(walk of", kindName[k], key, ")"});
    // contents, and neighbours which are easily confused with them
    std::vector<Cmd> setup;
    if(m.get(key) && k != KEYSPACE && k != RAW) setup.push_back({"DEL", key});
    for(size_t i = 0, n = g.below(60); i < n; i++) setup.push_back(change(k, key, names, hints));
    for(const std::string &near : {key + "#", key + "##", key + "##a", key + "a", key + std::string("\0", 1), key + "|#", key.substr(0, key.size() / 2)}) if(g.chance(50) && near != key && (near.empty() || near.back() != '|')) {
      if(k == LH && near.empty()) continue;
      setup.push_back({"DEL", near});
      std::string v = g.chance(70) ? near : key;      // never the key itself
      if(v == key) v = near;
      switch(g.chance(70) ? (int) k : (int) g.below(5)) {
        case H: setup.push_back({"HSET", v, "a", "decoy"}); setup.push_back({"HSET", v, "", "decoy"}); break;
        case S: setup.push_back({"SADD", v, "a", "", "#"}); break;
        case LH: if(!v.empty()) { setup.push_back({"LHSET", v, "a", "h", "decoy"}); setup.push_back({"LHSET", v, "##", "a", "decoy"}); } break;
        case DQ: setup.push_back({"DEQUE-PUSH-BACK", v, "decoy", "decoy2"}); break;
        default: setup.push_back({"SET", v, "decoy"});
      }
    }
    for(auto &c : setup) { m.begin(); m.apply(c); }
    if(!setup.empty()) { bool tx = g.chance(50); run(setup, tx); }
    if(stop) return;
    if(g.chance(5)) { hist.push_back({"(reopen)"}); sut.reopen(); }

    const char *kw = nullptr;
    if((k == KEYSPACE || k == LH) && g.chance(60)) {
      kw = k == LH ? "MATCHLOC" : "match";
      for(int t = 0; t < 50; t++) {
        std::string base = k == LH ? hints[g.below(hints.size())] : names[g.below(names.size())];
        if(g.chance(30)) pattern = randomPattern(g);
        else {
          pattern.clear();
          for(char c : base) { int r = g.below(10); if(r < 2) pattern += '?'; else if(r < 3) pattern += '*'; else if(r < 8) { if(strchr("*?[]\\^-", c) && c) pattern += '\\'; pattern += c; } else break; }
          if(g.chance(60)) pattern += '*';
        }
        if(GlobRef(pattern).defined) break;
        pattern.clear();
      }
    }

    Set must = present(k, key, pattern);
    size_t initial = must.size(), added = 0, calls = 0, seen = 0, moved = 0;
    std::set<std::string> got;
    std::string cursor = k == RAW ? std::string() : std::string("0"), last;
    bool any = false, done = false;
    int fixed = g.chance(40) ? 1 + g.below(4) : 0;
    size_t lost = 0;
    std::set<std::string> lastPage;
    while(!done && !stop) {
      // changes before the next page, perhaps in the same transaction
      std::vector<Cmd> batch;
      if(changing && g.chance(60)) {
        for(size_t i = 0, n = 1 + g.below(4); i < n; i++) batch.push_back(change(k, key, names, hints));
        if(!got.empty() && k != DQ && k != RAW && g.chance(25)) {
          // right at the cursor
          std::string at = last;
          if(k == KEYSPACE) batch.push_back({"DEL", at});
          else if(k == H) batch.push_back({"HDEL", key, at});
          else if(k == S) batch.push_back({"SREM", key, at});
        }
        if(cursor.size() > 5 && g.chance(25)) {
          std::string at = cursor.substr(5);
          if(k == KEYSPACE) batch.push_back({"DEL", at});
          else if(k == H) batch.push_back({"HDEL", key, at});
          else if(k == S) batch.push_back({"SREM", key, at});
        }
        bool together = k != RAW && g.chance(40);
        for(auto &c : batch) { m.begin(); m.apply(c); }
        if(!together) { bool tx = g.chance(50); run(batch, tx); batch.clear(); }
        added += 4;
        moved++;
      }
      int64_t count = fixed ? fixed : g.chance(5) ? INT64_MAX / (1 + g.below(3)) : 1 + g.below(g.chance(50) ? 4 : 30);
      Cmd c;
      if(k == RAW) c = {"RAW-SCAN", cursor};
      else if(k == KEYSPACE) c = {"SCAN", cursor};
      else c = {kindName[k], key, cursor};
      if(kw && g.chance(50)) { c.push_back(kw); c.push_back(pattern); }
      bool haveCount = g.chance(95);
      if(haveCount) { c.push_back("COUNT"); c.push_back(std::to_string(count)); }
      if(kw && std::find(c.begin(), c.end(), kw) == c.end()) { c.push_back(kw); c.push_back(pattern); }
      batch.push_back(c);
      Val v = run(batch, batch.size() > 1 || g.chance(20));
      if(stop) break;
      calls++;
      Set now = present(k, key, pattern);
      for(auto it = must.begin(); it != must.end();) { if(now.count(it->first)) ++it; else { it = must.erase(it); lost++; } }
      std::vector<std::string> items;
      if(k == RAW) { if(v.type != '*') { bad("reply", "reply to " + vf::show(c) + ": " + resp::show(v)); break; } for(auto &x : v.kids) items.push_back(x.s); }
      else {
        Obj *o = m.get(key);
        static const Type want[] = {STR, HASH, SET, LHASH, DEQUE};
        if(k != KEYSPACE && o && o->type != want[k]) { if(v.type != '-') bad("type", "scanning a key of another type replied " + resp::show(v)); break; }
        if(v.type != '*' || v.kids.size() != 2 || v.kids[1].type != '*') { bad("reply", "reply to " + vf::show(c) + ": " + resp::show(v)); break; }
        for(auto &x : v.kids[1].kids) items.push_back(x.s);
        cursor = v.kids[0].s;
        if(cursor == "0") done = true;
        else if(cursor.compare(0, 5, "next:") != 0) { bad("reply", "cursor " + esc(cursor)); break; }
      }
      size_t width = k == H || k == RAW ? 2 : k == LH ? 3 : 1;
      if(items.size() % width) { bad("reply", "a page of " + std::to_string(items.size()) + " strings"); break; }
      std::set<std::string> page;
      for(size_t i = 0; i < items.size() && !stop; i += width) {
        std::vector<std::string> it(items.begin() + i, items.begin() + i + width);
        std::string id = k == LH ? Model::lhEnc(it[0], it[1]) : it[0];
        seen++;
        auto f = now.find(id);
        if(f == now.end()) { bad(SSTR("extra:" << kindName[k]), "lists " + vf::show(it) + ", which is not there or does not match"); break; }
        if(f->second != it) { bad(SSTR("value:" << kindName[k]), "lists " + vf::show(it) + " instead of " + vf::show(f->second)); break; }
        if(k == DQ) {
          if(got.count(id)) { bad(SSTR("twice:" << kindName[k]), "lists " + esc(id) + " again"); break; }
          page.insert(id);
        }
        else {
          if(any && id <= last) { bad(SSTR((got.count(id) ? "twice:" : "order:") << kindName[k]), "lists " + esc(id) + " after " + esc(last)); break; }
          any = true; last = id;
        }
        got.insert(id);
      }
      if(k == DQ && !stop) {
        // a page is a stretch of the deque, in order, further to the front than those before
        Obj *o = m.get(key);
        std::vector<std::string> d; if(o) d.assign(o->dq.begin(), o->dq.end());
        size_t p0 = items.empty() ? 0 : std::find(d.begin(), d.end(), items[0]) - d.begin();
        for(size_t i = 0; i < items.size(); i++) if(p0 + i >= d.size() || d[p0 + i] != items[i]) { bad("order:DEQUE-SCAN-BACK", "item " + esc(items[i]) + " out of order in its page"); break; }
        for(size_t i = 0; i < d.size() && !items.empty() && !stop; i++) if(lastPage.count(d[i]) && i < p0 + items.size() && !page.count(d[i])) bad("order:DEQUE-SCAN-BACK", "a page further to the back than the one before");
        if(!page.empty()) lastPage = page;
      }
      if(k == RAW) { if(items.empty()) done = true; else cursor = last + std::string(1, '\0'); }
      if(calls > initial + added + (k == KEYSPACE ? m.keys.size() : 0) + 12) { bad(SSTR("endless:" << kindName[k]), SSTR("does not end after " << calls << " pages of " << initial << " elements")); break; }
    }
    if(stop) return;
    if(done) {
      for(auto &x : must) if(!got.count(x.first)) { bad(SSTR("missed:" << kindName[k]), SSTR("never lists " << vf::show(x.second) << ", " << got.size() << " listed in " << calls << " pages")); return; }
      if(!moved && got.size() != initial) bad(SSTR("extra:" << kindName[k]), SSTR("lists " << got.size() << " of " << initial));
      // what a scan of everything shows at once
      if(k == KEYSPACE && g.chance(30)) {
        Val v = run({{"KEYS", pattern}}, g.chance(30));
        std::vector<std::string> ks; for(auto &x : v.kids) ks.push_back(x.s);
        std::vector<std::string> w; for(auto &x : present(k, key, pattern)) w.push_back(x.first);
        if(ks != w) bad("keys", SSTR("KEYS " << esc(pattern) << " lists " << ks.size() << " keys instead of " << w.size()));
      }
      ctx().count(SSTR("walks_" << kindName[k]));
    }
    ctx().count("pages", calls);
    ctx().count("elements_listed", seen);
    ctx().count("elements_removed_during_walks", lost);
    ctx().eval(SSTR(k << ":" << std::min<size_t>(calls, 12) << ":" << std::min<size_t>(initial, 15) << ":" << std::min<size_t>(moved, 5) << ":" << (pattern.empty() ? 0 : 1 + std::min<size_t>(got.size(), 3)) << fixed));
  }

  // cursors and arguments which are refused, without effect
  void refused() {
    std::string key = mkname(g, true, false);
    Kind k = (Kind) g.below(5);
    Cmd c = k == KEYSPACE ? Cmd{"SCAN"} : Cmd{kindName[k], key};
    std::string cur = g.chance(40) ? "0" : g.pick(std::vector<std::string>{"", "00", "1", "-1", "next", "NEXT:a", "nex:", " 0", std::string("0\0", 2)});
    c.push_back(cur);
    bool wrong = cur != "0";
    if(!wrong || g.chance(50)) {
      switch(g.below(6)) {
        case 0: c.push_back("COUNT"); c.push_back(g.pick(std::vector<std::string>{"0", "-1", "", "x", "1x", "99999999999999999999", "-0", "00"})); break;
        case 1: c.push_back("COUNT"); break;
        case 2: c.push_back("LIMIT"); c.push_back("5"); break;
        case 3: c.push_back(k == KEYSPACE ? "MATCHLOC" : k == LH ? "MATCH" : "MATCH"); c.push_back("*"); break;
        case 4: c.push_back("COUNT"); c.push_back("5"); c.push_back("x"); break;
        default: c.push_back(""); c.push_back("");
      }
      wrong = true;
    }
    if(!wrong) return;
    Val v = run({c}, g.chance(20));
    if(!stop && v.type != '-') bad("arguments", vf::show(c) + " is answered with " + resp::show(v));
    ctx().count("refused");
  }
};

static void walks(int64_t n) {
  for(int64_t done = 0, epoch = 0; done < n && !ctx().failed(); epoch++) {
    Walk w(ctx().seed * 1000003 + epoch, freshDir("sm") + "/sm");
    for(int i = 0; i < 60 && done < n && !w.stop; i++, done++) {
      if(w.hist.size() > 400) w.hist.erase(w.hist.begin(), w.hist.end() - 200);
      w.walk(w.g.chance(65));
      if(!w.stop && w.g.chance(20)) w.refused();
      if(!w.stop && w.g.chance(12)) { w.run({{"FLUSHALL"}}, false); w.m.keys.clear(); }
    }
  }
}

// ---------------------------------------------------------------- threads
static Val ask(RedisDispatcher &d, const Cmd &c) { RedisRequest q = toReq(c); Val v; RedisEncodedResponse r = d.dispatch(q, 0); if(!resp::one(r.val, v)) VF_FAIL("reply", "malformed reply to " << vf::show(c)); return v; }

static void threads(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    Rng g0(ctx().seed * 100 + round);
    Sut sut(freshDir("smt") + "/sm", publisher);
    // stable ones, and ones which come and go
    std::vector<std::string> stable, churn;
    std::set<std::string> used;
    while(stable.size() < 60) { std::string s = mkname(g0, false, false); if(used.insert(s).second) stable.push_back(s); }
    while(churn.size() < 60) { std::string s = mkname(g0, false, false); if(used.insert(s).second) churn.push_back(s); }
    std::set<std::string> st(stable.begin(), stable.end()), all(used.begin(), used.end());
    { Transaction t; for(auto &s : stable) { t.push_back(toReq({"SET", "s:" + s, s})); t.push_back(toReq({"HSET", "H", s, s})); t.push_back(toReq({"SADD", "S", s})); t.push_back(toReq({"LHSET", "L", s, "h#" + std::to_string(s.size()), s})); } for(int i = 0; i < 100; i++) t.push_back(toReq({"DEQUE-PUSH-BACK", "D", std::to_string(1000 + i)})); t.setPhantom(false); sut.disp->dispatch(t, 0); }
    std::atomic<bool> go {true};
    std::atomic<int> walksDone {0};
    std::thread writer([&] {
      Rng g(ctx().seed * 100 + round + 50);
      int front = 999, back = 1100, lo = 1000 - 0;
      (void) lo;
      int frontExtra = 0, backExtra = 0;
      while(go) {
        Transaction t;
        for(int i = 0, n = 1 + g.below(4); i < n; i++) {
          const std::string &c = churn[g.below(churn.size())];
          switch(g.below(10)) {
            case 0: t.push_back(toReq({"SET", "s:" + c, c})); break;
            case 1: t.push_back(toReq({"DEL", "s:" + c})); break;
            case 2: t.push_back(toReq({"HSET", "H", c, c})); break;
            case 3: t.push_back(toReq({"HDEL", "H", c})); break;
            case 4: t.push_back(toReq({"SADD", "S", c})); break;
            case 5: t.push_back(toReq({"SREM", "S", c})); break;
            case 6: t.push_back(toReq({"LHSET", "L", c, g.chance(50) ? "h#1" : "h#3", c})); break;
            case 7: t.push_back(toReq({"LHDEL", "L", c})); break;
            case 8: if(frontExtra > 0 && g.chance(60)) { t.push_back(toReq({"DEQUE-POP-FRONT", "D"})); frontExtra--; front++; } else { t.push_back(toReq({"DEQUE-PUSH-FRONT", "D", std::to_string(front--)})); frontExtra++; } break;
            default: if(backExtra > 0 && g.chance(60)) { t.push_back(toReq({"DEQUE-POP-BACK", "D"})); backExtra--; back--; } else { t.push_back(toReq({"DEQUE-PUSH-BACK", "D", std::to_string(back++)})); backExtra++; }
          }
        }
        t.setPhantom(false);
        sut.disp->dispatch(t, 0);
        ctx().count("concurrent_commits");
      }
    });
    std::vector<std::thread> rs;
    for(int r = 0; r < 4; r++) rs.emplace_back([&, r] {
      Rng g(ctx().seed * 100 + round + 60 + r);
      for(int w = 0; w < 30 && !ctx().failed(); w++) {
        int k = (r + w) % 5;
        std::string cursor = "0", last; bool any = false;
        std::set<std::string> got;
        std::vector<std::vector<int>> pages;
        int calls = 0;
        do {
          std::string n = std::to_string(1 + g.below(12));
          Cmd c = k == 0 ? Cmd{"SCAN", cursor, "COUNT", n, "MATCH", "s:*"} : k == 1 ? Cmd{"HSCAN", "H", cursor, "COUNT", n} : k == 2 ? Cmd{"SSCAN", "S", cursor, "COUNT", n} : k == 3 ? Cmd{"LHSCAN", "L", cursor, "COUNT", n} : Cmd{"DEQUE-SCAN-BACK", "D", cursor, "COUNT", n};
          Val v = ask(*sut.disp, c);
          if(v.type != '*' || v.kids.size() != 2) { VF_FAIL("reply", vf::show(c) << " replied " << resp::show(v)); return; }
          cursor = v.kids[0].s;
          std::vector<std::string> items; for(auto &x : v.kids[1].kids) items.push_back(x.s);
          if(k == 4) {
            std::vector<int> p; for(auto &s : items) p.push_back(atoi(s.c_str()));
            for(size_t i = 1; i < p.size(); i++) VF_CHECK(p[i] == p[i-1] + 1, "threads:deque", "a page holds " << p[i] << " after " << p[i-1]);
            if(!p.empty() && !pages.empty()) VF_CHECK(p.back() < pages.back()[0], "threads:deque", "a page ends with " << p.back() << ", the one before starts with " << pages.back()[0]);
            if(!p.empty()) pages.push_back(p);
            for(auto &s : items) got.insert(s);
          }
          else {
            size_t width = k == 1 ? 2 : k == 3 ? 3 : 1;
            for(size_t i = 0; i + width <= items.size(); i += width) {
              std::string id = k == 3 ? Model::lhEnc(items[i], items[i+1]) : items[i];
              std::string name = k == 0 ? items[i].substr(2) : k == 3 ? items[i+1] : items[i];
              if(any) VF_CHECK(id > last, "threads:order", c[0] << " lists " << esc(id) << " after " << esc(last));
              any = true; last = id;
              VF_CHECK(all.count(name), "threads:extra", c[0] << " lists " << esc(name));
              if(k == 1 || k == 3) VF_CHECK(items[i + width - 1] == name, "threads:value", c[0] << " lists " << esc(name) << " with value " << esc(items[i + width - 1]));
              got.insert(name);
            }
          }
          if(++calls > 2000) { VF_FAIL("threads:endless", c[0] << " does not end"); return; }
        } while(cursor != "0");
        if(k == 4) { for(int i = 1000; i < 1100; i++) if(!got.count(std::to_string(i))) { VF_FAIL("threads:missed", "the walk of a deque misses " << i); break; } }
        else for(auto &s : st) if(!got.count(s)) { VF_FAIL("threads:missed", "walk " << k << " misses " << esc(s)); break; }
        walksDone++;
        ctx().eval(SSTR("t" << k << ":" << std::min(calls, 60) << ":" << got.size()));
        ctx().count("concurrent_pages", calls);
      }
    });
    for(auto &t : rs) t.join();
    go = false;
    writer.join();
    ctx().count("concurrent_walks", walksDone);
  }
}

// ---------------------------------------------------------------- patterns
static void glob(int64_t n) {
  Rng g(ctx().seed);
  auto one = [&](const std::string &p, const std::string &s) {
    GlobRef r(p);
    if(!r.defined) return;
    ctx().current(SSTR("pattern '" << esc(p) << "' on '" << esc(s) << "'"));
    // exact copies: nothing may be read beyond them
    std::unique_ptr<char[]> a(new char[p.size()]), b(new char[s.size()]);
    memcpy(a.get(), p.data(), p.size()); memcpy(b.get(), s.data(), s.size());
    bool want = r.match(s), got = stringmatchlen(a.get(), p.size(), b.get(), s.size(), 0);
    VF_CHECK(want == got, "glob", "pattern '" << esc(p) << "' " << (got ? "matches" : "does not match") << " '" << esc(s) << "'");
    std::string prefix = extractPatternPrefix(std::string_view(a.get(), p.size()));
    if(want) VF_CHECK(s.compare(0, prefix.size(), prefix) == 0, "prefix", "pattern '" << esc(p) << "' matches '" << esc(s) << "', which does not start with '" << esc(prefix) << "'");
    VF_CHECK(p.compare(0, prefix.size(), prefix) == 0, "prefix", "prefix '" << esc(prefix) << "' of pattern '" << esc(p) << "'");
    ctx().count(want ? "glob_matches" : "glob_mismatches");
    ctx().eval(SSTR(want << p.substr(0, 6)));
  };
  for(int64_t i = 0; i < n && !ctx().failed(); i++) {
    std::string p = randomPattern(g, 9);
    one(p, randomSubject(g, p));
    one(p, mkname(g, true, true));
    std::string q = mkname(g, true, true);
    one(q, randomSubject(g, q));
    one(q, q);
  }
  // many stars
  for(int k = 1; k < 26 && !ctx().failed(); k++) { std::string p; for(int i = 0; i < k; i++) p += "*a"; one(p, std::string(60, 'a')); one(p + "b", std::string(60, 'a')); one(p + "*", std::string(k, 'a')); one(p + "?", std::string(k, 'a')); }
}

// ---------------------------------------------------------------- journal
static void journal(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    Rng g(ctx().seed * 1000 + round);
    RaftServer me("127.0.0.1", 7777);
    RaftNode node(freshDir("jn") + "/n", {me, RaftServer("127.0.0.1", 7778), RaftServer("127.0.0.1", 7779)}, me);
    RaftJournal &j = node.j();
    std::vector<std::string> log = node.serialized();
    std::vector<Cmd> cmds(log.size());
    auto append = [&] { Cmd c = {"SET", "k" + std::to_string(g.below(30)), g.bytes(5)}; if(!j.append(j.getLogSize(), RaftEntry(j.getCurrentTerm(), toReq(c)))) { VF_FAIL("journal:append", "refused"); return; } RaftSerializedEntry e; j.fetch(j.getLogSize() - 1, e); log.push_back(e); cmds.push_back(c); };
    for(int i = 0, n = g.below(60); i < n; i++) append();
    Peer peer;
    InFlightTracker inflight;
    peer.conn->authorization = true;
    for(int walk = 0; walk < 6 && !ctx().failed(); walk++) {
      LogIndex start = j.getLogStart();
      std::string pattern;
      if(g.chance(50)) pattern = g.chance(50) ? "*k" + std::to_string(g.below(30)) + "*" : g.chance(50) ? "*SET*" : "*";
      GlobRef p(pattern);
      std::map<LogIndex, std::string> must;
      for(LogIndex i = start; i < (LogIndex) log.size(); i++) if(pattern.empty() || p.match(log[i])) must[i] = log[i];
      std::set<LogIndex> got;
      std::string cursor = "0"; LogIndex last = -1; size_t calls = 0;
      do {
        if(g.chance(40)) {
          int op = g.below(10);
          if(op < 6) for(int i = 0, n = 1 + g.below(3); i < n; i++) append();
          else if(op < 8 && j.getLogSize() - 1 > j.getCommitIndex() + 1) { LogIndex from = g.range(j.getCommitIndex() + 1, j.getLogSize() - 1); j.removeEntries(from); log.resize(from); cmds.resize(from); for(auto it = must.lower_bound(from); it != must.end();) it = must.erase(it); }
          else if(op < 9) { LogIndex c = g.range(j.getCommitIndex(), j.getLogSize() - 1); j.setCommitIndex(c); }
          else { LogIndex t = g.range(j.getLogStart(), std::max(j.getLogStart(), std::min(j.getCommitIndex(), node.sm().getLastApplied()))); if(t > j.getLogStart()) { j.trimUntil(t); while(!must.empty() && must.begin()->first < t) must.erase(must.begin()); } }
        }
        Cmd c = {"RAFT-JOURNAL-SCAN", cursor};
        if(g.chance(80)) { c.push_back("COUNT"); c.push_back(std::to_string(1 + g.below(10))); }
        if(!pattern.empty()) { c.push_back("MATCH"); c.push_back(pattern); }
        ctx().current(vf::show(c));
        peer.send(wire(c));
        peer.conn->processRequests(&node.d(), inflight);
        if(!peer.await(1)) { VF_FAIL("journal:reply", "no reply to " << vf::show(c)); break; }
        Val v = peer.take();
        if(v.type != '*' || v.kids.size() != 2 || v.kids[1].type != '*') { VF_FAIL("journal:reply", vf::show(c) << " replied " << resp::show(v)); break; }
        cursor = v.kids[0].s;
        for(auto &e : v.kids[1].kids) {
          if(e.kids.size() != 3 || e.kids[0].s.compare(0, 7, "INDEX: ") != 0) { VF_FAIL("journal:reply", "entry " << resp::show(e)); break; }
          LogIndex i = atoll(e.kids[0].s.c_str() + 7);
          VF_CHECK(i > last, "journal:order", "lists entry " << i << " after " << last);
          last = i;
          if(i < j.getLogStart() || i >= (LogIndex) log.size()) { VF_FAIL("journal:extra", "lists entry " << i << ", which is not there"); break; }
          VF_CHECK(pattern.empty() || p.match(log[i]), "journal:match", "entry " << i << " does not match");
          RaftEntry want; RaftEntry::deserialize(want, log[i]);
          VF_CHECK(e.kids[1].s == SSTR("TERM: " << want.term), "journal:term", "entry " << i << " has " << e.kids[1].s);
          std::vector<std::string> parts, exp; for(auto &x : e.kids[2].kids) parts.push_back(x.s);
          for(auto &x : want.request) exp.push_back(std::string(x));
          VF_CHECK(parts == exp, "journal:entry", "entry " << i << " is " << vf::show(parts) << " instead of " << vf::show(exp));
          got.insert(i);
        }
        if(++calls > log.size() + 40) { VF_FAIL("journal:endless", "does not end"); break; }
      } while(cursor != "0" && !ctx().failed());
      for(auto &x : must) if(!got.count(x.first) && !ctx().failed()) VF_FAIL("journal:missed", "entry " << x.first << " is never listed, the scan started at " << start);
      ctx().count("journal_walks"); ctx().count("journal_entries_listed", got.size());
      ctx().eval(SSTR("j" << std::min<size_t>(calls, 10) << ":" << got.size() << pattern.size()));
    }
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Publisher pub;
  publisher = &pub;
  std::string mode = ctx().arg("mode", "walk");
  if(mode == "walk") walks(ctx().n(800, 20000));
  else if(mode == "threads") threads(ctx().n(8, 100));
  else if(mode == "glob") glob(ctx().n(60000, 2000000));
  else if(mode == "journal") journal(ctx().n(12, 200));
  else { fprintf(stderr, "mode?\n"); return 2; }
  return ctx().finish();
}
