// C14: who receives a published message, and what everybody is told about it.
//  seq      one thread: many connections against a model of their subscriptions
//  threads  clients and publishers in parallel: an offline check of everything delivered
//  purge    the same while all subscriptions are dropped again and again
//  map      the subscription map and the pattern matcher: mutation during staged iteration
//  mapt     the same from several threads
//  node     through nodes: handshakes, writes in flight, loss of leadership
#include "node.hh"
#include "raft.hh"
#include "glob_ref.hh"
#include <iomanip>
#include "pubsub/Publisher.hh"
using namespace vf;
using namespace quarkdb;

// ---------------------------------------------------------------- hangs
static std::atomic<uint64_t> beat {0};
static std::atomic<bool> over {false};
static std::string beatWhat;
struct Watchdog {
  std::thread t;
  Watchdog() : t([] {
    uint64_t last = beat; auto since = std::chrono::steady_clock::now();
    while(!over) {
      usleep(100000);
      auto now = std::chrono::steady_clock::now();
      if(beat != last) { last = beat; since = now; }
      else if(now - since > std::chrono::seconds(40)) { VF_FAIL("hang", "no progress for 40 s: " << (ctx().cur ? std::string(ctx().cur).substr(0, 1500) : std::string())); _exit(3); }
    }
  }) {}
  ~Watchdog() { over = true; t.join(); }
};

// ---------------------------------------------------------------- what clients see
struct Msg { bool pattern = false; std::string key, channel, payload; };
// a message, or a reply to (p)(un)subscribe
static bool asMessage(const resp::Val &v, Msg &m, bool push) {
  size_t b = 0;
  if(v.type != (push ? '>' : '*')) return false;
  if(push) { if(v.kids.empty() || v.kids[0].s != "pubsub") return false; b = 1; }
  for(auto &k : v.kids) if(k.type != '$' || k.nil) return false;
  if(v.kids.size() == b + 3 && v.kids[b].s == "message") { m.pattern = false; m.key = m.channel = v.kids[b+1].s; m.payload = v.kids[b+2].s; return true; }
  if(v.kids.size() == b + 4 && v.kids[b].s == "pmessage") { m.pattern = true; m.key = v.kids[b+1].s; m.channel = v.kids[b+2].s; m.payload = v.kids[b+3].s; return true; }
  return false;
}
static resp::Val bulk(const std::string &s) { resp::Val v; v.type = '$'; v.s = s; return v; }
static resp::Val num(int64_t i) { resp::Val v; v.type = ':'; v.i = i; v.s = std::to_string(i); return v; }
static std::string subReply(bool push, const std::string &kind, const std::string &key, int64_t n) {
  resp::Val v; v.type = push ? '>' : '*';
  if(push) v.kids.push_back(bulk("pubsub"));
  v.kids.push_back(bulk(kind)); v.kids.push_back(bulk(key)); v.kids.push_back(num(n));
  return resp::encode(v);
}
static std::string msgText(bool push, bool pattern, const std::string &key, const std::string &channel, const std::string &payload) {
  resp::Val v; v.type = push ? '>' : '*';
  if(push) v.kids.push_back(bulk("pubsub"));
  v.kids.push_back(bulk(pattern ? "pmessage" : "message"));
  if(pattern) v.kids.push_back(bulk(key));
  v.kids.push_back(bulk(channel)); v.kids.push_back(bulk(payload));
  return resp::encode(v);
}
static std::string enc(const std::vector<std::string> &c) {
  std::string o = "*" + std::to_string(c.size()) + "\r\n";
  for(auto &a : c) o += "$" + std::to_string(a.size()) + "\r\n" + a + "\r\n";
  return o;
}
static std::string brief(const std::vector<std::string> &v) { std::string o; for(size_t i = 0; i < v.size() && i < 12; i++) o += "'" + esc(v[i], 90) + "' "; if(v.size() > 12) o += SSTR("… " << v.size()); return o; }

struct Sub {
  std::unique_ptr<Client> c;
  std::set<std::string> ch, pat;
  bool push = false;
  int id = 0;
  size_t n() const { return ch.size() + pat.size(); }
};
static int nextId = 0;
static std::unique_ptr<Sub> newSub(Dispatcher *d, bool push) {
  std::unique_ptr<Sub> s(new Sub);
  s->c.reset(new Client(d));
  s->c->conn->authorization = true;
  s->push = push;
  s->id = nextId++;
  if(push) s->c->conn->activatePushTypes();
  return s;
}

// ---------------------------------------------------------------- one thread
static void seq(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    Rng g(seed);
    std::unique_ptr<Publisher> pub(new Publisher());
    std::vector<std::unique_ptr<Sub>> subs;
    std::vector<std::weak_ptr<PendingQueue>> ghosts;
    std::vector<std::string> log;
    bool big = round % 3 == 0;
    size_t maxConns = big ? 260 : 2 + g.below(7);
    std::vector<std::string> channels = {"a", "ab", "abc", "b", std::string("nul\0x", 5), std::string("nul\0y", 5), "a*", "\\", "news.one", "\xff\xfe", std::string(3000, 'L')};
    std::vector<std::string> patterns = {"*", "a*", "a?", "[ab]", "[^a]", "*b*", "nul*", "news.?ne", "a\\*", "??", "abc", "zzz*", "\xff*", std::string(1000, '*')};
    for(int i = 0; i < 4; i++) { std::string p; do p = randomPattern(g); while(!GlobRef(p).defined || p.empty()); patterns.push_back(p); std::string s = randomSubject(g, p); if(!s.empty()) channels.push_back(s); }
    // enough keys to go through several batches
    if(round % 3 == 1) { for(int i = 0; i < 250; i++) patterns.push_back(SSTR((i % 2 ? "a*" : "q*") << std::string(i % 7, '*') << "[bc" << (char) ('A' + i / 7 % 26) << "]" << std::string(i / 182, '*'))); }
    for(size_t i = 0; i < (big ? 3 : maxConns); i++) subs.push_back(newSub(pub.get(), g.chance(30)));
    auto took = [&](Sub &s) {
      std::vector<std::string> o;
      s.c->collect();
      for(auto &v : s.c->got) o.push_back(resp::encode(v));
      s.c->got.clear();
      if(s.c->malformed) VF_FAIL("malformed", "connection " << s.id << " receives bytes which are no reply, seed " << seed);
      return o;
    };
    auto what = [&] { std::string s; for(size_t i = log.size() > 12 ? log.size() - 12 : 0; i < log.size(); i++) s += log[i] + "; "; return SSTR(s << " [seed " << seed << "]"); };
    auto expect = [&](std::map<int, std::vector<std::string>> want, const char *key, int ordered) {
      for(auto &s : subs) {
        std::vector<std::string> w = want[s->id], o = took(*s);
        if(s->id != ordered) { std::sort(w.begin(), w.end()); std::sort(o.begin(), o.end()); }
        if(w != o) { VF_FAIL(key, "connection " << s->id << " receives " << o.size() << " replies: " << brief(o) << " instead of " << w.size() << ": " << brief(w) << " after " << what()); return; }
      }
    };
    int steps = big ? 450 : 300;
    for(int step = 0; step < steps && !ctx().failed(); step++) {
      beat++;
      int op = g.below(100);
      if(subs.empty() || (op < 12 && subs.size() < maxConns) || (big && subs.size() < 205)) {
        subs.push_back(newSub(pub.get(), g.chance(30)));
        if(big) { // many listening to the same
          Sub &s = *subs.back();
          s.c->ask({"SUBSCRIBE", "a"}); s.ch.insert("a");
          if(g.chance(60)) { s.c->ask({"PSUBSCRIBE", "a*"}); s.pat.insert("a*"); }
        }
        log.push_back(SSTR("connect " << subs.back()->id));
        continue;
      }
      size_t who = g.below(subs.size());
      Sub &s = *subs[who];
      std::map<int, std::vector<std::string>> want;
      if(op < 55) {
        bool pat = g.chance(50), un = g.chance(40);
        std::vector<std::string> c = {std::string(un ? "un" : "") };
        c[0] = pat ? (un ? "PUNSUBSCRIBE" : "PSUBSCRIBE") : (un ? "UNSUBSCRIBE" : "SUBSCRIBE");
        std::string kind = pat ? (un ? "punsubscribe" : "psubscribe") : (un ? "unsubscribe" : "subscribe");
        int k = g.chance(3) ? 0 : g.chance(75) ? 1 : g.range(2, 5);
        auto &mine = pat ? s.pat : s.ch;
        for(int i = 0; i < k; i++) {
          std::string key = g.pick(pat ? patterns : channels);
          if(un && !mine.empty() && g.chance(70)) { auto it = mine.begin(); std::advance(it, g.below(mine.size())); key = *it; }
          c.push_back(key);
        }
        log.push_back(SSTR(s.id << (s.push ? ">" : "") << ": " << show(c)));
        ctx().current(what());
        if(k == 0) {
          s.c->wire.arrive(enc(c)); s.c->step();
          auto o = took(s);
          VF_CHECK(o.size() == 1 && o[0][0] == '-', "args", "without arguments: " << brief(o) << " " << what());
          continue;
        }
        for(size_t i = 1; i < c.size(); i++) {
          if(un) mine.erase(c[i]); else mine.insert(c[i]);
          want[s.id].push_back(subReply(s.push, kind, c[i], s.n()));
        }
        if(s.push) want[s.id].push_back("+OK\r\n");
        s.c->wire.arrive(enc(c));
        s.c->step();
        expect(want, un ? "unsubscribe" : "subscribe", s.id);
        ctx().eval(SSTR("s" << pat << un << k << std::min<size_t>(s.n(), 9) << s.push));
        ctx().count("subscription_changes", k);
      }
      else if(op < 90) {
        std::string channel = g.pick(channels), payload = g.chance(8) ? g.bytes(g.below(40000) + 1) : SSTR("m" << step);
        if(g.chance(10)) channel = "nobody-" + std::to_string(g.below(100));
        bool direct = g.chance(30);
        if(g.chance(4)) payload = "";
        if(payload.empty()) direct = true;
        int64_t hits = 0;
        for(auto &t : subs) {
          if(t->ch.count(channel)) { want[t->id].push_back(msgText(t->push, false, channel, channel, payload)); hits++; }
          for(auto &p : t->pat) if(GlobRef(p).match(channel)) { want[t->id].push_back(msgText(t->push, true, p, channel, payload)); hits++; }
        }
        log.push_back(SSTR((direct ? "publish '" : SSTR(s.id << ": PUBLISH '")) << esc(channel, 30) << "'"));
        ctx().current(what());
        if(direct) {
          int64_t got = pub->publish(channel, payload);
          VF_CHECK(got == hits, "count", "publish returns " << got << " with " << hits << " listening, " << what());
        }
        else {
          want[s.id].push_back(resp::encode(num(hits)));
          s.c->wire.arrive(enc({"PUBLISH", channel, payload}));
          s.c->step();
        }
        expect(want, "message", -1);
        ctx().eval(SSTR("p" << std::min<int64_t>(hits, 400) << direct));
        ctx().count("publishes");
        ctx().count("deliveries", hits);
        if(hits > 200) ctx().count("publishes_to_more_than_two_batches");
      }
      else if(op < 96) {
        log.push_back(SSTR("disconnect " << s.id));
        std::weak_ptr<PendingQueue> w = s.c->conn->getQueue();
        std::vector<std::string> mine(s.ch.begin(), s.ch.end());
        for(auto &p : s.pat) for(auto &c : channels) if(GlobRef(p).match(c)) { mine.push_back(c); break; }
        bool reachable = true;
        for(auto &p : s.pat) { bool any = false; for(auto &c : channels) any = any || GlobRef(p).match(c); reachable = reachable && any; }
        if(g.chance(50)) { std::string rest; s.c->hangup(); }
        subs.erase(subs.begin() + who);
        if(!reachable) continue;
        // forgotten at the latest when something is published which it would have received
        for(auto &c : mine) {
          int64_t hits = 0;
          for(auto &t : subs) {
            if(t->ch.count(c)) { want[t->id].push_back(msgText(t->push, false, c, c, "x")); hits++; }
            for(auto &p : t->pat) if(GlobRef(p).match(c)) { want[t->id].push_back(msgText(t->push, true, p, c, "x")); hits++; }
          }
          int64_t got = pub->publish(c, "x");
          VF_CHECK(got == hits, "count-gone", "publish returns " << got << " with " << hits << " still listening, " << what());
        }
        expect(want, "message", -1);
        VF_CHECK(w.expired(), "remembered", "a disconnected client is still remembered, " << what());
        ctx().eval(SSTR("d" << std::min<size_t>(mine.size(), 9)));
        ctx().count("disconnects");
      }
      else if(op < 98) {
        log.push_back("purge");
        ctx().current(what());
        pub->purgeListeners(Formatter::err("unavailable"));
        for(auto &t : subs) {
          auto o = took(*t);
          bool errs = o.size() <= t->n() && (o.size() > 0) == (t->n() > 0);
          for(auto &x : o) errs = errs && x == "-ERR unavailable\r\n";
          VF_CHECK(errs, "purge", "connection " << t->id << " with " << t->n() << " subscriptions receives " << brief(o) << " when all are dropped, " << what());
          t->ch.clear(); t->pat.clear();
        }
        ctx().eval("purge");
        ctx().count("purges");
      }
      else {
        std::vector<std::string> c = {"PUBLISH"};
        for(int k = g.pick(std::vector<int>{0, 1, 3}); k > 0; k--) c.push_back("a");
        log.push_back(SSTR(s.id << ": " << show(c)));
        s.c->wire.arrive(enc(c)); s.c->step();
        auto o = took(s);
        VF_CHECK(o.size() == 1 && o[0][0] == '-', "args", show(c) << " answers " << brief(o) << " " << what());
        expect(want, "message", -1);
      }
    }
    ctx().sample(what());
    // the end of a publisher is told to those who listen
    if(g.chance(50)) { pub.reset(); for(auto &t : subs) { auto o = took(*t); VF_CHECK((o.size() > 0) == (t->n() > 0), "end", "connection " << t->id << " with " << t->n() << " subscriptions receives " << brief(o) << " at the end"); t->c->conn.reset(); t->c->link.reset(); } }
  }
}

// ---------------------------------------------------------------- in parallel
struct Ev { int kind; uint64_t start = 0, end = 0; bool pattern = false; std::string key; Msg m; };   // 0 subscribed, 1 unsubscribed, 2 message
struct Pubd { uint64_t start, end; std::string channel; int hits; };

static void threads(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    std::unique_ptr<Publisher> pub(new Publisher());
    std::atomic<uint64_t> clock {1};
    std::atomic<bool> go {true};
    const std::vector<std::string> channels = {"a1", "a2", "b1", "b2", "c"}, patterns = {"*", "a*", "?1", "[bc]*", "zz"};
    const int NC = 5, NP = 3;
    std::vector<std::vector<std::vector<Ev>>> streams(NC);     // per thread, per connection
    std::vector<std::vector<Pubd>> pubs(NP);
    // listeners that stay, so that a channel has more than one batch of them
    std::vector<std::unique_ptr<Client>> crowd;
    std::vector<std::unique_ptr<Client>> mine;
    for(int i = 0; i < (round % 2 ? 130 : 0); i++) { crowd.emplace_back(new Client(pub.get())); crowd.back()->conn->authorization = true; crowd.back()->ask({"SUBSCRIBE", "a1"}); if(i % 2) crowd.back()->ask({"PSUBSCRIBE", "a*"}); }
    for(int i = 0; i < NC * 4; i++) { mine.emplace_back(new Client(pub.get())); mine.back()->conn->authorization = true; if(i % 3 == 0) mine.back()->conn->activatePushTypes(); }
    std::vector<std::thread> th;
    for(int t = 0; t < NC; t++) th.emplace_back([&, t] {
      Rng g(seed * 31 + t);
      for(int life = 0; life < 4; life++) {
        Client &c = *mine[t * 4 + life];
        bool push = (t * 4 + life) % 3 == 0;
        std::vector<Ev> ev;
        std::set<std::string> has[2];
        auto drain = [&](std::vector<Ev> *replies, size_t want, const std::string &kind) {
          size_t seen = 0;
          c.collect();
          while(!c.got.empty()) {
            resp::Val v = c.got.front(); c.got.pop_front();
            Ev e; e.kind = 2;
            if(asMessage(v, e.m, push)) { e.pattern = e.m.pattern; e.key = e.m.key; ev.push_back(e); continue; }
            if(push && v.type == '+') continue;
            if(seen >= want) { VF_FAIL("threads:reply", "unexpected reply " << resp::show(v) << ", seed " << seed); return; }
            Ev &r = (*replies)[seen++];
            size_t total = 0;
            if(r.kind == 0) has[r.pattern].insert(r.key); else has[r.pattern].erase(r.key);
            total = has[0].size() + has[1].size();
            std::string w = subReply(push, kind, r.key, total);
            VF_CHECK(resp::encode(v) == w, "threads:count", "reply " << esc(resp::encode(v), 200) << " instead of " << esc(w, 200) << ", seed " << seed);
            ev.push_back(r);
          }
          VF_CHECK(seen == want, "threads:reply", "only " << seen << " of " << want << " replies to " << kind << ", seed " << seed);
        };
        for(int step = 0; step < (life == 3 ? 60 : g.range(10, 60)) && !ctx().failed(); step++) {
          bool pat = g.chance(50), un = g.chance(45);
          std::vector<std::string> cmd = {pat ? (un ? "PUNSUBSCRIBE" : "PSUBSCRIBE") : (un ? "UNSUBSCRIBE" : "SUBSCRIBE")};
          std::string kind = pat ? (un ? "punsubscribe" : "psubscribe") : (un ? "unsubscribe" : "subscribe");
          std::vector<Ev> r;
          int k = g.chance(80) ? 1 : 3;
          uint64_t s0 = clock++;
          for(int i = 0; i < k; i++) { Ev e; e.kind = un; e.pattern = pat; e.key = g.pick(pat ? patterns : channels); e.start = s0; cmd.push_back(e.key); r.push_back(e); }
          c.wire.arrive(enc(cmd));
          c.step();
          uint64_t s1 = clock++;
          for(auto &e : r) e.end = s1;
          drain(&r, r.size(), kind);
          beat++;
          if(g.chance(40)) usleep(g.below(300));
        }
        // over: what had been sent counts
        Ev bye; bye.kind = 3; bye.start = clock++;
        c.disp->notifyDisconnect(c.conn.get());
        c.conn.reset();
        bye.end = clock++;
        std::vector<Ev> none;
        drain(&none, 0, "");
        ev.push_back(bye);
        streams[t].push_back(ev);
        usleep(g.below(500));
      }
    });
    std::vector<std::thread> pt;
    for(int p = 0; p < NP; p++) pt.emplace_back([&, p] {
      Rng g(seed * 77 + p);
      while(go && pubs[p].size() < 3000) {
        Pubd d; d.channel = g.pick(channels);
        std::string payload = SSTR(p << ":" << pubs[p].size());
        d.start = clock++;
        d.hits = pub->publish(d.channel, payload);
        d.end = clock++;
        pubs[p].push_back(d);
        beat++;
        if(g.chance(50)) usleep(g.below(200));
      }
    });
    for(auto &t : th) t.join();
    go = false;
    for(auto &t : pt) t.join();
    // ---- offline: per connection and subscription
    std::map<std::pair<int, int>, int> delivered;
    uint64_t must = 0, may = 0, msgs = 0;
    auto idOf = [&](const std::string &s, int &p, int &n) { return sscanf(s.c_str(), "%d:%d", &p, &n) == 2 && p >= 0 && p < NP && n >= 0 && n < (int) pubs[p].size(); };
    for(auto &thr : streams) for(auto &ev : thr) {
      struct Interval { uint64_t from, confirmed, leaving, left; };
      std::map<std::pair<bool, std::string>, std::vector<Interval>> iv;
      std::map<std::pair<bool, std::string>, std::map<std::pair<int, int>, int>> got;
      std::map<std::pair<bool, std::string>, std::map<int, int>> lastOf;
      std::map<std::pair<bool, std::string>, std::pair<bool, uint64_t>> gone;   // not subscribed any more since: all messages seen so far precede
      std::vector<std::pair<Ev*, std::pair<int, int>>> early;
      for(auto &e : ev) {
        auto k = std::make_pair(e.pattern, e.key);
        if(e.kind == 0) { if(iv[k].empty() || iv[k].back().left != UINT64_MAX) iv[k].push_back({e.start, e.end, UINT64_MAX, UINT64_MAX}); }
        else if(e.kind == 1) { if(!iv[k].empty() && iv[k].back().left == UINT64_MAX) { iv[k].back().leaving = e.start; iv[k].back().left = e.end; } }
        else if(e.kind == 3) { for(auto &x : iv) if(!x.second.empty() && x.second.back().left == UINT64_MAX) { x.second.back().leaving = e.start; x.second.back().left = e.end; } }
        else {
          int p, n;
          if(!idOf(e.m.payload, p, n) || pubs[p][n].channel != e.m.channel) { VF_FAIL("threads:unknown", "delivered a message nobody published on '" << e.m.channel << "': " << esc(e.m.payload, 60)); continue; }
          if(e.pattern ? !GlobRef(e.key).match(e.m.channel) : e.key != e.m.channel) VF_FAIL("threads:mismatch", "delivered for '" << e.key << "' on '" << e.m.channel << "'");
          if(got[k][{p, n}]++) VF_FAIL("threads:twice", "a message is delivered twice for '" << e.key << "' to one connection, seed " << seed);
          delivered[{p, n}]++;
          msgs++;
          auto &l = lastOf[k];
          if(l.count(p) && l[p] >= n) VF_FAIL("threads:order", "messages " << p << ":" << l[p] << " and " << p << ":" << n << " of one publisher arrive in reverse, seed " << seed);
          l[p] = n;
          // in the stream after the confirmation that it ended?
          if(!iv[k].empty() && iv[k].back().left != UINT64_MAX) early.push_back({&e, {p, n}});
        }
      }
      for(auto &x : early) {
        // then the subscription after it must already have been under way
        auto k = std::make_pair(x.first->pattern, x.first->key);
        bool ok = false;
        for(size_t i = 1; i < iv[k].size(); i++) ok = ok || iv[k][i].from <= pubs[x.second.first][x.second.second].end;
        if(!ok) VF_FAIL("threads:after", "a message for '" << x.first->key << "' follows the confirmation that the subscription ended, seed " << seed);
      }
      std::set<std::pair<bool, std::string>> keys;
      for(auto &c : channels) keys.insert({false, c});
      for(auto &p : patterns) keys.insert({true, p});
      for(auto &k : keys) for(int p = 0; p < NP; p++) for(size_t n = 0; n < pubs[p].size(); n++) {
        auto &d = pubs[p][n];
        if(k.first ? !GlobRef(k.second).match(d.channel) : k.second != d.channel) continue;
        bool possible = false, certain = false;
        for(auto &i : iv[k]) { if(i.from <= d.end && i.left >= d.start) possible = true; if(i.confirmed <= d.start && i.leaving >= d.end) certain = true; }
        bool was = got[k].count({p, (int) n});
        if(was && !possible) { VF_FAIL("threads:unsubscribed", "message on '" << d.channel << "' delivered for '" << k.second << "' which was not subscribed then, seed " << seed); break; }
        if(!was && certain) { VF_FAIL("threads:missed", "message on '" << d.channel << "' not delivered for '" << k.second << "', subscribed throughout, seed " << seed); break; }
        must += certain; may += possible && !certain;
      }
    }
    for(size_t i = 0; i < crowd.size(); i++) {
      crowd[i]->collect();
      std::map<std::pair<bool, std::pair<int, int>>, int> n;
      for(auto &v : crowd[i]->got) { Msg m; int p, k; if(!asMessage(v, m, false)) { if(v.kids.size() == 3 && v.kids[2].type == ':') continue; VF_FAIL("threads:crowd", "unexpected " << resp::show(v)); break; } if(!idOf(m.payload, p, k)) { VF_FAIL("threads:unknown", "unknown payload"); break; } n[{m.pattern, {p, k}}]++; delivered[{p, k}]++; }
      uint64_t want = 0;
      for(int p = 0; p < NP; p++) for(size_t k = 0; k < pubs[p].size(); k++) {
        auto &d = pubs[p][k];
        if(d.channel == "a1") { want++; VF_CHECK((n[{false, {p, (int) k}}]) == 1, "threads:crowd", "a message is delivered " << (n[{false, {p, (int) k}}]) << " times to one which listens all the time, seed " << seed); }
        if(i % 2 && d.channel[0] == 'a') { want++; VF_CHECK((n[{true, {p, (int) k}}]) == 1, "threads:crowd", "a message is delivered " << (n[{true, {p, (int) k}}]) << " times by pattern to one which listens all the time, seed " << seed); }
        if(ctx().failed()) break;
      }
      must += want;
    }
    uint64_t total = 0;
    for(int p = 0; p < NP; p++) for(size_t k = 0; k < pubs[p].size() && !ctx().failed(); k++) {
      auto it = delivered.find({p, (int) k});
      int n = it == delivered.end() ? 0 : it->second;
      VF_CHECK(n == pubs[p][k].hits, "threads:hits", "publish returned " << pubs[p][k].hits << " and " << n << " were delivered, seed " << seed);
      total++;
    }
    ctx().eval(SSTR("t" << seed << msgs));
    ctx().count("published_in_parallel", total);
    ctx().count("deliveries_required", must);
    ctx().count("deliveries_optional_by_overlap", may);
    ctx().count("messages_received_in_parallel", msgs);
    mine.clear(); crowd.clear();
  }
}

static void purge(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    std::unique_ptr<Publisher> pub(new Publisher());
    std::atomic<bool> go {true};
    const std::vector<std::string> channels = {"a1", "a2", "b1"}, patterns = {"*", "a*", "?1"};
    std::vector<std::unique_ptr<Client>> c;
    for(int i = 0; i < 6; i++) { c.emplace_back(new Client(pub.get())); c.back()->conn->authorization = true; }
    std::vector<std::thread> th;
    for(int t = 0; t < 6; t++) th.emplace_back([&, t] {
      Rng g(seed * 31 + t);
      for(int step = 0; step < 300; step++) {
        bool pat = g.chance(50), un = g.chance(40);
        c[t]->wire.arrive(enc({pat ? (un ? "PUNSUBSCRIBE" : "PSUBSCRIBE") : (un ? "UNSUBSCRIBE" : "SUBSCRIBE"), g.pick(pat ? patterns : channels)}));
        c[t]->step(); c[t]->got.clear();
        beat++;
        if(g.chance(30)) usleep(g.below(200));
      }
    });
    std::thread p([&] { Rng g(seed); while(go) { pub->publish(g.pick(channels), "x"); beat++; usleep(g.below(100)); } });
    std::thread q([&] { Rng g(seed + 5); int n = 0; while(go) { pub->purgeListeners(Formatter::err("unavailable")); beat++; n++; usleep(g.below(700)); } ctx().count("purges_in_parallel", n); });
    for(auto &t : th) t.join();
    go = false;
    p.join(); q.join();
    // everything agrees again: what is listened to is what is counted
    for(int t = 0; t < 6; t++) { c[t]->collect(); c[t]->got.clear(); }
    for(int t = 0; t < 6; t++) {
      c[t]->collect(); c[t]->got.clear();      // what the others published meanwhile
      // the count first, told by a subscription which certainly is new
      auto r = c[t]->ask({"SUBSCRIBE", "fresh"});
      int64_t n = r.size() == 1 && r[0].kids.size() == 3 ? r[0].kids[2].i - 1 : -1;
      int64_t real = 0;
      for(int k = 0; k < 2; k++) for(auto &key : k ? patterns : channels) {
        auto u = c[t]->ask({k ? "PUNSUBSCRIBE" : "UNSUBSCRIBE", key});
        int64_t m = u.size() == 1 && u[0].kids.size() == 3 ? u[0].kids[2].i - 1 : -1;
        VF_CHECK(m >= 0 && m <= n, "purge:count", "after leaving '" << key << "' the count is " << m + 1 << ", it was " << n + 1 << ", seed " << seed);
        if(m < n) real++;
        n = m;
      }
      VF_CHECK(n == 0, "purge:count", "a connection left everything and is told it has " << n << " subscriptions, seed " << seed);
      int hits = 0;
      for(auto &key : channels) hits += pub->publish(key, "y");
      c[t]->collect();
      size_t heard = c[t]->got.size();
      c[t]->got.clear();
      VF_CHECK(heard == 0, "purge:heard", "a connection left everything and still receives " << heard << " messages");
      // and subscribing works again
      for(auto &key : channels) c[t]->ask({"SUBSCRIBE", key});
      for(auto &key : channels) pub->publish(key, "z");
      c[t]->collect();
      VF_CHECK(c[t]->got.size() == channels.size(), "purge:lost", "a connection subscribed to " << channels.size() << " channels and receives " << c[t]->got.size() << " of " << channels.size() << " messages, seed " << seed);
      c[t]->got.clear();
      ctx().eval(SSTR("pu" << real << seed % 7));
    }
  }
}

// ---------------------------------------------------------------- the containers
struct Walk {
  int kind;     // 0 full, 1 keys, 2 one key, 3 patterns matching
  std::string target;
  ThreadSafeMultiMap<std::string, int>::FullIterator full;
  ThreadSafeMultiMap<std::string, int>::KeyIterator keys;
  ThreadSafeMultiMap<std::string, int>::MatchIterator one;
  std::unique_ptr<SimplePatternMatcher<int>::Iterator> pat;
  std::set<std::pair<std::string, int>> must, ever;
  std::vector<std::pair<std::string, int>> seen;
  bool skipping = false;
};

static void mapMode(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    Rng g(seed);
    ThreadSafeMultiMap<std::string, int> m;
    SimplePatternMatcher<int> pm;
    std::set<std::pair<std::string, int>> model, pmodel;
    std::vector<std::unique_ptr<Walk>> walks;
    std::vector<std::string> keys;
    int nk = g.chance(30) ? 230 : g.range(1, 9), nv = g.chance(30) ? 230 : g.range(1, 6);
    if(nk > 100 && nv > 100) nv = 3;
    for(int i = 0; i < nk; i++) keys.push_back(SSTR("k" << i));
    std::vector<std::string> pats = {"*", "k*", "k?", "k1*", "[kl]*", "zz", "k[0-4]", "?1", "**"};
    int ops = nk * nv > 300 ? 3000 : 700;
    auto has = [&](const std::set<std::pair<std::string, int>> &s, const std::string &k) { auto it = s.lower_bound({k, INT_MIN}); return it != s.end() && it->first == k; };
    for(int i = 0; i < ops && !ctx().failed(); i++) {
      beat++;
      int op = g.below(100);
      int phase = i / 150 % 3;       // growing, mixed, shrinking
      if(op < 45) {
        bool add = g.chance(phase == 0 ? 85 : phase == 1 ? 50 : 15);
        std::string k = g.pick(keys); int v = g.below(nv);
        if(!add && !model.empty() && g.chance(60)) { auto it = model.begin(); std::advance(it, g.below(std::min<size_t>(model.size(), 50))); k = it->first; v = it->second; }
        if(!add && g.chance(10)) { // all of a key
          for(int x = 0; x < nv; x++) { bool r = m.erase(k, x), w = model.erase({k, x}); VF_CHECK(r == w, "map:erase", "erase returns " << r); for(auto &wk : walks) if(wk->kind < 3) wk->must.erase({k, x}); }
          continue;
        }
        bool r = add ? m.insert(k, v) : m.erase(k, v), w = add ? model.emplace(k, v).second : model.erase({k, v});
        VF_CHECK(r == w, "map:result", (add ? "insert" : "erase") << " returns " << r << ", seed " << seed);
        for(auto &wk : walks) if(wk->kind < 3) { if(add) wk->ever.insert({k, v}); else wk->must.erase({k, v}); }
        VF_CHECK(m.size() == model.size(), "map:size", m.size() << " entries instead of " << model.size() << ", seed " << seed);
      }
      else if(op < 55) {
        bool add = g.chance(60);
        std::string k = g.pick(pats); int v = g.below(nv);
        bool r = add ? pm.insert(k, v) : pm.erase(k, v), w = add ? pmodel.emplace(k, v).second : pmodel.erase({k, v});
        VF_CHECK(r == w, "map:presult", (add ? "insert" : "erase") << " of a pattern returns " << r << ", seed " << seed);
        for(auto &wk : walks) if(wk->kind == 3) { if(add) { if(GlobRef(k).match(wk->target)) wk->ever.insert({k, v}); } else wk->must.erase({k, v}); }
        VF_CHECK(pm.size() == pmodel.size(), "map:size", pm.size() << " patterns instead of " << pmodel.size() << ", seed " << seed);
      }
      else if(op < 60 && walks.size() < 6) {
        std::unique_ptr<Walk> w(new Walk);
        w->kind = g.below(4);
        w->target = g.pick(keys);
        size_t st = g.chance(60) ? g.range(1, 3) : 100, st2 = g.chance(60) ? g.range(1, 3) : 100;
        ctx().current(SSTR("map: starting iteration " << w->kind << ", seed " << seed));
        if(w->kind == 0) { w->must = model; w->full = m.getFullIterator(st, st2); }
        else if(w->kind == 1) { for(auto &e : model) w->must.insert(e); w->keys = m.getKeyIterator(st); }
        else if(w->kind == 2) { for(auto &e : model) if(e.first == w->target) w->must.insert(e); w->one = m.findMatching(w->target, st); }
        else { for(auto &e : pmodel) if(GlobRef(e.first).match(w->target)) w->must.insert(e); w->pat.reset(new SimplePatternMatcher<int>::Iterator(pm.find(w->target))); }
        w->ever = w->must;
        walks.push_back(std::move(w));
      }
      else if(!walks.empty()) {
        size_t x = g.below(walks.size());
        Walk &w = *walks[x];
        ctx().current(SSTR("map: iteration " << w.kind << " after " << w.seen.size() << " elements, seed " << seed));
        bool valid = w.kind == 0 ? w.full.valid() : w.kind == 1 ? w.keys.valid() : w.kind == 2 ? w.one.valid() : w.pat->valid();
        if(valid) {
          std::pair<std::string, int> e = w.kind == 0 ? std::make_pair(w.full.getKey(), w.full.getValue()) : w.kind == 1 ? std::make_pair(w.keys.getKey(), -1) : w.kind == 2 ? std::make_pair(w.one.getKey(), w.one.getValue()) : std::make_pair(w.pat->getPattern(), w.pat->getValue());
          if(!w.seen.empty() && !(w.seen.back() < e)) VF_FAIL("map:order", "iteration " << w.kind << " goes from (" << w.seen.back().first << "," << w.seen.back().second << ") to (" << e.first << "," << e.second << "), seed " << seed);
          if(w.kind == 1 ? !has(w.ever, e.first) : !w.ever.count(e)) VF_FAIL("map:phantom", "iteration " << w.kind << " returns (" << e.first << "," << e.second << ") which was never there meanwhile, seed " << seed);
          w.seen.push_back(e);
          int what = g.below(100);
          if(w.kind == 0 && what < 6) {       // skip the rest of this key
            for(auto it = w.must.begin(); it != w.must.end(); ) it = it->first == e.first && !(it->second <= e.second) ? w.must.erase(it) : std::next(it);
            w.full.skipKey();
            continue;
          }
          if(w.kind != 1 && what < 14) {      // erase through the iterator
            auto &mod = w.kind == 3 ? pmodel : model;
            bool r = w.kind == 0 ? w.full.erase() : w.kind == 2 ? w.one.erase() : w.pat->erase(), wn = mod.erase(e);
            VF_CHECK(r == wn, "map:erase", "erase through iteration " << w.kind << " returns " << r << ", seed " << seed);
            for(auto &o : walks) if((o->kind == 3) == (w.kind == 3)) o->must.erase(e);
          }
          if(w.kind == 0) w.full.next(); else if(w.kind == 1) w.keys.next(); else if(w.kind == 2) w.one.next(); else w.pat->next();
          if(w.seen.size() > 200000) { VF_FAIL("map:endless", "an iteration does not end"); break; }
          continue;
        }
        std::set<std::pair<std::string, int>> seen(w.seen.begin(), w.seen.end());
        for(auto &e : w.must) if(w.kind == 1 ? !seen.count({e.first, -1}) : !seen.count(e)) { VF_FAIL("map:missed", "iteration " << w.kind << " ends without (" << e.first << "," << e.second << "), there all the time, seed " << seed); break; }
        ctx().eval(SSTR("m" << w.kind << std::min<size_t>(w.seen.size(), 300) << "/" << std::min<size_t>(w.must.size(), 300)));
        ctx().count("iterations_completed");
        ctx().count("elements_iterated", w.seen.size());
        walks.erase(walks.begin() + x);
      }
    }
    walks.clear();
  }
}

static void mapThreads(int rounds) {
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    uint64_t seed = ctx().seed * 1000 + round;
    ThreadSafeMultiMap<std::string, int> m;
    SimplePatternMatcher<int> pm;
    // even values and keys with even numbers stay
    std::set<std::pair<std::string, int>> stay, pstay;
    for(int k = 0; k < 40; k += 2) for(int v = 0; v < 8; v += 2) { std::string s = SSTR("k" << std::setw(2) << std::setfill('0') << k); m.insert(s, v); stay.insert({s, v}); std::string p = "k*" + std::string(k / 2, '*'); pm.insert(p, v); pstay.insert({p, v}); }
    std::atomic<int64_t> net {0};
    std::atomic<bool> go {true};
    std::vector<std::thread> th;
    for(int t = 0; t < 3; t++) th.emplace_back([&, t] {
      Rng g(seed * 13 + t);
      while(go) {
        int k = g.below(40), v = g.below(8);
        if(k % 2 == 0 && v % 2 == 0) continue;
        std::string s = SSTR("k" << std::setw(2) << std::setfill('0') << k);
        if(g.chance(50)) net += m.insert(s, v); else net -= m.erase(s, v);
        std::string p = "k*" + std::string(k / 2, '*') + (k % 2 ? "?" : "");
        if(k % 2 || v % 2) { if(g.chance(50)) pm.insert(p, v); else pm.erase(p, v); }
      }
    });
    std::vector<std::thread> rd;
    for(int t = 0; t < 3; t++) rd.emplace_back([&, t] {
      Rng g(seed * 17 + t);
      for(int n = 0; n < 60 && !ctx().failed(); n++) {
        beat++;
        std::vector<std::pair<std::string, int>> seen;
        bool p = t == 2;
        if(p) for(auto it = pm.find("kxyz"); it.valid(); it.next()) seen.push_back({it.getPattern(), it.getValue()});
        else for(auto it = m.getFullIterator(g.range(1, 5), g.range(1, 5)); it.valid(); it.next()) seen.push_back({it.getKey(), it.getValue()});
        for(size_t i = 1; i < seen.size(); i++) if(!(seen[i-1] < seen[i])) { VF_FAIL("mapt:order", "an iteration goes back, seed " << seed); break; }
        std::set<std::pair<std::string, int>> s(seen.begin(), seen.end());
        for(auto &e : p ? pstay : stay) if(!s.count(e)) { VF_FAIL("mapt:missed", "an iteration misses (" << e.first << "," << e.second << "), there all the time, seed " << seed); break; }
        ctx().eval(SSTR("mt" << p << seen.size() / 10));
        ctx().count("iterations_in_parallel");
      }
    });
    for(auto &t : rd) t.join();
    go = false;
    for(auto &t : th) t.join();
    size_t n = 0;
    for(auto it = m.getFullIterator(); it.valid(); it.next()) n++;
    VF_CHECK(m.size() == stay.size() + net && n == m.size(), "mapt:size", "size " << m.size() << ", " << n << " elements, " << stay.size() + net << " expected, seed " << seed);
  }
}

// ---------------------------------------------------------------- through nodes
static void node(int rounds) {
  {
    Standalone n(scratch() + "/standalone" + std::to_string(ctx().seed));
    Client a(n.node.get()), b(n.node.get());
    auto is = [&](const std::vector<resp::Val> &r, const std::vector<std::string> &w, const char *what) {
      std::vector<std::string> o; for(auto &v : r) o.push_back(resp::encode(v));
      VF_CHECK(o == w, "node:reply", what << ": " << brief(o) << " instead of " << brief(w));
      ctx().eval(what);
    };
    is(a.ask({"SUBSCRIBE", "c1", "c2"}), {subReply(false, "subscribe", "c1", 1), subReply(false, "subscribe", "c2", 2)}, "subscribe");
    is(b.ask({"ACTIVATE-PUSH-TYPES"}), {"+OK\r\n"}, "activate");
    is(b.ask({"PSUBSCRIBE", "c*"}), {subReply(true, "psubscribe", "c*", 1), "+OK\r\n"}, "psubscribe");
    is(a.ask({"PUBLISH", "c1", "hi"}), {msgText(false, false, "c1", "c1", "hi"), ":2\r\n"}, "publish");
    b.collect();
    is({b.got.begin(), b.got.end()}, {msgText(true, true, "c*", "c1", "hi")}, "pmessage");
    b.got.clear();
    a.hangup();
    is(b.ask({"PUBLISH", "c2", "x"}), {msgText(true, true, "c*", "c2", "x"), ":1\r\n"}, "publish after disconnect");
    // the replies to writes in the same packet keep their place
    Rng g(ctx().seed);
    for(int i = 0; i < 20; i++) {
      Client c(n.node.get());
      std::string in; std::vector<std::string> w; std::set<std::string> subs;
      for(int k = 0; k < 30; k++) {
        std::string ch = "p" + std::to_string(g.below(4));
        switch(g.below(4)) {
          case 0: in += enc({"SET", "k", "v"}); w.push_back("+OK\r\n"); break;
          case 1: in += enc({"SUBSCRIBE", ch}); subs.insert(ch); w.push_back(subReply(false, "subscribe", ch, subs.size())); break;
          case 2: in += enc({"UNSUBSCRIBE", ch}); subs.erase(ch); w.push_back(subReply(false, "unsubscribe", ch, subs.size())); break;
          case 3: in += enc({"PUBLISH", ch, "m"}); if(subs.count(ch)) w.push_back(msgText(false, false, ch, ch, "m")); w.push_back(resp::encode(num(subs.count(ch)))); break;
        }
      }
      c.wire.arrive(in); c.step();
      is({c.got.begin(), c.got.end()}, w, "pipeline");
    }
  }
  for(int round = 0; round < rounds && !ctx().failed(); round++) {
    beat++;
    RaftServer me("127.0.0.1", 7777), o1("127.0.0.1", 7778), o2("127.0.0.1", 7779);
    RaftTimeouts slow(std::chrono::milliseconds(600000), std::chrono::milliseconds(900000), std::chrono::milliseconds(60000));
    RaftNode r(scratch() + "/raft" + std::to_string(round), {me, o1, o2}, me, slow);
    Rng g(ctx().seed + round);
    Client a(&r.d()), b(&r.d());
    a.conn->authorization = b.conn->authorization = true;
    auto one = [&](Client &c, const std::vector<std::string> &q) { auto v = c.ask(q); std::string s; for(auto &x : v) s += resp::encode(x); return s; };
    std::string f = one(a, {"SUBSCRIBE", "x"});
    VF_CHECK(f == "-ERR unavailable\r\n", "node:nobody", "subscribing where no leader is known answers " << esc(f, 100));
    std::set<std::string> subs;
    for(int turn = 0; turn < 4 && !ctx().failed(); turn++) {
      if(!r.ascend()) { VF_FAIL("node:harness", "does not ascend"); break; }
      // leading: everything starts afresh
      r.j().setCommitIndex(r.j().getLogSize() - 1);
      for(int k = 0; k < 3; k++) {
        std::string ch = "ch" + std::to_string(g.below(5));
        bool pat = g.chance(40);
        if(pat) ch += "*";
        subs.insert((pat ? "p" : "s") + ch);
        std::string s = one(a, {pat ? "PSUBSCRIBE" : "SUBSCRIBE", ch}), w = subReply(false, pat ? "psubscribe" : "subscribe", ch, subs.size());
        VF_CHECK(s == w, "node:count", "turn " << turn << ": subscribing answers " << esc(s, 120) << " instead of " << esc(w, 120));
      }
      int want = 0;
      for(auto &s : subs) { std::string c = s.substr(1); if(c == "ch1" || c == "ch1*") want++; }
      std::string s = one(b, {"PUBLISH", "ch1", "m"});
      VF_CHECK(s == resp::encode(num(want)), "node:publish", "publishing answers " << esc(s, 60) << " instead of " << want);
      a.collect();
      VF_CHECK((int) a.got.size() == want, "node:heard", a.got.size() << " messages instead of " << want);
      a.got.clear();
      // a write in flight: what comes later waits behind it
      if(g.chance(60)) {
        a.wire.arrive(enc({"SET", "k", "v"})); a.step();
        std::string w1 = one(a, {"SUBSCRIBE", "late"});
        VF_CHECK(w1.empty(), "node:overtakes", "a reply overtakes that of the write before it: " << esc(w1, 100));
        subs.insert("slate");
      }
      else a.collect();
      // another leader
      RaftTerm t = r.st().getSnapshot()->term + 1;
      RaftAppendEntriesRequest ar;
      ar.term = t; ar.leader = o1; ar.prevIndex = 0; ar.prevTerm = 0; ar.commitIndex = 0;
      r.d().appendEntries(std::move(ar));
      a.collect();
      size_t moved = 0, rest = 0;
      for(auto &v : a.got) { if(v.type == '-' && v.s == "MOVED 0 127.0.0.1:7778") moved++; else rest++; }
      VF_CHECK(moved >= 1 && moved <= subs.size() + 1, "node:moved", "with " << subs.size() << " subscriptions, losing leadership is told " << moved << " times, " << rest << " other replies");
      a.got.clear();
      std::string p = one(b, {"PUBLISH", "ch1", "m"});
      VF_CHECK(p == "-MOVED 0 127.0.0.1:7778\r\n", "node:redirect", "a follower answers PUBLISH with " << esc(p, 100));
      p = one(a, {"SUBSCRIBE", "ch1"});
      VF_CHECK(p == "-MOVED 0 127.0.0.1:7778\r\n", "node:redirect", "a follower answers SUBSCRIBE with " << esc(p, 100));
      subs.clear();
      ctx().eval(SSTR("n" << turn << moved));
      ctx().count("leaderships_lost");
    }
    a.hangup(); b.hangup();
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Link::setConnectionLogging(false);
  if(chdir(freshDir("cwd").c_str()) != 0) return 2;
  Watchdog dog;
  std::string mode = ctx().arg("mode", "seq");
  if(mode == "seq") seq(ctx().n(24, 400));
  else if(mode == "threads") threads(ctx().n(6, 80));
  else if(mode == "purge") purge(ctx().n(10, 150));
  else if(mode == "map") mapMode(ctx().n(120, 3000));
  else if(mode == "mapt") mapThreads(ctx().n(8, 150));
  else if(mode == "node") node(ctx().n(6, 60));
  else { fprintf(stderr, "mode?\n"); return 2; }
  return ctx().finish();
}
