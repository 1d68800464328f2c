// C10: requests parse the same however their bytes arrive; malformed input; limits before authentication.
#include "node.hh"
#include "RedisParser.hh"
#include "BufferedReader.hh"
#include "memory/PinnedBuffer.hh"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vf;
using namespace quarkdb;

typedef std::vector<std::string> Req;

static std::string wire(const Req &c) {
  std::string o = "*" + std::to_string(c.size()) + "\r\n";
  for(auto &a : c) o += "$" + std::to_string(a.size()) + "\r\n" + a + "\r\n";
  return o;
}
static std::string show(const std::vector<Req> &rs) { std::string o; for(auto &r : rs) o += " " + vf::show(r); return o.substr(0, 3000); }

// What the bytes mean: complete requests, then an error, an unfinished request or the end.
struct Meaning { std::vector<Req> reqs; bool error = false; };
static int size(const std::string &d, size_t &p, char prefix, bool authenticated, int64_t &v) {
  size_t e = d.find('\n', p);
  if(e == std::string::npos) return 0;
  std::string line = d.substr(p, e - p);
  p = e + 1;
  if(line.size() < 3 || line[0] != prefix || line.back() != '\r') return -1;
  line = line.substr(1, line.size() - 2);
  if(line.empty() || line.size() > 19) return -1;
  v = 0;
  for(char c : line) { if(c < '0' || c > '9') return -1; v = v * 10 + (c - '0'); if(v > 2147483640) return -1; }
  return 1;
}
static Meaning meaning(const std::string &d, bool authenticated) {
  Meaning m;
  size_t p = 0;
  while(p < d.size()) {
    int64_t n;
    int rc = size(d, p, '*', authenticated, n);
    if(rc == 0) return m;
    if(rc < 0 || n == 0 || (!authenticated && n >= 5)) { m.error = true; return m; }
    Req r;
    bool zero = false;
    for(int64_t i = 0; i < n; i++) {
      int64_t len;
      rc = size(d, p, '$', authenticated, len);
      if(rc == 0) return m;
      if(rc < 0 || (!authenticated && len >= 1048576)) { m.error = true; return m; }
      if(d.size() - p < (size_t) len + 2) return m;
      if(d[p + len] != '\r' || d[p + len + 1] != '\n') { m.error = true; return m; }
      r.push_back(d.substr(p, len));
      zero |= (len == 0);
      p += len + 2;
    }
    if(zero) { m.error = true; return m; }   // refused on purpose
    m.reqs.push_back(r);
  }
  return m;
}

static std::vector<std::string> cut(Rng &g, const std::string &s, int how) {
  std::vector<std::string> o;
  size_t p = 0;
  while(p < s.size()) {
    size_t n;
    switch(how) {
      case 0: n = s.size(); break;
      case 1: n = 1; break;
      case 2: n = 1 + g.below(7); break;
      case 3: n = 1 + g.below(3000); break;
      case 4: { size_t e = s.find('\r', p + 1); n = e == std::string::npos ? s.size() : e - p + (g.chance(50) ? 1 : 0); if(n == 0) n = 1; break; }
      case 5: n = 32768; break;
      case 6: n = 32767 + g.below(3); break;
      default: n = g.chance(50) ? 1 : 1 + g.below(70000); break;
    }
    o.push_back(s.substr(p, n));
    p += n;
  }
  return o;
}

// feed in pieces; requests must come out as soon as they are complete
static bool feed(Rng &g, const std::string &bytes, int how, bool auth, const Meaning &want, const std::string &what) {
  WireLink w;
  Link link(&w);
  RedisParser parser(&link);
  std::vector<Req> got;
  std::deque<RedisRequest> kept;
  bool error = false;
  std::string upto;
  auto pieces = cut(g, bytes, how);
  std::string label = what + ", " + std::to_string(bytes.size()) + " bytes in " + std::to_string(pieces.size()) + " pieces: " + esc(bytes, 300) + (bytes.size() > 300 ? " ... " + esc(bytes.substr(bytes.size() - std::min<size_t>(bytes.size(), 120))) : "");
  ctx().current(label);
  std::unique_ptr<RedisRequest> r(new RedisRequest());
  bool check = pieces.size() <= 300;
  for(auto &x : pieces) {
    upto += x;
    w.arrive(x);
    int rc;
    while((rc = parser.fetch(*r, auth)) > 0) {
      Req q;
      for(size_t i = 0; i < r->size(); i++) q.emplace_back((*r)[i]);
      got.push_back(q);
      if(got.size() > want.reqs.size()) { VF_FAIL("parse:extra", "delivers " << vf::show(q) << " which was not sent; " << label); return false; }
      if(g.chance(20) && kept.size() < 8) { kept.push_back(std::move(*r)); r.reset(new RedisRequest()); }   // requests outlive the next ones
    }
    if(rc < 0) { error = true; break; }
    if(check) {
      Meaning now = meaning(upto, auth);
      if(now.reqs.size() != got.size()) { VF_FAIL("parse:late", "after " << upto.size() << " bytes " << got.size() << " requests were delivered, but " << now.reqs.size() << " are complete; " << label); return false; }
      if(now.error) { VF_FAIL("parse:accepted", "malformed bytes are accepted; " << label); return false; }
    }
  }
  if(got != want.reqs) {
    size_t i = 0;
    while(i < got.size() && i < want.reqs.size() && got[i] == want.reqs[i]) i++;
    VF_FAIL("parse:requests", "request " << i << " is " << (i < got.size() ? vf::show(got[i]) : std::string("missing")) << ", sent " << (i < want.reqs.size() ? vf::show(want.reqs[i]) : std::string("nothing")) << "; " << label);
    return false;
  }
  if(error != want.error) {
    if(error) VF_FAIL("parse:refused", "well-formed bytes end the connection; " << label);
    else VF_FAIL("parse:accepted", "malformed bytes are accepted; " << label);
    return false;
  }
  for(auto &k : kept) { bool found = false; Req q; for(size_t i = 0; i < k.size(); i++) q.emplace_back(k[i]); for(auto &x : want.reqs) found |= (x == q); if(!found) { VF_FAIL("parse:kept", "a request changed after it was delivered: " << vf::show(q) << "; " << label); return false; } }
  ctx().count("pieces", pieces.size());
  ctx().count("requests_parsed", got.size());
  ctx().count(error ? "streams_refused" : "streams_accepted");
  return true;
}

static Req randomReq(Rng &g, bool auth) {
  Req r;
  size_t n = auth ? (g.chance(5) ? 1 + g.below(300) : 1 + g.below(7)) : 1 + g.below(4);
  for(size_t i = 0; i < n; i++) {
    std::string a;
    switch(g.below(12)) {
      case 0: a = std::string(1 + g.below(70000), 'a' + g.below(20)); break;
      case 1: a = std::string(32760 + g.below(16), 'b'); break;
      case 2: a = "\r\n"; break;
      case 3: a = "*1\r\n$1\r\nx\r\n"; break;
      case 4: { static const std::vector<std::string> cmds = {"GET", "set", "hSet", "EXEC", "multi", "nosuch"}; a = g.pick(cmds); break; }
      default: do a = g.bytes(40); while(a.empty());
    }
    r.push_back(a);
  }
  return r;
}

static void streams(int n) {
  for(int it = 0; it < n && ctx().violations.size() < 6; it++) {
    Rng g(ctx().seed * 7919 + it);
    bool auth = g.chance(75);
    std::string bytes;
    std::vector<Req> sent;
    size_t k = 1 + g.below(g.chance(10) ? 200 : 12);
    for(size_t i = 0; i < k && bytes.size() < 400000; i++) { sent.push_back(randomReq(g, auth)); bytes += wire(sent.back()); }
    std::string what = "valid";
    if(g.chance(60)) {
      what = "damaged";
      std::string was = bytes;
      for(int j = 1 + g.below(2); j > 0; j--) {
        size_t p = g.below(bytes.size());
        if(g.chance(60)) { std::string marks = "*$\r\n"; size_t q = bytes.find(marks[g.below(4)], p); if(q != std::string::npos) p = q; if(g.chance(50) && p + 1 < bytes.size()) p++; }
        switch(g.below(8)) {
          case 0: bytes[p] = (char) g.next(); break;
          case 1: bytes.erase(p, 1 + g.below(3)); break;
          case 2: bytes.insert(p, g.bytes(4)); break;
          case 3: bytes.resize(p); break;
          case 4: { static const std::vector<std::string> sizes = {"-1", "0", "-2", "4294967297", "99999999999999999999", "2147483647", "2147483648", "1\0""1", "+1", " 1", "", "1 ", "0x1", "-9223372036854775808", "18446744073709551617", "1000000", "03"};
                    bytes.insert(p, (g.chance(50) ? "*" : "$") + g.pick(sizes) + "\r\n"); break; }
          case 5: { size_t q = bytes.find_first_of("*$", p); if(q != std::string::npos) { size_t e = bytes.find('\r', q); if(e != std::string::npos) { static const std::vector<std::string> sizes = {"-1", "-2", "0", "-3", "4294967296", "4294967301", "2147483647", "", "-0", "1000000000"}; bytes.replace(q + 1, e - q - 1, g.pick(sizes)); } } break; }
          case 6: { size_t q = bytes.find('\r', p); if(q != std::string::npos) bytes.erase(q, 1); break; }
          default: { size_t q = bytes.find('\n', p); if(q != std::string::npos) bytes[q] = ' '; break; }
        }
        if(bytes.empty()) bytes = "\n";
      }
    }
    Meaning m = meaning(bytes, auth);
    if(what == "valid" && (m.error || m.reqs != sent)) { fprintf(stderr, "VF-HARNESS-ERROR reference parser\n"); _exit(2); }
    // a line of which the end never comes may be refused, or waited for
    {
      size_t nl = bytes.rfind('\n');
      size_t tail = bytes.size() - (nl == std::string::npos ? 0 : nl + 1);
      if(!m.error && tail > 24) {
        std::string whole = bytes + "\n";
        // only when the parser would be reading a line at that point
        if(meaning(whole, auth).error) continue;
      }
    }
    int a = g.below(8), b = g.below(8);
    if(bytes.size() > 3000 && a == 1) a = 3;
    if(bytes.size() > 3000 && b == 1) b = 7;
    if(!feed(g, bytes, a, auth, m, what) || !feed(g, bytes, b, auth, m, what)) continue;
    ctx().eval(what + std::to_string(a * 8 + b) + (auth ? "a" : "u") + std::to_string(m.reqs.size()) + (m.error ? "e" : "") + std::to_string(hash64(bytes) % 100000));
    if(it < 4) ctx().sample(what + " stream" + ::show(m.reqs) + (m.error ? " then error" : ""));
  }
}

// ---------------------------------------------------------------- reader on its own
static void reader(int n) {
  for(int it = 0; it < n && ctx().violations.size() < 6; it++) {
    Rng g(ctx().seed * 104729 + it);
    WireLink w;
    Link link(&w);
    size_t bsize = g.chance(50) ? 1 + g.below(40) : 1 + g.below(3000);
    BufferedReader rd(&link, bsize);
    std::string all, trace;
    size_t pos = 0;
    std::deque<std::pair<PinnedBuffer, std::string>> pinned;
    PinnedBuffer again;                  // filled again and again
    for(int i = 0, ops = 5 + g.below(60); i < ops; i++) {
      if(g.chance(45)) {
        std::string s;
        size_t len = g.chance(30) ? bsize * g.below(4) + g.below(3) : 1 + g.below(2 * bsize + 20);
        for(size_t j = 0; j < len; j++) s += (char) g.next();
        all += s;
        w.arrive(s);
        trace += " +" + std::to_string(s.size());
      }
      else {
        size_t len = g.chance(30) ? bsize : 1 + g.below(2 * bsize + 10);
        bool pin = g.chance(50);
        trace += (pin ? " p" : " c") + std::to_string(len);
        ctx().current("buffer " + std::to_string(bsize) + ":" + trace);
        std::string s("untouched");
        PinnedBuffer fresh, &b = g.chance(50) ? again : fresh;
        int rc = pin ? rd.consume(len, b) : rd.consume(len, s);
        bool enough = all.size() - pos >= len;
        if(rc < 0 || (rc > 0) != enough) { VF_FAIL("reader:status", "consume(" << len << ") returns " << rc << " while " << (all.size() - pos) << " bytes are there; buffer " << bsize << ":" << trace); break; }
        if(!enough) continue;
        std::string got = pin ? std::string(b.sv()) : s;
        if(got != all.substr(pos, len)) { VF_FAIL("reader:bytes", "consume(" << len << ") returns other bytes than arrived; buffer " << bsize << ":" << trace); break; }
        pos += len;
        if(pin && pinned.size() < 20) pinned.emplace_back(b, got);
        ctx().count("reads");
      }
      for(auto &x : pinned) if(x.first.sv() != x.second) { VF_FAIL("reader:pinned", "a buffer handed out earlier changed; buffer " << bsize << ":" << trace); return; }
      if(pinned.size() > 10) pinned.pop_front();
    }
    w.closed = true;
    std::string s;
    size_t left = all.size() - pos;
    if(left && rd.consume(left, s) > 0 && s != all.substr(pos)) VF_FAIL("reader:bytes", "other bytes than arrived before the end; buffer " << bsize << ":" << trace);
    if(rd.consume(1000000, s) >= 0) VF_FAIL("reader:closed", "a closed link is not reported; buffer " << bsize << ":" << trace);
    ctx().eval("r" + std::to_string(bsize) + trace.substr(0, 60));
  }
}

// ---------------------------------------------------------------- bounds
static void bounds() {
  struct Case { std::string name, once, rep; bool auth; size_t total; };
  std::string big(1048575, 'x');
  std::vector<Case> cases = {
    {"endless digits of a request size", "*", std::string(4096, '1'), false, 64u << 20},
    {"endless digits of an argument size", "*2\r\n$", std::string(4096, '0'), false, 64u << 20},
    {"an endless line", "", std::string(4096, 'z'), false, 64u << 20},
    {"requests of the largest accepted size", "", "*4\r\n$1048575\r\n" + big + "\r\n$1048575\r\n" + big + "\r\n$1048575\r\n" + big + "\r\n$1048575\r\n" + big + "\r\n", false, 48u << 20},
    {"an argument that is too large", "*2\r\n$1048576\r\n", std::string(4096, 'z'), false, 64u << 20},
    {"a huge announced argument", "*1\r\n$2000000000\r\n", std::string(4096, 'z'), false, 64u << 20},
    {"a huge announced request", "*2000000000\r\n", "$1\r\nx\r\n", false, 8u << 20},
    {"a huge announced request of a known client", "*2000000000\r\n", "$1\r\nx\r\n", true, 1u << 16},
    {"a negative request", "*-1\r\n", "$1\r\nx\r\n", true, 1u << 16},
    {"a negative argument", "*1\r\n$-2\r\n", "\r\n\r\n", true, 1u << 16},
  };
  for(auto &c : cases) {
    ctx().current(c.name);
    WireLink w;
    Link link(&w);
    RedisParser p(&link);
    w.arrive(c.once);
    RedisRequest r;
    size_t fed = 0, before = __sanitizer_get_current_allocated_bytes(), worst = 0, delivered = 0;
    bool ended = false;
    size_t off = 0;
    while(fed < c.total && !ended) {
      size_t n = std::min<size_t>(c.rep.size() - off, 65536);
      w.arrive(c.rep.substr(off, n));
      off = (off + n) % c.rep.size();
      fed += n;
      int rc;
      while((rc = p.fetch(r, c.auth)) > 0) delivered++;
      if(rc < 0) ended = true;
      worst = std::max(worst, __sanitizer_get_current_allocated_bytes() - before);
      if(worst > (200u << 20)) break;
    }
    size_t limit = c.auth ? 8u << 20 : 12u << 20;
    ctx().count("bytes_offered", fed);
    ctx().eval(c.name);
    if(worst > limit) VF_FAIL("bounds:memory", c.name << ": " << worst << " bytes are held for " << fed << " received, without authentication=" << !c.auth << ", ended=" << ended);
    ctx().sample(c.name + ": at most " + std::to_string(worst) + " bytes held, " + std::to_string(delivered) + " requests, " + (ended ? "ended" : "still open"), 12);
  }
}

// ---------------------------------------------------------------- a whole connection
// The same bytes in different pieces must give the same replies and the same data.
static void connections(int n) {
  for(int it = 0; it < n && ctx().violations.size() < 6; it++) {
    Rng g(ctx().seed * 31 + it);
    std::string bytes;
    std::vector<Req> sent;
    size_t k = 1 + g.below(12);
    bool multi = false;
    for(size_t i = 0; i < k; i++) {
      Req r;
      std::string key = "k" + std::to_string(g.below(3)), h = "h" + std::to_string(g.below(3));
      switch(g.below(10)) {
        case 0: case 1: r = {"SET", key, g.chance(20) ? std::string(g.below(60000) + 1, 'v') : "v" + std::to_string(i)}; break;
        case 2: r = {"GET", key}; break;
        case 3: r = {"HMSET", h, "a", "1", "b", std::to_string(i)}; break;
        case 4: r = {"HGETALL", h}; break;
        case 5: r = {"SADD", "s", "1", "2", "3", std::to_string(g.below(9) + 1)}; break;
        case 6: r = {"SMEMBERS", "s"}; break;
        case 7: r = {"PING", "abc"}; break;
        case 8: if(multi) { r = {"EXEC"}; multi = false; } else { r = {"MULTI"}; multi = true; } break;
        default: r = {"DEL", key, h, "s"}; break;
      }
      sent.push_back(r);
      bytes += wire(r);
    }
    bool bad = g.chance(25);
    if(bad) bytes += g.chance(50) ? "*x\r\n" : "*1\r\n$-5\r\n";
    std::string first;
    std::string dir = scratch() + "/c10-" + std::to_string(getpid()) + "-" + std::to_string(it);
    for(int round = 0; round < 3; round++) {
      std::string d = dir + "-" + std::to_string(round);
      std::string outcome;
      {
        Standalone s(d);
        Client c(s.node.get());
        auto pieces = cut(g, bytes, round == 0 ? 0 : round == 1 ? (bytes.size() < 3000 ? 1 : 3) : (int) g.below(8));
        std::string label = "node without a password, " + std::to_string(pieces.size()) + " pieces:" + ::show(sent);
        ctx().current(label);
        std::string raw;
        size_t replies = 0;
        for(auto &x : pieces) { c.wire.arrive(x); bool open = c.step(); if(!open) break; }
        c.collect();
        if(c.malformed) { VF_FAIL("conn:reply", "malformed replies; " << label); return; }
        for(auto &v : c.got) { outcome += resp::show(v) + "\n"; replies++; }
        if(replies != sent.size()) { VF_FAIL("conn:count", replies << " replies to " << sent.size() << " requests" << (c.dead ? ", and the connection was ended" : "") << "; " << label); return; }
        if(c.dead != bad) { VF_FAIL("conn:end", "the connection is " << (c.dead ? "ended" : "left open") << "; " << label); return; }
        Client q(s.node.get());
        for(const char *key : {"k0", "k1", "k2"}) for(auto &v : q.ask({"GET", key})) outcome += resp::show(v) + "\n";
        for(const char *key : {"h0", "h1", "h2"}) for(auto &v : q.ask({"HGETALL", key})) outcome += resp::show(v) + "\n";
        for(auto &v : q.ask({"SMEMBERS", "s"})) outcome += resp::show(v) + "\n";
      }
      if(round == 0) first = outcome;
      else if(first != outcome) { VF_FAIL("conn:split", "the same bytes in other pieces give\n" << outcome << "instead of\n" << first << "for" << ::show(sent)); return; }
      system(("rm -rf '" + d + "'").c_str());
    }
    ctx().count("connections", 3);
    ctx().eval("conn" + std::to_string(hash64(bytes)));
    if(it < 2) ctx().sample("connection" + ::show(sent));
  }
}

// what a stranger can make the node hold
static void stranger() {
  const std::string pw = "a-password-that-is-long-enough-for-all";
  std::string d = scratch() + "/c10-stranger-" + std::to_string(getpid());
  {
    Standalone s(d, "redis.password " + pw + "\n");
    struct Case { std::string name, once, rep; };
    std::string v(900000, 'x');
    std::vector<Case> cases = {
      {"a MULTI block", "*1\r\n$5\r\nMULTI\r\n", wire({"SET", "k", v})},
      {"writes", "", wire({"SET", "k", v})},
      {"reads", "", wire({"GET", v})},
      {"subscriptions", "", wire({"SUBSCRIBE", v})},
      {"pings", "", wire({"PING", v})},
      {"challenges", "", wire({"HMAC-AUTH-GENERATE-CHALLENGE", std::string(64, 'r')})},
    };
    for(auto &c : cases) {
      Client cl(s.node.get());
      ctx().current("stranger: " + c.name);
      size_t before = __sanitizer_get_current_allocated_bytes(), worst = 0, fed = 0, off = 0;
      cl.wire.arrive(c.once);
      while(fed < (220u << 20) && worst < (190u << 20)) {
        size_t n = std::min<size_t>(c.rep.size() - off, 1 << 20);
        cl.wire.arrive(c.rep.substr(off, n));
        off = (off + n) % c.rep.size();
        fed += n;
        bool open = cl.step();
        cl.got.clear();
        if(!open) break;
        size_t now = __sanitizer_get_current_allocated_bytes();
        if(now > before) worst = std::max(worst, now - before);
        if(c.rep.size() < 1000 && fed > (1 << 20)) break;
      }
      ctx().eval("stranger" + c.name);
      ctx().sample("stranger sending " + c.name + ": at most " + std::to_string(worst) + " bytes held of " + std::to_string(fed), 12);
      // a batch of a hundred writes may be pending
      if(worst > (150u << 20)) VF_FAIL("bounds:stranger", "a client which never authenticated makes the node hold " << worst << " bytes with " << c.name);
    }
    Client q(s.node.get());
    q.ask({"AUTH", pw});
    auto r = q.ask({"EXISTS", "k"});
    if(r.size() != 1 || r[0].i != 0) VF_FAIL("conn:stranger", "data of a client which never authenticated was stored");
  }
  system(("rm -rf '" + d + "'").c_str());
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  std::string mode = ctx().arg("mode", "streams");
  if(mode == "streams") streams(ctx().n(1000, 20));
  else if(mode == "reader") reader(ctx().n(30000, 10));
  else if(mode == "bounds") { bounds(); stranger(); }
  else connections(ctx().n(150, 10));
  return ctx().finish();
}
