// C13: only a holder of the password gets past authentication.
#include "node.hh"
#include "sha.hh"
#include "redis/Authenticator.hh"
#include "auth/AuthenticationDispatcher.hh"
#include "utils/FileUtils.hh"
#include "utils/Random.hh"
#include <dlfcn.h>
#include <time.h>
using namespace vf;
using namespace quarkdb;

static std::atomic<int64_t> skew {0};   // nanoseconds added to the monotonic clock
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  static int (*real)(clockid_t, struct timespec*) = (int (*)(clockid_t, struct timespec*)) dlsym(RTLD_NEXT, "clock_gettime");
  int rc = real(id, ts);
  if(id == CLOCK_MONOTONIC && skew) {
    int64_t t = (int64_t) ts->tv_sec * 1000000000 + ts->tv_nsec + skew;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  }
  return rc;
}

static std::string rnd(Rng &g, size_t n) { std::string s; for(size_t i = 0; i < n; i++) s += (char) g.next(); return s; }
// something that is not the right digest
static std::string wrong(Rng &g, const std::string &right, const std::string &pw) {
  std::string s = right;
  switch(g.below(8)) {
    case 0: s[g.below(s.size())] ^= 1 << g.below(8); return s;
    case 1: return s.substr(0, g.below(s.size()));
    case 2: return s + std::string(1 + g.below(3), '\0');
    case 3: return pw;
    case 4: return rnd(g, 32);
    case 5: { static const char *hex = "0123456789abcdef"; std::string h; for(unsigned char c : right) { h += hex[c >> 4]; h += hex[c & 15]; } return h; }
    case 6: s[31] ^= 0x80; return s;
    default: std::reverse(s.begin(), s.end()); return s == right ? "x" : s;
  }
}

static void authenticators(int n) {
  std::set<std::string> nonces;
  using A = Authenticator;
  for(int it = 0; it < n && ctx().violations.size() < 6; it++) {
    Rng g(ctx().seed * 271 + it);
    size_t len = g.chance(20) ? g.below(40) : 32 + g.below(g.chance(30) ? 300 : 60);
    if(it < 40) len = it;
    std::string pw = rnd(g, len), trace = "password of " + std::to_string(len) + " bytes:";
    std::unique_ptr<A> a;
    bool refused = throws([&] { a.reset(new A(pw)); });
    bool refused2 = throws([&] { AuthenticationDispatcher d(pw); });
    if(refused != (len > 0 && len < 32) || refused2 != refused) { VF_FAIL("auth:short", "a password of " << len << " bytes is " << (refused ? "refused" : "accepted")); continue; }
    std::string msg = g.bytes(300);
    ctx().eval("len" + std::to_string(len));
    if(A::generateSignature(msg, pw) != hmac256(pw, msg)) { VF_FAIL("auth:digest", "signature of a message of " << msg.size() << " bytes with a key of " << len << " bytes is not its HMAC-SHA256"); continue; }
    if(refused || len == 0) continue;
    bool pending = false;
    int64_t born = 0;
    std::string challenge, shape;
    for(int i = 0; i < 12; i++) {
      ctx().current(trace);
      int k = g.below(10);
      if(k < 4) {
        std::string opp = rnd(g, 64);
        auto before = std::chrono::system_clock::now();
        challenge = a->generateChallenge(opp);
        pending = true;
        born = skew;
        trace += " challenge";
        shape += "c";
        size_t p = opp.size() + 3;
        size_t q = challenge.find("---", p);
        if(challenge.substr(0, 64) != opp || challenge.substr(64, 3) != "---" || q == std::string::npos || challenge.size() != q + 3 + 64) { VF_FAIL("auth:challenge", "malformed challenge " << esc(challenge)); break; }
        std::string nonce = challenge.substr(q + 3);
        if(!nonces.insert(nonce).second || nonce == opp) { VF_FAIL("auth:fresh", "a challenge repeats"); break; }
        size_t zero = 0; for(char c : nonce) zero += (c == 0);
        if(zero > 32) { VF_FAIL("auth:fresh", "a challenge is not random"); break; }
        ctx().count("challenges");
      }
      else if(k == 4) {
        static const std::vector<int64_t> steps = {1, 1000000000, 30000000000, 59000000000, 61000000000, 300000000000};
        int64_t s = g.pick(steps);
        skew += s;
        trace += " +" + std::to_string(s / 1000000) + "ms";
        shape += "t";
      }
      else if(k == 5 && g.chance(30)) { a->resetDeadline(); pending = false; trace += " reset"; shape += "r"; }
      else if(k == 6) {
        std::string opp = rnd(g, 64), mine = rnd(g, 64);
        auto t = std::chrono::system_clock::time_point(std::chrono::milliseconds(g.below(2000000000000ull)));
        challenge = a->generateChallenge(opp, t, mine);
        pending = true;
        born = skew;
        if(challenge != opp + "---" + std::to_string(t.time_since_epoch() / std::chrono::milliseconds(1)) + "---" + mine) { VF_FAIL("auth:challenge", "challenge " << esc(challenge) << " is not made of its parts"); break; }
        trace += " challenge'";
        shape += "C";
      }
      else {
        bool right = g.chance(60);
        std::string sig = hmac256(pw, challenge);
        if(!right) sig = wrong(g, sig, pw);
        int64_t age = skew - born;
        auto st = a->validateSignature(sig);
        ctx().count("answers");
        trace += right ? " right" : " wrong";
        shape += right ? "R" : "W";
        bool ok = st == A::ValidationStatus::kOk;
        bool allowed = right && pending && age <= 60000000000;
        if(age > 59500000000 && age < 60500000000) { pending = false; continue; }
        if(ok && !allowed) { VF_FAIL("auth:accepted", (right ? "a correct answer" : "a wrong answer") << " is accepted " << (pending ? "" : "though no challenge is pending ") << "after " << age / 1000000 << " ms;" << trace); break; }
        if(!ok && allowed) { VF_FAIL("auth:refused", "a correct answer is refused after " << age / 1000000 << " ms;" << trace); break; }
        if(pending && right && age > 60000000000 && st != A::ValidationStatus::kDeadlinePassed) VF_FAIL("auth:status", "a late answer is not reported as such;" << trace);
        if(pending && !right && age < 60000000000 && st != A::ValidationStatus::kInvalidSignature) VF_FAIL("auth:status", "a wrong answer is not reported as such;" << trace);
        pending = false;
      }
    }
    ctx().eval(shape);
    if(it > 40 && it < 44) ctx().sample(trace);
    skew = 0;
  }
  // arguments which cannot make a fresh challenge
  Rng g(ctx().seed);
  std::string pw = rnd(g, 40);
  for(size_t l : {0, 1, 63, 65, 128}) {
    Authenticator a(pw);
    bool t = throws([&] { a.generateChallenge(rnd(g, l)); });
    VF_CHECK(t, "auth:challenge", "a challenge of " << l << " bytes is accepted");
  }
  Authenticator a(pw);
  std::string same = rnd(g, 64);
  VF_CHECK(throws([&] { a.generateChallenge(same, std::chrono::system_clock::now(), same); }), "auth:challenge", "both halves of a challenge may be the same");
  for(size_t n : {1, 2, 64, 1000}) {
    std::string x = generateSecureRandomBytes(n), y = generateSecureRandomBytes(n);
    VF_CHECK(x.size() == n && (n < 32 || x != y), "auth:fresh", "random bytes of the wrong size, or the same twice");
  }
}

// ------------------------------------------------------------------- whole connections
static const char *SECRET = "TOP-SECRET-VALUE";

static bool leaks(const resp::Val &v) { if(v.s.find(SECRET) != std::string::npos) return true; for(auto &k : v.kids) if(leaks(k)) return true; return false; }

static bool session(uint64_t seed, int len) {
  Rng g(seed);
  std::string pw;
  for(int i = 0, n = 32 + g.below(40); i < n; i++) pw += (char) ('!' + g.below(90));
  std::string d = scratch() + "/c13-" + std::to_string(getpid()) + "-" + std::to_string(seed);
  bool requireLocal = g.chance(50);
  std::string pwfile = d + ".pw";
  bool file = g.chance(30);
  std::string conf = requireLocal ? "redis.require_password_for_localhost true\n" : "";
  if(file) {
    { std::ofstream(pwfile) << pw << (g.chance(50) ? "\n" : "") << (g.chance(30) ? " \t\n" : ""); }
    chmod(pwfile.c_str(), 0400);
    conf += "redis.password_file " + pwfile + "\n";
  }
  else conf += "redis.password " + pw + "\n";
  Standalone s(d, conf);
  std::vector<std::string> names;
  for(auto &x : redis_cmd_map) names.push_back(std::string(x.first));
  Client boss(s.node.get());
  std::string trace;
  auto bad = [&](const std::string &k, const std::string &m) { VF_FAIL(k, m << "\n  after" << trace.substr(trace.size() > 3000 ? trace.size() - 3000 : 0)); return false; };
  auto one = [&](Client &c, const std::vector<std::string> &r) { auto v = c.ask(r); return v.empty() ? resp::Val() : v.back(); };
  if(one(boss, {"AUTH", pw}).s != "OK") return bad("auth:password", "the password is refused");
  for(auto &c : std::vector<std::vector<std::string>>{{"SET", "sec", SECRET}, {"HSET", "hsec", "f", SECRET}, {"SADD", "ssec", SECRET}, {"VHSET", "vsec", "f", SECRET}, {"LHSET", "lsec", "f", "h", SECRET}, {"DEQUE_PUSH_BACK", "qsec", SECRET}, {"CONFIG_SET", "csec", SECRET}, {"CLIENT", "setname", SECRET}}) one(boss, c);
  auto state = [&] { std::string o; for(auto &v : boss.ask({"RAW_SCAN", "\x01", "COUNT", "1000"})) o += resp::show(v); return o; };
  std::string before = state();
  if(before.find(SECRET) == std::string::npos) return bad("auth:harness", "the secret is not stored: " + before.substr(0, 300));
  std::vector<std::string> hosts = {"client.example", "localhost", "127.0.0.1", "::1", "localhost6", "localhost.evil", "127.0.0.10", "LOCALHOST", ""};
  std::string host = g.chance(70) ? hosts[0] : g.pick(hosts);
  bool local = host == "localhost" || host == "127.0.0.1" || host == "::1" || host == "localhost6";
  bool exempt = local && !requireLocal;
  Client c(s.node.get(), host);
  trace += " host '" + host + "'" + (requireLocal ? " (localhost needs the password)" : "");
  std::string challenge, oldChallenge, shape = exempt ? "X" : "";
  bool multi = false;
  for(int i = 0; i < len && !c.dead; i++) {
    std::vector<std::string> r;
    int k = g.below(100);
    bool proof = false;
    if(k < 8) { r = {"HMAC-AUTH-GENERATE-CHALLENGE", rnd(g, g.chance(85) ? 64 : g.below(130) + 1)}; shape += "g"; }
    else if(k < 18) {
      std::string right = hmac256(pw, g.chance(80) || oldChallenge.empty() ? challenge : oldChallenge);
      r = {g.chance(50) ? "HMAC_AUTH_VALIDATE_CHALLENGE" : "hmac-auth-validate-challenge", wrong(g, right, pw)};
      if(g.chance(15)) r[1] = hmac256(pw, oldChallenge);
      if(r[1].empty()) continue;
      proof = !challenge.empty() && r[1] == hmac256(pw, challenge);
      if(proof) continue;
      shape += "v";
    }
    else if(k < 26) {
      static const std::vector<int> how = {0, 1, 2, 3, 4, 5};
      std::string p = pw;
      switch(g.pick(how)) { case 0: p = p.substr(0, p.size() - 1); break; case 1: p += "x"; break; case 2: p[g.below(p.size())] ^= 1; break; case 3: p = "a"; break; case 4: p = std::string(40, 'a'); break; default: p += std::string(1, '\0'); }
      r = {"AUTH", p};
      if(g.chance(10)) r = {"AUTH"};
      if(g.chance(10)) r = {"AUTH", pw, "x"};
      shape += "a";
    }
    else if(k < 36) { r = {"MULTI"}; shape += "m"; }
    else if(k < 42) { r = {"EXEC"}; shape += "e"; }
    else {
      std::string n = g.pick(names);
      std::string low = n; for(auto &ch : low) if(ch == '-') ch = '_';
      if(low == "debug" || low == "auth" || low.find("hmac") == 0 || low.find("slow_write") != std::string::npos) n = "GET";
      r = {n};
      static const std::vector<std::string> args = {"sec", "hsec", "ssec", "vsec", "lsec", "qsec", "f", "h", "0", "1", "10", "*", "COUNT", "csec", "x", "getname", "leader"};
      for(size_t j = g.below(4); j > 0 && r.size() < 4; j--) r.push_back(g.pick(args));
      shape += low.substr(0, 5);
    }
    trace += " " + vf::show(r);
    ctx().current(trace);
    std::string up = r[0]; for(auto &ch : up) ch = ch == '_' ? '-' : toupper(ch);
    // pipelines too
    std::vector<resp::Val> v = c.ask(r);
    if(c.malformed) return bad("auth:reply", "malformed reply");
    if(exempt) { if(v.size() == 1 && v[0].s.find("NOAUTH") == 0) return bad("auth:localhost", "a client from localhost needs a password which is not required: " + resp::show(v[0])); ctx().count("exempt_requests"); if(!v.empty() && v[0].type == '-') {} if(up == "FLUSHALL" || up == "MONITOR") break; if(i > 10) break; continue; }
    for(auto &x : v) {
      if(leaks(x)) return bad("auth:leak", "without the password, " + vf::show(r) + " reveals " + resp::show(x));
      bool fine = x.type == '-';
      if(up == "HMAC-AUTH-GENERATE-CHALLENGE" && x.type == '$' && x.s.substr(0, 64) == r[1]) { fine = true; oldChallenge = challenge; challenge = x.s; ctx().count("challenges"); }
      if(up == "MULTI" || up == "DISCARD") fine |= x.s == "OK";
      if(x.s == "QUEUED" && multi) fine = true;
      if(up == "EXEC" && x.type == '*' && x.kids.empty()) fine = true;
      if(!fine) return bad("auth:effect", "without the password, " + vf::show(r) + " replies " + resp::show(x));
    }
    // within MULTI it is refused without being looked at, and the challenge stays
    if(up == "HMAC-AUTH-VALIDATE-CHALLENGE" && !multi) { oldChallenge = challenge; challenge.clear(); }
    if(up == "MULTI" && v.size() == 1 && v[0].s == "OK") multi = true;
    if(up == "EXEC" || up == "DISCARD") multi = false;
    ctx().count("requests_refused");
  }
  if(!exempt) {
    if(state() != before) return bad("auth:effect", "a client without the password changed the data");
    // published messages stay away from strangers
    one(boss, {"PUBLISH", "sec", SECRET});
    one(boss, {"VHSET", "vsec", "f2", SECRET});
    usleep(2000);
    c.collect();
    for(auto &x : c.got) if(leaks(x)) return bad("auth:leak", "a stranger receives " + resp::show(x));
    c.got.clear();
    if(!c.dead) {
      if(multi) c.ask({"DISCARD"});
      // the password still opens the door, and only for this connection
      if(g.chance(50)) {
        auto v = one(c, {"HMAC-AUTH-GENERATE-CHALLENGE", rnd(g, 64)});
        auto w = one(c, {"HMAC-AUTH-VALIDATE-CHALLENGE", hmac256(pw, v.s)});
        if(w.s != "OK") return bad("auth:refused", "a correct answer is refused: " + resp::show(w));
        trace += " proof";
        if(g.chance(30)) { auto again = one(c, {"HMAC-AUTH-VALIDATE-CHALLENGE", hmac256(pw, v.s)}); if(again.type != '-') return bad("auth:reuse", "a challenge can be answered twice"); one(c, {"AUTH", pw}); }
      }
      else if(one(c, {"AUTH", pw}).s != "OK") return bad("auth:refused", "the password is refused");
      auto v = one(c, {"GET", "sec"});
      if(v.s != SECRET) return bad("auth:refused", "after authentication GET replies " + resp::show(v));
      Client other(s.node.get());
      v = one(other, {"GET", "sec"});
      if(v.type != '-') return bad("auth:leak", "another connection is authenticated too");
      ctx().count("proofs_accepted");
    }
  }
  ctx().eval(shape);
  ctx().sample(trace);
  system(("rm -rf '" + d + "' '" + pwfile + "'").c_str());
  return true;
}

static void files() {
  std::string p = scratch() + "/pw-" + std::to_string(getpid());
  Rng g(ctx().seed);
  for(unsigned m = 0; m < 01000; m++) {
    bool want = m == 0400;
    for(unsigned extra : {0u, (unsigned) S_IFREG, (unsigned) S_IFREG | S_ISVTX}) VF_CHECK(areFilePermissionsSecure(m | extra) == want, "auth:file", "mode " << std::oct << m << " is " << (want ? "refused" : "accepted"));
    ctx().eval("mode" + std::to_string(m));
    if(m != 0400 && m % 5) continue;
    std::string pw = "0123456789abcdef0123456789abcdef-" + std::to_string(m), got;
    unlink(p.c_str());
    { std::ofstream(p) << pw << "\n"; }
    chmod(p.c_str(), m);
    bool ok = readPasswordFile(p, got);
    VF_CHECK(ok == want && (!ok || got == pw), "auth:file", "a password file of mode " << std::oct << m << " is " << (ok ? "accepted as '" + esc(got) + "'" : "refused"));
  }
  for(int it = 0; it < 60; it++) {
    std::string pw = std::string(it, 'p'), d = p + ".dir" + std::to_string(it);
    unlink(p.c_str());
    { std::ofstream(p) << pw << " \n\t"; }
    chmod(p.c_str(), it % 7 == 3 ? 0440 : 0400);
    bool file = it % 2;
    if(!file && pw.empty()) continue;
    bool refused = throws([&] { Standalone s(d, file ? "redis.password_file " + p + "\n" : "redis.password " + pw + "\n"); });
    bool want = (it > 0 && it < 32) || (file && it % 7 == 3);
    VF_CHECK(refused == want, "auth:short", "a node with a password of " << it << " bytes" << (file && it % 7 == 3 ? " readable by others" : "") << (refused ? " does not start" : " starts"));
    system(("rm -rf '" + d + "'").c_str());
    ctx().eval("boot" + std::to_string(it));
  }
  unlink(p.c_str());
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  if(chdir(scratch().c_str()) != 0) return 2;
  std::string mode = ctx().arg("mode", "authenticator");
  if(mode == "authenticator") { authenticators(ctx().n(4000, 20)); files(); }
  else { int n = ctx().n(120, 20); for(int i = 0; i < n; i++) if(!session(ctx().seed * 1009 + i, 40)) break; }
  return ctx().finish();
}
