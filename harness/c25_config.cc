// C25: configuration text against an independent reading of it.
#include "qdb.hh"
#include "Configuration.hh"
#include "config/ConfigurationReader.hh"
#include "raft/RaftCommon.hh"
using namespace vf;
using namespace quarkdb;

static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }

struct Word { std::string text; size_t line; };
static std::vector<Word> words(const std::string &t) {
  std::vector<Word> o;
  size_t line = 0;
  for(size_t i = 0; i < t.size();) {
    if(t[i] == '\n') line++;
    if(ws(t[i])) { i++; continue; }
    size_t e = i;
    while(e < t.size() && !ws(t[e])) e++;
    o.push_back({t.substr(i, e - i), line});
    i = e;
  }
  return o;
}

struct Ref {
  bool valid = false;
  std::string why;
  Mode mode;
  std::string db, cert, key, pwfile, pw, host;
  int port = 0;
  TraceLevel trace = TraceLevel::info;
  bool wal = true, req = false;
};

static Ref reference(const std::string &t) {
  Ref r;
  auto w = words(t);
  bool haveMode = false;
  auto bad = [&](const std::string &s) { r.why = s; return r; };
  for(size_t i = 0; i < w.size(); i++) {
    if(i && w[i].line == w[i-1].line) continue;      // only a line's first word names an option
    if(w[i].text.substr(0, 6) != "redis.") continue;
    std::string opt = w[i].text.substr(6);
    bool has = i + 1 < w.size() && w[i+1].line == w[i].line;
    std::string v = has ? w[i+1].text : "";
    static const std::set<std::string> known = {"mode", "database", "myself", "trace", "certificate", "certificate_key", "write_ahead_log", "password_file", "password", "require_password_for_localhost"};
    if(!known.count(opt)) return bad("unknown option " + opt);
    if(!has) return bad("no value for " + opt);
    if(opt == "mode") {
      haveMode = true;
      if(v == "raft") r.mode = Mode::raft;
      else if(v == "standalone") r.mode = Mode::standalone;
      else if(v == "bulkload") r.mode = Mode::bulkload;
      else return bad("mode");
    }
    else if(opt == "database") r.db = v;
    else if(opt == "certificate") r.cert = v;
    else if(opt == "certificate_key") r.key = v;
    else if(opt == "password_file") r.pwfile = v;
    else if(opt == "password") r.pw = v;
    else if(opt == "trace") {
      if(v == "off") r.trace = TraceLevel::off;
      else if(v == "error") r.trace = TraceLevel::error;
      else if(v == "warn" || v == "warning") r.trace = TraceLevel::warning;
      else if(v == "info") r.trace = TraceLevel::info;
      else if(v == "debug" || v == "all") r.trace = TraceLevel::debug;
      else return bad("trace");
    }
    else if(opt == "write_ahead_log" || opt == "require_password_for_localhost") {
      if(v != "true" && v != "false") return bad("boolean");
      (opt == "write_ahead_log" ? r.wal : r.req) = v == "true";
    }
    else if(opt == "myself") {
      // host:port with one colon and a decimal port which fits
      size_t c = v.find(':');
      if(c == std::string::npos || v.find(':', c + 1) != std::string::npos) return bad("myself");
      std::string p = v.substr(c + 1);
      if(p.empty() || p.size() > 9 || p.find_first_not_of("0123456789") != std::string::npos) return bad("myself port");
      r.host = v.substr(0, c);
      r.port = atoi(p.c_str());
    }
  }
  if(!haveMode) return bad("no mode");
  if(r.db.empty()) return bad("no database");
  if(r.db.back() == '/') return bad("trailing slash");
  if((r.mode == Mode::raft) != !r.host.empty()) return bad("myself and mode disagree");
  if(r.cert.empty() != r.key.empty()) return bad("half a TLS pair");
  if(!r.pw.empty() && !r.pwfile.empty()) return bad("two passwords");
  if(r.pw.empty() && r.pwfile.empty() && r.req) return bad("required but no password");
  r.valid = true;
  return r;
}

static bool portDecided(const std::string &t) {
  // odd port texts (signs, leading zeros, >9 digits, empty host) are judged by C30, not here
  auto w = words(t);
  for(size_t i = 0; i + 1 < w.size(); i++)
    if(w[i].text == "redis.myself" && w[i].line == w[i+1].line) {
      size_t c = w[i+1].text.find(':');
      if(c == 0) return false;
      if(c != std::string::npos) {
        std::string p = w[i+1].text.substr(c + 1);
        if(p.size() > 9 || (!p.empty() && (p[0] == '-' || p[0] == '+' || (p[0] == '0' && p.size() > 1)))) return false;
      }
    }
  return true;
}

static void check(const std::string &t, bool file, const std::string &dir) {
  ctx().current(t);
  if(!portDecided(t)) { ctx().count("undecided"); return; }
  Ref r = reference(t);
  // placed in memory holding something else, as a stack variable may be
  alignas(Configuration) unsigned char mem[sizeof(Configuration)];
  memset(mem, 0x01, sizeof(mem));
  Configuration &c = *new (mem) Configuration();
  bool ok;
  if(file) {
    std::string p = dir + "/conf";
    { std::ofstream o(p, std::ios::binary); o << t; }
    ok = Configuration::fromFile(p, c);
  }
  else ok = Configuration::fromString(t, c);
  if(ok != r.valid) VF_FAIL(ok ? "config:accepted" : "config:rejected", "configuration " << (ok ? "accepted although: " + r.why : std::string("rejected")) << "\n" << t);
  else if(ok) {
    auto cmp = [&](const char *what, bool same, const std::string &got, const std::string &want) {
      VF_CHECK(same, std::string("config:value:") + what, what << " is '" << got << "' instead of '" << want << "' for\n" << t);
    };
    cmp("mode", c.getMode() == r.mode, modeToString(c.getMode()), modeToString(r.mode));
    cmp("database", c.getDatabase() == r.db, c.getDatabase(), r.db);
    cmp("certificate", c.getCertificatePath() == r.cert, c.getCertificatePath(), r.cert);
    cmp("certificate_key", c.getCertificateKeyPath() == r.key, c.getCertificateKeyPath(), r.key);
    cmp("password", c.getPassword() == r.pw, c.getPassword(), r.pw);
    cmp("password_file", c.getPasswordFilePath() == r.pwfile, c.getPasswordFilePath(), r.pwfile);
    cmp("trace", c.getTraceLevel() == r.trace, std::to_string((int) c.getTraceLevel()), std::to_string((int) r.trace));
    cmp("write_ahead_log", c.getWriteAheadLog() == r.wal, "", "");
    cmp("require", c.getRequirePasswordForLocalhost() == r.req, "", "");
    cmp("myself", c.getMyself().hostname == r.host && (r.host.empty() || c.getMyself().port == r.port), c.getMyself().toString(), r.host);
    VF_CHECK(c.isValid(), "config:isvalid", "an accepted configuration is not valid");
    if(r.pwfile.empty()) VF_CHECK(c.extractPasswordOrDie() == r.pw, "config:password", "extractPasswordOrDie differs from the configured password");
    ctx().count("accepted");
  }
  else ctx().count("rejected:" + r.why.substr(0, r.why.find(' ')));
  ctx().eval(t);
  c.~Configuration();
}

static std::string gen(Rng &r) {
  static const std::vector<std::string> sp = {" ", "  ", "\t", "     ", " \t "};
  std::vector<std::string> lines;
  auto val = [&](const std::string &o) -> std::string {
    if(r.chance(4)) return r.bytes(8, 3);
    if(r.chance(3)) return "redis.mode";
    if(o == "mode") return r.pick(std::vector<std::string>{"raft", "raft", "raft", "standalone", "bulkload", "Raft", "raftx", "raf"});
    if(o == "database") return r.pick(std::vector<std::string>{"/a/b", "/var/db", "x", "/a/b/", "/", "/home/#x", "redis.db"});
    if(o == "myself") return r.pick(std::vector<std::string>{"server1:7776", "server1:7776", "h:1", "h", "h:", "h:x", "h:1:2", "h:77 76", "a.b.c:65535", "h:1x"});
    if(o == "trace") return r.pick(std::vector<std::string>{"off", "error", "warn", "warning", "info", "debug", "all", "wrong", "inf", "ALL"});
    if(o == "write_ahead_log" || o == "require_password_for_localhost") return r.pick(std::vector<std::string>{"true", "false", "true", "false", "True", "1", "tru"});
    return r.pick(std::vector<std::string>{"/etc/x", "hunter2", "p#ss", "redis.password", "0123456789"});
  };
  std::vector<std::string> opts;
  // mostly a sensible base
  bool raft = r.chance(50);
  std::string modeText = raft ? "raft" : r.chance(50) ? "standalone" : "bulkload";
  std::vector<std::pair<std::string, std::string>> kv;
  if(!r.chance(6)) kv.push_back({"mode", r.chance(90) ? modeText : val("mode")});
  if(!r.chance(6)) kv.push_back({"database", r.chance(85) ? "/data/db" : val("database")});
  if(raft ? !r.chance(6) : r.chance(6)) kv.push_back({"myself", r.chance(85) ? "server1:7776" : val("myself")});
  if(r.chance(30)) kv.push_back({"trace", val("trace")});
  if(r.chance(30)) kv.push_back({"write_ahead_log", val("write_ahead_log")});
  if(r.chance(35)) { kv.push_back({"certificate", "/c/cert"}); if(r.chance(85)) kv.push_back({"certificate_key", "/c/key"}); }
  else if(r.chance(5)) kv.push_back({"certificate_key", "/c/key"});
  if(r.chance(35)) kv.push_back({"password", val("password")});
  if(r.chance(25)) kv.push_back({"password_file", val("password_file")});
  if(r.chance(25)) kv.push_back({"require_password_for_localhost", val("require_password_for_localhost")});
  if(r.chance(10)) { std::string o = r.pick(std::vector<std::string>{"mode", "database", "trace", "password", "myself"}); kv.push_back({o, val(o)}); }   // repeated
  if(r.chance(8)) kv.push_back({r.pick(std::vector<std::string>{"blublu", "mod", "", "m", "modex", "databases", "data", "certificate_keys", "pass", "Mode", "password_filex", "traces", "myselfie"}), val("mode")});
  for(size_t i = kv.size(); i > 1; i--) if(r.chance(70)) std::swap(kv[i-1], kv[r.below(i)]);
  std::string t;
  auto nl = [&] { t += r.chance(10) ? "\r\n" : "\n"; if(r.chance(15)) t += "\n"; if(r.chance(10)) t += "  \n\t\n"; };
  auto noise = [&] {
    static const std::vector<std::string> n = {"if exec xrootd", "xrd.protocol redis:7776 libXrdQuarkDB.so", "fi", "# redis.mode raft", "#redis.blah x", "all.role server redis.mode", "xredis.mode raft", "redis", "redis_mode raft", "set x = redis.database", "REDIS.mode x", "\xff\xfe\x80 x"};
    t += r.pick(n); nl();
  };
  if(r.chance(15)) t += r.pick(std::vector<std::string>{"\n", " ", "\n\n  ", "\t"});
  for(auto &p : kv) {
    if(r.chance(25)) noise();
    if(r.chance(30)) t += r.pick(sp);
    t += "redis." + p.first;
    if(!r.chance(3)) t += r.pick(sp) + p.second;
    if(r.chance(12)) t += r.pick(sp) + r.pick(std::vector<std::string>{"# comment", "redis.mode", "trailing words"});
    if(r.chance(8)) t += " ";
    if(&p == &kv.back() && r.chance(30)) break;
    nl();
  }
  if(r.chance(20)) noise();
  // corrupt a few characters
  if(r.chance(8) && !t.empty()) for(int n = 1 + r.below(3); n > 0; n--) { size_t p = r.below(t.size()); if(r.chance(50)) t[p] = r.next(); else t.erase(p, 1); if(t.empty()) break; }
  if(r.chance(3)) t = r.bytes(300);
  return t;
}

static void reader(Rng &r) {
  std::string t = r.chance(60) ? gen(r) : r.bytes(60);
  ctx().current(t);
  auto w = words(t);
  ConfigurationReader cr(t);
  size_t pos = 0;
  std::string trace;
  for(int steps = 0; steps < 200; steps++) {
    bool end = pos >= w.size();
    if(cr.eof() != end || cr.getCurrentWord() != (end ? "" : w[pos].text)) {
      VF_FAIL("config:reader", "after " << trace << " the reader is at '" << esc(cr.getCurrentWord()) << "' eof " << cr.eof() << " instead of '" << (end ? "EOF" : esc(w[pos].text)) << "' in\n" << esc(t, 2000));
      return;
    }
    ctx().eval(trace.size() < 30 ? trace + "|" + t : "");
    if(end && r.chance(50)) break;
    if(r.chance(60)) { cr.advanceWord(); trace += 'w'; if(!end) pos++; }
    else { cr.advanceLine(); trace += 'l'; if(!end) { size_t l = w[pos].line; while(pos < w.size() && w[pos].line == l) pos++; } }
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Rng r(ctx().seed);
  std::string dir = freshDir("conf");
  Configuration c;
  VF_CHECK(!Configuration::fromFile(dir + "/absent", c) && !Configuration::fromFile(dir, c), "config:file", "a missing configuration file was accepted");
  VF_CHECK(!Configuration::fromString("", c), "config:accepted", "an empty configuration was accepted");
  for(int i = 0; i < ctx().n(40000); i++) { std::string t = gen(r); if(i < 2) ctx().sample(t); check(t, i % 8 == 0, dir); }
  for(int i = 0; i < ctx().n(6000); i++) reader(r);
  // a password file
  for(int i = 0; i < 20; i++) {
    std::string p = dir + "/pw", body = r.bytes(40, 3) + "x";
    unlink(p.c_str());
    { std::ofstream o(p); o << body << "\n"; }
    bool good = r.chance(50);
    chmod(p.c_str(), good ? 0400 : 0440);
    Configuration c2;
    VF_CHECK(Configuration::fromString("redis.mode standalone\nredis.database /d\nredis.password_file " + p + "\n", c2), "config:rejected", "password_file configuration rejected");
    std::string got;
    bool t = throws([&] { got = c2.extractPasswordOrDie(); });
    VF_CHECK(t == !good && (t || got == body), "config:password", "password file with mode " << (good ? "0400" : "0440") << ": " << (t ? "refused" : "'" + esc(got) + "'"));
    ctx().eval("pwfile" + std::to_string(i));
  }
  return ctx().finish();
}
