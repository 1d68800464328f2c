// C30: text and binary conversions against independent definitions.
#include "qdb.hh"
#include "glob_ref.hh"
#include "Common.hh"
#include "Commands.hh"
#include "utils/ParseUtils.hh"
#include "utils/StringUtils.hh"
#include "utils/IntToBinaryString.hh"
#include "utils/TimeFormatting.hh"
#include "utils/VectorUtils.hh"
#include "utils/CommandParsing.hh"
#include "utils/Uuid.hh"
#include "storage/PatternMatching.hh"
#include "raft/RaftCommon.hh"
#include "raft/RaftMembers.hh"
#include "StringMatchLen.h"
#include <climits>
#include <cmath>
#include <cinttypes>
using namespace quarkdb;
using vf::ctx; using vf::esc; using vf::Rng;

// heap copy without anything after it, so that ASan sees over-reads of views
struct Exact {
  char *p; size_t n;
  explicit Exact(std::string_view s) : p((char*) malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  std::string_view sv() const { return std::string_view(p, n); }
};

static bool refInt(const std::string &s, int64_t &v) {
  size_t i = 0; bool neg = false;
  if(i < s.size() && s[i] == '-') { neg = true; i++; }
  if(i == s.size()) return false;
  unsigned __int128 a = 0;
  for(; i < s.size(); i++) {
    if(s[i] < '0' || s[i] > '9') return false;
    a = a * 10 + (s[i] - '0');
    if(a > ((unsigned __int128) 1 << 64)) return false;
  }
  unsigned __int128 lim = ((unsigned __int128) 1 << 63) - (neg ? 0 : 1);
  if(a > lim) return false;
  v = neg ? (int64_t) (0 - (uint64_t) a) : (int64_t) a;
  return true;
}
static int64_t edgeInt(Rng &g) {
  switch(g.below(6)) {
    case 0: return (int64_t) g.next();
    case 1: return g.range(-300, 300);
    case 2: return INT64_MAX - (int64_t) g.below(3);
    case 3: return INT64_MIN + (int64_t) g.below(3);
    case 4: return (int64_t) (((uint64_t) 1 << g.below(64)) + (uint64_t) g.range(-1, 1));
    default: return (int64_t) (g.next() >> g.below(64));
  }
}

static void ints(Rng &g) {
  int64_t a = edgeInt(g), b = edgeInt(g), out = 77;
  Exact ta(std::to_string(a));
  if(!ParseUtils::parseInt64(ta.sv(), out) || out != a) VF_FAIL("conv:int-roundtrip", "parseInt64(" << a << ") gave " << out);
  // mutated text
  std::string t = std::to_string(a);
  switch(g.below(6)) {
    case 0: t.insert(g.below(t.size() + 1), 1, "x .-+e,\0"[g.below(8)]); break;
    case 1: t += g.bytes(3); break;
    case 2: t = g.bytes(6); break;
    case 3: t = std::string(g.below(25), (char) ('0' + g.below(10))); break;
    case 4: t = (g.chance(50) ? "-" : "") + std::string(g.below(3), '0') + std::to_string((uint64_t) g.next()); break;
    case 5: t = g.chance(50) ? "9223372036854775808" : "-9223372036854775809"; break;
  }
  bool lenient = !t.empty() && (isspace((unsigned char) t[0]) || t[0] == '+'); // leniency of strtoll: no position
  int64_t want = 0, got = 0;
  bool we = refInt(t, want);
  Exact et(t);
  bool ge = ParseUtils::parseInt64(et.sv(), got);
  if(!lenient && (we != ge || (we && want != got))) VF_FAIL("conv:int-parse", "parseInt64('" << esc(t) << "') = " << ge << "/" << got << ", expected " << we << "/" << want);
  ctx().count(ge ? "int.accepted" : "int.rejected");
  // binary
  std::string ba = intToBinaryString(a), bb = intToBinaryString(b);
  char raw[8]; intToBinaryString(a, raw);
  uint64_t u = (uint64_t) a, w = (uint64_t) b;
  std::string be; for(int i = 7; i >= 0; i--) be += (char) (u >> (8 * i));
  if(ba != be || std::string(raw, 8) != be) VF_FAIL("conv:int-binary", "encoding of " << a << " is " << esc(ba));
  Exact eb(ba);
  if(binaryStringToInt(eb.sv()) != a || binaryStringToInt(eb.p) != a) VF_FAIL("conv:int-binary", "decode of " << a);
  std::string ua = unsignedIntToBinaryString(u), ub = unsignedIntToBinaryString(w);
  unsignedIntToBinaryString(u, raw);
  if(ua != be || std::string(raw, 8) != be || binaryStringToUnsignedInt(eb.sv()) != u || binaryStringToUnsignedInt(eb.p) != u) VF_FAIL("conv:uint-binary", "unsigned " << u);
  if((u < w) != (ua < ub) || (u == w) != (ua == ub)) VF_FAIL("conv:order", u << " vs " << w << " sort differently in binary");
  if(a >= 0 && b >= 0 && (a < b) != (ba < bb)) VF_FAIL("conv:order", a << " vs " << b);
  // lists
  std::vector<int64_t> v; std::string joined; std::string sep = g.chance(50) ? "|" : g.chance(50) ? "," : "--";
  size_t n = 1 + g.below(5);
  if(sep == "--") { for(size_t i = 0; i < n; i++) v.push_back(g.below(1000)); }
  else for(size_t i = 0; i < n; i++) v.push_back(edgeInt(g));
  for(size_t i = 0; i < n; i++) joined += (i ? sep : "") + std::to_string(v[i]);
  std::vector<int64_t> res {1, 2, 3};
  if(!ParseUtils::parseIntegerList(joined, sep, res) || res != v) VF_FAIL("conv:int-list", "list '" << joined << "'");
  std::string broken = joined; size_t at = g.below(broken.size() + 1);
  broken.insert(at, "x");
  if(ParseUtils::parseIntegerList(broken, sep, res)) VF_FAIL("conv:int-list", "broken list '" << broken << "' accepted");
}

static void doubles(Rng &g) {
  uint64_t bits = g.next(); double d;
  memcpy(&d, &bits, 8);
  if(g.chance(40)) d = (double) edgeInt(g) / (double) (1 + g.below(1000));
  if(!std::isfinite(d)) d = 1.5;
  char buf[64]; snprintf(buf, sizeof(buf), g.chance(50) ? "%.17g" : "%.17e", d);
  Exact e(buf);
  double out = 0;
  if(!my_strtod(e.sv(), out) || out != d) VF_FAIL("conv:double-roundtrip", "my_strtod('" << buf << "') gave " << out);
  static const std::vector<std::string> bad = {"", "x", "1x", "1.5 ", "1e", "inf", "-inf", "nan", "infinity", "1e999", "-1e999", "--1", "1..2", ".", "e5", std::string("1\0", 2), "1 2", "0x", "1,5"};
  const std::string &b = g.pick(bad);
  Exact eb(b);
  if(my_strtod(eb.sv(), out)) VF_FAIL("conv:double-reject", "my_strtod('" << esc(b) << "') accepted as " << out);
  std::string t = std::string(buf) + (g.chance(50) ? "x" : "1x");
  Exact et(t);
  if(my_strtod(et.sv(), out)) VF_FAIL("conv:double-reject", "my_strtod('" << esc(t) << "') accepted");
}

static std::string host(Rng &g) {
  static const char *c = "abcdefghijklmnopqrstuvwxyz0123456789-.";
  std::string h; size_t n = 1 + g.below(12);
  for(size_t i = 0; i < n; i++) h += c[g.below(38)];
  return h;
}
static std::vector<RaftServer> servers(Rng &g, size_t n, const std::vector<RaftServer> &avoid = {}) {
  std::vector<RaftServer> v;
  while(v.size() < n) {
    RaftServer s(g.chance(50) ? "host" : host(g), g.chance(70) ? (int) g.below(65536) : g.chance(50) ? INT_MAX : (int) g.next());
    if(std::find(v.begin(), v.end(), s) == v.end() && std::find(avoid.begin(), avoid.end(), s) == avoid.end()) v.push_back(s);
  }
  return v;
}
static std::string joinS(const std::vector<RaftServer> &v) {
  std::string o; for(size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + v[i].hostname + ":" + std::to_string(v[i].port);
  return o;
}
static void srv(Rng &g) {
  std::vector<RaftServer> v = servers(g, 1 + g.below(5)), out = servers(g, g.below(2));
  std::string t = serializeNodes(v);
  if(t != joinS(v)) VF_FAIL("conv:servers", "serializeNodes gave " << t << " for " << joinS(v));
  Exact e(t);
  if(!parseServers(e.sv(), out) || out != v) VF_FAIL("conv:servers", "'" << t << "' does not parse back, got " << joinS(out));
  RaftServer one;
  Exact e1(v[0].toString());
  if(!parseServer(e1.sv(), one) || one != v[0] || one.hostname != v[0].hostname || one.port != v[0].port) VF_FAIL("conv:server", v[0].toString());
  // ordering and equality are consistent
  const RaftServer &x = g.pick(v), &y = g.pick(v);
  std::pair<std::string, int> px(x.hostname, x.port), py(y.hostname, y.port);
  if((x == y) != (px == py) || (x != y) == (px == py) || (x < y) != (px < py)) VF_FAIL("conv:server-order", x.toString() << " " << y.toString());
  // malformed
  std::vector<std::string> bad = {"", "host", "host:", "host:x", "host:1:2", "host:12x", "host:4294967297", "host:2147483648", "host:-2147483649", "host:99999999999999999999", ":"};
  std::string b = g.pick(bad);
  Exact eb(b);
  if(parseServer(eb.sv(), one)) VF_FAIL("conv:server-reject", "'" << b << "' accepted as " << one.hostname << ":" << one.port);
  std::string list = t + (g.chance(50) ? "," + b : "," + joinS({v[g.below(v.size())]})); // a malformed or a duplicate one
  if(g.chance(50)) list = b + "," + t;
  Exact el(list);
  if(parseServers(el.sv(), out)) VF_FAIL("conv:servers-reject", "'" << list << "' accepted");
  ctx().count("servers.rejected");
  // membership lists
  RaftMembers m(v, g.chance(30) ? std::vector<RaftServer>{} : servers(g, 1 + g.below(3), v)), m2;
  std::string mt = m.toString();
  if(mt != joinS(m.nodes) + "|" + joinS(m.observers)) VF_FAIL("conv:members", "toString gave '" << mt << "'");
  Exact em(mt);
  if(!m2.parse(em.sv()) || !(m2 == m) || m2.nodes != m.nodes || m2.observers != m.observers) VF_FAIL("conv:members", "'" << mt << "' parses back as '" << m2.toString() << "'");
  std::vector<std::string> badm = {joinS(v), mt + "|", "|" + joinS(v), joinS(v) + "|x", joinS(v) + "," + joinS({v[0]}) + "|", "x|", mt + ",", ""};
  std::string bm = g.pick(badm);
  RaftMembers m3;
  if(m3.parse(bm)) VF_FAIL("conv:members-reject", "'" << bm << "' accepted");
  if(!vf::throws([&]() { RaftMembers m4((std::string_view) bm); })) VF_FAIL("conv:members-reject", "constructor accepted '" << bm << "'");
}

static std::vector<std::string> refSplit(const std::string &s, const std::string &tok) {
  std::vector<std::string> out; std::string cur;
  for(size_t i = 0; i < s.size();) {
    if(s.compare(i, tok.size(), tok) == 0) { out.push_back(cur); cur.clear(); i += tok.size(); }
    else cur += s[i++];
  }
  out.push_back(cur);
  return out;
}
static void strings(Rng &g) {
  std::string s = g.bytes(30), tok = g.chance(60) ? std::string(1, "a#|\0"[g.below(4)]) : g.chance(50) ? "aa" : "aba";
  if(g.chance(40)) s = g.bytes(30, 2);
  Exact es(s);
  if(quarkdb::split(es.sv(), tok) != refSplit(s, tok)) VF_FAIL("conv:split", "split('" << esc(s) << "', '" << esc(tok) << "') = " << vf::show(quarkdb::split(s, tok)));
  if(ParseUtils::split(s, tok) != refSplit(s, tok)) VF_FAIL("conv:split", "ParseUtils::split('" << esc(s) << "', '" << esc(tok) << "')");
  std::string p = g.chance(60) ? s.substr(0, g.below(s.size() + 1)) : g.bytes(4);
  if(g.chance(20)) p += g.bytes(2);
  std::string q = g.chance(60) ? s.substr(g.below(s.size() + 1)) : g.bytes(4);
  if(g.chance(20)) q = g.bytes(2) + q;
  Exact ep(p), eq(q);
  bool sw = p.size() <= s.size() && s.compare(0, p.size(), p) == 0;
  bool ew = q.size() <= s.size() && s.compare(s.size() - q.size(), q.size(), q) == 0;
  if(StringUtils::startsWith(es.sv(), ep.sv()) != sw || quarkdb::startswith(s, p) != sw || StringUtils::isPrefix(p, s) != sw || StringUtils::isPrefix(p, es.p, es.n) != sw)
    VF_FAIL("conv:prefix", "'" << esc(p) << "' prefix of '" << esc(s) << "' expected " << sw);
  if(StringUtils::endsWith(es.sv(), eq.sv()) != ew) VF_FAIL("conv:suffix", "'" << esc(q) << "' suffix of '" << esc(s) << "'");
  char c = s.empty() || g.chance(30) ? (char) g.next() : s[g.below(s.size())];
  if(StringUtils::countOccurences(es.sv(), c) != (size_t) std::count(s.begin(), s.end(), c)) VF_FAIL("conv:count", "'" << esc(s) << "'");
  bool pr = true; std::string ex, hex, pad = s;
  for(unsigned char ch : s) {
    char b[8];
    bool ok = ch >= 32 && ch <= 126;
    pr = pr && ok;
    snprintf(b, sizeof(b), "\\x%02X", ch);
    ex += ok ? std::string(1, ch) : std::string(b);
    snprintf(b, sizeof(b), "%02x", ch);
    hex += b;
  }
  if(StringUtils::isPrintable(es.sv()) != pr) VF_FAIL("conv:printable", "'" << esc(s) << "'");
  if(StringUtils::escapeNonPrintable(es.sv()) != ex) VF_FAIL("conv:escape", "'" << esc(s) << "' gives " << StringUtils::escapeNonPrintable(es.sv()));
  if(StringUtils::base16Encode(es.sv()) != hex) VF_FAIL("conv:base16", "'" << esc(s) << "'");
  size_t t = g.below(45); if(pad.size() < t) pad.resize(t, '.');
  if(StringUtils::rightPad(es.sv(), t, '.') != pad) VF_FAIL("conv:pad", "'" << esc(s) << "' to " << t);
  std::string o = s;
  for(auto &ch : o) if(g.chance(50)) ch = isupper((unsigned char) ch) ? tolower((unsigned char) ch) : toupper((unsigned char) ch);
  bool eqv = true;
  if(g.chance(40) && !o.empty()) { o[g.below(o.size())] = (char) g.next(); }
  if(g.chance(15)) o += "a";
  eqv = o.size() == s.size();
  for(size_t i = 0; eqv && i < s.size(); i++) { auto lo = [](unsigned char ch) { return ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; }; eqv = lo(o[i]) == lo(s[i]); }
  if(caseInsensitiveEquals(s, o) != eqv) VF_FAIL("conv:nocase", "'" << esc(s) << "' vs '" << esc(o) << "'");
  // vectors
  std::vector<std::string> v; size_t n = g.below(6);
  for(size_t i = 0; i < n; i++) v.push_back(g.bytes(2, 2));
  std::set<std::string> st(v.begin(), v.end());
  if(checkUnique(v) != (st.size() == v.size())) VF_FAIL("conv:unique", vf::show(v));
  bool same = st.size() <= 1;
  if(all_identical(v) != same) VF_FAIL("conv:identical", vf::show(v));
  std::string x = g.bytes(2, 2);
  if(contains(v, x) != (st.count(x) > 0)) VF_FAIL("conv:contains", vf::show(v));
  std::vector<std::string> ve = v, vr = v;
  bool er = erase_element(ve, x);
  auto it = std::find(vr.begin(), vr.end(), x);
  bool want = it != vr.end(); if(want) vr.erase(it);
  if(er != want || ve != vr) VF_FAIL("conv:erase", vf::show(v) << " minus '" << x << "'");
  std::vector<std::string> w = v; if(!w.empty() && g.chance(50)) w[g.below(w.size())] += g.chance(50) ? "z" : ""; if(g.chance(20)) w.push_back("q");
  if(VectorUtils::checkEquality(v, w) != (v == w)) VF_FAIL("conv:vector-equality", vf::show(v) << vf::show(w));
  std::vector<std::string> ap = v; VectorUtils::appendToVector(ap, w);
  std::vector<std::string> apr = v; apr.insert(apr.end(), w.begin(), w.end());
  if(ap != apr) VF_FAIL("conv:append", vf::show(v));
  std::string vs = "["; for(size_t i = 0; i < v.size(); i++) vs += (i ? ", " : "") + v[i]; vs += "]";
  if(vecToString(v) != vs) VF_FAIL("conv:vecToString", vecToString(v));
}

static void timespans(Rng &g) {
  int64_t t = g.chance(50) ? g.below(200) : g.chance(50) ? g.below(4000000) : (int64_t) (g.next() >> (2 + g.below(50)));
  if(g.chance(30)) { static const int64_t e[] = {60, 3600, 86400, 2592000, 31536000}; t = e[g.below(5)] * g.range(1, 3) + g.range(-1, 1); }
  std::string s = formatTime(std::chrono::seconds(t));
  // parse it back
  static const std::vector<std::pair<std::string, int64_t>> units = {{"years", 31536000}, {"months", 2592000}, {"days", 86400}, {"hours", 3600}, {"minutes", 60}, {"seconds", 1}};
  __int128 sum = 0; size_t last = 0; bool ok = true, first = true;
  std::stringstream ss(s); std::string item;
  std::vector<std::string> parts = refSplit(s, ", ");
  for(auto &p : parts) {
    size_t sp = p.find(' '); int64_t v;
    if(sp == std::string::npos || !refInt(p.substr(0, sp), v)) { ok = false; break; }
    size_t u = 0; while(u < units.size() && units[u].first != p.substr(sp + 1)) u++;
    if(u == units.size() || (!first && u <= last)) { ok = false; break; }
    if(u < 5 && v <= 0) ok = false;
    if(u > 0) { // canonical: smaller units never add up to a bigger one
      int64_t lim = u == 1 ? 13 : u == 2 ? 30 : u == 3 ? 24 : 60;
      if(v < 0 || v >= lim) ok = false;
    }
    sum += (__int128) v * units[u].second; last = u; first = false;
  }
  if(!ok || last != 5 || sum != t) VF_FAIL("conv:time", "formatTime(" << t << ") = '" << s << "'");
}

static std::vector<std::string> names;
static std::string norm(std::string s) { for(auto &c : s) { if(c >= 'A' && c <= 'Z') c += 32; if(c == '-') c = '_'; } return s; }
static void commands(Rng &g) {
  std::string n = g.pick(names), v = n;
  for(auto &c : v) { if(g.chance(50)) c = toupper((unsigned char) c); if(c == '_' && g.chance(50)) c = '-'; }
  RedisRequest a, b;
  a.push_back(n); b.push_back(v);
  if(a.getCommand() == RedisCommand::INVALID || a.getCommand() != b.getCommand() || a.getCommandType() != b.getCommandType() || a.getCommandType() == CommandType::INVALID)
    VF_FAIL("conv:command-case", "'" << v << "' is not recognised as '" << n << "'");
  std::string m = v;
  switch(g.below(5)) {
    case 0: m.insert(g.below(m.size() + 1), 1, (char) g.next()); break;
    case 1: m.erase(g.below(m.size()), 1); break;
    case 2: m[g.below(m.size())] = (char) g.next(); break;
    case 3: m += std::string(1, '\0'); break;
    case 4: m = g.bytes(10); break;
  }
  bool known = std::find(names.begin(), names.end(), norm(m)) != names.end();
  RedisRequest r; r.push_back(m);
  if((r.getCommand() != RedisCommand::INVALID) != known || (r.getCommandType() != CommandType::INVALID) != known) VF_FAIL("conv:command-unknown", "'" << esc(m) << "' recognised: " << !known);
  // the comparator is a strict weak order consistent with the normal form
  CommandComparator cmp;
  std::string x = g.chance(50) ? v : g.bytes(6), y = g.chance(50) ? g.pick(names) : g.bytes(6);
  if(norm(x) == norm(y) && (cmp(x, y) || cmp(y, x))) VF_FAIL("conv:command-order", "'" << esc(x) << "' '" << esc(y) << "' equal but ordered");
  if(norm(x) != norm(y) && cmp(x, y) == cmp(y, x)) VF_FAIL("conv:command-order", "'" << esc(x) << "' '" << esc(y) << "'");
}

static void globs(Rng &g) {
  std::string p = g.chance(85) ? vf::randomPattern(g) : g.bytes(8);
  std::string s = vf::randomSubject(g, p);
  Exact ep(p), es(s);
  ctx().current("pattern '" + esc(p) + "' subject '" + esc(s) + "'");
  bool got = stringmatchlen(ep.p, ep.n, es.p, es.n, 0) == 1;
  vf::GlobRef ref(p);
  if(ref.defined) {
    bool want = ref.match(s);
    if(got != want) VF_FAIL("conv:glob", "pattern '" << esc(p) << "' subject '" << esc(s) << "': " << got << ", expected " << want);
    std::string pre = extractPatternPrefix(ep.sv());
    if(want && s.compare(0, pre.size(), pre) != 0) VF_FAIL("conv:glob-prefix", "prefix '" << esc(pre) << "' of '" << esc(p) << "' rules out the match '" << esc(s) << "'");
    if(p.compare(0, pre.size(), pre) != 0 || pre.find_first_of("*?[]\\") != std::string::npos) VF_FAIL("conv:glob-prefix", "'" << esc(p) << "' -> '" << esc(pre) << "'");
    if(pre.size() < p.size() && std::string("*?[]\\").find(p[pre.size()]) == std::string::npos) VF_FAIL("conv:glob-prefix", "'" << esc(p) << "' -> '" << esc(pre) << "' is not maximal");
    ctx().count(want ? "glob.match" : "glob.nomatch");
  }
  bool gotNc = stringmatchlen(ep.p, ep.n, es.p, es.n, 1) == 1;
  if(got && !gotNc && p.find("[^") == std::string::npos && p.find('[') == std::string::npos) VF_FAIL("conv:glob-nocase", "'" << esc(p) << "' '" << esc(s) << "'");
}

static void entries(Rng &g) {
  RaftEntry e; e.term = edgeInt(g);
  size_t n = 1 + g.below(5);
  std::vector<std::string> v;
  for(size_t i = 0; i < n; i++) { v.push_back(g.chance(3) ? std::string(g.below(5000), 'x') : g.bytes(12)); e.request.push_back(v.back()); }
  std::string s = e.serialize();
  Exact es(s);
  RaftEntry o(3, "junk", "junk");
  RaftEntry::deserialize(o, es.sv());
  bool same = o.term == e.term && o.request.size() == n;
  for(size_t i = 0; same && i < n; i++) same = o.request[i] == v[i];
  if(!same || !(o == e) || (o != e) || RaftEntry::fetchTerm(es.sv()) != e.term) VF_FAIL("conv:entry", "term " << e.term << " " << vf::show(v) << " became term " << o.term << " " << vf::show(o.request));
  RaftEntry d = e; if(g.chance(50)) d.term ^= 1; else d.request.push_back("x");
  if(d == e) VF_FAIL("conv:entry-eq", "different entries equal");
  std::ostringstream a; append_int_to_string(e.term, a);
  if(fetch_int_from_string(a.str().data()) != e.term) VF_FAIL("conv:int-string", e.term);
  // printable form
  std::string want;
  for(size_t i = 0; i < n; i++) { want += i ? " \"" : "\""; for(unsigned char ch : v[i]) { char b[8]; snprintf(b, 8, "\\x%02X", ch); want += ch >= 32 && ch <= 126 ? std::string(1, ch) : std::string(b); } want += "\""; }
  if(e.request.getCommand() == RedisCommand::INVALID && e.request.toPrintableString() != want) VF_FAIL("conv:printable-request", e.request.toPrintableString() << " expected " << want);
}

static void scanArgs(Rng &g) {
  RedisRequest r; r.push_back("scan"); r.push_back("key");
  std::string cursor = g.chance(40) ? "0" : g.chance(80) ? "next:" + g.bytes(8) : g.bytes(6);
  r.push_back(cursor);
  bool sm = g.chance(70), sl = g.chance(50), err = !(cursor == "0" || cursor.substr(0, 5) == "next:");
  int64_t count = 100; std::string match, loc;
  std::string desc = "cursor '" + esc(cursor) + "'";
  for(int i = g.below(4); i > 0; i--) {
    int k = g.below(8);
    if(k < 3) {
      std::string t = g.chance(60) ? std::to_string(1 + g.below(500)) : g.pick(std::vector<std::string>{"0", "-1", "00", "", "x", "-0", "5x", "99999999999999999999", "+0", " 0", " -4", "1000000000000"});
      std::string w = g.chance(50) ? "COUNT" : "count";
      r.push_back(w); r.push_back(t); desc += " count '" + t + "'";
      int64_t c;
      if(!refInt(t, c) || c <= 0) err = true;
      else count = c;
    }
    else if(k < 5) { std::string p = g.bytes(5); r.push_back(g.chance(50) ? "MATCH" : "match"); r.push_back(p); desc += " match"; if(!sm) err = true; match = p; }
    else if(k < 7) { std::string p = g.bytes(5); r.push_back(g.chance(50) ? "MATCHLOC" : "matchloc"); r.push_back(p); desc += " matchloc"; if(!sl) err = true; loc = p; }
    else if(k == 7) { r.push_back("bogus"); if(g.chance(50)) r.push_back("x"); err = true; desc += " bogus"; }
  }
  if(g.chance(10)) { r.push_back("count"); err = true; desc += " odd"; }
  ScanCommandArguments a = parseScanCommand(r.begin() + 2, r.end(), sm, sl);
  if(a.error.empty() == err) VF_FAIL("conv:scan-args", desc << ": error '" << a.error << "', expected error: " << err << " count " << a.count);
  if(!err && (a.cursor != (cursor == "0" ? "" : cursor.substr(5)) || a.count != count || a.match != match || a.matchloc != loc)) VF_FAIL("conv:scan-args", desc << ": wrong values");
}

static void enums() {
  for(int i = 0; i < 3; i++) {
    FsyncPolicy p = (FsyncPolicy) i, q = (FsyncPolicy) ((i + 1) % 3);
    std::string t = fsyncPolicyToString(p);
    if(!parseFsyncPolicy(t, q) || q != p) VF_FAIL("conv:fsync-policy", t);
    if(parseFsyncPolicy(t + " ", q) || parseFsyncPolicy(t.substr(1), q) || parseFsyncPolicy("", q)) VF_FAIL("conv:fsync-policy", "accepts garbage");
  }
  std::set<std::string> s;
  if(fsyncPolicyToString(FsyncPolicy::kAlways) != "always" || fsyncPolicyToString(FsyncPolicy::kAsync) != "async" || fsyncPolicyToString(FsyncPolicy::kSyncImportantUpdates) != "sync-important-updates") VF_FAIL("conv:fsync-policy", "names");
  if(boolToString(true) != "TRUE" || boolToString(false) != "FALSE") VF_FAIL("conv:bool", "boolToString");
  std::set<std::string> uu;
  for(int i = 0; i < 200; i++) {
    std::string u = generateUuid();
    bool ok = u.size() == 36;
    for(size_t k = 0; ok && k < 36; k++) ok = (k == 8 || k == 13 || k == 18 || k == 23) ? u[k] == '-' : isxdigit((unsigned char) u[k]) != 0;
    if(!ok || !uu.insert(u).second) VF_FAIL("conv:uuid", u);
  }
  for(size_t n = 0; n < 60; n++) if(calculateQuorumSize(n) * 2 <= n || (n > 0 && (calculateQuorumSize(n) - 1) * 2 > n)) VF_FAIL("conv:quorum", n);
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  vf::quiet();
  for(auto &kv : redis_cmd_map) names.push_back(kv.first);
  if(names.size() < 100) VF_FAIL("conv:command-table", "only " << names.size() << " commands");
  enums();
  struct Part { const char *name; void (*f)(Rng&); int n; };
  std::vector<Part> parts = {{"ints", ints, 40000}, {"doubles", doubles, 10000}, {"servers", srv, 15000}, {"strings", strings, 30000},
    {"time", timespans, 30000}, {"commands", commands, 30000}, {"globs", globs, 150000}, {"entries", entries, 20000}, {"scan", scanArgs, 20000}};
  for(auto &p : parts) {
    int64_t n = ctx().n(p.n, 15);
    for(int64_t i = 0; i < n; i++) {
      Rng g(ctx().seed * 1000003 + i * 31 + vf::hash64(p.name));
      ctx().current(std::string(p.name) + " case " + std::to_string(i));
      p.f(g);
      ctx().eval(std::string(p.name) + std::to_string(g.next()));
    }
    ctx().count(std::string("cases.") + p.name, n);
    ctx().sample(std::string(p.name) + ": " + std::to_string(n) + " cases from seed " + std::to_string(ctx().seed), 20);
  }
  // patterns must not take exponential time
  std::string p, s(2000, 'a');
  for(int i = 0; i < 25; i++) p += "*a";
  p += "b";
  ctx().current("glob blow-up");
  if(stringmatchlen(p.data(), p.size(), s.data(), s.size(), 0)) VF_FAIL("conv:glob", "blow-up pattern matched");
  ctx().eval("blowup");
  return ctx().finish();
}
