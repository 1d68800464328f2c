// C09: internal key encoding.
#include "qdb.hh"
#include "storage/KeyDescriptor.hh"
#include "storage/KeyLocators.hh"
#include "storage/ReverseLocator.hh"
#include "storage/InternalKeyParsing.hh"
#include "storage/KeyConstants.hh"
#include <memory>
using namespace quarkdb;
using vf::ctx; using vf::esc; using vf::Rng;

struct Exact {
  std::unique_ptr<char[]> p; size_t n;
  explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  std::string_view sv() const { return std::string_view(p.get(), n); }
};
static std::string str(std::string_view v) { return std::string(v); }
static const KeyType fieldTypes[] = {KeyType::kHash, KeyType::kSet, KeyType::kDeque, KeyType::kVersionedHash};

struct Id { std::string kind, key, hint, field; };
static std::string show(const Id &i) { return i.kind + "(key '" + esc(i.key) + "', hint '" + esc(i.hint) + "', field '" + esc(i.field) + "')"; }
// all stored records that can exist for (key, hint, field)
static std::vector<std::pair<std::string, Id>> records(const std::string &k, const std::string &h, const std::string &f) {
  std::vector<std::pair<std::string, Id>> v;
  v.push_back({str(DescriptorLocator(k).toView()), {"descriptor", k, "", ""}});
  v.push_back({str(StringLocator(k).toView()), {"string", k, "", ""}});
  v.push_back({str(LeaseLocator(k).toView()), {"lease", k, "", ""}});
  v.push_back({str(ConfigurationLocator(k).toView()), {"config", k, "", ""}});
  for(auto t : fieldTypes) v.push_back({str(FieldLocator(t, k, f).toView()), {std::string("field:") + (char) t, k, "", f}});
  v.push_back({str(LocalityFieldLocator(k, h, f).toView()), {"lhash-data", k, h, f}});
  v.push_back({str(LocalityIndexLocator(k, f).toView()), {"lhash-index", k, "", f}});
  return v;
}
// the one ambiguity of the stored format: P| against P#
static bool pipeHash(const std::string &a, const std::string &b) {
  auto one = [](const std::string &x, const std::string &y) { return !x.empty() && x.back() == '|' && y.size() == x.size() && y.back() == '#' && x.compare(0, x.size() - 1, y, 0, y.size() - 1) == 0; };
  return one(a, b) || one(b, a);
}

static std::vector<std::string> words(const std::string &alpha, size_t maxlen) {
  std::vector<std::string> out, cur {""};
  for(size_t l = 0; l < maxlen; l++) {
    std::vector<std::string> nxt;
    for(auto &w : cur) for(char c : alpha) nxt.push_back(w + c);
    out.insert(out.end(), nxt.begin(), nxt.end());
    cur = nxt;
  }
  return out;
}

static void clash(const Id &a, const Id &b, const std::string &enc, const char *what) {
  std::string key = std::string("keys:") + what;
  if(pipeHash(a.key, b.key) || (a.key == b.key && pipeHash(a.hint, b.hint))) key += ":pipe-hash";
  VF_FAIL(key, show(a) << " and " << show(b) << (std::string(what) == "prefix" ? ": a scan of the first meets the second, " : " share the stored key ") << "'" << esc(enc) << "'");
}

static void injective(const std::vector<std::string> &keys, const std::vector<std::string> &hints, const std::vector<std::string> &fields) {
  std::map<std::string, Id> seen;
  size_t n = 0;
  auto put = [&](const std::string &e, const Id &id) {
    auto it = seen.find(e);
    if(it == seen.end()) { seen.emplace(e, id); n++; return; }
    const Id &o = it->second;
    if(o.kind != id.kind || o.key != id.key || o.hint != id.hint || o.field != id.field) clash(o, id, e, "collision");
  };
  for(auto &c : KeyConstants::allKeys) put(c, {"internal", c, "", ""});
  for(auto &k : keys) for(auto &f : fields) for(auto &h : hints) for(auto &r : records(k, h, f)) put(r.first, r.second);
  uint64_t dl[] = {0, 1, 255, 256, ~0ull, ~0ull / 2};
  for(auto &k : keys) for(uint64_t d : dl) put(str(ExpirationEventLocator(d, k).toView()), {"expiration:" + std::to_string(d), k, "", ""});
  ctx().count("distinct_records", n);
  ctx().eval("injective" + std::to_string(n) + keys.back() + fields.back());
  // scanning by prefix meets only the records of that key
  std::vector<std::pair<std::string, Id>> prefixes;
  for(auto &k : keys) {
    for(auto t : fieldTypes) prefixes.push_back({str(FieldLocator(t, k).getPrefix()), {std::string("field:") + (char) t, k, "", ""}});
    prefixes.push_back({str(LocalityFieldLocator(k).toView()), {"lhash-data", k, "", ""}});
    prefixes.push_back({str(LocalityIndexLocator(k).toView()), {"lhash-index", k, "", ""}});
    for(auto &h : hints) prefixes.push_back({str(LocalityFieldLocator(k, h).toView()), {"lhash-data", k, h, ""}});
  }
  for(auto &p : prefixes) for(auto it = seen.lower_bound(p.first); it != seen.end() && it->first.compare(0, p.first.size(), p.first) == 0; ++it) {
    const Id &o = it->second;
    if(o.kind != p.second.kind || o.key != p.second.key || (!p.second.hint.empty() && o.hint != p.second.hint)) clash(p.second, o, it->first, "prefix");
    ctx().count("prefix_hits");
  }
  // and it meets them all
  for(auto &e : seen) {
    const Id &o = e.second;
    std::string p = o.kind.substr(0, 6) == "field:" ? str(FieldLocator((KeyType) o.kind[6], o.key).getPrefix()) : o.kind == "lhash-data" ? str(LocalityFieldLocator(o.key, o.hint).toView()) : o.kind == "lhash-index" ? str(LocalityIndexLocator(o.key).toView()) : "";
    if(e.first.compare(0, p.size(), p) != 0) VF_FAIL("keys:prefix-missing", show(o) << " is not under the prefix of its key");
  }
}

static std::string token(Rng &g, bool big) {
  if(big && g.chance(25)) { // around the size of the static buffer
    size_t n = g.chance(60) ? 490 + g.below(40) : g.chance(50) ? 1000 + g.below(60) : g.below(3000);
    std::string s;
    for(size_t i = 0; i < n; i++) s += g.chance(5) ? "#|"[g.below(2)] : (char) ('a' + g.below(26));
    if(!s.empty()) return s;
  }
  std::string s;
  do s = g.chance(50) ? g.bytes(10) : [&]() { std::string o; for(size_t i = g.below(6); i > 0; i--) o += "ab#|"[g.below(4)]; return o; }(); while(s.empty());
  return s;
}

static void inverse(Rng &g) {
  std::string k = token(g, true), f = token(g, true), h = token(g, true), f2 = token(g, false);
  ctx().current("key '" + esc(k) + "' hint '" + esc(h) + "' field '" + esc(f) + "'");
  bool amb = (k.back() == '|' && f[0] == '#'); // reads as key P#, see pipe-hash
  for(auto t : fieldTypes) {
    FieldLocator loc(t, k, f);
    Exact e(loc.toView());
    if(loc.getPrefixSize() != loc.getPrefix().size() || str(loc.getPrefix()) + f != str(loc.toView())) VF_FAIL("keys:field", "prefix + field is not the key");
    if(!amb) {
      ReverseLocator rev(e.sv());
      if(rev.getKeyType() != t || rev.getOriginalKey() != k || rev.getField() != f || rev.getRawPrefixUntilBoundary() != loc.getPrefix() || rev.isLocalityIndex())
        VF_FAIL("keys:inverse", "type " << (char) t << " key '" << esc(k) << "' field '" << esc(f) << "' decodes differently: '" << (rev.getKeyType() == t ? esc(rev.getOriginalKey()) : "?") << "'");
    }
    // order
    FieldLocator l2(t, k, f2);
    std::string a = str(loc.toView()), b = str(l2.toView());
    if((f < f2) != (a < b) || (f == f2) != (a == b)) VF_FAIL("keys:order", "fields '" << esc(f) << "' '" << esc(f2) << "' of key '" << esc(k) << "'");
    // reuse gives what fresh construction gives
    l2.resetField(f); if(str(l2.toView()) != a) VF_FAIL("keys:reuse", "resetField");
    l2.resetKey(t, f2); l2.resetField(h); if(str(l2.toView()) != str(FieldLocator(t, f2, h).toView())) VF_FAIL("keys:reuse", "resetKey");
    l2.resetField(""); l2.resetField("");
    if(str(l2.toView()) != str(FieldLocator(t, f2).getPrefix())) VF_FAIL("keys:reuse", "empty field");
    l2.resetKey(t, k); l2.resetField(f); if(str(l2.toView()) != a) VF_FAIL("keys:reuse", "resetKey back");
  }
  {
    Exact e(StringLocator(k).toView());
    ReverseLocator rev(e.sv());
    if(rev.getKeyType() != KeyType::kString || rev.getOriginalKey() != k) VF_FAIL("keys:inverse", "string key '" << esc(k) << "'");
    DescriptorLocator d(k);
    if(str(d.toView()).substr(1) != k || d.toString() != str(d.toView())) VF_FAIL("keys:inverse", "descriptor of '" << esc(k) << "'");
    DescriptorLocator d2(f); d2.reset(k); if(d2.toString() != d.toString()) VF_FAIL("keys:reuse", "descriptor");
    StringLocator s2(f); s2.reset(k); if(s2.toView() != StringLocator(k).toView()) VF_FAIL("keys:reuse", "string");
    LeaseLocator le(f); le.reset(k); if(le.toView() != LeaseLocator(k).toView()) VF_FAIL("keys:reuse", "lease");
    ConfigurationLocator cf(f); cf.reset(k); if(cf.toView() != ConfigurationLocator(k).toView()) VF_FAIL("keys:reuse", "config");
  }
  {
    LocalityFieldLocator loc(k, h, f);
    Exact e(loc.toView());
    if(k.back() != '|' || true) {
      ReverseLocator rev(e.sv());
      if(rev.getKeyType() != KeyType::kLocalityHash || rev.getOriginalKey() != k || rev.isLocalityIndex()) VF_FAIL("keys:inverse", "locality key '" << esc(k) << "'");
      else {
        std::string_view rest = rev.getField(); rest.remove_prefix(1);
        Exact er(rest);
        EscapedPrefixExtractor x;
        bool ambh = h.back() == '|' && f[0] == '#';
        if(!x.parse(er.sv())) VF_FAIL("keys:inverse", "hint '" << esc(h) << "' field '" << esc(f) << "' does not parse");
        else if(!ambh && (x.getOriginalPrefix() != h || x.getRawSuffix() != f || x.getBoundary() + f.size() != rest.size())) VF_FAIL("keys:inverse", "hint '" << esc(h) << "' field '" << esc(f) << "' decodes to '" << esc(x.getOriginalPrefix()) << "' '" << esc(x.getRawSuffix()) << "'");
      }
    }
    std::string a = str(loc.toView());
    std::string b = str(LocalityFieldLocator(k, h, f2).toView());
    if((f < f2) != (a < b)) VF_FAIL("keys:order", "locality fields");
    LocalityFieldLocator l2(f2, k, h);
    l2.resetKey(k); l2.resetHint(h); l2.resetField(f); if(str(l2.toView()) != a) VF_FAIL("keys:reuse", "locality");
    l2.resetField(f2); if(str(l2.toView()) != b) VF_FAIL("keys:reuse", "locality field");
    l2.resetHint(f2); l2.resetField(k); if(str(l2.toView()) != str(LocalityFieldLocator(k, f2, k).toView())) VF_FAIL("keys:reuse", "locality hint");
    LocalityIndexLocator il(k, f);
    Exact ei(il.toView());
    ReverseLocator rev(ei.sv());
    if(rev.getKeyType() != KeyType::kLocalityHash || rev.getOriginalKey() != k || !rev.isLocalityIndex() || rev.getField().substr(1) != f) VF_FAIL("keys:inverse", "locality index '" << esc(k) << "' '" << esc(f) << "'");
    il.resetField(f2); if(il.toView() != LocalityIndexLocator(k, f2).toView()) VF_FAIL("keys:reuse", "index field");
    il.resetKey(h); il.resetField(f); if(il.toView() != LocalityIndexLocator(h, f).toView()) VF_FAIL("keys:reuse", "index key");
  }
  {
    uint64_t d1 = g.chance(50) ? g.below(1000) : g.next(), d2 = g.chance(30) ? d1 : g.chance(50) ? g.below(1000) : g.next();
    std::string a = str(ExpirationEventLocator(d1, k).toView());
    ExpirationEventLocator el(d1, h); el.reset(d2, f);
    std::string b = str(el.toView());
    if((std::make_pair(d1, k) < std::make_pair(d2, f)) != (a < b)) VF_FAIL("keys:order", "expiration events (" << d1 << ", '" << esc(k) << "') (" << d2 << ", '" << esc(f) << "')");
    if(a.substr(9) != k || binaryStringToUnsignedInt(a.data() + 1) != d1) VF_FAIL("keys:inverse", "expiration event");
  }
  ctx().eval("inv" + k + "\1" + h + "\1" + f);
}

static void malformed(Rng &g) {
  std::string s;
  if(g.chance(40)) s = g.bytes(20);
  else if(g.chance(60)) { for(size_t i = g.below(9); i > 0; i--) s += "#|#ade"[g.below(6)]; if(g.chance(70)) s = std::string(1, "abcdefg!@~"[g.below(10)]) + s; }
  else { auto v = records(token(g, false), token(g, false), token(g, false)); s = v[g.below(v.size())].first; if(!s.empty()) { if(g.chance(50)) s.resize(g.below(s.size() + 1)); else s[g.below(s.size())] = "#|\0a"[g.below(4)]; } }
  ctx().current("malformed '" + esc(s) + "'");
  Exact e(s);
  bool ok = false;
  vf::throws([&]() {
    EscapedPrefixExtractor x;
    if(x.parse(e.sv())) {
      ok = true;
      size_t b = x.getBoundary();
      if(b < 2 || b > s.size() || x.getRawSuffix().size() != s.size() - b || x.getRawSuffix().data() != e.p.get() + b || x.getRawPrefix().size() != b - 2 || x.getOriginalPrefix().size() > b - 2)
        VF_FAIL("keys:malformed", "'" << esc(s) << "' parsed with inconsistent boundaries");
      volatile char sink = 0; for(char c : str(x.getOriginalPrefix()) + str(x.getRawSuffix())) sink = c; (void) sink;
    }
  });
  vf::throws([&]() {
    ReverseLocator r(e.sv());
    if(r.getKeyType() == KeyType::kParseError) return;
    ok = true;
    std::string k = str(r.getOriginalKey());
    if(k.size() + 1 > s.size()) VF_FAIL("keys:malformed", "'" << esc(s) << "' gave a key longer than itself");
    if(r.getKeyType() != KeyType::kString) { str(r.getField()); str(r.getRawPrefixUntilBoundary()); r.isLocalityIndex(); }
  });
  ctx().count(ok ? "malformed.parsed" : "malformed.rejected");
  // descriptors
  std::string d = g.chance(50) ? s : std::string(1, "abcdefg=x\0"[g.below(10)]) + std::string(g.chance(50) ? 8 : g.chance(50) ? 16 : g.chance(50) ? 24 : g.below(30), (char) g.next());
  Exact ed(d);
  size_t want = d.empty() ? 0 : strchr("abce", d[0]) && d[0] ? 9 : (d[0] == 'd' || d[0] == 'f') ? 25 : d[0] == 'g' ? 17 : 0;
  bool valid = want == d.size() && want != 0;
  if(valid && want == 25 && binaryStringToUnsignedInt(d.data() + 9) > binaryStringToUnsignedInt(d.data() + 17)) valid = false;
  bool threw = vf::throws([&]() { KeyDescriptor kd(ed.sv()); if(valid && str(kd.serialize()) != d) VF_FAIL("keys:descriptor", "'" << esc(d) << "' serializes back as '" << esc(kd.serialize()) << "'"); });
  if(threw == valid) VF_FAIL("keys:descriptor", "descriptor '" << esc(d) << "' valid " << valid << " threw " << threw);
  ctx().eval("mal" + s + "\1" + d);
}

static void descriptors(Rng &g) {
  static const KeyType types[] = {KeyType::kString, KeyType::kHash, KeyType::kSet, KeyType::kDeque, KeyType::kLocalityHash, KeyType::kLease, KeyType::kVersionedHash};
  static const char *names[] = {"string", "hash", "set", "deque", "locality hash", "lease", "versioned hash"};
  int i = g.below(7); KeyType t = types[i];
  if(parseKeyType((char) t) != t || keyTypeAsString(t) != names[i]) VF_FAIL("keys:type", names[i]);
  KeyDescriptor d;
  if(!d.empty() || keyTypeAsString(KeyType::kNull) != "none") VF_FAIL("keys:descriptor", "fresh descriptor not empty");
  d.setKeyType(t);
  int64_t sz = g.chance(50) ? g.below(100) : (int64_t) (g.next() >> 1);
  d.setSize(sz);
  bool range = t == KeyType::kDeque || t == KeyType::kLease, start = range || t == KeyType::kVersionedHash;
  uint64_t a = g.next(), b = g.next(); if(a > b) std::swap(a, b);
  if(start) d.setStartIndex(a); else if(!vf::throws([&]() { d.setStartIndex(a); }) || !vf::throws([&]() { d.getStartIndex(); })) VF_FAIL("keys:descriptor", "start index on " << names[i]);
  if(range) d.setEndIndex(b); else if(!vf::throws([&]() { d.setEndIndex(a); }) || !vf::throws([&]() { d.getEndIndex(); })) VF_FAIL("keys:descriptor", "end index on " << names[i]);
  if(t == KeyType::kDeque) {
    if(d.getListIndex(Direction::kLeft) != a || d.getListIndex(Direction::kRight) != b) VF_FAIL("keys:descriptor", "list index");
    d.setListIndex(Direction::kLeft, a / 2); if(d.getStartIndex() != a / 2 || d.getEndIndex() != b) VF_FAIL("keys:descriptor", "set left index");
    d.setListIndex(Direction::kLeft, a); d.setListIndex(Direction::kRight, b);
    if(d.getStartIndex() != a || d.getEndIndex() != b) VF_FAIL("keys:descriptor", "set right index");
  }
  std::string s = str(d.serialize());
  Exact e(s);
  KeyDescriptor r(e.sv());
  if(!(r == d) || r.getKeyType() != t || r.getSize() != sz || (start && r.getStartIndex() != a) || (range && r.getEndIndex() != b) || r.empty()) VF_FAIL("keys:descriptor", names[i] << " descriptor does not round-trip");
  ctx().eval("desc" + s);
  // rocksdb internal keys: user key + 8 bytes (sequence << 8 | type)
  static const std::vector<std::pair<int, std::string>> vt = {{0, "deletion"}, {1, "value"}, {2, "merge"}, {7, "single deletion"}, {0xF, "range deletion"}, {0x10, "column family blob index"}, {0x11, "blob index"}, {0x55, "(cannot determine key type)"}};
  auto &v = g.pick(vt);
  uint64_t tail = (g.next() << 8) | v.first;
  std::string ik = g.bytes(6); ik.append((char*) &tail, 8);
  Exact ek(ik), sh(ik.substr(0, g.below(8)));
  if(isTombstone(ek.sv()) != (v.first == 0 || v.first == 7) || getInternalKeyType(ek.sv()) != v.second) VF_FAIL("keys:internal", "type " << v.first << " reported as " << getInternalKeyType(ek.sv()));
  if(isTombstone(sh.sv()) || getInternalKeyType(sh.sv()) != "(invalid key type)") VF_FAIL("keys:internal", "short internal key");
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  vf::quiet();
  auto w2 = words("a#|", 2), w3 = words("a#|", 3);
  injective(w3, words("a#|", ctx().thorough ? 3 : 2), w2);
  injective(words(std::string("\0\xff#|", 4), 2), words("#|\xff", 1), words(std::string("\0\xff#|di", 6), 2));
  if(!ctx().failed() || true) {
    int64_t n = ctx().n(200, 10);
    for(int64_t i = 0; i < n; i++) {
      Rng g(ctx().seed * 7919 + i);
      std::vector<std::string> ks, fs, hs;
      for(int k = 0; k < 6; k++) { ks.push_back(token(g, false)); fs.push_back(token(g, false)); }
      for(int k = 0; k < 3; k++) hs.push_back(token(g, false));
      injective(ks, hs, fs);
    }
    n = ctx().n(6000, 15);
    for(int64_t i = 0; i < n; i++) { Rng g(ctx().seed * 104729 + i); inverse(g); }
    n = ctx().n(60000, 15);
    for(int64_t i = 0; i < n; i++) { Rng g(ctx().seed * 15485863 + i); malformed(g); descriptors(g); }
  }
  ctx().sample("all keys over {a,#,|} up to 3 characters with fields and hints up to 2, then random bytes, sizes around 512");
  return ctx().finish();
}
