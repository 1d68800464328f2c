// Reference model of the data commands: plain in-memory types, replies, and the records
// the database must hold. Shared by the state machine harnesses.
#ifndef VF_SM_MODEL_HH
#define VF_SM_MODEL_HH
#include "qdb.hh"
#include "resp.hh"
#include "glob_ref.hh"
#include "StateMachine.hh"
#include "Dispatcher.hh"
#include "Formatter.hh"
#include "pubsub/Publisher.hh"
#include "redis/Transaction.hh"
#include "storage/KeyDescriptor.hh"
#include "storage/KeyLocators.hh"
#include "utils/IntToBinaryString.hh"
#include <charconv>
#include <deque>

namespace smm {
using resp::Val;
typedef std::vector<std::string> Cmd;

inline std::string be64(uint64_t v) { std::string o(8, 0); for(int i = 7; i >= 0; i--) { o[i] = (char) v; v >>= 8; } return o; }
inline uint64_t ube64(std::string_view s) { uint64_t v = 0; for(unsigned char c : s.substr(0, 8)) v = v << 8 | c; return v; }
// integers: decimal, in the range of int64 (a leading '+' or blank is tolerated, as C30 leaves open)
inline bool toInt(const std::string &s, int64_t &out) {
  size_t i = 0;
  while(i < s.size() && isspace((unsigned char) s[i])) i++;
  if(i < s.size() && s[i] == '+') { i++; if(i < s.size() && s[i] == '-') return false; }
  if(i == s.size()) return false;
  auto r = std::from_chars(s.data() + i, s.data() + s.size(), out);
  return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
inline bool toDouble(const std::string &s, double &out) {
  if(s.empty()) return false;
  char *e;
  out = strtod(s.c_str(), &e);
  return e == s.c_str() + s.size() && std::isfinite(out);
}

enum Type { STR, HASH, SET, DEQUE, LHASH, LEASE, VHASH };
static const char *typeName[] = {"string", "hash", "set", "deque", "locality hash", "lease", "versioned hash"};

struct Obj {
  Type type = STR;
  std::string str;                                                // string; holder of a lease
  std::map<std::string, std::string> map;                         // hash, set, vhash
  std::deque<std::string> dq;
  std::map<std::string, std::pair<std::string, std::string>> lh;  // field -> (hint, value)
  uint64_t version = 0, start = 0, deadline = 0;
};

inline Val wrongtype() { return resp::err("WRONGTYPE"); }
inline Val badargs() { return resp::err("ARGS"); }
inline Val anyerr() { return resp::err("ANY"); }   // several things are wrong: either may be reported
inline Val other(const std::string &s = "") { return resp::err("OTHER:" + s); }

// does the actual reply agree with the expected one? Errors are compared by kind.
inline bool agree(const Val &e, const Val &a) {
  if(e.type != a.type) return false;
  if(e.type == '-') {
    bool wt = a.s.find("WRONGTYPE") != std::string::npos, ar = a.s.find("wrong number of arguments") != std::string::npos;
    if(e.s == "ANY") return true;
    if(e.s == "WRONGTYPE") return wt;
    if(e.s == "ARGS") return ar;
    return !wt && !ar && (e.s.size() <= 6 || a.s.find(e.s.substr(6)) != std::string::npos);
  }
  if(e.kids.size() != a.kids.size()) return false;
  for(size_t i = 0; i < e.kids.size(); i++) if(!agree(e.kids[i], a.kids[i])) return false;
  return e.s == a.s && e.i == a.i && e.nil == a.nil;
}

struct Revision { uint64_t number = 0; std::map<std::string, std::string> updates; };

struct Model {
  std::map<std::string, Obj> keys;
  std::map<std::string, std::string> config;
  uint64_t clock = 0;
  int64_t applied = 0;
  uint64_t expired = 0, renewed = 0;

  // within the current transaction
  std::set<std::string> vhTouched;
  std::map<std::string, Revision> rev;

  void begin() { vhTouched.clear(); rev.clear(); }

  Obj *get(const std::string &k) { auto it = keys.find(k); return it == keys.end() ? nullptr : &it->second; }
  // object of the type; wrong: there is one of another type
  Obj *typed(const std::string &k, Type t, bool &wrong) {
    Obj *o = get(k);
    wrong = o && o->type != t;
    return wrong ? nullptr : o;
  }
  Obj &make(const std::string &k, Type t) { Obj &o = keys[k]; o.type = t; return o; }
  void drop(const std::string &k) { keys.erase(k); vhTouched.erase(k); rev.erase(k); }

  void advance(uint64_t t) {
    if(t <= clock) return;
    clock = t;
    for(auto it = keys.begin(); it != keys.end();) {
      if(it->second.type == LEASE && it->second.deadline <= clock) { it = keys.erase(it); expired++; }
      else ++it;
    }
  }

  static std::string lhEnc(const std::string &hint, const std::string &field) {
    std::string o;
    for(char c : hint) { if(c == '#') o += "|#"; else o += c; }
    return o + "##" + field;
  }

  // cursor/count/match arguments; err: reply to give
  struct ScanArgs { std::string cursor, match, loc; int64_t count = 100; bool bad = false; };
  static std::string lower(std::string s) { for(char &c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }
  static ScanArgs scanArgs(const Cmd &c, size_t from, bool m, bool loc) {
    ScanArgs a;
    if(c[from] == "0") ;
    else if(c[from].substr(0, 5) == "next:") a.cursor = c[from].substr(5);
    else { a.bad = true; return a; }
    for(size_t i = from + 1; i < c.size(); i += 2) {
      if(i + 1 == c.size()) { a.bad = true; return a; }
      std::string w = lower(c[i]);
      if(w == "count") { if(!toInt(c[i+1], a.count) || a.count <= 0) { a.bad = true; return a; } }
      else if(w == "match" && m) a.match = c[i+1];
      else if(w == "matchloc" && loc) a.loc = c[i+1];
      else { a.bad = true; return a; }
    }
    return a;
  }
  static Val scanReply(const std::string &next, std::vector<std::string> items) {
    return resp::arr({resp::str(next.empty() ? "0" : "next:" + next), resp::strs(items)});
  }

  Val hincr(const std::string &k, const std::string &f, const std::string &by, int64_t &res) {
    res = 0;
    int64_t inc, old = 0;
    bool w; Obj *o = typed(k, HASH, w);
    if(!toInt(by, inc)) return w ? anyerr() : other();
    if(w) return wrongtype();
    if(o && o->map.count(f) && !toInt(o->map[f], old)) return other();
    __int128 s = (__int128) old + inc;
    if(s > INT64_MAX || s < INT64_MIN) { res = INT64_MIN; return other(); }
    res = (int64_t) s;
    make(k, HASH).map[f] = std::to_string(res);
    return resp::num(res);
  }
  int64_t hdel(const std::string &k, const std::string &f) {
    Obj *o = get(k);
    if(!o || !o->map.erase(f)) return 0;
    if(o->map.empty() && o->type != VHASH) drop(k);
    return 1;
  }
  int64_t lhdel(const std::string &k, const std::string &f) {
    Obj *o = get(k);
    if(!o || !o->lh.erase(f)) return 0;
    if(o->lh.empty()) drop(k);
    return 1;
  }
  Val hget(const std::string &k, const std::string &f) {
    bool w; Obj *o = typed(k, HASH, w);
    if(w) return wrongtype();
    return o && o->map.count(f) ? resp::str(o->map[f]) : resp::nil();
  }
  Val lhget(const std::string &k, const std::string &f) {
    bool w; Obj *o = typed(k, LHASH, w);
    if(w) return wrongtype();
    return o && o->lh.count(f) ? resp::str(o->lh[f].second) : resp::nil();
  }
  static bool lhValid(const std::string &k, const std::string &f, const std::string &h) { return !k.empty() && !f.empty() && !h.empty(); }
  Val lhset(const std::string &k, const std::string &f, const std::string &h, const std::string &v) {
    bool w; Obj *o = typed(k, LHASH, w);
    if(!lhValid(k, f, h)) return w ? anyerr() : other();
    if(w) return wrongtype();
    bool created = !o || !o->lh.count(f);
    make(k, LHASH).lh[f] = {h, v};
    return resp::num(created);
  }
  Obj &vhTouch(const std::string &k) {
    Obj &o = make(k, VHASH);
    if(vhTouched.insert(k).second) o.version++;
    rev[k].number = o.version;
    return o;
  }

  // the reply a data command must get; the model changes accordingly
  Val apply(const Cmd &c) {
    std::string n = lower(c[0]);
    for(char &ch : n) if(ch == '-') ch = '_';
    size_t z = c.size();
    bool w;
    // --- generic
    if(n == "flushall") { if(z != 1) return badargs(); keys.clear(); vhTouched.clear(); rev.clear(); return resp::status("OK"); }
    if(n == "type") { if(z != 2) return badargs(); Obj *o = get(c[1]); return resp::status(o ? typeName[o->type] : "none"); }
    if(n == "exists") { if(z < 2) return badargs(); int64_t k = 0; for(size_t i = 1; i < z; i++) k += keys.count(c[i]); return resp::num(k); }
    if(n == "del") { if(z < 2) return badargs(); int64_t k = 0; for(size_t i = 1; i < z; i++) if(keys.count(c[i])) { drop(c[i]); k++; } return resp::num(k); }
    if(n == "keys") {
      if(z != 2) return badargs();
      std::vector<std::string> out; vf::GlobRef g(c[1]);
      for(auto &k : keys) if(c[1].empty() || g.match(k.first)) out.push_back(k.first);
      return resp::strs(out);
    }
    if(n == "scan") {
      if(z < 2) return badargs();
      auto a = scanArgs(c, 1, true, false);
      if(a.bad) return other();
      // pages are cut by the number of keys visited; visits start at the literal prefix of the pattern
      std::string prefix = a.match.substr(0, a.match.find_first_of("?*[]\\"));
      vf::GlobRef g(a.match);
      std::vector<std::string> out; int64_t visited = 0;
      for(auto it = keys.lower_bound(a.cursor.empty() ? prefix : a.cursor); it != keys.end(); ++it) {
        if(it->first.compare(0, prefix.size(), prefix) != 0) break;
        if(++visited > a.count) return scanReply(it->first, out);
        if(a.match.empty() || g.match(it->first)) out.push_back(it->first);
      }
      return scanReply("", out);
    }
    // --- strings
    if(n == "set") { if(z != 3) return badargs(); typed(c[1], STR, w); if(w) return wrongtype(); make(c[1], STR).str = c[2]; return resp::status("OK"); }
    if(n == "get") { if(z != 2) return badargs(); Obj *o = typed(c[1], STR, w); if(w) return wrongtype(); return o ? resp::str(o->str) : resp::nil(); }
    // --- hashes
    if(n == "hset" || n == "hsetnx") {
      if(z != 4) return badargs();
      Obj *o = typed(c[1], HASH, w); if(w) return wrongtype();
      bool created = !o || !o->map.count(c[2]);
      if(created || n == "hset") make(c[1], HASH).map[c[2]] = c[3];
      return resp::num(created);
    }
    if(n == "hmset") {
      if(z <= 3 || z % 2) return badargs();
      typed(c[1], HASH, w); if(w) return wrongtype();
      for(size_t i = 2; i < z; i += 2) make(c[1], HASH).map[c[i]] = c[i+1];
      return resp::status("OK");
    }
    if(n == "hincrby") { if(z != 4) return badargs(); int64_t r; return hincr(c[1], c[2], c[3], r); }
    if(n == "hincrbymulti") {
      if(z < 4 || (z - 1) % 3) return badargs();
      uint64_t sum = 0;
      for(size_t i = 1; i < z; i += 3) { int64_t r; Val v = hincr(c[i], c[i+1], c[i+2], r); if(v.type == ':') sum += (uint64_t) r; else swallowed = true; }
      return resp::num((int64_t) sum);
    }
    if(n == "hincrbyfloat") {
      if(z != 4) return badargs();
      double inc, old = 0;
      Obj *o = typed(c[1], HASH, w);
      if(!toDouble(c[3], inc)) return w ? anyerr() : other();
      if(w) return wrongtype();
      if(o && o->map.count(c[2]) && !toDouble(o->map[c[2]], old)) return other();
      old += inc;
      if(!std::isfinite(old)) return other();
      return resp::str(make(c[1], HASH).map[c[2]] = std::to_string(old));
    }
    if(n == "hdel") {
      if(z <= 2) return badargs();
      typed(c[1], HASH, w); if(w) return wrongtype();
      int64_t k = 0; for(size_t i = 2; i < z; i++) k += hdel(c[1], c[i]);
      return resp::num(k);
    }
    if(n == "hget") { if(z != 3) return badargs(); return hget(c[1], c[2]); }
    if(n == "hexists") { if(z != 3) return badargs(); Val v = hget(c[1], c[2]); return v.type == '-' ? v : resp::num(!v.nil); }
    if(n == "hlen") { if(z != 2) return badargs(); Obj *o = typed(c[1], HASH, w); if(w) return wrongtype(); return resp::num(o ? o->map.size() : 0); }
    if(n == "hkeys" || n == "hvals" || n == "hgetall") {
      if(z != 2) return badargs();
      Obj *o = typed(c[1], HASH, w); if(w) return wrongtype();
      std::vector<std::string> out;
      if(o) for(auto &f : o->map) { if(n != "hvals") out.push_back(f.first); if(n != "hkeys") out.push_back(f.second); }
      return resp::strs(out);
    }
    if(n == "hscan" || n == "sscan") {
      if(z < 3) return badargs();
      auto a = scanArgs(c, 2, false, false);
      Obj *o = typed(c[1], n == "hscan" ? HASH : SET, w);
      if(a.bad) return w ? anyerr() : other();
      if(w) return wrongtype();
      std::vector<std::string> out; int64_t k = 0;
      if(o) for(auto it = o->map.lower_bound(a.cursor); it != o->map.end(); ++it) {
        if(k == a.count) return scanReply(it->first, out);
        k++;
        out.push_back(it->first);
        if(n == "hscan") out.push_back(it->second);
      }
      return scanReply("", out);
    }
    if(n == "hclone") {
      if(z != 3) return badargs();
      typed(c[2], HASH, w);
      bool dw = w, there = get(c[2]) != nullptr;
      Obj *s = typed(c[1], HASH, w);
      if((dw || there) && w) return anyerr();
      if(dw || w) return wrongtype();
      if(there) return other();
      if(s) { auto m = s->map; make(c[2], HASH).map = m; }
      return resp::status("OK");
    }
    // --- sets
    if(n == "sadd") { if(z <= 2) return badargs(); typed(c[1], SET, w); if(w) return wrongtype(); int64_t k = 0; for(size_t i = 2; i < z; i++) k += make(c[1], SET).map.emplace(c[i], "1").second; return resp::num(k); }
    if(n == "srem") { if(z <= 2) return badargs(); typed(c[1], SET, w); if(w) return wrongtype(); int64_t k = 0; for(size_t i = 2; i < z; i++) k += hdel(c[1], c[i]); return resp::num(k); }
    if(n == "smove") {
      if(z != 4) return badargs();
      Obj *s = typed(c[1], SET, w); if(w) return wrongtype();
      typed(c[2], SET, w); if(w) return wrongtype();
      if(!s || !s->map.count(c[3])) return resp::num(0);
      if(c[1] != c[2]) { hdel(c[1], c[3]); make(c[2], SET).map[c[3]] = "1"; }
      return resp::num(1);
    }
    if(n == "sismember") { if(z != 3) return badargs(); Obj *o = typed(c[1], SET, w); if(w) return wrongtype(); return resp::num(o && o->map.count(c[2])); }
    if(n == "scard") { if(z != 2) return badargs(); Obj *o = typed(c[1], SET, w); if(w) return wrongtype(); return resp::num(o ? o->map.size() : 0); }
    if(n == "smembers") { if(z != 2) return badargs(); Obj *o = typed(c[1], SET, w); if(w) return wrongtype(); std::vector<std::string> out; if(o) for(auto &f : o->map) out.push_back(f.first); return resp::strs(out); }
    // --- deques
    if(n == "deque_push_front" || n == "deque_push_back") {
      if(z < 3) return badargs();
      typed(c[1], DEQUE, w); if(w) return wrongtype();
      Obj &o = make(c[1], DEQUE);
      for(size_t i = 2; i < z; i++) { if(n == "deque_push_front") o.dq.push_front(c[i]); else o.dq.push_back(c[i]); }
      return resp::num(o.dq.size());
    }
    if(n == "deque_pop_front" || n == "deque_pop_back") {
      if(z != 2) return badargs();
      Obj *o = typed(c[1], DEQUE, w); if(w) return wrongtype();
      if(!o) return resp::nil();
      std::string v;
      if(n == "deque_pop_front") { v = o->dq.front(); o->dq.pop_front(); } else { v = o->dq.back(); o->dq.pop_back(); }
      if(o->dq.empty()) drop(c[1]);
      return resp::str(v);
    }
    if(n == "deque_trim_front" || n == "deque_clear") {
      int64_t keep = 0;
      if(n == "deque_clear") { if(z != 2) return badargs(); }
      else { if(z != 3) return badargs(); typed(c[1], DEQUE, w); if(!toInt(c[2], keep) || keep < 0) return w ? anyerr() : other(); }
      Obj *o = typed(c[1], DEQUE, w); if(w) return wrongtype();
      int64_t k = 0;
      while(o && (int64_t) o->dq.size() > keep) { o->dq.pop_front(); k++; }
      if(o && o->dq.empty()) drop(c[1]);
      return resp::num(k);
    }
    if(n == "deque_len") { if(z != 2) return badargs(); Obj *o = typed(c[1], DEQUE, w); if(w) return wrongtype(); return resp::num(o ? o->dq.size() : 0); }
    // --- locality hashes
    if(n == "lhset") { if(z != 5) return badargs(); return lhset(c[1], c[2], c[3], c[4]); }
    if(n == "lhmset") {
      if(z <= 4 || (z - 2) % 3) return badargs();
      typed(c[1], LHASH, w);
      for(size_t i = 2; i < z; i += 3) if(!lhValid(c[1], c[i], c[i+1])) return w ? anyerr() : other();
      if(w) return wrongtype();
      for(size_t i = 2; i < z; i += 3) lhset(c[1], c[i], c[i+1], c[i+2]);
      return resp::status("OK");
    }
    if(n == "lhdel") { if(z <= 2) return badargs(); typed(c[1], LHASH, w); if(w) return wrongtype(); int64_t k = 0; for(size_t i = 2; i < z; i++) k += lhdel(c[1], c[i]); return resp::num(k); }
    if(n == "lhlocdel") {
      if(z != 4) return badargs();
      Obj *o = typed(c[1], LHASH, w); if(w) return wrongtype();
      if(!o || !o->lh.count(c[2]) || o->lh[c[2]].first != c[3]) return resp::num(0);
      return resp::num(lhdel(c[1], c[2]));
    }
    if(n == "lhget") { if(z != 3 && z != 4) return badargs(); return lhget(c[1], c[2]); }
    if(n == "lhlen") { if(z != 2) return badargs(); Obj *o = typed(c[1], LHASH, w); if(w) return wrongtype(); return resp::num(o ? o->lh.size() : 0); }
    if(n == "lhget_with_fallback") {
      if(z != 4 && z != 5) return badargs();
      Val v = lhget(c[1], c[2]);
      return v.type == '$' && v.nil ? hget(c[z-1], c[2]) : v;
    }
    if(n == "lhset_and_del_fallback") {
      if(z != 6) return badargs();
      Val v = lhset(c[1], c[2], c[3], c[4]);
      if(v.type == '-') return v;
      typed(c[5], HASH, w);
      if(!w) hdel(c[5], c[2]);
      return v;
    }
    if(n == "lhdel_with_fallback") {
      if(z != 4) return badargs();
      typed(c[1], LHASH, w); if(w) return wrongtype();
      if(lhdel(c[1], c[2])) return resp::num(1);
      typed(c[3], HASH, w); if(w) return wrongtype();
      return resp::num(hdel(c[3], c[2]));
    }
    if(n == "convert_hash_field_to_lhash") {
      if(z != 6) return badargs();
      Obj *d = typed(c[3], LHASH, w);
      bool dw = w;
      Obj *s = typed(c[1], HASH, w);
      bool problem = (d && d->lh.count(c[4])) || (!w && (!s || !s->map.count(c[2]))) || !lhValid(c[3], c[4], c[5]);
      if((w || dw) && problem) return anyerr();
      if(w || dw) return wrongtype();
      if(problem) return other();
      std::string v = s->map[c[2]];
      lhset(c[3], c[4], c[5], v);
      hdel(c[1], c[2]);
      return resp::status("OK");
    }
    if(n == "lhscan") {
      if(z < 3) return badargs();
      auto a = scanArgs(c, 2, false, true);
      Obj *o = typed(c[1], LHASH, w);
      if(a.bad) return w ? anyerr() : other();
      if(w) return wrongtype();
      bool all = a.loc.empty() || a.loc == "*";
      vf::GlobRef g(a.loc);
      std::map<std::string, std::string> m;
      if(o) for(auto &f : o->lh) m[lhEnc(f.second.first, f.first)] = f.first;
      std::vector<std::string> out; int64_t k = 0;
      std::string prefix = a.loc.substr(0, a.loc.find_first_of("?*[]\\")), ep;
      if(all) prefix.clear();
      for(char ch : prefix) { if(ch == '#') ep += "|#"; else ep += ch; }
      for(auto it = m.lower_bound(a.cursor.empty() ? ep : a.cursor); it != m.end(); ++it) {
        if(it->first.compare(0, ep.size(), ep) != 0) break;
        if(k == a.count) return scanReply(it->first, out);
        auto &f = o->lh[it->second];
        if(!all && !g.match(f.first)) continue;
        k++;
        out.push_back(f.first); out.push_back(it->second); out.push_back(f.second);
      }
      return scanReply("", out);
    }
    // --- versioned hashes
    if(n == "vhset") {
      if(z != 4) return badargs();
      typed(c[1], VHASH, w); if(w) return wrongtype();
      Obj &o = vhTouch(c[1]);
      o.map[c[2]] = c[3];
      rev[c[1]].updates[c[2]] = c[3];
      return resp::num(o.version);
    }
    if(n == "vhdel") {
      if(z <= 2) return badargs();
      Obj *o = typed(c[1], VHASH, w); if(w) return wrongtype();
      if(!o) return resp::num(0);
      for(size_t i = 2; i < z; i++) if(o->map.erase(c[i])) { vhTouch(c[1]); rev[c[1]].updates[c[i]] = ""; }
      return resp::num(o->version);
    }
    if(n == "vhlen") { if(z != 2) return badargs(); Obj *o = typed(c[1], VHASH, w); if(w) return wrongtype(); return resp::num(o ? o->map.size() : 0); }
    if(n == "vhgetall") {
      if(z != 2) return badargs();
      Obj *o = typed(c[1], VHASH, w); if(w) return wrongtype();
      std::vector<std::string> out;
      if(o) for(auto &f : o->map) { out.push_back(f.first); out.push_back(f.second); }
      return resp::arr({resp::num(o ? o->version : 0), resp::strs(out)});
    }
    // --- leases, timestamped
    if(n == "timestamped_lease_acquire") {
      if(z != 5) return badargs();
      int64_t dur;
      if(!toInt(c[3], dur) || dur < 1) return anyerr();
      if(c[2].empty()) return anyerr();
      uint64_t t = ube64(c[4]);
      advance(t);
      Obj *o = typed(c[1], LEASE, w); if(w) return wrongtype();
      if(o && o->str != c[2]) return other("time remaining " + std::to_string(o->deadline - t) + " ms");
      bool renewed = o != nullptr;
      if(renewed) this->renewed++;
      Obj &l = make(c[1], LEASE);
      l.str = c[2]; l.start = clock; l.deadline = clock + (uint64_t) dur;
      return resp::status(renewed ? "RENEWED" : "ACQUIRED");
    }
    if(n == "timestamped_lease_get") {
      if(z != 3) return badargs();
      uint64_t t = ube64(c[2]);
      advance(t);
      Obj *o = typed(c[1], LEASE, w); if(w) return wrongtype();
      if(!o) return resp::nil();
      std::string h = o->str;
      for(char &ch : h) if(ch == '\r' || ch == '\n') ch = ' ';
      return resp::arr({resp::status("HOLDER: " + h), resp::status("REMAINING: " + std::to_string(o->deadline - t) + " ms")});
    }
    if(n == "timestamped_lease_release") {
      if(z != 3) return badargs();
      advance(ube64(c[2]));
      Obj *o = typed(c[1], LEASE, w); if(w) return wrongtype();
      if(!o) return resp::nil();
      drop(c[1]);
      return resp::status("OK");
    }
    // --- internal configuration
    if(n == "config_set") { if(z != 3) return badargs(); config[c[1]] = c[2]; return resp::status("OK"); }
    if(n == "config_get") { if(z != 2) return badargs(); return config.count(c[1]) ? resp::str(config[c[1]]) : resp::nil(); }
    if(n == "config_getall") { if(z != 1) return badargs(); std::vector<std::string> out; for(auto &k : config) { out.push_back(k.first); out.push_back(k.second); } return resp::strs(out); }
    fprintf(stderr, "VF-HARNESS-ERROR no model for %s\n", n.c_str());
    _exit(2);
  }
  bool swallowed = false;   // HINCRBYMULTI ignored an error

  // Everything the database must hold. Deque items sit at consecutive positions, whose
  // start is not specified; `why` tells what is wrong with the dump.
  std::string checkDump(const std::map<std::string, std::string> &dump) const {
    using namespace quarkdb;
    std::map<std::string, std::string> want;
    std::map<std::string, const Obj*> descr;
    auto put = [&](std::string_view k, const std::string &v) { want[std::string(k)] = v; };
    std::set<std::string> dequeRecords;
    for(auto &kv : keys) {
      const std::string &k = kv.first; const Obj &o = kv.second;
      DescriptorLocator dl(k);
      descr[std::string(dl.toView())] = &o;
      switch(o.type) {
        case STR: put(StringLocator(k).toView(), o.str); break;
        case HASH: for(auto &f : o.map) put(FieldLocator(KeyType::kHash, k, f.first).toView(), f.second); break;
        case SET: for(auto &f : o.map) put(FieldLocator(KeyType::kSet, k, f.first).toView(), "1"); break;
        case VHASH: for(auto &f : o.map) put(FieldLocator(KeyType::kVersionedHash, k, f.first).toView(), f.second); break;
        case LHASH: for(auto &f : o.lh) {
          put(LocalityFieldLocator(k, f.second.first, f.first).toView(), f.second.second);
          put(LocalityIndexLocator(k, f.first).toView(), f.second.first);
          break;
        }
        break;
        case LEASE:
          put(LeaseLocator(k).toView(), o.str);
          put(ExpirationEventLocator(o.deadline, k).toView(), "1");
          break;
        case DEQUE: {
          FieldLocator fl(KeyType::kDeque, k);
          std::string p(fl.toView());
          size_t i = 0; uint64_t prev = 0;
          for(auto it = dump.lower_bound(p); it != dump.end() && it->first.compare(0, p.size(), p) == 0; ++it, ++i) {
            if(it->first.size() != p.size() + 8) return "deque '" + vf::esc(k) + "' has the record '" + vf::esc(it->first) + "'";
            uint64_t pos = ube64(std::string_view(it->first).substr(p.size()));
            if(i && pos != prev + 1) return "positions of deque '" + vf::esc(k) + "' are not consecutive";
            prev = pos;
            if(i >= o.dq.size()) return "deque '" + vf::esc(k) + "' has more records than its " + std::to_string(o.dq.size()) + " items";
            if(it->second != o.dq[i]) return "item " + std::to_string(i) + " of deque '" + vf::esc(k) + "' is '" + vf::esc(it->second) + "', not '" + vf::esc(o.dq[i]) + "'";
            dequeRecords.insert(it->first);
          }
          if(i != o.dq.size()) return "deque '" + vf::esc(k) + "' has " + std::to_string(i) + " records for " + std::to_string(o.dq.size()) + " items";
        }
      }
      if(o.type == LHASH) for(auto &f : o.lh) {
        put(LocalityFieldLocator(k, f.second.first, f.first).toView(), f.second.second);
        put(LocalityIndexLocator(k, f.first).toView(), f.second.first);
      }
    }
    for(auto &c : config) put(ConfigurationLocator(c.first).toView(), c.second);
    size_t nd = 0, nw = 0;
    for(auto &r : dump) {
      char t = r.first.empty() ? 0 : r.first[0];
      if(t == '_') continue;
      if(t == '!') {
        auto it = descr.find(r.first);
        if(it == descr.end()) return "key '" + vf::esc(r.first.substr(1)) + "' must not exist, but it does";
        nd++;
        const Obj &o = *it->second;
        static const KeyType kt[] = {KeyType::kString, KeyType::kHash, KeyType::kSet, KeyType::kDeque, KeyType::kLocalityHash, KeyType::kLease, KeyType::kVersionedHash};
        KeyDescriptor d(r.second);
        if(d.getKeyType() != kt[o.type]) return "type of '" + vf::esc(r.first.substr(1)) + "' is not " + typeName[o.type];
        size_t sz = o.type == STR || o.type == LEASE ? o.str.size() : o.type == DEQUE ? o.dq.size() : o.type == LHASH ? o.lh.size() : o.map.size();
        if((size_t) d.getSize() != sz) return "stored size of " + std::string(typeName[o.type]) + " '" + vf::esc(r.first.substr(1)) + "' is " + std::to_string(d.getSize()) + ", not " + std::to_string(sz);
        if(o.type == VHASH && d.getStartIndex() != o.version) return "stored version of '" + vf::esc(r.first.substr(1)) + "' is " + std::to_string(d.getStartIndex()) + ", not " + std::to_string(o.version);
        if(o.type == LEASE && (d.getStartIndex() != o.start || d.getEndIndex() != o.deadline)) return "lease '" + vf::esc(r.first.substr(1)) + "' stored as " + std::to_string(d.getStartIndex()) + ".." + std::to_string(d.getEndIndex()) + ", not " + std::to_string(o.start) + ".." + std::to_string(o.deadline);
        continue;
      }
      if(dequeRecords.count(r.first)) continue;
      auto it = want.find(r.first);
      if(it == want.end()) return "orphan record '" + vf::esc(r.first) + "' = '" + vf::esc(r.second) + "'";
      nw++;
      if(it->second != r.second) return "record '" + vf::esc(r.first) + "' holds '" + vf::esc(r.second) + "', not '" + vf::esc(it->second) + "'";
    }
    if(nd != descr.size()) for(auto &d : descr) if(!dump.count(d.first)) return "key '" + vf::esc(d.first.substr(1)) + "' (" + typeName[d.second->type] + ") does not exist, though it must";
    if(nw != want.size()) for(auto &d : want) if(!dump.count(d.first)) return "record '" + vf::esc(d.first) + "' is missing";
    return "";
  }
};

// ---------------------------------------------------------------- the system under test
struct Sut {
  std::string path;
  std::unique_ptr<quarkdb::StateMachine> sm;
  quarkdb::Publisher *pub;
  std::unique_ptr<quarkdb::RedisDispatcher> disp;
  Sut(const std::string &p, quarkdb::Publisher *publisher) : path(p), pub(publisher) { open(); }
  void open() {
    sm.reset(new quarkdb::StateMachine(path));
    disp.reset(new quarkdb::RedisDispatcher(*sm, *pub));
  }
  void reopen() { disp.reset(); sm.reset(); open(); }
  std::map<std::string, std::string> dump() {
    std::map<std::string, std::string> out;
    auto it = sm->getRawIterator();
    for(it->SeekToFirst(); it->Valid(); it->Next()) out[it->key().ToString()] = it->value().ToString();
    return out;
  }
};

inline quarkdb::RedisRequest toReq(const Cmd &c) {
  // arguments as separate exact heap copies: reading beyond them is caught by ASan
  quarkdb::RedisRequest r;
  for(auto &s : c) r.emplace_back(std::string(s));
  r.parseCommand();
  return r;
}

inline bool isWrite(const Cmd &c) { return toReq(c).getCommandType() == quarkdb::CommandType::WRITE; }

// ---------------------------------------------------------------- command generator
struct Gen {
  vf::Rng &r;
  std::vector<std::string> keys, fields, hints, values, holders;
  uint64_t now = 1000;
  bool vh = true, lease = true, conf = true, flush = true;
  bool goodArgs = false;        // no wrong argument counts
  int keysPerType = 100;        // chance that a key is taken from those preferred by the type

  explicit Gen(vf::Rng &rng) : r(rng) {
    static const std::vector<std::string> kp = {"k", "k1", "k#", "k##", std::string("k\0x", 3), "", "kk", "\xff", "k#f", "##", "a|b", "#"};
    std::vector<std::string> pool = kp;
    size_t n = 4 + r.below(5);
    while(keys.size() < n) { size_t i = r.below(pool.size()); keys.push_back(pool[i]); pool.erase(pool.begin() + i); if(pool.empty()) break; }
    if(r.chance(30)) { std::string s = r.bytes(30, 0); while(!s.empty() && s.back() == '|') s.pop_back(); if(!s.empty()) keys.push_back(s); }
    fields = {"f", "f1", "f2", "", "#", "##", std::string("\0", 1), "f#", "|", "next:", "\xff\xff", std::string(600, 'F')};
    hints = {"h", "h1", "h#", "", "#h", "h##x", std::string("h\0", 2), "i|j"};
    values = {"v", "", "1", "-7", "9223372036854775807", "-9223372036854775808", "1.5", "1e300", "x\r\ny", std::string("\0v", 2), std::string(3000, 'V'), "0", "12abc", " 1", "+5"};
    holders = {"alice", "bob", std::string("\0h", 2), "a"};
  }
  std::string key() { return r.pick(keys); }
  std::string field() { return r.pick(fields); }
  std::string hint() { return r.pick(hints); }
  std::string value() { return r.chance(15) ? r.bytes(20) : r.pick(values); }
  std::string num() {
    if(r.chance(60)) return std::to_string(r.range(-5, 20));
    return value();
  }
  std::string count() { return r.chance(85) ? std::to_string(1 + r.below(6)) : r.pick(std::vector<std::string>{"0", "-1", "00", "9223372036854775807", "x", "", "100"}); }
  std::string ts() {
    if(r.chance(70)) now += r.below(60);
    uint64_t t = now;
    if(r.chance(15)) t -= std::min<uint64_t>(t, r.below(100));
    return be64(t);
  }
  std::string pattern() { return r.chance(40) ? vf::esc(key()).substr(0, 3) + "*" : r.chance(50) ? key() : vf::randomPattern(r); }

  // type preference keeps keys mostly of one type while still mixing
  std::string tkey(Type t) {
    if(r.chance(75)) return keys[((size_t) t * 5 + r.below(2)) % keys.size()];
    return key();
  }

  Cmd write() {
    Cmd c = writeInner();
    if(!goodArgs && r.chance(3)) { if(r.chance(50) && c.size() > 1) c.pop_back(); else if(c[0].compare(0, 11, "TIMESTAMPED") != 0) c.push_back(value()); }
    if(c[0].compare(0, 11, "TIMESTAMPED") == 0 && c.back().size() != 8) c.back() = be64(now);
    if(r.chance(10)) for(char &ch : c[0]) ch = tolower(ch);
    return c;
  }
  Cmd writeInner() {
    auto many = [&](Cmd c, std::function<std::string()> f, int step = 1) { for(size_t n = 1 + r.below(3); n > 0; n--) for(int i = 0; i < step; i++) c.push_back(f()); return c; };
    switch(r.below(46)) {
      case 0: case 1: case 2: return {"SET", tkey(STR), value()};
      case 3: case 4: return many({"DEL"}, [&] { return key(); });
      case 5: if(flush && r.chance(25)) return {"FLUSHALL"}; return {"DEL", key()};
      case 6: case 7: return {"HSET", tkey(HASH), field(), value()};
      case 8: return {"HSETNX", tkey(HASH), field(), value()};
      case 9: { Cmd c{"HMSET", tkey(HASH)}; for(size_t n = 1 + r.below(3); n > 0; n--) { c.push_back(field()); c.push_back(value()); } return c; }
      case 10: case 11: return {"HINCRBY", tkey(HASH), field(), num()};
      case 12: return {"HINCRBYFLOAT", tkey(HASH), field(), num()};
      case 13: { Cmd c{"HINCRBYMULTI"}; for(size_t n = 1 + r.below(3); n > 0; n--) { c.push_back(tkey(HASH)); c.push_back(field()); c.push_back(num()); } return c; }
      case 14: case 15: return many({"HDEL", tkey(HASH)}, [&] { return field(); });
      case 16: return {"HCLONE", tkey(HASH), key()};
      case 17: case 18: return many({"SADD", tkey(SET)}, [&] { return field(); });
      case 19: return many({"SREM", tkey(SET)}, [&] { return field(); });
      case 20: case 21: return {"SMOVE", tkey(SET), tkey(SET), field()};
      case 22: case 23: return many({"DEQUE-PUSH-FRONT", tkey(DEQUE)}, [&] { return value(); });
      case 24: return many({"DEQUE-PUSH-BACK", tkey(DEQUE)}, [&] { return value(); });
      case 25: return {"DEQUE-POP-FRONT", tkey(DEQUE)};
      case 26: return {"DEQUE-POP-BACK", tkey(DEQUE)};
      case 27: return {"DEQUE-TRIM-FRONT", tkey(DEQUE), num()};
      case 28: if(r.chance(40)) return {"DEQUE-CLEAR", tkey(DEQUE)}; return {"DEQUE_PUSH_BACK", tkey(DEQUE), value()};
      case 29: case 30: return {"LHSET", tkey(LHASH), field(), hint(), value()};
      case 31: { Cmd c{"LHMSET", tkey(LHASH)}; for(size_t n = 1 + r.below(3); n > 0; n--) { c.push_back(field()); c.push_back(hint()); c.push_back(value()); } return c; }
      case 32: return many({"LHDEL", tkey(LHASH)}, [&] { return field(); });
      case 33: return {"LHLOCDEL", tkey(LHASH), field(), hint()};
      case 34: return {"LHSET-AND-DEL-FALLBACK", tkey(LHASH), field(), hint(), value(), tkey(HASH)};
      case 35: return {"LHDEL-WITH-FALLBACK", tkey(LHASH), field(), tkey(HASH)};
      case 36: return {"CONVERT-HASH-FIELD-TO-LHASH", tkey(HASH), field(), tkey(LHASH), field(), hint()};
      case 37: case 38: case 39: if(lease) return {"TIMESTAMPED-LEASE-ACQUIRE", tkey(LEASE), r.chance(97) ? r.pick(holders) : "", r.chance(90) ? std::to_string(1 + r.below(120)) : num(), ts()}; return {"SET", key(), value()};
      case 40: if(lease) return {"TIMESTAMPED-LEASE-GET", tkey(LEASE), ts()}; return {"SET", key(), value()};
      case 41: if(lease) return {"TIMESTAMPED-LEASE-RELEASE", tkey(LEASE), ts()}; return {"SET", key(), value()};
      case 42: case 43: if(vh) return {"VHSET", tkey(VHASH), field(), value()}; return {"HSET", key(), field(), value()};
      case 44: if(vh) return many({"VHDEL", tkey(VHASH)}, [&] { return field(); }); return {"HDEL", key(), field()};
      default: if(conf) return {"CONFIG-SET", r.chance(50) ? "c" : key(), value()}; return {"SET", key(), value()};
    }
  }
  Cmd read() {
    Cmd c = readInner();
    if(!goodArgs && r.chance(3)) { if(r.chance(50) && c.size() > 1) c.pop_back(); else c.push_back(value()); }
    return c;
  }
  std::string cursor(std::function<std::string()> f) { return r.chance(70) ? "0" : r.chance(90) ? "next:" + f() : r.pick(std::vector<std::string>{"", "x", "00", "next", "NEXT:a"}); }
  Cmd readInner() {
    switch(r.below(30)) {
      case 0: case 1: return {"GET", tkey(STR)};
      case 2: return {"EXISTS", key(), key()};
      case 3: return {"TYPE", key()};
      case 4: return {"KEYS", pattern()};
      case 5: case 6: { Cmd c{"SCAN", cursor([&] { return key(); })}; if(r.chance(50)) { c.push_back("COUNT"); c.push_back(count()); } if(r.chance(50)) { c.push_back("match"); c.push_back(pattern()); } return c; }
      case 7: return {"HGET", tkey(HASH), field()};
      case 8: return {"HEXISTS", tkey(HASH), field()};
      case 9: return {"HKEYS", tkey(HASH)};
      case 10: return {"HGETALL", tkey(HASH)};
      case 11: return {"HLEN", tkey(HASH)};
      case 12: return {"HVALS", tkey(HASH)};
      case 13: { Cmd c{"HSCAN", tkey(HASH), cursor([&] { return field(); })}; if(r.chance(60)) { c.push_back("Count"); c.push_back(count()); } return c; }
      case 14: return {"SISMEMBER", tkey(SET), field()};
      case 15: return {"SMEMBERS", tkey(SET)};
      case 16: return {"SCARD", tkey(SET)};
      case 17: { Cmd c{"SSCAN", tkey(SET), cursor([&] { return field(); })}; if(r.chance(60)) { c.push_back("COUNT"); c.push_back(count()); } return c; }
      case 18: return {"DEQUE-LEN", tkey(DEQUE)};
      case 19: case 20: return {"LHGET", tkey(LHASH), field(), hint()};
      case 21: return {"LHGET", tkey(LHASH), field()};
      case 22: return {"LHLEN", tkey(LHASH)};
      case 23: { Cmd c{"LHSCAN", tkey(LHASH), "0"}; if(r.chance(60)) { c.push_back("COUNT"); c.push_back(count()); } if(r.chance(60)) { c.push_back("MATCHLOC"); c.push_back(r.chance(50) ? hint() : r.chance(50) ? hint() + "*" : vf::randomPattern(r)); } return c; }
      case 24: return {"LHGET-WITH-FALLBACK", tkey(LHASH), field(), tkey(HASH)};
      case 25: return {"LHGET-WITH-FALLBACK", tkey(LHASH), field(), hint(), tkey(HASH)};
      case 26: return {"VHGETALL", tkey(VHASH)};
      case 27: return {"VHLEN", tkey(VHASH)};
      case 28: return {"CONFIG-GET", r.chance(50) ? "c" : key()};
      default: return {"CONFIG-GETALL"};
    }
  }
  // one read for each key, of its actual type
  static std::vector<Cmd> readAll(const Model &m) {
    std::vector<Cmd> out{{"KEYS", "*"}, {"CONFIG_GETALL"}};
    for(auto &k : m.keys) {
      out.push_back({"TYPE", k.first});
      switch(k.second.type) {
        case STR: out.push_back({"GET", k.first}); break;
        case HASH: out.push_back({"HGETALL", k.first}); out.push_back({"HLEN", k.first}); break;
        case SET: out.push_back({"SMEMBERS", k.first}); out.push_back({"SCARD", k.first}); break;
        case DEQUE: out.push_back({"DEQUE_LEN", k.first}); break;
        case LHASH: out.push_back({"LHLEN", k.first}); out.push_back({"LHSCAN", k.first, "0", "COUNT", "1000"}); break;
        case VHASH: out.push_back({"VHGETALL", k.first}); out.push_back({"VHLEN", k.first}); break;
        case LEASE: break;
      }
    }
    return out;
  }
};

// whether a glob pattern of this command sits in a corner of the language we do not judge
inline bool judged(const Cmd &c) {
  std::string n = Model::lower(c[0]);
  for(size_t i = 1; i < c.size(); i++) {
    bool pat = (n == "keys" && i == 1) || ((Model::lower(c[i-1]) == "match" || Model::lower(c[i-1]) == "matchloc") && (n == "scan" || n == "lhscan"));
    if(pat && !vf::GlobRef(c[i]).defined) return false;
  }
  return true;
}

inline std::string show(const std::vector<Cmd> &h, size_t last = 60) {
  std::string o;
  for(size_t i = h.size() > last ? h.size() - last : 0; i < h.size(); i++) o += "\n    " + vf::show(h[i]);
  return o;
}

}
#endif
