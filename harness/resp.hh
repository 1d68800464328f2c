// Strict RESP decoder, independent of QuarkDB and of the shim.
#ifndef VF_RESP_HH
#define VF_RESP_HH
#include "vf.hh"
namespace resp {
struct Val {
  char type = 0;            // + - : $ * >
  std::string s;            // text, or digits
  int64_t i = 0;
  bool nil = false;
  std::vector<Val> kids;
  bool operator==(const Val &o) const { return type == o.type && s == o.s && i == o.i && nil == o.nil && kids == o.kids; }
};
// -1: malformed; 0: incomplete; 1: one value decoded, pos advanced
inline int decode(std::string_view d, size_t &pos, Val &out, int depth = 0) {
  if(depth > 8) return -1;
  if(pos >= d.size()) return 0;
  size_t p = pos;
  char t = d[p++];
  if(t == 0 || !strchr("+-:$*>", t)) return -1;
  size_t e = p;
  while(e < d.size() && d[e] != '\r' && d[e] != '\n') e++;
  if(e >= d.size()) return 0;
  if(d[e] != '\r') return -1;
  if(e + 1 >= d.size()) return 0;
  if(d[e+1] != '\n') return -1;
  std::string line(d.substr(p, e - p));
  p = e + 2;
  out = Val();
  out.type = t;
  if(t == '+' || t == '-') { out.s = line; pos = p; return 1; }
  // number
  size_t k = 0;
  bool neg = false;
  if(k < line.size() && line[k] == '-') { neg = true; k++; }
  if(k == line.size() || line.size() - k > 19) return -1;
  if(line.size() - k > 1 && line[k] == '0') return -1;
  unsigned __int128 v = 0;
  for(; k < line.size(); k++) { if(line[k] < '0' || line[k] > '9') return -1; v = v * 10 + (line[k] - '0'); }
  if(v > ((unsigned __int128) 1 << 63) - (neg ? 0 : 1)) return -1;
  int64_t n = neg ? (int64_t) (0 - (uint64_t) v) : (int64_t) v;
  if(t == ':') { out.i = n; out.s = line; pos = p; return 1; }
  if(t == '$') {
    if(n == -1) { out.nil = true; pos = p; return 1; }
    if(n < 0) return -1;
    if(d.size() - p < (size_t) n + 2) return 0;
    if(d[p + n] != '\r' || d[p + n + 1] != '\n') return -1;
    out.s = std::string(d.substr(p, n));
    pos = p + n + 2;
    return 1;
  }
  if(n == -1) { out.nil = true; pos = p; return 1; }
  if(n < 0 || n > 100000000) return -1;
  for(int64_t j = 0; j < n; j++) {
    Val c;
    int rc = decode(d, p, c, depth + 1);
    if(rc != 1) return rc;
    out.kids.push_back(std::move(c));
  }
  pos = p;
  return 1;
}
// exactly one value and nothing else?
inline bool one(std::string_view d, Val &v) { size_t p = 0; return decode(d, p, v) == 1 && p == d.size(); }
// a whole stream of values
inline bool many(std::string_view d, std::vector<Val> &v) {
  size_t p = 0;
  while(p < d.size()) { Val x; if(decode(d, p, x) != 1) return false; v.push_back(std::move(x)); }
  return true;
}
// back onto the wire
inline std::string encode(const Val &v) {
  switch(v.type) {
    case '+': case '-': return v.type + v.s + "\r\n";
    case ':': return ":" + v.s + "\r\n";
    case '$': return v.nil ? "$-1\r\n" : "$" + std::to_string(v.s.size()) + "\r\n" + v.s + "\r\n";
  }
  if(v.nil) return "*-1\r\n";
  std::string o = v.type + std::to_string(v.kids.size()) + "\r\n";
  for(auto &k : v.kids) o += encode(k);
  return o;
}
inline std::string show(const Val &v) {
  switch(v.type) {
    case '+': return "+" + vf::esc(v.s, 200);
    case '-': return "-" + vf::esc(v.s, 200);
    case ':': return ":" + v.s;
    case '$': return v.nil ? std::string("nil") : "'" + vf::esc(v.s, 100) + "'";
  }
  if(v.nil) return "nil-array";
  std::string o = v.type == '>' ? ">[" : "[";
  for(size_t i = 0; i < v.kids.size(); i++) o += (i ? ", " : "") + show(v.kids[i]);
  return o + "]";
}
inline Val str(const std::string &s) { Val v; v.type = '$'; v.s = s; return v; }
inline Val nil() { Val v; v.type = '$'; v.nil = true; return v; }
inline Val num(int64_t n) { Val v; v.type = ':'; v.i = n; v.s = std::to_string(n); return v; }
inline Val status(const std::string &s) { Val v; v.type = '+'; v.s = s; return v; }
inline Val err(const std::string &s) { Val v; v.type = '-'; v.s = s; return v; }
inline Val arr(std::vector<Val> k = {}) { Val v; v.type = '*'; v.kids = std::move(k); return v; }
inline Val strs(const std::vector<std::string> &k) { Val v; v.type = '*'; for(auto &s : k) v.kids.push_back(str(s)); return v; }
}
#endif
