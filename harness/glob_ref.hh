// Reference glob matcher, written from the pattern language: '*', '?', '[set]', '[^set]',
// ranges, '\x'. Dynamic programming over tokens.
#ifndef VF_GLOB_REF_HH
#define VF_GLOB_REF_HH
#include <string>
#include <string_view>
#include <vector>
#include <set>
namespace vf {
struct GlobRef {
  struct Tok { int kind; bool neg = false; bool set[256] = {}; }; // 0 star, 1 any, 2 class
  std::vector<Tok> toks;
  bool defined = true;     // false: corner of the language we take no position on
  explicit GlobRef(std::string_view p) {
    size_t i = 0;
    while(i < p.size()) {
      unsigned char c = p[i];
      Tok t;
      if(c == '*') { t.kind = 0; i++; }
      else if(c == '?') { t.kind = 1; i++; }
      else if(c == '[') {
        t.kind = 2; i++;
        if(i < p.size() && p[i] == '^') { t.neg = true; i++; }
        bool closed = false;
        while(i < p.size()) {
          unsigned char d = p[i];
          if(d == ']') { closed = true; i++; break; }
          if(d == '\\' && i + 1 < p.size()) { t.set[(unsigned char) p[i+1]] = true; i += 2; continue; }
          if(d == '\\') defined = false;
          if(i + 2 < p.size() && p[i+1] == '-') {
            unsigned char e = p[i+2];
            if(e == ']' || e == '\\' || d >= 128 || e >= 128) defined = false;
            int a = std::min(d, e), b = std::max(d, e);
            for(int k = a; k <= b; k++) t.set[k] = true;
            i += 3;
            continue;
          }
          t.set[d] = true;
          i++;
        }
        if(!closed) defined = false;
      }
      else {
        t.kind = 2;
        if(c == '\\' && i + 1 < p.size()) { i++; c = p[i]; }
        else if(c == '\\') defined = false;
        t.set[c] = true; i++;
      }
      toks.push_back(t);
    }
  }
  bool match(std::string_view s) const {
    std::vector<char> cur(s.size() + 1, 0), nxt;
    cur[0] = 1;
    for(auto &t : toks) {
      nxt.assign(s.size() + 1, 0);
      if(t.kind == 0) {
        bool on = false;
        for(size_t j = 0; j <= s.size(); j++) { on = on || cur[j]; nxt[j] = on; }
      }
      else for(size_t j = 0; j < s.size(); j++) if(cur[j]) {
        bool ok = t.kind == 1 || (t.set[(unsigned char) s[j]] != t.neg);
        if(ok) nxt[j+1] = 1;
      }
      cur.swap(nxt);
    }
    return cur[s.size()];
  }
};
// random pattern and a subject likely to match it
template<typename R>
inline std::string randomPattern(R &g, size_t maxToks = 6) {
  std::string p;
  size_t n = g.below(maxToks + 1);
  static const char *alpha = "abcab\x01-";
  for(size_t i = 0; i < n; i++) switch(g.below(9)) {
    case 0: case 1: p += '*'; break;
    case 2: p += '?'; break;
    case 3: {
      p += '['; if(g.chance(30)) p += '^';
      for(int k = g.below(3) + 1; k > 0; k--) {
        if(g.chance(30)) { p += (char) ('a' + g.below(3)); p += '-'; p += (char) ('a' + g.below(3)); }
        else if(g.chance(15)) { p += '\\'; p += "*]a\\"[g.below(4)]; }
        else p += alpha[g.below(6)];
      }
      if(!g.chance(6)) p += ']';
      break;
    }
    case 4: p += '\\'; if(!g.chance(10)) p += "*?[\\a"[g.below(5)]; break;
    default: p += alpha[g.below(7)];
  }
  return p;
}
template<typename R>
inline std::string randomSubject(R &g, const std::string &pat) {
  std::string s;
  if(g.chance(15)) return s;
  if(g.chance(40)) { size_t n = g.below(8); static const char *alpha = "abc*?[]\\\x01-"; for(size_t i = 0; i < n; i++) s += alpha[g.below(10)]; return s; }
  for(size_t i = 0; i < pat.size(); i++) {
    if(pat[i] == '*') { for(int k = g.below(3); k > 0; k--) s += (char) ('a' + g.below(3)); }
    else if(pat[i] == '?') s += (char) ('a' + g.below(3));
    else if(pat[i] == '[') { size_t e = pat.find(']', i); if(e == std::string::npos) break; s += (char) ('a' + g.below(3)); i = e; }
    else if(pat[i] == '\\' && i + 1 < pat.size()) s += pat[++i];
    else s += pat[i];
  }
  if(g.chance(10) && !s.empty()) s.pop_back();
  if(g.chance(10)) s += 'a';
  return s;
}
}
#endif
