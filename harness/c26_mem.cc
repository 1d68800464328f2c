// C26: allocators and small buffers against shadow contents.
#include "qdb.hh"
#include "memory/RingAllocator.hh"
#include "memory/PinnedBuffer.hh"
#include "utils/SmartBuffer.hh"
#include "utils/StaticBuffer.hh"
#include "RedisRequest.hh"
#include <optional>
using namespace quarkdb;
using vf::ctx; using vf::esc; using vf::Rng;

struct Live { PinnedBuffer buf; std::string shadow; const MemoryRegion *region; };

static void regions(Rng &g) {
  std::vector<std::shared_ptr<MemoryRegion>> regs;
  std::vector<std::weak_ptr<MemoryRegion>> watch;
  std::map<const MemoryRegion*, size_t> used;
  std::list<Live> live, subs; // subs: views into other allocations
  std::string trace;
  for(int step = 0; step < 60; step++) {
    int op = g.below(10);
    if(regs.empty() || op == 0) {
      size_t n = g.chance(20) ? g.below(3) : g.below(300);
      auto r = MemoryRegion::Construct(n);
      VF_CHECK(r->size() == n && r->bytesConsumed() == 0 && r->bytesFree() == n, "mem:region-fresh", "region of " << n << " reports " << r->size() << "/" << r->bytesConsumed() << "/" << r->bytesFree());
      regs.push_back(r); watch.push_back(r); used[r.get()] = 0;
    }
    else if(op <= 4) {
      auto &r = regs[g.below(regs.size())];
      size_t n = g.chance(30) ? r->bytesFree() + g.range(0, 2) - (r->bytesFree() ? 1 : 0) : g.below(60);
      size_t before = used[r.get()];
      size_t cap = r->size(), cons0 = r->bytesConsumed();
      if(g.chance(10)) n = SIZE_MAX - g.below(cap + 2);
      auto b = r->allocate(n);
      bool want = n <= cap - before;
      trace += "a" + std::to_string(n) + (b ? "+" : "-");
      VF_CHECK(want == (bool) b, "mem:alloc-outcome", "allocate(" << n << ") with " << before << " (" << cons0 << ") of " << cap << " used: " << (bool) b);
      if(!b || !want) { VF_CHECK(r->bytesConsumed() == before, "mem:failed-alloc-consumes", "a refused allocation changed the consumption"); continue; }
      used[r.get()] = before + n;
      VF_CHECK(r->bytesConsumed() == before + n && r->bytesFree() == cap - before - n, "mem:accounting", "consumed " << r->bytesConsumed() << " expected " << before + n);
      VF_CHECK(b->size() == n, "mem:alloc-size", "allocated " << b->size() << " instead of " << n);
      VF_CHECK(b->size() == 0 || (b->data() >= r->data() && b->data() + n <= r->data() + cap), "mem:alloc-outside", "allocation outside its region");
      for(auto &l : live) {
        if(l.region != r.get() || !n || l.shadow.empty()) continue;
        VF_CHECK(b->data() + n <= l.buf.data() || l.buf.data() + l.shadow.size() <= b->data(), "mem:overlap", "two live allocations overlap; trace " << trace);
      }
      std::string s = g.bytes(n); s.resize(n, 'x');
      if(n == b->size()) for(size_t i = 0; i < n; i++) (*b)[i] = s[i];
      live.push_back({std::move(*b), s, r.get()});
      ctx().count("mem.allocations");
    }
    else if(op == 5 && !live.empty()) {
      auto it = live.begin(); std::advance(it, g.below(live.size()));
      live.erase(it);
      trace += "f";
    }
    else if(op == 6) {
      // drop a region handle: memory must survive while buffers use it
      size_t i = g.below(regs.size());
      const MemoryRegion *p = regs[i].get();
      size_t users = 0;
      for(auto &l : live) users += (l.region == p);
      for(auto &l : subs) users += (l.region == p);
      VF_CHECK((size_t) regs[i]->refcount() == users + 1, "mem:refcount", "refcount " << regs[i]->refcount() << " with " << users << " buffers and one handle");
      regs.erase(regs.begin() + i);
      trace += "d";
      ctx().count("mem.handles-dropped");
    }
    else if(op == 7 && !live.empty()) {
      // moves, copies, substrings, suffix removal
      auto it = live.begin(); std::advance(it, g.below(live.size()));
      int k = g.below(4);
      if(k == 0) { PinnedBuffer t(std::move(it->buf)); it->buf = std::move(t); }
      else if(k == 1) { PinnedBuffer t(it->buf); VF_CHECK(t == it->buf && t == std::string_view(it->shadow), "mem:copy", "copy differs"); }
      else if(k == 2) {
        size_t a = g.below(it->shadow.size() + 1), n = g.below(it->shadow.size() - a + 1);
        PinnedBuffer t = it->buf.substr(a, n);
        VF_CHECK(t == std::string_view(it->shadow).substr(a, n) && t.size() == n, "mem:substr", "substr(" << a << "," << n << ") of '" << esc(it->shadow) << "' gave '" << esc(t.sv()) << "'");
        if(g.chance(40)) subs.push_back({t, it->shadow.substr(a, n), it->region});
      }
      else {
        size_t n = g.below(it->shadow.size() + 1);
        it->buf.remove_suffix(n);
        it->shadow.resize(it->shadow.size() - n);
      }
      trace += "m";
    }
    else if(op == 8) {
      std::string s = g.bytes(40);
      PinnedBuffer b = g.chance(50) ? PinnedBuffer(std::string_view(s)) : PinnedBuffer(s.size());
      if(b.size() == s.size()) for(size_t i = 0; i < s.size(); i++) b[i] = s[i];
      VF_CHECK(b.usingInternalBuffer() && b.size() == s.size() && b.empty() == s.empty(), "mem:internal", "internal buffer of '" << esc(s) << "'");
      live.push_back({std::move(b), s, nullptr});
    }
    else if(op == 9) {
      // reuse of a region nobody refers to, as the buffered reader does
      size_t i = g.below(regs.size());
      bool busy = false;
      for(auto &l : live) busy |= (l.region == regs[i].get());
      for(auto &l : subs) busy |= (l.region == regs[i].get());
      if(!busy && regs[i]->refcount() == 1) { regs[i]->resetAllocations(); used[regs[i].get()] = 0; VF_CHECK(regs[i]->bytesConsumed() == 0, "mem:reset", "reset left consumption"); trace += "r"; }
    }
    if(subs.size() > 6) subs.pop_front();
    for(auto *lst : {&live, &subs}) for(auto &l : *lst) {
      std::string_view v = l.buf;
      if(v != l.shadow) { VF_FAIL("mem:contents", "a live buffer holds '" << esc(v) << "' instead of '" << esc(l.shadow) << "'; trace " << trace); return; }
      VF_CHECK(l.buf.size() == l.shadow.size() && l.buf.empty() == l.shadow.empty(), "mem:buffer-size", "size");
    }
    ctx().eval(trace);
  }
  // released once the last user is gone, not before
  regs.clear();
  for(auto &w : watch) {
    bool busy = false;
    auto p = w.lock();
    if(p) { for(auto *lst : {&live, &subs}) for(auto &l : *lst) busy |= (l.region == p.get()); VF_CHECK(busy, "mem:leak", "a region outlived its last user"); }
  }
  live.clear(); subs.clear();
  for(auto &w : watch) VF_CHECK(w.expired(), "mem:leak", "a region outlived its last user");
}

template<int N>
static void smart(Rng &g) {
  for(int rep = 0; rep < 3; rep++) {
    bool ctor = g.chance(50);
    size_t first = g.below(3 * N + 3);
    SmartBuffer<N> b0; SmartBuffer<N> b1(first);
    SmartBuffer<N> &b = ctor ? b1 : b0;
    if(!ctor) VF_CHECK(b.size() == N, "mem:smart-size", "fresh SmartBuffer<" << N << "> has size " << b.size());
    else VF_CHECK(b.size() == first, "mem:smart-size", "SmartBuffer<" << N << ">(" << first << ") has size " << b.size());
    std::string shadow(b.size(), 0);
    auto fill = [&](size_t from) { for(size_t i = from; i < b.size(); i++) b[i] = shadow[i] = (char) g.next(); };
    fill(0);
    std::string trace = std::to_string(N) + (ctor ? "c" + std::to_string(first) : std::string());
    for(int i = 0; i < 12; i++) {
      size_t cur = b.size();
      int op = g.below(3);
      if(op == 0) {
        size_t n = g.below(cur + 1);
        trace += "s" + std::to_string(n);
        ctx().current("SmartBuffer " + trace);
        b.shrink(n); shadow.resize(n);
      }
      else if(op == 1) {
        size_t n = cur + (g.chance(60) ? g.below(N + 2) : g.below(4 * N + 5));
        trace += "e" + std::to_string(n);
        ctx().current("SmartBuffer " + trace);
        b.expand(n); shadow.resize(n, 0);
        VF_CHECK(b.size() == n && memcmp(b.data(), shadow.data(), cur) == 0, "mem:smart-expand", "expand from " << cur << " to " << n << " lost contents; " << trace);
        fill(cur);
      }
      else {
        size_t n = g.below(4 * N + 5);
        trace += "r" + std::to_string(n);
        ctx().current("SmartBuffer " + trace);
        b.resize(n); shadow.assign(n, 0);
        VF_CHECK(b.size() == n, "mem:smart-size", "resize(" << n << ") gave " << b.size());
        fill(0);
      }
      if(b.size() != shadow.size() || b.toString() != shadow || b.toView() != shadow) { VF_FAIL("mem:smart-contents", "SmartBuffer contents differ after " << trace); return; }
      ctx().eval(trace);
    }
  }
  StaticBuffer<N> sb;
  VF_CHECK(sb.size() == N, "mem:static-size", "size");
  std::string sh(N, 0);
  for(int i = 0; i < N; i++) sb[i] = sh[i] = (char) g.next();
  size_t n = g.below(N + 1);
  sb.shrink(n);
  VF_CHECK(sb.size() == n && sb.toView() == std::string_view(sh).substr(0, n) && sb.data() == sb.toView().data(), "mem:static", "StaticBuffer after shrink");
}

static void requests(Rng &g) {
  auto region = MemoryRegion::Construct(512);
  std::vector<std::string> shadow;
  RedisRequest r;
  std::string trace;
  for(int i = 0; i < 25; i++) {
    switch(g.below(9)) {
      case 0: { std::string s = g.bytes(40); r.push_back(s); shadow.push_back(s); trace += "p"; break; }
      case 1: { std::string s = g.bytes(40), t = s; r.emplace_back(std::move(t)); shadow.push_back(s); trace += "e"; break; }
      case 2: { std::string s = g.bytes(40); r.emplace_back(s.data(), s.size()); shadow.push_back(s); trace += "b"; break; }
      case 3: { RedisRequest c(r); VF_CHECK(c == r && !(c != r) && c.getCommand() == r.getCommand(), "mem:request-copy", "copy differs"); if(g.chance(50)) r = c; trace += "c"; break; }
      case 4: { RedisRequest c(std::move(r)); r = std::move(c); trace += "m"; break; }
      case 5: if(g.chance(20)) { r.clear(); shadow.clear(); VF_CHECK(r.getCommand() == RedisCommand::INVALID && r.getCommandType() == CommandType::INVALID, "mem:request-clear", "a cleared request has a command"); trace += "C"; } break;
      case 6: { size_t n = g.below(6); r.resize(n); shadow.resize(n); trace += "r"; break; }
      case 7: if(!shadow.empty()) {
        size_t k = g.below(shadow.size());
        std::string s = g.bytes(30);
        auto b = region->allocate(s.size());
        if(b) { if(s.size()) memcpy(b->data(), s.data(), s.size()); r.getPinnedBuffer(k) = std::move(*b); shadow[k] = s; }
        trace += "P";
        break;
      }
      case 8: { r.reserve(g.below(30)); break; }
    }
    VF_CHECK(r.size() == shadow.size(), "mem:request-size", "request of " << r.size() << " parts, expected " << shadow.size());
    if(r.size() != shadow.size()) return;
    size_t k = 0;
    for(auto it = r.begin(); it != r.end(); ++it, ++k) VF_CHECK(k < shadow.size() && std::string_view(*it) == shadow[k] && r[k] == shadow[k], "mem:request-contents", "part " << k << " differs after " << trace);
    // a second request, equal iff the parts are equal
    RedisRequest o;
    std::vector<std::string> other = shadow;
    if(g.chance(50) && !other.empty()) { auto &x = other[g.below(other.size())]; if(g.chance(50)) x += 'z'; else if(!x.empty()) x[g.below(x.size())] ^= 1; }
    for(auto &x : other) o.push_back(x);
    VF_CHECK((o == r) == (other == shadow) && (o != r) == (other != shadow), "mem:request-equality", "equality of requests");
    ctx().eval(trace);
  }
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  vf::quiet();
  Rng g(ctx().seed);
  int n = ctx().n(600, 20);
  for(int i = 0; i < n; i++) {
    regions(g);
    smart<1>(g); smart<2>(g); smart<16>(g); smart<64>(g); smart<512>(g);
    requests(g);
  }
  return ctx().finish();
}
