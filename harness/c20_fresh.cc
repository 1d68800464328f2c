// C20: the first moments of a new leader. Its log holds entries of earlier leaders which were acknowledged to
// clients, but it does not know yet that they are committed. Nobody may read around them.
#include "node.hh"
#include "raft.hh"
using namespace vf;
using namespace quarkdb;

static void fresh(Rng &g, int number) {
  int n = g.chance(60) ? 3 : 5;
  std::vector<std::unique_ptr<FakePeer>> peers;
  RaftServer me("me", 1);
  std::vector<RaftServer> nodes {me};
  for(int i = 0; i < n - 1; i++) { peers.emplace_back(new FakePeer()); nodes.push_back(peers.back()->srv()); }
  RaftNode node(freshDir("vf-fresh") + "/n", nodes, me, RaftTimeouts(std::chrono::milliseconds(20000), std::chrono::milliseconds(30000), std::chrono::milliseconds(30)));
  node.d();
  int count = 1 + g.below(12), known = g.below(count), counter = 0;
  std::string value = "none", field = "none", lfield = "none";
  std::vector<std::string> list;
  node.st().observed(3, nodes[1]);
  LogIndex first = node.j().getLogSize();
  for(int i = 0; i < count; i++) {
    std::vector<std::string> cmd;
    switch(i == count - 1 ? 0 : g.below(5)) {
      case 0: value = SSTR("v" << number << "." << i); cmd = {"SET", "x", value}; break;
      case 1: field = SSTR("f" << i); cmd = {"HSET", "h", "f", field}; break;
      case 2: counter++; cmd = {"HINCRBY", "n", "c", "1"}; break;
      case 3: list.push_back(SSTR("l" << i)); cmd = {"DEQUE_PUSH_BACK", "d", list.back()}; break;
      default: lfield = SSTR("m" << i); cmd = {"LHSET", "lh", "f", "hint", lfield}; break;
    }
    RedisRequest r;
    for(auto &s : cmd) r.push_back(s);
    if(!node.j().append(first + i, RaftEntry(3, r))) { VF_FAIL("fresh:setup", "append"); return; }
  }
  if(known) node.j().setCommitIndex(first + known - 1);
  if(g.chance(50)) eventually([&] { return node.sm().getLastApplied() >= node.j().getCommitIndex(); }, 10000);
  // a quorum has got them, or they would not have been acknowledged; the others may lack some
  auto log = node.serialized();
  for(size_t i = 0; i < peers.size(); i++) {
    std::scoped_lock l(peers[i]->mtx);
    peers[i]->log = log;
    if(i >= peers.size() / 2 && g.chance(50)) peers[i]->log.resize(first + g.below(count));
    peers[i]->holdAppends = true;
  }
  if(!node.ascend()) { VF_FAIL("fresh:ascend", "could not become leader"); return; }
  node.activate();
  LogIndex marker = node.j().getLogSize() - 1;
  std::string what = SSTR("log of " << count << " acknowledged entries, " << known << " known to be committed, " << n << " nodes");
  ctx().current(what);
  std::atomic<bool> stop {false};
  std::atomic<int> early {0}, late {0};
  std::vector<std::thread> th;
  auto reader = [&](int kind, uint64_t seed) {
    Rng r(seed);
    Client c(&node.d());
    while(!stop && !ctx().failed()) {
      std::vector<std::vector<std::string>> cmds;
      switch(kind) {
        case 0: cmds = {{"GET", "x"}}; break;
        case 1: cmds = {{"MULTI"}, {"GET", "x"}, {"HGET", "n", "c"}, {"EXEC"}}; break;
        case 2: cmds = {{"MULTI"}, {"SET", "y", "w"}, {"GET", "x"}, {"EXEC"}}; break;
        default: cmds = {{"EXISTS", "x"}, {"GET", "x"}}; break;
      }
      std::string o;
      for(auto &x : cmds) o += rbulk(x);
      c.wire.arrive(o);
      bool before = node.j().getCommitIndex() < marker;
      c.step();
      auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
      while(c.got.size() < cmds.size() && !c.dead && std::chrono::steady_clock::now() < end) { usleep(200); c.collect(); }
      if(c.got.size() < cmds.size()) { VF_FAIL("fresh:replies", "no reply, " << what); return; }
      std::string last = resp::show(c.got.back());
      c.got.clear();
      if(last.find("unavailable") != std::string::npos || last.find("MOVED") != std::string::npos) continue;
      if(last.find(value) == std::string::npos) { VF_FAIL("fresh:stale", "a new leader replies " << last << " to a read of x, whose acknowledged value is " << value << ", " << what); return; }
      (before ? early : late)++;
      if(!before) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
  };
  for(int i = 0; i < 4; i++) th.emplace_back(reader, i, g.next());
  std::this_thread::sleep_for(std::chrono::milliseconds(20 + g.below(200)));
  if(node.j().getCommitIndex() >= marker) VF_FAIL("fresh:commit", "committed by itself, " << what);
  size_t order = g.below(peers.size());
  for(size_t i = 0; i < peers.size(); i++) { peers[(order + i) % peers.size()]->holdAppends = false; if(g.chance(50)) std::this_thread::sleep_for(std::chrono::milliseconds(g.below(60))); }
  if(!eventually([&] { return node.j().getCommitIndex() >= marker && late >= 4; }, 60000) && !ctx().failed()) VF_FAIL("fresh:stuck", "the new leader does not begin to serve although all peers answer, commit index " << node.j().getCommitIndex() << ", marker " << marker << ", " << what);
  stop = true;
  for(auto &t : th) t.join();
  if(ctx().failed()) return;
  // everything acknowledged is there, once
  Client c(&node.d());
  auto ask = [&](const std::vector<std::string> &q) { c.wire.arrive(rbulk(q)); c.step(); eventually([&] { c.collect(); return !c.got.empty(); }, 20000); std::string o = c.got.empty() ? "nothing" : resp::show(c.got.front()); c.got.clear(); return o; };
  auto expect = [&](const std::vector<std::string> &q, const std::string &v) { std::string o = ask(q); if(v == "none" ? o.find("nil") == std::string::npos : o.find(v) == std::string::npos) VF_FAIL("fresh:lost", q[0] << " replies " << o << " instead of " << v << ", " << what); };
  expect({"GET", "x"}, value);
  expect({"HGET", "h", "f"}, field);
  expect({"LHGET", "lh", "f"}, lfield);
  if(counter) expect({"HGET", "n", "c"}, std::to_string(counter));
  expect({"DEQUE_LEN", "d"}, std::to_string(list.size()));
  for(auto &v : list) expect({"DEQUE_POP_FRONT", "d"}, v);
  ctx().count("leaders");
  ctx().count("reads asked before the past was committed", early);
  ctx().count("reads after", late);
  ctx().eval(SSTR(count << ":" << known << ":" << n));
  node.g->replicator()->deactivate();
  node.st().observed(node.st().getSnapshot()->term + 1, {});
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Rng g(ctx().seed);
  int n = ctx().n(25, 150);
  for(int i = 0; i < n && !ctx().failed(); i++) fresh(g, i);
  return ctx().finish();
}
