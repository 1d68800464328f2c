// C28: what a node of a cluster reports about the quorum and its replicas, against what peers played by the
// harness are doing: answering, gone, silent, or far behind.
#include "raft.hh"
#include "raft/RaftReplicator.hh"
#include "health/HealthIndicator.hh"
using namespace vf;
using namespace quarkdb;

static const char *names[] = {"GREEN", "YELLOW", "RED"};
static int rank(HealthStatus h) { return h == HealthStatus::kGreen ? 0 : h == HealthStatus::kYellow ? 1 : 2; }
static std::string text(const std::vector<HealthIndicator> &v) { std::string o; for(auto &x : v) if(x.getDescription() == "PART-OF-QUORUM" || x.getDescription() == "QUORUM-STABILITY" || x.getDescription() == "REPLICA") o += SSTR(" [" << names[rank(x.getStatus())] << " " << x.getDescription() << " " << x.getMessage() << "]"); return o; }
static std::vector<HealthIndicator> of(const std::vector<HealthIndicator> &v, const std::string &d) { std::vector<HealthIndicator> o; for(auto &x : v) if(x.getDescription() == d) o.push_back(x); return o; }

static void cluster(Rng &g, int number) {
  int n = 2 + g.below(4);
  std::vector<std::unique_ptr<FakePeer>> peers;
  RaftServer me("me", 1);
  std::vector<RaftServer> nodes {me};
  for(int i = 0; i < n - 1; i++) { peers.emplace_back(new FakePeer()); nodes.push_back(peers.back()->srv()); }
  RaftNode node(freshDir("vf-c28") + "/n", nodes, me, RaftTimeouts(std::chrono::milliseconds(1500), std::chrono::milliseconds(2000), std::chrono::milliseconds(100)));
  node.d();
  { auto e = node.serialized(); for(auto &p : peers) { std::scoped_lock l(p->mtx); p->log = e; } }
  auto health = [&] { return node.d().getHealth().getIndicators(); };
  std::string what = SSTR("cluster of " << n);
  auto alone = [&](const char *when, const char *expect, int color) {
    auto v = health();
    auto q = of(v, "PART-OF-QUORUM");
    VF_CHECK(q.size() == 1 && rank(q[0].getStatus()) == color && q[0].getMessage().find(expect) == 0, "health:quorum", when << ", " << what << ", reports" << text(v));
    VF_CHECK(of(v, "QUORUM-STABILITY").empty() && of(v, "REPLICA").empty(), "health:not-leader", when << ", " << what << ", reports on replicas:" << text(v));
    ctx().eval(SSTR(when << n));
  };
  alone("before any election", "No", 2);
  node.st().observed(3, nodes[1]);
  alone("following", ("Yes | LEADER " + nodes[1].toString()).c_str(), 0);
  node.st().observed(5, {});
  alone("after a newer term", "No", 2);
  if(!node.ascend()) { VF_FAIL("health:ascend", "could not become leader"); return; }
  node.activate();
  int quorum = n / 2 + 1, rounds = ctx().thorough ? 8 : 3;
  for(int r = 0; r < rounds && !ctx().failed(); r++) {
    std::vector<int> state;                    // 0 answers, 1 gone, 2 silent
    int up = 1;
    std::string s;
    for(auto &p : peers) {
      int k = r == 0 ? 0 : g.chance(50) ? 0 : 1 + g.below(2);
      state.push_back(k);
      up += k == 0;
      s += std::to_string(k);
      p->online = k != 1;
      p->holdAppends = p->holdHeartbeats = k == 2;
    }
    ctx().current(what + " " + s);
    std::string why;
    bool good = up > quorum || up == n;       // with two nodes there is nothing to spare
    bool ok = eventually([&] {
      why.clear();
      auto v = health();
      auto q = of(v, "PART-OF-QUORUM"), st = of(v, "QUORUM-STABILITY"), rep = of(v, "REPLICA");
      if(q.size() != 1 || rank(q[0].getStatus()) != 0) why = "not part of the quorum";
      else if(st.size() != 1) why = "nothing about its stability";
      else if((rank(st[0].getStatus()) == 0) != good || st[0].getMessage() != (good ? "Good" : "Shaky") || rank(st[0].getStatus()) > 1) why = SSTR("wrong stability with " << up << " of " << n << " up");
      else if(rep.size() != peers.size()) why = SSTR(rep.size() << " replicas");
      else {
        for(size_t i = 0; i < peers.size(); i++) {
          int found = 0;
          for(auto &x : rep) {
            if(x.getMessage().find(peers[i]->name() + " ") != 0) continue;
            found++;
            bool on = x.getMessage().find("| ONLINE") != std::string::npos, off = x.getMessage().find("| OFFLINE") != std::string::npos;
            if(on == off || on != (state[i] == 0)) why = SSTR("peer " << i << " in the wrong state: " << x.getMessage());
            if(rank(x.getStatus()) != (on && x.getMessage().find("UP-TO-DATE") != std::string::npos ? 0 : 1)) why = SSTR("wrong colour: " << x.getMessage());
            if(on && state[i] == 0 && x.getMessage().find("UP-TO-DATE") == std::string::npos) why = "not up to date";
          }
          if(found != 1) why = SSTR(found << " lines for peer " << i);
        }
      }
      why += SSTR(";" << text(v));
      HealthStatus worst = HealthStatus::kGreen;
      for(auto &x : v) if(rank(x.getStatus()) > rank(worst)) worst = x.getStatus();
      VF_CHECK(chooseWorstHealth(v) == worst, "health:worst", "the worst of" << text(v) << " is not " << names[rank(worst)]);
      return why[0] == ';';
    }, 30000);
    if(!ok) VF_FAIL("health:leader", what << ", peers (0 answers, 1 gone, 2 silent) " << s << ": the report does not settle: " << why);
    else ctx().sample(what + ", peers " + s + ":" + why, 6);
    ctx().count("reports of leaders");
    ctx().eval(SSTR(n << ":" << s));
  }
  for(auto &p : peers) { p->online = true; p->holdAppends = p->holdHeartbeats = false; }
  node.g->replicator()->deactivate();
  node.st().observed(node.st().getSnapshot()->term + 1, {});
  if(!ctx().failed()) alone("after a leadership", "No", 2);
  (void) number;
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  Rng g(ctx().seed);
  int n = ctx().thorough ? 40 : 8;
  for(int i = 0; i < n && !ctx().failed(); i++) cluster(g, i);
  return ctx().finish();
}
