// Journals and state machines of many shapes, and what their owners read from them.
#ifndef VF_JDIRS_HH
#define VF_JDIRS_HH
#include "sm_model.hh"
#include "raft/RaftMembers.hh"
#include "raft/RaftJournal.hh"
#include "recovery/RecoveryEditor.hh"
#include "recovery/RecoveryDispatcher.hh"
#include "recovery/RecoveryRunner.hh"
#include "Commands.hh"
#include "peer.hh"
#include <arpa/inet.h>
#include <netinet/in.h>

namespace jd {
using namespace vf;
using namespace quarkdb;

inline std::string members(Rng &g) {
  std::string o;
  size_t n = 1 + g.below(4);
  for(size_t i = 0; i < n; i++) o += (i ? ",host" : "host") + std::to_string(i) + ".example.com:" + std::to_string(1 + g.below(65535));
  o += "|";
  n = g.below(3);
  for(size_t i = 0; i < n; i++) o += (i ? ",obs" : "obs") + std::to_string(i) + ":" + std::to_string(1 + g.below(65535));
  return o;
}

// what a journal reads as
struct Jn {
  std::string cluster, members, vote;
  int64_t term = 0, start = 0, size = 0, commit = 0, epoch = 0;
  int policy = 0;
  bool pending = false;
  std::map<int64_t, std::string> entries;
  Jn() {}
  explicit Jn(const std::string &path) {
    RaftJournal j(path);
    cluster = j.getClusterID();
    RaftMembership m = j.getMembership();
    members = RaftMembers(m.nodes, m.observers).toString();
    epoch = m.epoch;
    vote = j.getVotedFor().toString();
    term = j.getCurrentTerm(); start = j.getLogStart(); size = j.getLogSize(); commit = j.getCommitIndex();
    policy = (int) j.getFsyncPolicy();
    pending = epoch > commit;
    for(int64_t i = start; i < size; i++) { RaftSerializedEntry e; if(j.fetch(i, e).ok()) entries[i] = e; }
  }
  std::string diff(const Jn &o) const {
    if(cluster != o.cluster) return "identity " + cluster + " -> " + o.cluster;
    if(members != o.members || epoch != o.epoch) return "members " + members + " -> " + o.members;
    if(vote != o.vote || term != o.term) return "term or vote";
    if(start != o.start || size != o.size || commit != o.commit) return "bounds";
    if(policy != o.policy) return "fsync policy";
    if(entries != o.entries) return "entries";
    return "";
  }
};

inline void makeJournal(Rng &g, const std::string &path) {
  std::vector<RaftServer> ns;
  for(size_t i = 0, n = 1 + g.below(4); i < n; i++) ns.emplace_back("node" + std::to_string(i), 1000 + i);
  RaftJournal j(path, "cluster-" + std::to_string(g.below(100)), ns, g.chance(70) ? 0 : g.below(1000), g.pick(std::vector<FsyncPolicy>{FsyncPolicy::kAsync, FsyncPolicy::kAlways, FsyncPolicy::kSyncImportantUpdates}));
  int64_t term = 0, obs = 0;
  for(int k = g.below(60); k > 0; k--) {
    int r = g.below(12);
    std::string err;
    if(r < 7) { if(term) { RaftEntry e(term, "SET", g.bytes(10), g.bytes(30)); j.append(j.getLogSize(), e); } }
    else if(r < 8) { term = j.getCurrentTerm() + 1 + g.below(3); j.setCurrentTerm(term, g.chance(50) ? g.pick(ns) : RaftServer()); }
    else if(r < 9) { if(term) j.addObserver(term, RaftServer("obs" + std::to_string(obs++), 2000), err); }
    else if(r < 10) { if(j.getLogSize() - 1 > j.getCommitIndex()) j.setCommitIndex(j.getCommitIndex() + 1 + g.below(j.getLogSize() - 1 - j.getCommitIndex())); }
    else if(r < 11) { if(term) { RaftServer o = RaftServer("obs" + std::to_string(obs ? g.below(obs) : 0), 2000); g.chance(50) ? j.promoteObserver(term, o, err) : j.removeMember(term, o, err); } }
    else if(j.getCommitIndex() > j.getLogStart() && g.chance(40)) j.trimUntil(j.getLogStart() + g.below(j.getCommitIndex() - j.getLogStart()));
  }
}

inline void makeSm(Rng &g, const std::string &path) {
  static Publisher *pub = new Publisher();
  smm::Sut sut(path, pub);
  int64_t idx = 0;
  std::vector<std::vector<std::string>> cmds;
  for(int k = 3 + g.below(30); k > 0; k--) {
    std::string key = "k" + std::to_string(g.below(8));
    switch(g.below(6)) {
      case 0: cmds.push_back({"SET", "s" + key, g.bytes(20)}); break;
      case 1: cmds.push_back({"HSET", "h" + key, g.bytes(5, 2), g.bytes(10)}); break;
      case 2: cmds.push_back({"SADD", "t" + key, g.bytes(5, 2)}); break;
      case 3: cmds.push_back({"DEQUE_PUSH_BACK", "d" + key, g.bytes(8)}); break;
      case 4: cmds.push_back({"LHSET", "l" + key, "f" + g.bytes(3, 2), "hint", g.bytes(8)}); break;
      default: cmds.push_back({"CONFIG_SET", "my.conf" + key, "v"}); break;
    }
  }
  for(auto &c : cmds) { RedisRequest r = req(c); r.parseCommand(); sut.disp->dispatch(r, ++idx); }
}

// what a state machine reads as
struct Sm {
  int64_t applied = 0;
  std::map<std::string, std::string> seen;
  Sm() {}
  explicit Sm(const std::string &path) {
    static Publisher *pub = new Publisher();
    smm::Sut sut(path, pub);
    applied = sut.sm->getLastApplied();
    for(int i = 0; i < 8; i++) {
      std::string k = "k" + std::to_string(i);
      for(auto &c : std::vector<std::vector<std::string>>{{"GET", "s" + k}, {"HGETALL", "h" + k}, {"SMEMBERS", "t" + k}, {"DEQUE_LEN", "d" + k}, {"DEQUE_SCAN_BACK", "d" + k, "0"}, {"LHSCAN", "l" + k, "0"}, {"CONFIG_GET", "my.conf" + k}}) {
        RedisRequest r = req(c);
        seen[vf::show(c)] = sut.disp->dispatch(r, 0).val;
      }
    }
  }
  std::string diff(const Sm &o) const {
    if(applied != o.applied) return "last-applied " + std::to_string(applied) + " -> " + std::to_string(o.applied);
    for(auto &x : seen) if(o.seen.at(x.first) != x.second) return x.first + " was " + esc(x.second) + ", is " + esc(o.seen.at(x.first));
    return "";
  }
};

}
#endif
