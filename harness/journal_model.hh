// A list model of the raft journal, and the comparison of a real journal with it.
#ifndef VF_JOURNAL_MODEL_HH
#define VF_JOURNAL_MODEL_HH
#include "qdb.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftMembers.hh"

namespace jm {
using namespace quarkdb;

struct Entry {
  int64_t term;
  std::vector<std::string> req;
  bool operator==(const Entry &o) const { return term == o.term && req == o.req; }
};

inline Entry fromReal(const RaftEntry &e) {
  Entry r; r.term = e.term;
  for(size_t i = 0; i < e.request.size(); i++) r.req.emplace_back(e.request[i].data(), e.request[i].size());
  return r;
}
inline RaftEntry toReal(const Entry &e) {
  RaftEntry r; r.term = e.term;
  for(auto &s : e.req) r.request.emplace_back(std::string(s));
  return r;
}

typedef std::pair<std::string, int> Srv;
struct Mem {
  std::vector<Srv> nodes, observers;
  bool operator==(const Mem &o) const { return nodes == o.nodes && observers == o.observers; }
};
inline Srv s(const RaftServer &r) { return {r.hostname, r.port}; }
inline RaftServer r(const Srv &x) { return RaftServer(x.first, x.second); }
inline std::string str(const Srv &x) { return x.first + ":" + std::to_string(x.second); }
inline std::string str(const Mem &m) {
  std::string o;
  for(size_t i = 0; i < m.nodes.size(); i++) o += (i ? "," : "") + str(m.nodes[i]);
  o += "|";
  for(size_t i = 0; i < m.observers.size(); i++) o += (i ? "," : "") + str(m.observers[i]);
  return o;
}
template<typename T> inline bool has(const std::vector<T> &v, const T &x) { return std::find(v.begin(), v.end(), x) != v.end(); }
template<typename T> inline void del(std::vector<T> &v, const T &x) { v.erase(std::find(v.begin(), v.end(), x)); }

struct Model {
  std::map<int64_t, Entry> log;
  int64_t start = 0, size = 0, term = 0, commit = 0, epoch = 0, prevEpoch = 0;
  Srv vote {"", 0};
  Mem members, prevMembers;
  std::string cluster;
  FsyncPolicy policy = FsyncPolicy::kAsync;

  void init(const std::string &cid, const std::vector<Srv> &nodes, int64_t startIndex, FsyncPolicy pol) {
    *this = Model();
    cluster = cid; members.nodes = nodes; policy = pol;
    start = startIndex; size = startIndex + 1; commit = startIndex; epoch = startIndex;
    log[startIndex] = Entry{0, {"JOURNAL_UPDATE_MEMBERS", str(members), cid}};
  }

  bool append(int64_t index, const Entry &e) {
    if(index != size || e.term > term || e.term < log[size-1].term) return false;
    if(e.req[0] == "JOURNAL_UPDATE_MEMBERS" && e.req[2] == cluster) {
      prevMembers = members; prevEpoch = epoch;
      RaftMembers m;
      m.parse(e.req[1]);
      members.nodes.clear(); members.observers.clear();
      for(auto &n : m.nodes) members.nodes.push_back(s(n));
      for(auto &n : m.observers) members.observers.push_back(s(n));
      epoch = index;
    }
    log[index] = e;
    size++;
    return true;
  }
  // 0: false, 1: true, 2: must throw
  int setTerm(int64_t t, const Srv &v) {
    if(t < term || (t == term && !vote.first.empty())) return 0;
    term = t; vote = v;
    return 1;
  }
  int setCommit(int64_t i) {
    if(i < commit) return 0;
    if(i >= size) return 2;
    commit = i;
    return 1;
  }
  int remove(int64_t from) {
    if(size <= from) return 0;
    if(from <= commit) return 2;
    for(int64_t i = from; i < size; i++) log.erase(i);
    size = from;
    if(from <= epoch) { epoch = prevEpoch; members = prevMembers; }
    return 1;
  }
  int trim(int64_t to) {
    if(to <= start) return 1;
    if(size < to || commit < to) return 2;
    for(int64_t i = start; i < to; i++) log.erase(i);
    start = to;
    return 1;
  }
  // kind 0 addObserver, 1 promote, 2 demote, 3 remove
  bool membership(int kind, int64_t t, const Srv &x) {
    Mem m = members;
    if(kind == 0) { if(has(m.nodes, x) || has(m.observers, x)) return false; m.observers.push_back(x); }
    if(kind == 1) { if(!has(m.observers, x)) return false; del(m.observers, x); m.nodes.push_back(x); }
    if(kind == 2) { if(!has(m.nodes, x)) return false; del(m.nodes, x); m.observers.push_back(x); }
    if(kind == 3) {
      if(has(m.observers, x)) del(m.observers, x);
      else if(has(m.nodes, x)) del(m.nodes, x);
      else return false;
    }
    if(commit < epoch) return false;
    Entry e{t, {"JOURNAL_UPDATE_MEMBERS", str(m), cluster}};
    return append(size, e);
  }
};

inline std::string show(const Entry &e) { return "term " + std::to_string(e.term) + " " + vf::show(e.req); }

// empty string when equal
inline std::string compare(const Model &m, RaftJournal &j, bool full) {
  std::ostringstream o;
  if(j.getLogStart() != m.start) o << "logStart " << j.getLogStart() << " expected " << m.start << "; ";
  if(j.getLogSize() != m.size) o << "logSize " << j.getLogSize() << " expected " << m.size << "; ";
  if(j.getCurrentTerm() != m.term) o << "term " << j.getCurrentTerm() << " expected " << m.term << "; ";
  if(j.getCommitIndex() != m.commit) o << "commitIndex " << j.getCommitIndex() << " expected " << m.commit << "; ";
  if(j.getEpoch() != m.epoch) o << "epoch " << j.getEpoch() << " expected " << m.epoch << "; ";
  if(j.getClusterID() != m.cluster) o << "clusterID '" << j.getClusterID() << "' expected '" << m.cluster << "'; ";
  if(s(j.getVotedFor()) != m.vote) o << "votedFor '" << j.getVotedFor().toString() << "' expected '" << m.vote.first << ":" << m.vote.second << "'; ";
  if(j.getFsyncPolicy() != m.policy) o << "fsync policy " << fsyncPolicyToString(j.getFsyncPolicy()) << "; ";
  RaftMembership mem = j.getMembership();
  Mem rm;
  for(auto &n : mem.nodes) rm.nodes.push_back(s(n));
  for(auto &n : mem.observers) rm.observers.push_back(s(n));
  if(!(rm == m.members)) o << "members '" << str(rm) << "' expected '" << str(m.members) << "'; ";
  if(mem.epoch != m.epoch) o << "membership epoch " << mem.epoch << " expected " << m.epoch << "; ";
  std::vector<Srv> nodes;
  for(auto &n : j.getNodes()) nodes.push_back(s(n));
  if(nodes != m.members.nodes) o << "getNodes differs; ";
  if(!full) {
    RaftEntry e;
    if(j.fetch(m.size - 1, e).ok()) {
      if(!(fromReal(e) == m.log.at(m.size - 1))) o << "last entry " << show(fromReal(e)) << " expected " << show(m.log.at(m.size - 1)) << "; ";
    } else o << "last entry missing; ";
    return o.str();
  }
  for(int64_t i = std::max<int64_t>(0, m.start - 3); i < m.size + 3; i++) {
    RaftEntry e; RaftTerm t = -1; RaftSerializedEntry ser;
    bool exists = m.log.count(i);
    rocksdb::Status a = j.fetch(i, e), b = j.fetch(i, t), c = j.fetch(i, ser);
    if(a.ok() != exists || b.ok() != exists || c.ok() != exists) { o << "entry " << i << (exists ? " missing; " : " present, but should not be; "); continue; }
    if(!exists) continue;
    const Entry &x = m.log.at(i);
    if(!(fromReal(e) == x)) o << "entry " << i << " is " << show(fromReal(e)) << " expected " << show(x) << "; ";
    if(t != x.term || RaftEntry::fetchTerm(ser) != x.term) o << "term of entry " << i << " is " << t << " expected " << x.term << "; ";
    if(!j.matchEntries(i, x.term)) o << "matchEntries(" << i << ") is false; ";
    if(j.matchEntries(i, x.term + 1)) o << "matchEntries(" << i << ") with wrong term is true; ";
    RaftEntry back;
    RaftEntry::deserialize(back, ser);
    if(!(fromReal(back) == x)) o << "serialized entry " << i << " does not parse back; ";
  }
  if(j.matchEntries(m.size, m.term)) o << "matchEntries past the end is true; ";
  // scans see exactly the live entries
  for(size_t count : {1, 3, 1000}) {
    LogIndex cursor = 0;
    std::map<int64_t, Entry> got;
    int rounds = 0;
    do {
      std::vector<RaftEntryWithIndex> out;
      LogIndex next = -1;
      j.scanContents(cursor, count, "", out, next);
      for(auto &e : out) {
        if(got.count(e.index)) o << "scan returned entry " << e.index << " twice; ";
        got[e.index] = fromReal(e.entry);
      }
      cursor = next;
      if(++rounds > 5000) { o << "scan does not end; "; break; }
    } while(cursor != 0);
    if(got != m.log) o << "scan with count " << count << " returned " << got.size() << " entries, expected " << m.log.size() << " or contents differ; ";
  }
  {
    auto it = j.getIterator(m.start, true);
    int64_t idx = m.start;
    while(it.valid()) {
      RaftSerializedEntry ser;
      it.current(ser);
      RaftEntry e;
      RaftEntry::deserialize(e, ser);
      if(it.getCurrentIndex() != idx) { o << "iterator at " << it.getCurrentIndex() << " expected " << idx << "; "; break; }
      if(!m.log.count(idx) || !(fromReal(e) == m.log.at(idx))) { o << "iterator entry " << idx << " differs; "; break; }
      idx++;
      it.next();
    }
    if(idx != m.size) o << "iterator ended at " << idx << ", log size " << m.size << "; ";
    if(j.getIterator(m.size, true).valid()) o << "iterator past the end is valid; ";
  }
  return o.str();
}

}
#endif
