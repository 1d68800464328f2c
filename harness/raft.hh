// A raft node in this process (without its director unless asked for), and peers played by the harness
// over real loopback sockets.
#ifndef VF_RAFT_HH
#define VF_RAFT_HH
#include "qdb.hh"
#include "resp.hh"
#include "peer.hh"
#include "ShardDirectory.hh"
#include "StateMachine.hh"
#include "Dispatcher.hh"
#include "raft/RaftGroup.hh"
#include "raft/RaftDispatcher.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftState.hh"
#include "raft/RaftReplicator.hh"
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftTrimmer.hh"
#include "raft/RaftConfig.hh"
#include "raft/RaftWriteTracker.hh"
#include "utils/IntToBinaryString.hh"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>

namespace vf {

inline std::string rbulk(const std::vector<std::string> &v) {
  std::string o = "*" + std::to_string(v.size()) + "\r\n";
  for(auto &s : v) o += "$" + std::to_string(s.size()) + "\r\n" + s + "\r\n";
  return o;
}

// Listens on 127.0.0.1. Behaves as a correct follower, except where told otherwise.
struct FakePeer {
  typedef std::vector<std::string> Args;
  int lfd = -1, port = 0;
  std::thread th;
  std::atomic<bool> stop {false};
  std::atomic<bool> online {true};
  std::atomic<bool> holdAppends {false};      // appends stay unanswered until this is cleared
  std::atomic<bool> holdHeartbeats {false};
  std::atomic<bool> holdVotes {false};
  std::atomic<bool> refuseHandshake {false};
  std::mutex mtx;
  int64_t term = 0;
  std::vector<std::string> log;               // serialized entries
  std::string vote = "granted", preVote = "granted";    // or refused, veto, garbage
  int64_t voteTerm = -1;                      // term to report in vote replies (-1: our own)
  std::function<void(const Args&)> onRequest;
  std::function<bool(const Args&, std::string&)> brain;   // overrides replies
  std::atomic<int64_t> appends {0}, heartbeats {0}, votes {0}, preVotes {0}, conns {0};
  std::atomic<int64_t> commitSeen {0};
  std::chrono::steady_clock::time_point lastAnswered {};
  std::atomic<int64_t> heardNs {0};           // when we last looked at a request to answer it (steady clock)
  std::chrono::steady_clock::time_point heard() const { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(heardNs.load())); }

  struct Conn { int fd; std::string in; std::deque<Args> todo; };
  std::vector<Conn> cs;

  FakePeer() {
    lfd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if(bind(lfd, (sockaddr*) &a, sizeof(a)) != 0 || listen(lfd, 64) != 0) { perror("bind"); _exit(2); }
    socklen_t l = sizeof(a);
    getsockname(lfd, (sockaddr*) &a, &l);
    port = ntohs(a.sin_port);
    th = std::thread([this] { run(); });
  }
  ~FakePeer() { stop = true; th.join(); for(auto &c : cs) ::close(c.fd); ::close(lfd); }
  quarkdb::RaftServer srv() const { return quarkdb::RaftServer("127.0.0.1", port); }
  std::string name() const { return "127.0.0.1:" + std::to_string(port); }
  int64_t logSize() { std::scoped_lock l(mtx); return log.size(); }

  static int64_t be(const char *p) { uint64_t v = 0; for(int i = 0; i < 8; i++) v = (v << 8) | (unsigned char) p[i]; return (int64_t) v; }
  static int64_t le(const std::string &s) { int64_t v; memcpy(&v, s.data(), 8); return v; }

  // a decoded RAFT_APPEND_ENTRIES
  struct Append { std::string leader; int64_t term, prevIndex, prevTerm, commit; std::vector<std::string> entries; };
  static bool decode(const Args &a, Append &o) {
    if(a.size() < 3 || a[2].size() != 40) return false;
    o.leader = a[1];
    o.term = be(a[2].data()); o.prevIndex = be(a[2].data() + 8); o.prevTerm = be(a[2].data() + 16); o.commit = be(a[2].data() + 24);
    o.entries.assign(a.begin() + 3, a.end());
    return be(a[2].data() + 32) == (int64_t) o.entries.size();
  }

  // returns an empty string for "not now"
  std::string answer(const Args &a) {
    std::string cmd;
    for(char c : a[0]) cmd += toupper(c);
    if(cmd == "RAFT_HANDSHAKE") return refuseHandshake ? "-ERR no\r\n" : "+OK\r\n";
    if(cmd == "CLIENT") return "+OK\r\n";
    if(cmd == "QUARKDB_VERSION") return "$4\r\nfake\r\n";
    if(cmd == "RAFT_APPEND_ENTRIES" && holdAppends) return "";
    if(cmd == "RAFT_HEARTBEAT" && holdHeartbeats) return "";
    if((cmd == "RAFT_REQUEST_VOTE" || cmd == "RAFT_REQUEST_PRE_VOTE") && holdVotes) return "";
    heardNs = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
    if(onRequest) onRequest(a);
    if(brain) { std::string r; if(brain(a, r)) return r; }
    std::scoped_lock l(mtx);
    if(cmd == "RAFT_HEARTBEAT") {
      heartbeats++;
      int64_t t = strtoll(a[1].c_str(), nullptr, 10);
      term = std::max(term, t);
      lastAnswered = std::chrono::steady_clock::now();
      return rbulk({std::to_string(term), t == term ? "1" : "0", t == term ? "" : "My raft term is newer"});
    }
    if(cmd == "RAFT_REQUEST_VOTE" || cmd == "RAFT_REQUEST_PRE_VOTE") {
      bool pre = cmd == "RAFT_REQUEST_PRE_VOTE";
      (pre ? preVotes : votes)++;
      int64_t t = strtoll(a[1].c_str(), nullptr, 10);
      if(!pre) term = std::max(term, t);
      const std::string &v = pre ? preVote : vote;
      if(v == "garbage") return "-ERR what\r\n";
      return rbulk({std::to_string(voteTerm >= 0 ? voteTerm : term), v});
    }
    if(cmd == "RAFT_APPEND_ENTRIES") {
      appends++;
      Append p;
      if(!decode(a, p)) return "-ERR malformed\r\n";
      term = std::max(term, p.term);
      auto reply = [&](bool ok, const std::string &e) { return rbulk({std::to_string(term), std::to_string(log.size()), ok ? "1" : "0", e}); };
      if(p.term < term) return reply(false, "My raft term is newer");
      if(p.prevIndex < 0 || p.prevIndex >= (int64_t) log.size() || le(log[p.prevIndex]) != p.prevTerm) return reply(false, "Log entry mismatch");
      for(size_t i = 0; i < p.entries.size(); i++) {
        size_t at = p.prevIndex + 1 + i;
        if(at < log.size() && log[at] != p.entries[i]) log.resize(at);
        if(at >= log.size()) log.push_back(p.entries[i]);
      }
      commitSeen = std::max<int64_t>(commitSeen, std::min<int64_t>(p.commit, p.prevIndex + p.entries.size()));
      return reply(true, "");
    }
    return "-ERR unknown\r\n";
  }

  void run() {
    while(!stop) {
      if(!online) {
        for(auto &c : cs) ::close(c.fd);
        cs.clear();
        // drain the backlog, so that nobody is connected
        pollfd pf {lfd, POLLIN, 0};
        if(poll(&pf, 1, 5) > 0) { int fd = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC); if(fd >= 0) ::close(fd); }
        continue;
      }
      std::vector<pollfd> pf {{lfd, POLLIN, 0}};
      for(auto &c : cs) pf.push_back({c.fd, POLLIN, 0});
      bool held = false;
      for(auto &c : cs) held |= !c.todo.empty();
      poll(pf.data(), pf.size(), held ? 1 : 5);
      for(size_t i = 0; i < cs.size(); ) {
        bool dead = false;
        if(pf[i+1].revents) {
          char buf[65536];
          ssize_t n = recv(cs[i].fd, buf, sizeof(buf), MSG_DONTWAIT);
          if(n == 0 || (n < 0 && errno != EAGAIN)) dead = true;
          else if(n > 0) {
            cs[i].in.append(buf, n);
            size_t pos = 0;
            resp::Val v;
            while(resp::decode(cs[i].in, pos, v) == 1) { Args a; for(auto &k : v.kids) a.push_back(k.s); if(!a.empty()) cs[i].todo.push_back(a); }
            cs[i].in.erase(0, pos);
          }
        }
        while(!dead && !cs[i].todo.empty()) {
          std::string r = answer(cs[i].todo.front());
          if(r.empty()) break;
          cs[i].todo.pop_front();
          if(send(cs[i].fd, r.data(), r.size(), MSG_NOSIGNAL) != (ssize_t) r.size()) dead = true;
        }
        if(dead) { ::close(cs[i].fd); cs.erase(cs.begin() + i); pf.erase(pf.begin() + i + 1); }
        else i++;
      }
      if(pf[0].revents & POLLIN) {
        int fd = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC);
        if(fd >= 0) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); cs.push_back({fd, "", {}}); conns++; }
      }
    }
  }
};

struct RaftNode {
  std::string dir;
  quarkdb::RaftServer me;
  quarkdb::RaftTimeouts timeouts;
  std::unique_ptr<quarkdb::ShardDirectory> sd;
  std::unique_ptr<quarkdb::RaftGroup> g;

  RaftNode(const std::string &d, const std::vector<quarkdb::RaftServer> &nodes, const quarkdb::RaftServer &m,
           quarkdb::RaftTimeouts t = quarkdb::RaftTimeouts(std::chrono::milliseconds(600), std::chrono::milliseconds(900), std::chrono::milliseconds(60)),
           quarkdb::LogIndex start = 0, quarkdb::FsyncPolicy pol = quarkdb::FsyncPolicy::kAsync)
  : dir(d), me(m), timeouts(t) {
    struct stat st;
    if(stat(dir.c_str(), &st) != 0) {
      quarkdb::Status s;
      sd.reset(quarkdb::ShardDirectory::create(dir, "cid", "default", nodes, start, pol, nullptr, s));
      if(!s.ok()) { fprintf(stderr, "VF-HARNESS-ERROR cannot create %s: %s\n", dir.c_str(), s.getMsg().c_str()); _exit(2); }
    }
    else sd.reset(new quarkdb::ShardDirectory(dir));
    g.reset(new quarkdb::RaftGroup(*sd, me, timeouts, ""));
  }
  ~RaftNode() { g.reset(); sd.reset(); }
  void reopen() {
    g.reset(); sd.reset();
    sd.reset(new quarkdb::ShardDirectory(dir));
    g.reset(new quarkdb::RaftGroup(*sd, me, timeouts, ""));
  }
  quarkdb::RaftJournal& j() { return *g->journal(); }
  quarkdb::RaftState& st() { return *g->state(); }
  quarkdb::RaftDispatcher& d() { return *g->dispatcher(); }
  quarkdb::StateMachine& sm() { return *g->stateMachine(); }

  // become leader of the next term without asking anybody
  bool ascend() {
    quarkdb::RaftTerm t = st().getSnapshot()->term + 1;
    return st().observed(t, {}) && st().becomeCandidate(t) && st().ascend(t);
  }
  void activate() {
    quarkdb::RaftStateSnapshotPtr s = st().getSnapshot();
    g->replicator()->activate(s);
  }
  // a log as other nodes would hold it
  std::vector<std::string> serialized() {
    std::vector<std::string> o;
    for(quarkdb::LogIndex i = 0; i < j().getLogSize(); i++) { quarkdb::RaftSerializedEntry e; j().fetch(i, e); o.push_back(e); }
    return o;
  }
};

template<typename F>
inline bool eventually(F f, int ms = 10000) {
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  while(std::chrono::steady_clock::now() < end) { if(f()) return true; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
  return f();
}

}
#endif
