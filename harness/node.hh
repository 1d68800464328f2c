// A standalone node in a scratch directory, and clients whose bytes the harness controls.
#ifndef VF_NODE_HH
#define VF_NODE_HH
#include "wirelink.hh"
#include "resp.hh"
#include "Connection.hh"
#include "QuarkDBNode.hh"
#include "Shard.hh"
#include "ShardDirectory.hh"
#include "StateMachine.hh"
#include "raft/RaftTimeouts.hh"
#include "utils/InFlightTracker.hh"

namespace vf {

struct Standalone {
  std::string dir;
  quarkdb::Configuration cfg;
  std::unique_ptr<quarkdb::QuarkDBNode> node;
  Standalone(const std::string &d, const std::string &extra = "", const std::string &mode = "standalone") : dir(d) {
    std::string err;
    struct stat st;
    if(stat(dir.c_str(), &st) != 0) {
      quarkdb::Status s;
      delete quarkdb::ShardDirectory::create(dir, "cluster", "default", nullptr, s);
      if(!s.ok()) { fprintf(stderr, "VF-HARNESS-ERROR cannot create %s\n", dir.c_str()); _exit(2); }
    }
    if(!quarkdb::Configuration::fromString("redis.mode " + mode + "\nredis.database " + dir + "\n" + extra, cfg)) { fprintf(stderr, "VF-HARNESS-ERROR configuration\n"); _exit(2); }
    open();
  }
  void open() { node.reset(new quarkdb::QuarkDBNode(cfg, quarkdb::defaultTimeouts)); }
  void reopen() { node.reset(); open(); }
};

// Everything that arrived is processed by step(), like a poller would.
struct Client {
  WireLink wire;
  quarkdb::InFlightTracker tracker {true};
  std::unique_ptr<quarkdb::Link> link;
  std::unique_ptr<quarkdb::Connection> conn;
  quarkdb::Dispatcher *disp;
  bool dead = false;            // the server ended the connection
  std::string rx;
  std::deque<resp::Val> got;
  bool malformed = false;

  Client(quarkdb::Dispatcher *d, const std::string &host = "client.example") : disp(d) {
    wire.host = host;
    quarkdb::Link::setConnectionLogging(false);
    link.reset(new quarkdb::Link(&wire));
    conn.reset(new quarkdb::Connection(link.get()));
  }
  ~Client() { hangup(); }
  void hangup() {
    { std::scoped_lock l(wire.mtx); wire.closed = true; }
    if(conn) disp->notifyDisconnect(conn.get());
    conn.reset(); link.reset();
  }
  // returns false once the connection is over
  bool step() {
    if(dead || !conn) return false;
    if(conn->processRequests(disp, tracker) < 0) { dead = true; }
    collect();
    return !dead;
  }
  void collect() {
    rx += wire.take();
    size_t pos = 0;
    while(pos < rx.size() && !malformed) {
      resp::Val v;
      int rc = resp::decode(rx, pos, v);
      if(rc < 0) malformed = true;
      if(rc != 1) break;
      got.push_back(std::move(v));
    }
    rx.erase(0, pos);
  }
  // one request, its replies
  std::vector<resp::Val> ask(const std::vector<std::string> &c) {
    std::string o = "*" + std::to_string(c.size()) + "\r\n";
    for(auto &a : c) o += "$" + std::to_string(a.size()) + "\r\n" + a + "\r\n";
    wire.arrive(o);
    step();
    std::vector<resp::Val> r(got.begin(), got.end());
    got.clear();
    return r;
  }
};

}
#endif
