// C37: what is no longer used is given back. The same traffic again and again; after each round, when everything
// is quiet, descriptors, threads, live heap and disk space are where they were.
//  clients   real sockets on a standalone node and a one-node cluster, closed in every way
//  requests  commands and transactions by clients in this process
//  quiet     subscribers that are gone, on channels where nothing is published
//  reopen    journals, state machines, shards, nodes opened and closed; snapshots and checkpoints taken and dropped
//  leader    elections and leaderships over peers played by the harness
//  space     reads, scans and transactions pin no files and no versions of overwritten data
//  files     the file helpers
#include "sm_model.hh"
#include "node.hh"
#include "raft.hh"
#include "netio/AsioPoller.hh"
#include "redis/Transaction.hh"
#include "pubsub/Publisher.hh"
#include "storage/ConsistencyScanner.hh"
#include "storage/ParanoidManifestChecker.hh"
#include "utils/FileUtils.hh"
#include "utils/DirectoryIterator.hh"
#include "raft/RaftTalker.hh"
#include "raft/RaftUtils.hh"
#include "raft/RaftTrimmer.hh"
#include "raft/RaftContactDetails.hh"
#include "storage/StagingArea.hh"
#include <dirent.h>
#include <sys/stat.h>
#include <poll.h>
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
size_t __sanitizer_get_allocated_size(const volatile void *p);
int __sanitizer_get_ownership(const volatile void *p);
}
using namespace vf;
using namespace quarkdb;
using namespace smm;

// ---------------------------------------------------------------- what is held
static std::atomic<int64_t> liveBytes {0}, liveBlocks {0};
static void onMalloc(const volatile void *, size_t n) { liveBytes += n; liveBlocks++; }
static void onFree(const volatile void *p) { if(p && __sanitizer_get_ownership(p)) { liveBytes -= __sanitizer_get_allocated_size(p); liveBlocks--; } }

static size_t entries(const char *d) {
  size_t n = 0;
  DIR *x = opendir(d);
  while(x && readdir(x)) n++;
  if(x) closedir(x);
  return n;
}
static size_t fds() { return entries("/proc/self/fd"); }
static size_t threads() { return entries("/proc/self/task"); }
static std::string fdList() {
  std::string o;
  for(int i = 0; i < 4096; i++) { char l[64], t[512]; snprintf(l, sizeof(l), "/proc/self/fd/%d", i); ssize_t n = readlink(l, t, sizeof(t)); if(n > 0) o += SSTR(" " << i << "=" << std::string(t, n)); }
  return o.substr(o.size() > 1500 ? o.size() - 1500 : 0);
}

// Runs the round again and again. Descriptors and threads have to come back to where they were; the heap must
// not grow by something in each and every round.
static void again(const std::string &what, int rounds, int64_t uses, const std::function<void(int)> &round, int64_t each = 8, int64_t blocksPerRound = 1, const std::string &key = "heap") {
  std::vector<int64_t> live, blocks;
  size_t fd0 = 0, th0 = 0;
  for(int i = 0; i < rounds && !ctx().failed(); i++) {
    ctx().current(what + " round " + std::to_string(i));
    round(i);
    if(ctx().failed()) return;
    if(i == 2) { fd0 = fds(); th0 = threads(); }
    if(i > 2) {
      // as the background jobs of the database open files as well, now and then: no more than a few
      if(!eventually([&] { return fds() <= fd0 + 3; }, 15000)) { if(fds() > fd0 + std::max<size_t>(3, (i - 2) / 2)) { VF_FAIL("descriptors", what << ": " << fds() << " descriptors are open after round " << i << ", " << fd0 << " after round 2:" << fdList()); return; } }
      if(!eventually([&] { return threads() <= th0; }, 15000)) { VF_FAIL("threads", what << ": " << threads() << " threads after round " << i << ", " << th0 << " after round 2"); return; }
    }
    // let what is released by other threads be released
    int64_t b = liveBytes;
    for(int k = 0; k < 40; k++) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); int64_t c = liveBytes; if(k > 3 && c == b) break; b = c; }
    live.push_back(liveBytes); blocks.push_back(liveBlocks);
    ctx().count("rounds");
    ctx().count("uses", uses);
  }
  ctx().eval(what);
  if(live.size() < 6) return;
  int64_t least = INT64_MAX, leastBlocks = INT64_MAX;
  std::string l;
  for(size_t i = 0; i < live.size(); i++) {
    l += SSTR(" " << live[i] << "/" << blocks[i]);
    if(i < 3) continue;
    least = std::min(least, live[i] - live[i - 1]);
    leastBlocks = std::min(leastBlocks, blocks[i] - blocks[i - 1]);
  }
  ctx().sample(SSTR(what << ": descriptors " << fd0 << ", threads " << th0 << ", live bytes/blocks" << l), 30);
  if(least > uses * each) VF_FAIL(key, what << ": the heap grows by at least " << least << " bytes in each round of " << uses << " uses; live bytes/blocks after each:" << l);
  else if(leastBlocks > blocksPerRound) VF_FAIL(key, what << ": the heap grows by at least " << leastBlocks << " blocks in each round of " << uses << " uses; live bytes/blocks after each:" << l);
}

// ---------------------------------------------------------------- sockets
static int freePort() {
  int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a {};
  a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if(bind(s, (sockaddr*) &a, sizeof(a)) != 0) { perror("bind"); _exit(2); }
  socklen_t l = sizeof(a);
  getsockname(s, (sockaddr*) &a, &l);
  ::close(s);
  return ntohs(a.sin_port);
}
static int dial(int port) {
  for(int i = 0; i < 200; i++) {
    int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a {};
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    if(connect(s, (sockaddr*) &a, sizeof(a)) == 0) return s;
    ::close(s);
    usleep(20000);
  }
  return -1;
}
static std::string enc(const Cmd &c) { return rbulk(c); }
// reads until n replies are there, or the connection is over
static int await(int s, int n, int ms = 20000) {
  std::string in;
  int got = 0;
  size_t pos = 0;
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  while(got < n && std::chrono::steady_clock::now() < end) {
    pollfd p {s, POLLIN, 0};
    if(poll(&p, 1, 100) <= 0) continue;
    char b[65536];
    ssize_t r = recv(s, b, sizeof(b), 0);
    if(r <= 0) return -1;
    in.append(b, r);
    resp::Val v;
    while(resp::decode(in, pos, v) == 1) got++;
  }
  return got;
}
static void hang(int s, bool reset) {
  if(reset) { linger l {1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); }
  ::close(s);
}

static void clients(bool raft) {
  Rng g(ctx().seed);
  std::string dir = freshDir("vf-clients") + "/n";
  std::unique_ptr<QuarkDBNode> node;
  Configuration cfg;
  Status st;
  if(raft) {
    delete ShardDirectory::create(dir, "cid", "default", {RaftServer("127.0.0.1", 7777)}, 0, FsyncPolicy::kAsync, nullptr, st);
    Configuration::fromString("redis.mode raft\nredis.myself 127.0.0.1:7777\nredis.database " + dir + "\n", cfg);
  }
  else {
    delete ShardDirectory::create(dir, "cid", "default", nullptr, st);
    Configuration::fromString("redis.mode standalone\nredis.database " + dir + "\n", cfg);
  }
  node.reset(new QuarkDBNode(cfg, RaftTimeouts(std::chrono::milliseconds(100), std::chrono::milliseconds(150), std::chrono::milliseconds(20))));
  Link::setConnectionLogging(false);
  int port = freePort();
  std::unique_ptr<AsioPoller> poller(new AsioPoller(port, 4, node.get()));
  // until it serves
  int w = dial(port);
  if(w < 0) { VF_FAIL("clients:connect", "cannot connect"); return; }
  auto ask = [&](int s, const Cmd &c) { std::string o = enc(c); (void)! send(s, o.data(), o.size(), MSG_NOSIGNAL); return await(s, 1); };
  std::this_thread::sleep_for(std::chrono::milliseconds(500));
  const int per = 60;
  std::string big(30000, 'B');
  again(raft ? "clients of a cluster" : "clients of a standalone node", ctx().thorough ? 30 : 10, per, [&](int r) {
    std::vector<int> open;
    for(int i = 0; i < per; i++) {
      int s = dial(port);
      if(s < 0) { VF_FAIL("clients:connect", "cannot connect in round " << r); return; }
      int one = 1;
      setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
      std::string o;
      int replies = 0;
      int kind = i % 12;
      std::string k = "k" + std::to_string(i);
      switch(kind) {
        case 0: o = enc({"SET", k, "v"}) + enc({"GET", k}); replies = 2; break;
        case 1: for(int x = 0; x < 30; x++) o += enc({"SET", k, std::to_string(x)}); break;                   // leaves without waiting
        case 2: o = enc({"MULTI"}) + enc({"SET", k, "v"}) + enc({"GET", k}); break;                         // queued for good
        case 3: o = "*3\r\n$3\r\nSET\r\n$5000\r\nxx"; break;                                                   // in the middle of an argument
        case 4: o = "*1\r\n$99999999999999\r\n"; replies = 1; break;                                           // is thrown out
        case 5: o = enc({"SUBSCRIBE", "news"}) + enc({"PSUBSCRIBE", "n*"}); replies = 2; break;
        case 6: o = enc({"SET", "big", big}); for(int x = 0; x < 10; x++) o += enc({"GET", "big"}); break;   // does not read
        case 7: o = enc({"MULTI"}) + enc({"HSET", "h", k, "v"}) + enc({"HGETALL", "h"}) + enc({"EXEC"}); replies = 4; break;
        case 8: break;                                                                                         // says nothing
        case 9: o = enc({"ACTIVATE_PUSH_TYPES"}) + enc({"SUBSCRIBE", "news", "other"}) + enc({"UNSUBSCRIBE", "news"}); replies = 1; break;
        case 10: o = enc({"VHSET", "vh", "f", k}) + enc({"LEASE_ACQUIRE", "lease", "holder", "1000"}) + enc({"nosuch"}); replies = 3; break;
        default: o = enc({"RAFT_INFO"}) + enc({"QUARKDB_INFO"}) + enc({"QUARKDB_HEALTH"}); replies = 3; break;
      }
      (void)! send(s, o.data(), o.size(), MSG_NOSIGNAL);
      if(replies) await(s, replies, kind == 4 ? 2000 : 20000);
      open.push_back(s);
      ctx().count("connections");
    }
    for(size_t i = 0; i < open.size(); i++) hang(open[i], (i + r) % 3 == 0);
    // whoever subscribed and left is noticed when there is something to send
    if(!eventually([&] { return ask(w, {"PUBLISH", "news", "x"}) == 1 && ask(w, {"PUBLISH", "other", "x"}) == 1; }, 10000)) VF_FAIL("clients:publish", "no answer to PUBLISH");
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    for(int x = 0; x < 2; x++) { ask(w, {"PUBLISH", "news", "x"}); ask(w, {"PUBLISH", "other", "x"}); }
  });
  ::close(w);
  poller.reset();
  node.reset();
}

// ---------------------------------------------------------------- requests
static void requests(bool quiet) {
  std::string dir = freshDir("vf-requests");
  for(int raft = 0; raft < 2 && !ctx().failed(); raft++) {
    Configuration cfg;
    Status st;
    std::string d = dir + (raft ? "/r" : "/s");
    if(raft) delete ShardDirectory::create(d, "cid", "default", {RaftServer("127.0.0.1", 7777)}, 0, FsyncPolicy::kAsync, nullptr, st);
    else delete ShardDirectory::create(d, "cid", "default", nullptr, st);
    Configuration::fromString(std::string(raft ? "redis.mode raft\nredis.myself 127.0.0.1:7777\n" : "redis.mode standalone\n") + "redis.database " + d + "\n", cfg);
    QuarkDBNode node(cfg, RaftTimeouts(std::chrono::milliseconds(100), std::chrono::milliseconds(150), std::chrono::milliseconds(20)));
    Client cl(&node);
    auto call = [&](const std::vector<Cmd> &cs) {
      std::string o;
      for(auto &c : cs) o += enc(c);
      cl.wire.arrive(o);
      cl.step();
      auto end = std::chrono::steady_clock::now() + std::chrono::seconds(30);
      while(cl.got.size() < cs.size() && !cl.dead && std::chrono::steady_clock::now() < end) { usleep(50); cl.collect(); }
      if(cl.got.size() < cs.size()) VF_FAIL("requests:replies", cl.got.size() << " replies to " << cs.size() << " requests" << show(cs));
      std::string last = cl.got.empty() ? "" : resp::show(cl.got.back());
      cl.got.clear();
      return last;
    };
    if(raft && !eventually([&] { return call({{"SET", "first", "v"}}).find("OK") != std::string::npos; }, 30000)) { VF_FAIL("requests:leader", "a node alone does not become leader"); return; }
    std::string where = raft ? " of a cluster" : " of a standalone node";
    if(quiet) {
      // never heard of again: nobody publishes there, and they are gone
      again("those who leave unnoticed" + where, 8, 100, [&](int r) {
        for(int i = 0; i < 100; i++) { Client c(&node); c.ask({"SUBSCRIBE", SSTR("gone-" << r << "-" << i)}); }
      }, 8, 1, "heap:quiet-subscribers");
      return;
    }
    // something to look at
    for(int i = 0; i < 40; i++) call({{"HSET", "h", "f" + std::to_string(i), "v"}, {"SADD", "s", std::to_string(i)}, {"LHSET", "lh", "f" + std::to_string(i), "hint", "v"}, {"DEQUE_PUSH_BACK", "d", "v"}, {"VHSET", "vh", "f", "v"}, {"LEASE_ACQUIRE", "l" + std::to_string(i), "holder", "1000000"}, {"SET", "s" + std::to_string(i), "v"}});
    const int uses = 200;
    int rounds = ctx().thorough ? 25 : 9;
    again("reads" + where, rounds, uses, [&](int) {
      Rng r(5);
      for(int i = 0; i < uses; i++) {
        std::string c = std::to_string(1 + r.below(30));
        static const std::vector<Cmd> pool {{"GET", "s1"}, {"GET", "none"}, {"EXISTS", "h", "s"}, {"KEYS", "s*"}, {"HGETALL", "h"}, {"HKEYS", "h"}, {"HVALS", "h"}, {"SMEMBERS", "s"}, {"DEQUE_SCAN_BACK", "d", "0", "COUNT", "7"}, {"LHSCAN", "lh", "0"}, {"HSCAN", "h", "0", "COUNT", "5"}, {"SSCAN", "s", "0", "COUNT", "5"},
          {"SCAN", "0", "COUNT", "10"}, {"VHGETALL", "vh"}, {"LHGET", "lh", "f1", "hint"}, {"GET"}, {"GET", "h"}, {"HGET", "h", "f1"}, {"TYPE", "h"}, {"RAW_SCAN", "a"}, {"RAW_GET_ALL_VERSIONS", "as1"}, {"CLOCK_GET"}, {"LEASE_GET_PENDING_EXPIRATION_EVENTS"}, {"CONFIG_GETALL"}, {"nosuch", "command"}, {"QUARKDB_HEALTH"}, {"QUARKDB_INFO"}, {"RAFT_INFO"}, {"RAFT_LEADER_INFO"}, {"COMMAND_STATS"}, {"RAFT_JOURNAL_SCAN", "0", "COUNT", "5"}, {"RAFT_FETCH", "0"}, {"RAFT_FETCH_LAST", "3"}, {"QUARKDB_LEVEL_STATS"}, {"QUARKDB_COMPRESSION_STATS"}};
        if(r.chance(80)) call({r.pick(pool)});
        else { std::vector<Cmd> m {{"MULTI"}}; for(int k = r.below(4); k >= 0; k--) { Cmd c; do c = r.pick(pool); while(c.size() < 2 || c[0][0] == 'Q' || c[0][0] == 'R' || c[0][0] == 'n'); m.push_back(c); } m.push_back({r.chance(80) ? "EXEC" : "DISCARD"}); call(m); }
      }
    });
    again("writes" + where, rounds, uses, [&](int) {
      Rng r(6);
      for(int i = 0; i < uses; i++) {
        std::string f = "f" + std::to_string(r.below(40));
        std::vector<Cmd> pool {{"SET", "s1", "v"}, {"HSET", "h", f, "w"}, {"HSET", "s1", "f", "v"}, {"HINCRBY", "n", "f", "1"}, {"SADD", "s", f}, {"SREM", "s", f}, {"DEL", "tmp"}, {"SET", "tmp", "v"}, {"LHSET", "lh", f, "hint2", "v"}, {"LHDEL", "lh", f}, {"DEQUE_PUSH_BACK", "d", "v"}, {"DEQUE_POP_FRONT", "d"}, {"VHSET", "vh", f, "v"}, {"VHDEL", "vh", f}, {"LEASE_ACQUIRE", "l1", "holder", "1000000"}, {"LEASE_GET", "l1"}, {"HCLONE", "h", "s1"}, {"SMOVE", "s", "t", f}, {"CONFIG_SET", "a.b", "v"}, {"SET"}, {"LEASE_RELEASE", "l2"}, {"LEASE_ACQUIRE", "l2", "holder", "1000"}, {"CONVERT_HASH_FIELD_TO_LHASH", "h", f, "lh", f, "hint"}};
        if(r.chance(80)) call({r.pick(pool)});
        else { std::vector<Cmd> m {{"MULTI"}}; for(int k = r.below(4); k >= 0; k--) { Cmd c = r.pick(pool); if(c.size() > 1) m.push_back(c); } m.push_back({r.chance(80) ? "EXEC" : "DISCARD"}); call(m); }
      }
    }, 1500);      // what is written stays in the memtable for a while
    again("subscribers" + where, rounds, 100, [&](int) {
      for(int i = 0; i < 100; i++) {
        Client c(&node);
        c.ask({"SUBSCRIBE", "news", "more"}); c.ask({"PSUBSCRIBE", "n*"});
        if(i % 3 == 0) { c.ask({"UNSUBSCRIBE", "news", "more"}); c.ask({"PUNSUBSCRIBE", "n*"}); }
        if(i % 2) call({{"PUBLISH", "news", "x"}});
      }
      call({{"PUBLISH", "news", "x"}}); call({{"PUBLISH", "more", "x"}});
    });
    again("those who leave in time" + where, rounds, 100, [&](int r) {
      for(int i = 0; i < 100; i++) {
        Client c(&node);
        std::string own = SSTR("own-" << r << "-" << i);
        c.ask({"SUBSCRIBE", own, own + "b"}); c.ask({"PSUBSCRIBE", own + "*"});
        c.ask({"UNSUBSCRIBE", own, own + "b"}); c.ask({"PUNSUBSCRIBE", own + "*"});
      }
    });
  }
}

// ---------------------------------------------------------------- opened and closed
static void reopen() {
  Rng g(ctx().seed);
  std::string base = freshDir("vf-reopen");
  int rounds = ctx().thorough ? 24 : 9;
  { Status st; delete ShardDirectory::create(base + "/n", "cid", "default", {RaftServer("a", 1), RaftServer("b", 2), RaftServer("me", 3)}, 0, FsyncPolicy::kAsync, nullptr, st); }
  { StateMachine sm(base + "/sm"); Publisher p; RedisDispatcher d(sm, p); for(int i = 0; i < 50; i++) { RedisRequest r = req({"SET", "k" + std::to_string(i), "v"}); d.dispatch(r, 0); } }
  again("state machine", rounds, 3, [&](int) { for(int i = 0; i < 3; i++) { StateMachine sm(base + "/sm"); std::string v; StagingArea st(sm, true); sm.get(st, "k1", v); } }, 1000);
  again("journal", rounds, 3, [&](int) { for(int i = 0; i < 3; i++) { RaftJournal j(base + "/n/current/raft-journal"); RaftSerializedEntry e; j.fetch(0, e); } }, 1000);
  again("shard directory", rounds, 2, [&](int) { for(int i = 0; i < 2; i++) { ShardDirectory sd(base + "/n"); sd.getStateMachine(); if(i) sd.getRaftJournal(); } }, 1000);
  again("raft group", rounds, 2, [&](int) {
    for(int i = 0; i < 2; i++) {
      ShardDirectory sd(base + "/n");
      RaftGroup gr(sd, RaftServer("me", 3), RaftTimeouts(std::chrono::milliseconds(50000), std::chrono::milliseconds(60000), std::chrono::milliseconds(20)), "");
      gr.dispatcher(); gr.director(); gr.lease(); gr.replicator();
      if(i) gr.spindown();
    }
  }, 1000);
  Configuration cfg;
  Configuration::fromString("redis.mode raft\nredis.myself me:3\nredis.database " + base + "/n\n", cfg);
  again("node", rounds, 2, [&](int) {
    for(int i = 0; i < 2; i++) {
      QuarkDBNode n(cfg, RaftTimeouts(std::chrono::milliseconds(50000), std::chrono::milliseconds(60000), std::chrono::milliseconds(20)));
      Client c(&n);
      c.ask({"PING"}); c.ask({"RAFT_INFO"}); c.ask({"SUBSCRIBE", "x"});
    }
  }, 1000);
  {
    ShardDirectory sd(base + "/n");
    sd.getStateMachine(); RaftJournal *j = sd.getRaftJournal();
    (void) j;
    again("snapshots", rounds, 4, [&](int r) {
      for(int i = 0; i < 4; i++) {
        std::string err;
        std::unique_ptr<ShardSnapshot> s = sd.takeSnapshot(SSTR("snap" << r << "-" << i), err);
        if(!s) { VF_FAIL("snapshot", "taking a snapshot failed: " << err); return; }
        std::string p = s->getPath();
        if(entries(p.c_str()) < 3) VF_FAIL("snapshot", "nothing in " << p);
        s.reset();
        struct stat st;
        if(stat(p.c_str(), &st) == 0) VF_FAIL("snapshot:left", "the snapshot " << p << " is still there after it was dropped");
      }
      size_t left = entries((base + "/n/temp-snapshots").c_str());
      if(left > 2) VF_FAIL("snapshot:left", left - 2 << " snapshots are left behind");
    }, 1000);
    // refused copies leave nothing either
    again("checkpoints", rounds, 3, [&](int r) {
      for(int i = 0; i < 3; i++) {
        std::string p = SSTR(base << "/cp" << r << "-" << i), err = sd.checkpoint(p);
        if(!err.empty()) { VF_FAIL("checkpoint", err); return; }
        if(sd.checkpoint(p).empty()) VF_FAIL("checkpoint", "a checkpoint over another one");
        if(sd.getStateMachine()->checkpoint(p).ok() || sd.getRaftJournal()->checkpoint(p).ok()) VF_FAIL("checkpoint", "a checkpoint over another one");
        if(sd.checkpoint(base + "/no/such/place").empty()) VF_FAIL("checkpoint", "a checkpoint in no place");
        removeTree(p);
      }
    }, 1000);
  }
  {
    StateMachine sm(base + "/sm");
    again("scans", rounds, 10, [&](int) { for(int i = 0; i < 10; i++) { ParanoidManifestChecker::checkDB(base + "/sm"); std::string d = sm.verifyChecksum().ToString(); (void) d; } }, 1000);
  }
  again("publisher", rounds, 20, [&](int) { for(int i = 0; i < 20; i++) Publisher p; });
}

// ---------------------------------------------------------------- leaderships
static void leader() {
  Rng g(ctx().seed);
  std::vector<std::unique_ptr<FakePeer>> peers;
  RaftServer me("me", 1);
  std::vector<RaftServer> nodes {me};
  for(int i = 0; i < 2; i++) { peers.emplace_back(new FakePeer()); nodes.push_back(peers.back()->srv()); }
  RaftNode n(freshDir("vf-leader") + "/n", nodes, me, RaftTimeouts(std::chrono::milliseconds(2000), std::chrono::milliseconds(3000), std::chrono::milliseconds(50)));
  n.d();
  { auto e = n.serialized(); for(auto &p : peers) { std::scoped_lock l(p->mtx); p->log = e; } }
  // peers keep what they are sent; what they hold is counted in
  again("elections", ctx().thorough ? 25 : 9, 4, [&](int) {
    for(int i = 0; i < 4; i++) {
      RaftStateSnapshotPtr s = n.st().getSnapshot();
      RaftVoteRequest q;
      q.term = s->term + 1; q.lastIndex = n.j().getLogSize() - 1;
      n.j().fetch(q.lastIndex, q.lastTerm);
      for(auto &p : peers) { std::scoped_lock l(p->mtx); p->preVote = i % 2 ? "granted" : "refused"; p->vote = i == 1 ? "granted" : "veto"; }
      RaftElection::performPreVote(q, n.st(), *n.g->contactDetails());
      n.st().observed(q.term, {});
      n.st().becomeCandidate(q.term);
      RaftElection::perform(q, n.st(), *n.g->lease(), *n.g->contactDetails());
      n.st().observed(q.term + 1, {});
    }
  }, 200);
  again("leaderships", ctx().thorough ? 20 : 8, 3, [&](int r) {
    for(int i = 0; i < 3; i++) {
      if(!n.ascend()) { VF_FAIL("leader:ascend", "could not become leader"); return; }
      n.activate();
      // one peer in trouble at times
      peers[0]->online = (r + i) % 4 != 0;
      Client c(&n.d());
      std::string o;
      for(int k = 0; k < 10; k++) o += enc({"SET", "k", std::to_string(k)});
      c.wire.arrive(o);
      c.step();
      if(!eventually([&] { c.collect(); return c.got.size() >= 10; }, 20000)) VF_FAIL("leader:writes", c.got.size() << " replies to 10 writes");
      if(i == 1) { c.wire.arrive(enc({"SET", "k", "unanswered"})); c.step(); }
      n.g->replicator()->deactivate();
      n.st().observed(n.st().getSnapshot()->term + 1, {});
      if(i == 2) c.hangup();
      peers[0]->online = true;
    }
    ctx().count("leaderships", 3);
  }, 4000, 30);      // the peers keep each entry
  // the same, without the entries kept by the journal and the peers
  again("replicator", ctx().thorough ? 20 : 9, 6, [&](int) {
    for(int i = 0; i < 6; i++) {
      RaftTerm t = n.st().getSnapshot()->term + 1;
      if(i == 5) { if(!n.ascend()) { VF_FAIL("leader:ascend", "could not become leader"); return; } n.activate(); std::this_thread::sleep_for(std::chrono::milliseconds(30)); n.g->replicator()->deactivate(); n.st().observed(n.st().getSnapshot()->term + 1, {}); }
      else n.st().observed(t, peers[i % 2]->srv());
    }
  }, 200, 5);        // the peers keep the entry that begins a term
  {
    if(!n.ascend()) { VF_FAIL("leader:ascend", "could not become leader"); return; }
    n.activate();
    again("a leader with nothing to do", 10, 1, [&](int) { std::this_thread::sleep_for(std::chrono::milliseconds(200)); }, 100);
    peers[0]->online = false;
    again("a leader that misses a peer", 12, 1, [&](int) { std::this_thread::sleep_for(std::chrono::milliseconds(300)); }, 100);
    peers[0]->online = true;
    n.g->replicator()->deactivate();
    n.st().observed(n.st().getSnapshot()->term + 1, {});
  }
  again("talkers", ctx().thorough ? 20 : 9, 20, [&](int) {
    for(int i = 0; i < 20; i++) { RaftTalker t(i % 4 ? peers[i % 2]->srv() : RaftServer("127.0.0.1", 1), *n.g->contactDetails(), "vf"); auto f = t.heartbeat(1, me); f.wait_for(std::chrono::milliseconds(i % 4 ? 500 : 5)); }
  });
}

// ---------------------------------------------------------------- disk space
static int64_t diskUse(const std::string &d, size_t *files = nullptr) {
  int64_t n = 0;
  DIR *x = opendir(d.c_str());
  while(struct dirent *e = x ? readdir(x) : nullptr) {
    std::string f = e->d_name;
    struct stat st;
    if(f.size() > 4 && f.substr(f.size() - 4) == ".sst" && stat((d + "/" + f).c_str(), &st) == 0) { n += st.st_size; if(files) (*files)++; }
  }
  if(x) closedir(x);
  return n;
}
static void space() {
  std::string dir = freshDir("vf-space") + "/sm";
  StateMachine sm(dir);
  Publisher pub;
  RedisDispatcher d(sm, pub);
  std::vector<int64_t> used;
  int rounds = ctx().thorough ? 30 : 10;
  Rng g(ctx().seed);
  const int keys = 60;
  for(int r = 0; r < rounds && !ctx().failed(); r++) {
    ctx().current("space, round " + std::to_string(r));
    auto run = [&](const Cmd &c) { RedisRequest q = req(c); return d.dispatch(q, 0).val; };
    // incompressible, overwritten in each round
    for(int i = 0; i < keys; i++) { Rng v(r * 1000 + i); run({"SET", "k" + std::to_string(i), v.bytes(4000)}); run({"HSET", "h", "f" + std::to_string(i), v.bytes(1000)}); run({"LHSET", "lh", "f" + std::to_string(i), "h", v.bytes(300)}); }
    for(int i = 0; i < 60; i++) {
      switch(g.below(12)) {
        case 0: run({"SCAN", "0", "COUNT", "10"}); break;
        case 1: run({"HSCAN", "h", "0", "COUNT", "7"}); break;
        case 2: run({"HGETALL", "h"}); break;
        case 3: run({"KEYS", "*"}); break;
        case 4: run({"LHSCAN", "lh", "0"}); break;
        case 5: { Transaction t; t.emplace_back("GET", "k1"); t.emplace_back("HGETALL", "h"); d.dispatch(t, 0); break; }
        case 6: { Transaction t; t.emplace_back("SET", "k1", g.bytes(4000)); t.emplace_back("GET", "k1"); t.emplace_back("HGET", "h", "f1"); d.dispatch(t, 0); break; }
        case 7: { StagingArea st(sm, true); std::string v; sm.get(st, "k1", v); break; }
        case 8: run({"GET", "h"}); run({"HSET", "k1", "f", "v"}); break;
        case 9: run({"RAW_SCAN", "a", "COUNT", "9"}); break;
        case 10: run({"HCLONE", "h", "k1"}); break;
        default: { StateMachine::IteratorPtr it = sm.getRawIterator(); it->SeekToFirst(); for(int k = 0; k < 5 && it->Valid(); k++) it->Next(); break; }
      }
      ctx().count("reads and transactions");
    }
    if(!sm.manualCompaction().ok()) VF_FAIL("space:compaction", "compaction failed");
    // obsolete files are deleted in the background
    int64_t u = 0;
    size_t files = 0;
    eventually([&] { size_t f = 0; int64_t a = diskUse(dir, &f); bool same = a == u; u = a; files = f; if(!same) std::this_thread::sleep_for(std::chrono::milliseconds(50)); return same; }, 3000);
    used.push_back(u);
    ctx().eval(SSTR("space" << r));
    ctx().count("compactions");
    (void) files;
  }
  std::string l;
  for(auto u : used) l += " " + std::to_string(u);
  ctx().sample("bytes on disk after each round of overwriting everything:" + l);
  int64_t data = keys * 5300;
  if(used.size() > 4 && used.back() > 3 * data + used[1]) VF_FAIL("space", "the same keys overwritten take more and more space, although compacted each time:" << l);
}

// ---------------------------------------------------------------- helpers
static void files() {
  std::string base = freshDir("vf-files");
  std::string err, c;
  write_file(base + "/f", "contents\n", err);
  chmod((base + "/f").c_str(), 0400);
  { std::string e; write_file(base + "/loose", "contents\n", e); chmod((base + "/loose").c_str(), 0644); }
  again("file helpers", 8, 50, [&](int r) {
    for(int i = 0; i < 50; i++) {
      std::string x, e;
      readFile(base + "/f", x); readFile(base + "/none", x); readFile(base, x);
      readPasswordFile(base + "/f", x); readPasswordFile(base + "/loose", x); readPasswordFile(base + "/none", x);
      write_file(base + "/w", "v", e); write_file(base + "/no/such", "v", e);
      fileExists(base + "/f", e); directoryExists(base, e); directoryExists(base + "/none", e);
      mkpath(base + "/d" + std::to_string(r % 3) + "/e/", 0755, e);
      DirectoryIterator it(base); for(int k = 0; k < i % 5 && it.next(); k++); DirectoryIterator no(base + "/none"); no.next();
    }
    if(fds() > 40) VF_FAIL("descriptors", fds() << " descriptors are open after " << r << " rounds:" << fdList());
  });
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  std::string m = ctx().arg("mode", "files");
  if(m == "clients") clients(false);
  else if(m == "clients-raft") clients(true);
  else if(m == "requests") requests(false);
  else if(m == "quiet") requests(true);
  else if(m == "reopen") reopen();
  else if(m == "leader") leader();
  else if(m == "space") space();
  else if(m == "files") files();
  else { fprintf(stderr, "VF-HARNESS-ERROR mode\n"); return 2; }
  return ctx().finish();
}
