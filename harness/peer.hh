// A client connected to a real Connection through a socket pair; replies are decoded strictly.
#ifndef VF_PEER_HH
#define VF_PEER_HH
#include "qdb.hh"
#include "resp.hh"
#include "Connection.hh"
#include "Link.hh"
#include "utils/InFlightTracker.hh"
#include <poll.h>
#include <sys/socket.h>
#include <deque>

namespace vf {

inline std::string wire(const std::vector<std::string> &c) {
  std::string o = "*" + std::to_string(c.size()) + "\r\n";
  for(auto &a : c) o += "$" + std::to_string(a.size()) + "\r\n" + a + "\r\n";
  return o;
}

struct Peer {
  int fd = -1;
  std::unique_ptr<quarkdb::Link> link;
  std::unique_ptr<quarkdb::Connection> conn;
  std::string rx;
  std::deque<resp::Val> got;
  bool malformed = false, eof = false;
  uint64_t received = 0;

  Peer() {
    int p[2];
    if(socketpair(AF_UNIX, SOCK_STREAM, 0, p) != 0) { fprintf(stderr, "VF-HARNESS-ERROR socketpair\n"); _exit(2); }
    fd = p[0];
    int sz = 4 << 20;
    setsockopt(p[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
    setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
    link.reset(new quarkdb::Link(p[1]));
    conn.reset(new quarkdb::Connection(link.get()));
    fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
  }
  ~Peer() { hangup(); if(fd >= 0) close(fd); }
  void hangup() { conn.reset(); link.reset(); }

  // bytes sent by the client
  bool send(const std::string &s) {
    size_t off = 0;
    while(off < s.size()) {
      ssize_t n = ::send(fd, s.data() + off, s.size() - off, MSG_NOSIGNAL);
      if(n < 0) { if(errno == EAGAIN) return false; return false; }
      off += n;
    }
    return true;
  }

  // take what has arrived, waiting up to ms for something
  void pump(int ms = 0) {
    char buf[65536];
    if(ms) { struct pollfd p = {fd, POLLIN, 0}; poll(&p, 1, ms); }
    while(true) {
      ssize_t n = ::recv(fd, buf, sizeof(buf), 0);
      if(n == 0) { eof = true; break; }
      if(n < 0) break;
      rx.append(buf, n);
      received += n;
    }
    size_t pos = 0;
    while(pos < rx.size() && !malformed) {
      resp::Val v;
      int rc = resp::decode(rx, pos, v);
      if(rc < 0) malformed = true;
      if(rc != 1) break;
      got.push_back(std::move(v));
    }
    rx.erase(0, pos);
  }
  // wait until n replies have arrived
  bool await(size_t n, int ms = 20000) {
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    pump();
    while(got.size() < n && !malformed && !eof && std::chrono::steady_clock::now() < end) pump(50);
    return got.size() >= n;
  }
  resp::Val take() { resp::Val v = got.front(); got.pop_front(); return v; }
};

}
#endif
