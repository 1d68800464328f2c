// A link whose incoming bytes the harness hands out piece by piece, and whose outgoing bytes it collects.
#ifndef VF_WIRELINK_HH
#define VF_WIRELINK_HH
#include "qdb.hh"
#include "Link.hh"
#include <deque>
#include <mutex>

namespace vf {

struct WireLink : public XrdLink {
  std::mutex mtx;
  std::deque<std::string> in;      // chunks that have arrived
  std::string out;                 // what was sent
  bool closed = false;             // the peer is gone
  bool closedByServer = false;
  std::string host = "client.example";
  size_t off = 0;                  // of the first chunk already read
  uint64_t pulled = 0, sent = 0;
  std::function<std::string()> source;   // endless input

  void arrive(std::string s) { std::scoped_lock l(mtx); if(!s.empty()) in.push_back(std::move(s)); }
  int Recv(char *buff, int blen, int) override {
    std::scoped_lock l(mtx);
    if(in.empty() && source) { std::string s = source(); if(!s.empty()) in.push_back(std::move(s)); }
    if(in.empty()) return closed ? -1 : 0;
    int n = 0;
    while(n < blen && !in.empty()) {
      std::string &f = in.front();
      size_t k = std::min<size_t>(f.size() - off, blen - n);
      memcpy(buff + n, f.data() + off, k);
      n += k;
      off += k;
      if(off == f.size()) { in.pop_front(); off = 0; }
    }
    pulled += n;
    return n;
  }
  int Send(const char *buff, int blen) override { std::scoped_lock l(mtx); if(closed) return -1; out.append(buff, blen); sent += blen; return blen; }
  int Close(int) override { std::scoped_lock l(mtx); closedByServer = true; return 0; }
  const char* Host() const override { return host.c_str(); }
  std::string take() { std::scoped_lock l(mtx); std::string o; o.swap(out); return o; }
};

}
#endif
