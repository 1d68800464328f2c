// Stand-in for qclient's TLS filter: an involutive byte transform instead of TLS,
// so that a harness can tell bytes which went through the filter from bytes which
// bypassed it.
#ifndef SHIM_QCLIENT_TLSFILTER_HH
#define SHIM_QCLIENT_TLSFILTER_HH
#include <functional>
#include <string>
namespace qclient {

using LinkStatus = int;

struct TlsConfig {
  bool active = false;
  std::string certificatePath, keyPath;
  std::string certificate, key;
};

enum class FilterType { CLIENT, SERVER };

struct RecvStatus {
  RecvStatus(bool alive, int err, int bytes) : connectionAlive(alive), errcode(err), bytesRead(bytes) {}
  RecvStatus() {}
  bool connectionAlive = false;
  int errcode = 0;
  int bytesRead = 0;
};

using RecvFunction = std::function<RecvStatus(char *buff, int blen, int timeout)>;
using SendFunction = std::function<LinkStatus(const char *buff, int blen)>;

class TlsFilter {
public:
  static const char kMask = 0x5A;
  TlsFilter(const TlsConfig &cfg, FilterType, RecvFunction rcv, SendFunction snd)
  : config(cfg), recvFn(rcv), sendFn(snd) {}

  RecvStatus recv(char *buff, int blen, int timeout) {
    RecvStatus st = recvFn(buff, blen, timeout);
    for(int i = 0; i < st.bytesRead; i++) buff[i] ^= kMask;
    return st;
  }
  LinkStatus send(const char *buff, int blen) {
    std::string tmp(buff, blen);
    for(char &c : tmp) c ^= kMask;
    return sendFn(tmp.data(), blen);
  }
  LinkStatus close(int) { closed = true; return 1; }
  bool closed = false;
private:
  TlsConfig config;
  RecvFunction recvFn;
  SendFunction sendFn;
};

}
#endif
