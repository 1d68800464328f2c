// Clean-room stand-in for the qclient submodule, which is absent from this checkout.
// It implements only what QuarkDB's own sources use: a pipelining RESP client with
// connection handshakes, a RESP reply parser, and a TLS filter stand-in (see TlsFilter.hh).
#ifndef SHIM_QCLIENT_HH
#define SHIM_QCLIENT_HH

#include <atomic>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

#define REDIS_REPLY_STRING 1
#define REDIS_REPLY_ARRAY 2
#define REDIS_REPLY_INTEGER 3
#define REDIS_REPLY_NIL 4
#define REDIS_REPLY_STATUS 5
#define REDIS_REPLY_ERROR 6
#define REDIS_REPLY_PUSH 12

struct redisReply {
  int type = 0;
  long long integer = 0;
  size_t len = 0;
  char *str = nullptr;
  size_t elements = 0;
  redisReply **element = nullptr;

  std::string storage;
  std::vector<std::unique_ptr<redisReply>> children;
  std::vector<redisReply*> childPtrs;
};

namespace qclient {
using ::redisReply;


using redisReplyPtr = std::shared_ptr<redisReply>;
std::string describeRedisReply(const redisReplyPtr &reply);
std::string describeRedisReply(const redisReply *reply, const std::string &prefix = "");

//------------------------------------------------------------------------------
// Incremental RESP reply parser
//------------------------------------------------------------------------------
class ResponseBuilder {
public:
  enum class Status { kOk, kIncomplete, kProtocolError };
  void feed(const char *buff, size_t len) { data.append(buff, len); }
  void feed(const std::string &s) { data += s; }
  Status pull(redisReplyPtr &out);
  void restart() { data.clear(); pos = 0; }
  size_t leftover() const { return data.size() - pos; }
private:
  Status parse(size_t &cursor, redisReply &out, int depth);
  std::string data;
  size_t pos = 0;
};

class Members {
public:
  Members() {}
  Members(const std::string &host, int port) { entries.emplace_back(host, port); }
  void push_back(const std::string &host, int port) { entries.emplace_back(host, port); }
  std::vector<std::pair<std::string, int>> entries;
};

class Handshake {
public:
  enum class Status { INVALID, VALID_INCOMPLETE, VALID_COMPLETE };
  virtual ~Handshake() {}
  virtual std::vector<std::string> provideHandshake() = 0;
  virtual Status validateResponse(const redisReplyPtr &reply) = 0;
  virtual void restart() = 0;
  virtual std::unique_ptr<Handshake> clone() const = 0;
};

class SetClientNameHandshake : public Handshake {
public:
  SetClientNameHandshake(const std::string &n) : name(n) {}
  std::vector<std::string> provideHandshake() override { return {"CLIENT", "SETNAME", name}; }
  Status validateResponse(const redisReplyPtr &reply) override {
    return reply ? Status::VALID_COMPLETE : Status::INVALID;
  }
  void restart() override {}
  std::unique_ptr<Handshake> clone() const override { return std::unique_ptr<Handshake>(new SetClientNameHandshake(name)); }
private:
  std::string name;
};

class HmacAuthHandshake : public Handshake {
public:
  HmacAuthHandshake(const std::string &pw) : password(pw) {}
  std::vector<std::string> provideHandshake() override;
  Status validateResponse(const redisReplyPtr &reply) override;
  void restart() override { stage = 0; }
  std::unique_ptr<Handshake> clone() const override { return std::unique_ptr<Handshake>(new HmacAuthHandshake(password)); }
private:
  std::string password;
  int stage = 0;
  std::string challenge;
};

class RetryStrategy {
public:
  static RetryStrategy NoRetries() { return RetryStrategy(); }
};
class BackpressureStrategy {
public:
  static BackpressureStrategy Default() { return BackpressureStrategy(); }
};

class Logger;

class Options {
public:
  bool transparentRedirects = false;
  RetryStrategy retryStrategy;
  BackpressureStrategy backpressureStrategy;
  std::shared_ptr<Logger> logger;
  std::vector<std::unique_ptr<Handshake>> handshakes;

  void chainHandshake(std::unique_ptr<Handshake> h) { handshakes.emplace_back(std::move(h)); }
  void chainHmacHandshake(const std::string &pw) {
    if(!pw.empty()) handshakes.emplace_back(new HmacAuthHandshake(pw));
  }
};

std::string encodeRequest(const std::vector<std::string_view> &req);

//------------------------------------------------------------------------------
// Network faults between nodes, for harnesses: a policy is consulted before every
// connect and before every flush. It decides on (client name, host, port).
//------------------------------------------------------------------------------
struct LinkPolicy {
  bool blocked = false;
  int delayMs = 0;
};
using LinkPolicyFn = std::function<LinkPolicy(const std::string &name, const std::string &host, int port)>;
void setLinkPolicy(LinkPolicyFn fn);

//------------------------------------------------------------------------------
// Pipelining client, one event loop thread. No retries: a broken connection fails
// everything outstanding with a null reply, and it then reconnects.
//------------------------------------------------------------------------------
class QClient {
public:
  QClient(const std::string &host, int port, Options &&opts);
  ~QClient();
  QClient(const QClient&) = delete;

  template<typename Container>
  std::future<redisReplyPtr> execute(const Container &req) {
    std::vector<std::string_view> v;
    for(size_t i = 0; i < req.size(); i++) v.emplace_back(std::string_view(req[i].data(), req[i].size()));
    return submit(encodeRequest(v));
  }

  template<typename... Args>
  std::future<redisReplyPtr> exec(const Args&... args) {
    std::vector<std::string> v { std::string(args)... };
    return execute(v);
  }

private:
  std::future<redisReplyPtr> submit(std::string &&payload);
  void loop();
  bool connectAndHandshake();
  void failAll();
  bool waitReadable(int timeoutMs, bool &wake);

  std::string host, clientName;
  int port;
  Options options;
  int fd = -1;
  int wakePipe[2];
  std::mutex mtx;
  std::deque<std::pair<std::string, std::promise<redisReplyPtr>>> outgoing;
  std::deque<std::promise<redisReplyPtr>> inflight; // loop thread only
  std::atomic<bool> shutdown {false};
  ResponseBuilder builder;
  std::thread thread;
};

}

#include "TlsFilter.hh"
#endif
