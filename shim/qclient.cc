#include "qclient/QClient.hh"
#include "qclient/Logger.hh"
#include <arpa/inet.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include <poll.h>
#include <sys/socket.h>
#include <errno.h>

namespace qclient {

static std::mutex gPolicyMtx;
static std::shared_ptr<LinkPolicyFn> gPolicy;

void setLinkPolicy(LinkPolicyFn fn) {
  std::scoped_lock lock(gPolicyMtx);
  gPolicy = std::make_shared<LinkPolicyFn>(std::move(fn));
}

static LinkPolicy policyFor(const std::string &name, const std::string &host, int port) {
  std::shared_ptr<LinkPolicyFn> p;
  { std::scoped_lock lock(gPolicyMtx); p = gPolicy; }
  if(!p || !*p) return {};
  return (*p)(name, host, port);
}

std::string encodeRequest(const std::vector<std::string_view> &req) {
  std::string out = "*" + std::to_string(req.size()) + "\r\n";
  for(const auto &r : req) {
    out += "$" + std::to_string(r.size()) + "\r\n";
    out.append(r.data(), r.size());
    out += "\r\n";
  }
  return out;
}

std::string describeRedisReply(const redisReply *r, const std::string &prefix) {
  if(!r) return "nullptr";
  switch(r->type) {
    case REDIS_REPLY_NIL: return prefix + "(nil)";
    case REDIS_REPLY_INTEGER: return prefix + "(integer) " + std::to_string(r->integer);
    case REDIS_REPLY_ERROR: return prefix + "(error) " + std::string(r->str, r->len);
    case REDIS_REPLY_STATUS: return prefix + std::string(r->str, r->len);
    case REDIS_REPLY_STRING: {
      std::string out = prefix + "\"";
      for(size_t i = 0; i < r->len; i++) {
        unsigned char c = r->str[i];
        char b[8];
        if(c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof(b), "\\x%02X", c); out += b; }
        else out += c;
      }
      return out + "\"";
    }
    default: {
      if(r->elements == 0) return prefix + "(empty list or set)";
      std::string out;
      for(size_t i = 0; i < r->elements; i++) {
        if(i) out += "\n";
        out += prefix + std::to_string(i+1) + ") " + describeRedisReply(r->element[i], "");
      }
      return out;
    }
  }
}
std::string describeRedisReply(const redisReplyPtr &reply) { return describeRedisReply(reply.get()); }

static bool parseInt(const std::string &s, long long &out) {
  if(s.empty()) return false;
  size_t i = 0;
  if(s[0] == '-' || s[0] == '+') i = 1;
  if(i == s.size()) return false;
  for(size_t k = i; k < s.size(); k++) if(s[k] < '0' || s[k] > '9') return false;
  errno = 0;
  char *end;
  out = strtoll(s.c_str(), &end, 10);
  return errno == 0;
}

ResponseBuilder::Status ResponseBuilder::parse(size_t &cur, redisReply &out, int depth) {
  if(depth > 64) return Status::kProtocolError;
  if(cur >= data.size()) return Status::kIncomplete;
  char kind = data[cur];
  size_t eol = data.find("\r\n", cur);
  if(eol == std::string::npos) return Status::kIncomplete;
  std::string line = data.substr(cur + 1, eol - cur - 1);
  size_t next = eol + 2;
  long long n;

  switch(kind) {
    case '+': case '-': {
      out.type = (kind == '+') ? REDIS_REPLY_STATUS : REDIS_REPLY_ERROR;
      if(line.find('\n') != std::string::npos || line.find('\r') != std::string::npos) return Status::kProtocolError;
      out.storage = line; out.str = out.storage.data(); out.len = line.size();
      cur = next;
      return Status::kOk;
    }
    case ':': {
      if(!parseInt(line, n)) return Status::kProtocolError;
      out.type = REDIS_REPLY_INTEGER; out.integer = n; cur = next;
      return Status::kOk;
    }
    case '$': {
      if(!parseInt(line, n) || n < -1) return Status::kProtocolError;
      if(n == -1) { out.type = REDIS_REPLY_NIL; cur = next; return Status::kOk; }
      if(data.size() < next + (size_t) n + 2) return Status::kIncomplete;
      if(data.compare(next + n, 2, "\r\n") != 0) return Status::kProtocolError;
      out.type = REDIS_REPLY_STRING;
      out.storage = data.substr(next, n); out.str = out.storage.data(); out.len = n;
      cur = next + n + 2;
      return Status::kOk;
    }
    case '*': case '>': {
      if(!parseInt(line, n) || n < -1) return Status::kProtocolError;
      if(n == -1) { out.type = REDIS_REPLY_NIL; cur = next; return Status::kOk; }
      out.type = (kind == '*') ? REDIS_REPLY_ARRAY : REDIS_REPLY_PUSH;
      size_t c = next;
      for(long long i = 0; i < n; i++) {
        std::unique_ptr<redisReply> child(new redisReply());
        Status st = parse(c, *child, depth + 1);
        if(st != Status::kOk) return st;
        out.childPtrs.push_back(child.get());
        out.children.emplace_back(std::move(child));
      }
      out.elements = n; out.element = out.childPtrs.data();
      cur = c;
      return Status::kOk;
    }
    default: return Status::kProtocolError;
  }
}

ResponseBuilder::Status ResponseBuilder::pull(redisReplyPtr &out) {
  size_t cur = pos;
  redisReplyPtr tmp = std::make_shared<redisReply>();
  Status st = parse(cur, *tmp, 0);
  if(st == Status::kOk) {
    out = tmp;
    pos = cur;
    if(pos > 1024 * 1024 || pos == data.size()) { data.erase(0, pos); pos = 0; }
  }
  return st;
}

//------------------------------------------------------------------------------
// HMAC challenge handshake
//------------------------------------------------------------------------------
static std::string hmacSha256(const std::string &key, const std::string &msg) {
  unsigned char md[EVP_MAX_MD_SIZE];
  unsigned int len = 0;
  HMAC(EVP_sha256(), key.data(), key.size(), (const unsigned char*) msg.data(), msg.size(), md, &len);
  return std::string((const char*) md, len);
}

std::vector<std::string> HmacAuthHandshake::provideHandshake() {
  if(stage == 0) {
    std::string rnd(64, '\0');
    FILE *f = fopen("/dev/urandom", "rb");
    if(f) { if(fread(&rnd[0], 1, 64, f) != 64) rnd.assign(64, 'x'); fclose(f); }
    challenge = rnd;
    return {"HMAC-AUTH-GENERATE-CHALLENGE", rnd};
  }
  return {"HMAC-AUTH-VALIDATE-CHALLENGE", hmacSha256(password, challenge)};
}

Handshake::Status HmacAuthHandshake::validateResponse(const redisReplyPtr &reply) {
  if(!reply) return Status::INVALID;
  if(stage == 0) {
    if(reply->type != REDIS_REPLY_STRING) return Status::INVALID;
    challenge = std::string(reply->str, reply->len);
    stage = 1;
    return Status::VALID_INCOMPLETE;
  }
  if(reply->type != REDIS_REPLY_STATUS) return Status::INVALID;
  return Status::VALID_COMPLETE;
}

//------------------------------------------------------------------------------
// Client
//------------------------------------------------------------------------------
QClient::QClient(const std::string &h, int p, Options &&opts) : host(h), port(p), options(std::move(opts)) {
  for(auto &hs : options.handshakes) {
    if(auto *n = dynamic_cast<SetClientNameHandshake*>(hs.get())) { clientName = n->provideHandshake()[2]; }
  }
  if(pipe2(wakePipe, O_NONBLOCK | O_CLOEXEC) != 0) { perror("pipe2"); abort(); }
  thread = std::thread(&QClient::loop, this);
}

QClient::~QClient() {
  shutdown = true;
  (void)! write(wakePipe[1], "x", 1);
  thread.join();
  close(wakePipe[0]); close(wakePipe[1]);
}

std::future<redisReplyPtr> QClient::submit(std::string &&payload) {
  std::promise<redisReplyPtr> prom;
  std::future<redisReplyPtr> fut = prom.get_future();
  {
    std::scoped_lock lock(mtx);
    outgoing.emplace_back(std::move(payload), std::move(prom));
  }
  (void)! write(wakePipe[1], "x", 1);
  return fut;
}

void QClient::failAll() {
  if(fd >= 0) { close(fd); fd = -1; }
  builder.restart();
  std::deque<std::promise<redisReplyPtr>> tofail;
  tofail.swap(inflight);
  {
    std::scoped_lock lock(mtx);
    for(auto &o : outgoing) tofail.emplace_back(std::move(o.second));
    outgoing.clear();
  }
  for(auto &p : tofail) p.set_value(redisReplyPtr());
}

// wait until the socket is readable, or somebody woke us up
bool QClient::waitReadable(int timeoutMs, bool &wake) {
  struct pollfd pf[2];
  pf[0].fd = wakePipe[0]; pf[0].events = POLLIN; pf[0].revents = 0;
  pf[1].fd = fd; pf[1].events = POLLIN; pf[1].revents = 0;
  int rc = poll(pf, fd >= 0 ? 2 : 1, timeoutMs);
  wake = false;
  if(rc <= 0) return false;
  if(pf[0].revents) {
    char buf[512];
    while(read(wakePipe[0], buf, sizeof(buf)) > 0) {}
    wake = true;
  }
  return fd >= 0 && pf[1].revents;
}

static bool sendAll(int fd, const std::string &s, std::atomic<bool> &shutdown) {
  size_t off = 0;
  while(off < s.size()) {
    ssize_t rc = send(fd, s.data() + off, s.size() - off, MSG_NOSIGNAL);
    if(rc > 0) { off += rc; continue; }
    if(rc < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
      struct pollfd pf; pf.fd = fd; pf.events = POLLOUT; pf.revents = 0;
      poll(&pf, 1, 50);
      if(shutdown) return false;
      continue;
    }
    return false;
  }
  return true;
}

bool QClient::connectAndHandshake() {
  if(policyFor(clientName, host, port).blocked) return false;

  struct addrinfo hints, *res = nullptr;
  memset(&hints, 0, sizeof(hints));
  hints.ai_family = AF_UNSPEC;
  hints.ai_socktype = SOCK_STREAM;
  if(getaddrinfo(host.c_str(), std::to_string(port).c_str(), &hints, &res) != 0) return false;

  for(struct addrinfo *it = res; it && fd < 0; it = it->ai_next) {
    int s = socket(it->ai_family, it->ai_socktype | SOCK_NONBLOCK | SOCK_CLOEXEC, it->ai_protocol);
    if(s < 0) continue;
    int rc = connect(s, it->ai_addr, it->ai_addrlen);
    if(rc != 0 && errno == EINPROGRESS) {
      struct pollfd pf; pf.fd = s; pf.events = POLLOUT; pf.revents = 0;
      rc = -1;
      for(int i = 0; i < 20 && !shutdown; i++) {
        if(poll(&pf, 1, 50) > 0) {
          int err = 0; socklen_t l = sizeof(err);
          getsockopt(s, SOL_SOCKET, SO_ERROR, &err, &l);
          rc = err ? -1 : 0;
          break;
        }
      }
    }
    if(rc == 0) {
      int one = 1;
      setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
      fd = s;
    }
    else close(s);
  }
  freeaddrinfo(res);
  if(fd < 0) return false;

  builder.restart();
  char buf[4096];
  for(auto &hs : options.handshakes) {
    hs->restart();
    while(true) {
      std::vector<std::string> req = hs->provideHandshake();
      std::vector<std::string_view> v(req.begin(), req.end());
      if(!sendAll(fd, encodeRequest(v), shutdown)) return false;

      redisReplyPtr rep;
      ResponseBuilder::Status st;
      int waited = 0;
      while((st = builder.pull(rep)) == ResponseBuilder::Status::kIncomplete) {
        struct pollfd pf; pf.fd = fd; pf.events = POLLIN; pf.revents = 0;
        int rc = poll(&pf, 1, 50);
        if(shutdown) return false;
        if(rc == 0) { waited += 50; if(waited > 10000) return false; continue; }
        ssize_t n = recv(fd, buf, sizeof(buf), 0);
        if(n == 0 || (n < 0 && errno != EAGAIN)) return false;
        if(n > 0) builder.feed(buf, n);
      }
      if(st != ResponseBuilder::Status::kOk) return false;
      Handshake::Status hst = hs->validateResponse(rep);
      if(hst == Handshake::Status::INVALID) return false;
      if(hst == Handshake::Status::VALID_COMPLETE) break;
    }
  }
  return true;
}

void QClient::loop() {
  int backoff = 1;
  bool wake;
  std::vector<char> buf(256 * 1024);

  while(!shutdown) {
    if(fd < 0) {
      if(!connectAndHandshake()) {
        failAll();
        backoff = std::min(backoff * 2, 64);
        // sleep a little, but fail fast whatever is submitted meanwhile
        waitReadable(backoff, wake);
        if(wake) { usleep(2000); }
        failAll();
        continue;
      }
      backoff = 1;
    }

    // send whatever is outstanding
    std::string payload;
    {
      std::scoped_lock lock(mtx);
      while(!outgoing.empty()) {
        payload += outgoing.front().first;
        inflight.emplace_back(std::move(outgoing.front().second));
        outgoing.pop_front();
      }
    }
    LinkPolicy pol = policyFor(clientName, host, port);
    if(pol.blocked) { failAll(); continue; }
    if(!payload.empty()) {
      if(pol.delayMs > 0) usleep(pol.delayMs * 1000);
      if(!sendAll(fd, payload, shutdown)) { failAll(); continue; }
    }

    if(waitReadable(50, wake)) {
      ssize_t n = recv(fd, buf.data(), buf.size(), 0);
      if(n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) { failAll(); continue; }
      if(policyFor(clientName, host, port).blocked) { failAll(); continue; }
      if(n > 0) builder.feed(buf.data(), n);
      redisReplyPtr rep;
      ResponseBuilder::Status st;
      bool bad = false;
      while((st = builder.pull(rep)) != ResponseBuilder::Status::kIncomplete) {
        if(st == ResponseBuilder::Status::kProtocolError || inflight.empty()) { bad = true; break; }
        inflight.front().set_value(rep);
        inflight.pop_front();
      }
      if(bad) failAll();
    }
  }
  failAll();
}

}
