// Helpers that need QuarkDB headers.
#ifndef VF_QDB_HH
#define VF_QDB_HH
#include "vf.hh"
#include "Utils.hh"
#include "RedisRequest.hh"
#include <rocksdb/db.h>
#include <streambuf>

namespace vf {

struct NullBuf : public std::streambuf {
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

// QuarkDB logs to std::cerr: drop that. Sanitizers write to fd 2 directly.
inline void quiet() {
  quarkdb::setStacktraceOnError(false);
  if(getenv("VF_VERBOSE")) return;
  static NullBuf *nb = new NullBuf();
  std::cerr.rdbuf(nb);
}

// did f() throw a FatalException?
template<typename F>
inline bool throws(F f, std::string *what = nullptr) {
  try { f(); }
  catch(const quarkdb::FatalException &e) { if(what) *what = e.what(); return true; }
  return false;
}

inline std::string show(const quarkdb::RedisRequest &r) {
  std::string o = "[";
  for(size_t i = 0; i < r.size(); i++) o += (i ? ", '" : "'") + esc(std::string_view(r[i].data(), r[i].size()), 60) + "'";
  return o + "]";
}

inline quarkdb::RedisRequest req(const std::vector<std::string> &v) {
  quarkdb::RedisRequest r;
  for(auto &s : v) r.emplace_back(std::string(s));
  return r;
}

inline std::string show(const std::vector<std::string> &v) {
  std::string o = "[";
  for(size_t i = 0; i < v.size(); i++) o += (i ? ", '" : "'") + esc(v[i], 60) + "'";
  return o + "]";
}

// every raw record of a database (closed by its owner)
inline std::map<std::string, std::string> dumpRaw(const std::string &path) {
  std::map<std::string, std::string> out;
  rocksdb::DB *db = nullptr;
  rocksdb::Options o;
  o.create_if_missing = false;
  rocksdb::Status st = rocksdb::DB::OpenForReadOnly(o, path, &db);
  if(!st.ok()) { fprintf(stderr, "VF-HARNESS-ERROR cannot open %s: %s\n", path.c_str(), st.ToString().c_str()); _exit(2); }
  rocksdb::ReadOptions ro; ro.total_order_seek = true;
  std::unique_ptr<rocksdb::Iterator> it(db->NewIterator(ro));
  for(it->SeekToFirst(); it->Valid(); it->Next()) out[it->key().ToString()] = it->value().ToString();
  it.reset();
  delete db;
  return out;
}

}
#endif
