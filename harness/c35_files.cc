// C35: file helpers against what the file system itself says, with injected write failures.
#include "qdb.hh"
#include "utils/FileUtils.hh"
#include "utils/DirectoryIterator.hh"
#include "Status.hh"
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <sys/resource.h>
using namespace vf;
using namespace quarkdb;

static std::string slurp(const std::string &p, bool &ok) {
  int fd = open(p.c_str(), O_RDONLY);
  ok = fd >= 0;
  std::string o;
  if(!ok) return o;
  char b[65536];
  ssize_t n;
  while((n = read(fd, b, sizeof(b))) > 0) o.append(b, n);
  ok = n == 0;
  close(fd);
  return o;
}
static void spit(const std::string &p, const std::string &d) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  size_t off = 0;
  while(off < d.size()) { ssize_t n = write(fd, d.data() + off, d.size() - off); if(n <= 0) { fprintf(stderr, "VF-HARNESS-ERROR spit\n"); _exit(2); } off += n; }
  close(fd);
}
// every path below p with its type, mode and content hash
static void tree(const std::string &p, const std::string &rel, std::map<std::string, std::string> &out) {
  DIR *d = opendir(p.c_str());
  if(!d) return;
  while(dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if(n == "." || n == "..") continue;
    struct stat sb;
    if(lstat((p + "/" + n).c_str(), &sb) != 0) continue;
    bool ok;
    std::string c = S_ISREG(sb.st_mode) ? slurp(p + "/" + n, ok) : "";
    out[rel + "/" + n] = std::to_string(sb.st_mode) + ":" + std::to_string(c.size()) + ":" + std::to_string(hash64(c));
    if(S_ISDIR(sb.st_mode)) tree(p + "/" + n, rel + "/" + n, out);
  }
  closedir(d);
}
static std::map<std::string, std::string> tree(const std::string &p) { std::map<std::string, std::string> o; tree(p, "", o); return o; }

static std::string content(Rng &r) {
  static const size_t sizes[] = {0, 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 65536, 100000};
  size_t n = r.chance(70) ? sizes[r.below(16)] : r.below(300000);
  std::string s;
  if(r.chance(10)) s.assign(n, '\0');
  else for(size_t i = 0; i < n; i += 8) { uint64_t v = r.next(); s.append((char*) &v, std::min<size_t>(8, n - i)); }
  return s;
}

static void readWrite(Rng &r, const std::string &dir) {
  std::string p = dir + "/f" + std::to_string(r.below(4));
  std::string data = content(r);
  ctx().current("write_file/readFile of " + std::to_string(data.size()) + " bytes");
  bool limited = r.chance(35);
  size_t limit = r.below(data.size() + data.size() / 3 + 2);
  struct rlimit old, now;
  getrlimit(RLIMIT_FSIZE, &old);
  now = old;
  std::string err;
  bool ok;
  auto before = tree(dir);
  if(limited) { now.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &now); }
  ok = write_file(p, data, err);
  if(limited) setrlimit(RLIMIT_FSIZE, &old);
  bool rd;
  std::string real = slurp(p, rd);
  if(ok) VF_CHECK(rd && real == data, "files:write", "write_file of " << data.size() << " bytes" << (limited ? " under a file size limit of " + std::to_string(limit) : "")
                  << " reported success, but the file holds " << real.size() << " bytes" << (real.size() == data.size() ? " which differ" : ""));
  else {
    VF_CHECK(limited && limit < data.size(), "files:write-refused", "write_file of " << data.size() << " bytes failed without a reason: " << err);
    VF_CHECK(!err.empty(), "files:write-noerr", "write_file failed without an error message");
  }
  auto after = tree(dir);
  std::string name = p.substr(dir.size());
  for(auto &e : before) if(e.first != name) VF_CHECK(after.count(e.first) && after[e.first] == e.second, "files:write-other", "write_file changed " << e.first);
  for(auto &e : after) if(e.first != name) VF_CHECK(before.count(e.first), "files:write-other", "write_file created " << e.first);
  std::string back = "stale";
  bool rok = readFile(p, back);
  VF_CHECK(rok && back == real, "files:read", "readFile of a file of " << real.size() << " bytes: " << rok << ", " << back.size() << " bytes");
  // through a stream which is not at its start
  FILE *f = fopen(p.c_str(), "rb");
  size_t skip = r.below(real.size() + 1);
  if(f) {
    fseek(f, skip, SEEK_SET);
    std::string rest = "stale";
    bool fok = readFile(f, rest);
    VF_CHECK(fok && rest == real.substr(skip), "files:read-stream", "readFile(FILE*) from offset " << skip << " of " << real.size() << ": " << fok << ", " << rest.size() << " bytes");
    fclose(f);
  }
  // ... or which cannot be read
  f = fopen(p.c_str(), "ab");
  if(f) {
    std::string rest;
    VF_CHECK(!readFile(f, rest), "files:read-error", "readFile succeeded on a stream open for writing only");
    fclose(f);
  }
  ctx().eval("rw:" + std::to_string(data.size() % 1024 == 0) + std::to_string(std::min<size_t>(data.size() / 512, 20)) + (limited ? "L" : "") + (ok ? "1" : "0"));
  ctx().count(ok ? "writes_ok" : "writes_failed");
  std::string die;
  if(limited) setrlimit(RLIMIT_FSIZE, &now);
  bool thrown = throws([&] { write_file_or_die(p, data); }, &die);
  if(limited) setrlimit(RLIMIT_FSIZE, &old);
  VF_CHECK(thrown == !ok, "files:write_or_die", "write_file_or_die " << (thrown ? "threw" : "did not throw") << " where write_file " << (ok ? "succeeded" : "failed"));
  if(r.chance(30)) unlink(p.c_str());
}

static void badPaths(Rng &r, const std::string &dir) {
  std::string err, c;
  std::vector<std::string> bad = {dir + "/nodir/x", dir, dir + "/", "", dir + "/f0/x"};
  for(auto &p : bad) {
    err.clear();
    ctx().current("bad path " + p);
    VF_CHECK(!write_file(p, "x", err) && !err.empty(), "files:badwrite", "write_file to '" << p << "' claims success or gives no reason");
    VF_CHECK(throws([&] { write_file_or_die(p, "x"); }), "files:badwrite", "write_file_or_die to '" << p << "' did not throw");
    VF_CHECK(!readFile(p, c), "files:badread", "readFile of '" << p << "' claims success");
    VF_CHECK(!readPasswordFile(p, c), "files:badread", "readPasswordFile of '" << p << "' claims success");
  }
  ctx().eval("badpaths");
}

static void passwords(Rng &r, const std::string &dir) {
  static const std::string ws = " \t\n\r\f\v";
  std::string body;
  for(int n = r.below(5); n > 0; n--) { body += r.bytes(20); if(r.chance(30)) body += ws[r.below(6)]; }
  if(r.chance(10)) body = std::string(1024, 'x');
  if(r.chance(10)) body.clear();
  for(int n = r.below(6); n > 0; n--) body += ws[r.below(6)];
  std::string p = dir + "/pw";
  unlink(p.c_str());
  spit(p, body);
  mode_t m = r.chance(50) ? 0400 : r.chance(30) ? (0400 | (1 << r.below(9))) : r.below(01000);
  chmod(p.c_str(), m);
  ctx().current("password file mode " + std::to_string(m));
  std::string got = "stale";
  bool ok = readPasswordFile(p, got);
  VF_CHECK(ok == (m == 0400), "files:pw-mode", "password file with mode " << std::oct << m << std::dec << (ok ? " accepted" : " refused"));
  if(ok) {
    std::string want = body;
    while(!want.empty() && ws.find(want.back()) != std::string::npos) want.pop_back();
    VF_CHECK(got == want, "files:pw-content", "password file '" << esc(body) << "' read as '" << esc(got) << "'");
  }
  bool rd;
  VF_CHECK(slurp(p, rd) == body, "files:pw-changed", "reading a password file changed it");
  ctx().eval("pw:" + std::to_string(m) + ":" + std::to_string(body.size() / 10));
}

static void permissions() {
  for(mode_t type : {(mode_t) 0, (mode_t) S_IFREG})
    for(mode_t m = 0; m < 01000; m++) {
      VF_CHECK(areFilePermissionsSecure(type | m) == (m == 0400), "files:perm", "areFilePermissionsSecure(" << std::oct << (type | m) << ") = " << areFilePermissionsSecure(type | m));
      ctx().eval("perm:" + std::to_string(m));
    }
}

static void mkpaths(Rng &r, const std::string &dir) {
  auto before = tree(dir);
  std::string path = dir, cur;
  std::vector<std::string> levels;    // which must exist afterwards
  int depth = 1 + r.below(5);
  bool blocked = false;
  for(int i = 0; i < depth; i++) {
    path += r.chance(10) ? "//" : "/";
    path += std::string(1, 'a' + r.below(3)) + (r.chance(10) ? " x" : "");
    levels.push_back(path);
  }
  bool slash = r.chance(60);
  if(slash) path += "/";
  else levels.pop_back();            // the last component is a file name then
  // a file in the way of a level which is not the last one
  for(size_t i = 0; i + 1 < levels.size(); i++) { struct stat sb; if(stat(levels[i].c_str(), &sb) == 0 && !S_ISDIR(sb.st_mode)) blocked = true; }
  if(!levels.empty()) { struct stat sb; if(stat(levels.back().c_str(), &sb) == 0 && !S_ISDIR(sb.st_mode)) return; }
  mode_t mode = r.chance(50) ? 0755 : 0700;
  mode_t um = umask(0);
  std::string err;
  ctx().current("mkpath " + path);
  bool die = r.chance(30), ok;
  if(die) ok = !throws([&] { mkpath_or_die(path, mode); });
  else ok = mkpath(path, mode, err);
  umask(um);
  VF_CHECK(ok == !blocked, "files:mkpath-result", "mkpath(" << path << ") = " << ok << ": " << err);
  if(!ok && !die) VF_CHECK(!err.empty(), "files:mkpath-noerr", "mkpath failed without a message");
  auto after = tree(dir);
  for(auto &e : before) VF_CHECK(after.count(e.first) && after[e.first] == e.second, "files:mkpath-changed", "mkpath(" << path << ") changed or removed " << e.first);
  std::set<std::string> want;
  if(ok) for(auto &l : levels) {
    std::string n = l.substr(dir.size());
    size_t q;
    while((q = n.find("//")) != std::string::npos) n.erase(q, 1);
    want.insert(n);
    VF_CHECK(after.count(n), "files:mkpath-missing", "mkpath(" << path << ") succeeded but " << n << " does not exist");
    if(after.count(n) && !before.count(n)) VF_CHECK(strtol(after[n].c_str(), nullptr, 10) == (long) (S_IFDIR | mode), "files:mkpath-mode", "mkpath(" << path << ") created " << n << " with mode " << std::oct << strtol(after[n].c_str(), nullptr, 10));
  }
  if(ok) for(auto &e : after) if(!before.count(e.first)) VF_CHECK(want.count(e.first), "files:mkpath-extra", "mkpath(" << path << ") also created " << e.first);
  ctx().eval("mkpath:" + std::to_string(levels.size()) + (slash ? "/" : "") + (ok ? "1" : "0") + std::to_string(after.size() - before.size()));
}

static void randomTree(Rng &r, const std::string &p, int depth, size_t &files, std::set<std::string> &names) {
  int n = r.below(depth == 3 ? 40 : 7);
  for(int i = 0; i < n; i++) {
    std::string name = r.chance(15) ? "." + std::to_string(i) : r.chance(10) ? std::string("..") + std::to_string(i) : r.chance(10) ? std::to_string(i) + std::string(150, 'n') : "e" + std::to_string(i);
    std::string q = p + "/" + name;
    names.insert(name);
    std::set<std::string> sub;
    switch(r.below(6)) {
      case 0: case 1: mkdir(q.c_str(), 0755); if(depth > 0) randomTree(r, q, depth - 1, files, sub); break;
      case 2: if(symlink(r.chance(50) ? "/" : "nowhere", q.c_str()) == 0) files++; break;
      case 3: if(mkfifo(q.c_str(), 0644) == 0) files++; break;
      default: spit(q, "x"); files++;
    }
  }
}

static void listing(Rng &r, const std::string &dir) {
  std::string root = dir + "/t";
  std::string cmd = "rm -rf -- '" + root + "'";
  if(root.find("/vf-") == std::string::npos) abort();
  (void)! system(cmd.c_str());
  mkdir(root.c_str(), 0755);
  size_t files = 0;
  std::set<std::string> names;
  randomTree(r, root, 3, files, names);
  ctx().current("listing " + std::to_string(names.size()) + " entries");
  DirectoryIterator it(root);
  std::map<std::string, int> seen;
  VF_CHECK(it.ok() && !it.eof() && it.err().empty(), "files:iter-start", "a fresh DirectoryIterator is not ok or at its end: " << it.err());
  while(dirent *e = it.next()) { seen[e->d_name]++; VF_CHECK(it.ok() && !it.eof(), "files:iter-eof", "DirectoryIterator at its end while returning entries"); }
  VF_CHECK(it.ok() && it.eof(), "files:iter-end", "DirectoryIterator not at its end: ok " << it.ok() << " eof " << it.eof() << " " << it.err());
  VF_CHECK(!it.next() && !it.next() && it.eof(), "files:iter-end", "DirectoryIterator continues after its end");
  seen.erase("."); seen.erase("..");
  VF_CHECK(seen.size() == names.size(), "files:iter-set", "DirectoryIterator returned " << seen.size() << " of " << names.size() << " entries");
  for(auto &s : seen) VF_CHECK(s.second == 1 && names.count(s.first), "files:iter-set", "DirectoryIterator returned '" << s.first << "' " << s.second << " times");
  size_t n = 99999;
  std::string err;
  bool ok = countFilesInDirectoryRecursively(root, err, n);
  VF_CHECK(ok && n == files, "files:count", "countFilesInDirectoryRecursively = " << ok << ", " << n << " where there are " << files << " files: " << err);
  ctx().eval("list:" + std::to_string(names.size()) + ":" + std::to_string(files));
  // existence tests on each entry
  for(auto &name : names) {
    std::string q = root + "/" + name, e1, e2;
    struct stat sb;
    bool there = stat(q.c_str(), &sb) == 0;
    bool d = directoryExists(q, e1), f = fileExists(q, e2);
    VF_CHECK(d == (there && S_ISDIR(sb.st_mode)), "files:exists", "directoryExists(" << q << ") = " << d);
    VF_CHECK(f == (there && S_ISREG(sb.st_mode)), "files:exists", "fileExists(" << q << ") = " << f);
    VF_CHECK(d || !e1.empty(), "files:exists-noerr", "directoryExists gives no reason");
    VF_CHECK(f || !e2.empty(), "files:exists-noerr", "fileExists gives no reason");
    VF_CHECK(d == e1.empty() && f == e2.empty(), "files:exists-err", "an error message on success");
  }
  for(std::string bad : {root + "/absent", root + "/absent/deeper", std::string("")}) {
    std::string e1, e2, e3;
    size_t k;
    VF_CHECK(!directoryExists(bad, e1) && !fileExists(bad, e2) && !e1.empty() && !e2.empty(), "files:exists", "existence tests on '" << bad << "'");
    DirectoryIterator b(bad);
    VF_CHECK(!b.ok() && !b.err().empty() && !b.next(), "files:iter-bad", "DirectoryIterator on '" << bad << "' reports no error");
    VF_CHECK(!countFilesInDirectoryRecursively(bad, e3, k) && !e3.empty(), "files:count-bad", "countFilesInDirectoryRecursively on '" << bad << "' reports no error");
  }
  // an unreadable level below must be reported, not skipped: a directory which disappears is the
  // only such case for root
  ctx().count("entries_listed", names.size());
}

static void renames(Rng &r, const std::string &dir) {
  std::string a = dir + "/ra", b = dir + "/rb";
  if(a.find("/vf-") == std::string::npos) abort();
  (void)! system(("rm -rf -- '" + a + "' '" + b + "'").c_str());
  int srcKind = r.below(3), dstKind = r.below(4);    // src: none, dir, file; dst: none, empty dir, full dir, file
  if(srcKind == 1) { mkdir(a.c_str(), 0755); spit(a + "/x", "payload"); mkdir((a + "/d").c_str(), 0700); }
  if(srcKind == 2) spit(a, "file");
  if(dstKind == 1 || dstKind == 2) mkdir(b.c_str(), 0755);
  if(dstKind == 2) spit(b + "/y", "old");
  if(dstKind == 3) spit(b, "old");
  auto ta = tree(a), tb = tree(b), whole = tree(dir);
  ctx().current("rename " + std::to_string(srcKind) + std::to_string(dstKind));
  bool ok = !throws([&] { rename_directory_or_die(a, b); });
  bool want = srcKind == 1 && dstKind < 2;
  VF_CHECK(ok == want, "files:rename", "rename_directory_or_die with source kind " << srcKind << ", destination kind " << dstKind << (ok ? " succeeded" : " threw"));
  struct stat sb;
  if(ok) VF_CHECK(tree(b) == ta && lstat(a.c_str(), &sb) != 0, "files:rename", "rename_directory_or_die did not move the tree as it was");
  else VF_CHECK(tree(dir) == whole, "files:rename", "a failed rename changed something");
  ctx().eval("rename:" + std::to_string(srcKind) + std::to_string(dstKind));
}

static void joins(Rng &r) {
  auto part = [&] { std::string s; for(int n = r.below(5); n > 0; n--) s += "/ab."[r.below(4)]; return s; };
  std::string a = part(), b = part();
  std::string got = pathJoin(a, b);
  std::string want = a.empty() ? "/" + b : b.empty() ? a : a.back() == '/' ? a + b : a + "/" + b;
  VF_CHECK(got == want, "files:join", "pathJoin('" << a << "', '" << b << "') = '" << got << "'");
  ctx().eval("join:" + a + "|" + b);
}

static void filesystems(const std::string &dir) {
  spit(dir + "/fs", "x");
  VF_CHECK(ensureSameFilesystem(dir, dir + "/fs").ok(), "files:samefs", "a directory and a file in it are said to be on different file systems");
  VF_CHECK(!ensureSameFilesystem(dir, dir + "/absent").ok() && !ensureSameFilesystem(dir + "/absent", dir).ok(), "files:samefs", "a missing path is said to be on the same file system");
  struct stat a, b;
  for(const char *o : {"/proc", "/dev", "/sys", "/dev/shm", "/tmp", "/"})
    if(stat(dir.c_str(), &a) == 0 && stat(o, &b) == 0) {
      bool same = a.st_dev == b.st_dev;
      VF_CHECK(ensureSameFilesystem(dir, o).ok() == same && ensureSameFilesystem(o, dir).ok() == same, "files:samefs", "ensureSameFilesystem(" << dir << ", " << o << ") is not " << same);
      ctx().eval(std::string("fs:") + o);
    }
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet();
  signal(SIGXFSZ, SIG_IGN);
  std::string rw = freshDir("rw"), mk = freshDir("mk"), ls = freshDir("ls"), pw = freshDir("pw"), rn = freshDir("rn");
  Rng r(ctx().seed);
  permissions();
  filesystems(rw);
  for(int i = 0; i < ctx().n(600); i++) readWrite(r, rw);
  spit(rw + "/f0", "x");
  badPaths(r, rw);
  for(int i = 0; i < ctx().n(1500); i++) passwords(r, pw);
  for(int i = 0; i < ctx().n(600); i++) {
    if(i % 20 == 0) { mk = freshDir("mk"); spit(mk + "/b", "in the way"); }
    mkpaths(r, mk);
  }
  for(int i = 0; i < ctx().n(60); i++) listing(r, ls);
  for(int i = 0; i < ctx().n(100); i++) renames(r, rn);
  for(int i = 0; i < ctx().n(3000); i++) joins(r);
  ctx().sample("600 files written, re-read and compared, a third under a file size limit; every permission mode; random trees listed");
  return ctx().finish();
}
