From ac68f8bc1da6709940ded9e136f0aff6bf23098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 01/71] fix: RaftJournal::fetch_last returned made-up entries
 below the log start

Asking for more entries than the journal still holds appended one default
constructed entry (with an uninitialized term) per trimmed index, and
counts beyond 32 bits were truncated.
---
 src/raft/RaftJournal.cc | 4 ++--
 src/raft/RaftJournal.hh | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index c695972..ac8c243 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -586,10 +586,10 @@ rocksdb::Status RaftJournal::fetch(LogIndex index, RaftSerializedEntry &data) {
   return db->Get(rocksdb::ReadOptions(), encodeEntryKey(index), &data);
 }
 
-void RaftJournal::fetch_last(int last, std::vector<RaftEntry> &entries) {
+void RaftJournal::fetch_last(int64_t last, std::vector<RaftEntry> &entries) {
   LogIndex endIndex = logSize;
   LogIndex startIndex = endIndex - last;
-  if(startIndex < 0) startIndex = 0;
+  if(startIndex < logStart) startIndex = logStart;
 
   for(LogIndex index = startIndex; index < endIndex; index++) {
     RaftEntry entry;
diff --git a/src/raft/RaftJournal.hh b/src/raft/RaftJournal.hh
index 430ab3a..33f0f67 100644
--- a/src/raft/RaftJournal.hh
+++ b/src/raft/RaftJournal.hh
@@ -71,7 +71,7 @@ public:
   rocksdb::Status fetch(LogIndex index, RaftEntry &entry);
   rocksdb::Status fetch(LogIndex index, RaftTerm &term);
   rocksdb::Status fetch(LogIndex index, RaftSerializedEntry &data);
-  void fetch_last(int lastEntries, std::vector<RaftEntry> &entry);
+  void fetch_last(int64_t lastEntries, std::vector<RaftEntry> &entry);
 
   void fetch_or_die(LogIndex index, RaftEntry &entry);
   void fetch_or_die(LogIndex index, RaftTerm &term);
-- 
2.43.0


From a3b10a4dfc8e4556491bb470fba75b71759e900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 02/71] fix: number parsing accepted empty text, refused the
 extreme integers, relied on a trailing null

An empty argument counted as zero, NaN was accepted as an increment, and
INT64_MIN / INT64_MAX could be stored by HINCRBY but never parsed again.
A string_view which is not followed by a null could be read past its end.
---
 src/Utils.cc            | 12 ++++++++----
 src/utils/ParseUtils.hh | 13 ++++++++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/Utils.cc b/src/Utils.cc
index 7d5f400..01ac1cd 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -27,7 +27,7 @@
 
 #include <climits>
 #include <memory.h>
-#include <math.h>
+#include <cmath>
 #include <sys/stat.h>
 
 namespace quarkdb {
@@ -61,10 +61,14 @@ bool caseInsensitiveEquals(std::string_view str1, std::string_view str2) {
   return true;
 }
 
-bool my_strtod(std::string_view str, double &ret) {
+bool my_strtod(std::string_view view, double &ret) {
+  // The view is not necessarily followed by a null character.
+  const std::string str(view);
+  if(str.empty()) return false;
+
   char *endptr = NULL;
-  ret = strtod(str.data(), &endptr);
-  if(endptr != str.data() + str.size() || ret == HUGE_VAL || ret == -HUGE_VAL) {
+  ret = strtod(str.c_str(), &endptr);
+  if(endptr != str.c_str() + str.size() || !std::isfinite(ret)) {
     return false;
   }
   return true;
diff --git a/src/utils/ParseUtils.hh b/src/utils/ParseUtils.hh
index 3d9e036..5833746 100644
--- a/src/utils/ParseUtils.hh
+++ b/src/utils/ParseUtils.hh
@@ -26,7 +26,9 @@
 
 #include "Utils.hh"
 
+#include <cerrno>
 #include <climits>
+#include <cstdlib>
 
 namespace quarkdb { namespace ParseUtils {
 
@@ -43,10 +45,15 @@ inline std::vector<std::string> split(std::string data, const std::string &token
   return output;
 }
 
-inline bool parseInt64(std::string_view str, int64_t &ret) {
+inline bool parseInt64(std::string_view view, int64_t &ret) {
+  // The view is not necessarily followed by a null character.
+  const std::string str(view);
+  if(str.empty()) return false;
+
   char *endptr = NULL;
-  ret = strtoll(str.data(), &endptr, 10);
-  if(endptr != str.data() + str.size() || ret == LLONG_MIN || ret == LONG_LONG_MAX) {
+  errno = 0;
+  ret = strtoll(str.c_str(), &endptr, 10);
+  if(endptr != str.c_str() + str.size() || errno == ERANGE) {
     return false;
   }
   return true;
-- 
2.43.0


From 6d69404a249b2a74fcf736c93e79c2505b4cbfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 03/71] fix: parseServer silently truncated ports which do not
 fit an int

---
 src/Utils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utils.cc b/src/Utils.cc
index 01ac1cd..79b4512 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -103,6 +103,7 @@ bool parseServer(std::string_view str, RaftServer &srv) {
 
   int64_t port;
   if(!ParseUtils::parseInt64(parts[1], port)) return false;
+  if(port < INT_MIN || port > INT_MAX) return false;
 
   srv = RaftServer{ parts[0], (int) port };
   return true;
-- 
2.43.0


From 8b69e30532fc12049558ffa0373e14178886257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 04/71] fix: glob matching read past the end of the pattern and
 of the string

A pattern ending inside a character class ('[\'), or an empty subject, made
stringmatchlen read out of bounds; both come straight from clients.
---
 deps/StringMatchLen.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/deps/StringMatchLen.h b/deps/StringMatchLen.h
index 47f2c5f..060f513 100644
--- a/deps/StringMatchLen.h
+++ b/deps/StringMatchLen.h
@@ -47,7 +47,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
     while(patternLen) {
         switch(pattern[0]) {
         case '*':
-            while (pattern[1] == '*') {
+            while (patternLen >= 2 && pattern[1] == '*') {
                 pattern++;
                 patternLen--;
             }
@@ -72,27 +72,29 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         {
             int negation, match;
 
+            if (stringLen == 0)
+                return 0; /* no match */
             pattern++;
             patternLen--;
-            negation = pattern[0] == '^';
+            negation = patternLen > 0 && pattern[0] == '^';
             if (negation) {
                 pattern++;
                 patternLen--;
             }
             match = 0;
             while(1) {
-                if (pattern[0] == '\\') {
+                if (patternLen == 0) {
+                    pattern--;
+                    patternLen++;
+                    break;
+                } else if (patternLen >= 2 && pattern[0] == '\\') {
                     pattern++;
                     patternLen--;
                     if (pattern[0] == string[0])
                         match = 1;
                 } else if (pattern[0] == ']') {
                     break;
-                } else if (patternLen == 0) {
-                    pattern--;
-                    patternLen++;
-                    break;
-                } else if (pattern[1] == '-' && patternLen >= 3) {
+                } else if (patternLen >= 3 && pattern[1] == '-') {
                     int start = pattern[0];
                     int end = pattern[2];
                     int c = string[0];
@@ -137,6 +139,8 @@ inline int stringmatchlen(const char *pattern, int patternLen,
             }
             /* fall through */
         default:
+            if (stringLen == 0)
+                return 0; /* no match */
             if (!nocase) {
                 if (pattern[0] != string[0])
                     return 0; /* no match */
@@ -151,7 +155,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         pattern++;
         patternLen--;
         if (stringLen == 0) {
-            while(*pattern == '*') {
+            while(patternLen && *pattern == '*') {
                 pattern++;
                 patternLen--;
             }
-- 
2.43.0


From ec2bb6eb0664fff2e5f589e72118e0b3793653ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 05/71] fix: glob patterns with many '*' took exponential time
 to match

A pattern such as *a*a*a*a*a*a*a*a*b from any client could occupy the
server practically forever.
---
 deps/StringMatchLen.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/deps/StringMatchLen.h b/deps/StringMatchLen.h
index 060f513..cdb4e41 100644
--- a/deps/StringMatchLen.h
+++ b/deps/StringMatchLen.h
@@ -40,9 +40,10 @@
 
 namespace quarkdb {
 
-/* Glob-style pattern matching. */
-inline int stringmatchlen(const char *pattern, int patternLen,
-        const char *string, int stringLen, int nocase)
+/* skipLongerMatches is set once the rest of the pattern following a '*' did
+ * not match anywhere: trying longer matches for any earlier '*' is pointless. */
+inline int stringmatchlen_impl(const char *pattern, int patternLen,
+        const char *string, int stringLen, int nocase, int *skipLongerMatches)
 {
     while(patternLen) {
         switch(pattern[0]) {
@@ -54,12 +55,15 @@ inline int stringmatchlen(const char *pattern, int patternLen,
             if (patternLen == 1)
                 return 1; /* match */
             while(stringLen) {
-                if (stringmatchlen(pattern+1, patternLen-1,
-                            string, stringLen, nocase))
+                if (stringmatchlen_impl(pattern+1, patternLen-1,
+                            string, stringLen, nocase, skipLongerMatches))
                     return 1; /* match */
+                if (*skipLongerMatches)
+                    return 0; /* no match */
                 string++;
                 stringLen--;
             }
+            *skipLongerMatches = 1;
             return 0; /* no match */
             break;
         case '?':
@@ -167,6 +171,15 @@ inline int stringmatchlen(const char *pattern, int patternLen,
     return 0;
 }
 
+/* Glob-style pattern matching. */
+inline int stringmatchlen(const char *pattern, int patternLen,
+        const char *string, int stringLen, int nocase)
+{
+    int skipLongerMatches = 0;
+    return stringmatchlen_impl(pattern, patternLen, string, stringLen, nocase,
+        &skipLongerMatches);
+}
+
 }
 
 #endif
-- 
2.43.0


From d1d611ba919efeeda69ddf12d50c2ccfee02a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:01 +0000
Subject: [PATCH 06/71] fix: scan commands accepted a zero or negative COUNT
 written as '00' or ' -1'

With such a count a scan returns the cursor it was given for ever.
---
 src/utils/CommandParsing.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/CommandParsing.hh b/src/utils/CommandParsing.hh
index 284f805..f4855da 100644
--- a/src/utils/CommandParsing.hh
+++ b/src/utils/CommandParsing.hh
@@ -79,6 +79,11 @@ inline ScanCommandArguments parseScanCommand(const RedisRequest::const_iterator
         args.error = "value is not an integer or out of range";
         return args;
       }
+
+      if(args.count <= 0) {
+        args.error = "syntax error";
+        return args;
+      }
     }
     else if(caseInsensitiveEquals(*pos, "match") && supportMatch) {
       args.match = *(pos+1);
-- 
2.43.0


From 5528c981796e9d034b30eb5244945f6bd1a099f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 07/71] fix: parsing of malformed escaped keys read out of
 bounds; SmartBuffer::expand freed its own buffer

LHSCAN cursors come from clients and reach extractPrefix as they are.
SmartBuffer::expand to exactly the current capacity freed the buffer still
in use.
---
 src/storage/ReverseLocator.hh | 13 +++++++++----
 src/utils/SmartBuffer.hh      |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/storage/ReverseLocator.hh b/src/storage/ReverseLocator.hh
index d5e6d4b..58a09f0 100644
--- a/src/storage/ReverseLocator.hh
+++ b/src/storage/ReverseLocator.hh
@@ -36,22 +36,25 @@ inline size_t extractPrefix(std::string_view dkey, std::string &key) {
   for(size_t i = 0; i < dkey.size(); i++) {
     // Hash?
     if(dkey[i] == '#') {
+      bool escaped = (i > 0 && dkey[i-1] == '|');
+      bool followedByHash = (i+1 < dkey.size() && dkey[i+1] == '#');
+
       // Is this the boundary?
-      if(dkey[i+1] == '#' && dkey[i-1] != '|') {
+      if(followedByHash && !escaped) {
         // Yes, our work here is done.
         return i+2;
       }
 
-      if(dkey[i+1] == '#' && dkey[i-1] == '|' && i+2 < dkey.size() && dkey[i+2] != '#') {
+      if(followedByHash && escaped && (i+2 >= dkey.size() || dkey[i+2] != '#')) {
         return i+2;
       }
 
-      if(dkey[i+1] == '#' && dkey[i-1] == '|' && i+2 < dkey.size() && dkey[i+2] == '#') {
+      if(followedByHash && escaped) {
         key[key.size() - 1] = '#';
         return i+3;
       }
 
-      qdb_assert(dkey[i-1] == '|');
+      if(!escaped) break; // a lone '#' is never generated
       // Replace previous character with '#'
       key[key.size() - 1] = '#';
     }
@@ -142,6 +145,8 @@ public:
   ReverseLocator() {}
 
   ReverseLocator(std::string_view sl) : slice(sl) {
+    if(sl.empty()) return;
+
     keyType = parseKeyType(sl.data()[0]);
     if(keyType == KeyType::kParseError || keyType == KeyType::kString) {
       return;
diff --git a/src/utils/SmartBuffer.hh b/src/utils/SmartBuffer.hh
index f5bc06d..1d777b7 100644
--- a/src/utils/SmartBuffer.hh
+++ b/src/utils/SmartBuffer.hh
@@ -63,7 +63,7 @@ public:
   void expand(size_t size) {
     qdb_assert(realSize <= size);
 
-    if(size < containerSize()) {
+    if(size <= containerSize()) {
       // Easy path, no copying necessary
       realSize = size;
       return;
-- 
2.43.0


From be50fb77830ffdc73b9cf001fd617e48e1f9aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 08/71] fix: newlines in error and status texts broke the
 framing of replies

---
 src/Formatter.cc | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/Formatter.cc b/src/Formatter.cc
index ee493f3..92ec23b 100644
--- a/src/Formatter.cc
+++ b/src/Formatter.cc
@@ -30,17 +30,30 @@
 #include "utils/Statistics.hh"
 using namespace quarkdb;
 
+//------------------------------------------------------------------------------
+// Errors and statuses are terminated by the first newline: Text embedded in them,
+// which may originate from a client, must not contain any, or it would be
+// interpreted as the start of a different response.
+//------------------------------------------------------------------------------
+static std::string singleLine(std::string_view text) {
+  std::string out(text);
+  for(size_t i = 0; i < out.size(); i++) {
+    if(out[i] == '\r' || out[i] == '\n') out[i] = ' ';
+  }
+  return out;
+}
+
 RedisEncodedResponse Formatter::moved(int64_t shardId, const RaftServer &location) {
   return RedisEncodedResponse(SSTR("-MOVED " << shardId << " " << location.toString() << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::err(std::string_view err) {
-  return RedisEncodedResponse(SSTR("-ERR " << err << "\r\n"));
+  return RedisEncodedResponse(SSTR("-ERR " << singleLine(err) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::errArgs(std::string_view cmd) {
   qdb_warn("Received malformed " << quotes(cmd) << " command - wrong number of arguments");
-  return RedisEncodedResponse(SSTR("-ERR wrong number of arguments for '" << cmd << "' command\r\n"));
+  return RedisEncodedResponse(SSTR("-ERR wrong number of arguments for '" << singleLine(cmd) << "' command\r\n"));
 }
 
 RedisEncodedResponse Formatter::pong() {
@@ -58,7 +71,7 @@ RedisEncodedResponse Formatter::string(std::string_view str) {
 }
 
 void Formatter::status(std::ostringstream &ss, std::string_view str) {
-  ss << "+" << str << "\r\n";
+  ss << "+" << singleLine(str) << "\r\n";
 }
 
 RedisEncodedResponse Formatter::status(std::string_view str) {
@@ -107,7 +120,7 @@ RedisEncodedResponse Formatter::vector(const std::vector<std::string> &vec) {
 void Formatter::statusVector(std::ostringstream &ss, const std::vector<std::string> &vec) {
   ss << "*" << vec.size() << "\r\n";
   for(std::vector<std::string>::const_iterator it = vec.begin(); it != vec.end(); it++) {
-    ss << "+" << *it << "\r\n";
+    ss << "+" << singleLine(*it) << "\r\n";
   }
 }
 
@@ -218,7 +231,7 @@ RedisEncodedResponse Formatter::journalScan(LogIndex cursor, const std::vector<R
 }
 
 RedisEncodedResponse Formatter::noauth(std::string_view str) {
-  return RedisEncodedResponse(SSTR("-NOAUTH " << str << "\r\n"));
+  return RedisEncodedResponse(SSTR("-NOAUTH " << singleLine(str) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::versionedVector(uint64_t num, const std::vector<std::string> &vec) {
@@ -284,11 +297,11 @@ RedisEncodedResponse Formatter::vectorsWithHeaders(const std::vector<std::string
 
   for(size_t i = 0; i < headers.size(); i++) {
     ss << "*2\r\n";
-    ss << "+" << headers[i] << "\r\n";
+    ss << "+" << singleLine(headers[i]) << "\r\n";
 
     ss << "*" << data[i].size() << "\r\n";
     for(size_t j = 0; j < data[i].size(); j++) {
-      ss << "+" << data[i][j] << "\r\n";
+      ss << "+" << singleLine(data[i][j]) << "\r\n";
     }
   }
 
-- 
2.43.0


From 23b110fa3ef82648ed4e2e33386f4ba57018997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 09/71] fix: serialized transactions from clients were parsed
 without bounds, could nest or smuggle internal commands; transactions refused
 without one reply per request

---
 src/Connection.cc                  | 12 +++--
 src/QuarkDBNode.cc                 |  2 +-
 src/recovery/RecoveryDispatcher.cc |  2 +-
 src/redis/InternalFilter.cc        | 35 +++++++++++++
 src/redis/MultiHandler.cc          |  4 ++
 src/redis/Transaction.cc           | 83 +++++++++++++++++++++---------
 6 files changed, 110 insertions(+), 28 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 5cef8d0..2a58554 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -284,7 +284,6 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
     }
 
     LinkStatus status = parser.fetch(currentRequest, authorization);
-    InternalFilter::process(currentRequest);
 
     if(status < 0) {
       return status; // link error
@@ -296,6 +295,8 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       return 1; // slow link
     }
 
+    InternalFilter::process(currentRequest);
+
     // Beginning of a MULTI block: Finalize phantom transactions
     if(currentRequest.getCommand() == RedisCommand::MULTI) {
       multiHandler.finalizePhantomTransaction(dispatcher, this);
@@ -309,9 +310,14 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       continue;
     }
 
-    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE) {
+    bool serializedTransaction = (currentRequest.getCommand() == RedisCommand::TX_READWRITE || currentRequest.getCommand() == RedisCommand::TX_READONLY);
+    if(serializedTransaction && (!multiHandler.active() || multiHandler.isPhantom())) {
       multiHandler.finalizePhantomTransaction(dispatcher, this);
-      dispatcher->dispatch(this, currentRequest);
+
+      // Unpack, so that it gets treated like any other transaction.
+      Transaction transaction;
+      qdb_assert(transaction.deserialize(currentRequest));
+      dispatcher->dispatch(this, transaction);
       continue;
     }
 
diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 2b0d07a..7b01f7f 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -82,7 +82,7 @@ bool QuarkDBNode::isAuthenticated(Connection *conn) const {
 LinkStatus QuarkDBNode::dispatch(Connection *conn, Transaction &transaction) {
   // We need to be authenticated past this point. Are we?
   if(!isAuthenticated(conn)) {
-    return conn->noauth("Authentication required.");
+    return conn->raw(Formatter::multiply(Formatter::noauth("Authentication required."), transaction.expectedResponses()));
   }
 
   return shard->dispatch(conn, transaction);
diff --git a/src/recovery/RecoveryDispatcher.cc b/src/recovery/RecoveryDispatcher.cc
index 8f4012b..bb86c79 100644
--- a/src/recovery/RecoveryDispatcher.cc
+++ b/src/recovery/RecoveryDispatcher.cc
@@ -34,7 +34,7 @@ RecoveryDispatcher::RecoveryDispatcher(RecoveryEditor &ed) : editor(ed) {
 }
 
 LinkStatus RecoveryDispatcher::dispatch(Connection *conn, Transaction &tx) {
-  qdb_throw("Transactions not supported in RecoveryDispatcher");
+  return conn->raw(Formatter::multiply(Formatter::err("transactions not supported in recovery mode"), tx.expectedResponses()));
 }
 
 LinkStatus RecoveryDispatcher::dispatch(Connection *conn, RedisRequest &req) {
diff --git a/src/redis/InternalFilter.cc b/src/redis/InternalFilter.cc
index 4465025..7dff75f 100644
--- a/src/redis/InternalFilter.cc
+++ b/src/redis/InternalFilter.cc
@@ -22,9 +22,36 @@
  ************************************************************************/
 
 #include "redis/InternalFilter.hh"
+#include "redis/Transaction.hh"
 #include "RedisRequest.hh"
 using namespace quarkdb;
 
+//------------------------------------------------------------------------------
+// A serialized transaction must be well-formed, and not contain internal commands
+// or further transactions.
+//------------------------------------------------------------------------------
+static bool acceptableTransaction(const RedisRequest &req) {
+  Transaction tx;
+  if(!tx.deserialize(req)) return false;
+
+  for(size_t i = 0; i < tx.size(); i++) {
+    switch(tx[i].getCommand()) {
+      case RedisCommand::TIMESTAMPED_LEASE_RELEASE:
+      case RedisCommand::TIMESTAMPED_LEASE_ACQUIRE:
+      case RedisCommand::TIMESTAMPED_LEASE_GET:
+      case RedisCommand::TX_READONLY:
+      case RedisCommand::TX_READWRITE: {
+        return false;
+      }
+      default: {
+        break;
+      }
+    }
+  }
+
+  return true;
+}
+
 void InternalFilter::process(RedisRequest &req) {
   switch(req.getCommand()) {
     case RedisCommand::TIMESTAMPED_LEASE_RELEASE:
@@ -32,6 +59,14 @@ void InternalFilter::process(RedisRequest &req) {
     case RedisCommand::TIMESTAMPED_LEASE_GET: {
       // Bad client, bad. No cookie for you.
       req.invalidate();
+      return;
+    }
+    case RedisCommand::TX_READONLY:
+    case RedisCommand::TX_READWRITE: {
+      if(!acceptableTransaction(req)) {
+        req.invalidate();
+      }
+      return;
     }
     default: {
       // All is good, do nothing.
diff --git a/src/redis/MultiHandler.cc b/src/redis/MultiHandler.cc
index 46f2f0a..c8c493d 100644
--- a/src/redis/MultiHandler.cc
+++ b/src/redis/MultiHandler.cc
@@ -83,6 +83,10 @@ LinkStatus MultiHandler::process(Dispatcher *dispatcher, Connection *conn, Redis
     return retstatus;
   }
 
+  if(req.getCommand() == RedisCommand::TX_READONLY || req.getCommand() == RedisCommand::TX_READWRITE) {
+    return conn->err("serialized transactions can not be nested");
+  }
+
   if(req.getCommandType() != CommandType::READ && req.getCommandType() != CommandType::WRITE) {
     return conn->err("Only reads and writes allowed within MULTI/EXEC blocks.");
   }
diff --git a/src/redis/Transaction.cc b/src/redis/Transaction.cc
index 8bc55c3..1a56caa 100644
--- a/src/redis/Transaction.cc
+++ b/src/redis/Transaction.cc
@@ -92,43 +92,80 @@ bool Transaction::deserialize(const RedisRequest &req) {
 
   if(!this->deserialize(req[1])) return false;
 
-  if(req.getCommand() == RedisCommand::TX_READONLY) {
-    qdb_assert(!this->containsWrites());
-  }
-  else {
-    qdb_assert(this->containsWrites());
+  bool readwrite = (req.getCommand() == RedisCommand::TX_READWRITE);
+  if(this->empty() || this->containsWrites() != readwrite) {
+    this->clear();
+    return false;
   }
 
   this->setPhantom(phantom);
   return true;
 }
 
+//------------------------------------------------------------------------------
+// Reads integers and strings off a serialized transaction, never looking beyond
+// its end.
+//------------------------------------------------------------------------------
+class TransactionReader {
+public:
+  TransactionReader(const PinnedBuffer &s) : src(s) {}
+
+  bool readInt(int64_t &out) {
+    if(remaining() < sizeof(int64_t)) return false;
+    out = binaryStringToInt(src.data() + position);
+    position += sizeof(int64_t);
+    return true;
+  }
+
+  // How many items follow? Each occupies at least as many bytes as an int.
+  bool readCount(int64_t &out) {
+    return readInt(out) && out >= 0 && (size_t) out <= remaining() / sizeof(int64_t);
+  }
+
+  bool readString(PinnedBuffer &out) {
+    int64_t length;
+    if(!readInt(length) || length < 0 || (size_t) length > remaining()) return false;
+    out = src.substr(position, length);
+    position += length;
+    return true;
+  }
+
+  size_t remaining() const {
+    return src.size() - position;
+  }
+
+private:
+  const PinnedBuffer &src;
+  size_t position = 0;
+};
+
 bool Transaction::deserialize(const PinnedBuffer &src) {
   qdb_assert(requests.empty());
   if(src.empty()) return false;
 
-  const char *pos = src.data();
-  int64_t totalRequests = binaryStringToInt(pos);
-  pos += sizeof(int64_t);
-  size_t bytesConsumed = sizeof(int64_t);
-
-  requests.resize(totalRequests);
+  TransactionReader reader(src);
 
-  for(int64_t i = 0; i < totalRequests; i++) {
-    int64_t totalParts = binaryStringToInt(pos);
-    pos += sizeof(int64_t);
-    bytesConsumed += sizeof(int64_t);
+  int64_t totalRequests;
+  bool ok = reader.readCount(totalRequests);
 
-    for(int64_t part = 0; part < totalParts; part++) {
-      int64_t length = binaryStringToInt(pos);
-      pos += sizeof(int64_t);
-      bytesConsumed += sizeof(int64_t);
+  for(int64_t i = 0; ok && i < totalRequests; i++) {
+    int64_t totalParts;
+    ok = reader.readCount(totalParts);
 
-      requests[i].push_back(src.substr(bytesConsumed, length));
-      pos += (length * sizeof(char));
-      bytesConsumed += (length * sizeof(char));
+    RedisRequest req;
+    for(int64_t part = 0; ok && part < totalParts; part++) {
+      PinnedBuffer buffer;
+      ok = reader.readString(buffer);
+      if(ok) req.push_back(buffer);
     }
-    checkNthCommandForWrites(i);
+
+    ok = ok && (req.getCommandType() == CommandType::READ || req.getCommandType() == CommandType::WRITE);
+    if(ok) this->push_back(std::move(req));
+  }
+
+  if(!ok || reader.remaining() != 0) {
+    this->clear();
+    return false;
   }
 
   return true;
-- 
2.43.0


From 8d03c608fb01ce1c68d94d0c09fcc2e126642355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 10/71] fix: links using TLS also sent everything in the clear

---
 src/Link.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Link.cc b/src/Link.cc
index 2503104..2c03054 100644
--- a/src/Link.cc
+++ b/src/Link.cc
@@ -133,9 +133,15 @@ LinkStatus Link::rawSend(const char *buff, int blen) {
 LinkStatus Link::Send(const char *buff, int blen) {
   if(dead) return -1;
 
-  LinkStatus ret;
-  if(tlsconfig.active) ret = tlsfilter.send(buff, blen);
-  ret = rawSend(buff, blen);
+  if(tlsconfig.active) {
+    // Encrypted data goes out through rawSend, called by the filter: Its size is
+    // not related to blen.
+    LinkStatus ret = tlsfilter.send(buff, blen);
+    if(ret < 0) dead = true;
+    return ret;
+  }
+
+  LinkStatus ret = rawSend(buff, blen);
 
   if(ret != blen) {
     dead = true;
-- 
2.43.0


From 7d59472bfb7ac5bc849994762615fc10e023a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:46 +0000
Subject: [PATCH 11/71] fix: an allocation size close to the largest integer
 wrapped around the space check

---
 src/memory/RingAllocator.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/RingAllocator.hh b/src/memory/RingAllocator.hh
index c05de1d..dda2efe 100644
--- a/src/memory/RingAllocator.hh
+++ b/src/memory/RingAllocator.hh
@@ -74,7 +74,7 @@ public:
   // this request.
   //----------------------------------------------------------------------------
   std::optional<PinnedBuffer> allocate(size_t bytes) {
-    if(allocated + bytes > region.size()) {
+    if(bytes > region.size() - allocated) {
       return {};
     }
 
-- 
2.43.0


From e9850a3b3a9ddb89c0638b44ba5ad181c47e74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 12/71] fix: a configuration could lose its TLS key, miss its
 mode, or take the next line as a value

Options were matched by prefix, so redis.certificate_key was read as redis.certificate, and
misspelled options were accepted; an option without value took the next line's first word; a
configuration without redis.mode used an uninitialized mode.
---
 src/Configuration.cc              | 32 ++++++++++++++++++-------------
 src/Configuration.hh              |  2 +-
 src/config/ConfigurationReader.cc | 16 ++++++++++++++++
 src/config/ConfigurationReader.hh |  5 +++++
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index e8cbb92..1d33127 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -48,12 +48,11 @@ bool Configuration::fromFile(const std::string &filename, Configuration &out) {
 }
 
 static bool fetchSingle(ConfigurationReader &reader, std::string &dest) {
-  reader.advanceWord();
-
-  if(reader.eof()) {
+  if(reader.isLastWordInLine()) {
     return false;
   }
 
+  reader.advanceWord();
   dest = reader.getCurrentWord();
 
   if(dest.empty()) {
@@ -120,6 +119,7 @@ static bool parseTraceLevel(const std::string &buffer, TraceLevel &trace) {
 }
 
 bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out) {
+  bool modeSpecified = false;
 
   while(!reader.eof()) {
     std::string current = reader.getCurrentWord();
@@ -135,34 +135,35 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
     bool success = false;
     std::string buffer;
 
-    if(StringUtils::startsWith("mode", current)) {
+    if(current == "mode") {
+      modeSpecified = true;
       success = fetchSingle(reader, buffer) && parseMode(buffer, out.mode);
     }
-    else if(StringUtils::startsWith(current, "database")) {
+    else if(current == "database") {
       success = fetchSingle(reader, out.database);
     }
-    else if(StringUtils::startsWith(current, "myself")) {
+    else if(current == "myself") {
       success = fetchSingle(reader, buffer) && parseServer(buffer, out.myself);
     }
-    else if(StringUtils::startsWith(current, "trace")) {
+    else if(current == "trace") {
       success = fetchSingle(reader, buffer) && parseTraceLevel(buffer, out.trace);
     }
-    else if(StringUtils::startsWith(current, "certificate")) {
+    else if(current == "certificate") {
       success = fetchSingle(reader, out.certificatePath);
     }
-    else if(StringUtils::startsWith(current, "certificate_key")) {
+    else if(current == "certificate_key") {
       success = fetchSingle(reader, out.certificateKeyPath);
     }
-    else if(StringUtils::startsWith(current, "write_ahead_log")) {
+    else if(current == "write_ahead_log") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.writeAheadLog);
     }
-    else if(StringUtils::startsWith(current, "password_file")) {
+    else if(current == "password_file") {
       success = fetchSingle(reader, out.passwordFilePath);
     }
-    else if(StringUtils::startsWith(current, "password")) {
+    else if(current == "password") {
       success = fetchSingle(reader, out.password);
     }
-    else if(StringUtils::startsWith(current, "require_password_for_localhost")) {
+    else if(current == "require_password_for_localhost") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.requirePasswordForLocalhost);
     }
     else {
@@ -178,6 +179,11 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
     reader.advanceLine();
   }
 
+  if(!modeSpecified) {
+    qdb_log("redis.mode must be specified.");
+    return false;
+  }
+
   return out.isValid();
 }
 
diff --git a/src/Configuration.hh b/src/Configuration.hh
index 6bf5391..917c41e 100644
--- a/src/Configuration.hh
+++ b/src/Configuration.hh
@@ -75,7 +75,7 @@ public:
 
   std::string extractPasswordOrDie() const;
 private:
-  Mode mode;
+  Mode mode = Mode::standalone;
   std::string database;
   TraceLevel trace = TraceLevel::info;
   std::string certificatePath;
diff --git a/src/config/ConfigurationReader.cc b/src/config/ConfigurationReader.cc
index 1151a44..fd9984a 100644
--- a/src/config/ConfigurationReader.cc
+++ b/src/config/ConfigurationReader.cc
@@ -88,6 +88,22 @@ void ConfigurationReader::advanceLine() {
   }
 }
 
+//------------------------------------------------------------------------------
+// Is the current word the last one in its line?
+//------------------------------------------------------------------------------
+bool ConfigurationReader::isLastWordInLine() const {
+  size_t pos = findNextWhitespace();
+
+  while(pos < mContents.size() && isspace(mContents[pos])) {
+    if(mContents[pos] == '\n') {
+      return true;
+    }
+    pos++;
+  }
+
+  return pos >= mContents.size();
+}
+
 //------------------------------------------------------------------------------
 // Reached EOF?
 //------------------------------------------------------------------------------
diff --git a/src/config/ConfigurationReader.hh b/src/config/ConfigurationReader.hh
index 10368b5..dbaf5fe 100644
--- a/src/config/ConfigurationReader.hh
+++ b/src/config/ConfigurationReader.hh
@@ -53,6 +53,11 @@ public:
   //----------------------------------------------------------------------------
   void advanceLine();
 
+  //----------------------------------------------------------------------------
+  // Is the current word the last one in its line?
+  //----------------------------------------------------------------------------
+  bool isLastWordInLine() const;
+
   //----------------------------------------------------------------------------
   // Reached EOF?
   //----------------------------------------------------------------------------
-- 
2.43.0


From 47627d6ebc8a04eeb733bab967ecf5b0a2fba2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 13/71] fix: write_file reported incomplete writes as
 successes, and an empty file as a failure

---
 src/utils/FileUtils.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/utils/FileUtils.cc b/src/utils/FileUtils.cc
index ff1631c..d843d55 100644
--- a/src/utils/FileUtils.cc
+++ b/src/utils/FileUtils.cc
@@ -183,8 +183,6 @@ bool areFilePermissionsSecure(mode_t mode) {
 }
 
 bool write_file(std::string_view path, std::string_view contents, std::string &err) {
-  bool retvalue;
-
   FILE *out = fopen(std::string(path).c_str(), "wb");
 
   if(!out) {
@@ -192,9 +190,20 @@ bool write_file(std::string_view path, std::string_view contents, std::string &e
     return false;
   }
 
-  retvalue = fwrite(contents.data(), sizeof(char), contents.size(), out);
-  fclose(out);
-  return retvalue;
+  // Mind the order: the last bytes may be written only by fclose.
+  bool written = (fwrite(contents.data(), sizeof(char), contents.size(), out) == contents.size());
+  int localerrno = errno;
+
+  if(fclose(out) != 0) {
+    if(written) localerrno = errno;
+    written = false;
+  }
+
+  if(!written) {
+    err = SSTR("Unable to write into path: " << path << ", errno: " << localerrno);
+  }
+
+  return written;
 }
 
 void write_file_or_die(std::string_view path, std::string_view contents) {
-- 
2.43.0


From d8e84203ccfb8db7d2b6b1d85118ab8bbfe6806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 14/71] fix: manifest check truncated the time difference and
 used uninitialized nanoseconds

---
 src/storage/ParanoidManifestChecker.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/storage/ParanoidManifestChecker.cc b/src/storage/ParanoidManifestChecker.cc
index 80be7f3..f898dac 100644
--- a/src/storage/ParanoidManifestChecker.cc
+++ b/src/storage/ParanoidManifestChecker.cc
@@ -62,11 +62,8 @@ Status ParanoidManifestChecker::checkDB(std::string_view path) {
   DirectoryIterator iter(path);
   struct dirent* entry = nullptr;
 
-  struct timespec manifestMtime;
-  manifestMtime.tv_sec = 0;
-
-  struct timespec sstMtime;
-  sstMtime.tv_sec = 0;
+  struct timespec manifestMtime = {};
+  struct timespec sstMtime = {};
 
   while((entry = iter.next())) {
     struct stat statbuf;
@@ -96,7 +93,7 @@ Status ParanoidManifestChecker::getLastStatus() const {
 // Compare mtimes, verify if sane
 //------------------------------------------------------------------------------
 Status ParanoidManifestChecker::compareMTimes(struct timespec manifest, struct timespec newestSst) {
-  int secDiff = newestSst.tv_sec - manifest.tv_sec;
+  int64_t secDiff = newestSst.tv_sec - manifest.tv_sec;
   std::string diff = SSTR(secDiff << " sec, sst:" << timespecToString(newestSst) << " vs m:" << timespecToString(manifest));
 
   // 1 hour should be more than enough (?)
-- 
2.43.0


From 28520eaa2277d3a0cadfc97583d31dc576302495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:16 +0000
Subject: [PATCH 15/71] fix: raft timeouts accepted reversed and negative
 ranges, and truncated the range they draw from

---
 src/raft/RaftTimeouts.cc | 4 ++++
 src/raft/RaftTimeouts.hh | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftTimeouts.cc b/src/raft/RaftTimeouts.cc
index 7da8f9d..072ffba 100644
--- a/src/raft/RaftTimeouts.cc
+++ b/src/raft/RaftTimeouts.cc
@@ -98,6 +98,10 @@ bool RaftTimeouts::fromString(RaftTimeouts &ret, const std::string &str) {
     return parseError(str);
   }
 
+  if(low < 0 || high < low || heartbeat < 0) {
+    return parseError(str);
+  }
+
   ret = RaftTimeouts(milliseconds(low), milliseconds(high), milliseconds(heartbeat));
   return true;
 }
diff --git a/src/raft/RaftTimeouts.hh b/src/raft/RaftTimeouts.hh
index e631211..a16711c 100644
--- a/src/raft/RaftTimeouts.hh
+++ b/src/raft/RaftTimeouts.hh
@@ -60,7 +60,7 @@ private:
   static std::random_device rd;
   static std::mt19937 gen;
   static std::mutex genMutex;
-  mutable std::uniform_int_distribution<> dist;
+  mutable std::uniform_int_distribution<milliseconds::rep> dist;
 };
 
 enum class TimeoutStatus {
-- 
2.43.0


From a3019a6cf88b80b8afebd88ad4059c937e460bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 16/71] fix: a string set to an empty value left a record
 behind without its key existing

---
 src/StateMachine.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 491d64d..8645cdf 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1166,7 +1166,7 @@ rocksdb::Status StateMachine::WriteOperation::finalize(int64_t newsize, bool for
 
   if(newsize < 0) qdb_throw("invalid newsize: " << newsize);
 
-  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash) {
+  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash && keyinfo.getKeyType() != KeyType::kString) {
     stagingArea.del(dlocator.toView());
   }
   else if(keyinfo.getSize() != newsize || forceUpdate) {
@@ -1227,8 +1227,10 @@ rocksdb::Status StateMachine::set(StagingArea &stagingArea, std::string_view key
   WriteOperation operation(stagingArea, key, KeyType::kString);
   if(!operation.valid()) return wrong_type();
 
+  // An empty string is a value like any other: The key exists, even though its
+  // size is zero.
   operation.write(value);
-  return operation.finalize(value.size());
+  return operation.finalize(value.size(), true);
 }
 
 rocksdb::Status StateMachine::dequePush(StagingArea &stagingArea, Direction direction, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &length) {
-- 
2.43.0


From 01f6f0495739842d3509691775799071e3bdb05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 17/71] fix: SMOVE of an element onto its own set corrupted the
 size of the set

---
 src/StateMachine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 8645cdf..ae88e44 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -925,6 +925,13 @@ rocksdb::Status StateMachine::smove(StagingArea &stagingArea, std::string_view s
   WriteOperation operation1(stagingArea, source, KeyType::kSet);
   if(!operation1.valid()) return wrong_type();
 
+  if(source == destination) {
+    // Nothing to move, and two write operations on the same key would not be
+    // aware of each other.
+    outcome = operation1.fieldExists(element);
+    return operation1.finalize(operation1.keySize());
+  }
+
   WriteOperation operation2(stagingArea, destination, KeyType::kSet);
   if(!operation2.valid()) {
     operation1.finalize(operation1.keySize());
-- 
2.43.0


From 162d78fb969f104a7f1aed692bf235469381ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 18/71] fix: SISMEMBER inside a transaction with writes
 dereferenced a null snapshot

---
 src/StateMachine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index ae88e44..8ad0083 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -905,7 +905,7 @@ rocksdb::Status StateMachine::sismember(StagingArea &stagingArea, std::string_vi
   FieldLocator locator(KeyType::kSet, key, element);
 
   std::string tmp;
-  return db->Get(stagingArea.snapshot->opts(), locator.toView(), &tmp);
+  return stagingArea.get(locator.toView(), tmp);
 }
 
 rocksdb::Status StateMachine::srem(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &removed) {
-- 
2.43.0


From ac30a962095a213025ce419b37e3930b1f78ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:17 +0000
Subject: [PATCH 19/71] fix: versioned hash revisions pointed into requests
 which were gone by the time of publishing

---
 src/storage/VersionedHashRevisionTracker.cc | 3 ++-
 src/storage/VersionedHashRevisionTracker.hh | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index 8edbf9f..e1ac6fd 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -51,7 +51,8 @@ void VersionedHashRevision::addUpdate(std::string_view field, std::string_view v
 // Serialize contents
 //------------------------------------------------------------------------------
 std::string VersionedHashRevision::serialize() const {
-  return Formatter::vhashRevision(currentRevision, updateBatch).val;
+  std::vector<std::pair<std::string_view, std::string_view>> contents(updateBatch.begin(), updateBatch.end());
+  return Formatter::vhashRevision(currentRevision, contents).val;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 605b62c..fca22c5 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -25,6 +25,7 @@
 #define QUARKDB_VERSIONED_HASH_REVISION_TRACKER_HH
 
 #include <vector>
+#include <string>
 #include <string_view>
 #include <map>
 
@@ -53,7 +54,9 @@ public:
 
 private:
   uint64_t currentRevision = 0;
-  std::vector<std::pair<std::string_view, std::string_view>> updateBatch;
+  // We need our own copy: Revisions are published asynchronously, after the
+  // request they originate from is long gone.
+  std::vector<std::pair<std::string, std::string>> updateBatch;
 };
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From fb3590c1146bbff8e30cb1a76547f0f844b90c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 20/71] fix: versioned hash revisions: no-op VHDEL created keys
 and lost version increments, DEL within a transaction broke its revision

---
 src/StateMachine.cc                         | 26 +++++++++++++++++----
 src/storage/VersionedHashRevisionTracker.cc | 11 +++++++++
 src/storage/VersionedHashRevisionTracker.hh |  7 ++++++
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 8ad0083..424db97 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1413,11 +1413,19 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   WriteOperation operation(stagingArea, key, KeyType::kVersionedHash);
   if(!operation.valid()) return wrong_type();
 
-  VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
-
+  std::vector<std::string_view> deletedFields;
   for(ReqIterator it = start; it != end; it++) {
-    removed += operation.deleteField(*it);
-    revision.addUpdate(*it, "");
+    if(operation.deleteField(*it)) {
+      deletedFields.emplace_back(it->sv());
+    }
+  }
+
+  removed = deletedFields.size();
+  if(removed == 0) {
+    // No-op: No new version, no revision to publish.
+    version = operation.descriptor().getStartIndex();
+    operation.cancel();
+    return rocksdb::Status::OK();
   }
 
   // Have we modified this key in the same write batch already?
@@ -1429,12 +1437,16 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   KeyDescriptor &descriptor = operation.descriptor();
   version = descriptor.getStartIndex();
 
-  if(removed != 0 && !operation.descriptorModifiedAlreadyInWriteBatch()) {
+  if(!operation.descriptorModifiedAlreadyInWriteBatch()) {
     version++;
     descriptor.setStartIndex(version);
   }
 
+  VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
   revision.setRevisionNumber(version);
+  for(std::string_view field : deletedFields) {
+    revision.addUpdate(field, "");
+  }
 
   int64_t newsize = operation.keySize() - removed;
   return operation.finalize(newsize, true);
@@ -1768,6 +1780,9 @@ rocksdb::Status StateMachine::del(StagingArea &stagingArea, const ReqIterator &s
       int64_t count = 0;
       remove_all_with_prefix(locator.toView(), count, stagingArea);
       if(count != keyInfo.getSize()) qdb_throw("mismatch between keyInfo counter and number of elements deleted by remove_all_with_prefix: " << count << " vs " << keyInfo.getSize());
+
+      // Any earlier updates in this transaction are gone, too
+      stagingArea.getRevisionTracker().drop(*it);
     }
     else if(keyInfo.getKeyType() == KeyType::kLocalityHash) {
       // wipe out fields
@@ -1882,6 +1897,7 @@ rocksdb::Status StateMachine::flushall(StagingArea &stagingArea) {
 
   int64_t tmp;
   remove_all_with_prefix("", tmp, stagingArea);
+  stagingArea.getRevisionTracker().clear();
   mExpirationCache.clear();
   return rocksdb::Status::OK();
 }
diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index e1ac6fd..fe7b16a 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -62,6 +62,17 @@ VersionedHashRevision& VersionedHashRevisionTracker::forKey(std::string_view key
   return contents[std::string(key)];
 }
 
+//------------------------------------------------------------------------------
+// Forget about the updates towards the given key, or all keys
+//------------------------------------------------------------------------------
+void VersionedHashRevisionTracker::drop(std::string_view key) {
+  contents.erase(std::string(key));
+}
+
+void VersionedHashRevisionTracker::clear() {
+  contents.clear();
+}
+
 //------------------------------------------------------------------------------
 // Iterate through contents
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index fca22c5..7ca1250 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -77,6 +77,13 @@ public:
     return contents.empty();
   }
 
+  //----------------------------------------------------------------------------
+  // Forget about the updates towards the given key, or all keys - to be used
+  // when they get deleted within the same transaction.
+  //----------------------------------------------------------------------------
+  void drop(std::string_view key);
+  void clear();
+
   //----------------------------------------------------------------------------
   // Iterate through contents
   //----------------------------------------------------------------------------
-- 
2.43.0


From 824178eb35f5f9c53783e2e63ff9398680a97184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 21/71] fix: HINCRBY overflowed a signed integer, HINCRBYFLOAT
 stored values it could not read back

---
 src/Dispatcher.cc   |  2 +-
 src/StateMachine.cc | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index c3b73d3..898dfb2 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -225,7 +225,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
       while(index < request.size()) {
         int64_t tmpret = 0;
         store.hincrby(stagingArea, request[index], request[index+1], request[index+2], tmpret);
-        ret += tmpret;
+        ret = (uint64_t) ret + (uint64_t) tmpret; // wrap around on overflow
 
         index += 3;
       }
diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 424db97..02f731f 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -43,6 +43,7 @@
 #include <rocksdb/utilities/checkpoint.h>
 #include <rocksdb/filter_policy.h>
 #include <rocksdb/table.h>
+#include <cmath>
 #include <thread>
 #include <sys/vfs.h>
 
@@ -562,7 +563,10 @@ rocksdb::Status StateMachine::hincrby(StagingArea &stagingArea, std::string_view
     return malformed("hash value is not an integer");
   }
 
-  result += incrbyInt64;
+  if(__builtin_add_overflow(result, incrbyInt64, &result)) {
+    operation.finalize(operation.keySize());
+    return malformed("increment or decrement would overflow");
+  }
 
   operation.writeField(field, std::to_string(result));
   return operation.finalize(operation.keySize() + !exists);
@@ -588,6 +592,11 @@ rocksdb::Status StateMachine::hincrbyfloat(StagingArea &stagingArea, std::string
 
   result += incrByDouble;
 
+  if(!std::isfinite(result)) {
+    operation.finalize(operation.keySize());
+    return malformed("increment would produce NaN or Infinity");
+  }
+
   operation.writeField(field, std::to_string(result));
   return operation.finalize(operation.keySize() + !exists);
 }
-- 
2.43.0


From 74ff7cba0325ceec4ac5b93996f917afba9880da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 22/71] fix: LEASE_GET on a key of another type, and
 LEASE_ACQUIRE with an empty holder took down the node

---
 src/Dispatcher.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 898dfb2..3392d48 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -387,6 +387,10 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::err("value is not an integer or out of range");
       }
 
+      if(request[2].empty()) {
+        return Formatter::err("lease holder cannot be empty");
+      }
+
       qdb_assert(request[4].size() == 8u);
 
       ClockValue timestamp = binaryStringToUnsignedInt(request[4]);
@@ -420,7 +424,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::null();
       }
 
-      qdb_assert(st.ok());
+      if(!st.ok()) return Formatter::fromStatus(st);
 
       std::vector<std::string> reply;
       reply.emplace_back(SSTR("HOLDER: " << leaseInfo.getValue()));
-- 
2.43.0


From 37f636e9eda836f917cc91913904e0c67a3ecc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 23/71] fix: fallback commands and HVALS ignored errors,
 LHGET_WITH_FALLBACK did not check its number of arguments

---
 src/Dispatcher.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 3392d48..2dfe79e 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -342,18 +342,21 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     }
     case RedisCommand::LHSET_AND_DEL_FALLBACK: {
       if(request.size() != 6) return errArgs(request);
-      RedisEncodedResponse resp = dispatchLHSET(stagingArea, request[1], request[2], request[3], request[4]);
+      bool fieldcreated;
+      rocksdb::Status st = store.lhset(stagingArea, request[1], request[2], request[3], request[4], fieldcreated);
+      if(!st.ok()) return Formatter::fromStatus(st);
+
       dispatchHDEL(stagingArea, request[5], request.begin()+2, request.begin()+3);
-      return resp;
+      return Formatter::integer(fieldcreated);
     }
     case RedisCommand::LHDEL_WITH_FALLBACK: {
       if(request.size() != 4) return errArgs(request);
-      RedisEncodedResponse resp = dispatchLHDEL(stagingArea, request[1], request.begin()+2, request.begin()+3);
-      if(resp.val != Formatter::integer(1).val) {
-        return dispatchHDEL(stagingArea, request[3], request.begin()+2, request.begin()+3);
-      }
+      int64_t removed = 0;
+      rocksdb::Status st = store.lhdel(stagingArea, request[1], request.begin()+2, request.begin()+3, removed);
+      if(!st.ok()) return Formatter::fromStatus(st);
+      if(removed != 0) return Formatter::integer(removed);
 
-      return resp;
+      return dispatchHDEL(stagingArea, request[3], request.begin()+2, request.begin()+3);
     }
     case RedisCommand::CONVERT_HASH_FIELD_TO_LHASH: {
       if(request.size() != 6) return errArgs(request);
@@ -580,6 +583,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       if(request.size() != 2) return errArgs(request);
       std::vector<std::string> values;
       rocksdb::Status st = store.hvals(stagingArea, request[1], values);
+      if(!st.ok()) return Formatter::fromStatus(st);
       return Formatter::vector(values);
     }
     case RedisCommand::HSCAN: {
@@ -714,6 +718,9 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       else if(request.size() == 5) {
         resp = dispatchLHGET(stagingArea, request[1], request[2], request[3]);
       }
+      else {
+        return errArgs(request);
+      }
 
       // Did we succeed?
       if(resp.val != Formatter::null().val) return resp;
-- 
2.43.0


From 3da6047bb18834cdc3f27f52d5357c228885cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 24/71] fix: empty keys, fields and hints of locality hashes
 took down the node

---
 src/StateMachine.cc | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 02f731f..6e1a4db 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -66,6 +66,15 @@ static rocksdb::Status malformed(std::string_view message) {
   return rocksdb::Status::InvalidArgument(message);
 }
 
+// Locality hashes do not support empty keys, fields, or hints.
+static bool validLocalityHashItem(std::string_view key, std::string_view field, std::string_view hint) {
+  return !key.empty() && !field.empty() && !hint.empty();
+}
+
+static rocksdb::Status invalid_locality_hash_item() {
+  return malformed("key, field, or hint of a locality hash cannot be empty");
+}
+
 StateMachine::StateMachine(std::string_view f, bool write_ahead_log, bool bulk_load)
 : filename(f), writeAheadLog(write_ahead_log), bulkLoad(bulk_load), timeKeeper(0u),
  requestCounter(std::chrono::seconds(10)) {
@@ -407,6 +416,13 @@ rocksdb::Status StateMachine::lhmset(StagingArea &stagingArea, std::string_view
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
+  for(auto it = start; it != end; it += 3) {
+    if(!validLocalityHashItem(key, *it, *(it+1))) {
+      operation.cancel();
+      return invalid_locality_hash_item();
+    }
+  }
+
   int64_t created = 0;
   for(auto it = start; it != end; it += 3) {
     bool fieldcreated = false;
@@ -422,6 +438,11 @@ rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view k
   if(!operation.valid()) return wrong_type();
 
   fieldcreated = false;
+  if(!validLocalityHashItem(key, field, hint)) {
+    operation.cancel();
+    return invalid_locality_hash_item();
+  }
+
   lhsetInternal(operation, key, field, hint, value, fieldcreated);
   return operation.finalize(operation.keySize() + fieldcreated);
 }
@@ -429,6 +450,9 @@ rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view k
 rocksdb::Status StateMachine::lhlocdel(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, int64_t &removed) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
+  removed = 0;
+  if(!validLocalityHashItem(key, field, hint)) return rocksdb::Status::OK();
+
   LocalityFieldLocator locator(key, hint, field);
 
   rocksdb::Status st = stagingArea.exists(locator.toView());
@@ -454,6 +478,8 @@ rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view k
   if(!operation.valid()) return wrong_type();
 
   for(ReqIterator it = start; it != end; it++) {
+    if(key.empty() || it->sv().empty()) continue;
+
     std::string hint;
     bool exists = operation.getAndDeleteLocalityIndex(*it, hint);
     if(exists) {
@@ -468,6 +494,7 @@ rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view k
 
 rocksdb::Status StateMachine::lhget(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, std::string &value) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
+  if(key.empty() || field.empty()) return rocksdb::Status::NotFound();
 
   if(!hint.empty()) {
     // We were given a hint, whooo. Fast path.
@@ -722,8 +749,11 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
   std::string_view cursorHint;
   std::string_view cursorField;
 
-  LocalityFieldLocator locator(key);
+  newCursor = "";
   results.clear();
+  if(key.empty()) return rocksdb::Status::OK();
+
+  LocalityFieldLocator locator(key);
 
   std::string patternPrefix = extractPatternPrefix(matchloc);
   bool emptyPattern = (matchloc.empty() || matchloc == "*");
-- 
2.43.0


From 0cb6fc2addd4663d2bbf87c56fbef31ed109ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 25/71] fix: LHSCAN with a pattern missed elements past the
 first page, scans mishandled made-up cursors

---
 src/StateMachine.cc | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 6e1a4db..fed8996 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -761,6 +761,15 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
   // Any rocksdb keys we touch must have this prefix.
   size_t keyPrefixSize = locator.toView().size();
   std::string requiredPrefix(locator.toView());
+
+  if(!patternPrefix.empty()) {
+    // All hints which match start with patternPrefix: Escape it just like any
+    // other hint, minus the "##" which would mark the hint's end.
+    locator.resetHint(patternPrefix);
+    requiredPrefix = locator.toView();
+    requiredPrefix.resize(requiredPrefix.size() - 2);
+  }
+
   std::string_view scanStart = requiredPrefix;
 
   if(!cursor.empty()) {
@@ -773,27 +782,16 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
     cursorHint = extractor.getOriginalPrefix();
     cursorField = extractor.getRawSuffix();
 
-    // We start from the given hint + field.
-    locator.resetHint(cursorHint);
-
-    if(!patternPrefix.empty()) {
-      requiredPrefix = locator.toView();
+    if(cursorHint.empty()) {
+      return malformed("invalid cursor");
     }
 
+    // We start from the given hint + field.
+    locator.resetHint(cursorHint);
     locator.resetField(cursorField);
     scanStart = locator.toView();
   }
-  else if(!patternPrefix.empty()) {
-    locator.resetHint(patternPrefix);
-    requiredPrefix += patternPrefix;
-    scanStart = locator.toView();
-
-    if(patternPrefix.size() != matchloc.size()) {
-      scanStart.remove_suffix(2);
-    }
-  }
 
-  newCursor = "";
   IteratorPtr iter(stagingArea.getIterator());
 
   for(iter->Seek(scanStart); iter->Valid(); iter->Next()) {
@@ -879,13 +877,14 @@ rocksdb::Status StateMachine::dequeScanBack(StagingArea &stagingArea, std::strin
     return malformed("invalid cursor");
   }
 
-  uint64_t startingMarker = cursorMarker - count;
+  uint64_t firstMarker = keyinfo.getStartIndex() + 1;
+  uint64_t startingMarker = firstMarker;
 
-  if(startingMarker <= keyinfo.getStartIndex() + 1) {
+  if(cursorMarker <= firstMarker || count >= cursorMarker - firstMarker) {
     newCursor = "";
-    startingMarker = keyinfo.getStartIndex() + 1;
   }
   else {
+    startingMarker = cursorMarker - count;
     newCursor = unsignedIntToBinaryString(startingMarker);
   }
 
-- 
2.43.0


From 7f92ba4cbfac9c7f331519a8f0bf48e9afca8295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 26/71] fix: resetting a state machine left its leases in the
 expiration cache

---
 src/StateMachine.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index fed8996..c8236b0 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -224,6 +224,8 @@ void StateMachine::reset() {
     db->Delete(rocksdb::WriteOptions(), iter->key().ToString());
   }
 
+  mExpirationCache.clear();
+
   ensureCompatibleFormat(true);
   ensureBulkloadSanity(true);
   ensureClockSanity(true);
-- 
2.43.0


From 77bef865723e6dac811ed956d977479852b1c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:22 +0000
Subject: [PATCH 27/71] fix: bulk loading lost the key whose name is empty

KeyDescriptorBuilder took an empty key for "nothing collected yet".
---
 src/storage/KeyDescriptorBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/KeyDescriptorBuilder.cc b/src/storage/KeyDescriptorBuilder.cc
index 34bd94d..96b433a 100644
--- a/src/storage/KeyDescriptorBuilder.cc
+++ b/src/storage/KeyDescriptorBuilder.cc
@@ -29,7 +29,7 @@
 using namespace quarkdb;
 
 static void appendToWriteBatch(std::string &prefix, std::string &key, KeyDescriptor &descriptor, rocksdb::WriteBatch &wb) {
-  if(!key.empty()) {
+  if(!descriptor.empty()) {
     DescriptorLocator dlocator(key);
     wb.Put(dlocator.toView(), descriptor.serialize());
   }
-- 
2.43.0


From 1c8c00166c7b56bdf1ba51595a52dd7bcc59e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:52 +0000
Subject: [PATCH 28/71] fix: malformed sizes in requests were accepted, read
 out of bounds or exhausted memory

A negative argument size read before the start of the buffer, $-1 was skipped,
sizes were truncated to 32 bits, a request could have no elements at all, lines
holding a size had no limit even before authentication, and announcing a large
number of elements allocated all of them.
---
 src/RedisParser.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/RedisParser.cc b/src/RedisParser.cc
index 8883b21..6437ee1 100644
--- a/src/RedisParser.cc
+++ b/src/RedisParser.cc
@@ -27,6 +27,9 @@
 
 using namespace quarkdb;
 
+// Longest line holding a size, including prefix and \r\n
+static constexpr size_t MAX_INTEGER_LENGTH = 32;
+
 RedisParser::RedisParser(Link *l) : reader(l) {
 }
 
@@ -57,15 +60,21 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
     element_size = -1;
     current_element = 0;
 
+    if(request_size == 0) {
+      qdb_warn("Redis protocol error, received request without any elements");
+      return -1;
+    }
+
     if(!authenticated && request_size >= 5) {
       qdb_warn("Unauthenticated client attempted to send request with " << request_size << " elements - shutting the connection down");
       return -2;
     }
-
-    req.resize(request_size);
   }
 
   for( ; current_element < request_size; current_element++) {
+    // Grow as the elements come in, the announced size could be anything.
+    if(req.size() <= (size_t) current_element) req.resize(current_element+1);
+
     int rc = readElement(req.getPinnedBuffer(current_element), authenticated);
     if(rc <= 0) return rc;
     element_size = -1;
@@ -90,6 +99,11 @@ int RedisParser::readInteger(char prefix, int &retval) {
     if(rlen <= 0) return rlen;
 
     current_integer.append(prev);
+
+    if(current_integer.size() > MAX_INTEGER_LENGTH) {
+      qdb_warn("Redis protocol error, received an integer which is too long");
+      return -1;
+    }
   }
 
   if(current_integer[0] != prefix) {
@@ -104,9 +118,11 @@ int RedisParser::readInteger(char prefix, int &retval) {
 
   current_integer.erase(current_integer.size()-2, 2);
 
-  char *endptr;
+  // Only sizes are transmitted as integers: No signs, and it has to be possible
+  // to add the length of \r\n.
+  char *endptr = nullptr;
   long num = strtol(current_integer.c_str()+1, &endptr, 10);
-  if(*endptr != '\0' || num == LONG_MIN || num == LONG_MAX) {
+  if(!isdigit((unsigned char) current_integer[1]) || endptr != current_integer.c_str() + current_integer.size() || num > INT_MAX - 2) {
     qdb_warn("Redis protocol error, received an invalid integer");
     return -1;
   }
-- 
2.43.0


From 919d339b46b7502f0e7dc3617e8dd5f819c34502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:27 +0000
Subject: [PATCH 29/71] fix: limits for unauthenticated clients also hit
 clients which need no password

Whether a connection is authenticated was only found out when dispatching, so
the first requests on a connection were parsed as those of a stranger, depending
on how they arrived. In turn, strangers could queue without limit in a MULTI block.
---
 src/Connection.cc  | 10 +++++++++-
 src/Dispatcher.hh  |  3 +++
 src/QuarkDBNode.hh |  3 +--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 2a58554..9d689b5 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -283,7 +283,10 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       qdb_throw("should never reach here");
     }
 
-    LinkStatus status = parser.fetch(currentRequest, authorization);
+    // Ask before parsing: Limits for strangers should not apply to a client which
+    // needs no password, only because none of its requests was dispatched so far.
+    bool authenticated = dispatcher->isAuthenticated(this);
+    LinkStatus status = parser.fetch(currentRequest, authenticated);
 
     if(status < 0) {
       return status; // link error
@@ -295,6 +298,11 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       return 1; // slow link
     }
 
+    if(!authenticated && multiHandler.active() && !multiHandler.isPhantom() && multiHandler.size() >= phantomBatchLimit) {
+      qdb_warn("Unauthenticated client attempted to queue more than " << phantomBatchLimit << " requests - shutting the connection down");
+      return -2;
+    }
+
     InternalFilter::process(currentRequest);
 
     // Beginning of a MULTI block: Finalize phantom transactions
diff --git a/src/Dispatcher.hh b/src/Dispatcher.hh
index d6afdc2..4229e0c 100644
--- a/src/Dispatcher.hh
+++ b/src/Dispatcher.hh
@@ -39,6 +39,9 @@ public:
   virtual LinkStatus dispatch(Connection *conn, Transaction &multiOp) = 0;
   virtual void notifyDisconnect(Connection *conn) = 0;
 
+  // Is this connection allowed to issue commands?
+  virtual bool isAuthenticated(Connection *conn) const { return conn->authorization; }
+
   RedisEncodedResponse handlePing(RedisRequest &req);
   RedisEncodedResponse handleConversion(RedisRequest &req);
   virtual ~Dispatcher() {}
diff --git a/src/QuarkDBNode.hh b/src/QuarkDBNode.hh
index b27d4af..d66e161 100644
--- a/src/QuarkDBNode.hh
+++ b/src/QuarkDBNode.hh
@@ -60,6 +60,7 @@ public:
   virtual LinkStatus dispatch(Connection *conn, RedisRequest &req) override final;
   virtual LinkStatus dispatch(Connection *conn, Transaction &transaction) override final;
   virtual void notifyDisconnect(Connection *conn) override final {}
+  virtual bool isAuthenticated(Connection *conn) const override final;
 
   const Configuration& getConfiguration() {
     return configuration;
@@ -70,8 +71,6 @@ public:
   }
 
 private:
-  bool isAuthenticated(Connection *conn) const;
-
   std::unique_ptr<ShardDirectory> shardDirectoryOwnership;
   std::unique_ptr<Shard> shard;
 
-- 
2.43.0


From b6ff27efc88d181a1d8badbc78246082dc1498ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:46 +0000
Subject: [PATCH 30/71] fix: writes received right before malformed input or a
 disconnect were dropped

Whether they were depended on how the bytes arrived: Batched writes which had not
been dispatched yet got lost, the ones from an earlier read did not.
---
 src/Connection.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 9d689b5..22a8073 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -289,7 +289,9 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
     LinkStatus status = parser.fetch(currentRequest, authenticated);
 
     if(status < 0) {
-      return status; // link error
+      // link error - still process the requests received before that
+      multiHandler.finalizePhantomTransaction(dispatcher, this);
+      return status;
     }
 
     if(status == 0) {
-- 
2.43.0


From 42c89aa7c4993c47799f3b52624782fb1a41be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:15 +0000
Subject: [PATCH 31/71] fix: a follower could commit leftovers of an older term
 when receiving only part of the leader's log

---
 src/raft/RaftDispatcher.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index efc2d76..28c7eba 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -565,7 +565,13 @@ RaftAppendEntriesResponse RaftDispatcher::appendEntries(RaftAppendEntriesRequest
     }
   }
 
-  journal.setCommitIndex(std::min(journal.getLogSize()-1, req.commitIndex));
+  //----------------------------------------------------------------------------
+  // Only entries up to prevIndex + entries.size() are known to match those of
+  // the leader, anything after that could be a stale leftover.
+  //----------------------------------------------------------------------------
+
+  LogIndex lastMatching = req.prevIndex + LogIndex(req.entries.size());
+  journal.setCommitIndex(std::max(journal.getCommitIndex(), std::min(lastMatching, req.commitIndex)));
   warnIfLagging(req.commitIndex);
   return {snapshot->term, journal.getLogSize(), true, ""};
 }
-- 
2.43.0


From e253e3a989c815d3e2e211ff49ebb6251bef7fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:19 +0000
Subject: [PATCH 32/71] fix: a vetoed candidate with a quorum of votes
 deadlocked while logging the outcome

---
 src/raft/RaftUtils.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index b19a0a1..4ebbfa1 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -64,7 +64,9 @@ ElectionOutcome RaftElection::performPreVote(RaftVoteRequest votereq, RaftState
     registry.registerVote(it->first, it->second, deadline);
   }
 
-  qdb_info(registry.describeOutcome());
+  // Not inside qdb_info: describeOutcome may need to log as well
+  std::string description = registry.describeOutcome();
+  qdb_info(description);
   return registry.determineOutcome();
 }
 
@@ -118,7 +120,9 @@ ElectionOutcome RaftElection::perform(RaftVoteRequest votereq, RaftState &state,
   registry.observeTermsAndLeases(state, lease, broadcastTimepoint);
 
   ElectionOutcome outcome = registry.determineOutcome();
-  qdb_info(registry.describeOutcome());
+  // Not inside qdb_info: describeOutcome may need to log as well
+  std::string description = registry.describeOutcome();
+  qdb_info(description);
 
   if(outcome == ElectionOutcome::kElected) {
     if(state.ascend(votereq.term)) {
-- 
2.43.0


From 7b9e5849726241eea3f397444a6a551339e066c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 33/71] fix: a write racing with the loss of leadership
 deadlocked the dispatcher

---
 src/raft/RaftDispatcher.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 28c7eba..251609c 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -435,21 +435,23 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
   ClockValue txTimestamp = stateMachine.getDynamicClock();
   LeaseFilter::transform(tx, txTimestamp);
 
-  // send request to the write tracker
-  std::scoped_lock lock(raftCommand);
+  {
+    // send request to the write tracker
+    std::scoped_lock lock(raftCommand);
 
-  LogIndex index = journal.getLogSize();
+    LogIndex index = journal.getLogSize();
 
-  if(!writeTracker.append(index, snapshot->term, std::move(tx), conn->getQueue(), redisDispatcher)) {
-    // We were most likely hit by the following race:
-    // - We retrieved the state snapshot.
-    // - The raft term was changed in the meantime, we lost leadership.
-    // - The journal rejected the entry due to term mismatch.
-    // Let's simply retry.
-    return this->service(conn, tx);
+    if(writeTracker.append(index, snapshot->term, std::move(tx), conn->getQueue(), redisDispatcher)) {
+      return 1;
+    }
   }
 
-  return 1;
+  // We were most likely hit by the following race:
+  // - We retrieved the state snapshot.
+  // - The raft term was changed in the meantime, we lost leadership.
+  // - The journal rejected the entry due to term mismatch.
+  // Let's simply retry, without holding the lock.
+  return this->service(conn, tx);
 }
 
 RaftHeartbeatResponse RaftDispatcher::heartbeat(const RaftHeartbeatRequest &req) {
-- 
2.43.0


From 64e2a0dbdca09b1b6b95718acf0feb34d7d1a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 34/71] fix: a membership change while the replicator is not
 active crashed the node

---
 src/raft/RaftReplicator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 416a630..25f3c82 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -666,6 +666,14 @@ static std::vector<RaftServer> all_servers_except_myself(const std::vector<RaftS
 }
 
 void RaftReplicator::reconfigure() {
+  std::scoped_lock lock(mtx);
+
+  if(!snapshot) {
+    // Not active, or no longer so: activate() will take the membership at that
+    // point into account.
+    return;
+  }
+
   RaftMembership membership = journal.getMembership();
   qdb_info("Reconfiguring replicator for membership epoch " << membership.epoch);
 
-- 
2.43.0


From 581c988282c88ad9eb7430d36ab8dab2d8bb50bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 35/71] fix: membership changes naming nodes which are not
 being replicated to crashed the leader

---
 src/raft/RaftDispatcher.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 251609c..6d61fa9 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -82,13 +82,23 @@ bool RaftDispatcher::checkIfNodeRemovalAcceptable(const RaftServer &srv) {
   // Build a replication status object with how the full members would
   // look like after the node removal
 
-  ReplicationStatus replicationStatus = replicator.getStatus();
-  replicationStatus.removeReplicas(journal.getMembership().observers);
-
+  ReplicationStatus currentStatus = replicator.getStatus();
   ReplicaStatus leaderStatus = { state.getMyself(), true, journal.getLogSize() };
-  replicationStatus.addReplica(leaderStatus);
-  if(replicationStatus.contains(srv)) {
-    replicationStatus.removeReplica(srv);
+
+  ReplicationStatus replicationStatus;
+  for(const RaftServer& node : journal.getMembership().nodes) {
+    if(node == srv) continue;
+
+    if(node == state.getMyself()) {
+      replicationStatus.addReplica(leaderStatus);
+    }
+    else if(currentStatus.contains(node)) {
+      replicationStatus.addReplica(currentStatus.getReplicaStatus(node));
+    }
+    else {
+      // Nothing is known about this node, replication has not started yet
+      replicationStatus.addReplica( { node, false, -1 } );
+    }
   }
 
   return replicationStatus.quorumUpToDate(leaderStatus.logSize);
@@ -287,7 +297,7 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       }
       else if(req.getCommand() == RedisCommand::RAFT_PROMOTE_OBSERVER) {
         ReplicationStatus replicationStatus = replicator.getStatus();
-        if(!replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
+        if(!replicationStatus.contains(srv) || !replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
           return conn->err("membership update blocked, observer is not up-to-date");
         }
 
-- 
2.43.0


From d21bb1d54f5a56d08b9236719f2e1b8064b553b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 36/71] fix: malformed entries in an append request were read
 out of bounds

---
 src/raft/RaftCommon.hh | 7 ++++++-
 src/raft/RaftUtils.cc  | 5 +++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftCommon.hh b/src/raft/RaftCommon.hh
index 138ad10..82d8e62 100644
--- a/src/raft/RaftCommon.hh
+++ b/src/raft/RaftCommon.hh
@@ -79,20 +79,25 @@ struct RaftEntry {
     return ss.str();
   }
 
-  static void deserialize(RaftEntry &entry, std::string_view data) {
+  static bool deserialize(RaftEntry &entry, std::string_view data) {
     entry.request.clear();
+    if(data.size() < sizeof(term)) return false;
     entry.term = fetch_int_from_string(data.data());
 
     const char *pos = data.data() + sizeof(term);
     const char *end = data.data() + data.size();
 
     while(pos < end) {
+      if(end - pos < (int64_t) sizeof(int64_t)) return false;
       int64_t len = fetch_int_from_string(pos);
       pos += sizeof(len);
 
+      if(len < 0 || len > end - pos) return false;
       entry.request.emplace_back(pos, len);
       pos += len;
     }
+
+    return true;
   }
 
   static int64_t fetchTerm(std::string_view data) {
diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index 4ebbfa1..650df27 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -154,12 +154,13 @@ bool RaftParser::appendEntries(RedisRequest &&source, RaftAppendEntriesRequest &
   dest.commitIndex = binaryStringToInt(source[2].data() + 3*sizeof(int64_t) );
   nreqs            = binaryStringToInt(source[2].data() + 4*sizeof(int64_t) );
 
-  if((int) source.size() != 3 + nreqs) return false;
+  if(nreqs != (int64_t) source.size() - 3) return false;
   dest.entries.resize(nreqs);
 
   int64_t index = 3;
   for(int64_t i = 0; i < nreqs; i++) {
-    RaftEntry::deserialize(dest.entries[i], source[index]);
+    if(!RaftEntry::deserialize(dest.entries[i], source[index])) return false;
+    if(dest.entries[i].request.size() == 0) return false;
     index++;
   }
 
-- 
2.43.0


From de5cf2bb1b2855d62ef3dff313d335c9014cedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 37/71] fix: trimming already past its checks ignored a block
 enforced meanwhile

---
 src/raft/RaftTrimmer.cc | 27 ++++++++++++++++++---------
 src/raft/RaftTrimmer.hh |  3 ++-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/raft/RaftTrimmer.cc b/src/raft/RaftTrimmer.cc
index eff6f1b..ebece7b 100644
--- a/src/raft/RaftTrimmer.cc
+++ b/src/raft/RaftTrimmer.cc
@@ -42,7 +42,7 @@ LogIndex RaftTrimmingBlock::getPreservationIndex() const {
 }
 
 void RaftTrimmingBlock::enforce(LogIndex limit) {
-  preserveIndex = limit;
+  LogIndex previous = preserveIndex.exchange(limit);
 
   if(registered && limit == std::numeric_limits<LogIndex>::max()) {
     trimmer.registerChange(this);
@@ -52,6 +52,10 @@ void RaftTrimmingBlock::enforce(LogIndex limit) {
     trimmer.registerChange(this);
     registered = true;
   }
+  else if(limit < previous) {
+    // More entries to spare than before, wait out any trimming in progress.
+    trimmer.registerChange(this);
+  }
 }
 
 void RaftTrimmingBlock::lift() {
@@ -78,7 +82,10 @@ void RaftTrimmer::registerChange(RaftTrimmingBlock* block) {
 
 bool RaftTrimmer::canTrimUntil(LogIndex threshold) {
   std::scoped_lock lock(mtx);
+  return canTrimUntilNoLock(threshold);
+}
 
+bool RaftTrimmer::canTrimUntilNoLock(LogIndex threshold) {
   for(auto it = blocks.begin(); it != blocks.end(); it++) {
     if((*it)->getPreservationIndex() <= threshold) {
       return false;
@@ -106,20 +113,22 @@ void RaftTrimmer::main(ThreadAssistant &assistant) {
 
     threshold = start + trimConfig.step;
 
-    // Check if any trimming block is preserving these entries.
-    if(!canTrimUntil(threshold)) {
-      goto wait;
-    }
-
     // A last, paranoid check: Have the entries we're about to remove been
     // both committed and applied?
     if(journal.getCommitIndex() <= threshold || stateMachine.getLastApplied() <= threshold) {
       goto wait;
     }
 
-    // All clear, go.
-    journal.trimUntil(threshold);
-    continue; // no wait
+    {
+      // Check if any trimming block is preserving these entries. Keep the lock
+      // until trimming is done: Once enforce has returned, a block must hold.
+      std::scoped_lock lock(mtx);
+      if(canTrimUntilNoLock(threshold)) {
+        // All clear, go.
+        journal.trimUntil(threshold);
+        continue; // no wait
+      }
+    }
 
 wait:
       assistant.wait_for(std::chrono::seconds(1));
diff --git a/src/raft/RaftTrimmer.hh b/src/raft/RaftTrimmer.hh
index 33ace85..a775354 100644
--- a/src/raft/RaftTrimmer.hh
+++ b/src/raft/RaftTrimmer.hh
@@ -60,7 +60,7 @@ private:
 
   // max: block is inactive
   // 0: preserve ALL entries
-  std::atomic<LogIndex> preserveIndex;
+  std::atomic<LogIndex> preserveIndex {std::numeric_limits<LogIndex>::max()};
   bool registered {false};
 };
 
@@ -79,6 +79,7 @@ private:
   StateMachine &stateMachine;
   AssistedThread mainThread;
 
+  bool canTrimUntilNoLock(LogIndex threshold);
   void main(ThreadAssistant &assistant);
   friend class RaftTrimmingBlock;
 };
-- 
2.43.0


From fd014b41beaaf6c66075fba3d3a76bf606f645bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 38/71] fix: an unusable trimming configuration made the
 trimmer use uninitialized limits

---
 src/raft/RaftConfig.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftConfig.cc b/src/raft/RaftConfig.cc
index 92f573b..b2234d6 100644
--- a/src/raft/RaftConfig.cc
+++ b/src/raft/RaftConfig.cc
@@ -42,6 +42,10 @@ bool TrimmingConfig::parse(const std::string &str) {
     return false;
   }
 
+  if(parts[0] < 0 || parts[1] <= 0) {
+    return false;
+  }
+
   keepAtLeast = parts[0];
   step = parts[1];
   return true;
@@ -84,12 +88,13 @@ EncodedConfigChange RaftConfig::setResilveringEnabled(bool value) {
 }
 
 TrimmingConfig RaftConfig::getTrimmingConfig() {
+  const TrimmingConfig defaultConfig = { 50000000, 200000 };
+
   std::string trimConfig;
   rocksdb::Status st = stateMachine.configGet(kTrimConfigKey, trimConfig);
 
   if(st.IsNotFound()) {
-    // Return default values
-    return { 50000000, 200000 };
+    return defaultConfig;
   }
   else if(!st.ok()) {
     qdb_throw("Error when retrieving journal trim limit: " << st.ToString());
@@ -98,6 +103,7 @@ TrimmingConfig RaftConfig::getTrimmingConfig() {
   TrimmingConfig ret;
   if(!ret.parse(trimConfig)) {
     qdb_misconfig("Unable to parse trimming configuration key: " << kTrimConfigKey << " => " << trimConfig);
+    return defaultConfig;
   }
 
   return ret;
-- 
2.43.0


From 0b98f42beb5a54cdf221efa897be134b258a216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:27 +0000
Subject: [PATCH 39/71] fix: a target which stopped answering during streaming
 replication was reported online forever

---
 src/raft/RaftReplicator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 25f3c82..c7d0813 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -248,6 +248,15 @@ void RaftReplicaTracker::monitorAckReception(ThreadAssistant &assistant) {
         streamingUpdates = false;
         return;
       }
+
+      attempts++;
+    }
+
+    if(attempts == 10) {
+      // No reply for a very long time: stop streaming, so that the target is
+      // recognized as offline
+      streamingUpdates = false;
+      return;
     }
 
     // If we're here, an acknowledgement to AppendEntries has been received.
-- 
2.43.0


From 16a5eb6ae386206db51e4b7427d907e77575b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:27 +0000
Subject: [PATCH 40/71] fix: a new leader accepted membership changes before
 committing an entry of its own term

---
 src/raft/RaftDispatcher.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 6d61fa9..fc22517 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -282,6 +282,13 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       if(snapshot->status != RaftStatus::LEADER) return conn->err("not a leader");
       if(srv == state.getMyself()) return conn->err("cannot perform membership changes on current leader");
 
+      // A previous leader may have left behind a membership update which we don't
+      // know about, but some nodes do. Only once an entry of our own term has been
+      // committed is it certain that such an update can no longer take effect.
+      if(journal.getCommitIndex() < snapshot->leadershipMarker) {
+        return conn->err("membership update blocked, leadership marker has not been committed yet");
+      }
+
       std::string err;
       bool rc;
 
-- 
2.43.0


From 1c7bcca5fcfa594be7eb70c5a4db7698934fffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:45 +0000
Subject: [PATCH 41/71] fix: an invalid resilvering flag crashed the leader

---
 src/raft/RaftConfig.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftConfig.cc b/src/raft/RaftConfig.cc
index b2234d6..73643aa 100644
--- a/src/raft/RaftConfig.cc
+++ b/src/raft/RaftConfig.cc
@@ -79,7 +79,8 @@ bool RaftConfig::getResilveringEnabled() {
     return false;
   }
 
-  qdb_throw("Invalid value for raft resilvering flag: " << value);
+  qdb_misconfig("Invalid value for raft resilvering flag: " << value);
+  return true;
 }
 
 EncodedConfigChange RaftConfig::setResilveringEnabled(bool value) {
-- 
2.43.0


From 6f06b534bc7671249838519d1a6260afc55d7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 42/71] fix: EXEC after pipelined writes reached the backend,
 and crashed a raft node

---
 src/Connection.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 22a8073..8104e3b 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -314,12 +314,6 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       continue;
     }
 
-    // EXEC without MULTI?
-    if(currentRequest.getCommand() == RedisCommand::EXEC && !multiHandler.active()) {
-      this->err("EXEC without MULTI");
-      continue;
-    }
-
     bool serializedTransaction = (currentRequest.getCommand() == RedisCommand::TX_READWRITE || currentRequest.getCommand() == RedisCommand::TX_READONLY);
     if(serializedTransaction && (!multiHandler.active() || multiHandler.isPhantom())) {
       multiHandler.finalizePhantomTransaction(dispatcher, this);
@@ -345,6 +339,13 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       }
     }
 
+    // EXEC without MULTI? A batch of pipelined writes does not count as one.
+    if(currentRequest.getCommand() == RedisCommand::EXEC) {
+      multiHandler.finalizePhantomTransaction(dispatcher, this);
+      this->err("EXEC without MULTI");
+      continue;
+    }
+
     if(currentRequest.getCommand() == RedisCommand::DISCARD) {
       multiHandler.finalizePhantomTransaction(dispatcher, this);
       this->err("DISCARD without MULTI");
-- 
2.43.0


From 9b8773bef847d0acf54cad3145edde3e4624f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:49 +0000
Subject: [PATCH 43/71] fix: CLIENT without arguments read out of bounds

---
 src/QuarkDBNode.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 7b01f7f..45e6732 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -105,6 +105,7 @@ LinkStatus QuarkDBNode::dispatch(Connection *conn, RedisRequest &req) {
       return conn->raw(handlePing(req));
     }
     case RedisCommand::CLIENT: {
+      if(req.size() < 2) return conn->errArgs(req[0]);
       if(caseInsensitiveEquals(req[1], "setname")) {
         if(req.size() != 3) return conn->errArgs(req[0]);
 
-- 
2.43.0


From ad9d3c9c8e0be257e29ceb81708d427c85f166fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:16 +0000
Subject: [PATCH 44/71] fix: deleting a snapshot deleted other directories if
 its path held a space

---
 src/ShardDirectory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 1016959..ba9e928 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -34,7 +34,7 @@ ShardSnapshot::ShardSnapshot(const std::string &path_)
 : path(path_) { }
 
 ShardSnapshot::~ShardSnapshot() {
-  system(SSTR("rm -rf " << path).c_str());
+  system(SSTR("rm -rf -- " << quotes(path)).c_str());
 }
 
 std::string ShardSnapshot::getPath() {
-- 
2.43.0


From e2c18c9e1d2217098ed8abb8d74cb9158ab206be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:31 +0000
Subject: [PATCH 45/71] fix: resilvering sent unreadable files as empty ones
 and went on

---
 src/raft/RaftResilverer.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/raft/RaftResilverer.cc b/src/raft/RaftResilverer.cc
index 321a277..31ebe18 100644
--- a/src/raft/RaftResilverer.cc
+++ b/src/raft/RaftResilverer.cc
@@ -30,7 +30,6 @@
 #include "utils/DirectoryIterator.hh"
 #include "utils/FileUtils.hh"
 #include <dirent.h>
-#include <fstream>
 
 using namespace quarkdb;
 
@@ -115,11 +114,13 @@ void RaftResilverer::cancel(const std::string &reason) {
 }
 
 bool RaftResilverer::copyFile(const std::string &path, const std::string &prefix, std::string &err) {
-  std::ifstream t(path);
-  std::stringstream buffer;
-  buffer << t.rdbuf();
+  std::string contents;
+  if(!readFile(path, contents)) {
+    err = SSTR("Unable to read " << path);
+    return false;
+  }
 
-  OkResponseVerifier verifier(talker.resilveringCopy(resilveringID, prefix, buffer.str()));
+  OkResponseVerifier verifier(talker.resilveringCopy(resilveringID, prefix, contents));
   if(!verifier.ok()) {
     err = SSTR("Error when coping " << path << ": " << verifier.err());
   }
@@ -185,6 +186,7 @@ void RaftResilverer::main(ThreadAssistant &assistant) {
   size_t totalFiles = 0;
   if(!countFilesInDirectoryRecursively(shardSnapshot->getPath(), err, totalFiles)) {
     setStatus(ResilveringState::FAILED, err);
+    return;
   }
 
   mFilesTotal = totalFiles;
-- 
2.43.0


From e3ab292c4ce15ad8c5727be89b5f3d269c65562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:48 +0000
Subject: [PATCH 46/71] fix: resilvering could write outside its arena, or
 record an unreadable history

---
 src/ShardDirectory.cc | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index ba9e928..c9639a2 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -23,6 +23,7 @@
 
 #include "ShardDirectory.hh"
 #include "utils/FileUtils.hh"
+#include "Utils.hh"
 #include "StateMachine.hh"
 #include "raft/RaftJournal.hh"
 
@@ -291,7 +292,38 @@ std::unique_ptr<ShardSnapshot> ShardDirectory::takeSnapshot(const SnapshotID &id
   return std::unique_ptr<ShardSnapshot>(new ShardSnapshot(snapshotDirectory));
 }
 
+//------------------------------------------------------------------------------
+// Event IDs name directories, and are stored in the resilvering history.
+//------------------------------------------------------------------------------
+static bool checkResilveringID(const ResilveringEventID &id, std::string &err) {
+  if(id.empty() || id == "." || id == ".." || id.find_first_of(std::string("/\n\0", 3)) != std::string::npos || id.find(" - ") != std::string::npos) {
+    err = SSTR("Invalid resilvering ID: " << quotes(id));
+    return false;
+  }
+
+  return true;
+}
+
+//------------------------------------------------------------------------------
+// Received files need to stay inside the resilvering arena.
+//------------------------------------------------------------------------------
+static bool checkResilveringFilename(std::string_view filename, std::string &err) {
+  for(const std::string &part : split(std::string(filename), "/")) {
+    if(part.empty() || part == "." || part == ".." || part.find('\0') != std::string::npos) {
+      err = SSTR("Invalid filename to resilver: " << quotes(filename));
+      return false;
+    }
+  }
+
+  return true;
+}
+
 bool ShardDirectory::resilveringStart(const ResilveringEventID &id, std::string &err) {
+  if(!checkResilveringID(id, err)) {
+    qdb_critical(err);
+    return false;
+  }
+
   if(!mkpath(getResilveringArena(id) + "/", 0755, err)) {
     err = SSTR("Unable to create resilvering-arena for '" << id << "'");
     qdb_critical(err);
@@ -304,6 +336,10 @@ bool ShardDirectory::resilveringStart(const ResilveringEventID &id, std::string
 bool ShardDirectory::resilveringCopy(const ResilveringEventID &id, std::string_view filename,  std::string_view contents, std::string &err) {
   std::string targetPath = pathJoin(getResilveringArena(id), filename);
 
+  if(!checkResilveringID(id, err) || !checkResilveringFilename(filename, err)) {
+    goto error;
+  }
+
   if(!mkpath(targetPath, 0755, err)) {
     goto error;
   }
@@ -322,6 +358,10 @@ error:
 // When calling this function, we assume caller has released any references
 // to the journal and state machine!
 bool ShardDirectory::resilveringFinish(const ResilveringEventID &id, std::string &err) {
+  if(!checkResilveringID(id, err)) {
+    return false;
+  }
+
   std::string resilveringArena = getResilveringArena(id);
   if(!directoryExists(resilveringArena, err)) {
     return false;
-- 
2.43.0


From ebb7aeb10545db7a7707e8742c7eba8bbe3765ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:15 +0000
Subject: [PATCH 47/71] fix: resilvering replaced the data of a node with
 incomplete or older contents

---
 src/ShardDirectory.cc | 53 +++++++++++++++++++++++++++++++++++++++++++
 src/ShardDirectory.hh |  1 +
 2 files changed, 54 insertions(+)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index c9639a2..310c78f 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -355,6 +355,54 @@ error:
   return false;
 }
 
+//------------------------------------------------------------------------------
+// Are the contents of this arena fit to replace our current ones? They have
+// to be complete, and must not take us back in time: the node sending them
+// might not be the leader anymore.
+//------------------------------------------------------------------------------
+bool ShardDirectory::checkResilveringArena(const std::string &arena, std::string &err) {
+  std::string smPath = pathJoin(arena, "state-machine");
+  std::string journalPath = pathJoin(arena, "raft-journal");
+
+  if(!directoryExists(smPath, err) || !directoryExists(journalPath, err)) {
+    return false;
+  }
+
+  try {
+    StateMachine newStateMachine(smPath, configuration.getWriteAheadLog());
+    RaftJournal newJournal(journalPath);
+
+    LogIndex lastApplied = newStateMachine.getLastApplied();
+    if(lastApplied + 1 < newJournal.getLogStart() || lastApplied > newJournal.getCommitIndex()) {
+      err = SSTR("State machine at index " << lastApplied << " does not match journal: log start " << newJournal.getLogStart() << ", commit index " << newJournal.getCommitIndex());
+      return false;
+    }
+
+    if(!hasRaftJournal(err)) {
+      err.clear();
+      return true;
+    }
+
+    RaftJournal *journal = getRaftJournal();
+    RaftTerm newLastTerm, lastTerm;
+    newJournal.fetch_or_die(newJournal.getLogSize() - 1, newLastTerm);
+    journal->fetch_or_die(journal->getLogSize() - 1, lastTerm);
+
+    if(newJournal.getCurrentTerm() < journal->getCurrentTerm() || newLastTerm < lastTerm ||
+       (newLastTerm == lastTerm && newJournal.getLogSize() < journal->getLogSize())) {
+      err = SSTR("Received contents are older than the current ones: term " << newJournal.getCurrentTerm() << ", last entry " << newJournal.getLogSize() - 1 << " of term " << newLastTerm
+        << " vs term " << journal->getCurrentTerm() << ", last entry " << journal->getLogSize() - 1 << " of term " << lastTerm);
+      return false;
+    }
+  }
+  catch(const FatalException &exc) {
+    err = SSTR("Received contents are not usable: " << exc.what());
+    return false;
+  }
+
+  return true;
+}
+
 // When calling this function, we assume caller has released any references
 // to the journal and state machine!
 bool ShardDirectory::resilveringFinish(const ResilveringEventID &id, std::string &err) {
@@ -367,6 +415,11 @@ bool ShardDirectory::resilveringFinish(const ResilveringEventID &id, std::string
     return false;
   }
 
+  if(!checkResilveringArena(resilveringArena, err)) {
+    qdb_critical("Refusing to finalize resilvering, id '" << id << "': " << err);
+    return false;
+  }
+
   detach();
 
   qdb_event("Finalizing resilvering, id '" << id << "'.");
diff --git a/src/ShardDirectory.hh b/src/ShardDirectory.hh
index fd48a5a..82eb3c1 100644
--- a/src/ShardDirectory.hh
+++ b/src/ShardDirectory.hh
@@ -100,6 +100,7 @@ private:
   void parseResilveringHistory();
   void storeResilveringHistory();
 
+  bool checkResilveringArena(const std::string &arena, std::string &err);
   void detach();
   std::string path;
   Configuration configuration;
-- 
2.43.0


From 0a9498c17ea05158592a86981c150075344fe491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:15 +0000
Subject: [PATCH 48/71] fix: a crash while finalizing a resilvering left a node
 which could not start

---
 src/ShardDirectory.cc | 57 +++++++++++++++++++++++++++++++++++++------
 src/ShardDirectory.hh |  2 ++
 2 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 310c78f..f370252 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -22,11 +22,14 @@
  ************************************************************************/
 
 #include "ShardDirectory.hh"
+#include "utils/DirectoryIterator.hh"
 #include "utils/FileUtils.hh"
 #include "Utils.hh"
 #include "StateMachine.hh"
 #include "raft/RaftJournal.hh"
 
+#include <dirent.h>
+#include <string.h>
 #include <sys/stat.h>
 
 using namespace quarkdb;
@@ -58,7 +61,13 @@ void ShardDirectory::parseResilveringHistory() {
 }
 
 void ShardDirectory::storeResilveringHistory() {
-  write_file_or_die(resilveringHistoryPath(), resilveringHistory.serialize());
+  // Never leave behind a half-written file.
+  std::string tmpPath = SSTR(resilveringHistoryPath() << ".tmp");
+  write_file_or_die(tmpPath, resilveringHistory.serialize());
+
+  if(rename(tmpPath.c_str(), resilveringHistoryPath().c_str()) != 0) {
+    qdb_throw("Unable to rename '" << tmpPath << "': " << strerror(errno));
+  }
 }
 
 ShardDirectory::ShardDirectory(const std::string &initpath, Configuration config)
@@ -75,6 +84,7 @@ ShardDirectory::ShardDirectory(const std::string &initpath, Configuration config
   }
 
   parseResilveringHistory();
+  completeInterruptedResilvering();
 }
 
 ShardDirectory::~ShardDirectory() {
@@ -431,22 +441,53 @@ bool ShardDirectory::resilveringFinish(const ResilveringEventID &id, std::string
   std::string destination = supplanted;
   rename_directory_or_die(source, destination);
 
-  source = resilveringArena;
-  destination = currentPath();
-  rename_directory_or_die(source, destination);
+  // From now on we need to go through with it, even if we crash.
+  installResilveringArena(id);
 
   // By some kind of miracle, we have survived up to this point. Attach!
   getStateMachine();
   getRaftJournal();
 
-  // Store the resilvering event into the history.
-  resilveringHistory.append(ResilveringEvent(id, time(NULL)));
-  storeResilveringHistory();
-
   qdb_event("Resilvering '" << id << "'" << " has been successful!");
   return true;
 }
 
+//------------------------------------------------------------------------------
+// Our old contents have been supplanted: Put the new ones in their place.
+//------------------------------------------------------------------------------
+void ShardDirectory::installResilveringArena(const ResilveringEventID &id) {
+  // Store the resilvering event into the history.
+  if(resilveringHistory.size() == 0 || resilveringHistory.at(resilveringHistory.size() - 1).getID() != id) {
+    resilveringHistory.append(ResilveringEvent(id, time(NULL)));
+    storeResilveringHistory();
+  }
+
+  rename_directory_or_die(getResilveringArena(id), currentPath());
+}
+
+//------------------------------------------------------------------------------
+// If we crashed after supplanting our old contents, but before putting the new
+// ones in their place, do that now.
+//------------------------------------------------------------------------------
+void ShardDirectory::completeInterruptedResilvering() {
+  std::string err, supplanted = pathJoin(path, "supplanted");
+  if(directoryExists(currentPath(), err) || !directoryExists(supplanted, err)) {
+    return;
+  }
+
+  DirectoryIterator iterator(supplanted);
+  struct dirent *entry;
+
+  while( (entry = iterator.next()) ) {
+    std::string id(entry->d_name);
+    if(id == "." || id == ".." || !directoryExists(getResilveringArena(id), err)) continue;
+
+    qdb_event("Completing interrupted resilvering, id '" << id << "'.");
+    installResilveringArena(id);
+    return;
+  }
+}
+
 std::string ShardDirectory::getSupplanted(const ResilveringEventID &id) {
   return pathJoin(pathJoin(path, "supplanted"), id);
 }
diff --git a/src/ShardDirectory.hh b/src/ShardDirectory.hh
index 82eb3c1..a3d1764 100644
--- a/src/ShardDirectory.hh
+++ b/src/ShardDirectory.hh
@@ -100,6 +100,8 @@ private:
   void parseResilveringHistory();
   void storeResilveringHistory();
 
+  void installResilveringArena(const ResilveringEventID &id);
+  void completeInterruptedResilvering();
   bool checkResilveringArena(const std::string &arena, std::string &err);
   void detach();
   std::string path;
-- 
2.43.0


From 812cf9b93a58aea17d7d910151787776e8ad788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 49/71] fix: a shard made from an existing state machine, or at
 a given index, could not be opened

---
 src/ShardDirectory.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index f370252..3f3cdf8 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -182,6 +182,7 @@ void ShardDirectory::initializeStateMachine(std::unique_ptr<StateMachine> sm, Lo
     //--------------------------------------------------------------------------
     wipeoutStateMachineContents();
     getStateMachine()->forceResetLastApplied(initialLastApplied);
+    return;
   }
 
   //----------------------------------------------------------------------------
@@ -261,7 +262,7 @@ ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID cl
 
   // Standalone shard, we start from LogIndex 0
   shardDirectory->initializeStateMachine(std::move(sm), 0);
-  return new ShardDirectory(path);
+  return shardDirectory;
 }
 
 ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID clusterID, ShardID shardID, const std::vector<RaftServer> &nodes, LogIndex startIndex, FsyncPolicy fsyncPolicy, std::unique_ptr<StateMachine> sm, Status &st) {
-- 
2.43.0


From 12c89b321179058ed5fd609fe9f829df6908f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:24 +0000
Subject: [PATCH 50/71] fix: finishing a resilvering raced with the requests
 already being dispatched

Shard::start() accepts requests again as soon as it is attached, and then
spinup() wrote to 'dispatcher', which these requests read. attach() has set
it already.
---
 src/Shard.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Shard.cc b/src/Shard.cc
index 01f5d11..a7e2594 100644
--- a/src/Shard.cc
+++ b/src/Shard.cc
@@ -100,7 +100,6 @@ RaftGroup* Shard::getRaftGroup() {
 
 void Shard::spinup() {
   raftGroup->spinup();
-  dispatcher = static_cast<Dispatcher*>(raftGroup->dispatcher());
 }
 
 void Shard::spindown() {
-- 
2.43.0


From de5ab8c64bee14fd27ee84d5175e6076e5485f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:19 +0000
Subject: [PATCH 51/71] fix: a checkpoint taken while a resilvering was
 finishing used databases being closed

QUARKDB_CHECKPOINT runs outside of the in-flight tracking which protects the
backend: finishing a resilvering could delete the state machine and the
journal under it, or swap them in the middle of a checkpoint.
---
 src/ShardDirectory.cc | 2 ++
 src/ShardDirectory.hh | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 3f3cdf8..fc23079 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -426,6 +426,7 @@ bool ShardDirectory::resilveringFinish(const ResilveringEventID &id, std::string
     return false;
   }
 
+  std::scoped_lock lock(contentsMtx);
   if(!checkResilveringArena(resilveringArena, err)) {
     qdb_critical("Refusing to finalize resilvering, id '" << id << "': " << err);
     return false;
@@ -520,6 +521,7 @@ std::string ShardDirectory::checkpoint(std::string_view path) {
     return SSTR("Could not mkdir " << checkpointCurrent << ": " << errno << " (" << strerror(errno) << ")");
   }
 
+  std::scoped_lock lock(contentsMtx);
   std::string smCheckpoint = pathJoin(checkpointCurrent, "state-machine");
   rocksdb::Status st = getStateMachine()->checkpoint(smCheckpoint);
   if(!st.ok()) {
diff --git a/src/ShardDirectory.hh b/src/ShardDirectory.hh
index a3d1764..b94256d 100644
--- a/src/ShardDirectory.hh
+++ b/src/ShardDirectory.hh
@@ -25,6 +25,7 @@
 #define __QUARKDB_SHARD_DIRECTORY_H__
 
 #include <memory>
+#include <mutex>
 #include "Common.hh"
 #include "Configuration.hh"
 #include "Status.hh"
@@ -108,6 +109,8 @@ private:
   Configuration configuration;
   ShardID shardID;
 
+  // Held while taking a checkpoint, or replacing our contents through resilvering.
+  std::mutex contentsMtx;
   StateMachine *smptr = nullptr;
   RaftJournal *journalptr = nullptr;
 
-- 
2.43.0


From 460cdb5e728cab90bb0406d33cb2a3ee1429e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 52/71] fix: the commit index was not synced under fsync policy
 'always'

The journal is documented to be synced for each and every write. After a power
loss the state machine could be ahead of the commit index, and a node in this
state refuses to run for leader.
---
 src/raft/RaftJournal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index ac8c243..80a2e87 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -272,7 +272,9 @@ bool RaftJournal::setCommitIndex(LogIndex newIndex) {
 }
 
 void RaftJournal::rawSetCommitIndex(LogIndex newIndex) {
-  this->set_int_or_die(KeyConstants::kJournal_CommitIndex, newIndex);
+  rocksdb::WriteBatch batch;
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_CommitIndex, intToBinaryString(newIndex)));
+  commitBatch(batch);
   commitIndex = newIndex;
   commitNotifier.notify_all();
 }
-- 
2.43.0


From 11388562728c5dbde09d5ff5f2993472b1d7efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 53/71] fix: a change of the fsync policy was not synced

Power loss right after could bring back a weaker policy.
---
 src/raft/RaftJournal.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index 80a2e87..67daa03 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -426,8 +426,12 @@ void RaftJournal::setFsyncPolicy(FsyncPolicy pol) {
   std::unique_lock lock(fsyncPolicyMutex);
 
   if(fsyncPolicy != pol) {
-    this->set_or_die(KeyConstants::kJournal_FsyncPolicy, fsyncPolicyToString(pol));
+    // The new policy determines if this write is synced, too.
     fsyncPolicy = pol;
+
+    rocksdb::WriteBatch batch;
+    THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_FsyncPolicy, fsyncPolicyToString(pol)));
+    commitBatch(batch, -1, true);
   }
 }
 
-- 
2.43.0


From a5227ee7979b76a0d59bacc155f63a6250e22e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:55 +0000
Subject: [PATCH 54/71] fix: rolling back a membership change was not synced
 under sync-important-updates

---
 src/raft/RaftJournal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index 67daa03..537e654 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -502,7 +502,9 @@ bool RaftJournal::removeEntries(LogIndex from) {
   // This should be extremely uncommon, so we log a critical message.
   //----------------------------------------------------------------------------
 
+  bool important = false;
   if(from <= membershipEpoch) {
+    important = true;
     std::scoped_lock lock2(membersMutex);
 
     LogIndex previousMembershipEpoch = this->get_int_or_die(KeyConstants::kJournal_PreviousMembershipEpoch);
@@ -519,7 +521,7 @@ bool RaftJournal::removeEntries(LogIndex from) {
     membershipEpoch = previousMembershipEpoch;
   }
 
-  commitBatch(batch, from);
+  commitBatch(batch, from, important);
   fetch_or_die(from-1, termOfLastEntry);
   return true;
 }
-- 
2.43.0


From b6f88fd526443d880d44a49bee75e667bbea6cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:19 +0000
Subject: [PATCH 55/71] fix: iterating over all subscriptions never ended once
 a staged key had been erased

---
 src/pubsub/ThreadSafeMultiMap.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pubsub/ThreadSafeMultiMap.hh b/src/pubsub/ThreadSafeMultiMap.hh
index 21b095d..338f030 100644
--- a/src/pubsub/ThreadSafeMultiMap.hh
+++ b/src/pubsub/ThreadSafeMultiMap.hh
@@ -25,6 +25,7 @@
 #define QUARKDB_PUBSUB_THREAD_SAFE_MULTIMAP_HH
 
 #include <shared_mutex>
+#include <mutex>
 #include <map>
 #include <set>
 #include <list>
@@ -361,6 +362,9 @@ public:
           // Found valid position
           return;
         }
+
+        // This key has been erased since it was staged, go to the next
+        keyIter.next();
       }
 
       isValid = false;
-- 
2.43.0


From 55a6713e0d91f70b9e72b87d55f46fb032d46a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:37 +0000
Subject: [PATCH 56/71] fix: subscriptions dropped by the node were still
 counted as active on their connection

---
 src/Connection.hh       |  2 +-
 src/pubsub/Publisher.cc | 14 ++++++++++----
 src/pubsub/Publisher.hh |  3 +++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/Connection.hh b/src/Connection.hh
index 5a1bfb6..3630549 100644
--- a/src/Connection.hh
+++ b/src/Connection.hh
@@ -68,7 +68,7 @@ public:
   LogIndex dispatchPending(RedisDispatcher *dispatcher, LogIndex commitIndex);
   bool appendIfAttached(RedisEncodedResponse &&raw);
   bool appendIfAttachedNoLock(RedisEncodedResponse &&raw);
-  size_t subscriptions = 0u;
+  std::atomic<size_t> subscriptions {0u};
 
   void subscribe(const std::string &item);
   void psubscribe(const std::string &item);
diff --git a/src/pubsub/Publisher.cc b/src/pubsub/Publisher.cc
index b9737b8..9cc94b8 100644
--- a/src/pubsub/Publisher.cc
+++ b/src/pubsub/Publisher.cc
@@ -58,32 +58,38 @@ Publisher::~Publisher() {
 
 void Publisher::purgeListeners(RedisEncodedResponse resp) {
   for(auto it = channelSubscriptions.getFullIterator(); it.valid(); it.next()) {
-    it.getValue()->appendIfAttached(RedisEncodedResponse(resp));
-    it.erase();
+    std::shared_ptr<PendingQueue> connection = it.getValue();
+    connection->subscriptions -= unsubscribe(connection, it.getKey());
+    connection->appendIfAttached(RedisEncodedResponse(resp));
   }
 
   for(auto it = patternMatcher.getFullIterator(); it.valid(); it.next()) {
-    it.getValue()->appendIfAttached(RedisEncodedResponse(resp));
-    it.erase();
+    std::shared_ptr<PendingQueue> connection = it.getValue();
+    connection->subscriptions -= punsubscribe(connection, it.getKey());
+    connection->appendIfAttached(RedisEncodedResponse(resp));
   }
 }
 
 bool Publisher::unsubscribe(std::shared_ptr<PendingQueue> connection, std::string_view channel) {
+  std::scoped_lock lock(subscriptionMtx);
   connection->unsubscribe(std::string(channel));
   return channelSubscriptions.erase(std::string(channel), connection);
 }
 
 bool Publisher::punsubscribe(std::shared_ptr<PendingQueue> connection, std::string_view pattern) {
+  std::scoped_lock lock(subscriptionMtx);
   connection->punsubscribe(std::string(pattern));
   return patternMatcher.erase(std::string(pattern), connection);
 }
 
 int Publisher::subscribe(std::shared_ptr<PendingQueue> connection, std::string_view channel) {
+  std::scoped_lock lock(subscriptionMtx);
   connection->subscribe(std::string(channel));
   return channelSubscriptions.insert(std::string(channel), connection);
 }
 
 int Publisher::psubscribe(std::shared_ptr<PendingQueue> connection, std::string_view pattern) {
+  std::scoped_lock lock(subscriptionMtx);
   connection->psubscribe(std::string(pattern));
   return patternMatcher.insert(std::string(pattern), connection);
 }
diff --git a/src/pubsub/Publisher.hh b/src/pubsub/Publisher.hh
index b108c0d..7eb24f6 100644
--- a/src/pubsub/Publisher.hh
+++ b/src/pubsub/Publisher.hh
@@ -73,6 +73,9 @@ private:
   qclient::WaitableQueue<VersionedHashRevisionTracker, 100> revisionQueue;
   AssistedThread asyncPublishingThread;
 
+  // Keeps what a connection is subscribed to in agreement with the maps below
+  std::mutex subscriptionMtx;
+
   // Map of subscribed-to channels
   ThreadSafeMultiMap<std::string, std::shared_ptr<PendingQueue>> channelSubscriptions;
 
-- 
2.43.0


From a7c50e5f841070ca8004b4ec855199e897cb6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:54 +0000
Subject: [PATCH 57/71] fix: PUBLISH counted listeners which were just leaving
 and did not receive the message

---
 src/Connection.cc       |  8 ++++++--
 src/Connection.hh       |  4 ++--
 src/pubsub/Publisher.cc | 10 ++++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 8104e3b..c20c929 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -66,23 +66,27 @@ void PendingQueue::punsubscribe(const std::string &item) {
   subscriptionTracker.removePattern(item);
 }
 
-bool PendingQueue::addMessageIfAttached(const std::string &channel, std::string_view payload) {
+bool PendingQueue::addMessageIfAttached(const std::string &channel, std::string_view payload, bool &delivered) {
+  delivered = false;
   std::scoped_lock lock(mtx);
   if(!conn) return false;
 
   if(!subscriptionTracker.hasChannel(channel)) return true;
   Connection::FlushGuard guard(conn);
   appendResponseNoLock(Formatter::message(supportsPushTypes, channel, payload));
+  delivered = true;
   return true;
 }
 
-bool PendingQueue::addPatternMessageIfAttached(const std::string &pattern, std::string_view channel, std::string_view payload) {
+bool PendingQueue::addPatternMessageIfAttached(const std::string &pattern, std::string_view channel, std::string_view payload, bool &delivered) {
+  delivered = false;
   std::scoped_lock lock(mtx);
   if(!conn) return false;
 
   if(!subscriptionTracker.hasPattern(pattern)) return true;
   Connection::FlushGuard guard(conn);
   appendResponseNoLock(Formatter::pmessage(supportsPushTypes, pattern, channel, payload));
+  delivered = true;
   return true;
 }
 
diff --git a/src/Connection.hh b/src/Connection.hh
index 3630549..bbecfa3 100644
--- a/src/Connection.hh
+++ b/src/Connection.hh
@@ -76,8 +76,8 @@ public:
   void unsubscribe(const std::string &item);
   void punsubscribe(const std::string &item);
 
-  bool addMessageIfAttached(const std::string &channel, std::string_view payload);
-  bool addPatternMessageIfAttached(const std::string &pattern, std::string_view channel, std::string_view payload);
+  bool addMessageIfAttached(const std::string &channel, std::string_view payload, bool &delivered);
+  bool addPatternMessageIfAttached(const std::string &pattern, std::string_view channel, std::string_view payload, bool &delivered);
 
   void activatePushTypes();
   bool hasPushTypesActive() const;
diff --git a/src/pubsub/Publisher.cc b/src/pubsub/Publisher.cc
index 9cc94b8..7cc1468 100644
--- a/src/pubsub/Publisher.cc
+++ b/src/pubsub/Publisher.cc
@@ -99,13 +99,14 @@ int Publisher::publishChannels(const std::string &channel, std::string_view payl
 
   // publish to matching channels
   for(auto it = channelSubscriptions.findMatching(std::string(channel)); it.valid(); it.next()) {
-    bool stillAlive = it.getValue()->addMessageIfAttached(channel, payload);
+    bool delivered = false;
+    bool stillAlive = it.getValue()->addMessageIfAttached(channel, payload, delivered);
 
     if(!stillAlive) {
       it.erase();
     }
     else {
-      hits++;
+      hits += delivered;
     }
   }
 
@@ -117,13 +118,14 @@ int Publisher::publishPatterns(const std::string& channel, std::string_view payl
 
   // publish to matching patterns
   for(auto it = patternMatcher.find(std::string(channel)); it.valid(); it.next()) {
-    bool stillAlive = it.getValue()->addPatternMessageIfAttached(it.getPattern(), channel, payload);
+    bool delivered = false;
+    bool stillAlive = it.getValue()->addPatternMessageIfAttached(it.getPattern(), channel, payload, delivered);
 
     if(!stillAlive) {
       it.erase();
     }
     else {
-      hits++;
+      hits += delivered;
     }
   }
 
-- 
2.43.0


From 14899c05876ad03ef6f7a037fcdf1a0352d18770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:40 +0000
Subject: [PATCH 58/71] fix: per-core counters were accessed past their end on
 CPU numbers beyond the count

---
 src/utils/CoreLocalArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/CoreLocalArray.hh b/src/utils/CoreLocalArray.hh
index a8e49f1..83d7949 100644
--- a/src/utils/CoreLocalArray.hh
+++ b/src/utils/CoreLocalArray.hh
@@ -111,7 +111,7 @@ public:
   //----------------------------------------------------------------------------
   int getCoreIndex() const {
     int cpuno = sched_getcpu();
-    if(cpuno < 0 || cpuno > (int) cpus) {
+    if(cpuno < 0 || cpuno >= (int) cpus) {
       cpuno = 0;
     }
 
-- 
2.43.0


From 1069189a42422899997578728ccc17da79a2b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:23 +0000
Subject: [PATCH 59/71] fix: Synchronized dropped the value it was constructed
 with

---
 src/utils/Synchronized.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Synchronized.hh b/src/utils/Synchronized.hh
index c090fbf..0ff2f35 100644
--- a/src/utils/Synchronized.hh
+++ b/src/utils/Synchronized.hh
@@ -31,7 +31,7 @@ namespace quarkdb {
 template<typename T>
 class Synchronized {
 public:
-  Synchronized(const T& t) {}
+  Synchronized(const T& t) : contents(t) {}
 
   Synchronized() {}
 
-- 
2.43.0


From c79ad6aa5bf2167b8ae78a347274b74529fce60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:23 +0000
Subject: [PATCH 60/71] fix: data race between joining a thread and asking it
 to stop

---
 src/utils/AssistedThread.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/AssistedThread.hh b/src/utils/AssistedThread.hh
index 8ed8d8d..8b8f478 100644
--- a/src/utils/AssistedThread.hh
+++ b/src/utils/AssistedThread.hh
@@ -186,7 +186,7 @@ public:
   // Moving is allowed.
   AssistedThread(AssistedThread&& other) {
     assistant = std::move(other.assistant);
-    joined = other.joined;
+    joined = other.joined.load();
     th = std::move(other.th);
     other.joined = true;
   }
@@ -242,7 +242,7 @@ public:
 
 private:
   std::unique_ptr<ThreadAssistant> assistant;
-  bool joined;
+  std::atomic<bool> joined;
   std::thread th;
 };
 
-- 
2.43.0


From 16a881b7392bdc6c1692b97f0d9dd47e4d973dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:23 +0000
Subject: [PATCH 61/71] fix: votedFor was read under a different lock than the
 one protecting it

---
 src/raft/RaftJournal.cc | 2 +-
 src/raft/RaftJournal.hh | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index 537e654..ed4b5bc 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -460,7 +460,7 @@ void RaftJournal::trimUntil(LogIndex newLogStart) {
 }
 
 RaftServer RaftJournal::getVotedFor() {
-  std::scoped_lock lock(votedForMutex);
+  std::scoped_lock lock(currentTermMutex);
   return votedFor;
 }
 
diff --git a/src/raft/RaftJournal.hh b/src/raft/RaftJournal.hh
index 33f0f67..a0cef52 100644
--- a/src/raft/RaftJournal.hh
+++ b/src/raft/RaftJournal.hh
@@ -147,7 +147,6 @@ private:
   std::mutex commitIndexMutex;
   std::mutex contentMutex;
   std::mutex membersMutex;
-  std::mutex votedForMutex;
   std::mutex fsyncPolicyMutex;
 
   std::condition_variable commitNotifier;
-- 
2.43.0


From bdeffcf3efe85a90dc63ae3d2865ff21d64941c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:41 +0000
Subject: [PATCH 62/71] fix: a journal scan starting at cursor 0 was refused

---
 src/raft/RaftDispatcher.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index fc22517..b3a6b3a 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -341,8 +341,9 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
         return conn->err(args.error);
       }
 
-      LogIndex cursor;
-      if(!ParseUtils::parseInt64(args.cursor, cursor)) {
+      // An empty cursor means "from the very beginning".
+      LogIndex cursor = 0;
+      if(!args.cursor.empty() && !ParseUtils::parseInt64(args.cursor, cursor)) {
         return conn->err(SSTR("invalid cursor: " << args.cursor));
       }
 
-- 
2.43.0


From 778788533f168ce1ec36119cb76c93bdacb7e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:51 +0000
Subject: [PATCH 63/71] fix: RAW_SCAN without arguments in a transaction with
 writes took down the node

---
 src/Dispatcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 2dfe79e..c6b5771 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -742,7 +742,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
 
       if(request.size() != 1 && request.size() != 2 && request.size() != 4) return errArgs(request);
 
-      std::string_view cursor;
+      std::string_view cursor = "";
       if(request.size() > 1) {
         cursor = request[1];
       }
-- 
2.43.0


From 1017ad16a27117b2bf57056e0f2f1a82e2efc8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:20 +0000
Subject: [PATCH 64/71] fix: reporting a malformed serialized transaction took
 down the node

---
 src/RedisRequest.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/RedisRequest.cc b/src/RedisRequest.cc
index 7b2eacc..aa2bb59 100644
--- a/src/RedisRequest.cc
+++ b/src/RedisRequest.cc
@@ -46,9 +46,11 @@ void RedisRequest::parseCommand() {
 
 std::string RedisRequest::toPrintableString() const {
   if(this->getCommand() == RedisCommand::TX_READONLY || this->getCommand() == RedisCommand::TX_READWRITE) {
+    // Not necessarily well-formed, clients could be sending anything.
     Transaction transaction;
-    transaction.fromRedisRequest(*this);
-    return transaction.toPrintableString();
+    if(transaction.deserialize(*this)) {
+      return transaction.toPrintableString();
+    }
   }
 
   std::stringstream ss;
-- 
2.43.0


From 110f3cc9a5eda923c03ba608ccb50e2041dd8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:20 +0000
Subject: [PATCH 65/71] fix: long glob patterns overflowed the stack

---
 deps/StringMatchLen.h | 223 ++++++++++++++++++++----------------------
 1 file changed, 106 insertions(+), 117 deletions(-)

diff --git a/deps/StringMatchLen.h b/deps/StringMatchLen.h
index cdb4e41..a2149d3 100644
--- a/deps/StringMatchLen.h
+++ b/deps/StringMatchLen.h
@@ -40,144 +40,133 @@
 
 namespace quarkdb {
 
-/* skipLongerMatches is set once the rest of the pattern following a '*' did
- * not match anywhere: trying longer matches for any earlier '*' is pointless. */
-inline int stringmatchlen_impl(const char *pattern, int patternLen,
-        const char *string, int stringLen, int nocase, int *skipLongerMatches)
+/* Glob-style pattern matching.
+ *
+ * Whenever something following a '*' does not match, only the most recent '*'
+ * needs to be retried with a longer match: should the rest of the pattern
+ * following it not match anywhere, longer matches for any earlier '*' are
+ * pointless, too. */
+inline int stringmatchlen(const char *pattern, int patternLen,
+        const char *string, int stringLen, int nocase)
 {
-    while(patternLen) {
-        switch(pattern[0]) {
-        case '*':
-            while (patternLen >= 2 && pattern[1] == '*') {
-                pattern++;
-                patternLen--;
-            }
-            if (patternLen == 1)
-                return 1; /* match */
-            while(stringLen) {
-                if (stringmatchlen_impl(pattern+1, patternLen-1,
-                            string, stringLen, nocase, skipLongerMatches))
-                    return 1; /* match */
-                if (*skipLongerMatches)
-                    return 0; /* no match */
-                string++;
-                stringLen--;
-            }
-            *skipLongerMatches = 1;
-            return 0; /* no match */
-            break;
-        case '?':
-            if (stringLen == 0)
-                return 0; /* no match */
-            string++;
-            stringLen--;
-            break;
-        case '[':
-        {
-            int negation, match;
+    /* What follows the most recent '*', and where to look for it next */
+    const char *retryPattern = nullptr, *retryString = nullptr;
+    int retryPatternLen = 0, retryStringLen = 0;
 
+    while(1) {
+        int match = 0;
+
+        if (patternLen == 0) {
             if (stringLen == 0)
-                return 0; /* no match */
+                return 1; /* match */
+        } else if (pattern[0] == '*') {
             pattern++;
             patternLen--;
-            negation = patternLen > 0 && pattern[0] == '^';
-            if (negation) {
+            if (patternLen == 0)
+                return 1; /* match */
+            retryPattern = pattern;
+            retryPatternLen = patternLen;
+            retryString = string;
+            retryStringLen = stringLen;
+            continue;
+        } else if (stringLen == 0) {
+            return 0; /* no match, and shorter rests won't match either */
+        } else {
+            switch(pattern[0]) {
+            case '?':
+                match = 1;
+                break;
+            case '[':
+            {
+                int negation;
+
                 pattern++;
                 patternLen--;
-            }
-            match = 0;
-            while(1) {
-                if (patternLen == 0) {
-                    pattern--;
-                    patternLen++;
-                    break;
-                } else if (patternLen >= 2 && pattern[0] == '\\') {
+                negation = patternLen > 0 && pattern[0] == '^';
+                if (negation) {
                     pattern++;
                     patternLen--;
-                    if (pattern[0] == string[0])
-                        match = 1;
-                } else if (pattern[0] == ']') {
-                    break;
-                } else if (patternLen >= 3 && pattern[1] == '-') {
-                    int start = pattern[0];
-                    int end = pattern[2];
-                    int c = string[0];
-                    if (start > end) {
-                        int t = start;
-                        start = end;
-                        end = t;
-                    }
-                    if (nocase) {
-                        start = tolower(start);
-                        end = tolower(end);
-                        c = tolower(c);
-                    }
-                    pattern += 2;
-                    patternLen -= 2;
-                    if (c >= start && c <= end)
-                        match = 1;
-                } else {
-                    if (!nocase) {
+                }
+                while(1) {
+                    if (patternLen == 0) {
+                        pattern--;
+                        patternLen++;
+                        break;
+                    } else if (patternLen >= 2 && pattern[0] == '\\') {
+                        pattern++;
+                        patternLen--;
                         if (pattern[0] == string[0])
                             match = 1;
-                    } else {
-                        if (tolower((int)pattern[0]) == tolower((int)string[0]))
+                    } else if (pattern[0] == ']') {
+                        break;
+                    } else if (patternLen >= 3 && pattern[1] == '-') {
+                        int start = pattern[0];
+                        int end = pattern[2];
+                        int c = string[0];
+                        if (start > end) {
+                            int t = start;
+                            start = end;
+                            end = t;
+                        }
+                        if (nocase) {
+                            start = tolower(start);
+                            end = tolower(end);
+                            c = tolower(c);
+                        }
+                        pattern += 2;
+                        patternLen -= 2;
+                        if (c >= start && c <= end)
                             match = 1;
+                    } else {
+                        if (!nocase) {
+                            if (pattern[0] == string[0])
+                                match = 1;
+                        } else {
+                            if (tolower((int)pattern[0]) == tolower((int)string[0]))
+                                match = 1;
+                        }
                     }
+                    pattern++;
+                    patternLen--;
                 }
-                pattern++;
-                patternLen--;
-            }
-            if (negation)
-                match = !match;
-            if (!match)
-                return 0; /* no match */
-            string++;
-            stringLen--;
-            break;
-        }
-        case '\\':
-            if (patternLen >= 2) {
-                pattern++;
-                patternLen--;
+                if (negation)
+                    match = !match;
+                break;
             }
-            /* fall through */
-        default:
-            if (stringLen == 0)
-                return 0; /* no match */
-            if (!nocase) {
-                if (pattern[0] != string[0])
-                    return 0; /* no match */
-            } else {
-                if (tolower((int)pattern[0]) != tolower((int)string[0]))
-                    return 0; /* no match */
+            case '\\':
+                if (patternLen >= 2) {
+                    pattern++;
+                    patternLen--;
+                }
+                /* fall through */
+            default:
+                if (!nocase) {
+                    match = (pattern[0] == string[0]);
+                } else {
+                    match = (tolower((int)pattern[0]) == tolower((int)string[0]));
+                }
+                break;
             }
-            string++;
-            stringLen--;
-            break;
-        }
-        pattern++;
-        patternLen--;
-        if (stringLen == 0) {
-            while(patternLen && *pattern == '*') {
+
+            if (match) {
                 pattern++;
                 patternLen--;
+                string++;
+                stringLen--;
+                continue;
             }
-            break;
         }
-    }
-    if (patternLen == 0 && stringLen == 0)
-        return 1;
-    return 0;
-}
 
-/* Glob-style pattern matching. */
-inline int stringmatchlen(const char *pattern, int patternLen,
-        const char *string, int stringLen, int nocase)
-{
-    int skipLongerMatches = 0;
-    return stringmatchlen_impl(pattern, patternLen, string, stringLen, nocase,
-        &skipLongerMatches);
+        /* No match from here: let the most recent '*' match one byte more. */
+        if (retryPattern == nullptr || retryStringLen == 0)
+            return 0; /* no match */
+        retryString++;
+        retryStringLen--;
+        pattern = retryPattern;
+        patternLen = retryPatternLen;
+        string = retryString;
+        stringLen = retryStringLen;
+    }
 }
 
 }
-- 
2.43.0


From c7140f5126b2a54fbc55833b398c08d8254bbe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:15 +0000
Subject: [PATCH 66/71] fix: lease commands took down a node in bulkload mode

---
 src/Dispatcher.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index c6b5771..b1cb837 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -383,6 +383,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
       return Formatter::ok();
     }
     case RedisCommand::TIMESTAMPED_LEASE_ACQUIRE: {
+      if(store.inBulkLoad()) return Formatter::err("leases are not available during bulkload");
       if(request.size() != 5) return Formatter::errArgs("lease_acquire");
 
       int64_t duration = 0;
@@ -415,6 +416,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
       }
     }
     case RedisCommand::TIMESTAMPED_LEASE_GET: {
+      if(store.inBulkLoad()) return Formatter::err("leases are not available during bulkload");
       if(request.size() != 3) return Formatter::errArgs("lease_get");
 
       qdb_assert(request[2].size() == 8u);
@@ -435,6 +437,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
       return Formatter::statusVector(reply);
     }
     case RedisCommand::TIMESTAMPED_LEASE_RELEASE: {
+      if(store.inBulkLoad()) return Formatter::err("leases are not available during bulkload");
       if(request.size() != 3) return Formatter::errArgs("lease_release");
 
       qdb_assert(request[2].size() == 8u);
-- 
2.43.0


From 4458272cf3b4c1f0dae0f18969229c71fea0f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:15 +0000
Subject: [PATCH 67/71] fix: removing elements from a non-existing key took
 down a node in bulkload mode

---
 src/storage/StagingArea.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/storage/StagingArea.hh b/src/storage/StagingArea.hh
index f3e90f1..315029f 100644
--- a/src/storage/StagingArea.hh
+++ b/src/storage/StagingArea.hh
@@ -127,7 +127,16 @@ public:
 
   void del(std::string_view slice) {
     if(readOnly) qdb_throw("cannot call del() on a readonly staging area");
-    if(bulkLoad) qdb_throw("no deletions allowed during bulk load");
+    if(bulkLoad) {
+      if(slice[0] == char(InternalKeyType::kDescriptor)) {
+        // Key descriptors are never written during bulkload, see put: A command
+        // which left its key without contents has nothing to remove.
+        return;
+      }
+
+      qdb_throw("no deletions allowed during bulk load");
+    }
+
     THROW_ON_ERROR(writeBatchWithIndex.Delete(slice));
   }
 
-- 
2.43.0


From 59082787c6edb3f9f2734615d7d234d830796b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:18 +0000
Subject: [PATCH 68/71] fix: reading the clock took down a node in bulkload
 mode

---
 src/StateMachine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index c8236b0..a64eb61 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1597,6 +1597,12 @@ ClockValue StateMachine::maybeAdvanceClock(StagingArea &stagingArea, ClockValue
 }
 
 void StateMachine::getClock(StagingArea &stagingArea, ClockValue &value) {
+  if(bulkLoad) {
+    // No reads during bulkload, the clock stays at its initial value.
+    value = 0u;
+    return;
+  }
+
   std::string prevValue;
   THROW_ON_ERROR(stagingArea.get(KeyConstants::kStateMachine_Clock, prevValue));
 
-- 
2.43.0


From b160cc85d253a1ba99ea558ec2e9cfd9af297f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:39 +0000
Subject: [PATCH 69/71] fix: quarkdb-create takes over a state machine for
 standalone nodes too, as documented

---
 tools/quarkdb-create.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/quarkdb-create.cc b/tools/quarkdb-create.cc
index e1eee29..da85e67 100644
--- a/tools/quarkdb-create.cc
+++ b/tools/quarkdb-create.cc
@@ -100,7 +100,6 @@ int main(int argc, char** argv) {
     ->check(nodeValidator);
 
   app.add_option("--steal-state-machine", optStealStateMachine, "Create the new node with the given pre-populated state-machine, which will be moved from the original folder, and not copied.")
-    ->needs(clusterID)
     ->check(stealStateMachineValidator);
 
   //----------------------------------------------------------------------------
-- 
2.43.0


From 96c0ba07f61b5fc0fce8888d28b605895b62d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:11 +0000
Subject: [PATCH 70/71] fix: a journal which is started anew forgets whom it
 voted for

---
 src/raft/RaftJournal.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index ed4b5bc..40d0ff8 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -160,6 +160,7 @@ void RaftJournal::initialize() {
   members = RaftMembers(this->get_or_die(KeyConstants::kJournal_Members));
   initializeFsyncPolicy();
 
+  votedFor.clear();
   if(!vote.empty() && !parseServer(vote, votedFor)) {
     qdb_throw("journal corruption, cannot parse " << KeyConstants::kJournal_VotedFor << ": " << vote);
   }
-- 
2.43.0


From d62893c9c9da72217ea421e6b2050b19ae9e9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:22 +0000
Subject: [PATCH 71/71] fix: quarkdb-validate-checkpoint rejects a checkpoint
 which has no state machine

---
 tools/quarkdb-validate-checkpoint.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/quarkdb-validate-checkpoint.cc b/tools/quarkdb-validate-checkpoint.cc
index 35e686f..958a8f4 100644
--- a/tools/quarkdb-validate-checkpoint.cc
+++ b/tools/quarkdb-validate-checkpoint.cc
@@ -80,6 +80,15 @@ int main(int argc, char** argv) {
   quarkdb::ShardDirectory shardDirectory(optPath);
   qdb_info("--- OK!");
 
+  //----------------------------------------------------------------------------
+  // Does the StateMachine even exist? Opening it would create an empty one..
+  //----------------------------------------------------------------------------
+  std::string smErr;
+  if(!quarkdb::directoryExists(quarkdb::pathJoin(optPath, "current/state-machine"), smErr)) {
+    qdb_error("state-machine not found! " << smErr);
+    return 1;
+  }
+
   //----------------------------------------------------------------------------
   // Can we open the StateMachine?
   //----------------------------------------------------------------------------
-- 
2.43.0

