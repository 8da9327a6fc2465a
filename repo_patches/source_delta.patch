From 59ec4bfc5332a16cb29d6f1939f65e08f31ebe78 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:51 +0000
Subject: [PATCH 01/84] fix: qsem::wait(q) takes q units, not one

---
 src/concurrent/qsem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/qsem.h b/src/concurrent/qsem.h
index 0191c90..8a4f2b8 100644
--- a/src/concurrent/qsem.h
+++ b/src/concurrent/qsem.h
@@ -56,7 +56,7 @@ public:
       if (lock) {
         while (quantity < q)
           cond.wait(m);
-        quantity--;
+        quantity -= q;
         return true;
       }
     }
-- 
2.43.0


From 9a17e358f686251054b629ec4a9f63d4b8ac122d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:51 +0000
Subject: [PATCH 02/84] fix: rw_mutex::read_lock(0) reports success as true

---
 src/concurrent/rwmutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/rwmutex.cpp b/src/concurrent/rwmutex.cpp
index a5e610e..3815b46 100644
--- a/src/concurrent/rwmutex.cpp
+++ b/src/concurrent/rwmutex.cpp
@@ -96,7 +96,7 @@ bool rw_mutex::impl::read_lock(double sec)
   if (!valid) return false;
 
   if (sec<1e-9)
-    return pthread_rwlock_tryrdlock(&lk);
+    return pthread_rwlock_tryrdlock(&lk)==0;
 
   timespec end=to_timespec(get_clock_time()+sec);
   return pthread_rwlock_timedrdlock(&lk, &end)==0;
-- 
2.43.0


From e65caaaa28f71a388cc69f9220fa17338bbdffeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:25 +0000
Subject: [PATCH 03/84] fix: cached_dns_resolver drops entries after
 expire_second

---
 src/network/dns.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index adcaaa1..00feee3 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -110,8 +110,13 @@ private:
   int max_size;
   int expire_second;
 
-  std::map<std::pair<std::string, uint16_t>,
-    std::pair<std::vector<ipv4_address>, time_t> > cache;
+  struct entry{
+    std::vector<ipv4_address> addrs;
+    time_t accessed; // last access, for LRU
+    time_t resolved; // when the name was looked up, for expiration
+  };
+
+  std::map<std::pair<std::string, uint16_t>, entry> cache;
 
   std::multiset<std::pair<time_t, std::pair<std::string, uint16_t> > > access_time;
 
@@ -166,7 +171,7 @@ void cached_dns_resolver::impl::delete_cache(const string &host, uint16_t port)
   pfi::concurrent::scoped_lock lock(m);
   if (lock) {
     pair<string,uint16_t> key(host,port);
-    time_t del_time=cache[key].second;
+    time_t del_time=cache[key].accessed;
     access_time.erase(make_pair(del_time,key));
     cache.erase(key);
   }
@@ -187,13 +192,13 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
       // hit cache
       if (cache.count(key) != 0) {
         // last access time
-        access_time.erase(make_pair(cache[key].second, key));
+        access_time.erase(make_pair(cache[key].accessed, key));
         access_time.insert(make_pair(cur, key));
-        cache[key].second = cur;
+        cache[key].accessed = cur;
 
         // is not expire
-        if (cur-cache[key].second < expire_second) {
-          return cache[key].first;
+        if (cur-cache[key].resolved < expire_second) {
+          return cache[key].addrs;
         }
 
         // expire, so delete cache
@@ -221,7 +226,8 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
 
       // register to cache
       access_time.insert(make_pair(cur, key));
-      cache[key] = make_pair(ret, cur);
+      entry e = { ret, cur, cur };
+      cache[key] = e;
     }
   }
 
-- 
2.43.0


From 9f24868c5c80f7c41141ac1df7a942e927ef8811 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:25 +0000
Subject: [PATCH 04/84] fix: cached_dns_resolver survives concurrent misses of
 one name and max_size 0

---
 src/network/dns.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index 00feee3..6e1d02d 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -214,7 +214,13 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
 
   {
     pfi::concurrent::scoped_lock lock(m);
-    if (lock) {
+    if (lock && max_size > 0) {
+      // another thread might have registered the same key meanwhile
+      if (cache.count(key) != 0) {
+        access_time.erase(make_pair(cache[key].accessed, key));
+        cache.erase(key);
+      }
+
       // is cache full?
       while ((int)cache.size() >= max_size) {
         assert(access_time.size() == cache.size());
-- 
2.43.0


From 10f6eedadf65c9d0510c7cff172278310e4b2416 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:17 +0000
Subject: [PATCH 05/84] fix: stream_socket does not carry buffered bytes over
 to the next connection

---
 src/network/socket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 5c2a51f..706bd63 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -173,6 +173,10 @@ bool stream_socket::open()
     sock=-1;
     return false;
   }
+
+  // forget what is left in the buffers of the previous connection
+  rdbuf_p=rdbuf_end=0;
+  wrbuf_size=0;
   return true;
 }
 
-- 
2.43.0


From 72a61a11bfb16f0c714f6cdd13758a301ab0aea0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:18 +0000
Subject: [PATCH 06/84] fix: rpc_server wakes all threads waiting for it to
 stop

---
 src/network/rpc/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 69c8a0f..d23306c 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -254,7 +254,7 @@ void rpc_server::notify_if_this_is_the_last_running_threads()
     }
     state = server_state::STOPPED;
   }
-  stop_condition.notify_one();
+  stop_condition.notify_all();
 }
 
 rpc_client::rpc_client(const string &host, uint16_t port, int version)
-- 
2.43.0


From bb141606114dc4fe9e0b0f82865c90547c879521 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:58 +0000
Subject: [PATCH 07/84] fix: rpc_server without server threads reaches the
 stopped state on stop

---
 src/network/rpc/base.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index d23306c..0ceb9c9 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -131,6 +131,11 @@ void rpc_server::stop()
       } catch (const cannot_get_connection&) {}
     }
   }
+  if (num_running_threads == 0) {
+    // NOTE: No server thread has been started, so nobody else will change the state.
+    state = server_state::STOPPED;
+    stop_condition.notify_all();
+  }
 }
 
 void rpc_server::wait_until_stopped()
-- 
2.43.0


From e49d5e5e798ae6fc175344e2ac551c95d3b0e587 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:29 +0000
Subject: [PATCH 08/84] fix: rpc_server::stop survives a termination request
 that times out

---
 src/network/rpc/base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 0ceb9c9..0dcf97a 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -126,9 +126,10 @@ void rpc_server::stop()
       // NOTE: Now that socket is closed,
       //       when there is no server thread which waits at `server::socket::accept()`
       //       this RPC call will throw `cannot_get_connection` exception.
+      //       It also fails when the server thread gives up the connection (timeout).
       try {
         request_termination();
-      } catch (const cannot_get_connection&) {}
+      } catch (const rpc_error&) {}
     }
   }
   if (num_running_threads == 0) {
-- 
2.43.0


From af3ace23041bad0396049d82d4418734fad8fadd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:17 +0000
Subject: [PATCH 09/84] fix: rpc_server does not execute a request that ends
 before its version number

---
 src/network/rpc/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 0dcf97a..65e1cb1 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -219,7 +219,9 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       }
 
       int req_ver;
-      if (ia >> req_ver && req_ver!=version){
+      if (!(ia >> req_ver))
+        break;
+      if (req_ver!=version){
         string msg(string("VersionMismatch ")+lexical_cast<string>(version)+" "+lexical_cast<string>(req_ver));
         oa<<msg;
         oa.flush();
-- 
2.43.0


From c526bfe5559518f5f30cd8d8d683c87bd1620079 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:43 +0000
Subject: [PATCH 10/84] fix: reading a serialized stream ends when the archive
 ends

---
 src/data/serialization/iostream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/serialization/iostream.h b/src/data/serialization/iostream.h
index 093ec7c..ce9f3d8 100644
--- a/src/data/serialization/iostream.h
+++ b/src/data/serialization/iostream.h
@@ -103,9 +103,10 @@ void serialize(Archive &ar, std::iostream &ios)
     char c[2]={};
     for (;;){
       ar & c[0];
+      if (!ar) break;
       if (static_cast<unsigned char>(c[0])==0xff){
         ar & c[1];
-        if (c[1]==0x00)
+        if (!ar || c[1]==0x00)
           break;
         *p=0xff;
       }
-- 
2.43.0


From cbc12b59f40649b3465072a34e5a183bf1b619e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:44 +0000
Subject: [PATCH 11/84] fix: json_parser looks at the character it has read
 ahead at the end of the data

---
 src/text/json/parser.cpp | 14 +++++++-------
 src/text/json/parser.h   |  5 ++++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index e00e6ed..699b76d 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -138,7 +138,7 @@ json json_parser::parse()
 void json_parser::parse_stream(callback& cb)
 {
   ss();
-  if (cbuf < 0 && it == end)
+  if (at_end())
     throw lang::end_of_data("json_parser reached end of data");
   return parse_impl(cb);
 }
@@ -242,27 +242,27 @@ void json_parser::parse_number(callback& cb)
     incr();
   }
 
-  while ((cbuf != -1 || it != end) && safe_isdigit(peek())) {
+  while (!at_end() && safe_isdigit(peek())) {
     src += peek();
     incr();
   }
 
-  if (it != end && peek() == '.') {
+  if (!at_end() && peek() == '.') {
     is_frac = true;
     src += '.';
     incr();
-    while (it != end && safe_isdigit(peek())) {
+    while (!at_end() && safe_isdigit(peek())) {
       src += peek();
       incr();
     }
   }
 
-  if (it != end && (peek() == 'e' || peek() == 'E')) {
+  if (!at_end() && (peek() == 'e' || peek() == 'E')) {
     is_frac = true;
     src += peek();
     incr();
 
-    if (it == end)
+    if (at_end())
       error("after exp, digit required.");
 
     if (peek() == '+' || peek() == '-') {
@@ -271,7 +271,7 @@ void json_parser::parse_number(callback& cb)
     }
   }
 
-  while (it != end && safe_isdigit(peek())) {
+  while (!at_end() && safe_isdigit(peek())) {
     src += peek();
     incr();
   }
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index 686f930..b2c4316 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -104,6 +104,9 @@ private:
     }
     return cbuf;
   }
+  bool at_end() const {
+    return cbuf < 0 && it == end;
+  }
   int incr() {
     int c = peek();
     cbuf = -1;
@@ -115,7 +118,7 @@ private:
     return c;
   }
   void ss() {
-    while(it != end && safe_isspace(peek()))
+    while(!at_end() && safe_isspace(peek()))
       incr();
   }
 
-- 
2.43.0


From 8acb0fce12e505c51847fb5f002accac985e4c01 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:20 +0000
Subject: [PATCH 12/84] fix: json_string prints all characters of a string that
 contains NUL

---
 src/text/json/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text/json/base.h b/src/text/json/base.h
index b608a95..32ff293 100644
--- a/src/text/json/base.h
+++ b/src/text/json/base.h
@@ -297,13 +297,14 @@ public:
     if (escape) {
       const char* p = dat.c_str();
       const char* end = p + dat.size();
-      while (*p) {
+      while (p != end) {
         pfi::data::string::uchar uc = pfi::data::string::chars_to_uchar(p, end);
         print_char(os, uc);
       }
     } else {
       const char* p = dat.c_str();
-      while (*p) {
+      const char* end = p + dat.size();
+      while (p != end) {
         print_char_without_escape(os, *p++);
       }
     }
-- 
2.43.0


From 41912390b71e8247bf7b3d67d1f6bcb04d2ae21d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:19 +0000
Subject: [PATCH 13/84] fix: uri does not skip past a percent-encoded character
 of the userinfo

---
 src/network/uri.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 140c5ea..929be19 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -326,10 +326,8 @@ bool uri::parse_userinfo(const char *&p)
       p++;
       continue;
     }
-    if (parse_pct_encoded(p)){
-      p+=3;
+    if (parse_pct_encoded(p))
       continue;
-    }
     break;
   }
 
-- 
2.43.0


From 33fa80eaa1687e9e1ab36df38167a060a57eae4a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:19 +0000
Subject: [PATCH 14/84] fix: uri accepts IPv6 literals with short groups or ::
 and IPvFuture literals

---
 src/network/uri.cpp | 67 +++++++++++++++++----------------------------
 src/network/uri.h   |  1 +
 2 files changed, 26 insertions(+), 42 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 929be19..1d15bc6 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -402,9 +402,9 @@ bool uri::parse_ipvfuture(const char *&p)
       *p!=':')
     return false;
 
-  while(!is_unreserved(*p)&&
-      !is_sub_delims(*p)&&
-      *p!=':')
+  while(is_unreserved(*p)||
+      is_sub_delims(*p)||
+      *p==':')
     p++;
 
   return true;
@@ -470,8 +470,7 @@ bool uri::parse_ipv6_2(const char *&p)
 
 bool uri::parse_ipv6_3(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p)) p=org;
+  parse_ipv6_head(p, 1);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -483,9 +482,7 @@ bool uri::parse_ipv6_3(const char *&p)
 
 bool uri::parse_ipv6_4(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p, 2);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -496,10 +493,7 @@ bool uri::parse_ipv6_4(const char *&p)
 
 bool uri::parse_ipv6_5(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p, 3);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -509,11 +503,7 @@ bool uri::parse_ipv6_5(const char *&p)
 
 bool uri::parse_ipv6_6(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p, 4);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
@@ -522,12 +512,7 @@ bool uri::parse_ipv6_6(const char *&p)
 
 bool uri::parse_ipv6_7(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p, 5);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
   return true;
@@ -535,13 +520,7 @@ bool uri::parse_ipv6_7(const char *&p)
 
 bool uri::parse_ipv6_8(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p, 6);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p)) return false;
   return true;
@@ -549,24 +528,28 @@ bool uri::parse_ipv6_8(const char *&p)
 
 bool uri::parse_ipv6_9(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p, 7);
   if (*p++!=':' || *p++!=':') return false;
   return true;
 }
 
+// [ *(n-1)( h16 ":" ) h16 ], which is followed by "::"
+void uri::parse_ipv6_head(const char *&p, int n)
+{
+  if (!parse_h16(p))
+    return;
+  for (int i=1; i<n && p[0]==':' && p[1]!=':'; i++){
+    p++;
+    if (!parse_h16(p))
+      return;
+  }
+}
+
 bool uri::parse_h16(const char *&p)
 {
-  if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false; 
-  if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false;
+  if (!isxdigit(*p)) return false;
+  for (int i=0; i<4 && isxdigit(*p); i++)
+    p++;
   return true;
 }
 
diff --git a/src/network/uri.h b/src/network/uri.h
index 39e78aa..8e03690 100644
--- a/src/network/uri.h
+++ b/src/network/uri.h
@@ -81,6 +81,7 @@ private:
   bool parse_ipv6_7(const char *&p);
   bool parse_ipv6_8(const char *&p);
   bool parse_ipv6_9(const char *&p);
+  void parse_ipv6_head(const char *&p, int n);
   bool parse_h16(const char *&p);
   bool parse_ls32(const char *&p);
   bool parse_ipv4address(const char *&p);
-- 
2.43.0


From 1601aa52ced0fe1dadaca108decc66f1a25fae20 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:19 +0000
Subject: [PATCH 15/84] fix: uri accepts host names that begin like an IPv4
 address

---
 src/network/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 1d15bc6..50912c5 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -340,8 +340,8 @@ bool uri::parse_host(const char *&p)
 {
   const char *org=p;
 
+  // an IPv4address is a reg-name, too
   if (!parse_ip_literal(p)&&
-      !(p=org, parse_ipv4address(p))&&
       !(p=org, parse_reg_name(p)))
     return false;
 
-- 
2.43.0


From d12fb55c8749c07820ff99fd238b26cd3de6ccf2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:19 +0000
Subject: [PATCH 16/84] fix: printing a uri keeps the // of a relative
 reference and adds none to an opaque one

---
 src/network/uri.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 50912c5..1151e3b 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -855,10 +855,14 @@ bool uri::is_sub_delims(char c)
 ostream &operator<<(ostream &os, const uri &u)
 {
   if (u.scheme()!="")
-    os<<u.scheme()<<"://";
-
-  if (u.authority()!="")
-    os<<u.authority();
+    os<<u.scheme()<<":";
+
+  // without "//" an empty authority is only possible in front of
+  // a path that can not be mistaken for one
+  if (u.authority()!="" ||
+      u.path().compare(0, 2, "//")==0 ||
+      (u.scheme()!="" && (u.path()=="" || u.path()[0]=='/')))
+    os<<"//"<<u.authority();
 
   if (u.path()!="")
     os<<u.path();
-- 
2.43.0


From 0ff8f92f2455def8847f733805bda78f9f4e736b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:54 +0000
Subject: [PATCH 17/84] fix: a byte 0xFF in a chunked HTTP body does not end it

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index f8304de..0caff05 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -249,7 +249,7 @@ public:
       fill();
     if (empty())
       return T::eof();
-    return buf[buf_pos];
+    return T::to_int_type(buf[buf_pos]);
   }
 
 private:
-- 
2.43.0


From 3e512659e827b664ea9970bc54c3d43245224a88 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:54 +0000
Subject: [PATCH 18/84] fix: an HTTP body of Content-Length 0 is empty

---
 src/network/http/base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 0caff05..67823e0 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -350,6 +350,8 @@ public:
 
   int underflow() {
     if (buf == T::eof()) {
+      if (rest <= 0)
+        sock.reset();
       if (!sock)
         return T::eof();
       buf = sock->getc();
-- 
2.43.0


From 4532325afcb5ad3dfee55a10b8cb36df489125c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:54 +0000
Subject: [PATCH 19/84] fix: an invalid chunk size is an error and not a size

---
 src/network/http/base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 67823e0..5013663 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -321,6 +321,10 @@ private:
 
     istringstream iss(line);
     iss >> hex >> chunk_rest;
+    if (!iss || chunk_rest < 0) {
+      shutdown();
+      throw http_exception("invalid chunk size");
+    }
   }
 
   pfi::lang::shared_ptr<stream_socket> sock;
-- 
2.43.0


From 2cb30cb7d2497ed7cc149ca71d2eddfdb2731d61 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:54 +0000
Subject: [PATCH 20/84] fix: a header read from a stream has no CR in its
 values and keeps its last line

---
 src/network/http/base.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 5013663..f5cff8d 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -132,8 +132,12 @@ header::header(const pfi::lang::shared_ptr<stream_socket>& sock)
 
 static bool istream_getline(istream* is, string* str)
 {
-  getline(*is, *str);
-  return is->good();
+  if (!getline(*is, *str))
+    return false;
+  // lines end with LF or CRLF
+  if (!str->empty() && (*str)[str->length()-1] == '\r')
+    str->erase(str->length()-1);
+  return true;
 }
 
 header::header(istream& is)
-- 
2.43.0


From 2a4688ceadde6c946bb349d87af814d3d52a4f18 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:54 +0000
Subject: [PATCH 21/84] fix: a failure to send the end of an HTTP header is
 reported

---
 src/network/http/base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index f5cff8d..72383c6 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -224,7 +224,8 @@ void header::send(const pfi::lang::shared_ptr<stream_socket>& sock)
     if (!sock->puts(line))
       throw http_exception("cannot send header");
   }
-  sock->puts("\r\n");
+  if (!sock->puts("\r\n"))
+    throw http_exception("cannot send header");
 }
 
 // only support under C=char.
-- 
2.43.0


From 789d98767bcc22dcb29d00ba0e9ea598f40fe51c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 22/84] fix: a status line without a status code is an error

---
 src/network/http/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 72383c6..182fd8e 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -536,8 +536,10 @@ response::response(const pfi::lang::shared_ptr<stream_socket>& sock)
     
     istringstream iss(line);
     string ver;
-    iss >> ver >> ws >> code_ >> ws;
+    if (!(iss >> ver >> ws >> code_))
+      throw http_exception("invalid status-line");
 
+    iss >> ws;
     getline(iss, reason_);
 
     for (size_t i = 0; i < ver.length(); i++)
-- 
2.43.0


From 05e3382d48287201b5144106ba7e92cd96011f6a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:10 +0000
Subject: [PATCH 23/84] fix: a multipart request without a boundary is answered
 with an error

---
 src/network/cgi/base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index c069469..a8a722d 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -99,8 +99,10 @@ void cgi::exec(istream& in,
             valid=false;
             invalid_msg="Invalid html protocol";
           }
-          string boundary=env["CONTENT_TYPE"].substr(ix+9);
-          parse_multipart_input(dat, boundary);
+          else{
+            string boundary=env["CONTENT_TYPE"].substr(ix+9);
+            parse_multipart_input(dat, boundary);
+          }
         }
         else
           parse_input(dat);
-- 
2.43.0


From 5c465b0ab5061790f2f5f93a164c54b5b6fb38b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:10 +0000
Subject: [PATCH 24/84] fix: a part with a line starting with -- does not
 swallow the boundary after it

---
 src/network/cgi/base.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index a8a722d..4df5757 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -228,6 +228,7 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     ssize_t cnt=0;
     for (char a=0, b=0, c=0; iss.get(c); a=b, b=c, cnt++){
       if (a=='\n' && b=='-' && c=='-'){
+        istringstream::pos_type pos=iss.tellg();
         string chk(boundary.length(), ' ');
         iss.read(&chk[0], boundary.length());
         if (chk==boundary){
@@ -240,11 +241,9 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
             str.resize(str.length()-1);
           break;
         }
-        str+=a;
-        str+="--";
-        str+=chk;
-        cnt=-1;
-        continue;
+        // not a boundary: what was read ahead may contain one
+        iss.clear();
+        iss.seekg(pos);
       }
       if (cnt>=2) str+=a;
     }
-- 
2.43.0


From f2550f2e8add944ab8ef5b6a1bd32f9970c04747 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:53 +0000
Subject: [PATCH 25/84] fix: a CGI request whose body cannot be read is not run
 with an empty one

---
 src/network/cgi/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 4df5757..85607f2 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -88,7 +88,7 @@ void cgi::exec(istream& in,
     else{
       string dat(len, '\0');
       in.read(&dat[0], len);
-      if (in.eof()){
+      if (!in){
         valid=false;
         invalid_msg="Request is too short";
       }
-- 
2.43.0


From 4153207f7db9410518dad4aa40270dafd2d0a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 26/84] fix: csv_parser makes room for the end of a field that
 fills the buffer

---
 src/text/csv.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text/csv.h b/src/text/csv.h
index b86a722..3790b72 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -133,6 +133,7 @@ private:
           }
         }
 
+        if (bufcnt>=buf.size()) extend();
         buf[bufcnt++]='\0';
         cur.push_back(&buf[start]);
         if (p == q) break;
-- 
2.43.0


From 63bed6830ea94e1e89981fbc770349d06dcd9ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 27/84] fix: csv_parser does not read beyond the end of its
 input

---
 src/text/csv.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index 3790b72..8919563 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -114,12 +114,12 @@ private:
       for (size_t bufcnt=0; ; ){
         size_t start=bufcnt;
 
-        if (*p=='\"'){
+        if (p!=q && *p=='\"'){
           p++;
-          for (;;){
+          while(p!=q){
             if (*p=='\"'){
               p++;
-              if (*p!='\"') break;
+              if (p==q || *p!='\"') break;
             }
             if (bufcnt>=buf.size()) extend();
             buf[bufcnt++]=*p++;
@@ -137,7 +137,11 @@ private:
         buf[bufcnt++]='\0';
         cur.push_back(&buf[start]);
         if (p == q) break;
-        if (*p=='\r') p++;
+        if (*p=='\r'){
+          p++;
+          if (p!=q && *p=='\n') p++;
+          break;
+        }
         if (*p=='\n'){ p++; break; }
         p++;
       }
-- 
2.43.0


From ec453db56dd12f09d294c0d49ae0d746b8380101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 28/84] fix: copies of a csv_iterator own the row they point to

---
 src/text/csv.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index 8919563..f91bfc1 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -193,11 +193,13 @@ public:
   }
 
   csv_iterator(const csv_iterator &r)
-    : p(r.p), cached(false) {
-    if (p){
-      cached=true;
-      p->copy(cur, buf);
-    }
+    : p(NULL), cached(false) {
+    assign(r);
+  }
+
+  csv_iterator &operator=(const csv_iterator &r){
+    if (this!=&r) assign(r);
+    return *this;
   }
 
   bool operator==(const csv_iterator &r) const{
@@ -233,6 +235,20 @@ public:
   }
 
 private:
+  void assign(const csv_iterator &r){
+    p=r.p;
+    cached=r.cached || p;
+    if (r.cached){
+      // r.cur points into r.buf
+      buf=r.buf;
+      cur.resize(r.cur.size());
+      for (size_t i=0; i<cur.size(); i++)
+        cur[i]=&buf[0]+(r.cur[i]-&r.buf[0]);
+    }
+    else if (p)
+      p->copy(cur, buf);
+  }
+
   csv_parser *p;
 
   bool cached;
-- 
2.43.0


From 40bda6cc60c35c43c14d7e51f5a84c9d4f0487c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:58 +0000
Subject: [PATCH 29/84] fix: decoder::byte skips to the next byte boundary like
 encoder::byte

---
 src/data/code/code.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index 900de9e..8478e3c 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -181,6 +181,10 @@ namespace code {
   }
 
   unsigned char decoder::byte() {
+    if (bit) {
+      ++pos;
+      bit=0;
+    }
     return bytes[pos++];
   }
 
-- 
2.43.0


From 2c67e03967606fa2aa744b8641739216d3e0c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:55 +0000
Subject: [PATCH 30/84] fix: the half-width semi-voiced mark only combines with
 the ha row

---
 src/data/string/ustring.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/string/ustring.cpp b/src/data/string/ustring.cpp
index 7436b00..19e086d 100644
--- a/src/data/string/ustring.cpp
+++ b/src/data/string/ustring.cpp
@@ -74,11 +74,11 @@ static int take_dakuten_tbl[]={
 
 static int take_handakuten_tbl[]={
   //  ァアィイゥウェエォオカガキギク
-  0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   //グケゲコゴサザシジスズセゼソゾタ
-  0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   //ダチヂッツヅテデトドナニヌネノハ
-  0,1,0,0,1,0,1,0,1,0,0,0,0,0,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,
   //バパヒビピフブプヘベペホボポマミ
   0,0,1,0,0,1,0,0,1,0,0,1,0,0,0,0,
   //ムメモャヤュユョヨラリルレロヮワ
-- 
2.43.0


From 277b27e4d461dececb89248dfd2802b4a064b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:55 +0000
Subject: [PATCH 31/84] fix: hankaku_to_zenkaku does not turn U+FF60 into NUL

---
 src/data/string/ustring.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/string/ustring.cpp b/src/data/string/ustring.cpp
index 19e086d..61fdd6b 100644
--- a/src/data/string/ustring.cpp
+++ b/src/data/string/ustring.cpp
@@ -51,7 +51,7 @@ namespace string {
 #define UTF_ZENKAKU_HANDAKUTEN 0x309a 
 
 static int hankaku_zenkaku_tbl[]={
-  0x0000,0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3, // 0xff60 - 0xff6f
+  0xff60,0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3, // 0xff60 - 0xff6f
   0x30fc,0x30a2,0x30a4,0x30a6,0x30a8,0x30aa,0x30ab,0x30ad,0x30af,0x30b1,0x30b3,0x30b5,0x30b7,0x30b9,0x30bb,0x30bd, // 0xff70 - 0xff7f
   0x30bf,0x30c1,0x30c4,0x30c6,0x30c8,0x30ca,0x30cb,0x30cc,0x30cd,0x30ce,0x30cf,0x30d2,0x30d5,0x30d8,0x30db,0x30de, // 0xff80 - 0xff8f
   0x30df,0x30e0,0x30e1,0x30e2,0x30e4,0x30e6,0x30e8,0x30e9,0x30ea,0x30eb,0x30ec,0x30ed,0x30ef,0x30f3,0x3099,0x309a // 0xff90 - 0x9f
-- 
2.43.0


From aaeaaecf0fc443d3a134c424138cbec43a89963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:55 +0000
Subject: [PATCH 32/84] fix: strip, lstrip and rstrip do not pass wide
 characters to isspace

---
 src/data/string/utility.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/data/string/utility.h b/src/data/string/utility.h
index b4b6982..4567603 100644
--- a/src/data/string/utility.h
+++ b/src/data/string/utility.h
@@ -41,6 +41,14 @@ namespace pfi{
 namespace data{
 namespace string{
 
+namespace detail{
+// isspace() is defined for single bytes only; wide characters are no spaces
+inline bool is_space(int c)
+{
+  return c >= -128 && c <= 255 && isspace(c);
+}
+} // detail
+
 template <class String, class Char, class Iterator>
 void split(const String &str, Char sep, Iterator p)
 {
@@ -106,11 +114,11 @@ void strip(const String &str, String &res)
   typename String::const_iterator beg = str.begin();
   typename String::const_iterator end = str.end();
 
-  while (beg != end && isspace(*beg)) ++beg;
+  while (beg != end && detail::is_space(*beg)) ++beg;
 
   while (beg != end) {
     --end;
-    if (!isspace(*end)) {
+    if (!detail::is_space(*end)) {
       end++;
       break;
     }
@@ -133,7 +141,7 @@ void lstrip(const String &str, String &res)
   typename String::const_iterator beg = str.begin();
   typename String::const_iterator end = str.end();
 
-  while (beg != end && isspace(*beg)) ++beg;
+  while (beg != end && detail::is_space(*beg)) ++beg;
 
   String(beg, end).swap(res);
 }
@@ -154,7 +162,7 @@ void rstrip(const String &str, String &res)
 
   while (beg != end) {
     --end;
-    if (!isspace(*end)) {
+    if (!detail::is_space(*end)) {
       end++;
       break;
     }
-- 
2.43.0


From a302bc00dcad083b09fe5229c52d79a38d08f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:55 +0000
Subject: [PATCH 33/84] fix: kmp with an empty query does not write outside its
 table

---
 src/data/string/kmp.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/string/kmp.h b/src/data/string/kmp.h
index 81fa474..e795e50 100644
--- a/src/data/string/kmp.h
+++ b/src/data/string/kmp.h
@@ -46,7 +46,7 @@ public:
  explicit kmp(const T& q) {
    query=q;
    next=std::vector<int>(query.size());
-   int t=next[0]=0;
+   int t=0;
    for (int i=1;i<(int)query.size();++i) {
      while(t>0&&query[i]!=query[t]) t=next[t-1];
      if (query[i]==query[t]) next[i]=++t;
@@ -56,6 +56,8 @@ public:
 
  size_t find(const T& text, int offset = 0) const
  {
+   if (query.size()==0)
+     return offset<=(int)text.size() ? (size_t)offset : std::string::npos;
    int t=0;
    for (int i=offset;i<(int)text.size();++i) {
      while(t>0&&text[i]!=query[t]) t=next[t-1];
-- 
2.43.0


From ea40c10f27ac1b98fd56a5f571c6f000eb99ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:55 +0000
Subject: [PATCH 34/84] fix: longest_increasing_subsequence does not squeeze
 its elements into int

---
 src/data/string/algorithm.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/data/string/algorithm.h b/src/data/string/algorithm.h
index bb4ca1a..45b2acb 100644
--- a/src/data/string/algorithm.h
+++ b/src/data/string/algorithm.h
@@ -66,14 +66,14 @@ namespace string {
 
   template<typename A>
   int longest_increasing_subsequence(const A& a) {
-    if (a.size()==0) return 0;
-    
-    std::vector<int> tbl(a.size(),INT_MAX),id(a.size());
+    typedef typename A::value_type value_type;
+    std::vector<value_type> tbl;
     for (size_t i=0;i<a.size();++i) {
-      id[i]=std::lower_bound(tbl.begin(),tbl.end(),a[i])-tbl.begin();
-      tbl[id[i]]=a[i];
+      typename std::vector<value_type>::iterator p=std::lower_bound(tbl.begin(),tbl.end(),a[i]);
+      if (p==tbl.end()) tbl.push_back(a[i]);
+      else *p=a[i];
     }
-    return *max_element(id.begin(),id.end())+1;
+    return tbl.size();
   }
 
 } // string
-- 
2.43.0


From 45273e959abf9d60ff720776664d31a9f979423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:55 +0000
Subject: [PATCH 35/84] fix: aho_corasick finds words that contain NUL bytes

---
 src/data/string/aho_corasick.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/data/string/aho_corasick.cpp b/src/data/string/aho_corasick.cpp
index 6393108..8b93c20 100644
--- a/src/data/string/aho_corasick.cpp
+++ b/src/data/string/aho_corasick.cpp
@@ -64,7 +64,7 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
   stack<pair<pair<int, int>, pair<int,int> > > ss;
   ss.push(make_pair(make_pair(0,0), make_pair(0,words.size())));
 
-  nodes.resize(257);
+  nodes.resize(258);
 
   while(!ss.empty()){
     int pos=ss.top().first.first;
@@ -79,8 +79,12 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
     if ((int)words[ix].first.length()==dep)
       nodes[pos].output=words[ix].second;
     
-    for (int i=0;i<n;i++){
-      int c=dep<(int)words[ix+i].first.length()?(unsigned char)words[ix+i].first[dep]:0;
+    // words ending here come first
+    int ends=0;
+    while (ends<n && (int)words[ix+ends].first.length()==dep) ends++;
+
+    for (int i=ends;i<n;i++){
+      int c=(unsigned char)words[ix+i].first[dep];
       if (tbl[c]++==0)
         children[children_num++]=c;
     }
@@ -88,7 +92,7 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
     int base=max(1, bef_base-32);
     for (;;base++){
       bool ok=true;
-      for (int ci=children[0]==0?1:0;ci<children_num;ci++){
+      for (int ci=0;ci<children_num;ci++){
         int i=children[ci];
         if (nodes[base+i].check>=0){
           ok=false;
@@ -99,14 +103,12 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
     }
 
     nodes[pos].base=base;
-    for (int cur=0, ci=0;ci<children_num;ci++){
+    for (int cur=ends, ci=0;ci<children_num;ci++){
       int i=children[ci];
-      if (i>0 && tbl[i]>0){
-        int nix=nodes[pos].base+i;
-        if (nix+256>=(int)nodes.size()) nodes.resize(nix+256);
-        nodes[nix].check=pos;
-        ss.push(make_pair(make_pair(nix, dep+1), make_pair(ix+cur, tbl[i])));
-      }
+      int nix=nodes[pos].base+i;
+      if (nix+257>(int)nodes.size()) nodes.resize(nix+257);
+      nodes[nix].check=pos;
+      ss.push(make_pair(make_pair(nix, dep+1), make_pair(ix+cur, tbl[i])));
       cur+=tbl[i];
     }
 
-- 
2.43.0


From d4939dd9bdb581a6ab93bdeb51fe61aa446c074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 36/84] fix: lru::set of a key that is present updates its
 value

---
 src/data/lru.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/lru.h b/src/data/lru.h
index 6a95be1..6e68122 100644
--- a/src/data/lru.h
+++ b/src/data/lru.h
@@ -69,7 +69,12 @@ public:
   }
 
   void set(const K &key, const V &val){
-    if (cache.count(key)>0) return;
+    typename std::map<K, std::pair<V, uint64_t> >::iterator p=cache.find(key);
+    if (p!=cache.end()){
+      p->second.first=val;
+      touch(key);
+      return;
+    }
 
     while((int)cache.size()>=max_size){
       assert(access_time.size()==cache.size());
-- 
2.43.0


From dd67c889a42ee7ee6b2d5ddeb9c51ec0c57d1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 37/84] fix: ratio does not reduce with an int-only abs()

---
 src/math/ratio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 6f51542..2a57497 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -59,7 +59,8 @@ public:
 private:
   T num_, den_;
   static T gcd(T a, T b){
-    a=abs(a); b=abs(b);
+    if(a<0) a=-a;
+    if(b<0) b=-b;
     while(true){
       a=a%b;
       if(a==0) return b;
-- 
2.43.0


From 22b2cf5c2c67961c23471b90b1cb8e77f2b32940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 38/84] fix: dividing a ratio by itself gives one

---
 src/math/ratio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 2a57497..86e2708 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -118,8 +118,9 @@ template<class T>
 inline ratio<T>& operator/=(ratio<T> &a, const ratio<T> &b){
   T gcd1=ratio<T>::gcd(a.num_, b.num_);
   T gcd2=ratio<T>::gcd(a.den_, b.den_);
+  const T b_num=b.num_; // a and b may be the same object
   a.num_=(a.num_/gcd1)*(b.den_/gcd2);
-  a.den_=(a.den_/gcd2)*(b.num_/gcd1);
+  a.den_=(a.den_/gcd2)*(b_num/gcd1);
   if(a.den_<0){
     a.num_*=-1; a.den_*=-1;
   }
-- 
2.43.0


From feae7168f9eb4e40e1db0c32afb772aa1085aafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 39/84] fix: next_double(a,b) never returns b

---
 src/math/random.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/random.h b/src/math/random.h
index f3bb885..d25935f 100644
--- a/src/math/random.h
+++ b/src/math/random.h
@@ -33,6 +33,7 @@
 #define INCLUDE_GUARD_PFI_MATH_RANDOM_H_
 
 #include <cmath>
+#include <math.h>
 #include <vector>
 #include <map>
 
@@ -93,7 +94,8 @@ public:
 
   /// generate [\a a,\a b) random real number
   double next_double(double a, double b){
-    return a+next_double(b-a);
+    const double r=a+next_double(b-a);
+    return a<b && r>=b ? nextafter(b,a) : r; // the sum may have been rounded up to b
   }
 
   /// generate normalized standard distribution
-- 
2.43.0


From 698f7fe844ccf61bbb02daed3e432ce58f604fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 40/84] fix: moving a mmapper does not unmap the memory it
 hands over

---
 src/system/mmapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/mmapper.h b/src/system/mmapper.h
index 204244b..85a9b71 100644
--- a/src/system/mmapper.h
+++ b/src/system/mmapper.h
@@ -47,8 +47,8 @@ public:
   typedef const char* const_iterator;
 
   mmapper() : ptr(NULL), length(0), fd(-1) {}
-  mmapper(mmapper&& rhs) : ptr(std::move(rhs.ptr)), length(std::move(rhs.length)), fd(std::move(rhs.fd)) {
-    mmapper().swap(rhs);
+  mmapper(mmapper&& rhs) : ptr(NULL), length(0), fd(-1) {
+    swap(rhs);
   }
   ~mmapper() { close(); }
 
-- 
2.43.0


From e9946cb60369a5b63dea40a5d7949171c595db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 41/84] fix: a closed mmapper has size 0

---
 src/system/mmapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/system/mmapper.cpp b/src/system/mmapper.cpp
index ce1af2e..d857a28 100644
--- a/src/system/mmapper.cpp
+++ b/src/system/mmapper.cpp
@@ -78,6 +78,7 @@ int mmapper::close()
   if (ptr != NULL) {
     munmap(ptr, length);
     ptr = NULL;
+    length = 0;
   }
   return 0;
 }
-- 
2.43.0


From be9a9d47723bddafb5d1dd592b8036c25cffdc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 42/84] fix: calendar_time finds out whether its date has
 daylight saving time

---
 src/system/time_util.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/system/time_util.cpp b/src/system/time_util.cpp
index 1b0761c..5a6d7f5 100644
--- a/src/system/time_util.cpp
+++ b/src/system/time_util.cpp
@@ -99,8 +99,16 @@ calendar_time::calendar_time(
   , sec(sec)
   , usec(usec)
 {
-  clock_time ct(*this);
-  *this=calendar_time(ct);
+  tm t={};
+  t.tm_sec=sec;
+  t.tm_min=min;
+  t.tm_hour=hour;
+  t.tm_mday=mday;
+  t.tm_mon=mon-1;
+  t.tm_year=year-1900;
+  t.tm_isdst=-1; // find out
+
+  *this=calendar_time(clock_time(mktime(&t), usec));
 }
 
 clock_time get_clock_time()
-- 
2.43.0


From 03ff11ecaf2b61c3520dd39912848284b7807846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 43/84] fix: ipv4_address does not accept numbers beyond the
 range of int

---
 src/network/ipv4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/ipv4.h b/src/network/ipv4.h
index a0ec2a6..6c56a5f 100644
--- a/src/network/ipv4.h
+++ b/src/network/ipv4.h
@@ -56,8 +56,8 @@ public:
   }
 
   explicit ipv4_address(const std::string& s) {
-    int buf[4];
-    if (std::sscanf(s.c_str(), "%d.%d.%d.%d", &buf[0], &buf[1], &buf[2], &buf[3]) != 4) {
+    long buf[4];
+    if (std::sscanf(s.c_str(), "%ld.%ld.%ld.%ld", &buf[0], &buf[1], &buf[2], &buf[3]) != 4) {
       *this = none;
       return;
     }
-- 
2.43.0


From db9ab5f4bb6f47b971c1417eaeea8ebbb0268a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:44 +0000
Subject: [PATCH 44/84] fix: reading a container stops where the data ends

---
 src/data/serialization/deque.h         |  1 +
 src/data/serialization/list.h          |  1 +
 src/data/serialization/map.h           |  1 +
 src/data/serialization/set.h           |  1 +
 src/data/serialization/string.h        | 16 +++++++++++++---
 src/data/serialization/unordered_map.h |  1 +
 src/data/serialization/unordered_set.h |  1 +
 src/data/serialization/vector.h        |  2 +-
 8 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/data/serialization/deque.h b/src/data/serialization/deque.h
index 7404fdb..41125d5 100644
--- a/src/data/serialization/deque.h
+++ b/src/data/serialization/deque.h
@@ -55,6 +55,7 @@ void serialize(Archive &ar, std::deque<T, Allocator> &v)
     for (size_t i = v.size(); i < size; ++i) {
       T t = T();
       ar & t;
+      if (!ar) break;
       v.push_back(t);
     }
   } else {
diff --git a/src/data/serialization/list.h b/src/data/serialization/list.h
index 7f546e2..1ede228 100644
--- a/src/data/serialization/list.h
+++ b/src/data/serialization/list.h
@@ -56,6 +56,7 @@ void serialize(Archive &ar, std::list<T, Allocator> &v)
     for (size_t i = v.size(); i < size; ++i) {
       T t = T();
       ar & t;
+      if (!ar) break;
       v.push_back(t);
     }
   } else {
diff --git a/src/data/serialization/map.h b/src/data/serialization/map.h
index 71ae62a..d994dd1 100644
--- a/src/data/serialization/map.h
+++ b/src/data/serialization/map.h
@@ -53,6 +53,7 @@ void serialize(Archive &ar, std::map<K, V, Compare, Allocator> &m)
     while(size--){
       std::pair<K,V> v;
       ar & v;
+      if (!ar) break;
       m.insert(v);
     }
   }
diff --git a/src/data/serialization/set.h b/src/data/serialization/set.h
index 6694c6c..ec7a0cb 100644
--- a/src/data/serialization/set.h
+++ b/src/data/serialization/set.h
@@ -51,6 +51,7 @@ void serialize(Archive &ar, std::set<T, Compare, Allocator> &s)
     while(size--){
       T v;
       ar & v;
+      if (!ar) break;
       s.insert(v);
     }
   }
diff --git a/src/data/serialization/string.h b/src/data/serialization/string.h
index 492feba..87a7399 100644
--- a/src/data/serialization/string.h
+++ b/src/data/serialization/string.h
@@ -48,9 +48,19 @@ void serialize(Archive &ar, std::basic_string<CharType, Traits, Allocator> &s)
   uint32_t length=static_cast<uint32_t>(s.length());
   ar & length;
 
-  s.resize(length);
-  for (uint32_t i=0;i<length;i++)
-    ar & s[i];
+  if (ar.is_read){
+    s.clear();
+    for (uint32_t i=0;i<length;i++){
+      CharType c=CharType();
+      ar & c;
+      if (!ar) break;
+      s+=c;
+    }
+  }
+  else{
+    for (uint32_t i=0;i<length;i++)
+      ar & s[i];
+  }
 }
 
 class string_type : public type_rep {
diff --git a/src/data/serialization/unordered_map.h b/src/data/serialization/unordered_map.h
index a3750f2..1f44004 100644
--- a/src/data/serialization/unordered_map.h
+++ b/src/data/serialization/unordered_map.h
@@ -52,6 +52,7 @@ void serialize(Archive &ar, unordered_map<K, V, H, P, A> &m)
     while(size--){
       std::pair<K,V> v;
       ar & v;
+      if (!ar) break;
       m.insert(v);
     }
   }
diff --git a/src/data/serialization/unordered_set.h b/src/data/serialization/unordered_set.h
index 8820521..ce7658f 100644
--- a/src/data/serialization/unordered_set.h
+++ b/src/data/serialization/unordered_set.h
@@ -52,6 +52,7 @@ void serialize(Archive &ar, unordered_set<T, H, P, A> &s)
     while(size--){
       T v;
       ar & v;
+      if (!ar) break;
       s.insert(v);
     }
   }
diff --git a/src/data/serialization/vector.h b/src/data/serialization/vector.h
index ed71c70..cbc72d9 100644
--- a/src/data/serialization/vector.h
+++ b/src/data/serialization/vector.h
@@ -48,7 +48,6 @@ void serialize(Archive &ar, std::vector<T, Allocator> &v)
   ar & size;
 
   if (ar.is_read) {
-    v.reserve(size);
     v.resize(std::min<size_t>(size, v.size()));
     for (size_t i = 0; i < v.size(); ++i) {
       ar & v[i];
@@ -56,6 +55,7 @@ void serialize(Archive &ar, std::vector<T, Allocator> &v)
     for (size_t i = v.size(); i < size; ++i) {
       T t = T();
       ar & t;
+      if (!ar) break;
       v.push_back(t);
     }
   } else {
-- 
2.43.0


From 0197abbb812fc97286cbf0cdd199a0350b12512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:44 +0000
Subject: [PATCH 45/84] fix: reading a damaged intern does not write outside
 its table

---
 src/data/intern.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/intern.h b/src/data/intern.h
index 6d92a18..ea783d1 100644
--- a/src/data/intern.h
+++ b/src/data/intern.h
@@ -135,9 +135,10 @@ private:
     if (ar.is_read) {
       intern tmp;
       ar & tmp.tbl;
+      if (!ar) return;
       tmp.lbt.resize(tmp.tbl.size());
       for (typename map_t::iterator it = tmp.tbl.begin(); it != tmp.tbl.end(); ++it)
-        tmp.lbt[it->second] = it->first;
+        tmp.lbt.at(it->second) = it->first;
       swap(tmp);
     } else {
       ar & tbl;
-- 
2.43.0


From 955a399cb1c1dbb1d5d5b704487738954381b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 46/84] fix: outer product of vectors with array components
 compiles

---
 src/math/vector.h            | 4 ++--
 src/math/vector_operators.rb | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/vector.h b/src/math/vector.h
index 0624997..d4c94d1 100644
--- a/src/math/vector.h
+++ b/src/math/vector.h
@@ -279,7 +279,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     t operator%(const vector2<t> & a, const vector2<t> & b){
-    return a.x*b.y - a.y*b.x;
+    return a.r[0]*b.r[1] - a.r[1]*b.r[0];
   }
 
   /// +=
@@ -610,7 +610,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     vector3<t> operator%(const vector3<t> & a, const vector3<t> & b){
-    return vector3<t>(a.y*b.z - a.z*b.y,a.z*b.x - a.x*b.z,a.x*b.y - a.y*b.x);
+    return vector3<t>(a.r[1]*b.r[2] - a.r[2]*b.r[1],a.r[2]*b.r[0] - a.r[0]*b.r[2],a.r[0]*b.r[1] - a.r[1]*b.r[0]);
   }
 
   /// +=
diff --git a/src/math/vector_operators.rb b/src/math/vector_operators.rb
index 8454b2a..df460ba 100644
--- a/src/math/vector_operators.rb
+++ b/src/math/vector_operators.rb
@@ -65,14 +65,14 @@ CPPEND
   ///outer product; outer product uses % operator.
   #{template_dec}
     #{scalar} operator%(const #{mytype} & a, const #{mytype} & b){
-    return a.x*b.y - a.y*b.x;
+    return a.#{cs[0]}*b.#{cs[1]} - a.#{cs[1]}*b.#{cs[0]};
   }
 CPPEND
   ret+= <<CPPEND if dim == 3 
   ///outer product; outer product uses % operator.
   #{template_dec}
     #{mytype} operator%(const #{mytype} & a, const #{mytype} & b){
-    return #{constructor['a.y*b.z - a.z*b.y', 'a.z*b.x - a.x*b.z', 'a.x*b.y - a.y*b.x' ]};
+    return #{constructor[[[1,2],[2,0],[0,1]].map{|i,j| "a.#{cs[i]}*b.#{cs[j]} - a.#{cs[j]}*b.#{cs[i]}"}]};
   }
 CPPEND
 
-- 
2.43.0


From 0afdeaeaee1a34f3024fa92502789bc5ac0b64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:32 +0000
Subject: [PATCH 47/84] fix: next_double(a) never returns a

---
 src/math/random.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/random.h b/src/math/random.h
index d25935f..bfa4545 100644
--- a/src/math/random.h
+++ b/src/math/random.h
@@ -89,7 +89,8 @@ public:
 
   /// generate [0,\a a) random real number
   double next_double(double a){
-    return a*next_double();
+    const double r=a*next_double();
+    return a>0 && r>=a ? nextafter(a,0.0) : r; // the product may have been rounded up to a
   }
 
   /// generate [\a a,\a b) random real number
-- 
2.43.0


From ea9d69445f7e969b721c410fb428d73544aef512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:34 +0000
Subject: [PATCH 48/84] fix: MD5 digests print as lower-case hex digits
 whatever the stream's flags are

---
 src/data/digest/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/digest/md5.cpp b/src/data/digest/md5.cpp
index 4b707cb..e0acf46 100644
--- a/src/data/digest/md5.cpp
+++ b/src/data/digest/md5.cpp
@@ -140,7 +140,7 @@ ostream &operator<<(ostream &os, const md5sum &m)
   const ios::fmtflags prev_flags = os.flags();
   const char prev_fill = os.fill('0');
   try {
-    os << hex;
+    os << hex << right << nouppercase << noshowbase;
     os << setw(2) << ((m.a>> 0)&0xff);
     os << setw(2) << ((m.a>> 8)&0xff);
     os << setw(2) << ((m.a>>16)&0xff);
-- 
2.43.0


From fbc79eadf1825d546ed47abc513ecbe36b6798f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:34 +0000
Subject: [PATCH 49/84] fix: base64_decode refuses padding that is not at the
 end

---
 src/data/encoding/base64.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/encoding/base64.cpp b/src/data/encoding/base64.cpp
index 199a6be..b7762c0 100644
--- a/src/data/encoding/base64.cpp
+++ b/src/data/encoding/base64.cpp
@@ -116,12 +116,15 @@ string base64_decode(const string &s)
     result.push_back((v1 << 2) | (v2 >> 4));
 
     int v3 = toint(*srcptr++);
+    int v4 = toint(*srcptr++);
+    // padding only at the very end
+    if ((v3 == -1 && v4 != -1) || (v4 == -1 && i + 1 != blocks))
+      throw invalid_argument(string("misplaced padding: ")+s.substr(i * 4,4));
     if (v3 == -1) {
       break;
     }
     result.push_back(((v2 << 4) | (v3 >> 2)) & 0xff);
 
-    int v4 = toint(*srcptr++);
     if (v4 == -1) {
       break;
     }
-- 
2.43.0


From b772bd09f1322afa8bdae41457fb7612d6e6ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:15 +0000
Subject: [PATCH 50/84] fix: a CGI program that throws something else than
 std::exception does not end the server

---
 src/network/cgi/server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/cgi/server.cpp b/src/network/cgi/server.cpp
index 4336db5..c676ed7 100644
--- a/src/network/cgi/server.cpp
+++ b/src/network/cgi/server.cpp
@@ -277,7 +277,8 @@ void run_server::process(socket_type ssock,
       pfi::lang::shared_ptr<http::response> resp=gen_resp(sout);
       resp->send(sock);
     }
-    catch(exception&){
+    catch(...){
+      // whatever the program throws, the server goes on
     }
   }
 }
-- 
2.43.0


From f0d300d084cbbce098270ef783fa68f6014ae2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:38 +0000
Subject: [PATCH 51/84] fix: a method that throws neither leaves its caller
 waiting nor ends the rpc_server

---
 src/network/rpc/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 65e1cb1..9089e65 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -231,7 +231,9 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       try{
         funcs[name]->invoke(ia,oa);
       }
-      catch(const rpc_error &){
+      catch(...){
+        // the client is told by the end of the connection; the server goes on
+        break;
       }
     }
   }
-- 
2.43.0


From b08626039c2b220011b2baa5e336a6f70577e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:58 +0000
Subject: [PATCH 52/84] fix: statements with eight to ten parameters or columns
 use the right element count

---
 src/database/statement.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/database/statement.h b/src/database/statement.h
index 98a0a91..3b52f82 100644
--- a/src/database/statement.h
+++ b/src/database/statement.h
@@ -154,7 +154,7 @@ public:
 
   template <class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8, class T9, class T10>
   int execute(T1 a1, T2 a2, T3 a3, T4 a4, T5 a5, T6 a6, T7 a7, T8 a8, T9 a9, T10 a10){
-    std::vector<pfi::lang::shared_ptr<sql_value> > args(9);
+    std::vector<pfi::lang::shared_ptr<sql_value> > args(10);
     args[0]=to_sql(a1);
     args[1]=to_sql(a2);
     args[2]=to_sql(a3);
@@ -256,7 +256,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=7) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -272,7 +272,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -281,7 +281,7 @@ public:
     r6=from_sql<T6>(ret[5]);
     r7=from_sql<T7>(ret[6]);
     r8=from_sql<T8>(ret[7]);
-    r9=from_sql<T8>(ret[8]);
+    r9=from_sql<T9>(ret[8]);
     return true;
   }
 
@@ -289,7 +289,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9, T10 &r10){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=10) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
-- 
2.43.0


From 00f3195a6ad66ed2024187c2fc240c129f0efabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:06 +0000
Subject: [PATCH 53/84] fix: a transaction whose commit or rollback fails does
 not end the process

---
 src/database/util.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/database/util.h b/src/database/util.h
index 2650632..2822c38 100644
--- a/src/database/util.h
+++ b/src/database/util.h
@@ -57,8 +57,19 @@ public:
     conn->begin_transaction();
   }
 
-  ~committer(){
-    if (std::uncaught_exception()) conn->rollback();
+  // a failing commit is reported to the code after the block;
+  // a failing rollback must not hide the exception in flight
+  ~committer()
+#if __cplusplus >= 201103L
+    noexcept(false)
+#endif
+  {
+    if (std::uncaught_exception()) {
+      try {
+        conn->rollback();
+      } catch (...) {
+      }
+    }
     else conn->commit();
   }
 
-- 
2.43.0


From 6ea760a3064c11c50b6a85cb3ac8c2048ea5b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:06 +0000
Subject: [PATCH 54/84] fix: PostgreSQL timestamps without six digits of
 fraction are read correctly

---
 src/database/postgresql/value.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index 3afbcaa..17dd4cf 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -34,6 +34,7 @@
 #include <iostream>
 #include <cstring>
 #include <cstdlib>
+#include <cctype>
 
 #include "value.h"
 #include "types.h"
@@ -103,9 +104,16 @@ sql_value *make_sql_value(char *p, int len, sql_type t)
     return new sql_float(lexical_cast<double>(p));
 
   case SQL_TIMESTAMP: {
-    tm t;
-    char *q=strptime(p, "%Y-%m-%d %T.", &t);
-    int usec=atoi(q);
+    tm t={};
+    char *q=strptime(p, "%Y-%m-%d %T", &t);
+    if (q==NULL)
+      throw database_error(string("cannot convert to timestamp: ")+p);
+    int usec=0;
+    if (*q=='.'){
+      q++;
+      for (int i=0, unit=100000; i<6 && isdigit((unsigned char)q[i]); i++, unit/=10)
+        usec+=(q[i]-'0')*unit;
+    }
     calendar_time ct(t.tm_year+1900, t.tm_mon+1, t.tm_mday,
                      t.tm_hour, t.tm_min, t.tm_sec, usec);
     return new sql_timestamp(clock_time(ct));
-- 
2.43.0


From d27e9745ab486ac0104fa46a49a83785822601a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:06 +0000
Subject: [PATCH 55/84] fix: PostgreSQL floating point values are sent with
 full precision and infinity can be read

---
 src/database/postgresql/value.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index 17dd4cf..7061660 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -101,7 +101,7 @@ sql_value *make_sql_value(char *p, int len, sql_type t)
     return new sql_int64(lexical_cast<int64_t>(p));
 
   case SQL_FLOAT:
-    return new sql_float(lexical_cast<double>(p));
+    return new sql_float(strtod(p, NULL));
 
   case SQL_TIMESTAMP: {
     tm t={};
@@ -152,7 +152,7 @@ pfi::lang::shared_ptr<string> sql_to_str(const pfi::lang::shared_ptr<sql_value>&
   }
   case SQL_FLOAT:{
     ostringstream oss;
-    oss<<setiosflags(ios::fixed)<<setprecision(10)<<dynamic_cast<sql_float*>(p.get())->get();
+    oss<<setprecision(17)<<dynamic_cast<sql_float*>(p.get())->get();
     return pfi::lang::shared_ptr<string>(new string(oss.str()));
   }
   case SQL_TIMESTAMP:{
-- 
2.43.0


From e53556aeb59aca84828685d6ef979778683f17d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:06 +0000
Subject: [PATCH 56/84] fix: reading a PostgreSQL column of an unknown type
 does not print to the standard output

---
 src/database/postgresql/value.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index 7061660..73e8097 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -71,7 +71,6 @@ sql_type oid_to_sql_type(Oid oid)
   case PG_TYPE_TIMESTAMP:
     return SQL_TIMESTAMP;
   }
-  cout<<oid<<endl;
   return SQL_UNKNOWN;
 }
 
-- 
2.43.0


From 2c5ba0e758f77c1d40581112a60a10fc27e08fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:06 +0000
Subject: [PATCH 57/84] fix: a PostgreSQL string parameter with a zero byte is
 refused instead of cut

---
 src/database/postgresql/value.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index 73e8097..2b91f80 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -141,6 +141,9 @@ pfi::lang::shared_ptr<string> sql_to_str(const pfi::lang::shared_ptr<sql_value>&
     return pfi::lang::shared_ptr<string>(new string(dynamic_cast<sql_bool*>(p.get())->get()?t:f));
   }
   case SQL_STRING:{
+    // text parameters end at the first zero byte
+    if (dynamic_cast<sql_string*>(p.get())->get().find('\0')!=string::npos)
+      throw database_error("string parameter contains a zero byte");
     return pfi::lang::shared_ptr<string>(new string(dynamic_cast<sql_string*>(p.get())->get()));
   }
   case SQL_INT32:{
-- 
2.43.0


From c26302493b6001c6a7d392e01f2b671f332a6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:06 +0000
Subject: [PATCH 58/84] fix: a prepared PostgreSQL statement still runs its own
 query after another one has been prepared

---
 src/database/postgresql/connection.cpp   |  3 ++-
 src/database/postgresql/connection_def.h |  5 +++++
 src/database/postgresql/statement.cpp    | 23 +++++++++++++++++++++--
 src/database/postgresql/statement.h      |  3 +++
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index 21e4b02..101ac1f 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -48,7 +48,7 @@ namespace database{
 namespace postgresql{
 
 postgresql_connection_impl::postgresql_connection_impl(const string &conninfo)
-  :conn(NULL)
+  :conn(NULL), prepared(NULL)
 {
   if (PQisthreadsafe()!=1)
     throw database_error("PostgreSQL is not threadsafe");
@@ -78,6 +78,7 @@ void postgresql_connection_impl::reconnect()
     return;
 
   PQreset(conn);
+  prepared=NULL;
 
   if (PQstatus(conn)!=CONNECTION_OK)
     throw database_error("fail to reconnect");
diff --git a/src/database/postgresql/connection_def.h b/src/database/postgresql/connection_def.h
index 42fd450..93b332b 100644
--- a/src/database/postgresql/connection_def.h
+++ b/src/database/postgresql/connection_def.h
@@ -48,8 +48,13 @@ public:
 
   PGconn *get(){ reconnect(); return conn; }
 
+  // the statement that the unnamed prepared statement belongs to
+  const statement *get_prepared() const { return prepared; }
+  void set_prepared(const statement *s) { prepared=s; }
+
 private:
   PGconn *conn;
+  const statement *prepared;
 };
 
 class postgresql_connection : public connection{
diff --git a/src/database/postgresql/statement.cpp b/src/database/postgresql/statement.cpp
index cd61c8d..c97f76b 100644
--- a/src/database/postgresql/statement.cpp
+++ b/src/database/postgresql/statement.cpp
@@ -61,15 +61,30 @@ static string convert_query(const string &q)
 postgresql_statement::postgresql_statement(const pfi::lang::shared_ptr<postgresql_connection_impl>& conn,
                                            const string &query)
   : conn(conn)
+  , query(convert_query(query))
 {
-  postgresql_result res(PQprepare(conn->get(), "", convert_query(query).c_str(), 0, NULL));
+  prepare();
+}
+
+// All statements share the connection's unnamed prepared statement,
+// which holds the one that has been prepared last.
+void postgresql_statement::prepare()
+{
+  PGconn *c=conn->get();
+  conn->set_prepared(NULL);
+
+  postgresql_result res(PQprepare(c, "", query.c_str(), 0, NULL));
 
   if (!res.command_ok())
     throw database_error(PQresultErrorMessage(res.get()));
+
+  conn->set_prepared(this);
 }
 
 postgresql_statement::~postgresql_statement()
 {
+  if (conn->get_prepared()==this)
+    conn->set_prepared(NULL);
 }
 
 int postgresql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value> > &args)
@@ -91,7 +106,11 @@ int postgresql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value>
     }
   }
 
-  PGresult *r=PQexecPrepared(conn->get(), "", n, &params[0], &param_lens[0], NULL, 0);
+  PGconn *c=conn->get();
+  if (conn->get_prepared()!=this)
+    prepare();
+
+  PGresult *r=PQexecPrepared(c, "", n, params.data(), param_lens.data(), NULL, 0);
   if (r==NULL)
     throw database_error("PQexecPrepared failed");
 
diff --git a/src/database/postgresql/statement.h b/src/database/postgresql/statement.h
index 5755ccf..bb54245 100644
--- a/src/database/postgresql/statement.h
+++ b/src/database/postgresql/statement.h
@@ -55,7 +55,10 @@ public:
   bool fetch_row(std::vector<pfi::lang::shared_ptr<sql_value> > &row);
 
 private:
+  void prepare();
+
   pfi::lang::shared_ptr<postgresql_connection_impl> conn;
+  std::string query;
   pfi::lang::shared_ptr<postgresql_result> res;
 };
 
-- 
2.43.0


From 714d7d751c11c269f5a750354fd1d36545536ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:44 +0000
Subject: [PATCH 59/84] fix: destroying a PostgreSQL connection that has been
 lost does not end the process

---
 src/database/postgresql/connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index 101ac1f..a175143 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -91,7 +91,10 @@ postgresql_connection::postgresql_connection(const string &conninfo)
 
 postgresql_connection::~postgresql_connection()
 {
-  (void)connection::run("ROLLBACK");
+  try{
+    rollback();
+  }catch(...){
+  }
 }
 
 void postgresql_connection::begin_transaction()
-- 
2.43.0


From dff87b3dc5d672dde4f3ffae1bfdefe9734624b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:44 +0000
Subject: [PATCH 60/84] fix: a PostgreSQL transaction that was lost or has
 failed is not reported as committed

---
 src/database/postgresql/connection.cpp   | 23 +++++++++++++++++++++--
 src/database/postgresql/connection_def.h |  3 +++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index a175143..7aff0a0 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -48,7 +48,7 @@ namespace database{
 namespace postgresql{
 
 postgresql_connection_impl::postgresql_connection_impl(const string &conninfo)
-  :conn(NULL), prepared(NULL)
+  :conn(NULL), prepared(NULL), in_transaction(false)
 {
   if (PQisthreadsafe()!=1)
     throw database_error("PostgreSQL is not threadsafe");
@@ -77,6 +77,10 @@ void postgresql_connection_impl::reconnect()
   if (PQstatus(conn)==CONNECTION_OK)
     return;
 
+  // what has been done in the transaction is lost with the connection
+  if (in_transaction)
+    throw connection_error("connection lost in a transaction");
+
   PQreset(conn);
   prepared=NULL;
 
@@ -100,15 +104,30 @@ postgresql_connection::~postgresql_connection()
 void postgresql_connection::begin_transaction()
 {
   (void)connection::run("BEGIN");
+  conn->set_in_transaction(true);
 }
 
 void postgresql_connection::commit()
 {
-  (void)connection::run("COMMIT");
+  try{
+    // the server answers COMMIT by a silent rollback
+    // when a statement of the transaction has failed
+    if (PQtransactionStatus(conn->get())==PQTRANS_INERROR)
+      throw database_error("cannot commit a failed transaction");
+    (void)connection::run("COMMIT");
+  }catch(...){
+    try{
+      rollback();
+    }catch(...){
+    }
+    throw;
+  }
+  conn->set_in_transaction(false);
 }
 
 void postgresql_connection::rollback()
 {
+  conn->set_in_transaction(false);
   (void)connection::run("ROLLBACK");
 }
 
diff --git a/src/database/postgresql/connection_def.h b/src/database/postgresql/connection_def.h
index 93b332b..4adf582 100644
--- a/src/database/postgresql/connection_def.h
+++ b/src/database/postgresql/connection_def.h
@@ -52,9 +52,12 @@ public:
   const statement *get_prepared() const { return prepared; }
   void set_prepared(const statement *s) { prepared=s; }
 
+  void set_in_transaction(bool b) { in_transaction=b; }
+
 private:
   PGconn *conn;
   const statement *prepared;
+  bool in_transaction;
 };
 
 class postgresql_connection : public connection{
-- 
2.43.0


From 91a4ed10405cb39f0e10b7b736c97118ac811f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:12 +0000
Subject: [PATCH 61/84] fix: a NULL parameter of a MySQL statement is sent as
 NULL

---
 src/database/mysql/statement.cpp | 4 ++--
 src/database/mysql/value.cpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/database/mysql/statement.cpp b/src/database/mysql/statement.cpp
index 28d90c0..f91a07d 100644
--- a/src/database/mysql/statement.cpp
+++ b/src/database/mysql/statement.cpp
@@ -115,14 +115,14 @@ int mysql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value> > &ar
   for (size_t i=0;i<args.size();i++){
     memset(&bind[i], 0, sizeof(MYSQL_BIND));
     ibufs[i].resize(bind_length(args[i]));
-    bind[i].buffer=&ibufs[i][0];
+    bind[i].buffer=ibufs[i].data();
     bind[i].buffer_length=ibufs[i].size();
     bind[i].is_null=&falses[i];
     bind[i].length=&lns[i];
     to_bind(args[i], bind[i]);
   }
 
-  my_bool rb=mysql_stmt_bind_param(stmt, &bind[0]);
+  my_bool rb=mysql_stmt_bind_param(stmt, bind.data());
   if (rb!=0){
     throw database_error(string("cannot bind parameter: ")+
                          mysql_stmt_error(stmt));
diff --git a/src/database/mysql/value.cpp b/src/database/mysql/value.cpp
index e9ee10e..d482cd5 100644
--- a/src/database/mysql/value.cpp
+++ b/src/database/mysql/value.cpp
@@ -122,7 +122,7 @@ size_t bind_length(const pfi::lang::shared_ptr<sql_value>& p)
 void to_bind(const pfi::lang::shared_ptr<sql_value>& p, MYSQL_BIND &bind)
 {
   if (!p){
-    bind.is_null=NULL;
+    bind.buffer_type=MYSQL_TYPE_NULL;
     return;
   }
 
-- 
2.43.0


From f968b973f07fc281262176c0ee26472564da62e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:13 +0000
Subject: [PATCH 62/84] fix: unsigned MySQL columns are not read as negative
 numbers

---
 src/database/mysql/statement.cpp | 1 +
 src/database/mysql/value.cpp     | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/database/mysql/statement.cpp b/src/database/mysql/statement.cpp
index f91a07d..65269d0 100644
--- a/src/database/mysql/statement.cpp
+++ b/src/database/mysql/statement.cpp
@@ -163,6 +163,7 @@ bool mysql_statement::fetch_row(vector<pfi::lang::shared_ptr<sql_value> > &row)
       lens[i]=0;
 
       binds[i].buffer_type=flds[i].type;
+      binds[i].is_unsigned=(flds[i].flags & UNSIGNED_FLAG)?1:0;
       binds[i].buffer=&bufs[i][0];
       binds[i].buffer_length=bufs[i].size();
       binds[i].length=&lens[i];
diff --git a/src/database/mysql/value.cpp b/src/database/mysql/value.cpp
index d482cd5..a4d36f5 100644
--- a/src/database/mysql/value.cpp
+++ b/src/database/mysql/value.cpp
@@ -48,15 +48,23 @@ static sql_value *from_bind_p(MYSQL_BIND &bind)
 
   switch(bind.buffer_type){
   case MYSQL_TYPE_TINY:
+    if (bind.is_unsigned)
+      return new sql_int32(*(unsigned char*)bind.buffer);
     return new sql_int32(*(signed char*)bind.buffer);
 
   case MYSQL_TYPE_SHORT:
+    if (bind.is_unsigned)
+      return new sql_int32(*(unsigned short*)bind.buffer);
     return new sql_int32(*(short*)bind.buffer);
 
   case MYSQL_TYPE_LONG:
+    if (bind.is_unsigned)
+      return new sql_int64(*(unsigned int*)bind.buffer);
     return new sql_int32(*(int*)bind.buffer);
 
   case MYSQL_TYPE_LONGLONG:
+    if (bind.is_unsigned && *(long long*)bind.buffer<0)
+      throw database_error("unsigned integer out of range");
     return new sql_int64(*(long long*)bind.buffer);
 
   case MYSQL_TYPE_FLOAT:
-- 
2.43.0


From 143be0bf9cb88347f76e1ab246e2f7c4c3fd0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:13 +0000
Subject: [PATCH 63/84] fix: a MySQL statement whose result cannot be described
 or bound reports it and leaks nothing

---
 src/database/mysql/statement.cpp | 21 +++++++++++++++++++--
 src/database/mysql/statement.h   |  2 ++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/database/mysql/statement.cpp b/src/database/mysql/statement.cpp
index 65269d0..d4f5487 100644
--- a/src/database/mysql/statement.cpp
+++ b/src/database/mysql/statement.cpp
@@ -73,12 +73,19 @@ mysql_statement::mysql_statement(pfi::lang::shared_ptr<mysql_connection_impl> &c
 
   meta=mysql_stmt_result_metadata(stmt);
   if (meta==NULL){
+    if (mysql_stmt_errno(stmt)!=0){
+      string msg(string("cannot get result metadata: ")+
+                 mysql_stmt_error(stmt));
+      mysql_stmt_close(stmt);
+      throw database_error(msg);
+    }
     flds.clear();
   }
   else{
     MYSQL_FIELD *fld=mysql_fetch_fields(meta);
     if (fld==NULL){
       mysql_free_result(meta);
+      mysql_stmt_close(stmt);
       throw database_error("cannot fetch field metadata");
     }
     
@@ -145,6 +152,16 @@ int mysql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value> > &ar
   return 0;
 }
 
+void mysql_statement::bind_result()
+{
+  if (mysql_stmt_bind_result(stmt, binds.data())!=0){
+    string msg(string("cannot bind result: ")+
+               mysql_stmt_error(stmt));
+    binds.clear();
+    throw database_error(msg);
+  }
+}
+
 bool mysql_statement::fetch_row(vector<pfi::lang::shared_ptr<sql_value> > &row)
 {
   static const size_t INIT_BUF_SIZE = 16*1024;
@@ -170,7 +187,7 @@ bool mysql_statement::fetch_row(vector<pfi::lang::shared_ptr<sql_value> > &row)
       binds[i].is_null=&nulls[i];
     }
 
-    mysql_stmt_bind_result(stmt, &binds[0]);
+    bind_result();
   }
 
   int rc=mysql_stmt_fetch(stmt);
@@ -188,7 +205,7 @@ bool mysql_statement::fetch_row(vector<pfi::lang::shared_ptr<sql_value> > &row)
                                mysql_stmt_error(stmt));
       }
     }
-    mysql_stmt_bind_result(stmt, &binds[0]);
+    bind_result();
   }
 
   if (rc==MYSQL_NO_DATA)
diff --git a/src/database/mysql/statement.h b/src/database/mysql/statement.h
index fa0ec4d..06f6dc0 100644
--- a/src/database/mysql/statement.h
+++ b/src/database/mysql/statement.h
@@ -60,6 +60,8 @@ public:
   bool fetch_row(std::vector<pfi::lang::shared_ptr<sql_value> > &row);
 
 private:
+  void bind_result();
+
   pfi::lang::shared_ptr<mysql_connection_impl> conn;
 
   MYSQL_STMT *stmt;
-- 
2.43.0


From f828989155ce9938e9b7061487cc2edd480bd319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:13 +0000
Subject: [PATCH 64/84] fix: a MySQL transaction that was lost or could not be
 started or ended is reported

---
 src/database/mysql/connection.cpp   | 28 ++++++++++++++++++++++++----
 src/database/mysql/connection_def.h |  4 ++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/database/mysql/connection.cpp b/src/database/mysql/connection.cpp
index ecdb188..5df598f 100644
--- a/src/database/mysql/connection.cpp
+++ b/src/database/mysql/connection.cpp
@@ -47,7 +47,7 @@ mysql_connection_impl::mysql_connection_impl(const string &host,
                                              const string &passwd,
                                              const string &db,
                                              uint16_t port)
-  :conn(NULL), host(host), user(user), passwd(passwd), db(db), port(port)
+  :conn(NULL), host(host), user(user), passwd(passwd), db(db), port(port), in_transaction(false)
 {
   reconnect();
 }
@@ -68,6 +68,10 @@ void mysql_connection_impl::reconnect()
     conn=NULL;
   }
 
+  // what has been done in the transaction is lost with the connection
+  if (in_transaction)
+    throw connection_error("connection lost in a transaction");
+
   MYSQL *c=mysql_init(NULL);
 
   if (c==NULL)
@@ -109,17 +113,31 @@ mysql_connection::~mysql_connection()
 
 void mysql_connection::begin_transaction()
 {
-  (void)query("BEGIN");
+  execute("BEGIN");
+  conn->set_in_transaction(true);
 }
 
 void mysql_connection::commit()
 {
-  (void)query("COMMIT");
+  try{
+    execute("COMMIT");
+  }catch(...){
+    conn->set_in_transaction(false);
+    throw;
+  }
+  conn->set_in_transaction(false);
 }
 
 void mysql_connection::rollback()
 {
-  (void)query("ROLLBACK");
+  conn->set_in_transaction(false);
+  execute("ROLLBACK");
+}
+
+void mysql_connection::execute(const string &sql)
+{
+  if (query(sql)!=0)
+    throw database_error(sql+" failed: "+mysql_error(conn->get()));
 }
 
 int mysql_connection::query(const string &sql)
@@ -164,6 +182,8 @@ int mysql_connection::run(const string &sql,
 
 statement *mysql_connection::prepare(const string &sql)
 {
+  if (conn->get() == NULL) reconnect();
+
   try {
     return new mysql_statement(conn, sql);
   }
diff --git a/src/database/mysql/connection_def.h b/src/database/mysql/connection_def.h
index 7799fe4..cffbd81 100644
--- a/src/database/mysql/connection_def.h
+++ b/src/database/mysql/connection_def.h
@@ -56,10 +56,13 @@ public:
   void reconnect();
   MYSQL *get(){ return conn; }
 
+  void set_in_transaction(bool b) { in_transaction=b; }
+
 private:
   MYSQL *conn;
   std::string host, user, passwd, db;
   uint16_t port;
+  bool in_transaction;
 };
 
 class mysql_connection : public connection{
@@ -81,6 +84,7 @@ public:
 
 private:
   int query(const std::string &sql);
+  void execute(const std::string &sql);
   void reconnect();
 
   pfi::lang::shared_ptr<mysql_connection_impl> conn;
-- 
2.43.0


From efaf9c770770f7cd0598d2eb206faf499df09f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:31 +0000
Subject: [PATCH 65/84] fix: PostgreSQL connection parameters that are empty or
 contain spaces or quotes

---
 src/database/postgresql/connection.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index 7aff0a0..b53f318 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -147,6 +147,17 @@ connection *connect(const string &conninfo)
   return new postgresql_connection(conninfo);
 }
 
+// a value of a connection string may contain spaces only within quotes
+static string quote(const string &s)
+{
+  string ret("'");
+  for (size_t i=0;i<s.length();i++){
+    if (s[i]=='\'' || s[i]=='\\') ret+='\\';
+    ret+=s[i];
+  }
+  return ret+"'";
+}
+
 connection *connect(const string &host,
                     uint16_t port,
                     const string &dbname,
@@ -154,11 +165,11 @@ connection *connect(const string &host,
                     const string &password)
 {
   ostringstream oss;
-  oss<<"host="<<host<<" "
+  oss<<"host="<<quote(host)<<" "
      <<"port="<<port<<" "
-     <<"dbname="<<dbname<<" "
-     <<"user="<<user<<" "
-     <<"password="<<password;
+     <<"dbname="<<quote(dbname)<<" "
+     <<"user="<<quote(user)<<" "
+     <<"password="<<quote(password);
   return connect(oss.str());
 }
 
-- 
2.43.0


From 20d377af33f537a5a20649ce2ebbabcddcd0dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:25 +0000
Subject: [PATCH 66/84] fix: a MessagePack RPC peer that closed its connection
 no longer kills the process by SIGPIPE

---
 src/network/mprpc/object_stream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/network/mprpc/object_stream.cpp b/src/network/mprpc/object_stream.cpp
index 2638110..358fbef 100644
--- a/src/network/mprpc/object_stream.cpp
+++ b/src/network/mprpc/object_stream.cpp
@@ -36,12 +36,17 @@
 #include <errno.h>
 #include <sys/types.h>
 #include <sys/uio.h>
+#include <sys/socket.h>
 #include <unistd.h>
 
 #include "socket.h"
 #include "exception.h"
 #include "../../system/time_util.h"
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 using pfi::system::time::clock_time;
 using pfi::system::time::get_clock_time;
 
@@ -102,7 +107,7 @@ int object_stream::write(const void* data, size_t size, double timeout_sec)
   const char* const pend = p + size;
   clock_time start = get_clock_time();
   while(p < pend) {
-    ssize_t rl = ::write(iofd, p, pend-p);
+    ssize_t rl = ::send(iofd, p, pend-p, MSG_NOSIGNAL);
     if(rl <= 0) {
       if(rl == 0) {
         return -1;
-- 
2.43.0


From 23ec0ffd58d30313382f6b4c79115a68876bccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:25 +0000
Subject: [PATCH 67/84] fix: nothing is sent after a MessagePack RPC message
 that could not be sent completely

---
 src/network/mprpc/object_stream.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/network/mprpc/object_stream.cpp b/src/network/mprpc/object_stream.cpp
index 358fbef..140e5f4 100644
--- a/src/network/mprpc/object_stream.cpp
+++ b/src/network/mprpc/object_stream.cpp
@@ -113,11 +113,18 @@ int object_stream::write(const void* data, size_t size, double timeout_sec)
         return -1;
       }
       if(errno == EINTR) { continue; }
-      if(timeout_sec > 0.0 &&
-         timeout_sec < (double)(get_clock_time() - start)){
+      bool timed_out = timeout_sec > 0.0 &&
+        timeout_sec < (double)(get_clock_time() - start);
+      if(!timed_out && errno == EAGAIN) { continue; }
+      if(p != data) {
+        // nothing may follow an object that was sent only in part
+        int err = errno;
+        ::shutdown(iofd, SHUT_RDWR);
+        errno = err;
+      }
+      if(timed_out) {
         throw rpc_timeout_error("timeout");
       }
-      if(errno == EAGAIN) { continue; }
       return -1;
     }
     p += rl;
-- 
2.43.0


From d73b70a0e31ae945ba1afdbed72c86e3c9fa02e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:25 +0000
Subject: [PATCH 68/84] fix: malformed MessagePack RPC messages end the
 connection, not the process

---
 src/network/mprpc/object_stream.cpp | 10 +++++++++-
 src/network/mprpc/rpc_server.cpp    |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/network/mprpc/object_stream.cpp b/src/network/mprpc/object_stream.cpp
index 140e5f4..1d0a3df 100644
--- a/src/network/mprpc/object_stream.cpp
+++ b/src/network/mprpc/object_stream.cpp
@@ -74,7 +74,15 @@ int object_stream::read(msgpack::object* obj, std::unique_ptr<msgpack::zone>* zo
 {
   clock_time start = get_clock_time();
   while(true) {
-    if(unpacker.execute()) {
+    bool complete;
+    try {
+      complete = unpacker.execute();
+    } catch (std::exception&) {
+      // not a MessagePack object: where the next one begins is unknown
+      ::shutdown(iofd, SHUT_RDWR);
+      return -1;
+    }
+    if(complete) {
       *obj = unpacker.data();
       zone->reset( unpacker.release_zone() );
       unpacker.reset();
diff --git a/src/network/mprpc/rpc_server.cpp b/src/network/mprpc/rpc_server.cpp
index f5057d3..cd2ab33 100644
--- a/src/network/mprpc/rpc_server.cpp
+++ b/src/network/mprpc/rpc_server.cpp
@@ -166,7 +166,12 @@ void rpc_server::process()
         continue;
       }
 
-      rpc_request req(msg);
+      rpc_request req;
+      try {
+        req.reset(msg);
+      } catch (msgpack::type_error&) {
+        break;
+      }
       try {
         process_request(req, rs);
       } catch (rpc_error&) {
-- 
2.43.0


From 6ee233eb51d8ea15ba0bcdf2572f7403047ee395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:25 +0000
Subject: [PATCH 69/84] fix: a MessagePack RPC call whose method throws
 anything is answered; a lost reply ends the connection

---
 src/network/mprpc/invoker.h      | 22 ++++++++++++++++++----
 src/network/mprpc/rpc_server.cpp | 20 ++++++++++++++------
 src/network/mprpc/rpc_server.h   |  2 +-
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/network/mprpc/invoker.h b/src/network/mprpc/invoker.h
index 53a0480..0dee5f1 100644
--- a/src/network/mprpc/invoker.h
+++ b/src/network/mprpc/invoker.h
@@ -47,30 +47,44 @@ namespace mprpc {
 class responder {
 public:
   responder(uint32_t msgid, const pfi::lang::shared_ptr<rpc_stream>& rs) :
-    msgid(msgid), rs(rs) { }
+    msgid(msgid), rs(rs), responded_(false), sent_(false) { }
 
 public:
   template <typename R>
   bool send_result(const R& r)
   {
-    return rs->send_response(msgid, r, msgpack::type::nil());
+    return send(r, msgpack::type::nil());
   }
 
   template <typename E>
   bool send_error(const E& e)
   {
-    return rs->send_response(msgid, msgpack::type::nil(), e);
+    return send(msgpack::type::nil(), e);
   }
 
   template <typename E, typename R>
   bool send_error(const E& e, const R& r)
   {
-    return rs->send_response(msgid, r, e);
+    return send(r, e);
   }
 
+  // a response was sent, or at least tried
+  bool responded() const { return responded_; }
+  bool sent() const { return sent_; }
+
 private:
+  template <typename R, typename E>
+  bool send(const R& r, const E& e)
+  {
+    responded_ = true;
+    sent_ = false;
+    return sent_ = rs->send_response(msgid, r, e);
+  }
+
   uint32_t msgid;
   pfi::lang::shared_ptr<rpc_stream> rs;
+  bool responded_;
+  bool sent_;
 };
 
 
diff --git a/src/network/mprpc/rpc_server.cpp b/src/network/mprpc/rpc_server.cpp
index cd2ab33..cb43a5b 100644
--- a/src/network/mprpc/rpc_server.cpp
+++ b/src/network/mprpc/rpc_server.cpp
@@ -173,8 +173,11 @@ void rpc_server::process()
         break;
       }
       try {
-        process_request(req, rs);
+        if(!process_request(req, rs)) {
+          break;
+        }
       } catch (rpc_error&) {
+        break;
       }
     }
   }
@@ -186,7 +189,7 @@ void rpc_server::add(const std::string &name,
   funcs[name] = invoker;
 }
 
-void rpc_server::process_request(rpc_request& req, const pfi::lang::shared_ptr<rpc_stream>& rs)
+bool rpc_server::process_request(rpc_request& req, const pfi::lang::shared_ptr<rpc_stream>& rs)
 {
   responder res(req.msgid, rs);
 
@@ -194,16 +197,21 @@ void rpc_server::process_request(rpc_request& req, const pfi::lang::shared_ptr<r
     fun = funcs.find(req.method);
 
   if(fun == funcs.end()) {
-    res.send_error((unsigned int)METHOD_NOT_FOUND, req.method);
-    return;
+    return res.send_error((unsigned int)METHOD_NOT_FOUND, req.method);
   }
 
   try {
     fun->second->invoke(req, res);
-  } catch (rpc_error&) {
   } catch (std::exception& e) {
-    res.send_error(std::string(e.what()));
+    if(!res.responded()) {
+      res.send_error(std::string(e.what()));
+    }
+  } catch (...) {
+    if(!res.responded()) {
+      res.send_error(std::string("unknown exception"));
+    }
   }
+  return res.sent();
 }
 
 
diff --git a/src/network/mprpc/rpc_server.h b/src/network/mprpc/rpc_server.h
index cd06d38..1637b60 100644
--- a/src/network/mprpc/rpc_server.h
+++ b/src/network/mprpc/rpc_server.h
@@ -87,7 +87,7 @@ private:
   void add(const std::string &name,
            const pfi::lang::shared_ptr<invoker_base>& invoker);
 
-  void process_request(rpc_request& req, const pfi::lang::shared_ptr<rpc_stream>& rs);
+  bool process_request(rpc_request& req, const pfi::lang::shared_ptr<rpc_stream>& rs);
 
   std::map<std::string, pfi::lang::shared_ptr<invoker_base> > funcs;
 };
-- 
2.43.0


From 554b82a814c5b95200d4c88b05c890c8ba9d2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:25 +0000
Subject: [PATCH 70/84] fix: a MessagePack RPC server that could not start all
 its threads can be joined and started again

---
 src/network/mprpc/rpc_server.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/network/mprpc/rpc_server.cpp b/src/network/mprpc/rpc_server.cpp
index cb43a5b..244fc20 100644
--- a/src/network/mprpc/rpc_server.cpp
+++ b/src/network/mprpc/rpc_server.cpp
@@ -103,9 +103,8 @@ bool rpc_server::run(int nthreads, bool sync)
           pfi::lang::bind(&rpc_server::process, this)));
     if (!serv_threads[i]->start()) {
       stop();
-      for (int j = 0; j < i; j++) {
-        serv_threads[j]->join();
-      }
+      serv_threads.resize(i);
+      join();
       return false;
     }
   }
-- 
2.43.0


From 9adc6056da9d47d166afc346868ba449081ce7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:32 +0000
Subject: [PATCH 71/84] fix: system statistics report the right amount of free
 memory from 2 TB on

---
 src/system/sysstat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/sysstat.cpp b/src/system/sysstat.cpp
index 00cc0d9..fa829c0 100644
--- a/src/system/sysstat.cpp
+++ b/src/system/sysstat.cpp
@@ -162,7 +162,7 @@ static uint64_t get_free_memory()
       string kb;
       iss >> type >> mem >> kb;
       if (mem != "") {
-        memfree = atoi(mem.c_str());
+        memfree = atoll(mem.c_str());
         if (kb == "kB") {
           memfree *= 1000;
         }
@@ -175,7 +175,7 @@ static uint64_t get_free_memory()
       string kb;
       iss >> type >> cached >> kb;
       if (cached != "") {
-        memcached = atoi(cached.c_str());
+        memcached = atoll(cached.c_str());
         if (kb == "kB") {
           memcached *= 1000;
         }
-- 
2.43.0


From d8f2a1d7da5a35e93d564cc0ad5efbcf1294a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:58 +0000
Subject: [PATCH 72/84] fix: a socket stream does not carry a looked-at byte
 over to its next connection

---
 src/network/iostream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/iostream.h b/src/network/iostream.h
index bbc9922..aa6ba96 100644
--- a/src/network/iostream.h
+++ b/src/network/iostream.h
@@ -60,6 +60,7 @@ public:
     this->sock=
       pfi::lang::shared_ptr<socket_holder>
       (new socket_holder_impl<pfi::lang::shared_ptr<stream_socket> >(sock));
+    buf=T::eof();
     return sock->connect(host, port);
   }
 
@@ -83,6 +84,7 @@ public:
   template <class PSOCK>
   void setsock(PSOCK sock){
     this->sock=pfi::lang::shared_ptr<socket_holder>(new socket_holder_impl<PSOCK>(sock));
+    buf=T::eof();
   }
 
   bool is_connected() const{
-- 
2.43.0


From 8e43474d4850091ca4b8691c54024630956001ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 73/84] fix: HTTP header values kept the white space after
 them, so that 'chunked ' was not recognised

---
 src/network/http/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 182fd8e..dee4932 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -113,8 +113,10 @@ void header::read_header(pfi::lang::function<bool (string*)> f)
 
     size_t st = 0;
     while (st < val.length() && isspace(val[st])) st++;
+    size_t en = val.length();
+    while (en > st && isspace(val[en-1])) en--;
 
-    set(key, val.substr(st));
+    set(key, val.substr(st, en-st));
     key = "";
     val = "";
   }
-- 
2.43.0


From 28a09081b982419a714915cd9c8c89c20e5a71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:52 +0000
Subject: [PATCH 74/84] fix: of several HTTP header fields of one name only the
 last was kept

---
 src/network/cgi/server.cpp |  4 +---
 src/network/http/base.cpp  | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/network/cgi/server.cpp b/src/network/cgi/server.cpp
index c676ed7..b73943a 100644
--- a/src/network/cgi/server.cpp
+++ b/src/network/cgi/server.cpp
@@ -216,9 +216,7 @@ static pfi::lang::shared_ptr<http::response> gen_resp(stringstream &ss)
 
   head["Content-Type"]=content_type;
 
-  for (http::header::iterator p=head.begin();
-       p!=head.end(); p++)
-    resp->head()[p->first]=p->second;
+  resp->head()=head;
 
   resp->body()<<ss.rdbuf();
 
diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index dee4932..cc44a7c 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -116,7 +116,13 @@ void header::read_header(pfi::lang::function<bool (string*)> f)
     size_t en = val.length();
     while (en > st && isspace(val[en-1])) en--;
 
-    set(key, val.substr(st, en-st));
+    val = val.substr(st, en-st);
+
+    // the fields of one name are one list, but cookies cannot be joined
+    if (has_key(key) && !cicmp(key, "Set-Cookie"))
+      (*this)[key] += ", " + val;
+    else
+      dat.push_back(make_pair(key, val));
     key = "";
     val = "";
   }
@@ -171,11 +177,11 @@ void header::set(const string& key, const string& val)
 
 void header::erase(const string& key)
 {
-  for (iterator it = dat.begin(); it != dat.end(); ++it) {
-    if (cicmp(it->first,key)) {
-      dat.erase(it);
-      return;
-    }
+  for (iterator it = dat.begin(); it != dat.end();) {
+    if (cicmp(it->first,key))
+      it = dat.erase(it);
+    else
+      ++it;
   }
 }
 
-- 
2.43.0


From 9159030a08b7f26f7b7bf0853dba1a3acb082858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:31 +0000
Subject: [PATCH 75/84] fix: CGI multipart boundaries in quotes or followed by
 parameters, and unquoted names, were not understood

---
 src/network/cgi/base.cpp | 45 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 85607f2..d850018 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -44,6 +44,9 @@ namespace pfi{
 namespace network{
 namespace cgi{
 
+static inline pair<string, map<string, string> >
+extract_header(const string &s);
+
 cgi::cgi()
   : max_content_length(4*1024*1024)
 {
@@ -93,16 +96,14 @@ void cgi::exec(istream& in,
         invalid_msg="Request is too short";
       }
       else{
-        if (env["CONTENT_TYPE"].find("multipart/")!=string::npos){
-          string::size_type ix=env["CONTENT_TYPE"].find("boundary=");
-          if (ix==string::npos){
+        pair<string, map<string, string> > ct=extract_header(env["CONTENT_TYPE"]);
+        if (ct.first.find("multipart/")==0){
+          if (ct.second.count("boundary")==0){
             valid=false;
             invalid_msg="Invalid html protocol";
           }
-          else{
-            string boundary=env["CONTENT_TYPE"].substr(ix+9);
-            parse_multipart_input(dat, boundary);
-          }
+          else
+            parse_multipart_input(dat, ct.second["boundary"]);
         }
         else
           parse_input(dat);
@@ -183,12 +184,11 @@ static inline pair<string, string> extract_attr(const string &s)
   string::size_type ix=s.find('=');
   string key=string_tolower(trim(s.substr(0, ix)));
   if (ix==string::npos) return make_pair(key, "");
-  ix++;
-  string::size_type jx=s.find('\"', ix);
-  if (jx==string::npos) return make_pair(key, "");
-  string::size_type kx=s.find('\"', jx+1);
+  string val=trim(s.substr(ix+1));
+  if (val.empty() || val[0]!='\"') return make_pair(key, val);
+  string::size_type kx=val.find('\"', 1);
   if (kx==string::npos) return make_pair(key, "");
-  return make_pair(key, s.substr(jx+1, kx-jx-1));
+  return make_pair(key, val.substr(1, kx-1));
 }
 
 static inline pair<string, map<string, string> >
@@ -198,12 +198,15 @@ extract_header(const string &s)
   map<string, string> attr;
 
   string::size_type cur=s.find(';');
-  val=s.substr(0, cur);
+  val=string_tolower(trim(s.substr(0, cur)));
 
-  for (; cur!=string::npos; ){
+  for (; cur<s.length(); ){
     cur++;
-    string::size_type next=s.find(';', cur);
-    attr.insert(extract_attr(s.substr(cur, next)));
+    // a quoted value may contain the separator
+    string::size_type next=cur;
+    for (bool quoted=false; next<s.length() && (quoted || s[next]!=';'); next++)
+      if (s[next]=='\"') quoted=!quoted;
+    attr.insert(extract_attr(s.substr(cur, next-cur)));
     cur=next;
   }
 
@@ -251,11 +254,11 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     istringstream jss(str);
     http::header hd(jss);
     string body=(jss?str.substr(jss.tellg()):"");
-    const string &ct=hd["Content-Type"];
-    if (ct.find("multipart/")!=string::npos){
-      string::size_type ix=ct.find("boundary=");
-      string bd=ct.substr(ix+9);
-      parse_multipart_input(body, bd);
+    pair<string, map<string, string> > ct=extract_header(hd["Content-Type"]);
+    if (ct.first.find("multipart/")==0){
+      if (ct.second.count("boundary")==0)
+        throw http::http_exception("multipart without boundary");
+      parse_multipart_input(body, ct.second["boundary"]);
     }
     else{
       const string &cd=hd["Content-Disposition"];
-- 
2.43.0


From 79be9a8f13c7c96b03e4d0dabd31f91d7b64741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 76/84] fix: the CGI server named the variables of header
 fields with '-' instead of '_'

---
 src/network/cgi/server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/cgi/server.cpp b/src/network/cgi/server.cpp
index b73943a..3970873 100644
--- a/src/network/cgi/server.cpp
+++ b/src/network/cgi/server.cpp
@@ -223,11 +223,12 @@ static pfi::lang::shared_ptr<http::response> gen_resp(stringstream &ss)
   return resp;
 }
 
+// the name of a header field as it is written in CGI variables
 string str_to_upper(const string &s)
 {
   string ret(s);
   for (size_t i=0; i<s.length(); i++)
-    ret[i]=toupper(ret[i]);
+    ret[i]=ret[i]=='-'?'_':toupper(ret[i]);
   return ret;
 }
 
-- 
2.43.0


From 7a12fe7f4746e303cee561b836b64c0b72ae9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:21 +0000
Subject: [PATCH 77/84] fix: the CGI server handed a body sent in chunks to the
 program as no content at all

---
 src/network/cgi/base.h     |  1 +
 src/network/cgi/server.cpp | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/network/cgi/base.h b/src/network/cgi/base.h
index 796b017..2f23346 100644
--- a/src/network/cgi/base.h
+++ b/src/network/cgi/base.h
@@ -72,6 +72,7 @@ public:
             const std::map<std::string, std::string> &cenv);
 
   void set_max_content_length(size_t length);
+  size_t get_max_content_length() const { return max_content_length; }
 
 protected:
   std::string method;
diff --git a/src/network/cgi/server.cpp b/src/network/cgi/server.cpp
index 3970873..456b276 100644
--- a/src/network/cgi/server.cpp
+++ b/src/network/cgi/server.cpp
@@ -271,7 +271,20 @@ void run_server::process(socket_type ssock,
       env["CONTENT_LENGTH"]=req.head()["Content-Length"];
       env["CONTENT_TYPE"]=req.head()["Content-Type"];
 
-      cc->exec(req.body(), sout, cerr, env);
+      // the program expects to be told the length of the content
+      istream *in=&req.body();
+      stringstream content;
+      if (str_to_upper(req.head()["Transfer-Encoding"])=="CHUNKED"){
+        size_t length=0;
+        for (char ch; length<=cc->get_max_content_length() && in->get(ch); length++)
+          content.put(ch);
+        if (in->bad() || !sock->is_connected())
+          continue;
+        env["CONTENT_LENGTH"]=lexical_cast<string>(length);
+        in=&content;
+      }
+
+      cc->exec(*in, sout, cerr, env);
 
       pfi::lang::shared_ptr<http::response> resp=gen_resp(sout);
       resp->send(sock);
-- 
2.43.0


From e4e2a4a828ca99a5120de6919e22371a4a36f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:50 +0000
Subject: [PATCH 78/84] fix: an HTTP message whose header was cut short was
 taken for a complete one

---
 src/network/http/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index cc44a7c..888fa47 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -130,7 +130,10 @@ void header::read_header(pfi::lang::function<bool (string*)> f)
 
 static bool socket_getline(stream_socket* sock, string* str, int line_limit)
 {
-  return sock->getline(*str, line_limit);
+  // the header ends with an empty line, not with the connection
+  if (!sock->getline(*str, line_limit))
+    throw http_exception("header is cut short");
+  return true;
 }
 
 header::header(const pfi::lang::shared_ptr<stream_socket>& sock)
-- 
2.43.0


From 263aed47969fdf33e3676e650fa59447dd4442e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:42 +0000
Subject: [PATCH 79/84] fix: an HTTP line longer than the limit was cut and its
 rest taken for the next line

---
 src/network/http/base.cpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 888fa47..6e9a7f8 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -128,17 +128,27 @@ void header::read_header(pfi::lang::function<bool (string*)> f)
   }
 }
 
-static bool socket_getline(stream_socket* sock, string* str, int line_limit)
+static bool read_line(stream_socket* sock, string* str)
 {
-  // the header ends with an empty line, not with the connection
   if (!sock->getline(*str, line_limit))
+    return false;
+  // what is left of a longer line must not be taken for the next one
+  if (str->length() >= (size_t)line_limit)
+    throw http_exception("line is too long");
+  return true;
+}
+
+static bool socket_getline(stream_socket* sock, string* str)
+{
+  // the header ends with an empty line, not with the connection
+  if (!read_line(sock, str))
     throw http_exception("header is cut short");
   return true;
 }
 
 header::header(const pfi::lang::shared_ptr<stream_socket>& sock)
 {
-  read_header(bind(&socket_getline, sock.get(), _1, line_limit));
+  read_header(bind(&socket_getline, sock.get(), _1));
 }
 
 static bool istream_getline(istream* is, string* str)
@@ -285,6 +295,15 @@ private:
   }
 
   void fill() {
+    try {
+      fill_chunk();
+    } catch (http_exception&) {
+      shutdown(); // nothing after the error belongs to the body
+      throw;
+    }
+  }
+
+  void fill_chunk() {
     if (!sock) return;
 
     if (chunk_rest == 0)
@@ -294,7 +313,7 @@ private:
       // skip trailer
       if (sock) {
         for (string line;
-             sock->getline(line,line_limit) && line.length()>0;);
+             read_line(sock.get(), &line) && line.length()>0;);
       }
       shutdown();
       return;
@@ -328,7 +347,7 @@ private:
     if (!sock) return;
 
     string line;
-    if (!sock->getline(line, line_limit)) {
+    if (!read_line(sock.get(), &line)) {
       shutdown();
       return;
     }
@@ -437,7 +456,7 @@ request::request(const pfi::lang::shared_ptr<stream_socket>& sock)
   // Request-Line
   {
     string head;
-    sock->getline(head, line_limit);
+    read_line(sock.get(), &head);
   
     istringstream iss(head);
     string uri_s;
@@ -542,7 +561,7 @@ response::response(const pfi::lang::shared_ptr<stream_socket>& sock)
   // status-line
   {
     string line;
-    if (!sock->getline(line, line_limit))
+    if (!read_line(sock.get(), &line))
       throw http_exception("cannot read status-line: " + line);
     
     istringstream iss(line);
-- 
2.43.0


From eb634924de6b59c38c1925c730d1ea59d7f027a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 80/84] fix: a '?' within an SQL string or quoted name was
 taken for a parameter (PostgreSQL)

---
 src/database/postgresql/statement.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/database/postgresql/statement.cpp b/src/database/postgresql/statement.cpp
index c97f76b..699f025 100644
--- a/src/database/postgresql/statement.cpp
+++ b/src/database/postgresql/statement.cpp
@@ -49,10 +49,16 @@ static string convert_query(const string &q)
   ostringstream oss;
 
   int cnt=1;
+  char quote=0; // within a string or a quoted name
 
   for (int i=0;i<(int)q.length();i++){
-    if (q[i]=='?') oss<<'$'<<(cnt++);
-    else oss<<q[i];
+    if (quote==0 && q[i]=='?'){
+      oss<<'$'<<(cnt++);
+      continue;
+    }
+    if (quote==0 && (q[i]=='\'' || q[i]=='"')) quote=q[i];
+    else if (q[i]==quote) quote=0;
+    oss<<q[i];
   }
 
   return oss.str();
-- 
2.43.0


From cdb0c989faa3baac0ba18e8080ad0a5c9aa89a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:26 +0000
Subject: [PATCH 81/84] fix: text after an IPv4 address was ignored

---
 src/network/ipv4.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/ipv4.h b/src/network/ipv4.h
index 6c56a5f..a0ab459 100644
--- a/src/network/ipv4.h
+++ b/src/network/ipv4.h
@@ -57,7 +57,8 @@ public:
 
   explicit ipv4_address(const std::string& s) {
     long buf[4];
-    if (std::sscanf(s.c_str(), "%ld.%ld.%ld.%ld", &buf[0], &buf[1], &buf[2], &buf[3]) != 4) {
+    char rest; // there must be nothing after the address
+    if (std::sscanf(s.c_str(), "%ld.%ld.%ld.%ld%c", &buf[0], &buf[1], &buf[2], &buf[3], &rest) != 4) {
       *this = none;
       return;
     }
-- 
2.43.0


From 6d4d02c2d78cc221cf4a74cd605dec5d64938df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:28 +0000
Subject: [PATCH 82/84] fix: MessagePack RPC calls with missing arguments ran
 the method with uninitialised ones

---
 src/network/mprpc/argument.h | 90 ++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/network/mprpc/argument.h b/src/network/mprpc/argument.h
index 4fe467c..fe4b605 100644
--- a/src/network/mprpc/argument.h
+++ b/src/network/mprpc/argument.h
@@ -66,7 +66,7 @@ struct argument1 {
   {
     if(o.type != msgpack::type::ARRAY) { throw msgpack::type_error(); }
     const size_t sz = o.via.array.size;
-    if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
+    if(sz <= 0) { throw msgpack::type_error(); } o.via.array.ptr[0].convert(&a1);
   }
 
   argument1() { }
@@ -90,8 +90,8 @@ struct argument2 {
   {
     if(o.type != msgpack::type::ARRAY) { throw msgpack::type_error(); }
     const size_t sz = o.via.array.size;
-    if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
-    if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
+    if(sz <= 0) { throw msgpack::type_error(); } o.via.array.ptr[0].convert(&a1);
+    if(sz <= 1) { throw msgpack::type_error(); } o.via.array.ptr[1].convert(&a2);
   }
 
   argument2() { }
@@ -117,9 +117,9 @@ struct argument3 {
   {
     if(o.type != msgpack::type::ARRAY) { throw msgpack::type_error(); }
     const size_t sz = o.via.array.size;
-    if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
-    if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
-    if(sz <= 2) { return; } o.via.array.ptr[2].convert(&a3);
+    if(sz <= 0) { throw msgpack::type_error(); } o.via.array.ptr[0].convert(&a1);
+    if(sz <= 1) { throw msgpack::type_error(); } o.via.array.ptr[1].convert(&a2);
+    if(sz <= 2) { throw msgpack::type_error(); } o.via.array.ptr[2].convert(&a3);
   }
 
   argument3() { }
@@ -147,10 +147,10 @@ struct argument4 {
   {
     if(o.type != msgpack::type::ARRAY) { throw msgpack::type_error(); }
     const size_t sz = o.via.array.size;
-    if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
-    if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
-    if(sz <= 2) { return; } o.via.array.ptr[2].convert(&a3);
-    if(sz <= 3) { return; } o.via.array.ptr[3].convert(&a4);
+    if(sz <= 0) { throw msgpack::type_error(); } o.via.array.ptr[0].convert(&a1);
+    if(sz <= 1) { throw msgpack::type_error(); } o.via.array.ptr[1].convert(&a2);
+    if(sz <= 2) { throw msgpack::type_error(); } o.via.array.ptr[2].convert(&a3);
+    if(sz <= 3) { throw msgpack::type_error(); } o.via.array.ptr[3].convert(&a4);
   }
 
   argument4() { }
@@ -180,11 +180,11 @@ struct argument5 {
   {
     if(o.type != msgpack::type::ARRAY) { throw msgpack::type_error(); }
     const size_t sz = o.via.array.size;
-    if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
-    if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
-    if(sz <= 2) { return; } o.via.array.ptr[2].convert(&a3);
-    if(sz <= 3) { return; } o.via.array.ptr[3].convert(&a4);
-    if(sz <= 4) { return; } o.via.array.ptr[4].convert(&a5);
+    if(sz <= 0) { throw msgpack::type_error(); } o.via.array.ptr[0].convert(&a1);
+    if(sz <= 1) { throw msgpack::type_error(); } o.via.array.ptr[1].convert(&a2);
+    if(sz <= 2) { throw msgpack::type_error(); } o.via.array.ptr[2].convert(&a3);
+    if(sz <= 3) { throw msgpack::type_error(); } o.via.array.ptr[3].convert(&a4);
+    if(sz <= 4) { throw msgpack::type_error(); } o.via.array.ptr[4].convert(&a5);
   }
 
   argument5() { }
@@ -216,12 +216,12 @@ struct argument6 {
   {
     if(o.type != msgpack::type::ARRAY) { throw msgpack::type_error(); }
     const size_t sz = o.via.array.size;
-    if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
-    if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
-    if(sz <= 2) { return; } o.via.array.ptr[2].convert(&a3);
-    if(sz <= 3) { return; } o.via.array.ptr[3].convert(&a4);
-    if(sz <= 4) { return; } o.via.array.ptr[4].convert(&a5);
-    if(sz <= 5) { return; } o.via.array.ptr[5].convert(&a6);
+    if(sz <= 0) { throw msgpack::type_error(); } o.via.array.ptr[0].convert(&a1);
+    if(sz <= 1) { throw msgpack::type_error(); } o.via.array.ptr[1].convert(&a2);
+    if(sz <= 2) { throw msgpack::type_error(); } o.via.array.ptr[2].convert(&a3);
+    if(sz <= 3) { throw msgpack::type_error(); } o.via.array.ptr[3].convert(&a4);
+    if(sz <= 4) { throw msgpack::type_error(); } o.via.array.ptr[4].convert(&a5);
+    if(sz <= 5) { throw msgpack::type_error(); } o.via.array.ptr[5].convert(&a6);
   }
 
   argument6() { }
@@ -255,13 +255,13 @@ struct argument7 {
   {
     if(o.type != msgpack::type::ARRAY) { throw msgpack::type_error(); }
     const size_t sz = o.via.array.size;
-    if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
-    if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
-    if(sz <= 2) { return; } o.via.array.ptr[2].convert(&a3);
-    if(sz <= 3) { return; } o.via.array.ptr[3].convert(&a4);
-    if(sz <= 4) { return; } o.via.array.ptr[4].convert(&a5);
-    if(sz <= 5) { return; } o.via.array.ptr[5].convert(&a6);
-    if(sz <= 6) { return; } o.via.array.ptr[6].convert(&a7);
+    if(sz <= 0) { throw msgpack::type_error(); } o.via.array.ptr[0].convert(&a1);
+    if(sz <= 1) { throw msgpack::type_error(); } o.via.array.ptr[1].convert(&a2);
+    if(sz <= 2) { throw msgpack::type_error(); } o.via.array.ptr[2].convert(&a3);
+    if(sz <= 3) { throw msgpack::type_error(); } o.via.array.ptr[3].convert(&a4);
+    if(sz <= 4) { throw msgpack::type_error(); } o.via.array.ptr[4].convert(&a5);
+    if(sz <= 5) { throw msgpack::type_error(); } o.via.array.ptr[5].convert(&a6);
+    if(sz <= 6) { throw msgpack::type_error(); } o.via.array.ptr[6].convert(&a7);
   }
 
   argument7() { }
@@ -297,14 +297,14 @@ struct argument8 {
   {
     if(o.type != msgpack::type::ARRAY) { throw msgpack::type_error(); }
     const size_t sz = o.via.array.size;
-    if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
-    if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
-    if(sz <= 2) { return; } o.via.array.ptr[2].convert(&a3);
-    if(sz <= 3) { return; } o.via.array.ptr[3].convert(&a4);
-    if(sz <= 4) { return; } o.via.array.ptr[4].convert(&a5);
-    if(sz <= 5) { return; } o.via.array.ptr[5].convert(&a6);
-    if(sz <= 6) { return; } o.via.array.ptr[6].convert(&a7);
-    if(sz <= 7) { return; } o.via.array.ptr[7].convert(&a8);
+    if(sz <= 0) { throw msgpack::type_error(); } o.via.array.ptr[0].convert(&a1);
+    if(sz <= 1) { throw msgpack::type_error(); } o.via.array.ptr[1].convert(&a2);
+    if(sz <= 2) { throw msgpack::type_error(); } o.via.array.ptr[2].convert(&a3);
+    if(sz <= 3) { throw msgpack::type_error(); } o.via.array.ptr[3].convert(&a4);
+    if(sz <= 4) { throw msgpack::type_error(); } o.via.array.ptr[4].convert(&a5);
+    if(sz <= 5) { throw msgpack::type_error(); } o.via.array.ptr[5].convert(&a6);
+    if(sz <= 6) { throw msgpack::type_error(); } o.via.array.ptr[6].convert(&a7);
+    if(sz <= 7) { throw msgpack::type_error(); } o.via.array.ptr[7].convert(&a8);
   }
 
   argument8() { }
@@ -342,15 +342,15 @@ struct argument9 {
   {
     if(o.type != msgpack::type::ARRAY) { throw msgpack::type_error(); }
     const size_t sz = o.via.array.size;
-    if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
-    if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
-    if(sz <= 2) { return; } o.via.array.ptr[2].convert(&a3);
-    if(sz <= 3) { return; } o.via.array.ptr[3].convert(&a4);
-    if(sz <= 4) { return; } o.via.array.ptr[4].convert(&a5);
-    if(sz <= 5) { return; } o.via.array.ptr[5].convert(&a6);
-    if(sz <= 6) { return; } o.via.array.ptr[6].convert(&a7);
-    if(sz <= 7) { return; } o.via.array.ptr[7].convert(&a8);
-    if(sz <= 8) { return; } o.via.array.ptr[8].convert(&a9);
+    if(sz <= 0) { throw msgpack::type_error(); } o.via.array.ptr[0].convert(&a1);
+    if(sz <= 1) { throw msgpack::type_error(); } o.via.array.ptr[1].convert(&a2);
+    if(sz <= 2) { throw msgpack::type_error(); } o.via.array.ptr[2].convert(&a3);
+    if(sz <= 3) { throw msgpack::type_error(); } o.via.array.ptr[3].convert(&a4);
+    if(sz <= 4) { throw msgpack::type_error(); } o.via.array.ptr[4].convert(&a5);
+    if(sz <= 5) { throw msgpack::type_error(); } o.via.array.ptr[5].convert(&a6);
+    if(sz <= 6) { throw msgpack::type_error(); } o.via.array.ptr[6].convert(&a7);
+    if(sz <= 7) { throw msgpack::type_error(); } o.via.array.ptr[7].convert(&a8);
+    if(sz <= 8) { throw msgpack::type_error(); } o.via.array.ptr[8].convert(&a9);
   }
 
   argument9() { }
-- 
2.43.0


From 84bbd24d2543471e7edf2c22b030d30929a64d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:50 +0000
Subject: [PATCH 83/84] fix: JSON integers that do not fit an int were
 converted to other values

---
 src/text/json/cast.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/text/json/cast.h b/src/text/json/cast.h
index 562604f..766e350 100644
--- a/src/text/json/cast.h
+++ b/src/text/json/cast.h
@@ -33,6 +33,7 @@
 #define INCLUDE_GUARD_PFI_TEXT_JSON_CAST_H_
 
 #include <algorithm>
+#include <limits>
 #include <string>
 #include <typeinfo>
 
@@ -107,13 +108,19 @@ inline long long json_cast_with_default(const json& js, const long long& def)
 template <>
 inline int json_cast_impl(const json& js)
 {
-  return static_cast<int>(json_cast<int64_t>(js));
+  const int64_t n = json_cast<int64_t>(js);
+  if (n < std::numeric_limits<int>::min() || n > std::numeric_limits<int>::max())
+    return detail::throw_json_bad_cast<int>(js);
+  return static_cast<int>(n);
 }
 
 template <>
 inline int json_cast_with_default(const json& js, const int& def)
 {
-  return static_cast<int>(json_cast_with_default<int64_t>(js, def));
+  const int64_t n = json_cast_with_default<int64_t>(js, def);
+  if (n < std::numeric_limits<int>::min() || n > std::numeric_limits<int>::max())
+    return def;
+  return static_cast<int>(n);
 }
 
 template <>
-- 
2.43.0


From 22613f17bcd79f3020731be44c71f5bad44cc8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:50 +0000
Subject: [PATCH 84/84] fix: converting JSON to an optional with a default lost
 the default

---
 src/text/json/cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/json/cast.h b/src/text/json/cast.h
index 766e350..d4a8d0b 100644
--- a/src/text/json/cast.h
+++ b/src/text/json/cast.h
@@ -581,7 +581,7 @@ inline void serialize(json_iarchive_cast_with_default& js, pfi::data::optional<T
   if (is<json_null>(js.get()))
     v = pfi::data::optional<T>();
   else {
-    T t;
+    T t = v ? *v : T();
     serialize(js, t);
     v = t;
   }
-- 
2.43.0

