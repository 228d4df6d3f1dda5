From 4e68468c6b87c41cd2e35b852392e69cfc7d8201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:41 +0000
Subject: [PATCH 001/121] fix: base64 decoding accepted '{', '|', '}', '~' and
 DEL as valid characters

---
 src/majordomo/include/majordomo/base64pp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/base64pp.hpp b/src/majordomo/include/majordomo/base64pp.hpp
index 2717fe7..484903a 100644
--- a/src/majordomo/include/majordomo/base64pp.hpp
+++ b/src/majordomo/include/majordomo/base64pp.hpp
@@ -55,7 +55,7 @@ inline bool is_valid_base64_char(char c) {
         return true;
     }
 
-    if ((c >= 'a') && ('z')) {
+    if ((c >= 'a') && (c <= 'z')) {
         return true;
     }
 
-- 
2.43.0


From 3666d1d5c95016bd819a7cdc9f8718e84e7447d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 002/121] fix: URI::decode() read past the end of a truncated
 escape and emitted garbage for non-hex ones

---
 src/core/include/URI.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 214f559..22b16da 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -2,6 +2,7 @@
 #define OPENCMW_CPP_URI_HPP
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <iomanip>
 #include <ios>
 #include <optional>
@@ -162,15 +163,15 @@ public:
             char c = s[i];
             if (c == '%') {
                 // percent-encode RFC 3986 section 2.2 Reserved Characters i.e. [!#$%&'()*+,/:;=?@[]]
-                if constexpr (check == STRICT) {
-                    if (!std::isxdigit(s[i + 1])) {
-                        throw URISyntaxException(std::format("additional erroneous character '{}' found after '%' at {} of '{}'", s[i + 1], i + 1, s));
+                uint8_t d = 0;
+                if (i + 2 >= s.size() || std::from_chars(s.data() + i + 1, s.data() + i + 3, d, 16).ptr != s.data() + i + 3) {
+                    if constexpr (check == STRICT) {
+                        throw URISyntaxException(std::format("'%' not followed by two hexadecimal digits at {} of '{}'", i, s));
                     }
+                    decoded << c;
+                    continue;
                 }
-                int                d;
-                std::istringstream iss(std::string(s.substr(i + 1, 2))); // TODO find smarter conversion
-                iss >> std::hex >> d;
-                decoded << static_cast<uint8_t>(d);
+                decoded << d;
                 i += 2;
             } else {
                 decoded << c;
-- 
2.43.0


From 38f43a1c9356a2504bef3017b2b80cd4febf20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 003/121] fix: URI::port() terminated the process on
 non-numeric and wrapped out-of-range ports

---
 src/core/include/URI.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 22b16da..784ba3f 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -186,7 +186,7 @@ public:
     inline std::optional<std::string> user() const noexcept { parseAuthority(); return returnOpt(_userName); }
     inline std::optional<std::string> password() const noexcept { parseAuthority(); return returnOpt(_pwd); }
     inline std::optional<std::string> hostName() const noexcept { parseAuthority(); return returnOpt(_hostName); }
-    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return _port.empty() ? std::nullopt : std::optional(std::stoi(std::string{ _port.begin(), _port.end() }));}
+    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return toPort(_port); }
     inline std::optional<std::string> path() const noexcept { return returnOpt(_path); }
     inline std::optional<std::string> queryParam() const noexcept { return returnOpt(_query); }
     inline std::optional<std::string> fragment() const noexcept { return returnOpt(_fragment); }
@@ -285,7 +285,7 @@ public:
             if (!uri._userName.empty())  { _userName = uri._userName; }
             if (!uri._pwd.empty())       { _pwd = uri._pwd; }
             if (!uri._hostName.empty())  { _host = uri._hostName; }
-            if (!uri._port.empty())      { _port = std::stoi(std::string(uri._port)); }
+            if (!uri._port.empty())      { _port = toPort(uri._port); }
             if (!uri._path.empty())      { _path = uri._path; }
             if (!uri._query.empty())     { _query = uri._query; }
             if (!uri._fragment.empty())  { _fragment = uri._fragment; }
@@ -351,6 +351,12 @@ private:
         return src.empty() ? std::nullopt : std::optional<std::string>(src);
     };
 
+    static std::optional<uint16_t> toPort(std::string_view src) noexcept { // no value if not a number in [0, 65535]
+        uint16_t port      = 0;
+        const auto [ptr, ec] = std::from_chars(src.data(), src.data() + src.size(), port);
+        return ec == std::errc{} && ptr == src.data() + src.size() ? std::optional(port) : std::nullopt;
+    }
+
     inline void parseURI() {
         std::string_view source(_str.c_str(), _str.size());
         if constexpr (check == STRICT) {
-- 
2.43.0


From 0352a9b0d0148d0ca535d73cb201c17949dfaaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 004/121] fix: URI authority split inside a bracketed IPv6 host

---
 src/core/include/URI.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 784ba3f..5c298cd 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -466,7 +466,12 @@ private:
         } else {
             userSplit = 0;
         }
-        size_t portSplit = std::min(_authority.find_first_of(':', userSplit), _authority.length());
+        size_t hostEnd = userSplit;
+        if (hostEnd < _authority.length() && _authority[hostEnd] == '[') { // IPv6 address literal, may contain ':'
+            hostEnd = std::min(_authority.find_first_of(']', hostEnd), _authority.length());
+            hostEnd = hostEnd < _authority.length() ? hostEnd : userSplit;
+        }
+        size_t portSplit = std::min(_authority.find_first_of(':', hostEnd), _authority.length());
         if (portSplit != std::string_view::npos && portSplit < _authority.length()) {
             // port defined
             _hostName = _authority.substr(userSplit, portSplit - userSplit);
-- 
2.43.0


From 967826068e36d70855cc80cf7971aab3eeb3b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 005/121] fix: URI copy-assignment kept user/host views of the
 previous text

---
 src/core/include/URI.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 5c298cd..bfdb5c9 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -84,6 +84,7 @@ public:
 
         _parsedAuthority = other._parsedAuthority;
         if (!_parsedAuthority) {
+            _userName = _pwd = _hostName = _port = {};
             return *this;
         }
         _userName = adjustedView(other._userName);
-- 
2.43.0


From a7a35cb8b45e044a4f46bef20253e3a639165fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 006/121] fix: URI move-assignment/swap left views into the
 other object's text

---
 src/core/include/URI.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index bfdb5c9..36442f0 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -99,7 +99,8 @@ public:
             return *this;
         }
 
-        const char *oldBegin = other._str.data();
+        const char *thisBegin  = _str.data();
+        const char *otherBegin = other._str.data();
 
         std::swap(_str, other._str);
         std::swap(_scheme, other._scheme);
@@ -115,21 +116,18 @@ public:
         std::swap(_port, other._port);
 
         // small strings are copied, then adjust views
-        if (_str.data() != oldBegin) {
-            auto adjustView = [this, oldBegin](std::string_view &view) {
-                view = std::string_view(_str.data() + std::distance(oldBegin, view.data()), view.size());
-            };
-
-            adjustView(_scheme);
-            adjustView(_authority);
-            adjustView(_path);
-            adjustView(_query);
-            adjustView(_fragment);
-            adjustView(_userName);
-            adjustView(_pwd);
-            adjustView(_hostName);
-            adjustView(_port);
-        }
+        auto adjustViews = [](URI &uri, const char *oldBegin) {
+            if (uri._str.data() == oldBegin) {
+                return;
+            }
+            for (auto view : { &uri._scheme, &uri._authority, &uri._path, &uri._query, &uri._fragment, &uri._userName, &uri._pwd, &uri._hostName, &uri._port }) {
+                if (view->data()) {
+                    *view = std::string_view(uri._str.data() + std::distance(oldBegin, view->data()), view->size());
+                }
+            }
+        };
+        adjustViews(*this, otherBegin);
+        adjustViews(other, thisBegin);
 
         return *this;
     }
-- 
2.43.0


From ec0ea58435d481aa276c6f847db511f8e6b7da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 007/121] fix: UriFactory::toString() appended the query
 parameters again on each call

---
 src/core/include/URI.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 36442f0..c4d43ad 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -256,14 +256,14 @@ public:
     bool operator==(const URI &other) const noexcept { return _str == other.str(); }
 
     class UriFactory {
-        mutable std::string     _authority;
+        std::string             _authority;
         std::string             _scheme;
         std::string             _userName;
         std::string             _pwd;
         std::string             _host;
         std::optional<uint16_t> _port;
         std::string             _path;
-        mutable std::string     _query;
+        std::string             _query;
         std::string             _fragment;
         // local map to overwrite _query parameter if set
         std::unordered_map<std::string, std::optional<std::string>> _queryMap;
@@ -304,34 +304,35 @@ public:
         // clang-format on
 
         std::string toString() const {
-            if (_authority.empty()) {
+            std::string authority = _authority;
+            if (authority.empty()) {
                 const std::string optColon1 = (_pwd.empty() || _userName.empty()) ? "" : ":";
                 const std::string pwdPart   = _userName.empty() ? "" : _pwd;
                 const std::string atSign    = _userName.empty() ? "" : "@"; // after “user[:pwd]”
                 const std::string optColon2 = _port ? ":" : "";             // before port
                 const std::string portPart  = _port ? std::to_string(*_port) : "";
 
-                _authority                  = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
+                authority                   = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
             }
 
-            // TODO: Calling toString multiple times appends parameters over and over again
+            std::string query = _query;
             for (const auto &[key, value] : _queryMap) {
                 // RFC-3986: “key[=value]” pairs joined by ‘&’
-                const std::string ampersand  = _query.empty() ? "" : "&";
+                const std::string ampersand  = query.empty() ? "" : "&";
                 const std::string encodedKey = encode(key);
                 const std::string equalSign  = value ? "=" : "";
                 const std::string encodedVal = value ? encode(value.value()) : "";
 
-                _query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
+                query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
             }
 
             const std::string colon     = _scheme.empty() ? "" : ":";
-            const std::string authSlash = (_authority.empty() || _authority.starts_with("//")) ? "" : "//";
-            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || _authority.empty()) ? "" : "/";
-            const std::string qMark     = (_query.empty() || _query.starts_with('?')) ? "" : "?";
+            const std::string authSlash = (authority.empty() || authority.starts_with("//")) ? "" : "//";
+            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || authority.empty()) ? "" : "/";
+            const std::string qMark     = (query.empty() || query.starts_with('?')) ? "" : "?";
             const std::string hashMark  = (_fragment.empty() || _fragment.starts_with('#')) ? "" : "#";
 
-            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, _authority, pathSlash, _path, qMark, _query, hashMark, encode(_fragment));
+            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, authority, pathSlash, _path, qMark, query, hashMark, encode(_fragment));
         }
 
         URI build() {
-- 
2.43.0


From 15c1d405d393b5a95ca81c42f6fc5760624b9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 008/121] fix: URI::queryParamMap() did not decode a trailing
 key and kept a partial result after an exception

---
 src/core/include/URI.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index c4d43ad..1a2a529 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -215,13 +215,14 @@ public:
                 throw URISyntaxException(std::format("URI query contains illegal characters: {}", _query));
             }
         }
-        size_t readPos = 0;
+        std::unordered_map<std::string, std::optional<std::string>> queryMap; // stays local if decoding throws
+        size_t                                                      readPos = 0;
         while (readPos < _query.length()) {
             auto keyEnd = _query.find_first_of("=;&\0", readPos);
             if (keyEnd != std::string_view::npos && keyEnd < _query.length()) {
                 auto key = decode(_query.substr(readPos, keyEnd - readPos));
                 if (_query[keyEnd] != '=') {
-                    _queryMap[key] = std::nullopt;
+                    queryMap[key] = std::nullopt;
                     readPos        = keyEnd + 1; //+1 for separator character
                     continue;
                 }
@@ -229,25 +230,26 @@ public:
                 // equal sign present
                 if (readPos >= _query.length()) {
                     // reached parameter string end
-                    _queryMap[key] = std::nullopt;
+                    queryMap[key] = std::nullopt;
                     break;
                 }
                 const auto valueEnd = _query.find_first_of(";&\0", readPos);
                 if (valueEnd != std::string_view::npos && valueEnd < _query.length()) {
-                    _queryMap[key] = std::optional(decode(_query.substr(readPos, valueEnd - readPos)));
+                    queryMap[key] = std::optional(decode(_query.substr(readPos, valueEnd - readPos)));
                     readPos        = valueEnd + 1;
                     continue;
                 }
                 const auto value = decode(_query.substr(readPos, _query.length() - readPos));
-                _queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
+                queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
                 break;
             } else {
-                auto key       = std::string(_query.substr(readPos, _query.length() - readPos));
-                _queryMap[key] = std::nullopt;
+                auto key      = decode(_query.substr(readPos));
+                queryMap[key] = std::nullopt;
                 break;
             }
         }
 
+        _queryMap = std::move(queryMap);
         return _queryMap;
     };
 
-- 
2.43.0


From 5549bfd09ae15327e0c67758f404f1133cb8790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:57 +0000
Subject: [PATCH 009/121] fix: URI fragments were percent-encoded again when
 copied through the factory or relativeRef()

---
 src/core/include/URI.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 1a2a529..df7a69d 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -193,8 +193,8 @@ public:
         if (_path.empty() && _query.empty() && _fragment.empty()) return {};
         const std::string optSlash   = (_path.empty() || _path.starts_with('/'))   ? "" : "/";
         const std::string qMark      = (_query.empty() || _query.starts_with('?')) ? "" : "?";
-        const std::string hashMark   = (_fragment.empty() || _fragment.starts_with('#')) ? "" : "#";
-        return std::format("{}{}{}{}{}{}", optSlash, _path, qMark, _query, hashMark, encode(_fragment));
+        const std::string hashMark   = _fragment.empty() ? "" : "#";
+        return std::format("{}{}{}{}{}{}", optSlash, _path, qMark, _query, hashMark, _fragment);
     }
     inline std::optional<std::string> relativeRefNoFragment() const noexcept { // path + query
         if (_path.empty() && _query.empty()) return {};
@@ -266,7 +266,7 @@ public:
         std::optional<uint16_t> _port;
         std::string             _path;
         std::string             _query;
-        std::string             _fragment;
+        std::string             _fragment; // as it appears in the URI, i.e. already percent-encoded
         // local map to overwrite _query parameter if set
         std::unordered_map<std::string, std::optional<std::string>> _queryMap;
 
@@ -299,7 +299,7 @@ public:
         inline UriFactory&& port(const uint16_t port)                     && noexcept { _port = std::optional<uint16_t>(port); return std::move(*this); }
         inline UriFactory&& path(const std::string_view &path)            && noexcept { _path = path; return std::move(*this); }
         inline UriFactory&& queryParam(const std::string_view &query)     && noexcept { _query = query; return std::move(*this); }
-        inline UriFactory&& fragment(const std::string_view &fragment)    && noexcept { _fragment = fragment; return std::move(*this); }
+        inline UriFactory&& fragment(const std::string_view &fragment)    && noexcept { _fragment = encode(fragment); return std::move(*this); }
         inline UriFactory&& addQueryParameter(const std::string &key)     && noexcept { _queryMap[key] = std::nullopt; return std::move(*this); }
         inline UriFactory&& addQueryParameter(const std::string &key, const std::string &value) && noexcept { _queryMap[key] = std::optional(value); return std::move(*this); }
         inline UriFactory&& setQuery(std::unordered_map<std::string, std::optional<std::string>> queryMap) && noexcept { _query.clear(); _queryMap = std::move(queryMap); return std::move(*this); }
@@ -332,9 +332,9 @@ public:
             const std::string authSlash = (authority.empty() || authority.starts_with("//")) ? "" : "//";
             const std::string pathSlash = (_path.empty() || _path.starts_with('/') || authority.empty()) ? "" : "/";
             const std::string qMark     = (query.empty() || query.starts_with('?')) ? "" : "?";
-            const std::string hashMark  = (_fragment.empty() || _fragment.starts_with('#')) ? "" : "#";
+            const std::string hashMark  = _fragment.empty() ? "" : "#";
 
-            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, authority, pathSlash, _path, qMark, query, hashMark, encode(_fragment));
+            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, authority, pathSlash, _path, qMark, query, hashMark, _fragment);
         }
 
         URI build() {
-- 
2.43.0


From 7f3c20380dcda31c26c8b98a5d1aec98a07e93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:55 +0000
Subject: [PATCH 010/121] fix: SpinWait::spinUntil() gave up without a timeout
 and never timed out after 1 ms

---
 src/core/include/SpinWait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/SpinWait.hpp b/src/core/include/SpinWait.hpp
index 1ab2aa6..1e108e8 100644
--- a/src/core/include/SpinWait.hpp
+++ b/src/core/include/SpinWait.hpp
@@ -93,7 +93,7 @@ public:
 
             spinWait.spinOnce();
 
-            if (millisecondsTimeout != 1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
+            if (millisecondsTimeout != -1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
                 return false;
             }
         }
-- 
2.43.0


From 2ef067ec214626cb3c5424cb17858e5614d6c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 011/121] fix: thread exceptions referred to a destroyed error
 category

---
 src/core/include/ThreadAffinity.hpp | 51 ++++++++++++++++-------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 1f2c1dc..10d0854 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -58,6 +58,11 @@ public:
     };
 };
 
+inline const thread_exception &threadExceptionCategory() noexcept { // std::error_code refers to its category, thus needs static storage duration
+    static const thread_exception category;
+    return category;
+}
+
 template<class type>
 #ifdef __EMSCRIPTEN__
 concept thread_type = std::is_same_v<type, std::thread>;
@@ -86,7 +91,7 @@ inline std::string getThreadName(const pthread_t &handle) {
     }
     char threadName[THREAD_MAX_NAME_LENGTH];
     if (int rc = pthread_getname_np(handle, threadName, THREAD_MAX_NAME_LENGTH); rc != 0) {
-        throw std::system_error(rc, thread_exception(), "getThreadName(thread_type)");
+        throw std::system_error(rc, threadExceptionCategory(), "getThreadName(thread_type)");
     }
     return std::string{ threadName, std::min(strlen(threadName), THREAD_MAX_NAME_LENGTH) };
 }
@@ -114,7 +119,7 @@ inline std::string getThreadName(thread_type auto &...thread) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), "getThreadName(thread_type)");
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), "getThreadName(thread_type)");
     }
     return detail::getThreadName(handle);
 #else
@@ -126,7 +131,7 @@ inline void setProcessName(const std::string_view &processName, int pid = detail
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     std::ofstream out(std::format("/proc/{}/comm", pid), std::ios::out);
     if (!out.is_open()) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setProcessName({},{})", processName, pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("setProcessName({},{})", processName, pid));
     }
     out << std::string{ processName.cbegin(), std::min(15LU, processName.size()) };
     out.close();
@@ -137,10 +142,10 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
     if (int rc = pthread_setname_np(handle, threadName.data()); rc < 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
+        throw std::system_error(rc, threadExceptionCategory(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
 }
@@ -177,11 +182,11 @@ inline constexpr cpu_set_t getAffinityMask(const T &threadMap) {
 inline std::vector<bool> getThreadAffinity(thread_type auto &...thread) {
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getThreadAffinity(thread_type)"));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("getThreadAffinity(thread_type)"));
     }
     cpu_set_t cpuSet;
     if (int rc = pthread_getaffinity_np(handle, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getThreadAffinity({})", detail::getThreadName(handle)));
+        throw std::system_error(rc, threadExceptionCategory(), std::format("getThreadAffinity({})", detail::getThreadName(handle)));
     }
     return detail::getAffinityMask(cpuSet);
 }
@@ -197,11 +202,11 @@ template<class T>
 inline constexpr void setThreadAffinity(const T &threadMap, thread_type auto &...thread) {
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, thread_type)", threadMap.size(), opencmw::join(threadMap, ", ")));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, thread_type)", threadMap.size(), opencmw::join(threadMap, ", ")));
     }
     cpu_set_t cpuSet = detail::getAffinityMask(threadMap);
     if (int rc = pthread_setaffinity_np(handle, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), detail::getThreadName(handle)));
+        throw std::system_error(rc, threadExceptionCategory(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), detail::getThreadName(handle)));
     }
 }
 #else
@@ -213,11 +218,11 @@ inline constexpr bool setThreadAffinity(const T &threadMap, thread_type auto &..
 inline std::vector<bool> getProcessAffinity(const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getProcessAffinity({}) -- invalid pid", pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("getProcessAffinity({}) -- invalid pid", pid));
     }
     cpu_set_t cpuSet;
     if (int rc = sched_getaffinity(pid, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getProcessAffinity(std::bitset<{{}}> = {{}}, thread_type)")); // todo: fix format string
+        throw std::system_error(rc, threadExceptionCategory(), std::format("getProcessAffinity(std::bitset<{{}}> = {{}}, thread_type)")); // todo: fix format string
     }
     return detail::getAffinityMask(cpuSet);
 #else
@@ -230,11 +235,11 @@ template<class T>
 inline constexpr bool setProcessAffinity(const T &threadMap, const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
     }
     cpu_set_t cpuSet = detail::getAffinityMask(threadMap);
     if (int rc = sched_setaffinity(pid, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
+        throw std::system_error(rc, threadExceptionCategory(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
     }
 
     return true;
@@ -271,12 +276,12 @@ inline Policy getEnumPolicy(const int policy) {
 inline struct SchedulingParameter getProcessSchedulingParameter(const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getProcessSchedulingParameter({}) -- invalid pid", pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("getProcessSchedulingParameter({}) -- invalid pid", pid));
     }
     struct sched_param param;
     const int          policy = sched_getscheduler(pid);
     if (int rc = sched_getparam(pid, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getProcessSchedulingParameter({}) - sched_getparam error", pid));
+        throw std::system_error(rc, threadExceptionCategory(), std::format("getProcessSchedulingParameter({}) - sched_getparam error", pid));
     }
     return SchedulingParameter{ .policy = detail::getEnumPolicy(policy), .priority = param.sched_priority };
 #else
@@ -287,18 +292,18 @@ inline struct SchedulingParameter getProcessSchedulingParameter(const int pid =
 inline void setProcessSchedulingParameter(Policy scheduler, int priority, const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setProcessSchedulingParameter({}, {}, {}) -- invalid pid", static_cast<int>(scheduler), priority, pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("setProcessSchedulingParameter({}, {}, {}) -- invalid pid", static_cast<int>(scheduler), priority, pid));
     }
     const int minPriority = sched_get_priority_min(scheduler);
     const int maxPriority = sched_get_priority_max(scheduler);
     if (priority < minPriority || priority > maxPriority) {
-        throw std::system_error(THREAD_VALUE_RANGE, thread_exception(), std::format("setProcessSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, pid, minPriority, maxPriority));
+        throw std::system_error(THREAD_VALUE_RANGE, threadExceptionCategory(), std::format("setProcessSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, pid, minPriority, maxPriority));
     }
     struct sched_param param {
         .sched_priority = priority
     };
     if (int rc = sched_setscheduler(pid, scheduler, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setProcessSchedulingParameter({}, {}, {}) - sched_setscheduler return code: {}", static_cast<int>(scheduler), priority, pid, rc));
+        throw std::system_error(rc, threadExceptionCategory(), std::format("setProcessSchedulingParameter({}, {}, {}) - sched_setscheduler return code: {}", static_cast<int>(scheduler), priority, pid, rc));
     }
 #endif
 }
@@ -307,12 +312,12 @@ inline struct SchedulingParameter getThreadSchedulingParameter(thread_type auto
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getThreadSchedulingParameter(thread_type) -- invalid thread"));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("getThreadSchedulingParameter(thread_type) -- invalid thread"));
     }
     struct sched_param param;
     int                policy;
     if (int rc = pthread_getschedparam(handle, &policy, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getThreadSchedulingParameter({}) - sched_getparam error", detail::getThreadName(handle)));
+        throw std::system_error(rc, threadExceptionCategory(), std::format("getThreadSchedulingParameter({}) - sched_getparam error", detail::getThreadName(handle)));
     }
     return { .policy = detail::getEnumPolicy(policy), .priority = param.sched_priority };
 #else
@@ -324,18 +329,18 @@ inline void setThreadSchedulingParameter(Policy scheduler, int priority, thread_
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadSchedulingParameter({}, {}, thread_type) -- invalid thread", static_cast<int>(scheduler), priority));
+        throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("setThreadSchedulingParameter({}, {}, thread_type) -- invalid thread", static_cast<int>(scheduler), priority));
     }
     const int minPriority = sched_get_priority_min(scheduler);
     const int maxPriority = sched_get_priority_max(scheduler);
     if (priority < minPriority || priority > maxPriority) {
-        throw std::system_error(THREAD_VALUE_RANGE, thread_exception(), std::format("setThreadSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, detail::getThreadName(handle), minPriority, maxPriority));
+        throw std::system_error(THREAD_VALUE_RANGE, threadExceptionCategory(), std::format("setThreadSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, detail::getThreadName(handle), minPriority, maxPriority));
     }
     struct sched_param param {
         .sched_priority = priority
     };
     if (int rc = pthread_setschedparam(handle, scheduler, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setThreadSchedulingParameter({}, {}, {}) - pthread_setschedparam return code: {}", static_cast<int>(scheduler), priority, detail::getThreadName(handle), rc));
+        throw std::system_error(rc, threadExceptionCategory(), std::format("setThreadSchedulingParameter({}, {}, {}) - pthread_setschedparam return code: {}", static_cast<int>(scheduler), priority, detail::getThreadName(handle), rc));
     }
 #endif
 }
-- 
2.43.0


From 63a4226c8152b49adfd701da47cd42c0bdc2d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 012/121] fix: setThreadName() read past the end of its
 argument and ignored failures

---
 src/core/include/ThreadAffinity.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 10d0854..5a5a865 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -144,7 +144,8 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
     if (handle == 0U) {
         throw std::system_error(THREAD_UNINITIALISED, threadExceptionCategory(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
-    if (int rc = pthread_setname_np(handle, threadName.data()); rc < 0) {
+    const std::string name(threadName.substr(0, THREAD_MAX_NAME_LENGTH - 1)); // null-terminated and within the OS limit
+    if (int rc = pthread_setname_np(handle, name.c_str()); rc != 0) {
         throw std::system_error(rc, threadExceptionCategory(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
-- 
2.43.0


From aa0704cea9cb124072b543e403d8796947f7a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 013/121] fix: setProcessName()/getProcessSchedulingParameter()
 reported success although the OS refused

---
 src/core/include/ThreadAffinity.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 5a5a865..06cc8e1 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -135,6 +135,9 @@ inline void setProcessName(const std::string_view &processName, int pid = detail
     }
     out << std::string{ processName.cbegin(), std::min(15LU, processName.size()) };
     out.close();
+    if (!out) {
+        throw std::system_error(THREAD_ERROR_UNKNOWN, threadExceptionCategory(), std::format("setProcessName({},{})", processName, pid));
+    }
 #endif
 }
 
@@ -281,6 +284,9 @@ inline struct SchedulingParameter getProcessSchedulingParameter(const int pid =
     }
     struct sched_param param;
     const int          policy = sched_getscheduler(pid);
+    if (policy < 0) {
+        throw std::system_error(policy, threadExceptionCategory(), std::format("getProcessSchedulingParameter({}) - sched_getscheduler error", pid));
+    }
     if (int rc = sched_getparam(pid, &param); rc != 0) {
         throw std::system_error(rc, threadExceptionCategory(), std::format("getProcessSchedulingParameter({}) - sched_getparam error", pid));
     }
-- 
2.43.0


From 7e7a1b7b0fc6128ad28292768b3e3417fa25c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 014/121] fix: affinity masks were cut at 128 CPUs (bytes
 instead of bits of a cpu_set_t)

---
 src/core/include/ThreadAffinity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 06cc8e1..a58fe28 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -157,7 +157,7 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
 namespace detail {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
 inline std::vector<bool> getAffinityMask(const cpu_set_t &cpuSet) {
-    std::vector<bool> bitMask(std::min(sizeof(cpu_set_t), static_cast<size_t>(std::thread::hardware_concurrency())));
+    std::vector<bool> bitMask(std::min(static_cast<size_t>(CPU_SETSIZE), static_cast<size_t>(std::thread::hardware_concurrency())));
     for (size_t i = 0; i < bitMask.size(); i++) {
         bitMask[i] = CPU_ISSET(i, &cpuSet);
     }
@@ -169,7 +169,7 @@ template<class T>
 inline constexpr cpu_set_t getAffinityMask(const T &threadMap) {
     cpu_set_t cpuSet;
     CPU_ZERO(&cpuSet);
-    size_t nMax = std::min(threadMap.size(), static_cast<size_t>(std::thread::hardware_concurrency()));
+    size_t nMax = std::min({ threadMap.size(), static_cast<size_t>(CPU_SETSIZE), static_cast<size_t>(std::thread::hardware_concurrency()) });
     for (size_t i = 0; i < nMax; i++) {
         if (threadMap[i]) {
             CPU_SET(i, &cpuSet);
-- 
2.43.0


From 734ae3bfe47cda068931864fd8efa90d71322c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:58 +0000
Subject: [PATCH 015/121] fix: real-time access after replace() went back to
 the value before it

---
 src/disruptor/include/BasicSetting.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 5acc64c..bc3ec53 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -283,11 +283,8 @@ public:
 
     template<typename... Args>
     void realtimeReplace(Args &&...args) {
-        T    obj(std::forward<Args>(args)...);
-
-        auto idx  = acquireIndex();
-        data[idx] = std::move(obj);
-        releaseIndex(idx);
+        realtimeCopy = T(std::forward<Args>(args)...); // later real-time accesses build on this value
+        realtimeRelease();
     }
 
     const T &nonRealtimeAcquire() {
-- 
2.43.0


From 45031c4439294c70ef776bd10fbd20626617b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:56 +0000
Subject: [PATCH 016/121] fix: publication flags of the multi-producer ring
 buffer were exchanged through plain (racy) memory

---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index bffe15f..c72c512 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -116,7 +116,7 @@ template<std::size_t SIZE, WaitStrategy WAIT_STRATEGY>
 class MultiThreadedStrategy {
     alignas(kCacheLine) Sequence &_cursor;
     alignas(kCacheLine) WAIT_STRATEGY &_waitStrategy;
-    alignas(kCacheLine) std::array<std::int32_t, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
+    alignas(kCacheLine) std::array<std::atomic<std::int32_t>, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
     alignas(kCacheLine) std::shared_ptr<Sequence> _gatingSequenceCache = std::make_shared<Sequence>();
     static constexpr std::int32_t _indexMask                           = SIZE - 1;
     static constexpr std::int32_t _indexShift                          = ceillog2(SIZE);
@@ -218,7 +218,7 @@ public:
         const auto index = calculateIndex(sequence);
         const auto flag  = calculateAvailabilityFlag(sequence);
 
-        return _availableBuffer[static_cast<std::size_t>(index)] == flag;
+        return _availableBuffer[static_cast<std::size_t>(index)].load(std::memory_order_acquire) == flag;
     }
 
     [[nodiscard]] OPENCMW_FORCEINLINE std::int64_t getHighestPublishedSequence(const std::int64_t lowerBound, const std::int64_t availableSequence) const noexcept {
@@ -233,7 +233,7 @@ public:
 
 private:
     void                              setAvailable(std::int64_t sequence) noexcept { setAvailableBufferValue(calculateIndex(sequence), calculateAvailabilityFlag(sequence)); }
-    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index] = flag; }
+    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index].store(flag, std::memory_order_release); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::int32_t calculateAvailabilityFlag(const std::int64_t sequence) const noexcept { return static_cast<std::int32_t>(static_cast<std::uint64_t>(sequence) >> _indexShift); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::size_t calculateIndex(const std::int64_t sequence) const noexcept { return static_cast<std::size_t>(static_cast<std::int32_t>(sequence) & _indexMask); }
 };
-- 
2.43.0


From 29c2958bc906c4186f017da01af4bb2fa8378418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:56 +0000
Subject: [PATCH 017/121] fix: getMinimumSequence() could return more than the
 slowest consumer's sequence

---
 src/disruptor/include/disruptor/Sequence.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index f5eb3fa..90218bf 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -59,21 +59,11 @@ namespace detail {
  * \returns the minimum sequence found or lon.MaxValue if the array is empty.
  */
 inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequence>> &sequences, std::int64_t minimum = std::numeric_limits<std::int64_t>::max()) noexcept {
-    if (sequences.empty()) {
-        return minimum;
+    // N.B. every sequence is read exactly once: it may advance at any time, re-reading the one that was the smallest could exceed the others
+    for (const auto &sequence : sequences) {
+        minimum = std::min(minimum, sequence->value());
     }
-#if not defined(_LIBCPP_VERSION)
-    return std::min(minimum, std::ranges::min(sequences, std::less{}, [](const auto &sequence) noexcept { return sequence->value(); })->value());
-#else
-    std::vector<int64_t> v;
-    v.reserve(sequences.size());
-    for (auto &sequence : sequences) {
-        v.push_back(sequence->value());
-    }
-    // std::for_each(sequences.begin(), sequences.end(), [v](const auto &sequence) noexcept { v.push_back(8); });
-    auto min = std::min_element(v.begin(), v.end());
-    return (*min < minimum) ? *min : minimum;
-#endif
+    return minimum;
 }
 
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
-- 
2.43.0


From 85781d9a2983dc27cc655c4cedf4bb8ae7e2677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:56 +0000
Subject: [PATCH 018/121] fix: next() of the single-producer ring buffer
 published claimed slots that had not been written yet

---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index c72c512..52d871a 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -57,8 +57,6 @@ public:
         auto wrapPoint    = nextSequence - static_cast<std::int64_t>(SIZE);
 
         if (const auto cachedGatingSequence = _cachedValue; wrapPoint > cachedGatingSequence || cachedGatingSequence > _nextValue) {
-            _cursor.setValue(_nextValue);
-
             SpinWait     spinWait;
             std::int64_t minSequence;
             while (wrapPoint > (minSequence = detail::getMinimumSequence(dependents, _nextValue))) {
-- 
2.43.0


From 780c6d7be01e1a51487c1600a1d98eebe5193b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:56 +0000
Subject: [PATCH 019/121] fix: gating sequences were read while being exchanged
 by add/removeGatingSequence(s) (use after free)

---
 src/disruptor/include/disruptor/RingBuffer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/disruptor/include/disruptor/RingBuffer.hpp b/src/disruptor/include/disruptor/RingBuffer.hpp
index 369e87d..b6dda72 100644
--- a/src/disruptor/include/disruptor/RingBuffer.hpp
+++ b/src/disruptor/include/disruptor/RingBuffer.hpp
@@ -44,10 +44,10 @@ public:
     }
 
     [[nodiscard]] constexpr std::int32_t                    bufferSize() const noexcept override { return SIZE; }
-    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(*_gatingSequences, requiredCapacity, _cursor->value()); }
-    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(*_gatingSequences); }
+    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(*getGatingSequences(), requiredCapacity, _cursor->value()); }
+    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(*getGatingSequences(), n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(*getGatingSequences(), n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(*getGatingSequences()); }
     void                                                    publish(std::int64_t sequence) override { _claimStrategy->publish(sequence); }
     [[nodiscard]] OPENCMW_FORCEINLINE bool                  isAvailable(std::int64_t sequence) const noexcept override { return _claimStrategy->isAvailable(sequence); }
     [[nodiscard]] std::int64_t                              getHighestPublishedSequence(std::int64_t nextSequence, std::int64_t availableSequence) const noexcept override { return _claimStrategy->getHighestPublishedSequence(nextSequence, availableSequence); }
@@ -55,8 +55,8 @@ public:
     [[nodiscard]] bool                                      isPublished(std::int64_t sequence) const noexcept override { return isAvailable(sequence); }
     void                                                    addGatingSequences(const std::vector<std::shared_ptr<Sequence>> &gatingSequences) override { detail::addSequences(_gatingSequences, *_cursor, gatingSequences); }
     bool                                                    removeGatingSequence(const std::shared_ptr<Sequence> &sequence) override { return detail::removeSequence(_gatingSequences, sequence); }
-    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return _gatingSequences; }
-    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(*_gatingSequences, _cursor->value()); }
+    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return std::atomic_load_explicit(&_gatingSequences, std::memory_order_acquire); }
+    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(*getGatingSequences(), _cursor->value()); }
     [[nodiscard]] auto                                      claimStrategy() { return _claimStrategy; }
     [[nodiscard]] auto                                      waitStrategy() { return _waitStrategy; }
     [[nodiscard]] auto                                      cursorSequence() { return _cursor; }
-- 
2.43.0


From e59f5fe17b0e5ef90b0d4482b070e57899a3c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:56 +0000
Subject: [PATCH 020/121] fix: the alert flag of a sequence barrier was a plain
 bool shared between threads

---
 src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
index e6ab764..55cf655 100644
--- a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
+++ b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
@@ -24,7 +24,7 @@ class ProcessingSequenceBarrier : public ISequenceBarrier, public std::enable_sh
     WAIT_STRATEGY                                          &_waitStrategyRef;
     EventStore<T>                                          &_sequenceProviderRef;
 
-    bool                                                    _alerted = false;
+    std::atomic<bool>                                       _alerted = false;
 
 public:
     ProcessingSequenceBarrier(const std::shared_ptr<EventStore<T>> &sequenceProvider,
-- 
2.43.0


From a27e7eb2cbc68bee73524e7d6552bdfa10d37ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:02 +0000
Subject: [PATCH 021/121] fix: an event/work processor that was halted while
 starting up never stopped

---
 src/disruptor/include/disruptor/BatchEventProcessor.hpp | 5 ++++-
 src/disruptor/include/disruptor/WorkProcessor.hpp       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/BatchEventProcessor.hpp b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
index b857e96..5148a7c 100644
--- a/src/disruptor/include/disruptor/BatchEventProcessor.hpp
+++ b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
@@ -106,6 +106,9 @@ public:
         }
 
         _sequenceBarrierRef.clearAlert();
+        if (!_running) { // halted meanwhile: clearAlert() may have discarded that alert
+            _sequenceBarrierRef.alert();
+        }
 
         notifyStart();
 
@@ -113,7 +116,7 @@ public:
 
         T   *evt          = nullptr;
 
-        while (true) {
+        while (_running) {
             try {
                 auto availableSequence = _sequenceBarrierRef.waitFor(nextSequence);
 
diff --git a/src/disruptor/include/disruptor/WorkProcessor.hpp b/src/disruptor/include/disruptor/WorkProcessor.hpp
index 0ae3a70..b8cdd2c 100644
--- a/src/disruptor/include/disruptor/WorkProcessor.hpp
+++ b/src/disruptor/include/disruptor/WorkProcessor.hpp
@@ -112,6 +112,9 @@ public:
             throw std::logic_error("Thread is already running");
         }
         _sequenceBarrier->clearAlert();
+        if (_running == 0) { // halted meanwhile: clearAlert() may have discarded that alert
+            _sequenceBarrier->alert();
+        }
 
         notifyStart();
 
@@ -121,7 +124,7 @@ public:
 
         T   *eventRef                = nullptr;
 
-        while (true) {
+        while (_running != 0) {
             try {
                 if (processedSequence) {
                     processedSequence = false;
-- 
2.43.0


From aae0805a4efabbf3c7e4fd0b8ec5507b652bd0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 022/121] fix: Annotated: do not move from an lvalue that is
 assigned to an annotated field

---
 src/core/include/opencmw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 4c2d0a9..3bbb4d7 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -393,7 +393,7 @@ struct Annotated<T, Q, description, modifier, groups...> : public T { // inherit
 
     template<typename U>
     requires (std::is_assignable_v<T, U>)
-    Annotated(U&& u) : T(std::move(u)) {}
+    Annotated(U&& u) : T(std::forward<U>(u)) {}
 
     [[nodiscard]] constexpr std::string_view getUnit() const noexcept { return unitStr.c_str(); }
     [[nodiscard]] constexpr std::string_view getQuantity() const noexcept { return quantityStr.c_str(); }
-- 
2.43.0


From 9f321b3fd36e89022977d664225d045a249171ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 023/121] fix: TimingCtx: a selector without the FAIR prefix is
 rejected on every access

---
 src/core/include/TimingCtx.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 425fe40..dca9691 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -125,6 +125,7 @@ public:
         }
 
         if (!upperCaseSelector.starts_with(SELECTOR_PREFIX)) {
+            _hash = 0;
             throw std::invalid_argument(std::format("Invalid tag '{}'", selector.value()));
         }
         auto upperCaseSelectorView = std::string_view{ upperCaseSelector.data() + SELECTOR_PREFIX.length(), upperCaseSelector.size() - SELECTOR_PREFIX.length() };
-- 
2.43.0


From 7eb7127676c1932919a86d85f6ee89048bff1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 024/121] fix: TimingCtx: reject out-of-range tag values and
 trailing characters

---
 src/core/include/TimingCtx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index dca9691..1fcddd8 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -158,7 +158,7 @@ public:
 
             if (WILDCARD != valueString) {
                 int32_t intValue = 0;
-                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec == std::errc::invalid_argument) {
+                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec != std::errc{} || result.ptr != valueString.data() + valueString.size()) {
                     _hash = 0;
                     throw std::invalid_argument(std::format("Value: '{}' in '{}' is not a valid integer", valueString, tag));
                 }
-- 
2.43.0


From 450a64c8bcadb1cff2724440ee0529c4d0b3ecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 025/121] fix: TimingCtx: comparisons and matches take the
 other context's current selector into account

---
 src/core/include/TimingCtx.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 1fcddd8..efe9b78 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -57,7 +57,7 @@ public:
     [[nodiscard]] int32_t gid() const { parse(); return _gid; }
 
     // these are not commutative, and must not be confused with operator==
-    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
+    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); other.parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
 
     [[nodiscard]] bool matchesWithBpcts(const TimingCtx &other) const {
         auto match = [](units::isq::Time auto lhs, units::isq::Time auto rhs) { return rhs == 0 || lhs == rhs; };
@@ -68,10 +68,12 @@ public:
 
     [[nodiscard]] auto operator<=>(const TimingCtx &other) const {
         parse();
+        other.parse();
         return std::tie(_cid, _sid, _pid, _gid, bpcts.value()) <=> std::tie(other._cid, other._sid, other._pid, other._gid, other.bpcts.value());
     }
     [[nodiscard]] bool operator==(const TimingCtx &other) const {
         parse();
+        other.parse();
         return bpcts == other.bpcts && _cid == other._cid && _sid == other._sid && _pid == other._pid && _gid == other._gid;
     }
 
-- 
2.43.0


From d9b45498fcb65a65bbad1bb23b333ca0b23b2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:45 +0000
Subject: [PATCH 026/121] fix: TimingCtx: rendering or hashing an invalid
 selector throws instead of terminating

---
 src/core/include/TimingCtx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index efe9b78..a4bcede 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -78,7 +78,7 @@ public:
     }
 
     template<bool forceParse = true>
-    [[nodiscard]] std::string toString() const noexcept(forceParse) {
+    [[nodiscard]] std::string toString() const {
         if constexpr (forceParse) {
             parse();
         }
@@ -99,7 +99,7 @@ public:
         return std::format("{}{}", SELECTOR_PREFIX, opencmw::join(segments, ":"));
     }
 
-    [[nodiscard]] std::size_t hash() const noexcept {
+    [[nodiscard]] std::size_t hash() const {
         parse();
         std::size_t seed = 0;
         detail::hash_combine(seed, _cid);
@@ -217,7 +217,7 @@ ENABLE_REFLECTION_FOR(opencmw::TimingCtx, selector, bpcts);
 namespace std {
 template<>
 struct hash<opencmw::TimingCtx> {
-    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const noexcept {
+    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const {
         return ctx.hash();
     }
 };
-- 
2.43.0


From 3845e2c84875ccb55aac759601ed502ddbb5e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 027/121] fix: NumberFilter: numbers that are out of range do
 not match

---
 src/core/include/Filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/Filters.hpp b/src/core/include/Filters.hpp
index f407d8c..e963b3a 100644
--- a/src/core/include/Filters.hpp
+++ b/src/core/include/Filters.hpp
@@ -45,11 +45,11 @@ class NumberFilter : public AbstractFilter {
 public:
     bool operator()(std::string_view notified, std::string_view subscribed) const override {
         T          subscribedNumber = {};
-        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc != std::errc{}) {
             return false;
         }
         T          notifiedNumber = {};
-        if (const auto rc = parseNumber(notified, notifiedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(notified, notifiedNumber); rc != std::errc{}) {
             return false;
         }
 
-- 
2.43.0


From 9cda695af759e39a6a36d6a09e4f9f608e704a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 028/121] fix: URI: an empty query parameter value is reported
 as absent wherever it stands in the query

---
 src/core/include/URI.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index df7a69d..003a1f6 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -235,7 +235,8 @@ public:
                 }
                 const auto valueEnd = _query.find_first_of(";&\0", readPos);
                 if (valueEnd != std::string_view::npos && valueEnd < _query.length()) {
-                    queryMap[key] = std::optional(decode(_query.substr(readPos, valueEnd - readPos)));
+                    const auto value = decode(_query.substr(readPos, valueEnd - readPos));
+                    queryMap[key]    = value.empty() ? std::nullopt : std::optional(value);
                     readPos        = valueEnd + 1;
                     continue;
                 }
-- 
2.43.0


From 3b8e0dee0a2a4df67f9c10d3817f3976b91de6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 029/121] fix: Topic: percent-encode parameter keys in the ZMQ
 topic

---
 src/core/include/Topic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/Topic.hpp b/src/core/include/Topic.hpp
index 3fc228f..55cbae6 100644
--- a/src/core/include/Topic.hpp
+++ b/src/core/include/Topic.hpp
@@ -119,7 +119,7 @@ public:
             if (!isFirst) {
                 zmqTopic += "&"s;
             }
-            zmqTopic += key;
+            zmqTopic += opencmw::URI<>::encode(key);
             if (value) {
                 zmqTopic += "="s + opencmw::URI<>::encode(*value);
             }
-- 
2.43.0


From 9eb6eeeeb5b5170924007d8da7621fe55ebd8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:46 +0000
Subject: [PATCH 030/121] fix: Topic: keep the query of a service text without
 leading slash

---
 src/core/include/Topic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/Topic.hpp b/src/core/include/Topic.hpp
index 55cbae6..3645c7c 100644
--- a/src/core/include/Topic.hpp
+++ b/src/core/include/Topic.hpp
@@ -175,7 +175,7 @@ private:
             if (!_params.empty()) {
                 throw std::invalid_argument(std::format("Parameters are not empty ({}), and there are more in the service string ({})", _params, serviceOrServiceAndQuery));
             }
-            const auto  parsed   = opencmw::URI<RELAXED>(std::string(serviceOrServiceAndQuery));
+            const auto  parsed   = opencmw::URI<RELAXED>(_service + std::string(serviceOrServiceAndQuery.substr(serviceOrServiceAndQuery.find("?"))));
             const auto &queryMap = parsed.queryParamMap();
             _params.insert(queryMap.begin(), queryMap.end());
         }
-- 
2.43.0


From 1e2834e997e5cca4706784561c340bc422e29a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:12 +0000
Subject: [PATCH 031/121] fix: MIME: compile-time lookup returns the first
 matching type like the run-time lookup

---
 src/core/include/MIME.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/MIME.hpp b/src/core/include/MIME.hpp
index 20fea23..576e935 100644
--- a/src/core/include/MIME.hpp
+++ b/src/core/include/MIME.hpp
@@ -162,7 +162,7 @@ constexpr const MimeType &getType(const std::string_view &mimeType) noexcept {
         constexpr auto lowerCaseCompare = [](const char ch1, const char ch2) constexpr noexcept -> bool { return detail::toLower(ch1) == detail::toLower(ch2); };
         detail::static_for<std::size_t, 0, ALL.size()>([&](auto i) {
             constexpr auto type = std::get<i>(ALL);
-            if (std::search(mimeType.begin(), mimeType.end(), type.typeName().begin(), type.typeName().end(), lowerCaseCompare) != mimeType.end()) {
+            if (index == SIZE_MAX && std::search(mimeType.begin(), mimeType.end(), type.typeName().begin(), type.typeName().end(), lowerCaseCompare) != mimeType.end()) {
                 index = i;
             }
         });
-- 
2.43.0


From 73f9aad8b4ba60588d60df1589285b92b07dd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:01 +0000
Subject: [PATCH 032/121] fix: QuerySerialiser: do not lose precision of
 floating-point values

---
 src/serialiser/include/QuerySerialiser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/QuerySerialiser.hpp b/src/serialiser/include/QuerySerialiser.hpp
index dfd1f6b..3996423 100644
--- a/src/serialiser/include/QuerySerialiser.hpp
+++ b/src/serialiser/include/QuerySerialiser.hpp
@@ -77,7 +77,11 @@ struct QuerySerialiser<T> {
     using FilterType = typename opencmw::NumberFilter<T>;
 
     inline static void serialise(QueryMap &m, const std::string &key, const T &value) {
-        m[key] = std::to_string(value);
+        if constexpr (std::is_floating_point_v<T>) {
+            m[key] = std::format("{}", value); // shortest text that reads back as the same value
+        } else {
+            m[key] = std::to_string(value);
+        }
     }
 
     inline static void deserialise(const std::optional<std::string> &maybeStr, T &v) {
-- 
2.43.0


From d237aaafd68678f0140a2e76784e65e77891b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:01 +0000
Subject: [PATCH 033/121] fix: QuerySerialiser: a malformed number leaves the
 field at its default

---
 src/serialiser/include/QuerySerialiser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/QuerySerialiser.hpp b/src/serialiser/include/QuerySerialiser.hpp
index 3996423..876c1a2 100644
--- a/src/serialiser/include/QuerySerialiser.hpp
+++ b/src/serialiser/include/QuerySerialiser.hpp
@@ -89,9 +89,11 @@ struct QuerySerialiser<T> {
             throw std::invalid_argument("Empty string is not a valid number");
         }
 
-        if (const auto rc = parseNumber(maybeStr.value(), v); rc == std::errc::invalid_argument) {
+        T number = {};
+        if (const auto rc = parseNumber(maybeStr.value(), number); rc != std::errc{}) {
             throw std::invalid_argument(std::format("Cannot parse as number '{}'", *maybeStr));
         }
+        v = number;
     }
 };
 
-- 
2.43.0


From d3b79aa67061374f2fb69edb7f8618dedca73643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:10 +0000
Subject: [PATCH 034/121] fix: mustache: render each worker with its own
 template

---
 src/serialiser/include/MustacheSerialiser.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/serialiser/include/MustacheSerialiser.hpp b/src/serialiser/include/MustacheSerialiser.hpp
index 6d6a626..2cd0017 100644
--- a/src/serialiser/include/MustacheSerialiser.hpp
+++ b/src/serialiser/include/MustacheSerialiser.hpp
@@ -359,21 +359,21 @@ template<typename VirtualFS, typename Stream, typename... Objects>
 void serialise(const VirtualFS &fs, const std::string &workerName, Stream &out, std::pair<std::string, const Objects &> &&...namedObjects) {
     static_assert((ReflectableClass<std::remove_cvref_t<Objects>> && ...));
 
-    static const auto fileName = "assets/mustache/" + workerName + ".mustache";
+    const auto fileName        = "assets/mustache/" + workerName + ".mustache";
 
     using mustache_ns          = kainjow::mustache_ns<std::string, mustache_data_base>;
-    // Structured bindings here break the linker...
-    // Should be const auto [ customTemplateExists, mustache ]
-    static auto pair = [&fs] {
+    // parsed templates by file name, N.B. several workers may share the same object types
+    thread_local std::unordered_map<std::string, std::pair<bool, mustache_ns::mustache>> templates;
+    auto it = templates.find(fileName);
+    if (it == templates.end()) {
         const bool  customTemplateExists = fs.exists(fileName);
         const auto  file                 = fs.open(customTemplateExists ? fileName.data() : "assets/mustache/default.mustache");
         std::string contents(file.cbegin(), file.cend());
-        auto        renderer = mustache_ns::mustache(contents);
-        return std::make_pair(customTemplateExists, renderer);
-    }();
+        it = templates.emplace(fileName, std::make_pair(customTemplateExists, mustache_ns::mustache(contents))).first;
+    }
 
-    const bool customTemplateExists = pair.first;
-    auto      &mustache             = pair.second;
+    const bool customTemplateExists = it->second.first;
+    auto      &mustache             = it->second.second;
 
     // Map of objects that we want mustache to see
     std::unordered_map<std::string, std::unique_ptr<mustache_data_base>> value;
-- 
2.43.0


From beac2db344b648d6142388a42c82fc45499ad12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:42 +0000
Subject: [PATCH 035/121] fix: mustache: do not refer to a temporary copy of a
 MultiArray

---
 src/serialiser/include/MustacheSerialiser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/MustacheSerialiser.hpp b/src/serialiser/include/MustacheSerialiser.hpp
index 2cd0017..cb91066 100644
--- a/src/serialiser/include/MustacheSerialiser.hpp
+++ b/src/serialiser/include/MustacheSerialiser.hpp
@@ -219,7 +219,7 @@ public:
 template<MultiArrayType T>
 class mustache_data<T> : public mustache_data<std::vector<typename T::value_type>> {
 public:
-    explicit mustache_data(T val)
+    explicit mustache_data(const T &val)
         : mustache_data<std::vector<typename T::value_type>>(val.elements()) {}
 };
 
-- 
2.43.0


From faea28e9634a6d78c85013996b4bb8083a120646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:17 +0000
Subject: [PATCH 036/121] fix: IoBuffer: a moved-from buffer is empty instead
 of claiming content without memory

---
 src/serialiser/include/IoBuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 305341b..ec9d68f 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -269,9 +269,9 @@ public:
     [[nodiscard]] IoBuffer(IoBuffer &&other) noexcept
         : _allocator(other._allocator.resource())
         , _buffer(std::exchange(other._buffer, nullptr))
-        , _position(other._position)
-        , _size(other._size)
-        , _capacity(other._capacity) {}
+        , _position(std::exchange(other._position, 0LU))
+        , _size(std::exchange(other._size, 0LU))
+        , _capacity(std::exchange(other._capacity, 0LU)) {}
 
     constexpr ~IoBuffer() {
         freeInternalBuffer();
-- 
2.43.0


From bda5239b8d9012c0a1f332b6124391323d824c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:17 +0000
Subject: [PATCH 037/121] fix: IoBuffer: assignment and swap take the memory
 resource along with the buffer

---
 src/serialiser/include/IoBuffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index ec9d68f..1bcb960 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -278,6 +278,10 @@ public:
     }
 
     constexpr void swap(IoBuffer &other) {
+        // the allocators need to follow the buffers they allocated, N.B. polymorphic_allocator is not assignable
+        auto *resource = _allocator.resource();
+        std::construct_at(&_allocator, other._allocator.resource());
+        std::construct_at(&other._allocator, resource);
         std::swap(_position, other._position);
         std::swap(_size, other._size);
         std::swap(_capacity, other._capacity);
-- 
2.43.0


From 01cb9cf74c0d824a09811920b423cabe9debb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:17 +0000
Subject: [PATCH 038/121] fix: IoBuffer: at() checks that the whole value is
 within the content

---
 src/serialiser/include/IoBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 1bcb960..0573d82 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -328,7 +328,7 @@ public:
     template<typename R, bool checkRange = true>
     OPENCMW_FORCEINLINE constexpr R &at(const size_t index) noexcept(!checkRange) {
         if constexpr (checkRange) {
-            if (index >= _size) {
+            if (index >= _size || sizeof(R) > _size - index) {
                 throw std::out_of_range(std::format("requested index {} is out-of-range [0,{}]", index, _size));
             }
         }
-- 
2.43.0


From 6cb1375a55fc9722aa5a22429fd578587182bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:17 +0000
Subject: [PATCH 039/121] fix: IoBuffer: typed reads do not leave the content

---
 src/serialiser/include/IoBuffer.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 0573d82..99755d4 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -205,10 +205,14 @@ private:
     }
 
     std::string_view extractStringView() const noexcept {
-        const auto strLength = static_cast<std::size_t>(swapEndian(get<int32_t>()) - 1);
-        auto       start     = reinterpret_cast<const char *>(_buffer + _position);
-        _position += strLength + 1LU; // +1 for the zero-terminating byte
-        return { start, strLength };
+        const auto wireLength = swapEndian(get<int32_t>()); // includes the zero-terminating byte
+        if (wireLength <= 0 || _position > _size || static_cast<std::size_t>(wireLength) > _size - _position) { // malformed or truncated
+            _position = std::max(_position, _size);
+            return {};
+        }
+        auto start = reinterpret_cast<const char *>(_buffer + _position);
+        _position += static_cast<std::size_t>(wireLength);
+        return { start, static_cast<std::size_t>(wireLength) - 1LU };
     }
 
     template<MetaInfo meta = WITH, typename Container>
@@ -422,6 +426,9 @@ public:
         if constexpr (Number<R>) {
             const std::size_t localPosition = _position;
             _position += sizeof(R);
+            if (_position > _size || localPosition > _size) { // nothing (complete) left to read
+                return R{};
+            }
             R value;
             std::memcpy(&value, _buffer + localPosition, sizeof(R));
             return value;
@@ -437,7 +444,10 @@ public:
     template<ArrayOrVector Container, bool checkRange = false>
     OPENCMW_FORCEINLINE constexpr Container &getArray(Container &input, const std::size_t requestedSize = SIZE_MAX) const noexcept(!checkRange) {
         using R                        = Container::value_type;
-        const auto        arraySize    = std::min(static_cast<std::size_t>(get<int32_t>()), _size - _position);
+        constexpr std::size_t elementSize = std::is_trivially_copyable_v<R> && !opencmw::StringLike<R> ? sizeof(R) : sizeof(int32_t); // minimum on the wire
+        const auto        wireSize     = get<int32_t>();
+        const std::size_t available    = _position < _size ? _size - _position : 0LU;
+        const auto        arraySize    = wireSize <= 0 ? 0LU : std::min(static_cast<std::size_t>(wireSize), available / elementSize);
         const std::size_t minArraySize = std::min(arraySize, requestedSize);
 
         if constexpr (opencmw::is_vector<Container>) {
-- 
2.43.0


From 5b5d3989c601b2678e284b84469f19f387a4cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:58 +0000
Subject: [PATCH 040/121] fix: IoBuffer: any non-zero byte reads as true

---
 src/serialiser/include/IoBuffer.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 99755d4..4d7b539 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -429,9 +429,13 @@ public:
             if (_position > _size || localPosition > _size) { // nothing (complete) left to read
                 return R{};
             }
-            R value;
-            std::memcpy(&value, _buffer + localPosition, sizeof(R));
-            return value;
+            if constexpr (std::is_same_v<RawType, bool>) {
+                return _buffer[localPosition] != 0; // other bytes than 0 and 1 are not valid representations of a bool
+            } else {
+                R value;
+                std::memcpy(&value, _buffer + localPosition, sizeof(R));
+                return value;
+            }
         } else if constexpr (units::is_derived_from_specialization_of<RawType, std::basic_string>) {
             return std::string(extractStringView());
         } else if constexpr (units::is_derived_from_specialization_of<RawType, std::basic_string_view>) {
-- 
2.43.0


From 44dea4b913b17d069a10ff4b970aeb94ada7548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:37 +0000
Subject: [PATCH 041/121] fix: YaS: reading a map of non-primitive values
 replaces the previous entries

---
 src/serialiser/include/IoSerialiserYaS.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 3896885..9bbb5bf 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -252,6 +252,7 @@ struct IoSerialiser<YaS, T> {
             std::string value_type_name           = buffer.get<std::string>();
             std::string value_type_name_secondary = buffer.get<std::string>();
             auto        value_elements            = static_cast<std::size_t>(buffer.get<int32_t>());
+            value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
                 FieldDescriptionShort subfield{
                     .headerStart       = buffer.position(),
-- 
2.43.0


From c1c4abcdc39f42234ddc68fb6969552847fa9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 042/121] fix: CmwLight: one-dimensional MultiArrays can be
 serialised

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 0809df6..367c242 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -47,7 +47,7 @@ int getTypeId() {
     return IoSerialiser<CmwLight, T>::getDataTypeId();
 }
 template<typename T>
-int getTypeIdVector() {
+constexpr int getTypeIdVector() {
     return IoSerialiser<CmwLight, std::vector<T>>::getDataTypeId();
 }
 template<typename T, size_t N>
-- 
2.43.0


From 567d96161a3e20db6304be7aa050e0ede945d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 043/121] fix: annotated fields with a unit can be read from
 protocols that do not transport units

---
 src/serialiser/include/IoSerialiser.hpp         | 8 ++++++--
 src/serialiser/include/IoSerialiserCmwLight.hpp | 2 ++
 src/serialiser/include/IoSerialiserJson.hpp     | 2 ++
 src/serialiser/include/IoSerialiserYAML.hpp     | 2 ++
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 570460f..7149b46 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -81,6 +81,10 @@ struct Protocol {
 template<typename T>
 concept SerialiserProtocol = requires { T::protocolName(); }; // TODO: find neater check via is_protocol
 
+/// protocols which do not transport units, quantities etc. along with the fields need to specialise this
+template<SerialiserProtocol protocol>
+inline constexpr bool transportsMetaInfo = true;
+
 struct FieldDescriptionShort {
     uint64_t         headerStart       = 0U;
     std::size_t      dataStartPosition = 0U;
@@ -362,12 +366,12 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     if (is_private(unwrapPointer(member(value)).getModifier())) { // warn for private access
                         handleDeserialisationError<check>(info, "private/internal field access for {}::{} - description: {}", member.declarator.name, member.name, unwrapPointer(member(value)).getDescription());
                     }
-                    if (std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
+                    if (transportsMetaInfo<protocol> && std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field unit for {}::{} - requested unit '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getUnit(), field.unit);
                         moveToFieldEndBufferPosition(buffer, field);
                         return;
                     }
-                    if (std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
+                    if (transportsMetaInfo<protocol> && std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field quantity for {}::{} - requested quantity '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getQuantity(), field.quantity);
                         moveToFieldEndBufferPosition(buffer, field);
                         return;
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 367c242..f68cdb6 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -12,6 +12,8 @@ namespace opencmw {
 
 struct CmwLight : Protocol<"CmwLight"> {
 };
+template<>
+inline constexpr bool transportsMetaInfo<CmwLight> = false;
 
 namespace cmwlight {
 
diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index a99220b..07596a1 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -12,6 +12,8 @@
 namespace opencmw {
 
 struct Json : Protocol<"Json"> {}; // as specified in https://www.json.org/json-en.html
+template<>
+inline constexpr bool transportsMetaInfo<Json> = false;
 
 namespace json {
 
diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index b398074..a35544d 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -18,6 +18,8 @@
 namespace opencmw {
 
 struct YAML : Protocol<"YAML"> {}; // as specified in https://yaml.org/spec/1.2.2/
+template<>
+inline constexpr bool transportsMetaInfo<YAML> = false;
 
 namespace yaml::detail {
 
-- 
2.43.0


From 05087dda33c929ed567a705cc35d24f6d4257db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 044/121] fix: CmwLight: sets are written in the layout of the
 array type they claim to be

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index f68cdb6..adc62e9 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -217,6 +217,8 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
     }
 
     constexpr static void serialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, const std::set<MemberType> &value) noexcept {
+        buffer.put(1);
+        buffer.put(static_cast<int32_t>(value.size()));
         buffer.put(static_cast<int32_t>(value.size()));
         if constexpr (std::is_arithmetic_v<MemberType>) {
             for (const auto v : value) {
@@ -229,10 +231,11 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
         }
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) {
         value.clear();
+        buffer.skip(2 * static_cast<int32_t>(sizeof(int32_t))); // dimensions
         auto n_elems = buffer.get<int32_t>();
-        for (int i = 0; i < n_elems; i++) {
+        for (int i = 0; i < n_elems && buffer.position() < buffer.size(); i++) {
             MemberType            v;
             FieldDescriptionShort subfield{
                 .headerStart       = buffer.position(),
-- 
2.43.0


From 4d443e9cbbd3e4cd565a2701e2d36b862733c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 045/121] fix: CmwLight: reading a map replaces the previous
 entries

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index adc62e9..f3c7914 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -453,6 +453,7 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto &parent, std::map<std::string, ValueType> &value) {
         using protocol         = CmwLight;
         constexpr auto   check = ProtocolCheck::IGNORE;
+        value.clear();
         IoSerialiser<protocol, START_MARKER>::deserialise(buffer, parent, START_MARKER_INST);
         auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, parent.subfields);
         while (buffer.position() < buffer.size()) {
-- 
2.43.0


From b10f45dca7f39eba99022e75ac482e60d9aa4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:35 +0000
Subject: [PATCH 046/121] fix: CmwLight: the fields following a map field are
 read

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index f3c7914..1379b0b 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -450,9 +450,10 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
         }
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto &parent, std::map<std::string, ValueType> &value) {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &mapField, std::map<std::string, ValueType> &value) {
         using protocol         = CmwLight;
         constexpr auto   check = ProtocolCheck::IGNORE;
+        auto             parent = mapField; // N.B. the caller's field count must not be overwritten by the number of map entries
         value.clear();
         IoSerialiser<protocol, START_MARKER>::deserialise(buffer, parent, START_MARKER_INST);
         auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, parent.subfields);
-- 
2.43.0


From 1490f81a86c94a962231bfc2374ca2c3d2308ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:16 +0000
Subject: [PATCH 047/121] fix: Json: write control characters as valid JSON and
 decode \u escape sequences

---
 src/serialiser/include/IoSerialiserJson.hpp | 63 +++++++++++++++++++--
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 07596a1..ca511fc 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -61,6 +61,13 @@ template<StringLike T>
             buffer.put('t');
             break;
         default:
+            if (static_cast<uint8_t>(c) < 0x20) { // other control characters have to be escaped, too
+                constexpr std::string_view hexDigits = "0123456789abcdef";
+                for (const char e : { '\\', 'u', '0', '0', hexDigits[static_cast<uint8_t>(c) >> 4], hexDigits[static_cast<uint8_t>(c) & 0xF] }) {
+                    buffer.put(e);
+                }
+                break;
+            }
             buffer.put(c);
             break;
         }
@@ -68,6 +75,36 @@ template<StringLike T>
     buffer.put('"');
 }
 
+/// reads the four hex digits of an escaped UTF-16 code unit
+inline uint32_t readHexCodeUnit(IoBuffer &buffer) {
+    const char *data = reinterpret_cast<const char *>(buffer.data() + buffer.position());
+    if ((buffer.position() + 4) >= buffer.size() || !isHexNumber(data, 4)) {
+        throw ProtocolException("illegal hex number {} at position {} of {}", buffer.asString(buffer.position(), 4), buffer.position(), buffer.size());
+    }
+    uint32_t codeUnit = 0;
+    std::from_chars(data, data + 4, codeUnit, 16);
+    buffer.skip<false>(4);
+    return codeUnit;
+}
+
+inline void appendUtf8(std::string &result, const uint32_t codePoint) {
+    if (codePoint < 0x80) {
+        result += static_cast<char>(codePoint);
+    } else if (codePoint < 0x800) {
+        result += static_cast<char>(0xC0 | (codePoint >> 6));
+        result += static_cast<char>(0x80 | (codePoint & 0x3F));
+    } else if (codePoint < 0x10000) {
+        result += static_cast<char>(0xE0 | (codePoint >> 12));
+        result += static_cast<char>(0x80 | ((codePoint >> 6) & 0x3F));
+        result += static_cast<char>(0x80 | (codePoint & 0x3F));
+    } else {
+        result += static_cast<char>(0xF0 | (codePoint >> 18));
+        result += static_cast<char>(0x80 | ((codePoint >> 12) & 0x3F));
+        result += static_cast<char>(0x80 | ((codePoint >> 6) & 0x3F));
+        result += static_cast<char>(0x80 | (codePoint & 0x3F));
+    }
+}
+
 inline std::string readString(IoBuffer &buffer) {
     if (buffer.position() >= buffer.size()) {
         return "";
@@ -102,12 +139,28 @@ inline std::string readString(IoBuffer &buffer) {
                 result += '\t';
                 break;
             case 'u': {
-                char *data = reinterpret_cast<char *>(buffer.data() + buffer.position());
-                if ((buffer.position() + 4) >= buffer.size() || !isHexNumber(data, 4)) {
-                    throw ProtocolException("illegal hex number {} at position {} of {}", buffer.asString(buffer.position(), 4), buffer.position(), buffer.size());
+                constexpr uint32_t replacementCharacter = 0xFFFD;
+                uint32_t           codePoint            = readHexCodeUnit(buffer);
+                if (codePoint >= 0xD800 && codePoint < 0xDC00) { // first half of a surrogate pair
+                    const auto next       = buffer.position();
+                    bool       isComplete = false;
+                    if (next + 6 < buffer.size() && buffer.at<char>(next) == '\\' && buffer.at<char>(next + 1) == 'u') {
+                        buffer.skip<false>(2);
+                        const uint32_t low = readHexCodeUnit(buffer);
+                        if (low >= 0xDC00 && low < 0xE000) {
+                            codePoint  = 0x10000 + ((codePoint - 0xD800) << 10) + (low - 0xDC00);
+                            isComplete = true;
+                        } else {
+                            buffer.set_position(next);
+                        }
+                    }
+                    if (!isComplete) {
+                        codePoint = replacementCharacter;
+                    }
+                } else if (codePoint >= 0xDC00 && codePoint < 0xE000) {
+                    codePoint = replacementCharacter;
                 }
-                buffer.skip<false>(4); // skip escaped unicode char
-                result += '_';         // todo: implement parsing the actual unicode characters
+                appendUtf8(result, codePoint);
                 break;
             }
             default:
-- 
2.43.0


From acca7ccd57d42bc4bf0e45b39e39c583c031e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:16 +0000
Subject: [PATCH 048/121] fix: Json: an empty map is written as an empty object

---
 src/serialiser/include/IoSerialiserJson.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index ca511fc..6c99535 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -651,7 +651,9 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
             memberField.fieldName = entry.first;
             FieldHeaderWriter<Json>::put<IoBuffer::WITHOUT>(buffer, memberField, entry.second);
         }
-        buffer.resize(buffer.size() - 2); // remove trailing comma
+        if (!value.empty()) {
+            buffer.resize(buffer.size() - 2); // remove trailing comma
+        }
         buffer.put<IoBuffer::MetaInfo::WITHOUT>("\n}\n"sv);
     }
     static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
-- 
2.43.0


From fbf03a4dd747451beba676fc8dad76d2abfff914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:16 +0000
Subject: [PATCH 049/121] fix: Json: reading a map keeps the values read and
 replaces the previous entries

---
 src/serialiser/include/IoSerialiserJson.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 6c99535..75dc1a5 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -660,9 +660,9 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
         using namespace std::string_view_literals;
         DeserialiserInfo     info{};
         FieldDescriptionLong fieldHeader{ .headerStart = 0, .dataStartPosition = 0, .dataEndPosition = 0, .subfields = 0, .fieldName = ""sv, .unit = ""sv, .description = ""sv, .modifier = UNKNOWN, .intDataType = IoSerialiser<Json, V>::getDataTypeId(), .hierarchyDepth = static_cast<uint8_t>(field.hierarchyDepth + 1U) };
+        value.clear();
         for (FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader); fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId(); FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader)) {
-            auto fieldValue = value[std::string(fieldHeader.fieldName)];
-            IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, fieldValue);
+            IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, value[std::string(fieldHeader.fieldName)]);
         }
     }
 };
-- 
2.43.0


From ce4cd3fd1130fef16a4e3a7e4c84255cfa98f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:16 +0000
Subject: [PATCH 050/121] fix: Json: numbers are read completely and not beyond
 the end of the buffer

---
 src/serialiser/include/IoSerialiserJson.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 75dc1a5..6c8869f 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -454,8 +454,7 @@ struct IoSerialiser<Json, T> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const auto start = buffer.position();
         const auto data  = reinterpret_cast<const char *>(buffer.data());
-        // N.B. assumes that any reasonable number representation has a maximum of 30 characters
-        const auto stop = start + 30;
+        const auto stop  = buffer.size();
 
         //        auto     stop  = 0;
         //        for (size_t i = start; i < buffer.size(); i++) {
-- 
2.43.0


From ceb4e91861ae19bff29d3a637bf87de7c9981b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:43 +0000
Subject: [PATCH 051/121] fix: Json: map keys are escaped like texts

---
 src/serialiser/include/IoSerialiserJson.hpp | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 6c8869f..297c7b9 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -181,15 +181,24 @@ inline std::string_view readKey(IoBuffer &buffer) {
     const auto start = buffer.position();
     auto       i     = start;
     while (buffer.at<uint8_t>(i) != '"') {
-        if (buffer.at<uint8_t>(i) == '\\') { // escape sequence detected
-            throw ProtocolException("Escape characters not allowed in key: \\{}", buffer.at<uint8_t>(buffer.position() - 1));
-        }
-        i++;
+        i += buffer.at<uint8_t>(i) == '\\' ? 2U : 1U; // N.B. escape sequences are kept as they are, see decodeKey(..)
     }
     buffer.set_position(i + 1);
     return buffer.asString(start, static_cast<int>(i - start));
 }
 
+/// resolves the escape sequences in a key returned by readKey(..)
+inline std::string decodeKey(std::string_view key) {
+    if (key.find('\\') == std::string_view::npos) {
+        return std::string(key);
+    }
+    IoBuffer buffer(key.size() + 2);
+    buffer.put('"');
+    buffer.put<IoBuffer::MetaInfo::WITHOUT>(key);
+    buffer.put('"');
+    return readString(buffer);
+}
+
  constexpr void consumeWhitespace(IoBuffer &buffer) {
     while (buffer.position() < buffer.size() && isWhitespace(buffer.at<uint8_t>(buffer.position()))) {
         buffer.skip<false>(1);
@@ -346,9 +355,8 @@ struct FieldHeaderWriter<Json> {
             }
             return 0;
         }
-        buffer.put<WITHOUT>("\""sv);
-        buffer.put<WITHOUT>(field.fieldName);
-        buffer.put<WITHOUT>("\": "sv);
+        json::writeString(buffer, field.fieldName);
+        buffer.put<WITHOUT>(": "sv);
         using StrippedDataType = std::remove_reference_t<decltype(getAnnotatedMember(unwrapPointer(data)))>;
         IoSerialiser<Json, StrippedDataType>::serialise(buffer, field, getAnnotatedMember(unwrapPointer(data)));
         buffer.put<WITHOUT>(",\n"sv);
@@ -661,7 +669,7 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
         FieldDescriptionLong fieldHeader{ .headerStart = 0, .dataStartPosition = 0, .dataEndPosition = 0, .subfields = 0, .fieldName = ""sv, .unit = ""sv, .description = ""sv, .modifier = UNKNOWN, .intDataType = IoSerialiser<Json, V>::getDataTypeId(), .hierarchyDepth = static_cast<uint8_t>(field.hierarchyDepth + 1U) };
         value.clear();
         for (FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader); fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId(); FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader)) {
-            IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, value[std::string(fieldHeader.fieldName)]);
+            IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, value[json::decodeKey(fieldHeader.fieldName)]);
         }
     }
 };
-- 
2.43.0


From 8cc1d3f7dd6a52eed7791c2e3f9a7e2f6c2c770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:38 +0000
Subject: [PATCH 052/121] fix: YAML: an empty text is not read as two quotes

---
 src/serialiser/include/IoSerialiserYAML.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index a35544d..2e69823 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -208,7 +208,7 @@ inline std::string fieldFormatter(StringLike auto const &value, const int nInden
 template<bool SingleLineParameter>
 inline void fieldParser(const std::string_view &data, StringLike auto &value) {
     if constexpr (SingleLineParameter) {
-        if (data.size() > 2 && data.starts_with('\"') && data.ends_with('\"')) {
+        if (data.size() >= 2 && data.starts_with('\"') && data.ends_with('\"')) {
             value = data.substr(1, data.size() - 2);
             return;
         }
-- 
2.43.0


From 8846d8bafa0d43ff9097297274b8534e90125423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:38 +0000
Subject: [PATCH 053/121] fix: YAML: nested structures are read without
 complaining about their end marker

---
 src/serialiser/include/IoSerialiserYAML.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index 2e69823..dfa72fb 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -56,6 +56,10 @@ constexpr void addSpace(IoBuffer &buffer, const uint8_t hierarchyDepth, const ui
     return static_cast<int>(buffer.position() - start);
 }
 
+[[nodiscard]] constexpr bool isCommentOrEmptyLine(IoBuffer &buffer) {
+    return buffer.position() < buffer.size() && (buffer.at<char>(buffer.position()) == '#' || buffer.at<char>(buffer.position()) == '\n');
+}
+
 [[nodiscard]] inline std::string_view peekLine(IoBuffer &buffer) {
     const auto start = buffer.position();
     const auto end   = moveToEndOfLine(buffer);
@@ -562,7 +566,9 @@ struct FieldHeaderReader<YAML> {
 
         result.fieldName             = readKey(buffer);
         if (buffer.position() == buffer.size() || result.fieldName == "...") { // reached end-of-file
-            result.intDataType = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
+            result.intDataType       = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
+            result.dataStartPosition = result.headerStart;
+            result.dataEndPosition   = result.headerStart;
             return;
         }
         result.intDataType       = 0;
@@ -585,7 +591,7 @@ struct FieldHeaderReader<YAML> {
         do {
             [[maybe_unused]] const auto n = moveToEndOfLine(buffer);
             result.dataEndPosition        = buffer.position();
-        } while (consumeWhitespace(buffer) > indentation);
+        } while (consumeWhitespace(buffer) > indentation || isCommentOrEmptyLine(buffer)); // N.B. comments (e.g. the end marker of a nested structure) belong to the field
         buffer.set_position(result.dataEndPosition);
     }
 };
-- 
2.43.0


From a6edb966fedbf5a40a9413883a1f5a596fe6cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:15 +0000
Subject: [PATCH 054/121] fix: YAML: texts in arrays are quoted like other
 texts

---
 src/serialiser/include/IoSerialiserYAML.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index dfa72fb..d0137bf 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -223,6 +223,18 @@ inline void fieldParser(const std::string_view &data, StringLike auto &value) {
 }
 
 inline std::string fieldFormatter(ArrayOrVector auto const &value, const int nIndentation = 0) noexcept {
+    if constexpr (is_stringlike<typename std::remove_cvref_t<decltype(value)>::value_type>) {
+        const auto quote = [](const auto &v) { return std::format("\"{}\"", v); };
+        std::string result;
+        for (const auto &v : value) {
+            if (nIndentation == 0) {
+                result += result.empty() ? quote(v) : ", " + quote(v);
+            } else {
+                result += std::format("{:<{}}- {}\n", ' ', nIndentation, quote(v));
+            }
+        }
+        return nIndentation == 0 ? "[" + result + "]" : result;
+    }
     if (nIndentation == 0) {
         return std::format("[{}]", opencmw::join(value, ", "));
     }
-- 
2.43.0


From e1fe742109d4fbc7083c5e8ea0c918868f8c73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:15 +0000
Subject: [PATCH 055/121] fix: YAML: line-broken sets can be read back

---
 src/serialiser/include/IoSerialiserYAML.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index d0137bf..b70210b 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -341,6 +341,7 @@ inline void fieldParser(const std::string_view &data, std::set<V> &value) {
         if (token.starts_with('#') || token.starts_with('\n')) {
             continue; // skip commented or empty lines
         }
+        ++tokenSize;
         V newval;
         fieldParser<true>(token.substr(2), newval);
         value.insert(newval);
-- 
2.43.0


From 7ecd8db5f04e04598d74d4ffa022181c78fd4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:59 +0000
Subject: [PATCH 056/121] fix: YAML: structures following each other and empty
 structures are told apart

---
 src/serialiser/include/IoSerialiserYAML.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYAML.hpp b/src/serialiser/include/IoSerialiserYAML.hpp
index b70210b..02c9531 100644
--- a/src/serialiser/include/IoSerialiserYAML.hpp
+++ b/src/serialiser/include/IoSerialiserYAML.hpp
@@ -576,6 +576,7 @@ struct FieldHeaderReader<YAML> {
             throw ProtocolException("YAML: non canonical indentation depth {} at buffer position {}", indentation, buffer.position());
         }
         const auto newHierarchyDepth = static_cast<uint8_t>(indentation / IOSERIALISER_YAML_INDENTATION);
+        const bool isStructHeader    = result.fieldName.empty(); // first header read for a (nested) structure
 
         result.fieldName             = readKey(buffer);
         if (buffer.position() == buffer.size() || result.fieldName == "...") { // reached end-of-file
@@ -589,16 +590,17 @@ struct FieldHeaderReader<YAML> {
         if (result.fieldName.size() != 0 && buffer.at<char8_t>(buffer.position()) == '\n') { // start marker
             result.intDataType       = IoSerialiser<YAML, START_MARKER>::getDataTypeId();
             result.dataStartPosition = buffer.position() + static_cast<std::size_t>(moveToEndOfLine(buffer));
-            result.hierarchyDepth    = newHierarchyDepth;
         }
 
-        if (result.fieldName.size() != 0 && newHierarchyDepth < result.hierarchyDepth) { // end marker
+        if (result.fieldName.size() != 0 && newHierarchyDepth < result.hierarchyDepth && !isStructHeader) { // end marker
             result.intDataType       = IoSerialiser<YAML, END_MARKER>::getDataTypeId();
             result.dataStartPosition = result.headerStart;
             result.dataEndPosition   = result.headerStart;
             return;
         }
-        result.hierarchyDepth = newHierarchyDepth;
+        if (!isStructHeader || newHierarchyDepth == 0) { // N.B. the fields of a nested structure are one level deeper than its header
+            result.hierarchyDepth = newHierarchyDepth;
+        }
 
         // check for next key at the same or higher hierarchy level
         do {
-- 
2.43.0


From 2ac577d65dd1ed0240d41720a96f7bc3a9c6445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:53 +0000
Subject: [PATCH 057/121] fix: CmwLight: unknown nested structures are skipped

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 1379b0b..a1aa52a 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -322,6 +322,14 @@ struct IoSerialiser<CmwLight, OTHER> {
         else if (typeId == getTypeIdMultiArray<char       , 2>() || typeId == getTypeIdMultiArray<char       , 3>()) { skipMultiArray<char       >(buffer); }
         else if (typeId == getTypeIdMultiArray<std::string, 2>() || typeId == getTypeIdMultiArray<std::string, 3>()) { skipMultiArray<std::string>(buffer); }
         // nested
+        else if (typeId == IoSerialiser<CmwLight, START_MARKER>::getDataTypeId()) {
+            buffer.set_position(field.dataStartPosition);
+            for (auto remaining = buffer.get<int32_t>(); remaining > 0; --remaining) {
+                FieldDescriptionShort subField{ .headerStart = buffer.position(), .fieldName = buffer.get<std::string_view>(), .intDataType = buffer.get<uint8_t>() };
+                subField.dataStartPosition = buffer.position();
+                deserialise(buffer, subField, OTHER_INST);
+            }
+        }
         // unsupported
         else { throw ProtocolException(std::format("Skipping data type {} is not supported", typeId)); }
         // clang-format on
-- 
2.43.0


From ae852abc9917310e830bdb14bbeacca655a8159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:37 +0000
Subject: [PATCH 058/121] fix: fields of an unexpected type are skipped also in
 formats without field sizes

---
 src/serialiser/include/IoSerialiser.hpp | 43 ++++++++++++++++---------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 7149b46..4c3263f 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -273,6 +273,21 @@ neverinline constexpr bool handleDeserialisationErrorAndSkipToNextField(IoBuffer
     return false; // may continue
 }
 
+/// moves the buffer position behind the data of a field that is not read
+template<SerialiserProtocol protocol>
+constexpr void skipField(IoBuffer &buffer, const FieldDescriptionLong &field) {
+    if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
+        moveToFieldEndBufferPosition(buffer, field);
+    } else { // use deserialise OTHER to continue parsing the data just to skip it for formats which do not include the field size in the header
+        if constexpr (requires { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); }) {
+            if (field.intDataType == IoSerialiser<protocol, START_MARKER>::getDataTypeId()) {
+                buffer.set_position(field.dataStartPosition - 1); // reset buffer position for the nested deserialiser to read again
+            }
+            IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
+        }
+    }
+}
+
 template<SerialiserProtocol protocol, const ProtocolCheck check>
 constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, DeserialiserInfo &info, const FieldDescriptionLong parent) {
     using ValueType = std::remove_reference_t<decltype(value)>;
@@ -325,16 +340,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 handleDeserialisationError<check>(info, "missing field (type:{}) {}::{} at buffer[{}, size:{}]", field.intDataType, parent.fieldName, field.fieldName, buffer.position(), buffer.size());
                 info.additionalFields.emplace_back(std::make_tuple(std::format("{}::{}", parent.fieldName, field.fieldName), field.intDataType));
             }
-            if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
-                moveToFieldEndBufferPosition(buffer, field);
-            } else { // use deserialise OTHER to continue parsing the data just to skip it for formats which do not include the field size in the header
-                if constexpr (requires { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); }) {
-                    if (field.intDataType == IoSerialiser<protocol, START_MARKER>::getDataTypeId()) {
-                        buffer.set_position(field.dataStartPosition - 1); // reset buffer position for the nested deserialiser to read again
-                    }
-                    IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
-                }
-            }
+            skipField<protocol>(buffer, field);
             continue;
         }
 
@@ -344,14 +350,19 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
 
             using MemberType = std::remove_reference_t<decltype(getAnnotatedMember(unwrapPointer(member(value))))>;
             if constexpr (!is_writable(member) || is_static(member)) {
-                moveToFieldEndBufferPosition(buffer, field);
+                skipField<protocol>(buffer, field);
                 return;
             } else if constexpr (isReflectableClass<MemberType>()) {
-                field.intDataType = IoSerialiser<protocol, START_MARKER>::getDataTypeId();
+                if (field.intDataType != IoSerialiser<protocol, START_MARKER>::getDataTypeId()) { // not a nested data-structure
+                    skipField<protocol>(buffer, field);
+                    if constexpr (check != ProtocolCheck::IGNORE) {
+                        handleDeserialisationError<check>(info, "mismatched field type for {}::{} - requested nested type: {} got: {}", member.declarator.name, member.name, typeName<MemberType>, field.intDataType);
+                    }
+                }
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, MemberType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-                    moveToFieldEndBufferPosition(buffer, field);
+                    skipField<protocol>(buffer, field);
                     if constexpr (check == ProtocolCheck::IGNORE) {
                         return; // don't write -> skip to next
                     }
@@ -368,17 +379,17 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     }
                     if (transportsMetaInfo<protocol> && std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field unit for {}::{} - requested unit '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getUnit(), field.unit);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipField<protocol>(buffer, field);
                         return;
                     }
                     if (transportsMetaInfo<protocol> && std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field quantity for {}::{} - requested quantity '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getQuantity(), field.quantity);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipField<protocol>(buffer, field);
                         return;
                     }
                     if (is_readonly(unwrapPointer(member(value)).getModifier())) { // should not set field via external reference
                         handleDeserialisationError<check>(info, "mismatched field access modifier for {}::{} - requested '{}' received '{}'", member.declarator.name, member.name, (unwrapPointer(member(value)).getModifier()), field.modifier);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipField<protocol>(buffer, field);
                         return;
                     }
                 }
-- 
2.43.0


From b40a0784d8b35960a49104718879def28ea6ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:28 +0000
Subject: [PATCH 059/121] fix: an unknown access modifier can be formatted
 (reading a read-only field from CmwLight terminated)

---
 src/core/include/opencmw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 3bbb4d7..6fbea11 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -308,7 +308,7 @@ struct std::formatter<opencmw::ExternalModifier> {
         case RO_DEPRECATED: return std::format_to(ctx.out(), "RO_DEPRECATED");
         case RW_PRIVATE: return std::format_to(ctx.out(), "RW_PRIVATE");
         case RO_PRIVATE: return std::format_to(ctx.out(), "RO_PRIVATE");
-        case UNKNOWN: [[fallthrough]];
+        case UNKNOWN: return std::format_to(ctx.out(), "UNKNOWN");
             default:
                 throw std::logic_error("unknown ExternalModifier state");
         }
-- 
2.43.0


From 2035835ed50dbe92ade013becb6ec284231952d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:00 +0000
Subject: [PATCH 060/121] verification hook: idle loop length of the thread
 pool (guarded by OPENCMW_VERIFICATION_THREADPOOL_N_SPIN)

---
 src/core/include/ThreadPool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 4997002..f21e8e2 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -463,7 +463,11 @@ private:
     }
 
     void worker() {
+#ifdef OPENCMW_VERIFICATION_THREADPOOL_N_SPIN // shortens the idle loop for model checking
+        constexpr uint32_t N_SPIN       = OPENCMW_VERIFICATION_THREADPOOL_N_SPIN;
+#else
         constexpr uint32_t N_SPIN       = 1 << 8;
+#endif
         uint32_t           noop_counter = 0;
         const auto         threadID     = _numThreads.fetch_add(1);
         std::mutex         mutex;
-- 
2.43.0


From b6e9cc7d1296a397c57439f3c0b49b2387753dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 061/121] fix: ThreadPool: the shutdown flag is read and
 written by different threads

---
 src/core/include/ThreadPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index f21e8e2..abfba23 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -227,7 +227,7 @@ class BasicThreadPool {
     static std::string           generateName() { return std::format("BasicThreadPool#{}", _globalPoolId.fetch_add(1)); }
 
     std::atomic<bool>            _initialised = ATOMIC_FLAG_INIT;
-    bool                         _shutdown    = false;
+    std::atomic<bool>            _shutdown    = false;
 
     std::condition_variable      _condition;
     std::atomic<std::size_t>     _numTaskedQueued = 0U; // cache for _taskQueue.size()
-- 
2.43.0


From 9c9a08091b224323c7eb7d897f0994dbc207bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 062/121] fix: ThreadPool: a pool can be destroyed after its
 shutdown was requested

---
 src/core/include/ThreadPool.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index abfba23..39005cb 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -264,7 +264,9 @@ public:
         _shutdown = true;
         _condition.notify_all();
         for (auto &t : _threads) {
-            t.join();
+            if (t.joinable()) {
+                t.join();
+            }
         }
     }
 
@@ -287,7 +289,9 @@ public:
         _shutdown = true;
         _condition.notify_all();
         for (auto &t : _threads) {
-            t.join();
+            if (t.joinable()) {
+                t.join();
+            }
         }
     }
     [[nodiscard]] bool isShutdown() const { return _shutdown; }
-- 
2.43.0


From 5512b1f785797d8babf97426a2e5adcf3cc72689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 063/121] fix: ThreadPool: the affinity mask is applied to the
 threads of the pool and not to the caller

---
 src/core/include/ThreadPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 39005cb..21cfb1f 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -392,12 +392,12 @@ private:
         thread::setThreadSchedulingParameter(_schedulingPolicy, _schedulingPriority, thread);
         if (!_affinityMask.empty()) {
             if (taskType == TaskType::IO_BOUND) {
-                thread::setThreadAffinity(_affinityMask);
+                thread::setThreadAffinity(_affinityMask, thread);
                 return;
             }
             const std::vector<bool> affinityMask = distributeThreadAffinityAcrossCores(_affinityMask, threadID);
             std::cout << std::format("{}#{} affinity mask: {}", _poolName, threadID, opencmw::join(affinityMask, ",")) << std::endl;
-            thread::setThreadAffinity(affinityMask);
+            thread::setThreadAffinity(affinityMask, thread);
         }
     }
 
-- 
2.43.0


From 7533e0ecd2c93a7bfa317bd7b641bf4937a95799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:54 +0000
Subject: [PATCH 064/121] fix: ThreadPool: a task or shutdown arriving while a
 thread goes to sleep is not missed

---
 src/core/include/ThreadPool.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 21cfb1f..faf152e 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -229,6 +229,7 @@ class BasicThreadPool {
     std::atomic<bool>            _initialised = ATOMIC_FLAG_INIT;
     std::atomic<bool>            _shutdown    = false;
 
+    std::mutex                   _conditionMutex; // guards against notifications between the check for work and going to sleep
     std::condition_variable      _condition;
     std::atomic<std::size_t>     _numTaskedQueued = 0U; // cache for _taskQueue.size()
     std::atomic<std::size_t>     _numTasksRunning = 0U;
@@ -262,7 +263,7 @@ public:
 
     ~BasicThreadPool() {
         _shutdown = true;
-        _condition.notify_all();
+        wakeUpAll();
         for (auto &t : _threads) {
             if (t.joinable()) {
                 t.join();
@@ -287,7 +288,7 @@ public:
     void                      waitUntilInitialised() const { _initialised.wait(false); }
     void                      requestShutdown() {
         _shutdown = true;
-        _condition.notify_all();
+        wakeUpAll();
         for (auto &t : _threads) {
             if (t.joinable()) {
                 t.join();
@@ -332,7 +333,7 @@ public:
         _numTaskedQueued.fetch_add(1U);
 
         _taskQueue.push(createTask<taskName, priority, cpuID>(FWD(func), FWD(args)...));
-        _condition.notify_one();
+        wakeUpOne();
         if constexpr (taskType == TaskType::IO_BOUND) {
             spinWait.spinOnce();
             spinWait.spinOnce();
@@ -340,7 +341,7 @@ public:
                 if (const auto nThreads = numThreads(); nThreads <= numTasksRunning() && nThreads <= _maxThreads) {
                     createWorkerThread();
                 }
-                _condition.notify_one();
+                wakeUpOne();
                 spinWait.spinOnce();
                 spinWait.spinOnce();
             }
@@ -371,6 +372,16 @@ public:
     }
 
 private:
+    void wakeUpOne() {
+        { std::scoped_lock lock(_conditionMutex); } // a worker is either before its check for work or already waiting
+        _condition.notify_one();
+    }
+
+    void wakeUpAll() {
+        { std::scoped_lock lock(_conditionMutex); }
+        _condition.notify_all();
+    }
+
     void cleanupFinishedThreads() {
         std::scoped_lock lock(_threadListMutex);
         // TODO:
@@ -474,8 +485,6 @@ private:
 #endif
         uint32_t           noop_counter = 0;
         const auto         threadID     = _numThreads.fetch_add(1);
-        std::mutex         mutex;
-        std::unique_lock   lock(mutex);
         auto               lastUsed = std::chrono::steady_clock::now();
         if (numThreads() >= _minThreads) {
             std::atomic_store_explicit(&_initialised, true, std::memory_order_release);
@@ -508,6 +517,7 @@ private:
                 noop_counter = noop_counter / 2;
                 cleanupFinishedThreads();
 
+                std::unique_lock lock(_conditionMutex);
                 _condition.wait_for(lock, keepAliveDuration, [this] { return numTasksQueued() > 0 || isShutdown(); });
             }
             // check if this thread is to be kept
-- 
2.43.0


From 5bf99581a1127bf650e9de10576e038ea3e0e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 065/121] fix: Transactions: the history cannot expire while it
 is searched or counted

---
 src/disruptor/include/Transactions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 607d586..f9497f8 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -117,7 +117,7 @@ public:
         _ringBuffer->addGatingSequences(std::vector{ _sequenceHead, _sequenceTail });
     }
     [[nodiscard]] std::size_t nHistory() const noexcept {
-        _historyLock.scopedGuard<ReaderWriterLockType::READ>();
+        auto guard = _historyLock.scopedGuard<ReaderWriterLockType::READ>();
         return static_cast<std::size_t>(_sequenceHead->value() - _sequenceTail->value() + 1);
     }
     ReaderWriterLock &historyLock() noexcept { return _historyLock; }
@@ -222,8 +222,8 @@ public:
     }
 
     [[nodiscard]] Node get(const TimeStamp &timeStamp) const {
-        auto lHead = _sequenceHead->value();
         auto guard = _historyLock.scopedGuard<ReaderWriterLockType::READ>(); // to prevent the writer/clean-up task to potentially expire a node at the tail
+        auto lHead = _sequenceHead->value();
         while ((*_ringBuffer)[lHead].validSince > timeStamp && lHead != _sequenceTail->value()) {
             lHead--;
         }
-- 
2.43.0


From dfd3a6e95e7f5cb1ec32ae5b57e1297c14882188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 066/121] fix: Transactions: settings that were recently used
 do not expire in place of others

---
 src/disruptor/include/Transactions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index f9497f8..0aaab67 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -305,7 +305,7 @@ public:
                 if ((*_ringBuffer)[tailPosition].lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
                     tailPosition = _sequenceTail->incrementAndGet();
                 } else {
-                    tailPosition++;
+                    break; // still in use, keeps also the more recent ones
                 }
             }
         }
-- 
2.43.0


From 5adb4dba24db16a08a3915a82cbc8ae8cc2d44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 067/121] fix: Transactions: the result of a context look-up
 does not refer to a temporary or to an expired setting

---
 src/disruptor/include/Transactions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 0aaab67..190a41c 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -47,7 +47,7 @@ struct TransactionResult {
 template<typename T>
 struct CtxResult {
     const TimingCtx           timingCtx;
-    const settings::node<T>  &settingValue;
+    const settings::node<T>   settingValue; // shares ownership of the value which may expire meanwhile
 
     explicit(false) constexpr operator TimingCtx const &() const noexcept { return timingCtx; }
     explicit(false) constexpr operator T const &() const noexcept { return settingValue; }
-- 
2.43.0


From fd4805f08d8cb964d51724e29d87ae2c6cd60f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 068/121] fix: Transactions: the list of staged settings is
 actually locked

---
 src/disruptor/include/Transactions.hpp | 68 +++++++++-----------------
 1 file changed, 22 insertions(+), 46 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 190a41c..f67bd7e 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -7,6 +7,7 @@
 #include <concepts>
 #include <functional>
 #include <list>
+#include <mutex>
 #include <unordered_map>
 #include <utility>
 
@@ -15,6 +16,7 @@
 #include <disruptor/RingBuffer.hpp>
 #include <opencmw.hpp>
 #include <ReaderWriterLock.hpp>
+#include <SpinWait.hpp>
 #include <TimingCtx.hpp>
 
 namespace opencmw {
@@ -99,7 +101,7 @@ requires(opencmw::is_power2_v<N_HISTORY> &&N_HISTORY > 8) class SettingBase {
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceHead = std::make_shared<Sequence>();
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceTail = std::make_shared<Sequence>(0);
     alignas(disruptor::kCacheLine) mutable ReaderWriterLock _historyLock{};
-    alignas(disruptor::kCacheLine) mutable std::atomic<bool> _transactionListLock{ false };
+    alignas(disruptor::kCacheLine) mutable AtomicMutex<> _transactionListLock;
     std::list<std::pair<TransactionToken, settings::node<T>>> _transactionList;
     alignas(disruptor::kCacheLine) const std::function<U(const U &, T &&)> _onCommit;
 
@@ -136,9 +138,7 @@ public:
             return { isCommitted, now };
         }
 
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
+        std::unique_lock lock(_transactionListLock);
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         if (auto it = std::ranges::find_if(_transactionList, [&transactionToken](const auto &pair) { return pair.first == transactionToken; }); it != _transactionList.end()) {
 #else
@@ -148,7 +148,7 @@ public:
         } else {
             _transactionList.push_back(std::make_pair(transactionToken, settings::node<T>(FWD(t))));
         }
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
+        lock.unlock();
 
         retireExpired();
         return { false, now };
@@ -159,36 +159,21 @@ public:
     }
 
     TransactionResult commit(const TransactionToken &transactionToken, const TimeStamp &now = std::chrono::system_clock::now()) {
-        bool expected  = false;
-        bool submitted = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
-
-#if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
-        const auto [first, last] = std::ranges::remove_if(_transactionList, [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
-            }
-            return false;
-        });
-#else
-        const auto first = std::remove_if(_transactionList.begin(), _transactionList.end(), [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
+        decltype(_transactionList) submitted;
+        {
+            std::scoped_lock lock(_transactionListLock);
+            for (auto it = _transactionList.begin(); it != _transactionList.end();) {
+                const auto current = it++;
+                if (transactionToken == NullToken<TransactionToken> || current->first == transactionToken) {
+                    submitted.splice(submitted.end(), _transactionList, current);
+                }
             }
-            return false;
-        });
-        const auto last  = _transactionList.end();
-#endif
-
-        _transactionList.erase(first, last);
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
+        }
+        for (auto &setting : submitted) {
+            commit(std::move(*setting.second.value), now);
+        }
 
-        return { submitted, now };
+        return { !submitted.empty(), now };
     }
 
     template<class Fn>
@@ -208,16 +193,13 @@ public:
 
     std::vector<TransactionToken> getPendingTransactions() const {
         std::vector<TransactionToken> result;
-        bool                          expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
+        std::scoped_lock              lock(_transactionListLock);
         result.reserve(_transactionList.size());
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         std::ranges::transform(_transactionList, std::back_inserter(result), [](const auto &setting) { return setting.first; });
 #else
         std::transform(_transactionList.begin(), _transactionList.end(), std::back_inserter(result), [](const auto &setting) { return setting.first; });
 #endif
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
         return result;
     }
 
@@ -248,10 +230,8 @@ public:
     }
 
     bool retireStaged(const TransactionToken &transactionToken = NullToken<TransactionToken>) {
-        bool retired  = false;
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-            ;
+        bool             retired = false;
+        std::scoped_lock lock(_transactionListLock);
 
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         auto [first, last] = std::ranges::remove_if(_transactionList, [&transactionToken, &retired, this](const auto &setting) {
@@ -272,7 +252,6 @@ public:
         auto last  = _transactionList.end();
 #endif
         _transactionList.erase(first, last);
-        std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
 
         return retired;
     }
@@ -280,9 +259,7 @@ public:
     void retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
         if (timeOutTransactions > 0) {
             // time-out old transactions
-            bool expected = false;
-            while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
-                ;
+            std::scoped_lock lock(_transactionListLock);
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
             const auto [first, last] = std::ranges::remove_if(_transactionList, [&now, this](const auto &setting) { return setting.second.lastAccess - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
 #else
@@ -290,7 +267,6 @@ public:
             const auto last  = _transactionList.end();
 #endif
             _transactionList.erase(first, last);
-            std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
         }
 
         auto guard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
-- 
2.43.0


From 1774ade252f4cbd1b13c77e511cc378915e03fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 069/121] fix: Transactions: concurrent commits neither get
 lost nor move the history backwards

---
 src/disruptor/include/Transactions.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index f67bd7e..a8e7428 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -101,6 +101,7 @@ requires(opencmw::is_power2_v<N_HISTORY> &&N_HISTORY > 8) class SettingBase {
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceHead = std::make_shared<Sequence>();
     alignas(disruptor::kCacheLine) std::shared_ptr<Sequence> _sequenceTail = std::make_shared<Sequence>(0);
     alignas(disruptor::kCacheLine) mutable ReaderWriterLock _historyLock{};
+    alignas(disruptor::kCacheLine) mutable AtomicMutex<> _writerLock; // one writer at a time derives the new from the latest setting
     alignas(disruptor::kCacheLine) mutable AtomicMutex<> _transactionListLock;
     std::list<std::pair<TransactionToken, settings::node<T>>> _transactionList;
     alignas(disruptor::kCacheLine) const std::function<U(const U &, T &&)> _onCommit;
@@ -126,13 +127,15 @@ public:
 
     TransactionResult stage(T &&t, const TransactionToken &transactionToken = NullToken<TransactionToken>, const TimeStamp &now = std::chrono::system_clock::now()) {
         if (transactionToken.empty()) {
-            const auto isCommitted = _ringBuffer->tryPublishEvent([&t, this, &now](Node &&eventData, std::int64_t sequence) {
+            std::unique_lock lock(_writerLock);
+            const auto       isCommitted = _ringBuffer->tryPublishEvent([&t, this, &now](Node &&eventData, std::int64_t sequence) {
                 const auto oldValue  = get();
                 eventData.value      = std::make_shared<U>(_onCommit(*oldValue.value, FWD(t)));
                 eventData.validSince = now;
                 eventData.lastAccess = now;
                 _sequenceHead->setValue(sequence);
             });
+            lock.unlock();
             retireExpired();
 
             return { isCommitted, now };
@@ -180,13 +183,15 @@ public:
     requires std::is_invocable_r_v<U, Fn &&, const U &>
     bool
     modifySetting(Fn &&modFunction, const TimeStamp &now = std::chrono::system_clock::now()) {
-        const auto result = _ringBuffer->tryPublishEvent([this, &modFunction, &now](Node &&eventData, std::int64_t sequence) {
+        std::unique_lock lock(_writerLock);
+        const auto       result = _ringBuffer->tryPublishEvent([this, &modFunction, &now](Node &&eventData, std::int64_t sequence) {
             const auto oldValue  = get();
             eventData.value      = std::make_shared<U>(modFunction(*oldValue.value));
             eventData.validSince = now;
             eventData.lastAccess = now;
             _sequenceHead->setValue(sequence);
         });
+        lock.unlock();
         retireExpired();
         return result;
     }
@@ -269,7 +274,8 @@ public:
             _transactionList.erase(first, last);
         }
 
-        auto guard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
+        std::scoped_lock lock(_writerLock);
+        auto             guard = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
         // expire old settings based on count
         while (_sequenceTail->value() != _sequenceHead->value() && (_sequenceHead->value() - _sequenceTail->value() > static_cast<std::int64_t>(N_HISTORY - BUFFER_MARGIN))) {
             [[maybe_unused]] auto unusedTail = _sequenceTail->incrementAndGet();
-- 
2.43.0


From 273a4410569042632b2ca8611b7e91b1cd8a313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 070/121] fix: Transactions: context settings without time-out
 do not expire and expire without changing maps in use

---
 src/disruptor/include/Transactions.hpp | 30 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index a8e7428..ff7bdc8 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -196,6 +196,17 @@ public:
         return result;
     }
 
+    /// exchanges the latest value without adding to the history
+    template<class Fn>
+    requires std::is_invocable_r_v<U, Fn &&, const U &>
+    void
+    amendLatest(Fn &&modFunction) {
+        std::scoped_lock lock(_writerLock);
+        auto             guard  = _historyLock.scopedGuard<ReaderWriterLockType::WRITE>();
+        auto            &latest = (*_ringBuffer)[_sequenceHead->value()];
+        latest.value            = std::make_shared<U>(modFunction(*latest.value));
+    }
+
     std::vector<TransactionToken> getPendingTransactions() const {
         std::vector<TransactionToken> result;
         std::scoped_lock              lock(_transactionListLock);
@@ -388,9 +399,14 @@ public:
     [[nodiscard]] std::size_t                   nCtxHistory(const std::int64_t idx = 0) const { return _setting.get(idx).value->size(); }
     [[nodiscard]] std::vector<TransactionToken> getPendingTransactions() const { return _setting.getPendingTransactions(); }
     void                                        retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
-        _setting.historyLock().template scopedGuard<ReaderWriterLockType::WRITE>();
         _setting.retireExpired(now);
-        retireOldSettings(*_setting.get().value, now);
+        if constexpr (timeOut > 0) {
+            _setting.amendLatest([&now](const std::unordered_map<TimingCtx, settings::node<T>> &oldSetting) {
+                auto newSetting = oldSetting;
+                std::erase_if(newSetting, [&now](const auto &pair) { return pair.second.lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }; });
+                return newSetting;
+            });
+        }
     }
     template<bool exactMatch = false>
     [[maybe_unused]] bool retire(const TimingCtx &ctx, const TimeStamp &now = std::chrono::system_clock::now()) {
@@ -446,16 +462,6 @@ private:
         }
         return { NullTimingCtx, settings::node<T>(T{}) }; // implicitly stored non-multiplexed value
     }
-
-    void retireOldSettings(auto &settingsMap, const TimeStamp &now = std::chrono::system_clock::now()) const noexcept {
-        for (auto it = settingsMap.begin(); it != settingsMap.end();) {
-            if (it->second.lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
-                it = settingsMap.erase(it);
-            } else {
-                ++it;
-            }
-        }
-    }
 };
 
 } // namespace opencmw
-- 
2.43.0


From de46fde1d6e085286b18b738780a1b81ef3df203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:32 +0000
Subject: [PATCH 071/121] fix: Transactions: the last access time is written by
 concurrent readers

---
 src/disruptor/include/Transactions.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index ff7bdc8..2bce89a 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -24,11 +24,19 @@ namespace opencmw {
 namespace settings {
 template<typename T>
 struct alignas(disruptor::kCacheLine) node {
-    using TimeStamp               = std::chrono::system_clock::time_point;
-    std::shared_ptr<T> value      = std::make_shared<T>();
-    TimeStamp          validSince = std::chrono::system_clock::now();
-    mutable TimeStamp  lastAccess = std::chrono::system_clock::now();
-    node()                        = default;
+    using TimeStamp                           = std::chrono::system_clock::time_point;
+    std::shared_ptr<T>             value      = std::make_shared<T>();
+    TimeStamp                      validSince = std::chrono::system_clock::now();
+    mutable std::atomic<TimeStamp> lastAccess = std::chrono::system_clock::now(); // concurrent readers touch the same node
+    node()                                    = default;
+    node(const node &other)
+        : value(other.value), validSince(other.validSince), lastAccess(other.lastAccess.load()) {}
+    node &operator=(const node &other) {
+        value      = other.value;
+        validSince = other.validSince;
+        lastAccess = other.lastAccess.load();
+        return *this;
+    }
     explicit node(T &&in)
         : value(std::make_shared<T>(FWD(in))){};
     constexpr void            touch() const noexcept { lastAccess = std::chrono::system_clock::now(); }
@@ -277,9 +285,9 @@ public:
             // time-out old transactions
             std::scoped_lock lock(_transactionListLock);
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
-            const auto [first, last] = std::ranges::remove_if(_transactionList, [&now, this](const auto &setting) { return setting.second.lastAccess - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
+            const auto [first, last] = std::ranges::remove_if(_transactionList, [&now, this](const auto &setting) { return setting.second.lastAccess.load() - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
 #else
-            const auto first = std::remove_if(_transactionList.begin(), _transactionList.end(), [&now, this](const auto &setting) { return setting.second.lastAccess - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
+            const auto first = std::remove_if(_transactionList.begin(), _transactionList.end(), [&now, this](const auto &setting) { return setting.second.lastAccess.load() - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
             const auto last  = _transactionList.end();
 #endif
             _transactionList.erase(first, last);
@@ -295,7 +303,7 @@ public:
         if constexpr (timeOut > 0) {
             auto tailPosition = _sequenceTail->value();
             while (tailPosition != _sequenceHead->value()) {
-                if ((*_ringBuffer)[tailPosition].lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
+                if ((*_ringBuffer)[tailPosition].lastAccess.load() - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
                     tailPosition = _sequenceTail->incrementAndGet();
                 } else {
                     break; // still in use, keeps also the more recent ones
@@ -403,7 +411,7 @@ public:
         if constexpr (timeOut > 0) {
             _setting.amendLatest([&now](const std::unordered_map<TimingCtx, settings::node<T>> &oldSetting) {
                 auto newSetting = oldSetting;
-                std::erase_if(newSetting, [&now](const auto &pair) { return pair.second.lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }; });
+                std::erase_if(newSetting, [&now](const auto &pair) { return pair.second.lastAccess.load() - now + TimeDiff{ timeOut } < TimeDiff{ 0 }; });
                 return newSetting;
             });
         }
-- 
2.43.0


From 5de44d02c963f418f2d48885ea2bb783cab365bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:06 +0000
Subject: [PATCH 072/121] fix: single-character frames release their buffer
 with delete[]

---
 src/zmq/include/zmq/ZmqUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index d50571b..0f4e8e2 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -236,7 +236,7 @@ public:
         zmq_msg_init_data(
                 &_message, copy, 1,
                 [](void * /*unused*/, void *bufOwned) {
-                    delete static_cast<char *>(bufOwned);
+                    delete[] static_cast<char *>(bufOwned);
                 },
                 copy);
     }
-- 
2.43.0


From d7d5f07b2fe56f2ec93c2a9082d8a09f72c0b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:06 +0000
Subject: [PATCH 073/121] fix: a failed receive does not leak the content of
 the message frame

---
 src/zmq/include/zmq/ZmqUtils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index 0f4e8e2..5f894e3 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -284,7 +284,9 @@ public:
     // Returns the number of received bytes
     Result<int> receive(const Socket &socket, int flags) {
         auto result = zmq::invoke(zmq_msg_recv, &_message, socket, flags);
-        _owning     = result.isValid();
+        if (result.isValid()) { // N.B. a failed receive leaves the present content in place
+            _owning = true;
+        }
         return result;
     }
 
-- 
2.43.0


From eeca96abfd0bab5afab4486841b80a02d4d8e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:06 +0000
Subject: [PATCH 074/121] fix: a message with a malformed topic frame is
 dropped, not an exception out of receive()

---
 src/zmq/include/zmq/ZmqUtils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index 5f894e3..c29db4e 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -444,7 +444,11 @@ template<mdp::MessageFormat Format>
     msg.command         = static_cast<mdp::Command>(commandStr[0]);
     msg.serviceName     = std::string(zmsg.frame(ZmqMessage<Format>::Frame::ServiceName).data());
     msg.clientRequestID = IoBuffer(clientRequestId.data(), clientRequestId.size());
-    msg.topic           = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    try {
+        msg.topic = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    } catch (const std::exception &) {
+        return {}; // malformed topic, drop message
+    }
     msg.data            = IoBuffer(data.data(), data.size());
     msg.error           = std::string(zmsg.frame(ZmqMessage<Format>::Frame::Error).data());
     msg.rbac            = IoBuffer(rbac.data(), rbac.size());
-- 
2.43.0


From 48ece819ce7e192c50551ab7c45e9bb7f7539b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:12 +0000
Subject: [PATCH 075/121] fix: a worker that announces itself twice is queued
 only once (use-after-free once it expired)

---
 src/majordomo/include/majordomo/Broker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c0c9e73..7c18a71 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -825,7 +825,10 @@ private:
         // TODO
         // waiting.addLast(worker);
         auto service = _services.find(worker.serviceName);
-        service->second.waiting.push_back(&worker);
+        auto &waiting = service->second.waiting;
+        if (std::find(waiting.begin(), waiting.end(), &worker) == waiting.end()) { // e.g. READY sent twice
+            waiting.push_back(&worker);
+        }
         worker.expiry = updatedWorkerExpiry();
         dispatch(service->second);
     }
-- 
2.43.0


From 9d04b18fe6816b812884efee4613c96389847e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:12 +0000
Subject: [PATCH 076/121] fix: a worker is free for the next request only after
 its final, not after a partial reply

---
 src/majordomo/include/majordomo/Broker.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 7c18a71..28c6707 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -985,6 +985,7 @@ private:
         case mdp::Command::Partial:
         case mdp::Command::Final: {
             if (knownWorker) {
+                const bool isFinal = message.command == mdp::Command::Final;
                 auto client = _clients.find(message.serviceName); // serviceName=clientSourceID
                 if (client == _clients.end()) {
                     return; // drop if client unknown/disappeared
@@ -1001,7 +1002,11 @@ private:
                     zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                 }
 
-                workerWaiting(worker);
+                if (isFinal) {
+                    workerWaiting(worker);
+                } else { // more to come, the worker is still busy
+                    worker.expiry = updatedWorkerExpiry();
+                }
             } else {
                 disconnectWorker(worker);
             }
-- 
2.43.0


From 120ba5ee77a9d1d1365f1eeccad334e3b82446db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:12 +0000
Subject: [PATCH 077/121] fix: a worker whose client has disappeared meanwhile
 is still free for further requests

---
 src/majordomo/include/majordomo/Broker.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 28c6707..0761bf7 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -987,19 +987,17 @@ private:
             if (knownWorker) {
                 const bool isFinal = message.command == mdp::Command::Final;
                 auto client = _clients.find(message.serviceName); // serviceName=clientSourceID
-                if (client == _clients.end()) {
-                    return; // drop if client unknown/disappeared
-                }
-
-                message.sourceId     = message.serviceName; // serviceName=clientSourceID
-                message.serviceName  = worker.serviceName;
-                message.protocolName = mdp::clientProtocol;
-                if (message.sourceId == kRestSourceId) {
-                    if (_restServer) {
-                        _restServer->handleResponse(std::move(message));
+                if (client != _clients.end()) { // drop reply if client unknown/disappeared
+                    message.sourceId     = message.serviceName; // serviceName=clientSourceID
+                    message.serviceName  = worker.serviceName;
+                    message.protocolName = mdp::clientProtocol;
+                    if (message.sourceId == kRestSourceId) {
+                        if (_restServer) {
+                            _restServer->handleResponse(std::move(message));
+                        }
+                    } else {
+                        zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                     }
-                } else {
-                    zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                 }
 
                 if (isFinal) {
-- 
2.43.0


From 6a269dcb139ed08e42c43e2888ba4b656eadfa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:12 +0000
Subject: [PATCH 078/121] fix: a client's time-out counts from its latest, not
 from its first request

---
 src/majordomo/include/majordomo/Broker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 0761bf7..912cf90 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -720,6 +720,7 @@ private:
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
+            client->second.expiry   = updatedClientExpiry();
             client->second.requests.emplace_back(std::move(message));
 
             return true;
-- 
2.43.0


From 68de723f383378bc525c2f87a32450107cee3d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:41 +0000
Subject: [PATCH 079/121] fix: broker processes all queued client requests
 before it waits for new events

---
 src/majordomo/include/majordomo/Broker.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 912cf90..e9a0476 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -516,7 +516,7 @@ public:
             anythingReceived |= receiveMessage(_subSocket);
             anythingReceived |= receivePubMessage(_pubSocket);
 
-            processClients();
+            anythingReceived |= processClients();
 
             if (loopCount % 10 == 0) { // perform maintenance task every 10th iteration
                 purgeWorkers();
@@ -851,13 +851,15 @@ private:
         }
     }
 
-    void processClients() {
+    bool processClients() { // returns whether any request was processed
+        bool anythingProcessed = false;
         for (auto &[senderId, client] : _clients) {
             if (client.requests.empty())
                 continue;
 
             auto clientMessage = std::move(client.requests.front());
             client.requests.pop_front();
+            anythingProcessed = true;
 
             if (auto service = bestMatchingService(clientMessage.serviceName)) {
                 if (service->internalHandler) {
@@ -873,7 +875,7 @@ private:
                     service->putMessage(std::move(clientMessage));
                     dispatch(*service);
                 }
-                return;
+                return true;
             }
 
             // not implemented -- reply according to Majordomo Management Interface (MMI) as defined in http://rfc.zeromq.org/spec:8
@@ -893,6 +895,7 @@ private:
                 zmq::send(std::move(reply), client.socket.value()).assertSuccess();
             }
         }
+        return anythingProcessed;
     }
 
     void purgeClients() {
-- 
2.43.0


From 6c48af360c3a16514a8310eb2347d11aac1640a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:41 +0000
Subject: [PATCH 080/121] fix: a worker unknown to the broker is told to
 reconnect instead of "broker shutdown", which makes it terminate

---
 src/majordomo/include/majordomo/Broker.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index e9a0476..9f15f02 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -542,7 +542,7 @@ public:
         while (it != _workers.end()) {
             auto &worker = it->second;
             ++it;
-            disconnectWorker(worker);
+            disconnectWorker(worker, "broker shutdown");
         }
     }
 
@@ -1010,7 +1010,7 @@ private:
                     worker.expiry = updatedWorkerExpiry();
                 }
             } else {
-                disconnectWorker(worker);
+                disconnectWorker(worker, "unknown worker");
             }
             break;
         }
@@ -1026,7 +1026,7 @@ private:
             if (knownWorker) {
                 worker.expiry = updatedWorkerExpiry();
             } else {
-                disconnectWorker(worker);
+                disconnectWorker(worker, "unknown worker");
             }
         default:
             break;
@@ -1043,13 +1043,13 @@ private:
         _workers.erase(worker.id);
     }
 
-    void disconnectWorker(Worker &worker) {
+    void disconnectWorker(Worker &worker, std::string_view reason) {
         BrokerMessage disconnect;
         disconnect.protocolName = mdp::workerProtocol;
         disconnect.command      = mdp::Command::Disconnect;
         disconnect.sourceId     = worker.id;
         disconnect.serviceName  = worker.serviceName;
-        disconnect.data         = IoBuffer("broker shutdown");
+        disconnect.data         = IoBuffer(reason.data(), reason.size());
         disconnect.rbac         = _rbac;
         zmq::send(std::move(disconnect), worker.socket).assertSuccess();
         deleteWorker(worker);
-- 
2.43.0


From 430c58d9b92edfb7e31b1d688221b9502971c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:40 +0000
Subject: [PATCH 081/121] fix: only a READY registers a worker, messages of
 unknown workers no longer leave half-registered entries behind

---
 src/majordomo/include/majordomo/Broker.hpp | 34 ++++++++++++++--------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 9f15f02..6ea3c28 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -542,7 +542,7 @@ public:
         while (it != _workers.end()) {
             auto &worker = it->second;
             ++it;
-            disconnectWorker(worker, "broker shutdown");
+            disconnectWorker(worker);
         }
     }
 
@@ -966,13 +966,16 @@ private:
 
     void processWorker(const zmq::Socket &socket, BrokerMessage &&message) {
         const auto &serviceId   = message.sourceId;
-        const auto  knownWorker = _workers.contains(serviceId);
-        auto       &worker      = _workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first->second;
+        auto        workerIt    = _workers.find(serviceId);
+        const auto  knownWorker = workerIt != _workers.end();
 
         switch (message.command) {
         case mdp::Command::Ready: {
             std::ignore = requireService(message.serviceName, std::string(message.data.asString()));
-            workerWaiting(worker);
+            if (!knownWorker) { // only workers that announced themselves are registered
+                workerIt = _workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first;
+            }
+            workerWaiting(workerIt->second);
             registerNewService(message.serviceName);
             // notify potential listeners
             BrokerMessage notify;
@@ -989,6 +992,7 @@ private:
         case mdp::Command::Partial:
         case mdp::Command::Final: {
             if (knownWorker) {
+                auto      &worker  = workerIt->second;
                 const bool isFinal = message.command == mdp::Command::Final;
                 auto client = _clients.find(message.serviceName); // serviceName=clientSourceID
                 if (client != _clients.end()) { // drop reply if client unknown/disappeared
@@ -1010,23 +1014,25 @@ private:
                     worker.expiry = updatedWorkerExpiry();
                 }
             } else {
-                disconnectWorker(worker, "unknown worker");
+                sendDisconnect(socket, message.sourceId, message.serviceName, "unknown worker");
             }
             break;
         }
         case mdp::Command::Notify: {
             message.protocolName = mdp::clientProtocol;
             message.command      = mdp::Command::Final;
-            message.serviceName  = worker.serviceName;
+            if (knownWorker) {
+                message.serviceName = workerIt->second.serviceName;
+            }
 
             dispatchMessageToMatchingSubscribers(std::move(message));
             break;
         }
         case mdp::Command::Heartbeat:
             if (knownWorker) {
-                worker.expiry = updatedWorkerExpiry();
+                workerIt->second.expiry = updatedWorkerExpiry();
             } else {
-                disconnectWorker(worker, "unknown worker");
+                sendDisconnect(socket, message.sourceId, message.serviceName, "unknown worker");
             }
         default:
             break;
@@ -1043,15 +1049,19 @@ private:
         _workers.erase(worker.id);
     }
 
-    void disconnectWorker(Worker &worker, std::string_view reason) {
+    void sendDisconnect(const zmq::Socket &socket, const std::string &workerId, const std::string &workerServiceName, std::string_view reason) {
         BrokerMessage disconnect;
         disconnect.protocolName = mdp::workerProtocol;
         disconnect.command      = mdp::Command::Disconnect;
-        disconnect.sourceId     = worker.id;
-        disconnect.serviceName  = worker.serviceName;
+        disconnect.sourceId     = workerId;
+        disconnect.serviceName  = workerServiceName;
         disconnect.data         = IoBuffer(reason.data(), reason.size());
         disconnect.rbac         = _rbac;
-        zmq::send(std::move(disconnect), worker.socket).assertSuccess();
+        zmq::send(std::move(disconnect), socket).assertSuccess();
+    }
+
+    void disconnectWorker(Worker &worker) {
+        sendDisconnect(worker.socket, worker.id, worker.serviceName, "broker shutdown");
         deleteWorker(worker);
     }
 
-- 
2.43.0


From 348b51de4b32c21cec724e8d041df0d50c1de653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:15 +0000
Subject: [PATCH 082/121] fix: broker hands only GET and SET requests of
 clients to the workers, e.g. no DISCONNECT

---
 src/majordomo/include/majordomo/Broker.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 6ea3c28..c5a841b 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -712,11 +712,14 @@ private:
                 }
                 return true;
             }
+            case mdp::Command::Get:
+            case mdp::Command::Set:
+                break;
             case mdp::Command::Heartbeat:
                 sendDnsHeartbeats(true);
-                break;
+                return true;
             default:
-                break;
+                return true; // not a request: must reach neither the workers nor the internal services
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
-- 
2.43.0


From 82fbfd5b8c589bc3ef07de7d81c0c294c947ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:51 +0000
Subject: [PATCH 083/121] fix: subscriptions of SUB sockets are not counted
 once per subscriber although only the last cancellation is reported

---
 src/majordomo/include/majordomo/Broker.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c5a841b..5af7671 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -393,8 +393,6 @@ public:
         zmq::invoke(zmq_bind, _subSocket, INTERNAL_ADDRESS_SUBSCRIBE.str().data()).assertSuccess();
 
         zmq::initializeSocket(_pubSocket, settings).assertSuccess();
-        int verbose = 1;
-        zmq::invoke(zmq_setsockopt, _pubSocket, ZMQ_XPUB_VERBOSE, &verbose, sizeof(verbose)).assertSuccess();
         zmq::invoke(zmq_bind, _pubSocket, INTERNAL_ADDRESS_PUBLISHER.str().data()).assertSuccess();
 
         zmq::initializeSocket(_dnsSocket, settings).assertSuccess();
-- 
2.43.0


From 7e3be0940daa281cecde423bd98170b06b5c60f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:51 +0000
Subject: [PATCH 084/121] fix: a client's repeated subscription or unfounded
 cancellation no longer changes the subscriptions of others

---
 src/majordomo/include/majordomo/Broker.hpp | 43 +++++++++++-----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 5af7671..3570463 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -582,6 +582,23 @@ private:
         }
     }
 
+    void subscribeClient(const mdp::Topic &topic, const std::string &clientId) {
+        if (_subscribedClientsByTopic[topic].insert(clientId).second) { // a repeated subscription must not be counted twice
+            subscribe(topic);
+        }
+    }
+
+    void unsubscribeClient(const mdp::Topic &topic, const std::string &clientId) {
+        auto it = _subscribedClientsByTopic.find(topic);
+        if (it == _subscribedClientsByTopic.end() || it->second.erase(clientId) == 0) {
+            return; // never subscribed, must not cancel the subscription of others
+        }
+        if (it->second.empty()) {
+            _subscribedClientsByTopic.erase(it);
+        }
+        unsubscribe(topic);
+    }
+
     bool receivePubMessage(const zmq::Socket &socket) {
         zmq::MessageFrame frame;
         const auto        result = frame.receive(socket, ZMQ_DONTWAIT);
@@ -630,9 +647,7 @@ private:
                 return;
             }
 
-            subscribe(subscription);
-            auto [it, inserted] = _subscribedClientsByTopic.try_emplace(subscription);
-            it->second.emplace(message.sourceId);
+            subscribeClient(subscription, message.sourceId);
         } break;
         case mdp::Command::Unsubscribe: {
             mdp::Topic subscription;
@@ -643,14 +658,7 @@ private:
                 return;
             }
 
-            unsubscribe(subscription);
-            auto it = _subscribedClientsByTopic.find(subscription);
-            if (it != _subscribedClientsByTopic.end()) {
-                it->second.erase(message.sourceId);
-                if (it->second.empty()) {
-                    _subscribedClientsByTopic.erase(it);
-                }
-            }
+            unsubscribeClient(subscription, message.sourceId);
         } break;
         default:
             break;
@@ -686,9 +694,7 @@ private:
                     return false;
                 }
 
-                subscribe(*subscription);
-                auto [it, inserted] = _subscribedClientsByTopic.try_emplace(*subscription);
-                it->second.emplace(message.sourceId);
+                subscribeClient(*subscription, message.sourceId);
                 return true;
             }
             case mdp::Command::Unsubscribe: {
@@ -700,14 +706,7 @@ private:
                     return false;
                 }
 
-                unsubscribe(*subscription);
-                auto it = _subscribedClientsByTopic.find(*subscription);
-                if (it != _subscribedClientsByTopic.end()) {
-                    it->second.erase(message.sourceId);
-                    if (it->second.empty()) {
-                        _subscribedClientsByTopic.erase(it);
-                    }
-                }
+                unsubscribeClient(*subscription, message.sourceId);
                 return true;
             }
             case mdp::Command::Get:
-- 
2.43.0


From 05cd72978b58b35542c67e40b2504167fa0cfeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:16 +0000
Subject: [PATCH 085/121] fix: subscribers of /mmi.service are notified of a
 new worker, as a valid client message and on the topic they subscribed to

---
 src/majordomo/include/majordomo/Broker.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 3570463..1a3cc14 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -979,11 +979,12 @@ private:
             registerNewService(message.serviceName);
             // notify potential listeners
             BrokerMessage notify;
+            notify.protocolName    = mdp::clientProtocol;
+            notify.command         = mdp::Command::Final;
             notify.serviceName     = INTERNAL_SERVICE_NAMES;
             notify.topic           = INTERNAL_SERVICE_NAMES_URI;
             notify.clientRequestID = IoBuffer(brokerName.data(), brokerName.size());
-            notify.sourceId        = INTERNAL_SERVICE_NAMES;
-            zmq::send(std::move(notify), _pubSocket).assertSuccess();
+            dispatchMessageToMatchingSubscribers(std::move(notify));
             break;
         }
         case mdp::Command::Disconnect:
-- 
2.43.0


From 95a2099666b505e0287436a6eb65f054a3102aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:21 +0000
Subject: [PATCH 086/121] fix: an internal service that cannot handle a request
 replies with an error instead of terminating the broker

---
 src/majordomo/include/majordomo/Broker.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 1a3cc14..b9f7dec 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -863,7 +863,15 @@ private:
 
             if (auto service = bestMatchingService(clientMessage.serviceName)) {
                 if (service->internalHandler) {
-                    auto reply = service->internalHandler(std::move(clientMessage));
+                    BrokerMessage reply;
+                    try {
+                        reply = service->internalHandler(std::move(clientMessage));
+                    } catch (const std::exception &e) { // e.g. malformed URI in the request
+                        reply         = std::move(clientMessage);
+                        reply.command = mdp::Command::Final;
+                        reply.data.clear();
+                        reply.error = e.what();
+                    }
                     if (client.id == kRestSourceId) {
                         if (_restServer) {
                             _restServer->handleResponse(std::move(reply));
-- 
2.43.0


From b960e62f573822016be42e363f650ad4edc75bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:21 +0000
Subject: [PATCH 087/121] fix: a worker announcing an invalid service name,
 e.g. '/', does not intercept the requests to all services

---
 src/majordomo/include/majordomo/Broker.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index b9f7dec..6b4087a 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -979,6 +979,9 @@ private:
 
         switch (message.command) {
         case mdp::Command::Ready: {
+            if (!mdp::isValidServiceName(message.serviceName)) {
+                break; // e.g. "/" would match every request
+            }
             std::ignore = requireService(message.serviceName, std::string(message.data.asString()));
             if (!knownWorker) { // only workers that announced themselves are registered
                 workerIt = _workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first;
-- 
2.43.0


From 0a0455abed60165509d9d4a3f8f730b0f71bef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:35 +0000
Subject: [PATCH 088/121] fix: a notification with a malformed topic does not
 terminate the worker

---
 src/majordomo/include/majordomo/Worker.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 8a7e757..75b3a4c 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -279,7 +279,12 @@ private:
 
     bool receiveNotificationMessage() {
         if (auto message = zmq::receive<mdp::MessageFormat::WithoutSourceId>(_notifyListenerSocket)) {
-            const auto currentSubscription      = mdp::Topic::fromMdpTopic(message->topic);
+            mdp::Topic currentSubscription;
+            try {
+                currentSubscription = mdp::Topic::fromMdpTopic(message->topic);
+            } catch (...) {
+                return true; // malformed topic, nobody can be subscribed to it
+            }
 
             const auto matchesNotificationTopic = [this, &currentSubscription](const auto &activeSubscription) {
                 return _subscriptionMatcher(currentSubscription, activeSubscription);
-- 
2.43.0


From 8f85dcd3dcf130fd2568c125aac081fb04a4a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 089/121] fix: notification sockets are not closed while a
 thread sends through them

---
 src/majordomo/include/majordomo/Worker.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 75b3a4c..e1a7fb7 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -141,7 +141,7 @@ public:
         message.command      = mdp::Command::Notify;
         message.serviceName  = serviceName.data(); // TODO unnecessary copy
         message.rbac         = _defaultRbacToken;
-        return notificationHandlerForThisThread().send(std::move(message));
+        return sendNotification(std::move(message));
     }
 
     void disconnect() {
@@ -194,24 +194,27 @@ private:
         return std::format("inproc://workers{}-{}/notify", name, worker_detail::nextWorkerId());
     }
 
-    NotificationHandler &notificationHandlerForThisThread() {
+    bool sendNotification(mdp::Message &&message) { // the lock is held while sending, so that the handler in use is not cleaned up
         const auto threadId = std::this_thread::get_id();
         {
             const std::shared_lock readLock(_notificationHandlersLock); // optimistic read -- thread is known/already initialised
-            if (_notificationHandlers.contains(threadId)) {
-                return _notificationHandlers.at(threadId);
+            if (const auto it = _notificationHandlers.find(threadId); it != _notificationHandlers.end()) {
+                return it->second.send(std::move(message));
             }
         }
         const std::unique_lock writeLock(_notificationHandlersLock); // nothing found -> need to allocate/initialise new socket
         _notificationHandlers.emplace(std::piecewise_construct, std::forward_as_tuple(threadId), std::forward_as_tuple(_context, _notifyAddress));
-        return _notificationHandlers.at(threadId);
+        return _notificationHandlers.at(threadId).send(std::move(message));
     }
 
     void cleanupNotificationHandlers() {
-        const auto      expiryThreshold = Clock::now() - std::chrono::seconds(30); // cleanup unused handlers every 30 seconds -- TODO: move this to Settings
-        std::lock_guard lock{ _notificationHandlersLock };
+        const auto       expiryThreshold = Clock::now() - std::chrono::seconds(30); // cleanup unused handlers every 30 seconds -- TODO: move this to Settings
+        std::unique_lock lock{ _notificationHandlersLock, std::try_to_lock };
+        if (!lock.owns_lock()) {
+            return; // handlers are being used, try again with the next heartbeat
+        }
 
-        auto            isExpired = [&expiryThreshold](const auto &p) {
+        auto             isExpired = [&expiryThreshold](const auto &p) {
             return p.second.lastUsed < expiryThreshold;
         };
 
-- 
2.43.0


From bbc6b063aeb4555abac40ce53a4bc320c811c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:07 +0000
Subject: [PATCH 090/121] fix: client poll thread starts after the data it uses
 is initialised and ends before it is destroyed

---
 src/client/include/Client.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 87e383a..4245969 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -339,20 +339,20 @@ class MDClientCtx : public ClientBase {
     const zmq::Context                                            &_zctx;
     zmq::Socket                                                    _control_socket_send;
     zmq::Socket                                                    _control_socket_recv;
-    std::jthread                                                   _poller;
     std::vector<zmq_pollitem_t>                                    _pollitems{};
     std::unordered_map<std::size_t, Request>                       _requests;
     std::unordered_map<std::string, Subscription>                  _subscriptions;
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
     std::size_t                                                    _request_id = 0;
+    std::jthread                                                   _poller; // last member: uses the others
 
 public:
     explicit MDClientCtx(const zmq::Context &zeromq_context, const timeUnit timeout = 1s, std::string clientId = "") // todo: also pass thread pool
         : _zctx{ zeromq_context }, _control_socket_send(zeromq_context, ZMQ_PAIR), _control_socket_recv(zeromq_context, ZMQ_PAIR), _timeout(timeout), _clientId(std::move(clientId)) {
-        _poller = std::jthread([this](const std::stop_token &stoken) { this->poll(stoken); });
         zmq::invoke(zmq_bind, _control_socket_send, "inproc://mdclientControlSocket").assertSuccess();
         _pollitems.push_back({ .socket = _control_socket_recv.zmq_ptr, .fd = 0, .events = ZMQ_POLLIN, .revents = 0 });
+        _poller = std::jthread([this](const std::stop_token &stoken) { this->poll(stoken); });
     }
 
     std::vector<std::string> protocols() override {
-- 
2.43.0


From 8b3d8ebb570790a234402c3e0062d288d79b7e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:07 +0000
Subject: [PATCH 091/121] fix: notifications and replies without request id are
 not delivered to the callback of the first request

---
 src/client/include/Client.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 4245969..d125863 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -136,8 +136,8 @@ public:
         if (message.command == mdp::Command::Notify || message.command == mdp::Command::Final) {
             message.arrivalTime     = std::chrono::system_clock::now();
             const auto requestId_sv = message.clientRequestID.asString();
-            if (auto result = std::from_chars(requestId_sv.data(), requestId_sv.data() + requestId_sv.size(), message.id); result.ec == std::errc::invalid_argument || result.ec == std::errc::result_out_of_range) {
-                message.id = 0;
+            if (auto result = std::from_chars(requestId_sv.data(), requestId_sv.data() + requestId_sv.size(), message.id); message.command != mdp::Command::Final || result.ec == std::errc::invalid_argument || result.ec == std::errc::result_out_of_range) {
+                message.id = 0; // not a reply to any request
             }
             return true;
         }
@@ -344,7 +344,7 @@ class MDClientCtx : public ClientBase {
     std::unordered_map<std::string, Subscription>                  _subscriptions;
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
-    std::size_t                                                    _request_id = 0;
+    std::size_t                                                    _request_id = 1; // 0: not a request
     std::jthread                                                   _poller; // last member: uses the others
 
 public:
-- 
2.43.0


From fa1e0ddf283c40363d1a4cfd49f76a7954acb5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:07 +0000
Subject: [PATCH 092/121] fix: other messages than notifications do not repeat
 the last notification to the subscription client's callback

---
 src/client/include/Client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index d125863..0f4e85f 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -288,7 +288,7 @@ public:
             output.id              = 0; // review if this is still needed
             return true;
         }
-        return true;
+        return false;
     }
 
     bool receive(mdp::Message &msg) override {
-- 
2.43.0


From ffd7eb6b2f9f96016d86f87ec88a3f64d4e1b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:06 +0000
Subject: [PATCH 093/121] fix: notifications go to the callback of the latest
 subscription at that broker and to none after its cancellation

---
 src/client/include/Client.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 0f4e85f..d5908cd 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -360,11 +360,11 @@ public:
     }
 
     std::unique_ptr<MDClientBase> &getClient(const URI<STRICT> &uri) {
-        auto baseUri = URI<STRICT>::factory(uri).setQuery({}).path("").fragment("").build();
-        if (_clients.contains(baseUri)) {
-            return _clients.at(baseUri);
+        const auto clientUri = baseUri(uri);
+        if (_clients.contains(clientUri)) {
+            return _clients.at(clientUri);
         }
-        auto [it, ins] = _clients.emplace(baseUri, createClient(baseUri));
+        auto [it, ins] = _clients.emplace(clientUri, createClient(clientUri));
         if (!ins) {
             throw std::logic_error("could not insert client into client list\n");
         }
@@ -394,15 +394,20 @@ public:
                 _requests.insert({ req_id, Request{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             } else if (cmd.command == mdp::Command::Subscribe) {
                 req_id = _request_id++;
-                _subscriptions.insert({ mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic(), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
-            } else if (cmd.command == mdp::Command::Unsubscribe) {
-                _requests.erase(0); // todo: lookup correct subscription
+                _subscriptions.insert_or_assign(subscriptionKey(baseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime });
             }
         }
+        if (cmd.command == mdp::Command::Unsubscribe) {
+            _subscriptions.erase(subscriptionKey(baseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()));
+        }
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
     }
 
 private:
+    static URI<STRICT> baseUri(const URI<STRICT> &uri) { return URI<STRICT>::factory(uri).setQuery({}).path("").fragment("").build(); }
+
+    static std::string subscriptionKey(const URI<STRICT> &clientUri, std::string_view zmqTopic) { return std::string(clientUri.str()).append(zmqTopic); } // same topic may be subscribed at several brokers
+
     void sendCmd(const URI<STRICT> &uri, mdp::Command commandType, std::size_t req_id, IoBuffer data = {}) const {
         const bool        isSet = commandType == mdp::Command::Set;
         zmq::MessageFrame cmdType{ std::string{ static_cast<char>(commandType) } };
@@ -462,8 +467,8 @@ private:
             for (const auto &[uri, client] : _clients) {
                 mdp::Message receivedEvent;
                 while (client->receive(receivedEvent)) {
-                    if (_subscriptions.contains(receivedEvent.serviceName)) {
-                        _subscriptions.at(receivedEvent.serviceName).callback(receivedEvent); // callback
+                    if (const auto subscription = _subscriptions.find(subscriptionKey(uri, receivedEvent.serviceName)); subscription != _subscriptions.end()) {
+                        subscription->second.callback(receivedEvent); // callback
                     }
                     if (_requests.contains(receivedEvent.id)) {
                         _requests.at(receivedEvent.id).callback(receivedEvent); // callback
-- 
2.43.0


From 423cbda81b7e38f03de37cbb1b6cc70ba5a9f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:07 +0000
Subject: [PATCH 094/121] fix: client requests and subscriptions are registered
 and looked up under a lock by the user's and the poll thread

---
 src/client/include/Client.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index d5908cd..a2dc886 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -7,6 +7,7 @@
 #include <chrono>
 #include <ClientContext.hpp>
 #include <MdpMessage.hpp>
+#include <mutex>
 #include <opencmw.hpp>
 #include <Topic.hpp>
 #include <URI.hpp>
@@ -340,6 +341,7 @@ class MDClientCtx : public ClientBase {
     zmq::Socket                                                    _control_socket_send;
     zmq::Socket                                                    _control_socket_recv;
     std::vector<zmq_pollitem_t>                                    _pollitems{};
+    std::mutex                                                     _callbacksLock; // guards _requests and _subscriptions
     std::unordered_map<std::size_t, Request>                       _requests;
     std::unordered_map<std::string, Subscription>                  _subscriptions;
     timeUnit                                                       _timeout;
@@ -389,6 +391,7 @@ public:
     void request(Command cmd) override {
         std::size_t req_id = 0;
         if (cmd.callback) {
+            const std::lock_guard lock(_callbacksLock);
             if (cmd.command == mdp::Command::Get || cmd.command == mdp::Command::Set) {
                 req_id = _request_id++;
                 _requests.insert({ req_id, Request{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
@@ -398,6 +401,7 @@ public:
             }
         }
         if (cmd.command == mdp::Command::Unsubscribe) {
+            const std::lock_guard lock(_callbacksLock);
             _subscriptions.erase(subscriptionKey(baseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()));
         }
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
@@ -467,12 +471,22 @@ private:
             for (const auto &[uri, client] : _clients) {
                 mdp::Message receivedEvent;
                 while (client->receive(receivedEvent)) {
-                    if (const auto subscription = _subscriptions.find(subscriptionKey(uri, receivedEvent.serviceName)); subscription != _subscriptions.end()) {
-                        subscription->second.callback(receivedEvent); // callback
+                    std::function<void(mdp::Message &)> onNotification;
+                    std::function<void(mdp::Message &)> onReply;
+                    {
+                        const std::lock_guard lock(_callbacksLock);
+                        if (const auto subscription = _subscriptions.find(subscriptionKey(uri, receivedEvent.serviceName)); subscription != _subscriptions.end()) {
+                            onNotification = subscription->second.callback;
+                        }
+                        if (auto request = _requests.extract(receivedEvent.id)) {
+                            onReply = std::move(request.mapped().callback);
+                        }
                     }
-                    if (_requests.contains(receivedEvent.id)) {
-                        _requests.at(receivedEvent.id).callback(receivedEvent); // callback
-                        _requests.erase(receivedEvent.id);
+                    if (onNotification) {
+                        onNotification(receivedEvent);
+                    }
+                    if (onReply) {
+                        onReply(receivedEvent);
                     }
                     // perform housekeeping duties if necessary
                     if (auto now = std::chrono::system_clock::now(); nextHousekeeping < now) {
-- 
2.43.0


From 81866cc87ea1ae120225120a02c3835eab573b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:54 +0000
Subject: [PATCH 095/121] fix: requests that cannot be carried out are reported
 to their callback instead of terminating the client

---
 src/client/include/Client.hpp        | 54 ++++++++++++++++++++--------
 src/client/include/ClientContext.hpp | 22 ++++++++----
 2 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index a2dc886..fa653e4 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -437,26 +437,50 @@ private:
             if (!endpoint.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
                 throw std::logic_error("invalid request received: invalid message contents");
             }
-            URI<STRICT> uri{ std::string(endpoint.data()) };
-            auto       &client = getClient(uri);
+            zmq::MessageFrame data;
             if (cmd.data().size() != 1) {
                 throw std::logic_error("invalid request received: wrong number of frames");
-            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Get)) {
-                client->get(uri, reqId.data());
-            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Set)) {
-                zmq::MessageFrame data;
-                if (!data.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
-                    throw std::logic_error("missing set str");
+            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Set) && !data.receive(_control_socket_recv, ZMQ_DONTWAIT).isValid()) {
+                throw std::logic_error("missing set str");
+            }
+            try {
+                URI<STRICT> uri{ std::string(endpoint.data()) };
+                auto       &client = getClient(uri);
+                if (cmd.data()[0] == static_cast<char>(mdp::Command::Get)) {
+                    client->get(uri, reqId.data());
+                } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Set)) {
+                    client->set(uri, reqId.data(), as_bytes(std::span(data.data().data(), data.data().size())));
+                } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Subscribe)) {
+                    client->subscribe(uri, reqId.data());
+                } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Unsubscribe)) {
+                    client->unsubscribe(uri, reqId.data());
+                } else {
+                    throw std::logic_error("invalid request received"); // messages always consist of 2 frames
                 }
-                client->set(uri, reqId.data(), as_bytes(std::span(data.data().data(), data.data().size())));
-            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Subscribe)) {
-                client->subscribe(uri, reqId.data());
-            } else if (cmd.data()[0] == static_cast<char>(mdp::Command::Unsubscribe)) {
-                client->unsubscribe(uri, reqId.data());
-            } else {
-                throw std::logic_error("invalid request received"); // messages always consist of 2 frames
+            } catch (const std::exception &e) { // must not end the poll thread
+                reportFailure(reqId.data(), e.what());
+            }
+        }
+    }
+
+    void reportFailure(std::string_view requestId, std::string_view error) {
+        std::size_t id = 0;
+        std::from_chars(requestId.data(), requestId.data() + requestId.size(), id);
+        std::function<void(mdp::Message &)> onReply;
+        {
+            const std::lock_guard lock(_callbacksLock);
+            if (auto request = _requests.extract(id)) {
+                onReply = std::move(request.mapped().callback);
             }
         }
+        if (onReply) {
+            mdp::Message reply;
+            reply.id    = id;
+            reply.error = error;
+            onReply(reply);
+        } else {
+            std::print(stderr, "client request failed: {}\n", error);
+        }
     }
 
     void poll(const std::stop_token &stoken) {
diff --git a/src/client/include/ClientContext.hpp b/src/client/include/ClientContext.hpp
index 0e917a3..539f439 100644
--- a/src/client/include/ClientContext.hpp
+++ b/src/client/include/ClientContext.hpp
@@ -87,16 +87,26 @@ private:
                 if (cmd.command == mdp::Command::Invalid) {
                     return false;
                 }
-                auto &c = getClientCtx(cmd.topic);
+                try {
+                    auto &c = getClientCtx(cmd.topic);
 #ifdef EMSCRIPTEN
-                // this is necessary for fetches to actually be called, as the new thread will start/init/end and then go into js runtime to fetch
-                std::thread ql{ [&c, cmd]() {
+                    // this is necessary for fetches to actually be called, as the new thread will start/init/end and then go into js runtime to fetch
+                    std::thread ql{ [&c, cmd]() {
 #endif
-                    c.request(cmd);
+                        c.request(cmd);
 #ifdef EMSCRIPTEN
-                } };
-                ql.join();
+                    } };
+                    ql.join();
 #endif
+                } catch (const std::exception &e) { // must not end the poller thread
+                    if (cmd.callback) {
+                        mdp::Message reply;
+                        reply.error = e.what();
+                        cmd.callback(reply);
+                    } else {
+                        std::print(stderr, "client request failed: {}\n", e.what());
+                    }
+                }
                 return false;
             });
         }
-- 
2.43.0


From 9f02ffe5f5c2fe136cfe5b1cd3cd54f6d0522ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:17 +0000
Subject: [PATCH 096/121] fix: skipping CmwLight data with malformed element
 counts neither overflows, runs backwards nor loops over missing data

---
 .../include/IoSerialiserCmwLight.hpp          | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index a1aa52a..4c0c8d4 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -19,14 +19,25 @@ namespace cmwlight {
 
 void skipString(IoBuffer &buffer);
 
+inline void skipElements(IoBuffer &buffer, const int32_t count, const std::size_t elementSize) {
+    const std::size_t available = buffer.position() < buffer.size() ? buffer.size() - buffer.position() : 0UL;
+    if (count < 0 || static_cast<std::size_t>(count) > available / elementSize) {
+        throw ProtocolException("{} elements of {} bytes exceed the {} bytes left in the buffer", count, elementSize, available);
+    }
+    buffer.set_position(buffer.position() + static_cast<std::size_t>(count) * elementSize);
+}
+
 template<typename T>
 void skipRawArray(IoBuffer &buffer) {
     if constexpr (is_stringlike<T>) {
         for (auto i = buffer.get<int32_t>(); i > 0; i--) {
+            if (buffer.position() >= buffer.size()) {
+                throw ProtocolException("{} strings of an array are missing", i);
+            }
             skipString(buffer);
         }
     } else {
-        buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(T)));
+        skipElements(buffer, buffer.get<int32_t>(), sizeof(T));
     }
 }
 
@@ -40,8 +51,8 @@ inline void skipString(IoBuffer &buffer) { skipRawArray<char>(buffer); }
 
 template<typename T>
 void skipMultiArray(IoBuffer &buffer) {
-    buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(int32_t))); // skip size header
-    skipRawArray<T>(buffer);                                                      // skip elements
+    skipElements(buffer, buffer.get<int32_t>(), sizeof(int32_t)); // skip size header
+    skipRawArray<T>(buffer);                                      // skip elements
 }
 
 template<typename T>
@@ -325,6 +336,9 @@ struct IoSerialiser<CmwLight, OTHER> {
         else if (typeId == IoSerialiser<CmwLight, START_MARKER>::getDataTypeId()) {
             buffer.set_position(field.dataStartPosition);
             for (auto remaining = buffer.get<int32_t>(); remaining > 0; --remaining) {
+                if (buffer.position() >= buffer.size()) {
+                    throw ProtocolException("{} members of a nested structure are missing", remaining);
+                }
                 FieldDescriptionShort subField{ .headerStart = buffer.position(), .fieldName = buffer.get<std::string_view>(), .intDataType = buffer.get<uint8_t>() };
                 subField.dataStartPosition = buffer.position();
                 deserialise(buffer, subField, OTHER_INST);
-- 
2.43.0


From 2c38e44c04e2851dccff34b1ed0eabee6bdf8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:17 +0000
Subject: [PATCH 097/121] fix: the product of malformed CmwLight array
 dimensions does not overflow

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 4c0c8d4..ec31634 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -141,8 +141,8 @@ struct IoSerialiser<CmwLight, T> {
     }
 
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
-        const int nx = buffer.get<int32_t>();
-        const int ny = buffer.get<int32_t>();
+        const auto nx = static_cast<std::size_t>(std::max(0, buffer.get<int32_t>()));
+        const auto ny = static_cast<std::size_t>(std::max(0, buffer.get<int32_t>()));
         buffer.getArray(value, nx * ny);
     }
 };
-- 
2.43.0


From c87bbbc68bc0733d1480d0ac683ddec6ac715ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:17 +0000
Subject: [PATCH 098/121] fix: YaS field headers that point backwards are
 rejected instead of being read over and over again

---
 src/serialiser/include/IoSerialiserYaS.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 9bbb5bf..c291b4f 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -385,9 +385,14 @@ struct FieldHeaderReader<YaS> {
     inline static void get(IoBuffer &buffer, const DeserialiserInfo & /*info*/, FieldDescriptionLong &result) {
         result.headerStart         = buffer.position();
         result.intDataType         = buffer.get<uint8_t>(); // data type ID
-        const auto dataStartOffset = static_cast<uint64_t>(buffer.get<int32_t>());
-        const auto dataSize        = static_cast<uint64_t>(buffer.get<int32_t>());
+        const auto wireStartOffset = buffer.get<int32_t>();
+        const auto wireDataSize    = buffer.get<int32_t>();
         result.fieldName           = buffer.get<std::string_view>(); // full field name
+        if (wireStartOffset < 0 || wireDataSize < 0 || result.headerStart + static_cast<uint64_t>(wireStartOffset) < buffer.position()) {
+            throw ProtocolException("malformed header of field '{}': data start offset {} and size {}", result.fieldName, wireStartOffset, wireDataSize);
+        }
+        const auto dataStartOffset = static_cast<uint64_t>(wireStartOffset);
+        const auto dataSize        = static_cast<uint64_t>(wireDataSize);
         result.dataStartPosition   = result.headerStart + dataStartOffset;
         result.dataEndPosition     = result.headerStart + dataStartOffset + dataSize;
         // the following information is optional
-- 
2.43.0


From 67383d7679abe66283f0031778bd028bb46ef028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 099/121] fix: names of set and map elements outlive the field
 descriptions that refer to them

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 3 ++-
 src/serialiser/include/IoSerialiserYaS.hpp      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index ec31634..cf8ea55 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -248,12 +248,13 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
         auto n_elems = buffer.get<int32_t>();
         for (int i = 0; i < n_elems && buffer.position() < buffer.size(); i++) {
             MemberType            v;
+            const std::string     elementName = std::format("{}[{}]", field.fieldName, i); // N.B. needs to outlive 'subfield'
             FieldDescriptionShort subfield{
                 .headerStart       = buffer.position(),
                 .dataStartPosition = buffer.position(),
                 .dataEndPosition   = 0U,
                 .subfields         = 0,
-                .fieldName         = std::format("{}[{}]", field.fieldName, i),
+                .fieldName         = elementName,
                 .intDataType       = IoSerialiser<CmwLight, MemberType>::getDataTypeId(),
                 .hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1),
             };
diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index c291b4f..97478f0 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -254,12 +254,13 @@ struct IoSerialiser<YaS, T> {
             auto        value_elements            = static_cast<std::size_t>(buffer.get<int32_t>());
             value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
+                const std::string     elementName = std::format("{}[{}]", field.fieldName, i); // N.B. needs to outlive 'subfield'
                 FieldDescriptionShort subfield{
                     .headerStart       = buffer.position(),
                     .dataStartPosition = buffer.position(),
                     .dataEndPosition   = 0U,
                     .subfields         = 0,
-                    .fieldName         = std::format("{}[{}]", field.fieldName, i),
+                    .fieldName         = elementName,
                     .intDataType       = IoSerialiser<YaS, V>::getDataTypeId(),
                     .hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1),
                 };
-- 
2.43.0


From aadeeef0191c8b09dbc02143b5e7005bc31bc4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 100/121] fix: more elements on the wire than a std::array has
 are skipped instead of written behind its end

---
 src/serialiser/include/IoBuffer.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 4d7b539..8407eb1 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -462,15 +462,22 @@ public:
                     throw std::out_of_range(std::format("std::array<SupportedType, size = {}> wire-format size does not match design {}", std::tuple_size_v<Container>, minArraySize));
                 }
             }
-            assert(std::tuple_size_v<Container> >= minArraySize && "std::array<SupportedType, size> wire-format size does not match design");
+        }
+        std::size_t nElements = minArraySize;
+        if constexpr (opencmw::is_array<Container>) {
+            nElements = std::min(nElements, std::tuple_size_v<Container>); // N.B. surplus elements are skipped
         }
 
         if constexpr (std::is_trivially_copyable_v<R> && !std::is_same_v<R, bool> && !opencmw::StringLike<R>) {
-            std::memcpy(input.data(), _buffer + _position, minArraySize * sizeof(R));
+            std::memcpy(input.data(), _buffer + _position, nElements * sizeof(R));
             _position += minArraySize * sizeof(R);
         } else {
             for (auto i = 0U; i < minArraySize; i++) {
-                input[i] = get<R>();
+                if (i < nElements) {
+                    input[i] = get<R>();
+                } else {
+                    std::ignore = get<R>();
+                }
             }
         }
 
-- 
2.43.0


From 4da04957660d2799a0d25aad51da003c30049975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 101/121] fix: multi-arrays whose dimensions do not match the
 elements received are rejected

---
 src/serialiser/include/IoSerialiser.hpp       | 31 +++++++++++++++++++
 .../include/IoSerialiserCmwLight.hpp          | 14 ++-------
 src/serialiser/include/IoSerialiserJson.hpp   | 12 +------
 src/serialiser/include/IoSerialiserYaS.hpp    | 14 ++-------
 4 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 4c3263f..aa66459 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -273,6 +273,37 @@ neverinline constexpr bool handleDeserialisationErrorAndSkipToNextField(IoBuffer
     return false; // may continue
 }
 
+/// sets the shape of a multi-array whose elements have been read, the array is emptied if these do not match
+template<MultiArrayType T>
+constexpr void setMultiArrayShape(T &value, const std::array<int32_t, T::n_dims_> &wireDimensions) {
+    auto       dimensions = wireDimensions;
+    const bool hasElements = std::ranges::all_of(dimensions, [](const int32_t d) { return d > 0; });
+    uint64_t   nElements  = hasElements ? 1UL : 0UL;
+    for (auto i = 0U; hasElements && i < T::n_dims_ && nElements <= value.elements().size(); i++) {
+        nElements *= static_cast<uint64_t>(dimensions[i]);
+    }
+    const auto nReceived = value.elements().size();
+    const bool isValid   = nElements == nReceived && std::ranges::all_of(dimensions, [](const int32_t d) { return d >= 0; });
+    if (!isValid) {
+        value.elements().clear();
+        dimensions.fill(0);
+    }
+    for (auto i = 0U; i < T::n_dims_; i++) {
+        value.dimensions()[i] = static_cast<typename T::size_t_>(dimensions[i]);
+    }
+    value.element_count()        = value.dimensions()[T::n_dims_ - 1];
+    value.stride(T::n_dims_ - 1) = 1;
+    value.offset(T::n_dims_ - 1) = 0;
+    for (auto i = T::n_dims_ - 1; i > 0; i--) {
+        value.element_count() *= value.dimensions()[i - 1];
+        value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
+        value.offset(i - 1) = 0;
+    }
+    if (!isValid) {
+        throw ProtocolException("multi-array dimensions do not match the {} elements received", nReceived);
+    }
+}
+
 /// moves the buffer position behind the data of a field that is not read
 template<SerialiserProtocol protocol>
 constexpr void skipField(IoBuffer &buffer, const FieldDescriptionLong &field) {
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index cf8ea55..2185a41 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -192,20 +192,10 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
-        for (auto i = 0U; i < T::n_dims_; i++) {
-            value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
-        }
-        value.element_count()        = value.dimensions()[T::n_dims_ - 1];
-        value.stride(T::n_dims_ - 1) = 1;
-        value.offset(T::n_dims_ - 1) = 0;
-        for (auto i = T::n_dims_ - 1; i > 0; i--) {
-            value.element_count() *= value.dimensions()[i - 1];
-            value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
-            value.offset(i - 1) = 0;
-        }
         buffer.getArray(value.elements());
+        detail::setMultiArrayShape(value, dimWire);
     }
 };
 
diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 297c7b9..859964e 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -579,22 +579,12 @@ struct IoSerialiser<Json, T> {
         }
         std::array<int32_t, T::n_dims_> dimWire;
         IoSerialiser<Json, std::array<int32_t, T::n_dims_>>::deserialise(buffer, fieldHeader, dimWire);
-        for (auto i = 0U; i < T::n_dims_; i++) {
-            value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
-        }
-        value.element_count()        = value.dimensions()[T::n_dims_ - 1];
-        value.stride(T::n_dims_ - 1) = 1;
-        value.offset(T::n_dims_ - 1) = 0;
-        for (auto i = T::n_dims_ - 1; i > 0; i--) {
-            value.element_count() *= value.dimensions()[i - 1];
-            value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
-            value.offset(i - 1) = 0;
-        }
         FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
         if (fieldHeader.intDataType != IoSerialiser<Json, std::vector<V>>::getDataTypeId() || fieldHeader.fieldName != "values"sv) {
             throw ProtocolException("expected multi-array values");
         }
         IoSerialiser<Json, std::vector<V>>::deserialise(buffer, fieldHeader, value.elements());
+        detail::setMultiArrayShape(value, dimWire);
         FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
         if (fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId()) {
             throw ProtocolException("expected end marker");
diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 97478f0..183465b 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -126,20 +126,10 @@ struct IoSerialiser<YaS, T> {
         buffer.put(dims);
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
-        for (auto i = 0U; i < T::n_dims_; i++) {
-            value.dimensions()[i] = static_cast<typename T::size_t_>(dimWire[i]);
-        }
-        value.element_count()        = value.dimensions()[T::n_dims_ - 1];
-        value.stride(T::n_dims_ - 1) = 1;
-        value.offset(T::n_dims_ - 1) = 0;
-        for (auto i = T::n_dims_ - 1; i > 0; i--) {
-            value.element_count() *= value.dimensions()[i - 1];
-            value.stride(i - 1) = value.stride(i) * value.dimensions()[i];
-            value.offset(i - 1) = 0;
-        }
         buffer.getArray(value.elements());
+        detail::setMultiArrayShape(value, dimWire);
     }
 };
 
-- 
2.43.0


From 8783130f8488fc0d7df407b9b2e0fcdfeff35588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 102/121] fix: malformed element counts of YaS sets and maps
 neither exhaust the memory nor read or write behind the data

---
 src/serialiser/include/IoSerialiserYaS.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 183465b..5445dad 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -145,10 +145,10 @@ struct IoSerialiser<YaS, std::set<V>> {
             buffer.put(v);
         }
     }
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, std::set<V> &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, std::set<V> &value) {
         auto           size = buffer.getArray<int32_t, 1>();
-        std::vector<V> data{ size[0] };
-        buffer.getArray(data, static_cast<size_t>(size[0]));
+        std::vector<V> data;
+        buffer.getArray(data, static_cast<size_t>(std::max(0, size[0])));
         value.clear();
         std::copy(data.begin(), data.end(), std::inserter(value, value.begin()));
     }
@@ -206,7 +206,11 @@ struct IoSerialiser<YaS, T> {
 
         const auto     keyType   = buffer.get<uint8_t>();
         std::vector<K> keys;
-        keys.reserve(nElements);
+        auto requireData = [&buffer, &field] {
+            if (buffer.position() >= buffer.size()) {
+                throw ProtocolException("entries of map field {} are missing", field.fieldName);
+            }
+        };
         if constexpr (is_supported_number<K> || is_stringlike<K>) {
             if (yas::getDataTypeId<K>() != keyType) {
                 throw ProtocolException("key type mismatch for field {} - required {} ({}) vs. have {}", field.fieldName, yas::getDataTypeId<K>(), typeid(K).name(), keyType);
@@ -216,6 +220,7 @@ struct IoSerialiser<YaS, T> {
                 throw ProtocolException("key array length mismatch for field {} - required {} vs. have {}", field.fieldName, nElements, nElementsCheck);
             }
             for (auto i = 0U; i < nElementsCheck; i++) {
+                requireData();
                 keys.emplace_back(buffer.get<K>());
             }
         } else if (keyType == yas::getDataTypeId<OTHER>()) {
@@ -235,6 +240,7 @@ struct IoSerialiser<YaS, T> {
             }
             value.clear();
             for (auto i = 0U; i < nElementsCheck; i++) {
+                requireData();
                 auto v         = buffer.get<V>();
                 value[keys[i]] = v;
             }
@@ -242,6 +248,9 @@ struct IoSerialiser<YaS, T> {
             std::string value_type_name           = buffer.get<std::string>();
             std::string value_type_name_secondary = buffer.get<std::string>();
             auto        value_elements            = static_cast<std::size_t>(buffer.get<int32_t>());
+            if (value_elements != keys.size()) {
+                throw ProtocolException("value array length mismatch for field {} - required {} vs. have {}", field.fieldName, keys.size(), value_elements);
+            }
             value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
                 const std::string     elementName = std::format("{}[{}]", field.fieldName, i); // N.B. needs to outlive 'subfield'
-- 
2.43.0


From ac0459416fb58168811776770db26b66b9f26906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 103/121] fix: reading malformed JSON leniently ends with an
 exception instead of an endless loop

---
 src/serialiser/include/IoSerialiserJson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 859964e..5d6441b 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -412,7 +412,7 @@ struct FieldHeaderReader<Json> {
             return;
         }
 
-        detail::handleDeserialisationError<protocolCheckVariant>(info, "json malformed, unexpected '{}' at buffer position {}", buffer.at<char>(buffer.position()), buffer.position());
+        throw ProtocolException("json malformed, unexpected '{}' at buffer position {}", buffer.at<char>(buffer.position()), buffer.position()); // N.B. no way to continue from here
     }
 };
 
-- 
2.43.0


From 79185747317d299502d4b8b0052cc84f5e5fe84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:34 +0000
Subject: [PATCH 104/121] fix: CmwLight structures with an illegal number of
 members are rejected instead of being read forever

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 2185a41..c117748 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -263,8 +263,13 @@ struct IoSerialiser<CmwLight, START_MARKER> {
     }
 
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto &field, const START_MARKER &) {
-        field.subfields         = static_cast<int16_t>(buffer.get<int32_t>());
+        const auto nMembers     = buffer.get<int32_t>();
+        const bool isValid      = nMembers >= 0 && nMembers < std::numeric_limits<uint16_t>::max(); // N.B. '-1' is reserved for an unknown number of members
+        field.subfields         = isValid ? static_cast<int16_t>(nMembers) : int16_t{ 0 };
         field.dataStartPosition = buffer.position();
+        if (!isValid) {
+            throw ProtocolException("illegal number of members: {}", nMembers);
+        }
     }
 };
 
-- 
2.43.0


From a4bdddb807d403adaf71312f8863ba160c58e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:20 +0000
Subject: [PATCH 105/121] fix: MultiArray::indices() ignored the stride of the
 offsets and was not the inverse of index()

---
 src/serialiser/include/MultiArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/MultiArray.hpp b/src/serialiser/include/MultiArray.hpp
index 7984381..dfdffb3 100644
--- a/src/serialiser/include/MultiArray.hpp
+++ b/src/serialiser/include/MultiArray.hpp
@@ -157,7 +157,7 @@ public:
         std::array<size_t_, n_dims> indices{};
         size_t_                     index_ = index;
         for (size_t_ i = 0; i < n_dims; i++) {
-            index_ -= offsets_[i];
+            index_ -= offsets_[i] * strides_[i];
             indices[i] = index_ / strides_[i];
             index_ -= indices[i] * strides_[i];
         }
-- 
2.43.0


From 8a37b13f7723c757510a92c0ad55e0f1e7265a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:20 +0000
Subject: [PATCH 106/121] fix: MultiArray::operator+ wrote beyond the result
 for arrays with a custom memory layout

---
 src/serialiser/include/MultiArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/MultiArray.hpp b/src/serialiser/include/MultiArray.hpp
index dfdffb3..75eef4e 100644
--- a/src/serialiser/include/MultiArray.hpp
+++ b/src/serialiser/include/MultiArray.hpp
@@ -242,7 +242,7 @@ public:
 
     MultiArray<value_type, n_dims> operator+(const MultiArray<value_type, n_dims> &operand) const {
         // todo: verify dimension match. Allow broadcasting (adding a column vector to each row or similar)?
-        MultiArray result = MultiArray<value_type, n_dims>(this->dims_);
+        MultiArray result = *this; // same memory layout, i.e. also strides, offsets and padding
         for (size_t_ i = 0; i < n_element_; ++i) { // todo: use iterator to only change valid fields
             result[i] = operator[](i) + operand[i];
         }
@@ -250,7 +250,7 @@ public:
     }
     template<AnyNumber R>
     MultiArray operator+(const R &operand) const {
-        MultiArray result = MultiArray<value_type, n_dims>(this->dims_);
+        MultiArray result = *this; // same memory layout, i.e. also strides, offsets and padding
         for (size_t_ i = 0; i < n_element_; ++i) { // todo: use iterator to only change valid fields
             result[i] = elements_[i] + operand;
         }
-- 
2.43.0


From 768f55099f558f795f2f3f6ea833b0186968a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:10 +0000
Subject: [PATCH 107/121] fix: RoundRobinThreadAffinedTaskScheduler: a refused
 start(0) left it marked as started, later starts had no effect

---
 .../disruptor/RoundRobinThreadAffinedTaskScheduler.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/RoundRobinThreadAffinedTaskScheduler.hpp b/src/disruptor/include/disruptor/RoundRobinThreadAffinedTaskScheduler.hpp
index 8f3e46e..cecc45c 100644
--- a/src/disruptor/include/disruptor/RoundRobinThreadAffinedTaskScheduler.hpp
+++ b/src/disruptor/include/disruptor/RoundRobinThreadAffinedTaskScheduler.hpp
@@ -27,12 +27,12 @@ public:
             return;
         }
 
-        _started = true;
-
         if (numberOfThreads < 1) {
             throw std::out_of_range("number of threads must be at least 1");
         }
 
+        _started = true;
+
         createThreads(numberOfThreads);
     }
     void stop() override {
-- 
2.43.0


From 1943e39c893ff875b04e627339c7157640fbc839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 108/121] fix: a socket that cannot take more data now does not
 end the HTTP/2 connection

---
 src/rest/include/rest/RestUtils.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/rest/include/rest/RestUtils.hpp b/src/rest/include/rest/RestUtils.hpp
index 0cb8d7b..4c870ca 100644
--- a/src/rest/include/rest/RestUtils.hpp
+++ b/src/rest/include/rest/RestUtils.hpp
@@ -258,6 +258,8 @@ struct TcpSocket {
             }
             // SSL will take ownership of the BIO object
             SSL_set_bio(socket._ssl.get(), bio, bio);
+            // a write that has to wait is repeated later, possibly from another position and with more data
+            SSL_set_mode(socket._ssl.get(), SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
         }
         return socket;
     }
@@ -404,9 +406,22 @@ struct TcpSocket {
         return clientSocket;
     }
 
+    // reports SSL results like recv() and send() do: -1 and EAGAIN if the operation has to wait for the peer
+    ssize_t sslResult(int ret) {
+        if (ret > 0) {
+            return ret;
+        }
+        const int error = SSL_get_error(_ssl.get(), ret);
+        if (error == SSL_ERROR_ZERO_RETURN) {
+            return 0;
+        }
+        errno = error == SSL_ERROR_WANT_READ || error == SSL_ERROR_WANT_WRITE ? EAGAIN : EIO;
+        return -1;
+    }
+
     ssize_t read(uint8_t *data, std::size_t length) {
         if (_ssl) {
-            return SSL_read(_ssl.get(), data, static_cast<int>(length));
+            return sslResult(SSL_read(_ssl.get(), data, static_cast<int>(length)));
         } else {
             return ::recv(fd, data, length, 0);
         }
@@ -414,7 +429,7 @@ struct TcpSocket {
 
     ssize_t write(const uint8_t *data, std::size_t length, int wflags = 0) {
         if (_ssl) {
-            return SSL_write(_ssl.get(), data, static_cast<int>(length));
+            return sslResult(SSL_write(_ssl.get(), data, static_cast<int>(length)));
         } else {
             return ::send(fd, data, length, wflags);
         }
@@ -469,8 +484,8 @@ struct WriteBuffer {
         std::size_t written = 0;
         while (size - written > 0) {
             const ssize_t n = socket.write(buffer.data() + written, size - written);
-            if (n == 0 && errno == EAGAIN) {
-                break;
+            if (n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+                break; // the peer cannot take more now, keep the rest
             }
             if (n <= 0) {
                 return false;
-- 
2.43.0


From ea51b93796daafa31f2ea0d4630aa8f8e1767d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 109/121] fix: reading from an HTTP/2 connection neither passes
 -1 on as a length nor keeps closed connections

---
 src/majordomo/include/majordomo/RestServer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index 65160aa..9b5e54c 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -2438,7 +2438,10 @@ struct RestServer {
         while (mightHaveMore) {
             std::array<uint8_t, 1024> buffer;
             ssize_t                   bytes_read = session->_socket.read(buffer.data(), sizeof(buffer));
-            if (bytes_read <= 0 && errno != EAGAIN) {
+            if (bytes_read < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+                break;
+            }
+            if (bytes_read <= 0) {
                 if (bytes_read < 0) {
                     HTTP_DBG("Server::read failed: {} {}", bytes_read, session->_socket.lastError());
                 }
-- 
2.43.0


From bffb227598badeefc4aca88601c1f1fd0f2cee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 110/121] fix: an unfinished upload neither delays other REST
 requests nor is processed early

---
 src/majordomo/include/majordomo/RestServer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index 9b5e54c..253ddd0 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -676,13 +676,13 @@ struct SessionBase {
     }
 
     std::vector<Message> getMessages(IdGenerator &idGenerator) {
-        const auto           completeEnd = std::ranges::partition_point(_requestsByStreamId, [](const auto &pair) { return pair.second.complete; });
-
         std::vector<Message> result;
-        result.reserve(static_cast<std::size_t>(std::distance(_requestsByStreamId.begin(), completeEnd)));
 
-        for (auto it = _requestsByStreamId.begin(); it != completeEnd; ++it) {
+        for (auto it = _requestsByStreamId.begin(); it != _requestsByStreamId.end(); ++it) {
             auto &[streamId, request] = *it;
+            if (!request.complete) {
+                continue;
+            }
 
             switch (request.method) {
             case RestMethod::Options:
@@ -705,7 +705,7 @@ struct SessionBase {
             }
         }
 
-        _requestsByStreamId.erase(_requestsByStreamId.begin(), completeEnd);
+        std::erase_if(_requestsByStreamId, [](const auto &pair) { return pair.second.complete; });
         return result;
     }
 
-- 
2.43.0


From 4699cdca34334b1091c9a5911591e5f200d2a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 111/121] fix: a cancelled HTTP/2 stream leaves no pending
 request, poll or upload behind

---
 src/majordomo/include/majordomo/RestServer.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index 253ddd0..f456e5b 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -964,12 +964,11 @@ struct Http2Session : public SessionBase<Http2Session, std::int32_t> {
     int stream_closed_callback(int32_t stream_id, uint32_t error_code) {
         std::ignore = error_code;
         HTTP_DBG("Server::Stream closed: {} ({})", stream_id, error_code);
-        const std::size_t erased = _responsesByStreamId.erase(stream_id);
-        // if this was canceled by the client, remove any pending requests/polls
-        if (erased > 0) {
-            std::erase_if(_pendingRequests, [stream_id](const auto &request) { return std::get<1>(request) == stream_id; });
-            std::erase_if(_pendingPolls, [stream_id](const auto &poll) { return std::get<2>(poll) == stream_id; });
-        }
+        // if this was canceled by the client, remove everything that is still pending
+        _responsesByStreamId.erase(stream_id);
+        _requestsByStreamId.erase(stream_id);
+        std::erase_if(_pendingRequests, [stream_id](const auto &request) { return std::get<1>(request) == stream_id; });
+        std::erase_if(_pendingPolls, [stream_id](const auto &poll) { return std::get<2>(poll) == stream_id; });
         return 0;
     }
 
-- 
2.43.0


From a941ba4f707d3b696bfdfeb1cc27afa39f15ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 112/121] fix: a malformed LongPollingIdx does not prevent the
 subscription to its topic

---
 src/majordomo/include/majordomo/RestServer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index f456e5b..3aa6fe3 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -571,9 +571,9 @@ struct SessionBase {
         }
 
         std::uint64_t index = 0;
-        if (auto [ptr, ec] = std::from_chars(request.longPollIndex.data(), request.longPollIndex.data() + request.longPollIndex.size(), index); ec != std::errc()) {
+        if (auto [ptr, ec] = std::from_chars(request.longPollIndex.data(), request.longPollIndex.data() + request.longPollIndex.size(), index); ec != std::errc() || ptr != request.longPollIndex.data() + request.longPollIndex.size()) {
             respondWithError(streamId, std::format("Malformed LongPollingIdx '{}'", request.longPollIndex));
-            return {};
+            return result;
         }
 
 #ifdef OPENCMW_PROFILE_HTTP
-- 
2.43.0


From f3bf2305a43e8113d7511bfed0bc23cc3fb0fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:23 +0000
Subject: [PATCH 113/121] fix: fileSystemHandler serves files below its root
 only, a request for anything else is answered with 404

---
 src/majordomo/include/majordomo/Rest.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Rest.hpp b/src/majordomo/include/majordomo/Rest.hpp
index 8dfcab6..c338cbd 100644
--- a/src/majordomo/include/majordomo/Rest.hpp
+++ b/src/majordomo/include/majordomo/Rest.hpp
@@ -179,8 +179,11 @@ inline auto fileSystemHandler(std::string path, std::string prefix, std::filesys
             while (p.starts_with("/")) {
                 p.remove_prefix(1);
             }
-            auto file = root / p;
-            if (!std::filesystem::exists(file)) {
+            const auto      relative  = std::filesystem::path(p).lexically_normal();
+            const bool      aboveRoot = !relative.empty() && *relative.begin() == "..";
+            const auto      file      = root / relative;
+            std::error_code ec;
+            if (aboveRoot || !std::filesystem::is_regular_file(file, ec)) {
                 Response response;
                 response.code = 404;
                 response.headers.emplace_back("content-type", "text/plain");
-- 
2.43.0


From 04dd385daac854d369f3c24d23ba8fe6e9527e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:23 +0000
Subject: [PATCH 114/121] fix: fileSystemHandler sends the extra headers for
 memory-mapped files, too

---
 src/majordomo/include/majordomo/Rest.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Rest.hpp b/src/majordomo/include/majordomo/Rest.hpp
index c338cbd..3360a75 100644
--- a/src/majordomo/include/majordomo/Rest.hpp
+++ b/src/majordomo/include/majordomo/Rest.hpp
@@ -210,7 +210,8 @@ inline auto fileSystemHandler(std::string path, std::string prefix, std::filesys
                 }
 
                 Response response;
-                response.code = 200;
+                response.code    = 200;
+                response.headers = extraHeaders;
                 response.headers.emplace_back("content-type", mimeTypeFromExtension(file.string()));
                 auto view = it->second.view();
                 response.headers.emplace_back("content-length", std::to_string(view.size()));
-- 
2.43.0


From 203fc0db357c5a2b333200b75b4d490b082798b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:23 +0000
Subject: [PATCH 115/121] fix: an exception thrown by a REST handler is
 answered with an error and does not leave the server

---
 src/majordomo/include/majordomo/RestServer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/RestServer.hpp b/src/majordomo/include/majordomo/RestServer.hpp
index 3aa6fe3..2ff64f3 100644
--- a/src/majordomo/include/majordomo/RestServer.hpp
+++ b/src/majordomo/include/majordomo/RestServer.hpp
@@ -623,8 +623,11 @@ struct SessionBase {
             req.method = method;
             req.path   = path;
             std::swap(req.headers, request.rawHeaders);
-            auto response = handler->handler(req);
-            self().sendResponse(streamId, std::move(response));
+            try {
+                self().sendResponse(streamId, handler->handler(req));
+            } catch (const std::exception &e) {
+                respondWithError(streamId, e.what());
+            }
             _requestsByStreamId.erase(it);
             return;
         }
-- 
2.43.0


From 4492547ff483b1ca6bda054bf9009b8a99a2aabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 116/121] fix: RestClient: a get or set to an unusable endpoint
 is reported to the caller and does not terminate the client

---
 src/client/include/RestClientNative.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 46c5f79..eb1fc39 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -659,7 +659,11 @@ public:
                     switch (cmd.command) {
                     case mdp::Command::Get:
                     case mdp::Command::Set: {
-                        auto session   = ensureSession(ssl_ctx, sessions, sslSettings, cmd.topic);
+                        auto session = ensureSession(ssl_ctx, sessions, sslSettings, cmd.topic);
+                        if (!session) {
+                            reportError(cmd, std::format("Unsupported endpoint '{}': {}", cmd.topic.str(), session.error()));
+                            continue;
+                        }
                         auto preferred = preferredMimeType(cmd.topic);
                         session.value()->submitRequest(std::move(cmd), mode, std::move(preferred), {});
                     } break;
-- 
2.43.0


From 3d80aec1f175120dc7f8e680b0f7047131e83260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 117/121] fix: RestClient: losing the connection is reported to
 the requests which wait for an answer

---
 src/client/include/RestClientNative.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index eb1fc39..8891a17 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -764,6 +764,7 @@ public:
                     if (pollIt->revents & POLLOUT) {
                         if (!session->_writeBuffer.write(session->_session, session->_socket)) {
                             HTTP_DBG("Client: Failed to write to peer (fd={}): {}", session->_socket.fd, session->_socket.lastError());
+                            session->reportErrorToAllPendingRequests("Failed to write to peer, connection closed");
                             sessionIt = sessions.erase(sessionIt);
                             continue;
                         }
@@ -792,6 +793,7 @@ public:
                             mightHaveMore = bytes_read == static_cast<ssize_t>(buffer.size());
                         }
                         if (hasError) {
+                            session->reportErrorToAllPendingRequests("Failed to read from peer, connection closed");
                             sessionIt = sessions.erase(sessionIt);
                             continue;
                         }
-- 
2.43.0


From c0089033f52dccdf2727296c592d4282a5a70686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 118/121] fix: RestClient: a connection closed by the server is
 detected whatever errno says

---
 src/client/include/RestClientNative.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 8891a17..6ab43d3 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -777,7 +777,10 @@ public:
                         while (mightHaveMore && !hasError) {
                             std::array<uint8_t, 2048> buffer;
                             const auto                bytes_read = session->_socket.read(buffer.data(), buffer.size());
-                            if (bytes_read <= 0 && errno != EAGAIN) {
+                            if (bytes_read < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+                                break;
+                            }
+                            if (bytes_read <= 0) {
                                 if (bytes_read < 0) {
                                     HTTP_DBG("Client::read failed: {}", session->_socket.lastError());
                                 }
@@ -785,7 +788,7 @@ public:
                                 continue;
                             }
 
-                            if (bytes_read > 0 && nghttp2_session_mem_recv2(session->_session, buffer.data(), static_cast<size_t>(bytes_read)) < 0) {
+                            if (nghttp2_session_mem_recv2(session->_session, buffer.data(), static_cast<size_t>(bytes_read)) < 0) {
                                 HTTP_DBG("Client: nghttp2_session_mem_recv2 failed");
                                 hasError = true;
                                 continue;
-- 
2.43.0


From 1d95835c746df227bcdcff2dfda42c95ec61b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 119/121] fix: RestClient: an unsubscribed topic can be
 subscribed again

---
 src/client/include/RestClientNative.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 6ab43d3..5148f20 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -377,6 +377,7 @@ struct ClientSessionBase {
                     ++reqIt;
                 }
             }
+            _subscriptions.erase(subIt);
         }
     }
 };
-- 
2.43.0


From 1a096b740562121f10f79068f32e76749fab87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 120/121] fix: RestClient: a request whose stream is reset is
 reported to its caller

---
 src/client/include/RestClientNative.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 5148f20..57f1143 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -432,8 +432,11 @@ struct Http2ClientSession : public ClientSessionBase<Http2ClientSession, int32_t
         });
         nghttp2_session_callbacks_set_on_stream_close_callback(callbacks, [](nghttp2_session *, int32_t stream_id, uint32_t /*error_code*/, void *user_data) {
             auto client = static_cast<Http2ClientSession *>(user_data);
-            client->_requestsByStreamId.erase(stream_id);
             HTTP_DBG("Client::Stream closed: {}", stream_id);
+            if (auto node = client->_requestsByStreamId.extract(stream_id); !node.empty()) {
+                // closed before the response was complete
+                node.mapped().reportError("Stream closed by peer");
+            }
             return 0;
         });
 
-- 
2.43.0


From 4092176cee35971879646eb9f834640c3f489230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 121/121] fix: RestClient: an unusable redirect ends the
 redirected request only, not the connection

---
 src/client/include/RestClientNative.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/include/RestClientNative.hpp b/src/client/include/RestClientNative.hpp
index 57f1143..579172d 100644
--- a/src/client/include/RestClientNative.hpp
+++ b/src/client/include/RestClientNative.hpp
@@ -249,7 +249,7 @@ struct ClientSessionBase {
                     HTTP_DBG("Client::Header: Could not parse URI '{}': {}", it->second.location, e.what());
                     it->second.reportError(std::format("Could not parse redirect URI '{}': {}", it->second.location, e.what()));
                     _requestsByStreamId.erase(it);
-                    return static_cast<int>(NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE);
+                    return 0; // reported, the other requests of this session are not affected
                 }
                 const auto &queryParams   = location->queryParamMap();
                 auto        longPollIdxIt = queryParams.find("LongPollingIdx");
@@ -257,14 +257,14 @@ struct ClientSessionBase {
                     HTTP_DBG("Client::Header: Could not find LongPollingIdx in URI '{}'", it->second.location);
                     it->second.reportError(std::format("Could not find LongPollingIdx in URI '{}'", it->second.location));
                     _requestsByStreamId.erase(it);
-                    return static_cast<int>(NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE);
+                    return 0; // reported, the other requests of this session are not affected
                 }
                 std::uint64_t longPollingIdx;
                 if (auto ec = std::from_chars(longPollIdxIt->second->data(), longPollIdxIt->second->data() + longPollIdxIt->second->size(), longPollingIdx); ec.ec != std::errc{}) {
                     HTTP_DBG("Client::Header: Could not parse numerical LongPollingIdx from '{}'", longPollIdxIt->second);
                     it->second.reportError(std::format("Could not parse numerical LongPollingIdx from '{}'", longPollIdxIt->second));
                     _requestsByStreamId.erase(it);
-                    return static_cast<int>(NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE);
+                    return 0; // reported, the other requests of this session are not affected
                 }
                 // Redirect to long-polling URL
                 sendLongPollRequests(it->second.normalizedTopic, longPollingIdx, longPollingIdx + kParallelLongPollingRequests - 1);
-- 
2.43.0

