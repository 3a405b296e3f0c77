From c6cca5ae2b478597fb7fef4a690e40aa54a4adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 01/13] fix: check the available bytes before resizing a string
 in from_bin

---
 include/eosio/from_bin.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 2326049..6cbd3b4 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -168,6 +168,7 @@ template <typename S>
 inline void from_bin(std::string& obj, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   stream.check_available(size);
    obj.resize(size);
    stream.read(obj.data(), obj.size());
 }
-- 
2.43.0


From 2d890e879cdee850b2471008348fd82182eebe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 02/13] fix: do not allocate an unverified number of vector
 elements in from_bin

---
 include/eosio/from_bin.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 6cbd3b4..205eac1 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -108,9 +108,11 @@ void from_bin(std::vector<T>& v, S& stream) {
    } else {
       uint32_t size;
       varuint32_from_bin(size, stream);
-      v.resize(size);
+      // grow with the data that is actually present, the size is not trusted
+      v.clear();
       for (size_t i = 0; i < size; ++i) {
-         from_bin(v[i], stream);
+         v.emplace_back();
+         from_bin(v.back(), stream);
       }
    }
 }
-- 
2.43.0


From 7f8a38f9c12c19349d18116862556a55f974499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 03/13] fix: decode any non-zero byte as true instead of
 storing it in a bool

---
 include/eosio/from_bin.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 205eac1..eb13141 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -18,6 +18,14 @@ namespace eosio {
 template <typename T, typename S>
 void from_bin(T& obj, S& stream);
 
+template <typename S>
+void from_bin(bool& obj, S& stream) {
+   // copying an arbitrary byte into a bool is undefined
+   uint8_t b;
+   from_bin(b, stream);
+   obj = b != 0;
+}
+
 template <typename S>
 void varuint32_from_bin(uint32_t& dest, S& stream) {
    dest          = 0;
@@ -80,7 +88,7 @@ void from_bin(T (&v)[N], S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
    check( size == N, convert_stream_error(stream_error::array_size_mismatch) );
-   if constexpr (has_bitwise_serialization<T>()) {
+   if constexpr (has_bitwise_serialization<T>() && !std::is_same_v<T, bool>) {
       stream.read(reinterpret_cast<char*>(v), size * sizeof(T));
    } else {
       for (size_t i = 0; i < size; ++i) {
-- 
2.43.0


From ae7c912229f0b619e59e4d659f70c69d6ec6450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 04/13] fix: reject asset texts whose amount or precision does
 not fit

---
 include/eosio/chain_conversions.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 42c3353..edf9461 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -2,6 +2,7 @@
 
 #include "stream.hpp"
 #include <chrono>
+#include <limits>
 #include <stdint.h>
 #include <string>
 #include <string_view>
@@ -389,7 +390,6 @@ inline std::string symbol_to_string(uint64_t v) {
 
 [[nodiscard]] inline bool string_to_asset(int64_t& amount, uint64_t& symbol, const char*& s, const char* end,
                                           bool expect_end) {
-   // todo: check overflow
    while (s != end && *s == ' ') //
       ++s;
    uint64_t uamount   = 0;
@@ -399,12 +399,22 @@ inline std::string symbol_to_string(uint64_t v) {
       ++s;
       negative = true;
    }
-   while (s != end && *s >= '0' && *s <= '9') //
-      uamount = uamount * 10 + (*s++ - '0');
+   const uint64_t limit     = uint64_t(std::numeric_limits<int64_t>::max()) + negative;
+   auto           add_digit = [&](uint64_t digit) {
+      if (uamount > (limit - digit) / 10)
+         return false;
+      uamount = uamount * 10 + digit;
+      return true;
+   };
+   while (s != end && *s >= '0' && *s <= '9') {
+      if (!add_digit(*s++ - '0'))
+         return false;
+   }
    if (s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') {
-         uamount = uamount * 10 + (*s++ - '0');
+         if (!add_digit(*s++ - '0') || precision == std::numeric_limits<uint8_t>::max())
+            return false;
          ++precision;
       }
    }
@@ -426,7 +436,7 @@ inline std::string asset_to_string(int64_t amount, uint64_t symbol) {
    std::string result;
    uint64_t    uamount;
    if (amount < 0)
-      uamount = -amount;
+      uamount = -uint64_t(amount);
    else
       uamount = amount;
    uint8_t precision = symbol;
-- 
2.43.0


From eb194be8debc496f5a0450fd3e23e34f4a97ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 05/13] fix: reject symbol texts whose precision does not fit
 in 8 bits

---
 include/eosio/chain_conversions.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index edf9461..0a942c6 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -368,10 +368,12 @@ inline std::string symbol_code_to_string(uint64_t v) {
 }
 
 [[nodiscard]] inline bool string_to_symbol(uint64_t& result, const char*& pos, const char* end, bool require_end) {
-   uint8_t precision = 0;
-   bool    found     = false;
+   uint32_t precision = 0;
+   bool     found     = false;
    while (pos != end && *pos >= '0' && *pos <= '9') {
       precision = precision * 10 + (*pos - '0');
+      if (precision > std::numeric_limits<uint8_t>::max())
+         return false;
       found     = true;
       ++pos;
    }
-- 
2.43.0


From 6d2e238c6c773b563cb86b35f717811c85af65fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 06/13] fix: reject time texts that are not valid dates or do
 not fit in 32-bit seconds

---
 include/eosio/chain_conversions.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 0a942c6..b37b1e7 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -299,7 +299,13 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
       return false;
    if (!parse_uint(sec, 2))
       return false;
-   result = sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count() * 86400 + h * 3600 + min * 60 + sec;
+   const year_month_day ymd{ year_t{ y }, month_t{ m }, day_t{ d } };
+   if (m < 1 || m > 12 || h > 23 || min > 59 || sec > 59 || year_month_day{ sys_days(ymd.to_days()) }.day() != d)
+      return false;
+   const int64_t utc = int64_t(ymd.to_days().count()) * 86400 + h * 3600 + min * 60 + sec;
+   if (utc < 0 || utc > std::numeric_limits<uint32_t>::max())
+      return false;
+   result = utc;
    if (eat_fractional && s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') ++s;
-- 
2.43.0


From 73c5ea06d072fadffa00b6bf637f967cfbd1e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 07/13] fix: NUL is not a base58 digit

The digit table was filled from sizeof(base58_chars), which counts the
terminating NUL, so a NUL character was accepted as digit 58.
---
 include/eosio/abieos_numeric.hpp | 2 +-
 src/crypto.cpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index acc8724..04096b2 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -32,7 +32,7 @@ inline constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
diff --git a/src/crypto.cpp b/src/crypto.cpp
index df10ad6..106e9ad 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,7 +27,7 @@ constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
-- 
2.43.0


From 5f4acf56edac245529af2ffdd65789b315f40ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:51 +0000
Subject: [PATCH 08/13] fix: ordered JSON may leave out only binary extensions

json_to_bin checked only the first missing field: for a struct with fields
a$ and b, {} was accepted without b, giving a binary that cannot be read
back, while json_to_bin_reorderable rejects it.
---
 src/abieos.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 1c25578..49dbc5d 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -780,10 +780,11 @@ inline void json_to_bin(pseudo_object*, json_to_bin_state& state, bool allow_ext
     const std::vector<eosio::abi_field>& fields = type->as_struct()->fields;
     if (state.get_end_object_pred()) {
         if (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
-            auto& field = fields[stack_entry.position + 1];
-            if (!field.type->extension_of() || !allow_extensions) {
-                stack_entry.position = -1;
-                eosio::check(false, eosio::convert_json_error(eosio::from_json_error::expected_field));
+            for (auto it = fields.begin() + (stack_entry.position + 1); it != fields.end(); ++it) {
+                if (!it->type->extension_of() || !allow_extensions) {
+                    stack_entry.position = -1;
+                    eosio::check(false, eosio::convert_json_error(eosio::from_json_error::expected_field));
+                }
             }
             ++stack_entry.position;
             state.skipped_extension = true;
-- 
2.43.0


From 3ffde684f8bbde36cac141e4c779195eac9a3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 09/13] fix: abieos_bin_to_json reports an unknown contract

The message went to a local string, so abieos_get_error kept saying
"binary decode error", unlike the other conversions.
---
 src/abieos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 5d46a1f..07a3ec5 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -225,7 +225,7 @@ extern "C" const char* abieos_bin_to_json(abieos_context* context, uint64_t cont
         auto contract_it = context->contracts.find(::abieos::name{contract});
         std::string error;
         if (contract_it == context->contracts.end()) {
-            (void)set_error(error, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
+            set_error(context, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
             return nullptr;
         }
         auto t = contract_it->second.get_type(type);
-- 
2.43.0


From 713a4535025e0831cdc039d2d40b37674b88c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 10/13] fix: abieos_set_abi replaces the contract's previous
 abi

Setting an abi for a contract that already has one returned true but kept
the old abi.
---
 src/abieos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 07a3ec5..fb89946 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -111,7 +111,7 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
             return set_error(context, std::move(error));
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
@@ -132,7 +132,7 @@ extern "C" abieos_bool abieos_set_abi_bin(abieos_context* context, uint64_t cont
         from_bin(def, stream);
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
-- 
2.43.0


From 52db2e231ed46af6f0c7fe221f712607a80078aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:16 +0000
Subject: [PATCH 11/13] fix: an abi_def made from an abi keeps the tags of
 variants

convert(abi, abi_def) listed the resolved types of the alternatives, so an
alternative named by an alias got another tag in JSON.
---
 src/abi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abi.cpp b/src/abi.cpp
index 2c5d5b7..695f5f9 100644
--- a/src/abi.cpp
+++ b/src/abi.cpp
@@ -257,8 +257,8 @@ void to_abi_def(abi_def& def, const std::string& name, const abi_type::struct_&
 
 void to_abi_def(abi_def& def, const std::string& name, const abi_type::variant& variant) {
    std::vector<std::string> types;
-   for(const auto& [name, type] : variant) {
-      types.push_back(type->name);
+   for(const auto& alternative : variant) {
+      types.push_back(alternative.name);
    }
    def.variants.value.push_back({name, std::move(types)});
 }
-- 
2.43.0


From 5840d3161494abca52a13d2497cca86a029cd634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:14 +0000
Subject: [PATCH 12/13] fix: fpconv_dtoa never writes more than 24 characters

---
 include/eosio/fpconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/fpconv.c b/include/eosio/fpconv.c
index 54c6d6f..9e0d4ac 100644
--- a/include/eosio/fpconv.c
+++ b/include/eosio/fpconv.c
@@ -215,7 +215,7 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
     int exp = absv(K + ndigits - 1);
 
     /* write plain integer */
-    if(K >= 0 && (exp < (ndigits + 7))) {
+    if(K >= 0 && (exp < (ndigits + 7)) && ndigits + K + neg <= 24) {
         memcpy(dest, digits, ndigits);
         memset(dest + ndigits, '0', K);
 
-- 
2.43.0


From e7ff6199ccb1ed2fa3b8013aadabb251f8388ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:16 +0000
Subject: [PATCH 13/13] fix: from_json accepts subnormal float and double
 values

---
 include/eosio/from_json.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 448f39d..86400ff 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdlib>
 #include "for_each_field.hpp"
 #include "check.hpp"
@@ -485,7 +486,8 @@ void from_json(float& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtof(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(),
+   // subnormal results set ERANGE too
+   check( (!errno || std::fpclassify(result) == FP_SUBNORMAL) && end == s.c_str() + s.size(),
          convert_json_error(from_json_error::expected_number) );
 }
 
@@ -497,7 +499,9 @@ void from_json(double& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtod(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(), convert_json_error(from_json_error::expected_number) );
+   // subnormal results set ERANGE too
+   check( (!errno || std::fpclassify(result) == FP_SUBNORMAL) && end == s.c_str() + s.size(),
+         convert_json_error(from_json_error::expected_number) );
 }
 
 /*
-- 
2.43.0

