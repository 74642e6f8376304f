From 2e15e87df73d031aea17488741f703ea94b11252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:48 +0000
Subject: [PATCH 01/41] fix: keep drawn numbers inside the documented half-open
 range

nextDouble could return max (outputs above 2^64-1024 round to 1.0, and the
scaling can round up too), and nextInt(min, max) overflowed int for ranges
wider than INT_MAX and left the range.
---
 src/random/Random.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 15cfbc4..a25bc6a 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -1,5 +1,7 @@
 #include "random/Random.h"
 
+#include <cmath>
+#include <cstdint>
 #include <cstdlib>
 #include <ctime>
 
@@ -11,12 +13,14 @@ Random::Random(int seed) { randomGenerator.seed((std::uint64_t)seed); }
 
 int Random::nextInt(int min, int max) {
   if (max <= min) error("`max` should be larger than `min`");
-  return (int)(randomGenerator() % std::uint64_t(max - min)) + min;
+  // in 64 bits, since the width of the range may not fit in an int
+  std::uint64_t width = std::uint64_t(std::int64_t(max) - min);
+  return (int)(std::int64_t(randomGenerator() % width) + min);
 }
 
 int Random::nextInt() {
-  return (int)(randomGenerator() % (std::uint64_t(intMax) + 1 - intMin)) +
-         intMin;
+  std::uint64_t width = std::uint64_t(intMax) + 1 - intMin;
+  return (int)(std::int64_t(randomGenerator() % width) + intMin);
 }
 
 int Random::nextInt(int max) {
@@ -26,7 +30,10 @@ int Random::nextInt(int max) {
 
 double Random::nextDouble(double min, double max) {
   if (max < min) error("`max` should be larger than or equal to `min`");
-  return (double)randomGenerator() / int64Max * (max - min) + min;
+  double result = (double)randomGenerator() / int64Max * (max - min) + min;
+  // `max` is excluded, but rounding may reach it
+  if (result >= max && min < max) result = std::nextafter(max, min);
+  return result;
 }
 
 double Random::nextDouble(double max) {
-- 
2.43.0


From fd33f35497954a11224215877721223c1d2741a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:07 +0000
Subject: [PATCH 02/41] fix: Poisson and negative binomial sampling always
 terminates

The running sum of probabilities can be rounded to less than the drawn
number, and starts at 0 when exp(-lambda) or p^r underflows; in both cases
next() never returned.
---
 .../random/NegativeBinomialDistribution.h     |  2 ++
 src/include/random/PoissonDistribution.h      |  3 +++
 src/random/NegativeBinomialDistribution.cpp   | 20 +++++++++++++++++--
 src/random/PoissonDistribution.cpp            | 16 +++++++++++++--
 4 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/include/random/NegativeBinomialDistribution.h b/src/include/random/NegativeBinomialDistribution.h
index c3927f8..05ba1f5 100644
--- a/src/include/random/NegativeBinomialDistribution.h
+++ b/src/include/random/NegativeBinomialDistribution.h
@@ -68,9 +68,11 @@ class NegativeBinomialDistribution : public Distribution<int> {
   int r_;
   double p_;
 
+  int rPart;
   double pPowr;
 
   void init(int r, double p);
+  int nextPart(int r, double pPowr);
 };
 }  // namespace cuhksz
 
diff --git a/src/include/random/PoissonDistribution.h b/src/include/random/PoissonDistribution.h
index 26a6e82..b0e3768 100644
--- a/src/include/random/PoissonDistribution.h
+++ b/src/include/random/PoissonDistribution.h
@@ -52,9 +52,12 @@ class PoissonDistribution : public Distribution<int> {
 
  private:
   double lambda_;
+  int parts;
+  double partLambda;
   double expLambda;
 
   void init(double lambda);
+  int nextPart();
 };
 }  // namespace cuhksz
 
diff --git a/src/random/NegativeBinomialDistribution.cpp b/src/random/NegativeBinomialDistribution.cpp
index 6adf7e5..a17dab7 100644
--- a/src/random/NegativeBinomialDistribution.cpp
+++ b/src/random/NegativeBinomialDistribution.cpp
@@ -11,10 +11,24 @@ void NegativeBinomialDistribution::init(int r, double p) {
   }
   r_ = r;
   p_ = p;
-  pPowr = genericBinaryPow(p, r);
+  // Wait for the successes in parts small enough for p^r not to underflow.
+  rPart = r;
+  pPowr = genericBinaryPow(p, rPart);
+  while (pPowr < 1e-200 && rPart > 1) {
+    rPart = rPart / 2;
+    pPowr = genericBinaryPow(p, rPart);
+  }
 }
 
 int NegativeBinomialDistribution::next() {
+  int sum = 0;
+  int rest = r_;
+  for (; rest >= rPart; rest -= rPart) sum += nextPart(rPart, pPowr);
+  if (rest > 0) sum += nextPart(rest, genericBinaryPow(p_, rest));
+  return sum;
+}
+
+int NegativeBinomialDistribution::nextPart(int r, double pPowr) {
   double rnd = randomGenerator->nextDouble();
 
   int result = 0;
@@ -23,7 +37,9 @@ int NegativeBinomialDistribution::next() {
   double threshold = pPowr;
   while (rnd >= threshold) {
     result += 1;
-    probability *= p_complement * (r_ + result - 1) / result;
+    probability *= p_complement * (r + result - 1) / result;
+    // the sum of probabilities may be rounded to less than `rnd`
+    if (threshold + probability <= threshold) break;
     threshold += probability;
   }
   return result;
diff --git a/src/random/PoissonDistribution.cpp b/src/random/PoissonDistribution.cpp
index a1c518a..dace73c 100644
--- a/src/random/PoissonDistribution.cpp
+++ b/src/random/PoissonDistribution.cpp
@@ -9,17 +9,29 @@ void PoissonDistribution::init(double lambda) {
     error("Invalid parameter for PoissonDistribution");
   }
   lambda_ = lambda;
-  expLambda = std::exp(-lambda_);
+  // A Poisson variable is a sum of independent ones. Sample it in parts small
+  // enough for exp(-lambda) not to underflow.
+  parts = (int)std::ceil(lambda_ / 500);
+  partLambda = lambda_ / parts;
+  expLambda = std::exp(-partLambda);
 }
 
 int PoissonDistribution::next() {
+  int sum = 0;
+  for (int i = 0; i < parts; i++) sum += nextPart();
+  return sum;
+}
+
+int PoissonDistribution::nextPart() {
   double rnd = randomGenerator->nextDouble();
   int result = 0;
   double probability = expLambda;
   double threshold = expLambda;
   while (rnd >= threshold) {
     result += 1;
-    probability *= lambda_ / result;
+    probability *= partLambda / result;
+    // the sum of probabilities may be rounded to less than `rnd`
+    if (threshold + probability <= threshold) break;
     threshold += probability;
   }
   return result;
-- 
2.43.0


From b782273a1105c90cc8e095e1979e76b2e25cd4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:07 +0000
Subject: [PATCH 03/41] fix: binomial lookup table for more than 33 trials

The binomial coefficients overflowed int, so that the table was wrong.
---
 src/random/BinomialDistribution.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/random/BinomialDistribution.cpp b/src/random/BinomialDistribution.cpp
index db9727a..74b50c6 100644
--- a/src/random/BinomialDistribution.cpp
+++ b/src/random/BinomialDistribution.cpp
@@ -1,7 +1,6 @@
 #include "random/BinomialDistribution.h"
 
 #include <cmath>
-#include "math_utils/math_functions.h"
 #include "utils/error.h"
 
 namespace cuhksz {
@@ -15,11 +14,16 @@ void BinomialDistribution::init(int n, double p) {
   // generate probability lookup table
   lookup_table.reset(new double[n_ + 1]);
   double threshold = 0;
-  double p_complement = 1 - p_;
+  double logCoefficient = 0;  // of the binomial coefficient, which is too large
   for (int i = 0; i < n_; i++) {
-    threshold +=
-        binomial(n_, i) * std::pow(p_, i) * std::pow(p_complement, n_ - i);
+    if (p_ <= 0) {
+      threshold = 1;
+    } else if (p_ < 1) {
+      threshold += std::exp(logCoefficient + i * std::log(p_) +
+                            (n_ - i) * std::log(1 - p_));
+    }
     lookup_table[i] = threshold;
+    logCoefficient += std::log((double)(n_ - i) / (i + 1));
   }
   lookup_table[n_] = 1;
 }
-- 
2.43.0


From 1ce9c154bf1446ee029d7c0fe4437ab7cff60bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:07 +0000
Subject: [PATCH 04/41] fix: Student's t sample is finite when the chi-squared
 value rounds to 0

---
 src/random/StudentTDistribution.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/random/StudentTDistribution.cpp b/src/random/StudentTDistribution.cpp
index 74a9745..aac2d83 100644
--- a/src/random/StudentTDistribution.cpp
+++ b/src/random/StudentTDistribution.cpp
@@ -17,6 +17,11 @@ void StudentTDistribution::init(double r) {
 double StudentTDistribution::next() {
   NormalDistribution normal(*randomGenerator);
   ChiSquaredDistribution chi2(*randomGenerator, r_);
-  return normal.next() * std::sqrt(r_ / chi2.next());
+  double numerator = normal.next();
+  double scale;
+  do {  // a Chi-squared value may be rounded to 0
+    scale = std::sqrt(r_ / chi2.next());
+  } while (std::isinf(scale));
+  return numerator * scale;
 }
 }  // namespace cuhksz
-- 
2.43.0


From 23e8d055e53964040e6e4fb51419a3ace05f4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:02 +0000
Subject: [PATCH 05/41] fix: a failed Map::set no longer leaves a
 default-valued key behind

---
 src/include/containers/Map.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/containers/Map.h b/src/include/containers/Map.h
index 9099327..4f293ab 100644
--- a/src/include/containers/Map.h
+++ b/src/include/containers/Map.h
@@ -216,7 +216,14 @@ const ValueType& Map<KeyType, ValueType>::get(const KeyType& key) const {
 
 template <typename KeyType, typename ValueType>
 void Map<KeyType, ValueType>::set(const KeyType& key, const ValueType& value) {
-  privateMap[key] = value;
+  // not `privateMap[key] = value`, which leaves a new key with a default value
+  // behind when the assignment fails
+  auto iterator = privateMap.find(key);
+  if (iterator == privateMap.end()) {
+    privateMap.emplace(key, value);
+  } else {
+    iterator->second = value;
+  }
 }
 
 template <typename KeyType, typename ValueType>
-- 
2.43.0


From 25de907140e35a4b073078f19c2d08888e67a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:41 +0000
Subject: [PATCH 06/41] fix: JSON assignment survives failed allocations and
 own parts as source

Assigning a value to one of its own parents (obj = obj["a"]) or to itself read
freed memory, and a bad_alloc in the middle of an assignment or type change
left the object owning freed storage. Build the new contents first.
---
 src/include/json/Json.h |  3 ++-
 src/json/Json.cpp       | 49 ++++++++++++++---------------------------
 2 files changed, 19 insertions(+), 33 deletions(-)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 64967c3..68172d0 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -248,8 +248,9 @@ class JSONObject {
   template <typename T, typename std::enable_if<std::is_convertible<
                             T, std::string>::value>::type * = nullptr>
   JSONObject operator=(T value) {
+    std::string newString(value);
     setType(Type::String);
-    *Data.String = std::string(value);
+    Data.String->swap(newString);
     return *this;
   }
 
diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index efeda29..40fd03a 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -4,6 +4,7 @@
 #include <deque>
 #include <map>
 #include <string>
+#include <utility>
 
 #include "string_utils/StringCast.h"
 #include "utils/error.h"
@@ -260,31 +261,32 @@ JSONObject::~JSONObject() { clearData(); }
 void JSONObject::setType(Type type) {
   if (type == objType) return;
 
-  clearData();
-
+  data newData;
   switch (type) {
     case Type::Null:
-      Data.Map = nullptr;
+      newData.Map = nullptr;
       break;
     case Type::Object:
-      Data.Map = new std::map<std::string, JSONObject>();
+      newData.Map = new std::map<std::string, JSONObject>();
       break;
     case Type::Array:
-      Data.List = new std::deque<JSONObject>();
+      newData.List = new std::deque<JSONObject>();
       break;
     case Type::String:
-      Data.String = new std::string();
+      newData.String = new std::string();
       break;
     case Type::Float:
-      Data.Float = 0.0;
+      newData.Float = 0.0;
       break;
     case Type::Integral:
-      Data.Int = 0;
+      newData.Int = 0;
       break;
     case Type::Boolean:
-      Data.Bool = false;
+      newData.Bool = false;
       break;
   }
+  clearData();
+  Data = newData;
   objType = type;
 }
 
@@ -323,33 +325,16 @@ JSONObject::JSONObject(const JSONObject &src) {
 }
 
 JSONObject &JSONObject::operator=(JSONObject &&src) {
-  clearData();
-  Data = src.Data;
-  objType = src.objType;
-  src.Data.Map = nullptr;
-  src.objType = Type::Null;
+  // `src` may be part of `*this`, so it is moved out before anything is freed
+  JSONObject moved(std::move(src));
+  std::swap(Data, moved.Data);
+  std::swap(objType, moved.objType);
   return *this;
 }
 
 JSONObject &JSONObject::operator=(const JSONObject &src) {
-  clearData();
-  switch (src.objType) {
-    case Type::Object:
-      Data.Map = new std::map<std::string, JSONObject>(src.Data.Map->begin(),
-                                                       src.Data.Map->end());
-      break;
-    case Type::Array:
-      Data.List = new std::deque<JSONObject>(src.Data.List->begin(),
-                                             src.Data.List->end());
-      break;
-    case Type::String:
-      Data.String = new std::string(*src.Data.String);
-      break;
-    default:
-      Data = src.Data;
-  }
-  objType = src.objType;
-  return *this;
+  // copy first: `src` may be part of `*this`, and copying may fail
+  return operator=(JSONObject(src));
 }
 
 JSONObject &JSONObject::operator[](const char key[]) {
-- 
2.43.0


From 7c5180cf9ee764b44025945c2d055220960eb75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:03 +0000
Subject: [PATCH 07/41] fix: JSON parser stays inside the text it was given

An unterminated string, an escape or a number at the end of the input moved the
read position beyond the text. The exponent of a number lost its first digit
when written without a sign, and could not be followed by anything.
---
 src/json/Json.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 40fd03a..1cd86a0 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -90,6 +90,10 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
   JSONObject String;
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
+    if (offset >= str.length() ||
+        (c == '\\' && offset + 1 >= str.length())) {
+      error("String: Expected '\"', nothing remaining.");
+    }
     if (c == '\\') {
       switch (str[++offset]) {
         case '\"':
@@ -165,10 +169,12 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
     if (offset == str.length()) {
       error("Number: Expected a number for exponent, nothing remaining.");
     }
-    c = str[offset++];
-    if (c == '-') {
-      exp_str += '-';
+    c = str[offset];
+    if (c == '-' || c == '+') {
+      if (c == '-') exp_str += '-';
+      ++offset;
     }
+    std::size_t digits = offset;
     while (true) {
       c = str[offset];
 
@@ -182,11 +188,15 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
       }
       offset++;
     }
+    if (offset == digits) {
+      error("Number: Expected a number for exponent, found none");
+    }
     exp = cuhksz::stringCast<double>(exp_str);
   } else if (!isspace(c) && c != ',' && c != ']' && c != '}' && c != 0) {
     error("Number: unexpected character '" + std::string(1, c) + "'");
+  } else {
+    --offset;  // the character after the number is not part of it
   }
-  if (c != 0) --offset;
 
   if (isDouble)
     Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
-- 
2.43.0


From f1aa6248f86fcca0cf49930158dfac8393fda795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:03 +0000
Subject: [PATCH 08/41] fix: urlDecode does not read beyond a truncated escape

---
 src/network/network_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/network_functions.cpp b/src/network/network_functions.cpp
index d10efba..4ee7512 100644
--- a/src/network/network_functions.cpp
+++ b/src/network/network_functions.cpp
@@ -52,8 +52,8 @@ std::string urlDecode(const std::string str) {
     if (str[i] == '+') {
       escaped << ' ';
     } else if (str[i] == '%') {
-      int high = hexToInt(str[++i]);
-      int low = hexToInt(str[++i]);
+      int high = ++i < length ? hexToInt(str[i]) : 0;
+      int low = ++i < length ? hexToInt(str[i]) : 0;
 
       escaped << (unsigned char)(high * 16 + low);
     } else {
-- 
2.43.0


From b4b2616879c1d5cb9faf4430a97c0817cce1b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:03 +0000
Subject: [PATCH 09/41] fix: base64Decode keeps zero bytes of the encoded text

---
 src/base64/base64_functions.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/base64/base64_functions.cpp b/src/base64/base64_functions.cpp
index e110d2a..e83e3da 100644
--- a/src/base64/base64_functions.cpp
+++ b/src/base64/base64_functions.cpp
@@ -61,15 +61,12 @@ std::string base64Decode(std::string decodeStr) {
       binaryDecodeStr += std::bitset<6>(std::string{codes}.find(c)).to_string();
     }
   }
-  if (binaryDecodeStr.length() % 8) {
-    binaryDecodeStr += std::string(8 - binaryDecodeStr.length() % 8, '0');
-  }
+  // the last bits only fill up the last character
+  binaryDecodeStr.resize(binaryDecodeStr.length() / 8 * 8);
   for (std::size_t i = 0; i < binaryDecodeStr.length(); i += 8) {
     int index =
         (int)std::bitset<8>(binaryDecodeStr.substr((uint64_t)i, 8)).to_ulong();
-    if (index != 0) {
-      decoded << char(index);
-    }
+    decoded << char(index);
   }
   return decoded.str();
 }
-- 
2.43.0


From c9b84b380bb0145aadc5f5713aee2144436e50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:03 +0000
Subject: [PATCH 10/41] fix: text conversions report exhausted memory instead
 of a wrong result

The streams used inside swallowed bad_alloc, so a truncated text or an
uninitialized value was returned as if the conversion had worked.
---
 src/base64/base64_functions.cpp       | 2 ++
 src/include/string_utils/StringCast.h | 6 +++++-
 src/network/network_functions.cpp     | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base64/base64_functions.cpp b/src/base64/base64_functions.cpp
index e83e3da..16a64fe 100644
--- a/src/base64/base64_functions.cpp
+++ b/src/base64/base64_functions.cpp
@@ -15,6 +15,7 @@ std::string base64Encode(std::string str, int length) {
     return "";
   }
   std::ostringstream encoded;
+  encoded.exceptions(std::ios::badbit);
   std::string binaryStr = "";
   for (char &c : str) {
     binaryStr += std::bitset<8>((uint64_t)c).to_string();
@@ -56,6 +57,7 @@ std::string base64Encode(std::string str, int length) {
 std::string base64Decode(std::string decodeStr) {
   std::string binaryDecodeStr;
   std::ostringstream decoded;
+  decoded.exceptions(std::ios::badbit);
   for (char &c : decodeStr) {
     if (c != '=') {
       binaryDecodeStr += std::bitset<6>(std::string{codes}.find(c)).to_string();
diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 470be21..d93fc85 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -2,6 +2,7 @@
 #define CUHKSZ_STRINGUTILS_STRINGCAST
 #include <exception>
 #include <iostream>
+#include <new>
 #include <sstream>
 #include <string>
 namespace cuhksz {
@@ -21,9 +22,12 @@ class stringCast {
   explicit stringCast(const std::string &from) : m_from(from) {}
   operator T() const {
     std::stringstream strStream(m_from);
-    T casted;
+    strStream.exceptions(std::ios::badbit);
+    T casted = T();
     try {
       strStream >> casted;
+    } catch (std::bad_alloc &) {
+      throw;
     } catch (std::exception &e) {
       std::cerr << "not able to cast: " << e.what() << std::endl;
       return T(0);
diff --git a/src/network/network_functions.cpp b/src/network/network_functions.cpp
index 4ee7512..5d0fce3 100644
--- a/src/network/network_functions.cpp
+++ b/src/network/network_functions.cpp
@@ -23,6 +23,7 @@ int hexToInt(const char &x) {
 
 std::string urlEncode(const std::string &string) {
   std::ostringstream escaped;
+  escaped.exceptions(std::ios::badbit);
   escaped.fill('0');
   escaped << std::hex;
 
@@ -44,6 +45,7 @@ std::string urlEncode(const std::string &string) {
 
 std::string urlDecode(const std::string str) {
   std::ostringstream escaped;
+  escaped.exceptions(std::ios::badbit);
   escaped.fill('0');
   escaped << std::hex;
 
-- 
2.43.0


From 19308aff17668373b3e5ed5155751f1f67cd298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:54 +0000
Subject: [PATCH 11/41] fix: iterating a Trie visits every element

Going back up continued after the wrong arc and stopped below the root, so
elements were skipped.
---
 src/string_utils/Trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 6fea1af..e73383a 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -95,11 +95,11 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
     *n = next;
     return visit(n, offset, buffer);
   }
-  if (buffer->size() == 1 || buffer->empty()) {
+  if (buffer->empty()) {
     return false;
   } else {
-    buffer->pop_back();
     *offset = buffer->back() + 1;
+    buffer->pop_back();
     *n = check.getWithCheck(*n);
     return visit(n, offset, buffer);
   }
-- 
2.43.0


From 93ff5c44825a4df489949ff9c61f2f115e70e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:54 +0000
Subject: [PATCH 12/41] fix: removing an absent element from a Trie reads
 beyond its arrays

---
 src/string_utils/Trie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index e73383a..bad05dc 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -213,7 +213,7 @@ bool Trie::remove_(const std::string& word) {
   for (int i : adapter) {
     ind++;
     int next = base.get(n) + i;
-    if (check.get(next) != n) return false;
+    if (check.getWithCheck(next) != n) return false;
     n = next;
     if (base.get(n) < -1) {
       if (tail.getWithCheck(-base.get(n) - 2) == word.substr(ind)) {
-- 
2.43.0


From 2e5428ac7dc509004dfc52ffac1142463029a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:54 +0000
Subject: [PATCH 13/41] fix: every Trie uses its own character mapping

The mapping was shared by all tries, so creating one with another alphabet
(in this or another thread) broke the existing ones.
---
 src/include/string_utils/Trie.h | 20 +++++++++++---------
 src/string_utils/Trie.cpp       | 12 ++++--------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 9a38c85..22303fd 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -155,23 +155,24 @@ class Trie {
   /// \cond NODOC
   class StringAdapter {
    public:
-    explicit StringAdapter(const std::string& str) : underlying(str) {}
-    static int (*mapChar)(char);
+    StringAdapter(const std::string& str, int (*mapChar)(char))
+        : underlying(str), mapChar(mapChar) {}
 
    private:
     const std::string& underlying;
+    int (*mapChar)(char);
 
    public:
     class iterator : public std::iterator<std::input_iterator_tag, const int> {
      public:
-      explicit iterator(const std::string* str) : iterator(str, 0) {}
-      iterator(const std::string* str, std::size_t index)
-          : index_(index), str_(str) {}
-      iterator(const iterator& iter) : index_(iter.index_), str_(iter.str_) {}
+      iterator(const std::string* str, std::size_t index, int (*mapChar)(char))
+          : index_(index), str_(str), mapChar_(mapChar) {}
+      iterator(const iterator& iter)
+          : index_(iter.index_), str_(iter.str_), mapChar_(iter.mapChar_) {}
 
       int operator*() const {
         auto ch = (*str_)[index_];
-        return mapChar(ch);
+        return mapChar_(ch);
       }
 
       iterator& operator++() {
@@ -188,9 +189,10 @@ class Trie {
      private:
       std::size_t index_;
       const std::string* str_;
+      int (*mapChar_)(char);
     };
-    iterator begin() { return iterator(&underlying); }
-    iterator end() { return iterator(&underlying, underlying.size()); }
+    iterator begin() { return iterator(&underlying, 0, mapChar); }
+    iterator end() { return iterator(&underlying, underlying.size(), mapChar); }
   };
   /// \endcond
  public:
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index bad05dc..ed53e03 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -49,21 +49,17 @@ std::string commonPrefix(const std::string& string1,
 }
 }  // namespace
 
-// Used to fix undefined symbols error
-int (*Trie::StringAdapter::mapChar)(char) = nullptr;
-
 Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   base.set(0, 0);
   pos = 0;
   this->mapChar = mapChar;
   this->mapInt = mapInt;
-  StringAdapter::mapChar = mapChar;
   size_ = 0;
 }
 
 bool Trie::retrieve(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -107,7 +103,7 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
 
 void Trie::insert_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -121,7 +117,7 @@ void Trie::insert_(const std::string& word) {
       auto prefix = commonPrefix(word.substr(ind), tail_temp);
       int prefix_length = prefix.size();
 
-      for (int j : StringAdapter(prefix)) {
+      for (int j : StringAdapter(prefix, mapChar)) {
         int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
@@ -208,7 +204,7 @@ void Trie::insert_(const std::string& word) {
 
 bool Trie::remove_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
-- 
2.43.0


From 48f2138a82fd6a21146a33c088933733deb43229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:32 +0000
Subject: [PATCH 14/41] fix: Trie keeps its elements with alphabets of more
 than 26 characters

---
 src/include/string_utils/Trie.h |  2 ++
 src/string_utils/Trie.cpp       | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 22303fd..5e8d36d 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -139,6 +139,7 @@ class Trie {
   char (*mapInt)(int);
   std::queue<int> tailList;
   int size_;
+  int arcEnd;  // larger than all characters mapped in insertion
 
   bool retrieve(const std::string&);
   void insert_(const std::string&);
@@ -149,6 +150,7 @@ class Trie {
   int checkAvailable(int);
   int checkAvailable(int, int);
 
+  int newArc(int);
   std::vector<int> outArcs(int);
   void setTail(int, int, const std::string&);
   int nextTail();
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index ed53e03..ee9ccbe 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -55,6 +55,7 @@ Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   this->mapChar = mapChar;
   this->mapInt = mapInt;
   size_ = 0;
+  arcEnd = 2;
 }
 
 bool Trie::retrieve(const std::string& word) {
@@ -73,7 +74,7 @@ bool Trie::retrieve(const std::string& word) {
 }
 
 bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
-  for (; *offset < 28; (*offset)++) {
+  for (; *offset < arcEnd; (*offset)++) {
     int next = base.getWithCheck(*n) + *offset;
     if (check.getWithCheck(next) != *n) continue;
     buffer->push_back(*offset);
@@ -107,7 +108,7 @@ void Trie::insert_(const std::string& word) {
   int ind = 0;
   for (int i : adapter) {
     ind++;
-    int next = base.get(n) + i;
+    int next = base.get(n) + newArc(i);
     if (check.getWithCheck(next) == -1) {
       setTail(n, next, word.substr(ind));
       break;
@@ -118,14 +119,14 @@ void Trie::insert_(const std::string& word) {
       int prefix_length = prefix.size();
 
       for (int j : StringAdapter(prefix, mapChar)) {
-        int available = checkAvailable(j);
+        int available = checkAvailable(newArc(j));
         base.set(next, available);
         check.set(available + j, next);
         next = base.get(next) + j;
       }
 
-      int char_val_tail = mapChar(tail_temp[prefix_length]);
-      int char_val_new = mapChar(word[ind + prefix_length]);
+      int char_val_tail = newArc(mapChar(tail_temp[prefix_length]));
+      int char_val_new = newArc(mapChar(word[ind + prefix_length]));
 
       int q = checkAvailable(char_val_tail, char_val_new);
       base.set(next, q);
@@ -251,10 +252,15 @@ inline int Trie::checkAvailable(int i) {
   }
 }
 
+inline int Trie::newArc(int i) {
+  if (i >= arcEnd) arcEnd = i + 1;
+  return i;
+}
+
 inline std::vector<int> Trie::outArcs(int n) {
   std::vector<int> rtn;
   int base_n = base.get(n);
-  for (int i = 1; i < 28; i++) {
+  for (int i = 1; i < arcEnd; i++) {
     if (check.getWithCheck(base_n + i) == n) rtn.push_back(i);
   }
   return rtn;
-- 
2.43.0


From 0bdac0e878da862d40b4499b0dd8797f81c39ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:36 +0000
Subject: [PATCH 15/41] fix: Trie::insert leaves the trie unchanged when memory
 runs out

---
 src/include/string_utils/Trie.h | 12 +++++++++-
 src/string_utils/Trie.cpp       | 41 ++++++++++++++++++++++++---------
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 5e8d36d..ddf2462 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -1,9 +1,11 @@
 #ifndef CUHKSZ_STRINGUTILS_TRIE
 #define CUHKSZ_STRINGUTILS_TRIE
 
+#include <algorithm>
 #include <iterator>
 #include <queue>
 #include <string>
+#include <utility>
 #include <vector>
 
 namespace cuhksz {
@@ -31,7 +33,14 @@ class AutoArray {
       vec.resize(pos + 1 + initialLength, defaultValue);
       size_ = pos + 1 + initialLength;
     }
-    vec[pos] = value;
+    vec[pos] = std::move(value);
+  }
+
+  // After this, setting positions up to `pos` does not allocate memory.
+  void reserve(int pos) {
+    std::size_t needed = pos + 1 + initialLength;
+    if (needed > vec.capacity())
+      vec.reserve(std::max(needed, 2 * vec.capacity()));
   }
 
   int size() { return size_; }
@@ -153,6 +162,7 @@ class Trie {
   int newArc(int);
   std::vector<int> outArcs(int);
   void setTail(int, int, const std::string&);
+  void reserve(int);
   int nextTail();
   /// \cond NODOC
   class StringAdapter {
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index ee9ccbe..d66cf0f 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -117,25 +117,30 @@ void Trie::insert_(const std::string& word) {
       const std::string& tail_temp = tail.get(temp);
       auto prefix = commonPrefix(word.substr(ind), tail_temp);
       int prefix_length = prefix.size();
+      for (int j : StringAdapter(prefix, mapChar)) newArc(j);
+      int char_val_tail = newArc(mapChar(tail_temp[prefix_length]));
+      int char_val_new = newArc(mapChar(word[ind + prefix_length]));
+
+      // get all memory before the first change, so that it cannot fail half-way
+      std::string rest_tail = tail_temp.substr(prefix_length + 1);
+      std::string rest_new = word.substr(ind + prefix_length + 1);
+      reserve(prefix_length + 1);
+      if (tail_temp[prefix_length] == endChar) tailList.push(temp);
 
       for (int j : StringAdapter(prefix, mapChar)) {
-        int available = checkAvailable(newArc(j));
+        int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
         next = base.get(next) + j;
       }
 
-      int char_val_tail = newArc(mapChar(tail_temp[prefix_length]));
-      int char_val_new = newArc(mapChar(word[ind + prefix_length]));
-
       int q = checkAvailable(char_val_tail, char_val_new);
       base.set(next, q);
       if (tail_temp[prefix_length] == endChar) {
         base.set(q + char_val_tail, -1);
-        tailList.push(temp);
       } else {
         base.set(q + char_val_tail, -temp - 2);
-        tail.set(temp, tail_temp.substr(prefix_length + 1));
+        tail.set(temp, std::move(rest_tail));
       }
       check.set(q + char_val_tail, next);
 
@@ -144,7 +149,7 @@ void Trie::insert_(const std::string& word) {
       } else {
         int p = nextTail();
         base.set(q + char_val_new, -p - 2);
-        tail.set(p, word.substr(ind + prefix_length + 1));
+        tail.set(p, std::move(rest_new));
       }
       check.set(q + char_val_new, next);
       break;
@@ -168,6 +173,10 @@ void Trie::insert_(const std::string& word) {
         new_base = checkAvailable(*modify_list);
       }
 
+      // get all memory before the first change, so that it cannot fail half-way
+      std::string rest = word.substr(ind);
+      reserve(1);
+
       int temp_base = base.get(node_modify);
       base.set(node_modify, new_base);
       for (int j : *modify_list) {
@@ -179,9 +188,11 @@ void Trie::insert_(const std::string& word) {
         base.set(node_new, base.get(node_old));
         check.set(node_new, check.get(node_old));
         if (base.get(node_old) > -1) {
-          std::vector<int> list = outArcs(node_old);
-          for (int k : list) {
-            check.set(base.get(node_old) + k, node_new);
+          for (int k = 1; k < arcEnd; k++) {
+            int child = base.get(node_old) + k;
+            if (check.getWithCheck(child) == node_old) {
+              check.set(child, node_new);
+            }
           }
         }
         base.set(node_old, -1);
@@ -194,7 +205,7 @@ void Trie::insert_(const std::string& word) {
       } else {
         int p = nextTail();
         base.set(temp_node, -p - 2);
-        tail.set(p, word.substr(ind));
+        tail.set(p, std::move(rest));
       }
       check.set(temp_node, node_other);
       break;
@@ -273,6 +284,14 @@ void Trie::setTail(int n, int next, const std::string& rest) {
   check.set(next, n);
 }
 
+// Memory for `nodes` calls of checkAvailable and one more tail.
+void Trie::reserve(int nodes) {
+  int last = check.size() + arcEnd * nodes;
+  base.reserve(last);
+  check.reserve(last);
+  tail.reserve(pos);
+}
+
 int Trie::nextTail() {
   if (tailList.empty()) return pos++;
 
-- 
2.43.0


From dfce4bbc96d72393625d8bb015e4fdb1849dc95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:36 +0000
Subject: [PATCH 16/41] fix: vertices and edges made by different threads get
 different IDs

---
 src/graph/Edge.cpp         | 2 +-
 src/graph/Vertex.cpp       | 2 +-
 src/include/graph/Edge.h   | 4 +++-
 src/include/graph/Vertex.h | 3 ++-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/graph/Edge.cpp b/src/graph/Edge.cpp
index df51edf..d1a64ab 100644
--- a/src/graph/Edge.cpp
+++ b/src/graph/Edge.cpp
@@ -2,7 +2,7 @@
 
 namespace cuhksz {
 
-int Edge::nextEdgeID = 0;
+std::atomic<int> Edge::nextEdgeID(0);
 
 Edge::Edge(Vertex* from, Vertex* to, int val) : from(from), to(to), val(val) {
   use = true;
diff --git a/src/graph/Vertex.cpp b/src/graph/Vertex.cpp
index 26e068e..a236668 100644
--- a/src/graph/Vertex.cpp
+++ b/src/graph/Vertex.cpp
@@ -6,7 +6,7 @@
 
 namespace cuhksz {
 
-int Vertex::nextVertexID = 0;
+std::atomic<int> Vertex::nextVertexID(0);
 
 Vertex::Vertex() {
   val = 0;
diff --git a/src/include/graph/Edge.h b/src/include/graph/Edge.h
index 66f8b6f..c26ab91 100644
--- a/src/include/graph/Edge.h
+++ b/src/include/graph/Edge.h
@@ -1,6 +1,8 @@
 #ifndef CUHKSZ_GRAPH_EDGE
 #define CUHKSZ_GRAPH_EDGE
 
+#include <atomic>
+
 #include "graph/Vertex.h"
 
 namespace cuhksz {
@@ -31,7 +33,7 @@ class Edge {
   int val;
   bool use;
   int id;
-  static int nextEdgeID;
+  static std::atomic<int> nextEdgeID;
 };
 
 }  // namespace cuhksz
diff --git a/src/include/graph/Vertex.h b/src/include/graph/Vertex.h
index e437216..2c3ec51 100644
--- a/src/include/graph/Vertex.h
+++ b/src/include/graph/Vertex.h
@@ -1,6 +1,7 @@
 #ifndef CUHKSZ_GRAPH_VERTEX
 #define CUHKSZ_GRAPH_VERTEX
 
+#include <atomic>
 #include <list>
 
 namespace cuhksz {
@@ -37,7 +38,7 @@ class Vertex {
   int val;
   bool use;
   int id;
-  static int nextVertexID;
+  static std::atomic<int> nextVertexID;
 };
 
 }  // namespace cuhksz
-- 
2.43.0


From ee1ce2ff8549af5222229872650041b426a5120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:36 +0000
Subject: [PATCH 17/41] fix: the process-wide random functions can be used from
 several threads

The shared generator was created and advanced without synchronization.
---
 src/random/random_functions.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/random/random_functions.cpp b/src/random/random_functions.cpp
index f1c52f6..2d26038 100644
--- a/src/random/random_functions.cpp
+++ b/src/random/random_functions.cpp
@@ -1,42 +1,50 @@
 #include "random/random_functions.h"
 
 #include <ctime>
-#include <memory>
+#include <mutex>
 #include "random/Random.h"
 
 namespace cuhksz {
 namespace {
 cuhksz::Random& getInitializedGenerator() {
-  static bool initialized;
-  static std::unique_ptr<cuhksz::Random> randomGenerator;
-  if (!initialized) {
-    randomGenerator.reset(new cuhksz::Random());
-    initialized = true;
-  }
-  return *randomGenerator;
+  static cuhksz::Random randomGenerator;
+  return randomGenerator;
+}
+
+// The generator is shared by all threads. Recursive, because invalid arguments
+// end the process while it is locked, and exit handlers may draw numbers.
+using GeneratorLock = std::lock_guard<std::recursive_mutex>;
+std::recursive_mutex& getGeneratorMutex() {
+  static std::recursive_mutex generatorMutex;
+  return generatorMutex;
 }
 }  // namespace
 
 int randomInt() {
+  GeneratorLock lock(getGeneratorMutex());
   auto& randomGenerator = getInitializedGenerator();
   return randomGenerator.nextInt();
 }
 
 int randomInt(int max) {
+  GeneratorLock lock(getGeneratorMutex());
   auto& randomGenerator = getInitializedGenerator();
   return randomGenerator.nextInt(max);
 }
 int randomInt(int min, int max) {
+  GeneratorLock lock(getGeneratorMutex());
   auto& randomGenerator = getInitializedGenerator();
   return randomGenerator.nextInt(min, max);
 }
 double randomDouble(double min, double max) {
+  GeneratorLock lock(getGeneratorMutex());
   auto& randomGenerator = getInitializedGenerator();
   return randomGenerator.nextDouble(min, max);
 }
 double randomDouble(double max) { return randomDouble(0, max); }
 double randomDouble() { return randomDouble(0, 1); }
 bool randomBool() {
+  GeneratorLock lock(getGeneratorMutex());
   auto& randomGenerator = getInitializedGenerator();
   return randomGenerator.nextBool();
 }
-- 
2.43.0


From 739a06721c4fc633bca86293d4216ab1bb6f8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:46 +0000
Subject: [PATCH 18/41] fix: Student's t sample is finite when the chi-squared
 value rounds to minus 0

---
 src/random/StudentTDistribution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/StudentTDistribution.cpp b/src/random/StudentTDistribution.cpp
index aac2d83..33c20f3 100644
--- a/src/random/StudentTDistribution.cpp
+++ b/src/random/StudentTDistribution.cpp
@@ -21,7 +21,7 @@ double StudentTDistribution::next() {
   double scale;
   do {  // a Chi-squared value may be rounded to 0
     scale = std::sqrt(r_ / chi2.next());
-  } while (std::isinf(scale));
+  } while (!std::isfinite(scale));
   return numerator * scale;
 }
 }  // namespace cuhksz
-- 
2.43.0


From 492fddaeca56e3237323a26e5bd477629d9eb938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:34 +0000
Subject: [PATCH 19/41] fix: JSON keys that need escaping survive being stored
 and read back

---
 src/json/Json.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 1cd86a0..0a04351 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -12,6 +12,7 @@
 namespace cuhksz {
 namespace {
 JSONObject parse_next(const std::string &str, size_t &offset);
+std::string parse_text(const std::string &str, size_t &offset);
 
 void skip_whitespaces(const std::string &str, size_t &offset) {
   while (isspace(str[offset])) ++offset;
@@ -28,7 +29,13 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
   }
 
   while (true) {
-    JSONObject Key = parse_next(str, offset);
+    std::string key;  // as it is, since `toString` would escape it
+    skip_whitespaces(str, offset);
+    if (str[offset] == '\"') {
+      key = parse_text(str, offset);
+    } else {
+      parse_next(str, offset);
+    }
     skip_whitespaces(str, offset);
     if (str[offset] != ':') {
       error("Object: Expected colon, found '" + std::string(1, str[offset]) +
@@ -37,7 +44,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
     }
     skip_whitespaces(str, ++offset);
     JSONObject Value = parse_next(str, offset);
-    Object[Key.toString()] = Value;
+    Object[key] = Value;
 
     skip_whitespaces(str, offset);
     if (str[offset] == ',') {
@@ -86,8 +93,7 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
   return Array;
 }
 
-JSONObject parse_string(const std::string &str, size_t &offset) {
-  JSONObject String;
+std::string parse_text(const std::string &str, size_t &offset) {
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
     if (offset >= str.length() ||
@@ -144,7 +150,12 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
     }
   }
   ++offset;
-  String = val;
+  return val;
+}
+
+JSONObject parse_string(const std::string &str, size_t &offset) {
+  JSONObject String;
+  String = parse_text(str, offset);
   return String;
 }
 
@@ -257,7 +268,8 @@ JSONObject::JSONObject() : Data(), objType(Type::Null) {}
 JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
-    operator[](i->toString()) = *std::next(i);
+    operator[](i->objType == Type::String ? *i->Data.String : std::string()) =
+        *std::next(i);
 }
 
 JSONObject::JSONObject(JSONObject &&other)
@@ -434,7 +446,8 @@ std::string JSONObject::dump(int depth, std::string tab) const {
       bool skip = true;
       for (auto &p : *Data.Map) {
         if (!skip) s += ",\n";
-        s += (pad + "\"" + p.first + "\" : " + p.second.dump(depth + 1, tab));
+        s += (pad + "\"" + jsonEscape(p.first) + "\" : " +
+              p.second.dump(depth + 1, tab));
         skip = false;
       }
       s += ("\n" + pad.erase(0, 2) + "}");
-- 
2.43.0


From 5fcfce5dd28b005bcee3bff7777493d161702120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:41 +0000
Subject: [PATCH 20/41] fix: point arithmetic no longer leaks its results

operator+, -, * and / built their result with new and returned a copy of it,
so every call leaked one point.
---
 src/include/geometry/Point.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index de7348c..38bc76d 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -46,13 +46,13 @@ class Point {
 
   // TODO: what about init a null Point then assign to elem[i] + other.elem[i]
   Point operator+(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] + other.elem[i];
     return ret;
   }
 
   Point operator-(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] - other.elem[i];
     return ret;
   }
@@ -75,7 +75,7 @@ class Point {
   }
 
   Point operator*(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] * constant;
     return ret;
   }
@@ -90,7 +90,7 @@ class Point {
   }
 
   Point operator/(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] / constant;
     return ret;
   }
-- 
2.43.0


From 5a44b3a35574645ffbecdf23c3d2f2292da4341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:41 +0000
Subject: [PATCH 21/41] fix: copying a BigNum copies all of its digits

Only the significant digits were copied, while add and sub read the digits
above them as zeroes: a copy computed with uninitialised or stale digits.
---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 9890803..439290a 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -43,7 +43,7 @@ class BigNum {
   BigNum(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
   }
 
   ~BigNum() {}
@@ -52,7 +52,7 @@ class BigNum {
   BigNum& operator=(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
     return *this;
   }
 
-- 
2.43.0


From d196a9307766a96050d86318b551db47ebb3b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:16 +0000
Subject: [PATCH 22/41] fix: kmpSearch with an empty pattern writes no memory
 it does not own

next[0] was written although the table had no element.
---
 src/algorithm/kmp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/kmp.cpp b/src/algorithm/kmp.cpp
index cfa6286..375c83a 100644
--- a/src/algorithm/kmp.cpp
+++ b/src/algorithm/kmp.cpp
@@ -8,7 +8,7 @@ int kmpSearch(const std::string& base, const std::string& pattern,
               std::size_t start) {
   // generate next table
   int psize = pattern.size();
-  std::unique_ptr<int[]> next = std::unique_ptr<int[]>(new int[psize]);
+  std::unique_ptr<int[]> next = std::unique_ptr<int[]>(new int[psize + 1]);
   next[0] = -1;
   int j = 0;
   int k = -1;
-- 
2.43.0


From 001f88b34839e22d0eeb361b78edefdd661f40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:17 +0000
Subject: [PATCH 23/41] fix: a leaf of a segment tree passes no pending update
 on

A leaf has no children; its pending updates were written behind the end of
the arrays once the tree had six or more elements.
---
 src/include/graph/SegmentTree.h | 54 ++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 1ef57a7..5881c9c 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -80,21 +80,23 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
     sumVal[o] *= mulFlag[o];
-    if (hasMulFlag[ls]) {
-      mulFlag[ls] *= mulFlag[o];
-    } else {
-      hasMulFlag[ls] = true;
-      mulFlag[ls] = mulFlag[o];
+    if (l != r) {
+      if (hasMulFlag[ls]) {
+        mulFlag[ls] *= mulFlag[o];
+      } else {
+        hasMulFlag[ls] = true;
+        mulFlag[ls] = mulFlag[o];
+      }
+      if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
+
+      if (hasMulFlag[rs]) {
+        mulFlag[rs] *= mulFlag[o];
+      } else {
+        hasMulFlag[rs] = true;
+        mulFlag[rs] = mulFlag[o];
+      }
+      if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
     }
-    if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
-
-    if (hasMulFlag[rs]) {
-      mulFlag[rs] *= mulFlag[o];
-    } else {
-      hasMulFlag[rs] = true;
-      mulFlag[rs] = mulFlag[o];
-    }
-    if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
   }
 
   if (hasAddFlag[o]) {
@@ -102,17 +104,19 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] += addFlag[o];
     maxVal[o] += addFlag[o];
     sumVal[o] += addFlag[o] * (r - l + 1);
-    if (hasAddFlag[ls]) {
-      addFlag[ls] += addFlag[o];
-    } else {
-      hasAddFlag[ls] = true;
-      addFlag[ls] = addFlag[o];
-    }
-    if (hasAddFlag[rs]) {
-      addFlag[rs] += addFlag[o];
-    } else {
-      hasAddFlag[rs] = true;
-      addFlag[rs] = addFlag[o];
+    if (l != r) {
+      if (hasAddFlag[ls]) {
+        addFlag[ls] += addFlag[o];
+      } else {
+        hasAddFlag[ls] = true;
+        addFlag[ls] = addFlag[o];
+      }
+      if (hasAddFlag[rs]) {
+        addFlag[rs] += addFlag[o];
+      } else {
+        hasAddFlag[rs] = true;
+        addFlag[rs] = addFlag[o];
+      }
     }
   }
 }
-- 
2.43.0


From 889aed54464ec699e4e2ffe85e89d67e0a1b9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:39 +0000
Subject: [PATCH 24/41] fix: matrices leak nothing and survive memory
 exhaustion

operator* and operator*= leaked their result and operator*= freed the old rows
twice; a failed allocation leaked the rows allocated so far and left an
assigned matrix without its rows.
---
 src/include/math_utils/Matrix.h | 61 +++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index c613792..cf22328 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -18,21 +18,17 @@ class Matrix {
   explicit Matrix(int n) : Matrix(n, n) {}
 
   Matrix(int n, int m) : row(n), col(m) {
-    elem = new ValueType*[row];
-    for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
+    elem = allocate(row, col);
+    for (int i = 0; i < row; i++)
       std::memset(elem[i], 0, col * sizeof(ValueType));
-    }
   }
 
   Matrix(std::vector<std::vector<int> > ini) {
     row = ini.size();
     col = ini[0].size();
-    elem = new ValueType*[row];
-    for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
+    elem = allocate(row, col);
+    for (int i = 0; i < row; i++)
       for (int j = 0; j < col; j++) elem[i][j] = ini[i][j];
-    }
   }
 
   Matrix(const Matrix& src) { deepCopy(src); }
@@ -42,8 +38,8 @@ class Matrix {
   // allocation
   Matrix& operator=(const Matrix& src) {
     if (this == &src) return *this;
-    clear();
-    deepCopy(src);
+    Matrix copy(src);
+    swap(copy);
     return *this;
   }
 
@@ -69,23 +65,18 @@ class Matrix {
 
   Matrix operator*(const Matrix& other) const {
     assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
+    Matrix ret(row, other.col);
+    for (int i = 0; i < ret.row; i++)
+      for (int j = 0; j < ret.col; j++)
         for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    return *ret;
+          ret[i][j] += (*this)[i][k] * other[k][j];
+    return ret;
   }
 
   Matrix& operator*=(const Matrix& other) {
     assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
-        for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    clear();
-    *this = *ret;
+    Matrix ret(*this * other);
+    swap(ret);
     return *this;
   }
 
@@ -126,11 +117,9 @@ class Matrix {
 
   void deepCopy(const Matrix& src) {
     row = src.row, col = src.col;
-    elem = new ValueType*[row];
-    for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
+    elem = allocate(row, col);
+    for (int i = 0; i < row; i++)
       for (int j = 0; j < col; j++) elem[i][j] = src[i][j];
-    }
   }
 
   friend Matrix& idMat(int n) {
@@ -195,6 +184,26 @@ class Matrix {
   ValueType** elem;
   int row;
   int col;
+
+  // Rows of a matrix; leaves nothing behind when memory runs out.
+  static ValueType** allocate(int row, int col) {
+    ValueType** rows = new ValueType*[row];
+    int done = 0;
+    try {
+      for (; done < row; done++) rows[done] = new ValueType[col];
+    } catch (...) {
+      while (done > 0) delete[] rows[--done];
+      delete[] rows;
+      throw;
+    }
+    return rows;
+  }
+
+  void swap(Matrix& other) {
+    std::swap(elem, other.elem);
+    std::swap(row, other.row);
+    std::swap(col, other.col);
+  }
 };
 
 }  // namespace cuhksz
-- 
2.43.0


From 444d8317390e0e6c7fd0352d4184b6f40d8706a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:39 +0000
Subject: [PATCH 25/41] fix: connecting two vertices is all or nothing when
 memory runs out

A failed allocation leaked the edge or left it known to one end only.
---
 src/graph/Vertex.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph/Vertex.cpp b/src/graph/Vertex.cpp
index a236668..4808677 100644
--- a/src/graph/Vertex.cpp
+++ b/src/graph/Vertex.cpp
@@ -66,9 +66,10 @@ bool Vertex::operator!=(const Vertex& src) const { return !(*this == src); }
 bool Vertex::operator<(const Vertex& src) const { return val < src.val; }
 
 void Vertex::addEdge(Vertex& to, int val) {
-  Edge* e = new Edge(this, &to, val);
-  outEdges.push_back(e);
-  to.inEdges.push_back(e);
+  std::list<Edge*> out(1), in(1);  // all memory is there before the first change
+  out.front() = in.front() = new Edge(this, &to, val);
+  outEdges.splice(outEdges.end(), out);
+  to.inEdges.splice(to.inEdges.end(), in);
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From a07828c3f60b3a91a19e9de8b61ca650621784d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:39 +0000
Subject: [PATCH 26/41] fix: a new tree node has height 0 instead of an
 uninitialised one

---
 src/graph/Tree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 8741b26..4e49643 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -4,6 +4,7 @@ namespace cuhksz {
 
 Node::Node(int id, int val) : id(id), val(val) {
   fa = nullptr;
+  height = 0;
   son.clear();
 }
 
-- 
2.43.0


From b13938936ff8d560dfcc1be3930cfb337a767f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:39 +0000
Subject: [PATCH 27/41] fix: a tree without a root says so instead of returning
 an uninitialised pointer

---
 src/include/graph/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/graph/Tree.h b/src/include/graph/Tree.h
index 4ead6d6..5e0fe4b 100644
--- a/src/include/graph/Tree.h
+++ b/src/include/graph/Tree.h
@@ -43,7 +43,7 @@ class Tree {
   int getDistance(Node* x, Node* y);
 
  private:
-  Node* root;
+  Node* root = nullptr;
   std::vector<Node*> nodes;
 };
 
-- 
2.43.0


From 56491cbcbad9b6f66ac0335cff94091bf82920a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:39 +0000
Subject: [PATCH 28/41] fix: adding a node to a tree is all or nothing when
 memory runs out

A failed allocation left the node known to its father with half of its
ancestors.
---
 src/graph/Tree.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 4e49643..bf6b981 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -25,15 +25,16 @@ void Tree::setRoot(Node* newRoot) {
 }
 
 void Tree::addNode(Node* node, Node* fa) {
-  fa->addSon(node);
-  node->setFa(fa);
-  node->setHeight(fa->getHeight() + 1);
-  node->ancestor.push_back(fa);
+  std::vector<Node*> ancestor(1, fa);
   for (int i = 0;; i++) {
-    Node* nextNode = node->ancestor[i];
+    Node* nextNode = ancestor[i];
     if ((int)nextNode->ancestor.size() <= i) break;
-    node->ancestor.push_back(nextNode->ancestor[i]);
+    ancestor.push_back(nextNode->ancestor[i]);
   }
+  fa->addSon(node);  // the last step that can fail
+  node->setFa(fa);
+  node->setHeight(fa->getHeight() + 1);
+  node->ancestor.swap(ancestor);
 }
 
 Node* Tree::LCA(Node* x, Node* y) {
-- 
2.43.0


From 90548a07f5ede6e515a14edcf3ad3808f404a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:06 +0000
Subject: [PATCH 29/41] fix: the lowest common ancestor search stays inside the
 ancestor lists

After a jump the nodes have fewer recorded ancestors than the search assumed
and it read behind the end of their lists.
---
 src/graph/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index bf6b981..5c086d4 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -45,7 +45,7 @@ Node* Tree::LCA(Node* x, Node* y) {
     x = x->getAncestor(hx - hy);
   if (x == y) return x;
   for (int i = x->ancestor.size() - 1; i >= 0; i--) {
-    if (x->ancestor[i] != y->ancestor[i]) {
+    if (i < (int)x->ancestor.size() && x->ancestor[i] != y->ancestor[i]) {
       x = x->ancestor[i], y = y->ancestor[i];
     }
   }
-- 
2.43.0


From 40d6d1e9e2fe9b2f1305e74421cccfcaeb45b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:13 +0000
Subject: [PATCH 30/41] fix: BigNum compares absolute values without regard to
 signs

sub(a, b) and sub(b, a) called each other until the stack overflowed when the
smaller operand was positive and the other one negative.
---
 src/include/math_utils/BigNum.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 439290a..bffb1c5 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -238,9 +238,10 @@ class BigNum {
 
   friend int cmp(const BigNum& a, const BigNum& b, bool isAbs = false) {
     if (!isAbs && a.sign != b.sign) return a.sign > b.sign ? 1 : -1;
-    if (a.len != b.len) return a.len > b.len ? a.sign : -a.sign;
+    int bigger = isAbs ? 1 : a.sign;
+    if (a.len != b.len) return a.len > b.len ? bigger : -bigger;
     for (int i = a.len - 1; i >= 0; i--)
-      if (a[i] != b[i]) return a[i] > b[i] ? a.sign : -a.sign;
+      if (a[i] != b[i]) return a[i] > b[i] ? bigger : -bigger;
     return 0;
   }
 
-- 
2.43.0


From 597239aa1b86d8cfc289a7984729b03483fe41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:13 +0000
Subject: [PATCH 31/41] fix: a vector is printed completely or memory
 exhaustion is reported

The elements were collected in a string stream, which swallows std::bad_alloc;
the printed vector silently lacked elements.
---
 src/include/containers/Vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index 8503569..ee84cf0 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -389,6 +389,7 @@ void Vector<ValueType>::emptyCheck() const {
 template <typename ValueType>
 std::ostream& operator<<(std::ostream& os, const Vector<ValueType>& vec) {
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit);  // do not drop elements when memory runs out
   if (vec.size() == 0) {
     return os << "{}";
   }
-- 
2.43.0


From b61695423d75fe9f007f48df6244914eb01998a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:08 +0000
Subject: [PATCH 32/41] fix: asking an empty queue for its first or last
 element is an error

first() and last() returned a reference into memory that holds no element,
where dequeue() and the other containers report the misuse.
---
 src/include/containers/Queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/containers/Queue.h b/src/include/containers/Queue.h
index 1d140ee..80db91e 100644
--- a/src/include/containers/Queue.h
+++ b/src/include/containers/Queue.h
@@ -155,21 +155,25 @@ Queue<ValueType> Queue<ValueType>::operator=(const Queue& queue2) {
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::first() {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::first() const {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::last() {
+  emptyCheck();
   return privateQueue.back();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::last() const {
+  emptyCheck();
   return privateQueue.back();
 }
 
-- 
2.43.0


From 51e2a1bfa2038893c6db54ca0372ef7e729d42bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:53 +0000
Subject: [PATCH 33/41] fix: reading a vector from a stream ends and reports
 failed reads

A value that cannot be read, or a stream that fails, made operator>> loop
for ever appending values; an empty or failed stream left the compared
character uninitialised; unget() made input from unbuffered streams fail.
---
 src/include/containers/Vector.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index ee84cf0..7529c58 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -404,20 +404,20 @@ std::ostream& operator<<(std::ostream& os, const Vector<ValueType>& vec) {
 template <typename ValueType>
 std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
   char ch;
-  is >> ch;
-  if (ch != '{') {
+  if (!(is >> ch) || ch != '{') {
     error("A vector should startwith \'{\'");
   }
   vec.clear();
-  is >> ch;
-  if (ch != '}') {
-    is.unget();
+  if ((is >> std::ws).peek() == '}') {
+    is.get();
+  } else {
     while (true) {
       ValueType value;
-      is >> value;
+      if (!(is >> value)) {
+        error("A vector must endwith \'}\' and contain valid values only");
+      }
       vec.push(value);
-      is >> ch;
-      if (is.eof()) {
+      if (!(is >> ch)) {
         error("A vector must endwith \'}\'");
       }
       if (ch == '}') {
-- 
2.43.0


From 907bb2b86174dfcc411dd886eb2117c225515f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:35 +0000
Subject: [PATCH 34/41] fix: dividing by fractions reports zero divisors and
 only those

`a /= b` divided numerators and denominators as integers, which crashed for
b = 0 and took valid divisions such as (1/2) / (1/3) for a division by zero;
`n / a` computed a / n, which accepted a = 0 and refused n = 0.
---
 src/include/math_utils/Fraction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index 4d97ccd..6b89c80 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -87,11 +87,11 @@ class Fraction {
   }
 
   friend Fraction operator/(int value, Fraction const &self) {
-    return self / value;
+    return Fraction(value) / self;
   }
 
   void operator/=(Fraction const &other) {
-    Fraction tmp(numerator / other.numerator, denominator / other.denominator);
+    Fraction tmp(numerator * other.denominator, denominator * other.numerator);
     numerator = tmp.numerator;
     denominator = tmp.denominator;
   }
-- 
2.43.0


From 75f5cfc534eb4e4ffda02b7350dabcf7c2594877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:56 +0000
Subject: [PATCH 35/41] fix: an exponential distribution of rate 0 is an
 invalid one

The scale of the underlying gamma distribution is then infinite, which
passed as valid, and so was every sample.
---
 src/random/GammaDistribution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/GammaDistribution.cpp b/src/random/GammaDistribution.cpp
index cb91dd2..989a0af 100644
--- a/src/random/GammaDistribution.cpp
+++ b/src/random/GammaDistribution.cpp
@@ -9,7 +9,7 @@
 
 namespace cuhksz {
 void GammaDistribution::init(double k, double theta) {
-  if (k <= 0 || theta <= 0) {
+  if (k <= 0 || theta <= 0 || std::isinf(theta)) {
     error("Invalid parameter(s) for GammaDistribution");
   }
   k_ = k;
-- 
2.43.0


From 56d950e111e044f81d7541357cb63c73047f0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:34 +0000
Subject: [PATCH 36/41] fix: a segment tree sees updates of a part in queries
 of the whole

---
 src/include/graph/SegmentTree.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 5881c9c..7573833 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -36,6 +36,7 @@ class SegmentTree {
   int size;
 
   void update(int o, int l, int r);
+  void collect(int o, int l, int r);
 };
 
 template <typename ValueType>
@@ -121,6 +122,18 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
   }
 }
 
+// Recomputes an inner node from its sons after one of them changed.
+template <typename ValueType>
+void SegmentTree<ValueType>::collect(int o, int l, int r) {
+  int mid = (l + r) >> 1;
+  int ls = o << 1, rs = (o << 1) | 1;
+  update(ls, l, mid);
+  update(rs, mid + 1, r);
+  minVal[o] = std::min(minVal[ls], minVal[rs]);
+  maxVal[o] = std::max(maxVal[ls], maxVal[rs]);
+  sumVal[o] = sumVal[ls] + sumVal[rs];
+}
+
 template <typename ValueType>
 ValueType SegmentTree<ValueType>::queryMax(int lv, int rv) {
   return queryMax(lv, rv, 0, size - 1, 1);
@@ -192,6 +205,7 @@ void SegmentTree<ValueType>::addInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) addInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) addInterval(lv, rv, x, mid + 1, r, rs);
+  collect(o, l, r);
 }
 
 template <typename ValueType>
@@ -212,6 +226,7 @@ void SegmentTree<ValueType>::mulInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) mulInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) mulInterval(lv, rv, x, mid + 1, r, rs);
+  collect(o, l, r);
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From 5ed7dc6d9207adc4cd304e540b064b7700a05d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:34 +0000
Subject: [PATCH 37/41] fix: multiplying an interval by a negative number
 exchanges its extremes

---
 src/include/graph/SegmentTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 7573833..30c97e6 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -80,6 +80,7 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     hasMulFlag[o] = false;
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
+    if (maxVal[o] < minVal[o]) std::swap(minVal[o], maxVal[o]);
     sumVal[o] *= mulFlag[o];
     if (l != r) {
       if (hasMulFlag[ls]) {
-- 
2.43.0


From 80255f243a994fc77d52263d356be078ba3533e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:34 +0000
Subject: [PATCH 38/41] fix: erasing a node leaves the rest of the search tree
 intact

---
 src/graph/BST.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index ea52e25..e67fdcc 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -86,7 +86,7 @@ void BST::erase(BSTNode* x) {
     root = x->ch[1];
     root->fa = nullptr;
   } else if (x->ch[0] != nullptr && x->ch[1] == nullptr) {
-    root = x->ch[1];
+    root = x->ch[0];
     root->fa = nullptr;
   } else {
     root = pre(x);
@@ -98,7 +98,10 @@ void BST::erase(BSTNode* x) {
     root->fa = nullptr;
     root->ch[0] = x->ch[0];
     root->ch[1] = x->ch[1];
+    if (root->ch[0] != nullptr) root->ch[0]->fa = root;
+    root->ch[1]->fa = root;
   }
+  x->ch[0] = x->ch[1] = nullptr;
 }
 
 BSTNode* BST::find(int k) {
-- 
2.43.0


From 898670fd186a9561f58eb7f335813144ddfd20d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:34 +0000
Subject: [PATCH 39/41] fix: predecessor and successor are found for every node
 of a search tree

---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index e67fdcc..9d38214 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -43,6 +43,7 @@ void BST::splay(BSTNode* x) {
 }
 
 BSTNode* BST::pre(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[0];
   if (cur == nullptr) return nullptr;
   while (cur->ch[1] != nullptr) cur = cur->ch[1];
@@ -50,6 +51,7 @@ BSTNode* BST::pre(BSTNode* x) {
 }
 
 BSTNode* BST::suf(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[1];
   if (cur == nullptr) return nullptr;
   while (cur->ch[0] != nullptr) cur = cur->ch[0];
-- 
2.43.0


From 7db954589ed89c2e4550ab60d90830724fb60b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:46 +0000
Subject: [PATCH 40/41] fix: matrix power squares, ends for exponent 0 and
 leaks nothing when memory runs out

---
 src/include/math_utils/Matrix.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index cf22328..455917c 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -6,6 +6,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <memory>
 #include <string>
 #include <utility>
 #include <vector>
@@ -129,14 +130,16 @@ class Matrix {
   }
 
   friend Matrix& pow(const Matrix& src, unsigned int n) {
-    if (n == 1) {
-      Matrix* ret = new Matrix(src);
+    if (n == 0) {
+      Matrix* ret = new Matrix(src.row);
+      for (int i = 0; i < src.row; i++) (*ret)[i][i] = 1;
       return *ret;
     }
 
-    Matrix& ret = pow(src, n >> 1);
-    if (n & 1) ret *= src;
-    return ret;
+    std::unique_ptr<Matrix> ret(&pow(src, n >> 1));
+    *ret *= *ret;
+    if (n & 1) *ret *= src;
+    return *ret.release();
   }
 
   void reduce() {
-- 
2.43.0


From d50abaf2fc92297f2b53a6320fec6da7ef945a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:39 +0000
Subject: [PATCH 41/41] fix: reals are drawn from ranges wider than the largest
 double

---
 src/random/Random.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index a25bc6a..27ee0fa 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -30,6 +30,8 @@ int Random::nextInt(int max) {
 
 double Random::nextDouble(double min, double max) {
   if (max < min) error("`max` should be larger than or equal to `min`");
+  if (std::isinf(max - min) && std::isfinite(min) && std::isfinite(max))
+    return 2 * nextDouble(min / 2, max / 2);  // the width does not fit
   double result = (double)randomGenerator() / int64Max * (max - min) + min;
   // `max` is excluded, but rounding may reach it
   if (result >= max && min < max) result = std::nextafter(max, min);
-- 
2.43.0

