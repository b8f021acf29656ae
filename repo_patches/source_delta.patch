From 2256b454c3f8f2514b2b620456c6c4931b74467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 01/46] fix: Cord::operator<<(const Cord&) with an empty, self
 or differently sized argument

---
 src/common/base/Cord.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/base/Cord.cpp b/src/common/base/Cord.cpp
index 102afa2..e129b61 100644
--- a/src/common/base/Cord.cpp
+++ b/src/common/base/Cord.cpp
@@ -226,12 +226,20 @@ Cord& Cord::operator<<(const char* value) {
 }
 
 Cord& Cord::operator<<(const Cord& rhs) {
+    if (rhs.empty()) {
+        return *this;
+    }
+    if (this == &rhs) {
+        // Appending grows the very chain being read, so read it out first
+        return *this << rhs.str();
+    }
+
     char* next = rhs.head_;
     while (next != rhs.tail_) {
-        write(next, blockContentSize_);
+        write(next, rhs.blockContentSize_);
         // Get the pointer to the next block
         memcpy(reinterpret_cast<char*>(&next),
-               next + blockContentSize_,
+               next + rhs.blockContentSize_,
                sizeof(char*));
     }
 
-- 
2.43.0


From 44fd4abdb022c910205ecb7edbc78bb6c61edea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 02/46] fix: EitherOr assigned from the value it holds used it
 after its destruction

---
 src/common/base/EitherOr.h | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/common/base/EitherOr.h b/src/common/base/EitherOr.h
index 900480d..649ca2c 100644
--- a/src/common/base/EitherOr.h
+++ b/src/common/base/EitherOr.h
@@ -263,33 +263,24 @@ public:
      *
      * Assignments
      *
+     * The value assigned may be (a part of) the one being held, so a new
+     * object is always constructed before the current value is destroyed
+     *
      **********************************************/
     EitherOr& operator=(const LEFT& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructLeft, v);
-        state_ = State::LEFT_TYPE;
-        return *this;
+        return *this = EitherOr(v);
     }
 
     EitherOr& operator=(LEFT&& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructLeft, std::move(v));
-        state_ = State::LEFT_TYPE;
-        return *this;
+        return *this = EitherOr(std::move(v));
     }
 
     EitherOr& operator=(const RIGHT& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructRight, v);
-        state_ = State::RIGHT_TYPE;
-        return *this;
+        return *this = EitherOr(v);
     }
 
     EitherOr& operator=(RIGHT&& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructRight, std::move(v));
-        state_ = State::RIGHT_TYPE;
-        return *this;
+        return *this = EitherOr(std::move(v));
     }
 
     // Assign from a value which can only construct either LEFT or RIGHT,
@@ -300,10 +291,7 @@ public:
         EitherOr
     >&
     operator=(U&& v) noexcept {
-        reset();
-        new (&val_) Variant(convert_to_t<U>, std::forward<U>(v));
-        state_ = convert_to_s<U>;
-        return *this;
+        return *this = EitherOr(std::forward<U>(v));
     }
 
     EitherOr& operator=(const EitherOr& rhs) noexcept {
-- 
2.43.0


From fbac9626c44bef3573cea726106d888db0aa66df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 03/46] fix: StatusOr assigned from the value it holds used it
 after its destruction

---
 src/common/base/StatusOr.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/common/base/StatusOr.h b/src/common/base/StatusOr.h
index fa5a85c..67d71e9 100644
--- a/src/common/base/StatusOr.h
+++ b/src/common/base/StatusOr.h
@@ -193,28 +193,20 @@ public:
     }
 
     // Move assigment operator from a rvalue of any compatible type with `T'
+    // `value' may be a part of the current one, so construct before destructing
     template <typename U, typename = std::enable_if_t<is_initializable_v<U>>>
     StatusOr& operator=(U &&value) noexcept {
-        destruct();
-        new (&variant_) Variant(std::forward<U>(value));
-        state_ = kValue;
-        return *this;
+        return *this = StatusOr(std::forward<U>(value));
     }
 
     // Copy assign from a lvalue of `Status'
     StatusOr& operator=(const Status &status) {
-        destruct();
-        new (&variant_) Variant(status);
-        state_ = kStatus;
-        return *this;
+        return *this = StatusOr(status);
     }
 
     // Move assign from a rvalue of `Status'
     StatusOr& operator=(Status &&status) noexcept {
-        destruct();
-        new (&variant_) Variant(std::move(status));
-        state_ = kStatus;
-        return *this;
+        return *this = StatusOr(std::move(status));
     }
 
     // Tell if `*this' contains a value
-- 
2.43.0


From f4e6b1c56d72c0f4950dcfe68753534f7655a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 04/46] fix: Status messages of 64 KB and more, and the name of
 ListenerNotFound

---
 src/common/base/Status.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index 2e9ad75..3e46aee 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -10,7 +10,8 @@
 namespace nebula {
 
 Status::Status(Code code, folly::StringPiece msg) {
-    const uint16_t size = msg.size();
+    // A message which does not fit the length field is cut at the maximum
+    const uint16_t size = std::min<size_t>(msg.size(), std::numeric_limits<uint16_t>::max());
     auto state = std::unique_ptr<char[]>(new char[size + kHeaderSize]);
     auto *header = reinterpret_cast<Header*>(state.get());
     header->size_ = size;
@@ -97,7 +98,7 @@ const char *Status::toString(Code code) {
         case kPermissionError:
             return "PermissionError: ";
         case kListenerNotFound:
-            return "ListenerNotFound";
+            return "ListenerNotFound: ";
     }
     DLOG(FATAL) << "Invalid status code: " << static_cast<uint16_t>(code);
     return "";
-- 
2.43.0


From bb2e2cd2f99fd5d0c9700e398a6e88d8774974c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 05/46] fix: Latch::isReady reads the counter under the lock

---
 src/common/concurrent/Latch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/concurrent/Latch.cpp b/src/common/concurrent/Latch.cpp
index f149c16..9a05128 100644
--- a/src/common/concurrent/Latch.cpp
+++ b/src/common/concurrent/Latch.cpp
@@ -45,6 +45,7 @@ void Latch::wait() {
 }
 
 bool Latch::isReady() {
+    std::lock_guard<std::mutex> guard(lock_);
     return counter_ == 0;
 }
 
-- 
2.43.0


From d0eb91ae50ddd3d255d7f89b76732e2a079fd86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 06/46] fix: AuthResponse equality compares the other side's
 time zone name

---
 src/common/graph/Response.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index fe18498..bacfc8e 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -230,7 +230,7 @@ struct AuthResponse {
         if (!checkPointer(timeZoneOffsetSeconds.get(), rhs.timeZoneOffsetSeconds.get())) {
             return false;
         }
-        return checkPointer(timeZoneName.get(), timeZoneName.get());
+        return checkPointer(timeZoneName.get(), rhs.timeZoneName.get());
     }
 
     ErrorCode errorCode{ErrorCode::SUCCEEDED};
-- 
2.43.0


From e9ed324fc2d951ce1f95d364e756a18ecbc46d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 07/46] fix: AuthResponse::clear resets the time zone fields

---
 src/common/graph/Response.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index bacfc8e..332063a 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -211,6 +211,8 @@ struct AuthResponse {
         errorCode = ErrorCode::SUCCEEDED;
         sessionId = nullptr;
         errorMsg = nullptr;
+        timeZoneOffsetSeconds = nullptr;
+        timeZoneName = nullptr;
     }
 
     void clear() {
-- 
2.43.0


From bc0953e3613bdd827090df311e81b9f245236014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 08/46] fix: PlanNodeDescription equality covers outputVar

---
 src/common/graph/Response.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/graph/Response.cpp b/src/common/graph/Response.cpp
index 4d91952..adb0e22 100644
--- a/src/common/graph/Response.cpp
+++ b/src/common/graph/Response.cpp
@@ -15,6 +15,9 @@ bool PlanNodeDescription::operator==(const PlanNodeDescription &rhs) const {
     if (id != rhs.id) {
         return false;
     }
+    if (outputVar != rhs.outputVar) {
+        return false;
+    }
     if (!checkPointer(description.get(), rhs.description.get())) {
         return false;
     }
-- 
2.43.0


From c009e2ce99ba81f5d207917329b8b361ac9e8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 09/46] fix: PlanDescription equality covers
 optimize_time_in_us

---
 src/common/graph/Response.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index 332063a..2f6559c 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -361,7 +361,8 @@ struct PlanDescription {
     bool operator==(const PlanDescription &rhs) const {
         return planNodeDescs == rhs.planNodeDescs &&
             nodeIndexMap == rhs.nodeIndexMap &&
-            format == rhs.format;
+            format == rhs.format &&
+            optimize_time_in_us == rhs.optimize_time_in_us;
     }
 
     std::vector<PlanNodeDescription>     planNodeDescs;
-- 
2.43.0


From 14df69bf3bf5ffcf940a3210d017ca769110219e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 10/46] fix: Value assignment from a part of its own content

---
 src/common/datatypes/Value.cpp | 91 ++--------------------------------
 1 file changed, 4 insertions(+), 87 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index dffc374..2f90ae1 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1071,7 +1071,8 @@ void Value::clear() {
 
 Value& Value::operator=(Value&& rhs) noexcept {
     if (this == &rhs) { return *this; }
-    clear();
+    // The rhs could live inside the current content, which has to outlive it
+    Value old(std::move(*this));
     if (rhs.type_ == Type::__EMPTY__) { return *this; }
     switch (rhs.type_) {
         case Type::NULLVALUE:
@@ -1162,92 +1163,8 @@ Value& Value::operator=(Value&& rhs) noexcept {
 
 Value& Value::operator=(const Value& rhs) {
     if (this == &rhs) { return *this; }
-    clear();
-    if (rhs.type_ == Type::__EMPTY__) { return *this; }
-    switch (rhs.type_) {
-        case Type::NULLVALUE:
-        {
-            setN(rhs.value_.nVal);
-            break;
-        }
-        case Type::BOOL:
-        {
-            setB(rhs.value_.bVal);
-            break;
-        }
-        case Type::INT:
-        {
-            setI(rhs.value_.iVal);
-            break;
-        }
-        case Type::FLOAT:
-        {
-            setF(rhs.value_.fVal);
-            break;
-        }
-        case Type::STRING:
-        {
-            setS(*rhs.value_.sVal);
-            break;
-        }
-        case Type::DATE:
-        {
-            setD(rhs.value_.dVal);
-            break;
-        }
-        case Type::TIME:
-        {
-            setT(rhs.value_.tVal);
-            break;
-        }
-        case Type::DATETIME:
-        {
-            setDT(rhs.value_.dtVal);
-            break;
-        }
-        case Type::VERTEX:
-        {
-            setV(rhs.value_.vVal);
-            break;
-        }
-        case Type::EDGE:
-        {
-            setE(rhs.value_.eVal);
-            break;
-        }
-        case Type::PATH:
-        {
-            setP(rhs.value_.pVal);
-            break;
-        }
-        case Type::LIST:
-        {
-            setL(rhs.value_.lVal);
-            break;
-        }
-        case Type::MAP:
-        {
-            setM(rhs.value_.mVal);
-            break;
-        }
-        case Type::SET:
-        {
-            setU(rhs.value_.uVal);
-            break;
-        }
-        case Type::DATASET:
-        {
-            setG(rhs.value_.gVal);
-            break;
-        }
-        default:
-        {
-            assert(false);
-            break;
-        }
-    }
-    type_ = rhs.type_;
-    return *this;
+    // The rhs could live inside the current content, or the other way around
+    return *this = Value(rhs);
 }
 
 
-- 
2.43.0


From c447bbc203ea733d92f7fefaf89277b017492e16 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 11/46] fix: equal infinite floats compare equal

---
 src/common/datatypes/Value.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 2f90ae1..ab62ce6 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1695,7 +1695,9 @@ Value Value::equal(const Value& v) const {
                     return std::abs(getFloat() - v.getInt()) < kEpsilon;
                 }
                 case Value::Type::FLOAT: {
-                    return std::abs(getFloat() - v.getFloat()) < kEpsilon;
+                    // The difference of two equal infinities is NaN
+                    return getFloat() == v.getFloat()
+                        || std::abs(getFloat() - v.getFloat()) < kEpsilon;
                 }
                 default: {
                     return kNullBadType;
@@ -2482,7 +2484,9 @@ bool operator==(const Value& lhs, const Value& rhs) {
                     return std::abs(lhs.getFloat() - rhs.getInt()) < kEpsilon;
                 }
                 case Value::Type::FLOAT: {
-                    return std::abs(lhs.getFloat() - rhs.getFloat()) < kEpsilon;
+                    // The difference of two equal infinities is NaN
+                    return lhs.getFloat() == rhs.getFloat()
+                        || std::abs(lhs.getFloat() - rhs.getFloat()) < kEpsilon;
                 }
                 default: {
                     return false;
-- 
2.43.0


From 92911b53544235b8053fb00cf0e3b5c5350219c7 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 12/46] fix: remainder of the smallest integer by -1

---
 src/common/datatypes/Value.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index ab62ce6..7052b55 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -2288,7 +2288,8 @@ Value operator%(const Value& lhs, const Value& rhs) {
                 case Value::Type::INT: {
                     int64_t denom = rhs.getInt();
                     if (denom != 0) {
-                        return lhs.getInt() % denom;
+                        // INT_MIN % -1 traps
+                        return denom == -1 ? 0L : lhs.getInt() % denom;
                     } else {
                         return Value::kNullDivByZero;
                     }
-- 
2.43.0


From c12815587aa0dbd6174b50f4d0f4d25d08da5321 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 13/46] fix: concatenation keeps what follows a NUL character
 of a string

---
 src/common/datatypes/Value.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 7052b55..ea6dc0c 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1841,9 +1841,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
         case Value::Type::BOOL: {
             switch (rhs.type()) {
                 case Value::Type::STRING: {
-                    return folly::stringPrintf("%s%s",
-                                               lhs.getBool() ? "true" : "false",
-                                               rhs.getStr().c_str());
+                    return (lhs.getBool() ? "true" : "false") + rhs.getStr();
                 }
                 case Value::Type::LIST: {
                     auto ret = rhs.getList();
@@ -1870,9 +1868,7 @@ Value operator+(const Value& lhs, const Value& rhs) {
                     return lhs.getInt() + rhs.getFloat();
                 }
                 case Value::Type::STRING: {
-                    return folly::stringPrintf("%ld%s",
-                                               lhs.getInt(),
-                                               rhs.getStr().c_str());
+                    return folly::to<std::string>(lhs.getInt()) + rhs.getStr();
                 }
                 case Value::Type::DATE: {
                     return rhs.getDate() + lhs.getInt();
@@ -1911,14 +1907,10 @@ Value operator+(const Value& lhs, const Value& rhs) {
         case Value::Type::STRING: {
             switch (rhs.type()) {
                 case Value::Type::BOOL: {
-                    return folly::stringPrintf("%s%s",
-                                               lhs.getStr().c_str(),
-                                               rhs.getBool() ? "true" : "false");
+                    return lhs.getStr() + (rhs.getBool() ? "true" : "false");
                 }
                 case Value::Type::INT: {
-                    return folly::stringPrintf("%s%ld",
-                                               lhs.getStr().c_str(),
-                                               rhs.getInt());
+                    return lhs.getStr() + folly::to<std::string>(rhs.getInt());
                 }
                 case Value::Type::FLOAT: {
                     return lhs.getStr() + folly::to<std::string>(rhs.getFloat());
-- 
2.43.0


From 34f4df39a75c6fbd1d3ec351eafbe35b5ad0f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 14/46] fix: conversion of NaN to an integer

---
 src/common/datatypes/Value.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index ea6dc0c..ba2c395 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1535,6 +1535,10 @@ Value Value::toInt() const {
             return *this;
         }
         case Value::Type::FLOAT: {
+            // No integer stands for NaN
+            if (std::isnan(getFloat())) {
+                return Value::kNullNaN;
+            }
             // Check if float value is in the range of int_64
             // Return min/max int_64 value and false to accommodate Cypher
             if (getFloat() <= std::numeric_limits<int64_t>::min()) {
-- 
2.43.0


From 453b7a77e37e506bed36d2eb63b4bebadaed4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 15/46] fix: decimal text beyond the integers converts to
 overflow

---
 src/common/datatypes/Value.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index ba2c395..d3ab9b5 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1553,10 +1553,19 @@ Value Value::toInt() const {
             errno = 0;
             char* pEnd;
             auto it = std::find(str.begin(), str.end(), '.');
-            int64_t val =
-                (it == str.end())
-                    ? int64_t(strtoll(str.c_str(), &pEnd, 10))   // string representing int
-                    : int64_t(strtod(str.c_str(), &pEnd));       // string representing double
+            if (it != str.end()) {   // string representing double
+                double val = strtod(str.c_str(), &pEnd);
+                if (*pEnd != '\0') {
+                    return Value::kNullValue;
+                }
+                // The bounds are -2^63 and 2^63, NaN is in no range
+                if (!(val >= static_cast<double>(std::numeric_limits<int64_t>::min()) &&
+                      val < static_cast<double>(std::numeric_limits<int64_t>::max()))) {
+                    return kNullOverflow;
+                }
+                return static_cast<int64_t>(val);
+            }
+            int64_t val = strtoll(str.c_str(), &pEnd, 10);   // string representing int
             if (*pEnd != '\0') {
                 return Value::kNullValue;
             }
-- 
2.43.0


From 1df7afa1d59b38888d674a92640e2054c0a532e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 16/46] fix: name of the out of range null

---
 src/common/datatypes/Value.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index d3ab9b5..475abdb 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -452,6 +452,7 @@ const std::string& Value::typeName() const {
         { NullType::ERR_OVERFLOW, "ERR_OVERFLOW" },
         { NullType::UNKNOWN_PROP, "UNKNOWN_PROP" },
         { NullType::DIV_BY_ZERO, "DIV_BY_ZERO" },
+        { NullType::OUT_OF_RANGE, "OUT_OF_RANGE" },
     };
 
     static const std::string unknownType = "__UNKNOWN__";
-- 
2.43.0


From 0eb24a7e6ca06ec46c357a680ddf891d5fe39f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 17/46] fix: serialized size of ExecutionResponse takes the
 strings, not the pointers to them

---
 src/common/graph/ExecutionResponseOps.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/graph/ExecutionResponseOps.inl b/src/common/graph/ExecutionResponseOps.inl
index bbd233e..d7ca6cb 100644
--- a/src/common/graph/ExecutionResponseOps.inl
+++ b/src/common/graph/ExecutionResponseOps.inl
@@ -299,11 +299,11 @@ uint32_t Cpp2Ops<::nebula::ExecutionResponse>::serializedSize(
     }
     if (obj->spaceName != nullptr) {
         xfer += proto->serializedFieldSize("space_name", apache::thrift::protocol::T_STRING, 4);
-        xfer += proto->serializedSizeBinary(obj->spaceName);
+        xfer += proto->serializedSizeBinary(*obj->spaceName);
     }
     if (obj->errorMsg != nullptr) {
         xfer += proto->serializedFieldSize("error_msg", apache::thrift::protocol::T_STRING, 5);
-        xfer += proto->serializedSizeBinary(obj->errorMsg);
+        xfer += proto->serializedSizeBinary(*obj->errorMsg);
     }
     if (obj->planDesc != nullptr) {
         xfer += proto->serializedFieldSize("plan_desc", apache::thrift::protocol::T_STRUCT, 6);
@@ -312,7 +312,7 @@ uint32_t Cpp2Ops<::nebula::ExecutionResponse>::serializedSize(
     }
     if (obj->comment != nullptr) {
         xfer += proto->serializedFieldSize("comment", apache::thrift::protocol::T_STRING, 7);
-        xfer += proto->serializedSizeBinary(obj->comment);
+        xfer += proto->serializedSizeBinary(*obj->comment);
     }
     xfer += proto->serializedSizeStop();
     return xfer;
-- 
2.43.0


From 2840820277f4d23137edb27cf43f9328568e9618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 18/46] fix: decoding of Time: wire type of hour, stop marker
 after the last field

---
 src/common/datatypes/DateOps.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/datatypes/DateOps.inl b/src/common/datatypes/DateOps.inl
index 1503851..6fa3117 100644
--- a/src/common/datatypes/DateOps.inl
+++ b/src/common/datatypes/DateOps.inl
@@ -291,7 +291,7 @@ void Cpp2Ops<nebula::Time>::read(Protocol* proto, nebula::Time* obj) {
 
     using apache::thrift::protocol::TProtocolException;
 
-    if (UNLIKELY(!readState.advanceToNextField(proto, 0, 1, protocol::T_I16))) {
+    if (UNLIKELY(!readState.advanceToNextField(proto, 0, 1, protocol::T_BYTE))) {
         goto _loop;
     }
 
@@ -328,7 +328,7 @@ _readField_microsec:
             ::read(*proto, obj->microsec);
     }
 
-    if (UNLIKELY(!readState.advanceToNextField(proto, 4, 5, protocol::T_I32))) {
+    if (UNLIKELY(!readState.advanceToNextField(proto, 4, 0, protocol::T_STOP))) {
         goto _loop;
     }
 
-- 
2.43.0


From 1d7d24e9ad48dbecda70d8f660250a869d1ac583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 19/46] fix: decoding of DateTime: stop marker after the last
 field

---
 src/common/datatypes/DateOps.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/DateOps.inl b/src/common/datatypes/DateOps.inl
index 6fa3117..00cdc39 100644
--- a/src/common/datatypes/DateOps.inl
+++ b/src/common/datatypes/DateOps.inl
@@ -623,7 +623,7 @@ _readField_microsec:
         obj->microsec = microsec;
     }
 
-    if (UNLIKELY(!readState.advanceToNextField(proto, 7, 8, protocol::T_I32))) {
+    if (UNLIKELY(!readState.advanceToNextField(proto, 7, 0, protocol::T_STOP))) {
         goto _loop;
     }
 
-- 
2.43.0


From 379f404ed49336fb0010ccb0db6f5e7893a63e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 20/46] fix: wire type of Set::values when decoding by field
 names

---
 src/common/datatypes/SetOps.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/SetOps.inl b/src/common/datatypes/SetOps.inl
index 79a80c8..6b75511 100644
--- a/src/common/datatypes/SetOps.inl
+++ b/src/common/datatypes/SetOps.inl
@@ -29,7 +29,7 @@ struct TccStructTraits<nebula::Set> {
             MAYBE_UNUSED apache::thrift::protocol::TType& _ftype) {
         if (_fname == "values") {
             fid = 1;
-            _ftype = apache::thrift::protocol::T_STRUCT;
+            _ftype = apache::thrift::protocol::T_SET;
         }
     }
 };
-- 
2.43.0


From cb694a8abf98310bcf79a566cd64db2d25d1744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 21/46] fix: default-construct Edge and Step with type and
 ranking 0

---
 src/common/datatypes/Edge.h | 4 ++--
 src/common/datatypes/Path.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/datatypes/Edge.h b/src/common/datatypes/Edge.h
index 288b3f2..aae1c16 100644
--- a/src/common/datatypes/Edge.h
+++ b/src/common/datatypes/Edge.h
@@ -17,9 +17,9 @@ namespace nebula {
 struct Edge {
     Value src;
     Value dst;
-    EdgeType type;
+    EdgeType type{0};
     std::string name;
-    EdgeRanking ranking;
+    EdgeRanking ranking{0};
     std::unordered_map<std::string, Value> props;
 
     Edge() {}
diff --git a/src/common/datatypes/Path.h b/src/common/datatypes/Path.h
index e6c9522..625dd17 100644
--- a/src/common/datatypes/Path.h
+++ b/src/common/datatypes/Path.h
@@ -15,9 +15,9 @@ namespace nebula {
 
 struct Step {
     Vertex dst;
-    EdgeType type;
+    EdgeType type{0};
     std::string name;
-    EdgeRanking ranking;
+    EdgeRanking ranking{0};
     std::unordered_map<std::string, Value> props;
 
     Step() = default;
-- 
2.43.0


From c2b59fe0d15b6e1e09df0dcd9af1157154bf452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 22/46] fix: order steps of one destination by type, ranking
 and properties

---
 src/common/datatypes/Path.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/Path.h b/src/common/datatypes/Path.h
index 625dd17..6e72f0b 100644
--- a/src/common/datatypes/Path.h
+++ b/src/common/datatypes/Path.h
@@ -98,7 +98,7 @@ struct Step {
         if (dst != rhs.dst) {
             return dst < rhs.dst;
         }
-        if (type != rhs.dst) {
+        if (type != rhs.type) {
             return type < rhs.type;
         }
         if (ranking != rhs.ranking) {
-- 
2.43.0


From 2cb8533104291397b229ac18906fd348bc244925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 23/46] fix: append a path only to a path that ends where it
 begins

---
 src/common/datatypes/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/datatypes/Path.cpp b/src/common/datatypes/Path.cpp
index afa25e9..8c1bdab 100644
--- a/src/common/datatypes/Path.cpp
+++ b/src/common/datatypes/Path.cpp
@@ -28,7 +28,8 @@ void Path::reverse() {
 }
 
 bool Path::append(Path path) {
-    if (src != path.src && steps.back().dst != path.src) {
+    const auto& last = steps.empty() ? src : steps.back().dst;
+    if (last != path.src) {
         return false;
     }
     steps.reserve(steps.size() + path.steps.size());
-- 
2.43.0


From 1761f91002abed58375a72be79b74db3ca39a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 24/46] fix: DataSet::merge appends the values where it appends
 their column names

---
 src/common/datatypes/DataSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/DataSet.h b/src/common/datatypes/DataSet.h
index 5b2b2b5..75d8f10 100644
--- a/src/common/datatypes/DataSet.h
+++ b/src/common/datatypes/DataSet.h
@@ -127,7 +127,7 @@ struct DataSet {
                         std::make_move_iterator(o.colNames.end()));
         for (std::size_t i = 0; i < rowSize(); ++i) {
             rows[i].values.reserve(newColSize);
-            rows[i].values.insert(rows[i].values.begin(),
+            rows[i].values.insert(rows[i].values.end(),
                                   std::make_move_iterator(o.rows[i].values.begin()),
                                   std::make_move_iterator(o.rows[i].values.end()));
         }
-- 
2.43.0


From 0de49f13fe400721a843985113c85107140d0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:37 +0000
Subject: [PATCH 25/46] fix: an EMPTY operand after a NULL does not make AND /
 OR a BAD TYPE

---
 src/common/expression/LogicalExpression.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/expression/LogicalExpression.cpp b/src/common/expression/LogicalExpression.cpp
index 71ab117..3d7547d 100644
--- a/src/common/expression/LogicalExpression.cpp
+++ b/src/common/expression/LogicalExpression.cpp
@@ -36,8 +36,10 @@ const Value& LogicalExpression::evalAnd(ExpressionContext &ctx) {
         if (!value.isBool()) {
             if (value.isNull()) {
                 result_ = value;
-            } else if (value.empty() && !result_.isNull()) {
-                result_ = value;
+            } else if (value.empty()) {
+                if (!result_.isNull()) {
+                    result_ = value;
+                }
             } else {
                 result_ = Value::kNullBadType;
                 return result_;
@@ -61,8 +63,10 @@ const Value& LogicalExpression::evalOr(ExpressionContext &ctx) {
         if (!value.isBool()) {
             if (value.isNull()) {
                 result_ = value;
-            } else if (value.empty() && !result_.isNull()) {
-                result_ = value;
+            } else if (value.empty()) {
+                if (!result_.isNull()) {
+                    result_ = value;
+                }
             } else {
                 result_ = Value::kNullBadType;
                 return result_;
-- 
2.43.0


From de5335b9b8529c82e892fa897abaa09a348bc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:37 +0000
Subject: [PATCH 26/46] fix: an unknown builtin property of an edge is an
 unknown property, not the result of the last evaluation

---
 src/common/expression/AttributeExpression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/expression/AttributeExpression.cpp b/src/common/expression/AttributeExpression.cpp
index c0f228b..a006dc9 100644
--- a/src/common/expression/AttributeExpression.cpp
+++ b/src/common/expression/AttributeExpression.cpp
@@ -46,6 +46,8 @@ const Value& AttributeExpression::eval(ExpressionContext &ctx) {
                     result_ = lvalue.getEdge().ranking;
                 } else if (rvalue.getStr() == kType) {
                     result_ = lvalue.getEdge().name;
+                } else {
+                    return Value::kNullUnknownProp;
                 }
                 return result_;
             }
-- 
2.43.0


From f9b9c7ab6ad9e36073bdeefa24e67fb6c7b77e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:37 +0000
Subject: [PATCH 27/46] fix: a versioned variable without a version can be
 compared and cloned

---
 src/common/expression/VariableExpression.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/expression/VariableExpression.h b/src/common/expression/VariableExpression.h
index 5abbd1b..76a62c3 100644
--- a/src/common/expression/VariableExpression.h
+++ b/src/common/expression/VariableExpression.h
@@ -87,6 +87,9 @@ public:
             return false;
         }
 
+        if (version_ == nullptr || vve.version_ == nullptr) {
+            return version_ == vve.version_;
+        }
         return *version_ == *vve.version_;
     }
 
@@ -95,7 +98,8 @@ public:
     void accept(ExprVisitor* visitor) override;
 
     Expression* clone() const override {
-        return VersionedVariableExpression::make(pool_, var(), version_->clone());
+        return VersionedVariableExpression::make(
+            pool_, var(), version_ == nullptr ? nullptr : version_->clone());
     }
 
 private:
-- 
2.43.0


From 4dc981555891cdb011f3d8e132ccbeb6efd0edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:37 +0000
Subject: [PATCH 28/46] fix: aggregates that differ in distinct are not equal

---
 src/common/expression/AggregateExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/AggregateExpression.cpp b/src/common/expression/AggregateExpression.cpp
index 72b3d78..4f2258d 100644
--- a/src/common/expression/AggregateExpression.cpp
+++ b/src/common/expression/AggregateExpression.cpp
@@ -14,7 +14,7 @@ bool AggregateExpression::operator==(const Expression& rhs) const {
     }
 
     const auto& r = static_cast<const AggregateExpression&>(rhs);
-    return name_ == r.name_ && *arg_ == *(r.arg_);
+    return name_ == r.name_ && distinct_ == r.distinct_ && *arg_ == *(r.arg_);
 }
 
 void AggregateExpression::writeTo(Encoder& encoder) const {
-- 
2.43.0


From 5f5042663ae12af00d22f72eed483b9840957322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 29/46] fix: a column expression encodes its index the way it
 is decoded

---
 src/common/expression/ColumnExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/ColumnExpression.cpp b/src/common/expression/ColumnExpression.cpp
index c98066a..cc9e87a 100644
--- a/src/common/expression/ColumnExpression.cpp
+++ b/src/common/expression/ColumnExpression.cpp
@@ -35,7 +35,7 @@ void ColumnExpression::accept(ExprVisitor *visitor) {
 
 void ColumnExpression::writeTo(Encoder &encoder) const {
     encoder << kind_;
-    encoder << index_;
+    encoder << Value(index_);
 }
 
 void ColumnExpression::resetFrom(Decoder &decoder) {
-- 
2.43.0


From 627ad41f1627a425132d3cfaf801f4b8d93d03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 30/46] fix: text search expressions compare and clone all
 members of their argument

---
 src/common/expression/TextSearchExpression.cpp | 6 ++++--
 src/common/expression/TextSearchExpression.h   | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/expression/TextSearchExpression.cpp b/src/common/expression/TextSearchExpression.cpp
index 1b35f98..90373c2 100644
--- a/src/common/expression/TextSearchExpression.cpp
+++ b/src/common/expression/TextSearchExpression.cpp
@@ -10,7 +10,9 @@
 namespace nebula {
 
 bool TextSearchArgument::operator==(const TextSearchArgument& rhs) const {
-    return val_ == rhs.val_ &&
+    return from_ == rhs.from_ &&
+           prop_ == rhs.prop_ &&
+           val_ == rhs.val_ &&
            op_ == rhs.op_ &&
            fuzziness_ == rhs.fuzziness_ &&
            limit_ == rhs.limit_ &&
@@ -45,7 +47,7 @@ bool TextSearchExpression::operator==(const Expression& rhs) const {
     }
 
     const auto& r = dynamic_cast<const TextSearchExpression&>(rhs);
-    return arg_ == r.arg_;
+    return *arg_ == *r.arg_;
 }
 
 std::string TextSearchExpression::toString() const {
diff --git a/src/common/expression/TextSearchExpression.h b/src/common/expression/TextSearchExpression.h
index 1b0a992..06f1f0b 100644
--- a/src/common/expression/TextSearchExpression.h
+++ b/src/common/expression/TextSearchExpression.h
@@ -127,6 +127,10 @@ public:
 
     Expression* clone() const override {
         auto arg = TextSearchArgument::make(pool_, arg_->from(), arg_->prop(), arg_->val());
+        arg->setOP(arg_->op());
+        arg->setFuzziness(arg_->fuzziness());
+        arg->setLimit(arg_->limit());
+        arg->setTimeout(arg_->timeout());
         return pool_->add(new TextSearchExpression(pool_, kind_, arg));
     }
 
-- 
2.43.0


From db04b03da1a094f717367a9dfb8c64eb3a33f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 31/46] fix: abs() of the smallest integer overflowed

---
 src/common/function/FunctionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 008dc51..2fb3e74 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -280,7 +280,11 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::INT: {
-                    return std::abs(args[0].get().getInt());
+                    auto val = args[0].get().getInt();
+                    if (val == std::numeric_limits<int64_t>::min()) {
+                        return Value::kNullOverflow;
+                    }
+                    return std::abs(val);
                 }
                 case Value::Type::FLOAT: {
                     return std::abs(args[0].get().getFloat());
-- 
2.43.0


From 496f585172d9dd1a85726fefa43a6fc43d399d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 32/46] fix: pow() of two integers cast results that do not fit

---
 src/common/function/FunctionManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 2fb3e74..2694722 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -476,6 +476,10 @@ FunctionManager::FunctionManager() {
                     args[1].get().getFloat();
                 auto val = std::pow(base, exp);
                 if (args[0].get().isInt() && args[1].get().isInt()) {
+                    // the bounds are -2^63 and 2^63
+                    if (!(val >= -9223372036854775808.0 && val < 9223372036854775808.0)) {
+                        return Value::kNullOverflow;
+                    }
                     return static_cast<int64_t>(val);
                 }
                 return val;
-- 
2.43.0


From b0431c228d5790321660d1a484961a5aa0737999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 33/46] fix: rand() is not a pure function

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 2694722..a6b3c9e 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -830,7 +830,7 @@ FunctionManager::FunctionManager() {
         auto &attr = functions_["rand"];
         attr.minArity_ = 0;
         attr.maxArity_ = 0;
-        attr.isPure_ = true;
+        attr.isPure_ = false;
         attr.body_ = [](const auto &args) -> Value {
             UNUSED(args);
             return folly::Random::randDouble01();
-- 
2.43.0


From 2ca1ec65ed12e12045ae4477e26035e1c7379027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 34/46] fix: rand32(max) gave negative numbers for a large
 maximum

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index a6b3c9e..5a58417 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -853,7 +853,7 @@ FunctionManager::FunctionManager() {
                         return Value::kNullBadData;
                     }
                     auto value = folly::Random::rand32(max);
-                    return static_cast<int64_t>(static_cast<int32_t>(value));
+                    return static_cast<int64_t>(value);
                 }
                 return Value::kNullBadType;
             }
-- 
2.43.0


From b0bbc8225fda2fad90bbeb525bb87379883a24f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 35/46] fix: lpad() and rpad() with nothing to pad with did not
 end

---
 src/common/function/FunctionManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 5a58417..5b283a1 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1279,6 +1279,9 @@ FunctionManager::FunctionManager() {
                     return value.substr(0, static_cast<int32_t>(size));
                 } else {
                     auto extra = args[2].get().getStr();
+                    if (extra.empty()) {
+                        return value;
+                    }
                     size -= value.size();
                     std::stringstream stream;
                     while (size > static_cast<int64_t>(extra.size())) {
@@ -1309,6 +1312,9 @@ FunctionManager::FunctionManager() {
                     return value.substr(0, static_cast<int32_t>(size));
                 } else {
                     auto extra = args[2].get().getStr();
+                    if (extra.empty()) {
+                        return value;
+                    }
                     std::stringstream stream;
                     stream << value;
                     size -= value.size();
-- 
2.43.0


From 39754cfa1f64b3a3b57c730e19607a5c53870f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 36/46] fix: substr() narrowed the length to an int

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 5b283a1..e06f39d 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1346,7 +1346,7 @@ FunctionManager::FunctionManager() {
             }
             auto value = args[0].get().getStr();
             auto start = args[1].get().getInt();
-            auto length = 0;
+            int64_t length = 0;
             if (argSize == 3) {
                 length = args[2].get().getInt();
             } else {
-- 
2.43.0


From a5c5992d6a37f65d59602aff0ad097e4ce72bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 37/46] fix: range() overflowed near the limits of int64

---
 src/common/function/FunctionManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index e06f39d..3498790 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1638,6 +1638,10 @@ FunctionManager::FunctionManager() {
             List res;
             for (auto i = start; step > 0? i <= end : i >= end; i = i + step) {
                 res.emplace_back(i);
+                if (step > 0 ? i > std::numeric_limits<int64_t>::max() - step
+                             : i < std::numeric_limits<int64_t>::min() - step) {
+                    break;
+                }
             }
             return Value(res);
         };
-- 
2.43.0


From c8c3a3821c32ceaa0bbaf7610905f153eb2a898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 38/46] fix: head() and last() of an empty list read past its
 elements

---
 src/common/function/FunctionManager.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 3498790..39cbbc6 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1876,7 +1876,11 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.front();
+                    const auto &values = args[0].get().getList().values;
+                    if (values.empty()) {
+                        return Value::kNullValue;
+                    }
+                    return values.front();
                 }
                 default: {
                     return Value::kNullBadType;
@@ -1895,7 +1899,11 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.back();
+                    const auto &values = args[0].get().getList().values;
+                    if (values.empty()) {
+                        return Value::kNullValue;
+                    }
+                    return values.back();
                 }
                 default: {
                     return Value::kNullBadType;
-- 
2.43.0


From bcfe839588f8f57627ebcdefa798c3d2aab8899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 39/46] fix: dates and times of incomplete text were read from
 uninitialised memory

---
 src/common/time/TimeUtils.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 5e01b39..6d06ad9 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -50,7 +50,9 @@ public:
 
     // TODO(shylock) support more format
     static StatusOr<DateTime> parseDateTime(const std::string &str) {
-        std::tm tm;
+        // what the text leaves out is the first day of January, at midnight
+        std::tm tm{};
+        tm.tm_mday = 1;
         std::istringstream ss(str);
         ss >> std::get_time(&tm, "%Y-%m-%dT%H:%M:%S");
         if (ss.fail()) {
@@ -125,7 +127,9 @@ public:
 
     // TODO(shylock) support more format
     static StatusOr<Date> parseDate(const std::string &str) {
-        std::tm tm;
+        // what the text leaves out is the first day of January, at midnight
+        std::tm tm{};
+        tm.tm_mday = 1;
         std::istringstream ss(str);
         ss >> std::get_time(&tm, "%Y-%m-%d");
         if (ss.fail()) {
@@ -176,7 +180,7 @@ public:
 
     // TODO(shylock) support more format
     static StatusOr<Time> parseTime(const std::string &str) {
-        std::tm tm;
+        std::tm tm{};
         std::istringstream ss(str);
         ss >> std::get_time(&tm, "%H:%M:%S");
         if (ss.fail()) {
-- 
2.43.0


From 18aba364d55224311f2d4834cec8c3413a48c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 40/46] fix: strcasecmp is declared to give an integer

---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 39cbbc6..5825aa2 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -119,7 +119,7 @@ std::unordered_map<std::string, std::vector<TypeSignature>> FunctionManager::typ
       TypeSignature({Value::Type::INT, Value::Type::INT}, Value::Type::INT)}},
     {"now", {TypeSignature({}, Value::Type::INT)}},
     {"strcasecmp",
-     {TypeSignature({Value::Type::STRING, Value::Type::STRING}, Value::Type::STRING)}},
+     {TypeSignature({Value::Type::STRING, Value::Type::STRING}, Value::Type::INT)}},
     {"lower", {TypeSignature({Value::Type::STRING}, Value::Type::STRING)}},
     {"tolower", {TypeSignature({Value::Type::STRING}, Value::Type::STRING)}},
     {"upper", {TypeSignature({Value::Type::STRING}, Value::Type::STRING)}},
-- 
2.43.0


From 5edf0ce3e8686ef054e501a96865f780ef9496de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 41/46] fix: reservoir sampling draws from one more than the
 values seen so far

---
 src/common/algorithm/ReservoirSampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/algorithm/ReservoirSampling.h b/src/common/algorithm/ReservoirSampling.h
index 395b9d7..6f72950 100644
--- a/src/common/algorithm/ReservoirSampling.h
+++ b/src/common/algorithm/ReservoirSampling.h
@@ -26,7 +26,7 @@ public:
             ++cnt_;
             return true;
         } else {
-            auto index = folly::Random::rand64(cnt_);
+            auto index = folly::Random::rand64(cnt_ + 1);
             if (index < num_) {
                 samples_[index] = (std::move(sample));
                 ++cnt_;
-- 
2.43.0


From 73121b8c2e3252afd1ad96649388657784b878d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 42/46] fix: read a bucket's counts of the LRU cache under its
 lock

---
 src/common/base/ConcurrentLRUCache.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/common/base/ConcurrentLRUCache.h b/src/common/base/ConcurrentLRUCache.h
index 83e8a48..7d819b2 100644
--- a/src/common/base/ConcurrentLRUCache.h
+++ b/src/common/base/ConcurrentLRUCache.h
@@ -71,7 +71,7 @@ public:
     uint64_t total() {
         uint64_t total = 0;
         for (uint32_t i = 0; i < bucketsNum_; i++) {
-            total += buckets_[i].lru_->total();
+            total += buckets_[i].total();
         }
         return total;
     }
@@ -79,7 +79,7 @@ public:
     uint64_t hits() {
         uint64_t hits = 0;
         for (uint32_t i = 0; i < bucketsNum_; i++) {
-            hits += buckets_[i].lru_->hits();
+            hits += buckets_[i].hits();
         }
         return hits;
     }
@@ -87,7 +87,7 @@ public:
     uint64_t evicts() {
         uint64_t evicts = 0;
         for (uint32_t i = 0; i < bucketsNum_; i++) {
-            evicts += buckets_[i].lru_->evicts();
+            evicts += buckets_[i].evicts();
         }
         return evicts;
     }
@@ -140,6 +140,21 @@ private:
             lru_->clear();
         }
 
+        uint64_t total() {
+            std::lock_guard<std::mutex> guard(lock_);
+            return lru_->total();
+        }
+
+        uint64_t hits() {
+            std::lock_guard<std::mutex> guard(lock_);
+            return lru_->hits();
+        }
+
+        uint64_t evicts() {
+            std::lock_guard<std::mutex> guard(lock_);
+            return lru_->evicts();
+        }
+
         std::mutex lock_;
         std::unique_ptr<LRU<K, V>> lru_;
     };
-- 
2.43.0


From 39a4047f8643c855f701e70a3962da1fc0092870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:52 +0000
Subject: [PATCH 43/46] fix: ICord can be written to after clear

---
 src/common/base/ICord.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index 3432616..e8654ab 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -47,8 +47,8 @@ public:
 
         len_ = 0;
 
-        head_ = nullptr;
-        tail_ = nullptr;
+        head_ = inlineBlock_;
+        tail_ = head_;
     }
 
     // Apply each block to the visitor until the end or the visitor
-- 
2.43.0


From b21947578af861cb89979e648f945bbc93816e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:52 +0000
Subject: [PATCH 44/46] fix: ICord::applyTo visits a last block that is full

---
 src/common/base/ICord.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index e8654ab..5485e30 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -69,7 +69,8 @@ public:
         }
 
         // Last block
-        return visitor(tail_, lengthMod());
+        std::size_t lengthModSize = lengthMod();
+        return visitor(tail_, lengthModSize == 0 ? kBlockContentSize : lengthModSize);
     }
 
     // Append the cord content to the given string
-- 
2.43.0


From cdbb0e34ad201bc603556bba8912965c5914bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 45/46] fix: ICord << ICord keeps a last block that is full,
 and ends for the cord itself

---
 src/common/base/ICord.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index 5485e30..33d3177 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -182,6 +182,14 @@ public:
     }
 
     ICord<kBlockContentSize>& operator<<(const ICord& rhs) {
+        if (rhs.empty()) {
+            return *this;
+        }
+        if (this == &rhs) {
+            // Appending grows the very chain being read, so read it out first
+            return *this << rhs.str();
+        }
+
         char* n = rhs.head_;
         while (n != rhs.tail_) {
             write(n, kBlockContentSize);
@@ -190,7 +198,8 @@ public:
         }
 
         // Last block
-        write(rhs.tail_, rhs.lengthMod());
+        std::size_t lengthModSize = rhs.lengthMod();
+        write(rhs.tail_, lengthModSize == 0 ? kBlockContentSize : lengthModSize);
 
         return *this;
     }
-- 
2.43.0


From 51e5b254bff2d1b1a30a5db018b9e770b724a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:09 +0000
Subject: [PATCH 46/46] fix: the local time is the UTC time plus the offset of
 the time zone

---
 src/common/time/TimeUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 6d06ad9..f8b5cf5 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -90,7 +90,7 @@ public:
     static DateTime localDateTime() {
         auto time = unixTime();
         auto dt = TimeConversion::unixSecondsToDateTime(
-            time.seconds - Timezone::getGlobalTimezone().utcOffsetSecs());
+            time.seconds + Timezone::getGlobalTimezone().utcOffsetSecs());
         dt.microsec = time.milliseconds * 1000;
         return dt;
     }
@@ -149,7 +149,7 @@ public:
         if (unixTime == -1) {
             return Status::Error("Get unix time failed: %s.", std::strerror(errno));
         }
-        return TimeConversion::unixSecondsToDate(unixTime -
+        return TimeConversion::unixSecondsToDate(unixTime +
                                                  Timezone::getGlobalTimezone().utcOffsetSecs());
     }
 
@@ -205,7 +205,7 @@ public:
 
     static Time localTime() {
         auto time = unixTime();
-        auto t = TimeConversion::unixSecondsToTime(time.seconds -
+        auto t = TimeConversion::unixSecondsToTime(time.seconds +
                                                    Timezone::getGlobalTimezone().utcOffsetSecs());
         t.microsec = time.milliseconds * 1000;
         return t;
-- 
2.43.0

