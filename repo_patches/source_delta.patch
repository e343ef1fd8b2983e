From fa451d2b1901cb6ac42be2687e57f0675c801a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 01/83] fix: include Application.h by its real, case-sensitive
 path

---
 include/Caitlyn/__Caitlyn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn.h b/include/Caitlyn/__Caitlyn.h
index 754ffb6..2ebaa2c 100644
--- a/include/Caitlyn/__Caitlyn.h
+++ b/include/Caitlyn/__Caitlyn.h
@@ -18,6 +18,6 @@
 #ifndef CAITLYN_CAITLYN_H_
 #define CAITLYN_CAITLYN_H_
 
-#include "caitlyn/__caitlyn/application.h"
+#include "Caitlyn/__Caitlyn/Application.h"
 
 #endif // CAITLYN_CAITLYN_H_
-- 
2.43.0


From 523bb61cc3feb4ac37526d2ea27ec3381e9513c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 02/83] fix: keep Application state in inline functions so
 several translation units link

---
 include/Caitlyn/__Caitlyn/Application.h | 31 +++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index aa3100c..fef0919 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -33,26 +33,26 @@ class Application
 public:
     static const Application* Initialise()
     {
-        if (initialized_)
+        if (IsInitialized())
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
-        initialized_ = true;
-        return application_;
+        IsInitialized() = true;
+        return Instance();
     }
 
     static const Application* Initialize(const int& argc, const char** argv)
     {
-        if (initialized_)
+        if (IsInitialized())
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
-        application_->SetArgs(argc, argv);
-        initialized_ = true;
+        Instance()->SetArgs(argc, argv);
+        IsInitialized() = true;
 
-        return application_;
+        return Instance();
     }
 
     const std::vector<const char*>& GetArgs() const
@@ -117,18 +117,25 @@ private:
     }
 
 private:
-    static Application* application_;
-    static bool initialized_;
+    static Application* Instance()
+    {
+        static auto* const application = new Application();
+        return application;
+    }
 
+    static bool& IsInitialized()
+    {
+        static bool initialized = false;
+        return initialized;
+    }
+
+private:
     const char* lib_version_;
     const char* system_name_;
     const char* compiler_;
     std::vector<const char*> args_{};
 };
 
-Application* Application::application_ = new Application();
-bool Application::initialized_ = false;
-
 __CAITLYN_GLOBAL_NAMESPACE_END
 
 #endif // CAITLYN_APPLICATION_H_
-- 
2.43.0


From 5842274ecb56d848c21d9968b40fe036d522b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 03/83] fix: char8_t detection in C++20 and later

---
 include/Caitlyn/__Caitlyn/Types.h             | 2 +-
 include/Caitlyn/__Core/Traits/Types/Primary.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Types.h b/include/Caitlyn/__Caitlyn/Types.h
index 5a4ea02..f2cac7e 100644
--- a/include/Caitlyn/__Caitlyn/Types.h
+++ b/include/Caitlyn/__Caitlyn/Types.h
@@ -26,7 +26,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 using __char_t = decltype('\0');
 using __wide_char_t = decltype(L'\0');
 #if __CAITLYN_HAS_CXX20
-using __utf8_char_t = decltype(u8 '\0');
+using __utf8_char_t = decltype(u8'\0');
 #else
 using __utf8_char_t = __char_t;
 #endif
diff --git a/include/Caitlyn/__Core/Traits/Types/Primary.h b/include/Caitlyn/__Core/Traits/Types/Primary.h
index 8bfe6b1..b8f47c3 100644
--- a/include/Caitlyn/__Core/Traits/Types/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Types/Primary.h
@@ -68,7 +68,7 @@ struct __IsCharacter<wchar_t> : TrueType
 
 #if __CAITLYN_HAS_CXX20
 template <>
-struct __IsCharacterType<char8_t> : TrueType
+struct __IsCharacter<char8_t> : TrueType
 {
 };
 #endif
-- 
2.43.0


From 6bf1dc164c3a370d8e26da792daa392173508318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 04/83] fix: detection of the bitwise-or operator tested
 bitwise-and

---
 include/Caitlyn/__Core/Traits/Types/Operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Operators.h b/include/Caitlyn/__Core/Traits/Types/Operators.h
index 6d83593..f58bf9d 100644
--- a/include/Caitlyn/__Core/Traits/Types/Operators.h
+++ b/include/Caitlyn/__Core/Traits/Types/Operators.h
@@ -160,7 +160,7 @@ struct HasBitwiseOrOperatorType : FalseType
 };
 
 template <typename T>
-struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() & std::declval<T>())>> : TrueType
+struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() | std::declval<T>())>> : TrueType
 {
 };
 
-- 
2.43.0


From c13dbaa1cc3b7dbc6e73f64c6457a1356c594ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 05/83] fix: alignment, rank and extent queries return numbers,
 not booleans

---
 include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
index ecb7625..5c68332 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
@@ -25,19 +25,19 @@
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
 template <typename T>
-constexpr Bool AlignmentOf()
+constexpr SizeType AlignmentOf()
 {
     return std::alignment_of<T>::value;
 }
 
 template <typename T>
-constexpr Bool Rank()
+constexpr SizeType Rank()
 {
     return std::rank<T>::value;
 }
 
 template <typename T>
-constexpr Bool Extent()
+constexpr SizeType Extent()
 {
     return std::extent<T>::value;
 }
-- 
2.43.0


From b434ebb258e9c9069a20e55fa7c8b2131393f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 06/83] fix: rvalue reference query and cv-qualified arithmetic
 type queries

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index bb3d563..bade596 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -43,25 +43,25 @@ constexpr Bool IsBoolean()
 template <typename T>
 constexpr Bool IsCharacter()
 {
-    return __Detail::__IsCharacter<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsInteger()
 {
-    return __Detail::__IsInteger<T>::Value;
+    return __Detail::__IsInteger<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsIntegral()
 {
-    return __Detail::__IsCharacter<T>::Value || __Detail::__IsInteger<T>::Value || IsBooleanType<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value || __Detail::__IsInteger<RemoveCVType<T>>::Value || IsBooleanType<T>::Value;
 }
 
 template <typename T>
 constexpr Bool IsFloating()
 {
-    return __Detail::__IsFloating<T>::Value;
+    return __Detail::__IsFloating<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
@@ -109,7 +109,7 @@ constexpr Bool IsLValueReference()
 template <typename T>
 constexpr Bool IsRValueReference()
 {
-    return __Detail::__IsLValueReference<T>::Value;
+    return __Detail::__IsRValueReference<T>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From 0b3b1ab9425f9f1e783346946aec3484230ba25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 07/83] fix: signedness queries accept non-arithmetic types

---
 include/Caitlyn/__Core/Traits/Types/Properties.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Properties.h b/include/Caitlyn/__Core/Traits/Types/Properties.h
index 050dd3d..ce2b2a9 100644
--- a/include/Caitlyn/__Core/Traits/Types/Properties.h
+++ b/include/Caitlyn/__Core/Traits/Types/Properties.h
@@ -24,12 +24,12 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_TRAITS_NAMESPACE_BEGIN
 
 template <typename T>
-struct IsSignedType : BooleanConstant<std::is_arithmetic<T>::value && T(-1) < T(0)>
+struct IsSignedType : BooleanConstant<std::is_signed<T>::value>
 {
 };
 
 template <typename T>
-struct IsUnsignedType : BooleanConstant<std::is_arithmetic<T>::value && T(0) < T(-1)>
+struct IsUnsignedType : BooleanConstant<std::is_unsigned<T>::value>
 {
 };
 
-- 
2.43.0


From daa4dc07a4577c5c7bef532fb076ab0cb6011ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 08/83] fix: remove-const and remove-volatile strip only their
 own qualifier

---
 .../Caitlyn/__Core/Traits/Types/Specifiers.h  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Specifiers.h b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
index 0f8d23c..09fce84 100644
--- a/include/Caitlyn/__Core/Traits/Types/Specifiers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
@@ -41,6 +41,30 @@ struct __AddCV
     using Type = const volatile T;
 };
 
+template <typename T>
+struct __RemoveConst
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveConst<const T>
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile<volatile T>
+{
+    using Type = T;
+};
+
 template <typename T>
 struct __RemoveCV
 {
@@ -77,10 +101,10 @@ template <typename T>
 using AddCVType = typename __Detail::__AddCV<T>::Type;
 
 template <typename T>
-using RemoveConstType = typename __Detail::__RemoveCV<const T>::Type;
+using RemoveConstType = typename __Detail::__RemoveConst<T>::Type;
 
 template <typename T>
-using RemoveVolatileType = typename __Detail::__RemoveCV<volatile T>::Type;
+using RemoveVolatileType = typename __Detail::__RemoveVolatile<T>::Type;
 
 template <typename T>
 using RemoveCVType = typename __Detail::__RemoveCV<T>::Type;
-- 
2.43.0


From eb2e07461cb48f895d693194ae0f5ecbb898238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 09/83] fix: adding a pointer or reference to a reference type

---
 .../Caitlyn/__Core/Traits/Types/Pointers.h    |  2 +-
 .../Caitlyn/__Core/Traits/Types/References.h  | 24 +++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Pointers.h b/include/Caitlyn/__Core/Traits/Types/Pointers.h
index ad20df3..a135860 100644
--- a/include/Caitlyn/__Core/Traits/Types/Pointers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Pointers.h
@@ -24,7 +24,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddPointer(T*) -> __TypeIdentity<RemoveReferenceType<T>*>;
+auto __TryAddPointer(RemoveReferenceType<T>*) -> __TypeIdentity<RemoveReferenceType<T>*>;
 
 template <typename T>
 auto __TryAddPointer(...) -> __TypeIdentity<T>;
diff --git a/include/Caitlyn/__Core/Traits/Types/References.h b/include/Caitlyn/__Core/Traits/Types/References.h
index effb246..5ca049e 100644
--- a/include/Caitlyn/__Core/Traits/Types/References.h
+++ b/include/Caitlyn/__Core/Traits/Types/References.h
@@ -23,18 +23,6 @@
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
-template <typename T>
-auto __TryAddLValueReference(T*) -> __TypeIdentity<T&>;
-
-template <typename T>
-auto __TryAddLValueReference(...) -> __TypeIdentity<T>;
-
-template <typename T>
-auto __TryAddRValueReference(T*) -> __TypeIdentity<T&&>;
-
-template <typename T>
-auto __TryAddRValueReference(...) -> __TypeIdentity<T>;
-
 template <typename T>
 struct __RemoveReference
 {
@@ -53,6 +41,18 @@ struct __RemoveReference<T&&>
     using Type = T;
 };
 
+template <typename T>
+auto __TryAddLValueReference(typename __RemoveReference<T>::Type*) -> __TypeIdentity<T&>;
+
+template <typename T>
+auto __TryAddLValueReference(...) -> __TypeIdentity<T>;
+
+template <typename T>
+auto __TryAddRValueReference(typename __RemoveReference<T>::Type*) -> __TypeIdentity<T&&>;
+
+template <typename T>
+auto __TryAddRValueReference(...) -> __TypeIdentity<T>;
+
 __CAITLYN_DETAIL_NAMESPACE_END
 
 template <typename T>
-- 
2.43.0


From 8e7f8a4e45870a20aef5f41463acefcde957b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:15 +0000
Subject: [PATCH 10/83] fix: include recent standard headers only where they
 exist

---
 include/Caitlyn/__Core/Algorithms.h |  4 +++-
 include/Caitlyn/__Core/Error.h      |  8 ++++++--
 include/Caitlyn/__Core/IO.h         | 12 +++++++++---
 include/Caitlyn/__Core/Numeric.h    |  4 +++-
 include/Caitlyn/__Core/Threads.h    |  8 ++++++--
 5 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/Caitlyn/__Core/Algorithms.h b/include/Caitlyn/__Core/Algorithms.h
index 54eac30..a583ea6 100644
--- a/include/Caitlyn/__Core/Algorithms.h
+++ b/include/Caitlyn/__Core/Algorithms.h
@@ -31,7 +31,9 @@
 #endif
 
 #if __CAITLYN_HAS_CXX23
-    #include <generator>
+    #if __has_include(<generator>)
+        #include <generator>
+    #endif
 #endif
 
 #endif // CAITLYN_CORE_ALGORITHMS_H_
diff --git a/include/Caitlyn/__Core/Error.h b/include/Caitlyn/__Core/Error.h
index 2023b1e..849ab49 100644
--- a/include/Caitlyn/__Core/Error.h
+++ b/include/Caitlyn/__Core/Error.h
@@ -28,11 +28,15 @@
 #include "Caitlyn/__Core/Error/Unexpected.h"
 
 #if __CAITLYN_HAS_CXX20
-    #include <stacktrace>
+    #if __has_include(<stacktrace>)
+        #include <stacktrace>
+    #endif
 #endif
 
 #if __CAITLYN_HAS_CXX23
-    #include <expected>
+    #if __has_include(<expected>)
+        #include <expected>
+    #endif
 #endif
 
 #endif // CAITLYN_CORE_ERROR_H_
diff --git a/include/Caitlyn/__Core/IO.h b/include/Caitlyn/__Core/IO.h
index 001f298..5165c9f 100644
--- a/include/Caitlyn/__Core/IO.h
+++ b/include/Caitlyn/__Core/IO.h
@@ -28,12 +28,18 @@
 #include "Caitlyn/__Core/IO/Stream.h"
 
 #if __CAITLYN_HAS_CXX20
-    #include <syncstream>
+    #if __has_include(<syncstream>)
+        #include <syncstream>
+    #endif
 #endif
 
 #if __CAITLYN_HAS_CXX23
-    #include <print>
-    #include <spanstream>
+    #if __has_include(<print>)
+        #include <print>
+    #endif
+    #if __has_include(<spanstream>)
+        #include <spanstream>
+    #endif
 #endif
 
 #endif // CAITLYN_CORE_IO_H_
diff --git a/include/Caitlyn/__Core/Numeric.h b/include/Caitlyn/__Core/Numeric.h
index b5ecb4b..604ee26 100644
--- a/include/Caitlyn/__Core/Numeric.h
+++ b/include/Caitlyn/__Core/Numeric.h
@@ -40,7 +40,9 @@
 #endif
 
 #if __CAITLYN_HAS_CXX23
-    #include <stdfloat>
+    #if __has_include(<stdfloat>)
+        #include <stdfloat>
+    #endif
 #endif
 
 #endif // CAITLYN_CORE_NUMERIC_H_
diff --git a/include/Caitlyn/__Core/Threads.h b/include/Caitlyn/__Core/Threads.h
index 4c94ee9..f940d7e 100644
--- a/include/Caitlyn/__Core/Threads.h
+++ b/include/Caitlyn/__Core/Threads.h
@@ -30,11 +30,15 @@
 #endif
 
 #if __CAITLYN_HAS_CXX20
-    #include <barrier>
+    #if __has_include(<barrier>)
+        #include <barrier>
+    #endif
     #include <coroutine>
     #include <latch>
     #include <semaphore>
-    #include <stop_token>
+    #if __has_include(<stop_token>)
+        #include <stop_token>
+    #endif
 #endif
 
 #endif // CAITLYN_CORE_THREADS_H_
-- 
2.43.0


From 36780424c4ec1049371e3b7953fad4b534804065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 11/83] fix: headers include the standard headers they use

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h   | 2 ++
 include/Caitlyn/__Core/String/String.h                | 2 +-
 include/Caitlyn/__Core/Utility/Comparators.h          | 2 ++
 include/Caitlyn/__Numeric/Types/BigInteger.h          | 1 +
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 2 ++
 include/Caitlyn/__Testing/Types/TestFailMessage.h     | 3 ++-
 6 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index ba2d065..f1a5906 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 #define CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 
+#include <stdexcept>
+
 #include "Caitlyn/__Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b192a9e..5ab229d 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -25,7 +25,7 @@
 #include <stdexcept>
 #include <string>
 #include <utility>
-
+#include <vector>
 
 #include "Caitlyn/__Base.h"
 #include "Caitlyn/__Core/Char.h"
diff --git a/include/Caitlyn/__Core/Utility/Comparators.h b/include/Caitlyn/__Core/Utility/Comparators.h
index 4fbff51..ed512ed 100644
--- a/include/Caitlyn/__Core/Utility/Comparators.h
+++ b/include/Caitlyn/__Core/Utility/Comparators.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_UTILITY_COMPARATORS_H_
 #define CAITLYN_CORE_UTILITY_COMPARATORS_H_
 
+#include <type_traits>
+
 #include "Caitlyn/__Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 6daacbe..ab99e0a 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -19,6 +19,7 @@
 #define CAITLYN_NUMERIC_TYPES_BIGINTEGER_H_
 
 #include <algorithm>
+#include <cstdint>
 #include <stdexcept>
 #include <string>
 #include <vector>
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4f39650..c2a10ab 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 #define CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 
+#include <cstdint>
+
 #include "Caitlyn/__Core/String.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonData.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonError.h"
diff --git a/include/Caitlyn/__Testing/Types/TestFailMessage.h b/include/Caitlyn/__Testing/Types/TestFailMessage.h
index 3a1f04e..e373f75 100644
--- a/include/Caitlyn/__Testing/Types/TestFailMessage.h
+++ b/include/Caitlyn/__Testing/Types/TestFailMessage.h
@@ -19,8 +19,9 @@
 #define CAITLYN_TEST_TYPES_TESTFAILMESSAGE_H_
 
 #include <sstream>
+#include <stdexcept>
 
-#include "Caitlyn/__Base.h"
+#include "Caitlyn/__Core/String.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_TESTING_NAMESPACE_BEGIN
-- 
2.43.0


From 70301bc543500f1e81dc983026ded4635096b12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 12/83] fix: UniquePtr raw-pointer assignment calls the
 existing Reset

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index f1a5906..fb92bb4 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -55,7 +55,7 @@ public:
 public:
     UniquePtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
-- 
2.43.0


From 595b8c91db93830a9d5bfedacab0fabb319e2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 13/83] fix: UniquePtr::Release compiles for non-const element
 types

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index fb92bb4..2777572 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -128,7 +128,7 @@ public:
 
     Pointer Release()
     {
-        ConstPointer tmp = data_;
+        const Pointer tmp = data_;
         data_ = nullptr;
         return tmp;
     }
-- 
2.43.0


From be2329d270092f2146c2c0b3894f3b5f8002ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 14/83] fix: UniquePtr detaches the old object before
 destroying it (source may live inside it)

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index 2777572..655b886 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -63,9 +63,10 @@ public:
     {
         if (this != &other)
         {
-            delete data_;
+            const Pointer old_data = data_;
             data_ = other.data_;
             other.data_ = nullptr;
+            delete old_data;
         }
         return *this;
     }
@@ -121,8 +122,9 @@ public:
     {
         if (data_ != new_data)
         {
-            delete data_;
+            const Pointer old_data = data_;
             data_ = new_data;
+            delete old_data;
         }
     }
 
-- 
2.43.0


From f302ca063048a79d89881cb6238da9e13918b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 15/83] fix: Ptr::Reset to the pointer it already holds must
 not destroy it

---
 include/Caitlyn/__Core/Memory/Types/RawPointer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/RawPointer.h b/include/Caitlyn/__Core/Memory/Types/RawPointer.h
index a79d64d..ef17765 100644
--- a/include/Caitlyn/__Core/Memory/Types/RawPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/RawPointer.h
@@ -105,8 +105,11 @@ public:
 public:
     void Reset(Pointer new_data = nullptr)
     {
-        delete data_;
-        data_ = new_data;
+        if (data_ != new_data)
+        {
+            delete data_;
+            data_ = new_data;
+        }
     }
 
     void Destroy()
-- 
2.43.0


From 666221b4863f0e693fe13c64e2bd3b8ed9c81668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 16/83] fix: SharedPtr raw-pointer assignment calls the
 existing Reset

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e7160ec..02a338c 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -60,7 +60,7 @@ public:
 public:
     SharedPtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
-- 
2.43.0


From 0bc4dae42ef6a485a31270dd15508ce8f6c19514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:49 +0000
Subject: [PATCH 17/83] fix: copying an empty SharedPtr

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 02a338c..5c8d533 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -43,7 +43,10 @@ public:
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
-        ref_count_->fetch_add(1, std::memory_order_relaxed);
+        if (ref_count_)
+        {
+            ref_count_->fetch_add(1, std::memory_order_relaxed);
+        }
     }
 
     SharedPtr(SharedPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
-- 
2.43.0


From b48e9d57bc10e28d00e1bb96e25c08aacf9b2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 18/83] fix: SharedPtr frees the object when the last owner
 goes

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 5c8d533..e532c95 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -155,7 +155,7 @@ public:
 private:
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 0)
+        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
             delete ref_count_;
-- 
2.43.0


From af25d639f4844f1d66b6774cc9e1fd923206d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 19/83] fix: SharedPtr takes the new object before releasing
 the old one (source may live inside it)

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e532c95..20d8d6d 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -20,6 +20,7 @@
 
 #include <atomic>
 #include <stdexcept>
+#include <utility>
 
 #include "Caitlyn/__Base.h"
 
@@ -71,7 +72,7 @@ public:
     {
         if (this != &other)
         {
-            Release();
+            const SharedPtr old{std::move(*this)};
             data_ = other.data_;
             ref_count_ = other.ref_count_;
             if (ref_count_)
@@ -86,7 +87,7 @@ public:
     {
         if (this != &other)
         {
-            Release();
+            const SharedPtr old{std::move(*this)};
             data_ = other.data_;
             ref_count_ = other.ref_count_;
             other.data_ = nullptr;
@@ -146,9 +147,9 @@ public:
     {
         if (data_ != data)
         {
-            Release();
-            data_ = data;
+            const SharedPtr old{std::move(*this)};
             ref_count_ = data ? new Counter(1) : nullptr;
+            data_ = data;
         }
     }
 
-- 
2.43.0


From 1d390728b015343086cceac1ff153b4446a03ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 20/83] fix: WeakPtr no longer keeps its object alive

---
 .../__Core/Memory/Types/SharedPointer.h       | 50 ++++++++++++---
 .../Caitlyn/__Core/Memory/Types/WeakPointer.h | 61 ++++++++++++++-----
 2 files changed, 89 insertions(+), 22 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 20d8d6d..b01d773 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -25,6 +25,40 @@
 #include "Caitlyn/__Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
+__CAITLYN_DETAIL_NAMESPACE_BEGIN
+
+// Owners share one block; it outlives the object while weak references remain.
+struct __ReferenceCounter
+{
+    std::atomic_size_t strong{1};
+    std::atomic_size_t weak{1}; // weak references, plus one for all owners together
+
+    bool TryAddOwner()
+    {
+        auto count = strong.load(std::memory_order_relaxed);
+        while (count != 0)
+        {
+            if (strong.compare_exchange_weak(count, count + 1, std::memory_order_acq_rel, std::memory_order_relaxed))
+            {
+                return true;
+            }
+        }
+        return false;
+    }
+
+    void ReleaseWeak()
+    {
+        if (weak.fetch_sub(1, std::memory_order_acq_rel) == 1)
+        {
+            delete this;
+        }
+    }
+};
+
+__CAITLYN_DETAIL_NAMESPACE_END
+
+template <typename T>
+class WeakPtr;
 
 template <typename T>
 class SharedPtr
@@ -33,12 +67,12 @@ public:
     using ValueType = T;
     using Pointer = T*;
     using Reference = T&;
-    using Counter = std::atomic_size_t;
+    using Counter = __Detail::__ReferenceCounter;
 
 public:
     SharedPtr() = default;
 
-    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new Counter(1) : nullptr}
+    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new Counter() : nullptr}
     {
     }
 
@@ -46,7 +80,7 @@ public:
     {
         if (ref_count_)
         {
-            ref_count_->fetch_add(1, std::memory_order_relaxed);
+            ref_count_->strong.fetch_add(1, std::memory_order_relaxed);
         }
     }
 
@@ -77,7 +111,7 @@ public:
             ref_count_ = other.ref_count_;
             if (ref_count_)
             {
-                ref_count_->fetch_add(1);
+                ref_count_->strong.fetch_add(1);
             }
         }
         return *this;
@@ -148,18 +182,20 @@ public:
         if (data_ != data)
         {
             const SharedPtr old{std::move(*this)};
-            ref_count_ = data ? new Counter(1) : nullptr;
+            ref_count_ = data ? new Counter() : nullptr;
             data_ = data;
         }
     }
 
 private:
+    friend class WeakPtr<T>;
+
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
+        if (ref_count_ && ref_count_->strong.fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
-            delete ref_count_;
+            ref_count_->ReleaseWeak();
         }
     }
 
diff --git a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
index ba06cc9..7c74d46 100644
--- a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
@@ -32,45 +32,58 @@ public:
     using Resource = SharedPtr<T>;
 
 public:
-    WeakPtr() : data_(nullptr)
+    WeakPtr() = default;
+
+    WeakPtr(const Resource& resource) : data_{resource.data_}, ref_count_{resource.ref_count_}
     {
+        AddReference();
     }
 
-    WeakPtr(const Resource& resource) : data_{resource}
+    WeakPtr(const WeakPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
+        AddReference();
     }
 
-    WeakPtr(const WeakPtr& other) : data_{other.data_}
+    WeakPtr(WeakPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
     {
+        other.data_ = nullptr;
+        other.ref_count_ = nullptr;
     }
 
-    WeakPtr(WeakPtr&& other) noexcept : data_{std::move(other.data_)}
+    ~WeakPtr()
     {
+        if (ref_count_)
+        {
+            ref_count_->ReleaseWeak();
+        }
     }
 
 public:
     WeakPtr& operator=(const WeakPtr& other)
     {
-        data_ = other.data_;
+        WeakPtr copy{other};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(const Resource& sp)
     {
-        this->data_ = sp;
+        WeakPtr copy{sp};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(WeakPtr&& other) noexcept
     {
-        data_ = std::move(other.data_);
+        WeakPtr moved{std::move(other)};
+        Swap(moved);
         return *this;
     }
 
 public:
     Reference operator*() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
@@ -79,11 +92,11 @@ public:
 
     Pointer operator->() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
-        return data_.Get();
+        return data_;
     }
 
 public:
@@ -110,21 +123,39 @@ public:
 public:
     Resource lock() const
     {
-        if (data_ == nullptr || !data_.Get())
+        Resource resource;
+        if (ref_count_ && ref_count_->TryAddOwner())
         {
-            return Resource();
+            resource.data_ = data_;
+            resource.ref_count_ = ref_count_;
         }
-        return data_;
+        return resource;
     }
 
 public:
     bool expired() const
     {
-        return data_ == nullptr || !data_.Get();
+        return ref_count_ == nullptr || ref_count_->strong.load(std::memory_order_acquire) == 0;
+    }
+
+private:
+    void AddReference() const
+    {
+        if (ref_count_)
+        {
+            ref_count_->weak.fetch_add(1, std::memory_order_relaxed);
+        }
+    }
+
+    void Swap(WeakPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(ref_count_, other.ref_count_);
     }
 
 private:
-    Resource data_;
+    Pointer data_{};
+    typename Resource::Counter* ref_count_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 68459bb601816b4ad44483dbebb3c192783b8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 21/83] fix: integer comparison helpers call each other by
 their real names

---
 include/Caitlyn/__Core/Utility/Comparators.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Comparators.h b/include/Caitlyn/__Core/Utility/Comparators.h
index ed512ed..8c3b08d 100644
--- a/include/Caitlyn/__Core/Utility/Comparators.h
+++ b/include/Caitlyn/__Core/Utility/Comparators.h
@@ -25,7 +25,7 @@
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
 template <typename T, typename U>
-bool cmp_eq(T t, U u) noexcept
+__CAITLYN_CONSTEXPR14 bool cmp_eq(T t, U u) noexcept
 {
     using UT = typename std::make_unsigned<T>::type;
     using UU = typename std::make_unsigned<U>::type;
@@ -44,11 +44,11 @@ bool cmp_eq(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_ne(T t, U u) noexcept
 {
-    return !compare_equal(t, u);
+    return !cmp_eq(t, u);
 }
 
 template <typename T, typename U>
-bool cmp_less(T t, U u) noexcept
+__CAITLYN_CONSTEXPR14 bool cmp_less(T t, U u) noexcept
 {
     using UT = typename std::make_unsigned<T>::type;
     using UU = typename std::make_unsigned<U>::type;
@@ -67,19 +67,19 @@ bool cmp_less(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_greater(T t, U u) noexcept
 {
-    return compare_less(u, t);
+    return cmp_less(u, t);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_le(T t, U u) noexcept
 {
-    return !compare_greater(t, u);
+    return !cmp_greater(t, u);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_ge(T t, U u) noexcept
 {
-    return !compare_less(t, u);
+    return !cmp_less(t, u);
 }
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 626791bc0405bc635995651471fea734119cd1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:53 +0000
Subject: [PATCH 22/83] fix: Utility tests the standard-version macros by their
 real names

---
 include/Caitlyn/__Core/Utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility.h b/include/Caitlyn/__Core/Utility.h
index 078a233..195e758 100644
--- a/include/Caitlyn/__Core/Utility.h
+++ b/include/Caitlyn/__Core/Utility.h
@@ -36,13 +36,13 @@
 #include "Caitlyn/__Core/Utility/Comparators.h"
 #include "Caitlyn/__Core/Utility/Random.h"
 
-#if __caitlyn_has_cxx17
+#if __CAITLYN_HAS_CXX17
     #include <any>
     #include <optional>
     #include <variant>
 #endif
 
-#if __caitlyn_has_cxx20
+#if __CAITLYN_HAS_CXX20
     #include <source_location>
     #include <version>
 #endif
-- 
2.43.0


From 14bbf8d0bafea9556a39392772e66db708a35424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:57 +0000
Subject: [PATCH 23/83] fix: Expected::UnwrapOrDefault called a function that
 does not exist

---
 include/Caitlyn/__Core/Error/Expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a37d5cd..3577e57 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -220,12 +220,12 @@ public:
     const ValueType& UnwrapOrDefault() const
     {
         static ValueType default_value{};
-        return unwrap_or(default_value);
+        return hasValue_ ? data_.value : default_value;
     }
 
     const ValueType& UnwrapOrDefault(const ValueType& default_value) const
     {
-        return unwrap_or(default_value);
+        return hasValue_ ? data_.value : default_value;
     }
 
     const ValueType& Expect(const String& message) const
-- 
2.43.0


From 681092162e755771b2be0c9936fc3d27d4653408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 24/83] fix: Expected::MapError keeps the value when the error
 type changes

---
 include/Caitlyn/__Core/Error/Expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 3577e57..1baf27b 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -174,7 +174,7 @@ public:
         {
             return Expected<ValueType, result_error_type>(Unexpected<result_error_type>(func(data_.error.Get())));
         }
-        return *this;
+        return Expected<ValueType, result_error_type>{data_.value};
     }
 
     template <typename Func>
-- 
2.43.0


From a4ca61e3516d3ac3678020cb4210c82b20ffbc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:04 +0000
Subject: [PATCH 25/83] fix: Expected::ExpectError accepts the library's own
 strings

---
 include/Caitlyn/__Core/Error/Expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 1baf27b..ca9d636 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -244,7 +244,7 @@ public:
         {
             return data_.error.Get();
         }
-        throw std::runtime_error(message);
+        throw std::runtime_error(String{message}.str());
     }
 
     template <typename Func>
-- 
2.43.0


From c8a4b59503dbb4a01dc7cc0b1f60dcdbbc09d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:07 +0000
Subject: [PATCH 26/83] fix: Expected::Filter compiles and keeps an existing
 error

---
 include/Caitlyn/__Core/Error/Expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index ca9d636..83ee9cd 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -250,11 +250,11 @@ public:
     template <typename Func>
     auto Filter(Func func) const -> Expected
     {
-        if (hasValue_ && func(data_.value))
+        if (!hasValue_ || func(data_.value))
         {
             return *this;
         }
-        return result_t(Unexpected<ErrorType>{});
+        return Unexpected<ErrorType>{ErrorType{}};
     }
 
     template <typename U, typename Func>
-- 
2.43.0


From b2a2e5002d4837fb91853e5d24ca9215e5d224ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 27/83] fix: Expected stays destructible when copying a payload
 throws during assignment

---
 include/Caitlyn/__Core/Error/Expected.h | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 83ee9cd..758c033 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -71,16 +71,9 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
-            {
-                new (&data_.value) ValueType{other.data_.value};
-            }
-            else
-            {
-                new (&data_.error) Unexpected<ErrorType>{other.data_.error};
-            }
+            // Copying may throw, so it happens before the current content is destroyed
+            Expected copy{other};
+            *this = std::move(copy);
         }
         return *this;
     }
@@ -99,7 +92,7 @@ public:
     }
 
     Expected& operator=(Expected&& other)
-        noexcept(NothrowMoveAssignable<ValueType>() && NothrowMoveAssignable<ErrorType>())
+        noexcept(NothrowMoveConstructible<ValueType>() && NothrowMoveConstructible<ErrorType>())
     {
         if (this != &other)
         {
-- 
2.43.0


From c8aed601310c3e9c64f58fa2c0dc2d68d4446b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:15 +0000
Subject: [PATCH 28/83] fix: decoding a truncated UTF-8 sequence read past the
 end of the text

---
 include/Caitlyn/__Core/String/String.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 5ab229d..446cb45 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -999,6 +999,14 @@ private:
         {
             throw std::runtime_error("Invalid UTF-8 sequence");
         }
+        for (SizeType i = 1; i < len; ++i)
+        {
+            // The terminating zero is no continuation byte, so a cut-off sequence is never read past
+            if ((static_cast<Byte>(cstr[i]) & 0xC0) != 0x80)
+            {
+                throw std::runtime_error("Invalid UTF-8 sequence");
+            }
+        }
         return CharType{BasicString(cstr, len)};
     }
 
-- 
2.43.0


From 4119b49f46bd055aa4ac646c0513f695c0e04cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:22 +0000
Subject: [PATCH 29/83] fix: String construction from a range of characters
 compiles

---
 include/Caitlyn/__Core/String/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 446cb45..b76855a 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -96,13 +96,13 @@ public:
         }
     }
 
-    // Constructor from iterator range
+    // Constructor from a range of characters
     template <typename InputIt>
     String(InputIt first, InputIt last)
     {
         while (first != last)
         {
-            data_.emplace_back(decode_utf8_char(&(*first)));
+            data_.emplace_back(*first);
             ++first;
         }
     }
-- 
2.43.0


From 1b3d799e947f2142f48f89d21f1ccc8b98fc130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 30/83] fix: searching from a position past the end of the text

---
 include/Caitlyn/__Core/String/String.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b76855a..4c87f4a 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -391,6 +391,10 @@ public:
     // Method to find the first occurrence of a substring
     SizeType Find(const String& substr, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         const auto it =
             std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
@@ -442,6 +446,10 @@ public:
     template <typename Predicate>
     SizeType FindIf(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
@@ -450,6 +458,10 @@ public:
     template <typename Predicate>
     SizeType FindIfNot(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if_not(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
-- 
2.43.0


From a72ac2c8bec43e42ab1b909af3ce5103ddb8c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:37 +0000
Subject: [PATCH 31/83] fix: ReverseFind returns the start of the match

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 4c87f4a..f53982e 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -416,7 +416,7 @@ public:
             data_.rend(),
             substr.rbegin(),
             substr.rend());
-        return (it != data_.rend()) ? size() - 1 - std::distance(data_.rbegin(), it) : NPosition;
+        return (it != data_.rend()) ? size() - substr.size() - std::distance(data_.rbegin(), it) : NPosition;
     }
 
     // Substring method
-- 
2.43.0


From 4f1dbb18c2b604427a7308a13bac27cbca33e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:44 +0000
Subject: [PATCH 32/83] fix: inserting or appending a string into itself

---
 include/Caitlyn/__Core/String/String.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index f53982e..e046638 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -241,7 +241,7 @@ public:
 public:
     String& operator+=(const String& str)
     {
-        data_.insert(data_.end(), str.data_.begin(), str.data_.end());
+        Insert(size(), str);
         return *this;
     }
 
@@ -515,7 +515,9 @@ public:
         {
             throw std::out_of_range("Position out of range");
         }
-        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), str.data_.begin(), str.data_.end());
+        // The inserted text may be this very string
+        const DataType inserted = str.data_;
+        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), inserted.begin(), inserted.end());
     }
 
     void Insert(const SizeType pos, const SizeType count, const CharType& ch)
-- 
2.43.0


From 2673890493531fd0ed2f68655490ae9c1689b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 33/83] fix: Repeat with a count of zero gives an empty text

---
 include/Caitlyn/__Core/String/Utility.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 1533432..7bcf2cc 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -42,10 +42,6 @@ inline std::vector<std::string> Split(const std::string& text, const char delim)
 
 inline std::string Repeat(const std::string& str, const size_t count)
 {
-    if (count < 2)
-    {
-        return str;
-    }
     std::stringstream ss;
     for (size_t i = 0; i < count; ++i)
     {
-- 
2.43.0


From f76beefc53ffaa9331786131753a3ee0ae8d4aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 34/83] fix: FindLastNonSpace examines the first character and
 accepts empty text

---
 include/Caitlyn/__Core/String/Utility.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 7bcf2cc..9e2403c 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -162,11 +162,11 @@ inline size_t FindFirstNonSpace(const String& str)
 
 inline size_t FindLastNonSpace(const String& str)
 {
-    for (size_t i = str.size() - 1; i > 0; --i)
+    for (size_t i = str.size(); i > 0; --i)
     {
-        if (!IsSpace(str[i].GetCodePoint()))
+        if (!IsSpace(str[i - 1].GetCodePoint()))
         {
-            return i;
+            return i - 1;
         }
     }
     return str.size();
-- 
2.43.0


From 97de4685492c598b7b269263f9422e7c0431362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:04 +0000
Subject: [PATCH 35/83] fix: resolving Unicode and unknown escapes in
 EscapeString

---
 include/Caitlyn/__Core/String/Utility.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 9e2403c..f5ccffc 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -115,23 +115,26 @@ inline String EscapeString(const String& str)
             }
             else if (str[i + 1] == Def::LatinSmallLetterU)
             {
-                if (i + 5 < str.size())
+                const auto hex = str.Substring(i + 2, 4).str();
+
+                if (hex.size() == 4 && hex.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos)
                 {
-                    auto hex = str.Substring(i + 2, 4).str();
                     // Convert the hexadecimal representation to a character
-                    oss << static_cast<char>(std::stoi(hex, nullptr, 16));
+                    oss << Char{static_cast<CodePoint>(std::stoul(hex, nullptr, 16))};
                     i += 5; // Skip the escaped sequence
                 }
                 else
                 {
                     // Incomplete escape sequence, handle it as an error
                     oss << Def::ReverseSolidus << str[i + 1];
+                    ++i;
                 }
             }
             else
             {
                 // Invalid escape sequence, handle it as an error
                 oss << Def::ReverseSolidus << str[i + 1];
+                ++i;
             }
         }
         else
-- 
2.43.0


From b5a9ef39aa221d016d616984f8e4badaa22c8fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 36/83] fix: a copied StringBuilder appends instead of
 overwriting

---
 include/Caitlyn/__Core/String/StringBuilder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index abd42e6..0cfe143 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -51,7 +51,7 @@ public:
         data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
-    StringBuilder(const StringBuilder& other) : data_{other.data_.str()}
+    StringBuilder(const StringBuilder& other) : data_{other.data_.str(), std::ios::out | std::ios::ate}
     {
     }
 
-- 
2.43.0


From 321f3b03faad07be7b21edba265d3f566a378aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 37/83] fix: case mapping of polytonic Greek, code points above
 U+1FEC and U+0139-0148

---
 include/Caitlyn/__Core/Char/Utility.h | 42 +++++++++++++++------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 8e8b51a..5fe65ea 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -167,51 +167,51 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     // Additional
     if (codePoint >= 0x1F00 && codePoint <= 0x1F07)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F10 && codePoint <= 0x1F15)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F20 && codePoint <= 0x1F27)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F30 && codePoint <= 0x1F37)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F40 && codePoint <= 0x1F45)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F60 && codePoint <= 0x1F67)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F70 && codePoint <= 0x1F71)
     {
-        return codePoint + 0x56;
+        return codePoint + 0x4A;
     }
     if (codePoint >= 0x1F72 && codePoint <= 0x1F75)
     {
-        return codePoint + 0x64;
+        return codePoint + 0x56;
     }
     if (codePoint >= 0x1F76 && codePoint <= 0x1F77)
     {
-        return codePoint + 0x80;
+        return codePoint + 0x64;
     }
     if (codePoint >= 0x1F78 && codePoint <= 0x1F79)
     {
-        return codePoint + 0x7E;
+        return codePoint + 0x80;
     }
     if (codePoint >= 0x1F7A && codePoint <= 0x1F7B)
     {
-        return codePoint + 0x7C;
+        return codePoint + 0x70;
     }
     if (codePoint >= 0x1F7C && codePoint <= 0x1F7D)
     {
-        return codePoint + 0x7A;
+        return codePoint + 0x7E;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -232,7 +232,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 == 0)
+        if (codePoint % 2 != 0)
         {
             return codePoint;
         }
@@ -311,27 +311,31 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x1FBA && codePoint <= 0x1FBB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x4A;
     }
     if (codePoint >= 0x1FC8 && codePoint <= 0x1FCB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x56;
     }
     if (codePoint >= 0x1FD8 && codePoint <= 0x1FD9)
     {
         return codePoint - 0x08;
     }
+    if (codePoint >= 0x1FDA && codePoint <= 0x1FDB)
+    {
+        return codePoint - 0x64;
+    }
     if (codePoint >= 0x1FE8 && codePoint <= 0x1FE9)
     {
         return codePoint - 0x08;
     }
     if (codePoint >= 0x1FEA && codePoint <= 0x1FEB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x70;
     }
-    if (codePoint >= 0x1FEC)
+    if (codePoint == 0x1FEC)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x07;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -352,7 +356,7 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 != 0)
+        if (codePoint % 2 == 0)
         {
             return codePoint;
         }
-- 
2.43.0


From 68671a74d40170aa4acc864e11ff0c7134cc0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 38/83] fix: ReadChar on an empty line returns an empty
 character

---
 include/Caitlyn/__Core/IO/Stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/IO/Stream.h b/include/Caitlyn/__Core/IO/Stream.h
index 7db32f4..be90dca 100644
--- a/include/Caitlyn/__Core/IO/Stream.h
+++ b/include/Caitlyn/__Core/IO/Stream.h
@@ -49,7 +49,8 @@ public:
 
     static Char ReadChar(const String& message = String::Empty())
     {
-        return ReadLine(message)[0];
+        const String line = ReadLine(message);
+        return line.NotEmpty() ? line[0] : Char{};
     }
 
     template <typename... Args>
-- 
2.43.0


From d981318c1ad0db439891d4d742fcc920f6c0591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 39/83] fix: Format takes the addressed argument for specified
 placeholders and rejects missing ones

---
 include/Caitlyn/__Core/String/String.h | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index e046638..97fb19c 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -617,7 +617,7 @@ public:
                         {
                             throw Formatter::FormatError{"Invalid argument index"};
                         }
-                        if (arg_index > arguments.size() - 1)
+                        if (arg_index >= arguments.size())
                         {
                             throw Formatter::FormatError{"Argument index out of range"};
                         }
@@ -628,7 +628,7 @@ public:
                             if (format_spec[0] == Def::Colon)
                             {
                                 auto parsed_spec = Formatter::MakeSpacifier(format_spec);
-                                result << Formatter::Process(arguments[auto_index], parsed_spec).str();
+                                result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                             }
                         }
                         else
@@ -639,19 +639,11 @@ public:
                     else if (spec.NotEmpty() && spec[spec_begin] == Def::Colon)
                     {
                         auto parsed_spec = Formatter::MakeSpacifier(spec);
-                        result << Formatter::Process(arguments[arg_index], parsed_spec).str();
-                    }
-                    else if (arguments.size() == 1)
-                    {
-                        result << arguments[0].str();
-                    }
-                    else if (arguments.size() > 1)
-                    {
-                        result << arguments[auto_index++].str();
+                        result << Formatter::Process(Formatter::NextArgument(arguments, auto_index), parsed_spec).str();
                     }
                     else
                     {
-                        throw Formatter::FormatError{"Missing argument index in format string"};
+                        result << Formatter::NextArgument(arguments, auto_index).str();
                     }
                     pos = end + 1;
                 }
@@ -770,6 +762,19 @@ private:
             return value.ToString();
         }
 
+    public:
+        static const String& NextArgument(const std::vector<String>& arguments, SizeType& auto_index)
+        {
+            // A sole argument serves all placeholders
+            const SizeType index = arguments.size() == 1 ? 0 : auto_index++;
+
+            if (index >= arguments.size())
+            {
+                throw FormatError{"Missing argument for placeholder in format string"};
+            }
+            return arguments[index];
+        }
+
     public:
         static void SetFill(const String& config, FormatSpecifier& spec, SizeType& pos)
         {
-- 
2.43.0


From 9a6fa8085d5507149004c1b081cb9d42487a6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 40/83] fix: an empty format specification reads past the
 template

---
 include/Caitlyn/__Core/String/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 97fb19c..93a2616 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -783,6 +783,10 @@ private:
 
         static void ParseAlignment(const String& config, FormatSpecifier& spec, SizeType& pos)
         {
+            if (pos >= config.size())
+            {
+                return;
+            }
             if (pos + 1 < config.size() &&
                 (config[pos + 1] == Def::LessThanSign || config[pos + 1] == Def::GreaterThanSign ||
                  config[pos + 1] == Def::CircumflexAccent))
-- 
2.43.0


From 3d93f4d6d20e4ee645ad76ef0d602087abbcb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 41/83] fix: floating format without precision cuts the
 fraction and leaves a bare point

---
 include/Caitlyn/__Core/String/String.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 93a2616..15c9f8a 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -937,10 +937,12 @@ private:
 
             if (dot_index != NPosition)
             {
-                oss << value.Substring(0, dot_index + 1).str();
+                // Without a precision the number is left as it is, a zero precision drops the fraction
+                oss << (spec.precision < 0 ? value : value.Substring(0, dot_index)).str();
 
                 if (spec.precision > 0)
                 {
+                    oss << Def::FullStop;
                     const SizeType limit = dot_index + 1 + spec.precision;
                     SizeType index = dot_index + 1;
 
-- 
2.43.0


From 1ae5af8b7bed12e3c4a4972f67f820522bb6cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 42/83] fix: File::Read returns exactly the bytes of the file,
 empty files included

---
 include/Caitlyn/__Core/File/File.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 21c18a9..7411f71 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -19,8 +19,8 @@
 #define CAITLYN_CORE_FILE_FILE_STREAM_H_
 
 #include <fstream>
+#include <string>
 #include <utility>
-#include <vector>
 
 #include "Caitlyn/__Core/String.h"
 
@@ -125,10 +125,10 @@ public:
         const std::streamsize size = file_.tellg();
         file_.seekg(0, std::ios::beg);
 
-        std::vector<char> buffer(size);
-        if (file_.read(buffer.data(), size))
+        std::basic_string<char> buffer(static_cast<SizeType>(size), '\0');
+        if (size > 0 && file_.read(&buffer[0], size))
         {
-            return buffer.data();
+            return buffer;
         }
         return {};
     }
-- 
2.43.0


From c20a26ffe34cbc43f3cd5d8a79748b1e615a5ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 43/83] fix: reading lines up to the end of a file loses later
 writes and the position

---
 include/Caitlyn/__Core/File/File.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 7411f71..1035674 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -65,6 +65,7 @@ public:
         {
             throw std::ios_base::failure{"Failed to open file for writing."};
         }
+        eof_ = false;
     }
 
     void Close()
@@ -89,12 +90,12 @@ public:
 
     bool IsEof() const
     {
-        return file_.eof();
+        return eof_;
     }
 
     explicit operator bool() const noexcept
     {
-        return !file_.eof();
+        return !eof_;
     }
 
     void SetPosition(const std::streampos& position)
@@ -106,6 +107,7 @@ public:
         {
             throw std::ios_base::failure{"Failed to set position in the file."};
         }
+        eof_ = false;
     }
 
     std::streampos GetPosition() const
@@ -139,7 +141,7 @@ public:
         {
             Open();
         }
-        if (file_.eof())
+        if (eof_)
         {
             return {};
         }
@@ -163,6 +165,10 @@ public:
         }
         if (file_.eof())
         {
+            // The stream itself stays usable for writing and repositioning
+            eof_ = true;
+            file_.clear();
+            file_.seekg(0, std::ios::end);
             currentPosition_ = file_.tellg();
             return result.str();
         }
@@ -451,6 +457,7 @@ private:
     String filename_;
     std::basic_fstream<char> file_;
     std::streampos currentPosition_{};
+    bool eof_{false};
 };
 
 inline File MakeFile(const String& filename)
-- 
2.43.0


From 75feb4f155a5ae89f96c1e9dfc3107cf9878ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 44/83] fix: Erase rewinds the line position

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 1035674..7eb14a8 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -85,6 +85,7 @@ public:
             throw std::ios_base::failure{"Failed to open file for clearing."};
         }
         clearFile.close();
+        currentPosition_ = 0;
         Open();
     }
 
-- 
2.43.0


From 60ebd55a27a1d190092347a78d4cdf3c7a5bd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 45/83] fix: reopening an open file makes later writes
 disappear

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 7eb14a8..2c2804f 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -60,6 +60,7 @@ public:
         {
             throw std::ios_base::failure{"Filename is empty"};
         }
+        Close();
         file_.open(GetFilename(), std::ios::in | std::ios::out | std::ios::app | std::ios::binary);
         if (!file_.is_open())
         {
-- 
2.43.0


From 224236843a528b0e56d40dbf45b906d734855884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 46/83] fix: a refused position leaves the file handle unusable

---
 include/Caitlyn/__Core/File/File.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 2c2804f..2391f76 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -102,13 +102,14 @@ public:
 
     void SetPosition(const std::streampos& position)
     {
-        currentPosition_ = position;
         file_.clear();
-        file_.seekg(currentPosition_, std::ios::beg);
+        file_.seekg(position, std::ios::beg);
         if (file_.fail())
         {
+            file_.clear();
             throw std::ios_base::failure{"Failed to set position in the file."};
         }
+        currentPosition_ = position;
         eof_ = false;
     }
 
-- 
2.43.0


From d89633459d12de5f0b45985324d50e4d5ef55949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 47/83] fix: the JSON parser reads past the end of incomplete
 texts

---
 .../__Serializing/Json/Types/JsonParser.h     | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index c2a10ab..a74e1b3 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -44,7 +44,7 @@ public:
         const auto first = FindFirstNonSpace(json);
         const auto last = FindLastNonSpace(json);
 
-        if (json[first] != Def::LeftCurlyBracket)
+        if (first >= json.size() || json[first] != Def::LeftCurlyBracket)
         {
             parser.SetError(JsonError::InvalidJson);
             parser.SetErrorPosition(first);
@@ -76,7 +76,7 @@ public:
     }
 
 private:
-    JsonParser(const String& json) : error_{JsonError::NoError}, json_{json}, position_{}
+    JsonParser(const String& json) : error_{JsonError::NoError}, json_{json}, position_{}, errorPosition_{}
     {
     }
 
@@ -129,12 +129,12 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightCurlyBracket)
+            if (IsAt(Def::RightCurlyBracket))
             {
                 Next();
                 return result;
             }
-            if (json_[position_] == Def::QuotationMark)
+            if (IsAt(Def::QuotationMark))
             {
                 Next();
                 const auto key_end = json_.Find(Def::QuotationMark, position_);
@@ -149,7 +149,7 @@ private:
                 position_ = key_end + 1;
 
                 SkipSpace();
-                if (json_[position_] != Def::Colon)
+                if (!IsAt(Def::Colon))
                 {
                     SetError(JsonError::MissingColon);
                     SetErrorPosition(position_);
@@ -160,19 +160,19 @@ private:
                 result[key] = ParseValue();
 
                 SkipSpace();
-                if (json_[position_] == Def::Comma)
+                if (IsAt(Def::Comma))
                 {
                     Next();
                     SkipSpace();
 
-                    if (json_[position_] == Def::RightCurlyBracket)
+                    if (IsAt(Def::RightCurlyBracket))
                     {
                         SetError(JsonError::TrailingComma);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
                 }
-                else if (json_[position_] == Def::RightCurlyBracket)
+                else if (IsAt(Def::RightCurlyBracket))
                 {
                     Next();
                     return result;
@@ -206,7 +206,7 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightSquareBracket)
+            if (IsAt(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -215,19 +215,19 @@ private:
             result.Append(value);
 
             SkipSpace();
-            if (json_[position_] == Def::Comma)
+            if (IsAt(Def::Comma))
             {
                 Next();
                 SkipSpace();
 
-                if (json_[position_] == Def::RightSquareBracket)
+                if (IsAt(Def::RightSquareBracket))
                 {
                     SetError(JsonError::TrailingComma);
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
             }
-            else if (json_[position_] == Def::RightSquareBracket)
+            else if (IsAt(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -336,7 +336,7 @@ private:
             }
             Next();
         }
-        if (json_[position_] == Def::QuotationMark)
+        if (IsAt(Def::QuotationMark))
         {
             Next();
             return escaped_stream.str();
@@ -404,6 +404,11 @@ private:
         return result;
     }
 
+    bool IsAt(const Char& character) const
+    {
+        return position_ < json_.size() && json_[position_] == character;
+    }
+
     void SkipSpace()
     {
         while (position_ < json_.size() && IsSpace(json_[position_].GetCodePoint()))
-- 
2.43.0


From 638c610018a3f09afbe8ecb0cb9a693ea5c4f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 48/83] fix: text after the top-level JSON object is reported

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index a74e1b3..7185c1c 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -57,6 +57,13 @@ public:
             return parser;
         }
         parser.data_ = parser.ParseValue();
+        parser.SkipSpace();
+
+        if (!parser.HasError() && parser.position_ < json.size())
+        {
+            parser.SetError(JsonError::UnexpectedCharacter);
+            parser.SetErrorPosition(parser.position_);
+        }
         return parser;
     }
 
-- 
2.43.0


From 8a25fadcff6d214d4784f5ec3590c319955dac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 49/83] fix: JSON literals are recognised after non-ASCII text

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 7185c1c..3024ab0 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -253,7 +253,7 @@ private:
 
     JsonData ParseNull()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(nullptr)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(nullptr))
         {
             Next(4);
             return MakeNull();
@@ -355,12 +355,12 @@ private:
 
     JsonData ParseBoolean()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(true))
         {
             Next(4);
             return true;
         }
-        if (json_.str().compare(position_, 5, String::ValueOf(false)) == 0)
+        if (json_.Substring(position_, 5) == String::ValueOf(false))
         {
             Next(5);
             return false;
-- 
2.43.0


From 003d4dc331a29e665c7def10bbff3f6f5d4bd834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 50/83] fix: escapes in JSON strings and keys

---
 .../__Serializing/Json/Types/JsonParser.h     | 134 ++++++++++++------
 1 file changed, 93 insertions(+), 41 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 3024ab0..b290f41 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -143,17 +143,12 @@ private:
             }
             if (IsAt(Def::QuotationMark))
             {
-                Next();
-                const auto key_end = json_.Find(Def::QuotationMark, position_);
+                const String key = ParseText();
 
-                if (key_end == String::NPosition)
+                if (HasError())
                 {
-                    SetError(JsonError::UnterminatedString);
-                    SetErrorPosition(position_);
                     return JsonData{};
                 }
-                String key = json_.Substring(position_, key_end - position_);
-                position_ = key_end + 1;
 
                 SkipSpace();
                 if (!IsAt(Def::Colon))
@@ -264,9 +259,16 @@ private:
     }
 
     JsonData ParseString()
+    {
+        const String text = ParseText();
+        return HasError() ? JsonData{} : JsonData{text.str()};
+    }
+
+    // Reads a quoted text (a value or a key) starting at its opening quotation mark
+    String ParseText()
     {
         Next();
-        std::ostringstream escaped_stream;
+        String text;
 
         while (position_ < json_.size() && json_[position_] != Def::QuotationMark)
         {
@@ -275,82 +277,132 @@ private:
                 Next();
                 if (position_ >= json_.size())
                 {
-                    SetError(JsonError::UnterminatedString);
-                    SetErrorPosition(position_);
-                    return JsonData{};
+                    break;
                 }
                 if (json_[position_] == Def::QuotationMark)
                 {
-                    escaped_stream << Def::QuotationMark;
+                    text.PushBack(Def::QuotationMark);
                 }
                 else if (json_[position_] == Def::ReverseSolidus)
                 {
-                    escaped_stream << Def::ReverseSolidus;
+                    text.PushBack(Def::ReverseSolidus);
+                }
+                else if (json_[position_] == Def::Solidus)
+                {
+                    text.PushBack(Def::Solidus);
                 }
                 else if (json_[position_] == Def::LatinSmallLetterB)
                 {
-                    escaped_stream << Def::Backspace;
+                    text.PushBack(Def::Backspace);
                 }
                 else if (json_[position_] == Def::LatinSmallLetterF)
                 {
-                    escaped_stream << Def::FormFeed;
+                    text.PushBack(Def::FormFeed);
                 }
                 else if (json_[position_] == Def::LatinSmallLetterN)
                 {
-                    escaped_stream << Def::LineFeed;
+                    text.PushBack(Def::LineFeed);
                 }
                 else if (json_[position_] == Def::LatinSmallLetterR)
                 {
-                    escaped_stream << Def::CarriageReturn;
+                    text.PushBack(Def::CarriageReturn);
                 }
                 else if (json_[position_] == Def::LatinSmallLetterT)
                 {
-                    escaped_stream << Def::CharacterTabulation;
+                    text.PushBack(Def::CharacterTabulation);
                 }
                 else if (json_[position_] == Def::LatinSmallLetterU)
                 {
-                    if (position_ + 4 >= json_.size())
-                    {
-                        SetError(JsonError::InvalidEscapeSequence);
-                        SetErrorPosition(position_);
-                        return JsonData{};
-                    }
-                    String hex_code = json_.Substring(position_ + 1, 4);
-                    try
-                    {
-                        const uint32_t code_point = std::stoul(hex_code.str(), nullptr, 16);
-                        escaped_stream << static_cast<char>(code_point);
-                    }
-                    catch (const std::exception&)
+                    const CodePoint code_point = ParseUnicodeEscape();
+
+                    if (code_point == 0)
                     {
                         SetError(JsonError::InvalidEscapeSequence);
                         SetErrorPosition(position_);
-                        return JsonData{};
+                        return {};
                     }
-                    position_ += 4;
+                    text.PushBack(code_point);
                 }
                 else
                 {
                     SetError(JsonError::InvalidEscapeSequence);
                     SetErrorPosition(position_);
-                    return JsonData{};
+                    return {};
                 }
-                Next();
             }
             else
             {
-                escaped_stream << json_[position_];
+                text.PushBack(json_[position_]);
             }
             Next();
         }
-        if (IsAt(Def::QuotationMark))
+        if (!IsAt(Def::QuotationMark))
+        {
+            SetError(JsonError::UnterminatedString);
+            SetErrorPosition(position_);
+            return {};
+        }
+        Next();
+        return text;
+    }
+
+    // Four hexadecimal digits after the current character; false if there are none
+    bool ParseHexCode(CodePoint& code)
+    {
+        code = 0;
+        for (SizeType i = 0; i < 4; ++i)
+        {
+            Next();
+            if (position_ >= json_.size())
+            {
+                return false;
+            }
+            const CodePoint digit = json_[position_].GetCodePoint();
+
+            if (digit >= '0' && digit <= '9')
+            {
+                code = code * 16 + (digit - '0');
+            }
+            else if (digit >= 'a' && digit <= 'f')
+            {
+                code = code * 16 + (digit - 'a' + 10);
+            }
+            else if (digit >= 'A' && digit <= 'F')
+            {
+                code = code * 16 + (digit - 'A' + 10);
+            }
+            else
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
+    // Stops at the last character of the escape; zero if it denotes no character of a text
+    CodePoint ParseUnicodeEscape()
+    {
+        CodePoint code = 0;
+        if (!ParseHexCode(code) || (code >= 0xDC00 && code <= 0xDFFF))
         {
+            return 0;
+        }
+        if (code >= 0xD800 && code <= 0xDBFF)
+        {
+            CodePoint low = 0;
             Next();
-            return escaped_stream.str();
+            if (!IsAt(Def::ReverseSolidus))
+            {
+                return 0;
+            }
+            Next();
+            if (!IsAt(Def::LatinSmallLetterU) || !ParseHexCode(low) || low < 0xDC00 || low > 0xDFFF)
+            {
+                return 0;
+            }
+            code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
         }
-        SetError(JsonError::UnterminatedString);
-        SetErrorPosition(position_);
-        return JsonData{};
+        return code;
     }
 
     JsonData ParseBoolean()
-- 
2.43.0


From c882886ce81205328f6b93256555c0105214ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 51/83] fix: JSON numbers with fractions are floating and
 malformed numbers are refused

---
 .../__Serializing/Json/Types/JsonParser.h     | 71 +++++++++++++++++--
 1 file changed, 67 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index b290f41..f454803 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -18,7 +18,9 @@
 #ifndef CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 #define CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 
+#include <cmath>
 #include <cstdint>
+#include <limits>
 
 #include "Caitlyn/__Core/String.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonData.h"
@@ -422,6 +424,54 @@ private:
         return JsonData{};
     }
 
+    // Optional sign, digits, optional fraction, optional exponent
+    static bool IsNumber(const String& text)
+    {
+        SizeType index = 0;
+        const auto is_sign = [&text](const SizeType at)
+        { return at < text.size() && (text[at] == Def::HyphenMinus || text[at] == Def::PlusSign); };
+        const auto skip_digits = [&text, &index]()
+        {
+            const SizeType begin = index;
+            while (index < text.size() && ToDigit(text[index].GetCodePoint()) >= 0)
+            {
+                ++index;
+            }
+            return index > begin;
+        };
+
+        if (is_sign(index))
+        {
+            ++index;
+        }
+        if (!skip_digits())
+        {
+            return false;
+        }
+        if (index < text.size() && text[index] == Def::FullStop)
+        {
+            ++index;
+            if (!skip_digits())
+            {
+                return false;
+            }
+        }
+        if (index < text.size() &&
+            (text[index] == Def::LatinSmallLetterE || text[index] == Def::LatinCapitalLetterE))
+        {
+            ++index;
+            if (is_sign(index))
+            {
+                ++index;
+            }
+            if (!skip_digits())
+            {
+                return false;
+            }
+        }
+        return index == text.size();
+    }
+
     JsonData ParseNumber()
     {
         JsonData result;
@@ -434,13 +484,26 @@ private:
             ++end_number;
         }
         const String number_str = json_.Substring(position_, end_number - position_);
+        const bool is_floating = number_str.FindIfNot([](const Char& c) { return ToDigit(c.GetCodePoint()) >= 0; }, 1) !=
+                                 String::NPosition;
+
+        if (!IsNumber(number_str))
+        {
+            SetError(JsonError::InvalidNumber);
+            SetErrorPosition(position_);
+            return JsonData{};
+        }
         try
         {
-            if (number_str.Find(Def::PlusSign) != String::NPosition ||
-                number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
-                number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
+            if (is_floating)
             {
-                result = std::stod(number_str.str());
+                const double value = std::stod(number_str.str());
+
+                if (std::abs(value) > std::numeric_limits<JsonData::FloatingType>::max())
+                {
+                    throw std::out_of_range{"Number out of range"};
+                }
+                result = value;
             }
             else
             {
-- 
2.43.0


From 225eaa000328d7eea882f307f720cb0303ee3153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 52/83] fix: errors and depth of nested JSON values

---
 .../__Serializing/Json/Types/JsonParser.h     | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index f454803..fb0e1d5 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -105,11 +105,11 @@ private:
         }
         if (current_char == Def::LeftCurlyBracket)
         {
-            return ParseObject();
+            return ParseNested(&JsonParser::ParseObject);
         }
         if (current_char == Def::LeftSquareBracket)
         {
-            return ParseArray();
+            return ParseNested(&JsonParser::ParseArray);
         }
         if (current_char == Def::LatinSmallLetterT || current_char == Def::LatinSmallLetterF)
         {
@@ -128,6 +128,21 @@ private:
         return JsonData{};
     }
 
+    // Objects and arrays are parsed recursively, so their depth has to be limited
+    JsonData ParseNested(JsonData (JsonParser::*parse)())
+    {
+        if (depth_ >= MaxDepth)
+        {
+            SetError(JsonError::InvalidJson);
+            SetErrorPosition(position_);
+            return JsonData{};
+        }
+        ++depth_;
+        JsonData result = (this->*parse)();
+        --depth_;
+        return result;
+    }
+
     JsonData ParseObject()
     {
         JsonData result = MakeObject();
@@ -163,6 +178,10 @@ private:
                 SkipSpace();
                 result[key] = ParseValue();
 
+                if (HasError())
+                {
+                    return JsonData{};
+                }
                 SkipSpace();
                 if (IsAt(Def::Comma))
                 {
@@ -216,6 +235,11 @@ private:
                 return result;
             }
             const JsonData value = ParseValue();
+
+            if (HasError())
+            {
+                return JsonData{};
+            }
             result.Append(value);
 
             SkipSpace();
@@ -560,6 +584,9 @@ private:
     const String& json_;
     SizeType position_;
     SizeType errorPosition_;
+    SizeType depth_{};
+
+    static constexpr SizeType MaxDepth{512};
 };
 
 __CAITLYN_DETAIL_NAMESPACE_END
-- 
2.43.0


From 1775d4db29453c95e55b2dc9308bcd892440b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 53/83] fix: JSON strings and moved-from containers are
 destroyed

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b5d8a48..e7b24b2 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -513,6 +513,7 @@ private:
                 break;
             case JsonClass::String:
                 new (&data_.string_value) StringType{std::move(other.data_.string_value)};
+                other.data_.string_value.~StringType();
                 break;
             case JsonClass::Floating:
                 new (&data_.floating_value) FloatingType(other.data_.floating_value);
@@ -525,9 +526,11 @@ private:
                 break;
             case JsonClass::Array:
                 new (&data_.array_value) ArrayType{std::move(other.data_.array_value)};
+                other.data_.array_value.~ArrayType();
                 break;
             case JsonClass::Object:
                 new (&data_.object_value) ObjectType{std::move(other.data_.object_value)};
+                other.data_.object_value.~ObjectType();
                 break;
             default:
                 break;
@@ -554,6 +557,9 @@ private:
                 }
                 data_.object_value.~ObjectType();
                 break;
+            case JsonClass::String:
+                data_.string_value.~StringType();
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 47604c931c0810de7523b71f14389c1821d24d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 54/83] fix: assigning a part of a JSON value to the value
 itself

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index e7b24b2..b15d2ba 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -101,9 +101,11 @@ public:
     {
         if (this != &other)
         {
+            // The other value may be a part of this one
+            JsonData copy{other};
             DestroyUnion();
-            type_ = other.type_;
-            CopyUnion(other);
+            type_ = copy.type_;
+            MoveUnion(std::move(copy));
         }
         return *this;
     }
@@ -112,9 +114,11 @@ public:
     {
         if (this != &other)
         {
+            // The other value may be a part of this one
+            JsonData moved{std::move(other)};
             DestroyUnion();
-            type_ = other.type_;
-            MoveUnion(std::move(other));
+            type_ = moved.type_;
+            MoveUnion(std::move(moved));
         }
         return *this;
     }
-- 
2.43.0


From 6e893737c91bbba71027b2cc044843276fdae61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 55/83] fix: indexing a JSON array beyond its end creates null
 elements

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b15d2ba..66c492d 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -178,13 +178,9 @@ public:
     {
         SetType(JsonClass::Array);
         auto& array = data_.array_value;
-        if (index >= array.size())
+        while (index >= array.size())
         {
-            array.resize(index + 1, nullptr);
-        }
-        if (!array[index])
-        {
-            new (array[index]) JsonData{};
+            array.emplace_back(new JsonData());
         }
         return *array[index];
     }
-- 
2.43.0


From 970e8a980cffbcc546a2f8b9bc08ceae6af58a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 56/83] fix: constant access to JSON values of another kind
 throws

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 66c492d..961a784 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -193,6 +193,10 @@ public:
 
     const JsonData& At(const StringType& key) const
     {
+        if (type_ != JsonClass::Object)
+        {
+            throw std::out_of_range{"Key not found"};
+        }
         const auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
@@ -213,6 +217,10 @@ public:
 
     const JsonData& At(const SizeType index) const
     {
+        if (type_ != JsonClass::Array)
+        {
+            throw std::out_of_range{"Index out of range"};
+        }
         return *data_.array_value.at(index);
     }
 
-- 
2.43.0


From 4e88dbe95d1063c8abab9f248a136791d88ddc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 57/83] fix: MakeFloating, MakeIntegral and MakeBoolean make
 values of their kind

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 961a784..10e5e8e 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -668,17 +668,17 @@ inline __Detail::JsonData MakeString(const std::string& value)
 
 inline __Detail::JsonData MakeFloating(const __Detail::JsonData::FloatingType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeIntegral(const __Detail::JsonData::IntegralType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeBoolean(const __Detail::JsonData::BooleanType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-- 
2.43.0


From a0bf0ff92c5d14f1a630a03778869a96c4973b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 58/83] fix: quotes, backslashes and control characters are
 escaped in JSON output

---
 .../__Serializing/Json/Types/JsonData.h       | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 10e5e8e..e6cc30b 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -362,6 +362,31 @@ public:
     }
 
 private:
+    static void WriteQuoted(std::ostringstream& oss, const StringType& text)
+    {
+        static const char* const digits = "0123456789abcdef";
+
+        oss << Def::QuotationMark;
+        for (const auto& character : text)
+        {
+            const auto code = character.GetCodePoint();
+
+            if (character == Def::QuotationMark || character == Def::ReverseSolidus)
+            {
+                oss << Def::ReverseSolidus << character;
+            }
+            else if (code < 0x20)
+            {
+                oss << "\\u00" << digits[code >> 4] << digits[code & 0x0F];
+            }
+            else
+            {
+                oss << character;
+            }
+        }
+        oss << Def::QuotationMark;
+    }
+
     void MakeOutput(
         std::ostringstream& oss, const BooleanType mangling, const SizeType base_indent, const SizeType indent) const
     {
@@ -394,7 +419,8 @@ private:
                         {
                             oss << indent_str;
                         }
-                        oss << Def::QuotationMark << member.first << Def::QuotationMark << Def::Colon;
+                        WriteQuoted(oss, member.first);
+                        oss << Def::Colon;
                         if (mangling)
                         {
                             oss << Def::Space;
@@ -455,7 +481,7 @@ private:
                 break;
             }
             case JsonClass::String:
-                oss << Def::QuotationMark << data_.string_value << Def::QuotationMark;
+                WriteQuoted(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
                 oss << data_.floating_value;
-- 
2.43.0


From 056ed2390b6ff885819d272f6d745547c661c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 59/83] fix: removing a JSON member frees it

---
 include/Caitlyn/__Serializing/Json/Types/Json.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index f4cff9a..2dedbcc 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -136,13 +136,12 @@ public:
         if (root_.HasMember(key))
         {
             auto& obj = root_.GetData();
-            obj.erase(
-                std::remove_if(
-                    obj.begin(),
-                    obj.end(),
-                    [&key](const std::pair<const String&, const DataType*>& pair)
-                    { return pair.first == key; }),
-                obj.end());
+            const auto it = std::find_if(
+                obj.begin(),
+                obj.end(),
+                [&key](const std::pair<const String&, const DataType*>& pair) { return pair.first == key; });
+            delete it->second;
+            obj.erase(it);
         }
     }
 
-- 
2.43.0


From f3a1a93b181a69d56b3b142b4b37fb7bb1e887f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 60/83] fix: BigInteger accepts a lone sign and digits of other
 scripts

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index ab99e0a..80c6b33 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -69,13 +69,18 @@ public:
                 start = 1;
             }
         }
+        if (start == number.size())
+        {
+            throw std::invalid_argument{"Invalid number format"};
+        }
         for (SizeType i = start; i < number.size(); ++i)
         {
-            if (!IsDigit(number[i].GetCodePoint()))
+            const int digit = ToDigit(number[i].GetCodePoint());
+            if (digit < 0)
             {
                 throw std::invalid_argument{"Invalid number format"};
             }
-            digits_.push_back(static_cast<int>(number[i].GetCodePoint() - 0x30));
+            digits_.push_back(digit);
         }
         std::reverse(digits_.begin(), digits_.end());
         RemoveLeadingZeros();
-- 
2.43.0


From 713b60ef780e585978b18b67ceee3ae8d887a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 61/83] fix: comparison and difference of two negative
 BigIntegers

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 80c6b33..adc77b7 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -168,8 +168,9 @@ public:
             return BigInteger{"0"};
         }
         const bool result_is_negative = LessThan(other);
-        const BigInteger& larger = result_is_negative ? other : *this;
-        const BigInteger& smaller = result_is_negative ? *this : other;
+        const bool other_is_larger = result_is_negative != is_negative_;
+        const BigInteger& larger = other_is_larger ? other : *this;
+        const BigInteger& smaller = other_is_larger ? *this : other;
 
         BigInteger result;
         result.is_negative_ = result_is_negative;
@@ -357,15 +358,16 @@ public:
         {
             return is_negative_;
         }
+        // Of two negative numbers the one with the larger magnitude is less
         if (digits_.size() != other.digits_.size())
         {
-            return digits_.size() < other.digits_.size();
+            return (digits_.size() < other.digits_.size()) != is_negative_;
         }
         for (SizeType i = digits_.size(); i > 0; --i)
         {
             if (digits_[i - 1] != other.digits_[i - 1])
             {
-                return digits_[i - 1] < other.digits_[i - 1];
+                return (digits_[i - 1] < other.digits_[i - 1]) != is_negative_;
             }
         }
         return false;
-- 
2.43.0


From 3a180292763c71fd7090a2689c623508770d3ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 62/83] fix: sum and difference of BigIntegers with different
 signs

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index adc77b7..8f9d4f5 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -148,10 +148,13 @@ public:
 
         if (abs_this.GreaterThan(abs_other))
         {
-            return abs_this.Subtract(abs_other);
+            BigInteger result = abs_this.Subtract(abs_other);
+            result.is_negative_ = is_negative_;
+            return result;
         }
         BigInteger result = abs_other.Subtract(abs_this);
         result.is_negative_ = other.is_negative_;
+        result.RemoveLeadingZeros();
         return result;
     }
 
@@ -159,9 +162,9 @@ public:
     {
         if (this->is_negative_ != other.is_negative_)
         {
-            BigInteger result = Add(other);
-            result.is_negative_ = this->is_negative_;
-            return result;
+            BigInteger negated = other;
+            negated.is_negative_ = !other.is_negative_;
+            return Add(negated);
         }
         if (Equal(other))
         {
-- 
2.43.0


From db5404cea32ddfaeda204fa874335c2ef78b426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 63/83] fix: the remainder of a negative BigInteger is never a
 negative zero

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 8f9d4f5..69ca80d 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -268,12 +268,7 @@ public:
 
     BigInteger Modulo(const BigInteger& other) const
     {
-        BigInteger result = Subtract(Divide(other).Multiply(other));
-        if (result.is_negative_ != is_negative_)
-        {
-            result.is_negative_ = is_negative_;
-        }
-        return result;
+        return Subtract(Divide(other).Multiply(other));
     }
 
 public:
-- 
2.43.0


From 445941ad70110ccf7106c499a803ef5b9a44fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 64/83] fix: BigFloat keeps zeros, signs and places: exact
 unscaled integer and scale

---
 include/Caitlyn/__Numeric/Types/BigFloat.h | 280 ++++++---------------
 1 file changed, 76 insertions(+), 204 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 0d9027a..8b46da5 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -40,41 +40,25 @@ public:
 
     BigFloat(const String& number)
     {
-        if (number.IsEmpty())
-        {
-            throw std::invalid_argument{"Invalid number format"};
-        }
-        size_t point_pos = number.Find(Def::FullStop);
+        const SizeType point_pos = number.Find(Def::FullStop);
+
         if (point_pos == String::NPosition)
         {
-            integerPart_ = BigInteger{number};
+            unscaled_ = BigInteger{number};
         }
         else
         {
-            String integer_str = number.Substring(0, point_pos);
-            String fractional_str = number.Substring(point_pos + 1);
-
-            if (integer_str.IsEmpty())
-            {
-                integer_str = Def::DigitZero;
-            }
-            if (fractional_str.IsEmpty())
-            {
-                fractional_str = Def::DigitZero;
-            }
-            integerPart_ = BigInteger{integer_str};
-            fractionalPart_ = BigInteger{fractional_str};
+            scale_ = number.size() - point_pos - 1;
+            unscaled_ = BigInteger{number.Substring(0, point_pos) + number.Substring(point_pos + 1)};
+            RemoveTrailingZeros();
         }
     }
 
     BigFloat(const BigFloat& other) = default;
 
-    BigFloat(BigFloat&& other) noexcept
-        : integerPart_(std::move(other.integerPart_)),
-          fractionalPart_(std::move(other.fractionalPart_)),
-          isNegative_(other.isNegative_)
+    BigFloat(BigFloat&& other) noexcept : unscaled_(std::move(other.unscaled_)), scale_(other.scale_)
     {
-        other.isNegative_ = false;
+        other.scale_ = 0;
     }
 
 public:
@@ -82,9 +66,8 @@ public:
     {
         if (this != &other)
         {
-            integerPart_ = other.integerPart_;
-            fractionalPart_ = other.fractionalPart_;
-            isNegative_ = other.isNegative_;
+            unscaled_ = other.unscaled_;
+            scale_ = other.scale_;
         }
         return *this;
     }
@@ -93,10 +76,9 @@ public:
     {
         if (this != &other)
         {
-            integerPart_ = std::move(other.integerPart_);
-            fractionalPart_ = std::move(other.fractionalPart_);
-            isNegative_ = other.isNegative_;
-            other.isNegative_ = false;
+            unscaled_ = std::move(other.unscaled_);
+            scale_ = other.scale_;
+            other.scale_ = 0;
         }
         return *this;
     }
@@ -104,140 +86,33 @@ public:
 public:
     BigFloat Add(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-        BigInteger fractional_result = this_fractional.Add(other_fractional);
-        bool carry = false;
-
-        // If the result of fractional addition exceeds the fractional limit, carry
-        // over to integer part
-        if (fractional_result.Size() > this_fractional.Size())
-        {
-            carry = true;
-            fractional_result = fractional_result.Subtract(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        BigInteger integer_result = integerPart_.Add(other.integerPart_);
-        if (carry)
-        {
-            integer_result = integer_result.Add(BigInteger{Def::DigitOne});
-        }
-        return BigFloat{integer_result.ToString() + Def::FullStop + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Unscaled(scale).Add(other.Unscaled(scale)), scale};
     }
 
     BigFloat Subtract(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-
-        bool borrow = false;
-        if (this_fractional.LessThan(other_fractional))
-        {
-            borrow = true;
-            this_fractional = this_fractional.Add(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        const BigInteger fractional_result = this_fractional.Subtract(other_fractional);
-
-        BigInteger integer_result = integerPart_.Subtract(other.integerPart_);
-        if (borrow)
-        {
-            integer_result = integer_result.Subtract(BigInteger{"1"});
-        }
-        return BigFloat{integer_result.ToString() + "." + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{Unscaled(scale).Subtract(other.Unscaled(scale)), scale};
     }
 
     BigFloat Multiply(const BigFloat& other) const
     {
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the multiplication on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Multiply(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size + other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        return BigFloat{unscaled_.Multiply(other.unscaled_), scale_ + other.scale_};
     }
 
+    // The quotient is cut off ExtraPrecision decimal places behind the finest place of both operands
     BigFloat Divide(const BigFloat& other) const
     {
-        if (other.Equal(BigFloat{"0"}))
-        {
-            throw std::invalid_argument{"Division by zero"};
-        }
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the division on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Divide(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size - other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return BigFloat{
+            Unscaled(scale + scale + ExtraPrecision).Divide(other.Unscaled(scale)), scale + ExtraPrecision};
     }
 
 public:
     BigFloat Abs() const
     {
-        BigFloat result = *this;
-        result.isNegative_ = false;
-        return result;
+        return BigFloat{unscaled_.Abs(), scale_};
     }
 
     BigFloat Pow(int exponent) const
@@ -266,67 +141,28 @@ public:
         return this->Multiply(*this);
     }
 
+    // The root is cut off ExtraPrecision decimal places behind the finest place of the number
     BigFloat Sqrt() const
     {
-        if (isNegative_)
-        {
-            throw std::invalid_argument{"Square root of negative number"};
-        }
-        if (this->Equal(BigFloat{"0"}) || this->Equal(BigFloat{"1"}))
-        {
-            return *this;
-        }
-        BigFloat low{"1"};
-        BigFloat high = *this;
-        BigFloat squared{};
-
-        while (low.LessThan(high) || low.Equal(high))
-        {
-            BigFloat mid = low.Add(high).Divide(BigFloat{"2"});
-            squared = mid.Sqr();
-            if (squared.Equal(*this))
-            {
-                return mid;
-            }
-            if (squared.LessThan(*this))
-            {
-                low = mid.Add(BigFloat{"1"});
-            }
-            else
-            {
-                high = mid.Subtract(BigFloat{"1"});
-            }
-        }
-        return high;
+        const SizeType scale = scale_ + ExtraPrecision;
+        return BigFloat{Unscaled(scale + scale).Sqrt(), scale};
     }
 
 public:
     SizeType Size() const
     {
-        return integerPart_.Size() + fractionalPart_.Size();
+        return unscaled_.Size();
     }
 
     bool Equal(const BigFloat& other) const
     {
-        return integerPart_.Equal(other.integerPart_) && fractionalPart_.Equal(other.fractionalPart_) &&
-               isNegative_ == other.isNegative_;
+        return scale_ == other.scale_ && unscaled_.Equal(other.unscaled_);
     }
 
     bool LessThan(const BigFloat& other) const
     {
-        if (isNegative_ != other.isNegative_)
-        {
-            return isNegative_;
-        }
-        if (integerPart_.LessThan(other.integerPart_))
-        {
-            return true;
-        }
-        if (integerPart_.GreaterThan(other.integerPart_))
-        {
-            return false;
-        }
-        return fractionalPart_.LessThan(other.fractionalPart_);
+        const SizeType scale = std::max(scale_, other.scale_);
+        return Unscaled(scale).LessThan(other.Unscaled(scale));
     }
 
     bool GreaterThan(const BigFloat& other) const
@@ -336,26 +172,62 @@ public:
 
     String ToString() const
     {
-        String result = integerPart_.ToString();
-        if (!fractionalPart_.ToString().IsEmpty() && fractionalPart_.ToString() != "0")
+        String result = unscaled_.Abs().ToString();
+
+        if (scale_ > 0)
         {
-            result.PushBack('.');
-            result += fractionalPart_.ToString();
+            if (result.size() <= scale_)
+            {
+                result.Insert(0, scale_ - result.size() + 1, Def::DigitZero);
+            }
+            result.Insert(result.size() - scale_, Def::FullStop);
+        }
+        if (unscaled_.LessThan(BigInteger{"0"}))
+        {
+            result.Insert(0, Def::HyphenMinus);
         }
         return result;
     }
 
 private:
-    void RemoveLeadingZeros()
+    BigFloat(const BigInteger& unscaled, const SizeType scale) : unscaled_(unscaled), scale_(scale)
+    {
+        RemoveTrailingZeros();
+    }
+
+    // The number as a multiple of 10^-scale, for a scale that is not coarser than its own
+    BigInteger Unscaled(const SizeType scale) const
+    {
+        return unscaled_.Multiply(BigInteger{String{Def::DigitOne} + String(scale - scale_, '0')});
+    }
+
+    // Equal numbers have equal parts
+    void RemoveTrailingZeros()
     {
-        integerPart_.RemoveLeadingZeros();
-        fractionalPart_.RemoveLeadingZeros();
+        const String text = unscaled_.ToString();
+        SizeType zeros{};
+
+        while (zeros < scale_ && zeros < text.size() && text[text.size() - zeros - 1] == Def::DigitZero)
+        {
+            ++zeros;
+        }
+        if (zeros == text.size())
+        {
+            scale_ = 0;
+        }
+        else if (zeros > 0)
+        {
+            unscaled_ = BigInteger{text.Substring(0, text.size() - zeros)};
+            scale_ -= zeros;
+        }
     }
 
 private:
-    BigInteger integerPart_;
-    BigInteger fractionalPart_;
-    SignFlag isNegative_ = false;
+    static constexpr SizeType ExtraPrecision{20};
+
+private:
+    BigInteger unscaled_;
+    SizeType scale_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 288a9dc162a24de21771ae9cf171a040e1f2a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 65/83] fix: appending a string's own character several times
 read freed memory

---
 include/Caitlyn/__Core/String/String.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 15c9f8a..cc5c408 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -289,12 +289,8 @@ public:
 
     void Append(const SizeType count, const CharType& pattern)
     {
-        SizeType i = 0;
-        while (i < count)
-        {
-            data_.emplace_back(pattern);
-            ++i;
-        }
+        // The pattern may be an element of this very string
+        data_.insert(data_.end(), count, pattern);
     }
 
     void Clear()
-- 
2.43.0


From fc77034cc5eeb741f3d171e9deacdf9c1dc2e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 66/83] fix: keep the key alive while indexing replaces the
 value it belongs to

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index e6cc30b..78b0195 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -159,7 +159,13 @@ public:
 public:
     JsonData& operator[](const StringType& key)
     {
-        SetType(JsonClass::Object);
+        if (type_ != JsonClass::Object)
+        {
+            // The key may be a part of the replaced value
+            const StringType name{key};
+            SetType(JsonClass::Object);
+            return operator[](name);
+        }
         auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
-- 
2.43.0


From a726a3aa466940fc280262c8372120aa0cc110f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:53 +0000
Subject: [PATCH 67/83] fix: refuse a probability that is no number

---
 include/Caitlyn/__Core/Utility/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 32004fa..5ad8ac0 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -95,7 +95,7 @@ inline Decimal Random(const Decimal min, const Decimal max)
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
 {
-    if (percentage < 0.0 || percentage > 1.0)
+    if (!(percentage >= 0.0 && percentage <= 1.0))
     {
         throw std::invalid_argument{"True percentage is only 0.0..1.0"};
     }
-- 
2.43.0


From 4106230c35be561d08c806c0ef2b452d2ae41dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:59 +0000
Subject: [PATCH 68/83] fix: detection of the stream extraction operator needs
 something to read into

---
 include/Caitlyn/__Core/Traits/Types/Operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Operators.h b/include/Caitlyn/__Core/Traits/Types/Operators.h
index f58bf9d..98a60fc 100644
--- a/include/Caitlyn/__Core/Traits/Types/Operators.h
+++ b/include/Caitlyn/__Core/Traits/Types/Operators.h
@@ -200,7 +200,7 @@ struct HasIStreamOperatorType : FalseType
 };
 
 template <typename T>
-struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T>())>> : TrueType
+struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T&>())>> : TrueType
 {
 };
 
-- 
2.43.0


From f69fb21b8fa7a66f30bd1f337fbf200429451764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:16 +0000
Subject: [PATCH 69/83] fix: let a failing ASSERT_STREQ fail its test instead
 of aborting the program

---
 include/Caitlyn/__Testing/Macro/Assert.h | 49 ++++++++++++------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index a386cd8..ab1e644 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -18,9 +18,32 @@
 #ifndef CAITLYN_TEST_MACRO_ASSERT_H_
 #define CAITLYN_TEST_MACRO_ASSERT_H_
 
+#include <cstring>
+#include <sstream>
+#include <stdexcept>
+#include <string>
+
 #include "Caitlyn/__Core/Traits.h"
 #include "Caitlyn/__Testing/Types.h"
 
+__CAITLYN_GLOBAL_NAMESPACE_BEGIN
+__CAITLYN_TESTING_NAMESPACE_BEGIN
+
+inline void AssertCStringsEqual(const char* expected, const char* actual)
+{
+    if (expected == nullptr || actual == nullptr ? expected != actual : std::strcmp(expected, actual) != 0)
+    {
+        const auto quote = [](const char* text) {
+            return text == nullptr ? std::string{"nullptr"} : '"' + std::string{text} + '"';
+        };
+
+        throw std::runtime_error("Assertion failed: Expected " + quote(expected) + ", but got " + quote(actual));
+    }
+}
+
+__CAITLYN_TESTING_NAMESPACE_END
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 #define ASSERT_TRUE(condition)                                                                                         \
     if (!(condition))                                                                                                  \
     throw std::runtime_error("Assertion failed: " #condition)
@@ -90,31 +113,7 @@
         throw std::runtime_error(oss.str());                                                                           \
     }
 
-#define ASSERT_STREQ(expected, actual)                                                                                 \
-    do                                                                                                                 \
-    {                                                                                                                  \
-        if ((expected) == nullptr && (actual) == nullptr)                                                              \
-        {                                                                                                              \
-            break;                                                                                                     \
-        }                                                                                                              \
-        else if ((expected) == nullptr)                                                                                \
-        {                                                                                                              \
-            std::cerr << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"" << std::endl;            \
-            std::abort();                                                                                              \
-        }                                                                                                              \
-        else if ((actual) == nullptr)                                                                                  \
-        {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr" << std::endl;          \
-            std::abort();                                                                                              \
-        }                                                                                                              \
-        else if (std::strcmp((expected), (actual)) != 0)                                                               \
-        {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\""         \
-                      << std::endl;                                                                                    \
-            std::abort();                                                                                              \
-        }                                                                                                              \
-    }                                                                                                                  \
-    while (false)
+#define ASSERT_STREQ(expected, actual) Caitlyn::Test::AssertCStringsEqual((expected), (actual))
 
 #define PASS() ASSERT_TRUE(true)
 
-- 
2.43.0


From 7ac8d40e60b19819628a156a1ee04e0d65c4b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:56 +0000
Subject: [PATCH 70/83] fix: keep assertions one statement and their operands
 whole expressions

---
 include/Caitlyn/__Testing/Macro/Assert.h | 126 +++++++++++++++--------
 1 file changed, 83 insertions(+), 43 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index ab1e644..cb11bbf 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -45,73 +45,113 @@ __CAITLYN_TESTING_NAMESPACE_END
 __CAITLYN_GLOBAL_NAMESPACE_END
 
 #define ASSERT_TRUE(condition)                                                                                         \
-    if (!(condition))                                                                                                  \
-    throw std::runtime_error("Assertion failed: " #condition)
+    do                                                                                                                 \
+    {                                                                                                                  \
+        if (!(condition))                                                                                              \
+        {                                                                                                              \
+            throw std::runtime_error("Assertion failed: " #condition);                                                 \
+        }                                                                                                              \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_FALSE(condition)                                                                                        \
-    if (condition)                                                                                                     \
-    throw std::runtime_error("Assertion failed: " #condition)
+    do                                                                                                                 \
+    {                                                                                                                  \
+        if (condition)                                                                                                 \
+        {                                                                                                              \
+            throw std::runtime_error("Assertion failed: " #condition);                                                 \
+        }                                                                                                              \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_EQ(val1, val2)                                                                                          \
-    if (!((val1) == (val2)))                                                                                           \
+    do                                                                                                                 \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
-        throw std::runtime_error(oss.str());                                                                           \
-    }
+        if (!((val1) == (val2)))                                                                                       \
+        {                                                                                                              \
+            std::ostringstream caitlyn_oss;                                                                            \
+            caitlyn_oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";       \
+            throw std::runtime_error(caitlyn_oss.str());                                                               \
+        }                                                                                                              \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_NE(val1, val2)                                                                                          \
-    if (!((val1) != (val2)))                                                                                           \
+    do                                                                                                                 \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " != " #val2 << " (" << val1 << " == " << val2 << ")";                       \
-        throw std::runtime_error(oss.str());                                                                           \
-    }
+        if (!((val1) != (val2)))                                                                                       \
+        {                                                                                                              \
+            std::ostringstream caitlyn_oss;                                                                            \
+            caitlyn_oss << "Assertion failed: " #val1 " != " #val2 << " (" << (val1) << " == " << (val2) << ")";       \
+            throw std::runtime_error(caitlyn_oss.str());                                                               \
+        }                                                                                                              \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_LT(val1, val2)                                                                                          \
-    if (!((val1) < (val2)))                                                                                            \
+    do                                                                                                                 \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " < " #val2 << " (" << val1 << " >= " << val2 << ")";                        \
-        throw std::runtime_error(oss.str());                                                                           \
-    }
+        if (!((val1) < (val2)))                                                                                        \
+        {                                                                                                              \
+            std::ostringstream caitlyn_oss;                                                                            \
+            caitlyn_oss << "Assertion failed: " #val1 " < " #val2 << " (" << (val1) << " >= " << (val2) << ")";        \
+            throw std::runtime_error(caitlyn_oss.str());                                                               \
+        }                                                                                                              \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_LE(val1, val2)                                                                                          \
-    if (!((val1) <= (val2)))                                                                                           \
+    do                                                                                                                 \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " <= " #val2 << " (" << val1 << " > " << val2 << ")";                        \
-        throw std::runtime_error(oss.str());                                                                           \
-    }
+        if (!((val1) <= (val2)))                                                                                       \
+        {                                                                                                              \
+            std::ostringstream caitlyn_oss;                                                                            \
+            caitlyn_oss << "Assertion failed: " #val1 " <= " #val2 << " (" << (val1) << " > " << (val2) << ")";        \
+            throw std::runtime_error(caitlyn_oss.str());                                                               \
+        }                                                                                                              \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_GT(val1, val2)                                                                                          \
-    if (!((val1) > (val2)))                                                                                            \
+    do                                                                                                                 \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " > " #val2 << " (" << val1 << " <= " << val2 << ")";                        \
-        throw std::runtime_error(oss.str());                                                                           \
-    }
+        if (!((val1) > (val2)))                                                                                        \
+        {                                                                                                              \
+            std::ostringstream caitlyn_oss;                                                                            \
+            caitlyn_oss << "Assertion failed: " #val1 " > " #val2 << " (" << (val1) << " <= " << (val2) << ")";        \
+            throw std::runtime_error(caitlyn_oss.str());                                                               \
+        }                                                                                                              \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_GE(val1, val2)                                                                                          \
-    if (!((val1) >= (val2)))                                                                                           \
+    do                                                                                                                 \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " >= " #val2 << " (" << val1 << " < " << val2 << ")";                        \
-        throw std::runtime_error(oss.str());                                                                           \
-    }
+        if (!((val1) >= (val2)))                                                                                       \
+        {                                                                                                              \
+            std::ostringstream caitlyn_oss;                                                                            \
+            caitlyn_oss << "Assertion failed: " #val1 " >= " #val2 << " (" << (val1) << " < " << (val2) << ")";        \
+            throw std::runtime_error(caitlyn_oss.str());                                                               \
+        }                                                                                                              \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_EQ_PRINTABLE(val1, val2)                                                                                \
-    if (!((val1) == (val2)))                                                                                           \
+    do                                                                                                                 \
     {                                                                                                                  \
-        static_assert(                                                                                                 \
-            Caitlyn::HasOStreamOperatorType<decltype(val1)>::Value &&                                                  \
-                Caitlyn::HasOStreamOperatorType<decltype(val2)>::Value,                                                \
-            "Types must be printable to use ASSERT_EQ_PRINTABLE");                                                     \
+        if (!((val1) == (val2)))                                                                                       \
+        {                                                                                                              \
+            static_assert(                                                                                             \
+                Caitlyn::HasOStreamOperatorType<decltype(val1)>::Value &&                                              \
+                    Caitlyn::HasOStreamOperatorType<decltype(val2)>::Value,                                            \
+                "Types must be printable to use ASSERT_EQ_PRINTABLE");                                                 \
                                                                                                                        \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
-        throw std::runtime_error(oss.str());                                                                           \
-    }
+            std::ostringstream caitlyn_oss;                                                                            \
+            caitlyn_oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";       \
+            throw std::runtime_error(caitlyn_oss.str());                                                               \
+        }                                                                                                              \
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_STREQ(expected, actual) Caitlyn::Test::AssertCStringsEqual((expected), (actual))
 
-- 
2.43.0


From 8d8f8a3210417ba5536325971015fcfe43a7a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 71/83] fix: allow tests of one name in several fixtures

---
 include/Caitlyn/__Testing/Macro/TestFixture.h | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/TestFixture.h b/include/Caitlyn/__Testing/Macro/TestFixture.h
index d760d1f..a77574a 100644
--- a/include/Caitlyn/__Testing/Macro/TestFixture.h
+++ b/include/Caitlyn/__Testing/Macro/TestFixture.h
@@ -20,23 +20,28 @@
 
 #include "Caitlyn/__Testing/Types.h"
 
+// The line number tells apart tests of the same name that belong to different fixtures
+#define CAITLYN_TEST_F_NAME_JOIN(TestCaseName, Line, Suffix) TestCaseName##Line##_##Suffix
+#define CAITLYN_TEST_F_NAME(TestCaseName, Line, Suffix) CAITLYN_TEST_F_NAME_JOIN(TestCaseName, Line, Suffix)
+
 #define TEST_F(Fixture, TestCaseName)                                                                                  \
-    struct TestCaseName##_Fixture : public Fixture                                                                     \
+    namespace                                                                                                          \
+    {                                                                                                                  \
+    struct CAITLYN_TEST_F_NAME(TestCaseName##_, __LINE__, Test) : public Fixture                                       \
     {                                                                                                                  \
         void Run();                                                                                                    \
     };                                                                                                                 \
-    namespace                                                                                                          \
-    {                                                                                                                  \
-    struct TestCaseName##_Registrar                                                                                    \
+    struct CAITLYN_TEST_F_NAME(TestCaseName##_, __LINE__, Registrar)                                                   \
     {                                                                                                                  \
-        TestCaseName##_Registrar()                                                                                     \
+        CAITLYN_TEST_F_NAME(TestCaseName##_, __LINE__, Registrar)()                                                    \
         {                                                                                                              \
             Caitlyn::Test::TestRegistry::Instance().AddTest(                                                           \
-                #Fixture, #TestCaseName, []() { TestCaseName##_Fixture().Run(); });                                    \
+                #Fixture, #TestCaseName, []() { CAITLYN_TEST_F_NAME(TestCaseName##_, __LINE__, Test)().Run(); });      \
         }                                                                                                              \
     };                                                                                                                 \
-    TestCaseName##_Registrar TestCaseName##_Registrar_Instance;                                                        \
+    CAITLYN_TEST_F_NAME(TestCaseName##_, __LINE__, Registrar)                                                          \
+    CAITLYN_TEST_F_NAME(TestCaseName##_, __LINE__, Registrar_Instance);                                                \
     }                                                                                                                  \
-    void TestCaseName##_Fixture::Run()
+    void CAITLYN_TEST_F_NAME(TestCaseName##_, __LINE__, Test)::Run()
 
 #endif // CAITLYN_TEST_MACRO_TESTFIXTURE_H_
-- 
2.43.0


From 3ab3272d427f23d78a15fc6772421b193e9cafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 72/83] fix: count the outcomes of every test run afresh

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index fc2c323..84ce352 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -52,6 +52,9 @@ public:
 
     int RunAll()
     {
+        passed_ = 0;
+        failed_ = 0;
+
         LogStart();
 
         startGlobalTime_ = std::chrono::steady_clock::now();
-- 
2.43.0


From 99b63ec33745e94ab195864138a8ad7a87671128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:44 +0000
Subject: [PATCH 73/83] fix: report test failures whose message is not UTF-8

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index 84ce352..33bf404 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -141,7 +141,7 @@ private:
         }
     }
 
-    void LogTestFailure(const TestCase& test, const String& message) const
+    void LogTestFailure(const TestCase& test, const char* message) const
     {
         std::cout << "[     FAIL ] " << test.suite_name << '.' << test.test_name << " (" << localDiff_.count()
                   << " ms)\n"
-- 
2.43.0


From a3c2dea26b5ddee1aea26d3d97aea0396389a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 74/83] fix: find the stream operators of String and Char
 through their operands

---
 include/Caitlyn/__Core/Char/Char.h     | 4 ++--
 include/Caitlyn/__Core/String/String.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 80d0836..4fccc1f 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -286,14 +286,14 @@ private:
     DataType data_;
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 inline std::ostream& operator<<(std::ostream& os, const Caitlyn::Char& c)
 {
     os << c.data();
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::Char operator""_char(const char* str, const std::size_t)
 {
     return Caitlyn::Char{str};
diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index cc5c408..c3208fb 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -1035,8 +1035,6 @@ private:
     DataType data_;
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 inline std::istream& operator>>(std::istream& is, Caitlyn::String& str)
 {
     if (is.good())
@@ -1054,6 +1052,8 @@ inline std::ostream& operator<<(std::ostream& os, const Caitlyn::String& str)
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::String operator""_str(const char* str, const Caitlyn::SizeType)
 {
     return Caitlyn::String{str};
-- 
2.43.0


From 0c569e4d1036b6e2e564e6803a0237115dd85bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:00 +0000
Subject: [PATCH 75/83] fix: find the stream operators of JsonDocument through
 their operands

---
 include/Caitlyn/__Serializing/Json/Types/Json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index 2dedbcc..dc60fb6 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -213,8 +213,6 @@ inline JsonDocument MakeDocument(const std::ifstream& stream)
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 inline std::istream& operator>>(std::istream& is, Caitlyn::JsonDocument& value)
 {
     std::ostringstream buffer;
@@ -229,4 +227,6 @@ inline std::ostream& operator<<(std::ostream& os, const Caitlyn::JsonDocument& v
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 #endif // CAITLYN_SERIALIZING_JSON_TYPES_DOCUMENT_H_
-- 
2.43.0


From eb3d3a0e1048dc2ed2ffd5173bb9e4c8059f389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:02 +0000
Subject: [PATCH 76/83] fix: find the operators of the big numbers through
 their operands

---
 include/Caitlyn/__Numeric/Types/BigFloat.h   | 4 ++--
 include/Caitlyn/__Numeric/Types/BigInteger.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 8b46da5..6125723 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -230,8 +230,6 @@ private:
     SizeType scale_{};
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 inline bool operator<(const Caitlyn::BigFloat& lhs, const Caitlyn::BigFloat& rhs)
 {
     return lhs.LessThan(rhs);
@@ -288,6 +286,8 @@ inline std::ostream& operator<<(std::ostream& os, const Caitlyn::BigFloat& numbe
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::BigFloat operator""_bigfloat(const char* number, const size_t)
 {
     return Caitlyn::BigFloat{number};
diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 69ca80d..cf54181 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -412,8 +412,6 @@ private:
     SignFlag is_negative_ = false;
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 inline bool operator<(const Caitlyn::BigInteger& lhs, const Caitlyn::BigInteger& rhs)
 {
     return lhs.LessThan(rhs);
@@ -475,6 +473,8 @@ inline std::ostream& operator<<(std::ostream& os, const Caitlyn::BigInteger& num
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::BigInteger operator""_bigint(const char* number, const size_t)
 {
     return Caitlyn::BigInteger{number};
-- 
2.43.0


From 0aa2c9ba559feb3abfb8e61736e62b24ec07b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 77/83] fix: find the comparison of Unexpected through its
 operands

---
 include/Caitlyn/__Core/Error/Unexpected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Unexpected.h b/include/Caitlyn/__Core/Error/Unexpected.h
index 2ca1572..a4a5009 100644
--- a/include/Caitlyn/__Core/Error/Unexpected.h
+++ b/include/Caitlyn/__Core/Error/Unexpected.h
@@ -55,8 +55,6 @@ inline Unexpected<String> MakeError(const String& error)
     return Unexpected<String>{error};
 }
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 template <typename E>
 bool operator==(const Caitlyn::Unexpected<E>& lhs, const Caitlyn::Unexpected<E>& rhs)
 {
@@ -69,4 +67,6 @@ bool operator!=(const Caitlyn::Unexpected<E>& lhs, const Caitlyn::Unexpected<E>&
     return !(lhs == rhs);
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 #endif //CAITLYN_CORE_ERROR_UNEXPECTED_H_
-- 
2.43.0


From 8ad738c7c86388cfc3fe431188c2306e524e9dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 78/83] fix: keep a result's content when moving another one
 into it throws

---
 include/Caitlyn/__Core/Error/Expected.h | 31 +++++++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 758c033..36666da 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -96,15 +96,17 @@ public:
     {
         if (this != &other)
         {
+            // Moving may throw where it has to copy, so the current content is kept until it has succeeded
+            Expected previous{std::move(*this)};
             DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
+            try
             {
-                new (&data_.value) ValueType{std::move(other.data_.value)};
+                Construct(std::move(other));
             }
-            else
+            catch (...)
             {
-                new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
+                Restore(std::move(previous));
+                throw;
             }
         }
         return *this;
@@ -308,6 +310,25 @@ public:
     }
 
 private:
+    // There must be no content
+    void Construct(Expected&& other)
+    {
+        if (other.hasValue_)
+        {
+            new (&data_.value) ValueType{std::move(other.data_.value)};
+        }
+        else
+        {
+            new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
+        }
+        hasValue_ = other.hasValue_;
+    }
+
+    void Restore(Expected&& previous) noexcept
+    {
+        Construct(std::move(previous));
+    }
+
     template <typename Result = T, typename Error = E>
     Required<Destructible<Result>() && !Destructible<Error>()> DestroyUnion()
     {
-- 
2.43.0


From 1007443a39b777f1d67391c8a84c16ed2ed4b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:49 +0000
Subject: [PATCH 79/83] fix: the empty text is found everywhere

---
 include/Caitlyn/__Core/String/String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index c3208fb..81d5634 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -381,7 +381,8 @@ public:
     // Method to check if the string contains a given substring
     bool Contains(const String& substring) const
     {
-        return std::search(data_.begin(), data_.end(), substring.begin(), substring.end()) != data_.end();
+        return substring.IsEmpty() ||
+               std::search(data_.begin(), data_.end(), substring.begin(), substring.end()) != data_.end();
     }
 
     // Method to find the first occurrence of a substring
@@ -393,7 +394,7 @@ public:
         }
         const auto it =
             std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
-        return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
+        return (it != data_.end() || substr.IsEmpty()) ? std::distance(data_.begin(), it) : NPosition;
     }
 
     // Method to find the last occurrence of a substring
-- 
2.43.0


From 2937fedd5ae195bff0664103497e2665a383e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:57 +0000
Subject: [PATCH 80/83] fix: reading a string past the end of a stream fails

---
 include/Caitlyn/__Core/String/String.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 81d5634..27f280e 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -1038,10 +1038,12 @@ private:
 
 inline std::istream& operator>>(std::istream& is, Caitlyn::String& str)
 {
-    if (is.good())
+    const bool ready = is.good();
+    std::basic_string<char> input;
+    std::getline(is, input);
+
+    if (ready)
     {
-        std::basic_string<char> input;
-        std::getline(is, input);
         str = input;
     }
     return is;
-- 
2.43.0


From ad21547727608cb674c68289ac93234b7d20f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:49 +0000
Subject: [PATCH 81/83] fix: do not leak an object when its counter cannot be
 allocated

---
 .../__Core/Memory/Types/SharedPointer.h       | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index b01d773..2939d76 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -72,7 +72,7 @@ public:
 public:
     SharedPtr() = default;
 
-    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new Counter() : nullptr}
+    SharedPtr(Pointer data) : data_{data}, ref_count_{MakeCounter(data)}
     {
     }
 
@@ -181,8 +181,9 @@ public:
     {
         if (data_ != data)
         {
+            Counter* const ref_count = MakeCounter(data);
             const SharedPtr old{std::move(*this)};
-            ref_count_ = data ? new Counter() : nullptr;
+            ref_count_ = ref_count;
             data_ = data;
         }
     }
@@ -190,6 +191,20 @@ public:
 private:
     friend class WeakPtr<T>;
 
+    // The object is owned from here on, even if there is no memory for its counter
+    static Counter* MakeCounter(Pointer data)
+    {
+        try
+        {
+            return data ? new Counter() : nullptr;
+        }
+        catch (...)
+        {
+            delete data;
+            throw;
+        }
+    }
+
     void Release() const
     {
         if (ref_count_ && ref_count_->strong.fetch_sub(1, std::memory_order_acq_rel) == 1)
-- 
2.43.0


From 1d4c69c1573fe8e38a0b8ffb02a057facda46fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:18 +0000
Subject: [PATCH 82/83] fix: keep JSON values intact when memory runs out

---
 .../__Serializing/Json/Types/JsonData.h       | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 78b0195..076e364 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -19,7 +19,7 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_DATA_H_
 
 #include <algorithm>
-#include <deque>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -37,7 +37,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 class JsonData
 {
 public:
-    using ArrayType = std::deque<JsonData*>;
+    using ArrayType = std::vector<JsonData*>;
     using ObjectType = std::vector<std::pair<String, JsonData*>>;
     using StringType = String;
     using NullType = NullPtr;
@@ -51,7 +51,7 @@ public:
         new (&data_.null_value) NullType(nullptr);
     }
 
-    JsonData(const JsonData& other) : type_(other.type_)
+    JsonData(const JsonData& other) : JsonData{}
     {
         CopyUnion(other);
     }
@@ -174,8 +174,7 @@ public:
 
         if (it == object.end())
         {
-            object.emplace_back(key, new JsonData());
-            return *object.back().second;
+            return AddMember(key, Part{new JsonData()});
         }
         return *it->second;
     }
@@ -186,7 +185,7 @@ public:
         auto& array = data_.array_value;
         while (index >= array.size())
         {
-            array.emplace_back(new JsonData());
+            AddItem(Part{new JsonData()});
         }
         return *array[index];
     }
@@ -238,7 +237,7 @@ public:
         {
             SetType(JsonClass::Array);
         }
-        data_.array_value.emplace_back(new JsonData{arg});
+        AddItem(Part{new JsonData{arg}});
     }
 
     template <typename T, typename... Args>
@@ -506,6 +505,21 @@ private:
         }
     }
 
+    using Part = std::unique_ptr<JsonData>;
+
+    // A container takes a part over once it has room for it
+    void AddItem(Part item)
+    {
+        data_.array_value.emplace_back(item.get());
+        item.release();
+    }
+
+    JsonData& AddMember(const StringType& key, Part value)
+    {
+        data_.object_value.emplace_back(key, value.get());
+        return *value.release();
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
@@ -526,22 +540,23 @@ private:
                 new (&data_.boolean_value) BooleanType(other.data_.boolean_value);
                 break;
             case JsonClass::Array:
-                new (&data_.array_value) ArrayType();
+                SetType(JsonClass::Array);
                 for (const auto* item : other.data_.array_value)
                 {
-                    data_.array_value.emplace_back(new JsonData{*item});
+                    AddItem(Part{new JsonData{*item}});
                 }
                 break;
             case JsonClass::Object:
-                new (&data_.object_value) ObjectType();
+                SetType(JsonClass::Object);
                 for (const auto& item : other.data_.object_value)
                 {
-                    data_.object_value.emplace_back(item.first, new JsonData{*item.second});
+                    AddMember(item.first, Part{new JsonData{*item.second}});
                 }
                 break;
             default:
                 break;
         }
+        type_ = other.type_;
     }
 
     void MoveUnion(JsonData&& other)
-- 
2.43.0


From 22a42a4a4bc56e03f3bb37b2b05f8a6296ef0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:56 +0000
Subject: [PATCH 83/83] fix: report writes that do not reach the file

---
 include/Caitlyn/__Core/File/File.h | 60 ++++++++++++++++++------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 2391f76..9712c65 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -189,7 +189,7 @@ public:
             Open();
         }
         file_ << data;
-        file_.flush();
+        Flush();
     }
 
     void Write(const String& data)
@@ -199,7 +199,7 @@ public:
             Open();
         }
         file_ << data;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -210,7 +210,7 @@ public:
             Open();
         }
         file_ << data.to_string();
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -221,7 +221,7 @@ public:
             Open();
         }
         file_ << data.str();
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -232,7 +232,7 @@ public:
             Open();
         }
         file_ << data.ToString();
-        file_.flush();
+        Flush();
     }
 
     template <typename... Args>
@@ -243,7 +243,7 @@ public:
             Open();
         }
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        Flush();
     }
 
     void WriteLine(const char* data)
@@ -253,7 +253,7 @@ public:
             Open();
         }
         file_ << data << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     void WriteLine(const String& data)
@@ -263,7 +263,7 @@ public:
             Open();
         }
         file_ << data << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -274,7 +274,7 @@ public:
             Open();
         }
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -285,7 +285,7 @@ public:
             Open();
         }
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -296,7 +296,7 @@ public:
             Open();
         }
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename... Args>
@@ -307,7 +307,7 @@ public:
             Open();
         }
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     void Append(const char* data)
@@ -318,7 +318,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        Flush();
     }
 
     void Append(const String& data)
@@ -329,7 +329,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -341,7 +341,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.to_string();
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -353,7 +353,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.str();
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -365,7 +365,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.ToString();
-        file_.flush();
+        Flush();
     }
 
     template <typename... Args>
@@ -377,7 +377,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        Flush();
     }
 
     void AppendLine(const char* data)
@@ -388,7 +388,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     void AppendLine(const String& data)
@@ -399,7 +399,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -411,7 +411,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -423,7 +423,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename T>
@@ -435,7 +435,7 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
     template <typename... Args>
@@ -447,10 +447,22 @@ public:
         }
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
-        file_.flush();
+        Flush();
     }
 
 private:
+    void Flush()
+    {
+        file_.flush();
+        if (file_.fail())
+        {
+            // What could not be written must not turn up later
+            Close();
+            file_.clear();
+            throw std::ios_base::failure{"Failed to write to the file."};
+        }
+    }
+
     std::basic_string<char> GetFilename() const
     {
         return filename_.str();
-- 
2.43.0

