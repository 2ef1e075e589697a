From 99eccc2825de8d98489b1a0083536a4ff93c4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 1/8] fix: sha2: do not pass a null pointer to memcpy on an
 empty update

---
 include/boost/hash2/sha2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/hash2/sha2.hpp b/include/boost/hash2/sha2.hpp
index 98493ed..b5455d7 100644
--- a/include/boost/hash2/sha2.hpp
+++ b/include/boost/hash2/sha2.hpp
@@ -51,9 +51,10 @@ struct sha2_base
 
     BOOST_CXX14_CONSTEXPR void update( unsigned char const* p, std::size_t n )
     {
-
         BOOST_ASSERT( m_ == n_ % N );
 
+        if( n == 0 ) return;
+
         n_ += n;
 
         if( m_ > 0 )
-- 
2.43.0


From 852b2adcdcc9feef064a953949d9bcd7c9149b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 2/8] fix: get_integral_result: avoid signed overflow when
 contracting a 16 bit result

---
 include/boost/hash2/get_integral_result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index c6742f4..7701db5 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -144,7 +144,7 @@ template<class T, class R>
 
     constexpr auto m = detail::get_result_multiplier<U, R>();
 
-    return static_cast<T>( static_cast<U>( ( r * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
+    return static_cast<T>( static_cast<U>( static_cast<R>( r * 1u * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
 }
 
 // identity or expansion
-- 
2.43.0


From 17398d6163659f53bb5370ec37462335b5883289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 3/8] fix: get_integral_result: make it constexpr and noexcept,
 as documented

---
 include/boost/hash2/get_integral_result.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index 7701db5..f1c0d06 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -6,6 +6,7 @@
 // https://www.boost.org/LICENSE_1_0.txt
 
 #include <boost/hash2/detail/read.hpp>
+#include <boost/config.hpp>
 #include <type_traits>
 #include <limits>
 #include <cstddef>
@@ -132,8 +133,9 @@ template<class U, class R>
 // contraction
 
 template<class T, class R>
+    BOOST_CXX14_CONSTEXPR
     typename std::enable_if<std::is_integral<R>::value && (sizeof(R) > sizeof(T)), T>::type
-    get_integral_result( R const & r )
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
@@ -150,8 +152,9 @@ template<class T, class R>
 // identity or expansion
 
 template<class T, class R>
+    BOOST_CXX14_CONSTEXPR
     typename std::enable_if<std::is_integral<R>::value && (sizeof(R) <= sizeof(T)), T>::type
-    get_integral_result( R const & r )
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
@@ -168,8 +171,9 @@ template<class T, class R>
 // array-like R
 
 template<class T, class R>
+    BOOST_CXX14_CONSTEXPR
     typename std::enable_if< !std::is_integral<R>::value, T >::type
-    get_integral_result( R const & r )
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
-- 
2.43.0


From 6a5269e9ee7fb6c23bf53d6e6f1cedcb03797f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 4/8] fix: xxhash_32: do not lose track of the length after 4
 GB when size_t is 32 bit

---
 include/boost/hash2/xxhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/hash2/xxhash.hpp b/include/boost/hash2/xxhash.hpp
index 263314c..08b2bb6 100644
--- a/include/boost/hash2/xxhash.hpp
+++ b/include/boost/hash2/xxhash.hpp
@@ -47,7 +47,7 @@ private:
     unsigned char buffer_[ 16 ] = {};
     std::size_t m_ = 0; // == n_ % 16
 
-    std::size_t n_ = 0;
+    std::uint64_t n_ = 0;
 
 private:
 
-- 
2.43.0


From b2bad36a90c1370670a2111b4bd9dccfcb9cd61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 5/8] fix: hash_append_sized_range,
 hash_append_unordered_range: append values of value_type for proxy iterators
 too

---
 include/boost/hash2/hash_append.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index aacf57d..dcf5530 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -123,7 +123,8 @@ template<class Hash, class Flavor, class It> void BOOST_CXX14_CONSTEXPR hash_app
 
     for( ; first != last; ++first, ++m )
     {
-        hash2::hash_append( h, f, *first );
+        typename std::iterator_traits<It>::value_type const& v = *first;
+        hash2::hash_append( h, f, v );
     }
 
     hash2::hash_append_size( h, f, m );
@@ -152,8 +153,10 @@ template<class Hash, class Flavor = default_flavor, class It> BOOST_CXX14_CONSTE
 
     for( ; first != last; ++first, ++m )
     {
+        typename std::iterator_traits<It>::value_type const& v = *first;
+
         Hash h2( h );
-        hash2::hash_append( h2, f, *first );
+        hash2::hash_append( h2, f, v );
 
         w += hash2::get_integral_result<std::uint64_t>( h2.result() );
     }
-- 
2.43.0


From 09be6bca4aa0232163141ae923589f245ba0d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 6/8] fix: hash_append: do not quiet signaling NaNs

---
 include/boost/hash2/hash_append.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index dcf5530..57f93cd 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -216,7 +216,7 @@ template<class Hash, class Flavor, class T>
     typename std::enable_if< std::is_floating_point<T>::value && sizeof(T) == 4, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
-    hash2::hash_append( h, f, detail::bit_cast<std::uint32_t>( v + 0 ) );
+    hash2::hash_append( h, f, v == 0? std::uint32_t(): detail::bit_cast<std::uint32_t>( v ) );
 }
 
 template<class Hash, class Flavor, class T>
@@ -224,7 +224,7 @@ template<class Hash, class Flavor, class T>
     typename std::enable_if< std::is_floating_point<T>::value && sizeof(T) == 8, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
-    hash2::hash_append( h, f, detail::bit_cast<std::uint64_t>( v + 0 ) );
+    hash2::hash_append( h, f, v == 0? std::uint64_t(): detail::bit_cast<std::uint64_t>( v ) );
 }
 
 // std::nullptr_t
-- 
2.43.0


From 417fef93e0e9c95ce6ef039fdfb84093f23a704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 7/8] fix: count message bytes in 64 bits in murmur3_128 and
 spooky2_128

On 32-bit platforms the std::size_t counter wrapped after 2^32 bytes, so that
murmur3_128 mixed in a truncated length, and spooky2_128 violated its own
assertion and finalized long messages as short ones.
---
 include/boost/hash2/legacy/murmur3.hpp | 2 +-
 include/boost/hash2/legacy/spooky2.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/hash2/legacy/murmur3.hpp b/include/boost/hash2/legacy/murmur3.hpp
index d04899a..34b0606 100644
--- a/include/boost/hash2/legacy/murmur3.hpp
+++ b/include/boost/hash2/legacy/murmur3.hpp
@@ -221,7 +221,7 @@ private:
     unsigned char buffer_[ 16 ];
     std::size_t m_; // == n_ % 16
 
-    std::size_t n_;
+    std::uint64_t n_;
 
 private:
 
diff --git a/include/boost/hash2/legacy/spooky2.hpp b/include/boost/hash2/legacy/spooky2.hpp
index 6d76c7f..949291d 100644
--- a/include/boost/hash2/legacy/spooky2.hpp
+++ b/include/boost/hash2/legacy/spooky2.hpp
@@ -37,7 +37,7 @@ private:
 
     std::size_t m_; // == n_ % N
 
-    std::size_t n_;
+    std::uint64_t n_;
 
 private:
 
@@ -339,7 +339,7 @@ public:
 
         if( n_ < N )
         {
-            short_hash( buffer_, n_, h0, h1 );
+            short_hash( buffer_, static_cast<std::size_t>( n_ ), h0, h1 );
         }
         else
         {
-- 
2.43.0


From 89dcf0d859cc7386bbb5995c1896e295fa65440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:38 +0000
Subject: [PATCH 8/8] fix: std::ranges::subrange does not have a constant size

---
 include/boost/hash2/has_constant_size.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/boost/hash2/has_constant_size.hpp b/include/boost/hash2/has_constant_size.hpp
index 74c8987..9f5364c 100644
--- a/include/boost/hash2/has_constant_size.hpp
+++ b/include/boost/hash2/has_constant_size.hpp
@@ -5,9 +5,14 @@
 // Distributed under the Boost Software License, Version 1.0.
 // https://www.boost.org/LICENSE_1_0.txt
 
+#include <boost/config.hpp>
 #include <type_traits>
 #include <utility>
 
+#if !defined(BOOST_NO_CXX20_HDR_RANGES)
+# include <ranges>
+#endif
+
 namespace boost
 {
 
@@ -53,6 +58,16 @@ template<std::size_t N> struct has_constant_size< digest<N> >: std::true_type
 {
 };
 
+#if !defined(BOOST_NO_CXX20_HDR_RANGES)
+
+// tuple-like, but its size is not part of the type
+
+template<class It, class Se, std::ranges::subrange_kind K> struct has_constant_size< std::ranges::subrange<It, Se, K> >: std::false_type
+{
+};
+
+#endif
+
 template<class T> struct has_constant_size<T const>: has_constant_size<T>
 {
 };
-- 
2.43.0

