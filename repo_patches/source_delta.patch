From c70773634e38e0a6bf87f73d77225d34c3bba1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 1/3] fix: sha2 update passes a null source to memcpy when
 given an empty message

---
 include/boost/hash2/sha2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/hash2/sha2.hpp b/include/boost/hash2/sha2.hpp
index 98493ed..b5455d7 100644
--- a/include/boost/hash2/sha2.hpp
+++ b/include/boost/hash2/sha2.hpp
@@ -51,9 +51,10 @@ struct sha2_base
 
     BOOST_CXX14_CONSTEXPR void update( unsigned char const* p, std::size_t n )
     {
-
         BOOST_ASSERT( m_ == n_ % N );
 
+        if( n == 0 ) return;
+
         n_ += n;
 
         if( m_ > 0 )
-- 
2.43.0


From a9cd13d2a721fa2a750131e8ddbbba3d9d82ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 2/3] fix: signed overflow in get_integral_result from a 16 bit
 result to an 8 bit type

---
 include/boost/hash2/get_integral_result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index c6742f4..7ed1891 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -144,7 +144,7 @@ template<class T, class R>
 
     constexpr auto m = detail::get_result_multiplier<U, R>();
 
-    return static_cast<T>( static_cast<U>( ( r * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
+    return static_cast<T>( static_cast<U>( ( 1u * r * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
 }
 
 // identity or expansion
-- 
2.43.0


From b6605a38fd169cd235286504b9050690531fe0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 3/3] fix: xxhash_32 loses the byte count above 2^32 where
 size_t has 32 bits

---
 include/boost/hash2/xxhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/hash2/xxhash.hpp b/include/boost/hash2/xxhash.hpp
index 263314c..08b2bb6 100644
--- a/include/boost/hash2/xxhash.hpp
+++ b/include/boost/hash2/xxhash.hpp
@@ -47,7 +47,7 @@ private:
     unsigned char buffer_[ 16 ] = {};
     std::size_t m_ = 0; // == n_ % 16
 
-    std::size_t n_ = 0;
+    std::uint64_t n_ = 0;
 
 private:
 
-- 
2.43.0

