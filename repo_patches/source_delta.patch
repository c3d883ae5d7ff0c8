From 4fc7afa0c04a682a35c158877c64d0cdb5051da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 01/15] fix: simple_resource: last block of an allocation is
 the one holding its last byte

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 995d026..a8ae7cb 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -413,7 +413,7 @@ class simple_resource : public memory_resource
                          std::size_t aSize) noexcept
     {
         const BIndex first = pointer_to_block_index(aPtr);
-        const BIndex last = pointer_to_block_index(aPtr + aSize);
+        const BIndex last = pointer_to_block_index(aPtr + (aSize - 1));
         const BIndex after_free = at(aFreeRegion).next_index();
         const BIndex last_of_free =
             after_free ? after_free - 1 : static_cast<BIndex>(block_count_ - 1);
-- 
2.43.0


From 497c10d070cd14709015c2495c53b8e5dc81f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 02/15] fix: simple_resource: traversal actions return the next
 region index, not a bool

---
 sources/include/utils/memory/simple_resource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index a8ae7cb..caa47c6 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -214,7 +214,7 @@ class simple_resource : public memory_resource
     void release() noexcept
     {
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
-              [this](BIndex aIndex) mutable noexcept -> bool
+              [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
     }
 
@@ -302,7 +302,7 @@ class simple_resource : public memory_resource
                 apply([this](BIndex aIndex) noexcept -> bool
                       { return not in_use(aIndex); },
                       [this, &pointer, aAlignment,
-                       aSize](BIndex aIndex) mutable noexcept -> bool
+                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                       {
                           const auto block_size = block_size_in_bytes(aIndex);
                           std::byte *const block_pointer =
@@ -391,7 +391,7 @@ class simple_resource : public memory_resource
 
     template <typename Predicate, typename Action>
     std::enable_if_t<std::is_nothrow_invocable_r_v<bool, Predicate, BIndex> &&
-                     std::is_nothrow_invocable_r_v<bool, Action, BIndex>>
+                     std::is_nothrow_invocable_r_v<BIndex, Action, BIndex>>
     apply(Predicate &&aPredicate, Action &&aAction) noexcept
     {
         BIndex i = 0;
-- 
2.43.0


From 971cc35abef2b8bd598e4dac4874ba2fb62b377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 03/15] fix: simple_resource: huge sizes must not wrap around
 in the fit test

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index caa47c6..c14baf0 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -309,7 +309,7 @@ class simple_resource : public memory_resource
                               block_index_to_pointer(aIndex);
                           const auto skip =
                               skip_to_align(block_pointer, aAlignment);
-                          if (skip + aSize <= block_size)
+                          if (skip <= block_size && aSize <= block_size - skip)
                           {
                               pointer = block_pointer + skip;
                               allocate_blocks(aIndex, pointer, aSize);
-- 
2.43.0


From bfd31359c3dd45abed85136b629833a58f1828b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 04/15] fix: simple_resource: request block aligned memory from
 upstream

---
 sources/include/utils/memory/simple_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index c14baf0..b00cc66 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -323,7 +323,8 @@ class simple_resource : public memory_resource
         if (!pointer && upstream_)
         {
             pointer = static_cast<std::byte *>(
-                upstream_->allocate(aSize, aAlignment));
+                upstream_->allocate(
+                    aSize, std::max<std::size_t>(aAlignment, BlockSize)));
         }
 
         assert(is_aligned(pointer, BlockSize));
-- 
2.43.0


From 1a1267c27999030788a42f344fd3990df8448fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 05/15] fix: simple_resource: compute buffer alignment in
 std::size_t

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index b00cc66..ae3f698 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -295,7 +295,7 @@ class simple_resource : public memory_resource
         if (data_)
         {
             const std::size_t kBufferAlignment =
-                1 << ctz(reinterpret_cast<uintptr_t>(data_));
+                std::size_t{1} << ctz(reinterpret_cast<uintptr_t>(data_));
             if (aAlignment <= max_alignment_inside_block(
                                   kBufferAlignment, block_count_ * BlockSize))
             {
-- 
2.43.0


From 090b0764d4bb16af64fc3b6fb509766dfb7a69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 06/15] fix: simple_resource: release() of a resource without
 blocks has no effect

---
 sources/include/utils/memory/simple_resource.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index ae3f698..646281c 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -213,6 +213,11 @@ class simple_resource : public memory_resource
 
     void release() noexcept
     {
+        if (!block_count_)
+        {
+            return;
+        }
+
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
               [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
-- 
2.43.0


From fda4e5d75cc4bb11416f93c1a1966325c51c3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 07/15] fix: max_alignment_inside_block: shift in std::size_t

---
 sources/include/utils/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 45589ff..677b675 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -423,7 +423,7 @@ constexpr std::size_t max_alignment_inside_block(
     const std::size_t msb = bits_count(value) - 1;
 
     // 2. return 2^msb
-    const std::size_t max_alignment = 1 << msb;
+    const std::size_t max_alignment = std::size_t{1} << msb;
 
     return max_alignment;
     ;
-- 
2.43.0


From 1dc947991815e2eda7787745fd6d180c17a97b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 08/15] fix: monotonic_buffer_resource: huge sizes must not
 wrap around in the fit test

---
 sources/include/utils/memory/monotonic_buffer_resource.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 33f5368..56f4b45 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -72,10 +72,11 @@ class monotonic_buffer_resource : public memory_resource
         if (data_)
         {
             const auto skip = skip_to_align(next_, aAlignment);
-            std::byte *supposed_result = next_ + skip;
-            if (std::less_equal<std::byte *>{}(supposed_result + aSize,
-                                               data_ + size_))
+            const auto remaining =
+                static_cast<std::size_t>(data_ + size_ - next_);
+            if (skip <= remaining && aSize <= remaining - skip)
             {
+                std::byte *supposed_result = next_ + skip;
                 next_ = supposed_result + aSize;
                 pointer = supposed_result;
             }
-- 
2.43.0


From 9592a8dd27f518358bbfea525661a267c01bed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 09/15] fix: allocator: return null when the byte count is not
 representable

---
 sources/include/utils/memory/allocator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c783925..07ef526 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,6 +1,7 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <limits>
 #include <type_traits>
 
 #include "memory.h"
@@ -28,6 +29,10 @@ class allocator
 
     [[nodiscard]] T* allocate(std::size_t aCount) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(T))
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             resource_->allocate(aCount * sizeof(T), alignof(T)));
     }
@@ -52,6 +57,10 @@ class allocator
     template <typename U>
     [[nodiscard]] U* allocate_object(std::size_t aCount = 1) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(U))
+        {
+            return nullptr;
+        }
         return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 93fb2cfec6320b3619cba306966524ae4dfa3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 10/15] fix: allocator: forward constructor arguments with
 their own types

---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 07ef526..2b9c148 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -42,7 +42,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<T>(aArgs)...);
+        new (aPtr) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
@@ -77,7 +77,7 @@ class allocator
         U* ptr = this->allocate_object<U>();
         if (ptr)
         {
-            this->construct(ptr, aArgs...);
+            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
         }
         return ptr;
     }
-- 
2.43.0


From ba666fd8724fab994e3f4240e62d49a3e16b06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 11/15] fix: allocator: converting constructor and comparison
 use the public accessor

---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 2b9c148..3617cf1 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -21,7 +21,7 @@ class allocator
     allocator& operator=(const allocator&) = delete;
 
     template <typename U>
-    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource_)
+    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource())
     {
     }
 
@@ -113,7 +113,7 @@ class allocator
 template <class T1, class T2>
 bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
 {
-    return *aLhs.resource_ == *aRhs.resource_;
+    return *aLhs.resource() == *aRhs.resource();
 }
 
 template <class T1, class T2>
-- 
2.43.0


From 52e83752cb55bf610fab710744824823b9d1c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 12/15] fix: div: exact result for large unsigned and
 mixed-sign operands at run time

---
 sources/include/utils/common.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 677b675..5930c4c 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -606,10 +606,22 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
             std::conditional_t<types_with_builtin_impl::contains_v<common_t>,
                                common_t, long long>;
 
-        const auto result = std::div(static_cast<work_t>(aNumerator),
-                                     static_cast<work_t>(aDenominator));
-        return div_t<type>{static_cast<type>(result.quot),
-                           static_cast<type>(result.rem)};
+        if constexpr (std::is_unsigned_v<type> &&
+                      sizeof(type) >= sizeof(work_t))
+        {  // not every value of type is representable in work_t
+            return div_t<type>{static_cast<type>(aNumerator) /
+                                   static_cast<type>(aDenominator),
+                               static_cast<type>(aNumerator) %
+                                   static_cast<type>(aDenominator)};
+        }
+        else
+        {
+            const auto result =
+                std::div(static_cast<work_t>(static_cast<type>(aNumerator)),
+                         static_cast<work_t>(static_cast<type>(aDenominator)));
+            return div_t<type>{static_cast<type>(result.quot),
+                               static_cast<type>(result.rem)};
+        }
     }
 }
 
-- 
2.43.0


From 2165b72baff3a0a97226013558438c357da8e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 13/15] fix: memmove: copy backwards in constant evaluation
 when the destination overlaps the end of the source

---
 sources/include/utils/memory/memory.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8daca9f..54253e2 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -98,9 +98,17 @@ constexpr std::byte *memmove(std::byte *aDst, const std::byte *aSrc,
         {
             return aDst;
         }
+        // Pointers into different objects may only be compared for equality in
+        // constant evaluation.
+        bool dst_inside_src = false;
+        for (std::size_t i = 1; i < aCount && !dst_inside_src; ++i)
+        {
+            dst_inside_src = (aSrc + i == aDst);
+        }
         for (std::size_t i = 0; i < aCount; ++i)
         {
-            *(aDst + i) = *(aSrc + i);
+            const std::size_t pos = dst_inside_src ? aCount - i - 1 : i;
+            *(aDst + pos) = *(aSrc + pos);
         }
         return aDst;
     }
-- 
2.43.0


From f9a8534fe55068197bfca729df99b71bd99d0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 14/15] fix: timer: self move assignment keeps the callback

---
 sources/include/utils/timer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 002ea87..81ea136 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -123,6 +123,10 @@ class timer
     timer &operator=(const timer &) = delete;
     timer &operator=(timer &&aOther) noexcept
     {
+        if (this == &aOther)
+        {
+            return *this;
+        }
         start_ = aOther.start_;
         callback_ = aOther.callback_;
         aOther.callback_ = nullptr;
-- 
2.43.0


From 6ffbf35993a3ec3513fdb1f68a196d2cfa7782fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 15/15] fix: make_array, make_zero_array: copy the value into
 every element instead of moving it repeatedly

---
 sources/include/utils/common.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 5930c4c..128a90d 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -174,11 +174,19 @@ constexpr decltype(auto) make_element_for_index(T&& aValue) noexcept
     return std::forward<T>(aValue);
 }
 
+// Elements are copied, because the value is used once per element. Only types
+// that can't be copied are moved.
+template <typename T>
+using element_source_t =
+    std::conditional_t<std::is_copy_constructible_v<T>, const T&, T>;
+
 template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
-    [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
+    [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept(
+    std::is_nothrow_constructible_v<T, element_source_t<T>>)
 {
-    return {make_element_for_index<T, I>(std::move(aValue))...};
+    return {make_element_for_index<element_source_t<T>, I>(
+        std::forward<element_source_t<T>>(aValue))...};
 }
 
 template <std::size_t... I>
-- 
2.43.0

