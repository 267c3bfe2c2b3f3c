From 86a44efab285d5cbe5af04c135fd29e972f83c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 01/54] fix: Arena::Reset and SpaceRemains on an arena without
 any block

---
 arena/arena.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index d4e12e6..90ac659 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -399,8 +399,12 @@ class Arena
         if (_options.on_arena_reset != nullptr) [[likely]] {
             _options.on_arena_reset(this, _cookie, _space_allocated, all_waste_space);
         }
-        // reset all internal status.
         uint64_t reset_size = _space_allocated;
+        // an Arena that never got a block has nothing to reset.
+        if (_last_block == nullptr) [[unlikely]] {
+            return reset_size;
+        }
+        // reset all internal status.
         _space_allocated = _last_block->size();
         _last_block->Reset();
         return reset_size;
@@ -418,7 +422,7 @@ class Arena
      * caller can use is function to test whether the Arena will allocate a new block.
      */
     [[nodiscard, gnu::always_inline]] inline auto SpaceRemains() const noexcept -> uint64_t {
-        return _last_block->remain();
+        return _last_block != nullptr ? _last_block->remain() : 0;
     }
 
     /*
@@ -648,7 +652,10 @@ class Arena
             _options.block_dealloc(curr);
             curr = prev;
         }
-        Assert(curr != nullptr, "curr should not be nullptr");
+        // no block at all, nothing to free.
+        if (curr == nullptr) [[unlikely]] {
+            return remain_size;
+        }
         // add the curr blk remain to result
         remain_size += curr->remain();
         // reset the last_block_ to the first block
-- 
2.43.0


From c01eb8cae7f3c28d4a039656b296b44d47ec20ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 02/54] fix: reserve room for the alignment padding in a new
 block

---
 arena/arena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index d3ba154..7cf5f95 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -139,7 +139,8 @@ void Arena::Block::Reset() noexcept {
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
-        Block* curr = newBlock(needed, _last_block);
+        // the position after the block header is only aligned to kByteSize, so a stricter alignment may need padding.
+        Block* curr = newBlock(needed + (std::max(alignment, kByteSize) - kByteSize), _last_block);
         if (curr != nullptr) [[likely]] {
             _last_block = curr;
         } else {
-- 
2.43.0


From ffd12b657fc588131c1f7dd0f21bdf5119d190f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 03/54] fix: arena requests whose size overflows return nullptr

---
 arena/arena.cc  | 5 +++++
 arena/arena.hpp | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index 7cf5f95..da61f9a 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -66,6 +66,7 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
         auto output_message = fmt::format(
           "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
         _options.logger_func(output_message);
+        return nullptr;
     }
 
     // it was not called in the Arena's first chance.
@@ -137,6 +138,10 @@ void Arena::Block::Reset() noexcept {
  * if return nullptr means failure
  */
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
+    // a size that can not be aligned and padded within uint64_t can never be allocated.
+    if (bytes > std::numeric_limits<uint64_t>::max() - kByteSizeMask - alignment) [[unlikely]] {
+        return nullptr;
+    }
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
         // the position after the block header is only aligned to kByteSize, so a stricter alignment may need padding.
diff --git a/arena/arena.hpp b/arena/arena.hpp
index 90ac659..79f96f3 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -290,7 +290,8 @@ class Arena
             auto [_, alignment_waste] = AlignPos(Pos(), alignment);
             // the size is no need to align, because the AlignPos has done the ptr alignment, and _limit is aligned
             // to 16.
-            return _pos + alignment_waste + size <= _limit;
+            // compare without any addition to size, a huge size should not wrap around.
+            return alignment_waste <= remain() && size <= remain() - alignment_waste;
         }
 
         void run_cleanups() noexcept {
@@ -462,6 +463,7 @@ class Arena
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
             _options.logger_func(output_message);
+            return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
         char* ptr = allocateAligned(size);
-- 
2.43.0


From b0a03386aa168a46d45d10c64b13c5dc69e8bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 04/54] fix: Create and CreateArray respect the alignment of
 the type

---
 arena/arena.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 79f96f3..f4b7908 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -34,6 +34,7 @@
 
 #include <stdint.h>  // for uint64_t, uint8_t
 
+#include <algorithm>  // for max
 #include <boost/assert/source_location.hpp>
 #include <boost/core/demangle.hpp>  // for demangle
 #include <concepts>
@@ -433,7 +434,7 @@ class Arena
      */
     template <Creatable T, typename... Args>
     [[nodiscard]] auto Create(Args&&... args) noexcept -> T* {
-        char* ptr = allocateAligned(sizeof(T));
+        char* ptr = allocateAligned(sizeof(T), std::max(kByteSize, uint64_t{alignof(T)}));
         if (ptr != nullptr) [[likely]] {
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
@@ -466,7 +467,7 @@ class Arena
             return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
-        char* ptr = allocateAligned(size);
+        char* ptr = allocateAligned(size, std::max(kByteSize, uint64_t{alignof(T)}));
         if (ptr != nullptr) [[likely]] {
             T* curr = reinterpret_cast<T*>(ptr);
             for (uint64_t i = 0; i < num; ++i) {
-- 
2.43.0


From fec6278c96a5efba5387aa165a0fb3cab5d0c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 05/54] fix: Arena::Create destructs the object when its
 cleanup can not be registered

---
 arena/arena.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index f4b7908..0350a4f 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -43,6 +43,7 @@
 #include <exception>      // for type_info
 #include <iostream>       // for endl, basic_ostream, cerr
 #include <limits>         // for numeric_limits
+#include <memory>         // for destroy_at
 #include <new>            // for operator new, bad_alloc
 #include <string>         // for allocator, operator<<, string
 #include <type_traits>    // for false_type, is_standard_layout
@@ -439,6 +440,8 @@ class Arena
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
+                // nobody else will destruct the object that the caller can not see.
+                std::destroy_at(result);
                 return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
-- 
2.43.0


From 53c87c16bd6e7ac78587a21424c84f8aedd485db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 06/54] fix: moving an Arena keeps its memory_resource and its
 hooks consistent

---
 arena/arena.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 0350a4f..1bdb0fb 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -161,7 +161,14 @@ class Arena
           _last_block(std::exchange(other._last_block, nullptr)),
           _resource(std::exchange(other._resource, nullptr)),
           _cookie(std::exchange(other._cookie, nullptr)),
-          _space_allocated(std::exchange(other._space_allocated, 0)) {}
+          _space_allocated(std::exchange(other._space_allocated, 0)) {
+        // the resource should serve the arena that owns it.
+        if (_resource != nullptr) [[likely]] {
+            _resource->_arena = this;
+        }
+        // the moved-from arena has no cookie anymore, its destruction is not the destruction of a monitored arena.
+        other._options.on_arena_destruction = nullptr;
+    }
     auto operator=(Arena&&) noexcept -> Arena& = delete;
 
     /*
@@ -347,6 +354,7 @@ class Arena
         }
 
        private:
+        friend class Arena;
         Arena* _arena;
     };
 
-- 
2.43.0


From cd9acddaa6b3fc56c19fd3cd1b1e12234da06078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 07/54] fix: memory_resource of Arena throws bad_alloc instead
 of returning nullptr

---
 arena/arena.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 1bdb0fb..c220a35 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -337,8 +337,13 @@ class Arena
         [[nodiscard]] auto get_arena() const -> Arena* { return _arena; }
 
        protected:
-        auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-            return reinterpret_cast<char*>(_arena->allocateAligned(bytes, std::max(kByteSize, alignment)));
+        auto do_allocate(size_t bytes, size_t alignment) -> void* override {
+            char* ptr = _arena->allocateAligned(bytes, std::max(kByteSize, alignment));
+            // a memory_resource is never allowed to return nullptr.
+            if (ptr == nullptr) [[unlikely]] {
+                throw std::bad_alloc();
+            }
+            return ptr;
         }
 
         void do_deallocate([[maybe_unused]] void* /*unused*/, [[maybe_unused]] size_t /*unused*/,
-- 
2.43.0


From 9b82efefd9775a54c4e632901efdce85cad6edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 08/54] fix: Arena::Create returns nullptr when the constructor
 runs out of memory

---
 arena/arena.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index c220a35..0506226 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -450,7 +450,12 @@ class Arena
     [[nodiscard]] auto Create(Args&&... args) noexcept -> T* {
         char* ptr = allocateAligned(sizeof(T), std::max(kByteSize, uint64_t{alignof(T)}));
         if (ptr != nullptr) [[likely]] {
-            Construct<T>(ptr, *this, std::forward<Args>(args)...);
+            try {
+                Construct<T>(ptr, *this, std::forward<Args>(args)...);
+            } catch (const std::bad_alloc&) {
+                // the constructor may need more memory, from the arena too, that means failure as well.
+                return nullptr;
+            }
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
                 // nobody else will destruct the object that the caller can not see.
@@ -697,11 +702,11 @@ class Arena
     friend class ArenaTestHelper;
 
     /*
-     * because of using 'new placement' do not need to allocate memory
-     * so no bad_alloc will be thrown
+     * because of using 'new placement' do not need to allocate memory for the object itself,
+     * but the constructor of T may allocate and throw bad_alloc
      */
     template <typename T, typename... Args>
-    [[gnu::always_inline]] inline static auto Construct(void* ptr, Arena& arena, Args&&... args) noexcept -> T* {
+    [[gnu::always_inline]] inline static auto Construct(void* ptr, Arena& arena, Args&&... args) -> T* {
         // placement new make the new Object T is in the ptr-> memory.
         if constexpr (std::is_constructible_v<T, Args..., ::pmr::polymorphic_allocator<T>>) {
             return new (ptr) T(std::forward<Args>(args)..., arena.get_memory_resource());
-- 
2.43.0


From 47a7e8a15a63a35e2c6baec7524e56a1247d9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 09/54] fix: run all cleanups of an Arena before any of its
 blocks is freed

---
 arena/arena.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 0506226..18fa45c 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -313,6 +313,8 @@ class Arena
             for (; node < last; ++node) {
                 node->cleanup(node->element);
             }
+            // every cleanup was run, never run it again.
+            _limit = _size;
         }
 
         [[nodiscard, gnu::always_inline]] inline auto cleanups() const noexcept -> uint64_t {
@@ -638,20 +640,31 @@ class Arena
         return addCleanup(ptr, &arena_destruct_object<T>);
     }
 
+    /*
+     * run the cleanups of all blocks, from the newest to the oldest, and return the remains size of all blocks.
+     * an object may refer to the memory of any block, so no block should be freed before the last cleanup was run.
+     */
+    auto run_all_cleanups() noexcept -> uint64_t {
+        uint64_t remain_size = 0;
+        for (Block* curr = _last_block; curr != nullptr; curr = curr->prev()) {
+            // add the size of curr blk.
+            remain_size += curr->remain();
+            curr->run_cleanups();
+        }
+        return remain_size;
+    }
+
     /*
      * free all blocks and return all remains size of all blocks that was freed.
      */
     auto free_all_blocks() noexcept -> uint64_t {
+        // run all cleanups first
+        uint64_t remain_size = run_all_cleanups();
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = 0;
 
         while (curr != nullptr) {
             prev = curr->prev();
-            // add the size of curr blk.
-            remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
@@ -663,16 +676,13 @@ class Arena
      * free all blocks except the first block.
      */
     auto free_blocks_except_head() noexcept -> uint64_t {
+        // run all cleanups first
+        uint64_t remain_size = run_all_cleanups();
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = 0;
 
         while (curr != nullptr && curr->prev() != nullptr) {
             prev = curr->prev();
-            // add the size of curr blk.
-            remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
@@ -680,8 +690,6 @@ class Arena
         if (curr == nullptr) [[unlikely]] {
             return remain_size;
         }
-        // add the curr blk remain to result
-        remain_size += curr->remain();
         // reset the last_block_ to the first block
         _last_block = curr;
         return remain_size;
-- 
2.43.0


From 1272cfd16f7cc69c9971d2569f42519c826b4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 10/54] fix: rendering global metrics without any allocation or
 destruction

---
 arena/metrics.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 2a66f49..b3a14e6 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -143,17 +143,21 @@ struct GlobalArenaMetrics
           space_wasted, space_resettled);
 
         constexpr uint64_t kPercentMagic = 100UL;
+        // nothing was counted means 0%
+        auto percent = [](uint64_t count, uint64_t total) -> uint64_t {
+            return total == 0 ? 0 : count * kPercentMagic / total;
+        };
         for (uint64_t i = 0, count = 0; i < kAllocBucketSize; i++) {
             count += alloc_size_bucket_counter.at(i);
             // count < alloc_count
-            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), count * kPercentMagic / alloc_count);
+            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), percent(count, alloc_count));
         }
 
         str += "\nLifetime distribution:";
         for (uint64_t i = 0, count = 0; i < kLifetimeBucketSize; i++) {
             count += destruct_lifetime_bucket_counter.at(i);
             str += fmt::format("\n  le={}ms: {}", destruct_lifetime_bucket.at(i).count(),
-                               (count * kPercentMagic) / destruct_count);
+                               percent(count, destruct_count));
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
-- 
2.43.0


From 89974043d63a5b0dc02f2486a6a01791d2fc374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 11/54] fix: guard the global table of arena locations against
 concurrent reports

---
 arena/metrics.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index b3a14e6..ffeb662 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -41,6 +41,7 @@
 #include <compare>        // for operator<=, strong_ordering
 #include <cstdint>        // for uint64_t, uint32_t
 #include <memory>         // for allocator, unique_ptr
+#include <mutex>          // for mutex, lock_guard
 #include <string>         // for string, char_traits, hash
 #include <typeinfo>       // for type_info
 #include <unordered_map>  // for unordered_map, operator==
@@ -103,6 +104,8 @@ struct GlobalArenaMetrics
     // atomic<uint64_t> destruct_lifetime_bucket_counter[kLifetimeBucketSize] = {0};
     std::array<atomic<uint64_t>, kLifetimeBucketSize> destruct_lifetime_bucket_counter{0};
     std::unordered_map<std::string, atomic<uint64_t>> arena_alloc_counter = {};  // arena identified by init() location
+    // the counters are atomic, but the table of the counters is not, it should be accessed with the mutex.
+    mutable std::mutex arena_alloc_mutex = {};
 
     void reset() {  // lockless and races for metric-data is acceptable
         init_count.store(0, std::memory_order::relaxed);
@@ -120,6 +123,7 @@ struct GlobalArenaMetrics
         for (auto& counter : destruct_lifetime_bucket_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
+        const std::lock_guard<std::mutex> guard(arena_alloc_mutex);
         for (auto& [key, counter] : arena_alloc_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
@@ -161,6 +165,7 @@ struct GlobalArenaMetrics
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
+        const std::lock_guard<std::mutex> guard(arena_alloc_mutex);
         for (const auto& [loc, counter] : arena_alloc_counter) {
             str += fmt::format("\n  {}: {}", loc, counter);
         }
@@ -253,8 +258,11 @@ struct LocalArenaMetrics
             global_arena_metrics.destruct_lifetime_bucket_counter.at(i).fetch_add(
               destruct_lifetime_bucket_counter.at(i), std::memory_order::relaxed);
         }
-        for (const auto& [loc, count] : arena_alloc_counter) {
-            global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
+        {
+            const std::lock_guard<std::mutex> guard(global_arena_metrics.arena_alloc_mutex);
+            for (const auto& [loc, count] : arena_alloc_counter) {
+                global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
+            }
         }
 
         reset();
-- 
2.43.0


From 876667935ca54037ba65fe417409a01e8dbc8690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 12/54] fix: checkedRealloc keeps the buffer of the string when
 realloc fails

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index c15d40f..98f7d52 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -103,7 +103,7 @@ inline auto checkedMalloc(size_t size) -> void* {
 inline auto checkedRealloc(void* ptr, size_t size) -> void* {
     auto* new_ptr = realloc(ptr, size);
     if (new_ptr == nullptr) {
-        free(ptr);
+        // the caller still owns ptr, a failed realloc leaves it untouched.
         throw std::bad_alloc();
     }
     return new_ptr;
-- 
2.43.0


From 941742805d3481f319afdfc25b7949f5031a8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 13/54] fix: string functions that allocate are not noexcept

---
 string/string.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 98f7d52..74270bd 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -330,7 +330,7 @@ class string_core
 
     explicit string_core(const std::allocator<Char>& /*noused*/) noexcept { reset(); }
 
-    string_core(const string_core& rhs) noexcept {
+    string_core(const string_core& rhs) {
         Assert(&rhs != this, "self copy is not allowed");
         // make sure all copy occur in same thread, or from a unshared string
         // if rhs is a unshared string, set the cpu_ to current thread_id
@@ -443,7 +443,7 @@ class string_core
 
     [[nodiscard]] auto data() noexcept -> Char* { return c_str(); }
 
-    auto mutableData() noexcept -> Char* {
+    auto mutableData() -> Char* {
         switch (category()) {
             case Category::isSmall:
                 return small_;
@@ -708,7 +708,7 @@ class string_core
     }
 
     void copySmall(const string_core& /*rhs*/) noexcept;
-    void copyMedium(const string_core& /*rhs*/) noexcept;
+    void copyMedium(const string_core& /*rhs*/);
     void copyLarge(const string_core& /*rhs*/) noexcept;
 
     void initSmall(const Char* data, size_t size) noexcept;
@@ -744,7 +744,7 @@ inline void string_core<Char>::copySmall(const string_core& rhs) noexcept {
 }
 
 template <class Char>
-void string_core<Char>::copyMedium(const string_core& rhs) noexcept {
+void string_core<Char>::copyMedium(const string_core& rhs) {
     // Medium strings are copied eagerly. Don't forget to allocate
     // one extra Char for the null terminator.
     //    auto const allocSize = goodMallocSize((1 + rhs.ml_.size_) * sizeof(Char));
@@ -1219,25 +1219,25 @@ class basic_string
     operator std::basic_string_view<value_type, traits_type>() const noexcept { return {data(), size()}; }
 
     // C++11 21.4.3 iterators:
-    auto begin() noexcept -> iterator { return store_.mutableData(); }
+    auto begin() -> iterator { return store_.mutableData(); }
 
     [[nodiscard]] auto begin() const noexcept -> const_iterator { return store_.data(); }
 
     [[nodiscard]] auto cbegin() const noexcept -> const_iterator { return begin(); }
 
-    auto end() noexcept -> iterator { return store_.mutableData() + store_.size(); }
+    auto end() -> iterator { return store_.mutableData() + store_.size(); }
 
     [[nodiscard]] auto end() const noexcept -> const_iterator { return store_.data() + store_.size(); }
 
     [[nodiscard]] auto cend() const noexcept -> const_iterator { return end(); }
 
-    auto rbegin() noexcept -> reverse_iterator { return reverse_iterator(end()); }
+    auto rbegin() -> reverse_iterator { return reverse_iterator(end()); }
 
     [[nodiscard]] auto rbegin() const noexcept -> const_reverse_iterator { return const_reverse_iterator(end()); }
 
     [[nodiscard]] auto crbegin() const noexcept -> const_reverse_iterator { return rbegin(); }
 
-    auto rend() noexcept -> reverse_iterator { return reverse_iterator(begin()); }
+    auto rend() -> reverse_iterator { return reverse_iterator(begin()); }
 
     [[nodiscard]] auto rend() const noexcept -> const_reverse_iterator { return const_reverse_iterator(begin()); }
 
@@ -1251,13 +1251,13 @@ class basic_string
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    auto front() noexcept -> value_type& { return *begin(); }
-    auto back() noexcept -> value_type& {
+    auto front() -> value_type& { return *begin(); }
+    auto back() -> value_type& {
         Assert(!empty(), "back() called on empty string");
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    void pop_back() noexcept {
+    void pop_back() {
         Assert(!empty(), "pop_back() called on empty string");
         store_.shrink(1);
     }
@@ -1296,7 +1296,7 @@ class basic_string
     // C++11 21.4.5 element access:
     auto operator[](size_type pos) const noexcept -> const_reference { return *(begin() + pos); }
 
-    auto operator[](size_type pos) noexcept -> reference { return *(begin() + pos); }
+    auto operator[](size_type pos) -> reference { return *(begin() + pos); }
 
     [[nodiscard]] auto at(size_type n) const -> const_reference {
         enforce<std::out_of_range>(n < size(), "");
@@ -2770,8 +2770,8 @@ struct formatter<stdb::memory::string> : formatter<string_view>
 
 namespace std {
 
-[[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) noexcept -> std::string {
-    return {str.data()};
+[[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) -> std::string {
+    return {str.data(), str.size()};
 }
 
 }  // namespace std
-- 
2.43.0


From f9bd0412f4a70e33bd06f49cbfd4d722a65c68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 14/54] fix: growing a string beyond size_t throws length_error

---
 string/arena_string.hpp | 8 ++++++--
 string/string.hpp       | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 011e18b..d4ccfed 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -792,7 +792,9 @@ inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGr
     size_t newSz = 0;
     if (category() == Category::isSmall) {
         oldSz = smallSize();
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) [[unlikely]] {
+            throw(std::length_error(""));
+        }
         if (newSz <= maxSmallSize) {
             setSmallSize(newSz);
             return small_ + oldSz;  // NOLINT
@@ -800,7 +802,9 @@ inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGr
         reserveSmall(expGrowth ? std::max(newSz, 2 * maxSmallSize) : newSz);
     } else {
         oldSz = ml_.size_;  // NOLINT
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) [[unlikely]] {
+            throw(std::length_error(""));
+        }
         if (newSz > capacity()) [[unlikely]] {
             // ensures not shared
             reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);
diff --git a/string/string.hpp b/string/string.hpp
index 74270bd..9ff0693 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -955,7 +955,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
     size_t newSz = 0;
     if (category() == Category::isSmall) {
         oldSz = smallSize();
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) [[unlikely]] {
+            throw(std::length_error(""));
+        }
         if (!disableSSO && newSz <= maxSmallSize) {
             setSmallSize(newSz);
             return small_ + oldSz;
@@ -963,7 +965,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
         reserveSmall(expGrowth ? std::max(newSz, 2 * maxSmallSize) : newSz, disableSSO);
     } else {
         oldSz = ml_.size_;
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) [[unlikely]] {
+            throw(std::length_error(""));
+        }
         if (newSz > capacity()) [[unlikely]] {
             // ensures not shared
             reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);
-- 
2.43.0


From 177218b1b949c835b1d484b0b4975f8519a517d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 15/54] fix: string::contains(string_view) respects the length
 of the view

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 9ff0693..e00fb02 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1611,7 +1611,7 @@ class basic_string
     }
 
     [[nodiscard]] auto contains(std::basic_string_view<value_type> str) const noexcept -> bool {
-        return find(str.data()) != basic_string::npos;
+        return find(str.data(), 0, str.size()) != basic_string::npos;
     }
 
     [[nodiscard]] auto contains(const basic_string& str) const noexcept -> bool {
-- 
2.43.0


From 086399dcaaed55e5837ce3e13eeb315521e4d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 16/54] fix: string::assign keeps the content when memory runs
 out

---
 string/string.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index e00fb02..aa1217a 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1908,10 +1908,15 @@ auto basic_string<E, T, A, S>::assign(const value_type* s, size_type n) -> basic
     } else {
         // If n is larger than size(), s cannot alias this string's
         // storage.
-        resize(0);
         // Do not use exponential growth here: assign() should be tight,
         // to mirror the behavior of the equivalent constructor.
-        string_detail::podCopy(s, s + n, store_.expandNoinit(n));
+        if (n > capacity()) {
+            // the content must survive if there is no memory for the new one.
+            basic_string(s, n, get_allocator()).swap(*this);
+        } else {
+            resize(0);
+            string_detail::podCopy(s, s + n, store_.expandNoinit(n));
+        }
     }
 
     Assert(size() == n, "assign() failed to assign the string size to n");
-- 
2.43.0


From 61c0b6d315e41ea3ca8681f99b4ab2df9bdf0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 17/54] fix: string::replace keeps the content when memory runs
 out

---
 string/string.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index aa1217a..b3bf81b 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2099,8 +2099,10 @@ inline auto basic_string<E, T, A, S>::replaceImplDiscr(iterator i1, iterator i2,
         std::fill(i1, i1 + n2, c);
         erase(i1 + n2, i2);
     } else {
-        std::fill(i1, i2, c);
+        // insert may throw, so do it before any char was overwritten.
+        const size_type pos = size_t(i1 - begin());
         insert(i2, n2 - n1, c);
+        std::fill(begin() + pos, begin() + pos + n1, c);
     }
     Assert(isSane(), "replaceImplDiscr() failed to make the string is Sane");
     return *this;
@@ -2157,8 +2159,11 @@ inline void basic_string<E, T, A, S>::replaceImpl(iterator i1, iterator i2, FwdI
         erase(i1 + n2, i2);
     } else {
         // grows
-        s1 = string_detail::copy_n(s1, n1, i1).first;
-        insert(i2, s1, s2);
+        // insert may throw, so do it before any char was overwritten.
+        const size_type pos = size_t(i1 - begin());
+        const auto mid = std::next(s1, n1);
+        insert(i2, mid, s2);
+        std::copy(s1, mid, begin() + pos);
     }
     Assert(isSane(), "after replaceImpl, the string was not Sane");
 }
-- 
2.43.0


From a57e05253df508c7d054a18b736bf729e3384354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 18/54] fix: inserting a part of a string into itself

---
 string/string.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/string/string.hpp b/string/string.hpp
index b3bf81b..d9b2f61 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2056,6 +2056,15 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
     auto n = std::distance(s1, s2);
     Assert(n >= 0, "insert input range is invalid");
 
+    if constexpr (std::is_same_v<FwdIterator, iterator> || std::is_same_v<FwdIterator, const_iterator>) {
+        std::less_equal<const value_type*> le{};
+        if (n > 0 && le(data(), s1) && !le(data() + size(), s1)) {
+            // The source is a part of this string, it would be moved (or freed) before it is copied.
+            const basic_string temp(static_cast<const_iterator>(s1), static_cast<const_iterator>(s2), get_allocator());
+            return insert(i, temp.data(), temp.data() + temp.size());
+        }
+    }
+
     auto oldSize = size();
     store_.expandNoinit(size_t(n), /* expGrowth = */ true);
     auto b = begin();
-- 
2.43.0


From 325cdebd998c113c62bf5f73657ebc02dd19a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 19/54] fix: arena strings keep content and allocator together
 in swap, replace and assignment of a char

---
 string/arena_string.hpp | 8 ++++++++
 string/string.hpp       | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index d4ccfed..31bbfa9 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -187,6 +187,14 @@ class arena_string_core
         auto const t = ml_;  // NOLINT
         ml_ = rhs.ml_;       // NOLINT
         rhs.ml_ = t;         // NOLINT
+        // The content must stay with the allocator it was allocated by.
+        // polymorphic_allocator is not assignable, so rebuild both of them.
+        auto const lhs_allocator = allocator_;
+        auto const rhs_allocator = rhs.allocator_;
+        std::destroy_at(&allocator_);
+        std::construct_at(&allocator_, rhs_allocator);
+        std::destroy_at(&rhs.allocator_);
+        std::construct_at(&rhs.allocator_, lhs_allocator);
 #if not defined(NDEBUG) && defined(CROSS_THREAD_CHECKING)
         std::swap(cpu_, rhs.cpu_);
 #endif
diff --git a/string/string.hpp b/string/string.hpp
index d9b2f61..204f96a 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1802,7 +1802,7 @@ inline auto basic_string<E, T, A, S>::operator=(value_type c) -> basic_string<E,
     if (empty()) {
         store_.expandNoinit(1);
     } else if (store_.isShared()) {
-        basic_string(1, c).swap(*this);
+        basic_string(1, c, get_allocator()).swap(*this);
         return *this;
     } else {
         store_.shrink(size() - 1);
@@ -2137,7 +2137,7 @@ inline auto basic_string<E, T, A, S>::replaceAliased(iterator i1, iterator i2, F
         return false;
     }
     // Aliased replace, copy to new string
-    basic_string temp;
+    basic_string temp(get_allocator());
     temp.reserve(size() - size_t(i2 - i1) + size_t(std::distance(s1, s2)));
     temp.append(begin(), i1).append(s1, s2).append(i2, end());
     swap(temp);
-- 
2.43.0


From 9b72558facb9faf3cfe1839ad0883b68a71ca08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 20/54] fix: getline on a failed or a throwing stream

---
 string/string.hpp | 60 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 204f96a..5b7774f 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1928,31 +1928,49 @@ inline auto basic_string<E, T, A, S>::getlineImpl(istream_type& is, value_type d
   typename basic_string<E, T, A, S>::istream_type& {
     Invariant checker(*this);
 
-    clear();
-    size_t size = 0;
-    while (true) {
-        size_t avail = capacity() - size;
-        // string has 1 byte extra capacity for the null terminator,
-        // and getline null-terminates the read string.
-        is.getline(store_.expandNoinit(avail), avail + 1, delim);
-        size += is.gcount();
-
-        if (is.bad() || is.eof() || !is.fail()) {
-            // Done by either failure, end of file, or normal read.
-            if (!is.bad() && !is.eof()) {
-                --size;  // gcount() also accounts for the delimiter.
+    if (!is.good()) {
+        // Nothing can be read, the string and the state of the stream must survive.
+        is.setstate(istream_type::failbit);
+        return is;
+    }
+
+    // A full buffer is reported by failbit, that is not a failure of the whole read.
+    // So the stream must not throw until the read is done.
+    const auto exceptions = is.exceptions();
+    is.exceptions(istream_type::goodbit);
+    try {
+        clear();
+        size_t size = 0;
+        while (true) {
+            size_t avail = capacity() - size;
+            // string has 1 byte extra capacity for the null terminator,
+            // and getline null-terminates the read string.
+            is.getline(store_.expandNoinit(avail), avail + 1, delim);
+            size += is.gcount();
+
+            if (is.bad() || is.eof() || !is.fail()) {
+                // Done by either failure, end of file, or normal read.
+                if (!is.bad() && !is.eof()) {
+                    --size;  // gcount() also accounts for the delimiter.
+                }
+                resize(size);
+                break;
             }
-            resize(size);
-            break;
-        }
 
-        Assert(size == this->size(), "getlineImpl() failed to walk through the total str size");
-        Assert(size == capacity(), "getlineImpl() failed to walk through the total capacity");
-        // Start at minimum allocation 63 + terminator = 64.
-        reserve(std::max<size_t>(63, 3 * size / 2));
-        // Clear the error so we can continue reading.
+            Assert(size == this->size(), "getlineImpl() failed to walk through the total str size");
+            Assert(size == capacity(), "getlineImpl() failed to walk through the total capacity");
+            // Clear the error so we can continue reading.
+            is.clear();
+            // Start at minimum allocation 63 + terminator = 64.
+            reserve(std::max<size_t>(63, 3 * size / 2));
+        }
+    } catch (...) {
         is.clear();
+        is.exceptions(exceptions);
+        throw;
     }
+    // throws if the stream is asked to throw on the final state.
+    is.exceptions(exceptions);
     return is;
 }
 
-- 
2.43.0


From c2ba08f8655743aa8b650d60e5098b1b31d46699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 21/54] fix: operator>> resets the width and reports a failing
 stream buffer

---
 string/string.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 5b7774f..1e47179 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2556,18 +2556,26 @@ inline auto operator>>(
         if (n <= 0) {
             n = int64_t(str.max_size());
         }
-        str.erase();
-        for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n); ++extracted) {
-            if (got == T::eof()) {
-                err |= _istream_type::eofbit;
-                is.width(0);
-                break;
-            }
-            if (isspace(got)) {
-                break;
+        try {
+            str.erase();
+            for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n);) {
+                if (got == T::eof()) {
+                    err |= _istream_type::eofbit;
+                    break;
+                }
+                if (isspace(got)) {
+                    break;
+                }
+                str.push_back(got);
+                ++extracted;
+                got = is.rdbuf()->snextc();
             }
-            str.push_back(got);
-            got = is.rdbuf()->snextc();
+            is.width(0);
+        } catch (const std::bad_alloc&) {
+            throw;
+        } catch (...) {
+            // the buffer of the stream failed
+            err |= _istream_type::badbit;
         }
     }
     if (!extracted) {
-- 
2.43.0


From fef9342c3957e9146ae75b6ff7b9d08784fce9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 22/54] fix: appending a string_view to an arena string

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 1e47179..9f1c3cc 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1315,7 +1315,7 @@ class basic_string
     // C++11 21.4.6 modifiers:
     auto operator+=(const basic_string& str) -> basic_string& { return append(str); }
 
-    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str); }
+    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str.data(), str.size()); }
 
     auto operator+=(const value_type* s) -> basic_string& { return append(s); }
 
-- 
2.43.0


From abb0f1246388dc66afe3ada0b50f62cdee9e7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 23/54] fix: a vector keeps its elements when memory runs out

---
 container/stdb_vector.hpp | 40 ++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 072e086..a29aa79 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -255,6 +255,15 @@ template <typename T>
     }
 }
 
+// allocate an uninitialized buffer for cap elements, throw std::bad_alloc if there is not enough memory.
+template <typename T>
+[[nodiscard]] inline auto allocate_buffer(std::size_t cap) -> T* {
+    if (auto* buffer = static_cast<T*>(std::malloc(cap * sizeof(T))); buffer != nullptr) [[likely]] {
+        return buffer;
+    }
+    throw std::bad_alloc();
+}
+
 /*
  * realloc memory, if failed, throw std::bad_alloc, then move the old memory to new memory.
  * if new_size < old_size, the extra elements will be destroyed.
@@ -267,13 +276,10 @@ auto realloc_with_move(T*& __restrict__ ptr, std::size_t old_size, std::size_t n
     // after shrink_to_fit with zero size, the ptr may be nullptr.
     if (ptr == nullptr) {
         Assert(old_size == 0, "ptr is nullptr, but old_size is not zero");
-        return ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
+        return ptr = allocate_buffer<T>(new_size);
     }
     Assert(new_size > 0, "new_size should be larger than zero");
-    auto new_ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
-    if (new_ptr == nullptr) [[unlikely]] {
-        throw std::bad_alloc();
-    }
+    auto new_ptr = allocate_buffer<T>(new_size);
     T* new_finish = move_range_without_overlap(new_ptr, ptr, ptr + std::min(old_size, new_size));
     std::free(ptr);
     ptr = new_ptr;
@@ -303,11 +309,9 @@ class core
    public:
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
-        if (_start = static_cast<T*>(std::malloc(cap * sizeof(T))); _start != nullptr) [[likely]] {
-            _edge = _start + cap;
-        } else {
-            throw std::bad_alloc();
-        }
+        // if allocate_buffer throws, the current buffer should be untouched.
+        _start = allocate_buffer<T>(cap);
+        _edge = _start + cap;
     }
 
     core() : _start(nullptr), _finish(nullptr), _edge(nullptr) {}
@@ -347,12 +351,14 @@ class core
         auto new_size = other.size();
         if (new_size > capacity()) {
             // if other's size is larger than current capacity, we need to reallocate memory
+            auto* old_start = _start;
+            auto* old_finish = _finish;
+            // allocate new memory, the old data is still there if it throws
+            allocate(new_size);
             // destroy old data
-            destroy_range(_start, _finish);
+            destroy_range(old_start, old_finish);
             // free old memory
-            std::free(_start);
-            // allocate new memory
-            allocate(new_size);
+            std::free(old_start);
             // copy data
             _finish = copy_range(_start, other._start, other._finish);
         } else {
@@ -450,8 +456,12 @@ class core
     }
 
     [[gnu::always_inline]] auto realloc_drop_old_data(size_type new_cap) -> T* {
-        this->~core();
+        auto* old_start = _start;
+        auto* old_finish = _finish;
+        // the old data is still there if it throws
         allocate(new_cap);
+        destroy_range(old_start, old_finish);
+        std::free(old_start);
         return _start;
     }
 
-- 
2.43.0


From e45636030cc8a875e6ef92a00104f297c87f43bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 24/54] fix: vector sizes that overflow throw length_error,
 get_writebuffer reserves room behind the elements

---
 container/stdb_vector.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index a29aa79..887e2c1 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -258,6 +258,10 @@ template <typename T>
 // allocate an uninitialized buffer for cap elements, throw std::bad_alloc if there is not enough memory.
 template <typename T>
 [[nodiscard]] inline auto allocate_buffer(std::size_t cap) -> T* {
+    if (cap > kFastVectorMaxSize / sizeof(T)) [[unlikely]] {
+        // cap * sizeof(T) may wrap around.
+        throw std::length_error("stdb_vector: the capacity is larger than max_size()");
+    }
     if (auto* buffer = static_cast<T*>(std::malloc(cap * sizeof(T))); buffer != nullptr) [[likely]] {
         return buffer;
     }
@@ -901,8 +905,8 @@ class stdb_vector : public core<T>
     void fill(size_type (*filler)(T*)) {
         if constexpr (safety == Safety::Safe) {
             auto to_fill = filler(nullptr);
-            if (to_fill + this->size() > this->capacity()) [[unlikely]] {
-                this->realloc_with_old_data(compute_new_capacity(to_fill + size()));
+            if (to_fill > this->capacity() - this->size()) [[unlikely]] {
+                this->realloc_with_old_data(compute_new_capacity(checked_size(to_fill)));
             }
             this->_finish += filler(this->_finish);
         } else {
@@ -916,8 +920,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
-            if (buf_size + this->_finish > this->_edge) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size));
+            if (buf_size > this->capacity() - this->size()) {
+                this->realloc_with_old_data(compute_new_capacity(checked_size(buf_size)));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
@@ -1271,9 +1275,9 @@ class stdb_vector : public core<T>
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
-            if (size + count > this->capacity()) [[unlikely]] {
+            if (count > this->capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-                reserve(compute_new_capacity(size + count));
+                reserve(compute_new_capacity(checked_size(count)));
                 pos_ptr = this->_start + pos_index;
             }
         }
@@ -1302,9 +1306,9 @@ class stdb_vector : public core<T>
 
         if constexpr (safety == Safety::Safe) {
             auto size = this->size();
-            if ((size + size_to_insert) > capacity()) [[unlikely]] {
+            if (size_to_insert > capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-                reserve(compute_new_capacity(size + size_to_insert));
+                reserve(compute_new_capacity(checked_size(size_to_insert)));
                 // calculate the new pos_ptr
                 pos_ptr = this->_start + pos_index;
             }
@@ -1379,6 +1383,13 @@ class stdb_vector : public core<T>
     }
 
    private:
+    // size() + count, throw std::length_error if it can not be the size of a vector.
+    [[nodiscard]] auto checked_size(size_type count) const -> size_type {
+        if (count > max_size() - this->size()) [[unlikely]] {
+            throw std::length_error("stdb_vector: the size is larger than max_size()");
+        }
+        return this->size() + count;
+    }
     [[nodiscard, gnu::always_inline]] inline auto compute_new_capacity(size_type new_size) const -> size_type {
         Assert(new_size > capacity(), "new_size should larger than old cap, or no need to compute new cap");
         if (auto next_capacity = compute_next_capacity(); next_capacity > new_size) {
-- 
2.43.0


From b73220630bd182f64a357c9559c77f4ddf35d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 25/54] fix: the first element of more than 128KB can be added
 to a vector

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 887e2c1..46960a5 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1408,7 +1408,7 @@ class stdb_vector : public core<T>
         // the capacity is larger than a page,
         // so we can just double it to use whole pages.
         // NOLINTNEXTLINE
-        if (cap >= 4096 * 32 / sizeof(T)) [[likely]] {
+        if (cap > 0 and cap >= 4096 * 32 / sizeof(T)) [[likely]] {
             return cap * 2;
         }
         return core<T>::kFastVectorInitCapacity;
-- 
2.43.0


From 8baaa406bc02125395f259ff680922326d5dfe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 26/54] fix: filling a vector from iterators that are not
 pointers to its element type

---
 container/stdb_vector.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 46960a5..5e9a8fb 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -40,6 +40,7 @@
 #include <cstring>
 #include <iterator>
 #include <limits>
+#include <memory>
 #include <new>
 #include <span>
 #include <stdexcept>
@@ -161,18 +162,18 @@ template <typename T>
     }
 }
 
-template <typename It>
-concept PointerCompatibleIterator = std::is_pointer_v<It> or std::random_access_iterator<It>;
+// the elements are objects of T in one piece of memory.
+template <typename It, typename T>
+concept PointerCompatibleIterator =
+  (std::is_pointer_v<It> or std::contiguous_iterator<It>)and std::is_same_v<std::iter_value_t<It>, T>;
 
 template <typename T, typename Iterator>
 [[gnu::always_inline]] inline void copy_from_iterator(T* __restrict__ dst, Iterator first, Iterator last) {
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator>) {
-        if (get_ptr_from_iter(first) < get_ptr_from_iter(last)) [[likely]] {
-            std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
-        }
+    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator, T>) {
+        std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         for (; first != last; ++first, ++dst) {
             new (dst) T(*first);
-- 
2.43.0


From b86d2e51d6b9771be66dc2904c295cd766d4dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 27/54] fix: elements marked Relocatable are copied by their
 copy constructor

---
 container/stdb_vector.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 5e9a8fb..749226d 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -127,7 +127,7 @@ template <typename T>
     Assert(dst != src, "copy_range should not be called with same dst and src");
     Assert(src < src_end, "src should always before src_end");
     // if is trivial_copyable, use memcpy is faster.
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
@@ -142,7 +142,7 @@ template <typename T>
     requires std::is_trivially_copyable_v<T> or std::is_nothrow_move_constructible_v<T>
 [[gnu::always_inline]] inline void copy_value(T* __restrict__ dst, T value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -154,7 +154,7 @@ template <typename T>
     requires std::is_object_v<T>
 [[gnu::always_inline]] inline void copy_cref(T* __restrict__ dst, const T& value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_copy_constructible_v<T>);
@@ -172,7 +172,7 @@ template <typename T, typename Iterator>
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator, T>) {
+    if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator, T>) {
         std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         for (; first != last; ++first, ++dst) {
@@ -506,9 +506,7 @@ class core
         T* dst_end = dst + (_finish - 1 - src);
         if constexpr (IsRelocatable<T>) {
             // trivially backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                *(dst_end--) = *(src_end--);
-            }
+            std::memmove((void*)dst, (void*)src, (size_t)(_finish - src) * sizeof(T));  // NOLINT
         } else if constexpr (std::is_move_constructible_v<T>) {
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -1038,12 +1036,13 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy((void*)dst, (void*)src, sizeof(T));  // NOLINT
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
+                    destroy_ptr(src);
                     ++erased;
                 }
                 ++src;
@@ -1108,12 +1107,13 @@ class stdb_vector : public core<T>
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
-                        *dst = *src;
+                        std::memcpy((void*)dst, (void*)src, sizeof(T));  // NOLINT
                     }
                     ++dst;
                 }
                 // if the *src is equal to the value we want to erase, move forward src only
                 else {
+                    destroy_ptr(src);
                     ++erased;
                 }
                 ++src;
-- 
2.43.0


From beef9572e09eacdfaa0a5f7d295138c775b9ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 28/54] fix: a vector destroys the elements it moved away from

---
 container/stdb_vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 749226d..6995634 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -216,6 +216,7 @@ template <typename T>
     } else if constexpr (std::is_move_constructible_v<T>) {
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            destroy_ptr(src);
         }
         return dst;
     } else {
@@ -244,6 +245,7 @@ template <typename T>
         // call move constructor
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            destroy_ptr(src);
         }
 
     } else {
@@ -512,7 +514,8 @@ class core
             static_assert(std::is_nothrow_move_constructible_v<T>);
             // backward move
             for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                new (dst_end--) T(std::move(*(src_end--)));
+                new (dst_end--) T(std::move(*src_end));
+                destroy_ptr(src_end--);
             }
         } else {
             // backward copy
@@ -1057,6 +1060,7 @@ class stdb_vector : public core<T>
                 if (*src != value) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        destroy_ptr(src);
                     }
                     ++dst;
                 }
@@ -1128,6 +1132,7 @@ class stdb_vector : public core<T>
                 if (!pred(*src)) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        destroy_ptr(src);
                     }
                     ++dst;
                 }
-- 
2.43.0


From c16983aa6829a5834b0648857e4d250ac42380c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 29/54] fix: assigning an empty range and inserting zero
 elements

---
 container/stdb_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 6995634..3c22f56 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -621,7 +621,9 @@ class stdb_vector : public core<T>
         }
         this->_finish = this->_start + count;
         // construct data with value
-        construct_range_with_cref(this->_start, this->_finish, value);
+        if (count > 0) [[likely]] {
+            construct_range_with_cref(this->_start, this->_finish, value);
+        }
     }
 
     template <std::forward_iterator Iterator>
@@ -638,7 +640,7 @@ class stdb_vector : public core<T>
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
-            this->destroy();
+            this->clear();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
                 this->_finish = this->_start + count;
@@ -1276,10 +1278,12 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, size_type count, const_reference value) -> iterator {
-        Assert(count > 0, "count should be larger than 0");
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        if (count == 0) [[unlikely]] {
+            return iterator(pos_ptr);
+        }
         if constexpr (safety == Safety::Safe) {
             if (count > this->capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-- 
2.43.0


From febe51b567d92a4af4ff1c9d6d19636f1386c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 30/54] fix: vector arguments that refer to an element of the
 vector itself

---
 container/stdb_vector.hpp | 41 +++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 3c22f56..31a4104 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -38,6 +38,7 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <functional>
 #include <iterator>
 #include <limits>
 #include <memory>
@@ -419,6 +420,12 @@ class core
         return (size_type)(_edge - _start);
     }
 
+    // value is (a part of) an element of this vector
+    [[nodiscard, gnu::always_inline]] auto owns(const T& value) const noexcept -> bool {
+        std::less<const T*> less{};
+        return !less(std::addressof(value), _start) and less(std::addressof(value), _finish);
+    }
+
     [[nodiscard, gnu::always_inline]] auto full() const noexcept -> bool {
         Assert(_finish <= _edge, "finish should always before edge");
         return _edge == _finish;
@@ -610,6 +617,12 @@ class stdb_vector : public core<T>
     ~stdb_vector() = default;
 
     constexpr void assign(std::size_t count, const T& value) {
+        if (this->owns(value)) [[unlikely]] {
+            // value would be destroyed before it is copied
+            const T copy(value);
+            assign(count, copy);
+            return;
+        }
         // cleanup old data
         if (count > this->capacity()) {
             // if count is larger than current capacity, we need to reallocate memory
@@ -1201,6 +1214,12 @@ class stdb_vector : public core<T>
     }
 
     constexpr void resize(size_type count, const_reference value) {
+        if (count > this->capacity() and this->owns(value)) [[unlikely]] {
+            // value would be gone with the old buffer
+            const T copy(value);
+            resize(count, copy);
+            return;
+        }
         // no checking count == _size, because very unlikely, and it's not a big deal
         if (count > this->size()) {
             if (count > this->capacity()) {
@@ -1222,6 +1241,11 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, const_reference value) -> iterator {
+        if (this->owns(value)) [[unlikely]] {
+            // value would be moved before it is copied
+            const T copy(value);
+            return insert<safety>(pos, copy);
+        }
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
@@ -1278,6 +1302,11 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, size_type count, const_reference value) -> iterator {
+        if (this->owns(value)) [[unlikely]] {
+            // value would be moved before it is copied
+            const T copy(value);
+            return insert<safety>(pos, count, copy);
+        }
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
@@ -1345,6 +1374,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(iterator pos, Args&&... args) -> iterator {
         T* pos_ptr = get_ptr_from_iter(pos);
+        // args may refer to elements of this vector, so use them before any element is moved
+        T value(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 difference_type pos_offset = pos_ptr - this->_start;
@@ -1355,7 +1386,7 @@ class stdb_vector : public core<T>
         }
         Assert(not this->full(), "emplace should not be called with full vector");
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            new (this->_finish++) T(std::move_if_noexcept(value));
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1363,13 +1394,15 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        new (pos_ptr) T(std::move_if_noexcept(value));
         ++this->_finish;
         return iterator(pos_ptr);
     }
 
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(size_type pos, Args&&... args) -> iterator {
+        // args may refer to elements of this vector, so use them before any element is moved
+        T value(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 reserve(compute_next_capacity());
@@ -1379,7 +1412,7 @@ class stdb_vector : public core<T>
         T* pos_ptr = this->_start + pos;
 
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            new (this->_finish++) T(std::move_if_noexcept(value));
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1387,7 +1420,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        new (pos_ptr) T(std::move_if_noexcept(value));
         ++this->_finish;
         return iterator(pos_ptr);
     }
-- 
2.43.0


From 005dcf20e2c81cd743e4c59036a6f05d0c7e803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 31/54] fix: a throwing element constructor leaves a vector
 that can be used and destroyed

---
 container/stdb_vector.hpp | 178 +++++++++++++++++++++++---------------
 1 file changed, 107 insertions(+), 71 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 31a4104..1c41fd8 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -91,6 +91,30 @@ template <typename Iterator>
     }
 }
 
+/*
+ * destroys the elements constructed so far, if the constructor of the next one throws.
+ */
+template <typename T>
+class ConstructGuard
+{
+    T* _first;
+    T* _last;
+
+   public:
+    explicit ConstructGuard(T* first) noexcept : _first(first), _last(first) {}
+    ConstructGuard(const ConstructGuard&) = delete;
+    ConstructGuard(ConstructGuard&&) = delete;
+    auto operator=(const ConstructGuard&) -> ConstructGuard& = delete;
+    auto operator=(ConstructGuard&&) -> ConstructGuard& = delete;
+    [[gnu::always_inline]] void advance() noexcept { ++_last; }
+    [[gnu::always_inline]] void release() noexcept { _last = _first; }
+    ~ConstructGuard() {
+        for (; _first != _last; ++_first) {
+            _first->~T();
+        }
+    }
+};
+
 template <typename T>
 [[gnu::always_inline]] inline void construct_range(T* __restrict__ first, T* __restrict__ last) {
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
@@ -99,9 +123,12 @@ template <typename T>
         // set zero to all bytes.
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
     } else {
+        ConstructGuard<T> guard(first);
         for (; first != last; ++first) {
             new (first) T();
+            guard.advance();
         }
+        guard.release();
     }
 }
 
@@ -115,9 +142,12 @@ template <typename T>
     if constexpr (sizeof(T) == sizeof(char)) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
+        ConstructGuard<T> guard(first);
         for (; first != last; ++first) {
             new (first) T(value);
+            guard.advance();
         }
+        guard.release();
     }
 }
 
@@ -132,9 +162,12 @@ template <typename T>
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
+        ConstructGuard<T> guard(dst);
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(*src);
+            guard.advance();
         }
+        guard.release();
         return dst;
     }
 }
@@ -176,9 +209,12 @@ template <typename T, typename Iterator>
     if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator, T>) {
         std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
     } else {
+        ConstructGuard<T> guard(dst);
         for (; first != last; ++first, ++dst) {
             new (dst) T(*first);
+            guard.advance();
         }
+        guard.release();
     }
 }
 
@@ -208,24 +244,27 @@ template <typename T>
  */
 template <typename T>
 [[gnu::always_inline, nodiscard]] inline auto move_range_without_overlap(T* __restrict__ dst, T* __restrict__ src,
-                                                                         T* __restrict__ src_end) noexcept -> T* {
+                                                                         T* __restrict__ src_end) -> T* {
     Assert(dst != nullptr and src != nullptr, "dst and src can not be nullptr");
     Assert(dst != src, "move_range_without_overlap should make sure dst != src");
     if constexpr (IsRelocatable<T>) {
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
-    } else if constexpr (std::is_move_constructible_v<T>) {
+    } else if constexpr (std::is_nothrow_move_constructible_v<T>) {
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
             destroy_ptr(src);
         }
         return dst;
     } else {
-        static_assert(std::is_copy_constructible_v<T>);
-        for (; src != src_end; ++src, ++dst) {
-            new (dst) T(*src);
-            src->~T();
-        }
+        // keep the elements of src until all of them are copied, because the constructor may throw.
+        ConstructGuard<T> guard(dst);
+        for (auto* cur = src; cur != src_end; ++cur, ++dst) {
+            new (dst) T(std::move_if_noexcept(*cur));
+            guard.advance();
+        }
+        guard.release();
+        destroy_range(src, src_end);
         return dst;
     }
 }
@@ -272,6 +311,11 @@ template <typename T>
     throw std::bad_alloc();
 }
 
+struct BufferDeleter
+{
+    void operator()(void* buffer) const noexcept { std::free(buffer); }
+};
+
 /*
  * realloc memory, if failed, throw std::bad_alloc, then move the old memory to new memory.
  * if new_size < old_size, the extra elements will be destroyed.
@@ -287,10 +331,10 @@ auto realloc_with_move(T*& __restrict__ ptr, std::size_t old_size, std::size_t n
         return ptr = allocate_buffer<T>(new_size);
     }
     Assert(new_size > 0, "new_size should be larger than zero");
-    auto new_ptr = allocate_buffer<T>(new_size);
-    T* new_finish = move_range_without_overlap(new_ptr, ptr, ptr + std::min(old_size, new_size));
+    std::unique_ptr<T, BufferDeleter> new_ptr(allocate_buffer<T>(new_size));
+    T* new_finish = move_range_without_overlap(new_ptr.get(), ptr, ptr + std::min(old_size, new_size));
     std::free(ptr);
-    ptr = new_ptr;
+    ptr = new_ptr.release();
     return new_finish;
 }
 
@@ -335,14 +379,10 @@ class core
         }
     }
 
-    core(const core& rhs) {
+    // delegate, the buffer will be freed by the destructor if copying throws.
+    core(const core& rhs) : core(0, rhs.size()) {
         if (rhs.size() > 0) [[likely]] {
-            allocate(rhs.size());
-            auto size = rhs.size();
-            copy_range(_start, rhs._start, rhs._finish);
-            _finish = _start + size;
-        } else {
-            _start = _finish = _edge = nullptr;
+            _finish = copy_range(_start, rhs._start, rhs._finish);
         }
     }
 
@@ -359,25 +399,17 @@ class core
         auto new_size = other.size();
         if (new_size > capacity()) {
             // if other's size is larger than current capacity, we need to reallocate memory
-            auto* old_start = _start;
-            auto* old_finish = _finish;
-            // allocate new memory, the old data is still there if it throws
-            allocate(new_size);
-            // destroy old data
-            destroy_range(old_start, old_finish);
-            // free old memory
-            std::free(old_start);
-            // copy data
-            _finish = copy_range(_start, other._start, other._finish);
+            // allocate new memory and copy data, the old data is still there if it throws
+            core copy(other);
+            swap(copy);
         } else {
             // if other's size is smaller than current capacity, we can just copy data
             // destroy old data
             destroy_range(_start, _finish);
+            _finish = _start;
             // copy data
             if (new_size > 0) [[likely]] {
                 _finish = copy_range(_start, other._start, other._finish);
-            } else {
-                _finish = _start;
             }
             // _edge is not changed
         }
@@ -454,31 +486,24 @@ class core
         // no check new_cap because it will be checked in caller.
         auto old_size = size();
         Assert(new_cap > old_size, "new_cap should be larger than old_size, or it will cause data loss");
-        // backup old _start, _finish, _edge
-        auto* old_start = _start;
-        auto* old_finish = _finish;
-        allocate(new_cap);
-        // copy old data
-        _finish = _start + old_size;
-        new (_finish++) T(std::forward<Args>(args)...);
+        // the old data is still there if anything throws
+        std::unique_ptr<T, BufferDeleter> new_start(allocate_buffer<T>(new_cap));
+        T* new_back = new_start.get() + old_size;
+        new (new_back) T(std::forward<Args>(args)...);
         if (old_size > 0) {
-            (void)move_range_without_overlap(_start, old_start, old_finish);
+            ConstructGuard<T> guard(new_back);
+            guard.advance();
+            (void)move_range_without_overlap(new_start.get(), _start, _finish);
+            guard.release();
         }
         // free the original buffer finally.
-        std::free(old_start);
+        std::free(_start);
+        _start = new_start.release();
+        _finish = _start + old_size + 1;
+        _edge = _start + new_cap;
         return;
     }
 
-    [[gnu::always_inline]] auto realloc_drop_old_data(size_type new_cap) -> T* {
-        auto* old_start = _start;
-        auto* old_finish = _finish;
-        // the old data is still there if it throws
-        allocate(new_cap);
-        destroy_range(old_start, old_finish);
-        std::free(old_start);
-        return _start;
-    }
-
     [[gnu::always_inline]] void destroy() {
         // if _start, _finish. _edge are nullptr, it was default constructed.
         // just do destroy, it will do nothing.
@@ -567,15 +592,17 @@ class stdb_vector : public core<T>
     /*
      * constructor with capacity
      */
-    constexpr explicit stdb_vector(std::size_t size) : core<T>(size, size) {
+    constexpr explicit stdb_vector(std::size_t size) : core<T>(0, size) {
         if (size > 0) {
-            construct_range(this->_start, this->_finish);
+            construct_range(this->_start, this->_start + size);
+            this->_finish = this->_start + size;
         }
     }
 
-    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(size, size) {
+    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(0, size) {
         if (size > 0) {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_start + size, value);
+            this->_finish = this->_start + size;
         }
     }
 
@@ -587,6 +614,7 @@ class stdb_vector : public core<T>
         Assert((size_type)size <= this->max_size(), "stdb_vector size should be smaller than max_size");
         if (size > 0) [[likely]] {
             this->allocate((size_type)size);  // NOLINT
+            this->_finish = this->_start;
             copy_from_iterator(this->_start, first, last);
             this->_finish = this->_start + size;
         }
@@ -626,16 +654,18 @@ class stdb_vector : public core<T>
         // cleanup old data
         if (count > this->capacity()) {
             // if count is larger than current capacity, we need to reallocate memory
-            this->realloc_drop_old_data(count);
-        } else {
-            // if count is smaller than current capacity, we can just copy data
-            // clear old data
-            this->destroy();
+            // the old data is still there if it throws
+            stdb_vector fresh(count, value);
+            swap(fresh);
+            return;
         }
-        this->_finish = this->_start + count;
+        // if count is smaller than current capacity, we can just copy data
+        // clear old data
+        clear();
         // construct data with value
         if (count > 0) [[likely]] {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_start + count, value);
+            this->_finish = this->_start + count;
         }
     }
 
@@ -647,9 +677,13 @@ class stdb_vector : public core<T>
         auto count = (size_type)size_to_assign;  // NOLINT
         if (count > this->capacity()) {
             // if count is larger than current capacity, we need to reallocate memory
-            this->realloc_drop_old_data(count);
-            copy_from_iterator(this->_start, first, last);
-            this->_finish = this->_start + count;
+            // the old data is still there if it throws
+            stdb_vector fresh;
+            fresh.allocate(count);
+            fresh._finish = fresh._start;
+            copy_from_iterator(fresh._start, first, last);
+            fresh._finish = fresh._start + count;
+            swap(fresh);
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
@@ -954,13 +988,15 @@ class stdb_vector : public core<T>
     void push_back(const value_type& value) {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                copy_cref(this->_finish++, std::forward<const value_type&>(value));
+                copy_cref(this->_finish, std::forward<const value_type&>(value));
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<const_reference>(value));
             }
         } else {
             Assert(not this->full(), "push_back should not be called with full vector");
-            copy_cref(this->_finish++, std::forward<const_reference&>(value));
+            copy_cref(this->_finish, std::forward<const_reference&>(value));
+            ++this->_finish;
         }
     }
 
@@ -983,14 +1019,16 @@ class stdb_vector : public core<T>
     auto emplace_back(Args&&... args) -> iterator {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                this->construct_at(this->_finish++, std::forward<Args>(args)...);
+                this->construct_at(this->_finish, std::forward<Args>(args)...);
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<Args>(args)...);
             }
             return iterator{this->_finish - 1};
         } else {
             Assert(not this->full(), "emplace_back should not be called with full vector");
-            this->construct_at(this->_finish++, std::forward<Args>(args)...);
+            this->construct_at(this->_finish, std::forward<Args>(args)...);
+            ++this->_finish;
             return iterator{this->_finish - 1};
         }
     }
@@ -1198,9 +1236,8 @@ class stdb_vector : public core<T>
             }
             if constexpr (safety == Safety::Safe) {
                 // construct the new elements
-                auto* old_end = this->_finish;
+                construct_range(this->_finish, this->_start + count);
                 this->_finish = this->_start + count;
-                construct_range(old_end, this->_finish);
             } else {
                 this->_finish = this->_start + count;
             }
@@ -1225,10 +1262,9 @@ class stdb_vector : public core<T>
             if (count > this->capacity()) {
                 this->realloc_with_old_data(count);
             }
-            // destroy the elements that are not needed anymore
-            auto* old_end = this->_finish;
+            // construct the new elements
+            construct_range_with_cref(this->_finish, this->_start + count, value);
             this->_finish = this->_start + count;
-            construct_range_with_cref(old_end, this->_finish, value);
         } else {
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
-- 
2.43.0


From 92123b6a6e1ef5cb9df3c9bef7115980b9c9f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 32/54] fix: a throwing element constructor during insert or
 emplace

---
 container/stdb_vector.hpp | 90 +++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 51 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 1c41fd8..884b925 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -551,13 +551,44 @@ class core
             }
         } else {
             // backward copy
+            T* const new_finish = dst_end + 1;
             for (T* src_end = _finish - 1; src_end >= src; --dst_end, --src_end) [[likely]] {
-                new (dst_end) T(*src_end);
+                try {
+                    new (dst_end) T(*src_end);
+                } catch (...) {
+                    // the elements behind src_end can not be brought back
+                    destroy_range(dst_end + 1, new_finish);
+                    _finish = src_end + 1;
+                    throw;
+                }
                 src_end->~T();
             }
         }
     }
 
+    // move [pos, end()) away to make room for count elements, and construct them by construct(pos).
+    // if that throws, the vector keeps its elements, or those before pos if the others can not be brought back.
+    template <typename Construct>
+    [[gnu::always_inline]] void insert_gap(T* pos, size_type count, const Construct& construct) {
+        if (pos + count < _finish) {
+            move_backward(pos + count, pos);
+        } else if (pos < _finish) {
+            (void)move_range_without_overlap(pos + count, pos, _finish);
+        }
+        try {
+            construct(pos);
+        } catch (...) {
+            if constexpr (IsRelocatable<T> or std::is_nothrow_move_constructible_v<T>) {
+                move_range_forward(pos, pos + count, _finish + count);
+            } else {
+                destroy_range(pos + count, _finish + count);
+                _finish = pos;
+            }
+            throw;
+        }
+        _finish += count;
+    }
+
     template <typename... Args>
     [[gnu::always_inline]] void construct_at(T* __restrict__ ptr, Args&&... args) {
         new ((void*)ptr) T(std::forward<Args>(args)...);  // NOLINT
@@ -1292,19 +1323,8 @@ class stdb_vector : public core<T>
             }
         }
         Assert(not this->full(), "insert should not be called with full vector");
-        // insert value to the end pos
-        if (pos_ptr == this->_finish) [[unlikely]] {
-            copy_cref(this->_finish++, value);
-            return iterator(pos_ptr);
-        }
-        // move all elements after pos to the right, with backward direction, because have overlap
-        if (pos_ptr < this->_finish - 1) [[likely]] {
-            this->move_backward(pos_ptr + 1, pos_ptr);
-        } else {
-            this->move_forward(pos_ptr + 1, pos_ptr);
-        }
-        copy_cref(pos_ptr, value);
-        ++this->_finish;
+        // move all elements after pos to the right
+        this->insert_gap(pos_ptr, 1, [&value](T* gap) { copy_cref(gap, value); });
         return iterator(pos_ptr);
     }
 
@@ -1358,14 +1378,8 @@ class stdb_vector : public core<T>
         }
         Assert((size + count) <= this->capacity(),
                "insert should not overflow the vector's cap, the vector should be reserved first");
-        // new elements are inserted after the end pos
-        if (pos_ptr + count >= this->_finish) {
-            this->move_forward(pos_ptr + count, pos_ptr);
-        } else {
-            this->move_backward(pos_ptr + count, pos_ptr);
-        }
-        construct_range_with_cref(pos_ptr, pos_ptr + count, value);
-        this->_finish += count;
+        this->insert_gap(pos_ptr, count,
+                         [&value, count](T* gap) { construct_range_with_cref(gap, gap + count, value); });
         return iterator(pos_ptr);
     }
 
@@ -1391,13 +1405,7 @@ class stdb_vector : public core<T>
 
         Assert((this->size() + size_to_insert) <= this->capacity(),
                "insert should not overflow the vector's cap, the vector should be reserved first");
-        if (pos_ptr + count >= this->_finish) {
-            this->move_forward(pos_ptr + count, pos_ptr);
-        } else {
-            this->move_backward(pos_ptr + count, pos_ptr);
-        }
-        copy_from_iterator(pos_ptr, first, last);
-        this->_finish += size_to_insert;
+        this->insert_gap(pos_ptr, size_to_insert, [&first, &last](T* gap) { copy_from_iterator(gap, first, last); });
         return iterator(pos_ptr);
     }
 
@@ -1421,17 +1429,7 @@ class stdb_vector : public core<T>
             }
         }
         Assert(not this->full(), "emplace should not be called with full vector");
-        if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::move_if_noexcept(value));
-            return iterator(pos_ptr);
-        }
-        if (pos_ptr < this->_finish - 1) [[likely]] {
-            this->move_backward(pos_ptr + 1, pos_ptr);
-        } else {
-            this->move_forward(pos_ptr + 1, pos_ptr);
-        }
-        new (pos_ptr) T(std::move_if_noexcept(value));
-        ++this->_finish;
+        this->insert_gap(pos_ptr, 1, [&value](T* gap) { new (gap) T(std::move_if_noexcept(value)); });
         return iterator(pos_ptr);
     }
 
@@ -1447,17 +1445,7 @@ class stdb_vector : public core<T>
         Assert(not this->full(), "emplace should not be called with full vector");
         T* pos_ptr = this->_start + pos;
 
-        if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::move_if_noexcept(value));
-            return iterator(pos_ptr);
-        }
-        if (pos_ptr < this->_finish - 1) [[likely]] {
-            this->move_backward(pos_ptr + 1, pos_ptr);
-        } else {
-            this->move_forward(pos_ptr + 1, pos_ptr);
-        }
-        new (pos_ptr) T(std::move_if_noexcept(value));
-        ++this->_finish;
+        this->insert_gap(pos_ptr, 1, [&value](T* gap) { new (gap) T(std::move_if_noexcept(value)); });
         return iterator(pos_ptr);
     }
 
-- 
2.43.0


From 674e38d59df7c3952d859d7fcd02cb07817aa20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 33/54] fix: overlapping moves inside a vector are not
 __restrict__

---
 container/stdb_vector.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 884b925..28cee51 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -270,8 +270,7 @@ template <typename T>
 }
 
 template <typename T>
-[[gnu::always_inline]] inline void move_range_forward(T* __restrict__ dst, T* __restrict__ src,
-                                                      T* __restrict__ src_end) {
+[[gnu::always_inline]] inline void move_range_forward(T* dst, T* src, T* src_end) {
     Assert(src != nullptr and dst != nullptr, "src and dst can not be nullptr");
     // src == src_end means no data to move
     // it will occur in erase the whole vector.
@@ -518,19 +517,19 @@ class core
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(T* __restrict__ dst, T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(T* dst, T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(dst, src, _finish);
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(const T* __restrict__ dst, const T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(const T* dst, const T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(const_cast<T*>(dst), const_cast<T*>(src), _finish);  // NOLINT
     }
 
     // move [src, end()) to dst start range from end to front
-    void move_backward(T* __restrict__ dst, T* __restrict__ src) {
+    void move_backward(T* dst, T* src) {
         Assert(dst != nullptr && src != nullptr, "dst and src can not be nullptr");
         // if src == _finish or src == _finish -1, just use move_forward
         Assert(src < (_finish - 1), "src should always before _finish - 1, or can not move backward");
-- 
2.43.0


From 94a35b09a18ce64444a9d79b1b276996ffcb60e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 34/54] fix: a metrics report that runs out of memory has
 reported nothing

---
 arena/metrics.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index ffeb662..282788d 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -240,6 +240,17 @@ struct LocalArenaMetrics
     }
 
     void report_to_global_metrics() {
+        {
+            const std::lock_guard<std::mutex> guard(global_arena_metrics.arena_alloc_mutex);
+            // a new counter needs memory, so all of them are created before anything is added: a report that fails has
+            // reported nothing and can be repeated.
+            for (const auto& [loc, count] : arena_alloc_counter) {
+                global_arena_metrics.arena_alloc_counter.try_emplace(loc);
+            }
+            for (const auto& [loc, count] : arena_alloc_counter) {
+                global_arena_metrics.arena_alloc_counter.at(loc).fetch_add(count, std::memory_order::relaxed);
+            }
+        }
         // only guaranteed atomicity with `relaxed` order and is enough
         global_arena_metrics.init_count.fetch_add(init_count, std::memory_order::relaxed);
         global_arena_metrics.reset_count.fetch_add(reset_count, std::memory_order::relaxed);
@@ -258,12 +269,6 @@ struct LocalArenaMetrics
             global_arena_metrics.destruct_lifetime_bucket_counter.at(i).fetch_add(
               destruct_lifetime_bucket_counter.at(i), std::memory_order::relaxed);
         }
-        {
-            const std::lock_guard<std::mutex> guard(global_arena_metrics.arena_alloc_mutex);
-            for (const auto& [loc, count] : arena_alloc_counter) {
-                global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
-            }
-        }
 
         reset();
     };
-- 
2.43.0


From 1bd977b536033b7690c7578dc1a10df28f2cd803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 35/54] fix: filling a vector of one-byte class types calls
 their copy constructor

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 28cee51..bf022b1 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -139,7 +139,7 @@ template <typename T>
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
     static_assert(std::is_copy_constructible_v<T>);
-    if constexpr (sizeof(T) == sizeof(char)) {
+    if constexpr (sizeof(T) == sizeof(char) and (std::is_integral_v<T> or std::is_enum_v<T>)) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         ConstructGuard<T> guard(first);
-- 
2.43.0


From 68ea8a97a061d1ef14e037edd0068b1a3fc08a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 36/54] fix: elements added by resize and by the sizing
 constructor are value-initialised

---
 container/stdb_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index bf022b1..1869884 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -119,9 +119,12 @@ template <typename T>
 [[gnu::always_inline]] inline void construct_range(T* __restrict__ first, T* __restrict__ last) {
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
-    if constexpr (IsZeroInitable<T>) {
+    if constexpr (ZeroInitable<T>::value) {
         // set zero to all bytes.
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
+    } else if constexpr (IsZeroInitable<T>) {
+        // not always zero bytes: a null pointer to a member is not.
+        std::uninitialized_value_construct(first, last);
     } else {
         ConstructGuard<T> guard(first);
         for (; first != last; ++first) {
-- 
2.43.0


From f3adf79759431f42a56e5781c0f7985281a74034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 37/54] fix: an exception while elements are removed leaves a
 vector without holes

---
 container/stdb_vector.hpp | 75 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 9 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 1869884..027403d 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -519,16 +519,53 @@ class core
         return kFastVectorMaxSize / sizeof(T);
     }
 
+    // while elements are removed, there are none in [dst, src). if anything throws then, close that gap, or drop the
+    // elements behind it if they can not be moved.
+    class GapGuard
+    {
+       public:
+        GapGuard(core& vec, T*& dst, T*& src) noexcept : _vec(vec), _dst(dst), _src(src) {}
+        GapGuard(const GapGuard&) = delete;
+        auto operator=(const GapGuard&) -> GapGuard& = delete;
+        ~GapGuard() {
+            if (_released or _dst == _src) {
+                return;
+            }
+            if constexpr (IsRelocatable<T> or std::is_nothrow_move_constructible_v<T>) {
+                move_range_forward(_dst, _src, _vec._finish);
+                _vec._finish -= _src - _dst;
+            } else {
+                destroy_range(_src, _vec._finish);
+                _vec._finish = _dst;
+            }
+        }
+        void release() noexcept { _released = true; }
+
+       private:
+        core& _vec;
+        T*& _dst;
+        T*& _src;
+        bool _released = false;
+    };
+
     // move [src, end()) to dst start range from front to end
     [[gnu::always_inline]] void move_forward(T* dst, T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
-        move_range_forward(dst, src, _finish);
+        if constexpr (IsRelocatable<T> or std::is_move_constructible_v<T>) {
+            move_range_forward(dst, src, _finish);
+        } else {
+            GapGuard guard(*this, dst, src);
+            for (; src != _finish; ++src, ++dst) {
+                new (dst) T(*src);
+                destroy_ptr(src);
+            }
+            guard.release();
+        }
     }
 
     // move [src, end()) to dst start range from front to end
     [[gnu::always_inline]] void move_forward(const T* dst, const T* src) {
-        Assert(dst != src, "move_forward should not be called with same dst and src");
-        move_range_forward(const_cast<T*>(dst), const_cast<T*>(src), _finish);  // NOLINT
+        move_forward(const_cast<T*>(dst), const_cast<T*>(src));  // NOLINT
     }
 
     // move [src, end()) to dst start range from end to front
@@ -1121,7 +1158,10 @@ class stdb_vector : public core<T>
     auto erase(const value_type& value) -> size_type {  // NOLINT
         if constexpr (IsRelocatable<T>) {
             size_t erased = 0;
-            for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
+            T* dst = this->_start;
+            T* src = this->_start;
+            typename core<T>::GapGuard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
@@ -1136,12 +1176,15 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
+            guard.release();
             this->_finish -= erased;
             return erased;
         } else if constexpr (std::is_move_constructible_v<T>) {
             size_t erased = 0;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            typename core<T>::GapGuard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
@@ -1157,13 +1200,16 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
+            guard.release();
             this->_finish -= erased;
             return erased;
         } else {
             static_assert(std::is_copy_constructible_v<T>, "Cannot erase from a vector of non-copyable types");
             size_t erased = 0;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            typename core<T>::GapGuard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
@@ -1180,6 +1226,7 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
+            guard.release();
             this->_finish -= erased;
             return erased;
         }
@@ -1193,7 +1240,10 @@ class stdb_vector : public core<T>
     auto erase_if(Pred pred) -> size_type {  // NOLINT
         if constexpr (IsRelocatable<T>) {
             size_t erased = 0;
-            for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
+            T* dst = this->_start;
+            T* src = this->_start;
+            typename core<T>::GapGuard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
@@ -1208,12 +1258,15 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
+            guard.release();
             this->_finish -= erased;
             return erased;
         } else if constexpr (std::is_move_constructible_v<T>) {
             size_t erased = 0;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            typename core<T>::GapGuard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
@@ -1229,13 +1282,16 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
+            guard.release();
             this->_finish -= erased;
             return erased;
         } else {
             static_assert(std::is_copy_constructible_v<T>, "Cannot erase from a vector of non-copyable types");
             size_t erased = 0;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            typename core<T>::GapGuard guard(*this, dst, src);
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
@@ -1251,6 +1307,7 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
+            guard.release();
             this->_finish -= erased;
             return erased;
         }
-- 
2.43.0


From c7077e0b7be51dfc6915685a4a71575d12788b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 38/54] fix: a rejected or failed option declaration leaves the
 parser as it was

---
 optparse/optparse.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 1437a65..aa47427 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -124,26 +124,30 @@ auto OptionParser::extract_arg_type(const string& arg) const -> OptionType {
 }
 
 auto OptionParser::add_option(stdb::optparse::Option option) -> Option& {
-    _options.emplace_back(std::move(option));
-    // register all names for the option.
-    for (const auto& name : _options.back().names()) {
+    // register all names for the option on copies, so that a rejected or failed registration leaves the parser as it was.
+    auto short_option_map = _short_option_map;
+    auto long_option_map = _long_option_map;
+    for (const auto& name : option.names()) {
         auto type = extract_option_type(name);
         if (type == OptionType::ShortOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _short_option_map.contains(name)) {
+            if (_conflict_handler == ConflictHandler::Error and short_option_map.contains(name)) {
                 throw std::logic_error(fmt::format("Short option {} is already registered", name));
             }
             // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _short_option_map[name] = _options.size() - 1;
+            short_option_map[name] = _options.size();
         } else if (type == OptionType::LongOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _long_option_map.contains(name)) {
+            if (_conflict_handler == ConflictHandler::Error and long_option_map.contains(name)) {
                 throw std::logic_error(fmt::format("Long option {} is already registered", name));
             }
             // if the ConflictHandler is Replace, we will replace the old option with the new one.
-            _long_option_map[name] = _options.size() - 1;
+            long_option_map[name] = _options.size();
         } else {
             throw std::logic_error(fmt::format("Invalid option name: {}", name));
         }
     }
+    _options.emplace_back(std::move(option));
+    _short_option_map.swap(short_option_map);
+    _long_option_map.swap(long_option_map);
 
     return _options.back();
 }
-- 
2.43.0


From 56e4a487d0658c403bbd54bf430fe02f41a0b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 39/54] fix: an option value without a number is zero instead
 of indeterminate

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index aa47427..e087fe3 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -279,7 +279,7 @@ concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std:
 
 template <OptValue T>
 auto parse_string(const string& str) -> T {
-    T val;
+    T val{};
     std::stringstream sst(str.data());
     sst >> val;
     return val;
-- 
2.43.0


From b345f0b6a04b097247001ac515d930ce3a4baa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 40/54] fix: parsing does not erase the version of the program

---
 optparse/optparse.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index e087fe3..21ce172 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -189,7 +189,9 @@ auto OptionParser::add_usage_option(string usage_msg) -> void {
 }
 
 auto OptionParser::add_version_option(stdb::optparse::string version_msg) -> void {
-    _version = std::move(version_msg);
+    if (not version_msg.empty()) {
+        _version = std::move(version_msg);
+    }
     auto short_version_name = fmt::format("{}v", _prefix);
     auto long_version_name = fmt::format("{}version", _long_prefix);
     if (not _short_option_map.contains(short_version_name) and not _long_option_map.contains(long_version_name)) {
-- 
2.43.0


From c0fa0f07395ba9c60a32d33654028a36b3ade511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 41/54] fix: options of a copied or moved parser do not use the
 parser they were declared on

---
 optparse/optparse.cc  | 8 +++++---
 optparse/optparse.hpp | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 21ce172..b1cab1e 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -72,11 +72,13 @@ inline auto split(std::string_view str, std::string_view delimiter, bool skip_em
     return tokens;
 }
 
-auto Option::validate() -> bool {
+auto Option::validate() -> bool { return validate(_parser); }
+
+auto Option::validate(const OptionParser& parser) -> bool {
     // if _dest is empty, we will use the first long option name as the _dest.
     if (_dest.empty()) {
         for (const auto& nnn : _names) {
-            if (_parser.extract_option_type(nnn) == OptionType::LongOpt) {
+            if (parser.extract_option_type(nnn) == OptionType::LongOpt) {
                 _dest = nnn.substr(2);
                 break;
             }
@@ -225,7 +227,7 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
     // once parse args, clear all invalid_args
     _invalid_args.clear();
     for (auto& opt : _options) {
-        if (not opt.validate()) {
+        if (not opt.validate(*this)) {
             throw std::logic_error(fmt::format("incomplete option: {}", opt.names().front()));
         }
     }
diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index c5f3533..8fcd2f0 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -185,6 +185,9 @@ class Option
 
     auto validate() -> bool;
 
+    // the parser that holds the option may be a copy of, or moved from, the one it was declared on
+    auto validate(const OptionParser& parser) -> bool;
+
     [[nodiscard]] inline auto names() const -> const vector<string>& { return _names; }
 
     inline auto action(Action act) -> Option& {
-- 
2.43.0


From ff3d42f6a86e3bea05b7c1295a10239d24118539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 42/54] fix: a parser with a prefix and a conflict handler uses
 its prefix for long options

---
 optparse/optparse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index b1cab1e..277d764 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -100,8 +100,9 @@ OptionParser::OptionParser(char prefix) : _prefix(prefix) {
 
 OptionParser::OptionParser(stdb::optparse::ConflictHandler handler) : _conflict_handler(handler) {}
 
-OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler)
-    : _prefix{prefix}, _conflict_handler{handler} {}
+OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler) : OptionParser(prefix) {
+    _conflict_handler = handler;
+}
 
 auto OptionParser::extract_option_type(const string& opt) const -> OptionType {
     if (opt.size() > 2 and opt.substr(0, 2) == _long_prefix) {
-- 
2.43.0


From 843f99efc9b0739b76b3ba59e1b48caee9a4f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 43/54] fix: the help of a parser without options is an empty
 list

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 277d764..01df002 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -617,7 +617,7 @@ auto OptionParser::format_help() -> string {
       std::max_element(line_and_helps.begin(), line_and_helps.end(),
                        [](auto& lhs, auto& rhs) -> bool { return rhs.first.size() > lhs.first.size(); });
 
-    const auto align_size = max_line->first.size() + 1;
+    const auto align_size = max_line == line_and_helps.end() ? 0 : max_line->first.size() + 1;
     auto content = fmt::format("{} \n options: \n", format_usage());
     for (const auto& [line, help] : line_and_helps) {
         const int space_width = align_size - line.size();
-- 
2.43.0


From cd998ae88cdcc2bc3e97409bfb6ebd4816697dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 44/54] fix: an option value is not silently zero when memory
 runs out while it is read

---
 optparse/optparse.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 01df002..96e247c 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -286,6 +286,8 @@ template <OptValue T>
 auto parse_string(const string& str) -> T {
     T val{};
     std::stringstream sst(str.data());
+    // running out of memory is reported by the stream as a bad stream: let the exception through instead
+    sst.exceptions(std::ios::badbit);
     sst >> val;
     return val;
 }
-- 
2.43.0


From d1fd302acac447c30b373cb06e8df212b422fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 45/54] fix: judge white space in operator>> as a character of
 the stream's locale

---
 string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 9f1c3cc..7291c89 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -17,7 +17,6 @@
 
 #pragma once
 
-#include <ctype.h>     // for isspace
 #include <fmt/core.h>  // for string_view, formatter, formatter<>...
 #include <fmt/format.h>
 #include <stdint.h>  // for uint8_t, int64_t, int32_t
@@ -35,6 +34,7 @@
 #include <istream>           // for basic_istream, basic_ostream, __ost...
 #include <iterator>          // for forward_iterator_tag, input_iterato...
 #include <limits>            // for numeric_limits
+#include <locale>            // for isspace
 #include <memory>            // for allocator_traits
 #include <new>               // for bad_alloc, operator new
 #include <optional>
@@ -2563,10 +2563,10 @@ inline auto operator>>(
                     err |= _istream_type::eofbit;
                     break;
                 }
-                if (isspace(got)) {
+                if (std::isspace(T::to_char_type(got), is.getloc())) {
                     break;
                 }
-                str.push_back(got);
+                str.push_back(T::to_char_type(got));
                 ++extracted;
                 got = is.rdbuf()->snextc();
             }
-- 
2.43.0


From bfbeaff4f53de3101d2da8b0dfc5d13518cb9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 46/54] fix: assign a view of the string's own character type
 in place

---
 string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 7291c89..7ab2b9e 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1143,7 +1143,7 @@ class basic_string
 
     ~basic_string() noexcept = default;
 
-    auto operator=(std::string_view lhs) -> basic_string&;
+    auto operator=(std::basic_string_view<value_type> lhs) -> basic_string&;
 
     auto operator=(const basic_string& lhs) -> basic_string&;
 
@@ -1764,7 +1764,7 @@ auto basic_string<E, T, A, S>::traitsLength(const value_type* s) -> typename bas
     return s ? traits_type::length(s) : (throw std::logic_error("basic_string: null pointer initializer not valid"), 0);
 }
 template <typename E, class T, class A, class S>
-inline auto basic_string<E, T, A, S>::operator=(std::string_view lhs) -> basic_string<E, T, A, S>& {
+inline auto basic_string<E, T, A, S>::operator=(std::basic_string_view<value_type> lhs) -> basic_string<E, T, A, S>& {
     Invariant checker(*this);
     return assign(lhs.data(), lhs.size());
 }
-- 
2.43.0


From 90798b9cebd916847399c162bba702e471a2809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 47/54] fix: let wide arena strings be reallocated

---
 string/arena_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 31bbfa9..e39d9b9 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -59,7 +59,7 @@ inline auto arena_smartRealloc(pmr::polymorphic_allocator<Char>& allocator, void
         std::memcpy(result, ptr, currentSize);
         if (allocator == pmr::polymorphic_allocator<Char>()) {
             // do dealloc while use std::pmr::polymorphism_allocator<Char>();
-            allocator.deallocate(static_cast<char*>(ptr), currentCapacity);
+            allocator.deallocate(static_cast<Char*>(ptr), currentCapacity);
         }
         return result;
     }
-- 
2.43.0


From 734a6cf2d97502ed2b8b41c853074caee6984b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 48/54] fix: let formatting a string report that there is no
 memory

---
 string/arena_string.hpp | 2 +-
 string/string.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index e39d9b9..bb1e9db 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -880,7 +880,7 @@ template <>
 struct formatter<stdb::memory::arena_string> : formatter<string_view>
 {
     template <typename Context>
-    auto format(const stdb::memory::arena_string& str, Context& ctx) const noexcept {
+    auto format(const stdb::memory::arena_string& str, Context& ctx) const {
         return formatter<string_view>::format({str.data(), str.size()}, ctx);
     }
 };
diff --git a/string/string.hpp b/string/string.hpp
index 7ab2b9e..ed1ad4a 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2810,7 +2810,7 @@ struct formatter<stdb::memory::string> : formatter<string_view>
     using formatter<fmt::string_view>::parse;
 
     template <typename Context>
-    auto format(const stdb::memory::string& str, Context& ctx) const noexcept {
+    auto format(const stdb::memory::string& str, Context& ctx) const {
         return formatter<string_view>::format({str.data(), str.size()}, ctx);
     }
 };
-- 
2.43.0


From e8a1e0e86b20ed05e1bf9881d12485b2990f8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 49/54] fix: write strings of more than 2^31 characters to a
 stream

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index ed1ad4a..972c057 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2614,7 +2614,7 @@ inline auto operator<<(
     // MSVC doesn't define __ostream_insert
     os.write(str.data(), static_cast<streamsize>(str.size()));
 #else
-    std::__ostream_insert(os, str.data(), int32_t(str.size()));
+    std::__ostream_insert(os, str.data(), static_cast<std::streamsize>(str.size()));
 #endif
     return os;
 }
-- 
2.43.0


From 7be4757c11cfc6defaf21adb7699e666eedba0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 50/54] fix: return nullptr from CreateArray when an element
 finds no memory

---
 arena/arena.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 18fa45c..9b6af6f 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -493,8 +493,13 @@ class Arena
         char* ptr = allocateAligned(size, std::max(kByteSize, uint64_t{alignof(T)}));
         if (ptr != nullptr) [[likely]] {
             T* curr = reinterpret_cast<T*>(ptr);
-            for (uint64_t i = 0; i < num; ++i) {
-                Construct<T>(curr++, *this);
+            try {
+                for (uint64_t i = 0; i < num; ++i) {
+                    Construct<T>(curr++, *this);
+                }
+            } catch (const std::bad_alloc&) {
+                // the constructor may need more memory, from the arena too, that means failure as well.
+                return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
                 _options.on_arena_allocation(&typeid(T), size, _cookie);
-- 
2.43.0


From f7fd74e5d8b56cb38950d565802c63fbf62549ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 51/54] fix: report a refused request without a logger, or
 without memory for its message

---
 arena/arena.cc  |  7 ++++---
 arena/arena.hpp | 27 +++++++++++++++++++++------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index da61f9a..fea41dd 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -63,9 +63,10 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
     uint64_t size = 0;
 
     if (min_bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize) {
-        auto output_message = fmt::format(
-          "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
-        _options.logger_func(output_message);
+        log_failure([min_bytes] {
+            return fmt::format(
+              "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
+        });
         return nullptr;
     }
 
diff --git a/arena/arena.hpp b/arena/arena.hpp
index 9b6af6f..1f66ea2 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -482,11 +482,12 @@ class Arena
         requires TriviallyDestructible<T>
     {
         if (num > std::numeric_limits<uint64_t>::max() / sizeof(T)) {
-            auto output_message = fmt::format(
-              "CreateArray need too many memory, that more than max of uint64_t, the num of array is {}, and the Type "
-              "is {}, sizeof T is {}",
-              num, TYPENAME(T), sizeof(T));
-            _options.logger_func(output_message);
+            log_failure([num] {
+                return fmt::format(
+                  "CreateArray need too many memory, that more than max of uint64_t, the num of array is {}, and the "
+                  "Type is {}, sizeof T is {}",
+                  num, TYPENAME(T), sizeof(T));
+            });
             return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
@@ -577,13 +578,27 @@ class Arena
             _resource = new memory_resource{this};
         } catch (std::bad_alloc& ex) {
             _resource = nullptr;
-            _options.logger_func("new memory resource failed while Arena::init");
+            log_failure([] { return std::string("new memory resource failed while Arena::init"); });
         }
         if (_options.on_arena_init != nullptr) [[likely]] {
             _cookie = _options.on_arena_init(this, loc);
         }
     }
 
+    /*
+     * log a failure, make_message returns the message.
+     * the caller sees the failure anyway, there may be no logger, and no memory for the message.
+     */
+    template <typename MakeMessage>
+    void log_failure(MakeMessage make_message) noexcept {
+        try {
+            if (_options.logger_func != nullptr) [[likely]] {
+                _options.logger_func(make_message());
+            }
+        } catch (const std::bad_alloc&) {
+        }
+    }
+
     /*
      * new a block within the arena.
      * New Block while current Block has not enough memory.
-- 
2.43.0


From 28838d6e72f6a906729e07fb335bc4347d50fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 52/54] fix: make the memory resource of an arena when there is
 memory again

---
 arena/arena.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 1f66ea2..ace6faa 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -545,8 +545,10 @@ class Arena
     }
 
     [[gnu::always_inline]] inline auto get_memory_resource() noexcept -> memory_resource* {
-        Assert(_resource != nullptr,
-               "memory_resource should make sure _resource is not nullptr, or dereference crash");  // NOLINT
+        if (_resource == nullptr) [[unlikely]] {
+            // there was no memory for it when the arena was made, nullptr means that there still is none.
+            _resource = new (std::nothrow) memory_resource{this};
+        }
         return _resource;
     };
 
@@ -737,7 +739,11 @@ class Arena
     [[gnu::always_inline]] inline static auto Construct(void* ptr, Arena& arena, Args&&... args) -> T* {
         // placement new make the new Object T is in the ptr-> memory.
         if constexpr (std::is_constructible_v<T, Args..., ::pmr::polymorphic_allocator<T>>) {
-            return new (ptr) T(std::forward<Args>(args)..., arena.get_memory_resource());
+            auto* resource = arena.get_memory_resource();
+            if (resource == nullptr) [[unlikely]] {
+                throw std::bad_alloc();
+            }
+            return new (ptr) T(std::forward<Args>(args)..., resource);
         } else if constexpr (std::is_constructible_v<T, Arena&, Args...>) {
             return new (ptr) T(arena, std::forward<Args>(args)...);
         } else {
-- 
2.43.0


From 97fa03d2dbb9672de21212c21d3e70ef34c0dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 53/54] fix: take the source of an insertion or replacement
 before the string it may refer to moves

---
 string/string.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/string/string.hpp b/string/string.hpp
index 972c057..362bf23 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2081,6 +2081,10 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
             const basic_string temp(static_cast<const_iterator>(s1), static_cast<const_iterator>(s2), get_allocator());
             return insert(i, temp.data(), temp.data() + temp.size());
         }
+    } else if (n > 0 && !empty()) {
+        // The iterators may refer to this string (backwards, say), take the source before anything moves.
+        const basic_string temp(s1, s2, get_allocator());
+        return insert(i, temp.data(), temp.data() + temp.size());
     }
 
     auto oldSize = size();
@@ -2174,6 +2178,14 @@ inline void basic_string<E, T, A, S>::replaceImpl(iterator i1, iterator i2, FwdI
     if (replaceAliased(i1, i2, s1, s2, Sel())) {
         return;
     }
+    if constexpr (!Sel::value) {
+        if (!empty()) {
+            // The iterators may refer to this string (backwards, say), take the source before anything moves.
+            const basic_string temp(s1, s2, get_allocator());
+            replaceImpl(i1, i2, temp.begin(), temp.end(), std::forward_iterator_tag());
+            return;
+        }
+    }
 
     auto const n1 = i2 - i1;
     Assert(n1 >= 0, "replaceImpl() failed, the origin range is invalid, first <= last promise was broken");
-- 
2.43.0


From 3e392965069bfbac1981c6b05f9cdc3d2bf67e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:14 +0000
Subject: [PATCH 54/54] fix: erase of a value that is an element of the vector
 compares all elements with it

The element was destroyed or moved on the way, and the elements after it were
then compared with what was left of it.
---
 container/stdb_vector.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 027403d..6ddde80 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1156,6 +1156,29 @@ class stdb_vector : public core<T>
     }
 
     auto erase(const value_type& value) -> size_type {  // NOLINT
+        if (this->owns(value)) [[unlikely]] {
+            // value is kept, and followed to where it is moved, until all elements are compared with it
+            const T* self = std::addressof(value);
+            size_type kept = 0;
+            bool erase_self = false;
+            auto erased = erase_if([&](const T& elem) {
+                const bool is_self = std::addressof(elem) == std::addressof(value);
+                const bool same = not(elem != *self);
+                if (is_self) {
+                    self = this->_start + kept;
+                    erase_self = same;
+                } else if (same) {
+                    return true;
+                }
+                ++kept;
+                return false;
+            });
+            if (erase_self) {
+                erase(const_iterator{self});
+                ++erased;
+            }
+            return erased;
+        }
         if constexpr (IsRelocatable<T>) {
             size_t erased = 0;
             T* dst = this->_start;
-- 
2.43.0

