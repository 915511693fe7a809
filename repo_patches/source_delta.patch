From 67f8f4f311ca45fe92b6155f5ff9b1a2382a24b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 01/62] fix: vector destroys replaced and cut-off elements and
 frees them when an element constructor throws

---
 include/cista/containers/vector.h | 59 +++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 6e592fc..1140a6f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -41,25 +41,28 @@ struct basic_vector {
   basic_vector() noexcept = default;
 
   explicit basic_vector(size_type const size,
-                        Allocator const& alloc = Allocator{}) {
+                        Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     resize(size);
   }
 
   explicit basic_vector(size_type const size, T init,
-                        Allocator const& alloc = Allocator{}) {
+                        Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     resize(size, std::move(init));
   }
 
   basic_vector(std::initializer_list<T> init,
-               Allocator const& alloc = Allocator{}) {
+               Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     set(init.begin(), init.end());
   }
 
   template <typename It>
-  basic_vector(It begin_it, It end_it) {
+  basic_vector(It begin_it, It end_it) : basic_vector() {
     set(begin_it, end_it);
   }
 
@@ -72,7 +75,8 @@ struct basic_vector {
     o.reset();
   }
 
-  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{}) {
+  basic_vector(basic_vector const& o, Allocator const& alloc = Allocator{})
+      : basic_vector() {
     CISTA_UNUSED_PARAM(alloc)
     set(o);
   }
@@ -175,15 +179,24 @@ struct basic_vector {
         range_size >= 0 && range_size <= std::numeric_limits<size_type>::max(),
         "cista::vector::set: invalid range");
 
-    reserve(static_cast<size_type>(range_size));
+    if constexpr (std::is_trivially_destructible_v<T>) {
+      reserve(static_cast<size_type>(range_size));
 
-    auto copy_source = begin_it;
-    auto copy_target = el_;
-    for (; copy_source != end_it; ++copy_source, ++copy_target) {
-      new (copy_target) T{std::forward<decltype(*copy_source)>(*copy_source)};
-    }
+      auto copy_source = begin_it;
+      auto copy_target = el_;
+      for (; copy_source != end_it; ++copy_source, ++copy_target) {
+        new (copy_target) T{std::forward<decltype(*copy_source)>(*copy_source)};
+      }
 
-    used_size_ = static_cast<size_type>(range_size);
+      used_size_ = static_cast<size_type>(range_size);
+    } else {
+      clear();
+      reserve(static_cast<size_type>(range_size));
+      for (; begin_it != end_it; ++begin_it) {
+        new (el_ + used_size_) T{std::forward<decltype(*begin_it)>(*begin_it)};
+        ++used_size_;
+      }
+    }
   }
 
   void set(basic_vector const& arr) {
@@ -314,18 +327,28 @@ struct basic_vector {
 
   void resize(size_type const size) {
     reserve(size);
-    for (auto i = used_size_; i < size; ++i) {
-      new (el_ + i) T{};
+    for (; used_size_ < size; ++used_size_) {
+      new (el_ + used_size_) T{};
     }
-    used_size_ = size;
+    truncate(size);
   }
 
   void resize(size_type const size, T init) {
     reserve(size);
-    for (auto i = used_size_; i < size; ++i) {
-      new (el_ + i) T{init};
+    for (; used_size_ < size; ++used_size_) {
+      new (el_ + used_size_) T{init};
+    }
+    truncate(size);
+  }
+
+  void truncate(size_type const size) {
+    if constexpr (std::is_trivially_destructible_v<T>) {
+      used_size_ = size;
+    } else {
+      while (used_size_ > size) {
+        pop_back();
+      }
     }
-    used_size_ = size;
   }
 
   void shrink_to_fit() {}
-- 
2.43.0


From c329951c1b1d21c34855f450ae33c88ed9a0d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 02/62] fix: vector reports exceeding its size type instead of
 writing out of bounds

---
 include/cista/containers/vector.h | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 1140a6f..ea91995 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -229,7 +229,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
+    reserve_additional(1U);
     new (el_ + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
@@ -241,7 +241,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + count);
+    reserve_additional(count);
     for (auto i = size_type{0U}; i < count; ++i) {
       new (el_ + used_size_) T{value};
       ++used_size_;
@@ -256,7 +256,7 @@ struct basic_vector {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
+      reserve_additional(1U);
       new (el_ + used_size_) T{std::forward<decltype(*first)>(*first)};
       ++used_size_;
     }
@@ -272,8 +272,9 @@ struct basic_vector {
     }
 
     auto const pos_idx = pos - begin();
-    auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    auto const n_new = std::distance(first, last);
+    reserve_additional(static_cast<std::size_t>(n_new));
+    auto const new_count = static_cast<size_type>(n_new);
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
@@ -305,20 +306,20 @@ struct basic_vector {
   }
 
   void push_back(T const& el) {
-    reserve(used_size_ + 1U);
+    reserve_additional(1U);
     new (el_ + used_size_) T(el);
     ++used_size_;
   }
 
   void push_back(T&& el) {
-    reserve(used_size_ + 1U);
+    reserve_additional(1U);
     new (el_ + used_size_) T(std::move(el));
     ++used_size_;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
+    reserve_additional(1U);
     new (el_ + used_size_) T{std::forward<Args>(el)...};
     T* ptr = el_ + used_size_;
     ++used_size_;
@@ -372,7 +373,14 @@ struct basic_vector {
       return;
     }
 
+    constexpr auto const kMaxSize = std::numeric_limits<size_type>::max();
     auto next_size = next_power_of_two(new_size);
+    if (next_size < new_size) {
+      next_size = kMaxSize;  // next power of two not representable
+    }
+    if (next_size > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+      throw_exception(std::bad_alloc());
+    }
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
     auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
     if (mem_buf == nullptr) {
@@ -404,6 +412,13 @@ struct basic_vector {
     allocated_size_ = next_size;
   }
 
+  void reserve_additional(std::size_t const n) {
+    verify(n <= static_cast<std::size_t>(std::numeric_limits<size_type>::max() -
+                                         used_size_),
+           "cista::vector: maximum size exceeded");
+    reserve(static_cast<size_type>(used_size_ + n));
+  }
+
   T* erase(T* pos) {
     auto const r = pos;
     T* last = end() - 1;
-- 
2.43.0


From a4f55befa74a3e7107a325fc32847f1f29364d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 03/62] fix: inserting a range into a vector does not leak when
 an element constructor throws

---
 include/cista/containers/vector.h | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index ea91995..a531f3f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -272,29 +272,17 @@ struct basic_vector {
     }
 
     auto const pos_idx = pos - begin();
-    auto const n_new = std::distance(first, last);
-    reserve_additional(static_cast<std::size_t>(n_new));
-    auto const new_count = static_cast<size_type>(n_new);
-    pos = begin() + pos_idx;
-
-    for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
-         !(src_last == pos - 1); --src_last, --dest_last) {
-      if (dest_last >= end()) {
-        new (dest_last) T(std::move(*src_last));
-      } else {
-        *dest_last = std::move(*src_last);
-      }
-    }
+    auto const old_size = used_size_;
+    reserve_additional(static_cast<std::size_t>(std::distance(first, last)));
 
-    for (auto insert_ptr = pos; !(first == last); ++first, ++insert_ptr) {
-      if (insert_ptr >= end()) {
-        new (insert_ptr) T(std::forward<decltype(*first)>(*first));
-      } else {
-        *insert_ptr = std::forward<decltype(*first)>(*first);
-      }
+    // append first: a throwing constructor leaves no unowned element behind
+    for (; !(first == last); ++first) {
+      new (el_ + used_size_) T(std::forward<decltype(*first)>(*first));
+      ++used_size_;
     }
 
-    used_size_ += new_count;
+    pos = begin() + pos_idx;
+    std::rotate(pos, begin() + old_size, end());
 
     return pos;
   }
-- 
2.43.0


From 10c0e23340bfea18c7d45c02b06889863bbe8f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 04/62] fix: file closes its handle when opening fails half-way
 and when moved over

---
 include/cista/targets/file.h | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 1b8d599..d21bad9 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -205,18 +205,14 @@ namespace cista {
 struct file {
   file() = default;
 
-  file(char const* path, char const* mode)
-      : f_{std::fopen(path, mode)}, size_{size()} {
+  file(char const* path, char const* mode) : file() {
+    f_ = std::fopen(path, mode);
     verify_str(f_ != nullptr, std::string{"unable to open file: "} + path +
                                   " [mode=" + mode + "]");
+    size_ = size();
   }
 
-  ~file() {
-    if (f_ != nullptr) {
-      std::fclose(f_);
-    }
-    f_ = nullptr;
-  }
+  ~file() { close(); }
 
   file(file const&) = delete;
   file& operator=(file const&) = delete;
@@ -227,13 +223,23 @@ struct file {
   }
 
   file& operator=(file&& o) {
-    f_ = o.f_;
-    size_ = o.size_;
-    o.f_ = nullptr;
-    o.size_ = 0U;
+    if (this != &o) {
+      close();
+      f_ = o.f_;
+      size_ = o.size_;
+      o.f_ = nullptr;
+      o.size_ = 0U;
+    }
     return *this;
   }
 
+  void close() {
+    if (f_ != nullptr) {
+      std::fclose(f_);
+    }
+    f_ = nullptr;
+  }
+
   int fd() const {
     auto const fd = fileno(f_);
     verify(fd != -1, "invalid fd");
-- 
2.43.0


From b1e9e8b62c10c8d9aef7c6bc51ed968117f6abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 05/62] fix: file reports buffered write errors instead of
 losing them on close

---
 include/cista/targets/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index d21bad9..de79952 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -282,6 +282,7 @@ struct file {
     verify(std::fwrite(reinterpret_cast<std::uint8_t const*>(&val), 1U,
                        serialized_size<T>(), f_) == serialized_size<T>(),
            "write error");
+    verify(!std::fflush(f_), "flush error");
   }
 
   offset_t write(void const* ptr, std::size_t const size,
@@ -302,6 +303,7 @@ struct file {
     }
     verify(!std::fseek(f_, seek_offset, seek_whence), "seek error");
     verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");
+    verify(!std::fflush(f_), "flush error");
     size_ = curr_offset + size;
     return static_cast<offset_t>(curr_offset);
   }
-- 
2.43.0


From b55df23bdaf897fe1b087f1446e9299e8a7f331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 06/62] fix: mmap releases what it held when moved over, unmaps
 everything it mapped, survives failed growth

---
 include/cista/mmap.h | 77 +++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index c6b40d2..499e4f3 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -37,16 +37,7 @@ struct mmap {
         used_size_{f_.size()},
         addr_{size_ == 0U ? nullptr : map()} {}
 
-  ~mmap() {
-    if (addr_ != nullptr) {
-      sync();
-      size_ = used_size_;
-      unmap();
-      if (size_ != f_.size()) {
-        resize_file();
-      }
-    }
-  }
+  ~mmap() { close(); }
 
   mmap(mmap const&) = delete;
   mmap& operator=(mmap const&) = delete;
@@ -60,19 +51,22 @@ struct mmap {
 #ifdef _WIN32
     file_mapping_ = o.file_mapping_;
 #endif
-    o.addr_ = nullptr;
+    o.release();
   }
 
   mmap& operator=(mmap&& o) {
-    f_ = std::move(o.f_);
-    prot_ = o.prot_;
-    size_ = o.size_;
-    used_size_ = o.used_size_;
-    addr_ = o.addr_;
+    if (this != &o) {
+      close();
+      f_ = std::move(o.f_);
+      prot_ = o.prot_;
+      size_ = o.size_;
+      used_size_ = o.used_size_;
+      addr_ = o.addr_;
 #ifdef _WIN32
-    file_mapping_ = o.file_mapping_;
+      file_mapping_ = o.file_mapping_;
 #endif
-    o.addr_ = nullptr;
+      o.release();
+    }
     return *this;
   }
 
@@ -126,6 +120,24 @@ struct mmap {
   }
 
 private:
+  void release() noexcept {
+    addr_ = nullptr;
+    size_ = 0U;
+    used_size_ = 0U;
+  }
+
+  void close() {
+    if (f_.f_ == nullptr) {
+      return;
+    }
+    sync();
+    unmap();
+    size_ = used_size_;
+    if (prot_ != protection::READ && size_ != f_.size()) {
+      resize_file();
+    }
+  }
+
   void unmap() {
 #ifdef _WIN32
     if (addr_ != nullptr) {
@@ -198,19 +210,38 @@ private:
       return;
     }
 
+#ifdef _WIN32
     unmap();
     size_ = new_size;
     resize_file();
     addr_ = map();
+#else
+    // Grow the file and map it before giving up the current mapping: if this
+    // fails, the current content stays accessible.
+    auto const old_size = size_;
+    size_ = new_size;
+    void* new_addr = nullptr;
+    try {
+      resize_file();
+      new_addr = map();
+    } catch (...) {
+      size_ = old_size;
+      throw;
+    }
+    if (addr_ != nullptr) {
+      ::munmap(addr_, old_size);
+    }
+    addr_ = new_addr;
+#endif
   }
 
   file f_;
-  protection prot_;
-  std::size_t size_;
-  std::size_t used_size_;
-  void* addr_;
+  protection prot_{protection::READ};
+  std::size_t size_{0U};
+  std::size_t used_size_{0U};
+  void* addr_{nullptr};
 #ifdef _WIN32
-  HANDLE file_mapping_;
+  HANDLE file_mapping_{nullptr};
 #endif
 };
 
-- 
2.43.0


From 4163a92f4b4a650a70e206316acb0720dc9364e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 07/62] fix: reserving in a file-backed vector keeps its
 length, failed growth keeps its elements

---
 include/cista/containers/mmap_vec.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/cista/containers/mmap_vec.h b/include/cista/containers/mmap_vec.h
index 8fcbc61..b61cc34 100644
--- a/include/cista/containers/mmap_vec.h
+++ b/include/cista/containers/mmap_vec.h
@@ -27,14 +27,14 @@ struct basic_mmap_vec {
         used_size_{static_cast<size_type>(mmap_.size() / sizeof(T))} {}
 
   void push_back(T const& t) {
+    grow(1U);
+    new (data() + used_size_) T{t};
     ++used_size_;
-    mmap_.resize(sizeof(T) * used_size_);
-    (*this)[Key{used_size_ - 1U}] = t;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
+    grow(1U);
     new (data() + used_size_) T{std::forward<Args>(el)...};
     T* ptr = data() + used_size_;
     ++used_size_;
@@ -72,7 +72,7 @@ struct basic_mmap_vec {
     return begin()[to_idx(index)];
   }
 
-  void reserve(size_type const size) { mmap_.resize(size * sizeof(T)); }
+  void reserve(size_type const size) { mmap_.reserve(size * sizeof(T)); }
 
   void resize(size_type const size) {
     mmap_.resize(size * sizeof(T));
@@ -93,7 +93,7 @@ struct basic_mmap_vec {
                    static_cast<diff_t>(std::numeric_limits<size_type>::max()),
            "cista::vector::set: invalid range");
 
-    reserve(static_cast<size_type>(range_size));
+    mmap_.resize(static_cast<size_type>(range_size) * sizeof(T));
 
     auto copy_source = begin_it;
     auto copy_target = data();
@@ -109,7 +109,7 @@ struct basic_mmap_vec {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
+    grow(1U);
     new (data() + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
@@ -122,7 +122,7 @@ struct basic_mmap_vec {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
+      grow(1U);
       new (data() + used_size_) T{std::forward<decltype(*first)>(*first)};
       ++used_size_;
     }
@@ -138,8 +138,9 @@ struct basic_mmap_vec {
     }
 
     auto const pos_idx = pos - begin();
-    auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    auto const n_new = std::distance(first, last);
+    grow(static_cast<std::size_t>(n_new));
+    auto const new_count = static_cast<size_type>(n_new);
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
@@ -170,6 +171,14 @@ struct basic_mmap_vec {
                   typename std::iterator_traits<It>::iterator_category());
   }
 
+  // Makes room for n more elements at the end (used_size_ is unchanged).
+  void grow(std::size_t const n) {
+    verify(n <= static_cast<std::size_t>(std::numeric_limits<size_type>::max() -
+                                         used_size_),
+           "cista::mmap_vec: maximum size exceeded");
+    mmap_.resize(sizeof(T) * (used_size_ + n));
+  }
+
   cista::mmap mmap_;
   size_type used_size_{0U};
 };
-- 
2.43.0


From 71c42b58d196cdeede059b9022deaba52f915dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 08/62] fix: hash tables stay intact when growing, copying or
 creating an entry fails

---
 include/cista/containers/hash_storage.h | 29 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 753c675..64e9c0a 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -258,7 +258,7 @@ struct hash_storage {
 
   constexpr hash_storage() = default;
 
-  hash_storage(std::initializer_list<T> init) {
+  hash_storage(std::initializer_list<T> init) : hash_storage{} {
     insert(init.begin(), init.end());
   }
 
@@ -272,7 +272,7 @@ struct hash_storage {
     other.reset();
   }
 
-  hash_storage(hash_storage const& other) {
+  hash_storage(hash_storage const& other) : hash_storage{} {
     if (other.size() != 0U) {
       for (const auto& v : other) {
         emplace(v);
@@ -316,11 +316,13 @@ struct hash_storage {
   // --- operator[]
   template <typename Key>
   mapped_type& bracket_operator_impl(Key&& key) {
-    auto const res = find_or_prepare_insert(std::forward<Key>(key));
-    if (res.second) {
-      new (entries_ + res.first) T{static_cast<key_type>(key), mapped_type{}};
+    if (auto const it = find_impl(key); it != end()) {
+      return GetValue{}(*it);
     }
-    return GetValue{}(entries_[res.first]);
+    auto entry = T{static_cast<key_type>(key), mapped_type{}};
+    auto const i = prepare_insert(compute_hash(GetKey()(entry)));
+    new (entries_ + i) T{std::move(entry)};
+    return GetValue{}(entries_[i]);
   }
 
   template <typename Key>
@@ -589,15 +591,17 @@ struct hash_storage {
     ctrl_[capacity_] = END;
   }
 
-  void initialize_entries() {
-    self_allocated_ = true;
+  void initialize_entries(size_type const capacity) {
     auto const size = static_cast<size_type>(
-        capacity_ * sizeof(T) + (capacity_ + 1U + WIDTH) * sizeof(ctrl_t));
-    entries_ = reinterpret_cast<T*>(
+        capacity * sizeof(T) + (capacity + 1U + WIDTH) * sizeof(ctrl_t));
+    auto const entries = reinterpret_cast<T*>(
         CISTA_ALIGNED_ALLOC(ALIGNMENT, static_cast<std::size_t>(size)));
-    if (entries_ == nullptr) {
+    if (entries == nullptr) {
       throw_exception(std::bad_alloc{});
     }
+    entries_ = entries;
+    capacity_ = capacity;
+    self_allocated_ = true;
 #if defined(CISTA_ZERO_OUT)
     std::memset(entries_, 0, size);
 #endif
@@ -614,8 +618,7 @@ struct hash_storage {
     auto const old_capacity = capacity_;
     auto const old_self_allocated = self_allocated_;
 
-    capacity_ = new_capacity;
-    initialize_entries();
+    initialize_entries(new_capacity);
 
     for (size_type i = 0U; i != old_capacity; ++i) {
       if (is_full(old_ctrl[i])) {
-- 
2.43.0


From 74abe5988f87e47e7879288f2a8897902d096c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 09/62] fix: move-assigning a hash table and rehashing an empty
 one do not leak

---
 include/cista/containers/hash_storage.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 64e9c0a..4eaaae9 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -284,6 +284,7 @@ struct hash_storage {
     if (&other == this) {
       return *this;
     }
+    clear();
     entries_ = other.entries_;
     ctrl_ = other.ctrl_;
     size_ = other.size_;
@@ -649,7 +650,11 @@ struct hash_storage {
     self_allocated_ = false;
   }
 
-  void rehash() { resize(capacity_); }
+  void rehash() {
+    if (capacity_ != 0U) {
+      resize(capacity_);
+    }
+  }
 
   iterator iterator_at(size_type const i) noexcept {
     return {ctrl_ + i, entries_ + i};
-- 
2.43.0


From 9ceb989611784d814c62bc985ed3810714a0555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 10/62] fix: hash tables with tombstones of erased entries pass
 the check on load

---
 include/cista/serialization.h | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 559960d..80046d8 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -963,28 +963,25 @@ void check_state(Ctx const& c,
             "hash storage: ctrl bytes must be empty or deleted or full");
 
   using st_t = typename Type::size_type;
-  auto [total_empty, total_full, total_deleted, total_growth_left] =
-      std::accumulate(
-          ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
-          std::tuple{st_t{0U}, st_t{0U}, st_t{0U}, st_t{0}},
-          [&](std::tuple<st_t, st_t, st_t, st_t> const acc,
-              typename Type::ctrl_t const& ctrl) {
-            auto const [empty, full, deleted, growth_left] = acc;
-            return std::tuple{
-                Type::is_empty(ctrl) ? empty + 1 : empty,
-                Type::is_full(ctrl) ? full + 1 : full,
-                Type::is_deleted(ctrl) ? deleted + 1 : deleted,
-                (Type::is_empty(ctrl) && el->was_never_full(static_cast<st_t>(
-                                             &ctrl - el->ctrl_))
-                     ? growth_left + 1
-                     : growth_left)};
-          });
+  auto [total_empty, total_full, total_deleted] = std::accumulate(
+      ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
+      std::tuple{st_t{0U}, st_t{0U}, st_t{0U}},
+      [](std::tuple<st_t, st_t, st_t> const acc,
+         typename Type::ctrl_t const& ctrl) {
+        auto const [empty, full, deleted] = acc;
+        return std::tuple{Type::is_empty(ctrl) ? empty + 1 : empty,
+                          Type::is_full(ctrl) ? full + 1 : full,
+                          Type::is_deleted(ctrl) ? deleted + 1 : deleted};
+      });
 
   c.require(el->size_ == total_full, "hash storage: size");
   c.require(total_empty + total_full + total_deleted == el->capacity_,
             "hash storage: empty + full + deleted = capacity");
-  c.require(std::min(Type::capacity_to_growth(el->capacity_) - el->size_,
-                     total_growth_left) <= el->growth_left_,
+
+  // An erased entry may leave a tombstone which keeps using up growth.
+  auto const growth = Type::capacity_to_growth(el->capacity_);
+  auto const used = total_full + total_deleted;
+  c.require(used <= growth && el->growth_left_ == growth - used,
             "hash storage: growth left");
 }
 
-- 
2.43.0


From bb435e02a8d03e3e5cf9c5bf042e36e93202238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 11/62] fix: assigning a string view to itself keeps its
 content

---
 include/cista/containers/string.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 8334af5..69ebeaf 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -526,10 +526,16 @@ struct basic_string_view : public generic_string<Ptr> {
     base::set_non_owning(o.data(), o.size());
   }
   basic_string_view& operator=(basic_string_view const& o) {
+    if (&o == this) {
+      return *this;
+    }
     base::set_non_owning(o.data(), o.size());
     return *this;
   }
   basic_string_view& operator=(basic_string_view&& o) {
+    if (&o == this) {
+      return *this;
+    }
     base::set_non_owning(o.data(), o.size());
     return *this;
   }
-- 
2.43.0


From 1a599fef16718dec434d4d2a44c1559f03f9220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 12/62] fix: cstring survives self-assignment, failed
 allocation and releases its content when moved over

---
 include/cista/containers/cstring.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 1a6d26d..77e83c2 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -88,9 +88,8 @@ struct generic_cstring {
     if (len == 0U) {
       return;
     }
-    s_.remaining_ = static_cast<int8_t>(
-        std::max(static_cast<int32_t>(short_length_limit - len), -1));
-    if (is_short()) {
+    if (len <= short_length_limit) {
+      s_.remaining_ = static_cast<int8_t>(short_length_limit - len);
       std::memcpy(s_.s_, str, len);
     } else {
       h_ = heap(len, owning);
@@ -117,6 +116,10 @@ struct generic_cstring {
   }
 
   void move_from(generic_cstring&& s) noexcept {
+    if (&s == this) {
+      return;
+    }
+    reset();
     std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
     if constexpr (std::is_pointer_v<Ptr>) {
       std::memset(static_cast<void*>(&s), 0, sizeof(*this));
@@ -127,6 +130,9 @@ struct generic_cstring {
   }
 
   void copy_from(generic_cstring const& s) {
+    if (&s == this) {
+      return;
+    }
     reset();
     if (s.is_short()) {
       std::memcpy(static_cast<void*>(this), &s, sizeof(s));
@@ -372,6 +378,9 @@ struct basic_cstring : public generic_cstring<Ptr> {
   basic_cstring(basic_cstring&& o) { base::move_from(std::move(o)); }
 
   basic_cstring& operator=(basic_cstring const& o) {
+    if (&o == this) {
+      return *this;
+    }
     base::set_owning(o.data(), o.size());
     return *this;
   }
-- 
2.43.0


From 2b25de591a66646750b2910935356cef209ec4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 13/62] fix: C-strings are converted and checked when an image
 is loaded

---
 include/cista/serialization.h | 44 +++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 80046d8..db02875 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -878,6 +878,50 @@ void recurse(Ctx& c, basic_string_view<Ptr>* el, Fn&& fn) {
   recurse(c, static_cast<generic_string<Ptr>*>(el), fn);
 }
 
+// --- CSTRING ---
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, generic_cstring<Ptr>* el) {
+  if (!el->is_short()) {
+    deserialize(c, &el->h_.ptr_);
+    c.convert_endian(el->h_.size_);
+  }
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, generic_cstring<Ptr>* el) {
+  using Type = generic_cstring<Ptr>;
+  if (el->is_short()) {
+    c.require(
+        el->s_.remaining_ <= static_cast<int8_t>(Type::short_length_limit) &&
+            (el->s_.remaining_ == 0 || el->s_.s_[el->s_.size()] == '\0'),
+        "cstring short size and terminator");
+  } else {
+    c.check_ptr(el->h_.ptr_, static_cast<std::size_t>(el->h_.size_) + 1U);
+    c.check_bool(el->h_.self_allocated_);
+    c.require(!el->h_.self_allocated_, "cstring self-allocated");
+    c.require(el->h_.ptr_ != nullptr && el->data()[el->size()] == '\0',
+              "cstring terminator");
+  }
+}
+
+template <typename Ctx, typename Ptr, typename Fn>
+void recurse(Ctx&, generic_cstring<Ptr>*, Fn&&) {}
+
+template <typename Ctx, typename Ptr>
+void convert_endian_and_ptr(Ctx const& c, basic_cstring<Ptr>* el) {
+  convert_endian_and_ptr(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr>
+void check_state(Ctx const& c, basic_cstring<Ptr>* el) {
+  check_state(c, static_cast<generic_cstring<Ptr>*>(el));
+}
+
+template <typename Ctx, typename Ptr, typename Fn>
+void recurse(Ctx& c, basic_cstring<Ptr>* el, Fn&& fn) {
+  recurse(c, static_cast<generic_cstring<Ptr>*>(el), fn);
+}
+
 // --- UNIQUE_PTR<T> ---
 template <typename Ctx, typename T, typename Ptr>
 void convert_endian_and_ptr(Ctx const& c, basic_unique_ptr<T, Ptr>* el) {
-- 
2.43.0


From 9b459a931b7095da08dec0a8ee11faeb942cede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 14/62] fix: an emptied long string can be loaded again

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index db02875..0153758 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -221,7 +221,7 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
   }
 
   auto const start =
-      (origin->h_.ptr_ == nullptr)
+      (origin->h_.ptr_ == nullptr || origin->empty())
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
                     origin->size() * sizeof(typename Type::CharT));
-- 
2.43.0


From 8dbf836e36b833112eb9d543e103111757ea824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 15/62] fix: vecvec drops cut-off rows' elements, undoes
 half-appended rows and rejects sizes beyond its index type

---
 include/cista/containers/vecvec.h | 62 +++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e649847..d6c9fc3 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -2,6 +2,7 @@
 
 #include <cassert>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 #include <vector>
 
@@ -80,7 +81,8 @@ struct basic_vecvec {
     void grow(std::size_t const n, value_type const& value = value_type{}) {
       verify(n >= size(), "bucket::grow: new size < old size");
       auto const growth = n - size();
-
+      auto guard = append_guard{*map_};
+      map_->verify_data_size(map_->data_.size() + growth);
       map_->data_.insert(
           std::next(std::begin(map_->data_), bucket_end_idx()),
           static_cast<typename decltype(map_->data_)::size_type>(growth),
@@ -88,6 +90,7 @@ struct basic_vecvec {
       for (auto i = i_ + 1; i != map_->bucket_starts_.size(); ++i) {
         map_->bucket_starts_[i] += growth;
       }
+      guard.finished_ = true;
     }
 
     CISTA_CUDA_COMPAT value_type& operator[](std::size_t const i) {
@@ -334,14 +337,12 @@ struct basic_vecvec {
   }
 
   CISTA_CUDA_COMPAT const_bucket at(Key const i) const {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
   CISTA_CUDA_COMPAT bucket at(Key const i) {
-    verify(to_idx(i) < bucket_starts_.size(),
-           "basic_vecvec::at: index out of range");
+    verify(to_idx(i) < size(), "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
@@ -352,9 +353,9 @@ struct basic_vecvec {
   CISTA_CUDA_COMPAT const_bucket back() const { return at(Key{size() - 1}); }
 
   CISTA_CUDA_COMPAT index_value_type size() const {
-    return empty() ? 0U : bucket_starts_.size() - 1;
+    return bucket_starts_.empty() ? 0U : bucket_starts_.size() - 1;
   }
-  CISTA_CUDA_COMPAT bool empty() const { return bucket_starts_.empty(); }
+  CISTA_CUDA_COMPAT bool empty() const { return size() == 0U; }
 
   void clear() {
     bucket_starts_.clear();
@@ -365,6 +366,7 @@ struct basic_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
+    auto guard = append_guard{*this};
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
@@ -372,20 +374,25 @@ struct basic_vecvec {
                  std::make_move_iterator(std::begin(bucket)),
                  std::make_move_iterator(std::end(bucket)));
     bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    guard.finished_ = true;
   }
 
   bucket add_back_sized(std::size_t const bucket_size) {
+    auto guard = append_guard{*this};
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
+    verify_data_size(data_.size() + bucket_size);
     data_.resize(data_.size() + bucket_size);
     bucket_starts_.emplace_back(static_cast<index_value_type>(data_.size()));
+    guard.finished_ = true;
     return at(Key{size() - 1U});
   }
 
   template <typename X>
   std::enable_if_t<std::is_convertible_v<std::decay_t<X>, data_value_type>>
   emplace_back(std::initializer_list<X>&& x) {
+    auto guard = append_guard{*this};
     if (bucket_starts_.empty()) {
       bucket_starts_.emplace_back(index_value_type{0U});
     }
@@ -394,6 +401,7 @@ struct basic_vecvec {
     data_.insert(std::end(data_),  //
                  std::make_move_iterator(std::begin(x)),
                  std::make_move_iterator(std::end(x)));
+    guard.finished_ = true;
   }
 
   template <typename T = data_value_type,
@@ -409,6 +417,7 @@ struct basic_vecvec {
     for (auto i = old_size; i < new_size + 1U; ++i) {
       bucket_starts_[i] = data_.size();
     }
+    truncate_data(bucket_starts_.back());
   }
 
   CISTA_CUDA_COMPAT
@@ -431,6 +440,45 @@ struct basic_vecvec {
 
   DataVec data_;
   IndexVec bucket_starts_;
+
+private:
+  void verify_data_size(std::size_t const new_size) const {
+    verify(new_size >= data_.size() &&
+               new_size <= std::numeric_limits<base_t<index_value_type>>::max(),
+           "basic_vecvec: size exceeds index type");
+  }
+
+  void truncate_data(std::size_t const new_size) {
+    if (new_size >= data_.size()) {
+      return;
+    }
+    if constexpr (std::is_default_constructible_v<data_value_type>) {
+      data_.resize(static_cast<typename DataVec::size_type>(new_size));
+    } else {
+      data_.erase(std::next(std::begin(data_), new_size), std::end(data_));
+    }
+  }
+
+  // removes a half-appended row if an exception interrupts appending it
+  struct append_guard {
+    explicit append_guard(basic_vecvec& v)
+        : v_{v},
+          data_size_{v.data_.size()},
+          n_starts_{v.bucket_starts_.size()} {}
+    append_guard(append_guard const&) = delete;
+    append_guard& operator=(append_guard const&) = delete;
+    ~append_guard() {
+      if (!finished_) {
+        v_.truncate_data(data_size_);
+        v_.bucket_starts_.resize(
+            static_cast<typename IndexVec::size_type>(n_starts_));
+      }
+    }
+
+    basic_vecvec& v_;
+    std::size_t data_size_, n_starts_;
+    bool finished_{false};
+  };
 };
 
 namespace offset {
-- 
2.43.0


From 0923e8eae8d34b6ad738b7fdc5cb91a93b54594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 16/62] fix: nvec reports sizes of deeper levels correctly and
 undoes half-appended entries

---
 include/cista/containers/nvec.h | 59 +++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 82aa930..2ff214d 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -469,12 +469,14 @@ struct basic_nvec {
 
   template <typename Container>
   void emplace_back(Container&& bucket) {
+    auto guard = append_guard{*this};
     if (index_[0].size() == 0U) {
       for (auto& i : index_) {
         i.push_back(0U);
       }
     }
     add<N - 1>(bucket);
+    guard.finished_ = true;
   }
 
   iterator operator[](Key const k) { return begin() + to_idx(k); }
@@ -486,20 +488,16 @@ struct basic_nvec {
 
   template <typename... Indices>
   size_type size(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    if (sizeof...(Indices) == 0U) {
-      return get_size<N - sizeof...(Indices) - 1>(first);
-    } else {
-      return get_size<N - sizeof...(Indices) - 1>(index_[I][first], rest...);
-    }
+    static_assert(sizeof...(Indices) < N);
+    verify(to_idx(first) < size(), "nvec::size: index out of range");
+    return get_size<N - 1U>(to_idx(first), rest...);
   }
 
   template <typename... Indices>
   bucket_t at(Key const first, Indices... rest) {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
     return get_bucket(index_[I][to_idx(first)], rest...);
   }
 
@@ -507,7 +505,7 @@ struct basic_nvec {
   const_bucket_t at(Key const first, Indices... rest) const {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
     return get_bucket(index_[I][to_idx(first)], rest...);
   }
 
@@ -516,8 +514,7 @@ struct basic_nvec {
   template <typename... Rest>
   bucket_t get_bucket(index_value_type const bucket_start,
                       index_value_type const i, Rest... rest) {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+    return get_bucket(index_[sizeof...(Rest)][bucket_start + i], rest...);
   }
 
   bucket_t get_bucket(index_value_type const bucket_start,
@@ -528,8 +525,7 @@ struct basic_nvec {
   template <typename... Rest>
   const_bucket_t get_bucket(index_value_type const bucket_start,
                             index_value_type const i, Rest... rest) const {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+    return get_bucket(index_[sizeof...(Rest)][bucket_start + i], rest...);
   }
 
   const_bucket_t get_bucket(index_value_type const bucket_start,
@@ -555,11 +551,7 @@ struct basic_nvec {
   template <std::size_t L, typename... Rest>
   size_type get_size(index_value_type const i, index_value_type const j,
                      Rest... rest) const {
-    if constexpr (sizeof...(Rest) == 0U) {
-      return index_[L][i + j + 1] - index_[L][i + j];
-    } else {
-      return get_size<L>(index_[L][i + j], rest...);
-    }
+    return get_size<L - 1U>(index_[L][i] + j, rest...);
   }
 
   template <std::size_t L>
@@ -567,6 +559,37 @@ struct basic_nvec {
     return index_[L][i + 1] - index_[L][i];
   }
 
+  // removes a half-appended entry if an exception interrupts appending it
+  struct append_guard {
+    explicit append_guard(basic_nvec& v)
+        : v_{v}, data_size_{v.data_.size()}, index_sizes_{} {
+      for (auto i = std::size_t{0U}; i != N; ++i) {
+        index_sizes_[i] = v.index_[i].size();
+      }
+    }
+    append_guard(append_guard const&) = delete;
+    append_guard& operator=(append_guard const&) = delete;
+    ~append_guard() {
+      if (finished_) {
+        return;
+      }
+      if constexpr (std::is_default_constructible_v<data_value_type>) {
+        v_.data_.resize(static_cast<typename DataVec::size_type>(data_size_));
+      } else {
+        v_.data_.erase(std::begin(v_.data_) + data_size_, std::end(v_.data_));
+      }
+      for (auto i = std::size_t{0U}; i != N; ++i) {
+        v_.index_[i].resize(
+            static_cast<typename IndexVec::size_type>(index_sizes_[i]));
+      }
+    }
+
+    basic_nvec& v_;
+    std::size_t data_size_;
+    array<std::size_t, N> index_sizes_;
+    bool finished_{false};
+  };
+
   array<IndexVec, N> index_;
   DataVec data_;
 };
-- 
2.43.0


From 4ea48678f3bba2c70f36b951fde387ebc60bac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 17/62] fix: mutable_fws_multimap iterators step backwards and
 erased entries are not counted

---
 include/cista/containers/mutable_fws_multimap.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 1713ce0..1c1df05 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -318,7 +318,7 @@ struct dynamic_fws_multimap_base {
     }
 
     bucket_iterator& operator--() {
-      ++index_;
+      --index_;
       return *this;
     }
 
@@ -431,7 +431,10 @@ struct dynamic_fws_multimap_base {
 
   void erase(access_t const i) {
     if (to_idx(i) < index_.size()) {
-      release_bucket(index_[to_idx(i)]);
+      auto& idx = index_[to_idx(i)];
+      auto const size = idx.size_;
+      release_bucket(idx);
+      element_count_ -= size;
     }
   }
 
@@ -574,8 +577,9 @@ struct dynamic_fws_multimap_base {
     if (bucket.capacity_ != 0U) {
       auto const order = get_order(bucket.capacity_);
       assert(order <= Log2MaxEntriesPerBucket);
+      free_buckets_[to_idx(order)].push_back(  // NOLINT
+          index_type{bucket.begin_, size_type{0U}, bucket.capacity_});
       bucket.size_ = size_type{0U};
-      free_buckets_[to_idx(order)].push_back(index_type{bucket});  // NOLINT
       bucket.capacity_ = size_type{0U};
     }
   }
-- 
2.43.0


From e2d0b06f513fdae62b2f929fcb80128c400c1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 18/62] fix: subtracting from a fws_multimap iterator moves
 backwards

---
 include/cista/containers/fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 566e108..8f61be9 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -91,7 +91,7 @@ struct fws_multimap_iterator {
   }
 
   fws_multimap_iterator operator-(int const n) const {
-    return {map_, index_ + static_cast<index_t>(n)};
+    return {map_, index_ - static_cast<index_t>(n)};
   }
 
   int operator-(fws_multimap_iterator const& o) const {
-- 
2.43.0


From b766df6fefea76d5f07750fd2d4f20e31263fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 19/62] fix: paged_vecvec rejects rows beyond the maximal page
 size and can be iterated when empty

---
 include/cista/containers/paged.h        |  9 ++++++---
 include/cista/containers/paged_vecvec.h | 10 ++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 2866266..602b106 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -49,9 +49,9 @@ struct paged {
   static constexpr auto const free_list_size =
       free_list_index(MaxPageSize) + 1U;
 
-  page_t resize_page(page_t const& p, PageSizeType const size) {
+  page_t resize_page(page_t const& p, std::size_t const size) {
     if (size <= p.capacity_) {
-      return {size, p.capacity_, p.start_};
+      return {static_cast<PageSizeType>(size), p.capacity_, p.start_};
     } else {
       auto const new_page = create_page(size);
       copy(new_page, p);
@@ -60,7 +60,10 @@ struct paged {
     }
   }
 
-  page_t create_page(PageSizeType const size) {
+  page_t create_page(std::size_t const requested_size) {
+    verify(requested_size <= MaxPageSize,
+           "paged::create_page: size > max capacity");
+    auto const size = static_cast<PageSizeType>(requested_size);
     auto const capacity = next_power_of_two(std::max(MinPageSize, size));
     auto const i = free_list_index(capacity);
     verify(i < free_list_.size(), "paged::create_page: size > max capacity");
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 4c8a98d..fcc8166 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -297,9 +297,9 @@ struct paged_vecvec {
   base_t<Key> size() const { return idx_.size(); }
   bool empty() const { return idx_.empty(); }
 
-  bucket begin() { return front(); }
+  bucket begin() { return operator[](Key{0}); }
   bucket end() { return operator[](Key{size()}); }
-  const_bucket begin() const { return front(); }
+  const_bucket begin() const { return operator[](Key{0}); }
   const_bucket end() const { return operator[](Key{size()}); }
 
   friend bucket begin(paged_vecvec& m) { return m.begin(); }
@@ -311,8 +311,7 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(bucket.size());
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.emplace_back(p);
   }
@@ -335,8 +334,7 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void insert(Key const& k, Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(bucket.size());
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.insert(idx_.begin() + to_idx(k), p);
   }
-- 
2.43.0


From 01ec7e1b2b2776fa4ee51864ceafbb4f5425d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 20/62] fix: resizing a flat_matrix rejects oversized requests
 and stays consistent on failure

---
 include/cista/containers/flat_matrix.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 411a062..86d250d 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <cinttypes>
+#include <limits>
 
 #include "cista/containers/vector.h"
+#include "cista/verify.h"
 
 namespace cista {
 
@@ -94,9 +96,12 @@ struct base_flat_matrix {
   }
 
   void resize(size_type const n_rows, size_t const n_columns) {
+    constexpr auto const kMax = std::numeric_limits<size_type>::max();
+    verify(n_columns <= kMax && (n_columns == 0U || n_rows <= kMax / n_columns),
+           "matrix::resize: size exceeds size type");
+    entries_.resize(static_cast<size_type>(n_rows * n_columns));
     n_rows_ = n_rows;
-    n_columns_ = n_columns;
-    entries_.resize(n_rows * n_columns);
+    n_columns_ = static_cast<size_type>(n_columns);
   }
 
   void reset(value_type const& t) {
-- 
2.43.0


From 31e1d91620be3c871eaa6453a9019f2a18dbaf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 21/62] fix: move-assigning a hash table does not read its
 target, which may be uninitialised union storage

---
 include/cista/containers/hash_storage.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 4eaaae9..9dcb376 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -284,7 +284,6 @@ struct hash_storage {
     if (&other == this) {
       return *this;
     }
-    clear();
     entries_ = other.entries_;
     ctrl_ = other.ctrl_;
     size_ = other.size_;
-- 
2.43.0


From 016bd86c59bf1fdf7deb806177253c793da5ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 22/62] fix: memory targets align offsets, so images do not
 depend on the buffer address

---
 include/cista/targets/buf.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index 3a37a89..b02dbbc 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -40,14 +40,10 @@ struct buf {
                  std::size_t alignment = 0U) {
     auto start = static_cast<offset_t>(size());
     if (alignment > 1U && buf_.size() != 0U) {
-      auto unaligned_ptr = static_cast<void*>(addr(start));
-      auto space = std::numeric_limits<std::size_t>::max();
-      auto const aligned_ptr =
-          std::align(alignment, num_bytes, unaligned_ptr, space);
-      auto const new_offset = static_cast<offset_t>(
-          aligned_ptr ? static_cast<std::uint8_t*>(aligned_ptr) - base() : 0U);
-      auto const adjustment = static_cast<offset_t>(new_offset - start);
-      start += adjustment;
+      // Align the offset (not the address), so that the resulting image does not
+      // depend on where the buffer happens to be located.
+      auto const a = static_cast<offset_t>(alignment);
+      start = (start + a - 1) / a * a;
     }
 
     auto const space_left =
-- 
2.43.0


From b4c65d556763a7b3fd2f030c36df0127e9ed7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 23/62] fix: find the root of over-aligned types behind a
 header that is no multiple of their alignment

---
 include/cista/serialization.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 0153758..1c6dcbc 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -478,6 +478,14 @@ constexpr offset_t data_start(mode const m) noexcept {
   return start;
 }
 
+// Offset of the root element: aligned when it is written to the target.
+template <typename T>
+constexpr offset_t root_start(mode const m) noexcept {
+  constexpr auto const alignment =
+      static_cast<offset_t>(std::alignment_of_v<decay_t<T>>);
+  return (data_start(m) + alignment - 1) / alignment * alignment;
+}
+
 template <mode const Mode = mode::NONE, typename Target, typename T>
 void serialize(Target& t, T& value) {
   serialization_context<Target, Mode> c{t};
@@ -666,7 +674,7 @@ struct deep_check_context : public deserialization_context<Mode> {
 
 template <typename T, mode const Mode = mode::NONE>
 void check(std::uint8_t const* const from, std::uint8_t const* const to) {
-  verify(to - from > data_start(Mode), "invalid range");
+  verify(to - from > root_start<T>(Mode), "invalid range");
 
   if constexpr ((Mode & mode::WITH_VERSION) == mode::WITH_VERSION) {
     verify(convert_endian<Mode>(*reinterpret_cast<hash_t const*>(from)) ==
@@ -1109,7 +1117,7 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
     return reinterpret_cast<T*>(from);
   } else {
     check<T, Mode>(from, to);
-    auto const el = reinterpret_cast<T*>(from + data_start(Mode));
+    auto const el = reinterpret_cast<T*>(from + root_start<T>(Mode));
 
     deserialization_context<Mode> c{from, to};
     deserialize(c, el);
-- 
2.43.0


From 6f50dacbe57b9edc678ed12f4d61e560b1bf23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 24/62] fix: align the characters of wide strings in images

---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 1c6dcbc..2683e1b 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -224,7 +224,8 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
       (origin->h_.ptr_ == nullptr || origin->empty())
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
-                    origin->size() * sizeof(typename Type::CharT));
+                    origin->size() * sizeof(typename Type::CharT),
+                    std::alignment_of_v<typename Type::CharT>);
   if (start != NULLPTR_OFFSET) {
     str_convert_endian(c, start, origin->data(),
                        static_cast<offset_t>(origin->size()));
-- 
2.43.0


From f44eae32c08a05084cefb55c18134db4e1d57d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 25/62] fix: file checksums with XXH3 and wyhash equal the
 checksum of the loaded image

---
 include/cista/hash.h         |  8 ++++++++
 include/cista/targets/file.h | 15 +++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/cista/hash.h b/include/cista/hash.h
index 04b647e..794ecec 100644
--- a/include/cista/hash.h
+++ b/include/cista/hash.h
@@ -148,4 +148,12 @@ constexpr std::uint64_t hash(T const& buf,
 
 #endif
 
+// hash(b, hash(a)) == hash(ab) does not hold for XXH3 and wyhash.
+#if defined(CISTA_XXH3) || defined(CISTA_WYHASH) || \
+    defined(CISTA_WYHASH_FASTEST)
+constexpr auto const IS_INCREMENTAL_HASH = false;
+#else
+constexpr auto const IS_INCREMENTAL_HASH = true;
+#endif
+
 }  // namespace cista
diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index de79952..d8cf360 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -110,6 +110,14 @@ struct file {
 
   std::uint64_t checksum(offset_t const start = 0) const {
     constexpr auto const block_size = 512U * 1024U;  // 512kB
+    if constexpr (!IS_INCREMENTAL_HASH) {
+      auto const all = content();
+      verify(all.size() == size_ && size_ >= static_cast<std::size_t>(start),
+             "checksum read error");
+      return hash(std::string_view{
+          reinterpret_cast<char const*>(all.data()) + start,
+          size_ - static_cast<std::size_t>(start)});
+    }
     auto c = BASE_HASH;
     char buf[block_size];
     chunk(block_size, size_ - static_cast<std::size_t>(start),
@@ -266,6 +274,13 @@ struct file {
         static_cast<std::size_t>(512U * 1024U);  // 512kB
     verify(size_ >= static_cast<std::size_t>(start), "invalid checksum offset");
     verify(!std::fseek(f_, static_cast<long>(start), SEEK_SET), "fseek error");
+    if constexpr (!IS_INCREMENTAL_HASH) {
+      auto all = buffer(size_ - static_cast<std::size_t>(start));
+      verify(std::fread(all.data(), 1U, all.size(), f_) == all.size(),
+             "invalid read");
+      return hash(std::string_view{reinterpret_cast<char const*>(all.data()),
+                                   all.size()});
+    }
     auto c = BASE_HASH;
     char buf[block_size];
     chunk(block_size, size_ - static_cast<std::size_t>(start),
-- 
2.43.0


From 55c8df58e115ec4820ae1c268e4324e54ee0258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 26/62] fix: bitvec::reset clears the bits instead of dropping
 the blocks, so shifting everything out works

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ac79f1e..a387b05 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -120,7 +120,7 @@ struct basic_bitvec {
     }
   }
 
-  void reset() noexcept { blocks_ = {}; }
+  void reset() noexcept { zero_out(); }
 
   bool operator[](Key const i) const noexcept { return test(i); }
 
-- 
2.43.0


From 0da87b1b469e68c8f9f695ff621df61113985dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 27/62] fix: bitvec::next_set_bit does not report bits beyond
 the size

---
 include/cista/containers/bitvec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index a387b05..496a88a 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -172,7 +172,9 @@ struct basic_bitvec {
     }
 
     auto const first_block_idx = i / bits_per_block;
-    auto const first_block = blocks_[first_block_idx];
+    auto const first_block = first_block_idx + 1U == blocks_.size()
+                                 ? sanitized_last_block()
+                                 : blocks_[first_block_idx];
     if (first_block != 0U) {
       auto const first_bit = i % bits_per_block;
       auto const n = std::min(size(), bits_per_block);
-- 
2.43.0


From 1e80e3193b6d056df411b1b29fd929588ffc438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 28/62] fix: assigning a variant from a const or an lvalue of
 the current alternative assigns the value

---
 include/cista/containers/variant.h | 897 +++++++++++++++--------------
 1 file changed, 449 insertions(+), 448 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index b035975..5a3fb1c 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,448 +1,449 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant&& o) {
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *(new (&storage_)
+                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = I;
+    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 15U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
-- 
2.43.0


From a1163bc9451f5ec2259386d34d8322fe2405c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 29/62] fix: variants without a value can be copied, moved,
 assigned, swapped and compared

---
 include/cista/containers/variant.h | 37 ++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 5a3fb1c..c138226 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -82,12 +82,18 @@ struct variant {
   }
 
   variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::forward<decltype(el)>(el));
     });
   }
   variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::move(el));
@@ -95,9 +101,19 @@ struct variant {
   }
 
   variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply([&](auto&& el) -> variant& { return *this = el; });
   }
   variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply(
         [&](auto&& el) -> variant& { return *this = std::move(el); });
   }
@@ -132,6 +148,9 @@ struct variant {
   constexpr operator bool() const noexcept { return valid(); }
 
   friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
                        a.idx_, a, b)
@@ -139,6 +158,9 @@ struct variant {
   }
 
   friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
                        a.idx_, a, b)
@@ -146,6 +168,9 @@ struct variant {
   }
 
   friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                        a, b)
@@ -153,6 +178,9 @@ struct variant {
   }
 
   friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
                        a, b)
@@ -160,6 +188,9 @@ struct variant {
   }
 
   friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
                        a.idx_, a, b)
@@ -167,6 +198,9 @@ struct variant {
   }
 
   friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
                        a.idx_, a, b)
@@ -194,6 +228,9 @@ struct variant {
   constexpr std::size_t index() const noexcept { return idx_; }
 
   void swap(variant& o) {
+    if (!valid() && !o.valid()) {
+      return;
+    }
     if (idx_ == o.idx_) {
       apply(
           [](auto&& a, auto&& b) {
-- 
2.43.0


From 14d30226cb045c522136a7364857868eb9660b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 30/62] fix: a variant whose new value could not be constructed
 has no value

---
 include/cista/containers/variant.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index c138226..7afb019 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -132,8 +132,9 @@ struct variant {
       return *this;
     }
     destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    idx_ = NO_VALUE;  // in case the constructor throws
     new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
     return *this;
   }
 #if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
@@ -211,18 +212,22 @@ struct variant {
   Arg& emplace(CtorArgs&&... ctor_args) {
     static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
     destruct();
+    idx_ = NO_VALUE;  // in case the constructor throws
+    auto& value = *(new (&storage_) std::decay_t<Arg>{
+        std::forward<CtorArgs>(ctor_args)...});
     idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+    return value;
   }
 
   template <std::size_t I, typename... CtorArgs>
   type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
     static_assert(I < sizeof...(T));
     destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+    idx_ = NO_VALUE;  // in case the constructor throws
+    auto& value = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
         std::forward<CtorArgs>(ctor_args)...});
+    idx_ = I;
+    return value;
   }
 
   constexpr std::size_t index() const noexcept { return idx_; }
-- 
2.43.0


From 93554f494741fa1c03e1c7a3d16b6055fd472818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 31/62] fix: variants with more than 16 alternatives compile

---
 include/cista/containers/variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 7afb019..26e6434 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -367,7 +367,8 @@ struct variant {
     }
 
     if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
     }
 
 #ifndef _MSC_VER
-- 
2.43.0


From 518d30a4a0784a442e0398717cec8a828f86ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 32/62] fix: optional destroys the value it holds

---
 include/cista/containers/optional.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index a9d5df5..303c52f 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -29,7 +29,21 @@ struct optional {
     return move(std::forward<optional>(other));
   }
 
+  ~optional() { reset(); }
+
+  void reset() noexcept {
+    if (valid_) {
+      valid_ = false;
+      reinterpret_cast<T*>(&storage_[0])->~T();
+    }
+  }
+
   optional& copy(optional const& other) {
+    if (this == &other) {
+      return *this;
+    }
+
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T{other.value()};
     }
@@ -40,6 +54,11 @@ struct optional {
   }
 
   optional& move(optional&& other) {
+    if (this == &other) {
+      return *this;
+    }
+
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T(std::move(other.value()));
     }
-- 
2.43.0


From ff7e3cb59d723b260ca6d2c82a4db5115b2ca432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 33/62] fix: copying a non-const optional copies its value
 instead of converting it from bool

---
 include/cista/containers/optional.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index 303c52f..d1733c0 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -22,6 +22,7 @@ struct optional {
   optional(std::nullopt_t) noexcept {}
 
   optional(optional const& other) { copy(other); }
+  optional(optional& other) { copy(other); }
   optional& operator=(optional const& other) { return copy(other); }
 
   optional(optional&& other) noexcept { move(std::forward<optional>(other)); }
-- 
2.43.0


From b58c9497575a173ddb97bd18866cb58828a3620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 34/62] fix: resetting a non-owning unique_ptr leaves it empty

---
 include/cista/containers/unique_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index c490a6b..1d41b20 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -47,9 +47,9 @@ struct basic_unique_ptr {
   void reset() {
     if (self_allocated_ && el_ != nullptr) {
       delete el_;
-      el_ = nullptr;
-      self_allocated_ = false;
     }
+    el_ = nullptr;
+    self_allocated_ = false;
   }
 
   explicit operator bool() const noexcept { return el_ != nullptr; }
-- 
2.43.0


From bc286ca44277b2419a611df21fbf799eea0918a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 35/62] fix: moving a unique_ptr onto itself keeps its value

---
 include/cista/containers/unique_ptr.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index 1d41b20..f1c1158 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -28,6 +28,9 @@ struct basic_unique_ptr {
   }
 
   basic_unique_ptr& operator=(basic_unique_ptr&& o) noexcept {
+    if (this == &o) {
+      return *this;
+    }
     reset();
     el_ = o.el_;
     self_allocated_ = o.self_allocated_;
-- 
2.43.0


From 25b64f3aeb37f21626c467d1ef33f1f7eaee637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 36/62] fix: a tuple whose element cannot be constructed
 destroys the elements constructed before it

---
 include/cista/containers/tuple.h | 33 +++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/tuple.h b/include/cista/containers/tuple.h
index 12ee6db..677e220 100644
--- a/include/cista/containers/tuple.h
+++ b/include/cista/containers/tuple.h
@@ -127,21 +127,40 @@ struct tuple {
 
   ~tuple() { destruct(Indices); }
 
+  // Destroys the elements constructed so far if a constructor throws.
   template <std::size_t... Is>
-  constexpr void move_construct_from_args(seq_t<Is...>, Ts&&... args) {
-    (new (get_ptr<Is>())
-         tuple_element_t<Is, Ts...>(get_arg<Is>(std::forward<Ts>(args)...)),
+  struct construct_guard {
+    ~construct_guard() {
+      if (n_constructed_ != sizeof...(Ts)) {
+        ((Is < n_constructed_ ? self_.destruct(get<Is>(self_)) : void()), ...);
+      }
+    }
+    tuple& self_;
+    std::size_t n_constructed_{0U};
+  };
+
+  template <std::size_t... Is>
+  void move_construct_from_args(seq_t<Is...>, Ts&&... args) {
+    auto guard = construct_guard<Is...>{*this};
+    ((new (get_ptr<Is>()) tuple_element_t<Is, Ts...>(
+          get_arg<Is>(std::forward<Ts>(args)...)),
+      ++guard.n_constructed_),
      ...);
   }
 
   template <std::size_t... Is>
-  constexpr void default_construct(seq_t<Is...>) {
-    ((new (get_ptr<Is>()) tuple_element_t<Is, Ts...>{}), ...);
+  void default_construct(seq_t<Is...>) {
+    auto guard = construct_guard<Is...>{*this};
+    ((new (get_ptr<Is>()) tuple_element_t<Is, Ts...>{}, ++guard.n_constructed_),
+     ...);
   }
 
   template <typename From, std::size_t... Is>
-  constexpr void copy_construct(From const& from, seq_t<Is...>) {
-    (new (get_ptr<Is>()) tuple_element_t<Is, Ts...>(get<Is>(from)), ...);
+  void copy_construct(From const& from, seq_t<Is...>) {
+    auto guard = construct_guard<Is...>{*this};
+    ((new (get_ptr<Is>()) tuple_element_t<Is, Ts...>(get<Is>(from)),
+      ++guard.n_constructed_),
+     ...);
   }
 
   template <typename From, std::size_t... Is>
-- 
2.43.0


From d7ca18929a0dca91f9f6e6c47e91700860e1b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 37/62] fix: rtree: trees higher than 16 levels wrote beyond
 the path hints

---
 include/cista/containers/rtree.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index de74b0b..ddd4b07 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -380,7 +380,7 @@ struct basic_rtree {
 
   std::uint32_t node_choose(node const& search_node, rect const& search_rect,
                             std::uint32_t const depth) {
-    auto const h = m_.path_hint_[depth];
+    auto const h = get_path_hint(depth);
     if (h < search_node.count_) {
       if (search_node.rects_[h].contains(search_rect)) {
         return h;
@@ -390,17 +390,29 @@ struct basic_rtree {
     // Take a quick look for the first node that contain the rect.
     for (auto i = 0U; i != search_node.count_; ++i) {
       if (search_node.rects_[i].contains(search_rect)) {
-        m_.path_hint_[depth] = i;
+        set_path_hint(depth, i);
         return i;
       }
     }
 
     // Fallback to using che "choose least enlargment" algorithm.
     auto const i = search_node.choose_least_enlargement(search_rect);
-    m_.path_hint_[depth] = i;
+    set_path_hint(depth, i);
     return i;
   }
 
+  // The tree can be higher than there are hints (many equal rectangles).
+  std::uint32_t get_path_hint(std::uint32_t const depth) const noexcept {
+    return depth < m_.path_hint_.size() ? m_.path_hint_[depth] : 0U;
+  }
+
+  void set_path_hint(std::uint32_t const depth,
+                     std::uint32_t const i) noexcept {
+    if (depth < m_.path_hint_.size()) {
+      m_.path_hint_[depth] = i;
+    }
+  }
+
   node& get_node(node_idx_t const node_id) { return nodes_[node_id]; }
   node const& get_node(node_idx_t const node_id) const {
     return nodes_[node_id];
@@ -502,7 +514,7 @@ struct basic_rtree {
       return;
     }
 
-    auto h = m_.path_hint_[depth];
+    auto h = get_path_hint(depth);
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
@@ -537,7 +549,7 @@ struct basic_rtree {
         shrunk = true;
         return;
       }
-      m_.path_hint_[depth] = h;
+      set_path_hint(depth, h);
       if (shrunk) {
         shrunk = !delete_node.rects_[h].equals(crect);
         if (shrunk) {
-- 
2.43.0


From 8ca9ce19916df883082565257258e47ba70f6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 38/62] fix: rtree: an unsuccessful delete visited subtrees
 twice per level (exponential in the height)

---
 include/cista/containers/rtree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/rtree.h b/include/cista/containers/rtree.h
index ddd4b07..d9af339 100644
--- a/include/cista/containers/rtree.h
+++ b/include/cista/containers/rtree.h
@@ -515,6 +515,7 @@ struct basic_rtree {
     }
 
     auto h = get_path_hint(depth);
+    auto visited = delete_node.count_;
     auto crect = rect{};
     if (h < delete_node.count_) {
       if (delete_node.rects_[h].contains(input_rect)) {
@@ -523,11 +524,12 @@ struct basic_rtree {
         if (removed) {
           goto removed;
         }
+        visited = h;
       }
     }
     h = 0;
     for (; h < delete_node.count_; h++) {
-      if (!delete_node.rects_[h].contains(input_rect)) {
+      if (h == visited || !delete_node.rects_[h].contains(input_rect)) {
         continue;
       }
       crect = delete_node.rects_[h];
-- 
2.43.0


From c23377e4aab4ac7eeaff1bdec303dd4a7e6d69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 39/62] fix: vecvec: resize works with index vectors that have
 no back()

---
 include/cista/containers/vecvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index d6c9fc3..17997a2 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -417,7 +417,7 @@ struct basic_vecvec {
     for (auto i = old_size; i < new_size + 1U; ++i) {
       bucket_starts_[i] = data_.size();
     }
-    truncate_data(bucket_starts_.back());
+    truncate_data(bucket_starts_[new_size]);
   }
 
   CISTA_CUDA_COMPAT
-- 
2.43.0


From 9823aa34cb6d71577e2841303109709d09ac43b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 40/62] fix: fetch_or and fetch_and return the previous value
 in every build

Without std::atomic_ref (C++17) they returned the new value.
---
 include/cista/atomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 5d1855b..ac4fd55 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -16,7 +16,7 @@ inline std::uint64_t fetch_or(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_or(mask);
 #else
-  return __atomic_or_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_or(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
@@ -26,7 +26,7 @@ inline std::uint64_t fetch_and(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_and(mask);
 #else
-  return __atomic_and_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_and(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
-- 
2.43.0


From 9a838a05ac9275b29814e50eeb0d3d5f79c86bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 41/62] fix: fetch_max updates when the new value is larger

---
 include/cista/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index ac4fd55..95fcc25 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -47,7 +47,7 @@ inline std::int16_t fetch_max(std::int16_t& block, std::int16_t const val) {
   // UB due to aliasing but `std::atomic_ref` is not there yet.
   auto const a = reinterpret_cast<std::atomic_int16_t*>(&block);
   auto old = a->load();
-  if (old > val) {
+  if (old < val) {
     while (!a->compare_exchange_weak(old, std::max(old, val),
                                      std::memory_order_release,
                                      std::memory_order_relaxed)) {
-- 
2.43.0


From 0453f9a4777381b43416545505b44a17583a4b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 42/62] fix: loading rejects a bit vector whose size does not
 match its blocks

---
 include/cista/containers/bitvec.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index 496a88a..36311d9 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -484,6 +484,14 @@ struct basic_bitvec {
   Vec blocks_;
 };
 
+template <typename Ctx, typename Vec, typename Key, typename Fn>
+void recurse(Ctx& c, basic_bitvec<Vec, Key>* el, Fn&& fn) {
+  fn(&el->blocks_);
+  c.require(el->blocks_.size() ==
+                basic_bitvec<Vec, Key>::num_blocks(el->size_),
+            "bitvec size mismatch");
+}
+
 namespace offset {
 using bitvec = basic_bitvec<vector<std::uint64_t>>;
 }
-- 
2.43.0


From a40a5246e7f3f805fd6429da6709c8e8f61a3ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 43/62] fix: loading rejects vecvec rows outside of the data

---
 include/cista/containers/vecvec.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 17997a2..a0b73be 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -481,6 +481,20 @@ private:
   };
 };
 
+template <typename Ctx, typename Key, typename DataVec, typename IndexVec,
+          typename Fn>
+void recurse(Ctx& c, basic_vecvec<Key, DataVec, IndexVec>* el, Fn&& fn) {
+  fn(&el->data_);
+  fn(&el->bucket_starts_);
+
+  auto prev = std::size_t{0U};
+  for (auto const& start : el->bucket_starts_) {
+    auto const pos = static_cast<std::size_t>(to_idx(start));
+    c.require(pos >= prev && pos <= el->data_.size(), "vecvec bucket start");
+    prev = pos;
+  }
+}
+
 namespace offset {
 
 template <typename K, typename V, typename SizeType = base_t<K>>
-- 
2.43.0


From 76b909afee192a42b84cbdce46ea71cb3eb6ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 44/62] fix: loading rejects fws_multimap rows outside of the
 data

---
 include/cista/containers/fws_multimap.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 8f61be9..137fe2b 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -200,6 +200,22 @@ struct fws_multimap {
   bool complete_{false};
 };
 
+template <typename Ctx, typename DataVec, typename IndexVec, typename Fn>
+void recurse(Ctx& c, fws_multimap<DataVec, IndexVec>* el, Fn&& fn) {
+  fn(&el->data_);
+  fn(&el->index_);
+  fn(&el->current_start_);
+  fn(&el->complete_);
+
+  auto prev = std::size_t{0U};
+  for (auto const& start : el->index_) {
+    auto const pos = static_cast<std::size_t>(to_idx(start));
+    c.require(pos >= prev && pos <= el->data_.size(), "fws_multimap index");
+    prev = pos;
+  }
+  c.require(!el->complete_ || !el->index_.empty(), "fws_multimap: no index");
+}
+
 namespace offset {
 
 template <typename K, typename V>
-- 
2.43.0


From 81bf4e3bad4eddd466cc8387bab9453a7e84055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 45/62] fix: loading rejects a matrix with more rows and
 columns than entries

---
 include/cista/containers/flat_matrix.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 86d250d..4e6eb87 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -112,6 +112,16 @@ struct base_flat_matrix {
   Vector entries_;
 };
 
+template <typename Ctx, typename Vector, typename Fn>
+void recurse(Ctx& c, base_flat_matrix<Vector>* el, Fn&& fn) {
+  fn(&el->n_rows_);
+  fn(&el->n_columns_);
+  fn(&el->entries_);
+  c.require(el->n_columns_ == 0U ||
+                el->n_rows_ <= el->entries_.size() / el->n_columns_,
+            "matrix size mismatch");
+}
+
 namespace offset {
 
 template <typename T>
-- 
2.43.0


From ecba25e8bed3b8f43638cf9b505568bf2c51702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 46/62] fix: loading rejects nvec rows outside of the level
 below

---
 include/cista/containers/nvec.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 2ff214d..9db58bd 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -594,6 +594,25 @@ struct basic_nvec {
   DataVec data_;
 };
 
+template <typename Ctx, typename Key, typename DataVec, typename IndexVec,
+          std::size_t N, typename SizeType, typename Fn>
+void recurse(Ctx& c, basic_nvec<Key, DataVec, IndexVec, N, SizeType>* el,
+             Fn&& fn) {
+  fn(&el->index_);
+  fn(&el->data_);
+
+  auto max = static_cast<std::size_t>(el->data_.size());
+  for (auto const& index : el->index_) {
+    auto prev = std::size_t{0U};
+    for (auto const& start : index) {
+      auto const pos = static_cast<std::size_t>(to_idx(start));
+      c.require(pos >= prev && pos <= max, "nvec index");
+      prev = pos;
+    }
+    max = index.empty() ? 0U : index.size() - 1U;
+  }
+}
+
 namespace offset {
 
 template <typename K, typename V, std::size_t N,
-- 
2.43.0


From a8f952addcfcbf81db441f1e6afa4b2d2ed8f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 47/62] fix: loading rejects paged_vecvec pages outside of the
 data

---
 include/cista/containers/paged_vecvec.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index fcc8166..579cac6 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -355,4 +355,18 @@ struct paged_vecvec {
   Index idx_;
 };
 
+template <typename Ctx, typename Index, typename Paged, typename Key,
+          typename Fn>
+void recurse(Ctx& c, paged_vecvec<Index, Paged, Key>* el, Fn&& fn) {
+  fn(&el->paged_);
+  fn(&el->idx_);
+
+  auto const n = el->paged_.data_.size();
+  for (auto const& p : el->idx_) {
+    c.require(p.start_ <= n && p.size_ <= n - p.start_ &&
+                  (n == 0U || p.start_ != n),
+              "paged_vecvec page");
+  }
+}
+
 }  // namespace cista
\ No newline at end of file
-- 
2.43.0


From bd165c0090e06a5176b6ced0e8258caba166b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 48/62] fix: loading rejects mutable fws_multimap rows outside
 of the data

---
 include/cista/serialization.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 2683e1b..0208e12 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -955,13 +955,19 @@ template <typename Ctx, typename T, typename SizeType,
           template <typename> typename Vec, std::size_t Log2MaxEntriesPerBucket,
           typename Fn>
 void recurse(
-    Ctx&,
+    Ctx& c,
     dynamic_fws_multimap_base<T, SizeType, Vec, Log2MaxEntriesPerBucket>* el,
     Fn&& fn) {
   fn(&el->index_);
   fn(&el->data_);
   fn(&el->free_buckets_);
   fn(&el->element_count_);
+
+  auto const n = el->data_.size();
+  for (auto const& i : el->index_) {
+    c.require(i.begin_ <= n && i.size_ <= n - i.begin_,
+              "fws_multimap bucket range");
+  }
 }
 
 // --- HASH_STORAGE<T> ---
-- 
2.43.0


From 89f7f1f0e68bc3c69f6f98328003daaf2cd114b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 49/62] fix: loading rejects hash tables with an invalid
 capacity or broken cloned ctrl bytes

---
 include/cista/serialization.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 0208e12..8634c9a 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1021,6 +1021,16 @@ void check_state(Ctx const& c,
                         }),
             "hash storage: ctrl bytes must be empty or deleted or full");
 
+  // Lookups mask positions by the capacity and read groups which start close
+  // to the end from the copy of the first ctrl bytes behind the end byte.
+  c.require((el->capacity_ & (el->capacity_ + 1U)) == 0U,
+            "hash storage: capacity");
+  for (auto i = typename Type::size_type{0U}; i != Type::WIDTH; ++i) {
+    c.require(el->ctrl_[el->capacity_ + 1U + i] ==
+                  (i < el->capacity_ ? el->ctrl_[i] : Type::EMPTY),
+              "hash storage: cloned ctrl bytes");
+  }
+
   using st_t = typename Type::size_type;
   auto [total_empty, total_full, total_deleted] = std::accumulate(
       ptr_cast(el->ctrl_), ptr_cast(el->ctrl_) + el->capacity_,
-- 
2.43.0


From 865a15d3457636f7d191519a4594f85755845f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 50/62] fix: vector insert returns the position of the first
 inserted element

---
 include/cista/containers/vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index a531f3f..89cb65f 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -233,7 +233,8 @@ struct basic_vector {
     new (el_ + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <typename El>
@@ -247,7 +248,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -261,7 +263,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
-- 
2.43.0


From 131b2b3c2af007561fdccb85432318f9bb1ada79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 51/62] fix: vector range erase returns the position after the
 erased elements

---
 include/cista/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 89cb65f..38b90bf 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -430,7 +430,7 @@ struct basic_vector {
       }
       used_size_ -= static_cast<size_type>(std::distance(new_end, end()));
     }
-    return end();
+    return first;
   }
 
   bool contains(T const* el) const noexcept {
-- 
2.43.0


From b3dbfaf9a20f2157416ef5c097ba4e090fd3e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 52/62] fix: variant keeps the file's original CRLF line
 endings

---
 include/cista/containers/variant.h | 984 ++++++++++++++---------------
 1 file changed, 492 insertions(+), 492 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 26e6434..6c559e8 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,492 +1,492 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    if (!o.valid()) {
-      return;
-    }
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    if (!o.valid()) {
-      destruct();
-      idx_ = NO_VALUE;
-      return *this;
-    }
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant&& o) {
-    if (!o.valid()) {
-      destruct();
-      idx_ = NO_VALUE;
-      return *this;
-    }
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
-                                     std::decay_t<Arg>>) {
-          el = std::forward<Arg>(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = NO_VALUE;  // in case the constructor throws
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return false;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    if (!a.valid() && !b.valid()) {
-      return true;
-    }
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = NO_VALUE;  // in case the constructor throws
-    auto& value = *(new (&storage_) std::decay_t<Arg>{
-        std::forward<CtorArgs>(ctor_args)...});
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return value;
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = NO_VALUE;  // in case the constructor throws
-    auto& value = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-    idx_ = I;
-    return value;
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (!valid() && !o.valid()) {
-      return;
-    }
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), idx,
-                               std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = NO_VALUE;  // in case the constructor throws
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = NO_VALUE;  // in case the constructor throws
+    auto& value = *(new (&storage_) std::decay_t<Arg>{
+        std::forward<CtorArgs>(ctor_args)...});
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return value;
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = NO_VALUE;  // in case the constructor throws
+    auto& value = *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+    idx_ = I;
+    return value;
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (!valid() && !o.valid()) {
+      return;
+    }
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 15U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
-- 
2.43.0


From ffd6d984d753a6007fe340f0d54ee090a958aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 53/62] fix: rows of a flat matrix can be iterated

---
 include/cista/containers/flat_matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 4e6eb87..a270eb1 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -20,16 +20,16 @@ struct base_flat_matrix {
     using const_iterator = typename Vector::const_iterator;
 
     const_iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     const_iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     iterator begin() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend const_iterator begin(row const& r) { return r.begin(); }
     friend const_iterator end(row const& r) { return r.end(); }
@@ -53,10 +53,10 @@ struct base_flat_matrix {
     using iterator = typename Vector::const_iterator;
 
     iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend iterator begin(const_row const& r) { return r.begin(); }
     friend iterator end(const_row const& r) { return r.end(); }
-- 
2.43.0


From a0a335b5eb6a01925722ac929a92add753cb4b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 54/62] fix: make_flat_matrix rejects sizes whose product
 overflows

---
 include/cista/containers/flat_matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index a270eb1..a22e8ab 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -131,6 +131,9 @@ template <typename T>
 inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
+  constexpr auto const kMax = std::numeric_limits<std::uint32_t>::max();
+  verify(n_columns == 0U || n_rows <= kMax / n_columns,
+         "make_flat_matrix: size exceeds size type");
   auto v = vector<T>{};
   v.resize(n_rows * n_columns, init);
   return {n_rows, n_columns, std::move(v)};
@@ -147,6 +150,9 @@ template <typename T>
 inline flat_matrix<T> make_flat_matrix(std::uint32_t const n_rows,
                                        std::uint32_t const n_columns,
                                        T const& init = T{}) {
+  constexpr auto const kMax = std::numeric_limits<std::uint32_t>::max();
+  verify(n_columns == 0U || n_rows <= kMax / n_columns,
+         "make_flat_matrix: size exceeds size type");
   auto v = vector<T>{};
   v.resize(n_rows * n_columns, init);
   return {n_rows, n_columns, std::move(v)};
-- 
2.43.0


From 9848d8e5c9da1f0f249abcb9405782c3de4532d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 55/62] fix: postfix increment and decrement move a relative
 pointer and return its old position

---
 include/cista/containers/offset_ptr.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index a8e699f..9a8f909 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -104,8 +104,17 @@ struct offset_ptr {
     return *this;
   }
 
-  offset_ptr operator++(int) const noexcept { return offset_ptr{get() + 1}; }
-  offset_ptr operator--(int) const noexcept { return offset_ptr{get() - 1}; }
+  offset_ptr operator++(int) noexcept {
+    auto const old = *this;
+    ++*this;
+    return old;
+  }
+
+  offset_ptr operator--(int) noexcept {
+    auto const old = *this;
+    --*this;
+    return old;
+  }
 
   offset_t offset_{NULLPTR_OFFSET};
 };
-- 
2.43.0


From 95c186d539e15928b0417f2934dfa19c5cfa30d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 56/62] fix: relative void pointers compare by address, not by
 being set

---
 include/cista/containers/offset_ptr.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index 9a8f909..d0d112b 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -161,6 +161,12 @@ struct offset_ptr<T, std::enable_if_t<std::is_same_v<void, T>>> {
     return ptr;
   }
 
+  friend bool operator==(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() == b.get();
+  }
+  friend bool operator!=(offset_ptr const& a, offset_ptr const& b) noexcept {
+    return a.get() != b.get();
+  }
   friend bool operator==(std::nullptr_t, offset_ptr const& o) noexcept {
     return o.offset_ == NULLPTR_OFFSET;
   }
-- 
2.43.0


From 3b158b52c08221e364e47da9e67b16ad44c41b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:18 +0000
Subject: [PATCH 57/62] fix: a moved-from cstring with raw pointers is empty

---
 include/cista/containers/cstring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 77e83c2..6c2299e 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -122,7 +122,7 @@ struct generic_cstring {
     reset();
     std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
     if constexpr (std::is_pointer_v<Ptr>) {
-      std::memset(static_cast<void*>(&s), 0, sizeof(*this));
+      s.s_ = stack{};
     } else if (!s.is_short()) {
       h_.ptr_ = s.h_.ptr_;
       s.s_ = stack{};
-- 
2.43.0


From 15fa2e4fb5c6d846ff7e47837708848620ba5e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 58/62] fix: generic_cstring is copied and moved by content

---
 include/cista/containers/cstring.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 6c2299e..1548ca5 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -7,6 +7,7 @@
 #include <ostream>
 #include <string>
 #include <string_view>
+#include <utility>
 
 #include "cista/containers/ptr.h"
 #include "cista/exception.h"
@@ -46,6 +47,18 @@ struct generic_cstring {
   generic_cstring(char const* s, owning_t const) { set_owning(s); }
   generic_cstring(char const* s, non_owning_t const) { set_non_owning(s); }
 
+  generic_cstring(generic_cstring&& o) noexcept { move_from(std::move(o)); }
+  generic_cstring(generic_cstring const& o) { copy_from(o); }
+
+  generic_cstring& operator=(generic_cstring&& o) noexcept {
+    move_from(std::move(o));
+    return *this;
+  }
+  generic_cstring& operator=(generic_cstring const& o) {
+    copy_from(o);
+    return *this;
+  }
+
   char* begin() noexcept { return data(); }
   char* end() noexcept { return data() + size(); }
   char const* begin() const noexcept { return data(); }
-- 
2.43.0


From 97dbe363d7b4364cd47029e32e3a5bd17e88ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 59/62] fix: type hashes tell character widths and vector size
 types apart

---
 include/cista/type_hash/static_type_hash.h | 18 +++++++++++++++---
 include/cista/type_hash/type_hash.h        | 19 ++++++++++++++++---
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index e396a3b..9c219bd 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -175,6 +175,9 @@ constexpr auto static_type_hash(
     basic_vector<T, Ptr, Indexed, TemplateSizeType> const*,
     hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = h.combine(sizeof(TemplateSizeType));
+  }
   return static_type_hash(null<T>(), h);
 }
 
@@ -210,22 +213,31 @@ constexpr auto static_type_hash(tuple<T...> const*,
   return h;
 }
 
+template <typename Ptr, std::size_t NMaxTypes>
+constexpr auto static_string_type_hash(hash_data<NMaxTypes> h) noexcept {
+  h = h.combine(hash("string"));
+  if constexpr (sizeof(remove_pointer_t<Ptr>) != sizeof(char)) {
+    h = h.combine(sizeof(remove_pointer_t<Ptr>));
+  }
+  return h;
+}
+
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(generic_string<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  return static_string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(basic_string<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  return static_string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr, std::size_t NMaxTypes>
 constexpr auto static_type_hash(basic_string_view<Ptr> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  return h.combine(hash("string"));
+  return static_string_type_hash<Ptr>(h);
 }
 
 template <typename T, std::size_t NMaxTypes>
diff --git a/include/cista/type_hash/type_hash.h b/include/cista/type_hash/type_hash.h
index 886026b..264e6a0 100644
--- a/include/cista/type_hash/type_hash.h
+++ b/include/cista/type_hash/type_hash.h
@@ -93,6 +93,9 @@ template <typename T, template <typename> typename Ptr, bool Indexed,
 hash_t type_hash(basic_vector<T, Ptr, Indexed, TemplateSizeType> const&,
                  hash_t h, std::map<hash_t, unsigned>& done) noexcept {
   h = hash_combine(h, hash("vector"));
+  if constexpr (sizeof(TemplateSizeType) != sizeof(std::uint32_t)) {
+    h = hash_combine(h, sizeof(TemplateSizeType));
+  }
   return type_hash(T{}, h, done);
 }
 
@@ -127,22 +130,32 @@ hash_t type_hash(tuple<T...> const&, hash_t h,
   return h;
 }
 
+template <typename Ptr>
+hash_t string_type_hash(hash_t h) noexcept {
+  h = hash_combine(h, hash("string"));
+  constexpr auto const char_size = sizeof(remove_pointer_t<Ptr>);
+  if constexpr (char_size != sizeof(char)) {
+    h = hash_combine(h, char_size);
+  }
+  return h;
+}
+
 template <typename Ptr>
 hash_t type_hash(generic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  return string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  return string_type_hash<Ptr>(h);
 }
 
 template <typename Ptr>
 hash_t type_hash(basic_string_view<Ptr> const&, hash_t h,
                  std::map<hash_t, unsigned>&) noexcept {
-  return hash_combine(h, hash("string"));
+  return string_type_hash<Ptr>(h);
 }
 
 template <typename T>
-- 
2.43.0


From 9c7e53ee825ef08cfa38bc8a2fef31b67f2e4bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 60/62] fix: static type hash tells units of durations apart

---
 include/cista/type_hash/static_type_hash.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index 9c219bd..4540b8a 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -140,7 +140,8 @@ constexpr auto static_type_hash(std::chrono::duration<Rep, Period> const*,
                                 hash_data<NMaxTypes> h) noexcept {
   h = h.combine(hash("duration"));
   h = static_type_hash(null<Rep>(), h);
-  h = static_type_hash(null<Period>(), h);
+  h = h.combine(static_cast<hash_t>(Period::num));
+  h = h.combine(static_cast<hash_t>(Period::den));
   return h;
 }
 
-- 
2.43.0


From 00917c0a8bcf517ac7a22ae063a97ab458536843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 61/62] fix: loading through a string view checks the data

deserialize<T>(std::string_view) loads the root object as T const. None of
the overloads which check the members (check_state, recurse) match pointers
to const, so damaged data was accepted unchecked and roots with indexed
members did not compile.
---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 8634c9a..d67ad91 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -1134,7 +1134,8 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
     return reinterpret_cast<T*>(from);
   } else {
     check<T, Mode>(from, to);
-    auto const el = reinterpret_cast<T*>(from + root_start<T>(Mode));
+    auto const el = reinterpret_cast<std::remove_const_t<T>*>(
+        from + root_start<T>(Mode));
 
     deserialization_context<Mode> c{from, to};
     deserialize(c, el);
-- 
2.43.0


From 79b236eacd31821bd4b49807abcd440e07110335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:52 +0000
Subject: [PATCH 62/62] fix: static type hash tells arrays of containers from
 containers of arrays

The element type was hashed before the array itself, so array<vector<T>, N> and
vector<array<T, N>> (or struct{array<T, N>} and array<struct{T}, N>) had the
same static fingerprint and images of one were accepted as the other.
---
 include/cista/type_hash/static_type_hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/type_hash/static_type_hash.h b/include/cista/type_hash/static_type_hash.h
index 4540b8a..96e010f 100644
--- a/include/cista/type_hash/static_type_hash.h
+++ b/include/cista/type_hash/static_type_hash.h
@@ -166,8 +166,8 @@ constexpr auto static_type_hash(std::chrono::time_point<Clock, Duration> const*,
 template <typename T, std::size_t Size, std::size_t NMaxTypes>
 constexpr auto static_type_hash(array<T, Size> const*,
                                 hash_data<NMaxTypes> h) noexcept {
-  h = static_type_hash(null<T>(), h);
-  return h.combine(hash("array")).combine(Size);
+  h = h.combine(hash("array")).combine(Size);
+  return static_type_hash(null<T>(), h);
 }
 
 template <typename T, template <typename> typename Ptr, bool Indexed,
-- 
2.43.0

