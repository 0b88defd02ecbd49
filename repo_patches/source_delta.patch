From c892c6c31170394efd73681fac5e2fc6a4632860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 01/54] fix: cancel() must not revive a destroyed
 cancellation_token_source

---
 include/asioext/impl/cancellation_token.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/cancellation_token.cpp b/include/asioext/impl/cancellation_token.cpp
index 250ea19..af18a31 100644
--- a/include/asioext/impl/cancellation_token.cpp
+++ b/include/asioext/impl/cancellation_token.cpp
@@ -45,7 +45,9 @@ cancellation_token_source& cancellation_token_source::operator=(
 
 void cancellation_token_source::cancel()
 {
-  ptr_.reset(static_cast<void*>(0), detail::null_deleter());
+  // A destroyed source (empty pointer) must stay destroyed until reset().
+  if (ptr_.use_count() != 0)
+    ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
 void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
-- 
2.43.0


From 1af181eb28bfd138ff3b420e45f48ae83426ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 02/54] fix: basic_linear_buffer::insert() must move the tail
 behind the inserted bytes

---
 include/asioext/impl/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5153cf3..6492b11 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -88,8 +88,8 @@ void basic_linear_buffer<Allocator>::insert(std::size_t before_this,
                   size_ - before_this);
     });
   } else {
-    std::memmove(rep_.data_ + before_this,
-                 rep_.data_ + before_this + n,
+    std::memmove(rep_.data_ + before_this + n,
+                 rep_.data_ + before_this,
                  size_ - before_this);
     std::memcpy(rep_.data_ + before_this, data, n);
   }
-- 
2.43.0


From ead2b71db16519919282ce9e87eebd9528825a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 03/54] fix: basic_linear_buffer must not deallocate a null
 pointer it never allocated

---
 include/asioext/impl/linear_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 6492b11..35861fb 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -187,7 +187,8 @@ void basic_linear_buffer<Allocator>::reallocate(std::size_t cap, Function&& fn)
 {
   uint8_t* new_buffer = allocator_traits_type::allocate(rep_, cap);
   fn(new_buffer);
-  allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
   rep_.data_ = new_buffer;
   capacity_ = cap;
 }
-- 
2.43.0


From 6c91c00f06d9f23b2e8b224a04a9aeef73250601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 04/54] fix: copying a basic_linear_buffer must honour the
 allocator's copy traits and self-assignment

---
 include/asioext/impl/linear_buffer.hpp | 45 +++++++++++++++++++++++---
 include/asioext/linear_buffer.hpp      |  3 ++
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 35861fb..5803a39 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -16,7 +16,8 @@ ASIOEXT_NS_BEGIN
 template <typename Allocator>
 basic_linear_buffer<Allocator>::basic_linear_buffer(
     const basic_linear_buffer& other)
-  : rep_()
+  : rep_(allocator_traits_type::select_on_container_copy_construction(
+        other.rep_))
   , capacity_(other.size_)
   , size_(other.size_)
   , max_size_(other.max_size_)
@@ -35,11 +36,11 @@ basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
     detail::throw_exception(ex);
   }
 
-  if (n > capacity_)
-    reallocate(calculate_capacity(n), [this] (uint8_t* new_buffer) {});
+  if (this == &other)
+    return *this;
 
-  std::memcpy(rep_.data_, other.rep_.data_, n);
-  size_ = n;
+  copy_assign(other, std::integral_constant<bool,
+      allocator_traits_type::propagate_on_container_copy_assignment::value>());
   return *this;
 }
 
@@ -145,6 +146,40 @@ void basic_linear_buffer<Allocator>::resize(std::size_t new_size)
   size_ = new_size;
 }
 
+template <typename Allocator>
+void basic_linear_buffer<Allocator>::copy_assign(
+    const basic_linear_buffer& other, std::false_type)
+{
+  const size_type n = other.size_;
+  if (n > capacity_)
+    reallocate(calculate_capacity(n), [] (uint8_t*) {});
+
+  if (n != 0)
+    std::memcpy(rep_.data_, other.rep_.data_, n);
+  size_ = n;
+}
+
+template <typename Allocator>
+void basic_linear_buffer<Allocator>::copy_assign(
+    const basic_linear_buffer& other, std::true_type)
+{
+  const allocator_type& other_alloc =
+      static_cast<const allocator_type&>(other.rep_);
+  if (static_cast<const allocator_type&>(rep_) != other_alloc) {
+    // Our storage can't be returned to the new allocator.
+    allocator_type new_alloc(other_alloc);
+    uint8_t* new_buffer =
+        allocator_traits_type::allocate(new_alloc, other.size_);
+    if (rep_.data_)
+      allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+    rep_.data_ = new_buffer;
+    capacity_ = other.size_;
+    size_ = 0;
+  }
+  static_cast<allocator_type&>(rep_) = other_alloc;
+  copy_assign(other, std::false_type());
+}
+
 template <typename Allocator>
 void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                                                  std::false_type)
diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 89139b2..a583915 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -395,6 +395,9 @@ private:
     uint8_t* data_;
   };
 
+  void copy_assign(const basic_linear_buffer& other, std::false_type);
+  void copy_assign(const basic_linear_buffer& other, std::true_type);
+
   void move_assign(basic_linear_buffer& other, std::false_type)
 #if defined(ASIOEXT_HAS_ALLOCATOR_ALWAYS_EQUAL)
     ASIOEXT_NOEXCEPT_IF(allocator_traits_type::is_always_equal::value)
-- 
2.43.0


From 5c156b86c7ab8d35bb8e8e8666f204e1a563ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 05/54] fix: move-assigning a basic_linear_buffer must release,
 not leak or lose, the storage

---
 include/asioext/impl/linear_buffer.hpp | 53 ++++++++++++++++++++++----
 include/asioext/linear_buffer.hpp      | 13 ++++++-
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5803a39..9f365ad 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -46,8 +46,19 @@ basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
 
 template <typename Allocator>
 basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
-    basic_linear_buffer&& other) ASIOEXT_NOEXCEPT
+    basic_linear_buffer&& other)
+#if defined(ASIOEXT_HAS_ALLOCATOR_ALWAYS_EQUAL)
+  ASIOEXT_NOEXCEPT_IF(
+      allocator_traits_type::propagate_on_container_move_assignment::value ||
+      allocator_traits_type::is_always_equal::value)
+#else
+  ASIOEXT_NOEXCEPT_IF(
+      allocator_traits_type::propagate_on_container_move_assignment::value)
+#endif
 {
+  if (this == &other)
+    return *this;
+
   move_assign(other, std::integral_constant<bool,
       allocator_traits_type::propagate_on_container_move_assignment::value>());
   return *this;
@@ -189,15 +200,26 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
 {
   if (static_cast<allocator_type&>(rep_) !=
       static_cast<allocator_type&>(other.rep_)) {
+    // We can't take over storage our allocator doesn't know about.
+    uint8_t* new_buffer = nullptr;
+    if (other.size_ != 0) {
+      new_buffer = allocator_traits_type::allocate(rep_, other.size_);
+      std::memcpy(new_buffer, other.rep_.data_, other.size_);
+    }
+
     if (rep_.data_)
       allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
-
-    capacity_ = other.capacity_;
-    size_ = other.size_;
-    rep_.data_ = allocator_traits_type::allocate(rep_, capacity_);
-    std::memcpy(rep_.data_, other.rep_.data_, size_);
+    rep_.data_ = new_buffer;
+    capacity_ = size_ = other.size_;
+    max_size_ = other.max_size_;
+
+    if (other.rep_.data_)
+      allocator_traits_type::deallocate(other.rep_, other.rep_.data_,
+                                        other.capacity_);
+    other.rep_.data_ = nullptr;
+    other.capacity_ = other.size_ = 0;
   } else {
-    move_assign(other, std::false_type());
+    move_storage(other);
   }
 }
 
@@ -206,8 +228,25 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                                                  std::true_type)
   ASIOEXT_NOEXCEPT_IF(std::is_nothrow_move_assignable<allocator_type>::value)
 {
+  // Return our storage before our allocator is replaced.
+  if (rep_.data_) {
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+    rep_.data_ = nullptr;
+    capacity_ = size_ = 0;
+  }
+
   static_cast<allocator_type&>(rep_) =
       std::move(static_cast<allocator_type&>(other.rep_));
+  move_storage(other);
+}
+
+template <typename Allocator>
+void basic_linear_buffer<Allocator>::move_storage(basic_linear_buffer& other)
+    ASIOEXT_NOEXCEPT
+{
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
   rep_.data_ = other.rep_.data_;
   capacity_ = other.capacity_;
   size_ = other.size_;
diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index a583915..03fbf4d 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -154,7 +154,16 @@ public:
   ///
   /// After the move, @c other is an empty buffer with no allocated memory
   /// (as-if just default-constructed).
-  basic_linear_buffer& operator=(basic_linear_buffer&& other) ASIOEXT_NOEXCEPT;
+  basic_linear_buffer& operator=(basic_linear_buffer&& other)
+#if defined(ASIOEXT_HAS_ALLOCATOR_ALWAYS_EQUAL)
+    ASIOEXT_NOEXCEPT_IF(
+        allocator_traits_type::propagate_on_container_move_assignment::value ||
+        allocator_traits_type::is_always_equal::value)
+#else
+    ASIOEXT_NOEXCEPT_IF(
+        allocator_traits_type::propagate_on_container_move_assignment::value)
+#endif
+    ;
 
   /// @brief Get the size of the input sequence.
   std::size_t size() const ASIOEXT_NOEXCEPT
@@ -407,6 +416,8 @@ private:
   void move_assign(basic_linear_buffer& other, std::true_type)
     ASIOEXT_NOEXCEPT_IF(std::is_nothrow_move_assignable<allocator_type>::value);
 
+  void move_storage(basic_linear_buffer& other) ASIOEXT_NOEXCEPT;
+
   template <typename Function>
   void reallocate(std::size_t cap, Function&& cb);
 
-- 
2.43.0


From ebdf3c9a2b9606eafa911d21a35c008055be450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 06/54] fix: dynamic_linear_buffer::data() must not use the
 size before prepare() has set it

---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 03fbf4d..8826464 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -536,7 +536,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   mutable_buffers_type data() ASIOEXT_NOEXCEPT
   {
-    return mutable_buffers_type(data_.data(), size_);
+    return mutable_buffers_type(data_.data(), size());
   }
 
   /// Get a list of buffers that represents the input sequence.
@@ -549,7 +549,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   const_buffers_type data() const ASIOEXT_NOEXCEPT
   {
-    return const_buffers_type(data_.data(), size_);
+    return const_buffers_type(data_.data(), size());
   }
 #endif
 
-- 
2.43.0


From 8a10976d4c3e0d301f4ece7fd6a9bb33d1006e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 07/54] fix: dynamic_linear_buffer::data(pos, n) must clamp to
 the readable bytes for every n

---
 include/asioext/linear_buffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 8826464..e6d6e7d 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -569,10 +569,10 @@ public:
   ///
   mutable_buffers_type data(std::size_t pos, std::size_t n) ASIOEXT_NOEXCEPT
   {
-    const std::size_t siz = data_.size();
+    const std::size_t siz = (std::min)(data_.size(), max_size_);
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return mutable_buffers_type(data_.data() + pos, n);
   }
@@ -590,10 +590,10 @@ public:
    */
   const_buffers_type data(std::size_t pos, std::size_t n) const ASIOEXT_NOEXCEPT
   {
-    const std::size_t siz = data_.size();
+    const std::size_t siz = (std::min)(data_.size(), max_size_);
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return const_buffers_type(data_.data() + pos, n);
   }
-- 
2.43.0


From 49f76781b2c053e62d142c37735d12fb1261b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 08/54] fix: compose_time() must accept negative times (it
 compared the first part against the second part's limit)

---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index ccd4d19..1ec1a35 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -161,7 +161,7 @@ bool compose_time(const FirstDuration& first, const SecondDuration& second,
       first.count() == values_type::min_first() - 1) {
     if (second.count() < values_type::min_second())
       return false;
-  } else if (first.count() < values_type::min_second()) {
+  } else if (first.count() < values_type::min_first()) {
     return false;
   }
 
-- 
2.43.0


From 0bfe389389bdd88eb0061dde2af87dcf8daafede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 09/54] fix: compose_time() must refuse results below the
 minimum if the second part is coarser than the result

---
 include/asioext/detail/impl/chrono.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index 1ec1a35..a24605a 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -100,9 +100,10 @@ struct time_pair_values
     // For negative |first|s, we use (first + 1f) - (1f - |second|)
     // so the smallest |second| we can accept for |min_f - 1| is
     // 1f + clock_min - min_f
+    // (rounded up, if SecondDuration is coarser than Duration).
     return chrono::duration_cast<SecondDuration>(
-        (Duration::min)() - FirstDuration(min_first()) +
-        FirstDuration(1)).count();
+        FirstDuration(1) - chrono::duration_cast<SecondDuration>(
+            FirstDuration(min_first()) - (Duration::min)())).count();
   }
 };
 
-- 
2.43.0


From acaeedb105d2c5ade0bd62dfd02bf2fcea7bc2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 10/54] fix: safe_duration_cast() must neither overflow nor mix
 up signs nor refuse representable values

---
 include/asioext/detail/impl/chrono.hpp | 95 +++++++++++++++-----------
 1 file changed, 55 insertions(+), 40 deletions(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index a24605a..66eb84f 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -12,57 +12,72 @@ ASIOEXT_NS_BEGIN
 
 namespace detail {
 
+// Check that the value of |v| can be represented by |Out|. Unlike the built-in
+// comparisons this is correct if only one of the types is signed.
+template <class Out, class In>
+ASIOEXT_CONSTEXPR bool fits_into(const In& v) ASIOEXT_NOEXCEPT
+{
+  return v < 0
+      ? (std::numeric_limits<Out>::is_signed &&
+         static_cast<intmax_t>(v) >=
+             static_cast<intmax_t>((std::numeric_limits<Out>::min)()))
+      : (static_cast<uintmax_t>(v) <=
+             static_cast<uintmax_t>((std::numeric_limits<Out>::max)()));
+}
+
+// Check that the value of |v * num| can be represented by |Out|.
+template <class Out, class In>
+ASIOEXT_CONSTEXPR bool product_fits_into(const In& v, intmax_t num)
+    ASIOEXT_NOEXCEPT
+{
+  return v < 0
+      ? (std::numeric_limits<Out>::is_signed &&
+         static_cast<intmax_t>(v) >=
+             static_cast<intmax_t>((std::numeric_limits<Out>::min)()) / num)
+      : (static_cast<uintmax_t>(v) <=
+             static_cast<uintmax_t>((std::numeric_limits<Out>::max)()) /
+             static_cast<uintmax_t>(num));
+}
+
 template <class RepIn, class PeriodIn, class RepOut, class PeriodOut>
 ASIOEXT_CONSTEXPR14 bool safe_duration_cast(
     const chrono::duration<RepIn, PeriodIn>& in,
     chrono::duration<RepOut, PeriodOut>& out) ASIOEXT_NOEXCEPT
 {
-  typedef typename std::common_type<RepIn, RepOut, intmax_t>::type
-      conv_type;
+  // Can represent all values of RepIn.
+  typedef typename std::common_type<RepIn, intmax_t>::type conv_type;
 #if defined(ASIOEXT_USE_BOOST_CHRONO)
   typedef boost::ratio_divide<PeriodIn, PeriodOut> result_ratio;
 #else
   typedef std::ratio_divide<PeriodIn, PeriodOut> result_ratio;
 #endif
-  typedef std::numeric_limits<conv_type> conv_limit;
-  typedef std::numeric_limits<RepOut> result_limit;
-
-  if (result_ratio::num == 1 && result_ratio::den == 1) {
-    if (in.count() >= (result_limit::min)() &&
-        in.count() <= (result_limit::max)()) {
-      out = chrono::duration<RepOut, PeriodOut>(static_cast<RepOut>(
-          in.count()));
-      return true;
-    }
-  } else if (result_ratio::num != 1 && result_ratio::den == 1) {
-    if (in.count() >= (result_limit::min)() / result_ratio::num &&
-        in.count() <= (result_limit::max)() / result_ratio::num) {
-      out = chrono::duration<RepOut, PeriodOut>(static_cast<RepOut>(
-          static_cast<conv_type>(in.count()) *
-          static_cast<conv_type>(result_ratio::num)));
-      return true;
-    }
-  } else if (result_ratio::num == 1 && result_ratio::den != 1) {
-    const conv_type temp = static_cast<conv_type>(in.count()) /
-                           static_cast<conv_type>(result_ratio::den);
-    if (temp  >= (result_limit::min)() && temp  <= (result_limit::max)()) {
-      out = chrono::duration<RepOut, PeriodOut>(static_cast<RepOut>(temp));
-      return true;
-    }
-  } else {
-    if (in.count() < (conv_limit::min)() / result_ratio::num &&
-        in.count() > (conv_limit::max)() / result_ratio::num)
-      return false;
-    const conv_type temp = static_cast<conv_type>(in.count()) *
-                           static_cast<conv_type>(result_ratio::num) /
-                           static_cast<conv_type>(result_ratio::den);
-    if (temp  >= (result_limit::min)() && temp  <= (result_limit::max)()) {
-      out = chrono::duration<RepOut, PeriodOut>(static_cast<RepOut>(temp));
-      return true;
-    }
-  }
+  const intmax_t num = result_ratio::num;
+  const conv_type den = static_cast<conv_type>(result_ratio::den);
+
+  // Multiply the quotient and the remainder separately, so that there is no
+  // overflow if the result is representable.
+  const conv_type quot = static_cast<conv_type>(in.count()) / den;
+  const conv_type rem = static_cast<conv_type>(in.count()) % den;
+  if (!product_fits_into<RepOut>(quot, num) ||
+      !product_fits_into<conv_type>(rem, num))
+    return false;
 
-  return false;
+  const conv_type part = rem * static_cast<conv_type>(num) / den;
+  if (!fits_into<RepOut>(part))
+    return false;
+
+  const RepOut whole_out = quot < 0
+      ? static_cast<RepOut>(static_cast<intmax_t>(quot) * num)
+      : static_cast<RepOut>(static_cast<uintmax_t>(quot) *
+                            static_cast<uintmax_t>(num));
+  const RepOut part_out = static_cast<RepOut>(part);
+  if (part < 0 ? whole_out < (std::numeric_limits<RepOut>::min)() - part_out
+               : whole_out > (std::numeric_limits<RepOut>::max)() - part_out)
+    return false;
+
+  out = chrono::duration<RepOut, PeriodOut>(
+      static_cast<RepOut>(whole_out + part_out));
+  return true;
 }
 
 template <class Duration, class FirstDuration, class SecondDuration>
-- 
2.43.0


From c7af73741edb95a2e0047f4c803d0fde0f3cbc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 11/54] fix: assigning to a unique_handler must not leave a
 dangling handler behind and must use the handler's allocator

---
 include/asioext/unique_handler.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 07445ca..9481429 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -119,11 +119,14 @@ public:
   /// constructed using the @c unique_handler() constructor.
   unique_handler& operator=(unique_handler&& other) ASIOEXT_NOEXCEPT
   {
-    if (storage_)
-      storage_->abort(storage_);
-
+    // Replace storage_ before destroying the old handler - its destructor might
+    // access this object.
+    auto storage = storage_;
     storage_ = other.storage_;
     other.storage_ = nullptr;
+    if (storage)
+      storage->abort(storage);
+
     return *this;
   }
 
@@ -139,13 +142,7 @@ public:
   template <typename Handler>
   unique_handler& operator=(Handler&& handler)
   {
-    if (storage_)
-      storage_->abort(storage_);
-
-    storage_ = new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                               Handler>(handler))
-        storage_impl<std::decay_t<Handler>>(std::move(handler));
-    return *this;
+    return *this = unique_handler(std::forward<Handler>(handler));
   }
 
   /// @brief Complete the stored handler.
-- 
2.43.0


From 105532cd8ad16d02ec0c79763473823b01b8a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 12/54] fix: unique_handler must return its storage if the
 handler can't be moved into it

---
 include/asioext/unique_handler.hpp | 31 ++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 9481429..6249fec 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -40,6 +40,24 @@ void deallocate_operation(T* ptr, Handler& handler)
   a.deallocate(ptr, 1);
 }
 
+template <typename T, typename Handler>
+struct operation_memory
+{
+  explicit operation_memory(Handler& handler)
+    : handler_(handler)
+    , ptr_(allocate_operation<T, Handler>(handler))
+  {}
+
+  ~operation_memory()
+  {
+    if (ptr_)
+      deallocate_operation(ptr_, handler_);
+  }
+
+  Handler& handler_;
+  T* ptr_;
+};
+
 ASIOEXT_DECL void throw_bad_function_call();
 
 }
@@ -77,10 +95,15 @@ public:
   /// It is moved-constructed into @c unique_handler-owned storage.
   template <typename Handler>
   unique_handler(Handler&& handler)
-    : storage_(new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                                            std::decay_t<Handler>>(handler))
-        storage_impl<std::decay_t<Handler>>(handler))
-  {}
+    : storage_(nullptr)
+  {
+    typedef storage_impl<std::decay_t<Handler>> impl_type;
+
+    // Returns the memory if the handler's constructor throws.
+    detail::operation_memory<impl_type, std::decay_t<Handler>> memory(handler);
+    storage_ = new (memory.ptr_) impl_type(handler);
+    memory.ptr_ = nullptr;
+  }
 
   /// @brief Destroy a @c unique_handler.
   ///
-- 
2.43.0


From eef1fd3a7dc9b099f03640f8eb69f7e1596bd6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 13/54] fix: bound_handler must hold its work until after the
 handler has been invoked

---
 include/asioext/detail/bound_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/bound_handler.hpp b/include/asioext/detail/bound_handler.hpp
index 3215d3e..e357a14 100644
--- a/include/asioext/detail/bound_handler.hpp
+++ b/include/asioext/detail/bound_handler.hpp
@@ -121,8 +121,8 @@ public:
     ASIOEXT_NOEXCEPT_IF(noexcept(asioext::detail::invoke(
           handler_, args_, args_indices_type{})))
   {
-    this->reset(); // defined in Work
     asioext::detail::invoke(handler_, args_, args_indices_type{});
+    this->reset(); // defined in Work
   }
 };
 
-- 
2.43.0


From 84c87ce2228fcae7cb7f4a3938896a0b2eb9f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 14/54] fix: the URL parser must not accept unterminated or
 empty bracketed hosts

---
 include/asioext/detail/impl/url_parser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index d67c6c5..1842e36 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -206,6 +206,7 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
 
   if (*first == '[') {
     auto start = first++; // include '['
+    bool is_closed = false;
     for (bool is_zone_spec = false; first != last; ++first) {
       const char ch = *first;
 
@@ -229,6 +230,7 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
 
       if (ch == ']') {
         ++first;
+        is_closed = true;
         break;
       }
 
@@ -237,7 +239,16 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
       return;
     }
 
+    if (!is_closed) {
+      ec = make_error_code(url_error::invalid_character);
+      return;
+    }
+
     out.host = std::string_view(start, first - start);
+    if (out.host.size() == 2) { // nothing in between the brackets
+      ec = make_error_code(url_error::missing_host);
+      return;
+    }
   } else {
     auto start = first;
     for ( ; first != last; ++first) {
-- 
2.43.0


From 0b3fcee728ec5d3b5e8cebabe05dea181f2d5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 15/54] fix: the URL parser must report missing_host if only a
 port or user info is given

---
 include/asioext/detail/impl/url_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index 1842e36..4dc8a73 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -265,6 +265,10 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
     }
 
     out.host = std::string_view(start, first - start);
+    if (out.host.empty()) {
+      ec = make_error_code(url_error::missing_host);
+      return;
+    }
   }
 
   // Port is optional
-- 
2.43.0


From 3150936ca219b75e20a7799d7e6ed83ec4e09100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 16/54] fix: the URL parser must accept a fragment directly
 after the authority

---
 include/asioext/detail/impl/url_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index 4dc8a73..f35864e 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -349,6 +349,8 @@ ASIOEXT_CONSTEXPR14 url_state get_state_for(url_state s,
           return url_state::path;
         case '?':
           return url_state::query_string_start;
+        case '#':
+          return url_state::fragment_start;
         case '@':
           return url_state::authority_with_at;
         case '[':
-- 
2.43.0


From be595aa6af4c27049dae11d2e83e604041088bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 17/54] fix: the URL parser must not lose or refuse the path
 '/' after 'scheme:'

---
 include/asioext/detail/impl/url_parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index f35864e..2a9c7f9 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -332,7 +332,7 @@ ASIOEXT_CONSTEXPR14 url_state get_state_for(url_state s,
     case url_state::scheme_suffix_slash:
       if (ch == '/')
         return url_state::authority_start;
-      if (is_url_char(ch))
+      if (is_url_char(ch) || ch == '?' || ch == '#')
         return url_state::path_after_scheme;
       break;
 
@@ -472,6 +472,12 @@ void parse_url(const char* first, const char* last, parsed_url& out,
     }
   }
 
+  if (s == url_state::scheme_suffix_slash) {
+    // The input ended after the '/', so it wasn't part of '://'.
+    current_part = &out.path;
+    first = it - 1;
+  }
+
   if (current_part)
     *current_part = std::string_view(first, it - first);
 
-- 
2.43.0


From 8c53a320c014f5bfb45f3019e766f183600bdcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 18/54] fix: the URL parser must not drop '#' characters at the
 start of a fragment

---
 include/asioext/detail/impl/url_parser.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index 2a9c7f9..c90ce43 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -389,12 +389,9 @@ ASIOEXT_CONSTEXPR14 url_state get_state_for(url_state s,
       break;
 
     case url_state::fragment_start:
-      if (is_url_char(ch) || ch == '?') {
+      if (is_url_char(ch) || ch == '?' || ch == '#') {
         return url_state::fragment;
       }
-
-      if (ch == '#')
-        return s;
       break;
 
     case url_state::fragment:
-- 
2.43.0


From 6274b40a39b6759e7d22b1c64cdf80d0ac77bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 19/54] fix: the URL parser must not accept a scheme that isn't
 followed by ':'

---
 include/asioext/detail/impl/url_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index c90ce43..dbff029 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -469,6 +469,12 @@ void parse_url(const char* first, const char* last, parsed_url& out,
     }
   }
 
+  if (s == url_state::scheme) {
+    // The input ended before the ':'.
+    ec = make_error_code(url_error::missing_host);
+    return;
+  }
+
   if (s == url_state::scheme_suffix_slash) {
     // The input ended after the '/', so it wasn't part of '://'.
     current_part = &out.path;
-- 
2.43.0


From 9dcd79ebb73e40e5c94a14d716ee70a795e8f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 20/54] fix: url_view.hpp must include its implementation in
 header-only mode

---
 include/asioext/url_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/url_view.hpp b/include/asioext/url_view.hpp
index 613c9dd..852f747 100644
--- a/include/asioext/url_view.hpp
+++ b/include/asioext/url_view.hpp
@@ -52,4 +52,8 @@ private:
 
 ASIOEXT_NS_END
 
+#if defined(ASIOEXT_HEADER_ONLY)
+# include "asioext/impl/url_view.cpp"
+#endif
+
 #endif
-- 
2.43.0


From 4757d586f9a3d6f409a0d61cc2fce706b5aec7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 21/54] fix: SOCKS4a commands must be encoded as SOCKS4a (and
 not SOCKS5) requests

---
 include/asioext/socks/detail/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 2677119..e7729ac 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -52,7 +52,7 @@ public:
 
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
-      encode_exec_packet(cmd, remote, remote_host, port,
+      encode_exec_packet(cmd, remote, remote_host, port, user_id,
                          static_cast<uint8_t*>(buf.data()));
       buffer_.commit(size);
     }
-- 
2.43.0


From d8de354b0d6d01c7f321cb17e9046a8ebdedde38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 22/54] fix: SOCKS4a requests must carry the remote port

---
 include/asioext/socks/impl/client.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index ccc6d1b..db8966d 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -25,7 +25,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, remote, std::string(), 0, user_id, buffer),
+          socket, cmd, remote, std::string(), remote.port(), user_id, buffer),
       handler, socket
   );
 }
@@ -40,7 +40,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(), remote, 0, user_id, buffer),
+          socket, cmd, asio::ip::tcp::endpoint(), remote, port, user_id, buffer),
       handler, socket
   );
 }
-- 
2.43.0


From e94e9b4e826d948d7af131e5c83652333cdae09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 23/54] fix: unknown SOCKS4a reply codes must not be reported
 as success

---
 include/asioext/socks/detail/client.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index e7729ac..06b663a 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -110,6 +110,7 @@ void v4_exec_op<Socket, DynamicBuffer>::operator()(
       case 0x5b: ec = error::generic; break;
       case 0x5c: ec = error::identd_not_reachable; break;
       case 0x5d: ec = error::login_failed; break;
+      default: ec = error::generic; break;
     }
 
     self.complete(ec);
-- 
2.43.0


From 24f3fe6cc4fb5d3effd2c5288bfd76e9eb32e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 24/54] fix: general and unknown SOCKS5 failures must not be
 reported as success

---
 include/asioext/socks/detail/client.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 06b663a..028318e 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -359,6 +359,7 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
           case 6: ec = asio::error::timed_out; break;
           case 7: ec = error::command_not_supported; break;
           case 8: ec = asio::error::address_family_not_supported; break;
+          default: ec = error::generic; break;
         }
         self.complete(ec);
         return;
-- 
2.43.0


From d003dee1243ad9447b86013331c50899d7b11866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 25/54] fix: SOCKS5 replies with an unknown address type must
 be refused

---
 include/asioext/socks/detail/client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 028318e..1f4f849 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -382,6 +382,10 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
         size = 16 - 1;
         break;
       }
+      default: {
+        self.complete(error::generic);
+        return;
+      }
     }
 
     ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
-- 
2.43.0


From 4308a1db47503c5ae5868705a8f130c18762cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 26/54] fix: SOCKS4a can't carry user ids and host names with
 embedded null characters

---
 include/asioext/socks/detail/impl/protocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/socks/detail/impl/protocol.cpp b/include/asioext/socks/detail/impl/protocol.cpp
index 008834e..936cbfb 100644
--- a/include/asioext/socks/detail/impl/protocol.cpp
+++ b/include/asioext/socks/detail/impl/protocol.cpp
@@ -19,6 +19,11 @@ std::size_t get_exec_packet_size(const asio::ip::tcp::endpoint& remote,
   if (remote_host.empty() && remote.protocol() != asio::ip::tcp::v4())
     return 0;
 
+  // Both strings are null-terminated on the wire.
+  if (remote_host.find('\0') != std::string::npos ||
+      user_id.find('\0') != std::string::npos)
+    return 0;
+
   std::size_t size = 1 + 1 + 2 + 4;
   size += user_id.size() + 1;
 
-- 
2.43.0


From 2afa18087b59f26450ad40c1146597298c500483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 27/54] fix: SOCKS commands must refuse empty host names
 instead of sending 0.0.0.0

---
 include/asioext/socks/detail/client.hpp |  8 ++++----
 include/asioext/socks/impl/client.hpp   | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 1f4f849..c60fe3a 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -40,14 +40,14 @@ class v4_exec_op : asio::coroutine
 public:
   v4_exec_op(Socket& socket, command cmd,
              const asio::ip::tcp::endpoint& remote,
-             const std::string& remote_host,
+             bool by_name, const std::string& remote_host,
              uint16_t port,
              const std::string& user_id,
              DynamicBuffer& buffer)
     : socket_(socket)
     , buffer_(ASIOEXT_MOVE_CAST(DynamicBuffer)(buffer))
   {
-    const std::size_t size =
+    const std::size_t size = (by_name && remote_host.empty()) ? 0 :
         get_exec_packet_size(remote, remote_host, user_id);
 
     if (0 != size) {
@@ -280,13 +280,13 @@ class v5_exec_op : asio::coroutine
 public:
   v5_exec_op(Socket& socket, command cmd,
              const asio::ip::tcp::endpoint& remote,
-             const std::string& remote_host,
+             bool by_name, const std::string& remote_host,
              uint16_t port,
              DynamicBuffer& buffer)
     : socket_(socket)
     , buffer_(ASIOEXT_MOVE_CAST(DynamicBuffer)(buffer))
   {
-    const std::size_t size =
+    const std::size_t size = (by_name && remote_host.empty()) ? 0 :
         get_exec_packet_size(cmd, remote, remote_host, port);
 
     if (0 != size) {
diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index db8966d..77ceaed 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -25,7 +25,8 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, remote, std::string(), remote.port(), user_id, buffer),
+          socket, cmd, remote, false, std::string(), remote.port(),
+          user_id, buffer),
       handler, socket
   );
 }
@@ -40,7 +41,8 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(), remote, port, user_id, buffer),
+          socket, cmd, asio::ip::tcp::endpoint(), true, remote, port,
+          user_id, buffer),
       handler, socket
   );
 }
@@ -86,7 +88,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v5_exec_op<Socket, DynamicBuffer>(
-        socket, cmd, remote, std::string(), 0, buffer),
+        socket, cmd, remote, false, std::string(), 0, buffer),
       handler, socket
   );
 }
@@ -100,7 +102,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v5_exec_op<Socket, DynamicBuffer>(
-        socket, cmd, asio::ip::tcp::endpoint(), remote, port, buffer),
+        socket, cmd, asio::ip::tcp::endpoint(), true, remote, port, buffer),
       handler, socket
   );
 }
-- 
2.43.0


From 257694e4537a5a16561832716b871e65ce02350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 28/54] fix: destroying a file whose close() fails must not
 throw

---
 include/asioext/impl/thread_pool_file_service.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 0906740..0bf5ce3 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -266,7 +266,9 @@ void thread_pool_file_service::close_for_destruction(implementation_type& impl)
   if (impl.handle_.is_open()) {
     // TODO(tim): log handler operation
     impl.cancel_token_.destroy();
-    impl.handle_.close();
+    // There's no one left to report errors to (and destructors must not throw).
+    error_code ec;
+    impl.handle_.close(ec);
   }
 }
 
-- 
2.43.0


From 4cc5fab64eb985ffcd05bd47cc1cbfa03142802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 29/54] fix: basic_file move assignment doesn't compile

The noexcept clause of io_object_holder's move assignment calls
IoObjectService::move_assign() with two instead of three arguments.
---
 include/asioext/io_object_holder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/io_object_holder.hpp b/include/asioext/io_object_holder.hpp
index 9a2d25f..d7e622b 100644
--- a/include/asioext/io_object_holder.hpp
+++ b/include/asioext/io_object_holder.hpp
@@ -107,6 +107,7 @@ public:
   // Move-assign an I/O object.
   io_object_holder& operator=(io_object_holder&& other)
       noexcept(noexcept(std::declval<IoObjectService>().move_assign(std::declval<implementation_type&>(),
+                                                                    std::declval<IoObjectService&>(),
                                                                     std::declval<implementation_type&>())))
   {
     if (this != &other)
-- 
2.43.0


From 105e72eb41dd9beb188d4ff81d577c7571bee6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 30/54] fix: destroy pending file operations when the service
 is shut down

shutdown_service() neither waited for the pool's threads nor destroyed the
operations still queued there. Both outlived the services destroyed before
the file service (e.g. those of strands), which their handlers still use.
---
 .../asioext/impl/thread_pool_file_service.cpp   | 17 ++++++++++++-----
 include/asioext/thread_pool_file_service.hpp    | 14 +++++++++++++-
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 0bf5ce3..415f472 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -20,12 +20,19 @@ thread_pool_file_service::thread_pool_file_service(
 
 void thread_pool_file_service::shutdown_service()
 {
-  // Close all implementations, causing all operations to complete.
-  detail::mutex::scoped_lock lock(mutex_);
-  for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
-    close_for_destruction(*cur);
-
+  // No thread may use the other services once they're shut down.
   pool_.stop();
+  pool_.join();
+
+  {
+    // Close all implementations, causing all operations to complete.
+    detail::mutex::scoped_lock lock(mutex_);
+    for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
+      close_for_destruction(*cur);
+  }
+
+  // Destroy the handlers of all operations that haven't been executed.
+  pool_.shutdown();
 }
 
 void thread_pool_file_service::construct(implementation_type& impl)
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 817d32f..45a683e 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -294,8 +294,20 @@ private:
   // destroyed.
   ASIOEXT_DECL void close_for_destruction(implementation_type& impl);
 
+  // A thread pool whose outstanding operations can be destroyed early.
+  struct thread_pool : asio::thread_pool
+  {
+    explicit thread_pool(std::size_t num_threads)
+      : asio::thread_pool(num_threads)
+    {
+      // ctor
+    }
+
+    using asio::execution_context::shutdown;
+  };
+
   // The thread pool.
-  asio::thread_pool pool_;
+  thread_pool pool_;
 
   // Mutex to protect access to the linked list of implementations.
   detail::mutex mutex_;
-- 
2.43.0


From fd4328265e7da0a5baf0ede847d5689206e76c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 31/54] fix: closing a file must abort its pending operations

---
 include/asioext/impl/thread_pool_file_service.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 415f472..3507023 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -173,6 +173,8 @@ void thread_pool_file_service::assign(implementation_type& impl,
 void thread_pool_file_service::close(implementation_type& impl,
                                      error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // Pending operations must not touch whatever reuses the handle's value.
+  impl.cancel_token_.cancel();
   impl.handle_.close(ec);
 }
 
-- 
2.43.0


From 0ed1060d5fd40aa4f5b586ca988821eff4c1069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 32/54] fix: moving a file must leave both objects usable and
 move the pending operations along

---
 include/asioext/impl/thread_pool_file_service.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 3507023..e86a2a2 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -55,8 +55,13 @@ void thread_pool_file_service::move_construct(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
+  // The pending operations move along, the other file gets our unused source.
+  cancellation_token_source unused(
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(impl.cancel_token_));
   impl.cancel_token_ =
       ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+  other_impl.cancel_token_ =
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(unused);
 
   // Insert implementation into linked list of all implementations.
   detail::mutex::scoped_lock lock(mutex_);
@@ -89,6 +94,11 @@ void thread_pool_file_service::move_assign(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
+  // The pending operations move along with the handle.
+  impl.cancel_token_ =
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+  other_impl.cancel_token_.reset();
+
   if (this != &other_service) {
     // Insert implementation into linked list of all implementations.
     detail::mutex::scoped_lock lock(other_service.mutex_);
-- 
2.43.0


From e8d975e741139a39ad93b8dc389b6d1fd84f9405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 33/54] fix: cancel() must reset the error object on success

---
 include/asioext/impl/thread_pool_file_service.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index e86a2a2..2831e28 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -277,6 +277,7 @@ void thread_pool_file_service::cancel(implementation_type& impl,
   }
 
   impl.cancel_token_.cancel();
+  ec = error_code();
   // TODO(tim): log handler operation
 }
 
-- 
2.43.0


From a19bb50b919d451bbd464560ef9ccda8ce9cdfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:09 +0000
Subject: [PATCH 34/54] fix: keep the handler's execution context alive until
 it has been posted to

---
 include/asioext/impl/thread_pool_file_service.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index bdfa471..3d67941 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -49,6 +49,9 @@ public:
       bytes_transferred = impl_(ec);
     }
     auto ex = get_associated_executor(self, svc_->get_io_context().get_executor());
+    // The handler might already be done, and its execution context gone,
+    // before post() returns: the latter must be prevented.
+    auto work = make_work_tuple(ex);
     asio::post(ex, self.complete_to_bound_handler(ec, bytes_transferred));
   }
 
-- 
2.43.0


From a1497cd1c6c22b2ad6c3be53c1da332a44091121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 35/54] fix: decompose_time() must not refuse negative times if
 the second part's type is unsigned

---
 include/asioext/detail/impl/chrono.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index 66eb84f..a2564a5 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -86,7 +86,6 @@ struct time_pair_values
   typedef typename std::common_type<
     typename Duration::rep,
     typename FirstDuration::rep,
-    typename SecondDuration::rep,
     intmax_t
   >::type common_type;
 
-- 
2.43.0


From e57ac9d3a970db80f3fe312880f75bad8c7d58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 36/54] fix: write_file() must report errors from closing the
 file

---
 include/asioext/impl/write_file.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/asioext/impl/write_file.hpp b/include/asioext/impl/write_file.hpp
index e7adef3..8368ddb 100644
--- a/include/asioext/impl/write_file.hpp
+++ b/include/asioext/impl/write_file.hpp
@@ -43,6 +43,9 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
                                  open_flags::create_always, ec);
   if (!ec)
     asio::write(file, buffers, ec);
+  // The file system might report a failed write only now.
+  if (!ec)
+    file.close(ec);
 }
 
 #if defined(ASIOEXT_WINDOWS)  || defined(ASIOEXT_IS_DOCUMENTATION)
@@ -65,6 +68,9 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
                                  open_flags::create_always, ec);
   if (!ec)
     asio::write(file, buffers, ec);
+  // The file system might report a failed write only now.
+  if (!ec)
+    file.close(ec);
 }
 #endif
 
@@ -90,6 +96,9 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
                                  open_flags::create_always, ec);
   if (!ec)
     asio::write(file, buffers, ec);
+  // The file system might report a failed write only now.
+  if (!ec)
+    file.close(ec);
 }
 #endif
 
-- 
2.43.0


From d7e1d047b0db0fef82ab303667ade44f0ff4eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 37/54] fix: read_file() must not terminate the program if the
 container cannot allocate

---
 include/asioext/impl/read_file.hpp | 2 +-
 include/asioext/read_file.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/read_file.hpp b/include/asioext/impl/read_file.hpp
index 0b572fa..bbff31f 100644
--- a/include/asioext/impl/read_file.hpp
+++ b/include/asioext/impl/read_file.hpp
@@ -100,7 +100,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
     read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT
+              error_code& ec)
 {
   const uint64_t size = file.size(ec);
   if (ec) return;
diff --git a/include/asioext/read_file.hpp b/include/asioext/read_file.hpp
index 1e00625..f443d7e 100644
--- a/include/asioext/read_file.hpp
+++ b/include/asioext/read_file.hpp
@@ -152,7 +152,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
     read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT;
+              error_code& ec);
 
 /// @}
 
-- 
2.43.0


From 3a35b385498f359e70fbbb07dfaf6764e49ff118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 38/54] fix: unique_file_handle::reset() must not drop the new
 handle if closing the old one fails

---
 include/asioext/impl/unique_file_handle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/unique_file_handle.cpp b/include/asioext/impl/unique_file_handle.cpp
index 2a53dae..99af35a 100644
--- a/include/asioext/impl/unique_file_handle.cpp
+++ b/include/asioext/impl/unique_file_handle.cpp
@@ -67,9 +67,9 @@ void unique_file_handle::reset(file_handle handle)
 void unique_file_handle::reset(file_handle handle,
                                error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // Take ownership even if closing fails: The old handle is gone anyway.
   close(ec);
-  if (!ec)
-    handle_ = handle;
+  handle_ = handle;
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From 3347075cd770922fe92a3b5b6ef8d05bcff8c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 39/54] fix: truncate_existing without write access is invalid

---
 include/asioext/impl/open_flags.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/impl/open_flags.cpp b/include/asioext/impl/open_flags.cpp
index b11d031..48050b4 100644
--- a/include/asioext/impl/open_flags.cpp
+++ b/include/asioext/impl/open_flags.cpp
@@ -16,6 +16,11 @@ bool is_valid(open_flags flags) ASIOEXT_NOEXCEPT
   if (count > 1)
     return false;
 
+  // Truncating requires write access.
+  if ((flags & open_flags::truncate_existing) != open_flags::none &&
+      (flags & open_flags::access_write) == open_flags::none)
+    return false;
+
   return true;
 }
 
-- 
2.43.0


From 03fe99c0a568f068109790c9a2e72af2e2bd6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 40/54] fix: don't ignore the set_uid, set_gid and sticky_bit
 permissions

---
 include/asioext/detail/impl/posix_file_ops.cpp | 4 ++--
 include/asioext/impl/open_args.hpp             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 3a036df..20f8b93 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -357,7 +357,7 @@ file_perms permissions(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
   struct stat st;
   if (::fstat(fd, &st) == 0) {
     ec = error_code();
-    return static_cast<file_perms>(st.st_mode) & file_perms::all;
+    return static_cast<file_perms>(st.st_mode) & file_perms::mask;
   }
   set_error(ec, errno);
   return file_perms::none;
@@ -366,7 +366,7 @@ file_perms permissions(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 void permissions(handle_type fd, file_perms perms, file_perm_options opts,
                  error_code& ec) ASIOEXT_NOEXCEPT
 {
-  mode_t mode = static_cast<mode_t>(perms & file_perms::all);
+  mode_t mode = static_cast<mode_t>(perms & file_perms::mask);
   if ((opts & (file_perm_options::add | file_perm_options::remove)) !=
       static_cast<file_perm_options>(0)) {
     struct stat st;
diff --git a/include/asioext/impl/open_args.hpp b/include/asioext/impl/open_args.hpp
index fb6fd43..0629355 100644
--- a/include/asioext/impl/open_args.hpp
+++ b/include/asioext/impl/open_args.hpp
@@ -37,7 +37,7 @@ inline open_args::open_args(open_flags flags, file_perms perms,
     detail::win_file_ops::parse_open_flags(flags, perms, attrs, *this);
 #else
     native_flags_ = detail::posix_file_ops::parse_open_flags(flags);
-    mode_ = static_cast<uint32_t>(perms & file_perms::all);
+    mode_ = static_cast<uint32_t>(perms & file_perms::mask);
     attrs_ = detail::posix_file_ops::file_attrs_to_native(attrs);
 #endif
   } else {
-- 
2.43.0


From 8dff728e6c8bdbd7343755d3841a6857975eaca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 41/54] fix: buffered_stream couldn't be used with standalone
 asio

---
 include/asioext/experimental/buffered_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 5fc9ea8..d637651 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -325,7 +325,7 @@ buffered_stream<Stream, Allocator>::async_fill(ReadHandler&& handler)
 
 template <typename Stream, typename Allocator>
 typename buffered_stream<Stream, Allocator>::buffer_type*
-buffered_stream<Stream, Allocator>::lock_write_buffers(boost::system::error_code& ec)
+buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
 {
   if (flush_pending_) {
     ec = asio::error::already_started;
-- 
2.43.0


From b79a396ee44f4b6d61e038273dadd6e762bd5644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 42/54] fix: can_flush() must take data left behind by a failed
 flush into account

---
 include/asioext/experimental/buffered_stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index d637651..e542415 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -132,7 +132,9 @@ public:
 
   bool can_flush() const ASIOEXT_NOEXCEPT
   {
-    return !flush_pending_ && !write_buffer_.empty();
+    // A failed flush leaves its remaining data in the locked buffer.
+    return !flush_pending_ &&
+           !(write_buffer_.empty() && write_buffer_locked_.empty());
   }
 
   bool flush_pending() const ASIOEXT_NOEXCEPT { return flush_pending_; }
-- 
2.43.0


From f6af245d9f3e90b88e6fe11267c5c5e17f7bbffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:21 +0000
Subject: [PATCH 43/54] fix: buffered_stream::flush() must not be blocked by an
 error object holding an earlier error

---
 include/asioext/experimental/buffered_stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index e542415..4d0d6fe 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -345,6 +345,7 @@ buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
   }
 
   flush_pending_ = true;
+  ec = error_code();
   return &write_buffer_locked_;
 }
 
-- 
2.43.0


From bb26207e87e419acf4100bad62c138aade6f8ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 44/54] fix: connect() must report not_found if there is no
 endpoint

---
 include/asioext/impl/connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/impl/connect.cpp b/include/asioext/impl/connect.cpp
index 387eb97..f69f599 100644
--- a/include/asioext/impl/connect.cpp
+++ b/include/asioext/impl/connect.cpp
@@ -33,7 +33,7 @@ void connect(asio::ip::tcp::socket::lowest_layer_type& socket,
     return;
 
   // Try each endpoint until we successfully establish a connection.
-  ec = asio::error::host_not_found;
+  ec = asio::error::not_found;
   for (const auto& entry : results) {
     socket.close(ec);
     socket.connect(entry, ec);
-- 
2.43.0


From 3e5d076329219cd2b478c54b70c3ed5cd7d2e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:02 +0000
Subject: [PATCH 45/54] fix: get_stdin(), get_stdout() and get_stderr() must
 reset the error object

---
 include/asioext/detail/impl/posix_file_ops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 20f8b93..1f3b974 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -299,16 +299,19 @@ handle_type duplicate(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 handle_type get_stdin(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDIN_FILENO;
 }
 
 handle_type get_stdout(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDOUT_FILENO;
 }
 
 handle_type get_stderr(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDERR_FILENO;
 }
 
-- 
2.43.0


From 2b912e83016b14de794cde7d644cc9c96a11e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:02 +0000
Subject: [PATCH 46/54] fix: the throwing variants of get_stdin(), get_stdout()
 and get_stderr() must throw

---
 include/asioext/impl/standard_streams.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/impl/standard_streams.cpp b/include/asioext/impl/standard_streams.cpp
index 38eeaf8..94f3192 100644
--- a/include/asioext/impl/standard_streams.cpp
+++ b/include/asioext/impl/standard_streams.cpp
@@ -18,6 +18,7 @@ file_handle get_stdin()
 {
   error_code ec;
   const file_handle h = get_stdin(ec);
+  detail::throw_error(ec, "get_stdin");
   return h;
 }
 
@@ -34,6 +35,7 @@ file_handle get_stdout()
 {
   error_code ec;
   const file_handle h = get_stdout(ec);
+  detail::throw_error(ec, "get_stdout");
   return h;
 }
 
@@ -50,6 +52,7 @@ file_handle get_stderr()
 {
   error_code ec;
   const file_handle h = get_stderr(ec);
+  detail::throw_error(ec, "get_stderr");
   return h;
 }
 
-- 
2.43.0


From b1d7145ea35015fe8df7a985d10680eea194f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:54 +0000
Subject: [PATCH 47/54] fix: async_connect() must keep copies of the names if
 it is launched later

---
 include/asioext/connect.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/asioext/connect.hpp b/include/asioext/connect.hpp
index 2068a80..c037834 100644
--- a/include/asioext/connect.hpp
+++ b/include/asioext/connect.hpp
@@ -27,6 +27,9 @@
 #  include <asio/connect.hpp>
 #endif
 
+#include <string>
+#include <string_view>
+
 ASIOEXT_NS_BEGIN
 
 namespace detail {
@@ -73,9 +76,10 @@ public:
 private:
   asio::basic_socket<Protocol, Executor>& socket_;
   asio::ip::basic_resolver<Protocol>& resolver_;
-  // These are only valid during the initial no-args operator() call!
-  std::string_view host_;
-  std::string_view service_;
+  // The caller's strings might be gone if the operation is launched later
+  // (e.g. by awaiting the result of async_connect()).
+  std::string host_;
+  std::string service_;
   asio::ip::resolver_base::flags resolve_flags_;
 };
 
-- 
2.43.0


From 882c7b26c0ef569e42b79661c09beb3d761fc5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:54 +0000
Subject: [PATCH 48/54] fix: asynchronous file operations must work with
 use_awaitable

---
 .../asioext/impl/thread_pool_file_service.hpp    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index 3d67941..b26c0a8 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -28,10 +28,10 @@ template <typename OperationImpl>
 class thread_pool_fs_op
 {
 public:
-  thread_pool_fs_op(const cancellation_token_source& source,
+  thread_pool_fs_op(const cancellation_token& cancel_token,
                     OperationImpl& impl,
                     thread_pool_file_service* svc)
-    : cancel_token_(source)
+    : cancel_token_(cancel_token)
     , impl_(std::move(impl))
     , svc_(svc)
   {
@@ -66,12 +66,12 @@ struct thread_pool_fs_init
   template <typename Handler, typename Implementation>
   void operator()(Handler&& handler,
                   Implementation&& impl,
-                  const cancellation_token_source& source,
+                  const cancellation_token& cancel_token,
                   thread_pool_file_service* svc)
   {
     auto ex = get_associated_executor(handler, svc->get_io_context().get_executor());
     auto op = make_composed_operation(
-        thread_pool_fs_op<Implementation>(source, impl, svc),
+        thread_pool_fs_op<Implementation>(cancel_token, impl, svc),
         std::move(handler), ex);
 
     asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));
@@ -171,7 +171,7 @@ thread_pool_file_service::async_read_some(implementation_type& impl,
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read<MutableBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 template <typename ConstBufferSequence, typename CompletionToken>
@@ -183,7 +183,7 @@ thread_pool_file_service::async_write_some(implementation_type& impl,
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write<ConstBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 template <typename MutableBufferSequence, typename CompletionToken>
@@ -196,7 +196,7 @@ thread_pool_file_service::async_read_some_at(
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read_at<MutableBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 template <typename ConstBufferSequence, typename CompletionToken>
@@ -208,7 +208,7 @@ thread_pool_file_service::async_write_some_at(
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write_at<ConstBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From fa449d3465ef7ae81edd211744dedd3f5ae23509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:21 +0000
Subject: [PATCH 49/54] fix: basic_file could not be constructed from a native
 handle

---
 include/asioext/basic_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/basic_file.hpp b/include/asioext/basic_file.hpp
index f139c04..742377d 100644
--- a/include/asioext/basic_file.hpp
+++ b/include/asioext/basic_file.hpp
@@ -149,7 +149,7 @@ public:
     : holder_(ex)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
@@ -168,7 +168,7 @@ public:
     : holder_(context)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
-- 
2.43.0


From b274ca6584e7901435ae92641f97fece917394d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 50/54] fix: buffered_stream must remain usable if
 async_flush() cannot be started

---
 include/asioext/experimental/buffered_stream.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 4d0d6fe..5f86760 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -300,9 +300,19 @@ buffered_stream<Stream, Allocator>::async_flush(WriteHandler&& handler)
       unlock_write_buffers(size);
       self.complete(ec, size);
     };
+
+    // If the write cannot be started (because there's not enough memory, for
+    // example) nobody's going to unlock the buffers.
+    struct unlock_guard
+    {
+      ~unlock_guard() { if (stream) stream->unlock_write_buffers(0); }
+      buffered_stream* stream;
+    } guard = { this };
+
     asio::async_write(stream_, asio::dynamic_buffer(*buffer),
                       asioext::make_composed_operation(std::move(op),
                                                        std::move(handler)));
+    guard.stream = nullptr;
   };
   return asioext::async_initiate<WriteHandler, void (error_code, std::size_t)>(
     init, handler);
-- 
2.43.0


From f1e651d036de57f6bd439b69344f4ec5b88f5310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:11 +0000
Subject: [PATCH 51/54] fix: buffered_stream's read buffer must not grow if
 async_fill() cannot be started

---
 .../asioext/experimental/buffered_stream.hpp  | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 5f86760..6972a50 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -330,9 +330,23 @@ template <typename ReadHandler>
 ASIOEXT_INITFN_RESULT_TYPE(ReadHandler, void(error_code, std::size_t))
 buffered_stream<Stream, Allocator>::async_fill(ReadHandler&& handler)
 {
-  return asio::async_read(stream_, asio::dynamic_buffer(read_buffer_),
-                          asio::transfer_at_least(1),
-                          std::forward<ReadHandler>(handler));
+  auto init = [this] (auto&& handler) {
+    // asio::async_read() enlarges the buffer before it starts reading. If that
+    // fails the buffer must not contain anything we haven't read.
+    struct resize_guard
+    {
+      ~resize_guard() { if (buffer) buffer->resize(size); }
+      buffer_type* buffer;
+      std::size_t size;
+    } guard = { &read_buffer_, read_buffer_.size() };
+
+    asio::async_read(stream_, asio::dynamic_buffer(read_buffer_),
+                     asio::transfer_at_least(1),
+                     std::move(handler));
+    guard.buffer = nullptr;
+  };
+  return asioext::async_initiate<ReadHandler, void (error_code, std::size_t)>(
+    init, handler);
 }
 
 template <typename Stream, typename Allocator>
-- 
2.43.0


From 062f863220dd3323ae0dd3029817782d320dd01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 52/54] fix: move assignment of files must not lose anything if
 it runs out of memory

---
 include/asioext/impl/thread_pool_file_service.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 2831e28..916adcd 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -76,6 +76,9 @@ void thread_pool_file_service::move_assign(
     implementation_type& impl, thread_pool_file_service& other_service,
     implementation_type& other_impl)
 {
+  // This might throw, nothing below does.
+  cancellation_token_source unused;
+
   close_for_destruction(impl);
 
   if (this != &other_service) {
@@ -97,7 +100,8 @@ void thread_pool_file_service::move_assign(
   // The pending operations move along with the handle.
   impl.cancel_token_ =
       ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
-  other_impl.cancel_token_.reset();
+  other_impl.cancel_token_ =
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(unused);
 
   if (this != &other_service) {
     // Insert implementation into linked list of all implementations.
-- 
2.43.0


From 1f89ad2cf943bb5c45e4340f73138ce9439aaaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:41 +0000
Subject: [PATCH 53/54] fix: a SOCKS5 reply too long for the caller's buffer
 must be reported, not thrown

---
 include/asioext/socks/detail/client.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index c60fe3a..ce659b5 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -388,6 +388,11 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
       }
     }
 
+    if (size + 2 > buffer_.max_size() - buffer_.size()) {
+      self.complete(asio::error::no_buffer_space);
+      return;
+    }
+
     ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
                                         std::move(self));
 
-- 
2.43.0


From 7a63681ce2d6cdc9b99bca09ffe06017e0142570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:43 +0000
Subject: [PATCH 54/54] fix: opening an existing file must not change its
 attributes

---
 include/asioext/detail/impl/posix_file_ops.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 1f3b974..735fd1b 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -249,7 +249,9 @@ handle_type open(const char* path, const open_args& args,
 #if ASIOEXT_HAS_FILE_FLAGS
       // Unfortunately there's no way to atomically set file
       // flags as part of the open() call.
-      if (args.attrs() != 0 && ::fchflags(fd, args.attrs()) != 0) {
+      // They're only meant for files we might have created.
+      if (args.attrs() != 0 && (args.native_flags() & O_CREAT) != 0 &&
+          ::fchflags(fd, args.attrs()) != 0) {
         set_error(ec, errno);
         ::close(fd);
         return -1;
-- 
2.43.0

