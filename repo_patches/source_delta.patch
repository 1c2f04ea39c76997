From e6f8af409a0b2c28380e25368ebf7aa64dee5931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:19 +0000
Subject: [PATCH 01/26] fix: string_view::substr: do not overflow when pos +
 count exceeds the size_type range

---
 include/gul14/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 3f070a4..97647f6 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -214,7 +214,7 @@ public:
     constexpr basic_string_view substr(size_type pos, size_type n=npos) const {
         if ( pos > size())
             throw std::out_of_range ( "string_view::substr" );
-        if (n == npos || pos + n > size())
+        if (n > size() - pos)
             n = size () - pos;
         return basic_string_view(data() + pos, n);
     }
-- 
2.43.0


From 3f50b44dbd166fd9107e83b5b309a843ccaf844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:19 +0000
Subject: [PATCH 02/26] fix: string_view::compare(pos, n, view): report a
 position past the end by exception instead of terminating

---
 include/gul14/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 97647f6..998a886 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -225,7 +225,7 @@ public:
     }
 
     constexpr int compare(size_type pos1, size_type n1, basic_string_view x)
-    const noexcept {
+    const {
         return substr(pos1, n1).compare(x);
     }
 
-- 
2.43.0


From 016490f8a3b80a2d6bd8a9b6cd4f128cf789fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:32 +0000
Subject: [PATCH 03/26] fix: SmallVector: appending, inserting and resizing
 with a reference to an own element must not use relocated or overwritten
 elements

---
 include/gul14/SmallVector.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 57cd2ec..e6a43ec 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -672,7 +672,14 @@ public:
     Reference emplace_back(ArgumentTypes&&... arguments)
     {
         if (size_ == capacity_)
+        {
+            // The arguments might refer to an element that is relocated by grow()
+            ValueType value(std::forward<ArgumentTypes>(arguments)...);
             grow();
+            ::new(static_cast<void*>(data_end())) ValueType(std::move(value));
+            ++size_;
+            return back();
+        }
 
         ::new(static_cast<void*>(data_end()))
             ValueType(std::forward<ArgumentTypes>(arguments)...);
@@ -781,7 +788,8 @@ public:
      */
     Iterator insert(ConstIterator pos, const ValueType& value)
     {
-        return insert_single_value(pos, value);
+        // Insert a copy because the value might refer to an element of this vector
+        return insert_single_value(pos, ValueType(value));
     }
 
     /**
@@ -813,14 +821,17 @@ public:
         if (num_elements < 1)
             return begin() + idx;
 
+        // Make a copy because the value might refer to an element of this vector
+        const ValueType copied_value(value);
+
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
         // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, value);
+        std::fill_n(insert_pos, num_assignable, copied_value);
 
         // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value);
+        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, copied_value);
 
         size_ += num_elements;
 
@@ -1014,12 +1025,7 @@ public:
      */
     void push_back(const ValueType& value)
     {
-        if (size_ == capacity_)
-            grow();
-
-        ::new(static_cast<void*>(data_end())) ValueType(value);
-
-        ++size_;
+        emplace_back(value);
     }
 
     /**
@@ -1141,8 +1147,10 @@ public:
         }
         else if (num_elements > size_)
         {
+            // Make a copy because the element might be relocated by reserve()
+            const ValueType copied_element(element);
             reserve(num_elements);
-            copy_value_into_uninitialized_cells(size_, num_elements - size_, element);
+            copy_value_into_uninitialized_cells(size_, num_elements - size_, copied_element);
         }
 
         size_ = num_elements;
-- 
2.43.0


From 7d401630c0bd36870c83e1d113e135db23edaab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:39 +0000
Subject: [PATCH 04/26] fix: SmallVector: constructors must release storage and
 elements when an element constructor throws

---
 include/gul14/SmallVector.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index e6a43ec..56d0699 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -323,13 +323,13 @@ public:
      * \param num_elements  The number of initial elements
      */
     explicit SmallVector(SizeType num_elements)
+        : SmallVector() // Delegate to make sure that the destructor runs on exceptions
     {
         static_assert(std::is_default_constructible<ValueType>::value,
             "SmallVector: Element type is not default-constructible");
 
         reserve(num_elements);
-        for (SizeType i = 0u; i != num_elements; ++i)
-            ::new(static_cast<void*>(data() + i)) ValueType{};
+        fill_uninitialized_cells_with_default_constructed_elements(0u, num_elements);
         size_ = num_elements;
     }
 
@@ -341,6 +341,7 @@ public:
      * \param value         The value to be copied to the initial elements
      */
     SmallVector(SizeType num_elements, const ValueType& value)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_value(num_elements, value);
     }
@@ -364,6 +365,7 @@ public:
     template<class InputIterator,
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     SmallVector(InputIterator first, InputIterator last)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(first, last);
     }
@@ -378,6 +380,7 @@ public:
      */
     SmallVector(const SmallVector& other)
         noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
+        : SmallVector()
     {
         static_assert(std::is_copy_constructible<ValueType>::value == true,
             "SmallVector: Element type is not copy-constructible");
@@ -413,6 +416,7 @@ public:
      *          list exceeds max_size().
      */
     SmallVector(std::initializer_list<ValueType> init)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(init.begin(), init.end());
     }
-- 
2.43.0


From bedcc15bbe6d683bf60e57397e2f1aa82debb6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:39 +0000
Subject: [PATCH 05/26] fix: SmallVector: destroy already copied elements when
 a copy throws while filling

---
 include/gul14/SmallVector.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 56d0699..fcd562a 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -1287,8 +1287,18 @@ private:
     {
         const auto start_ptr = data() + pos;
         const auto end_ptr = start_ptr + num_elements;
-        for (auto p = start_ptr; p != end_ptr; ++p)
-            ::new(static_cast<void*>(p)) ValueType(value);
+        auto ptr = start_ptr;
+
+        try
+        {
+            for (; ptr != end_ptr; ++ptr)
+                ::new(static_cast<void*>(ptr)) ValueType(value);
+        }
+        catch (...)
+        {
+            destroy_range(start_ptr, ptr);
+            throw;
+        }
     }
 
     /// Return a non-dereferencable pointer past the last element.
-- 
2.43.0


From c86c08541d7b7eda2a6d32af92a38533c3aebc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:39 +0000
Subject: [PATCH 06/26] fix: SmallVector: do not leak shifted elements when an
 insertion throws

---
 include/gul14/SmallVector.h | 56 ++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index fcd562a..3ae10b2 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -831,11 +831,21 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, copied_value);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::fill_n(insert_pos, num_assignable, copied_value);
 
-        // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, copied_value);
+            // Copy the remaining values into uninitialized cells
+            copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, copied_value);
+        }
+        catch (...)
+        {
+            // Destroy the elements that were shifted beyond the end of the vector
+            const auto shifted_end = data_end() + num_elements;
+            destroy_range(shifted_end - num_assignable, shifted_end);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -873,11 +883,21 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::copy_n(first, num_assignable, insert_pos);
 
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
+            // Copy the remaining values into uninitialized cells
+            copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
+        }
+        catch (...)
+        {
+            // Destroy the elements that were shifted beyond the end of the vector
+            const auto shifted_end = data_end() + num_elements;
+            destroy_range(shifted_end - num_assignable, shifted_end);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -1440,9 +1460,10 @@ private:
         // Construct new back() element by moving from the old back()
         ::new(static_cast<void*>(data_ptr + size_)) ValueType(std::move(*(data_ptr + size_ - 1)));
 
-        std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
 
+        std::move_backward(insert_pos, data_ptr + size_ - 2, data_ptr + size_ - 1);
+
         *insert_pos = std::forward<T>(value);
 
         return insert_pos;
@@ -1483,11 +1504,20 @@ private:
         // Move-initialize elements in uninitialized space at the back of the container
         const auto from_ptr = data_ptr + size_ - num_move_initialized;
         const auto to_ptr = from_ptr + num_elements;
-        for (SizeType i = 0; i != num_move_initialized; ++i)
-            ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
+        SizeType i = 0;
+        try
+        {
+            for (; i != num_move_initialized; ++i)
+                ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
 
-        // Move elements backwards within old vector size
-        std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+            // Move elements backwards within old vector size
+            std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        }
+        catch (...)
+        {
+            destroy_range(to_ptr, to_ptr + i);
+            throw;
+        }
 
         return num_move_initialized;
     }
-- 
2.43.0


From e64c2443df1adc06603d192b8cca0fd3afd5453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:12 +0000
Subject: [PATCH 07/26] fix: SlidingBufferExposed: end() must not go past the
 elements after pop_front()

---
 include/gul14/SlidingBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index ab9c2a9..65bd1d4 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -1165,7 +1165,7 @@ public:
      */
     auto end() noexcept -> iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.end();
 
         return storage_.begin() + idx_end_;
@@ -1185,7 +1185,7 @@ public:
      */
     auto cend() const noexcept -> const_iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.cend();
 
         return storage_.cbegin() + idx_end_;
-- 
2.43.0


From e23f19a68d99bb167b347c041e0a227ced767ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:42 +0000
Subject: [PATCH 08/26] fix: within_abs(), within_orders(): no overflow or
 wrap-around in integer differences

---
 include/gul14/num_util.h | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 63ddadf..ac50f16 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -32,6 +32,29 @@
 
 namespace gul14 {
 
+namespace detail {
+
+/// Absolute difference of two integers, which always fits into the unsigned type.
+template <typename NumT, std::enable_if_t<
+    std::is_integral<NumT>::value and not std::is_same<NumT, bool>::value, int> = 0>
+constexpr auto abs_difference(NumT a, NumT b) noexcept
+{
+    using UnsignedT = std::make_unsigned_t<NumT>;
+    return static_cast<UnsignedT>((a > b)
+        ? static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)
+        : static_cast<UnsignedT>(b) - static_cast<UnsignedT>(a));
+}
+
+/// Absolute difference of two numbers of any other type.
+template <typename NumT, std::enable_if_t<
+    not std::is_integral<NumT>::value or std::is_same<NumT, bool>::value, int> = 0>
+constexpr auto abs_difference(NumT a, NumT b) noexcept
+{
+    return (a > b) ? a - b : b - a;
+}
+
+} // namespace detail
+
 /**
  * \addtogroup num_util_h gul14/num_util.h
  * \brief Numerical utility functions.
@@ -96,7 +119,7 @@ template<typename NumT, typename OrderT,
     >>
 bool within_orders(const NumT a, const NumT b, const OrderT orders) noexcept(false) {
     // std::pow() is not noexcept, which might or might not be true
-    auto difference = gul14::abs(a - b);
+    auto difference = detail::abs_difference(a, b);
     if (difference == NumT{ 0 })
         return true;
     auto maximum = std::max(gul14::abs(a), gul14::abs(b));
@@ -123,12 +146,12 @@ bool within_abs(NumT a, NumT b, NumT tol) noexcept {
         if (std::is_floating_point<NumT>::value)
             ret = a - tol <= b; // different formula needed because of inf/-inf and subnormal values
         else
-            ret = a - b <= tol;
+            ret = detail::abs_difference(a, b) <= detail::abs_difference(tol, NumT{});
     } else {
         if (std::is_floating_point<NumT>::value)
             ret = b - tol <= a;
         else
-            ret = b - a <= tol;
+            ret = detail::abs_difference(a, b) <= detail::abs_difference(tol, NumT{});
     }
     return ret;
 }
-- 
2.43.0


From bf6898635118bc01a425da921fe5726b5ee1e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:47 +0000
Subject: [PATCH 09/26] fix: finally(): copy a callable passed as an lvalue
 instead of moving from it

---
 include/gul14/finalizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/finalizer.h b/include/gul14/finalizer.h
index 54df935..33fceb4 100644
--- a/include/gul14/finalizer.h
+++ b/include/gul14/finalizer.h
@@ -167,7 +167,7 @@ public:
  */
 template <typename F>
 FinalAction<typename std::decay_t<F>> finally(F&& f) noexcept {
-    return FinalAction<typename std::decay_t<F>>(std::forward<typename std::decay_t<F>>(f));
+    return FinalAction<typename std::decay_t<F>>(std::forward<F>(f));
 }
 
 /// @}
-- 
2.43.0


From af58bba1b98351f04559971f0d31ee0928dc4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:31 +0000
Subject: [PATCH 10/26] fix: expected<void, E>: operator!= must not call equal
 errors different

---
 include/gul14/expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 91354be..8f406c8 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -2171,7 +2171,7 @@ constexpr bool operator!=(const expected<void, E> &lhs,
                           const expected<void, F> &rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From b41bcc7f87b459951daaeb90d8e6210fd0473a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:31 +0000
Subject: [PATCH 11/26] fix: expected: converting constructors must not leak a
 default-constructed value

---
 include/gul14/expected.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 8f406c8..cb5771e 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1492,7 +1492,8 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   explicit constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1507,7 +1508,8 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1521,7 +1523,8 @@ public:
                             std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   explicit constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1535,7 +1538,8 @@ public:
                            std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From d8db605e025e9a7c87670e0acb8eca4552ce15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:31 +0000
Subject: [PATCH 12/26] fix: expected: reconstruct the previous error or value
 when a construction throws instead of assigning to a destroyed object

---
 include/gul14/expected.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index cb5771e..fcc2516 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -689,7 +689,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(rhs.get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        construct_error(std::move(tmp));
         throw;
       }
 #else
@@ -724,7 +724,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(std::move(rhs).get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        construct_error(std::move(tmp));
         throw;
       }
 #else
@@ -1609,7 +1609,7 @@ public:
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1678,7 +1678,7 @@ public:
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1718,7 +1718,7 @@ public:
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1781,7 +1781,7 @@ private:
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1804,7 +1804,7 @@ private:
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From c205bc43813861a3a99d93845fcd1c3a537c6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:01 +0000
Subject: [PATCH 13/26] fix: expected::emplace(): keep the old value until the
 new one has been constructed

---
 include/gul14/expected.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index fcc2516..c377ed4 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1667,8 +1667,10 @@ public:
                                T, Args &&...>::value> * = nullptr>
   void emplace(Args &&...args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      emplace_over_value(
+          detail::conjunction<std::is_move_constructible<T>,
+                              std::is_move_assignable<T>>{},
+          std::forward<Args>(args)...);
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
@@ -1729,6 +1731,21 @@ public:
   }
 
 private:
+  // Replace the value by one whose construction may throw: Keep the old value
+  // until the new one exists so that *this never holds a destroyed object.
+  template <class... Args>
+  void emplace_over_value(std::true_type /* movable */, Args &&...args) {
+    T tmp(std::forward<Args>(args)...);
+    val() = std::move(tmp);
+  }
+
+  // There is no way to preserve the old value for types that cannot be moved.
+  template <class... Args>
+  void emplace_over_value(std::false_type /* movable */, Args &&...args) {
+    val().~T();
+    ::new (valptr()) T(std::forward<Args>(args)...);
+  }
+
   using t_is_void = std::true_type;
   using t_is_not_void = std::false_type;
   using t_is_nothrow_move_constructible = std::true_type;
-- 
2.43.0


From 5b12e54cb626b75515baa839387611d94a6b3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:31 +0000
Subject: [PATCH 14/26] fix: to_number<float>(): reject non-digits after the
 first significant digits

---
 include/gul14/to_number.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index e8bdb15..e2541cb 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -336,6 +336,18 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (str_before_point.empty() && str_after_point.empty())
         return nullopt;
 
+    // to_normalized_float() evaluates only the most significant digits, so check all here
+    for (char c : str_before_point)
+    {
+        if (!is_digit(c))
+            return nullopt;
+    }
+    for (char c : str_after_point)
+    {
+        if (!is_digit(c))
+            return nullopt;
+    }
+
     // Get rid of leading zeros
     while (!str_before_point.empty() and str_before_point[0] == '0')
         str_before_point.remove_prefix(1);
-- 
2.43.0


From 61adcf9ca50c1214d4fd162a21e567ec1499c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:31 +0000
Subject: [PATCH 15/26] fix: to_number<float>(): no integer overflow for
 extreme exponents

---
 include/gul14/to_number.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index e2541cb..daf399b 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -304,7 +304,8 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (inf_nan.result_valid)
         return inf_nan.result;
 
-    int exponent = 0;
+    // Wider than the parsed exponent so that the normalization below cannot overflow
+    long long exponent = 0;
     auto e_pos = str.find_first_of("eE");
     if (e_pos != gul14::string_view::npos)
     {
@@ -363,9 +364,9 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
 
         str_before_point = str_after_point.substr(0, 1);
         str_after_point.remove_prefix(1);
-        exponent -= static_cast<int>(old_digits - str_after_point.length());
+        exponent -= static_cast<long long>(old_digits - str_after_point.length());
     } else {
-        exponent += static_cast<int>(str_before_point.length() - 1);
+        exponent += static_cast<long long>(str_before_point.length() - 1);
     }
 
     // Now the incoming number string is like this:
@@ -382,7 +383,13 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (not norm_val.has_value())
         return nullopt;
 
-    return detail::pow10(exponent) * *norm_val;
+    constexpr auto max_exponent = static_cast<long long>(std::numeric_limits<int>::max());
+    if (exponent > max_exponent)
+        exponent = max_exponent;
+    else if (exponent < -max_exponent)
+        exponent = -max_exponent;
+
+    return detail::pow10(static_cast<int>(exponent)) * *norm_val;
 }
 
 /**
-- 
2.43.0


From 0db97b370a4e511eaca2db9842795f3223f9bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:24 +0000
Subject: [PATCH 16/26] fix: escape(): escape the DEL character, which is not
 printable

---
 src/escape.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.cc b/src/escape.cc
index d9c45c7..35e09be 100644
--- a/src/escape.cc
+++ b/src/escape.cc
@@ -60,7 +60,7 @@ std::string escape(string_view in)
                 escaped += "\\t";
                 break;
             default:
-                if (c < 32)
+                if (c < 32 || c == 127)
                 {
                     // This applies also to all non-ASCII characters (>127) because they
                     // are mapped to negative values
-- 
2.43.0


From 5070041527a0b35b61eecc6891791db54e03c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:08 +0000
Subject: [PATCH 17/26] fix: TaskHandle::cancel(): keep the result of a task
 that cannot be canceled

---
 include/gul14/ThreadPool.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 4b8819b..b393f8e 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -172,8 +172,13 @@ public:
          */
         bool cancel()
         {
-            future_ = {};
-            return detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+            const bool canceled =
+                detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+
+            if (canceled)
+                future_ = {};
+
+            return canceled;
         }
 
         /**
-- 
2.43.0


From 9e54729a223535ecbc89d8b4d54aad993d7ab419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 18/26] fix: TaskHandle: report completed and canceled tasks
 correctly

A task was reported as canceled once its result had been retrieved, and as complete after
it had been canceled through the pool (broken promise).
---
 include/gul14/ThreadPool.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index b393f8e..39dfe5c 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -25,6 +25,7 @@
 #ifndef GUL14_THREADPOOL_H_
 #define GUL14_THREADPOOL_H_
 
+#include <atomic>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
@@ -152,11 +153,14 @@ public:
          *                task
          * \param pool    A shared pointer to the ThreadPool that the task is associated
          *                with
+         * \param started A shared flag that gets set when the task is started
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool)
+        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+                   std::shared_ptr<const std::atomic<bool>> started)
             : future_{ std::move(future) }
             , id_{ id }
             , pool_{ std::move(pool) }
+            , started_{ std::move(started) }
         {}
 
         /**
@@ -208,10 +212,14 @@ public:
          */
         bool is_complete() const
         {
-            if (not future_.valid())
+            // A task that has not been started is either pending or has been canceled. In
+            // the latter case, the future may be ready nevertheless ("broken promise").
+            if (not started_ || not *started_)
                 return false;
 
-            return future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
+            // An invalid future means that the result has already been retrieved.
+            return not future_.valid()
+                || future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
         }
 
         /**
@@ -244,6 +252,7 @@ public:
         std::future<T> future_;
         TaskId id_{ 0 };
         std::weak_ptr<ThreadPool> pool_;
+        std::shared_ptr<const std::atomic<bool>> started_;
     };
 
 
@@ -330,7 +339,8 @@ public:
                     PackagedTask{ std::move(fct) }, std::move(name));
 
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this() };
+                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    named_task_ptr->started_ };
 
                 pending_tasks_.emplace_back(
                     next_task_id_, std::move(named_task_ptr), start_time);
@@ -470,12 +480,14 @@ private:
     {
         NamedTask(std::string name)
         : name_{ std::move(name) }
+        , started_{ std::make_shared<std::atomic<bool>>(false) }
         {}
 
         virtual ~NamedTask() = default;
         virtual void operator()(ThreadPool& pool) = 0;
 
         std::string name_;
+        std::shared_ptr<std::atomic<bool>> started_; // Set when the task is started
     };
 
     template <typename FunctionType>
@@ -487,7 +499,11 @@ private:
         , fct_{ std::move(fct) }
         {}
 
-        void operator()(ThreadPool& pool) override { fct_(pool); }
+        void operator()(ThreadPool& pool) override
+        {
+            *started_ = true;
+            fct_(pool);
+        }
 
         FunctionType fct_;
     };
-- 
2.43.0


From 674d54587436109ab2188e33c9858d2c27c257fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 19/26] fix: TaskHandle::get_state(): do not report a completed
 task as running

---
 include/gul14/ThreadPool.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 39dfe5c..088f84b 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -236,7 +236,13 @@ public:
          */
         TaskState get_state() const
         {
-            const auto state = detail::lock_pool_or_throw(pool_)->get_task_state(id_);
+            const auto pool = detail::lock_pool_or_throw(pool_);
+
+            // The pool may list a task as running for a short time after it has completed
+            if (is_complete())
+                return TaskState::complete;
+
+            const auto state = pool->get_task_state(id_);
 
             if (state == InternalTaskState::unknown)
             {
-- 
2.43.0


From 1d642c4a8accecc2cc8b9de47e19a9aa69e86bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 20/26] fix: ThreadPool: let an idle worker take over pending
 tasks

If the only worker waiting for the start time of a delayed task was woken up for another
task, the delayed task was not started in time although other workers were idle.
---
 src/ThreadPool.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index b125758..8e2e8a7 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -239,6 +239,11 @@ void ThreadPool::perform_work()
         running_task_ids_.push_back(id);
         running_task_names_.push_back(name);
 
+        // This thread may have been woken up to wait for the start time of another task, so
+        // an idle thread must take over while this one is busy.
+        if (!pending_tasks_.empty())
+            cv_.notify_one();
+
         lock.unlock();
 
         try
-- 
2.43.0


From b5c81a32161dc93939f16983da5e746f5aac5a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 21/26] fix: ThreadPool: do not terminate the program if a
 thread cannot be started

---
 include/gul14/ThreadPool.h |  3 +++
 src/ThreadPool.cc          | 39 ++++++++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 088f84b..c114b36 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -609,6 +609,9 @@ private:
      * repeats until asked to quit.
      */
     void perform_work();
+
+    /// Request all threads to shut down and wait until they have terminated.
+    void shut_down();
 };
 
 /**
diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index 8e2e8a7..7fb413c 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -61,22 +61,23 @@ ThreadPool::ThreadPool(std::size_t num_threads, std::size_t capacity)
         throw std::invalid_argument(cat("Illegal capacity for thread pool: ", capacity));
 
     threads_.reserve(num_threads);
-    while (threads_.size() < num_threads)
-        threads_.emplace_back([this]() { perform_work(); });
+
+    try
+    {
+        while (threads_.size() < num_threads)
+            threads_.emplace_back([this]() { perform_work(); });
+    }
+    catch (...)
+    {
+        // Not all threads could be started: Stop those that were
+        shut_down();
+        throw;
+    }
 }
 
 ThreadPool::~ThreadPool()
 {
-    std::unique_lock<std::mutex> lock(mutex_);
-    shutdown_requested_ = true;
-    lock.unlock();
-    cv_.notify_all();
-
-    for (auto& t : threads_)
-    {
-        if (t.joinable())
-            t.join();
-    }
+    shut_down();
 }
 
 bool ThreadPool::cancel_pending_task(const TaskId task_id)
@@ -182,6 +183,20 @@ std::shared_ptr<ThreadPool> ThreadPool::make_shared(
     return std::shared_ptr<ThreadPool>(new ThreadPool(num_threads, capacity));
 }
 
+void ThreadPool::shut_down()
+{
+    std::unique_lock<std::mutex> lock(mutex_);
+    shutdown_requested_ = true;
+    lock.unlock();
+    cv_.notify_all();
+
+    for (auto& t : threads_)
+    {
+        if (t.joinable())
+            t.join();
+    }
+}
+
 void ThreadPool::perform_work()
 {
 #if defined(__APPLE__) || defined(__GNUC__)
-- 
2.43.0


From da0be61c71e991ddc90994978b285f9d47ff5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 22/26] fix: ThreadPool: do not destroy task objects while the
 mutex is locked

Objects held by a task that used the pool in their destructor caused a deadlock.
---
 src/ThreadPool.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index 7fb413c..eb83eb2 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -82,12 +82,14 @@ ThreadPool::~ThreadPool()
 
 bool ThreadPool::cancel_pending_task(const TaskId task_id)
 {
+    Task removed_task; // Destroyed after unlocking because the task may use the pool
     std::lock_guard<std::mutex> lock(mutex_);
 
     auto it = std::find_if(pending_tasks_.begin(), pending_tasks_.end(),
         [task_id](const Task& t) { return t.id_ == task_id; });
     if (it != pending_tasks_.end())
     {
+        removed_task = std::move(*it);
         pending_tasks_.erase(it);
         return true;
     }
@@ -97,10 +99,11 @@ bool ThreadPool::cancel_pending_task(const TaskId task_id)
 
 std::size_t ThreadPool::cancel_pending_tasks()
 {
+    std::vector<Task> removed_tasks; // Destroyed after unlocking as tasks may use the pool
     std::lock_guard<std::mutex> lock(mutex_);
 
     std::size_t num_removed = pending_tasks_.size();
-    pending_tasks_.clear();
+    pending_tasks_.swap(removed_tasks);
 
     return num_removed;
 }
@@ -272,6 +275,8 @@ void ThreadPool::perform_work()
             // to continue...
         }
 
+        named_task_ptr.reset(); // Not under the lock because the task may use the pool
+
         lock.lock();
 
         auto it = std::find(running_task_ids_.begin(), running_task_ids_.end(), id);
-- 
2.43.0


From b9a8ddc5601794fa505bcefb538742c36609997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 23/26] fix: ThreadPool: allow tasks to hold the last reference
 to their pool

Destroying the pool on one of its own worker threads terminated the program or hung.
---
 src/ThreadPool.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index eb83eb2..5ed197a 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -183,7 +183,20 @@ std::shared_ptr<ThreadPool> ThreadPool::make_shared(
     std::size_t num_threads, std::size_t capacity)
 {
     // We cannot use std::make_shared() because the constructor is private.
-    return std::shared_ptr<ThreadPool>(new ThreadPool(num_threads, capacity));
+    return std::shared_ptr<ThreadPool>(new ThreadPool(num_threads, capacity),
+        [](ThreadPool* pool)
+        {
+            const bool is_worker = std::any_of(
+                pool->threads_.begin(), pool->threads_.end(),
+                [](const std::thread& t) { return t.get_id() == std::this_thread::get_id(); });
+
+            // If a task releases the last reference to its own pool, the destructor must not
+            // run on the worker thread because that thread cannot join itself.
+            if (is_worker)
+                std::thread([pool]() { delete pool; }).detach();
+            else
+                delete pool;
+        });
 }
 
 void ThreadPool::shut_down()
-- 
2.43.0


From b3d6c927679372be8ded24cea838873a10540a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:39 +0000
Subject: [PATCH 24/26] fix: keep a SlidingBuffer intact when memory for a
 larger capacity cannot be allocated

---
 include/gul14/SlidingBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index 65bd1d4..9d9739c 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -995,8 +995,9 @@ protected:
         if (new_capacity > old_capacity) {
             // Make SlidingBuffer indices equal to those of the underlying container
             std::rotate(storage_.begin(), storage_.begin() + idx_begin_, storage_.end());
-            storage_.resize(new_capacity);
             idx_begin_ = 0;
+            idx_end_ = full_ ? 0 : old_size; // Consistent even if resize() throws
+            storage_.resize(new_capacity);
             idx_end_ = old_size;
             full_ = false;
             return;
-- 
2.43.0


From 1219e5fed6938886ea13d00312c20561ddbe8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:57 +0000
Subject: [PATCH 25/26] fix: taking a task from the thread pool queue cannot
 fail because of a lack of memory

---
 src/ThreadPool.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index 5ed197a..8187d07 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -62,6 +62,10 @@ ThreadPool::ThreadPool(std::size_t num_threads, std::size_t capacity)
 
     threads_.reserve(num_threads);
 
+    // Taking a task from the queue must not fail because of a lack of memory
+    running_task_ids_.reserve(num_threads);
+    running_task_names_.reserve(num_threads);
+
     try
     {
         while (threads_.size() < num_threads)
@@ -268,7 +272,7 @@ void ThreadPool::perform_work()
         pending_tasks_.erase(task_it);
 
         running_task_ids_.push_back(id);
-        running_task_names_.push_back(name);
+        running_task_names_.push_back(std::move(name));
 
         // This thread may have been woken up to wait for the start time of another task, so
         // an idle thread must take over while this one is busy.
-- 
2.43.0


From 1b71c5c0c82cda4025741d30928f33c002f07c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:13 +0000
Subject: [PATCH 26/26] fix: SmallVector copy assignment no longer terminates
 when copying an element throws

---
 include/gul14/SmallVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 3ae10b2..68321cd 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -941,7 +941,7 @@ public:
      * Copy assignment is only possible if the element type itself is copyable.
      */
     SmallVector& operator=(const SmallVector& other)
-        noexcept(std::is_nothrow_copy_assignable<ValueType>::value)
+        noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
     {
         if (&other != this)
         {
-- 
2.43.0

