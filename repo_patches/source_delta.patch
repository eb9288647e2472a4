From be02242062988f14f264b382301e8f608242cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 01/28] fix: bitset iteration, insertion of nothing and resize
 across block boundaries

---
 .../buffer/dynamic_bitset/bitset_iterator.hpp |  2 +-
 .../dynamic_bitset/dynamic_bitset_base.hpp    | 42 ++++++++++++-------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
index 0547083..65f6d28 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
@@ -126,7 +126,7 @@ namespace sparrow
         if (is_first_bit_of_block(m_index))
         {
             --p_block;
-            m_index = sizeof(block_type);
+            m_index = bitset_type::s_bits_per_block - 1;
         }
         else
         {
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 074b537..3af05a7 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -15,6 +15,7 @@
 #pragma once
 
 
+#include <algorithm>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
@@ -276,8 +277,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::end() -> iterator
     {
-        block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return iterator(this, block, size() % s_bits_per_block);
+        return iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
@@ -305,8 +305,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::cend() const -> const_iterator
     {
-        const block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return const_iterator(this, block, size() % s_bits_per_block);
+        return const_iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
@@ -481,7 +480,7 @@ namespace sparrow
         const size_type extra_bits = count_extra_bits();
         if (extra_bits != 0)
         {
-            buffer().back() &= block_type(~(~block_type(0) << extra_bits));
+            buffer().data()[block_index(size())] &= block_type(~(~block_type(0) << extra_bits));
         }
     }
 
@@ -503,6 +502,8 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr void dynamic_bitset_base<B>::resize(size_type n, value_type b)
     {
+        // A bitset without data is a bitset where all the bits are set
+        const bool old_bits_are_implicitly_set = data() == nullptr && m_size != 0;
         const size_type old_block_count = buffer().size();
         const size_type new_block_count = compute_block_count(n);
         const block_type value = b ? block_type(~block_type(0)) : block_type(0);
@@ -512,16 +513,25 @@ namespace sparrow
             buffer().resize(new_block_count, value);
         }
 
-        if (b && n > m_size)
+        const size_type old_size = m_size;
+        m_size = n;
+
+        if (old_bits_are_implicitly_set)
         {
-            const size_type extra_bits = count_extra_bits();
-            if (extra_bits > 0)
+            for (size_type i = 0; i < std::min(n, old_size); ++i)
             {
-                buffer().data()[old_block_count - 1] |= static_cast<block_type>(value << extra_bits);
+                buffer().data()[block_index(i)] |= bit_mask(i);
             }
         }
 
-        m_size = n;
+        // The blocks that already existed may contain bits past the old size
+        const size_type last_old_bit = std::min(n, old_block_count * s_bits_per_block);
+        for (size_type i = old_size; i < last_old_bit; ++i)
+        {
+            block_type& block = buffer().data()[block_index(i)];
+            block = b ? block_type(block | bit_mask(i)) : block_type(block & block_type(~bit_mask(i)));
+        }
+
         m_null_count = m_size - count_non_null();
         zero_unused_bits();
     }
@@ -548,7 +558,7 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, size_type count, value_type value)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
+        SPARROW_ASSERT_TRUE(data() != nullptr || empty());
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -559,9 +569,9 @@ namespace sparrow
 
         resize(new_size);
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = new_size; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
@@ -579,7 +589,7 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, InputIt first, InputIt last)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
+        SPARROW_ASSERT_TRUE(data() != nullptr || empty());
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -591,9 +601,9 @@ namespace sparrow
 
         // TODO: The current implementation is not efficient. It can be improved.
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = new_size; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
-- 
2.43.0


From 3d9736860b83cb288e65bdcc1aed7fb466acd2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 02/28] fix: creating a bitset view does not write into memory
 it does not own

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp |  3 +++
 .../buffer/dynamic_bitset/dynamic_bitset_base.hpp    | 12 ++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
index b1dcf20..3d54da2 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
@@ -95,18 +95,21 @@ namespace sparrow
               value ? 0u : n
           )
     {
+        this->zero_unused_bits();
     }
 
     template <std::integral T>
     constexpr dynamic_bitset<T>::dynamic_bitset(block_type* p, size_type n)
         : base_type(storage_type(p, this->compute_block_count(n)), n)
     {
+        this->zero_unused_bits();
     }
 
     template <std::integral T>
     constexpr dynamic_bitset<T>::dynamic_bitset(block_type* p, size_type n, size_type null_count)
         : base_type(storage_type(p, this->compute_block_count(n)), n, null_count)
     {
+        this->zero_unused_bits();
     }
 
 
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 3af05a7..171250e 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -146,6 +146,10 @@ namespace sparrow
         constexpr void push_back(value_type value);
         constexpr void pop_back();
 
+        // Must only be called by bitsets owning their storage: the bits past the
+        // last one of a view belong to somebody else.
+        constexpr void zero_unused_bits();
+
     private:
 
         static constexpr std::size_t s_bits_per_block = sizeof(block_type) * CHAR_BIT;
@@ -155,7 +159,6 @@ namespace sparrow
 
         size_type count_non_null() const noexcept;
         constexpr size_type count_extra_bits() const noexcept;
-        constexpr void zero_unused_bits();
         constexpr void update_null_count(bool old_value, bool new_value);
 
         storage_type m_buffer;
@@ -383,10 +386,6 @@ namespace sparrow
         , m_size(size)
         , m_null_count(m_size - count_non_null())
     {
-        if constexpr (!std::is_const_v<block_type>)
-        {
-            zero_unused_bits();
-        }
     }
 
     template <typename B>
@@ -398,7 +397,6 @@ namespace sparrow
     {
         if constexpr (!std::is_const_v<block_type>)
         {
-            zero_unused_bits();
             SPARROW_ASSERT_TRUE(m_null_count == m_size - count_non_null());
         }
     }
@@ -558,7 +556,6 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, size_type count, value_type value)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr || empty());
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -589,7 +586,6 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, InputIt first, InputIt last)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr || empty());
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
-- 
2.43.0


From e6fc52e3ef8fe687b95c4769741c1009f080edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 03/28] fix: buffer operations on empty ranges and on values
 held by the buffer itself

---
 include/sparrow/buffer/buffer.hpp         | 21 ++++++++++++++-------
 include/sparrow/buffer/buffer_adaptor.hpp | 14 +++++++++-----
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index a91b47b..516d756 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -495,7 +495,7 @@ namespace sparrow
     {
         if (rhs.get_allocator() == get_allocator())
         {
-            get_data() = std::move(rhs.m_data);
+            get_data() = std::move(rhs.get_data());
         }
         else if (!rhs.empty())
         {
@@ -785,10 +785,11 @@ namespace sparrow
         const difference_type offset = std::distance(cbegin(), pos);
         if (count != 0)
         {
+            const T copy(value);  // value may be an element of this buffer
             reserve_with_growth_factor( size() + count);
             const iterator it = std::next(begin(), offset);
             std::move_backward(it, end(), std::next(end(), static_cast<difference_type>(count)));
-            std::fill_n(it, count, value);
+            std::fill_n(it, count, copy);
             get_data().p_end += count;
         }
         return std::next(begin(), offset);
@@ -857,17 +858,18 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type offset = std::distance(cbegin(), pos);
+        T value(std::forward<Args>(args)...);  // args may refer to elements of this buffer
         reserve_with_growth_factor(size() + 1);
         pointer p = get_data().p_begin + offset;
         if (p != get_data().p_end)
         {
             alloc_traits::construct(get_allocator(), get_data().p_end, std::move(*(get_data().p_end - 1)));
             std::move_backward(p, get_data().p_end - 1, get_data().p_end);
-            alloc_traits::construct(get_allocator(), p, std::forward<Args>(args)...);
+            *p = std::move(value);
         }
         else
         {
-            alloc_traits::construct(get_allocator(), get_data().p_end, std::forward<Args>(args)...);
+            alloc_traits::construct(get_allocator(), get_data().p_end, std::move(value));
         }
         ++get_data().p_end;
         return iterator(p);
@@ -884,10 +886,14 @@ namespace sparrow
     template <class T>
     constexpr auto buffer<T>::erase(const_iterator first, const_iterator last) -> iterator
     {
-        SPARROW_ASSERT_TRUE(first < last);
+        SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(cbegin() <= first);
         SPARROW_ASSERT_TRUE(last <= cend());
         const difference_type offset = std::distance(cbegin(), first);
+        if (first == last)
+        {
+            return std::next(begin(), offset);
+        }
         const difference_type len = std::distance(first, last);
         pointer p = get_data().p_begin + offset;
         erase_at_end(std::move(p + len, get_data().p_end, p));
@@ -910,7 +916,7 @@ namespace sparrow
     constexpr void buffer<T>::pop_back()
     {
         SPARROW_ASSERT_FALSE(empty());
-        destroy(get_allocator(), get_data().p_end - 1);
+        destroy(get_data().p_end - 1, get_data().p_end, get_allocator());
         --get_data().p_end;
     }
 
@@ -931,7 +937,8 @@ namespace sparrow
     {
         resize_impl(
             new_size,
-            [this, &value](size_type nb_init)
+            // value may be an element of this buffer
+            [this, value = value_type(value)](size_type nb_init)
             {
                 get_data().p_end = fill_initialize(get_data().p_end, nb_init, value, get_allocator());
             }
diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index d4d46a8..84e0de7 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -460,8 +460,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type copy = value;  // value may be an element of the adapted buffer
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        operator[](static_cast<size_type>(index)) = value;
+        operator[](static_cast<size_type>(index)) = copy;
         return std::next(begin(), index);
     }
 
@@ -475,10 +476,11 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type copy = value;  // value may be an element of the adapted buffer
         m_buffer.insert(buffer_pos, count * m_to_from_size_ratio, 0);
         for (size_type i = 0; i < count; ++i)
         {
-            data()[static_cast<size_t>(index) + i] = value;
+            data()[static_cast<size_t>(index) + i] = copy;
         }
         return std::next(begin(), index);
     }
@@ -521,8 +523,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type value(std::forward<Args>(args)...);  // args may refer to the adapted buffer
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        data()[index] = value_type(std::forward<Args>(args)...);
+        data()[index] = value;
         return std::next(begin(), index);
     }
 
@@ -564,7 +567,7 @@ namespace sparrow
         const difference_type index_first = std::distance(cbegin(), first);
         const difference_type index_last = std::distance(cbegin(), last);
         const auto idx_for_buffer_first = index_for_buffer(static_cast<size_type>(index_first));
-        SPARROW_ASSERT_TRUE(idx_for_buffer_first < m_buffer.size());
+        SPARROW_ASSERT_TRUE(idx_for_buffer_first <= m_buffer.size());
         const auto idx_for_buffer_last = index_for_buffer(static_cast<size_type>(index_last));
         SPARROW_ASSERT_TRUE(idx_for_buffer_last <= m_buffer.size());
         m_buffer.erase(
@@ -607,13 +610,14 @@ namespace sparrow
         requires(not is_const)
     {
         const size_type original_size = size();
+        const value_type copy = value;  // value may be an element of the adapted buffer
         const auto new_size_for_buffer = static_cast<size_type>(
             static_cast<double>(new_size) / m_from_to_size_ratio
         );
         m_buffer.resize(new_size_for_buffer, 0);
         for (size_type i = original_size; i < new_size; ++i)
         {
-            operator[](i) = value;
+            operator[](i) = copy;
         }
     }
 
-- 
2.43.0


From 7c3f13342a9fe7b10baa44a7f88542f18ecf4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 04/28] fix: arrays without validity buffer can be copied and
 assigned through references

---
 .../sparrow/buffer/dynamic_bitset/bitset_reference.hpp | 10 +++++++++-
 src/arrow_interface/arrow_array.cpp                    |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
index ef7585a..a31f602 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
@@ -15,6 +15,8 @@
 
 #pragma once
 
+#include "sparrow/utils/contracts.hpp"
+
 namespace sparrow
 {
     template <class B, bool is_const>
@@ -111,7 +113,7 @@ namespace sparrow
     template <class B>
     constexpr bool bitset_reference<B>::operator~() const noexcept
     {
-        return (m_block & m_mask) == 0;
+        return !bool(*this);
     }
 
     template <class B>
@@ -139,6 +141,7 @@ namespace sparrow
     {
         if (rhs)
         {
+            SPARROW_ASSERT_TRUE(m_bitset.data() != nullptr);
             bool old_value = m_block & m_mask;
             m_block ^= m_mask;
             m_bitset.update_null_count(old_value, !old_value);
@@ -163,6 +166,10 @@ namespace sparrow
     template <class B>
     constexpr void bitset_reference<B>::set() noexcept
     {
+        if (m_bitset.data() == nullptr)
+        {
+            return;  // All the bits of a bitset without data are set
+        }
         bool old_value = m_block & m_mask;
         m_block |= m_mask;
         m_bitset.update_null_count(old_value, m_block & m_mask);
@@ -171,6 +178,7 @@ namespace sparrow
     template <class B>
     constexpr void bitset_reference<B>::reset() noexcept
     {
+        SPARROW_ASSERT_TRUE(m_bitset.data() != nullptr);
         bool old_value = m_block & m_mask;
         m_block &= ~m_mask;
         m_bitset.update_null_count(old_value, m_block & m_mask);
diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index fa9e6b9..d532999 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -232,7 +232,14 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(buffers.size() == static_cast<std::size_t>(source_array.n_buffers));
         for (const auto& buffer : buffers)
         {
-            buffers_copy.emplace_back(buffer);
+            if (buffer.data() == nullptr)
+            {
+                buffers_copy.emplace_back();  // an absent buffer remains absent
+            }
+            else
+            {
+                buffers_copy.emplace_back(buffer);
+            }
         }
         target.private_data = new arrow_array_private_data(
             std::move(buffers_copy),
-- 
2.43.0


From 35306a8dd9217e19f0c2f35f89a3bf54048132b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 05/28] fix: mutating a sliced array, resizing with null, and
 erasing an empty range

---
 include/sparrow/arrow_array_schema_proxy.hpp  | 10 ++++++++--
 include/sparrow/layout/array_bitmap_base.hpp  |  6 +++---
 include/sparrow/layout/mutable_array_base.hpp |  4 ++--
 include/sparrow/layout/primitive_array.hpp    |  6 +++++-
 src/arrow_array_schema_proxy.cpp              |  6 +++---
 5 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 948293f..a6ce58a 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -477,8 +477,14 @@ namespace sparrow
         }
         SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         auto bitmap = get_non_owning_dynamic_bitset();
-        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), range.begin(), range.end());
-        return static_cast<size_t>(std::distance(bitmap.begin(), it));
+        const auto it = bitmap.insert(
+            sparrow::next(bitmap.cbegin(), index + offset()),
+            range.begin(),
+            range.end()
+        );
+        const auto inserted = static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
+        update_buffers();
+        return inserted;
     }
 
 }
diff --git a/include/sparrow/layout/array_bitmap_base.hpp b/include/sparrow/layout/array_bitmap_base.hpp
index 3865477..75f0f7a 100644
--- a/include/sparrow/layout/array_bitmap_base.hpp
+++ b/include/sparrow/layout/array_bitmap_base.hpp
@@ -63,7 +63,7 @@ namespace sparrow
             requires is_mutable;
         const bitmap_type& get_bitmap() const;
 
-        void resize_bitmap(size_type new_length)
+        void resize_bitmap(size_type new_length, bool value = true)
             requires is_mutable;
 
         bitmap_iterator insert_bitmap(const_bitmap_iterator pos, bool value, size_type count)
@@ -161,12 +161,12 @@ namespace sparrow
     }
 
     template <class D, bool is_mutable>
-    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length)
+    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length, bool value)
         requires is_mutable
     {
         arrow_proxy& arrow_proxy = this->get_arrow_proxy();
         const size_t new_size = new_length + arrow_proxy.offset();
-        arrow_proxy.resize_bitmap(new_size);
+        arrow_proxy.resize_bitmap(new_size, value);
     }
 
     template <class D, bool is_mutable>
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index d6359fa..254e702 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -254,7 +254,7 @@ namespace sparrow
     void mutable_array_base<D>::resize(size_type new_length, const value_type& value)
     {
         auto& derived = this->derived_cast();
-        derived.resize_bitmap(new_length);
+        derived.resize_bitmap(new_length, value.has_value());
         derived.resize_values(new_length, value.get());
         this->get_arrow_proxy().set_length(new_length);  // Must be done after resizing the bitmap and values
         derived.update();
@@ -333,7 +333,7 @@ namespace sparrow
     template <class D>
     auto mutable_array_base<D>::erase(const_iterator first, const_iterator last) -> iterator
     {
-        SPARROW_ASSERT_TRUE(first < last);
+        SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(this->cbegin() <= first)
         SPARROW_ASSERT_TRUE(last <= this->cend());
         const difference_type first_index = std::distance(this->cbegin(), first);
diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index 331546e..08f213c 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstddef>
 #include <ranges>
 
@@ -417,7 +418,10 @@ namespace sparrow
     void primitive_array<T>::resize_values(size_type new_length, inner_value_type value)
     {
         const size_t new_size = new_length + static_cast<size_t>(this->get_arrow_proxy().offset());
-        get_data_buffer().resize(new_size, value);
+        auto data_buffer = get_data_buffer();
+        // The buffer of a slice may hold values past the end of the array
+        data_buffer.resize(std::min(new_size, this->size() + static_cast<size_t>(this->get_arrow_proxy().offset())));
+        data_buffer.resize(new_size, value);
     }
 
     template <class T>
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 3760662..c0e18fb 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -762,9 +762,9 @@ namespace sparrow
             return index;
         }
         auto bitmap = get_non_owning_dynamic_bitset();
-        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), count, value);
+        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index + offset()), count, value);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     size_t arrow_proxy::erase_bitmap(size_t index, size_t count)
@@ -782,7 +782,7 @@ namespace sparrow
         const auto it_last = sparrow::next(it_first, count);
         const auto it = bitmap.erase(it_first, it_last);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     void arrow_proxy::push_back_bitmap(bool value)
-- 
2.43.0


From c20774fc5ac6c58acb05cb56504f785de3a24d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 06/28] fix: slice relatively to the current offset and
 recompute the null count of slices

---
 src/arrow_array_schema_proxy.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index c0e18fb..a2e7316 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -500,8 +500,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, buffer);
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     void arrow_proxy::set_buffer(size_t index, buffer<uint8_t>&& buffer)
@@ -512,8 +512,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, std::move(buffer));
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     [[nodiscard]] const std::vector<arrow_proxy>& arrow_proxy::children() const
@@ -681,11 +681,16 @@ namespace sparrow
         if(has_bitmap(data_type()))
         {
             const auto& validity_buffer = buffers().front();
-            const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
-            const auto null_count = bitmap.null_count();
-            set_null_count(static_cast<int64_t>(null_count));
+            using bitmap_type = dynamic_bitset_view<const std::uint8_t>;
+            // The nulls located before the offset do not belong to the array
+            const bitmap_type bitmap(validity_buffer.data(), length() + offset());
+            const bitmap_type skipped(validity_buffer.data(), offset());
+            array().null_count = static_cast<int64_t>(bitmap.null_count() - skipped.null_count());
+        }
+        else if (data_type() == data_type::NA)
+        {
+            array().null_count = array().length;
         }
-        
     }
 
     bool arrow_proxy::is_arrow_array_valid() const
@@ -815,7 +820,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(start <= end);
         arrow_proxy copy = *this;
-        copy.set_offset(start);
+        copy.set_offset(offset() + start);
         copy.set_length(end - start);
         return copy;
     }
@@ -826,9 +831,11 @@ namespace sparrow
         ArrowSchema as = schema();
         as.release = empty_release_arrow_schema;
         ArrowArray ar = array();
-        ar.offset = static_cast<int64_t>(start);
+        ar.offset = static_cast<int64_t>(offset() + start);
         ar.length = static_cast<int64_t>(end - start);
         ar.release = empty_release_arrow_array;
-        return arrow_proxy{std::move(ar), std::move(as)};
+        arrow_proxy res{std::move(ar), std::move(as)};
+        res.update_null_count();
+        return res;
     }
 }
-- 
2.43.0


From ba0e9d8c16d7db0fe69029908d17285d9ef74f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 07/28] fix: leaks and ownership of children and dictionaries
 managed through arrow_proxy

---
 include/sparrow/arrow_array_schema_proxy.hpp  |  3 +-
 .../arrow_array_schema_utils.hpp              | 34 +++++++--
 src/arrow_array_schema_proxy.cpp              | 69 +++++++++++++------
 3 files changed, 77 insertions(+), 29 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index a6ce58a..514b375 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -81,7 +81,7 @@ namespace sparrow
         SPARROW_API arrow_proxy& operator=(const arrow_proxy&);
 
         // Move constructors
-        SPARROW_API arrow_proxy(arrow_proxy&&);
+        SPARROW_API arrow_proxy(arrow_proxy&&) noexcept;
         SPARROW_API arrow_proxy& operator=(arrow_proxy&&);
 
         SPARROW_API ~arrow_proxy();
@@ -398,6 +398,7 @@ namespace sparrow
 
         [[nodiscard]] bool empty() const;
         SPARROW_API void resize_children(size_t children_count);
+        void release_child(size_t index);
 
         [[nodiscard]] SPARROW_API non_owning_dynamic_bitset<uint8_t> get_non_owning_dynamic_bitset();
 
diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index dd095af..8250862 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -41,6 +41,9 @@ namespace sparrow
 
         constexpr void resize_children(std::size_t size);
 
+        constexpr void set_dictionary_ownership(bool ownership) noexcept;
+        [[nodiscard]] constexpr bool has_dictionary_ownership() const noexcept;
+
     protected:
 
         constexpr explicit children_ownership(std::size_t size = 0);
@@ -49,6 +52,8 @@ namespace sparrow
 
         using children_owner_list = std::vector<bool>;
         children_owner_list m_children = {};
+        // Whether the dictionary structure itself must be deleted with its parent
+        bool m_dictionary = true;
     };
 
     /**
@@ -173,6 +178,16 @@ namespace sparrow
         m_children.resize(size);
     }
 
+    constexpr void children_ownership::set_dictionary_ownership(bool ownership) noexcept
+    {
+        m_dictionary = ownership;
+    }
+
+    [[nodiscard]] constexpr bool children_ownership::has_dictionary_ownership() const noexcept
+    {
+        return m_dictionary;
+    }
+
     template <class T>
     requires std::same_as<T, ArrowArray> || std::same_as<T, ArrowSchema>
     void release_common_arrow(T& t)
@@ -188,6 +203,12 @@ namespace sparrow
             {
                 t.dictionary->release(t.dictionary);
             }
+            if (t.private_data != nullptr
+                && static_cast<const children_ownership*>(t.private_data)->has_dictionary_ownership())
+            {
+                delete t.dictionary;
+            }
+            t.dictionary = nullptr;
         }
 
         if (t.children)
@@ -197,16 +218,17 @@ namespace sparrow
                 T* child = t.children[i];
                 if (child)
                 {
-                    if (child->release)
+                    SPARROW_ASSERT_TRUE(t.private_data != nullptr);
+                    const auto* own = static_cast<const children_ownership*>(t.private_data);
+                    if (own->has_child_ownership(static_cast<std::size_t>(i)))
                     {
-                        SPARROW_ASSERT_TRUE(t.private_data != nullptr);
-                        children_ownership* own = static_cast<children_ownership*>(t.private_data);
-                        if (own->has_child_ownership(static_cast<std::size_t>(i)))
+                        // A child that has been moved out is already released
+                        if (child->release)
                         {
                             child->release(child);
-                            delete child;
-                            child = nullptr;
                         }
+                        delete child;
+                        t.children[i] = nullptr;
                     }
                 }
             }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index a2e7316..de1ddb1 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -173,7 +173,7 @@ namespace sparrow
         return *this;
     }
 
-    arrow_proxy::arrow_proxy(arrow_proxy&& other)
+    arrow_proxy::arrow_proxy(arrow_proxy&& other) noexcept
         : m_array(std::move(other.m_array))
         , m_schema(std::move(other.m_schema))
         , m_buffers(std::move(other.m_buffers))
@@ -430,14 +430,7 @@ namespace sparrow
         // Release the remaining children if the new size is smaller than the current size
         for (size_t i = children_count; i < static_cast<size_t>(array().n_children); ++i)
         {
-            if (schema_private_data->has_child_ownership(i))
-            {
-                schema().children[i]->release(schema().children[i]);
-            }
-            if (array_private_data->has_child_ownership(i))
-            {
-                array().children[i]->release(array().children[i]);
-            }
+            release_child(i);
         }
 
         auto new_array_children = std::make_unique<ArrowArray*[]>(children_count);
@@ -464,6 +457,25 @@ namespace sparrow
         new_schema_children.reset(tmp_schema_children);
     }
 
+    void arrow_proxy::release_child(size_t index)
+    {
+        const auto release = [index](auto& parent, const children_ownership& owner)
+        {
+            auto*& child = parent.children[index];
+            if (child != nullptr && owner.has_child_ownership(index))
+            {
+                if (child->release != nullptr)
+                {
+                    child->release(child);
+                }
+                delete child;
+            }
+            child = nullptr;
+        };
+        release(schema(), *get_schema_private_data());
+        release(array(), *get_array_private_data());
+    }
+
     arrow_schema_private_data* arrow_proxy::get_schema_private_data()
     {
         if (!schema_created_with_sparrow())
@@ -537,6 +549,7 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        release_child(index);
         array().children[index] = child_array;
         schema().children[index] = child_schema;
         m_children[index] = arrow_proxy(child_array, child_schema);
@@ -553,8 +566,10 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
-        array().children[index] = new ArrowArray(std::move(child_array));
-        schema().children[index] = new ArrowSchema(std::move(child_schema));
+        release_child(index);
+        // The structures passed as arguments must be left released after the move
+        array().children[index] = new ArrowArray(std::exchange(child_array, ArrowArray{}));
+        schema().children[index] = new ArrowSchema(std::exchange(child_schema, ArrowSchema{}));
         m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
         get_array_private_data()->set_child_ownership(index, true);
         get_schema_private_data()->set_child_ownership(index, true);
@@ -569,7 +584,9 @@ namespace sparrow
     void arrow_proxy::add_child(ArrowArray&& array, ArrowSchema&& schema)
     {
         using value_type = arrow_array_and_schema;
-        add_children(std::ranges::single_view(value_type{std::move(array), std::move(schema)}));
+        add_children(std::ranges::single_view(
+            value_type{std::exchange(array, ArrowArray{}), std::exchange(schema, ArrowSchema{})}
+        ));
     }
 
     [[nodiscard]] const std::unique_ptr<arrow_proxy>& arrow_proxy::dictionary() const
@@ -590,17 +607,25 @@ namespace sparrow
             );
         }
 
-        if (array().dictionary != nullptr)
-        {
-            array().dictionary->release(array().dictionary);
-        }
-        if (schema().dictionary != nullptr)
+        const auto replace_dictionary = [](auto& parent, children_ownership& owner, auto* dictionary)
         {
-            schema().dictionary->release(schema().dictionary);
-        }
-
-        array().dictionary = array_dictionary;
-        schema().dictionary = schema_dictionary;
+            if (parent.dictionary != nullptr)
+            {
+                if (parent.dictionary->release != nullptr)
+                {
+                    parent.dictionary->release(parent.dictionary);
+                }
+                if (owner.has_dictionary_ownership())
+                {
+                    delete parent.dictionary;
+                }
+            }
+            parent.dictionary = dictionary;
+            // The content of the new dictionary is owned, the structure holding it is not
+            owner.set_dictionary_ownership(false);
+        };
+        replace_dictionary(array(), *get_array_private_data(), array_dictionary);
+        replace_dictionary(schema(), *get_schema_private_data(), schema_dictionary);
         update_dictionary();
     }
 
-- 
2.43.0


From 580b7b88ee86d3c56eba8cc75fb8a9e163499437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 08/28] fix: list, struct and union layouts honour the offset
 of the array

---
 .../sparrow/layout/list_layout/list_array.hpp   | 17 +++++++----------
 .../layout/struct_layout/struct_array.hpp       |  4 ++--
 include/sparrow/layout/union_array.hpp          |  4 ++--
 3 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index d1fda9f..c85507e 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -562,9 +562,8 @@ namespace sparrow
     template <bool BIG>
     auto list_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     /***************************************
@@ -656,17 +655,15 @@ namespace sparrow
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_sizes() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
 #ifdef __GNUC__
@@ -693,7 +690,7 @@ namespace sparrow
 
     inline auto fixed_sized_list_array::offset_range(size_type i) const -> std::pair<offset_type, offset_type>
     {
-        const auto offset = i * m_list_size;
+        const auto offset = (i + this->get_arrow_proxy().offset()) * m_list_size;
         return std::make_pair(offset, offset + m_list_size);
     }
 
diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 97067e5..618d0d9 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -228,12 +228,12 @@ namespace sparrow
 
     inline auto struct_array::value(size_type i) -> inner_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::value(size_type i) const -> inner_const_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::make_children() -> children_type
diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index 0bd32b9..acf0a1c 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -325,7 +325,7 @@ namespace sparrow
     template <class DERIVED>
     auto union_array_crtp_base<DERIVED>::operator[](std::size_t i) const -> value_type
     {   
-        const auto type_id = static_cast<std::size_t>(p_type_ids[i]);
+        const auto type_id = static_cast<std::size_t>(p_type_ids[i + m_proxy.offset()]);
         const auto child_index = m_type_id_map[type_id];
         const auto offset = this->derived_cast().element_offset(i);
         return array_element(*m_children[child_index], static_cast<std::size_t>(offset));
@@ -502,7 +502,7 @@ namespace sparrow
 
     inline std::size_t dense_union_array::element_offset(std::size_t i) const
     {
-        return static_cast<std::size_t>(p_offsets[i]) + m_proxy.offset();
+        return static_cast<std::size_t>(p_offsets[i + m_proxy.offset()]);
     }
 
     /*************************************
-- 
2.43.0


From 68e8fb3a81bdb6c77f2a1181ab8c241b8e36edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 09/28] fix: run-end encoded arrays honour the offset, accept
 signed run ends and iterate within bounds

---
 .../run_end_encoded_array.hpp                 | 60 +++++++++++++------
 .../run_end_encoded_iterator.hpp              | 16 +++--
 src/run_encoded_array.cpp                     | 20 ++-----
 3 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index 4f52832..98d9c4a 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -93,11 +93,18 @@ namespace sparrow
             array && encoded_values
         ) -> arrow_proxy;
 
-        using acc_length_ptr_variant_type = std::variant< const std::uint16_t*, const std::uint32_t*,const std::uint64_t*> ;
+        using acc_length_ptr_variant_type = std::variant<
+            const std::int16_t*,
+            const std::int32_t*,
+            const std::int64_t*,
+            const std::uint16_t*,
+            const std::uint32_t*,
+            const std::uint64_t*>;
 
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
-        SPARROW_API std::uint64_t get_run_length(std::uint64_t run_index) const;
+        SPARROW_API std::uint64_t get_run_index(std::uint64_t i) const;
+        SPARROW_API std::uint64_t get_run_end(std::uint64_t run_index) const;
 
         [[nodiscard]] arrow_proxy& get_arrow_proxy();
         [[nodiscard]] const arrow_proxy& get_arrow_proxy() const;
@@ -154,24 +161,39 @@ namespace sparrow
         return m_proxy.length();
     }
 
-    inline auto run_end_encoded_array::get_run_length(std::uint64_t run_index) const -> std::uint64_t
+    // Index of the run holding the element i of this array
+    inline auto run_end_encoded_array::get_run_index(std::uint64_t i) const -> std::uint64_t
     {
-
-        auto ret =  std::visit(
-            [run_index](auto&& acc_lengths_ptr) -> std::uint64_t
+        const std::uint64_t physical_index = i + static_cast<std::uint64_t>(m_proxy.offset());
+        return std::visit(
+            [physical_index, this](const auto& acc_lengths_ptr) -> std::uint64_t
             {
-                if(run_index == 0)
-                {   
-                    return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]);
-                }
-                else
-                {
-                    return static_cast<std::uint64_t>(acc_lengths_ptr[run_index] - acc_lengths_ptr[run_index - 1]);
-                }
+                const auto it = std::upper_bound(
+                    acc_lengths_ptr,
+                    acc_lengths_ptr + this->m_encoded_length,
+                    physical_index,
+                    [](std::uint64_t lhs, const auto& rhs)
+                    {
+                        return lhs < static_cast<std::uint64_t>(rhs);
+                    }
+                );
+                // std::upper_bound returns an iterator, so we need to convert it to an index
+                return static_cast<std::uint64_t>(std::distance(acc_lengths_ptr, it));
             },
             m_acc_lengths
         );
-        return ret;
+    }
+
+    // Index, in this array, of the element following the last one of the run
+    inline auto run_end_encoded_array::get_run_end(std::uint64_t run_index) const -> std::uint64_t
+    {
+        return std::visit(
+            [run_index](const auto& acc_lengths_ptr) -> std::uint64_t
+            {
+                return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]);
+            },
+            m_acc_lengths
+        ) - static_cast<std::uint64_t>(m_proxy.offset());
     }
     
     inline arrow_proxy& run_end_encoded_array::get_arrow_proxy()
@@ -191,12 +213,12 @@ namespace sparrow
 
     inline auto run_end_encoded_array::begin() -> iterator
     {
-        return iterator(this, 0, 0);
+        return iterator(this, 0);
     }
 
     inline auto run_end_encoded_array::end() -> iterator
     {
-        return iterator(this, size(), 0);
+        return iterator(this, size());
     }
 
     inline auto run_end_encoded_array::begin() const -> const_iterator
@@ -211,12 +233,12 @@ namespace sparrow
 
     inline auto run_end_encoded_array::cbegin() const -> const_iterator
     {
-        return const_iterator(this, 0, 0);
+        return const_iterator(this, 0);
     }
 
     inline auto run_end_encoded_array::cend() const -> const_iterator
     {
-        return const_iterator(this, size(), 0);
+        return const_iterator(this, size());
     }
 
     inline bool operator==(const run_end_encoded_array& lhs, const run_end_encoded_array& rhs)
diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
index 8faafb8..b795bd9 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
@@ -44,7 +44,7 @@ namespace sparrow
         using array_ptr_type = std::conditional_t<CONST, const run_end_encoded_array *, run_end_encoded_array*>;
     public:
         run_encoded_array_iterator() = default;
-        run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index, std::uint64_t run_end_index);
+        run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index);
     private:
 
         bool equal(const run_encoded_array_iterator& rhs) const;
@@ -60,14 +60,18 @@ namespace sparrow
     };
     
     template<bool CONST>
-    run_encoded_array_iterator<CONST>::run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index, std::uint64_t run_end_index)
+    run_encoded_array_iterator<CONST>::run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index)
         : 
         p_array(array_ptr),
         p_encoded_values_array(array_ptr->p_encoded_values_array.get()),
-        m_index(index), 
-        m_run_end_index(run_end_index),
-        m_runs_left(array_ptr->get_run_length(index))
+        m_index(index)
     {
+        // past-the-end iterators do not refer to any run
+        if(m_index < p_array->size())
+        {
+            m_run_end_index = p_array->get_run_index(m_index);
+            m_runs_left = p_array->get_run_end(m_run_end_index) - m_index;
+        }
     }
 
     template<bool CONST>
@@ -84,7 +88,7 @@ namespace sparrow
         if(m_runs_left == 0 && m_index < p_array->size())
         {
             ++m_run_end_index;
-            m_runs_left = p_array->get_run_length(m_run_end_index);
+            m_runs_left = p_array->get_run_end(m_run_end_index) - m_index;
         }
     }
 
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index a5d5608..ef57752 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -9,6 +9,9 @@ namespace sparrow
     template<class T>
     concept usable_array =
              mpl::is_type_instance_of_v<T, primitive_array> && (
+             std::same_as<typename T::inner_value_type, std::int16_t> ||
+             std::same_as<typename T::inner_value_type, std::int32_t> ||
+             std::same_as<typename T::inner_value_type, std::int64_t> ||
              std::same_as<typename T::inner_value_type, std::uint16_t> ||
              std::same_as<typename T::inner_value_type, std::uint32_t> ||
              std::same_as<typename T::inner_value_type, std::uint64_t>);
@@ -35,20 +38,7 @@ namespace sparrow
 
     auto run_end_encoded_array::operator[](std::uint64_t i) const -> array_traits::const_reference
     {
-        return visit(
-            [i, this](const auto& acc_lengths_ptr) -> array_traits::const_reference
-            {
-                const auto it = std::upper_bound(
-                    acc_lengths_ptr,
-                    acc_lengths_ptr + this->m_encoded_length,
-                    i
-                );
-                // std::lower_bound returns an iterator, so we need to convert it to an index
-                const auto index = static_cast<std::size_t>(std::distance(acc_lengths_ptr, it));
-                return array_element(*p_encoded_values_array, static_cast<std::size_t>(index));
-            },
-            m_acc_lengths
-        );
+        return array_element(*p_encoded_values_array, static_cast<std::size_t>(get_run_index(i)));
     }
 
     std::pair<std::int64_t, std::int64_t> run_end_encoded_array::extract_length_and_null_count(
@@ -70,7 +60,7 @@ namespace sparrow
                 {   
                     auto acc_length_data = acc_lengths_array.data();
                     // get the length of the array (ie last element in the acc_lengths array)
-                    length = acc_length_data[raw_size - 1];
+                    length = raw_size == 0 ? 0 : static_cast<std::int64_t>(acc_length_data[raw_size - 1]);
 
                     if(raw_null_count == 0){
                         return;
-- 
2.43.0


From 6a21354ea1ea38fc9b6bd9a8f83bc01f58c16c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 10/28] fix: null elements of dictionary encoded arrays have
 the type of the dictionary

---
 .../layout/dictionary_encoded_array.hpp        | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index e14fd46..085b6b4 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -152,7 +152,7 @@ namespace sparrow
         using keys_layout = primitive_array<IT>;
         using values_layout = cloning_ptr<array_wrapper>;
 
-        const inner_value_type& dummy_inner_value() const;
+        inner_value_type dummy_inner_value() const;
         //inner_const_reference dummy_inner_const_reference() const;
         const_reference dummy_const_reference() const;
 
@@ -326,10 +326,9 @@ namespace sparrow
     }
 
     template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_value() const -> const inner_value_type&
+    auto dictionary_encoded_array<IT>::dummy_inner_value() const -> inner_value_type
     {
-        static const inner_value_type instance = array_default_element_value(*p_values_layout);
-        return instance;
+        return array_default_element_value(*p_values_layout);
     }
 
     /*template <std::integral IT>
@@ -343,13 +342,14 @@ namespace sparrow
     template <std::integral IT>
     auto dictionary_encoded_array<IT>::dummy_const_reference() const -> const_reference
     {
-        static const const_reference instance =
-            std::visit([](const auto& val) -> const_reference {
-                using inner_ref = typename arrow_traits<std::decay_t<decltype(val)>>::const_reference;
-                return nullable<inner_ref>(inner_ref(val), false);
+        // The type of the values depends on the dictionary, and not on the type of the keys only
+        return std::visit([](const auto& val) -> const_reference {
+                using value_type = std::decay_t<decltype(val)>;
+                using inner_ref = typename arrow_traits<value_type>::const_reference;
+                static const value_type instance = val;
+                return nullable<inner_ref>(inner_ref(instance), false);
             },
             dummy_inner_value());
-        return instance;
     }
 
     template <std::integral IT>
-- 
2.43.0


From b92be59a653141f0973dd1872b6b817f2483a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 11/28] fix: mutation of variable size binary arrays

---
 .../variable_size_binary_array.hpp            | 84 +++++++++++++------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 2e18f15..94b1b84 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -416,25 +416,43 @@ namespace sparrow
         const auto offset_beg = *offset(index);
         const auto offset_end = *offset(index + 1);
         const auto initial_value_length = offset_end - offset_beg;
-        const auto new_value_length = static_cast<OT>(std::ranges::size(rhs));
+        // rhs may be a view on the values of this array, it must be read before they are moved
+        const std::vector<data_value_type> new_value(std::ranges::begin(rhs), std::ranges::end(rhs));
+        const auto new_value_length = static_cast<OT>(new_value.size());
         const OT shift_byte_count = new_value_length - initial_value_length;
-        auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
+        auto& buffers = this->get_arrow_proxy().get_array_private_data()->buffers();
+        auto& data_buffer = buffers[DATA_BUFFER_INDEX];
         if (shift_byte_count != 0)
         {
             const auto shift_val_abs = static_cast<size_type>(std::abs(shift_byte_count));
-            const auto new_data_buffer_size = shift_byte_count < 0 ? data_buffer.size() - shift_val_abs
-                                                                   : data_buffer.size() + shift_val_abs;
-            data_buffer.resize(new_data_buffer_size);
-            // Move elements to make space for the new value
-            std::move_backward(
-                data_buffer.begin() + offset_end,
-                data_buffer.end() - shift_byte_count,
-                data_buffer.end()
-            );
+            if (shift_byte_count < 0)
+            {
+                // Move elements to fill the space left by the old value
+                std::move(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end(),
+                    data_buffer.begin() + offset_end + shift_byte_count
+                );
+                data_buffer.resize(data_buffer.size() - shift_val_abs);
+            }
+            else
+            {
+                data_buffer.resize(data_buffer.size() + shift_val_abs);
+                // Move elements to make space for the new value
+                std::move_backward(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end() - shift_byte_count,
+                    data_buffer.end()
+                );
+            }
             // Adjust offsets for subsequent elements
+            auto offset_buffer_adaptor = make_buffer_adaptor<OT>(buffers[OFFSET_BUFFER_INDEX]);
             std::for_each(
-                offset(index + 1),
-                offset(size() + 1),
+                sparrow::next(
+                    offset_buffer_adaptor.begin(),
+                    static_cast<size_type>(this->get_arrow_proxy().offset()) + index + 1
+                ),
+                offset_buffer_adaptor.end(),
                 [shift_byte_count](auto& offset)
                 {
                     offset += shift_byte_count;
@@ -442,13 +460,21 @@ namespace sparrow
             );
         }
         // Copy the new value into the buffer
-        std::copy(std::ranges::begin(rhs), std::ranges::end(rhs), data_buffer.begin() + offset_beg);
+        std::transform(
+            new_value.cbegin(),
+            new_value.cend(),
+            data_buffer.begin() + offset_beg,
+            [](const data_value_type& v)
+            {
+                return static_cast<std::uint8_t>(v);
+            }
+        );
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offset(size_type i) -> offset_iterator
     {
-        SPARROW_ASSERT_TRUE(i <= size() + this->get_arrow_proxy().offset());
+        SPARROW_ASSERT_TRUE(i <= size() + 1);
         return get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].template data<OT>()
                + static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
     }
@@ -456,7 +482,7 @@ namespace sparrow
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offset(size_type i) const -> const_offset_iterator
     {
-        SPARROW_ASSERT_TRUE(i <= this->size() + this->get_arrow_proxy().offset());
+        SPARROW_ASSERT_TRUE(i <= this->size() + 1);
         return this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].template data<OT>()
                + static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
     }
@@ -566,7 +592,7 @@ namespace sparrow
         auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
         const auto pos_to_insert = sparrow::next(data_buffer.cbegin(), offset_begin);
         data_buffer.insert(pos_to_insert, joined_repeated_value_range.begin(), joined_repeated_value_range.end());
-        insert_offset(offsets_cbegin() + idx + 1, static_cast<offset_type>(value.size()), count);
+        insert_offset(offsets_cbegin() + idx, static_cast<offset_type>(value.size()), count);
         return sparrow::next(value_begin(), idx);
     }
 
@@ -578,7 +604,9 @@ namespace sparrow
     ) -> offset_iterator
     {
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
-        const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
+        // index in the buffer, i.e. including the offset of the array
+        const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos))
+                         + static_cast<size_t>(this->get_arrow_proxy().offset());
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
         const offset_type cumulative_size = value_size * static_cast<offset_type>(count);
         // Adjust offsets for subsequent elements
@@ -596,7 +624,7 @@ namespace sparrow
         {
             offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + value_size;
         }
-        return offsets_begin() + idx;
+        return offset_buffer_adaptor.data() + idx;
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -642,7 +670,7 @@ namespace sparrow
                 return static_cast<offset_type>(value.size());
             }
         );
-        insert_offsets(offset(idx + 1), sizes_of_each_value.begin(), sizes_of_each_value.end());
+        insert_offsets(offset(idx), sizes_of_each_value.begin(), sizes_of_each_value.end());
         return sparrow::next(value_begin(), idx);
     }
 
@@ -659,7 +687,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(first_sizes <= last_sizes);
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
-        const auto idx = std::distance(offsets_cbegin(), pos);
+        // index in the buffer, i.e. including the offset of the array
+        const auto idx = std::distance(offsets_cbegin(), pos)
+                         + static_cast<difference_type>(this->get_arrow_proxy().offset());
         const OT cumulative_sizes = std::reduce(first_sizes, last_sizes, OT(0));
         const auto sizes_count = std::distance(first_sizes, last_sizes);
         offset_buffer_adaptor.resize(offset_buffer_adaptor.size() + static_cast<size_t>(sizes_count));
@@ -685,7 +715,7 @@ namespace sparrow
             offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + *it;
             ++it;
         }
-        return offset(static_cast<size_t>(idx));
+        return offset_buffer_adaptor.data() + idx;
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -727,23 +757,25 @@ namespace sparrow
         const OT offset_start_value = *offset(index);
         const OT offset_end_value = *offset(index + count);
         const OT difference = offset_end_value - offset_start_value;
+        // index in the buffer, i.e. including the offset of the array
+        const size_t buffer_index = index + static_cast<size_t>(this->get_arrow_proxy().offset());
         // move the offsets after the erased ones
         std::move(
-            sparrow::next(offset_buffer_adaptor.begin(), index + count + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + count + 1),
             offset_buffer_adaptor.end(),
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1)
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + 1)
         );
         offset_buffer_adaptor.resize(offset_buffer_adaptor.size() - count);
         // adjust the offsets for the subsequent elements
         std::for_each(
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + 1),
             offset_buffer_adaptor.end(),
             [difference](OT& offset)
             {
                 offset -= difference;
             }
         );
-        return offset(index);
+        return offset_buffer_adaptor.data() + buffer_index;
     }
 
 }
-- 
2.43.0


From 857aa4689c43388a86836422b0d60fb8ec2bdefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 12/28] fix: builder keeps the following elements in place
 after a null with a payload, and builds empty run-end encoded arrays

---
 include/sparrow/builder/builder.hpp       |  6 +++++-
 include/sparrow/builder/builder_utils.hpp | 11 +++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index ff306fa..d52c1da 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -407,7 +407,11 @@ struct builder<T, enforce_run_end_encoded_layout, OPTION_FLAGS>
             }
             ++i;
         }
-        acc_run_lengths.push_back(i);
+        // an empty range does not have any run
+        if(i != 0)
+        {
+            acc_run_lengths.push_back(i);
+        }
     
         auto run_length_typed_array = primitive_array<std::size_t>(acc_run_lengths);
 
diff --git a/include/sparrow/builder/builder_utils.hpp b/include/sparrow/builder/builder_utils.hpp
index 0fd7c58..44bb1c5 100644
--- a/include/sparrow/builder/builder_utils.hpp
+++ b/include/sparrow/builder/builder_utils.hpp
@@ -273,14 +273,9 @@ namespace detail
         using decayed = std::decay_t<T>;
         if constexpr(is_nullable_like<decayed>)
         {
-            if (t.has_value())
-            {
-                return get_size_save(t.get());
-            }
-            else
-            {
-                return 0;
-            }
+            // The values hidden by a null element are flattened like the other
+            // ones, their size must be taken into account.
+            return get_size_save(t.get());
         }
         else if constexpr(is_express_layout_desire<decayed>)
         {
-- 
2.43.0


From 9cc3e3cf7abef5d565bdc1eec5cdad760ec9795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 13/28] fix: record_batch does not empty the ranges given as
 lvalues

---
 include/sparrow/record_batch.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/record_batch.hpp b/include/sparrow/record_batch.hpp
index c6f3e75..172625f 100644
--- a/include/sparrow/record_batch.hpp
+++ b/include/sparrow/record_batch.hpp
@@ -157,8 +157,8 @@ namespace sparrow
         requires(std::convertible_to<std::ranges::range_value_t<NR>, std::string>
                  and std::same_as<std::ranges::range_value_t<CR>, array>)
     record_batch::record_batch(NR&& names, CR&& columns)
-        : m_name_list(to_vector<name_type>(std::move(names)))
-        , m_array_list(to_vector<array>(std::move(columns)))
+        : m_name_list(to_vector<name_type>(std::forward<NR>(names)))
+        , m_array_list(to_vector<array>(std::forward<CR>(columns)))
     {
         init_array_map();
         SPARROW_ASSERT_TRUE(check_consistency());
@@ -172,7 +172,15 @@ namespace sparrow
         {
             v.reserve(std::ranges::size(range));
         }
-        std::ranges::move(range, std::back_inserter(v));
+        // The elements can be moved only if the range owns them and is given away
+        if constexpr (std::is_lvalue_reference_v<R> || std::ranges::view<std::remove_cvref_t<R>>)
+        {
+            std::ranges::copy(range, std::back_inserter(v));
+        }
+        else
+        {
+            std::ranges::move(range, std::back_inserter(v));
+        }
         return v;
     }
 }
-- 
2.43.0


From 8b8a394122f2dbce1857cdb6018285c00e3e710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 14/28] fix: variable size binary view arrays: const access,
 slices, variadic buffer index and sizes

---
 .../variable_size_binary_view_array.hpp       | 20 +++++++++++--------
 src/arrow_interface/arrow_array.cpp           |  2 +-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index a39c201..abc14db 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -137,15 +137,15 @@ namespace sparrow
         {
         }
 
+        inner_reference value(size_type i);
+        inner_const_reference value(size_type i) const;
+
     private:
 
         template<std::ranges::input_range R, validity_bitmap_input VB = validity_bitmap >
         requires std::convertible_to<std::ranges::range_value_t<R>, T>
         static arrow_proxy create_proxy(R&& range, VB&& bitmap_input = validity_bitmap{});
 
-        inner_reference value(size_type i);
-        inner_const_reference value(size_type i) const;
-
         value_iterator value_begin();
         value_iterator value_end();
 
@@ -165,6 +165,9 @@ namespace sparrow
 
         friend base_type;
         friend base_type::base_type;
+        friend base_type::base_type::base_type;
+        friend class detail::layout_value_functor<self_type, inner_value_type>;
+        friend class detail::layout_value_functor<const self_type, inner_value_type>;
 
     };
 
@@ -219,8 +222,8 @@ namespace sparrow
                 auto prefix_sub_range = val_casted | std::ranges::views::take(PREFIX_SIZE);
                 std::ranges::copy(prefix_sub_range, length_ptr + PREFIX_OFFSET);
 
-                // write the buffer index
-                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = static_cast<std::int32_t>(FIRST_VAR_DATA_BUFFER_INDEX);
+                // write the buffer index, i.e. the index among the variadic data buffers
+                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = std::int32_t(0);
 
                 // write the buffer offset
                 *reinterpret_cast<std::int32_t*>(length_ptr + BUFFER_OFFSET_OFFSET) = static_cast<std::int32_t>(long_string_storage_size);
@@ -308,7 +311,8 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(i < this->size());
 
         constexpr std::size_t element_size = 16;
-        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>() + (i * element_size);
+        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>()
+                        + ((i + static_cast<size_type>(this->get_arrow_proxy().offset())) * element_size);
 
         auto length = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr));
         using char_or_byte = typename inner_const_reference::value_type;
@@ -326,7 +330,7 @@ namespace sparrow
             constexpr std::ptrdiff_t buffer_offset_offset = 12;
             auto buffer_index = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_index_offset));
             auto buffer_offset = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_offset_offset));
-            auto buffer = this->get_arrow_proxy().buffers()[buffer_index].template data<const char_or_byte>();
+            auto buffer = this->get_arrow_proxy().buffers()[FIRST_VAR_DATA_BUFFER_INDEX + buffer_index].template data<const char_or_byte>();
             return inner_const_reference(buffer + buffer_offset,  length);
         }
 
@@ -338,7 +342,7 @@ namespace sparrow
     template <class T>
     auto variable_size_binary_view_array_impl<T>::value_begin() -> value_iterator
     {
-        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(), 0);
+        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(this), 0);
     }
 
     template <class T>
diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index d532999..e2521a2 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -187,7 +187,7 @@ namespace sparrow
                 {
                     buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes[i]);
                 }
-                buffers.back() = make_buffer(buffer_count -1 , size * 4);
+                buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
                 return buffers;
         }
         // To avoid stupid warning "control reaches end of non-void function"
-- 
2.43.0


From bcdae3c280bdbff38414f32c422b820a117b1e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 15/28] fix: three-way comparison of a nullable with nullval

---
 include/sparrow/utils/nullable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index 2d90860..d69c5db 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -732,10 +732,10 @@ namespace sparrow
         return !lhs;
     }
 
-    template <class T, class B>
+    template <class T, mpl::boolean_like B>
     constexpr std::strong_ordering operator<=>(const nullable<T, B>& lhs, nullval_t) noexcept
     {
-        return lhs <=> false;
+        return bool(lhs) <=> false;
     }
     
     template <class T, class B, class U>
-- 
2.43.0


From 81ba1ed6a567c3fa7c1a679935b4ca3987bb0338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 16/28] fix: inserting a count or a range into a buffer of a
 non trivial type

---
 include/sparrow/buffer/buffer.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 516d756..3d4d532 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -786,11 +786,12 @@ namespace sparrow
         if (count != 0)
         {
             const T copy(value);  // value may be an element of this buffer
-            reserve_with_growth_factor( size() + count);
+            const difference_type old_size = static_cast<difference_type>(size());
+            reserve_with_growth_factor(size() + count);
+            resize(size() + count, copy);
             const iterator it = std::next(begin(), offset);
-            std::move_backward(it, end(), std::next(end(), static_cast<difference_type>(count)));
+            std::move_backward(it, std::next(begin(), old_size), end());
             std::fill_n(it, count, copy);
-            get_data().p_end += count;
         }
         return std::next(begin(), offset);
     }
@@ -816,6 +817,10 @@ namespace sparrow
         const difference_type num_elements = std::distance(first, last);
         const size_type new_size = size() + static_cast<size_type>(num_elements);
         const difference_type offset = std::distance(cbegin(), pos);
+        if (num_elements == 0)
+        {
+            return std::next(begin(), offset);
+        }
         const size_type old_size = size();
         reserve_with_growth_factor(new_size);
         resize(new_size);
@@ -824,11 +829,11 @@ namespace sparrow
         std::move_backward(new_pos, end_it, end());
         if constexpr (is_move_iterator_v<InputIt>)
         {
-            std::uninitialized_move(first, last, new_pos);
+            std::move(first, last, new_pos);
         }
         else
         {
-            std::uninitialized_copy(first, last, new_pos);
+            std::copy(first, last, new_pos);
         }
         return new_pos;
     }
-- 
2.43.0


From 80697ee17f469d336c32eae378146b0280aa0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 17/28] fix: arrow_proxy reports errors as documented, without
 losing the structures it was given

---
 include/sparrow/arrow_array_schema_proxy.hpp |  9 +++++-
 src/arrow_array_schema_proxy.cpp             | 32 +++++++++++++++-----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 514b375..e959b21 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <optional>
+#include <stdexcept>
 #include <string_view>
 
 #include "sparrow/arrow_interface/arrow_array/private_data.hpp"
@@ -402,6 +403,8 @@ namespace sparrow
 
         [[nodiscard]] SPARROW_API non_owning_dynamic_bitset<uint8_t> get_non_owning_dynamic_bitset();
 
+        SPARROW_API void check_has_bitmap() const;
+
         void update_children();
         void update_dictionary();
         void update_null_count();
@@ -476,7 +479,11 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot modify the bitmap on non-sparrow created ArrowArray");
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
+        check_has_bitmap();
+        if (index > length())
+        {
+            throw std::out_of_range("Cannot insert values in bitmap after its end");
+        }
         auto bitmap = get_non_owning_dynamic_bitset();
         const auto it = bitmap.insert(
             sparrow::next(bitmap.cbegin(), index + offset()),
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index de1ddb1..633a5dd 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -584,6 +584,10 @@ namespace sparrow
     void arrow_proxy::add_child(ArrowArray&& array, ArrowSchema&& schema)
     {
         using value_type = arrow_array_and_schema;
+        if (!is_created_with_sparrow())
+        {
+            throw arrow_proxy_exception("Cannot add child on non-sparrow created ArrowArray or ArrowSchema");
+        }
         add_children(std::ranges::single_view(
             value_type{std::exchange(array, ArrowArray{}), std::exchange(schema, ArrowSchema{})}
         ));
@@ -746,6 +750,14 @@ namespace sparrow
         std::swap(m_dictionary, other.m_dictionary);
     }
 
+    void arrow_proxy::check_has_bitmap() const
+    {
+        if (!has_bitmap(data_type()))
+        {
+            throw arrow_proxy_exception("The format of the array does not support a validity bitmap");
+        }
+    }
+
     [[nodiscard]] non_owning_dynamic_bitset<uint8_t> arrow_proxy::get_non_owning_dynamic_bitset()
     {
         if (!array_created_with_sparrow())
@@ -771,7 +783,7 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot resize bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
+        check_has_bitmap();
         auto bitmap = get_non_owning_dynamic_bitset();
         bitmap.resize(new_size, value);
         update_buffers();
@@ -785,8 +797,11 @@ namespace sparrow
                 "Cannot insert values in bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
-        SPARROW_ASSERT_TRUE(std::cmp_less_equal(index, length()))
+        check_has_bitmap();
+        if (index > length())
+        {
+            throw std::out_of_range("Cannot insert values in bitmap after its end");
+        }
         if (count == 0)
         {
             return index;
@@ -805,8 +820,11 @@ namespace sparrow
                 "Cannot erase values in bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
-        SPARROW_ASSERT_TRUE(std::cmp_less(index, length()))
+        check_has_bitmap();
+        if (index >= length())
+        {
+            throw std::out_of_range("Cannot erase values in bitmap after its end");
+        }
         auto bitmap = get_non_owning_dynamic_bitset();
         const auto it_first = sparrow::next(bitmap.cbegin(), index + offset());
         const auto it_last = sparrow::next(it_first, count);
@@ -823,7 +841,7 @@ namespace sparrow
                 "Cannot push_back value in bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
+        check_has_bitmap();
         insert_bitmap(length(), value);
         update_buffers();
     }
@@ -836,7 +854,7 @@ namespace sparrow
                 "Cannot pop_back value in bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
+        check_has_bitmap();
         erase_bitmap(length() - 1);
         update_buffers();
     }
-- 
2.43.0


From 8641a85d7426194dbdf2cf3f683ef1cdef9d1f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 18/28] fix: build of nullable lists, arrays and strings nested
 in lists

---
 include/sparrow/builder/builder_utils.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/builder/builder_utils.hpp b/include/sparrow/builder/builder_utils.hpp
index 44bb1c5..f9b9cb1 100644
--- a/include/sparrow/builder/builder_utils.hpp
+++ b/include/sparrow/builder/builder_utils.hpp
@@ -305,12 +305,15 @@ namespace detail
     std::vector<std::size_t> where_null(T && t)
     {
         std::vector<std::size_t> result;
-        for (std::size_t i = 0; i < t.size(); ++i)
+        // the nested ranges are joined, they do not provide random access
+        std::size_t i = 0;
+        for (const auto& v : t)
         {
-            if (!t[i].has_value())
+            if (!v.has_value())
             {
                 result.push_back(i);
             }
+            ++i;
         }
         return result;
     }
@@ -323,12 +326,14 @@ namespace detail
     std::vector<std::size_t>  where_null(T && t)
     {
         std::vector<std::size_t> result;
-        for (std::size_t i = 0; i < t.size(); ++i)
+        std::size_t i = 0;
+        for (const auto& v : t)
         {
-            if (!(t[i].get().has_value()))
+            if (!v.get().has_value())
             {
                 result.push_back(i);
             }
+            ++i;
         }
         return result;
     }
-- 
2.43.0


From 55ab5c021b507d96e7f58826c27a6d258f27df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 19/28] fix: build of scalars wrapped in a layout desire within
 tuples and variants

---
 include/sparrow/builder/builder.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index d52c1da..667f50b 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -162,7 +162,15 @@ struct builder<T, dont_enforce_layout, OPTION_FLAGS>
     template<class U>
     static type create(U&& t)
     {
-        return type(std::forward<U>(t));
+        if constexpr(is_express_layout_desire<std::ranges::range_value_t<T>>)
+        {
+            // the scalars (or the nullable scalars) are wrapped
+            return type(t | std::views::transform([](const auto& v) { return v.get(); }));
+        }
+        else
+        {
+            return type(std::forward<U>(t));
+        }
     } 
 };
 
-- 
2.43.0


From d61724ff46ab5512587f40dfd3fd108b7236b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 20/28] fix: dictionary encoding in the builder of values that
 include NaN

---
 include/sparrow/builder/nested_less.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/builder/nested_less.hpp b/include/sparrow/builder/nested_less.hpp
index b3116ce..760d995 100644
--- a/include/sparrow/builder/nested_less.hpp
+++ b/include/sparrow/builder/nested_less.hpp
@@ -17,6 +17,9 @@
 
 #include <vector>
 
+#include <cmath>
+#include <type_traits>
+
 #include <sparrow/builder/builder_utils.hpp>
 #include <sparrow/utils/ranges.hpp>
 namespace sparrow
@@ -37,7 +40,16 @@ namespace sparrow
         {
             bool operator()(const T& a, const T& b) const
             {
-                return a < b;
+                if constexpr(std::is_floating_point_v<T>)
+                {
+                    // NaN is not less than any value, nor is any value less than NaN:
+                    // put it behind all of them, so that it is equivalent to none
+                    return a < b || (!std::isnan(a) && std::isnan(b));
+                }
+                else
+                {
+                    return a < b;
+                }
             }
         };  
 
-- 
2.43.0


From 117e72942e2947a05138d9acec577b66234d81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 21/28] fix: arrays that cannot become children are left as
 they were, nothing is leaked

---
 include/sparrow/array.hpp                      | 13 +++++++++++++
 include/sparrow/array_api.hpp                  | 13 +++++++++++++
 .../layout/struct_layout/struct_array.hpp      |  6 ++++++
 include/sparrow/layout/union_array.hpp         | 18 ++++++++++++++----
 src/run_encoded_array.cpp                      |  4 ++++
 5 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/array.hpp b/include/sparrow/array.hpp
index 1766e5c..2220d2d 100644
--- a/include/sparrow/array.hpp
+++ b/include/sparrow/array.hpp
@@ -90,7 +90,20 @@ namespace sparrow
     template <layout_or_array A>
     std::pair<ArrowArray, ArrowSchema> extract_arrow_structures(A&& a)
     {
+        detail::check_extractable(a);
         arrow_proxy& proxy = detail::array_access::get_arrow_proxy(a);
         return std::make_pair(proxy.extract_array(), proxy.extract_schema());
     }
+
+    namespace detail
+    {
+        template <layout_or_array A>
+        void check_extractable(const A& a)
+        {
+            if (!owns_arrow_array(a) || !owns_arrow_schema(a))
+            {
+                throw std::runtime_error("cannot extract an ArrowArray or an ArrowSchema not owned by the structure");
+            }
+        }
+    }
 }
diff --git a/include/sparrow/array_api.hpp b/include/sparrow/array_api.hpp
index bbad177..0a7e37d 100644
--- a/include/sparrow/array_api.hpp
+++ b/include/sparrow/array_api.hpp
@@ -308,4 +308,17 @@ namespace sparrow
      */
     template <layout_or_array A>
     std::pair<ArrowArray, ArrowSchema> extract_arrow_structures(A&& a);
+
+    namespace detail
+    {
+        /**
+         * Checks that both internal structures of the given array or typed
+         * layout can be extracted.
+         *
+         * @exception std::runtime_error If \p a does not own its internal
+         * ArrowArray and ArrowSchema.
+         */
+        template <layout_or_array A>
+        void check_extractable(const A& a);
+    }
 }
diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 618d0d9..3a5c223 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -149,6 +149,12 @@ namespace sparrow
         VB && validity_input
     ) -> arrow_proxy
     {
+        // nothing is extracted unless everything can be
+        for (const auto& child : children)
+        {
+            detail::check_extractable(child);
+        }
+
         const auto n_children = children.size();
         ArrowSchema** child_schemas = new ArrowSchema*[n_children];
         ArrowArray** child_arrays = new ArrowArray*[n_children];
diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index acf0a1c..cc326cf 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -437,6 +437,13 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
+        // nothing is extracted unless the mapping is valid and everything can be
+        std::string format = make_format_string(true /*dense union*/, n_children, child_index_to_type_id);
+        for (const auto& child : children)
+        {
+            detail::check_extractable(child);
+        }
+
         ArrowSchema** child_schemas = new ArrowSchema*[n_children];
         ArrowArray** child_arrays = new ArrowArray*[n_children];
         const auto size = element_type.size();
@@ -467,8 +474,6 @@ namespace sparrow
             child_schemas[i] = new ArrowSchema(std::move(flat_schema));
         }
 
-        std::string format = make_format_string(true /*dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
-        
         ArrowSchema schema = make_arrow_schema(
             format,
             std::nullopt, // name
@@ -525,6 +530,13 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
+        // nothing is extracted unless the mapping is valid and everything can be
+        std::string format = make_format_string(false /*is dense union*/, n_children, child_index_to_type_id);
+        for (const auto& child : children)
+        {
+            detail::check_extractable(child);
+        }
+
         ArrowSchema** child_schemas = new ArrowSchema*[n_children];
         ArrowArray** child_arrays = new ArrowArray*[n_children];
         const auto size = element_type.size();
@@ -554,8 +566,6 @@ namespace sparrow
             child_schemas[i] = new ArrowSchema(std::move(flat_schema));
         }
 
-        std::string format = make_format_string(false /*is dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
-
         ArrowSchema schema = make_arrow_schema(
             format,
             std::nullopt, // name
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index ef57752..f4f6000 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -98,6 +98,10 @@ namespace sparrow
     {   
         auto [null_count, length] = extract_length_and_null_count(acc_lengths, encoded_values);
 
+        // nothing is extracted unless everything can be
+        detail::check_extractable(acc_lengths);
+        detail::check_extractable(encoded_values);
+
         auto [acc_length_array, acc_length_schema] = extract_arrow_structures(std::move(acc_lengths));
         auto [encoded_values_array, encoded_values_schema] = extract_arrow_structures(std::move(encoded_values));
 
-- 
2.43.0


From edc858fd6ac86726a77493c7337922a669662193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 22/28] fix: inserting more copies into a buffer than it can
 hold

---
 include/sparrow/buffer/buffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 3d4d532..3bff007 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -783,6 +783,10 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
 
         const difference_type offset = std::distance(cbegin(), pos);
+        if (count > max_size() - size())
+        {
+            throw std::length_error("cannot insert more elements than max_size() allows");
+        }
         if (count != 0)
         {
             const T copy(value);  // value may be an element of this buffer
-- 
2.43.0


From 39d105aeaf309279756e801b7ada22e74419ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 23/28] fix: mutating an array made by the library whose schema
 comes from another producer

---
 src/arrow_array_schema_proxy.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 633a5dd..d618864 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -37,7 +37,7 @@ namespace sparrow
 
     void arrow_proxy::update_buffers()
     {
-        if (is_created_with_sparrow())
+        if (array_created_with_sparrow())
         {
             get_array_private_data()->update_buffers_ptrs();
             array().buffers = get_array_private_data()->buffers_ptrs<void>();
@@ -767,7 +767,6 @@ namespace sparrow
             );
         }
 
-        SPARROW_ASSERT_TRUE(is_created_with_sparrow())
         SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         auto private_data = static_cast<arrow_array_private_data*>(array().private_data);
         auto& bitmap_buffer = private_data->buffers()[bitmap_buffer_index];
-- 
2.43.0


From d1c89722a2d9b474197effdc64ff84cec8cc6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 24/28] fix: do not give null pointers to the deallocate of
 allocators

An empty or moved-from buffer has no storage; allocators such as
std::pmr::polymorphic_allocator only accept what they returned.
---
 include/sparrow/buffer/buffer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 3bff007..962b72c 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -390,7 +390,11 @@ namespace sparrow
     template <class T>
     constexpr void buffer_base<T>::deallocate(pointer p, size_type n)
     {
-        alloc_traits::deallocate(m_alloc, p, n);
+        // p is null when there is no storage, which allocators do not accept
+        if (p != nullptr)
+        {
+            alloc_traits::deallocate(m_alloc, p, n);
+        }
     }
 
     template <class T>
-- 
2.43.0


From a5f5593a3d42fd2e2ddb8ccb5201d30503cff27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 25/28] fix: leave allocators usable when they are moved from

A moved-from buffer with a type-erased allocator had no allocator any
more; assigning to it dereferenced a null pointer.
---
 include/sparrow/buffer/allocator.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/allocator.hpp b/include/sparrow/buffer/allocator.hpp
index a0dc13a..dbfa891 100644
--- a/include/sparrow/buffer/allocator.hpp
+++ b/include/sparrow/buffer/allocator.hpp
@@ -70,7 +70,7 @@ namespace sparrow
 
         any_allocator();
         any_allocator(const any_allocator& rhs);
-        any_allocator(any_allocator&&) = default;
+        any_allocator(any_allocator&& rhs) noexcept;
 
         any_allocator& operator=(const any_allocator& rhs) = delete;
         any_allocator& operator=(any_allocator&& rhs) = delete;
@@ -207,6 +207,14 @@ namespace sparrow
     {
     }
 
+    // Moving an allocator leaves it unchanged: the container that
+    // holds it has to remain usable.
+    template <class T>
+    any_allocator<T>::any_allocator(any_allocator&& rhs) noexcept
+        : m_storage(copy_storage(rhs.m_storage))
+    {
+    }
+
     template <class T>
     [[nodiscard]] T* any_allocator<T>::allocate(std::size_t n)
     {
-- 
2.43.0


From fd4c6abbfbab369b1265e0384a1879173761bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 26/28] fix: include what comparing string references needs

---
 .../variable_size_binary_reference.hpp                           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
index 6ca1914..b28d8ff 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
@@ -18,6 +18,7 @@
 #include <ranges>
 #include <type_traits>
 
+#include "sparrow/utils/algorithm.hpp"
 #include "sparrow/utils/mp_utils.hpp"
 
 namespace sparrow
-- 
2.43.0


From 1a60aab9cd43e72aac741169927694539d1f0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 27/28] fix: size of a default constructed array

---
 src/array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 2b08f14..f4e6a0f 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -54,7 +54,8 @@ namespace sparrow
 
     array::size_type array::size() const
     {
-        return array_size(*p_array);
+        // a default constructed array is empty
+        return p_array ? array_size(*p_array) : size_type(0);
     }
 
     array::const_reference array::at(size_type index) const
-- 
2.43.0


From daa951d1b23e83a0b4cf304f560147376c0123e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 28/28] fix: the factories of C arrays count only the nulls
 that belong to the array

---
 .../arrow_array_schema_factory.hpp            | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_factory.hpp b/include/sparrow/arrow_interface/arrow_array_schema_factory.hpp
index b4822ec..f157899 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_factory.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_factory.hpp
@@ -70,14 +70,27 @@ namespace sparrow
         return bitmap.buffer();
     };
 
+    /// Number of nulls among the elements [offset, count): those before the offset do not belong to the array.
+    inline int64_t count_nulls(buffer<uint8_t>& bitmap, size_t count, int64_t offset)
+    {
+        const dynamic_bitset_view<uint8_t> view(bitmap.data(), count);
+        int64_t null_count = 0;
+        for (size_t i = static_cast<size_t>(offset); i < count; ++i)
+        {
+            null_count += view.test(i) ? 0 : 1;
+        }
+        return null_count;
+    }
+
     template <layout_offset offset_type, std::ranges::sized_range Values, std::ranges::sized_range Nulls>
         requires std::integral<std::ranges::range_value_t<Nulls>>
     constexpr ArrowArray make_variable_size_binary_arrow_array(Values&& range, Nulls&& nulls, int64_t offset)
     {
         const auto length = static_cast<int64_t>(std::ranges::size(range)) - offset;
-        const auto null_count = static_cast<int64_t>(std::ranges::size(nulls));
+        auto bitmap = make_bitmap_buffer(std::ranges::size(range), std::move(nulls));
+        const auto null_count = count_nulls(bitmap, std::ranges::size(range), offset);
         std::vector<buffer<uint8_t>> value_buffers{
-            make_bitmap_buffer(std::ranges::size(range), std::move(nulls)),
+            std::move(bitmap),
             range_to_buffer(make_offset_buffer<offset_type>(range)),
             strings_to_buffer(std::move(range))
         };
@@ -90,9 +103,10 @@ namespace sparrow
     constexpr ArrowArray make_primitive_arrow_array(Values&& range, Nulls&& nulls, int64_t offset)
     {
         const int64_t length = static_cast<int64_t>(std::ranges::size(range)) - offset;
-        const auto null_count = static_cast<int64_t>(std::ranges::size(nulls));
+        auto bitmap = make_bitmap_buffer(std::ranges::size(range), std::move(nulls));
+        const auto null_count = count_nulls(bitmap, std::ranges::size(range), offset);
         std::vector<buffer<uint8_t>> value_buffers{
-            make_bitmap_buffer(std::ranges::size(range), std::move(nulls)),
+            std::move(bitmap),
             range_to_buffer(std::move(range))
         };
         return make_arrow_array(length, null_count, offset, std::move(value_buffers), 0, nullptr, nullptr);
-- 
2.43.0

