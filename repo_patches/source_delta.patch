From 052a22755ccbb51a3dce14c110d9e2cd01c016b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 01/72] fix: small_vector copy constructor and get_allocator()
 did not compile

---
 include/papilio/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 80079e0..93f9ab1 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -568,6 +568,11 @@ private:
         return m_data.second();
     }
 
+    const allocator_type& get_alloc() const noexcept
+    {
+        return m_data.second();
+    }
+
     void set_ptrs(pointer p_begin, size_type capacity_offset) noexcept
     {
         m_p_begin = p_begin;
-- 
2.43.0


From 7f3ac6cb8729d70a26d7e1059b5a8502bd1d64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 02/72] fix: small_vector swap(a, b) did not compile
 (self-referential noexcept)

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 93f9ab1..7f3f03b 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -537,7 +537,7 @@ public:
             swap(get_alloc(), other.get_alloc());
     }
 
-    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(std::is_nothrow_swappable_v<small_vector>)
+    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From 5c3df898fcb7ff2041f765f97a696ef50001cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 03/72] fix: small_vector::append_range overflowed the buffer
 of a non-empty vector

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 7f3f03b..9cde016 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -858,7 +858,7 @@ private:
             Iterator>;
         if constexpr(sized)
         {
-            reserve(static_cast<size_type>(last - first));
+            reserve(this->size() + static_cast<size_type>(last - first));
             for(auto it = first; it != last; ++it)
             {
                 emplace_back_impl(*it);
-- 
2.43.0


From 5ad99b3466477bc344ac926a3d1830cd7895906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 04/72] fix: small_vector used freed or overwritten memory when
 inserting one of its own elements

---
 include/papilio/container.hpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 9cde016..df85644 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -441,8 +441,11 @@ public:
     {
         if(m_p_end == m_p_capacity)
         {
+            // The arguments may refer to an element of this container
+            value_type tmp(std::forward<Args>(args)...);
             size_type current = this->size();
             reserve(this->get_mem_size(current, current + 1));
+            return emplace_back_impl(std::move(tmp));
         }
         return emplace_back_impl(std::forward<Args>(args)...);
     }
@@ -496,9 +499,19 @@ public:
         }
         else if(count > this->size())
         {
-            reserve(count);
-            while(this->size() != count)
-                emplace_back_impl(val);
+            if(count > this->capacity())
+            {
+                // The value may be an element of this container
+                value_type tmp(val);
+                reserve(count);
+                while(this->size() != count)
+                    emplace_back_impl(tmp);
+            }
+            else
+            {
+                while(this->size() != count)
+                    emplace_back_impl(val);
+            }
         }
     }
 
@@ -631,14 +644,16 @@ private:
     template <typename... Args>
     iterator emplace_impl(size_type off, Args&&... args)
     {
-        reserve(this->size() + 1);
-
         if(off == this->size())
         {
-            emplace_back_impl(std::forward<Args>(args)...);
+            emplace_back(std::forward<Args>(args)...);
             return std::prev(this->end());
         }
 
+        // The arguments may refer to an element of this container
+        value_type tmp(std::forward<Args>(args)...);
+
+        reserve(this->size() + 1);
         emplace_back_impl(std::move(this->back()));
 
         auto move_dst = std::prev(this->end());
@@ -646,7 +661,7 @@ private:
         auto move_src_begin = this->begin() + off;
         std::move_backward(move_src_begin, move_src_end, move_dst);
 
-        *move_src_begin = value_type(std::forward<Args>(args)...);
+        *move_src_begin = std::move(tmp);
 
         return this->begin() + static_cast<difference_type>(off);
     }
-- 
2.43.0


From 78cd9b6121e4ebc3338f59790ebd5bc6cf9df661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 05/72] fix: small_vector move constructor leaked elements when
 moving one of them threw

---
 include/papilio/container.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index df85644..75305db 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -305,12 +305,7 @@ public:
 
     small_vector(small_vector&& other) noexcept(std::is_nothrow_move_constructible_v<value_type>)
         requires std::is_nothrow_move_constructible_v<Allocator>
-        : my_base(),
-          m_data(
-              std::piecewise_construct,
-              std::forward_as_tuple(),
-              std::forward_as_tuple(std::move(other.get_alloc()))
-          )
+        : small_vector(static_cast<const Allocator&>(other.get_alloc()))
     {
         if(other.dynamic_allocated())
         {
@@ -321,8 +316,6 @@ public:
         }
         else [[likely]]
         {
-            set_ptrs(getbuf(), static_capacity());
-
             PAPILIO_ASSERT(other.size() <= this->capacity());
             for(auto&& i : other)
             {
-- 
2.43.0


From 2c28af2f0bb4e97fbf27d50764305d987e0b6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 06/72] fix: small_vector leaked its heap elements when moving
 one threw in shrink_to_fit or swap

---
 include/papilio/container.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 75305db..aace85a 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -709,16 +709,14 @@ private:
         try
         {
             std::uninitialized_move_n(tmp_ptr, tmp_size, m_p_begin);
-            std::destroy_n(tmp_ptr, tmp_size);
         }
         catch(...)
         {
-            std::allocator_traits<Allocator>::deallocate(
-                get_alloc(), tmp_ptr, tmp_capacity
-            );
+            set_ptrs(tmp_ptr, tmp_size, tmp_capacity);
             throw;
         }
 
+        std::destroy_n(tmp_ptr, tmp_size);
         std::allocator_traits<Allocator>::deallocate(
             get_alloc(), tmp_ptr, tmp_capacity
         );
@@ -806,11 +804,20 @@ private:
         pointer tmp_p_capacity = other.m_p_capacity;
         other.set_ptrs(other.getbuf(), static_capacity());
 
-        for(size_type i = 0; i < this->size(); ++i)
+        try
         {
-            other.emplace_back_impl(
-                std::move(*(m_p_begin + i))
-            );
+            for(size_type i = 0; i < this->size(); ++i)
+            {
+                other.emplace_back_impl(
+                    std::move(*(m_p_begin + i))
+                );
+            }
+        }
+        catch(...)
+        {
+            other.clear();
+            other.set_ptrs(tmp_p_begin, tmp_p_end, tmp_p_capacity);
+            throw;
         }
         destroy_all();
 
-- 
2.43.0


From 825068cf32d814e91b00edfcf0cd405d282267d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 07/72] fix: small_vector move assignment returned memory to
 the wrong allocator

---
 include/papilio/container.hpp | 57 ++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index aace85a..af9aca0 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -353,9 +353,28 @@ public:
         return *this;
     }
 
-    small_vector& operator=(small_vector&& rhs) noexcept(std::is_nothrow_move_constructible_v<small_vector>)
+    small_vector& operator=(small_vector&& rhs) noexcept(
+        std::is_nothrow_move_constructible_v<small_vector> &&
+        (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || std::allocator_traits<Allocator>::is_always_equal::value)
+    )
     {
-        small_vector(std::move(rhs)).swap(*this);
+        using std::swap;
+        using traits = std::allocator_traits<Allocator>;
+
+        if constexpr(!traits::propagate_on_container_move_assignment::value && !traits::is_always_equal::value)
+        {
+            // Memory of another allocator cannot be taken over
+            if(this != &rhs && get_alloc() != rhs.get_alloc())
+            {
+                assign(std::make_move_iterator(rhs.begin()), std::make_move_iterator(rhs.end()));
+                return *this;
+            }
+        }
+
+        small_vector tmp(std::move(rhs));
+        tmp.swap_storage(*this);
+        if constexpr(traits::propagate_on_container_move_assignment::value)
+            swap(tmp.get_alloc(), get_alloc());
 
         return *this;
     }
@@ -520,6 +539,27 @@ public:
     {
         using std::swap;
 
+        swap_storage(other);
+
+        if constexpr(std::allocator_traits<Allocator>::propagate_on_container_swap::value)
+            swap(get_alloc(), other.get_alloc());
+    }
+
+    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
+    {
+        lhs.swap(rhs);
+    }
+
+private:
+    using my_base::m_p_begin;
+    using my_base::m_p_capacity;
+    using my_base::m_p_end;
+
+    // swap elements without swapping the allocators
+    void swap_storage(small_vector& other) noexcept(
+        std::is_nothrow_swappable_v<T> && std::is_nothrow_move_constructible_v<T>
+    )
+    {
         if(dynamic_allocated() && other.dynamic_allocated())
         {
             // both are dynamic allocated
@@ -538,21 +578,8 @@ public:
             // both are using static storage
             swap_static(other);
         }
-
-        if constexpr(std::allocator_traits<Allocator>::propagate_on_container_swap::value)
-            swap(get_alloc(), other.get_alloc());
     }
 
-    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
-    {
-        lhs.swap(rhs);
-    }
-
-private:
-    using my_base::m_p_begin;
-    using my_base::m_p_capacity;
-    using my_base::m_p_end;
-
     compressed_pair<
         static_storage<sizeof(value_type) * StaticCapacity, alignof(value_type)>,
         allocator_type>
-- 
2.43.0


From e191a9d0fecda08fbf93636eafe596a2cab31245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 08/72] fix: fixed_vector constructors leaked elements when
 constructing one threw

---
 include/papilio/container.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index af9aca0..106f621 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -954,6 +954,7 @@ public:
         : m_size(0) {}
 
     fixed_vector(const fixed_vector& other) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -962,6 +963,7 @@ public:
     }
 
     fixed_vector(fixed_vector&& other) noexcept(std::is_nothrow_move_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -970,6 +972,7 @@ public:
     }
 
     fixed_vector(size_type count, const T& value)
+        : fixed_vector()
     {
         for(size_type i = 0; i < count; ++i)
         {
-- 
2.43.0


From 849733fa5e2677cfd8bfdc9b33935f512ed6d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 09/72] fix: fixed_vector::emplace read overwritten elements
 when inserting one of its own

---
 include/papilio/container.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 106f621..da7d294 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1126,6 +1126,9 @@ public:
             throw_length_error();
         }
 
+        // The arguments may refer to an element of this container
+        value_type tmp(std::forward<Args>(args)...);
+
         emplace_back(std::move(back()));
         if(size() > 2)
         {
@@ -1136,7 +1139,7 @@ public:
         }
 
         iterator nonconst_pos = const_cast<iterator>(pos);
-        *nonconst_pos = std::move(value_type(std::forward<Args>(args)...));
+        *nonconst_pos = std::move(tmp);
 
         return nonconst_pos;
     }
-- 
2.43.0


From 748857bb11e9a579457b264be1076842933eb294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 10/72] fix: fixed_flat_map lookup of a key above all keys read
 past the last element

---
 include/papilio/container.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index da7d294..fd31107 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1431,28 +1431,28 @@ public:
     iterator find(const Key& k)
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     iterator find(const K& k) requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
     const_iterator find(const Key& k) const
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     const_iterator find(const K& k) const requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
-- 
2.43.0


From 40592e78456324567f115f03e528d7740cbdf28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 11/72] fix: fixed_flat_map::try_emplace compiled for exactly
 one argument only

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index fd31107..f9ed8bd 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1418,7 +1418,7 @@ public:
             pos,
             std::piecewise_construct,
             std::forward_as_tuple(k),
-            std::forward_as_tuple(std::forward<Args>(args))...
+            std::forward_as_tuple(std::forward<Args>(args)...)
         );
         return std::make_pair(
             pos, true
-- 
2.43.0


From c72681e7d987c76a14796bc94355b1fb75459837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 12/72] fix: optional_unique_ptr assignment did not compile

---
 include/papilio/memory.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9d9bea8..b84af6d 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -205,7 +205,18 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != std::addressof(other))
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != std::addressof(other))
+        {
+            const bool ownership = other.has_ownership();
+            reset(other.release(), ownership);
+        }
         return *this;
     }
 
@@ -379,7 +390,18 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != std::addressof(other))
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != std::addressof(other))
+        {
+            const bool ownership = other.has_ownership();
+            reset(other.release(), ownership);
+        }
         return *this;
     }
 
-- 
2.43.0


From 82825ea72c879f5823bc86578c7626544db2d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 13/72] fix: optional_unique_ptr lost the deleter when
 ownership was moved into it

---
 include/papilio/memory.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index b84af6d..0ea202d 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -178,7 +178,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
@@ -195,7 +195,9 @@ public:
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
+        if constexpr(std::is_assignable_v<Deleter&, D&&>)
+            m_del = std::forward<D>(ptr.get_deleter());
     }
 
     ~optional_unique_ptr()
@@ -216,6 +218,7 @@ public:
         {
             const bool ownership = other.has_ownership();
             reset(other.release(), ownership);
+            m_del = std::move(other.m_del);
         }
         return *this;
     }
@@ -261,6 +264,8 @@ public:
         {
             m_ptr = ptr.release();
             m_has_ownership = true;
+            if constexpr(std::is_assignable_v<Deleter&, D&&>)
+                m_del = std::forward<D>(ptr.get_deleter());
         }
     }
 
@@ -291,6 +296,7 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
@@ -367,7 +373,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     template <typename U>
@@ -401,6 +407,7 @@ public:
         {
             const bool ownership = other.has_ownership();
             reset(other.release(), ownership);
+            m_del = std::move(other.m_del);
         }
         return *this;
     }
@@ -441,6 +448,8 @@ public:
         {
             m_ptr = ptr.release();
             m_has_ownership = true;
+            if constexpr(std::is_assignable_v<Deleter&, D&&>)
+                m_del = std::forward<D>(ptr.get_deleter());
         }
     }
 
@@ -471,6 +480,7 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
-- 
2.43.0


From 469a89b69b4a446813fe58b4c82c4c95d6e14cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 14/72] fix: optional_unique_ptr of array could not take over a
 unique_ptr of array

---
 include/papilio/memory.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 0ea202d..fb06586 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -367,8 +367,8 @@ public:
           m_has_ownership(false) {}
 
     template <typename D>
-    optional_unique_ptr(const optional_unique_ptr<T, D>& other)
-        : m_ptr(other.m_ptr), m_del(), m_has_ownership(false)
+    optional_unique_ptr(const optional_unique_ptr<T[], D>& other)
+        : m_ptr(other.get()), m_del(), m_has_ownership(false)
     {}
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
@@ -383,10 +383,12 @@ public:
     {}
 
     template <typename D>
-    optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
+    optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = !m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
+        if constexpr(std::is_assignable_v<Deleter&, D&&>)
+            m_del = std::forward<D>(ptr.get_deleter());
     }
 
     ~optional_unique_ptr()
@@ -441,7 +443,7 @@ public:
     }
 
     template <typename D>
-    void reset(std::unique_ptr<T, D>&& ptr) noexcept
+    void reset(std::unique_ptr<T[], D>&& ptr) noexcept
     {
         reset(nullptr);
         if(ptr)
@@ -476,7 +478,7 @@ public:
     }
 
     template <typename D>
-    void swap(optional_unique_ptr<T, D>& other) noexcept
+    void swap(optional_unique_ptr<T[], D>& other) noexcept
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
-- 
2.43.0


From cee92a3da63778991fe94d68888bb9b90bd1639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 15/72] fix: optional_unique_ptr could not observe a pointer
 with another deleter

---
 include/papilio/memory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index fb06586..c03b156 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -172,7 +172,7 @@ public:
 
     template <typename D>
     optional_unique_ptr(const optional_unique_ptr<T, D>& other)
-        : m_ptr(other.m_ptr),
+        : m_ptr(other.get()),
           m_has_ownership(false)
     {}
 
-- 
2.43.0


From c2e4c67d783494fb97a7a0be45d758594dd96037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 16/72] fix: optional_unique_ptr constructed from a null
 pointer claimed to own it

---
 include/papilio/memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index c03b156..ac57692 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -184,12 +184,12 @@ public:
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::move(ptr)),
           m_del(),
-          m_has_ownership(ownership) {}
+          m_has_ownership(ownership && static_cast<bool>(m_ptr)) {}
 
     optional_unique_ptr(independent_t, pointer ptr) noexcept
         : m_ptr(std::move(ptr)),
           m_del(),
-          m_has_ownership(true) {}
+          m_has_ownership(static_cast<bool>(m_ptr)) {}
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
@@ -379,7 +379,7 @@ public:
     template <typename U>
     requires detail::optional_arr_ptr_acceptable<U, pointer, element_type>
     optional_unique_ptr(U ptr, bool ownership) noexcept
-        : m_ptr(ptr), m_del(), m_has_ownership(ownership)
+        : m_ptr(ptr), m_del(), m_has_ownership(ownership && static_cast<bool>(m_ptr))
     {}
 
     template <typename D>
-- 
2.43.0


From 61d70814a9d4b4d538b3c79c9c5a0d842c92ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 17/72] fix: UTF scanning and decoding of ill-formed text left
 the text or stopped the program

byte_count() of an invalid byte, iteration over truncated sequences and
unpaired surrogates, bounded strlen() and index_offset() read past the end,
invoked undefined behaviour or terminated. U+D7FF and U+E000 were taken for
surrogates, strlen() of a UTF-16 view ignored its policy, strlen() of bounded
UTF-32 had no return value, and code points kept uninitialised bytes.
---
 include/papilio/utf/codepoint.hpp |  62 +++----
 include/papilio/utf/codepoint.inl |  22 +--
 include/papilio/utf/stralgo.hpp   | 272 +++++++++++-------------------
 3 files changed, 129 insertions(+), 227 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 94889f8..9740ae1 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -172,6 +172,7 @@ public:
     constexpr codepoint& assign(value_type b0) noexcept
     {
         m_data[0] = b0;
+        m_data[1] = m_data[2] = m_data[3] = 0;
 
         return *this;
     }
@@ -180,6 +181,7 @@ public:
     {
         m_data[0] = b0;
         m_data[1] = b1;
+        m_data[2] = m_data[3] = 0;
 
         return *this;
     }
@@ -189,6 +191,7 @@ public:
         m_data[0] = b0;
         m_data[1] = b1;
         m_data[2] = b2;
+        m_data[3] = 0;
 
         return *this;
     }
@@ -225,6 +228,8 @@ public:
         PAPILIO_ASSERT(len <= 4);
         for(std::uint8_t i = 0; i < len; ++i)
             m_data[i] = ptr[i];
+        for(std::uint8_t i = len; i < 4; ++i)
+            m_data[i] = 0;
 
         return *this;
     }
@@ -239,6 +244,8 @@ public:
         PAPILIO_ASSERT(len <= 4);
         for(std::uint8_t i = 0; i < len; ++i)
             m_data[i] = static_cast<char8_t>(ptr[i]);
+        for(std::uint8_t i = len; i < 4; ++i)
+            m_data[i] = 0;
 
         return *this;
     }
@@ -247,7 +254,7 @@ public:
 
     constexpr void clear() noexcept
     {
-        m_data[0] = 0;
+        m_data[0] = m_data[1] = m_data[2] = m_data[3] = 0;
     }
 
     [[nodiscard]]
@@ -433,7 +440,7 @@ public:
         {
             str.replace(pos, count, std::basic_string_view<CharT>(*this));
         }
-        else if(char16_like<CharT>)
+        else if constexpr(char16_like<CharT>)
         {
             auto result = decoder<CharT>::from_codepoint(*this);
             str.replace(pos, count, result.get());
@@ -505,11 +512,7 @@ namespace detail
             if(next_offset < m_str.size())
             {
                 m_offset = next_offset;
-                char8_t ch = static_cast<char8_t>(m_str[next_offset]);
-                if(is_leading_byte(ch))
-                    m_len = byte_count(ch);
-                else
-                    m_len = 1;
+                m_len = detail::cp_unit_len(m_str.data(), m_offset, m_str.size());
             }
             else
             {
@@ -521,31 +524,8 @@ namespace detail
         constexpr void prev_pos() noexcept
         {
             PAPILIO_ASSERT(m_offset != 0);
-            --m_offset;
-            size_type next_offset = m_offset;
-            while(true)
-            {
-                char8_t ch = static_cast<char8_t>(m_str[next_offset]);
-
-                if(m_offset - next_offset > 3) [[unlikely]]
-                {
-                    m_len = 1;
-                    break;
-                }
-                else if(PAPILIO_NS utf::is_leading_byte(ch))
-                {
-                    m_offset = next_offset;
-                    m_len = PAPILIO_NS utf::byte_count(ch);
-                    break;
-                }
-                else if(next_offset == 0)
-                {
-                    m_len = 1;
-                    break;
-                }
-
-                --next_offset;
-            }
+            m_len = detail::cp_unit_len_before(m_str.data(), m_offset);
+            m_offset -= m_len;
         }
 
         constexpr bool to_bool() const noexcept
@@ -600,11 +580,7 @@ namespace detail
             if(next_offset < m_str.size())
             {
                 m_offset = next_offset;
-                std::uint16_t ch = m_str[next_offset];
-                if(PAPILIO_NS utf::is_high_surrogate(ch))
-                    m_len = 2;
-                else
-                    m_len = 1;
+                m_len = detail::cp_unit_len(m_str.data(), m_offset, m_str.size());
             }
             else
             {
@@ -616,11 +592,8 @@ namespace detail
         constexpr void prev_pos() noexcept
         {
             PAPILIO_ASSERT(m_offset != 0);
-            --m_offset;
-            while(PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
-                --m_offset;
-
-            m_len = utf::is_high_surrogate(m_str[m_offset]) ? 2 : 1;
+            m_len = detail::cp_unit_len_before(m_str.data(), m_offset);
+            m_offset -= m_len;
         }
 
         constexpr bool to_bool() const noexcept
@@ -755,6 +728,11 @@ public:
 
         constexpr operator codepoint() const noexcept
         {
+            if constexpr(char16_like<CharT>)
+            {
+                if(m_len == 1) // An unpaired surrogate stands for itself
+                    return decoder<char32_t>::to_codepoint(static_cast<char32_t>(static_cast<std::uint16_t>(*m_ptr))).first;
+            }
             return decoder<CharT>::to_codepoint(std::basic_string_view<CharT>(m_ptr, m_len)).first;
         }
 
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 142cbee..b66d265 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -63,7 +63,7 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char32_t>::from_codepoint(co
     // ASCII (single byte)
     if(bytes[0] <= 0b0111'1111)
     {
-        return std::make_pair(static_cast<char32_t>(cp.data()[0]), std::uint8_t(1));
+        return std::make_pair(static_cast<char32_t>(bytes[0]), std::uint8_t(1));
     }
     // 2 bytes
     else if(0b1100'0000 <= bytes[0] && bytes[0] <= 0b1101'1111)
@@ -99,7 +99,7 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char32_t>::from_codepoint(co
         result <<= 6;
         result |= bytes[3] & 0b0011'1111;
 
-        return std::make_pair(result, std::uint8_t(3));
+        return std::make_pair(result, std::uint8_t(4));
     }
 
     return std::make_pair(U'\0', std::uint8_t(0));
@@ -114,7 +114,7 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char8_t>::to_codepoint(std:
 {
     if(ch.empty()) [[unlikely]]
         return std::make_pair(codepoint(), std::uint8_t(0));
-    std::uint8_t len = size_bytes(ch[0]);
+    std::uint8_t len = detail::cp_unit_len(ch.data(), 0, ch.size());
     return std::make_pair(codepoint(ch.data(), len), len);
 }
 
@@ -158,7 +158,9 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char16_t>::to_codepoint(std
 
 constexpr std::pair<codepoint, std::uint8_t> decoder<char16_t>::to_codepoint(char16_t first, char16_t second)
 {
-    return decoder<char32_t>::to_codepoint(to_char32_t(first, second).first);
+    char16_t tmp[2] = {first, second};
+
+    return to_codepoint(std::u16string_view(tmp, 2));
 }
 
 constexpr auto decoder<char16_t>::from_codepoint(codepoint cp) -> from_codepoint_result
@@ -200,19 +202,11 @@ constexpr codepoint_iterator<CharU> codepoint_begin(std::basic_string_view<CharU
 
     if constexpr(char8_like<CharU>)
     {
-        std::uint8_t ch = static_cast<std::uint8_t>(str[0]);
-        std::uint8_t ch_size = PAPILIO_NS utf::is_leading_byte(ch) ?
-                                   PAPILIO_NS utf::byte_count(ch) :
-                                   1;
-        return result_t(str, 0, ch_size);
+        return result_t(str, 0, detail::cp_unit_len(str.data(), 0, str.size()));
     }
     else if constexpr(char16_like<CharU>)
     {
-        std::uint16_t ch = str[0];
-        std::uint8_t ch_size = PAPILIO_NS utf::is_high_surrogate(ch) ?
-                                   2 :
-                                   1;
-        return result_t(str, 0, ch_size);
+        return result_t(str, 0, detail::cp_unit_len(str.data(), 0, str.size()));
     }
     else // char32_like
     {
diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f5adb4c..9e076aa 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -69,8 +69,6 @@ constexpr inline bool is_trailing_byte(std::uint8_t ch) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 {
-    PAPILIO_ASSERT(PAPILIO_NS utf::is_leading_byte(leading_byte));
-
     if((leading_byte & 0b1000'0000) == 0)
         return 1;
     else if((leading_byte & 0b1110'0000) == 0b1100'0000)
@@ -80,13 +78,14 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
     else if((leading_byte & 0b1111'1000) == 0b1111'0000)
         return 4;
 
-    PAPILIO_UNREACHABLE();
+    // An invalid byte (trailing byte, or 0xF8 to 0xFF) stands for itself
+    return 1;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline bool is_high_surrogate(std::uint16_t ch) noexcept
 {
-    return 0xD7FF <= ch && ch <= 0xE000;
+    return 0xD800 <= ch && ch <= 0xDBFF;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
@@ -95,6 +94,44 @@ constexpr inline bool is_low_surrogate(std::uint16_t ch) noexcept
     return 0xDC00 <= ch && ch <= 0xDFFF;
 }
 
+namespace detail
+{
+    // Number of units of the code point beginning at `off`.
+    // An incomplete sequence ends before the first unit that cannot continue it.
+    template <char8_like CharT>
+    constexpr std::uint8_t cp_unit_len(const CharT* str, std::size_t off, std::size_t size) noexcept
+    {
+        const std::uint8_t expected = PAPILIO_NS utf::byte_count(static_cast<std::uint8_t>(str[off]));
+        std::uint8_t len = 1;
+        while(len < expected && len < size - off && PAPILIO_NS utf::is_trailing_byte(static_cast<std::uint8_t>(str[off + len])))
+            ++len;
+
+        return len;
+    }
+
+    template <char16_like CharT>
+    constexpr std::uint8_t cp_unit_len(const CharT* str, std::size_t off, std::size_t size) noexcept
+    {
+        if(!PAPILIO_NS utf::is_high_surrogate(static_cast<std::uint16_t>(str[off])) || size - off < 2)
+            return 1;
+
+        return PAPILIO_NS utf::is_low_surrogate(static_cast<std::uint16_t>(str[off + 1])) ? 2 : 1;
+    }
+
+    // Number of units of the code point ending before `off`, which must not be 0.
+    template <typename CharT>
+    constexpr std::uint8_t cp_unit_len_before(const CharT* str, std::size_t off) noexcept
+    {
+        for(std::uint8_t len = sizeof(CharT) == 1 ? 4 : 2; len > 1; --len)
+        {
+            if(len <= off && detail::cp_unit_len(str, off - len, off) == len)
+                return len;
+        }
+
+        return 1;
+    }
+} // namespace detail
+
 PAPILIO_EXPORT enum class strlen_behavior
 {
     replace = 0,
@@ -114,42 +151,31 @@ PAPILIO_EXPORT template <
     char8_like CharT>
 [[nodiscard]]
 constexpr std::size_t strlen(
-    const CharT* str, std::size_t max_chars
+    std::basic_string_view<CharT> str
 ) noexcept(OnInvalid != strlen_behavior::exception)
 {
-    PAPILIO_ASSERT(str != nullptr);
-
     std::size_t result = 0;
-    std::uint8_t bytes = 0;
     std::size_t i = 0;
-    for(; str[i] != CharT(0) && i < max_chars;)
+    for(; i < str.size();)
     {
-        if(bytes != 0)
-        {
-            --bytes;
-            ++i;
-            continue;
-        }
-
         std::uint8_t ch = static_cast<std::uint8_t>(str[i]);
+        std::uint8_t bytes = detail::cp_unit_len(str.data(), i, str.size());
 
-        if(PAPILIO_NS utf::is_leading_byte(ch))
+        if(PAPILIO_NS utf::is_leading_byte(ch) && ch < 0xF8 && bytes == PAPILIO_NS utf::byte_count(ch))
         {
             ++result;
-            bytes = PAPILIO_NS utf::byte_count(ch);
+            i += bytes;
         }
         else [[unlikely]]
         {
-            PAPILIO_ASSERT(PAPILIO_NS utf::is_trailing_byte(ch));
-
             if constexpr(OnInvalid == strlen_behavior::replace)
             {
                 ++result;
-                ++i;
+                i += bytes;
             }
             else if constexpr(OnInvalid == strlen_behavior::ignore)
             {
-                ++i;
+                i += bytes;
             }
             else if constexpr(OnInvalid == strlen_behavior::stop)
             {
@@ -162,13 +188,6 @@ constexpr std::size_t strlen(
         }
     }
 
-    if(bytes != 0)
-    {
-        if constexpr(OnInvalid == strlen_behavior::exception)
-        {
-            throw invalid_byte(str[i - 1]);
-        }
-    }
     return result;
 }
 
@@ -177,60 +196,16 @@ PAPILIO_EXPORT template <
     char8_like CharT>
 [[nodiscard]]
 constexpr std::size_t strlen(
-    std::basic_string_view<CharT> str
+    const CharT* str, std::size_t max_chars
 ) noexcept(OnInvalid != strlen_behavior::exception)
 {
-    std::size_t result = 0;
-    std::uint8_t bytes = 0;
-    std::size_t i = 0;
-    for(; i < str.size();)
-    {
-        if(bytes != 0)
-        {
-            --bytes;
-            ++i;
-            continue;
-        }
+    PAPILIO_ASSERT(str != nullptr);
 
-        char8_t ch = static_cast<char8_t>(str[i]);
+    std::size_t size = 0;
+    while(size < max_chars && str[size] != CharT(0))
+        ++size;
 
-        if(PAPILIO_NS utf::is_leading_byte(ch))
-        {
-            ++result;
-            bytes = PAPILIO_NS utf::byte_count(ch);
-        }
-        else [[unlikely]]
-        {
-            PAPILIO_ASSERT(PAPILIO_NS utf::is_trailing_byte(ch));
-
-            if constexpr(OnInvalid == strlen_behavior::replace)
-            {
-                ++result;
-                ++i;
-            }
-            else if constexpr(OnInvalid == strlen_behavior::ignore)
-            {
-                ++i;
-            }
-            else if constexpr(OnInvalid == strlen_behavior::stop)
-            {
-                return result;
-            }
-            else if constexpr(OnInvalid == strlen_behavior::exception)
-            {
-                throw invalid_byte(ch);
-            }
-        }
-    }
-
-    if(bytes != 0)
-    {
-        if constexpr(OnInvalid == strlen_behavior::exception)
-        {
-            throw invalid_byte(str[i - 1]);
-        }
-    }
-    return result;
+    return utf::strlen<OnInvalid, CharT>(std::basic_string_view<CharT>(str, size));
 }
 
 PAPILIO_EXPORT template <
@@ -238,46 +213,33 @@ PAPILIO_EXPORT template <
     char16_like CharT>
 [[nodiscard]]
 constexpr std::size_t strlen(
-    const CharT* str, std::size_t max_chars
+    std::basic_string_view<CharT> str
 ) noexcept(OnInvalid != strlen_behavior::exception)
 {
     std::size_t result = 0;
 
-    if constexpr(OnInvalid == strlen_behavior::ignore || OnInvalid == strlen_behavior::replace)
+    for(std::size_t i = 0; i < str.size(); ++i)
     {
-        for(std::size_t i = 0; i < max_chars && str[i] != CharT(0); ++i)
+        std::uint16_t ch = static_cast<std::uint16_t>(str[i]);
+
+        if(detail::cp_unit_len(str.data(), i, str.size()) == 2)
         {
-            if(!PAPILIO_NS utf::is_low_surrogate(str[i]))
-                ++result;
+            ++result;
+            ++i;
         }
-    }
-    else
-    {
-        bool prev_is_high = false;
-        for(std::size_t i = 0; i < max_chars && str[i] != CharT(0); ++i)
+        else if(PAPILIO_NS utf::is_high_surrogate(ch) || PAPILIO_NS utf::is_low_surrogate(ch)) [[unlikely]]
         {
-            std::uint16_t ch = static_cast<std::uint16_t>(str[i]);
-
-            if(PAPILIO_NS utf::is_high_surrogate(ch))
-            {
-                if(prev_is_high) [[unlikely]]
-                {
-                    // Invalid surrogate
-                    if constexpr(OnInvalid == strlen_behavior::stop)
-                        return result;
-                    else
-                        throw invalid_surrogate(ch);
-                }
-
-                prev_is_high = true;
-            }
-            else
-            {
-                PAPILIO_ASSERT(PAPILIO_NS utf::is_low_surrogate(ch));
-
-                prev_is_high = false;
+            // Unpaired surrogate
+            if constexpr(OnInvalid == strlen_behavior::replace)
                 ++result;
-            }
+            else if constexpr(OnInvalid == strlen_behavior::stop)
+                return result;
+            else if constexpr(OnInvalid == strlen_behavior::exception)
+                throw invalid_surrogate(ch);
+        }
+        else
+        {
+            ++result;
         }
     }
 
@@ -289,18 +251,16 @@ PAPILIO_EXPORT template <
     char16_like CharT>
 [[nodiscard]]
 constexpr std::size_t strlen(
-    std::basic_string_view<CharT> str
+    const CharT* str, std::size_t max_chars
 ) noexcept(OnInvalid != strlen_behavior::exception)
 {
-    std::size_t result = 0;
+    PAPILIO_ASSERT(str != nullptr);
 
-    for(std::size_t i = 0; i < str.size(); ++i)
-    {
-        if(!PAPILIO_NS utf::is_low_surrogate(str[i]))
-            ++result;
-    }
+    std::size_t size = 0;
+    while(size < max_chars && str[size] != CharT(0))
+        ++size;
 
-    return result;
+    return utf::strlen<OnInvalid, CharT>(std::basic_string_view<CharT>(str, size));
 }
 
 PAPILIO_EXPORT template <
@@ -314,6 +274,8 @@ constexpr inline std::size_t strlen(const CharT* str, std::size_t max_chars) noe
         if(str[i] == CharT(0))
             return i;
     }
+
+    return max_chars;
 }
 
 PAPILIO_EXPORT template <
@@ -343,29 +305,17 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
-    std::uint8_t len = 0;
     std::size_t ch_count = 0;
-    for(std::size_t i = 0; i < max_chars; ++i)
+    for(std::size_t i = 0; i < max_chars;)
     {
-        if(len != 0)
-        {
-            --len;
-            continue;
-        }
-        else if(ch_count == idx)
+        if(ch_count == idx)
         {
             return i;
         }
 
-        std::uint8_t ch = static_cast<std::uint8_t>(str[i]);
-        if(PAPILIO_NS utf::is_trailing_byte(ch))
-        {
-            return npos;
-        }
-
-        len = PAPILIO_NS utf::byte_count(ch) - 1;
+        i += detail::cp_unit_len(str, i, max_chars);
         ++ch_count;
     }
 
@@ -378,18 +328,15 @@ constexpr inline std::size_t index_offset(
     reverse_index_t, std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::size_t ch_count = 0;
-    for(std::size_t i = max_chars; i != 0; --i)
+    for(std::size_t i = max_chars; i != 0;)
     {
-        std::size_t off = i - 1;
-        if(PAPILIO_NS utf::is_leading_byte(static_cast<std::uint8_t>(str[off])))
-        {
-            if(ch_count == idx)
-                return off;
-            ++ch_count;
-        }
+        i -= detail::cp_unit_len_before(str, i);
+        if(ch_count == idx)
+            return i;
+        ++ch_count;
     }
 
     return npos;
@@ -401,29 +348,17 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
-    std::uint8_t len = 0;
     std::size_t ch_count = 0;
-    for(std::size_t i = 0; i < max_chars; ++i)
+    for(std::size_t i = 0; i < max_chars;)
     {
-        if(len == 2)
-        {
-            --len;
-            continue;
-        }
-        else if(ch_count == idx)
+        if(ch_count == idx)
         {
             return i;
         }
 
-        std::uint16_t ch = static_cast<std::uint16_t>(str[i]);
-        if(PAPILIO_NS utf::is_low_surrogate(ch))
-        {
-            return npos;
-        }
-
-        len = PAPILIO_NS utf::is_high_surrogate(ch) ? 2 : 1;
+        i += detail::cp_unit_len(str, i, max_chars);
         ++ch_count;
     }
 
@@ -436,18 +371,15 @@ constexpr inline std::size_t index_offset(
     reverse_index_t, std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::size_t ch_count = 0;
-    for(std::size_t i = max_chars; i != 0; --i)
+    for(std::size_t i = max_chars; i != 0;)
     {
-        std::size_t off = i - 1;
-        if(!PAPILIO_NS utf::is_low_surrogate(static_cast<std::uint16_t>(str[off])))
-        {
-            if(ch_count == idx)
-                return off;
-            ++ch_count;
-        }
+        i -= detail::cp_unit_len_before(str, i);
+        if(ch_count == idx)
+            return i;
+        ++ch_count;
     }
 
     return npos;
@@ -459,8 +391,6 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
-
     (void)str; // Unused
     return idx < max_chars ? idx : npos;
 }
@@ -472,7 +402,7 @@ constexpr inline std::size_t index_offset(
 ) noexcept
 {
     (void)str;
-    if(idx > max_chars - 1)
+    if(idx >= max_chars)
         return npos;
     return max_chars - 1 - idx;
 }
-- 
2.43.0


From d8ee2d55418dd410cea21d00f4bdf1d38f1b5fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 18/72] fix: string container iteration, assign() and access to
 ill-formed text

The mutable iterator advanced by the wrong code point, assign(count, ch) had
no return value, assign(count, cp) appended, assigning from the container's own
text used it after it was destroyed, and reading a truncated code point left
the text (or, in UTF-16, terminated the program).
---
 include/papilio/utf/string.hpp | 84 ++++++++++------------------------
 1 file changed, 25 insertions(+), 59 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9f9585c..1d70266 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -104,8 +104,7 @@ public:
 private:
     constexpr const_reference make_const_reference(size_type off) const noexcept
     {
-        const CharT* p = data() + off;
-        return const_reference(p, ch_size_for_cp(*p));
+        return const_reference(data() + off, ch_size_for_cp(off));
     }
 
 public:
@@ -369,16 +368,13 @@ protected:
         return as_derived().to_string_view();
     }
 
-    // Calculates how many characters are required by a codepoint.
-    static constexpr std::uint8_t ch_size_for_cp(CharT ch) noexcept
+    // Calculates how many characters are taken by the codepoint at the offset.
+    constexpr std::uint8_t ch_size_for_cp(size_type off) const noexcept
     {
-        if constexpr(char8_like<CharT>)
-        {
-            return utf::byte_count(std::uint8_t(ch));
-        }
-        else if constexpr(char16_like<CharT>)
+        if constexpr(!char32_like<CharT>)
         {
-            return utf::is_high_surrogate(ch) ? 2 : 1;
+            string_view_type str = get_view();
+            return detail::cp_unit_len(str.data(), off, str.size());
         }
         else // char32_like
         {
@@ -393,13 +389,12 @@ protected:
 
         if constexpr(char8_like<CharT>)
         {
-            std::uint8_t ch_size = ch_size_for_cp(str[off]);
+            std::uint8_t ch_size = ch_size_for_cp(off);
             return codepoint(str.data() + off, ch_size);
         }
         else if constexpr(char16_like<CharT>)
         {
-            std::uint8_t ch_size = ch_size_for_cp(str[off]) ? 2 : 1;
-            return decoder<CharT>::to_codepoint(str.substr(off, ch_size)).first;
+            return const_reference(str.data() + off, ch_size_for_cp(off));
         }
         else // char32_like
         {
@@ -933,10 +928,10 @@ public:
     constexpr basic_string_container(const CharT* str, size_type count) noexcept
         : m_data(std::in_place_type<string_view_type>, str, count) {}
 
-    basic_string_container(independent_t, const CharT* str) noexcept
+    basic_string_container(independent_t, const CharT* str)
         : m_data(std::in_place_type<string_type>, str) {}
 
-    constexpr basic_string_container(independent_t, const CharT* str, size_type count) noexcept
+    constexpr basic_string_container(independent_t, const CharT* str, size_type count)
         : m_data(std::in_place_type<string_type>, str, count) {}
 
     basic_string_container(const_iterator start, const_iterator stop) noexcept
@@ -963,11 +958,13 @@ public:
     {
         string_type& str = to_str();
         str.assign(count, ch);
+        return *this;
     }
 
     basic_string_container& assign(size_type count, codepoint cp)
     {
         string_type& str = to_str();
+        str.clear();
         if constexpr(char8_like<CharT>)
         {
             for(size_type i = 0; i < count; ++i)
@@ -1007,7 +1004,8 @@ public:
 
     basic_string_container& assign(independent_t, string_view_type str)
     {
-        emplace_data<string_type>(str);
+        // The source may be (part of) the current content
+        emplace_data<string_type>(string_type(str));
         return *this;
     }
 
@@ -1019,13 +1017,15 @@ public:
 
     basic_string_container& assign(independent_t, const string_type& str)
     {
-        emplace_data<string_type>(str);
+        // The source may be (part of) the current content
+        emplace_data<string_type>(string_type(str));
         return *this;
     }
 
     basic_string_container& assign(string_type&& str) noexcept
     {
-        emplace_data<string_type>(std::move(str));
+        string_type tmp(std::move(str)); // The source may be the current content
+        emplace_data<string_type>(std::move(tmp));
         return *this;
     }
 
@@ -1036,7 +1036,7 @@ public:
     }
 
     template <std::ranges::input_range R>
-    basic_string_container& assign_range(R&& r) noexcept
+    basic_string_container& assign_range(R&& r)
     {
         if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
         {
@@ -1115,7 +1115,7 @@ public:
     bool null_terminated() const noexcept
     {
         auto v = this->get_view();
-        return *(v.data() + v.size()) == static_cast<CharT>(0);
+        return v.data() != nullptr && *(v.data() + v.size()) == static_cast<CharT>(0);
     }
 
     [[nodiscard]]
@@ -1307,7 +1307,7 @@ public:
 
         void assign_cp(const codepoint& cp) const
         {
-            std::uint8_t len = m_str->ch_size_for_cp(*&*this);
+            std::uint8_t len = m_str->ch_size_for_cp(m_offset);
 
             string_type& str = m_str->to_str();
             cp.replace(str, m_offset, len);
@@ -1449,50 +1449,16 @@ public:
         constexpr void next_pos()
         {
             PAPILIO_ASSERT(*this);
-            m_offset += m_str->ch_size_for_cp(to_address()[m_offset]);
-            if(m_offset > m_str->size())
-                m_offset = m_str->size();
+            m_offset += m_str->ch_size_for_cp(m_offset);
         }
 
         constexpr void prev_pos()
         {
             PAPILIO_ASSERT(*this);
-            if constexpr(char8_like<CharT>)
+            PAPILIO_ASSERT(m_offset != 0);
+            if constexpr(!char32_like<CharT>)
             {
-                const CharT* p = m_str->data();
-
-                PAPILIO_ASSERT(m_offset != 0);
-                --m_offset;
-                size_type next_offset = m_offset;
-                while(true)
-                {
-                    char8_t ch = static_cast<char8_t>(p[next_offset]);
-
-                    if(m_offset - next_offset > 3) [[unlikely]]
-                    {
-                        break;
-                    }
-                    else if(PAPILIO_NS utf::is_leading_byte(ch))
-                    {
-                        m_offset = next_offset;
-                        break;
-                    }
-                    else if(next_offset == 0)
-                    {
-                        break;
-                    }
-
-                    --next_offset;
-                }
-            }
-            else if constexpr(char16_like<CharT>)
-            {
-                const CharT* p = m_str->data();
-
-                PAPILIO_ASSERT(m_offset != 0);
-                --m_offset;
-                while(PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
-                    --m_offset;
+                m_offset -= detail::cp_unit_len_before(m_str->data(), m_offset);
             }
             else
             {
-- 
2.43.0


From 403656bff9bb5f152c0347e3283cb94a0d884885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 19/72] fix: unterminated strings and indices in a script read
 past the end of the template

---
 include/papilio/core.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3b39259..e23c4fa 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3365,7 +3365,7 @@ protected:
         }
     }
 
-    static iterator skip_string(iterator start, iterator stop) noexcept
+    static iterator skip_string(iterator start, iterator stop)
     {
         bool esc = false;
         while(start != stop)
@@ -3379,12 +3379,12 @@ protected:
                 continue;
             }
             if(ch == U'\'')
-                break;
+                return start;
             if(ch == '\\')
                 esc = true;
         }
 
-        return start;
+        throw_end_of_string();
     }
 
     static std::pair<string_container_type, iterator> parse_string(iterator start, iterator stop)
@@ -3431,7 +3431,7 @@ protected:
                     else if(ch == U'\'')
                     {
                         ++it; // skip '\''
-                        break;
+                        return std::make_pair(std::move(result), it);
                     }
                     else
                     {
@@ -3439,7 +3439,7 @@ protected:
                     }
                 }
 
-                return std::make_pair(std::move(result), it);
+                throw_end_of_string();
             }
             else if(ch == U'\'')
             {
@@ -3447,6 +3447,9 @@ protected:
             }
         }
 
+        if(it == stop) [[unlikely]]
+            throw_end_of_string();
+
         return std::make_pair(
             string_container_type(start, it),
             std::next(it) // +1 to skip '\''
@@ -3472,7 +3475,7 @@ protected:
                 start, stop
             );
 
-            if(*next_it == U':')
+            if(next_it != stop && *next_it == U':')
             {
                 ++next_it;
                 if(next_it == stop) [[unlikely]]
-- 
2.43.0


From 62acb1c049c4dd65f42e9492c57b7343f8b53647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 20/72] fix: numbers too large for their type in a template
 overflowed silently

---
 include/papilio/core.hpp | 51 +++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e23c4fa..86a44d8 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3308,6 +3308,23 @@ protected:
         }
     }
 
+    // Appends a decimal digit to the value, throws std::out_of_range if the result cannot be represented
+    template <std::integral T>
+    static void append_digit(T& value, char32_t ch, bool negative = false)
+    {
+        using limits = std::numeric_limits<T>;
+
+        const T digit = static_cast<T>(ch - U'0');
+        const bool overflow = negative ?
+                                  value < (limits::min() + digit) / 10 :
+                                  value > (limits::max() - digit) / 10;
+        if(overflow) [[unlikely]]
+            throw std::out_of_range("integer value out of range");
+
+        value = static_cast<T>(value * 10);
+        value = static_cast<T>(negative ? value - digit : value + digit);
+    }
+
     // Parses integer value
     template <std::integral T>
     static std::pair<T, iterator> parse_integer(iterator start, iterator stop)
@@ -3319,29 +3336,25 @@ protected:
         bool negative = false;
         if(*start == U'-')
         {
+            if constexpr(!std::is_signed_v<T>)
+                throw std::out_of_range("integer value out of range");
             negative = true;
             ++start;
         }
 
+        if(start == stop || !utf::is_digit(*start)) [[unlikely]]
+            throw std::invalid_argument("invalid integer");
+
         while(start != stop)
         {
             char32_t ch = *start;
             if(!utf::is_digit(ch))
                 break;
 
-            value *= 10;
-            value += ch - U'0';
+            append_digit(value, ch, negative);
             ++start;
         }
 
-        if(negative)
-        {
-            if constexpr(std::is_signed_v<T>)
-                value = -value;
-            else
-                throw std::out_of_range("integer value out of range");
-        }
-
         return std::make_pair(value, start);
     }
 
@@ -4098,8 +4111,7 @@ private:
                 if(!utf::is_digit(ch))
                     break;
 
-                idx *= 10;
-                idx += static_cast<std::size_t>(ch - U'0');
+                my_base::append_digit(idx, ch);
                 ++start;
             }
 
@@ -4314,12 +4326,14 @@ namespace detail
                         throw format_error("invalid format");
                 }
 
+                check_limit(val);
+
                 return std::make_pair(val, next_it);
             }
             else if(utf::is_digit(first_ch))
             {
                 ++start;
-                std::size_t val = static_cast<std::size_t>(first_ch - U'0');
+                ssize_t val = static_cast<ssize_t>(first_ch - U'0');
 
                 while(start != stop)
                 {
@@ -4327,7 +4341,8 @@ namespace detail
                     if(!utf::is_digit(ch))
                         break;
                     val *= 10;
-                    val += static_cast<std::size_t>(ch - U'0');
+                    val += static_cast<ssize_t>(ch - U'0');
+                    check_limit(val);
 
                     ++start;
                 }
@@ -4339,6 +4354,14 @@ namespace detail
 
             throw format_error("invalid format");
         }
+
+    private:
+        // The width and precision must be representable in int
+        static void check_limit(ssize_t val)
+        {
+            if(val > (std::numeric_limits<int>::max)())
+                throw format_error("number is too big");
+        }
     };
 } // namespace detail
 
-- 
2.43.0


From eb4d503843f88f2de61ad44f58e9be28adc8d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 21/72] fix: invalid specification in a skipped branch
 terminated the program

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 86a44d8..4270ceb 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2921,7 +2921,7 @@ struct formatter_traits
      * @param parse_ctx Parse context
      */
     template <typename ParseContext>
-    static void skip_spec(ParseContext& parse_ctx) noexcept
+    static void skip_spec(ParseContext& parse_ctx)
     {
         if constexpr(parsable<ParseContext>())
         {
-- 
2.43.0


From 1307fd7adfb8d6d3ee73ee6e92378f8d195301cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 22/72] fix: a script with several final alternatives rendered
 all of them

---
 include/papilio/core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 4270ceb..0082b5b 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3948,6 +3948,7 @@ private:
                 start = exec_branch_if(
                     exec_this_branch, parse_ctx, fmt_ctx
                 );
+                executed = true;
             }
         }
 
-- 
2.43.0


From 6dbb2dc9559e582c3caabf61aeaabb276ef6c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 23/72] fix: characters after a field name were taken as its
 specification

---
 include/papilio/core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 0082b5b..38554e6 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3793,6 +3793,8 @@ private:
             my_base::throw_end_of_string();
         if(*next_it == U':')
             ++next_it;
+        else if(*next_it != U'}') [[unlikely]]
+            my_base::throw_error(script_error_code::unenclosed_brace, next_it);
 
         parse_ctx.advance_to(next_it);
         arg.skip_spec(parse_ctx);
@@ -3966,6 +3968,8 @@ private:
             my_base::throw_end_of_string();
         if(*next_it == U':')
             ++next_it;
+        else if(*next_it != U'}') [[unlikely]]
+            my_base::throw_error(script_error_code::unenclosed_brace, next_it);
 
         parse_ctx.advance_to(next_it);
         arg.format(parse_ctx, fmt_ctx);
-- 
2.43.0


From a6a83b22d80765fab13fa1a12ddaa1c4b0679789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 24/72] fix: upper case letters other than A were rejected in
 field names

---
 src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.cpp b/src/core.cpp
index 5cbaee3..6adfae0 100644
--- a/src/core.cpp
+++ b/src/core.cpp
@@ -137,7 +137,7 @@ bool script_base::is_field_name_ch(char32_t ch, bool first) noexcept
         return false;
 
     return digit ||
-           (U'A' <= ch && ch <= U'A') ||
+           (U'A' <= ch && ch <= U'Z') ||
            (U'a' <= ch && ch <= U'z') ||
            ch == U'_' ||
            ch >= 128;
-- 
2.43.0


From 53269af44d7e354e70b619bd693bedd166e0433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 25/72] fix: escaped output dropped or misprinted code units of
 ill-formed text

---
 include/papilio/core.hpp | 69 +++++++++++-----------------------------
 1 file changed, 18 insertions(+), 51 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 38554e6..7abca66 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2479,60 +2479,27 @@ private:
         std::size_t i = 0;
         while(i < str.size())
         {
-            if(PAPILIO_NS utf::is_leading_byte(str[i]))
-            {
-                std::uint8_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
-                if(i + size_bytes > str.size())
-                {
-                    for(std::size_t j = i; j < str.size(); ++j)
-                    {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(str[j]), false);
-                    }
-                    return;
-                }
-
-                if(has_esc_seq<true, false>(str[i]))
-                {
-                    append_as_esc_seq<true, false>(ctx, str[i]);
-                }
-                else if(std::all_of(
-                            str.begin() + i + 1,
-                            str.begin() + i + size_bytes,
-                            &utf::is_trailing_byte
-                        ))
-                {
-                    append(
-                        ctx,
-                        string_view_type(
-                            str.begin() + i,
-                            str.begin() + i + size_bytes
-                        )
-                    );
-                }
-                else
-                {
-                    auto stop = std::find_if_not(
-                        str.begin() + i + 1,
-                        str.begin() + i + size_bytes,
-                        &utf::is_trailing_byte
-                    );
-
-                    for(auto it = str.begin() + i; it != stop; ++it)
-                    {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(*it), false);
-                    }
-
-                    i += std::distance(str.begin() + i, stop);
-                    continue;
-                }
+            const std::uint8_t first = static_cast<std::uint8_t>(str[i]);
+            const std::size_t len = utf::detail::cp_unit_len(str.data(), i, str.size());
 
-                i += size_bytes;
+            if(!PAPILIO_NS utf::is_leading_byte(first) ||
+               first >= 0xF8 ||
+               len != PAPILIO_NS utf::byte_count(first))
+            {
+                // Not a complete code point
+                for(std::size_t j = i; j < i + len; ++j)
+                    append_hex_digits(ctx, static_cast<std::uint8_t>(str[j]), false);
+            }
+            else if(has_esc_seq<true, false>(first))
+            {
+                append_as_esc_seq<true, false>(ctx, first);
             }
             else
             {
-                append_hex_digits(ctx, str[i], false);
-                ++i;
+                append(ctx, str.substr(i, len));
             }
+
+            i += len;
         }
     }
 
@@ -2558,13 +2525,13 @@ private:
                 else if(!PAPILIO_NS utf::is_low_surrogate(str[i + 1]))
                 {
                     append_hex_digits(ctx, ch, false);
+                    ++i;
                 }
                 else
                 {
                     append(ctx, str.begin() + i, str.begin() + i + 2);
+                    i += 2;
                 }
-
-                i += 2;
             }
             else
             {
-- 
2.43.0


From 394734bae4ada40361f9620a9f19f55b3add4ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 26/72] fix: a character with a width but no alignment reached
 unreachable code

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7abca66..a4295aa 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5097,6 +5097,8 @@ public:
         data() = dt;
         data().type = dt.type_or(U'c');
         data().fill = dt.fill_or(U' ');
+        if(data().align == format_align::default_align)
+            data().align = format_align::left;
     }
 
     void set_debug_format() noexcept
-- 
2.43.0


From 7861859b607149a7b38362152a9b966dd64ab17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 27/72] fix: integers that are not code points were rendered by
 the c type

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index a4295aa..f363cd9 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5539,7 +5539,7 @@ public:
     {
         if(m_data.type == U'c')
         {
-            if(std::cmp_greater(val, std::numeric_limits<std::uint32_t>::max()))
+            if(std::cmp_less(val, 0) || std::cmp_greater(val, 0x10FFFF))
                 throw format_error("integer value out of range");
 
             codepoint_formatter fmt;
-- 
2.43.0


From aa5adcf93e08e4ef12bd0600481f9a93e15483db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 28/72] fix: floating point values with many digits could not
 be rendered

---
 include/papilio/core.hpp | 102 ++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 67 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index f363cd9..adab51b 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4880,16 +4880,12 @@ public:
     {
         using context_t = format_context_traits<FormatContext>;
 
-        CharT buf[buf_size];
-
-        std::size_t fp_size = 0;
-
         bool neg = std::signbit(val);
         val = std::abs(val);
 
-        fp_size = conv<CharT>(buf, val);
+        const buffer_type buf = conv(val);
 
-        std::size_t used = fp_size;
+        std::size_t used = buf.size();
 
         switch(data().sign)
         {
@@ -4932,7 +4928,8 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        context_t::append(ctx, buf, buf + fp_size);
+        for(char ch : buf)
+            context_t::append(ctx, static_cast<CharT>(ch));
 
         fill(ctx, right);
 
@@ -4942,6 +4939,8 @@ public:
 private:
     static constexpr std::size_t buf_size = 32;
 
+    using buffer_type = small_vector<char, buf_size>;
+
     std::pair<std::chars_format, bool> get_chars_fmt() const
     {
         std::chars_format ch_fmt{};
@@ -4983,47 +4982,28 @@ private:
         return std::make_pair(ch_fmt, uppercase);
     }
 
-    template <char8_like U>
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
+    buffer_type conv(T val) const
     {
         using namespace std::literals;
 
         std::to_chars_result result;
         auto [ch_fmt, uppercase] = get_chars_fmt();
 
+        buffer_type buf;
+
         if(std::isinf(val)) [[unlikely]]
         {
-            if(uppercase)
-            {
-                buf[0] = 'I';
-                buf[1] = 'N';
-                buf[2] = 'F';
-            }
-            else
-            {
-                buf[0] = 'i';
-                buf[1] = 'n';
-                buf[2] = 'f';
-            }
-            return 3;
+            buf.append_range(uppercase ? "INF"sv : "inf"sv);
+            return buf;
         }
         else if(std::isnan(val)) [[unlikely]]
         {
-            if(uppercase)
-            {
-                buf[0] = 'N';
-                buf[1] = 'A';
-                buf[2] = 'N';
-            }
-            else
-            {
-                buf[0] = 'n';
-                buf[1] = 'a';
-                buf[2] = 'n';
-            }
-            return 3;
+            buf.append_range(uppercase ? "NAN"sv : "nan"sv);
+            return buf;
         }
 
+        buf.resize(buf_size);
+
         int precision = static_cast<int>(data().precision);
         if(precision == 0 &&
            U"fFeEgG"sv.find(data().type) != std::u32string::npos)
@@ -5031,49 +5011,37 @@ private:
             precision = 6;
         }
 
-        char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
-        char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
+        while(true)
+        {
+            char* start = buf.data();
+            char* stop = buf.data() + buf.size();
 
-        if(precision == 0)
-            result = std::to_chars(start, stop, val, ch_fmt);
-        else
-            result = std::to_chars(start, stop, val, ch_fmt, precision);
+            if(precision == 0)
+                result = std::to_chars(start, stop, val, ch_fmt);
+            else
+                result = std::to_chars(start, stop, val, ch_fmt, precision);
 
-        if(result.ec == std::errc::value_too_large) [[unlikely]]
-        {
-            throw format_error("value too large");
-        }
-        else if(result.ec != std::errc())
-        {
-            PAPILIO_UNREACHABLE();
+            if(result.ec != std::errc::value_too_large) [[likely]]
+                break;
+
+            // The buffer is too small for the result
+            buf.resize(buf.size() * 2);
         }
 
-        std::size_t size = static_cast<std::size_t>(
-            result.ptr - std::bit_cast<char*>(buf.data())
-        );
+        PAPILIO_ASSERT(result.ec == std::errc());
+
+        buf.resize(static_cast<std::size_t>(result.ptr - buf.data()));
 
         if(uppercase)
         {
-            for(std::size_t i = 0; i < size; ++i)
+            for(char& ch : buf)
             {
-                if('a' <= buf[i] && buf[i] <= 'z')
-                    buf[i] -= 'a' - 'A'; // to upper
+                if('a' <= ch && ch <= 'z')
+                    ch = static_cast<char>(ch - ('a' - 'A')); // to upper
             }
         }
 
-        return size;
-    }
-
-    template <typename U>
-    requires(!char8_like<U>)
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
-    {
-        char narrow_buf[buf_size];
-        std::size_t size = conv<char>(narrow_buf, val);
-        PAPILIO_ASSERT(size <= buf.size());
-
-        std::copy_n(narrow_buf, size, buf.begin());
-        return size;
+        return buf;
     }
 };
 
-- 
2.43.0


From 12bcba2a49242ea30e5630d2ec01e75994703410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 29/72] fix: zero padding was ignored for floating point values

---
 include/papilio/core.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index adab51b..9c16a7e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4870,7 +4870,9 @@ public:
 
         data() = dt;
         data().fill = dt.fill_or(U' ');
-        if(data().align == format_align::default_align)
+        if(data().align != format_align::default_align)
+            data().fill_zero = false;
+        else
             data().align = format_align::right;
     }
 
@@ -4904,7 +4906,12 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        auto [left, right] = fill_size(used);
+        // Infinity and NaN are never filled with zeros
+        const bool fill_zero = data().fill_zero && std::isfinite(val);
+
+        auto [left, right] = fill_zero ?
+                                 std::make_pair<std::size_t, std::size_t>(0, 0) :
+                                 fill_size(used);
 
         fill(ctx, left);
 
@@ -4928,6 +4935,9 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
+        if(fill_zero && used < data().width)
+            context_t::append(ctx, static_cast<CharT>('0'), data().width - used);
+
         for(char ch : buf)
             context_t::append(ctx, static_cast<CharT>(ch));
 
-- 
2.43.0


From bd9e653739f0727a51c96bdcadf0bf1175a0d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 30/72] fix: a precision of zero was treated as no precision

---
 include/papilio/core.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 9c16a7e..50a8f98 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -241,8 +241,11 @@ PAPILIO_EXPORT struct std_formatter_data
 {
     using size_type = std::size_t;
 
+    // Indicates that no precision is specified
+    static constexpr size_type no_precision = static_cast<size_type>(-1);
+
     size_type width = 0;
-    size_type precision = 0;
+    size_type precision = no_precision;
     utf::codepoint fill = utf::codepoint();
     char32_t type = U'\0';
     format_align align = format_align::default_align;
@@ -251,6 +254,12 @@ PAPILIO_EXPORT struct std_formatter_data
     bool alternate_form = false;
     bool use_locale = false;
 
+    [[nodiscard]]
+    constexpr bool has_precision() const noexcept
+    {
+        return precision != no_precision;
+    }
+
     [[nodiscard]]
     constexpr bool contains_type(char32_t type_ch) const noexcept
     {
@@ -5014,8 +5023,8 @@ private:
 
         buf.resize(buf_size);
 
-        int precision = static_cast<int>(data().precision);
-        if(precision == 0 &&
+        int precision = data().has_precision() ? static_cast<int>(data().precision) : -1;
+        if(precision < 0 &&
            U"fFeEgG"sv.find(data().type) != std::u32string::npos)
         {
             precision = 6;
@@ -5026,7 +5035,7 @@ private:
             char* start = buf.data();
             char* stop = buf.data() + buf.size();
 
-            if(precision == 0)
+            if(precision < 0)
                 result = std::to_chars(start, stop, val, ch_fmt);
             else
                 result = std::to_chars(start, stop, val, ch_fmt, precision);
@@ -5155,7 +5164,7 @@ public:
         std::size_t used = 0; // Used width
 
         // The "precision" for a string means the max width can be used.
-        if(data().precision != 0)
+        if(data().has_precision())
         {
             for(auto it = str.begin(); it != str.end(); ++it)
             {
-- 
2.43.0


From ac87df5d2e2a4ad645f72204628e04f0e92de14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 31/72] fix: an enumeration value without a retrievable name
 read out of bounds or printed compiler text

---
 include/papilio/core.hpp    | 20 ++++++++++++++++++--
 include/papilio/utility.hpp |  8 ++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 50a8f98..7cc02e9 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5234,10 +5234,14 @@ public:
     auto format(Enum e, FormatContext& ctx) const
         -> typename FormatContext::iterator
     {
-        if(m_data.type_or(U's') != U's')
+        if(m_data.type_or(U's') != U's' || !has_name(e))
         {
+            std_formatter_data int_data = m_data;
+            if(int_data.type_or(U's') == U's')
+                int_data.type = U'd';
+
             int_formatter<std::underlying_type_t<Enum>, CharT> fmt;
-            fmt.set_data(m_data);
+            fmt.set_data(int_data);
             return fmt.format(PAPILIO_NS to_underlying(e), ctx);
         }
 #ifdef PAPILIO_HAS_ENUM_NAME
@@ -5274,6 +5278,18 @@ public:
 
 private:
     std_formatter_data m_data{.type = U's'};
+
+    // Returns false if the name of the value cannot be retrieved
+    static bool has_name([[maybe_unused]] Enum e) noexcept
+    {
+#ifdef PAPILIO_HAS_ENUM_NAME
+        // The compiler outputs values without an enumerator like "(enum_type)1"
+        const std::string_view name = enum_name<Enum>(e);
+        return !name.empty() && name.find(')') == std::string_view::npos;
+#else
+        return false;
+#endif
+    }
 };
 
 /**
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 8a41c03..72c4c59 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -981,7 +981,7 @@ constexpr std::string_view static_enum_name()
  * @param value The enum value.
  *
  * @warning This function has some limitations.
- * - It can only convert valid enum values ranging from -128 to 128.
+ * - It can only convert valid enum values within [-128, 128). The result for other values is empty.
  *
  * @sa static_enum_name
  */
@@ -996,7 +996,11 @@ constexpr std::string_view enum_name(T value) noexcept
         };
     }(std::make_index_sequence<256>());
 
-    return names[static_cast<std::size_t>(value) + 128];
+    const auto val = static_cast<std::underlying_type_t<T>>(value);
+    if(std::cmp_less(val, -128) || std::cmp_greater_equal(val, 128)) [[unlikely]]
+        return std::string_view();
+
+    return names[static_cast<std::size_t>(static_cast<ssize_t>(val) + 128)];
 }
 
 #if defined PAPILIO_COMPILER_CLANG
-- 
2.43.0


From ec77dceb81cd75e599bad93bdae0e625728c6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 32/72] fix: joining checked for the parse function with the
 wrong context

---
 include/papilio/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 207b09f..397e1f7 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -615,7 +615,7 @@ public:
     {
         using formatter_t = typename FormatContext::template formatter_type<value_type>;
 
-        if constexpr(formatter_traits<formatter_t>::template parsable<FormatContext>())
+        if constexpr(formatter_traits<formatter_t>::template parsable<ParseContext>())
         {
             formatter_t fmt;
             parse_ctx.advance_to(fmt.parse(parse_ctx));
-- 
2.43.0


From 299681b3d03ba4758eb2ccf6ef1df9c84b4ab7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 33/72] fix: formatted_range produced stray characters for
 empty fields and restarted when moved

---
 include/papilio/format.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 397e1f7..f4c090c 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -67,7 +67,10 @@ public:
               m_intp(),
               m_intp_ctx(m_intp.create_context(other.m_intp_ctx.input_context(), m_fmt_ctx)),
               m_buf(std::move(other.m_buf)),
-              m_offset(std::exchange(other.m_offset, 0)) {}
+              m_offset(std::exchange(other.m_offset, 0))
+        {
+            m_intp_ctx.advance_input_to(other.m_intp_ctx.input());
+        }
 
         const_iterator(parse_context& ictx)
             : m_fmt_ctx(std::back_inserter(m_buf), ictx.get_args()),
@@ -78,15 +81,17 @@ public:
         {
             m_fmt_ctx = format_context_type(std::back_inserter(m_buf), rhs.m_intp_ctx.input_context().get_args());
             m_intp_ctx = m_intp.create_context(rhs.m_intp_ctx.input_context(), m_fmt_ctx);
+            m_intp_ctx.advance_input_to(rhs.m_intp_ctx.input());
             m_buf = std::move(rhs.m_buf);
             m_offset = std::exchange(rhs.m_offset, 0);
+
+            return *this;
         }
 
         bool operator==(sentinel_t) const
         {
-            if(m_offset < m_buf.size())
-                return false;
-            return m_intp_ctx.input_at_end();
+            fetch();
+            return m_offset >= m_buf.size();
         }
 
         /**
@@ -105,14 +110,22 @@ public:
 
         CharT operator*() const
         {
-            if(m_offset >= m_buf.size())
-            {
-                m_intp.run_n(m_intp_ctx, m_buf.size() - m_offset + 1);
-            }
+            fetch();
             return m_buf[m_offset];
         }
 
     private:
+        // Run until the current character is available, or the end of the format string is reached.
+        // Note: A replacement field may produce no output.
+        void fetch() const
+        {
+            m_intp.run_if(
+                m_intp_ctx,
+                [this]() -> bool
+                { return m_offset >= m_buf.size(); }
+            );
+        }
+
         mutable format_context_type m_fmt_ctx;
         mutable intp_t m_intp;
         mutable intp_ctx_t m_intp_ctx;
-- 
2.43.0


From b2e788597f45fed45d00180ddc34d4b57e714e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 34/72] fix: a style with only a background colour was dropped

---
 include/papilio/color.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/papilio/color.hpp b/include/papilio/color.hpp
index b9c95f6..5d9760e 100644
--- a/include/papilio/color.hpp
+++ b/include/papilio/color.hpp
@@ -151,7 +151,7 @@ public:
                 it = set_style(it, 4);
         }
 
-        if(has_foreground())
+        if(has_foreground() || has_background())
         {
             it = set_color(it, to_underlying(m_fg), to_underlying(m_bg));
         }
@@ -163,7 +163,7 @@ public:
     Iterator reset(Iterator it) const
     {
         constexpr char esc[] = "\033[0m";
-        if(has_style() || has_foreground())
+        if(has_style() || has_foreground() || has_background())
             it = std::copy_n(esc, 4, it);
         return it;
     }
@@ -191,9 +191,11 @@ private:
     {
         if(bg_val)
         {
-            PAPILIO_ASSERT(fg_val != 0);
             bg_val += 10;
 
+            if(!fg_val)
+                return PAPILIO_NS format_to(it, "\033[{}m", bg_val);
+
             return PAPILIO_NS format_to(it, "\033[{};{}m", fg_val, bg_val);
         }
         else
-- 
2.43.0


From 18de6bd103d4ddc8f9646eb15a4c099cbd8d7513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 35/72] fix: out-of-range weekdays and months read out of
 bounds and long years were cut off

---
 include/papilio/formatter/chrono.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/papilio/formatter/chrono.hpp b/include/papilio/formatter/chrono.hpp
index 96c8684..42a4440 100644
--- a/include/papilio/formatter/chrono.hpp
+++ b/include/papilio/formatter/chrono.hpp
@@ -73,12 +73,9 @@ public:
     {
         if(m_data.chrono_spec.empty())
         {
-            CharT buf[24];
-            default_tm_fmt_impl(val, buf);
-
             string_formatter<CharT> fmt;
             fmt.set_data(m_data.basic);
-            return fmt.format(std::basic_string_view<CharT>(buf, 24), ctx);
+            return fmt.format(default_tm_fmt_impl(val), ctx);
         }
         else
         {
@@ -99,7 +96,7 @@ private:
     chrono_formatter_data<CharT> m_data;
 
     // Simulating `asctime()` but without the trailing newline
-    static void default_tm_fmt_impl(const std::tm& val, std::span<CharT, 24> buf)
+    static std::basic_string<CharT> default_tm_fmt_impl(const std::tm& val)
     {
         constexpr CharT weekdays[7][3] = {
             {'S', 'u', 'n'},
@@ -125,18 +122,25 @@ private:
             {'D', 'e', 'c'}
         };
 
-        PAPILIO_NS format_to_n(
-            buf.data(),
-            buf.size(),
+        constexpr CharT unknown[3] = {'?', '?', '?'};
+
+        const bool valid_wday = 0 <= val.tm_wday && val.tm_wday < 7;
+        const bool valid_mon = 0 <= val.tm_mon && val.tm_mon < 12;
+
+        std::basic_string<CharT> result;
+        PAPILIO_NS format_to(
+            std::back_inserter(result),
             PAPILIO_TSTRING_VIEW(CharT, "{} {} {:2d} {:02d}:{:02d}:{:02d} {:4d}"),
-            std::basic_string_view<CharT>(weekdays[val.tm_wday], 3),
-            std::basic_string_view<CharT>(months[val.tm_mon], 3),
+            std::basic_string_view<CharT>(valid_wday ? weekdays[val.tm_wday] : unknown, 3),
+            std::basic_string_view<CharT>(valid_mon ? months[val.tm_mon] : unknown, 3),
             val.tm_mday,
             val.tm_hour,
             val.tm_min,
             val.tm_sec,
-            val.tm_year + 1900
+            static_cast<std::int64_t>(val.tm_year) + 1900
         );
+
+        return result;
     }
 };
 } // namespace papilio
-- 
2.43.0


From fdc5322818cd076b2fec69819901bf00927f1d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 36/72] fix: index_range::length() rejected ranges that start
 at the first element

---
 include/papilio/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 72c4c59..d8ec3cf 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -208,8 +208,8 @@ public:
     [[nodiscard]]
     constexpr size_type length() const noexcept
     {
-        PAPILIO_ASSERT(first > 0);
-        PAPILIO_ASSERT(second > 0);
+        PAPILIO_ASSERT(first >= 0);
+        PAPILIO_ASSERT(second >= 0);
         PAPILIO_ASSERT(second != npos);
         return static_cast<size_type>(second - first);
     }
-- 
2.43.0


From 717e8ac951003380cb2dba74def9e8bd3696217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 37/72] fix: a slice starting before the first element of a
 range read out of bounds

---
 include/papilio/accessor/ranges.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index f336043..6500f3c 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -94,6 +94,9 @@ struct contiguous_range_accessor
         std::size_t sz = stdr::size(rng);
         s = s.normalize(sz);
 
+        if(s.first < 0)
+            s.first = 0;
+
         if(std::cmp_greater_equal(s.first, sz))
             return format_arg_type();
         else if(std::cmp_greater(s.second, sz))
-- 
2.43.0


From 1701cd12dad9852f87bf72a1516681a768c2f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 38/72] fix: the result of a chained access referred to
 destroyed intermediate values

---
 include/papilio/core.hpp | 84 +++++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 22 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7cc02e9..8b0bc03 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -18,6 +18,7 @@
 #include <array>
 #include <charconv>
 #include <typeindex>
+#include <forward_list>
 #include "macros.hpp"
 #include "fmtfwd.hpp"
 #include "utility.hpp"
@@ -3546,7 +3547,10 @@ public:
      */
     static std::pair<format_arg_type, iterator> access(parse_context& ctx)
     {
-        return access_impl(ctx, ctx.begin(), ctx.end());
+        access_chain chain;
+        iterator next_it = access_impl(ctx, ctx.begin(), ctx.end(), chain);
+
+        return std::make_pair(std::move(chain.result()), next_it);
     }
 
     class interpreter_context
@@ -3749,21 +3753,53 @@ public:
     }
 
 private:
-    static std::pair<format_arg_type, iterator> access_impl(parse_context& ctx, iterator start, iterator stop)
+    /**
+     * @brief Values passed through by a chained access
+     *
+     * The result of an access may refer to the value it was applied to,
+     * so every intermediate value has to live as long as the final result.
+     */
+    class access_chain
+    {
+    public:
+        access_chain() = default;
+        access_chain(const access_chain&) = delete;
+
+        format_arg_type& result() noexcept
+        {
+            return m_next.empty() ? m_base : m_next.front();
+        }
+
+        void set_base(format_arg_type arg) noexcept
+        {
+            m_base = std::move(arg);
+        }
+
+        void push(format_arg_type arg)
+        {
+            m_next.push_front(std::move(arg));
+        }
+
+    private:
+        format_arg_type m_base;
+        std::forward_list<format_arg_type> m_next;
+    };
+
+    static iterator access_impl(parse_context& ctx, iterator start, iterator stop, access_chain& chain)
     {
         if(start == stop) [[unlikely]]
             my_base::throw_end_of_string();
 
         auto [arg, next_it] = parse_field_name(ctx, start, stop);
+        chain.set_base(std::move(arg));
 
-        std::tie(arg, next_it) = parse_chained_access(arg, next_it, stop);
-
-        return std::make_pair(std::move(arg), next_it);
+        return parse_chained_access(chain, next_it, stop);
     }
 
     static void skip_repl(parse_context& parse_ctx)
     {
-        auto [arg, next_it] = access(parse_ctx);
+        access_chain chain;
+        iterator next_it = access_impl(parse_ctx, parse_ctx.begin(), parse_ctx.end(), chain);
 
         if(next_it == parse_ctx.end()) [[unlikely]]
             my_base::throw_end_of_string();
@@ -3773,7 +3809,7 @@ private:
             my_base::throw_error(script_error_code::unenclosed_brace, next_it);
 
         parse_ctx.advance_to(next_it);
-        arg.skip_spec(parse_ctx);
+        chain.result().skip_spec(parse_ctx);
     }
 
     /**
@@ -3938,7 +3974,8 @@ private:
      */
     static void exec_repl(parse_context& parse_ctx, FormatContext& fmt_ctx)
     {
-        auto [arg, next_it] = access(parse_ctx);
+        access_chain chain;
+        iterator next_it = access_impl(parse_ctx, parse_ctx.begin(), parse_ctx.end(), chain);
 
         if(next_it == parse_ctx.end()) [[unlikely]]
             my_base::throw_end_of_string();
@@ -3948,10 +3985,12 @@ private:
             my_base::throw_error(script_error_code::unenclosed_brace, next_it);
 
         parse_ctx.advance_to(next_it);
-        arg.format(parse_ctx, fmt_ctx);
+        chain.result().format(parse_ctx, fmt_ctx);
     }
 
-    static std::pair<variable_type, iterator> parse_variable(parse_context& ctx, iterator start, iterator stop)
+    static std::pair<variable_type, iterator> parse_variable(
+        parse_context& ctx, iterator start, iterator stop, access_chain& chain
+    )
     {
         if(start == stop) [[unlikely]]
             my_base::throw_end_of_string();
@@ -3960,7 +3999,7 @@ private:
         if(first_ch == U'{')
         {
             ++start;
-            auto [arg, next_it] = access_impl(ctx, start, stop);
+            iterator next_it = access_impl(ctx, start, stop, chain);
             if(next_it == stop) [[unlikely]]
                 my_base::throw_end_of_string();
             if(*next_it != U'}') [[unlikely]]
@@ -3968,7 +4007,7 @@ private:
 
             ++next_it;
             return std::make_pair(
-                variable_type(std::move(arg).to_variant()),
+                variable_type(std::move(chain.result()).to_variant()),
                 next_it
             );
         }
@@ -4022,7 +4061,8 @@ private:
             ++start;
             start = my_base::skip_ws(start, stop);
 
-            auto [var, next_it] = parse_variable(ctx, start, stop);
+            access_chain chain;
+            auto [var, next_it] = parse_variable(ctx, start, stop, chain);
             next_it = my_base::skip_ws(next_it, stop);
             if(next_it == stop) [[unlikely]]
                 my_base::throw_end_of_string();
@@ -4034,7 +4074,8 @@ private:
         }
         else if(my_base::is_var_start_ch(first_ch))
         {
-            auto [var, next_it] = parse_variable(ctx, start, stop);
+            access_chain chain;
+            auto [var, next_it] = parse_variable(ctx, start, stop, chain);
 
             next_it = my_base::skip_ws(next_it, stop);
             if(next_it == stop) [[unlikely]]
@@ -4053,7 +4094,8 @@ private:
 
                 next_it = my_base::skip_ws(next_it, stop);
 
-                auto [var_2, next_it_2] = parse_variable(ctx, next_it, stop);
+                access_chain chain_2;
+                auto [var_2, next_it_2] = parse_variable(ctx, next_it, stop, chain_2);
                 next_it = my_base::skip_ws(next_it_2, stop);
 
                 if(next_it == stop) [[unlikely]]
@@ -4122,12 +4164,10 @@ private:
         my_base::throw_error(script_error_code::invalid_field_name, start);
     }
 
-    static std::pair<format_arg_type, iterator> parse_chained_access(
-        format_arg_type& base_arg, iterator start, iterator stop
+    static iterator parse_chained_access(
+        access_chain& chain, iterator start, iterator stop
     )
     {
-        format_arg_type current = base_arg;
-
         while(start != stop)
         {
             char32_t first_ch = *start;
@@ -4142,7 +4182,7 @@ private:
                 if(attr_name.empty())
                     my_base::throw_error(script_error_code::invalid_attribute, str_end);
 
-                current = current.attribute(attr_name);
+                chain.push(chain.result().attribute(attr_name));
 
                 start = str_end;
             }
@@ -4156,7 +4196,7 @@ private:
                     my_base::throw_error(script_error_code::invalid_index, next_it);
                 ++next_it;
 
-                current = current.index(idx);
+                chain.push(chain.result().index(idx));
 
                 start = next_it;
             }
@@ -4166,7 +4206,7 @@ private:
             }
         }
 
-        return std::make_pair(std::move(current), start);
+        return start;
     }
 };
 
-- 
2.43.0


From 3578646cb846e0f39f630acb84dbdde082888d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 39/72] fix: a variable holding infinity did not equal itself

---
 include/papilio/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8b0bc03..efaf7f3 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -742,7 +742,8 @@ private:
 
     static bool equal_impl(float_type epsilon, float_type lhs, float_type rhs) noexcept
     {
-        return std::abs(lhs - rhs) < epsilon;
+        // The difference of two equal infinities is not a number
+        return lhs == rhs || std::abs(lhs - rhs) < epsilon;
     }
 
     template <std::integral T>
-- 
2.43.0


From 68a404e4f6bc9e2b5cf2ae1d598e7ae12b5a33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 40/72] fix: moving the content out of a variable did not
 compile

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index efaf7f3..58f74f4 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -594,7 +594,7 @@ public:
     [[nodiscard]]
     variant_type&& to_variant() && noexcept
     {
-        return m_var;
+        return std::move(m_var);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 22bca8641db53ee2cdbe64c6347170146c30eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 41/72] fix: indexing a map referred to a temporary copy of the
 mapped value

---
 include/papilio/accessor/ranges.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index 6500f3c..f4eed54 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -216,7 +216,7 @@ struct map_accessor
 
         auto it = m.find(static_cast<key_type>(i));
         return it != m.end() ?
-                   static_cast<mapped_type>(it->second) :
+                   format_arg_type(it->second) :
                    format_arg_type();
     }
 
@@ -228,14 +228,14 @@ struct map_accessor
         {
             auto it = m.find(k);
             return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
+                       format_arg_type(it->second) :
                        format_arg_type();
         }
         else
         {
             auto it = m.find(static_cast<key_type>(k));
             return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
+                       format_arg_type(it->second) :
                        format_arg_type();
         }
     }
-- 
2.43.0


From 3ba00981ae00ab55c444e3d60b7231493c359a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 42/72] fix: indexing a map with a value not representable as a
 key found another key

---
 include/papilio/accessor/ranges.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index f4eed54..722a5ff 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -214,6 +214,10 @@ struct map_accessor
                 return format_arg_type();
         }
 
+        // The index is not representable as a key
+        if(static_cast<ssize_t>(static_cast<key_type>(i)) != i)
+            return format_arg_type();
+
         auto it = m.find(static_cast<key_type>(i));
         return it != m.end() ?
                    format_arg_type(it->second) :
-- 
2.43.0


From 4657e672c8a044afb3f0759bdd203a5012e39a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 43/72] fix: a negative char was converted to a value that is
 not a code point

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 58f74f4..0acc2a8 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1316,7 +1316,7 @@ public:
 
     template <char_like Char>
     basic_format_arg(Char ch) noexcept
-        : m_val(std::in_place_type<utf::codepoint>, static_cast<char32_t>(ch))
+        : m_val(std::in_place_type<utf::codepoint>, static_cast<char32_t>(std::make_unsigned_t<Char>(ch)))
     {}
 
     template <detail::acceptable_integral Integral>
-- 
2.43.0


From 5243314df861aff9c37fae06defa6e18ae873a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 44/72] fix: a negative char formatted as an element produced a
 stray code unit

---
 include/papilio/core.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 0acc2a8..2adf4a4 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5714,7 +5714,16 @@ private:
  */
 PAPILIO_EXPORT template <typename CharT>
 class formatter<CharT, CharT> : public formatter<utf::codepoint, CharT>
-{};
+{
+    using my_base = formatter<utf::codepoint, CharT>;
+
+public:
+    template <typename FormatContext>
+    auto format(CharT ch, FormatContext& ctx) const -> typename FormatContext::iterator
+    {
+        return my_base::format(static_cast<char32_t>(std::make_unsigned_t<CharT>(ch)), ctx);
+    }
+};
 
 /**
  * @brief Formatter for the Boolean type.
-- 
2.43.0


From c9d393c70d23a4bec64e9defcde4ac43b0d51b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 45/72] fix: formatting a named argument moved from the
 caller's variable

---
 include/papilio/utility.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index d8ec3cf..6f4711f 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -271,16 +271,27 @@ struct is_named_arg : public std::bool_constant<detail::is_named_arg_helper<T>>
 PAPILIO_EXPORT template <typename T>
 constexpr inline bool is_named_arg_v = is_named_arg<T>::value;
 
+namespace detail
+{
+    // The value category is not part of a named argument,
+    // so an lvalue is referred to as constant to prevent it from being moved from.
+    template <typename T>
+    using named_arg_value_t = std::conditional_t<
+        std::is_lvalue_reference_v<T>,
+        std::add_const_t<std::remove_reference_t<T>>,
+        std::remove_reference_t<T>>;
+} // namespace detail
+
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const CharT* name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, detail::named_arg_value_t<T>>(name, value);
 }
 
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const std::basic_string_view<CharT> name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, detail::named_arg_value_t<T>>(name, value);
 }
 
 namespace detail
-- 
2.43.0


From 1191b33fb8c9424f11f8983e1066fedc38f7a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 46/72] fix: a named argument in a dynamic store referred to a
 temporary

---
 include/papilio/core.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 2adf4a4..55e5c95 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1858,10 +1858,11 @@ public:
                 "Invalid char type"
             );
 
-            m_named_args.emplace(std::make_pair(
-                PAPILIO_NS forward_like<T>(val.name),
-                PAPILIO_NS forward_like<T>(val.value)
-            ));
+            // The argument may refer to the value, so it must be constructed from the value directly
+            m_named_args.emplace(
+                string_type(val.name),
+                format_arg_type(PAPILIO_NS forward_like<T>(val.value))
+            );
         }
         else
         {
-- 
2.43.0


From 2e37e961c64a7507d34228d32712f2a1b0684619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 47/72] fix: an enum with a bool or character underlying type
 could not be formatted

---
 include/papilio/core.hpp    | 6 ++++--
 include/papilio/utility.hpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 55e5c95..94f7ee1 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5282,9 +5282,11 @@ public:
             if(int_data.type_or(U's') == U's')
                 int_data.type = U'd';
 
-            int_formatter<std::underlying_type_t<Enum>, CharT> fmt;
+            // The promotion turns bool and character types into integers
+            const auto val = +PAPILIO_NS to_underlying(e);
+            int_formatter<std::remove_const_t<decltype(val)>, CharT> fmt;
             fmt.set_data(int_data);
-            return fmt.format(PAPILIO_NS to_underlying(e), ctx);
+            return fmt.format(val, ctx);
         }
 #ifdef PAPILIO_HAS_ENUM_NAME
         else
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 6f4711f..5c4794c 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -1007,7 +1007,8 @@ constexpr std::string_view enum_name(T value) noexcept
         };
     }(std::make_index_sequence<256>());
 
-    const auto val = static_cast<std::underlying_type_t<T>>(value);
+    // The promotion makes bool and character types comparable as integers
+    const auto val = +static_cast<std::underlying_type_t<T>>(value);
     if(std::cmp_less(val, -128) || std::cmp_greater_equal(val, 128)) [[unlikely]]
         return std::string_view();
 
-- 
2.43.0


From fd1ae6cc54c9267d99b68a957c05c3951e83c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 48/72] fix: format_to_n did not compile for output iterators
 without a value type

---
 include/papilio/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index f4c090c..5b98f78 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -251,7 +251,7 @@ namespace detail
     {
     public:
         using iterator_category = std::output_iterator_tag;
-        using value_type = std::iter_value_t<OutputIt>;
+        using value_type = CharT;
         using difference_type = std::iter_difference_t<OutputIt>;
         using pointer = void;
         using reference = void;
-- 
2.43.0


From c1a1e4137c9d31642d11584f204c96b432b04be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 49/72] fix: a named argument passed as an lvalue ended the
 program or did not compile

---
 include/papilio/core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 94f7ee1..f612767 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1799,15 +1799,15 @@ private:
     map_type m_named_args;
 
     template <typename T>
-    requires(!is_named_arg_v<T>)
+    requires(!is_named_arg_v<std::remove_cvref_t<T>>)
     void emplace(T&& val) noexcept(std::is_nothrow_constructible_v<format_arg_type, T>)
     {
         m_indexed_args.emplace_back(std::forward<T>(val));
     }
 
     template <typename T>
-    requires(is_named_arg_v<T> && std::is_same_v<char_type, typename T::char_type>)
-    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename T::value_type>)
+    requires(is_named_arg_v<std::remove_cvref_t<T>> && std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>)
+    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename std::remove_cvref_t<T>::value_type>)
     {
         m_named_args.insert_or_assign(
             na.name,
@@ -1854,7 +1854,7 @@ public:
         if constexpr(is_named_arg_v<std::remove_cvref_t<T>>)
         {
             static_assert(
-                std::is_same_v<char_type, typename T::char_type>,
+                std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>,
                 "Invalid char type"
             );
 
-- 
2.43.0


From 382391a32030a7888a0d53f73c56b4ca968a9a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 50/72] fix: format_to for UTF-8, UTF-16 and UTF-32 did not
 compile

---
 include/papilio/xchar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/xchar.hpp b/include/papilio/xchar.hpp
index f9b2007..d0b7cc9 100644
--- a/include/papilio/xchar.hpp
+++ b/include/papilio/xchar.hpp
@@ -60,7 +60,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char8_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -157,7 +157,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char16_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -255,7 +255,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char32_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
-- 
2.43.0


From c541bc41dea8568a09f16a0941103a7f691ab63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 51/72] fix: a slice with the smallest negative bound
 overflowed in its negation

---
 include/papilio/utf/string.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 1d70266..49b1855 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -322,12 +322,10 @@ public:
             }
             else
             {
-                idx = -idx; // abs(idx)
-
                 const auto sentinel = cbegin();
 
                 const_iterator it = cend();
-                for(index_range::index_type i = 0; i < idx; ++i)
+                for(index_range::index_type i = 0; i > idx; --i)
                 {
                     if(it == sentinel)
                     {
-- 
2.43.0


From ae38c65a54a3da7b126a43d05294f5424b523845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 52/72] fix: ordering a string on the left of a UTF string did
 not compile

---
 include/papilio/utf/string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 49b1855..fcfcb13 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -802,7 +802,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -814,7 +814,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_s
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -826,7 +826,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::b
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT using string_ref = basic_string_ref<char>;
@@ -1628,7 +1628,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1640,7 +1640,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1652,7 +1652,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT using string_container = basic_string_container<char>;
-- 
2.43.0


From cfe8606777a39745cb5d097f10b18353268dce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 53/72] fix: index was not available for a constant string
 container

---
 include/papilio/utf/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index fcfcb13..dd652dd 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1339,6 +1339,8 @@ public:
 
 #endif
 
+    using my_base::index;
+
     // for consistency
     [[nodiscard]]
     constexpr reference index(size_type i) noexcept
-- 
2.43.0


From 32fee027ebbbae2e61544dace99be97e00762dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 54/72] fix: a code point could not be constructed from a span
 of mutable bytes

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 9740ae1..b7e7c95 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -144,7 +144,7 @@ public:
     requires(sizeof(T) == 1)
     constexpr codepoint(std::span<T, 4> bytes) noexcept
     {
-        assign(bytes);
+        assign(std::span<const T, 4>(bytes));
     }
 
     constexpr codepoint(char32_t ch) noexcept
-- 
2.43.0


From 36adb1f5083d04e50a84ccae1c0056c9cdeceb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:24 +0000
Subject: [PATCH 55/72] fix: assigning a string container a part of its own
 text left it dangling

---
 include/papilio/utf/string.hpp | 49 +++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index dd652dd..343ae20 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -6,6 +6,7 @@
 #include <iosfwd>
 #include <string>
 #include <algorithm>
+#include <functional>
 #include <variant>
 #include "../fmtfwd.hpp"
 #include "stralgo.hpp"
@@ -984,19 +985,19 @@ public:
 
     basic_string_container& assign(const CharT* str) noexcept
     {
-        emplace_data<string_view_type>(str);
+        set_view(str);
         return *this;
     }
 
     basic_string_container& assign(const CharT* str, size_type count) noexcept
     {
-        emplace_data<string_view_type>(str, count);
+        set_view(string_view_type(str, count));
         return *this;
     }
 
     basic_string_container& assign(string_view_type str)
     {
-        emplace_data<string_view_type>(str);
+        set_view(str);
         return *this;
     }
 
@@ -1009,7 +1010,7 @@ public:
 
     basic_string_container& assign(const string_type& str) noexcept
     {
-        emplace_data<string_view_type>(str);
+        set_view(str);
         return *this;
     }
 
@@ -1029,7 +1030,7 @@ public:
 
     basic_string_container& assign(const_iterator start, const_iterator stop) noexcept
     {
-        emplace_data<string_view_type>(start.base(), stop.base());
+        set_view(string_view_type(start.base(), stop.base()));
         return *this;
     }
 
@@ -1062,8 +1063,23 @@ public:
         return *this;
     }
 
-    constexpr basic_string_container& operator=(const basic_string_container&) = default;
-    constexpr basic_string_container& operator=(basic_string_container&&) noexcept = default;
+    constexpr basic_string_container& operator=(const basic_string_container& other)
+    {
+        if(const string_view_type* p = std::get_if<string_view_type>(&other.m_data); p)
+            set_view(*p);
+        else
+            m_data = other.m_data;
+        return *this;
+    }
+
+    constexpr basic_string_container& operator=(basic_string_container&& other) noexcept
+    {
+        if(const string_view_type* p = std::get_if<string_view_type>(&other.m_data); p)
+            set_view(*p);
+        else
+            m_data = std::move(other.m_data);
+        return *this;
+    }
 
     basic_string_container& operator=(string_view_type str)
     {
@@ -1530,6 +1546,25 @@ private:
         }
     }
 
+    // Refer to a string without owning it.
+    // A part of the string owned by this container stays owned.
+    constexpr void set_view(string_view_type new_str) noexcept
+    {
+        if(string_type* p = std::get_if<string_type>(&m_data); p)
+        {
+            constexpr std::less_equal<const CharT*> le{};
+            const CharT* const first = p->data();
+            if(le(first, new_str.data()) && le(new_str.data(), first + p->size()))
+            {
+                p->erase(0, static_cast<size_type>(new_str.data() - first));
+                p->resize(new_str.size());
+                return;
+            }
+        }
+
+        emplace_data<string_view_type>(new_str);
+    }
+
     template <typename T, typename... Args>
     constexpr T& emplace_data(Args&&... args) const noexcept(std::is_nothrow_constructible_v<T, Args...>)
     {
-- 
2.43.0


From 174c6dc4872789ff127b471ef92e060a78b3ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 56/72] fix: assigning an independent constant or string to a
 string container borrowed it

---
 include/papilio/utf/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 343ae20..5eca94f 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1086,9 +1086,11 @@ public:
         return assign(str);
     }
 
-    basic_string_container& operator=(independent_proxy<string_view_type> str)
+    template <typename T>
+    requires(std::is_convertible_v<T&, string_view_type>)
+    basic_string_container& operator=(independent_proxy<T> str)
     {
-        return assign(independent, str);
+        return assign(independent, static_cast<string_view_type>(str.get()));
     }
 
     [[nodiscard]]
-- 
2.43.0


From 2041c9a1bdccb4a831d363b435c28d0d628f70d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 57/72] fix: a string container assigned a range of code points
 kept one unit of each

---
 include/papilio/utf/string.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 5eca94f..fcf4453 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1037,7 +1037,12 @@ public:
     template <std::ranges::input_range R>
     basic_string_container& assign_range(R&& r)
     {
-        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
+        // A code point is also convertible to a character
+        constexpr bool is_cp_range =
+            std::is_class_v<std::remove_cvref_t<std::ranges::range_reference_t<R>>> &&
+            std::convertible_to<std::ranges::range_reference_t<R>, utf::codepoint>;
+
+        if constexpr(!is_cp_range && std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
         {
             string_type buf;
             if constexpr(std::ranges::sized_range<R>)
-- 
2.43.0


From e1cd418503ef5e01a165d0339c38c571e6c92ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 58/72] fix: filling a string container read the text it no
 longer refers to

---
 include/papilio/utf/string.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index fcf4453..2fc16f6 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -955,15 +955,14 @@ public:
 
     basic_string_container& assign(size_type count, CharT ch)
     {
-        string_type& str = to_str();
+        string_type& str = to_empty_str();
         str.assign(count, ch);
         return *this;
     }
 
     basic_string_container& assign(size_type count, codepoint cp)
     {
-        string_type& str = to_str();
-        str.clear();
+        string_type& str = to_empty_str();
         if constexpr(char8_like<CharT>)
         {
             for(size_type i = 0; i < count; ++i)
@@ -1553,6 +1552,17 @@ private:
         }
     }
 
+    // The old content is not read, it may be a view that is no longer valid
+    constexpr string_type& to_empty_str()
+    {
+        string_type* const p_str = std::get_if<string_type>(&m_data);
+        if(!p_str)
+            return m_data.template emplace<string_type>();
+
+        p_str->clear();
+        return *p_str;
+    }
+
     // Refer to a string without owning it.
     // A part of the string owned by this container stays owned.
     constexpr void set_view(string_view_type new_str) noexcept
-- 
2.43.0


From 08e204ac0f24a81338bab447f3f9285905f4e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 59/72] fix: a failing copy of an independent format argument
 terminated the program

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index f612767..797c7fb 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1376,7 +1376,7 @@ public:
 
     template <typename T>
     requires(use_handle_v<T>)
-    basic_format_arg(independent_t, T&& val) noexcept
+    basic_format_arg(independent_t, T&& val)
         : m_val(std::in_place_type<handle>, independent, std::forward<T>(val))
     {}
 
-- 
2.43.0


From e45207756aa10a8bcc5b6d2dc6c478e3bc037cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 60/72] fix: the type of the value in a handle could not be
 retrieved

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 797c7fb..67fbebe 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1186,7 +1186,7 @@ public:
         }
 
         [[nodiscard]]
-        std::type_info type()
+        const std::type_info& type() const noexcept
         {
             return ptr()->type();
         }
-- 
2.43.0


From e0408408a1f355815998c7846687788c7cef30c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 61/72] fix: getting a bool from a format argument did not
 compile

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 67fbebe..5805cb2 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1511,6 +1511,8 @@ public:
     {
         if constexpr(char_like<T> || std::is_same_v<std::remove_cvref_t<T>, utf::codepoint>)
             return std::get<utf::codepoint>(val.m_val);
+        else if constexpr(std::is_same_v<std::remove_cvref_t<T>, bool>)
+            return std::get<bool>(val.m_val);
         else if constexpr(std::integral<T>)
             return std::get<detail::convert_int_t<T>>(val.m_val);
         else if constexpr(detail::acceptable_fp<T>)
-- 
2.43.0


From c7b6aa1afc4ce9f57007d5cd5a2254e72ef8f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:26 +0000
Subject: [PATCH 62/72] fix: copying a handle that is not constant made a
 handle to the handle

---
 include/papilio/core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 5805cb2..7d01fc2 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1113,6 +1113,7 @@ public:
         }
 
         template <typename T>
+        requires(!std::is_same_v<std::remove_cvref_t<T>, handle>) // Copying a handle is not a handle to a handle
         explicit handle(T&& val) noexcept
             : handle()
         {
-- 
2.43.0


From d351059b8727c30b59b44ac6fef83423e19c128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:34 +0000
Subject: [PATCH 63/72] fix: a failing copy of an independent format argument
 destroyed a value that was never made

---
 include/papilio/core.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 7d01fc2..5855694 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1122,7 +1122,6 @@ public:
 
         template <typename T>
         handle(independent_t, T&& val)
-            : handle()
         {
             construct<T>(independent, std::forward<T>(val));
         }
-- 
2.43.0


From ba099168af46da6b271d3f98df580eec8c9ee383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 64/72] fix: strings as elements of a formatted range were
 rendered as ranges of characters

---
 include/papilio/core.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 5855694..f6dcd13 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5847,6 +5847,32 @@ private:
     std_formatter_data m_data;
 };
 
+// Strings as elements of another value are strings, not ranges of characters
+
+PAPILIO_EXPORT template <typename CharT, typename Traits, typename Allocator>
+class formatter<std::basic_string<CharT, Traits, Allocator>, CharT> :
+    public formatter<utf::basic_string_container<CharT>, CharT>
+{};
+
+PAPILIO_EXPORT template <typename CharT, typename Traits>
+class formatter<std::basic_string_view<CharT, Traits>, CharT> :
+    public formatter<utf::basic_string_container<CharT>, CharT>
+{};
+
+PAPILIO_EXPORT template <typename CharT>
+class formatter<utf::basic_string_ref<CharT>, CharT> :
+    public formatter<utf::basic_string_container<CharT>, CharT>
+{
+    using my_base = formatter<utf::basic_string_container<CharT>, CharT>;
+
+public:
+    template <typename FormatContext>
+    auto format(const utf::basic_string_ref<CharT>& str, FormatContext& ctx) const -> typename FormatContext::iterator
+    {
+        return my_base::format(utf::basic_string_container<CharT>(str), ctx);
+    }
+};
+
 /**
  * @brief Formatter for pointers.
  *
-- 
2.43.0


From 4278d473e74fd24b25f698f73c6e2ba09d2882bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 65/72] fix: std::array as the element of a formatted range or
 join was ambiguous

---
 include/papilio/formatter/tuple.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/formatter/tuple.hpp b/include/papilio/formatter/tuple.hpp
index 7085346..a6a8cdf 100644
--- a/include/papilio/formatter/tuple.hpp
+++ b/include/papilio/formatter/tuple.hpp
@@ -50,6 +50,7 @@ namespace detail
 } // namespace detail
 
 PAPILIO_EXPORT template <tuple_like Tuple, typename CharT>
+requires(!std::ranges::input_range<Tuple>) // Such as std::array
 class formatter<Tuple, CharT> : public detail::tuple_fmt_base<CharT>
 {
     using my_base = detail::tuple_fmt_base<CharT>;
-- 
2.43.0


From c42313fac5ca7b2d2e9d355dacf2ffaf15e0e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 66/72] fix: joining elements without specifications did not
 compile for wide characters

---
 include/papilio/format.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 5b98f78..b5f6dd9 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -654,9 +654,8 @@ public:
                     append_sep(fmt_ctx, j);
                 first = false;
 
-                fmt_ctx.advance_to(
-                    PAPILIO_NS format_to(fmt_ctx.out(), "{}", i)
-                );
+                using context_t = format_context_traits<FormatContext>;
+                context_t::format_to(fmt_ctx, PAPILIO_TSTRING_VIEW(CharT, "{}"), i);
             }
         }
 
-- 
2.43.0


From a735c6ffd3e6c05d879dc8c6c0cd376d61518a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 67/72] fix: ranges of elements that take no specification did
 not compile

---
 include/papilio/core.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index f6dcd13..110d83b 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5400,6 +5400,8 @@ public:
     auto parse(ParseContext& ctx)
         -> typename ParseContext::iterator
     {
+        using fmt_t = formatter_traits<underlying_formatter_type>;
+
         auto it = ctx.begin();
         if(it == ctx.end())
             return it;
@@ -5440,10 +5442,10 @@ public:
         {
             ++it;
             ctx.advance_to(it);
-            it = m_underlying.parse(ctx);
+            if constexpr(fmt_t::template parsable<ParseContext>())
+                it = m_underlying.parse(ctx);
         }
 
-        using fmt_t = formatter_traits<underlying_formatter_type>;
         if(m_type == U'm')
         {
             fmt_t::try_set_brackets(m_underlying, string_view_type(), string_view_type());
@@ -5506,7 +5508,10 @@ end_parse:
             }
             first = false;
 
-            context_t::advance_to(ctx, m_underlying.format(i, ctx));
+            if constexpr(formatter_traits<underlying_formatter_type>::template parsable<basic_format_parse_context<Context>>())
+                context_t::advance_to(ctx, m_underlying.format(i, ctx));
+            else
+                context_t::format_to(ctx, PAPILIO_TSTRING_VIEW(CharT, "{}"), i);
         }
 
 
-- 
2.43.0


From 5e62e67e49a5770801d0fddbed71026b792c1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 68/72] fix: the specification of the elements of a range was
 replaced by their debug form

---
 include/papilio/core.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 110d83b..40eff61 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5406,6 +5406,7 @@ public:
         if(it == ctx.end())
             return it;
 
+        bool has_underlying_spec = false;
         if(char32_t ch = *it; ch == U'n')
         {
             m_type = U'n';
@@ -5441,6 +5442,7 @@ public:
         if(it != ctx.end() && *it == U':')
         {
             ++it;
+            has_underlying_spec = it != ctx.end() && *it != U'}';
             ctx.advance_to(it);
             if constexpr(fmt_t::template parsable<ParseContext>())
                 it = m_underlying.parse(ctx);
@@ -5453,7 +5455,9 @@ public:
         }
         else if(m_type == U'\0')
         {
-            fmt_t::try_set_debug_format(m_underlying);
+            // The type of an explicit specification must not be overridden
+            if(!has_underlying_spec)
+                fmt_t::try_set_debug_format(m_underlying);
         }
         else if(m_type == U's' && m_debug)
             fmt_t::try_set_debug_format(m_underlying);
-- 
2.43.0


From 68098ca6d9745818453794b0d602619c0ffab982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:49 +0000
Subject: [PATCH 69/72] fix: styled strings, optional values and others without
 a formatter to inherit could not be formatted

---
 include/papilio/color.hpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/papilio/color.hpp b/include/papilio/color.hpp
index 5d9760e..77d9d4a 100644
--- a/include/papilio/color.hpp
+++ b/include/papilio/color.hpp
@@ -228,10 +228,18 @@ namespace detail
         text_style m_style;
         const T* m_ptr;
     };
+
+    // Strings have a dedicated type in the format argument,
+    // and some types (e.g. std::optional) have no formatter that can be inherited by the styled one.
+    template <typename T>
+    concept has_inheritable_formatter =
+        !string_like<T> &&
+        std::semiregular<formatter<T>> &&
+        formatter_traits<formatter<T>>::template parsable<format_parse_context>();
 } // namespace detail
 
 PAPILIO_EXPORT template <typename T>
-requires(formattable<T>)
+requires(formattable<T> && detail::has_inheritable_formatter<T>)
 class formatter<detail::styled_arg<T>, char> : public formatter<T>
 {
 public:
@@ -260,6 +268,27 @@ public:
     }
 };
 
+PAPILIO_EXPORT template <typename T>
+requires(formattable<T> && !detail::has_inheritable_formatter<T>)
+class formatter<detail::styled_arg<T>, char>
+{
+public:
+    template <typename ParseContext, typename FormatContext>
+    auto format(const detail::styled_arg<T>& arg, ParseContext& parse_ctx, FormatContext& ctx) const
+        -> typename FormatContext::iterator
+    {
+        using context_t = format_context_traits<FormatContext>;
+
+        const text_style& st = arg.get_style();
+
+        context_t::advance_to(ctx, st.set(ctx.out()));
+        basic_format_arg<FormatContext>(arg.get()).format(parse_ctx, ctx);
+        context_t::advance_to(ctx, st.reset(ctx.out()));
+
+        return ctx.out();
+    }
+};
+
 /**
  * @brief Wrap a value with styling information.
  *
-- 
2.43.0


From 8fc77fe0e80ec003a410572972390388a1bd665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 70/72] fix: a failure inside a temporary stream gave truncated
 output instead of reaching the caller

---
 include/papilio/core.inl             | 3 +++
 include/papilio/formatter/chrono.hpp | 1 +
 include/papilio/formatter/misc.hpp   | 1 +
 3 files changed, 5 insertions(+)

diff --git a/include/papilio/core.inl b/include/papilio/core.inl
index 5621600..ec58579 100644
--- a/include/papilio/core.inl
+++ b/include/papilio/core.inl
@@ -160,6 +160,7 @@ auto streamable_formatter<T, CharT>::format(const T& val, Context& ctx) const
     if(use_iter_stream)
     {
         os_t os(ctx.out());
+        os.exceptions(std::ios_base::badbit);
 
         setup_locale(os, ctx);
 
@@ -170,6 +171,8 @@ auto streamable_formatter<T, CharT>::format(const T& val, Context& ctx) const
     else
     {
         std::basic_stringstream<CharT> ss;
+        // Otherwise the stream swallows exceptions and leaves truncated text behind
+        ss.exceptions(std::ios_base::badbit);
 
         setup_locale(ss, ctx);
 
diff --git a/include/papilio/formatter/chrono.hpp b/include/papilio/formatter/chrono.hpp
index 42a4440..00956fd 100644
--- a/include/papilio/formatter/chrono.hpp
+++ b/include/papilio/formatter/chrono.hpp
@@ -80,6 +80,7 @@ public:
         else
         {
             std::basic_stringstream<CharT> ss;
+            ss.exceptions(std::ios_base::badbit);
             if(m_data.basic.use_locale)
                 ss.imbue(ctx.getloc());
             else
diff --git a/include/papilio/formatter/misc.hpp b/include/papilio/formatter/misc.hpp
index 14e81e8..29528f0 100644
--- a/include/papilio/formatter/misc.hpp
+++ b/include/papilio/formatter/misc.hpp
@@ -29,6 +29,7 @@ public:
     auto format(const std::thread::id& id, FormatContext& ctx) const
     {
         std::basic_stringstream<CharT> ss;
+        ss.exceptions(std::ios_base::badbit);
         ss << id;
 
         using context_t = format_context_traits<FormatContext>;
-- 
2.43.0


From adb73b3e6c75d1092ba0efb5878cdfafc840a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 71/72] fix: printing to a file whose buffer could not be
 written out succeeded silently

---
 src/os/general.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/os/general.cpp b/src/os/general.cpp
index 3b0438c..037a828 100644
--- a/src/os/general.cpp
+++ b/src/os/general.cpp
@@ -13,14 +13,12 @@ void output_nonconv(
     size_t result = fwrite(
         out.data(), 1, out.size(), file
     );
-    if(result < out.size())
+    if(result < out.size() || fflush(file) != 0)
     {
         throw std::system_error(
             std::make_error_code(std::errc::io_error)
         );
     }
-
-    fflush(file);
 }
 } // namespace papilio::os
 
-- 
2.43.0


From 075615f7b91c6ff3b28343dbc38fbb67feeb68c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:18 +0000
Subject: [PATCH 72/72] fix: running out of memory while reporting an invalid
 attribute ended the program

---
 include/papilio/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/access.hpp b/include/papilio/access.hpp
index b28282d..dabf8d5 100644
--- a/include/papilio/access.hpp
+++ b/include/papilio/access.hpp
@@ -143,7 +143,7 @@ public:
     {}
 
     template <basic_string_like<CharT> String>
-    basic_attribute_name(independent_t, String&& str) noexcept(std::is_nothrow_constructible_v<string_container_type, String>)
+    basic_attribute_name(independent_t, String&& str) noexcept(std::is_nothrow_constructible_v<string_container_type, independent_t, String>)
         : m_name(independent, std::forward<String>(str))
     {}
 
-- 
2.43.0

