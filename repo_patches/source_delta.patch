From 418b559534c96d1fcd9624f16fff2b4531755e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 01/55] fix: accept all uppercase letters in argument and
 attribute names

---
 src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.cpp b/src/core.cpp
index 5cbaee3..6adfae0 100644
--- a/src/core.cpp
+++ b/src/core.cpp
@@ -137,7 +137,7 @@ bool script_base::is_field_name_ch(char32_t ch, bool first) noexcept
         return false;
 
     return digit ||
-           (U'A' <= ch && ch <= U'A') ||
+           (U'A' <= ch && ch <= U'Z') ||
            (U'a' <= ch && ch <= U'z') ||
            ch == U'_' ||
            ch >= 128;
-- 
2.43.0


From 6262c4b30dca1721aec6553e4feb6fd582efc27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 02/55] fix: let errors in the format specification of a
 skipped branch propagate

skip_spec() was noexcept although it runs a parse function that throws,
so an invalid specification in a branch that is not taken terminated the program.
---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3b39259..3e99e2c 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2921,7 +2921,7 @@ struct formatter_traits
      * @param parse_ctx Parse context
      */
     template <typename ParseContext>
-    static void skip_spec(ParseContext& parse_ctx) noexcept
+    static void skip_spec(ParseContext& parse_ctx)
     {
         if constexpr(parsable<ParseContext>())
         {
-- 
2.43.0


From 25612c226c7a9912f8e23aa396c200c3945abc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 03/55] fix: report an unterminated string in a script instead
 of reading past its end

---
 include/papilio/core.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3e99e2c..ef2113c 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3447,6 +3447,9 @@ protected:
             }
         }
 
+        if(it == stop) [[unlikely]]
+            throw_end_of_string();
+
         return std::make_pair(
             string_container_type(start, it),
             std::next(it) // +1 to skip '\''
-- 
2.43.0


From 168a262b9b731f1d9bc505e77ae2e333a8f95139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 04/55] fix: do not read past the end of a script that ends
 inside an index

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index ef2113c..ee6c70c 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3475,7 +3475,7 @@ protected:
                 start, stop
             );
 
-            if(*next_it == U':')
+            if(next_it != stop && *next_it == U':')
             {
                 ++next_it;
                 if(next_it == stop) [[unlikely]]
-- 
2.43.0


From 9a2432860e7704c10a8a3de9da7febefd4204de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 05/55] fix: do not dereference the end iterator when looking
 up a missing key in fixed_flat_map

---
 include/papilio/container.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 80079e0..afa6d48 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1378,28 +1378,28 @@ public:
     iterator find(const Key& k)
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     iterator find(const K& k) requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
     const_iterator find(const Key& k) const
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     const_iterator find(const K& k) const requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
-- 
2.43.0


From e8fe6f6d19366ac9ad4e5ad869151baf80954b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 06/55] fix: reject integers of a format string that do not fit
 instead of overflowing

---
 include/papilio/core.hpp | 43 +++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index ee6c70c..62b1331 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3315,7 +3315,6 @@ protected:
         if(start == stop) [[unlikely]]
             throw_end_of_string();
 
-        T value = 0;
         bool negative = false;
         if(*start == U'-')
         {
@@ -3323,24 +3322,35 @@ protected:
             ++start;
         }
 
+        if constexpr(!std::is_signed_v<T>)
+        {
+            if(negative)
+                throw std::out_of_range("integer value out of range");
+        }
+
+        using unsigned_t = std::make_unsigned_t<T>;
+        // Absolute value of the limit
+        const unsigned_t limit = static_cast<unsigned_t>(
+            static_cast<unsigned_t>(std::numeric_limits<T>::max()) + (negative ? 1U : 0U)
+        );
+        unsigned_t abs_value = 0;
+
         while(start != stop)
         {
             char32_t ch = *start;
             if(!utf::is_digit(ch))
                 break;
 
-            value *= 10;
-            value += ch - U'0';
+            const unsigned_t digit = static_cast<unsigned_t>(ch - U'0');
+            if(abs_value > (limit - digit) / 10)
+                throw std::out_of_range("integer value out of range");
+            abs_value = static_cast<unsigned_t>(abs_value * 10 + digit);
             ++start;
         }
 
-        if(negative)
-        {
-            if constexpr(std::is_signed_v<T>)
-                value = -value;
-            else
-                throw std::out_of_range("integer value out of range");
-        }
+        const T value = static_cast<T>(
+            negative ? static_cast<unsigned_t>(0U - abs_value) : abs_value
+        );
 
         return std::make_pair(value, start);
     }
@@ -4098,8 +4108,10 @@ private:
                 if(!utf::is_digit(ch))
                     break;
 
-                idx *= 10;
-                idx += static_cast<std::size_t>(ch - U'0');
+                const std::size_t digit = static_cast<std::size_t>(ch - U'0');
+                if(idx > (static_cast<std::size_t>(std::numeric_limits<ssize_t>::max()) - digit) / 10)
+                    throw format_error("invalid arg id");
+                idx = idx * 10 + digit;
                 ++start;
             }
 
@@ -4326,8 +4338,11 @@ namespace detail
                     char32_t ch = *start;
                     if(!utf::is_digit(ch))
                         break;
-                    val *= 10;
-                    val += static_cast<std::size_t>(ch - U'0');
+
+                    const std::size_t digit = static_cast<std::size_t>(ch - U'0');
+                    if(val > (static_cast<std::size_t>(std::numeric_limits<ssize_t>::max()) - digit) / 10)
+                        throw format_error("invalid format");
+                    val = val * 10 + digit;
 
                     ++start;
                 }
-- 
2.43.0


From 938cddd5fc220536e42183430ffffabbc47ef869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 07/55] fix: small_vector loses elements when inserting one of
 its own and reads freed memory when appending to it

Appending a sized range reserved too little memory, inserting an element of the
container itself read a moved-from or destroyed object, and the copy
constructor did not compile.
---
 include/papilio/container.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index afa6d48..736211e 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -441,8 +441,12 @@ public:
     {
         if(m_p_end == m_p_capacity)
         {
+            // The arguments may refer to an element of this container,
+            // so the new value must be created before moving the elements.
+            value_type tmp(std::forward<Args>(args)...);
             size_type current = this->size();
             reserve(this->get_mem_size(current, current + 1));
+            return emplace_back_impl(std::move(tmp));
         }
         return emplace_back_impl(std::forward<Args>(args)...);
     }
@@ -496,9 +500,11 @@ public:
         }
         else if(count > this->size())
         {
+            // The value may be an element of this container
+            const value_type tmp(val);
             reserve(count);
             while(this->size() != count)
-                emplace_back_impl(val);
+                emplace_back_impl(tmp);
         }
     }
 
@@ -568,6 +574,12 @@ private:
         return m_data.second();
     }
 
+    // get reference of the allocator
+    const allocator_type& get_alloc() const noexcept
+    {
+        return m_data.second();
+    }
+
     void set_ptrs(pointer p_begin, size_type capacity_offset) noexcept
     {
         m_p_begin = p_begin;
@@ -626,11 +638,15 @@ private:
     template <typename... Args>
     iterator emplace_impl(size_type off, Args&&... args)
     {
+        // The arguments may refer to an element of this container,
+        // so the new value must be created before moving the elements.
+        value_type tmp(std::forward<Args>(args)...);
+
         reserve(this->size() + 1);
 
         if(off == this->size())
         {
-            emplace_back_impl(std::forward<Args>(args)...);
+            emplace_back_impl(std::move(tmp));
             return std::prev(this->end());
         }
 
@@ -641,7 +657,7 @@ private:
         auto move_src_begin = this->begin() + off;
         std::move_backward(move_src_begin, move_src_end, move_dst);
 
-        *move_src_begin = value_type(std::forward<Args>(args)...);
+        *move_src_begin = std::move(tmp);
 
         return this->begin() + static_cast<difference_type>(off);
     }
@@ -853,7 +869,7 @@ private:
             Iterator>;
         if constexpr(sized)
         {
-            reserve(static_cast<size_type>(last - first));
+            reserve(this->size() + static_cast<size_type>(last - first));
             for(auto it = first; it != last; ++it)
             {
                 emplace_back_impl(*it);
-- 
2.43.0


From f27c361fefc6d0f31af95c50ad1ec53f9fd6c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 08/55] fix: fixed_vector::emplace inserts the wrong value when
 given one of its own elements

---
 include/papilio/container.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 736211e..3f08fb4 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1092,6 +1092,9 @@ public:
             throw_length_error();
         }
 
+        // The arguments may refer to an element of this container
+        value_type tmp(std::forward<Args>(args)...);
+
         emplace_back(std::move(back()));
         if(size() > 2)
         {
@@ -1102,7 +1105,7 @@ public:
         }
 
         iterator nonconst_pos = const_cast<iterator>(pos);
-        *nonconst_pos = std::move(value_type(std::forward<Args>(args)...));
+        *nonconst_pos = std::move(tmp);
 
         return nonconst_pos;
     }
-- 
2.43.0


From 122dc12690e8e4ee429ebdb7ed8b347e230e0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 09/55] fix: make optional_unique_ptr assignable, keep its
 deleter when moved or swapped, and own arrays taken from a unique_ptr

---
 include/papilio/memory.hpp | 50 ++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9d9bea8..f970988 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -178,7 +178,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
@@ -195,7 +195,7 @@ public:
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
     }
 
     ~optional_unique_ptr()
@@ -205,7 +205,22 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != std::addressof(other))
+        {
+            reset(other.get(), false);
+            m_del = other.get_deleter();
+        }
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != std::addressof(other))
+        {
+            const bool ownership = other.has_ownership();
+            reset(other.release(), ownership);
+            m_del = std::move(other.m_del);
+        }
         return *this;
     }
 
@@ -280,6 +295,8 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        if constexpr(std::is_same_v<Deleter, D>)
+            swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
@@ -356,7 +373,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     template <typename U>
@@ -366,10 +383,10 @@ public:
     {}
 
     template <typename D>
-    optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
+    optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = !m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
     }
 
     ~optional_unique_ptr()
@@ -379,7 +396,22 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != std::addressof(other))
+        {
+            reset(other.get(), false);
+            m_del = other.get_deleter();
+        }
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != std::addressof(other))
+        {
+            const bool ownership = other.has_ownership();
+            reset(other.release(), ownership);
+            m_del = std::move(other.m_del);
+        }
         return *this;
     }
 
@@ -412,7 +444,7 @@ public:
     }
 
     template <typename D>
-    void reset(std::unique_ptr<T, D>&& ptr) noexcept
+    void reset(std::unique_ptr<T[], D>&& ptr) noexcept
     {
         reset(nullptr);
         if(ptr)
@@ -449,6 +481,8 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        if constexpr(std::is_same_v<Deleter, D>)
+            swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
-- 
2.43.0


From 2d224cd141b0786c4be512e17d6c7b3b80df0422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 10/55] fix: formatted_range yields a spurious character for
 segments without output and loses its position when moved

---
 include/papilio/format.hpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 207b09f..5a5654a 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -67,7 +67,10 @@ public:
               m_intp(),
               m_intp_ctx(m_intp.create_context(other.m_intp_ctx.input_context(), m_fmt_ctx)),
               m_buf(std::move(other.m_buf)),
-              m_offset(std::exchange(other.m_offset, 0)) {}
+              m_offset(std::exchange(other.m_offset, 0))
+        {
+            m_intp_ctx.advance_input_to(other.m_intp_ctx.input());
+        }
 
         const_iterator(parse_context& ictx)
             : m_fmt_ctx(std::back_inserter(m_buf), ictx.get_args()),
@@ -78,15 +81,16 @@ public:
         {
             m_fmt_ctx = format_context_type(std::back_inserter(m_buf), rhs.m_intp_ctx.input_context().get_args());
             m_intp_ctx = m_intp.create_context(rhs.m_intp_ctx.input_context(), m_fmt_ctx);
+            m_intp_ctx.advance_input_to(rhs.m_intp_ctx.input());
             m_buf = std::move(rhs.m_buf);
             m_offset = std::exchange(rhs.m_offset, 0);
+
+            return *this;
         }
 
         bool operator==(sentinel_t) const
         {
-            if(m_offset < m_buf.size())
-                return false;
-            return m_intp_ctx.input_at_end();
+            return !fill_buf();
         }
 
         /**
@@ -105,14 +109,30 @@ public:
 
         CharT operator*() const
         {
-            if(m_offset >= m_buf.size())
-            {
-                m_intp.run_n(m_intp_ctx, m_buf.size() - m_offset + 1);
-            }
+            fill_buf();
             return m_buf[m_offset];
         }
 
     private:
+        /**
+         * @brief Run the interpreter until the current character is available.
+         *
+         * @note A segment of the format string may produce no output.
+         *
+         * @return False if all output has been consumed
+         */
+        bool fill_buf() const
+        {
+            while(m_offset >= m_buf.size())
+            {
+                if(m_intp_ctx.input_at_end())
+                    return false;
+                m_intp.run_once(m_intp_ctx);
+            }
+
+            return true;
+        }
+
         mutable format_context_type m_fmt_ctx;
         mutable intp_t m_intp;
         mutable intp_ctx_t m_intp_ctx;
-- 
2.43.0


From d698136ada4786a273f3a16ab825f46f253815b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 11/55] fix: clamp slices of contiguous ranges that start
 before the first element

---
 include/papilio/accessor/ranges.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index f336043..07ed61a 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -94,6 +94,9 @@ struct contiguous_range_accessor
         std::size_t sz = stdr::size(rng);
         s = s.normalize(sz);
 
+        if(s.first < 0)
+            s.first = 0;
+
         if(std::cmp_greater_equal(s.first, sz))
             return format_arg_type();
         else if(std::cmp_greater(s.second, sz))
@@ -102,7 +105,7 @@ struct contiguous_range_accessor
         if(s.first >= s.second)
             return format_arg_type();
 
-        return span_t(ptr + s.first, s.length());
+        return span_t(ptr + s.first, static_cast<std::size_t>(s.second - s.first));
     }
 
     [[nodiscard]]
-- 
2.43.0


From acd2aa9b98ab72d893900fd37076a25a26fe8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 12/55] fix: do not let values reached through a map or a slice
 of a temporary string dangle

Also stop looking up truncated integer keys.
---
 include/papilio/accessor/ranges.hpp | 30 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index 07ed61a..8c616f8 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -43,7 +43,11 @@ struct accessor<utf::basic_string_container<typename Context::char_type>, Contex
     [[nodiscard]]
     static string_container_type index(const string_container_type& str, index_range s)
     {
-        return str.template substr<utf::substr_behavior::empty_string>(s);
+        auto result = str.template substr<utf::substr_behavior::empty_string>(s);
+        // The source may be a temporary value in a chained access
+        if(str.has_ownership())
+            result.obtain_ownership();
+        return result;
     }
 
     [[nodiscard]]
@@ -214,10 +218,14 @@ struct map_accessor
                 return format_arg_type();
         }
 
-        auto it = m.find(static_cast<key_type>(i));
-        return it != m.end() ?
-                   static_cast<mapped_type>(it->second) :
-                   format_arg_type();
+        const key_type k = static_cast<key_type>(i);
+        if(static_cast<ssize_t>(k) != i) // Not representable in the key type
+            return format_arg_type();
+
+        auto it = m.find(k);
+        if(it == m.end())
+            return format_arg_type();
+        return it->second;
     }
 
     [[nodiscard]]
@@ -227,16 +235,16 @@ struct map_accessor
         if constexpr(is_transparent_v<typename MapType::key_compare>)
         {
             auto it = m.find(k);
-            return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
-                       format_arg_type();
+            if(it == m.end())
+                return format_arg_type();
+            return it->second;
         }
         else
         {
             auto it = m.find(static_cast<key_type>(k));
-            return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
-                       format_arg_type();
+            if(it == m.end())
+                return format_arg_type();
+            return it->second;
         }
     }
 
-- 
2.43.0


From e5ac66761d957e29bd3a4c024c521cb871885ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 13/55] fix: correct repeated-character assignment, element
 iteration and replacement of string_container

---
 include/papilio/utf/codepoint.hpp |  2 +-
 include/papilio/utf/string.hpp    | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 94889f8..6b3e5b1 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -433,7 +433,7 @@ public:
         {
             str.replace(pos, count, std::basic_string_view<CharT>(*this));
         }
-        else if(char16_like<CharT>)
+        else if constexpr(char16_like<CharT>)
         {
             auto result = decoder<CharT>::from_codepoint(*this);
             str.replace(pos, count, result.get());
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9f9585c..81d1239 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -963,11 +963,13 @@ public:
     {
         string_type& str = to_str();
         str.assign(count, ch);
+        return *this;
     }
 
     basic_string_container& assign(size_type count, codepoint cp)
     {
         string_type& str = to_str();
+        str.clear();
         if constexpr(char8_like<CharT>)
         {
             for(size_type i = 0; i < count; ++i)
@@ -1007,7 +1009,8 @@ public:
 
     basic_string_container& assign(independent_t, string_view_type str)
     {
-        emplace_data<string_type>(str);
+        string_type tmp(str); // The view may refer to the current content
+        emplace_data<string_type>(std::move(tmp));
         return *this;
     }
 
@@ -1019,7 +1022,8 @@ public:
 
     basic_string_container& assign(independent_t, const string_type& str)
     {
-        emplace_data<string_type>(str);
+        string_type tmp(str); // The string may be the current content
+        emplace_data<string_type>(std::move(tmp));
         return *this;
     }
 
@@ -1036,7 +1040,7 @@ public:
     }
 
     template <std::ranges::input_range R>
-    basic_string_container& assign_range(R&& r) noexcept
+    basic_string_container& assign_range(R&& r)
     {
         if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
         {
@@ -1449,7 +1453,7 @@ public:
         constexpr void next_pos()
         {
             PAPILIO_ASSERT(*this);
-            m_offset += m_str->ch_size_for_cp(to_address()[m_offset]);
+            m_offset += m_str->ch_size_for_cp(*to_address());
             if(m_offset > m_str->size())
                 m_offset = m_str->size();
         }
-- 
2.43.0


From 1c80c832760c55a3c283ee6f1cb380efb28c2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 14/55] fix: do not read out of bounds on malformed or
 truncated UTF sequences and classify surrogates correctly

---
 include/papilio/utf/codepoint.hpp | 25 +++++++++++++++++++------
 include/papilio/utf/codepoint.inl | 10 ++++++----
 include/papilio/utf/stralgo.hpp   | 13 ++++++-------
 include/papilio/utf/string.hpp    | 13 ++++++++-----
 4 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 6b3e5b1..a636e22 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -225,6 +225,8 @@ public:
         PAPILIO_ASSERT(len <= 4);
         for(std::uint8_t i = 0; i < len; ++i)
             m_data[i] = ptr[i];
+        for(std::uint8_t i = len; i < 4; ++i)
+            m_data[i] = 0;
 
         return *this;
     }
@@ -239,6 +241,8 @@ public:
         PAPILIO_ASSERT(len <= 4);
         for(std::uint8_t i = 0; i < len; ++i)
             m_data[i] = static_cast<char8_t>(ptr[i]);
+        for(std::uint8_t i = len; i < 4; ++i)
+            m_data[i] = 0;
 
         return *this;
     }
@@ -265,7 +269,12 @@ public:
     [[nodiscard]]
     constexpr std::uint8_t size_bytes() const noexcept
     {
-        return byte_count(m_data[0]);
+        const std::uint8_t count = byte_count(m_data[0]);
+        std::uint8_t result = 1;
+        // The sequence may be truncated
+        while(result < count && is_trailing_byte(m_data[result]))
+            ++result;
+        return result;
     }
 
     constexpr operator char32_t() const noexcept
@@ -506,10 +515,7 @@ namespace detail
             {
                 m_offset = next_offset;
                 char8_t ch = static_cast<char8_t>(m_str[next_offset]);
-                if(is_leading_byte(ch))
-                    m_len = byte_count(ch);
-                else
-                    m_len = 1;
+                m_len = clamp_len(byte_count(ch));
             }
             else
             {
@@ -535,7 +541,7 @@ namespace detail
                 else if(PAPILIO_NS utf::is_leading_byte(ch))
                 {
                     m_offset = next_offset;
-                    m_len = PAPILIO_NS utf::byte_count(ch);
+                    m_len = clamp_len(PAPILIO_NS utf::byte_count(ch));
                     break;
                 }
                 else if(next_offset == 0)
@@ -575,6 +581,13 @@ namespace detail
         string_view_type m_str;
         size_type m_offset = 0;
         std::uint8_t m_len = 0;
+
+        // The last sequence of the string may be truncated
+        constexpr std::uint8_t clamp_len(std::uint8_t len) const noexcept
+        {
+            const size_type remaining = m_str.size() - m_offset;
+            return remaining < len ? static_cast<std::uint8_t>(remaining) : len;
+        }
     };
 
     template <char16_like CharT>
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 142cbee..5a53aba 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -99,7 +99,7 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char32_t>::from_codepoint(co
         result <<= 6;
         result |= bytes[3] & 0b0011'1111;
 
-        return std::make_pair(result, std::uint8_t(3));
+        return std::make_pair(result, std::uint8_t(4));
     }
 
     return std::make_pair(U'\0', std::uint8_t(0));
@@ -115,6 +115,8 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char8_t>::to_codepoint(std:
     if(ch.empty()) [[unlikely]]
         return std::make_pair(codepoint(), std::uint8_t(0));
     std::uint8_t len = size_bytes(ch[0]);
+    if(len > ch.size()) [[unlikely]]
+        len = static_cast<std::uint8_t>(ch.size());
     return std::make_pair(codepoint(ch.data(), len), len);
 }
 
@@ -201,9 +203,9 @@ constexpr codepoint_iterator<CharU> codepoint_begin(std::basic_string_view<CharU
     if constexpr(char8_like<CharU>)
     {
         std::uint8_t ch = static_cast<std::uint8_t>(str[0]);
-        std::uint8_t ch_size = PAPILIO_NS utf::is_leading_byte(ch) ?
-                                   PAPILIO_NS utf::byte_count(ch) :
-                                   1;
+        std::uint8_t ch_size = PAPILIO_NS utf::byte_count(ch);
+        if(ch_size > str.size()) [[unlikely]]
+            ch_size = static_cast<std::uint8_t>(str.size());
         return result_t(str, 0, ch_size);
     }
     else if constexpr(char16_like<CharU>)
diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f5adb4c..94c43db 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -69,8 +69,6 @@ constexpr inline bool is_trailing_byte(std::uint8_t ch) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 {
-    PAPILIO_ASSERT(PAPILIO_NS utf::is_leading_byte(leading_byte));
-
     if((leading_byte & 0b1000'0000) == 0)
         return 1;
     else if((leading_byte & 0b1110'0000) == 0b1100'0000)
@@ -80,13 +78,14 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
     else if((leading_byte & 0b1111'1000) == 0b1111'0000)
         return 4;
 
-    PAPILIO_UNREACHABLE();
+    // Invalid byte
+    return 1;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline bool is_high_surrogate(std::uint16_t ch) noexcept
 {
-    return 0xD7FF <= ch && ch <= 0xE000;
+    return 0xD800 <= ch && ch <= 0xDBFF;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
@@ -122,7 +121,7 @@ constexpr std::size_t strlen(
     std::size_t result = 0;
     std::uint8_t bytes = 0;
     std::size_t i = 0;
-    for(; str[i] != CharT(0) && i < max_chars;)
+    for(; i < max_chars && str[i] != CharT(0);)
     {
         if(bytes != 0)
         {
@@ -273,8 +272,6 @@ constexpr std::size_t strlen(
             }
             else
             {
-                PAPILIO_ASSERT(PAPILIO_NS utf::is_low_surrogate(ch));
-
                 prev_is_high = false;
                 ++result;
             }
@@ -314,6 +311,8 @@ constexpr inline std::size_t strlen(const CharT* str, std::size_t max_chars) noe
         if(str[i] == CharT(0))
             return i;
     }
+
+    return max_chars;
 }
 
 PAPILIO_EXPORT template <
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 81d1239..d6fd2ec 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -105,7 +105,10 @@ private:
     constexpr const_reference make_const_reference(size_type off) const noexcept
     {
         const CharT* p = data() + off;
-        return const_reference(p, ch_size_for_cp(*p));
+        std::uint8_t ch_size = ch_size_for_cp(*p);
+        if(ch_size > size() - off) [[unlikely]]
+            ch_size = static_cast<std::uint8_t>(size() - off);
+        return const_reference(p, ch_size);
     }
 
 public:
@@ -323,12 +326,10 @@ public:
             }
             else
             {
-                idx = -idx; // abs(idx)
-
                 const auto sentinel = cbegin();
 
                 const_iterator it = cend();
-                for(index_range::index_type i = 0; i < idx; ++i)
+                for(index_range::index_type i = idx; i < 0; ++i)
                 {
                     if(it == sentinel)
                     {
@@ -394,11 +395,13 @@ protected:
         if constexpr(char8_like<CharT>)
         {
             std::uint8_t ch_size = ch_size_for_cp(str[off]);
+            if(ch_size > str.size() - off) [[unlikely]]
+                ch_size = static_cast<std::uint8_t>(str.size() - off);
             return codepoint(str.data() + off, ch_size);
         }
         else if constexpr(char16_like<CharT>)
         {
-            std::uint8_t ch_size = ch_size_for_cp(str[off]) ? 2 : 1;
+            std::uint8_t ch_size = ch_size_for_cp(str[off]);
             return decoder<CharT>::to_codepoint(str.substr(off, ch_size)).first;
         }
         else // char32_like
-- 
2.43.0


From a12580188dfd0413df1d2f5f4dc749a3b7c9360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 15/55] fix: align characters to the left by default instead of
 running into undefined behavior

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 62b1331..2e996a6 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5117,6 +5117,8 @@ public:
         data() = dt;
         data().type = dt.type_or(U'c');
         data().fill = dt.fill_or(U' ');
+        if(data().align == format_align::default_align)
+            data().align = format_align::left;
     }
 
     void set_debug_format() noexcept
-- 
2.43.0


From 67741b71237400cf2cc6f3ef969a49491e2b34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 16/55] fix: reject integers that are not code points when
 formatting them as a character

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 2e996a6..9dfb59a 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5559,7 +5559,7 @@ public:
     {
         if(m_data.type == U'c')
         {
-            if(std::cmp_greater(val, std::numeric_limits<std::uint32_t>::max()))
+            if(std::cmp_less(val, 0) || std::cmp_greater(val, 0x10FFFF))
                 throw format_error("integer value out of range");
 
             codepoint_formatter fmt;
-- 
2.43.0


From 2a92581f612ab732ea20e82b5f6dff0d4baa1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 17/55] fix: escape malformed UTF sequences as their code units
 only

---
 include/papilio/core.hpp | 69 ++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 9dfb59a..03a8417 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2481,56 +2481,48 @@ private:
         {
             if(PAPILIO_NS utf::is_leading_byte(str[i]))
             {
-                std::uint8_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
-                if(i + size_bytes > str.size())
+                if(static_cast<std::uint8_t>(str[i]) >= 0b1111'1000)
                 {
-                    for(std::size_t j = i; j < str.size(); ++j)
-                    {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(str[j]), false);
-                    }
-                    return;
+                    // Not the leading byte of any sequence
+                    append_hex_digits(ctx, static_cast<std::uint8_t>(str[i]), false);
+                    ++i;
+                    continue;
                 }
 
-                if(has_esc_seq<true, false>(str[i]))
+                if(has_esc_seq<true, false>(static_cast<std::uint8_t>(str[i])))
                 {
-                    append_as_esc_seq<true, false>(ctx, str[i]);
+                    append_as_esc_seq<true, false>(ctx, static_cast<std::uint8_t>(str[i]));
+                    ++i;
+                    continue;
                 }
-                else if(std::all_of(
-                            str.begin() + i + 1,
-                            str.begin() + i + size_bytes,
-                            &utf::is_trailing_byte
-                        ))
+
+                const std::size_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
+                const auto start = str.begin() + i;
+                // The last sequence of the string may be truncated
+                const auto stop = std::find_if_not(
+                    start + 1,
+                    start + std::min(size_bytes, str.size() - i),
+                    &utf::is_trailing_byte
+                );
+                const std::size_t actual_size = static_cast<std::size_t>(std::distance(start, stop));
+
+                if(actual_size == size_bytes)
                 {
-                    append(
-                        ctx,
-                        string_view_type(
-                            str.begin() + i,
-                            str.begin() + i + size_bytes
-                        )
-                    );
+                    append(ctx, string_view_type(start, stop));
                 }
                 else
                 {
-                    auto stop = std::find_if_not(
-                        str.begin() + i + 1,
-                        str.begin() + i + size_bytes,
-                        &utf::is_trailing_byte
-                    );
-
-                    for(auto it = str.begin() + i; it != stop; ++it)
+                    for(auto it = start; it != stop; ++it)
                     {
                         append_hex_digits(ctx, static_cast<std::uint8_t>(*it), false);
                     }
-
-                    i += std::distance(str.begin() + i, stop);
-                    continue;
                 }
 
-                i += size_bytes;
+                i += actual_size;
             }
             else
             {
-                append_hex_digits(ctx, str[i], false);
+                append_hex_digits(ctx, static_cast<std::uint8_t>(str[i]), false);
                 ++i;
             }
         }
@@ -2550,21 +2542,16 @@ private:
             }
             else if(PAPILIO_NS utf::is_high_surrogate(ch))
             {
-                if(i + 1 >= str.size())
-                {
-                    append_hex_digits(ctx, ch, false);
-                    return;
-                }
-                else if(!PAPILIO_NS utf::is_low_surrogate(str[i + 1]))
+                if(i + 1 >= str.size() || !PAPILIO_NS utf::is_low_surrogate(str[i + 1]))
                 {
                     append_hex_digits(ctx, ch, false);
+                    ++i;
                 }
                 else
                 {
                     append(ctx, str.begin() + i, str.begin() + i + 2);
+                    i += 2;
                 }
-
-                i += 2;
             }
             else
             {
-- 
2.43.0


From 5052fa4c300ee20a0cc3d28988a353ba46589acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 18/55] fix: format floating point values whose text is longer
 than 32 characters

---
 include/papilio/core.hpp | 109 ++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 70 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 03a8417..07051b6 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4887,16 +4887,14 @@ public:
     {
         using context_t = format_context_traits<FormatContext>;
 
-        CharT buf[buf_size];
-
-        std::size_t fp_size = 0;
+        buffer_type buf;
 
         bool neg = std::signbit(val);
         val = std::abs(val);
 
-        fp_size = conv<CharT>(buf, val);
+        conv(buf, val);
 
-        std::size_t used = fp_size;
+        std::size_t used = buf.size();
 
         switch(data().sign)
         {
@@ -4939,7 +4937,7 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        context_t::append(ctx, buf, buf + fp_size);
+        context_t::append(ctx, buf.begin(), buf.end());
 
         fill(ctx, right);
 
@@ -4947,7 +4945,8 @@ public:
     }
 
 private:
-    static constexpr std::size_t buf_size = 32;
+    // Large values and precisions may require more space
+    using buffer_type = small_vector<char, 32>;
 
     std::pair<std::chars_format, bool> get_chars_fmt() const
     {
@@ -4990,47 +4989,26 @@ private:
         return std::make_pair(ch_fmt, uppercase);
     }
 
-    template <char8_like U>
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
+    void conv(buffer_type& buf, T val) const
     {
         using namespace std::literals;
 
-        std::to_chars_result result;
         auto [ch_fmt, uppercase] = get_chars_fmt();
 
         if(std::isinf(val)) [[unlikely]]
         {
-            if(uppercase)
-            {
-                buf[0] = 'I';
-                buf[1] = 'N';
-                buf[2] = 'F';
-            }
-            else
-            {
-                buf[0] = 'i';
-                buf[1] = 'n';
-                buf[2] = 'f';
-            }
-            return 3;
+            buf.append_range(uppercase ? "INF"sv : "inf"sv);
+            return;
         }
         else if(std::isnan(val)) [[unlikely]]
         {
-            if(uppercase)
-            {
-                buf[0] = 'N';
-                buf[1] = 'A';
-                buf[2] = 'N';
-            }
-            else
-            {
-                buf[0] = 'n';
-                buf[1] = 'a';
-                buf[2] = 'n';
-            }
-            return 3;
+            buf.append_range(uppercase ? "NAN"sv : "nan"sv);
+            return;
         }
 
+        if(std::cmp_greater(data().precision, std::numeric_limits<int>::max())) [[unlikely]]
+            throw format_error("value too large");
+
         int precision = static_cast<int>(data().precision);
         if(precision == 0 &&
            U"fFeEgG"sv.find(data().type) != std::u32string::npos)
@@ -5038,49 +5016,40 @@ private:
             precision = 6;
         }
 
-        char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
-        char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
+        buf.resize(buf.static_capacity(), '\0');
+        while(true)
+        {
+            char* start = buf.data();
+            char* stop = buf.data() + buf.size();
 
-        if(precision == 0)
-            result = std::to_chars(start, stop, val, ch_fmt);
-        else
-            result = std::to_chars(start, stop, val, ch_fmt, precision);
+            std::to_chars_result result;
+            if(precision == 0)
+                result = std::to_chars(start, stop, val, ch_fmt);
+            else
+                result = std::to_chars(start, stop, val, ch_fmt, precision);
 
-        if(result.ec == std::errc::value_too_large) [[unlikely]]
-        {
-            throw format_error("value too large");
-        }
-        else if(result.ec != std::errc())
-        {
-            PAPILIO_UNREACHABLE();
-        }
+            if(result.ec == std::errc::value_too_large) [[unlikely]]
+            {
+                buf.resize(buf.size() * 2, '\0');
+                continue;
+            }
+            else if(result.ec != std::errc())
+            {
+                PAPILIO_UNREACHABLE();
+            }
 
-        std::size_t size = static_cast<std::size_t>(
-            result.ptr - std::bit_cast<char*>(buf.data())
-        );
+            buf.resize(static_cast<std::size_t>(result.ptr - start), '\0');
+            break;
+        }
 
         if(uppercase)
         {
-            for(std::size_t i = 0; i < size; ++i)
+            for(char& ch : buf)
             {
-                if('a' <= buf[i] && buf[i] <= 'z')
-                    buf[i] -= 'a' - 'A'; // to upper
+                if('a' <= ch && ch <= 'z')
+                    ch -= 'a' - 'A'; // to upper
             }
         }
-
-        return size;
-    }
-
-    template <typename U>
-    requires(!char8_like<U>)
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
-    {
-        char narrow_buf[buf_size];
-        std::size_t size = conv<char>(narrow_buf, val);
-        PAPILIO_ASSERT(size <= buf.size());
-
-        std::copy_n(narrow_buf, size, buf.begin());
-        return size;
     }
 };
 
-- 
2.43.0


From 2498ac45b026d1ccc02e6726c422527ae4f1290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 19/55] fix: honor the zero flag when formatting floating point
 values

---
 include/papilio/core.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 07051b6..bfe88ce 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4877,7 +4877,9 @@ public:
 
         data() = dt;
         data().fill = dt.fill_or(U' ');
-        if(data().align == format_align::default_align)
+        if(data().align != format_align::default_align)
+            data().fill_zero = false;
+        else
             data().align = format_align::right;
     }
 
@@ -4913,7 +4915,12 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        auto [left, right] = fill_size(used);
+        // Infinity and NaN are never filled with zeros
+        const bool fill_zero = data().fill_zero && std::isfinite(val);
+
+        auto [left, right] = fill_zero ?
+                                 std::make_pair<std::size_t, std::size_t>(0, 0) :
+                                 fill_size(used);
 
         fill(ctx, left);
 
@@ -4937,6 +4944,15 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
+        if(fill_zero && used < data().width)
+        {
+            context_t::append(
+                ctx,
+                static_cast<CharT>('0'),
+                data().width - used
+            );
+        }
+
         context_t::append(ctx, buf.begin(), buf.end());
 
         fill(ctx, right);
-- 
2.43.0


From 12d3ab266f3fa44cb2a96adfe8528a89ef04931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 20/55] fix: format strings inside ranges as strings instead of
 as ranges of characters

---
 include/papilio/core.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index bfe88ce..e750e8c 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5781,6 +5781,33 @@ private:
     std_formatter_data m_data;
 };
 
+/**
+ * @brief Formatter for other string types, for example, when they are elements of a range.
+ *
+ * @tparam CharT Character type
+ *
+ * Accepted format types are the same as the formatter for `utf::basic_string_container`.
+ */
+PAPILIO_EXPORT template <typename CharT>
+class formatter<std::basic_string_view<CharT>, CharT> : public formatter<utf::basic_string_container<CharT>, CharT>
+{
+public:
+    template <typename FormatContext>
+    auto format(std::basic_string_view<CharT> str, FormatContext& ctx) const -> typename FormatContext::iterator
+    {
+        return formatter<utf::basic_string_container<CharT>, CharT>::format(str, ctx);
+    }
+};
+
+PAPILIO_EXPORT template <typename CharT, typename Allocator>
+class formatter<std::basic_string<CharT, std::char_traits<CharT>, Allocator>, CharT> :
+    public formatter<std::basic_string_view<CharT>, CharT>
+{};
+
+PAPILIO_EXPORT template <typename CharT>
+class formatter<utf::basic_string_ref<CharT>, CharT> : public formatter<std::basic_string_view<CharT>, CharT>
+{};
+
 /**
  * @brief Formatter for pointers.
  *
-- 
2.43.0


From d0e7a51998a159bead037f97e02785aa54c79ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 21/55] fix: keep code points whole when assigning a range of
 them to a string_container

---
 include/papilio/utf/string.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index d6fd2ec..8612a3e 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1045,7 +1045,13 @@ public:
     template <std::ranges::input_range R>
     basic_string_container& assign_range(R&& r)
     {
-        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
+        using elem_t = std::remove_cvref_t<std::ranges::range_reference_t<R>>;
+        // These convert to CharT as well, but a code point may need several code units.
+        constexpr bool is_codepoint =
+            std::is_same_v<elem_t, utf::codepoint> ||
+            (std::is_same_v<elem_t, char32_t> && sizeof(CharT) < sizeof(char32_t));
+
+        if constexpr(!is_codepoint && std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
         {
             string_type buf;
             if constexpr(std::ranges::sized_range<R>)
-- 
2.43.0


From 21b1953c816c2819ee9a600b3ace9b79b3d4fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 22/55] fix: negative index into an empty UTF-32 string read
 out of bounds

'max_chars - 1' wraps around when the string is empty, so that the offset
before the beginning was returned instead of npos.
---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 94c43db..2c4074a 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -471,7 +471,7 @@ constexpr inline std::size_t index_offset(
 ) noexcept
 {
     (void)str;
-    if(idx > max_chars - 1)
+    if(idx >= max_chars)
         return npos;
     return max_chars - 1 - idx;
 }
-- 
2.43.0


From e820f2724a4612457111399ba9ddf665f44c47a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 23/55] fix: swap(small_vector&, small_vector&) could not be
 called

Its exception specification used itself.
---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 3f08fb4..8a0b199 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -543,7 +543,7 @@ public:
             swap(get_alloc(), other.get_alloc());
     }
 
-    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(std::is_nothrow_swappable_v<small_vector>)
+    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From 5565b7ff9eeec00972d120ea44fefcfbb2ebbc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 24/55] fix: small_vector leaks or corrupts elements when
 moving one throws

Move construction, shrinking to the static storage and swapping a static with
a dynamic small_vector did not destroy the elements they had created, or left
both containers on the same storage.
---
 include/papilio/container.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 8a0b199..bb39fdf 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -305,13 +305,10 @@ public:
 
     small_vector(small_vector&& other) noexcept(std::is_nothrow_move_constructible_v<value_type>)
         requires std::is_nothrow_move_constructible_v<Allocator>
-        : my_base(),
-          m_data(
-              std::piecewise_construct,
-              std::forward_as_tuple(),
-              std::forward_as_tuple(std::move(other.get_alloc()))
-          )
+        : small_vector(std::as_const(other).get_alloc())
     {
+        // The delegated constructor has finished, so that the elements are destroyed
+        // if moving one of them throws.
         if(other.dynamic_allocated())
         {
             pointer other_buf = other.getbuf();
@@ -321,8 +318,6 @@ public:
         }
         else [[likely]]
         {
-            set_ptrs(getbuf(), static_capacity());
-
             PAPILIO_ASSERT(other.size() <= this->capacity());
             for(auto&& i : other)
             {
@@ -716,6 +711,7 @@ private:
         }
         catch(...)
         {
+            std::destroy_n(tmp_ptr, tmp_size);
             std::allocator_traits<Allocator>::deallocate(
                 get_alloc(), tmp_ptr, tmp_capacity
             );
@@ -809,11 +805,20 @@ private:
         pointer tmp_p_capacity = other.m_p_capacity;
         other.set_ptrs(other.getbuf(), static_capacity());
 
-        for(size_type i = 0; i < this->size(); ++i)
+        try
         {
-            other.emplace_back_impl(
-                std::move(*(m_p_begin + i))
-            );
+            for(size_type i = 0; i < this->size(); ++i)
+            {
+                other.emplace_back_impl(
+                    std::move(*(m_p_begin + i))
+                );
+            }
+        }
+        catch(...)
+        {
+            other.destroy_all();
+            other.set_ptrs(tmp_p_begin, tmp_p_end, tmp_p_capacity);
+            throw;
         }
         destroy_all();
 
-- 
2.43.0


From c4f5e69c854b0d4e2886413a7ab80781c6a3db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 25/55] fix: fixed_vector leaks the elements created when
 copying or moving one throws

---
 include/papilio/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index bb39fdf..437b380 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -927,7 +927,10 @@ public:
     fixed_vector() noexcept
         : m_size(0) {}
 
+    // The constructors below delegate, so that the elements are destroyed if creating one of them throws.
+
     fixed_vector(const fixed_vector& other) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -936,6 +939,7 @@ public:
     }
 
     fixed_vector(fixed_vector&& other) noexcept(std::is_nothrow_move_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -944,6 +948,7 @@ public:
     }
 
     fixed_vector(size_type count, const T& value)
+        : fixed_vector()
     {
         for(size_type i = 0; i < count; ++i)
         {
-- 
2.43.0


From 1d8a308d3d5b3c5f4e28567f05c2d60c6cdbdb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 26/55] fix: optional_unique_ptr ignores the deleter of the
 unique_ptr that it takes its object from

---
 include/papilio/memory.hpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index f970988..c7c3e5a 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -193,7 +193,8 @@ public:
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
-        : m_ptr(ptr.release())
+        : m_ptr(ptr.release()),
+          m_del(take_deleter(ptr))
     {
         m_has_ownership = static_cast<bool>(m_ptr);
     }
@@ -265,6 +266,8 @@ public:
         {
             m_ptr = ptr.release();
             m_has_ownership = true;
+            if constexpr(std::is_same_v<D, Deleter>)
+                m_del = std::move(ptr.get_deleter());
         }
     }
 
@@ -343,6 +346,16 @@ private:
     pointer m_ptr;
     PAPILIO_NO_UNIQUE_ADDRESS Deleter m_del;
     bool m_has_ownership;
+
+    // The object of a unique_ptr is deleted in the way that the unique_ptr would do
+    template <typename D>
+    static Deleter take_deleter(std::unique_ptr<T, D>& ptr) noexcept
+    {
+        if constexpr(std::is_same_v<D, Deleter>)
+            return std::move(ptr.get_deleter());
+        else
+            return Deleter();
+    }
 };
 
 PAPILIO_EXPORT template <
@@ -384,7 +397,8 @@ public:
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
-        : m_ptr(ptr.release())
+        : m_ptr(ptr.release()),
+          m_del(take_deleter(ptr))
     {
         m_has_ownership = static_cast<bool>(m_ptr);
     }
@@ -451,6 +465,8 @@ public:
         {
             m_ptr = ptr.release();
             m_has_ownership = true;
+            if constexpr(std::is_same_v<D, Deleter>)
+                m_del = std::move(ptr.get_deleter());
         }
     }
 
@@ -524,6 +540,16 @@ private:
     pointer m_ptr;
     PAPILIO_NO_UNIQUE_ADDRESS Deleter m_del;
     bool m_has_ownership = true;
+
+    // The object of a unique_ptr is deleted in the way that the unique_ptr would do
+    template <typename D>
+    static Deleter take_deleter(std::unique_ptr<T[], D>& ptr) noexcept
+    {
+        if constexpr(std::is_same_v<D, Deleter>)
+            return std::move(ptr.get_deleter());
+        else
+            return Deleter();
+    }
 };
 
 PAPILIO_EXPORT template <typename T, typename Deleter>
-- 
2.43.0


From b9d57384ba388e5939b1192e7c8edc8bc68ab306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 27/55] fix: array optional_unique_ptrs cannot be swapped, and
 none copied from one with another deleter

Both did not compile.
---
 include/papilio/memory.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index c7c3e5a..b9bba82 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -172,7 +172,8 @@ public:
 
     template <typename D>
     optional_unique_ptr(const optional_unique_ptr<T, D>& other)
-        : m_ptr(other.m_ptr),
+        : m_ptr(other.get()),
+          m_del(),
           m_has_ownership(false)
     {}
 
@@ -380,8 +381,8 @@ public:
           m_has_ownership(false) {}
 
     template <typename D>
-    optional_unique_ptr(const optional_unique_ptr<T, D>& other)
-        : m_ptr(other.m_ptr), m_del(), m_has_ownership(false)
+    optional_unique_ptr(const optional_unique_ptr<T[], D>& other)
+        : m_ptr(other.get()), m_del(), m_has_ownership(false)
     {}
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
@@ -493,7 +494,7 @@ public:
     }
 
     template <typename D>
-    void swap(optional_unique_ptr<T, D>& other) noexcept
+    void swap(optional_unique_ptr<T[], D>& other) noexcept
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
-- 
2.43.0


From 5f2d48e89f63dac34c0a1171daef06138c42de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 28/55] fix: a plain string could not be ordered against a
 string_ref or string_container on its right

---
 include/papilio/utf/string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 8612a3e..c0e87d7 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -812,7 +812,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -824,7 +824,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_s
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -836,7 +836,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::b
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT using string_ref = basic_string_ref<char>;
@@ -1677,7 +1677,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1689,7 +1689,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1701,7 +1701,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT using string_container = basic_string_container<char>;
-- 
2.43.0


From 85d5d93981dc04f65ab76943f8751cc7ff3c7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 29/55] fix: a string_container refers to a constant
 string_view that it is told to copy

---
 include/papilio/utf/string.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index c0e87d7..386adf8 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1090,6 +1090,11 @@ public:
         return assign(independent, str);
     }
 
+    basic_string_container& operator=(independent_proxy<const string_view_type> str)
+    {
+        return assign(independent, str);
+    }
+
     [[nodiscard]]
     constexpr bool empty() const noexcept
     {
-- 
2.43.0


From 8838213dcf8d2417dd2c648f325c31f2f710ee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 30/55] fix: a variable made from a temporary variant keeps the
 string it holds

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e750e8c..eb9b1f9 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -456,7 +456,7 @@ private:
             {
                 return convert_arg(std::forward<T>(v));
             },
-            var
+            std::forward<Variant>(var)
         );
     }
 
-- 
2.43.0


From 8681fadcf416536406bb0d9d5e40df8c6ddb7f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 31/55] fix: a variable holding an infinity equals one holding
 the same infinity

---
 include/papilio/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index eb9b1f9..6369edd 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -732,7 +732,8 @@ private:
 
     static bool equal_impl(float_type epsilon, float_type lhs, float_type rhs) noexcept
     {
-        return std::abs(lhs - rhs) < epsilon;
+        // The difference of two infinities of the same sign is not a number
+        return lhs == rhs || std::abs(lhs - rhs) < epsilon;
     }
 
     template <std::integral T>
-- 
2.43.0


From e4edfd86b4bc7d5e3d3ea3d3ece55132ee0b61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 32/55] fix: variable::to_variant of a temporary did not
 compile

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 6369edd..c7be75f 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -584,7 +584,7 @@ public:
     [[nodiscard]]
     variant_type&& to_variant() && noexcept
     {
-        return m_var;
+        return std::move(m_var);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 18e38f78d0f0deb26b4041e71e3e788086e4a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:40 +0000
Subject: [PATCH 33/55] fix: a background color without a foreground color was
 ignored

---
 include/papilio/color.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/papilio/color.hpp b/include/papilio/color.hpp
index b9c95f6..8470f73 100644
--- a/include/papilio/color.hpp
+++ b/include/papilio/color.hpp
@@ -151,7 +151,7 @@ public:
                 it = set_style(it, 4);
         }
 
-        if(has_foreground())
+        if(has_foreground() || has_background())
         {
             it = set_color(it, to_underlying(m_fg), to_underlying(m_bg));
         }
@@ -163,7 +163,7 @@ public:
     Iterator reset(Iterator it) const
     {
         constexpr char esc[] = "\033[0m";
-        if(has_style() || has_foreground())
+        if(has_style() || has_foreground() || has_background())
             it = std::copy_n(esc, 4, it);
         return it;
     }
@@ -191,9 +191,10 @@ private:
     {
         if(bg_val)
         {
-            PAPILIO_ASSERT(fg_val != 0);
             bg_val += 10;
 
+            if(!fg_val)
+                return PAPILIO_NS format_to(it, "\033[{}m", bg_val);
             return PAPILIO_NS format_to(it, "\033[{};{}m", fg_val, bg_val);
         }
         else
-- 
2.43.0


From 68d8f327e3695fb5ba3b32a77f2d1848c137e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:49 +0000
Subject: [PATCH 34/55] fix: format_to for char8_t, char16_t and char32_t did
 not compile

---
 include/papilio/xchar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/xchar.hpp b/include/papilio/xchar.hpp
index f9b2007..d0b7cc9 100644
--- a/include/papilio/xchar.hpp
+++ b/include/papilio/xchar.hpp
@@ -60,7 +60,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char8_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -157,7 +157,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char16_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -255,7 +255,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char32_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
-- 
2.43.0


From 12a2e3e93d54c772b6838b4238dca3482ec9b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 35/55] fix: a named argument passed as an lvalue was not
 recognized

---
 include/papilio/core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index c7be75f..46b5cea 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1789,15 +1789,15 @@ private:
     map_type m_named_args;
 
     template <typename T>
-    requires(!is_named_arg_v<T>)
+    requires(!is_named_arg_v<std::remove_cvref_t<T>>)
     void emplace(T&& val) noexcept(std::is_nothrow_constructible_v<format_arg_type, T>)
     {
         m_indexed_args.emplace_back(std::forward<T>(val));
     }
 
     template <typename T>
-    requires(is_named_arg_v<T> && std::is_same_v<char_type, typename T::char_type>)
-    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename T::value_type>)
+    requires(is_named_arg_v<std::remove_cvref_t<T>> && std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>)
+    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename std::remove_cvref_t<T>::value_type>)
     {
         m_named_args.insert_or_assign(
             na.name,
@@ -1844,7 +1844,7 @@ public:
         if constexpr(is_named_arg_v<std::remove_cvref_t<T>>)
         {
             static_assert(
-                std::is_same_v<char_type, typename T::char_type>,
+                std::is_same_v<char_type, typename std::remove_cvref_t<T>::char_type>,
                 "Invalid char type"
             );
 
-- 
2.43.0


From f8c4189ae308fd8ce87c68b8fa8d016fc0605760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 36/55] fix: formatting a named argument moved the value out of
 the user's object

---
 include/papilio/core.hpp    | 21 ++++++++++++++++-----
 include/papilio/utility.hpp |  9 ++++++---
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 46b5cea..e050206 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1539,6 +1539,17 @@ namespace detail
             return 0;
     }
 
+    // Only a temporary value can be moved from,
+    // a value passed as an lvalue still belongs to the user.
+    template <typename T>
+    constexpr decltype(auto) forward_named_arg_value(std::remove_reference_t<T>& na) noexcept
+    {
+        if constexpr(std::remove_cvref_t<T>::is_temporary)
+            return PAPILIO_NS forward_like<T>(na.value);
+        else
+            return (na.value);
+    }
+
     template <typename... Ts>
     consteval std::size_t get_named_arg_count() noexcept
     {
@@ -1801,7 +1812,7 @@ private:
     {
         m_named_args.insert_or_assign(
             na.name,
-            PAPILIO_NS forward_like<T>(na.value)
+            detail::forward_named_arg_value<T>(na)
         );
     }
 };
@@ -1848,10 +1859,10 @@ public:
                 "Invalid char type"
             );
 
-            m_named_args.emplace(std::make_pair(
-                PAPILIO_NS forward_like<T>(val.name),
-                PAPILIO_NS forward_like<T>(val.value)
-            ));
+            m_named_args.emplace(
+                val.name,
+                detail::forward_named_arg_value<T>(val)
+            );
         }
         else
         {
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 8a41c03..4efaa9d 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -218,13 +218,16 @@ public:
 /**
  * @brief Proxy of named argument.
  */
-PAPILIO_EXPORT template <typename CharT, typename T>
+PAPILIO_EXPORT template <typename CharT, typename T, bool IsTemporary = false>
 struct basic_named_arg
 {
     static_assert(!std::is_reference_v<T>, "T cannot be a reference");
 
     using named_arg_tag = void;
 
+    // true if the value is a temporary object that can be moved from
+    static constexpr bool is_temporary = IsTemporary;
+
     using char_type = CharT;
     using string_view_type = std::basic_string_view<CharT>;
     using value_type = T;
@@ -274,13 +277,13 @@ constexpr inline bool is_named_arg_v = is_named_arg<T>::value;
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const CharT* name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, std::remove_reference_t<T>, !std::is_lvalue_reference_v<T>>(name, value);
 }
 
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const std::basic_string_view<CharT> name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, std::remove_reference_t<T>, !std::is_lvalue_reference_v<T>>(name, value);
 }
 
 namespace detail
-- 
2.43.0


From b8bfa7ece30cb5c2b85d26f22e3a84ead898a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 37/55] fix: format_to_n to an output iterator without a value
 type did not compile

---
 include/papilio/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 5a5654a..4059e1c 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -258,7 +258,7 @@ namespace detail
     {
     public:
         using iterator_category = std::output_iterator_tag;
-        using value_type = std::iter_value_t<OutputIt>;
+        using value_type = CharT;
         using difference_type = std::iter_difference_t<OutputIt>;
         using pointer = void;
         using reference = void;
-- 
2.43.0


From 5f43748b817af84d9401761d14b2e7e50fdaa49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 38/55] fix: writing *it++ = c in a formatter lost characters
 in format_to_n and formatted_size

---
 include/papilio/format.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 4059e1c..962638b 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -294,7 +294,7 @@ namespace detail
             return *this;
         }
 
-        format_to_n_wrapper operator++(int) noexcept
+        format_to_n_wrapper& operator++(int) noexcept
         {
             return *this;
         }
@@ -477,11 +477,9 @@ namespace detail
             return *this;
         }
 
-        constexpr formatted_size_counter operator++(int) noexcept
+        constexpr formatted_size_counter& operator++(int) noexcept
         {
-            formatted_size_counter tmp(*this);
-            ++(*this);
-            return tmp;
+            return *this;
         }
     };
 
-- 
2.43.0


From e1a97620d4795b1e99fa51c61e8ba250566067c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 39/55] fix: iterating over UTF-16 text with an unpaired
 surrogate at its end or beginning read outside of it

---
 include/papilio/utf/codepoint.hpp | 16 +++++++++-------
 include/papilio/utf/codepoint.inl |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index a636e22..192b4a4 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -613,11 +613,7 @@ namespace detail
             if(next_offset < m_str.size())
             {
                 m_offset = next_offset;
-                std::uint16_t ch = m_str[next_offset];
-                if(PAPILIO_NS utf::is_high_surrogate(ch))
-                    m_len = 2;
-                else
-                    m_len = 1;
+                m_len = current_len();
             }
             else
             {
@@ -630,10 +626,10 @@ namespace detail
         {
             PAPILIO_ASSERT(m_offset != 0);
             --m_offset;
-            while(PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
+            while(m_offset != 0 && PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
                 --m_offset;
 
-            m_len = utf::is_high_surrogate(m_str[m_offset]) ? 2 : 1;
+            m_len = current_len();
         }
 
         constexpr bool to_bool() const noexcept
@@ -663,6 +659,12 @@ namespace detail
         string_view_type m_str;
         std::size_t m_offset = 0;
         std::uint8_t m_len = 0;
+
+        // The last unit of the string may be an unpaired high surrogate
+        constexpr std::uint8_t current_len() const noexcept
+        {
+            return PAPILIO_NS utf::is_high_surrogate(m_str[m_offset]) && m_str.size() - m_offset > 1 ? 2 : 1;
+        }
     };
 
     template <char32_like CharT>
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 5a53aba..9e4f7bb 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -211,7 +211,7 @@ constexpr codepoint_iterator<CharU> codepoint_begin(std::basic_string_view<CharU
     else if constexpr(char16_like<CharU>)
     {
         std::uint16_t ch = str[0];
-        std::uint8_t ch_size = PAPILIO_NS utf::is_high_surrogate(ch) ?
+        std::uint8_t ch_size = PAPILIO_NS utf::is_high_surrogate(ch) && str.size() > 1 ?
                                    2 :
                                    1;
         return result_t(str, 0, ch_size);
-- 
2.43.0


From a7f88541747448f72c9cabca07dcec4224fd581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 40/55] fix: decoding a surrogate pair given as two units
 reported only one of them as read

---
 include/papilio/utf/codepoint.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 9e4f7bb..baa40fc 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -160,7 +160,9 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char16_t>::to_codepoint(std
 
 constexpr std::pair<codepoint, std::uint8_t> decoder<char16_t>::to_codepoint(char16_t first, char16_t second)
 {
-    return decoder<char32_t>::to_codepoint(to_char32_t(first, second).first);
+    char16_t tmp[2] = {first, second};
+
+    return to_codepoint(std::u16string_view(tmp, 2));
 }
 
 constexpr auto decoder<char16_t>::from_codepoint(codepoint cp) -> from_codepoint_result
-- 
2.43.0


From b47e860420541ccffa5f3880b567366b8d10bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 41/55] fix: a code point could not be constructed from a span
 of non-constant bytes

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 192b4a4..70d20d7 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -144,7 +144,7 @@ public:
     requires(sizeof(T) == 1)
     constexpr codepoint(std::span<T, 4> bytes) noexcept
     {
-        assign(bytes);
+        assign(std::span<const T, 4>(bytes));
     }
 
     constexpr codepoint(char32_t ch) noexcept
-- 
2.43.0


From 5e39e0e1b62e98b4f31de7a3e7d9e55ebc87edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 42/55] fix: stepping back in a UTF-16 string_container that
 begins with an unpaired surrogate read outside of it

---
 include/papilio/utf/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 386adf8..b433412 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1509,7 +1509,7 @@ public:
 
                 PAPILIO_ASSERT(m_offset != 0);
                 --m_offset;
-                while(PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
+                while(m_offset != 0 && PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
                     --m_offset;
             }
             else
-- 
2.43.0


From 97480c3439eae2e05da470e1f06bb91511d45e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 43/55] fix: malformed UTF-16 text terminated the program
 instead of being reported as invalid_surrogate

---
 include/papilio/utf/codepoint.hpp |  7 +--
 include/papilio/utf/string.hpp    | 74 +++++++++++++++----------------
 2 files changed, 41 insertions(+), 40 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 70d20d7..0209f47 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -763,17 +763,18 @@ public:
 
         reference_proxy(const reference_proxy&) = delete;
 
-        constexpr bool operator==(const reference_proxy& rhs) const noexcept
+        constexpr bool operator==(const reference_proxy& rhs) const noexcept(!char16_like<CharT>)
         {
             return static_cast<char32_t>(*this) == static_cast<char32_t>(rhs);
         }
 
-        constexpr operator codepoint() const noexcept
+        // Malformed UTF-16 is reported by an exception
+        constexpr operator codepoint() const noexcept(!char16_like<CharT>)
         {
             return decoder<CharT>::to_codepoint(std::basic_string_view<CharT>(m_ptr, m_len)).first;
         }
 
-        constexpr operator char32_t() const noexcept
+        constexpr operator char32_t() const noexcept(!char16_like<CharT>)
         {
             return static_cast<codepoint>(*this);
         }
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index b433412..bd8d9cd 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -155,7 +155,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint index_or(size_type i, codepoint default_val) const noexcept
+    constexpr codepoint index_or(size_type i, codepoint default_val) const noexcept(!char16_like<CharT>)
     {
         size_type off = get_offset(i);
         if(off == npos) return default_val;
@@ -163,7 +163,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint index_or(reverse_index_t, size_type i, codepoint default_val) const noexcept
+    constexpr codepoint index_or(reverse_index_t, size_type i, codepoint default_val) const noexcept(!char16_like<CharT>)
     {
         size_type off = get_offset(reverse_index, i);
         if(off == npos) return default_val;
@@ -207,19 +207,19 @@ public:
     }
 
     [[nodiscard]]
-    constexpr codepoint front() const noexcept
+    constexpr codepoint front() const noexcept(!char16_like<CharT>)
     {
         return index(0);
     }
 
     [[nodiscard]]
-    constexpr codepoint back() const noexcept
+    constexpr codepoint back() const noexcept(!char16_like<CharT>)
     {
         return index(reverse_index, 0);
     }
 
     [[nodiscard]]
-    const_iterator find(codepoint ch, size_type pos = 0) const noexcept
+    const_iterator find(codepoint ch, size_type pos = 0) const noexcept(!char16_like<CharT>)
     {
         auto it = as_derived().cbegin();
         const auto sentinel = as_derived().cend();
@@ -233,7 +233,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool contains(codepoint ch) const noexcept
+    constexpr bool contains(codepoint ch) const noexcept(!char16_like<CharT>)
     {
         return find(ch) != as_derived().cend();
     }
@@ -251,7 +251,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool starts_with(codepoint cp) const noexcept
+    constexpr bool starts_with(codepoint cp) const noexcept(!char16_like<CharT>)
     {
         return !empty() && front() == cp;
     }
@@ -387,7 +387,7 @@ protected:
         }
     }
 
-    constexpr codepoint cp_from_off(size_type off) const noexcept
+    constexpr codepoint cp_from_off(size_type off) const noexcept(!char16_like<CharT>)
     {
         string_view_type str = get_view();
         PAPILIO_ASSERT(off < str.size());
@@ -559,7 +559,7 @@ public:
     }
 
     [[nodiscard]]
-    constexpr bool ends_with(codepoint cp) const noexcept
+    constexpr bool ends_with(codepoint cp) const noexcept(!char16_like<CharT>)
     {
         return !this->empty() && this->back() == cp;
     }
@@ -662,25 +662,25 @@ public:
     }
 
     template <char_like U>
-    constexpr int compare(basic_string_ref<U> other) const noexcept
+    constexpr int compare(basic_string_ref<U> other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         return this->compare_impl(other);
     }
 
     template <char_like U>
-    constexpr int compare(const U* other) const noexcept
+    constexpr int compare(const U* other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(std::basic_string_view<U> other) const noexcept
+    constexpr int compare(std::basic_string_view<U> other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(const std::basic_string<U>& other) const noexcept
+    constexpr int compare(const std::basic_string<U>& other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
@@ -705,7 +705,7 @@ private:
     }
 
     template <typename Other>
-    constexpr int compare_impl(const Other& other) const noexcept
+    constexpr int compare_impl(const Other& other) const noexcept(!char16_like<CharT> && !char16_like<typename Other::char_type>)
     {
         auto i = this->cbegin();
         auto j = other.cbegin();
@@ -798,43 +798,43 @@ constexpr bool operator==(const std::basic_string<T>& lhs, basic_string_ref<U> r
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, basic_string_ref<U> rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_string_view<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_string_view<U> rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::basic_string<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::basic_string<U>& rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
@@ -1227,31 +1227,31 @@ public:
     }
 
     template <char_like U>
-    constexpr int compare(const basic_string_container<U>& other) const noexcept
+    constexpr int compare(const basic_string_container<U>& other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(basic_string_ref<U> other) const noexcept
+    constexpr int compare(basic_string_ref<U> other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         return this->compare_impl(other);
     }
 
     template <char_like U>
-    constexpr int compare(const U* other) const noexcept
+    constexpr int compare(const U* other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(std::basic_string_view<U> other) const noexcept
+    constexpr int compare(std::basic_string_view<U> other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
 
     template <char_like U>
-    constexpr int compare(const std::basic_string<U>& other) const noexcept
+    constexpr int compare(const std::basic_string<U>& other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         return this->compare_impl(basic_string_ref<U>(other));
     }
@@ -1287,17 +1287,17 @@ public:
     public:
         reference_proxy(const reference_proxy&) = delete;
 
-        constexpr bool operator==(const reference_proxy& rhs) const noexcept
+        constexpr bool operator==(const reference_proxy& rhs) const noexcept(!char16_like<CharT>)
         {
             return static_cast<char32_t>(*this) == static_cast<char32_t>(rhs);
         }
 
-        constexpr operator codepoint() const noexcept
+        constexpr operator codepoint() const noexcept(!char16_like<CharT>)
         {
             return m_str->cp_from_off(m_offset);
         }
 
-        constexpr operator char32_t() const noexcept
+        constexpr operator char32_t() const noexcept(!char16_like<CharT>)
         {
             return static_cast<codepoint>(*this);
         }
@@ -1589,7 +1589,7 @@ private:
     }
 
     template <typename U>
-    constexpr int compare_impl(basic_string_ref<U> other) const noexcept
+    constexpr int compare_impl(basic_string_ref<U> other) const noexcept(!char16_like<CharT> && !char16_like<U>)
     {
         auto i = this->cbegin();
         auto j = other.cbegin();
@@ -1668,43 +1668,43 @@ constexpr bool operator==(const std::basic_string<T>& lhs, const basic_string_co
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const basic_string_container<U>& rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const U* rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const U* rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, std::basic_string_view<U> rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, std::basic_string_view<U> rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const std::basic_string<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs, const std::basic_string<U>& rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return lhs.compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
-constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs) noexcept
+constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs) noexcept(!char16_like<T> && !char16_like<U>)
 {
     return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
-- 
2.43.0


From f2b58c43dbc73022da9dd5b84da99f3797668547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 44/55] fix: copying a non-constant argument collection made a
 collection that holds the original as an argument

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e050206..92e41fc 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1734,6 +1734,7 @@ public:
         std::less<>>;
 
     template <typename... Args>
+    requires(!(std::is_same_v<std::remove_cvref_t<Args>, static_format_args> || ...))
     static_format_args(Args&&... args)
     {
         construct(std::forward<Args>(args)...);
@@ -1844,6 +1845,7 @@ public:
     basic_dynamic_format_args(basic_dynamic_format_args&&) = default;
 
     template <typename... Args>
+    requires(!(std::is_same_v<std::remove_cvref_t<Args>, basic_dynamic_format_args> || ...))
     basic_dynamic_format_args(Args&&... args)
     {
         append(std::forward<Args>(args)...);
-- 
2.43.0


From 9a29d722accc6d17da15534230ad3f8744f3ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 45/55] fix: handle::type() returned a std::type_info by value,
 which does not compile

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 92e41fc..8d4d140 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1176,7 +1176,7 @@ public:
         }
 
         [[nodiscard]]
-        std::type_info type()
+        const std::type_info& type() const noexcept
         {
             return ptr()->type();
         }
-- 
2.43.0


From 2afe097535a485ad1ce9d9f38396fb6d71f70098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 46/55] fix: copying a non-constant handle wrapped it in
 another handle

---
 include/papilio/core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8d4d140..4c7a05d 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1103,6 +1103,7 @@ public:
         }
 
         template <typename T>
+        requires(!std::is_same_v<std::remove_cvref_t<T>, handle>)
         explicit handle(T&& val) noexcept
             : handle()
         {
-- 
2.43.0


From 92c99e35f89c14f24de65831f11c89e2ce4de96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 47/55] fix: a default constructed handle could not be
 destroyed, copied or used

---
 include/papilio/core.hpp | 60 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 4c7a05d..37fbfd3 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1081,6 +1081,61 @@ private:
         value_type m_val;
     };
 
+    // For the handle that refers to nothing
+    class handle_impl_null final : public handle_impl_base
+    {
+    public:
+        basic_format_arg index(const indexing_value_type&) const override
+        {
+            throw_unformattable();
+        }
+
+        basic_format_arg attribute(const attribute_name_type&) const override
+        {
+            throw_unformattable();
+        }
+
+        void format(parse_context&, Context&) const override
+        {
+            throw_unformattable();
+        }
+
+        void skip_spec(parse_context&) const override
+        {
+            throw_unformattable();
+        }
+
+        void copy(void* mem) const noexcept override
+        {
+            new(mem) handle_impl_null();
+        }
+
+        void move(void* mem) noexcept override
+        {
+            new(mem) handle_impl_null();
+        }
+
+        bool has_ownership() const noexcept override
+        {
+            return false;
+        }
+
+        bool is_formattable() const noexcept override
+        {
+            return false;
+        }
+
+        const std::type_info& type() const noexcept override
+        {
+            return typeid(void);
+        }
+
+        const void* ptr() const noexcept override
+        {
+            return nullptr;
+        }
+    };
+
 public:
     /**
      * @brief Type-erased handle to a value to be formatted.
@@ -1088,7 +1143,10 @@ public:
     class handle
     {
     public:
-        handle() noexcept = default;
+        handle() noexcept
+        {
+            new(ptr()) handle_impl_null();
+        }
 
         handle(const handle& other) noexcept
             : handle()
-- 
2.43.0


From a6f3bc7c73ba33ad375ef28908e9ffe33d839cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 48/55] fix: an exception from copying a user type into an
 independent argument terminated the program

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 37fbfd3..d96aafa 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1425,7 +1425,7 @@ public:
 
     template <typename T>
     requires(use_handle_v<T>)
-    basic_format_arg(independent_t, T&& val) noexcept
+    basic_format_arg(independent_t, T&& val)
         : m_val(std::in_place_type<handle>, independent, std::forward<T>(val))
     {}
 
-- 
2.43.0


From dba2d5669d42099430af603c08d666ed880814cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:47 +0000
Subject: [PATCH 49/55] fix: get<bool>() of a format argument did not compile

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index d96aafa..d0af5f0 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1560,6 +1560,8 @@ public:
     {
         if constexpr(char_like<T> || std::is_same_v<std::remove_cvref_t<T>, utf::codepoint>)
             return std::get<utf::codepoint>(val.m_val);
+        else if constexpr(std::is_same_v<std::remove_cvref_t<T>, bool>)
+            return std::get<bool>(val.m_val);
         else if constexpr(std::integral<T>)
             return std::get<detail::convert_int_t<T>>(val.m_val);
         else if constexpr(detail::acceptable_fp<T>)
-- 
2.43.0


From 1e4678537fae9ae5720f78219391ea081bdbc82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:14 +0000
Subject: [PATCH 50/55] fix: a handle whose construction failed was destroyed
 all the same

---
 include/papilio/core.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index d0af5f0..e46e21c 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1170,7 +1170,6 @@ public:
 
         template <typename T>
         handle(independent_t, T&& val)
-            : handle()
         {
             construct<T>(independent, std::forward<T>(val));
         }
-- 
2.43.0


From cf075a5a7b9fcb3574f6a58d3c9564036e39d327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:43 +0000
Subject: [PATCH 51/55] fix: an element specification of a range was replaced
 by the debug form

---
 include/papilio/core.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e46e21c..8fc0de5 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5466,10 +5466,6 @@ public:
             fmt_t::try_set_brackets(m_underlying, string_view_type(), string_view_type());
             fmt_t::try_set_separator(m_underlying, PAPILIO_TSTRING_VIEW(CharT, ": "));
         }
-        else if(m_type == U'\0')
-        {
-            fmt_t::try_set_debug_format(m_underlying);
-        }
         else if(m_type == U's' && m_debug)
             fmt_t::try_set_debug_format(m_underlying);
 
-- 
2.43.0


From 1ff20a6759fdbf6c9c7ba872c2b6168dbbf49891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:10 +0000
Subject: [PATCH 52/55] fix: the width was ignored in the debug form of strings
 and characters

---
 include/papilio/core.hpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8fc0de5..b01d9bc 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4690,6 +4690,37 @@ protected:
         PAPILIO_ASSERT(m_data.fill != U'\0');
         context_t::append(ctx, m_data.fill, count);
     }
+
+    // Append the escaped form of a string or a code point, padded to the width
+    template <typename FormatContext, typename T>
+    void append_escaped_padded(FormatContext& ctx, const T& val) const
+    {
+        using context_t = format_context_traits<FormatContext>;
+        using char_type = typename context_t::char_type;
+        using string_type = std::basic_string<char_type>;
+        using buffer_context = basic_format_context<std::back_insert_iterator<string_type>, char_type>;
+
+        if(m_data.width == 0)
+        {
+            context_t::append_escaped(ctx, val);
+            return;
+        }
+
+        string_type escaped;
+        static_format_args<0, 0, buffer_context> no_args;
+        buffer_context buffer(std::back_inserter(escaped), no_args);
+        format_context_traits<buffer_context>::append_escaped(buffer, val);
+
+        std::size_t used = 0;
+        for(utf::codepoint cp : utf::basic_string_ref<char_type>(escaped))
+            used += cp.estimate_width();
+
+        auto [left, right] = fill_size(used);
+
+        fill(ctx, left);
+        context_t::append(ctx, escaped);
+        fill(ctx, right);
+    }
 };
 
 /// @defgroup DigitMap Digit maps for implementing formatters
@@ -5179,7 +5210,7 @@ public:
 
         if(data().type == U'?')
         {
-            context_t::append_escaped(ctx, cp, 1);
+            append_escaped_padded(ctx, cp);
             return context_t::out(ctx);
         }
 
@@ -5236,7 +5267,7 @@ public:
 
         if(data().type == '?')
         {
-            context_t::append_escaped(ctx, str);
+            append_escaped_padded(ctx, str);
             return context_t::out(ctx);
         }
 
-- 
2.43.0


From 03ee66481cc20d1e279e2a7c62d33fd8270e6f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:27 +0000
Subject: [PATCH 53/55] fix: a precision of zero was treated as if no precision
 was given

---
 include/papilio/core.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index b01d9bc..024eab9 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -250,6 +250,13 @@ PAPILIO_EXPORT struct std_formatter_data
     bool fill_zero = false;
     bool alternate_form = false;
     bool use_locale = false;
+    bool zero_precision = false; // A precision of zero is specified explicitly
+
+    [[nodiscard]]
+    constexpr bool has_precision() const noexcept
+    {
+        return precision != 0 || zero_precision;
+    }
 
     [[nodiscard]]
     constexpr bool contains_type(char32_t type_ch) const noexcept
@@ -4601,6 +4608,7 @@ public:
 
             ctx.advance_to(start);
             std::tie(result.precision, start) = utils::template parse_value<true>(ctx);
+            result.zero_precision = result.precision == 0;
         }
 
         if(utils::check_stop(start, stop))
@@ -5131,10 +5139,12 @@ private:
             throw format_error("value too large");
 
         int precision = static_cast<int>(data().precision);
-        if(precision == 0 &&
+        bool has_precision = data().has_precision();
+        if(!has_precision &&
            U"fFeEgG"sv.find(data().type) != std::u32string::npos)
         {
             precision = 6;
+            has_precision = true;
         }
 
         buf.resize(buf.static_capacity(), '\0');
@@ -5144,7 +5154,7 @@ private:
             char* stop = buf.data() + buf.size();
 
             std::to_chars_result result;
-            if(precision == 0)
+            if(!has_precision)
                 result = std::to_chars(start, stop, val, ch_fmt);
             else
                 result = std::to_chars(start, stop, val, ch_fmt, precision);
@@ -5274,7 +5284,7 @@ public:
         std::size_t used = 0; // Used width
 
         // The "precision" for a string means the max width can be used.
-        if(data().precision != 0)
+        if(data().has_precision())
         {
             for(auto it = str.begin(); it != str.end(); ++it)
             {
-- 
2.43.0


From 00b2776e57e24f13cb09e12a2c7700d9900641a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:03 +0000
Subject: [PATCH 54/55] fix: a minus sign without digits was read as the
 integer 0

---
 include/papilio/core.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 024eab9..868e22a 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3378,7 +3378,9 @@ protected:
 
     // Parses integer value
     template <std::integral T>
-    static std::pair<T, iterator> parse_integer(iterator start, iterator stop)
+    static std::pair<T, iterator> parse_integer(
+        iterator start, iterator stop, script_error_code ec = script_error_code::invalid_index
+    )
     {
         if(start == stop) [[unlikely]]
             throw_end_of_string();
@@ -3388,6 +3390,11 @@ protected:
         {
             negative = true;
             ++start;
+
+            if(start == stop) [[unlikely]]
+                throw_end_of_string();
+            if(!utf::is_digit(*start)) [[unlikely]]
+                throw_error(ec, start);
         }
 
         if constexpr(!std::is_signed_v<T>)
@@ -4085,7 +4092,10 @@ private:
             else
             {
                 using int_t = typename variable_type::int_type;
-                int_t val = my_base::template parse_integer<int_t>(start, int_end).first;
+                int_t val = my_base::template parse_integer<int_t>(
+                                start, stop, script_error_code::invalid_condition
+                )
+                                .first;
 
                 return std::make_pair(val, int_end);
             }
-- 
2.43.0


From 9b1514b89bbcdc94fe4995d0fad3ea93235b3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:58 +0000
Subject: [PATCH 55/55] fix: the text of a thread id depended on the global
 locale

---
 include/papilio/formatter/misc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/formatter/misc.hpp b/include/papilio/formatter/misc.hpp
index 14e81e8..e1fad06 100644
--- a/include/papilio/formatter/misc.hpp
+++ b/include/papilio/formatter/misc.hpp
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <locale>
 #include <thread>
 #include <sstream>
 #ifdef PAPILIO_HAS_LIB_STACKTRACE
@@ -29,6 +30,7 @@ public:
     auto format(const std::thread::id& id, FormatContext& ctx) const
     {
         std::basic_stringstream<CharT> ss;
+        ss.imbue(std::locale::classic());
         ss << id;
 
         using context_t = format_context_traits<FormatContext>;
-- 
2.43.0

