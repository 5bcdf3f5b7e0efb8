From 5fa46ca72d6d12962da5454bdfeb022d658b09f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 001/133] fix: dynamic_array insert(pos, const T&) constructs
 from the value, not its address

---
 src/estd/internal/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0e83625..5b33619 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -335,7 +335,7 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
 
-        new (data + to_insert_pos) value_type(to_insert_value);
+        new (data + to_insert_pos) value_type(*to_insert_value);
 
         unlock();
     }
-- 
2.43.0


From 28c7600404e269315c56ca01fb30b75b6a405090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 002/133] fix: dynamic_array erase moves whole elements, not
 bytes

---
 src/estd/internal/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 5b33619..a09aab3 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -500,7 +500,7 @@ public:
         else
             impl().size(prev_size - count);
 
-        memmove(raw, raw + count, prev_size - (index + count));
+        memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));
 
         unlock();
     }
-- 
2.43.0


From 475e0d8755d99df1606e7fb838939c79534f6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 003/133] fix: vector emplace_back/pop_back compile with
 stateless allocators

---
 src/estd/internal/impl/handle_desc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/handle_desc.h b/src/estd/internal/impl/handle_desc.h
index a31f7c7..6524052 100644
--- a/src/estd/internal/impl/handle_desc.h
+++ b/src/estd/internal/impl/handle_desc.h
@@ -231,7 +231,7 @@ public:
     template <class ...TArgs>
     void construct(size_type pos, TArgs&&...args)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename base_t::allocator_ref a = base_t::get_allocator();
         allocator_traits::construct(a, &lock(pos, 1), std::forward<TArgs>(args)...);
         unlock();
     }
@@ -239,7 +239,7 @@ public:
 
     void destroy(size_type pos)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename base_t::allocator_ref a = base_t::get_allocator();
         allocator_traits::destroy(a, &lock(pos, 1));
         unlock();
     }
-- 
2.43.0


From 19bdf73ca0cfd052bca4f9d06ab89903b95bc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 004/133] fix: string find from a nonzero position returns an
 absolute index and never reads past the end

---
 src/estd/internal/runtime_array.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a189959..cf11510 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -399,16 +399,15 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const_pointer data = clock();
-        const_pointer end = data + size();
-
-        data += pos;
+        const size_type sz = size();
 
-        for(const_pointer i = data; i != end; ++i)
+        // stop where the remaining elements can no longer hold 's'
+        for(size_type i = pos; i <= sz && count <= sz - i; ++i)
         {
-            if(memcmp(s, i, count) == 0)
+            if(memcmp(s, data + i, count) == 0)
             {
                 cunlock();
-                return i - data;
+                return i;
             }
         }
 
-- 
2.43.0


From 63c3c7fa95b5fbfd7871dd0d0077beacbb6c816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 005/133] fix: string rfind on an empty string does not
 underflow

---
 src/estd/internal/runtime_array.h | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index cf11510..f96d705 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -427,24 +427,14 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const size_type sz = size();
-        if(pos >= sz) pos = sz - 1;
 
-        unsigned remainder = sz - pos;
+        // 's' can't fit anywhere
+        if(count > sz) return npos;
 
-        // if remaining characters including & after pos wouldn't fit 's'
-        // i.e. "Hello" finding "llo" at pos 4 ("o" = remainder 1, count 3)
-        if(remainder < count)
-        {
-            // Make sure there's enough room to move backwards for a useful
-            // comparison
-            // i.e. "Hello" finding "llo" at pos 4 (can we move back 2 to pos=2 reach a new remainder of 3?)
-            if(pos < count - remainder) return npos;
-
-            // skip over compares that can't succeed where pos is too close
-            // to end
-            // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
-            pos -= count - remainder;
-        }
+        // skip over compares that can't succeed where pos is too close
+        // to end
+        // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
+        if(pos > sz - count) pos = sz - count;
 
         const_pointer data = clock();
         const_pointer rend = data - 1;
-- 
2.43.0


From d5c63a25f89cd6c2ec6e4ca76c431bcb3cffb652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 006/133] fix: string find_last_of clamps its position and
 handles an empty string

---
 src/estd/internal/runtime_array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index f96d705..a799c1f 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -471,7 +471,9 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        if(pos == npos) pos = size() - 1;   // DEBT: I think this line should go back up to string
+        const size_type sz = size();
+        if(sz == 0) return npos;
+        if(pos >= sz) pos = sz - 1;
 
         const_pointer data = clock();
         const_pointer rend = data - 1;
-- 
2.43.0


From 97e74bf2ad947c7fd2b7d65beec8e51971bcde63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 007/133] fix: starts_with accepts an equal-length prefix

---
 src/estd/internal/container/starts_with.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/starts_with.h b/src/estd/internal/container/starts_with.h
index dae9c13..fc722ef 100644
--- a/src/estd/internal/container/starts_with.h
+++ b/src/estd/internal/container/starts_with.h
@@ -12,7 +12,7 @@ inline ESTD_CPP_CONSTEXPR(14) bool starts_with_n(It1 lhs, It2 rhs, int count_lhs
 {
     // DEBT: Using signed int here is fiddly, since incoming count likely won't be signed
 
-    while(count_lhs-- && count_rhs--)
+    while(count_rhs-- && count_lhs--)
         if(*lhs++ != *rhs++)
         {
             return false;
-- 
2.43.0


From e463335aa0346eb5d9b44c87c43f8b1a1f06b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 008/133] fix: string_view substr clamps count to the remaining
 length

---
 src/estd/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/string_view.h b/src/estd/string_view.h
index 2ed3669..56600b7 100644
--- a/src/estd/string_view.h
+++ b/src/estd/string_view.h
@@ -116,7 +116,7 @@ public:
         {
             allocator_type& a = copy.get_allocator();
 
-            a.set_size_exp(true, count);
+            if(count < copy.size()) a.set_size_exp(true, count);
         }
 
         return copy;
-- 
2.43.0


From d14bf89682fcddc992c62d7afc74003402e617c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 009/133] fix: string find_first_of from a position past the
 end finds nothing

---
 src/estd/internal/runtime_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a799c1f..5329d9d 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -458,6 +458,8 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
+        if(pos > size()) return npos;
+
         const_pointer data = clock();
         const_pointer end = data + size();
 
-- 
2.43.0


From 27d9c9a73604f99559ed021654c1bca14ff8097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 010/133] fix: starts_with(ch) on an empty string is false
 instead of reading past the end

---
 src/estd/internal/runtime_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index 5329d9d..4b76148 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -153,6 +153,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool starts_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(0, 1) == ch;
 
         cunlock();
-- 
2.43.0


From 88ac60dffd8b4972792eb503bfa5913c376d4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 011/133] fix: ends_with(ch) on an empty string is false
 instead of reading out of bounds

---
 src/estd/internal/runtime_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index 4b76148..ee81efa 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -172,6 +172,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool ends_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(size() - 1, 1) == ch;
 
         cunlock();
-- 
2.43.0


From e973a6351268c09adf3cfff29905895705d794ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 012/133] fix: deque const back() and iterator decrement
 compile

---
 src/estd/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 353d0b0..154ae20 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -150,7 +150,7 @@ class deque : protected TPolicy
             --(*i);
     }
 
-    void decrement(array_iterator* i)
+    void decrement(array_iterator* i) const
     {
         decrement((const_array_iterator*)i);
     }
-- 
2.43.0


From d698345dc8ea088dac027955aee95801a7680846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 013/133] fix: deque emplace_front constructs in the slot
 before front

---
 src/estd/queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 154ae20..82dc862 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -379,11 +379,12 @@ public:
     template <class ...TArgs>
     reference emplace_front(TArgs&&...args)
     {
+        decrement(&m_front);
+
         value_type& retval = *m_front;
 
         new (&retval) value_type(std::forward<TArgs>(args)...);
 
-        decrement(&m_front);
         m_empty = false;
 
         return retval;
-- 
2.43.0


From b52503960f4576c15a477698566c897ffb23fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 014/133] fix: a moved-to deque refers to its own storage, not
 the source's

---
 src/estd/queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 82dc862..a191798 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -191,8 +191,8 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     constexpr deque(deque&& move_from) :
         m_array(std::move(move_from.m_array)),
-        m_front(std::move(move_from.m_front)),
-        m_back(std::move(move_from.m_back)),
+        m_front(m_array.begin() + (move_from.m_front - move_from.m_array.begin())),
+        m_back(m_array.begin() + (move_from.m_back - move_from.m_array.begin())),
         m_empty(std::move(move_from.m_empty))
     {}
 #endif
-- 
2.43.0


From b4bc382b9381c43cddce79d3dba2565b0cc51146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 015/133] fix: deque push on full and pop on empty report
 failure and change nothing

---
 src/estd/queue.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index a191798..9c992f4 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -180,6 +180,9 @@ class deque : protected TPolicy
             return m_back - m_front;
     }
 
+    // m_front and m_back coincide both when empty and when full
+    bool full() const { return !m_empty && m_front == m_back; }
+
 public:
     deque() :
         m_front(m_array.begin()),
@@ -283,6 +286,8 @@ public:
 
     bool push_back(const_reference value)
     {
+        if(full()) return false;
+
         *m_back++ = value;
         m_empty = false;
 
@@ -302,6 +307,8 @@ public:
     ///
     bool push_front(const_reference value)
     {
+        if(full()) return false;
+
         // NOTE: doesn't do a before-begin style, but for consistency probably should
         evaluate_rollunder((const_array_iterator*)&m_front);
         m_front--; // due to the non-before-begin approach. confusing
@@ -316,6 +323,8 @@ public:
 
     bool pop_back()
     {
+        if(empty()) return false;
+
         back().~value_type();
 
         decrement(&m_back);
@@ -327,6 +336,8 @@ public:
 
     bool pop_front()
     {
+        if(empty()) return false;
+
         front().~value_type();
 
         m_front++;
@@ -407,6 +418,8 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     bool push_back(value_type&& value)
     {
+        if(full()) return false;
+
         value_type& back = *m_back++;
 
         new (&back) value_type(std::move(value));
-- 
2.43.0


From d6983954478e1ceb027afcd390c44e44ba3ba1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 016/133] fix: iterating a full deque visits its elements
 instead of none

---
 src/estd/queue.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 9c992f4..31113b4 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -218,17 +218,21 @@ public:
     {
         const deque& parent;
         array_iterator current;
+        // begin() and end() of a full deque share a position, this tells them apart
+        bool at_full_begin;
 
         // DEBT: Do we need a copy constructor here?
 
-        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current)
+        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current, bool at_full_begin = false)
             : parent(parent),
-              current(current)
+              current(current),
+              at_full_begin(at_full_begin)
         {}
 
         forward_iterator& operator++()
         {
             parent.increment(&current);
+            at_full_begin = false;
             return *this;
         }
 
@@ -236,6 +240,7 @@ public:
         forward_iterator& operator--()
         {
             parent.decrement(&current);
+            at_full_begin = parent.full() && current == parent.m_front;
             return *this;
         }
 
@@ -253,19 +258,19 @@ public:
 
         bool operator==(const forward_iterator& compare_to) const
         {
-            return compare_to.current == current;
+            return compare_to.current == current && compare_to.at_full_begin == at_full_begin;
         }
 
         bool operator!=(const forward_iterator& compare_to) const
         {
-            return compare_to.current != current;
+            return !(*this == compare_to);
         }
     };
 
     typedef forward_iterator iterator;
     typedef const iterator const_iterator;
 
-    iterator begin() { return iterator(*this, m_front); }
+    iterator begin() { return iterator(*this, m_front, full()); }
 
     iterator end() { return iterator(*this, m_back); }
 
-- 
2.43.0


From d9ba3121c488ebb6cd10c1a72d9d77bc8da5f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 017/133] fix: make_heap of an empty range does nothing instead
 of reading before it

---
 src/estd/internal/algorithm/heap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/algorithm/heap.h b/src/estd/internal/algorithm/heap.h
index 790770a..b20e399 100644
--- a/src/estd/internal/algorithm/heap.h
+++ b/src/estd/internal/algorithm/heap.h
@@ -162,6 +162,9 @@ struct heap
 
     void make()
     {
+        // nothing to order, and no node to start from
+        if(empty()) return;
+
         int last_nonleaf_idx = (size() - 1) / k;
         // FIX: this is not sufficient, because restore_up doesn't evaluate all children
         //while(!restore_up());
-- 
2.43.0


From bd1691278218ac46ec4d797da0f114b86a7b8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 018/133] fix: swapping an integer with itself keeps its value

---
 src/estd/utility.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 18090e2..964ed93 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -195,6 +195,9 @@ namespace internal {
 template <class T>
 inline void xor_swap(T& a, T& b)
 {
+    // xor with itself would zero the value
+    if (&a == &b) return;
+
     a ^= b;
     b ^= a;
     a ^= b;
-- 
2.43.0


From 8b58ae6b2f62091125d681fda3a29b6c17344a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 019/133] fix: unordered iteration checks for the end before
 reading a slot

---
 src/estd/internal/container/unordered/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9be2a91..be97ac8 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -93,7 +93,7 @@ protected:
     template <class It, class It2>
     static ESTD_CPP_CONSTEXPR(14) It skip_empty(It it, It2 end)
     {
-        for(; traits::is_empty(*it) && it != end; ++it)   {}
+        for(; it != end && traits::is_empty(*it); ++it)   {}
 
         return it;
     }
@@ -107,7 +107,7 @@ protected:
     template <class Control>
     ESTD_CPP_CONSTEXPR(14) Control skip_sparse(Control p, unsigned n) const
     {
-        for(; traits::is_sparse(*p, n) && p != container_.cend(); ++p)    {}
+        for(; p != container_.cend() && traits::is_sparse(*p, n); ++p)    {}
 
         return p;
     }
@@ -389,7 +389,7 @@ protected:
 
             // skip over any sparse entries belonging to this bucket.  They are invisible
             // null entries for this iterator
-            for(; traits::is_sparse(*it_, n_) && it_ != parent_->container_.cend(); ++it_)   {}
+            for(; it_ != parent_->container_.cend() && traits::is_sparse(*it_, n_); ++it_)   {}
 
             return *this;
         }
-- 
2.43.0


From 2ce3a5754614f59a8729c419fb6bbd1372ad35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 020/133] fix: unordered_map prune stops at the bucket start
 before reading a slot

---
 src/estd/internal/container/unordered_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index a9bda66..c54d969 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -151,7 +151,7 @@ public:
     {
         --start;
 
-        for(; is_sparse(*pos, n) && pos != start; --pos)
+        for(; pos != start && is_sparse(*pos, n); --pos)
             gc_sparse_ll(pos);
     }
 
-- 
2.43.0


From 08cee7f05d40fe5ec660327575ced40f008a328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 021/133] fix: unordered_map sparse slots remember buckets
 beyond 63

---
 src/estd/internal/container/unordered/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 7603817..322da7f 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -89,7 +89,7 @@ struct unordered_map_traits_control
             // aka "sparse" - exists specifically to mark as deleted, but physically unmoved
             uint16_t marked_for_gc : 1;
             // which bucket this empty slot *used to* belong to
-            uint16_t bucket : 6;
+            uint16_t bucket : 15;
         };
 
         uint16_t raw;
-- 
2.43.0


From 6dfceaa66e709b85d1b3943300787ca3a6708faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 022/133] fix: unordered_map nulled slots carry no stale sparse
 mark

---
 src/estd/internal/container/unordered/traits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 322da7f..6830830 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -181,6 +181,8 @@ struct unordered_map_traits :
     static ESTD_CPP_CONSTEXPR(14) void set_null(control_type* v)
     {
         nullable{}.set(&v->first);
+        // an empty slot is null until explicitly marked sparse
+        v->second.raw = 0;
     }
 
 private:
@@ -231,6 +233,7 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
         return nullable{}.is_null(v);
     }
 
+    static constexpr bool is_null_not_sparse(const value_type& v) { return is_empty(v); }
     static constexpr bool is_sparse(const value_type&) { return false; }
     static constexpr bool is_sparse(const value_type&, unsigned) { return false; }
 
-- 
2.43.0


From b7037cda8d4cf7a0a07db551ed703a45b3180cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 023/133] fix: unordered insert finds duplicates past erased
 slots, never takes over another bucket's erased slot nor probes past the
 table

---
 src/estd/internal/container/unordered/base.h | 29 ++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index be97ac8..c4f045b 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -219,12 +219,31 @@ protected:
 
         // Move over occupied spots.  Sparse does NOT count as occupied
         // DEBT: optimize is_null/is_sparse together
-        for(;traits::is_empty(*it) == false; ++it)
+        // first usable slot found so far.  We keep looking past a sparse one, since
+        // a duplicate may follow it
+        control_pointer slot = nullptr;
+
+        for(; it != container_.cend(); ++it)
         {
+            if(traits::is_sparse(*it, n))
+            {
+                if(slot == nullptr) slot = it;
+                if(permit_duplicates) break;
+                continue;
+            }
+
+            if(traits::is_empty(*it))
+            {
+                // a sparse slot of another bucket is not ours to take, active entries
+                // of that bucket may be reachable only through it
+                if(slot == nullptr && traits::is_null_not_sparse(*it)) slot = it;
+                break;
+            }
+
             // if we get to the complete end, that's a fail
             // if we've moved to the next bucket, that's also a fail
-            if(it == container_.cend() || index(base_type::key(*it)) != n)
-                return { nullptr, false };
+            if(index(base_type::key(*it)) != n)
+                break;
             else if(!permit_duplicates)
             {
                 if(key_eq_c(key, *it))
@@ -237,8 +256,8 @@ protected:
             // but iterating through a bucket you can get to all of them (and more, likely)
         }
 
-        // Success, but someone else still needs to initialize 'it'
-        return { it, true };
+        // When a slot is found, someone else still needs to initialize it
+        return { slot, slot != nullptr };
     }
 
 
-- 
2.43.0


From eb49201fdb0649947bfeda383b65dae221af1a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 024/133] fix: unordered erase_and_gc keeps every other entry
 of the bucket reachable

---
 src/estd/internal/container/unordered/base.h | 26 +++++++++-----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index c4f045b..8ef884b 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -468,24 +468,22 @@ protected:
     void erase_and_gc_ll(control_pointer pos)
     {
         auto start = pos;
+        auto last = pos;
 
-        destruct(pos);
-
-        ++pos;
+        // Deduce our bucket# while key is still available
+        const size_type n = index(traits::key(*pos));
 
-        // No housekeeping if next guy is null (sparse is OK, but
-        // not yet accounted for here)
-        if (base_type::is_empty(*pos))
-            return;
+        destruct(pos);
 
-        // Quick-deduce our bucket#
-        size_type n = start - container_.cbegin();
-        // Find last one in bucket
-        for(;n == index(traits::key(*pos)) && pos < container_.cend(); ++pos) {}
-        // Decrement to position on actual last one in bucket
-        --pos;
+        // Find last active one in bucket, looking past sparse ones
+        for(++pos; pos != container_.cend(); ++pos)
+        {
+            if(traits::is_sparse(*pos, n)) continue;
+            if(traits::is_empty(*pos) || index(traits::key(*pos)) != n) break;
+            last = pos;
+        }
 
-        traits::swap(*pos, *start);
+        if(last != start) traits::swap(*last, *start);
     }
 
 public:
-- 
2.43.0


From b2c11c0cec26e6cfc1e96682e1af40a3402dcb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 025/133] fix: insert_or_assign reports false when it assigned

---
 src/estd/internal/container/unordered_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index c54d969..94e1ca9 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -283,7 +283,7 @@ public:
             control_pointer cp = found.first;
             mapped_type& p = cp->second.mapped();
             new (&p) mapped_type(std::forward<M>(obj));
-            return { { this, cast(cp) }, true };
+            return { { this, cast(cp) }, false };
         }
         else
         {
-- 
2.43.0


From fa1359322df42fcdd00d48d1a093a73a451c5da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 026/133] fix: unordered equality does not depend on insertion
 order

---
 src/estd/internal/container/unordered/base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 8ef884b..778ed07 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -593,9 +593,9 @@ ESTD_CPP_CONSTEXPR(14) bool operator==(const unordered_base<Container, Traits>&
     // DEBT: Not optimal, since we have to iterate inside size() to make this determination
     if(lhs.size() != rhs.size())    return false;
 
-    for(it l = lhs.begin(), r = rhs.begin(); l != lhs.cend(); ++l, ++r)
+    for(it l = lhs.begin(); l != lhs.cend(); ++l)
     {
-        if(traits::key(*l) != traits::key(*r)) return false;
+        if(!rhs.contains(traits::key(*l))) return false;
     }
 
     return true;
-- 
2.43.0


From 6df89a4c9921a296e6d6c309dd92ff8322bc368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 027/133] fix: forward_list remove/remove_if unlinks and frees
 consecutive matches

Property: C07
---
 src/estd/forward_list.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 81ca246..5cc63f6 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -221,10 +221,14 @@ public:
                 else
                     set_next(previous, _next);
 
+                get_traits().deallocate(current);
+
                 if (first_only) return;
             }
+            else
+                // a removed node is no longer part of the list, so it is never 'previous'
+                previous = current;
 
-            previous = current;
             current = _next;
         }
     }
@@ -263,10 +267,13 @@ public:
                 else
                     set_next(previous, next(current));
 
+                get_traits().deallocate(current);
+
                 if(first_only) return;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
 #endif
-- 
2.43.0


From da1fd3e9c1c31b786c0285ae1484375aa55ba741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 028/133] fix: forward_list erase_after frees the erased node

Property: C07
---
 src/estd/forward_list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 5cc63f6..3ce8852 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -161,6 +161,8 @@ public:
 
         set_next(node_to_erase_after, node_following_erased);
 
+        get_traits().deallocate(node_to_erase);
+
         return iterator(node_following_erased, base_t::traits);
     }
 
-- 
2.43.0


From 3ded6e30b24ae923202faacb554fb30ac9794958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 029/133] fix: inline value list nodes run the value destructor
 before deallocation

Property: C07
---
 src/estd/traits/list_node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/traits/list_node.h b/src/estd/traits/list_node.h
index 06fc7d1..7b7c9d8 100644
--- a/src/estd/traits/list_node.h
+++ b/src/estd/traits/list_node.h
@@ -266,7 +266,7 @@ struct inlinevalue_node_traits_new_base :
 
     void deallocate(node_handle& h)
     {
-        base_t::deallocate_node(h);
+        base_t::destroy(h);
     }
 
 #ifdef FEATURE_CPP_VARIADIC
-- 
2.43.0


From d2abfa14669e02eac91601b83246ad7fa9e1c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 030/133] fix: forward_list_with_back forgets the back node
 when emptied and never keeps a stale link after it

Property: C07
---
 src/estd/internal/list_node.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index ff5d4ba..423e103 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -378,6 +378,9 @@ protected:
             base_type::m_front = new_back;
         }
 
+        // new_back may have been part of a list before
+        base_type::set_next(new_back, base_type::after_end_node());
+
         // set the current 'back' tracker to this new_back
         base_type::m_back = new_back;
     }
@@ -415,6 +418,14 @@ public:
         set_front(base_type::get_traits().allocate(value));
     }
 
+    void pop_front()
+    {
+        base_type::pop_front();
+
+        // the popped node was the back one too
+        if(base_type::empty()) base_type::m_back = base_type::after_end_node();
+    }
+
 };
 
 }
-- 
2.43.0


From 90b4219fe19c046e5d692030b8e3427bf3c22102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 031/133] fix: list iterator operator-(int) terminates

Property: C07
---
 src/estd/iterators/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/iterators/list.h b/src/estd/iterators/list.h
index bd19e6c..653e30b 100644
--- a/src/estd/iterators/list.h
+++ b/src/estd/iterators/list.h
@@ -347,7 +347,7 @@ public:
     {
         ReverseIterator temp(*this);
 
-        return temp - subtrahend;
+        return temp -= subtrahend;
     }
 
     // untested
-- 
2.43.0


From ff3d8456648be39552f5e25e9b555f25ad5805f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 032/133] fix: a variant assignment which throws leaves the
 variant valueless, not holding a destroyed object

Property: C08
---
 src/estd/internal/variant.h         | 8 ++++----
 src/estd/internal/variant/storage.h | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 6e98476..37ef681 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -93,8 +93,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_copy_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, const variant& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, vi.value);
+            v.template assign_or_init<I>(&v.index_, vi.value);
             return true;
         }
 
@@ -103,8 +102,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_move_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, variant&& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, std::move(vi.value));
+            v.template assign_or_init<I>(&v.index_, std::move(vi.value));
             return true;
         }
 
@@ -116,6 +114,7 @@ class variant : protected variant_storage<Types...>
             // directly and not abort when index is found - however, that
             // breaks our burgeoning paradigm, so holding off
             v.destroy_if_valid();
+            v.index_ = variant_npos();
 
             v.template copy<I>(copy_from);
 
@@ -129,6 +128,7 @@ class variant : protected variant_storage<Types...>
         bool operator()(variadic::v1::visitor_index<I, T_i>, variant& v, variant&& move_from, bool = true)
         {
             v.destroy_if_valid();
+            v.index_ = variant_npos();
 
             v.template move<I>(std::move(move_from));
 
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 1fea032..c12035d 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -514,6 +514,8 @@ public:
             // ... if not, destroy what we're tracking (if any) and
             // do a direct initialization
             destroy(*index);
+            // Just in case exception is thrown during construction
+            *index = variant_npos();
             direct_init_helper<I, T_j>(std::forward<U>(u));
             *index = I;
         }
-- 
2.43.0


From f11d9d13113ec18675313c218ca24ffcaf09c91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 033/133] fix: variant self assignment keeps the value

Property: C08
---
 src/estd/internal/variant.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 37ef681..ac470ed 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -310,6 +310,8 @@ public:
     // DEBT: Needs more work, but coming along
     variant& operator=(const variant& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
@@ -329,6 +331,8 @@ public:
 
     variant& operator=(variant&& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
-- 
2.43.0


From 65b7a1262f65fa7767b7828fcbcffdc8ec6c9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 034/133] fix: variant, optional and expected storage is
 aligned for its non-trivial alternatives

Property: C09
---
 src/estd/internal/variant/storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index c12035d..aa50879 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -39,7 +39,7 @@ inline static monostate construct_at(void* placement, TArgs&&...args)
 template <class ...T>
 union variant_union<false, T...>
 {
-    estd::byte raw[sizeof(typename largest_type<T...>::type)];
+    alignas(T...) estd::byte raw[sizeof(typename largest_type<T...>::type)];
 };
 
 template <>
-- 
2.43.0


From e5c71bcc70df32d6e9b32cb62a9e7abb7d052d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 035/133] fix: optional emplace which throws leaves the
 optional empty

Property: C09
---
 src/estd/optional.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 6a54c65..d1eef96 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -233,6 +233,9 @@ public:
     {
         base_type::destroy();
 
+        // Just in case exception is thrown during construction
+        base_type::has_value(false);
+
         T& v = base_type::emplace(std::forward<TArgs>(args)...);
 
         base_type::has_value(true);
-- 
2.43.0


From b2aa23b323241241a19907f1517c743177b2ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 036/133] fix: moving a linked_ref which nobody else shares
 keeps a proper ring

Property: C11
---
 src/estd/internal/linked_ref.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/linked_ref.h b/src/estd/internal/linked_ref.h
index c8a0e28..3ea134e 100644
--- a/src/estd/internal/linked_ref.h
+++ b/src/estd/internal/linked_ref.h
@@ -89,11 +89,20 @@ public:
         // is superior here, but that's
         // 1. not implemented yet
         // 2. increases our footprint by ~33%
-        list_type l(&move_from);
-        const_iterator pos(l.before_begin().current_);
+        if(move_from.next_ == &move_from)
+        {
+            // sole member of its ring, so nobody else to relink
+            next_ = this;
+        }
+        else
+        {
+            list_type l(&move_from);
+            const_iterator pos(l.before_begin().current_);
+
+            // Not quite ready yet
+            l.replace_after(pos, *this);
+        }
 
-        // Not quite ready yet
-        l.replace_after(pos, *this);
         move_from.next_ = nullptr;
     }
 
-- 
2.43.0


From cc71b2a61f1b2def704f7ac942eebe2d480b8d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 037/133] fix: copying a layer3 shared_ptr counts even after
 master has been reset

Property: C11
---
 src/estd/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 2bfdf37..d8c6612 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -309,7 +309,9 @@ public:
     shared_ptr2_base(estd::internal::shared_ptr_control_block<T>* master_shared_ptr) :
         base_type(master_shared_ptr)
     {
-        if(master_shared_ptr && master_shared_ptr->is_active)
+        // is_active tells only whether master itself still refers to the object.  Other
+        // references may be copied long after master was reset
+        if(master_shared_ptr)
             master_shared_ptr->shared_count++;
     }
 
-- 
2.43.0


From 98b340d5aa645eaf66cd210b9ffc6e06b911e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 038/133] fix: layer3 shared_ptr self assignment keeps its
 reference

Property: C11
---
 src/estd/memory.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index d8c6612..f11372a 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -585,6 +585,9 @@ public:
     shared_ptr& operator=(TSharedPtr&
                          copy_from)
     {
+        // self assignment would release the very reference we are to copy
+        if(static_cast<const void*>(this) == static_cast<const void*>(&copy_from)) return *this;
+
         this->reset();
         new (this) shared_ptr(copy_from);
         return *this;
-- 
2.43.0


From b86a92f7e5ccfddaa812f171bf1722a9a31ec92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 039/133] fix: function made from or assigned an lvalue
 callable copies it rather than moving from it

Property: C12
---
 src/estd/functional.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index dc23f7e..bc923ad 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -179,7 +179,7 @@ public:
         typedef typename base_type::template model<incoming_function_type> model_type;
         //allocator_traits::rebind_alloc<model_type>
         // FIX: Don't want to dynamically allocate memory quite this way
-        auto m = new model_type(std::move(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
@@ -230,8 +230,14 @@ public:
     template <typename F>
     function& operator=(F&& f)
     {
+        // Moves only from what we are allowed to move from.  Other functions are always
+        // moved, since they can't be copied
+        typedef estd::decay_t<F> decayed;
+        typedef estd::conditional_t<
+            estd::is_base_of<function, decayed>::value, decayed, F>&& forwarded;
+
         reset();
-        new (this) function(std::move(f));
+        new (this) function(static_cast<forwarded>(f));
         return *this;
     }
 
-- 
2.43.0


From b922ed1c0d8fc1d8b2d0d096f61b087ccec307cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 040/133] fix: a copied inline_function or thisify_function
 calls its own callable

Property: C12
---
 src/estd/functional.h          | 8 ++++++++
 src/estd/internal/functional.h | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index bc923ad..edeef25 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -293,6 +293,14 @@ public:
 
     }
 
+    // A copy calls its own model, not the one in copy_from
+    inline_function(const inline_function& copy_from) :
+        base_type(&m),
+        m(copy_from.m)
+    {
+
+    }
+
     /*
     inline_function(const inline_function& copy_from) = default;
     inline_function(inline_function&& move_from) :
diff --git a/src/estd/internal/functional.h b/src/estd/internal/functional.h
index 33d274e..c973800 100644
--- a/src/estd/internal/functional.h
+++ b/src/estd/internal/functional.h
@@ -312,6 +312,13 @@ public:
     {
     }
 
+    // A copy calls its own model, not the one in copy_from
+    thisify_function(const thisify_function& copy_from) :
+        base_type(&m_),
+        m_(copy_from.m_)
+    {
+    }
+
     // UNUSED, and you're probably better off using inline_function
     template <class T, function_type<T> f>
     static thisify_function create(T* foreign_this)
-- 
2.43.0


From af28bdac8c27fd7abf814af21599d7716713e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 041/133] fix: buffered bipbuf streambuf flushes only the
 contiguous region

Property: C15
---
 src/estd/internal/impl/streambuf/bipbuf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 3187c62..6533a47 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -53,7 +53,9 @@ protected:
     int sync()
     {
         // DEBT: A lot of tuning opportunity here
-        const unsigned sz = buf_.used();
+        const bipbuf_t* const native = buf_.native();
+        // Only what is contiguous may be peeked at and polled at once
+        const unsigned sz = native->a_end - native->a_start;
         auto b = (char_type*)buf_.peek(sz);
         unsigned written = base_type::rdbuf().sputn(b, sz);
         if(written == 0) return -1;
-- 
2.43.0


From 7baa9364183cf88616eac0f0521fc1ce76dcc47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 042/133] fix: bipbuf peek/poll refuse more than region A holds

Property: C14
---
 src/estd/ext/willemt/bipbuffer/bipbuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/ext/willemt/bipbuffer/bipbuffer.c b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
index fdcc2eb..cb7b813 100644
--- a/src/estd/ext/willemt/bipbuffer/bipbuffer.c
+++ b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
@@ -97,7 +97,7 @@ int bipbuf_offer(bipbuf_t* me, const unsigned char *data, const int size)
 unsigned char *bipbuf_peek(const bipbuf_t* me, const unsigned int size)
 {
     /* make sure we can actually peek at this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end < me->a_start + size)
         return NULL;
 
     if (bipbuf_is_empty(me))
@@ -112,7 +112,7 @@ unsigned char *bipbuf_poll(bipbuf_t* me, const unsigned int size)
         return NULL;
 
     /* make sure we can actually poll this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end < me->a_start + size)
         return NULL;
 
     void *end = me->data + me->a_start;
-- 
2.43.0


From 4b371158a2fff57439c4c9a1bfbe188c34f26f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:53 +0000
Subject: [PATCH 043/133] fix: span output streambuf never writes past its
 span, whatever the character size

Property: C15
---
 src/estd/internal/impl/streambuf/span.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 1eee046..2e3376d 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -73,12 +73,14 @@ struct out_span_streambuf :
     }
 
     char_type* pptr() const { return pbase() + base_out_type::pos(); }
-    char_type* epptr() const { return pbase() + out().size_bytes(); }
+    char_type* epptr() const { return pbase() + out().size(); }
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // TODO: do proper bounds checking here
-        memcpy(pptr(), s, count);
+        const streamsize remaining = epptr() - pptr();
+        if(remaining <= 0) return 0;
+        if(count > remaining) count = remaining;
+        memcpy(pptr(), s, count * sizeof(char_type));
         this->pbump(count);
         return count;
     }
@@ -86,7 +88,7 @@ struct out_span_streambuf :
     int_type sputc(char_type ch)
     {
         const pos_type& pos = base_out_type::pos();
-        if(pos >= out().size_bytes())
+        if(pos >= out().size())
             return base_out_type::overflow();
 
         *(pptr()) = ch;
@@ -115,7 +117,7 @@ protected:
 
             case ios_base::end:
                 // UNTESTED
-                base_out_type::seekpos(out().size_bytes() + off);
+                base_out_type::seekpos(out().size() + off);
                 break;
         }
 
-- 
2.43.0


From 8388209ecedecfdb834aa8406833d292da0e5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:53 +0000
Subject: [PATCH 044/133] fix: span input streambuf position covers the whole
 span rather than wrapping at 65536

Property: C15
---
 src/estd/internal/impl/streambuf/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 2e3376d..82ba972 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -141,13 +141,13 @@ template <class TChar,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
-        in_pos_streambuf_base<TCharTraits>,
+        in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type>,
 
         streambuf_gptr_tag,
 
         TBase
 {
-    typedef in_pos_streambuf_base<TCharTraits> base_pos_type;
+    typedef in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type> base_pos_type;
     typedef TBase base_type;
 
     using typename base_pos_type::traits_type;
-- 
2.43.0


From 1787a3902e5f440a39e2da631c0a2b1a8fcf0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:53 +0000
Subject: [PATCH 045/133] fix: writing to a full string streambuf reports it
 rather than running into the string's end

Property: C15
---
 src/estd/internal/impl/streambuf/string.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 64eef37..9988a2b 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -34,15 +34,18 @@ struct out_stringbuf : stringbuf_base<String>
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // FIX: normal strings throw an exception if we exceed internal
-        // buffer size, but here we should instead have an optional error
-        // facility
+        // normal strings throw an exception if we exceed internal
+        // buffer size, but here we instead write what fits
+        const streamsize remaining = str_.max_size() - str_.size();
+        if(count > remaining) count = remaining;
         str_.append(s, count);
         return count;
     }
 
     int_type sputc(char_type ch)
     {
+        if(str_.size() >= str_.max_size())  return traits_type::eof();
+
         str_ += ch;
         return traits_type::to_int_type(ch);
     }
-- 
2.43.0


From 670bd3b6bed95a2cd149cdaacbfdc6e5d0b7c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:53 +0000
Subject: [PATCH 046/133] fix: string streambuf relative seek returns the new
 position rather than failure

Property: C15
---
 src/estd/internal/impl/streambuf/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 9988a2b..c6adfdc 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -140,7 +140,10 @@ struct basic_stringbuf :
 
             case ios_base::cur:
                 if(which & ios_base::in)
+                {
                     in_base_type::gbump(off);
+                    return pos();
+                }
                 break;
 
             case ios_base::end:
-- 
2.43.0


From cafb8cc488b71327f9fe73e668d908e8594f57f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:52 +0000
Subject: [PATCH 047/133] fix: an unbounded layer2 string is not measured
 modulo 256

Property: C03
---
 src/estd/allocators/fixed.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/estd/allocators/fixed.h b/src/estd/allocators/fixed.h
index bc3e8fd..137a952 100644
--- a/src/estd/allocators/fixed.h
+++ b/src/estd/allocators/fixed.h
@@ -388,10 +388,13 @@ struct allocator : estd::internal::single_fixedbuf_allocator<T, len,
 
 namespace layer2 {
 
+// Unbounded (len == 0) tells us nothing about how big things get, so size_t is in order
 template <class T, size_t len>
-struct allocator : estd::internal::single_fixedbuf_allocator<T, len, T*>
+struct allocator : estd::internal::single_fixedbuf_allocator<T, len, T*,
+    conditional_t<len == 0, size_t, typename internal::deduce_fixed_size_t<len>::size_type> >
 {
-    typedef estd::internal::single_fixedbuf_allocator<T, len, T*> base_t;
+    typedef estd::internal::single_fixedbuf_allocator<T, len, T*,
+        conditional_t<len == 0, size_t, typename internal::deduce_fixed_size_t<len>::size_type> > base_t;
 
     ESTD_CPP_CONSTEXPR_RET EXPLICIT allocator(T* buf) : base_t(buf) {}
 
-- 
2.43.0


From 646aa9dd815833f0740602745d61a4fde6fe2fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 048/133] fix: string streambuf get position reaches as far as
 its string

Property: C15
---
 src/estd/internal/impl/streambuf/string.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index c6adfdc..965aa55 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -73,16 +73,26 @@ struct out_stringbuf : stringbuf_base<String>
 };
 
 
+// Get position must reach as far as the string's own size does
+template <class String>
+struct stringbuf_index
+{
+    typedef typename remove_reference_t<String>::size_type size_type;
+    typedef conditional_t<(sizeof(size_type) > sizeof(unsigned short)),
+        size_type, unsigned short> type;
+};
+
 template <class String>
 struct basic_stringbuf :
         out_stringbuf<String>,
-        in_pos_streambuf_base<typename remove_reference_t<String>::traits_type>,
+        in_pos_streambuf_base<typename remove_reference_t<String>::traits_type,
+            typename stringbuf_index<String>::type>,
 
         streambuf_sungetc_tag
 {
     typedef out_stringbuf<String> base_type;
     using char_traits = typename remove_reference_t<String>::traits_type;
-    typedef in_pos_streambuf_base<char_traits> in_base_type;
+    typedef in_pos_streambuf_base<char_traits, typename stringbuf_index<String>::type> in_base_type;
     typedef typename base_type::traits_type traits_type;
     typedef typename base_type::char_type char_type;
     typedef typename traits_type::int_type int_type;
-- 
2.43.0


From b95c09eb1d5262c3d8d9455ff13f8494192869a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 049/133] fix: bulk reading from a const char string streambuf
 compiles

Property: C15
---
 src/estd/internal/impl/streambuf/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 965aa55..490a4aa 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -106,7 +106,7 @@ struct basic_stringbuf :
     // See in_base_type::pos() for why we use ref here
     const typename in_base_type::index_type& pos() const { return in_base_type::pos(); }
 
-    streamsize xsgetn(char_type* s, streamsize count)
+    streamsize xsgetn(remove_const_t<char_type>* s, streamsize count)
     {
         size_type count_copied = base_type::str().copy(s, count, pos());
 
-- 
2.43.0


From 22f7286908c8a9d21b9ac8aa33f5923cc2ab10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 050/133] fix: span input stream over const char tells 0xFF
 from eof

Property: C15
---
 src/estd/internal/impl/streambuf/span.h | 2 +-
 src/estd/istream.h                      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 82ba972..66a5534 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -137,7 +137,7 @@ public:
 // be implemented in a derived class
 // DEBT: Refactor this to take CharTraits directly
 template <class TChar,
-        class TCharTraits =  estd::char_traits<TChar>,
+        class TCharTraits =  estd::char_traits<remove_const_t<TChar> >,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
diff --git a/src/estd/istream.h b/src/estd/istream.h
index 007f613..3866cbc 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -170,12 +170,12 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 // live in estd itself rather than estd::detail
 namespace detail {
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<remove_const_t<Char>>>
 using basic_ispanbuf = estd::internal::streambuf<estd::internal::impl::in_span_streambuf<Char, CharTraits> >;
 
 using ispanbuf = basic_ispanbuf<char>;
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<remove_const_t<Char>>>
 using basic_ispanstream = estd::detail::basic_istream<basic_ispanbuf<Char>>;
 
 using ispanstream = basic_ispanstream<char>;
-- 
2.43.0


From d9664dbf443ad5ac72dc3d1acb92e0bba7064feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:41 +0000
Subject: [PATCH 051/133] fix: flushing a buffered bipbuf streambuf delivers
 all of it, and succeeds when there is nothing to deliver

Property: C16
---
 src/estd/internal/impl/streambuf/bipbuf.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 6533a47..5ad059e 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -54,12 +54,17 @@ protected:
     {
         // DEBT: A lot of tuning opportunity here
         const bipbuf_t* const native = buf_.native();
-        // Only what is contiguous may be peeked at and polled at once
-        const unsigned sz = native->a_end - native->a_start;
-        auto b = (char_type*)buf_.peek(sz);
-        unsigned written = base_type::rdbuf().sputn(b, sz);
-        if(written == 0) return -1;
-        buf_.poll(written);
+
+        while(buf_.used() > 0)
+        {
+            // Only what is contiguous may be peeked at and polled at once
+            const unsigned sz = native->a_end - native->a_start;
+            auto b = (char_type*)buf_.peek(sz);
+            const streamsize written = base_type::rdbuf().sputn(b, sz);
+            if(written <= 0) return -1;
+            buf_.poll(written);
+        }
+
         return 0;
     }
 
-- 
2.43.0


From 920beddaa00c94bf9168dbd5e17bfee1ad407994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:41 +0000
Subject: [PATCH 052/133] fix: a buffered bipbuf streambuf which cannot flush
 refuses the character rather than writing past its buffer

Property: C16
---
 src/estd/internal/impl/streambuf/bipbuf.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 5ad059e..97cccbe 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -75,7 +75,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 
 protected:
@@ -104,8 +104,14 @@ protected:
     int_type overflow(int_type ch)
     {
         if(xout_avail() == 0)
+        {
             sync();
 
+            if(xout_avail() == 0)   return traits_type::eof();
+        }
+
+        if(ch == traits_type::eof())    return 0;
+
         *pptr() = traits_type::to_char_type(ch);
         pbump(1);
 
-- 
2.43.0


From a02f0cc5ee1ea6bbe9627af6fa3f5cd71a00a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 053/133] fix: buffered string streambuf loses nothing when the
 sink takes part or when characters exceed its buffer

Property: C16
---
 src/estd/internal/impl/streambuf/buffer.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index d88b72e..dae2122 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -44,10 +44,13 @@ class out_buffered_stringbuf : public wrapped_streambuf_base<Streambuf>
         // DEBT: We can expect potential spinlock type behavior,
         // which may be needed due to the simplicity of string buffering
         // (may need a queue or bipbuffer to really overcome that)
-        base_type::rdbuf().sputn(buf_.data(), buf_.size());
-        buf_.clear();
-        // DEBT: Need to heed output of sputn to truly indicate status
-        return 0;
+        const streamsize written = base_type::rdbuf().sputn(buf_.data(), buf_.size());
+
+        if(written <= 0) return -1;
+
+        // What has not been written remains for next time
+        buf_.erase(0, written);
+        return buf_.empty() ? 0 : -1;
     }
 
 public:
@@ -67,10 +70,12 @@ protected:
     {
         if(full())
         {
-            if(ll_sync() != 0)  return traits_type::eof();
+            ll_sync();
+
+            if(full())  return traits_type::eof();
         }
 
-        if(traits_type::not_eof(ch))
+        if(ch != traits_type::eof())
         {
             buf_ += traits_type::to_char_type(ch);
         }
@@ -84,7 +89,9 @@ protected:
     {
         const estd::streamsize maximum = remaining();
 
-        buf_.append(s, count > maximum ? maximum : count);
+        if(count > maximum) count = maximum;
+
+        buf_.append(s, count);
 
         // wrapper sputn handles this via 'overflow' - a little clumsy though
         //if(full())
@@ -102,7 +109,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 };
 
-- 
2.43.0


From 4a0411859fa2c2c07f079fba34715147ed32b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:13 +0000
Subject: [PATCH 054/133] fix: sputn stores the whole of what overflow can make
 room for, 0xFF included

Property: C16
---
 src/estd/streambuf.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 1ef327d..868113f 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -131,19 +131,21 @@ public:
 
         // TODO: Consider a non-function-present flavor of optimizing to know if
         // overflow is even implemented so as to optimize this portion
-        if(written < count)
+        while(written >= 0 && written < count)
         {
-            s += written;
+            if(this->overflow(traits_type::to_int_type(s[written])) == traits_type::eof())
+                break;
 
-            if(this->overflow(*s) != traits_type::eof())
-            {
-                // getting here means one more character was placed into put area
-                count -= ++written;
+            // getting here means one more character was placed into put area
+            ++written;
 
-                // a successful overflow indicates more put area
-                // is available, so give it a shot
-                written += this->xsputn(s + 1, count);
-            }
+            // a successful overflow indicates more put area
+            // is available, so give it a shot
+            const streamsize more = this->xsputn(s + written, count - written);
+
+            if(more < 0)    break;
+
+            written += more;
         }
 
         return written;
-- 
2.43.0


From aeb65f6e1f51ce72b24b2510e75f7313c6c993d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 055/133] fix: buffered bipbuf input consumes what it reads,
 refills, and tells 0xFF from end of file

Property: C17
---
 src/estd/internal/impl/streambuf/bipbuf.h | 34 +++++++++++++++--------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 97cccbe..718171e 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -155,7 +155,8 @@ public:
     using nonconst_char_type = remove_const_t<char_type>;
 
 private:
-    adapt_bipbuf<sizeof(char_type) * len> buf_;
+    // abusing mutable to conform with constness of egptr()
+    mutable adapt_bipbuf<sizeof(char_type) * len> buf_;
 
 protected:
     // 21MAY24 DEBT: It's unclear what constitutes a failure here (-1).
@@ -172,7 +173,7 @@ protected:
 
         const streamsize actually_read = base_type::rdbuf().sgetn(buffer, unused);
 
-        if(actually_read == 0)  return -1;
+        if(actually_read <= 0)  return -1;
 
         buf_.offer_end(actually_read);
 
@@ -192,12 +193,23 @@ protected:
 
     streamsize xsgetn(nonconst_char_type* s, streamsize count)
     {
-        if(count > xin_avail())
-            count = xin_avail();
+        streamsize got = 0;
 
-        copy_n(buf_.peek(), count, s);
+        while(got < count)
+        {
+            if(xin_avail() == 0 && sync() == -1)    break;
 
-        return count;
+            // Only what is contiguous may be copied and polled at once
+            streamsize n = egptr() - gptr();
+
+            if(n > count - got) n = count - got;
+
+            copy_n(gptr(), n, s + got);
+            gbump(n);
+            got += n;
+        }
+
+        return got;
     }
 
     ESTD_CPP_FORWARDING_CTOR(in_buffered_bipbuf)
@@ -206,12 +218,10 @@ protected:
     {
         if(xin_avail() == 0)
         {
-            // DEBT: Return proper eof
-            if(sync() == -1)    return -1;
+            if(sync() == -1)    return traits_type::eof();
         }
 
-        // DEBT: Wrap with traits
-        return xsgetc();
+        return traits_type::to_int_type(xsgetc());
     }
 
     int_type uflow()
@@ -243,7 +253,9 @@ public:
 
     const char_type* egptr() const
     {
-        return gptr() + buf_.used();
+        const bipbuf_t* const native = buf_.native();
+
+        return gptr() + (native->a_end - native->a_start);
     }
 };
 
-- 
2.43.0


From 27d6e4c884055d732616585e955cb3b6e13500d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 056/133] fix: span and string stream buffer seeks stay within
 the sequence

Property: C15
---
 src/estd/internal/impl/streambuf/pos.h    | 12 +++++++++++
 src/estd/internal/impl/streambuf/span.h   | 26 +++++++++--------------
 src/estd/internal/impl/streambuf/string.h | 23 ++------------------
 3 files changed, 24 insertions(+), 37 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/pos.h b/src/estd/internal/impl/streambuf/pos.h
index 1edd79a..97b71c4 100644
--- a/src/estd/internal/impl/streambuf/pos.h
+++ b/src/estd/internal/impl/streambuf/pos.h
@@ -58,6 +58,18 @@ protected:
         }
     }
 
+    // Seek which stays within [0, size], or else fails and leaves position where it was
+    bool seekoff_within(off_type off, ios_base::seekdir way, index_type size)
+    {
+        const off_type target = off +
+            (way == ios_base::beg ? 0 : way == ios_base::cur ? off_type(_pos) : off_type(size));
+
+        if(target < 0 || target > off_type(size))   return false;
+
+        seekpos(target);
+        return true;
+    }
+
 public:
     // NOTE: Old comment here, just for reference as to why we have both index_type
     // and pos_type
diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 66a5534..15bbf03 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -97,7 +97,6 @@ struct out_span_streambuf :
     }
 
 protected:
-    // NOTE: currently undefined if pos ends up outside boundaries
     // NOTE: consider changing dir and which to template non-type parameters/compile
     // time constants
     pos_type seekoff(off_type off, ios_base::seekdir way, ios_base::openmode which)
@@ -105,21 +104,7 @@ protected:
         // openmode MUST include 'out' in this instance, otherwise error or ignore
         if(!(which & ios_base::out)) return -1;
 
-        switch(way)
-        {
-            case ios_base::cur:
-                this->pbump(off);
-                break;
-
-            case ios_base::beg:
-                base_out_type::seekpos(off);
-                break;
-
-            case ios_base::end:
-                // UNTESTED
-                base_out_type::seekpos(out().size() + off);
-                break;
-        }
+        if(!base_out_type::seekoff_within(off, way, out().size()))  return -1;
 
         return base_out_type::pos();
     }
@@ -195,6 +180,15 @@ protected:
     }
 
     ESTD_CPP_CONSTEXPR_RET const char_type& xsgetc() const { return *gptr(); }
+
+    pos_type seekoff(typename base_pos_type::off_type off, ios_base::seekdir way,
+        ios_base::openmode which = ios_base::in | ios_base::out)
+    {
+        if(!(which & ios_base::in) || !base_pos_type::seekoff_within(off, way, in().size()))
+            return -1;
+
+        return pos();
+    }
 };
 
 
diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 490a4aa..704a175 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -138,29 +138,10 @@ struct basic_stringbuf :
     //char_type* gptr() { return base_type::_str.data() + in_base_type::pos(); }
 
 
-    // UNTESTED
     pos_type seekoff(off_type off, ios_base::seekdir dir, ios_base::openmode which)
     {
-        switch(dir)
-        {
-            case ios_base::beg:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(off);
-                break;
-
-            case ios_base::cur:
-                if(which & ios_base::in)
-                {
-                    in_base_type::gbump(off);
-                    return pos();
-                }
-                break;
-
-            case ios_base::end:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(this->str().length() + off);
-                break;
-        }
+        if((which & ios_base::in) && in_base_type::seekoff_within(off, dir, this->str().length()))
+            return pos();
 
         return pos_type(off_type(-1));
     }
-- 
2.43.0


From c3e824d0603a8f0fd240a185e880859653ad216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 057/133] fix: istream unformatted input counts, terminates and
 reports as the standard does

Property: C18
---
 src/estd/internal/istream.h | 135 ++++++++++++++++++++----------------
 src/estd/istream.h          |   2 +-
 2 files changed, 75 insertions(+), 62 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index c8d2b42..56fd27f 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -72,6 +72,30 @@ private:
 
     typedef basic_istream<Streambuf, Base> __istream_type;
 
+    // Since what is read is never eof, a delim of eof never stops it
+    basic_istream& ignore_until(streamsize count, const int_type delim)
+    {
+        streamsize extracted = 0;
+
+        while (count-- > 0)
+        {
+            const int_type ch = this->rdbuf()->sbumpc();
+
+            if (ch == traits_type::eof())
+            {
+                this->setstate(ios_base::eofbit);
+                break;
+            }
+
+            ++extracted;
+
+            if (ch == delim) break;
+        }
+
+        gcount(extracted);
+        return *this;
+    }
+
     // just a formality for now, to prep for if we ever want a real sentry
     struct sentry
     {
@@ -98,11 +122,10 @@ public:
 public:
     int_type get()
     {
-#if FEATURE_ESTD_IOS_GCOUNT
-        ++_gcount;
-#endif
         int_type c = this->rdbuf()->sbumpc();
 
+        gcount(c == traits_type::eof() ? 0 : 1);
+
         if(c == traits_type::eof())
         {
             base_type::setstate(
@@ -118,6 +141,8 @@ public:
 #if FEATURE_ESTD_IOS_GCOUNT
         _gcount = 0;
 #endif
+        this->unsetstate(ios_base::eofbit);
+
         if (this->rdbuf()->sungetc() == traits_type::eof())
             this->setstate(ios_base::badbit);
 
@@ -126,8 +151,13 @@ public:
 
     __istream_type& seekg(off_type off, ios_base::seekdir dir)
     {
-        this->unsetstate(ios_base::failbit);
-        this->rdbuf()->pubseekoff(off, dir, ios_base::in);
+        typedef typename streambuf_type::pos_type pos_type;
+
+        this->unsetstate(ios_base::failbit | ios_base::eofbit);
+
+        if (this->rdbuf()->pubseekoff(off, dir, ios_base::in) == pos_type(off_type(-1)))
+            this->setstate(ios_base::failbit);
+
         return *this;
     }
 
@@ -140,12 +170,17 @@ public:
         // if count > number of available bytes
         // then read only available bytes
         // otherwise read all of count
-        streamsize m = estd::min(count, rdbuf.in_avail());
+        const streamsize avail = rdbuf.in_avail();
+        streamsize m = 0;
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = m;
-#endif
-        return rdbuf.sgetn(s, m);
+        if (avail == -1)
+            // no more characters will come
+            this->setstate(ios_base::eofbit);
+        else
+            m = rdbuf.sgetn(s, estd::min(count, avail));
+
+        gcount(m);
+        return m;
     }
 
     __istream_type& read(char_type* s, streamsize n)
@@ -153,13 +188,12 @@ public:
         // TODO: optimization point.  We want to do something
         // so that we don't inline this (and other read/write operations like it)
         // all over the place
-        if (this->rdbuf()->sgetn(s, n) != n)
-            // TODO: Consider setting _gcount here to what *was* returned
-            this->setstate(base_type::eofbit);
+        const streamsize m = this->rdbuf()->sgetn(s, n);
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = n;
-#endif
+        if (m != n)
+            this->setstate(base_type::failbit | base_type::eofbit);
+
+        gcount(m);
 
         return *this;
     }
@@ -168,34 +202,44 @@ public:
     __istream_type& getline(char_type* s, streamsize count, char_type delim = '\n')
     {
         streambuf_type* stream = this->rdbuf();
-
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = 0;
-#endif
+        streamsize extracted = 0;
 
         for (;;)
         {
-            int_type c = stream->sbumpc();
+            const int_type c = stream->sgetc();
 
-            if (traits_type::eq(c, traits_type::eof()))
+            if (c == traits_type::eof())
             {
                 this->setstate(base_type::eofbit);
                 break;
             }
 
-            if (!count-- || traits_type::eq(c, delim))
+            if (c == traits_type::to_int_type(delim))
+            {
+                // delimiter is extracted, but not stored
+                stream->sbumpc();
+                ++extracted;
+                break;
+            }
+
+            // room for terminator is always needed
+            if (count <= 1)
             {
                 this->setstate(base_type::failbit);
                 break;
             }
 
-            *s++ = c;
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            *s++ = traits_type::to_char_type(c);
+            stream->sbumpc();
+            --count;
+            ++extracted;
         }
 
-        *s = 0;
+        if (extracted == 0) this->setstate(base_type::failbit);
+
+        gcount(extracted);
+
+        if (count > 0)  *s = 0;
 
         return *this;
     }
@@ -253,45 +297,14 @@ public:
     // delim test is disabled if delim is default value, which would be EOF
     basic_istream& ignore(streamsize count = 1)
     {
-        while (count--)
-        {
-            int_type ch = get();
-
-            if (ch == traits_type::eof())
-            {
-                this->setstate(ios_base::eofbit);
-                return *this;
-            }
-
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
-        }
-        return *this;
+        return ignore_until(count, traits_type::eof());
     }
 
     // http://en.cppreference.com/w/cpp/io/basic_istream/ignore
     basic_istream& ignore(streamsize count, const int_type delim)
     {
         // "This [delimiter] test is disabled if delim is Traits::eof()"
-        if (delim == traits_type::eof()) return ignore(count);
-
-        while (count--)
-        {
-            int_type ch = get();
-
-            if (ch == traits_type::eof())
-            {
-                this->setstate(ios_base::eofbit);
-                break;
-            }
-            else if (ch == delim) break;
-
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
-        }
-        return *this;
+        return ignore_until(count, delim);
     }
 
 
diff --git a/src/estd/istream.h b/src/estd/istream.h
index 3866cbc..a42562e 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -161,7 +161,7 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 
     const typename traits::int_type c = in.get();
 
-    if(traits::not_eof(c))  value = traits::to_char_type(c);
+    if(c != traits::eof())  value = traits::to_char_type(c);
 
     return in;
 }
-- 
2.43.0


From b5a7dc589546a48604e3b627ca0bd197ec23daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:30 +0000
Subject: [PATCH 058/133] fix: reading a word stops at the string's capacity
 and leaves a failed stream alone

Property: C18
---
 src/estd/internal/istream_runtimearray.hpp | 9 +++++++++
 src/estd/istream.h                         | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/src/estd/internal/istream_runtimearray.hpp b/src/estd/internal/istream_runtimearray.hpp
index a732392..973cd5a 100644
--- a/src/estd/internal/istream_runtimearray.hpp
+++ b/src/estd/internal/istream_runtimearray.hpp
@@ -53,6 +53,9 @@ void do_input(detail::basic_istream<TStreambuf, TBase>& in,
         }
         else if(isspace(traits_type::to_char_type(ch), loc)) break;
 
+        // "str.max_size() characters are stored"
+        if(value.size() >= value.max_size()) break;
+
         // NOTE: += is defined and should have worked
         value.push_back(traits_type::to_char_type(ch));
         //value += (char_type)ch;
@@ -119,6 +122,12 @@ detail::basic_istream<TStreambuf, TBase>& operator >>(
         detail::basic_istream<TStreambuf, TBase>& in,
         internal::dynamic_array<TStringImpl>& value)
 {
+    if(!in.good())
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
+
     in >> ws;
 
     value.clear();
diff --git a/src/estd/istream.h b/src/estd/istream.h
index a42562e..ee76b97 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -157,6 +157,12 @@ detail::basic_istream<Streambuf, Base>& operator >>(
     using stream_type = detail::basic_istream<Streambuf, Base>;
     using traits = typename stream_type::traits_type;
 
+    if(!in.good())
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
+
     in >> ws;
 
     const typename traits::int_type c = in.get();
-- 
2.43.0


From 5d3c367f88632dfb0714c5cce1eb128a28efbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 059/133] fix: input streams over const characters read blocks
 and tell 0xFF from end of file

Property: C18
---
 src/estd/internal/istream.h | 7 ++++---
 src/estd/sstream.h          | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index 56fd27f..8f4b781 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -20,6 +20,7 @@ class basic_istream : public
 
 public:
     typedef typename base_type::char_type char_type;
+    typedef typename remove_const<char_type>::type nonconst_char_type;
     typedef typename base_type::streambuf_type streambuf_type;
     typedef typename streambuf_type::off_type off_type;
     typedef typename streambuf_type::traits_type traits_type;
@@ -164,7 +165,7 @@ public:
 
     // nonblocking read
     // Only lightly tested
-    streamsize readsome(char_type* s, streamsize count)
+    streamsize readsome(nonconst_char_type* s, streamsize count)
     {
         streambuf_type& rdbuf = *(this->rdbuf());
         // if count > number of available bytes
@@ -183,7 +184,7 @@ public:
         return m;
     }
 
-    __istream_type& read(char_type* s, streamsize n)
+    __istream_type& read(nonconst_char_type* s, streamsize n)
     {
         // TODO: optimization point.  We want to do something
         // so that we don't inline this (and other read/write operations like it)
@@ -199,7 +200,7 @@ public:
     }
 
     // TODO: optimize, ensure this isn't inlined
-    __istream_type& getline(char_type* s, streamsize count, char_type delim = '\n')
+    __istream_type& getline(nonconst_char_type* s, streamsize count, char_type delim = '\n')
     {
         streambuf_type* stream = this->rdbuf();
         streamsize extracted = 0;
diff --git a/src/estd/sstream.h b/src/estd/sstream.h
index 41d3c13..a57e8b8 100644
--- a/src/estd/sstream.h
+++ b/src/estd/sstream.h
@@ -108,14 +108,14 @@ struct ostringstream : estd::detail::basic_ostream<layer1::basic_stringbuf<char,
 namespace layer2 {
 
 #ifdef __cpp_alias_templates
-template<class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<Char> >
+template<class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<remove_const_t<Char> > >
 using basic_stringbuf = detail::streambuf <
     internal::impl::basic_stringbuf<
         layer2::basic_string <Char, N, null_terminated, Traits> > >;
 
 using stringbuf = basic_stringbuf<char>;
 
-template <class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<Char> >
+template <class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<remove_const_t<Char> > >
 using basic_istringstream =
     detail::basic_istream<basic_stringbuf<Char, N, null_terminated, Traits>>;
 #endif
-- 
2.43.0


From d2fd1cccaba81efd776f5b1dc3c29b6b4d7e501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 060/133] fix: a number too large for its type is consumed to
 its last digit

Property: C20
---
 src/estd/internal/locale/iterated/num_get.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 34995e6..80ec1d7 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -251,7 +251,7 @@ struct num_get
 
             case Overflow:
                 // Merely consumed numbers in this mode
-                return cbase_type::from_char(c).has_value();
+                return !cbase_type::from_char(c).has_value();
 
             // FIX: Just to satisfy compilation
             default:
-- 
2.43.0


From 505ccfef2a0a82706576191b4718ee3596e7b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 061/133] fix: a sign or nothing at all is not a number

Property: C20
---
 src/estd/internal/locale/iterated/num_get.h | 22 +++++++++++++++++++--
 src/estd/internal/locale/num_get.h          |  4 ++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 80ec1d7..a4d93bb 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -125,6 +125,8 @@ struct num_get
 
         if(n.has_value())
         {
+            state_.state_ = positive ? NominalPositive : NominalNegative;
+
             if (!raise_and_add<positive>(n.value(), v, is_integer(), is_signed<T>()))
             {
                 state_.state_ = Overflow;
@@ -182,6 +184,14 @@ struct num_get
         }
     }
 
+    /// Reflects whether at least one digit has been processed
+    bool has_digits() const
+    {
+        return state_.state_ != Start &&
+            state_.state_ != FirstNegative &&
+            state_.state_ != FirstPositive;
+    }
+
     // NOTE: This method never sets eof bit
     // NOTE: Doing autoinit because compilers sometimes don't trust that we really do initialize
     // v, causing "maybe-uninitialized" warning.  To handle this, external parties may elect to
@@ -213,11 +223,11 @@ struct num_get
                 // to ensure this hyphen compare is proper
                 if (is_signed<T>() && c == ctype_type::widen('-'))
                 {
-                    state_.state_ = NominalNegative;
+                    state_.state_ = FirstNegative;
                     return false;
                 }
                 else
-                    state_.state_ = NominalPositive;
+                    state_.state_ = FirstPositive;
 
 #if __has_cpp_attribute(fallthrough)
                 [[fallthrough]];
@@ -267,6 +277,14 @@ struct num_get
         if(i != end) return get(*i++, err, v);
 
         err |= ios_base::eofbit;
+
+        // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
+        if(!has_digits())
+        {
+            v = 0;
+            err |= ios_base::failbit;
+        }
+
         return true;
     }
 
diff --git a/src/estd/internal/locale/num_get.h b/src/estd/internal/locale/num_get.h
index 3282384..19b707a 100644
--- a/src/estd/internal/locale/num_get.h
+++ b/src/estd/internal/locale/num_get.h
@@ -70,6 +70,10 @@ private:
             }
 
             err |= ios_base::eofbit;
+
+            // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
+            if(!n.has_digits()) err |= ios_base::failbit;
+
             n.finalize(v, is_integer());
             return i;
         }
-- 
2.43.0


From 0d50a805417109bb9c70d6b83acc666cbee73f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 062/133] fix: a floating point number ends at its second
 decimal point

Property: C20
---
 src/estd/internal/locale/iterated/num_get.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index a4d93bb..22221bf 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -149,7 +149,8 @@ struct num_get
             // TODO: Account for thousands separators
             // NOTE: Probably should use is_floating_point here instead, though so far
             // is_integer is in no danger of causing us grief
-            if(is_integer() == false && c == numpunct_type::decimal_point())
+            if(is_integer() == false && c == numpunct_type::decimal_point() &&
+                state_.decimal_place_ == 0)
             {
                 state_.decimal_place_ = 1;
                 return false;
-- 
2.43.0


From fc89a45fc9af889267dcf03e316e21001ab56f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 063/133] fix: chooser stops when no name begins with the
 character instead of running past the names

Property: C20
---
 src/estd/internal/chooser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/estd/internal/chooser.h b/src/estd/internal/chooser.h
index 043ed01..8a59695 100644
--- a/src/estd/internal/chooser.h
+++ b/src/estd/internal/chooser.h
@@ -54,6 +54,11 @@ public:
                     break;
                 }
             }
+
+            // Nothing starts with 'c', so nothing will match from here
+            if(chosen_ == -1) return true;
+
+            if(get_size(containers[chosen_]) == 1) return true;
         }
         else
         {
-- 
2.43.0


From 1d1b84e128764a584f289020a047906441070a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 064/133] fix: reading a bool fails at the end of input and
 leaves what is not part of it

Property: C20
---
 src/estd/internal/locale/iterated/num_get.h | 30 ++++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 22221bf..5489c5e 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -346,9 +346,20 @@ struct bool_get<TChar, TLocale, false> : num_get<2, TChar, TLocale>
     template <class TIter>
     bool get(TIter& i, TIter end, ios_base::iostate& err, bool& v)
     {
-        if(i != end) return get(*i++, err, v);
+        if(i != end)
+        {
+            ios_base::iostate e = ios_base::goodbit;
+            const bool done = get(*i, e, v);
 
-        err |= ios_base::eofbit;
+            // What isn't part of a bool stays where it is
+            if(e == ios_base::goodbit) ++i;
+
+            err |= e;
+            return done;
+        }
+
+        v = false;
+        err |= ios_base::eofbit | ios_base::failbit;
         return true;
     }
 
@@ -397,9 +408,20 @@ struct bool_get<Char, Locale, true>
     template <class TIter>
     bool get(TIter& i, TIter end, ios_base::iostate& err, bool& v)
     {
-        if(i != end) return get(*i++, err, v);
+        if(i != end)
+        {
+            ios_base::iostate e = ios_base::goodbit;
+            const bool done = get(*i, e, v);
 
-        err |= ios_base::eofbit;
+            // What isn't part of a bool stays where it is
+            if(e == ios_base::goodbit) ++i;
+
+            err |= e;
+            return done;
+        }
+
+        v = false;
+        err |= ios_base::eofbit | ios_base::failbit;
         return true;
     }
 
-- 
2.43.0


From 0990c78d051a9cbe3e47a159845e15e53130c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 065/133] fix: reading a number leaves a failed or exhausted
 stream alone and fails

Property: C20
---
 src/estd/istream.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/istream.h b/src/estd/istream.h
index ee76b97..bd49ed8 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -130,8 +130,20 @@ operator >>(
     typedef typename traits_type::char_type char_type;
     typedef estd::istreambuf_iterator<streambuf_type> iterator_type;
 
+    if(!in.good())
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
+
     in >> ws;
 
+    if(traits_type::eq_int_type(in.rdbuf()->sgetc(), traits_type::eof()))
+    {
+        in.setstate(ios_base::eofbit | ios_base::failbit);
+        return in;
+    }
+
     iterator_type it(in.rdbuf()), end;
     ios_base::iostate err = in.rdstate();
 
-- 
2.43.0


From b2cec017ae168c82fa2c5c180c76557fdaeb79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:05 +0000
Subject: [PATCH 066/133] fix: from_chars stops at the first character outside
 the base after an overflow

Property: C20
---
 src/estd/internal/charconv/from_chars.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/charconv/from_chars.hpp b/src/estd/internal/charconv/from_chars.hpp
index 8fb20cd..ef82570 100644
--- a/src/estd/internal/charconv/from_chars.hpp
+++ b/src/estd/internal/charconv/from_chars.hpp
@@ -60,7 +60,7 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
             {
                 // skip to either end or next spot which isn't a number
                 // "ptr points at the first character not matching the pattern." [1]
-                while (++current != last && cbase_type::is_in_base(*current)) {}
+                while (++current != last && cbase_type::is_in_base(*current, base)) {}
 
 #ifdef FEATURE_CPP_INITIALIZER_LIST
                 return result_type{current, estd::errc::result_out_of_range};
-- 
2.43.0


From 5a299cbc7714cd688f9d36aa510bc9bc3009aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 067/133] fix: from_chars keeps the sign of a number followed
 by other characters, reads the lowest value, and wants a digit

Property: C20
---
 src/estd/internal/charconv/from_chars.hpp | 58 +++++++++++++----------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/estd/internal/charconv/from_chars.hpp b/src/estd/internal/charconv/from_chars.hpp
index ef82570..f3c802d 100644
--- a/src/estd/internal/charconv/from_chars.hpp
+++ b/src/estd/internal/charconv/from_chars.hpp
@@ -8,6 +8,21 @@
 
 namespace estd { namespace internal {
 
+// Signed values accumulate away from zero on their own side, so that the lowest value is reachable
+template <class T, class Digit>
+inline bool raise_and_accumulate(T& value, unsigned short base, Digit digit, bool negate, estd::true_type)
+{
+    return negate ?
+        raise_and_sub(value, base, digit) :
+        raise_and_add(value, base, digit);
+}
+
+template <class T, class Digit>
+inline bool raise_and_accumulate(T& value, unsigned short base, Digit digit, bool, estd::false_type)
+{
+    return raise_and_add(value, base, digit);
+}
+
 template<class Cbase, class T, class CharIt>
 detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
     T& value,
@@ -24,7 +39,7 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
 
     CharIt current = first;
-    bool negate;
+    bool negate = false;
     // "If no characters match the pattern or if the value obtained by parsing
     // the matched characters is not representable in the type of value, value is unmodified," [1]
     T local_value = 0;
@@ -42,18 +57,20 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 
     if (estd::is_signed<T>::value)
     {
-        negate = *current == '-';
-
+        negate = first != last && *current == '-';
         if (negate) ++current;
     }
 
+    const CharIt digits = current;
+
     while (current != last)
     {
         // DEBT: Use has_value() and friends for clarity here
         const optional_type digit = cbase_type::from_char(*current, base);
         if (digit.has_value())
         {
-            bool success = raise_and_add(local_value, base, digit.value());
+            bool success = raise_and_accumulate(local_value, base, digit.value(),
+                negate, estd::bool_constant<estd::is_signed<T>::value>());
 
             // If we didn't succeed, that means we overflowed
             if (!success)
@@ -69,36 +86,27 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
             }
         }
-        else if(current == first)
-        {
-            return result_type
-#ifdef FEATURE_CPP_INITIALIZER_LIST
-                {current, estd::errc::invalid_argument};
-#else
-            (current, estd::errc::invalid_argument);
-#endif
-        }
         else
-        {
-            value = local_value;
+            break;
+
+        ++current;
+    }
+
+    // "If no characters match the pattern [...] value is unmodified" [1]
+    if(current == digits)
+    {
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-            return result_type{current, estd::errc(0)};
+        return result_type{first, estd::errc::invalid_argument};
 #else
-            return result_type(current, estd::errc(0));
+        return result_type(first, estd::errc::invalid_argument);
 #endif
-        }
-        ++current;
     }
 
-    // prepend with constexpr so we can optimize out non-signed flavors
-    if (estd::is_signed<T>::value && negate)
-        local_value = -local_value;
-
     value = local_value;
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-    return result_type{last,estd::errc(0)};
+    return result_type{current, estd::errc(0)};
 #else
-    return result_type(last,estd::errc(0));
+    return result_type(current, estd::errc(0));
 #endif
 }
 
-- 
2.43.0


From bf0c6d12e121ada85e6dbacaaa3fb461bb7c1c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 068/133] fix: to_chars writes the lowest value and uses the
 whole buffer

Property: C21
---
 src/estd/internal/charconv.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/charconv.hpp b/src/estd/internal/charconv.hpp
index 088fcb5..41ecd44 100644
--- a/src/estd/internal/charconv.hpp
+++ b/src/estd/internal/charconv.hpp
@@ -51,27 +51,39 @@ inline detail::to_chars_result<CharIt> to_chars_integer_opt(
     static_assert(is_same<typename cbase_type::char_type, char_type>::value, "CharIt must align with cbase");
 #endif
 
-    if(numeric_limits::is_signed && negative) value *= -1;
-
-    while(first != --last)
+    while(first != last)
     {
+        --last;
+
 // EXPERIMENTAL, not sure if this helps at all
 #if FEATURE_ESTD_TO_CHARS_LIBC_DIV
         using d = div<Int>;
         const typename d::result v = d::eval(value, base());
-        *last = cbase_type::to_char(v.rem);
+        *last = cbase_type::to_char(negative ? -v.rem : v.rem);
         value = v.quot;
 #else
         // DEBT: Pretty sure there's a div and mod combined operation, use that
         // i.e. https://riscv.org/wp-content/uploads/2017/05/riscv-spec-v2.2.pdf page 36 section 6.2
-        *last = cbase.to_char(value % base());
-        value /= base();
+        // Negative values stay negative throughout, since the lowest one has no positive counterpart
+        const int digit = numeric_limits::is_signed ?
+            int(value % Int(base())) :
+            int(value % base());
+        *last = cbase.to_char(negative ? -digit : digit);
+
+        if(numeric_limits::is_signed)
+            value /= Int(base());
+        else
+            value /= base();
 #endif
 
         if(value == 0)
         {
             if(numeric_limits::is_signed && negative)
+            {
+                if(first == last) break;
+
                 *--last = '-';
+            }
 
 #ifdef __cpp_initializer_lists
             return result_type{last, estd::errc(0)};
-- 
2.43.0


From fc791b79c11e2d8b6908c5e152672594fa350608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 069/133] fix: to_chars_exp writes the lowest value and stays
 within the buffer

Property: C21
---
 src/estd/internal/charconv/reverse.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/estd/internal/charconv/reverse.hpp b/src/estd/internal/charconv/reverse.hpp
index c3a2711..d3d066a 100644
--- a/src/estd/internal/charconv/reverse.hpp
+++ b/src/estd/internal/charconv/reverse.hpp
@@ -15,19 +15,19 @@ to_chars_result to_chars_integer_reverse(char* first, char* last, TInt value, co
     typedef cbase<char, b, classic_locale_type> cbase_type;
     typedef typename cbase_type::char_type char_type;
 
-    if(estd::numeric_limits<TInt>::is_signed && value < 0)
-    {
-        *first++ = '-';
-        value *= -1;
-    }
+    const bool negative = estd::numeric_limits<TInt>::is_signed && value < 0;
+
+    if(negative && first != last) *first++ = '-';
 
     char_type* current = first;
 
     while(current != last)
     {
         // DEBT: instance method in case its runtime casing
-        *current = cbase_type().to_char(value % base);
-        value /= base;
+        // Negative values stay negative throughout, since the lowest one has no positive counterpart
+        const int digit = int(value % TInt(base));
+        *current = cbase_type().to_char(negative ? -digit : digit);
+        value /= TInt(base);
 
         current++;
 
-- 
2.43.0


From 037e316e7a4a067b8660055f146ad7f210a65789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 070/133] fix: octal numbers of 16 and 64 bits have 6 and 22
 digits

Property: C21
---
 src/estd/internal/limits/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/limits/traits.h b/src/estd/internal/limits/traits.h
index 4153773..28c4591 100644
--- a/src/estd/internal/limits/traits.h
+++ b/src/estd/internal/limits/traits.h
@@ -35,7 +35,7 @@ struct uint_strlen<16, bits> :
 // DEBT: calculation approximate, higher the bitcount the more wasted space
 template <unsigned bits>
 struct uint_strlen<8, bits> :
-    estd::integral_constant<unsigned, (bits + 1) / 3> {};
+    estd::integral_constant<unsigned, (bits + 2) / 3> {};
 
 // Not the same as boost's version
 template <class T, bool is_signed_>
-- 
2.43.0


From 62c6f30c24aadb630b1656a327bb05625a4c0f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 071/133] fix: fill characters above '?' survive

Property: C21
---
 src/estd/internal/ios_base.h | 2 +-
 src/estd/internal/ostream.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/ios_base.h b/src/estd/internal/ios_base.h
index c670124..3db3859 100644
--- a/src/estd/internal/ios_base.h
+++ b/src/estd/internal/ios_base.h
@@ -225,7 +225,7 @@ protected:
         positioning alignment : 2;  // DEBT: Unused
 
         // DEBT: Presumes ASCII, 7-bit.  Unicode and friends are out
-        char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
+        unsigned char fillchar : 6; // + 32 (from ' ' to '_' ASCII)
         //bool showbase : 1;          // DEBT: Unused
 
         ESTD_CPP_CONSTEXPR_RET ostream_internal() :
diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index fd064cc..451c81e 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -98,7 +98,7 @@ public:
     char_type fill(char_type ch)
     {
         char_type old_fill = fill();
-        ostream_.fillchar = 0x20 + ch;
+        ostream_.fillchar = ch - 0x20;
         return old_fill;
     }
 
-- 
2.43.0


From ec2a4956f656979a0a76f5e7140562732a4670e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 072/133] fix: seekp returns the stream and reports failure

Property: C21
---
 src/estd/internal/ostream.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index 451c81e..c046fb7 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -155,7 +155,11 @@ public:
     // UNTESTED
     __ostream_type& seekp(off_type off, ios_base::seekdir dir)
     {
-        this->rdbuf()->pubseekoff(off, dir, ios_base::out);
+        if(!this->fail() &&
+            this->rdbuf()->pubseekoff(off, dir, ios_base::out) == pos_type(off_type(-1)))
+            this->setstate(base_type::failbit);
+
+        return *this;
     }
 
     // When the time comes, these will replace the old virtual ones
-- 
2.43.0


From 6d1c3a1e61bd9c2d6ce00eee79f8c3cdb688dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 073/133] fix: put which cannot write fails

Property: C21
---
 src/estd/internal/ostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index c046fb7..a9b078f 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -174,7 +174,7 @@ public:
     __ostream_type& put(char_type ch, bool bypass_sentry = false)
     {
         if (this->rdbuf()->sputc(ch) == estd::char_traits<char_type>::eof())
-            this->setstate(base_type::eofbit);
+            this->setstate(base_type::badbit);
 
         if (!bypass_sentry)
             sentry::destroy(*this);
-- 
2.43.0


From 6ede1b66ba3682a6c4433f35740187da90a2d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:22 +0000
Subject: [PATCH 074/133] fix: a padded character honours left alignment

Property: C21
---
 src/estd/ostream.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/estd/ostream.h b/src/estd/ostream.h
index 4f23357..ba5580f 100644
--- a/src/estd/ostream.h
+++ b/src/estd/ostream.h
@@ -68,14 +68,9 @@ template <class TStreambuf, class TBase>
 inline basic_ostream<TStreambuf, TBase>& operator <<(basic_ostream<TStreambuf, TBase>& out,
     typename TBase::char_type ch)
 {
-#if FEATURE_ESTD_OSTREAM_SETW
-    const streamsize pad = out.width();
+    internal::write_filled_buffer(out, &ch, 1);
 
-    out.fill_n(pad - 1);
-    out.width(0);
-#endif
-
-    return out.put(ch);
+    return out;
 }
 
 // Somehow, blackfin has the PRIXPTR and friends even though it doesn't have
-- 
2.43.0


From 8d6d1df7473a2f35e2ab5158ccbc009d41ea4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 075/133] fix: writing a pointer to a stream links

snprintf was redeclared in estd::detail with C++ linkage, a function which
does not exist.

Property: C21
---
 src/estd/ostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/ostream.h b/src/estd/ostream.h
index ba5580f..70bb857 100644
--- a/src/estd/ostream.h
+++ b/src/estd/ostream.h
@@ -78,7 +78,7 @@ inline basic_ostream<TStreambuf, TBase>& operator <<(basic_ostream<TStreambuf, T
 #if defined(FEATURE_STD_INTTYPES) || defined(__ADSPBLACKFIN__)
 // explicit prototype here to avoid pulling in collision-happy stdio
 // watch out for linker errors if your environment doesn't have this call
-int snprintf( char* buffer, std::size_t buf_size, const char* format, ... );
+extern "C" int snprintf( char* buffer, std::size_t buf_size, const char* format, ... );
 #endif
 
 template <class TStreambuf>
-- 
2.43.0


From 8fdfadf53d284397e6a5a6d5b873b79b39d83078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:39 +0000
Subject: [PATCH 076/133] fix: span::first<count>() compiles

Property: C23
---
 src/estd/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 83fe184..20c3ebe 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -43,7 +43,7 @@ public:
     template <estd::size_t count>
     constexpr span<T, count> first() const
     {
-        return data_;
+        return span<T, count>(data_);
     }
 
     constexpr span<T> first(size_type count) const
-- 
2.43.0


From d2cb26334b742fda5e1d650108d3ff596ce5019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:39 +0000
Subject: [PATCH 077/133] fix: subspan without a count ends where the span ends

Property: C23
---
 src/estd/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 20c3ebe..a0ee13b 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -200,7 +200,7 @@ public:
 
     span<element_type> subspan(size_type offset, size_type count = detail::dynamic_extent())
     {
-        if(count == detail::dynamic_extent::value) count = base_type::size();
+        if(count == detail::dynamic_extent::value) count = base_type::size() - offset;
 
         pointer data = base_type::data();
 
-- 
2.43.0


From 06f081a23709ff664bc836fcb666db282bbf2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:40 +0000
Subject: [PATCH 078/133] fix: array::back() is the last element

Property: C23
---
 src/estd/internal/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index ac95c54..fe3967f 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -151,8 +151,8 @@ struct array : Impl
     reference front() { return *begin(); }
     constexpr const_reference front() const { return *begin(); }
 
-    reference back() { return *base_type::end(); }
-    constexpr const_reference back() const { return *base_type::end(); }
+    reference back() { return *(end() - 1); }
+    constexpr const_reference back() const { return *(end() - 1); }
 
     reference operator[](size_type pos) { return *base_type::get_at(pos); }
     constexpr const_reference operator[](size_type pos) const
-- 
2.43.0


From c59ebc01c1ac0cf2ca3301a4436011a859c2053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 079/133] fix: hh_mm_ss::seconds is right for durations over
 255 minutes

Property: C24
---
 src/estd/internal/chrono/formatter.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 8cc5f08..2586276 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -182,9 +182,8 @@ public:
 
     inline seconds_type seconds() const NOEXCEPT
     {
-        duration_type a = _abs();
-        auto v = a - minutes_type{a};
-        return seconds_type{v};
+        // minutes_type itself can't hold durations of 256 minutes and up
+        return seconds_type{_abs() - hours() - minutes()};
     }
 
     inline precision subseconds() const NOEXCEPT
-- 
2.43.0


From 5a7c7a97274bb0b7c1a00fccc05b5d4723c5256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 080/133] fix: every fourth year is a leap year, except
 centuries

Property: C24
---
 src/estd/internal/chrono/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/units.hpp b/src/estd/internal/chrono/units.hpp
index 4ca044b..27054f3 100644
--- a/src/estd/internal/chrono/units.hpp
+++ b/src/estd/internal/chrono/units.hpp
@@ -76,7 +76,7 @@ public:
     static constexpr year min() NOEXCEPT { return year(-32767); }
     static constexpr year max() NOEXCEPT { return year(32767); }
 
-    constexpr bool is_leap() const NOEXCEPT { return value_ % 400 == 0; }
+    constexpr bool is_leap() const NOEXCEPT { return value_ % 4 == 0 && (value_ % 100 != 0 || value_ % 400 == 0); }
 
     // upper end of 16-bit value can never be out of range
     constexpr bool ok() const NOEXCEPT { return *this >= min(); }
-- 
2.43.0


From 82b668aa7c9e2ec80a31b2e80e244e51ffe090b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 081/133] fix: year_month_day_last::day compiles and knows
 September

Property: C24
---
 src/estd/internal/chrono/formatter.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 2586276..2e710d7 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -91,13 +91,14 @@ public:
     {
         switch(month_.value())
         {
-            case 2: return year_.is_leap() ? day(29) : day(28);
+            case 2: return year_.is_leap() ? chrono::day(29) : chrono::day(28);
 
-            case 4: return day(30);
-            case 6: return day(30);
-            case 11: return day(30);
+            case 4: return chrono::day(30);
+            case 6: return chrono::day(30);
+            case 9: return chrono::day(30);
+            case 11: return chrono::day(30);
 
-            default:    return day(31);
+            default:    return chrono::day(31);
         }
     }
 
-- 
2.43.0


From de71f65a1874551e3aa22e12c73a45fb61fa8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 082/133] fix: converting to a projected unit of the same
 period keeps its count

Property: C24
---
 src/estd/internal/units/base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/units/base.h b/src/estd/internal/units/base.h
index 7f03925..16e13b9 100644
--- a/src/estd/internal/units/base.h
+++ b/src/estd/internal/units/base.h
@@ -183,7 +183,8 @@ public:
     // Converting only precision or F modified
     template <class Rep2, ESTD_CPP_CONCEPT(Adder<Rep2>) F2>
     constexpr unit_base(const unit_base<Rep2, Period, Tag, F2>& s) :    // NOLINT
-        rep_{s.count()}
+        // braces on f_rep so that narrowing doesn't happen silently
+        rep_(typename F::reversal{}(f_rep{s.count()}))
     {
     }
 
-- 
2.43.0


From 821f1cfd3c7a3613518dd43f5ab52d65f31fd993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 083/133] fix: ctype::islower recognised only 'a'

Property: C25
---
 src/estd/internal/locale/ctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index ce77fad..d3f8b2e 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -73,7 +73,7 @@ public:
 
     static bool islower(char ch)
     {
-        return 'a' <= ch && ch <= 'a';
+        return 'a' <= ch && ch <= 'z';
     }
 
     typedef char char_type;
-- 
2.43.0


From 5e77aa194390d2acc3070769114e0bacd1774a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 084/133] fix: ctype::is ignored alpha, punct and all but the
 first class of a combined mask

Property: C25
---
 src/estd/internal/locale/ctype.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index d3f8b2e..8f21aa8 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -76,6 +76,16 @@ public:
         return 'a' <= ch && ch <= 'z';
     }
 
+private:
+    // Graphic, but neither alphabetic nor a digit
+    static bool ispunct(char ch)
+    {
+        return ('!' <= ch && ch <= '/') || (':' <= ch && ch <= '@') ||
+            ('[' <= ch && ch <= '`') || ('{' <= ch && ch <= '~');
+    }
+
+public:
+
     typedef char char_type;
 
     //static locale::id id;
@@ -94,7 +104,7 @@ public:
             if(estd::cbase<char, 16, locale_type>::is_in_base(ch))
                 return true;
         }
-        else if(m & digit)
+        if(m & digit)
         {
             if(estd::cbase<char, 10, locale_type>::is_in_base(ch))
                 return true;
@@ -103,10 +113,18 @@ public:
         {
             if(isupper(ch)) return true;
         }
-        else if(m & lower)
+        if(m & lower)
         {
             if(islower(ch)) return true;
         }
+        if(m & alpha)
+        {
+            if(isupper(ch) || islower(ch)) return true;
+        }
+        if(m & punct)
+        {
+            if(ispunct(ch)) return true;
+        }
         return false;
     }
 };
-- 
2.43.0


From 63ad6b7922a50b3238cf1e510a00a812a0ce3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 085/133] fix: isspace recognised only the space character

Property: C25
---
 src/estd/internal/cctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/cctype.h b/src/estd/internal/cctype.h
index 48f3104..ead7da1 100644
--- a/src/estd/internal/cctype.h
+++ b/src/estd/internal/cctype.h
@@ -9,7 +9,7 @@ inline int ascii_isdigit(int ch)
 
 inline int ascii_isspace(int ch)
 {
-    return ch == ' ';
+    return ch == ' ' || ('\t' <= ch && ch <= '\r');
 }
 
 
-- 
2.43.0


From 4d16a5b852d7f8508a46ad4061b4e0ed78bb98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 086/133] fix: flags::operator|= did not compile for scoped
 enumerations

Property: C26
---
 src/estd/flags.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/flags.h b/src/estd/flags.h
index 5234911..58c4f2d 100644
--- a/src/estd/flags.h
+++ b/src/estd/flags.h
@@ -36,7 +36,7 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) flags& operator|=(const flags& v)
     {
-        value_ |= v;
+        value_ = *this | v.value();
         return *this;
     }
 
-- 
2.43.0


From 53771059530e2c4690189e74adfb4d94946a5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 087/133] fix: byteswap of int64_t did not compile

Property: C26
---
 src/estd/bit.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estd/bit.h b/src/estd/bit.h
index a432108..531f9e4 100644
--- a/src/estd/bit.h
+++ b/src/estd/bit.h
@@ -84,6 +84,12 @@ byteswap(uint64_t n) noexcept
     return __builtin_bswap64(n);
 }
 
+constexpr int64_t
+byteswap(int64_t n) noexcept
+{
+    return __builtin_bswap64(n);
+}
+
 #endif
 
 #endif // not xor (gcc)
-- 
2.43.0


From d677f46250664ad2790919caa791bb8b12d03bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 088/133] fix: expected::value() const did not compile

Property: C10
---
 src/estd/expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index b0b7fb6..1550d45 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -71,7 +71,7 @@ class expected : public internal::expected<T, E>
             base_type::destroy_error();
     }
 
-    void assert_has_value()
+    void assert_has_value() const
     {
         if(!has_value_)
 #if __cpp_exceptions
-- 
2.43.0


From 8334d7f76f1c6908ebae9a6cae4ac7c8d67e6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 089/133] fix: expected operator* on rvalues did not compile

Property: C10
---
 src/estd/expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index 1550d45..87b3770 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -256,12 +256,12 @@ public:
 #if __cpp_rvalue_references
     nonvoid_value_type&& operator*() &&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 
     const nonvoid_value_type&& operator*() const&&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 #endif
 
-- 
2.43.0


From fa89d4fe2c1f42c56098b4169886f33b5d7cd206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 090/133] fix: get of an rvalue variant did not compile

Property: C08
---
 src/estd/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/variant.h b/src/estd/variant.h
index fe6ffda..544eb98 100644
--- a/src/estd/variant.h
+++ b/src/estd/variant.h
@@ -59,7 +59,7 @@ internal::type_at_index<index, Types...>&& get(variant<Types...>&& v)
 {
     internal::assert_index_matches<index>(v);
 
-    return * internal::get_ll<index>(v);
+    return std::move(* internal::get_ll<index>(v));
 }
 
 
@@ -78,7 +78,7 @@ constexpr const T& get(const variant<Types...>& v)
 template <class T, class ...Types>
 T&& get(variant<Types...>&& v)
 {
-    return get<internal::select_type<T, Types...>::first::index>(v);
+    return get<internal::select_type<T, Types...>::first::index>(std::move(v));
 }
 
 
-- 
2.43.0


From 986806914d726aca3afdbee02dab042a0a817f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:29 +0000
Subject: [PATCH 091/133] fix: empty() of arrays always at capacity was
 inverted

Property: C03
---
 src/estd/internal/impl/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/dynamic_array.h b/src/estd/internal/impl/dynamic_array.h
index c855988..a55b874 100644
--- a/src/estd/internal/impl/dynamic_array.h
+++ b/src/estd/internal/impl/dynamic_array.h
@@ -226,7 +226,7 @@ public:
 
     ESTD_CPP_CONSTEXPR_RET bool empty(const handle_descriptor& hd) const
     {
-        return hd.size() > 0;
+        return hd.size() == 0;
     }
 
     ESTD_CPP_CONSTEXPR_RET size_type size(const handle_descriptor& hd) const
-- 
2.43.0


From 047d7b4b14858aa1d4efa164bcc5a3b65939686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:54 +0000
Subject: [PATCH 092/133] fix: find and rfind of wide elements compared only
 the first bytes

Property: C01
---
 src/estd/internal/runtime_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index ee81efa..5035486 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -408,7 +408,7 @@ public:
         // stop where the remaining elements can no longer hold 's'
         for(size_type i = pos; i <= sz && count <= sz - i; ++i)
         {
-            if(memcmp(s, data + i, count) == 0)
+            if(memcmp(s, data + i, count * sizeof(value_type)) == 0)
             {
                 cunlock();
                 return i;
@@ -447,7 +447,7 @@ public:
 
         for(; data != rend; --pos, --data)
         {
-            if(memcmp(s, data, count) == 0)
+            if(memcmp(s, data, count * sizeof(value_type)) == 0)
             {
                 cunlock();
                 return pos;
-- 
2.43.0


From 1aab66f5fdf4f3bcc7f207d4fa70508522ddfd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:11 +0000
Subject: [PATCH 093/133] fix: dynamic_array insert of one of its own elements
 inserted its neighbor

Property: C01
---
 src/estd/internal/dynamic_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index a09aab3..a595ff0 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -684,7 +684,10 @@ public:
     // const_iterator here
     iterator insert(iterator pos, const_reference value)
     {
-        raw_insert(pos - cbegin(), &value);
+        // 'value' may be one of our own elements, which are about to move
+        const value_type copy(value);
+
+        raw_insert(pos - cbegin(), &copy);
 
         return pos;
     }
-- 
2.43.0


From d59ab92f7aaf41da25601f86712ac7416e69f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:23 +0000
Subject: [PATCH 094/133] fix: dynamic_array push_back of one of its own
 elements read released memory

Property: C01
---
 src/estd/internal/dynamic_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index a595ff0..92493ff 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -604,7 +604,10 @@ public:
 
     append_result push_back(const value_type& value)
     {
-        return append(&value, 1);
+        // 'value' may be one of our own elements, which growing can move
+        const value_type copy(value);
+
+        return append(&copy, 1);
     }
 
 #ifdef __cpp_rvalue_references
-- 
2.43.0


From f8993459b0286d1c59ad0f1b1692e82b50cff2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:48 +0000
Subject: [PATCH 095/133] fix: string_view::empty did not compile

Property: C03
---
 src/estd/internal/impl/allocated_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/impl/allocated_array.h b/src/estd/internal/impl/allocated_array.h
index 53dfcf5..a2b1016 100644
--- a/src/estd/internal/impl/allocated_array.h
+++ b/src/estd/internal/impl/allocated_array.h
@@ -14,6 +14,8 @@ struct allocated_array : estd::handle_descriptor<Allocator>
 
     ESTD_CPP_DEFAULT_CTOR(allocated_array)
     ESTD_CPP_FORWARDING_CTOR(allocated_array)
+
+    constexpr bool empty() const { return base_type::size() == 0; }
 };
 
 
-- 
2.43.0


From 55792b78f16ffaafc7bc95f3220ec588eefc36b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:37 +0000
Subject: [PATCH 096/133] fix: tuple::visit returns the index it stopped at

Property: C27
---
 src/estd/internal/tuple.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/tuple.h b/src/estd/internal/tuple.h
index 204b43a..33bac9b 100644
--- a/src/estd/internal/tuple.h
+++ b/src/estd/internal/tuple.h
@@ -24,7 +24,7 @@ class tuple<sparse>
 public:
     //static CONSTEXPR int index = 0;
     template <class F, class ...Args>
-    constexpr bool visit(F&&, Args&&...) const { return {}; }
+    constexpr int visit(F&&, Args&&...) const { return -1; }
 };
 
 
@@ -64,14 +64,14 @@ public:
 
     // EXPERIMENTAL, though I think I'm wanting to keep it
     template <class F, class ...Args2>
-    bool visit(F&& f, Args2&&...args)
+    int visit(F&& f, Args2&&...args)
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
     }
 
     template <class F, class ...Args2>
-    constexpr bool visit(F&& f, Args2&&...args) const
+    constexpr int visit(F&& f, Args2&&...args) const
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
-- 
2.43.0


From a2d243f3d91b305143a41d0add25c4719db29d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:37 +0000
Subject: [PATCH 097/133] fix: values::contains finds values present more than
 once

Property: C27
---
 src/estd/internal/variadic/integer_sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/integer_sequence.h b/src/estd/internal/variadic/integer_sequence.h
index aa5b364..30d51c8 100644
--- a/src/estd/internal/variadic/integer_sequence.h
+++ b/src/estd/internal/variadic/integer_sequence.h
@@ -94,7 +94,7 @@ struct values :
         template <T v>
         using contains = bool_constant<
             selector<
-                internal::is_same_value_selector<T, v>>::values::size() == 1>;
+                internal::is_same_value_selector<T, v>>::values::size() != 0>;
     };
 
     template <class Eval>
-- 
2.43.0


From ff7b2a414bdbf4f92252e3ae24a09c0e27a61e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:37 +0000
Subject: [PATCH 098/133] fix: an empty list of values can be visited

Property: C27
---
 src/estd/internal/variadic/visitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/visitor.h b/src/estd/internal/variadic/visitor.h
index c24342f..5e36357 100644
--- a/src/estd/internal/variadic/visitor.h
+++ b/src/estd/internal/variadic/visitor.h
@@ -254,7 +254,7 @@ struct value_visitor
     template <size_t I>
     using value = v1::visitor_value<I, T, get<I>::value>;
 
-    template <size_t I,
+    template <size_t I = 0,
         class enabled = enable_if_t<(I == sizeof...(Values))>,
         class... Args,
         class F>
-- 
2.43.0


From af720d389f1589aa59d447e1f2911280939f7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:37 +0000
Subject: [PATCH 099/133] fix: apply accepts const tuples

Property: C27
---
 src/estd/tuple.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estd/tuple.h b/src/estd/tuple.h
index 035990d..8e757c9 100644
--- a/src/estd/tuple.h
+++ b/src/estd/tuple.h
@@ -64,6 +64,12 @@ struct tuple_size<estd::tuple<TArgs...> >
 {
 };
 
+template <class ...TArgs>
+struct tuple_size<const estd::tuple<TArgs...> >
+    : tuple_size<estd::tuple<TArgs...> >
+{
+};
+
 #endif
 
 
-- 
2.43.0


From 572c531025b3bea929997592f8d9fa3005218783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:37 +0000
Subject: [PATCH 100/133] fix: get from rvalue tuples by type, and from const
 rvalue tuples

Property: C27
---
 src/estd/internal/tuple/get.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/tuple/get.h b/src/estd/internal/tuple/get.h
index f9b017c..e9ba9a3 100644
--- a/src/estd/internal/tuple/get.h
+++ b/src/estd/internal/tuple/get.h
@@ -79,10 +79,10 @@ ESTD_CPP_CONSTEXPR(20) tuple_element_t<index, tuple<Types...> >&& get(internal::
 }
 
 template<int index, bool sparse, typename... Types>
-constexpr tuple_element_t<index, tuple<Types...> >&& get(const internal::tuple<sparse, Types...>&& t)
+constexpr typename tuple_element<index, tuple<Types...> >::const_valref_type get(
+    const internal::tuple<sparse, Types...>&& t)
 {
-    return internal::GetImpl<sparse, index, Types...>::value(
-        std::forward<const internal::tuple<sparse, Types...>>(t));
+    return internal::GetImpl<sparse, index, Types...>::value(t);
 }
 
 template <class T, bool sparse, typename... Types>
@@ -95,7 +95,7 @@ ESTD_CPP_CONSTEXPR(14) T& get(internal::tuple<sparse, Types...>& t)
 template <class T, bool sparse, typename... Types>
 ESTD_CPP_CONSTEXPR(14) T&& get(internal::tuple<sparse, Types...>&& t)
 {
-    return get<internal::single_index_of_type<T, Types...>::index>(t);
+    return get<internal::single_index_of_type<T, Types...>::index>(std::move(t));
 }
 
 template <class T, bool sparse, typename... Types>
@@ -105,7 +105,7 @@ constexpr const T& get(const internal::tuple<sparse, Types...>& t)
 }
 
 template <class T, bool sparse, typename... Types>
-constexpr const T&& get(const internal::tuple<sparse, Types...>&& t)
+constexpr const T& get(const internal::tuple<sparse, Types...>&& t)
 {
     return get<internal::single_index_of_type<T, Types...>::index>(t);
 }
-- 
2.43.0


From 1070010a31b00f072868881b1600344710e320ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:10 +0000
Subject: [PATCH 101/133] fix: ostreambuf_iterator::failed was inverted and
 uninitialised

Property: C28
---
 src/estd/iterator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/estd/iterator.h b/src/estd/iterator.h
index fcac627..687bdb7 100644
--- a/src/estd/iterator.h
+++ b/src/estd/iterator.h
@@ -86,14 +86,16 @@ public:
     }
 
     ostreambuf_iterator(streambuf_type* rdbuf) :
-        rdbuf(rdbuf)
+        rdbuf(rdbuf),
+        last_written(traits_type::to_int_type(char_type()))
     {
 
     }
 
     template <class TBase>
     ostreambuf_iterator(estd::detail::basic_ostream<TStreambuf, TBase>& stream) :
-        rdbuf(stream.rdbuf())
+        rdbuf(stream.rdbuf()),
+        last_written(traits_type::to_int_type(char_type()))
     {
 
     }
@@ -121,7 +123,7 @@ public:
 
     bool failed() const
     {
-        return last_written != traits_type::eof();
+        return last_written == traits_type::eof();
     }
 };
 
-- 
2.43.0


From 7b6bdb88dd7ca5cba8aecb56ec451638731f2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:10 +0000
Subject: [PATCH 102/133] fix: back_insert_iterator assignment returned nothing

Property: C28
---
 src/estd/internal/iterator/back_insert.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estd/internal/iterator/back_insert.h b/src/estd/internal/iterator/back_insert.h
index 4b7cf1c..05b6574 100644
--- a/src/estd/internal/iterator/back_insert.h
+++ b/src/estd/internal/iterator/back_insert.h
@@ -23,6 +23,7 @@ public:
     back_insert_iterator& operator=(const cvalue_type& value)
     {
         container->push_back(value);
+        return *this;
     }
 };
 
-- 
2.43.0


From 62ebc3d7da3f2a58d1fd000b78d6be676d8ec0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:10 +0000
Subject: [PATCH 103/133] fix: ostream_iterator pre-increment did not compile

Property: C28
---
 src/estd/internal/ostream_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream_iterator.h b/src/estd/internal/ostream_iterator.h
index 7dd845e..a92da7e 100644
--- a/src/estd/internal/ostream_iterator.h
+++ b/src/estd/internal/ostream_iterator.h
@@ -27,7 +27,7 @@ public:
         return *this;
     }
 
-    constexpr ostream_iterator& operator++() const { return *this; }
+    constexpr const ostream_iterator& operator++() const { return *this; }
     constexpr ostream_iterator operator++(int) const { return *this; }  // NOLINT
     constexpr ostream_iterator operator*() const { return *this; }
 };
-- 
2.43.0


From 0a619b26d066a7a8ef94c4fbee9fe10d9292c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:44 +0000
Subject: [PATCH 104/133] fix: failed reallocation keeps existing handle and
 capacity

Property: C29
---
 src/estd/allocators/handle_desc.h    | 8 ++++++--
 src/estd/internal/impl/handle_desc.h | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/estd/allocators/handle_desc.h b/src/estd/allocators/handle_desc.h
index 792866d..363fad0 100644
--- a/src/estd/allocators/handle_desc.h
+++ b/src/estd/allocators/handle_desc.h
@@ -74,14 +74,18 @@ public:
 
     bool allocate(size_type size)   // NOLINT
     {
+        if(!base_type::allocate(size)) return false;
+
         m_size = size;
-        return base_type::allocate(size);
+        return true;
     }
 
     bool reallocate(size_type size) // NOLINT
     {
+        if(!base_type::reallocate(size)) return false;
+
         m_size = size;
-        return base_type::reallocate(size);
+        return true;
     }
 };
 
diff --git a/src/estd/internal/impl/handle_desc.h b/src/estd/internal/impl/handle_desc.h
index 6524052..d41836b 100644
--- a/src/estd/internal/impl/handle_desc.h
+++ b/src/estd/internal/impl/handle_desc.h
@@ -254,8 +254,13 @@ public:
 
     bool reallocate(size_type size)
     {
-        handle_base_t::handle(base_t::get_allocator().reallocate(handle_base_t::handle(), size));
-        return handle_base_t::handle() != allocator_traits::invalid();
+        const handle_type h = base_t::get_allocator().reallocate(handle_base_t::handle(), size);
+
+        // on failure, existing allocation is untouched so hold on to it
+        if(h == allocator_traits::invalid()) return false;
+
+        handle_base_t::handle(h);
+        return true;
     }
 
     bool is_allocated() const
-- 
2.43.0


From 6f9318dcfd8ab8df8fada6d8a5405d6292da3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:26 +0000
Subject: [PATCH 105/133] fix: list emplace_front takes any number of arguments

Property: C07
---
 src/estd/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/list.h b/src/estd/list.h
index bccb345..c6dc895 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -105,7 +105,7 @@ public:
     template <class ...TArgs>
     void emplace_front(TArgs&&...args)
     {
-        node_handle new_front = base_t::traits.alloc_emplace(std::forward<TArgs...>(args)...);
+        node_handle new_front = base_t::traits.alloc_emplace(std::forward<TArgs>(args)...);
 
         push_front(new_front);
     }
-- 
2.43.0


From 2c448d8d52b8f20a0257aac2d6fad75204495583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:26 +0000
Subject: [PATCH 106/133] fix: list insert at end dereferenced the null node

Property: C07
---
 src/estd/list.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/list.h b/src/estd/list.h
index c6dc895..2b4fd16 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -122,6 +122,13 @@ public:
             return base_t::begin();
         }
 
+        // nothing to splice before at the end, same as our regular push_back
+        if(pos == base_t::end())
+        {
+            push_back(value);
+            return iterator(base_t::m_back, base_t::traits);
+        }
+
         node_handle new_node = base_t::traits.allocate(value);
 
         node_handle node_to_insert_on = pos.node(); // or 'before', if you like
-- 
2.43.0


From 8e9cba0b20997443b2184ab23c831f5076d7a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:26 +0000
Subject: [PATCH 107/133] fix: front of a list which allocates its nodes did
 not compile

Property: C07
---
 src/estd/exp/memory/memory_pool.h | 2 ++
 src/estd/internal/list_node.h     | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/exp/memory/memory_pool.h b/src/estd/exp/memory/memory_pool.h
index 4ee47ef..9ad3082 100644
--- a/src/estd/exp/memory/memory_pool.h
+++ b/src/estd/exp/memory/memory_pool.h
@@ -201,6 +201,8 @@ protected:
         {
             to_attach_to._next = n2;
         }
+
+        static nv_ref_t value(node_type& n) { return n; }
     };
 };
 
diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index 423e103..508dccc 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -226,7 +226,7 @@ public:
         // b) it's an inline node-value pair
         // in which case, when both are true, front_value will actually be invalid
         // so the 'accessor' pattern is of increased importance to stave that off
-        reference front_value = base_type::alloc_lock(m_front);
+        reference front_value = node_traits_t::value(base_type::alloc_lock(m_front));
 
         base_type::alloc_unlock(m_front);
 
-- 
2.43.0


From 40b2c1b30813b33b125a7b6335289a9267050126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:12 +0000
Subject: [PATCH 108/133] fix: list iterator decrement unlocked the node it
 moved to instead of the one it locked

Property: C07
---
 src/estd/iterators/list.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/iterators/list.h b/src/estd/iterators/list.h
index 653e30b..9427d67 100644
--- a/src/estd/iterators/list.h
+++ b/src/estd/iterators/list.h
@@ -321,10 +321,12 @@ public:
     {
         node_type& c = base_t::lock_internal();
 
-        this->current = base_t::get_traits().prev(c);
+        node_handle_t new_current = base_t::get_traits().prev(c);
 
         base_t::unlock_internal();
 
+        this->current = new_current;
+
         return *this;
     }
 
-- 
2.43.0


From 2c146d9a47dd601b2d458102546d7bd40adb1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:59 +0000
Subject: [PATCH 109/133] fix: copy out of an array with a count which wraps
 copied past its end

Property: C02
---
 src/estd/internal/container/specializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 75234fd..4f659a8 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -44,7 +44,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         estd::copy_n(src, count, dest);
@@ -184,7 +184,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         // TODO: Do the m_impl.copy_from here
-- 
2.43.0


From b3f6ae8ad7fb417d3f13cdbd7c2957f941e2a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:14 +0000
Subject: [PATCH 110/133] fix: priority_queue assignment took the elements and
 left the comparator which orders them

Property: C05
---
 src/estd/internal/priority_queue.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/priority_queue.h b/src/estd/internal/priority_queue.h
index 74f9139..a972d3f 100644
--- a/src/estd/internal/priority_queue.h
+++ b/src/estd/internal/priority_queue.h
@@ -112,6 +112,8 @@ public:
     priority_queue& operator =(priority_queue&& move_from) noexcept
     {
         c = std::move(move_from.c);
+        // elements are ordered by the comparator they were pushed with
+        compare_provider_type::operator =(std::move(move_from));
         return *this;
     }
 #endif
@@ -119,6 +121,7 @@ public:
     priority_queue& operator =(const priority_queue& copy_from)
     {
         c = copy_from.c;
+        compare_provider_type::operator =(copy_from);
         return *this;
     }
 
-- 
2.43.0


From ad6ed361b1d512d013d5708ce912a9ec18568c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:54 +0000
Subject: [PATCH 111/133] fix: variant emplace by position chose the first
 alternative of the same type

Property: C08
---
 src/estd/internal/variant.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index ac470ed..9cbc08e 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -367,9 +367,17 @@ public:
     template <unsigned I, class... TArgs>
     variant_alternative_t<I>& emplace(TArgs&&...args)
     {
-        typedef variant_alternative_t<I> T_i;
+        destroy_if_valid();
+
+        // Unset index just in case exception is thrown during construction
+        index_ = variant_npos();
 
-        return emplace<T_i>(std::forward<TArgs>(args)...);
+        // by position: the same type may be present more than once
+        auto v = base_type::template emplace<(size_t)I>(std::forward<TArgs>(args)...);
+
+        index_ = I;
+
+        return *v;
     }
 };
 
-- 
2.43.0


From e88e8de54f17dfcf9549d22accdb1e6ee147d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:18 +0000
Subject: [PATCH 112/133] fix: moving an expected whose value can only be moved
 left the value uninitialised

Property: C10
---
 src/estd/internal/expected.h        |  7 +++++++
 src/estd/internal/variant/storage.h | 24 ++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/estd/internal/expected.h b/src/estd/internal/expected.h
index 66055cd..d136cb2 100644
--- a/src/estd/internal/expected.h
+++ b/src/estd/internal/expected.h
@@ -120,6 +120,13 @@ protected:
     {
     }
 
+#if __cpp_rvalue_references
+    expected(expected&& move_from, bool has_value) :
+        storage(std::move(move_from.storage), has_value ? VALUE : ERROR)
+    {
+    }
+#endif
+
     ESTD_CPP_CONSTEXPR_RET expected() :
         storage(in_place_index_t<0>()) {}
 
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index aa50879..a3c76a1 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -259,6 +259,26 @@ struct variant_storage_base : variant_storage_tag
         }
     };
 
+    struct moving_constructor_functor
+    {
+        template <size_t I, class T_i,
+            enable_if_t<!is_move_constructible<T_i>::value, bool> = true>
+        constexpr bool operator()(variadic::type<I, T_i>, this_type&, this_type&, const size_type) const
+        {
+            return false;
+        }
+
+        template <size_t I, class T_i,
+            enable_if_t<is_move_constructible<T_i>::value, bool> = true>
+        bool operator()(variadic::type<I, T_i>, this_type& v, this_type& move_from, const size_type index)
+        {
+            if(index != I) return false;
+
+            v.template move<I>(std::move(move_from));
+            return true;
+        }
+    };
+
 
 
 private:
@@ -579,6 +599,10 @@ public:
         //dummy{visit_instance(copying_constructor_functor{}, nullptr, copy_from, index)}
         dummy{visit(copying_constructor_functor{}, nullptr, *this, copy_from, index)}
     {}
+
+    variant_storage_base(variant_storage_base&& move_from, size_type index) :
+        dummy{visit(moving_constructor_functor{}, nullptr, *this, move_from, index)}
+    {}
 };
 
 
-- 
2.43.0


From 96f9e4b2234d2f9a68525aa61e1b241e4eaf8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:26 +0000
Subject: [PATCH 113/133] fix: unique_lock did not know whether it held its
 mutex and never unlocked it

Property: C30
---
 src/estd/mutex.h | 53 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/estd/mutex.h b/src/estd/mutex.h
index bc1be48..4385739 100644
--- a/src/estd/mutex.h
+++ b/src/estd/mutex.h
@@ -50,54 +50,83 @@ class unique_lock : protected TBase
 {
     typedef TBase base_type;
 
+    // true when it's up to us to unlock the mutex
+    bool owns_;
+
+    // ownership can't be shared
+    unique_lock(const unique_lock&);
+    unique_lock& operator =(const unique_lock&);
+
 public:
     typedef TMutex mutex_type;
 
     mutex_type* mutex() const { return base_type::value(); }
 
+    bool owns_lock() const { return owns_; }
+
     mutex_type* release()
     {
         mutex_type* temp = mutex();
         base_type::value(NULLPTR);
+        owns_ = false;
         return temp;
     }
 
-    void lock() { mutex()->lock(); }
+    void lock()
+    {
+        mutex()->lock();
+        owns_ = true;
+    }
+
+    bool try_lock()
+    {
+        return owns_ = mutex()->try_lock();
+    }
 
-    void unlock() { mutex()->unlock(); }
+    void unlock()
+    {
+        mutex()->unlock();
+        owns_ = false;
+    }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     bool try_lock_for( const estd::chrono::duration<Rep,Period>& timeout_duration )
     {
-        return mutex()->try_lock_for(timeout_duration);
+        return owns_ = mutex()->try_lock_for(timeout_duration);
     }
 #endif
 
-    unique_lock() : base_type(NULLPTR) {}
+    unique_lock() : base_type(NULLPTR), owns_(false) {}
 
-    explicit unique_lock(mutex_type& m) : base_type(&m)
+    explicit unique_lock(mutex_type& m) : base_type(&m), owns_(false)
     {
-        m.lock();
+        lock();
     }
 
-    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m) {}
-    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m) {}
+    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m), owns_(false) {}
+    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m), owns_(true) {}
 
-    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m)
+    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m), owns_(false)
     {
-        m.try_lock();
+        try_lock();
     }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     unique_lock( mutex_type& m, 
              const estd::chrono::duration<Rep,Period>& timeout_duration ) :
-            base_type(&m)
+            base_type(&m),
+            owns_(false)
     {
-        m.try_lock_for(timeout_duration);
+        try_lock_for(timeout_duration);
     }
 #endif
+
+    ~unique_lock()
+    {
+        if(owns_) mutex()->unlock();
+    }
 };
 
 
-- 
2.43.0


From 24bd48b87a4115f4084116a14c60b9aa2761bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:55 +0000
Subject: [PATCH 114/133] fix: giga prefix is available to every unit, not just
 bytes

Property: C31
---
 src/estd/internal/units/si.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/units/si.h b/src/estd/internal/units/si.h
index 0dcdd30..a3c31ca 100644
--- a/src/estd/internal/units/si.h
+++ b/src/estd/internal/units/si.h
@@ -36,8 +36,8 @@ struct traits<estd::mega, Tag>
     static constexpr const char* abbrev() { return "M"; }
 };
 
-template <>
-struct traits<estd::giga>
+template <class Tag>
+struct traits<estd::giga, Tag>
 {
     static constexpr const char* name() { return "giga"; }
     static constexpr const char* abbrev() { return "G"; }
-- 
2.43.0


From 083831f013fa4ca5a8d593282752ad6c85194bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:55 +0000
Subject: [PATCH 115/133] fix: quantities between -1 and 0 are written with
 their sign

Property: C31
---
 src/estd/internal/units/ostream.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/estd/internal/units/ostream.h b/src/estd/internal/units/ostream.h
index 2fdf30e..1627631 100644
--- a/src/estd/internal/units/ostream.h
+++ b/src/estd/internal/units/ostream.h
@@ -17,8 +17,13 @@ estd::detail::basic_ostream<TStreambuf, TBase>& operator <<(
     auto v_ = (int64_t)v;
     auto v_dec = (int64_t)(v * 100) % 100;
 
+    const bool v_dec_negative = v_dec < 0;
+
     if(v_dec < 0)   v_dec = -v_dec;
 
+    // Between -1 and 0 the whole part alone doesn't carry the sign
+    if(v_ == 0 && v_dec_negative) out << '-';
+
     // DEBT: I think ostream is supposed to auto reset to dec, but isn't
     out << estd::dec << v_;
     out << '.';
-- 
2.43.0


From c44aeea5e394047a4db0020b04851c41792daef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:56 +0000
Subject: [PATCH 116/133] fix: ratios with a negative numerator reduce to a
 positive denominator

Property: C33
---
 src/estd/internal/numeric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/numeric.h b/src/estd/internal/numeric.h
index 84a9c16..f8472bd 100644
--- a/src/estd/internal/numeric.h
+++ b/src/estd/internal/numeric.h
@@ -21,7 +21,7 @@ template<std::intmax_t a, std::intmax_t b> struct gcd
 template<std::intmax_t a>
 struct gcd<a, 0>
 {
-    static constexpr std::intmax_t value = a;
+    static constexpr std::intmax_t value = a < 0 ? -a : a;
 };
 
 // https://www.variadic.xyz/2012/01/07/c-template-metaprogramming/
-- 
2.43.0


From b29d8a33437eeda7b8ee70be65ff5e6343912033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:56 +0000
Subject: [PATCH 117/133] fix: is_function knows variadic functions

Property: C32
---
 src/estd/internal/type_traits/is_function.h | 30 +++++++++------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/estd/internal/type_traits/is_function.h b/src/estd/internal/type_traits/is_function.h
index 5e2003c..82b706c 100644
--- a/src/estd/internal/type_traits/is_function.h
+++ b/src/estd/internal/type_traits/is_function.h
@@ -28,17 +28,15 @@ struct is_function<Ret(Args...) volatile> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile> : true_type {};
 
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 // specialization for variadic functions such as printf
 template<class Ret, class... Args>
-struct is_function<Ret(Args......)> : true_type {};
+struct is_function<Ret(Args..., ...)> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const> : true_type {};
+struct is_function<Ret(Args..., ...) const> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile> : true_type {};
+struct is_function<Ret(Args..., ...) volatile> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile> : true_type {};
 
 // specialization for function types that have ref-qualifiers
 template<class Ret, class... Args>
@@ -49,16 +47,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &> : true_type {};
+struct is_function<Ret(Args..., ...) &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &> : true_type {};
+struct is_function<Ret(Args..., ...) const &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) &&> : true_type {};
 template<class Ret, class... Args>
@@ -67,16 +63,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &&> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &&> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &&> : true_type {};
+struct is_function<Ret(Args..., ...) &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &&> : true_type {};
+struct is_function<Ret(Args..., ...) const &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &&> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &&> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &&> : true_type {};
 
 // specializations for noexcept versions of all the above (C++17 and later)
 
-- 
2.43.0


From 736bba148aaa95c96806958f18656ac13b83880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:56 +0000
Subject: [PATCH 118/133] fix: adding a reference to void leaves it alone,
 qualified or not

Property: C32
---
 src/estd/internal/raw/type_traits.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/raw/type_traits.h b/src/estd/internal/raw/type_traits.h
index 7b92e21..a8926c9 100644
--- a/src/estd/internal/raw/type_traits.h
+++ b/src/estd/internal/raw/type_traits.h
@@ -103,10 +103,25 @@ struct add_lvalue_reference : type_identity<T&> {};
 
 template <>
 struct add_lvalue_reference<void> : type_identity<void> {};
+template <>
+struct add_lvalue_reference<const void> : type_identity<const void> {};
+template <>
+struct add_lvalue_reference<volatile void> : type_identity<volatile void> {};
+template <>
+struct add_lvalue_reference<const volatile void> : type_identity<const volatile void> {};
 
 #ifdef __cpp_rvalue_references
 template <class T>
-struct add_rvalue_reference : type_identity<T&&> {};;
+struct add_rvalue_reference : type_identity<T&&> {};
+
+template <>
+struct add_rvalue_reference<void> : type_identity<void> {};
+template <>
+struct add_rvalue_reference<const void> : type_identity<const void> {};
+template <>
+struct add_rvalue_reference<volatile void> : type_identity<volatile void> {};
+template <>
+struct add_rvalue_reference<const volatile void> : type_identity<const volatile void> {};
 #endif
 
 #ifdef __cpp_alias_templates
-- 
2.43.0


From 77c8f22b8ce5c35f321e4070f5c6c37c15e6370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:56 +0000
Subject: [PATCH 119/133] fix: only numbers are unsigned

Property: C32
---
 src/estd/type_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index a6785ca..e53ef71 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -49,7 +49,7 @@ template<typename T>
 struct is_signed : internal::is_signed<T>::type {};
 
 template<typename T>
-struct is_unsigned : bool_constant<!is_signed<T>::value> {};
+struct is_unsigned : bool_constant<is_arithmetic<T>::value && !is_signed<T>::value> {};
 
 template< class T > struct is_pointer : internal::___is_pointer<typename remove_cv<T>::type> {};
 
-- 
2.43.0


From 5f9624829ad0cc296442f3afc2e866dac7e1fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:56 +0000
Subject: [PATCH 120/133] fix: pointers to functions which do not throw

Property: C32
---
 src/estd/type_traits.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index e53ef71..3aa6f13 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -83,6 +83,18 @@ template< class T, class... Args >
 struct add_pointer<T(Args..., ...), true> {
     using type = T(*)(Args..., ...);
 };
+
+#if __cpp_noexcept_function_type
+template< class T, class... Args >
+struct add_pointer<T(Args...) noexcept, true> {
+    using type = T(*)(Args...) noexcept;
+};
+
+template< class T, class... Args >
+struct add_pointer<T(Args..., ...) noexcept, true> {
+    using type = T(*)(Args..., ...) noexcept;
+};
+#endif
 #endif
  
 } // namespace detail
-- 
2.43.0


From d803faecdef35d885acbee193a86f5f565ca831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:56 +0000
Subject: [PATCH 121/133] fix: unions are not classes, pointers to members not
 enumerations

Property: C32
---
 src/estd/internal/llvm_type_traits.h | 4 ++--
 src/estd/type_traits.h               | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/llvm_type_traits.h b/src/estd/internal/llvm_type_traits.h
index 8153aa5..bd85ece 100644
--- a/src/estd/internal/llvm_type_traits.h
+++ b/src/estd/internal/llvm_type_traits.h
@@ -134,8 +134,8 @@ template <class _Tp> struct is_enum
                                      !is_array<_Tp>::value            &&
                                      !is_pointer<_Tp>::value          &&
                                      !is_reference<_Tp>::value        &&
-                                     //!is_member_pointer<_Tp>::value   &&
-                                     //!is_union<_Tp>::value            &&
+                                     !is_member_pointer<_Tp>::value   &&
+                                     !is_union<_Tp>::value            &&
 #ifdef FEATURE_CPP_VARIADIC
                                     !is_function<_Tp>::value         &&
 #endif
diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index 3aa6f13..66896fd 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -16,7 +16,12 @@ template <class T> char is_class_test(int T::*);
 struct two { char c[2]; };
 template <class T> two is_class_test(...);
 
+// No library-only way to tell a union from a class
+#if defined(__clang__) || defined(__GNUC__) || defined(_MSC_VER)
+template <class _Tp> struct __libcpp_union : public integral_constant<bool, __is_union(_Tp)> {};
+#else
 template <class _Tp> struct __libcpp_union : public false_type {};
+#endif
 
 }
 
-- 
2.43.0


From 0c02168949f50e4178b4805f069345aa4ed80d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 122/133] fix: promoted_type of two unsigned types one of which
 has 64 bits did not compile, so uint64_t durations of different periods could
 not be added or compared

Property: C33
---
 src/estd/internal/promoted_type.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estd/internal/promoted_type.h b/src/estd/internal/promoted_type.h
index 1b5b885..68f06e4 100644
--- a/src/estd/internal/promoted_type.h
+++ b/src/estd/internal/promoted_type.h
@@ -64,6 +64,12 @@ struct promote_type<uint32_t>
     typedef uint64_t type;
 };
 
+template<>
+struct promote_type<uint64_t>
+{
+    typedef void type;
+};
+
 }
 
 // TODO: Fix name - auto_promote means, if necessary, move
-- 
2.43.0


From ad85f6b176bf3058bd9ce4c90d457b6b86c863cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:42 +0000
Subject: [PATCH 123/133] fix: invoke of anything but a member pointer was
 ambiguous

Its implementation and the declaration behind invoke_result had the same name.

Property: C34
---
 src/estd/internal/invoke.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/invoke.h b/src/estd/internal/invoke.h
index 13b196f..60d0d01 100644
--- a/src/estd/internal/invoke.h
+++ b/src/estd/internal/invoke.h
@@ -16,7 +16,7 @@ template <class T>
 constexpr bool is_reference_wrapper_v = is_reference_wrapper<T>::value;
 
 template <class T, class Type, class T1, class... Args>
-decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
+decltype(auto) INVOKE_IMPL(Type T::* f, T1&& t1, Args&&... args)
 {
     if constexpr (std::is_member_function_pointer_v<decltype(f)>) {
         if constexpr (estd::is_base_of_v<T, std::decay_t<T1>>)
@@ -38,7 +38,7 @@ decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
 }
 
 template <class F, class... Args>
-decltype(auto) INVOKE(F&& f, Args&&... args)
+decltype(auto) INVOKE_IMPL(F&& f, Args&&... args)
 {
       return std::forward<F>(f)(std::forward<Args>(args)...);
 }
@@ -49,7 +49,7 @@ template< class F, class... Args>
 estd::invoke_result_t<F, Args...> invoke(F&& f, Args&&... args)
   noexcept(std::is_nothrow_invocable_v<F, Args...>)
 {
-    return detail::INVOKE(std::forward<F>(f), std::forward<Args>(args)...);
+    return detail::INVOKE_IMPL(std::forward<F>(f), std::forward<Args>(args)...);
 }
 
 
-- 
2.43.0


From c694494842aaa53b668ae3808f014f1c31ec1c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:42 +0000
Subject: [PATCH 124/133] fix: cref did not compile

It returned a reference_wrapper to non-const, which const T& cannot bind to.

Property: C34
---
 src/estd/functional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index edeef25..28854e8 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -82,9 +82,9 @@ reference_wrapper<T> ref(T& t) NOEXCEPT
 }
 
 template <class T>
-reference_wrapper<T> cref(const T& t) NOEXCEPT
+reference_wrapper<const T> cref(const T& t) NOEXCEPT
 {
-    return reference_wrapper<T>(t);
+    return reference_wrapper<const T>(t);
 }
 
 #if defined (FEATURE_CPP_VARIADIC) && defined (FEATURE_CPP_MOVESEMANTIC)
-- 
2.43.0


From 4507bf27ceb7710015af84654b6325ef4356c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:46 +0000
Subject: [PATCH 125/133] fix: waiting until a point in time did not compile,
 and a negative time waited (nearly) forever

Property: C35
---
 src/estd/port/freertos/chrono.h    | 21 +++++++++++++++++++++
 src/estd/port/freertos/mutex.h     | 11 ++---------
 src/estd/port/freertos/semaphore.h |  6 ++----
 src/estd/port/freertos/thread.h    | 10 ++--------
 4 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/estd/port/freertos/chrono.h b/src/estd/port/freertos/chrono.h
index 3f4ed9d..36feda7 100644
--- a/src/estd/port/freertos/chrono.h
+++ b/src/estd/port/freertos/chrono.h
@@ -57,6 +57,27 @@ ESTD_CPP_CONSTEXPR_RET estd::chrono::freertos_clock::duration max_delay()
     return estd::chrono::freertos_clock::duration(portMAX_DELAY);
 }
 
+namespace internal {
+
+// Whole ticks to wait for a time to pass - none if it is negative, since ticks are unsigned
+template <class Rep, class Period>
+inline TickType_t to_ticks(const estd::chrono::duration<Rep, Period>& d)
+{
+    return d.count() > 0 ?
+        estd::chrono::duration_cast<estd::chrono::freertos_clock::duration>(d).count() : 0;
+}
+
+// Whole ticks to wait for a point in time - none if it has passed already
+template <class Clock, class Duration>
+inline TickType_t to_ticks(const estd::chrono::time_point<Clock, Duration>& t)
+{
+    const typename Clock::time_point now = Clock::now();
+
+    return t > now ? to_ticks(t - now) : 0;
+}
+
+}
+
 }
 
 }
diff --git a/src/estd/port/freertos/mutex.h b/src/estd/port/freertos/mutex.h
index d79c527..5d4f696 100644
--- a/src/estd/port/freertos/mutex.h
+++ b/src/estd/port/freertos/mutex.h
@@ -100,20 +100,13 @@ public:
     template< class Rep, class Period >
     bool try_lock_for(const estd::chrono::duration<Rep,Period>& timeout_duration)
     {
-        // This should convert whatever incoming time format duration into our steady_clock
-        // duration, which is very specifically freertos-tick bound
-        // if this works well, use duration_cast instead and directly
-        // on xSemaphoreTake
-        estd::chrono::freertos_clock::duration d = timeout_duration;
-
-        // get number of ticks
-        return xSemaphoreTake(base_type::s, d.count());
+        return xSemaphoreTake(base_type::s, internal::to_ticks(timeout_duration));
     }
 
     template<class Clock, class Duration>
     bool try_lock_until(const estd::chrono::time_point<Clock,Duration>& timeout_time)
     {
-        return xSemaphoreTake(base_type::s, timeout_time - chrono::freertos_clock::now());
+        return xSemaphoreTake(base_type::s, internal::to_ticks(timeout_time));
     }
 };
 
diff --git a/src/estd/port/freertos/semaphore.h b/src/estd/port/freertos/semaphore.h
index 10c935a..2a8d995 100644
--- a/src/estd/port/freertos/semaphore.h
+++ b/src/estd/port/freertos/semaphore.h
@@ -71,15 +71,13 @@ public:
     template<class Rep, class Period>
     bool try_acquire_for(const estd::chrono::duration<Rep,Period>& timeout_duration)
     {
-        estd::chrono::freertos_clock::duration d = timeout_duration;
-
-        return s.take(d.count());
+        return s.take(to_ticks(timeout_duration));
     }
 
     template<class Clock, class Duration>
     bool try_acquire_until(const estd::chrono::time_point<Clock,Duration>& timeout_time)
     {
-        return s.take(timeout_time - chrono::freertos_clock::now());
+        return s.take(to_ticks(timeout_time));
     }
 
     void release()
diff --git a/src/estd/port/freertos/thread.h b/src/estd/port/freertos/thread.h
index b285478..21328d5 100644
--- a/src/estd/port/freertos/thread.h
+++ b/src/estd/port/freertos/thread.h
@@ -106,11 +106,7 @@ namespace this_thread {
 template< class Rep, class Period >
 void sleep_for( const chrono::duration<Rep, Period>& sleep_duration )
 {
-    // TODO: Pretty sure we can do a straight chrono::stead_clock::duration instance here
-    chrono::freertos_clock::rep count =
-            estd::chrono::duration_cast<chrono::freertos_clock::duration>(sleep_duration).count();
-
-    vTaskDelay(count);
+    vTaskDelay(freertos::internal::to_ticks(sleep_duration));
 }
 
 // FreeRTOS' "delay until" code is subtly but fundamentally different than std lib version,
@@ -122,9 +118,7 @@ void sleep_for( const chrono::duration<Rep, Period>& sleep_duration )
 template< class Clock, class Duration >
 void sleep_until( const chrono::time_point<Clock,Duration>& sleep_time )
 {
-    chrono::freertos_clock::rep count = sleep_time - chrono::freertos_clock::now();
-
-    vTaskDelay(count);
+    vTaskDelay(freertos::internal::to_ticks(sleep_time));
 }
 
 inline void yield() { taskYIELD(); }
-- 
2.43.0


From 9c78cdbc8d3bfbcb446811afb06a040af5c56c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:46 +0000
Subject: [PATCH 126/133] fix: copies of FreeRTOS locks, queues, event groups
 and timers freed them twice

Property: C35
---
 src/estd/port/freertos/event_groups.h | 4 ++++
 src/estd/port/freertos/queue.h        | 5 +++++
 src/estd/port/freertos/semaphore.h    | 4 ++++
 src/estd/port/freertos/timer.h        | 8 ++++++++
 4 files changed, 21 insertions(+)

diff --git a/src/estd/port/freertos/event_groups.h b/src/estd/port/freertos/event_groups.h
index aa93643..3e9025e 100644
--- a/src/estd/port/freertos/event_groups.h
+++ b/src/estd/port/freertos/event_groups.h
@@ -42,6 +42,10 @@ class event_group<false> : public internal::event_group
 {
     typedef internal::event_group base_type;
 
+    // Frees its event group, so only one of us may have it
+    event_group(const event_group&);
+    event_group& operator=(const event_group&);
+
 protected:
     event_group(EventGroupHandle_t h) : base_type(h) {}
 
diff --git a/src/estd/port/freertos/queue.h b/src/estd/port/freertos/queue.h
index 680ccfc..e813d04 100644
--- a/src/estd/port/freertos/queue.h
+++ b/src/estd/port/freertos/queue.h
@@ -16,6 +16,11 @@ struct queue
     ESTD_CPP_STD_VALUE_TYPE(T)
     typedef estd::chrono::freertos_clock::duration duration;
 
+private:
+    // Frees its queue, so only one of us may have it
+    queue(const queue&);
+    queue& operator=(const queue&);
+
 protected:
     wrapper::queue q;
 
diff --git a/src/estd/port/freertos/semaphore.h b/src/estd/port/freertos/semaphore.h
index 2a8d995..7af429e 100644
--- a/src/estd/port/freertos/semaphore.h
+++ b/src/estd/port/freertos/semaphore.h
@@ -13,6 +13,10 @@ namespace internal {
 
 class semaphore_base
 {
+    // Frees its semaphore, so only one of us may have it
+    semaphore_base(const semaphore_base&);
+    semaphore_base& operator=(const semaphore_base&);
+
 protected:
     typedef wrapper::semaphore wrapped;
 
diff --git a/src/estd/port/freertos/timer.h b/src/estd/port/freertos/timer.h
index db89399..3e38335 100644
--- a/src/estd/port/freertos/timer.h
+++ b/src/estd/port/freertos/timer.h
@@ -12,6 +12,10 @@ class timer<false> : public internal::timer
 {
     typedef internal::timer base_type;
 
+    // Frees its timer, so only one of us may have it
+    timer(const timer&);
+    timer& operator=(const timer&);
+
 public:
     timer(const char* const name, duration period, bool auto_reload, void* const id,
         TimerCallbackFunction_t callback) :
@@ -37,6 +41,10 @@ class timer<true> : public internal::timer
 {
     typedef internal::timer base_type;
 
+    // Frees its timer, so only one of us may have it
+    timer(const timer&);
+    timer& operator=(const timer&);
+
     StaticTimer_t storage;
 
 public:
-- 
2.43.0


From c5bd3bc07874060384d5e5c2f27606d67160a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:46 +0000
Subject: [PATCH 127/133] fix: streams over a FILE could not look at the next
 character, did not flush and had no end

Property: C36
---
 src/estd/port/posix/streambuf.cpp |  5 +++++
 src/estd/port/posix/streambuf.h   | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/estd/port/posix/streambuf.cpp b/src/estd/port/posix/streambuf.cpp
index 524e5f7..9cd1880 100644
--- a/src/estd/port/posix/streambuf.cpp
+++ b/src/estd/port/posix/streambuf.cpp
@@ -43,6 +43,11 @@ int posix_streambuf::sgetc()
     return c;
 }
 
+int posix_streambuf::sync()
+{
+    return fflush(&this->stream) == 0 ? 0 : -1;
+}
+
 } } }
 
 #endif
diff --git a/src/estd/port/posix/streambuf.h b/src/estd/port/posix/streambuf.h
index 070baf2..fce570a 100644
--- a/src/estd/port/posix/streambuf.h
+++ b/src/estd/port/posix/streambuf.h
@@ -78,7 +78,8 @@ struct posix_fd_streambuf : streambuf_base<Traits>
 };
 
 struct posix_streambuf :
-        native_streambuf_base<char, posix_stream_t, ::std::char_traits<char> >
+        native_streambuf_base<char, posix_stream_t, ::std::char_traits<char> >,
+        streambuf_sbumpc_tag
 {
     typedef native_streambuf_base<char, posix_stream_t, ::std::char_traits<char> > base_type;
     typedef base_type::char_type char_type;
@@ -90,6 +91,14 @@ struct posix_streambuf :
     int sgetc();
     int sbumpc();
     int sputc(char);
+    int sync();
+
+    // Nothing is buffered here, so the file is always asked
+    int underflow() { return sgetc(); }
+    int xsgetc() const { return traits_type::eof(); }
+
+    // What more there is isn't known until the end has been met
+    streamsize showmanyc() const { return feof(&this->stream) ? -1 : 0; }
 
     // TODO: Might want this one day, but it will mandate carring that #include <stdio.h> around
     // though at the moment we have to do that anyway due to ::FILE
-- 
2.43.0


From c05bf297080afdabbd10b29b2b48aa0b1006e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:46 +0000
Subject: [PATCH 128/133] fix: characters put into a virtual streambuf were
 dropped

Property: C36
---
 src/estd/internal/impl/streambuf.h | 2 +-
 src/estd/internal/streambuf.h      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/streambuf.h b/src/estd/internal/impl/streambuf.h
index 30662a2..923ca1f 100644
--- a/src/estd/internal/impl/streambuf.h
+++ b/src/estd/internal/impl/streambuf.h
@@ -76,7 +76,7 @@ protected:
 
 public:
     // DEBT: Not well thought out, just getting things compiling
-    int_type sputc(char_type ch) { return overflow(ch); }
+    int_type sputc(char_type ch) { return overflow(traits_type::to_int_type(ch)); }
 };
 
 }}}
diff --git a/src/estd/internal/streambuf.h b/src/estd/internal/streambuf.h
index 1fb28c5..6db6615 100644
--- a/src/estd/internal/streambuf.h
+++ b/src/estd/internal/streambuf.h
@@ -50,7 +50,10 @@ protected:
 
     virtual int_type overflow(int_type ch = traits_type::eof()) OVERRIDE
     {
-        return _rdbuf.overflow();
+        // without a character there is only room to be made
+        return traits_type::eq_int_type(ch, traits_type::eof()) ?
+            _rdbuf.overflow() :
+            _rdbuf.sputc(traits_type::to_char_type(ch));
     }
 
 public:
-- 
2.43.0


From 7b82f1400241952c17909cda6812353998e04cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:39 +0000
Subject: [PATCH 129/133] fix: the hash of an empty optional was taken from a
 value which is not there

Property: C09
---
 src/estd/optional.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index d1eef96..9b20695 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -460,4 +460,16 @@ struct hash<optional<T, Base>>
     }
 };
 
+// Only the sentinel flavors have a value to look at when empty
+template <class T>
+struct hash<optional<T, internal::optional_base<T>>>
+{
+    constexpr size_t operator()(const optional<T, internal::optional_base<T>>& v) const
+    {
+        using underlying = hash<estd::remove_const_t<T>>;
+
+        return v.has_value() ? underlying{}(*v) : 0;
+    }
+};
+
 }
-- 
2.43.0


From 40dca0fa452570109284d6f753972a093898060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:09 +0000
Subject: [PATCH 130/133] fix: postfix increment of a bucket's iterator did not
 compile

Property: C06
---
 src/estd/internal/container/unordered/base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 778ed07..bbc3820 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -415,9 +415,11 @@ protected:
 
         this_type operator++(int)
         {
+            this_type was(*this);
+
             operator++();
 
-            return { n_, it_ - 1 };
+            return was;
         }
 
         constexpr bool operator==(const LocalIt& other) const
-- 
2.43.0


From 31e0e048f3a4b377f58d2c3910129b5ceabd1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:09 +0000
Subject: [PATCH 131/133] fix: top() of a constant stack referred to a
 temporary

Property: C04
---
 src/estd/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/stack.h b/src/estd/stack.h
index 9c7f9e8..23d9a0a 100644
--- a/src/estd/stack.h
+++ b/src/estd/stack.h
@@ -35,7 +35,7 @@ public:
     void pop() { c.pop_back(); }
 
     accessor top() { return c.back(); }
-    const accessor& top() const { return c.back(); }
+    const accessor top() const { return c.back(); }
 
     size_type size() const { return c.size(); }
     bool empty() const { return c.empty(); }
-- 
2.43.0


From 1eae10757d5ac6dbaa1cd5cb79ae5d34077d1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:09 +0000
Subject: [PATCH 132/133] fix: a pool counted the blocks after its head instead
 of the free ones

Property: C13
---
 src/estd/exp/memory/memory_pool2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index d2a6d4c..442f54b 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -90,7 +90,7 @@ public:
         std::size_t count = 0;
 
         // TODO: Make a estd::accumulate
-        for(; i != items.end(); ++i, ++count);
+        for(; i != items.end(); i = i->next, ++count);
 
         return count;
     }
-- 
2.43.0


From 59c887348646ccf2e5e23c9b909d3df20d2987f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:46 +0000
Subject: [PATCH 133/133] fix: unordered containers' npos defined in every
 translation unit before C++17

The header defined the static member of a plain class, so a program which
includes it in two files did not link as C++11 or C++14.

Property: C38
---
 src/estd/internal/container/unordered/base.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index bbc3820..f868918 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -22,7 +22,9 @@ struct has_destructor<T,
     enable_if_t<is_class<T>::value || is_union<T>::value>>
     : true_type {};
 
-// To help ease c++11's nerves
+// To help ease c++11's nerves.  A template, so that the definition below may appear in
+// more than one translation unit
+template <class = void>
 struct unordered_base_constants
 {
     using size_type = unsigned;
@@ -30,11 +32,12 @@ struct unordered_base_constants
     static constexpr size_type npos = numeric_limits<size_type>::max();
 };
 
-constexpr unsigned unordered_base_constants::npos;
+template <class T>
+constexpr unsigned unordered_base_constants<T>::npos;
 
 template <class Container, class Traits>
 class unordered_base : public Traits,
-    public unordered_base_constants
+    public unordered_base_constants<>
 {
     using this_type = unordered_base;
     using base_type = Traits;
-- 
2.43.0

