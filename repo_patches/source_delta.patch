From f1c8aaf39777b6930a901a8a3d049dd851000439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 01/42] fix: slist::dispose_and_assign did not compile (passed
 the disposer on to insert_after)

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f39e7df..46562dd 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1227,7 +1227,7 @@ class slist_impl
    void dispose_and_assign(Disposer disposer, Iterator b, Iterator e)
    {
       this->clear_and_dispose(disposer);
-      this->insert_after(this->cbefore_begin(), b, e, disposer);
+      this->insert_after(this->cbefore_begin(), b, e);
    }
 
    //! <b>Requires</b>: prev must point to an element contained by this list or
-- 
2.43.0


From 8be9325c94ae2af6d0075ba3211affc3ee174807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 02/42] fix: slist::unique_and_dispose(disposer) did not
 compile (called a two-argument unique)

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 46562dd..c6ae30d 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1703,7 +1703,7 @@ class slist_impl
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
    void unique_and_dispose(Disposer disposer)
-   {  this->unique(value_equal<value_type>(), disposer);  }
+   {  this->unique_and_dispose(value_equal<value_type>(), disposer);  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
    //!
-- 
2.43.0


From 6c4cd35faf2dee11cc8a7a69ecb4546bf10cf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 03/42] fix: slist::last() const and clast() did not compile
 (const_node_ptr passed to the iterator)

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index c6ae30d..554575a 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -639,7 +639,7 @@ class slist_impl
    {
       //This function shall not be used if cache_last is not true
       BOOST_INTRUSIVE_INVARIANT_ASSERT(cache_last);
-      return const_iterator (this->get_last_node(), this->priv_value_traits_ptr());
+      return const_iterator (detail::uncast(this->get_last_node()), this->priv_value_traits_ptr());
    }
 
    //! <b>Effects</b>: Returns a const_iterator to the last element contained in the list.
@@ -650,7 +650,7 @@ class slist_impl
    //!
    //! <b>Note</b>: This function is present only if cached_last<> option is true.
    inline const_iterator clast() const BOOST_NOEXCEPT
-   { return const_iterator(this->get_last_node(), this->priv_value_traits_ptr()); }
+   { return const_iterator(detail::uncast(this->get_last_node()), this->priv_value_traits_ptr()); }
 
    //! <b>Precondition</b>: end_iterator must be a valid end iterator
    //!   of slist.
-- 
2.43.0


From 2354d86cd2aee06e539df1994ed29d5859dc9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 04/42] fix: slist::clone_from(rvalue) did not compile
 (iterator built from a const_iterator)

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 554575a..f9c30d4 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -791,7 +791,7 @@ class slist_impl
       this->clear_and_dispose(disposer);
       detail::exception_disposer<slist_impl, Disposer>
          rollback(*this, disposer);
-      iterator prev(this->cbefore_begin());
+      iterator prev(this->before_begin());
       iterator b(src.begin()), e(src.end());
       for(; b != e; ++b){
          prev = this->insert_after(prev, *cloner(*b));
-- 
2.43.0


From 6bb595cff61b157ea7623133066a084aaadb9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 05/42] fix: slist::incorporate_after(prev, f, before_l) did
 not compile with constant_time_size

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f9c30d4..5fe89a8 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1880,7 +1880,7 @@ class slist_impl
    void incorporate_after(const_iterator prev_pos, node_ptr f, node_ptr before_l) BOOST_NOEXCEPT
    {
       BOOST_IF_CONSTEXPR(constant_time_size)
-         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f.pointed_node(), before_l.pointed_node())+1);
+         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f, before_l)+1);
       else
          this->priv_incorporate_after(prev_pos.pointed_node(), f, before_l);
    }
-- 
2.43.0


From 1f4958349d1bb113e458d1ff72bc96bd4e4cd1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 06/42] fix: slist::sort dereferenced a null pointer on empty
 lists and power of two sizes when linear

---
 include/boost/intrusive/slist.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 5fe89a8..f06ad9a 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1440,7 +1440,7 @@ class slist_impl
    template<class Predicate>
    void sort(Predicate p)
    {
-      if (node_traits::get_next(node_traits::get_next(this->get_root_node()))
+      if (!this->empty() && node_traits::get_next(node_traits::get_next(this->get_root_node()))
          != this->get_root_node()) {
 
          slist_impl carry(this->priv_value_traits());
@@ -1474,6 +1474,9 @@ class slist_impl
          for (int i = 1; i < fill; ++i)
             counter[i].merge(counter[i-1], p, &last_inserted);
          --fill;
+         //If the last merge moved nothing then last_inserted is end(), which is null in linear lists
+         if(last_inserted == counter[fill].cend())
+            last_inserted = counter[fill].cbefore_begin();
          const_iterator last_element(counter[fill].previous(last_inserted, counter[fill].end()));
          BOOST_IF_CONSTEXPR(constant_time_size){
             this->splice_after( cbefore_begin(), counter[fill], counter[fill].cbefore_begin()
-- 
2.43.0


From 105744d790fca566d6c7c057e9911d305f5ce10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 07/42] fix: slist::splice_after did not update the cached last
 node when the tail moved inside the same list

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f06ad9a..cf4486f 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1992,11 +1992,11 @@ class slist_impl
    private:
    void priv_splice_after(node_ptr prev_pos_n, slist_impl &x, node_ptr before_f_n, node_ptr before_l_n)
    {
-      if (cache_last && (before_f_n != before_l_n)){
+      if (cache_last && before_f_n != before_l_n && prev_pos_n != before_f_n && prev_pos_n != before_l_n){
          if(prev_pos_n == this->get_last_node()){
             this->set_last_node(before_l_n);
          }
-         if(&x != this && node_traits::get_next(before_l_n) == x.get_end_node()){
+         if(node_traits::get_next(before_l_n) == x.get_end_node()){
             x.set_last_node(before_f_n);
          }
       }
-- 
2.43.0


From 3c4a589b3ec9c6c0d6f65539a758a1fb49f587c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 08/42] fix: assigning an iterator did not copy its pointer to
 stateful value traits

---
 include/boost/intrusive/detail/list_iterator.hpp  | 2 +-
 include/boost/intrusive/detail/slist_iterator.hpp | 2 +-
 include/boost/intrusive/detail/tree_iterator.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/detail/list_iterator.hpp b/include/boost/intrusive/detail/list_iterator.hpp
index 0a10e84..3e8bb3b 100644
--- a/include/boost/intrusive/detail/list_iterator.hpp
+++ b/include/boost/intrusive/detail/list_iterator.hpp
@@ -76,7 +76,7 @@ class list_iterator
    {}
 
    inline list_iterator &operator=(const list_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/slist_iterator.hpp b/include/boost/intrusive/detail/slist_iterator.hpp
index 64387c4..002454f 100644
--- a/include/boost/intrusive/detail/slist_iterator.hpp
+++ b/include/boost/intrusive/detail/slist_iterator.hpp
@@ -82,7 +82,7 @@ class slist_iterator
    {}
 
    inline slist_iterator &operator=(const slist_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/tree_iterator.hpp b/include/boost/intrusive/detail/tree_iterator.hpp
index f97cecb..a47bf1c 100644
--- a/include/boost/intrusive/detail/tree_iterator.hpp
+++ b/include/boost/intrusive/detail/tree_iterator.hpp
@@ -84,7 +84,7 @@ class tree_iterator
    {}
 
    inline tree_iterator &operator=(const tree_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline tree_iterator &operator=(node_ptr nodeptr)
    {  members_.nodeptr_ = nodeptr;  return *this;  }
-- 
2.43.0


From 09acd7769b3c26fb5821fbe211a55bc66cec05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 09/42] fix: circular_slist_algorithms::swap_nodes corrupted
 the list when both nodes were in the same list

---
 include/boost/intrusive/circular_slist_algorithms.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/circular_slist_algorithms.hpp b/include/boost/intrusive/circular_slist_algorithms.hpp
index bc4beaa..7a0a9a5 100644
--- a/include/boost/intrusive/circular_slist_algorithms.hpp
+++ b/include/boost/intrusive/circular_slist_algorithms.hpp
@@ -299,12 +299,15 @@ class circular_slist_algorithms
       const bool other_null  = !other_next;
       const bool this_empty  = this_next == this_node;
       const bool other_empty = other_next == other_node;
+      //Both searches must be done before relinking, as nodes might belong to the same list
+      const node_ptr this_prev  = (this_null  || this_empty)  ? this_next  : get_previous_node(this_node);
+      const node_ptr other_prev = (other_null || other_empty) ? other_next : get_previous_node(other_node);
 
       if(!(other_null || other_empty)){
-         NodeTraits::set_next(this_next == other_node ? other_node : get_previous_node(other_node), this_node );
+         NodeTraits::set_next(this_next == other_node ? other_node : other_prev, this_node );
       }
       if(!(this_null | this_empty)){
-         NodeTraits::set_next(other_next == this_node ? this_node  : get_previous_node(this_node), other_node );
+         NodeTraits::set_next(other_next == this_node ? this_node  : this_prev, other_node );
       }
       NodeTraits::set_next(this_node,  other_empty ? this_node  : (other_next == this_node ? other_node : other_next) );
       NodeTraits::set_next(other_node, this_empty  ? other_node : (this_next == other_node ? this_node :  this_next ) );
-- 
2.43.0


From 88c96fd0fd8f0f710636f16ed9798dbc4c619640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 10/42] fix: bs_set and splay_set could not merge a multiset
 (forward declaration in the wrong namespace)

---
 include/boost/intrusive/bs_set.hpp    | 6 +++---
 include/boost/intrusive/splay_set.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index c3275dd..314d8d4 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class bs_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template bs_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index f11424a..9d05206 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class splay_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template splay_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
-- 
2.43.0


From 41e38747fbfda22eb2c4aab79d6bb0e65faa8219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 11/42] fix: bstree_algorithms::clone_subtree could store a
 wrong rightmost node

---
 include/boost/intrusive/bstree_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 45e6b18..613440b 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1972,7 +1972,7 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_left  (temp, insertion_point);
                //Update leftmost
-               if(rightmost == target_sub_root)
+               if(leftmost == temp)
                   leftmost = insertion_point;
             }
             //Then clone right nodes
@@ -1988,7 +1988,8 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_right (temp, insertion_point);
                //Update rightmost
-               rightmost = insertion_point;
+               if(rightmost == temp)
+                  rightmost = insertion_point;
             }
             //If not, go up
             else if(current == source_root){
-- 
2.43.0


From 657a6ab4a0880273f347c4ad3c1b26f8daf15ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 12/42] fix: bstree_algorithms::clone corrupted the target
 header if the source tree was empty

---
 include/boost/intrusive/bstree_algorithms.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 613440b..3016aeb 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1304,6 +1304,11 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
          clear_and_dispose(target_header, disposer);
       }
 
+      if(unique(source_header)){
+         init_header(target_header);
+         return;
+      }
+
       node_ptr leftmost, rightmost;
       node_ptr new_root = clone_subtree
          (source_header, target_header, cloner, disposer, leftmost, rightmost);
-- 
2.43.0


From 3e9cf6a24ef7cebb92bd22e1081a261a182e9377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 13/42] fix: bstree::clone_from did not copy the predicate of
 an empty source

---
 include/boost/intrusive/bstree.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 8196d36..55d2577 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1010,6 +1010,9 @@ class bstree_impl
          this->get_comp() = src.get_comp();
          rollback.release();
       }
+      else{
+         this->get_comp() = src.get_comp();
+      }
    }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1045,6 +1048,9 @@ class bstree_impl
          this->get_comp() = src.get_comp();
          rollback.release();
       }
+      else{
+         this->get_comp() = src.get_comp();
+      }
    }
 
    //! <b>Requires</b>: value must be an lvalue
-- 
2.43.0


From 3e03cd3cff06c0b5fca38d7a70535b59975d7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 14/42] fix: splaytree::splay_down did not accept comparisons
 of a key type

---
 include/boost/intrusive/splaytree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/intrusive/splaytree.hpp b/include/boost/intrusive/splaytree.hpp
index e25647c..983228e 100644
--- a/include/boost/intrusive/splaytree.hpp
+++ b/include/boost/intrusive/splaytree.hpp
@@ -496,9 +496,7 @@ class splaytree_impl
    template<class KeyType, class KeyTypeKeyCompare>
    iterator splay_down(const KeyType &key, KeyTypeKeyCompare comp)
    {
-      detail::key_nodeptr_comp<value_compare, value_traits>
-         key_node_comp(comp, &this->get_value_traits());
-      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, key_node_comp);
+      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, this->key_node_comp(comp));
       return iterator(r, this->priv_value_traits_ptr());
    }
 
-- 
2.43.0


From 0126876e8aede6668d0e6d2fffaa9c7973fe3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 15/42] fix: treap operations documented to propagate
 priority_compare exceptions terminated the program

---
 include/boost/intrusive/treap.hpp     | 16 +++++++--------
 include/boost/intrusive/treap_set.hpp | 28 +++++++++++++--------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 4d8c916..0514fc1 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -777,7 +777,7 @@ class treap_impl
    //! the successor of "value" container ordering invariant will be broken.
    //! This is a low-level function to be used only for performance reasons
    //! by advanced users.
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT
+   iterator insert_before(const_iterator pos, reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -807,7 +807,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_back(reference value) BOOST_NOEXCEPT
+   void push_back(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -830,7 +830,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_front(reference value) BOOST_NOEXCEPT
+   void push_front(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -847,7 +847,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator i) BOOST_NOEXCEPT
+   iterator erase(const_iterator i)
    {
       const_iterator ret(i);
       ++ret;
@@ -870,7 +870,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT
+   iterator erase(const_iterator b, const_iterator e)
    {  size_type n;   return private_erase(b, e, n);   }
 
    //! <b>Effects</b>: Erases all the elements with the given value.
@@ -921,7 +921,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator i, Disposer disposer)
    {
       node_ptr to_erase(i.pointed_node());
       iterator ret(this->erase(i));
@@ -931,7 +931,7 @@ class treap_impl
 
    #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
    template<class Disposer>
-   iterator erase_and_dispose(iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(iterator i, Disposer disposer)
    {  return this->erase_and_dispose(const_iterator(i), disposer);   }
    #endif
 
@@ -948,7 +948,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer)
    {  size_type n;   return private_erase(b, e, n, disposer);   }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
diff --git a/include/boost/intrusive/treap_set.hpp b/include/boost/intrusive/treap_set.hpp
index f6a7a8f..3e39185 100644
--- a/include/boost/intrusive/treap_set.hpp
+++ b/include/boost/intrusive/treap_set.hpp
@@ -279,19 +279,19 @@ class treap_set_impl
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
    //! @copydoc ::boost::intrusive::treap::insert_before
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT;
+   iterator insert_before(const_iterator pos, reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_back
-   void push_back(reference value) BOOST_NOEXCEPT;
+   void push_back(reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_front
-   void push_front(reference value) BOOST_NOEXCEPT;
+   void push_front(reference value);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator)
-   iterator erase(const_iterator i) BOOST_NOEXCEPT;
+   iterator erase(const_iterator i);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator,const_iterator)
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT;
+   iterator erase(const_iterator b, const_iterator e);
 
    //! @copydoc ::boost::intrusive::treap::erase(const key_type &)
    size_type erase(const key_type &key);
@@ -302,11 +302,11 @@ class treap_set_impl
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator i, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const key_type &, Disposer)
    template<class Disposer>
@@ -809,19 +809,19 @@ class treap_multiset_impl
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
    //! @copydoc ::boost::intrusive::treap::insert_before
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT;
+   iterator insert_before(const_iterator pos, reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_back
-   void push_back(reference value) BOOST_NOEXCEPT;
+   void push_back(reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_front
-   void push_front(reference value) BOOST_NOEXCEPT;
+   void push_front(reference value);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator)
-   iterator erase(const_iterator i) BOOST_NOEXCEPT;
+   iterator erase(const_iterator i);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator,const_iterator)
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT;
+   iterator erase(const_iterator b, const_iterator e);
 
    //! @copydoc ::boost::intrusive::treap::erase(const key_type &)
    size_type erase(const key_type &key);
@@ -832,11 +832,11 @@ class treap_multiset_impl
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator i, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const key_type &, Disposer)
    template<class Disposer>
-- 
2.43.0


From d289a3d68371fc0117e7eb2919f80d05352fd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 16/42] fix: non-member swap of treaps and scapegoat trees only
 swapped part of their state

---
 include/boost/intrusive/sgtree.hpp | 5 +++--
 include/boost/intrusive/treap.hpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/sgtree.hpp b/include/boost/intrusive/sgtree.hpp
index aaee165..daeda29 100644
--- a/include/boost/intrusive/sgtree.hpp
+++ b/include/boost/intrusive/sgtree.hpp
@@ -889,10 +889,11 @@ class sgtree_impl
 
    friend bool operator>=(const sgtree_impl &x, const sgtree_impl &y);
 
-   friend void swap(sgtree_impl &x, sgtree_impl &y);
-
    #endif   //#ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
+   friend void swap(sgtree_impl &x, sgtree_impl &y)
+   {  x.swap(y);  }
+
    //! <b>Returns</b>: The balance factor (alpha) used in this tree
    //!
    //! <b>Throws</b>: Nothing.
diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 0514fc1..afd9067 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -1214,10 +1214,11 @@ class treap_impl
 
    friend bool operator>=(const treap_impl &x, const treap_impl &y);
 
-   friend void swap(treap_impl &x, treap_impl &y);
-
    #endif   //#ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
+   friend void swap(treap_impl &x, treap_impl &y)
+   {  x.swap(y);  }
+
    /// @cond
    private:
    template<class Disposer>
-- 
2.43.0


From d4ca970d819b50f65d7bf8d6699faa31e8f8fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 17/42] fix: sgtree move assignment left a wrong balance factor
 and size bound in the source

---
 include/boost/intrusive/sgtree.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/boost/intrusive/sgtree.hpp b/include/boost/intrusive/sgtree.hpp
index daeda29..576420e 100644
--- a/include/boost/intrusive/sgtree.hpp
+++ b/include/boost/intrusive/sgtree.hpp
@@ -316,10 +316,7 @@ class sgtree_impl
 
    //! @copydoc ::boost::intrusive::bstree::operator=(bstree &&)
    sgtree_impl& operator=(BOOST_RV_REF(sgtree_impl) x)
-   {
-      this->get_alpha_traits() = x.get_alpha_traits();
-      return static_cast<sgtree_impl&>(tree_type::operator=(BOOST_MOVE_BASE(tree_type, x)));
-   }
+   {  this->swap(x); return *this;  }
 
    /// @cond
    private:
-- 
2.43.0


From dc81e7fd586893955b21d59f71e3b763098ae6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 18/42] fix: bstree::insert_unique_commit terminated the
 program if the comparison threw while testing the position

---
 include/boost/intrusive/bstree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 55d2577..f119d45 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1317,7 +1317,10 @@ class bstree_impl
    //! <b>Notes</b>: This function has only sense if a "insert_check" has been
    //!   previously executed to fill "commit_data". No value should be inserted or
    //!   erased between the "insert_check" and "insert_commit" calls.
-   iterator insert_unique_commit(reference value, const insert_commit_data &commit_data) BOOST_NOEXCEPT
+   iterator insert_unique_commit(reference value, const insert_commit_data &commit_data)
+   #if (defined(BOOST_DISABLE_ASSERTS) || ( defined(BOOST_ENABLE_ASSERT_DEBUG_HANDLER) && defined(NDEBUG) ))
+      BOOST_NOEXCEPT //Otherwise the position is tested with the comparison function, which might throw
+   #endif
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
-- 
2.43.0


From 71b5d9fb1c086203e076ca1fe3293205b3aea3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:18 +0000
Subject: [PATCH 19/42] fix: rehashing an unordered container with
 optimize_multikey corrupted groups of equivalent elements

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 3e1293b..cff26a3 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3888,7 +3888,7 @@ class hashtable_impl
 
                //If the target bucket is new, transfer the whole group
                siterator last = i;
-               (priv_go_to_last_in_group)(i, optimize_multikey_t());
+               (priv_go_to_last_in_group)(last, optimize_multikey_t());
 
                if(same_buffer && new_n == n){
                   before_i = last;
-- 
2.43.0


From 0a1aced0ba56ab077657c1658f05953c5d160d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:18 +0000
Subject: [PATCH 20/42] fix: full_rehash with store_hash and optimize_multikey
 only updated the stored hash of the first element of each group

---
 include/boost/intrusive/hashtable.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index cff26a3..79f2c6e 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3890,6 +3890,15 @@ class hashtable_impl
                siterator last = i;
                (priv_go_to_last_in_group)(last, optimize_multikey_t());
 
+               //The rest of the group shares the recomputed hash
+               if(store_hash && do_full_rehash){
+                  for(siterator j(i); j != last; ){
+                     ++j;
+                     node_functions_t::store_hash
+                        (this->priv_value_to_node_ptr(this->priv_value_from_siterator(j)), hash_value, store_hash_t());
+                  }
+               }
+
                if(same_buffer && new_n == n){
                   before_i = last;
                }
-- 
2.43.0


From 6d933d359de09ec4330cd860f46ee731ac3ac755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:18 +0000
Subject: [PATCH 21/42] fix: operator== of unordered_multiset skipped groups
 and treated a subset as equal

---
 include/boost/intrusive/hashtable.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 79f2c6e..a0f61fd 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3741,14 +3741,11 @@ class hashtable_impl
    friend bool operator==(const hashtable_impl &x, const hashtable_impl &y)
    {
       //Taken from N3068
-      if(constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
 
-      if (boost::intrusive::iterator_udistance(x.begin(), x.end()) != x.size())
-         return false;
-         
-      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ++ix){
+      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ){
          std::pair<const_iterator, const_iterator> eqx(x.equal_range(key_of_value()(*ix))),
                                                    eqy(y.equal_range(key_of_value()(*ix)));
          if (boost::intrusive::iterator_distance(eqx.first, eqx.second) !=
-- 
2.43.0


From 6668610e314d7bc27e7e4a42b5f6bbe5b16c622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 22/42] fix: operator== of unordered_set treated a subset as
 equal without constant_time_size

---
 include/boost/intrusive/unordered_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set.hpp b/include/boost/intrusive/unordered_set.hpp
index c53ec52..5494e33 100644
--- a/include/boost/intrusive/unordered_set.hpp
+++ b/include/boost/intrusive/unordered_set.hpp
@@ -386,7 +386,7 @@ class unordered_set_impl
 
    friend bool operator==(const unordered_set_impl &x, const unordered_set_impl &y)
    {
-      if(table_type::constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
       //Find each element of x in y
-- 
2.43.0


From a11fffb8b8103427835f025ec6b50e3c7cbb3b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 23/42] fix: incremental_rehash with new buckets left a wrong
 begin cache in an empty container

---
 include/boost/intrusive/hashtable.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index a0f61fd..b511fca 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3696,9 +3696,13 @@ class hashtable_impl
             slist_node_algorithms::transfer_after(new_bucket_nodeptr, old_bucket_node_ptr);
          }
          //Reset cache to safe position
-         this->priv_set_cache_bucket_num(ini_n);
+         this->priv_set_cache_bucket_num(ini_n < old_bucket_count ? ini_n : 0u);
       }
 
+      //An empty container caches the past-the-end bucket, that has changed
+      if(ini_n == old_bucket_count)
+         this->priv_init_cache();
+
       this->priv_set_sentinel_bucket();
       return true;
    }
-- 
2.43.0


From 8050248d82e114f7794d89237ffc288ae301632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 24/42] fix: incremental_rehash(false) left the begin cache in
 an empty bucket

---
 include/boost/intrusive/hashtable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index b511fca..24eba0d 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3638,7 +3638,8 @@ class hashtable_impl
          bucket_type &source_bucket = this->priv_bucket(split_idx-1u);
          slist_node_algorithms::transfer_after(target_bucket.get_node_ptr(), source_bucket.get_node_ptr());
          this->dec_split_count();
-         this->priv_insertion_update_cache(target_bucket_num);
+         if(!this->priv_bucket_empty(target_bucket_num))
+            this->priv_insertion_update_cache(target_bucket_num);
       }
       return ret;
    }
-- 
2.43.0


From ffa5379f5b53c9438cad59b974ea34d8c1a42af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 25/42] fix: structural cloning of unordered containers with
 fastmod_buckets stored a bucket count as the fastmod index

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 24eba0d..14a0ff0 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4023,7 +4023,7 @@ class hashtable_impl
       this->priv_equal()  = src.priv_equal();
       rollback.release();
       this->priv_size_count(src.priv_size_count());
-      this->split_count(dst_bucket_count);
+      this->split_count(this->rehash_split_from_bucket_count(dst_bucket_count));
       this->priv_set_cache_bucket_num(0u);
       this->priv_erasure_update_cache();
    }
-- 
2.43.0


From 170800fefbd7ddd07df0cae9f77032568ddef878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 26/42] fix: equal_range of unordered containers returned an
 uninitialized bucket pointer in the second iterator

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 14a0ff0..ed7d6a2 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4190,7 +4190,7 @@ class hashtable_impl
          r.bucket_first = r.bucket_second = this->priv_invalid_bucket_ptr();
       }
       else if (to_return.second != this->priv_end_sit()) {
-         r.bucket_first = this->priv_bucket_ptr(n_bucket);
+         r.bucket_first = r.bucket_second = this->priv_bucket_ptr(n_bucket);
       }
       else{
          r.bucket_first = this->priv_bucket_ptr(n_bucket);
-- 
2.43.0


From cdc679b70db8b5399ed90c3263bf16e3d6012f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 27/42] fix: clone_from of unordered containers only copied the
 hash function and the equality predicate after a structural clone

---
 include/boost/intrusive/hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index ed7d6a2..1c4359e 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3935,6 +3935,8 @@ class hashtable_impl
    void priv_clone_from(MaybeConstHashtableImpl &src, Cloner cloner, Disposer disposer)
    {
       this->clear_and_dispose(disposer);
+      this->priv_hasher() = src.priv_hasher();
+      this->priv_equal()  = src.priv_equal();
       if(!constant_time_size || !src.empty()){
          const size_type src_bucket_count = src.bucket_count();
          const size_type dst_bucket_count = this->bucket_count();
@@ -4019,8 +4021,6 @@ class hashtable_impl
                (new_n, r, this->priv_stored_hash(b, store_hash_t()), cloner);
          }
       }
-      this->priv_hasher() = src.priv_hasher();
-      this->priv_equal()  = src.priv_equal();
       rollback.release();
       this->priv_size_count(src.priv_size_count());
       this->split_count(this->rehash_split_from_bucket_count(dst_bucket_count));
-- 
2.43.0


From eebf517487b5316f14237225730febb135ada6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 28/42] fix: a throwing cloner left an unordered container
 inconsistent after a structural clone

---
 include/boost/intrusive/hashtable.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 1c4359e..469ac26 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3999,20 +3999,14 @@ class hashtable_impl
       //First clone the first ones
       const size_type src_bucket_count = src.bucket_count();
       const size_type dst_bucket_count = this->bucket_count();
-      size_type constructed = 0;
-      typedef typename internal_type::template typeof_node_disposer<Disposer>::type NodeDisposer;
-      NodeDisposer node_disp(disposer, &this->priv_value_traits());
-
-      exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type>
-         rollback(this->priv_bucket(0), node_disp, constructed);
+      //If the cloner throws, dispose all the cloned elements
+      detail::exception_disposer<hashtable_impl, Disposer> rollback(*this, disposer);
       //Now insert the remaining ones using the modulo trick
-      for( //"constructed" already initialized
-         ; constructed < src_bucket_count
-         ; ++constructed){
+      for(size_type n = 0; n < src_bucket_count; ++n){
 
          const size_type new_n = (size_type)hash_to_bucket_split<power_2_buckets, incremental>
-            (constructed, dst_bucket_count, this->split_count(), fastmod_buckets_t());
-         bucket_type &src_b = src.priv_bucket(constructed);
+            (n, dst_bucket_count, this->split_count(), fastmod_buckets_t());
+         bucket_type &src_b = src.priv_bucket(n);
          for( siterator b(this->priv_bucket_lbegin(src_b)), e(this->priv_bucket_lend(src_b)); b != e; ++b){
             typedef typename detail::if_c
                <detail::is_const<MaybeConstHashtableImpl>::value, const_reference, reference>::type reference_type;
-- 
2.43.0


From 392447937ee7a8f55cd45fb440d0d07ab20cc7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 29/42] fix: an exception while rehashing with linear_buckets
 left the sentinel bucket unset

---
 include/boost/intrusive/hashtable.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 469ac26..65aca89 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3807,6 +3807,15 @@ class hashtable_impl
       }
    }
 
+   //Sets the sentinel bucket again, even if an exception is thrown
+   struct sentinel_setter
+   {
+      explicit sentinel_setter(const hashtable_impl &h) : h_(h) {}
+      ~sentinel_setter()
+      {  h_.priv_set_sentinel_bucket();   }
+      const hashtable_impl &h_;
+   };
+
    void priv_rehash_impl(const bucket_traits &new_bucket_traits, bool do_full_rehash)
    {
       const std::size_t nbc             = new_bucket_traits.bucket_count() - bucket_overhead;
@@ -3845,6 +3854,7 @@ class hashtable_impl
       typedef typename internal_type::template typeof_node_disposer<detail::null_disposer>::type NodeDisposer;
       typedef exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type> ArrayDisposer;
       NodeDisposer nd(this->make_node_disposer(detail::null_disposer()));
+      sentinel_setter const set_sentinel(*this);
       ArrayDisposer rollback1(new_buckets[0], nd, new_bucket_count);
       ArrayDisposer rollback2(old_buckets[0], nd, old_bucket_count);
 
@@ -3925,7 +3935,6 @@ class hashtable_impl
       this->split_count(split);
       if(&new_bucket_traits != &this->priv_bucket_traits())
          this->priv_bucket_traits() = new_bucket_traits;
-      this->priv_set_sentinel_bucket();
       this->priv_set_cache_bucket_num(new_first_bucket_num);
       rollback1.release();
       rollback2.release();
-- 
2.43.0


From 133d0ab68e3e50fdefccc847333afb667e0aac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 30/42] fix: rehashing to a divisor of the bucket count left
 the begin cache in an empty bucket

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 65aca89..a2e4ac0 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3923,7 +3923,7 @@ class hashtable_impl
          else{
             const size_type new_n = (size_type)hash_to_bucket_split<power_2_buckets, incremental>
                                        (n, new_bucket_count, split, fastmod_buckets_t());
-            if(cache_begin && new_n < new_first_bucket_num)
+            if(cache_begin && new_n < new_first_bucket_num && !slist_node_algorithms::is_empty(old_bucket.get_node_ptr()))
                new_first_bucket_num = new_n;
             bucket_type &new_b = new_buckets[difference_type(new_n)];
             siterator last = this->priv_get_last(old_bucket, optimize_multikey_t());
-- 
2.43.0


From eb3c9641af90f1eda1a8ff253114273aab808431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 31/42] fix: erasing a range from the middle of a group with
 optimize_multikey corrupted the group

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index a2e4ac0..18e5aec 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -1146,7 +1146,7 @@ struct bucket_plus_vtraits
                if(nf == group2) {   //Both first and last in the same group
                                     //so join group1 and group2
                   node_ptr const end1 = group_traits::get_next(group1);
-                  node_ptr const end2 = group_traits::get_next(group2);
+                  node_ptr const end2 = group_traits::get_next(nl);
                   group_traits::set_next(group1, end2);
                   group_traits::set_next(nl, end1);
                }
-- 
2.43.0


From 144bd893bd46ab95165a5d7efc27ed482fc24c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 32/42] fix: an auto-unlink hook with optimize_multikey could
 not unlink itself from an unordered_set after being in an unordered_multiset

---
 include/boost/intrusive/hashtable.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 18e5aec..cf8bfa5 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -2332,6 +2332,8 @@ class hashtable_impl
    typedef circular_slist_algorithms<group_traits>                   group_algorithms;
    typedef typename internal_type::store_hash_t                      store_hash_t;
    typedef detail::bool_<optimize_multikey>                          optimize_multikey_t;
+   //The hook might store a group link even if the container has unique keys
+   typedef detail::bool_<optimize_multikey_is_true<node_traits>::value> hook_multikey_t;
    typedef detail::bool_<cache_begin>                                cache_begin_t;
    typedef detail::bool_<power_2_buckets>                            power_2_buckets_t;
    typedef detail::bool_<fastmod_buckets>                            fastmod_buckets_t;
@@ -2853,7 +2855,7 @@ class hashtable_impl
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || slist_node_algorithms::unique(n));
       node_functions_t::store_hash(n, commit_data.get_hash(), store_hash_t());
       this->priv_insertion_update_cache(bucket_num);
-      group_functions_t::insert_in_group(n, n, optimize_multikey_t());
+      group_functions_t::insert_in_group(n, n, hook_multikey_t());
       slist_node_algorithms::link_after(b.get_node_ptr(), n);
       return this->build_iterator(siterator(n), this->to_ptr(b));
    }
@@ -2887,7 +2889,7 @@ class hashtable_impl
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || slist_node_algorithms::unique(n));
       node_functions_t::store_hash(n, commit_data.get_hash(), store_hash_t());
       this->priv_insertion_update_cache(static_cast<size_type>(commit_data.bucket_idx));
-      group_functions_t::insert_in_group(n, n, optimize_multikey_t());
+      group_functions_t::insert_in_group(n, n, hook_multikey_t());
       bucket_type& b = this->priv_bucket(commit_data.bucket_idx);
       slist_node_algorithms::link_after(b.get_node_ptr(), n);
       return this->build_iterator(siterator(n), this->to_ptr(b));
@@ -4041,7 +4043,7 @@ class hashtable_impl
       //Shortcut to optimize_multikey cases
       group_functions_t::insert_in_group
          ( next_is_in_group ? dcast_bucket_ptr<node>((++siterator(prev)).pointed_node()) : n
-         , n, optimize_multikey_t());
+         , n, hook_multikey_t());
       //Update cache and increment size if needed
       this->priv_insertion_update_cache(bucket_num);
       this->priv_size_inc();
-- 
2.43.0


From 840d18d8ba8907726e7e8b2b751e5128a4b4f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 33/42] fix: suggested bucket counts of fastmod_buckets
 containers were truncated to a small size_type

---
 include/boost/intrusive/hashtable.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index cf8bfa5..0675497 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -185,6 +185,15 @@ struct prime_list_holder
    inline static std::size_t size(std::size_t size_index)
    {   return prime_list_holder<>::size_from_index(size_index);  }
 
+   //The size at size_index or the biggest supported size that SizeType can represent
+   template <class SizeType>
+   inline static SizeType representable_size(std::size_t size_index)
+   {
+      while(size_index && size(size_index) > std::size_t(SizeType(-1)))
+         --size_index;
+      return static_cast<SizeType>(size(size_index));
+   }
+
    #if BOOST_INTRUSIVE_64_BIT_SIZE_T
    // https://github.com/lemire/fastmod
 
@@ -2093,7 +2102,7 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::upper_size_index(n);
-         return static_cast<SizeType>(prime_fmod_size::size(s));
+         return prime_fmod_size::template representable_size<SizeType>(s);
       }
       else{
          return prime_list_holder<0>::suggested_upper_bucket_count(n);
@@ -2104,7 +2113,7 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::lower_size_index(n);
-         return static_cast<SizeType>(prime_fmod_size::size(s));
+         return prime_fmod_size::template representable_size<SizeType>(s);
       }
       else{
          return prime_list_holder<0>::suggested_lower_bucket_count(n);
-- 
2.43.0


From 284ccbfcaf42d4c53ca11ab55c4c184ad91b7e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 34/42] fix: unlink_leftmost_without_rebalance() of ordered
 containers did not compile with class-type pointers

---
 include/boost/intrusive/bstree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index f119d45..7528eed 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1910,7 +1910,7 @@ class bstree_impl
       node_ptr to_be_disposed(node_algorithms::unlink_leftmost_without_rebalance
                            (this->header_ptr()));
       if(!to_be_disposed)
-         return 0;
+         return pointer();
       this->sz_traits().decrement();
       BOOST_IF_CONSTEXPR(safemode_or_autounlink)//If this is commented does not work with normal_link
          node_algorithms::init(to_be_disposed);
-- 
2.43.0


From 8543edfe3c2a6678f7b807e3d86962e9179dc36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 35/42] fix: derivation_value_traits did not compile with
 class-type pointers

---
 include/boost/intrusive/derivation_value_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/derivation_value_traits.hpp b/include/boost/intrusive/derivation_value_traits.hpp
index 6260312..79a26f1 100644
--- a/include/boost/intrusive/derivation_value_traits.hpp
+++ b/include/boost/intrusive/derivation_value_traits.hpp
@@ -53,10 +53,10 @@ struct derivation_value_traits
    static const link_mode_type link_mode = LinkMode;
 
    BOOST_INTRUSIVE_FORCEINLINE static node_ptr to_node_ptr(reference value) BOOST_NOEXCEPT
-   { return node_ptr(&value); }
+   { return pointer_traits<node_ptr>::pointer_to(static_cast<node &>(value)); }
 
    BOOST_INTRUSIVE_FORCEINLINE static const_node_ptr to_node_ptr(const_reference value) BOOST_NOEXCEPT
-   { return node_ptr(&value); }
+   { return pointer_traits<const_node_ptr>::pointer_to(static_cast<const node &>(value)); }
 
    BOOST_INTRUSIVE_FORCEINLINE static pointer to_value_ptr(node_ptr n) BOOST_NOEXCEPT
    {
-- 
2.43.0


From 3527d1dfcd47a966d9ce2f95d4e798faee2d959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 36/42] fix: splaytree_algorithms::count() for a non-const
 header did not compile

---
 include/boost/intrusive/splaytree_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/splaytree_algorithms.hpp b/include/boost/intrusive/splaytree_algorithms.hpp
index bef440a..28008ee 100644
--- a/include/boost/intrusive/splaytree_algorithms.hpp
+++ b/include/boost/intrusive/splaytree_algorithms.hpp
@@ -299,7 +299,7 @@ class splaytree_algorithms
       std::size_t n = 0;
       while(ret.first != ret.second){
          ++n;
-         ret.first = next_node(ret.first);
+         ret.first = bstree_algo::next_node(ret.first);
       }
       return n;
    }
-- 
2.43.0


From df8595c49faebb099d427719514aba89e4af3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 37/42] fix: replace_node() of ordered containers did not check
 the hook of the new element in safe mode

---
 include/boost/intrusive/bstree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 7528eed..b613162 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -191,9 +191,11 @@ struct bstbase3
 
    void replace_node(iterator replace_this, reference with_this)
    {
+      node_ptr const new_node(get_value_traits().to_node_ptr(with_this));
+      BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(new_node));
       node_algorithms::replace_node( get_value_traits().to_node_ptr(*replace_this)
                                    , this->header_ptr()
-                                   , get_value_traits().to_node_ptr(with_this));
+                                   , new_node);
       BOOST_IF_CONSTEXPR(safemode_or_autounlink)
          node_algorithms::init(replace_this.pointed_node());
    }
-- 
2.43.0


From 1d8cc2d789b731cc4e951c1e26d55d89e9aa111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 38/42] fix: slist::check() failed for an empty linear list

---
 include/boost/intrusive/slist.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index cf4486f..9c12c22 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1931,9 +1931,9 @@ class slist_impl
    void check() const
    {
       const_node_ptr header_ptr = get_root_node();
-      // header's next is never null
-      BOOST_INTRUSIVE_INVARIANT_ASSERT(node_traits::get_next(header_ptr));
-      if (node_traits::get_next(header_ptr) == header_ptr)
+      // header's next is never null in a circular list
+      BOOST_INTRUSIVE_INVARIANT_ASSERT(linear || node_traits::get_next(header_ptr));
+      if (node_traits::get_next(header_ptr) == (linear ? const_node_ptr() : header_ptr))
       {
          BOOST_INTRUSIVE_INVARIANT_ASSERT(!constant_time_size || this->priv_size_traits().get_size() == 0);
          return;
-- 
2.43.0


From 4425f9532f7f017db2435c509629796204cfc0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 39/42] fix: list and slist merge() make at most size() +
 x.size() - 1 comparisons

---
 include/boost/intrusive/list.hpp  | 2 ++
 include/boost/intrusive/slist.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 9871d97..9e06bcf 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1093,6 +1093,8 @@ class list_impl
                ++ix; ++n;
             } while(ix != ex && p(*ix, *b));
             this->splice(b, x, x.begin(), ix, n);
+            //"*b" is not greater than the first of the remaining elements of x
+            ++b;
          }
       }
    }
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 9c12c22..a981adb 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1550,6 +1550,8 @@ class slist_impl
             } while(++(ibx_next = ibx) != ex && p(*ibx_next, *bb_next));
             this->splice_after(bb, x, x.before_begin(), ibx, n);
             if(l) *l = ibx;
+            //"*bb_next" is not greater than the first of the remaining elements of x
+            bb = bb_next;
          }
       }
    }
-- 
2.43.0


From 6e4c49256cc2501b4384010e1ff59cc3aabf20ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 40/42] fix: exchanging two unordered hooks exchanges group
 links and stored hash too

---
 .../boost/intrusive/unordered_set_hook.hpp    | 44 ++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set_hook.hpp b/include/boost/intrusive/unordered_set_hook.hpp
index e0c306a..e92d032 100644
--- a/include/boost/intrusive/unordered_set_hook.hpp
+++ b/include/boost/intrusive/unordered_set_hook.hpp
@@ -115,6 +115,28 @@ struct unordered_group_adapter
    {  NodeTraits::set_prev_in_group(n, next);   }
 };
 
+//Exchanges the hash values stored in two nodes, if the nodes store them
+template<class NodeTraits>
+struct unordered_hash_swapper
+{
+   inline static void swap_hashes(typename NodeTraits::node_ptr, typename NodeTraits::node_ptr) BOOST_NOEXCEPT
+   {}
+};
+
+template<class VoidPointer, bool OptimizeMultiKey>
+struct unordered_hash_swapper< unordered_node_traits<VoidPointer, true, OptimizeMultiKey> >
+{
+   typedef unordered_node_traits<VoidPointer, true, OptimizeMultiKey> node_traits;
+   typedef typename node_traits::node_ptr                             node_ptr;
+
+   inline static void swap_hashes(node_ptr this_node, node_ptr other_node) BOOST_NOEXCEPT
+   {
+      const std::size_t h = node_traits::get_hash(this_node);
+      node_traits::set_hash(this_node, node_traits::get_hash(other_node));
+      node_traits::set_hash(other_node, h);
+   }
+};
+
 template<class NodeTraits>
 struct unordered_algorithms
    : public circular_slist_algorithms<NodeTraits>
@@ -144,12 +166,32 @@ struct unordered_algorithms
       base_type::unlink(n);
       group_algorithms::unlink(n);
    }
+
+   //The group links and the stored hash also belong to the position of the element
+   inline static void swap_nodes(typename base_type::node_ptr this_node, typename base_type::node_ptr other_node) BOOST_NOEXCEPT
+   {
+      //A node that is not linked might still hold the link of a group it was erased from
+      if(base_type::unique(this_node))
+         group_algorithms::init(this_node);
+      if(base_type::unique(other_node))
+         group_algorithms::init(other_node);
+      base_type::swap_nodes(this_node, other_node);
+      group_algorithms::swap_nodes(this_node, other_node);
+      unordered_hash_swapper<NodeTraits>::swap_hashes(this_node, other_node);
+   }
 };
 
 //Class to avoid defining the same algo as a circular list, as hooks would be ambiguous between them
 template<class Algo>
 struct uset_algo_wrapper : public Algo
-{};
+{
+   //The stored hash also belongs to the position of the element
+   inline static void swap_nodes(typename Algo::node_ptr this_node, typename Algo::node_ptr other_node) BOOST_NOEXCEPT
+   {
+      Algo::swap_nodes(this_node, other_node);
+      unordered_hash_swapper<typename Algo::node_traits>::swap_hashes(this_node, other_node);
+   }
+};
 
 template<class VoidPointer, bool StoreHash, bool OptimizeMultiKey>
 struct get_uset_node_traits
-- 
2.43.0


From 8e57d413afe33fbe29a49c3f41d67605161444f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 41/42] fix: treap rtop()/crtop() designate the highest
 priority element

---
 include/boost/intrusive/treap.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index afd9067..54e5d42 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -306,29 +306,40 @@ class treap_impl
    //! <b>Effects</b>: Returns a reverse_iterator pointing to the highest priority object of the
    //!    reversed treap.
    //!
-   //! <b>Complexity</b>: Constant.
+   //! <b>Complexity</b>: Average complexity is logarithmic: the iterator holds the next object.
    //!
    //! <b>Throws</b>: Nothing.
    inline reverse_iterator rtop() BOOST_NOEXCEPT
-   {  return reverse_iterator(this->top());  }
+   {
+      //A reverse iterator points to the object before its base
+      iterator base(this->top());
+      if(base != this->end())
+         ++base;
+      return reverse_iterator(base);
+   }
 
    //! <b>Effects</b>: Returns a const_reverse_iterator pointing to the highest priority objec
    //!    of the reversed treap.
    //!
-   //! <b>Complexity</b>: Constant.
+   //! <b>Complexity</b>: Average complexity is logarithmic: the iterator holds the next object.
    //!
    //! <b>Throws</b>: Nothing.
    inline const_reverse_iterator rtop() const BOOST_NOEXCEPT
-   {  return const_reverse_iterator(this->top());  }
+   {  return this->crtop();  }
 
    //! <b>Effects</b>: Returns a const_reverse_iterator pointing to the highest priority object
    //!    of the reversed treap.
    //!
-   //! <b>Complexity</b>: Constant.
+   //! <b>Complexity</b>: Average complexity is logarithmic: the iterator holds the next object.
    //!
    //! <b>Throws</b>: Nothing.
    inline const_reverse_iterator crtop() const BOOST_NOEXCEPT
-   {  return const_reverse_iterator(this->top());  }
+   {
+      const_iterator base(this->ctop());
+      if(base != this->cend())
+         ++base;
+      return const_reverse_iterator(base);
+   }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
    //! @copydoc ::boost::intrusive::bstree::container_from_end_iterator(iterator)
-- 
2.43.0


From b9be52d2552d6c7d3298942ba635568d5e390137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 42/42] fix: operator-> of local iterators with an element type
 that overloads unary &

---
 include/boost/intrusive/detail/transform_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/detail/transform_iterator.hpp b/include/boost/intrusive/detail/transform_iterator.hpp
index 5513103..682d8b5 100644
--- a/include/boost/intrusive/detail/transform_iterator.hpp
+++ b/include/boost/intrusive/detail/transform_iterator.hpp
@@ -51,7 +51,7 @@ struct operator_arrow_proxy<T&>
       :  m_value(px)
    {}
 
-   inline T* operator->() const { return &m_value; }
+   inline T* operator->() const { return boost::intrusive::detail::addressof(m_value); }
    // This function is needed for MWCW and BCC, which won't call operator->
    // again automatically per 13.3.1.2 para 8
 //   operator T*() const { return &m_value; }
-- 
2.43.0

