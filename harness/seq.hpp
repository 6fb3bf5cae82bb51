// Shared world for the sequence containers (list, slist): containers, element pool, model.
#ifndef VF_SEQ_HPP
#define VF_SEQ_HPP
#include "elem.hpp"
#include <functional>
#include <iterator>
#include <type_traits>
#include <utility>

namespace vf {
// Static side of C16: what the iterator types let a user write. Evaluated at run time so that a wrong type is
// reported as a violation and not as a harness that stops compiling.
template <class It, class Cit, class T> inline const char *iter_types(bool bidir, bool conv = true) {
   typedef std::iterator_traits<It> A; typedef std::iterator_traits<Cit> B;
   if (!std::is_same<typename std::remove_cv<typename A::value_type>::type, T>::value || !std::is_same<typename std::remove_cv<typename B::value_type>::type, T>::value) return "value_type is not the element type";
   if (!std::is_same<decltype(*std::declval<const It &>()), T &>::value || !std::is_same<typename A::reference, T &>::value) return "a mutable iterator does not give T&";
   if (!std::is_same<decltype(*std::declval<const Cit &>()), const T &>::value || !std::is_same<typename B::reference, const T &>::value) return "a const iterator does not give const T&";
   if (conv && !std::is_convertible<It, Cit>::value) return "iterator does not convert to const_iterator";
   if (std::is_convertible<Cit, It>::value || std::is_constructible<It, Cit>::value || std::is_assignable<It &, Cit>::value) return "const_iterator converts to iterator";
   if (std::is_const<typename std::remove_reference<decltype((std::declval<const It &>()->id))>::type>::value || !std::is_const<typename std::remove_reference<decltype((std::declval<const Cit &>()->id))>::type>::value) return "operator-> of the wrong constness";
   if (!std::is_base_of<std::forward_iterator_tag, typename A::iterator_category>::value || !std::is_same<typename A::iterator_category, typename B::iterator_category>::value) return "iterator category is not at least forward";
   if (bidir && !std::is_base_of<std::bidirectional_iterator_tag, typename A::iterator_category>::value) return "iterator category is not bidirectional";
   return 0;
}


template <class T> struct World;

// records what the library disposes of, then does with the element what a user may do
template <class T> struct Disposer {
   World<T> *w;
   template <class P> void operator()(P p) const { w->disposed_cb(raw(p)); }
};

template <class T> struct World {
   static const int NC = 3;
   std::vector<T *> m[NC];        // model contents
   std::vector<T *> pool;         // live, in no container
   std::vector<T *> disposed;     // this operation's disposer calls, in order
   std::unordered_set<T *> live;
   unsigned nextid = 0;
   int dispose_mode = 0;          // 0 keep, 1 delete at once
   bool (*linked)(const T &) = nullptr;   // hook state, when the link mode makes it meaningful
   uint32_t keyrange = 8;
   std::vector<T *> todelete;

   T *fresh(int key) {
      T *e = new T; e->key = key; e->pri = 0; e->id = nextid++; e->where = -1;
      live.insert(e);
      return e;
   }
   T *fresh_keep(T *e) { e->id = nextid++; e->where = -1; live.insert(e); return e; }
   void kill(T *e) { live.erase(e); delete e; }
   T *take(uint32_t a, int key) {                // an element that is in no container
      if (!pool.empty() && (a & 3) != 0) {
         size_t i = (a >> 2) % pool.size();
         T *e = pool[i]; pool[i] = pool.back(); pool.pop_back();
         e->key = key;
         return e;
      }
      return fresh(key);
   }
   void disposed_cb(T *p) {
      if (!live.count(p)) fail("disposer called with an address that is not a live element");
      VF_CHECKM(O_DISP, p->magic == 0xA11CEu, "disposer called with a destroyed element");
      if (linked) VF_CHECKM(O_HOOK | O_DISP, !linked(*p), "element %u is still linked when the disposer receives it", p->id);
      disposed.push_back(p);
      if (on_disp && (g().mask & O_DISP)) on_disp(p);
      if (dispose_mode == 1) {
         // scramble what belongs to the user now: the container may not look at it again
         live.erase(p); dead.push_back(p->id); deadkey.push_back(p->key); delete p;
      }
   }
   std::function<void(T *)> on_disp;  // looks at the container from inside the disposer
   std::vector<unsigned> dead; std::vector<int> deadkey;
   // the model says exactly `gone` must have been disposed by this operation
   void expect_disposed(const std::vector<T *> &gone, const char *what) {
      std::vector<T *> a(gone), b(disposed);
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      VF_CHECKM(O_DISP, a == b, "%s: disposer called %zu times, %zu elements were removed%s", what, b.size(), a.size(),
                a.size() == b.size() ? " (different elements)" : "");
      settle(gone);
      disposed.clear();
   }
   // removed without a disposer: back to the pool
   void settle(const std::vector<T *> &gone) {
      for (T *p : gone)
         if (live.count(p)) { p->where = -1; pool.push_back(p); }
   }
   void renumber(int c) { for (T *p : m[c]) p->where = c; }
   ~World() {}
};

} // namespace vf
#endif
