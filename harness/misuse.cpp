// Safe hooks: correct histories raise no assertion, and a misuse raises the configured one, with every container intact.
#define BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT_INCLUDE "vf_assert.hpp"
#define BOOST_INTRUSIVE_SAFE_HOOK_DESTRUCTOR_ASSERT_INCLUDE "vf_assert.hpp"
#define BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT VF_SAFE_DEFAULT
#define BOOST_INTRUSIVE_SAFE_HOOK_DESTRUCTOR_ASSERT VF_SAFE_DESTRUCTOR
#include "elem.hpp"
#include <setjmp.h>
#include <memory>
#include <new>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
using namespace vf;
template <int P> struct Reg { template <class C> static void add(const char *n) { if (VF_PART == P || VF_PART < 0) configs().push_back(Config{n, &C::run}); } };
#define PART(n) (VF_PART == n || VF_PART < 0)
#define C ,

// ---- the handler of the assertions -----------------------------------------------
static jmp_buf jb; static bool armed = false; static int raised_kind; static std::function<void()> at_report;
namespace vf {
void safe_assert(int kind, bool ok, const char *expr) {
   if (ok) return;
   VF_CHECK(armed, "the assertion '%s' (%s) was raised by a correct operation", expr, kind ? "hook destructor" : "insertion");
   armed = false; raised_kind = kind; at_report(); longjmp(jb, 1);
}
}
namespace vf { struct HashF { size_t operator()(const EB &e) const { return size_t(unsigned(e.key)) * 2654435761u; } size_t operator()(int k) const { return size_t(unsigned(k)) * 2654435761u; } };
template <class H> bool priority_order(const ElemB<H> &a, const ElemB<H> &b) { return a.pri < b.pri; }
template <class H> bool priority_order(const ElemM<H> &a, const ElemM<H> &b) { return a.pri < b.pri; }
inline size_t hash_value(const EB &e) { return HashF()(e); }
}
struct KeyOf { typedef int type; int operator()(const EB &e) const { return e.key; } };
template <class T> struct PIt {
   typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
   T *const *p; PIt() : p(0) {} explicit PIt(T *const *q) : p(q) {} T &operator*() const { return **p; } T *operator->() const { return *p; } PIt &operator++() { ++p; return *this; } PIt operator++(int) { PIt t(*this); ++p; return t; }
   bool operator==(const PIt &o) const { return p == o.p; } bool operator!=(const PIt &o) const { return p != o.p; }
};
enum { LIST, SLIST, SLISTC, SLISTL, MSET, USET, MHASH, UHASH };      // kinds of container
enum { M_PUT = 1, M_ERASE, M_ERASE_DISPOSE, M_CLEAR, M_RENEW, M_REBORN, M_COPY, M_SWAP, M_POP, M_RANGE, M_UNLINK, M_BIG, M_XFER, M_ORDER, M_MISUSE, M_KILL };
enum { SKIP, DONE, NOTHING };
enum { MAXE = 40, NB = 32 };

template <class T> struct Box {
   virtual ~Box() {}
   const char *name; int kind;
   virtual size_t walk(T **out, size_t max) = 0;
   virtual int put(unsigned form, T **r, size_t n, uint32_t a, bool misuse) = 0;     // r: the elements (several for the range forms)
   virtual const char *form(unsigned f) = 0;
   virtual size_t wants(unsigned f) = 0;                                             // 1, or 0 for any number
   virtual void erase(T &e, int how) = 0;
   virtual void clear(int how) = 0;
   virtual void renew() = 0;
   virtual bool swap(Box &o, int how) = 0;
   virtual void erase_if(uint32_t a) = 0;
   virtual void pop(uint32_t a) = 0;
   virtual bool xfer(Box &o, uint32_t a) = 0;
   virtual void order(uint32_t a, T *spare) = 0;
};
template <class T, class K, int KIND, bool TREAP = false> struct BoxOf : Box<T> {
   typedef typename K::value_type V; static const bool hashed = KIND == MHASH || KIND == UHASH, tree = KIND == MSET || KIND == USET, sl = KIND == SLIST || KIND == SLISTC || KIND == SLISTL;
   typename std::aligned_storage<sizeof(K), alignof(K)>::type mem, tmp; bool tmp_used = false;
   template <class X, bool H> struct Bk { struct type {}; }; template <class X> struct Bk<X, true> { typedef typename X::bucket_type type; };
   typename Bk<K, hashed>::type b[hashed ? NB : 1], b2[hashed ? NB : 1];
   const K &ck() { return k(); }
   K &k() { return *reinterpret_cast<K *>(&mem); }
   void make() { if constexpr (hashed) new (&mem) K(typename K::bucket_traits(b, NB)); else new (&mem) K(); }
   explicit BoxOf(const char *n) { this->name = n; this->kind = KIND; make(); }
   size_t walk(T **out, size_t max) {
      size_t n = 0; for (auto i = k().cbegin(), e = k().cend(); i != e && n < max; ++i) out[n++] = const_cast<T *>(&*i);
      if constexpr (KIND == LIST || tree) { size_t m = n; if (n < max) for (auto i = k().crbegin(), e = k().crend(); i != e; ++i) { VF_CHECK(m > 0 && out[m - 1] == &*i, "%s: backwards iteration differs from the forward one", this->name); --m; } }
      return n;
   }
   size_t wants(unsigned f) { std::string s = form(f); return s.find("range") != s.npos || s.find("assign") != s.npos || s.find("clone") != s.npos ? 0 : 1; }
   const char *form(unsigned f) {
      static const char *const l[] = {"push_back", "push_front", "insert", "insert range", "assign range", "construct from range", "dispose_and_assign range", "clone_from", "clone_from rvalue"};
      static const char *const s[] = {"push_front", "insert_after", "insert", "insert_after range", "insert range", "assign range", "construct from range", "dispose_and_assign range", "clone_from", "clone_from rvalue", "push_back"};
      static const char *const t[] = {"insert", "insert with hint", "insert range", "insert_before", "push_back", "push_front", "construct from range", "clone_from", "clone_from rvalue", "insert_commit", "insert_commit with hint"};
      static const char *const rn[] = {"replace_node"};
      static const char *const h[] = {"insert", "insert range", "construct from range", "clone_from", "clone_from rvalue", "insert_commit", "insert_fast_commit"};
      if (KIND == LIST) return l[f % 9]; if (sl) return s[f % (KIND == SLISTC ? 11 : 10)]; if (tree) { unsigned z = KIND == USET ? 12 : 10; return f % z == z - 1 ? rn[0] : t[f % z]; } return h[f % (KIND == UHASH ? 7 : 5)];
   }
   struct NoDisp { template <class Q> void operator()(const Q &) const {} };
   template <class Y> static void again(Y &y) { y.~Y(); new (&y) Y(); }
   static decltype(auto) keyof(const T &e) { if constexpr (KIND == MSET) return (e); else return (e.key); }
   struct Clon { T **r; size_t n; mutable size_t *i; T *operator()(const T &) const { return r[(*i)++]; } };
   // a source with as many elements as there are in r, of the same keys; lives only during the call
   bool clone(T **r, size_t n, bool rv) {
      static typename std::aligned_storage<sizeof(T), alignof(T)>::type raws[MAXE]; T *src = reinterpret_cast<T *>(raws); static T *ptrs[MAXE]; for (size_t i = 0; i < n; ++i) { new (src + i) T(); src[i].key = r[i]->key; src[i].pri = r[i]->pri; ptrs[i] = &src[i]; }
      typename std::aligned_storage<sizeof(K), alignof(K)>::type &m = tmp; K *s; if constexpr (hashed) for (auto &x : b2) again(x); if constexpr (hashed) s = new (&m) K(typename K::bucket_traits(b2, NB)); else s = new (&m) K();
      for (size_t i = n; i-- > 0;) { if constexpr (KIND == LIST || sl) s->push_front(*ptrs[i]); else s->insert(*ptrs[i]); }
      std::vector<T *> order; for (auto &x : *s) for (size_t i = 0; i < n; ++i) if (ptrs[i] == &x) order.push_back(r[i]);
      static T *seq[MAXE]; std::copy(order.begin(), order.end(), seq); size_t cnt = s->size(); order = std::vector<T *>(); static size_t at; at = 0; (void)cnt;
      Clon cl{seq, n, &at};
      if (rv) k().clone_from(std::move(*s), cl, NoDisp()); else k().clone_from(const_cast<const K &>(*s), cl, NoDisp());
      s->clear(); s->~K(); for (size_t i = 0; i < n; ++i) src[i].~T(); return true;
   }
   int put(unsigned f, T **r, size_t n, uint32_t a, bool misuse) {
      std::string nm = form(f); PIt<T> B(r), E(r + n); T &v = *r[0]; size_t sz = 0; T *cur[MAXE * 2]; sz = walk(cur, MAXE * 2);
      const bool uniq = KIND == USET || KIND == UHASH;
      if constexpr (tree) if (nm == "replace_node") {      // in the place of an equivalent element
         if (!sz) return SKIP; size_t j = a % sz; if (!misuse) { v.key = cur[j]->key; v.pri = cur[j]->pri; }
         else for (size_t q = 0; q < sz && (cur[j] == &v || cur[j]->key != v.key || (TREAP && cur[j]->pri != v.pri)); ++q) j = (j + 1) % sz;
         if (cur[j] == &v || cur[j]->key != v.key || (TREAP && cur[j]->pri != v.pri)) return SKIP;
         k().replace_node(k().iterator_to(*cur[j]), v); return DONE;
      }
      if (uniq) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (r[i]->key == r[j]->key) return SKIP;
      const bool fresh_target = nm[0] == 'a' || nm[0] == 'c' || nm[0] == 'd';
      if (uniq && !fresh_target) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < sz; ++j) if (cur[j]->key == r[i]->key) return SKIP;      // would not be inserted
      if (fresh_target && misuse) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < sz; ++j) if (cur[j] == r[i]) return SKIP;          // emptied before
      auto is = [&](const char *s) { return nm == s; };
      if (is("clone_from")) { clone(r, n, false); return DONE; } if (is("clone_from rvalue")) { clone(r, n, true); return DONE; }
      if (is("construct from range")) {
         k().clear(); k().~K();
         if constexpr (KIND == LIST || sl) new (&mem) K(B, E);
         else if constexpr (tree && TREAP) new (&mem) K(B, E);
         else if constexpr (tree) new (&mem) K(B, E);
         else if constexpr (KIND == UHASH) { for (auto &x : b) again(x); new (&mem) K(B, E, typename K::bucket_traits(b, NB)); } else { for (auto &x : b) again(x); new (&mem) K(B, E, typename K::bucket_traits(b, NB)); }
         return DONE;
      }
      if constexpr (KIND == LIST) {
         auto pos = k().cbegin(); std::advance(pos, a % (sz + 1));
         if (is("push_back")) k().push_back(v); else if (is("push_front")) k().push_front(v); else if (is("insert")) k().insert(pos, v); else if (is("insert range")) k().insert(pos, B, E);
         else if (is("assign range")) k().assign(B, E); else k().dispose_and_assign(NoDisp(), B, E);
         return DONE;
      } else if constexpr (sl) {
         auto prev = k().cbefore_begin(); std::advance(prev, a % (sz + 1)); auto pos = prev; ++pos;
         if constexpr (KIND == SLISTC) if (is("push_back")) { k().push_back(v); return DONE; }
         if (is("push_front")) k().push_front(v); else if (is("insert_after")) k().insert_after(prev, v); else if (is("insert")) k().insert(pos, v); else if (is("insert_after range")) k().insert_after(prev, B, E); else if (is("insert range")) k().insert(pos, B, E);
         else if (is("assign range")) k().assign(B, E); else k().dispose_and_assign(NoDisp(), B, E);
         return DONE;
      } else if constexpr (tree) {
         auto up = ck().upper_bound(keyof(v)); auto lo = ck().lower_bound(keyof(v));
         auto any = k().cbegin(); std::advance(any, a % (sz + 1));
         if (is("insert")) k().insert(v); else if (is("insert with hint")) k().insert(any, v); else if (is("insert range")) k().insert(B, E);
         else if (is("insert_before")) { if (KIND == MSET && (a & 64)) up = lo; k().insert_before(up, v); }
         else if (is("push_back")) { if (sz && v.key < cur[sz - 1]->key) return SKIP; k().push_back(v); }
         else if (is("push_front")) { if (sz && cur[0]->key < v.key) return SKIP; k().push_front(v); }
         else if constexpr (KIND == USET) {
            typename K::insert_commit_data d; bool hint = nm.size() > 14, ok;
            if constexpr (TREAP) ok = hint ? k().insert_check(any, v.key, v, d).second : k().insert_check(v.key, v, d).second; else ok = hint ? k().insert_check(any, v.key, d).second : k().insert_check(v.key, d).second;
            VF_CHECK(ok, "insert_check refused an element that is not there"); k().insert_commit(v, d);
         }
         return DONE;
      } else {
         if (is("insert")) k().insert(v); else if (is("insert range")) k().insert(B, E);
         else if constexpr (KIND == UHASH) { typename K::insert_commit_data d; bool ok = k().insert_check(v.key, d).second; VF_CHECK(ok, "insert_check refused an element that is not there"); if (is("insert_commit")) k().insert_commit(v, d); else k().insert_fast_commit(v, d); }
         return DONE;
      }
   }
   void erase(T &e, int how) {
      if constexpr (KIND == LIST) { if (how) k().erase_and_dispose(k().iterator_to(e), NoDisp()); else k().erase(k().iterator_to(e)); }
      else if constexpr (sl) { if (how) k().erase_and_dispose(k().iterator_to(e), NoDisp()); else k().erase(k().iterator_to(e)); }
      else { if (how == 1) k().erase_and_dispose(k().iterator_to(e), NoDisp()); else k().erase(k().iterator_to(e)); }
   }
   void clear(int how) { if (how) k().clear_and_dispose(NoDisp()); else k().clear(); }
   void renew() { k().~K(); if constexpr (hashed) for (auto &x : b) again(x); make(); }
   bool swap(Box<T> &o, int how) {
      BoxOf *p = dynamic_cast<BoxOf *>(&o); if (!p || p == this) return false;
      if (hashed && how) how = 0;
      if (how == 0) k().swap(p->k()); else if constexpr (!hashed) { if (how == 1) k() = std::move(p->k()); else { k().clear(); k().~K(); new (&mem) K(std::move(p->k())); } }
      // the buckets go with the container
      if (hashed) { /* bucket arrays have been exchanged: exchange them back by rehashing into the own ones */ if constexpr (hashed) { static typename Bk<K, hashed>::type t1[NB], t2[NB]; k().rehash(typename K::bucket_traits(t1, NB)); p->k().rehash(typename K::bucket_traits(t2, NB)); k().rehash(typename K::bucket_traits(b, NB)); p->k().rehash(typename K::bucket_traits(p->b, NB)); } }
      return true;
   }
   // positions [f, l) of a container, drawn from a
   template <class I> static void span(I &f, I &l, size_t sz, uint32_t a) { size_t x = a % (sz + 1), y = (a / 64) % (sz + 1); if (x > y) std::swap(x, y); l = f; std::advance(f, x); std::advance(l, y); }
   void erase_if(uint32_t a) {
      int m = 2 + int(a % 3); auto odd = [m](const T &x) { return x.key % m == 0; }; auto same = [](const T &x, const T &y) { return x.key == y.key; }; T *cur[MAXE * 2]; size_t sz = walk(cur, MAXE * 2); T probe; probe.key = sz ? cur[a % sz]->key : 0; int w = int(a / 8 % 10);
      if constexpr (KIND == LIST || sl) {
         switch (w) {
         case 0: k().remove_if(odd); break; case 1: k().remove_and_dispose_if(odd, NoDisp()); break; case 2: k().sort(); k().unique(); break; case 3: k().unique(same); break; case 4: k().unique_and_dispose(NoDisp()); break; case 5: k().remove(probe); break; case 6: k().remove_and_dispose(probe, NoDisp()); break;
         default: if constexpr (KIND == LIST) { auto f = k().cbegin(), l = f; span(f, l, sz, a / 128); if (w == 7) k().erase(f, l); else k().erase_and_dispose(f, l, NoDisp()); }
                  else { auto f = k().cbefore_begin(), l = f; span(f, l, sz, a / 128); if (f == l) ++l; if (w == 7) k().erase_after(f, l); else if (w == 8) k().erase_after_and_dispose(f, l, NoDisp()); else if (sz) { auto q = k().cbefore_begin(); std::advance(q, a / 128 % sz); k().erase_after(q); } } }
      } else if constexpr (tree) {
         auto f = k().cbegin(), l = f; span(f, l, sz, a / 128);
         switch (w) { case 0: case 1: k().erase(f, l); break; case 2: case 3: k().erase_and_dispose(f, l, NoDisp()); break; case 4: case 5: k().erase(keyof(probe)); break; case 6: case 7: k().erase_and_dispose(keyof(probe), NoDisp()); break; default: for (size_t i = 0; i < sz; ++i) k().unlink_leftmost_without_rebalance(); }
      } else {
         auto f = k().cbegin(), l = f; span(f, l, sz, a / 128);
         switch (w) { case 0: case 1: k().erase(f, l); break; case 2: case 3: k().erase_and_dispose(f, l, NoDisp()); break; case 4: case 5: k().erase(probe.key); break; default: k().erase_and_dispose(probe.key, NoDisp()); }
      }
   }
   bool xfer(Box<T> &o, uint32_t a) {
      BoxOf *p = dynamic_cast<BoxOf *>(&o); if (!p || p == this) return false;
      T *cur[MAXE * 2]; size_t sz = walk(cur, MAXE * 2), so = p->walk(cur, MAXE * 2); K &x = k(), &y = p->k();
      if constexpr (KIND == LIST) {
         auto pos = x.cbegin(); std::advance(pos, a % (sz + 1)); auto f = y.cbegin(), l = f; span(f, l, so, a / 64);
         switch (a / 4096 % 4) { case 0: x.splice(pos, y); break; case 1: if (!so) return false; f = y.cbegin(); std::advance(f, a / 64 % so); x.splice(pos, y, f); break; case 2: x.splice(pos, y, f, l); break; default: x.sort(); y.sort(); x.merge(y); }
      } else if constexpr (sl) {
         auto prev = x.cbefore_begin(); std::advance(prev, a % (sz + 1)); auto f = y.cbefore_begin(), l = f; span(f, l, so, a / 64);
         switch (a / 4096 % 4) { case 0: x.splice_after(prev, y); break; case 1: if (!so) return false; f = y.cbefore_begin(); std::advance(f, a / 64 % so); x.splice_after(prev, y, f); break; case 2: x.splice_after(prev, y, f, l); break; default: x.sort(); y.sort(); x.merge(y); }
      } else if constexpr (hashed) return false; else x.merge(y);
      return true;
   }
   void order(uint32_t a, T *spare) {      // everything that keeps the elements
      (void)spare;
      if constexpr (KIND == LIST || sl) { T *cur[MAXE * 2]; size_t sz = walk(cur, MAXE * 2); (void)sz; switch (a % 4) { case 0: k().sort(); break; case 1: k().reverse(); break; case 2: k().shift_backwards(a / 4 % 9); break; default: k().shift_forward(a / 4 % 9); } }
      else if constexpr (hashed) { if (a & 1) k().rehash(typename K::bucket_traits(b, NB)); else k().full_rehash(); }
   }
   void pop(uint32_t a) {
      if (k().empty()) return; (void)a;
      if constexpr (KIND == LIST || sl) { if (a & 1) k().pop_front(); else k().pop_front_and_dispose(NoDisp()); if constexpr (KIND == LIST) if (!k().empty() && (a & 2)) k().pop_back(); }
      else if constexpr (tree) { if (a & 1) k().erase(k().begin()); else { auto i = k().end(); --i; k().erase(i); } }
      else { int key = k().begin()->key; k().erase(key); }
   }
};

template <class T, class HK> struct Is { static bool linked(const T &e) { return e.hook().is_linked(); } };
template <class W> struct World {
   typedef typename W::T T; typedef Box<T> B;
   std::vector<std::unique_ptr<B>> boxes; T *el[MAXE]; T *mem; int home[MAXE]; T *before[8][MAXE * 2]; size_t nbefore[8]; int range;
   static void run(const Case &c) { std::unique_ptr<World> w(new World); w->go(c); }
   int idx(T *p) { return int(p - mem); }
   void scan() {      // where each element is
      for (int i = 0; i < MAXE; ++i) home[i] = -1;
      for (size_t b = 0; b < boxes.size(); ++b) { nbefore[b] = boxes[b]->walk(before[b], MAXE * 2); VF_CHECK(nbefore[b] <= MAXE, "%s: holds more elements than there are", boxes[b]->name); g().maxsize = std::max(g().maxsize, nbefore[b]); for (size_t i = 0; i < nbefore[b]; ++i) { int e = idx(before[b][i]); VF_CHECK(e >= 0 && e < MAXE && home[e] < 0, "%s: an element is there twice", boxes[b]->name); home[e] = int(b); } }
   }
   bool blind(int e) {      // the last element of a null-terminated list, whose hook cannot tell
      int b = home[e]; if (b < 0 || boxes[size_t(b)]->kind != SLISTL) return false; return nbefore[b] && before[b][nbefore[b] - 1] == el[e];
   }
   int pick(uint32_t a, bool in) { int v[MAXE], n = 0; for (int i = 0; i < MAXE; ++i) if ((home[i] >= 0) == in && !(in && blind(i))) v[n++] = i; return n ? v[a % unsigned(n)] : -1; }
   T *rg[MAXE]; size_t rn = 0; int bad = -1; size_t badat = 0; size_t target = 0; std::string what; bool freshbox = false;
   // at the moment of the report: every container as it was, the target perhaps with the elements that came before the wrong one
   void intact() {
      T *now[MAXE * 2];
      for (size_t b = 0; b < boxes.size(); ++b) {
         if (b == target && freshbox) continue;
         size_t n = boxes[b]->walk(now, MAXE * 2), j = 0;
         for (size_t i = 0; i < n; ++i) {
            if (j < nbefore[b] && now[i] == before[b][j]) { ++j; continue; }
            bool early = false; if (b == target) for (size_t q = 0; q < badat; ++q) if (rg[q] == now[i]) early = true;
            VF_CHECK(early, "%s: when the assertion was raised, %s already held other elements", what.c_str(), boxes[b]->name);
         }
         VF_CHECK(j == nbefore[b], "%s: when the assertion was raised, %s had already lost elements", what.c_str(), boxes[b]->name);
      }
   }
   void go(const Case &cs) {
      range = 2 + int(cs.cfg[1] % 40); mem = static_cast<T *>(malloc(sizeof(T) * MAXE)); Rng r(cs.cfg[2]);
      for (int i = 0; i < MAXE; ++i) { memset(static_cast<void *>(mem + i), int(r.below(256)), sizeof(T)); el[i] = new (mem + i) T(); el[i]->key = int(r.below(unsigned(range))); el[i]->pri = int(r.below(1000)); el[i]->id = unsigned(i); }
      W::boxes(boxes); armed = false; bool over = false; int k = -1;
      for (const Op &o : cs.ops) { g().opi = ++k; scan(); if (step(o)) { over = true; break; } }
      if (!over) { scan(); for (auto &b : boxes) b->clear(0); for (int i = 0; i < MAXE; ++i) el[i]->~T(); }
      free(mem);
   }
   bool step(const Op &o) {
      uint32_t a = o.a[0], b = o.a[1], c = o.a[2], d = o.a[3]; size_t bi_ = a % boxes.size(); B &x = *boxes[bi_];
      switch (o.k) {
      case M_PUT: case M_BIG: {
         unsigned f = o.k == M_BIG ? d * 7 + 3 : d; size_t w = x.wants(f), n = w ? w : 1 + c % 6; int prev[MAXE]; rn = 0;
         std::string nm = x.form(f);
         for (size_t i = 0; i < n; ++i) { int e = pick(b + unsigned(i) * 7, false); if (e < 0) break; prev[rn] = home[e]; home[e] = 99; rg[rn++] = el[e]; } (void)prev;
         if (!rn) return false;
         if (rn == 1 && (nm == "push_back" || nm == "push_front") && nbefore[bi_] && x.kind >= MSET) rg[0]->key = nm == "push_back" ? before[bi_][nbefore[bi_] - 1]->key + 1 : before[bi_][0]->key - 1;
         tr("%s: %s of %zu", x.name, nm.c_str(), rn); for (size_t i = 0; i < rn; ++i) tr(" %d(key %d)", idx(rg[i]), rg[i]->key); tr("\n");
         if (x.put(f, rg, rn, c, false) == DONE) hit(int(o.k), f % 11, uint64_t(idx(rg[0])) * 64 + nbefore[bi_]);
         break; }
      case M_ERASE: case M_ERASE_DISPOSE: { int e = pick(b, true); if (e < 0) return false; tr("%s: erase %d\n", boxes[size_t(home[e])]->name, e); boxes[size_t(home[e])]->erase(*el[e], o.k == M_ERASE_DISPOSE); hit(int(o.k), uint64_t(e)); break; }
      case M_CLEAR: tr("%s: clear\n", x.name); x.clear(int(c & 1)); hit(int(o.k), bi_, nbefore[bi_]); break;
      case M_RENEW: tr("%s: destroyed and made again\n", x.name); if (!W::autou) { x.clear(0); } else x.clear(0); x.renew(); hit(int(o.k), bi_, nbefore[bi_]); break;
      case M_REBORN: { int e = pick(b, false); if (e < 0) return false; tr("element %d destroyed and made again\n", e); EB keep(*el[e]); el[e]->~T(); memset(static_cast<void *>(el[e]), int(c & 255), sizeof(T)); new (el[e]) T(); el[e]->key = keep.key; el[e]->pri = keep.pri; el[e]->id = keep.id; hit(int(o.k), uint64_t(e)); break; }
      case M_COPY: {      // copies of linked elements are not linked
         int e = pick(b, c & 1); if (e < 0) return false; int f = pick(d, c & 2); tr("element %d copied\n", e); { T t(*el[e]); T u; u = *el[e]; T w(std::move(t)); u = std::move(w); }
         if (f >= 0 && f != e) { int key = el[f]->key, pri = el[f]->pri; unsigned id = el[f]->id; *el[f] = *el[e]; el[f]->key = key; el[f]->pri = pri; el[f]->id = id; } hit(int(o.k), uint64_t(e)); break; }
      case M_SWAP: { B &y = *boxes[b % boxes.size()]; if (&x == &y) return false; tr("%s: swap or move with %s\n", x.name, y.name); if (x.swap(y, int(c % 3))) hit(int(o.k), bi_, nbefore[bi_]); break; }
      case M_XFER: { size_t q = b % boxes.size(); for (size_t t = 0; t < boxes.size(); ++t, q = (q + 1) % boxes.size()) if (boxes[q]->kind == x.kind && q != bi_) { tr("%s: takes from %s\n", x.name, boxes[q]->name); if (x.xfer(*boxes[q], c)) hit(int(o.k), bi_, nbefore[q]); break; } break; }
      case M_ORDER: tr("%s: reordered\n", x.name); x.order(c, nullptr); hit(int(o.k), bi_, nbefore[bi_]); break;
      case M_POP: tr("%s: pop\n", x.name); x.pop(c); hit(int(o.k), bi_, nbefore[bi_]); break;
      case M_RANGE: tr("%s: remove some\n", x.name); x.erase_if(c); hit(int(o.k), bi_, nbefore[bi_]); break;
      case M_UNLINK: if constexpr (W::autou) { int e = pick(b, true); if (e < 0) return false; if (c & 1) { tr("element %d unlinks itself\n", e); el[e]->hook().unlink(); } else { tr("element %d destroyed and made again\n", e); EB keep(*el[e]); el[e]->~T(); new (el[e]) T(); el[e]->key = keep.key; el[e]->pri = keep.pri; el[e]->id = keep.id; } hit(int(o.k), uint64_t(e)); } break;
      case M_MISUSE: {
         int e = pick(b, true); if (e < 0) return false; unsigned f = d; size_t w = x.wants(f); rn = 0; badat = 0; std::string nm = x.form(f);
         if (!w) { size_t n = c % 5; for (size_t i = 0; i < n; ++i) { int q = pick(b + unsigned(i) * 5, false); if (q < 0) break; home[q] = 99; rg[rn++] = el[q]; } badat = rn; rg[rn++] = el[e]; n = c / 5 % 4; for (size_t i = 0; i < n; ++i) { int q = pick(b + unsigned(i) * 3, false); if (q < 0) break; home[q] = 99; rg[rn++] = el[q]; } }
         else rg[rn++] = el[e];
         if (!w && nm.substr(0, 5) == "clone") badat = rn;
         what = std::string(x.name) + ": " + nm + " of element " + std::to_string(e) + ", which is in " + boxes[size_t(home[e])]->name; target = bi_; freshbox = !w && nm[0] != 'i'; bad = e;
         tr("%s\n", what.c_str()); return misuse(0, [&] { return x.put(f, rg, rn, c, true); }, uint64_t(f % 11) * 16 + uint64_t(home[e] == int(bi_)), o.k); }
      case M_KILL: if constexpr (!W::autou) { int e = pick(b, true); if (e < 0) return false; rn = 0; badat = 0; target = 99; freshbox = false; what = "destruction of element " + std::to_string(e) + ", which is in " + boxes[size_t(home[e])]->name; tr("%s\n", what.c_str()); return misuse(1, [&] { el[e]->~T(); return int(DONE); }, uint64_t(home[e]), o.k); } break;
      }
      return false;
   }
   template <class F> bool misuse(int kind, F f, uint64_t tag, uint32_t op) {
      at_report = [this] { intact(); }; armed = true; volatile int st = DONE;
      if (setjmp(jb) == 0) { st = f(); armed = false; if (st != DONE) return false; fail("%s: no assertion was raised", what.c_str()); }
      VF_CHECK(raised_kind == kind, "%s: the assertion for %s was raised", what.c_str(), raised_kind ? "destructors" : "insertions");
      hit(int(op), tag, uint64_t(bad)); g().focus_hits += 1; vf::stat((std::string("misuse reported: ") + (kind ? "destruction" : what.substr(what.find(": ") + 2, what.find(" of ") - what.find(": ") - 2))).c_str());
      return true;
   }
};
#define ADD(NAME, K, KIND) v.emplace_back(new BoxOf<T C K C KIND>(NAME));
#define ADDT(NAME, K, KIND) v.emplace_back(new BoxOf<T C K C KIND C true>(NAME));
#define OPT(H) typename std::conditional<W_base, bi::base_hook<H>, H>::type
typedef bi::link_mode<bi::safe_link> SF; typedef bi::link_mode<bi::auto_unlink> AU;

template <class Hook, bool AUTO> struct LB { typedef ElemB<Hook> T; static const bool autou = AUTO; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::list<T, bi::base_hook<Hook>, bi::constant_time_size<!AUTO> > L; typedef bi::list<T, bi::base_hook<Hook>, bi::constant_time_size<false> > L2; ADD("list a", L, LIST) ADD("list b", L, LIST) ADD("list without size", L2, LIST) } };
template <class Hook, bool AUTO> struct LM { typedef ElemM<Hook> T; static const bool autou = AUTO; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::list<T, bi::member_hook<T, Hook, &T::h>, bi::constant_time_size<!AUTO> > L; ADD("list a", L, LIST) ADD("list b", L, LIST) } };
template <class Hook, bool AUTO> struct SB { typedef ElemB<Hook> T; static const bool autou = AUTO; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::slist<T, bi::base_hook<Hook>, bi::constant_time_size<!AUTO> > L; ADD("slist a", L, SLIST) ADD("slist b", L, SLIST)
   if constexpr (!AUTO) { typedef bi::slist<T, bi::base_hook<Hook>, bi::cache_last<true> > L2; ADD("slist with last a", L2, SLISTC) ADD("slist with last b", L2, SLISTC) typedef bi::slist<T, bi::base_hook<Hook>, bi::linear<true>, bi::constant_time_size<false> > L3; ADD("linear slist", L3, SLISTL) } } };
template <class Hook, bool AUTO> struct SM { typedef ElemM<Hook> T; static const bool autou = AUTO; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::slist<T, bi::member_hook<T, Hook, &T::h>, bi::constant_time_size<!AUTO> > L; ADD("slist a", L, SLIST) ADD("slist b", L, SLIST) } };
#define ORD bi::key_of_value<KeyOf>
template <class Hook, bool AUTO, template <class...> class S, template <class...> class MS> struct TB { typedef ElemB<Hook> T; static const bool autou = AUTO; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef S<T, bi::base_hook<Hook>, ORD, bi::constant_time_size<!AUTO> > U; typedef MS<T, bi::base_hook<Hook>, bi::constant_time_size<!AUTO> > M; ADD("set a", U, USET) ADD("set b", U, USET) ADD("multiset a", M, MSET) ADD("multiset b", M, MSET) } };
template <class Hook, bool AUTO, template <class...> class S, template <class...> class MS> struct TM { typedef ElemM<Hook> T; static const bool autou = AUTO; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef S<T, bi::member_hook<T, Hook, &T::h>, ORD, bi::constant_time_size<!AUTO> > U; typedef MS<T, bi::member_hook<T, Hook, &T::h>, bi::constant_time_size<!AUTO> > M; ADD("set a", U, USET) ADD("multiset a", M, MSET) ADD("multiset b", M, MSET) } };
// the kinds that share one hook type; scapegoat trees need to know their size, splay trees and treaps no
template <class Hook> struct BSA { typedef ElemB<Hook> T; static const bool autou = false; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::bs_set<T, bi::base_hook<Hook>, ORD> B1; typedef bi::bs_multiset<T, bi::base_hook<Hook> > B2; ADD("bs_set", B1, USET) ADD("bs_multiset", B2, MSET)
   typedef bi::sg_set<T, bi::base_hook<Hook>, ORD> G1; typedef bi::sg_multiset<T, bi::base_hook<Hook> > G2; ADD("sg_set", G1, USET) ADD("sg_multiset", G2, MSET) } };
template <class Hook> struct BSB { typedef ElemB<Hook> T; static const bool autou = false; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::splay_set<T, bi::base_hook<Hook>, ORD> B1; typedef bi::splay_multiset<T, bi::base_hook<Hook> > B2; ADD("splay_set", B1, USET) ADD("splay_multiset", B2, MSET)
   typedef bi::treap_set<T, bi::base_hook<Hook>, ORD> G1; typedef bi::treap_multiset<T, bi::base_hook<Hook> > G2; ADDT("treap_set", G1, USET) ADDT("treap_multiset", G2, MSET) } };
template <class Hook> struct BSAU { typedef ElemM<Hook> T; static const bool autou = true; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::constant_time_size<false> N; typedef bi::member_hook<T, Hook, &T::h> HH;
   typedef bi::bs_set<T, HH, ORD, N> B1; typedef bi::splay_multiset<T, HH, N> B2; ADD("bs_set", B1, USET) ADD("splay_multiset", B2, MSET) typedef bi::bs_multiset<T, HH, N> B3; ADD("bs_multiset", B3, MSET) } };
#define HOPT bi::hash<HashF>, bi::key_of_value<KeyOf>
template <class Hook, bool AUTO> struct HB { typedef ElemB<Hook> T; static const bool autou = AUTO; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::unordered_set<T, bi::base_hook<Hook>, HOPT, bi::constant_time_size<!AUTO> > U; typedef bi::unordered_multiset<T, bi::base_hook<Hook>, HOPT, bi::constant_time_size<!AUTO> > M; ADD("unordered_set a", U, UHASH) ADD("unordered_set b", U, UHASH) ADD("unordered_multiset a", M, MHASH) ADD("unordered_multiset b", M, MHASH) } };
template <class Hook, bool AUTO> struct HM { typedef ElemM<Hook> T; static const bool autou = AUTO; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::member_hook<T, Hook, &T::h> HH; typedef bi::unordered_set<T, HH, HOPT, bi::constant_time_size<!AUTO>, bi::power_2_buckets<true> > U; typedef bi::unordered_multiset<T, HH, HOPT, bi::constant_time_size<!AUTO> > M; ADD("unordered_set a", U, UHASH) ADD("unordered_multiset a", M, MHASH) ADD("unordered_multiset b", M, MHASH)
} };
template <class Hook> struct AN { typedef ElemB<Hook> T; static const bool autou = false; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::base_hook<Hook> H; typedef bi::list<T, bi::any_to_list_hook<H> > L; typedef bi::slist<T, bi::any_to_slist_hook<H>, bi::cache_last<true> > S; typedef bi::multiset<T, bi::any_to_set_hook<H> > M; typedef bi::avl_set<T, bi::any_to_avl_set_hook<H>, ORD> A; typedef bi::splay_set<T, bi::any_to_bs_set_hook<H>, ORD> Y; typedef bi::unordered_set<T, bi::any_to_unordered_set_hook<H>, HOPT> U;
   ADD("list", L, LIST) ADD("slist", S, SLISTC) ADD("multiset", M, MSET) ADD("avl_set", A, USET) ADD("splay_set", Y, USET) ADD("unordered_set", U, UHASH) } };
template <class Hook> struct ANM { typedef ElemM<Hook> T; static const bool autou = false; static void boxes(std::vector<std::unique_ptr<Box<T>>> &v) {
   typedef bi::member_hook<T, Hook, &T::h> H; typedef bi::slist<T, bi::any_to_slist_hook<H> > S; typedef bi::set<T, bi::any_to_set_hook<H>, ORD> M; typedef bi::sg_multiset<T, bi::any_to_bs_set_hook<H> > A; typedef bi::treap_multiset<T, bi::any_to_bs_set_hook<H> > Y; typedef bi::unordered_multiset<T, bi::any_to_unordered_set_hook<H>, HOPT> U;
   ADD("slist", S, SLIST) ADD("set", M, USET) ADD("sg_multiset", A, MSET) ADDT("treap_multiset", Y, MSET) ADD("unordered_multiset", U, MHASH) } };
template <class W> struct R { static void run(const Case &c) { World<W>::run(c); } };
typedef bi::void_pointer<fptr<void> > VP;
static void profile(const std::string &, Profile &p) {
   p.mask = O_ALL; p.maxlen_sel = 0;
   p.put({{M_PUT, 120}, {M_BIG, 40}, {M_ERASE, 40}, {M_ERASE_DISPOSE, 20}, {M_CLEAR, 3}, {M_RENEW, 5}, {M_REBORN, 25}, {M_COPY, 15}, {M_SWAP, 15}, {M_POP, 15}, {M_RANGE, 5}, {M_UNLINK, 20}, {M_XFER, 20}, {M_ORDER, 10}, {M_MISUSE, 12}, {M_KILL, 3}});
}
int main(int argc, char **argv) {
#define T2(P, W, N) { typedef W X; Reg<P>::add<R<X> >(N); }
#if PART(0)
   T2(0, LB<bi::list_base_hook<> C false>, "list, base hook") T2(0, LM<bi::list_member_hook<AU> C true>, "list, self-unlinking member hook") T2(0, LB<bi::list_base_hook<AU C bi::tag<struct X1> > C true>, "list, self-unlinking tagged base hook") T2(0, LM<bi::list_member_hook<VP> C false>, "list, member hook, self-relative pointers")
#endif
#if PART(1)
   T2(1, SB<bi::slist_base_hook<> C false>, "slist, base hook") T2(1, SM<bi::slist_member_hook<AU> C true>, "slist, self-unlinking member hook") T2(1, SM<bi::slist_member_hook<VP C SF> C false>, "slist, member hook, self-relative pointers")
#endif
#if PART(2)
   T2(2, TB<bi::set_base_hook<> C false C bi::set C bi::multiset>, "set, base hook") T2(2, TM<bi::set_member_hook<AU> C true C bi::set C bi::multiset>, "set, self-unlinking member hook")
#endif
#if PART(3)
   T2(3, TM<bi::avl_set_member_hook<> C false C bi::avl_set C bi::avl_multiset>, "avl_set, member hook") T2(3, TB<bi::avl_set_base_hook<bi::optimize_size<true> > C false C bi::avl_set C bi::avl_multiset>, "avl_set, compact base hook") T2(3, TB<bi::avl_set_base_hook<AU> C true C bi::avl_set C bi::avl_multiset>, "avl_set, self-unlinking base hook")
#endif
#if PART(4)
   T2(4, BSA<bi::bs_set_base_hook<> >, "bs and sg sets") T2(4, BSAU<bi::bs_set_member_hook<AU> >, "bs and splay sets, self-unlinking member hook")
#endif
#if PART(5)
   T2(5, BSB<bi::bs_set_base_hook<> >, "splay sets and treaps") T2(5, TM<bi::set_member_hook<VP> C false C bi::set C bi::multiset>, "set, member hook, self-relative pointers")
#endif
#if PART(6)
   T2(6, HB<bi::unordered_set_base_hook<> C false>, "unordered, base hook") T2(6, HM<bi::unordered_set_member_hook<AU C bi::store_hash<true> > C true>, "unordered, self-unlinking member hook with stored hash")
#endif
#if PART(7)
   T2(7, HB<bi::unordered_set_base_hook<bi::store_hash<true> C bi::optimize_multikey<true> > C false>, "unordered, base hook with groups")
#endif
#if PART(8)
   T2(8, AN<bi::any_base_hook<> >, "several kinds, universal base hook")
#endif
#if PART(9)
   T2(9, ANM<bi::any_member_hook<> >, "several kinds, universal member hook")
#endif
   engine() = {"misuse", profile};
   return harness_main(argc, argv);
}
