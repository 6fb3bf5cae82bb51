// One element type with many hooks: every container kind, every way of attaching the hook, operations on all the containers interleaved.
// Each wrapper owns two containers of one type and their model; after every operation every container and every hook is compared.
#include "elem.hpp"
#include <memory>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/parent_from_member.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
using namespace vf;

template <int P> struct Reg { template <class C> static void add(const char *n) { if (VF_PART == P || VF_PART < 0) configs().push_back(Config{n, &C::run}); } };
#define PART(n) (VF_PART == n || VF_PART < 0)
const int NH = 16;      // hooks per element

enum { INS = 1, ERA, ERA_R, TAKE_ENDS, REORDER, FILTER, SWAP, TRANSFER, CLEAR, LOOKUP, CLONE, MOVE, NEWEL, DELEL, UNLINK, COPYEL, HOOKSWAP, REPLACE };

struct Base0 {
   int key = 0, pri = 0; unsigned id = 0; int where[NH]; uint32_t magic = 0xA11CEu;
   Base0() { for (int &w : where) w = -1; }
   Base0(const Base0 &o) : key(o.key), pri(o.pri) { for (int &w : where) w = -1; }
   Base0 &operator=(const Base0 &) { return *this; }
};
inline bool operator<(const Base0 &a, const Base0 &b) { return a.key < b.key; }
inline bool operator>(const Base0 &a, const Base0 &b) { return a.key > b.key; }
inline bool operator==(const Base0 &a, const Base0 &b) { return a.key == b.key; }
inline bool priority_order(const Base0 &a, const Base0 &b) { return a.pri < b.pri; }

template <class E> struct CB {
   int hook = 0, idx = 0; const char *name = "";
   std::vector<E *> m[2];
   bool (*linked)(const E &) = nullptr;         // the hook's own answer, where it is meaningful
   void (*unlink)(E &) = nullptr;
   void (*swapn)(E &, E &) = nullptr;
   virtual ~CB() {}
   virtual bool ins(int q, E &e, uint32_t a) = 0;      // false: refused (an equivalent element is there)
   virtual void era(int q, size_t i, uint32_t a) = 0;
   virtual void era_r(int q, size_t i, size_t j, std::vector<E *> &gone) = 0;
   virtual void ends(int q, uint32_t a) = 0;
   virtual void reorder(int q, uint32_t a) = 0;
   virtual void filter(int q, uint32_t a, std::vector<E *> &gone) = 0;
   virtual void swap() = 0;
   virtual void transfer(int q, uint32_t a) = 0;        // from 1-q into q
   virtual void clear(int q) = 0;
   virtual void lookup(int q, int key, uint32_t a) = 0;
   virtual void clone(int q, std::vector<E *> &made) = 0;
   virtual void move(int q) = 0;
   virtual bool replace(int q, size_t i, E &e) = 0;
   virtual void check(int q) = 0;
   std::string nm(int q) const { return std::string(name) + (q ? "/1" : "/0"); }
   void dropm(E *e) { for (auto &v : m) v.erase(std::remove(v.begin(), v.end(), e), v.end()); }
};

template <class E> struct Pool { static std::vector<E *> &live() { static std::vector<E *> v; return v; } static unsigned &next() { static unsigned n; return n; } };
// stateful traits refer to this: nodes live elsewhere
template <class S, class = void> struct stateful : std::false_type {};
template <class S> struct stateful<S, typename std::enable_if<S::value_traits::needs_table>::type> : std::true_type {};

template <class V> bool eqv(const V &a, const V &b) { return a == b; }
template <class L, class Vec> void walk_check(const L &l, const Vec &m, const std::string &nm) {
   VF_CHECK(l.empty() == m.empty(), "%s: empty() is %d with %zu elements", nm.c_str(), l.empty(), m.size());
   VF_CHECK(l.size() == m.size(), "%s: size() %zu, %zu elements are inside", nm.c_str(), size_t(l.size()), m.size());
   size_t i = 0;
   for (auto it = l.begin(), e = l.end(); it != e; ++it, ++i) {
      VF_CHECK(i < m.size(), "%s: more than the %zu elements it should have", nm.c_str(), m.size());
      VF_CHECK(&*it == m[i], "%s: element at position %zu is #%u, should be #%u", nm.c_str(), i, it->id, m[i]->id);
   }
   VF_CHECK(i == m.size(), "%s: %zu of %zu elements reachable", nm.c_str(), i, m.size());
}

// element -> node -> element, for const and non-const ones
template <class L, class E> void traits_check(E &e, const char *nm) {
   typedef typename L::value_traits VT; typedef typename VT::const_node_ptr CN; const E &ce = e; std::unique_ptr<VT> h;
   if constexpr (stateful<L>::value) h.reset(new VT(1)); else h.reset(new VT());
   const VT &t = *h; auto n = t.to_node_ptr(e); auto cn = t.to_node_ptr(ce);
   VF_CHECK(CN(n) == cn, "%s: the node of an element depends on constness", nm);
   VF_CHECK(raw(t.to_value_ptr(n)) == std::addressof(e), "%s: to_value_ptr(to_node_ptr(#%u)) is another address", nm, e.id);
   VF_CHECK(raw(t.to_value_ptr(cn)) == std::addressof(ce), "%s: to_value_ptr(to_node_ptr(const #%u)) is another address", nm, e.id);
}

// ---- lists ------------------------------------------------------------------
template <class E, class L> struct SeqW : CB<E> {
   typedef typename L::iterator It;
   static const bool bidi = std::is_base_of<std::bidirectional_iterator_tag, typename It::iterator_category>::value;
   std::unique_ptr<L> c[2];
   static L *make() { if constexpr (stateful<L>::value) return new L(typename L::value_traits(1)); else return new L; }
   SeqW() { for (auto &x : c) x.reset(make()); }
   ~SeqW() { for (auto &x : c) x->clear(); }
   It nth(int q, size_t i) { It it = c[q]->begin(); while (i--) ++it; return it; }
   bool ins(int q, E &e, uint32_t a) override {
      auto &v = this->m[q]; size_t i = (a >> 2) % (v.size() + 1);
      if ((a & 3) == 0) { c[q]->push_front(e); v.insert(v.begin(), &e); return true; }
      if constexpr (bidi) if ((a & 3) == 1) { c[q]->push_back(e); v.push_back(&e); return true; }
      It r = c[q]->insert(nth(q, i), e); VF_CHECK(&*r == &e, "%s: insert returned another element", this->name);
      v.insert(v.begin() + long(i), &e); return true;
   }
   void era(int q, size_t i, uint32_t a) override {
      auto &v = this->m[q]; It r;
      if (a & 1) r = c[q]->erase(c[q]->iterator_to(*v[i])); else r = c[q]->erase(nth(q, i));
      v.erase(v.begin() + long(i)); VF_CHECK(i < v.size() ? r != c[q]->end() && &*r == v[i] : r == c[q]->end(), "%s: erase returned the wrong position", this->name);
   }
   void era_r(int q, size_t i, size_t j, std::vector<E *> &gone) override { auto &v = this->m[q]; gone.assign(v.begin() + long(i), v.begin() + long(j)); c[q]->erase(nth(q, i), nth(q, j)); v.erase(v.begin() + long(i), v.begin() + long(j)); }
   void ends(int q, uint32_t a) override {
      auto &v = this->m[q];
      VF_CHECK(&c[q]->front() == v.front(), "%s: front()", this->name);
      if constexpr (bidi) { VF_CHECK(&c[q]->back() == v.back(), "%s: back()", this->name); if (a & 1) { c[q]->pop_back(); v.pop_back(); return; } }
      c[q]->pop_front(); v.erase(v.begin());
   }
   void reorder(int q, uint32_t a) override {
      auto &v = this->m[q];
      switch (a % 4) {
      case 0: c[q]->reverse(); std::reverse(v.begin(), v.end()); break;
      case 1: c[q]->sort(); std::stable_sort(v.begin(), v.end(), [](E *x, E *y) { return x->key < y->key; }); break;
      case 2: if (v.size()) { size_t n = (a >> 3) % v.size(); c[q]->shift_forward(n); std::rotate(v.begin(), v.begin() + long(n % v.size()), v.end()); } break;
      default: if (v.size()) { size_t n = (a >> 3) % v.size(); c[q]->shift_backwards(n); std::rotate(v.begin(), v.end() - long(n), v.end()); } break;
      }
   }
   void filter(int q, uint32_t a, std::vector<E *> &gone) override {
      auto &v = this->m[q]; std::vector<E *> k;
      if (a & 1) { int r = int(a >> 1) % 3; c[q]->remove_if([r](const E &e) { return e.key % 3 == r; }); for (E *e : v) (e->key % 3 == r ? gone : k).push_back(e); }
      else { c[q]->unique(); for (E *e : v) if (!k.empty() && k.back()->key == e->key) gone.push_back(e); else k.push_back(e); }
      v = k;
   }
   void swap() override { c[0]->swap(*c[1]); this->m[0].swap(this->m[1]); }
   void transfer(int q, uint32_t a) override {
      auto &v = this->m[q], &u = this->m[1 - q]; size_t i = a % (v.size() + 1);
      if constexpr (bidi) {
         if (u.size() && (a >> 10) % 3 == 0) { size_t j = (a >> 12) % u.size(); c[q]->splice(nth(q, i), *c[1 - q], nth(1 - q, j)); v.insert(v.begin() + long(i), u[j]); u.erase(u.begin() + long(j)); return; }
         c[q]->splice(nth(q, i), *c[1 - q]);
      }
      else { It p = c[q]->before_begin(); for (size_t k = 0; k < i; ++k) ++p; c[q]->splice_after(p, *c[1 - q]); }
      v.insert(v.begin() + long(i), u.begin(), u.end()); u.clear();
   }
   void clear(int q) override { c[q]->clear(); this->m[q].clear(); }
   void lookup(int q, int, uint32_t a) override { auto &v = this->m[q]; if (v.empty()) return; size_t i = a % v.size(); traits_check<L>(*v[i], this->name); It it = c[q]->iterator_to(*v[i]); VF_CHECK(&*it == v[i], "%s: iterator_to", this->name); ++it; VF_CHECK(i + 1 < v.size() ? &*it == v[i + 1] : it == c[q]->end(), "%s: next element", this->name); }
   void clone(int q, std::vector<E *> &made) override {
      typedef typename std::remove_reference<decltype(*c[q])>::type::pointer P;
      c[q]->clone_from(*c[1 - q], [&](const E &e) -> P { E *n = new E(e); n->id = Pool<E>::next()++; Pool<E>::live().push_back(n); made.push_back(n); return P(n); }, [](auto) {});
      this->m[q] = made;
   }
   void move(int q) override { std::unique_ptr<L> t(new L(std::move(*c[q]))); VF_CHECK(c[q]->empty(), "%s: not empty after being moved from", this->name); *c[q] = std::move(*t); }
   bool replace(int, size_t, E &) override { return false; }
   void check(int q) override {
      walk_check(*c[q], this->m[q], this->nm(q));
      if constexpr (bidi) { auto &v = this->m[q]; size_t i = v.size(); for (auto it = c[q]->end(); i-- > 0;) { --it; VF_CHECK(&*it == v[i], "%s: backwards, position %zu", this->name, i); } }
   }
};

// ---- ordered and hashed sets ---------------------------------------------------
template <class S, class = void> struct is_hash : std::false_type {};
template <class S> struct is_hash<S, typename std::enable_if<sizeof(typename S::bucket_traits) != 0>::type> : std::true_type {};
template <class S, class = void> struct is_treap : std::false_type {};
template <class S> struct is_treap<S, typename std::enable_if<sizeof(typename S::priority_compare) != 0>::type> : std::true_type {};
template <class S, bool H = is_hash<S>::value> struct Bk { typename S::bucket_type b[4][20]; };
template <class S> struct Bk<S, false> {};
template <class E, class S> struct AssocW : CB<E> {
   static const bool hashed = is_hash<S>::value;
   typedef typename S::iterator It;
   Bk<S> bk; std::unique_ptr<S> c[2];
   std::vector<E *> sorted(std::vector<E *> v) { std::sort(v.begin(), v.end()); return v; }
   S *make(int q) {
      if constexpr (hashed) { typename S::bucket_traits t(bk.b[q], (S::power_2_buckets ? 8 : 7) + S::bucket_overhead); if constexpr (stateful<S>::value) return new S(t, typename S::hasher(), typename S::key_equal(), typename S::value_traits(1)); else return new S(t); }
      else if constexpr (stateful<S>::value) { if constexpr (is_treap<S>::value) return new S(typename S::key_compare(), typename S::priority_compare(), typename S::value_traits(1)); else return new S(typename S::key_compare(), typename S::value_traits(1)); }
      else return new S;
   }
   AssocW() { for (int q = 0; q < 2; ++q) c[q].reset(make(q)); }
   ~AssocW() { for (auto &x : c) x->clear(); c[0].reset(); c[1].reset(); }
   size_t cnt(int q, int key) { size_t n = 0; for (E *e : this->m[q]) n += e->key == key; return n; }
   void add(int q, E *e) { auto &v = this->m[q]; if (hashed) v.push_back(e); else v.insert(std::upper_bound(v.begin(), v.end(), e, [](E *a, E *b) { return a->key < b->key; }), e); }
   bool ins(int q, E &e, uint32_t a) override {
      It r;
      if constexpr (S_unique()) {
         bool had = cnt(q, e.key) != 0; auto p = c[q]->insert(e);
         VF_CHECK(p.second == !had, "%s: insert() of key %d returned %d", this->name, e.key, p.second); r = p.first; VF_CHECK(r->key == e.key, "%s: insert() returned another key", this->name);
         if (had) return false;
      }
      else r = c[q]->insert(e);
      VF_CHECK(&*r == &e, "%s: insert() returned another element", this->name);
      add(q, &e); return true;
   }
   static constexpr bool S_unique() { return std::is_same<decltype(std::declval<S &>().insert(std::declval<E &>())), std::pair<It, bool> >::value; }
   void era(int q, size_t i, uint32_t a) override {
      auto &v = this->m[q]; E *e = v[i];
      if constexpr (hashed) c[q]->erase(c[q]->iterator_to(*e));
      else { It r = c[q]->erase(c[q]->iterator_to(*e)); VF_CHECK(i + 1 < v.size() ? &*r == v[i + 1] : r == c[q]->end(), "%s: erase() returned the wrong position", this->name); }
      v.erase(v.begin() + long(i));
   }
   void era_r(int q, size_t i, size_t j, std::vector<E *> &gone) override {
      auto &v = this->m[q];
      if constexpr (hashed) { It a = c[q]->begin(); for (size_t k = 0; k < i; ++k) ++a; It b = a; for (size_t k = i; k < j; ++k) { gone.push_back(&*b); ++b; } c[q]->erase(a, b); for (E *e : gone) v.erase(std::find(v.begin(), v.end(), e)); }
      else { It a = i < v.size() ? c[q]->iterator_to(*v[i]) : c[q]->end(), b = j < v.size() ? c[q]->iterator_to(*v[j]) : c[q]->end(); gone.assign(v.begin() + long(i), v.begin() + long(j)); c[q]->erase(a, b); v.erase(v.begin() + long(i), v.begin() + long(j)); }
   }
   void ends(int q, uint32_t a) override {
      auto &v = this->m[q]; E *e = &*c[q]->begin();
      if (!hashed) VF_CHECK(e == v[0], "%s: begin()", this->name);
      c[q]->erase(c[q]->begin()); v.erase(std::find(v.begin(), v.end(), e));
   }
   void reorder(int q, uint32_t a) override {
      if constexpr (hashed) { int f = 0; while (raw(c[0]->bucket_pointer()) == bk.b[f] || raw(c[1]->bucket_pointer()) == bk.b[f]) ++f; c[q]->rehash(typename S::bucket_traits(bk.b[f], (S::power_2_buckets ? size_t(1) << (a % 5) : 1 + a % 17) + S::bucket_overhead)); }
      else { if constexpr (requires_rebalance<S>(0)) c[q]->rebalance(); }
   }
   // rebalance() is an operation of the plain, scapegoat and splay trees only
   template <class X> static constexpr auto self_balanced(int) -> decltype(X::node_traits::black(), true) { return true; }
   template <class X> static constexpr auto self_balanced(long) -> decltype(X::node_traits::zero(), true) { return true; }
   template <class X> static constexpr bool self_balanced(...) { return is_treap<X>::value; }
   template <class X> static constexpr auto requires_rebalance(int) -> decltype(std::declval<X &>().rebalance(), true) { return !self_balanced<X>(0); }
   template <class X> static constexpr bool requires_rebalance(long) { return false; }
   void filter(int q, uint32_t a, std::vector<E *> &gone) override {
      auto &v = this->m[q]; if (v.empty()) return; E probe(*v[a % v.size()]); std::vector<E *> k;
      size_t n = c[q]->erase(probe.key_of()); for (E *e : v) (e->key == probe.key ? gone : k).push_back(e);
      VF_CHECK(n == gone.size(), "%s: erase(key) returned %zu, %zu equivalent elements were inside", this->name, n, gone.size()); v = k;
   }
   void swap() override { c[0]->swap(*c[1]); this->m[0].swap(this->m[1]); }
   void transfer(int q, uint32_t a) override {
      auto &v = this->m[q], &u = this->m[1 - q];
      if constexpr (hashed) { std::vector<E *> all(u); for (E *e : all) { if (S_unique() && cnt(q, e->key)) continue; c[1 - q]->erase(c[1 - q]->iterator_to(*e)); u.erase(std::find(u.begin(), u.end(), e)); c[q]->insert(*e); v.push_back(e); } }
      else {
         c[q]->merge(*c[1 - q]); std::vector<E *> keep;
         for (E *e : std::vector<E *>(u)) if (S_unique() && cnt(q, e->key)) keep.push_back(e); else add(q, e);
         u = keep;
      }
   }
   void clear(int q) override { c[q]->clear(); this->m[q].clear(); }
   void lookup(int q, int key, uint32_t a) override {
      size_t n = cnt(q, key); E probe; probe.key = key; auto &v = this->m[q];
      VF_CHECK(c[q]->count(probe.key_of()) == n, "%s: count(%d) is %zu, %zu inside", this->name, key, size_t(c[q]->count(probe.key_of())), n);
      It f = c[q]->find(probe.key_of()); VF_CHECK(n ? f != c[q]->end() && f->key == key : f == c[q]->end(), "%s: find(%d)", this->name, key);
      if constexpr (!hashed) { It l = c[q]->lower_bound(probe.key_of()); auto ml = std::lower_bound(v.begin(), v.end(), &probe, [](E *x, E *y) { return x->key < y->key; }); VF_CHECK(ml == v.end() ? l == c[q]->end() : l != c[q]->end() && &*l == *ml, "%s: lower_bound(%d)", this->name, key); }
      if (v.size()) { size_t i = a % v.size(); traits_check<S>(*v[i], this->name); It it = c[q]->iterator_to(*v[i]); VF_CHECK(&*it == v[i], "%s: iterator_to", this->name); ++it; if (!hashed) VF_CHECK(i + 1 < v.size() ? &*it == v[i + 1] : it == c[q]->end(), "%s: next element", this->name); }
   }
   void clone(int q, std::vector<E *> &made) override {
      typedef typename std::remove_reference<decltype(*c[q])>::type::pointer P;
      c[q]->clone_from(*c[1 - q], [&](const E &e) -> P { E *n = new E(e); n->id = Pool<E>::next()++; Pool<E>::live().push_back(n); made.push_back(n); return P(n); }, [](auto) {});
      std::vector<E *> r; for (E &e : *c[q]) { VF_CHECK(r.size() <= made.size(), "%s: clone", this->name); r.push_back(&e); }
      VF_CHECK(sorted(r) == sorted(made), "%s: clone does not hold what the cloner made", this->name);
      this->m[q] = r; auto &u = this->m[1 - q]; VF_CHECK(r.size() == u.size(), "%s: clone has %zu of %zu elements", this->name, r.size(), u.size());
      if (!hashed) for (size_t i = 0; i < r.size(); ++i) VF_CHECK(r[i]->key == u[i]->key, "%s: clone has other elements", this->name);
   }
   void move(int q) override {
      if constexpr (hashed) return;
      else { std::unique_ptr<S> t(new S(std::move(*c[q]))); VF_CHECK(c[q]->empty(), "%s: not empty after being moved from", this->name); *c[q] = std::move(*t); }
   }
   bool replace(int q, size_t i, E &e) override {
      if constexpr (hashed) return false;
      else { E *o = this->m[q][i]; e.key = o->key; e.pri = o->pri; c[q]->replace_node(c[q]->iterator_to(*o), e); this->m[q][i] = &e; return true; }
   }
   void check(int q) override {
      if constexpr (!hashed) { walk_check(*c[q], this->m[q], this->nm(q)); auto &v = this->m[q]; size_t i = v.size(); for (auto it = c[q]->end(); i-- > 0;) { --it; VF_CHECK(&*it == v[i], "%s: backwards, position %zu", this->name, i); } }
      else {
         auto &v = this->m[q]; std::vector<E *> r; std::string n = this->nm(q); S &s = *c[q];
         VF_CHECK(s.empty() == v.empty() && s.size() == v.size(), "%s: size() %zu, %zu elements are inside", n.c_str(), size_t(s.size()), v.size());
         for (E &e : s) { VF_CHECK(r.size() < v.size(), "%s: more than the %zu elements it should have", n.c_str(), v.size()); r.push_back(&e); }
         VF_CHECK(sorted(r) == sorted(v), "%s: does not hold the elements it should", n.c_str());
         for (size_t i = 0; i < r.size(); ++i) for (size_t j = i + 1; j < r.size(); ++j) if (r[i]->key == r[j]->key) VF_CHECK(r[j - 1]->key == r[i]->key, "%s: equivalent elements are not adjacent", n.c_str());
      }
   }
};

// ---- the run --------------------------------------------------------------------
template <class Cfg> struct Multi {
   typedef typename Cfg::E E;
   static void run(const Case &c) { Multi r; r.go(c); }
   std::vector<std::unique_ptr<CB<E> > > w;
   std::vector<E *> &live = Pool<E>::live();
   int range; bool trees_in = false;
   E *fresh(int key) { E *e = new E; e->key = key; e->id = Pool<E>::next()++; e->pri = int(e->id * 7919u % 13); live.push_back(e); return e; }
   void kill(E *e) { live.erase(std::find(live.begin(), live.end(), e)); delete e; }
   void set(CB<E> &x, E *e, int q) { e->where[x.hook] = q < 0 ? -1 : x.idx * 2 + q; }
   template <class V> void gone(CB<E> &x, V &v) { for (E *e : v) set(x, e, -1); }
   void resync(CB<E> &x) { for (int q = 0; q < 2; ++q) for (E *e : x.m[q]) set(x, e, q); }
   void check() {
      for (auto &x : w) for (int q = 0; q < 2; ++q) x->check(q);
      for (E *e : live) {
         VF_CHECK(e->intact(), "element #%u: its own data changed", e->id);
         for (auto &x : w) if (x->linked) {
            int at = e->where[x->hook]; bool in = at >= 0;
            if (in && at / 2 != x->idx && w[size_t(at / 2)]->linked == nullptr) continue;     // (a null-terminated container's hook)
            VF_CHECK(x->linked(*e) == in, "element #%u: hook of %s says %d, the element is %s", e->id, x->name, x->linked(*e), in ? "inside" : "in no container");
         }
      }
   }
   void go(const Case &cs) {
      for (E *e : live) delete e;
      live.clear(); Pool<E>::next() = 0;
      Cfg::build(w); for (size_t i = 0; i < w.size(); ++i) w[i]->idx = int(i);
      range = 1 + int(cs.cfg[1] % 24); size_t n0 = 2 + cs.cfg[2] % 24;
      for (size_t i = 0; i < n0; ++i) fresh(int((cs.cfg[3] * (i + 1) * 2654435761u >> 8) % unsigned(range)));
      int k = -1;
      for (const Op &o : cs.ops) {
         g().opi = ++k;
         step(o); check();
         for (auto &x : w) for (auto &v : x->m) g().maxsize = std::max(g().maxsize, v.size());
      }
      for (auto &x : w) for (int q = 0; q < 2; ++q) { x->clear(q); }
      for (E *e : live) for (int &z : e->where) z = -1;
      check();
      w.clear();
      for (E *e : live) delete e;
      live.clear();
   }
   void step(const Op &o) {
      CB<E> &x = *w[o.a[0] % w.size()]; int q = int(o.a[1] & 1); auto &v = x.m[q]; std::vector<E *> out;
      switch (o.k) {
      case INS: {
         if (live.empty()) break;
         size_t n = 1 + (o.a[4] % 5 == 0 ? o.a[3] % 6 : 0);
         for (size_t i = 0; i < n; ++i) {
            E *e = live[(o.a[2] + i) % live.size()]; if (e->where[x.hook] >= 0) continue;
            bool r = x.ins(q, *e, o.a[3] + unsigned(i)); if (r) set(x, e, q);
            tr("insert #%u key %d in %s: %d\n", e->id, e->key, x.nm(q).c_str(), r); hit(o.k, uint64_t(x.idx), v.size() * 50 + e->id);
         }
         break; }
      case ERA: if (!v.empty()) { size_t i = o.a[2] % v.size(); E *e = v[i]; tr("erase #%u from %s\n", e->id, x.nm(q).c_str()); x.era(q, i, o.a[3]); set(x, e, -1); hit(o.k, uint64_t(x.idx), v.size() * 50 + i); } break;
      case ERA_R: if (!v.empty()) { size_t i = o.a[2] % (v.size() + 1), j = o.a[3] % (v.size() + 1); if (i > j) std::swap(i, j); if (j - i > 3) j = i + 3; tr("erase [%zu,%zu) from %s\n", i, j, x.nm(q).c_str()); x.era_r(q, i, j, out); gone(x, out); hit(o.k, uint64_t(x.idx), i * 50 + j); } break;
      case TAKE_ENDS: if (!v.empty()) { std::vector<E *> b(v); tr("take an end of %s\n", x.nm(q).c_str()); x.ends(q, o.a[2]); gone(x, b); resync(x); hit(o.k, uint64_t(x.idx), v.size()); } break;
      case REORDER: tr("reorder %s (%u)\n", x.nm(q).c_str(), o.a[2] % 4); x.reorder(q, o.a[2]); hit(o.k, uint64_t(x.idx), v.size()); break;
      case FILTER: tr("filter %s\n", x.nm(q).c_str()); x.filter(q, o.a[2], out); gone(x, out); hit(o.k, uint64_t(x.idx), v.size()); break;
      case SWAP: tr("swap %s\n", x.name); x.swap(); resync(x); hit(o.k, uint64_t(x.idx), v.size()); break;
      case TRANSFER: tr("transfer into %s\n", x.nm(q).c_str()); x.transfer(q, o.a[2]); resync(x); hit(o.k, uint64_t(x.idx), v.size()); break;
      case CLEAR: { std::vector<E *> b(v); tr("clear %s\n", x.nm(q).c_str()); x.clear(q); gone(x, b); hit(o.k, uint64_t(x.idx), b.size()); break; }
      case LOOKUP: x.lookup(q, int(o.a[2] % unsigned(range)), o.a[3]); hit(o.k, uint64_t(x.idx), o.a[2] % unsigned(range)); break;
      case CLONE: if (live.size() + x.m[1 - q].size() < 60) { std::vector<E *> b(v); tr("clone into %s\n", x.nm(q).c_str()); x.clone(q, out); gone(x, b); resync(x); hit(o.k, uint64_t(x.idx), out.size()); } break;
      case MOVE: tr("move %s away and back\n", x.nm(q).c_str()); x.move(q); hit(o.k, uint64_t(x.idx), v.size()); break;
      case NEWEL: if (live.size() < 40) { fresh(int(o.a[2] % unsigned(range))); hit(o.k, live.size()); } break;
      case DELEL: if (live.size() > 1) {
         E *e = live[o.a[2] % live.size()];
         tr("destroy #%u\n", e->id); size_t in = 0;
         for (auto &y : w) { int at = e->where[y->hook]; if (at < 0 || at / 2 != y->idx) continue; ++in;
            if (y->unlink) { y->dropm(e); }      // auto-unlink: the destructor takes it out
            else { auto &z = y->m[at & 1]; y->era(at & 1, size_t(std::find(z.begin(), z.end(), e) - z.begin()), o.a[3]); } set(*y, e, -1); }
         kill(e); hit(o.k, in, live.size());
      } break;
      case UNLINK: if (x.unlink && !v.empty()) { E *e = v[o.a[2] % v.size()]; tr("#%u unlinks itself from %s\n", e->id, x.nm(q).c_str()); x.unlink(*e); x.dropm(e); set(x, e, -1); hit(o.k, uint64_t(x.idx), v.size()); } break;
      case COPYEL: if (live.size() > 1 && live.size() < 40) {      // copying and assigning elements does not touch any hook
         E *a = live[o.a[2] % live.size()], *b = live[o.a[3] % live.size()];
         if (o.a[4] & 1) { *a = *b; } else { E *n = new E(*a); n->id = Pool<E>::next()++; live.push_back(n); }
         hit(o.k, live.size()); } break;
      case HOOKSWAP: if (x.swapn && v.size() > 1) {
         size_t i = o.a[2] % v.size(), j = o.a[3] % v.size(); if (i == j) break; E *a = v[i], *b = v[j];
         bool ord = Cfg::ordered(x.idx); if (ord && a->key != b->key) break;
         tr("swap_nodes #%u #%u of %s\n", a->id, b->id, x.nm(q).c_str()); x.swapn(*a, *b); std::swap(v[i], v[j]); hit(o.k, uint64_t(x.idx), i * 50 + j); } break;
      case REPLACE: if (!v.empty()) { E *e = nullptr; for (E *y : live) { bool used = false; for (int z : y->where) used |= z >= 0; if (!used) e = y; } if (!e) break; size_t i = o.a[2] % v.size(); E *old = v[i]; if (x.replace(q, i, *e)) { set(x, old, -1); set(x, e, q); tr("replace #%u by #%u in %s\n", old->id, e->id, x.nm(q).c_str()); hit(o.k, uint64_t(x.idx), i); } } break;
      }
   }
};

template <class E, int H, class W> CB<E> *add(std::vector<std::unique_ptr<CB<E> > > &v, const char *name) { CB<E> *p = new W; p->hook = H; p->name = name; v.emplace_back(p); return p; }
#define LINKED(E, HOOKREF) [](const E &e) -> bool { return (HOOKREF).is_linked(); }
#define UNLINKS(E, HOOKREF) [](E &e) { (HOOKREF).unlink(); }
#define SWAPS(E, HA, HB) [](E &a, E &b) { (HA).swap_nodes(HB); }

template <class... O> using LB = bi::list_base_hook<O...>; template <class... O> using LM = bi::list_member_hook<O...>;
template <class... O> using SB = bi::slist_base_hook<O...>; template <class... O> using SM = bi::slist_member_hook<O...>;
template <class... O> using RB = bi::set_base_hook<O...>; template <class... O> using RM = bi::set_member_hook<O...>;
template <class... O> using AB = bi::avl_set_base_hook<O...>; template <class... O> using AM = bi::avl_set_member_hook<O...>;
template <class... O> using BB = bi::bs_set_base_hook<O...>; template <class... O> using BM = bi::bs_set_member_hook<O...>;
template <class... O> using UB = bi::unordered_set_base_hook<O...>; template <class... O> using UM = bi::unordered_set_member_hook<O...>;
template <class... O> using YB = bi::any_base_hook<O...>; template <class... O> using YM = bi::any_member_hook<O...>;
template <int N> struct tg {}; template <int N> using Tag = bi::tag<tg<N> >;
using bi::link_mode; using bi::safe_link; using bi::normal_link; using bi::auto_unlink; using bi::base_hook; using bi::member_hook; using bi::function_hook; using bi::void_pointer; using bi::optimize_size; using bi::constant_time_size;
using bi::store_hash; using bi::optimize_multikey;
template <class E> struct KeyFn { const E &operator()(const E &e) const { return e; } };

// a functor giving access to a hook nested two levels down
#define FUNCTOR(NAME, E, INNER, MEMB, HOOK) struct NAME { typedef HOOK hook_type; typedef hook_type *hook_ptr; typedef const hook_type *const_hook_ptr; typedef E value_type; typedef value_type *pointer; typedef const value_type *const_pointer; \
   static hook_ptr to_hook_ptr(value_type &v); static const_hook_ptr to_hook_ptr(const value_type &v); static pointer to_value_ptr(hook_ptr n); static const_pointer to_value_ptr(const_hook_ptr n); };
#define FUNCTOR_DEF(NAME, E, INNERT, INNER, MEMB) \
   NAME::hook_ptr NAME::to_hook_ptr(value_type &v) { return &v.INNER.MEMB; } NAME::const_hook_ptr NAME::to_hook_ptr(const value_type &v) { return &v.INNER.MEMB; } \
   NAME::pointer NAME::to_value_ptr(hook_ptr n) { return bi::get_parent_from_member<E>(bi::get_parent_from_member<INNERT>(n, &INNERT::MEMB), &E::INNER); } \
   NAME::const_pointer NAME::to_value_ptr(const_hook_ptr n) { return bi::get_parent_from_member<E>(bi::get_parent_from_member<INNERT>(n, &INNERT::MEMB), &E::INNER); }

#define ELEM_COMMON(E) friend std::size_t hash_value(const E &a) { return std::size_t(a.key) * 0x9E3779B97F4A7C15ull; }      /* (wider than 32 bits) */ uint32_t tail = 0x5EAFu; const E &key_of() const { return *this; } bool intact() const { return this->magic == 0xA11CEu && tail == 0x5EAFu; }

typedef bi::base_hook<void> no_t;
template <class T, class HO, class... O> using List = bi::list<T, HO, O...>;
#define ADDW(H, W, TYPE, LINK, NAME) { auto *p = add<E, H, W<E, TYPE > >(v, NAME); p->linked = LINK; }
#define ADDX(H, W, TYPE, LINK, UNL, SWP, NAME) { auto *p = add<E, H, W<E, TYPE > >(v, NAME); p->linked = LINK; p->unlink = UNL; p->swapn = SWP; }
#define C ,
#define HB(T) static_cast<const T &>(e)
#define HBM(T) static_cast<T &>(e)
#define SWB(T) [](E &a, E &b) { static_cast<T &>(a).swap_nodes(static_cast<T &>(b)); }
#define SWM(X) [](E &a, E &b) { a.X.swap_nodes(b.X); }

#if PART(0)
namespace p0 {
typedef LB<> L0; typedef LB<Tag<1> > L1; typedef SB<> S0; typedef SB<Tag<1> > S1; typedef YB<Tag<2> > Y0; typedef LM<> LMh; typedef SM<> SMh; typedef YM<> YMh;
struct In { long d; LMh h; char e; SMh s; };
struct E : L0, Base0, S0, L1, Y0, S1 { LMh lm; char pad; In in; SMh sm; YMh ym; virtual ~E() {} ELEM_COMMON(E) };
FUNCTOR(FL, E, in, h, LMh) FUNCTOR(FS, E, in, s, SMh)
FUNCTOR_DEF(FL, E, In, in, h) FUNCTOR_DEF(FS, E, In, in, s)
struct Cfg { typedef p0::E E; static bool ordered(int) { return false; }
   static void build(std::vector<std::unique_ptr<CB<E> > > &v) {
      ADDX(0, SeqW, bi::list<E C base_hook<L0> >, LINKED(E, HB(L0)), nullptr, SWB(L0), "list by base hook")
      ADDX(1, SeqW, bi::list<E C base_hook<L1> C constant_time_size<false> >, LINKED(E, HB(L1)), nullptr, SWB(L1), "list by tagged base hook")
      ADDX(2, SeqW, bi::list<E C member_hook<E C LMh C &E::lm> >, LINKED(E, e.lm), nullptr, SWM(lm), "list by member hook")
      ADDX(3, SeqW, bi::list<E C function_hook<FL> >, LINKED(E, e.in.h), nullptr, SWM(in.h), "list by function hook")
      ADDX(4, SeqW, bi::slist<E C base_hook<S0> >, LINKED(E, HB(S0)), nullptr, SWB(S0), "slist by base hook")
      ADDW(5, SeqW, bi::slist<E C base_hook<S1> C bi::cache_last<true> >, LINKED(E, HB(S1)), "slist by tagged base hook")
      ADDW(6, SeqW, bi::slist<E C member_hook<E C SMh C &E::sm> C bi::linear<true> >, nullptr, "linear slist by member hook")
      ADDW(7, SeqW, bi::slist<E C function_hook<FS> C constant_time_size<false> >, LINKED(E, e.in.s), "slist by function hook")
      ADDW(8, SeqW, bi::list<E C bi::any_to_list_hook<base_hook<Y0> > >, LINKED(E, HB(Y0)), "list by universal base hook")
      ADDW(8, SeqW, bi::slist<E C bi::any_to_slist_hook<base_hook<Y0> > >, LINKED(E, HB(Y0)), "slist by universal base hook")
      ADDW(9, SeqW, bi::list<E C bi::any_to_list_hook<member_hook<E C YMh C &E::ym> > >, LINKED(E, e.ym), "list by universal member hook")
      ADDW(9, SeqW, bi::slist<E C bi::any_to_slist_hook<member_hook<E C YMh C &E::ym> > C bi::cache_last<true> >, LINKED(E, e.ym), "slist by universal member hook")
   } };
}
#endif
#if PART(1)
namespace p1 {
typedef RB<> R0; typedef RM<optimize_size<true> > R1; typedef AB<Tag<1> > A0; typedef AM<> A1; typedef BB<> B0; typedef BM<> B1; typedef BB<Tag<2> > B2; typedef YB<> Y0; typedef YM<> YMh; typedef AM<optimize_size<true> > A2;
struct In { char d; A1 h; B1 s; };
struct E : R0, A0, B0, Base0, B2, Y0 { char pad; R1 rm; In in; B1 bm; YMh ym; A2 am; virtual ~E() {} ELEM_COMMON(E) };
FUNCTOR(FA, E, in, h, A1) FUNCTOR(FB, E, in, s, B1)
FUNCTOR_DEF(FA, E, In, in, h) FUNCTOR_DEF(FB, E, In, in, s)
struct Cfg { typedef p1::E E; static bool ordered(int) { return true; }
   static void build(std::vector<std::unique_ptr<CB<E> > > &v) {
      ADDX(0, AssocW, bi::set<E C base_hook<R0> >, LINKED(E, HB(R0)), nullptr, SWB(R0), "set by base hook")
      ADDX(1, AssocW, bi::multiset<E C member_hook<E C R1 C &E::rm> >, LINKED(E, e.rm), nullptr, SWM(rm), "multiset by compact member hook")
      ADDX(2, AssocW, bi::avl_set<E C base_hook<A0> C constant_time_size<false> >, LINKED(E, HB(A0)), nullptr, SWB(A0), "avl_set by tagged base hook")
      ADDX(3, AssocW, bi::avl_multiset<E C function_hook<FA> >, LINKED(E, e.in.h), nullptr, SWM(in.h), "avl_multiset by function hook")
      ADDX(4, AssocW, bi::treap_multiset<E C base_hook<B0> >, LINKED(E, HB(B0)), nullptr, nullptr, "treap_multiset by base hook")
      ADDX(5, AssocW, bi::sg_multiset<E C member_hook<E C B1 C &E::bm> >, LINKED(E, e.bm), nullptr, SWM(bm), "sg_multiset by member hook")
      ADDX(6, AssocW, bi::splay_multiset<E C base_hook<B2> >, LINKED(E, HB(B2)), nullptr, SWB(B2), "splay_multiset by tagged base hook")
      ADDX(7, AssocW, bi::bs_multiset<E C function_hook<FB> >, LINKED(E, e.in.s), nullptr, SWM(in.s), "bs_multiset by function hook")
      ADDW(8, AssocW, bi::set<E C bi::any_to_set_hook<base_hook<Y0> > >, LINKED(E, HB(Y0)), "set by universal base hook")
      ADDW(8, AssocW, bi::avl_multiset<E C bi::any_to_avl_set_hook<base_hook<Y0> > >, LINKED(E, HB(Y0)), "avl_multiset by universal base hook")
      ADDW(9, AssocW, bi::splay_set<E C bi::any_to_bs_set_hook<member_hook<E C YMh C &E::ym> > >, LINKED(E, e.ym), "splay_set by universal member hook")
      ADDW(9, AssocW, bi::multiset<E C bi::any_to_set_hook<member_hook<E C YMh C &E::ym> > >, LINKED(E, e.ym), "multiset by universal member hook")
      ADDX(10, AssocW, bi::avl_multiset<E C member_hook<E C A2 C &E::am> >, LINKED(E, e.am), nullptr, SWM(am), "avl_multiset by compact member hook")
   } };
}
#endif
#if PART(2)
namespace p2 {
typedef UB<> U0; typedef UM<store_hash<true> > U1; typedef UM<optimize_multikey<true> > U2; typedef YB<> Y0; typedef YM<> YMh; typedef LB<> L0; typedef RM<> R0; typedef UB<Tag<1> C store_hash<true> C optimize_multikey<true> > U3;
struct In { char d; U2 h; };
struct E : L0, U0, Base0, Y0, U3 { char pad; U1 um; In in; YMh ym; R0 rm; virtual ~E() {} ELEM_COMMON(E) };
FUNCTOR(FU, E, in, h, U2)
FUNCTOR_DEF(FU, E, In, in, h)
struct Cfg { typedef p2::E E; static bool ordered(int) { return false; }
   static void build(std::vector<std::unique_ptr<CB<E> > > &v) {
      ADDW(0, AssocW, bi::unordered_set<E C base_hook<U0> >, LINKED(E, HB(U0)), "unordered_set by base hook")
      ADDW(1, AssocW, bi::unordered_multiset<E C member_hook<E C U1 C &E::um> C bi::power_2_buckets<true> >, LINKED(E, e.um), "unordered_multiset by member hook")
      ADDW(2, AssocW, bi::unordered_multiset<E C function_hook<FU> >, LINKED(E, e.in.h), "unordered_multiset by function hook")
      ADDW(3, AssocW, bi::unordered_multiset<E C base_hook<U3> C bi::cache_begin<true> >, LINKED(E, HB(U3)), "unordered_multiset by tagged base hook")
      ADDW(4, SeqW, bi::list<E C bi::any_to_list_hook<base_hook<Y0> > >, LINKED(E, HB(Y0)), "list by universal base hook")
      ADDW(4, AssocW, bi::unordered_set<E C bi::any_to_unordered_set_hook<base_hook<Y0> > >, LINKED(E, HB(Y0)), "unordered_set by universal base hook")
      ADDW(4, AssocW, bi::multiset<E C bi::any_to_set_hook<base_hook<Y0> > >, LINKED(E, HB(Y0)), "multiset by universal base hook")
      ADDW(4, AssocW, bi::unordered_multiset<E C bi::any_to_unordered_set_hook<base_hook<Y0> > >, LINKED(E, HB(Y0)), "unordered_multiset by universal base hook")
      ADDW(5, SeqW, bi::slist<E C bi::any_to_slist_hook<member_hook<E C YMh C &E::ym> > >, LINKED(E, e.ym), "slist by universal member hook")
      ADDW(5, AssocW, bi::unordered_multiset<E C bi::any_to_unordered_set_hook<member_hook<E C YMh C &E::ym> > C bi::linear_buckets<true> >, nullptr, "linear unordered_multiset by universal member hook")
      ADDW(5, AssocW, bi::avl_set<E C bi::any_to_avl_set_hook<member_hook<E C YMh C &E::ym> > >, LINKED(E, e.ym), "avl_set by universal member hook")
      ADDW(6, SeqW, bi::list<E C base_hook<L0> >, LINKED(E, HB(L0)), "list by base hook")
      ADDW(7, AssocW, bi::set<E C member_hook<E C R0 C &E::rm> >, LINKED(E, e.rm), "set by member hook")
   } };
}
#endif
#if PART(3)
namespace p3 {
typedef link_mode<auto_unlink> AU; typedef constant_time_size<false> NS;
typedef LB<AU> L0; typedef LM<AU> L1; typedef SB<AU> S0; typedef SM<AU> S1; typedef RB<AU> R0; typedef RM<AU C optimize_size<true> > R1; typedef AM<AU> A1; typedef BB<AU> B0; typedef BM<AU> B1; typedef UB<AU> U0; typedef UM<AU C optimize_multikey<true> > U1;
struct E : L0, S0, Base0, R0, B0, U0 { L1 lm; S1 sm; R1 rm; A1 am; B1 bm; U1 um; B1 bm2; ELEM_COMMON(E) };
struct Cfg { typedef p3::E E; static bool ordered(int i) { return i > 3; }
   static void build(std::vector<std::unique_ptr<CB<E> > > &v) {
      ADDX(0, SeqW, bi::list<E C base_hook<L0> C NS>, LINKED(E, HB(L0)), UNLINKS(E, HBM(L0)), SWB(L0), "list by auto base hook")
      ADDX(1, SeqW, bi::list<E C member_hook<E C L1 C &E::lm> C NS>, LINKED(E, e.lm), UNLINKS(E, e.lm), SWM(lm), "list by auto member hook")
      ADDX(2, SeqW, bi::slist<E C base_hook<S0> C NS>, LINKED(E, HB(S0)), UNLINKS(E, HBM(S0)), SWB(S0), "slist by auto base hook")
      ADDX(3, SeqW, bi::slist<E C member_hook<E C S1 C &E::sm> C NS>, LINKED(E, e.sm), UNLINKS(E, e.sm), SWM(sm), "slist by auto member hook")
      ADDX(4, AssocW, bi::set<E C base_hook<R0> C NS>, LINKED(E, HB(R0)), UNLINKS(E, HBM(R0)), SWB(R0), "set by auto base hook")
      ADDX(5, AssocW, bi::multiset<E C member_hook<E C R1 C &E::rm> C NS>, LINKED(E, e.rm), UNLINKS(E, e.rm), SWM(rm), "multiset by compact auto member hook")
      ADDX(6, AssocW, bi::avl_multiset<E C member_hook<E C A1 C &E::am> C NS>, LINKED(E, e.am), UNLINKS(E, e.am), SWM(am), "avl_multiset by auto member hook")
      ADDX(7, AssocW, bi::bs_multiset<E C base_hook<B0> C NS>, LINKED(E, HB(B0)), UNLINKS(E, HBM(B0)), SWB(B0), "bs_multiset by auto base hook")
      ADDX(8, AssocW, bi::splay_multiset<E C member_hook<E C B1 C &E::bm> C NS>, LINKED(E, e.bm), UNLINKS(E, e.bm), SWM(bm), "splay_multiset by auto member hook")
      ADDX(9, AssocW, bi::unordered_set<E C base_hook<U0> C NS>, LINKED(E, HB(U0)), UNLINKS(E, HBM(U0)), nullptr, "unordered_set by auto base hook")
      ADDX(10, AssocW, bi::unordered_multiset<E C member_hook<E C U1 C &E::um> C NS>, LINKED(E, e.um), UNLINKS(E, e.um), nullptr, "unordered_multiset by auto member hook")
      ADDX(11, AssocW, bi::treap_multiset<E C member_hook<E C B1 C &E::bm2> C NS>, LINKED(E, e.bm2), UNLINKS(E, e.bm2), nullptr, "treap_multiset by auto member hook")
   } };
}
#endif
#if PART(4)
namespace p4 {
typedef void_pointer<fptr<void> > VP;
typedef LM<VP> L0; typedef SM<VP> S0; typedef RB<VP> R0; typedef AM<VP> A0; typedef BB<VP> B0; typedef BM<VP> B1; typedef UB<VP> U0; typedef UM<VP C store_hash<true> C optimize_multikey<true> > U1; typedef YM<VP> YMh; typedef LB<VP C Tag<3> > L1; typedef bi::avltree_node_traits<fptr<void>, false> TN;
struct NB : TN::node { NB() : TN::node() {} NB(const NB &) : TN::node() {} NB &operator=(const NB &) { return *this; } };
struct E : R0, Base0, B0, U0, L1, NB { S0 sm; L0 lm; A0 am; B1 bm; U1 um; YMh ym; B1 bm2; E *operator&() { return this; } virtual ~E() {} ELEM_COMMON(E) };
struct Cfg { typedef p4::E E; static bool ordered(int i) { return i > 2; }
   static void build(std::vector<std::unique_ptr<CB<E> > > &v) {
      ADDX(0, SeqW, bi::list<E C member_hook<E C L0 C &E::lm> >, LINKED(E, e.lm), nullptr, SWM(lm), "list, self-relative pointers")
      ADDX(1, SeqW, bi::list<E C base_hook<L1> >, LINKED(E, HB(L1)), nullptr, SWB(L1), "list by base hook, self-relative pointers")
      ADDX(2, SeqW, bi::slist<E C member_hook<E C S0 C &E::sm> C bi::cache_last<true> >, LINKED(E, e.sm), nullptr, nullptr, "slist, self-relative pointers")
      ADDX(3, AssocW, bi::set<E C base_hook<R0> >, LINKED(E, HB(R0)), nullptr, SWB(R0), "set, self-relative pointers")
      ADDX(4, AssocW, bi::avl_multiset<E C member_hook<E C A0 C &E::am> >, LINKED(E, e.am), nullptr, SWM(am), "avl_multiset, self-relative pointers")
      ADDX(5, AssocW, bi::treap_multiset<E C base_hook<B0> >, LINKED(E, HB(B0)), nullptr, nullptr, "treap_multiset, self-relative pointers")
      ADDX(6, AssocW, bi::sg_multiset<E C member_hook<E C B1 C &E::bm> >, LINKED(E, e.bm), nullptr, nullptr, "sg_multiset, self-relative pointers")
      ADDX(7, AssocW, bi::unordered_set<E C base_hook<U0> >, LINKED(E, HB(U0)), nullptr, nullptr, "unordered_set, self-relative pointers")
      ADDX(8, AssocW, bi::unordered_multiset<E C member_hook<E C U1 C &E::um> >, LINKED(E, e.um), nullptr, nullptr, "unordered_multiset, self-relative pointers")
      ADDX(9, SeqW, bi::list<E C bi::any_to_list_hook<member_hook<E C YMh C &E::ym> > >, LINKED(E, e.ym), nullptr, nullptr, "list by universal hook, self-relative pointers")
      ADDX(9, AssocW, bi::multiset<E C bi::any_to_set_hook<member_hook<E C YMh C &E::ym> > >, LINKED(E, e.ym), nullptr, nullptr, "multiset by universal hook, self-relative pointers")
      ADDX(9, AssocW, bi::unordered_multiset<E C bi::any_to_unordered_set_hook<member_hook<E C YMh C &E::ym> > >, LINKED(E, e.ym), nullptr, nullptr, "unordered_multiset by universal hook, self-relative pointers")
      ADDX(10, AssocW, bi::splay_multiset<E C member_hook<E C B1 C &E::bm2> >, LINKED(E, e.bm2), nullptr, nullptr, "splay_multiset, self-relative pointers")
      ADDW(11, AssocW, bi::avl_multiset<E C bi::value_traits<bi::derivation_value_traits<E C TN C bi::safe_link> > >, nullptr, "avl_multiset by derivation traits, self-relative pointers")
   } };
}
#endif
#if PART(5)
namespace p5 {
struct E;
const int SLOTS = 160;
struct Slot { int n; static std::vector<int> &pool() { static std::vector<int> f; if (f.empty()) for (int i = SLOTS; i-- > 0;) f.push_back(i); return f; } static E **owners() { static E *o[SLOTS]; return o; }
   Slot() {} ~Slot() {} };
// nodes in a table of their own, found through the state of the traits object
template <class NT, int K, bi::link_mode_type LMODE> struct Table;
typedef bi::list_node_traits<void *> LN; typedef bi::slist_node_traits<void *> SN; typedef bi::rbtree_node_traits<void *, true> RN; typedef bi::avltree_node_traits<void *, false> AN; typedef bi::tree_node_traits<void *> TN; typedef bi::unordered_node_traits<void *, true, true> UN;
struct E : LN::node, Base0, TN::node { int slot; char pad; RN::node rn; LN::node ln; SN::node sn;
   E() : LN::node(), TN::node(), rn(), ln(), sn() { take(); } E(const E &o) : LN::node(), Base0(o), TN::node(), rn(), ln(), sn() { take(); } E &operator=(const E &) { return *this; }
   void take() { slot = Slot::pool().back(); Slot::pool().pop_back(); Slot::owners()[slot] = this; }
   ~E() { Slot::owners()[slot] = nullptr; Slot::pool().push_back(slot); } ELEM_COMMON(E) };
template <class NT, int K, bi::link_mode_type LMODE> struct Table {
   typedef NT node_traits; typedef typename NT::node node; typedef typename NT::node_ptr node_ptr; typedef typename NT::const_node_ptr const_node_ptr; typedef E value_type; typedef E *pointer; typedef const E *const_pointer;
   static const bi::link_mode_type link_mode = LMODE; static const bool needs_table = true;
   static node *table() { static node t[SLOTS] = {}; return t; }
   Table() : n(nullptr), o(nullptr) {} explicit Table(int) : n(table()), o(Slot::owners()) {}
   node_ptr to_node_ptr(E &v) const { return n + v.slot; } const_node_ptr to_node_ptr(const E &v) const { return n + v.slot; }
   pointer to_value_ptr(node_ptr p) const { return o[p - n]; } const_pointer to_value_ptr(const_node_ptr p) const { return o[p - n]; }
   node *n; E **o;
};
template <class VT> using VTr = bi::value_traits<VT>;
struct Cfg { typedef p5::E E; static bool ordered(int) { return true; }
   static void build(std::vector<std::unique_ptr<CB<E> > > &v) {
      ADDW(0, SeqW, bi::list<E C VTr<Table<LN C 0 C bi::normal_link> > >, nullptr, "list by stateful traits")
      ADDW(1, SeqW, bi::slist<E C VTr<Table<SN C 1 C bi::safe_link> > C bi::cache_last<true> >, nullptr, "slist by stateful traits")
      ADDW(2, AssocW, bi::multiset<E C VTr<Table<RN C 2 C bi::safe_link> > >, nullptr, "multiset by stateful traits")
      ADDW(3, AssocW, bi::avl_set<E C VTr<Table<AN C 3 C bi::normal_link> > >, nullptr, "avl_set by stateful traits")
      ADDW(4, AssocW, bi::treap_multiset<E C VTr<Table<TN C 4 C bi::normal_link> > >, nullptr, "treap_multiset by stateful traits")
      ADDW(5, AssocW, bi::sg_set<E C VTr<Table<TN C 5 C bi::normal_link> > >, nullptr, "sg_set by stateful traits")
      ADDW(6, AssocW, bi::splay_multiset<E C VTr<Table<TN C 6 C bi::safe_link> > >, nullptr, "splay_multiset by stateful traits")
      ADDW(7, AssocW, bi::unordered_multiset<E C VTr<Table<UN C 7 C bi::normal_link> > >, nullptr, "unordered_multiset by stateful traits")
      ADDW(8, SeqW, bi::list<E C VTr<bi::derivation_value_traits<E C LN C bi::normal_link> > >, nullptr, "list by derivation traits")
      ADDW(9, AssocW, bi::bs_multiset<E C VTr<bi::derivation_value_traits<E C TN C bi::safe_link> > >, nullptr, "bs_multiset by derivation traits")
      ADDW(10, AssocW, bi::set<E C VTr<bi::member_value_traits<E C RN C &E::rn C bi::normal_link> > >, nullptr, "set by member traits")
      ADDW(11, SeqW, bi::list<E C VTr<bi::member_value_traits<E C LN C &E::ln C bi::safe_link> > >, nullptr, "list by member traits")
      ADDW(12, SeqW, bi::slist<E C VTr<bi::member_value_traits<E C SN C &E::sn C bi::normal_link> > >, nullptr, "slist by member traits")
   } };
}
#endif
#if PART(6)
namespace p6 {
// the element is its own node, for several kinds of node at once
struct E : Base0 { E *nx = nullptr, *pv = nullptr, *sl = nullptr, *pa = nullptr, *le = nullptr, *ri = nullptr, *hn = nullptr; int col = 0; E *pa2 = nullptr, *le2 = nullptr, *ri2 = nullptr; int bal = 0; E() {} E(const E &o) : Base0(o) {} E &operator=(const E &) { return *this; } LM<link_mode<normal_link> > lm; UM<link_mode<normal_link> C store_hash<true> > um; RM<link_mode<normal_link> C optimize_size<true> > rm; BM<link_mode<normal_link> > bm; SM<link_mode<normal_link> > sm; ELEM_COMMON(E) };
#define NODEPTRS typedef E node; typedef E *node_ptr; typedef const E *const_node_ptr;
struct LT { NODEPTRS static E *get_next(const E *n) { return n->nx; } static void set_next(E *n, E *x) { n->nx = x; } static E *get_previous(const E *n) { return n->pv; } static void set_previous(E *n, E *x) { n->pv = x; } };
struct ST { NODEPTRS static E *get_next(const E *n) { return n->sl; } static void set_next(E *n, E *x) { n->sl = x; } };
struct RT { NODEPTRS typedef int color; static E *get_parent(const E *n) { return n->pa; } static void set_parent(E *n, E *x) { n->pa = x; } static E *get_left(const E *n) { return n->le; } static void set_left(E *n, E *x) { n->le = x; } static E *get_right(const E *n) { return n->ri; } static void set_right(E *n, E *x) { n->ri = x; }
   static color get_color(const E *n) { return n->col; } static void set_color(E *n, color c) { n->col = c; } static color black() { return 7; } static color red() { return 3; } };
struct AT { NODEPTRS typedef int balance; static E *get_parent(const E *n) { return n->pa2; } static void set_parent(E *n, E *x) { n->pa2 = x; } static E *get_left(const E *n) { return n->le2; } static void set_left(E *n, E *x) { n->le2 = x; } static E *get_right(const E *n) { return n->ri2; } static void set_right(E *n, E *x) { n->ri2 = x; }
   static balance get_balance(const E *n) { return n->bal; } static void set_balance(E *n, balance c) { n->bal = c; } static balance negative() { return 11; } static balance zero() { return 12; } static balance positive() { return 20; } };
template <class NT, bi::link_mode_type M> using TR = bi::value_traits<bi::trivial_value_traits<NT, M> >;
struct Cfg { typedef p6::E E; static bool ordered(int) { return true; }
   static void build(std::vector<std::unique_ptr<CB<E> > > &v) {
      ADDW(0, SeqW, bi::list<E C TR<LT C normal_link> >, nullptr, "list of nodes")
      ADDW(1, SeqW, bi::slist<E C TR<ST C safe_link> >, nullptr, "slist of nodes")
      ADDW(2, AssocW, bi::multiset<E C TR<RT C normal_link> >, nullptr, "multiset of nodes")
      ADDW(3, AssocW, bi::avl_multiset<E C TR<AT C safe_link> >, nullptr, "avl_multiset of nodes")
      ADDW(4, SeqW, bi::list<E C member_hook<E C LM<link_mode<normal_link> > C &E::lm> >, nullptr, "list by unchecked member hook")
      ADDW(5, AssocW, bi::unordered_multiset<E C member_hook<E C UM<link_mode<normal_link> C store_hash<true> > C &E::um> C bi::cache_begin<true> >, nullptr, "unordered_multiset by unchecked member hook")
      ADDW(6, AssocW, bi::set<E C member_hook<E C RM<link_mode<normal_link> C optimize_size<true> > C &E::rm> >, nullptr, "set by unchecked compact member hook")
      ADDW(7, AssocW, bi::splay_set<E C member_hook<E C BM<link_mode<normal_link> > C &E::bm> >, nullptr, "splay_set by unchecked member hook")
      ADDW(8, SeqW, bi::slist<E C member_hook<E C SM<link_mode<normal_link> > C &E::sm> C bi::linear<true> C bi::cache_last<true> >, nullptr, "linear slist by unchecked member hook")
   } };
}
#endif

#if PART(7)
namespace p7 {
// elements that contain containers of elements of their own type (which is still incomplete where the containers are declared)
struct R;
typedef LB<Tag<0> > HL; typedef SB<Tag<1> > HS; typedef RB<Tag<2> > HM; typedef AB<Tag<3>, link_mode<auto_unlink> > HA; typedef UB<Tag<4>, store_hash<true> > HU; typedef BB<Tag<5> > HT; typedef LB<Tag<6>, link_mode<auto_unlink> > HQ;
struct FH { typedef LM<> hook_type; typedef hook_type *hook_ptr; typedef const hook_type *const_hook_ptr; typedef R value_type; typedef R *pointer; typedef const R *const_pointer;
   static hook_ptr to_hook_ptr(R &v); static const_hook_ptr to_hook_ptr(const R &v); static pointer to_value_ptr(hook_ptr n); static const_pointer to_value_ptr(const_hook_ptr n); };
typedef bi::list<R, base_hook<HL> > C0; typedef bi::list<R, function_hook<FH> > C1; typedef bi::slist<R, base_hook<HS>, bi::cache_last<true> > C2; typedef bi::multiset<R, base_hook<HM> > C3;
typedef bi::avl_multiset<R, base_hook<HA>, constant_time_size<false> > C4; typedef bi::unordered_multiset<R, base_hook<HU> > C5; typedef bi::treap_multiset<R, base_hook<HT> > C6; typedef bi::list<R, base_hook<HQ>, constant_time_size<false> > C7;
const int NK = 8;
struct R : HL, HS, HM, HA, HU, HT, HQ {
   int key = 0, pri = 0; unsigned id = 0; R *par[NK] = {}; std::vector<R *> ch[NK]; bi::unordered_bucket<base_hook<HU> >::type b[3]; LM<> mh;
   C0 k0; C1 k1; C2 k2; C3 k3; C4 k4; C5 k5; C6 k6; C7 k7; long tail = 0x5ca1ab1e;
   R() : k5(C5::bucket_traits(b, 3)) {}
   friend bool operator<(const R &x, const R &y) { return x.key < y.key; } friend bool operator>(const R &x, const R &y) { return x.key > y.key; } friend bool operator==(const R &x, const R &y) { return x.key == y.key; }
   friend std::size_t hash_value(const R &x) { return size_t(x.key) / 2; } friend bool priority_order(const R &x, const R &y) { return x.pri < y.pri; } };
inline FH::hook_ptr FH::to_hook_ptr(R &v) { return &v.mh; } inline FH::const_hook_ptr FH::to_hook_ptr(const R &v) { return &v.mh; }
inline R *FH::to_value_ptr(hook_ptr n) { return bi::get_parent_from_member<R>(n, &R::mh); } inline const R *FH::to_value_ptr(const_hook_ptr n) { return bi::get_parent_from_member<R>(n, &R::mh); }
static const char *kname[NK] = {"list", "list by function hook", "slist", "multiset", "self-unlinking avl_multiset", "unordered_multiset", "treap_multiset", "self-unlinking list"};
template <int K> struct I { static const int k = K; static const bool seq = K <= 2 || K == 7, tree = K == 3 || K == 4 || K == 6, hashed = K == 5, autou = K == 4 || K == 7; };
template <class F> void with(int k, F f) { switch (k) { case 0: return f(I<0>(), &R::k0); case 1: return f(I<1>(), &R::k1); case 2: return f(I<2>(), &R::k2); case 3: return f(I<3>(), &R::k3); case 4: return f(I<4>(), &R::k4); case 5: return f(I<5>(), &R::k5); case 6: return f(I<6>(), &R::k6); default: return f(I<7>(), &R::k7); } }
inline bool linked(const R &r, int k) { switch (k) { case 0: return r.HL::is_linked(); case 1: return r.mh.is_linked(); case 2: return r.HS::is_linked(); case 3: return r.HM::is_linked(); case 4: return r.HA::is_linked(); case 5: return r.HU::is_linked(); case 6: return r.HT::is_linked(); default: return r.HQ::is_linked(); } }
struct Forest {
   std::vector<R *> v; unsigned next = 0;
   static void run(const Case &c) { Forest f; f.go(c); }
   R *fresh(int key) { R *r = new R; r->key = key; r->id = next++; r->pri = int(r->id * 7919u % 11); v.push_back(r); return r; }
   void madd(int k, R *p, R *c, size_t pos) { auto &m = p->ch[k]; bool seq = k <= 2 || k == 7; m.insert(seq ? m.begin() + long(pos) : std::upper_bound(m.begin(), m.end(), c, [](R *x, R *y) { return x->key < y->key; }), c); c->par[k] = p; }
   void mrem(int k, R *c) { auto &m = c->par[k]->ch[k]; m.erase(std::find(m.begin(), m.end(), c)); c->par[k] = nullptr; }
   void take(int k, R *c, bool self) { R *p = c->par[k];
      with(k, [&](auto i, auto m) { auto &l = p->*m; if constexpr (decltype(i)::autou) { if (self) { if constexpr (decltype(i)::k == 4) c->HA::unlink(); else c->HQ::unlink(); return; } } l.erase(l.iterator_to(*c)); }); mrem(k, c); }
   void check() {
      for (R *r : v) { VF_CHECK(r->tail == 0x5ca1ab1e, "element #%u was overwritten", r->id);
         for (int k = 0; k < NK; ++k) { VF_CHECK(linked(*r, k) == (r->par[k] != nullptr), "element #%u: its %s hook says %d", r->id, kname[k], linked(*r, k));
            with(k, [&](auto i, auto m) { auto &l = r->*m; auto &w = r->ch[k]; size_t n = 0; std::vector<R *> s;
               for (R &e : l) { s.push_back(&e); if (++n > v.size()) break; }
               if (decltype(i)::hashed) { std::vector<R *> a(s), b(w); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECK(a == b, "the %s in element #%u does not hold what it should", kname[k], r->id); }
               else VF_CHECK(s == w, "the %s in element #%u is not the sequence it should be", kname[k], r->id);
               VF_CHECK(l.size() == w.size() && l.empty() == w.empty(), "the %s in element #%u: size %zu, not %zu", kname[k], r->id, size_t(l.size()), w.size());
               typedef typename std::remove_reference<decltype(l)>::type L; if constexpr (!decltype(i)::hashed) { VF_CHECK(&L::container_from_end_iterator(l.end()) == &l, "container_from_end_iterator of the %s in #%u", kname[k], r->id); }
               if constexpr (decltype(i)::tree) { for (R *e : w) VF_CHECK(&L::container_from_iterator(l.iterator_to(*e)) == &l, "container_from_iterator of the %s in #%u", kname[k], r->id); }
               if (w.size() > g().maxsize) g().maxsize = w.size(); }); } } }
   void kill(R *r, bool self) { for (int k = 0; k < NK; ++k) { if (r->par[k]) { if ((k == 4 || k == 7) && self) mrem(k, r); else take(k, r, false); } for (R *c : r->ch[k]) c->par[k] = nullptr; } v.erase(std::find(v.begin(), v.end(), r)); delete r; }
   void go(const Case &cs) {
      int range = 1 + int(cs.cfg[1] % 12); size_t n0 = 2 + cs.cfg[2] % 14; for (size_t i = 0; i < n0; ++i) fresh(int((cs.cfg[3] * (i + 1) * 2654435761u >> 8) % unsigned(range)));
      int no = -1;
      for (const Op &o : cs.ops) { g().opi = ++no; int k = int(o.a[0] % NK); R *a = v[o.a[1] % v.size()], *b = v[o.a[2] % v.size()]; auto &ma = a->ch[k];
         switch (o.k) {
         case INS: case REORDER: { if (b->par[k]) { if (o.a[4] & 1) break; take(k, b, (o.a[4] & 2) != 0); } size_t pos = o.a[3] % (ma.size() + 1); tr("#%u (key %d) into the %s of #%u\n", b->id, b->key, kname[k], a->id);
            with(k, [&](auto i, auto m) { auto &l = a->*m; if constexpr (decltype(i)::seq) l.insert(std::next(l.begin(), long(pos)), *b); else l.insert(*b); }); madd(k, a, b, pos); hit(o.k, uint64_t(k), ma.size() * 50 + pos); break; }
         case ERA: case UNLINK: if (b->par[k]) { tr("#%u out of the %s of #%u\n", b->id, kname[k], b->par[k]->id); take(k, b, o.k == UNLINK); hit(o.k, uint64_t(k), b->id); } break;
         case TRANSFER: case TAKE_ENDS: { if (a == b) break; std::vector<R *> t = b->ch[k]; tr("all of the %s of #%u to #%u\n", kname[k], b->id, a->id);
            with(k, [&](auto i, auto m) { auto &l = a->*m, &x = b->*m; if constexpr (decltype(i)::seq) l.splice(l.end(), x); else if constexpr (decltype(i)::hashed) { while (!x.empty()) { R &e = *x.begin(); x.erase(x.begin()); l.insert(e); } } else l.merge(x); }); b->ch[k].clear(); for (R *e : t) madd(k, a, e, ma.size()); hit(o.k, uint64_t(k), ma.size() * 50 + t.size()); break; }
         case SWAP: if (k == 5) break; tr("exchange the %ss of #%u and #%u\n", kname[k], a->id, b->id); with(k, [&](auto, auto m) { (a->*m).swap(b->*m); }); if (a != b) { std::swap(ma, b->ch[k]); for (R *e : ma) e->par[k] = a; for (R *e : b->ch[k]) e->par[k] = b; } hit(o.k, uint64_t(k), ma.size() * 50 + b->ch[k].size()); break;
         case MOVE: if (k == 5) break; tr("the %s of #%u is moved away and back\n", kname[k], a->id); with(k, [&](auto, auto m) { auto &l = a->*m; typename std::remove_reference<decltype(l)>::type t(boost::move(l)); VF_CHECK(l.empty() && t.size() == ma.size(), "moving the %s of #%u", kname[k], a->id); l = boost::move(t); }); hit(o.k, uint64_t(k), ma.size()); break;
         case CLEAR: case ERA_R: { size_t p = o.a[3] % (ma.size() + 1), q = p + o.a[4] % (ma.size() - p + 1); if (o.k == CLEAR) { p = 0; q = ma.size(); } if (k == 5 && o.k == ERA_R) break; tr("erase %zu..%zu of the %s of #%u\n", p, q, kname[k], a->id);
            with(k, [&](auto, auto m) { auto &l = a->*m; if (o.k == CLEAR) l.clear(); else l.erase(std::next(l.begin(), long(p)), std::next(l.begin(), long(q))); }); for (size_t i = p; i < q; ++i) ma[i]->par[k] = nullptr; ma.erase(ma.begin() + long(p), ma.begin() + long(q)); hit(o.k, uint64_t(k), p * 50 + q); break; }
         case NEWEL: if (v.size() < 20) { fresh(int(o.a[2] % unsigned(range))); hit(o.k, v.size()); } break;
         case DELEL: if (v.size() > 2) { tr("destroy #%u\n", b->id); size_t n = 0; for (auto &z : b->ch) n += z.size(); kill(b, (o.a[4] & 1) != 0); hit(o.k, v.size(), n); } break;
         default: continue; }
         check(); }
      while (!v.empty()) kill(v.back(), false);
   }
};
}
#endif

static void profile(const std::string &pr, Profile &p) {
   p.mask = O_ALL;
   p.put({{INS, 120}, {ERA, 25}, {ERA_R, 8}, {TAKE_ENDS, 8}, {REORDER, 10}, {FILTER, 4}, {SWAP, 4}, {TRANSFER, 5}, {CLEAR, 1}, {LOOKUP, 10}, {CLONE, 1}, {MOVE, 3}, {NEWEL, 6}, {DELEL, 5}, {UNLINK, 12}, {COPYEL, 3}, {HOOKSWAP, 8}, {REPLACE, 4}});
   p.focus.clear();
   if (pr == "C08") p.only_cfg_name = "auto";
}
int main(int argc, char **argv) {
#if PART(0)
   Reg<0>::add<Multi<p0::Cfg> >("lists with every kind of hook");
#endif
#if PART(1)
   Reg<1>::add<Multi<p1::Cfg> >("trees with every kind of hook");
#endif
#if PART(2)
   Reg<2>::add<Multi<p2::Cfg> >("hashed and universal hooks");
#endif
#if PART(3)
   Reg<3>::add<Multi<p3::Cfg> >("auto-unlink hooks of every container");
#endif
#if PART(4)
   Reg<4>::add<Multi<p4::Cfg> >("self-relative pointers in every container");
#endif
#if PART(5)
   Reg<5>::add<Multi<p5::Cfg> >("custom value traits");
#endif
#if PART(6)
   Reg<6>::add<Multi<p6::Cfg> >("elements that are nodes, unchecked hooks");
#endif
#if PART(7)
   Reg<7>::add<p7::Forest>("elements that contain containers of themselves");
#endif
   engine() = {"multi", profile};
   return harness_main(argc, argv);
}
