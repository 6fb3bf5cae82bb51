// The containers' own integrity check: silent on every valid container, and it reports every damage that a
// reference predicate sees; with the user's additional checks called once per element on its children's results.
#define BOOST_INTRUSIVE_INVARIANT_ASSERT_INCLUDE "vf_inv.hpp"
#define BOOST_INTRUSIVE_INVARIANT_ASSERT VF_INV
#include "elem.hpp"
#include <memory>
#include <new>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/any_hook.hpp>
using namespace vf;
template <int P> struct Reg { template <class R> static void add(const char *n) { if (VF_PART == P || VF_PART < 0) configs().push_back(Config{n, &R::run}); } };
#define PART(n) (VF_PART == n || VF_PART < 0)
#define C ,

struct Reported { const char *expr; };
static bool window = false; static std::string last_report;
namespace vf {
void inv_assert(bool ok, const char *expr) {
   if (ok) return;
   VF_CHECK(window, "the invariant assertion '%s' failed in a correct use", expr);
   window = false; throw Reported{expr};
}
template <class H> bool priority_order(const ElemB<H> &a, const ElemB<H> &b) { return a.pri < b.pri; }
template <class H> bool priority_order(const ElemM<H> &a, const ElemM<H> &b) { return a.pri < b.pri; }
}
template <class F> static bool reports(F f) {
   window = true; bool r = false;
   try { f(); } catch (const Reported &x) { r = true; last_report = x.expr; }
   window = false; return r;
}
enum { C_INSERT = 1, C_ERASE, C_CLEAR, C_SWAP, C_MOVE, C_ORDER, C_RANGE, C_META, C_LINK, C_GONE, C_EXTRA, C_MISC, C_BIG };
enum { MAXE = 48 };
static const char *const opname[] = {"?", "insert", "erase", "clear", "swap", "move", "order", "range", "damage data", "damage link", "element behind the back", "additional check", "merge", "insert several"};
static void trop(const Op &o, size_t a, size_t b) { tr("%s(%u %u %u %u) sizes %zu %zu; ", opname[o.k], o.a[0] & 1, o.a[1] % 100, o.a[2] % 100, o.a[3] % 100, a, b); }
enum { RB, AVL, BS, SG, SPLAY, TREAP };

// ---- lists ------------------------------------------------------------------------
template <class T, class K, bool CTS> struct ListW {
   typedef typename K::node_traits nt; typedef typename K::node_ptr np; typedef typename K::node node;
   static void run(const Case &cs) { ListW w; w.go(cs); }
   std::vector<std::unique_ptr<T>> e; K k[2]; std::vector<T *> m[2];
   node *hdr(int i) { return raw(k[i].end().pointed_node()); }
   node *at(int i, size_t p) { auto it = k[i].begin(); std::advance(it, p); return raw(it.pointed_node()); }     // p == size: the header
   void go(const Case &cs) {
      for (int i = 0; i < MAXE; ++i) { e.emplace_back(new T); e[i]->id = i; e[i]->key = int((cs.cfg[1] >> (i % 20)) % 30); }
      all("at the start"); int j = -1;
      for (const Op &o : cs.ops) { g().opi = ++j; trop(o, m[0].size(), m[1].size()); step(o); all("after a correct operation"); }
      for (auto &x : k) x.clear();
   }
   void all(const char *w) {
      for (int i = 0; i < 2; ++i) {
         const K &c = k[i]; VF_CHECK(!reports([&] { c.check(); }), "check() reported '%s' for a valid list %s", last_report.c_str(), w);
         size_t n = 0; for (auto &x : c) { VF_CHECK(n < m[i].size() && m[i][n] == &x, "the list is not what it should be"); ++n; } VF_CHECK(n == m[i].size(), "the list is not what it should be");
         g().maxsize = std::max(g().maxsize, n);
      }
   }
   T *spare(uint32_t a) { for (size_t t = 0; t < e.size(); ++t) { T *x = e[(a + t) % e.size()].get(); if (x->where < 0) return x; } return 0; }
   // expect: what check() has to do now
   void expect(int i, bool bad, const char *what, size_t a, size_t b) {
      const K &c = k[i]; bool r = reports([&] { c.check(); });
      tr("[%s: %s] ", what, r ? "reported" : "silent"); VF_CHECK(r == bad, "check() %s after %s (%zu %zu) in a list of %zu%s%s", r ? "reported a problem" : "reported nothing", what, a, b, m[i].size(), r ? ": " : "", r ? last_report.c_str() : "");
      vf::stat((std::string(bad ? "reported: " : "not reported: ") + what).c_str());
   }
   void step(const Op &o) {
      int i = int(o.a[0] & 1); auto &v = m[i]; size_t n = v.size();
      switch (o.k) {
      case C_BIG: for (int t = 0; t < 6; ++t) ins(i, o.a[1] + t * 17, o.a[2] + t); hit(int(o.k), n); break;
      case C_INSERT: ins(i, o.a[1], o.a[2]); hit(int(o.k), n); break;
      case C_ERASE: if (n) { size_t p = o.a[1] % n; k[i].erase(k[i].iterator_to(*v[p])); v[p]->where = -1; v.erase(v.begin() + p); hit(int(o.k), n, p); } break;
      case C_CLEAR: if (o.a[1] % 4 == 0) { k[i].clear(); for (T *x : v) x->where = -1; v.clear(); hit(int(o.k), n); } break;
      case C_SWAP: k[0].swap(k[1]); m[0].swap(m[1]); hit(int(o.k), n); break;
      case C_MOVE: { K t(std::move(k[i])); k[i] = std::move(t); hit(int(o.k), n); break; }
      case C_ORDER: if (o.a[1] & 1) { k[i].reverse(); std::reverse(v.begin(), v.end()); } else { k[i].sort(); std::stable_sort(v.begin(), v.end(), [](T *a, T *b) { return a->key < b->key; }); } hit(int(o.k), n); break;
      case C_RANGE: { auto &u = m[1 - i]; size_t p = o.a[1] % (n + 1); k[i].splice(n == p ? k[i].end() : k[i].iterator_to(*v[p]), k[1 - i]); v.insert(v.begin() + p, u.begin(), u.end()); u.clear(); hit(int(o.k), n, p); break; }
      case C_META: case C_LINK: {
         // a link of one of the nodes (or of the header) does not point where it should
         size_t p = o.a[1] % (n + 1); node *x = at(i, p); node *y = 0; size_t q = o.a[3] % (n + 3);
         if (q <= n) y = at(i, q); else if (q == n + 1) y = hdr(1 - i); else y = 0;
         np yp = y ? bi::pointer_traits<np>::pointer_to(*y) : np(), xp = bi::pointer_traits<np>::pointer_to(*x);
         if (o.a[2] & 1) {
            np old = nt::get_previous(xp); if (old == yp) break;
            nt::set_previous(xp, yp); expect(i, true, y ? "a wrong backward link" : "a null backward link", p, q); nt::set_previous(xp, old);
         } else {
            np old = nt::get_next(xp); if (old == yp) break;
            nt::set_next(xp, yp); expect(i, true, y ? "a wrong forward link" : "a null forward link", p, q); nt::set_next(xp, old);
         }
         hit(int(o.k), n, p * 64 + q); break; }
      case C_GONE: {
         // an element taken out (or put in) without the container knowing
         typedef typename K::node_algorithms na;
         if (o.a[2] & 1) { if (!n) break; size_t p = o.a[1] % n; np x = bi::pointer_traits<np>::pointer_to(*at(i, p)), nx = nt::get_next(x); na::unlink(x); expect(i, CTS, "an element that left behind the container's back", p, 0); na::link_before(nx, x); hit(int(o.k), n, p); }
         else { T *s = spare(o.a[3]); if (!s) break; size_t p = o.a[1] % (n + 1); np x = bi::pointer_traits<np>::pointer_to(*at(i, p)), y = K::value_traits::to_node_ptr(*s); na::link_before(x, y); expect(i, CTS, "an element that entered behind the container's back", p, 0); na::unlink(y); na::init(y); hit(int(o.k), n, p + 100); }
         break; }
      default: break;
      }
   }
   void ins(int i, uint32_t a, uint32_t b) { T *s = spare(a); if (!s) return; auto &v = m[i]; size_t p = b % (v.size() + 1); k[i].insert(p == v.size() ? k[i].end() : k[i].iterator_to(*v[p]), *s); v.insert(v.begin() + p, s); s->where = i; }
};

// ---- singly linked lists ------------------------------------------------------------
template <class T, class K, bool CTS, bool LAST, bool LIN> struct SlistW {
   typedef typename K::node_traits nt; typedef typename K::node_ptr np; typedef typename K::node node;
   static void run(const Case &cs) { SlistW w; w.go(cs); }
   std::vector<std::unique_ptr<T>> e; K k[2]; std::vector<T *> m[2];
   node *hdr(int i) { return raw(k[i].before_begin().pointed_node()); }
   node *at(int i, size_t p) { auto it = k[i].before_begin(); std::advance(it, p); return raw(it.pointed_node()); }     // 0: the header
   static np P(node *n) { return n ? bi::pointer_traits<np>::pointer_to(*n) : np(); }
   void go(const Case &cs) {
      for (int i = 0; i < MAXE; ++i) { e.emplace_back(new T); e[i]->id = i; e[i]->key = int((cs.cfg[1] >> (i % 20)) % 30); }
      all("at the start"); int j = -1;
      for (const Op &o : cs.ops) { g().opi = ++j; trop(o, m[0].size(), m[1].size()); step(o); all("after a correct operation"); }
      for (auto &x : k) x.clear();
   }
   void all(const char *w) {
      for (int i = 0; i < 2; ++i) {
         const K &c = k[i]; VF_CHECK(!reports([&] { c.check(); }), "check() reported '%s' for a valid list of %zu %s", last_report.c_str(), m[i].size(), w);
         size_t n = 0; for (auto &x : c) { VF_CHECK(n < m[i].size() && m[i][n] == &x, "the list is not what it should be"); ++n; } VF_CHECK(n == m[i].size(), "the list is not what it should be");
         g().maxsize = std::max(g().maxsize, n);
      }
   }
   T *spare(uint32_t a) { for (size_t t = 0; t < e.size(); ++t) { T *x = e[(a + t) % e.size()].get(); if (x->where < 0) return x; } return 0; }
   // is the list, as it now is, what a list of sz elements with this last one should be?
   bool bad(int i, size_t sz, node *last) {
      node *h = hdr(i), *x = h; size_t n = 0;
      for (;;) {
         node *y = raw(nt::get_next(P(x)));
         if (LIN ? y == h : y == 0) return true;
         if (LIN ? y == 0 : y == h) break;
         x = y; if (++n > 4 * MAXE) fail("harness: endless list");
      }
      return (CTS && n != sz) || (LAST && n && x != last);
   }
   void expect(int i, const char *what, size_t a, size_t b, bool known = false) {
      size_t n = m[i].size(); bool bd = bad(i, n, n ? last_of(i) : hdr(i)); if (known) VF_CHECK(bd, "harness: %s is no damage", what);
      const K &c = k[i]; bool r = reports([&] { c.check(); });
      tr("[%s: %s] ", what, r ? "reported" : "silent"); VF_CHECK(r == bd, "check() %s after %s (%zu %zu) in a list of %zu%s%s", r ? "reported a problem" : "reported nothing", what, a, b, n, r ? ": " : "", r ? last_report.c_str() : "");
      vf::stat((std::string(bd ? "reported: " : "not reported: ") + what).c_str());
   }
   node *last_of(int i) { return raw(K::value_traits::to_node_ptr(*m[i].back())); }
   typename K::iterator before(int i, size_t p) { return p ? k[i].iterator_to(*m[i][p - 1]) : k[i].before_begin(); }
   void step(const Op &o) {
      int i = int(o.a[0] & 1); auto &v = m[i]; size_t n = v.size();
      switch (o.k) {
      case C_BIG: for (int t = 0; t < 6; ++t) ins(i, o.a[1] + t * 17, o.a[2] + t); hit(int(o.k), n); break;
      case C_INSERT: ins(i, o.a[1], o.a[2]); hit(int(o.k), n); break;
      case C_ERASE: if (n) { size_t p = o.a[1] % n; k[i].erase_after(before(i, p)); v[p]->where = -1; v.erase(v.begin() + p); hit(int(o.k), n, p); } break;
      case C_CLEAR: if (o.a[1] % 4 == 0) { k[i].clear(); for (T *x : v) x->where = -1; v.clear(); hit(int(o.k), n); } break;
      case C_SWAP: k[0].swap(k[1]); m[0].swap(m[1]); hit(int(o.k), n); break;
      case C_MOVE: { K t(std::move(k[i])); k[i] = std::move(t); hit(int(o.k), n); break; }
      case C_ORDER: if (o.a[1] & 1) { k[i].reverse(); std::reverse(v.begin(), v.end()); } else { k[i].sort(); std::stable_sort(v.begin(), v.end(), [](T *a, T *b) { return a->key < b->key; }); } hit(int(o.k), n); break;
      case C_RANGE: { auto &u = m[1 - i]; size_t p = o.a[1] % (n + 1); k[i].splice_after(before(i, p), k[1 - i]); v.insert(v.begin() + p, u.begin(), u.end()); u.clear(); hit(int(o.k), n, p); break; }
      case C_META: case C_LINK: {
         size_t p = o.a[1] % (n + 1); np x = P(at(i, p)), old = nt::get_next(x); uint32_t z = o.a[2] % 4;
         if (z == 0) { nt::set_next(x, np()); expect(i, "a null link", p, 0); }
         else if (z == 1) { nt::set_next(x, P(hdr(i))); expect(i, "a link to the header", p, 0); }
         else { size_t q = p + 1 + o.a[3] % (n - p + 1); if (q > n) break; nt::set_next(x, P(at(i, q))); expect(i, "a link that skips elements", p, q); }
         nt::set_next(x, old); hit(int(o.k), n, p * 4 + z); break; }
      case C_GONE: {
         T *s = spare(o.a[3]); if (!s) break; size_t p = o.a[1] % (n + 1); np x = P(at(i, p)), old = nt::get_next(x), y = K::value_traits::to_node_ptr(*s), yo = nt::get_next(y);
         nt::set_next(x, y); nt::set_next(y, old); expect(i, p == n ? "an element appended behind the container's back" : "an element inserted behind the container's back", p, 0);
         nt::set_next(x, old); nt::set_next(y, yo); hit(int(o.k), n, p); break; }
      default: break;
      }
   }
   void ins(int i, uint32_t a, uint32_t b) { T *s = spare(a); if (!s) return; auto &v = m[i]; size_t p = b % (v.size() + 1); k[i].insert_after(before(i, p), *s); v.insert(v.begin() + p, s); s->where = i; }
};

// ---- ordered containers -----------------------------------------------------------
template <class T, class K, int KIND, bool CTS, bool UNIQ> struct TreeW {
   typedef typename K::node_traits nt; typedef typename K::node_ptr np; typedef typename K::const_node_ptr cnp; typedef typename K::node node; typedef typename K::value_traits vt;
   static void run(const Case &cs) { TreeW w; w.go(cs); }
   std::vector<std::unique_ptr<T>> e; std::unique_ptr<K> k[2]; std::vector<T *> in[2];
   static np P(const node *n) { return n ? bi::pointer_traits<np>::pointer_to(*const_cast<node *>(n)) : np(); }
   static node *L(node *n) { return raw(nt::get_left(P(n))); } static node *R(node *n) { return raw(nt::get_right(P(n))); } static node *U(node *n) { return raw(nt::get_parent(P(n))); }
   node *hdr(int i) { return raw(k[i]->end().pointed_node()); }
   static T &val(const node *n) { return *raw(vt::to_value_ptr(P(n))); }
   static node *nd(T *x) { return raw(vt::to_node_ptr(*x)); }
   static int gm(node *n) { if constexpr (KIND == RB) return nt::get_color(P(n)) == nt::black() ? 1 : 0; else if constexpr (KIND == AVL) { auto b = nt::get_balance(P(n)); return b == nt::negative() ? -1 : b == nt::positive() ? 1 : 0; } else return 0; }
   static void sm(node *n, int v) { if constexpr (KIND == RB) nt::set_color(P(n), v ? nt::black() : nt::red()); else if constexpr (KIND == AVL) nt::set_balance(P(n), v < 0 ? nt::negative() : v > 0 ? nt::positive() : nt::zero()); (void)n; (void)v; }
   int range;
   void go(const Case &cs) {
      for (int i = 0; i < 2; ++i) k[i].reset(new K);
      range = int(3 + cs.cfg[1] % 40);
      for (int i = 0; i < MAXE; ++i) { e.emplace_back(new T); e[i]->id = i; e[i]->key = int(((i + 3) * (cs.cfg[2] | 1) >> 5) % unsigned(range)); e[i]->pri = int(((i + 9) * (cs.cfg[3] | 1) >> 7) % 20); }
      all("at the start"); int j = -1;
      for (const Op &o : cs.ops) { g().opi = ++j; trop(o, in[0].size(), in[1].size()); step(o); all("after a correct operation"); }
      for (auto &x : k) x->clear();
   }
   void all(const char *w) {
      for (int i = 0; i < 2; ++i) {
         const K &c = *k[i]; VF_CHECK(!reports([&] { c.check(); }), "check() reported '%s' for a valid container %s", last_report.c_str(), w);
         VF_CHECK(!bad(i), "the container %s is not valid: %s", w, why.c_str());
         size_t n = 0; for (auto &x : c) { VF_CHECK(x.where == i, "the container is not what it should be"); ++n; } VF_CHECK(n == in[i].size(), "the container is not what it should be");
         g().maxsize = std::max(g().maxsize, n);
      }
   }
   // the reference: everything a valid container of this kind satisfies
   std::string why; size_t cnt; const node *prev;
   bool no(const char *s) { why = s; return false; }
   bool sub(node *n, int &h) {        // h: black count or height
      if (!n) { h = 0; return true; }
      int a = 0, b = 0; if (++cnt > 4 * MAXE) fail("harness: endless tree");
      if (L(n) && U(L(n)) != n) return no("parent of a left child");
      if (!sub(L(n), a)) return false;
      if (prev && val(n).key < val(prev).key) return no("order");
      prev = n;
      if (R(n) && U(R(n)) != n) return no("parent of a right child");
      if (!sub(R(n), b)) return false;
      if (KIND == RB) { if (!gm(n) && ((L(n) && !gm(L(n))) || (R(n) && !gm(R(n))))) return no("two red nodes"); if (a != b) return no("black count"); h = a + gm(n); }
      if (KIND == AVL) { int d = b - a; if (d < -1 || d > 1 || gm(n) != d) return no("balance"); h = 1 + std::max(a, b); }
      if (KIND == TREAP && ((L(n) && val(L(n)).pri < val(n).pri) || (R(n) && val(R(n)).pri < val(n).pri))) return no("heap");
      return true;
   }
   bool bad(int i) {
      node *h = hdr(i), *r = U(h); cnt = 0; prev = 0; int x;
      if (!r) { if (L(h) != h || R(h) != h) { why = "header of an empty tree"; return true; } }
      else {
         if (U(r) != h) { why = "parent of the root"; return true; }
         if (!sub(r, x)) return true;
         if (KIND == RB && !gm(r)) { why = "red root"; return true; }
         node *a = r, *b = r; while (L(a)) a = L(a); while (R(b)) b = R(b);
         if (L(h) != a || R(h) != b) { why = "ends"; return true; }
      }
      if (CTS && cnt != in[i].size()) { why = "size"; return true; }
      return false;
   }
   // additional checks of the user: count and node, once per element, from the results of its children
   struct X {
      struct return_type { size_t n = 0; const node *at = 0; };
      std::map<const node *, int> *calls; long fail_at; std::string *err;
      void operator()(cnp p, const return_type &l, const return_type &r, return_type &out) {
         const node *q = raw(p); ++(*calls)[q]; node *mq = const_cast<node *>(q);
         if (l.at != L(mq) || r.at != R(mq)) *err = "was not given its children's results";
         if (out.n || out.at) *err = "was given a used result";
         out.n = l.n + r.n + 1; out.at = q;
         if (fail_at >= 0 && long(calls->size()) > fail_at) throw Reported{"extra"};
      }
   };
   void extra(int i, long f) {
      std::map<const node *, int> calls; std::string err; const K &c = *k[i]; size_t n = in[i].size();
      bool r = reports([&] { c.check(X{&calls, f, &err}); });
      VF_CHECK(err.empty(), "the additional check %s", err.c_str());
      VF_CHECK(r == (f >= 0 && size_t(f) < n), "check(extra) %s", r ? "reported something although nothing is wrong" : "swallowed the exception of the additional check");
      size_t want = r ? size_t(f) + 1 : n;
      VF_CHECK(calls.size() == want, "the additional check saw %zu elements of %zu", calls.size(), want);
      for (auto &x : calls) { VF_CHECK(x.second == 1, "the additional check was called %d times for an element", x.second); VF_CHECK(val(x.first).where == i, "the additional check was called for something else"); }
   }
   void expect(int i, const char *what, size_t a, size_t b) {
      bool bd = bad(i), r; const K &c = *k[i];
      if ((a + b) % 3 == 0) { std::map<const node *, int> calls; std::string err; r = reports([&] { c.check(X{&calls, -1, &err}); }); } else r = reports([&] { c.check(); });
      tr("[%s: %s] ", what, r ? "reported" : "silent"); VF_CHECK(r == bd, "check() %s after %s (%zu %zu) in a container of %zu (%s)", r ? "reported a problem" : "reported nothing", what, a, b, in[i].size(), r ? last_report.c_str() : why.c_str());
      vf::stat((std::string(bd ? "reported: " : "not reported: ") + what).c_str());
   }
   T *spare(uint32_t a) { for (size_t t = 0; t < e.size(); ++t) { T *x = e[(a + t) % e.size()].get(); if (x->where < 0) return x; } return 0; }
   bool put(int i, T *s) {
      if constexpr (UNIQ) { if (!k[i]->insert(*s).second) return false; } else k[i]->insert(*s);
      s->where = i; in[i].push_back(s); return true;
   }
   void drop(int i, size_t p) { in[i][p]->where = -1; in[i].erase(in[i].begin() + long(p)); }
   void step(const Op &o) {
      int i = int(o.a[0] & 1); auto &v = in[i]; size_t n = v.size();
      auto pick = [&](uint32_t a) { return nd(v[a % n]); };
      switch (o.k) {
      case C_BIG: for (int t = 0; t < 8; ++t) { T *s = spare(o.a[1] + t * 13); if (s) put(i, s); } hit(int(o.k), n); break;
      case C_INSERT: { T *s = spare(o.a[1]); if (s && put(i, s)) hit(int(o.k), n, s->id); break; }
      case C_ERASE: if (n) { size_t p = o.a[1] % n; k[i]->erase(k[i]->iterator_to(*v[p])); drop(i, p); hit(int(o.k), n, p); } break;
      case C_CLEAR: if (o.a[1] % 6 == 0) { k[i]->clear(); for (T *x : v) x->where = -1; v.clear(); hit(int(o.k), n); } break;
      case C_SWAP: k[0]->swap(*k[1]); in[0].swap(in[1]); for (int t = 0; t < 2; ++t) for (T *x : in[t]) x->where = t; hit(int(o.k), n); break;
      case C_MOVE: { std::unique_ptr<K> t(new K(std::move(*k[i]))); *k[i] = std::move(*t); hit(int(o.k), n); break; }
      case C_ORDER: { if constexpr (KIND == SG || KIND == BS || KIND == SPLAY) { if (n && o.a[1] & 1) k[i]->rebalance_subtree(k[i]->iterator_to(*v[o.a[2] % n])); else k[i]->rebalance(); hit(int(o.k), n); } else if (n) { auto r = k[i]->equal_range(*v[o.a[1] % n]); VF_CHECK(r.first != r.second, "an element is not found"); hit(int(o.k), n); } break; }
      case C_RANGE: if (n) { int key = v[o.a[1] % n]->key; size_t d = 0; k[i]->erase_and_dispose(k[i]->lower_bound(*v[o.a[1] % n]), k[i]->upper_bound(*v[o.a[1] % n]), [&](auto) { ++d; }); for (size_t p = n; p-- > 0;) if (v[p]->key == key) { drop(i, p); --d; } VF_CHECK(d == 0, "a range had the wrong number of elements"); hit(int(o.k), n); } break;
      case C_MISC: { auto &u = in[1 - i]; if constexpr (UNIQ) { std::vector<T *> rest; k[i]->merge(*k[1 - i]); for (T *x : u) { bool f = false; for (T *y : v) if (y->key == x->key) f = true; if (f) rest.push_back(x); else { v.push_back(x); x->where = i; } } u = rest; } else { k[i]->merge(*k[1 - i]); for (T *x : u) { x->where = i; v.push_back(x); } u.clear(); } hit(int(o.k), n); break; }
      case C_EXTRA: extra(i, -1); if (o.a[1] & 1) extra(i, long(o.a[2] % (n + 2))); hit(int(o.k), n); break;
      case C_META: {
         if (!n) break;
         uint32_t z = o.a[1] % 3; size_t cntx = o.a[2] % 4 == 0 ? 2 + o.a[3] % 3 : 1;
         if (z == 0 || (KIND != RB && KIND != AVL && KIND != TREAP)) {        // keys
            std::vector<std::pair<T *, int> > sv; for (size_t t = 0; t < cntx; ++t) { T *x = v[(o.a[4] + t * 7) % n]; sv.push_back(std::make_pair(x, x->key)); }
            if (o.a[3] & 1 && n > 1) { T *x = v[o.a[4] % n], *y = v[(o.a[4] >> 9) % n]; sv.clear(); sv.push_back(std::make_pair(x, x->key)); sv.push_back(std::make_pair(y, y->key)); std::swap(x->key, y->key); }
            else for (auto &q : sv) q.first->key += int(o.a[3] % 7) - 3;
            expect(i, "changing keys", o.a[4] % n, o.a[3]); for (size_t t = sv.size(); t-- > 0;) sv[t].first->key = sv[t].second;
         } else if (KIND == TREAP) {
            std::vector<std::pair<T *, int> > sv; for (size_t t = 0; t < cntx; ++t) { T *x = v[(o.a[4] + t * 7) % n]; sv.push_back(std::make_pair(x, x->pri)); x->pri += int((o.a[3] >> t) % 9) - 4; }
            expect(i, "changing priorities", o.a[4] % n, o.a[3]); for (size_t t = sv.size(); t-- > 0;) sv[t].first->pri = sv[t].second;
         } else {
            std::vector<std::pair<node *, int> > sv; auto set = [&](node *x, int val) { sv.push_back(std::make_pair(x, gm(x))); sm(x, val); };
            if (KIND == RB && z == 2) { node *x = pick(o.a[4]); set(x, !gm(x)); if (L(x) && R(x)) { set(L(x), !gm(L(x))); set(R(x), !gm(R(x))); } }      // (often still valid)
            else for (size_t t = 0; t < cntx; ++t) { node *x = pick(o.a[4] + uint32_t(t) * 5); set(x, KIND == RB ? !gm(x) : int((o.a[3] >> (2 * t)) % 3) - 1); }
            expect(i, KIND == RB ? "changing colours" : "changing balances", o.a[4] % n, o.a[3]); for (size_t t = sv.size(); t-- > 0;) sm(sv[t].first, sv[t].second);
         }
         hit(int(o.k), n, z * 50 + o.a[4] % n); break; }
      case C_LINK: {
         node *h = hdr(i); uint32_t z = o.a[1] % 5;
         if (z == 0 || !n) {      // the header's ends
            node *y = n && o.a[3] % (n + 2) < n ? pick(o.a[3]) : o.a[3] & 1 ? 0 : o.a[3] & 2 ? h : hdr(1 - i); bool left = o.a[2] & 1; np old = left ? nt::get_left(P(h)) : nt::get_right(P(h));
            if (left) nt::set_left(P(h), P(y)); else nt::set_right(P(h), P(y));
            expect(i, "changing an end of the header", left, 0);
            if (left) nt::set_left(P(h), old); else nt::set_right(P(h), old);
         } else if (z <= 2) {     // the parent of a node
            node *x = z == 1 ? pick(o.a[2]) : U(h), *y = o.a[3] % (n + 3) < n ? pick(o.a[3]) : o.a[3] & 1 ? hdr(1 - i) : o.a[3] & 2 ? h : 0; np old = nt::get_parent(P(x)); int mt = gm(x);
            nt::set_parent(P(x), P(y)); sm(x, mt); expect(i, x == U(h) ? "changing the parent of the root" : "changing the parent of a node", o.a[2] % n, 0); nt::set_parent(P(x), old); sm(x, mt);
         } else if (z == 3) {     // children exchanged
            node *x = pick(o.a[2]), *l = L(x), *r = R(x); nt::set_left(P(x), P(r)); nt::set_right(P(x), P(l)); expect(i, "exchanging the children of a node", o.a[2] % n, 0); nt::set_left(P(x), P(l)); nt::set_right(P(x), P(r));
         } else {                 // a subtree lost
            node *x = pick(o.a[2]); bool left = o.a[3] & 1; np old = left ? nt::get_left(P(x)) : nt::get_right(P(x)); if (!old) break;
            if (left) nt::set_left(P(x), np()); else nt::set_right(P(x), np());
            expect(i, "losing a subtree", o.a[2] % n, left);
            if (left) nt::set_left(P(x), old); else nt::set_right(P(x), old);
         }
         hit(int(o.k), n, z * 64 + (n ? o.a[2] % n : 0)); break; }
      case C_GONE: {              // a leaf leaves (or enters) behind the container's back, everything else put right
         if (!n) break;
         node *h = hdr(i); np lo = nt::get_left(P(h)), ro = nt::get_right(P(h));
         if (o.a[1] & 1) {
            node *x = pick(o.a[2]); while (L(x) || R(x)) x = L(x) ? L(x) : R(x);
            node *u = U(x); if (u == h) break; bool left = L(u) == x; int um = gm(u), xm = gm(x), uum = 0;
            if (left) { nt::set_left(P(u), np()); if (raw(lo) == x) nt::set_left(P(h), P(u)); } else { nt::set_right(P(u), np()); if (raw(ro) == x) nt::set_right(P(h), P(u)); }
            if (KIND == AVL && o.a[3] & 1) sm(u, L(u) ? -1 : R(u) ? 1 : 0);
            (void)uum; expect(i, "a leaf that left behind the container's back", o.a[2] % n, 0);
            sm(u, um); sm(x, xm); if (left) nt::set_left(P(u), P(x)); else nt::set_right(P(u), P(x));
         } else {
            T *s = spare(o.a[2]); if (!s) break; int sk = s->key, sp = s->pri; node *x = nd(s), *u = pick(o.a[3]); while (L(u) && R(u)) u = R(u); bool left = !L(u); int um = gm(u);
            s->key = val(u).key; s->pri = val(u).pri + int(o.a[4] % 3) - 1; nt::set_left(P(x), np()); nt::set_right(P(x), np()); nt::set_parent(P(x), P(u)); sm(x, 0);
            if (left) { nt::set_left(P(u), P(x)); if (raw(lo) == u) nt::set_left(P(h), P(x)); } else { nt::set_right(P(u), P(x)); if (raw(ro) == u) nt::set_right(P(h), P(x)); }
            if (KIND == AVL && o.a[4] & 1) sm(u, L(u) && R(u) ? 0 : L(u) ? -1 : 1);
            expect(i, "a leaf that entered behind the container's back", o.a[3] % n, 0);
            if (left) nt::set_left(P(u), np()); else nt::set_right(P(u), np());
            sm(u, um); s->key = sk; s->pri = sp; K::node_algorithms::init(P(x));
         }
         nt::set_left(P(h), lo); nt::set_right(P(h), ro); hit(int(o.k), n, o.a[2] % n); break; }
      default: break;
      }
   }
};
static void profile(const std::string &, Profile &p) {
   p.mask = O_ALL; p.maxlen_sel = 0; p.focus = {C_META, C_LINK, C_GONE, C_EXTRA};
   p.put({{C_BIG, 30}, {C_INSERT, 50}, {C_ERASE, 25}, {C_CLEAR, 6}, {C_SWAP, 8}, {C_MOVE, 8}, {C_ORDER, 15}, {C_RANGE, 8}, {C_MISC, 5}, {C_META, 80}, {C_LINK, 80}, {C_GONE, 50}, {C_EXTRA, 20}});
}
typedef bi::void_pointer<fptr<void> > VP; typedef bi::constant_time_size<false> NS; typedef bi::link_mode<bi::normal_link> NL;
template <class H> struct EBh { typedef ElemB<H> T; typedef bi::base_hook<H> O; };
template <class H> struct EMh { typedef ElemM<H> T; typedef bi::member_hook<T, H, &T::h> O; };
#define LST(P, X, H, CTS, NAME) { typedef X<H> W; typedef typename W::T T; typedef bi::list<T, typename W::O, bi::constant_time_size<CTS> > K; Reg<P>::template add<ListW<T, K, CTS> >(NAME); }
#define SLS(P, X, H, CTS, LAST, LIN, NAME) { typedef X<H> W; typedef typename W::T T; typedef bi::slist<T, typename W::O, bi::constant_time_size<CTS>, bi::cache_last<LAST>, bi::linear<LIN> > K; Reg<P>::template add<SlistW<T, K, CTS, LAST, LIN> >(NAME); }
#define TRE(P, X, H, TPL, KIND, CTS, UNIQ, NAME) { typedef X<H> W; typedef typename W::T T; typedef bi::TPL<T, typename W::O, bi::constant_time_size<CTS> > K; Reg<P>::template add<TreeW<T, K, KIND, CTS, UNIQ> >(NAME); }
template <int Z> static void reg() {
#if PART(0)
   LST(0, EBh, bi::list_base_hook<>, true, "list") LST(0, EMh, bi::list_member_hook<VP C NL>, false, "list without size, self-relative pointers") LST(0, EMh, bi::list_member_hook<bi::link_mode<bi::auto_unlink> >, false, "list, self-unlinking")
#endif
#if PART(1)
   SLS(1, EBh, bi::slist_base_hook<>, true, false, false, "slist") SLS(1, EMh, bi::slist_member_hook<NL>, false, true, false, "slist without size, with last") SLS(1, EMh, bi::slist_member_hook<VP C NL>, true, true, false, "slist with last, self-relative pointers")
   SLS(1, EBh, bi::slist_base_hook<NL>, true, false, true, "linear slist") SLS(1, EMh, bi::slist_member_hook<>, false, true, true, "linear slist without size, with last") SLS(1, EMh, bi::slist_member_hook<NL>, false, false, true, "linear slist without size") SLS(1, EMh, bi::slist_member_hook<>, false, false, false, "slist without size")
#endif
#if PART(2)
   TRE(2, EBh, bi::set_base_hook<>, set, RB, true, true, "set") TRE(2, EMh, bi::set_member_hook<bi::optimize_size<true> C NL>, multiset, RB, false, false, "multiset without size, compact") TRE(2, EMh, bi::set_member_hook<VP>, multiset, RB, true, false, "multiset, self-relative pointers")
#endif
#if PART(3)
   TRE(3, EBh, bi::avl_set_base_hook<>, avl_set, AVL, true, true, "avl_set") TRE(3, EMh, bi::avl_set_member_hook<bi::optimize_size<true> >, avl_multiset, AVL, false, false, "avl_multiset without size, compact") TRE(3, EMh, bi::avl_set_member_hook<VP C NL>, avl_multiset, AVL, true, false, "avl_multiset, self-relative pointers")
#endif
#if PART(4)
   TRE(4, EBh, bi::bs_set_base_hook<>, bs_multiset, BS, true, false, "bs_multiset") TRE(4, EMh, bi::bs_set_member_hook<>, bs_set, BS, false, true, "bs_set without size") TRE(4, EMh, bi::bs_set_member_hook<NL>, sg_multiset, SG, true, false, "sg_multiset")
   TRE(4, EBh, bi::bs_set_base_hook<>, splay_set, SPLAY, false, true, "splay_set without size")
#endif
#if PART(5)
   TRE(5, EBh, bi::bs_set_base_hook<>, treap_multiset, TREAP, true, false, "treap_multiset") TRE(5, EMh, bi::bs_set_member_hook<VP>, treap_set, TREAP, false, true, "treap_set without size, self-relative pointers")
#endif
}
int main(int argc, char **argv) {
   reg<0>(); engine() = {"check", profile};
   return harness_main(argc, argv);
}
