// Ordered associative containers of every tree kind against sorted vectors, over hook kinds, link modes,
// node layouts, pointer types, value traits and comparators. Sets (0,1) and multisets (2,3) of one element type exchange elements.
#include "seq.hpp"
#include <cmath>
#include <memory>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/parent_from_member.hpp>
using namespace vf;

enum {
   INSERT = 1, INSERT_H, INSERT_R, CHECK_COMMIT, CHECK_COMMIT_H, POS_INSERT, ERASE1, ERASE_R, ERASE_K, CLEAR, LOOKUP, MERGE, MERGE_X,
   SWAP, MOVE_CTOR, MOVE_ASSIGN, CLONE, REPLACE, REBAL, UNLINK_LEFT, REMOVE_NODE, SPLAY, ALPHA, CMP, EQ_MAKE, SAVE_ITER, CONV, HOOK_UNLINK, DTOR_UNLINK,
   HOOK_COPY, HOOK_SWAP, RECREATE, BULK, T_INSERT, T_INSERT_R, T_LOOKUP, T_MERGE, T_CLONE, T_POS, T_ERASE, T_CTOR, DISP_MOVE, MIXED
};
enum Kind { RB, AVL, BS, SPLAYT, TREAP, SG };

inline bool klt(int mode, int a, int b) { return mode == 0 ? a < b : mode == 1 ? a > b : (a >> 1) < (b >> 1); }
struct Probe { int v; };
template <int> struct KCt {
   int mode;
   KCt(int m = 0) : mode(m) {}
   bool operator()(const EB &a, const EB &b) const { tick(); return klt(mode, a.key, b.key); }
   bool operator()(int a, int b) const { tick(); return klt(mode, a, b); }
};
typedef KCt<0> KC;
typedef KCt<1> KC2;
struct FC {   // compares a foreign key with the container's key type
   int mode;
   bool operator()(Probe a, const EB &b) const { tick(); return klt(mode, a.v, b.key); }
   bool operator()(const EB &a, Probe b) const { tick(); return klt(mode, a.key, b.v); }
   bool operator()(Probe a, int b) const { tick(); return klt(mode, a.v, b); }
   bool operator()(int a, Probe b) const { tick(); return klt(mode, a, b.v); }
};
struct PC {   // priority order
   int mode;
   PC(int m = 0) : mode(m) {}
   bool operator()(int a, int b) const { tick(); return mode ? a > b : a < b; }
   bool operator()(const EB &a, const EB &b) const { tick(); return mode ? a.pri > b.pri : a.pri < b.pri; }
   bool operator()(Probe a, const EB &b) const { tick(); return mode ? a.v > b.pri : a.v < b.pri; }
   bool operator()(Probe a, int b) const { tick(); return mode ? a.v > b : a.v < b; }
};
template <class T> struct KOV { typedef int type; const int &operator()(const T &v) const { return v.key; } };
template <class T> struct POV { typedef int type; const int &operator()(const T &v) const { return v.pri; } };

template <class T, class = void> struct is_direct : std::false_type {};
template <class T> struct is_direct<T, typename std::enable_if<T::direct>::type> : std::true_type {};

template <class C> struct TreeRun {
   typedef typename C::S S;
   typedef typename C::M M;
   typedef typename C::X X;
   typedef typename S::value_type T;
   typedef typename S::iterator It;
   typedef typename S::const_iterator Cit;
   typedef typename S::node_traits NT;
   typedef typename NT::node_ptr NP;
   typedef typename S::value_traits VT;
   typedef typename S::key_type K;
   static const int NC = 4;
   static const Kind kind = C::kind;
   static const bool kov = C::kov;
   World<T> w;                      // w.m[0..2]; the fourth model vector is here
   std::vector<T *> m3;
   S *s[2]; M *mu[2];
   int mode[NC], pmode[NC];
   size_t sgmax[NC]; double alpha[NC];
   struct Saved { It it; T *e; };
   std::vector<Saved> saved;
   std::vector<T *> &mod(int c) { return c < 3 ? w.m[c] : m3; }

   template <class F> decltype(auto) with(int c, F f) { if (c < 2) return f(*s[c]); return f(*mu[c - 2]); }
   static bool uniq(int c) { return c < 2; }
   template <class L> static constexpr bool isset(const L &) { return std::is_same<L, S>::value; }

   // ---- model helpers --------------------------------------------------------
   struct Lt { int mode; bool operator()(const T *a, int b) const { return klt(mode, a->key, b); } bool operator()(int a, const T *b) const { return klt(mode, a, b->key); } };
   size_t lb(int c, int k) { auto &m = mod(c); return size_t(std::lower_bound(m.begin(), m.end(), k, Lt{mode[c]}) - m.begin()); }
   size_t ub(int c, int k) { auto &m = mod(c); return size_t(std::upper_bound(m.begin(), m.end(), k, Lt{mode[c]}) - m.begin()); }
   bool has(int c, int k) { return lb(c, k) != ub(c, k); }
   void mins(int c, size_t p, T *e) { mod(c).insert(mod(c).begin() + long(p), e); e->where = c; sgmax[c] = std::max(sgmax[c], mod(c).size()); }
   void mdel(int c, size_t p) { mod(c).erase(mod(c).begin() + long(p)); sgshrink(c, 1); }
   void sgshrink(int c, size_t by) {   // scapegoat: the whole tree is rebuilt when it has shrunk enough
      (void)by; size_t n = mod(c).size();
      if (double(n) < alpha[c] * 0.98 * double(sgmax[c])) sgmax[c] = n;
   }
   Cit cit(int c, size_t i) { return with(c, [&](auto &l) { Cit r = l.cbegin(); while (i--) ++r; return r; }); }
   It it(int c, size_t i) { return with(c, [&](auto &l) { It r = l.begin(); while (i--) ++r; return r; }); }
   Cit cend(int c) { return with(c, [&](auto &l) { return Cit(l.cend()); }); }
   size_t index(int c, Cit p) { size_t i = 0; Cit b = cit(c, 0), e = cend(c); size_t n = mod(c).size(); while (b != p && b != e && i <= n) { ++b; ++i; } return i; }

   // ---- structural check -----------------------------------------------------
   struct Shape { size_t n; long h, bh; };
   std::vector<const void *> inorder;
   bool node_red(NP p, std::integral_constant<int, RB>) { return NT::get_color(p) == NT::red(); }
   template <int O> bool node_red(NP, std::integral_constant<int, O>) { return false; }
   long node_bal(NP p, std::integral_constant<int, AVL>) { return NT::get_balance(p) == NT::negative() ? -1 : NT::get_balance(p) == NT::positive() ? 1 : NT::get_balance(p) == NT::zero() ? 0 : 9; }
   template <int O> long node_bal(NP, std::integral_constant<int, O>) { return 0; }
   Shape rec(int c, NP p, NP parent, size_t depth, size_t lim, const VT &vt) {
      Shape r = {0, 0, 0};
      if (!p) return r;
      VF_CHECKH(O_SHAPE, inorder.size() <= lim && depth <= lim + 2, "tree %d: the links contain a cycle or more nodes than elements", c);
      VF_CHECKH(O_SHAPE, raw(NT::get_parent(p)) == raw(parent), "tree %d: a node's parent link does not lead to its parent", c);
      NP L = NT::get_left(p), R = NT::get_right(p);
      Shape a = rec(c, L, p, depth + 1, lim, vt);
      inorder.push_back(raw(p));
      Shape b = rec(c, R, p, depth + 1, lim, vt);
      r.n = a.n + b.n + 1; r.h = std::max(a.h, b.h) + 1; r.bh = a.bh;
      if (kind == RB) {
         std::integral_constant<int, kind> k;
         VF_CHECKM(O_SHAPE, a.bh == b.bh, "tree %d: paths carry %ld and %ld black elements", c, a.bh, b.bh);
         bool red = node_red(p, k);
         if (red) VF_CHECKM(O_SHAPE, !(L && node_red(L, k)) && !(R && node_red(R, k)), "tree %d: a red element has a red child", c);
         else r.bh += 1;
      }
      if (kind == AVL) {
         VF_CHECKM(O_SHAPE, a.h - b.h <= 1 && b.h - a.h <= 1, "tree %d: sibling heights %ld and %ld", c, a.h, b.h);
         VF_CHECKM(O_SHAPE, node_bal(p, std::integral_constant<int, kind>()) == b.h - a.h, "tree %d: the stored balance does not match the heights", c);
      }
      if (kind == TREAP) {
         const T &e = *vt.to_value_ptr(p);
         for (NP q : {L, R}) if (q) { const T &f = *vt.to_value_ptr(q); VF_CHECKM(O_SHAPE, !(pmode[c] ? f.pri > e.pri : f.pri < e.pri), "tree %d: an element ranks before its parent (priorities %d and %d)", c, f.pri, e.pri); }
      }
      return r;
   }
   void shape(int c) {
      with(c, [&](auto &l) {
         NP h = l.end().pointed_node(), root = NT::get_parent(h);
         std::vector<T *> &m = mod(c);
         inorder.clear();
         if (m.empty()) {
            VF_CHECKH(O_SHAPE, !root && raw(NT::get_left(h)) == raw(h) && raw(NT::get_right(h)) == raw(h), "tree %d: an empty tree still has links", c);
            return;
         }
         VF_CHECKH(O_SHAPE, bool(root), "tree %d: no root", c);
         Shape r = rec(c, root, h, 0, m.size(), vtr(l));
         VF_CHECKH(O_SHAPE, r.n == m.size(), "tree %d: %zu nodes are linked below the root, %zu are contained", c, r.n, m.size());
         size_t i = 0;
         for (auto b = l.begin(); i < inorder.size() && b != l.end(); ++b, ++i) VF_CHECKH(O_SHAPE, raw(b.pointed_node()) == inorder[i], "tree %d: the tree order differs from the traversal", c);
         VF_CHECKH(O_SHAPE, raw(NT::get_left(h)) == inorder.front() && raw(NT::get_right(h)) == inorder.back(), "tree %d: the stored first or last element is not the true one", c);
         VF_CHECKM(O_SHAPE, raw(l.root().pointed_node()) == raw(root), "tree %d: root() is not the root", c);
         // depth of the self-balancing kinds
         double lg = std::log2(double(m.size()) + 2);
         if (kind == RB) VF_CHECKM(O_SHAPE, double(r.h) <= 2 * lg + 0.001, "tree %d: height %ld with %zu elements", c, r.h, m.size());
         if (kind == AVL) VF_CHECKM(O_SHAPE, double(r.h) <= 1.4405 * lg + 0.001, "tree %d: height %ld with %zu elements", c, r.h, m.size());
         if (kind == SG) {
            // loosely height-balanced for the largest size since the last complete rebuild (rounding of the library's logarithm allowed for)
            double lim = std::floor((alpha[c] > 0.9 ? 1.085 : 1.02) * std::log(double(std::max<size_t>(sgmax[c], 1))) / -std::log(alpha[c]) + 1e-3) + (C::sgfloat ? 2 : 3);
            VF_CHECKM(O_SHAPE, double(r.h - 1) <= lim, "tree %d: depth %ld with %zu elements (largest size %zu, balance factor %.3f)", c, r.h - 1, m.size(), sgmax[c], alpha[c]);
         }
         if (kind == TREAP) top(l, m);
      });
   }
   template <class L> const VT &vtr(L &) { return C::vt(); }
   template <class L> void top(L &l, std::vector<T *> &m) { if constexpr (kind == TREAP) {
      const T *t = &*l.top(); const L &k = l; int pm = l.priority_comp().mode;
      VF_CHECKM(O_SHAPE, &*k.top() == t && &*l.ctop() == t, "top() variants disagree");
      for (T *e : m) VF_CHECKM(O_SHAPE, !(pm ? e->pri > t->pri : e->pri < t->pri), "top() is not an element of the first priority");
   } }

   void verify(int c) {
      std::vector<T *> &m = mod(c);
      with(c, [&](auto &l) {
         typedef typename std::remove_reference<decltype(l)>::type L;
         const L &k = l;
         size_t n = 0; auto b = k.begin(), e = k.end();
         for (; b != e && n <= m.size(); ++b, ++n) if (n >= m.size() || &*b != m[n]) break;
         VF_CHECKH(O_SEQ, n == m.size() && b == e, "tree %d: forward traversal differs from the model %s at position %zu", c, keys(m).c_str(), n);
         auto backward = [&](auto r, auto rend_, const char *how) {
            size_t i = m.size();
            for (; r != rend_; ++r) { VF_CHECKH(O_SEQ, i > 0 && &*r == m[i - 1], "tree %d: backward traversal (%s) differs from the model %s", c, how, keys(m).c_str()); --i; }
            VF_CHECKH(O_SEQ, i == 0, "tree %d: backward traversal (%s) is short of the model by %zu", c, how, i);
         };
         switch (g().opi % 3) { case 0: backward(k.rbegin(), k.rend(), "const"); break; case 1: backward(l.rbegin(), l.rend(), "mutable"); break; default: backward(l.crbegin(), l.crend(), "crbegin"); break; }
         for (size_t i = 0; i + 1 < m.size(); ++i)
            VF_CHECKM(O_SEQ, uniq(c) ? klt(mode[c], m[i]->key, m[i + 1]->key) : !klt(mode[c], m[i + 1]->key, m[i]->key), "tree %d: the elements at %zu are out of order", c, i);
         VF_CHECKM(O_SIZE, size_t(k.size()) == m.size() && k.empty() == m.empty(), "tree %d: size() %zu, empty() %d, but it holds %zu", c, size_t(k.size()), int(k.empty()), m.size());
         VF_CHECKM(O_SEQ | O_CLONE, k.key_comp().mode == mode[c], "tree %d: key_comp() is not the expected comparison object", c);
         if (m.size() > 1) { // value_comp() orders the elements themselves the way the container does
            size_t i = size_t(g().opi + 1) % (m.size() - 1);
            VF_CHECKM(O_SEQ, k.value_comp()(*m[i], *m[i + 1]) == klt(mode[c], m[i]->key, m[i + 1]->key) && k.value_comp()(*m[i + 1], *m[i]) == klt(mode[c], m[i + 1]->key, m[i]->key), "tree %d: value_comp() does not order elements as key_comp() orders their keys", c);
         }
         if constexpr (kind == TREAP) VF_CHECKM(O_SEQ | O_CLONE, k.priority_comp().mode == pmode[c], "tree %d: priority_comp() is not the expected comparison object", c);
      });
      for (T *e : m) { e->where = c; if (C::meaningful) VF_CHECKM(O_HOOK, C::linked(*e), "element %u is in tree %d but its hook says it is not linked", e->id, c); }
      g().maxsize = std::max(g().maxsize, m.size());
      shape(c);
   }
   void verify_all() {
      while (w.pool.size() > 1500) { T *e = w.pool.back(); w.pool.pop_back(); w.kill(e); }
      for (int c = 0; c < NC; ++c) verify(c);
      for (T *e : w.pool) { e->where = -1; if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*e), "element %u is in no container but its hook says it is linked", e->id); }
      size_t k = 0;
      for (size_t i = 0; i < saved.size(); ++i) {
         Saved &v = saved[i];
         if (!w.live.count(v.e) || v.e->where < 0) continue;
         saved[k++] = v;
         VF_CHECKM(O_ITER, &*v.it == v.e, "a saved iterator no longer designates its element %u", v.e->id);
         int c = v.e->where; std::vector<T *> &m = mod(c);
         size_t pos = size_t(std::find(m.begin(), m.end(), v.e) - m.begin());
         It nx = v.it; ++nx; Cit cn = nx;
         if (pos + 1 < m.size()) VF_CHECKM(O_ITER, &*nx == m[pos + 1], "incrementing a saved iterator does not reach the next element");
         else VF_CHECKM(O_ITER, cn == cend(c), "incrementing a saved iterator to the last element does not reach end()");
         It pv = v.it; if (pos > 0) { --pv; VF_CHECKM(O_ITER, &*pv == m[pos - 1], "decrementing a saved iterator does not reach the previous element"); }
         with(c, [&](auto &l) { typedef typename std::remove_reference<decltype(l)>::type L; if constexpr (C::stateless && C::default_header) VF_CHECKM(O_ITER, &L::container_from_iterator(v.it) == &l && &L::container_from_iterator(Cit(v.it)) == &l, "container_from_iterator does not return the container"); });
      }
      saved.resize(k);
      VF_STEP_END();
   }

   // ---- elements -------------------------------------------------------------
   int rkey(uint32_t a) { return int((a * 2654435761u >> 7) % w.keyrange); }
   T *elem(uint32_t a, int key) { T *e = w.take(a, key); e->pri = int(((a + 1) * 2246822519u >> 9) % prange); return e; }
   uint32_t prange = 16;
   std::vector<T *> grab(uint32_t a, uint32_t n, int style) {
      std::vector<T *> v; Rng r(a * 7919ull + 17); int k0 = int(r.below(w.keyrange));
      for (uint32_t i = 0; i < n; ++i) { int k = style == 1 ? int((uint32_t(k0) + i) % w.keyrange) : style == 2 ? int((uint32_t(k0) + w.keyrange * 8 - i) % w.keyrange) : int(r.below(w.keyrange)); v.push_back(elem(r.u32() >> 8, k)); }
      return v;
   }
   void giveback(T *e) { e->where = -1; w.pool.push_back(e); }
   struct DI { typename std::vector<T *>::iterator i; typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
      T &operator*() const { return **i; } DI &operator++() { ++i; return *this; } DI operator++(int) { DI t(*this); ++i; return t; } bool operator==(const DI &o) const { return i == o.i; } bool operator!=(const DI &o) const { return i != o.i; } };
   template <class F> bool attempt(uint32_t n, F f) {
      arm_fuel(long(n)); bool th = false;
      try { f(); } catch (const Boom &) { th = true; }
      disarm_fuel(); vf::stat(th ? "threw" : "nothrow");
      return th;
   }
   // a key argument of the container's key type
   T *probe = nullptr;
   const K &karg(int k) { if constexpr (kov) { kbuf = k; return kbuf; } else { probe->key = k; return *probe; } }
   typename std::conditional<C::kov, int, char>::type kbuf{};

   // model of inserting: returns position, or npos when a set refuses
   bool minsert(int c, T *e) {
      if (uniq(c) && has(c, e->key)) return false;
      mins(c, ub(c, e->key), e); return true;
   }
   size_t hintpos(int c, int k, size_t p) { size_t a = lb(c, k), b = ub(c, k); return p < a ? a : p > b ? b : p; }

   void lookups(int c, int k, int k2, bool foreign, bool cst, uint32_t sel) {
      std::vector<T *> &m = mod(c); size_t a = lb(c, k), b = ub(c, k);
      with(c, [&](auto &l) {
         typedef typename std::remove_reference<decltype(l)>::type L;
         FC fc{mode[c]}; Probe pk{k};
         auto go = [&](auto &l_) {
            typedef typename std::remove_reference<decltype(l_)>::type L2;
            auto at = [&](auto i) -> size_t { return i == l_.end() ? m.size() : size_t(std::find(m.begin(), m.end(), &*i) - m.begin()); };
            size_t x;
            switch (sel) {
            case 0: { auto i = foreign ? l_.lower_bound(pk, fc) : l_.lower_bound(karg(k)); x = at(i); VF_CHECKM(O_SEQ, x == a, "tree %d: lower_bound(%d) is at %zu instead of %zu", c, k, x, a); break; }
            case 1: { auto i = foreign ? l_.upper_bound(pk, fc) : l_.upper_bound(karg(k)); x = at(i); VF_CHECKM(O_SEQ, x == b, "tree %d: upper_bound(%d) is at %zu instead of %zu", c, k, x, b); break; }
            case 2: { auto i = foreign ? l_.find(pk, fc) : l_.find(karg(k)); x = at(i);
               VF_CHECKM(O_SEQ, a == b ? x == m.size() : (x >= a && x < b), "tree %d: find(%d) is at %zu", c, k, x);
               if (kind == SPLAYT && !std::is_const<L2>::value && isset(l) && a != b) VF_CHECKM(O_SHAPE, l.root() == i, "find did not bring the element to the root");
               break; }
            case 3: { size_t n = foreign ? l_.count(pk, fc) : l_.count(karg(k)); VF_CHECKM(O_SEQ, n == b - a, "tree %d: count(%d) is %zu instead of %zu", c, k, n, b - a); break; }
            case 4: { auto r = foreign ? l_.equal_range(pk, fc) : l_.equal_range(karg(k)); VF_CHECKM(O_SEQ, at(r.first) == a && at(r.second) == b, "tree %d: equal_range(%d) is %zu..%zu instead of %zu..%zu", c, k, at(r.first), at(r.second), a, b); break; }
            case 5: { bool lc = (k2 & 1) != 0, rc = (k2 & 2) != 0; int hi = int(uint32_t(k2 >> 2) % w.keyrange); int lo = k;
               if (klt(mode[c], hi, lo)) std::swap(lo, hi);
               // both open and equivalent bounds are outside the precondition
               if (!lc && !rc && !klt(mode[c], lo, hi)) lc = true;
               size_t p = lc ? lb(c, lo) : ub(c, lo), q = rc ? ub(c, hi) : lb(c, hi); if (q < p) q = p;
               T *hp = nullptr; (void)hp;
               auto r = [&] {
                  if (foreign) return l_.bounded_range(Probe{lo}, Probe{hi}, fc, lc, rc);
                  if constexpr (kov) return l_.bounded_range(lo, hi, lc, rc);
                  else { probe->key = lo; probe2->key = hi; return l_.bounded_range(*probe, *probe2, lc, rc); } }();
               VF_CHECKM(O_SEQ, at(r.first) == p && at(r.second) == q, "tree %d: bounded_range(%d,%d,%d,%d) is %zu..%zu instead of %zu..%zu", c, lo, hi, int(lc), int(rc), at(r.first), at(r.second), p, q); break; }
            default: break;
            }
         };
         if (cst) go(const_cast<const L &>(l)); else go(l);
      });
   }
   T *probe2 = nullptr;

   void conserve(std::initializer_list<int> cs, const char *what, const std::vector<T *> &extra, bool all_stay) {
      // after an exception: the contents are read back; nothing is lost or duplicated
      std::vector<T *> before(extra);
      for (int c : cs) before.insert(before.end(), mod(c).begin(), mod(c).end());
      std::set<T *> left(before.begin(), before.end()), ex(extra.begin(), extra.end());
      for (int c : cs) {
         std::vector<T *> now;
         with(c, [&](auto &l) { for (auto b = l.begin(); b != l.end(); ++b) { T *p = &*b; VF_CHECKH(O_EXC, left.erase(p) == 1, "%s after an exception: tree %d holds an element twice or a foreign element", what, c); now.push_back(p); } });
         mod(c) = now; sgmax[c] = std::max(sgmax[c], now.size());
      }
      for (T *p : left) { bool e = ex.count(p) != 0; if (all_stay && !e) VF_CHECKH(O_EXC, false, "%s after an exception: element %u is in no container any more", what, p->id); if (C::meaningful) VF_CHECKH(O_EXC, !C::linked(*p), "%s after an exception: element %u is in no container but its hook says linked", what, p->id); }
      std::vector<T *> v(left.begin(), left.end()); std::sort(v.begin(), v.end(), [](T *a, T *b) { return a->id < b->id; });
      for (T *p : v) giveback(p);
   }

   void op(const Op &o) {
      Disposer<T> D{&w};
      int c = int(o.a[0] % NC), d = int(o.a[1] % NC);
      bool disp = (o.a[4] & 1) != 0;
      w.dispose_mode = (o.a[4] >> 1) & 1;
      w.disposed.clear();
      // an element handed to the disposer of an erasing operation is no longer reached from its container
      w.on_disp = nullptr; if (disp && (o.k == ERASE1 || o.k == ERASE_R || o.k == ERASE_K || o.k == T_ERASE)) w.on_disp = [this, c](T *p) { with(c, [&](auto &y) { const auto &x = y; size_t q = 0; for (auto i = x.begin(); i != x.end() && q < 300; ++i, ++q) VF_CHECKM(O_DISP, &*i != p, "element %u is still in its tree when the disposer receives it", p->id); }); };
      std::vector<T *> &m = mod(c);
      size_t n = m.size();
      const char *nm = uniq(c) ? "set" : "multiset";
      switch (o.k) {
      case INSERT: case T_INSERT: { int k = rkey(o.a[2]); T *e = elem(o.a[3], k); tr("insert(%d pri %d)%s -> %s %d\n", k, e->pri, o.k == T_INSERT ? " throwing" : "", nm, c);
         bool ok = !(uniq(c) && has(c, k)); bool th = false; size_t old = lb(c, k);
         auto doit = [&] { with(c, [&](auto &l) {
            if constexpr (std::is_same<typename std::remove_reference<decltype(l)>::type, S>::value) { std::pair<It, bool> r = l.insert(*e);
               VF_CHECKM(O_SEQ, r.second == ok && &*r.first == (ok ? e : mod(c)[old]), "insert of key %d into a set: returned %d, expected %d, or the wrong element", k, int(r.second), int(ok)); }
            else { It r = l.insert(*e); VF_CHECKM(O_SEQ, &*r == e, "insert does not return the inserted element"); } }); };
         if (o.k == T_INSERT) th = attempt(o.a[1] % 24, doit); else doit();
         if (th) { if (C::meaningful) VF_CHECKM(O_EXC | O_HOOK, !C::linked(*e), "insert threw but the element is linked"); giveback(e); }
         else if (!ok || !minsert(c, e)) giveback(e);
         hit(int(o.k), n, ok * 2 + th); break; }
      case INSERT_H: { size_t p = o.a[2] % (n + 1); int k = rkey(o.a[3]);
         if (n && (o.a[4] & 6)) k = m[p < n ? p : n - 1]->key + int((o.a[4] >> 3) % 3) - 1;   // near the hint
         if (k < 0) k = 0;
         T *e = elem(o.a[3], k); tr("insert(hint @%zu, %d) -> %s %d\n", p, k, nm, c);
         bool ok = !(uniq(c) && has(c, k)); size_t old = lb(c, k), at = hintpos(c, k, p);
         It r = with(c, [&](auto &l) { return l.insert(this->cit(c, p), *e); });
         VF_CHECKM(O_SEQ, &*r == (ok ? e : m[old]), "insert with a hint does not return the element");
         if (ok) mins(c, at, e); else giveback(e);
         hit(int(o.k), n, ok); break; }
      case INSERT_R: case BULK: case T_INSERT_R: { std::vector<T *> v = o.k == BULK ? grab(o.a[2], 4 + o.a[3] % 60, 1 + int(o.a[4] & 1)) : grab(o.a[2], o.a[3] % 8, int(o.a[4] % 3));
         tr("insert(range of %zu)%s -> %s %d\n", v.size(), o.k == T_INSERT_R ? " throwing" : "", nm, c);
         auto doit = [&] { with(c, [&](auto &l) { l.insert(DI{v.begin()}, DI{v.end()}); }); };
         if (o.k == T_INSERT_R && attempt(o.a[1] % 40, doit)) { size_t before = n; conserve({c}, "insert(range)", v, true); hit(int(o.k), before, 1); break; }
         if (o.k != T_INSERT_R) doit();
         for (T *e : v) if (!minsert(c, e)) giveback(e);
         hit(int(o.k), n, v.size()); break; }
      case CHECK_COMMIT: case CHECK_COMMIT_H: { if (!uniq(c)) c = int(o.a[0] % 2); std::vector<T *> &ms = mod(c); n = ms.size();
         int k = rkey(o.a[2]); size_t p = o.a[3] % (n + 1); if (o.k == CHECK_COMMIT_H && n && (o.a[4] & 6)) k = std::max(0, ms[p < n ? p : n - 1]->key + int((o.a[4] >> 3) % 3) - 1);
         T *e = elem(o.a[3], k); bool ok = !has(c, k), foreign = (o.a[4] & 1) != 0; size_t old = lb(c, k);
         tr("insert_check%s(%d%s)%s -> set %d\n", o.k == CHECK_COMMIT_H ? "(hint)" : "", k, foreign ? " foreign" : "", ok ? ", insert_commit" : "", c);
         typename S::insert_commit_data cd; S &l = *s[c]; std::pair<It, bool> r; FC fc{mode[c]}; bool h = o.k == CHECK_COMMIT_H;
         if constexpr (kind == TREAP) {
            PC pc{pmode[c]};
            if constexpr (C::pov) { if (foreign) r = h ? l.insert_check(cit(c, p), Probe{k}, fc, e->pri, pc, cd) : l.insert_check(Probe{k}, fc, e->pri, pc, cd);
               else r = h ? l.insert_check(cit(c, p), karg(k), e->pri, cd) : l.insert_check(karg(k), e->pri, cd); }
            else { if (foreign) r = h ? l.insert_check(cit(c, p), Probe{k}, fc, Probe{e->pri}, pc, cd) : l.insert_check(Probe{k}, fc, Probe{e->pri}, pc, cd);
               else r = h ? l.insert_check(cit(c, p), karg(k), *e, cd) : l.insert_check(karg(k), *e, cd); }
         } else if (foreign) r = h ? l.insert_check(cit(c, p), Probe{k}, fc, cd) : l.insert_check(Probe{k}, fc, cd);
         else r = h ? l.insert_check(cit(c, p), karg(k), cd) : l.insert_check(karg(k), cd);
         VF_CHECKH(O_SEQ, r.second == ok, "insert_check(%d) answered %d, expected %d", k, int(r.second), int(ok));
         if (ok) { if ((o.a[1] & 3) == 0) { giveback(e); } else { It i = l.insert_commit(*e, cd); VF_CHECKM(O_SEQ, &*i == e, "insert_commit does not return the element"); mins(c, old, e); } }
         else { VF_CHECKM(O_SEQ, &*r.first == ms[old], "insert_check does not return the equivalent element"); giveback(e); }
         hit(int(o.k), n, ok); break; }
      case MIXED: if constexpr (is_direct<M>::value) { // unique insertions into a tree that may hold equivalents
         if (uniq(c)) c += 2; if (uniq(d)) d += 2; std::vector<T *> &mm = mod(c), &ms = mod(d); n = mm.size(); M &l = *mu[c - 2]; uint32_t how = o.a[1] / 4 % 5;
         int k = n && (o.a[4] & 1) ? mm[o.a[2] % n]->key : rkey(o.a[2]); size_t p = o.a[3] % (n + 1), a = lb(c, k), b = ub(c, k);
         if (how == 4) { if (c == d) d = c ^ 1; std::vector<T *> &mq = mod(d); if (kind == TREAP && pmode[c] != pmode[d]) return; tr("merge_unique(%d) -> multiset %d\n", d, c); l.merge_unique(*mu[d - 2]);
            std::vector<T *> kept, src(mq); for (T *e : src) { if (has(c, e->key)) kept.push_back(e); else mins(c, ub(c, e->key), e); } mq = kept; sgshrink(d, 0); for (T *e : mq) e->where = d; if (!src.empty()) hit(int(o.k), n, src.size()); break; }
         (void)ms;
         if (how == 3) { std::vector<T *> v = grab(o.a[2], o.a[3] % 8, int(o.a[4] % 3)); tr("insert_unique(range of %zu) -> multiset %d\n", v.size(), c); l.insert_unique(DI{v.begin()}, DI{v.end()}); for (T *e : v) { if (has(c, e->key)) giveback(e); else mins(c, lb(c, e->key), e); } hit(int(o.k), n, v.size()); break; }
         T *e = elem(o.a[3], k); bool ok = a == b; T *got; bool second = ok;
         tr("insert_unique%s(%d) -> multiset %d\n", how == 1 ? "(hint)" : how == 2 ? "_check+commit" : "", k, c);
         if (how == 1) got = &*l.insert_unique(cit(c, p), *e);
         else if (how == 0) { auto r = l.insert_unique(*e); got = &*r.first; second = r.second; }
         else if constexpr (kind == TREAP) { auto r = l.insert_unique(*e); got = &*r.first; second = r.second; }
         else { typename M::insert_commit_data cd; auto r = (o.a[4] & 2) ? l.insert_unique_check(cit(c, p), karg(k), cd) : l.insert_unique_check(karg(k), cd); second = r.second; if (second) got = &*l.insert_unique_commit(*e, cd); else got = &*r.first; }
         VF_CHECKH(O_SEQ, second == ok, "insert_unique(%d) answered %d, expected %d", k, int(second), int(ok));
         if (ok) { VF_CHECKM(O_SEQ, got == e, "insert_unique does not return the inserted element"); mins(c, a, e); }
         else { VF_CHECKM(O_SEQ, !klt(mode[c], got->key, k) && !klt(mode[c], k, got->key) && got != e, "a refused insert_unique does not return an equivalent element"); giveback(e); }
         hit(int(o.k), n, ok); break; } else return;
      case POS_INSERT: case T_POS: { if (o.k == T_POS && kind != TREAP) return; int which = int(o.a[2] % 3); size_t p = which == 0 ? o.a[3] % (n + 1) : which == 1 ? n : 0;
         int k; if (!n) k = rkey(o.a[4]); else { int base = m[p < n ? p : n - 1]->key; k = base + int((o.a[4] >> 4) % 3) - 1; if (k < 0) k = 0; }
         bool valid = true;
         if (p > 0) valid = valid && (uniq(c) ? klt(mode[c], m[p - 1]->key, k) : !klt(mode[c], k, m[p - 1]->key));
         if (p < n) valid = valid && (uniq(c) ? klt(mode[c], k, m[p]->key) : !klt(mode[c], m[p]->key, k));
         if (!valid) return;
         T *e = elem(o.a[1], k); tr("%s(@%zu, %d pri %d)%s -> %s %d\n", which == 0 ? "insert_before" : which == 1 ? "push_back" : "push_front", p, k, e->pri, o.k == T_POS ? " throwing" : "", nm, c);
         auto doit = [&] { with(c, [&](auto &l) { if (which == 0) { It r = l.insert_before(this->cit(c, p), *e); VF_CHECKM(O_SEQ, &*r == e, "insert_before does not return the element"); } else if (which == 1) l.push_back(*e); else l.push_front(*e); }); };
         bool th = false; if (o.k == T_POS) th = attempt(o.a[0] / 4 % 10, doit); else doit();
         if (th) { if (C::meaningful) VF_CHECKM(O_EXC, !C::linked(*e), "a positional insertion threw but the element is linked"); giveback(e); } else mins(c, p, e);
         hit(int(o.k), n, p * 2 + th); break; }
      case ERASE1: case T_ERASE: { if (!n || (o.k == T_ERASE && kind != TREAP)) return; size_t p = o.a[2] % n; T *e = m[p]; tr("erase%s(@%zu)%s %s %d\n", disp ? "_and_dispose" : "", p, o.k == T_ERASE ? " throwing" : "", nm, c);
         if (o.k == T_ERASE) { bool th = attempt(o.a[3] % 10, [&] { with(c, [&](auto &l) { if (disp) l.erase_and_dispose(this->cit(c, p), D); else l.erase(this->cit(c, p)); }); });
            hit(int(o.k), n, th); if (th) { VF_CHECKM(O_DISP | O_EXC, w.disposed.empty(), "erase threw but something was disposed of"); break; }
            mdel(c, p); if (disp) w.expect_disposed({e}, "erase_and_dispose"); else w.settle({e}); break; }
         It r = with(c, [&](auto &l) { return disp ? ((o.a[4] & 8) ? l.erase_and_dispose(this->it(c, p), D) : l.erase_and_dispose(this->cit(c, p), D)) : (o.a[4] & 8) ? l.erase(this->it(c, p)) : l.erase(this->cit(c, p)); });
         mdel(c, p); VF_CHECKM(O_SEQ | O_ITER, p < m.size() ? &*r == m[p] : Cit(r) == cend(c), "erase does not return the iterator after the erased element");
         if (disp) w.expect_disposed({e}, "erase_and_dispose"); else w.settle({e}); hit(int(o.k), n, p); break; }
      case ERASE_R: { size_t p = o.a[2] % (n + 1), q = p + o.a[3] % (n - p + 1); std::vector<T *> v(m.begin() + long(p), m.begin() + long(q)); tr("erase%s(@%zu..@%zu) %s %d\n", disp ? "_and_dispose" : "", p, q, nm, c);
         It r = with(c, [&](auto &l) { return disp ? l.erase_and_dispose(this->cit(c, p), this->cit(c, q), D) : l.erase(this->cit(c, p), this->cit(c, q)); });
         for (size_t i = p; i < q; ++i) mdel(c, p);
         VF_CHECKM(O_SEQ | O_ITER, p < m.size() ? &*r == m[p] : Cit(r) == cend(c), "erase(range) does not return the iterator after the range");
         if (disp) w.expect_disposed(v, "erase_and_dispose(range)"); else w.settle(v); if (p != q) hit(int(o.k), n, q - p); break; }
      case ERASE_K: { int k = rkey(o.a[2]); if (n && (o.a[3] & 3)) k = m[o.a[2] % n]->key; bool foreign = (o.a[3] & 4) != 0; size_t p = lb(c, k), q = ub(c, k); std::vector<T *> v(m.begin() + long(p), m.begin() + long(q)); tr("erase%s(key %d%s) %s %d\n", disp ? "_and_dispose" : "", k, foreign ? " foreign" : "", nm, c);
         FC fc{mode[c]}; Probe pk{k};
         size_t r = with(c, [&](auto &l) { return size_t(foreign ? (disp ? l.erase_and_dispose(pk, fc, D) : l.erase(pk, fc)) : (disp ? l.erase_and_dispose(this->karg(k), D) : l.erase(this->karg(k)))); });
         for (size_t i = p; i < q; ++i) mdel(c, p);
         VF_CHECKM(O_SEQ, r == q - p, "erase(key %d) returned %zu instead of %zu", k, r, q - p);
         if (disp) w.expect_disposed(v, "erase_and_dispose(key)"); else w.settle(v); if (p != q) hit(int(o.k), n, q - p); break; }
      case CLEAR: { std::vector<T *> v(m); tr("clear%s %s %d\n", disp ? "_and_dispose" : "", nm, c); with(c, [&](auto &l) { if (disp) l.clear_and_dispose(D); else l.clear(); });
         m.clear(); if (disp) w.expect_disposed(v, "clear_and_dispose"); else w.settle(v); if (n) hit(int(o.k), n); break; }
      case LOOKUP: { int k = n && (o.a[2] & 1) ? m[o.a[3] % n]->key : rkey(o.a[3]); bool f = (o.a[4] & 1) != 0, cs = (o.a[4] & 2) != 0; tr("lookup %u of %d%s%s in %s %d\n", (o.a[4] >> 2) % 6, k, f ? " foreign" : "", cs ? " const" : "", nm, c);
         lookups(c, k, int(o.a[1]), f, cs, (o.a[4] >> 2) % 6); hit(int(o.k), n, (o.a[4] >> 2) % 6); break; }
      case T_LOOKUP: { int k = rkey(o.a[3]); uint32_t sel = (o.a[4] >> 2) % 5; tr("lookup %u of %d throwing in %s %d\n", sel, k, nm, c); bool th = attempt(o.a[2] % 12, [&] { lookups(c, k, 3, (o.a[4] & 1) != 0, (o.a[4] & 2) != 0, sel); }); hit(int(o.k), n, th); break; }
      case MERGE: case T_MERGE: { if (c == d) d = (c + 1) % NC; std::vector<T *> &ms = mod(d); tr("merge(%s %d)%s -> %s %d\n", uniq(d) ? "set" : "multiset", d, o.k == T_MERGE ? " throwing" : "", nm, c);
         if (kind == TREAP && pmode[c] != pmode[d]) return;   // transfers use the destination's priority order
         auto doit = [&] { with(c, [&](auto &l) { with(d, [&](auto &r) { l.merge(r); }); }); };
         if (o.k == T_MERGE && attempt(o.a[2] % 60, doit)) { hit(int(o.k), n, 1); std::vector<T *> all(m); all.insert(all.end(), ms.begin(), ms.end());
            size_t tot = m.size() + ms.size(); conserve({c, d}, "merge", {}, true); VF_CHECKM(O_EXC | O_SEQ, m.size() + ms.size() == tot, "merge lost elements"); sgmax[c] = std::max(sgmax[c], m.size()); break; }
         if (o.k == MERGE) doit();
         std::vector<T *> kept, src(ms); size_t ns = ms.size(); for (T *e : src) { if (uniq(c) && has(c, e->key)) kept.push_back(e); else mins(c, ub(c, e->key), e); }
         ms = kept; sgshrink(d, 0); for (T *e : ms) e->where = d; if (ns) hit(int(o.k), n, ns); break; }
      case MERGE_X: { // from a set with another comparison type
         std::vector<T *> v = grab(o.a[2], 1 + o.a[3] % 12, 0), in, out; int xm = int(o.a[4] % 2); std::vector<T *> ms; tr("merge(a set of another comparison type, %zu candidates) -> %s %d\n", v.size(), nm, c);
         { std::unique_ptr<X> x(C::template mk<X>(xm, pmode[c]));
           for (T *e : v) if (x->insert(*e).second) ms.push_back(e); else out.push_back(e);
           std::sort(ms.begin(), ms.end(), [&](T *a, T *b) { return klt(xm, a->key, b->key); });
           with(c, [&](auto &l) { l.merge(*x); });
           for (T *e : ms) { if (uniq(c) && has(c, e->key)) in.push_back(e); else mins(c, ub(c, e->key), e); }
           size_t i = 0; for (auto b = x->begin(); b != x->end() && i <= in.size(); ++b, ++i) VF_CHECKH(O_SEQ, i < in.size() && &*b == in[i], "merge left the wrong elements in its source");
           VF_CHECKH(O_SEQ, i == in.size() && x->size() == in.size(), "merge left %zu elements in its source instead of %zu", i, in.size());
           x->clear(); }
         w.settle(in); w.settle(out); hit(int(o.k), n, ms.size()); break; }
      case SWAP: { d = c ^ 1; tr("swap(%s %d, %d)\n", nm, c, d); if (c < 2) { if (o.a[2] & 1) s[0]->swap(*s[1]); else swap(*s[0], *s[1]); } else { if (o.a[2] & 1) mu[0]->swap(*mu[1]); else swap(*mu[0], *mu[1]); }
         hit(int(o.k), n, mod(d).size()); mod(c).swap(mod(d)); swapmeta(c, d); break; }
      case MOVE_CTOR: { tr("move-construct %s %d\n", nm, c); if (c < 2) { S *x = new S(boost::move(*s[c])); VF_CHECKM(O_SEQ | O_SIZE, s[c]->empty() && s[c]->size() == 0, "the source of a move construction is not empty"); delete s[c]; s[c] = x; }
         else { M *x = new M(boost::move(*mu[c - 2])); VF_CHECKM(O_SEQ | O_SIZE, mu[c - 2]->empty(), "the source of a move construction is not empty"); delete mu[c - 2]; mu[c - 2] = x; }
         if (!C::stateless) saved.clear(); hit(int(o.k), n); break; }
      case MOVE_ASSIGN: { d = c ^ 1; tr("%s %d = move(%d)\n", nm, c, d); std::vector<T *> src(mod(d)), all(src); all.insert(all.end(), m.begin(), m.end()); int md = mode[d], mp = pmode[d]; size_t sg = sgmax[d]; double al = alpha[d];
         if (c < 2) *s[c] = boost::move(*s[d]); else *mu[c - 2] = boost::move(*mu[d - 2]);
         hit(int(o.k), n, src.size());
         // the target holds the source's elements; what the moved-from container holds is read back
         std::multiset<T *> rest(m.begin(), m.end()); std::vector<T *> now; with(d, [&](auto &l) { for (auto b = l.begin(); b != l.end(); ++b) { T *p = &*b; auto f = rest.find(p); VF_CHECKH(O_SEQ, f != rest.end(), "the moved-from container holds a foreign element"); rest.erase(f); now.push_back(p); } });
         int om = mode[c], op = pmode[c]; size_t og = sgmax[c]; double oa = alpha[c];
         mod(c) = src; mode[c] = md; pmode[c] = mp; sgmax[c] = sg; alpha[c] = al;
         mod(d) = now; mode[d] = om; pmode[d] = op; sgmax[d] = std::max(og, sg); alpha[d] = std::max(oa, al);
         if (!rest.empty()) { for (T *p : rest) { if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*p), "move assignment lost a linked element"); giveback(p); } with(d, [&](auto &l) { mode[d] = l.key_comp().mode; if constexpr (kind == TREAP) pmode[d] = l.priority_comp().mode; }); }
         if constexpr (kind == SG && C::sgfloat) with(d, [&](auto &l) { double f = l.balance_factor(); alpha[d] = f; });
         break; }
      case CLONE: case T_CLONE: { d = c ^ 1; std::vector<T *> &ms = mod(d); if (ms.size() > 500) return; std::vector<T *> old(m); bool rv = (o.a[2] & 1) != 0, th = false; std::vector<std::pair<const T *, T *> > made; World<T> *pw = &w;
         tr("%s %d clone_from(%s%d)%s\n", nm, c, rv ? "move " : "", d, o.k == T_CLONE ? " throwing" : "");
         auto cl = [&](const T &x) -> typename S::pointer { tick(); T *e = pw->fresh(x.key); e->pri = x.pri; made.push_back(std::make_pair(&x, e)); return typename S::pointer(e); };
         auto clr = [&](T &x) -> typename S::pointer { return cl(x); };
         auto doit = [&] { if (c < 2) { if (rv) s[c]->clone_from(boost::move(*s[d]), clr, D); else s[c]->clone_from(const_cast<const S &>(*s[d]), cl, D); } else { if (rv) mu[c - 2]->clone_from(boost::move(*mu[d - 2]), clr, D); else mu[c - 2]->clone_from(const_cast<const M &>(*mu[d - 2]), cl, D); } };
         if (o.k == T_CLONE) th = attempt(o.a[3] % (uint32_t(ms.size()) + 1), doit); else doit();
         hit(int(o.k), ms.size(), n * 2 + th);
         std::vector<T *> gone(old);
         if (th) { for (auto &x : made) gone.push_back(x.second); m.clear(); with(c, [&](auto &l) { VF_CHECKM(O_CLONE | O_EXC, l.empty() && l.begin() == l.end() && l.size() == 0, "clone_from left elements behind after an exception"); mode[c] = l.key_comp().mode; if constexpr (kind == TREAP) pmode[c] = l.priority_comp().mode; if constexpr (kind == SG && C::sgfloat) alpha[c] = l.balance_factor(); }); sgmax[c] = 0; }
         else {
            VF_CHECKM(O_CLONE, made.size() == ms.size(), "clone_from called the cloner %zu times for %zu elements", made.size(), ms.size());
            std::map<const T *, T *> mp; bool dup = false; for (auto &x : made) dup = dup || !mp.insert(x).second;
            VF_CHECKH(O_CLONE, !dup, "clone_from cloned one element twice");
            m.clear(); for (T *e : ms) { auto f = mp.find(e); VF_CHECKH(O_CLONE, f != mp.end(), "clone_from did not clone an element"); m.push_back(f->second); }
            mode[c] = mode[d]; pmode[c] = pmode[d]; sgmax[c] = sgmax[d]; alpha[c] = alpha[d];
            size_t i = 0; with(c, [&](auto &l) { for (auto b = l.begin(); i < m.size(); ++b, ++i) VF_CHECKH(O_CLONE, b != l.end() && &*b == m[i], "the clone does not hold the clones in the source order"); });
         }
         { std::vector<T *> a(gone), b(w.disposed); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECKH(O_DISP | O_CLONE, a == b, "clone_from%s: %zu elements should have been disposed of, the disposer got %zu", th ? " (failed)" : "", a.size(), b.size()); w.settle(gone); w.disposed.clear(); }
         break; }
      case REPLACE: { if (!n) return; size_t p = o.a[2] % n; T *x = m[p], *y = elem(o.a[3], x->key); y->pri = x->pri; tr("replace_node(@%zu) %s %d\n", p, nm, c); with(c, [&](auto &l) { l.replace_node(this->it(c, p), *y); });
         m[p] = y; if (C::meaningful) giveback(x); else { x->where = -1; w.pool.push_back(x); } hit(int(o.k), n, p); break; }
      case REBAL: if constexpr (kind == BS || kind == SG || kind == SPLAYT) { if (!n) return; size_t p = o.a[2] % n; bool whole = (o.a[3] & 3) == 0; tr("rebalance%s %s %d\n", whole ? "" : "_subtree", nm, c);
         with(c, [&](auto &l) { if (whole) l.rebalance(); else { It i = this->it(c, p); const void *sub = raw(i.pointed_node()); std::set<const void *> below; collect(i.pointed_node(), below); (void)sub; It r = l.rebalance_subtree(i);
               std::set<const void *> after; collect(r.pointed_node(), after); VF_CHECKM(O_SHAPE, below == after, "rebalance_subtree returned a root of different elements");
               long hh = height(r.pointed_node()); VF_CHECKM(O_SHAPE, hh <= long(std::floor(std::log2(double(below.size())))) + 1, "a rebalanced subtree of %zu elements has height %ld", below.size(), hh); }
            if (whole) { long hh = height(l.root().pointed_node()); VF_CHECKM(O_SHAPE, hh <= long(std::floor(std::log2(double(n)))) + 1, "a rebalanced tree of %zu elements has height %ld", n, hh); } });
         hit(int(o.k), n, p); break; } else return;
      case UNLINK_LEFT: { tr("unlink_leftmost_without_rebalance until empty, %s %d\n", nm, c); { with(c, [&](auto &l) { for (size_t i = 0; i <= n; ++i) { auto p = l.unlink_leftmost_without_rebalance(); VF_CHECKH(O_SEQ, raw(p) == (i < n ? m[i] : (T *)0), "unlink_leftmost_without_rebalance returned the wrong element"); if (C::meaningful && p) VF_CHECKM(O_HOOK, !C::linked(*p), "an unlinked element says it is linked"); if (i < n) VF_CHECKM(O_SIZE, l.size() == 0 || C::nocts_size(l) || l.size() == n - 1 - i, "size during unlinking"); } });
         std::vector<T *> v(m); m.clear(); w.settle(v); if (n) hit(int(o.k), n); break; } }
      case REMOVE_NODE: if constexpr (!S::constant_time_size && C::stateless && kind != TREAP && kind != SG) { if (!n) return; size_t p = o.a[2] % n; T *e = m[p]; tr("remove_node(@%zu) %s %d\n", p, nm, c); if (c < 2) S::remove_node(*e); else M::remove_node(*e); mdel(c, p); giveback(e); hit(int(o.k), n, p); break; } else return;
      case SPLAY: if constexpr (kind == SPLAYT) { size_t p = n ? o.a[2] % n : 0; int k = rkey(o.a[3]); uint32_t how = o.a[4] % 3; if (how == 0 && !n) return; tr("splay_%s %s %d\n", how ? "down" : "up", nm, c);
         with(c, [&](auto &l) { if (how == 0) { l.splay_up(this->it(c, p)); VF_CHECKM(O_SHAPE, &*l.root() == m[p], "splay_up did not bring the element to the root"); }
            else { It r = how == 1 ? l.splay_down(this->karg(k)) : l.splay_down(Probe{k}, FC{mode[c]}); if (!n) VF_CHECKM(O_SHAPE, r == l.end(), "splay_down of an empty tree is not end()"); else { VF_CHECKM(O_SHAPE, r != l.end(), "splay_down returned end() on a non-empty tree"); if (has(c, k)) VF_CHECKM(O_SHAPE, !klt(mode[c], l.root()->key, k) && !klt(mode[c], k, l.root()->key) && r == l.root(), "splay_down did not bring an equivalent element to the root"); } } });
         hit(int(o.k), n, p); break; } else return;
      case ALPHA: if constexpr (kind == SG && C::sgfloat) { static const float AL[] = {0.51f, 0.6f, 0.70710677f, 0.8f, 0.95f, 0.99f}; float f = AL[o.a[2] % 6]; tr("balance_factor(%.3f) %s %d\n", f, nm, c); with(c, [&](auto &l) { l.balance_factor(f); VF_CHECKM(O_SHAPE, l.balance_factor() == f, "balance_factor() is not what was set"); });
         alpha[c] = f; sgmax[c] = n; hit(int(o.k), n); 
         // a smaller factor rebuilds the tree; a larger one leaves the maximum size as it was
         sgmax[c] = std::max(sgmax[c], size_t(double(n) / f) + 1); break; } else return;
      case CMP: { d = c ^ 1; std::vector<T *> &t = mod(d); tr("compare %s %d with %d\n", nm, c, d); auto lt = [](T *p, T *q) { return p->key < q->key; }; auto eq = [](T *p, T *q) { return p->key == q->key; };
         bool e = m.size() == t.size() && std::equal(m.begin(), m.end(), t.begin(), eq), ls = std::lexicographical_compare(m.begin(), m.end(), t.begin(), t.end(), lt), gt = std::lexicographical_compare(t.begin(), t.end(), m.begin(), m.end(), lt);
         auto chk = [&](const auto &x, const auto &y) { VF_CHECKM(O_CMP, (x == y) == e && (x != y) == !e, "operator==/!= wrong for %s and %s", keys(m).c_str(), keys(t).c_str()); VF_CHECKM(O_CMP, (x < y) == ls && (x > y) == gt && (x <= y) == !gt && (x >= y) == !ls, "an ordering operator is wrong for %s and %s", keys(m).c_str(), keys(t).c_str()); };
         if (c < 2) chk(*s[c], *s[d]); else chk(*mu[c - 2], *mu[d - 2]); hit(int(o.k), n, t.size() * 4 + e * 2 + ls); break; }
      case EQ_MAKE: { d = c ^ 1; std::vector<T *> old(mod(d)); with(d, [&](auto &l) { l.clear(); }); mod(d).clear(); sgmax[d] = 0; w.settle(old); size_t k = n - ((o.a[2] & 3) == 0 && n ? 1 : 0); tr("%s %d := copy of the first %zu keys of %d\n", nm, d, k, c);
         for (size_t i = 0; i < k; ++i) { T *e = elem(o.a[3] + uint32_t(i), m[i]->key + ((o.a[2] & 12) == 0 && i + 1 == k ? 2 : 0)); with(d, [&](auto &l) { l.insert(*e); }); if (!minsert(d, e)) giveback(e); } break; }
      case SAVE_ITER: { if (!n) return; size_t p = o.a[2] % n; if (saved.size() < 24) saved.push_back(Saved{it(c, p), m[p]}); hit(int(o.k), n, p); break; }
      case CONV: { tr("conversions of %s %d\n", nm, c); with(c, [&](auto &x) { typedef typename std::remove_reference<decltype(x)>::type L; const L &k = x;
         if constexpr (kind == TREAP) { auto r = x.rtop(); auto r1 = k.rtop(); auto r2 = k.crtop(); VF_CHECKM(O_ITER, n ? r != x.rend() && &*r == &*x.top() && &*r1 == &*r && &*r2 == &*r : r == x.rend() && r1 == k.rend() && r2 == k.crend() && x.top() == x.end(), "rtop() is not the first-priority element"); }
            for (size_t i = 0; i < n; ++i) { It a = x.iterator_to(*m[i]); Cit b = k.iterator_to(*m[i]); VF_CHECKM(O_ITER, &*a == m[i] && &*b == m[i] && Cit(a) == b, "iterator_to does not designate the element");
               if constexpr (C::stateless) VF_CHECKM(O_ITER, &*L::s_iterator_to(*m[i]) == m[i] && &*L::s_iterator_to(const_cast<const T &>(*m[i])) == m[i], "s_iterator_to does not designate the element");
               Cit nx = b; ++nx; VF_CHECKM(O_ITER, i + 1 < n ? &*nx == m[i + 1] : nx == k.end(), "iterator_to + 1 is not the next element"); { Cit z; z = a; It y2; y2 = a; VF_CHECKM(O_ITER, z == b && y2 == a && &*z == m[i] && &*y2 == m[i], "assigning an iterator does not copy its position"); z = nx; VF_CHECKM(O_ITER, z == nx, "assigning an iterator does not copy its position"); } It post = a; It o2 = post++; VF_CHECKM(O_ITER, o2 == a && Cit(post) == nx && raw(a.operator->()) == m[i], "post-increment / arrow"); It pre = post; It o3 = pre--; VF_CHECKM(O_ITER, o3 == post && pre == a, "post-decrement"); }
            if constexpr (C::default_header) VF_CHECKM(O_ITER, &L::container_from_end_iterator(x.end()) == &x && &L::container_from_end_iterator(k.end()) == &k, "container_from_end_iterator does not return the container");
            VF_CHECKM(O_ITER, x.begin() == k.begin() && k.cbegin() == Cit(x.begin()) && x.end() == k.cend() && (n == 0) == (x.begin() == x.end()) && x.root() == k.root() && k.croot() == k.root(), "begin/end/root variants disagree");
            VF_CHECKM(O_ITER, It() == It(), "value-initialised iterators differ"); if (const char *why = iter_types<It, Cit, T>(true)) VF_CHECKM(O_ITER, false, "iterator types: %s", why);
            if constexpr (kind != TREAP || true) k.check(); }); hit(int(o.k), n); break; }
      case HOOK_UNLINK: case DTOR_UNLINK: if constexpr (C::autou) { if (!n) return; size_t i = o.a[2] % n; T *e = m[i]; mdel(c, i);
         if (o.k == HOOK_UNLINK) { tr("element @%zu of %s %d unlinks itself\n", i, nm, c); e->hook().unlink(); VF_CHECKM(O_HOOK, !e->hook().is_linked(), "unlink() left the hook linked"); if (o.a[3] & 1) e->hook().unlink(); giveback(e); }
         else { tr("element @%zu of %s %d is destroyed\n", i, nm, c); w.kill(e); } hit(int(o.k), n, i); break; } else return;
      case HOOK_COPY: { if (!n) return; T *e = m[o.a[2] % n]; tr("copy an element of %s %d, assign to one\n", nm, c); T *q = w.fresh_keep(new T(*e)); w.pool.push_back(q); if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*q), "a copy of a linked element is linked");
         if (C::hooked) { *e = *q; *q = *e; if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*q), "assignment from a linked element linked the target"); } hit(int(o.k), n); break; }
      case HOOK_SWAP: if constexpr (C::hooked && C::meaningful && !C::any) { if (!n) return; size_t i = o.a[2] % n; T *x = m[i];
         if ((o.a[4] & 7) == 0 && !w.pool.empty()) { size_t j = o.a[3] % w.pool.size(); T *y = w.pool[j]; tr("hook swap: %s %d @%zu with an unlinked element\n", nm, c, i); if (o.a[4] & 8) x->hook().swap_nodes(y->hook()); else y->hook().swap_nodes(x->hook());
            std::swap(x->key, y->key); std::swap(x->pri, y->pri); m[i] = y; w.pool[j] = x; x->where = -1; hit(int(o.k), n, i); break; }
         std::vector<T *> &t = mod(d); if (t.empty()) return; size_t j = o.a[3] % t.size(); T *y = t[j]; tr("hook swap: %d @%zu with %d @%zu\n", c, i, d, j); x->hook().swap_nodes(y->hook()); std::swap(x->key, y->key); std::swap(x->pri, y->pri); m[i] = y; if (!(c == d && i == j)) t[j] = x; hit(int(o.k), n, i); break; } else return;
      case RECREATE: case T_CTOR: { std::vector<T *> old(m), v = grab(o.a[2], o.a[3] % 12, int(o.a[4] % 3)); int md = int((o.a[4] >> 2) % 3), pm = int((o.a[4] >> 4) & 1); tr("destroy %s %d, construct from a range of %zu with comparison %d%s\n", nm, c, v.size(), md, o.k == T_CTOR ? ", throwing" : "");
         if (!C::meaningful) with(c, [&](auto &l) { l.clear(); });
         if (c < 2) { delete s[c]; s[c] = nullptr; } else { delete mu[c - 2]; mu[c - 2] = nullptr; } if (!C::stateless) saved.clear();
         if (C::meaningful) for (T *e : old) VF_CHECKM(O_HOOK, !C::linked(*e), "element %u still linked after its container was destroyed", e->id);
         w.settle(old); m.clear(); mode[c] = md; pmode[c] = pm; sgmax[c] = 0; alpha[c] = 0.70710677; bool th = false;
         auto doit = [&] { if (c < 2) s[c] = C::template mkr<S>(DI{v.begin()}, DI{v.end()}, md, pm); else mu[c - 2] = C::template mkr<M>(DI{v.begin()}, DI{v.end()}, md, pm); };
         if (o.k == T_CTOR) th = attempt(o.a[1] % 40, doit); else doit();
         if (th) { if (c < 2) s[c] = C::template mk<S>(md, pm); else mu[c - 2] = C::template mk<M>(md, pm); if (C::meaningful) for (T *e : v) VF_CHECKM(O_EXC, !C::linked(*e), "a range constructor threw but element %u stayed linked", e->id); w.settle(v); }
         else for (T *e : v) if (!minsert(c, e)) giveback(e);
         hit(int(o.k), n, v.size() * 2 + th); break; }
      case DISP_MOVE: { if (c == d || uniq(d)) d = 2 + (c & 1); if (c == d) return; if (kind == TREAP && false) return; size_t p = o.a[2] % (n + 1), q = p + o.a[3] % (n - p + 1); bool all = (o.a[4] & 4) != 0; if (all) { p = 0; q = n; } tr("%s %s %d disposing into multiset %d\n", all ? "clear" : "erase a range of", nm, c, d); M *t = mu[d - 2]; std::vector<T *> got; auto mv = [t, &got](typename S::pointer e) { got.push_back(raw(e)); t->insert(*e); };
         std::vector<T *> v(m.begin() + long(p), m.begin() + long(q)); with(c, [&](auto &l) { if (all) l.clear_and_dispose(mv); else l.erase_and_dispose(this->cit(c, p), this->cit(c, q), mv); });
         for (size_t i = p; i < q; ++i) mdel(c, p); std::vector<T *> a(v), b(got); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECKH(O_DISP | O_SEQ, a == b, "the disposer got %zu elements, %zu were removed", b.size(), a.size()); for (T *e : got) mins(d, ub(d, e->key), e); if (!v.empty()) hit(int(o.k), n, v.size()); break; }
      default: return;
      }
      verify_all();
   }
   void collect(NP p, std::set<const void *> &r) { if (!p || r.size() > 4000) return; r.insert(raw(p)); collect(NT::get_left(p), r); collect(NT::get_right(p), r); }
   long height(NP p) { return p ? 1 + std::max(height(NT::get_left(p)), height(NT::get_right(p))) : 0; }
   void swapmeta(int c, int d) { std::swap(mode[c], mode[d]); std::swap(pmode[c], pmode[d]); std::swap(sgmax[c], sgmax[d]); std::swap(alpha[c], alpha[d]); }

   void run(const Case &cs) {
      static const uint32_t KR[] = {2, 3, 6, 16, 60, 2000};
      w.keyrange = KR[cs.cfg[1] % 6];
      prange = (cs.cfg[6] & 3) == 0 ? 3 : 1000;
      if (C::meaningful) w.linked = &C::linked;
      probe = new T; probe2 = new T;
      for (int i = 0; i < NC; ++i) { mode[i] = (cs.cfg[4] >> (2 * i)) % 4 % 3; pmode[i] = (cs.cfg[5] & 7) == 0 ? int(cs.cfg[5] >> (3 + i)) & 1 : int(cs.cfg[5] >> 4) & 1; sgmax[i] = 0; alpha[i] = 0.70710677;
         if (i < 2) s[i] = C::template mk<S>(mode[i], pmode[i]); else mu[i - 2] = C::template mk<M>(mode[i], pmode[i]); }
      static const uint32_t FILL[] = {0, 0, 0, 0, 0, 4, 12, 40, 40, 150};
      Rng r(cs.cfg[3]);
      for (int i = 0; i < NC; ++i) {
         uint32_t nf = r.below(FILL[cs.cfg[2] % 10] + 1);
         if (nf) tr("container %d starts with up to %u elements\n", i, nf);
         while (nf--) { T *e = elem(r.u32() >> 8, int(r.below(w.keyrange))); with(i, [&](auto &l) { l.insert(*e); }); if (!minsert(i, e)) giveback(e); }
      }
      verify_all();
      g().opi = 0;
      for (auto &o : cs.ops) { op(o); ++g().opi; }
      for (int i = 0; i < NC; ++i) {
         if (!C::meaningful) with(i, [&](auto &l) { l.clear(); });
         std::vector<T *> v(mod(i)); if (i < 2) delete s[i]; else delete mu[i - 2];
         if (C::meaningful) for (T *e : v) VF_CHECKM(O_HOOK, !C::linked(*e), "element %u still linked after its container was destroyed", e->id);
      }
      std::vector<T *> all(w.live.begin(), w.live.end());
      for (T *e : all) w.kill(e);
      delete probe; delete probe2;
   }
};

// ---- configurations ----------------------------------------------------------
template <int> struct KindOf;
template <> struct KindOf<RB> { template <class T, class... O> using S = bi::set<T, O...>; template <class T, class... O> using M = bi::multiset<T, O...>; };
template <> struct KindOf<AVL> { template <class T, class... O> using S = bi::avl_set<T, O...>; template <class T, class... O> using M = bi::avl_multiset<T, O...>; };
template <> struct KindOf<BS> { template <class T, class... O> using S = bi::bs_set<T, O...>; template <class T, class... O> using M = bi::bs_multiset<T, O...>; };
template <> struct KindOf<SPLAYT> { template <class T, class... O> using S = bi::splay_set<T, O...>; template <class T, class... O> using M = bi::splay_multiset<T, O...>; };
template <> struct KindOf<TREAP> { template <class T, class... O> using S = bi::treap_set<T, O...>; template <class T, class... O> using M = bi::treap_multiset<T, O...>; };
template <> struct KindOf<SG> { template <class T, class... O> using S = bi::sg_set<T, O...>; template <class T, class... O> using M = bi::sg_multiset<T, O...>; };

// the tree classes themselves, used as a set or as a multiset; the multisets also see unique insertions (MIXED)
template <class B, bool U> struct Direct : B {
   typedef typename B::iterator iterator; typedef typename B::const_iterator const_iterator; typedef typename B::reference reference;
   typedef typename B::key_type key_type; typedef typename B::key_compare key_compare; typedef typename B::insert_commit_data insert_commit_data; typedef typename B::value_traits value_traits;
   static const bool direct = true;
   Direct() {}
   explicit Direct(const key_compare &k) : B(k) {}
   template <class P> Direct(const key_compare &k, const P &p) : B(k, p) {}
   template <class I> Direct(I b, I e, const key_compare &k) : B(U, b, e, k) {}
   template <class I, class P> Direct(I b, I e, const key_compare &k, const P &p) : B(U, b, e, k, p) {}
   Direct(Direct &&o) : B(boost::move(static_cast<B &>(o))) {}
   Direct &operator=(Direct &&o) { B::operator=(boost::move(static_cast<B &>(o))); return *this; }
   friend void swap(Direct &x, Direct &y) { x.B::swap(y); }
   auto insert(reference v) { if constexpr (U) return B::insert_unique(v); else return B::insert_equal(v); }
   iterator insert(const_iterator h, reference v) { if constexpr (U) return B::insert_unique(h, v); else return B::insert_equal(h, v); }
   template <class I, class = typename std::enable_if<!std::is_convertible<I, const_iterator>::value>::type> void insert(I b, I e) { if constexpr (U) B::insert_unique(b, e); else B::insert_equal(b, e); }
   template <class... A> auto insert_check(A &&...a) { return B::insert_unique_check(static_cast<A &&>(a)...); }
   iterator insert_commit(reference v, const insert_commit_data &d) { return B::insert_unique_commit(v, d); }
   template <class O> void merge(O &o) { if constexpr (U) B::merge_unique(o); else B::merge_equal(o); }
   template <class Cl, class Di> void clone_from(const Direct &o, Cl c, Di d) { B::clone_from(static_cast<const B &>(o), c, d); }
   template <class Cl, class Di> void clone_from(Direct &&o, Cl c, Di d) { B::clone_from(boost::move(static_cast<B &>(o)), c, d); }
};
enum { DIRECT = 100 };
#define VF_DIRECT(K, TREE) template <> struct KindOf<DIRECT + K> { template <class T, class... O> using S = Direct<bi::TREE<T, O...>, true>; template <class T, class... O> using M = Direct<bi::TREE<T, O...>, false>; };
VF_DIRECT(RB, rbtree) VF_DIRECT(AVL, avltree) VF_DIRECT(BS, bstree) VF_DIRECT(SPLAYT, splaytree) VF_DIRECT(TREAP, treap) VF_DIRECT(SG, sgtree)

// K kind, T element, HO hook option, Cts counted size, Kov key of value, LM link mode
template <int KD, class T, class HO, bool Cts, bool Kov, int LM, class Sz = std::size_t, class HH = void, bool Fl = true, class... PO>
struct Cfg {
   static const int K = KD % DIRECT;
   static const Kind kind = Kind(K);
   static const bool kov = Kov, pov = false, meaningful = LM != int(bi::normal_link), autou = LM == int(bi::auto_unlink), hooked = true, any = false, stateless = true, default_header = std::is_same<HH, void>::value, sgfloat = K == SG && Fl, fancy = false;
   typedef bi::key_of_value<typename std::conditional<Kov, KOV<T>, void>::type> KO;
   template <class Cmp, template <class, class...> class X> struct pick {
      template <int KK, class Dummy> struct opt { typedef X<T, HO, bi::compare<Cmp>, bi::constant_time_size<Cts>, bi::size_type<Sz>, KO, bi::header_holder_type<HH> > type; };
      template <class Dummy> struct opt<SG, Dummy> { typedef X<T, HO, bi::compare<Cmp>, bi::floating_point<Fl>, bi::size_type<Sz>, KO, bi::header_holder_type<HH> > type; };
      template <class Dummy> struct opt<TREAP, Dummy> { typedef X<T, HO, bi::compare<Cmp>, bi::constant_time_size<Cts>, bi::size_type<Sz>, KO, bi::header_holder_type<HH>, bi::priority<PC>, PO...> type; };
      typedef typename opt<K, void>::type type;
   };
   typedef typename pick<KC, KindOf<KD>::template S>::type S;
   typedef typename pick<KC, KindOf<KD>::template M>::type M;
   typedef typename pick<KC2, KindOf<KD>::template S>::type X;
   static bool linked(const T &e) { return e.hook().is_linked(); }
   static const typename S::value_traits &vt() { static typename S::value_traits v; return v; }
   template <class L> static bool nocts_size(L &) { return !L::constant_time_size; }
   template <class L> static L *mk(int mode, int pm) { typename L::key_compare kc(mode); if constexpr (K == TREAP) return new L(kc, PC(pm)); else return new L(kc); }
   template <class L, class I> static L *mkr(I b, I e, int mode, int pm) { typename L::key_compare kc(mode); if constexpr (K == TREAP) return new L(b, e, kc, PC(pm)); else return new L(b, e, kc); }
};
template <class C> void go(const Case &c) { std::unique_ptr<TreeRun<C> > r(new TreeRun<C>); r->run(c); }
template <int P, bool On = (VF_PART < 0 || VF_PART == P)> struct Reg { template <class C> static void add(const char *n) { configs().push_back({n, go<C>}); } };
template <int P> struct Reg<P, false> { template <class C> static void add(const char *) {} };

using bi::link_mode; using bi::void_pointer; using bi::optimize_size;

typedef ElemB<bi::set_base_hook<> > TA; struct A1 : Cfg<RB, TA, bi::base_hook<bi::set_base_hook<> >, true, false, bi::safe_link> {};
typedef bi::set_base_hook<link_mode<bi::auto_unlink>, optimize_size<true> > HB; typedef ElemB<HB> TB; struct B1 : Cfg<RB, TB, bi::base_hook<HB>, false, true, bi::auto_unlink> {};
typedef bi::set_member_hook<void_pointer<fptr<void> > > HC_; typedef ElemM<HC_> TC_; struct C1 : Cfg<RB, TC_, bi::member_hook<TC_, HC_, &TC_::h>, true, false, bi::safe_link, unsigned short> { static const bool fancy = true; };
typedef bi::set_member_hook<link_mode<bi::normal_link>, optimize_size<true> > HD; typedef ElemM<HD> TD; struct D1 : Cfg<RB, TD, bi::member_hook<TD, HD, &TD::h>, false, true, bi::normal_link, std::size_t, far_holder<HD::hooktags::node_traits::node> > { static bool linked(const TD &) { return false; } };
typedef ElemB<bi::avl_set_base_hook<> > TE; struct E1 : Cfg<AVL, TE, bi::base_hook<bi::avl_set_base_hook<> >, true, false, bi::safe_link> {};
typedef bi::avl_set_member_hook<link_mode<bi::auto_unlink>, optimize_size<true> > HF; typedef ElemM<HF> TF; struct F1 : Cfg<AVL, TF, bi::member_hook<TF, HF, &TF::h>, false, true, bi::auto_unlink> {};
typedef bi::avl_set_member_hook<void_pointer<fptr<void> >, link_mode<bi::auto_unlink> > HG; typedef ElemM<HG> TG; struct G1 : Cfg<AVL, TG, bi::member_hook<TG, HG, &TG::h>, false, false, bi::auto_unlink> { static const bool fancy = true; };
typedef bi::bs_set_base_hook<link_mode<bi::auto_unlink> > HH_; typedef ElemB<HH_> TH_; struct H1 : Cfg<BS, TH_, bi::base_hook<HH_>, false, false, bi::auto_unlink> {};
typedef ElemB<bi::bs_set_base_hook<> > TI; struct I1 : Cfg<BS, TI, bi::base_hook<bi::bs_set_base_hook<> >, true, true, bi::safe_link> {};
struct J1 : Cfg<SG, TI, bi::base_hook<bi::bs_set_base_hook<> >, true, false, bi::safe_link, unsigned short, void, false> {};
typedef ElemB<bi::bs_set_base_hook<> > TK; struct K1 : Cfg<SPLAYT, TK, bi::base_hook<bi::bs_set_base_hook<> >, true, false, bi::safe_link> {};
typedef bi::bs_set_member_hook<link_mode<bi::auto_unlink>, void_pointer<fptr<void> > > HL; typedef ElemM<HL> TL; struct L1 : Cfg<SPLAYT, TL, bi::member_hook<TL, HL, &TL::h>, false, true, bi::auto_unlink> { static const bool fancy = true; };
typedef ElemB<bi::bs_set_base_hook<> > TN; struct N1 : Cfg<TREAP, TN, bi::base_hook<bi::bs_set_base_hook<> >, true, false, bi::safe_link> {};
typedef bi::bs_set_member_hook<link_mode<bi::normal_link> > HO_; typedef ElemM<HO_> TO_; struct O1 : Cfg<TREAP, TO_, bi::member_hook<TO_, HO_, &TO_::h>, false, true, bi::normal_link, std::size_t, void, true, bi::priority_of_value<POV<TO_> > > { static const bool pov = true; static bool linked(const TO_ &) { return false; } };
typedef ElemM<bi::bs_set_member_hook<> > TP; struct P1 : Cfg<SG, TP, bi::member_hook<TP, bi::bs_set_member_hook<>, &TP::h>, true, true, bi::safe_link> {};
typedef ElemB<bi::any_base_hook<> > TQ; struct Q1 : Cfg<RB, TQ, bi::any_to_set_hook<bi::base_hook<bi::any_base_hook<> > >, true, false, bi::safe_link> { static const bool any = true; };

typedef ElemM<bi::set_member_hook<> > TR_; typedef bi::member_hook<TR_, bi::set_member_hook<>, &TR_::h> OR_; struct R1 : Cfg<DIRECT + RB, TR_, OR_, true, true, bi::safe_link> {};
typedef ElemB<bi::avl_set_base_hook<> > TS_; struct S1 : Cfg<DIRECT + AVL, TS_, bi::base_hook<bi::avl_set_base_hook<> >, true, false, bi::safe_link, unsigned short> {};
typedef ElemM<bi::bs_set_member_hook<> > TT_; typedef bi::member_hook<TT_, bi::bs_set_member_hook<>, &TT_::h> OT_;
struct T1 : Cfg<DIRECT + BS, TT_, OT_, false, false, bi::safe_link> {};
struct U1 : Cfg<DIRECT + SPLAYT, TT_, OT_, false, true, bi::safe_link> {};
struct V1 : Cfg<DIRECT + TREAP, TT_, OT_, false, true, bi::safe_link> {};
struct W1 : Cfg<DIRECT + SG, TT_, OT_, true, false, bi::safe_link> {};

static void profile(const std::string &pr, Profile &p) {
   p.put({{INSERT, 40}, {INSERT_H, 16}, {INSERT_R, 6}, {CHECK_COMMIT, 8}, {CHECK_COMMIT_H, 8}, {POS_INSERT, 12}, {ERASE1, 14}, {ERASE_R, 4}, {ERASE_K, 8}, {CLEAR, 1}, {LOOKUP, 20}, {MERGE, 5}, {MERGE_X, 3},
      {SWAP, 3}, {MOVE_CTOR, 2}, {MOVE_ASSIGN, 2}, {CLONE, 3}, {REPLACE, 5}, {REBAL, 4}, {UNLINK_LEFT, 1}, {REMOVE_NODE, 5}, {SPLAY, 6}, {ALPHA, 3}, {CMP, 2}, {EQ_MAKE, 1}, {SAVE_ITER, 5}, {CONV, 2}, {HOOK_UNLINK, 5}, {DTOR_UNLINK, 4},
      {HOOK_COPY, 2}, {HOOK_SWAP, 4}, {RECREATE, 2}, {BULK, 4}, {DISP_MOVE, 2}, {MIXED, 10}});
   unsigned base = O_SEQ;
   if (pr == "C03") { p.mask = base | O_SIZE; p.boost({LOOKUP}, 2); p.focus.clear(); }
   else if (pr == "C04") { p.put({{T_INSERT, 5}, {T_INSERT_R, 3}, {T_MERGE, 5}, {T_POS, 4}, {T_ERASE, 4}, {T_CLONE, 4}}); p.mask = base | O_SHAPE; p.boost({ERASE1, BULK, REBAL, SPLAY, ALPHA, HOOK_SWAP, ERASE_R}, 2); p.focus.clear(); }
   else if (pr == "C07") { p.put({{T_INSERT, 5}, {T_INSERT_R, 3}, {T_MERGE, 5}, {T_POS, 4}, {T_ERASE, 4}, {T_CLONE, 4}}); p.mask = base | O_HOOK; p.boost({ERASE1, ERASE_R, ERASE_K, CLEAR, HOOK_COPY, HOOK_SWAP, RECREATE, UNLINK_LEFT, REPLACE, REMOVE_NODE}, 3); }
   else if (pr == "C08") { p.mask = base | O_HOOK | O_SIZE | O_SHAPE; p.only_cfg_name = "auto"; p.boost({HOOK_UNLINK, DTOR_UNLINK}, 6); p.must({HOOK_UNLINK, DTOR_UNLINK}); }
   else if (pr == "C09") { p.mask = base | O_DISP; p.boost({ERASE1, ERASE_R, ERASE_K, CLEAR, DISP_MOVE, CLONE}, 3); }
   else if (pr == "C10") { p.mask = base | O_CLONE | O_SIZE | O_SHAPE; p.boost({CLONE}, 10); p.must({CLONE}); }
   else if (pr == "C11") { p.put({{T_CLONE, 24}}); p.mask = base | O_CLONE | O_EXC | O_DISP | O_HOOK | O_SIZE | O_SHAPE; p.focus = {T_CLONE}; p.must({T_CLONE}); }
   else if (pr == "C12") { p.put({{T_INSERT, 12}, {T_INSERT_R, 6}, {T_LOOKUP, 10}, {T_MERGE, 8}, {T_POS, 8}, {T_ERASE, 8}, {T_CTOR, 5}}); p.mask = base | O_EXC | O_SIZE | O_SHAPE | O_HOOK; p.focus = {T_INSERT, T_INSERT_R, T_LOOKUP, T_MERGE, T_POS, T_ERASE, T_CTOR}; p.must({T_INSERT, T_MERGE, T_POS, T_ERASE}); }
   else if (pr == "C13") { p.put({{T_INSERT, 5}, {T_INSERT_R, 3}, {T_MERGE, 5}, {T_POS, 4}, {T_ERASE, 4}, {T_CLONE, 4}}); p.mask = base | O_SIZE; }
   else if (pr == "C14") { p.put({{T_MERGE, 5}}); p.mask = base | O_SIZE | O_SHAPE; p.boost({MERGE, MERGE_X, SWAP, MOVE_CTOR, MOVE_ASSIGN}, 6); }
   else if (pr == "C15") { p.mask = base; p.boost({INSERT, INSERT_H, BULK, ERASE1, REBAL, CLONE, MERGE, POS_INSERT}, 2); }
   else if (pr == "C16") { p.mask = base | O_ITER; p.boost({SAVE_ITER, CONV}, 5); p.must({SAVE_ITER}); }
   else if (pr == "C19") { p.mask = base | O_SHAPE; p.boost({INSERT_H, CHECK_COMMIT, CHECK_COMMIT_H, POS_INSERT}, 6); }
   else if (pr == "C20") { p.mask = base | O_CMP; p.boost({CMP, EQ_MAKE}, 10); p.must({CMP, EQ_MAKE}); p.focus = {CMP}; }
}

int main(int argc, char **argv) {
   Reg<0>::add<A1>("rb base safe cts");
   Reg<1>::add<B1>("rb base compact auto key-of-value");
   Reg<2>::add<C1>("rb member selfrel-ptr safe cts u16");
   Reg<3>::add<D1>("rb member compact normal key-of-value far header");
   Reg<4>::add<E1>("avl base safe cts");
   Reg<5>::add<F1>("avl member compact auto key-of-value");
   Reg<6>::add<G1>("avl member selfrel-ptr auto");
   Reg<7>::add<H1>("bs base auto");
   Reg<8>::add<I1>("bs base safe cts key-of-value");
   Reg<9>::add<J1>("sg base safe integer u16");
   Reg<10>::add<K1>("splay base safe cts");
   Reg<11>::add<L1>("splay member selfrel-ptr auto key-of-value");
   Reg<12>::add<N1>("treap base safe cts");
   Reg<13>::add<O1>("treap member normal key-of-value priority-of-value");
   Reg<14>::add<P1>("sg member safe floating key-of-value");
   Reg<15>::add<Q1>("rb any hook cts");
   Reg<16>::add<R1>("rbtree class member safe cts key-of-value");
   Reg<17>::add<S1>("avltree class base safe cts u16");
   Reg<18>::add<T1>("bstree class member safe");
   Reg<19>::add<U1>("splaytree class member safe key-of-value");
   Reg<20>::add<V1>("treap class member safe key-of-value");
   Reg<21>::add<W1>("sgtree class member safe floating");
   engine() = {"tree", profile};
   return harness_main(argc, argv);
}
