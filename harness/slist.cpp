// boost::intrusive::slist against a vector model, over linear / cache_last / constant_time_size, link modes and pointers.
#include "seq.hpp"
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
using namespace vf;

enum {
   PUSH_BACK = 1, PUSH_FRONT, POP_FRONT, INSERT1, INSERT_R, ERASE1, ERASE_R, ERASE_RN, CLEAR, ASSIGN,
   SPLICE_ALL, SPLICE1, SPLICE_R, SPLICE_RN, SWAP, SORT, MERGE, REVERSE, REMOVE, REMOVE_IF, UNIQUE, SHIFT,
   CLONE, MOVE_CTOR, MOVE_ASSIGN, CMP, SAVE_ITER, HOOK_UNLINK, HOOK_COPY, HOOK_SWAP, RECREATE, CONV,
   T_SORT, T_MERGE, T_REMOVE, T_UNIQUE, T_CLONE, DTOR_UNLINK, DISP_MOVE, EQ_MAKE, INCORP, STATIC_OPS
};

struct Cmp {
   int mode;
   bool operator()(const EB &a, const EB &b) const {
      tick();
      if (mode == 0) return a.key < b.key;
      if (mode == 1) return a.key > b.key;
      return a.key / 2 < b.key / 2;
   }
};
struct EqPred {
   int mode;
   bool operator()(const EB &a, const EB &b) const {
      tick();
      if (mode == 0) return a.key == b.key;
      if (mode == 1) return a.key / 2 == b.key / 2;
      return a.key <= b.key;
   }
};
struct UPred {
   int mode, v;
   bool operator()(const EB &a) const {
      tick();
      if (mode == 0) return a.key == v;
      if (mode == 1) return a.key < v;
      if (mode == 2) return (a.id & 1) != 0;
      return (a.key ^ v) & 1;
   }
};

template <class C> struct SlistRun {
   typedef typename C::L L;
   typedef typename L::value_type T;
   typedef typename L::iterator It;
   typedef typename L::const_iterator Cit;
   typedef typename L::size_type Sz;
   static const int NC = 3;
   static const bool CL = L::cache_last;
   typedef std::integral_constant<bool, L::cache_last> cl_t;
   World<T> w;
   L *l[NC];
   struct Saved { It it; T *e; };
   std::vector<Saved> saved;

   Cit cit(int c, size_t i) { Cit r = l[c]->cbegin(); while (i--) ++r; return r; }
   It it(int c, size_t i) { It r = l[c]->begin(); while (i--) ++r; return r; }
   Cit bit(int c, size_t i) { Cit r = l[c]->cbefore_begin(); while (i--) ++r; return r; }   // the iterator before position i
   // an element that ends a linear list cannot be told from an unlinked one
   bool says_linked_ok(T *e, bool last) { return C::linked(*e) || (L::linear && last); }

   void last_checks(int c, std::true_type) {
      L &x = *l[c]; const L &k = x; std::vector<T *> &m = w.m[c];
      if (m.empty()) VF_CHECKM(O_SEQ, x.last() == x.before_begin() && k.clast() == k.cbefore_begin(), "slist %d: last() of an empty list is not before_begin()", c);
      else VF_CHECKM(O_SEQ, &x.back() == m.back() && &k.back() == m.back() && &*x.last() == m.back() && &*k.last() == m.back() && &*k.clast() == m.back(), "slist %d: back()/last() is not the last element", c);
   }
   void last_checks(int, std::false_type) {}
   void verify(int c) {
      L &L_ = *l[c]; const L &K = L_;
      std::vector<T *> &m = w.m[c];
      size_t n = 0;
      {
         bool same = true; Cit b = K.begin(), e = K.end();
         for (; b != e && n <= m.size(); ++b, ++n) {
            const T *p = &*b;
            if (n >= m.size() || p != m[n]) { same = false; break; }
         }
         if (!same || n != m.size()) VF_CHECKH(O_SEQ, false, "slist %d: traversal differs from the model %s at position %zu", c, keys(m).c_str(), n);
         Cit bb = K.cbefore_begin(); ++bb;
         VF_CHECKM(O_SEQ, bb == K.cbegin(), "slist %d: the successor of before_begin() is not begin()", c);
      }
      last_checks(c, cl_t());
      VF_CHECKM(O_SIZE, size_t(K.size()) == m.size(), "slist %d: size() is %zu, the list holds %zu", c, size_t(K.size()), m.size());
      VF_CHECKM(O_SIZE, K.empty() == m.empty(), "slist %d: empty() is %d, the list holds %zu", c, int(K.empty()), m.size());
      if (!m.empty()) VF_CHECKM(O_SEQ, &L_.front() == m.front() && &K.front() == m.front(), "slist %d: front() is not the first element", c);
      for (size_t i = 0; i < m.size(); ++i) {
         T *e = m[i]; e->where = c;
         VF_CHECKM(O_SEQ, e->magic == 0xA11CEu, "a contained element was destroyed");
         if (C::meaningful) VF_CHECKM(O_HOOK, says_linked_ok(e, i + 1 == m.size()), "element %u is in slist %d but its hook says it is not linked", e->id, c);
      }
      g().maxsize = std::max(g().maxsize, m.size());
   }
   void verify_all() {
      while (w.pool.size() > 1500) { T *e = w.pool.back(); w.pool.pop_back(); w.kill(e); }
      for (int c = 0; c < NC; ++c) verify(c);
      for (T *e : w.pool) {
         e->where = -1;
         if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*e), "element %u is in no container but its hook says it is linked", e->id);
      }
      size_t k = 0;
      for (size_t i = 0; i < saved.size(); ++i) {
         Saved &s = saved[i];
         if (!w.live.count(s.e) || s.e->where < 0) continue;
         saved[k++] = s;
         VF_CHECKM(O_ITER, &*s.it == s.e, "a saved iterator no longer designates its element %u", s.e->id);
         std::vector<T *> &m = w.m[s.e->where];
         size_t pos = size_t(std::find(m.begin(), m.end(), s.e) - m.begin());
         It nx = s.it; ++nx;
         if (pos + 1 < m.size()) VF_CHECKM(O_ITER, &*nx == m[pos + 1], "incrementing a saved iterator does not reach the next element");
         else VF_CHECKM(O_ITER, nx == l[s.e->where]->end(), "incrementing a saved iterator to the last element does not reach end()");
         if (on(O_ITER)) { Cit pv = l[s.e->where]->previous(Cit(s.it)); ++pv; VF_CHECKM(O_ITER, pv == Cit(s.it), "previous() of a saved iterator is wrong"); }
      }
      saved.resize(k);
      VF_STEP_END();
   }
   std::vector<T *> grab(uint32_t a, uint32_t b, uint32_t n) {
      std::vector<T *> v; Rng r(a * 7919ull + b);
      for (uint32_t i = 0; i < n; ++i) v.push_back(w.take(r.u32(), int(r.below(w.keyrange))));
      return v;
   }
   void reconcile(std::initializer_list<int> cs, const char *what, bool all_stay) {
      std::vector<T *> before;
      for (int c : cs) before.insert(before.end(), w.m[c].begin(), w.m[c].end());
      std::set<T *> s(before.begin(), before.end());
      for (int c : cs) {
         std::vector<T *> now;
         Cit b = l[c]->cbegin(), e = l[c]->cend();
         for (; b != e; ++b) {
            T *p = const_cast<T *>(&*b);
            VF_CHECKH(O_EXC, s.erase(p) == 1, "%s after an exception: slist %d holds an element twice or a foreign element", what, c);
            now.push_back(p);
         }
         w.m[c] = now;
      }
      std::vector<T *> lost(s.begin(), s.end());
      if (all_stay) VF_CHECKH(O_EXC, lost.empty(), "%s after an exception: %zu elements are in no list any more", what, lost.size());
      if (C::meaningful)
         for (T *p : lost) VF_CHECKH(O_EXC, !C::linked(*p), "%s after an exception: element %u is in no list but its hook says linked", what, p->id);
      std::sort(lost.begin(), lost.end(), [](T *a, T *b) { return a->id < b->id; });
      if (!C::meaningful) for (T *p : lost) w.live.erase(p);
      else w.settle(lost);
   }
   template <class F> bool attempt(uint32_t n, F f) {
      arm_fuel(long(n));
      bool th = false;
      try { f(); } catch (const Boom &) { th = true; }
      disarm_fuel();
      vf::stat(th ? "threw" : "nothrow");
      return th;
   }
   void push_back(int c, T *e, std::true_type) { l[c]->push_back(*e); }
   void push_back(int c, T *e, std::false_type) { l[c]->insert(l[c]->cend(), *e); }

   void op(const Op &o) {
      Disposer<T> D{&w};
      int c = int(o.a[0] % NC), d = int(o.a[1] % NC);
      std::vector<T *> &m = w.m[c];
      bool disp = (o.a[4] & 1) != 0, after = (o.a[4] & 4) != 0;
      w.dispose_mode = (o.a[4] >> 1) & 1;
      w.disposed.clear();
      // an element handed to the disposer of an erasing operation is no longer reached from its container
      w.on_disp = nullptr; if (disp && (o.k == POP_FRONT || o.k == ERASE1 || o.k == ERASE_R || o.k == REMOVE || o.k == REMOVE_IF || o.k == UNIQUE)) w.on_disp = [this, c](T *p) { const L &x = *l[c]; size_t q = 0; for (auto i = x.begin(); i != x.end() && q < 300; ++i, ++q) VF_CHECKM(O_DISP, &*i != p, "element %u is still in its slist when the disposer receives it", p->id); };
      size_t n = m.size();
      auto pos = [&](uint32_t a) { return size_t(a % (m.size() + 1)); };
      switch (o.k) {
      case PUSH_BACK: { T *e = w.take(o.a[2], int(o.a[3] % w.keyrange)); tr("push_back(%d) -> slist %d\n", e->key, c); push_back(c, e, cl_t()); m.push_back(e); hit(o.k, n); break; }
      case PUSH_FRONT: { T *e = w.take(o.a[2], int(o.a[3] % w.keyrange)); tr("push_front(%d) -> slist %d\n", e->key, c); l[c]->push_front(*e); m.insert(m.begin(), e); hit(o.k, n); break; }
      case POP_FRONT: {
         if (!n) return;
         T *e = m.front(); tr("pop_front%s slist %d\n", disp ? "_and_dispose" : "", c);
         if (disp) l[c]->pop_front_and_dispose(D); else l[c]->pop_front(); m.erase(m.begin());
         if (disp) w.expect_disposed({e}, "pop_front_and_dispose"); else w.settle({e});
         hit(o.k, n, disp); break; }
      case INSERT1: { size_t p = pos(o.a[2]); T *e = w.take(o.a[3], int(o.a[3] % w.keyrange)); tr("insert%s(@%zu, %d) -> slist %d\n", after ? "_after" : "", p, e->key, c);
         It r = after ? l[c]->insert_after(bit(c, p), *e) : l[c]->insert(cit(c, p), *e); m.insert(m.begin() + long(p), e);
         VF_CHECKM(O_SEQ | O_ITER, &*r == e, "insert does not return an iterator to the inserted element"); hit(o.k, n, p); break; }
      case INSERT_R: { size_t p = pos(o.a[2]); std::vector<T *> v = grab(o.a[3], o.a[4], o.a[3] % 6);
         tr("insert%s(@%zu, range of %zu) -> slist %d\n", after ? "_after" : "", p, v.size(), c);
         if (after) l[c]->insert_after(bit(c, p), Deref(v.begin()), Deref(v.end())); else l[c]->insert(cit(c, p), Deref(v.begin()), Deref(v.end()));
         m.insert(m.begin() + long(p), v.begin(), v.end()); hit(o.k, n, v.size()); break; }
      case ERASE1: { if (!n) return; size_t p = o.a[2] % n; T *e = m[p]; tr("erase%s%s(@%zu) slist %d\n", after ? "_after" : "", disp ? "_and_dispose" : "", p, c);
         It r = disp ? (after ? l[c]->erase_after_and_dispose(bit(c, p), D) : (o.a[4] & 8) ? l[c]->erase_and_dispose(it(c, p), D) : l[c]->erase_and_dispose(cit(c, p), D))
                     : (after ? l[c]->erase_after(bit(c, p)) : l[c]->erase(cit(c, p)));
         m.erase(m.begin() + long(p));
         VF_CHECKM(O_SEQ | O_ITER, r == it(c, p), "erase does not return the iterator after the erased element");
         if (disp) w.expect_disposed({e}, "erase_and_dispose"); else w.settle({e}); hit(o.k, n, p); break; }
      case ERASE_R: case ERASE_RN: { size_t p = pos(o.a[2]), q = p + o.a[3] % (n - p + 1);
         std::vector<T *> v(m.begin() + long(p), m.begin() + long(q));
         tr("erase%s%s(@%zu..@%zu%s) slist %d\n", after ? "_after" : "", disp && o.k == ERASE_R ? "_and_dispose" : "", p, q, o.k == ERASE_RN ? ",n" : "", c);
         It r = o.k == ERASE_RN ? (after ? l[c]->erase_after(bit(c, p), cit(c, q), Sz(q - p)) : l[c]->erase(cit(c, p), cit(c, q), Sz(q - p)))
              : disp ? (after ? l[c]->erase_after_and_dispose(bit(c, p), cit(c, q), D) : l[c]->erase_and_dispose(cit(c, p), cit(c, q), D))
              : (after ? l[c]->erase_after(bit(c, p), cit(c, q)) : l[c]->erase(cit(c, p), cit(c, q)));
         m.erase(m.begin() + long(p), m.begin() + long(q));
         VF_CHECKM(O_SEQ | O_ITER, r == it(c, p), "erase(range) does not return the iterator after the erased range");
         if (disp && o.k == ERASE_R) w.expect_disposed(v, "erase_and_dispose(range)"); else w.settle(v); if (p != q) hit(o.k, n, q - p); break; }
      case CLEAR: { std::vector<T *> v(m); tr("clear%s slist %d\n", disp ? "_and_dispose" : "", c);
         if (disp) l[c]->clear_and_dispose(D); else l[c]->clear();
         m.clear(); if (disp) w.expect_disposed(v, "clear_and_dispose"); else w.settle(v); if (n) hit(o.k, n); break; }
      case ASSIGN: { std::vector<T *> old(m), v = grab(o.a[2], o.a[3], o.a[3] % 9); tr("%s(range of %zu) -> slist %d\n", disp ? "dispose_and_assign" : "assign", v.size(), c);
         if (disp) l[c]->dispose_and_assign(D, Deref(v.begin()), Deref(v.end())); else l[c]->assign(Deref(v.begin()), Deref(v.end()));
         m = v; if (disp) w.expect_disposed(old, "dispose_and_assign"); else w.settle(old); hit(o.k, n, v.size()); break; }
      case SPLICE_ALL: { if (c == d) d = (c + 1) % NC; size_t p = pos(o.a[2]); bool wl = o.a[3] & 1; tr("splice%s(@%zu, whole slist %d%s) -> slist %d\n", after ? "_after" : "", p, d, wl ? ", last" : "", c);
         std::vector<T *> &s = w.m[d]; Cit last; Cit prev = bit(c, p);
         if (!wl) { if (after) l[c]->splice_after(prev, *l[d]); else l[c]->splice(cit(c, p), *l[d]); }
         else if (after) l[c]->splice_after(prev, *l[d], &last); else l[c]->splice(cit(c, p), *l[d], &last);
         if (wl) { if (s.empty()) VF_CHECKM(O_SEQ | O_ITER, last == prev, "splice of an empty list: the returned iterator is not the previous position");
                   else VF_CHECKM(O_SEQ | O_ITER, &*last == s.back(), "splice does not return the last spliced element"); }
         m.insert(m.begin() + long(p), s.begin(), s.end());
         if (!s.empty()) hit(o.k, n, s.size()); s.clear(); break; }
      case SPLICE1: { std::vector<T *> &s = w.m[d]; if (s.empty()) return; size_t i = o.a[3] % s.size(), p = pos(o.a[2]);
         tr("splice%s(@%zu, slist %d, @%zu) -> slist %d\n", after ? "_after" : "", p, d, i, c);
         if (after) l[c]->splice_after(bit(c, p), *l[d], bit(d, i)); else l[c]->splice(cit(c, p), *l[d], cit(d, i)); T *e = s[i];
         if (c == d) { if (p != i && p != i + 1) { s.erase(s.begin() + long(i)); if (p > i) --p; s.insert(s.begin() + long(p), e); hit(o.k, n, i); } }
         else { s.erase(s.begin() + long(i)); m.insert(m.begin() + long(p), e); hit(o.k, n, i); } break; }
      case SPLICE_R: case SPLICE_RN: { std::vector<T *> &s = w.m[d]; size_t i = o.a[3] % (s.size() + 1), j = i + (o.a[4] >> 4) % (s.size() - i + 1), p = pos(o.a[2]);
         if (c == d && p > i && p < j) p = o.a[4] & 8 ? j : i;
         tr("splice%s(@%zu, slist %d, @%zu..@%zu%s) -> slist %d\n", after ? "_after" : "", p, d, i, j, o.k == SPLICE_RN ? ",n" : "", c);
         if (after) { if (o.k == SPLICE_R) l[c]->splice_after(bit(c, p), *l[d], bit(d, i), bit(d, j)); else l[c]->splice_after(bit(c, p), *l[d], bit(d, i), bit(d, j), Sz(j - i)); }
         else { if (o.k == SPLICE_R) l[c]->splice(cit(c, p), *l[d], cit(d, i), cit(d, j)); else l[c]->splice(cit(c, p), *l[d], cit(d, i), cit(d, j), Sz(j - i)); }
         std::vector<T *> v(s.begin() + long(i), s.begin() + long(j));
         s.erase(s.begin() + long(i), s.begin() + long(j)); if (c == d && p >= j) p -= j - i;
         m.insert(m.begin() + long(p), v.begin(), v.end()); if (i != j) hit(o.k, n, j - i); break; }
      case SWAP: { if (c == d) { return; } tr("swap(slist %d, slist %d)\n", c, d);
         if (o.a[2] & 1) l[c]->swap(*l[d]); else swap(*l[c], *l[d]);
         hit(o.k, n, w.m[d].size()); m.swap(w.m[d]); break; }
      case SORT: { int mode = int(o.a[2] % 4); tr("sort(mode %d) slist %d\n", mode, c);
         if (mode == 3) l[c]->sort(); else l[c]->sort(Cmp{mode});
         std::stable_sort(m.begin(), m.end(), [&](T *x, T *y) { return Cmp{mode == 3 ? 0 : mode}(*x, *y); }); if (n > 1) hit(o.k, n); break; }
      case MERGE: case T_MERGE: { if (c == d) d = (c + 1) % NC; int mode = int(o.a[2] % 4); int mm = mode == 3 ? 0 : mode;
         tr("sort both; merge(slist %d, mode %d) -> slist %d\n", d, mode, c);
         auto lt = [&](T *x, T *y) { return Cmp{mm}(*x, *y); };
         l[c]->sort(Cmp{mm}); l[d]->sort(Cmp{mm});
         std::stable_sort(m.begin(), m.end(), lt); std::stable_sort(w.m[d].begin(), w.m[d].end(), lt);
         if (o.k == MERGE) {
            std::vector<T *> &s = w.m[d]; Cit last; bool wl = o.a[3] & 1;
            if (mode == 3) l[c]->merge(*l[d]); else l[c]->merge(*l[d], Cmp{mm}, wl ? &last : 0);
            // "l": the last element transferred from the other list
            if (wl && mode != 3 && !s.empty()) VF_CHECKM(O_SEQ | O_ITER, &*last == s.back(), "merge does not return the last transferred element");
            if (wl && mode != 3 && s.empty()) VF_CHECKM(O_SEQ | O_ITER, last == l[c]->cend(), "merge of an empty list does not return end()");
            std::vector<T *> r; std::merge(m.begin(), m.end(), s.begin(), s.end(), std::back_inserter(r), lt);
            if (n && !s.empty()) hit(o.k, n, s.size()); m = r; s.clear();
         } else {
            bool th = attempt(o.a[3] % 24, [&] { l[c]->merge(*l[d], Cmp{mm}); });
            hit(o.k, n, th); reconcile({c, d}, "merge", true);
         } break; }
      case REVERSE: { tr("reverse slist %d\n", c); l[c]->reverse(); std::reverse(m.begin(), m.end()); if (n > 1) hit(o.k, n); break; }
      case REMOVE: case REMOVE_IF: case T_REMOVE: { UPred P{int(o.a[2] % 4), int(o.a[3] % w.keyrange)}; if (o.k == REMOVE) P.mode = 0;
         T probe; probe.key = P.v;
         std::vector<T *> gone, kept; for (T *e : m) (P(*e) ? gone : kept).push_back(e);
         tr("remove%s%s(mode %d, %d) slist %d\n", o.k == REMOVE ? "" : "_if", disp ? "_and_dispose" : "", P.mode, P.v, c);
         if (o.k == T_REMOVE) {
            bool th = attempt(o.a[1] % (uint32_t(n) + 4), [&] { if (disp) l[c]->remove_and_dispose_if(P, D); else l[c]->remove_if(P); });
            hit(o.k, n, th);
            if (th) { VF_CHECKM(O_DISP, w.disposed.empty(), "remove_if disposed of elements although the predicate threw before any removal"); reconcile({c}, "remove_if", false); }
            else { m = kept; if (disp) w.expect_disposed(gone, "remove_and_dispose_if"); else w.settle(gone); }
            break;
         }
         const T *pv = &probe; if (o.k == REMOVE && !gone.empty() && (o.a[1] & 1) && !(disp && w.dispose_mode == 1)) pv = gone[o.a[1] % gone.size()];
         if (o.k == REMOVE) { if (disp) l[c]->remove_and_dispose(*pv, D); else l[c]->remove(*pv); }
         else { if (disp) l[c]->remove_and_dispose_if(P, D); else l[c]->remove_if(P); }
         m = kept; if (disp) w.expect_disposed(gone, "remove_and_dispose"); else w.settle(gone); if (!gone.empty()) hit(o.k, n, gone.size()); break; }
      case UNIQUE: case T_UNIQUE: { int mode = int(o.a[2] % 4); EqPred P{mode == 3 ? 0 : mode};
         std::vector<T *> gone, kept; for (T *e : m) { if (!kept.empty() && P(*kept.back(), *e)) gone.push_back(e); else kept.push_back(e); }
         tr("unique%s(mode %d) slist %d\n", disp ? "_and_dispose" : "", mode, c);
         if (o.k == T_UNIQUE) {
            bool th = attempt(o.a[1] % (uint32_t(n) + 3), [&] { l[c]->unique(P); });
            hit(o.k, n, th); if (th) reconcile({c}, "unique", false); else { m = kept; w.settle(gone); }
            break;
         }
         if (disp) { if (mode == 3) l[c]->unique_and_dispose(D); else l[c]->unique_and_dispose(P, D); }
         else { if (mode == 3) l[c]->unique(); else l[c]->unique(P); }
         m = kept; if (disp) w.expect_disposed(gone, "unique_and_dispose"); else w.settle(gone); if (!gone.empty()) hit(o.k, n, gone.size()); break; }
      case SHIFT: { size_t k = o.a[2] % (2 * n + 3); bool fw = o.a[3] & 1; tr("shift_%s(%zu) slist %d\n", fw ? "forward" : "backwards", k, c);
         if (k == 1) { if (fw) l[c]->shift_forward(); else l[c]->shift_backwards(); }
         else if (fw) l[c]->shift_forward(Sz(k)); else l[c]->shift_backwards(Sz(k));
         if (n > 1) { size_t r = k % n; if (fw) std::rotate(m.begin(), m.begin() + long(r), m.end()); else std::rotate(m.begin(), m.begin() + long((n - r) % n), m.end()); hit(o.k, n, k); } break; }
      case CLONE: case T_CLONE: { if (c == d) d = (c + 1) % NC; std::vector<T *> &s = w.m[d]; if (s.size() > 600) break; std::vector<T *> old(m);
         bool rv = o.a[2] & 1; std::vector<std::pair<const T *, T *> > made; World<T> *pw = &w;
         auto cl = [&](const T &x) -> typename L::pointer { tick(); T *e = pw->fresh(x.key); e->pri = x.pri; made.push_back(std::make_pair(&x, e)); return typename L::pointer(e); };
         auto clr = [&](T &x) -> typename L::pointer { return cl(x); };
         tr("clone_from(%sslist %d)%s -> slist %d\n", rv ? "move " : "", d, o.k == T_CLONE ? " throwing" : "", c);
         bool th = false;
         auto go = [&] { if (rv) l[c]->clone_from(boost::move(*l[d]), clr, D); else l[c]->clone_from(const_cast<const L &>(*l[d]), cl, D); };
         if (o.k == T_CLONE) th = attempt(o.a[3] % (uint32_t(s.size()) + 1), go); else go();
         hit(o.k, s.size(), n * 2 + th);
         std::vector<T *> gone(old);
         if (th) { for (auto &x : made) gone.push_back(x.second); m.clear(); VF_CHECKM(O_CLONE | O_EXC, l[c]->empty(), "clone_from left elements behind after an exception"); }
         else {
            VF_CHECKM(O_CLONE, made.size() == s.size(), "clone_from called the cloner %zu times for %zu elements", made.size(), s.size());
            m.clear();
            for (size_t i = 0; i < made.size(); ++i) m.push_back(made[i].second);
            bool ok = made.size() == s.size(); for (size_t i = 0; ok && i < s.size(); ++i) ok = made[i].first == s[i];
            VF_CHECKH(O_CLONE, ok, "clone_from did not clone the source elements in order");
            Cit b = l[c]->cbegin(); for (size_t i = 0; i < m.size(); ++i, ++b) VF_CHECKH(O_CLONE, b != l[c]->cend() && &*b == m[i], "the clone does not hold the clones in the source order");
         }
         { std::vector<T *> a(gone), b(w.disposed); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
           VF_CHECKH(O_DISP | O_CLONE, a == b, "clone_from%s: %zu elements should have been disposed of, the disposer got %zu", th ? " (failed)" : "", a.size(), b.size()); w.settle(gone); w.disposed.clear(); }
         break; }
      case MOVE_CTOR: { tr("slist %d := L(move(slist %d))\n", c, c); L *nl = new L(boost::move(*l[c]));
         VF_CHECKM(O_SEQ | O_SIZE, l[c]->empty() && l[c]->size() == 0, "the source of a move construction is not empty");
         delete l[c]; l[c] = nl; if (!C::stateless) saved.clear(); hit(o.k, n); break; }
      case MOVE_ASSIGN: { if (c == d) return; tr("slist %d = move(slist %d)\n", c, d); *l[c] = boost::move(*l[d]); m.swap(w.m[d]); hit(o.k, n, w.m[c].size());
         reread(d); break; }
      case EQ_MAKE: {
         if (c == d) return; std::vector<T *> old(w.m[d]); l[d]->clear(); w.m[d].clear(); w.settle(old);
         size_t k = n - ((o.a[2] & 3) == 0 && n ? 1 : 0); tr("slist %d := copy of the first %zu keys of slist %d\n", d, k, c);
         for (size_t i = 0; i < k; ++i) { T *e = w.take(o.a[3] + uint32_t(i), m[i]->key); push_back(d, e, cl_t()); w.m[d].push_back(e); }
         if (k && (o.a[2] & 12) == 0) { size_t i = o.a[4] % k; w.m[d][i]->key += 1; } break; }
      case CMP: { std::vector<T *> &s = w.m[d]; tr("compare slist %d with slist %d\n", c, d);
         const L &x = *l[c], &y = *l[d];
         auto lt = [](T *p, T *q) { return p->key < q->key; }; auto eq = [](T *p, T *q) { return p->key == q->key; };
         bool e = m.size() == s.size() && std::equal(m.begin(), m.end(), s.begin(), eq);
         bool ls = std::lexicographical_compare(m.begin(), m.end(), s.begin(), s.end(), lt), gt = std::lexicographical_compare(s.begin(), s.end(), m.begin(), m.end(), lt);
         VF_CHECKM(O_CMP, (x == y) == e && (x != y) == !e, "operator==/!= wrong for %s and %s", keys(m).c_str(), keys(s).c_str());
         VF_CHECKM(O_CMP, (x < y) == ls && (x > y) == gt && (x <= y) == !gt && (x >= y) == !ls, "an ordering operator is wrong for %s and %s", keys(m).c_str(), keys(s).c_str());
         hit(o.k, n, s.size() * 4 + e * 2 + ls); break; }
      case SAVE_ITER: { if (!n) return; size_t p = o.a[2] % n; if (saved.size() < 24) saved.push_back(Saved{it(c, p), m[p]}); hit(o.k, n, p); break; }
      case CONV: { L &x = *l[c]; const L &k = x; tr("conversions of slist %d\n", c);
         for (size_t i = 0; i < n; ++i) {
            It a = x.iterator_to(*m[i]); Cit b = k.iterator_to(*m[i]);
            VF_CHECKM(O_ITER, &*a == m[i] && &*b == m[i] && Cit(a) == b, "iterator_to does not designate the element");
            s_conv(m[i], std::integral_constant<bool, C::stateless>());
            Cit nx = b; ++nx; VF_CHECKM(O_ITER, i + 1 < n ? &*nx == m[i + 1] : nx == k.end(), "iterator_to + 1 is not the next element"); { Cit z; z = a; It y2; y2 = a; VF_CHECKM(O_ITER, z == b && y2 == a && &*z == m[i] && &*y2 == m[i], "assigning an iterator does not copy its position"); z = nx; VF_CHECKM(O_ITER, z == nx, "assigning an iterator does not copy its position"); }
            It post = a; It o2 = post++; VF_CHECKM(O_ITER, o2 == a && Cit(post) == nx && a.operator->() == typename L::pointer(m[i]), "post-increment / arrow");
            It pv = x.previous(a); Cit pv2 = k.previous(k.cbefore_begin(), b);
            VF_CHECKM(O_ITER, Cit(pv) == pv2 && (i ? &*pv == m[i - 1] : pv == x.before_begin()), "previous() is not the element before");
         }
         { It pv = x.previous(x.end()); VF_CHECKM(O_ITER, n ? &*pv == m[n - 1] : pv == x.before_begin(), "previous(end()) is not the last position"); }
         end_conv(c, std::integral_constant<bool, !L::linear && C::default_header>());
         VF_CHECKM(O_ITER, x.begin() == k.begin() && k.cbegin() == Cit(x.begin()) && x.end() == k.cend() && (n == 0) == (x.begin() == x.end()), "begin/end variants disagree");
         VF_CHECKM(O_ITER, It() == It(), "value-initialised iterators differ"); if (const char *why = iter_types<It, Cit, T>(false)) VF_CHECKM(O_ITER, false, "iterator types: %s", why);
         hit(o.k, n); break; }
      case HOOK_UNLINK: case DTOR_UNLINK: auto_ops(o, c, std::integral_constant<bool, C::autou>()); break;
      case HOOK_COPY: { if (!n) return; T *e = m[o.a[2] % n]; tr("copy an element of slist %d, assign to one\n", c);
         T *q = w.fresh_keep(new T(*e)); w.pool.push_back(q);
         if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*q), "a copy of a linked element is linked");
         if (C::hooked) { int k = q->key; *q = *e; q->key = k; k = e->key; *e = *q; e->key = k;
            if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*q), "assignment from a linked element linked the target"); }
         hit(o.k, n); break; }
      case HOOK_SWAP: hook_swap(o, c, d, std::integral_constant<bool, C::hooked && C::meaningful && !C::any && !L::linear && !L::cache_last>()); break;
      case RECREATE: { std::vector<T *> old(m); tr("destroy slist %d, construct from a range\n", c);
         if (!C::meaningful) l[c]->clear();
         delete l[c]; if (!C::stateless) saved.clear();
         if (C::meaningful) for (T *e : old) VF_CHECKM(O_HOOK, !C::linked(*e), "element %u still linked after its list was destroyed", e->id);
         w.settle(old); std::vector<T *> v = grab(o.a[2], o.a[3], o.a[3] % 7);
         if (C::stateless && (o.a[4] & 3) == 0) { // from a chain of nodes
            typename L::node_ptr f, b; chain(c, v, f, b);
            l[c] = C::make_chain(f, b, Sz(v.size())); }
         else l[c] = C::make_range(Deref(v.begin()), Deref(v.end()));
         m = v; hit(o.k, n, v.size()); break; }
      case INCORP: { std::vector<T *> v = grab(o.a[2], o.a[3], 1 + o.a[3] % 5); size_t p = pos(o.a[2]); bool wn = o.a[4] & 1;
         tr("incorporate_after(@%zu, chain of %zu%s) -> slist %d\n", p, v.size(), wn ? ",n" : "", c);
         typename L::node_ptr f, b; chain(c, v, f, b);
         if (wn) l[c]->incorporate_after(bit(c, p), f, b, Sz(v.size())); else l[c]->incorporate_after(bit(c, p), f, b);
         m.insert(m.begin() + long(p), v.begin(), v.end()); hit(o.k, n, v.size()); break; }
      case STATIC_OPS: static_ops(o, c, D, disp, std::integral_constant<bool, !L::cache_last && !L::constant_time_size && C::stateless>()); break;
      case T_SORT: { int mode = int(o.a[2] % 3); tr("sort(mode %d) throwing, slist %d\n", mode, c);
         bool th = attempt(o.a[3] % (4 * uint32_t(n) + 2), [&] { l[c]->sort(Cmp{mode}); });
         hit(o.k, n, th); if (th) reconcile({c}, "sort", false);
         else std::stable_sort(m.begin(), m.end(), [&](T *x, T *y) { return Cmp{mode}(*x, *y); }); break; }
      case DISP_MOVE: {
         if (c == d) return; tr("clear slist %d disposing into slist %d\n", c, d); L *t = l[d];
         auto mv = [t](typename L::pointer p) { t->push_front(*p); };
         std::vector<T *> v;
         if (o.a[2] & 1) { l[c]->clear_and_dispose(mv); v = m; m.clear(); }
         else { UPred P{int(o.a[3] % 4), int(o.a[4] % w.keyrange)}; l[c]->remove_and_dispose_if(P, mv); std::vector<T *> kept; for (T *e : m) (P(*e) ? v : kept).push_back(e); m = kept; }
         { std::vector<T *> &s = w.m[d]; std::multiset<T *> want(v.begin(), v.end()); std::vector<T *> front; size_t i = 0;
           for (Cit b = l[d]->cbegin(); b != l[d]->cend() && i < v.size(); ++b, ++i) { T *p = const_cast<T *>(&*b); auto f = want.find(p);
              VF_CHECKH(O_DISP | O_SEQ, f != want.end(), "a disposed element arrived twice or is foreign"); want.erase(f); front.push_back(p); }
           VF_CHECKH(O_DISP | O_SEQ, want.empty(), "%zu removed elements never reached the disposer", want.size()); s.insert(s.begin(), front.begin(), front.end()); }
         if (!v.empty()) hit(o.k, n, v.size()); break; }
      default: return;
      }
      verify_all();
   }
   void chain(int c, std::vector<T *> &v, typename L::node_ptr &f, typename L::node_ptr &b) {
      typedef typename L::node_traits NT; f = typename L::node_ptr(); b = f;
      (void)c;
      for (T *e : v) { typename L::node_ptr q = C::node_of(*e); if (!f) f = q; else NT::set_next(b, q); b = q; }
      if (b) NT::set_next(b, typename L::node_ptr());
   }
   template <class DD> void static_ops(const Op &o, int c, DD D, bool disp, std::true_type) {
      std::vector<T *> &m = w.m[c]; size_t n = m.size();
      if (o.a[2] & 1) { size_t p = o.a[3] % (n + 1); T *e = w.take(o.a[1], int(o.a[1] % w.keyrange)); tr("s_insert_after(@%zu, %d) -> slist %d\n", p, e->key, c);
         It r = L::s_insert_after(bit(c, p), *e); m.insert(m.begin() + long(p), e); VF_CHECKM(O_SEQ | O_ITER, &*r == e, "s_insert_after return value"); }
      else if (o.a[2] & 2) { if (!n) return; size_t p = o.a[3] % n; T *e = m[p]; tr("s_erase_after%s(@%zu) slist %d\n", disp ? "_and_dispose" : "", p, c);
         It r = disp ? L::s_erase_after_and_dispose(bit(c, p), D) : L::s_erase_after(bit(c, p)); m.erase(m.begin() + long(p));
         VF_CHECKM(O_SEQ | O_ITER, r == it(c, p), "s_erase_after return value"); if (disp) w.expect_disposed({e}, "s_erase_after_and_dispose"); else w.settle({e}); }
      else { size_t p = o.a[3] % (n + 1), q = p + o.a[1] % (n - p + 1); std::vector<T *> v(m.begin() + long(p), m.begin() + long(q)); tr("s_erase_after_and_dispose(@%zu..@%zu) slist %d\n", p, q, c);
         L::s_erase_after_and_dispose(bit(c, p), cit(c, q), D); m.erase(m.begin() + long(p), m.begin() + long(q)); w.expect_disposed(v, "s_erase_after_and_dispose(range)"); }
      hit(int(o.k), n);
   }
   template <class DD> void static_ops(const Op &, int, DD, bool, std::false_type) {}
   struct DerefIt {
      typename std::vector<T *>::iterator i;
      typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
      T &operator*() const { return **i; } DerefIt &operator++() { ++i; return *this; } DerefIt operator++(int) { DerefIt t(*this); ++i; return t; }
      bool operator==(const DerefIt &o) const { return i == o.i; } bool operator!=(const DerefIt &o) const { return i != o.i; }
   };
   DerefIt Deref(typename std::vector<T *>::iterator i) { return DerefIt{i}; }
   void reread(int d) {
      std::multiset<T *> s(w.m[d].begin(), w.m[d].end()); std::vector<T *> now;
      for (Cit b = l[d]->cbegin(); b != l[d]->cend(); ++b) { T *p = const_cast<T *>(&*b); auto f = s.find(p); VF_CHECKH(O_SEQ, f != s.end(), "moved-from list holds a foreign element"); s.erase(f); now.push_back(p); }
      std::vector<T *> lost(s.begin(), s.end());
      if (C::meaningful) for (T *p : lost) VF_CHECKM(O_HOOK, !C::linked(*p), "move assignment lost a linked element");
      w.m[d] = now;
      if (C::meaningful) w.settle(lost); else for (T *p : lost) w.live.erase(p);
   }
   void auto_ops(const Op &o, int c, std::true_type) {
      std::vector<T *> &m = w.m[c]; if (m.empty()) return;
      size_t i = o.a[2] % m.size(); T *e = m[i]; m.erase(m.begin() + long(i));
      if (o.k == HOOK_UNLINK) { tr("element @%zu of slist %d unlinks itself\n", i, c); e->hook().unlink(); VF_CHECKM(O_HOOK, !e->hook().is_linked(), "unlink() left the hook linked");
         if (o.a[3] & 1) e->hook().unlink();
         e->where = -1; w.pool.push_back(e); }
      else { tr("element @%zu of slist %d is destroyed\n", i, c); w.kill(e); }
      hit(int(o.k), m.size(), i);
   }
   void auto_ops(const Op &, int, std::false_type) {}
   void hook_swap(const Op &o, int c, int d, std::true_type) {
      std::vector<T *> &m = w.m[c]; if (m.empty()) return; size_t i = o.a[2] % m.size(); T *x = m[i];
      if ((o.a[4] & 7) == 0 && !w.pool.empty()) {
         size_t j = o.a[3] % w.pool.size(); T *y = w.pool[j]; tr("hook swap: slist %d @%zu with an unlinked element\n", c, i);
         if (o.a[4] & 8) x->hook().swap_nodes(y->hook()); else y->hook().swap_nodes(x->hook());
         m[i] = y; w.pool[j] = x;
      } else {
         std::vector<T *> &s = w.m[d]; if (s.empty()) return; size_t j = o.a[3] % s.size(); T *y = s[j]; tr("hook swap: slist %d @%zu with slist %d @%zu\n", c, i, d, j);
         x->hook().swap_nodes(y->hook()); m[i] = y; if (!(c == d && i == j)) s[j] = x;
      }
      hit(int(o.k), m.size(), i);
   }
   void hook_swap(const Op &, int, int, std::false_type) {}
   void end_conv(int c, std::true_type) {
      L &x = *l[c]; const L &k = x;
      VF_CHECKM(O_ITER, &L::container_from_end_iterator(x.end()) == &x && &L::container_from_end_iterator(k.end()) == &k, "container_from_end_iterator does not return the list");
   }
   void end_conv(int, std::false_type) {}
   void s_conv(T *e, std::true_type) { VF_CHECKM(O_ITER, &*L::s_iterator_to(*e) == e && &*L::s_iterator_to(const_cast<const T &>(*e)) == e, "s_iterator_to does not designate the element"); }
   void s_conv(T *, std::false_type) {}

   void run(const Case &cs) {
      static const uint32_t KR[] = {2, 3, 6, 10, 40, 1000};
      w.keyrange = KR[cs.cfg[1] % 6];
      if (C::meaningful && !L::linear) w.linked = &C::linked;
      if (C::meaningful && L::linear) w.linked = &C::linked;
      for (int i = 0; i < NC; ++i) l[i] = C::make();
      static const uint32_t FILL[] = {0, 0, 0, 0, 0, 4, 12, 40, 40, 200};
      Rng r(cs.cfg[3]);
      for (int i = 0; i < NC; ++i) {
         uint32_t nf = r.below(FILL[cs.cfg[2] % 10] + 1);
         if (nf) tr("slist %d starts with %u elements\n", i, nf);
         while (nf--) { T *e = w.fresh(int(r.below(w.keyrange))); l[i]->push_front(*e); w.m[i].insert(w.m[i].begin(), e); }
      }
      verify_all();
      g().opi = 0;
      for (auto &o : cs.ops) { op(o); ++g().opi; }
      for (int i = 0; i < NC; ++i) {
         if (!C::meaningful) l[i]->clear();
         std::vector<T *> v(w.m[i]); delete l[i];
         if (C::meaningful) for (T *e : v) VF_CHECKM(O_HOOK, !C::linked(*e), "element %u still linked after its list was destroyed", e->id);
      }
      std::vector<T *> all(w.live.begin(), w.live.end());
      for (T *e : all) w.kill(e);
   }
};

// ---- configurations ----------------------------------------------------------
template <class T, class LT> struct Std {
   typedef LT L;
   static const bool meaningful = true, autou = false, hooked = true, any = false, default_header = true, stateless = true;
   static bool linked(const T &e) { return e.hook().is_linked(); }
   static L *make() { return new L; }
   template <class I> static L *make_range(I b, I e) { return new L(b, e); }
   static L *make_chain(typename L::node_ptr f, typename L::node_ptr b, typename L::size_type n) { return new L(f, b, n); }
   static typename L::node_ptr node_of(T &e) { return L::value_traits::to_node_ptr(e); }
};
template <class T, class LT> struct StdN : Std<T, LT> { static const bool meaningful = false; static bool linked(const T &) { return false; } };
using bi::cache_last; using bi::linear; using bi::constant_time_size;

typedef ElemB<bi::slist_base_hook<> > E0;
struct C0 : Std<E0, bi::slist<E0> > {};                                                     // circular cts
struct C1 : Std<E0, bi::slist<E0, cache_last<true> > > {};                                  // circular cts cache
typedef ElemB<bi::slist_base_hook<bi::link_mode<bi::normal_link> > > E2;
struct C2 : StdN<E2, bi::slist<E2, constant_time_size<false>, cache_last<true> > > {};
struct C3 : StdN<E2, bi::slist<E2, linear<true>, cache_last<true> > > {};
struct C4 : StdN<E2, bi::slist<E2, linear<true>, constant_time_size<false> > > {};
typedef ElemM<bi::slist_member_hook<> > E5;
typedef bi::member_hook<E5, bi::slist_member_hook<>, &E5::h> MH5;
struct C5 : Std<E5, bi::slist<E5, MH5, linear<true>, constant_time_size<false>, cache_last<true> > > {};
struct C6 : Std<E5, bi::slist<E5, MH5, linear<true>, bi::size_type<unsigned short> > > {};
struct C7 : Std<E5, bi::slist<E5, MH5, constant_time_size<false> > > {};
typedef ElemM<bi::slist_member_hook<bi::void_pointer<fptr<void> > > > E8;
typedef bi::member_hook<E8, bi::slist_member_hook<bi::void_pointer<fptr<void> > >, &E8::h> MH8;
struct C8 : Std<E8, bi::slist<E8, MH8, cache_last<true> > > {};
struct C9 : Std<E8, bi::slist<E8, MH8, linear<true>, cache_last<true> > > {};
typedef ElemB<bi::slist_base_hook<bi::link_mode<bi::auto_unlink> > > E10;
struct C10 : Std<E10, bi::slist<E10, constant_time_size<false> > > { static const bool autou = true; };
typedef ElemM<bi::slist_member_hook<bi::link_mode<bi::auto_unlink>, bi::void_pointer<fptr<void> > > > E11;
struct C11 : Std<E11, bi::slist<E11, bi::member_hook<E11, bi::slist_member_hook<bi::link_mode<bi::auto_unlink>, bi::void_pointer<fptr<void> > >, &E11::h>, constant_time_size<false> > > { static const bool autou = true; };
typedef ElemB<bi::any_base_hook<> > E12;
struct C12 : Std<E12, bi::slist<E12, bi::any_to_slist_hook<bi::base_hook<bi::any_base_hook<> > >, cache_last<true> > > { static const bool any = true; };
struct UNode { UNode *nx = 0; };
struct UNodeTraits {
   typedef UNode node; typedef UNode *node_ptr; typedef const UNode *const_node_ptr;
   static node_ptr get_next(const_node_ptr n) { return n->nx; } static void set_next(node_ptr n, node_ptr x) { n->nx = x; }
};
struct E13; struct Slots { UNode n[32768]; E13 *owner[32768]; std::vector<unsigned> freed; unsigned used = 0; void reset() { used = 0; freed.clear(); } };
inline Slots &slots() { static Slots s; return s; }
struct E13 : EB { UNode *slot; E13() : slot(0) {} E13(const E13 &o) : EB(o), slot(0) {} E13 &operator=(const E13 &o) { EB::operator=(o); return *this; }
   ~E13() { if (slot) slots().freed.push_back(unsigned(slot - slots().n)); } };
struct SVT {
   typedef UNodeTraits node_traits; typedef UNode node; typedef UNode *node_ptr; typedef const UNode *const_node_ptr;
   typedef E13 value_type; typedef E13 *pointer; typedef const E13 *const_pointer; typedef E13 &reference; typedef const E13 &const_reference;
   static const bi::link_mode_type link_mode = bi::safe_link;
   Slots *s;
   explicit SVT(Slots *p) : s(p) {}
   node_ptr to_node_ptr(reference v) const { if (!v.slot) { unsigned k; if (s->freed.empty()) k = s->used++; else { k = s->freed.back(); s->freed.pop_back(); } v.slot = &s->n[k]; *v.slot = UNode(); s->owner[k] = &v; } return v.slot; }
   const_node_ptr to_node_ptr(const_reference v) const { return to_node_ptr(const_cast<reference>(v)); }
   pointer to_value_ptr(const_node_ptr n) const { return s->owner[n - s->n]; }
};
struct C13 : Std<E13, bi::slist<E13, bi::value_traits<SVT>, cache_last<true> > > {
   static const bool hooked = false, stateless = false;
   static bool linked(const E13 &e) { return e.slot && e.slot->nx != 0 && e.slot->nx != e.slot; }
   static L *make() { return new L(SVT(&slots())); }
   template <class I> static L *make_range(I b, I e) { return new L(b, e, SVT(&slots())); }
   static L *make_chain(L::node_ptr, L::node_ptr, L::size_type) { return 0; }
   static L::node_ptr node_of(E13 &e) { return SVT(&slots()).to_node_ptr(e); }
};

typedef far_holder<bi::slist_member_hook<>::hooktags::node_traits::node> FH5;
struct C14 : Std<E5, bi::slist<E5, MH5, cache_last<true>, bi::header_holder_type<FH5> > > { static const bool default_header = false; };
struct C15 : Std<E5, bi::slist<E5, MH5, linear<true>, bi::header_holder_type<FH5> > > { static const bool default_header = false; };

template <class C> void go(const Case &c) { slots().reset(); SlistRun<C> *r = new SlistRun<C>; r->run(c); delete r; }
template <int P, bool On = (VF_PART < 0 || VF_PART == P)> struct Reg { template <class C> static void add(const char *n) { configs().push_back({n, go<C>}); } };
template <int P> struct Reg<P, false> { template <class C> static void add(const char *) {} };

static void profile(const std::string &pr, Profile &p) {
   p.put({{PUSH_BACK, 20}, {PUSH_FRONT, 16}, {POP_FRONT, 5}, {INSERT1, 10}, {INSERT_R, 8}, {ERASE1, 6}, {ERASE_R, 5}, {ERASE_RN, 4}, {CLEAR, 2}, {ASSIGN, 3},
      {SPLICE_ALL, 5}, {SPLICE1, 7}, {SPLICE_R, 7}, {SPLICE_RN, 5}, {SWAP, 4}, {SORT, 4}, {MERGE, 4}, {REVERSE, 4}, {REMOVE, 3}, {REMOVE_IF, 3}, {UNIQUE, 4}, {SHIFT, 5},
      {CLONE, 2}, {MOVE_CTOR, 2}, {MOVE_ASSIGN, 2}, {CMP, 3}, {EQ_MAKE, 2}, {SAVE_ITER, 6}, {HOOK_UNLINK, 4}, {HOOK_COPY, 2}, {HOOK_SWAP, 3}, {RECREATE, 2}, {CONV, 2}, {DTOR_UNLINK, 3}, {DISP_MOVE, 3},
      {INCORP, 4}, {STATIC_OPS, 3}});
   unsigned base = O_SEQ;
   if (pr == "C02") { p.mask = base | O_SIZE; }
   else if (pr == "C07") { p.put({{T_SORT, 4}, {T_MERGE, 4}, {T_REMOVE, 4}, {T_UNIQUE, 4}, {T_CLONE, 4}}); p.mask = base | O_HOOK; p.boost({ERASE1, ERASE_R, CLEAR, HOOK_COPY, HOOK_SWAP, RECREATE, REMOVE_IF, UNIQUE, POP_FRONT}, 3); }
   else if (pr == "C08") { p.mask = base | O_HOOK | O_SIZE; p.only_cfg_name = "auto"; p.boost({HOOK_UNLINK, DTOR_UNLINK}, 6); p.must({HOOK_UNLINK, DTOR_UNLINK}); }
   else if (pr == "C09") { p.mask = base | O_DISP; p.boost({ERASE1, ERASE_R, CLEAR, ASSIGN, REMOVE, REMOVE_IF, UNIQUE, POP_FRONT, DISP_MOVE, CLONE}, 3); }
   else if (pr == "C10") { p.mask = base | O_CLONE | O_SIZE; p.boost({CLONE}, 12); p.must({CLONE}); }
   else if (pr == "C11") { p.put({{T_CLONE, 24}}); p.mask = base | O_CLONE | O_EXC | O_DISP | O_HOOK | O_SIZE; p.focus = {T_CLONE}; p.must({T_CLONE}); }
   else if (pr == "C12") { p.put({{T_SORT, 8}, {T_MERGE, 8}, {T_REMOVE, 8}, {T_UNIQUE, 8}}); p.mask = base | O_EXC | O_SIZE; p.focus = {T_SORT, T_MERGE, T_REMOVE, T_UNIQUE}; p.must({T_SORT, T_MERGE, T_REMOVE, T_UNIQUE}); }
   else if (pr == "C13") { p.put({{T_SORT, 4}, {T_MERGE, 4}, {T_REMOVE, 4}, {T_UNIQUE, 4}, {T_CLONE, 4}}); p.mask = base | O_SIZE; }
   else if (pr == "C14") { p.put({{T_MERGE, 5}}); p.mask = base | O_SIZE; p.boost({SPLICE_ALL, SPLICE1, SPLICE_R, SPLICE_RN, SWAP, MERGE, MOVE_CTOR, MOVE_ASSIGN, INCORP}, 4); }
   else if (pr == "C15") { p.mask = base; p.boost({SORT, MERGE}, 8); p.must({SORT, MERGE}); }
   else if (pr == "C16") { p.mask = base | O_ITER; p.boost({SAVE_ITER, CONV}, 5); p.must({SAVE_ITER}); }
   else if (pr == "C17") { p.mask = base | O_HOOK | O_SIZE | O_ITER | O_DISP | O_CLONE; }
   else if (pr == "C20") { p.mask = base | O_CMP; p.boost({CMP, EQ_MAKE}, 8); p.must({CMP, EQ_MAKE}); p.focus = {CMP}; }
}

int main(int argc, char **argv) {
   Reg<0>::add<C0>("slist circular cts base safe");
   Reg<1>::add<C1>("slist circular cts cache base safe");
   Reg<2>::add<C4>("slist linear nocts base normal");
   Reg<3>::add<C2>("slist circular nocts cache base normal");
   Reg<4>::add<C3>("slist linear cts cache base normal");
   Reg<5>::add<C10>("slist circular nocts base auto");
   Reg<6>::add<C5>("slist linear nocts cache member safe");
   Reg<7>::add<C6>("slist linear cts u16 member safe");
   Reg<8>::add<C11>("slist circular nocts member auto selfrel-ptr");
   Reg<9>::add<C7>("slist circular nocts member safe");
   Reg<10>::add<C8>("slist circular cts cache member selfrel-ptr");
   Reg<11>::add<C12>("slist circular cts cache any hook");
   Reg<12>::add<C9>("slist linear cts cache member selfrel-ptr");
   Reg<13>::add<C13>("slist circular cts cache stateful traits");
   Reg<14>::add<C14>("slist circular cts cache member far header");
   Reg<15>::add<C15>("slist linear cts member far header");
   engine() = {"slist", profile};
   return harness_main(argc, argv);
}
