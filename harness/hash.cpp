// Hashed containers against unordered models: every storage option, bucket policy, hash quality, equality and rehash history.
// Sets (0,1) and multisets (2,3) of one element type, each owning its bucket array.
#include "seq.hpp"
#include <memory>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/trivial_value_traits.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/parent_from_member.hpp>
using namespace vf;

enum {
   INSERT = 1, INSERT_R, CHECK_COMMIT, COMMIT_LATE, ERASE1, ERASE_R, ERASE_K, CLEAR, LOOKUP, SWAP, MOVE_CTOR, MOVE_ASSIGN, CLONE, REHASH_NEW, REHASH_GROW, REHASH_SHRINK, FULL_REHASH, INC, INC_NEW,
   CMP, EQ_MAKE, SAVE_ITER, CONV, HOOK_UNLINK, DTOR_UNLINK, HOOK_COPY, HOOK_SWAP, RECREATE, BULK, DISP_MOVE, GROWTH, REMOVE_NODE, MIXED,
   T_INSERT, T_INSERT_R, T_LOOKUP, T_ERASE, T_REHASH, T_FULL, T_INC, T_CLONE, T_CTOR, T_CHECK
};

inline long &hash_calls() { static long n; return n; }
inline long &eq_calls() { static long n; return n; }
inline std::size_t hfun(int hm, int k) {
   std::size_t u = std::size_t(unsigned(k));
   switch (hm) {
   case 0: return u;
   case 1: return 5;
   case 2: return u * 0x9E3779B97F4A7C15ull;
   case 3: return u >> 2;
   case 4: return u & 3;
   case 5: return (u << 40) | u;
   case 6: return ~u;
   default: return u << 4;
   }
}
inline int kc(int em, int k) { return em ? k >> 1 : k; }
struct Probe { int v; };
struct HK {   // the hash function: consistent with equality em
   int hm, em;
   HK(int h = 0, int e = 0) : hm(h), em(e) {}
   std::size_t operator()(const EB &a) const { return (*this)(a.key); }
   std::size_t operator()(Probe p) const { return (*this)(p.v); }
   std::size_t operator()(int k) const { ++hash_calls(); tick(); return hfun(hm, kc(em, k)); }
};
struct EQ {
   int em;
   EQ(int e = 0) : em(e) {}
   bool operator()(const EB &a, const EB &b) const { return eq(a.key, b.key); }
   bool operator()(int a, int b) const { return eq(a, b); }
   bool operator()(Probe a, const EB &b) const { return eq(a.v, b.key); }
   bool operator()(Probe a, int b) const { return eq(a.v, b); }
   bool operator()(const EB &a, Probe b) const { return eq(a.key, b.v); }
   bool operator()(int a, Probe b) const { return eq(a, b.v); }
   bool eq(int a, int b) const { ++eq_calls(); tick(); return kc(em, a) == kc(em, b); }
};
template <class T> struct KOV { typedef int type; const int &operator()(const T &v) const { return v.key; } };

template <class T, class = void> struct is_direct : std::false_type {};
template <class T> struct is_direct<T, typename std::enable_if<T::direct>::type> : std::true_type {};

template <class C> struct HashRun {
   typedef typename C::S S;
   typedef typename C::M M;
   typedef typename S::value_type T;
   typedef typename S::iterator It;
   typedef typename S::const_iterator Cit;
   typedef typename S::bucket_type B;
   typedef typename S::bucket_traits BT;
   typedef typename S::key_type K;
   static_assert(std::is_same<B, typename M::bucket_type>::value, "");
   static const int NC = 4;
   static const bool kov = C::kov, incr = S::incremental, lin = S::linear_buckets, fast = S::fastmod_buckets, pow2 = S::power_2_buckets, storeh = S::store_hash;
   World<T> w;
   std::vector<T *> m3;
   S *s[2]; M *mu[2];
   int hm[NC], em[NC];
   std::unique_ptr<B[]> arr[NC]; size_t cap[NC];        // the bucket array each container uses, its capacity
   size_t bc[NC], split[NC];                            // model of bucket_count() and split_count()
   struct Saved { It it; T *e; };
   std::vector<Saved> saved;
   std::vector<T *> &mod(int c) { return c < 3 ? w.m[c] : m3; }
   template <class F> decltype(auto) with(int c, F f) { if (c < 2) return f(*s[c]); return f(*mu[c - 2]); }
   static bool uniq(int c) { return c < 2; }

   // ---- model ----------------------------------------------------------------
   bool same(int c, int a, int b) { return kc(em[c], a) == kc(em[c], b); }
   std::vector<T *> eqs(int c, int k) { std::vector<T *> r; for (T *e : mod(c)) if (same(c, e->key, k)) r.push_back(e); return r; }
   bool has(int c, int k) { for (T *e : mod(c)) if (same(c, e->key, k)) return true; return false; }
   void madd(int c, T *e) { mod(c).push_back(e); e->where = c; }
   void mrem(int c, T *e) { auto &m = mod(c); m.erase(std::find(m.begin(), m.end(), e)); }
   Cit cit(int c, size_t i) { return with(c, [&](auto &l) { Cit r = l.cbegin(); while (i--) ++r; return r; }); }
   It it(int c, size_t i) { return with(c, [&](auto &l) { It r = l.begin(); while (i--) ++r; return r; }); }
   size_t bcount(uint32_t a) {       // an admissible bucket count
      if (fast) return S::suggested_upper_bucket_count(1 + a % (a % 7 == 0 ? 2000 : 120));
      if (pow2) return size_t(1) << (a % (a % 5 == 0 ? 9 : 6));
      return a % 5 == 0 ? 1 + a / 5 % 300 : 1 + a / 5 % 24;
   }
   BT traits(B *p, size_t n) { return BT(typename S::bucket_ptr(p), n + (lin ? 1 : 0)); }
   void newarr(std::unique_ptr<B[]> &a, size_t &cp, size_t n) { cp = n; a.reset(new B[n + (lin ? 1 : 0)]); }

   // ---- checks ---------------------------------------------------------------
   void verify(int c) {
      std::vector<T *> &m = mod(c);
      std::vector<T *> seen;
      uint32_t st = ++stampctr;
      for (T *e : m) e->stamp = st;
      with(c, [&](auto &l) {
         typedef typename std::remove_reference<decltype(l)>::type L;
         const L &k = l;
         for (auto b = k.begin(), e = k.end(); b != e; ++b) {
            T *p = const_cast<T *>(&*b);
            VF_CHECKH(O_SEQ, p->stamp == st, "hashed %d: traversal meets an element twice or one that it should not hold (%zu visited of %zu)", c, seen.size(), m.size());
            p->stamp = 0; seen.push_back(p);
         }
         VF_CHECKH(O_SEQ, seen.size() == m.size(), "hashed %d: traversal visits %zu of %zu elements", c, seen.size(), m.size());
         VF_CHECKM(O_SIZE, size_t(k.size()) == m.size() && k.empty() == m.empty(), "hashed %d: size() %zu, empty() %d, but it holds %zu", c, size_t(k.size()), int(k.empty()), m.size());
         VF_CHECKM(O_SEQ | O_CLONE, k.hash_function().hm == hm[c] && k.hash_function().em == em[c] && k.key_eq().em == em[c], "hashed %d: hash_function() or key_eq() is not the expected object", c);
         // equivalent elements adjacent
         std::unordered_map<int, int> closed; bool adj = true;
         for (size_t i = 0; i < seen.size(); ++i) { int kk = kc(em[c], seen[i]->key); if (i && kc(em[c], seen[i - 1]->key) == kk) { adj = adj && !uniq(c); continue; } adj = adj && closed.insert(std::make_pair(kk, 1)).second; }
         VF_CHECKM(O_SEQ, adj, "hashed %d: equivalent elements are not adjacent, or equivalent elements are in a set: %s", c, keys(seen).c_str());
         // buckets
         VF_CHECKM(O_SEQ | O_SHAPE, size_t(k.bucket_count()) == bc[c] && raw(k.bucket_pointer()) == arr[c].get(), "hashed %d: bucket_count() is %zu instead of %zu, or another array is in use", c, size_t(k.bucket_count()), bc[c]);
         if constexpr (incr) VF_CHECKM(O_SEQ | O_SHAPE, size_t(k.split_count()) == split[c], "hashed %d: split_count() is %zu instead of %zu", c, size_t(k.split_count()), split[c]);
         // (the hook of the element that ends a null-terminated bucket cannot be told from an unlinked one)
         if constexpr (lin && C::meaningful)
            for (size_t b = 0; b < bc[c]; ++b)
               for (auto i = k.begin(typename S::size_type(b)), e = k.end(typename S::size_type(b)); i != e; ) { const T *p = &*i; ++i;
                  if (i != e) VF_CHECKM(O_HOOK, C::linked(*p), "element %u is in hashed %d, not the last of its bucket, but its hook says it is not linked", p->id, c); }
         if (on(O_SHAPE)) {
            size_t n = 0, j = 0;
            for (size_t b = 0; b < bc[c]; ++b) {
               size_t cnt = 0;
               for (auto i = k.begin(typename S::size_type(b)); i != k.end(typename S::size_type(b)); ++i) {
                  const T *p = &*i;
                  VF_CHECKH(O_SHAPE, j < seen.size() && p == seen[j], "hashed %d: iterating the buckets differs from the traversal at %zu", c, j);
                  size_t at = fuel_off([&] { return k.bucket(this->kval(*p)); });
                  VF_CHECKM(O_SHAPE, at == b, "hashed %d: an element with key %d is in bucket %zu, bucket() says %zu", c, p->key, b, at);
                  ++j; ++cnt;
               }
               VF_CHECKM(O_SHAPE, k.bucket_size(typename S::size_type(b)) == cnt, "hashed %d: bucket_size(%zu) is %zu, %zu were visited", c, b, size_t(k.bucket_size(typename S::size_type(b))), cnt);
               if constexpr (incr) if (cnt) VF_CHECKM(O_SHAPE, b < split[c] || k.bucket_count() == 1, "hashed %d: bucket %zu beyond the split position %zu is in use", c, b, split[c]);
               n += cnt;
            }
            VF_CHECKM(O_SHAPE, n == seen.size(), "hashed %d: the buckets hold %zu elements, the traversal %zu", c, n, seen.size());
         }
      });
      m = seen;
      for (T *e : m) { e->where = c; if (C::meaningful && !lin) VF_CHECKM(O_HOOK, C::linked(*e), "element %u is in hashed %d but its hook says it is not linked", e->id, c); }
      g().maxsize = std::max(g().maxsize, m.size());
   }
   uint32_t stampctr = 0;
   template <class F> auto fuel_off(F f) { long h = hash_calls(), q = eq_calls(); auto r = f(); hash_calls() = h; eq_calls() = q; return r; }
   void verify_all() {
      while (w.pool.size() > 1500) { T *e = w.pool.back(); w.pool.pop_back(); w.kill(e); }
      for (int c = 0; c < NC; ++c) verify(c);
      for (T *e : w.pool) { e->where = -1; if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*e), "element %u is in no container but its hook says it is linked", e->id); }
      size_t k = 0;
      for (size_t i = 0; i < saved.size(); ++i) {
         Saved &v = saved[i];
         if (!w.live.count(v.e) || v.e->where < 0) continue;
         saved[k++] = v;
         VF_CHECKM(O_ITER, &*v.it == v.e, "a saved iterator no longer designates its element %u", v.e->id);
         int c = v.e->where; std::vector<T *> &m = mod(c);
         size_t pos = size_t(std::find(m.begin(), m.end(), v.e) - m.begin());
         It nx = v.it; ++nx;
         with(c, [&](auto &l) { VF_CHECKM(O_ITER, pos + 1 < m.size() ? nx != l.end() && &*nx == m[pos + 1] : nx == l.end(), "incrementing a saved iterator does not reach the next element"); });
      }
      saved.resize(k);
      VF_STEP_END();
   }
   void drop(int c) { size_t k = 0; for (auto &v : saved) if (w.live.count(v.e) && v.e->where != c) saved[k++] = v; saved.resize(k); }

   // ---- elements -------------------------------------------------------------
   const K &kval(const T &e) { if constexpr (kov) return e.key; else return e; }
   int rkey(uint32_t a) { return int((a * 2654435761u >> 7) % w.keyrange); }
   T *elem(uint32_t a, int key) { return w.take(a, key); }
   std::vector<T *> grab(uint32_t a, uint32_t n, int style) {
      std::vector<T *> v; Rng r(a * 7919ull + 17); int k0 = int(r.below(w.keyrange));
      for (uint32_t i = 0; i < n; ++i) { int k = style == 1 ? int((uint32_t(k0) + i) % w.keyrange) : style == 2 ? k0 : int(r.below(w.keyrange)); v.push_back(elem(r.u32() >> 8, k)); }
      return v;
   }
   void giveback(T *e) { e->where = -1; w.pool.push_back(e); }
   struct DI { typename std::vector<T *>::iterator i; typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
      T &operator*() const { return **i; } DI &operator++() { ++i; return *this; } DI operator++(int) { DI t(*this); ++i; return t; } bool operator==(const DI &o) const { return i == o.i; } bool operator!=(const DI &o) const { return i != o.i; } };
   template <class F> bool attempt(uint32_t n, F f) {
      arm_fuel(long(n)); bool th = false;
      try { f(); } catch (const Boom &) { th = true; }
      disarm_fuel(); vf::stat(th ? "threw" : "nothrow");
      return th;
   }
   T *probe = nullptr;
   typename std::conditional<C::kov, int, char>::type kbuf{};
   const K &karg(int k) { if constexpr (kov) { kbuf = k; return kbuf; } else { probe->key = k; return *probe; } }
   bool minsert(int c, T *e) { if (uniq(c) && has(c, e->key)) return false; madd(c, e); return true; }

   void lookups(int c, int k, bool foreign, bool cst, uint32_t sel) {
      std::vector<T *> ex = eqs(c, k); std::sort(ex.begin(), ex.end());
      with(c, [&](auto &l) {
         typedef typename std::remove_reference<decltype(l)>::type L;
         HK fh{hm[c], em[c]}; EQ fe{em[c]}; Probe pk{k};
         size_t b = fuel_hold([&] { return foreign ? l.bucket(pk, fh) : l.bucket(this->karg(k)); });
         VF_CHECKH(O_SEQ, b < bc[c], "hashed %d: bucket(%d) is %zu of %zu", c, k, b, bc[c]);
         // how often the equality may be asked: never more than the bucket holds, nor (where hashes are compared first) more than share the hash, nor (where groups are skipped) more than the groups
         size_t maxeq = 0; { std::set<int> groups; for (T *e : mod(c)) if (fuel_hold([&] { return l.bucket(this->kval(*e)); }) == b && (!S::compare_hash || hfun(hm[c], kc(em[c], e->key)) == hfun(hm[c], kc(em[c], k)))) { if (L::optimize_multikey && !groups.insert(kc(em[c], e->key)).second) continue; ++maxeq; } }
         auto go = [&](auto &l_) {
            eq_calls() = 0; hash_calls() = 0;
            switch (sel) {
            case 0: { auto i = foreign ? l_.find(pk, fh, fe) : l_.find(karg(k)); VF_CHECKM(O_SEQ, ex.empty() ? i == l_.end() : i != l_.end() && std::binary_search(ex.begin(), ex.end(), &*i), "hashed %d: find(%d) is wrong", c, k);
               VF_CHECKM(O_SHAPE, size_t(eq_calls()) <= maxeq, "hashed %d: find(%d) asked the equality %ld times for %zu candidates", c, k, eq_calls(), maxeq);
               if (i != l_.end()) { auto j = i; ++j; size_t p = size_t(std::find(mod(c).begin(), mod(c).end(), &*i) - mod(c).begin()); VF_CHECKM(O_SEQ, p + 1 < mod(c).size() ? &*j == mod(c)[p + 1] : j == l_.end(), "hashed %d: stepping on from find(%d) does not reach the next element", c, k); }
               break; }
            case 1: { size_t n = foreign ? l_.count(pk, fh, fe) : l_.count(karg(k)); VF_CHECKM(O_SEQ, n == ex.size(), "hashed %d: count(%d) is %zu instead of %zu", c, k, n, ex.size()); break; }
            case 2: { auto r = foreign ? l_.equal_range(pk, fh, fe) : l_.equal_range(karg(k)); size_t n = 0; std::vector<const T *> got; for (auto i = r.first; i != r.second && n <= ex.size(); ++i, ++n) { VF_CHECKH(O_SEQ, i != l_.end(), "hashed %d: equal_range(%d) runs past the end", c, k); got.push_back(&*i); }
               std::sort(got.begin(), got.end()); VF_CHECKM(O_SEQ, got.size() == ex.size() && std::equal(got.begin(), got.end(), ex.begin()), "hashed %d: equal_range(%d) has %zu elements instead of %zu", c, k, got.size(), ex.size());
               if (!ex.empty() && r.second != l_.end()) { size_t p = size_t(std::find(mod(c).begin(), mod(c).end(), &*r.second) - mod(c).begin()); auto j = r.second; ++j; VF_CHECKM(O_SEQ, p < mod(c).size() && (p + 1 < mod(c).size() ? j != l_.end() && &*j == mod(c)[p + 1] : j == l_.end()), "hashed %d: stepping on from the end of equal_range(%d) does not reach the next element", c, k); }
               break; }
            default: { auto i = foreign ? l_.find(pk, fh, fe) : l_.find(karg(k)); if (i != l_.end()) { size_t n = 0; for (auto j = l_.begin(typename S::size_type(b)); j != l_.end(typename S::size_type(b)); ++j) n += &*j == &*i; VF_CHECKM(O_SEQ | O_SHAPE, n == 1, "hashed %d: the element found for %d is not in the bucket of its key", c, k); } break; }
            }
         };
         if (cst) go(const_cast<const L &>(l)); else go(l);
      });
   }
   template <class F> auto fuel_hold(F f) { long left = fuel().left; fuel().left = -1; auto r = f(); fuel().left = left; return r; }

   void conserve(std::initializer_list<int> cs, const char *what, const std::vector<T *> &extra, bool all_stay) {
      std::vector<T *> before(extra);
      for (int c : cs) before.insert(before.end(), mod(c).begin(), mod(c).end());
      std::set<T *> left(before.begin(), before.end()), ex(extra.begin(), extra.end());
      for (int c : cs) {
         std::vector<T *> now;
         with(c, [&](auto &l) { for (auto b = l.begin(); b != l.end(); ++b) { T *p = &*b; VF_CHECKH(O_EXC, left.erase(p) == 1, "%s after an exception: hashed %d holds an element twice or a foreign element", what, c); now.push_back(p); } });
         mod(c) = now;
      }
      for (T *p : left) { bool e = ex.count(p) != 0; if (all_stay && !e) VF_CHECKH(O_EXC, false, "%s after an exception: element %u is in no container any more", what, p->id); if (C::meaningful) VF_CHECKH(O_EXC, !C::linked(*p), "%s after an exception: element %u is in no container but its hook says linked", what, p->id); }
      std::vector<T *> v(left.begin(), left.end()); std::sort(v.begin(), v.end(), [](T *a, T *b) { return a->id < b->id; });
      for (T *p : v) giveback(p);
   }
   void rehash_to(int c, size_t n, bool fresh, size_t extra, bool th_on, uint32_t fl) {
      // into a new array, or within the present one when it is large enough
      std::unique_ptr<B[]> na; size_t ncap = 0;
      if (fresh) newarr(na, ncap, n + extra); else { na.reset(); ncap = cap[c]; }
      BT bt = traits(fresh ? na.get() : arr[c].get(), n);
      hash_calls() = 0; bool th = false;
      auto doit = [&] { with(c, [&](auto &l) { l.rehash(bt); }); };
      if (th_on) th = attempt(fl, doit); else doit();
      drop(c);
      if (th) { VF_CHECKM(O_EXC, !storeh, "rehash called a functor although the hashes are stored"); conserve({c}, "rehash", {}, false); with(c, [&](auto &l) { VF_CHECKM(O_EXC, size_t(l.bucket_count()) == bc[c] && raw(l.bucket_pointer()) == arr[c].get(), "a failed rehash changed the bucket array"); }); return; }
      if (storeh) VF_CHECKM(O_SHAPE, hash_calls() == 0, "rehash called the hash function %ld times although the hashes are stored", hash_calls());
      if (fresh) { arr[c] = std::move(na); cap[c] = ncap; }
      bc[c] = n; if (incr) split[c] = n;
   }

   void op(const Op &o) {
      Disposer<T> D{&w};
      int c = int(o.a[0] % NC), d = int(o.a[1] % NC);
      bool disp = (o.a[4] & 1) != 0;
      w.dispose_mode = (o.a[4] >> 1) & 1;
      w.disposed.clear();
      // an element handed to the disposer of an erasing operation is no longer reached from its container
      w.on_disp = nullptr; if (disp && o.k == ERASE1) w.on_disp = [this, c](T *p) { with(c, [&](auto &y) { const auto &x = y; size_t q = 0; auto b = x.bucket(this->kval(*p)); for (auto i = x.begin(b); i != x.end(b) && q < 300; ++i, ++q) VF_CHECKM(O_DISP, &*i != p, "element %u is still in its bucket when the disposer receives it", p->id); }); };
      std::vector<T *> &m = mod(c);
      size_t n = m.size();
      const char *nm = uniq(c) ? "set" : "multiset";
      switch (o.k) {
      case INSERT: case T_INSERT: { int k = n && (o.a[4] & 12) == 12 ? m[o.a[4] / 16 % n]->key : rkey(o.a[2]); T *e = elem(o.a[3], k); tr("insert(%d)%s -> %s %d\n", k, o.k == T_INSERT ? " throwing" : "", nm, c);
         bool ok = !(uniq(c) && has(c, k)); bool th = false; std::vector<T *> q = eqs(c, k);
         auto doit = [&] { with(c, [&](auto &l) {
            if constexpr (std::is_same<typename std::remove_reference<decltype(l)>::type, S>::value) { std::pair<It, bool> r = l.insert(*e);
               VF_CHECKM(O_SEQ, r.second == ok && &*r.first == (ok ? e : q[0]), "insert of key %d into a set: returned %d, expected %d, or the wrong element", k, int(r.second), int(ok)); }
            else { It r = l.insert(*e); VF_CHECKM(O_SEQ, &*r == e, "insert does not return the inserted element"); } }); };
         if (o.k == T_INSERT) th = attempt(o.a[1] % 8, doit); else doit();
         if (th) { if (C::meaningful) VF_CHECKM(O_EXC | O_HOOK, !C::linked(*e), "insert threw but the element is linked"); giveback(e); }
         else if (!ok || !minsert(c, e)) giveback(e);
         hit(int(o.k), n, ok * 2 + th); break; }
      case INSERT_R: case BULK: case T_INSERT_R: { std::vector<T *> v = o.k == BULK ? grab(o.a[2], 4 + o.a[3] % 60, int(o.a[4] % 3)) : grab(o.a[2], o.a[3] % 8, int(o.a[4] % 3));
         tr("insert(range of %zu)%s -> %s %d\n", v.size(), o.k == T_INSERT_R ? " throwing" : "", nm, c);
         auto doit = [&] { with(c, [&](auto &l) { l.insert(DI{v.begin()}, DI{v.end()}); }); };
         if (o.k == T_INSERT_R && attempt(o.a[1] % 40, doit)) { conserve({c}, "insert(range)", v, true); hit(int(o.k), n, 1); break; }
         if (o.k != T_INSERT_R) doit();
         for (T *e : v) if (!minsert(c, e)) giveback(e);
         hit(int(o.k), n, v.size()); break; }
      case CHECK_COMMIT: case COMMIT_LATE: case T_CHECK: { c = int(o.a[0] % 2); std::vector<T *> &ms = mod(c); n = ms.size();
         int k = rkey(o.a[2]); T *e = elem(o.a[3], k); bool ok = !has(c, k), foreign = (o.a[4] & 1) != 0;
         tr("insert_check(%d%s)%s -> set %d\n", k, foreign ? " foreign" : "", ok ? o.k == COMMIT_LATE ? ", rehash, insert_commit" : ", insert_commit" : "", c);
         typename S::insert_commit_data cd; S &l = *s[c]; std::pair<It, bool> r; HK fh{hm[c], em[c]}; EQ fe{em[c]};
         if (o.k == T_CHECK) { bool th = attempt(o.a[1] % 6, [&] { r = foreign ? l.insert_check(Probe{k}, fh, fe, cd) : l.insert_check(karg(k), cd); }); giveback(e); hit(int(o.k), n, th); break; }
         r = foreign ? l.insert_check(Probe{k}, fh, fe, cd) : l.insert_check(karg(k), cd);
         VF_CHECKH(O_SEQ, r.second == ok, "insert_check(%d) answered %d, expected %d", k, int(r.second), int(ok));
         if (ok) {
            if (o.k == COMMIT_LATE) { rehash_to(c, bcount(o.a[1]), true, 0, false, 0); const typename S::insert_commit_data ccd = cd; It i = l.insert_commit(*e, ccd); VF_CHECKM(O_SEQ, &*i == e, "insert_commit does not return the element"); madd(c, e); }
            else if ((o.a[1] & 3) == 0) giveback(e);
            else { hash_calls() = eq_calls() = 0; It i = (o.a[4] & 2) ? l.insert_fast_commit(*e, cd) : l.insert_commit(*e, cd); VF_CHECKM(O_SEQ, &*i == e, "insert_commit does not return the element"); VF_CHECKM(O_SEQ, !eq_calls() && !hash_calls(), "a commit called a functor"); madd(c, e); }
         } else { VF_CHECKM(O_SEQ, same(c, r.first->key, k) && w.live.count(&*r.first), "insert_check does not return the equivalent element"); giveback(e); }
         hit(int(o.k), n, ok); break; }
      case MIXED: if constexpr (is_direct<M>::value) { // unique insertions into a table that may hold equivalents
         if (uniq(c)) c += 2; std::vector<T *> &mm = mod(c); n = mm.size(); M &l = *mu[c - 2]; uint32_t how = o.a[1] / 4 % 4;
         int k = n && (o.a[4] & 1) ? mm[o.a[2] % n]->key : rkey(o.a[2]); bool ok = !has(c, k);
         if (how == 3) { std::vector<T *> v = grab(o.a[2], o.a[3] % 8, int(o.a[4] % 3)); tr("insert_unique(range of %zu) -> multiset %d\n", v.size(), c); l.insert_unique(DI{v.begin()}, DI{v.end()}); for (T *e : v) { if (has(c, e->key)) giveback(e); else madd(c, e); } hit(int(o.k), n, v.size()); break; }
         T *e = elem(o.a[3], k); T *got; bool second;
         tr("insert_unique%s(%d) -> multiset %d\n", how ? "_check+commit" : "", k, c);
         if (how == 0) { auto r = l.insert_unique(*e); got = &*r.first; second = r.second; }
         else { typename M::insert_commit_data cd; auto r = l.insert_unique_check(karg(k), cd); second = r.second; if (second) got = how == 1 ? &*l.insert_unique_commit(*e, cd) : &*l.insert_unique_fast_commit(*e, cd); else got = &*r.first; }
         VF_CHECKH(O_SEQ, second == ok, "insert_unique(%d) answered %d, expected %d", k, int(second), int(ok));
         if (ok) { VF_CHECKM(O_SEQ, got == e, "insert_unique does not return the inserted element"); madd(c, e); }
         else { VF_CHECKM(O_SEQ, same(c, got->key, k) && got != e, "a refused insert_unique does not return an equivalent element"); giveback(e); }
         hit(int(o.k), n, ok); break; } else return;
      case ERASE1: { if (!n) return; size_t p = o.a[2] % n; T *e = m[p]; tr("erase%s(@%zu) %s %d\n", disp ? "_and_dispose" : "", p, nm, c);
         bool viato = (o.a[4] & 8) != 0;
         with(c, [&](auto &l) { Cit i = viato ? Cit(l.iterator_to(*e)) : this->cit(c, p); if (disp) l.erase_and_dispose(i, D); else l.erase(i); });
         mrem(c, e); if (disp) w.expect_disposed({e}, "erase_and_dispose"); else w.settle({e}); hit(int(o.k), n, p); break; }
      case ERASE_R: { size_t p = o.a[2] % (n + 1), q = p + o.a[3] % (n - p + 1); if ((o.a[4] & 12) == 12) q = n; if ((o.a[4] & 48) == 48) p = 0; std::vector<T *> v(m.begin() + long(p), m.begin() + long(q)); tr("erase%s(@%zu..@%zu) %s %d\n", disp ? "_and_dispose" : "", p, q, nm, c);
         with(c, [&](auto &l) { if (disp) l.erase_and_dispose(this->cit(c, p), this->cit(c, q), D); else l.erase(this->cit(c, p), this->cit(c, q)); });
         m.erase(m.begin() + long(p), m.begin() + long(q));
         if (disp) w.expect_disposed(v, "erase_and_dispose(range)"); else w.settle(v); if (p != q) hit(int(o.k), n, q - p); break; }
      case ERASE_K: case T_ERASE: { int k = rkey(o.a[2]); if (n && (o.a[3] & 3)) k = m[o.a[2] % n]->key; bool foreign = (o.a[3] & 4) != 0; std::vector<T *> v = eqs(c, k); tr("erase%s(key %d%s)%s %s %d\n", disp ? "_and_dispose" : "", k, foreign ? " foreign" : "", o.k == T_ERASE ? " throwing" : "", nm, c);
         HK fh{hm[c], em[c]}; EQ fe{em[c]}; Probe pk{k}; size_t r = 0;
         auto doit = [&] { r = with(c, [&](auto &l) { return size_t(foreign ? (disp ? l.erase_and_dispose(pk, fh, fe, D) : l.erase(pk, fh, fe)) : (disp ? l.erase_and_dispose(this->karg(k), D) : l.erase(this->karg(k)))); }); };
         if (o.k == T_ERASE && attempt(o.a[1] % 8, doit)) { VF_CHECKM(O_EXC | O_DISP, w.disposed.empty(), "erase(key) threw while finding the elements but disposed of some"); conserve({c}, "erase(key)", {}, true); hit(int(o.k), n, 1); break; }
         if (o.k != T_ERASE) doit();
         for (T *e : v) mrem(c, e);
         VF_CHECKM(O_SEQ, r == v.size(), "erase(key %d) returned %zu instead of %zu", k, r, v.size());
         if (disp) w.expect_disposed(v, "erase_and_dispose(key)"); else w.settle(v); if (!v.empty()) hit(int(o.k), n, v.size()); break; }
      case CLEAR: { std::vector<T *> v(m); tr("clear%s %s %d\n", disp ? "_and_dispose" : "", nm, c); with(c, [&](auto &l) { if (disp) l.clear_and_dispose(D); else l.clear(); });
         m.clear(); if (disp) w.expect_disposed(v, "clear_and_dispose"); else w.settle(v); if (n) hit(int(o.k), n); break; }
      case LOOKUP: { int k = n && (o.a[2] & 1) ? m[o.a[3] % n]->key : rkey(o.a[3]); bool f = (o.a[4] & 1) != 0, cs = (o.a[4] & 2) != 0; uint32_t sel = (o.a[4] >> 2) % 4; tr("lookup %u of %d%s%s in %s %d\n", sel, k, f ? " foreign" : "", cs ? " const" : "", nm, c);
         lookups(c, k, f, cs, sel); hit(int(o.k), n, sel); break; }
      case T_LOOKUP: { int k = n && (o.a[3] & 1) ? m[o.a[3] / 2 % n]->key : rkey(o.a[3]); uint32_t sel = (o.a[4] >> 2) % 4; tr("lookup %u of %d throwing in %s %d\n", sel, k, nm, c); bool th = attempt(o.a[2] % 8, [&] { lookups(c, k, (o.a[4] & 1) != 0, (o.a[4] & 2) != 0, sel); }); hit(int(o.k), n, th); break; }
      case SWAP: { d = c ^ 1; tr("swap(%s %d, %d)\n", nm, c, d); if (c < 2) { if (o.a[2] & 1) s[0]->swap(*s[1]); else boost::adl_move_swap(*s[0], *s[1]); } else mu[0]->swap(*mu[1]);
         hit(int(o.k), n, mod(d).size()); swapall(c, d); break; }
      case MOVE_CTOR: { tr("move-construct %s %d\n", nm, c); if (c < 2) { S *x = new S(boost::move(*s[c])); if (S::constant_time_size) VF_CHECKM(O_SEQ | O_SIZE, s[c]->size() == 0, "the source of a move construction is not empty"); delete s[c]; s[c] = x; }
         else { M *x = new M(boost::move(*mu[c - 2])); if (S::constant_time_size) VF_CHECKM(O_SEQ | O_SIZE, mu[c - 2]->size() == 0, "the source of a move construction is not empty"); delete mu[c - 2]; mu[c - 2] = x; }
         drop(c); hit(int(o.k), n); break; }
      case MOVE_ASSIGN: { d = c ^ 1; tr("%s %d = move(%d)\n", nm, c, d); if (c < 2) *s[c] = boost::move(*s[d]); else *mu[c - 2] = boost::move(*mu[d - 2]);
         hit(int(o.k), n, mod(d).size()); swapall(c, d); break; }
      case CLONE: case T_CLONE: { d = c ^ 1; std::vector<T *> &ms = mod(d); if (ms.size() > 500) return; std::vector<T *> old(m); bool rv = (o.a[2] & 1) != 0, th = false; std::vector<std::pair<const T *, T *> > made; World<T> *pw = &w;
         tr("%s %d (%zu buckets) clone_from(%s%d, %zu buckets)%s\n", nm, c, bc[c], rv ? "move " : "", d, bc[d], o.k == T_CLONE ? " throwing" : "");
         auto cl = [&](const T &x) -> typename S::pointer { tick(); T *e = pw->fresh(x.key); made.push_back(std::make_pair(&x, e)); return typename S::pointer(e); };
         auto clr = [&](T &x) -> typename S::pointer { return cl(x); };
         auto doit = [&] { if (c < 2) { if (rv) s[c]->clone_from(boost::move(*s[d]), clr, D); else s[c]->clone_from(const_cast<const S &>(*s[d]), cl, D); } else { if (rv) mu[c - 2]->clone_from(boost::move(*mu[d - 2]), clr, D); else mu[c - 2]->clone_from(const_cast<const M &>(*mu[d - 2]), cl, D); } };
         hash_calls() = 0;
         if (o.k == T_CLONE) th = attempt(o.a[3] % (3 * uint32_t(ms.size()) + 1), doit); else doit();
         if (storeh) VF_CHECKM(O_CLONE, hash_calls() == 0, "clone_from called the hash function although the hashes are stored");
         hit(int(o.k), ms.size(), n * 2 + th);
         std::vector<T *> gone(old); drop(c);
         if (th) { for (auto &x : made) gone.push_back(x.second); m.clear(); with(c, [&](auto &l) { VF_CHECKM(O_CLONE | O_EXC, l.empty() && l.begin() == l.end() && l.size() == 0, "clone_from left elements behind after an exception"); hm[c] = l.hash_function().hm; em[c] = l.hash_function().em; VF_CHECKM(O_CLONE | O_EXC, l.key_eq().em == em[c], "a failed clone_from left a hash function and an equality that do not match"); }); }
         else {
            VF_CHECKM(O_CLONE, made.size() == ms.size(), "clone_from called the cloner %zu times for %zu elements", made.size(), ms.size());
            std::map<const T *, T *> mp; bool dup = false; for (auto &x : made) dup = dup || !mp.insert(x).second;
            VF_CHECKH(O_CLONE, !dup, "clone_from cloned one element twice");
            m.clear(); for (T *e : ms) { auto f = mp.find(e); VF_CHECKH(O_CLONE, f != mp.end(), "clone_from did not clone an element"); m.push_back(f->second); }
            hm[c] = hm[d]; em[c] = em[d];
         }
         { std::vector<T *> a(gone), b(w.disposed); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECKH(O_DISP | O_CLONE, a == b, "clone_from%s: %zu elements should have been disposed of, the disposer got %zu", th ? " (failed)" : "", a.size(), b.size()); w.settle(gone); w.disposed.clear(); }
         break; }
      case REHASH_NEW: case T_REHASH: { size_t nb = bcount(o.a[2]); if ((o.a[4] & 6) == 6) nb = fast ? bc[c] : pow2 ? bc[c] << (o.a[3] % 2) : (o.a[3] & 1) ? bc[c] * 2 : bc[c]; if (nb > 5000) nb = bc[c]; tr("rehash%s(new array of %zu) %s %d with %zu\n", o.k == T_REHASH ? " throwing" : "", nb, nm, c, bc[c]);
         rehash_to(c, nb, true, (o.a[4] & 1) ? nb * 3 : 0, o.k == T_REHASH, o.a[3] % (2 * uint32_t(n) + 3)); hit(int(o.k), n, nb); break; }
      case REHASH_GROW: case REHASH_SHRINK: { size_t nb = 0; bool up = o.k == REHASH_GROW;
         if (fast) { nb = up ? size_t(S::suggested_upper_bucket_count(typename S::size_type(bc[c] + 1))) : size_t(S::suggested_lower_bucket_count(typename S::size_type(bc[c] > 1 ? bc[c] - 1 : 1))); }
         else if (pow2) nb = up ? bc[c] * 2 : bc[c] > 1 ? bc[c] / 2 : 1;
         else if (o.a[2] % 3 == 0) nb = up ? bc[c] * 2 : (bc[c] + 1) / 2;
         else nb = up ? bc[c] + 1 + o.a[2] % (cap[c] - bc[c] + 1) : 1 + o.a[2] % bc[c];
         if (nb > cap[c]) { if (up) nb = bc[c]; else return; }
         tr("rehash within the array to %zu, %s %d with %zu\n", nb, nm, c, bc[c]);
         rehash_to(c, nb, false, 0, (o.a[4] & 1) && g().prop == "C12", o.a[3] % (2 * uint32_t(n) + 3)); hit(int(o.k), n, nb); break; }
      case FULL_REHASH: case T_FULL: { int delta = 64 * int(o.a[2] % 4); if (n && m[0]->key > 100000) delta = 0; tr("keys of %s %d += %d, full_rehash%s\n", nm, c, delta, o.k == T_FULL ? " throwing" : "");
         for (T *e : m) e->key += delta;
         bool th = false; auto doit = [&] { with(c, [&](auto &l) { l.full_rehash(); }); };
         if (o.k == T_FULL) th = attempt(o.a[3] % (2 * uint32_t(n) + 3), doit); else doit();
         drop(c); if (th) { conserve({c}, "full_rehash", {}, false); if (incr) with(c, [&](auto &l) { split[c] = l.split_count(); }); }
         else if (incr) split[c] = bc[c];
         hit(int(o.k), n, delta); break; }
      case INC: case T_INC: if constexpr (incr) { bool up = (o.a[2] & 1) != 0; uint32_t times = o.k == T_INC ? 1 : 1 + o.a[3] % 6; tr("incremental_rehash(%s) x %u%s, %s %d split %zu of %zu\n", up ? "grow" : "shrink", times, o.k == T_INC ? " throwing" : "", nm, c, split[c], bc[c]);
         while (times--) {
            bool r = false, ex = up ? split[c] < bc[c] : split[c] > bc[c] / 2, th = false; auto doit = [&] { with(c, [&](auto &l) { r = up && (times & 1) ? l.incremental_rehash() : l.incremental_rehash(up); }); };
            if (o.k == T_INC) th = attempt(o.a[3] % 8, doit); else doit();
            drop(c);
            if (th) { conserve({c}, "incremental_rehash", {}, true); hit(int(o.k), n, 1); break; }
            VF_CHECKM(O_SEQ | O_SHAPE, r == ex, "incremental_rehash(%d) answered %d with split %zu of %zu buckets", int(up), int(r), split[c], bc[c]);
            if (ex) split[c] += up ? 1 : size_t(-1);
            hit(int(o.k), n, split[c]);
            if (times) verify(c);
         } break; } else return;
      case INC_NEW: if constexpr (incr) { bool up = (o.a[2] & 1) != 0, fresh = (o.a[2] & 2) != 0; size_t nb = up ? bc[c] * 2 : bc[c] / 2; if ((o.a[4] & 15) == 15) nb = bcount(o.a[3]); if (nb == 0 || nb > 4096) return;
         if (!fresh && nb > cap[c]) fresh = true;
         bool can = nb == bc[c] * 2 ? split[c] >= bc[c] : nb * 2 == bc[c] ? split[c] <= nb : false;
         tr("incremental_rehash(%s array of %zu), %s %d split %zu of %zu\n", fresh ? "new" : "the same", nb, nm, c, split[c], bc[c]);
         std::unique_ptr<B[]> na; size_t ncap = cap[c]; if (fresh) newarr(na, ncap, nb * ((o.a[4] & 16) ? 2 : 1));
         BT bt = traits(fresh ? na.get() : arr[c].get(), nb); bool r = false; with(c, [&](auto &l) { r = l.incremental_rehash(bt); }); drop(c);
         VF_CHECKM(O_SEQ | O_SHAPE, r == can, "incremental_rehash(array of %zu) answered %d with split %zu of %zu buckets", nb, int(r), split[c], bc[c]);
         if (r) { if (fresh) { arr[c] = std::move(na); cap[c] = ncap; } bc[c] = nb; }
         hit(int(o.k), n, nb * 2 + r); break; } else return;
      case GROWTH: if constexpr (incr) {   // the documented way to grow (or shrink) one step at a time, through array changes, with insertions in between
         bool up = (o.a[2] & 1) != 0; uint32_t steps = 1 + o.a[3] % 12; tr("%u steps of incremental %s, %s %d split %zu of %zu\n", steps, up ? "growth" : "shrinking", nm, c, split[c], bc[c]);
         drop(c);
         while (steps--) {
            bool r = with(c, [&](auto &l) { return l.incremental_rehash(up); }); bool ex = up ? split[c] < bc[c] : split[c] > bc[c] / 2; VF_CHECKM(O_SEQ | O_SHAPE, r == ex, "incremental_rehash(%d) answered %d with split %zu of %zu buckets", int(up), int(r), split[c], bc[c]);
            if (ex) { split[c] += up ? 1 : size_t(-1); continue; }
            size_t nb = up ? bc[c] * 2 : bc[c] / 2; if (!nb || nb > 1024) break;
            std::unique_ptr<B[]> na; size_t ncap = cap[c]; bool fresh = nb > cap[c] || (o.a[4] & 2); if (fresh) newarr(na, ncap, nb * 2);
            r = with(c, [&](auto &l) { return l.incremental_rehash(this->traits(fresh ? na.get() : arr[c].get(), nb)); }); VF_CHECKM(O_SEQ | O_SHAPE, r, "incremental_rehash(array of %zu) refused with split %zu of %zu", nb, split[c], bc[c]);
            if (r) { if (fresh) { arr[c] = std::move(na); cap[c] = ncap; } bc[c] = nb; }
            if (steps % 3 == 0) { T *e = elem(o.a[4] + steps, rkey(o.a[1] + steps)); with(c, [&](auto &l) { l.insert(*e); }); if (!minsert(c, e)) giveback(e); }
            verify(c);
         }
         hit(int(o.k), n, split[c]); break; } else return;
      case CMP: { d = c ^ 1; std::vector<T *> &t = mod(d); if (em[c] != em[d]) return; tr("compare %s %d with %d\n", nm, c, d); auto lt = [](T *p, T *q) { return p->key < q->key; };
         std::vector<int> x, y; for (T *e : m) x.push_back(e->key); for (T *e : t) y.push_back(e->key); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
         bool e = x == y, ls = std::lexicographical_compare(m.begin(), m.end(), t.begin(), t.end(), lt), gt = std::lexicographical_compare(t.begin(), t.end(), m.begin(), m.end(), lt);
         auto chk = [&](const auto &x, const auto &y) { VF_CHECKM(O_CMP, (x == y) == e && (x != y) == !e, "operator==/!= wrong for %s and %s", keys(m).c_str(), keys(t).c_str()); VF_CHECKM(O_CMP, (x < y) == ls && (x > y) == gt && (x <= y) == !gt && (x >= y) == !ls, "an ordering operator is wrong for %s and %s", keys(m).c_str(), keys(t).c_str()); };
         if (c < 2) chk(*s[c], *s[d]); else chk(*mu[c - 2], *mu[d - 2]); hit(int(o.k), n, t.size() * 4 + e * 2 + ls); break; }
      case EQ_MAKE: { d = c ^ 1; if (em[c] != em[d]) return; drop(d); std::vector<T *> old(mod(d)); with(d, [&](auto &l) { l.clear(); }); mod(d).clear(); w.settle(old); size_t k = n - ((o.a[2] & 3) == 0 && n ? 1 : 0); tr("%s %d := copy of the first %zu keys of %d\n", nm, d, k, c);
         std::vector<int> ks; for (size_t i = 0; i < k; ++i) ks.push_back(m[i]->key + ((o.a[2] & 12) == 0 && i + 1 == k ? 1 : 0)); Rng r(o.a[3]); for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[r.below(uint32_t(i))]);
         for (size_t i = 0; i < ks.size(); ++i) { T *e = elem(o.a[3] + uint32_t(i), ks[i]); with(d, [&](auto &l) { l.insert(*e); }); if (!minsert(d, e)) giveback(e); } break; }
      case SAVE_ITER: { if (!n) return; size_t p = o.a[2] % n; if (saved.size() < 24) saved.push_back(Saved{it(c, p), m[p]}); hit(int(o.k), n, p); break; }
      case CONV: { tr("conversions of %s %d\n", nm, c); with(c, [&](auto &x) { typedef typename std::remove_reference<decltype(x)>::type L; const L &k = x;
            for (size_t i = 0; i < n; ++i) { It a = x.iterator_to(*m[i]); Cit b = k.iterator_to(*m[i]); VF_CHECKM(O_ITER, &*a == m[i] && &*b == m[i] && Cit(a) == b, "iterator_to does not designate the element");
               Cit nx = b; ++nx; VF_CHECKM(O_ITER, i + 1 < n ? nx != k.end() && &*nx == m[i + 1] : nx == k.end(), "iterator_to + 1 is not the next element"); { Cit z; z = a; It y2; y2 = a; VF_CHECKM(O_ITER, z == b && y2 == a && &*z == m[i] && &*y2 == m[i], "assigning an iterator does not copy its position"); z = nx; VF_CHECKM(O_ITER, z == nx, "assigning an iterator does not copy its position"); } It post = a; It o2 = post++; VF_CHECKM(O_ITER, o2 == a && Cit(post) == nx && raw(a.operator->()) == m[i], "post-increment / arrow");
               auto li = x.local_iterator_to(*m[i]); auto cli = k.local_iterator_to(*m[i]); if constexpr (C::stateless) { auto sli = L::s_local_iterator_to(*m[i]); auto scli = L::s_local_iterator_to(const_cast<const T &>(*m[i])); VF_CHECKM(O_ITER, &*sli == m[i] && &*scli == m[i], "s_local_iterator_to does not designate the element"); } VF_CHECKM(O_ITER, &*li == m[i] && &*cli == m[i], "local_iterator_to does not designate the element");
               size_t b2 = k.bucket(this->kval(*m[i])); ++li; ++cli; bool le = li == x.end(typename S::size_type(b2)); VF_CHECKM(O_ITER, le == (cli == k.cend(typename S::size_type(b2))) && (le || (i + 1 < n && &*li == m[i + 1] && &*cli == m[i + 1])), "a local iterator does not step to the next element of its bucket"); }
            VF_CHECKM(O_ITER, x.begin() == k.begin() && k.cbegin() == Cit(x.begin()) && x.end() == k.cend() && (n == 0) == (x.begin() == x.end()), "begin/end variants disagree");
            VF_CHECKM(O_ITER, It() == It(), "value-initialised iterators differ"); if (const char *why = iter_types<It, Cit, T>(false)) VF_CHECKM(O_ITER, false, "iterator types: %s", why); if (const char *why = iter_types<typename L::local_iterator, typename L::const_local_iterator, T>(false, false)) VF_CHECKM(O_ITER, false, "local iterator types: %s", why); k.check(); }); hit(int(o.k), n); break; }
      case HOOK_UNLINK: case DTOR_UNLINK: if constexpr (C::autou) { if (!n) return; size_t i = o.a[2] % n; T *e = m[i]; mrem(c, e);
         if (o.k == HOOK_UNLINK) { tr("element @%zu of %s %d unlinks itself\n", i, nm, c); e->hook().unlink(); VF_CHECKM(O_HOOK, !e->hook().is_linked(), "unlink() left the hook linked"); if (o.a[3] & 1) e->hook().unlink(); giveback(e); }
         else { tr("element @%zu of %s %d is destroyed\n", i, nm, c); w.kill(e); } hit(int(o.k), n, i); break; } else return;
      case HOOK_COPY: { if (!n) return; T *e = m[o.a[2] % n]; tr("copy an element of %s %d, assign to one\n", nm, c); T *q = w.fresh_keep(new T(*e)); w.pool.push_back(q); if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*q), "a copy of a linked element is linked");
         *e = *q; *q = *e; if (C::meaningful) VF_CHECKM(O_HOOK, !C::linked(*q), "assignment from a linked element linked the target"); hit(int(o.k), n); break; }
      case HOOK_SWAP: if constexpr (C::hswap) { if (!n) return; size_t i = o.a[2] % n; T *x = m[i]; drop(c); drop(d);
         if ((o.a[4] & 7) == 0 && !w.pool.empty()) { size_t j = o.a[3] % w.pool.size(); T *y = w.pool[j]; tr("hook swap: %s %d @%zu with an unlinked element\n", nm, c, i); if (o.a[4] & 8) x->hook().swap_nodes(y->hook()); else y->hook().swap_nodes(x->hook());
            std::swap(x->key, y->key); m[i] = y; w.pool[j] = x; x->where = -1; hit(int(o.k), n, i); break; }
         std::vector<T *> &t = mod(d); if (t.empty()) return; size_t j = o.a[3] % t.size(); T *y = t[j]; tr("hook swap: %d @%zu with %d @%zu\n", c, i, d, j); x->hook().swap_nodes(y->hook()); std::swap(x->key, y->key); m[i] = y; if (!(c == d && i == j)) t[j] = x; hit(int(o.k), n, i); break; } else return;
      case REMOVE_NODE: return;
      case RECREATE: case T_CTOR: { std::vector<T *> old(m), v = grab(o.a[2], o.a[3] % 12, int(o.a[4] % 3)); int nh = int((o.a[4] >> 2) % 8), ne = int((o.a[4] >> 5) & 1); size_t nb = bcount(o.a[1]); tr("destroy %s %d, construct with %zu buckets from a range of %zu%s\n", nm, c, nb, v.size(), o.k == T_CTOR ? ", throwing" : "");
         if (!C::meaningful) with(c, [&](auto &l) { l.clear(); });
         if (c < 2) { delete s[c]; s[c] = nullptr; } else { delete mu[c - 2]; mu[c - 2] = nullptr; } drop(c);
         if (C::meaningful) for (T *e : old) VF_CHECKM(O_HOOK, !C::linked(*e), "element %u still linked after its container was destroyed", e->id);
         w.settle(old); m.clear(); bool th = false; hm[c] = nh; em[c] = ne; newarr(arr[c], cap[c], nb * (1 + (o.a[0] >> 4) % 3)); bc[c] = nb; split[c] = nb / 2;
         auto doit = [&] { if (c < 2) s[c] = new S(DI{v.begin()}, DI{v.end()}, traits(arr[c].get(), nb), HK(nh, ne), EQ(ne), C::vt()); else mu[c - 2] = new M(DI{v.begin()}, DI{v.end()}, traits(arr[c].get(), nb), HK(nh, ne), EQ(ne), C::vt()); };
         if (o.k == T_CTOR) th = attempt(o.a[1] % 40, doit); else doit();
         if (th) { newarr(arr[c], cap[c], nb); make(c); if (C::meaningful) for (T *e : v) VF_CHECKM(O_EXC, !C::linked(*e), "a range constructor threw but element %u stayed linked", e->id); w.settle(v); }
         else for (T *e : v) if (!minsert(c, e)) giveback(e);
         hit(int(o.k), n, v.size() * 2 + th); break; }
      case DISP_MOVE: { if (c == d || uniq(d)) d = 2 + (c & 1); if (c == d) return; size_t p = o.a[2] % (n + 1), q = p + o.a[3] % (n - p + 1); bool all = (o.a[4] & 4) != 0; if (all) { p = 0; q = n; } tr("%s %s %d disposing into multiset %d\n", all ? "clear" : "erase a range of", nm, c, d); M *t = mu[d - 2]; std::vector<T *> got; auto mv = [t, &got](typename S::pointer e) { got.push_back(raw(e)); t->insert(*e); };
         std::vector<T *> v(m.begin() + long(p), m.begin() + long(q)); with(c, [&](auto &l) { if (all) l.clear_and_dispose(mv); else l.erase_and_dispose(this->cit(c, p), this->cit(c, q), mv); }); drop(c);
         m.erase(m.begin() + long(p), m.begin() + long(q)); std::vector<T *> a(v), b(got); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECKH(O_DISP | O_SEQ, a == b, "the disposer got %zu elements, %zu were removed", b.size(), a.size()); for (T *e : got) madd(d, e); if (!v.empty()) hit(int(o.k), n, v.size()); break; }
      default: return;
      }
      verify_all();
   }
   void swapall(int c, int d) { drop(c); drop(d); mod(c).swap(mod(d)); std::swap(hm[c], hm[d]); std::swap(em[c], em[d]); std::swap(arr[c], arr[d]); std::swap(cap[c], cap[d]); std::swap(bc[c], bc[d]); std::swap(split[c], split[d]); }
   void make(int c) { if (c < 2) s[c] = new S(traits(arr[c].get(), bc[c]), HK(hm[c], em[c]), EQ(em[c]), C::vt()); else mu[c - 2] = new M(traits(arr[c].get(), bc[c]), HK(hm[c], em[c]), EQ(em[c]), C::vt()); }

   void run(const Case &cs) {
      static const uint32_t KR[] = {2, 3, 6, 16, 60, 2000};
      w.keyrange = KR[cs.cfg[1] % 6];
      if (C::meaningful) w.linked = &C::linked;
      probe = new T;
      Rng r(cs.cfg[3]);
      for (int i = 0; i < NC; ++i) { hm[i] = int(r.below(8)); em[i] = int(cs.cfg[4] >> 1) & 1; if (r.below(5) == 0) em[i] ^= 1; bc[i] = bcount(r.u32() >> 8); split[i] = bc[i] / 2; newarr(arr[i], cap[i], bc[i] * (1 + r.below(4))); make(i); }
      static const uint32_t FILL[] = {0, 0, 0, 0, 0, 4, 12, 40, 40, 150};
      for (int i = 0; i < NC; ++i) {
         uint32_t nf = r.below(FILL[cs.cfg[2] % 10] + 1);
         tr("container %d: hash %d, equality %d, %zu buckets%s\n", i, hm[i], em[i], bc[i], nf ? ", prefilled" : "");
         while (nf--) { T *e = elem(r.u32() >> 8, int(r.below(w.keyrange))); with(i, [&](auto &l) { l.insert(*e); }); if (!minsert(i, e)) giveback(e); }
      }
      verify_all();
      g().opi = 0;
      for (auto &o : cs.ops) { op(o); ++g().opi; }
      for (int i = 0; i < NC; ++i) {
         if (!C::meaningful) with(i, [&](auto &l) { l.clear(); });
         std::vector<T *> v(mod(i)); if (i < 2) delete s[i]; else delete mu[i - 2];
         if (C::meaningful) for (T *e : v) VF_CHECKM(O_HOOK, !C::linked(*e), "element %u still linked after its container was destroyed", e->id);
         arr[i].reset();
      }
      std::vector<T *> all(w.live.begin(), w.live.end());
      for (T *e : all) w.kill(e);
      delete probe;
   }
};

// ---- configurations ----------------------------------------------------------
// the hash table class itself, used as a set or as a multiset; the multisets also see unique insertions (MIXED)
template <class B, bool U> struct Direct : B {
   typedef typename B::iterator iterator; typedef typename B::const_iterator const_iterator; typedef typename B::reference reference; typedef typename B::key_type key_type;
   typedef typename B::hasher hasher; typedef typename B::key_equal key_equal; typedef typename B::bucket_traits bucket_traits; typedef typename B::insert_commit_data insert_commit_data;
   static const bool direct = true;
   typedef typename B::value_traits VTr;
   Direct(const bucket_traits &b, const hasher &h, const key_equal &e, const VTr &v) : B(b, h, e, v) {}
   template <class I> Direct(I b, I e, const bucket_traits &t, const hasher &h, const key_equal &q, const VTr &v) : B(t, h, q, v) { insert(b, e); }
   Direct(Direct &&o) : B(boost::move(static_cast<B &>(o))) {}
   Direct &operator=(Direct &&o) { B::operator=(boost::move(static_cast<B &>(o))); return *this; }
   friend void swap(Direct &x, Direct &y) { x.B::swap(y); }
   auto insert(reference v) { if constexpr (U) return B::insert_unique(v); else return B::insert_equal(v); }
   template <class I> void insert(I b, I e) { if constexpr (U) B::insert_unique(b, e); else B::insert_equal(b, e); }
   template <class... A> auto insert_check(A &&...a) { return B::insert_unique_check(static_cast<A &&>(a)...); }
   iterator insert_commit(reference v, const insert_commit_data &d) { return B::insert_unique_commit(v, d); }
   iterator insert_fast_commit(reference v, const insert_commit_data &d) { return B::insert_unique_fast_commit(v, d); }
   template <class Cl, class Di> void clone_from(const Direct &o, Cl c, Di d) { B::clone_from(static_cast<const B &>(o), c, d); }
   template <class Cl, class Di> void clone_from(Direct &&o, Cl c, Di d) { B::clone_from(boost::move(static_cast<B &>(o)), c, d); }
};
template <class T, class HO, bool Cts, bool Kov, int LM, class Sz, class... PO> struct DCfg;
template <class T, class HO, bool Cts, bool Kov, int LM, class Sz, class... PO>
struct Cfg {
   static const bool kov = Kov, meaningful = LM != int(bi::normal_link), autou = LM == int(bi::auto_unlink), stateless = true;
   template <class U> static constexpr auto hookable(int) -> decltype(std::declval<U &>().hook().swap_nodes(std::declval<U &>().hook()), true) { return true; } template <class U> static constexpr bool hookable(long) { return false; }
   typedef bi::key_of_value<typename std::conditional<Kov, KOV<T>, void>::type> KO;
   typedef bi::unordered_set<T, HO, bi::hash<HK>, bi::equal<EQ>, bi::constant_time_size<Cts>, bi::size_type<Sz>, KO, PO...> S;
   typedef bi::unordered_multiset<T, HO, bi::hash<HK>, bi::equal<EQ>, bi::constant_time_size<Cts>, bi::size_type<Sz>, KO, PO...> M;
   static const bool hswap = LM != int(bi::normal_link) && !S::linear_buckets && hookable<T>(0);   // (linear buckets are no rings: an element cannot be exchanged knowing only its hook)
   static typename S::value_traits vt() { return typename S::value_traits(); }
   static bool linked(const T &e) { if constexpr (LM != int(bi::normal_link)) return e.hook().is_linked(); else return false; }
};
template <class T, class HO, bool Cts, bool Kov, int LM, class Sz, class... PO>
struct DCfg : Cfg<T, HO, Cts, Kov, LM, Sz, PO...> {
   typedef bi::hashtable<T, HO, bi::hash<HK>, bi::equal<EQ>, bi::constant_time_size<Cts>, bi::size_type<Sz>, bi::key_of_value<typename std::conditional<Kov, KOV<T>, void>::type>, PO...> H;
   typedef Direct<H, true> S; typedef Direct<H, false> M;
};
template <class C> void go(const Case &c) { std::unique_ptr<HashRun<C> > r(new HashRun<C>); r->run(c); }
template <int P, bool On = (VF_PART < 0 || VF_PART == P)> struct Reg { template <class C> static void add(const char *n) { configs().push_back({n, go<C>}); } };
template <int P> struct Reg<P, false> { template <class C> static void add(const char *) {} };

using bi::link_mode; using bi::void_pointer; using bi::store_hash; using bi::optimize_multikey; using bi::power_2_buckets; using bi::cache_begin; using bi::compare_hash; using bi::incremental; using bi::linear_buckets; using bi::fastmod_buckets;
typedef link_mode<bi::auto_unlink> AU; typedef link_mode<bi::normal_link> NL; typedef std::size_t Z;
template <class... O> using BH = bi::unordered_set_base_hook<O...>;
template <class... O> using MH = bi::unordered_set_member_hook<O...>;
#define BASE(N, HT) typedef HT H##N; typedef ElemB<H##N> T##N; typedef bi::base_hook<H##N> O##N
#define MEMB(N, HT) typedef HT H##N; typedef ElemM<H##N> T##N; typedef bi::member_hook<T##N, H##N, &T##N::h> O##N
struct Tags {
#define COMMA ,
   typedef BH<> b0; typedef BH<store_hash<true>, optimize_multikey<true> > b1; typedef MH<optimize_multikey<true> > m2; typedef BH<AU, store_hash<true> > b3; typedef MH<AU, optimize_multikey<true> > m4;
   typedef BH<store_hash<true> > b5; typedef MH<optimize_multikey<true> > m6; typedef BH<store_hash<true> > b7; typedef MH<optimize_multikey<true> > m8; typedef BH<store_hash<true>, optimize_multikey<true> > b9;
   typedef MH<> m10; typedef MH<void_pointer<fptr<void> > > m11; typedef MH<void_pointer<fptr<void> >, optimize_multikey<true>, store_hash<true> > m12; typedef BH<NL> b13; typedef BH<NL, optimize_multikey<true>, store_hash<true> > b15; typedef MH<optimize_multikey<true> > m16;
};
BASE(0, Tags::b0); struct C0 : Cfg<T0, O0, true, false, bi::safe_link, Z> {};
BASE(1, Tags::b1); struct C1 : Cfg<T1, O1, true, false, bi::safe_link, Z, power_2_buckets<true>, compare_hash<true>, cache_begin<true> > {};
MEMB(2, Tags::m2); struct C2 : Cfg<T2, O2, false, true, bi::safe_link, Z> {};
BASE(3, Tags::b3); struct C3 : Cfg<T3, O3, false, false, bi::auto_unlink, Z, power_2_buckets<true> > {};
MEMB(4, Tags::m4); struct C4 : Cfg<T4, O4, false, false, bi::auto_unlink, Z> {};
BASE(5, Tags::b5); struct C5 : Cfg<T5, O5, true, false, bi::safe_link, Z, power_2_buckets<true>, incremental<true>, cache_begin<true> > {};
MEMB(6, Tags::m6); struct C6 : Cfg<T6, O6, false, false, bi::safe_link, Z, power_2_buckets<true>, incremental<true> > {};
BASE(7, Tags::b7); struct C7 : Cfg<T7, O7, true, false, bi::safe_link, Z, linear_buckets<true>, compare_hash<true> > {};
MEMB(8, Tags::m8); struct C8 : Cfg<T8, O8, false, true, bi::safe_link, Z, linear_buckets<true>, power_2_buckets<true>, incremental<true>, cache_begin<true> > {};
BASE(9, Tags::b9); struct C9 : Cfg<T9, O9, true, false, bi::safe_link, Z, fastmod_buckets<true>, cache_begin<true> > {};
MEMB(10, Tags::m10); struct C10 : Cfg<T10, O10, false, true, bi::safe_link, Z, fastmod_buckets<true>, linear_buckets<true> > {};
MEMB(11, Tags::m11); struct C11 : Cfg<T11, O11, true, false, bi::safe_link, Z> {};
MEMB(12, Tags::m12); struct C12 : Cfg<T12, O12, true, false, bi::safe_link, Z, linear_buckets<true>, power_2_buckets<true>, incremental<true> > {};
BASE(13, Tags::b13); struct C13 : Cfg<T13, O13, true, true, bi::normal_link, Z, power_2_buckets<true> > {};
typedef ElemB<bi::any_base_hook<> > T14; struct C14 : Cfg<T14, bi::any_to_unordered_set_hook<bi::base_hook<bi::any_base_hook<> > >, true, false, bi::safe_link, Z, cache_begin<true> > { static const bool hswap = false; };   // (any_base_hook: not offered)
BASE(15, Tags::b15); struct C15 : Cfg<T15, O15, true, false, bi::normal_link, unsigned short> {};
MEMB(16, Tags::m16); struct C16 : Cfg<T16, O16, true, false, bi::safe_link, Z, linear_buckets<true>, power_2_buckets<true>, cache_begin<true> > {};

typedef MH<> H17; typedef ElemM<H17> T17; struct C17 : DCfg<T17, bi::member_hook<T17, H17, &T17::h>, true, true, bi::safe_link, Z, cache_begin<true> > {};
typedef BH<store_hash<true>, optimize_multikey<true> > H18; typedef ElemB<H18> T18; struct C18 : DCfg<T18, bi::base_hook<H18>, true, false, bi::safe_link, Z, power_2_buckets<true>, incremental<true> > {};

// user-defined nodes reached through derivation, trivial and stateful value traits, and a function hook
struct UN { UN *nx = 0, *grp = 0; size_t hv = 0; };
struct UNT { typedef UN node; typedef UN *node_ptr; typedef const UN *const_node_ptr; static const bool store_hash = true, optimize_multikey = true;
   static node_ptr get_next(const_node_ptr n) { return n->nx; } static void set_next(node_ptr n, node_ptr x) { n->nx = x; }
   static node_ptr get_prev_in_group(const_node_ptr n) { return n->grp; } static void set_prev_in_group(node_ptr n, node_ptr x) { n->grp = x; }
   static size_t get_hash(const_node_ptr n) { return n->hv; } static void set_hash(node_ptr n, size_t h) { n->hv = h; } };
struct T19 : EB, UN { T19() {} T19(const T19 &o) : EB(o), UN() {} T19 &operator=(const T19 &o) { EB::operator=(o); return *this; } };
template <class C> struct User : C { template <class T> static bool linked(const T &e) { return e.nx != 0; } };
struct C19 : User<Cfg<T19, bi::value_traits<bi::derivation_value_traits<T19, UNT, bi::safe_link> >, true, true, bi::safe_link, Z, power_2_buckets<true>, incremental<true>, compare_hash<true> > > {};
struct T20; struct T20T { typedef T20 node; typedef T20 *node_ptr; typedef const T20 *const_node_ptr; static node_ptr get_next(const_node_ptr n); static void set_next(node_ptr n, node_ptr x); };   // (says nothing about hashes and groups)
struct T20 : EB { T20 *nx; T20() : nx(0) {} T20(const T20 &o) : EB(o), nx(0) {} T20 &operator=(const T20 &o) { EB::operator=(o); return *this; } };
inline T20 *T20T::get_next(const T20 *n) { return n->nx; } inline void T20T::set_next(T20 *n, T20 *x) { n->nx = x; }
struct C20 : User<Cfg<T20, bi::value_traits<bi::trivial_value_traits<T20T, bi::safe_link> >, false, false, bi::safe_link, Z, cache_begin<true> > > {};
// nodes in an array beside the elements; the traits carry the array
struct T21; struct GN { GN *nx = 0, *grp = 0; };
struct GNT { typedef GN node; typedef GN *node_ptr; typedef const GN *const_node_ptr; static const bool optimize_multikey = true;
   static node_ptr get_next(const_node_ptr n) { return n->nx; } static void set_next(node_ptr n, node_ptr x) { n->nx = x; }
   static node_ptr get_prev_in_group(const_node_ptr n) { return n->grp; } static void set_prev_in_group(node_ptr n, node_ptr x) { n->grp = x; } };
struct Slots { std::vector<GN> n; std::vector<T21 *> owner; std::vector<unsigned> freed; unsigned used = 0; Slots() : n(65536), owner(65536) {} };
inline Slots &slots() { static Slots s; return s; }
struct T21 : EB { GN *slot; T21() { get(); } T21(const T21 &o) : EB(o) { get(); } T21 &operator=(const T21 &o) { EB::operator=(o); return *this; }
   void get() { Slots &s = slots(); unsigned k; if (s.freed.empty()) { k = s.used++; if (k >= s.n.size()) { fprintf(stderr, "slots\n"); _exit(2); } } else { k = s.freed.back(); s.freed.pop_back(); } slot = &s.n[k]; *slot = GN(); s.owner[k] = this; }
   ~T21() { slots().freed.push_back(unsigned(slot - slots().n.data())); } };
struct SVT {
   typedef GNT node_traits; typedef GN node; typedef GN *node_ptr; typedef const GN *const_node_ptr;
   typedef T21 value_type; typedef T21 *pointer; typedef const T21 *const_pointer; typedef T21 &reference; typedef const T21 &const_reference;
   static const bi::link_mode_type link_mode = bi::safe_link; Slots *s; explicit SVT(Slots *p) : s(p) {}
   node_ptr to_node_ptr(reference v) const { return v.slot; } const_node_ptr to_node_ptr(const_reference v) const { return v.slot; } pointer to_value_ptr(const_node_ptr n) const { return s->owner[size_t(n - s->n.data())]; } };
struct C21 : Cfg<T21, bi::value_traits<SVT>, true, false, bi::safe_link, Z, cache_begin<true> > { static const bool stateless = false; static SVT vt() { return SVT(&slots()); } static bool linked(const T21 &e) { return e.slot->nx != 0; } };
typedef bi::unordered_set_member_hook<optimize_multikey<true>, store_hash<true> > H22;
struct T22 : EB { long pad = 1; H22 h; H22 &hook() { return h; } const H22 &hook() const { return h; } };
struct FH { typedef H22 hook_type; typedef hook_type *hook_ptr; typedef const hook_type *const_hook_ptr; typedef T22 value_type; typedef value_type *pointer; typedef const value_type *const_pointer;
   static hook_ptr to_hook_ptr(value_type &v) { return &v.h; } static const_hook_ptr to_hook_ptr(const value_type &v) { return &v.h; }
   static pointer to_value_ptr(hook_ptr n) { return bi::get_parent_from_member<T22>(n, &T22::h); } static const_pointer to_value_ptr(const_hook_ptr n) { return bi::get_parent_from_member<T22>(n, &T22::h); } };
struct C22 : Cfg<T22, bi::function_hook<FH>, false, false, bi::safe_link, unsigned short, linear_buckets<true>, compare_hash<true>, cache_begin<true> > {};
// a user's bucket traits: the description of the array is shared by the copies; one that was moved from has no buckets
// (the containers depend on that: a table that was moved from is still destroyed)
template <class P> class SharedBT { struct R { P p; size_t n; }; std::shared_ptr<const R> r;
 public:
   SharedBT(P p, size_t n) : r(new R{p, n}) {} SharedBT(const SharedBT &o) : r(o.r) {} SharedBT &operator=(const SharedBT &o) { r = o.r; return *this; }
   SharedBT(SharedBT &&o) : r(std::move(o.r)) {} SharedBT &operator=(SharedBT &&o) { r = std::move(o.r); return *this; }
   P bucket_begin() const { return r ? r->p : P(); } size_t bucket_count() const { return r ? r->n : 0; } };
template <class HO> using OwnBT = bi::bucket_traits<SharedBT<typename bi::unordered_bucket_ptr<HO>::type> >;
typedef BH<optimize_multikey<true> > H23; typedef ElemB<H23> T23; struct C23 : Cfg<T23, bi::base_hook<H23>, true, false, bi::safe_link, Z, OwnBT<bi::base_hook<H23> >, cache_begin<true> > {};
typedef MH<store_hash<true>, void_pointer<fptr<void> > > H24; typedef ElemM<H24> T24; struct C24 : Cfg<T24, bi::member_hook<T24, H24, &T24::h>, false, true, bi::safe_link, Z, OwnBT<bi::member_hook<T24, H24, &T24::h> >, power_2_buckets<true>, incremental<true> > {};

static void profile(const std::string &pr, Profile &p) {
   p.put({{INSERT, 50}, {INSERT_R, 6}, {CHECK_COMMIT, 8}, {COMMIT_LATE, 2}, {ERASE1, 14}, {ERASE_R, 8}, {ERASE_K, 8}, {CLEAR, 1}, {LOOKUP, 20}, {SWAP, 3}, {MOVE_CTOR, 2}, {MOVE_ASSIGN, 2}, {CLONE, 3}, {REHASH_NEW, 5}, {REHASH_GROW, 4}, {REHASH_SHRINK, 4}, {FULL_REHASH, 4},
      {INC, 10}, {INC_NEW, 6}, {GROWTH, 5}, {CMP, 2}, {EQ_MAKE, 1}, {SAVE_ITER, 5}, {CONV, 2}, {HOOK_UNLINK, 5}, {DTOR_UNLINK, 4}, {HOOK_COPY, 2}, {HOOK_SWAP, 4}, {RECREATE, 2}, {BULK, 4}, {DISP_MOVE, 2}, {MIXED, 10}});
   unsigned base = O_SEQ;
   if (pr == "C05") { p.mask = base | O_SIZE | O_SHAPE; p.boost({LOOKUP}, 2); p.focus.clear(); }
   else if (pr == "C06") { p.mask = base | O_SIZE | O_SHAPE; p.boost({REHASH_NEW, REHASH_GROW, REHASH_SHRINK, FULL_REHASH, INC, INC_NEW, GROWTH, COMMIT_LATE}, 4); }
   else if (pr == "C07") { p.put({{T_INSERT, 5}, {T_INSERT_R, 3}, {T_ERASE, 4}, {T_REHASH, 4}, {T_FULL, 3}, {T_INC, 5}, {T_CLONE, 4}}); p.mask = base | O_HOOK; p.boost({ERASE1, ERASE_R, ERASE_K, CLEAR, HOOK_COPY, HOOK_SWAP, RECREATE}, 3); }
   else if (pr == "C08") { p.mask = base | O_HOOK | O_SIZE | O_SHAPE; p.only_cfg_name = "auto"; p.boost({HOOK_UNLINK, DTOR_UNLINK}, 6); p.must({HOOK_UNLINK, DTOR_UNLINK}); }
   else if (pr == "C09") { p.mask = base | O_DISP; p.boost({ERASE1, ERASE_R, ERASE_K, CLEAR, DISP_MOVE, CLONE}, 3); }
   else if (pr == "C10") { p.mask = base | O_CLONE | O_SIZE | O_SHAPE; p.boost({CLONE}, 10); p.must({CLONE}); }
   else if (pr == "C11") { p.put({{T_CLONE, 24}}); p.mask = base | O_CLONE | O_EXC | O_DISP | O_HOOK | O_SIZE | O_SHAPE; p.focus = {T_CLONE}; p.must({T_CLONE}); }
   else if (pr == "C12") { p.put({{T_INSERT, 12}, {T_INSERT_R, 6}, {T_LOOKUP, 10}, {T_ERASE, 8}, {T_REHASH, 8}, {T_FULL, 6}, {T_INC, 10}, {T_CHECK, 4}, {T_CTOR, 5}}); p.mask = base | O_EXC | O_SIZE | O_SHAPE | O_HOOK; p.focus = {T_INSERT, T_INSERT_R, T_LOOKUP, T_ERASE, T_REHASH, T_FULL, T_INC, T_CTOR, T_CHECK}; p.must({T_INSERT, T_REHASH, T_INC, T_FULL}); }
   else if (pr == "C13") { p.put({{T_INSERT, 5}, {T_INSERT_R, 3}, {T_ERASE, 4}, {T_REHASH, 4}, {T_FULL, 3}, {T_INC, 5}, {T_CLONE, 4}}); p.mask = base | O_SIZE; }
   else if (pr == "C14") { p.mask = base | O_SIZE | O_SHAPE; p.boost({SWAP, MOVE_CTOR, MOVE_ASSIGN, INC, INC_NEW}, 6); }
   else if (pr == "C16") { p.mask = base | O_ITER; p.boost({SAVE_ITER, CONV}, 5); p.must({SAVE_ITER}); }
   else if (pr == "C19") { p.mask = base | O_SHAPE; p.boost({CHECK_COMMIT, COMMIT_LATE}, 6); }
   else if (pr == "C20") { p.mask = base | O_CMP; p.boost({CMP, EQ_MAKE}, 10); p.must({CMP, EQ_MAKE}); p.focus = {CMP}; }
   else if (pr == "C22") { p.mask = base | O_SHAPE; p.boost({LOOKUP, REHASH_NEW, INC, INC_NEW, GROWTH}, 3); p.focus.clear(); }
}

int main(int argc, char **argv) {
   Reg<0>::add<C0>("hash base safe cts");
   Reg<1>::add<C1>("hash base safe stored multikey power2 compare cache");
   Reg<2>::add<C2>("hash member safe multikey key-of-value");
   Reg<3>::add<C3>("hash base auto stored power2");
   Reg<4>::add<C4>("hash member auto multikey");
   Reg<5>::add<C5>("hash base safe stored incremental cache cts");
   Reg<6>::add<C6>("hash member safe multikey incremental");
   Reg<7>::add<C7>("hash base safe stored linear compare cts");
   Reg<8>::add<C8>("hash member safe multikey linear incremental cache key-of-value");
   Reg<9>::add<C9>("hash base safe stored multikey fastmod cache cts");
   Reg<10>::add<C10>("hash member safe fastmod linear key-of-value");
   Reg<11>::add<C11>("hash member selfrel-ptr safe cts");
   Reg<12>::add<C12>("hash member selfrel-ptr stored multikey linear incremental cts");
   Reg<13>::add<C13>("hash base normal power2 cts key-of-value");
   Reg<14>::add<C14>("hash any hook cache cts");
   Reg<15>::add<C15>("hash base normal stored multikey u16");
   Reg<16>::add<C16>("hash member safe multikey linear power2 cache cts");
   Reg<17>::add<C17>("hashtable class member safe cache cts key-of-value");
   Reg<18>::add<C18>("hashtable class base safe stored multikey incremental cts");
   Reg<19>::add<C19>("hash derivation traits safe stored multikey incremental compare cts key-of-value");
   Reg<20>::add<C20>("hash trivial traits safe cache");
   Reg<21>::add<C21>("hash stateful traits safe multikey cache cts");
   Reg<22>::add<C22>("hash function hook safe stored multikey linear compare cache u16");
   Reg<23>::add<C23>("hash own bucket traits multikey cache cts");
   Reg<24>::add<C24>("hash own bucket traits selfrel-ptr stored incremental key-of-value");
   engine() = {"hash", profile};
   return harness_main(argc, argv);
}
