// Bucket arithmetic, suggested bucket counts, the default hash function, pointer packing, compact tree nodes, pointer traits.
#include "elem.hpp"
#include <memory>
#include <limits>
#include <cmath>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/pointer_rebind.hpp>
using namespace vf;

template <int P> struct Reg { template <class C> static void add(const char *n) { if (VF_PART == P || VF_PART < 0) configs().push_back(Config{n, &C::run}); } };
#define PART(n) (VF_PART == n || VF_PART < 0)

// hash values near everything that matters
static uint64_t genhash(const Op &o, uint64_t n) {
   uint64_t r = (uint64_t(o.a[0]) << 40) ^ (uint64_t(o.a[1]) << 20) ^ o.a[2] ^ (uint64_t(o.a[1]) << 56);
   if (!n) n = 1;
   uint64_t d = o.a[3] % 7;
   switch (o.a[4] % 12) {
   case 0: return o.a[0] % 64;
   case 1: return r;
   case 2: return (r / n) * n + d - 3;
   case 3: return (uint64_t(1) << (o.a[0] % 64)) + d - 3;
   case 4: return ~uint64_t(0) - o.a[0] % 64;
   case 5: return (uint64_t(o.a[0] % 5000) << 32) + (0xFFFFFFFFull - o.a[1] % 5000) + (o.a[2] & 1);
   case 6: return uint64_t(o.a[0]) << 32;
   case 7: return o.a[0] % (4 * n + 1);
   case 8: return r & 0xFFFFFFFFull;
   case 9: return ((r & 0xFFFFFFFFull) / n) * n + d - 3;
   case 10: return (uint64_t(o.a[0] % 8) << 32) * n + d;
   default: return ~((r >> (o.a[3] % 64)));
   }
}

#if PART(0) || PART(1)
template <class T> struct HE0 : T { uint64_t h = 0; bool in = false; };
enum { Mod, Pow2, Fast, Incr };
enum { B_INSERT = 1, B_PROBE, B_SPLIT, B_ERASE, B_REHASH, B_SPREAD };
struct HF { std::size_t operator()(uint64_t h) const { return std::size_t(h); } };
template <class E> struct HKv { typedef uint64_t type; const uint64_t &operator()(const E &e) const { return e.h; } };
template <class Hook, int Pol, class SizeT, class... O> struct Buckets {
   typedef HE0<Hook> E;
   typedef bi::unordered_multiset<E, bi::base_hook<Hook>, bi::hash<HF>, bi::key_of_value<HKv<E> >, bi::size_type<SizeT>, bi::power_2_buckets<Pol == Pow2 || Pol == Incr>, bi::fastmod_buckets<Pol == Fast>, bi::incremental<Pol == Incr>, O...> S;
   typedef typename S::bucket_type B; typedef typename S::bucket_traits BT;
   static std::vector<size_t> &admissible() {
      static std::vector<size_t> v;
      if (v.empty()) {
         size_t lim = std::min<size_t>(size_t(std::numeric_limits<SizeT>::max()), 800000);
         if (Pol == Fast) { size_t n = S::suggested_lower_bucket_count(1); for (;;) { if (n > lim) break; v.push_back(n); size_t u = S::suggested_upper_bucket_count(SizeT(n)); if (u <= n) break; n = u; } }
         else for (size_t n = (Pol == Incr ? 2 : 1); n <= lim; n *= 2) v.push_back(n);
         if (v.empty()) fail("no admissible bucket count at all");
      }
      return v;
   }
   static size_t pick(uint32_t a, uint32_t b) {
      std::vector<size_t> &v = admissible();
      size_t lim = std::min<size_t>(size_t(std::numeric_limits<SizeT>::max()), 70000);
      if (Pol == Mod) switch (a % 4) { case 0: return 1 + b % 40; case 1: return std::min<size_t>(lim, 1 + b % 2000); case 2: return std::min(lim, size_t(1) + (v[b % v.size()])); default: return std::min(lim, size_t(b) % lim + 1); }
      size_t k = v.size();
      while (k > 1 && v[k - 1] > 70000 && (a & 255)) --k;       // the big ones rarely
      return v[b % ((a >> 8) % 3 == 0 ? k : std::min<size_t>(k, 9))];
   }
   static uint64_t ref(uint64_t h, size_t n, size_t split) {
      switch (Pol) {
      case Fast: return uint64_t(uint32_t(h) + uint32_t(h >> 32)) % n;
      case Pow2: return h & (n - 1);
      case Incr: { uint64_t b = h & (n - 1); return b >= split ? b - n / 2 : b; }
      default: return h % n;
      }
   }
   static void probe(const S &s, uint64_t h, size_t n) {
      uint64_t b = s.bucket(h), b2 = s.bucket(h, HF());
      if (b >= n) fail("bucket %llu of hash %llx is outside the %zu buckets", (unsigned long long)b, (unsigned long long)h, n);
      VF_CHECK(b == b2, "bucket(key) %llu, bucket(key, hasher) %llu for hash %llx", (unsigned long long)b, (unsigned long long)b2, (unsigned long long)h);
      size_t split = 0;
      if constexpr (Pol == Incr) { split = s.split_count(); VF_CHECK(b < split, "hash %llx addresses bucket %llu, active are %zu", (unsigned long long)h, (unsigned long long)b, split); }
      uint64_t r = ref(h, n, split);
      VF_CHECK(b == r, "hash %llx goes to bucket %llu of %zu (split %zu), the modulus is %llu", (unsigned long long)h, (unsigned long long)b, n, split, (unsigned long long)r);
   }
   static void verify(const S &s, const std::vector<E *> &in, size_t n) {
      std::unordered_map<size_t, size_t> cnt;
      for (E *e : in) {
         probe(s, e->h, n);
         size_t b = s.bucket(e->h); ++cnt[b];
         bool f = false; size_t lim = in.size() + 1;
         for (auto i = s.cbegin(SizeT(b)), z = s.cend(SizeT(b)); i != z && lim--; ++i) f |= &*i == e;
         VF_CHECK(f, "an element with hash %llx is not in bucket %zu of %zu, where its hash says", (unsigned long long)e->h, b, n);
         VF_CHECK(s.find(e->h) != s.end(), "an element with hash %llx is not found", (unsigned long long)e->h);
      }
      for (auto &x : cnt) VF_CHECK(s.bucket_size(SizeT(x.first)) == x.second, "bucket %zu has %zu elements, %zu belong there", x.first, size_t(s.bucket_size(SizeT(x.first))), x.second);
   }
   static void run(const Case &c) {
      size_t n = pick(c.cfg[1], c.cfg[2]);
      std::unique_ptr<B[]> arr(new B[n + S::bucket_overhead]), arr2;
      S s(BT(arr.get(), n + S::bucket_overhead));
      VF_CHECK(s.bucket_count() == n, "bucket_count() %zu, constructed with %zu", size_t(s.bucket_count()), n);
      std::vector<std::unique_ptr<E> > own; std::vector<E *> in;
      size_t cap = std::min<size_t>(120, size_t(std::numeric_limits<SizeT>::max()) - 1);
      g().maxsize = 2;
      tr("%zu buckets\n", n);
      int k = -1;
      for (const Op &o : c.ops) {
         g().opi = ++k;
         switch (o.k) {
         case B_INSERT: {
            if (in.size() >= cap) break;
            own.emplace_back(new E); E *e = own.back().get(); e->h = genhash(o, n);
            s.insert(*e); in.push_back(e); tr("insert hash %llx\n", (unsigned long long)e->h); hit(o.k, e->h, n); probe(s, e->h, n); break;
         }
         case B_PROBE: { uint64_t h = genhash(o, n); probe(s, h, n); for (int i = 0; i < 8; ++i) probe(s, h + o.a[0] * uint64_t(i) * 0x100000001ull, n); tr("probe hash %llx\n", (unsigned long long)h); hit(o.k, h, n); break; }
         case B_SPLIT: if constexpr (Pol == Incr) {
            size_t times = 1 + o.a[0] % 20;
            for (size_t i = 0; i < times; ++i) { size_t sp = s.split_count(); bool gr = (o.a[1] & 3) != 0; bool r = s.incremental_rehash(gr);
               VF_CHECK(r == (gr ? sp < n : sp > n / 2), "incremental_rehash(%d) with %zu of %zu active returned %d", gr, sp, n, r);
               VF_CHECK(s.split_count() == (r ? (gr ? sp + 1 : sp - 1) : sp), "split_count() after incremental_rehash"); }
            tr("split -> %zu\n", size_t(s.split_count())); hit(o.k, s.split_count(), n);
            verify(s, in, n);
         } break;
         case B_ERASE: if (!in.empty()) { size_t i = o.a[0] % in.size(); s.erase(s.iterator_to(*in[i])); in.erase(in.begin() + long(i)); hit(o.k, i, n); } break;
         case B_REHASH: {
            size_t m = pick(o.a[0], o.a[1]); if (m > 70000) break;
            arr2.reset(new B[m + S::bucket_overhead]);
            s.rehash(BT(arr2.get(), m + S::bucket_overhead)); arr.swap(arr2); arr2.reset(); n = m;
            VF_CHECK(s.bucket_count() == n, "bucket_count() after rehash"); tr("rehash to %zu\n", n); hit(o.k, n, in.size());
            verify(s, in, n); break;
         }
         case B_SPREAD: {   // consecutive small hashes reach every active bucket
            if (n > 5000) break;
            size_t act = n; if constexpr (Pol == Incr) act = s.split_count();
            std::vector<bool> seen(n); size_t got = 0; uint64_t base = (o.a[0] % 3 == 0) ? 0 : (o.a[0] % 1000) * n;
            for (size_t i = 0; i < n; ++i) { size_t b = s.bucket(base + i); VF_CHECK(b < n, "bucket out of range"); if (!seen[b]) { seen[b] = true; ++got; } }
            VF_CHECK(got == act, "%zu consecutive hash values reach %zu of %zu active buckets", n, got, act); hit(o.k, base, n); break;
         }
         }
      }
      g().opi = -2;
      verify(s, in, n);
      s.clear();
   }
};
#endif

#if PART(2)
// fall-backs for internal names: found only when boost::intrusive has no such member any more
struct prime_fmod_size {};
inline int floor_log2(...) { return 0; } inline int ceil_log2(...) { return 0; } inline int ceil_pow2(...) { return 0; } inline int previous_or_equal_pow2(...) { return 0; }
namespace boost { namespace intrusive { namespace detail {
   typedef prime_fmod_size vf_fmod;
   inline auto vf_fl(std::size_t x) { return floor_log2(x); }
   inline auto vf_cl(std::size_t x) { return ceil_log2(x); }
   inline auto vf_cp(std::size_t x) { return ceil_pow2(x); }
   inline auto vf_pp(std::size_t x) { return previous_or_equal_pow2(x); }
} } }
template <class P> auto pos_of(std::size_t h, std::size_t i, int) -> decltype(std::size_t(P::position(h, i)) + P::size(i)) { return P::position(h, i); }
template <class P> std::size_t pos_of(std::size_t, std::size_t, long) { return ~std::size_t(0); }
template <class P> auto size_of_index(std::size_t i, int) -> decltype(std::size_t(P::size(i))) { return P::size(i); }
template <class P> std::size_t size_of_index(std::size_t, long) { return 0; }

enum { N_COUNT = 1, N_POS, N_LOG, N_CTOR };
typedef bi::unordered_set_base_hook<> CH;
struct CE : CH { int v = 0; };
inline std::size_t hash_value(const CE &) { return 0; }
inline bool operator==(const CE &, const CE &) { return true; }
template <class SizeT, bool Fast> struct Counts {
   typedef bi::unordered_set<CE, bi::base_hook<CH>, bi::size_type<SizeT>, bi::fastmod_buckets<Fast> > S;
   static void run(const Case &c) {
      g().maxsize = 2; int k = -1;
      const SizeT mx = std::numeric_limits<SizeT>::max();
      const SizeT top = S::suggested_upper_bucket_count(mx);     // "if such value does not exist, the highest possible value"
      for (const Op &o : c.ops) {
         g().opi = ++k;
         uint64_t hv = genhash(o, sizeof(SizeT) == 1 ? 11 : 53);
         SizeT n = SizeT(hv >> (o.a[2] % (sizeof(SizeT) * 8)));
         if (o.a[4] % 5 == 0) n = SizeT(S::suggested_upper_bucket_count(SizeT(n >> 1)) + SizeT(o.a[3] % 3) - 1);
         switch (o.k) {
         case N_COUNT: {
            const uint64_t u = S::suggested_upper_bucket_count(n), l = S::suggested_lower_bucket_count(n);
            tr("suggested for %llu: %llu %llu\n", (unsigned long long)n, (unsigned long long)l, (unsigned long long)u);
            VF_CHECK(u >= n || u == top, "suggested_upper_bucket_count(%llu) = %llu, %llu is possible", (unsigned long long)n, (unsigned long long)u, (unsigned long long)top);
            VF_CHECK(l >= n || l == top, "suggested_lower_bucket_count(%llu) = %llu, %llu is possible", (unsigned long long)n, (unsigned long long)l, (unsigned long long)top);
            VF_CHECK(l <= u, "suggested_lower_bucket_count(%llu) = %llu is above suggested_upper_bucket_count = %llu", (unsigned long long)n, (unsigned long long)l, (unsigned long long)u);
            VF_CHECK(S::suggested_lower_bucket_count(SizeT(u)) == u && S::suggested_lower_bucket_count(SizeT(l)) == l, "the count suggested for %llu is not itself a suggested count", (unsigned long long)n);
            VF_CHECK(l == n || l == u || u == top, "a suggested count (%llu) lies between %llu and its upper suggestion %llu", (unsigned long long)l, (unsigned long long)n, (unsigned long long)u);
            if (u > n) {   // nothing suggested between n and u
               uint64_t m = n + hv % (u - n); uint64_t um = S::suggested_upper_bucket_count(SizeT(m)), lm = S::suggested_lower_bucket_count(SizeT(m));
               VF_CHECK(um == u, "suggested_upper_bucket_count(%llu) = %llu but %llu for the smaller %llu", (unsigned long long)m, (unsigned long long)um, (unsigned long long)u, (unsigned long long)n);
               VF_CHECK(m == n || lm == u, "suggested_lower_bucket_count(%llu) = %llu, expected %llu", (unsigned long long)m, (unsigned long long)lm, (unsigned long long)u);
            }
            else VF_CHECK(u == top, "suggested_upper_bucket_count(%llu) = %llu is not above it", (unsigned long long)n, (unsigned long long)u);
            SizeT n2 = SizeT(genhash(o, 97) * 31);
            SizeT a = std::min(n, n2), b = std::max(n, n2);
            VF_CHECK(S::suggested_upper_bucket_count(a) <= S::suggested_upper_bucket_count(b) && S::suggested_lower_bucket_count(a) <= S::suggested_lower_bucket_count(b), "suggested counts are not monotone between %llu and %llu", (unsigned long long)a, (unsigned long long)b);
            hit(o.k, n, u); break;
         }
         case N_CTOR: {   // the suggestion is admissible: a container can be built with it
            SizeT q = SizeT(n % 6000); std::size_t u = (o.a[1] & 1) ? S::suggested_upper_bucket_count(q) : S::suggested_lower_bucket_count(q);
            if (u > 20000) break;
            std::unique_ptr<typename S::bucket_type[]> arr(new typename S::bucket_type[u]);
            S s(typename S::bucket_traits(arr.get(), u)); CE e; s.insert(e);
            VF_CHECK(s.bucket_count() == u && s.bucket_size(SizeT(s.bucket(e))) == 1 && s.size() == 1, "a container with the %zu suggested buckets is wrong", u);
            s.clear(); hit(o.k, q, u); break;
         }
         case N_POS: {
            typedef bi::detail::vf_fmod P;
            std::size_t i = o.a[1] % 64, d = size_of_index<P>(i, 0); if (!d) break;
            uint64_t h = genhash(o, d); std::size_t r = pos_of<P>(h, i, 0); if (r == ~std::size_t(0)) break;
            uint64_t want = d <= 0xFFFFFFFFull ? uint64_t(uint32_t(h) + uint32_t(h >> 32)) % d : h % d;
            tr("hash %llx modulo %zu\n", (unsigned long long)h, d);
            VF_CHECK(r == want, "fast modulus of hash %llx by %zu is %zu, not %llu", (unsigned long long)h, d, r, (unsigned long long)want);
            hit(o.k, i, h); break;
         }
         case N_LOG: {
            uint64_t x = hv >> (o.a[3] % 64); if (!x) x = 1;
            int lg = 63 - __builtin_clzll(x); bool p2 = (x & (x - 1)) == 0;
            std::size_t a = bi::detail::vf_fl(x), b = bi::detail::vf_cl(x), p = bi::detail::vf_pp(x);
            if (!std::is_same<decltype(bi::detail::vf_fl(x)), int>::value) VF_CHECK(a == std::size_t(lg), "floor_log2(%llu) = %zu", (unsigned long long)x, a);
            if (!std::is_same<decltype(bi::detail::vf_cl(x)), int>::value) VF_CHECK(b == std::size_t(lg + !p2), "ceil_log2(%llu) = %zu", (unsigned long long)x, b);
            if (!std::is_same<decltype(bi::detail::vf_pp(x)), int>::value) VF_CHECK(p == std::size_t(1) << lg, "previous_or_equal_pow2(%llu) = %zu", (unsigned long long)x, p);
            if (!std::is_same<decltype(bi::detail::vf_cp(x)), int>::value && (p2 || lg < 63)) VF_CHECK(std::size_t(bi::detail::vf_cp(x)) == std::size_t(1) << (lg + !p2), "ceil_pow2(%llu)", (unsigned long long)x);
            hit(o.k, x); break;
         }
         }
      }
   }
};

// the default hash and equality functions: equal values are found, whatever their representation
enum { D_INSERT = 1, D_FIND };
struct Adl { int a, b; friend bool operator==(const Adl &x, const Adl &y) { return x.a == y.a && x.b == y.b; } friend std::size_t hash_value(const Adl &x) { return std::size_t(x.a * 31 + x.b); } };
struct Own { long a; friend bool operator==(const Own &x, const Own &y) { return x.a == y.a; } };

namespace boost { template <class T> struct hash; template <> struct hash<Own> { std::size_t operator()(const Own &o) const { return std::size_t(o.a) * 7; } }; }
template <class T> struct GenV { static T make(const Op &o) { return T(genhash(o, 53)); } };
template <> struct GenV<bool> { static bool make(const Op &o) { return o.a[0] & 1; } };
template <class F> F genf(const Op &o) {
   switch (o.a[0] % 8) { case 0: return F(0); case 1: return -F(0); case 2: return F(int(o.a[1]) % 100 - 50); case 3: return std::numeric_limits<F>::infinity(); case 4: return std::numeric_limits<F>::denorm_min() * F(int(o.a[1] % 5) - 2);
   case 5: return F(0.5) * F(o.a[1] % 9); case 6: return F(o.a[1]) * F(o.a[2]); default: return -F(o.a[1] % 20) / F(3); }
}
template <> struct GenV<float> { static float make(const Op &o) { return genf<float>(o); } };
template <> struct GenV<double> { static double make(const Op &o) { return genf<double>(o); } };
template <> struct GenV<long double> { static long double make(const Op &o) { return genf<long double>(o); } };
template <> struct GenV<Adl> { static Adl make(const Op &o) { return Adl{int(o.a[0] % 5), int(o.a[1] % 5)}; } };
template <> struct GenV<Own> { static Own make(const Op &o) { return Own{long(genhash(o, 17))}; } };
template <class V> struct HV : bi::unordered_set_base_hook<> { V v; HV() : v() {} };
template <class V> struct HKey { typedef V type; const V &operator()(const HV<V> &e) const { return e.v; } };
template <class V> bool same(const V &a, const V &b) { return a == b; }
template <class V> struct DefHash {
   typedef bi::unordered_set<HV<V>, bi::key_of_value<HKey<V> > > S;
   typedef bi::unordered_multiset<HV<V>, bi::key_of_value<HKey<V> >, bi::power_2_buckets<true> > M;
   static void run(const Case &c) {
      std::size_t n = 1 + c.cfg[1] % 60, n2 = std::size_t(1) << c.cfg[2] % 7;
      typename S::bucket_type b[60]; typename M::bucket_type b2[64];
      S s(typename S::bucket_traits(b, n)); M m(typename M::bucket_traits(b2, n2));
      std::vector<std::unique_ptr<HV<V> > > own; std::vector<V> in, inm; int k = -1; g().maxsize = 2;
      for (const Op &o : c.ops) {
         g().opi = ++k;
         Op o2 = o; if (o.a[4] & 1) o2.a[4] = 0;
         // the padding of the object differs from one value to the next
         HV<V> *e; own.emplace_back(); { void *p = operator new(sizeof(HV<V>)); memset(p, int(o.a[3] & 0xff), sizeof(HV<V>)); e = new (p) HV<V>; }
         own.back().reset(e);
         V x = GenV<V>::make(o2);
         if (std::is_same<V, long double>::value) { memset((void *)&e->v, int(o.a[3] & 0xff), sizeof(V)); }
         if constexpr (std::is_same<V, long double>::value) { char t[sizeof(V)]; memset(t, int(o.a[3] & 0xff), sizeof t); long double y = x; memcpy(t, &y, 10); memcpy((void *)&e->v, t, sizeof(V)); }
         else e->v = x;
         std::size_t cnt = 0, cm = 0; for (V y : in) cnt += same(x, y); for (V y : inm) cm += same(x, y);
         VF_CHECK(s.count(e->v) == cnt && (s.find(e->v) != s.end()) == (cnt != 0), "a value equal to a contained one is not found with the default hash");
         VF_CHECK(m.count(e->v) == cm, "count() of a value with the default hash: %zu, %zu equal values inside", std::size_t(m.count(e->v)), cm);
         VF_CHECK(s.bucket(e->v) < n && m.bucket(e->v) < n2, "bucket out of range");
         if (o.k == D_INSERT && in.size() < 60) {
            if (o.a[1] & 1) { bool r = s.insert(*e).second; VF_CHECK(r == !cnt, "insert() returned %d with %zu equal elements inside", r, cnt); if (r) in.push_back(x); }
            else { m.insert(*e); inm.push_back(x); }
            hit(o.k, own.size(), cnt);
         }
         else hit(D_FIND, cnt, cm);
      }
      VF_CHECK(s.size() == in.size() && m.size() == inm.size(), "sizes");
      s.clear(); m.clear();
   }
};
#endif

#if PART(3)
// pointer_plus_bits against a pair (pointer, bits)
enum { P_PTR = 1, P_BITS, P_COPY };
template <std::size_t N> struct alignas(std::size_t(1) << N) Al { char c[std::size_t(1) << N]; };
template <class T, std::size_t N> struct Pack {
   typedef bi::pointer_plus_bits<T *, N> PB;
   static void run(const Case &c) {
      static_assert(bi::max_pointer_plus_bits<void *, (std::size_t(1) << N)>::value == N, "");
      struct { T *raw; std::uintptr_t p; std::size_t b; } v[3];
      for (auto &x : v) { x.raw = 0; x.p = 0; x.b = 0; }
      const std::uintptr_t mask = (std::uintptr_t(1) << N) - 1; int k = -1; g().maxsize = 2;
      for (const Op &o : c.ops) {
         g().opi = ++k;
         auto &x = v[o.a[2] % 3];
         switch (o.k) {
         case P_PTR: { std::uintptr_t a = genhash(o, 4096) & ~mask; if (o.a[3] % 8 == 0) a = 0; PB::set_pointer(x.raw, (T *)a); x.p = a; tr("set_pointer %lx\n", (unsigned long)a); hit(o.k, a); break; }
         case P_BITS: { std::size_t b = o.a[0] & mask; if (o.a[3] % 6 == 0) b = (o.a[0] & 1) ? mask : 0; PB::set_bits(x.raw, b); x.b = b; tr("set_bits %zu\n", b); hit(o.k, b, x.p); break; }
         case P_COPY: { auto &y = v[o.a[3] % 3]; x = y; hit(o.k, x.p, x.b); break; }
         }
         for (auto &y : v) {
            VF_CHECK((std::uintptr_t)PB::get_pointer(y.raw) == y.p, "stored pointer %lx (bits %zu of %zu), read %lx", (unsigned long)y.p, y.b, N, (unsigned long)(std::uintptr_t)PB::get_pointer(y.raw));
            VF_CHECK(PB::get_bits(y.raw) == y.b, "stored bits %zu (pointer %lx, %zu bits), read %zu", y.b, (unsigned long)y.p, N, std::size_t(PB::get_bits(y.raw)));
         }
      }
   }
};
// bits of pointers into objects of weaker alignment: max_pointer_plus_bits says how many
template <std::size_t A> struct MaxBits { static void run(const Case &c) {
   const std::size_t m = bi::max_pointer_plus_bits<void *, A>::value; g().maxsize = 2;
   std::size_t want = 0; while (!((A >> want) & 1)) ++want;
   VF_CHECK(m == want, "max_pointer_plus_bits for alignment %zu is %zu", A, m);
   VF_CHECK((bi::max_pointer_plus_bits<fptr<void>, A>::value == 0), "bits in a fancy pointer");
   for (const Op &o : c.ops) { hit(1, o.a[0], A); } } };
#endif

#if PART(4)
// compact and plain nodes: the same history gives the same tree
enum { T_INS = 1, T_ERA, T_SWAPN, T_REPL, T_CLONE, T_LEFT, T_MERGE, T_SWAP };
template <class H> struct TE : H { int key; unsigned id; TE() : key(0), id(0) {} bool operator<(const TE &o) const { return key < o.key; } };
template <class S> struct NodeTag;
template <template <class...> class SET, class HC, class HP, bool AVL> struct Compact {
   typedef TE<HC> EC; typedef TE<HP> EP;
   typedef SET<EC, bi::base_hook<HC> > SC; typedef SET<EP, bi::base_hook<HP> > SP;
   typedef typename SC::value_traits::node_traits TC; typedef typename SP::value_traits::node_traits TP;
   static int tag(const typename TC::const_node_ptr &n, typename TC::node *, std::true_type) { return int(TC::get_balance(n)); }
   template <class NT> static int tagof(typename NT::const_node_ptr n) { if constexpr (AVL) return int(NT::get_balance(n)); else return int(NT::get_color(n)); }
   struct Walk { SC &c; SP &p; std::size_t n = 0;
      void go(typename TC::const_node_ptr a, typename TP::const_node_ptr b, typename TC::const_node_ptr pa, typename TP::const_node_ptr pb) {
         VF_CHECK(!a == !b, "the trees with compact and plain nodes have different shapes");
         if (!a) return;
         const EC &x = *SC::value_traits::to_value_ptr(a); const EP &y = *SP::value_traits::to_value_ptr(b);
         VF_CHECK(x.id == y.id && x.key == y.key, "element %u with compact nodes, %u with plain nodes in the same place", x.id, y.id);
         VF_CHECK(tagof<TC>(a) == tagof<TP>(b), "element %u: balance information %d with compact nodes, %d with plain nodes", x.id, tagof<TC>(a), tagof<TP>(b));
         VF_CHECK(TC::get_parent(a) == pa && TP::get_parent(b) == pb, "element %u: wrong parent", x.id);
         ++n;
         go(TC::get_left(a), TP::get_left(b), a, b); go(TC::get_right(a), TP::get_right(b), a, b);
      } };
   static void run(const Case &c) {
      SC c0, c1; SP p0, p1; SC *cs[2] = {&c0, &c1}; SP *ps[2] = {&p0, &p1};
      struct Pair { EC *c; EP *p; int where; };
      std::vector<Pair> all; std::vector<void *> mem; int k = -1;
      uint32_t range = 1 + c.cfg[1] % 200;
      auto mk = [&](uint32_t r) { void *m = operator new(sizeof(EC) + 256); mem.push_back(m);   // all residues modulo the cache line that the alignment allows
         std::uintptr_t a = (std::uintptr_t(m) + alignof(EC) - 1) & ~std::uintptr_t(alignof(EC) - 1); return new ((void *)(a + alignof(EC) * (r % 16))) EC; };
      for (const Op &o : c.ops) {
         g().opi = ++k; int q = o.a[4] & 1; SC &C = *cs[q]; SP &P = *ps[q];
         std::vector<std::size_t> in; for (std::size_t i = 0; i < all.size(); ++i) if (all[i].where == q) in.push_back(i);
         switch (o.k) {
         case T_INS: {
            std::size_t idx = all.size(); if (idx > 400) break;
            Pair x; x.c = mk(o.a[2]); x.p = new EP; x.c->key = x.p->key = int(o.a[0] % range); x.c->id = x.p->id = unsigned(idx); { std::size_t z = C.size(), y = P.size(); C.insert(*x.c); P.insert(*x.p); VF_CHECK(C.size() - z == P.size() - y, "one insertion was refused"); x.where = C.size() > z ? q : -1; all.push_back(x); }
            tr("insert %d\n", x.c->key); hit(o.k, x.c->key, in.size()); break; }
         case T_ERA: if (!in.empty()) { Pair &x = all[in[o.a[0] % in.size()]]; C.erase(C.iterator_to(*x.c)); P.erase(P.iterator_to(*x.p)); x.where = -1; tr("erase %u\n", x.c->id); hit(o.k, in.size(), x.c->id); } break;
         case T_LEFT: if (!in.empty()) { const EC *a = &*C.begin(); const EP *b = &*P.begin(); VF_CHECK(a->id == b->id, "begin()"); all[a->id].where = -1; C.erase(C.begin()); P.erase(P.begin()); hit(o.k, in.size()); } break;
         case T_SWAPN: if (in.size() > 1) { Pair &x = all[in[o.a[0] % in.size()]], &y = all[in[o.a[1] % in.size()]];
            if (&x != &y) { x.c->swap_nodes(*y.c); x.p->swap_nodes(*y.p); std::swap(x.c->key, y.c->key); std::swap(x.p->key, y.p->key); tr("swap_nodes %u %u\n", x.c->id, y.c->id); hit(o.k, x.c->id, y.c->id); } } break;
         case T_REPL: if (!in.empty()) { std::size_t i = in[o.a[0] % in.size()]; std::size_t idx = all.size(); if (idx > 400) break; Pair y; y.c = mk(o.a[2]); y.p = new EP; y.c->key = y.p->key = all[i].c->key; y.c->id = y.p->id = unsigned(idx); y.where = q;
            C.replace_node(C.iterator_to(*all[i].c), *y.c); P.replace_node(P.iterator_to(*all[i].p), *y.p); all[i].where = -1; all.push_back(y); hit(o.k, i, in.size()); } break;
         case T_MERGE: { SC &D = *cs[!q]; SP &E = *ps[!q]; C.merge(D); P.merge(E); for (Pair &x : all) if (x.where == !q) x.where = -2; for (auto &e : C) all[e.id].where = q; for (auto &e : D) all[e.id].where = !q; hit(o.k, in.size(), C.size()); } break;
         case T_SWAP: { cs[0]->swap(*cs[1]); ps[0]->swap(*ps[1]); for (Pair &x : all) if (x.where >= 0) x.where = !x.where; hit(o.k, in.size()); } break;
         }
         std::size_t tot = 0;
         for (int i = 0; i < 2; ++i) {
            auto hc = cs[i]->end().pointed_node(); auto hp = ps[i]->end().pointed_node();
            Walk w{*cs[i], *ps[i]}; w.go(TC::get_parent(hc), TP::get_parent(hp), hc, hp); tot += w.n;
            VF_CHECK(w.n == cs[i]->size() && w.n == ps[i]->size(), "sizes %zu and %zu, %zu nodes", cs[i]->size(), ps[i]->size(), w.n);
            g().maxsize = std::max(g().maxsize, w.n);
         }
         std::size_t want = 0; for (Pair &x : all) want += x.where >= 0;
         VF_CHECK(tot == want, "%zu nodes in the trees, %zu expected", tot, want);
      }
      for (int i = 0; i < 2; ++i) { cs[i]->clear(); ps[i]->clear(); }
      for (Pair &x : all) { x.c->~EC(); delete x.p; }
      for (void *m : mem) operator delete(m);
   }
};
#endif

#if PART(5)
// pointer traits: every supplied cast and rebind refers to the same object
struct Ba { virtual ~Ba() {} int x = 1; };
struct Ot { virtual ~Ot() {} long y[3] = {2, 2, 2}; };
struct De : Ot, Ba { int z = 3; };
struct Amp { int v; Amp *operator&() { return 0; } const Amp *operator&() const { return 0; } };   // the address operator lies
inline long &own_calls() { static long n; return n; }
// no pointer_to, no rebind, no casts
template <class T> struct Plain { T *p; typedef T element_type; Plain() : p(0) {} explicit Plain(T *q) : p(q) {} T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p != 0; } };
template <> struct Plain<void> { void *p; typedef void element_type; };
// one level of indirection more, a second parameter, its own casts
template <class T, class Tag> struct Rich {
   T *p; typedef T element_type; typedef long difference_type; typedef unsigned long size_type;
   Rich() : p(0) {} explicit Rich(T *q) : p(q) {} T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p != 0; }
   static Rich pointer_to(T &r) { ++own_calls(); return Rich(std::addressof(r)); }
   template <class U> static Rich static_cast_from(const Rich<U, Tag> &u) { ++own_calls(); return Rich(static_cast<T *>(u.p)); }
   template <class U> static Rich const_cast_from(const Rich<U, Tag> &u) { ++own_calls(); return Rich(const_cast<T *>(u.p)); }
   template <class U> static Rich dynamic_cast_from(const Rich<U, Tag> &u) { ++own_calls(); return Rich(dynamic_cast<T *>(u.p)); }
};
template <class T> struct Smart : Plain<T> { Smart() {} explicit Smart(T *q) : Plain<T>(q) {} Plain<T> operator->() const { return Plain<T>(this->p); } };   // operator-> yields another fancy pointer
template <class T> T *raw(const Plain<T> &p) { return p.p; }
template <class T> T *raw(const Smart<T> &p) { return p.p; }
template <class T, class G> T *raw(const Rich<T, G> &p) { return p.p; }
struct RawK { template <class T> using ptr = T *; static const bool own = false, dyn0 = true; };
struct SelfK { template <class T> using ptr = fptr<T>; static const bool own = false, dyn0 = false; };
struct PlainK { template <class T> using ptr = Plain<T>; static const bool own = false, dyn0 = false; };
struct SmartK { template <class T> using ptr = Smart<T>; static const bool own = false, dyn0 = false; };
struct RichK { template <class T> using ptr = Rich<T, int>; static const bool own = true, dyn0 = true; };
enum { X_TO = 1, X_STATIC, X_CONST, X_DYN, X_NULL, X_TYPES };
template <class K> struct PTr {
   template <class T> using P = typename K::template ptr<T>;
   template <class T> using PT = bi::pointer_traits<P<T> >;
   static void run(const Case &c) {
      static De d[8]; static Ba b[8]; static Amp am[8]; static int iv[8]; int k = -1; g().maxsize = 2;
      for (const Op &o : c.ops) {
         g().opi = ++k; int i = o.a[0] % 8; long before = own_calls(); bool calls = true;
         switch (o.k) {
         case X_TO: {
            P<De> p = PT<De>::pointer_to(d[i]); VF_CHECK(raw(p) == &d[i], "pointer_to: another object");
            P<const int> q = PT<const int>::pointer_to(iv[i]); VF_CHECK(raw(q) == &iv[i], "pointer_to: another object");
            P<Amp> r = PT<Amp>::pointer_to(am[i]); VF_CHECK(raw(r) == std::addressof(am[i]), "pointer_to of a type with its own address operator: another object");
            break; }
         case X_STATIC: {
            P<De> p = PT<De>::pointer_to(d[i]); P<Ba> u = PT<Ba>::static_cast_from(p); VF_CHECK(raw(u) == static_cast<Ba *>(&d[i]), "static_cast_from to a base: another object");
            P<De> q = PT<De>::static_cast_from(u); VF_CHECK(raw(q) == &d[i], "static_cast_from to a derived type: another object");
            P<const Ba> w = PT<const Ba>::static_cast_from(q); VF_CHECK(raw(w) == static_cast<const Ba *>(&d[i]), "static_cast_from to a constant base: another object");
            break; }
         case X_CONST: {
            P<const De> p = PT<const De>::pointer_to(d[i]); P<De> q = PT<De>::const_cast_from(p); VF_CHECK(raw(q) == &d[i], "const_cast_from: another object");
            P<volatile int> v = PT<volatile int>::pointer_to(iv[i]); P<int> w = PT<int>::const_cast_from(v); VF_CHECK(raw(w) == &iv[i], "const_cast_from: another object");
            break; }
         case X_DYN: {
            P<Ot> p = PT<Ot>::pointer_to(d[i]); P<Ba> q = PT<Ba>::dynamic_cast_from(p); VF_CHECK(raw(q) == static_cast<Ba *>(&d[i]), "dynamic_cast_from across the hierarchy: another object");
            P<De> r = PT<De>::dynamic_cast_from(q); VF_CHECK(raw(r) == &d[i], "dynamic_cast_from to a derived type: another object");
            if (K::dyn0) { P<Ba> t = PT<Ba>::pointer_to(b[i]); P<De> n = PT<De>::dynamic_cast_from(t); VF_CHECK(raw(n) == 0, "dynamic_cast_from to a type the object does not have"); }
            break; }
         case X_NULL: {
            P<De> z = P<De>(); VF_CHECK(raw(PT<Ba>::static_cast_from(z)) == 0 && raw(PT<Ba>::dynamic_cast_from(z)) == 0, "a cast of the null pointer");
            P<const De> y = P<const De>(); VF_CHECK(raw(PT<De>::const_cast_from(y)) == 0, "const_cast_from of the null pointer"); P<Ba> x = P<Ba>(); VF_CHECK(raw(PT<De>::static_cast_from(x)) == 0, "a cast of the null pointer"); break; }
         case X_TYPES: {
            calls = false;
            bool ok = std::is_same<typename PT<De>::template rebind_pointer<Ba>::type, P<Ba> >::value && std::is_same<typename bi::pointer_rebind<P<De>, const Ba>::type, P<const Ba> >::value
               && std::is_same<typename PT<De>::template rebind<int>, P<int> >::value && std::is_same<typename PT<De>::element_type, De>::value && std::is_same<typename PT<De>::reference, De &>::value
               && std::is_same<typename bi::pointer_traits<const P<De> >::pointer, P<De> >::value && std::is_same<typename bi::pointer_traits<P<De> &>::element_type, De>::value && std::is_same<typename PT<De>::difference_type, std::ptrdiff_t>::value
               && std::is_unsigned<typename PT<De>::size_type>::value && std::is_same<typename bi::pointer_rebind<P<De>, De>::type, P<De> >::value;
            VF_CHECK(ok, "a rebound pointer type is not the documented one"); break; }
         }
         if (K::own && calls && o.k != X_NULL) VF_CHECK(own_calls() > before, "the pointer's own function was not used");
         tr("%s of object %d\n", o.k == X_TO ? "pointer_to" : o.k == X_STATIC ? "static_cast" : o.k == X_CONST ? "const_cast" : o.k == X_DYN ? "dynamic_cast" : "null/types", i); hit(int(o.k), uint64_t(i), o.a[1]);
      }
   }
};
#endif

static void profile(const std::string &pr, Profile &p) {
   p.mask = O_ALL;
#if VF_PART == 0 || VF_PART == 1
   p.put({{B_INSERT, 40}, {B_PROBE, 30}, {B_SPLIT, 10}, {B_ERASE, 8}, {B_REHASH, 4}, {B_SPREAD, 2}});
#elif VF_PART == 2
   p.put({{N_COUNT, 30}, {N_POS, 30}, {N_LOG, 10}, {N_CTOR, 3}});
#elif VF_PART == 3
   p.put({{P_PTR, 30}, {P_BITS, 30}, {P_COPY, 5}});
#elif VF_PART == 4
   p.put({{T_INS, 40}, {T_ERA, 25}, {T_LEFT, 3}, {T_SWAPN, 5}, {T_REPL, 5}, {T_MERGE, 1}, {T_SWAP, 2}});
#elif VF_PART == 5
   p.put({{X_TO, 10}, {X_STATIC, 10}, {X_CONST, 10}, {X_DYN, 10}, {X_NULL, 10}, {X_TYPES, 2}});
#endif
   p.focus.clear();
}

int main(int argc, char **argv) {
   typedef bi::unordered_set_base_hook<> P0; typedef bi::unordered_set_base_hook<bi::store_hash<true> > P1; typedef bi::unordered_set_base_hook<bi::optimize_multikey<true> > P2; typedef bi::unordered_set_base_hook<bi::store_hash<true>, bi::optimize_multikey<true> > P3;
   typedef std::size_t Z; typedef unsigned short U16; typedef unsigned char U8; typedef unsigned U32;
#if PART(0)
   Reg<0>::add<Buckets<P0, Mod, Z> >("buckets modulus");
   Reg<0>::add<Buckets<P1, Pow2, Z, bi::cache_begin<true> > >("buckets power2 stored cache");
   Reg<0>::add<Buckets<P2, Mod, U8, bi::linear_buckets<true> > >("buckets modulus u8 linear multikey");
   Reg<0>::add<Buckets<P3, Pow2, U16> >("buckets power2 u16 stored multikey");
#endif
#if PART(1)
   Reg<1>::add<Buckets<P0, Fast, Z> >("buckets fastmod");
   Reg<1>::add<Buckets<P1, Fast, U16, bi::cache_begin<true> > >("buckets fastmod u16 stored cache");
   Reg<1>::add<Buckets<P2, Incr, Z> >("buckets incremental multikey");
   Reg<1>::add<Buckets<P3, Incr, U8, bi::linear_buckets<true> > >("buckets incremental u8 stored linear multikey");
   Reg<1>::add<Buckets<P2, Fast, U8, bi::linear_buckets<true> > >("buckets fastmod u8 linear multikey");
   Reg<1>::add<Buckets<P1, Incr, U32, bi::cache_begin<true> > >("buckets incremental u32 stored cache");
#endif
#if PART(2)
   Reg<2>::add<Counts<Z, false> >("counts"); Reg<2>::add<Counts<Z, true> >("counts fastmod"); Reg<2>::add<Counts<U16, false> >("counts u16"); Reg<2>::add<Counts<U16, true> >("counts fastmod u16");
   Reg<2>::add<Counts<U8, true> >("counts fastmod u8"); Reg<2>::add<Counts<U32, true> >("counts fastmod u32"); Reg<2>::add<Counts<U32, false> >("counts u32");
   Reg<2>::add<DefHash<int> >("default hash int"); Reg<2>::add<DefHash<bool> >("default hash bool"); Reg<2>::add<DefHash<float> >("default hash float"); Reg<2>::add<DefHash<double> >("default hash double"); Reg<2>::add<DefHash<long double> >("default hash long double");
   Reg<2>::add<DefHash<signed char> >("default hash char"); Reg<2>::add<DefHash<long long> >("default hash long"); Reg<2>::add<DefHash<Adl> >("default hash hash_value"); Reg<2>::add<DefHash<Own> >("default hash boost::hash");
#endif
#if PART(3)
   Reg<3>::add<Pack<Al<1>, 1> >("bits 1"); Reg<3>::add<Pack<Al<2>, 2> >("bits 2"); Reg<3>::add<Pack<Al<3>, 3> >("bits 3"); Reg<3>::add<Pack<const Al<4>, 4> >("bits 4 const"); Reg<3>::add<Pack<Al<5>, 5> >("bits 5"); Reg<3>::add<Pack<Al<6>, 6> >("bits 6"); Reg<3>::add<Pack<Al<12>, 12> >("bits 12");
   Reg<3>::add<Pack<void *, 1> >("bits 1 of 3"); Reg<3>::add<Pack<Al<5>, 2> >("bits 2 of 5");
   Reg<3>::add<MaxBits<1> >("alignment 1"); Reg<3>::add<MaxBits<2> >("alignment 2"); Reg<3>::add<MaxBits<4> >("alignment 4"); Reg<3>::add<MaxBits<8> >("alignment 8"); Reg<3>::add<MaxBits<64> >("alignment 64"); Reg<3>::add<MaxBits<24> >("alignment 24"); Reg<3>::add<MaxBits<4096> >("alignment 4096");
#endif
#if PART(4)
   typedef bi::set_base_hook<bi::optimize_size<true> > RC; typedef bi::set_base_hook<bi::optimize_size<false> > RP; typedef bi::avl_set_base_hook<bi::optimize_size<true> > AC; typedef bi::avl_set_base_hook<bi::optimize_size<false> > AP;
   Reg<4>::add<Compact<bi::set, RC, RP, false> >("compact set"); Reg<4>::add<Compact<bi::multiset, RC, RP, false> >("compact multiset"); Reg<4>::add<Compact<bi::avl_set, AC, AP, true> >("compact avl_set"); Reg<4>::add<Compact<bi::avl_multiset, AC, AP, true> >("compact avl_multiset");
#endif
#if PART(5)
   Reg<5>::add<PTr<RawK> >("pointer raw"); Reg<5>::add<PTr<SelfK> >("pointer self-relative"); Reg<5>::add<PTr<PlainK> >("pointer minimal"); Reg<5>::add<PTr<SmartK> >("pointer nested arrow"); Reg<5>::add<PTr<RichK> >("pointer own casts");
#endif
   engine() = {"misc", profile};
   return harness_main(argc, argv);
}
