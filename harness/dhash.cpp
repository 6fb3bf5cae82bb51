// C25: the default hash function agrees with equality, for every kind of key it accepts.
// The same history goes to unordered containers that use the default hash and to a plain sequence searched with ==.
#include "vf_assert.hpp"
#include "common.hpp"
#include <cmath>
#include <limits>
#include <memory>
#include <type_traits>
#include <boost/intrusive/unordered_set.hpp>
#if VF_PART == 3 || VF_PART < 0
#include <boost/container_hash/hash.hpp>
#endif
namespace bi = boost::intrusive;
using namespace vf;
#define PART(n) (VF_PART < 0 || VF_PART == (n))
enum { K_INS = 1, K_MINS, K_FIND, K_ERASE, K_REHASH, K_DIRECT };

static uint64_t pick(const Op &o, int i) {   // few distinct values, many of them near the ends of the ranges
   uint32_t a = o.a[i % NARG] ^ (uint32_t(i) * 0x9E3779B1u); uint32_t b = o.a[(i + 1) % NARG];
   switch (a % 6) {
   case 0: return a / 8 % 5;
   case 1: return uint64_t(0) - a / 8 % 5;
   case 2: return (uint64_t(1) << (a / 8 % 64)) - b % 3;
   case 3: return uint64_t(a / 8 % 3) << 32;
   case 4: return a / 8 % 4 * 0x0101010101010101ull;
   default: return a / 8 % 97;
   }
}

// ---- keys -------------------------------------------------------------------
template <class T, class = void> struct Gen { static void make(T &t, const Op &o, int i) { t = T(pick(o, i)); } };
template <> struct Gen<bool> { static void make(bool &t, const Op &o, int i) { t = pick(o, i) & 1; } };
__extension__ typedef __int128 i128; __extension__ typedef unsigned __int128 u128;
template <> struct Gen<i128> { static void make(i128 &t, const Op &o, int i) { t = (i128)((u128(pick(o, i + 1)) << 64) | pick(o, i)); if (o.a[3] % 3 == 0) t = (i128)(int64_t)pick(o, i); } };
template <> struct Gen<u128> { static void make(u128 &t, const Op &o, int i) { t = (u128(pick(o, i + 1)) << 64) | pick(o, i); } };
template <class F> struct Gen<F, typename std::enable_if<std::is_floating_point<F>::value>::type> {
   static void make(F &t, const Op &o, int i) {
      uint32_t a = o.a[i % NARG] ^ (uint32_t(i) * 0x85EBCA6Bu), b = o.a[(i + 1) % NARG]; F v;
      switch (a % 8) {
      case 0: v = F(0); break;
      case 1: v = -F(0); break;
      case 2: v = F(int(b % 9) - 4); break;
      case 3: v = std::numeric_limits<F>::infinity() * (b & 1 ? 1 : -1); break;
      case 4: v = std::numeric_limits<F>::denorm_min() * F(b % 4); break;
      case 5: v = F(0.5) * F(b % 5); break;
      case 6: v = std::numeric_limits<F>::max() / F(1 + b % 3); break;
      default: v = -F(b % 5) / F(3); break;
      }
      if (std::is_same<F, long double>::value) {     // whatever the padding holds
         char raw[sizeof(F)]; memset(raw, int(o.a[4] & 0xff), sizeof raw); memcpy(raw, &v, 10 < sizeof(F) ? 10 : sizeof(F)); memcpy((void *)&t, raw, sizeof raw);
      }
      else t = v;
   }
};
static int objs[64]; static const int cobjs[16] = {0};
static void f0() {} static void f1(){ vf::stat("f1"); } static void f2() { vf::stat("f2"); }
template <> struct Gen<int *> { static void make(int *&t, const Op &o, int i) { uint32_t a = o.a[i % NARG]; t = a % 7 ? objs + a / 8 % 12 : 0; } };
template <> struct Gen<const int *> { static void make(const int *&t, const Op &o, int i) { uint32_t a = o.a[i % NARG]; t = a % 3 == 0 ? cobjs + a / 8 % 5 : a % 3 == 1 ? objs + a / 8 % 9 : 0; } };
template <> struct Gen<void *> { static void make(void *&t, const Op &o, int i) { uint32_t a = o.a[i % NARG]; t = a % 5 ? (void *)((char *)objs + a / 8 % 20) : a % 2 ? (void *)~std::uintptr_t(a / 8 % 3) : 0; } };
typedef void (*fn)();
template <> struct Gen<fn> { static void make(fn &t, const Op &o, int i) { fn v[] = {f0, f1, f2, 0}; t = v[o.a[i % NARG] % 4]; } };
template <> struct Gen<std::nullptr_t> { static void make(std::nullptr_t &t, const Op &, int) { t = nullptr; } };
enum E0 { ea = -3, eb, ec, ed, ee, ef = 4 };
enum class E1 : unsigned char { a, b, c };
enum class E2 : long long { a = -1, b = 0 };
enum class E3 : int { m = -5 };
template <> struct Gen<E0> { static void make(E0 &t, const Op &o, int i) { t = E0(int(o.a[i % NARG] % 8) - 3); } };
template <class T> struct Gen<T, typename std::enable_if<std::is_enum<T>::value && !std::is_same<T, E0>::value>::type> { static void make(T &t, const Op &o, int i) { t = T((typename std::underlying_type<T>::type)pick(o, i)); } };
template <class T, std::size_t N> struct Gen<T[N]> { static void make(T (&t)[N], const Op &o, int i) { for (std::size_t j = 0; j < N; ++j) Gen<T>::make(t[j], o, i + int(j)); if (o.a[2] % 3 == 0) for (std::size_t j = 1; j < N; ++j) Gen<T>::make(t[j], o, i); } };

// classes: hash_value as a friend, in the class's namespace, of a base class, of a template, through boost::hash
struct Adl { int a, junk; friend bool operator==(const Adl &x, const Adl &y) { return x.a == y.a; } friend std::size_t hash_value(const Adl &x) { return std::size_t(x.a * 31); } };
namespace ns { struct Free { long a; char junk[9]; }; inline bool operator==(const Free &x, const Free &y) { return x.a % 8 == y.a % 8; } inline std::size_t hash_value(const Free &x) { return std::size_t(x.a % 8) << 60; }
struct Base { unsigned a; }; inline bool operator==(const Base &x, const Base &y) { return x.a == y.a; } inline std::size_t hash_value(const Base &x) { return ~std::size_t(x.a); }
struct Derived : Base { int junk; };
template <class T> struct Tm { T a; double junk; bool operator==(const Tm &o) const { return a == o.a; } }; template <class T> std::size_t hash_value(const Tm<T> &x) { return std::size_t(x.a) * 0x100000001ull; } }
struct Own { long a; int junk; friend bool operator==(const Own &x, const Own &y) { return x.a == y.a; } };
namespace boost { template <class T> struct hash; template <> struct hash<Own> { std::size_t operator()(const Own &o) const { return std::size_t(o.a) * 7; } }; }
template <> struct Gen<Adl> { static void make(Adl &t, const Op &o, int i) { t.a = int(o.a[i % NARG] % 9) - 4; t.junk = int(o.a[4]); } };
template <> struct Gen<ns::Free> { static void make(ns::Free &t, const Op &o, int i) { t.a = long(pick(o, i) >> 1); memset(t.junk, int(o.a[4]), sizeof t.junk); } };
template <> struct Gen<ns::Derived> { static void make(ns::Derived &t, const Op &o, int i) { t.a = unsigned(pick(o, i)); t.junk = int(o.a[4]); } };
template <class T> struct Gen<ns::Tm<T> > { static void make(ns::Tm<T> &t, const Op &o, int i) { t.a = T(pick(o, i)); t.junk = o.a[4]; } };
template <> struct Gen<Own> { static void make(Own &t, const Op &o, int i) { t.a = long(pick(o, i)); t.junk = int(o.a[4]); } };
template <> struct Gen<std::string> { static void make(std::string &t, const Op &o, int i) { t = std::string(o.a[i % NARG] % 4, 'x') + (o.a[(i + 1) % NARG] & 1 ? "y" : ""); t.reserve(o.a[4] % 64); } };
template <> struct Gen<std::vector<int> > { static void make(std::vector<int> &t, const Op &o, int i) { t.assign(o.a[i % NARG] % 4, int(o.a[(i + 1) % NARG] % 2)); t.reserve(o.a[4] % 64); } };
template <class A, class B> struct Gen<std::pair<A, B> > { static void make(std::pair<A, B> &t, const Op &o, int i) { Gen<A>::make(t.first, o, i); Gen<B>::make(t.second, o, i + 1); } };

template <class T> bool same(const T &a, const T &b) { return a == b; }
template <class T, std::size_t N> bool same(const T (&a)[N], const T (&b)[N]) { for (std::size_t i = 0; i < N; ++i) if (!same(a[i], b[i])) return false; return true; }
struct Same { template <class T> bool operator()(const T &a, const T &b) const { return same(a, b); } };

template <class K> struct El : bi::unordered_set_base_hook<bi::store_hash<false> >, bi::unordered_set_base_hook<bi::tag<int>, bi::store_hash<true>, bi::optimize_multikey<true> > {
   K k; unsigned id; unsigned in; };
template <class K> struct KeyOf { typedef K type; const K &operator()(const El<K> &e) const { return e.k; } };
template <class K> struct Eq { typedef bi::equal<Same> type; };
typedef bi::base_hook<bi::unordered_set_base_hook<bi::store_hash<false> > > H0;
typedef bi::base_hook<bi::unordered_set_base_hook<bi::tag<int>, bi::store_hash<true>, bi::optimize_multikey<true> > > H1;

template <class C> void check_one(C &c, const char *what, const El<typename C::key_of_value::type> &probe, std::vector<El<typename C::key_of_value::type> *> &all, unsigned bit, std::size_t nb) {
   typedef El<typename C::key_of_value::type> E;
   const C &cc = c; std::size_t want = 0, got = 0; std::size_t h = cc.hash_function()(probe.k);
   VF_CHECK(h == cc.hash_function()(probe.k), "%s: two calls of the hash function disagree", what);
   for (E *e : all) if (same(e->k, probe.k)) {
      VF_CHECK(cc.hash_function()(e->k) == h, "%s: equal keys (elements %u and the probe) have the hashes %zu and %zu", what, e->id, cc.hash_function()(e->k), h);
      if (e->in & bit) ++want;
   }
   auto it = c.find(probe.k);
   VF_CHECK((it != c.end()) == (want != 0), "%s: find() %s, but %zu equal elements are inside", what, it != c.end() ? "found something" : "found nothing", want);
   if (want) VF_CHECK(same(it->k, probe.k), "%s: find() returned an element with another key", what);
   VF_CHECK(cc.count(probe.k) == want, "%s: count() is %zu with %zu equal elements inside", what, std::size_t(cc.count(probe.k)), want);
   auto r = c.equal_range(probe.k);
   for (auto i = r.first; i != r.second; ++i) { VF_CHECK(same(i->k, probe.k), "%s: equal_range() holds an element with another key", what); if (++got > want) break; }
   VF_CHECK(got == want, "%s: equal_range() holds %zu elements, %zu are inside", what, got, want);
   VF_CHECK(cc.bucket(probe.k) < nb, "%s: bucket() out of range", what);
   if (want) {     // the element is in the bucket that its key names
      std::size_t b = cc.bucket(probe.k); bool seen = false; for (auto i = c.begin(b); i != c.end(b); ++i) if (&*i == &*it) seen = true;
      VF_CHECK(seen, "%s: a found element is not in the bucket of its key", what);
   }
}

template <class K> struct Keys {
   typedef El<K> E;
   typedef bi::unordered_set<E, H0, bi::key_of_value<KeyOf<K> >, bi::equal<Same> > S0;
   typedef bi::unordered_multiset<E, H1, bi::key_of_value<KeyOf<K> >, bi::equal<Same>, bi::power_2_buckets<true>, bi::compare_hash<true> > S1;
   static void run(const Case &c) {
      const std::size_t nb0 = 1 + c.cfg[1] % 40, nb1 = std::size_t(1) << c.cfg[2] % 6;
      typename S0::bucket_type b0[64], b0b[64]; typename S1::bucket_type b1[64], b1b[64];
      S0 s(typename S0::bucket_traits(b0, nb0)); S1 m(typename S1::bucket_traits(b1, nb1));
      std::size_t n0 = nb0, n1 = nb1; bool alt0 = false, alt1 = false;
      std::vector<E *> all; int k = -1; std::size_t inside = 0;
      struct Clean { S0 &s; S1 &m; std::vector<E *> &a; ~Clean() { s.clear(); m.clear(); for (E *e : a) { e->~E(); operator delete((void *)e); } } } clean{s, m, all};
      for (const Op &o0 : c.ops) {
         g().opi = ++k; Op o = o0;
         if (o.a[4] % 3 == 0) o.a[1] = o.a[0];
         void *p = operator new(sizeof(E)); memset(p, int(o.a[3] & 0xff), sizeof(E)); E *e = new (p) E; e->id = unsigned(all.size()); e->in = 0; all.push_back(e);
         Gen<K>::make(e->k, o, 0);
         if (all.size() > 1 && o.a[2] % 5 == 0) {      // a second representation of a value already there
            E *q = all[o.a[1] % (all.size() - 1)];
            for (int t = 0; t < 12; ++t) { Op o2 = o; for (int j = 0; j < NARG; ++j) o2.a[j] = o.a[j] * 2654435761u + uint32_t(t) * 40503u; Gen<K>::make(e->k, o2, t); if (same(e->k, q->k)) { vf::stat("equal key generated anew"); break; } }
         }
         std::size_t in0 = 0, in1 = 0; for (E *x : all) if (x != e && same(x->k, e->k)) { in0 += x->in & 1; in1 += (x->in >> 1) & 1; }
         switch (o.k) {
         case K_INS: { auto r = s.insert(*e); tr("insert -> %d\n", int(r.second)); VF_CHECK(r.second == !in0, "unique insert returned %d with %zu equal elements inside", int(r.second), in0); VF_CHECK(same(r.first->k, e->k), "insert returned another key"); if (r.second) { e->in |= 1; ++inside; } hit(o.k, in0, all.size()); break; }
         case K_MINS: { tr("multi insert\n"); m.insert(*e); e->in |= 2; ++inside; hit(o.k, in1, all.size()); break; }
         case K_FIND: hit(o.k, in0, in1); break;
         case K_ERASE: { std::size_t r0 = s.erase(e->k), r1 = m.erase(e->k); tr("erase -> %zu %zu\n", r0, r1); VF_CHECK(r0 == in0, "erase(key) of the set returned %zu, %zu equal elements were inside", r0, in0); VF_CHECK(r1 == in1, "erase(key) of the multiset returned %zu, %zu equal elements were inside", r1, in1);
            for (E *x : all) if (same(x->k, e->k)) x->in = 0; inside -= in0 + in1; hit(o.k, in0, in1); break; }
         case K_REHASH: { tr("rehash\n"); alt0 = !alt0; alt1 = !alt1; n0 = 1 + o.a[1] % 40; n1 = std::size_t(1) << o.a[2] % 6; s.rehash(typename S0::bucket_traits(alt0 ? b0b : b0, n0)); m.rehash(typename S1::bucket_traits(alt1 ? b1b : b1, n1)); hit(o.k, n0, n1); break; }
         }
         check_one(s, "set", *e, all, 1, n0); check_one(m, "multiset", *e, all, 2, n1);
         if (g().maxsize < inside) g().maxsize = inside;
      }
      std::size_t w0 = 0, w1 = 0; for (E *x : all) { w0 += x->in & 1; w1 += (x->in >> 1) & 1; }
      VF_CHECK(s.size() == w0 && m.size() == w1, "sizes");
      VF_CHECK(std::size_t(std::distance(s.begin(), s.end())) == w0 && std::size_t(std::distance(m.begin(), m.end())) == w1, "numbers of elements");
   }
};
// no key_of_value: the element is its own key
template <class B> struct Self : B, bi::unordered_set_base_hook<> { unsigned id, in; };
template <class B> struct Whole {
   typedef Self<B> E;
   typedef bi::unordered_set<E> S; typedef bi::unordered_multiset<E, bi::power_2_buckets<true>, bi::incremental<true> > M;
   static void run(const Case &c) {
      typename S::bucket_type b0[40]; typename M::bucket_type b1[32]; S s(typename S::bucket_traits(b0, 1 + c.cfg[1] % 40)); M m(typename M::bucket_traits(b1, 32));
      std::vector<std::unique_ptr<E> > all; int k = -1; std::size_t w0 = 0, w1 = 0;
      struct Clean { S &s; M &m; ~Clean() { s.clear(); m.clear(); } } clean{s, m};
      for (const Op &o : c.ops) {
         g().opi = ++k; all.emplace_back(new E); E *e = all.back().get(); e->id = unsigned(all.size()); e->in = 0; Gen<B>::make(*e, o, 0);
         std::size_t in0 = 0, in1 = 0; for (auto &x : all) if (x.get() != e && *x == *e) { in0 += x->in & 1; in1 += x->in >> 1 & 1; }
         VF_CHECK(s.count(*e) == in0 && (s.find(*e) != s.end()) == (in0 != 0), "an element equal to a contained one is not found");
         VF_CHECK(m.count(*e) == in1 && (m.find(*e) != m.end()) == (in1 != 0), "count() of an element in the multiset: %zu, %zu equal inside", std::size_t(m.count(*e)), in1);
         if (o.k == K_INS) { bool r = s.insert(*e).second; VF_CHECK(r == !in0, "insert() returned %d with %zu equal elements inside", int(r), in0); if (r) { e->in = 1; ++w0; } hit(o.k, in0, w0); }
         else if (o.k == K_MINS) { m.insert(*e); e->in = 2; ++w1; hit(o.k, in1, w1); }
         else if (o.k == K_ERASE) { std::size_t a = s.erase(*e), b = m.erase(*e); VF_CHECK(a == in0 && b == in1, "erase(key) returned %zu and %zu, %zu and %zu equal elements were inside", a, b, in0, in1); for (auto &x : all) if (*x == *e) x->in = 0; w0 -= a; w1 -= b; hit(o.k, a, b); }
         else if (o.k == K_REHASH) { if (o.a[0] & 1) m.incremental_rehash(); else m.incremental_rehash(false); hit(o.k, o.a[0] & 1); }
         else hit(o.k, in0, in1);
         if (g().maxsize < w0 + w1) g().maxsize = w0 + w1;
      }
      VF_CHECK(s.size() == w0 && m.size() == w1, "sizes");
   }
};

template <class F> static void add(const char *n) { configs().push_back(Config{n, &F::run}); }
static void profile(const std::string &, Profile &p) { p.put({{K_INS, 40}, {K_MINS, 40}, {K_FIND, 30}, {K_ERASE, 12}, {K_REHASH, 6}}); }
#define A(T) add<Keys<T> >("default hash of " #T)
typedef int I3[3]; typedef int I1[1]; typedef char C8[8]; typedef float F2[2]; typedef double D22[2][2]; typedef long double L2[2]; typedef int *P2[2]; typedef E2 E3_[3]; typedef Adl A2[2]; typedef Own O2[2]; typedef short S222[2][2][2]; typedef bool B9[9];
int main(int argc, char **argv) {
#if PART(0)
   A(bool); A(char); A(signed char); A(unsigned char); A(wchar_t); A(char16_t); A(char32_t); A(short); A(unsigned short); A(int); A(unsigned); A(long); A(unsigned long); A(long long); A(unsigned long long);
#endif
#if PART(1)
   A(float); A(double); A(long double);
#endif
#if PART(2)
   A(I3); A(I1); A(C8); A(F2); A(D22); A(L2); A(A2); A(O2); A(S222); A(B9);
#endif
#if PART(3)
   A(i128); A(u128); A(int *); A(const int *); A(void *); A(fn); A(std::nullptr_t); A(E0); A(E1); A(E2); A(E3);   // (the installed Boost.Move does not count these as scalars: they go to boost::hash)
   A(Adl); A(ns::Free); A(ns::Derived); A(ns::Tm<int>); A(Own); A(std::string); A(std::vector<int>); typedef std::pair<int, double> PID; A(PID);
   add<Whole<Adl> >("default hash of an element with a friend hash_value"); add<Whole<ns::Free> >("default hash of an element with a namespace hash_value"); add<Whole<ns::Derived> >("default hash of an element with an inherited hash_value"); add<Whole<ns::Tm<long> > >("default hash of an element with a template hash_value");
#endif
   engine() = {"dhash", profile};
   return harness_main(argc, argv);
}
