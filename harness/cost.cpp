// C26: operations do no more work than they document.
// The containers are built over node traits that count every link read or written, and functors that count their calls.
// One operation at a time is measured on containers of 0 to 800 elements and compared with a generous multiple of its documented
// complexity (exact where the documentation gives an exact number of calls).
#define BOOST_DISABLE_ASSERTS    // (a debug build checks positions with extra comparisons)
#include "common.hpp"
#include <cmath>
#include <memory>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
namespace bi = boost::intrusive;
using namespace vf;
#define PART(n) (VF_PART < 0 || VF_PART == (n))

#ifdef VF_FOOT
// C28 (the same operations, other measurements): memory requests, stack depth, and what happens to the elements themselves.
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static struct Foot { uint64_t allocs, frees, made; uintptr_t low; bool on, pending; uintptr_t base; } F;
static void on_malloc(const volatile void *, size_t) { if (F.on) ++F.allocs; }
static void on_free(const volatile void *) { if (F.on) ++F.frees; }
static __attribute__((noinline)) void here() { const uintptr_t f = uintptr_t(__builtin_frame_address(0)); if (f < F.low) F.low = f; }      // (below whatever the caller holds on the stack)
struct Count { uint64_t v;
   Count &operator++() { ++v; here(); return *this; }
   Count &operator=(uint64_t x) { v = x; return *this; } operator uint64_t() const { return v; } };
#else
typedef uint64_t Count;
#endif
struct Meter { Count acc, cmp, eq, pred, hash; };
static Meter M;
static const uint64_t K0 = 80;       // "constant"
static const uint64_t KL = 24;       // accesses per element of a linear operation
static std::map<std::string, double> &peaks() { static std::map<std::string, double> m; return m; }
static bool want_peaks() { static const bool w = getenv("VF_COST_PEAKS") != 0; return w; }
#ifdef VF_FOOT
static const uint64_t STACK = 8192;      // any number of elements
static void unharmed();
static void foot(const char *what, size_t n) {
   if (!F.pending) return; F.pending = false;
   const uint64_t depth = F.low < F.base ? F.base - F.low : 0;
   if (want_peaks()) { double &d = peaks()[what]; if (double(depth) > d) { d = double(depth); fprintf(stderr, "PEAK %.0f %s\n", d, what); } }
   tr("  %s: %llu allocations, %llu deallocations, %llu bytes of stack, %zu elements\n", what, (unsigned long long)F.allocs, (unsigned long long)F.frees, (unsigned long long)depth, n);
   VF_CHECK(!F.allocs && !F.frees, "%s allocated %llu and released %llu blocks of memory (%zu elements)", what, (unsigned long long)F.allocs, (unsigned long long)F.frees, n);
   VF_CHECK(depth <= STACK, "%s used %llu bytes of stack on %zu elements; the use must not grow with the elements", what, (unsigned long long)depth, n);
   VF_CHECK(!F.made, "%s constructed, copied, assigned or destroyed elements (%llu times, %zu elements)", what, (unsigned long long)F.made, n);
   unharmed();
}
static void bound(const char *what, const char *, uint64_t, uint64_t, size_t n) { foot(what, n); }
static void exact(const char *what, const char *, uint64_t, uint64_t, size_t n) { foot(what, n); }
template <class Fn> __attribute__((noinline)) static Meter measure(Fn f) {
   foot("the operation", 0); Meter z = {{0}, {0}, {0}, {0}, {0}}; M = z; F.allocs = F.frees = F.made = 0; F.base = F.low = uintptr_t(__builtin_frame_address(0)); F.pending = true; F.on = true;
   struct Off { ~Off() { F.on = false; } } off; f(); return M;
}
#define CAP(n) (6 * (n))
#define THIN(n) 1
#else
#define CAP(n) (n)
#define THIN(n) (n)
static void bound(const char *what, const char *unit, uint64_t got, uint64_t lim, size_t n) {
   if (want_peaks()) { double &d = peaks()[std::string(what) + " " + unit]; double r = double(got) / double(lim ? lim : 1); if (r > d) { d = r; fprintf(stderr, "PEAK %.3f %s %s\n", r, what, unit); } }
   tr("  %s: %llu %s (at most %llu, %zu elements)\n", what, (unsigned long long)got, unit, (unsigned long long)lim, n);
   VF_CHECK(got <= lim, "%s did %llu %s on %zu elements; its documented complexity allows about %llu", what, (unsigned long long)got, unit, n, (unsigned long long)lim);
}
static void exact(const char *what, const char *unit, uint64_t got, uint64_t want, size_t n) {
   VF_CHECK(got == want, "%s made %llu %s on %zu elements; documented are %llu", what, (unsigned long long)got, unit, n, (unsigned long long)want);
}
template <class Fn> static Meter measure(Fn f) { Meter z = {0, 0, 0, 0, 0}; M = z; f(); return M; }
#endif
static uint64_t lg(size_t n) { uint64_t l = 0; while ((size_t(1) << l) < n + 1) ++l; return l; }
static size_t pick_size(uint32_t r) {
#ifdef VF_FOOT
   if (r % 64 == 7) return 800 + r / 64 % 4000;
#endif
   switch (r % 8) { case 0: return r / 8 % 4; case 1: return 1 + r / 8 % 12; case 2: return r / 8 % 80; default: return 100 + r / 8 % 700; } }
template <class T> static void keep(const T &t) { asm volatile("" : : "g"(std::addressof(t)) : "memory"); }
static void big(size_t n) { if (n >= 64) g().maxsize = 2; }

#ifdef VF_FOOT
struct Data { const Data *self; Data *pool_next; int key; unsigned id; bool in; const Data *tail;
   Data() { self = tail = this; pool_next = 0; if (F.on) ++F.made; } Data(const Data &d) : pool_next(0), key(d.key), id(d.id), in(d.in) { self = tail = this; if (F.on) ++F.made; }
   struct Nowhere { template <class T> operator T *() const { volatile uintptr_t w = 64; return (T *)w; } }; Nowhere operator&() const { return Nowhere(); }      // (an element type may overload it)
   Data &operator=(const Data &d) { key = d.key; id = d.id; in = d.in; if (F.on) ++F.made; return *this; } ~Data() { if (F.on) ++F.made; } };
static std::vector<Data *> &everyone() { static std::vector<Data *> v; return v; }
static void enlist(Data *d) { everyone().push_back(d); }
static void unharmed() { for (const Data *d : everyone()) VF_CHECK(d->self == d && d->tail == d, "the data of an element was overwritten"); }
#else
struct Data { int key; unsigned id; bool in; };
static void enlist(Data *) {}
#endif
static bool operator<(const Data &a, const Data &b) { ++M.cmp; return a.key < b.key; }
static bool operator==(const Data &a, const Data &b) { ++M.eq; return a.key == b.key; }
struct Pred { int m; bool operator()(const Data &d) const { ++M.pred; return d.key % 7 < m; } };
struct BPred { bool operator()(const Data &a, const Data &b) const { ++M.pred; return a.key == b.key; } };
struct Nop { template <class P> void operator()(P) const {} };

// ---- lists --------------------------------------------------------------------
enum { Q_ENDS = 1, Q_PUSH, Q_POP, Q_SPLICE, Q_SPLICE1, Q_SPLICER, Q_SPLICEN, Q_SWAP, Q_MOVE, Q_ERANGE, Q_ERANGEN, Q_CLEAR, Q_SORT, Q_MERGE, Q_REMOVE, Q_UNIQUE, Q_REVERSE, Q_SHIFT, Q_INSR, Q_ASSIGN, Q_CLONE, Q_WALK, Q_PREV, Q_FILL };
#if PART(0) || PART(1)
template <class E> struct Pool {
   std::vector<std::unique_ptr<E> > own; size_t nextfree = 0;
   E *fresh(int key) {
      for (size_t i = 0; i < own.size(); ++i) { E *e = own[(nextfree + i) % own.size()].get(); if (!e->in) { nextfree = (nextfree + i + 1) % own.size(); e->key = key; e->in = true; return e; } }
      own.emplace_back(new E); E *e = own.back().get(); enlist(e); e->id = unsigned(own.size()); e->key = key; e->in = true; return e;
   }
};
template <class L, class E> void remark(Pool<E> &p, L &a, L &b) { for (auto &e : p.own) e->in = false; for (E &e : a) e.in = true; for (E &e : b) e.in = true; }
static std::vector<int> keysfor(const Op &o, size_t n, bool sorted) { Rng r(o.a[0] * 77777ull + o.a[1]); std::vector<int> v; int range = o.a[2] % 3 == 0 ? 5 : o.a[2] % 3 == 1 ? 100 : 100000; for (size_t i = 0; i < n; ++i) v.push_back(int(r.below(uint32_t(range)))); if (sorted) std::sort(v.begin(), v.end()); return v; }
#endif

#if PART(0)
struct LN { LN *next, *prev; };
struct LT { typedef LN node; typedef LN *node_ptr; typedef const LN *const_node_ptr;
   static node_ptr get_next(const_node_ptr n) { ++M.acc; return n->next; } static void set_next(node_ptr n, node_ptr m) { ++M.acc; n->next = m; }
   static node_ptr get_previous(const_node_ptr n) { ++M.acc; return n->prev; } static void set_previous(node_ptr n, node_ptr m) { ++M.acc; n->prev = m; } };
struct LE : LN, Data { LE() { next = prev = 0; in = false; key = 0; } };
template <bi::link_mode_type LM, bool CTS> struct ListCost {
   typedef bi::list<LE, bi::value_traits<bi::derivation_value_traits<LE, LT, LM> >, bi::constant_time_size<CTS> > L;
   typedef typename L::iterator It;
   static const bool normal = LM == bi::normal_link;
   static void run(const Case &c) {
      static Pool<LE> pool; for (auto &e : pool.own) { e->in = false; e->next = e->prev = 0; }
      L a, b; int k = -1;
      struct Clean { L &a, &b; ~Clean() { a.clear(); b.clear(); } } clean{a, b};
      for (int i = 0; i < 2; ++i) { L &l = i ? b : a; size_t n = pick_size(c.cfg[1 + i]); Rng r(c.cfg[3 + i]); for (size_t j = 0; j < n; ++j) l.push_back(*pool.fresh(int(r.below(c.cfg[5] % 2 ? 9 : 5000)))); }
      for (const Op &o : c.ops) {
         g().opi = ++k;
         L &l = o.a[4] & 1 ? b : a, &x = o.a[4] & 1 ? a : b; const size_t n = std::distance(l.begin(), l.end()), m = std::distance(x.begin(), x.end());
         big(n);
         auto at = [](L &q, size_t i) { It it = q.begin(); for (; i; --i) ++it; return it; };
         tr("op %u on %zu and %zu elements\n", o.k, n, m); Meter t; bool remake = false;
         switch (o.k) {
         case Q_FILL: { size_t w = pick_size(o.a[0]); if (n + w > CAP(1000)) break; for (int q : keysfor(o, w, o.a[3] & 1)) l.push_back(*pool.fresh(q)); break; }
         case Q_ENDS: {
            if (n) { bound("front() and back()", "link accesses", measure([&] { keep(l.front()); keep(l.back()); }).acc, K0, n); It it = at(l, o.a[0] % n); LE &e = *it; bound("iterator_to()", "link accesses", measure([&] { keep(l.iterator_to(e)); keep(L::s_iterator_to(e)); }).acc, K0, n); }
            bound("begin() to rend()", "link accesses", measure([&] { keep(l.begin()); keep(l.end()); keep(l.rbegin()); keep(l.rend()); keep(l.cbegin()); keep(l.crend()); }).acc, K0, n);
            bound("empty()", "link accesses", measure([&] { keep(l.empty()); }).acc, K0, n); bound("container_from_end_iterator()", "link accesses", measure([&] { keep(L::container_from_end_iterator(l.end())); }).acc, K0, n);
            bound("size()", "link accesses", measure([&] { keep(l.size()); }).acc, CTS ? K0 : KL * n + K0, n); break; }
         case Q_PUSH: { if (n > CAP(1000)) break; LE *e = pool.fresh(int(o.a[1] % 100)); It p = at(l, n ? o.a[0] % (n + 1) : 0);
            switch (o.a[2] % 3) { case 0: t = measure([&] { l.push_back(*e); }); bound("push_back()", "link accesses", t.acc, K0, n); break; case 1: t = measure([&] { l.push_front(*e); }); bound("push_front()", "link accesses", t.acc, K0, n); break; default: t = measure([&] { l.insert(p, *e); }); bound("insert()", "link accesses", t.acc, K0, n); } break; }
         case Q_POP: { if (!n) break; It p = at(l, o.a[0] % n); remake = true;
            switch (o.a[2] % 5) { case 0: t = measure([&] { l.pop_back(); }); bound("pop_back()", "link accesses", t.acc, K0, n); break; case 1: t = measure([&] { l.pop_front(); }); bound("pop_front()", "link accesses", t.acc, K0, n); break; case 2: t = measure([&] { l.erase(p); }); bound("erase()", "link accesses", t.acc, K0, n); break;
            case 3: t = measure([&] { l.erase_and_dispose(p, Nop()); }); bound("erase_and_dispose()", "link accesses", t.acc, K0, n); break; default: t = measure([&] { l.pop_back_and_dispose(Nop()); }); bound("pop_back_and_dispose()", "link accesses", t.acc, K0, n); } break; }
         case Q_SPLICE: { It p = at(l, n ? o.a[0] % (n + 1) : 0); t = measure([&] { l.splice(p, x); }); bound("splice() of a whole list", "link accesses", t.acc, K0, n + m); break; }
         case Q_SPLICE1: { if (!m) break; It p = at(l, n ? o.a[0] % (n + 1) : 0), q = at(x, o.a[1] % m); t = measure([&] { l.splice(p, x, q); }); bound("splice() of one element", "link accesses", t.acc, K0, n + m); break; }
         case Q_SPLICER: case Q_SPLICEN: { size_t f = m ? o.a[1] % (m + 1) : 0, d = m - f ? o.a[2] % (m - f + 1) : 0; It p = at(l, n ? o.a[0] % (n + 1) : 0), q = at(x, f), e = at(x, f + d);
            if (o.k == Q_SPLICER) { t = measure([&] { l.splice(p, x, q, e); }); bound("splice() of a range", "link accesses", t.acc, CTS ? KL * d + K0 : K0, n + m); }
            else { t = measure([&] { l.splice(p, x, q, e, d); }); bound("splice() of a counted range", "link accesses", t.acc, K0, n + m); } break; }
         case Q_SWAP: t = measure([&] { l.swap(x); }); bound("swap()", "link accesses", t.acc, K0, n + m); break;
         case Q_MOVE: { t = measure([&] { L y(boost::move(l)); l = boost::move(y); }); bound("move construction and assignment", "link accesses", t.acc, 2 * K0, n); break; }
         case Q_ERANGE: case Q_ERANGEN: { size_t f = n ? o.a[1] % (n + 1) : 0, d = n - f ? o.a[2] % (n - f + 1) : 0; It q = at(l, f), e = at(l, f + d); remake = true;
            if (o.k == Q_ERANGE) { t = measure([&] { l.erase(q, e); }); bound("erase() of a range", "link accesses", t.acc, normal && !CTS ? K0 : KL * d + K0, n); }
            else { t = measure([&] { l.erase(q, e, d); }); bound("erase() of a counted range", "link accesses", t.acc, normal ? K0 : KL * d + K0, n); } break; }
         case Q_CLEAR: if (o.a[0] & 1) { t = measure([&] { l.clear(); }); bound("clear()", "link accesses", t.acc, normal ? K0 : KL * n + K0, n); } else { t = measure([&] { l.clear_and_dispose(Nop()); }); bound("clear_and_dispose()", "link accesses", t.acc, KL * n + K0, n); } remake = true; break;
         case Q_SORT: { uint64_t w = n * (lg(n) + 1); t = measure([&] { l.sort(); }); bound("sort()", "comparisons", t.cmp, 2 * w, n); bound("sort()", "link accesses", t.acc, 4 * KL * w + 20 * K0, n); break; }
         case Q_MERGE: { l.sort(); x.sort(); t = measure([&] { l.merge(x); }); bound("merge()", "comparisons", t.cmp, n + m ? n + m - 1 : 0, n + m); bound("merge()", "link accesses", t.acc, KL * (n + m) + K0, n + m); break; }
         case Q_REMOVE: { remake = true; LE v; v.key = n ? at(l, o.a[0] % n)->key : 3;
            switch (o.a[2] % 4) { case 0: t = measure([&] { l.remove(v); }); exact("remove()", "comparisons", t.eq, n, n); break; case 1: t = measure([&] { l.remove_if(Pred{int(o.a[1] % 8)}); }); exact("remove_if()", "calls of the predicate", t.pred, n, n); break;
            case 2: t = measure([&] { l.remove_and_dispose(v, Nop()); }); exact("remove_and_dispose()", "comparisons", t.eq, n, n); break; default: t = measure([&] { l.remove_and_dispose_if(Pred{int(o.a[1] % 8)}, Nop()); }); exact("remove_and_dispose_if()", "calls of the predicate", t.pred, n, n); }
            bound("remove", "link accesses", t.acc, 2 * KL * n + K0, n); break; }
         case Q_UNIQUE: { remake = true; if (o.a[1] & 1) l.sort(); if (o.a[2] & 1) { t = measure([&] { l.unique(BPred()); }); exact("unique(pred)", "calls of the predicate", t.pred, n ? n - 1 : 0, n); } else { t = measure([&] { l.unique_and_dispose(Nop()); }); exact("unique_and_dispose()", "comparisons", t.eq, n ? n - 1 : 0, n); } bound("unique", "link accesses", t.acc, 2 * KL * n + K0, n); break; }
         case Q_REVERSE: t = measure([&] { l.reverse(); }); bound("reverse()", "link accesses", t.acc, KL * n + K0, n); break;
         case Q_SHIFT: { size_t s = o.a[0] % (o.a[1] % 3 ? 6 : 2 * n + 3); t = measure([&] { if (o.a[2] & 1) l.shift_forward(s); else l.shift_backwards(s); }); bound("shift", "link accesses", t.acc, KL * s + K0, n); break; }
         case Q_INSR: case Q_ASSIGN: { size_t w = pick_size(o.a[0]); if (n + w > CAP(1200)) break; std::vector<LE *> v; for (int q : keysfor(o, w, false)) v.push_back(pool.fresh(q)); std::vector<LE> none;
            struct DI { LE **p; LE &operator*() const { return **p; } DI &operator++() { ++p; return *this; } bool operator!=(const DI &y) const { return p != y.p; } bool operator==(const DI &y) const { return p == y.p; } };
            DI f{v.data()}, e{v.data() + v.size()}; It p = at(l, n ? o.a[3] % (n + 1) : 0);
            if (o.k == Q_INSR) { t = measure([&] { l.insert(p, f, e); }); bound("insert() of a range", "link accesses", t.acc, KL * w + K0, n); }
            else { remake = true; t = measure([&] { l.assign(f, e); }); bound("assign()", "link accesses", t.acc, KL * (w + (normal ? 0 : n)) + K0, n); } break; }
         case Q_CLONE: { if (m + n > CAP(1000)) break; std::vector<LE *> fr; for (size_t i = 0; i < m; ++i) fr.push_back(pool.fresh(0)); size_t i = 0; remake = true;
            t = measure([&] { l.clone_from(x, [&](const LE &e) { LE *q = fr[i++]; q->key = e.key; return q; }, Nop()); }); bound("clone_from()", "link accesses", t.acc, 2 * KL * (n + m) + K0, n + m); break; }
         case Q_WALK: t = measure([&] { for (It i = l.begin(); i != l.end(); ++i) keep(*i); for (auto i = l.rbegin(); i != l.rend(); ++i) keep(*i); }); bound("walking the list both ways", "link accesses", t.acc, KL * n + K0, n); break;
         }
         if (remake) { if (!normal) for (auto &e : pool.own) if (0) keep(e); remark(pool, a, b); for (auto &e : pool.own) if (!e->in) e->next = e->prev = 0; }
         hit(int(o.k), n, m);
      }
   }
};
#endif

#if PART(1)
struct SN { SN *next; };
struct ST { typedef SN node; typedef SN *node_ptr; typedef const SN *const_node_ptr; static node_ptr get_next(const_node_ptr n) { ++M.acc; return n->next; } static void set_next(node_ptr n, node_ptr m) { ++M.acc; n->next = m; } };
struct SE : SN, Data { SE() { next = 0; in = false; key = 0; } };
template <bi::link_mode_type LM, bool CTS, bool LIN, bool CACHE> struct SlistCost {
   typedef bi::slist<SE, bi::value_traits<bi::derivation_value_traits<SE, ST, LM> >, bi::constant_time_size<CTS>, bi::linear<LIN>, bi::cache_last<CACHE> > L;
   typedef typename L::iterator It;
   static const bool normal = LM == bi::normal_link;
   static void run(const Case &c) {
      static Pool<SE> pool; for (auto &e : pool.own) { e->in = false; e->next = 0; }
      L a, b; int k = -1;
      struct Clean { L &a, &b; ~Clean() { a.clear(); b.clear(); } } clean{a, b};
      for (int i = 0; i < 2; ++i) { L &l = i ? b : a; size_t n = pick_size(c.cfg[1 + i]); Rng r(c.cfg[3 + i]); for (size_t j = 0; j < n; ++j) l.push_front(*pool.fresh(int(r.below(c.cfg[5] % 2 ? 9 : 5000)))); }
      for (const Op &o : c.ops) {
         g().opi = ++k;
         L &l = o.a[4] & 1 ? b : a, &x = o.a[4] & 1 ? a : b; const size_t n = std::distance(l.begin(), l.end()), m = std::distance(x.begin(), x.end());
         big(n);
         auto at = [](L &q, size_t i) { It it = q.begin(); for (; i; --i) ++it; return it; };            // element i (n: the end)
         auto before = [](L &q, size_t i) { It it = q.before_begin(); for (; i; --i) ++it; return it; };  // position before element i
         tr("op %u on %zu and %zu elements\n", o.k, n, m); Meter t; bool remake = false;
         switch (o.k) {
         case Q_FILL: { size_t w = pick_size(o.a[0]); if (n + w > CAP(1000)) break; for (int q : keysfor(o, w, o.a[3] & 1)) l.push_front(*pool.fresh(q)); break; }
         case Q_ENDS: {
            if (n) { bound("front()", "link accesses", measure([&] { keep(l.front()); }).acc, K0, n); SE &e = *at(l, o.a[0] % n); bound("iterator_to()", "link accesses", measure([&] { keep(l.iterator_to(e)); keep(L::s_iterator_to(e)); }).acc, K0, n);
               if constexpr (CACHE) bound("back()", "link accesses", measure([&] { keep(l.back()); }).acc, K0, n); }
            bound("begin() to end()", "link accesses", measure([&] { keep(l.begin()); keep(l.end()); keep(l.before_begin()); keep(l.cbegin()); keep(l.cend()); keep(l.cbefore_begin()); }).acc, K0, n);
            if constexpr (CACHE) bound("last()", "link accesses", measure([&] { keep(l.last()); keep(l.clast()); }).acc, K0, n);
            bound("empty()", "link accesses", measure([&] { keep(l.empty()); }).acc, K0, n);
            bound("size()", "link accesses", measure([&] { keep(l.size()); }).acc, CTS ? K0 : KL * n + K0, n); break; }
         case Q_PUSH: { if (n > CAP(1000)) break; size_t i = o.a[0] % (n + 1); It p = before(l, i), at_i = at(l, i); SE *e = pool.fresh(int(o.a[1] % 100));
            switch (o.a[2] % 4) {
            case 0: if constexpr (CACHE) { t = measure([&] { l.push_back(*e); }); bound("push_back()", "link accesses", t.acc, K0, n); break; } else { l.push_front(*e); break; }
            case 1: t = measure([&] { l.push_front(*e); }); bound("push_front()", "link accesses", t.acc, K0, n); break;
            case 2: t = measure([&] { l.insert_after(p, *e); }); bound("insert_after()", "link accesses", t.acc, K0, n); break;
            default: if (o.a[3] % 3 == 0) { i = n; at_i = l.end(); } t = measure([&] { l.insert(at_i, *e); }); bound("insert()", "link accesses", t.acc, CACHE && i == n ? K0 : KL * i + K0, n); } break; }
         case Q_POP: { if (!n) break; size_t i = o.a[0] % n; It p = before(l, i), q = at(l, i); remake = true;
            switch (o.a[2] % 4) { case 0: t = measure([&] { l.pop_front(); }); bound("pop_front()", "link accesses", t.acc, K0, n); break; case 1: t = measure([&] { l.erase_after(p); }); bound("erase_after()", "link accesses", t.acc, K0, n); break;
            case 2: t = measure([&] { l.erase_after_and_dispose(p, Nop()); }); bound("erase_after_and_dispose()", "link accesses", t.acc, K0, n); break; default: t = measure([&] { l.erase(q); }); bound("erase()", "link accesses", t.acc, KL * i + K0, n); } break; }
         case Q_SPLICE: { size_t i = o.a[0] % (n + 1); It p = before(l, i), q = at(l, i);
            if (o.a[2] & 1) { t = measure([&] { l.splice_after(p, x); }); bound("splice_after() of a whole list", "link accesses", t.acc, CACHE || (LIN && !n) ? K0 : KL * m + K0, n + m); }
            else { t = measure([&] { l.splice(q, x); }); bound("splice() of a whole list", "link accesses", t.acc, CACHE && i == n ? K0 : KL * (i + (CACHE ? 0 : m)) + K0, n + m); } break; }
         case Q_SPLICE1: { if (!m) break; size_t i = o.a[0] % (n + 1), j = o.a[1] % m; It p = before(l, i), q = before(x, j), pi = at(l, i), qj = at(x, j);
            if (o.a[2] & 1) { t = measure([&] { l.splice_after(p, x, q); }); bound("splice_after() of one element", "link accesses", t.acc, K0, n + m); } else { t = measure([&] { l.splice(pi, x, qj); }); bound("splice() of one element", "link accesses", t.acc, KL * ((CACHE && i == n ? 0 : i) + j) + K0, n + m); } break; }
         case Q_SPLICER: case Q_SPLICEN: { size_t f = o.a[1] % (m + 1), d = o.a[2] % (m - f + 1), i = o.a[0] % (n + 1); It p = before(l, i), bf = before(x, f), bl = before(x, f + d);
            if (o.k == Q_SPLICER) { t = measure([&] { l.splice_after(p, x, bf, bl); }); bound("splice_after() of a range", "link accesses", t.acc, CTS ? KL * d + K0 : K0, n + m); }
            else { t = measure([&] { l.splice_after(p, x, bf, bl, d); }); bound("splice_after() of a counted range", "link accesses", t.acc, K0, n + m); } break; }
         case Q_SWAP: t = measure([&] { l.swap(x); }); bound("swap()", "link accesses", t.acc, LIN || CACHE ? K0 : KL * (n + m) + K0, n + m); break;
         case Q_MOVE: { t = measure([&] { L y(boost::move(l)); }); remake = true; bound("move construction and destruction", "link accesses", t.acc, normal && (LIN || CACHE) ? 2 * K0 : KL * n + 2 * K0, n); break; }
         case Q_ERANGE: case Q_ERANGEN: { size_t f = o.a[1] % (n + 1), d = o.a[2] % (n - f + 1); It q = before(l, f), e = at(l, f + d); remake = true;
            if (o.k == Q_ERANGE) { t = measure([&] { l.erase_after(q, e); }); bound("erase_after() of a range", "link accesses", t.acc, normal && !CTS ? K0 : KL * d + K0, n); }
            else { t = measure([&] { l.erase_after(q, e, d); }); bound("erase_after() of a counted range", "link accesses", t.acc, normal ? K0 : KL * d + K0, n); } break; }
         case Q_CLEAR: if (o.a[0] & 1) { t = measure([&] { l.clear(); }); bound("clear()", "link accesses", t.acc, normal ? K0 : KL * n + K0, n); } else { t = measure([&] { l.clear_and_dispose(Nop()); }); bound("clear_and_dispose()", "link accesses", t.acc, KL * n + K0, n); } remake = true; break;
         case Q_SORT: { uint64_t w = n * (lg(n) + 1); t = measure([&] { l.sort(); }); bound("sort()", "comparisons", t.cmp, 2 * w, n); bound("sort()", "link accesses", t.acc, 4 * KL * w + 20 * K0, n); break; }
         case Q_MERGE: { l.sort(); x.sort(); t = measure([&] { l.merge(x); }); bound("merge()", "comparisons", t.cmp, n + m ? n + m - 1 : 0, n + m); bound("merge()", "link accesses", t.acc, KL * (n + m) + K0, n + m); break; }
         case Q_REMOVE: { remake = true; SE v; v.key = n ? at(l, o.a[0] % n)->key : 3;
            switch (o.a[2] % 4) { case 0: t = measure([&] { l.remove(v); }); exact("remove()", "comparisons", t.eq, n, n); break; case 1: t = measure([&] { l.remove_if(Pred{int(o.a[1] % 8)}); }); exact("remove_if()", "calls of the predicate", t.pred, n, n); break;
            case 2: t = measure([&] { l.remove_and_dispose(v, Nop()); }); exact("remove_and_dispose()", "comparisons", t.eq, n, n); break; default: t = measure([&] { l.remove_and_dispose_if(Pred{int(o.a[1] % 8)}, Nop()); }); exact("remove_and_dispose_if()", "calls of the predicate", t.pred, n, n); }
            bound("remove", "link accesses", t.acc, 2 * KL * n + K0, n); break; }
         case Q_UNIQUE: { remake = true; if (o.a[1] & 1) l.sort(); if (o.a[2] & 1) { t = measure([&] { l.unique(BPred()); }); exact("unique(pred)", "calls of the predicate", t.pred, n ? n - 1 : 0, n); } else { t = measure([&] { l.unique_and_dispose(Nop()); }); exact("unique_and_dispose()", "comparisons", t.eq, n ? n - 1 : 0, n); } bound("unique", "link accesses", t.acc, 2 * KL * n + K0, n); break; }
         case Q_REVERSE: t = measure([&] { l.reverse(); }); bound("reverse()", "link accesses", t.acc, KL * n + K0, n); break;
         case Q_SHIFT: { size_t s = o.a[0] % (o.a[1] % 3 ? 6 : 2 * n + 3); t = measure([&] { if (o.a[2] & 1) l.shift_forward(s); else l.shift_backwards(s); }); bound("shift", "link accesses", t.acc, KL * (n + s) + K0, n); break; }
         case Q_INSR: case Q_ASSIGN: { size_t w = pick_size(o.a[0]); if (n + w > CAP(1200)) break; size_t i = o.a[3] % (n + 1); It p = before(l, i), q = at(l, i); std::vector<SE *> v; for (int z : keysfor(o, w, false)) v.push_back(pool.fresh(z));
            struct DI { SE **p; SE &operator*() const { return **p; } DI &operator++() { ++p; return *this; } bool operator!=(const DI &y) const { return p != y.p; } bool operator==(const DI &y) const { return p == y.p; } };
            DI f{v.data()}, e{v.data() + v.size()};
            if (o.k == Q_INSR) { if (o.a[1] & 1) { t = measure([&] { l.insert_after(p, f, e); }); bound("insert_after() of a range", "link accesses", t.acc, KL * w + K0, n); } else { t = measure([&] { l.insert(q, f, e); }); bound("insert() of a range", "link accesses", t.acc, KL * (w + (CACHE && i == n ? 0 : i)) + K0, n); } }
            else { remake = true; t = measure([&] { l.assign(f, e); }); bound("assign()", "link accesses", t.acc, KL * (w + (normal ? 0 : n)) + K0, n); } break; }
         case Q_CLONE: { if (m + n > CAP(1000)) break; std::vector<SE *> fr; for (size_t i = 0; i < m; ++i) fr.push_back(pool.fresh(0)); size_t i = 0; remake = true;
            t = measure([&] { l.clone_from(x, [&](const SE &e) { SE *q = fr[i++]; q->key = e.key; return q; }, Nop()); }); bound("clone_from()", "link accesses", t.acc, 2 * KL * (n + m) + K0, n + m); break; }
         case Q_PREV: { size_t i = o.a[0] % (n + 1); if (o.a[1] % 3 == 0) i = n; It q = at(l, i); t = measure([&] { keep(l.previous(q)); }); bound("previous()", "link accesses", t.acc, CACHE && i == n ? K0 : KL * i + K0, n); break; }
         case Q_WALK: t = measure([&] { for (It i = l.begin(); i != l.end(); ++i) keep(*i); }); bound("walking the list", "link accesses", t.acc, KL * n + K0, n); break;
         }
         if (remake) { remark(pool, a, b); for (auto &e : pool.own) if (!e->in) e->next = 0; }
         hit(int(o.k), n, m);
      }
   }
};
#endif

// ---- ordered containers -----------------------------------------------------------
enum { A_ENDS = 1, A_INS, A_HINT, A_CHECK, A_POS, A_ERASE, A_ERANGE, A_EKEY, A_FIND, A_COUNT, A_RANGE, A_CLEAR, A_SWAP, A_MOVE, A_SORTED, A_BULK, A_MERGE, A_CLONE, A_WALK, A_LEFT, A_REPL, A_REBAL, A_CONT, A_FILL, A_REMOVE };
#if PART(2) || PART(3)
struct TN { TN *p, *l, *r; int c; };
struct TT0 { typedef TN node; typedef TN *node_ptr; typedef const TN *const_node_ptr;
   static node_ptr get_parent(const_node_ptr n) { ++M.acc; return n->p; } static void set_parent(node_ptr n, node_ptr x) { ++M.acc; n->p = x; }
   static node_ptr get_left(const_node_ptr n) { ++M.acc; return n->l; } static void set_left(node_ptr n, node_ptr x) { ++M.acc; n->l = x; }
   static node_ptr get_right(const_node_ptr n) { ++M.acc; return n->r; } static void set_right(node_ptr n, node_ptr x) { ++M.acc; n->r = x; } };
struct TTrb : TT0 { typedef int color; static color get_color(const_node_ptr n) { return n->c; } static void set_color(node_ptr n, color c) { n->c = c; } static color black() { return 7; } static color red() { return 3; } };
struct TTavl : TT0 { typedef int balance; static balance get_balance(const_node_ptr n) { return n->c; } static void set_balance(node_ptr n, balance c) { n->c = c; } static balance negative() { return -5; } static balance zero() { return 0; } static balance positive() { return 9; } };
struct TE : TN, Data { unsigned pri; TE() { p = l = r = 0; c = 0; in = false; key = 0; pri = 0; } };
struct Pri { bool operator()(const TE &a, const TE &b) const { return a.pri < b.pri; } };
struct KOf { typedef int type; const int &operator()(const TE &e) const { return e.key; } };
struct Cmp { bool operator()(int a, int b) const { ++M.cmp; return a < b; } };
enum Kind { RB, AVL, SG, BS, SPLAY, TREAP };
template <Kind K, bi::link_mode_type LM, bool CTS, bool MULTI> struct TreeOf;
#define TO(K, T, SET, MSET, ...) template <bi::link_mode_type LM, bool CTS> struct TreeOf<K, LM, CTS, false> { typedef bi::SET<TE, bi::value_traits<bi::derivation_value_traits<TE, T, LM> >, bi::key_of_value<KOf>, bi::compare<Cmp> __VA_ARGS__> type; }; \
   template <bi::link_mode_type LM, bool CTS> struct TreeOf<K, LM, CTS, true> { typedef bi::MSET<TE, bi::value_traits<bi::derivation_value_traits<TE, T, LM> >, bi::key_of_value<KOf>, bi::compare<Cmp> __VA_ARGS__> type; };
#define CT , bi::constant_time_size<CTS>
#define PC , bi::constant_time_size<CTS>, bi::priority<Pri>
TO(RB, TTrb, set, multiset, CT) TO(AVL, TTavl, avl_set, avl_multiset, CT) TO(SG, TT0, sg_set, sg_multiset) TO(BS, TT0, bs_set, bs_multiset, CT) TO(SPLAY, TT0, splay_set, splay_multiset, CT) TO(TREAP, TT0, treap_set, treap_multiset, PC)
template <Kind K, bi::link_mode_type LM, bool CTS, bool MULTI> struct TreeCost {
   typedef typename TreeOf<K, LM, CTS, MULTI>::type T; typedef typename T::iterator It;
   static const bool normal = LM == bi::normal_link, cts = CTS || K == SG;
   static const bool logd = K == RB || K == AVL || K == SG || K == TREAP;     // the depth is logarithmic
   static const bool logu = K == RB || K == AVL;                             // ... after every single update at logarithmic cost
   static const bool readonly = K != SPLAY;
   static uint64_t LC(size_t n) { return (K == TREAP ? 8 : 4) * lg(n) + 10; }      // comparisons of one search
   static uint64_t LA(size_t n) { return (K == TREAP ? 160 : 60) * lg(n) + K0; }   // accesses of one search or update
   struct DI { TE **p; TE &operator*() const { return **p; } DI &operator++() { ++p; return *this; } bool operator!=(const DI &y) const { return p != y.p; } bool operator==(const DI &y) const { return p == y.p; } };
   static void ins(T &t, TE &e) { t.insert(e); }
   static void run(const Case &c) {
      static std::vector<std::unique_ptr<TE> > own; for (auto &e : own) { e->in = false; e->p = e->l = e->r = 0; }
      size_t nf = 0; Rng pr(c.cfg[7]);
      auto fresh = [&](int key) -> TE * { for (size_t i = 0; i < own.size(); ++i) { TE *e = own[(nf + i) % own.size()].get(); if (!e->in) { nf = (nf + i + 1) % own.size(); e->key = key; e->pri = pr.u32(); e->in = true; e->p = e->l = e->r = 0; return e; } }
         own.emplace_back(new TE); TE *e = own.back().get(); enlist(e); e->key = key; e->pri = pr.u32(); e->in = true; return e; };
      T a, b; int k = -1; const uint32_t range = c.cfg[5] % 3 == 0 ? 60 : 100000;
      struct Clean { T &a, &b; ~Clean() { a.clear(); b.clear(); } } clean{a, b};
      auto fill = [&](T &t, size_t n, uint32_t how, uint32_t seed) { Rng r(seed); for (size_t j = 0; j < n; ++j) { int q = how % 4 == 0 ? int(j * 3) : how % 4 == 1 ? int((n - j) * 3) : int(r.below(range)); TE *e = fresh(q); if constexpr (MULTI) t.insert(*e); else if (!t.insert(*e).second) e->in = false; } };
      for (int i = 0; i < 2; ++i) fill(i ? b : a, pick_size(c.cfg[1 + i]) / (K == BS || K == SPLAY ? THIN(3) : 1), c.cfg[6] >> (2 * i), c.cfg[3 + i]);
      for (const Op &o : c.ops) {
         g().opi = ++k;
         T &t = o.a[4] & 1 ? b : a, &x = o.a[4] & 1 ? a : b; const size_t n = std::distance(t.begin(), t.end()), m = std::distance(x.begin(), x.end()); big(n);
         auto at = [](T &q, size_t i) { It it = q.begin(); for (; i; --i) ++it; return it; };
         tr("op %u on %zu and %zu elements\n", o.k, n, m); Meter r; bool remake = false; const int key = n && o.a[3] % 3 ? at(t, o.a[0] % n)->key + int(o.a[1] % 3) - 1 : int(o.a[1] % range);
         auto logc = [&](const char *w, uint64_t v, size_t nn, uint64_t f) { if (logd) bound(w, "comparisons", v, f * LC(nn), nn); };
         auto loga = [&](const char *w, uint64_t v, size_t nn, uint64_t extra, bool upd) { if (upd ? logu : logd) bound(w, "link accesses", v, 2 * LA(nn) + extra, nn); };
         auto present = [&](int q) { for (TE &e : t) if (e.key == q) return true; return false; };
         switch (o.k) {
         case A_FILL: if (n < CAP(900)) fill(t, pick_size(o.a[0]) / (K == BS || K == SPLAY ? THIN(5) : 1), o.a[1], o.a[2]); break;
         case A_ENDS: {
            bound("begin() to rend()", "link accesses", measure([&] { keep(t.begin()); keep(t.end()); keep(t.rbegin()); keep(t.rend()); keep(t.cbegin()); keep(t.crend()); keep(t.root()); }).acc, K0, n); bound("empty()", "link accesses", measure([&] { keep(t.empty()); }).acc, K0, n);
            bound("size()", "link accesses", measure([&] { keep(t.size()); }).acc, cts ? K0 : KL * n + K0, n);
            if constexpr (K == TREAP) bound("top()", "link accesses", measure([&] { keep(t.top()); }).acc, K0, n);
            bound("container_from_end_iterator()", "link accesses", measure([&] { keep(T::container_from_end_iterator(t.end())); }).acc, K0, n);
            if (n) { TE &e = *at(t, o.a[0] % n); bound("iterator_to()", "link accesses", measure([&] { keep(t.iterator_to(e)); keep(T::s_iterator_to(e)); }).acc, K0, n); } break; }
         case A_INS: { if (n > CAP(1000)) break; TE *e = fresh(key); r = measure([&] { t.insert(*e); }); remake = !MULTI; logc("insert()", r.cmp, n, 1); loga("insert()", r.acc, n, 0, true); break; }
         case A_HINT: case A_CHECK: { if (K == SPLAY || n > CAP(1000) || (!MULTI && present(key))) break; TE *e = fresh(key); It h = t.begin(); while (h != t.end() && (MULTI && (o.a[2] & 1) ? h->key < key : h->key <= key)) ++h;
            if constexpr (MULTI) { r = measure([&] { t.insert(h, *e); }); bound("insert() with the right hint", "comparisons", r.cmp, 8, n); }
            else if (o.k == A_HINT) { r = measure([&] { t.insert(h, *e); }); bound("insert() with the right hint", "comparisons", r.cmp, 6, n); }
            else if constexpr (K == TREAP) { r = measure([&] { t.insert(h, *e); }); bound("insert() with the right hint", "comparisons", r.cmp, 6, n); }
            else { typename T::insert_commit_data d; if (o.a[1] & 1) { r = measure([&] { t.insert_check(h, key, d); }); bound("insert_check() with the right hint", "comparisons", r.cmp, 6, n); bound("insert_check() with the right hint", "link accesses", r.acc, logd ? LA(n) : KL * n + K0, n); } else { r = measure([&] { t.insert_check(key, d); }); logc("insert_check()", r.cmp, n, 1); }
               r = measure([&] { t.insert_commit(*e, d); }); bound("insert_commit()", "comparisons", r.cmp, 0, n); }
            loga("insertion at a known position", r.acc, n, 0, true); break; }
         case A_POS: { if (n > CAP(1000)) break; int q = n ? (o.a[2] & 1 ? at(t, 0)->key - 1 : at(t, n - 1)->key + 1) : key; TE *e = fresh(q); It h = o.a[2] & 1 ? t.begin() : t.end();
            r = measure([&] { if (o.a[3] & 1) t.insert_before(h, *e); else if (o.a[2] & 1) t.push_front(*e); else t.push_back(*e); }); bound("positional insertion", "comparisons", r.cmp, 0, n); loga("positional insertion", r.acc, n, 0, true); if (K == BS) bound("positional insertion", "link accesses", r.acc, K0, n); break; }
         case A_ERASE: { if (!n) break; remake = true; It it = at(t, o.a[0] % n); r = measure([&] { if (o.a[2] & 1) t.erase(it); else t.erase_and_dispose(it, Nop()); }); bound("erase(iterator)", "comparisons", r.cmp, 0, n); loga("erase(iterator)", r.acc, n, 0, true); break; }
         case A_ERANGE: { remake = true; size_t f = o.a[0] % (n + 1), d = o.a[1] % (n - f + 1); It i = at(t, f), j = at(t, f + d); r = measure([&] { if (o.a[2] & 1) t.erase(i, j); else t.erase_and_dispose(i, j, Nop()); }); bound("erase() of a range", "comparisons", r.cmp, 0, n); loga("erase() of a range", r.acc, n, d * LA(n), true); break; }
         case A_EKEY: { remake = true; size_t q = 0; r = measure([&] { q = o.a[2] & 1 ? t.erase(key) : t.erase_and_dispose(key, Nop()); }); logc("erase(key)", r.cmp, n, 2); loga("erase(key)", r.acc, n, q * LA(n), true); break; }
         case A_FIND: { const T &ct = t;
            switch (o.a[2] % 4) { case 0: r = measure([&] { keep(ct.find(key)); }); logc("find()", r.cmp, n, 1); loga("find()", r.acc, n, 0, false); break; case 1: r = measure([&] { keep(ct.lower_bound(key)); }); logc("lower_bound()", r.cmp, n, 1); loga("lower_bound()", r.acc, n, 0, false); break;
            case 2: r = measure([&] { keep(ct.upper_bound(key)); }); logc("upper_bound()", r.cmp, n, 1); loga("upper_bound()", r.acc, n, 0, false); break; default: r = measure([&] { keep(ct.equal_range(key)); }); logc("equal_range()", r.cmp, n, 2); loga("equal_range()", r.acc, n, 0, false); } break; }
         case A_COUNT: { const T &ct = t; size_t q = 0; r = measure([&] { q = ct.count(key); }); logc("count()", r.cmp, n, 2); loga("count()", r.acc, n, KL * q, false); break; }
         case A_RANGE: { const T &ct = t; r = measure([&] { keep(ct.bounded_range(key, key + int(o.a[2] % range), o.a[3] & 1, (o.a[3] & 2) || !(o.a[3] & 1))); }); logc("bounded_range()", r.cmp, n, 2); loga("bounded_range()", r.acc, n, 0, false); break; }
         case A_CLEAR: remake = true; if (o.a[0] & 1) { r = measure([&] { t.clear(); }); bound("clear()", "link accesses", r.acc, normal ? K0 : KL * n + K0, n); } else { r = measure([&] { t.clear_and_dispose(Nop()); }); bound("clear_and_dispose()", "link accesses", r.acc, KL * n + K0, n); } bound("clear()", "comparisons", r.cmp, 0, n); break;
         case A_SWAP: r = measure([&] { t.swap(x); }); bound("swap()", "link accesses", r.acc, K0, n + m); break;
         case A_MOVE: r = measure([&] { T y(boost::move(t)); t = boost::move(y); }); bound("move construction and assignment", "link accesses", r.acc, 2 * K0, n); break;
         case A_SORTED: { remake = true; size_t w = pick_size(o.a[0]) / (K == BS ? THIN(4) : 1); if (n + w > CAP(1200)) break; int base = n ? at(t, n - 1)->key + 1 : 0; if (base > 1000000000) break; std::vector<TE *> v; Rng q(o.a[1]); for (size_t i = 0; i < w; ++i) { base += int(q.below(3)); if (!MULTI) ++base; v.push_back(fresh(base)); }
            r = measure([&] { t.insert(DI{v.data()}, DI{v.data() + w}); }); if (K != SPLAY && (MULTI || !n)) bound("insertion of a sorted range at the end", "comparisons", r.cmp, 4 * w, n + w); if (logu || (K == BS && !n)) bound("insertion of a sorted range at the end", "link accesses", r.acc, (K == BS ? 4 : 8) * KL * w + K0, n + w); break; }
         case A_BULK: { remake = true; size_t w = pick_size(o.a[0]) / (K == BS || K == SPLAY ? THIN(4) : 1); if (n + w > CAP(1200)) break; std::vector<TE *> v; Rng q(o.a[1]); for (size_t i = 0; i < w; ++i) v.push_back(fresh(int(q.below(range)))); r = measure([&] { t.insert(DI{v.data()}, DI{v.data() + w}); }); if (logd) bound("insertion of a range", "comparisons", r.cmp, w * (LC(n + w) + 4), n + w); break; }
         case A_MERGE: if (n + m > CAP(1200)) break; r = measure([&] { t.merge(x); }); if (logd) bound("merge()", "comparisons", r.cmp, m * (LC(n + m) + 4), n + m); if (logu) bound("merge()", "link accesses", r.acc, m * 3 * LA(n + m) + K0, n + m); break;
         case A_CLONE: { remake = true; if (n + m > CAP(1000)) break; std::vector<TE *> fr; for (size_t i = 0; i < m; ++i) fr.push_back(fresh(0)); size_t i = 0; r = measure([&] { t.clone_from(x, [&](const TE &e) { TE *q = fr[i++]; q->key = e.key; q->pri = e.pri; return q; }, Nop()); }); bound("clone_from()", "comparisons", r.cmp, 0, n + m); bound("clone_from()", "link accesses", r.acc, 3 * KL * (n + m) + K0, n + m); break; }
         case A_WALK: r = measure([&] { for (It i = t.begin(); i != t.end(); ++i) keep(*i); for (auto i = t.rbegin(); i != t.rend(); ++i) keep(*i); }); bound("walking the container both ways", "link accesses", r.acc, 2 * KL * n + K0, n); break;
         case A_LEFT: if constexpr (K != SG && K != TREAP) { if (!n) break; remake = true; r = measure([&] { keep(t.unlink_leftmost_without_rebalance()); }); loga("unlink_leftmost_without_rebalance()", r.acc, n, 0, true); size_t i = 0; while (!t.empty()) { ++i; t.unlink_leftmost_without_rebalance(); } t.clear(); keep(i); } break;
         case A_REPL: { if (!n) break; remake = true; It it = at(t, o.a[0] % n); TE *e = fresh(it->key); e->pri = it->pri; r = measure([&] { t.replace_node(it, *e); }); bound("replace_node()", "link accesses", r.acc, K0, n); break; }
         case A_REBAL: if constexpr (K == BS || K == SG || K == SPLAY) { r = measure([&] { t.rebalance(); }); bound("rebalance()", "link accesses", r.acc, 5 * KL * n + 2 * K0, n); bound("rebalance()", "comparisons", r.cmp, 0, n); } break;
         case A_CONT: { if (!n) break; It it = at(t, o.a[0] % n); r = measure([&] { keep(T::container_from_iterator(it)); }); loga("container_from_iterator()", r.acc, n, 0, false); break; }
         }
         if (remake) { for (auto &e : own) e->in = false; for (TE &e : a) e.in = true; for (TE &e : b) e.in = true; }
         hit(int(o.k), n, m);
      }
   }
};
#endif

// ---- unordered containers ---------------------------------------------------------
enum { U_ENDS = 1, U_INS, U_CHECK, U_FIND, U_COUNT, U_RANGE, U_ERASE, U_EKEY, U_CLEAR, U_SWAP, U_REHASH, U_FULL, U_INCR, U_CLONE, U_WALK, U_LOCAL, U_FILL };
#if PART(4) || PART(5)
struct UN { UN *next, *grp; size_t h; };
template <bool SH, bool OM> struct UT { typedef UN node; typedef UN *node_ptr; typedef const UN *const_node_ptr;
   static const bool store_hash = SH, optimize_multikey = OM;
   static node_ptr get_next(const_node_ptr n) { ++M.acc; return n->next; } static void set_next(node_ptr n, node_ptr m) { ++M.acc; n->next = m; }
   static node_ptr get_prev_in_group(const_node_ptr n) { ++M.acc; return n->grp; } static void set_prev_in_group(node_ptr n, node_ptr m) { ++M.acc; n->grp = m; }
   static size_t get_hash(const_node_ptr n) { return n->h; } static void set_hash(node_ptr n, size_t h) { n->h = h; } };
struct UE : UN, Data { UE() { next = grp = 0; h = 0; in = false; key = 0; } };
struct UKOf { typedef int type; const int &operator()(const UE &e) const { return e.key; } };
struct HF { int m; HF(int mm = 0) : m(mm) {} size_t operator()(int k) const { ++M.hash; return m == 0 ? size_t(k) * 0x9E3779B97F4A7C15ull >> 20 : m == 1 ? size_t(k % 50) * 1000003u : size_t(k); } };
struct UEq { bool operator()(int a, int b) const { ++M.eq; return a == b; } };
template <bool SH, bool OM, bi::link_mode_type LM, bool CTS, bool CB, bool CH, bool LB, bool P2, bool INC, bool MULTI> struct HashCost {
   typedef bi::derivation_value_traits<UE, UT<SH, OM>, LM> VT;
   template <template <class...> class C> struct Of { typedef C<UE, bi::value_traits<VT>, bi::key_of_value<UKOf>, bi::hash<HF>, bi::equal<UEq>, bi::constant_time_size<CTS>, bi::cache_begin<CB>, bi::compare_hash<CH>, bi::linear_buckets<LB>, bi::power_2_buckets<P2>, bi::incremental<INC> > type; };
   template <class...A> struct SetA : bi::unordered_set<A...> {}; 
   typedef typename std::conditional<MULTI, bi::unordered_multiset<UE, bi::value_traits<VT>, bi::key_of_value<UKOf>, bi::hash<HF>, bi::equal<UEq>, bi::constant_time_size<CTS>, bi::cache_begin<CB>, bi::compare_hash<CH>, bi::linear_buckets<LB>, bi::power_2_buckets<P2>, bi::incremental<INC> >,
      bi::unordered_set<UE, bi::value_traits<VT>, bi::key_of_value<UKOf>, bi::hash<HF>, bi::equal<UEq>, bi::constant_time_size<CTS>, bi::cache_begin<CB>, bi::compare_hash<CH>, bi::linear_buckets<LB>, bi::power_2_buckets<P2>, bi::incremental<INC> > >::type T;
   typedef typename T::bucket_traits BT; typedef typename T::iterator It;
   static const bool normal = LM == bi::normal_link;
   static size_t count_of(uint32_t r) { size_t n = 1 + r % (r % 3 ? 400 : 20); if (P2) { size_t p = 1; while (p * 2 <= n) p *= 2; n = p; } return n; }
   static void run(const Case &c) {
      static std::vector<std::unique_ptr<UE> > own; for (auto &e : own) { e->in = false; e->next = e->grp = 0; }
      size_t nf = 0;
      auto fresh = [&](int key) -> UE * { for (size_t i = 0; i < own.size(); ++i) { UE *e = own[(nf + i) % own.size()].get(); if (!e->in) { nf = (nf + i + 1) % own.size(); e->key = key; e->in = true; e->next = e->grp = 0; return e; } } own.emplace_back(new UE); UE *e = own.back().get(); enlist(e); e->key = key; e->in = true; return e; };
      static typename T::bucket_type bk[3][513]; int cur[2] = {0, 1}, spare = 2;
      const HF hf(int(c.cfg[6] % 3)); T a(BT(bk[0], count_of(c.cfg[1]) + LB), hf), b(BT(bk[1], count_of(c.cfg[2]) + LB), hf); int k = -1; const uint32_t range = c.cfg[5] % 3 == 0 ? 60 : 100000;
      struct Clean { T &a, &b; ~Clean() { a.clear(); b.clear(); } } clean{a, b};
      auto fill = [&](T &t, size_t n, uint32_t seed) { Rng r(seed); for (size_t j = 0; j < n; ++j) { UE *e = fresh(int(r.below(range))); if constexpr (MULTI) t.insert(*e); else if (!t.insert(*e).second) e->in = false; } };
      for (int i = 0; i < 2; ++i) fill(i ? b : a, pick_size(c.cfg[3 + i]), c.cfg[7] + unsigned(i));
      for (const Op &o : c.ops) {
         g().opi = ++k; const int wi = int(o.a[4] & 1);
         T &t = wi ? b : a, &x = wi ? a : b; const size_t n = std::distance(t.begin(), t.end()), m = std::distance(x.begin(), x.end()), bc = t.bucket_count(); big(n);
         auto at = [](T &q, size_t i) { It it = q.begin(); for (; i; --i) ++it; return it; };
         tr("op %u on %zu and %zu elements, %zu buckets\n", o.k, n, m, bc); Meter r; bool remake = false; const int key = n && o.a[3] % 4 ? at(t, o.a[0] % n)->key : int(o.a[1] % range);
         const size_t bn = t.bucket(key); size_t occ = 0, same = 0, groups = 0; { int last = -1; const size_t kh = hf(key); for (auto i = t.begin(bn); i != t.end(bn); ++i) { ++occ; if (hf(i->key) == kh) ++same; if (i->key != last) { ++groups; last = i->key; } } size_t e2 = CH && SH ? same : occ; (void)e2; }
         const uint64_t eqmax = (OM ? (CH && SH ? std::min(groups, same) : groups) : (CH && SH ? same : occ)) + 0;   // candidates in the bucket
         auto eqb = [&](const char *w, uint64_t v, uint64_t extra) { bound(w, "calls of the equality", v, eqmax + extra, n); };
         auto hb = [&](const char *w, uint64_t v, uint64_t lim) { bound(w, "calls of the hash function", v, lim, n); };
         auto ab = [&](const char *w, uint64_t v, uint64_t extra) { bound(w, "link accesses", v, KL * occ + K0 + extra, n); };
         switch (o.k) {
         case U_FILL: if (n < CAP(900)) fill(t, pick_size(o.a[0]), o.a[2]); break;
         case U_ENDS: {
            bound("size()", "link accesses", measure([&] { keep(t.size()); }).acc, CTS ? K0 : KL * (n + bc) + K0, n); bound("empty()", "link accesses", measure([&] { keep(t.empty()); }).acc, CTS || CB ? K0 : 8 * bc + K0, n); bound("end()", "link accesses", measure([&] { keep(t.end()); }).acc, K0, n);
            bound("begin()", "link accesses", measure([&] { keep(t.begin()); }).acc, CB ? K0 : 8 * bc + K0, n); hb("begin()", measure([&] { keep(t.begin()); keep(t.end()); keep(t.size()); keep(t.empty()); }).hash, 0);
            if (n) { UE &e = *at(t, o.a[0] % n); r = measure([&] { keep(t.iterator_to(e)); keep(t.local_iterator_to(e)); }); bound("iterator_to()", "link accesses", r.acc, K0, n); hb("iterator_to()", r.hash, SH ? 0 : 1); } break; }
         case U_INS: { if (n > CAP(1000)) break; UE *e = fresh(key); r = measure([&] { t.insert(*e); }); remake = !MULTI; hb("insert()", r.hash, 1); eqb("insert()", r.eq, 0); ab("insert()", r.acc, 0); break; }
         case U_CHECK: if constexpr (!MULTI) { if (n > CAP(1000)) break; UE *e = fresh(key); remake = true; typename T::insert_commit_data d; bool ok = false; r = measure([&] { ok = t.insert_check(key, d).second; }); hb("insert_check()", r.hash, 1); eqb("insert_check()", r.eq, 0); ab("insert_check()", r.acc, 0);
            if (ok) { bool fast = o.a[2] & 1; r = measure([&] { if (fast) t.insert_fast_commit(*e, d); else t.insert_commit(*e, d); }); hb("insert_commit()", r.hash, 0); eqb("insert_commit()", r.eq, 0); bound("insert_commit()", "calls of the equality", r.eq, 0, n); bound("insert_commit()", "link accesses", r.acc, K0, n); } } break;
         case U_FIND: r = measure([&] { keep(const_cast<const T &>(t).find(key)); }); hb("find()", r.hash, 1); eqb("find()", r.eq, 0); ab("find()", r.acc, 0); break;
         case U_COUNT: r = measure([&] { keep(t.count(key)); }); hb("count()", r.hash, 1); eqb("count()", r.eq, 1); ab("count()", r.acc, 0); break;
         case U_RANGE: r = measure([&] { keep(t.equal_range(key)); }); hb("equal_range()", r.hash, 1); eqb("equal_range()", r.eq, 1); ab("equal_range()", r.acc, 8 * bc); break;
         case U_ERASE: { if (!n) break; remake = true; It it = t.begin(); { size_t q = o.a[0] % n; for (; q; --q) ++it; } size_t oc = 0; { size_t bb = t.bucket(it->key); for (auto i = t.begin(bb); i != t.end(bb); ++i) ++oc; } r = measure([&] { if (o.a[2] & 1) t.erase(it); else t.erase_and_dispose(it, Nop()); });
            hb("erase(iterator)", r.hash, SH ? 0 : 1); bound("erase(iterator)", "calls of the equality", r.eq, 0, n); bound("erase(iterator)", "link accesses", r.acc, KL * oc + 8 * bc + K0, n); break; }
         case U_EKEY: { remake = true; r = measure([&] { if (o.a[2] & 1) t.erase(key); else t.erase_and_dispose(key, Nop()); }); hb("erase(key)", r.hash, 1); eqb("erase(key)", r.eq, 1); ab("erase(key)", r.acc, 8 * bc); break; }
         case U_CLEAR: remake = true; if (o.a[0] & 1) { r = measure([&] { t.clear(); }); bound("clear()", "link accesses", r.acc, KL * ((normal ? 0 : n) + bc) + K0, n); } else { r = measure([&] { t.clear_and_dispose(Nop()); }); bound("clear_and_dispose()", "link accesses", r.acc, KL * (n + bc) + K0, n); } hb("clear()", r.hash, 0); break;
         case U_SWAP: r = measure([&] { t.swap(x); }); std::swap(cur[0], cur[1]); bound("swap()", "link accesses", r.acc, K0, n + m); hb("swap()", r.hash, 0); break;
         case U_REHASH: { if (INC && false) break; size_t nb = count_of(o.a[1]); bool own_arr = false; int dst = own_arr ? cur[wi] : spare; r = measure([&] { t.rehash(BT(bk[dst], nb + LB)); }); std::swap(cur[wi], spare); hb("rehash()", r.hash, SH ? 0 : 2 * n); bound("rehash()", "calls of the equality", r.eq, 0, n); bound("rehash()", "link accesses", r.acc, 2 * KL * (n + bc + nb) + K0, n); break; }
         case U_FULL: r = measure([&] { t.full_rehash(); }); hb("full_rehash()", r.hash, 2 * n); bound("full_rehash()", "calls of the equality", r.eq, 0, n); bound("full_rehash()", "link accesses", r.acc, 2 * KL * (n + 2 * bc) + K0, n); break;
         case U_INCR: if constexpr (INC) { size_t most = 0; for (size_t i = 0; i < bc; ++i) { size_t q = 0; for (auto z = t.begin(i); z != t.end(i); ++z) ++q; if (q > most) most = q; } r = measure([&] { keep(t.incremental_rehash(bool(o.a[0] & 1))); }); hb("incremental_rehash()", r.hash, SH ? 0 : 2 * most); bound("incremental_rehash()", "link accesses", r.acc, 2 * KL * most + 8 * bc + K0, n); } break;
         case U_CLONE: { remake = true; if (n + m > CAP(1000)) break; std::vector<UE *> fr; for (size_t i = 0; i < m; ++i) fr.push_back(fresh(0)); size_t i = 0; r = measure([&] { t.clone_from(x, [&](const UE &e) { UE *q = fr[i++]; q->key = e.key; return q; }, Nop()); }); hb("clone_from()", r.hash, SH ? 0 : m); bound("clone_from()", "link accesses", r.acc, 3 * KL * (n + m + bc + x.bucket_count()) + K0, n + m); break; }
         case U_WALK: r = measure([&] { for (It i = t.begin(); i != t.end(); ++i) keep(*i); }); hb("walking the container", r.hash, LB || SH || true ? (LB || SH ? 0 : n) : 0); bound("walking the container", "link accesses", r.acc, KL * n + 8 * bc + K0, n); break;
         case U_LOCAL: r = measure([&] { keep(t.bucket_size(bn)); keep(t.begin(bn)); keep(t.end(bn)); }); ab("bucket_size()", r.acc, 0); hb("bucket_size()", r.hash, 0); r = measure([&] { keep(t.bucket(key)); }); hb("bucket()", r.hash, 1); bound("bucket()", "link accesses", r.acc, K0, n); break;
         }
         if (remake) { for (auto &e : own) e->in = false; for (UE &e : a) e.in = true; for (UE &e : b) e.in = true; }
         hit(int(o.k), n, m);
      }
   }
};
#endif

template <class F> static void add(const char *n) { configs().push_back(Config{n, &F::run}); }
static void profile(const std::string &, Profile &p) {
   p.maxlen_sel = 2;
#if PART(0) || PART(1)
   for (int i = Q_ENDS; i <= Q_FILL; ++i) p.weight[i] = 10; p.weight[Q_FILL] = 25; p.weight[Q_CLEAR] = 3; p.weight[Q_ERANGE] = 6; p.weight[Q_ASSIGN] = 5;
#elif PART(2) || PART(3)
   for (int i = A_ENDS; i <= A_FILL; ++i) p.weight[i] = 10; p.weight[A_FILL] = 25; p.weight[A_CLEAR] = 3; p.weight[A_LEFT] = 3; p.weight[A_FIND] = 30; p.weight[A_HINT] = 20;
#else
   for (int i = U_ENDS; i <= U_FILL; ++i) p.weight[i] = 10; p.weight[U_FILL] = 25; p.weight[U_CLEAR] = 3; p.weight[U_FIND] = 20; p.weight[U_INCR] = 30;
#endif
}
int main(int argc, char **argv) {
#if PART(0)
   add<ListCost<bi::normal_link, true> >("list normal counted"); add<ListCost<bi::normal_link, false> >("list normal"); add<ListCost<bi::safe_link, true> >("list safe counted"); add<ListCost<bi::safe_link, false> >("list safe");
#endif
#if PART(1)
   add<SlistCost<bi::normal_link, true, false, false> >("slist normal counted"); add<SlistCost<bi::normal_link, false, false, true> >("slist normal last"); add<SlistCost<bi::normal_link, false, true, false> >("slist normal linear"); add<SlistCost<bi::normal_link, true, true, true> >("slist normal counted linear last");
   add<SlistCost<bi::safe_link, true, false, true> >("slist safe counted last"); add<SlistCost<bi::safe_link, false, true, true> >("slist safe linear last"); add<SlistCost<bi::safe_link, false, false, false> >("slist safe"); add<SlistCost<bi::normal_link, false, false, false> >("slist normal plain");
#endif
#if PART(2)
   add<TreeCost<RB, bi::normal_link, true, false> >("set normal counted"); add<TreeCost<RB, bi::safe_link, false, true> >("multiset safe"); add<TreeCost<AVL, bi::normal_link, false, true> >("avl_multiset normal"); add<TreeCost<AVL, bi::safe_link, true, false> >("avl_set safe counted"); add<TreeCost<SG, bi::normal_link, true, false> >("sg_set normal"); add<TreeCost<SG, bi::safe_link, true, true> >("sg_multiset safe");
#endif
#if PART(3)
   add<TreeCost<BS, bi::normal_link, true, true> >("bs_multiset normal counted"); add<TreeCost<BS, bi::safe_link, false, false> >("bs_set safe"); add<TreeCost<SPLAY, bi::normal_link, false, false> >("splay_set normal"); add<TreeCost<SPLAY, bi::safe_link, true, true> >("splay_multiset safe counted"); add<TreeCost<TREAP, bi::normal_link, true, true> >("treap_multiset normal counted"); add<TreeCost<TREAP, bi::safe_link, false, false> >("treap_set safe");
#endif
#define N_ bi::normal_link
#define S_ bi::safe_link
#if PART(4)
   add<HashCost<false, false, N_, true, false, false, false, false, false, false> >("unordered_set normal counted"); add<HashCost<true, false, S_, false, true, true, false, true, false, false> >("unordered_set safe stored compared cache power2"); add<HashCost<true, false, N_, true, false, false, true, true, true, false> >("unordered_set normal stored linear incremental");
#endif
#if PART(5)
   add<HashCost<false, false, S_, true, true, false, false, true, true, true> >("unordered_multiset safe counted cache incremental"); add<HashCost<true, true, N_, false, false, true, false, false, false, true> >("unordered_multiset normal multikey stored compared"); add<HashCost<false, true, N_, true, false, false, true, false, false, true> >("unordered_multiset normal counted multikey linear");
#endif
#ifdef VF_FOOT
   __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
   engine() = {"foot", profile};
#else
   engine() = {"cost", profile};
#endif
   return harness_main(argc, argv);
}
