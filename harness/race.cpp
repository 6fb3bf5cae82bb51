// C27: containers with different elements do not touch each other, and reading writes nothing (the documented thread safety).
// Every world (two containers, their elements and buckets) lives in pages of its own. While an operation runs on one world the pages of the
// others are inaccessible; while a read-only operation runs, its own pages are read-only. Any store, or any load from a foreign world, faults.
// Objects with static storage duration are compared before and after: shared mutable state would be a race between different containers.
#include "common.hpp"
#include <new>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
namespace bi = boost::intrusive;
using namespace vf;
#define PART(n) (VF_PART < 0 || VF_PART == (n))
extern "C" char __data_start, _end;

// ---- worlds -------------------------------------------------------------------
static const int NW = 3;
static const size_t WB = 256 * 1024;
static char *arena[NW];
static volatile int guard_op; static const char *volatile guard_what = "";
static void on_segv(int, siginfo_t *si, void *) {
   char b[512]; int w = -1; for (int i = 0; i < NW; ++i) if ((char *)si->si_addr >= arena[i] && (char *)si->si_addr < arena[i] + WB) w = i;
   int n = w >= 0 ? snprintf(b, sizeof b, "\nORACLE-FAIL op#%d: %s: a load or store in memory that it may not touch (world %d)\n", g().opi, guard_what, w)
                  : snprintf(b, sizeof b, "\nORACLE-FAIL op#%d: %s: invalid memory access\n", g().opi, guard_what);
   ssize_t r = write(1, b, size_t(n)); (void)r; _exit(77);
}
static void setup() {
   if (arena[0]) return;
   for (int i = 0; i < NW; ++i) arena[i] = (char *)mmap(0, WB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
}
static void prot(int w, int p) { if (mprotect(arena[w], WB, p)) { perror("mprotect"); _exit(2); } }
static std::vector<char> &snap() { static std::vector<char> *v = new std::vector<char>(size_t(&_end - &__data_start)); return *v; }
static std::vector<unsigned char> &dirty() { static std::vector<unsigned char> *v = new std::vector<unsigned char>(size_t(&_end - &__data_start)); return *v; }
// run f with access (0 none, 1 read, 2 write) to each world
template <class F> static void guarded(const char *what, const int (&acc)[NW], F f) {
   std::vector<char> &s = snap(); std::vector<unsigned char> &d = dirty();
   static const int pr[3] = {PROT_NONE, PROT_READ, PROT_READ | PROT_WRITE};
   guard_what = what; tr("%s\n", what);
   for (int i = 0; i < NW; ++i) if (acc[i] != 2) prot(i, pr[acc[i]]);
   memcpy(s.data(), &__data_start, s.size());
   f();
   const bool same = memcmp(s.data(), &__data_start, s.size()) == 0;
   for (int i = 0; i < NW; ++i) if (acc[i] != 2) prot(i, PROT_READ | PROT_WRITE);
   if (!same) for (size_t i = 0; i < s.size(); ++i) if (s[i] != (&__data_start)[i] && ++d[i] > 1)   // (once is the initialization of a constant)
      fail("%s: modified an object with static storage duration, which all containers share", what);
}
template <class F> static void ro(const char *what, int w, F f) { int a[NW] = {0, 0, 0}; a[w] = 1; guarded(what, a, f); }
template <class F> static void rw(const char *what, int w, F f) { int a[NW] = {0, 0, 0}; a[w] = 2; guarded(what, a, f); }
template <class F> static void ro2(const char *what, int w, int v, F f) { int a[NW] = {0, 0, 0}; a[w] = 1; a[v] = 1; guarded(what, a, f); }
template <class F> static void wr2(const char *what, int w, int v, F f) { int a[NW] = {0, 0, 0}; a[v] = 1; a[w] = 2; guarded(what, a, f); }
template <class T> static void keep(const T &t) { asm volatile("" : : "g"(&t) : "memory"); }
static void keepv(size_t v) { asm volatile("" : : "r"(v)); }

template <class C, class E> struct World {
   int w; C *c[2]; char *top; std::vector<E *> all;   // (the vector is the harness's)
   unsigned char *in;
   static const size_t MAXE = 120;
   template <class Make> World(int i, Make mk) : w(i), top(arena[i]) {
      for (int k = 0; k < 2; ++k) { c[k] = mk(take(sizeof(C), 64), *this, k); }
      for (size_t k = 0; k < MAXE; ++k) { E *e = new (take(sizeof(E), 64)) E; e->key = 0; e->in = false; e->id = unsigned(k); all.push_back(e); }
   }
   void *take(size_t n, size_t al) { top = (char *)((uintptr_t(top) + al - 1) / al * al); void *p = top; top += n; if (top > arena[w] + WB) { fprintf(stderr, "arena full\n"); _exit(2); } return p; }
   E *fresh(int key, unsigned r) { for (size_t k = 0; k < all.size(); ++k) { E *e = all[(k + r) % all.size()]; if (!e->in) { e->in = true; e->key = key; return e; } } return 0; }
   // (the harness reads the containers with their own pages read-only, so that it cannot hide a write by updating something first)
   void remark() { std::vector<E *> live; live.reserve(2 * MAXE); prot(w, PROT_READ); for (int k = 0; k < 2; ++k) for (E &e : *c[k]) live.push_back(&e); prot(w, PROT_READ | PROT_WRITE); for (E *e : all) e->in = false; for (E *e : live) e->in = true; }
   size_t len(C &x) { guard_what = "walking a container"; prot(w, PROT_READ); size_t n = 0; for (auto i = x.begin(), e = x.end(); i != e; ++i) ++n; prot(w, PROT_READ | PROT_WRITE); return n; }
   typename C::iterator at(C &x, size_t i) { guard_what = "walking a container"; prot(w, PROT_READ); typename C::iterator it = x.begin(); for (; i; --i) ++it; prot(w, PROT_READ | PROT_WRITE); return it; }
   void done() { for (int k = 0; k < 2; ++k) { c[k]->clear(); c[k]->~C(); } for (E *e : all) e->~E(); }
};
template <class Hook> struct EL : Hook { int key; unsigned id, pri; bool in;
   friend bool operator<(const EL &a, const EL &b) { return a.key < b.key; } friend bool operator==(const EL &a, const EL &b) { return a.key == b.key; } friend bool operator>(const EL &a, const EL &b) { return a.key > b.key; }
   friend bool priority_order(const EL &a, const EL &b) { return a.pri < b.pri; } friend size_t hash_value(const EL &e) { return size_t(e.key) * 7919u; } };
struct Nop { template <class P> void operator()(P) const {} };
template <class E> struct DI { E **p; typedef std::forward_iterator_tag iterator_category; typedef E value_type; typedef ptrdiff_t difference_type; typedef E *pointer; typedef E &reference; E &operator*() const { return **p; } DI &operator++() { ++p; return *this; } DI operator++(int) { DI t = *this; ++p; return t; } bool operator!=(const DI &y) const { return p != y.p; } bool operator==(const DI &y) const { return p == y.p; } };

// ---- lists ----------------------------------------------------------------------
enum { R_INS = 1, R_FILL, R_ERASE, R_MOVEIN, R_REORDER, R_REMOVE, R_SWAP, R_CLEAR, R_CLONE, R_ASSIGN, R_READ, R_COMPARE, R_LOOKUP, R_LOOKUP2, R_NODE, R_ENDS, R_REBAL, R_AUTO, R_REHASH, R_CHECK };
#if PART(0)
template <class C> constexpr auto is_linear(int) -> decltype(bool(C::linear)) { return C::linear; }
template <class C> constexpr bool is_linear(long) { return false; }
template <class C, class E, bool DL, bool CL> struct Lists {
   typedef World<C, E> W; typedef typename C::iterator It;
   static void run(const Case &c) {
      setup(); W *ws[NW]; for (int i = 0; i < NW; ++i) { ws[i] = new W(i, [](void *p, W &, int) { return new (p) C; }); }
      int k = -1; g().maxsize = 2;
      for (const Op &o : c.ops) {
         g().opi = ++k; int wi = int(o.a[4] % NW), vi = (wi + 1 + int(o.a[4] / 8 % 2)) % NW; W &w = *ws[wi], &v = *ws[vi]; C &l = *w.c[o.a[4] / 64 & 1], &x = *w.c[!(o.a[4] / 64 & 1)]; const C &cl = l; C &y = *v.c[0]; const C &cy = y;
         const size_t n = w.len(l), m = w.len(x), r = o.a[3]; It p = w.at(l, o.a[0] % (n + 1)), q = w.at(x, o.a[1] % (m + 1)); bool fix = false;
         switch (o.k) {
         case R_INS: if (E *e = w.fresh(int(o.a[1] % 20), o.a[2])) { switch (r % 3) { case 0: rw("push_front()", wi, [&] { l.push_front(*e); }); break; case 1: rw("insert()", wi, [&] { l.insert(p, *e); }); break; default: if constexpr (DL || CL) rw("push_back()", wi, [&] { l.push_back(*e); }); else rw("insert_after()", wi, [&] { l.insert_after(l.before_begin(), *e); }); } } break;
         case R_FILL: for (unsigned j = 0; j < r % 30; ++j) if (E *e = w.fresh(int((o.a[1] >> (j % 12)) % 25), o.a[2])) l.push_front(*e); break;
         case R_ERASE: if (!n) break; fix = true; if (p == l.end()) p = l.begin(); switch (r % 4) { case 0: rw("erase()", wi, [&] { l.erase(p); }); break; case 1: rw("pop_front()", wi, [&] { l.pop_front(); }); break; case 2: { It e = p; ++e; rw("erase() of a range", wi, [&] { l.erase(l.begin(), e); }); break; } default: rw("pop_front_and_dispose()", wi, [&] { l.pop_front_and_dispose(Nop()); }); } break;
         case R_MOVEIN: switch (r % 3) { case 0: rw("splice() of a list", wi, [&] { l.splice(p, x); }); break; case 1: if (m) { if (q == x.end()) q = x.begin(); rw("splice() of an element", wi, [&] { l.splice(p, x, q); }); } break; default: rw("splice() of a range", wi, [&] { l.splice(p, x, x.begin(), q); }); } break;
         case R_REORDER: switch (r % 5) { case 0: rw("sort()", wi, [&] { l.sort(); }); break; case 1: l.sort(); x.sort(); rw("merge()", wi, [&] { l.merge(x); }); break; case 2: rw("reverse()", wi, [&] { l.reverse(); }); break; case 3: rw("shift_forward()", wi, [&] { l.shift_forward(r / 8 % 5); }); break; default: rw("shift_backwards()", wi, [&] { l.shift_backwards(r / 8 % 5); }); } break;
         case R_REMOVE: fix = true; switch (r % 3) { case 0: rw("remove_if()", wi, [&] { l.remove_if([&](const E &e) { return e.key % 4 == 1; }); }); break; case 1: rw("unique()", wi, [&] { l.unique(); }); break; default: rw("remove_and_dispose_if()", wi, [&] { l.remove_and_dispose_if([&](const E &e) { return e.key % 5 == 1; }, Nop()); }); } break;
         case R_SWAP: if (r & 1) rw("swap()", wi, [&] { l.swap(x); }); else rw("move", wi, [&] { C t(boost::move(l)); l = boost::move(t); }); break;
         case R_CLEAR: fix = true; if (r & 1) rw("clear()", wi, [&] { l.clear(); }); else rw("clear_and_dispose()", wi, [&] { l.clear_and_dispose(Nop()); }); break;
         case R_CLONE: { fix = true; std::vector<E *> f; for (size_t j = v.len(y); j; --j) { E *e = w.fresh(0, o.a[2]); if (!e) break; f.push_back(e); } if (f.size() < v.len(y)) { fix = true; break; } size_t j = 0; E **fp = f.data(); wr2("clone_from() a constant container", wi, vi, [&] { l.clone_from(cy, [&](const E &e) { E *z = fp[j++]; z->key = e.key; return z; }, Nop()); }); break; }
         case R_ASSIGN: { fix = true; std::vector<E *> f; for (size_t j = r % 6; j; --j) { E *e = w.fresh(int(j), o.a[2]); if (!e) break; f.push_back(e); } DI<E> b{f.data()}, e{f.data() + f.size()}; if (r / 8 & 1) rw("assign()", wi, [&] { l.assign(b, e); }); else rw("insert() of a range", wi, [&] { l.insert(p, b, e); }); break; }
         case R_READ: ro("walking a constant list", wi, [&] { size_t s = 0; for (auto i = cl.begin(); i != cl.end(); ++i) s += size_t(i->key); if constexpr (DL) for (auto i = cl.rbegin(); i != cl.rend(); ++i) s += size_t(i->key); keepv(s); }); ro("walking a list", wi, [&] { size_t s = 0; for (auto i = l.begin(); i != l.end(); ++i) s += size_t(i->key); keepv(s); }); break;
         case R_ENDS: ro("begin(), end(), size(), empty()", wi, [&] { keep(l.begin()); keep(cl.begin()); keep(l.end()); keep(cl.end()); keep(cl.size()); keep(cl.empty()); if constexpr (!is_linear<C>(0)) keep(C::container_from_end_iterator(cl.end())); if constexpr (!DL) keep(cl.before_begin()); if constexpr (DL) { keep(l.rbegin()); keep(l.rend()); } if constexpr (CL) keep(cl.last()); });
            if (n) ro("front()", wi, [&] { keep(cl.front()); keep(l.front()); if constexpr (DL || CL) { keep(l.back()); keep(cl.back()); } }); break;
         case R_NODE: if (n) { const E &e = p == l.end() ? l.front() : *p; ro("iterator_to()", wi, [&] { keep(cl.iterator_to(e)); keep(C::s_iterator_to(e)); }); if constexpr (E::hooktags::link_mode != bi::normal_link) ro("is_linked()", wi, [&] { keep(e.is_linked()); }); if constexpr (!DL) ro("previous()", wi, [&] { keep(cl.previous(typename C::const_iterator(p))); }); } break;
         case R_COMPARE: ro2("comparison of two lists", wi, vi, [&] { keepv(size_t(cl == cy) + size_t(cl < cy) * 2 + size_t(cl != cy) + size_t(cl >= cy)); }); break;
         case R_CHECK: ro("check()", wi, [&] { cl.check(); }); break;
         case R_AUTO: if constexpr (E::hooktags::link_mode == bi::auto_unlink) { if (n) { fix = true; E &e = p == l.end() ? l.front() : *p; rw("unlink()", wi, [&] { e.unlink(); }); } } break;
         }
         if (fix) w.remark();
         hit(int(o.k), n, m);
      }
      for (int i = 0; i < NW; ++i) { ws[i]->done(); delete ws[i]; }
   }
};
#endif

// ---- ordered containers -----------------------------------------------------------
#if PART(1) || PART(2)
struct KE { template <class E> bool operator()(int a, const E &b) const { return a < b.key; } template <class E> bool operator()(const E &a, int b) const { return a.key < b; } };
enum Kind { RB, AVL, SG, BS, SPLAY, TREAP };
template <class C, class E, Kind K, bool MULTI> struct Trees {
   typedef World<C, E> W; typedef typename C::iterator It;
   static void run(const Case &c) {
      setup(); W *ws[NW]; for (int i = 0; i < NW; ++i) { ws[i] = new W(i, [](void *p, W &, int) { return new (p) C; }); }
      int k = -1; g().maxsize = 2;
      for (const Op &o : c.ops) {
         g().opi = ++k; int wi = int(o.a[4] % NW), vi = (wi + 1 + int(o.a[4] / 8 % 2)) % NW; W &w = *ws[wi], &v = *ws[vi]; C &t = *w.c[o.a[4] / 64 & 1], &x = *w.c[!(o.a[4] / 64 & 1)]; const C &ct = t; C &y = *v.c[0]; const C &cy = y;
         const size_t n = w.len(t), m = w.len(x), r = o.a[3]; It p = w.at(t, o.a[0] % (n + 1)); const int key = int(o.a[1] % 40); bool fix = false; E probe; probe.key = key; probe.id = 0; probe.pri = 0;
         auto mkfresh = [&](int kk) -> E * { E *e = w.fresh(kk, o.a[2]); if (e) e->pri = o.a[1] * 2654435761u + e->id * 40503u; return e; };
         switch (o.k) {
         case R_INS: if (E *e = mkfresh(key)) { fix = true; switch (r % 4) { case 0: case 1: rw("insert()", wi, [&] { t.insert(*e); }); break; case 2: rw("insert() with a hint", wi, [&] { t.insert(p, *e); }); break; default: if constexpr (!MULTI && K != TREAP) { typename C::insert_commit_data d; bool ok = false; if constexpr (K == SPLAY) rw("insert_check()", wi, [&] { ok = t.insert_check(key, KE(), d).second; }); else ro("insert_check()", wi, [&] { ok = t.insert_check(key, KE(), d).second; }); if (ok) rw("insert_commit()", wi, [&] { t.insert_commit(*e, d); }); } else { if (!n || e->key >= t.rbegin()->key) rw("push_back()", wi, [&] { if (MULTI || !n || t.rbegin()->key < e->key) t.push_back(*e); }); } } } break;
         case R_FILL: for (unsigned j = 0; j < r % 30; ++j) if (E *e = mkfresh(int((o.a[1] >> (j % 12)) % 40 + (j * 5) % 40))) t.insert(*e); fix = true; break;
         case R_ERASE: if (!n) break; fix = true; if (p == t.end()) p = t.begin(); switch (r % 4) { case 0: rw("erase()", wi, [&] { t.erase(p); }); break; case 1: rw("erase() of a key", wi, [&] { t.erase(key, KE()); }); break; case 2: { It e = p; ++e; rw("erase() of a range", wi, [&] { t.erase(t.begin(), e); }); break; } default: rw("erase_and_dispose()", wi, [&] { t.erase_and_dispose(p, Nop()); }); } break;
         case R_MOVEIN: fix = true; rw("merge()", wi, [&] { t.merge(x); }); break;
         case R_SWAP: if (r & 1) rw("swap()", wi, [&] { t.swap(x); }); else rw("move", wi, [&] { C z(boost::move(t)); t = boost::move(z); }); break;
         case R_CLEAR: fix = true; if (r & 1) rw("clear()", wi, [&] { t.clear(); }); else rw("clear_and_dispose()", wi, [&] { t.clear_and_dispose(Nop()); }); break;
         case R_CLONE: { fix = true; std::vector<E *> f; const size_t yn = v.len(y); for (size_t j = yn; j; --j) { E *e = w.fresh(0, o.a[2]); if (!e) break; f.push_back(e); } if (f.size() < yn) break; size_t j = 0; E **fp = f.data(); wr2("clone_from() a constant container", wi, vi, [&] { t.clone_from(cy, [&](const E &e) { E *z = fp[j++]; z->key = e.key; z->pri = e.pri; z->pri = e.pri; return z; }, Nop()); }); break; }
         case R_ASSIGN: { fix = true; std::vector<E *> f; for (size_t j = r % 6; j; --j) { E *e = mkfresh(int(j)); if (!e) break; f.push_back(e); } DI<E> b{f.data()}, e{f.data() + f.size()}; rw("insert() of a range", wi, [&] { t.insert(b, e); }); break; }
         case R_READ: ro("walking a constant container", wi, [&] { size_t s = 0; for (auto i = ct.begin(); i != ct.end(); ++i) s += size_t(i->key); for (auto i = ct.rbegin(); i != ct.rend(); ++i) s += size_t(i->key); keepv(s); }); ro("walking a container", wi, [&] { size_t s = 0; for (auto i = t.begin(); i != t.end(); ++i) s += size_t(i->key); for (auto i = t.rbegin(); i != t.rend(); ++i) s += size_t(i->key); keepv(s); }); break;
         case R_ENDS: ro("begin(), end(), size(), empty(), root()", wi, [&] { keep(t.begin()); keep(ct.begin()); keep(t.end()); keep(ct.end()); keep(t.rbegin()); keep(ct.rend()); keep(ct.size()); keep(ct.empty()); keep(C::container_from_end_iterator(ct.end())); keep(ct.croot()); keep(t.root()); keep(ct.key_comp()); keep(ct.value_comp()); }); if constexpr (K == TREAP) ro("top()", wi, [&] { keep(t.top()); keep(ct.top()); keep(ct.priority_comp()); }); break;
         case R_LOOKUP: ro("find(), lower_bound(), upper_bound(), equal_range(), count() const", wi, [&] { keep(ct.find(probe)); keep(ct.lower_bound(probe)); keep(ct.upper_bound(probe)); keep(ct.equal_range(probe)); keepv(ct.count(probe)); keep(ct.find(key, KE())); keep(ct.lower_bound(key, KE())); keep(ct.upper_bound(key, KE())); keep(ct.equal_range(key, KE())); keepv(ct.count(key, KE())); });
            ro("bounded_range() const", wi, [&] { keep(ct.bounded_range(key, key + int(r % 9), KE(), true, r & 1)); }); break;
         case R_LOOKUP2: if constexpr (K != SPLAY) { ro("find(), lower_bound(), upper_bound(), equal_range(), count()", wi, [&] { keep(t.find(probe)); keep(t.lower_bound(probe)); keep(t.upper_bound(probe)); keep(t.equal_range(probe)); keepv(t.count(probe)); keep(t.find(key, KE())); keep(t.lower_bound(key, KE())); keep(t.upper_bound(key, KE())); keep(t.equal_range(key, KE())); keepv(t.count(key, KE())); keep(t.bounded_range(key, key + int(r % 9), KE(), r & 1, true)); }); }
            else rw("find() of a splay tree", wi, [&] { keep(t.find(probe)); keep(t.lower_bound(key, KE())); keep(t.upper_bound(key, KE())); keep(t.equal_range(probe)); keepv(t.count(probe)); }); break;
         case R_NODE: if (n) { E &e = p == t.end() ? *t.begin() : *p; const E &ce = e; ro("iterator_to()", wi, [&] { keep(ct.iterator_to(ce)); keep(C::s_iterator_to(ce)); keep(t.iterator_to(e)); }); ro("container_from_iterator()", wi, [&] { keep(C::container_from_iterator(ct.iterator_to(ce))); }); if constexpr (E::hooktags::link_mode != bi::normal_link) ro("is_linked()", wi, [&] { keep(ce.is_linked()); });
            if (r & 1) if (E *z = mkfresh(e.key)) { z->pri = e.pri; fix = true; rw("replace_node()", wi, [&] { t.replace_node(t.iterator_to(e), *z); }); } } break;
         case R_REBAL: if constexpr (K == BS || K == SG || K == SPLAY) { if (r & 1 || !n) rw("rebalance()", wi, [&] { t.rebalance(); }); else rw("rebalance_subtree()", wi, [&] { t.rebalance_subtree(p == t.end() ? t.begin() : p); }); if constexpr (K == SPLAY) if (n) rw("splay_up()", wi, [&] { t.splay_up(p == t.end() ? t.begin() : p); }); } break;
         case R_COMPARE: ro2("comparison of two containers", wi, vi, [&] { keepv(size_t(ct == cy) + size_t(ct < cy) * 2 + size_t(ct != cy) + size_t(ct >= cy)); }); break;
         case R_CHECK: ro("check()", wi, [&] { ct.check(); }); break;
         case R_AUTO: if constexpr (E::hooktags::link_mode == bi::auto_unlink) { if (n) { fix = true; E &e = p == t.end() ? *t.begin() : *p; rw("unlink()", wi, [&] { e.unlink(); }); } } break;
         }
         if (fix) w.remark();
         hit(int(o.k), n, m);
      }
      for (int i = 0; i < NW; ++i) { ws[i]->done(); delete ws[i]; }
   }
};
#endif

// ---- unordered containers ---------------------------------------------------------
#if PART(3)
struct HK { size_t operator()(int k) const { return size_t(k) * 7919u; } template <class E> size_t operator()(const E &e) const { return size_t(e.key) * 7919u; } };
struct EK { template <class E> bool operator()(int a, const E &b) const { return a == b.key; } template <class E> bool operator()(const E &a, int b) const { return a.key == b; } };
template <class C, class E, bool MULTI, bool P2, bool LB, bool INC> struct Hashes {
   typedef World<C, E> W; typedef typename C::iterator It; typedef typename C::bucket_traits BT;
   static void run(const Case &c) {
      setup(); W *ws[NW]; typename C::bucket_type *bk[NW][3]; unsigned spare[NW], cur[NW][2]; const size_t MB = 64;
      auto nbk = [&](uint32_t r) { size_t z = 1 + r % MB; if (P2) { size_t q = 1; while (q * 2 <= z) q *= 2; z = q; } return z; };
      for (int i = 0; i < NW; ++i) {
         ws[i] = new W(i, [&](void *p, W &w, int q) { for (int j = q ? 2 : 0; j < (q ? 3 : 2); ++j) { bk[i][j] = (typename C::bucket_type *)w.take(sizeof(typename C::bucket_type) * (MB + 1), 64); for (size_t z = 0; z <= MB; ++z) new (bk[i][j] + z) typename C::bucket_type; } return new (p) C(BT(bk[i][q], nbk(c.cfg[1 + q]) + LB)); });
         spare[i] = 2; cur[i][0] = 0; cur[i][1] = 1;
      }
      int k = -1; g().maxsize = 2;
      for (const Op &o : c.ops) {
         g().opi = ++k; int wi = int(o.a[4] % NW), vi = (wi + 1 + int(o.a[4] / 8 % 2)) % NW; W &w = *ws[wi], &v = *ws[vi]; const int ci = int(o.a[4] / 64 & 1); C &t = *w.c[ci], &x = *w.c[!ci]; const C &ct = t; C &y = *v.c[0]; const C &cy = y;
         const size_t n = w.len(t), m = w.len(x), r = o.a[3]; It p = w.at(t, o.a[0] % (n + 1)); const int key = int(o.a[1] % 40); bool fix = false; E probe; probe.key = key; probe.id = 0; probe.pri = 0;
         switch (o.k) {
         case R_INS: if (E *e = w.fresh(key, o.a[2])) { fix = true; if (r % 3) rw("insert()", wi, [&] { t.insert(*e); }); else if constexpr (!MULTI) { typename C::insert_commit_data d; bool ok = false; ro("insert_check()", wi, [&] { ok = t.insert_check(key, HK(), EK(), d).second; }); if (ok) rw("insert_commit()", wi, [&] { t.insert_commit(*e, d); }); } } break;
         case R_FILL: for (unsigned j = 0; j < r % 30; ++j) if (E *e = w.fresh(int((o.a[1] >> (j % 12)) % 40 + (j * 5) % 40), o.a[2])) t.insert(*e); fix = true; break;
         case R_ERASE: if (!n) break; fix = true; if (p == t.end()) p = t.begin(); switch (r % 4) { case 0: rw("erase()", wi, [&] { t.erase(p); }); break; case 1: rw("erase() of a key", wi, [&] { t.erase(key, HK(), EK()); }); break; case 2: { It e = p; ++e; rw("erase() of a range", wi, [&] { t.erase(t.begin(), e); }); break; } default: rw("erase_and_dispose()", wi, [&] { t.erase_and_dispose(p, Nop()); }); } break;
         case R_SWAP: rw("swap()", wi, [&] { t.swap(x); }); std::swap(cur[wi][0], cur[wi][1]); break;
         case R_CLEAR: fix = true; if (r & 1) rw("clear()", wi, [&] { t.clear(); }); else rw("clear_and_dispose()", wi, [&] { t.clear_and_dispose(Nop()); }); break;
         case R_CLONE: { fix = true; std::vector<E *> f; const size_t yn = v.len(y); for (size_t j = yn; j; --j) { E *e = w.fresh(0, o.a[2]); if (!e) break; f.push_back(e); } if (f.size() < yn) break; size_t j = 0; E **fp = f.data(); wr2("clone_from() a constant container", wi, vi, [&] { t.clone_from(cy, [&](const E &e) { E *z = fp[j++]; z->key = e.key; return z; }, Nop()); }); break; }
         case R_REHASH: { size_t nb = nbk(o.a[0]) + LB; switch (r % 4) { case 0: { unsigned d = spare[wi]; rw("rehash()", wi, [&] { t.rehash(BT(bk[wi][d], nb)); }); std::swap(cur[wi][ci], spare[wi]); break; } case 1: rw("rehash() of the same buckets", wi, [&] { t.rehash(BT(bk[wi][cur[wi][ci]], nb)); }); break; case 2: rw("full_rehash()", wi, [&] { t.full_rehash(); }); break; default: if constexpr (INC) rw("incremental_rehash()", wi, [&] { keep(t.incremental_rehash(bool(r / 8 & 1))); }); } break; }
         case R_READ: ro("walking a constant container", wi, [&] { size_t s = 0; for (auto i = ct.begin(); i != ct.end(); ++i) s += size_t(i->key); keepv(s); }); ro("walking a container", wi, [&] { size_t s = 0; for (auto i = t.begin(); i != t.end(); ++i) s += size_t(i->key); keepv(s); }); break;
         case R_ENDS: ro("begin(), end(), size(), empty(), bucket_count()", wi, [&] { keep(t.begin()); keep(ct.begin()); keep(t.end()); keep(ct.cend()); keepv(ct.size()); keep(ct.empty()); keepv(ct.bucket_count()); keep(ct.hash_function()); keep(ct.key_eq()); keep(ct.bucket_pointer()); keepv(ct.split_count()); }); break;
         case R_LOOKUP: ro("find(), equal_range(), count(), bucket() const", wi, [&] { keep(ct.find(probe)); keep(ct.equal_range(probe)); keepv(ct.count(probe)); keepv(ct.bucket(probe)); keep(ct.find(key, HK(), EK())); keep(ct.equal_range(key, HK(), EK())); keepv(ct.count(key, HK(), EK())); keepv(ct.bucket(key, HK())); }); break;
         case R_LOOKUP2: ro("find(), equal_range(), local iteration", wi, [&] { keep(t.find(probe)); keep(t.equal_range(probe)); keep(t.find(key, HK(), EK())); keep(t.equal_range(key, HK(), EK())); size_t b = ct.bucket(probe), s = ct.bucket_size(b); for (auto i = ct.begin(b); i != ct.end(b); ++i) s += size_t(i->key); for (auto i = t.begin(b); i != t.end(b); ++i) s += size_t(i->key); keepv(s); }); break;
         case R_NODE: if (n) { E &e = p == t.end() ? *t.begin() : *p; const E &ce = e; ro("iterator_to()", wi, [&] { keep(ct.iterator_to(ce)); keep(C::s_local_iterator_to(ce)); keep(t.iterator_to(e)); keep(ct.local_iterator_to(ce)); }); if constexpr (E::hooktags::link_mode != bi::normal_link) ro("is_linked()", wi, [&] { keep(ce.is_linked()); }); } break;
         case R_COMPARE: ro2("comparison of two containers", wi, vi, [&] { keepv(size_t(ct == cy) + size_t(ct != cy)); }); break;
         case R_CHECK: ro("check()", wi, [&] { ct.check(); }); ro("suggested bucket counts", wi, [&] { keepv(C::suggested_upper_bucket_count(o.a[0] % 5000)); keepv(C::suggested_lower_bucket_count(o.a[0] % 5000)); }); break;
         case R_AUTO: if constexpr (E::hooktags::link_mode == bi::auto_unlink) { if (n) { fix = true; E &e = p == t.end() ? *t.begin() : *p; rw("unlink()", wi, [&] { e.unlink(); }); } } break;
         }
         if (fix) w.remark();
         hit(int(o.k), n, m);
      }
      for (int i = 0; i < NW; ++i) { ws[i]->done(); delete ws[i]; }
   }
};
#endif

template <class F> static void add(const char *n) { configs().push_back(Config{n, &F::run}); }
static void profile(const std::string &, Profile &p) {
   for (int i = R_INS; i <= R_CHECK; ++i) p.weight[i] = 10;
   p.weight[R_INS] = 40; p.weight[R_FILL] = 15; p.weight[R_CLEAR] = 3; p.weight[R_LOOKUP] = 20; p.weight[R_LOOKUP2] = 20;
#if PART(0)
   p.drop({R_LOOKUP, R_LOOKUP2, R_REBAL, R_REHASH});
#elif PART(3)
   p.drop({R_REORDER, R_REMOVE, R_ASSIGN, R_REBAL}); p.weight[R_REHASH] = 25;
#else
   p.drop({R_REORDER, R_REMOVE, R_REHASH});
#endif
}
#define NL bi::link_mode<bi::normal_link>
#define SL bi::link_mode<bi::safe_link>
#define AL bi::link_mode<bi::auto_unlink>
#define NC bi::constant_time_size<false>
int main(int argc, char **argv) {
#if PART(0)
   { typedef EL<bi::list_base_hook<SL> > E; add<Lists<bi::list<E>, E, true, false> >("list safe"); }
   { typedef EL<bi::list_base_hook<AL> > E; add<Lists<bi::list<E, NC>, E, true, false> >("list auto"); }
   { typedef EL<bi::list_base_hook<NL> > E; add<Lists<bi::list<E, NC>, E, true, false> >("list normal"); }
   { typedef EL<bi::slist_base_hook<SL> > E; add<Lists<bi::slist<E>, E, false, false> >("slist safe"); add<Lists<bi::slist<E, bi::cache_last<true>, NC>, E, false, true> >("slist safe last"); add<Lists<bi::slist<E, bi::linear<true> >, E, false, false> >("slist safe linear"); }
   { typedef EL<bi::slist_base_hook<AL> > E; add<Lists<bi::slist<E, NC>, E, false, false> >("slist auto"); }
   { typedef EL<bi::slist_base_hook<NL> > E; add<Lists<bi::slist<E, bi::linear<true>, bi::cache_last<true> >, E, false, true> >("slist normal linear last"); }
#endif
#if PART(1)
   { typedef EL<bi::set_base_hook<SL> > E; add<Trees<bi::set<E>, E, RB, false> >("set safe"); }
   { typedef EL<bi::set_base_hook<AL, bi::optimize_size<true> > > E; add<Trees<bi::multiset<E, NC>, E, RB, true> >("multiset auto compact"); }
   { typedef EL<bi::avl_set_base_hook<NL> > E; add<Trees<bi::avl_multiset<E>, E, AVL, true> >("avl_multiset normal"); }
   { typedef EL<bi::avl_set_base_hook<SL, bi::optimize_size<true> > > E; add<Trees<bi::avl_set<E, NC>, E, AVL, false> >("avl_set safe compact"); }
   { typedef EL<bi::bs_set_base_hook<SL> > E; add<Trees<bi::sg_set<E>, E, SG, false> >("sg_set safe"); add<Trees<bi::sg_multiset<E, bi::floating_point<false> >, E, SG, true> >("sg_multiset safe integer"); }
#endif
#if PART(2)
   { typedef EL<bi::bs_set_base_hook<AL> > E; add<Trees<bi::bs_multiset<E, NC>, E, BS, true> >("bs_multiset auto"); add<Trees<bi::splay_set<E, NC>, E, SPLAY, false> >("splay_set auto"); }
   { typedef EL<bi::bs_set_base_hook<SL> > E; add<Trees<bi::bs_set<E>, E, BS, false> >("bs_set safe"); add<Trees<bi::splay_multiset<E>, E, SPLAY, true> >("splay_multiset safe"); }
   { typedef EL<bi::bs_set_base_hook<NL> > E; add<Trees<bi::treap_set<E>, E, TREAP, false> >("treap_set normal"); add<Trees<bi::treap_multiset<E, NC>, E, TREAP, true> >("treap_multiset normal"); }
#endif
#if PART(3)
   { typedef EL<bi::unordered_set_base_hook<SL> > E; add<Hashes<bi::unordered_set<E>, E, false, false, false, false> >("unordered_set safe"); add<Hashes<bi::unordered_multiset<E, bi::cache_begin<true>, bi::linear_buckets<true>, bi::power_2_buckets<true> >, E, true, true, true, false> >("unordered_multiset safe cache linear power2"); }
   { typedef EL<bi::unordered_set_base_hook<AL, bi::store_hash<true> > > E; add<Hashes<bi::unordered_set<E, NC, bi::compare_hash<true> >, E, false, false, false, false> >("unordered_set auto stored"); }
   { typedef EL<bi::unordered_set_base_hook<NL, bi::store_hash<true>, bi::optimize_multikey<true> > > E; add<Hashes<bi::unordered_multiset<E, bi::incremental<true>, bi::power_2_buckets<true>, bi::cache_begin<true> >, E, true, true, false, true> >("unordered_multiset normal stored multikey incremental cache"); }
   { typedef EL<bi::unordered_set_base_hook<SL, bi::optimize_multikey<true> > > E; add<Hashes<bi::unordered_multiset<E, NC>, E, true, false, false, false> >("unordered_multiset safe multikey"); }
#endif
   engine() = {"race", profile};
   return harness_main(argc, argv);
}
