// The node-level algorithms, called directly on raw nodes: doubly linked rings, singly linked rings, null-terminated chains and all tree kinds.
#include "elem.hpp"
#include <memory>
#include <cmath>
#include <boost/intrusive/circular_list_algorithms.hpp>
#include <boost/intrusive/circular_slist_algorithms.hpp>
#include <boost/intrusive/linear_slist_algorithms.hpp>
#include <boost/intrusive/bstree_algorithms.hpp>
#include <boost/intrusive/rbtree_algorithms.hpp>
#include <boost/intrusive/avltree_algorithms.hpp>
#include <boost/intrusive/sgtree_algorithms.hpp>
#include <boost/intrusive/splaytree_algorithms.hpp>
#include <boost/intrusive/treap_algorithms.hpp>
#include <boost/intrusive/list_hook.hpp>
#include <boost/intrusive/slist_hook.hpp>
#include <boost/intrusive/set_hook.hpp>
#include <boost/intrusive/avl_set_hook.hpp>
#include <boost/intrusive/bs_set_hook.hpp>
using namespace vf;
template <int P> struct Reg { template <class C> static void add(const char *n) { if (VF_PART == P || VF_PART < 0) configs().push_back(Config{n, &C::run}); } };
#define PART(n) (VF_PART == n || VF_PART < 0)

// a user's node type: links under other names, plain integers as colour and balance
struct CNode { CNode *one = nullptr, *two = nullptr, *three = nullptr; short meta = 0; };
struct CTraits {
   typedef CNode node; typedef CNode *node_ptr; typedef const CNode *const_node_ptr; typedef short color; typedef short balance;
   static node_ptr get_next(const_node_ptr n) { return n->one; } static void set_next(node_ptr n, node_ptr x) { n->one = x; }
   static node_ptr get_previous(const_node_ptr n) { return n->two; } static void set_previous(node_ptr n, node_ptr x) { n->two = x; }
   static node_ptr get_parent(const_node_ptr n) { return n->one; } static void set_parent(node_ptr n, node_ptr x) { n->one = x; }
   static node_ptr get_left(const_node_ptr n) { return n->two; } static void set_left(node_ptr n, node_ptr x) { n->two = x; }
   static node_ptr get_right(const_node_ptr n) { return n->three; } static void set_right(node_ptr n, node_ptr x) { n->three = x; }
   static color get_color(const_node_ptr n) { return n->meta; } static void set_color(node_ptr n, color c) { n->meta = c; } static color black() { return 21; } static color red() { return 4; }
   static balance get_balance(const_node_ptr n) { return n->meta; } static void set_balance(node_ptr n, balance c) { n->meta = c; } static balance negative() { return 9; } static balance zero() { return 2; } static balance positive() { return 6; }
};
typedef std::vector<int> Seq;
inline void rot(Seq &v, size_t n) { if (v.size()) std::rotate(v.begin(), v.begin() + long(n % v.size()), v.end()); }
// the cyclic sequence starting at its element x
inline Seq from(const Seq &r, int x) { Seq v(r); std::rotate(v.begin(), std::find(v.begin(), v.end(), x), v.end()); return v; }

enum { L_NEW = 1, L_LINK, L_LINK2, L_UNLINK, L_UNLINK_R, L_XFER, L_XFER1, L_XFER_ALL, L_SWAP, L_REV, L_MOVEB, L_MOVEF, L_PART, L_QUERY, L_DISPOSE, L_DISPOSE_R, L_CHAIN, L_SENT, L_SWAPTAIL };

// ---- rings and chains -----------------------------------------------------------
// links: 2 = doubly linked ring, 1 = singly linked ring, 0 = null-terminated chain
template <class A, int K> struct Lists {
   typedef typename A::node_traits T; typedef typename A::node_ptr P; typedef typename A::const_node_ptr CP; typedef typename A::node N;
   enum { MAX = 40 };
   int n; std::unique_ptr<N[]> nodes; std::vector<Seq> rings; std::vector<int> state;     // state of nodes in no ring: 0 after init(), 1 unspecified
   P p(int i) { return P(&nodes[size_t(i)]); }
   int id(CP q) { if (!q) return -1; long i = raw(q) - &nodes[0]; VF_CHECK(i >= 0 && i < n, "a link points outside the nodes"); return int(i); }
   size_t ringof(int x) { for (size_t i = 0; i < rings.size(); ++i) if (std::find(rings[i].begin(), rings[i].end(), x) != rings[i].end()) return i; return size_t(-1); }
   bool in(int x) { return ringof(x) != size_t(-1); }
   static size_t pos(const Seq &r, int x) { return size_t(std::find(r.begin(), r.end(), x) - r.begin()); }
   void loose(int x) { state[size_t(x)] = 1; }
   void init(int x) { A::init(p(x)); state[size_t(x)] = 0; VF_CHECK(A::inited(p(x)), "init(): the node is not inited()"); }
   void drop_empty() { rings.erase(std::remove_if(rings.begin(), rings.end(), [](const Seq &r) { return r.empty(); }), rings.end()); }
   void check() {
      for (Seq &r : rings) {
         g().maxsize = std::max(g().maxsize, r.size());
         for (size_t i = 0; i < r.size(); ++i) {
            int nx = i + 1 < r.size() ? r[i + 1] : K ? r[0] : -1;
            int got = id(T::get_next(p(r[i])));
            VF_CHECK(got == nx, "node %d is followed by %d, should be %d", r[i], got, nx);
            if constexpr (K == 2) { int pv = r[(i + r.size() - 1) % r.size()]; got = id(T::get_previous(p(r[i]))); VF_CHECK(got == pv, "node %d is preceded by %d, should be %d", r[i], got, pv); }
         }
      }
      for (int x = 0; x < n; ++x) if (!in(x) && state[size_t(x)] == 0) VF_CHECK(A::inited(p(x)), "node %d, in no list, is not in its initial state", x);
   }
   static void run(const Case &c) { Lists l; l.go(c); }
   void go(const Case &cs) {
      n = 2 + int(cs.cfg[1] % (MAX - 2)); nodes.reset(new N[size_t(n)]()); state.assign(size_t(n), 1);
      for (int i = 0; i < n; ++i) init(i);
      if (K == 0) for (int i = 0; i < n; ++i) rings.push_back(Seq(1, i));
      else if (cs.cfg[2] & 1) for (int i = 0; i < n; ++i) { if (i % 7 == 0) { A::init_header(p(i)); rings.push_back(Seq(1, i)); } else { A::link_after(p(rings.back().back()), p(i)); rings.back().push_back(i); } }
      int k = -1;
      for (const Op &o : cs.ops) { g().opi = ++k; step(o); drop_empty(); check(); }
   }
   // a node inside / outside, or -1
   int pick_in(uint32_t a) { size_t t = 0; for (Seq &r : rings) t += r.size(); if (!t) return -1; t = a % t; for (Seq &r : rings) { if (t < r.size()) return r[t]; t -= r.size(); } return -1; }
   int pick_out(uint32_t a) {
      Seq v; if (K) { for (int i = 0; i < n; ++i) if (!in(i)) v.push_back(i); } else for (Seq &r : rings) if (r.size() == 1) v.push_back(r[0]);
      return v.empty() ? -1 : v[a % v.size()];
   }
   // a chain of one stops being one when its node goes elsewhere
   void leave(int x) { if (!K) { rings[ringof(x)].clear(); } }
   void added(int x) { if (K == 0 && !in(x)) rings.push_back(Seq(1, x)); }
   template <class F> auto pred(uint32_t a, int &fuel_, F f) { return [this, a, f, &fuel_](CP q) mutable { if (fuel_ >= 0 && fuel_-- == 0) throw Boom{2}; return f(id(q)); }; }

   void step(const Op &o) {
      uint32_t a = o.a[0], b = o.a[1], c = o.a[2];
      switch (o.k) {
      case L_NEW: {      // (re)initialization
         int x = pick_out(a); if (x < 0) return;
         if constexpr (K) { if (b & 1) { init(x); tr("init %d\n", x); } else { tr("init_header %d\n", x); A::init_header(p(x)); rings.push_back(Seq(1, x)); VF_CHECK(A::is_empty(p(x)) && A::unique(p(x)), "init_header(): not an empty list"); } }
         else { if (b & 1) A::init_header(p(x)); else A::init(p(x)); VF_CHECK(A::is_empty(p(x)) && A::unique(p(x)) && A::inited(p(x)), "init: not an empty list"); }
         hit(o.k, uint64_t(x), b & 1); break; }
      case L_LINK: { int at = pick_in(a), x = pick_out(b); if (at < 0 || x < 0 || at == x) return; tr("link_after %d, %d\n", at, x); leave(x); Seq &r = rings[ringof(at)]; A::link_after(p(at), p(x)); r.insert(r.begin() + long(pos(r, at)) + 1, x); hit(o.k, uint64_t(at), uint64_t(x)); break; }
      case L_LINK2: if constexpr (K) { int at = pick_in(a), x = pick_out(b); if (at < 0 || x < 0) return; tr("link_before %d, %d\n", at, x); Seq &r = rings[ringof(at)]; A::link_before(p(at), p(x)); r.insert(r.begin() + long(pos(r, at)), x); hit(o.k, uint64_t(at), uint64_t(x)); } break;
      case L_UNLINK: {
         int x = pick_in(a); if (x < 0) return; size_t ri = ringof(x); Seq &r = rings[ri]; size_t i = pos(r, x);
         if constexpr (K == 0) { if (i + 1 >= r.size()) return; int y = r[i + 1]; tr("unlink_after %d\n", x); A::unlink_after(p(x)); r.erase(r.begin() + long(i) + 1); A::init(p(y)); rings.push_back(Seq(1, y)); }
         else {
            if (K == 1 && (b & 1)) { if constexpr (K == 1) { int y = r[(i + 1) % r.size()]; tr("unlink_after %d\n", x); if (r.size() == 1) { A::unlink_after(p(x)); return; } A::unlink_after(p(x)); r.erase(std::find(r.begin(), r.end(), y)); loose(y); if (c & 1) init(y); } }
            else {
               if (K == 1 && (c & 7) == 0) { int y = pick_out(b); if (y >= 0 && state[size_t(y)] == 0) { tr("unlink the initialized %d\n", y); A::unlink(p(y)); hit(o.k, uint64_t(y)); return; } }
               tr("unlink %d\n", x);
               if constexpr (K == 2) { int nx = id(A::unlink(p(x))); VF_CHECK(nx == r[(i + 1) % r.size()], "unlink(%d) returned %d", x, nx); } else A::unlink(p(x));
               if (r.size() > 1) { r.erase(r.begin() + long(i)); loose(x); if (c & 1) init(x); }
            }
         }
         hit(o.k, uint64_t(x), rings.size()); break; }
      case L_UNLINK_R: {
         int x = pick_in(a); if (x < 0) return; Seq &r = rings[ringof(x)]; Seq v = K ? from(r, x) : Seq(r.begin() + long(pos(r, x)), r.end()); size_t m = b % (v.size() + (K ? 0 : 1)), s = K == 2 ? 0 : 1; Seq gone;
         if constexpr (K == 2) { tr("unlink [%d,%d)\n", x, v[m]); A::unlink(p(x), p(v[m])); gone.assign(v.begin(), v.begin() + long(m)); }
         else { if (m == 0) { if (K) { tr("unlink_after (%d,%d)\n", x, x); A::unlink_after(p(x), p(x)); gone.assign(v.begin() + 1, v.end()); } else return; }
            else { tr("unlink_after (%d,%d)\n", x, m < v.size() ? v[m] : -1); A::unlink_after(p(x), m < v.size() ? p(v[m]) : P()); gone.assign(v.begin() + 1, v.begin() + long(m)); } }
         (void)s; for (int y : gone) { r.erase(std::find(r.begin(), r.end(), y)); }
         for (int y : gone) { if (K) { loose(y); if (c & 1) init(y); } else { A::init(p(y)); rings.push_back(Seq(1, y)); } }
         hit(o.k, uint64_t(x), gone.size()); break; }
      case L_XFER: {     // a range to another place
         int q = pick_in(a), x = pick_in(b); if (q < 0 || x < 0) return;
         size_t ri = ringof(x); Seq v = K ? from(rings[ri], x) : Seq(rings[ri].begin() + long(pos(rings[ri], x)), rings[ri].end()); size_t m = c % v.size();
         if constexpr (K == 2) {   // [x, v[m]) before q
            if (ringof(q) == ri && pos(v, q) < m) return;
            tr("transfer before %d [%d,%d)\n", q, x, v[m]); A::transfer(p(q), p(x), p(v[m]));
            Seq mv(v.begin(), v.begin() + long(m)); Seq &r = rings[ri]; if (q != v[m]) { for (int y : mv) r.erase(std::find(r.begin(), r.end(), y)); Seq &t = rings[ringof(q)]; t.insert(t.begin() + long(pos(t, q)), mv.begin(), mv.end()); }
            hit(o.k, uint64_t(q) * 64 + uint64_t(x), m);
         }
         else {   // (x, v[m]] after q
            if (K == 0 && ringof(q) == ri) { size_t pq = pos(rings[ri], q), px = pos(rings[ri], x); if (pq > px && pq <= px + m) return; }
            else if (ringof(q) == ri && pos(v, q) >= 1 && pos(v, q) <= m) return;
            tr("transfer_after %d (%d,%d]\n", q, x, v[m]); A::transfer_after(p(q), p(x), p(v[m]));
            Seq mv(v.begin() + 1, v.begin() + long(m) + 1); Seq &r = rings[ri]; if (q != x) { for (int y : mv) r.erase(std::find(r.begin(), r.end(), y)); Seq &t = rings[ringof(q)]; t.insert(t.begin() + long(pos(t, q)) + 1, mv.begin(), mv.end()); }
            hit(o.k, uint64_t(q) * 64 + uint64_t(x), m);
         }
         break; }
      case L_XFER1: if constexpr (K == 2) {
         int q = pick_in(a), x = pick_in(b); if (q < 0 || x < 0) return; size_t ri = ringof(x); if (rings[ri].size() < 2) return;
         tr("transfer before %d, %d\n", q, x); A::transfer(p(q), p(x));
         if (q != x) { Seq &r = rings[ri]; r.erase(r.begin() + long(pos(r, x))); Seq &t = rings[ringof(q)]; t.insert(t.begin() + long(pos(t, q)), x); }
         hit(o.k, uint64_t(q), uint64_t(x)); } break;
      case L_XFER_ALL: if constexpr (K != 2) {
         int q = pick_in(a), x = pick_in(b); if (q < 0 || x < 0) return; size_t ri = ringof(x), qi = ringof(q); if (ri == qi) return;
         tr("transfer_after %d all of %d\n", q, x); A::transfer_after(p(q), p(x));
         Seq v = K ? from(rings[ri], x) : Seq(rings[ri].begin() + long(pos(rings[ri], x)), rings[ri].end()); Seq mv(v.begin() + 1, v.end());
         for (int y : mv) rings[ri].erase(std::find(rings[ri].begin(), rings[ri].end(), y)); Seq &t = rings[qi]; t.insert(t.begin() + long(pos(t, q)) + 1, mv.begin(), mv.end());
         hit(o.k, uint64_t(q) * 64 + uint64_t(x), mv.size()); } break;
      case L_SWAP: if constexpr (K) {
         int x = a % 3 ? pick_in(a) : int(a / 3) % n, y;
         if (x >= 0 && b % 4 == 0 && in(x)) { Seq v = from(rings[ringof(x)], x); y = v[(b / 4) % std::min<size_t>(v.size(), 3)]; } else y = b % 3 ? pick_in(b / 3) : int(b / 3) % n;
         if (x < 0 || y < 0 || (!in(x) && state[size_t(x)]) || (!in(y) && state[size_t(y)])) return;
         tr("swap_nodes %d %d\n", x, y); A::swap_nodes(p(x), p(y));
         for (Seq &r : rings) for (int &z : r) z = z == x ? y : z == y ? x : z;
         hit(o.k, uint64_t(x), uint64_t(y)); } break;
      case L_REV: {
         int x = pick_in(a); if (x < 0) return; size_t ri = ringof(x); Seq &r = rings[ri]; tr("reverse %d\n", x);
         if constexpr (K) { A::reverse(p(x)); Seq v = from(r, x); std::reverse(v.begin() + 1, v.end()); r = v; }
         else { size_t i = pos(r, x); int f = id(A::reverse(p(x))); std::reverse(r.begin() + long(i), r.end()); VF_CHECK(f == r[i], "reverse(%d) returned %d, the new first node is %d", x, f, r[i]); if (i) T::set_next(p(r[i - 1]), p(f)); if (a % 5 == 0) VF_CHECK(id(A::reverse(P())) == -1, "reverse of a null node"); }
         hit(o.k, uint64_t(x), rings[ri].size()); break; }
      case L_MOVEB: case L_MOVEF: {
         int x = pick_in(a); if (x < 0) return; size_t ri = ringof(x); Seq &r = rings[ri]; size_t m = b % 4 ? (b / 4) % (2 * r.size() + 2) : (b / 4) % 300;
         if constexpr (K) {      // the node goes m places on, in its ring
            Seq v = from(r, x); Seq w(v.begin() + 1, v.end()); size_t z = w.size(); P ret{};
            tr("%s %d by %zu\n", o.k == L_MOVEB ? "move_backwards" : "move_forward", x, m);
            if constexpr (K == 2) { if (o.k == L_MOVEB) A::move_backwards(p(x), m); else A::move_forward(p(x), m); }
            else ret = o.k == L_MOVEB ? A::move_backwards(p(x), m) : A::move_forward(p(x), m);
            size_t sh = z ? m % z : 0; rot(w, o.k == L_MOVEB ? sh : (z ? (z - sh) % z : 0)); v.assign(1, x); v.insert(v.end(), w.begin(), w.end()); r = v;
            if (K == 1) { int want = sh ? w.back() : -1; int got = id(ret); VF_CHECK(got == want, "moving %d returned %d, should be %d", x, got, want); }
            hit(o.k, uint64_t(x), sh * 64 + z);
         }
         else {
            size_t i = pos(r, x), z = r.size() - i; bool null = a % 23 == 0; tr("%s %d by %zu\n", o.k == L_MOVEB ? "move_first_n_backwards" : "move_first_n_forward", x, m);
            P q = null ? P() : p(x); auto ret = o.k == L_MOVEB ? A::move_first_n_backwards(q, m) : A::move_first_n_forward(q, m);
            size_t sh = null ? 0 : m % z; Seq w(r.begin() + long(i), r.end()); rot(w, o.k == L_MOVEB ? sh : (z - sh) % z); std::copy(w.begin(), w.end(), r.begin() + long(i));
            int f = id(ret.first), l = id(ret.second);
            VF_CHECK(sh ? f == w.front() && l == w.back() : f == -1 && l == -1, "moving from %d by %zu of %zu returned (%d,%d)", x, m, z, f, l);
            if (sh && i) T::set_next(p(r[i - 1]), p(f));
            hit(o.k, uint64_t(x), sh * 64 + z);
         }
         break; }
      case L_PART: {
         int x = pick_in(a); if (x < 0) return; size_t ri = ringof(x); Seq &r = rings[ri];
         Seq v = K ? from(r, x) : Seq(r.begin() + long(pos(r, x)), r.end()); size_t s = K == 2 ? 0 : 1;          // range [x, ...) or (x, ...)
         size_t m = s + c % std::max<size_t>(1, v.size() - s + (K == 0)); bool last = K != 2 && m >= v.size();                            // end of the range: v[m], or null
         if (K == 1 && m >= v.size()) m = v.size() - 1;
         if (K == 1 && s > m) return;
         int end = last ? (K ? x : -1) : v[m]; if (last && K == 1) end = x;
         Seq range(v.begin() + long(s), last ? v.end() : v.begin() + long(m)); uint32_t bits = b; int fl = o.a[3] % 3 ? -1 : int((o.a[3] / 3) % (range.size() + 2)); bool thrown = false;
         auto f = [bits](int i) { return ((bits >> (i % 20)) & 1) != 0; };
         typename A::stable_partition_info info; tr("stable_partition from %d, %zu nodes\n", x, range.size());
         try { A::stable_partition(p(x), end < 0 ? P() : p(end), pred(0, fl, f), info); } catch (Boom &) { thrown = true; }
         if (thrown) {     // still the same nodes, in a valid list
            Seq w; int y = K == 2 ? r[(pos(r, x) + r.size() - 1) % r.size()] : x; int stop = end; Seq u;
            if (K == 2) { if (y == end || range.size() == r.size()) y = end; }
            for (int z = id(T::get_next(p(y))); z != stop; z = id(T::get_next(p(z)))) { u.push_back(z); VF_CHECK(u.size() <= range.size(), "an exception left more nodes in the range"); }
            Seq s1(u), s2(range); std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); VF_CHECK(s1 == s2, "an exception left other nodes in the range"); w = u;
            Seq all(v); std::copy(w.begin(), w.end(), all.begin() + long(s)); if (K) r = all; else std::copy(all.begin(), all.end(), r.begin() + long(pos(r, x)));
         }
         else {
            Seq t(range); std::stable_partition(t.begin(), t.end(), f); size_t n1 = size_t(std::count_if(range.begin(), range.end(), f));
            VF_CHECK(info.num_1st_partition == n1 && info.num_2nd_partition == range.size() - n1, "stable_partition counted %zu and %zu of %zu and %zu", info.num_1st_partition, info.num_2nd_partition, n1, range.size() - n1);
            int want = n1 < range.size() ? t[n1] : end, got = id(info.beg_2st_partition); VF_CHECK(got == want, "the second partition begins at %d, should be %d", got, want);
            if constexpr (K != 2) { int lw = t.empty() ? x : t.back(), lg = id(info.new_last_node); VF_CHECK(lg == lw, "the last node is %d, should be %d", lg, lw); }
            Seq all(v); std::copy(t.begin(), t.end(), all.begin() + long(s)); if (K) r = all; else { size_t i = pos(r, x); std::copy(all.begin(), all.end(), r.begin() + long(i)); }
         }
         hit(o.k, uint64_t(x) * 2 + thrown, range.size() * 1000003 + bits % 1024); break; }
      case L_QUERY: {
         int x = pick_in(a), y = pick_in(b); if (x < 0) return; size_t ri = ringof(x); Seq &r = rings[ri]; Seq v = K ? from(r, x) : Seq(r.begin() + long(pos(r, x)), r.end());
         size_t cnt = A::count(p(x)); VF_CHECK(cnt == v.size(), "count(%d) is %zu, %zu nodes", x, cnt, v.size());
         VF_CHECK(A::is_empty(p(x)) == (v.size() == 1) && A::unique(p(x)) == (v.size() == 1), "is_empty/unique(%d) with %zu nodes", x, v.size());
         VF_CHECK(A::inited(p(x)) == (K == 0 && v.size() == 1), "inited(%d)", x);
         if (ringof(y) == ri && (K || pos(r, y) >= pos(r, x))) {
            size_t d = pos(v, y), got = A::distance(p(x), p(y)); VF_CHECK(got == d, "distance(%d,%d) is %zu, should be %zu", x, y, got, d);
            if constexpr (K == 1) {
               int pr = v[(d + v.size() - 1) % v.size()], pp = v[(d + 2 * v.size() - 2) % v.size()];
               int g1 = id(A::get_previous_node(p(y))), g2 = id(A::get_previous_node(p(x), p(y))), g3 = id(A::get_previous_previous_node(p(y))), g4 = id(A::get_previous_previous_node(p(x), p(y)));
               VF_CHECK(g1 == pr && g2 == pr, "the node before %d is said to be %d and %d, is %d", y, g1, g2, pr); VF_CHECK(g3 == pp && g4 == pp, "the second node before %d is said to be %d and %d, is %d", y, g3, g4, pp);
            }
            if constexpr (K == 0) { if (d) { int g1 = id(A::get_previous_node(p(x), p(y))); VF_CHECK(g1 == v[d - 1], "the node before %d is said to be %d", y, g1); } int g2 = id(A::get_previous_node(p(x), P())); VF_CHECK(g2 == r.back(), "the last node is said to be %d", g2); VF_CHECK(A::distance(p(x), P()) == v.size() && !A::end_node(p(x)), "distance to the end"); }
         }
         hit(o.k, uint64_t(x), uint64_t(y)); break; }
      case L_DISPOSE: if constexpr (K != 2) {
         int x = pick_in(a); if (x < 0) return; size_t ri = ringof(x); Seq &r = rings[ri]; size_t i = pos(r, x); Seq v = K ? from(r, x) : Seq(r.begin() + long(i), r.end()); Seq mv(v.begin() + 1, v.end()), got;
         tr("detach_and_dispose %d\n", x); size_t m = A::detach_and_dispose(p(x), [&](P q) { got.push_back(id(q)); A::init(q); T::set_next(q, p(x)); });
         VF_CHECK(m == mv.size() && got == mv, "detach_and_dispose returned %zu for %zu nodes or disposed others", m, mv.size());
         for (int y : mv) { r.erase(std::find(r.begin(), r.end(), y)); } for (int y : mv) { A::init(p(y)); state[size_t(y)] = 0; added(y); }
         hit(o.k, uint64_t(x), mv.size()); } break;
      case L_DISPOSE_R: if constexpr (K != 2) {
         int x = pick_in(a); if (x < 0) return; size_t ri = ringof(x); Seq &r = rings[ri]; size_t i = pos(r, x); Seq v = K ? from(r, x) : Seq(r.begin() + long(i), r.end()); if (v.size() < 2) return; size_t m = 1 + b % (v.size() - 1); Seq mv, got;
         auto d = [&](P q) { got.push_back(id(q)); T::set_next(q, p(x)); };
         if (c & 1) { tr("unlink_after_and_dispose %d\n", x); A::unlink_after_and_dispose(p(x), d); mv.assign(1, v[1]); }
         else { bool toend = K == 0 && m == v.size() - 1 && (c & 2); size_t e = toend ? v.size() : m; tr("unlink_after_and_dispose (%d,%d)\n", x, toend ? -1 : v[e]); size_t k = A::unlink_after_and_dispose(p(x), toend ? P() : p(v[e]), d); mv.assign(v.begin() + 1, v.begin() + long(e)); VF_CHECK(k == mv.size(), "unlink_after_and_dispose returned %zu for %zu nodes", k, mv.size()); }
         VF_CHECK(got == mv, "unlink_after_and_dispose disposed other nodes");
         for (int y : mv) { r.erase(std::find(r.begin(), r.end(), y)); } for (int y : mv) { A::init(p(y)); state[size_t(y)] = 0; added(y); }
         hit(o.k, uint64_t(x), mv.size()); } break;
      case L_CHAIN: if constexpr (K != 2) {    // several loose nodes, chained by hand, enter at once
         int at = pick_in(a); Seq ch; for (uint32_t j = 0; j < 1 + b % 5; ++j) { int y = pick_out(b + j * 7 + c); if (y >= 0 && y != at && std::find(ch.begin(), ch.end(), y) == ch.end()) ch.push_back(y); } if (at < 0 || ch.empty()) return;
         for (int y : ch) leave(y); drop_empty(); for (size_t j = 0; j + 1 < ch.size(); ++j) T::set_next(p(ch[j]), p(ch[j + 1]));
         tr("incorporate_after %d, %zu nodes\n", at, ch.size()); A::incorporate_after(p(at), p(ch.front()), p(ch.back())); Seq &r = rings[ringof(at)]; r.insert(r.begin() + long(pos(r, at)) + 1, ch.begin(), ch.end()); hit(o.k, uint64_t(at), ch.size()); } break;
      case L_SENT: if constexpr (K == 0) { int x = pick_out(a); if (x < 0) return; VF_CHECK(!A::is_sentinel(p(x)), "is_sentinel of an empty list"); A::set_sentinel(p(x)); VF_CHECK(A::is_sentinel(p(x)) && !A::is_empty(p(x)) && !A::inited(p(x)), "set_sentinel"); if (b & 1) A::init(p(x)); else A::init_header(p(x)); VF_CHECK(!A::is_sentinel(p(x)) && A::is_empty(p(x)), "a sentinel reinitialized"); hit(o.k, uint64_t(x)); } break;
      case L_SWAPTAIL: if constexpr (K == 0) {
         int x = pick_in(a), y = pick_in(b); if (x < 0 || x == y || ringof(x) == ringof(y)) return; Seq &r = rings[ringof(x)], &s = rings[ringof(y)]; size_t i = pos(r, x), j = pos(s, y); tr("swap_trailing_nodes %d %d\n", x, y);
         A::swap_trailing_nodes(p(x), p(y)); Seq t1(r.begin() + long(i) + 1, r.end()), t2(s.begin() + long(j) + 1, s.end()); r.resize(i + 1); s.resize(j + 1); r.insert(r.end(), t2.begin(), t2.end()); s.insert(s.end(), t1.begin(), t1.end()); hit(o.k, uint64_t(x), uint64_t(y)); } break;
      }
   }
};

// ---- trees --------------------------------------------------------------------------
enum { BS, RB, AVL, SG, SPL, TR };
enum { T_BEFORE = 40, T_BACK, T_FRONT, T_EQ, T_EQ_HINT, T_UNIQ, T_ERASE, T_UNLINK, T_LEFT, T_REPL, T_SWAPN, T_SWAPT, T_CLEAR, T_CLONE, T_XFER, T_REBAL, T_NODE, T_FIND, T_RANGE, T_SPLAY };

template <class T, int K> struct Pick;
template <class T> struct Pick<T, BS> { typedef bi::bstree_algorithms<T> A; };
template <class T> struct Pick<T, RB> { typedef bi::rbtree_algorithms<T> A; };
template <class T> struct Pick<T, AVL> { typedef bi::avltree_algorithms<T> A; };
template <class T> struct Pick<T, SG> { typedef bi::sgtree_algorithms<T> A; };
template <class T> struct Pick<T, SPL> { typedef bi::splaytree_algorithms<T> A; };
template <class T> struct Pick<T, TR> { typedef bi::treap_algorithms<T> A; };

template <class T, int K> struct Trees {
   typedef typename Pick<T, K>::A A; typedef typename T::node_ptr P; typedef typename T::const_node_ptr CP;
   struct N : T::node { int key = 0, pri = 0, id = 0; bool in = false; N() : T::node() {} };
   static N *n(CP q) { return const_cast<N *>(static_cast<const N *>(raw(q))); }
   static P p(N *x) { return P(static_cast<typename T::node *>(x)); }
   struct Cmp { bool operator()(CP a, CP b) const { return n(a)->key < n(b)->key; } };
   struct KCmp { bool operator()(CP a, int b) const { return n(a)->key < b; } bool operator()(int a, CP b) const { return a < n(b)->key; } };
   struct PCmp { bool operator()(CP a, CP b) const { return n(a)->pri < n(b)->pri; } };
   struct PKCmp { bool operator()(CP a, int b) const { return n(a)->pri < b; } bool operator()(int a, CP b) const { return a < n(b)->pri; } };
   struct HAlpha { double f; size_t operator()(size_t m) const { return size_t(std::log(double(m)) / f + 1e-9); } };
   struct AlphaMax { double al; size_t operator()(size_t m) const { return size_t(al * double(m)); } };
   N hd[2]; std::vector<N *> m[2]; size_t mx[2] = {0, 0}, peak[2] = {0, 0}; double alpha = 0.7; HAlpha ha; AlphaMax am; bool sorted; std::vector<N *> all;
   P h(int c) { return p(&hd[c]); }
   static void run(const Case &c) { Trees t; t.go(c); for (N *x : t.all) delete x; }
   int range = 1, prange = 1;
   N *fresh(int key, uint32_t r) { if (all.size() > 700) return nullptr; N *x = new N; x->key = key; x->pri = int(r % unsigned(prange)); x->id = int(all.size()); all.push_back(x); A::init(p(x)); VF_CHECK(A::inited(p(x)) && A::unique(p(x)), "init(): the node is not inited()"); return x; }
   // ---- adapters: the kinds take different extra arguments
   void grown(int c) { peak[c] = std::max(peak[c], m[c].size()); }
   P ins_before(int c, P pos, P x) { if constexpr (K == SG) return A::insert_before(h(c), pos, x, m[c].size(), ha, mx[c]); else if constexpr (K == TR) return A::insert_before(h(c), pos, x, PCmp()); else return A::insert_before(h(c), pos, x); }
   void back(int c, P x) { if constexpr (K == SG) A::push_back(h(c), x, m[c].size(), ha, mx[c]); else if constexpr (K == TR) A::push_back(h(c), x, PCmp()); else A::push_back(h(c), x); }
   void front(int c, P x) { if constexpr (K == SG) A::push_front(h(c), x, m[c].size(), ha, mx[c]); else if constexpr (K == TR) A::push_front(h(c), x, PCmp()); else A::push_front(h(c), x); }
   P eq_ub(int c, P x) { if constexpr (K == SG) return A::insert_equal_upper_bound(h(c), x, Cmp(), m[c].size(), ha, mx[c]); else if constexpr (K == TR) return A::insert_equal_upper_bound(h(c), x, Cmp(), PCmp()); else return A::insert_equal_upper_bound(h(c), x, Cmp()); }
   P eq_lb(int c, P x) { if constexpr (K == SG) return A::insert_equal_lower_bound(h(c), x, Cmp(), m[c].size(), ha, mx[c]); else if constexpr (K == TR) return A::insert_equal_lower_bound(h(c), x, Cmp(), PCmp()); else return A::insert_equal_lower_bound(h(c), x, Cmp()); }
   P eq_hint(int c, P hint, P x) { if constexpr (K == SG) return A::insert_equal(h(c), hint, x, Cmp(), m[c].size(), ha, mx[c]); else if constexpr (K == TR) return A::insert_equal(h(c), hint, x, Cmp(), PCmp()); else return A::insert_equal(h(c), hint, x, Cmp()); }
   void erase(int c, P x) { if constexpr (K == SG) A::erase(h(c), x, m[c].size(), mx[c], am); else if constexpr (K == TR) A::erase(h(c), x, PCmp()); else A::erase(h(c), x); }
   // ---- model helpers
   size_t lb(int c, int k) { return size_t(std::lower_bound(m[c].begin(), m[c].end(), k, [](N *a, int b) { return a->key < b; }) - m[c].begin()); }
   size_t ub(int c, int k) { return size_t(std::upper_bound(m[c].begin(), m[c].end(), k, [](int b, N *a) { return b < a->key; }) - m[c].begin()); }
   P at(int c, size_t i) { return i < m[c].size() ? p(m[c][i]) : h(c); }
   void isat(int c, CP got, size_t i, const char *what) { VF_CHECK(raw(got) == raw(at(c, i)), "%s: another node than that at position %zu of %zu", what, i, m[c].size()); }
   void madd(int c, size_t i, N *x) { m[c].insert(m[c].begin() + long(i), x); x->in = true; grown(c); }
   void mdel(int c, size_t i) { m[c][i]->in = false; m[c].erase(m[c].begin() + long(i)); if (m[c].empty()) peak[c] = 0; }
   // ---- structure of both trees with their metadata
   struct Row { const void *pa, *le, *ri; int meta; bool operator==(const Row &o) const { return pa == o.pa && le == o.le && ri == o.ri && meta == o.meta; } };
   static int meta(CP q) { if constexpr (K == RB) return T::get_color(q) == T::black() ? 1 : 0; else if constexpr (K == AVL) return T::get_balance(q) == T::zero() ? 0 : T::get_balance(q) == T::positive() ? 1 : T::get_balance(q) == T::negative() ? -1 : 99; else return 0; }
   std::map<const void *, Row> shape() { std::map<const void *, Row> s; for (int c = 0; c < 2; ++c) { s[raw(h(c))] = Row{raw(T::get_parent(h(c))), raw(T::get_left(h(c))), raw(T::get_right(h(c))), 0}; for (N *x : m[c]) s[raw(p(x))] = Row{raw(T::get_parent(p(x))), raw(T::get_left(p(x))), raw(T::get_right(p(x))), meta(p(x))}; } return s; }
   static std::map<const void *, Row> renamed(const std::map<const void *, Row> &s, const void *a, const void *b) { auto f = [&](const void *q) { return q == a ? b : q == b ? a : q; }; std::map<const void *, Row> r; for (auto &kv : s) r[f(kv.first)] = Row{f(kv.second.pa), f(kv.second.le), f(kv.second.ri), kv.second.meta}; return r; }
   struct W { long h; long bh; size_t cnt; };
   W walk(int c, P q, CP parent, size_t &i) {
      if (!q) return W{0, 0, 0};
      VF_CHECK(i < m[c].size() + 1, "tree %d holds more than the %zu nodes it should", c, m[c].size());
      VF_CHECK(raw(T::get_parent(q)) == raw(parent), "tree %d: node %d has another parent", c, n(q)->id);
      W a = walk(c, T::get_left(q), q, i);
      VF_CHECK(i < m[c].size() && n(q) == m[c][i], "tree %d: node %d is in position %zu, which is that of node %d", c, n(q)->id, i, i < m[c].size() ? m[c][i]->id : -1); ++i;
      W b = walk(c, T::get_right(q), q, i);
      if (K == RB) { VF_CHECK(a.bh == b.bh, "tree %d: node %d has %ld and %ld black nodes below", c, n(q)->id, a.bh, b.bh); if (meta(q) == 0) VF_CHECK((!T::get_left(q) || meta(T::get_left(q))) && (!T::get_right(q) || meta(T::get_right(q))), "tree %d: the red node %d has a red child", c, n(q)->id); }
      if (K == AVL) VF_CHECK(meta(q) == b.h - a.h, "tree %d: node %d has balance %d, heights %ld and %ld", c, n(q)->id, meta(q), a.h, b.h);
      if (K == TR) for (P ch : {P(T::get_left(q)), P(T::get_right(q))}) if (ch) VF_CHECK(n(ch)->pri >= n(q)->pri, "tree %d: node %d has a child of a better priority", c, n(q)->id);
      return W{1 + std::max(a.h, b.h), a.bh + (meta(q) == 1), a.cnt + b.cnt + 1};
   }
   void check() {
      for (int c = 0; c < 2; ++c) {
         size_t i = 0; P r = T::get_parent(h(c)); W w = walk(c, r, h(c), i);
         VF_CHECK(w.cnt == m[c].size(), "tree %d holds %zu nodes, should hold %zu", c, w.cnt, m[c].size());
         if (m[c].empty()) VF_CHECK(raw(T::get_left(h(c))) == raw(h(c)) && raw(T::get_right(h(c))) == raw(h(c)), "tree %d: the header of an empty tree", c);
         else { isat(c, T::get_left(h(c)), 0, "leftmost of the header"); isat(c, T::get_right(h(c)), m[c].size() - 1, "rightmost of the header"); }
         if (K == RB) VF_CHECK(meta(h(c)) == 0 && (!r || meta(r) == 1), "tree %d: colour of the header or the root", c);
         if (K == SG && sgok && m[c].size() > 1) VF_CHECK(size_t(w.h - 1) <= HAlpha{ha.f}(peak[c]) + 1, "tree %d: height %ld with at most %zu nodes since it was empty", c, w.h, peak[c]);
         g().maxsize = std::max(g().maxsize, m[c].size());
      }
   }
   bool sgok = true;
   void go(const Case &cs) {
      range = 1 + int(cs.cfg[1] % 60); sorted = (cs.cfg[2] & 3) != 0; prange = cs.cfg[3] % 3 == 0 ? 1 + int(cs.cfg[3] / 3 % 6) : 1000000; alpha = 0.55 + double(cs.cfg[4] % 40) / 100; ha.f = std::log(1 / alpha); am.al = alpha;
      for (int c = 0; c < 2; ++c) { A::init_header(h(c)); VF_CHECK(A::unique(h(c)), "an empty tree is not unique()"); }
      int k = -1;
      size_t pre = cs.cfg[5] % 5 == 0 ? cs.cfg[6] % 120 : cs.cfg[6] % 12; Rng r(cs.cfg[7]);
      for (size_t i = 0; i < pre; ++i) if (N *x = fresh(sorted ? int(r.below(unsigned(range))) : 0, r.u32())) { int c = int(r.below(4) == 0); if (sorted) { size_t q = ub(c, x->key); eq_ub(c, p(x)); madd(c, q, x); } else { size_t q = r.below(unsigned(m[c].size() + 1)); ins_before(c, at(c, q), p(x)); madd(c, q, x); } }
      check();
      for (const Op &o : cs.ops) { g().opi = ++k; step(o); check(); }
      for (int c = 0; c < 2; ++c) { A::clear_and_dispose(h(c), [](P) {}); VF_CHECK(A::unique(h(c)) && A::size(h(c)) == 0, "clear_and_dispose left something"); }
   }
   void step(const Op &o) {
      int c = int(o.a[0] & 1); size_t sz = m[c].size(); uint32_t a = o.a[1], b = o.a[2]; int key = int(a % unsigned(range)) - 0;
      switch (o.k) {
      case T_BEFORE: {
         size_t i = a % (sz + 1); int kk = 0; if (sorted) { int lo = i ? m[c][i - 1]->key : sz ? std::min(0, m[c][0]->key) : 0, hi = i < sz ? m[c][i]->key : range - 1; if (hi < lo) hi = lo; kk = lo + int(b % unsigned(hi - lo + 1)); }
         N *x = fresh(kk, o.a[3]); if (!x) return; tr("insert_before @%zu key %d (tree %d, %zu)\n", i, kk, c, sz); P r = ins_before(c, at(c, i), p(x)); VF_CHECK(raw(r) == raw(p(x)), "insert_before returned another node"); madd(c, i, x); if (K == SPL) isroot(c, x, "insert_before"); hit(int(o.k), i, sz); break; }
      case T_BACK: case T_FRONT: {
         bool bk = o.k == T_BACK; int kk = 0; if (sorted) kk = !sz ? key : bk ? m[c].back()->key + int(b % 2) : m[c].front()->key - int(b % 2);
         N *x = fresh(kk, o.a[3]); if (!x) return; tr("push_%s key %d (tree %d, %zu)\n", bk ? "back" : "front", kk, c, sz); if (bk) { back(c, p(x)); madd(c, sz, x); } else { front(c, p(x)); madd(c, 0, x); } hit(int(o.k), sz); break; }
      case T_EQ: { if (!sorted) return; N *x = fresh(key, o.a[3]); if (!x) return; bool up = b & 1; size_t i = up ? ub(c, key) : lb(c, key); tr("insert_equal_%s_bound key %d (tree %d, %zu)\n", up ? "upper" : "lower", key, c, sz); P r = up ? eq_ub(c, p(x)) : eq_lb(c, p(x)); VF_CHECK(raw(r) == raw(p(x)), "insert_equal returned another node"); madd(c, i, x); hit(int(o.k), uint64_t(key), sz); break; }
      case T_EQ_HINT: {
         if (!sorted) return; N *x = fresh(key, o.a[3]); if (!x) return; size_t hi = b % (sz + 1); if (o.a[4] % 3 == 0) hi = lb(c, key) + o.a[4] / 3 % (ub(c, key) - lb(c, key) + 1);
         size_t lo = lb(c, key), up = ub(c, key); tr("insert_equal hint @%zu key %d (tree %d, %zu)\n", hi, key, c, sz); P r = eq_hint(c, at(c, hi), p(x)); VF_CHECK(raw(r) == raw(p(x)), "insert_equal returned another node");
         // as near to the hint as the order allows
         size_t want = hi < lo ? lo : hi > up ? up : hi; size_t i = 0; for (P q = A::begin_node(h(c)); raw(q) != raw(h(c)) && raw(q) != raw(p(x)); q = A::next_node(q)) { ++i; VF_CHECK(i <= sz, "iteration does not end"); }
         VF_CHECK(i == want, "with the hint %zu the node went to position %zu, should be %zu", hi, i, want); madd(c, want, x); hit(int(o.k), hi, sz); break; }
      case T_UNIQ: {
         if (!sorted) return; typename A::insert_commit_data d; bool hinted = b & 1; size_t hi = (b >> 1) % (sz + 1); size_t lo = lb(c, key), up = ub(c, key); int pr = int(o.a[3] % unsigned(prange)); std::pair<P, bool> r;
         if (hinted && o.a[4] % 2 == 0) hi = std::min(sz, lo + o.a[4] / 2 % 2);
         tr("insert_unique_check %d %s@%zu (tree %d, %zu)\n", key, hinted ? "hint " : "", hi, c, sz);
         if constexpr (K == TR) r = hinted ? A::insert_unique_check(h(c), at(c, hi), key, KCmp(), pr, PKCmp(), d) : A::insert_unique_check(h(c), key, KCmp(), pr, PKCmp(), d);
         else r = hinted ? A::insert_unique_check(h(c), at(c, hi), key, KCmp(), d) : A::insert_unique_check(h(c), key, KCmp(), d);
         VF_CHECK(r.second == (lo == up), "insert_unique_check(%d) says %d, %zu equivalents are there", key, r.second, up - lo);
         if (!r.second) { VF_CHECK(raw(r.first) && raw(r.first) != raw(h(c)) && n(r.first)->key == key, "insert_unique_check(%d) returned another node", key); hit(int(o.k), uint64_t(key), sz); return; }
         N *x = fresh(key, 0); if (!x) return; x->pri = pr;
         if constexpr (K == SG) A::insert_unique_commit(h(c), p(x), d, sz, ha, mx[c]); else A::insert_unique_commit(h(c), p(x), d);
         madd(c, lo, x); hit(int(o.k), uint64_t(key), sz); break; }
      case T_ERASE: { if (!sz) return; size_t i = a % sz; N *x = m[c][i]; tr("erase @%zu (tree %d, %zu)\n", i, c, sz); erase(c, p(x)); mdel(c, i); hit(int(o.k), i, sz); break; }
      case T_UNLINK: if constexpr (K != SG) { if (!sz) return; size_t i = a % sz; N *x = m[c][i]; tr("unlink @%zu (tree %d, %zu)\n", i, c, sz); if constexpr (K == TR) A::unlink(p(x), PCmp()); else A::unlink(p(x)); mdel(c, i); if (b & 1) { A::init(p(x)); VF_CHECK(A::inited(p(x)), "init()"); if constexpr (K != TR) if (b & 2) A::unlink(p(x)); } hit(int(o.k), i, sz); } break;
      case T_LEFT: { tr("unlink_leftmost_without_rebalance until empty (tree %d, %zu)\n", c, sz); for (size_t i = 0; i <= sz; ++i) { P q = A::unlink_leftmost_without_rebalance(h(c)); VF_CHECK(i < sz ? raw(q) == raw(p(m[c][i])) : !q, "unlink_leftmost_without_rebalance: wrong node at step %zu", i); } for (N *x : m[c]) x->in = false; m[c].clear(); peak[c] = 0; mx[c] = 0; hit(int(o.k), sz); break; }
      case T_REPL: { if (!sz) return; size_t i = a % sz; N *x = m[c][i], *y = fresh(x->key, 0); if (!y) return; y->pri = x->pri; auto s = shape(); tr("replace_node @%zu (tree %d, %zu)\n", i, c, sz); if (b & 1) A::replace_node(p(x), p(y)); else A::replace_node(p(x), h(c), p(y));
         m[c][i] = y; x->in = false; y->in = true; VF_CHECK(shape() == renamed(s, raw(p(x)), raw(p(y))), "replace_node changed more than the node"); hit(int(o.k), i, sz); break; }
      case T_SWAPN: {
         int d = int(o.a[3] & 1); if (!sz || m[d].empty()) return; size_t i = a % sz, j = b % m[d].size(); N *x = m[c][i], *y;
         if (o.a[4] % 3 == 0) {      // a relative of the first
            P q = o.a[4] % 9 == 0 ? T::get_parent(p(x)) : o.a[4] % 9 == 3 ? T::get_left(p(x)) : T::get_right(p(x)); if (!q || raw(q) == raw(h(c))) return; d = c; y = n(q); j = size_t(std::find(m[d].begin(), m[d].end(), y) - m[d].begin());
         } else y = m[d][j];
         if (sorted && x->key != y->key) { bool ok = c == d ? false : (i == 0 || m[c][i - 1]->key <= y->key) && (i + 1 == sz || y->key <= m[c][i + 1]->key) && (j == 0 || m[d][j - 1]->key <= x->key) && (j + 1 == m[d].size() || x->key <= m[d][j + 1]->key); if (!ok) { if (c == d && i + 1 != j && j + 1 != i) return; std::swap(x->key, y->key); } }
         if (K == TR && x->pri != y->pri) std::swap(x->pri, y->pri);
         auto s = shape(); tr("swap_nodes @%zu of tree %d, @%zu of tree %d\n", i, c, j, d);
         if (b & 1) A::swap_nodes(p(x), p(y)); else A::swap_nodes(p(x), h(c), p(y), h(d));
         m[c][i] = y; m[d][j] = x; VF_CHECK(shape() == renamed(s, raw(p(x)), raw(p(y))), "swap_nodes changed more than the positions of the two nodes"); hit(int(o.k), i * 1000 + j, sz); break; }
      case T_SWAPT: { tr("swap_tree\n"); if (b % 7 == 0) A::swap_tree(h(c), h(c)); else { auto s = shape(); A::swap_tree(h(0), h(1)); m[0].swap(m[1]); std::swap(mx[0], mx[1]); std::swap(peak[0], peak[1]); } hit(int(o.k), m[0].size(), m[1].size()); break; }
      case T_CLEAR: { std::multiset<N *> want(m[c].begin(), m[c].end()), got; tr("clear_and_dispose (tree %d, %zu)\n", c, sz); A::clear_and_dispose(h(c), [&](P q) { got.insert(n(q)); A::init(q); }); VF_CHECK(got == want, "clear_and_dispose disposed other nodes"); for (N *x : m[c]) x->in = false; m[c].clear(); peak[c] = mx[c] = 0; hit(int(o.k), sz); break; }
      case T_CLONE: {
         int d = 1 - c; if (all.size() + m[d].size() > 650) return; int fl = b % 3 == 0 ? int(b / 3 % (m[d].size() + 1)) : -1; std::map<N *, N *> of; std::multiset<N *> gone, old(m[c].begin(), m[c].end()); bool thrown = false; std::vector<N *> src(m[d]);
         tr("clone tree %d (%zu) into tree %d (%zu), exception after %d\n", d, src.size(), c, sz, fl);
         try { A::clone(h(d), h(c), [&](CP q) -> P { if (fl >= 0 && fl-- == 0) throw Boom{2}; N *x = fresh(n(q)->key, 0); VF_CHECK(x && !of.count(n(q)), "a node is cloned twice"); x->pri = n(q)->pri; of[n(q)] = x; return p(x); }, [&](P q) { gone.insert(n(q)); A::init(q); }); } catch (Boom &) { thrown = true; }
         for (N *x : m[c]) x->in = false; m[c].clear();
         if (thrown) { for (auto &kv : of) old.insert(kv.second); VF_CHECK(gone == old, "clone with an exception: %zu nodes disposed, %zu had to be", gone.size(), old.size()); peak[c] = mx[c] = 0; }
         else { VF_CHECK(gone == old, "clone disposed other nodes than those of the target"); VF_CHECK(of.size() == src.size(), "clone made %zu nodes of %zu", of.size(), src.size()); for (N *x : src) { m[c].push_back(of[x]); of[x]->in = true; } mx[c] = mx[d]; peak[c] = peak[d];
            for (N *x : src) { N *y = of[x]; auto cl = [&](P q) -> const void * { if (!q) return nullptr; if (raw(q) == raw(h(d))) return raw(h(c)); return raw(p(of[n(q)])); }; VF_CHECK(cl(T::get_parent(p(x))) == raw(T::get_parent(p(y))) && cl(T::get_left(p(x))) == raw(T::get_left(p(y))) && cl(T::get_right(p(x))) == raw(T::get_right(p(y))) && meta(p(x)) == meta(p(y)), "the clone of node %d is linked another way", x->id); } }
         hit(int(o.k), src.size() * 2 + thrown, sz); break; }
      case T_XFER: {
         int d = 1 - c; if (!sorted || m[d].empty()) return; size_t j = a % m[d].size(); N *x = m[d][j]; bool uniq = b & 1; size_t lo = lb(c, x->key), up = ub(c, x->key); bool done = true;
         tr("transfer_%s @%zu of tree %d (%zu) into tree %d (%zu)\n", uniq ? "unique" : "equal", j, d, m[d].size(), c, sz);
         if constexpr (K == SG) { if (uniq) done = A::transfer_unique(h(c), Cmp(), sz, mx[c], h(d), p(x), m[d].size(), mx[d], ha, am); else A::transfer_equal(h(c), Cmp(), sz, mx[c], h(d), p(x), m[d].size(), mx[d], ha, am); }
         else if constexpr (K == TR) { if (uniq) done = A::transfer_unique(h(c), Cmp(), PCmp(), h(d), p(x)); else A::transfer_equal(h(c), Cmp(), PCmp(), h(d), p(x)); }
         else { if (uniq) done = A::transfer_unique(h(c), Cmp(), h(d), p(x)); else A::transfer_equal(h(c), Cmp(), h(d), p(x)); }
         VF_CHECK(done == (!uniq || lo == up), "transfer_unique returned %d with %zu equivalents", done, up - lo);
         if (done) { mdel(d, j); madd(c, up, x); } hit(int(o.k), j * 2 + done, sz); break; }
      case T_REBAL: if constexpr (K == BS || K == SG || K == SPL) {
         if (b % 3 == 0) { tr("rebalance tree %d (%zu)\n", c, sz); A::rebalance(h(c)); long hh = height(T::get_parent(h(c))); VF_CHECK(hh <= long(sz ? std::floor(std::log2(double(sz))) + 1 : 0), "a rebalanced tree of %zu nodes has height %ld", sz, hh); }
         else { if (!sz) return; size_t i = a % sz; std::set<const void *> below, after; collect(p(m[c][i]), below); auto s = shape(); const void *pa = raw(T::get_parent(p(m[c][i])));
            tr("rebalance_subtree @%zu of tree %d (%zu), %zu nodes\n", i, c, sz, below.size()); P r = A::rebalance_subtree(p(m[c][i])); collect(r, after); VF_CHECK(below == after && raw(T::get_parent(r)) == pa, "rebalance_subtree returned the root of other nodes");
            long hh = height(r); VF_CHECK(hh <= long(std::floor(std::log2(double(below.size())))) + 1, "a rebalanced subtree of %zu nodes has height %ld", below.size(), hh);
            auto s2 = shape(); for (auto &kv : s) if (!below.count(kv.first)) { Row u = kv.second, v = s2[kv.first]; auto same = [&](const void *x, const void *y) { return x == y || (below.count(x) && y == raw(r)); }; VF_CHECK(u.pa == v.pa || kv.first == raw(h(c)), "rebalance_subtree changed a node outside"); if (kv.first != raw(h(c))) VF_CHECK(same(u.le, v.le) && same(u.ri, v.ri), "rebalance_subtree changed a node outside"); } }
         hit(int(o.k), a % (sz + 1), sz); } break;
      case T_NODE: {
         VF_CHECK(raw(A::end_node(h(c))) == raw(h(c)), "end_node"); isat(c, A::begin_node(h(c)), 0, "begin_node"); VF_CHECK(A::unique(h(c)) == !sz, "unique(header)"); VF_CHECK(A::size(h(c)) == sz, "size() is %zu, %zu nodes", A::size(h(c)), sz);
         VF_CHECK(raw(A::root_node(h(c))) == raw(sz ? P(T::get_parent(h(c))) : h(c)), "root_node"); VF_CHECK(A::is_header(h(c)), "is_header(header) of a tree of %zu nodes", sz);
         if (sz) isat(c, A::prev_node(h(c)), sz - 1, "prev_node(header)");
         if (!sz) return; size_t i = a % sz; P q = p(m[c][i]); isat(c, A::next_node(q), i + 1, "next_node"); if (i) isat(c, A::prev_node(q), i - 1, "prev_node"); VF_CHECK(!A::is_header(q), "is_header(node %d) in a tree of %zu nodes", m[c][i]->id, sz); VF_CHECK(raw(A::get_header(q)) == raw(h(c)), "get_header"); VF_CHECK(!A::unique(q) && !A::inited(q), "unique/inited of a contained node");
         size_t d = 0; for (P z = q; raw(T::get_parent(z)) != raw(h(c)); z = T::get_parent(z)) ++d; VF_CHECK(A::depth(q) == d, "depth is %zu, should be %zu", A::depth(q), d);
         { std::set<const void *> below; collect(q, below); size_t lo = i, hi = i; while (lo && below.count(raw(p(m[c][lo - 1])))) --lo; while (hi + 1 < sz && below.count(raw(p(m[c][hi + 1])))) ++hi; isat(c, A::minimum(q), lo, "minimum"); isat(c, A::maximum(q), hi, "maximum"); }
         hit(int(o.k), i, sz); break; }
      case T_FIND: {
         if (!sorted) return; size_t lo = lb(c, key), up = ub(c, key); CP ch = h(c); bool nc = K == SPL && (b & 64);
         tr("look for %d (tree %d, %zu)\n", key, c, sz);
         switch (b % 5) {
         case 0: { P r = nc ? A::find(h(c), key, KCmp()) : A::find(ch, key, KCmp()); if (lo == up) VF_CHECK(raw(r) == raw(h(c)), "find(%d) found something", key); else if (K == SPL) VF_CHECK(raw(r) != raw(h(c)) && n(r)->key == key, "find(%d)", key); else isat(c, r, lo, "find"); break; }
         case 1: isat(c, nc ? A::lower_bound(h(c), key, KCmp()) : A::lower_bound(ch, key, KCmp()), lo, "lower_bound"); break;
         case 2: isat(c, nc ? A::upper_bound(h(c), key, KCmp()) : A::upper_bound(ch, key, KCmp()), up, "upper_bound"); break;
         case 3: { auto r = nc ? A::equal_range(h(c), key, KCmp()) : A::equal_range(ch, key, KCmp()); isat(c, r.first, lo, "equal_range.first"); isat(c, r.second, up, "equal_range.second"); break; }
         default: { size_t k = nc ? A::count(h(c), key, KCmp()) : A::count(ch, key, KCmp()); VF_CHECK(k == up - lo, "count(%d) is %zu, should be %zu", key, k, up - lo); }
         } hit(int(o.k), uint64_t(key) * 5 + b % 5, sz); break; }
      case T_RANGE: {
         if (!sorted) return; CP ch = h(c); int k2 = int(b % unsigned(range)); if (k2 < key) std::swap(k2, key); bool l = o.a[3] & 1, r = o.a[3] & 2; if (key == k2 && !l && !r) l = true;
         if (o.a[3] & 4) { auto z = A::lower_bound_range(ch, key, KCmp()); isat(c, z.first, lb(c, key), "lower_bound_range.first"); isat(c, z.second, lb(c, key) + (lb(c, key) != ub(c, key)), "lower_bound_range.second"); }
         else { auto z = K == SPL && (o.a[3] & 8) ? A::bounded_range(h(c), key, k2, KCmp(), l, r) : A::bounded_range(ch, key, k2, KCmp(), l, r); isat(c, z.first, l ? lb(c, key) : ub(c, key), "bounded_range.first"); isat(c, z.second, r ? ub(c, k2) : lb(c, k2), "bounded_range.second"); }
         hit(int(o.k), uint64_t(key) * 64 + uint64_t(k2), sz); break; }
      case T_SPLAY: if constexpr (K == SPL) {
         if (b & 1) { if (!sz) return; size_t i = a % sz; tr("splay_up @%zu (tree %d, %zu)\n", i, c, sz); A::splay_up(p(m[c][i]), h(c)); isroot(c, m[c][i], "splay_up"); hit(int(o.k), i, sz); }
         else { if (!sorted) return; bool found = false; tr("splay_down %d (tree %d, %zu)\n", key, c, sz); P r = A::splay_down(h(c), key, KCmp(), &found); bool there = lb(c, key) != ub(c, key); VF_CHECK(found == there, "splay_down(%d) says %d", key, found); if (sz) { VF_CHECK(raw(r) == raw(P(T::get_parent(h(c)))), "splay_down returned another node than the root"); if (there) VF_CHECK(n(r)->key == key, "splay_down(%d) brought another node to the root", key); } hit(int(o.k), uint64_t(key), sz); } } break;
      }
   }
   void isroot(int c, N *x, const char *what) { VF_CHECK(raw(P(T::get_parent(h(c)))) == raw(p(x)), "%s: the node is not at the root", what); }
   static void collect(P q, std::set<const void *> &s) { if (!q) return; s.insert(raw(q)); collect(T::get_left(q), s); collect(T::get_right(q), s); }
   static long height(P q) { return q ? 1 + std::max(height(T::get_left(q)), height(T::get_right(q))) : 0; }
};

static void profile(const std::string &, Profile &p) {
   p.mask = O_ALL;
   p.put({{L_NEW, 20}, {L_LINK, 60}, {L_LINK2, 30}, {L_UNLINK, 20}, {L_UNLINK_R, 10}, {L_XFER, 25}, {L_XFER1, 15}, {L_XFER_ALL, 10}, {L_SWAP, 30}, {L_REV, 10}, {L_MOVEB, 20}, {L_MOVEF, 20}, {L_PART, 20}, {L_QUERY, 15}, {L_DISPOSE, 4}, {L_DISPOSE_R, 8}, {L_CHAIN, 12}, {L_SENT, 3}, {L_SWAPTAIL, 20},
      {T_BEFORE, 50}, {T_BACK, 20}, {T_FRONT, 20}, {T_EQ, 40}, {T_EQ_HINT, 40}, {T_UNIQ, 30}, {T_ERASE, 40}, {T_UNLINK, 20}, {T_LEFT, 1}, {T_REPL, 15}, {T_SWAPN, 50}, {T_SWAPT, 5}, {T_CLEAR, 1}, {T_CLONE, 5}, {T_XFER, 25}, {T_REBAL, 10}, {T_NODE, 20}, {T_FIND, 20}, {T_RANGE, 15}, {T_SPLAY, 15}});
   std::set<int> drop; const bool lists = VF_PART >= 0 && VF_PART <= 2;
   for (auto &kv : p.weight) if ((kv.first >= T_BEFORE) == lists) drop.insert(kv.first);
   for (int k : drop) p.weight.erase(k);
}
typedef bi::list_node_traits<void *> LT; typedef bi::list_node_traits<fptr<void> > LTF; typedef bi::slist_node_traits<void *> ST; typedef bi::slist_node_traits<fptr<void> > STF;
int main(int argc, char **argv) {
#if PART(0)
   Reg<0>::add<Lists<bi::circular_list_algorithms<LT>, 2> >("doubly linked rings"); Reg<0>::add<Lists<bi::circular_list_algorithms<LTF>, 2> >("doubly linked rings, self-relative pointers"); Reg<0>::add<Lists<bi::circular_list_algorithms<CTraits>, 2> >("doubly linked rings, own node type");
#endif
#if PART(1)
   Reg<1>::add<Lists<bi::circular_slist_algorithms<ST>, 1> >("singly linked rings"); Reg<1>::add<Lists<bi::circular_slist_algorithms<STF>, 1> >("singly linked rings, self-relative pointers"); Reg<1>::add<Lists<bi::circular_slist_algorithms<CTraits>, 1> >("singly linked rings, own node type");
#endif
#if PART(2)
   Reg<2>::add<Lists<bi::linear_slist_algorithms<ST>, 0> >("chains"); Reg<2>::add<Lists<bi::linear_slist_algorithms<STF>, 0> >("chains, self-relative pointers"); Reg<2>::add<Lists<bi::linear_slist_algorithms<CTraits>, 0> >("chains, own node type");
#endif
#define TREE(P1, NT, K, NAME) Reg<P1>::add<Trees<NT, K> >(NAME);
#if PART(3)
   typedef bi::tree_node_traits<void *> BT; TREE(3, BT, BS, "plain trees") TREE(3, CTraits, BS, "plain trees, own node type")
#endif
#if PART(4)
   typedef bi::rbtree_node_traits<void *, false> RT; typedef bi::rbtree_node_traits<void *, true> RTC; TREE(4, RT, RB, "red-black trees") TREE(4, RTC, RB, "red-black trees, compact nodes")
#endif
#if PART(5)
   typedef bi::rbtree_node_traits<fptr<void>, false> RTF; TREE(5, RTF, RB, "red-black trees, self-relative pointers") TREE(5, CTraits, RB, "red-black trees, own node type")
#endif
#if PART(6)
   typedef bi::avltree_node_traits<void *, false> AT; typedef bi::avltree_node_traits<void *, true> ATC; TREE(6, AT, AVL, "AVL trees") TREE(6, ATC, AVL, "AVL trees, compact nodes")
#endif
#if PART(7)
   typedef bi::avltree_node_traits<fptr<void>, false> ATF; TREE(7, ATF, AVL, "AVL trees, self-relative pointers") TREE(7, CTraits, AVL, "AVL trees, own node type")
#endif
#if PART(8)
   typedef bi::tree_node_traits<void *> BT; typedef bi::tree_node_traits<fptr<void> > BTF; TREE(8, BT, SG, "scapegoat trees") TREE(8, BTF, SG, "scapegoat trees, self-relative pointers")
#endif
#if PART(9)
   typedef bi::tree_node_traits<void *> BT; typedef bi::tree_node_traits<fptr<void> > BTF; TREE(9, BT, SPL, "splay trees") TREE(9, BTF, SPL, "splay trees, self-relative pointers")
#endif
#if PART(10)
   typedef bi::tree_node_traits<void *> BT; typedef bi::tree_node_traits<fptr<void> > BTF; TREE(10, BT, TR, "treaps") TREE(10, BTF, TR, "treaps, self-relative pointers")
#endif
   engine() = {"algo", profile};
   return harness_main(argc, argv);
}
