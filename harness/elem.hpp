// Elements, a self-relative pointer type, and small helpers shared by the engines.
#ifndef VF_ELEM_HPP
#define VF_ELEM_HPP
#include "common.hpp"
#include <cassert>
#include <iterator>
#include <type_traits>
#include <boost/intrusive/pointer_traits.hpp>
#include <boost/intrusive/pointer_plus_bits.hpp>
#include <boost/intrusive/options.hpp>

namespace bi = boost::intrusive;

namespace vf {

// ---- a self-relative pointer: a raw byte copy of it (or of a node) is detected ----
template <class T>
class fptr {
   std::ptrdiff_t off;     // 1 = null
   static std::ptrdiff_t mk(const void *self, const volatile void *p) {
      return p ? std::ptrdiff_t(std::uintptr_t(p) - std::uintptr_t(self)) : 1;
   }
   template <class U> friend class fptr;
   struct nat { void f() {} };
   typedef void (nat::*ub)();
public:
   typedef T element_type;
   typedef T value_type;
   typedef T *pointer;
   typedef std::ptrdiff_t difference_type;
   typedef typename std::add_lvalue_reference<typename std::conditional<std::is_void<T>::value, char, T>::type>::type reference;
   typedef std::random_access_iterator_tag iterator_category;
   template <class U> struct rebind { typedef fptr<U> other; };

   fptr() : off(1) {}
   fptr(T *p) : off(mk(this, p)) {}
   fptr(std::nullptr_t) : off(1) {}
   fptr(const fptr &o) : off(mk(this, o.get())) {}
   template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type>
   fptr(const fptr<U> &o) : off(mk(this, static_cast<T *>(o.get()))) {}
   fptr &operator=(const fptr &o) { off = mk(this, o.get()); return *this; }
   template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type>
   fptr &operator=(const fptr<U> &o) { off = mk(this, static_cast<T *>(o.get())); return *this; }
   ~fptr() {}
   T *get() const { return off == 1 ? (T *)0 : (T *)(std::uintptr_t(this) + std::uintptr_t(off)); }
   T *operator->() const { return get(); }
   reference operator*() const { return *get(); }
   reference operator[](std::ptrdiff_t i) const { return get()[i]; }
   static fptr pointer_to(reference r) { return fptr(std::addressof(r)); }
   fptr &operator+=(std::ptrdiff_t n) { *this = fptr(get() + n); return *this; }
   fptr &operator-=(std::ptrdiff_t n) { *this = fptr(get() - n); return *this; }
   fptr &operator++() { return *this += 1; }
   fptr &operator--() { return *this -= 1; }
   fptr operator++(int) { fptr t(*this); ++*this; return t; }
   fptr operator--(int) { fptr t(*this); --*this; return t; }
   fptr operator+(std::ptrdiff_t n) const { return fptr(get() + n); }
   fptr operator-(std::ptrdiff_t n) const { return fptr(get() - n); }
   operator ub() const { return off == 1 ? 0 : &nat::f; }
   bool operator!() const { return off == 1; }
};
template <class T, class U> bool operator==(const fptr<T> &a, const fptr<U> &b) { return a.get() == b.get(); }
template <class T, class U> bool operator!=(const fptr<T> &a, const fptr<U> &b) { return a.get() != b.get(); }
template <class T, class U> bool operator<(const fptr<T> &a, const fptr<U> &b) { return a.get() < b.get(); }
template <class T, class U> bool operator>(const fptr<T> &a, const fptr<U> &b) { return a.get() > b.get(); }
template <class T, class U> bool operator<=(const fptr<T> &a, const fptr<U> &b) { return a.get() <= b.get(); }
template <class T, class U> bool operator>=(const fptr<T> &a, const fptr<U> &b) { return a.get() >= b.get(); }
template <class T> bool operator==(const fptr<T> &a, std::nullptr_t) { return !a; }
template <class T> bool operator!=(const fptr<T> &a, std::nullptr_t) { return !!a; }
template <class T, class U> std::ptrdiff_t operator-(const fptr<T> &a, const fptr<U> &b) { return a.get() - b.get(); }

template <class T> T *raw(T *p) { return p; }
template <class T> T *raw(const fptr<T> &p) { return p.get(); }

// ---- element payload --------------------------------------------------------
struct EB {
   int key = 0;
   int pri = 0;
   unsigned id = 0;
   uint32_t magic = 0xA11CEu;
   int where = -1;          // container index in the model, -1: none
   uint32_t stamp = 0;      // scratch for exactly-once marks
   ~EB() { magic = 0xDEADu; }
   EB() {}
   EB(const EB &o) : key(o.key), pri(o.pri), id(o.id) {}
   EB &operator=(const EB &o) { key = o.key; pri = o.pri; return *this; }
};
inline bool operator<(const EB &a, const EB &b) { tick(); return a.key < b.key; }
inline bool operator>(const EB &a, const EB &b) { tick(); return b.key < a.key; }
inline bool operator==(const EB &a, const EB &b) { tick(); return a.key == b.key; }
inline bool operator!=(const EB &a, const EB &b) { tick(); return a.key != b.key; }

// elements created from a base hook / with a member hook
template <class Hook> struct ElemB : Hook, EB {
   Hook &hook() { return *this; }
   const Hook &hook() const { return *this; }
};
template <class Hook> struct ElemM : EB {
   long pad = 7;
   Hook h;
   long pad2 = 9;
   Hook &hook() { return h; }
   const Hook &hook() const { return h; }
};

template <class T> std::string keys(const std::vector<T *> &v, size_t lim = 12) {
   std::string r = "[";
   for (size_t i = 0; i < v.size() && i < lim; ++i) { if (i) r += ' '; r += std::to_string(v[i]->key) + "#" + std::to_string(v[i]->id); }
   if (v.size() > lim) r += " ...";
   return r + "]";
}

// a header holder that keeps the header elsewhere
template <class Node> struct far_holder {
   typedef Node *node_ptr; typedef const Node *const_node_ptr;
   Node *p;
   far_holder() : p(new Node) {}
   ~far_holder() { delete p; }
   far_holder(const far_holder &) = delete;
   const_node_ptr get_node() const { return p; } node_ptr get_node() { return p; }
};


} // namespace vf

#endif
