// included by the library itself through BOOST_INTRUSIVE_INVARIANT_ASSERT_INCLUDE
#ifndef VF_INV_HPP
#define VF_INV_HPP
namespace vf { void inv_assert(bool ok, const char *expr); }
#define VF_INV(...) ::vf::inv_assert(bool(__VA_ARGS__), #__VA_ARGS__)
#endif
