// included by the library itself through BOOST_INTRUSIVE_SAFE_HOOK_*_ASSERT_INCLUDE
#ifndef VF_ASSERT_HPP
#define VF_ASSERT_HPP
namespace vf { void safe_assert(int kind, bool ok, const char *expr); }
#define VF_SAFE_DEFAULT(x) ::vf::safe_assert(0, bool(x), #x)
#define VF_SAFE_DESTRUCTOR(x) ::vf::safe_assert(1, bool(x), #x)
#endif
