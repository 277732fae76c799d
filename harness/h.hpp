// Harness support: everything goes through the library's public names.
#ifndef VERIF_H
#define VERIF_H
#include <cstdint>
#include <limits>
#include <type_traits>
#include <system_error>
#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/native.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/exception_policies.hpp>
#include <boost/safe_numerics/checked_default.hpp>
#include <boost/safe_numerics/checked_integer.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/interval.hpp>
#include <boost/safe_numerics/safe_compare.hpp>
#include <boost/safe_numerics/utility.hpp>

typedef unsigned long long u64;
typedef long long i64;
using namespace boost::safe_numerics;

// unscoped enumerations as operands: with every underlying type, and one without; classes that convert to an integer
namespace hv {
enum En_sc : signed char {}; enum En_uc : unsigned char {}; enum En_s : short {}; enum En_us : unsigned short {};
enum En_i : int {}; enum En_u : unsigned int {}; enum En_ll : long long {}; enum En_ull : unsigned long long {};
enum En_x { En_x0 = 0, En_x1 = 1023 }; enum En_y { En_y0 = -512, En_y1 = 511 };
template<class T> struct conv { T v; constexpr conv() : v(0) {} constexpr explicit conv(T x) : v(x) {} constexpr operator T() const { return v; } };
typedef conv<int> En_ci; typedef conv<unsigned long long> En_cull; typedef conv<long long> En_cll; typedef conv<unsigned int> En_cu;
}
namespace hv {
template<class T> struct tid { enum { v = 0 }; };
#define HV_T(T, n) template<> struct tid<T> { enum { v = n }; };
HV_T(char, 1) HV_T(signed char, 2) HV_T(unsigned char, 3) HV_T(short, 4) HV_T(unsigned short, 5)
HV_T(int, 6) HV_T(unsigned int, 7) HV_T(long, 8) HV_T(unsigned long, 9) HV_T(long long, 10)
HV_T(unsigned long long, 11) HV_T(bool, 12)
template<class R> using base_of = typename base_type<typename std::decay<R>::type>::type;
// bit pattern of an integer or of the value held by a safe object, extended to 64 bits
template<class R> u64 ov(const R & r){ return static_cast<u64>(base_value(r)); }
// outcome of a checked operation: out[0] = error code, out[1] = value (only if there is one)
template<class R> void oc(const checked_result<R> & r, u64 * out){
    out[0] = static_cast<u64>(static_cast<std::uint8_t>(static_cast<safe_numerics_error>(r)));
    if(! r.exception())
        out[1] = static_cast<u64>(static_cast<R>(r));
}
}
// facts about the type R that the library claims at compile time
#define META(name, ...) \
  extern "C" __attribute__((used)) const i64 M_##name[5] = { \
    (i64)(sizeof(hv::base_of<__VA_ARGS__>) * 8), (i64)std::is_signed<hv::base_of<__VA_ARGS__>>::value, \
    (i64)base_value(std::numeric_limits<__VA_ARGS__>::min()), (i64)base_value(std::numeric_limits<__VA_ARGS__>::max()), \
    (i64)hv::tid<hv::base_of<__VA_ARGS__>>::v };
#endif
