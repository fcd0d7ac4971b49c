#include "reg_common.hpp"
#include "simd_binary_arithmetic.hpp"
#include "simd_math.hpp"
#include "simd_mix.hpp"
#ifdef MON_NEON      // division is an estimate on this target
#define LIST_A2(X)
#else
#define LIST_A2(X) X(over)
#endif
namespace reg {
#define LIST_A(X) X(plus) X(minus) X(times) LIST_A2(X) X(min) X(max) X(clip2) X(sum)
#define LIST_C(X) X(less) X(less_equal) X(greater) X(greater_equal) X(equal) X(notequal)
#define LIST_M(X) X(pow) X(spow)
#ifndef REG_PART
#define REG_PART 7
#endif
#if REG_PART & 1
LIST_A(MON_DEF)
#endif
#if REG_PART & 2
LIST_C(MON_DEF)
#endif
#if REG_PART & 4
LIST_M(MON_DEF)
#endif
static int init = [] {
    begin(Registry<F>::get());
#define R2(NAME) reg2all<F_##NAME>(#NAME);
#if REG_PART & 1
    LIST_A(R2)
#endif
#if REG_PART & 2
    LIST_C(R2)
#endif
#if REG_PART & 4
    LIST_M(R2)
#endif
    return 0;
}();
}
