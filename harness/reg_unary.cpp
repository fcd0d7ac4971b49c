#include "reg_common.hpp"
#include "simd_unary_arithmetic.hpp"
#include "simd_math.hpp"
#include "simd_unit_conversion.hpp"
#ifndef MON_NO_SOFTCLIP
#include "softclip.hpp"
#endif
#ifdef MON_NEON      // not available, or estimates by design, on this target
#define LIST_ARITH2(X)
#define LIST_MATH2(X)
#else
#define LIST_ARITH2(X) X(undenormalize) X(reciprocal)
#define LIST_MATH2(X) X(signed_sqrt)
#endif
namespace reg {
#define LIST_ARITH(X) X(abs) X(sgn) X(square) X(cube) X(round) X(frac) X(ceil) X(floor) X(trunc) LIST_ARITH2(X)
#define LIST_MATH(X) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(tanh) X(log) X(log2) X(log10) X(exp) LIST_MATH2(X)
#define LIST_UNIT(X) X(midi2freq) X(freq2midi) X(midi2ratio) X(ratio2midi) X(oct2freq) X(freq2oct) X(amp2db) X(db2amp)
#ifndef REG_PART
#define REG_PART 7
#endif
#if REG_PART & 1
LIST_ARITH(MON_DEF)
#ifndef MON_NO_SOFTCLIP
MON_DEF(softclip)
#endif
#endif
#if REG_PART & 2
LIST_MATH(MON_DEF)
#endif
#if REG_PART & 4
LIST_UNIT(MON_DEF)
#endif
static int init = [] {
    begin(Registry<F>::get());
#define R1(NAME) reg1<F_##NAME, 'v'>(#NAME);
#if REG_PART & 1
    LIST_ARITH(R1)
#ifndef MON_NO_SOFTCLIP
    R1(softclip)
#endif
#endif
#if REG_PART & 2
    LIST_MATH(R1)
#endif
#if REG_PART & 4
    LIST_UNIT(R1)
#endif
    return 0;
}();
}
