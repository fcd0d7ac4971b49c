#include "reg_common.hpp"
#include "simd_ternary_arithmetic.hpp"
#include "simd_mix.hpp"
namespace reg {
#ifndef REG_PART
#define REG_PART 3
#endif
MON_DEF(clip) MON_DEF(muladd) MON_DEF(ampmod) MON_DEF(sum) MON_DEF(mix)
static int init = [] {
    begin(Registry<F>::get());
#if REG_PART & 1
    reg3all<F_clip>("clip"); reg3all<F_muladd>("muladd"); reg3all<F_ampmod>("ampmod"); reg3all<F_sum>("sum");
#endif
#if REG_PART & 2
    reg4some<F_mix>("mix"); reg4some<F_sum>("sum");
#endif
    return 0;
}();
}
