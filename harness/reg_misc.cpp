#include "reg_common.hpp"
#include "simd_memory.hpp"
#include "simd_pan.hpp"
#include "simd_peakmeter.hpp"
#include "simd_horizontal_functions.hpp"
namespace reg {
#define L(...) [](MON_ARGS) { __VA_ARGS__; }
#ifndef REG_PART
#define REG_PART 3
#endif
static int init = [] {
    begin(Registry<F>::get());
    using namespace nova;
#if REG_PART & 1
    {   // memory functions
        Op<F> o = mk("zerovec", "");
        add(o, {{"scalar", 0, L(zerovec(out[0], n))}, {"simd", 0, L(zerovec_simd(out[0], n))},
                {"ct", SPL, L(zerovec_simd<SPL>(out[0]))}, {"ct", 3 * SPL, L(zerovec_simd<3 * SPL>(out[0]))}, {"ct", VS, L(zerovec_simd<VS>(out[0]))}, {"ct", 5 * VS, L(zerovec_simd<5 * VS>(out[0]))}, {"ct", 64, L(zerovec_simd<64>(out[0]))}});
        o = mk("zerovec_na", ""); o.out_unaligned = true;
        add(o, {{"simd", 0, L(zerovec_na_simd(out[0], n))},
                {"ct", SPL, L(zerovec_na_simd<SPL>(out[0]))}, {"ct", 3 * SPL, L(zerovec_na_simd<3 * SPL>(out[0]))}, {"ct", VS, L(zerovec_na_simd<VS>(out[0]))}, {"ct", 5 * VS, L(zerovec_na_simd<5 * VS>(out[0]))}, {"ct", 64, L(zerovec_na_simd<64>(out[0]))}});
        o = mk("setvec", "s");
        add(o, {{"scalar", 0, L(setvec(out[0], s[0], n))}, {"simd", 0, L(setvec_simd(out[0], s[0], n))},
                {"ct", SPL, L(setvec_simd<SPL>(out[0], s[0]))}, {"ct", 3 * SPL, L(setvec_simd<3 * SPL>(out[0], s[0]))}, {"ct", VS, L(setvec_simd<VS>(out[0], s[0]))}, {"ct", 5 * VS, L(setvec_simd<5 * VS>(out[0], s[0]))}, {"ct", 64, L(setvec_simd<64>(out[0], s[0]))}});
        o = mk("setvec_na", "s"); o.out_unaligned = true;
        add(o, {{"simd", 0, L(setvec_na_simd(out[0], s[0], n))},
                {"ct", SPL, L(setvec_na_simd<SPL>(out[0], s[0]))}, {"ct", 3 * SPL, L(setvec_na_simd<3 * SPL>(out[0], s[0]))}, {"ct", VS, L(setvec_na_simd<VS>(out[0], s[0]))}, {"ct", 5 * VS, L(setvec_na_simd<5 * VS>(out[0], s[0]))}, {"ct", 64, L(setvec_na_simd<64>(out[0], s[0]))}});
        o = mk("set_slope", "r");
        add(o, {{"scalar", 0, L(set_slope_vec(out[0], s[0], sl[0], n))}, {"simd", 0, L(set_slope_vec_simd(out[0], s[0], sl[0], n))}});
        o = mk("set_exp", "r");
        add(o, {{"scalar", 0, L(set_exp_vec(out[0], s[0], sl[0], n))}, {"simd", 0, L(set_exp_vec_simd(out[0], s[0], sl[0], n))}});
#define COPYF(NAME, KIND, OUTU)                                                                       \
        o = mk(#NAME, KIND); o.out_unaligned = OUTU;                                                  \
        add(o, {{"simd", 0, L(NAME##_simd(out[0], in[0], n))}, {"ct", SPL, L(NAME##_simd<SPL>(out[0], in[0]))}, \
                {"ct", 3 * SPL, L(NAME##_simd<3 * SPL>(out[0], in[0]))}, {"ct", VS, L(NAME##_simd<VS>(out[0], in[0]))}, {"ct", 5 * VS, L(NAME##_simd<5 * VS>(out[0], in[0]))}, {"ct", 64, L(NAME##_simd<64>(out[0], in[0]))}});
        COPYF(copyvec_aa, "v", false) COPYF(copyvec_na, "V", false) COPYF(copyvec_an, "v", true) COPYF(copyvec_nn, "V", true)
        o = mk("copyvec", "v");
        add(o, {{"scalar", 0, L(copyvec(out[0], in[0], n))}, {"simd", 0, L(copyvec_simd(out[0], in[0], n))},
                {"ct", SPL, L(copyvec_simd<SPL>(out[0], in[0]))}, {"ct", 3 * SPL, L(copyvec_simd<3 * SPL>(out[0], in[0]))}, {"ct", VS, L(copyvec_simd<VS>(out[0], in[0]))}, {"ct", 5 * VS, L(copyvec_simd<5 * VS>(out[0], in[0]))}, {"ct", 64, L(copyvec_simd<64>(out[0], in[0]))}});
        o = mk("addvec", "v"); o.inout = true;
        add(o, {{"scalar", 0, L(addvec(out[0], in[0], n))}, {"simd", 0, L(addvec_simd(out[0], in[0], n))},
                {"ct", SPL, L(addvec_simd<SPL>(out[0], in[0]))}, {"ct", 3 * SPL, L(addvec_simd<3 * SPL>(out[0], in[0]))}, {"ct", VS, L(addvec_simd<VS>(out[0], in[0]))}, {"ct", 5 * VS, L(addvec_simd<5 * VS>(out[0], in[0]))}, {"ct", 64, L(addvec_simd<64>(out[0], in[0]))}});
        o = mk("addvec", "s"); o.inout = true;
        add(o, {{"scalar", 0, L(addvec(out[0], s[0], n))}, {"simd", 0, L(addvec_simd(out[0], s[0], n))},
                {"ct", SPL, L(addvec_simd<SPL>(out[0], s[0]))}, {"ct", 3 * SPL, L(addvec_simd<3 * SPL>(out[0], s[0]))}, {"ct", VS, L(addvec_simd<VS>(out[0], s[0]))}, {"ct", 5 * VS, L(addvec_simd<5 * VS>(out[0], s[0]))}, {"ct", 64, L(addvec_simd<64>(out[0], s[0]))}});
#ifndef MON_NO_ADDVEC_RAMP
        o = mk("addvec", "r"); o.inout = true;
        add(o, {{"scalar", 0, L(addvec(out[0], s[0], sl[0], n))}, {"simd", 0, L(addvec_simd(out[0], s[0], sl[0], n))},
                {"ct", SPL, L(addvec_simd<SPL>(out[0], s[0], sl[0]))}, {"ct", 3 * SPL, L(addvec_simd<3 * SPL>(out[0], s[0], sl[0]))}, {"ct", VS, L(addvec_simd<VS>(out[0], s[0], sl[0]))}, {"ct", 5 * VS, L(addvec_simd<5 * VS>(out[0], s[0], sl[0]))}, {"ct", 64, L(addvec_simd<64>(out[0], s[0], sl[0]))}});
#endif
    }
#endif
#if REG_PART & 2
    {   // pan, meter, horizontal
        Op<F> o = mk("pan2", "vss"); o.nout = 2;
        add(o, {{"scalar", 0, L(pan2_vec(out[0], out[1], in[0], s[1], s[2], n))}, {"simd", 0, L(pan2_vec_simd(out[0], out[1], in[0], s[1], s[2], n))},
                {"ct", SPL, L(pan2_vec_simd<SPL>(out[0], out[1], in[0], s[1], s[2]))}, {"ct", 3 * SPL, L(pan2_vec_simd<3 * SPL>(out[0], out[1], in[0], s[1], s[2]))}, {"ct", VS, L(pan2_vec_simd<VS>(out[0], out[1], in[0], s[1], s[2]))}, {"ct", 5 * VS, L(pan2_vec_simd<5 * VS>(out[0], out[1], in[0], s[1], s[2]))}, {"ct", 64, L(pan2_vec_simd<64>(out[0], out[1], in[0], s[1], s[2]))}});
        o = mk("pan2", "vrr"); o.nout = 2;
        add(o, {{"scalar", 0, L(pan2_vec(out[0], out[1], in[0], s[1], sl[1], s[2], sl[2], n))},
                {"simd", 0, L(pan2_vec_simd(out[0], out[1], in[0], s[1], sl[1], s[2], sl[2], n))},
                {"ct", SPL, L(pan2_vec_simd<SPL>(out[0], out[1], in[0], s[1], sl[1], s[2], sl[2]))},
                {"ct", 3 * SPL, L(pan2_vec_simd<3 * SPL>(out[0], out[1], in[0], s[1], sl[1], s[2], sl[2]))}, {"ct", VS, L(pan2_vec_simd<VS>(out[0], out[1], in[0], s[1], sl[1], s[2], sl[2]))}, {"ct", 5 * VS, L(pan2_vec_simd<5 * VS>(out[0], out[1], in[0], s[1], sl[1], s[2], sl[2]))}, {"ct", 64, L(pan2_vec_simd<64>(out[0], out[1], in[0], s[1], sl[1], s[2], sl[2]))}});
        // reductions: red[] is in/out
        o = mk("peak", "v"); o.nout = 0; o.nred = 2;      // red[0]=peak in/out, red[1]=last
        add(o, {{"scalar", 0, L(red[1] = peak_vec(in[0], red, n))}, {"simd", 0, L(red[1] = peak_vec_simd(in[0], red, n))}});
        o = mk("peak_rms", "v"); o.nout = 0; o.nred = 2;  // red[0]=peak, red[1]=squared sum
        add(o, {{"scalar", 0, L(peak_rms_vec(in[0], red, red + 1, n))}, {"simd", 0, L(peak_rms_vec_simd(in[0], red, red + 1, n))}});
        o = mk("horizontal_max", "v"); o.nout = 0; o.nred = 1;
        add(o, {{"scalar", 0, L(red[0] = horizontal_max_vec(in[0], n))}, {"simd", 0, L(red[0] = horizontal_max_vec_simd(in[0], n))}});
        o = mk("horizontal_min", "v"); o.nout = 0; o.nred = 1;
        add(o, {{"scalar", 0, L(red[0] = horizontal_min_vec(in[0], n))}, {"simd", 0, L(red[0] = horizontal_min_vec_simd(in[0], n))}});
        o = mk("horizontal_sum", "v"); o.nout = 0; o.nred = 1;
        add(o, {{"scalar", 0, L(red[0] = horizontal_sum_vec(in[0], n))}, {"simd", 0, L(red[0] = horizontal_sum_vec_simd(in[0], n))}});
        o = mk("horizontal_minmax", "v"); o.nout = 0; o.nred = 2;   // min, max
        add(o, {{"scalar", 0, L(horizontal_minmax_vec(red[0], red[1], in[0], n))}, {"simd", 0, L(horizontal_minmax_vec_simd(red[0], red[1], in[0], n))}});
        o = mk("horizontal_maxsum", "v"); o.nout = 0; o.nred = 2;   // max, sum
        add(o, {{"scalar", 0, L(horizontal_maxsum_vec(red[0], red[1], in[0], n))}, {"simd", 0, L(horizontal_maxsum_vec_simd(red[0], red[1], in[0], n))}});
    }
#endif
    return 0;
}();
}
