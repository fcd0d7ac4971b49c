// The same call forms as reg_unary.cpp / reg_binary.cpp, written in C++98: the library compiles in that language
// mode and selects other code there.  reg98_glue.cpp (C++14) puts the table into the registry.
#include "simd_unroll_constraints.hpp"
#include "simd_unary_arithmetic.hpp"
#include "simd_binary_arithmetic.hpp"
#include "simd_math.hpp"
#include "simd_unit_conversion.hpp"
#include "softclip.hpp"
#if __cplusplus >= 201103L
#error "to be compiled as C++98"
#endif
#include "reg98.hpp"
typedef REG_F F;
static const unsigned SPL = nova::unroll_constraints<F>::samples_per_loop;
static const unsigned VS = nova::vec<F>::size;
#define ARGS F* const* out, const F* const* in, const F* s, const F* sl, unsigned n, F*
#define DEF1(NAME) \
    static void sc_##NAME(ARGS) { nova::NAME##_vec(out[0], in[0], n); } \
    static void si_##NAME(ARGS) { nova::NAME##_vec_simd(out[0], in[0], n); } \
    static void ct_##NAME(ARGS) { nova::NAME##_vec_simd<3 * SPL>(out[0], in[0]); }
#define ROW1(NAME) {#NAME, "v", "scalar", 0, sc_##NAME}, {#NAME, "v", "simd", 0, si_##NAME}, {#NAME, "v", "ct", 3 * SPL, ct_##NAME},
#define DEF2(NAME) \
    static void scvv_##NAME(ARGS) { nova::NAME##_vec(out[0], in[0], in[1], n); } \
    static void sivv_##NAME(ARGS) { nova::NAME##_vec_simd(out[0], in[0], in[1], n); } \
    static void ctvv_##NAME(ARGS) { nova::NAME##_vec_simd<3 * SPL>(out[0], in[0], in[1]); } \
    static void scvs_##NAME(ARGS) { nova::NAME##_vec(out[0], in[0], s[1], n); } \
    static void sivs_##NAME(ARGS) { nova::NAME##_vec_simd(out[0], in[0], s[1], n); }
#define ROW2(NAME) {#NAME, "vv", "scalar", 0, scvv_##NAME}, {#NAME, "vv", "simd", 0, sivv_##NAME}, {#NAME, "vv", "ct", 3 * SPL, ctvv_##NAME}, \
    {#NAME, "vs", "scalar", 0, scvs_##NAME}, {#NAME, "vs", "simd", 0, sivs_##NAME},
#define LIST_1(X) X(abs) X(sgn) X(square) X(cube) X(round) X(frac) X(ceil) X(floor) X(trunc) X(undenormalize) X(reciprocal) X(softclip)
#define LIST_2(X) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(tanh) X(log) X(log2) X(log10) X(exp) X(signed_sqrt)
#define LIST_4(X) X(midi2freq) X(freq2midi) X(midi2ratio) X(ratio2midi) X(oct2freq) X(freq2oct) X(amp2db) X(db2amp)
#define LIST_B1(X) X(plus) X(minus) X(times) X(over) X(min) X(max) X(clip2)
#define LIST_B2(X) X(less) X(less_equal) X(greater) X(greater_equal) X(equal) X(notequal)
#define LIST_B4(X) X(pow) X(spow)
#if REG_UNARY
#if REG_PART == 1
LIST_1(DEF1)
#define ROWS LIST_1(ROW1)
#elif REG_PART == 2
LIST_2(DEF1)
#define ROWS LIST_2(ROW1)
#else
LIST_4(DEF1)
#define ROWS LIST_4(ROW1)
#endif
#else
#if REG_PART == 1
LIST_B1(DEF2)
#define ROWS LIST_B1(ROW2)
#elif REG_PART == 2
LIST_B2(DEF2)
#define ROWS LIST_B2(ROW2)
#else
LIST_B4(DEF2)
#define ROWS LIST_B4(ROW2)
#endif
#endif
static const Entry98<F> table[] = { ROWS {0, 0, 0, 0, 0} };
extern const Table98<F> REG_TAB = {(int)SPL, (int)VS, table};
