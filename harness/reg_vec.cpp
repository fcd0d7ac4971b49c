// Exposes nova::vec<REG_F> lane by lane. Compiled once per configuration and sample type.
#include "vecops.hpp"
#include "vec.hpp"
#if defined(__SSE__)
#include "simd_utils.hpp"
#endif
#ifndef REG_F
#define REG_F float
#endif
#define IS_float 1
#define IS_double 2
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if defined(__AVX__) || (CAT(IS_, REG_F) == 1 && defined(__SSE__)) || (CAT(IS_, REG_F) == 2 && defined(__SSE2__))
#define FULL 1
#endif
#if CAT(IS_, REG_F) == 1 && (defined(__AVX__) || defined(__SSE2__)) && !defined(REG_NO_DETAIL)
#define INTVEC 1
#endif
#if defined(MON_NEON) && CAT(IS_, REG_F) == 1
#define FULL 1
#define NEON 1
#ifndef REG_NO_DETAIL
#define INTVEC 1
#endif
#endif
#if CAT(IS_, REG_F) == 1
#define IS_FLOAT 1
#endif
namespace CAT(regvec_, REG_F) {
typedef REG_F F;
typedef nova::vec<F> V;
using namespace mon;
static V ld(const F* p) { V v; v.load(p); return v; }
#define ARGS F* a, const F* b, const F* c, int k, F* out, F* red
#define OP(NAME, SHAPE, ...) R.ops.push_back({NAME, SHAPE, [](ARGS) { __VA_ARGS__; }});
#define ST(EXPR) V r(EXPR); r.store(out)
#define U(NAME) OP(#NAME, "u", ST(NAME(ld(a))))
#define B(NAME) OP(#NAME, "b", ST(NAME(ld(a), ld(b))))
static int init = [] {
    VecRegistry<F>& R = VecRegistry<F>::get();
    R.size = V::size;
#ifdef FULL
    R.full = true;
#endif
    // element access and i/o
    OP("load/store", "io", V v; v.load(a); v.store(out))
    OP("load_aligned/store_aligned", "io", V v; v.load_aligned(a); v.store_aligned(out))
    OP("load/store_aligned_stream", "io", V v; v.load(a); v.store_aligned_stream(out))
    OP("copy", "io", V v; v.load(a); V w(v); V x; x = w; x.store(out))
    OP("get", "io", V v; v.load(a); for (int i = 0; i != V::size; ++i) out[i] = v.get(i))
    OP("load_first", "first", V v; v.load_aligned(b); v.load_first(a); v.store(out))
    OP("set", "set", V v; v.load(a); v.set(k, b[0]); v.store(out))
    OP("set all", "io", V v; v.load(b); for (int i = 0; i != V::size; ++i) v.set(i, a[i]); v.store(out))
    OP("set_vec", "fill", V v; v.load(b); v.set_vec(a[0]); v.store(out))
    OP("constructor(value)", "fill", V v(a[0]); v.store(out))
    OP("clear", "zero", V v; v.load(a); v.clear(); v.store(out))
    OP("gen_zero", "zero", V v(V::gen_zero()); v.store(out))
    OP("set_slope", "slope", V v; v.load(b); red[0] = v.set_slope(a[0], b[0]); v.store(out))
    OP("set_exp", "exp", V v; v.load(b); red[0] = v.set_exp(a[0], b[0]); v.store(out))
    OP("is_aligned", "aligned", red[0] = V::is_aligned((F*)((char*)a + k)) ? F(1) : F(0))
    // arithmetic
    OP("operator+", "add", ST(ld(a) + ld(b)))
    OP("operator-", "sub", ST(ld(a) - ld(b)))
    OP("operator*", "mul", ST(ld(a) * ld(b)))
#ifndef NEON       // division, reciprocal and square root are estimates on NEON
    OP("operator/", "div", ST(ld(a) / ld(b)))
    OP("v /= v", "div self", V v(ld(a)); v /= v; v.store(out))
    OP("operator/=", "div", V v(ld(a)); V w; w = ld(b); v /= w; v.store(out))
    U(reciprocal) U(signed_sqrt) U(undenormalize)
#endif
    OP("operator+=", "add", V v(ld(a)); V w; w = ld(b); v += w; v.store(out))
    OP("operator-=", "sub", V v(ld(a)); V w; w = ld(b); v -= w; v.store(out))
    OP("operator*=", "mul", V v(ld(a)); V w; w = ld(b); v *= w; v.store(out))
    OP("v += v", "add self", V v(ld(a)); v += v; v.store(out))
    OP("v -= v", "sub self", V v(ld(a)); v -= v; v.store(out))
    OP("v *= v", "mul self", V v(ld(a)); v *= v; v.store(out))
    OP("v = v + w", "add", V v(ld(a)); V w(ld(b)); v = v + w; v.store(out))
    OP("w = v - w", "sub", V v(ld(a)); V w(ld(b)); w = v - w; w.store(out))
    OP("w = max_(v, w)", "vmax", V v(ld(a)); V w(ld(b)); w = max_(v, w); w.store(out))
    OP("v = v", "io", V v(ld(a)); V const& q = v; v = q; v.store(out))
    OP("operator+(vec,value)", "add vs", ST(ld(a) + V(b[0])))
    OP("madd", "madd", ST(madd(ld(a), ld(b), ld(c))))
    U(abs) U(sign) U(square) U(cube) B(max_) B(min_)
    U(round) U(frac) U(floor) U(ceil) U(trunc)
    B(pow) B(signed_pow) U(log) U(log2) U(log10) U(exp) U(sin) U(cos) U(tan) U(asin) U(acos) U(atan) U(tanh)
    OP("horizontal_min", "hmin", red[0] = ld(a).horizontal_min())
    OP("horizontal_max", "hmax", red[0] = ld(a).horizontal_max())
    OP("horizontal_sum", "hsum", red[0] = ld(a).horizontal_sum())
    OP("collect", "negate", V v(ld(a)); V r(v.collect([](F x) { return -x; })); r.store(out))
    OP("nova::max_(value)", "smax", red[0] = nova::max_(a[0], b[0]))
    OP("nova::min_(value)", "smin", red[0] = nova::min_(a[0], b[0]))
#ifdef FULL
#ifndef NEON
    U(sqrt)
    OP("gen_ones", "allbits", ST(V::gen_ones()))
#endif
    OP("operator<", "lt", ST(ld(a) < ld(b)))
    OP("operator<=", "le", ST(ld(a) <= ld(b)))
    OP("operator>", "gt", ST(ld(a) > ld(b)))
    OP("operator>=", "ge", ST(ld(a) >= ld(b)))
    OP("operator==", "eq", ST(ld(a) == ld(b)))
    OP("operator!=", "ne", ST(ld(a) != ld(b)))
    OP("mask_lt", "mask lt", ST(mask_lt(ld(a), ld(b))))
    OP("mask_le", "mask le", ST(mask_le(ld(a), ld(b))))
    OP("mask_gt", "mask gt", ST(mask_gt(ld(a), ld(b))))
    OP("mask_ge", "mask ge", ST(mask_ge(ld(a), ld(b))))
    OP("mask_eq", "mask eq", ST(mask_eq(ld(a), ld(b))))
    OP("mask_neq", "mask ne", ST(mask_neq(ld(a), ld(b))))
    OP("operator&", "and", ST(ld(a) & ld(b)))
    OP("operator|", "or", ST(ld(a) | ld(b)))
    OP("operator^", "xor", ST(ld(a) ^ ld(b)))
    OP("select(mask_lt)", "sel lt", ST(select(ld(a), ld(b), mask_lt(ld(c), V(F(0))))))
    OP("gen_one", "ones", ST(V::gen_one()))
    OP("gen_05", "halves", ST(V::gen_05()))
    OP("gen_sign_mask", "signbits", ST(V::gen_sign_mask()))
    OP("gen_abs_mask", "absbits", ST(V::gen_abs_mask()))
#ifdef IS_FLOAT
    OP("gen_exp_mask", "expbits", ST(V::gen_exp_mask()))
    OP("gen_exp_mask_1", "expbits1", ST(V::gen_exp_mask_1()))
#ifndef NEON
    OP("operator-(unary)", "negate", ST(-ld(a)))
    OP("operator/(vec,float)", "div vs", ST(ld(a) / b[0]))
    OP("operator/(float,vec)", "div sv", ST(a[0] / ld(b)))
    OP("fast_reciprocal", "frcp", ST(fast_reciprocal(ld(a))))
#endif
    OP("operator+(vec,float)", "add vs", ST(ld(a) + b[0]))
    OP("operator-(vec,float)", "sub vs", ST(ld(a) - b[0]))
    OP("operator*(vec,float)", "mul vs", ST(ld(a) * b[0]))
    OP("operator+(float,vec)", "add sv", ST(a[0] + ld(b)))
    OP("operator-(float,vec)", "sub sv", ST(a[0] - ld(b)))
    OP("operator*(float,vec)", "mul sv", ST(a[0] * ld(b)))
    OP("andnot", "andnot", ST(andnot(ld(a), ld(b))))
#elif !defined(__AVX__)
    OP("andnot", "andnot", ST(andnot(ld(a), ld(b))))
#endif
#else
    OP("gen_ones", "ones", ST(V::gen_ones()))
    OP("select", "sel nz", ST(select(ld(a), ld(b), ld(c))))
#endif
#ifdef INTVEC
    typedef V::int_vec I;
#define STI(EXPR) { I q = EXPR; V r(q); r.store(out); }
    OP("truncate_to_int", "i trunc", STI(ld(a).truncate_to_int()))
    OP("convert_to_float", "i tofloat", I q = I(ld(a)); V r(q.convert_to_float()); r.store(out))
    OP("truncate_to_int.convert_to_float", "i roundtrip", V r(ld(a).truncate_to_int().convert_to_float()); r.store(out))
    OP("int_vec(int)", "i fill", int x; std::memcpy(&x, a, 4); STI(I(x)))
    OP("int_vec+", "i add", STI(I(ld(a)) + I(ld(b))))
    OP("int_vec-", "i sub", STI(I(ld(a)) - I(ld(b))))
    OP("int_vec&", "i and", STI(I(ld(a)) & I(ld(b))))
    OP("int_vec andnot", "i andnot", STI(andnot(I(ld(a)), I(ld(b)))))
#ifndef NEON       // unsigned there
    OP("int_vec mask_lt", "i lt", STI(mask_lt(I(ld(a)), I(ld(b)))))
    OP("int_vec mask_gt", "i gt", STI(mask_gt(I(ld(a)), I(ld(b)))))
#endif
    OP("int_vec mask_eq", "i eq", STI(mask_eq(I(ld(a)), I(ld(b)))))
    OP("int_vec slli", "i sll", STI(slli(I(ld(a)), k)))
    OP("int_vec srli", "i srl", STI(srli(I(ld(a)), k)))
#endif
#if defined(__SSE__) && defined(IS_FLOAT) && !defined(REG_NO_DETAIL)
    // helper functions of simd_utils.hpp operate on four lanes
    OP("detail::extract_0", "u4 first", red[0] = nova::detail::extract_0(_mm_loadu_ps(a)))
    OP("detail::extract_3", "u4 last", red[0] = nova::detail::extract_3(_mm_loadu_ps(a)))
    OP("detail::horizontal_min", "u4 min", red[0] = nova::detail::horizontal_min(_mm_loadu_ps(a)))
    OP("detail::horizontal_max", "u4 max", red[0] = nova::detail::horizontal_max(_mm_loadu_ps(a)))
    OP("detail::select_vector", "u4 select", _mm_storeu_ps(out, nova::detail::select_vector(_mm_loadu_ps(a), _mm_loadu_ps(b), _mm_cmplt_ps(_mm_loadu_ps(c), _mm_setzero_ps()))))
    OP("detail::gen_one", "u4 one", _mm_storeu_ps(out, nova::detail::gen_one()))
    OP("detail::gen_05", "u4 05", _mm_storeu_ps(out, nova::detail::gen_05()))
    OP("detail::gen_025", "u4 025", _mm_storeu_ps(out, nova::detail::gen_025()))
    OP("detail::gen_abs_mask", "u4 absbits", _mm_storeu_ps(out, nova::detail::gen_abs_mask()))
    OP("detail::gen_sign_mask", "u4 signbits", _mm_storeu_ps(out, nova::detail::gen_sign_mask()))
#endif
    return 0;
}();
}
