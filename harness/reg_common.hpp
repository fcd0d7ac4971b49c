// Registry glue: exposes every public function of the library, for one sample type, as function
// pointers of one common shape.  Compiled once per configuration under test.
#pragma once
#include "mon.hpp"
#include "simd_unroll_constraints.hpp"
#include "detail/wrap_arguments.hpp"

#ifndef REG_F
#define REG_F float
#endif
// one namespace per sample type: both registries are linked into the same program
#define REG_CAT_(a, b) a##b
#define REG_CAT(a, b) REG_CAT_(a, b)
#define reg REG_CAT(reg_, REG_F)

namespace reg {
typedef REG_F F;
using mon::Op; using mon::Form; using mon::Registry; using mon::call_t;
static const unsigned SPL = nova::unroll_constraints<F>::samples_per_loop;
static const unsigned VS = nova::vec<F>::size;       // compile-time lengths may be any multiple of one vector

template <int I, char K> struct Arg;
template <int I> struct Arg<I, 'v'> { static const F* get(const F* const* in, const F*, const F*) { return in[I]; } };
template <int I> struct Arg<I, 's'> { static F get(const F* const*, const F* s, const F*) { return s[I]; } };
template <int I> struct Arg<I, 'r'> {
    static auto get(const F* const*, const F* s, const F* sl) -> decltype(nova::slope_argument(*s, *sl)) { return nova::slope_argument(s[I], sl[I]); }
};
// half of the compile-time forms (ct2..ct4) pass every argument through the explicit argument wrappers
template <int I, char K> struct Wrapped : Arg<I, K> {};
template <int I> struct Wrapped<I, 'v'> {
    static auto get(const F* const* in, const F*, const F*) -> decltype(nova::vector_argument(in[0])) { return nova::vector_argument(in[I]); }
};
template <int I> struct Wrapped<I, 's'> {
    static auto get(const F* const*, const F* s, const F*) -> decltype(nova::scalar_argument(*s)) { return nova::scalar_argument(s[I]); }
};
#define MON_ARGS F* const* out, const F* const* in, const F* s, const F* sl, unsigned n, F* red
#define MON_A(I, K) Arg<I, K>::get(in, s, sl)
#define MON_B(I, K) Wrapped<I, K>::get(in, s, sl)

#define MON_DEF(NAME)                                                                                             \
    struct F_##NAME {                                                                                             \
        template <char... K> struct idx {};                                                                       \
        template <char K0> static void sc1(MON_ARGS) { nova::NAME##_vec(out[0], MON_A(0, K0), n); }               \
        template <char K0> static void si1(MON_ARGS) { nova::NAME##_vec_simd(out[0], MON_A(0, K0), n); }          \
        template <unsigned N, char K0> static void ct1(MON_ARGS) { nova::NAME##_vec_simd<N>(out[0], MON_A(0, K0)); } \
        template <char K0, char K1> static void sc2(MON_ARGS) { nova::NAME##_vec(out[0], MON_A(0, K0), MON_A(1, K1), n); } \
        template <char K0, char K1> static void si2(MON_ARGS) { nova::NAME##_vec_simd(out[0], MON_A(0, K0), MON_A(1, K1), n); } \
        template <unsigned N, char K0, char K1> static void ct2(MON_ARGS) { nova::NAME##_vec_simd<N>(out[0], MON_B(0, K0), MON_B(1, K1)); } \
        template <unsigned N, char K0, char K1> static void cr2(MON_ARGS) { nova::NAME##_vec_simd<N>(out[0], MON_A(0, K0), MON_A(1, K1)); } \
        template <char K0, char K1, char K2> static void sc3(MON_ARGS) { nova::NAME##_vec(out[0], MON_A(0, K0), MON_A(1, K1), MON_A(2, K2), n); } \
        template <char K0, char K1, char K2> static void si3(MON_ARGS) { nova::NAME##_vec_simd(out[0], MON_A(0, K0), MON_A(1, K1), MON_A(2, K2), n); } \
        template <unsigned N, char K0, char K1, char K2> static void ct3(MON_ARGS) { nova::NAME##_vec_simd<N>(out[0], MON_B(0, K0), MON_B(1, K1), MON_B(2, K2)); } \
        template <unsigned N, char K0, char K1, char K2> static void cr3(MON_ARGS) { nova::NAME##_vec_simd<N>(out[0], MON_A(0, K0), MON_A(1, K1), MON_A(2, K2)); } \
        template <char K0, char K1, char K2, char K3> static void sc4(MON_ARGS) { nova::NAME##_vec(out[0], MON_A(0, K0), MON_A(1, K1), MON_A(2, K2), MON_A(3, K3), n); } \
        template <char K0, char K1, char K2, char K3> static void si4(MON_ARGS) { nova::NAME##_vec_simd(out[0], MON_A(0, K0), MON_A(1, K1), MON_A(2, K2), MON_A(3, K3), n); } \
        template <unsigned N, char K0, char K1, char K2, char K3> static void ct4(MON_ARGS) { nova::NAME##_vec_simd<N>(out[0], MON_B(0, K0), MON_B(1, K1), MON_B(2, K2), MON_B(3, K3)); } \
        template <unsigned N, char K0, char K1, char K2, char K3> static void cr4(MON_ARGS) { nova::NAME##_vec_simd<N>(out[0], MON_A(0, K0), MON_A(1, K1), MON_A(2, K2), MON_A(3, K3)); } \
    };

inline void begin(Registry<F>& r)
{
    r.spl = SPL;
    r.vec_size = nova::vec<F>::size;
}
inline Op<F> mk(const char* fn, std::string kinds)
{
    Op<F> o;
    o.fn = fn; o.kinds = kinds; o.nout = 1; o.nred = 0; o.inout = false; o.out_unaligned = false;
    return o;
}
inline void add(Op<F> o, std::initializer_list<Form<F>> f) { o.forms = f; Registry<F>::get().ops.push_back(o); }

template <class G, char K0> void reg1(const char* fn)
{
    add(mk(fn, {K0}), {{"scalar", 0, &G::template sc1<K0>}, {"simd", 0, &G::template si1<K0>},
                       {"ct", SPL, &G::template ct1<SPL, K0>}, {"ct", 3 * SPL, &G::template ct1<3 * SPL, K0>},
                       {"ct", VS, &G::template ct1<VS, K0>}, {"ct", 5 * VS, &G::template ct1<5 * VS, K0>}, {"ct", 64, &G::template ct1<64, K0>}});
}
// every kind of argument at two compile-time lengths, all-signal calls and all-ramp calls at more
template <class G, char K0, char K1> void reg2(const char* fn)
{
    add(mk(fn, {K0, K1}), {{"scalar", 0, &G::template sc2<K0, K1>}, {"simd", 0, &G::template si2<K0, K1>},
                           {"ct", SPL, &G::template cr2<SPL, K0, K1>}, {"ct", SPL + VS, &G::template ct2<SPL + VS, K0, K1>}});
}
template <class G, char K> void reg2x(const char* fn)
{
    add(mk(fn, {K, K}), {{"scalar", 0, &G::template sc2<K, K>}, {"simd", 0, &G::template si2<K, K>},
                         {"ct", SPL, &G::template cr2<SPL, K, K>}, {"ct", SPL + VS, &G::template ct2<SPL + VS, K, K>}, {"ct", VS, &G::template cr2<VS, K, K>},
                         {"ct", 3 * SPL, &G::template ct2<3 * SPL, K, K>}, {"ct", 64, &G::template cr2<64, K, K>}});
}
template <class G, char K0, char K1, char K2> void reg3(const char* fn)
{
    add(mk(fn, {K0, K1, K2}), {{"scalar", 0, &G::template sc3<K0, K1, K2>}, {"simd", 0, &G::template si3<K0, K1, K2>},
                               {"ct", SPL, &G::template cr3<SPL, K0, K1, K2>}, {"ct", VS, &G::template ct3<VS, K0, K1, K2>}});
}
template <class G, char K> void reg3x(const char* fn)
{
    add(mk(fn, {K, K, K}), {{"scalar", 0, &G::template sc3<K, K, K>}, {"simd", 0, &G::template si3<K, K, K>},
                            {"ct", SPL, &G::template cr3<SPL, K, K, K>}, {"ct", VS, &G::template ct3<VS, K, K, K>},
                            {"ct", 3 * SPL, &G::template cr3<3 * SPL, K, K, K>}, {"ct", 64, &G::template ct3<64, K, K, K>}});
}
template <class G, char K0, char K1, char K2, char K3> void reg4(const char* fn)
{
    add(mk(fn, {K0, K1, K2, K3}), {{"scalar", 0, &G::template sc4<K0, K1, K2, K3>}, {"simd", 0, &G::template si4<K0, K1, K2, K3>},
                                   {"ct", SPL, &G::template cr4<SPL, K0, K1, K2, K3>}, {"ct", VS, &G::template ct4<VS, K0, K1, K2, K3>}});
}
template <class G, char K> void reg4x(const char* fn)
{
    add(mk(fn, {K, K, K, K}), {{"scalar", 0, &G::template sc4<K, K, K, K>}, {"simd", 0, &G::template si4<K, K, K, K>},
                               {"ct", SPL, &G::template cr4<SPL, K, K, K, K>}, {"ct", VS, &G::template ct4<VS, K, K, K, K>},
                               {"ct", 3 * SPL, &G::template cr4<3 * SPL, K, K, K, K>}, {"ct", 64, &G::template ct4<64, K, K, K, K>}});
}
template <class G> void reg2all(const char* fn)
{
#ifdef REG_FEW                       // representative kinds only (expensive instrumented builds)
    reg2x<G, 'v'>(fn); reg2<G, 's', 'v'>(fn); reg2<G, 'v', 'r'>(fn); reg2<G, 'r', 'v'>(fn);
#else
    reg2x<G, 'v'>(fn);
    reg2<G, 'v', 's'>(fn); reg2<G, 's', 'v'>(fn); reg2<G, 's', 's'>(fn);
#ifndef REG_NO_RAMP
    reg2<G, 'v', 'r'>(fn); reg2<G, 'r', 'v'>(fn); reg2x<G, 'r'>(fn);
    reg2<G, 's', 'r'>(fn); reg2<G, 'r', 's'>(fn);
#endif
#endif
}
template <class G, char K0> void reg3b(const char* fn)
{
#ifdef REG_NO_RAMP
    if (K0 == 'v') reg3x<G, 'v'>(fn); else reg3<G, K0, 'v', 'v'>(fn);
    reg3<G, K0, 'v', 's'>(fn); reg3<G, K0, 's', 'v'>(fn); reg3<G, K0, 's', 's'>(fn);
#else
    if (K0 == 'v') reg3x<G, 'v'>(fn); else reg3<G, K0, 'v', 'v'>(fn);
    reg3<G, K0, 'v', 's'>(fn); reg3<G, K0, 'v', 'r'>(fn);
    reg3<G, K0, 's', 'v'>(fn); reg3<G, K0, 's', 's'>(fn); reg3<G, K0, 's', 'r'>(fn);
    reg3<G, K0, 'r', 'v'>(fn); reg3<G, K0, 'r', 's'>(fn); reg3<G, K0, 'r', 'r'>(fn);
#endif
}
template <class G> void reg3all(const char* fn)
{
#ifdef REG_FEW
    reg3x<G, 'v'>(fn); reg3<G, 'v', 's', 'r'>(fn); reg3<G, 'r', 'v', 's'>(fn); reg3<G, 's', 'r', 'v'>(fn);
#else
    reg3b<G, 'v'>(fn); reg3b<G, 's'>(fn);
#ifndef REG_NO_RAMP
    reg3b<G, 'r'>(fn);
#endif
#endif
}
template <class G> void reg4some(const char* fn)
{
#ifdef REG_FEW
    reg4x<G, 'v'>(fn); reg4<G, 'v', 's', 'v', 'r'>(fn); reg4<G, 'r', 'v', 's', 'v'>(fn);
#else
    reg4x<G, 'v'>(fn); reg4<G, 's', 's', 's', 's'>(fn);
    reg4<G, 's', 'v', 'v', 'v'>(fn); reg4<G, 'v', 's', 'v', 'v'>(fn); reg4<G, 'v', 'v', 's', 'v'>(fn); reg4<G, 'v', 'v', 'v', 's'>(fn);
    reg4<G, 'v', 's', 'v', 's'>(fn);
#ifndef REG_NO_RAMP
    reg4x<G, 'r'>(fn);
    reg4<G, 'r', 'v', 'v', 'v'>(fn); reg4<G, 'v', 'r', 'v', 'v'>(fn); reg4<G, 'v', 'v', 'r', 'v'>(fn); reg4<G, 'v', 'v', 'v', 'r'>(fn);
    reg4<G, 'v', 'r', 'v', 'r'>(fn); reg4<G, 'v', 'r', 'v', 's'>(fn); reg4<G, 's', 'r', 'r', 'v'>(fn);
    reg4<G, 'r', 's', 'v', 'r'>(fn); reg4<G, 's', 'v', 'r', 's'>(fn); reg4<G, 'v', 's', 's', 'r'>(fn);
#endif
#endif
}
} // namespace reg
