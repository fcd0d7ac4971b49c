// Reference semantics, evaluated in higher precision and independent of the library.
#pragma once
#include "mon.hpp"
#include <cfenv>

namespace oracle {
using namespace mon;
typedef long double LD;

#define ORACLE_FNS(X) \
    X(plus) X(minus) X(times) X(over) X(min) X(max) X(less) X(less_equal) X(greater) X(greater_equal) X(equal) X(notequal) X(clip2) \
    X(pow) X(spow) X(sum2) X(clip) X(muladd) X(ampmod) X(sum3) X(mix) X(sum4) \
    X(abs) X(sgn) X(square) X(cube) X(undenormalize) X(softclip) X(round) X(frac) X(ceil) X(floor) X(trunc) X(reciprocal) \
    X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(tanh) X(log) X(log2) X(log10) X(exp) X(signed_sqrt) \
    X(midi2freq) X(freq2midi) X(midi2ratio) X(ratio2midi) X(oct2freq) X(freq2oct) X(amp2db) X(db2amp)
enum Fn { FN_none,
#define X(n) FN_##n,
    ORACLE_FNS(X)
#undef X
};
inline Fn fn_id(const std::string& name, int arity)
{
    std::string s = name;
    if (s == "sum") s += char('0' + arity);
#define X(n) if (s == #n) return FN_##n;
    ORACLE_FNS(X)
#undef X
    return FN_none;
}

struct Expect {
    bool skip;          // no claim for this input
    bool nan;           // result must be NaN
    bool zsign;         // a zero result must carry exactly this sign (lo == hi == +-0)
    LD lo, hi;          // otherwise: lo <= result <= hi
};
inline Expect ex_skip() { return {true, false, false, 0, 0}; }
template <class F> inline Expect ex_exact(F v, bool zs = false)
{
    if (v != v) return {false, true, false, 0, 0};
    return {false, false, zs, v, v};
}
inline Expect ex_tol(LD ref, LD tol)
{
    if (ref != ref) return {false, true, false, 0, 0};
    tol = fabsl(tol);
    return {false, false, false, ref - tol, ref + tol};
}
template <class F> inline bool accept(const Expect& e, F r)
{
    if (e.skip) return true;
    if (e.nan) return r != r;
    if (r != r) return false;
    if (e.zsign && e.lo == 0 && e.hi == 0) return r == 0 && std::signbit(r) == std::signbit((long double)e.lo);
    return (LD)r >= e.lo && (LD)r <= e.hi;
}

// classes used to select functions per property
inline bool is_arith(Fn f) { return (f >= FN_plus && f <= FN_clip2) || f == FN_sum2 || (f >= FN_clip && f <= FN_sum4) || (f >= FN_abs && f <= FN_cube); }
inline bool is_shape(Fn f) { return f == FN_undenormalize || f == FN_softclip || f == FN_reciprocal || f == FN_signed_sqrt; }
inline bool is_round(Fn f) { return f >= FN_round && f <= FN_trunc; }
inline bool is_trans(Fn f) { return (f >= FN_sin && f <= FN_exp) || f == FN_pow || f == FN_spow; }
inline bool is_unit(Fn f) { return f >= FN_midi2freq && f <= FN_db2amp; }

// ---- transcendental reference: returns false when the input is outside the claimed domain
// float functions are referenced in double, double functions in long double
template <class F> struct RefType { typedef double type; };
template <> struct RefType<double> { typedef long double type; };

template <class F> bool math_ref_(Fn f, typename RefType<F>::type x, typename RefType<F>::type y, typename RefType<F>::type& ref, typename RefType<F>::type& tol)
{
    typedef typename RefType<F>::type LD;
    const bool flt = sizeof(F) == 4;
    const LD rel = flt ? 5e-7L : 2e-15L;
    const LD minn = std::numeric_limits<F>::min();
    const LD big = flt ? 8192.0L : 1e6L;
    LD ax = std::fabs(x);
    switch (f) {
    case FN_sin:
        if (!(ax <= big)) return false;
        ref = std::sin(x);
        tol = ax <= 3.2L ? rel * std::fabs(ref) : (flt ? 2.5e-7L : 1e-15L);
        return true;
    case FN_cos:
        if (!(ax <= big)) return false;
        ref = std::cos(x);
        tol = ax <= 3.2L ? rel * std::fabs(ref) : (flt ? 2.5e-7L : 1e-15L);
        return true;
    case FN_tan:
        if (!(ax <= big)) return false;
        ref = std::tan(x);
        tol = ax <= 1.5L ? rel * std::fabs(ref) : rel * (1 + ref * ref);
        return tol <= 0.1L * std::fabs(ref) + rel;
    case FN_asin: if (!(ax <= 1)) return false; ref = std::asin(x); tol = rel * std::fabs(ref); return true;
    case FN_acos: if (!(ax <= 1)) return false; ref = std::acos(x); tol = rel * std::fabs(ref); return true;
    case FN_atan: if (x != x) return false; ref = std::atan(x); tol = rel * std::fabs(ref); return true;
    case FN_tanh: if (x != x) return false; ref = std::tanh(x); tol = rel * std::fabs(ref); return true;
    case FN_log: if (!(x >= minn && x <= std::numeric_limits<F>::max())) return false; ref = std::log(x); tol = rel * std::fabs(ref); return true;
    case FN_log2: if (!(x >= minn && x <= std::numeric_limits<F>::max())) return false; ref = std::log2(x); tol = rel * std::fabs(ref); return true;
    case FN_log10: if (!(x >= minn && x <= std::numeric_limits<F>::max())) return false; ref = std::log10(x); tol = rel * std::fabs(ref); return true;
    case FN_exp:
        if (flt ? !(x >= -87.33L && x <= 88.722L) : !(x >= -708 && x <= 709.7L)) return false;
        ref = std::exp(x); tol = rel * ref; return true;
    case FN_spow:
    case FN_pow: {
        LD b = f == FN_spow ? ax : x;
        if (!(b >= minn && b <= std::numeric_limits<F>::max()) || !(std::fabs(y) <= 1e30L)) return false;
        LD t = y * std::log(b);
        if (!(std::fabs(t) <= (flt ? 85.0L : 700.0L))) return false;
        ref = std::exp(t);
        tol = rel * (1 + (flt ? std::fabs(t) : 1)) * ref;
        if (!flt) { ref = std::pow(b, y); }
        if (f == FN_spow && x < 0) ref = -ref;
        return true;
    }
    default: return false;
    }
}

template <class F> bool unit_ref_(Fn f, typename RefType<F>::type x, typename RefType<F>::type& ref, typename RefType<F>::type& tol)
{
    typedef typename RefType<F>::type LD;
    const bool flt = sizeof(F) == 4;
    const LD L2 = 0.693147180559945309417232121458L, L10 = 2.30258509299404568401799145468436421L;
    const LD u = flt ? 1.2e-7L : 2.3e-16L, rel = flt ? 5e-7L : 4e-15L;
    LD ax = std::fabs(x), t;
    if (x != x || std::isinf(x)) return false;
    switch (f) {
    case FN_midi2freq: t = (x - 69) / 12 * L2; if (std::fabs(t) > 75) return false; ref = 440 * std::exp(t); tol = ref * rel * (1 + std::fabs(t) + u * 69 / rel); return true;
    case FN_midi2ratio: t = x / 12 * L2; if (std::fabs(t) > 80) return false; ref = std::exp(t); tol = ref * rel * (1 + std::fabs(t)); return true;
    case FN_oct2freq: t = (x - 4.75L) * L2; if (std::fabs(t) > 75) return false; ref = 440 * std::exp(t); tol = ref * rel * (1 + std::fabs(t) + 5 * u / rel); return true;
    case FN_db2amp: t = x * 0.05L * L10; if (std::fabs(t) > 80) return false; ref = std::exp(t); tol = ref * rel * (1 + std::fabs(t)); return true;
    case FN_freq2midi: if (!(ax >= 1e-30L && ax <= 1e30L)) return false; t = 12 * std::log2(ax / 440); ref = t + 69; tol = 18 * 2.5L * u + rel * std::fabs(t) + u * (std::fabs(ref) + std::fabs(t)); return true;
    case FN_freq2oct: if (!(ax >= 1e-30L && ax <= 1e30L)) return false; t = std::log2(ax / 440); ref = t + 4.75L; tol = 1.5L * 2.5L * u + rel * std::fabs(t) + u * (std::fabs(ref) + std::fabs(t)); return true;
    case FN_ratio2midi: if (!(x >= 1e-30L && x <= 1e30L)) return false; ref = 12 * std::log2(x); tol = 1.2L * rel * std::fabs(ref); return true;
    case FN_amp2db: if (!(ax >= 1e-30L && ax <= 1e30L)) return false; ref = 20 * std::log10(ax); tol = 1.2L * rel * std::fabs(ref); return true;
    default: return false;
    }
}

template <class F> bool math_ref(Fn f, LD x, LD y, LD& ref, LD& tol)
{
    typename RefType<F>::type r = 0, t = 0;
    bool ok = math_ref_<F>(f, x, y, r, t);
    ref = r; tol = t;
    return ok;
}
template <class F> bool unit_ref(Fn f, LD x, LD& ref, LD& tol)
{
    typename RefType<F>::type r = 0, t = 0;
    bool ok = unit_ref_<F>(f, x, r, t);
    ref = r; tol = t;
    return ok;
}

template <class F> inline bool nonfin(F x) { return !std::isfinite(x); }

// Expected result of one sample. a[]: argument values (exact).
template <class F> Expect expect(Fn f, const F* a)
{
    typedef std::numeric_limits<F> L;
    const LD eps = L::epsilon(), tiny = 4 * (LD)L::denorm_min(), maxv = L::max();
    F x = a[0];
    auto compound = [&](int na, LD ref, LD mag, LD k, F naive) -> Expect {
        bool nf = false;
        for (int i = 0; i < na; ++i) nf |= nonfin(a[i]);
        if (nf) {                                    // class of the result must be that of the formula
            // (skipped when a finite intermediate overflows: fused and unfused evaluation then differ)
            if (naive != naive) return ref != ref ? Expect{false, true, false, 0, 0} : ex_skip();
            if (std::isinf(naive) && ref == (LD)naive) return {false, false, false, naive, naive};
            return ex_skip();
        }
        if (!(mag < maxv / 8)) return ex_skip();     // intermediate overflow depends on association
        return ex_tol(ref, k * eps * mag + tiny);
    };
    switch (f) {
    case FN_plus: case FN_sum2: return ex_exact<F>(x + a[1], true);
    case FN_minus: return ex_exact<F>(x - a[1], true);
    case FN_times: return ex_exact<F>(x * a[1], true);
    case FN_over: return ex_exact<F>(x / a[1], true);
    case FN_min: if (x != x || a[1] != a[1]) return ex_skip(); return ex_exact<F>(x < a[1] ? x : a[1]);
    case FN_max: if (x != x || a[1] != a[1]) return ex_skip(); return ex_exact<F>(x > a[1] ? x : a[1]);
    case FN_less: return ex_exact<F>(x < a[1]);
    case FN_less_equal: return ex_exact<F>(x <= a[1]);
    case FN_greater: return ex_exact<F>(x > a[1]);
    case FN_greater_equal: return ex_exact<F>(x >= a[1]);
    case FN_equal: return ex_exact<F>(x == a[1]);
    case FN_notequal: return ex_exact<F>(x != a[1]);
    case FN_clip2: {
        if (x != x || a[1] != a[1]) return ex_skip();
        F m = x < a[1] ? x : a[1], n = -a[1];
        return ex_exact<F>(n > m ? n : m);
    }
    case FN_clip: {
        if (x != x || a[1] != a[1] || a[2] != a[2]) return ex_skip();
        F m = x < a[2] ? x : a[2];
        return ex_exact<F>(m > a[1] ? m : a[1]);
    }
    case FN_muladd: { LD p = (LD)x * a[1]; return compound(3, p + a[2], fabsl(p) + fabsl((LD)a[2]), 1.1L, x * a[1] + a[2]); }
    case FN_ampmod: {
        LD p = (LD)a[1] * a[2];
        if (std::isfinite(a[1]) && std::isfinite(a[2]) && !(fabsl(p) < maxv / 8)) return ex_skip();
        return compound(3, x * (1 + p), fabsl((LD)x) * (1 + fabsl(p)) , 2.1L, x * (1 + a[1] * a[2]));
    }
    case FN_sum3: return compound(3, (LD)x + a[1] + a[2], fabsl((LD)x) + fabsl((LD)a[1]) + fabsl((LD)a[2]), 1.6L, x + a[1] + a[2]);
    case FN_sum4: return compound(4, (LD)x + a[1] + a[2] + a[3], fabsl((LD)x) + fabsl((LD)a[1]) + fabsl((LD)a[2]) + fabsl((LD)a[3]), 2.1L, (x + a[1]) + (a[2] + a[3]));
    case FN_mix: { LD p = (LD)x * a[1], q = (LD)a[2] * a[3]; return compound(4, p + q, fabsl(p) + fabsl(q), 1.6L, x * a[1] + a[2] * a[3]); }
    case FN_abs: return ex_exact<F>(std::fabs(x), true);
    case FN_sgn: if (x != x) return ex_skip(); return ex_exact<F>(x > 0 ? 1 : x < 0 ? -1 : 0);
    case FN_square: return ex_exact<F>(x * x, true);
    case FN_cube: return ex_exact<F>(x * x * x, true);
    case FN_undenormalize: return ex_exact<F>(std::fabs(x) < L::min() ? F(0) : x);
    case FN_softclip: {
        F b = std::fabs(x);
        return b < F(0.5) ? ex_exact<F>(x, true) : ex_exact<F>((b - F(0.25)) / x);
    }
    case FN_floor: return ex_exact<F>(std::floor(x));
    case FN_ceil: return ex_exact<F>(std::ceil(x));
    case FN_trunc: return ex_exact<F>(std::trunc(x));
    case FN_frac: return ex_exact<F>(x - std::floor(x));
    case FN_round: {
        if (nonfin(x)) return ex_exact<F>(x);
        F fl = std::floor(x), fr = x - fl;          // exact: fr representable here or irrelevant (|x| large => fl == x)
        if (fl == x) return ex_exact<F>(x);
        LD d = (LD)x - (LD)fl; (void)fr;
        if (d < 0.5L) return ex_exact<F>(fl);
        if (d > 0.5L) return ex_exact<F>(fl + 1);
        return {false, false, false, fl, (LD)fl + 1};   // tie: integrality is checked by the caller
    }
    case FN_reciprocal:
        if (sizeof(F) == 8) { if (x != x) return ex_skip(); return ex_exact<F>(1 / x); }
        if (!(std::fabs(x) >= L::min() && std::fabs(x) <= 8.5e37)) return ex_skip();
        return ex_tol(1 / (LD)x, 5e-7L / fabsl((LD)x));
    case FN_signed_sqrt: {
        if (x != x) return ex_skip();
        LD r = sqrtl(fabsl((LD)x));
        if (std::isinf(x)) return ex_exact<F>(x);
        return ex_tol(x < 0 ? -r : r, 0.501L * eps * r);
    }
    default: {
        LD ref, tol;
        LD y = (f == FN_pow || f == FN_spow) ? (LD)a[1] : 0;
        if (is_unit(f) ? unit_ref<F>(f, x, ref, tol) : math_ref<F>(f, x, y, ref, tol)) return ex_tol(ref, tol + tiny);
        return ex_skip();
    }
    }
}

// Expected result when argument i is only known to lie in [a[i]-d[i], a[i]+d[i]] (ramps).
template <class F> Expect expect_iv(Fn f, const F* mid, const LD* lo, const LD* hi, int na)
{
    // evaluate the reference on all corner/mid points; every function here is monotone in each argument on
    // the boxes used (division is skipped when the divisor box touches zero)
    const LD eps = std::numeric_limits<F>::epsilon(), tiny = 4 * (LD)std::numeric_limits<F>::denorm_min();
    if (f == FN_over && lo[1] <= 0 && hi[1] >= 0) return ex_skip();
    if ((f == FN_pow || f == FN_spow) && lo[0] <= 0 && hi[0] >= 0) return ex_skip();
    LD rlo = INFINITY, rhi = -INFINITY, mag = 0;
    int tot = 1;
    for (int i = 0; i < na; ++i) tot *= 3;
    for (int c = 0; c < tot; ++c) {
        LD v[4]; int k = c;
        for (int i = 0; i < na; ++i, k /= 3) v[i] = k % 3 == 0 ? lo[i] : k % 3 == 1 ? (LD)mid[i] : hi[i];
        LD r, m = 0;
        switch (f) {
        case FN_plus: case FN_sum2: r = v[0] + v[1]; m = fabsl(r); break;
        case FN_minus: r = v[0] - v[1]; m = fabsl(r); break;
        case FN_times: r = v[0] * v[1]; m = fabsl(r); break;
        case FN_over: r = v[0] / v[1]; m = fabsl(r); break;
        case FN_min: r = std::min(v[0], v[1]); break;
        case FN_max: r = std::max(v[0], v[1]); break;
        case FN_less: r = v[0] < v[1]; break;
        case FN_less_equal: r = v[0] <= v[1]; break;
        case FN_greater: r = v[0] > v[1]; break;
        case FN_greater_equal: r = v[0] >= v[1]; break;
        case FN_equal: r = v[0] == v[1]; break;
        case FN_notequal: r = v[0] != v[1]; break;
        case FN_clip2: r = std::max(-v[1], std::min(v[0], v[1])); break;
        case FN_clip: r = std::max(std::min(v[0], v[2]), v[1]); break;
        case FN_muladd: r = v[0] * v[1] + v[2]; m = fabsl(v[0] * v[1]) + fabsl(v[2]); break;
        case FN_ampmod: r = v[0] * (1 + v[1] * v[2]); m = 2 * fabsl(v[0]) * (1 + fabsl(v[1] * v[2])); break;
        case FN_sum3: r = v[0] + v[1] + v[2]; m = 2 * (fabsl(v[0]) + fabsl(v[1]) + fabsl(v[2])); break;
        case FN_sum4: r = v[0] + v[1] + v[2] + v[3]; m = 2 * (fabsl(v[0]) + fabsl(v[1]) + fabsl(v[2]) + fabsl(v[3])); break;
        case FN_mix: r = v[0] * v[1] + v[2] * v[3]; m = 2 * (fabsl(v[0] * v[1]) + fabsl(v[2] * v[3])); break;
        case FN_pow: case FN_spow: {
            LD t;
            if (!math_ref<F>(f, v[0], v[1], r, t)) return ex_skip();
            m = t / eps; break;
        }
        default: return ex_skip();
        }
        if (!(fabsl(r) < std::numeric_limits<F>::max() / 16)) return ex_skip();
        rlo = std::min(rlo, r); rhi = std::max(rhi, r); mag = std::max(mag, m);
    }
    if (f == FN_clip2 && lo[1] <= 0 && hi[1] >= 0) { rlo = std::min(rlo, (LD)0); rhi = std::max(rhi, (LD)0); }   // |limit| has its minimum inside the box
    if (f == FN_equal || f == FN_notequal) {
        bool overlap = lo[0] <= hi[1] && lo[1] <= hi[0], exact = lo[0] == hi[0] && lo[1] == hi[1];
        if (overlap && !exact) { rlo = 0; rhi = 1; }
    }
    return {false, false, false, rlo - 1.1L * eps * mag - tiny, rhi + 1.1L * eps * mag + tiny};
}
} // namespace oracle
