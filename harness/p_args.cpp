// C02: argument kinds.  A scalar argument behaves as a constant signal, a ramp argument as the signal
// base + i*slope, in every argument position, every call form and for every length.
#include "util.hpp"
using namespace util;

template <class F> struct Call {
    std::vector<std::unique_ptr<Buf<F>>> in;
    Buf<F> out, ref;
    F s[4], sl[4];
    int sp = -1, sq = -1;          // argument sq is the same buffer as argument sp
    static const unsigned MAXN = 4096;
    Call() : out(MAXN), ref(MAXN) { for (int i = 0; i < 4; ++i) { in.emplace_back(new Buf<F>(MAXN)); s[i] = sl[i] = 0; } }
    void jig(Rng& r, const Form<F>& f)
    {
        size_t v = Registry<F>::get().vec_size;
        for (auto& b : in) b->jiggle(r, is_simd(f.form), v);
        out.jiggle(r, is_simd(f.form), v); ref.jiggle(r, is_simd(f.form), v);
    }
    void run(const Form<F>& f, unsigned n, F* o)
    {
        F* op[2] = {o, nullptr};
        const F* ip[4] = {in[0]->p, in[1]->p, in[2]->p, in[3]->p};
        if (sp >= 0) ip[sq] = ip[sp];
        std::memset(o, 0x5A, n * sizeof(F));
        f.fn(op, ip, s, sl, n, nullptr);
    }
};

template <class F> const Form<F>* same_form(const Op<F>& o, const Form<F>& f)
{
    for (auto& g : o.forms) if (!strcmp(g.form, f.form) && g.ct_n == f.ct_n) return &g;
    return nullptr;
}
template <class F> const Op<F>* find_op(const std::string& fn, const std::string& kinds)
{
    for (auto& o : Registry<F>::get().ops) if (o.fn == fn && o.kinds == kinds) return &o;
    return nullptr;
}

// mode 0: dyadic integers (ramp values exact), 1: audio range, 2: wide, 3: crossing (comparison-rich), 4: positive
template <class F> void gen_ramp(Rng& r, int mode, Fn fn, int pos, unsigned n, F& base, F& slope)
{
    if (fn == FN_pow || fn == FN_spow) {
        if (pos == 0) { base = (F)r.uni(0.1, 8); slope = (F)(r.uni(0, 8) / n); }
        else { base = (F)r.uni(-3, 3); slope = (F)(r.uni(-3, 3) / n); }
        return;
    }
    switch (mode) {
    case 0: base = (F)((int)r.below(2001) - 1000); slope = (F)((int)r.below(65) - 32); if (r.chance(0.5)) { base *= F(0.125); slope *= F(0.125); } if (slope == 0) slope = 1; if (base == 0) base = 0; break;
    case 1: base = (F)r.uni(-1, 1); slope = (F)(r.uni(-2, 2) / n); break;
    case 2: base = gen_value<F>(r, P_WIDE); slope = gen_value<F>(r, P_WIDE); break;
    case 3: base = (F)r.below(n); slope = -1; if (base != 0 && r.chance(0.5)) { base = -base; slope = 1; } break;
    default: base = (F)r.uni(0.5, 4); slope = (F)(r.uni(0.01, 4) / n); break;
    }
}

// very long blocks: integer ramps stay exact up to 2^24, so every sample can be checked exactly
template <class F> void long_blocks(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const unsigned CAP = (65536 + 20) * reg.spl;
    Buf<F> in(CAP), out(CAP);
    for (unsigned i = 0; i < CAP; ++i) in[i] = (F)(i % 7);
    for (const Op<F>& op : reg.ops) {
        int na = (int)op.kinds.size();
        Fn fn = fn_id(op.fn, na);
        if (!(fn == FN_plus || fn == FN_minus || fn == FN_max || fn == FN_less || fn == FN_sum2 || fn == FN_sum3 || fn == FN_sum4) || op.kinds.find('r') == std::string::npos) continue;
        for (const Form<F>& f : op.forms) {
            if (f.ct_n) continue;
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            unsigned n = huge_n(r, f, reg.spl);
            F s[4], sl[4]; const F* ip[4] = {in.p, in.p, in.p, in.p}; F* o[2] = {out.p, nullptr};
            for (int k = 0; k < na; ++k) { s[k] = (F)r.below(1000); sl[k] = (F)((int)r.below(3) + 1) * (k & 1 ? -1 : 1); }
            ctx.at("%s n=%u", sg.c_str(), n);
            f.fn(o, ip, s, sl, n, nullptr);
            ctx.count("long_calls"); ctx.evaluations += n;
            ctx.seen(hash_buf(s, 4, hash_str(sg.c_str()) + n));
            for (unsigned i = 0; i < n; ++i) {
                double a[4], w = 0;
                for (int k = 0; k < na; ++k) a[k] = op.kinds[k] == 'v' ? (double)in[i] : op.kinds[k] == 's' ? (double)s[k] : (double)s[k] + (double)i * sl[k];
                switch (fn) {
                case FN_minus: w = a[0] - a[1]; break;
                case FN_max: w = std::max(a[0], a[1]); break;
                case FN_less: w = a[0] < a[1]; break;
                default: for (int k = 0; k < na; ++k) w += a[k];
                }
                if ((double)out[i] != w) { ctx.violation(sg + "/long", "n=%u i=%u: got %s want %.17g", n, i, num(out[i]).c_str(), w); break; }
            }
        }
    }
}
template <class F> void run_type(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const bool fma = ctx.config.find("fma") != std::string::npos || ctx.config.find("avx512") != std::string::npos;
    const LD eps = std::numeric_limits<F>::epsilon();
    Call<F> C;
    for (const Op<F>& op : reg.ops) {
        int na = (int)op.kinds.size();
        Fn fn = fn_id(op.fn, na);
        if (!fn || na < 2) continue;
        bool has_r = op.kinds.find('r') != std::string::npos, has_s = op.kinds.find('s') != std::string::npos;
        std::string vk(na, 'v');
        const Op<F>* allv = find_op<F>(op.fn, vk);
        std::string sk = op.kinds;
        for (char& c : sk) if (c == 'r') c = 's';
        const Op<F>* rs = find_op<F>(op.fn, sk);
        if (!allv || (has_r && na < 4 && !rs)) { fprintf(stderr, "registry hole %s %s\n", op.fn.c_str(), op.kinds.c_str()); exit(3); }
        bool compound = fn == FN_muladd || fn == FN_ampmod || fn == FN_mix;
        for (const Form<F>& f : op.forms) {
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            ctx.at("%s", sg.c_str());
            ctx.count("call_sites");
            int rounds = (has_r ? (na == 2 ? 240 : 75) : 60) * (ctx.thorough ? 15 : 1);
            for (int it = 0; it < rounds; ++it) {
                unsigned n = it == 0 && !f.ct_n ? (is_simd(f.form) ? (unsigned)reg.spl : 1) : pick_n(r, f, reg.spl, r.chance(0.15) ? (unsigned)C.MAXN : 300);
                C.jig(r, f);
                int mode = it % 5;
                for (int k = 0; k < na; ++k) {
                    int prof = mode == 0 || mode == 3 ? P_INTS : mode == 1 ? P_UNIT : mode == 2 ? P_WIDE : P_POS;
                    if (fn == FN_pow || fn == FN_spow) prof = k == 0 ? P_POS : P_UNIT;
                    if (!has_r && r.chance(0.4)) prof = (int)r.below(P_COUNT);
                    gen_fill<F>(r, *C.in[k], n, prof);
                    if (op.kinds[k] == 'r') gen_ramp<F>(r, mode, fn, k, n, C.s[k], C.sl[k]);
                    else { C.s[k] = !has_r && r.chance(0.2) ? dense_specials<F>()[r.below(dense_specials<F>().size())] : gen_value<F>(r, prof); C.sl[k] = 0; }
                }
                if (fn != FN_pow && fn != FN_spow) relate<F>(r, op.kinds.c_str(), C.s, C.sl, mode == 0 || mode == 3, n);
                LD scale = 1;              // the same signals at another magnitude, down to where slopes and samples are subnormal
                if (fn != FN_pow && fn != FN_spow && mode != 2 && has_r && r.chance(.2)) {
                    const int emin = sizeof(F) == 4 ? 145 : 1070, emax = compound ? (sizeof(F) == 4 ? 20 : 250) : sizeof(F) == 4 ? 100 : 900;   // compound: intermediate products stay finite
                    int e = r.chance(.5) ? (int)r.below(emax) : -(int)r.below(emin);
                    scale = ldexpl(1, e);
                    for (int k = 0; k < na; ++k) {
                        C.s[k] = (F)ldexpl(C.s[k], e); C.sl[k] = (F)ldexpl(C.sl[k], e);
                        if (op.kinds[k] == 'v') for (unsigned i = 0; i < n; ++i) (*C.in[k])[i] = (F)ldexpl((*C.in[k])[i], e);
                        if (op.kinds[k] == 'r' && r.chance(.3)) C.s[k] = 0;
                    }
                    ctx.count("calls_at_other_magnitudes");
                }
                C.sp = C.sq = -1;
                if (na > 2 && r.chance(.15)) {
                    int p = (int)r.below(na), q = (int)r.below(na);
                    if (p != q && op.kinds[p] == 'v' && op.kinds[q] == 'v') { C.sp = p; C.sq = q; std::copy(C.in[p]->p, C.in[p]->p + n, C.in[q]->p); ctx.count("calls_with_shared_input"); }
                }
                C.run(f, n, C.out);
                ctx.count("calls");
                if (has_r) {
                    bool exact = mode == 0 || mode == 3;
                    for (int k = 0; k < na; ++k)      // every ramp value really is representable
                        {
                            LD b8 = C.s[k] / scale * 8, s8 = C.sl[k] / scale * 8;
                            if (op.kinds[k] == 'r' && !(b8 == floorl(b8) && s8 == floorl(s8) && fabsl(b8) + n * fabsl(s8) < 16777216)) exact = false;
                        }
                    if (fn == FN_pow || fn == FN_spow) exact = false;
                    uint64_t h = hash_str(sg.c_str()) + n;
                    for (unsigned i = 0; i < n; ++i) {
                        F mid[4]; LD lo[4], hi[4];
                        for (int k = 0; k < na; ++k) {
                            if (op.kinds[k] == 'r') {
                                LD v = (LD)C.s[k] + (LD)i * C.sl[k], d = exact ? 0 : (i + 8) * eps * (fabsl((LD)C.s[k]) + i * fabsl((LD)C.sl[k]));
                                if (i == 0) d = 0;
                                mid[k] = (F)v; lo[k] = v - d; hi[k] = v + d;
                            } else { F v = op.kinds[k] == 'v' ? (*C.in[k])[i] : C.s[k]; mid[k] = v; lo[k] = hi[k] = v; }
                        }
                        Expect e = exact && !compound ? expect<F>(fn, mid) : expect_iv<F>(fn, mid, lo, hi, na);
                        if (e.skip) continue;
                        ++ctx.evaluations;
                        F o = C.out[i];
                        bool ok = accept(e, o);
                        if (ok && fn >= FN_less && fn <= FN_notequal && o != 0 && o != 1) ok = false;
                        if (!ok) {
                            std::string d = strf("n=%u i=%u ", n, i);
                            for (int k = 0; k < na; ++k) d += strf("%c:%s+i*%s=%s ", op.kinds[k], num(C.s[k]).c_str(), num(C.sl[k]).c_str(), num(mid[k]).c_str());
                            ctx.violation(sg, "%s got=%s expected [%.17Lg,%.17Lg]", d.c_str(), num(o).c_str(), e.lo, e.hi);
                            break;
                        }
                    }
                    h = hash_buf(C.s, 4, hash_buf(C.sl, 4, h));
                    ctx.seen(h);
                    if ((h & 1023) == 7) ctx.sample("%s n=%u base0=%s slope0=%s out[0]=%s out[n-1]=%s", sg.c_str(), n, num(C.s[0]).c_str(), num(C.sl[0]).c_str(), num(C.out[0]).c_str(), num(C.out[n - 1]).c_str());
                    // the ramp does not depend on how many samples are requested
                    if (!f.ct_n && n > (unsigned)reg.spl) {
                        unsigned n2 = is_simd(f.form) ? (unsigned)reg.spl * (1 + r.below(n / reg.spl)) : 1 + r.below(n);
                        C.run(f, n2, C.ref);
                        for (unsigned i = 0; i < n2; ++i) {
                            ++ctx.evaluations;
                            if (!(fma && compound) && !same_val(C.ref[i], C.out[i])) { ctx.violation(sg + "/prefix", "n=%u vs n=%u i=%u: %s vs %s", n2, n, i, num(C.ref[i]).c_str(), num(C.out[i]).c_str()); break; }
                        }
                    }
                    // slope 0 == scalar
                    if (rs && same_form(*rs, f)) {
                        F keep[4]; std::memcpy(keep, C.sl, sizeof keep);
                        for (int k = 0; k < na; ++k) C.sl[k] = 0;
                        const Form<F>* g = same_form(*rs, f);
                        C.run(f, n, C.out);
                        C.run(*g, n, C.ref);
                        for (unsigned i = 0; i < n; ++i) {
                            ++ctx.evaluations;
                            if (!(fma && compound) && !same_val(C.ref[i], C.out[i])) { ctx.violation(sg + "/slope0", "n=%u i=%u: ramp with slope 0 gives %s, scalar gives %s", n, i, num(C.out[i]).c_str(), num(C.ref[i]).c_str()); break; }
                        }
                    }
                } else if (has_s) {
                    // scalar == filled vector
                    for (int k = 0; k < na; ++k) if (op.kinds[k] == 's') for (unsigned i = 0; i < n; ++i) (*C.in[k])[i] = C.s[k];
                    C.run(*same_form(*allv, f), n, C.ref);
                    for (unsigned i = 0; i < n; ++i) {
                        ++ctx.evaluations;
                        if (!(fma && compound) && !same_num(C.ref[i], C.out[i])) { ctx.violation(sg + "/fill", "n=%u i=%u: scalar argument gives %s, constant signal gives %s", n, i, num(C.out[i]).c_str(), num(C.ref[i]).c_str()); break; }
                    }
                    ctx.seen(hash_buf(C.s, 4, hash_buf(C.out.p, std::min(n, 4u), hash_str(sg.c_str()) + n)));
                }
            }
        }
    }
}

int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    Rng r(ctx.seed * 1000003 + 2);
    run_type<float>(r);
    run_type<double>(r);
    if (ctx.shard == 0) { long_blocks<float>(r); long_blocks<double>(r); }
    return ctx.finish();
}
