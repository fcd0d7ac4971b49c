// C12: fill / copy / accumulate / ramp generators.  C13: stereo panning.
#include "huge.hpp"
using namespace util;
static std::string prop;

template <class F> F rawbits(Rng& r)
{
    F f; uint64_t u = r.next(); std::memcpy(&f, &u, sizeof f); return f;
}
template <class F> void run_mem(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const LD eps = std::numeric_limits<F>::epsilon();
    const unsigned CAP = (65536 + 32) * reg.spl; Buf<F> A(CAP), B(CAP), C(CAP);
    const unsigned vs = (unsigned)reg.vec_size;
    for (const Op<F>& op : reg.ops) {
        const std::string& k = op.fn;
        bool zero = k.compare(0, 7, "zerovec") == 0, set = k.compare(0, 6, "setvec") == 0, copy = k.compare(0, 7, "copyvec") == 0, addv = k == "addvec", slope = k == "set_slope", expo = k == "set_exp";
        if (!(zero || set || copy || addv || slope || expo)) continue;
        for (const Form<F>& f : op.forms) {
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            int rounds = ctx.thorough ? 60000 : 1500;
            for (int it = 0; it < rounds; ++it) {
                unsigned n = it == 0 && !f.ct_n ? (is_simd(f.form) ? reg.spl : 1) : it == 1 && !f.ct_n ? huge_n(r, f, reg.spl) : pick_n(r, f, reg.spl, r.chance(.05) ? 4096 : 300);
                unsigned oi = (op.kinds == "V" || !is_simd(f.form)) ? (unsigned)r.below(17) : vs * (unsigned)r.below(16 / vs + 1), oo = (op.out_unaligned || !is_simd(f.form)) ? (unsigned)r.below(17) : vs * (unsigned)r.below(16 / vs + 1);
                F *in = A.p + oi, *out = B.p + oo;
                int prof = (int)r.below(P_COUNT);
                bool raw = copy && r.chance(.5);
                for (unsigned i = 0; i < n; ++i) { in[i] = raw ? rawbits<F>(r) : gen_value<F>(r, prof); out[i] = gen_value<F>(r, addv ? prof : P_UNIT); C[i] = out[i]; }
                if (n > 1 && r.chance(.1)) shape_block(r, in, n, r.chance(.5) ? "0" : nullptr);
                if (n > 1 && addv && r.chance(.1)) { shape_block(r, out, n, r.chance(.5) ? "0" : nullptr); std::copy(out, out + n, C.p); }
                F s[1], sl[1];
                s[0] = set ? (r.chance(.3) ? rawbits<F>(r) : gen_value<F>(r, P_ANY)) : gen_value<F>(r, prof);
                bool huge = n > 8192, exact = huge ? !expo || r.chance(.5) : r.chance(.5);
                sl[0] = gen_value<F>(r, P_UNIT);
                if (slope || (addv && op.kinds == "r")) {
                    if (exact) { s[0] = (F)((int)r.below(2001) - 1000); sl[0] = huge ? (F)((int)r.below(9) - 4) : (F)((int)r.below(65) - 32); if (addv) for (unsigned i = 0; i < n; ++i) out[i] = C[i] = (F)((int)r.below(2001) - 1000); }
                    else { s[0] = gen_value<F>(r, r.chance(.5) ? P_UNIT : P_WIDE); sl[0] = (F)(gen_value<F>(r, r.chance(.5) ? P_UNIT : P_WIDE)); if (addv) { for (unsigned i = 0; i < n; ++i) out[i] = C[i] = gen_value<F>(r, P_WIDE); } }
                }
                if (slope || (addv && op.kinds == "r")) relate<F>(r, "r", s, sl, exact, n);
                if (expo) {
                    s[0] = (F)r.uni(-4, 4);
                    if (exact && huge) sl[0] = r.chance(.5) ? F(1) : F(-1);
                    else if (exact) { n = std::min(n, 100u) ; if (f.ct_n) n = f.ct_n; else if (is_simd(f.form)) { n = n / reg.spl * reg.spl; if (!n) n = reg.spl; } static const double t[] = {1, -1, 2, 0.5, -2, -0.5}; s[0] = (F)((int)r.below(17) - 8); sl[0] = (F)t[r.below(6)]; }
                    else { sl[0] = (F)std::exp(r.uni(-20, 20) / n); if (r.chance(.2)) sl[0] = -sl[0]; if (r.chance(.05)) sl[0] = 1; if (r.chance(.1)) sl[0] = 1 + (F)r.uni(-1, 1) * 64 * (F)eps; if (r.chance(.05)) s[0] = 0; }
                }
                F* o[2] = {out, nullptr}; const F* ip[4] = {in};
                ctx.at("%s n=%u in+%u out+%u", sg.c_str(), n, oi, oo);
                f.fn(o, ip, s, sl, n, nullptr);
                ctx.count("calls");
                uint64_t h = hash_buf(in, std::min(n, 8u), hash_str(sg.c_str()) + n * 1000 + oi * 20 + oo);
                h = hash_buf(s, 1, h);
                ctx.seen(h);
                if (h % 4099 == 1) ctx.sample("%s n=%u in+%u out+%u s=%s slope=%s out[n-1]=%s", sg.c_str(), n, oi, oo, num(s[0]).c_str(), num(sl[0]).c_str(), num(out[n - 1]).c_str());
                for (unsigned i = 0; i < n; ++i) {
                    bool ok = true; LD want = 0, tol = 0; F w;
                    ++ctx.evaluations;
                    if (zero) { w = 0; ok = same_bits(out[i], w); want = 0; }
                    else if (set) { ok = same_bits(out[i], s[0]); want = s[0]; }
                    else if (copy) { ok = same_bits(out[i], in[i]); want = in[i]; }
                    else if (addv && op.kinds != "r") { w = C[i] + (op.kinds == "v" ? in[i] : s[0]); ok = same_val(out[i], w); want = w; }
                    else if (slope || addv) {
                        LD v = (LD)s[0] + (LD)i * sl[0], d = exact ? 0 : (i + 8) * eps * (fabsl((LD)s[0]) + i * fabsl((LD)sl[0]));
                        if (i == 0) d = 0;
                        want = v + (addv ? (LD)C[i] : 0); tol = d + (addv && !exact ? eps * fabsl(want) : 0);
                        ok = fabsl((LD)out[i] - want) <= tol;
                    } else {
                        want = s[0] * powl((LD)sl[0], (LD)i);
                        if (!(fabsl(want) < std::numeric_limits<F>::max() / 4) || (want != 0 && fabsl(want) < std::numeric_limits<F>::min() * 4)) break;
                        tol = exact ? 0 : (2 * i + 16) * eps * fabsl(want);
                        ok = fabsl((LD)out[i] - want) <= tol;
                    }
                    if (!ok) { ctx.violation(sg, "n=%u i=%u in+%u out+%u s=%s slope=%s before=%s got=%s want=%.17Lg (tol %.3Lg)", n, i, oi, oo, num(s[0]).c_str(), num(sl[0]).c_str(), num(C[i]).c_str(), num(out[i]).c_str(), want, tol); break; }
                }
            }
            ctx.count("call_sites");
        }
    }
}
template <class F> void run_pan(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const LD eps = std::numeric_limits<F>::epsilon();
    const unsigned CAP = (65536 + 32) * reg.spl; Buf<F> x(CAP), L(CAP), R(CAP);
    for (const Op<F>& op : reg.ops) {
        if (op.fn != "pan2") continue;
        bool ramp = op.kinds == "vrr";
        for (const Form<F>& f : op.forms) {
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            int rounds = ctx.thorough ? 100000 : 8000;
            for (int it = 0; it < rounds; ++it) {
                unsigned n = it == 0 && !f.ct_n ? (is_simd(f.form) ? reg.spl : 1) : it == 1 && !f.ct_n ? huge_n(r, f, reg.spl) : pick_n(r, f, reg.spl, r.chance(.05) ? 4096 : 300);
                for (Buf<F>* q : {&x, &L, &R}) q->jiggle(r, is_simd(f.form), reg.vec_size);
                bool huge = n > 8192, exact = huge || r.chance(.5);
                int prof = exact ? P_INTS : ramp ? (r.chance(.5) ? P_UNIT : P_WIDE) : (int)r.below(P_COUNT);
                F s[3], sl[3] = {};
                for (int k = 1; k < 3; ++k) {
                    s[k] = gen_value<F>(r, prof);
                    if (ramp) { if (exact) { s[k] = (F)((int)r.below(65) - 32); sl[k] = (F)((int)r.below(9) - 4) * F(0.25); } else sl[k] = (F)(r.uni(-1, 1) / n); }
                }
                relate<F>(r, op.kinds.c_str(), s, sl, exact, n);
                gen_fill<F>(r, x, n, prof);
                if (exact) for (unsigned i = 0; i < n; ++i) x[i] = huge ? (F)(1 << r.below(5)) * (r.chance(.5) ? F(1) : F(-1)) : (F)((int)r.below(33) - 16);
                F* o[2] = {L.p, R.p}; const F* ip[4] = {x.p};
                ctx.at("%s n=%u", sg.c_str(), n);
                f.fn(o, ip, s, sl, n, nullptr);
                ctx.count("calls");
                uint64_t h = hash_buf(x.p, std::min(n, 8u), hash_buf(s + 1, 2, hash_str(sg.c_str()) + n));
                ctx.seen(h);
                if (h % 4099 == 1) ctx.sample("%s n=%u f0=%s f1=%s x[0]=%s L[0]=%s R[0]=%s", sg.c_str(), n, num(s[1]).c_str(), num(s[2]).c_str(), num(x[0]).c_str(), num(L[0]).c_str(), num(R[0]).c_str());
                for (unsigned i = 0; i < n; ++i) for (int c = 0; c < 2; ++c) {
                    F got = c ? R[i] : L[i];
                    ++ctx.evaluations;
                    bool ok; LD want;
                    if (!ramp) { F w = x[i] * s[1 + c]; want = w; ok = same_val(got, w); }
                    else {
                        LD g = (LD)s[1 + c] + (LD)i * sl[1 + c], d = exact || i == 0 ? 0 : (i + 8) * eps * (fabsl((LD)s[1 + c]) + i * fabsl((LD)sl[1 + c]));
                        want = g * x[i];
                        ok = fabsl((LD)got - want) <= (exact ? 0 : d * fabsl((LD)x[i]) + eps * fabsl(want) + std::numeric_limits<F>::denorm_min());
                    }
                    if (!ok) { ctx.violation(sg, "n=%u i=%u channel %d x=%s factor=%s slope=%s got=%s want=%.17Lg", n, i, c, num(x[i]).c_str(), num(s[1 + c]).c_str(), num(sl[1 + c]).c_str(), num(got).c_str(), want); i = n - 1; break; }
                }
            }
            ctx.count("call_sites");
        }
    }
}
int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    for (int i = 1; i < argc; ++i) if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
    Rng r(ctx.seed * 1000003 + hash_str(prop.c_str()));
    if (prop == "C12") { run_mem<float>(r); run_mem<double>(r); }
    else { run_pan<float>(r); run_pan<double>(r); }
    if (huge_here()) {
        auto sel = [](const auto& op, const auto&) { return op.nout && !fn_id(op.fn, (int)op.kinds.size()) && (op.fn == "pan2") == (prop == "C13"); };
        huge_blocks<float>(r, sel, ctx.thorough ? 90 : 12); huge_blocks<double>(r, sel, ctx.thorough ? 60 : 6);
    }
    return ctx.finish();
}
