// C14: the vector class.  Every operation acts on each lane independently, exactly like the scalar
// operation it names; i/o moves exactly the lanes it names.
#include "util.hpp"
#include "vecops.hpp"
#include <sys/mman.h>
extern "C" void __msan_unpoison(const volatile void*, size_t) __attribute__((weak));
using namespace util;
namespace mon {
template <> VecRegistry<float>& VecRegistry<float>::get() { static VecRegistry<float> r; return r; }
template <> VecRegistry<double>& VecRegistry<double>::get() { static VecRegistry<double> r; return r; }
}
template <class F> struct UInt;
template <> struct UInt<float> { typedef uint32_t u; typedef int32_t s; };
template <> struct UInt<double> { typedef uint64_t u; typedef int64_t s; };
template <class F> typename UInt<F>::u tou(F x) { typename UInt<F>::u u; std::memcpy(&u, &x, sizeof x); return u; }
template <class F> F fru(typename UInt<F>::u u) { F x; std::memcpy(&x, &u, sizeof x); return x; }
template <class F> bool cmp(const char* k, F x, F y)
{
    switch (k[0] * 256 + k[1]) {
    case 'l' * 256 + 't': return x < y;
    case 'l' * 256 + 'e': return x <= y;
    case 'g' * 256 + 't': return x > y;
    case 'g' * 256 + 'e': return x >= y;
    case 'e' * 256 + 'q': return x == y;
    default: return x != y;
    }
}
static Fn fn_of(const std::string& n)
{
    if (n == "sign") return FN_sgn;
    if (n == "max_") return FN_max;
    if (n == "min_") return FN_min;
    if (n == "signed_pow") return FN_spow;
    return fn_id(n, 1);
}
template <class F> F arg_for(Rng& r, Fn f, int pos, int prof)
{
    double u = r.unit();
    switch (f) {
    case FN_sin: case FN_cos: case FN_tan: return (F)(u < .6 ? r.uni(-7, 7) : r.uni(-8000, 8000));
    case FN_asin: case FN_acos: return (F)r.uni(-1, 1);
    case FN_atan: case FN_tanh: return (F)(u < .6 ? r.uni(-4, 4) : r.uni(-30, 30));
    case FN_log: case FN_log2: case FN_log10: return (F)(u < .4 ? r.uni(.25, 4) : std::exp(r.uni(-80, 80)));
    case FN_exp: return (F)(u < .5 ? r.uni(-10, 10) : r.uni(-87, 88));
    case FN_pow: return pos ? (F)r.uni(-4, 4) : (F)r.uni(0.01, 10);
    case FN_spow: return pos ? (F)r.uni(-4, 4) : (F)r.uni(-10, 10);
    default: return gen_value<F>(r, prof);
    }
}

// samples directly before an inaccessible page
template <class F> struct Edge {
    F* end;
    Edge()
    {
        char* q = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (q == MAP_FAILED || mprotect(q + 4096, 4096, PROT_NONE)) exit(3);
        end = (F*)(q + 4096);
    }
};
static bool scalar_result(const std::string& sh) { return sh == "hmin" || sh == "hmax" || sh == "hsum" || sh == "aligned" || sh == "smax" || sh == "smin"; }
template <class F> void run_type(Rng& r)
{
    VecRegistry<F>& R = VecRegistry<F>::get();
    typedef typename UInt<F>::u U;
    const int S = R.size;
    const LD eps = std::numeric_limits<F>::epsilon();
    const F nan = std::numeric_limits<F>::quiet_NaN();
    Buf<F> a(80), b(16), c(16), out(32), oa(80), ob(80), oo(80);
    Edge<F> ea, eb, eo;
    ctx.counters["lanes_" + std::string(sizeof(F) == 4 ? "float" : "double")] = S;
    for (auto& op : R.ops) {
        std::string sg = std::string("vec.") + op.name + (sizeof(F) == 4 ? "/float" : "/double");
        if (!ctx.selected(sg)) continue;
        std::string sh = op.shape;
        Fn fn = sh == "u" || sh == "b" ? fn_of(op.name) : FN_none;
        if ((sh == "u" || sh == "b") && !fn && strcmp(op.name, "sqrt")) { fprintf(stderr, "no oracle for %s\n", op.name); exit(3); }
        int rounds = ctx.thorough ? 100000 : 8000;
        for (int it = 0; it < rounds; ++it) {
            int prof = (int)r.below(P_COUNT);
            bool raw = (sh == "io" || sh == "set" || sh == "fill" || sh == "first" || sh.compare(0, 2, "i ") == 0 || sh == "and" || sh == "or" || sh == "xor" || sh == "andnot") && r.chance(.5);
            auto& SP = core_specials<F>();
            for (int i = 0; i < S; ++i) {
                a[i] = raw ? fru<F>((U)r.next()) : fn ? arg_for<F>(r, fn, 0, prof) : gen_value<F>(r, prof);
                b[i] = raw ? fru<F>((U)r.next()) : fn ? arg_for<F>(r, fn, 1, prof) : gen_value<F>(r, prof);
                c[i] = gen_value<F>(r, prof);
                if (!raw && !fn && r.chance(.1)) a[i] = SP[r.below(SP.size())];
                if (!raw && !fn && r.chance(.1)) b[i] = SP[r.below(SP.size())];
                if (!fn && r.chance(.1)) b[i] = a[i];
                if (sh == "sel nz" && r.chance(.5)) c[i] = 0;
                if (sh == "hsum") a[i] = (F)r.uni(-1, 1);
                if ((sh == "i trunc" || sh == "i roundtrip")) a[i] = (F)(r.chance(.5) ? r.uni(-100, 100) : r.uni(-2147483000.0, 2147483000.0));
                if ((sh == "hmin" || sh == "hmax" || sh.compare(0, 2, "u4") == 0) && a[i] != a[i]) a[i] = 0;
                if (sh.compare(0, 5, "smin") == 0 || sh == "smax") { if (a[i] != a[i]) a[i] = 1; if (b[i] != b[i]) b[i] = 2; }
                if (sh == "i lt" || sh == "i gt" || sh == "i eq") if (r.chance(.3)) b[i] = fru<F>(tou(a[i]) + (U)r.below(3) - 1);
            }
            // vectors with structure, and structural relations between the operands
            if (r.chance(.12)) { F* q[] = {a.p, b.p, c.p}; shape_block(r, q[r.below(3)], (size_t)S, nullptr); }
            if (!fn && r.chance(.1)) { F* q[] = {a.p, b.p, c.p}; F *d = q[r.below(3)], *e = q[r.below(3)]; if (d != e && sh != "sel nz" && sh.compare(0, 2, "i ") && sh.compare(0, 2, "u4") && sh[0] != 'h') std::copy(e, e + S, d); }
            int k = (int)r.below(S);
            bool dyadic = r.chance(.5);
            if (sh == "slope") { a[0] = dyadic ? (F)((int)r.below(2001) - 1000) : gen_value<F>(r, P_WIDE); b[0] = dyadic ? (F)((int)r.below(65) - 32) : gen_value<F>(r, P_WIDE); }
            if (sh == "exp") { static const double t[] = {1, -1, 2, .5, -2, -.5}; a[0] = dyadic ? (F)((int)r.below(17) - 8) : (F)r.uni(-4, 4); b[0] = dyadic ? (F)t[r.below(6)] : (F)std::exp(r.uni(-2, 2)); }
            if (sh == "i sll" || sh == "i srl") k = (int)r.below(32);
            if (sh == "aligned") k = (int)r.below(r.chance(.5) ? 65 : 9) * (r.chance(.3) ? 1 : (int)sizeof(F));
            F A[16], B[16], C[16], red[2] = {nan, nan};
            std::memcpy(A, a.p, sizeof A); std::memcpy(B, b.p, sizeof B); std::memcpy(C, c.p, sizeof C);
            std::memset(out.p, 0x5A, 32 * sizeof(F));
            ctx.at("%s a=%s b=%s k=%d", sg.c_str(), num(A[0]).c_str(), num(B[0]).c_str(), k);
            // operands and result anywhere the operation allows: at any sample address, or directly before an inaccessible page
            const bool la = !strncmp(op.name, "load_aligned", 12) || sh == "aligned", lb = sh == "first", lo = strstr(op.name, "store_aligned") != nullptr;
            F *qa = a.p, *qb = b.p, *qo = out.p;
            if (!la && r.chance(.3)) { qa = r.chance(.5) ? oa.base + r.below(16) : ea.end - (sh == "first" || sh == "fill" || sh == "slope" || sh == "exp" ? 1 : S); std::copy(A, A + (qa >= ea.end - S && qa < ea.end ? ea.end - qa : S), qa); }
            if (!lb && r.chance(.3)) { qb = r.chance(.5) ? ob.base + r.below(16) : eb.end - S; std::copy(B, B + S, qb); }
            if (!lo && r.chance(.3)) { qo = r.chance(.5) ? oo.base + 16 + r.below(16) : eo.end - S; std::memset(oo.base, 0x5A, 80 * sizeof(F)); std::memset(eo.end - 64, 0x5A, 64 * sizeof(F)); }
            ctx.count(qa != a.p || qb != b.p || qo != out.p ? "calls_at_odd_addresses" : "calls_at_aligned_addresses");
            if (__msan_unpoison) { __msan_unpoison(oa.base, 80 * sizeof(F)); __msan_unpoison(ob.base, 80 * sizeof(F)); __msan_unpoison(ea.end - 64, 64 * sizeof(F)); __msan_unpoison(eb.end - 64, 64 * sizeof(F)); }   // this file is not instrumented: what it wrote is known to be initialised
            op.fn(qa, qb, c.p, k, qo, red);
            if (qo != out.p) {
                std::copy(qo, qo + S, out.p);
                F *lo_ = qo >= eo.end - S && qo < eo.end ? eo.end - 64 : oo.base, *hi_ = lo_ == oo.base ? oo.base + 80 : eo.end;
                if (!scalar_result(sh)) for (F* p = lo_; p < hi_; ++p) if (p < qo || p >= qo + S) { U w; std::memset(&w, 0x5A, sizeof w); if (tou(*p) != w) { ctx.violation(sg, "sample %ld relative to the stored vector was overwritten", (long)(p - qo)); break; } }
            }
            if (qa != a.p && sh != "first" && sh != "fill" && sh != "slope" && sh != "exp") std::memcpy(a.p, qa, S * sizeof(F));
            if (qb != b.p) std::memcpy(b.p, qb, S * sizeof(F));
            ++ctx.evaluations;
            uint64_t h = hash_buf(A, S, hash_buf(B, S, hash_str(sg.c_str()) + k));
            if (!all_same(A, S)) ctx.seen(h);
            if (h % 8191 == 3) ctx.sample("%s a=[%s %s ..] b=[%s ..] -> [%s %s ..] %s", sg.c_str(), num(A[0]).c_str(), num(A[1]).c_str(), num(B[0]).c_str(), num(out[0]).c_str(), num(out[1]).c_str(), num(red[0]).c_str());
            auto bad = [&](int i, F got, LD want, const char* what) {
                ctx.violation(sg, "lane %d of %d k=%d a=%s b=%s c=%s got=%s (bits %llx) want=%.17Lg %s", i, S, k, num(A[i]).c_str(), num(B[i]).c_str(), num(C[i]).c_str(), num(got).c_str(), (unsigned long long)tou(got), want, what);
            };
            if (std::memcmp(A, a.p, S * sizeof(F)) || std::memcmp(B, b.p, S * sizeof(F)) || std::memcmp(C, c.p, S * sizeof(F))) bad(0, a[0], 0, "(an operand was modified)");
            bool scalar_only = sh == "hmin" || sh == "hmax" || sh == "hsum" || sh == "aligned" || sh == "smax" || sh == "smin" || sh.compare(0, 2, "u4") == 0;
            const F* pa = A; const F* pb = B;
            F fa[16], fb[16];
            std::string core = sh;
            if (sh.size() > 3 && sh.compare(sh.size() - 3, 3, " vs") == 0) { for (int i = 0; i < S; ++i) fb[i] = B[0]; pb = fb; core = sh.substr(0, sh.size() - 3); }
            if (sh.size() > 3 && sh.compare(sh.size() - 3, 3, " sv") == 0) { for (int i = 0; i < S; ++i) fa[i] = A[0]; pa = fa; core = sh.substr(0, sh.size() - 3); }
            if (sh.size() > 5 && sh.compare(sh.size() - 5, 5, " self") == 0) { pb = A; core = sh.substr(0, sh.size() - 5); }
            const U allb = ~(U)0, signb = (U)1 << (sizeof(F) * 8 - 1);
            if (!scalar_only) for (int i = 0; i < S; ++i) {
                F x = pa[i], y = pb[i], g = out[i];
                U ux = tou(x), uy = tou(y), ug = tou(g);
                auto val = [&](F w) { if (!same_val(g, w)) bad(i, g, w, ""); };
                auto valz = [&](F w) { if (!same_num(g, w)) bad(i, g, w, ""); };
                auto bits = [&](U w) { if (ug != w) bad(i, g, (LD)w, "(bit pattern)"); };
                if (core == "io") bits(ux);
                else if (core == "first") { if (i == 0) bits(ux); else bits(0); }
                else if (core == "set") bits(i == k ? tou(B[0]) : ux);
                else if (core == "fill") bits(tou(A[0]));
                else if (core == "zero") bits(0);
                else if (core == "slope") {
                    LD w = (LD)A[0] + (LD)i * B[0], t = dyadic || i == 0 ? 0 : (i + 2) * eps * (fabsl((LD)A[0]) + i * fabsl((LD)B[0]));
                    if (!(fabsl((LD)g - w) <= t)) bad(i, g, w, "(base + lane*slope)");
                } else if (core == "exp") {
                    LD w = A[0] * powl((LD)B[0], (LD)i), t = dyadic ? 0 : (i + 1) * eps * fabsl(w);
                    if (!(fabsl((LD)g - w) <= t)) bad(i, g, w, "(base * curve^lane)");
                }
                else if (core == "add") valz(x + y);
                else if (core == "sub") valz(x - y);
                else if (core == "mul") valz(x * y);
                else if (core == "div") valz(x / y);
                else if (core == "vmax") { F q[2] = {x, y}; if (!accept(expect<F>(FN_max, q), g)) bad(i, g, std::max(x, y), ""); }
                else if (core == "negate") bits(ux ^ signb);
                else if (core == "madd") { F q[3] = {x, y, C[i]}; Expect e = expect<F>(FN_muladd, q); if (!accept(e, g)) bad(i, g, e.lo, ""); }
                else if (core == "u" || core == "b") {
                    if (!fn) { F w = std::sqrt(x); valz(w); continue; }
                    F q[2] = {x, y}; Expect e = expect<F>(fn, q);
                    if (!accept(e, g) || (!e.skip && fn == FN_round && std::isfinite(g) && g != std::floor(g))) bad(i, g, e.lo, "(interval start)");
                }
                else if (core.compare(0, 5, "mask ") == 0) bits(cmp(core.c_str() + 5, x, y) ? allb : 0);
                else if (core == "lt" || core == "le" || core == "gt" || core == "ge" || core == "eq" || core == "ne") val(cmp(core.c_str(), x, y) ? F(1) : F(0));
                else if (core == "and") bits(ux & uy);
                else if (core == "or") bits(ux | uy);
                else if (core == "xor") bits(ux ^ uy);
                else if (core == "andnot") bits(~ux & uy);
                else if (core == "sel lt") bits(C[i] < 0 ? uy : ux);
                else if (core == "sel nz") bits(C[i] != 0 ? uy : ux);
                else if (core == "ones") val(1);
                else if (core == "halves") val(F(.5));
                else if (core == "allbits") bits(allb);
                else if (core == "signbits") bits(signb);
                else if (core == "absbits") bits(~signb);
                else if (core == "expbits") bits((U)0x7F800000u);
                else if (core == "expbits1") bits((U)0x3F000000u);
                else if (core == "frcp") { if (std::fabs(x) >= 1e-37 && std::fabs(x) <= 1e37 && !(fabsl((LD)g * x - 1) <= 4e-4L)) bad(i, g, 1 / (LD)x, "(relative error 4e-4)"); }
                else if (core == "i trunc") bits((U)(int32_t)x);
                else if (core == "i roundtrip") val((F)(int32_t)x);
                else if (core == "i tofloat") val((F)(int32_t)ux);
                else if (core == "i fill") bits(tou(A[0]));
                else if (core == "i add") bits(ux + uy);
                else if (core == "i sub") bits(ux - uy);
                else if (core == "i and") bits(ux & uy);
                else if (core == "i andnot") bits(~ux & uy);
                else if (core == "i lt") bits((int32_t)ux < (int32_t)uy ? allb : 0);
                else if (core == "i gt") bits((int32_t)ux > (int32_t)uy ? allb : 0);
                else if (core == "i eq") bits(ux == uy ? allb : 0);
                else if (core == "i sll") bits((U)(ux << k));
                else if (core == "i srl") bits((U)(ux >> k));
                else { fprintf(stderr, "no oracle for shape %s\n", core.c_str()); exit(3); }
            }
            if (!scalar_only) for (int i = S; i < 32; ++i) { U w; std::memset(&w, 0x5A, sizeof w); if (tou(out[i]) != w) { bad(0, out[i], 0, "(stored beyond the vector)"); break; } }
            F mn = A[0], mx = A[0]; LD sum = 0, mag = 0;
            int lim = sh.compare(0, 2, "u4") == 0 ? 4 : S;
            for (int i = 0; i < lim; ++i) { mn = std::min(mn, A[i]); mx = std::max(mx, A[i]); sum += A[i]; mag += fabsl((LD)A[i]); }
            auto rv = [&](F w) { if (!same_val(red[0], w)) bad(0, red[0], w, "(scalar result)"); };
            auto o4 = [&](std::function<U(int)> w) { for (int i = 0; i < 4; ++i) if (tou(out[i]) != w(i)) bad(i, out[i], (LD)w(i), "(bit pattern)"); };
            if (sh == "slope") { LD w = (LD)S * B[0]; if (!(fabsl((LD)red[0] - w) <= (dyadic ? 0 : S * eps * fabsl(w)))) bad(0, red[0], w, "(returned increment)"); }
            else if (sh == "exp") { LD w = A[0] * powl((LD)B[0], (LD)S); if (!(fabsl((LD)red[0] - w) <= (dyadic ? 0 : (S + 1) * eps * fabsl(w)))) bad(0, red[0], w, "(returned value)"); }
            else if (sh == "hmin" || sh == "u4 min") rv(mn);
            else if (sh == "hmax" || sh == "u4 max") rv(mx);
            else if (sh == "hsum") { if (!(fabsl((LD)red[0] - sum) <= S * eps * mag)) bad(0, red[0], sum, "(sum)"); }
            else if (sh == "smax") rv(std::max(A[0], B[0]));
            else if (sh == "smin") rv(std::min(A[0], B[0]));
            else if (sh == "aligned") { size_t need = R.full ? S * sizeof(F) : sizeof(F); rv(k % need == 0 ? F(1) : F(0)); }
            else if (sh == "u4 first") rv(A[0]);
            else if (sh == "u4 last") rv(A[3]);
            else if (sh == "u4 select") o4([&](int i) { return C[i] < 0 ? tou(B[i]) : tou(A[i]); });
            else if (sh == "u4 one") o4([&](int) { return tou(F(1)); });
            else if (sh == "u4 05") o4([&](int) { return tou(F(.5)); });
            else if (sh == "u4 025") o4([&](int) { return tou(F(.25)); });
            else if (sh == "u4 absbits") o4([&](int) { return (U)~signb; });
            else if (sh == "u4 signbits") o4([&](int) { return signb; });
            else if (scalar_only) { fprintf(stderr, "no oracle for shape %s\n", sh.c_str()); exit(3); }
        }
        ctx.count("operations");
    }
}
int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    Rng r(ctx.seed * 1000003 + 14);
    run_type<float>(r);
    run_type<double>(r);
    return ctx.finish();
}
