// C07: what the transcendental functions promise outside / at the borders of the accuracy statement:
// saturation instead of garbage, output ranges, symmetry, exact anchor values, NaN propagation.
#include "util.hpp"
using namespace util;

template <class F> struct Bound { LD lo, hi; bool nan; bool claim; };

static const LD PI = 3.141592653589793238462643383279502884L;
static bool is_odd(Fn f) { return f == FN_sin || f == FN_tan || f == FN_asin || f == FN_atan || f == FN_tanh || f == FN_signed_sqrt || f == FN_softclip; }
static bool is_even(Fn f) { return f == FN_cos || f == FN_freq2midi || f == FN_freq2oct || f == FN_amp2db; }

template <class F> Bound<F> bound(Fn f, F x)
{
    typedef std::numeric_limits<F> L;
    const bool flt = sizeof(F) == 4;
    const LD inf = INFINITY, e = L::epsilon();
    const LD trig = flt ? 8192 : 1e6;
    Bound<F> none{0, 0, false, false};
    auto B = [](LD lo, LD hi) { return Bound<F>{lo, hi, false, true}; };
    const Bound<F> N{0, 0, true, true};
    switch (f) {
    case FN_sin: case FN_cos: if (x != x) return N; if (std::fabs(x) <= trig) return B(-1 - 2 * e, 1 + 2 * e); return none;
    case FN_tan: if (x != x) return N; return none;
    case FN_asin: if (x != x) return N; if (std::fabs(x) <= 1) return x > 0 ? B(0, PI / 2 * (1 + e)) : x < 0 ? B(-PI / 2 * (1 + e), 0) : B(0, 0); return none;
    case FN_acos: if (x != x) return N; if (x == 1) return B(0, 0); if (std::fabs(x) <= 1) return B(0, PI * (1 + e)); return none;
    case FN_atan: if (x != x) return N; return x > 0 ? (std::isinf(x) || x > 1e30 ? B(PI / 2 * (1 - e), PI / 2 * (1 + e)) : B(0, PI / 2 * (1 + e))) : x < 0 ? (std::isinf(x) || x < -1e30 ? B(-PI / 2 * (1 + e), -PI / 2 * (1 - e)) : B(-PI / 2 * (1 + e), 0)) : B(0, 0);
    case FN_tanh: if (x != x) return N; return x >= (flt ? 10 : 20) ? B(1, 1) : x <= (flt ? -10 : -20) ? B(-1, -1) : x > 0 ? B(0, 1) : x < 0 ? B(-1, 0) : B(0, 0);
    case FN_exp:
        if (x != x) return N;
        if (x == 0) return B(1, 1);
        if (x >= (flt ? F(88.72284) : F(709.79))) return B(L::max(), inf);
        if (x <= (flt ? F(-103.98) : F(-745.2))) return B(0, 0);
        if (x < (flt ? F(-87.33) : F(-708))) return B(0, 2 * (LD)L::min());
        if (x > (flt ? F(88.721) : F(709.78))) return B(L::max() * 0.99L, inf);
        return x > 0 ? B(1, inf) : B(0, 1);
    case FN_log: case FN_log2: case FN_log10:
        if (x == 1) return B(0, 0);
        if (x >= L::min() && x < 1) return B(-2000, 0);
        if (x > 1 && x <= L::max()) return B(0, 2000);
        return none;
    case FN_signed_sqrt: if (x != x) return none; if (x == 0) return B(0, 0); return x > 0 ? B(0, inf) : B(-inf, 0);
    case FN_softclip: if (!std::isfinite(x)) return none; return x >= 0 ? B(0, 1) : B(-1, 0);
    case FN_db2amp:
        if (x != x) return N;
        if (x == 0) return B(1, 1);
        if (x <= (flt ? F(-910) : F(-6500))) return B(0, 0);
        if (x >= (flt ? F(771) : F(6170))) return B(L::max() * 0.99L, inf);
        return x > 0 ? B(1, inf) : B(0, 1);
    case FN_midi2ratio:
        if (x != x) return N;
        if (x == 0) return B(1, 1);
        if (x <= (flt ? F(-1805) : F(-12950))) return B(0, 0);
        if (x >= (flt ? F(1537) : F(12300))) return B(L::max() * 0.99L, inf);
        return x > 0 ? B(1, inf) : B(0, 1);
    case FN_midi2freq:
        if (x != x) return N;
        if (x <= (flt ? F(-1750) : F(-12950))) return B(0, 440 * 4 * (LD)L::min());
        if (x >= (flt ? F(1620) : F(12400))) return B(L::max() * 0.99L, inf);
        return B(0, inf);
    case FN_oct2freq:
        if (x != x) return N;
        if (x <= (flt ? F(-150) : F(-1100))) return B(0, 440 * 4 * (LD)L::min());
        if (x >= (flt ? F(135) : F(1035))) return B(L::max() * 0.99L, inf);
        return B(0, inf);
    default: return none;
    }
}

template <class F> void run_type(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    typedef std::numeric_limits<F> L;
    for (const Op<F>& op : reg.ops) {
        Fn fn = fn_id(op.fn, (int)op.kinds.size());
        if (!fn || op.kinds != "v" || !(is_trans(fn) || is_unit(fn) || fn == FN_signed_sqrt || fn == FN_softclip)) continue;
        Buf<F> a(4096), b(4096), oa(4096), ob(4096);
        for (const Form<F>& f : op.forms) {
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            ctx.at("%s", sg.c_str());
            auto jig = [&] { for (Buf<F>* q : {&a, &b, &oa, &ob}) q->jiggle(r, is_simd(f.form), reg.vec_size); };
            auto check = [&](unsigned n) {
                for (unsigned i = 0; i < n; ++i) b[i] = -a[i];
                F* o[2] = {oa.p, nullptr}; const F* ip[4] = {a.p};
                f.fn(o, ip, nullptr, nullptr, n, nullptr);
                F* o2[2] = {ob.p, nullptr}; const F* ip2[4] = {b.p};
                f.fn(o2, ip2, nullptr, nullptr, n, nullptr);
                for (unsigned i = 0; i < n; ++i) {
                    Bound<F> e = bound<F>(fn, a[i]);
                    if (e.claim) {
                        ++ctx.evaluations;
                        bool ok = e.nan ? oa[i] != oa[i] : (LD)oa[i] >= e.lo && (LD)oa[i] <= e.hi;
                        if (!ok) ctx.violation(sg + "/range", "x=%s got=%s expected %s[%.9Lg,%.9Lg]", num(a[i]).c_str(), num(oa[i]).c_str(), e.nan ? "NaN " : "", e.lo, e.hi);
                    }
                    bool dom = std::isfinite(a[i]);
                    if (fn == FN_sin || fn == FN_tan || fn == FN_cos) dom = std::fabs(a[i]) <= (sizeof(F) == 4 ? 8192 : 1e6);
                    if (fn == FN_asin) dom = std::fabs(a[i]) <= 1;
                    if ((fn == FN_freq2midi || fn == FN_freq2oct || fn == FN_amp2db) && a[i] == 0) dom = false;
                    if (dom && is_odd(fn)) { ++ctx.evaluations; if (!(ob[i] == -oa[i])) ctx.violation(sg + "/odd", "f(%s)=%s but f(%s)=%s", num(a[i]).c_str(), num(oa[i]).c_str(), num(b[i]).c_str(), num(ob[i]).c_str()); }
                    if (dom && is_even(fn)) { ++ctx.evaluations; if (!(ob[i] == oa[i])) ctx.violation(sg + "/even", "f(%s)=%s but f(%s)=%s", num(a[i]).c_str(), num(oa[i]).c_str(), num(b[i]).c_str(), num(ob[i]).c_str()); }
                }
                uint64_t h = hash_buf(a.p, std::min(n, 8u), hash_str(sg.c_str()) + n);
                ctx.seen(h); ctx.count("calls");
                if (h % 991 == 3) ctx.sample("%s f(%s)=%s f(-x)=%s", sg.c_str(), num(a[0]).c_str(), num(oa[0]).c_str(), num(ob[0]).c_str());
            };
            auto& S = dense_specials<F>();
            for (size_t base = r.below(8); base < S.size();) {
                unsigned n = pick_n(r, f, reg.spl, 4096); jig();
                for (unsigned i = 0; i < n; ++i) a[i] = S[(base + i) % S.size()];
                check(n); base += n;
            }
            int rounds = ctx.thorough ? 60000 : 1500;
            for (int it = 0; it < rounds; ++it) {
                unsigned n = pick_n(r, f, reg.spl, 4096); jig();
                int m = (int)r.below(6);
                for (unsigned i = 0; i < n; ++i) switch (m) {
                case 0: a[i] = gen_value<F>(r, P_ANY); break;
                case 1: a[i] = (F)r.uni(-110, 110); break;
                case 2: a[i] = (F)r.uni(-1, 1); break;
                case 3: a[i] = (F)(r.uni(-1.2, 1.2) * (sizeof(F) == 4 ? 8192 : 1e6)); break;
                case 4: { double e = r.uni(-80, 80); a[i] = (F)((r.chance(.5) ? 1 : -1) * std::exp(e)); break; }
                default: { static const double c[] = {88.72284, 88.02969, -87.33654, -103.27893, 709.782, -745.133, -708.39, 0.5, -0.5, 1, -1, 0.625, 22, 9.01, 2.414213562, 0.4142135624, 1536, -1524, 770.63, -764.6, -897};
                           F v = (F)c[r.below(sizeof c / sizeof *c)]; int k = (int)r.below(41) - 20; for (int j = 0; j < std::abs(k); ++j) v = std::nextafter(v, k > 0 ? L::infinity() : -L::infinity()); a[i] = v; }
                }
                check(n);
            }
            ctx.count("call_sites");
        }
    }
}
int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    Rng r(ctx.seed * 1000003 + 7);
    run_type<float>(r);
    run_type<double>(r);
    return ctx.finish();
}
