// Pointwise value monitor: every output sample of every call is compared with reference semantics.
// C01 arithmetic, C06 transcendental accuracy, C08 rounding, C09 unit conversion, C15 shaping functions.
#include "util.hpp"
using namespace util;

static std::string prop;

static bool wanted(Fn f)
{
    if (prop == "C01") return is_arith(f);
    if (prop == "C06") return is_trans(f);
    if (prop == "C08") return is_round(f);
    if (prop == "C09") return is_unit(f);
    if (prop == "C15") return is_shape(f);
    return false;
}

template <class F> struct Runner {
    const Op<F>& op; Fn fn; int na;
    std::vector<std::unique_ptr<Buf<F>>> in;
    Buf<F> out;
    F s[4], sl[4];
    int sp = -1, sq = -1;          // argument sq is the same buffer as argument sp
    static const unsigned MAXN = 8192;
    Runner(const Op<F>& o, Fn f) : op(o), fn(f), na((int)o.kinds.size()), out(MAXN)
    {
        for (int i = 0; i < 4; ++i) { in.emplace_back(new Buf<F>(MAXN)); s[i] = sl[i] = 0; }
    }
    void jig(Rng& r, const Form<F>& f)
    {
        size_t v = Registry<F>::get().vec_size;
        for (auto& b : in) b->jiggle(r, is_simd(f.form), v);
        out.jiggle(r, is_simd(f.form), v);
    }
    void call(const Form<F>& f, unsigned n)
    {
        F* o[2] = {out.p, nullptr};
        const F* ip[4] = {in[0]->p, in[1]->p, in[2]->p, in[3]->p};
        if (sp >= 0) ip[sq] = ip[sp];
        std::memset(out.p, 0x5A, n * sizeof(F));
        f.fn(o, ip, s, sl, n, nullptr);
    }
    void check(const Form<F>& f, unsigned n, const std::string& sg, Ctx* c)
    {
        uint64_t checked = 0;
        for (unsigned i = 0; i < n; ++i) {
            F a[4];
            for (int k = 0; k < na; ++k) a[k] = op.kinds[k] == 'v' ? (*in[k])[i] : s[k];
            Expect e = expect<F>(fn, a);
            if (e.skip) continue;
            ++checked;
            F r = out[i];
            bool ok = accept(e, r);
            if (ok && fn == FN_round && std::isfinite(r) && r != std::floor(r)) ok = false;
            if (!ok)
                c->violation(sg, "n=%u i=%u args=%s %s %s %s got=%s expected %s[%.17Lg,%.17Lg]", n, i, num(a[0]).c_str(), na > 1 ? num(a[1]).c_str() : "",
                             na > 2 ? num(a[2]).c_str() : "", na > 3 ? num(a[3]).c_str() : "", num(r).c_str(), e.nan ? "NaN" : "", e.lo, e.hi);
        }
        c->evaluations += checked;
        if (checked) {
            uint64_t h = hash_str(sg.c_str()) + n;
            bool triv = true;
            for (int k = 0; k < na; ++k) {
                if (op.kinds[k] == 'v') { h = hash_buf(in[k]->p, std::min(n, 8u), h); triv &= n > 1 && all_same(in[k]->p, n); }
                else h = hash_buf(s + k, 1, h), triv = false;
            }
            if (!triv && c->distinct.size() < 2000000) c->seen(h);
            if (c->samples.size() < 4 && (h % 97) == 3)
                c->sample("%s n=%u first: in=%s%s%s -> %s", sg.c_str(), n, num(op.kinds[0] == 'v' ? (*in[0])[0] : s[0]).c_str(), na > 1 ? "," : "",
                          na > 1 ? num(op.kinds[1] == 'v' ? (*in[1])[0] : s[1]).c_str() : "", num(out[0]).c_str());
        }
    }
};

// domain-aware input for one argument of fn
template <class F> F gen_arg(Rng& r, Fn fn, int pos)
{
    double u = r.unit();
    switch (fn) {
    case FN_sin: case FN_cos: case FN_tan:
        if (u < 0.5) return (F)r.uni(-7, 7);
        if (u < 0.8) return (F)r.uni(-8192, 8192);
        { F k = (F)(((double)(int64_t)r.below(4000) - 2000) * 0.78539816339744830962); uint64_t d = r.below(9); for (uint64_t i = 0; i < d; ++i) k = std::nextafter(k, (F)(d & 1 ? 1e9 : -1e9)); return k; }
    case FN_asin: case FN_acos: if (u < 0.7) return (F)r.uni(-1, 1); return (F)(1 - std::exp(r.uni(-20, 0))) * (r.chance(.5) ? 1 : -1);
    case FN_atan: case FN_tanh: if (u < 0.6) return (F)r.uni(-4, 4); if (u < 0.9) return (F)r.uni(-30, 30); return gen_value<F>(r, P_FINITE);
    case FN_log: case FN_log2: case FN_log10: if (u < 0.4) return (F)r.uni(0.25, 4); if (u < 0.8) return (F)std::exp(r.uni(-80, 80)); return std::fabs(gen_value<F>(r, P_FINITE));
    case FN_exp: if (u < 0.5) return (F)r.uni(-10, 10); return (F)r.uni(-88, 89);
    case FN_pow: case FN_spow:
        if (pos == 0) { F v = u < 0.5 ? (F)r.uni(0.01, 10) : (F)std::exp(r.uni(-20, 20)); return fn == FN_spow && r.chance(0.5) ? -v : v; }
        return u < 0.5 ? (F)r.uni(-4, 4) : u < 0.75 ? (F)r.uni(-20, 20) : (F)((int)r.below(13) - 6);
    case FN_midi2freq: case FN_midi2ratio: return u < 0.5 ? (F)r.uni(-20, 140) : (F)r.uni(-400, 400);
    case FN_oct2freq: return (F)(u < 0.5 ? r.uni(0, 10) : r.uni(-40, 40));
    case FN_db2amp: return (F)(u < 0.5 ? r.uni(-120, 24) : r.uni(-600, 600));
    case FN_freq2midi: case FN_freq2oct: case FN_amp2db: case FN_ratio2midi: { F v = u < 0.4 ? (F)std::exp(r.uni(2, 11)) : u < 0.7 ? (F)r.uni(0, 2) : (F)std::exp(r.uni(-40, 40)); return fn != FN_ratio2midi && r.chance(0.3) ? -v : v; }
    case FN_round: case FN_floor: case FN_ceil: case FN_trunc: case FN_frac:
        if (u < 0.3) return (F)r.uni(-20, 20);
        if (u < 0.5) { double m = std::exp(r.uni(-2, 45)); return (F)(r.chance(.5) ? m : -m); }
        if (u < 0.7) { double m = std::floor(std::exp(r.uni(0, 40))) + 0.5; return (F)(r.chance(.5) ? m : -m); }
        return gen_value<F>(r, r.chance(.5) ? P_ANY : P_INTS);
    case FN_reciprocal: { double m = std::exp(r.uni(-80, 80)); return (F)(r.chance(.5) ? m : -m); }
    default: return gen_value<F>(r, (int)r.below(P_COUNT));
    }
}

template <class F> void sweep_bits(const Op<F>&, Fn, const Form<F>&, const std::string&, Rng&) {}
// strided (quick) or complete (thorough) walk through all 2^32 float bit patterns
template <> void sweep_bits<float>(const Op<float>& op, Fn fn, const Form<float>& f, const std::string& sg, Rng& r)
{
    const uint64_t stride = ctx.thorough ? 1 : 211;
    const unsigned T = ctx.thorough ? 8 : 1;
    const uint64_t off = r.below(stride);
    std::vector<Ctx> cs(T);
    std::vector<std::thread> th;
    auto work = [&](unsigned t) {
        Runner<float> R(op, fn);
        Ctx& c = cs[t];
        const unsigned n = 256;
        uint64_t lo = (uint64_t)t * 4294967296ull / T, hi = (uint64_t)(t + 1) * 4294967296ull / T;
        unsigned k = 0;
        for (uint64_t u = lo + off; ; u += stride) {
            bool last = u >= hi;
            if (last && k == 0) break;
            (*R.in[0])[k++] = last ? (*R.in[0])[0] : bits_f((uint32_t)u);
            if (k == n) {
                R.call(f, n);
                for (unsigned i = 0; i < n; ++i) {
                    float a = (*R.in[0])[i];
                    Expect e = expect<float>(fn, &a);
                    if (e.skip) continue;
                    ++c.evaluations;
                    float o = R.out[i];
                    bool ok = accept(e, o) && !(fn == FN_round && std::isfinite(o) && o != std::floor(o));
                    if (!ok) c.violation(sg, "sweep arg=%s got=%s expected %s[%.17Lg,%.17Lg]", num(a).c_str(), num(o).c_str(), e.nan ? "NaN" : "", e.lo, e.hi);
                }
                k = 0;
                if (last) break;
            }
        }
    };
    if (T == 1) work(0);
    else { for (unsigned t = 0; t < T; ++t) th.emplace_back(work, t); for (auto& x : th) x.join(); }
    for (auto& c : cs) {
        ctx.evaluations += c.evaluations; ctx.counters["sweep_samples"] += c.evaluations;
        for (auto& v : c.viols) ctx.violation(v.key, "%s", v.detail.c_str());
    }
    if (ctx.thorough) ctx.count("exhaustive_functions");
}

template <class F> void run_type(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    for (const Op<F>& op : reg.ops) {
        int na = (int)op.kinds.size();
        Fn fn = fn_id(op.fn, na);
        if (!fn || !wanted(fn)) continue;
        if (op.kinds.find('r') != std::string::npos) continue;
        Runner<F> R(op, fn);
        for (const Form<F>& f : op.forms) {
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            ctx.count("call_sites");
            ctx.at("%s", sg.c_str());
            // 1. special values
            if (na == 1) {
                auto& S = dense_specials<F>();
                for (int pass = 0; pass < 2; ++pass)
                for (size_t base = r.below(16); base < S.size();) {
                    unsigned n = pick_n(r, f, reg.spl, R.MAXN);
                    R.jig(r, f);
                    for (unsigned i = 0; i < n; ++i) (*R.in[0])[i] = S[(pass ? (base + i) : (S.size() * 7 - 1 - base - i)) % S.size()];
                    R.call(f, n); R.check(f, n, sg, &ctx);
                    base += n;
                }
            } else {
                auto& S = core_specials<F>();
                if (na == 2) {
                    std::vector<std::pair<F, F>> P;
                    for (F x : S) for (F y : S) P.push_back({x, y});
                    size_t off = r.below(P.size());
                    bool hasvec = op.kinds.find('v') != std::string::npos;
                    for (size_t base = 0; base < P.size();) {
                        unsigned n = hasvec ? pick_n(r, f, reg.spl, 8 * reg.spl) : (f.ct_n ? f.ct_n : is_simd(f.form) ? reg.spl : 1);
                    R.jig(r, f);
                        bool scal = op.kinds != "vv";
                        F cx = P[(off + base) % P.size()].first, cy = P[(off + base) % P.size()].second;
                        for (unsigned i = 0; i < n; ++i) {
                            auto& p = P[(off + base + i) % P.size()];
                            (*R.in[0])[i] = p.first; (*R.in[1])[i] = p.second;
                            if (op.kinds == "sv") (*R.in[1])[i] = S[(base + i) % S.size()];
                            if (op.kinds == "vs") (*R.in[0])[i] = S[(base + i) % S.size()];
                        }
                        R.s[0] = cx; R.s[1] = cy;
                        R.call(f, n); R.check(f, n, sg, &ctx);
                        base += scal ? (hasvec ? std::min<size_t>(n, S.size() / 2) : 3) : n;
                    }
                } else {
                    for (int it = 0; it < 40; ++it) {
                        unsigned n = pick_n(r, f, reg.spl, R.MAXN);
                    R.jig(r, f);
                        for (int k = 0; k < na; ++k) { R.s[k] = S[r.below(S.size())]; for (unsigned i = 0; i < n; ++i) (*R.in[k])[i] = S[r.below(S.size())]; }
                        R.call(f, n); R.check(f, n, sg, &ctx);
                    }
                }
            }
            // 2. random, domain aware
            int rounds = (na == 1 ? 600 : na == 2 ? 300 : 60) * (ctx.thorough ? 20 : 1);
            for (int it = 0; it < rounds; ++it) {
                unsigned n = pick_n(r, f, reg.spl, R.MAXN);
                    R.jig(r, f);
                int prof = (int)r.below(P_COUNT);
                bool uniform = is_arith(fn) && r.chance(0.7);
                for (int k = 0; k < na; ++k) {
                    R.s[k] = uniform ? gen_value<F>(r, prof) : gen_arg<F>(r, fn, k);
                    for (unsigned i = 0; i < n; ++i) (*R.in[k])[i] = uniform ? gen_value<F>(r, prof) : gen_arg<F>(r, fn, k);
                }
                if (na > 2 && r.chance(0.3)) {      // equal, opposite and neighbouring arguments
                    int p = (int)r.below(na), q = (int)r.below(na);
                    F sg = r.chance(.7) ? F(1) : F(-1);
                    if (p != q) {
                        R.s[p] = sg * R.s[q];
                        bool ulp = r.chance(.3);
                        for (unsigned i = 0; i < n; ++i) if (r.chance(0.5)) { F x = sg * (*R.in[q])[i]; (*R.in[p])[i] = ulp ? std::nextafter(x, r.chance(0.5) ? F(0) : std::numeric_limits<F>::infinity()) : x; }
                    }
                    if (r.chance(.3)) { static const double t[] = {0, 1, -1, 0.5}; R.s[p] = (F)t[r.below(4)]; for (unsigned i = 0; i < n; ++i) if (r.chance(.5)) (*R.in[p])[i] = (F)t[r.below(4)]; }
                }
                if (na == 2 && is_arith(fn) && r.chance(0.15)) {    // close to each other, or a power of two apart
                    double d = std::exp(r.uni(std::log((double)std::numeric_limits<F>::epsilon()), -1));
                    bool pw = r.chance(.4);
                    for (unsigned i = 0; i < n; ++i) if (r.chance(0.7)) { F x = (*R.in[0])[i]; (*R.in[1])[i] = pw ? (F)std::ldexp(x, (int)r.below(60) - 30) : (F)(x * (1 + d * r.uni(-1, 1))); }
                    if (op.kinds == "vs") for (unsigned i = 0; i < n; ++i) if (r.chance(.5)) (*R.in[0])[i] = (F)(R.s[1] * (1 + d * r.uni(-1, 1)));
                    if (op.kinds == "sv") for (unsigned i = 0; i < n; ++i) if (r.chance(.5)) (*R.in[1])[i] = (F)(R.s[0] * (1 + d * r.uni(-1, 1)));
                }
                if (na == 2 && r.chance(0.15)) {    // adversarial relations between the arguments
                    for (unsigned i = 0; i < n; ++i) if (r.chance(0.5)) {
                        F x = (*R.in[0])[i];
                        (*R.in[1])[i] = r.chance(0.3) ? x : r.chance(0.5) ? -x : std::nextafter(x, r.chance(0.5) ? F(0) : std::numeric_limits<F>::infinity());
                    }
                    if (op.kinds == "vs" && n) (*R.in[0])[r.below(n)] = R.s[1];
                    if (op.kinds == "sv" && n) (*R.in[1])[r.below(n)] = R.s[0];
                }
                if (na > 1 && r.chance(.12)) {
                    int p = (int)r.below(na), q = (int)r.below(na);
                    if (p != q && op.kinds[p] == 'v' && op.kinds[q] == 'v') { R.sp = p; R.sq = q; std::copy(R.in[p]->p, R.in[p]->p + n, R.in[q]->p); ctx.count("calls_with_shared_input"); }
                }
                R.call(f, n); R.check(f, n, sg, &ctx);
                R.sp = R.sq = -1;
            }
            // 3. bit-pattern sweep
            if (na == 1 && sizeof(F) == 4 && (!strcmp(f.form, "simd") || (ctx.thorough && !strcmp(f.form, "scalar") && fn != FN_abs)) && (is_trans(fn) || is_round(fn) || is_unit(fn) || is_shape(fn) || ctx.thorough))
                sweep_bits<F>(op, fn, f, sg, r);
        }
    }
}

// C09: relations between conversion pairs
template <class F> void unit_relations(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    struct Pair { const char *fwd, *inv; double lo, hi, tol_f, tol_d; bool logdom; };
    // |inv(fwd(x)) - x| <= tol (absolute for logarithmic scales, relative for linear ones)
    static const Pair P[] = {
        {"midi2freq", "freq2midi", -60, 200, 6e-5, 1e-12, true},
        {"midi2ratio", "ratio2midi", -120, 120, 6e-5, 1e-12, true},
        {"oct2freq", "freq2oct", -5, 16, 5e-6, 1e-13, true},
        {"db2amp", "amp2db", -200, 100, 6e-5, 1e-12, true},
    };
    auto find = [&](const char* n) -> const Op<F>* { for (auto& o : reg.ops) if (o.fn == n) return &o; return nullptr; };
    for (auto& p : P) {
        const Op<F>*a = find(p.fwd), *b = find(p.inv);
        if (!a || !b) { fprintf(stderr, "missing unit conversion\n"); exit(3); }
        for (auto& fa : a->forms) for (auto& fb : b->forms) {
            if (fa.ct_n && fb.ct_n && fa.ct_n != fb.ct_n) continue;
            if ((fa.ct_n + fb.ct_n) % reg.spl && !(fa.ct_n && fb.ct_n)) {      // odd compile-time lengths are not legal run-time lengths
                if (is_simd(fa.form) && is_simd(fb.form)) continue;
            }
            std::string sg = std::string("roundtrip ") + p.fwd + "/" + fa.form + " -> " + p.inv + "/" + fb.form + (sizeof(F) == 4 ? "/float" : "/double");
            if (!ctx.selected(sg)) continue;
            ctx.at("%s", sg.c_str());
            unsigned n = fa.ct_n ? fa.ct_n : fb.ct_n ? fb.ct_n : 4 * reg.spl;
            Buf<F> x(n), y(n), z(n);
            for (int it = 0; it < (ctx.thorough ? 2000 : 100); ++it) {
                for (unsigned i = 0; i < n; ++i) x[i] = (F)r.uni(p.lo, p.hi);
                F* o1[1] = {y.p}; const F* i1[1] = {x.p}; fa.fn(o1, i1, nullptr, nullptr, n, nullptr);
                F* o2[1] = {z.p}; const F* i2[1] = {y.p}; fb.fn(o2, i2, nullptr, nullptr, n, nullptr);
                for (unsigned i = 0; i < n; ++i) {
                    double d = std::fabs((double)z[i] - (double)x[i]), t = sizeof(F) == 4 ? p.tol_f : p.tol_d;
                    ctx.maxv(std::string("roundtrip ") + p.fwd + (sizeof(F) == 4 ? "/f" : "/d"), d);
                    if (!(d <= t)) ctx.violation(sg, "x=%s via %s back=%s", num(x[i]).c_str(), num(y[i]).c_str(), num(z[i]).c_str());
                    ++ctx.evaluations;
                }
                ctx.seen(hash_buf(x.p, 4, hash_str(sg.c_str())));
            }
        }
    }
    // octave / unity anchors: exact documented reference points, within tolerance of one conversion
    struct Anchor { const char* fn; double in, out; };
    static const Anchor A[] = {{"midi2freq", 69, 440}, {"midi2freq", 81, 880}, {"midi2freq", 57, 220}, {"freq2midi", 440, 69}, {"freq2midi", -440, 69}, {"freq2midi", 880, 81}, {"midi2ratio", 0, 1}, {"midi2ratio", 12, 2}, {"ratio2midi", 1, 0},
                               {"ratio2midi", 2, 12}, {"oct2freq", 4.75, 440}, {"freq2oct", 440, 4.75}, {"freq2oct", -440, 4.75}, {"amp2db", 1, 0}, {"amp2db", -1, 0}, {"amp2db", 10, 20}, {"db2amp", 0, 1}, {"db2amp", 20, 10}, {"db2amp", -20, 0.1}};
    for (auto& an : A) {
        const Op<F>* o = find(an.fn);
        for (auto& f : o->forms) {
            unsigned n = f.ct_n ? f.ct_n : reg.spl;
            Buf<F> x(n), y(n);
            for (unsigned i = 0; i < n; ++i) x[i] = (F)an.in;
            F* o1[1] = {y.p}; const F* i1[1] = {x.p}; f.fn(o1, i1, nullptr, nullptr, n, nullptr);
            for (unsigned i = 0; i < n; ++i) {
                double d = std::fabs(y[i] - an.out), t = (std::fabs(an.out) + 12) * (sizeof(F) == 4 ? 2e-6 : 5e-15);
                ++ctx.evaluations;
                if (!(d <= t)) ctx.violation(std::string("anchor ") + sig(*o, f), "%s(%g)=%s expected %g", an.fn, an.in, num(y[i]).c_str(), an.out);
            }
        }
    }
}

int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    for (int i = 1; i < argc; ++i) if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
    Rng r(ctx.seed * 1000003 + hash_str(prop.c_str()));
    run_type<float>(r);
    run_type<double>(r);
    if (prop == "C09") { unit_relations<float>(r); unit_relations<double>(r); }
    return ctx.finish();
}
