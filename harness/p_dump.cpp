// C16: the same call sequence is executed by every build; results are logged by one build (--write) and
// compared by the others (--ref), exactly for exact operations, within the accuracy contract otherwise.
#include "work.hpp"
using namespace util;
static FILE* log_f; static bool writing;
static uint64_t records;

static void xfer(void* p, size_t n)
{
    size_t k = writing ? fwrite(p, 1, n, log_f) : fread(p, 1, n, log_f);
    if (k != n) { fprintf(stderr, "log truncated\n"); exit(3); }
}
template <class F> void run_type(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const LD eps = std::numeric_limits<F>::epsilon();
    std::vector<F> ref;
    const unsigned EDGE = 16;
    Buf<F> o0(2048 + 2 * EDGE), o1(2048 + 2 * EDGE);
    std::vector<std::unique_ptr<Buf<F>>> in;
    for (int i = 0; i < 4; ++i) in.emplace_back(new Buf<F>(2048));
    std::vector<const Op<F>*> ops;
    for (auto& o : reg.ops) ops.push_back(&o);
    // link order is the same in every build, but do not rely on it
    std::stable_sort(ops.begin(), ops.end(), [](const Op<F>* a, const Op<F>* b) { return a->fn + a->kinds < b->fn + b->kinds; });
    for (const Op<F>* op : ops) {
        int na = (int)op->kinds.size();
        Fn fn = fn_id(op->fn, na);
        for (const Form<F>& f : op->forms) {
            if (f.ct_n && f.ct_n != 64) continue;       // the other compile-time lengths differ between builds
            std::string sg = sig(*op, f);
            Rng rr(ctx.seed * 7919 + hash_str(sg.c_str()));
            int rounds = (na <= 1 ? 600 : 120) * (ctx.thorough ? 10 : 1);
            for (int it = 0; it < rounds; ++it) {
                unsigned n = f.ct_n ? f.ct_n : is_simd(f.form) ? 64 * (1 + rr.below(4)) : 1 + rr.below(256);
                int prof = (int)rr.below(P_COUNT);
                Job<F> j;
                make_job<F>(rr, *op, f, n, prof, j);
                bool ramp = op->kinds.find('r') != std::string::npos;
                const F* ip[4] = {}; F* out[2] = {o0.p + EDGE, o1.p + EDGE}; F red[2] = {j.red0[0], j.red0[1]};
                for (int k = 0; k < na; ++k) if (!j.in[k].empty()) { std::copy(j.in[k].begin(), j.in[k].end(), in[k]->p); ip[k] = in[k]->p; }
                for (int k = 0; k < op->nout; ++k) std::fill(out[k] - EDGE, out[k] + n + EDGE, F(-77));
                for (int k = 0; k < op->nout; ++k) std::copy(j.out0[k].begin(), j.out0[k].end(), out[k]);
                ctx.at("%s n=%u", sg.c_str(), n);
                f.fn(out, ip, j.s, j.sl, n, red);
                // event: tag, results
                uint64_t tag = hash_str(sg.c_str()) + n * 131 + it;
                uint64_t t2 = tag;
                xfer(&t2, 8);
                if (t2 != tag) { fprintf(stderr, "log out of step at %s\n", sg.c_str()); exit(3); }
                ++records; ++ctx.evaluations;
                uint64_t h = tag;
                for (int k = 0; k < na; ++k) if (ip[k]) h = hash_buf(ip[k], std::min(n, 8u), h);
                ctx.seen(h);
                for (int o = 0; o < op->nout; ++o) {             // the samples around the block
                    uint64_t e = hash_buf(out[o] - EDGE, EDGE, hash_buf(out[o] + n, EDGE)), e2 = e;
                    xfer(&e2, 8);
                    if (e2 != e) ctx.violation(sg + "/surroundings", "n=%u output %d: this build and the reference build leave different samples next to the block", n, o);
                }
                for (int o = 0; o < op->nout; ++o) {
                    if (writing) { xfer(out[o], n * sizeof(F)); continue; }
                    ref.resize(n); xfer(ref.data(), n * sizeof(F));
                    for (unsigned i = 0; i < n; ++i) {
                        F x = out[o][i], y = ref[i];
                        if (same_val(x, y)) continue;
                        LD tol = -1;                    // -1: must agree exactly
                        F a[4]; for (int k = 0; k < na; ++k) a[k] = op->kinds[k] == 'r' ? (F)((LD)j.s[k] + (LD)i * j.sl[k]) : ip[k] ? ip[k][i] : j.s[k];
                        bool skip = false;
                        if (ramp) {
                            LD m[4], mag = 0;
                            if (fn >= FN_less && fn <= FN_notequal) {
                                LD da = (i + 8) * eps * 2 * (fabsl((LD)a[0]) + fabsl((LD)a[1]) + fabsl((LD)j.s[0]) + fabsl((LD)j.s[1]) + 2);
                                skip = fabsl((LD)a[0] - (LD)a[1]) <= da || !(da < 1e300L);
                            } else if (op->fn == "set_exp") {
                                LD w = j.s[0] * powl((LD)j.sl[0], (LD)i);
                                tol = 2 * (2 * i + 16) * eps * fabsl(w) + 4 * std::numeric_limits<F>::min();
                            } else {
                                for (int k = 0; k < na; ++k) { m[k] = fabsl((LD)a[k]) + (op->kinds[k] == 'r' ? fabsl((LD)j.s[k]) + i * fabsl((LD)j.sl[k]) : 0); skip |= !std::isfinite(a[k]); }
                                switch (fn) {
                                case FN_plus: case FN_sum2: case FN_minus: case FN_min: case FN_max: case FN_clip2: mag = m[0] + m[1]; break;
                                case FN_times: mag = m[0] * m[1]; break;
                                case FN_clip: case FN_sum3: mag = m[0] + m[1] + m[2]; break;
                                case FN_sum4: mag = m[0] + m[1] + m[2] + m[3]; break;
                                case FN_muladd: mag = m[0] * m[1] + m[2]; break;
                                case FN_ampmod: mag = m[0] * (1 + m[1] * m[2]); break;
                                case FN_mix: mag = m[0] * m[1] + m[2] * m[3]; break;
                                case FN_over: mag = op->kinds[1] == 'r' ? INFINITY : m[0] / m[1]; break;
                                default:
                                    if (op->fn == "set_slope") mag = m[0];
                                    else if (op->fn == "addvec") mag = m[0] + fabsl((LD)j.out0[0][i]);
                                    else if (op->fn == "pan2") mag = m[0] * m[1 + o];
                                    else mag = INFINITY;       // no cross-build claim (pow of a ramp, ...)
                                }
                                tol = 4 * (i + 8) * eps * mag + 4 * std::numeric_limits<F>::denorm_min();
                                skip |= !(mag < std::numeric_limits<F>::max() / 16);
                            }
                        } else if (fn) {
                            Expect e = expect<F>(fn, a);
                            if (e.skip) skip = true;
                            else if (e.lo < e.hi) tol = e.hi - e.lo;
                        }
                        if (skip) { ctx.count("unclaimed_differences"); continue; }
                        if (tol >= 0 && fabsl((LD)x - (LD)y) <= tol) { ctx.count("tolerated_differences"); continue; }
                        ctx.violation(sg, "n=%u i=%u args=%s %s %s: this build %s, reference build %s", n, i, num(a[0]).c_str(), na > 1 ? num(a[1]).c_str() : "", na > 2 ? num(a[2]).c_str() : "", num(x).c_str(), num(y).c_str());
                        break;
                    }
                }
                if (op->nred) {
                    F q[2] = {red[0], red[1]}; xfer(q, sizeof q);
                    if (!writing) for (int o = 0; o < op->nred; ++o) {
                        if (same_val(q[o], red[o])) continue;
                        LD sum = 0; bool nonfinite = false;
                        for (F v : j.in[0]) { sum += op->fn == "peak_rms" ? (LD)v * v : fabsl((LD)v); nonfinite |= !std::isfinite(v); }
                        bool is_sum = op->fn == "horizontal_sum" || (op->fn == "peak_rms" && o == 1) || (op->fn == "horizontal_minsum" && o == 1) || (op->fn == "horizontal_maxsum" && o == 1) || (op->fn == "horizontal_minmaxsum" && o == 2);
                        if (nonfinite || (is_sum && !(sum < std::numeric_limits<F>::max() / 16))) { ctx.count("unclaimed_differences"); continue; }
                        if (is_sum && fabsl((LD)q[o] - (LD)red[o]) <= 2 * (n + 4) * eps * (sum + j.red0[1]) + 2 * n * (LD)std::numeric_limits<F>::min()) { ctx.count("tolerated_differences"); continue; }
                        ctx.violation(sg, "n=%u result %d: this build %s, reference build %s", n, o, num(red[o]).c_str(), num(q[o]).c_str());
                    }
                }
                if (h % 997 == 1) ctx.sample("%s n=%u -> out[0]=%s", sg.c_str(), n, op->nout ? num(out[0][0]).c_str() : num(red[0]).c_str());
            }
            ctx.count("call_sites");
        }
    }
    (void)r;
}
int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    for (int i = 1; i < argc; ++i) {
        if (!strncmp(argv[i], "--write=", 8)) { writing = true; log_f = fopen(argv[i] + 8, "wb"); }
        if (!strncmp(argv[i], "--ref=", 6)) log_f = fopen(argv[i] + 6, "rb");
    }
    if (!log_f) { fprintf(stderr, "no log file\n"); return 3; }
    Rng r(ctx.seed);
    run_type<float>(r);
    run_type<double>(r);
    fclose(log_f);
    ctx.count(writing ? "events_logged" : "events_compared", records);
    return ctx.finish();
}
