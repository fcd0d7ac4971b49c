// C18: sanitizer workload.  Exact-size heap blocks, arbitrary legal bit patterns, all lengths; built with
// AddressSanitizer+UndefinedBehaviorSanitizer, or with MemorySanitizer (outputs and results must be initialised).
#include "work.hpp"
// In a MemorySanitizer build only the library side is instrumented; this file talks to its shadow memory.
extern "C" {
void __msan_unpoison(const volatile void*, size_t) __attribute__((weak));
void __msan_poison(const volatile void*, size_t) __attribute__((weak));
intptr_t __msan_test_shadow(const volatile void*, size_t) __attribute__((weak));
}
#define MSAN (__msan_test_shadow != nullptr)
using namespace util;
template <class F> struct Exact {          // heap block of exactly n samples, vector-aligned plus a legal offset
    void* base; F* p;
    Exact(size_t n, size_t align, size_t off)
    {
        base = nullptr;
        size_t bytes = n * sizeof(F) + off;
        if (posix_memalign(&base, align, bytes)) exit(3);
        p = (F*)((char*)base + off);
    }
    ~Exact() { free(base); }
    Exact(const Exact&) = delete;
};
template <class F> void run_type(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const size_t vb = reg.vec_size * sizeof(F);
    for (auto& op : reg.ops) for (auto& f : op.forms) {
        std::string sg = sig(op, f);
        if (!ctx.selected(sg)) continue;
        bool simd = is_simd(f.form);
        int na = (int)op.kinds.size();
        int rounds = (na <= 1 ? 60 : na == 2 ? 16 : 8) * (ctx.thorough ? 25 : 1);
        for (int it = 0; it < rounds; ++it) {
            unsigned n = it == 0 && !f.ct_n ? (simd ? (unsigned)reg.spl : 1u) : pick_n(r, f, reg.spl, r.chance(.1) ? 2048 : 120);
            int prof = r.chance(.4) ? P_ANY : (int)r.below(P_COUNT);
            Job<F> j;
            make_job<F>(r, op, f, n, prof, j);
            if (op.kinds.find('r') != std::string::npos && r.chance(.3)) for (int k = 0; k < na; ++k) j.sl[k] = gen_value<F>(r, P_ANY);
            auto& D = dense_specials<F>();
            if (na == 1 && !j.in[0].empty() && it % 3 == 0) for (unsigned i = 0; i < n; ++i) j.in[0][i] = D[r.below(D.size())];
            auto off = [&](bool unal) -> size_t { return simd && !unal ? vb * r.below(3) : sizeof(F) * r.below(9); };
            std::unique_ptr<Exact<F>> in[4], out[2];
            const F* ip[4] = {}; F* o[2] = {};
            for (int k = 0; k < na; ++k) if (!j.in[k].empty()) {
                in[k].reset(new Exact<F>(n, 64, off(op.kinds[k] == 'V')));
                std::copy(j.in[k].begin(), j.in[k].end(), in[k]->p); ip[k] = in[k]->p;
            }
            for (int k = 0; k < op.nout; ++k) {
                out[k].reset(new Exact<F>(n, 64, off(op.out_unaligned))); o[k] = out[k]->p;
                if (op.inout) std::copy(j.out0[k].begin(), j.out0[k].end(), o[k]);
            }
            F red[2] = {j.red0[0], j.red0[1]};
            bool in_red = op.fn == "peak" || op.fn == "peak_rms";
            if (MSAN) {
                for (int k = 0; k < na; ++k) if (ip[k]) __msan_unpoison(ip[k], n * sizeof(F));
                __msan_unpoison(j.s, sizeof j.s); __msan_unpoison(j.sl, sizeof j.sl);
                __msan_unpoison(ip, sizeof ip); __msan_unpoison(o, sizeof o);
                for (int k = 0; k < op.nout; ++k) { if (op.inout) __msan_unpoison(o[k], n * sizeof(F)); else __msan_poison(o[k], n * sizeof(F)); }
                if (in_red) __msan_unpoison(red, sizeof red); else __msan_poison(red, sizeof red);
                if (op.fn == "peak") __msan_poison(red + 1, sizeof(F));
            }
            ctx.at("%s n=%u case %d a=%s s=%s", sg.c_str(), n, it, ip[0] ? num(ip[0][0]).c_str() : "-", na ? num(j.s[0]).c_str() : "-");
            f.fn(o, ip, j.s, j.sl, n, red);
            ++ctx.evaluations;
            ctx.count("instrumented_calls");
            if (MSAN) {
                for (int k = 0; k < op.nout; ++k) {
                    intptr_t w = __msan_test_shadow(o[k], n * sizeof(F));
                    if (w >= 0) ctx.violation(sg + "/uninitialised", "%s: output %d byte %ld depends on uninitialised data", ctx.crumb, k, (long)w);
                }
                if (op.nred && __msan_test_shadow(red, op.nred * sizeof(F)) >= 0) ctx.violation(sg + "/uninitialised", "%s: result depends on uninitialised data", ctx.crumb);
                ctx.count("initialised_output_samples", op.nout * n + op.nred);
                __msan_unpoison(red, sizeof red);
            }
            // the same call in place: an output on one of the signal inputs
            int k1 = (int)r.below(4), o1 = (int)r.below(2);
            if (k1 < na && o1 < op.nout && ip[k1] && r.chance(.4) && op.fn.compare(0, 7, "copyvec") != 0) {
                F* al[2] = {o[0], o[1]}; al[o1] = in[k1]->p;
                ctx.at("%s in place (output %d on input %d) n=%u case %d a=%s s=%s", sg.c_str(), o1, k1, n, it, ip[0] ? num(ip[0][0]).c_str() : "-", num(j.s[0]).c_str());
                if (MSAN) __msan_unpoison(al, sizeof al);
                f.fn(al, ip, j.s, j.sl, n, red);
                ctx.count("instrumented_calls_in_place");
                if (MSAN && __msan_test_shadow(al[o1], n * sizeof(F)) >= 0) ctx.violation(sg + "/uninitialised", "%s: output depends on uninitialised data", ctx.crumb);
                std::copy(j.in[k1].begin(), j.in[k1].end(), in[k1]->p);
                ctx.at("%s n=%u case %d", sg.c_str(), n, it);
            }
            uint64_t h = hash_str(sg.c_str()) + n;
            for (int k = 0; k < na; ++k) h = ip[k] ? hash_buf(ip[k], std::min(n, 8u), h) : hash_buf(j.s + k, 1, h);
            ctx.seen(h);
            if (h % 1999 == 1) ctx.sample("%s", ctx.crumb);
        }
        ctx.count("call_sites");
    }
}
int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    Rng r(ctx.seed * 1000003 + 18);
    run_type<float>(r);
    run_type<double>(r);
    return ctx.finish();
}
