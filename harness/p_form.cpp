// C04: the value of a sample does not depend on call form, block length or position in the block.
// C05: in-place operation gives the same result as separate buffers.
#include "util.hpp"
using namespace util;
static std::string prop;

template <class F> struct Call {
    std::vector<std::unique_ptr<Buf<F>>> in;
    Buf<F> o0, o1;
    F s[4], sl[4];
    static const unsigned MAXN = 16384;
    void jig(Rng& r, const Form<F>& f)
    {
        size_t v = Registry<F>::get().vec_size;
        for (auto& b : in) b->jiggle(r, is_simd(f.form), v);
        o0.jiggle(r, is_simd(f.form), v); o1.jiggle(r, is_simd(f.form), v);
    }
    // all buffers of the call back to back in one allocation, in random order
    Buf<F>& arena() { static Buf<F> a(6 * 8192 + 64); return a; }
    void pack(Rng& r, const Form<F>& f, unsigned n)
    {
        if (n > 8192) return;
        Buf<F>& a = arena();
        a.jiggle(r, is_simd(f.form), Registry<F>::get().vec_size);
        Buf<F>* b[6] = {in[0].get(), in[1].get(), in[2].get(), in[3].get(), &o0, &o1};
        for (int i = 5; i > 0; --i) std::swap(b[i], b[r.below(i + 1)]);
        for (int i = 0; i < 6; ++i) b[i]->p = a.p + (size_t)i * n;
    }
    Call() : o0(MAXN), o1(MAXN) { for (int i = 0; i < 4; ++i) { in.emplace_back(new Buf<F>(MAXN)); s[i] = sl[i] = 0; } }
};
static bool fma_cfg() { return ctx.config.find("fma") != std::string::npos || ctx.config.find("avx512") != std::string::npos; }

template <class F> void form_type(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    Call<F> C;
    for (const Op<F>& op : reg.ops) {
        int na = (int)op.kinds.size();
        Fn fn = fn_id(op.fn, na);
        if (!fn) continue;
        if (op.kinds.find('r') != std::string::npos) continue;
        if (fma_cfg() && (fn == FN_muladd || fn == FN_ampmod || fn == FN_mix || fn == FN_cube || is_trans(fn) || is_unit(fn) || is_shape(fn))) continue;
        const Form<F>*sc = nullptr, *si = nullptr;
        for (auto& f : op.forms) { if (!strcmp(f.form, "scalar")) sc = &f; if (!strcmp(f.form, "simd")) si = &f; }
        std::vector<F> pool;
        int rounds = (na == 1 ? 240 : na == 2 ? 90 : 45) * (ctx.thorough ? 15 : 1);
        for (int it = 0; it < rounds; ++it) {
            // a table of tuples and their reference value: the function applied to a block holding only that tuple
            const unsigned T = 48;
            std::vector<F> tup(T * 4), ref_s(T), ref_v(T);
            F sc_args[4];
            for (int k = 0; k < na; ++k) sc_args[k] = gen_value<F>(r, (int)r.below(P_COUNT));
            int prof = (int)r.below(P_COUNT);
            bool mixed = r.chance(0.5);
            const std::vector<F>& D = dense_specials<F>();
            for (unsigned t = 0; t < T; ++t) for (int k = 0; k < na; ++k)
                tup[t * 4 + k] = op.kinds[k] == 's' ? sc_args[k] : (r.chance(0.25) ? D[r.below(D.size())] : gen_value<F>(r, mixed ? (int)r.below(P_COUNT) : prof));
            int tp = -1, tq = -1;               // two signals that are one and the same buffer
            if (na > 1 && r.chance(.2)) {
                tp = (int)r.below(na); tq = (int)r.below(na);
                if (tp == tq || op.kinds[tp] != 'v' || op.kinds[tq] != 'v') tp = tq = -1;
                else for (unsigned t = 0; t < T; ++t) tup[t * 4 + tq] = tup[t * 4 + tp];
            }
            const F* ip[4]; F* op1[2];
            auto jig = [&](const Form<F>& f) {
                C.jig(r, f);
                for (int k = 0; k < 4; ++k) ip[k] = C.in[k]->p;
                op1[0] = C.o0.p; op1[1] = C.o1.p;
            };
            jig(*si);
            for (unsigned t = 0; t < T; ++t) {
                for (int k = 0; k < na; ++k) { C.s[k] = tup[t * 4 + k]; for (int i = 0; i < reg.spl; ++i) (*C.in[k])[i] = tup[t * 4 + k]; }
                ctx.at("%s splat", sig(op, *sc).c_str());
                sc->fn(op1, ip, C.s, C.sl, 1, nullptr); ref_s[t] = C.o0[0];
                ctx.at("%s splat", sig(op, *si).c_str());
                si->fn(op1, ip, C.s, C.sl, reg.spl, nullptr); ref_v[t] = C.o0[0];
                for (int i = 1; i < reg.spl; ++i) if (!same_num(C.o0[i], C.o0[0])) {
                    ctx.violation(sig(op, *si) + "/lane", "lane %d of a constant block gives %s, lane 0 gives %s (args %s %s)", i, num(C.o0[i]).c_str(), num(C.o0[0]).c_str(), num(C.s[0]).c_str(), na > 1 ? num(C.s[1]).c_str() : "");
                    break;
                }
                ctx.evaluations += reg.spl + 1;
            }
            for (int k = 0; k < na; ++k) C.s[k] = sc_args[k];
            for (const Form<F>& f : op.forms) {
                std::string sg = sig(op, f);
                if (!ctx.selected(sg)) continue;
                bool simd = is_simd(f.form);
                for (int rep = 0; rep < 3; ++rep) {
                    unsigned n = rep == 2 && !f.ct_n ? (simd ? reg.spl * (1 + r.below(C.MAXN / reg.spl / 4)) : 1 + r.below(1000)) : pick_n(r, f, reg.spl, 10 * reg.spl);
                    jig(f);
                    if (r.chance(.15)) { C.pack(r, f, n); for (int k = 0; k < 4; ++k) ip[k] = C.in[k]->p; op1[0] = C.o0.p; op1[1] = C.o1.p; ctx.count("packed_calls"); }
                    std::vector<unsigned> idx(n);
                    for (unsigned i = 0; i < n; ++i) idx[i] = (unsigned)r.below(T);
                    if (n > 1 && r.chance(.25)) shape_block(r, idx.data(), n, nullptr);
                    for (unsigned i = 0; i < n; ++i) for (int k = 0; k < na; ++k) (*C.in[k])[i] = tup[idx[i] * 4 + k];
                    if (tp >= 0 && r.chance(.7)) { ip[tq] = ip[tp]; ctx.count("calls_with_shared_input"); }
                    std::memset(C.o0.p, 0x5A, n * sizeof(F));
                    ctx.at("%s n=%u", sg.c_str(), n);
                    f.fn(op1, ip, C.s, C.sl, n, nullptr);
                    ctx.evaluations += n;
                    const std::vector<F>& ref = simd ? ref_v : ref_s;
                    for (unsigned i = 0; i < n; ++i) if (!same_num(C.o0[i], ref[idx[i]])) {
                        ctx.violation(sg, "n=%u i=%u args=%s %s %s: %s here, %s in a block of its own", n, i, num(tup[idx[i] * 4]).c_str(), na > 1 ? num(tup[idx[i] * 4 + 1]).c_str() : "", na > 2 ? num(tup[idx[i] * 4 + 2]).c_str() : "", num(C.o0[i]).c_str(), num(ref[idx[i]]).c_str());
                        break;
                    }
                    uint64_t h = hash_buf(C.in[0]->p, std::min(n, 16u), hash_str(sg.c_str()) + n);
                    ctx.seen(h);
                    ctx.count("calls");
                    if ((h & 2047) == 5) ctx.sample("%s n=%u in[0]=%s out[0]=%s", sg.c_str(), n, num((*C.in[0])[0]).c_str(), num(C.o0[0]).c_str());
                }
            }
            // scalar family against simd family
            bool exact = is_arith(fn) || is_round(fn);
            for (unsigned t = 0; t < T; ++t) {
                F a[4]; for (int k = 0; k < na; ++k) a[k] = tup[t * 4 + k];
                Expect e = expect<F>(fn, a);
                if (e.skip) continue;
                ++ctx.evaluations;
                bool compound = fn == FN_muladd || fn == FN_ampmod || fn == FN_mix || fn == FN_sum3 || fn == FN_sum4 || fn == FN_round || fn == FN_cube;
                bool ok = exact && !compound ? same_val(ref_s[t], ref_v[t]) : (ref_s[t] == ref_v[t]) || (ref_s[t] != ref_s[t] && ref_v[t] != ref_v[t]) || fabsl((LD)ref_s[t] - (LD)ref_v[t]) <= (e.hi - e.lo);
                if (!ok) ctx.violation(sig(op, *si) + "/vs scalar", "args=%s %s %s: simd %s scalar %s", num(a[0]).c_str(), na > 1 ? num(a[1]).c_str() : "", na > 2 ? num(a[2]).c_str() : "", num(ref_v[t]).c_str(), num(ref_s[t]).c_str());
            }
        }
        ctx.count("call_sites", op.forms.size());
    }
}

// very long blocks of a periodic signal: the output has the same period as a short block's output
template <class F> void long_blocks(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const unsigned PER = 1021, CAP = (65536 + 20) * reg.spl;
    std::vector<std::unique_ptr<Buf<F>>> in;
    Buf<F> out(CAP), ref(2048 + 64);
    for (int k = 0; k < 4; ++k) {
        in.emplace_back(new Buf<F>(CAP));
        for (unsigned i = 0; i < CAP; ++i) (*in[k])[i] = i < PER ? (F)r.uni(0.05, 0.95) : (*in[k])[i - PER];
    }
    for (const Op<F>& op : reg.ops) {
        int na = (int)op.kinds.size();
        Fn fn = fn_id(op.fn, na);
        if (!fn || op.kinds.find('r') != std::string::npos) continue;
        if (fma_cfg() && (fn == FN_muladd || fn == FN_ampmod || fn == FN_mix || fn == FN_cube || is_trans(fn) || is_unit(fn) || is_shape(fn))) continue;
        for (const Form<F>& f : op.forms) {
            if (f.ct_n) continue;
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            F s[4], sl[4] = {}; const F* ip[4]; F* o[2] = {out.p, nullptr}; F* o2[2] = {ref.p, nullptr};
            for (int k = 0; k < 4; ++k) { s[k] = (F)r.uni(0.05, 0.95); ip[k] = in[k]->p; }
            unsigned n = huge_n(r, f, reg.spl), m = 1024 + 64;
            std::memset(out.p, 0x5A, n * sizeof(F));
            ctx.at("%s n=%u", sg.c_str(), n);
            f.fn(o, ip, s, sl, n, nullptr);
            f.fn(o2, ip, s, sl, m, nullptr);
            ctx.count("long_calls"); ctx.evaluations += n;
            for (unsigned i = 0; i < n; ++i) if (!same_num(out[i], ref[i % PER])) {
                ctx.violation(sg + "/long", "n=%u i=%u: %s, the same sample in a block of %u gives %s", n, i, num(out[i]).c_str(), m, num(ref[i % PER]).c_str());
                break;
            }
        }
    }
}

template <class F> void inplace_type(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    Call<F> C;
    std::vector<std::unique_ptr<Buf<F>>> W;
    for (int i = 0; i < 6; ++i) W.emplace_back(new Buf<F>(C.MAXN));
    for (const Op<F>& op : reg.ops) {
        int na = (int)op.kinds.size();
        if (op.nout == 0) continue;
        if (op.fn.compare(0, 7, "copyvec") == 0) continue;      // memcpy semantics: self copy not claimed
        std::vector<int> vp;
        for (int k = 0; k < na; ++k) if (op.kinds[k] == 'v') vp.push_back(k);
        if (vp.empty()) continue;
        for (const Form<F>& f : op.forms) {
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            // alias sets: subset mask of vector arguments that share the output buffer
            for (unsigned mask = 1; mask < (1u << vp.size()); ++mask) for (int which = 0; which < op.nout; ++which) {
                if (vp.size() > 2 && (mask & (mask - 1)) && mask != (1u << vp.size()) - 1 && !ctx.thorough) continue;
                int rounds = (na == 1 ? 200 : 60) * (ctx.thorough ? 12 : 1);
                for (int it = 0; it < rounds; ++it) {
                    unsigned n = it == 0 && !f.ct_n && is_simd(f.form) ? 4 * reg.spl : it == 1 && !f.ct_n && mask == 1 ? (is_simd(f.form) ? C.MAXN / reg.spl * reg.spl : C.MAXN - 5) : pick_n(r, f, reg.spl, r.chance(0.1) ? (unsigned)C.MAXN : 300);
                    C.jig(r, f);
                    for (auto& b : W) b->jiggle(r, is_simd(f.form), reg.vec_size);
                    int prof = (int)r.below(P_COUNT);
                    std::vector<F> shared(n);
                    gen_fill<F>(r, shared.data(), n, prof);
                    for (int k = 0; k < na; ++k) { C.s[k] = gen_value<F>(r, P_POS); C.sl[k] = (F)(r.uni(-1, 1) / n); }
                    relate<F>(r, op.kinds.c_str(), C.s, C.sl, false, n);
                    const F* ip[4] = {}; F* out[2] = {C.o0.p, C.o1.p};
                    // separate buffers
                    for (int k = 0; k < na; ++k) gen_fill<F>(r, *W[k], n, prof);
                    for (size_t j = 0; j < vp.size(); ++j) {
                        if (mask >> j & 1) std::copy(shared.begin(), shared.end(), W[vp[j]]->p);
                        ip[vp[j]] = W[vp[j]]->p;
                    }
                    if (op.inout) std::copy(shared.begin(), shared.end(), C.o0.p);
                    ctx.at("%s n=%u separate", sg.c_str(), n);
                    f.fn(out, ip, C.s, C.sl, n, nullptr);
                    // shared buffer
                    Buf<F>& S = *W[5]; Buf<F>& O = *W[4];
                    std::copy(shared.begin(), shared.end(), S.p);
                    for (size_t j = 0; j < vp.size(); ++j) if (mask >> j & 1) ip[vp[j]] = S.p;
                    F* out2[2] = {which == 0 ? S.p : O.p, which == 1 ? S.p : O.p};
                    ctx.at("%s n=%u in place mask=%u out=%d", sg.c_str(), n, mask, which);
                    f.fn(out2, ip, C.s, C.sl, n, nullptr);
                    for (int o = 0; o < op.nout; ++o) {
                        F* a = o == 0 ? C.o0.p : C.o1.p;
                        ctx.evaluations += n;
                        for (unsigned i = 0; i < n; ++i) if (!same_num(a[i], out2[o][i])) {
                            ctx.violation(sg + "/inplace", "n=%u i=%u aliased-args-mask=%u aliased-output=%d output %d: %s in place, %s with separate buffers", n, i, mask, which, o, num(out2[o][i]).c_str(), num(a[i]).c_str());
                            break;
                        }
                    }
                    ctx.count("inplace_calls");
                    uint64_t h = hash_buf(shared.data(), std::min(n, 16u), hash_str(sg.c_str()) + n * 64 + mask * 2 + which);
                    ctx.seen(h);
                    if ((h & 2047) == 9) ctx.sample("%s n=%u mask=%u in[0]=%s out[0]=%s", sg.c_str(), n, mask, num(shared[0]).c_str(), num(out2[0][0]).c_str());
                }
            }
            ctx.count("call_sites");
        }
    }
}

int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    for (int i = 1; i < argc; ++i) if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
    Rng r(ctx.seed * 1000003 + hash_str(prop.c_str()));
    if (prop == "C04") { form_type<float>(r); form_type<double>(r); if (ctx.shard == 0) { long_blocks<float>(r); long_blocks<double>(r); } }
    else { inplace_type<float>(r); inplace_type<double>(r); }
    return ctx.finish();
}
