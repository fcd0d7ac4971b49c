// C03: memory extent.  Inputs are read-only pages, every buffer is fenced by inaccessible pages and
// canaries, pointers are only as aligned as the contract demands.
#include "huge.hpp"
using namespace util;

template <class F> void run_type(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const size_t vb = reg.vec_size * sizeof(F);
    const unsigned SMALL = 3 * reg.spl * 4, BIG = 8192 + reg.spl;
    auto pool = [&](size_t bytes) { std::vector<std::unique_ptr<Guarded>> v; for (int i = 0; i < 6; ++i) v.emplace_back(new Guarded(bytes)); return v; };
    auto small = pool(SMALL * sizeof(F)), big = pool(BIG * sizeof(F));
    for (const Op<F>& op : reg.ops) {
        int na = (int)op.kinds.size();
        for (const Form<F>& f : op.forms) {
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            bool simd = is_simd(f.form);
            std::vector<unsigned> ns;
            if (f.ct_n) ns.push_back(f.ct_n);
            else if (simd) { for (unsigned k = 1; k <= 5; ++k) ns.push_back(k * reg.spl); ns.push_back(BIG); }
            else { for (unsigned k = 1; k <= (ctx.thorough ? 70u : 19u); ++k) ns.push_back(k); for (int k = 0; k < 6; ++k) ns.push_back(20 + r.below(SMALL - 20)); ns.push_back(BIG - 1 - r.below(7)); }
            int reps = ctx.thorough ? 12 : 1;
            for (int rep = 0; rep < reps; ++rep)
            for (unsigned n : ns) for (int at_end = 0; at_end < 2; ++at_end) for (int gapped = 0; gapped < 2; ++gapped) {
                if (n > SMALL && gapped != (int)(r.below(2))) continue;
                auto& P = n > SMALL ? big : small;
                std::string g;
                auto place = [&](int slot, bool unal) -> F* {
                    size_t unit = simd && !unal ? vb : sizeof(F);
                    size_t gap = gapped ? unit * (1 + r.below(5)) : 0;
                    if (at_end && !gapped && simd && !unal) gap = 0;
                    g += strf(" %zu", gap);
                    return (F*)P[slot]->place(n * sizeof(F), at_end, gap);
                };
                const F* in[4] = {}; F* out[2] = {}; F s[4], sl[4], red[2];
                for (int k = 0; k < na; ++k) {
                    s[k] = gen_value<F>(r, P_POS); sl[k] = (F)(r.uni(0.1, 1) / n);
                    if (op.kinds[k] == 'v' || op.kinds[k] == 'V') {
                        F* p = place(k, op.kinds[k] == 'V');
                        gen_fill<F>(r, p, n, r.chance(0.5) ? P_UNIT : P_POS);
                        in[k] = p;
                        P[k]->protect_ro(true);
                    }
                }
                for (int k = 0; k < op.nout; ++k) out[k] = place(4 + k, op.out_unaligned);
                red[0] = red[1] = F(0.5);
                std::vector<F> first[2];
                // two runs with different previous contents: every output sample must be (re)written
                for (int pass = 0; pass < 2; ++pass) {
                    for (int k = 0; k < op.nout; ++k) for (unsigned i = 0; i < n; ++i) out[k][i] = op.inout ? F(0.25) : pass ? F(12345.5) : F(-777.25);
                    ctx.at("%s n=%u %s gaps%s", sg.c_str(), n, at_end ? "buffer ends at inaccessible page" : "buffer starts at inaccessible page", g.c_str());
                    F rr[2] = {red[0], red[1]};
                    f.fn(out, in, s, sl, n, rr);
                    for (int k = 0; k < op.nout; ++k) {
                        size_t w = 0;
                        if (!P[4 + k]->canary_ok(&w)) ctx.violation(sg, "%s: output %d: byte at offset %zd (buffer is %zu bytes) overwritten", ctx.crumb, k, (ptrdiff_t)w, n * sizeof(F));
                        if (pass == 0) first[k].assign(out[k], out[k] + n);
                        else if (!op.inout) for (unsigned i = 0; i < n; ++i)
                            if (!same_bits(first[k][i], out[k][i])) { ctx.violation(sg, "%s: output %d sample %u not written (%s / %s after two fills)", ctx.crumb, k, i, num(first[k][i]).c_str(), num(out[k][i]).c_str()); break; }
                        ctx.evaluations += n;
                    }
                    ++ctx.evaluations;
                    ctx.count("guarded_calls");
                }
                for (int k = 0; k < na; ++k) if (in[k]) {
                    if (!P[k]->canary_ok()) ctx.violation(sg, "%s: fence of input %d modified", ctx.crumb, k);
                    P[k]->protect_ro(false);
                }
                ctx.seen(hash_str((sg + strf("%u %d", n, at_end) + g).c_str()));
                if (r.below(4000) == 0) ctx.sample("%s", ctx.crumb);
            }
            ctx.count("call_sites");
        }
    }
}

// very long blocks: still every sample written and nothing else
template <class F> void long_blocks(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const unsigned CAP = (65536 + 20) * reg.spl;
    const size_t vb = reg.vec_size * sizeof(F);
    std::vector<std::unique_ptr<Guarded>> P;
    for (int i = 0; i < 6; ++i) P.emplace_back(new Guarded(CAP * sizeof(F)));
    for (const Op<F>& op : reg.ops) {
        int na = (int)op.kinds.size();
        if (na > 1 && op.kinds.find_first_not_of("v") != std::string::npos && !r.chance(ctx.thorough ? 1 : 0.2)) continue;
        for (const Form<F>& f : op.forms) {
            if (f.ct_n) continue;
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            unsigned n = huge_n(r, f, reg.spl);
            bool at_end = r.chance(.5);
            const F* in[4] = {}; F* out[2] = {}; F s[4], sl[4], red[2] = {F(.5), F(.5)};
            for (int k = 0; k < na; ++k) {
                s[k] = (F)r.uni(0.1, 0.9); sl[k] = (F)(r.uni(0.1, 0.5) / n);
                if (op.kinds[k] == 'v' || op.kinds[k] == 'V') {
                    F* p = (F*)P[k]->place(n * sizeof(F), at_end, 0);
                    for (unsigned i = 0; i < n; ++i) p[i] = i < 1024 ? (F)r.uni(0.1, 0.9) : p[i - 1024];
                    in[k] = p; P[k]->protect_ro(true);
                }
            }
            if (op.fn == "set_exp" && na > 1) sl[0] = sl[1] = F(1);
            for (int k = 0; k < op.nout; ++k) out[k] = (F*)P[4 + k]->place(n * sizeof(F), at_end, 0);
            F sent; std::memset(&sent, 0xC7, sizeof sent);
            for (int k = 0; k < op.nout; ++k) for (unsigned i = 0; i < n; ++i) out[k][i] = sent;
            ctx.at("%s n=%u %s", sg.c_str(), n, at_end ? "buffer ends at inaccessible page" : "buffer starts at inaccessible page");
            f.fn(out, in, s, sl, n, red);
            ctx.count("long_calls"); ctx.evaluations += n;
            ctx.seen(hash_str((sg + strf("long %u %d", n, at_end)).c_str()));
            for (int k = 0; k < op.nout; ++k) {
                size_t w = 0;
                if (!P[4 + k]->canary_ok(&w)) ctx.violation(sg, "%s: output %d: byte at offset %zd (buffer is %zu bytes) overwritten", ctx.crumb, k, (ptrdiff_t)w, n * sizeof(F));
                if (!op.inout) for (unsigned i = 0; i < n; ++i) if (same_bits(out[k][i], sent)) { ctx.violation(sg, "%s: output %d sample %u not written", ctx.crumb, k, i); break; }
            }
            for (int k = 0; k < na; ++k) if (in[k]) { if (!P[k]->canary_ok()) ctx.violation(sg, "%s: fence of input %d modified", ctx.crumb, k); P[k]->protect_ro(false); }
        }
    }
    (void)vb;
}

int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    Rng r(ctx.seed * 1000003 + 3);
    run_type<float>(r);
    run_type<double>(r);
    if (ctx.shard == 0) { long_blocks<float>(r); long_blocks<double>(r); }
    if (huge_here()) {
        auto sel = [](const auto& op, const auto&) {
            Fn fn = fn_id(op.fn, (int)op.kinds.size());
            if (ctx.thorough) return !(is_trans(fn) || is_unit(fn));
            return op.fn == "abs" || op.fn == "plus" || op.kinds == "vvv" || op.kinds == "vvvv" || op.fn == "pan2" || (!fn && op.nout);
        };
        huge_blocks<float>(r, sel, ctx.thorough ? 90 : 12); huge_blocks<double>(r, sel, ctx.thorough ? 60 : 6);
    }
    return ctx.finish();
}
