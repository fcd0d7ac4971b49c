// C10: horizontal reductions, C11: metering (running peak / squared sum), including split histories.
#include "huge.hpp"
using namespace util;
static std::string prop;

template <class F> const Op<F>& op_of(const char* n)
{
    for (auto& o : Registry<F>::get().ops) if (o.fn == n) return o;
    fprintf(stderr, "missing op %s\n", n); exit(3);
}
template <class F> void fill(Rng& r, F* p, unsigned n, int mode)
{
    // signals that put the extremum / the only contribution in one place, one sign, ties, huge spans
    switch (mode) {
    case 0: gen_fill<F>(r, p, n, P_UNIT); break;
    case 1: gen_fill<F>(r, p, n, P_POS); break;
    case 2: gen_fill<F>(r, p, n, P_NEG); break;
    case 3: gen_fill<F>(r, p, n, P_INTS); break;
    case 4: gen_fill<F>(r, p, n, P_EQUAL); break;
    case 5: gen_fill<F>(r, p, n, P_WIDE); break;
    case 6: { F b = gen_value<F>(r, P_UNIT); for (unsigned i = 0; i < n; ++i) p[i] = b; p[r.below(n)] = b + F(r.chance(.5) ? 3 : -3); break; }
    case 7: for (unsigned i = 0; i < n; ++i) p[i] = 0; p[r.below(n)] = (F)((int)r.below(17) - 8); break;
    case 8: { F m = -std::numeric_limits<F>::max(); for (unsigned i = 0; i < n; ++i) p[i] = m; if (r.chance(.5)) p[r.below(n)] = m / 2; break; }
    case 9: { F m = std::numeric_limits<F>::max(); for (unsigned i = 0; i < n; ++i) p[i] = m; if (r.chance(.5)) p[r.below(n)] = m / 2; break; }
    case 10: for (unsigned i = 0; i < n; ++i) p[i] = (F)(std::numeric_limits<F>::min() * r.uni(-2, 2)); break;
    default: gen_fill<F>(r, p, n, P_FINITE); if (r.chance(.3)) p[r.below(n)] = r.chance(.5) ? INFINITY : -INFINITY; break;
    }
}
static const int MODES = 12;
template <class F> std::string bufstr(const F* p, unsigned n)
{
    std::string s;
    for (unsigned i = 0; i < std::min(n, 12u); ++i) s += num(p[i]) + " ";
    return s;
}
// extremum position coverage: for every index, that index decides the result
template <class F> void horizontal(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const char* names[] = {"horizontal_max", "horizontal_min", "horizontal_sum", "horizontal_minmax", "horizontal_maxsum"};
    Buf<F> x((65536 + 32) * reg.spl);
    for (const char* nm : names) {
        const Op<F>& op = op_of<F>(nm);
        for (const Form<F>& f : op.forms) {
            std::string sg = sig(op, f);
            if (!ctx.selected(sg)) continue;
            std::string name = nm;
            auto check = [&](unsigned n) {
                F red[2] = {F(-123), F(77)};
                const F* in[4] = {x.p};
                ctx.at("%s n=%u", sg.c_str(), n);
                f.fn(nullptr, in, nullptr, nullptr, n, red);
                F mx = x[0], mn = x[0]; LD s = 0, sa = 0; bool inf = false, over = false;
                for (unsigned i = 0; i < n; ++i) {
                    mx = x[i] > mx ? x[i] : mx; mn = x[i] < mn ? x[i] : mn;
                    s += x[i]; sa += fabsl((LD)x[i]); inf |= std::isinf(x[i]);
                }
                over = !(sa < std::numeric_limits<F>::max() / 4);
                bool ints = true;
                for (unsigned i = 0; i < n && ints; ++i) ints = x[i] == std::floor(x[i] * 2) / 2 && std::fabs(x[i]) <= 64;
                ints &= sa < (1 << 22);
                LD tol = ints ? 0 : (n + 2) * (LD)std::numeric_limits<F>::epsilon() * sa;
                auto num_ok = [&](F got) { return over || inf || fabsl((LD)got - s) <= tol; };
                bool ok = true; std::string want;
                if (name == "horizontal_max") { ok = red[0] == mx; want = num(mx); }
                else if (name == "horizontal_min") { ok = red[0] == mn; want = num(mn); }
                else if (name == "horizontal_sum") { ok = num_ok(red[0]); want = strf("%.17Lg", s); }
                else if (name == "horizontal_minmax") { ok = red[0] == mn && red[1] == mx; want = num(mn) + "," + num(mx); }
                else { ok = red[0] == mx && num_ok(red[1]); want = num(mx) + strf(",%.17Lg", s); }
                ++ctx.evaluations;
                uint64_t h = hash_buf(x.p, n, hash_str(sg.c_str()));
                if (n == 1 || !all_same(x.p, n)) ctx.seen(h);
                if (h % 8191 == 5) ctx.sample("%s n=%u x=%s -> %s %s", sg.c_str(), n, bufstr(x.p, std::min(n, 3u)).c_str(), num(red[0]).c_str(), op.nred > 1 ? num(red[1]).c_str() : "");
                if (!ok) ctx.violation(sg, "n=%u x=%s... got %s %s want %s", n, bufstr(x.p, n).c_str(), num(red[0]).c_str(), op.nred > 1 ? num(red[1]).c_str() : "", want.c_str());
            };
            int rounds = ctx.thorough ? 200000 : 12000;
            for (int it = 0; it < rounds; ++it) {
                unsigned n = it % 1000 == 1 ? huge_n(r, f, reg.spl) : pick_n(r, f, r.chance(.5) ? reg.spl : reg.vec_size, it % 50 == 0 ? 4096 : 200);
                x.jiggle(r, is_simd(f.form), reg.vec_size);
                fill<F>(r, x, n, (int)r.below(MODES));
                check(n);
            }
            for (unsigned n : {(unsigned)reg.spl, 2u * reg.spl, 3u * reg.spl})       // every position is decisive once
                for (unsigned pos = 0; pos < n; ++pos) for (F v : {F(-5), F(5), F(-1), F(2)}) for (F bg : {F(0), F(1), F(-3)}) {
                    for (unsigned i = 0; i < n; ++i) x[i] = bg;
                    x[pos] = v; check(n);
                }
            ctx.count("call_sites");
        }
    }
}

template <class F> void meter(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    const Op<F>&pk = op_of<F>("peak"), &rms = op_of<F>("peak_rms");
    Buf<F> x((65536 + 32) * reg.spl);
    const LD eps = std::numeric_limits<F>::epsilon();
    for (const Op<F>* op : {&pk, &rms}) {
        bool is_rms = op == &rms;
        for (const Form<F>& f : op->forms) {
            std::string sg = sig(*op, f);
            if (!ctx.selected(sg)) continue;
            auto check = [&](unsigned n, F p0, F s0) {
                const F* in[4] = {x.p}; F red[2] = {p0, s0};
                ctx.at("%s n=%u", sg.c_str(), n);
                f.fn(nullptr, in, nullptr, nullptr, n, red);
                F mx = p0; LD s = s0; bool inf = false, ints = s0 == std::floor(s0);
                for (unsigned i = 0; i < n; ++i) { F a = std::fabs(x[i]); mx = a > mx ? a : mx; s += (LD)x[i] * x[i]; inf |= !(a < std::sqrt(std::numeric_limits<F>::max()) / 1024); ints &= x[i] * 2 == std::floor(x[i] * 2) && a <= 64; }
                ints &= s < (1 << 22);
                LD tol = ints ? 0 : (n + 4) * eps * s + n * (LD)std::numeric_limits<F>::min();
                ++ctx.evaluations;
                uint64_t h = hash_buf(x.p, n, hash_str(sg.c_str()) + (uint64_t)(p0 * 1000));
                if (n == 1 || !all_same(x.p, n)) ctx.seen(h);
                if (h % 8191 == 5) ctx.sample("%s n=%u peak0=%s -> %s %s", sg.c_str(), n, num(p0).c_str(), num(red[0]).c_str(), num(red[1]).c_str());
                if (red[0] != mx) ctx.violation(sg + "/peak", "n=%u peak0=%s x=%s got %s want %s", n, num(p0).c_str(), bufstr(x.p, n).c_str(), num(red[0]).c_str(), num(mx).c_str());
                if (!is_rms && red[1] != std::fabs(x[n - 1])) ctx.violation(sg + "/last", "n=%u x[n-1]=%s got %s", n, num(x[n - 1]).c_str(), num(red[1]).c_str());
                if (is_rms && !inf && !(fabsl((LD)red[1] - s) <= tol)) ctx.violation(sg + "/sum", "n=%u sum0=%s x=%s got %s want %.17Lg", n, num(s0).c_str(), bufstr(x.p, n).c_str(), num(red[1]).c_str(), s);
            };
            int rounds = ctx.thorough ? 200000 : 12000;
            for (int it = 0; it < rounds; ++it) {
                unsigned n = it % 1000 == 1 ? huge_n(r, f, reg.spl) : pick_n(r, f, r.chance(.5) ? reg.spl : reg.vec_size, it % 50 == 0 ? 4096 : 200);
                x.jiggle(r, is_simd(f.form), reg.vec_size);
                fill<F>(r, x, n, (int)r.below(MODES));
                F p0 = r.chance(.4) ? F(0) : (F)(r.chance(.5) ? r.uni(0, 1) : std::fabs(gen_value<F>(r, P_WIDE))), s0 = r.chance(.4) ? F(0) : r.chance(.5) ? (F)r.below(100) : (F)r.uni(0, 100);
                if (r.chance(.15)) { F a = std::fabs(x[r.below(n)]); p0 = r.chance(.4) ? a : std::nextafter(a, r.chance(.5) ? F(0) : std::numeric_limits<F>::max()); }    // the old peak is met or just missed
                if (r.chance(.02)) p0 = std::numeric_limits<F>::infinity();
                check(n, p0, s0);
            }
            for (unsigned n : {1u * reg.spl, 2u * reg.spl, 3u * reg.spl, 5u * reg.spl})
                for (unsigned pos = 0; pos < n; ++pos) for (F v : {F(-5), F(5)}) for (F p0 : {F(0), F(1), F(7)}) {
                    for (unsigned i = 0; i < n; ++i) x[i] = 0;
                    x[pos] = v; check(n, p0, F(3));
                }
            ctx.count("call_sites");
        }
    }
    // histories: a stream metered in arbitrary blocks, mixing call forms, equals metering it at once
    int hist = ctx.thorough ? 20000 : 2000;
    for (int it = 0; it < hist; ++it) {
        unsigned blocks = 2 + (unsigned)r.below(8), pos = 0;
        int mode = (int)r.below(8);
        F peak = 0, last = 0, rp = 0, rs = 0; LD s = 0; F mx = 0;
        std::string log;
        bool ints = true;
        for (unsigned b = 0; b < blocks; ++b) {
            bool simd = r.chance(.6);
            unsigned n = simd ? reg.spl * (1 + r.below(5)) : 1 + r.below(40);
            x.jiggle(r, simd, reg.vec_size);
            fill<F>(r, x, n, mode);
            if (r.chance(.2)) for (unsigned i = 0; i < n; ++i) x[i] = 0;
            const F* in[4] = {x.p};
            ctx.at("metering history step %u %s n=%u", b, simd ? "simd" : "scalar", n);
            F red[2] = {peak, 0}; pk.forms[simd].fn(nullptr, in, nullptr, nullptr, n, red); peak = red[0]; last = red[1];
            F r2[2] = {rp, rs}; rms.forms[simd].fn(nullptr, in, nullptr, nullptr, n, r2); rp = r2[0]; rs = r2[1];
            for (unsigned i = 0; i < n; ++i) { F a = std::fabs(x[i]); mx = std::max(mx, a); s += (LD)x[i] * x[i]; ints &= x[i] * 2 == std::floor(x[i] * 2) && a <= 64; }
            pos += n; log += strf("%s%u ", simd ? "v" : "s", n);
            ctx.count("history_events", 2);
            ++ctx.evaluations;
            ints &= s < (1 << 22);
            LD tol = ints ? 0 : (pos + 4 * blocks) * eps * s;
            std::string key = std::string("metering history/") + (sizeof(F) == 4 ? "float" : "double");
            if (peak != mx || rp != mx) ctx.violation(key + "/peak", "blocks %s: peak %s / %s want %s", log.c_str(), num(peak).c_str(), num(rp).c_str(), num(mx).c_str());
            if (last != std::fabs(x[n - 1])) ctx.violation(key + "/last", "blocks %s: last %s want %s", log.c_str(), num(last).c_str(), num(x[n - 1]).c_str());
            if (!(fabsl((LD)rs - s) <= tol)) ctx.violation(key + "/sum", "blocks %s: squared sum %s want %.17Lg", log.c_str(), num(rs).c_str(), s);
        }
        ctx.seen(hash_str(log.c_str()) + it);
        ctx.count("histories");
    }
}

int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    for (int i = 1; i < argc; ++i) if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
    Rng r(ctx.seed * 1000003 + hash_str(prop.c_str()));
    if (prop == "C10") { horizontal<float>(r); horizontal<double>(r); }
    else { meter<float>(r); meter<double>(r); }
    if (huge_here()) {
        auto sel = [](const auto& op, const auto&) { return op.nred > 0 && (op.fn.compare(0, 4, "peak") == 0) == (prop == "C11"); };
        huge_blocks<float>(r, sel, ctx.thorough ? 90 : 12); huge_blocks<double>(r, sel, ctx.thorough ? 60 : 6);
    }
    return ctx.finish();
}
