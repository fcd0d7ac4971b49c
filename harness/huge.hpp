// Blocks of more than 2^31 samples (float) or 2^32 bytes (double).  Each buffer is a window of many gigabytes of address space in which all but the
// first and the last megabyte are one and the same megabyte of memory, so such a block costs no memory and stays in
// the cache.  Signals are periodic, so every visible output sample must equal that of a short block; the last megabyte
// is memory of its own: a 32-bit byte count, a signed sample count or a truncated loop leaves it untouched.
#pragma once
#include "util.hpp"
#include <chrono>
#include <sys/mman.h>
#include <unistd.h>
namespace util {
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Window {
    static const size_t CH = 1 << 20;
    unsigned char* p = nullptr; size_t len = 0;
    unsigned char *first, *mid, *last;
    explicit Window(size_t bytes)            // rounded up to whole chunks, ends at an inaccessible page
    {
        len = (bytes + CH - 1) / CH * CH;
        int fd = memfd_create("window", 0);
        if (fd < 0 || ftruncate(fd, 3 * CH)) { if (fd >= 0) close(fd); return; }
        void* q = mmap(nullptr, len + 2 * CH, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) { close(fd); return; }
        p = (unsigned char*)q + CH;
        size_t n = len / CH;
        for (size_t i = 0; i < n && p; ++i) {
            size_t off = i == 0 ? 0 : i == n - 1 ? 2 * CH : CH;
            if (mmap(p + i * CH, CH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_POPULATE, fd, off) == MAP_FAILED) p = nullptr;
        }
        close(fd);
        if (!p) { munmap(q, len + 2 * CH); return; }
        first = p; mid = p + CH; last = p + len - CH;
    }
    ~Window() { if (p) munmap(p - CH, len + 2 * CH); }
    Window(const Window&) = delete;
};
// worth the time in this build? (every build in the thorough tier)
inline bool huge_here() { return ctx.shard == 0 && (ctx.thorough || ctx.config == "g-sse2" || ctx.config == "g-avx" || ctx.config == "c-sse3"); }
// sel(op) chooses the functions; at most budget seconds
template <class F, class Sel> void huge_blocks(Rng& r0_, Sel sel, double budget)
{
    Registry<F>& reg = Registry<F>::get();
    const size_t CHS = Window::CH / sizeof(F);
    const uint64_t N = (uint64_t(1) << (sizeof(F) == 4 ? 31 : 29)) + 3 * CHS;       // at least 2^32 bytes; float: more than 2^31 samples
    std::vector<std::pair<const Op<F>*, const Form<F>*>> todo;
    for (auto& op : reg.ops) for (auto& f : op.forms) if (!f.ct_n && sel(op, f) && ctx.selected(sig(op, f))) todo.push_back({&op, &f});
    if (todo.empty()) return;
    Rng r(r0_.next() ^ hash_str(ctx.config.c_str()));            // other call sites in other builds
    for (size_t i = todo.size() - 1; i > 0; --i) std::swap(todo[i], todo[r.below(i + 1)]);
    int nout = 0;
    for (auto& t : todo) nout = std::max(nout, t.first->nout);
    Window in(N * sizeof(F)), o0(nout > 0 ? N * sizeof(F) : Window::CH * 3), o1(nout > 1 ? N * sizeof(F) : Window::CH * 3);
    if (!in.p || !o0.p || !o1.p) { ctx.count("huge_blocks_unavailable"); return; }
    Buf<F> ri(CHS), r0(CHS), r1(CHS);
    double start = now();
    for (auto& td : todo) {
        const Op<F>& op = *td.first; const Form<F>& f = *td.second;
        if (now() - start > budget) { ctx.count("huge_blocks_out_of_time"); continue; }
        std::string sg = sig(op, f);
        int na = (int)op.kinds.size();
        F s[4], sl[4] = {}, red[2] = {F(.5), F(.5)}, rr[2];
        for (int k = 0; k < 4; ++k) s[k] = (F)((1 + (int)r.below(7)) / 8.0);
        if (op.fn == "set_exp") sl[0] = 1;
        unsigned n = (unsigned)(N - (is_simd(f.form) ? r.below(2) * reg.spl : r.below(9)));
        F *x[3] = {(F*)in.first, (F*)in.mid, (F*)in.last};
        bool reduce = op.nred > 0;
        for (size_t i = 0; i < CHS; ++i) ri[i] = reduce ? F(0) : (F)((1 + (int)r.below(7)) / 8.0);
        for (F* c : x) std::copy(ri.p, ri.p + CHS, c);
        size_t tail = (n - 1) % CHS;          // the last sample of the block within the last chunk
        if (reduce) { x[2][tail] = F(-3); x[2][tail ? tail - 1 : 0] = F(5); }
        F sent = F(-77);
        Window* ow[2] = {&o0, &o1};
        for (Window* w : ow) for (unsigned char* c : {w->first, w->mid, w->last}) for (size_t i = 0; i < CHS; ++i) ((F*)c)[i] = op.inout ? F(0) : sent;
        F* out[2] = {(F*)o0.p, (F*)o1.p}; const F* ip[4] = {};
        for (int k = 0; k < na; ++k) if (op.kinds[k] == 'v' || op.kinds[k] == 'V') ip[k] = (F*)in.p;
        ctx.at("%s n=%u", sg.c_str(), n);
        rr[0] = red[0]; rr[1] = red[1];
        f.fn(out, ip, s, sl, n, rr);
        ctx.count("huge_calls"); ctx.count("huge_samples", n);
        ctx.seen(hash_str(sg.c_str()) + n);
        if (reduce) {
            // extremes sit in the last two samples; everything else is zero
            bool ok = true;
            auto any = [&](F v) { for (int k = 0; k < op.nred; ++k) if (rr[k] == v) return true; return false; };
            if (op.fn.find("max") != std::string::npos) ok &= any(5);
            if (op.fn.find("min") != std::string::npos) ok &= any(-3);
            if (op.fn.find("sum") != std::string::npos) ok &= any(2);
            if (op.fn == "peak") ok &= rr[0] == 5 && rr[1] == 3;
            if (op.fn == "peak_rms") ok &= rr[0] == 5 && rr[1] == F(34.5);
            ++ctx.evaluations;
            if (!ok) ctx.violation(sg + "/huge", "n=%u, all samples zero but the last two (5, -3): results %s %s", n, num(rr[0]).c_str(), num(rr[1]).c_str());
            continue;
        }
        // the reference: a short block of the same signal
        F* ro[2] = {r0.p, r1.p};
        for (int k = 0; k < 2; ++k) for (size_t i = 0; i < CHS; ++i) ro[k][i] = op.inout ? F(0) : sent;
        for (int k = 0; k < na; ++k) if (ip[k]) ip[k] = ri.p;
        f.fn(ro, ip, s, sl, (unsigned)CHS, rr);
        const bool fma = ctx.config.find("fma") != std::string::npos || ctx.config.find("avx512") != std::string::npos;
        for (int k = 0; k < op.nout; ++k) for (int c = 0; c < 3; ++c) {
            F* o = (F*)(c == 0 ? ow[k]->first : c == 1 ? ow[k]->mid : ow[k]->last);
            for (size_t i = 0; i < CHS; ++i) {
                if (c == 1 && op.inout) break;                   // accumulated over and over
                ++ctx.evaluations;
                bool inside = c < 2 || i <= tail;
                F want = inside ? ro[k][i] : op.inout ? F(0) : sent;
                if (same_val(o[i], want) || (inside && fma && std::fabs(o[i] - want) <= 4 * std::numeric_limits<F>::epsilon() * (1 + std::fabs(want)))) continue;
                ctx.violation(sg + "/huge", "n=%u output %d, %s megabyte, sample %zu of it%s: %s, want %s", n, k, c == 0 ? "first" : c == 1 ? "a middle" : "last", i, inside ? "" : " (beyond the block)", num(o[i]).c_str(), num(want).c_str());
                break;
            }
        }
    }
}
} // namespace util
