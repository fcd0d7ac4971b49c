// Helpers shared by the property mains.
#pragma once
#include "mon.hpp"
#include "oracle.hpp"
#include <memory>
#include <thread>
#include <mutex>

namespace util {
using namespace mon;
using namespace oracle;

template <class F> struct Buf {
    static const size_t SLACK = 64;
    F *p, *base; size_t n;
    explicit Buf(size_t n_) : p(nullptr), base(nullptr), n(n_)
    {
        void* q = nullptr;
        if (posix_memalign(&q, n >= 2048 ? 4096 : 64, (n + SLACK) * sizeof(F) + 64)) exit(3);
        p = base = (F*)q;
        std::memset(p, 0, (n + SLACK) * sizeof(F));
    }
    ~Buf() { free(base); }
    // move to a random address that the contract allows: element steps, or whole vectors for simd forms
    void jiggle(Rng& r, bool vectors, size_t vec_size) { p = base + (r.chance(.15) ? 0 : vectors ? vec_size * r.below(SLACK / vec_size) : r.below(SLACK)); }
    Buf(const Buf&) = delete;
    F& operator[](size_t i) { return p[i]; }
    const F& operator[](size_t i) const { return p[i]; }
    operator F*() { return p; }
};

inline bool is_simd(const char* form) { return form[0] != 's' || form[1] != 'c'; }   // "scalar" vs "simd"/"ct"

// a legal length for the form
template <class F> unsigned pick_n(Rng& r, const Form<F>& f, int spl, unsigned maxn)
{
    if (f.ct_n) return f.ct_n;
    if (!ctx.lens.empty() && r.chance(0.08)) {       // a length that occurs in the sources, or next to one
        unsigned l = ctx.lens[r.below(ctx.lens.size())] + (unsigned)r.below(3) - 1;
        if (is_simd(f.form)) l = l / spl * spl;
        if (l >= 1 && l <= maxn) return l;
    }
    if (is_simd(f.form)) {
        unsigned k = maxn / spl, m = std::max(3u, 512u / spl);
        return spl * (1 + r.below(r.chance(0.5) ? std::min(3u, k) : r.chance(0.96) ? std::min(m, k) : k));
    }
    return 1 + r.below(r.chance(0.5) ? std::min(20u, maxn) : r.chance(0.96) ? std::min(512u, maxn) : maxn);
}
// a block long enough to wrap 16-bit counters of samples, vectors and cache lines
template <class F> unsigned huge_n(Rng& r, const Form<F>& f, int spl)
{
    return is_simd(f.form) ? (65536u + 1 + r.below(16)) * spl : 65536u + 1 + r.below(5000);
}
template <class F> std::string sig(const Op<F>& op, const Form<F>& f)
{
    return op.fn + "(" + op.kinds + ")/" + f.form + (f.ct_n ? strf("<%d>", f.ct_n) : "") + "/" + (sizeof(F) == 4 ? "float" : "double");
}
template <class F> inline uint64_t hash_buf(const F* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n * sizeof(F); ++i) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
template <class F> inline bool all_same(const F* p, size_t n)
{
    for (size_t i = 1; i < n; ++i) if (!same_bits(p[i], p[0])) return false;
    return true;
}
inline std::string num(double v) { return strf("%.17g", v); }
inline std::string num(float v) { return strf("%.9g(0x%08x)", (double)v, f_bits(v)); }

// dense list of interesting values: specials, plus +-8 ulp around the dictionary taken from the sources
template <class F> const std::vector<F>& dense_specials()
{
    static std::vector<F> v = [] {
        std::vector<F> o = specials<F>();
        const F inf = std::numeric_limits<F>::infinity();
        for (double d : ctx.dict)
            for (double s : {d, -d, 2 * d, d / 2}) {
                F u = (F)s, w = (F)s;
                if (!std::isfinite(u)) continue;
                for (int i = 0; i < 8; ++i) { u = std::nextafter(u, inf); w = std::nextafter(w, -inf); o.push_back(u); o.push_back(w); }
            }
        std::sort(o.begin(), o.end());
        o.erase(std::unique(o.begin(), o.end(), [](F a, F b) { return same_bits(a, b); }), o.end());
        std::vector<F> fin;
        for (F x : o) if (std::isfinite(x)) fin.push_back(x);
        fin.push_back(F(-0.0));
        fin.push_back(inf); fin.push_back(-inf);
        fin.push_back(std::numeric_limits<F>::quiet_NaN());
        return fin;
    }();
    return v;
}
// short list for cross products
template <class F> const std::vector<F>& core_specials()
{
    static std::vector<F> v = [] {
        typedef std::numeric_limits<F> L;
        std::vector<F> o;
        for (F x : {F(0), F(1), F(2), F(0.5), F(3), F(0.1), F(1e-3), F(1e3), F(100.25), F(7.75), L::min(), L::denorm_min(), L::min() / 2, L::max(), L::max() / 2, L::epsilon(),
                    F(1) + L::epsilon(), F(1) - L::epsilon() / 2, std::sqrt(L::max()), std::sqrt(L::min()), F(16777216), F(16777217), F(0.25), F(0.75), L::infinity()}) {
            o.push_back(x); o.push_back(-x);
        }
        o.push_back(L::quiet_NaN());
        return o;
    }();
    return v;
}
// Structural relations between the parameters of one call: equal or opposite slopes, equal bases, cross-fades,
// ramps that hit zero exactly, slopes too small to move one base but not the other, constants 0 and 1.
template <class F> void relate(Rng& r, const char* kinds, F* s, F* sl, bool exact, unsigned n)
{
    int id[4], c = 0;
    for (int k = 0; kinds[k] && k < 4; ++k) if (kinds[k] == 'r' || kinds[k] == 's') id[c++] = k;
    if (!c || !r.chance(.35)) return;
    int k = id[r.below(c)], j = id[r.below(c)];
    F sg = r.chance(.5) ? F(1) : F(-1);
    bool rk = kinds[k] == 'r', rj = kinds[j] == 'r';
    auto one = [&] { static const double t[] = {0, 1, -1, 2, 0.5, 0, 1}; return (F)t[r.below(7)]; };
    switch (r.below(9)) {
    case 0: s[k] = sg * s[j]; break;
    case 1: if (rk && rj) sl[k] = sg * sl[j]; break;
    case 2: s[k] = sg * s[j]; if (rk && rj) sl[k] = (r.chance(.5) ? F(1) : F(-1)) * sl[j]; break;
    case 3: for (int i = 0; i < c; ++i) if (i == 0 || r.chance(.5)) s[id[i]] = one(); break;
    case 4: s[k] = 1 - s[j]; if (rk && rj) sl[k] = -sl[j]; break;
    case 5: if (rk) s[k] = -sl[k] * (F)r.below(n + 1); break;
    case 6: if (rk) sl[k] = 0; break;
    case 7: for (int i = 0; i < c; ++i) if (kinds[id[i]] == 'r' && i != (int)r.below(c)) sl[id[i]] = 0; break;
    default:
        if (rk && !exact) {       // a slope that the base of k absorbs
            sl[k] = s[k] * std::numeric_limits<F>::epsilon() * (F)r.uni(.01, 2);
            if (rj && j != k) { sl[j] = sg * sl[k]; s[j] = r.chance(.5) ? F(0) : sl[k] * (F)r.uni(-8, 8); }
            else if (c > 1) for (int i = 0; i < c; ++i) if (id[i] != k && r.chance(.5)) s[id[i]] = sl[k];
        }
    }
    for (int i = 0; i < c; ++i) { if (s[id[i]] == 0) s[id[i]] = 0; if (sl[id[i]] == 0) sl[id[i]] = 0; }     // no negative zeros: -0 + 0*x is +0
}
} // namespace util
