// Shared monitor runtime: registry types, RNG, guarded buffers, verdict recording.
// Nothing in here depends on nova-simd; mains are compiled with plain flags so that the
// oracle arithmetic is never affected by the configuration under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>

namespace mon {

// ---------------------------------------------------------------- registry
template <class F>
using call_t = void (*)(F* const* out, const F* const* in, const F* s, const F* slope, unsigned n, F* red);

template <class F>
struct Form { const char* form; int ct_n; call_t<F> fn; };   // ct_n: compile-time length or 0

enum Flags { SIMD_FORMS_NEED_ALIGN = 1 };

template <class F>
struct Op {
    std::string fn;       // e.g. "plus"
    std::string kinds;    // one char per argument: v=buffer, s=scalar, r=ramp, V=buffer that may be unaligned
    int nout;             // output buffers
    int nred;             // scalar results
    bool inout;           // output buffer is also read (addvec)
    bool out_unaligned;   // output may be unaligned even for simd forms
    std::vector<Form<F>> forms;
};

template <class F>
struct Registry {
    std::vector<Op<F>> ops;
    int vec_size = 0, spl = 0;
    static Registry& get();
};

// ---------------------------------------------------------------- rng
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return next() % n; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
};

inline uint64_t hash_str(const char* p)
{
    uint64_t h = 1469598103934665603ull;
    for (; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    return h;
}

// ---------------------------------------------------------------- small containers
// (header-only on purpose: MemorySanitizer cannot see into the tree/hash code of a prebuilt libstdc++)
template <class T> struct FlatMap {
    typedef std::pair<std::string, T> value_type;
    std::vector<value_type> v;
    T& operator[](const char* k)
    {
        for (auto& e : v) if (e.first == k) return e.second;
        v.push_back(value_type(k, T()));
        return v.back().second;
    }
    T& operator[](const std::string& k) { return (*this)[k.c_str()]; }
    T* find(const std::string& k) { for (auto& e : v) if (e.first == k) return &e.second; return nullptr; }
    typename std::vector<value_type>::iterator begin() { return v.begin(); }
    typename std::vector<value_type>::iterator end() { return v.end(); }
};
struct HashSet {                       // open addressing, 0 is stored as 1
    std::vector<uint64_t> t; size_t n = 0;
    void insert(uint64_t h)
    {
        if (!h) h = 1;
        if (t.empty()) t.assign(1024, 0);
        if (n * 2 >= t.size()) {
            std::vector<uint64_t> o; o.swap(t);
            t.assign(o.size() * 2, 0); n = 0;
            for (uint64_t x : o) if (x) put(x);
        }
        put(h);
    }
    void put(uint64_t h)
    {
        size_t m = t.size() - 1, i = (h * 0x9E3779B97F4A7C15ull >> 20) & m;
        while (t[i] && t[i] != h) i = (i + 1) & m;
        if (!t[i]) { t[i] = h; ++n; }
    }
    size_t size() const { return n; }
};

// ---------------------------------------------------------------- run context
struct Ctx {
    uint64_t seed = 1;
    int shard = 0;                    // index of this run among the runs of one build
    bool thorough = false;
    std::string config = "?";
    std::string only;                 // replay filter: substring of the case signature
    std::vector<double> dict;         // input dictionary: numeric literals of the sources under test
    std::vector<unsigned> lens;       // integers among them: candidate block lengths
    uint64_t evaluations = 0;
    HashSet distinct;
    FlatMap<uint64_t> counters;
    FlatMap<double> maxima;
    std::vector<std::string> samples;
    struct Viol { std::string key, detail; uint64_t count; };
    std::vector<Viol> viols;
    FlatMap<size_t> vidx;
    char crumb[512] = "start";

    void init(int argc, char** argv);
    int finish();
    // key identifies the call site (function/kinds/form/type/...), detail the failing input
    void violation(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void sample(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void at(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void seen(const std::string& sig) { distinct.insert(hash_str(sig.c_str())); }
    void seen(uint64_t h) { distinct.insert(h); }
    bool selected(const std::string& sig) const { return only.empty() || sig.find(only) != std::string::npos; }
    void count(const char* k, uint64_t n = 1) { counters[k] += n; }
    void maxv(const std::string& k, double v) { double& r = maxima[k]; if (v > r) r = v; }
};
extern Ctx ctx;

// ---------------------------------------------------------------- guarded buffers
// [PROT_NONE page][data pages][PROT_NONE page]; slack around the user region is filled with a canary.
struct Guarded {
    unsigned char* map = nullptr; size_t mapped = 0;
    unsigned char* data = nullptr; size_t cap = 0;     // accessible span
    unsigned char* user = nullptr; size_t len = 0;
    bool ro = false;
    explicit Guarded(size_t bytes);
    ~Guarded();
    Guarded(const Guarded&) = delete;
    // place a region of len bytes: at_end => user+len+gap == end of accessible span, else user == start+gap
    void* place(size_t len, bool at_end, size_t gap);
    bool canary_ok(size_t* where = nullptr) const;     // bytes outside [user,user+len) untouched
    void protect_ro(bool on);
};

template <class F> inline bool same_val(F a, F b) { return a == b || (a != a && b != b); }
// the same number including the sign of zero; NaN payloads are not compared
template <class F> inline bool same_num(F a, F b) { return std::memcmp(&a, &b, sizeof(F)) == 0 || (a != a && b != b); }
template <class F> inline bool same_bits(F a, F b) { return std::memcmp(&a, &b, sizeof(F)) == 0; }
inline float bits_f(uint32_t u) { float f; std::memcpy(&f, &u, 4); return f; }
inline uint32_t f_bits(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
inline double bits_d(uint64_t u) { double f; std::memcpy(&f, &u, 8); return f; }
inline uint64_t d_bits(double f) { uint64_t u; std::memcpy(&u, &f, 8); return u; }
template <class F> inline char tchar() { return sizeof(F) == 4 ? 'f' : 'd'; }

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- inputs
enum Profile {
    P_UNIT,      // [-1,1] audio range
    P_POS,       // positive moderate (0.05 .. 50)
    P_WIDE,      // log-uniform magnitude, both signs, no overflow in products
    P_FINITE,    // any finite bit pattern, specials, denormals
    P_ANY,       // any bit pattern incl. inf/NaN
    P_INTS,      // small integers and half-integers, powers of two +-ulp
    P_NEG,       // negative moderate
    P_EQUAL,     // few distinct values (provokes ties)
    P_COUNT
};
template <class F> F gen_value(Rng& r, int profile);
// Blocks with structure, built by rearranging and repeating the samples already there: code that looks at a
// whole vector, a cache line or a block before choosing a path behaves differently on these.
template <class T> void shape_block(Rng& r, T* p, size_t n, const char* zero)
{
    T c = zero ? T(0) : p[0];
    switch (r.below(8)) {
    case 0: for (size_t i = 0; i < n; ++i) p[i] = c; break;                                                     // constant
    case 1: { size_t k = r.below(n); T v = p[k]; for (size_t i = 0; i < n; ++i) p[i] = c; p[k] = v; break; }     // one odd sample
    case 2: { size_t k = r.below(n); for (size_t i = 0; i < k; ++i) p[i] = c; break; }                           // constant lead-in
    case 3: { size_t k = r.below(n); for (size_t i = k; i < n; ++i) p[i] = c; break; }                           // constant tail
    case 4: for (size_t i = 1; i < n; ++i) if (p[i] < p[i - 1]) p[i] = p[i - 1]; break;                          // rising
    case 5: for (size_t i = 1; i < n; ++i) if (p[i - 1] < p[i]) p[i] = p[i - 1]; break;                          // falling
    case 6: { size_t k = size_t(1) << r.below(7); for (size_t i = k; i < n; ++i) p[i] = p[i - k]; break; }        // periodic
    default: { size_t k = size_t(1) << r.below(6), m = r.below(k); for (size_t i = 0; i < n; ++i) if (i % k == m) p[i] = c; }   // one lane constant
    }
}
template <class F> void gen_fill(Rng& r, F* p, size_t n, int profile);
extern template float gen_value<float>(Rng&, int);
extern template double gen_value<double>(Rng&, int);
extern template void gen_fill<float>(Rng&, float*, size_t, int);
extern template void gen_fill<double>(Rng&, double*, size_t, int);
template <class F> const std::vector<F>& specials();   // finite special values
const char* profile_name(int p);

} // namespace mon
