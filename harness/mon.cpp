#include "mon.hpp"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>

#if defined(__has_feature)
#  if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#    define MON_SAN 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#  define MON_SAN 1
#endif
#ifdef MON_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
#endif

extern "C" void __msan_scoped_disable_interceptor_checks(void) __attribute__((weak));

namespace mon {
Ctx ctx;

std::string strf(const char* fmt, ...)
{
    char b[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    return b;
}

static void put_crumb()
{
    const char h[] = "\nCRASH-AT ";
    ssize_t r = write(1, h, sizeof h - 1);
    r = write(1, ctx.crumb, strlen(ctx.crumb));
    r = write(1, "\n", 1);
    (void)r;
}
static void on_sig(int sig)
{
    put_crumb();
    char c[32]; int n = snprintf(c, sizeof c, "SIGNAL %d\n", sig);
    ssize_t r = write(1, c, n); (void)r;
    _exit(77);
}

void Ctx::init(int argc, char** argv)
{
    // MemorySanitizer builds instrument only the library side; this side is not shadow-tracked
    if (__msan_scoped_disable_interceptor_checks) __msan_scoped_disable_interceptor_checks();
    std::string dictfile;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char* k) -> const char* {
            size_t l = strlen(k);
            return a.compare(0, l, k) == 0 ? a.c_str() + l : nullptr;
        };
        const char* v;
        if ((v = val("--seed="))) seed = strtoull(v, 0, 10);
        else if ((v = val("--shard="))) shard = atoi(v);
        else if ((v = val("--tier="))) thorough = !strcmp(v, "thorough");
        else if ((v = val("--config="))) config = v;
        else if ((v = val("--only="))) only = v;
        else if ((v = val("--dict="))) dictfile = v;
    }
    if (!dictfile.empty())
        if (FILE* f = fopen(dictfile.c_str(), "r")) {
            double d;
            while (fscanf(f, "%lf", &d) == 1) {
                dict.push_back(d);
                if (d >= 1 && d <= 65536 && d == std::floor(d)) lens.push_back((unsigned)d);
            }
            fclose(f);
        }
#ifdef MON_SAN
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(put_crumb);
#else
    static char stk[65536];
    stack_t ss; ss.ss_sp = stk; ss.ss_size = sizeof stk; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
#endif
    struct sigaction st; memset(&st, 0, sizeof st);      // watchdog of the driver
    st.sa_handler = on_sig; sigaction(SIGTERM, &st, 0);
}

void Ctx::violation(const std::string& key, const char* fmt, ...)
{
    char b[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (size_t* it = vidx.find(key)) { viols[*it].count++; return; }
    if (viols.size() >= 400) { counters["violations_dropped"]++; return; }
    vidx[key] = viols.size();
    viols.push_back({key, b, 1});
}
void Ctx::sample(const char* fmt, ...)
{
    if (samples.size() >= 6) return;
    char b[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    samples.push_back(b);
}
void Ctx::at(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(crumb, sizeof crumb, fmt, ap); va_end(ap);
}
static void jstr(const std::string& s)
{
    putchar('"');
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { putchar('\\'); putchar(c); }
        else if (c < 32 || c > 126) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}
int Ctx::finish()
{
    printf("\nRESULT {\"config\":"); jstr(config);
    printf(",\"evaluations\":%llu,\"distinct\":%llu,\"counters\":{", (unsigned long long)evaluations, (unsigned long long)distinct.size());
    bool first = true;
    for (auto& c : counters) { if (!first) putchar(','); first = false; jstr(c.first); printf(":%llu", (unsigned long long)c.second); }
    printf("},\"maxima\":{"); first = true;
    for (auto& c : maxima) { if (!first) putchar(','); first = false; jstr(c.first); printf(":%.6g", std::isfinite(c.second) ? c.second : 1e300); }
    printf("},\"samples\":["); first = true;
    for (auto& s : samples) { if (!first) putchar(','); first = false; jstr(s); }
    printf("],\"violations\":["); first = true;
    for (auto& v : viols) {
        if (!first) putchar(',');
        first = false;
        printf("{\"key\":"); jstr(v.key); printf(",\"detail\":"); jstr(v.detail); printf(",\"count\":%llu}", (unsigned long long)v.count);
    }
    printf("]}\n");
    fflush(stdout);
    return 0;
}

// ---------------------------------------------------------------- guarded
static const unsigned char CANARY = 0xA7;
Guarded::Guarded(size_t bytes)
{
    size_t pg = 4096;
    cap = (bytes + 256 + pg - 1) / pg * pg;
    mapped = cap + 2 * pg;
    map = (unsigned char*)mmap(0, mapped, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (map == MAP_FAILED) { perror("mmap"); exit(3); }
    data = map + pg;
    if (mprotect(data, cap, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
    memset(data, CANARY, cap);
}
Guarded::~Guarded() { munmap(map, mapped); }
void* Guarded::place(size_t l, bool at_end, size_t gap)
{
    if (ro) protect_ro(false);
    if (l + gap > cap) { fprintf(stderr, "guarded overflow\n"); exit(3); }
    memset(data, CANARY, cap);
    len = l;
    user = at_end ? data + cap - gap - l : data + gap;
    return user;
}
bool Guarded::canary_ok(size_t* where) const
{
    for (unsigned char* p = data; p != user; ++p) if (*p != CANARY) { if (where) *where = (size_t)(p - user); return false; }
    for (unsigned char* p = user + len; p != data + cap; ++p) if (*p != CANARY) { if (where) *where = (size_t)(p - user); return false; }
    return true;
}
void Guarded::protect_ro(bool on)
{
    ro = on;
    if (mprotect(data, cap, on ? PROT_READ : PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
}

// ---------------------------------------------------------------- inputs
template <class F> static std::vector<F> make_specials()
{
    std::vector<F> v;
    auto around = [&](F x) {
        const F inf = std::numeric_limits<F>::infinity();
        F u = x, d = x;
        v.push_back(x);
        for (int i = 0; i < 2; ++i) { u = std::nextafter(u, inf); d = std::nextafter(d, -inf); v.push_back(u); v.push_back(d); }
    };
    auto both = [&](F x) { around(x); around(-x); };
    typedef std::numeric_limits<F> L;
    both(0); both(L::min()); both(L::denorm_min()); both(L::max()); both(L::epsilon()); both(1 + L::epsilon());
    for (double x : {0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 10.0, 12.0, 20.0, 60.0, 69.0, 100.0, 127.0, 440.0, 0.1, 0.01, 0.001, 0.3, 0.7,
                     0.41421356237309504880, 2.41421356237309504880, 0.625, 22.0, 0.70710678118654752, 88.72283905206835, 88.0, 87.33654475, 8192.0,
                     0.78539816339744830962, 1.5707963267948966, 2.356194490192345, 3.14159265358979323846, 6.283185307179586})
        both((F)x);
    for (int e = -30; e <= 70; ++e) { both((F)std::ldexp(1.0, e)); both((F)(std::ldexp(1.0, e) + 0.5)); both((F)(std::ldexp(1.0, e) + 1.0)); both((F)std::ldexp(1.5, e)); }
    for (int i = 1; i <= 40; ++i) { both((F)i); both((F)(i + 0.5)); both((F)(i / 10.0)); }
    for (double d : ctx.dict) { F f = (F)d; if (std::isfinite(f)) both(f); }
    std::vector<F> o;
    for (F x : v) if (std::isfinite(x)) o.push_back(x);
    return o;
}
template <> const std::vector<float>& specials<float>() { static std::vector<float> v = make_specials<float>(); return v; }
template <> const std::vector<double>& specials<double>() { static std::vector<double> v = make_specials<double>(); return v; }

static float raw(Rng& r, float*) { return bits_f((uint32_t)r.next()); }
static double raw(Rng& r, double*) { return bits_d(r.next()); }

template <class F> F gen_value(Rng& r, int p)
{
    typedef std::numeric_limits<F> L;
    switch (p) {
    case P_UNIT: return (F)r.uni(-1, 1);
    case P_POS: return (F)std::exp(r.uni(-3, 4));
    case P_NEG: return -(F)std::exp(r.uni(-3, 4));
    case P_WIDE: { double m = std::exp(r.uni(-12, 12)); return (F)(r.chance(0.5) ? m : -m); }
    case P_INTS: { double k = (double)(int64_t)r.below(129) - 64; if (r.chance(0.3)) k += 0.5; if (r.chance(0.1)) k = std::ldexp(1.0, (int)r.below(40) - 10); return (F)k; }
    case P_EQUAL: { static const double t[] = {-1, -0.0, 0, 0.5, 1, 2}; return (F)t[r.below(6)]; }
    case P_FINITE:
    case P_ANY:
        if (p == P_ANY && r.chance(0.15)) { F s[] = {L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN()}; return s[r.below(4)]; }
        if (r.chance(0.4)) { auto& s = specials<F>(); return s[r.below(s.size())]; }
        if (r.chance(0.2)) { F d = (F)(L::min() * r.unit()); return r.chance(0.5) ? d : -d; }
        for (;;) { F f = raw(r, (F*)0); if (std::isfinite(f)) return f; }
    }
    return 0;
}
template <class F> void gen_fill(Rng& r, F* p, size_t n, int profile)
{
    for (size_t i = 0; i != n; ++i) p[i] = gen_value<F>(r, profile);
    if (n > 1 && r.chance(0.15)) shape_block(r, p, n, profile == P_POS || profile == P_NEG ? nullptr : r.chance(.5) ? "0" : nullptr);
}
template float gen_value<float>(Rng&, int);
template double gen_value<double>(Rng&, int);
template void gen_fill<float>(Rng&, float*, size_t, int);
template void gen_fill<double>(Rng&, double*, size_t, int);
const char* profile_name(int p)
{
    static const char* n[] = {"unit", "pos", "wide", "finite", "any", "ints", "neg", "equal"};
    return n[p];
}
template <> Registry<float>& Registry<float>::get() { static Registry<float> r; return r; }
template <> Registry<double>& Registry<double>::get() { static Registry<double> r; return r; }
} // namespace mon
