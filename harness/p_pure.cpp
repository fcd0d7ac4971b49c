// C17: calls have no memory and share no state.  Replays every job after arbitrary other calls and from many
// threads at once: bitwise the same result, inputs and floating-point environment untouched.
#include "work.hpp"
#include <xmmintrin.h>
#include <atomic>
using namespace util;

static uint16_t x87cw() { uint16_t w; __asm__ volatile("fnstcw %0" : "=m"(w)); return w; }

struct AnyJob {
    virtual ~AnyJob() {}
    virtual void run_reference() = 0;
    virtual uint64_t run_hash() = 0;             // hash of all results; NaNs are not told apart
    virtual uint64_t reference_hash() const = 0;
    virtual std::string run_and_compare(bool copied) = 0;   // empty: identical
    virtual const std::string& name() const = 0;
};
template <class F> struct JobT : AnyJob {
    Job<F> j;
    std::vector<F> ref[2]; F rref[2];
    // one set of buffers per thread that every job is copied through: the addresses stay, the data changes
    struct Arena { std::unique_ptr<Buf<F>> b[6]; Arena() { for (auto& x : b) x.reset(new Buf<F>(1024 + 64)); } };
    static Arena& arena() { static thread_local Arena a; return a; }
    std::vector<std::unique_ptr<Buf<F>>> in;      // shared between threads (read only for the library)
    void prepare()
    {
        for (int k = 0; k < 4; ++k) { in.emplace_back(new Buf<F>(j.n)); if (!j.in[k].empty()) std::copy(j.in[k].begin(), j.in[k].end(), in[k]->p); }
    }
    void call(F* o0, F* o1, F* red, bool copied = false)
    {
        F* out[2] = {o0, o1}; const F* ip[4] = {};
        for (size_t k = 0; k < j.op->kinds.size(); ++k) if (!j.in[k].empty()) {
            ip[k] = in[k]->p;
            if (copied) { std::copy(j.in[k].begin(), j.in[k].end(), arena().b[k]->p); ip[k] = arena().b[k]->p; }
        }
        for (int k = 0; k < j.op->nout; ++k) std::copy(j.out0[k].begin(), j.out0[k].end(), out[k]);
        red[0] = j.red0[0]; red[1] = j.red0[1];
        F s[4], sl[4];
        std::memcpy(s, j.s, sizeof s); std::memcpy(sl, j.sl, sizeof sl);
        j.form->fn(out, ip, s, sl, j.n, red);
    }
    uint64_t hash(const F* const* o, const F* red) const
    {
        uint64_t h = 1469598103934665603ull;
        auto add = [&](F v) { if (v != v) v = std::numeric_limits<F>::quiet_NaN(); h = hash_buf(&v, 1, h); };
        for (int k = 0; k < j.op->nout; ++k) for (unsigned i = 0; i < j.n; ++i) add(o[k][i]);
        for (int k = 0; k < j.op->nred; ++k) add(red[k]);
        return h;
    }
    uint64_t run_hash() override
    {
        Buf<F> a(j.n), b(j.n); F red[2];
        call(a.p, b.p, red);
        const F* o[2] = {a.p, b.p};
        return hash(o, red);
    }
    uint64_t reference_hash() const override { const F* o[2] = {ref[0].data(), ref[1].data()}; return hash(o, rref); }
    void run_reference() override
    {
        Buf<F> a(j.n), b(j.n); F red[2];
        call(a.p, b.p, red);
        ref[0].assign(a.p, a.p + j.n); ref[1].assign(b.p, b.p + j.n); rref[0] = red[0]; rref[1] = red[1];
    }
    std::string run_and_compare(bool copied) override
    {
        Buf<F> fa(copied ? 1 : j.n), fb(copied ? 1 : j.n); F red[2];
        Buf<F>&a = copied ? *arena().b[4] : fa, &b = copied ? *arena().b[5] : fb;
        call(a.p, b.p, red, copied);
        for (int k = 0; k < j.op->nout; ++k) for (unsigned i = 0; i < j.n; ++i)
            if (!same_num((k ? b : a)[i], ref[k][i])) return strf("output %d sample %u: %s now, %s before", k, i, num((k ? b : a)[i]).c_str(), num(ref[k][i]).c_str());
        for (int k = 0; k < j.op->nred; ++k) if (!same_num(red[k], rref[k])) return strf("result %d: %s now, %s before", k, num(red[k]).c_str(), num(rref[k]).c_str());
        for (size_t k = 0; k < j.op->kinds.size(); ++k) if (!j.in[k].empty() && std::memcmp(in[k]->p, j.in[k].data(), j.n * sizeof(F))) return strf("input %zu was modified", k);
        return "";
    }
    const std::string& name() const override { return j.sg; }
};
static std::vector<std::unique_ptr<AnyJob>> jobs;
template <class F> void collect(Rng& r, int per)
{
    Registry<F>& reg = Registry<F>::get();
    for (auto& op : reg.ops) for (auto& f : op.forms) {
        if (!ctx.selected(sig(op, f))) continue;
        for (int i = 0; i < per; ++i) {
            std::unique_ptr<JobT<F>> p(new JobT<F>);
            // every second job is a twin of its predecessor: same length, new data, some of the same parameters
            const Job<F>* t = i & 1 ? &static_cast<JobT<F>&>(*jobs.back()).j : nullptr;
            make_job<F>(r, op, f, t ? t->n : pick_n(r, f, reg.spl, r.chance(.1) ? 1024 : 100), (int)r.below(P_COUNT), p->j);
            if (t) {
                if (r.chance(.5)) std::copy(t->s, t->s + 4, p->j.s);
                if (r.chance(.5)) std::copy(t->sl, t->sl + 4, p->j.sl);
                for (int k = 0; k < 4; ++k) if (!t->in[k].empty()) { if (r.chance(.4)) p->j.in[k][0] = t->in[k][0]; if (r.chance(.2)) std::copy(t->in[k].begin(), t->in[k].end() - t->n / 2, p->j.in[k].begin()); }
            }
            p->prepare();
            jobs.push_back(std::move(p));
        }
        ctx.count("call_sites");
    }
}
int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    unsigned nthreads = 8; int per = 0, rounds = 0; bool tsan = ctx.config.find("tsan") != std::string::npos;
    for (int i = 1; i < argc; ++i) {
        if (!strncmp(argv[i], "--threads=", 10)) nthreads = atoi(argv[i] + 10);
        if (!strncmp(argv[i], "--per=", 6)) per = atoi(argv[i] + 6);
        if (!strncmp(argv[i], "--rounds=", 9)) rounds = atoi(argv[i] + 9);
    }
    Rng r(ctx.seed * 1000003 + 17);
    collect<float>(r, per ? per : ctx.thorough ? 12 : 4);
    collect<double>(r, per ? per : ctx.thorough ? 12 : 4);
    if (jobs.empty()) { fprintf(stderr, "no jobs\n"); return 3; }
    if (!rounds) rounds = ctx.thorough ? 20 : 3;
    // call sites: jobs of one call site are adjacent
    std::vector<std::pair<size_t, size_t>> groups;
    for (size_t i = 0; i < jobs.size();) { size_t e = i; while (e < jobs.size() && jobs[e]->name() == jobs[i]->name()) ++e; groups.emplace_back(i, e); i = e; }
    // cold start: the very first calls of every function happen in all threads at once
    std::vector<std::vector<uint64_t>> cold(nthreads, std::vector<uint64_t>(jobs.size()));
    {
        std::vector<std::thread> th;
        std::atomic<size_t> arrived(0);
        for (unsigned t = 0; t < nthreads; ++t) th.emplace_back([&, t] {
            for (size_t g = 0; g < groups.size(); ++g) {
                arrived.fetch_add(1, std::memory_order_relaxed);                     // relaxed: adds no ordering a race detector would honour
                for (unsigned spin = 0; arrived.load(std::memory_order_relaxed) < (g + 1) * nthreads;) if (++spin > 2000) std::this_thread::yield();
                for (size_t i = groups[g].first; i < groups[g].second; ++i) cold[t][i] = jobs[i]->run_hash();
            }
        });
        for (auto& x : th) x.join();
        ctx.count("cold_start_calls", nthreads * jobs.size());
    }
    const unsigned STATUS = 0x3f, CTRL = 0xffc0;
    // single-threaded: control registers as set by the caller (default, and flush-to-zero/denormals-are-zero)
    for (unsigned mode = 0; mode < 2; ++mode) {
        unsigned want = 0x1f80 | (mode ? 0x8040 : 0);
        _mm_setcsr(want);
        uint16_t cw = x87cw();
        std::vector<size_t> order(jobs.size());
        for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (int pass = 0; pass < 1 + 2 * rounds / 3 + 1; ++pass) {
            for (size_t i = order.size() - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
            for (size_t i : order) {
                ctx.at("%s", jobs[i]->name().c_str());
                if (pass == 0) jobs[i]->run_reference();
                else {
                    std::string d = jobs[i]->run_and_compare(pass & 1);
                    if (!d.empty()) ctx.violation(jobs[i]->name() + "/replay", "%s (pass %d, %s)", d.c_str(), pass, mode ? "FTZ|DAZ" : "default environment");
                }
                ++ctx.evaluations;
                unsigned cs = _mm_getcsr();
                if ((cs & CTRL) != (want & CTRL) || x87cw() != cw) {
                    ctx.violation(jobs[i]->name() + "/environment", "MXCSR control 0x%x -> 0x%x, x87 CW 0x%x -> 0x%x", want & CTRL, cs & CTRL, cw, x87cw());
                    _mm_setcsr(want);
                }
                ctx.count("environment_checks");
            }
        }
        (void)STATUS;
    }
    // other legal environments (rounding directions, FTZ or DAZ alone, 53-bit x87): results are not judged, settings must survive
    for (unsigned mode = 0; mode < 5; ++mode) {
        static const unsigned M[] = {0x2000, 0x4000, 0x6000, 0x8000, 0x0040};
        static const uint16_t X[] = {0x077f, 0x0b7f, 0x0e7f, 0x027f, 0x037f};
        for (auto& j : jobs) {
            unsigned want = 0x1f80 | M[mode]; uint16_t cw = X[mode], old = x87cw();
            ctx.at("%s", j->name().c_str());
            _mm_setcsr(want); __asm__ volatile("fldcw %0" : : "m"(cw));
            j->run_hash();
            unsigned cs = _mm_getcsr(); uint16_t now = x87cw();
            __asm__ volatile("fldcw %0" : : "m"(old)); _mm_setcsr(0x1f80);
            if ((cs & CTRL) != (want & CTRL) || now != cw) ctx.violation(j->name() + "/environment", "MXCSR control 0x%x -> 0x%x, x87 CW 0x%x -> 0x%x", want & CTRL, cs & CTRL, cw, now);
            ctx.count("environment_checks"); ++ctx.evaluations;
        }
    }
    _mm_setcsr(0x1f80);
    for (auto& j : jobs) j->run_reference();
    for (size_t i = 0; i < jobs.size(); ++i) for (unsigned t = 0; t < nthreads; ++t) if (cold[t][i] != jobs[i]->reference_hash()) {
        ctx.violation(jobs[i]->name() + "/cold", "first call in thread %u of %u gave other results than a later call with the same arguments", t, nthreads);
        break;
    }
    // concurrent: every thread runs all jobs in its own order on the same inputs
    std::mutex m;
    std::atomic<unsigned> ready(0), overlap(0), inside(0);
    std::vector<std::thread> th;
    std::atomic<uint64_t> evals(0);
    for (unsigned t = 0; t < nthreads; ++t) th.emplace_back([&, t] {
        Rng tr(ctx.seed * 31 + t);
        ++ready;
        while (ready < nthreads) std::this_thread::yield();
        std::vector<size_t> order(jobs.size());
        for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (int pass = 0; pass < rounds; ++pass) {
            // phases alternate: all threads hammer the same job order / independent orders
            if (pass & 1) for (size_t i = order.size() - 1; i > 0; --i) std::swap(order[i], order[tr.below(i + 1)]);
            for (size_t i : order) {
                unsigned o = inside.fetch_add(1, std::memory_order_relaxed) + 1;
                unsigned cur = overlap.load(std::memory_order_relaxed);
                if (o > cur) overlap.store(o, std::memory_order_relaxed);
                std::string d = jobs[i]->run_and_compare(tr.chance(.5));
                inside.fetch_sub(1, std::memory_order_relaxed);
                evals.fetch_add(1, std::memory_order_relaxed);
                if (!d.empty()) { std::lock_guard<std::mutex> g(m); ctx.violation(jobs[i]->name() + "/concurrent", "%s (thread %u of %u)", d.c_str(), t, nthreads); }
            }
        }
    });
    for (auto& x : th) x.join();
    // hammer: all threads call the same function at the same time, each with other arguments
    th.clear();
    std::atomic<size_t> arrived(0);
    const int reps = ctx.thorough ? 60 : tsan ? 4 : 16;
    for (unsigned t = 0; t < nthreads; ++t) th.emplace_back([&, t] {
        for (size_t g = 0; g < groups.size(); ++g) {
            arrived.fetch_add(1, std::memory_order_relaxed);                     // relaxed: adds no ordering a race detector would honour
            for (unsigned spin = 0; arrived.load(std::memory_order_relaxed) < (g + 1) * nthreads;) if (++spin > 2000) std::this_thread::yield();
            size_t b = groups[g].first, k = groups[g].second - b;
            for (int it = 0; it < reps; ++it) {
                size_t i = b + (t + it) % k;
                std::string d = jobs[i]->run_and_compare(it >> 1 & 1);
                evals.fetch_add(1, std::memory_order_relaxed);
                if (!d.empty()) { std::lock_guard<std::mutex> l(m); ctx.violation(jobs[i]->name() + "/concurrent", "%s (thread %u of %u, same function in all threads)", d.c_str(), t, nthreads); }
            }
        }
    });
    for (auto& x : th) x.join();
    ctx.counters["hammered_call_sites"] = groups.size();
    ctx.evaluations += evals;
    ctx.count("concurrent_calls", evals);
    ctx.counters["threads"] = nthreads;
    ctx.counters["max_concurrent_calls_observed"] = overlap;
    for (auto& j : jobs) ctx.seen(j->name());
    for (size_t i = 0; i < jobs.size(); ++i) ctx.seen(hash_str(jobs[i]->name().c_str()) * 31 + i);
    for (size_t i = 0; i < 4 && i < jobs.size(); ++i) ctx.sample("%s replayed %d times in shuffled order and by %u threads", jobs[(i * 7919) % jobs.size()]->name().c_str(), rounds, nthreads);
    return ctx.finish();
}
