// C19: real-time safety.  While a library call runs, no heap operation, no lock and no system call may happen.
// Heap and lock entry points are interposed; the calls are executed in a child confined by seccomp.
#include "work.hpp"
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <signal.h>
#include <semaphore.h>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <new>
using namespace util;

struct Shared {
    volatile int armed;
    volatile uint64_t heap, locks, sys;
    volatile int sysno;
    volatile int confined;
    char at[512];
    uint64_t calls, samples, packed, max_stack, freezes, frozen_inside;
    uint64_t nviol;
    struct { char key[160]; char what[160]; } viol[200];
};
static Shared* sh;
static thread_local int dummy_tls;

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { if (sh && sh->armed) ++sh->heap; return __libc_malloc(n); }
void free(void* p) { if (sh && sh->armed && p) ++sh->heap; __libc_free(p); }
void* calloc(size_t a, size_t b) { if (sh && sh->armed) ++sh->heap; return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (sh && sh->armed) ++sh->heap; return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { if (sh && sh->armed) ++sh->heap; return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { if (sh && sh->armed) ++sh->heap; return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { if (sh && sh->armed) ++sh->heap; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
static int (*real_lock)(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (sh && sh->armed) ++sh->locks;
    if (!real_lock) real_lock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return real_lock(m);
}
#define MONITORED(ret, name, params, args) ret name params { if (sh && sh->armed) ++sh->locks; static ret (*real) params; if (!real) real = (ret (*) params)dlsym(RTLD_NEXT, #name); return real args; }
MONITORED(int, pthread_mutex_trylock, (pthread_mutex_t* m), (m))
MONITORED(int, pthread_mutex_timedlock, (pthread_mutex_t* m, const struct timespec* t), (m, t))
MONITORED(int, pthread_rwlock_rdlock, (pthread_rwlock_t* m), (m))
MONITORED(int, pthread_rwlock_wrlock, (pthread_rwlock_t* m), (m))
MONITORED(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t* m), (m))
MONITORED(int, pthread_rwlock_trywrlock, (pthread_rwlock_t* m), (m))
MONITORED(int, pthread_spin_lock, (pthread_spinlock_t* m), (m))
MONITORED(int, pthread_spin_trylock, (pthread_spinlock_t* m), (m))
MONITORED(int, pthread_once, (pthread_once_t* o, void (*f)()), (o, f))
MONITORED(int, sem_wait, (sem_t* m), (m))
MONITORED(int, sem_trywait, (sem_t* m), (m))
MONITORED(int, sem_post, (sem_t* m), (m))
MONITORED(int, pthread_cond_signal, (pthread_cond_t* c), (c))
MONITORED(int, pthread_cond_broadcast, (pthread_cond_t* c), (c))
int __cxa_guard_acquire(uint64_t* g) throw()      // run-time initialised function statics take a lock
{
    if (sh && sh->armed) ++sh->locks;
    if (*(char*)g) return 0;
    return 1;
}
void __cxa_guard_release(uint64_t* g) throw() { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t*) throw() {}
}
static void on_sys(int, siginfo_t* si, void*)
{
    ++sh->sys; sh->sysno = si->si_syscall;
}
static void report(const std::string& sg, const char* what)
{
    for (uint64_t i = 0; i < sh->nviol; ++i) if (!strncmp(sh->viol[i].key, sg.c_str(), 159)) return;
    if (sh->nviol >= 200) return;
    auto& v = sh->viol[sh->nviol++];
    snprintf(v.key, 160, "%s", sg.c_str()); snprintf(v.what, 160, "%s", what);
}
template <class F> struct Prep { Job<F> j; std::vector<std::unique_ptr<Buf<F>>> in; std::unique_ptr<Buf<F>> o0, o1; };
static std::vector<Prep<float>> pf; static std::vector<Prep<double>> pd;
template <class F> std::vector<Prep<F>>& preps();
template <> std::vector<Prep<float>>& preps<float>() { return pf; }
template <> std::vector<Prep<double>>& preps<double>() { return pd; }

template <class F> void collect(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    for (auto& op : reg.ops) for (auto& f : op.forms) {
        if (!ctx.selected(sig(op, f))) continue;
        for (int it = 0; it < (ctx.thorough ? 12 : 8); ++it) {
            preps<F>().emplace_back();
            Prep<F>& p = preps<F>().back();
            make_job<F>(r, op, f, pick_n(r, f, reg.spl, r.chance(.1) ? 4096 : 200), it == 0 ? P_ANY : (int)r.below(P_COUNT), p.j);
            bool na_in = !is_simd(f.form) || op.kinds == "V", na_out = !is_simd(f.form) || op.out_unaligned;
            for (int k = 0; k < 4; ++k) { p.in.emplace_back(new Buf<F>(p.j.n)); p.in[k]->jiggle(r, !na_in, reg.vec_size); if (!p.j.in[k].empty()) std::copy(p.j.in[k].begin(), p.j.in[k].end(), p.in[k]->p); }
            p.o0.reset(new Buf<F>(p.j.n)); p.o1.reset(new Buf<F>(p.j.n));
            p.o0->jiggle(r, !na_out, reg.vec_size); p.o1->jiggle(r, !na_out, reg.vec_size);
            ctx.seen(hash_buf(p.in[0]->p, std::min(p.j.n, 8u), hash_str(p.j.sg.c_str()) + p.j.n));
        }
        ctx.count("call_sites");
    }
}
// stack monitor: the region below the caller's frame is painted before and inspected after the call
static const size_t PAINT = 512 * 1024, STACK_LIMIT = 24 * 1024, STACK_GROWTH = 1024;
__attribute__((noinline)) static void paint()
{
    volatile char* top = (volatile char*)__builtin_frame_address(0) - 256;
    for (size_t i = 0; i < PAINT; i += 8) *(volatile uint64_t*)(top - ((uintptr_t)top & 7) - i) = 0xA5C3A5C3A5C3A5C3ull;
}
__attribute__((noinline)) static size_t painted_depth()
{
    volatile char* top = (volatile char*)__builtin_frame_address(0) - 256;
    for (size_t i = PAINT - 8; i > 0; i -= 8) if (*(volatile uint64_t*)(top - ((uintptr_t)top & 7) - i) != 0xA5C3A5C3A5C3A5C3ull) return i;
    return 0;
}
template <class F> void one_call(const Form<F>& f, const std::string& sg, F* const* out, const F* const* ip, const F* s, const F* sl, unsigned n, F* red, bool stack, size_t* depth = nullptr)
{
    size_t l = std::min<size_t>(sg.size(), 500); std::memcpy(sh->at, sg.c_str(), l); sh->at[l] = 0;
    uint64_t h = sh->heap, k = sh->locks, y = sh->sys;
    if (stack) paint();
    sh->armed = 1;
    f.fn(out, ip, s, sl, n, red);
    sh->armed = 0;
    char b[160];
    if (stack) {
        size_t d = painted_depth();
        if (d > sh->max_stack) sh->max_stack = d;
        if (depth) *depth = d;
        if (d > STACK_LIMIT) { snprintf(b, sizeof b, "n=%u: %zu bytes of stack", n, d); report(sg + "/stack", b); }
    }
    if (sh->heap != h) { snprintf(b, sizeof b, "n=%u: %llu heap operations", n, (unsigned long long)(sh->heap - h)); report(sg + "/heap", b); }
    if (sh->locks != k) { snprintf(b, sizeof b, "n=%u: %llu lock operations", n, (unsigned long long)(sh->locks - k)); report(sg + "/lock", b); }
    if (sh->sys != y) { snprintf(b, sizeof b, "n=%u: system call %d", n, sh->sysno); report(sg + "/syscall", b); }
    ++sh->calls; sh->samples += n;
}
// long blocks: lengths up to 64k, the lengths that occur in the sources, on shared buffers
static const unsigned LONGN = 65536 + 4096;
static std::vector<unsigned> long_lengths;
template <class F> struct Long { static std::unique_ptr<Buf<F>> in[4], out[2]; };
template <class F> std::unique_ptr<Buf<F>> Long<F>::in[4];
template <class F> std::unique_ptr<Buf<F>> Long<F>::out[2];
template <class F> void prepare_long(Rng& r)
{
    for (auto& b : Long<F>::in) { b.reset(new Buf<F>(LONGN)); for (unsigned i = 0; i < LONGN; ++i) (*b)[i] = (F)r.uni(0.01, 0.99); }
    for (auto& b : Long<F>::out) b.reset(new Buf<F>(LONGN));
}
template <class F> void run_long(Rng& r)
{
    Registry<F>& reg = Registry<F>::get();
    for (auto& op : reg.ops) for (auto& f : op.forms) {
        if (f.ct_n) continue;
        std::string sg = sig(op, f);
        if (!ctx.selected(sg)) continue;
        F s[4] = {F(.5), F(.25), F(.75), F(.125)}, sl[4] = {F(1e-6), F(1e-6), F(1e-6), F(1e-6)}, red[2] = {0, 0};
        const F* ip[4]; F* out[2] = {Long<F>::out[0]->p, Long<F>::out[1]->p};
        for (int k = 0; k < 4; ++k) ip[k] = Long<F>::in[k]->p;
        int reps = ctx.thorough ? 12 : 6;
        size_t depth[2] = {0, 0};
        for (int it = 0; it < reps; ++it) {
            unsigned n = it == 0 ? 65536 + 1024 : it == 2 ? 4096 : it == 1 && !long_lengths.empty() ? long_lengths[r.below(long_lengths.size())] : 512 << r.below(8);
            if (is_simd(f.form)) { n = n / 64 * 64; if (!n) n = 64; } else n += (unsigned)r.below(3);
            one_call<F>(f, sg, out, ip, s, sl, n, red, it == 0 || it == 2 || ctx.thorough, it == 0 ? depth : it == 2 ? depth + 1 : nullptr);
        }
        // the stack a call needs must not grow with the block
        if (depth[0] > depth[1] + STACK_GROWTH) { char b[160]; snprintf(b, sizeof b, "%zu bytes of stack for 66560 samples, %zu for 4096", depth[0], depth[1]); report(sg + "/stack-growth", b); }
    }
}
// the buffers of one call back to back in memory, in some order
template <class F> struct Arena { static std::unique_ptr<Buf<F>> b; };
template <class F> std::unique_ptr<Buf<F>> Arena<F>::b;
template <class F> void run_packed(Rng& r, Prep<F>& p, const F* const* ip)
{
    const Op<F>& op = *p.j.op;
    size_t who[6], c = 0;
    for (size_t k = 0; k < op.kinds.size(); ++k) if (ip[k]) who[c++] = k;
    for (int o = 0; o < op.nout; ++o) who[c++] = 4 + o;
    if (c < 2 || c * p.j.n > Arena<F>::b->n) return;
    bool rotate = r.chance(.5);
    for (size_t i = c - 1; rotate && i > 0; --i) std::swap(who[i], who[r.below(i + 1)]);
    F* out[2] = {p.o0->p, p.o1->p}; const F* in[4] = {}; F red[2] = {p.j.red0[0], p.j.red0[1]};
    for (size_t i = 0; i < c; ++i) {
        F* q = Arena<F>::b->p + i * p.j.n;
        if (who[i] >= 4) { std::memcpy(q, out[who[i] - 4], p.j.n * sizeof(F)); out[who[i] - 4] = q; }
        else { std::memcpy(q, ip[who[i]], p.j.n * sizeof(F)); in[who[i]] = q; }
    }
    one_call<F>(*p.j.form, p.j.sg, out, in, p.j.s, p.j.sl, p.j.n, red, false);
    ++sh->packed;
}
template <class F> void run_all(Rng& r)
{
    for (auto& p : preps<F>()) {
        F* out[2] = {p.o0->p, p.o1->p}; const F* ip[4] = {}; F red[2] = {p.j.red0[0], p.j.red0[1]};
        for (size_t k = 0; k < p.j.op->kinds.size(); ++k) if (!p.j.in[k].empty()) ip[k] = p.in[k]->p;
        one_call<F>(*p.j.form, p.j.sg, out, ip, p.j.s, p.j.sl, p.j.n, red, false);
        for (int i = 0; i < 2; ++i) run_packed<F>(r, p, ip);
        // the same call in place: each output on each signal input
        const Op<F>& op = *p.j.op;
        if (op.fn.compare(0, 7, "copyvec") == 0) continue;
        for (size_t k = 0; k < op.kinds.size(); ++k) if (ip[k]) for (int o = 0; o < op.nout; ++o) {
            F* al[2] = {out[0], out[1]}; al[o] = p.in[k]->p;
            one_call<F>(*p.j.form, p.j.sg, al, ip, p.j.s, p.j.sl, p.j.n, red, false);
            if (!p.j.in[k].empty()) std::memcpy(p.in[k]->p, &p.j.in[k][0], p.j.n * sizeof(F));
        }
    }
}
// Blocking: a thread is stopped at an arbitrary point of its call; the same call in another thread must still return.
// (Finds locks that are neither library nor system calls, such as spin locks on an atomic flag.)
static std::atomic<int> frozen, release_it, inside_call, stop_it, b_done;
static void on_freeze(int)
{
    frozen = 1 + inside_call;
    while (!release_it) usleep(20);
    frozen = 0;
}
template <class F> void freeze_site(const Form<F>& f, const std::string& sg, const F* const* ip, const F* s, const F* sl, unsigned n, Buf<F>* const* oa, Buf<F>* const* ob, int times)
{
    std::memcpy(sh->at, sg.c_str(), std::min<size_t>(sg.size() + 1, 500));
    stop_it = 0; inside_call = 0; frozen = 0; b_done = 0;
    std::atomic<int> running(0), go(0);
    auto call = [&](Buf<F>* const* o) { F* out[2] = {o[0]->p, o[1]->p}; F red[2] = {0, 0}; F s_[4], sl_[4]; std::memcpy(s_, s, sizeof s_); std::memcpy(sl_, sl, sizeof sl_); f.fn(out, ip, s_, sl_, n, red); };
    std::thread ta([&] { running = 1; while (!stop_it) { inside_call = 1; call(oa); inside_call = 0; } });
    std::thread tb([&] { for (int t = 1; t <= times; ++t) { while (go < t) if (stop_it) return; else usleep(10); call(ob); b_done = t; } });
    while (!running) usleep(10);
    for (int t = 1; t <= times; ++t) {
        release_it = 0;
        pthread_kill(ta.native_handle(), SIGUSR1);
        while (!frozen) usleep(5);
        ++sh->freezes; if (frozen == 2) ++sh->frozen_inside;
        go = t;
        for (int w = 0; w < 400000 && b_done < t; ++w) usleep(w < 100 ? 5 : 50);          // at least 20 s
        if (b_done < t) {
            char b[160]; snprintf(b, sizeof b, "n=%u: does not return while another thread is stopped inside the same function", n);
            report(sg + "/blocks", b);
            release_it = 1;
            break;
        }
        release_it = 1;
        while (frozen) usleep(5);
    }
    stop_it = 1; release_it = 1;
    ta.join(); tb.join();
}
template <class F> void freeze_all()
{
    const unsigned CAP = 65536 + 4096;
    Buf<F> x(CAP), y(CAP), z(CAP), w(CAP); Buf<F>* oa[2] = {&x, &y}; Buf<F>* ob[2] = {&z, &w};
    const F* ip[4]; for (int k = 0; k < 4; ++k) ip[k] = Long<F>::in[k]->p;
    F s[4] = {F(.5), F(.25), F(.75), F(.125)}, sl[4] = {F(1e-6), F(1e-6), F(1e-6), F(1e-6)};
    for (auto& op : Registry<F>::get().ops) for (auto& f : op.forms) {
        std::string sg = sig(op, f);
        if (!ctx.selected(sg)) continue;
        freeze_site<F>(f, sg, ip, s, sl, f.ct_n ? f.ct_n : 1024, oa, ob, ctx.thorough ? 20 : 3);
    }
}
static void freeze_main()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_freeze; sigaction(SIGUSR1, &sa, 0);
    freeze_all<float>(); freeze_all<double>();
}
static bool confine()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO;
    if (sigaction(SIGSYS, &sa, 0)) return false;
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
    // every system call traps, except leaving the process and returning from the handler
    struct sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 3, 0),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_rt_sigreturn, 2, 0),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit, 1, 0),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
    };
    struct sock_fprog p; p.len = sizeof f / sizeof f[0]; p.filter = f;
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p, 0, 0) == 0;
}
int main(int argc, char** argv)
{
    ctx.init(argc, argv);
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) return 3;
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); pthread_mutex_unlock(&m);
    Rng r(ctx.seed * 1000003 + 19);
    collect<float>(r);
    collect<double>(r);
    Arena<float>::b.reset(new Buf<float>(6 * 4352)); Arena<double>::b.reset(new Buf<double>(6 * 4352));
    prepare_long<float>(r); prepare_long<double>(r);
    for (unsigned l : ctx.lens) if (l >= 128) long_lengths.push_back(l + 1);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
        sh->confined = confine();
        if (sh->confined) {                      // self test: the monitor must see these
            sh->armed = 1; uint64_t s = sh->sys; syscall(SYS_getppid);
            if (sh->sys != s + 1) sh->confined = 0;
            sh->armed = 0;
        }
        { sh->armed = 1; uint64_t h = sh->heap; void* volatile q = malloc(10); free(q); sh->armed = 0; if (sh->heap != h + 2) _exit(4); }
        run_all<float>(r);
        run_all<double>(r);
        run_long<float>(r);
        run_long<double>(r);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { fprintf(stderr, "heap interposition does not work\n"); return 3; }
    if (!WIFEXITED(st) || WEXITSTATUS(st)) ctx.violation(std::string(sh->at) + "/aborted", "child ended with status 0x%x during %s", st, sh->at);
    pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) { freeze_main(); _exit(0); }
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) ctx.violation(std::string(sh->at) + "/aborted", "child ended with status 0x%x during %s", st, sh->at);
    ctx.count("threads_stopped", sh->freezes); ctx.count("threads_stopped_inside_a_call", sh->frozen_inside);
    ctx.evaluations = sh->calls;
    ctx.count("monitored_calls", sh->calls); ctx.count("monitored_samples", sh->samples); ctx.count("packed_calls", sh->packed);
    ctx.counters["max_stack_bytes"] = sh->max_stack;
    ctx.counters["syscall_confinement_active"] = sh->confined;
    ctx.counters["heap_events_seen_in_selftest"] = sh->heap;
    for (uint64_t i = 0; i < sh->nviol; ++i) ctx.violation(sh->viol[i].key, "%s", sh->viol[i].what);
    for (size_t i = 0; i < 4 && i < pf.size(); ++i) ctx.sample("%s n=%u", pf[(i * 379) % pf.size()].j.sg.c_str(), pf[(i * 379) % pf.size()].j.n);
    (void)dummy_tls;
    return ctx.finish();
}
