// A seed-determined sequence of library calls with legal, hostile arguments; shared by the monitors that
// do not judge values themselves (sanitizer, purity, real-time, cross-build log).
#pragma once
#include "util.hpp"
namespace util {
template <class F> struct Job {
    const Op<F>* op; const Form<F>* form;
    unsigned n;
    std::vector<F> in[4];
    F s[4], sl[4], red0[2];
    std::vector<F> out0[2];       // previous contents of the outputs
    std::string sg;
};
template <class F> F job_value(Rng& r, Fn fn, int pos, int prof)
{
    double u = r.unit();
    if (u < 0.6) switch (fn) {       // mostly inside the useful domain, the rest anywhere
    case FN_sin: case FN_cos: case FN_tan: return (F)r.uni(-100, 100);
    case FN_asin: case FN_acos: return (F)r.uni(-1, 1);
    case FN_log: case FN_log2: case FN_log10: case FN_freq2midi: case FN_freq2oct: case FN_ratio2midi: case FN_amp2db: return (F)std::exp(r.uni(-8, 8));
    case FN_pow: case FN_spow: return pos ? (F)r.uni(-3, 3) : (F)r.uni(0.1, 10);
    case FN_midi2freq: case FN_midi2ratio: case FN_db2amp: return (F)r.uni(-100, 100);
    case FN_exp: case FN_oct2freq: return (F)r.uni(-20, 20);
    default: break;
    }
    return gen_value<F>(r, prof);
}
// values any legal caller may pass: every finite or non-finite sample is legal input
template <class F> void make_job(Rng& r, const Op<F>& op, const Form<F>& f, unsigned n, int prof, Job<F>& j)
{
    j.op = &op; j.form = &f; j.n = n; j.sg = sig(op, f);
    int na = (int)op.kinds.size();
    Fn fn = fn_id(op.fn, na);
    for (int k = 0; k < na; ++k) {
        j.s[k] = job_value<F>(r, fn, k, prof); j.sl[k] = op.kinds[k] == 'r' ? (F)(r.uni(-1, 1) / n) : F(0);
        if (op.kinds[k] == 'v' || op.kinds[k] == 'V') { j.in[k].resize(n); for (unsigned i = 0; i < n; ++i) j.in[k][i] = job_value<F>(r, fn, k, prof); }
        else j.in[k].clear();
        if (n > 1 && !j.in[k].empty() && r.chance(.15)) shape_block(r, j.in[k].data(), n, r.chance(.4) ? "0" : nullptr);
    }
    if (fn != FN_pow && fn != FN_spow) relate<F>(r, op.kinds.c_str(), j.s, j.sl, false, n);
    for (int k = 0; k < op.nout; ++k) { j.out0[k].resize(n); for (unsigned i = 0; i < n; ++i) j.out0[k][i] = gen_value<F>(r, op.inout ? prof : P_UNIT); }
    j.red0[0] = (F)r.below(4); j.red0[1] = (F)r.below(4);
}
} // namespace util
