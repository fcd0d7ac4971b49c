// Registry of the operations of the SIMD vector class, one common call shape.
#pragma once
#include "mon.hpp"
namespace mon {
// a, b, c: vectors (vec_size lanes, 64-byte aligned); k: lane index / shift count; out: vec_size lanes; red: scalar result
template <class F> using vcall_t = void (*)(F* a, const F* b, const F* c, int k, F* out, F* red);
template <class F> struct VecOp { const char* name; const char* shape; vcall_t<F> fn; };
template <class F> struct VecRegistry {
    std::vector<VecOp<F>> ops;
    int size = 0;
    bool full = false;       // intrinsic implementation: bit masks are all-ones/all-zero
    static VecRegistry& get();
};
} // namespace mon
