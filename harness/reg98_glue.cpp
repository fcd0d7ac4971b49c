#include "mon.hpp"
#include "reg98.hpp"
extern const Table98<REG_F> REG_TAB;
static int init = [] {
    mon::Registry<REG_F>& r = mon::Registry<REG_F>::get();
    r.spl = REG_TAB.spl; r.vec_size = REG_TAB.vec_size;
    for (const Entry98<REG_F>* e = REG_TAB.rows; e->fn; ++e) {
        mon::Op<REG_F>* o = r.ops.empty() ? nullptr : &r.ops.back();
        if (!o || o->fn != e->fn || o->kinds != e->kinds) {
            mon::Op<REG_F> n;
            n.fn = e->fn; n.kinds = e->kinds; n.nout = 1; n.nred = 0; n.inout = n.out_unaligned = false;
            r.ops.push_back(n); o = &r.ops.back();
        }
        o->forms.push_back(mon::Form<REG_F>{e->form, e->ct, e->call});
    }
    return 0;
}();
