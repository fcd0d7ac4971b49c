#pragma once
template <class F> struct Entry98 { const char *fn, *kinds, *form; int ct; void (*call)(F* const*, const F* const*, const F*, const F*, unsigned, F*); };
template <class F> struct Table98 { int spl, vec_size; const Entry98<F>* rows; };
