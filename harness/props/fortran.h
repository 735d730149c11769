// the Fortran orderings called on a stored graph
#pragma once
#include "ord.h"
using namespace pbt;
extern "C" {
void amd_ (int *n, int *pe, int *iw, int *len, int *iwlen, int *pfree, int *nv, int *next, int *last, int *head, int *elen, int *degree, int *ncmpa, int *w);
void amdbar_ (int *n, int *pe, int *iw, int *len, int *iwlen, int *pfree, int *nv, int *next, int *last, int *head, int *elen, int *degree, int *ncmpa, int *w);
}
struct Form { std::vector<int64_t> place, gap; };     // where each row is stored
struct F
{
    int n, iwlen, pf0, pfree, ncmpa = -9; Arr<int> pe, iw, len, nv, next, last, head, elen, degree, w; std::vector<int64_t> P;
    F (const Adj &g, const Form &f, int64_t elbow, bool bar, uint64_t junk)
    {
        n = (int) g.size (); int64_t k = 0; for (int i = 0; i < n; i++) k += g [i].size () + f.gap [i]; pf0 = pfree = (int) k + 1; iwlen = (int) (pfree - 1 + elbow);
        for (auto a : {&pe, &len, &nv, &next, &last, &head, &elen, &degree, &w}) { a->make (n); for (int i = 0; i < n; i++) (*a) [i] = (int) (mix64 (junk++) >> 40); }
        iw.make (iwlen); for (int q = 0; q < iwlen; q++) iw [q] = q < pf0 - 1 ? (int) (mix64 (junk++) >> 60) : -1000 - q; k = 0;
        for (int t = 0; t < n; t++) { int i = (int) f.place [t]; pe [i] = g [i].empty () ? (junk & 1 ? 0 : 12345) : (int) k + 1; len [i] = (int) g [i].size (); for (auto j : g [i]) iw [k++] = (int) j + 1; k += f.gap [i]; }
        (bar ? amdbar_ : amd_) (&n, pe.p, iw.p, len.p, &iwlen, &pfree, nv.p, next.p, last.p, head.p, elen.p, degree.p, &ncmpa, w.p);
        for (int i = 0; i < n; i++) P.push_back ((int64_t) last [i] - 1);
    }
};
