// X02: the MATLAB gateways of the ordering packages
#include "mx.h"
#include "col.h"
using namespace pbt;
extern "C" { void gate_amd (int, mxArray **, int, const mxArray **); void gate_colamd (int, mxArray **, int, const mxArray **); void gate_symamd (int, mxArray **, int, const mxArray **); }
enum { AMD, COL, SYM };
static const char *gname [] = {"amd", "colamd", "symamd"};
typedef std::vector<double> DV;

static void one (Src &s, Ctx &c, int call)
{
    int g = s.pick ({3, 3, 3}); mx::Gate gate = g == AMD ? gate_amd : g == COL ? gate_colamd : gate_symamd; int64_t mx_ = s.pick ({4, 1}) == 0 ? 14 : 45;
    int64_t n = s.size (0, mx_), m = n; Pat A; if (g == COL) { m = s.size (0, mx_); A = gen::rectangular (s, c, m, n); } else A = gen::pattern_of (s, gen::graph (s, c, n), s.pick ({2, 1, 1, 1}));
    bool full = s.chance (1, 4); Pres p = full ? A.col : gen::present (s, A, s.pick ({4, 1, 1, 1})); key_of_pat (c, A); c.mix (g); c.mix (full);
    // settings: some leading part of the vector
    size_t nk = g == SYM ? 2 : 3, given = s.draw (nk + 2); bool arg = s.chance (3, 4); if (!arg) given = 0; given = std::min (given, nk); DV k;
    for (size_t q = 0; q < given; q++) k.push_back (q + 1 == nk ? s.oneof<double> ({0, 1, 0, 2}) : s.oneof<double> ({10, -1, 0, 1, 0.5, 3, 5}));
    if (g == AMD && given >= 2) k [1] = s.oneof<double> ({1, 0}); bool talk = given == nk && k [nk - 1] != 0;
    // faults
    std::string why; int nout = (int) s.range (0, 2); int bad = s.chance (1, 5) ? (int) s.range (1, 6) : 0;
    mx::In a, kv = given || !s.chance (1, 2) ? mx::full (given ? 1 : 0, given, k) : mx::full (0, 0, {}); if (s.flip ()) std::swap (kv->dims [0], kv->dims [1]);
    auto build = [&] { if (full) { DV v (m * n, 0); for (int64_t j = 0; j < n; j++) for (auto i : p [j]) v [i + j * m] = 1 + (double) s.draw (3); return mx::full (m, n, v); } std::vector<std::vector<std::pair<int64_t, double>>> q (n); for (int64_t j = 0; j < n; j++) for (auto i : p [j]) q [j].push_back ({i, 1.0 + (double) s.draw (3)}); return mx::sparse (m, q, s.draw (4)); };
    a = build (); std::vector<const mxArray *> in {a.get ()}; if (arg) in.push_back (kv.get ());
    switch (bad)
    {
        case 1: if (g == COL || full) break; if (s.flip ()) { p.push_back ({}); n++; } else m++; a = build (); in [0] = a.get (); why = "rectangular matrix"; break;
        case 2: if (g == COL) break; n = s.range (0, 5); m = n + s.range (1, 3); a = mx::full (m, n, DV (m * n, 1)); in [0] = a.get (); why = "rectangular full matrix"; break;
        case 3: a = mx::full (2, 4, DV (8, 1)); a->dims = {2, 2, 2}; in [0] = a.get (); why = "three dimensions"; break;
        case 4: while (in.size () < 3) in.push_back (kv.get ()); why = "too many arguments"; break;
        case 5: nout = 3; why = "too many results"; break;
        case 6: if (full || !A.nnz ()) break; a->ir [s.draw (a->jc [n])] = s.oneof<int64_t> ({m, m + 1, -1, 1LL << 40}); why = "index out of range"; break;
    }
    if (bad == 0 && s.chance (1, 20)) { in.clear (); if (g != AMD) why = "no arguments"; }
    c.describe ([&] (std::ostream &o) { o << "call " << call << ": " << gname [g] << (full ? " full " : " ") << show (p, m) << "; settings"; for (double d : k) o << " " << d; if (!arg) o << " not passed"; o << "; " << nout << " results" << (why.empty () ? "" : "; error: " + why) << "\n"; });
    c.label (std::string (gname [g]) + (why.empty () ? "" : ": " + why)); if (full) c.label ("full matrix");
    // what the package itself says
    std::vector<int64_t> want; DV info; mem::reset (); Tracked *none = NULL; (void) none;
    if (why.empty () && !in.empty ())
    {
        Csc<SLong> B (p);
        if (g == AMD) { double C [AMD_CONTROL] = {0}, I [AMD_INFO]; amd_l_defaults (C); if (given > 0) C [0] = k [0]; if (given > 1) C [1] = k [1]; Arr<SLong> P (n); int r = (int) amd_l_order (n, B.p.p, B.i.p, P.p, C, I); CHECK (r >= 0, "reference", "amd returned " << r); want = P.vec (); info.assign (I, I + AMD_INFO); }
        else
        {
            double C [COLAMD_KNOBS]; colamd_l_set_defaults (C); for (size_t q = 0; q + 1 < nk && q < given; q++) C [q] = k [q]; SLong st [COLAMD_STATS]; 
            if (g == COL) { size_t nz = B.i.n; size_t al = colamd_l_recommended (nz, m, n); ColRun<SLong> r (p, m, al, C); CHECK (r.ret, "reference", "colamd returned " << r.ret); want = r.perm; std::copy (r.st, r.st + COLAMD_STATS, st); }
            else { Arr<SLong> P (n + 1); int r = (int) symamd_l (n, B.i.p, B.p.p, P.p, C, st, calloc, free); CHECK (r, "reference", "symamd returned " << r); want = P.vec (); want.resize (n); }
            st [COLAMD_INFO1]++; st [COLAMD_INFO2]++; info.assign (st, st + COLAMD_STATS);
        }
        mx::printed.clear ();
    }
    std::string sna = mx::snap (a.get ()), snk = mx::snap (kv.get ()); mx::Result r = mx::call (gate, nout, in);
    CHECK (sna == mx::snap (a.get ()) && snk == mx::snap (kv.get ()), "modified", "an argument was changed"); CHECK (!mem::bad_free, "memory", mem::bad_what);
    if (!why.empty ()) { CHECK (r.error, "accepted", gname [g] << " raises no error: " << why); CHECK (!r.msg.empty (), "message", "the error has no message"); return; }
    CHECK (!r.error, "error", gname [g] << " reports '" << r.msg << "'"); CHECK (r.left == 0, "leak", gname [g] << " leaves " << r.left << " blocks besides the results"); const mxArray *P = r.out [0]; CHECK (P && P->cls == mxDOUBLE_CLASS && !P->sparse, "result", gname [g] << ": no result");
    if (in.empty ())
    {
        CHECK (P->m () == AMD_CONTROL && P->n () == 1, "defaults", "the default settings are " << P->m () << " by " << P->n ()); double C [AMD_CONTROL] = {0}; amd_l_defaults (C); for (int q = 0; q < 2; q++) CHECK (P->pr [q] == C [q], "defaults", "default setting " << q << " is " << P->pr [q]);
        CHECK ((nout > 0) == mx::printed.empty (), "output", "printed " << mx::printed.size () << " characters"); c.label ("defaults"); return;
    }
    CHECK (talk == !mx::printed.empty (), "output", gname [g] << " printed " << mx::printed.size () << " characters");
    CHECK (P->m () == 1 && P->n () == (size_t) n, "size", gname [g] << " result is " << P->m () << " by " << P->n ());
    for (int64_t q = 0; q < n; q++) CHECK (P->pr [q] == (double) want [q] + 1, "value", gname [g] << "(" << q + 1 << ") is " << P->pr [q] << ", expected " << want [q] + 1);
    if (nout == 2) { const mxArray *I = r.out [1]; CHECK (I && I->cls == mxDOUBLE_CLASS && I->count () == info.size (), "statistics", gname [g] << " statistics are missing"); CHECK (g == AMD ? I->n () == 1 : I->m () == 1, "statistics", "statistics are " << I->m () << " by " << I->n ()); for (size_t q = 0; q < info.size (); q++) CHECK (I->pr [q] == info [q], "statistics", gname [g] << " statistic " << q << " is " << I->pr [q] << ", expected " << info [q]); }
    else CHECK (!r.out [std::max (nout, 1) - 1] || nout <= 1, "statistics", "an unexpected result");
    c.nontrivial = n > 1;
}
static void run (Src &s, Ctx &c)
{
    Tracked tr; SuiteSparse_config.malloc_func = mxMalloc; SuiteSparse_config.calloc_func = mxCalloc; SuiteSparse_config.realloc_func = mxRealloc; SuiteSparse_config.free_func = mxFree; SuiteSparse_config.printf_func = mexPrintf;
    int calls = (int) s.range (1, 3); for (int q = 0; q < calls; q++) one (s, c, q);
}
Prop pbt::the_prop = {"X02", "a case is one to three calls of the MATLAB gateways of amd, colamd and symamd, in a model of MATLAB's array interface, with generated sparse (also unsorted) or full matrices, leading parts of the settings vector and faulty arguments; non-trivial if a matrix with at least two columns was ordered", 900000, 8000000, run};
