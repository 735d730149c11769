// C01: the column ordering returns a permutation and a truthful status for any input
#include "col.h"
using namespace pbt;

template <class T> static void check_stats (Ctx &c, const ColRun<T> &r, const Pres &p, int64_t m)
{
    const char *w = Col<T>::name (); Jumble j = jumble_of (p); int64_t n = p.size ();
    CHECK (r.ret == 1, "status", w << " returned " << r.ret << " with status " << r.st [COLAMD_STATUS]);
    CHECK (is_perm_vec (r.perm, n), "perm", w << " result is not a permutation");
    CHECK (r.st [COLAMD_STATUS] == (j.any ? COLAMD_OK_BUT_JUMBLED : COLAMD_OK), "status", w << " status is " << r.st [COLAMD_STATUS] << " for " << (j.any ? "jumbled" : "clean") << " input");
    if (j.any) { c.label ("jumbled"); CHECK (r.st [4] == j.col && r.st [5] == j.row && r.st [6] == j.count, "details", w << " details are " << r.st [4] << ", " << r.st [5] << ", " << r.st [6] << ", expected " << j.col << ", " << j.row << ", " << j.count); }
    CHECK (r.st [0] >= 0 && r.st [0] <= m && r.st [1] >= 0 && r.st [1] <= n && r.st [2] >= 0, "counts", w << " counts are " << r.st [0] << ", " << r.st [1] << ", " << r.st [2]);
    if (r.st [2]) c.label ("garbage collection");
    CHECK (out::text.empty (), "output", "the ordering printed: " << out::text);
}

template <class T> static void one (Src &s, Ctx &c, const Pat &A, const Pres &p)
{
    const char *w = Col<T>::name (); int64_t m = A.m, n = A.n; size_t nz = 0; for (auto &x : p) nz += x.size ();
    size_t need = need_of (nz, m, n), rec = Col<T>::rec ((T) nz, (T) m, (T) n);
    CHECK (rec == need + nz / 5, "recommended", w << " recommended size for " << nz << " entries, " << m << "x" << n << " is " << rec);
    Knobs k (s); int64_t alen = 0; bool small = false;
    switch (s.pick ({3, 3, 2, 1})) { case 0: alen = rec; break; case 1: alen = need + s.range (0, 3); break; case 2: alen = rec + s.size (0, 300); break;
        default: small = true; alen = s.pick ({3, 1, 1}) ? s.oneof<int64_t> ({0, -1, -2, std::numeric_limits<T>::min (), (int64_t) nz, -1000}) : (int64_t) need - s.range (1, 5); if (alen >= (int64_t) need) alen = (int64_t) need - 1; }
    c.describe ([&] (std::ostream &o) { o << "\n" << w << ": room " << alen << " (needed " << need << ", recommended " << rec << "), " << k.show (); });
    ColRun<T> r (p, m, alen, k.get ());
    CHECK (k.same (), "modified", w << " changed the knobs");
    if (small)
    {
        c.label ("too little room");
        CHECK (r.ret == 0 && r.st [COLAMD_STATUS] == COLAMD_ERROR_A_too_small, "status", w << " with room " << alen << " of " << need << " returned " << r.ret << ", status " << r.st [COLAMD_STATUS]);
        CHECK (r.st [4] == (T) need && r.st [5] == (T) alen, "details", w << " details are " << r.st [4] << ", " << r.st [5] << ", expected " << need << ", " << alen);
    }
    else check_stats<T> (c, r, p, m);
    if (s.chance (1, 8)) { Col<T>::report (r.st, s.flip ()); CHECK (out::text.find (small ? "ERROR" : "OK") != std::string::npos, "report", "the report says: " << out::text); out::text.clear (); }
}

template <class T> static void bad (Src &s, Ctx &c, const Pat &A0)
{
    const char *w = Col<T>::name (); Pres p = gen::present (s, A0, s.pick ({1, 1, 1, 1})); int64_t m = A0.m, n = A0.n; size_t nz = 0; for (auto &x : p) nz += x.size ();
    Csc<T> in (p); size_t alen = need_of (nz, m, n) + s.range (0, 20); Arr<T> A (alen); for (size_t k = 0; k < alen; k++) A [k] = k < nz ? in.i [k] : (T) -99;
    T st [COLAMD_STATS]; for (auto &x : st) x = 99; T *ap = A.p, *pp = in.p.p, *sp = st; T mm = (T) m, nn = (T) n, al = (T) alen; const T lo = std::numeric_limits<T>::min (), hi = std::numeric_limits<T>::max ();
    int code = 0; int64_t d [3] = {0, 0, 0}; int nd = 0; std::string what; Knobs k (s);
    switch (s.pick ({4, 4, 3, 2, 2, 1, 1, 1, 1, 1}))
    {
        case 0: if (!nz) throw Discard (); { size_t q = s.draw (nz); T v = s.oneof<T> ({(T) m, (T) -1, (T) (m + 1), lo, hi}); A [q] = v; code = COLAMD_ERROR_row_index_out_of_bounds; int64_t j = 0; while ((size_t) in.p [j + 1] <= q) j++; d [0] = j; d [1] = v; d [2] = m; nd = 3; what = "index " + std::to_string (q) + " is " + std::to_string (v); } break;
        case 1: if (n < 2) throw Discard (); { int64_t q = s.range (1, n - 1); T v = s.flip () ? (T) (in.p [q - 1] - s.range (1, 4)) : s.oneof<T> ({(T) -1, (T) -1000000, lo}); in.p [q] = v; code = COLAMD_ERROR_col_length_negative; d [0] = q - 1; d [1] = (int64_t) v - in.p [q - 1]; nd = v == lo ? 1 : 2; what = "pointer " + std::to_string (q) + " is " + std::to_string (v); } break;
        case 2: if (n < 2) throw Discard (); { int64_t q = s.range (1, n - 1); T v = s.oneof<T> ({(T) (in.p [n] + s.range (1, 30)), (T) 1000000, hi}); in.p [q] = v; int64_t j = q; code = COLAMD_ERROR_col_length_negative; d [0] = j; d [1] = (int64_t) in.p [j + 1] - v; nd = 2; what = "pointer " + std::to_string (q) + " is " + std::to_string (v) + " of " + std::to_string (nz); } break;
        case 3: { T v = (T) s.oneof<int> ({1, -1, 3, -100, 1000}); if (n == 0) { if (v < 0) v = 1; } in.p [0] = v; code = COLAMD_ERROR_p0_nonzero; d [0] = v; nd = 1; what = "pointer 0 is " + std::to_string (v); } break;
        case 4: { T v = s.oneof<T> ({(T) -1, lo, (T) -5}); in.p [n] = v; code = COLAMD_ERROR_nnz_negative; d [0] = v; nd = 1; what = "last pointer is " + std::to_string (v); } break;
        case 5: mm = s.oneof<T> ({(T) -1, lo, (T) -7}); code = COLAMD_ERROR_nrow_negative; d [0] = mm; nd = 1; what = "negative rows"; break;
        case 6: nn = s.oneof<T> ({(T) -1, lo, (T) -7}); code = COLAMD_ERROR_ncol_negative; d [0] = nn; nd = 1; what = "negative columns"; break;
        case 7: ap = NULL; code = COLAMD_ERROR_A_not_present; what = "no indices"; break;
        case 8: pp = NULL; code = COLAMD_ERROR_p_not_present; what = "no pointers"; break;
        default: sp = NULL; what = "no statistics";
    }
    // several wild pointers at once: far up and down again
    if (code == COLAMD_ERROR_col_length_negative && n >= 4 && s.chance (1, 4)) { in.p [1] = hi; in.p [2] = lo; for (int64_t j = 3; j < n; j++) in.p [j] = (T) -1; d [0] = 1; nd = 1; what = "pointers wrap around"; }
    c.describe ([&] (std::ostream &o) { o << show (p, m) << " " << w << ": " << what; }); c.label ("malformed"); c.mix (what);
    int r = Col<T>::col (mm, nn, al, ap, pp, k.get (), sp);
    CHECK (r == 0, "status", w << " accepted malformed input (" << what << ")");
    if (sp) { CHECK (st [COLAMD_STATUS] == code, "status", w << " status of malformed input (" << what << ") is " << st [COLAMD_STATUS] << ", expected " << code); for (int q = 0; q < nd; q++) CHECK (st [4 + q] == (T) d [q], "details", w << " detail " << q << " is " << st [4 + q] << ", expected " << d [q]); }
    CHECK (k.same (), "modified", "the knobs were changed"); CHECK (out::text.empty (), "output", "the ordering printed: " << out::text);
    Col<T>::report (sp, false); CHECK (out::text.find (sp ? "ERROR" : "No statistics") != std::string::npos, "report", "the report says: " << out::text); out::text.clear ();
}

template <class T> static void recommended (Src &s, Ctx &c)
{
    const T hi = std::numeric_limits<T>::max (); T v [3];
    for (auto &x : v) switch (s.pick ({3, 2, 2, 1})) { case 0: x = (T) s.range (0, 1000); break; case 1: x = (T) (hi - s.range (0, 20)); break; case 2: x = (T) (hi / s.range (2, 30)) + (T) s.range (0, 5); break; default: x = s.oneof<T> ({(T) -1, std::numeric_limits<T>::min (), (T) -100}); }
    typedef unsigned __int128 U; size_t r = Col<T>::rec (v [0], v [1], v [2]); size_t want = 0;
    if (v [0] >= 0 && v [1] >= 0 && v [2] >= 0) { U t = (U) v [0] * 2 + (U) 6 * ((U) v [2] + 1) + (U) 4 * ((U) v [1] + 1) + (U) v [2] + (U) (v [0] / 5);
        // the sizes of the structures are computed in bytes, which must fit as well
        bool fits = t < (U) hi && ((U) v [2] + 1) * 6 * sizeof (T) <= (U) (size_t) -1 && ((U) v [1] + 1) * 4 * sizeof (T) <= (U) (size_t) -1; want = fits ? (size_t) t : 0; }
    c.describe ([&] (std::ostream &o) { o << Col<T>::name () << " recommended (" << v [0] << ", " << v [1] << ", " << v [2] << ") = " << r; }); c.label ("recommended size"); for (auto x : v) c.mix ((uint64_t) x);
    CHECK (r == want, "recommended", Col<T>::name () << " recommended size for " << v [0] << ", " << v [1] << ", " << v [2] << " is " << r << ", expected " << want);
}

static void run (Src &s, Ctx &c)
{
    Tracked tr; c.nontrivial = true; int what = s.pick ({12, 4, 1});
    if (what == 2) { if (s.flip ()) recommended<int> (s, c); else recommended<SLong> (s, c); return; }
    int64_t mx = s.pick ({6, 3, 1}) == 0 ? 14 : s.chance (1, 6) ? (c.thorough ? 400 : 200) : 50; int64_t m = s.size (0, mx), n = s.size (0, mx);
    if (s.chance (1, 4000)) { int64_t big = c.thorough ? 6000 : 3000; m = s.range (s.flip () ? 500 : 20, big); n = s.range (s.flip () ? 500 : 20, big); c.label ("hundreds to thousands of rows or columns"); }
    Pat A = gen::rectangular (s, c, m, n); key_of_pat (c, A);
    if (what == 1) { if (s.flip ()) bad<int> (s, c, A); else bad<SLong> (s, c, A); return; }
    Pres p = gen::present (s, A, s.pick ({3, 2, 2, 2})); for (auto &x : p) for (auto i : x) c.mix (i);
    c.describe ([&] (std::ostream &o) { o << show (p, m); });
    int w = (int) s.draw (3); if (w != 1) one<int> (s, c, A, p); if (w != 0) one<SLong> (s, c, A, p);
}
Prop pbt::the_prop = {"C01", "a case is a rectangular pattern (random, band, dense rows and columns, equal columns, edges, blocks, empty columns) in a generated presentation, ordered with generated knobs and amount of room in one or both integer widths, a malformed variant of it, or a recommended-size query; every case is non-trivial", 3000000, 20000000, run};
