// C02: the symmetric variant returns a permutation, leaves its input alone and returns all memory
#include "col.h"
using namespace pbt;

// the allocator handed to the function: zeroed blocks, a ledger, one failing request
namespace al
{
    static std::map<void *, size_t> live; static int calls, fail_at, bad; static size_t total; static bool failed;
    static void reset (int f = 0) { for (auto &b : live) ::free (b.first); live.clear (); calls = bad = 0; fail_at = f; total = 0; failed = false; }
    static void *get (size_t n, size_t z) { if (++calls == fail_at) { failed = true; return NULL; } void *p = ::calloc (n, z); live [p] = n * z; total += n * z; return p; }
    static void put (void *p) { if (!live.erase (p)) { bad++; return; } ::free (p); }
}

template <class T> struct Sym
{
    int ret; Arr<T> A, p, P; T st [COLAMD_STATS]; std::vector<int64_t> perm; Csc<T> in;
    Sym (const Pres &c, double *knobs, int fail = 0) : in (c)
    {
        size_t n = c.size (); A.make (in.i.n); for (size_t k = 0; k < A.n; k++) A [k] = in.i [k]; p.make (n + 1); for (size_t k = 0; k <= n; k++) p [k] = in.p [k];
        P.make (n + 1); for (size_t k = 0; k <= n; k++) P [k] = -7; for (auto &x : st) x = 99; al::reset (fail);
        ret = Col<T>::sym ((T) n, A.p, p.p, P.p, knobs, st, al::get, al::put); perm = P.vec (); perm.resize (n);
        CHECK (A.vec () == in.i.vec (), "modified", Col<T>::name () << " changed the row indices"); CHECK (p.vec () == in.p.vec (), "modified", Col<T>::name () << " changed the column pointers");
        ledger ();
    }
    static void ledger ()
    {
        CHECK (al::bad == 0, "released", "a block not from the given allocator (or already released) was released"); CHECK (al::live.empty (), "leak", al::live.size () << " blocks were not released");
        CHECK (mem::outstanding () == 0, "foreign", "memory came from another allocator");
        CHECK (out::text.empty (), "output", "the ordering printed: " << out::text);
    }
};

template <class T> static void check_ok (Ctx &c, const Sym<T> &r, const Pres &p)
{
    const char *w = Col<T>::name (); int64_t n = p.size (); Jumble j = jumble_of (p);
    CHECK (r.ret == 1, "status", w << " returned " << r.ret << " with status " << r.st [3]);
    CHECK (is_perm_vec (r.perm, n), "perm", w << " result is not a permutation");
    CHECK (r.st [3] == (j.any ? COLAMD_OK_BUT_JUMBLED : COLAMD_OK), "status", w << " status is " << r.st [3] << " for " << (j.any ? "jumbled" : "clean") << " input");
    if (j.any) { c.label ("jumbled"); CHECK (r.st [4] == j.col && r.st [5] == j.row && r.st [6] == j.count, "details", w << " details are " << r.st [4] << ", " << r.st [5] << ", " << r.st [6] << ", expected " << j.col << ", " << j.row << ", " << j.count); }
    CHECK (r.st [0] == r.st [1] && r.st [0] >= 0 && r.st [0] <= n && r.st [2] >= 0, "counts", w << " counts are " << r.st [0] << ", " << r.st [1] << ", " << r.st [2]);
}

template <class T> static void good (Src &s, Ctx &c, const Pat &A)
{
    const char *w = Col<T>::name (); Pres p = gen::present (s, A, s.pick ({3, 2, 2, 2})); for (auto &x : p) for (auto i : x) c.mix (i);
    Knobs k (s); c.describe ([&] (std::ostream &o) { o << show (p, A.m) << " " << w << ", " << k.show (); });
    Sym<T> r (p, k.get ()); CHECK (k.same (), "modified", w << " changed the knobs"); check_ok<T> (c, r, p); int calls = al::calls;
    if (s.chance (1, 8)) { Col<T>::report (r.st, true); CHECK (out::text.find ("symamd") != std::string::npos && out::text.find ("OK") != std::string::npos, "report", "the report says: " << out::text); out::text.clear (); }

    // every allocation may fail
    if (s.chance (1, 4))
    {
        c.label ("allocation failures"); CHECK (calls >= 1, "allocator", "the given allocator was not used");
        for (int f = 1; f <= calls; f++) { Sym<T> q (p, k.get (), f); CHECK (al::failed, "allocator", "request " << f << " was not made again"); CHECK (q.ret == 0 && q.st [3] == COLAMD_ERROR_out_of_memory, "out-of-memory", w << " returned " << q.ret << " with status " << q.st [3] << " when allocation " << f << " of " << calls << " failed"); }
        if (s.flip ()) { Sym<T> q (p, k.get (), 1); Col<T>::report (q.st, true); CHECK (out::text.find ("ERROR") != std::string::npos, "report", "the report says: " << out::text); out::text.clear (); }
    }
    // only the strictly lower part matters: another upper part and diagonal, the lower part presented the same way
    if (s.chance (1, 2))
    {
        c.label ("upper part replaced"); Pres q (p.size ()); int64_t n = A.n; int mode = s.pick ({2, 2, 1});
        bool jl = false; { Pres lo (p.size ()); for (int64_t j = 0; j < n; j++) for (auto i : p [j]) if (i > j) lo [j].push_back (i); jl = jumbled (lo); }
        for (int64_t j = 0; j < n; j++)
        {
            std::set<int64_t> up; if (mode) { int64_t e = s.size (0, 3); while (e--) up.insert (s.draw (j + 1)); if (mode == 2) for (int64_t i = 0; i <= j; i++) if (s.flip ()) up.insert (i); }
            for (auto i : up) q [j].push_back (i);
            for (auto i : p [j]) if (i > j) q [j].push_back (i);
        }
        Sym<T> t (q, k.get ()); check_ok<T> (c, t, q);
        // the order of the rows of the internal matrix is that of the lower part: exactly the same ordering
        CHECK (t.perm == r.perm, "upper", w << " ordering depends on the upper part or the diagonal" << (jl ? " (jumbled lower part)" : "")); CHECK (t.st [0] == r.st [0], "upper", w << " number of dense rows depends on the upper part: " << r.st [0] << ", " << t.st [0]);
    }
}

template <class T> static void bad (Src &s, Ctx &c, const Pat &A0)
{
    const char *w = Col<T>::name (); Pres p = gen::present (s, A0, s.pick ({1, 1, 1, 1})); int64_t n = A0.n; Csc<T> in (p); size_t nz = in.i.n;
    T st [COLAMD_STATS]; for (auto &x : st) x = 99; T *ap = in.i.p, *pp = in.p.p, *sp = st; T nn = (T) n; const T lo = std::numeric_limits<T>::min (), hi = std::numeric_limits<T>::max ();
    int code = 0; int64_t d [3] = {0, 0, 0}; int nd = 0; std::string what; Knobs k (s);
    switch (s.pick ({4, 4, 3, 2, 2, 1, 1, 1, 1}))
    {
        case 0: if (!nz) throw Discard (); { size_t q = s.draw (nz); T v = s.oneof<T> ({(T) n, (T) -1, (T) (n + 1), lo, hi}); ap [q] = v; code = COLAMD_ERROR_row_index_out_of_bounds; int64_t j = 0; while ((size_t) in.p [j + 1] <= q) j++; d [0] = j; d [1] = v; d [2] = n; nd = 3; what = "index " + std::to_string (q) + " is " + std::to_string (v); } break;
        case 1: if (n < 2) throw Discard (); { int64_t q = s.range (1, n - 1); T v = s.flip () ? (T) (in.p [q - 1] - s.range (1, 4)) : s.oneof<T> ({(T) -1, (T) -1000000, lo}); in.p [q] = v; code = COLAMD_ERROR_col_length_negative; d [0] = q - 1; d [1] = (int64_t) v - in.p [q - 1]; nd = v == lo ? 1 : 2; what = "pointer " + std::to_string (q) + " is " + std::to_string (v); } break;
        case 2: if (n < 2) throw Discard (); { int64_t q = s.range (1, n - 1); T v = s.oneof<T> ({(T) (in.p [n] + s.range (1, 30)), (T) 1000000, hi}); in.p [q] = v; code = COLAMD_ERROR_col_length_negative; d [0] = q; d [1] = (int64_t) in.p [q + 1] - v; nd = 2; what = "pointer " + std::to_string (q) + " is " + std::to_string (v) + " of " + std::to_string (nz); } break;
        case 3: { T v = (T) s.oneof<int> ({1, -1, 3, -100, 1000}); if (n == 0 && v < 0) v = 1; in.p [0] = v; code = COLAMD_ERROR_p0_nonzero; d [0] = v; nd = 1; what = "pointer 0 is " + std::to_string (v); } break;
        case 4: { T v = s.oneof<T> ({(T) -1, lo, (T) -5}); in.p [n] = v; code = COLAMD_ERROR_nnz_negative; d [0] = v; nd = 1; what = "last pointer is " + std::to_string (v); } break;
        case 5: nn = s.oneof<T> ({(T) -1, lo, (T) -7}); code = COLAMD_ERROR_ncol_negative; d [0] = nn; nd = 1; what = "negative size"; break;
        case 6: ap = NULL; code = COLAMD_ERROR_A_not_present; what = "no indices"; break;
        case 7: pp = NULL; code = COLAMD_ERROR_p_not_present; what = "no pointers"; break;
        default: sp = NULL; what = "no statistics";
    }
    if (code == COLAMD_ERROR_col_length_negative && n >= 4 && s.chance (1, 4)) { in.p [1] = hi; in.p [2] = lo; for (int64_t j = 3; j < n; j++) in.p [j] = (T) -1; d [0] = 1; nd = 1; what = "pointers wrap around"; }
    c.describe ([&] (std::ostream &o) { o << show (p, A0.m) << " " << w << ": " << what; }); c.label ("malformed"); c.mix (what);
    Arr<T> P (n + 1); al::reset (); auto bi = in.i.vec (), bp = in.p.vec (); int r = Col<T>::sym (nn, ap, pp, P.p, k.get (), sp, al::get, al::put);
    CHECK (r == 0, "status", w << " accepted malformed input (" << what << ")");
    if (sp) { CHECK (st [3] == code, "status", w << " status of malformed input (" << what << ") is " << st [3] << ", expected " << code); for (int q = 0; q < nd; q++) CHECK (st [4 + q] == (T) d [q], "details", w << " detail " << q << " is " << st [4 + q] << ", expected " << d [q] << " (" << what << ")"); }
    Sym<T>::ledger (); CHECK (k.same () && in.i.vec () == bi && in.p.vec () == bp, "modified", "an input was changed");
    Col<T>::report (sp, true); CHECK (out::text.find (sp ? "ERROR" : "No statistics") != std::string::npos, "report", "the report says: " << out::text); out::text.clear ();
}

static void run (Src &s, Ctx &c)
{
    Tracked tr; c.nontrivial = true; int64_t mx = s.pick ({6, 3, 1}) == 0 ? 14 : s.chance (1, 6) ? (c.thorough ? 300 : 120) : 40; int64_t n = s.size (0, mx);
    if (s.chance (1, 4000)) { n = s.range (400, c.thorough ? 4000 : 1500); c.label ("n >= 400"); }
    Adj g = gen::graph (s, c, n, s.chance (1, 6)); int sym = s.pick ({2, 2, 1, 3}); Pat A = gen::pattern_of (s, g, sym); key_of_pat (c, A);
    bool wide = s.flip (), b = s.chance (1, 4); if (b) { if (wide) bad<SLong> (s, c, A); else bad<int> (s, c, A); } else if (wide) good<SLong> (s, c, A); else good<int> (s, c, A);
}
Prop pbt::the_prop = {"C02", "a case is a square pattern (graphs of many kinds; symmetric, lower, upper or mixed) in a generated presentation, ordered by symamd with generated knobs and a ledgered allocator (all allocation failures, upper part replaced), or a malformed variant of it; every case is non-trivial", 1200000, 8000000, run};
