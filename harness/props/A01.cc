// A01: the symmetric ordering returns a permutation and a truthful status for any input
#include "ord.h"
using namespace pbt;

static double alpha_of (Src &s)
{
    switch (s.pick ({3, 2, 2, 2, 1, 1})) { case 0: return AMD_DEFAULT_DENSE; case 1: return -1; case 2: return (double) s.range (0, 40) / 8; case 3: return 0; case 4: return s.oneof<double> ({1e6, 1e9, 1e10, 1e19, 1e300, INFINITY}); default: return s.oneof<double> ({-0.0, -1e-300, -1e300, -INFINITY, 1e-300}); }
}
struct Ctl
{
    double c [AMD_CONTROL]; bool null; std::string before;
    Ctl (Src &s) { null = s.chance (1, 4); for (auto &x : c) x = 12.5; c [AMD_DENSE] = alpha_of (s); c [AMD_AGGRESSIVE] = s.oneof<double> ({1, 0, 2, -1, 0.5, 0.0}); before.assign ((char *) c, sizeof c); }
    double *get () { return null ? NULL : c; }
    bool same () { return before == std::string ((char *) c, sizeof c); }
};

template <class T> static void one (Src &s, Ctx &c, int64_t n, const Pres &p, int want, const char *wname)
{
    Csc<T> A (p, s.chance (1, 3) ? s.range (1, 20) : 0); Ctl k (s); bool info = s.chance (3, 4);
    double I [AMD_INFO]; for (auto &x : I) x = 77; Arr<T> P (n); for (size_t q = 0; q < P.n; q++) P [q] = (T) -9;
    auto p0 = A.p.vec (), i0 = A.i.vec ();
    int v = Amd<T>::valid ((T) n, (T) n, A.p.p, A.i.p);
    CHECK (v == want, "valid", wname << " validity check returned " << v << ", expected " << want);
    bool oom = s.chance (1, 6); uint64_t at = oom ? s.range (1, 6) : 0; bool forever = s.flip ();
    if (oom) mem::plan (at, forever);
    int r = Amd<T>::order ((T) n, A.p.p, A.i.p, P.p, k.get (), info ? I : NULL);
    bool hit = mem::failed > 0; mem::plan (0, false);
    c.describe ([&] (std::ostream &o) { o << "\n" << wname << ": dense " << k.c [0] << ", aggressive " << k.c [1] << (k.null ? " (not passed)" : "") << (oom ? ", failing request " + std::to_string (at) : "") << " -> " << r; });
    CHECK (p0 == A.p.vec () && i0 == A.i.vec (), "modified", wname << " ordering changed its input");
    CHECK (k.same (), "modified", wname << " ordering changed the control settings");
    CHECK (out::text.empty (), "output", "the ordering printed: " << out::text);
    CHECK (mem::outstanding () == 0 && !mem::bad_free, "memory", mem::outstanding () << " blocks left, " << mem::bad_what);
    if (hit)
    {
        c.label ("out of memory");
        CHECK (r == AMD_OUT_OF_MEMORY, "status", wname << " ordering returned " << r << " although request " << at << " failed");
        if (info) CHECK (I [AMD_STATUS] == AMD_OUT_OF_MEMORY, "info", "reported status is " << I [AMD_STATUS]);
        r = Amd<T>::order ((T) n, A.p.p, A.i.p, P.p, k.get (), info ? I : NULL);      // and now with memory
    }
    if (n == 0) want = AMD_OK;
    CHECK (r == want, "status", wname << " ordering returned " << r << ", expected " << want);
    if (info) { CHECK (I [AMD_STATUS] == want, "info", "reported status is " << I [AMD_STATUS] << ", returned " << want); CHECK (I [AMD_N] == n, "info", "reported size is " << I [AMD_N]); }
    CHECK (is_perm_vec (P.vec (), n), "perm", wname << " result is not a permutation");
    CHECK (mem::outstanding () == 0 && !mem::bad_free, "memory", mem::outstanding () << " blocks left, " << mem::bad_what);
}

template <class T> static void bad (Src &s, Ctx &c, const Pat &A0, const char *wname)
{
    Pres p = gen::present (s, A0, s.pick ({1, 1, 1, 1})); int64_t n = A0.n; size_t nz = 0; for (auto &x : p) nz += x.size ();
    Csc<T> A (p); T nn = (T) n; const T *ap = A.p.p, *ai = A.i.p; Arr<T> P (n); T *pp = P.p; bool vtoo = true, rejected = true; std::string what;
    const T lo = std::numeric_limits<T>::min (), hi = std::numeric_limits<T>::max ();
    switch (s.pick ({4, 4, 4, 2, 2, 1, 1, 1, 1}))
    {
        case 0: if (!nz) throw Discard (); { size_t q = s.draw (nz); T v = s.oneof<T> ({(T) n, (T) -1, (T) (n + 1), lo, hi, (T) -2}); A.i [q] = v; what = "index " + std::to_string (q) + " is " + std::to_string (v); } break;
        case 1: if (n < 2) throw Discard (); { size_t q = s.range (1, n - 1); T v = s.flip () ? (T) (A.p [q - 1] - s.range (1, 4)) : s.oneof<T> ({(T) -1, lo}); A.p [q] = v; what = "pointer " + std::to_string (q) + " is " + std::to_string (v); } break;
        case 2: if (n < 2) throw Discard (); { size_t q = s.range (1, n - 1); T v = s.flip () ? (T) (nz + s.range (1, 30)) : s.oneof<T> ({hi, (T) (nz + 1), (T) 1000000}); A.p [q] = v; what = "pointer " + std::to_string (q) + " is " + std::to_string (v) + " of " + std::to_string (nz); } break;
        case 3: if (n < 1) throw Discard (); { T v = (T) s.oneof<int> ({1, -1, 2, -100, 1000}); A.p [0] = v; what = "pointer 0 is " + std::to_string (v); } break;
        case 4: if (n < 1) throw Discard (); { T v = s.oneof<T> ({(T) -1, lo, (T) -5}); A.p [n] = v; what = "last pointer is " + std::to_string (v); } break;
        case 5: nn = s.oneof<T> ({(T) -1, lo, (T) -7}); what = "negative size"; break;
        case 6: ap = NULL; what = "no pointers"; break;
        case 7: ai = NULL; what = "no indices"; break;
        default: pp = NULL; vtoo = false; what = "no result array";
    }
    double I [AMD_INFO]; for (auto &x : I) x = 77; bool info = s.chance (3, 4); Ctl k (s);
    c.describe ([&] (std::ostream &o) { o << show (p, n) << " " << wname << ": " << what; }); c.label ("malformed"); c.mix (what);
    auto p0 = A.p.vec (), i0 = A.i.vec ();
    int r = Amd<T>::order (nn, ap, ai, pp, k.get (), info ? I : NULL);
    CHECK (r == AMD_INVALID, "status", wname << " ordering of malformed input returned " << r);
    if (info) CHECK (I [AMD_STATUS] == AMD_INVALID, "info", "reported status of malformed input is " << I [AMD_STATUS]);
    if (vtoo) { int v = Amd<T>::valid (nn, nn, ap, ai); CHECK (v == AMD_INVALID, "valid", wname << " validity check of malformed input returned " << v); }
    CHECK (k.same () && p0 == A.p.vec () && i0 == A.i.vec (), "modified", "an argument was changed");
    CHECK (out::text.empty (), "output", "the ordering printed: " << out::text);
    CHECK (mem::outstanding () == 0 && !mem::bad_free, "memory", mem::outstanding () << " blocks left, " << mem::bad_what);
}

// the validity check also accepts rectangular patterns
template <class T> static void rect (Src &s, Ctx &c, const char *wname)
{
    int64_t m = s.size (0, 12), n = s.size (0, 12); Pat A; A.m = m; A.n = n; A.col.resize (n);
    if (m) for (auto &x : A.col) { int64_t k = s.size (0, 6); while (k--) x.push_back (s.draw (m)); }
    A.clean (); Pres p = gen::present (s, A, s.pick ({1, 1, 1, 1})); int want = jumbled (p) ? AMD_OK_BUT_JUMBLED : AMD_OK; size_t nz = 0; for (auto &x : p) nz += x.size ();
    Csc<T> B (p); T mm = (T) m, nn = (T) n;
    if (nz && s.chance (1, 3)) { B.i [s.draw (nz)] = s.oneof<T> ({(T) m, (T) (m + 1), (T) -1, std::numeric_limits<T>::max ()}); want = AMD_INVALID; }
    else if (s.chance (1, 8)) { (s.flip () ? mm : nn) = (T) -1; want = AMD_INVALID; }
    c.describe ([&] (std::ostream &o) { o << show (p, m) << " rectangular, expected " << want; });
    auto p0 = B.p.vec (), i0 = B.i.vec ();
    int v = Amd<T>::valid (mm, nn, B.p.p, B.i.p);
    CHECK (v == want, "valid", wname << " validity check returned " << v << ", expected " << want);
    CHECK (p0 == B.p.vec () && i0 == B.i.vec (), "modified", "an argument was changed");
}

static void run (Src &s, Ctx &c)
{
    Tracked tr; int what = s.pick ({12, 3, 1}); c.nontrivial = true;
    if (what == 2) { if (s.flip ()) rect<int> (s, c, "32-bit"); else rect<SLong> (s, c, "64-bit"); c.mix (s.count ()); return; }
    int64_t maxn = s.pick ({6, 3, 1}) == 0 ? 16 : s.chance (1, 6) ? (c.thorough ? 600 : 250) : 60;
    int64_t n = s.size (what == 0 ? 0 : 1, maxn);
    if (s.chance (1, 4000)) { n = s.range (800, c.thorough ? 6000 : 3000); c.label ("n >= 800"); }
    Pat A = gen::pattern_of (s, gen::graph (s, c, n, s.chance (1, 6)));
    key_of_pat (c, A);
    if (what == 1) { if (s.flip ()) bad<int> (s, c, A, "32-bit"); else bad<SLong> (s, c, A, "64-bit"); return; }
    Pres p = gen::present (s, A, s.pick ({3, 2, 2, 2})); int want = jumbled (p) ? AMD_OK_BUT_JUMBLED : AMD_OK;
    if (want) c.label ("jumbled");
    c.describe ([&] (std::ostream &o) { o << show (p, n); });
    for (auto &x : p) for (auto i : x) c.mix (i);
    int w = (int) s.draw (3);
    if (w != 1) one<int> (s, c, n, p, want, "32-bit");
    if (w != 0) one<SLong> (s, c, n, p, want, "64-bit");
}
Prop pbt::the_prop = {"A01", "a case is a square pattern built from random, band, grid, clique, dense-row, twin, tree and complete graphs, presented sorted or not, with or without duplicates, upper, lower or full, ordered with generated controls in one or both integer widths (and once with a failing allocation), or a malformed variant of it; every case is non-trivial", 1000000, 20000000, run};
