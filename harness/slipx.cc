#include "slipx.h"
#include <cstdarg>
#include <cassert>
#include <execinfo.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks (void (*) (const volatile void *, size_t), void (*) (const volatile void *));
using namespace pbt;

//------------------------------------------------------------------------------
namespace mem {
std::unordered_map<void *, size_t> live;
uint64_t calls = 0, fail_at = 0, failed = 0, bad_free = 0; bool fail_forever = false; std::string bad_what; size_t peak_request = 0; uint64_t requested = 0; size_t limit = (size_t) 1 << 33;
static unsigned char fillb = 0xA5;
static bool fails (size_t n)
{
    calls++;
    if (n > peak_request) peak_request = n;
    requested += n;
    if (n > limit) return true;        // nobody has that much
    if (fail_at && (calls == fail_at || (fail_forever && calls >= fail_at))) { failed++; return true; }
    return false;
}
// debugging aid: MEM_BT=file records where the blocks still alive were allocated
static std::unordered_map<void *, std::string> trace; static bool bt = getenv ("MEM_BT") != NULL;
static void note (void *p)
{
    void *a [24]; int k = backtrace (a, 24); char **t = backtrace_symbols (a, k); std::string o = "call " + std::to_string (calls) + ":";
    for (int i = 1; i < k && i < 16; i++) { o += "\n   "; o += t [i]; } ::free (t); trace [p] = o;
}
void explain () { if (!bt) return; FILE *f = fopen (getenv ("MEM_BT"), "a"); for (auto &x : live) fprintf (f, "block of %zu bytes, %s\n", x.second, trace [x.first].c_str ()); fclose (f); }
// In some cases a freed block is handed out again at once to the next request of its size (like most allocators do, and unlike
// AddressSanitizer's): what the library remembers about an address must not be used for what lives there later.
static bool recycle = false; static std::unordered_map<size_t, std::vector<void *>> spare; static size_t spares = 0;
#ifdef __SANITIZE_ADDRESS__
extern "C" { void __asan_poison_memory_region (void const volatile *, size_t); void __asan_unpoison_memory_region (void const volatile *, size_t); }
static void lock (void *p, size_t n) { __asan_poison_memory_region (p, n); }
static void unlock (void *p, size_t n) { __asan_unpoison_memory_region (p, n); }
#else
static void lock (void *, size_t) {} 
static void unlock (void *, size_t) {}
#endif
static void *fresh (size_t n)
{
    if (!n) n = 1;
    if (recycle) { auto it = spare.find (n); if (it != spare.end () && !it->second.empty ()) { void *p = it->second.back (); it->second.pop_back (); spares -= n; unlock (p, n); return p; } }
    return ::malloc (n);
}
static void release (void *p, size_t n)
{
    if (!n) n = 1;
    if (recycle && n <= 1 << 16 && spares + n <= 8u << 20) { spare [n].push_back (p); spares += n; lock (p, n); } else ::free (p);
}
static void before_case (Src &s) { recycle = s.chance (1, 3); }
static bool hooked = (pbt::before = before_case, true);
static void *take (size_t n)
{
    void *p = fresh (n);
    if (bt) note (p);
    if (p) { memset (p, fillb, n); fillb = fillb * 5 + 0x3b; live [p] = n; }
    return p;
}
void *Malloc (size_t n) { Own o_; if (fails (n)) return NULL; return take (n); }
void *Calloc (size_t n, size_t s)
{
    Own o_;
    if (s && n > (size_t) -1 / s) { calls++; return NULL; }
    if (fails (n * s)) return NULL;
    void *p; if (n * s > 1 << 16) p = ::calloc (n * s, 1); else { p = fresh (n * s); if (p) memset (p, 0, n * s ? n * s : 1); }
    if (bt) note (p);
    if (p) live [p] = n * s; return p;
}
void *Realloc (void *p, size_t n)
{
    Own o_;
    if (p == NULL) return Malloc (n);
    auto it = live.find (p);
    if (it == live.end ()) { bad_free++; bad_what = "realloc of a block not owned"; return NULL; }
    if (fails (n)) return NULL;
    size_t old = it->second;
    void *q = take (n); if (!q) return NULL;
    memcpy (q, p, old < n ? old : n);
    live.erase (p); release (p, old);
    return q;
}
void Free (void *p)
{
    Own o_;
    if (!p) return;
    auto it = live.find (p);
    if (it == live.end ()) { bad_free++; bad_what = "free of a block not owned (or freed before)"; if (bt) { std::string was = trace [p]; note (p); trace [p] += "\nbefore: " + was; FILE *f = fopen (getenv ("MEM_BT"), "a"); fprintf (f, "bad free, %s\n", trace [p].c_str ()); fclose (f); } return; }
    if (bt) note (p);
    size_t n = it->second; live.erase (it); release (p, n);
}
void reset () { live.clear (); calls = fail_at = failed = bad_free = 0; fail_forever = false; bad_what.clear (); fillb = 0xA5; peak_request = 0; requested = 0; limit = (size_t) 1 << 33; }
int inside = 0, own = 0; bool watch = false; uint64_t foreign = 0; std::string foreign_what;
static void told (const char *w, const void *p, size_t n)
{
    own++; foreign++; void *a [12]; int k = backtrace (a, 12); char **t = backtrace_symbols (a, k); std::ostringstream o; o << w << " of " << n << " bytes directly from the system:"; for (int i = 3; i < k && i < 9; i++) o << "\n   " << t [i]; ::free (t); if (foreign_what.empty ()) foreign_what = o.str (); own--;
}
static void on_malloc (const volatile void *p, size_t n) { if (watch && inside && !own) told ("allocation", (const void *) p, n); }
static void on_free (const volatile void *p) { if (watch && inside && !own && p) told ("release", (const void *) p, 0); }
void watch_system () { static bool done = false; if (!done) __sanitizer_install_malloc_and_free_hooks (on_malloc, on_free); done = true; }
void plan (uint64_t at, bool forever) { calls = 0; failed = 0; fail_at = at; fail_forever = forever; }
size_t size_of (void *p) { auto it = live.find (p); return it == live.end () ? (size_t) -1 : it->second; }
}

//------------------------------------------------------------------------------
namespace ses {
void *(*g_alloc) (size_t) = 0; void *(*g_realloc) (void *, size_t, size_t) = 0; void (*g_free) (void *, size_t) = 0;
void capture () { mp_get_memory_functions (&g_alloc, &g_realloc, &g_free); }
void defaults () { mp_set_memory_functions (0, 0, 0); }
}
Session::Session (bool tracked)
{
    mem::reset ();
    SuiteSparse_config.printf_func = printf;
    ses::defaults ();
    SLIP_info r;
    if (tracked) r = SLIP_initialize_expert (mem::Malloc, mem::Calloc, mem::Realloc, mem::Free);
    else
    {
        SuiteSparse_config.malloc_func = ::malloc; SuiteSparse_config.calloc_func = ::calloc;
        SuiteSparse_config.realloc_func = ::realloc; SuiteSparse_config.free_func = ::free;
        r = SLIP_initialize ();
    }
    ses::capture (); ses::defaults ();
    open = true;
    CHECK (r == SLIP_OK, "status", "initialization returned " << info_name (r));
}
void Session::close ()
{
    if (!open) return;
    open = false;
    SLIP_info r = SUT (SLIP_finalize ());
    ses::defaults ();
    CHECK (r == SLIP_OK, "status", "finalization returned " << info_name (r));
}
Session::~Session () { if (open) { open = false; SUT (SLIP_finalize ()); ses::defaults (); } }

namespace out {
std::string text;
int Printf (const char *fmt, ...)
{
    mem::Own o_;
    char buf [65536]; va_list ap; va_start (ap, fmt); int r = vsnprintf (buf, sizeof buf, fmt, ap); va_end (ap);
    text += buf; return r;
}
void capture () { text.clear (); SuiteSparse_config.printf_func = Printf; }
void off () { SuiteSparse_config.printf_func = NULL; }
}

const char *info_name (int i)
{
    switch (i) { case 0: return "SLIP_OK"; case -1: return "SLIP_OUT_OF_MEMORY"; case -2: return "SLIP_SINGULAR";
        case -3: return "SLIP_INCORRECT_INPUT"; case -4: return "SLIP_INCORRECT"; case -5: return "SLIP_PANIC"; }
    static char b [32]; snprintf (b, 32, "status %d", i); return b;
}

template <class T> static std::string show_ (const SpM<T> &A)
{
    std::ostringstream o; o << A.m << "x" << A.n << ", " << A.e.size () << " entries:";
    size_t k = 0;
    for (auto &x : A.e) { if (k++ >= 120) { o << " ..."; break; } std::string v = x.v.get_str (); if (v.size () > 40) v = v.substr (0, 40) + "~" + std::to_string (v.size ()); o << " (" << x.i << "," << x.j << ")=" << v; }
    return o.str ();
}
std::string show (const ZM &A) { return show_ (A); }
std::string show (const QM &A) { return show_ (A); }

//------------------------------------------------------------------------------
namespace gen {
mpz_class bits (Src &s, int nbits)
{
    mpz_class z = 0;
    while (nbits > 0) { int b = std::min (nbits, 60); z = (z << b) + mpz_class ((unsigned long) s.draw (1ULL << b)); nbits -= b; }
    return z;
}
int int_kind (Src &s) { return s.pick ({6, 4, 3, 2, 2, 1, 2, 1}); }
mpz_class integer (Src &s, int kind, bool nonzero)
{
    mpz_class z;
    if (kind == 7) kind = s.pick ({3, 1, 2, 2, 2, 1, 2});               // every entry of a size of its own
    switch (kind)
    {
        case 0: z = (long) s.draw (10); break;                          // one digit
        case 1: z = (long) s.draw (2); break;                           // 0/1
        case 2: z = (long) s.draw (1000); break;
        case 3: z = bits (s, 31); break;
        case 4: z = bits (s, 63); break;
        case 5: { int b = (int) s.range (64, s.chance (1, 10) ? s.chance (1, 150) ? 20000 : 2500 : 400); z = bits (s, b); break; }
        default: // structured: powers of two, multiples, near powers
        {
            z = mpz_class (1) << (unsigned) s.draw (80);
            int d = s.pick ({3, 1, 1, 1});
            if (d == 1) z += 1; else if (d == 2) z -= 1; else if (d == 3) z *= (long) s.range (1, 12);
        }
    }
    if (nonzero && z == 0) z = 1;
    if (s.flip ()) z = -z;
    return z;
}
mpq_class rational (Src &s, int kind, bool nonzero)
{
    mpz_class a = integer (s, kind, nonzero), d = 1;
    if (s.flip ()) { d = abs (integer (s, kind, true)); }
    mpq_class q (a, d); q.canonicalize (); return q;
}
mpq_class scale (Src &s)
{
    int k = s.pick ({5, 2, 2, 1});
    mpq_class q = 1;
    if (k == 1) q = mpq_class ((long) s.range (1, 12), 1);
    else if (k == 2) { q = mpq_class (mpz_class ((long) s.range (1, 40)), mpz_class ((long) s.range (1, 40))); if (s.flip ()) q = -q; }
    else if (k == 3) q = mpq_class (abs (integer (s, 5, true)), abs (integer (s, 4, true)));
    q.canonicalize ();
    return q;
}

static void finish (Src &s, Ctx &c, ZM &A, std::map<std::pair<int64_t, int64_t>, mpz_class> &v, bool zeros)
{
    // v keyed by (col,row)
    bool scramble = s.flip ();
    if (zeros && A.n > 0 && s.chance (1, 4))
    {
        int64_t k = s.range (1, std::max<int64_t> (1, A.n));
        bool added = false;
        for (int64_t t = 0; t < k; t++)
        {
            int64_t i = s.draw (A.m), j = s.draw (A.n);
            if (!v.count ({j, i})) { v [{j, i}] = 0; added = true; }
        }
        if (added) c.label ("explicit zeros");
    }
    std::vector<std::vector<Ent<mpz_class>>> col (A.n);
    for (auto &x : v) col [x.first.first].push_back ({x.first.second, x.first.first, x.second});
    if (scramble) c.label ("unsorted rows");
    for (auto &cc : col) { if (scramble) s.shuffle (cc); for (auto &x : cc) A.e.push_back (x); }
}

static ZM square_ (Src &s, Ctx &c, const SqOpt &o, bool want_nonsing)
{
    ZM A;
    static const char *names [] = {"sparse", "dense", "band", "arrow", "blocks", "triangular", "lowrank+diag", "dependent", "signs", "laplacian", "deficient"};
    int shape = want_nonsing ? s.pick ({6, 4, 3, 2, 2, 2, 3, 2, 3, 2, 0}) : s.pick ({5, 3, 2, 2, 2, 2, 4, 5, 4, 2, 4});
    int64_t maxn = o.maxn;
    if (o.big_maxn && (shape == 0 || shape == 2 || shape == 3 || shape == 5) && s.chance (1, 20)) maxn = o.big_maxn;
    bool huge = o.huge_maxn && shape >= 2 && shape <= 5 && s.chance (1, o.huge_one_in);
    int64_t n = huge ? s.range (o.huge_maxn / 3, o.huge_maxn) : s.size (o.minn, maxn);
    A.m = A.n = n;
    int kind = int_kind (s);
    if (n > 16 && (kind == 5 || kind == 7)) kind = 4;
    if (huge) kind = s.pick ({3, 1, 1});
    std::map<std::pair<int64_t, int64_t>, mpz_class> v;
    auto val = [&] { return integer (s, kind, true); };
    auto P = [&] { return s.flip () ? s.perm (n) : [&] { std::vector<int64_t> p (n); for (int64_t i = 0; i < n; i++) p [i] = i; return p; } (); };
    switch (shape)
    {
        case 0: // spine + random entries
        {
            auto p = P (); for (int64_t i = 0; i < n; i++) v [{i, p [i]}] = val ();
            int64_t extra = s.range (0, n * (int64_t) s.pick ({1, 1, 1, 1, 1}) + n);
            for (int64_t t = 0; t < extra; t++) { int64_t i = s.draw (n), j = s.draw (n); v [{j, i}] = val (); }
            break;
        }
        case 1: { int z = (int) s.draw (3); for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < n; i++) { if (z && s.chance (z, 5)) continue; v [{j, i}] = val (); } break; }
        case 2: { int64_t w = s.range (1, 3); for (int64_t j = 0; j < n; j++) for (int64_t i = std::max<int64_t> (0, j - w); i <= std::min (n - 1, j + w); i++) if (i == j || s.chance (4, 5)) v [{j, i}] = val (); break; }
        case 3: { bool up = s.flip (); int64_t h = s.flip () ? n - 1 : 0; for (int64_t j = 0; j < n; j++) { v [{j, j}] = val (); v [{h, j}] = val (); if (up || s.flip ()) v [{j, h}] = val (); } break; }
        case 4: // block diagonal/triangular, permuted
        {
            auto p = P (), q = P (); int64_t i0 = 0;
            while (i0 < n)
            {
                int64_t b = s.range (1, std::min<int64_t> (4, n - i0));
                for (int64_t i = i0; i < i0 + b; i++) for (int64_t j = i0; j < i0 + b; j++) v [{q [j], p [i]}] = val ();
                if (i0 > 0 && s.flip ()) v [{q [i0], p [s.draw (i0)]}] = val ();
                i0 += b;
            }
            break;
        }
        case 5: { auto p = P (), q = P (); for (int64_t j = 0; j < n; j++) { v [{q [j], p [j]}] = val (); int64_t k = s.range (0, 3); for (int64_t t = 0; t < k && j > 0; t++) v [{q [j], p [s.draw (j)]}] = val (); } break; }
        case 6: // sum of a few outer products plus a sparse diagonal: many cancellations
        {
            int64_t r = s.range (1, 3); std::vector<ZV> u (r, ZV (n)), w (r, ZV (n));
            for (int64_t t = 0; t < r; t++) for (int64_t i = 0; i < n; i++) { u [t] [i] = (long) s.range (-2, 2); w [t] [i] = (long) s.range (-2, 2); }
            for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < n; i++) { mpz_class x = 0; for (int64_t t = 0; t < r; t++) x += u [t] [i] * w [t] [j]; if (x != 0) v [{j, i}] = x; }
            auto p = P ();
            for (int64_t i = 0; i < n; i++) if (want_nonsing ? true : s.chance (4, 5)) { v [{i, p [i]}] += val (); if (v [{i, p [i]}] == 0 && want_nonsing) v [{i, p [i]}] = 7; }
            break;
        }
        case 7: // a column (or row) that is a combination of others, perturbed by a unit or not
        {
            int z = (int) s.draw (3);
            ZD d (n, ZV (n));
            for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < n; i++) { if (i != j && z && s.chance (z, 4)) continue; d [i] [j] = val (); }
            if (n >= 2)
            {
                int64_t t = s.draw (n); bool row = s.flip (); ZV comb (n);
                int64_t terms = s.range (1, std::min<int64_t> (3, n - 1));
                for (int64_t q = 0; q < terms; q++)
                {
                    int64_t o2 = (t + 1 + (int64_t) s.draw (n - 1)) % n; mpz_class f = integer (s, s.flip () ? 0 : kind);
                    for (int64_t i = 0; i < n; i++) comb [i] += f * (row ? d [o2] [i] : d [i] [o2]);
                }
                for (int64_t i = 0; i < n; i++) (row ? d [t] [i] : d [i] [t]) = comb [i];
                if (want_nonsing || s.flip ()) { int64_t i = s.draw (n); (row ? d [t] [i] : d [i] [t]) += s.flip () ? 1 : -1; c.label ("unit perturbation"); }
            }
            for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < n; i++) if (d [i] [j] != 0) v [{j, i}] = d [i] [j];
            break;
        }
        case 8: { int z = (int) s.draw (4); for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < n; i++) { if (z && s.chance (z, 6)) continue; v [{j, i}] = s.flip () ? -1 : 1; } break; }
        case 9: // graph Laplacian (singular) with or without a grounded node
        {
            int64_t ne = s.range (n - 1, 2 * n);
            for (int64_t i = 0; i < n; i++) v [{i, i}] = 0;
            for (int64_t t = 0; t < ne && n > 1; t++)
            {
                int64_t a = t + 1 < n ? t + 1 : (int64_t) s.draw (n), b = s.draw (t + 1 < n ? t + 1 : n); if (a == b) continue;
                mpz_class w = abs (val ()); v [{a, b}] -= w; v [{b, a}] -= w; v [{a, a}] += w; v [{b, b}] += w;
            }
            if (want_nonsing || s.flip ()) v [{0, 0}] += abs (val ());
            for (auto it = v.begin (); it != v.end (); ) if (it->second == 0) it = v.erase (it); else ++it;
            break;
        }
        default: // structurally deficient: empty row, empty column, or too few columns for a set of rows
        {
            auto p = P (); for (int64_t i = 0; i < n; i++) v [{i, p [i]}] = val ();
            int64_t extra = s.range (0, 2 * n);
            for (int64_t t = 0; t < extra; t++) { int64_t i = s.draw (n), j = s.draw (n); v [{j, i}] = val (); }
            int what = (int) s.draw (3); int64_t t = s.draw (n);
            if (what == 2 && n >= 3)
            {   // k+1 columns confined to k rows
                int64_t k = s.range (1, n - 1);
                for (auto it = v.begin (); it != v.end (); ) if (it->first.first <= k && it->first.second >= k) it = v.erase (it); else ++it;
            }
            else for (auto it = v.begin (); it != v.end (); ) if ((what == 0 ? it->first.first : it->first.second) == t) it = v.erase (it); else ++it;
        }
    }
    c.label (std::string ("shape ") + names [shape]);
    c.label (n <= 2 ? "n 1-2" : n <= 6 ? "n 3-6" : n <= 12 ? "n 7-12" : n <= 24 ? "n 13-24" : n <= 60 ? "n 25-60" : "n >60");
    static const char *kn [] = {"digit", "0/1", "<1000", "31-bit", "63-bit", "huge", "pow2", "mixed"};
    c.label (std::string ("entries ") + kn [kind]);
    finish (s, c, A, v, o.explicit_zeros);
    return A;
}
ZM square (Src &s, Ctx &c, const SqOpt &o) { return square_ (s, c, o, false); }
ZM nonsing (Src &s, Ctx &c, const SqOpt &o) { return square_ (s, c, o, true); }

ZD rhs (Src &s, int64_t m, int64_t k, int kind)
{
    ZD b (m, ZV (k));
    for (int64_t j = 0; j < k; j++)
    {
        int style = s.pick ({5, 1, 2});
        if (style == 1) continue;                                // zero column
        for (int64_t i = 0; i < m; i++) if (style == 0 || s.chance (1, 4)) b [i] [j] = integer (s, kind);
    }
    return b;
}
void options (Src &s, SLIP_options *o)
{
    o->pivot = (SLIP_pivot) s.oneof<int> ({3, 0, 1, 2, 4, 5});
    o->order = (SLIP_col_order) s.oneof<int> ({1, 0, 2});
    static const double t [] = {1, 0, 0.5, 0.1, 0.25, 0.75, 0.01, 0.999, 1e-10};
    int k = (int) s.draw (10); o->tol = k < 9 ? t [k] : s.range (0, 1000) / 1000.0;
}
std::string show (const SLIP_options *o)
{
    if (!o) return "options NULL";
    std::ostringstream s; s << "pivot " << o->pivot << " order " << o->order << " tol " << o->tol << " prec " << o->prec << " round " << o->round << " check " << o->check << " print " << o->print_level; return s.str ();
}
}

//------------------------------------------------------------------------------
Mat mk_csc (const ZM &A, const mpq_class &scale, int64_t extra)
{
    Mat M; int64_t nz = (int64_t) A.e.size ();
    // some matrices have spare room, holding anything
    if (!extra && nz) { uint64_t h = pbt::mix64 (nz * 31 + A.n); for (auto &x : A.e) h = pbt::mix64 (h ^ (uint64_t) (x.i * 1000003 + x.j) ^ mpz_get_ui (x.v.get_mpz_t ())); if (h % 4 == 0) extra = 1 + (h >> 8) % ((h >> 40) % 4 ? 3 : 2 * nz); }
    SLIP_info r = SUT (SLIP_matrix_allocate (&M.p, SLIP_CSC, SLIP_MPZ, A.m, A.n, nz + extra, false, true, NULL));
    CHECK_OK (r, "SLIP_matrix_allocate");
    std::vector<int64_t> cnt (A.n + 1, 0);
    for (auto &x : A.e) cnt [x.j + 1]++;
    for (int64_t j = 0; j < A.n; j++) cnt [j + 1] += cnt [j];
    memcpy (M->p, cnt.data (), (A.n + 1) * sizeof (int64_t));
    std::vector<int64_t> w (cnt.begin (), cnt.end ());
    for (auto &x : A.e)
    {
        int64_t p = w [x.j]++;
        M->i [p] = x.i;
        SUT ((mpz_set (M->x.mpz [p], x.v.get_mpz_t ()), 0));
    }
    M->nz = nz % 3 ? 0 : nz % 2 ? -7 : 1000000;       // not used in this format
    for (int64_t p = nz; p < nz + extra; p++) { M->i [p] = (int64_t) 1 << 50; SUT ((mpz_set_si (M->x.mpz [p], 3), 0)); }
    SUT ((mpq_set (M->scale, scale.get_mpq_t ()), 0));
    return M;
}
Mat mk_dense (const ZD &B, int64_t m, int64_t n, const mpq_class &scale)
{
    Mat M;
    SLIP_info r = SUT (SLIP_matrix_allocate (&M.p, SLIP_DENSE, SLIP_MPZ, m, n, m * n, false, true, NULL));
    CHECK_OK (r, "SLIP_matrix_allocate");
    for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < m; i++) SUT ((mpz_set (M->x.mpz [i + j * m], B [i] [j].get_mpz_t ()), 0));
    M->nz = m % 3 ? 0 : n % 2 ? -7 : 1000000;
    SUT ((mpq_set (M->scale, scale.get_mpq_t ()), 0));
    return M;
}
mpq_class rd (const mpq_t q) { mpq_class r; mpq_set (r.get_mpq_t (), q); return r; }
mpz_class rd (const mpz_t z) { mpz_class r; mpz_set (r.get_mpz_t (), z); return r; }
mpq_class rd_mpfr (const mpfr_t f)
{
    CHECK (mpfr_number_p (f), "value", "multiple-precision value is not finite");
    if (mpfr_zero_p (f)) return 0;
    mpz_class z; mpfr_exp_t e = mpfr_get_z_2exp (z.get_mpz_t (), f);
    mpq_class q (z);
    if (e >= 0) mpq_mul_2exp (q.get_mpq_t (), q.get_mpq_t (), e); else mpq_div_2exp (q.get_mpq_t (), q.get_mpq_t (), -e);
    return q;
}
static void put (std::string &o, const void *p, size_t n) { o.append ((const char *) p, n); }
static void put_z (std::string &o, const mpz_t z)
{
    int64_t sz = z->_mp_size; put (o, &sz, 8); size_t k = sz < 0 ? -sz : sz; if (k && z->_mp_d) put (o, z->_mp_d, k * sizeof (mp_limb_t));
}
std::string snap (const SLIP_matrix *A)
{
    std::string o; if (!A) return "null";
    int64_t h [] = {A->m, A->n, A->nzmax, A->nz, (int64_t) A->kind, (int64_t) A->type, A->p_shallow, A->i_shallow, A->j_shallow, A->x_shallow,
        (int64_t) (intptr_t) A->p, (int64_t) (intptr_t) A->i, (int64_t) (intptr_t) A->j, (int64_t) (intptr_t) A->x.mpz};
    put (o, h, sizeof h);
    if (A->p) put (o, A->p, (A->n + 1) * 8);
    // only the entries in use; spare capacity may be uninitialized
    int64_t k = A->kind == SLIP_CSC ? (A->p ? A->p [A->n] : 0) : A->kind == SLIP_TRIPLET ? A->nz : A->m * A->n;
    if (k > A->nzmax) k = A->nzmax;          // (an invalid matrix; reported elsewhere)
    if (A->i) put (o, A->i, k * 8);
    if (A->j) put (o, A->j, k * 8);
    if (A->x.mpz) switch (A->type)
    {
        case SLIP_MPZ: for (int64_t t = 0; t < k; t++) put_z (o, A->x.mpz [t]); break;
        case SLIP_MPQ: for (int64_t t = 0; t < k; t++) { put_z (o, mpq_numref (A->x.mpq [t])); put_z (o, mpq_denref (A->x.mpq [t])); } break;
        case SLIP_MPFR: for (int64_t t = 0; t < k; t++) { mpfr_srcptr f = A->x.mpfr [t]; int64_t hh [] = {(int64_t) f->_mpfr_prec, (int64_t) f->_mpfr_sign, (int64_t) f->_mpfr_exp}; put (o, hh, sizeof hh); if (mpfr_regular_p (f)) put (o, f->_mpfr_d, ((f->_mpfr_prec + 63) / 64) * 8); } break;
        case SLIP_INT64: put (o, A->x.int64, k * 8); break;
        case SLIP_FP64: put (o, A->x.fp64, k * 8); break;
    }
    put_z (o, mpq_numref (A->scale)); put_z (o, mpq_denref (A->scale));
    return o;
}
std::string snap (const SLIP_LU_analysis *S, int64_t n)
{
    std::string o; if (!S) return "null"; int64_t h [] = {S->lnz, S->unz, (int64_t) (intptr_t) S->q}; put (o, h, sizeof h); put (o, S->q, n * 8); return o;
}
std::string snap (const SLIP_options *p)
{
    if (!p) return "null";
    std::ostringstream s; s << p->pivot << " " << p->order << " " << std::hexfloat << p->tol << " " << p->print_level << " " << p->prec << " " << p->round << " " << p->check; return s.str ();
}
void canonical (const mpq_t q, const char *what)
{
    CHECK (mpz_sgn (mpq_denref (q)) > 0, "canonical", what << ": denominator not positive");
    mpz_class g; mpz_gcd (g.get_mpz_t (), mpq_numref (q), mpq_denref (q));
    CHECK (g == 1, "canonical", what << ": not in lowest terms: " << rd (q));
}

//------------------------------------------------------------------------------
mpz_class det_bareiss (ZD a)
{
    int64_t n = a.size (); mpz_class prev = 1; int sign = 1;
    for (int64_t k = 0; k < n; k++)
    {
        int64_t p = k; while (p < n && a [p] [k] == 0) p++;
        if (p == n) return 0;
        if (p != k) { std::swap (a [p], a [k]); sign = -sign; }
        for (int64_t i = k + 1; i < n; i++)
        {
            for (int64_t j = k + 1; j < n; j++)
            {
                mpz_class t = a [i] [j] * a [k] [k] - a [i] [k] * a [k] [j];
                mpz_divexact (a [i] [j].get_mpz_t (), t.get_mpz_t (), prev.get_mpz_t ());
            }
            a [i] [k] = 0;
        }
        prev = a [k] [k];
    }
    if (n == 0) return 1;
    return sign < 0 ? mpz_class (-a [n - 1] [n - 1]) : a [n - 1] [n - 1];
}
int64_t rank_of (const ZD &in, int64_t m, int64_t n)
{
    ZD a = in; mpz_class prev = 1; int64_t r = 0;
    for (int64_t c = 0; c < n && r < m; c++)
    {
        int64_t p = r; while (p < m && a [p] [c] == 0) p++;
        if (p == m) continue;
        std::swap (a [p], a [r]);
        for (int64_t i = r + 1; i < m; i++)
        {
            for (int64_t j = c + 1; j < n; j++) { mpz_class t = a [i] [j] * a [r] [c] - a [i] [c] * a [r] [j]; mpz_divexact (a [i] [j].get_mpz_t (), t.get_mpz_t (), prev.get_mpz_t ()); }
            a [i] [c] = 0;
        }
        prev = a [r] [c]; r++;
    }
    return r;
}
void check_solution (const ZM &A, const mpq_class &sa, const ZD &b, const mpq_class &sb, int64_t k, const SLIP_matrix *X, const char *tag)
{
    CHECK (X != NULL, tag, "no solution object returned");
    CHECK (X->kind == SLIP_DENSE && X->type == SLIP_MPQ, tag, "solution is not a dense rational matrix: kind " << X->kind << " type " << X->type);
    CHECK (X->m == A.n && X->n == k, tag, "solution is " << X->m << "x" << X->n);
    CHECK (X->x.mpq != NULL, tag, "solution has no values");
    CHECK (mpq_cmp_ui (X->scale, 1, 1) == 0, tag, "solution scale is not 1");
    for (int64_t t = 0; t < k; t++)
    {
        // common denominator keeps this an integer computation
        mpz_class L = 1; ZV y (A.n);
        for (int64_t i = 0; i < A.n; i++) { canonical (X->x.mpq [i + t * A.n], tag); mpz_lcm (L.get_mpz_t (), L.get_mpz_t (), mpq_denref (X->x.mpq [i + t * A.n])); }
        for (int64_t i = 0; i < A.n; i++) { mpz_class q; mpz_divexact (q.get_mpz_t (), L.get_mpz_t (), mpq_denref (X->x.mpq [i + t * A.n])); y [i] = q * rd (mpq_numref (X->x.mpq [i + t * A.n])); }
        ZV r (A.m);
        for (auto &e : A.e) r [e.i] += e.v * y [e.j];
        // (1/sa) r / L == b / sb   <=>  r * sb == b * sa * L
        for (int64_t i = 0; i < A.m; i++)
        {
            mpq_class lhs = mpq_class (r [i]) * sb, rhs = mpq_class (b [i] [t] * L) * sa;
            CHECK (lhs == rhs, tag, "A*x != b in row " << i << ", right-hand side " << t << "; x0 = " << rd (X->x.mpq [t * A.n]));
        }
    }
}
QD solve_exact (const ZM &A, const mpq_class &sa, const ZD &b, const mpq_class &sb, int64_t k)
{
    int64_t n = A.n; QD a (n, QV (n + k));
    for (auto &e : A.e) a [e.i] [e.j] = mpq_class (e.v) / sa;
    for (int64_t i = 0; i < n; i++) for (int64_t t = 0; t < k; t++) a [i] [n + t] = mpq_class (b [i] [t]) / sb;
    for (int64_t c = 0; c < n; c++)
    {
        int64_t p = c; while (p < n && a [p] [c] == 0) p++;
        if (p == n) return QD ();
        std::swap (a [p], a [c]);
        for (int64_t i = 0; i < n; i++) if (i != c && a [i] [c] != 0)
        {
            mpq_class f = a [i] [c] / a [c] [c];
            for (int64_t j = c; j < n + k; j++) if (a [c] [j] != 0) a [i] [j] -= f * a [c] [j];
        }
    }
    QD x (n, QV (k));
    for (int64_t i = 0; i < n; i++) for (int64_t t = 0; t < k; t++) x [i] [t] = a [i] [n + t] / a [i] [i];
    return x;
}
mpq_class round_to (const mpq_class &v, int64_t prec, mpfr_rnd_t rnd)
{
    if (v == 0) return 0;
    mpq_class a = abs (v); int sg = v < 0 ? -1 : 1;
    // find e with 2^(prec-1) <= a * 2^-e < 2^prec
    int64_t e = (int64_t) mpz_sizeinbase (a.get_num_mpz_t (), 2) - (int64_t) mpz_sizeinbase (a.get_den_mpz_t (), 2) - prec;
    auto sh = [] (const mpq_class &q, int64_t k) { mpq_class r; if (k >= 0) mpq_mul_2exp (r.get_mpq_t (), q.get_mpq_t (), k); else mpq_div_2exp (r.get_mpq_t (), q.get_mpq_t (), -k); return r; };
    mpz_class top = mpz_class (1) << (unsigned) prec, bot = mpz_class (1) << (unsigned) (prec - 1);
    while (sh (a, -e) >= top) e++;
    while (sh (a, -e) < bot) e--;
    mpq_class m = sh (a, -e); mpz_class f; mpz_fdiv_q (f.get_mpz_t (), m.get_num_mpz_t (), m.get_den_mpz_t ());
    mpq_class fr = m - mpq_class (f);
    bool up = false;
    if (fr != 0) switch (rnd)
    {
        case MPFR_RNDZ: up = false; break;
        case MPFR_RNDU: up = sg > 0; break;
        case MPFR_RNDD: up = sg < 0; break;
        case MPFR_RNDA: up = true; break;
        default: { mpq_class h (1, 2); int cmp = ::cmp (fr, h); up = cmp > 0 || (cmp == 0 && mpz_odd_p (f.get_mpz_t ())); }
    }
    if (up) f += 1;
    mpq_class r = sh (mpq_class (f), e);
    return sg < 0 ? mpq_class (-r) : r;
}
