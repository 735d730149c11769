// Z01: shared support library: allocation, exchangeable functions, hypot, complex division, version, timer
#include "memmodel.h"
#include <time.h>
#include <float.h>
using namespace pbt;
static std::string num (size_t n) { std::ostringstream o; o << n; return o.str (); }
static std::string hex (double x) { char b [64]; snprintf (b, sizeof b, "%a", x); return b; }
static uint64_t asked [3];
#define SET(k) static void *m##k (size_t n) { asked [k]++; return mem::Malloc (n); } static void *c##k (size_t n, size_t z) { asked [k]++; return mem::Calloc (n, z); } \
    static void *r##k (void *p, size_t n) { asked [k]++; return mem::Realloc (p, n); } static void f##k (void *p) { asked [k]++; mem::Free (p); }
SET (0) SET (1) SET (2)
static void *(*M [3]) (size_t) = {m0, m1, m2}; static void *(*C [3]) (size_t, size_t) = {c0, c1, c2}; static void *(*Re [3]) (void *, size_t) = {r0, r1, r2}; static void (*Fr [3]) (void *) = {f0, f1, f2};

static void memory (Src &s, Ctx &c)
{
    mem::reset (); int cur [4] = {0, 0, 0, 0}; memset (asked, 0, sizeof asked);
    struct Restore { ~Restore () { SuiteSparse_start (); } } re;
    auto inst = [&] { SuiteSparse_config.malloc_func = M [cur [0]]; SuiteSparse_config.calloc_func = C [cur [1]]; SuiteSparse_config.realloc_func = Re [cur [2]]; SuiteSparse_config.free_func = Fr [cur [3]]; };
    SuiteSparse_start ();
    CHECK (SuiteSparse_config.malloc_func == ::malloc && SuiteSparse_config.calloc_func == ::calloc && SuiteSparse_config.realloc_func == ::realloc && SuiteSparse_config.free_func == ::free, "start", "SuiteSparse_start did not install the default memory functions");
    CHECK (SuiteSparse_config.printf_func == ::printf && SuiteSparse_config.hypot_func == SuiteSparse_hypot && SuiteSparse_config.divcomplex_func == SuiteSparse_divcomplex, "start", "SuiteSparse_start did not install the default print and math functions");
    inst (); int swaps = 0;
    // kind of function (0 malloc, 1 calloc, 2 realloc, 3 free) allowed to be asked by a call, on the current sets only
    auto only = [&] (const char *what, const uint64_t *before, std::initializer_list<int> kinds) { for (int k = 0; k < 3; k++) { bool may = false; for (int x : kinds) may |= cur [x] == k; CHECK (may || asked [k] == before [k], "pointers", what << " used a memory function that is not the configured one"); } };
    MemApi a; a.name = "shared memory functions";
    a.alloc = [&] (size_t n, size_t z, std::string &t) { t = "SuiteSparse_malloc (" + num (n) + ", " + num (z) + ")"; uint64_t b [3] = {asked [0], asked [1], asked [2]}; void *p = SuiteSparse_malloc (n, z); only ("SuiteSparse_malloc", b, {0}); return p; };
    a.calloc_ = [&] (size_t n, size_t z, std::string &t) { t = "SuiteSparse_calloc (" + num (n) + ", " + num (z) + ")"; uint64_t b [3] = {asked [0], asked [1], asked [2]}; void *p = SuiteSparse_calloc (n, z); only ("SuiteSparse_calloc", b, {0, 1}); return p; };
    a.resize = [&] (size_t n, size_t old, size_t z, void *q, bool &ok, std::string &t) { t = "SuiteSparse_realloc (" + num (n) + " from " + num (old) + ", items of " + num (z) + (q ? ")" : ", no block)"); uint64_t b [3] = {asked [0], asked [1], asked [2]}; int k = ok ? 77 : -3; void *p = SuiteSparse_realloc (n, old, z, q, &k); if (q) only ("SuiteSparse_realloc", b, {0, 2, 3}); else only ("SuiteSparse_realloc", b, {0, 1, 2}); CHECK (k == 0 || k == 1, "ok flag", "SuiteSparse_realloc left its success flag at " << k); ok = k; return p; };
    a.release = [&] (void *q, std::string &t) { t = q ? "SuiteSparse_free" : "SuiteSparse_free (nothing)"; uint64_t b [3] = {asked [0], asked [1], asked [2]}; CHECK (SuiteSparse_free (q) == NULL, "free", "SuiteSparse_free did not return NULL"); only ("SuiteSparse_free", b, {3}); };
    a.other = [&] (Src &s, std::string &t) { swaps++; for (int i = 0; i < 4; i++) cur [i] = (int) s.draw (3); t = "functions exchanged"; inst (); if (s.chance (1, 8)) { SuiteSparse_finish (); CHECK (SuiteSparse_config.malloc_func == M [cur [0]], "finish", "SuiteSparse_finish changed the configuration"); } };
    struct End { MemModel &m; ~End () { for (auto &x : m.b) mem::Free (x.p); } };
    MemModel m (a, s); End e {m}; m.run ((int) s.size (3, c.thorough ? 120 : 40)); c.mix (m.log); m.labels (c); if (swaps) c.label ("functions exchanged"); c.nontrivial = m.interesting (); c.describe ([&] (std::ostream &o) { o << m.log; });
}

// doubles of every magnitude within 2^lo..2^hi
static double real (Src &s, int lo, int hi, int near = 9999)
{
    int e; if (near != 9999 && s.chance (2, 3)) { e = near + (int) s.range (0, 120) - 60; if (e < lo) e = lo; if (e > hi) e = hi; } else e = s.flip () ? (int) s.range (lo, hi) : std::max (lo, std::min (hi, (int) s.range (-40, 40)));
    double m; switch (s.pick ({3, 2, 2, 2})) { case 0: m = 1.0; break; case 1: m = 1.0 + (double) s.draw (16) / 16; break; case 2: m = 2.0 - ldexp (1.0 + s.draw (4), -52); break; default: m = 1.0 + ldexp ((double) s.draw ((uint64_t) 1 << 52), -52); }
    double x = ldexp (m, e); return s.flip () ? -x : x;
}
static double ulp (const mpfr_t v) { if (mpfr_zero_p (v)) return ldexp (1.0, -1074); long e = mpfr_get_exp (v); long u = e - 53; return ldexp (1.0, u < -1074 ? -1074 : (int) u); }

static void hypotenuse (Src &s, Ctx &c)
{
    double x = real (s, -1074, 1023), y = s.chance (1, 8) ? (s.flip () ? 0.0 : -0.0) : real (s, -1074, 1023, s.chance (3, 4) ? ilogb (x) : 9999); if (s.chance (1, 16)) x = 0; if (s.chance (1, 10)) y = s.flip () ? x : -x; if (s.flip ()) std::swap (x, y);
    c.mix (hex (x)); c.mix (hex (y)); c.describe ([&] (std::ostream &o) { o << "hypot (" << hex (x) << ", " << hex (y) << ")"; });
    double r = s.flip () ? SuiteSparse_hypot (x, y) : SuiteSparse_config.hypot_func (x, y);
    mpfr_t a, b; mpfr_init2 (a, 300); mpfr_init2 (b, 300); struct G { mpfr_ptr a, b; ~G () { mpfr_clear (a); mpfr_clear (b); } } g {a, b};
    mpfr_set_d (a, x, MPFR_RNDN); mpfr_set_d (b, y, MPFR_RNDN); mpfr_hypot (a, a, b, MPFR_RNDN);
    mpfr_set_d (b, DBL_MAX, MPFR_RNDN); mpfr_mul_d (b, b, 1 - ldexp (1.0, -50), MPFR_RNDN);
    if (mpfr_cmp (a, b) > 0) { c.label ("at the top of the range"); CHECK (r >= ldexp (1.0, 1023), "hypot", "hypot (" << hex (x) << ", " << hex (y) << ") = " << hex (r)); return; }
    CHECK (std::isfinite (r), "hypot", "hypot (" << hex (x) << ", " << hex (y) << ") = " << hex (r) << " though the result is representable");
    double u = ulp (a); mpfr_sub_d (b, a, r, MPFR_RNDN); mpfr_div_d (b, b, u, MPFR_RNDN); double err = fabs (mpfr_get_d (b, MPFR_RNDN));
    CHECK (err <= 4, "hypot", "hypot (" << hex (x) << ", " << hex (y) << ") = " << hex (r) << " is off by " << err << " units in the last place");
    int ex = x ? ilogb (x) : -2000, ey = y ? ilogb (y) : -2000; c.nontrivial = x && y && abs (ex - ey) < 27; c.label ("hypot"); if (ex > 512 || ey > 512) c.label ("squares would overflow"); if (ex < -512 && ey < -512) c.label ("squares would underflow");
}

static void division (Src &s, Ctx &c)
{
    int lo = -900, hi = 1018; double v [4];   // ar ai br bi
    for (int k = 0; k < 2; k++) { v [2 * k] = real (s, lo, hi); v [2 * k + 1] = real (s, lo, hi, s.chance (3, 4) ? ilogb (v [2 * k]) : 9999); if (s.chance (1, 10)) v [2 * k + 1] = s.flip () ? v [2 * k] : -v [2 * k]; if (s.chance (1, 8)) v [2 * k + 1] = s.flip () ? 0.0 : -0.0; if (s.flip ()) std::swap (v [2 * k], v [2 * k + 1]); if (s.chance (1, 30)) v [2 * k] = v [2 * k + 1] = 0; }
    bool tiny = s.chance (1, 12); if (tiny) { v [2] = ldexp (s.flip () ? 1 : -1, -1074 + (int) s.range (0, 40)); if (s.flip ()) v [3] = 0; else { v [3] = ldexp (s.flip () ? 1 : -1, -1074 + (int) s.range (0, 40)); if (s.flip ()) v [2] = 0; } }
    double ar = v [0], ai = v [1], br = v [2], bi = v [3]; c.describe ([&] (std::ostream &o) { o << "(" << hex (ar) << " + " << hex (ai) << " i) / (" << hex (br) << " + " << hex (bi) << " i)"; });
    for (double x : v) c.mix (hex (x));
    double cr = 5, ci = 7; int mode = (int) s.draw (4), st; auto *fn = s.flip () ? SuiteSparse_divcomplex : SuiteSparse_config.divcomplex_func;
    switch (mode) { case 0: st = fn (ar, ai, br, bi, &cr, &ci); break; case 1: cr = ar; ci = ai; st = fn (cr, ci, br, bi, &cr, &ci); break; case 2: cr = br; ci = bi; st = fn (ar, ai, cr, ci, &cr, &ci); break; default: cr = ai; ci = ar; st = fn (ci, cr, br, bi, &cr, &ci); }
    bool zero = br == 0 && bi == 0; CHECK ((st == 0) == !zero && (st == 0 || st == 1), "division", "dividing by " << hex (br) << " + " << hex (bi) << " i returned " << st << " where 1 means a zero denominator and 0 any other");
    if (zero) { c.label ("zero denominator"); return; }
    // exact quotient, as rationals
    mpq_class A (ar), B (ai), P (br), Q (bi), d = P * P + Q * Q, er = (A * P + B * Q) / d, ei = (B * P - A * Q) / d; mpq_class mag = abs (er) > abs (ei) ? abs (er) : abs (ei);
    if (mag == 0) { c.label ("zero numerator"); CHECK (cr == 0 && ci == 0, "division", "zero divided by a nonzero number is " << hex (cr) << " + " << hex (ci) << " i"); return; }
    if (tiny) { c.label ("subnormal denominator"); return; }
    static const mpq_class top (ldexp (1.0, 1018)), bot (ldexp (1.0, -900)); if (mag > top || mag < bot) { c.label ("quotient out of range"); return; }
    CHECK (std::isfinite (cr) && std::isfinite (ci), "division", "(" << hex (ar) << " + " << hex (ai) << " i) / (" << hex (br) << " + " << hex (bi) << " i) = " << hex (cr) << " + " << hex (ci) << " i, not finite");
    mpq_class e1 = abs (er - mpq_class (cr)), e2 = abs (ei - mpq_class (ci)), e = e1 > e2 ? e1 : e2; e /= mag; double rel = e.get_d () * ldexp (1.0, 52);
    CHECK (rel <= 12, "division", "(" << hex (ar) << " + " << hex (ai) << " i) / (" << hex (br) << " + " << hex (bi) << " i) = " << hex (cr) << " + " << hex (ci) << " i is off by " << rel << " units in the last place of its larger part");
    c.label ("division"); int eb = std::max (br ? ilogb (br) : -2000, bi ? ilogb (bi) : -2000); if (eb > 512) c.label ("squares would overflow"); if (eb < -512) c.label ("squares would underflow"); c.nontrivial = br && bi && ar && ai;
}

static void rest (Src &s, Ctx &c)
{
    int v [3] = {-1, -1, -1}, r = s.flip () ? SuiteSparse_version (v) : (v [0] = SUITESPARSE_MAIN_VERSION, v [1] = SUITESPARSE_SUB_VERSION, v [2] = SUITESPARSE_SUBSUB_VERSION, SuiteSparse_version (NULL));
    CHECK (v [0] == SUITESPARSE_MAIN_VERSION && v [1] == SUITESPARSE_SUB_VERSION && v [2] == SUITESPARSE_SUBSUB_VERSION && r == SUITESPARSE_VERSION, "version", "the version query says " << v [0] << "." << v [1] << "." << v [2] << ", " << r);
    CHECK (r == SUITESPARSE_VER_CODE (v [0], v [1]), "version", "the version code " << r << " does not follow from " << v [0] << "." << v [1]);
    // the timer: moves forward; a start d seconds earlier means d more seconds
    double t0 [2], t1 [2], t2 [2]; SuiteSparse_tic (t0); double w0 = SuiteSparse_time (); SuiteSparse_tic (t1); double e = SuiteSparse_toc (t0);
    auto sec = [] (double *t) { return (long double) t [0] + 1e-9L * t [1]; };
    CHECK (sec (t1) >= sec (t0) && e >= 0 && t0 [1] >= 0 && t0 [1] < 1e9 && t1 [1] >= 0 && t1 [1] < 1e9, "timer", "the timer ran backwards: " << e);
    CHECK (fabsl (w0 - sec (t0)) < 60 && w0 >= sec (t0) - 1e-5 && w0 <= sec (t1) + 1e-5, "timer", "SuiteSparse_time is not the time of SuiteSparse_tic");
    double ds = (double) s.draw (1000), dn = (double) s.draw (1000000000); t2 [0] = t0 [0] - ds; t2 [1] = t0 [1] - dn; double k [2] = {t2 [0], t2 [1]};
    double f = SuiteSparse_toc (t2), g = SuiteSparse_toc (t0); CHECK (t2 [0] == k [0] && t2 [1] == k [1], "timer", "SuiteSparse_toc changed its input");
    double d = ds + 1e-9 * dn; CHECK (f - d >= e - 1e-6 && f - d <= g + 1e-6, "timer", "a start " << d << " s earlier gave " << f << " s, against " << e << " to " << g);
    c.label ("version and timer"); c.mix (ds); c.mix (dn); c.nontrivial = ds != 0; c.describe ([&] (std::ostream &o) { o << "version and timer, start moved by " << d; });
}

static void run (Src &s, Ctx &c)
{
    switch (s.pick ({4, 8, 8, 1})) { case 0: memory (s, c); break; case 1: c.mix (1); hypotenuse (s, c); break; case 2: c.mix (2); division (s, c); break; default: c.mix (3); rest (s, c); }
}
Prop pbt::the_prop = {"Z01", "a case is a history of SuiteSparse_malloc/calloc/realloc/free calls under injected failures and exchanged function pointers, or one hypotenuse, or one complex division with operands of every magnitude, or a version and timer query; non-trivial: the history grew a block, had a failure and a zeroed or fresh block; hypotenuse arguments within 2^27 of each other; all four division operands nonzero; timer start moved", 1500000, 25000000, run};
