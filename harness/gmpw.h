// The guarded arithmetic functions as a table: each operation is run through
// the wrapper on one pool of numbers and through GMP/MPFR itself on a copy.
#pragma once
#include "slipx.h"

namespace gw {
struct Pool            // all numbers live under the library's memory functions
{
    mpz_t z [3]; mpq_t q [3]; mpfr_t f [3];
    bool zi [3] = {0}, qi [3] = {0}, fi [3] = {0};
    double d = -77.25; int64_t i = -77; int r = -77; size_t sz = 77; std::string str; int status = 0;
    Pool () { memset (z, 0, sizeof z); memset (q, 0, sizeof q); memset (f, 0, sizeof f); }
    Pool (const Pool &) = delete;
    void clear ()
    {
        for (int k = 0; k < 3; k++)
        {
            if (zi [k]) { SUT ((mpz_clear (z [k]), 0)); } if (qi [k]) { SUT ((mpq_clear (q [k]), 0)); } if (fi [k]) { SUT ((mpfr_clear (f [k]), 0)); }
            zi [k] = qi [k] = fi [k] = false;
        }
    }
    ~Pool () { clear (); }
};
struct Vals { mpz_class z [3]; mpq_class q [3]; double fd [3]; int fk [3]; mpz_class fz [3]; long fe [3]; unsigned long prec [3]; };

inline void load (Pool &p, const Vals &v)
{
    for (int k = 0; k < 3; k++)
    {
        SUT ((mpz_init_set (p.z [k], v.z [k].get_mpz_t ()), 0)); p.zi [k] = true;
        SUT ((mpq_init (p.q [k]), mpq_set (p.q [k], v.q [k].get_mpq_t ()), 0)); p.qi [k] = true;
        SUT ((mpfr_init2 (p.f [k], v.prec [k]), 0)); p.fi [k] = true;
        switch (v.fk [k])
        {
            case 0: SUT ((mpfr_set_z_2exp (p.f [k], v.fz [k].get_mpz_t (), v.fe [k], MPFR_RNDN), 0)); break;
            case 1: SUT ((mpfr_set_zero (p.f [k], v.fe [k] & 1 ? -1 : 1), 0)); break;
            case 2: SUT ((mpfr_set_inf (p.f [k], v.fe [k] & 1 ? -1 : 1), 0)); break;
            default: SUT ((mpfr_set_nan (p.f [k]), 0));
        }
    }
}
// every value of a pool as text (equal text iff equal values)
inline std::string text (const Pool &p)
{
    std::ostringstream o;
    for (int k = 0; k < 3; k++)
    {
        if (p.zi [k]) o << " z" << k << "=" << mpz_class (p.z [k]).get_str (32);
        if (p.qi [k]) o << " q" << k << "=" << mpz_class (mpq_numref (p.q [k])).get_str (32) << "/" << mpz_class (mpq_denref (p.q [k])).get_str (32);
        if (p.fi [k])
        {
            const mpfr_t &f = p.f [k]; o << " f" << k << "(" << mpfr_get_prec (f) << ")=";
            if (mpfr_nan_p (f)) o << "nan"; else if (mpfr_inf_p (f)) o << (mpfr_signbit (f) ? "-inf" : "inf"); else if (mpfr_zero_p (f)) o << (mpfr_signbit (f) ? "-0" : "0");
            else o << rd_mpfr (f).get_str (32);
        }
    }
    char b [200]; snprintf (b, sizeof b, " d=%a i=%ld r=%d sz=%zu", p.d, (long) p.i, p.r, p.sz); o << b << " s=" << p.str;
    return o.str ();
}
inline int sg (int x) { return (x > 0) - (x < 0); }

struct Args { int a = 0, b = 1, c = 2; uint64_t u = 0, u2 = 1; int64_t i = 0; double d = 0; mpfr_rnd_t rnd = MPFR_RNDN; int base = 10; std::string text; };
// one operation: through the wrapper (w true) or directly
struct Op { const char *name; const char *res; int (*run) (Pool &, const Args &, bool w); int (*ok) (const Vals &, const Args &); };
// res: which number is the result ("z", "q", "f", "" none, "+z" freshly initialized)

#define OPV(nm, resk, wc, gc, okc) {"SLIP_" nm, resk, [] (Pool &p, const Args &x, bool w) -> int { auto &z = p.z; auto &q = p.q; auto &f = p.f; (void) z; (void) q; (void) f; \
    if (w) return (int) wc; gc; return SLIP_OK; }, [] (const Vals &v, const Args &x) -> int { (void) v; (void) x; return okc; }}

static const Op ops [] = {
    OPV ("mpz_set", "z", SLIP_mpz_set (z [x.a], z [x.b]), mpz_set (z [x.a], z [x.b]), 1),
    OPV ("mpz_set_ui", "z", SLIP_mpz_set_ui (z [x.a], x.u), mpz_set_ui (z [x.a], x.u), 1),
    OPV ("mpz_set_si", "z", SLIP_mpz_set_si (z [x.a], x.i), mpz_set_si (z [x.a], x.i), 1),
    OPV ("mpz_get_d", "", SLIP_mpz_get_d (&p.d, z [x.b]), p.d = mpz_get_d (z [x.b]), 1),
    OPV ("mpz_get_si", "", SLIP_mpz_get_si (&p.i, z [x.b]), p.i = mpz_get_si (z [x.b]), 1),
    OPV ("mpz_set_q", "z", SLIP_mpz_set_q (z [x.a], q [x.b]), mpz_set_q (z [x.a], q [x.b]), 1),
    OPV ("mpz_mul", "z", SLIP_mpz_mul (z [x.a], z [x.b], z [x.c]), mpz_mul (z [x.a], z [x.b], z [x.c]), 1),
    OPV ("mpz_submul", "z", SLIP_mpz_submul (z [x.a], z [x.b], z [x.c]), mpz_submul (z [x.a], z [x.b], z [x.c]), 1),
    OPV ("mpz_divexact", "z", SLIP_mpz_divexact (z [x.a], z [x.b], z [x.c]), mpz_divexact (z [x.a], z [x.b], z [x.c]), (v.z [x.c] != 0 && mpz_divisible_p (v.z [x.b].get_mpz_t (), v.z [x.c].get_mpz_t ()))),
    OPV ("mpz_gcd", "z", SLIP_mpz_gcd (z [x.a], z [x.b], z [x.c]), mpz_gcd (z [x.a], z [x.b], z [x.c]), 1),
    OPV ("mpz_lcm", "z", SLIP_mpz_lcm (z [x.a], z [x.b], z [x.c]), mpz_lcm (z [x.a], z [x.b], z [x.c]), 1),
    OPV ("mpz_abs", "z", SLIP_mpz_abs (z [x.a], z [x.b]), mpz_abs (z [x.a], z [x.b]), 1),
    OPV ("mpz_cmp", "", SLIP_mpz_cmp (&p.r, z [x.b], z [x.c]), p.r = mpz_cmp (z [x.b], z [x.c]), 1),
    OPV ("mpz_cmpabs", "", SLIP_mpz_cmpabs (&p.r, z [x.b], z [x.c]), p.r = mpz_cmpabs (z [x.b], z [x.c]), 1),
    OPV ("mpz_cmp_ui", "", SLIP_mpz_cmp_ui (&p.r, z [x.b], x.u), p.r = mpz_cmp_ui (z [x.b], x.u), 1),
    OPV ("mpz_sgn", "", SLIP_mpz_sgn (&p.r, z [x.b]), p.r = mpz_sgn (z [x.b]), 1),
    OPV ("mpz_sizeinbase", "", SLIP_mpz_sizeinbase (&p.sz, z [x.b], x.base), p.sz = mpz_sizeinbase (z [x.b], x.base), 1),
    OPV ("mpz_init", "+z", SLIP_mpz_init (z [x.a]), mpz_init (z [x.a]), 1),
    OPV ("mpz_init2", "+z", SLIP_mpz_init2 (z [x.a], x.u % 5000), mpz_init2 (z [x.a], x.u % 5000), 1),
    OPV ("mpq_init", "+q", SLIP_mpq_init (q [x.a]), mpq_init (q [x.a]), 1),
    OPV ("mpq_set", "q", SLIP_mpq_set (q [x.a], q [x.b]), mpq_set (q [x.a], q [x.b]), 1),
    OPV ("mpq_set_z", "q", SLIP_mpq_set_z (q [x.a], z [x.b]), mpq_set_z (q [x.a], z [x.b]), 1),
    OPV ("mpq_set_d", "q", SLIP_mpq_set_d (q [x.a], x.d), mpq_set_d (q [x.a], x.d), 1),
    OPV ("mpq_set_ui", "q", SLIP_mpq_set_ui (q [x.a], x.u, x.u2), mpq_set_ui (q [x.a], x.u, x.u2), 1),
    OPV ("mpq_set_si", "q", SLIP_mpq_set_si (q [x.a], x.i, x.u2), mpq_set_si (q [x.a], x.i, x.u2), 1),
    OPV ("mpq_set_num", "q", SLIP_mpq_set_num (q [x.a], z [x.b]), mpq_set_num (q [x.a], z [x.b]), 1),
    OPV ("mpq_set_den", "q", SLIP_mpq_set_den (q [x.a], z [x.b]), mpq_set_den (q [x.a], z [x.b]), (v.z [x.b] > 0)),
    OPV ("mpq_get_den", "z", SLIP_mpq_get_den (z [x.a], q [x.b]), mpq_get_den (z [x.a], q [x.b]), 1),
    OPV ("mpq_get_d", "", SLIP_mpq_get_d (&p.d, q [x.b]), p.d = mpq_get_d (q [x.b]), 1),
    OPV ("mpq_abs", "q", SLIP_mpq_abs (q [x.a], q [x.b]), mpq_abs (q [x.a], q [x.b]), 1),
    OPV ("mpq_add", "q", SLIP_mpq_add (q [x.a], q [x.b], q [x.c]), mpq_add (q [x.a], q [x.b], q [x.c]), 1),
    OPV ("mpq_mul", "q", SLIP_mpq_mul (q [x.a], q [x.b], q [x.c]), mpq_mul (q [x.a], q [x.b], q [x.c]), 1),
    OPV ("mpq_div", "q", SLIP_mpq_div (q [x.a], q [x.b], q [x.c]), mpq_div (q [x.a], q [x.b], q [x.c]), (v.q [x.c] != 0)),
    OPV ("mpq_cmp", "", SLIP_mpq_cmp (&p.r, q [x.b], q [x.c]), p.r = mpq_cmp (q [x.b], q [x.c]), 1),
    OPV ("mpq_cmp_ui", "", SLIP_mpq_cmp_ui (&p.r, q [x.b], x.u, x.u2), p.r = mpq_cmp_ui (q [x.b], x.u, x.u2), 1),
    OPV ("mpq_sgn", "", SLIP_mpq_sgn (&p.r, q [x.b]), p.r = mpq_sgn (q [x.b]), 1),
    OPV ("mpq_equal", "", SLIP_mpq_equal (&p.r, q [x.b], q [x.c]), p.r = mpq_equal (q [x.b], q [x.c]), 1),
    OPV ("mpfr_init2", "+f", SLIP_mpfr_init2 (f [x.a], 2 + x.u % 3000), mpfr_init2 (f [x.a], 2 + x.u % 3000), 1),
    OPV ("mpfr_set", "f", SLIP_mpfr_set (f [x.a], f [x.b], x.rnd), mpfr_set (f [x.a], f [x.b], x.rnd), 1),
    OPV ("mpfr_set_d", "f", SLIP_mpfr_set_d (f [x.a], x.d, x.rnd), mpfr_set_d (f [x.a], x.d, x.rnd), 1),
    OPV ("mpfr_set_si", "f", SLIP_mpfr_set_si (f [x.a], x.i, x.rnd), mpfr_set_si (f [x.a], x.i, x.rnd), 1),
    OPV ("mpfr_set_q", "f", SLIP_mpfr_set_q (f [x.a], q [x.b], x.rnd), mpfr_set_q (f [x.a], q [x.b], x.rnd), 1),
    OPV ("mpfr_set_z", "f", SLIP_mpfr_set_z (f [x.a], z [x.b], x.rnd), mpfr_set_z (f [x.a], z [x.b], x.rnd), 1),
    OPV ("mpfr_get_z", "z", SLIP_mpfr_get_z (z [x.a], f [x.b], x.rnd), mpfr_get_z (z [x.a], f [x.b], x.rnd), 1),
    OPV ("mpfr_get_q", "q", SLIP_mpfr_get_q (q [x.a], f [x.b], x.rnd), mpfr_get_q (q [x.a], f [x.b]), (v.fk [x.b] < 2)),
    OPV ("mpfr_get_d", "", SLIP_mpfr_get_d (&p.d, f [x.b], x.rnd), p.d = mpfr_get_d (f [x.b], x.rnd), 1),
    OPV ("mpfr_get_si", "", SLIP_mpfr_get_si (&p.i, f [x.b], x.rnd), p.i = mpfr_get_si (f [x.b], x.rnd), (v.fk [x.b] < 2)),
    OPV ("mpfr_mul", "f", SLIP_mpfr_mul (f [x.a], f [x.b], f [x.c], x.rnd), mpfr_mul (f [x.a], f [x.b], f [x.c], x.rnd), 1),
    OPV ("mpfr_mul_d", "f", SLIP_mpfr_mul_d (f [x.a], f [x.b], x.d, x.rnd), mpfr_mul_d (f [x.a], f [x.b], x.d, x.rnd), 1),
    OPV ("mpfr_div_d", "f", SLIP_mpfr_div_d (f [x.a], f [x.b], x.d, x.rnd), mpfr_div_d (f [x.a], f [x.b], x.d, x.rnd), 1),
    OPV ("mpfr_ui_pow_ui", "f", SLIP_mpfr_ui_pow_ui (f [x.a], x.u, x.u2 % 300, x.rnd), mpfr_ui_pow_ui (f [x.a], x.u, x.u2 % 300, x.rnd), 1),
    OPV ("mpfr_sgn", "", SLIP_mpfr_sgn (&p.r, f [x.b]), p.r = mpfr_sgn (f [x.b]), (v.fk [x.b] < 3)),
};
static const int nops = sizeof ops / sizeof ops [0];

// formatting: 0..5 print one value of the pool; the result is copied into str
inline int print_op (Pool &p, const Args &x, bool w, int how)
{
    char *t = NULL; int r = SLIP_OK, n = 0;
    switch (how)
    {
        case 0: if (w) r = SUT (SLIP_mpfr_asprintf (&t, "%Zd", p.z [x.b])); else n = SUT (mpfr_asprintf (&t, "%Zd", p.z [x.b])); break;
        case 1: if (w) r = SUT (SLIP_mpfr_asprintf (&t, "%Qd %s", p.q [x.b], "tail")); else n = SUT (mpfr_asprintf (&t, "%Qd %s", p.q [x.b], "tail")); break;
        case 2: if (w) r = SUT (SLIP_mpfr_asprintf (&t, "%.*Rf", x.base, p.f [x.b])); else n = SUT (mpfr_asprintf (&t, "%.*Rf", x.base, p.f [x.b])); break;
        case 3: if (w) r = SUT (SLIP_mpfr_asprintf (&t, "[%R*e]", x.rnd, p.f [x.b])); else n = SUT (mpfr_asprintf (&t, "[%R*e]", x.rnd, p.f [x.b])); break;
        case 4: if (w) r = SUT (SLIP_mpfr_asprintf (&t, "%Zd|%Rg|%Qd", p.z [x.a], p.f [x.b], p.q [x.c])); else n = SUT (mpfr_asprintf (&t, "%Zd|%Rg|%Qd", p.z [x.a], p.f [x.b], p.q [x.c])); break;
        default: if (w) r = SUT (SLIP_mpfr_asprintf (&t, "%ld %g %Zx", (long) x.i, x.d, p.z [x.b])); else n = SUT (mpfr_asprintf (&t, "%ld %g %Zx", (long) x.i, x.d, p.z [x.b]));
    }
    if (r == SLIP_OK && t)
    {
        p.str = t;
        if (w) { int q = SUT (SLIP_mpfr_free_str (t)); CHECK (q == SLIP_OK, "status", "SLIP_mpfr_free_str returned " << info_name (q)); } else SUT ((mpfr_free_str (t), 0));
    }
    return r;
}

inline void gen (pbt::Src &s, Vals &v, Args &x)
{
    int kz = gen::int_kind (s), kq = gen::int_kind (s);
    for (int k = 0; k < 3; k++)
    {
        v.z [k] = gen::integer (s, kz); v.q [k] = gen::rational (s, kq);
        v.prec [k] = s.chance (1, 6) ? s.range (2, 1500) : s.oneof<unsigned long> ({2, 24, 53, 64, 113, 128, 256});
        v.fk [k] = s.pick ({12, 1, 1, 1}); v.fe [k] = s.range (-80, 80); if (s.chance (1, 20)) v.fe [k] *= 40; v.fz [k] = gen::bits (s, (int) s.range (1, 80)); if (s.flip ()) v.fz [k] = -v.fz [k];
        if (v.fk [k] == 0 && v.fz [k] == 0) v.fk [k] = 1;
    }
    if (s.chance (1, 3)) v.z [1] = v.z [2] * v.z [0];          // exact multiples
    if (s.chance (1, 8)) v.q [1] = s.flip () ? v.q [2] : mpq_class (-v.q [2]);
    if (s.chance (1, 8)) v.z [1] = s.flip () ? v.z [2] : mpz_class (-v.z [2]);
    x.a = (int) s.draw (3); x.b = s.flip () ? (x.a + 1) % 3 : (int) s.draw (3); x.c = s.flip () ? (x.b + 1) % 3 : (int) s.draw (3);
    x.u = s.chance (1, 3) ? s.draw (0) : s.oneof<uint64_t> ({0, 1, 2, 10, 1000, UINT64_MAX, 1ULL << 63, 1ULL << 32}); x.u2 = s.chance (1, 3) ? s.draw (0) : s.oneof<uint64_t> ({1, 2, 3, 10, 12, UINT64_MAX, 1ULL << 63}); if (!x.u2) x.u2 = 1;
    x.i = s.chance (1, 3) ? (int64_t) s.draw (0) : s.oneof<int64_t> ({0, 1, -1, 10, -12, INT64_MIN, INT64_MAX});
    x.d = s.chance (1, 2) ? ldexp ((double) (int64_t) s.draw (0), (int) s.range (-1000, 900)) : s.oneof<double> ({0.0, 1.0, -1.0, 0.1, -2.5, 1e300, 5e-324, 1.7976931348623157e308, 3.0});
    x.rnd = s.oneof<mpfr_rnd_t> ({MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA}); x.base = (int) s.range (2, 62);
}
inline std::string show (const Vals &v, const Args &x)
{
    std::ostringstream o;
    for (int k = 0; k < 3; k++) o << " z" << k << "=" << v.z [k] << " q" << k << "=" << v.q [k] << " f" << k << "=" << (v.fk [k] == 0 ? v.fz [k].get_str () + "*2^" + std::to_string (v.fe [k]) : std::string (v.fk [k] == 1 ? "0" : v.fk [k] == 2 ? "inf" : "nan")) << "/" << v.prec [k];
    o << " operands " << x.a << x.b << x.c << " u=" << x.u << " u2=" << x.u2 << " i=" << x.i << " d=" << x.d << " rnd=" << (int) x.rnd << " base=" << x.base; return o.str ();
}
}
