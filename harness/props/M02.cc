// M02: numeric type conversion is exact where possible and rounds as documented
#include "formats.h"
#include <cfloat>
using namespace pbt;

static mpq_class pow2 (long e) { mpq_class r (1); if (e >= 0) mpq_mul_2exp (r.get_mpq_t (), r.get_mpq_t (), e); else mpq_div_2exp (r.get_mpq_t (), r.get_mpq_t (), -e); return r; }
static mpq_class exact (double d) { mpq_class q; mpq_set_d (q.get_mpq_t (), d); return q; }
static mpz_class trunc (const mpq_class &v) { mpz_class z; mpz_tdiv_q (z.get_mpz_t (), v.get_num_mpz_t (), v.get_den_mpz_t ()); return z; }
static const mpz_class I63 = mpz_class (1) << 63;
static const mpz_class IMAX = I63 - 1, IMIN = -I63;

static double gen_double (Src &s, bool special)
{
    static const double edge [] = {9223372036854775808.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 9223372036854777856.0, 4503599627370496.5, 4503599627370495.5,
        9007199254740992.0, 9007199254740993.0, DBL_MAX, -DBL_MAX, DBL_MIN, 4.9406564584124654e-324, 1e17, 1e-17, 1.5e-17, 0.1, 1e22, 1e300, -0.5, 2.5, 0.49999999999999994, -0.0};
    switch (s.pick ({4, 4, 3, 3, 3, special ? 1 : 0}))
    {
        case 0: return (double) s.range (-20, 20);
        case 1: { double v = (double) s.range (-100000, 100000); int k = (int) s.draw (18); for (int i = 0; i < k; i++) v /= 10; return v; }
        case 2: return ldexp ((double) s.range (-(1LL << 53), 1LL << 53), (int) s.range (-80, 30));
        case 3: { for (;;) { uint64_t b = s.draw (0); double d; memcpy (&d, &b, 8); if (std::isfinite (d)) return d; if (b == 0) return 0; } }
        case 4: return edge [s.draw (sizeof edge / sizeof *edge)];
        default: { static const double sp [] = {NAN, INFINITY, -INFINITY}; return sp [s.draw (3)]; }
    }
}
// a value with at most prec bits
static mpq_class gen_bin (Src &s, int64_t prec)
{
    mpz_class z = gen::bits (s, (int) s.range (1, prec)); if (s.flip ()) z = -z;
    mpq_class v (z); int e;
    switch (s.pick ({3, 3, 2}))
    {
        case 0: e = (int) s.range (-3, 3); break;
        case 1: e = (int) s.range (-200, 200); break;
        default: e = 63 - (int) mpz_sizeinbase (z.get_mpz_t (), 2) + (int) s.range (-2, 2);
    }
    return v * pow2 (e);
}

static void run (Src &s, Ctx &c)
{
    Session ses;
    int S = (int) s.draw (5), T = (int) s.draw (5);
    int n = (int) (s.chance (1, 60) ? s.range (6, 300) : s.range (1, 5));
    Opt o (!s.chance (1, 6));
    if (o.p) { o->prec = (int) (s.flip () ? s.range (2, 64) : s.chance (1, 20) ? (s.chance (1, 3) ? 1 : s.range (320, 4000)) : s.range (64, 320)); o->round = (mpfr_rnd_t) s.draw (5); }
    int64_t prec = o.p ? o->prec : 128; mpfr_rnd_t rnd = o.p ? o->round : MPFR_RNDN;
    c.label (std::string (fmt::tname [S]) + "->" + fmt::tname [T]);
    int64_t sprec = s.flip () ? prec : s.chance (1, 20) ? s.range (200, 3000) : s.range (2, 200);
    Opt so; so->prec = (int) sprec;
    // the source: a dense column, or a sparse one with every row
    int ks = s.pick ({1, 1, 2}), kt = s.pick ({1, 1, 2});
    Mat A; SLIP_info r = SUT (SLIP_matrix_allocate (&A.p, (SLIP_kind) ks, (SLIP_type) S, n, 1, n, false, true, so));
    CHECK_OK (r, "SLIP_matrix_allocate");
    for (int i = 0; i < n; i++) { if (ks != SLIP_DENSE) A->i [i] = i; if (ks == SLIP_TRIPLET) A->j [i] = 0; }
    if (ks == SLIP_CSC) A->p [1] = n; if (ks == SLIP_TRIPLET) A->nz = n;
    mpq_class scale = 1;
    if (S == SLIP_MPZ) { scale = gen::scale (s); SUT ((mpq_set (A->scale, scale.get_mpq_t ()), 0)); }
    int kind = gen::int_kind (s);
    bool exactT = T == SLIP_MPZ || T == SLIP_MPQ; bool special = S == SLIP_FP64 && (T == SLIP_INT64 || (exactT && s.chance (1, 6)));
    QV x (n); std::vector<double> raw (n); std::vector<int> nonfinite (n, 0);
    for (int i = 0; i < n; i++)
    {
        bool zero = s.chance (1, 12);
        switch (S)
        {
            case SLIP_MPZ: case SLIP_MPQ:
            {
                mpq_class v;
                if (s.flip ()) v = S == SLIP_MPZ ? mpq_class (gen::integer (s, kind)) : gen::rational (s, kind);
                else switch (s.draw (5))
                {
                    case 0: v = mpq_class (I63 + s.range (-3, 3)); break;
                    case 1: v = mpq_class (s.range (-40, 40), 2); break;
                    case 2: v = mpq_class (mpz_class ((long) s.range (-10, 10)) * I63 + (long) s.range (-1000, 1000), mpz_class ((long) s.range (1, 10))); break;
                    case 3: v = gen_bin (s, 60); break;
                    default: v = mpq_class (gen::integer (s, 5), abs (gen::integer (s, 5, true)));
                }
                v.canonicalize ();
                if (s.flip ()) v = -v;
                if (zero) v = 0;
                if (S == SLIP_MPZ)
                {
                    mpz_class w = trunc (v * (s.flip () ? scale : mpq_class (1)));
                    if (T == SLIP_INT64 && scale == 1 && !mpz_fits_slong_p (w.get_mpz_t ())) w = (long) s.range (-100, 100);
                    SUT ((mpz_set (A->x.mpz [i], w.get_mpz_t ()), 0)); x [i] = mpq_class (w) / scale;
                }
                else { SUT ((mpq_set (A->x.mpq [i], v.get_mpq_t ()), 0)); x [i] = v; }
                break;
            }
            case SLIP_MPFR:
            {
                mpq_class v = zero ? mpq_class (0) : gen_bin (s, sprec);
                fmt::put (A, i, v, 1); x [i] = v;
                if (zero && s.flip ()) SUT ((mpfr_set_zero (A->x.mpfr [i], -1), 0));
                if ((T == SLIP_INT64 && s.chance (1, 15)) || (exactT && s.chance (1, 60))) { nonfinite [i] = s.range (1, 3); if (nonfinite [i] == 1) mpfr_set_nan (A->x.mpfr [i]); else mpfr_set_inf (A->x.mpfr [i], nonfinite [i] == 2 ? 1 : -1); }
                break;
            }
            case SLIP_INT64:
            {
                int64_t v = zero ? 0 : s.flip () ? s.range (-100, 100) : s.chance (1, 3) ? s.oneof<int64_t> ({INT64_MAX, INT64_MIN, INT64_MAX - 511, INT64_MIN + 1, (1LL << 53) + 1, -(1LL << 53) - 1}) : (int64_t) s.draw (0);
                A->x.int64 [i] = v; x [i] = mpq_class (mpz_class ((long) v)); break;
            }
            default:
            {
                double d = zero ? 0 : gen_double (s, special);
                A->x.fp64 [i] = raw [i] = d;
                if (std::isnan (d)) nonfinite [i] = 1; else if (std::isinf (d)) nonfinite [i] = d > 0 ? 2 : 3; else x [i] = exact (d);
            }
        }
    }
    for (auto &v : x) c.mix (v.get_str (62)); for (int f : nonfinite) c.mix (f);
    c.mix (S * 5 + T); c.mix (prec); c.mix (rnd); c.mix (scale.get_str ());
    bool nz = false; for (int i = 0; i < n; i++) if (x [i] != 0 || nonfinite [i]) nz = true;
    c.nontrivial = nz;
    c.describe ([&] (std::ostream &t) { t << fmt::kname [ks] << " " << fmt::tname [S] << " -> " << fmt::kname [kt] << " " << fmt::tname [T] << " prec " << prec << " round " << rnd << " scale " << scale << " source prec " << sprec << "\nvalues:"; for (int i = 0; i < n; i++) { static const char *nf [] = {"", "NaN", "Inf", "-Inf"}; if (nonfinite [i]) t << " " << nf [nonfinite [i]]; else t << " " << x [i]; } });
    Mat C; r = SUT (SLIP_matrix_copy (&C.p, (SLIP_kind) kt, (SLIP_type) T, A, o));
    bool bad = false; for (int f : nonfinite) if (f) bad = true;
    if (exactT && bad)
    {   // no integer or rational equals NaN or an infinity
        c.label ("not finite, exact target"); CHECK (r == SLIP_INCORRECT_INPUT, "status", "copying NaN or Inf to an exact type returned " << info_name (r)); CHECK (!C, "status", "copying NaN or Inf to an exact type returned an object"); return;
    }
    CHECK_OK (r, "SLIP_matrix_copy");
    CHECK (C->kind == kt && C->type == T && C->m == n && C->n == 1, "value", "wrong result format");
    mpq_class cs = rd (C->scale); canonical (C->scale, "scale");
    CHECK (cs != 0, "value", "scale factor is zero");
    if (T != SLIP_MPZ) CHECK (cs == 1, "value", "scale is " << cs);
    else if (S == SLIP_MPZ) CHECK (cs == scale, "value", "scale is " << cs << ", the source has " << scale);
    else if (S == SLIP_INT64) CHECK (cs == 1, "value", "scale is " << cs << " for 64-bit integers");
    else if (S == SLIP_MPQ)
    {
        mpz_class l = 1; for (auto &v : x) mpz_lcm (l.get_mpz_t (), l.get_mpz_t (), v.get_den_mpz_t ());
        CHECK (cs == mpq_class (l), "value", "scale is " << cs << ", the least common denominator is " << l);
    }
    // where is row i stored
    std::vector<int64_t> at (n, -1);
    if (kt == SLIP_DENSE) for (int i = 0; i < n; i++) at [i] = i;
    else { int64_t k = kt == SLIP_CSC ? C->p [1] : C->nz; for (int64_t p = 0; p < k; p++) { CHECK (C->i [p] >= 0 && C->i [p] < n, "value", "row index"); at [C->i [p]] = p; } }
    for (int i = 0; i < n; i++)
    {
        const mpq_class &v = x [i]; int64_t p = at [i];
        std::ostringstream w; w << fmt::tname [S] << "->" << fmt::tname [T] << " of " << v << ": ";
        std::string W = w.str ();
        if (p < 0)
        {   // dense to sparse drops what converts to zero
            CHECK (ks == SLIP_DENSE, "value", W << "entry missing from a sparse copy");
            if (T == SLIP_MPZ && (S == SLIP_FP64 || S == SLIP_MPFR))
            {
                mpq_class tol = S == SLIP_FP64 ? mpq_class (1) / mpq_class (mpz_class ("100000000000000000")) : pow2 (-prec);
                CHECK (abs (v) <= tol + abs (v) * pow2 (3 - prec), "value", W << "dropped");
            }
            else if (T == SLIP_INT64) CHECK (nonfinite [i] == 1 || (!nonfinite [i] && abs (v) <= 1), "value", W << "dropped");
            else if (T == SLIP_FP64) CHECK (abs (v) < pow2 (-1015), "value", W << "dropped");
            else CHECK (v == 0, "value", W << "dropped");
            continue;
        }
        switch (T)
        {
            case SLIP_MPZ:
            {
                mpq_class got = mpq_class (rd (C->x.mpz [p])) / cs, err = abs (got - v);
                if (S == SLIP_FP64)
                {
                    static const mpq_class e17 (mpz_class ("100000000000000000"));
                    mpq_class y = v * e17;
                    bool ex = y.get_den () == 1 && fmt::sigbits (v) <= (size_t) prec && fmt::sigbits (y) <= (size_t) prec;
                    if (ex) { CHECK (err == 0, "value", W << "got " << got << ", but it has no more than 17 decimal digits"); pbt::count ("exact double expansions"); }
                    else CHECK (err <= 1 / e17 + abs (v) * pow2 (3 - prec), "value", W << "got " << got << ", off by more than 17 digits");
                }
                else if (S == SLIP_MPFR)
                {
                    mpq_class y = v * pow2 (prec);
                    bool ex = y.get_den () == 1 && fmt::sigbits (v) <= (size_t) prec;
                    if (ex) CHECK (err == 0, "value", W << "got " << got << " at precision " << prec);
                    else CHECK (err <= pow2 (-prec) + abs (v) * pow2 (1 - prec), "value", W << "got " << got << " at precision " << prec);
                }
                else CHECK (err == 0, "value", W << "got " << got);
                break;
            }
            case SLIP_MPQ: canonical (C->x.mpq [p], "value"); CHECK (rd (C->x.mpq [p]) == v, "value", W << "got " << rd (C->x.mpq [p])); break;
            case SLIP_MPFR:
            {
                CHECK ((int64_t) mpfr_get_prec (C->x.mpfr [p]) == prec, "value", "precision is " << mpfr_get_prec (C->x.mpfr [p]) << ", options say " << prec);
                mpq_class want = round_to (v, prec, rnd), got = rd_mpfr (C->x.mpfr [p]);
                CHECK (got == want, "value", W << "got " << got << ", correctly rounded is " << want);
                break;
            }
            case SLIP_INT64:
            {
                int64_t got = C->x.int64 [p]; mpz_class lo, hi;
                if (nonfinite [i] == 1) lo = hi = 0;
                else if (nonfinite [i] == 2) lo = hi = IMAX;
                else if (nonfinite [i] == 3) lo = hi = IMIN;
                else if (S == SLIP_MPFR)
                {
                    mpz_class f; mpz_fdiv_q (f.get_mpz_t (), v.get_num_mpz_t (), v.get_den_mpz_t ()); mpq_class fr = v - mpq_class (f);
                    int half = ::cmp (fr, mpq_class (1, 2));
                    bool up = fr != 0 && (rnd == MPFR_RNDU || (rnd == MPFR_RNDZ && v < 0) || (rnd == MPFR_RNDA && v > 0) || (rnd == MPFR_RNDN && (half > 0 || (half == 0 && mpz_odd_p (f.get_mpz_t ())))));
                    lo = hi = up ? mpz_class (f + 1) : f;
                }
                else
                {
                    hi = trunc (v); lo = hi;
                    bool dbl = S == SLIP_MPQ || (S == SLIP_MPZ && scale != 1);
                    size_t b = mpz_sizeinbase (hi.get_mpz_t (), 2);
                    if (dbl && b > 53) { lo = (abs (hi) >> (b - 53)) << (b - 53); if (hi < 0) lo = -lo; }
                    if (lo > hi) std::swap (lo, hi);
                }
                auto sat = [] (mpz_class &z) { if (z > IMAX) z = IMAX; if (z < IMIN) z = IMIN; };
                sat (lo); sat (hi);
                CHECK (mpz_class ((long) got) >= lo && mpz_class ((long) got) <= hi, "value", W << (nonfinite [i] ? "(non-finite) " : "") << "got " << got << ", expected " << hi);
                break;
            }
            default:
            {
                double d = C->x.fp64 [p];
                if (S == SLIP_FP64) { CHECK (memcmp (&d, &raw [i], 8) == 0, "value", "double changed: " << d << " from " << raw [i]); break; }
                if (v == 0) { CHECK (d == 0, "value", W << "got " << d); break; }
                if (abs (v) >= pow2 (1023) || abs (v) < pow2 (-1015)) break;
                CHECK (std::isfinite (d), "value", W << "got " << d);
                mpq_class got = exact (d), z = round_to (v, 53, MPFR_RNDZ);
                if (S == SLIP_MPFR) { mpq_class want = round_to (v, 53, rnd); CHECK (got == want, "value", W << "got " << got << ", rounded by mode " << rnd << " is " << want); }
                else if (S == SLIP_INT64) CHECK (got == z || got == round_to (v, 53, MPFR_RNDN), "value", W << "got " << got);
                else CHECK (got == z, "value", W << "got " << got << ", truncated is " << z);
            }
        }
    }
    // the empty cells of no pair may share: nothing else to check; source precision never matters for exact targets
}
Prop pbt::the_prop = {"M02", "a case converts one to five values of one type (integers to 2500 bits, rationals, doubles of any bit pattern, multiple precision of 2..3000 bits, values at the 64-bit and 53-bit limits and exact halves) to another type under a random precision and rounding mode; each result is compared with exact rational arithmetic; non-trivial: a nonzero or non-finite value", 1800000, 15000000, run};
