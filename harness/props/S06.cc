// S06: floating-point solutions are the exact solution converted once
#include "lu.h"
using namespace pbt;

static void run (Src &s, Ctx &c)
{
    Session ses;
    Opt o (s.chance (7, 8)); if (o.p) { gen::options (s, o); o->check = s.chance (1, 10); }
    int64_t prec = 128; mpfr_rnd_t rnd = MPFR_RNDN;
    if (o.p)
    {
        o->prec = s.pick ({3, 3, 2, 1}) == 0 ? 128 : s.flip () ? s.range (2, 64) : s.range (65, 400); if (s.chance (1, 25)) o->prec = s.chance (1, 3) ? 1 : s.range (400, 5000); prec = o->prec;
        rnd = (mpfr_rnd_t) s.oneof<int> ({MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA}); o->round = rnd;
    }
    gen::SqOpt so; so.maxn = 10; if (c.thorough) so.maxn = 14; so.big_maxn = c.thorough ? 60 : 30; so.huge_maxn = c.thorough ? 160 : 110; so.huge_one_in = 500;
    ZM A; int64_t n;
    if (s.chance (1, 3))
    {   // one-by-one or diagonal systems: chosen quotients, halfway cases, huge and tiny values
        n = s.range (1, 4); A.m = A.n = n;
        for (int64_t i = 0; i < n; i++) A.e.push_back ({i, i, s.flip () ? mpz_class (mpz_class (1) << (unsigned) s.draw (s.chance (1, 6) ? 1200 : 80)) : gen::integer (s, gen::int_kind (s), true)});
        c.label ("diagonal system");
    }
    else { A = gen::nonsing (s, c, so); n = A.n; if (det_bareiss (A.dense ()) == 0) throw Discard (); }
    int64_t k = gen::nrhs (s, 1, 3, n);
    ZD b = gen::rhs (s, n, k, gen::int_kind (s));
    if (s.chance (1, 3))
    {   // halfway cases for this precision: odd numerators one bit longer than prec or 53
        for (auto &r : b) for (auto &x : r) if (s.flip ()) { int64_t p = s.flip () ? prec : 53; x = (gen::bits (s, (int) p) << 1) + 1; if (p < 300) mpz_setbit (x.get_mpz_t (), p); if (s.flip ()) x = -x; }
        c.label ("halfway numerators");
    }
    mpq_class sa = gen::scale (s), sb = gen::scale (s);
    Mat MA = mk_csc (A, sa), Mb = mk_dense (b, n, k, sb);
    key_of (c, A); for (auto &r : b) for (auto &x : r) c.mix (x.get_str (62)); c.mix (gen::show (o.p)); c.mix (sa.get_str (62)); c.mix (sb.get_str (62));
    c.describe ([&] (std::ostream &t) { t << "A " << show (A) << " scales " << sa << " " << sb << " b00=" << b [0] [0] << ", " << gen::show (o.p); });
    QD x = solve_exact (A, sa, b, sb, k);
    CHECK (!x.empty (), "oracle", "oracle found the matrix singular");
    int ty = s.pick ({3, 3, 1});
    if (ty == 2)
    {
        static const int bad [] = {SLIP_MPZ, SLIP_INT64, -1, 5, 17};
        int t = bad [s.draw (5)];
        SLIP_matrix *X = (SLIP_matrix *) 0x10; size_t b0 = mem::outstanding ();
        SLIP_info r = SUT (SLIP_backslash (&X, (SLIP_type) t, MA, Mb, o));
        CHECK (r == SLIP_INCORRECT_INPUT, "bad-type", "output type " << t << " gave " << info_name (r));
        CHECK (X == NULL && mem::outstanding () == b0, "bad-type", "object or memory left for a rejected type");
        c.label ("rejected output type");
        c.nontrivial = true;
        return;
    }
    Mat X; CHECK_OK (SUT (SLIP_backslash (&X.p, ty == 0 ? SLIP_FP64 : SLIP_MPFR, MA, Mb, o)), "SLIP_backslash");
    CHECK (X.p && X->kind == SLIP_DENSE && X->type == (ty == 0 ? SLIP_FP64 : SLIP_MPFR) && X->m == n && X->n == k, "object", "solution of wrong kind, type or size");
    CHECK (mpq_cmp_ui (X->scale, 1, 1) == 0, "object", "solution has a scale factor");
    c.label (ty == 0 ? "double output" : "mpfr output");
    bool inexact = false;
    for (int64_t j = 0; j < k; j++) for (int64_t i = 0; i < n; i++)
    {
        const mpq_class &v = x [i] [j];
        if (ty == 0)
        {
            double d = X->x.fp64 [i + j * n];
            if (v == 0) { CHECK (d == 0, "double", "zero entry returned as " << d); continue; }
            long e = (long) mpz_sizeinbase (v.get_num_mpz_t (), 2) - (long) mpz_sizeinbase (v.get_den_mpz_t (), 2);
            if (e > 1020 || e < -1015) { c.label ("outside double range"); continue; }
            mpq_class w = round_to (v, 53, MPFR_RNDZ);
            if (w != v) inexact = true;
            CHECK (std::isfinite (d), "double", "entry " << v << " returned as " << d);
            mpq_class g; mpq_set_d (g.get_mpq_t (), d);
            CHECK (g == w, "double", "entry (" << i << "," << j << ") of the exact solution is " << v << " but the double is " << std::hexfloat << d << ", expected " << w.get_d ());
        }
        else
        {
            mpfr_srcptr f = X->x.mpfr [i + j * n];
            CHECK (mpfr_get_prec (f) == prec, "precision", "precision " << mpfr_get_prec (f) << ", requested " << prec);
            mpq_class w = round_to (v, prec, rnd), g = rd_mpfr (f);
            if (w != v) inexact = true;
            CHECK (g == w, "mpfr", "entry (" << i << "," << j << ") of the exact solution is " << v << ", returned " << g << ", correctly rounded to " << prec << " bits in mode " << rnd << ": " << w);
        }
    }
    c.nontrivial = inexact;
    no_leftover ("backslash");
}
Prop pbt::the_prop = {"S06", "a case is a nonsingular system solved with double or multiple-precision output (precision 1..5000, five rounding modes; quotients include halfway cases) and compared entry by entry with an independently computed and rounded exact solution, or a rejected output type; non-trivial: some entry needed rounding (or the type was to be rejected)", 450000, 4000000, run};
