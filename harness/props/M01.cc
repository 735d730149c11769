// M01: copying a matrix between formats preserves every represented value
#include "shallow.h"
#include "lu.h"
using namespace pbt;

// one value that both number types can hold
struct Vals
{
    int S, T; int64_t prec; int kind; mpq_class scale = 1;
    bool dy, integral, via53; size_t maxsig; int maxfrac;
    Vals (Src &s, int S, int T, int64_t prec) : S (S), T (T), prec (prec)
    {
        kind = gen::int_kind (s);
        bool fp = S == SLIP_FP64 || T == SLIP_FP64, fr = S == SLIP_MPFR || T == SLIP_MPFR;
        integral = S == SLIP_INT64 || T == SLIP_INT64;
        dy = fp || fr;
        maxsig = 100000;
        if (fp) maxsig = 53;
        if (fr) maxsig = std::min<size_t> (maxsig, prec);
        maxfrac = 60;
        if (S == SLIP_FP64 && T == SLIP_MPZ) maxfrac = 17;
        if (S == SLIP_MPFR && T == SLIP_MPZ) maxfrac = (int) std::min<int64_t> (prec, 60);
        via53 = T == SLIP_INT64 && (S == SLIP_MPZ || S == SLIP_MPQ);
        if (S == SLIP_MPZ)
        {
            if (integral) { scale = s.flip () ? mpq_class (1) : mpq_class (mpz_class ((long) s.range (1, 30)), mpz_class (s.flip () ? 1 : (long) s.range (1, 30))); scale.canonicalize (); if (s.chance (1, 6)) scale = -scale; }
            else if (dy) { scale = mpq_class (mpz_class (1) << (unsigned) s.draw (18)); if (s.chance (1, 5)) scale = 1 / scale; if (s.chance (1, 6)) scale = -scale; }
            else scale = gen::scale (s);
        }
    }
    mpz_class cut (mpz_class z, size_t sig) { size_t b = mpz_sizeinbase (z.get_mpz_t (), 2); if (b > sig) { z = z >> (b - sig); } return z; }
    mpq_class make (Src &s)
    {
        if (s.chance (1, 8)) return 0;
        mpz_class z = gen::integer (s, kind);
        if (integral)
        {
            size_t sig = 63;
            if (via53 || maxsig < 63) sig = std::min<size_t> (53, maxsig);
            z = cut (z, sig);
            if (sig < 62 && s.chance (1, 4)) z <<= (unsigned) s.draw (63 - sig);
            if (S == SLIP_INT64 && !(maxsig < 63) && s.chance (1, 20)) z = mpz_class ("-9223372036854775808");
            if (S == SLIP_MPZ) z = z / scale.get_den () * scale.get_den ();   // v*scale stays integral
            // a multiple of a scale's denominator may need more bits than allowed
            if (!fits_int64_z (z) || fmt::sigbits (mpq_class (z)) > sig) z = scale.get_den ();
            return z;
        }
        if (dy)
        {
            z = cut (z, maxsig);
            if (S == SLIP_MPZ) { mpq_class v = mpq_class (z) / scale; return v; }
            mpq_class v (z);
            if (s.flip ()) mpq_div_2exp (v.get_mpq_t (), v.get_mpq_t (), s.draw (maxfrac + 1));
            else if (s.chance (1, 4)) mpq_mul_2exp (v.get_mpq_t (), v.get_mpq_t (), s.draw (700));
            if (maxsig == 53 && !fmt::fits_double (v)) v = z;
            return v;
        }
        if (S == SLIP_MPZ) return mpq_class (z) / scale;
        mpq_class v (z); if (s.flip ()) v /= mpq_class (abs (gen::integer (s, kind, true)));
        v.canonicalize (); return v;
    }
    static bool fits_int64_z (const mpz_class &z) { return mpz_fits_slong_p (z.get_mpz_t ()); }
};

static void overwrite (SLIP_matrix *C)
{
    int64_t k = C->kind == SLIP_CSC ? C->p [C->n] : C->kind == SLIP_TRIPLET ? C->nz : C->m * C->n;
    for (int64_t t = 0; t < k; t++)
    {
        switch (C->type)
        {
            case SLIP_MPZ: SUT ((mpz_set_si (C->x.mpz [t], -77777), 0)); break;
            case SLIP_MPQ: SUT ((mpq_set_si (C->x.mpq [t], -77777, 13), 0)); break;
            case SLIP_MPFR: SUT (mpfr_set_si (C->x.mpfr [t], -3, MPFR_RNDN)); break;
            case SLIP_INT64: C->x.int64 [t] = -77777; break;
            case SLIP_FP64: C->x.fp64 [t] = -77777; break;
        }
        if (C->i) C->i [t] = 0;
        if (C->j) C->j [t] = 0;
    }
    if (C->p) for (int64_t j = 0; j <= C->n; j++) C->p [j] = 0;
    SUT ((mpq_set_si (C->scale, 5, 3), 0));
}

static void run (Src &s, Ctx &c)
{
    Session ses;
    int ks = (int) s.draw (3), S = (int) s.draw (5), kt = (int) s.draw (3), T = (int) s.draw (5);
    int64_t m, n; bool large = fmt::dims (s, 8, m, n, 60);
    Opt o (!s.chance (1, 4));
    if (o.p) { o->prec = (int) (s.chance (1, 20) ? s.range (300, 4000) : s.range (110, 300)); o->round = (mpfr_rnd_t) s.draw (5); o->print_level = 0; if (!(S == SLIP_FP64 && T == SLIP_MPZ) && s.chance (1, 3)) o->prec = (int) s.range (2, 110); }
    int64_t prec = o.p ? o->prec : 128;
    Vals g (s, S, T, prec);
    auto pos = fmt::positions (s, m, n, ks);
    QM A; A.m = m; A.n = n;
    bool zeros = false;
    for (auto &p : pos) { mpq_class v = g.make (s); if (v == 0) zeros = true; A.e.push_back ({p.first, p.second, v}); }
    c.label (std::string (fmt::kname [ks]) + "->" + fmt::kname [kt]);
    c.label (std::string (fmt::tname [S]) + "->" + fmt::tname [T]);
    if (m == 0 || n == 0) c.label ("no rows or columns");
    if (large) c.label ("large dimensions");
    if (A.e.empty ()) c.label ("no entries");
    if (zeros) c.label ("explicit zeros");
    if (g.scale != 1) c.label ("scaled");
    key_of (c, A); c.mix ((uint64_t) (ks * 100 + S * 20 + kt * 5 + T)); c.mix (g.scale.get_str ());
    c.nontrivial = A.e.size () >= 2;
    int64_t extra = s.draw (4);
    Mat B = fmt::build (A, (SLIP_kind) ks, (SLIP_type) S, g.scale, extra, o.p);
    Mat V; bool sh = s.chance (1, 4);
    if (sh) { V = fmt::shallow_of (B); c.label ("shallow source"); }
    SLIP_matrix *src = sh ? V.p : B.p;
    c.describe ([&] (std::ostream &t) { t << fmt::kname [ks] << " " << fmt::tname [S] << " -> " << fmt::kname [kt] << " " << fmt::tname [T] << " prec " << prec << " scale " << g.scale << " shallow " << sh << " extra " << extra << "\nA " << show (A); });
    std::string before = snap (src), bo = snap (o.p);
    Mat C; SLIP_info r = SUT (SLIP_matrix_copy (&C.p, (SLIP_kind) kt, (SLIP_type) T, src, o));
    CHECK_OK (r, "SLIP_matrix_copy");
    CHECK (snap (src) == before, "modified", "the source was changed");
    CHECK (snap (o.p) == bo, "modified", "the options were changed");
    auto verify = [&] {
        fmt::valid (C, "copy");
        CHECK (C->kind == kt && C->type == T, "copy", "wrong kind or type: " << C->kind << " " << C->type);
        CHECK (C->m == m && C->n == n, "copy", "dimensions " << C->m << "x" << C->n);
        CHECK (!C->p_shallow && !C->i_shallow && !C->j_shallow && !C->x_shallow, "copy", "copy is shallow");
        static const size_t es [] = {sizeof (mpz_t), sizeof (mpq_t), sizeof (mpfr_t), 8, 8};
        CHECK (mem::size_of (C->x.mpz) != (size_t) -1 && mem::size_of (C->x.mpz) >= es [T] * (size_t) C->nzmax, "copy", "value array smaller than the capacity");
        if (kt != SLIP_DENSE) CHECK (mem::size_of (C->i) != (size_t) -1 && mem::size_of (C->i) >= 8 * (size_t) C->nzmax, "copy", "index array smaller than the capacity");
        QM R = fmt::read (C, "copy");
        CHECK (SUT (SLIP_matrix_nnz (C, o)) == (int64_t) R.e.size (), "copy", "entry count");
        QD d = A.dense (), e = R.dense ();
        for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < n; j++) CHECK (d [i] [j] == e [i] [j], "value", "value at (" << i << "," << j << ") is " << e [i] [j] << ", expected " << d [i] [j]);
        if (kt != SLIP_DENSE)
        {
            std::set<std::pair<int64_t, int64_t>> want, got;
            for (auto &x : A.e) if (ks != SLIP_DENSE || x.v != 0) want.insert ({x.i, x.j});
            for (auto &x : R.e) got.insert ({x.i, x.j});
            CHECK (want == got, "pattern", "the entry pattern differs: " << got.size () << " entries, expected " << want.size ());
            CHECK (got.size () == R.e.size (), "pattern", "duplicates");
        }
        // the library's own check must agree
        CHECK_OK (SUT (SLIP_matrix_check (C, o)), "SLIP_matrix_check of the copy");
    };
    verify ();
    // independence
    int way = (int) s.draw (3);
    if (way == 0) { overwrite (C); CHECK (snap (src) == before, "shared", "changing the copy changed the source"); }
    else if (way == 1)
    {
        C.free (); CHECK (snap (src) == before, "shared", "freeing the copy changed the source");
        (void) fmt::read (src, "source");
    }
    else { V.free (); B.free (); verify (); }
    C.free (); V.free (); B.free ();
    o.free ();
    no_leftover ("copy");
}
Prop pbt::the_prop = {"M01", "a case is a random matrix (0..8 rows and columns, now and then up to 400, three kinds, five types, explicit zeros, spare capacity, scale, shallow or not) copied to a random kind and type able to hold its values; compared position by position with the generating values, then modified or freed on either side; non-trivial: at least two entries", 1350000, 15000000, run};
