// S08: omitting the options means the documented defaults
#include "lu.h"
using namespace pbt;

static uint64_t traffic ();
static void defaults_check (const SLIP_options *o)
{
    CHECK (o != NULL, "defaults", "no default options object");
    CHECK (o->pivot == SLIP_TOL_SMALLEST, "defaults", "default pivot is " << o->pivot);
    CHECK (o->order == SLIP_COLAMD, "defaults", "default ordering is " << o->order);
    CHECK (o->tol == 1.0, "defaults", "default tolerance is " << o->tol);
    CHECK (o->print_level == 0, "defaults", "default print level is " << o->print_level);
    CHECK (o->prec == 128, "defaults", "default precision is " << o->prec);
    CHECK (o->round == MPFR_RNDN, "defaults", "default rounding is " << o->round);
    CHECK (o->check == false, "defaults", "default check is " << o->check);
}
static uint64_t traffic () { return mem::calls; }

static void run (Src &s, Ctx &c)
{
    Session ses;
    out::capture ();
    Opt def; defaults_check (def.p);
    int part = s.pick ({5, 4, 4});
    if (part == 0)
    {   // solver functions: NULL, a fresh default object, and explicitly set defaults agree
        gen::SqOpt so; so.maxn = c.thorough ? 20 : 12; so.big_maxn = c.thorough ? 60 : 40; so.huge_maxn = c.thorough ? 160 : 110; so.huge_one_in = 600;
        ZM A = s.chance (4, 5) ? gen::nonsing (s, c, so) : gen::square (s, c, so);
        int64_t n = A.n, k = gen::nrhs (s, 1, 2, A.n); ZD b = gen::rhs (s, n, k, 0);
        Mat MA = mk_csc (A, gen::scale (s)), Mb = mk_dense (b, n, k, gen::scale (s));
        key_of (c, A); c.label ("solver calls"); c.nontrivial = n >= 3;
        c.describe ([&] (std::ostream &t) { t << "solver calls with NULL and default options: A " << show (A); });
        Opt man; man->pivot = SLIP_TOL_SMALLEST; man->order = SLIP_COLAMD; man->tol = 1; man->print_level = 0; man->prec = 128; man->round = MPFR_RNDN; man->check = false;
        SLIP_options *os [3] = {NULL, def.p, man.p};
        std::string first;
        for (int t = 0; t < 3; t++)
        {
            std::ostringstream r; Ana S; Fact F; Mat X, Y, Z;
            r << analyze (S, MA, os [t]) << ";"; if (!S.p) fail ("status", "analyze failed");
            r.write ((char *) S->q, n * 8); r << S->lnz << "," << S->unz << ";";
            int i = factorize (F, MA, S, os [t]); r << i << ";";
            if (i == SLIP_OK) { r << vsnap (F.L) << vsnap (F.U) << vsnap (F.rhos); r.write ((char *) F.pinv, n * 8); r << lusolve (X, Mb, MA, F, S, os [t]) << vsnap (X); }
            for (SLIP_type ty : {SLIP_MPQ, SLIP_FP64, SLIP_MPFR}) { Mat W; r << SUT (SLIP_backslash (&W.p, ty, MA, Mb, os [t])) << vsnap (W); }
            r << SUT (SLIP_matrix_check (MA, os [t])) << SUT (SLIP_matrix_nnz (MA, os [t]));
            if (t == 0) first = r.str ();
            else CHECK (r.str () == first, "null-options", "results with NULL options differ from results with " << (t == 1 ? "a default object" : "explicitly set defaults"));
        }
        CHECK (out::text.empty (), "silent", "printed with default options: " << out::text.substr (0, 200));
    }
    else if (part == 1)
    {   // conversions and allocation
        c.label ("matrix calls");
        int kind = (int) s.draw (3), ck = (int) s.draw (3), type = (int) s.draw (5), ct = (int) s.draw (5);
        int64_t m = s.range (1, 5), n = s.range (1, 5); QM Q; Q.m = m; Q.n = n;
        for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < m; i++) if (s.flip ())
        {
            mpq_class v;
            if (type == SLIP_MPQ) v = gen::rational (s, gen::int_kind (s));
            else if (type == SLIP_MPZ) v = gen::integer (s, gen::int_kind (s));
            else if (type == SLIP_INT64) v = gen::integer (s, 3);
            else { v = mpq_class (gen::bits (s, 53), mpz_class (1) << (unsigned) s.draw (80)); v.canonicalize (); }
            Q.e.push_back ({i, j, v});
        }
        key_of (c, Q); c.mix (kind * 1000 + ck * 100 + type * 10 + ct); c.nontrivial = Q.e.size () > 0;
        Mat M = fmt::build (Q, (SLIP_kind) kind, (SLIP_type) type, 1, 0, NULL);
        c.describe ([&] (std::ostream &t) { t << "copy " << fmt::kname [kind] << " " << fmt::tname [type] << " to " << fmt::kname [ck] << " " << fmt::tname [ct] << ": " << show (Q); });
        std::string a, b;
        for (int t = 0; t < 2; t++)
        {
            Mat C; SLIP_info r = SUT (SLIP_matrix_copy (&C.p, (SLIP_kind) ck, (SLIP_type) ct, M, t ? def.p : NULL));
            std::ostringstream o; o << r << vsnap (C);
            Mat N; o << SUT (SLIP_matrix_allocate (&N.p, (SLIP_kind) ck, (SLIP_type) ct, m, n, 3, false, true, t ? def.p : NULL)) << vsnap (N);
            if (ct == SLIP_MPFR) CHECK (mpfr_get_prec (N->x.mpfr [0]) == 128, "precision", "default precision is " << mpfr_get_prec (N->x.mpfr [0]));
            o << SUT (SLIP_matrix_check (C, t ? def.p : NULL));
            (t ? b : a) = o.str ();
        }
        CHECK (a == b, "null-options", "copy/allocate/check differ between NULL and default options");
        CHECK (out::text.empty (), "silent", "printed with default options: " << out::text.substr (0, 200));
    }
    else
    {   // the one-call solver honours every option as the separate calls do
        c.label ("one-call solver honours options");
        gen::SqOpt so; so.minn = 3; so.maxn = c.thorough ? 24 : 16; so.explicit_zeros = false;
        ZM A = gen::nonsing (s, c, so); int64_t n = A.n;
        if (det_bareiss (A.dense ()) == 0) throw Discard ();
        ZD b = gen::rhs (s, n, 1, 0);
        Mat MA = mk_csc (A, 1), Mb = mk_dense (b, n, 1, 1); key_of (c, A);
        Opt o; gen::options (s, o); o->tol = s.oneof<double> ({1, 0.5, 0.1, 0.001});
        o->prec = s.range (2, 300); o->round = (mpfr_rnd_t) s.oneof<int> ({MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA});
        o->check = s.chance (1, 3); o->print_level = s.chance (1, 3) ? 2 : 0;
        c.mix (gen::show (o.p)); c.nontrivial = true;
        c.describe ([&] (std::ostream &t) { t << "one-call solver: A " << show (A) << ", " << gen::show (o.p); });
        // allocation traffic is a fingerprint of the work done: the one-call
        // solver must resemble the separate calls with the same options, not the
        // ones with the default pivoting or ordering
        auto separate = [&] (SLIP_options *p, std::string &res, std::string &printed) -> uint64_t
        {
            Ana S; Fact F; Mat X; out::text.clear (); uint64_t t0 = traffic ();
            CHECK_OK (analyze (S, MA, p), "SLIP_LU_analyze"); CHECK_OK (factorize (F, MA, S, p), "SLIP_LU_factorize"); CHECK_OK (lusolve (X, Mb, MA, F, S, p), "SLIP_LU_solve");
            uint64_t t1 = traffic (); printed = out::text; res = vsnap (X); return t1 - t0;
        };
        std::string rs, ps, rb, pb; uint64_t ts = separate (o, rs, ps);
        out::text.clear (); uint64_t t0 = traffic (); Mat X;
        CHECK_OK (SUT (SLIP_backslash (&X.p, SLIP_MPQ, MA, Mb, o)), "SLIP_backslash");
        uint64_t tb = traffic () - t0; pb = out::text; rb = vsnap (X);
        CHECK (rs == rb, "honoured", "one-call solver and separate calls give different solutions");
        CHECK (ps == pb, "honoured-print", "one-call solver and separate calls print differently:\n" << pb.substr (0, 300) << "\n---\n" << ps.substr (0, 300));
        for (int alt = 0; alt < 3; alt++)
        {
            Opt p; if (alt == 0) { p->pivot = SLIP_TOL_SMALLEST; p->tol = 1; p->order = o->order; p->check = o->check; }
            else if (alt == 1) { p->pivot = o->pivot; p->tol = o->tol; p->order = SLIP_COLAMD; p->check = o->check; }
            else { p->pivot = o->pivot; p->tol = o->tol; p->order = o->order; p->check = !o->check; }
            std::string r, q; uint64_t ta = separate (p, r, q);
            uint64_t far = ta > ts ? ta - ts : ts - ta; if (far * 5 < ts) continue;           // indistinguishable
            uint64_t ds = tb > ts ? tb - ts : ts - tb, da = tb > ta ? tb - ta : ta - tb;
            pbt::count (alt == 0 ? "pivot choice distinguishable" : alt == 1 ? "ordering distinguishable" : "checking distinguishable");
            CHECK (!(da * 4 < ds), "honoured", "the one-call solver made " << tb << " allocations; the separate calls make " << ts << " with these options but " << ta << " with " << (alt == 0 ? "default pivoting" : alt == 1 ? "default ordering" : "the opposite check setting"));
        }
        // precision and rounding
        Mat Y, Z; CHECK_OK (SUT (SLIP_backslash (&Y.p, SLIP_MPFR, MA, Mb, o)), "SLIP_backslash");
        CHECK_OK (SUT (SLIP_matrix_copy (&Z.p, SLIP_DENSE, SLIP_MPFR, X, o)), "SLIP_matrix_copy");
        CHECK (vsnap (Y) == vsnap (Z), "honoured", "precision or rounding of the options not used by the one-call solver");
        for (int64_t i = 0; i < n; i++) CHECK (mpfr_get_prec (Y->x.mpfr [i]) == o->prec, "honoured", "precision " << mpfr_get_prec (Y->x.mpfr [i]) << " instead of " << o->prec);
    }
}
Prop pbt::the_prop = {"S08", "a case compares NULL, default and explicitly-defaulted options on solver or matrix calls, or the one-call solver with the separate calls under random options (solution, printed text, precision, and allocation traffic as a fingerprint of pivoting, ordering and checking); non-trivial: n >= 3 or a non-empty matrix", 112500, 900000, run};
