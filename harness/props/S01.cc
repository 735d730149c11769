// S01: solving a nonsingular system yields exactly the rational solution
#include "slipx.h"
#include "shallow.h"
using namespace pbt;

static void run (Src &s, Ctx &c)
{
    Session ses;
    ZM A; mpq_class sa = 1, sb = 1; ZD b; int64_t k = 0;
    Mat MA, Mb;
    Opt o (s.chance (7, 8));
    if (o.p) { gen::options (s, o); o->check = s.chance (1, 8); }
    int src = s.pick ({5, 3});     // 0: built directly as integers, 1: copied from another format
    gen::SqOpt so; so.maxn = c.thorough ? 32 : 20; so.big_maxn = c.thorough ? 120 : 60; so.huge_maxn = c.thorough ? 400 : 260;
    A = gen::nonsing (s, c, so);
    int64_t n = A.n;
    k = s.pick ({5, 3, 2, 1}); k = k == 0 ? 1 : k == 1 ? s.range (2, 5) : k == 2 ? gen::nrhs (s, 1, 3, n, 15) : s.range (0, 1) * n;
    b = gen::rhs (s, n, k, gen::int_kind (s));
    if (s.chance (1, 4))        // a right-hand side whose solution is integer, most of it zero
    {
        c.label ("sparse solution");
        for (int64_t j = 0; j < k; j++)
        {
            ZV x (n); for (auto &v : x) if (s.chance (1, 3)) v = (long) s.range (-9, 9);
            for (int64_t i = 0; i < n; i++) b [i] [j] = 0;
            for (auto &e : A.e) b [e.i] [j] += e.v * x [e.j];
        }
    }
    if (src == 0)
    {
        sa = gen::scale (s); sb = gen::scale (s);
        MA = mk_csc (A, sa, s.chance (1, 4) ? s.range (1, 5) : 0);
        Mb = mk_dense (b, n, k, sb);
    }
    else
    {
        // build A and b in an arbitrary kind and type that can hold the values
        // scaled by a common factor, and let the library convert them
        fmt::Spec fa, fb;
        MA = fmt::make_integer_system_matrix (s, c, A, fa, true);
        ZM bm; bm.m = n; bm.n = k;
        for (int64_t j = 0; j < k; j++) for (int64_t i = 0; i < n; i++) if (b [i] [j] != 0) bm.e.push_back ({i, j, b [i] [j]});
        Mb = fmt::make_integer_system_matrix (s, c, bm, fb, false);
        sa = fa.factor; sb = fb.factor;
    }
    Mat VA, Vb; if (s.chance (1, 6)) { c.label ("shallow input"); VA = fmt::shallow_of (MA); Vb = fmt::shallow_of (Mb); std::swap (VA, MA); std::swap (Vb, Mb); }
    key_of (c, A); for (auto &r : b) for (auto &x : r) c.mix (x.get_str (62));
    c.mix (gen::show (o.p)); c.mix (sa.get_str (62)); c.mix (sb.get_str (62));
    c.describe ([&] (std::ostream &t) { t << "A " << show (A) << "\nscales " << sa << " " << sb << ", " << k << " right-hand sides, " << gen::show (o.p) << ", source format " << src; if (k && n) t << ", b(0,0)=" << b [0] [0]; });
    mpz_class d = det_bareiss (A.dense ());
    if (n > 0 && d == 0) { c.label ("singular (skipped)"); throw Discard (); }
    c.nontrivial = n >= 2 && A.e.size () > (size_t) n;
    int mode = s.pick ({2, 2, 1});
    c.label (mode == 0 ? "backslash" : mode == 1 ? "analyze/factorize/solve" : "both");
    Mat X, Y;
    if (mode != 1)
    {
        SLIP_info r = SUT (SLIP_backslash (&X.p, SLIP_MPQ, MA, Mb, o));
        CHECK_OK (r, "SLIP_backslash");
        check_solution (A, sa, b, sb, k, X, "exact-backslash");
    }
    if (mode != 0)
    {
        Ana S; Fact F;
        CHECK_OK (SUT (SLIP_LU_analyze (&S.p, MA, o)), "SLIP_LU_analyze");
        CHECK_OK (SUT (SLIP_LU_factorize (&F.L.p, &F.U.p, &F.rhos.p, &F.pinv, MA, S, o)), "SLIP_LU_factorize");
        CHECK_OK (SUT (SLIP_LU_solve (&Y.p, Mb, MA, F.L, F.U, F.rhos, S, F.pinv, o)), "SLIP_LU_solve");
        check_solution (A, sa, b, sb, k, Y, "exact-solve");
    }
}
Prop pbt::the_prop = {"S01", "a case is a square nonsingular integer system (11 structural families, 7 entry-size families, scale factors, explicit zeros, unsorted rows, 0..n right-hand sides) built directly or through another storage format/number type, with random pivoting, ordering and tolerance; non-trivial: n >= 2 and more entries than rows", 91000, 1500000, run};
