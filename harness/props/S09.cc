// S09: the solution self-check accepts right and rejects wrong solutions
#include "lu.h"
using namespace pbt;

static void run (Src &s, Ctx &c)
{
    Session ses;
    Opt o, o2; gen::options (s, o); gen::options (s, o2);
    o->check = true; o->print_level = s.chance (1, 4) ? (int) s.range (1, 3) : 0;
    out::capture ();
    gen::SqOpt so; so.maxn = c.thorough ? 14 : 9; so.big_maxn = c.thorough ? 60 : 35; so.huge_maxn = c.thorough ? 200 : 130; so.huge_one_in = 150;
    ZM A = gen::nonsing (s, c, so);
    int64_t n = A.n;
    mpq_class sa = gen::scale (s), sb = gen::scale (s);
    int64_t k = s.pick ({4, 3, 1}); k = k == 0 ? gen::nrhs (s, 1, 2, n, 20) : k == 1 ? s.range (2, 5) : 0;
    ZD b = gen::rhs (s, n, k, gen::int_kind (s));
    if (k > 1 && s.chance (1, 5)) for (auto &r : b) for (int64_t t = 0; t + 1 < k; t++) r [t] = 0;   // only the last one can go wrong
    if (det_bareiss (A.dense ()) == 0) throw Discard ();
    key_of (c, A); for (auto &r : b) for (auto &x : r) c.mix (x.get_str (62)); c.mix (gen::show (o.p));
    Mat MA = mk_csc (A, sa), Mb = mk_dense (b, n, k, sb);
    if (s.flip ())
    {
        c.label ("consistent");
        c.describe ([&] (std::ostream &t) { t << "consistent: A " << show (A) << ", " << k << " right-hand sides, " << gen::show (o.p); });
        Mat X;
        if (s.flip ()) CHECK_OK (SUT (SLIP_backslash (&X.p, SLIP_MPQ, MA, Mb, o)), "SLIP_backslash with checking");
        else { Ana S; Fact F; CHECK_OK (analyze (S, MA, o), "SLIP_LU_analyze"); CHECK_OK (factorize (F, MA, S, o), "SLIP_LU_factorize"); CHECK_OK (lusolve (X, Mb, MA, F, S, o), "SLIP_LU_solve with checking"); }
        check_solution (A, sa, b, sb, k, X, "exact");
        c.nontrivial = n >= 2 && k >= 1;
        return;
    }
    // factors of another matrix B of the same size
    ZM B = A; int how = s.pick ({4, 2, 2});
    if (how == 0) { size_t at = s.draw (B.e.size ()); if (s.chance (1, 3)) for (size_t t = 0; t < B.e.size (); t++) if (B.e [t].i == n - 1) at = t; auto &e = B.e [at]; e.v += gen::integer (s, s.flip () ? 0 : 3, true); c.label ("one entry differs"); }
    else if (how == 1) { for (auto &e : B.e) if (s.flip ()) e.v = gen::integer (s, 0, true); c.label ("values differ"); }
    else
    {   // an extra or missing entry
        std::set<std::pair<int64_t, int64_t>> at; for (auto &e : B.e) at.insert ({e.i, e.j});
        if (s.flip () && B.e.size () > 1) B.e.erase (B.e.begin () + s.draw (B.e.size ()));
        else { int64_t i = s.draw (n), j = s.draw (n); if (at.count ({i, j})) throw Discard (); B.e.insert (std::find_if (B.e.begin (), B.e.end (), [&] (const Ent<mpz_class> &e) { return e.j > j; }), {i, j, gen::integer (s, 0, true)}); }
        c.label ("pattern differs");
    }
    if (det_bareiss (B.dense ()) == 0) throw Discard ();
    QD y = solve_exact (B, 1, b, 1, k);
    int64_t badcol = -1;
    for (int64_t t = 0; t < k && badcol < 0; t++)
    {
        QV r (n); for (auto &e : A.e) r [e.i] += mpq_class (e.v) * y [e.j] [t];
        for (int64_t i = 0; i < n; i++) if (r [i] != mpq_class (b [i] [t])) { badcol = t; break; }
    }
    c.describe ([&] (std::ostream &t) { t << "A " << show (A) << "\nfactors of B " << show (B) << "\n" << k << " right-hand sides, first wrong column " << badcol << ", " << gen::show (o.p); });
    Mat MB = mk_csc (B, gen::scale (s)); Ana S; Fact F;
    CHECK_OK (analyze (S, MB, o2), "SLIP_LU_analyze"); CHECK_OK (factorize (F, MB, S, o2), "SLIP_LU_factorize");
    bool off = s.chance (1, 5), null = off && s.flip (); if (off) { o->check = false; c.label ("checking off"); }   // the check is optional
    size_t before = mem::outstanding ();
    SLIP_matrix *X = (SLIP_matrix *) 0x10;
    SLIP_info r = SUT (SLIP_LU_solve (&X, Mb, MA, F.L, F.U, F.rhos, S, F.pinv, null ? NULL : o.p));
    if (off)
    {
        CHECK (r == SLIP_OK, "false-alarm", "checking is off but the solve returned " << info_name (r));
        Mat MX (X); CHECK (X, "partial-result", "no solution returned"); c.nontrivial = badcol >= 0;
        CHECK (out::text.find ("verified") == std::string::npos, "output", "checking is off but the solution is said to be verified: " << out::text);
    }
    else if (badcol >= 0)
    {
        c.label (badcol > 0 ? "wrong only in a later column" : "wrong in the first column");
        c.nontrivial = true;
        CHECK (r == SLIP_INCORRECT, "undetected", "solution does not satisfy A*x = b (column " << badcol << ") but the check returned " << info_name (r));
        CHECK (X == NULL, "partial-result", "an incorrect solution was returned");
        CHECK (mem::outstanding () == before, "leak", "memory left after an incorrect solution");
    }
    else
    {
        c.label ("other matrix, still a solution");
        CHECK (r == SLIP_OK, "false-alarm", "the vector satisfies the system but the check returned " << info_name (r));
        Mat MX (X); CHECK (X, "partial-result", "no solution returned");
    }
}
Prop pbt::the_prop = {"S09", "a case is a system solved with checking enabled, either with its own factors (must be accepted and exact) or with the factors of a matrix differing in one entry, many values or the pattern (must be rejected exactly when the vector does not satisfy the integer system, and accepted as it is when checking is off); non-trivial: a consistent system with n >= 2, or a vector that is wrong in some column", 500000, 4000000, run};
