// S04: the requested pivoting strategy is the one applied
#include "lu.h"
using namespace pbt;

static void run (Src &s, Ctx &c)
{
    Session ses;
    Opt o; gen::options (s, o);
    // tolerances in the documented range (0,1]
    static const double tl [] = {1, 0.5, 0.1, 0.25, 0.75, 0.01, 0.999, 1e-10, 2.0 / 3};
    int tk = (int) s.draw (11); o->tol = tk < 9 ? tl [tk] : s.range (1, 1000) / 1000.0;
    gen::SqOpt so; so.maxn = c.thorough ? 24 : 14; so.big_maxn = c.thorough ? 70 : 40; so.huge_maxn = c.thorough ? 200 : 110; so.huge_one_in = 500;
    ZM A = gen::nonsing (s, c, so);
    int64_t n = A.n;
    if (det_bareiss (A.dense ()) == 0) throw Discard ();
    bool nullopt = s.chance (1, 10);
    if (nullopt) { o->pivot = SLIP_TOL_SMALLEST; o->tol = 1; o->order = SLIP_COLAMD; }
    SLIP_options *op = nullopt ? NULL : o.p;
    Mat MA = mk_csc (A, 1);
    static const char *pn [] = {"smallest", "diagonal", "first nonzero", "tol smallest", "tol largest", "largest"};
    c.label (std::string ("strategy ") + pn [o->pivot]);
    key_of (c, A); c.mix (gen::show (o.p));
    c.describe ([&] (std::ostream &t) { t << "A " << show (A) << ", " << gen::show (o.p) << (nullopt ? " (NULL)" : ""); });
    Ana S; Fact F;
    CHECK_OK (analyze (S, MA, op), "SLIP_LU_analyze");
    CHECK_OK (factorize (F, MA, S, op), "SLIP_LU_factorize");
    CHECK (is_perm (F.pinv, n) && is_perm (S->q, n), "permutation", "invalid permutation");
    Ref R (permuted (A, F.pinv, S->q));
    CHECK (R.ok, "zero-pivot", "a zero pivot was chosen");
    mpq_class tol; mpq_set_d (tol.get_mpq_t (), o->tol);
    bool choice = false, diag_other = false, neg = false;
    for (int64_t k = 0; k < n; k++)
    {
        // candidates at step k: entries i >= k of column k after k steps
        mpz_class piv = abs (R.a [k] [k]), small = 0, large = 0; int cand = 0;
        for (int64_t i = k; i < n; i++)
        {
            mpz_class v = abs (R.a [i] [k]); if (v == 0) continue;
            if (R.a [i] [k] < 0) neg = true;
            if (cand == 0 || v < small) small = v;
            if (v > large) large = v;
            cand++;
        }
        if (cand > 1) choice = true;
        int64_t dr = F.pinv [S->q [k]];        // where the diagonal row ended up
        bool diag_ok = dr >= k && R.a [dr] [k] != 0;
        mpz_class dv = diag_ok ? mpz_class (abs (R.a [dr] [k])) : mpz_class (0);
        bool is_diag = dr == k;
        if (diag_ok && cand > 1 && dv != small) diag_other = true;
        auto say = [&] { std::ostringstream t; t << "step " << k << ": pivot " << R.a [k] [k] << " in " << (is_diag ? "the diagonal row" : "another row") << ", diagonal candidate " << (diag_ok ? R.a [dr] [k].get_str () : "none") << ", smallest magnitude " << small << ", largest " << large << ", tol " << o->tol; return t.str (); };
        switch (o->pivot)
        {
            case SLIP_SMALLEST: CHECK (piv == small, "smallest", say ()); break;
            case SLIP_LARGEST: CHECK (piv == large, "largest", say ()); break;
            case SLIP_FIRST_NONZERO: CHECK (piv != 0, "nonzero", say ()); break;
            case SLIP_DIAGONAL:
                if (diag_ok) CHECK (is_diag, "diagonal", say ()); else CHECK (piv == small, "diagonal-fallback", say ());
                break;
            case SLIP_TOL_SMALLEST:
                if (diag_ok && mpq_class (small) >= tol * mpq_class (dv)) CHECK (is_diag, "tol-smallest-diagonal", say ()); else CHECK (piv == small, "tol-smallest", say ());
                break;
            case SLIP_TOL_LARGEST:
                if (diag_ok && mpq_class (dv) >= tol * mpq_class (large)) CHECK (is_diag, "tol-largest-diagonal", say ()); else CHECK (piv == large, "tol-largest", say ());
                break;
        }
    }
    if (diag_other) c.label ("diagonal and extreme differ");
    if (neg) c.label ("negative candidates");
    c.nontrivial = choice;
    // signs must not matter: same pivots (in magnitude) for the negated matrix
    if (s.chance (1, 4))
    {
        ZM B = A; for (auto &e : B.e) e.v = -e.v;
        Mat MB = mk_csc (B, 1); Fact G;
        CHECK_OK (factorize (G, MB, S, op), "SLIP_LU_factorize (negated matrix)");
        CHECK (!memcmp (G.pinv, F.pinv, n * 8), "sign", "negating the matrix changes the row permutation");
    }
}
Prop pbt::the_prop = {"S04", "a case is a nonsingular integer matrix with one of the six strategies and a tolerance in (0,1]; every pivot is compared with what the strategy prescribes among the candidates recomputed by independent elimination; non-trivial: some step has at least two candidates", 500000, 4000000, run};
