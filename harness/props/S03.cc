// S03: the factorization reproduces the permuted matrix exactly
#include "lu.h"
using namespace pbt;

static void run (Src &s, Ctx &c)
{
    Session ses;
    Opt o (s.chance (7, 8)); if (o.p) gen::options (s, o);
    gen::SqOpt so; so.maxn = c.thorough ? 30 : 18; so.big_maxn = c.thorough ? 90 : 45; so.huge_maxn = c.thorough ? 200 : 140; so.huge_one_in = 400;
    ZM A = gen::nonsing (s, c, so);
    int64_t n = A.n;
    if (det_bareiss (A.dense ()) == 0) throw Discard ();
    mpq_class sa = gen::scale (s);
    Mat MA = mk_csc (A, sa, s.chance (1, 4) ? s.range (1, 4) : 0);
    key_of (c, A); c.mix (gen::show (o.p));
    c.nontrivial = n >= 2 && A.e.size () > (size_t) n;
    c.describe ([&] (std::ostream &t) { t << "A " << show (A) << " scale " << sa << ", " << gen::show (o.p); });
    Ana S; Fact F;
    CHECK_OK (analyze (S, MA, o), "SLIP_LU_analyze");
    CHECK_OK (factorize (F, MA, S, o), "SLIP_LU_factorize");
    CHECK (F.L.p && F.U.p && F.rhos.p && F.pinv, "objects", "missing factor objects");
    for (auto M : {F.L.p, F.U.p})
    {
        CHECK (M->kind == SLIP_CSC && M->type == SLIP_MPZ && M->m == n && M->n == n, "objects", "factor of wrong kind, type or size");
        fmt::valid (M, "valid");
        CHECK (mpq_cmp_ui (M->scale, 1, 1) == 0, "scale", "factor has a scale factor");
        CHECK_OK (SUT (SLIP_matrix_check (M, NULL)), "SLIP_matrix_check of a factor");
    }
    CHECK (F.rhos->kind == SLIP_DENSE && F.rhos->type == SLIP_MPZ && F.rhos->m == n && F.rhos->n == 1, "objects", "pivots of wrong kind, type or size");
    CHECK (mpq_cmp_ui (F.rhos->scale, 1, 1) == 0, "scale", "pivots have a scale factor");
    CHECK (is_perm (F.pinv, n), "pinv", "row permutation invalid");
    CHECK (is_perm (S->q, n), "q", "column permutation invalid");
    for (int64_t j = 0; j < n; j++)
    {
        for (int64_t p = F.L->p [j]; p < F.L->p [j + 1]; p++) CHECK (F.L->i [p] >= j, "triangular", "L has entry (" << F.L->i [p] << "," << j << ")");
        for (int64_t p = F.U->p [j]; p < F.U->p [j + 1]; p++) CHECK (F.U->i [p] <= j, "triangular", "U has entry (" << F.U->i [p] << "," << j << ")");
    }
    ZD P = permuted (A, F.pinv, S->q), L = dense_of (F.L), U = dense_of (F.U);
    Ref R (P);
    CHECK (R.ok, "pivots", "a leading principal minor of the permuted matrix is zero");
    for (int64_t k = 0; k < n; k++)
    {
        CHECK (rd (F.rhos->x.mpz [k]) == R.a [k] [k], "pivots", "pivot " << k << " is " << rd (F.rhos->x.mpz [k]) << ", leading minor is " << R.a [k] [k]);
        for (int64_t i = k; i < n; i++) CHECK (L [i] [k] == R.a [i] [k], "L", "L(" << i << "," << k << ") = " << L [i] [k] << ", expected " << R.a [i] [k]);
        for (int64_t j = k; j < n; j++) CHECK (U [k] [j] == R.a [k] [j], "U", "U(" << k << "," << j << ") = " << U [k] [j] << ", expected " << R.a [k] [j]);
    }
    // the identity itself, on small matrices: P = L D^-1 U
    if (n <= 8)
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < n; j++)
        {
            mpq_class t = 0; mpz_class prev = 1;
            for (int64_t k = 0; k <= std::min (i, j); k++) { mpz_class rk = rd (F.rhos->x.mpz [k]); mpq_class q (mpz_class (L [i] [k] * U [k] [j]), mpz_class (prev * rk)); q.canonicalize (); t += q; prev = rk; }
            CHECK (t == P [i] [j], "LDU", "L*inv(D)*U differs from the permuted matrix at (" << i << "," << j << ")");
        }
    // the factors do not depend on the scale factor, nor on the row order inside columns
    if (s.chance (1, 3))
    {
        ZM B = A; std::vector<Ent<mpz_class>> col; std::vector<std::vector<Ent<mpz_class>>> cols (n);
        bool reorder = s.flip ();
        mpq_class s2 = gen::scale (s);
        Mat MB = mk_csc (B, s2); Fact G;
        CHECK_OK (factorize (G, MB, S, o), "SLIP_LU_factorize");
        CHECK (vsnap (G.L) == vsnap (F.L) && vsnap (G.U) == vsnap (F.U) && vsnap (G.rhos) == vsnap (F.rhos), "scale", "factors depend on the scale factor " << sa << " / " << s2);
        CHECK (memcmp (G.pinv, F.pinv, n * 8) == 0, "scale", "row permutation depends on the scale factor");
    }
    no_leftover ("factorize");
}
Prop pbt::the_prop = {"S03", "a case is a nonsingular integer matrix (11 families, explicit zeros, unsorted rows) factorized with random options; every entry of L, U and the pivots is compared with an independent fraction-free elimination of the permuted matrix; non-trivial: n >= 2 and more entries than rows", 200000, 1600000, run};
