// S05: symbolic analysis yields the requested valid ordering and safe estimates
#include "lu.h"
extern "C" {
#include "amd.h"
#include "colamd.h"
}
using namespace pbt;

static void run (Src &s, Ctx &c)
{
    Session ses;
    Opt o (s.chance (9, 10)); if (o.p) gen::options (s, o);
    gen::SqOpt so; so.maxn = c.thorough ? 60 : 24; so.big_maxn = c.thorough ? 300 : 120; so.huge_maxn = c.thorough ? 2000 : 900; so.huge_one_in = 1000;
    ZM A = s.flip () ? gen::square (s, c, so) : gen::nonsing (s, c, so);
    int64_t n = A.n, nz = A.e.size ();
    if (s.chance (1, 25)) { A.e.clear (); nz = 0; c.label ("empty pattern"); }
    int order = o.p ? (int) o->order : (int) SLIP_COLAMD;
    static const char *on [] = {"none", "colamd", "amd"}; c.label (std::string ("order ") + on [order]);
    key_of (c, A); c.mix (gen::show (o.p));
    c.nontrivial = n >= 3 && nz > n;
    c.describe ([&] (std::ostream &t) { t << "A " << show (A) << ", " << gen::show (o.p); });
    int type = s.pick ({6, 1, 1, 1, 1});
    QM Q; Q.m = Q.n = n;
    for (auto &e : A.e) Q.e.push_back ({e.i, e.j, type == SLIP_MPZ ? mpq_class (e.v) : mpq_class ((long) (mpz_sgn (e.v.get_mpz_t ())))});
    Mat MA = fmt::build (Q, SLIP_CSC, (SLIP_type) type, 1, s.range (0, 3), NULL);
    // one analysis, compared with the ordering packages called directly with their documented defaults
    auto analysis = [&] (Ana &S)
    {
        std::string before = snap (MA);
        CHECK_OK (analyze (S, MA, o), "SLIP_LU_analyze");
        CHECK (snap (MA) == before, "modified", "analysis changed its input");
        CHECK (S.p && S->q, "objects", "no analysis object");
        CHECK (is_perm (S->q, n), "permutation", "column ordering is not a permutation");
        CHECK (S->lnz >= n && S->unz >= n && S->lnz <= std::max<int64_t> (1, n * n) && S->unz <= std::max<int64_t> (1, n * n), "estimates", "estimates " << S->lnz << ", " << S->unz << " outside [n, n^2] for n = " << n);
        // the ordering packages, called directly with their documented defaults
        std::vector<int64_t> want (n + 1);
        if (order == SLIP_NO_ORDERING) for (int64_t i = 0; i < n; i++) want [i] = i;
        else if (order == SLIP_AMD)
        {
            int r = SUT (amd_l_order (n, (SuiteSparse_long *) MA->p, (SuiteSparse_long *) MA->i, (SuiteSparse_long *) want.data (), NULL, NULL));
            CHECK (r >= 0, "ordering-package", "amd_l_order returned " << r);
        }
        else
        {
            size_t len = colamd_l_recommended (nz, n, n); std::vector<SuiteSparse_long> W (std::max<size_t> (len, 1)), pp (n + 1), stats (COLAMD_STATS);
            for (int64_t k = 0; k < nz; k++) W [k] = MA->i [k];
            for (int64_t k = 0; k <= n; k++) pp [k] = MA->p [k];
            int r = SUT (colamd_l (n, n, len, W.data (), pp.data (), NULL, stats.data ()));
            CHECK (r, "ordering-package", "colamd_l failed, status " << stats [COLAMD_STATUS]);
            for (int64_t k = 0; k < n; k++) want [k] = pp [k];
        }
        for (int64_t k = 0; k < n; k++) CHECK (S->q [k] == want [k], "ordering", "q[" << k << "] = " << S->q [k] << ", the ordering package gives " << want [k]);
    };
    Ana S; analysis (S);
    if (nz && s.chance (1, 5))
    {   // the same object with another pattern: the one it has now counts
        c.label ("changed in place"); auto p = s.perm (n); std::vector<int64_t> old (MA->i, MA->i + nz);
        for (int64_t k = 0; k < nz; k++) MA->i [k] = p [MA->i [k]];
        { Ana S2; analysis (S2); }
        std::copy (old.begin (), old.end (), MA->i);
        if (s.flip ()) { Ana S3; analysis (S3); }
    }
    // estimates only size memory
    if (type == SLIP_MPZ && n <= 40 && s.chance (2, 3))
    {
        Fact F; Mat X; int r = factorize (F, MA, S, o);
        ZD b = gen::rhs (s, n, 1, 0); Mat Mb = mk_dense (b, n, 1, 1);
        if (r == SLIP_OK) CHECK_OK (lusolve (X, Mb, MA, F, S, o), "SLIP_LU_solve");
        int64_t l0 = S->lnz, u0 = S->unz;
        auto est = [&] () -> int64_t { int k = s.pick ({2, 2, 3}); return k == 0 ? n : k == 1 ? n * n : s.range (n, n * n); };
        S->lnz = est (); S->unz = est ();
        c.label ("changed estimates");
        Fact G; Mat Y; int r2 = factorize (G, MA, S, o);
        CHECK (r == r2, "estimates-matter", "status " << info_name (r) << " with the analysis' estimates, " << info_name (r2) << " with " << S->lnz << ", " << S->unz);
        if (r == SLIP_OK)
        {
            CHECK (vsnap (F.L) == vsnap (G.L) && vsnap (F.U) == vsnap (G.U) && vsnap (F.rhos) == vsnap (G.rhos) && !memcmp (F.pinv, G.pinv, n * 8), "estimates-matter", "factors depend on the estimates (" << l0 << "," << u0 << " / " << S->lnz << "," << S->unz << ")");
            CHECK_OK (lusolve (Y, Mb, MA, G, S, o), "SLIP_LU_solve");
            CHECK (vsnap (X) == vsnap (Y), "estimates-matter", "solution depends on the estimates");
        }
    }
    no_leftover ("analyze");
}
Prop pbt::the_prop = {"S05", "a case is a square sparse matrix of any number type with one of the three orderings (or no options); the permutation is compared with the ordering package called directly, and the factorization repeated with other estimates in [n, n^2]; non-trivial: n >= 3 and more entries than rows", 325000, 3000000, run};
