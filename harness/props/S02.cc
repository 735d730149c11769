// S02: singularity is decided exactly and leaves no partial result
#include "lu.h"
using namespace pbt;

static void run (Src &s, Ctx &c)
{
    Session ses;
    Opt o (s.chance (7, 8)); if (o.p) gen::options (s, o);
    gen::SqOpt so; so.maxn = c.thorough ? 28 : 16; so.big_maxn = c.thorough ? 100 : 50; so.huge_maxn = c.thorough ? 200 : 140; so.huge_one_in = 700;
    ZM A = gen::square (s, c, so);
    int64_t n = A.n;
    mpq_class sa = gen::scale (s);
    Mat MA = mk_csc (A, sa);
    ZD d = A.dense (); mpz_class det = det_bareiss (d);
    int64_t rank = det != 0 ? n : rank_of (d, n, n);
    c.label (det != 0 ? "nonsingular" : rank == n - 1 ? "rank n-1" : "rank < n-1");
    key_of (c, A); c.mix (gen::show (o.p));
    c.nontrivial = n >= 2 && A.e.size () >= 2;
    c.describe ([&] (std::ostream &t) { t << "A " << show (A) << "\nrank " << rank << " of " << n << ", " << gen::show (o.p); });
    size_t before = mem::outstanding ();
    void *junk = (void *) 0x10;
    int mode = s.pick ({2, 2});
    if (mode == 0)
    {
        Ana S; CHECK_OK (analyze (S, MA, o), "SLIP_LU_analyze");
        size_t b2 = mem::outstanding ();
        SLIP_matrix *L = (SLIP_matrix *) junk, *U = L, *r = L; int64_t *pinv = (int64_t *) junk;
        SLIP_info info = SUT (SLIP_LU_factorize (&L, &U, &r, &pinv, MA, S, o));
        if (det == 0)
        {
            CHECK (info == SLIP_SINGULAR, "not-singular", "matrix of rank " << rank << " of " << n << ": factorize returned " << info_name (info));
            CHECK (!L && !U && !r && !pinv, "partial-result", "handles not NULL after a singular factorization");
            CHECK (mem::outstanding () == b2, "leak", mem::outstanding () - b2 << " blocks left after a singular factorization");
        }
        else
        {
            CHECK (info == SLIP_OK, "false-singular", "nonsingular matrix (det " << det << "): factorize returned " << info_name (info));
            CHECK (L && U && r && pinv, "partial-result", "missing factor objects");
            Fact F; F.L.p = L; F.U.p = U; F.rhos.p = r; F.pinv = pinv;
            mpz_class last = rd (r->x.mpz [n - 1]);
            CHECK (abs (last) == abs (det), "determinant", "last pivot " << last << " but det " << det);
        }
    }
    else
    {
        int64_t k = gen::nrhs (s, 0, 3, n); ZD b = gen::rhs (s, n, k, gen::int_kind (s));
        Mat Mb = mk_dense (b, n, k, 1); before = mem::outstanding ();
        SLIP_type ty = (SLIP_type) s.oneof<int> ({SLIP_MPQ, SLIP_FP64, SLIP_MPFR});
        SLIP_matrix *X = (SLIP_matrix *) junk;
        SLIP_info info = SUT (SLIP_backslash (&X, ty, MA, Mb, o));
        if (det == 0)
        {
            CHECK (info == SLIP_SINGULAR, "not-singular", "matrix of rank " << rank << " of " << n << ": backslash returned " << info_name (info));
            CHECK (!X, "partial-result", "solution handle not NULL for a singular matrix");
            CHECK (mem::outstanding () == before, "leak", mem::outstanding () - before << " blocks left after a singular solve");
        }
        else
        {
            CHECK (info == SLIP_OK, "false-singular", "nonsingular matrix: backslash returned " << info_name (info));
            Mat MX (X);
            if (ty == SLIP_MPQ) check_solution (A, sa, b, 1, k, X, "exact-backslash");
        }
    }
    no_leftover ("singular");
}
Prop pbt::the_prop = {"S02", "a case is a square integer matrix from structural families that include rank-deficient, unit-perturbed dependent, Laplacian and structurally deficient matrices, with random options; non-trivial: n >= 2 and at least two entries", 450000, 4000000, run};
