// Systems, factorizations and their exact reference
#pragma once
#include "formats.h"

struct Ref            // fraction-free elimination without pivoting of a dense matrix
{
    int64_t n; ZD a;  // a[i][k], i>=k: entry of L; a[k][j], j>=k: entry of U
    bool ok = true;   // all pivots nonzero
    explicit Ref (const ZD &p) : n (p.size ()), a (p)
    {
        mpz_class prev = 1, t;
        for (int64_t k = 0; k < n; k++)
        {
            if (a [k] [k] == 0) { ok = false; return; }
            for (int64_t i = k + 1; i < n; i++) for (int64_t j = k + 1; j < n; j++)
            {
                t = a [i] [j] * a [k] [k] - a [i] [k] * a [k] [j];
                mpz_divexact (a [i] [j].get_mpz_t (), t.get_mpz_t (), prev.get_mpz_t ());
            }
            prev = a [k] [k];
        }
    }
};

inline bool is_perm (const int64_t *p, int64_t n)
{
    std::vector<char> seen (n, 0);
    for (int64_t i = 0; i < n; i++) { if (p [i] < 0 || p [i] >= n || seen [p [i]]) return false; seen [p [i]] = 1; }
    return true;
}
// dense values of a CSC/MPZ matrix of the library (scale ignored)
inline ZD dense_of (const SLIP_matrix *M)
{
    ZD d (M->m, ZV (M->n));
    for (int64_t j = 0; j < M->n; j++) for (int64_t p = M->p [j]; p < M->p [j + 1]; p++) d [M->i [p]] [j] = rd (M->x.mpz [p]);
    return d;
}
inline ZD permuted (const ZM &A, const int64_t *pinv, const int64_t *q)
{
    int64_t n = A.n; std::vector<int64_t> qinv (n); for (int64_t k = 0; k < n; k++) qinv [q [k]] = k;
    ZD d (n, ZV (n)); for (auto &e : A.e) d [pinv [e.i]] [qinv [e.j]] = e.v; return d;
}
inline int analyze (Ana &S, const SLIP_matrix *A, SLIP_options *o) { return SUT (SLIP_LU_analyze (&S.p, A, o)); }
inline int factorize (Fact &F, const SLIP_matrix *A, const SLIP_LU_analysis *S, SLIP_options *o)
{ return SUT (SLIP_LU_factorize (&F.L.p, &F.U.p, &F.rhos.p, &F.pinv, A, S, o)); }
inline int lusolve (Mat &X, const SLIP_matrix *b, const SLIP_matrix *A, const Fact &F, const SLIP_LU_analysis *S, SLIP_options *o)
{ return SUT (SLIP_LU_solve (&X.p, b, A, F.L, F.U, F.rhos, S, F.pinv, o)); }

// values of a matrix as text, independent of addresses and spare capacity
inline std::string vsnap (const SLIP_matrix *A)
{
    if (!A) return "null";
    std::string s = snap (A);
    // blank the capacity and the four addresses in the header
    for (size_t k : {2, 10, 11, 12, 13}) memset (&s [k * 8], 0, 8);
    return s;
}
inline void no_leftover (const char *what)
{
    CHECK (mem::bad_free == 0, "memory", what << ": " << mem::bad_what);
}
