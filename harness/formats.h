// Matrices of all 15 kinds/types: building, reading, validity
#pragma once
#include "slipx.h"

namespace fmt {
static const char *kname [] = {"CSC", "triplet", "dense"};
static const char *tname [] = {"mpz", "mpq", "mpfr", "int64", "fp64"};

inline bool fits_int64 (const mpq_class &v) { return v.get_den () == 1 && mpz_fits_slong_p (v.get_num_mpz_t ()); }
inline bool dyadic (const mpq_class &v) { return mpz_popcount (v.get_den_mpz_t ()) == 1; }
// number of significant bits of a dyadic value
inline size_t sigbits (const mpq_class &v) { if (v == 0) return 1; size_t n = mpz_sizeinbase (v.get_num_mpz_t (), 2), t = mpz_scan1 (v.get_num_mpz_t (), 0); return n - t; }
inline bool fits_double (const mpq_class &v)
{
    if (v == 0) return true;
    if (!dyadic (v) || sigbits (v) > 53) return false;
    long top = (long) mpz_sizeinbase (v.get_num_mpz_t (), 2) - (long) mpz_sizeinbase (v.get_den_mpz_t (), 2);
    return top < 1020 && top > -960;
}
inline bool fits_mpfr (const mpq_class &v, int64_t prec) { return v == 0 || (dyadic (v) && sigbits (v) <= (size_t) prec); }

inline double to_double (const mpq_class &v)   // exact by precondition
{
    if (v == 0) return 0;
    long sh = (long) mpz_sizeinbase (v.get_den_mpz_t (), 2) - 1;
    mpz_class z = v.get_num (); unsigned long t = mpz_scan1 (z.get_mpz_t (), 0);
    z >>= t; return ldexp (z.get_d (), (int) ((long) t - sh));
}

// store value v (times scale for mpz) at position p
inline void put (SLIP_matrix *M, int64_t p, const mpq_class &v, const mpq_class &scale)
{
    switch (M->type)
    {
        case SLIP_MPZ: { mpq_class w = v * scale; if (w.get_den () != 1) abort (); SUT ((mpz_set (M->x.mpz [p], w.get_num_mpz_t ()), 0)); break; }
        case SLIP_MPQ: SUT ((mpq_set (M->x.mpq [p], v.get_mpq_t ()), 0)); break;
        case SLIP_MPFR:
        {
            long sh = (long) mpz_sizeinbase (v.get_den_mpz_t (), 2) - 1;
            SUT (mpfr_set_z_2exp (M->x.mpfr [p], v.get_num_mpz_t (), -sh, MPFR_RNDN)); break;
        }
        case SLIP_INT64: M->x.int64 [p] = mpz_get_si (v.get_num_mpz_t ()); break;
        case SLIP_FP64: M->x.fp64 [p] = to_double (v); break;
    }
}

// allocate a matrix of the kind and type with the stored entries of A
inline Mat build (const QM &A, SLIP_kind kind, SLIP_type type, const mpq_class &scale, int64_t extra, const SLIP_options *option)
{
    Mat M; int64_t nz = (int64_t) A.e.size ();
    SLIP_info r = SUT (SLIP_matrix_allocate (&M.p, kind, type, A.m, A.n, nz + extra, false, true, option));
    CHECK_OK (r, "SLIP_matrix_allocate");
    if (kind == SLIP_CSC)
    {
        std::vector<int64_t> cnt (A.n + 1, 0);
        for (auto &x : A.e) cnt [x.j + 1]++;
        for (int64_t j = 0; j < A.n; j++) cnt [j + 1] += cnt [j];
        memcpy (M->p, cnt.data (), (A.n + 1) * 8);
        std::vector<int64_t> w (cnt);
        for (auto &x : A.e) { int64_t p = w [x.j]++; M->i [p] = x.i; put (M, p, x.v, scale); }
    }
    else if (kind == SLIP_TRIPLET)
    {
        for (int64_t p = 0; p < nz; p++) { M->i [p] = A.e [p].i; M->j [p] = A.e [p].j; put (M, p, A.e [p].v, scale); }
        M->nz = nz;
    }
    else
    {
        for (auto &x : A.e) put (M, x.i + x.j * A.m, x.v, scale);
    }
    if (kind != SLIP_TRIPLET) M->nz = nz % 3 ? 0 : nz % 2 ? -7 : 1000000;       // not used in these formats
    if (type == SLIP_MPZ) SUT ((mpq_set (M->scale, scale.get_mpq_t ()), 0));
    return M;
}

// exact value stored at position p (scale applied for mpz)
inline mpq_class get (const SLIP_matrix *M, int64_t p, const char *tag)
{
    switch (M->type)
    {
        case SLIP_MPZ: { mpq_class s = rd (M->scale); CHECK (s != 0, tag, "scale factor is zero"); return mpq_class (rd (M->x.mpz [p])) / s; }
        case SLIP_MPQ: canonical (M->x.mpq [p], tag); return rd (M->x.mpq [p]);
        case SLIP_MPFR: return rd_mpfr (M->x.mpfr [p]);
        case SLIP_INT64: { mpz_class z; mpz_set_si (z.get_mpz_t (), M->x.int64 [p]); return mpq_class (z); }
        default: { double d = M->x.fp64 [p]; CHECK (std::isfinite (d), tag, "value is not finite: " << d); mpq_class q; mpq_set_d (q.get_mpq_t (), d); return q; }
    }
}

// structural validity of a (non-shallow) matrix made by the library
inline void valid (const SLIP_matrix *M, const char *tag)
{
    CHECK (M != NULL, tag, "no object");
    CHECK (M->m >= 0 && M->n >= 0 && M->nzmax >= 0, tag, "negative dimension");
    CHECK (mpz_sgn (mpq_numref (M->scale)) != 0, tag, "scale factor is zero");
    canonical (M->scale, tag);
    if (M->type != SLIP_MPZ) CHECK (mpq_cmp_ui (M->scale, 1, 1) == 0, tag, "scale is not 1 for a non-mpz matrix");
    int64_t nz;
    if (M->kind == SLIP_CSC)
    {
        CHECK (M->p && M->i && !M->j, tag, "wrong component arrays for CSC");
        CHECK (M->p [0] == 0, tag, "p[0] is " << M->p [0]);
        for (int64_t j = 0; j < M->n; j++) CHECK (M->p [j] <= M->p [j + 1], tag, "column pointers decrease at " << j);
        nz = M->p [M->n];
        CHECK (nz <= M->nzmax, tag, "more entries (" << nz << ") than capacity " << M->nzmax);
        std::vector<int64_t> mark (M->m, -1);
        for (int64_t j = 0; j < M->n; j++) for (int64_t p = M->p [j]; p < M->p [j + 1]; p++)
        {
            int64_t i = M->i [p];
            CHECK (i >= 0 && i < M->m, tag, "row index " << i << " out of range");
            CHECK (mark [i] != j, tag, "duplicate (" << i << "," << j << ")"); mark [i] = j;
        }
    }
    else if (M->kind == SLIP_TRIPLET)
    {
        CHECK (!M->p && M->i && M->j, tag, "wrong component arrays for triplet");
        nz = M->nz; CHECK (nz >= 0 && nz <= M->nzmax, tag, "entry count " << nz << " outside capacity " << M->nzmax);
        std::set<std::pair<int64_t, int64_t>> seen;
        for (int64_t p = 0; p < nz; p++)
        {
            CHECK (M->i [p] >= 0 && M->i [p] < M->m && M->j [p] >= 0 && M->j [p] < M->n, tag, "index out of range");
            CHECK (seen.insert ({M->i [p], M->j [p]}).second, tag, "duplicate");
        }
    }
    else
    {
        CHECK (!M->p && !M->i && !M->j, tag, "dense matrix has index arrays");
        nz = M->m * M->n; CHECK (nz <= M->nzmax || nz == 0, tag, "capacity " << M->nzmax << " below m*n");
    }
    CHECK (M->x.mpz != NULL, tag, "no values");
}

// stored entries with exact values, in storage order
inline QM read (const SLIP_matrix *M, const char *tag)
{
    QM A; A.m = M->m; A.n = M->n;
    if (M->kind == SLIP_CSC) for (int64_t j = 0; j < M->n; j++) for (int64_t p = M->p [j]; p < M->p [j + 1]; p++) A.e.push_back ({M->i [p], j, get (M, p, tag)});
    else if (M->kind == SLIP_TRIPLET) for (int64_t p = 0; p < M->nz; p++) A.e.push_back ({M->i [p], M->j [p], get (M, p, tag)});
    else for (int64_t j = 0; j < M->n; j++) for (int64_t i = 0; i < M->m; i++) A.e.push_back ({i, j, get (M, i + j * M->m, tag)});
    return A;
}

struct Spec { int kind = 0, type = 0; mpq_class factor = 1; };

// the integer matrix A (divided by a factor) in a random kind and type that can
// hold it, then converted by the library to the solver's integer form
inline Mat make_integer_system_matrix (pbt::Src &s, pbt::Ctx &c, const ZM &A, Spec &sp, bool csc)
{
    sp.kind = (int) s.draw (3); sp.type = (int) s.draw (5);
    size_t big = 1; for (auto &x : A.e) big = std::max (big, mpz_sizeinbase (x.v.get_mpz_t (), 2));
    if (sp.type == SLIP_INT64 && big > 62) sp.type = SLIP_MPQ;
    if (sp.type == SLIP_FP64 && big > 53) sp.type = SLIP_MPQ;
    if (sp.type == SLIP_MPFR && big > 120) sp.type = SLIP_MPQ;
    switch (sp.type)
    {
        case SLIP_MPZ: case SLIP_MPQ: sp.factor = gen::scale (s); break;
        case SLIP_MPFR: sp.factor = mpq_class (mpz_class (1) << (unsigned) s.draw (30)); break;
        case SLIP_FP64: sp.factor = mpq_class (mpz_class (1) << (unsigned) s.draw (18)); break;
        default: sp.factor = 1;
    }
    QM Q; Q.m = A.m; Q.n = A.n; for (auto &x : A.e) Q.e.push_back ({x.i, x.j, mpq_class (x.v) / sp.factor});
    if (sp.kind == SLIP_TRIPLET && s.flip ()) s.shuffle (Q.e);
    mpq_class sc = sp.type == SLIP_MPZ ? sp.factor : mpq_class (1);
    Mat src = build (Q, (SLIP_kind) sp.kind, (SLIP_type) sp.type, sc, s.draw (3), NULL);
    c.label (std::string ("source ") + kname [sp.kind] + " " + tname [sp.type]);
    Mat M;
    SLIP_info r = SUT (SLIP_matrix_copy (&M.p, csc ? SLIP_CSC : SLIP_DENSE, SLIP_MPZ, src, NULL));
    CHECK_OK (r, "SLIP_matrix_copy to the solver's integer form");
    return M;
}
}
