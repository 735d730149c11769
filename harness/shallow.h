// Shallow views and general pattern generation
#pragma once
#include "formats.h"

namespace fmt {
// a shallow matrix object borrowing the arrays of M (which must outlive it)
inline Mat shallow_of (const SLIP_matrix *M)
{
    Mat S;
    SLIP_info r = SUT (SLIP_matrix_allocate (&S.p, M->kind, M->type, M->m, M->n, M->nzmax, true, true, NULL));
    CHECK_OK (r, "SLIP_matrix_allocate (shallow)");
    S->p = M->p; S->i = M->i; S->j = M->j; S->x = M->x; S->nz = M->nz;
    SUT ((mpq_set (S->scale, M->scale), 0));
    return S;
}
// dimensions: mostly small, now and then long, wide or both
inline bool dims (pbt::Src &s, int64_t lim, int64_t &m, int64_t &n, int one_in = 14)
{
    m = s.size (0, lim); n = s.size (0, lim); if (!s.chance (1, one_in)) return false;
    switch (s.draw (3)) { case 0: m = s.range (0, 400); n = s.size (0, 6); break; case 1: n = s.range (0, 400); m = s.size (0, 6); break; default: m = s.range (9, 90); n = s.range (9, 90); }
    return true;
}
// distinct positions of an m-by-n matrix: by column (rows scrambled or not), or any order
inline std::vector<std::pair<int64_t, int64_t>> positions (pbt::Src &s, int64_t m, int64_t n, int kind)
{
    std::vector<std::pair<int64_t, int64_t>> r;      // (i,j)
    int d = s.pick ({3, 2, 1, 1});                   // sparse, medium, full, empty
    bool scr = s.flip ();
    int few = m * n > 150 && d != 2 ? (int) s.oneof<int64_t> ({0, 10, 40}) : 0;    // a large matrix: more often a really sparse one
    for (int64_t j = 0; j < n; j++)
    {
        std::vector<int64_t> rows;
        for (int64_t i = 0; i < m; i++) if (few ? d != 3 && s.chance (1, few) : d == 2 || (d == 0 && s.chance (1, 4)) || (d == 1 && s.chance (3, 5))) rows.push_back (i);
        if (scr && kind != SLIP_DENSE) s.shuffle (rows);
        for (auto i : rows) r.push_back ({i, j});
    }
    if (kind == SLIP_TRIPLET && s.flip ()) s.shuffle (r);
    return r;
}
}
