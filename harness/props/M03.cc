// M03: matrix validation accepts every valid matrix and rejects every malformed one
#include "shallow.h"
#include "lu.h"
using namespace pbt;

static void produced (Src &s, Ctx &c)
{   // every matrix the library produces passes
    Session ses; out::capture ();
    gen::SqOpt so; so.maxn = 8;
    ZM A = gen::nonsing (s, c, so); int64_t k = s.range (1, 3);
    ZD b = gen::rhs (s, A.n, k, gen::int_kind (s));
    mpq_class sa = gen::scale (s), sb = gen::scale (s);
    c.label ("produced by the library"); key_of (c, A); c.nontrivial = A.e.size () > 1;
    c.describe ([&] (std::ostream &t) { t << "results of factorizing and solving with A " << show (A); });
    Mat MA = mk_csc (A, sa), Mb = mk_dense (b, A.n, k, sb);
    Opt o; gen::options (s, o); o->prec = (int) s.range (2, 200);
    Opt po (!s.chance (1, 4)); if (po.p) po->print_level = (int) s.draw (4);
    Ana S; Fact F; Mat X, Y; 

    CHECK_OK (analyze (S, MA, o), "SLIP_LU_analyze"); int fr = factorize (F, MA, S, o);
    if (fr == SLIP_SINGULAR) throw Discard ();
    CHECK_OK (fr, "SLIP_LU_factorize");
    CHECK_OK (lusolve (X, Mb, MA, F, S, o), "SLIP_LU_solve");
    int ty = (int) s.oneof<int> ({SLIP_MPQ, SLIP_FP64, SLIP_MPFR});
    CHECK_OK (SUT (SLIP_backslash (&Y.p, (SLIP_type) ty, MA, Mb, o)), "SLIP_backslash");
    const char *nm [] = {"L", "U", "rhos", "x", "x of SLIP_backslash"}; SLIP_matrix *r [] = {F.L, F.U, F.rhos, X, Y};
    for (int i = 0; i < 5; i++)
    {
        std::string b0 = snap (r [i]);
        CHECK_OK (SUT (SLIP_matrix_check (r [i], po)), "SLIP_matrix_check of " << nm [i]);
        CHECK (snap (r [i]) == b0, "modified", nm [i] << " changed by the check");
    }
    out::off (); SuiteSparse_config.printf_func = printf;
}

// a position, often the last one
static int64_t end (Src &s, int64_t n) { return s.chance (1, 4) ? n - 1 : (int64_t) s.draw (n); }

static void run (Src &s, Ctx &c)
{
    if (s.chance (1, 10)) { produced (s, c); return; }
    Session ses; out::capture ();
    int kind = (int) s.draw (3), type = (int) s.draw (5);
    int64_t m, n; if (fmt::dims (s, 7, m, n, 20)) c.label ("large dimensions");
    auto pos = fmt::positions (s, m, n, kind);
    QM A; A.m = m; A.n = n; int ik = (int) s.draw (3);
    for (auto &p : pos) A.e.push_back ({p.first, p.second, mpq_class (gen::integer (s, ik))});
    Mat B = fmt::build (A, (SLIP_kind) kind, (SLIP_type) type, 1, s.draw (3), NULL);
    if (type == SLIP_MPZ || s.chance (1, 5)) { mpq_class sc = gen::scale (s); if (type == SLIP_MPZ) SUT ((mpq_set (B->scale, sc.get_mpq_t ()), 0)); }
    Opt o (!s.chance (1, 5)); if (o.p) { o->print_level = (int) s.draw (4); o->prec = (int) s.range (2, 150); }
    if (s.chance (1, 6)) out::off ();
    std::string before = snap (B), bo = snap (o.p);
    int64_t nnz = (int64_t) A.e.size ();
    c.label (std::string (fmt::kname [kind]) + " " + fmt::tname [type]);
    key_of (c, A); c.mix (kind * 10 + type); c.nontrivial = nnz >= 1;
    c.describe ([&] (std::ostream &t) { t << fmt::kname [kind] << " " << fmt::tname [type] << " print level " << (o.p ? o->print_level : -1) << "\nA " << show (A); });
    CHECK_OK (SUT (SLIP_matrix_check (B, o)), "SLIP_matrix_check of a valid matrix");
    CHECK (snap (B) == before, "modified", "the check changed the matrix");
    CHECK (SUT (SLIP_matrix_nnz (B, o)) == (kind == SLIP_DENSE ? m * n : nnz), "nnz", "wrong entry count");
    Mat V = fmt::shallow_of (B);
    CHECK_OK (SUT (SLIP_matrix_check (V, o)), "SLIP_matrix_check of a valid shallow matrix");
    // without entries there may be no room for any, and no arrays
    int64_t room = B->nzmax; bool bare = false;
    if ((kind == SLIP_DENSE ? m * n : nnz) == 0 && s.chance (2, 3))
    {
        c.label ("no room for entries"); room = V->nzmax = 0; bare = s.chance (2, 3); if (bare) { V->i = V->j = NULL; V->x.mpz = NULL; }
        CHECK_OK (SUT (SLIP_matrix_check (V, o)), "SLIP_matrix_check of a matrix with nzmax = 0");
        CHECK (SUT (SLIP_matrix_nnz (V, o)) == 0, "nnz", "wrong entry count");
    }
    int rounds = (int) s.range (1, 6);
    for (int t = 0; t < rounds; t++)
    {
        // exact-size copies of the arrays, so reading past them is caught
        std::vector<int64_t> p (B->p, B->p + (kind == SLIP_CSC ? n + 1 : 0)), i (B->i, B->i + (B->i ? nnz : 0)), j (B->j, B->j + (B->j ? nnz : 0));
        V->m = m; V->n = n; V->nzmax = room; V->nz = B->nz; V->kind = B->kind; V->type = B->type; V->x = B->x; if (bare) V->x.mpz = NULL;
        int64_t dum [1] = {0};
        V->p = B->p ? p.data () : NULL; V->i = B->i ? (nnz ? i.data () : dum) : NULL; V->j = B->j ? (nnz ? j.data () : dum) : NULL; if (bare) V->i = V->j = NULL;
        // the verdict is about what is there now: the same matrix is also checked right before it is damaged, and after it is repaired
        SLIP_matrix good = *V.p; auto pg = p, ig = i, jg = j; if (s.chance (1, 3)) CHECK_OK (SUT (SLIP_matrix_check (V, o)), "SLIP_matrix_check of a valid matrix");
        bool repair = s.chance (1, 4);
        int nc = s.chance (1, 5) ? 2 : 1; std::string what; bool null = false;
        for (int q = 0; q < nc; q++)
        {
            int64_t neg = s.oneof<int64_t> ({-1, -2, INT64_MIN, -1000000});
            std::vector<int> can = {0, 1, 2, 3, 4, 5, 6, 7, 7};
            if (kind == SLIP_CSC) { can.insert (can.end (), {10, 11, 12}); if (n >= 1) can.push_back (13); if (n >= 1) can.push_back (14); }
            if (kind == SLIP_TRIPLET) can.insert (can.end (), {12, 20, 21});
            if (kind != SLIP_DENSE && nnz >= 1) can.insert (can.end (), {30, 31, 30, 31});
            if (kind == SLIP_CSC) { for (int64_t c0 = 0; c0 < n; c0++) if (B->p [c0 + 1] - B->p [c0] >= 2) { can.insert (can.end (), {32, 32}); break; } }
            if (kind == SLIP_TRIPLET && nnz >= 2) can.insert (can.end (), {33, 33});
            int d = can [s.draw (can.size ())]; if (!room && (d == 6 || d == 12 || d == 20)) d = 3;     // no arrays are needed
            switch (d)
            {
                case 0: null = true; what += " null"; break;
                case 1: V->m = neg; what += " m<0"; break;
                case 2: V->n = neg; what += " n<0"; break;
                case 3: V->nzmax = neg; what += " nzmax<0"; break;
                case 4: V->kind = (SLIP_kind) s.oneof<int> ({3, -1, 4, 100, INT32_MAX, INT32_MIN}); what += " kind"; break;
                case 5: V->type = (SLIP_type) s.oneof<int> ({5, -1, 6, 100, INT32_MAX, INT32_MIN}); what += " type"; break;
                case 6: V->x.mpz = NULL; what += " x null"; break;
                case 7:
                {   // more entries than room for them
                    int64_t over = s.oneof<int64_t> ({1, 2, 1000, (int64_t) 1 << 40});
                    if (kind == SLIP_CSC && nc == 1) { p [n] = V->nzmax + over; what += " p[n]>nzmax"; }
                    else if (kind == SLIP_TRIPLET && nc == 1) { V->nz = V->nzmax + over; what += " nz>nzmax"; }
                    else if (kind == SLIP_DENSE && nc == 1) { if (m == 0) V->m = n == 0 ? V->n = 2 : 2 + B->nzmax; else if (n == 0) V->n = 2 + B->nzmax; else if (s.flip ()) V->m += s.chance (1, 4) ? INT64_MAX - m : over; else V->n += s.chance (1, 4) ? INT64_MAX - n : over; what += " m*n>nzmax"; if (V->m == 0 || V->n == 0 || (V->m == 1 && V->n == 1)) V->m = -1; }
                    else { V->n = -1; what += " n<0"; }
                    break;
                }
                case 10: V->p = NULL; what += " p null"; break;
                case 11: p [0] = s.flip () ? neg : s.range (1, nnz + 2); what += " p[0]"; break;
                case 12: V->i = NULL; what += " i null"; break;
                case 13: { int64_t c0 = end (s, n); p [c0 + 1] = p [c0] - 1 - (int64_t) s.draw (3); what += " p decreases"; break; }
                case 14: { if (n == 1) { p [0] = p [1] + 1; } else { int64_t c0 = end (s, n - 1); p [c0 + 1] = p [n] + 1 + (int64_t) s.draw (1000); } what += " p beyond end"; break; }
                case 20: V->j = NULL; what += " j null"; break;
                case 21: V->nz = neg; what += " nz<0"; break;
                case 30: i [end (s, nnz)] = s.oneof<int64_t> ({-1, m, INT64_MAX, INT64_MIN, m + 1}); what += " row index"; break;
                case 31: if (kind == SLIP_CSC) i [end (s, nnz)] = m + (int64_t) s.draw (3); else j [end (s, nnz)] = s.oneof<int64_t> ({-1, n, INT64_MAX, INT64_MIN, n + 1}); what += " column index"; break;
                case 32:
                {
                    std::vector<int64_t> cs; for (int64_t c0 = 0; c0 < n; c0++) if (B->p [c0 + 1] - B->p [c0] >= 2) cs.push_back (c0);
                    int64_t c0 = cs [end (s, cs.size ())], lo = B->p [c0], len = B->p [c0 + 1] - lo, a = s.draw (len), b = (a + 1 + (int64_t) s.draw (len - 1)) % len;
                    i [lo + a] = i [lo + b]; what += " duplicate"; break;
                }
                default:
                {
                    int64_t a = end (s, nnz), b = (a + 1 + (int64_t) s.draw (nnz - 1)) % nnz; i [a] = i [b]; j [a] = j [b]; what += " duplicate";
                }
            }
        }
        SLIP_matrix head = *V.p; auto p1 = p, i1 = i, j1 = j;
        c.label ("corrupt:" + (nc == 1 ? what : std::string (" two")));
        c.mix (what);
        pbt::count ("corrupted matrices checked");
        int r = SUT (SLIP_matrix_check (null ? NULL : V.p, o));
        bool same = !memcmp (&head, V.p, sizeof head) && p1 == p && i1 == i && j1 == j;
        *V.p = good;
        CHECK (r == SLIP_INCORRECT_INPUT, "verdict", "SLIP_matrix_check returned " << info_name (r) << " for a matrix with:" << what);
        CHECK (same, "modified", "the check changed a corrupt matrix (" << what << ")");
        if (repair) { std::copy (pg.begin (), pg.end (), p.begin ()); std::copy (ig.begin (), ig.end (), i.begin ()); std::copy (jg.begin (), jg.end (), j.begin ()); CHECK_OK (SUT (SLIP_matrix_check (V, o)), "SLIP_matrix_check of a matrix that is valid again"); }
    }
    CHECK (snap (B) == before && snap (o.p) == bo, "modified", "the check changed its inputs");
    SuiteSparse_config.printf_func = printf;
}
Prop pbt::the_prop = {"M03", "a case is a random matrix of random kind and type (or the results of a solve), checked as it is (also with no room for entries and no arrays) and after one to six single or double corruptions of header fields, array pointers, column pointers or indices, under a random print level; non-trivial: at least one entry", 500000, 9000000, run};
