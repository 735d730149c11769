// E01: invalid arguments are rejected cleanly
#include "shallow.h"
#include "lu.h"
using namespace pbt;

struct Sys
{
    ZM A; ZD b; int64_t k; mpq_class sa, sb; Mat MA, Mb; Ana S; Fact F; Opt o;
    std::string snapshot ()
    {
        int64_t n = A.n; std::string t = snap (MA) + snap (Mb) + snap (S, n) + snap (F.L) + snap (F.U) + snap (F.rhos) + snap (o.p);
        t.append ((char *) F.pinv, n * 8); return t;
    }
};
// a valid matrix like M, of another kind and/or type
static Mat wrong_format (Src &s, const SLIP_matrix *M, int wantkind, int wanttype, std::string &what)
{
    int kind, type;
    do { kind = (int) s.draw (3); type = (int) s.draw (5); } while (kind == wantkind && type == wanttype && (s.draw (1), true) && !(kind = (wantkind + 1) % 3, true));
    Mat C; QM Q; Q.m = M->m; Q.n = M->n;
    for (int64_t j = 0; j < std::min (M->m, M->n); j++) Q.e.push_back ({j, j, mpq_class ((long) (1 + j))});
    what += std::string (" is ") + fmt::kname [kind] + " " + fmt::tname [type];
    return fmt::build (Q, (SLIP_kind) kind, (SLIP_type) type, 1, 0, NULL);
}
// the same format with other dimensions: a valid matrix of another size, or a header with a negative dimension
static Mat wrong_size (Src &s, const SLIP_matrix *M, std::string &what, bool rows, bool cols, bool nonneg)
{
    int w = rows && cols ? (int) s.draw (2) : rows ? 0 : 1;
    if (!nonneg && s.chance (1, 3))
    {
        Mat V = fmt::shallow_of (M); int64_t d = s.oneof<int64_t> ({-1, -2, -1000, INT64_MIN});
        if (w == 0) V->m = d; else V->n = d;
        what += " is " + std::to_string (V->m) + "x" + std::to_string (V->n); return V;
    }
    QM Q; Q.m = M->m; Q.n = M->n; int64_t &x = w == 0 ? Q.m : Q.n;
    if (x > 0 && s.flip ()) x = s.chance (1, 3) ? 0 : x - 1; else x += s.oneof<int64_t> ({1, 2, 50});
    for (int64_t j = 0; j < std::min (Q.m, Q.n); j++) Q.e.push_back ({j, j, mpq_class ((long) (1 + j))});
    what += " is " + std::to_string (Q.m) + "x" + std::to_string (Q.n);
    return fmt::build (Q, M->kind, M->type, 1, 0, NULL);
}

static void run (Src &s, Ctx &c)
{
    Session ses;
    Sys y; gen::SqOpt so; so.maxn = 7;
    y.A = gen::nonsing (s, c, so); int64_t n = y.A.n; y.k = s.range (1, 3);
    y.b = gen::rhs (s, n, y.k, gen::int_kind (s)); y.sa = gen::scale (s); y.sb = gen::scale (s);
    y.MA = mk_csc (y.A, y.sa); y.Mb = mk_dense (y.b, n, y.k, y.sb);
    gen::options (s, y.o); y.o->check = s.flip (); y.o->prec = (int) s.range (2, 200);
    CHECK_OK (analyze (y.S, y.MA, y.o), "SLIP_LU_analyze");
    int fr = factorize (y.F, y.MA, y.S, y.o); if (fr == SLIP_SINGULAR) throw Discard (); CHECK_OK (fr, "SLIP_LU_factorize");
    { Mat X; SUT (SLIP_LU_solve (&X.p, y.Mb, y.MA, y.F.L, y.F.U, y.F.rhos, y.S, y.F.pinv, y.o)); }   // warm
    key_of (c, y.A); c.nontrivial = true; std::string told;
    struct Tell { Ctx &c; std::string &t; ~Tell () { c.describe ([&] (std::ostream &o) { o << t; }); } } tell {c, told};
    int rounds = (int) s.range (1, 5);
    for (int t = 0; t < rounds; t++)
    {
        SLIP_options *op = s.chance (1, 4) ? NULL : y.o.p;
        std::string before = y.snapshot (), what;
        Mat T [6]; int nt = 0;                     // temporary bad arguments
        const SLIP_matrix *A = y.MA, *b = y.Mb, *L = y.F.L, *U = y.F.U, *rhos = y.F.rhos; const SLIP_LU_analysis *S = y.S; const int64_t *pinv = y.F.pinv;
        bool h [4] = {true, true, true, true};     // handles given
        SLIP_matrix *sent = (SLIP_matrix *) 0x40, *out [3]; out [0] = out [1] = out [2] = sent; int64_t *pout = (int64_t *) 0x40; SLIP_LU_analysis *sout = (SLIP_LU_analysis *) 0x40;
        int fn = (int) s.draw (6), nd = s.chance (1, 4) ? 2 : 1, r = SLIP_OK; size_t live0 = 0;
        SLIP_kind ck = (SLIP_kind) s.draw (3); SLIP_type ct = (SLIP_type) s.draw (5), bt = s.oneof<SLIP_type> ({SLIP_MPQ, SLIP_FP64, SLIP_MPFR});
        int64_t am = n, an = n; Mat src; SLIP_matrix *csrc = NULL; bool cnull = false;
        if (fn == 1) { src = fmt::build ([&] { QM Q; Q.m = Q.n = n; for (auto &e : y.A.e) Q.e.push_back ({e.i, e.j, mpq_class (e.v.get_si () % 1000)}); return Q; } (), (SLIP_kind) s.draw (3), (SLIP_type) s.draw (5), 1, 0, NULL); T [nt] = fmt::shallow_of (src); csrc = T [nt++].p; }
        auto bad_matrix = [&] (const SLIP_matrix *&M, const char *nm, int kind, int type, bool square, bool rows = true, bool cols = true, bool nonneg = false)
        {
            what += std::string (" ") + nm; const SLIP_matrix *M0 = nm [0] == 'A' ? y.MA.p : nm [0] == 'b' ? y.Mb.p : nm [0] == 'L' ? y.F.L.p : nm [0] == 'U' ? y.F.U.p : y.F.rhos.p;
            switch (s.draw (3))
            {
                case 0: M = NULL; what += " is NULL"; break;
                case 1: T [nt] = wrong_format (s, M0, kind, type, what); M = T [nt++]; break;
                default: if (!rows && !cols) { M = NULL; what += " is NULL"; } else { T [nt] = wrong_size (s, M0, what, rows, cols, nonneg); M = T [nt++]; }
            }
        };
        static const char *fnm [] = {"SLIP_matrix_allocate", "SLIP_matrix_copy", "SLIP_LU_analyze", "SLIP_LU_factorize", "SLIP_LU_solve", "SLIP_backslash"};
        for (int d = 0; d < nd; d++)
        {
            if (fn == 0) switch (s.draw (5))
            {
                case 0: am = s.oneof<int64_t> ({-1, -7, INT64_MIN}); what += " m<0"; break;
                case 1: an = s.oneof<int64_t> ({-1, -7, INT64_MIN}); what += " n<0"; break;
                case 2: ck = (SLIP_kind) s.oneof<int> ({3, -1, 1000}); what += " kind"; break;
                case 3: ct = (SLIP_type) s.oneof<int> ({5, -1, 1000}); what += " type"; break;
                default: h [0] = false; what += " no handle";
            }
            else if (fn == 1) switch (s.draw (8))
            {
                case 0: h [0] = false; what += " no handle"; break;
                case 1: cnull = true; what += " A is NULL"; break;
                case 2: ck = (SLIP_kind) s.oneof<int> ({3, -1, 1000}); what += " kind"; break;
                case 3: ct = (SLIP_type) s.oneof<int> ({5, -1, 1000}); what += " type"; break;
                case 4: csrc->kind = (SLIP_kind) s.oneof<int> ({3, -1, 1000}); what += " A->kind"; break;
                case 5: csrc->type = (SLIP_type) s.oneof<int> ({5, -1, 1000}); what += " A->type"; break;
                case 6: csrc->m = s.oneof<int64_t> ({-1, -7, -100000}); what += " A->m<0"; break;
                default: csrc->n = s.oneof<int64_t> ({-1, -7, -100000}); what += " A->n<0";
            }
            else if (fn == 2) switch (s.draw (3))
            {
                case 0: h [0] = false; what += " no handle"; break;
                case 1:
                {   // any type is fine here, so change only the kind
                    what += " A"; Mat w = fmt::shallow_of (y.MA); w->kind = s.oneof<SLIP_kind> ({SLIP_TRIPLET, SLIP_DENSE, (SLIP_kind) 3, (SLIP_kind) -1});
                    if (s.chance (1, 3)) { A = NULL; what += " is NULL"; } else { T [nt] = std::move (w); A = T [nt++]; what += " has the wrong kind"; }
                    break;
                }
                default:
                {
                    Mat w = fmt::shallow_of (y.MA);
                    if (s.chance (1, 3)) w->m = w->n = s.oneof<int64_t> ({-1, -2, -5, -1000}); else { what += " A"; w = wrong_size (s, y.MA, what, true, true, true); }
                    if (w->m < 0) what += " A has negative size"; T [nt] = std::move (w); A = T [nt++];
                }
            }
            else if (fn == 3) switch (s.draw (4))
            {
                case 0: case 1: { int q = (int) s.draw (4); h [q] = false; what += " handle " + std::to_string (q) + " missing"; break; }
                case 2: S = NULL; what += " S is NULL"; break;
                default: bad_matrix (A, "A", SLIP_CSC, SLIP_MPZ, true);
            }
            else if (fn == 4) switch (s.draw (8))
            {
                case 0: h [0] = false; what += " no handle"; break;
                case 1: S = NULL; what += " S is NULL"; break;
                case 2: pinv = NULL; what += " pinv is NULL"; break;
                case 3: bad_matrix (A, "A", SLIP_CSC, SLIP_MPZ, true); break;
                case 4: bad_matrix (b, "b", SLIP_DENSE, SLIP_MPZ, false, true, false); break;
                case 5: bad_matrix (L, "L", SLIP_CSC, SLIP_MPZ, true); break;
                case 6: bad_matrix (U, "U", SLIP_CSC, SLIP_MPZ, true); break;
                default: bad_matrix (rhos, "rhos", SLIP_DENSE, SLIP_MPZ, false, true, false);
            }
            else switch (s.draw (4))
            {
                case 0: h [0] = false; what += " no handle"; break;
                case 1: bt = s.oneof<SLIP_type> ({SLIP_MPZ, SLIP_INT64, (SLIP_type) 5, (SLIP_type) -1}); what += " type"; break;
                case 2: bad_matrix (A, "A", SLIP_CSC, SLIP_MPZ, true); break;
                default: bad_matrix (b, "b", SLIP_DENSE, SLIP_MPZ, false, true, false);
            }
        }
        if (fn == 4 && nd == 2 && A && L && U && b && A->m == A->n && L->m == A->m && L->n == A->n && U->m == A->m && U->n == A->n && b->m == A->m && rhos && rhos->m == A->m) continue; // consistent again
        c.label (std::string (fnm [fn])); c.mix (what); c.mix (fn);
        told += std::string (fnm [fn]) + ":" + what + "; ";
        std::string tb; for (int q = 0; q < nt; q++) if (T [q].p) tb.append ((char *) T [q].p, sizeof (SLIP_matrix));
        live0 = mem::outstanding ();
        switch (fn)
        {
            case 0: r = SUT (SLIP_matrix_allocate (h [0] ? &out [0] : NULL, ck, ct, am, an, 4, s.flip (), s.flip (), op)); break;
            case 1: r = SUT (SLIP_matrix_copy (h [0] ? &out [0] : NULL, ck, ct, cnull ? NULL : csrc, op)); break;
            case 2: r = SUT (SLIP_LU_analyze (h [0] ? &sout : NULL, A, op)); break;
            case 3: r = SUT (SLIP_LU_factorize (h [0] ? &out [0] : NULL, h [1] ? &out [1] : NULL, h [2] ? &out [2] : NULL, h [3] ? &pout : NULL, A, S, op)); break;
            case 4: r = SUT (SLIP_LU_solve (h [0] ? &out [0] : NULL, b, A, L, U, rhos, S, pinv, op)); break;
            default: r = SUT (SLIP_backslash (h [0] ? &out [0] : NULL, bt, A, b, op));
        }
        std::string ta; for (int q = 0; q < nt; q++) if (T [q].p) ta.append ((char *) T [q].p, sizeof (SLIP_matrix));
        for (int q = 0; q < nt; q++) if (T [q].p && T [q]->x_shallow) { T [q]->kind = SLIP_DENSE; T [q]->type = SLIP_INT64; }   // so that it can be freed whatever it says
        CHECK (r == SLIP_INCORRECT_INPUT, "status", fnm [fn] << " with:" << what << " returned " << info_name (r));
        for (auto q : out) CHECK (q == NULL || q == sent, "object", fnm [fn] << " with:" << what << " returned an object");
        CHECK (pout == NULL || pout == (int64_t *) 0x40, "object", fnm [fn] << " with:" << what << " returned a permutation");
        CHECK (sout == NULL || sout == (SLIP_LU_analysis *) 0x40, "object", fnm [fn] << " with:" << what << " returned an analysis");
        CHECK (mem::outstanding () == live0, "leak", fnm [fn] << " with:" << what << " leaked " << mem::outstanding () - live0 << " blocks");
        CHECK (ta == tb && y.snapshot () == before, "modified", fnm [fn] << " with:" << what << " changed its inputs");
        pbt::count ("invalid calls");
    }
    // the session still works
    Ana S2; Fact F2; Mat X;
    CHECK_OK (analyze (S2, y.MA, y.o), "SLIP_LU_analyze afterwards"); CHECK_OK (factorize (F2, y.MA, S2, y.o), "SLIP_LU_factorize afterwards");
    CHECK_OK (lusolve (X, y.Mb, y.MA, F2, S2, y.o), "SLIP_LU_solve afterwards");
    check_solution (y.A, y.sa, y.b, y.sb, y.k, X, "afterwards");
    no_leftover ("invalid calls");
}
Prop pbt::the_prop = {"E01", "a case is a valid factorized system and one to five calls to allocate / copy / analyze / factorize / solve / one-call solve in which one or two arguments are missing, of another (valid) kind or type, of other or negative dimensions; status, handles, inputs and the allocator ledger are checked after each and the valid calls are repeated at the end; every case is non-trivial", 150000, 2000000, run};
