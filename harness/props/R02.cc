// R02: the allocator ledger over histories of calls
#include "shallow.h"
#include "lu.h"
#include "gmpw.h"
using namespace pbt;

// a library call during which memory must not come from, or go to, the system allocator directly
#define W(expr) ([&] { struct Wt { Wt () { mem::watch = true; } ~Wt () { mem::watch = false; } } w_; return SUT (expr); } ())

struct Sys
{
    ZM A; ZD b; int64_t k = 1; mpq_class sa, sb; SLIP_matrix *MA = NULL, *Mb = NULL, *L = NULL, *U = NULL, *R = NULL; SLIP_LU_analysis *S = NULL; int64_t *pinv = NULL;
};
struct World { std::vector<Sys> y; std::vector<SLIP_matrix *> m; std::vector<SLIP_options *> o; std::vector<void *> blk; };

static void drop (SLIP_matrix *&p, SLIP_options *o) { W (SLIP_matrix_free (&p, o)); CHECK (p == NULL, "handle", "SLIP_matrix_free did not clear the handle"); }
static void unfactor (Sys &y, SLIP_options *o) { drop (y.L, o); drop (y.U, o); drop (y.R, o); W (SLIP_free (y.pinv)); y.pinv = NULL; }
static void unanalyze (Sys &y, SLIP_options *o) { W (SLIP_LU_analysis_free (&y.S, o)); CHECK (!y.S, "handle", "SLIP_LU_analysis_free did not clear the handle"); }

static void run (Src &s, Ctx &c)
{
    mem::watch_system (); mem::reset (); mem::foreign = 0; mem::foreign_what.clear (); ses::defaults (); SuiteSparse_config.printf_func = printf; c.nontrivial = true;
    std::vector<std::string> log; struct Tell { Ctx &c; std::vector<std::string> &l; ~Tell () { c.describe ([&] (std::ostream &t) { for (auto &x : l) t << x << "; "; }); } } tell {c, log};
    struct End { ~End () { SUT (SLIP_finalize ()); ses::defaults (); mem::reset (); SuiteSparse_config.printf_func = printf; } } end;
    auto clean = [&] (const std::string &w) { CHECK (mem::bad_free == 0, "release", w << ": " << mem::bad_what); CHECK (mem::foreign == 0, "foreign", w << ": " << mem::foreign_what); };
    int sessions = s.pick ({4, 1, 1}) + 1;
    for (int q = 0; q < sessions; q++)
    {
        bool expert = s.flip (); SLIP_info r;
        SuiteSparse_config.malloc_func = expert ? malloc : mem::Malloc; SuiteSparse_config.calloc_func = expert ? calloc : mem::Calloc; SuiteSparse_config.realloc_func = expert ? realloc : mem::Realloc; SuiteSparse_config.free_func = expert ? free : mem::Free;
        // W would install the library's functions, which are not known yet
        mem::inside++; mem::watch = true; r = expert ? SLIP_initialize_expert (mem::Malloc, mem::Calloc, mem::Realloc, mem::Free) : SLIP_initialize (); mem::watch = false; mem::inside--;
        ses::capture (); ses::defaults (); CHECK_OK (r, "initialization"); log.push_back (expert ? "initialize-expert" : "initialize"); out::capture ();
        World w; int steps = (int) s.size (1, 24);
        for (int t = 0; t < steps; t++)
        {
            out::text.clear ();
            SLIP_options *o = w.o.empty () || s.chance (1, 3) ? NULL : w.o [s.draw (w.o.size ())]; std::string nm; int op = s.pick ({2, 3, 4, 4, 3, 4, 2, 3, 3, 3, 3, 2, 2, 2});
            if (w.y.empty () && op >= 2 && op <= 5) op = 1;
            Sys *y = w.y.empty () ? NULL : &w.y [s.draw (w.y.size ())]; auto any = [&] () -> SLIP_matrix * { std::vector<SLIP_matrix *> v (w.m); for (auto &z : w.y) for (auto p : {z.MA, z.Mb, z.L, z.U, z.R}) if (p) v.push_back (p); return v.empty () ? NULL : v [s.draw (v.size ())]; };
            size_t live0 = mem::outstanding ();
            switch (op)
            {
                case 0: { nm = "options"; SLIP_options *p = W (SLIP_create_default_options ()); CHECK (p, "options", "no options"); gen::options (s, p); p->prec = (int) s.range (2, 300); p->check = s.flip (); p->print_level = (int) s.draw (4); w.o.push_back (p); break; }
                case 1:
                {
                    nm = "system"; Sys z; gen::SqOpt so; so.maxn = 6; if (s.chance (1, 2)) z.A = gen::nonsing (s, c, so); else z.A = gen::square (s, c, so);
                    if (s.chance (1, 8)) z.A = ZM (); z.k = s.range (1, 3); z.b = gen::rhs (s, z.A.n, z.k, gen::int_kind (s)); z.sa = gen::scale (s); z.sb = gen::scale (s);
                    { Mat a = mk_csc (z.A, z.sa, s.draw (3)), b = mk_dense (z.b, z.A.n, z.k, z.sb); z.MA = a.p; z.Mb = b.p; a.p = b.p = NULL; } key_of (c, z.A); nm += " " + show (z.A); w.y.push_back (z); break;
                }
                case 2: if (y->S) { nm = "free-analysis"; bool first = s.flip (); if (first) unfactor (*y, o); unanalyze (*y, o); if (s.flip ()) unanalyze (*y, o); if (!first) unfactor (*y, o); } if (s.chance (4, 5)) { nm += "analyze"; r = W (SLIP_LU_analyze (&y->S, y->MA, o)); CHECK_OK (r, "SLIP_LU_analyze"); } break;
                case 3:
                {
                    if (!y->S) { nm = "(analyze)"; CHECK_OK (W (SLIP_LU_analyze (&y->S, y->MA, o)), "SLIP_LU_analyze"); } if (s.chance (1, 4)) y->S->lnz = y->S->unz = std::max<int64_t> (1, y->A.n);
                    if (y->L) { nm += "unfactor "; unfactor (*y, o); } nm += "factorize"; live0 = mem::outstanding (); r = W (SLIP_LU_factorize (&y->L, &y->U, &y->R, &y->pinv, y->MA, y->S, o));
                    CHECK (r == SLIP_OK || r == SLIP_SINGULAR, "status", "SLIP_LU_factorize returned " << info_name (r));
                    if (r != SLIP_OK) { c.label ("singular"); nm += " (singular)"; CHECK (!y->L && !y->U && !y->R && !y->pinv, "object", "a singular factorization returned an object"); }
                    break;
                }
                case 4:
                {
                    if (!y->L) { nm = "-"; break; } nm = "solve"; if (s.chance (1, 3)) { Mat b = mk_dense (gen::rhs (s, y->A.n, 2, 0), y->A.n, 2, 1); SLIP_matrix *X = NULL; r = W (SLIP_LU_solve (&X, b, y->MA, y->L, y->U, y->R, y->S, y->pinv, o)); CHECK_OK (r, "SLIP_LU_solve"); w.m.push_back (X); }
                    else { SLIP_matrix *X = NULL; r = W (SLIP_LU_solve (&X, y->Mb, y->MA, y->L, y->U, y->R, y->S, y->pinv, o)); CHECK_OK (r, "SLIP_LU_solve"); w.m.push_back (X); }
                    break;
                }
                case 5:
                {
                    SLIP_type ty = s.oneof<SLIP_type> ({SLIP_MPQ, SLIP_FP64, SLIP_MPFR}); nm = std::string ("backslash ") + fmt::tname [ty]; SLIP_matrix *X = NULL; r = W (SLIP_backslash (&X, ty, y->MA, y->Mb, o));
                    CHECK (r == SLIP_OK || r == SLIP_SINGULAR, "status", "SLIP_backslash returned " << info_name (r)); if (r == SLIP_OK) w.m.push_back (X); else { nm += " (singular)"; c.label ("singular"); CHECK (!X, "object", "a singular solve returned an object"); } break;
                }
                case 6:
                {
                    int kind = (int) s.draw (3), type = (int) s.draw (5); bool sh = s.chance (1, 3), init = s.flip (); SLIP_matrix *X = NULL; int64_t m = s.range (0, 5), n = s.range (0, 5); nm = std::string ("allocate ") + fmt::kname [kind] + " " + fmt::tname [type] + (sh ? " shallow" : "") + (init ? "" : " bare");
                    int64_t cap = s.range (0, 9); r = W (SLIP_matrix_allocate (&X, (SLIP_kind) kind, (SLIP_type) type, m, n, cap, sh, init, o)); CHECK_OK (r, "SLIP_matrix_allocate");
                    if (sh || !init) { drop (X, o); if (s.flip ()) drop (X, o); } else w.m.push_back (X); break;
                }
                case 7:
                {
                    SLIP_matrix *M = any (); if (!M) { nm = "-"; break; } int kind = (int) s.draw (3), type = (int) s.draw (5); SLIP_matrix *X = NULL; nm = std::string ("copy ") + fmt::kname [M->kind] + " " + fmt::tname [M->type] + " to " + fmt::kname [kind] + " " + fmt::tname [type];
                    r = W (SLIP_matrix_copy (&X, (SLIP_kind) kind, (SLIP_type) type, M, o)); nm += std::string (" ") + info_name (r);
                    // double values of huge magnitude or not finite may be refused
                    if (r == SLIP_OK) w.m.push_back (X); else { CHECK (r == SLIP_INCORRECT_INPUT, "status", "SLIP_matrix_copy returned " << info_name (r)); CHECK (!X, "object", "a failed copy returned an object"); c.label ("copy refused"); } break;
                }
                case 8: { SLIP_matrix *M = s.chance (1, 8) ? NULL : any (); nm = "check"; r = W (SLIP_matrix_check (M, o)); W (SLIP_matrix_nnz (M, o)); break; }
                case 9:
                {   // release something
                    int e = (int) s.draw (4); nm = "free"; if (e == 0 && !w.m.empty ()) { size_t k = s.draw (w.m.size ()); drop (w.m [k], o); if (s.flip ()) drop (w.m [k], o); w.m.erase (w.m.begin () + k); }
                    else if (e == 1 && y) { unfactor (*y, o); unanalyze (*y, o); drop (y->MA, o); drop (y->Mb, o); w.y.erase (w.y.begin () + (y - &w.y [0])); }
                    else if (e == 2 && !w.o.empty ()) { size_t k = s.draw (w.o.size ()); W (SLIP_free (w.o [k])); w.o.erase (w.o.begin () + k); }
                    else { SLIP_matrix *z = NULL; SLIP_LU_analysis *S = NULL; drop (z, o); W (SLIP_LU_analysis_free (&S, o)); W (SLIP_matrix_free (NULL, o)); W (SLIP_LU_analysis_free (NULL, o)); W (SLIP_free (NULL)); }
                    break;
                }
                case 10:
                {   // the memory helpers
                    nm = "block"; int e = (int) s.draw (4); if (e == 0) { size_t z = s.size (0, 100); void *p = W (SLIP_malloc (z)); CHECK (p, "block", "no memory"); w.blk.push_back (p); } else if (e == 1) { size_t z = s.size (0, 20), b = s.range (0, 9); void *p = W (SLIP_calloc (z, b)); CHECK (p, "block", "no memory"); w.blk.push_back (p); }
                    else if (!w.blk.empty ()) { size_t k = s.draw (w.blk.size ()); if (e == 2) { bool ok = false; size_t old = mem::size_of (w.blk [k]), nw = s.size (1, 120); void *p = W (SLIP_realloc (nw, old, 1, w.blk [k], &ok)); CHECK (p && ok, "block", "SLIP_realloc failed"); w.blk [k] = p; } else { W (SLIP_free (w.blk [k])); w.blk.erase (w.blk.begin () + k); } }
                    break;
                }
                case 11:
                {   // rejected input
                    SLIP_matrix *X = NULL, *Y = NULL, *Z = NULL; SLIP_LU_analysis *S = NULL; int64_t *pi = NULL; SLIP_matrix *M = any (); int e = (int) s.draw (7); nm = "rejected " + std::to_string (e);
                    if (e == 0) { int ty = (int) s.draw (5), mm = s.flip () ? -1 : 3; bool b1 = s.flip (), b2 = s.flip (); r = W (SLIP_matrix_allocate (&X, SLIP_CSC, (SLIP_type) ty, mm, -3, 4, b1, b2, o)); }
                    else if (e == 1) r = W (SLIP_matrix_copy (&X, (SLIP_kind) 7, SLIP_MPZ, M, o));
                    else if (e == 2) r = W (SLIP_LU_analyze (&S, M && M->kind != SLIP_CSC ? M : NULL, o));
                    else if (e == 3) r = W (SLIP_LU_factorize (&X, &Y, &Z, &pi, M && M->type != SLIP_MPZ ? M : NULL, y ? y->S : NULL, o));
                    else if (e == 4) r = W (SLIP_backslash (&X, SLIP_INT64, y ? y->MA : NULL, y ? y->Mb : NULL, o));
                    else if (e == 5) r = W (SLIP_backslash (&X, SLIP_MPQ, y ? y->MA : NULL, M && M->kind != SLIP_DENSE ? M : NULL, o));
                    else r = W (SLIP_LU_solve (&X, M && M->type != SLIP_MPZ ? M : NULL, y ? y->MA : NULL, y ? y->L : NULL, y ? y->U : NULL, y ? y->R : NULL, y ? y->S : NULL, y ? y->pinv : NULL, o));
                    CHECK (r == SLIP_INCORRECT_INPUT, "status", nm << " returned " << info_name (r)); CHECK (!X && !Y && !Z && !S && !pi, "object", nm << " returned an object");
                    CHECK (mem::outstanding () == live0, "leak", nm << ": " << mem::outstanding () << " blocks instead of " << live0); c.label ("rejected input"); break;
                }
                case 12:
                {   // a guarded arithmetic function (its operands are made and cleared by this harness)
                    gw::Vals v; gw::Args x; int k = (int) s.draw (gw::nops + 6); gw::gen (s, v, x); const gw::Op *opr = k < gw::nops ? &gw::ops [k] : NULL; if (opr && !opr->ok (v, x)) { nm = "-"; break; }
                    if (opr && opr->res [0] == '+') { nm = "-"; break; } if (opr && !strcmp (opr->name, "SLIP_mpz_divexact")) { nm = "-"; break; } for (int e = 0; e < 3; e++) v.fe [e] %= 200;
                    nm = opr ? opr->name : "SLIP_mpfr_asprintf"; gw::Pool p; gw::load (p, v); r = (SLIP_info) (opr ? SUT (opr->run (p, x, true)) : gw::print_op (p, x, true, k - gw::nops)); break;
                }
                default:
                {   // numbers made and cleared with the guarded functions
                    nm = "numbers"; mpz_t z; mpq_t e; mpfr_t f; size_t zb = s.draw (2000), fb = s.range (2, 500); int64_t zv = s.range (-1000, 1000); CHECK_OK (W (SLIP_mpz_init2 (z, zb)), "SLIP_mpz_init2"); CHECK_OK (W (SLIP_mpq_init (e)), "SLIP_mpq_init"); CHECK_OK (W (SLIP_mpfr_init2 (f, fb)), "SLIP_mpfr_init2");
                    CHECK_OK (W (SLIP_mpz_set_si (z, zv)), "SLIP_mpz_set_si"); int64_t g = s.range (1, 6); while (g--) CHECK_OK (W (SLIP_mpz_mul (z, z, z)), "SLIP_mpz_mul"); CHECK_OK (W (SLIP_mpq_set_z (e, z)), "SLIP_mpq_set_z"); CHECK_OK (W (SLIP_mpfr_set_q (f, e, MPFR_RNDN)), "SLIP_mpfr_set_q");
                    if (s.flip ()) { char *t = NULL; CHECK_OK (W (SLIP_mpfr_asprintf (&t, "%.20Rf", f)), "SLIP_mpfr_asprintf"); W (SLIP_mpfr_free_str (t)); } if (s.flip ()) { SUT (mpfr_const_pi (f, MPFR_RNDN)); c.label ("constant cache"); }
                    SUT ((mpz_clear (z), mpq_clear (e), mpfr_clear (f), 0));
                }
            }
            log.push_back (nm); count ("calls"); c.mix (op); clean (nm);
        }
        // free everything in a generated order, then end the session
        std::vector<std::function<void ()>> fr; SLIP_options *o0 = NULL; for (auto &p : w.m) fr.push_back ([&] { drop (p, o0); }); for (auto &p : w.o) fr.push_back ([&] { W (SLIP_free (p)); }); for (auto &p : w.blk) fr.push_back ([&] { W (SLIP_free (p)); });
        for (auto &y : w.y) { for (auto p : {&y.MA, &y.Mb, &y.L, &y.U, &y.R}) fr.push_back ([=] { drop (*p, NULL); }); fr.push_back ([&] { unanalyze (y, NULL); }); fr.push_back ([&] { W (SLIP_free (y.pinv)); }); }
        s.shuffle (fr); for (auto &f : fr) f ();
        clean ("freeing"); CHECK_OK (W (SLIP_finalize ()), "SLIP_finalize"); log.push_back ("finalize"); ses::defaults (); clean ("finalizing");
        CHECK (mem::outstanding () == 0, "leak", mem::outstanding () << " blocks are still allocated after everything was freed and session " << q << " ended"); count ("sessions");
    }
}
Prop pbt::the_prop = {"R02", "a case is a history of one to three sessions (custom or standard initialization over ledgered memory functions) of generated calls: systems of any size including 0, analyses, factorizations (also singular), solves, copies, checks, rejected calls, memory helpers, guarded arithmetic and releases in any order; every case is non-trivial", 250000, 4000000, run};
