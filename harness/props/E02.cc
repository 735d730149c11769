// E02: sessions: nothing works outside one; they can be repeated; double initialize / finalize are rejected
#include "shallow.h"
#include "lu.h"
#include <gmp.h>
using namespace pbt;

// two further sets of memory functions that only forward to the tracked ones and count who was asked
static uint64_t asked [2];
static void *m0 (size_t n) { asked [0]++; return mem::Malloc (n); }
static void *c0 (size_t n, size_t s) { asked [0]++; return mem::Calloc (n, s); }
static void *r0 (void *p, size_t n) { asked [0]++; return mem::Realloc (p, n); }
static void f0 (void *p) { asked [0]++; mem::Free (p); }
static void *m1 (size_t n) { asked [1]++; return mem::Malloc (n); }
static void *c1 (size_t n, size_t s) { asked [1]++; return mem::Calloc (n, s); }
static void *r1 (void *p, size_t n) { asked [1]++; return mem::Realloc (p, n); }
static void f1 (void *p) { asked [1]++; mem::Free (p); }

struct Hooks { void *(*m) (size_t); void *(*c) (size_t, size_t); void *(*r) (void *, size_t); void (*f) (void *); void *(*ga) (size_t); void *(*gr) (void *, size_t, size_t); void (*gf) (void *, size_t);
    bool operator== (const Hooks &o) const { return m == o.m && c == o.c && r == o.r && f == o.f && ga == o.ga && gr == o.gr && gf == o.gf; } };
static Hooks hooks ()
{
    Hooks h; h.m = SuiteSparse_config.malloc_func; h.c = SuiteSparse_config.calloc_func; h.r = SuiteSparse_config.realloc_func; h.f = SuiteSparse_config.free_func;
    mp_get_memory_functions (&h.ga, &h.gr, &h.gf); return h;
}
static void set (int k) { SuiteSparse_config.malloc_func = k ? m1 : m0; SuiteSparse_config.calloc_func = k ? c1 : c0; SuiteSparse_config.realloc_func = k ? r1 : r0; SuiteSparse_config.free_func = k ? f1 : f0; }

struct Work { ZM A; ZD b; int64_t k; mpq_class sa, sb; SLIP_options o; int kind, type; };

// one small piece of work in an open session; its result as text
static std::string work (const Work &w)
{
    std::string t; Mat A = mk_csc (w.A, w.sa), b = mk_dense (w.b, w.A.n, w.k, w.sb), C, X; Ana S; Fact F;
    SLIP_options *o = SUT (SLIP_create_default_options ()); CHECK (o != NULL, "options", "no options in an open session");
    o->pivot = w.o.pivot; o->order = w.o.order; o->tol = w.o.tol; o->prec = w.o.prec;
    struct G { SLIP_options *o; ~G () { SUT (SLIP_free (o)); } } g {o};
    CHECK_OK (SUT (SLIP_matrix_copy (&C.p, (SLIP_kind) w.kind, (SLIP_type) w.type, A, o)), "SLIP_matrix_copy");
    CHECK_OK (SUT (SLIP_matrix_check (C, o)), "SLIP_matrix_check");
    fmt::valid (C, "copy"); t += show (fmt::read (C, "copy"));
    CHECK_OK (analyze (S, A, o), "SLIP_LU_analyze");
    int r = factorize (F, A, S, o); t += info_name (r);
    if (r == SLIP_OK)
    {
        CHECK_OK (lusolve (X, b, A, F, S, o), "SLIP_LU_solve");
        t += vsnap (F.L) + vsnap (F.U) + vsnap (F.rhos) + vsnap (X); t.append ((char *) F.pinv, w.A.n * 8);
        Mat Y; CHECK_OK (SUT (SLIP_backslash (&Y.p, SLIP_FP64, A, b, o)), "SLIP_backslash"); t += vsnap (Y);
        check_solution (w.A, w.sa, w.b, w.sb, w.k, X, "session result");
    }
    else CHECK (r == SLIP_SINGULAR, "status", "SLIP_LU_factorize returned " << info_name (r));
    return t;
}

static SLIP_info open_ (int expert, int which)
{   // from the number library's default memory functions, as a program that used it on its own would
    ses::defaults (); SLIP_info r = !expert ? SLIP_initialize () : which ? SLIP_initialize_expert (m1, c1, r1, f1) : SLIP_initialize_expert (m0, c0, r0, f0);
    void *(*d) (size_t); ses::capture (); ses::defaults (); mp_get_memory_functions (&d, NULL, NULL);
    if (r == SLIP_OK) CHECK (ses::g_alloc != d, "allocator", "initialization did not install the memory functions of the number library");
    return r;
}

struct Objs { SLIP_matrix *A = NULL, *b = NULL, *L = NULL, *U = NULL, *rhos = NULL; int64_t *pinv = NULL; SLIP_LU_analysis *S = NULL; SLIP_options *o = NULL; void *blk = NULL; bool have = false; };

static void closed_calls (Src &s, Objs &q, std::string &told)
{
    int nc = (int) s.range (1, 8);
    for (int i = 0; i < nc; i++)
    {
        int f = (int) s.draw (15); Hooks h = hooks (); uint64_t a0 = asked [0], a1 = asked [1], l0 = mem::live.size (); int st = SLIP_PANIC; const char *nm = "";
        SLIP_matrix *sent = (SLIP_matrix *) 0x40, *o1 = sent, *o2 = sent, *o3 = sent; int64_t *po = (int64_t *) 0x40; SLIP_LU_analysis *so = (SLIP_LU_analysis *) 0x40;
        SLIP_matrix *A = q.A, *b = q.b; SLIP_options *op = q.have && s.flip () ? q.o : NULL;
        Objs keep = q;
        // the freeing functions and the checks never look at their arguments outside a session
        switch (f)
        {
            case 0: nm = "SLIP_finalize"; st = SUT (SLIP_finalize ()); break;
            case 1: nm = "SLIP_matrix_allocate"; st = SUT (SLIP_matrix_allocate (&o1, (SLIP_kind) s.draw (3), (SLIP_type) s.draw (5), 2, 2, 4, s.flip (), s.flip (), op)); break;
            case 2: nm = "SLIP_matrix_free"; { SLIP_matrix *p = q.A; SUT (SLIP_matrix_free (&q.A, op)); CHECK (q.A == p, "closed", "SLIP_matrix_free changed its handle outside a session"); } break;
            case 3: nm = "SLIP_matrix_copy"; st = SUT (SLIP_matrix_copy (&o1, SLIP_DENSE, SLIP_MPQ, A, op)); break;
            case 4: nm = "SLIP_matrix_check"; st = SUT (SLIP_matrix_check (A, op)); break;
            case 5: nm = "SLIP_matrix_nnz"; CHECK (SUT (SLIP_matrix_nnz (A, op)) < 0, "closed", "SLIP_matrix_nnz counts outside a session"); break;
            case 6: nm = "SLIP_LU_analyze"; st = SUT (SLIP_LU_analyze (&so, A, op)); break;
            case 7: nm = "SLIP_LU_factorize"; st = SUT (SLIP_LU_factorize (&o1, &o2, &o3, &po, A, q.S, op)); break;
            case 8: nm = "SLIP_LU_solve"; st = SUT (SLIP_LU_solve (&o1, b, A, q.L, q.U, q.rhos, q.S, q.pinv, op)); break;
            case 9: nm = "SLIP_backslash"; st = SUT (SLIP_backslash (&o1, SLIP_MPQ, A, b, op)); break;
            case 10: nm = "SLIP_LU_analysis_free"; SUT (SLIP_LU_analysis_free (&q.S, op)); CHECK (q.S == keep.S, "closed", "SLIP_LU_analysis_free changed its handle outside a session"); break;
            case 11: nm = "SLIP_malloc"; CHECK (SUT (SLIP_malloc (10)) == NULL, "closed", "SLIP_malloc returned a block outside a session"); break;
            case 12: nm = "SLIP_calloc"; CHECK (SUT (SLIP_calloc (10, 3)) == NULL, "closed", "SLIP_calloc returned a block outside a session"); break;
            case 13: { nm = "SLIP_realloc"; bool ok = true; void *p = SUT (SLIP_realloc (20, 10, 1, q.blk, &ok)); CHECK (p == q.blk && !ok, "closed", "SLIP_realloc worked outside a session"); break; }
            default: if (s.flip ()) { nm = "SLIP_create_default_options"; CHECK (SUT (SLIP_create_default_options ()) == NULL, "closed", "options created outside a session"); }
                     else { nm = "SLIP_free"; SUT (SLIP_free (q.blk)); }
        }
        told += std::string (nm) + " ";
        CHECK (st == SLIP_PANIC, "closed", nm << " outside a session returned " << info_name (st));
        for (auto p : {o1, o2, o3}) CHECK (p == sent || p == NULL, "closed", nm << " outside a session returned an object");
        CHECK (po == (int64_t *) 0x40 || !po, "closed", nm << " returned an object"); CHECK (so == (SLIP_LU_analysis *) 0x40 || !so, "closed", nm << " returned an object");
        CHECK (asked [0] == a0 && asked [1] == a1 && mem::live.size () == l0, "closed", nm << " used the allocator outside a session");
        CHECK (hooks () == h, "closed", nm << " changed the memory functions");
        count ("calls outside a session");
    }
}

static void run (Src &s, Ctx &c)
{
    mem::reset (); asked [0] = asked [1] = 0; ses::defaults (); SuiteSparse_config.printf_func = printf;
    SLIP_options od; gen::SqOpt so; so.maxn = 5;
    Work w; w.A = s.chance (1, 4) ? gen::square (s, c, so) : gen::nonsing (s, c, so); w.k = s.range (1, 2); w.b = gen::rhs (s, w.A.n, w.k, gen::int_kind (s));
    w.sa = gen::scale (s); w.sb = gen::scale (s); w.kind = (int) s.draw (3); w.type = s.oneof<int> ({SLIP_MPZ, SLIP_MPQ, SLIP_FP64, SLIP_MPFR});
    if (w.type == SLIP_FP64) for (auto &e : w.A.e) e.v %= mpz_class ("1000000000000");
    if (w.type == SLIP_FP64) w.type = w.sa == 1 ? SLIP_FP64 : SLIP_MPQ;
    gen::options (s, &w.o); w.o.prec = (int) s.range (2, 300);
    key_of (c, w.A); c.nontrivial = true;
    std::string told, first; struct Tell { Ctx &c; std::string &t; ~Tell () { c.describe ([&] (std::ostream &o) { o << t; }); } } tell {c, told};
    struct End { ~End () { SUT (SLIP_finalize ()); ses::defaults (); mem::reset (); SuiteSparse_config.printf_func = printf; } } end;  // whatever happens, no session stays open
    int sessions = (int) s.range (1, 5); Objs old;
    set ((int) s.draw (2));
    if (s.flip ()) { told += "before any session: "; closed_calls (s, old, told); }
    for (int q = 0; q < sessions; q++)
    {
        bool expert = s.flip (); int which = (int) s.draw (2); SLIP_info r;
        if (!expert) set (which);
        r = open_ (expert, which);
        told += expert ? "\nsession (custom allocator " + std::to_string (which) + "): " : "\nsession (standard " + std::to_string (which) + "): ";
        c.mix (expert * 2 + which);
        CHECK (r == SLIP_OK, "status", "initialization " << q << " returned " << info_name (r));
        uint64_t other = asked [1 - which];
        int steps = (int) s.range (1, 4);
        for (int t = 0; t < steps; t++)
        {
            switch (s.pick ({3, 1, 1}))
            {
                case 0:
                {
                    told += "work "; std::string res = work (w);
                    if (first.empty ()) first = res; else CHECK (res == first, "result", "session " << q << " gives another result than the first one did");
                    break;
                }
                case 1:
                {
                    told += "initialize-again "; Hooks h = hooks (); bool e2 = s.flip ();
                    r = e2 ? (which ? SUT (SLIP_initialize_expert (m0, c0, r0, f0)) : SUT (SLIP_initialize_expert (m1, c1, r1, f1))) : SUT (SLIP_initialize ());
                    CHECK (r == SLIP_PANIC, "double", "a second initialization returned " << info_name (r));
                    CHECK (hooks () == h, "double", "a rejected initialization changed the memory functions");
                    break;
                }
                default:
                {
                    void *p = SUT (SLIP_malloc (100)); CHECK (p != NULL && mem::size_of (p) >= 100 && mem::size_of (p) != (size_t) -1, "open", "SLIP_malloc does not work in a session");
                    SUT (SLIP_free (p)); CHECK (mem::size_of (p) == (size_t) -1, "open", "SLIP_free did not return the block"); told += "malloc ";
                }
            }
        }
        CHECK (asked [1 - which] == other, "allocator", "session " << q << " used the memory functions of another session");
        bool leave = s.chance (1, 3);           // objects made now are used as arguments after the session
        Objs made;
        if (leave)
        {
            Mat A = mk_csc (w.A, w.sa), b = mk_dense (w.b, w.A.n, w.k, w.sb); Ana S; Fact F;
            CHECK_OK (analyze (S, A, NULL), "SLIP_LU_analyze");
            if (factorize (F, A, S, NULL) == SLIP_OK)
            {
                made.o = SUT (SLIP_create_default_options ()); made.blk = SUT (SLIP_malloc (32));
                made.A = A.p; made.b = b.p; made.S = S.p; made.L = F.L.p; made.U = F.U.p; made.rhos = F.rhos.p; made.pinv = F.pinv; made.have = true;
                A.p = b.p = F.L.p = F.U.p = F.rhos.p = NULL; S.p = NULL; F.pinv = NULL;
            }
        }
        if (!made.have) CHECK (mem::bad_free == 0, "memory", mem::bad_what);
        r = SUT (SLIP_finalize ()); CHECK (r == SLIP_OK, "status", "finalization returned " << info_name (r));
        if (!made.have && !old.have) CHECK (mem::outstanding () == 0, "memory", mem::outstanding () << " blocks are still allocated after session " << q);
        CHECK (SUT (SLIP_finalize ()) == SLIP_PANIC, "double", "a second finalization did not return SLIP_PANIC");
        if (made.have) { old = made; told += "keep-objects "; }
        if (s.flip () || made.have) { told += "\noutside: "; closed_calls (s, old, told); }
        if (made.have)
        {   // reopen with the same allocator only to free them
            set (which); CHECK_OK (open_ (0, which), "SLIP_initialize");
            SUT (SLIP_matrix_free (&old.A, NULL)); SUT (SLIP_matrix_free (&old.b, NULL)); SUT (SLIP_matrix_free (&old.L, NULL)); SUT (SLIP_matrix_free (&old.U, NULL)); SUT (SLIP_matrix_free (&old.rhos, NULL));
            SUT (SLIP_LU_analysis_free (&old.S, NULL)); SUT (SLIP_free (old.pinv)); SUT (SLIP_free (old.o)); SUT (SLIP_free (old.blk));
            CHECK_OK (SUT (SLIP_finalize ()), "SLIP_finalize"); old = Objs ();
            CHECK (mem::outstanding () == 0, "memory", mem::outstanding () << " blocks are left of the objects kept after session " << q);
        }
        count ("sessions");
    }
    CHECK (mem::bad_free == 0, "memory", mem::bad_what);
}
Prop pbt::the_prop = {"E02", "a case is a history of one to five sessions (standard or custom allocator, two allocator sets) with solver work, second initializations, calls to every public function outside the sessions with no arguments or with objects of the previous session, and finalization; results must equal those of the first session; every case is non-trivial", 100000, 2000000, run};
