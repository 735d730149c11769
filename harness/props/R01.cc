// R01: every allocation of a generated call is made to fail in turn
#include "shallow.h"
#include "lu.h"
#include "gmpw.h"
using namespace pbt;

// what one call gave back
struct Got { int r = 0; bool obj = false; std::string val; };
// a call under test: runs with the current failure plan, reports, and frees what it returned
typedef std::function<Got ()> Call;

static std::string why (uint64_t k, bool ever) { return " with allocation " + std::to_string (k) + (ever ? " and all later ones" : "") + " failing"; }

// fail each allocation of the call; inputs () is the state of everything the caller owns
static void enumerate (Src &s, Ctx &c, const char *name, const Call &call, const std::function<std::string ()> &inputs, uint64_t limit)
{
    std::string in0 = inputs ();
    mem::plan (0, false); Got ref = call (); uint64_t n = mem::calls;
    CHECK (inputs () == in0, "inputs", name << " changed its inputs");
    mem::plan (0, false); Got again = call (); n = std::max (n, mem::calls);
    CHECK (again.r == ref.r && again.val == ref.val, "repeat", name << " repeated gives another result");
    size_t base = mem::outstanding ();
    count ("allocations in target calls", n);
    std::vector<uint64_t> ks;
    if (n <= limit) for (uint64_t k = 1; k <= n; k++) ks.push_back (k);
    else for (uint64_t t = 0; t < limit; t++) ks.push_back (t < limit / 2 ? 1 + t * n / (limit / 2) : 1 + s.draw (n));
    if (n > limit) count ("calls with sampled failure points"); else count ("calls with every failure point tried");
    for (uint64_t k : ks) for (int ever = 0; ever < 2; ever++)
    {
        mem::plan (k, ever); Got g = call (); uint64_t f = mem::failed; mem::plan (0, false);
        count ("failures injected", f > 0);
        if (f == 0)
        {   // fewer allocations this time (cached blocks): an ordinary call
            CHECK (g.r == ref.r && g.val == ref.val, "repeat", name << " repeated gives another result"); continue;
        }
        // a block that only shrinks may be kept: then the result must be complete
        if (g.r == ref.r) CHECK (g.val == ref.val, "result", name << " returned " << info_name (g.r) << why (k, ever) << " but with a different result");
        else
        {
            CHECK (g.r == SLIP_OUT_OF_MEMORY, "status", name << " returned " << info_name (g.r) << why (k, ever));
            CHECK (!g.obj, "object", name << " returned an object" << why (k, ever));
            count ("out of memory reported");
        }
        CHECK (inputs () == in0, "inputs", name << " changed its inputs" << why (k, ever));
        CHECK (mem::bad_free == 0, "memory", name << ": " << mem::bad_what << why (k, ever));
        if (s.chance (1, 4)) { Got h = call (); CHECK (h.r == ref.r && h.val == ref.val, "retry", name << " gives " << info_name (h.r) << " or another result when memory is available again, after a failure" << why (k, ever)); }
        // the library may keep or drop its own lists, never more than a few blocks
        CHECK (mem::outstanding () <= base + 40, "leak", name << " left " << mem::outstanding () - base << " blocks" << why (k, ever));
    }
    mem::plan (0, false); Got h = call ();
    CHECK (h.r == ref.r && h.val == ref.val, "retry", name << " gives " << info_name (h.r) << " or another result after the failures");
    CHECK (inputs () == in0, "inputs", name << " changed its inputs");
}

static SLIP_matrix *const SENT = (SLIP_matrix *) 0x40;
static Got take (int r, SLIP_matrix *&p) { Got g; g.r = r; g.obj = p && p != SENT; if (r == SLIP_OK) { CHECK (g.obj, "object", "success without an object"); g.val = vsnap (p); } if (p == SENT) p = NULL; return g; }

// numbers read from a text
static void scan (Src &s, Ctx &c, std::string &told, uint64_t limit)
{
    std::string t; int nf = (int) s.range (1, 4), long_at = s.flip () ? (int) s.draw (nf) : -1; std::vector<int> ty; ZV zs; QV qs;
    for (int i = 0; i < nf; i++)
    {
        int k = s.flip (); ty.push_back (k); zs.push_back (gen::integer (s, gen::int_kind (s))); qs.push_back (gen::rational (s, gen::int_kind (s)));
        if (i == long_at) { zs [i] = gen::bits (s, (int) s.range (300, 12000)) + 1; if (s.flip ()) zs [i] = -zs [i]; qs [i] = mpq_class (zs [i], mpz_class (gen::bits (s, 3000) + 1)); qs [i].canonicalize (); }
        t += (k ? qs [i].get_str () : zs [i].get_str ()) + s.oneof<const char *> ({" ", "\n", "  "});
    }
    c.label ("SLIP_gmp_fscanf"); c.mix (t); told = "SLIP_gmp_fscanf on \"" + t + "\"";
    Call call = [&] {
        auto f0 = mem::fail_at; auto e0 = mem::fail_forever; mem::fail_at = 0; FILE *f = fmemopen ((void *) t.data (), t.size (), "r"); if (!f) abort ();
        gw::Pool p; for (int k = 0; k < 3; k++) { SUT ((mpz_init (p.z [k]), mpq_init (p.q [k]), k ? (mpz_set_si (p.z [k], 99), 0) : 0)); p.zi [k] = p.qi [k] = true; }
        mem::plan (f0, e0); Got g; g.r = SLIP_OK;
        for (int i = 0; i < nf && g.r == SLIP_OK; i++)
        {
            g.r = ty [i] ? SUT (SLIP_gmp_fscanf (f, "%Qd", p.q [0])) : SUT (SLIP_gmp_fscanf (f, "%Zd", p.z [0]));
            if (g.r == SLIP_OK) CHECK (ty [i] ? mpq_class (p.q [0]) == qs [i] : mpz_class (p.z [0]) == zs [i], "scan", "field " << i << " is misread");
        }
        uint64_t nc = mem::calls, nf_ = mem::failed; mem::fail_at = 0; if (g.r == SLIP_OK) g.val = gw::text (p); fclose (f); p.clear (); mem::calls = nc; mem::failed = nf_; return g; };
    enumerate (s, c, "SLIP_gmp_fscanf", call, [] { return std::string (); }, limit);
}

static void run (Src &s, Ctx &c)
{
    Session ses; c.nontrivial = true; uint64_t limit = c.thorough ? 4000 : 400;
    gen::SqOpt so; so.maxn = s.chance (1, 6) ? 9 : 4; so.minn = 1;
    int what = (int) s.draw (10); std::string told;
    struct Tell { Ctx &c; std::string &t; ~Tell () { c.describe ([&] (std::ostream &o) { o << t; }); } } tell {c, told};
    Opt o; gen::options (s, o); o->prec = (int) s.range (2, 200); o->check = s.flip (); o->print_level = 0;
    bool nullopt = s.chance (1, 6); SLIP_options *op = nullopt ? NULL : o.p;
    if (what <= 4)
    {
        ZM A = s.chance (1, 5) ? gen::square (s, c, so) : gen::nonsing (s, c, so); int64_t n = A.n, k = s.chance (1, 10) ? 0 : s.range (1, 2); mpq_class sa = gen::scale (s), sb = gen::scale (s);
        ZD b = gen::rhs (s, n, k, gen::int_kind (s)); Mat MA = mk_csc (A, sa, s.draw (3)), Mb = mk_dense (b, n, k, sb); key_of (c, A); c.mix (what); c.mix (o->order); c.mix (o->pivot);
        Ana S; Fact F;
        if (what >= 1 && what <= 3) { CHECK_OK (analyze (S, MA, op), "SLIP_LU_analyze"); if (s.flip ()) S->lnz = S->unz = std::max<int64_t> (n, 1); }   // small estimates: the factors must grow
        if (what == 2 || what == 3) { int r = factorize (F, MA, S, op); if (r == SLIP_SINGULAR) throw Discard (); CHECK_OK (r, "SLIP_LU_factorize"); }
        bool loud = s.chance (1, 6); if (loud) { o->print_level = (int) s.range (1, 3); out::capture (); c.label ("printing"); }
        struct Quiet { ~Quiet () { SuiteSparse_config.printf_func = printf; out::text.clear (); } } quiet;
        if ((what == 2 || what == 3) && A.e.size () && s.chance (1, 6))
        {   // the factors of another matrix: the self-check refuses, or runs out of memory
            ZM B = A; auto &e = B.e [s.draw (B.e.size ())]; if (s.flip ()) e.v += 1; else e.v = 5 - 2 * e.v; o->check = true; MA = mk_csc (B, sa); c.label ("factors of another matrix");
        }
        auto inputs = [&] { std::string t = snap (MA) + snap (Mb) + snap (S, n) + snap (F.L) + snap (F.U) + snap (F.rhos) + snap (o.p); if (F.pinv) t.append ((char *) F.pinv, n * 8); return t; };
        Call call; const char *nm;
        if (what == 0) { nm = "SLIP_LU_analyze"; call = [&] { SLIP_LU_analysis *p = (SLIP_LU_analysis *) SENT; Got g; g.r = SUT (SLIP_LU_analyze (&p, MA, op)); g.obj = p && (void *) p != SENT; if (g.r == SLIP_OK) { g.val.assign ((char *) p->q, n * 8); g.val += std::to_string (p->lnz) + " " + std::to_string (p->unz); } if (g.obj) SUT (SLIP_LU_analysis_free (&p, NULL)); return g; }; }
        else if (what == 1) { nm = "SLIP_LU_factorize"; call = [&] {
            SLIP_matrix *L = SENT, *U = SENT, *R = SENT; int64_t *pi = (int64_t *) SENT; Got g; g.r = SUT (SLIP_LU_factorize (&L, &U, &R, &pi, MA, S, op));
            auto live = [] (void *p) { return p && p != SENT; };
            g.obj = live (L) || live (U) || live (R) || live (pi); if (g.r == SLIP_OK) { g.val = vsnap (L) + vsnap (U) + vsnap (R); g.val.append ((char *) pi, n * 8); }
            Mat a, b, d; if (live (L)) a.p = L; if (live (U)) b.p = U; if (live (R)) d.p = R; if (live (pi)) SUT (SLIP_free (pi)); return g; }; }
        else if (what <= 3) { nm = "SLIP_LU_solve"; call = [&] { Mat X; X.p = SENT; int r = SUT (SLIP_LU_solve (&X.p, Mb, MA, F.L, F.U, F.rhos, S, F.pinv, op)); return take (r, X.p); }; }
        else { nm = "SLIP_backslash"; SLIP_type ty = s.oneof<SLIP_type> ({SLIP_MPQ, SLIP_FP64, SLIP_MPFR}); call = [&, ty] { Mat X; X.p = SENT; int r = SUT (SLIP_backslash (&X.p, ty, MA, Mb, op)); return take (r, X.p); }; }
        c.label (nm); told = std::string (nm) + " on " + show (A) + " options " + (op ? gen::show (op) : "none");
        enumerate (s, c, nm, call, inputs, limit);
    }
    else if (what <= 7)
    {
        int kind = (int) s.draw (3), type = (int) s.draw (5), ck = (int) s.draw (3), ct = (int) s.draw (5); QM Q; Q.m = s.range (0, 4); Q.n = s.range (0, 4);
        mpq_class sc = type == SLIP_MPZ ? gen::scale (s) : mpq_class (1); int ki = gen::int_kind (s);
        for (auto &ij : fmt::positions (s, Q.m, Q.n, kind))
        {
            mpq_class v;
            switch (type) { case SLIP_MPZ: v = mpq_class (gen::integer (s, ki)) / sc; break; case SLIP_MPQ: v = gen::rational (s, ki); break; case SLIP_INT64: v = (long) s.range (-100000, 100000); break;
                default: v = mpq_class (mpz_class ((long) s.range (-100000, 100000)), mpz_class (1) << (unsigned) s.draw (20)); v.canonicalize (); }
            Q.e.push_back ({ij.first, ij.second, v});
        }
        c.mix (kind * 5 + type); c.mix (ck * 5 + ct); key_of (c, Q);
        if (what == 7)
        {
            if (s.chance (1, 6))
            {
                c.label ("SLIP_create_default_options"); told = "SLIP_create_default_options";
                Call call = [&] { SLIP_options *p = SUT (SLIP_create_default_options ()); Got g; g.r = p ? SLIP_OK : SLIP_OUT_OF_MEMORY; g.obj = p != NULL; if (p) { g.val = gen::show (p) + std::to_string (p->print_level) + std::to_string (p->check); SUT (SLIP_free (p)); } return g; };
                enumerate (s, c, "SLIP_create_default_options", call, [&] { return snap (o.p); }, limit); o.free (); return;
            }
            bool shallow = s.chance (1, 5), init = s.flip (); int64_t nz = s.range (0, 6); c.label ("SLIP_matrix_allocate");
            told = std::string ("SLIP_matrix_allocate ") + fmt::kname [kind] + " " + fmt::tname [type] + " " + std::to_string (Q.m) + "x" + std::to_string (Q.n);
            Call call = [&] { Mat X; X.p = SENT; Got g; g.r = SUT (SLIP_matrix_allocate (&X.p, (SLIP_kind) kind, (SLIP_type) type, Q.m, Q.n, nz, shallow, init, op)); g.obj = X.p && X.p != SENT; if (X.p == SENT) X.p = NULL;
                if (g.r == SLIP_OK) { g.val = std::to_string (X->nzmax) + (X->p ? "p" : "") + (X->i ? "i" : "") + (X->j ? "j" : "") + (X->x.mpz ? "x" : ""); if (init && !shallow) g.val += vsnap (X); } return g; };
            enumerate (s, c, "SLIP_matrix_allocate", call, [&] { return snap (o.p); }, limit);
        }
        else
        {
            Mat M = fmt::build (Q, (SLIP_kind) kind, (SLIP_type) type, sc, s.draw (3), op); c.label (std::string ("copy ") + fmt::tname [type] + " to " + fmt::tname [ct]);
            told = std::string ("SLIP_matrix_copy of ") + fmt::kname [kind] + " " + fmt::tname [type] + " " + show (Q) + " to " + fmt::kname [ck] + " " + fmt::tname [ct];
            if (s.chance (1, 5))
            {   // validation, sometimes printing
                o->print_level = (int) s.range (0, 3); out::capture (); c.label ("SLIP_matrix_check"); told = "SLIP_matrix_check of " + told;
                if (!Q.e.empty () && kind < 2 && s.chance (1, 3))
                {   // an index out of range or given twice
                    int64_t nz = (int64_t) Q.e.size (), t = s.draw (nz), u = s.draw (nz); c.label ("malformed");
                    if (s.flip ()) M->i [t] = s.flip () ? -1 : Q.m; else { M->i [t] = M->i [u]; if (kind == 1) M->j [t] = M->j [u]; }
                }
                Call call = [&] { Got g; out::text.clear (); g.r = SUT (SLIP_matrix_check (M, op)); if (g.r == SLIP_OK) g.val = out::text; return g; };
                enumerate (s, c, "SLIP_matrix_check", call, [&] { return snap (M) + snap (o.p); }, limit); SuiteSparse_config.printf_func = printf;
            }
            else
            {
                Call call = [&] { Mat X; X.p = SENT; int r = SUT (SLIP_matrix_copy (&X.p, (SLIP_kind) ck, (SLIP_type) ct, M, op)); return take (r, X.p); };
                enumerate (s, c, "SLIP_matrix_copy", call, [&] { return snap (M) + snap (o.p); }, limit);
            }
        }
    }
    else
    {   // one guarded function; its result is made anew each time
        if (s.chance (1, 6)) { scan (s, c, told, limit); o.free (); return; }
        gw::Vals v; gw::Args x; int k = (int) s.draw (gw::nops + 6); gw::gen (s, v, x); const gw::Op *opr = k < gw::nops ? &gw::ops [k] : NULL;
        if (s.flip ()) for (int t = 0; t < 3; t++) v.z [t] = gen::bits (s, 300 + (int) s.draw (1200)) + 1;
        if (s.chance (1, 40))
        {   // numbers so large that the number library takes its own temporary blocks
            c.label ("huge numbers"); limit = 16; if (s.flip ()) { x.a = x.b; c.label ("huge numbers, result also an operand"); } int nb = (int) s.range (540000, 1200000); for (int t = 0; t < 3; t++) { mpz_class h = s.flip () ? mpz_class (mpz_class (1) << nb) : gen::bits (s, nb); int sh = (int) s.draw (nb); if (s.flip ()) h += mpz_class (1) << sh; v.z [t] = h; if (s.flip ()) v.q [t] = mpq_class (h | 1, 8); if (s.flip ()) v.prec [t] = 600000; }
        }
        if (opr && !strcmp (opr->name, "SLIP_mpz_divexact")) { if (v.z [x.c] == 0) v.z [x.c] = 7; if (x.b != x.c) v.z [x.b] *= v.z [x.c]; }
        if (opr && !opr->ok (v, x)) throw Discard ();
        for (int t = 0; t < 3; t++) v.fe [t] %= 200;
        const char *nm = opr ? opr->name : "SLIP_mpfr_asprintf"; c.label (nm); told = std::string (nm) + gw::show (v, x); c.mix (nm); c.mix (told);
        // the operands (not the result) must be unchanged after a failure
        Call call = [&] {
            auto f0 = mem::fail_at; auto e0 = mem::fail_forever; mem::fail_at = 0;        // set up without failures
            gw::Pool p; gw::load (p, v); char rk = opr && opr->res [0] ? opr->res [opr->res [0] == '+'] : 0;
            if (opr && opr->res [0] == '+')
            {
                switch (rk) { case 'z': SUT ((mpz_clear (p.z [x.a]), 0)); break; case 'q': SUT ((mpq_clear (p.q [x.a]), 0)); break; default: if (p.f [x.a]->_mpfr_d) SUT ((mpfr_clear (p.f [x.a]), 0)); }
                memset (rk == 'z' ? (void *) &p.z [x.a] : rk == 'q' ? (void *) &p.q [x.a] : (void *) &p.f [x.a], 0, rk == 'z' ? sizeof (mpz_t) : rk == 'q' ? sizeof (mpq_t) : sizeof (mpfr_t));
            }
            mem::plan (f0, e0);
            Got g; g.r = opr ? SUT (opr->run (p, x, true)) : gw::print_op (p, x, true, k - gw::nops);
            uint64_t nc = mem::calls, nf = mem::failed; mem::fail_at = 0;
            if (g.r == SLIP_OK) { if (opr && (strstr (opr->name, "cmp") || strstr (opr->name, "sgn"))) p.r = gw::sg (p.r); g.val = gw::text (p); }
            else
            {   // the result can be cleared; every other number has its value
                bool *had = rk == 'z' ? &p.zi [x.a] : rk == 'q' ? &p.qi [x.a] : rk == 'f' ? &p.fi [x.a] : NULL;
                if (rk == 'z') { SUT ((mpz_clear (p.z [x.a]), 0)); } else if (rk == 'q') { SUT ((mpq_clear (p.q [x.a]), 0)); } else if (rk == 'f') { if (p.f [x.a]->_mpfr_d) SUT ((mpfr_clear (p.f [x.a]), 0)); }
                if (had) *had = false;
                gw::Pool q; gw::load (q, v); if (rk == 'z') { SUT ((mpz_clear (q.z [x.a]), 0)); q.zi [x.a] = false; } else if (rk == 'q') { SUT ((mpq_clear (q.q [x.a]), 0)); q.qi [x.a] = false; } else if (rk == 'f') { SUT ((mpfr_clear (q.f [x.a]), 0)); q.fi [x.a] = false; }
                q.d = p.d; q.i = p.i; q.r = p.r; q.sz = p.sz; q.str = p.str;
                CHECK (gw::text (p) == gw::text (q), "operands", nm << " changed an operand: " << gw::text (p) << " instead of " << gw::text (q));
            }
            p.clear (); mem::calls = nc; mem::failed = nf; return g; };
        enumerate (s, c, nm, call, [] { return std::string (); }, limit);
    }
    o.free (); mem::plan (0, false);
    // leave the scope of every object before the session ends: see run_ ()
}
static void run_ (Src &s, Ctx &c)
{
    // run () owns a session through its whole scope; leaks are judged afterwards
    run (s, c);
    CHECK (mem::bad_free == 0, "memory", mem::bad_what);
    if (mem::outstanding ()) mem::explain ();
    CHECK (mem::outstanding () == 0, "leak", mem::outstanding () << " blocks are still allocated after the session ended");
}
Prop pbt::the_prop = {"R01", "a case is one generated call (allocate, copy, check, analyze, factorize, solve, one-call solve, or a guarded arithmetic function) whose allocation requests are failed one by one, alone and with all later ones (every request up to the limit of 400 quick / 4000 thorough, else an even and a random sample); every case is non-trivial", 40000, 300000, run_, "fault_enumeration"};
