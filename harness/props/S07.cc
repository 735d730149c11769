// S07: inputs are never modified and factorizations can be reused in any order
#include "lu.h"
using namespace pbt;

struct MatSpec { ZM A; mpq_class s; Mat M; std::string snapshot; };
struct RhsSpec { ZD b; int64_t k; mpq_class s; Mat M; std::string snapshot; int of; };
struct AnaRec { Ana S; int of, opt; std::string snapshot; };
struct FacRec { Fact F; int of, ana, opt; std::string snapshot; };
struct OptRec { Opt o; std::string snapshot; };
struct Op { int what; int a, b, c, d; std::string result; };

static std::string fsnap (const Fact &F, int64_t n) { std::string t = snap (F.L) + snap (F.U) + snap (F.rhos); t.append ((char *) F.pinv, n * 8); return t; }
static std::string fval (const Fact &F, int64_t n) { std::string t = vsnap (F.L) + vsnap (F.U) + vsnap (F.rhos); t.append ((char *) F.pinv, n * 8); return t; }

static void run (Src &s, Ctx &c)
{
    int nm = (int) s.range (1, 3), no = (int) s.range (1, 3);
    std::vector<ZM> As; std::vector<mpq_class> ss;
    gen::SqOpt so; so.maxn = 9; so.big_maxn = c.thorough ? 40 : 24; so.huge_maxn = c.thorough ? 150 : 100; so.huge_one_in = 800;
    bool same_size = s.flip ();
    for (int i = 0; i < nm; i++)
    {
        ZM A = s.chance (5, 6) ? gen::nonsing (s, c, so) : gen::square (s, c, so);
        if (i > 0 && same_size && s.flip ())
        {   // a neighbour: same pattern, other values, so mixing them up is easy
            A = As [0]; for (auto &e : A.e) if (e.v != 0) e.v = gen::integer (s, 0, true);
        }
        As.push_back (A); ss.push_back (gen::scale (s));
    }
    int nb = (int) s.range (1, 3);
    struct B { ZD b; int64_t k; mpq_class s; int of; }; std::vector<B> Bs;
    for (int i = 0; i < nb; i++) { B x; x.of = (int) s.draw (nm); x.k = gen::nrhs (s, 1, 3, As [x.of].n, 100); x.b = gen::rhs (s, As [x.of].n, x.k, gen::int_kind (s)); x.s = gen::scale (s); Bs.push_back (x); }
    struct O { int pivot, order; double tol; bool check, null; int prec, round, print; }; std::vector<O> Os;
    for (int i = 0; i < no; i++)
    {
        SLIP_options t; memset (&t, 0, sizeof t); gen::options (s, &t);
        Os.push_back ({(int) t.pivot, (int) t.order, t.tol, s.chance (1, 5), s.chance (1, 6), (int) s.range (2, 200), (int) s.draw (5), 0});
    }
    int len = (int) s.range (2, c.thorough ? 22 : 14);
    std::vector<Op> ops;
    std::map<std::string, int> seen;
    {
        Session ses;
        std::vector<MatSpec> M; std::vector<RhsSpec> R; std::vector<std::unique_ptr<OptRec>> opt;
        std::vector<std::unique_ptr<AnaRec>> S; std::vector<std::unique_ptr<FacRec>> F;
        for (int i = 0; i < nm; i++) { MatSpec m; m.M = mk_csc (As [i], ss [i]); m.snapshot = snap (m.M); M.push_back (std::move (m)); }
        for (auto &b : Bs) { RhsSpec r; r.of = b.of; r.k = b.k; r.M = mk_dense (b.b, As [b.of].n, b.k, b.s); r.snapshot = snap (r.M); R.push_back (std::move (r)); }
        for (auto &q : Os)
        {
            std::unique_ptr<OptRec> r (new OptRec {Opt (!q.null), ""});
            if (r->o.p) { r->o->pivot = (SLIP_pivot) q.pivot; r->o->order = (SLIP_col_order) q.order; r->o->tol = q.tol; r->o->check = q.check; r->o->prec = q.prec; r->o->round = (mpfr_rnd_t) q.round; }
            r->snapshot = snap (r->o.p); opt.push_back (std::move (r));
        }
        // one object may hold different values at different times: what it holds during the call counts
        bool shm = s.chance (1, 3), shr = s.chance (1, 3), sho = s.chance (1, 3); Mat SM, SR; Opt SO; std::string sm, sr, sv; if (shm || shr || sho) c.label ("objects changed in place");
        if (shm) SM = mk_csc (As [0], ss [0]); if (shr) SR = mk_dense (Bs [0].b, As [Bs [0].of].n, Bs [0].k, Bs [0].s);
        auto mat = [&] (int i) -> SLIP_matrix *
        {
            SLIP_matrix *x = M [i].M, *y = SM.p; if (!shm || x->n != y->n || memcmp (x->p, y->p, 8 * (x->n + 1)) || memcmp (x->i, y->i, 8 * x->p [x->n])) return x;
            SUT (([&] { for (int64_t q = 0; q < x->p [x->n]; q++) mpz_set (y->x.mpz [q], x->x.mpz [q]); mpq_set (y->scale, x->scale); return 0; } ())); sm = snap (y); return y;
        };
        auto rhs = [&] (int i) -> SLIP_matrix *
        {
            SLIP_matrix *x = R [i].M, *y = SR.p; if (!shr || x->m != y->m || x->n != y->n) return x;
            SUT (([&] { for (int64_t q = 0; q < x->m * x->n; q++) mpz_set (y->x.mpz [q], x->x.mpz [q]); mpq_set (y->scale, x->scale); return 0; } ())); sr = snap (y); return y;
        };
        auto setting = [&] (int i) -> SLIP_options * { if (!sho || !opt [i]->o.p) return opt [i]->o.p; *SO.p = *opt [i]->o.p; sv = snap (SO.p); return SO.p; };
        auto unchanged = [&] (const char *w)
        {
            CHECK ((sm.empty () || snap (SM) == sm) && (sr.empty () || snap (SR) == sr) && (sv.empty () || snap (SO.p) == sv), "modified", w << " changed an input");
            for (int i = 0; i < nm; i++) CHECK (snap (M [i].M) == M [i].snapshot, "modified", w << " changed input matrix " << i);
            for (size_t i = 0; i < R.size (); i++) CHECK (snap (R [i].M) == R [i].snapshot, "modified", w << " changed right-hand side " << i);
            for (size_t i = 0; i < S.size (); i++) CHECK (snap (S [i]->S, As [S [i]->of].n) == S [i]->snapshot, "modified", w << " changed analysis " << i);
            for (size_t i = 0; i < F.size (); i++) CHECK (fsnap (F [i]->F, As [F [i]->of].n) == F [i]->snapshot, "modified", w << " changed factors " << i);
            for (size_t i = 0; i < opt.size (); i++) CHECK (snap (opt [i]->o.p) == opt [i]->snapshot, "modified", w << " changed options " << i);
        };
        int reuse = 0;
        for (int t = 0; t < len; t++)
        {
            int w = s.pick ({3, 3, 4, 3, 1});
            Op op {w, 0, 0, 0, 0, ""};
            if (w == 1 && S.empty ()) w = op.what = 0;
            if (w == 2 && F.empty ()) w = op.what = S.empty () ? 0 : 1;
            if (w == 0)
            {
                op.a = (int) s.draw (nm); op.b = (int) s.draw (no);
                std::unique_ptr<AnaRec> r (new AnaRec); r->of = op.a; r->opt = op.b;
                int info = analyze (r->S, mat (op.a), setting (op.b));
                CHECK_OK (info, "SLIP_LU_analyze");
                int64_t n = As [op.a].n;
                op.result = std::to_string (r->S->lnz) + "," + std::to_string (r->S->unz); op.result.append ((char *) r->S->q, n * 8);
                r->snapshot = snap (r->S, n); S.push_back (std::move (r));
                unchanged ("analyze");
            }
            else if (w == 1)
            {
                op.a = (int) s.draw (S.size ()); op.b = (int) s.draw (no);
                std::unique_ptr<FacRec> r (new FacRec); r->of = S [op.a]->of; r->ana = op.a; r->opt = op.b;
                int info = factorize (r->F, mat (r->of), S [op.a]->S, setting (op.b));
                int64_t n = As [r->of].n;
                op.c = r->of; op.d = S [op.a]->opt;
                op.result = std::to_string (info);
                if (info == SLIP_OK) { op.result += fval (r->F, n); r->snapshot = fsnap (r->F, n); F.push_back (std::move (r)); }
                else CHECK (info == SLIP_SINGULAR, "status", "factorize returned " << info_name (info));
                unchanged ("factorize");
            }
            else if (w == 2)
            {
                op.a = (int) s.draw (F.size ()); int of = F [op.a]->of;
                std::vector<int> cand; for (size_t i = 0; i < R.size (); i++) if (R [i].of == of) cand.push_back ((int) i);
                if (cand.empty ()) continue;
                op.b = cand [s.draw (cand.size ())]; op.c = (int) s.draw (no); op.d = op.a;
                Mat X; int info = lusolve (X, rhs (op.b), mat (of), F [op.a]->F, S [F [op.a]->ana]->S, setting (op.c));
                CHECK_OK (info, "SLIP_LU_solve");
                op.result = vsnap (X);
                unchanged ("solve"); reuse++;
                check_solution (As [of], ss [of], Bs [op.b].b, Bs [op.b].s, Bs [op.b].k, X, "exact");
                // what is needed to redo it alone
                op.a = of; op.d = F [op.d]->opt * 16 + S [F [op.d]->ana]->opt;
            }
            else if (w == 3)
            {
                op.b = (int) s.draw (R.size ()); op.a = R [op.b].of; op.c = (int) s.draw (no); op.d = s.pick ({3, 1, 1});
                SLIP_type ty = op.d == 0 ? SLIP_MPQ : op.d == 1 ? SLIP_FP64 : SLIP_MPFR;
                Mat X; SLIP_matrix *a_ = mat (op.a), *b_ = rhs (op.b); SLIP_options *o_ = setting (op.c); int info = SUT (SLIP_backslash (&X.p, ty, a_, b_, o_));
                CHECK (info == SLIP_OK || info == SLIP_SINGULAR, "status", "backslash returned " << info_name (info));
                op.result = std::to_string (info) + vsnap (X);
                unchanged ("backslash");
            }
            else
            {   // forget something
                if (s.flip () && !F.empty ()) F.erase (F.begin () + s.draw (F.size ()));
                continue;
            }
            ops.push_back (op);
            // repeating a call in the same session gives the identical result
            std::string key = std::to_string (op.what) + ":" + std::to_string (op.a) + "," + std::to_string (op.b) + "," + std::to_string (op.c) + "," + std::to_string (op.d);
            if (op.what == 0 || op.what == 3)
            {
                auto it = seen.find (key);
                if (it != seen.end ()) { CHECK (ops [it->second].result == op.result, "repeat", "the same call gave two different results (" << key << ")"); c.label ("repeated call"); }
                else seen [key] = (int) ops.size () - 1;
            }
        }
        if (reuse > 1) c.label ("factors reused");
        no_leftover ("history");
    }
    for (auto &A : As) key_of (c, A);
    for (auto &o : ops) { c.mix (o.what); c.mix (o.a); c.mix (o.b); c.mix (o.c); c.mix (o.d); }
    c.describe ([&] (std::ostream &t) { t << nm << " matrices, A0 " << show (As [0]) << "\noperations:"; static const char *on [] = {"analyze", "factorize", "solve", "backslash"}; for (auto &o : ops) t << " " << on [o.what] << "(" << o.a << "," << o.b << "," << o.c << "," << o.d << ")"; });
    c.nontrivial = ops.size () >= 4;
    // every operation alone in a fresh session
    for (size_t t = 0; t < ops.size (); t++)
    {
        Op &op = ops [t];
        if (ops.size () > 6 && !s.flip ()) continue;
        Session ses;
        auto mkopt = [&] (Opt &o, int i) { const auto &q = Os [i]; if (q.null) { o.free (); return; } o->pivot = (SLIP_pivot) q.pivot; o->order = (SLIP_col_order) q.order; o->tol = q.tol; o->check = q.check; o->prec = q.prec; o->round = (mpfr_rnd_t) q.round; };
        Opt o1, o2, o3; std::string result; Ana S; Fact F; Mat X;
        if (op.what == 0)
        {
            Mat MA = mk_csc (As [op.a], ss [op.a]); mkopt (o1, op.b);
            CHECK_OK (analyze (S, MA, o1), "SLIP_LU_analyze");
            result = std::to_string (S->lnz) + "," + std::to_string (S->unz); result.append ((char *) S->q, As [op.a].n * 8);
        }
        else if (op.what == 1)
        {
            Mat MA = mk_csc (As [op.c], ss [op.c]); mkopt (o1, op.d); mkopt (o2, op.b);
            CHECK_OK (analyze (S, MA, o1), "SLIP_LU_analyze");
            int info = factorize (F, MA, S, o2); result = std::to_string (info); if (info == SLIP_OK) result += fval (F, As [op.c].n);
        }
        else if (op.what == 2)
        {
            Mat MA = mk_csc (As [op.a], ss [op.a]), Mb = mk_dense (Bs [op.b].b, As [op.a].n, Bs [op.b].k, Bs [op.b].s);
            mkopt (o1, op.d % 16); mkopt (o2, op.d / 16); mkopt (o3, op.c);
            CHECK_OK (analyze (S, MA, o1), "SLIP_LU_analyze"); CHECK_OK (factorize (F, MA, S, o2), "SLIP_LU_factorize");
            CHECK_OK (lusolve (X, Mb, MA, F, S, o3), "SLIP_LU_solve"); result = vsnap (X);
        }
        else
        {
            Mat MA = mk_csc (As [op.a], ss [op.a]), Mb = mk_dense (Bs [op.b].b, As [op.a].n, Bs [op.b].k, Bs [op.b].s); mkopt (o1, op.c);
            int info = SUT (SLIP_backslash (&X.p, op.d == 0 ? SLIP_MPQ : op.d == 1 ? SLIP_FP64 : SLIP_MPFR, MA, Mb, o1));
            result = std::to_string (info) + vsnap (X);
        }
        pbt::count ("operations compared with a fresh session");
        CHECK (result == op.result, "history", "operation " << t << " (kind " << op.what << ") gives a different result alone in a fresh session");
    }
}
Prop pbt::the_prop = {"S07", "a case is a history of 2..14 analyze / factorize / solve / one-call-solve / free operations over up to three matrices, right-hand sides and option sets sharing analyses and factors; after every call all live inputs are compared byte for byte, and results are compared with the same call alone in a fresh session; non-trivial: at least four operations", 125000, 900000, run};
