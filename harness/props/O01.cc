// O01: print levels control what is printed and never what is computed
#include "shallow.h"
#include "lu.h"
#include "printed.h"
using namespace pbt;

static const char *hname [] = {"with the print function", "without a print function"};
static std::string cut (std::string t) { return t.size () > 400 ? t.substr (0, 400) + "..." : t; }

//------------------------------------------------------------------------------
// the printed form of a matrix
//------------------------------------------------------------------------------
struct Line { int64_t i = -1, j = -1; bool value = false; std::string v; };
// decimal, integer or fraction
static bool parse (std::string t, mpq_class &v)
{
    while (!t.empty () && isspace (t.back ())) t.pop_back (); while (!t.empty () && isspace (t [0])) t.erase (0, 1); if (t.empty ()) return false;
    size_t d = t.find ('.'), e = t.find_first_of ("eE"); long ex = 0; if (e != std::string::npos) { ex = atol (t.c_str () + e + 1); t = t.substr (0, e); }
    if (d != std::string::npos) { ex -= (long) (t.size () - d - 1); t.erase (d, 1); }
    if (v.set_str (t, 10)) return false; if (v.get_den () == 0) return false; v.canonicalize (); mpz_class p; mpz_ui_pow_ui (p.get_mpz_t (), 10, labs (ex)); if (ex > 0) v *= p; else v /= p; return true;
}
static int64_t field (const std::string &t, const char *key) { size_t p = t.find (key); if (p == std::string::npos) return -1; p += strlen (key); int64_t v; return number (t, p, v) ? v : -1; }

static void printing (Src &s, Ctx &c)
{
    Session ses; int kind = (int) s.draw (3), type = (int) s.draw (5); int64_t m, n; if (fmt::dims (s, 8, m, n, 25)) c.label ("large dimensions"); auto pos = fmt::positions (s, m, n, kind); QM A; A.m = m; A.n = n; int ik = gen::int_kind (s), prec = (int) s.range (2, 150);
    mpq_class den = type == SLIP_MPZ || type == SLIP_INT64 ? mpq_class (1) : mpq_class (s.oneof<int> ({1, 2, 8, 64, 1024, 65536}));
    for (auto &p : pos)
    {
        mpq_class v; if (type == SLIP_MPQ) v = gen::rational (s, ik); else if (type == SLIP_MPZ) v = gen::integer (s, ik); else { mpz_class z = gen::integer (s, ik); int lim = type == SLIP_INT64 ? 62 : type == SLIP_FP64 ? 53 : 128; if (mpz_sizeinbase (z.get_mpz_t (), 2) > lim) mpz_tdiv_r_2exp (z.get_mpz_t (), z.get_mpz_t (), lim); v = mpq_class (z) / den; }
        A.e.push_back ({p.first, p.second, v});
    }
    Mat B = fmt::build (A, (SLIP_kind) kind, (SLIP_type) type, 1, s.draw (3), NULL); mpq_class sc = 1; if (type == SLIP_MPZ) { sc = gen::scale (s); SUT ((mpq_set (B->scale, sc.get_mpq_t ()), 0)); }
    QM stored = A; if (kind == SLIP_DENSE) { stored.e.clear (); auto d = A.dense (); for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < m; i++) stored.e.push_back ({i, j, d [i] [j]}); }
    // stored in column order for CSC, entries in any order within; build keeps the order of A.e per column
    int64_t nz = (int64_t) stored.e.size (), cap = B->nzmax; key_of (c, A); c.mix (kind * 10 + type); c.nontrivial = nz > 0; c.label (std::string ("print ") + fmt::kname [kind] + " " + fmt::tname [type]);
    c.describe ([&] (std::ostream &o) { o << "printing a " << fmt::kname [kind] << " " << fmt::tname [type] << " matrix, precision " << prec << "\n" << show (A); });
    // a single defect, or none
    int bad = s.chance (1, 4) ? (int) s.range (1, 12) : 0; struct Fix { Mat &B; SLIP_matrix h; int64_t *cell = NULL, old = 0; ~Fix () { if (cell) *cell = old; SLIP_matrix k = *B.p; B->m = h.m; B->n = h.n; B->nzmax = h.nzmax; B->kind = h.kind; B->type = h.type; B->p = h.p; B->i = h.i; B->j = h.j; B->x = h.x; B->nz = h.nz; } } fix {B, *B.p};
    auto spoil = [&] (int64_t *x, int64_t v) { fix.cell = x; fix.old = *x; *x = v; };
    switch (bad)
    {
        case 1: B->m = -1; break; case 2: B->nzmax = -1; break; case 3: B->type = (SLIP_type) 7; break; case 4: B->kind = (SLIP_kind) 5; break;
        case 5: if (kind != SLIP_DENSE && nz) spoil (B->i + s.draw (nz), s.flip () ? m : -1); else B->n = -2; break;
        case 6: if (kind == SLIP_CSC && nz) spoil (B->p + n, cap + 1); else if (kind == SLIP_TRIPLET && nz) spoil (B->j + s.draw (nz), n); else B->m = -3; break;
        case 7: if (kind == SLIP_TRIPLET && nz > 1) { int64_t a = s.draw (nz - 1); spoil (B->i + a, B->i [a + 1]); B->i [a] = B->i [a + 1]; if (B->j [a] != B->j [a + 1]) { B->i [a] = fix.old; B->x.mpz = NULL; } } else if (nz || B->x.mpz) B->x.mpz = NULL; break;
        case 8: if (kind == SLIP_CSC && cap) spoil (B->p, s.flip () ? 1 : -1); else B->n = -1; break;
        case 9: if (kind == SLIP_CSC && n > 1 && cap) { int64_t q = s.range (1, n - 1); spoil (B->p + q, s.flip () ? B->p [q + 1] + 1 : B->p [q - 1] - 1); } else B->nzmax = -5; break;
        case 10: if (kind != SLIP_DENSE && nz) B->i = NULL; else B->m = -7; break;
        case 11: if (kind == SLIP_CSC && cap) B->p = NULL; else if (kind == SLIP_TRIPLET && nz) B->j = NULL; else B->type = (SLIP_type) -1; break;
        case 12: { int64_t q = -1; if (kind == SLIP_CSC) for (int64_t j = 0; j < n; j++) if (B->p [j + 1] - B->p [j] > 1) q = j; if (q >= 0) spoil (B->i + B->p [q], B->i [B->p [q + 1] - 1]); else B->kind = (SLIP_kind) -1; break; }
    }
    Opt o; o->prec = prec; int first = -99; std::string t3;
    for (int level = 3; level >= 0; level--) for (int hook = 0; hook < 2; hook++)
    {
        o->print_level = level; if (hook == 0) out::capture (); else { out::text.clear (); out::off (); }
        long s0 = stray (); int r = SUT (SLIP_matrix_check (B, o)); long s1 = stray (); std::string t = out::text; SuiteSparse_config.printf_func = printf;
        if (first == -99) first = r;
        CHECK (r == first, "status", "SLIP_matrix_check returned " << info_name (r) << " at print level " << level << " " << hname [hook] << " and " << info_name (first) << " at level 3");
        if (bad == 0) CHECK (r == SLIP_OK, "status", "SLIP_matrix_check of a valid matrix returned " << info_name (r));
        CHECK (s0 == s1, "output", s1 - s0 << " bytes were printed past the print function at level " << level << " " << hname [hook]);
        if (hook == 1 || level == 0) { CHECK (t.empty (), "output", "printed at level " << level << " " << hname [hook] << ": " << cut (t)); continue; }
        if (level == 1) { CHECK (r != SLIP_OK || t.empty (), "output", "printed at level 1 without an error: " << cut (t)); if (r == SLIP_INCORRECT_INPUT) CHECK (!t.empty (), "output", "nothing was printed at level 1 about a malformed matrix"); continue; }
        if (level == 3) t3 = t; if (r != SLIP_OK) { CHECK (!t.empty (), "output", "nothing was printed at level " << level << " about a malformed matrix"); continue; }
        // dimensions
        CHECK (field (t, "nrows:") == m && field (t, "ncols:") == n && field (t, " nz:") == nz && field (t, "nzmax:") == cap, "dimensions", "a " << m << "-by-" << n << " matrix with " << nz << " entries and room for " << cap << " was printed as: " << cut (t));
        const char *kn [] = {"CSC", "Triplet", "Dense"}, *tn [] = {"MPZ", "MPQ", "MPFR", "int64", "double"}; CHECK (t.find (std::string ("kind: ") + kn [kind]) != std::string::npos && t.find (std::string ("type: ") + tn [type]) != std::string::npos, "dimensions", "a " << fmt::kname [kind] << " " << fmt::tname [type] << " matrix was printed as: " << cut (t));
        size_t p = t.find ("scale factor:"); mpq_class v; CHECK (p != std::string::npos && parse (t.substr (p + 13, t.find ('\n', p) - p - 13), v) && v == sc, "scale", "the scale factor " << sc << " was printed as: " << cut (t));
        // entries
        std::istringstream in (t.substr (t.find ('\n', p) + 1)); std::string l; std::vector<Line> got; int64_t col = -1, cols = 0, lines = 0; bool dots = false;
        while (std::getline (in, l))
        {
            lines++; if (l.find ("...") != std::string::npos) { dots = true; continue; } CHECK (!dots, "entries", "more was printed after the listing was cut off: " << l);
            size_t q = 0; size_t cp = l.find ("column"); if (kind != SLIP_TRIPLET && cp != std::string::npos) { CHECK (number (l, q, col) && col == cols, "entries", "column heading number " << cols << " reads: " << l); cols++; continue; }
            Line e; size_t k = l.find (':'); CHECK (k != std::string::npos && number (l, q, e.i), "entries", "unreadable line: " << l); if (kind == SLIP_TRIPLET) CHECK (number (l, q, e.j), "entries", "unreadable line: " << l); else e.j = col;
            e.v = l.substr (k + 1); got.push_back (e);
        }
        CHECK (level == 3 ? !dots && (int64_t) got.size () == nz && (kind == SLIP_TRIPLET || cols == n) : dots || (int64_t) got.size () == nz, "entries", got.size () << " of " << nz << " entries were printed at level " << level << (dots ? ", cut off" : ""));
        if (level == 2) { CHECK (lines <= 32, "entries", lines << " lines at level 2"); if (dots) c.label ("listing cut off"); }
        for (size_t k = 0; k < got.size (); k++)
        {
            auto &e = stored.e [k]; mpq_class w; CHECK (got [k].i == e.i && got [k].j == e.j, "entries", "entry " << k << " is (" << e.i << "," << e.j << ") and was printed as (" << got [k].i << "," << got [k].j << ")");
            CHECK (parse (got [k].v, w), "entries", "the value of (" << e.i << "," << e.j << "), " << e.v << ", was printed as" << got [k].v); mpq_class d = abs (w - e.v), tol = 0; if (type == SLIP_FP64) tol = mpq_class (1, 1000000); else if (type == SLIP_MPFR) { mpz_class z; mpz_ui_pow_ui (z.get_mpz_t (), 10, prec); tol = mpq_class (1) / z; }
            CHECK (d <= tol, "entries", "the value of (" << e.i << "," << e.j << "), " << e.v << ", was printed as" << got [k].v);
        }
    }
    if (bad) c.label ("malformed");
}

//------------------------------------------------------------------------------
// the solver at every level
//------------------------------------------------------------------------------
static void solving (Src &s, Ctx &c)
{
    Session ses; gen::SqOpt so; so.maxn = 9; so.huge_maxn = 100; so.huge_one_in = 400; ZM A = s.chance (2, 3) ? gen::nonsing (s, c, so) : gen::square (s, c, so); int64_t k = s.range (1, 3); ZD b = gen::rhs (s, A.n, k, gen::int_kind (s)); mpq_class sa = gen::scale (s), sb = gen::scale (s);
    Mat MA = mk_csc (A, sa), Mb = mk_dense (b, A.n, k, sb), A2, T; Opt o; gen::options (s, o); o->check = s.chance (2, 3); o->prec = (int) s.range (2, 200); int type = (int) s.oneof<int> ({SLIP_MPQ, SLIP_FP64, SLIP_MPFR});
    // what is wrong, if anything
    int bad = s.chance (1, 2) ? (int) s.range (1, 8) : 0; static const char *bn [] = {"nothing", "a right-hand side of the wrong length", "a triplet matrix", "no matrix", "no right-hand side", "a rational matrix", "another matrix given for solving", "no result handle", "an impossible pivoting tolerance"};
    key_of (c, A); c.mix (bad); c.mix (type); c.nontrivial = A.n >= 2; c.label (std::string ("solving, wrong: ") + bn [bad]);
    c.describe ([&] (std::ostream &t) { t << "solving with A " << show (A) << " divided by " << sa << ", wrong: " << bn [bad] << ", " << gen::show (o.p) << " check " << o->check; });
    if (bad == 1) { ZD b1 = b; b1.push_back (ZV (k)); Mb = mk_dense (b1, A.n + 1, k, sb); }
    if (bad == 2) CHECK_OK (SUT (SLIP_matrix_copy (&T.p, SLIP_TRIPLET, SLIP_MPZ, MA, NULL)), "SLIP_matrix_copy"); if (bad == 5) CHECK_OK (SUT (SLIP_matrix_copy (&T.p, SLIP_CSC, SLIP_MPQ, MA, NULL)), "SLIP_matrix_copy");
    if (bad == 6) { ZM Z = A; for (auto &e : Z.e) if (s.flip ()) e.v += 1; A2 = mk_csc (Z, sa); } if (bad == 8) o->tol = s.oneof<double> ({-1.0, NAN, 0.0, 2.0});
    SLIP_matrix *GA = bad == 2 || bad == 5 ? T.p : bad == 3 ? NULL : MA.p, *GS = bad == 6 ? A2.p : GA, *Gb = bad == 4 ? NULL : Mb.p;
    std::vector<std::string> ref; bool firstrun = true; bool told = false;
    for (int level = 0; level < 4; level++) for (int hook = 0; hook < 2; hook++)
    {
        o->print_level = level; Ana S; Fact F; Mat X, Y, C; size_t step = 0; out::text.clear ();
        auto after = [&] (const char *what, int r, std::string val, long s0)
        {
            long s1 = stray (); std::string t = out::text; out::text.clear (); CHECK (s0 == s1, "output", what << " printed " << s1 - s0 << " bytes past the print function at level " << level << " " << hname [hook]);
            if (hook == 1 || level == 0) CHECK (t.empty (), "output", what << " printed at level " << level << " " << hname [hook] << ": " << cut (t));
            if (level == 1) CHECK (r != SLIP_OK || t.empty (), "output", what << " printed at level 1 without an error: " << cut (t));
            if (r == SLIP_INCORRECT && level >= 1 && hook == 0) CHECK (!t.empty (), "output", what << " found a wrong solution and printed nothing about it at level " << level);
            if (!t.empty ()) told = true; std::string e = std::string (info_name (r)) + val;
            if (firstrun) ref.push_back (e); else CHECK (ref [step] == e, "result", what << " at print level " << level << " " << hname [hook] << " returned " << info_name (r) << " and another result than at level 0 (" << ref [step].substr (0, 24) << ")");
            step++; return t;
        };
        if (hook == 0) out::capture (); else out::off (); long s0 = stray (); int r;
        #define CALL(what, expr, val) r = (expr); after (what, r, val, s0); s0 = stray ();
        CALL ("SLIP_matrix_check", SUT (SLIP_matrix_check (GA, o)), "");
        CALL ("SLIP_matrix_copy", SUT (SLIP_matrix_copy (&C.p, SLIP_DENSE, (SLIP_type) type, GA, o)), C.p ? vsnap (C) : "");
        r = analyze (S, GA, o); std::string t = after ("SLIP_LU_analyze", r, S.p ? std::string ((char *) S->q, A.n * 8) + std::to_string (S->lnz) + " " + std::to_string (S->unz) : "", s0); s0 = stray ();
        if (r == SLIP_OK && level >= 2 && hook == 0 && o->order != SLIP_NO_ORDERING) CHECK (!t.empty (), "output", "no ordering statistics at print level " << level);
        if (r == SLIP_OK)
        {
            CALL ("SLIP_LU_factorize", factorize (F, GA, S, o), F.L.p ? vsnap (F.L) + vsnap (F.U) + vsnap (F.rhos) : "");
            if (r == SLIP_OK) { SLIP_matrix **xh = bad == 7 ? NULL : &X.p; CALL ("SLIP_LU_solve", SUT (SLIP_LU_solve (xh, Gb, GS, F.L, F.U, F.rhos, S, F.pinv, o)), X.p ? vsnap (X) : ""); if (X.p) { CALL ("SLIP_matrix_check of x", SUT (SLIP_matrix_check (X, o)), ""); } }
        }
        { SLIP_matrix **yh = bad == 7 ? NULL : &Y.p; CALL ("SLIP_backslash", SUT (SLIP_backslash (yh, (SLIP_type) type, GA, Gb, o)), Y.p ? vsnap (Y) : ""); }
        SuiteSparse_config.printf_func = printf; firstrun = false;
    }
    for (auto &e : ref) if (e.compare (0, 7, "SLIP_OK")) c.label ("answered " + e.substr (0, e.find_first_not_of ("SLIP_OKANCRETUMGDY ", 0)));
    if (told) c.label ("something printed");
    // silence also when memory runs out, at any point
    if (bad == 0)
    {
        o->print_level = (int) s.draw (4); bool hook = s.flip (); out::text.clear (); if (hook) out::capture (); else out::off (); mem::plan (1 + s.draw (400), s.flip ()); long s0 = stray (); Mat Y; int r = SUT (SLIP_backslash (&Y.p, (SLIP_type) type, MA, Mb, o)); uint64_t f = mem::failed; mem::plan (0, false); long s1 = stray (); SuiteSparse_config.printf_func = printf;
        CHECK (s0 == s1, "output", "printed past the print function when memory ran out"); if (o->print_level == 0 || !hook) CHECK (out::text.empty (), "output", "printed at level " << o->print_level << " when memory ran out: " << cut (out::text)); if (o->print_level == 1 && r == SLIP_OK) CHECK (out::text.empty (), "output", "printed at level 1 without an error: " << cut (out::text));
        if (f) { pbt::count ("calls with an injected failure"); CHECK (r == SLIP_OUT_OF_MEMORY || r == SLIP_OK || r == SLIP_SINGULAR, "status", "SLIP_backslash returned " << info_name (r) << " with a failed allocation at print level " << o->print_level); }
    }
}

static void run (Src &s, Ctx &c) { if (s.pick ({5, 4})) solving (s, c); else printing (s, c); }
Prop pbt::the_prop = {"O01", "a case is a matrix of any kind and type (a quarter malformed) printed at every level with and without a print function and read back, or a system (half of them with something wrong) analysed, factorized, solved and checked at every level; non-trivial: entries present, dimension at least 2", 100000, 1700000, run};
