// X01: the MATLAB gateway of the solver
#include "mx.h"
using namespace pbt;
extern "C" {
void gate_slip (int, mxArray **, int, const mxArray **);
// what the gateway asks of the solver
SLIP_info __real_SLIP_LU_analyze (SLIP_LU_analysis **, const SLIP_matrix *, const SLIP_options *);
SLIP_info __real_SLIP_LU_factorize (SLIP_matrix **, SLIP_matrix **, SLIP_matrix **, int64_t **, const SLIP_matrix *, const SLIP_LU_analysis *, const SLIP_options *);
static struct { int order, pivot, analyzed, factored; double tol; } seen;
SLIP_info __wrap_SLIP_LU_analyze (SLIP_LU_analysis **S, const SLIP_matrix *A, const SLIP_options *o) { seen.analyzed++; seen.order = o ? o->order : SLIP_COLAMD; return __real_SLIP_LU_analyze (S, A, o); }
SLIP_info __wrap_SLIP_LU_factorize (SLIP_matrix **L, SLIP_matrix **U, SLIP_matrix **r, int64_t **p, const SLIP_matrix *A, const SLIP_LU_analysis *S, const SLIP_options *o) { seen.factored++; seen.pivot = o ? o->pivot : SLIP_TOL_SMALLEST; seen.tol = o ? o->tol : 1; return __real_SLIP_LU_factorize (L, U, r, p, A, S, o); }
}
typedef std::vector<std::vector<std::pair<int64_t, double>>> DCol;
static bool int64_like (double d) { return d >= -0x1p63 && d < 0x1p63 && d == std::floor (d); }
static double value (Src &s, int mode, bool nz)
{
    for (int tries = 0;; tries++)
    {
        double d;
        switch (mode)
        {
            case 0: d = (double) s.range (-9, 9); break;
            case 1: d = (double) s.range (-(1LL << 53), 1LL << 53); break;
            case 2: d = s.oneof<double> ({0x1p62, -0x1p63, 0x1p63, 9007199254740993.0, -0x1p62, 1, 9223372036854774784.0, -9223372036854774784.0, 3, -1, 4611686018427387904.0}); break;
            case 3: d = ldexp ((double) s.range (-4000, 4000), -(int) s.draw (18)); break;
            case 4: d = ldexp ((double) s.range (-(1LL << 53), 1LL << 53), (int) s.range (-17, 60)); break;
            default: d = ldexp ((double) s.range (-(1LL << 53), 1LL << 53), (int) s.range (-80, 20)); break;
        }
        if (!nz || d != 0) return d; if (tries > 20) return 1;
    }
}
// the exact system the gateway has to solve: the numbers as given if they are all 64-bit integers
// (or convert exactly), else those of the library's conversion, which is a property of its own (M02)
static void system_of (const std::vector<double> &v, bool exact, std::vector<mpz_class> &num, mpq_class &scale)
{
    num.clear (); scale = 1; bool ints = true; for (double d : v) ints &= int64_like (d);
    if (ints || exact)
    {
        mpz_class l = 1; for (double d : v) { mpq_class q (d); l = lcm (l, q.get_den ()); } scale = l;
        for (double d : v) { mpq_class q (d); q *= l; num.push_back (q.get_num ()); } return;
    }
    SLIP_matrix *D = NULL, *Z = NULL; Session ses; int r = SUT (SLIP_matrix_allocate (&D, SLIP_DENSE, SLIP_FP64, v.size (), 1, v.size (), false, true, NULL)); CHECK_OK (r, "allocation");
    std::copy (v.begin (), v.end (), D->x.fp64); r = SUT (SLIP_matrix_copy (&Z, SLIP_DENSE, SLIP_MPZ, D, NULL)); CHECK_OK (r, "conversion");
    for (size_t k = 0; k < v.size (); k++) num.push_back (rd (Z->x.mpz [k])); scale = rd (Z->scale); SUT (SLIP_matrix_free (&D, NULL)); SUT (SLIP_matrix_free (&Z, NULL)); ses.close (); mem::reset ();
}

struct Options { mx::In m; std::string bad; int order = SLIP_COLAMD, pivot = SLIP_TOL_SMALLEST, print = 0; double tol = 0.1; bool text = false; std::string show = "none"; };
static Options options (Src &s, bool may_fail)
{
    Options o; switch (s.pick ({1, 1, 6})) { case 0: return o; case 1: o.m = mx::full (0, 0, {}); o.show = "[ ]"; return o; }
    o.m = mx::strct (); o.show = "struct"; int bad = may_fail ? s.pick ({3, 1, 1, 1, 1, 1, 1, 1}) : 0; auto set = [&] (const char *f, mx::In v, const std::string &t) { o.m->field [f] = v.release (); o.show += std::string (" ") + f + "=" + t; };
    auto sets = [&] (const char *f, const std::string &t) { set (f, mx::str (t), "'" + t + "'"); }; auto setd = [&] (const char *f, double d) { set (f, mx::scalar (d), std::to_string (d)); };
    static const char *on [] = {"none", "colamd", "amd"}; static const SLIP_col_order oo [] = {SLIP_NO_ORDERING, SLIP_COLAMD, SLIP_AMD};
    static const char *pn [] = {"smallest", "diagonal", "first", "tol smallest", "tol largest", "largest"}; static const SLIP_pivot pp [] = {SLIP_SMALLEST, SLIP_DIAGONAL, SLIP_FIRST_NONZERO, SLIP_TOL_SMALLEST, SLIP_TOL_LARGEST, SLIP_LARGEST};
    const char *unknown = s.oneof<const char *> ({"", "COLAMD", "smallest ", "x", "amd2", "non", "Double", "tol", "dbl"});
    if (bad == 1) { sets ("order", unknown); o.bad = "unknown order"; } else if (bad == 2) { setd ("order", 1); o.bad = "order not a string"; } else if (s.flip ()) { int k = (int) s.draw (3); sets ("order", on [k]); o.order = oo [k]; }
    if (bad == 3) { sets ("pivot", unknown); o.bad = "unknown pivot"; } else if (bad == 4) { setd ("pivot", 2); o.bad = "pivot not a string"; } else if (s.chance (2, 3)) { int k = (int) s.draw (6); sets ("pivot", pn [k]); o.pivot = pp [k]; }
    bool tolused = o.pivot == SLIP_TOL_SMALLEST || o.pivot == SLIP_TOL_LARGEST;
    if (bad == 5 && tolused) { setd ("tol", s.oneof<double> ({0, -0.5, 1.5, INFINITY, -1e-300, 1.0000000000000002})); o.bad = "tolerance out of range"; } else if (s.flip ()) { double t = s.oneof<double> ({1, 0.5, 1e-10, 0.1, 0.9, 5e-324}); setd ("tol", t); if (tolused) o.tol = t; }
    if (bad == 6) { sets ("solution", unknown); o.bad = "unknown solution"; } else if (s.flip ()) { int k = (int) s.draw (3); static const char *sn [] = {"double", "vpa", "char"}; sets ("solution", sn [k]); o.text = k > 0; }
    if (bad == 7) { setd ("digits", s.oneof<double> ({1, 0, -3, 2.5, 536870913, INFINITY})); o.bad = "digits out of range"; } else if (s.chance (1, 3)) setd ("digits", s.oneof<double> ({2, 100, 536870912, 32}));
    if (s.chance (1, 4)) { double d = s.oneof<double> ({0, -3, 0.5, 1, 2}); setd ("print", d); o.print = d < 0 ? 0 : (int) d; } if (s.chance (1, 8)) set ("other", mx::scalar (3), "3");
    return o;
}

static void one (Src &s, Ctx &c, int call)
{
    // the system
    gen::SqOpt q; q.maxn = 12; q.big_maxn = c.thorough ? 60 : 40; q.huge_maxn = c.thorough ? 200 : 120; q.huge_one_in = 500; q.explicit_zeros = false; Ctx cc; bool sing = s.chance (1, 8); ZM P = sing ? gen::square (s, cc, q) : gen::nonsing (s, cc, q); int64_t n = P.n, k = gen::nrhs (s, 1, 3, n, 40); if (n == 0) throw Discard ();
    int ma = s.pick ({4, 2, 2, 3, 2, 2}), mb = s.pick ({4, 2, 2, 3, 2, 2}); bool keep = sing || s.chance (1, 3);
    DCol A (n); std::vector<std::map<int64_t, double>> cols (n); for (auto &e : P.e) if (e.v != 0) { double d = keep ? e.v.get_d () : value (s, ma, true); cols [e.j] [e.i] = std::isfinite (d) ? d : 3; }
    std::vector<double> av, bv; std::vector<std::pair<int64_t, int64_t>> pos; for (int64_t j = 0; j < n; j++) for (auto &e : cols [j]) { A [j].push_back (e); av.push_back (e.second); pos.push_back ({e.first, j}); }
    for (int64_t i = 0; i < n * k; i++) bv.push_back (s.chance (1, 6) ? 0 : value (s, mb, false));
    bool ea = true; for (double d : av) { mpq_class v (d); mpz_class t; mpz_ui_pow_ui (t.get_mpz_t (), 10, 17); v *= t; ea &= v.get_den () == 1 && mpz_sizeinbase (v.get_num_mpz_t (), 2) <= 128; }
    bool eb = true; for (double d : bv) { mpq_class v (d); mpz_class t; mpz_ui_pow_ui (t.get_mpz_t (), 10, 17); v *= t; eb &= v.get_den () == 1 && mpz_sizeinbase (v.get_num_mpz_t (), 2) <= 128; }
    for (double d : av) c.mix ((uint64_t) std::hash<double> () (d)); for (double d : bv) c.mix ((uint64_t) std::hash<double> () (d));
    // what goes wrong, if anything
    int bad = s.chance (1, 4) ? s.pick ({1, 1, 1, 1, 2, 1, 2, 2, 1, 1, 1, 2}) + 1 : 0; Options o = options (s, bad == 12); std::string why;
    mx::In a = mx::sparse (n, A, s.draw (3)), b = mx::full (n, k, bv); int nargout = s.draw (2); std::vector<const mxArray *> in {a.get (), b.get ()};
    if (o.m) in.push_back (o.m.get ()); else if (bad == 0 && s.chance (1, 4)) {}
    switch (bad)
    {
        case 1: a->complex = true; why = "complex matrix"; break;
        case 2: b->complex = true; why = "complex right-hand side"; break;
        case 3: a = mx::full (n, n, std::vector<double> (n * n, 1)); in [0] = a.get (); why = "full matrix"; break;
        case 4: { DCol B (k); for (int64_t j = 0; j < k; j++) B [j].push_back ({0, 1}); b = mx::sparse (n, B); in [1] = b.get (); why = "sparse right-hand side"; break; }
        case 5: if (s.flip ()) { A.push_back ({}); a = mx::sparse (n, A); } else a = mx::sparse (n + 1, A); in [0] = a.get (); why = "rectangular matrix"; break;
        case 6: b = mx::full (n + 1, k, std::vector<double> ((n + 1) * k, 1)); in [1] = b.get (); why = "heights differ"; break;
        case 7: case 8:
        {
            int64_t big = s.chance (1, 2) ? 0 : s.range (6, 40), kb = k, na = av.size (), nb = bv.size ();
            if (big)   // the same far into a larger system
            {
                int64_t band = s.range (1, 4), l = 0; DCol B (big); na = 0;
                for (int64_t j = 0; j < big; j++) for (int64_t i = std::max<int64_t> (0, j - band); i <= j; i++, na++) B [j].push_back ({i, (double) (1 + l++ % 5)});
                kb = s.range (1, 4); nb = big * kb; a = mx::sparse (big, B, s.draw (3)); b = mx::full (big, kb, std::vector<double> (nb, 1)); in [0] = a.get (); in [1] = b.get ();
            }
            if (bad == 7 && !na) break;
            int64_t len = bad == 7 ? na : nb; (bad == 7 ? a : b)->pr [s.chance (1, 3) ? len - 1 : (int64_t) s.draw (len)] = s.oneof<double> ({INFINITY, -INFINITY, NAN});
            why = bad == 7 ? "Inf or NaN in the matrix" : "Inf or NaN in the right-hand side"; break;
        }
        case 9: in.resize (s.draw (2)); why = "too few arguments"; break;
        case 10: while (in.size () < 4) in.push_back (b.get ()); why = "too many arguments"; break;
        case 11: nargout = 2 + (int) s.draw (2); why = "too many results"; break;
        case 12: why = o.bad; break;
    }
    std::vector<mpz_class> an, bn; mpq_class sa, sb; system_of (av, ea, an, sa); system_of (bv, eb, bn, sb);
    ZM Z; Z.m = Z.n = n; for (size_t t = 0; t < pos.size (); t++) Z.e.push_back ({pos [t].first, pos [t].second, an [t]}); ZD rb (n, std::vector<mpz_class> (k)); for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < k; j++) rb [i] [j] = bn [i + j * n];
    bool singular = det_bareiss (Z.dense ()) == 0; if (why.empty () && singular) why = "singular matrix";
    c.describe ([&] (std::ostream &t) { t << "call " << call << ": " << n << "x" << n << " matrix"; for (size_t u = 0; u < av.size (); u++) t << " (" << pos [u].first << "," << pos [u].second << ")=" << av [u]; t << "; " << k << " right-hand sides"; for (double d : bv) t << " " << d; t << "; options " << o.show << (why.empty () ? "" : "; error: " + why) << "\n"; });
    c.label (why.empty () ? o.text ? "text result" : "double result" : why); c.label (ea ? "exact matrix" : "converted matrix"); if (in.size () == 2) c.label ("two arguments");
    std::string sna = mx::snap (a.get ()), snb = mx::snap (b.get ()), sno = mx::snap (o.m.get ()); memset (&seen, 0, sizeof seen);
    mx::Result r = mx::call (gate_slip, nargout, in); bool hung = SLIP_finalize () != SLIP_PANIC; mp_set_memory_functions (0, 0, 0);
    CHECK (!hung, "session", "the gateway left the library initialized");
    CHECK (sna == mx::snap (a.get ()) && snb == mx::snap (b.get ()) && sno == mx::snap (o.m.get ()), "modified", "an argument was changed"); CHECK (!mem::bad_free, "memory", mem::bad_what);
    if (!why.empty ()) { CHECK (r.error, "accepted", "no error for: " << why); CHECK (!r.msg.empty (), "message", "the error has no message"); return; }
    CHECK (!r.error, "error", "the gateway reports '" << r.msg << "' for a nonsingular system"); CHECK (r.left == 0, "leak", r.left << " blocks are left besides the result");
    if (seen.analyzed) CHECK (seen.order == o.order, "options", "column ordering " << seen.order << " was used, asked for " << o.order);
    if (seen.factored) { CHECK (seen.pivot == o.pivot, "options", "pivot strategy " << seen.pivot << " was used, asked for " << o.pivot); if (o.pivot == SLIP_TOL_SMALLEST || o.pivot == SLIP_TOL_LARGEST) CHECK (seen.tol == o.tol, "options", "tolerance " << seen.tol << " was used, asked for " << o.tol); }
    if (o.print == 0) CHECK (mx::printed.empty (), "output", "print level 0, but it prints " << mx::printed.substr (0, 200));
    QD x = solve_exact (Z, sa, rb, sb, k); const mxArray *X = r.out [0]; CHECK (X, "result", "no result"); CHECK (X->m () == (size_t) n && X->n () == (size_t) k, "result", "the result is " << X->m () << " by " << X->n ());
    CHECK (X->cls == (o.text ? mxCELL_CLASS : mxDOUBLE_CLASS) && !X->sparse && !X->complex, "result", "the result is a " << mxGetClassName (X));
    for (int64_t j = 0; j < k; j++) for (int64_t i = 0; i < n; i++)
    {
        if (o.text) { const mxArray *t = X->cell [i + j * n]; CHECK (t && t->cls == mxCHAR_CLASS, "result", "no text at (" << i << "," << j << ")"); CHECK (t->text == x [i] [j].get_str (), "text", "x(" << i << "," << j << ") is '" << t->text << "', expected " << x [i] [j]); }
        else { double e = x [i] [j].get_d (); CHECK (X->pr [i + j * n] == e, "value", "x(" << i << "," << j << ") is " << X->pr [i + j * n] << ", expected " << e); }
    }
    c.nontrivial = true;
}
static void run (Src &s, Ctx &c)
{
    Tracked tr; SuiteSparse_config.malloc_func = mxMalloc; SuiteSparse_config.calloc_func = mxCalloc; SuiteSparse_config.realloc_func = mxRealloc; SuiteSparse_config.free_func = mxFree; SuiteSparse_config.printf_func = mexPrintf;
    int calls = (int) s.range (1, 3); for (int q = 0; q < calls; q++) one (s, c, q);
}
Prop pbt::the_prop = {"X01", "a case is one to three calls of the solver's MATLAB gateway, in a model of MATLAB's array interface, with generated sparse systems of doubles (integers, values around 2^63, fractions, arbitrary doubles), options and faulty arguments; non-trivial if a system was solved", 70000, 1500000, run};
