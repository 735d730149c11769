// D02: the command-line program honours its documented arguments and solves the files it is given
#include "formats.h"
#include "shallow.h"
#include "lu.h"
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "demos.h"
int sliplu_main (int argc, char *argv []);
}
using namespace pbt;
// everything written to file descriptor fd while this lives
struct Capture
{
    FILE *f; int fd, saved, mfd;
    Capture (FILE *f) : f (f), fd (fileno (f)) { fflush (f); saved = dup (fd); mfd = memfd_create ("out", 0); dup2 (mfd, fd); }
    std::string stop () { std::string t; if (saved < 0) return t; fflush (f); off_t n = lseek (mfd, 0, SEEK_END); t.resize (n); if (n && pread (mfd, &t [0], n, 0) != n) t.clear (); dup2 (saved, fd); close (saved); close (mfd); saved = -1; return t; }
    ~Capture () { stop (); }
};
struct File { int fd; File (const std::string &t) { fd = memfd_create ("in", 0); if (write (fd, t.data (), t.size ()) != (ssize_t) t.size ()) abort (); } ~File () { close (fd); } std::string path () const { return "/proc/self/fd/" + std::to_string (fd); } };

struct Line { std::vector<std::string> arg; bool ok = true, help = false; int pivot = SLIP_TOL_SMALLEST, order = SLIP_COLAMD, print = -1; double tol = 1; std::string mat, rhs; };
static Line line_of (Src &s, const std::string &mat, const std::string &rhs, bool faults)
{
    Line l; int parts = (int) (s.chance (1, 60) ? s.range (6, 60) : s.range (0, 5)); bool f = false; static const SLIP_pivot pv [] = {SLIP_SMALLEST, SLIP_DIAGONAL, SLIP_FIRST_NONZERO, SLIP_TOL_SMALLEST, SLIP_TOL_LARGEST, SLIP_LARGEST}; static const SLIP_col_order od [] = {SLIP_NO_ORDERING, SLIP_COLAMD, SLIP_AMD};
    auto put = [&] (const std::string &a) { l.arg.push_back (a); };
    for (int q = 0; q < parts && l.ok; q++)
    {
        int k = s.pick ({3, 3, 3, 2, 2, faults ? 1 : 0, faults ? 1 : 0});
        if (k == 0) { put (s.flip () ? "p" : "piv"); if (faults && s.chance (1, 8)) { put (s.oneof<const char *> ({"6", "-1", "100", "7"})); l.pivot = SLIP_SMALLEST; } else { int v = (int) s.draw (6); put (std::to_string (v)); l.pivot = pv [v]; } }
        else if (k == 1) { put (s.flip () ? "q" : "col"); if (faults && s.chance (1, 8)) { put (s.oneof<const char *> ({"3", "-1", "50"})); l.order = SLIP_COLAMD; } else { int v = (int) s.draw (3); put (std::to_string (v)); l.order = od [v]; } }
        else if (k == 2) { put (s.flip () ? "t" : "tol"); if (faults && s.chance (1, 8)) { put (s.oneof<const char *> ({"-1", "-0.5", "abc", "x1"})); l.ok = false; } else { static const char *v [] = {"1", "0.5", "1e-10", ".25", "0.1", "2"}; int w = (int) s.draw (6); put (v [w]); l.tol = atof (v [w]); } }
        else if (k == 3) { put (s.flip () ? "o" : "out"); if (faults && s.chance (1, 8)) { put (s.oneof<const char *> ({"abc", "x", "-"})); l.ok = false; } else { int v = (int) s.draw (3); put (std::to_string (v)); l.print = v; } }
        else if (k == 4) { put (s.flip () ? "f" : "file"); if (faults && s.chance (1, 2)) { put ("other"); put ("names"); l.mat = "other"; l.rhs = "names"; } else { put (mat); put (rhs); l.mat = mat; l.rhs = rhs; f = true; } }
        else if (k == 5) { put (s.oneof<const char *> ({"x", "P", "pivot", "-p", "", "helpme", "order", "c2", "0"})); l.ok = false; }
        else { put ("help"); l.help = true; }
    }
    if (l.ok && faults && s.chance (1, 8)) { put (s.oneof<const char *> ({"p", "q", "t", "o", "f", "piv", "col", "tol", "out", "file"})); if ((l.arg.back () == "f" || l.arg.back () == "file") && s.flip ()) put ("only"); l.ok = false; }
    else if (!faults && (!f || l.mat != mat)) { put ("f"); put (mat); put (rhs); l.mat = mat; l.rhs = rhs; }
    return l;
}
struct Argv { std::vector<std::string> t; std::vector<char *> p; Argv (const Line &l) { t.push_back ("SLIPLU"); for (auto &x : l.arg) t.push_back (x); for (auto &x : t) p.push_back (&x [0]); p.push_back (NULL); } int n () { return (int) t.size (); } char **v () { return p.data (); } };
static std::string show (const Line &l) { std::string t = "SLIPLU"; for (auto &a : l.arg) t += " '" + a + "'"; return t; }

static void words (Src &s, Ctx &c)
{
    Session ses; Opt o; Line l = line_of (s, "A.txt", "b.txt", true); c.mix (show (l)); c.label (l.ok ? l.help ? "help" : "valid arguments" : "invalid arguments"); c.describe ([&] (std::ostream &t) { t << show (l); });
    Argv a (l); int64_t before = mem::outstanding (); int def = o->print_level; char dm [] = "dm", dr [] = "dr", *m = dm, *r = dr; SLIP_type rat = SLIP_FP64; bool help = true; int ret; std::string text; { Capture cap (stdout); ret = SUT (SLIP_process_command_line (a.n (), a.v (), o, &m, &r, &rat, &help)); text = cap.stop (); }
    if (!l.ok) { CHECK (ret == SLIP_INCORRECT_INPUT, "invalid", "returned " << info_name (ret) << " for invalid arguments"); CHECK (!text.empty (), "message", "no message for invalid arguments"); c.nontrivial = true; return; }
    CHECK (ret == SLIP_OK, "valid", "returned " << info_name (ret) << " for valid arguments: " << text); CHECK (help == l.help, "help", "help is " << help); CHECK (rat == SLIP_MPZ, "type", "the type of the solution is " << rat); if (l.help) CHECK (!text.empty (), "help", "no usage was shown");
    CHECK (o->pivot == l.pivot, "pivot", "pivot strategy " << o->pivot << ", asked for " << l.pivot); CHECK (o->order == l.order, "order", "column ordering " << o->order << ", asked for " << l.order); CHECK (o->tol == l.tol, "tolerance", "tolerance " << o->tol << ", asked for " << l.tol); CHECK (o->print_level == (l.print < 0 ? def : l.print), "print", "print level " << o->print_level << ", asked for " << l.print);
    CHECK (std::string (m) == (l.mat.empty () ? "dm" : l.mat) && std::string (r) == (l.rhs.empty () ? "dr" : l.rhs), "files", "files " << m << ", " << r << ", asked for " << l.mat << ", " << l.rhs);
    CHECK (o->prec == 128 && o->round == MPFR_RNDN && !o->check, "others", "an option that no argument sets was changed"); CHECK (mem::outstanding () == (size_t) before, "leak", "memory was kept");
    // the settings as displayed
    { Capture cap (stdout); SUT ((SLIP_print_options (o), 0)); text = cap.stop (); } static const char *pn [] = {"smallest", "diagonal", "first nonzero", "small", "large", "largest"};
    CHECK (text.find (l.order == SLIP_AMD ? " AMD" : l.order == SLIP_COLAMD ? "COLAMD" : "No") != std::string::npos && (l.order == SLIP_COLAMD) == (text.find ("COLAMD") != std::string::npos), "display", "column ordering " << l.order << " is displayed as: " << text);
    CHECK (text.find (pn [l.pivot]) != std::string::npos, "display", "pivot strategy " << l.pivot << " is displayed as: " << text); bool tol = l.pivot == SLIP_TOL_SMALLEST || l.pivot == SLIP_TOL_LARGEST; CHECK (tol == (text.find ("olerance used") != std::string::npos), "display", "pivot strategy " << l.pivot << " is displayed as: " << text); c.nontrivial = !l.arg.empty ();
}

static void program (Src &s, Ctx &c)
{
    gen::SqOpt q; q.maxn = 10; q.explicit_zeros = false; q.huge_maxn = 120; q.huge_one_in = 150; bool sing = s.chance (1, 5); ZM A = sing ? gen::square (s, c, q) : gen::nonsing (s, c, q); int64_t n = A.n; if (!n) throw Discard (); int fault = s.chance (1, 5) ? (int) s.range (1, 5) : 0; int64_t k = s.pick ({4, 1}) + 1;
    std::string why, ta, tb; auto e = A.e; s.shuffle (e); ta = std::to_string (n) + " " + std::to_string (fault == 1 ? n + 1 : n) + " " + std::to_string (e.size ()) + "\n"; for (auto &x : e) ta += std::to_string (x.i + 1) + " " + std::to_string (x.j + 1) + " " + x.v.get_str () + "\n"; if (fault == 1) why = "rectangular";
    int64_t hb = fault == 2 ? n + 1 : n; if (fault == 2) why = "heights differ"; ZD B = gen::rhs (s, hb, k, gen::int_kind (s)); tb = std::to_string (hb) + " " + std::to_string (k) + "\n"; for (auto &r : B) { for (auto &x : r) tb += x.get_str () + " "; tb += "\n"; }
    if (fault == 3) { if (e.empty ()) fault = 0; else { ta.resize (ta.size () / 2); while (!ta.empty () && ta.back () != ' ') ta.pop_back (); why = "matrix cut short"; } } if (fault == 4) { tb = tb.substr (0, tb.find ('\n') + 1) + "x"; why = "bad right-hand side"; }
    if (why.empty () && det_bareiss (A.dense ()) == 0) why = "singular"; File fa (ta), fb (tb); Line l = line_of (s, fa.path (), fault == 5 ? "/nonexistent/file" : fb.path (), false); bool help = s.chance (1, 10); if (help) { l.help = true; l.arg.insert (l.arg.begin (), "help"); } if (fault == 5) why = "missing file";
    c.mix (ta); c.mix (tb); c.mix (l.pivot * 3 + l.order); c.label (why.empty () ? "solved" : why); c.describe ([&] (std::ostream &t) { t << show (l) << "\nmatrix\n" << ta << "right-hand side\n" << tb << (why.empty () ? "" : "error: " + why); });
    Argv a (l); std::string text, err; int ret; { Capture cap (stdout), cer (stderr); ret = sliplu_main (a.n (), a.v ()); SLIP_finalize (); mp_set_memory_functions (0, 0, 0); text = cap.stop (); err = cer.stop (); } ses::defaults ();
    bool done = text.find ("all tests passed") != std::string::npos;
    if (help) { c.label ("help"); CHECK (ret == 0 && !text.empty (), "help", "no usage was shown: " << text); CHECK (!done && text.find ("nonzeros") == std::string::npos, "help", "the program solves the system although it was asked for help: " << text); return; }
    if (!why.empty ()) { CHECK (!done, "success", "the program reports success: " << why); CHECK (text.find ("rror") != std::string::npos || err.find ("rror") != std::string::npos, "message", "no error is reported: " << why << ": " << text); return; }
    CHECK (ret == 0 && done, "failure", "exit code " << ret << ": " << text << err);
    // the factors are those of the options given
    Session ses; Opt o; o->pivot = (SLIP_pivot) l.pivot; o->order = (SLIP_col_order) l.order; o->tol = l.tol; ZM inorder = A; inorder.e = e; Mat M = mk_csc (inorder, 1); Ana S; Fact F; CHECK_OK (analyze (S, M, o), "analysis"); CHECK_OK (factorize (F, M, S, o), "factorization");
    int64_t lu = F.L->p [n] + F.U->p [n] - n; size_t at = text.find ("Number of L+U nonzeros:"); if (at != std::string::npos) CHECK (strtoll (text.c_str () + at + 23, NULL, 10) == lu, "options", "L+U nonzeros with these options: " << lu << ", the program says " << text.substr (at, 60)); c.nontrivial = true;
}
static void run (Src &s, Ctx &c) { if (s.pick ({1, 1})) program (s, c); else words (s, c); }
Prop pbt::the_prop = {"D02", "a case is a generated command line given to the argument parser, or a run of the command-line program on a generated triplet matrix and right-hand side file (also singular, rectangular, cut short, missing) with generated arguments; non-trivial if arguments were given or a system was solved", 300000, 2000000, run};
