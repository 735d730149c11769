// D01: the text readers of the command-line programs load exactly what a well-formed file says
#include "formats.h"
#include "shallow.h"
#include "lu.h"
extern "C" {
#include "demos.h"
}
#include <regex>
#include <cfloat>
using namespace pbt;
enum { INTS, REALS, DENSE };
static const char *rname [] = {"SLIP_tripread", "SLIP_tripread_double", "SLIP_read_dense"};

struct What { bool ok = false; std::string why; int64_t m = 0, n = 0; std::map<std::pair<int64_t, int64_t>, std::string> e; bool unclear = false; };
static bool is_int (const std::string &t) { size_t i = t.size () && (t [0] == '+' || t [0] == '-'); if (i == t.size ()) return false; for (; i < t.size (); i++) if (!isdigit ((unsigned char) t [i])) return false; return true; }
static bool is_real (const std::string &t) { static const std::regex re ("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?"); return std::regex_match (t, re); }
static int64_t num (const std::string &t) { return strtoll (t.c_str (), NULL, 10); }

// what the text says, read independently of the library
static What understand (const std::string &text, int reader)
{
    What w; std::vector<std::string> t; { std::istringstream in (text); std::string x; while (in >> x) t.push_back (x); }
    size_t p = 0, hd = reader == DENSE ? 2 : 3; auto bad = [&] (const char *why) { w.ok = false; w.why = why; return w; };
    // a number followed by junk at the very end of what is read may pass for the number
    auto good = [&] (size_t k, bool real) { if (k >= t.size ()) { w.why = "the text ends early"; return false; } if (real ? is_real (t [k]) : is_int (t [k])) return true; w.why = "not a number: " + t [k]; return false; };
    for (; p < hd; p++) if (!good (p, false)) { w.unclear = p == hd - 1 && p < t.size () && (reader == DENSE ? num (t [0]) * num (t [1]) : num (t [2])) == 0 && isdigit ((unsigned char) t [p] [t [p] [0] == '-' || t [p] [0] == '+']); return w; }
    w.m = num (t [0]); w.n = num (t [1]); if (w.m < 0 || w.n < 0) return bad ("negative dimension");
    for (size_t k = 0; k < hd; k++) if (t [k].size () > 4) { w.unclear = true; return w; }   // dimensions beyond what the case has memory for
    int64_t nz = reader == DENSE ? w.m * w.n : num (t [2]); if (nz < 0) return bad ("negative entry count");
    for (int64_t k = 0; k < nz; k++)
    {
        if (reader == DENSE)
        {
            if (!good (p, false)) { w.unclear = k == nz - 1 && p < t.size () && isdigit ((unsigned char) t [p] [t [p] [0] == '-' || t [p] [0] == '+']); return w; }
            w.e [{k / w.n, k % w.n}] = t [p++]; continue;
        }
        if (!good (p, false) || !good (p + 1, false)) { size_t q = p; if (q < t.size () && is_int (t [q])) q++; w.unclear = q < t.size () && reader == REALS && t [q].find_first_of (".") != std::string::npos; return w; }
        int64_t i = num (t [p]), j = num (t [p + 1]); p += 2;
        if (!good (p, reader == REALS))
        {
            char *end; if (k == nz - 1 && p < t.size ()) { if (reader == REALS) { strtod (t [p].c_str (), &end); w.unclear = end != t [p].c_str (); } else w.unclear = isdigit ((unsigned char) t [p] [t [p] [0] == '-' || t [p] [0] == '+']); }
            return w;
        }
        if (i < 1 || i > w.m || j < 1 || j > w.n) return bad ("index out of range");
        if (w.e.count ({i - 1, j - 1})) return bad ("entry given twice");
        w.e [{i - 1, j - 1}] = t [p++];
    }
    w.ok = true; return w;
}

static std::string text_of (Src &s, const mpz_class &z)
{
    std::string t = z.get_str (); if (z >= 0 && s.chance (1, 12)) t = "+" + t;
    if (s.chance (1, 12)) { size_t at = t [0] == '-' || t [0] == '+'; t.insert (at, std::string (s.range (1, 3), '0')); }
    return t;
}
static std::string real_text (Src &s)
{
    char b [400]; double v;
    switch (s.pick ({4, 3, 2, 2, 2}))
    {
        case 0: snprintf (b, sizeof b, "%lld", (long long) s.range (-1000, 1000)); return b;
        case 1: v = ldexp ((double) s.range (-4000, 4000), -(int) s.draw (12)); snprintf (b, sizeof b, s.flip () ? "%.12f" : "%.17g", v); return b;
        case 2: v = ldexp ((double) s.range (-(1LL << 53), 1LL << 53), (int) s.range (-60, 200)); snprintf (b, sizeof b, s.flip () ? "%.17g" : "%.17E", v); return b;
        case 3: { int d = (int) s.range (0, 6); std::string f; for (int k = 0; k <= d; k++) f += (char) ('0' + s.draw (10)); std::string g = s.flip () ? std::to_string (s.draw (100)) : ""; return (s.flip () ? "-" : "") + g + "." + f; }
        default: snprintf (b, sizeof b, "%lld%s", (long long) s.range (-99, 99), s.oneof<const char *> ({".", "e2", "E-3", ".5e+1", "e0", ".25"})); return b;
    }
}

static void run (Src &s, Ctx &c)
{
    Session ses; { Mat warm; SUT (SLIP_matrix_allocate (&warm.p, SLIP_DENSE, SLIP_MPQ, 1, 1, 1, false, true, NULL)); }   // the own blocks of the session exist now
    int reader = s.pick ({4, 4, 3});
    int64_t m, n; if (fmt::dims (s, 7, m, n, 25)) c.label ("large dimensions"); std::string text; const char *sep; bool lines = s.flip ();
    auto gap = [&] (bool newline) -> std::string { std::string g = newline ? (s.chance (1, 8) ? "\r\n" : "\n") : (s.chance (1, 8) ? "\t" : " "); if (!lines) { if (s.chance (1, 6)) g += s.oneof<const char *> ({" ", "\n", "\t ", "\n\n"}); else if (s.chance (1, 10)) g = newline ? " " : "\n"; } return g; };
    auto pos = fmt::positions (s, m, n, reader == DENSE ? SLIP_DENSE : SLIP_TRIPLET);
    std::vector<std::string> tok; std::vector<size_t> eol; int ik = gen::int_kind (s); c.mix (reader);
    auto st = [&] (int64_t k) { return std::to_string (k); };
    if (reader == DENSE)
    {
        tok = {st (m), st (n)}; eol = {2}; for (int64_t i = 0; i < m; i++) { for (int64_t j = 0; j < n; j++) tok.push_back (text_of (s, gen::integer (s, ik))); eol.push_back (tok.size ()); }
    }
    else
    {
        tok = {st (m), st (n), st ((int64_t) pos.size ())}; eol = {3};
        for (auto &p : pos) { tok.push_back (st (p.first + 1)); tok.push_back (st (p.second + 1)); tok.push_back (reader == INTS ? text_of (s, gen::integer (s, ik)) : real_text (s)); eol.push_back (tok.size ()); }
    }
    size_t hd = reader == DENSE ? 2 : 3; int64_t nz = (int64_t) tok.size () - (int64_t) hd; if (reader != DENSE) nz /= 3;
    int hurt = 0; if (s.chance (2, 5)) hurt = s.pick ({0, 8, 3, 3, 2, 3, 2, 2});
    switch (hurt)
    {
        case 2: tok [s.draw (tok.size ())] = s.oneof<const char *> ({"abc", "-", "+", "x1", "?", "1.5", "12abc", "--3", "nan", "e5", "*"}); break;
        case 3: if (nz && reader != DENSE) { size_t k = s.draw (nz), w = s.draw (2); int64_t d = w ? n : m; tok [hd + 3 * k + w] = st (s.oneof<int64_t> ({0, -1, d + 1, d + 1, -d - 1, 1000000, INT64_MAX, INT64_MIN})); } break;
        case 4: if (nz >= 2 && reader != DENSE) { size_t k = s.draw (nz), l = s.draw (nz); tok [hd + 3 * k] = tok [hd + 3 * l]; tok [hd + 3 * k + 1] = tok [hd + 3 * l + 1]; } break;
        case 5: { size_t k = s.draw (hd); int64_t v = num (tok [k]); tok [k] = st (s.pick ({3, 1}) ? -v - 1 : v + s.range (1, 3)); break; }
        case 6: { size_t k = s.draw (tok.size ()); tok.erase (tok.begin () + k); for (auto &x : eol) if (x > k) x--; break; }
        case 7: if (tok.size () > hd) { size_t k = hd + s.draw (tok.size () - hd); tok.insert (tok.begin () + k, tok [k]); } break;
    }
    if (s.chance (1, 10)) text += s.oneof<const char *> ({" ", "\n", "\t", "\n \n"});
    for (size_t k = 0, q = 0; k < tok.size (); k++) { while (q < eol.size () && eol [q] < k) q++; text += tok [k]; if (k + 1 < tok.size ()) text += gap (q < eol.size () && eol [q] == k + 1); }
    text += s.oneof<const char *> ({"\n", "", "\n", "\n\n", " ", "\r\n"});
    if (hurt == 1) text.resize (s.draw (text.size () + 1));
    What w = understand (text, reader); if (w.unclear) throw Discard ();
    if (hurt == 7 && w.ok) throw Discard ();
    c.mix (text); c.label (rname [reader]); c.label (w.ok ? "well formed" : "malformed: " + w.why.substr (0, w.why.find (':')));
    c.describe ([&] (std::ostream &t) { t << rname [reader] << " on the file\n" << text << "\n---- " << (w.ok ? "well formed" : w.why); });
    auto read = [&] (SLIP_matrix **h, FILE *f, SLIP_options *o) { return (int) (reader == INTS ? SUT (SLIP_tripread (h, f, o)) : reader == REALS ? SUT (SLIP_tripread_double (h, f, o)) : SUT (SLIP_read_dense (h, f, o))); };
    Opt o (!s.chance (1, 10)); if (o.p && s.chance (1, 3)) { o->prec = (int) s.range (100, 300); o->print_level = (int) s.draw (2); } size_t before = mem::outstanding ();
    struct File { FILE *f; File (const std::string &t) { f = tmpfile_of (t); } ~File () { fclose (f); } static FILE *tmpfile_of (const std::string &t) { return fmemopen ((void *) t.data (), t.size (), "r"); } } f (text);
    if (s.chance (1, 12))
    {
        c.label ("null handle or file"); int which = (int) s.draw (3); SLIP_matrix *h = NULL;
        int r = read (which == 1 ? &h : NULL, which == 0 ? f.f : NULL, o); 
        CHECK (r == SLIP_INCORRECT_INPUT, "null", rname [reader] << " without " << (which == 0 ? "handle" : which == 1 ? "file" : "handle and file") << " returned " << info_name (r));
        CHECK (!h && mem::outstanding () == before, "null", rname [reader] << " left an object or memory behind"); return;
    }
    Mat M; SLIP_matrix *h = (SLIP_matrix *) (s.flip () ? (void *) &text : NULL); int r = read (&h, f.f, o);
    if (!w.ok)
    {
        CHECK (r == SLIP_INCORRECT_INPUT, "malformed", rname [reader] << " returned " << info_name (r) << " for a malformed file (" << w.why << ")"); CHECK (!h, "malformed", rname [reader] << " rejected the file but left an object");
        CHECK (mem::outstanding () == before, "leak", rname [reader] << " rejected the file (" << w.why << ") and kept " << mem::outstanding () - before << " blocks"); no_leftover (rname [reader]); c.nontrivial = nz >= 1; return;
    }
    CHECK (r == SLIP_OK, "well formed", rname [reader] << " returned " << info_name (r) << " for a well-formed file"); M.p = h; fmt::valid (M, "object");
    CHECK (M->m == w.m && M->n == w.n && M->type == SLIP_MPZ && M->kind == (reader == DENSE ? SLIP_DENSE : SLIP_CSC), "object", rname [reader] << " made a " << fmt::kname [M->kind] << " " << fmt::tname [M->type] << " matrix of " << M->m << " by " << M->n);
    int64_t prec = o.p ? o->prec : 128; std::map<std::pair<int64_t, int64_t>, mpq_class> got;
    if (reader == DENSE) { for (int64_t i = 0; i < w.m; i++) for (int64_t j = 0; j < w.n; j++) got [{i, j}] = fmt::get (M, i + j * w.m, "value"); }
    else for (int64_t j = 0; j < w.n; j++) for (int64_t p = M->p [j]; p < M->p [j + 1]; p++) got [{M->i [p], j}] = fmt::get (M, p, "value");
    if (reader != DENSE) CHECK (got.size () == w.e.size (), "entries", rname [reader] << " read " << got.size () << " entries, the file has " << w.e.size ());
    if (reader != REALS) CHECK (mpq_cmp_ui (M->scale, 1, 1) == 0, "scale", rname [reader] << " set a scale factor for integers");
    static const mpz_class ten17 ("100000000000000000"); bool exact = true;
    for (auto &x : w.e)
    {
        CHECK (got.count (x.first), "entries", rname [reader] << ": entry (" << x.first.first << "," << x.first.second << ") is missing"); mpq_class g = got [x.first];
        if (reader != REALS) { mpz_class z (x.second [0] == '+' ? x.second.substr (1) : x.second, 10); CHECK (g == z, "value", rname [reader] << ": entry (" << x.first.first << "," << x.first.second << ") is " << g << ", the file says " << x.second); continue; }
        double d = strtod (x.second.c_str (), NULL); mpq_class v (d), t = v * ten17;   // exact as a multiple of 10^-17, else the nearest one
        if (t.get_den () == 1 && fmt::sigbits (t) <= (size_t) prec) CHECK (g == v, "value", rname [reader] << ": entry (" << x.first.first << "," << x.first.second << ") is " << g << ", the file says " << x.second);
        else { exact = false; mpq_class tol = mpq_class (1) / (2 * ten17), rel = abs (v); mpz_class two; mpz_ui_pow_ui (two.get_mpz_t (), 2, prec - 1); rel /= two; mpq_class e = abs (g - v); CHECK (e <= tol + rel, "value", rname [reader] << ": entry (" << x.first.first << "," << x.first.second << ") is " << g.get_d () << ", the file says " << x.second); }
    }
    if (reader == REALS) c.label (exact ? "all reals exact" : "a real beyond 17 decimals");
    M.free (); CHECK (mem::outstanding () == before, "leak", rname [reader] << " kept memory after its matrix was freed"); no_leftover (rname [reader]); c.nontrivial = w.e.size () >= 2 && w.m >= 2; (void) sep;
}
Prop pbt::the_prop = {"D01", "A well-formed file with two entries or more and two rows or more, or a malformed one with an entry.", 1200000, 12000000, run};
