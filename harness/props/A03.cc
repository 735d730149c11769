// A03: the symmetric ordering depends only on the pattern and the control settings
#include "ord.h"
using namespace pbt;
typedef std::vector<int64_t> V;

struct Set { double c [AMD_CONTROL]; bool null; double *get () { return null ? NULL : c; } };
template <class T> static V ord (const Pres &p, Set &k, const char *w, bool info = true, double *I = NULL)
{
    Csc<T> A (p); Arr<T> P (p.size ()); double f [AMD_INFO]; for (size_t q = 0; q < P.n; q++) P [q] = (T) -1;
    int r = Amd<T>::order ((T) p.size (), A.p.p, A.i.p, P.p, k.get (), I ? I : info ? f : NULL); int want = jumbled (p) ? AMD_OK_BUT_JUMBLED : AMD_OK;
    CHECK (r == want, "status", w << " returned " << r << ", expected " << want);
    V v = P.vec (); CHECK (is_perm_vec (v, p.size ()), "perm", w << " is not a permutation"); return v;
}
static V any (Src &s, const Pres &p, Set &k, const char *w) { bool i = s.flip (); return s.flip () ? ord<int> (p, k, w, i) : ord<SLong> (p, k, w, i); }
static std::string text (const V &v) { std::string t; for (auto x : v) t += std::to_string (x) + " "; return t; }
#define SAME(a, b, tag, w) do { V a_ = a, b_ = b; CHECK (a_ == b_, tag, w << " gives " << text (a_) << "instead of " << text (b_)); } while (0)

static void run (Src &s, Ctx &c)
{
    Tracked tr; int64_t maxn = s.pick ({5, 3, 2}) == 0 ? 16 : s.chance (1, 3) ? (c.thorough ? 400 : 150) : 50;
    int64_t n = s.size (1, maxn); if (s.chance (1, 2500)) { n = s.range (800, c.thorough ? 6000 : 2500); c.label ("n >= 800"); } Adj g = gen::graph (s, c, n, s.chance (1, 6)); int sym = s.pick ({2, 2, 1, 1});
    Pat A = gen::pattern_of (s, g, sym); Set k; for (auto &x : k.c) x = 0; k.null = false;
    switch (s.pick ({3, 1, 3})) { case 0: k.c [0] = 10; break; case 1: k.c [0] = -1; break; default: k.c [0] = (double) s.range (0, 40) / 8; }
    k.c [1] = s.flip (); key_of_pat (c, A); int64_t e = 0; for (auto &x : g) e += x.size (); c.nontrivial = n > 2 && e > 0;
    c.describe ([&] (std::ostream &o) { o << show (A.col, n) << "\ndense " << k.c [0] << ", aggressive " << k.c [1]; });
    double I [AMD_INFO]; V base = ord<int> (A.col, k, "32-bit", true, I); V basel = ord<SLong> (A.col, k, "64-bit");
    SAME (basel, base, "width", "the 64-bit version");
    SAME (ord<int> (A.col, k, "without statistics", false), base, "info", "omitting the statistics");
    // other entries in the unused control settings, other nonzero values of the switch
    { Set q = k; for (int i = 2; i < AMD_CONTROL; i++) q.c [i] = s.oneof<double> ({-3, 7, 1e9}); if (q.c [1]) q.c [1] = s.oneof<double> ({1, -1, 0.5, 9}); SAME (any (s, A.col, q, "control"), base, "control", "an equivalent control setting"); }
    // omitted controls are the defaults
    { Set d = k, z = k; z.null = true; if (s.flip ()) amd_defaults (d.c); else amd_l_defaults (d.c); SAME (any (s, A.col, z, "no control"), any (s, A.col, d, "defaults"), "defaults", "omitting the control settings"); }
    // diagonal entries do not matter
    { Pat B = A; for (int64_t j = 0; j < n; j++) { auto &x = B.col [j]; x.erase (std::remove (x.begin (), x.end (), j), x.end ()); if (s.flip ()) x.push_back (j); } B.clean (); SAME (any (s, B.col, k, "diagonal"), base, "diagonal", "another diagonal"); }
    // unsorted columns and duplicates: all such presentations agree, with the clean pattern or its transpose
    V tr_ = any (s, A.transpose ().col, k, "transpose"); V first;
    for (int q = 0; q < 3; q++)
    {
        Pat B = A; if (q == 2) { for (int64_t j = 0; j < n; j++) if (s.chance (1, 3)) B.col [j].push_back (j); B.clean (); }
        Pres p = gen::present (s, B, s.pick ({0, 1, 1, 1})); if (!jumbled (p)) continue;
        V v = any (s, p, k, "jumbled"); c.label ("jumbled");
        CHECK (v == base || v == tr_, "jumbled", "unsorted or duplicated entries give " << text (v) << "instead of " << text (base));
        if (first.empty ()) first = v; else SAME (v, first, "jumbled", "another unsorted presentation");
    }
    if (sym == 0 && !first.empty ()) SAME (first, base, "jumbled", "the unsorted presentation of a symmetric pattern");
    // the direct interface with any amount of room to spare, and other calls between
    {
        Adj h = g; Direct<int> a (h, n + (int64_t) s.draw (2 * n + 1), V (), k.get ()); Direct<SLong> b (h, n + (s.flip () ? e / 5 : 0), V (), k.get ());
        if (a.info [AMD_NCMPA] > 0 || b.info [AMD_NCMPA] > 0) c.label ("garbage collection");
        if (a.info [AMD_NCMPA] != b.info [AMD_NCMPA]) c.label ("different numbers of garbage collections");
        SAME (b.Last.vec (), a.Last.vec (), "room", "another width and amount of workspace");
    }
    SAME (any (s, A.col, k, "again"), base, "repeat", "a later call");
    CHECK (mem::outstanding () == 0 && !mem::bad_free, "memory", mem::outstanding () << " blocks left, " << mem::bad_what);
}
Prop pbt::the_prop = {"A03", "a case is a square pattern of a generated graph with generated controls; its ordering is compared across integer widths, diagonals, unsorted and duplicated presentations, equivalent controls, omitted arguments, workspace sizes and call order; non-trivial if the graph has at least three vertices and an edge", 250000, 5000000, run};
