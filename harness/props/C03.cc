// C03: dense and empty parts come last; the column orderings depend only on pattern and settings
#include "aside.h"
// does the end of the ordering consist of the parts set aside, each in its natural order?
static bool tail_is (const V &p, const Aside &a) { V t = a.null; t.insert (t.end (), a.dense.begin (), a.dense.end ()); t.insert (t.end (), a.empty.begin (), a.empty.end ()); return p.size () >= t.size () && std::equal (t.begin (), t.end (), p.end () - t.size ()); }
static int64_t count (const Aside &a) { return a.null.size () + a.dense.size () + a.empty.size (); }
static std::string text (const Aside &a) { return "newly empty " + text (a.null) + "dense " + text (a.dense) + "empty " + text (a.empty); }

static Knobs knobs (Src &s) { Knobs k (s); if (s.chance (1, 3)) { k.null = false; for (int i = 0; i < 2; i++) if (s.flip ()) k.k [i] = s.oneof<double> ({-1, 0, 1, 2, 2.5}); } return k; }
struct Out { V perm; int64_t s0, s1; };
template <class T> static Out col (const Pres &p, int64_t m, int64_t room, double *k, const char *w)
{
    ColRun<T> r (p, m, room, k); CHECK (r.ret == 1, "status", w << " returned " << r.ret << " with status " << r.st [3]); CHECK (is_perm_vec (r.perm, p.size ()), "perm", w << " is not a permutation"); return {r.perm, (int64_t) r.st [0], (int64_t) r.st [1]};
}
static Out col_any (Src &s, const Pres &p, int64_t m, double *k, const char *w)
{
    size_t nz = 0; for (auto &x : p) nz += x.size (); int64_t room = need_of (nz, m, p.size ()); switch (s.draw (3)) { case 0: break; case 1: room += nz / 5; break; default: room += s.size (0, 400); }
    return s.flip () ? col<int> (p, m, room, k, w) : col<SLong> (p, m, room, k, w);
}
template <class T> static Out sym (const Pres &p, double *k, const char *w)
{
    Csc<T> in (p); size_t n = p.size (); Arr<T> P (n + 1); T st [COLAMD_STATS]; int r = Col<T>::sym ((T) n, in.i.p, in.p.p, P.p, k, st, calloc, free);
    CHECK (r == 1, "status", w << " returned " << r << " with status " << st [3]); V v = P.vec (); v.resize (n); CHECK (is_perm_vec (v, n), "perm", w << " is not a permutation"); return {v, (int64_t) st [0], (int64_t) st [1]};
}
static Out sym_any (Src &s, const Pres &p, double *k, const char *w) { return s.flip () ? sym<int> (p, k, w) : sym<SLong> (p, k, w); }
#define SAME(a, b, tag, w) do { Out a_ = a, b_ = b; CHECK (a_.perm == b_.perm, tag, w << " gives " << text (a_.perm) << "instead of " << text (b_.perm)); CHECK (a_.s0 == b_.s0 && a_.s1 == b_.s1, tag, w << " counts " << a_.s0 << ", " << a_.s1 << " instead of " << b_.s0 << ", " << b_.s1); } while (0)
static void labels (Ctx &c, const Aside &a) { if (!a.null.empty ()) c.label ("newly empty"); if (!a.dense.empty ()) c.label ("dense"); if (!a.empty.empty ()) c.label ("empty"); }
static Knobs same_as (Src &s, const Knobs &k)
{   // equivalent settings
    Knobs q = k; if (q.null && s.flip ()) { q.null = false; for (auto &x : q.k) x = 0; if (s.flip ()) colamd_set_defaults (q.k); else colamd_l_set_defaults (q.k); }
    if (!q.null) { if (q.k [2]) q.k [2] = s.oneof<double> ({1, -1, 0.5, 3}); for (int i = 3; i < COLAMD_KNOBS; i++) q.k [i] = s.oneof<double> ({0, 5, -2}); for (int i = 0; i < 2; i++) if (q.k [i] < 0) q.k [i] = s.oneof<double> ({-1, -0.25, -7}); }
    return q;
}
// counts of the factor of M'M in the given order exceed the entries of M'M: fill-in
static bool fills (const Adj &g, const V &P) { auto n = symbolic (g, P); int64_t l = 0, e = 0; for (auto x : n) l += x; for (auto &x : g) e += x.size (); return l > e / 2; }

static void rectangular (Src &s, Ctx &c, int64_t mx)
{
    int64_t m = s.size (0, mx), n = s.size (0, mx); Pat A = gen::rectangular (s, c, m, n); key_of_pat (c, A); c.nontrivial = n > 2 && A.nnz ();
    // plant a part that the settings set aside
    if (m && n && s.chance (1, 2)) { int64_t e = s.range (1, 3); while (e--) { if (s.flip ()) { int64_t j = s.draw (n), k = s.range (1, m); A.col [j].clear (); for (int64_t i = 0; i < k; i++) A.col [j].push_back (m == k ? i : (int64_t) s.draw (m)); } else { int64_t i = s.draw (m); int64_t k = s.range (1, n); for (int64_t j = 0; j < n; j++) if (k == n || s.draw (n) < (uint64_t) k) A.col [j].push_back (i); } } A.clean (); }
    Knobs k = knobs (s); key_of_pat (c, A); c.describe ([&] (std::ostream &o) { o << show (A.col, m) << "\n" << k.show (); });
    Out base = col_any (s, A.col, m, k.get (), "the ordering");
    Aside a = aside (A, limit (k.k [0], n, n), limit (k.k [1], std::min (m, n), m)); labels (c, a);
    CHECK (base.s0 == a.rows, "rows", "reported " << base.s0 << " dense or empty rows, there are " << a.rows);
    CHECK (base.s1 == count (a), "columns", "reported " << base.s1 << " dense or empty columns, there are " << count (a) << ": " << text (a));
    CHECK (tail_is (base.perm, a), "last", "ordering " << text (base.perm) << "does not end with " << text (a));
    SAME (col<int> (A.col, m, need_of (A.nnz (), m, n), k.get (), "32-bit"), base, "width", "another width or amount of room"); SAME (col<SLong> (A.col, m, need_of (A.nnz (), m, n) + A.nnz () / 5, k.get (), "64-bit"), base, "width", "another width or amount of room");
    for (int q = 0; q < 2; q++) { Pres p = gen::present (s, A, s.pick ({0, 1, 1, 1})); if (jumbled (p)) { c.label ("jumbled"); SAME (col_any (s, p, m, k.get (), "jumbled"), base, "presentation", "an unsorted or duplicated presentation"); } }
    { Knobs q = same_as (s, k); SAME (col_any (s, A.col, m, q.get (), "equivalent settings"), base, "settings", "an equivalent setting"); }
}
static void square (Src &s, Ctx &c, int64_t mx)
{
    int64_t n = s.size (0, mx); bool forest = s.chance (1, 3); Adj g = gen::graph (s, c, n, forest); Pat A = gen::pattern_of (s, g, s.pick ({1, 0, 0, 1})); key_of_pat (c, A);
    Knobs k = knobs (s); int64_t E = 0; for (auto &x : g) E += x.size (); E /= 2; c.nontrivial = n > 2 && E > 0; c.describe ([&] (std::ostream &o) { o << "symmetric: " << show (A.col, n) << "\n" << k.show (); });
    Out base = sym_any (s, A.col, k.get (), "the ordering");
    // M: one row per edge
    Pat M; M.m = E; M.n = n; M.col.resize (n); int64_t r = 0; for (int64_t j = 0; j < n; j++) for (auto i : g [j]) if (i > j) { M.col [i].push_back (r); M.col [j].push_back (r); r++; }
    // documented: more than max (16, knob*sqrt (n)) entries; a smaller limit applies if there are fewer edges than vertices
    Aside a = aside (M, (double) n - 1, k.k [0] < 0 ? (double) n : limit (k.k [0], n, n)), b = aside (M, (double) n - 1, limit (k.k [0], std::min (E, n), E)); labels (c, b);
    bool isa = base.s0 == count (a) && tail_is (base.perm, a), isb = base.s0 == count (b) && tail_is (base.perm, b);
    CHECK (isa || isb, "last", "reported " << base.s0 << " dense or empty rows, ordering " << text (base.perm) << "; expected at the end: " << text (a)); CHECK (base.s0 == base.s1, "counts", "counts differ: " << base.s0 << ", " << base.s1);
    SAME (sym<int> (A.col, k.get (), "32-bit"), base, "width", "another width"); SAME (sym<SLong> (A.col, k.get (), "64-bit"), base, "width", "another width");
    // the lower part alone, and the ordering of the columns of M
    { Pres lo (n); for (int64_t j = 0; j < n; j++) for (auto i : A.col [j]) if (i > j) lo [j].push_back (i); SAME (sym_any (s, lo, k.get (), "lower part"), base, "lower", "the strictly lower part alone"); }
    { Knobs q = k; q.null = false; q.k [0] = -1; q.k [1] = k.k [0]; Out o = col_any (s, M.col, E, q.get (), "the ordering of M"); CHECK (o.perm == base.perm, "construction", "the ordering of a matrix with one row per edge is " << text (o.perm) << "instead of " << text (base.perm)); }
    { Knobs q = same_as (s, k); q.k [1] = s.oneof<double> ({-1, 0, 10}); SAME (sym_any (s, A.col, q.get (), "equivalent settings"), base, "settings", "an equivalent setting"); }
    // unsorted or duplicated: the same parts last
    { Pres p = gen::present (s, A, s.pick ({0, 1, 1, 1})); if (jumbled (p)) { c.label ("jumbled"); Out o = sym_any (s, p, k.get (), "jumbled"); CHECK (o.s0 == base.s0 && (isa ? tail_is (o.perm, a) : tail_is (o.perm, b)), "presentation", "an unsorted or duplicated presentation gives " << text (o.perm) << "with " << o.s0 << " set aside");
        if (forest && b.dense.empty ()) CHECK (!fills (g, o.perm), "fill", "ordering of an acyclic graph given unsorted causes fill-in: " << text (o.perm)); SAME (sym_any (s, p, k.get (), "jumbled again"), o, "repeat", "a later call"); } }
    if (forest && b.dense.empty ()) { c.label ("forest, no fill-in"); CHECK (!fills (g, base.perm), "fill", "ordering of an acyclic graph causes fill-in: " << text (base.perm)); }
}
static void run (Src &s, Ctx &c)
{
    Tracked tr; int64_t mx = s.pick ({4, 4, 1}) == 0 ? 14 : s.chance (1, 4) ? (c.thorough ? 400 : 150) : 45;
    if (s.chance (1, 1500)) mx = c.thorough ? 4000 : 1500;
    if (s.flip ()) rectangular (s, c, mx); else square (s, c, mx);
    if (s.chance (1, 50)) { colamd_set_defaults (NULL); colamd_l_set_defaults (NULL); }
    double d [COLAMD_KNOBS]; for (auto &x : d) x = 5; if (s.flip ()) colamd_set_defaults (d); else colamd_l_set_defaults (d);
    CHECK (d [0] == 10 && d [1] == 10 && d [2] == 1, "defaults", "default knobs are " << d [0] << ", " << d [1] << ", " << d [2]);
}
Prop pbt::the_prop = {"C03", "a case is a rectangular pattern with planted dense and empty rows and columns, or a square one of a generated graph, with generated knobs; the parts set aside are compared with a model of the documented thresholds, and the ordering across widths, room, presentations and equivalent settings; non-trivial if it has at least three columns and an entry off the diagonal", 600000, 8000000, run};
