// A04: the C version makes the decisions of the Fortran original
#include "fortran.h"

template <class I> struct Cv
{
    int64_t n; Arr<I> pe, iw, len, nv, next, last, head, elen, degree, w; double info [AMD_INFO];
    Cv (const Adj &g, const Form &f, int64_t elbow, bool aggressive, double dense, uint64_t junk)
    {
        n = (int64_t) g.size (); int64_t k = 0; for (int64_t i = 0; i < n; i++) k += g [i].size () + f.gap [i]; int64_t pf = k, iwlen = pf + elbow;
        for (auto a : {&pe, &len, &nv, &next, &last, &head, &elen, &degree, &w}) { a->make (n); for (int64_t i = 0; i < n; i++) (*a) [i] = (I) (mix64 (junk++) >> 40); }
        iw.make (iwlen); for (int64_t q = 0; q < iwlen; q++) iw [q] = (I) (mix64 (junk++) >> 60); k = 0;
        for (int64_t t = 0; t < n; t++) { int64_t i = f.place [t]; pe [i] = (I) k; len [i] = (I) g [i].size (); for (auto j : g [i]) iw [k++] = (I) j; k += f.gap [i]; }
        double C [AMD_CONTROL] = {0}; C [AMD_DENSE] = dense; C [AMD_AGGRESSIVE] = aggressive; for (auto &x : info) x = -7;
        Amd<I>::direct ((I) n, pe.p, iw.p, len.p, (I) iwlen, (I) pf, nv.p, next.p, last.p, head.p, elen.p, degree.p, w.p, C, info);
    }
};
static int64_t max_n (bool t) { return t ? 300 : 100; }
template <class I> static void compare (Src &s, Ctx &c, const Adj &g, const Form &f, bool bar, F &r)
{
    int64_t n = g.size (); Cv<I> k (g, f, n + s.draw (n + 1), !bar, -1, s.draw (1000));
    for (int64_t i = 0; i < n; i++)
    {
        CHECK ((k.nv [i] > 0) == (r.nv [i] > 0), "tree", "row " << i << ": nv " << k.nv [i] << " in C, " << r.nv [i] << " in Fortran");
        CHECK (k.pe [i] == -r.pe [i] - 1, "tree", "row " << i << ": parent " << k.pe [i] << " in C, " << -r.pe [i] - 1 << " in Fortran");
        if (r.nv [i] > 0) CHECK (k.elen [i] == r.nv [i], "tree", "row " << i << ": size " << k.elen [i] << " in C, " << r.nv [i] << " in Fortran");
    }
}
static void run (Src &s, Ctx &c)
{
    bool bar = s.flip (), forest = s.chance (1, 8); int64_t n = s.size (1, max_n (c.thorough)); if (s.chance (1, 4000)) { n = s.range (500, c.thorough ? 4000 : 1500); c.label ("n >= 500"); } Adj g = gen::graph (s, c, n, forest); if (s.flip ()) for (auto &r : g) s.shuffle (r);
    for (auto &r : g) if ((int64_t) r.size () == n - 1) { g.push_back ({}); n++; break; }   // the C version sets completely connected vertices aside
    Form f; f.place.resize (n); f.gap.assign (n, 0); for (int64_t i = 0; i < n; i++) f.place [i] = i;
    for (auto &r : g) { for (auto j : r) c.mix (j); c.mix (1000000); } c.mix (bar); int64_t nz = 0; for (auto &r : g) nz += r.size (); c.nontrivial = nz >= 4;
    c.describe ([&] (std::ostream &o) { o << (bar ? "AMDBAR" : "AMD") << " rows" << show (Pres (g.begin (), g.end ()), n); });
    F r (g, f, n + s.draw (n + 1), bar, 5);
    if (s.flip ()) compare<int> (s, c, g, f, bar, r); else compare<SuiteSparse_long> (s, c, g, f, bar, r);
}
Prop pbt::the_prop = {"A04", "a case is an undirected graph without completely connected vertices (forests, random, bands, grids, cliques, dense rows, twins) stored row by row, ordered by the Fortran and the C version (either integer width, dense row treatment off) with or without aggressive absorption, and the two assembly trees compared; non-trivial: at least two edges", 800000, 12000000, run};
