// The column-ordering package in both widths, with models of its documented statuses
#pragma once
#include "ord.h"

template <class T> struct Col;
template <> struct Col<int>
{
    static const char *name () { return "32-bit"; }
    static size_t rec (int z, int m, int n) { return colamd_recommended (z, m, n); }
    static void defaults (double *k) { colamd_set_defaults (k); }
    static int col (int m, int n, int al, int *A, int *p, double *k, int *st) { return colamd (m, n, al, A, p, k, st); }
    static int sym (int n, int *A, int *p, int *P, double *k, int *st, void *(*a) (size_t, size_t), void (*f) (void *)) { return symamd (n, A, p, P, k, st, a, f); }
    static void report (int *st, bool s) { s ? symamd_report (st) : colamd_report (st); }
};
template <> struct Col<SLong>
{
    static const char *name () { return "64-bit"; }
    static size_t rec (SLong z, SLong m, SLong n) { return colamd_l_recommended (z, m, n); }
    static void defaults (double *k) { colamd_l_defaults_ (k); }
    static void colamd_l_defaults_ (double *k) { colamd_l_set_defaults (k); }
    static int col (SLong m, SLong n, SLong al, SLong *A, SLong *p, double *k, SLong *st) { return (int) colamd_l (m, n, al, A, p, k, st); }
    static int sym (SLong n, SLong *A, SLong *p, SLong *P, double *k, SLong *st, void *(*a) (size_t, size_t), void (*f) (void *)) { return (int) symamd_l (n, A, p, P, k, st, a, f); }
    static void report (SLong *st, bool s) { s ? symamd_l_report (st) : colamd_l_report (st); }
};

struct Knobs
{
    double k [COLAMD_KNOBS]; bool null; std::string before;
    Knobs () {}
    Knobs (pbt::Src &s, bool extreme = true)
    {
        null = s.chance (1, 5); for (auto &x : k) x = 0; 
        for (int i : {COLAMD_DENSE_ROW, COLAMD_DENSE_COL}) switch (s.pick ({3, 2, 3, extreme ? 1 : 0}))
        { case 0: k [i] = 10; break; case 1: k [i] = s.oneof<double> ({-1, -0.5, -1e300}); break; case 2: k [i] = (double) s.range (0, 48) / 8; break; default: k [i] = s.oneof<double> ({1e3, 1e8, 1e9, 1e10, 1e19, 1e300, INFINITY, 0}); }
        k [COLAMD_AGGRESSIVE] = s.oneof<double> ({1, 0, -1, 0.5}); if (null) { k [0] = k [1] = 10; k [2] = 1; }
        before.assign ((char *) k, sizeof k);
    }
    double *get () { return null ? NULL : k; }
    bool same () const { return before == std::string ((char *) k, sizeof k); }
    std::string show () const { std::ostringstream o; o << "knobs " << k [0] << "," << k [1] << "," << k [2] << (null ? " (not passed)" : ""); return o.str (); }
};

// what the status details say about unsorted or duplicated entries
struct Jumble { bool any = false; int64_t col = -1, row = -1, count = 0; };
inline Jumble jumble_of (const Pres &p)
{
    Jumble r;
    for (size_t j = 0; j < p.size (); j++)
    {
        std::set<int64_t> seen; int64_t last = -1;
        for (auto i : p [j]) { if (i <= last || seen.count (i)) { r.any = true; r.col = j; r.row = i; r.count++; } seen.insert (i); last = i; }
    }
    return r;
}
inline size_t need_of (size_t nz, size_t m, size_t n) { return 2 * nz + 6 * (n + 1) + 4 * (m + 1) + n; }

// result of one call, with the arrays it ran on
template <class T> struct ColRun
{
    int ret; Arr<T> A, p; T st [COLAMD_STATS]; std::vector<int64_t> perm;
    ColRun (const Pres &c, int64_t m, int64_t alen, double *knobs)
    {
        Csc<T> in (c); size_t n = c.size (); for (auto &x : st) x = 99;
        A.make (std::max<int64_t> (alen, (int64_t) in.i.n)); for (size_t k = 0; k < A.n; k++) A [k] = k < in.i.n ? in.i [k] : (T) -99; p.make (n + 1); for (size_t k = 0; k <= n; k++) p [k] = in.p [k];
        ret = Col<T>::col ((T) m, (T) n, (T) alen, A.p, p.p, knobs, st); perm = p.vec (); perm.resize (n);
    }
};

namespace gen {
// rectangular pattern
inline Pat rectangular (pbt::Src &s, pbt::Ctx &c, int64_t m, int64_t n)
{
    Pat A; A.m = m; A.n = n; A.col.resize (n); if (!m || !n) { c.label ("no rows or columns"); return A; }
    int parts = s.pick ({5, 3, 1}) + 1;
    for (int q = 0; q < parts; q++)
    {
        int k = s.pick ({4, 2, 2, 2, 2, 2, 2}); static const char *nm [] = {"random", "band", "dense columns", "dense rows", "equal columns", "edges", "blocks"};
        c.label (std::string ("pattern:") + nm [k]);
        if (k == 0) { int64_t e = s.size (0, 4 * std::max (m, n)); while (e--) A.col [s.draw (n)].push_back (s.draw (m)); }
        else if (k == 1) { int64_t w = s.range (1, 4); for (int64_t j = 0; j < n; j++) for (int64_t d = 0; d < w; d++) { int64_t i = j * m / n + d; if (i < m && !s.chance (1, 8)) A.col [j].push_back (i); } }
        else if (k == 2) { int64_t e = s.range (1, 4); while (e--) { int64_t j = s.draw (n); int den = (int) s.range (1, 6); for (int64_t i = 0; i < m; i++) if (den == 6 || s.draw (den + 1)) A.col [j].push_back (i); } }
        else if (k == 3) { int64_t e = s.range (1, 4); while (e--) { int64_t i = s.draw (m); int den = (int) s.range (1, 6); for (int64_t j = 0; j < n; j++) if (den == 6 || s.draw (den + 1)) A.col [j].push_back (i); } }
        else if (k == 4) { int64_t g = std::max<int64_t> (1, n / s.range (2, 6)); std::vector<std::vector<int64_t>> base (g); for (auto &b : base) { int64_t e = s.size (0, 6); while (e--) b.push_back (s.draw (m)); } for (int64_t j = 0; j < n; j++) for (auto i : base [j % g]) A.col [j].push_back (i); }
        else if (k == 5) { for (int64_t i = 0; i < m; i++) { A.col [s.draw (n)].push_back (i); A.col [s.draw (n)].push_back (i); } }
        else { int64_t e = s.range (1, 5); while (e--) { std::vector<int64_t> r, cc; int64_t z = s.size (1, 8); while (z--) r.push_back (s.draw (m)); z = s.size (1, 8); while (z--) cc.push_back (s.draw (n)); for (auto j : cc) for (auto i : r) A.col [j].push_back (i); } }
    }
    if (s.chance (1, 4)) { int64_t e = s.range (1, 3); while (e--) A.col [s.draw (n)].clear (); c.label ("empty columns"); }
    A.clean (); return A;
}
}
