// Patterns for the ordering packages: generators, presentations, arrays in both integer widths
#pragma once
#include "slipx.h"
extern "C" {
#include "amd.h"
#include "colamd.h"
}

struct Pat                      // a set of positions: col[j] is sorted and free of duplicates
{
    int64_t m = 0, n = 0; std::vector<std::vector<int64_t>> col;
    int64_t nnz () const { int64_t k = 0; for (auto &c : col) k += c.size (); return k; }
    Pat transpose () const { Pat t; t.m = n; t.n = m; t.col.resize (m); for (int64_t j = 0; j < n; j++) for (auto i : col [j]) t.col [i].push_back (j); return t; }
    void clean () { for (auto &c : col) { std::sort (c.begin (), c.end ()); c.erase (std::unique (c.begin (), c.end ()), c.end ()); } }
};
typedef std::vector<std::vector<int64_t>> Pres;   // a presentation: any order, duplicates allowed
typedef std::vector<std::vector<int64_t>> Adj;    // neighbours, sorted, no self loops

inline Adj adj_of (const Pat &A)
{
    Adj g (A.n);
    for (int64_t j = 0; j < A.n; j++) for (auto i : A.col [j]) if (i != j) { g [i].push_back (j); g [j].push_back (i); }
    for (auto &c : g) { std::sort (c.begin (), c.end ()); c.erase (std::unique (c.begin (), c.end ()), c.end ()); }
    return g;
}
inline std::string show (const Pres &p, int64_t m)
{
    std::ostringstream o; o << m << "x" << p.size () << " columns";
    for (size_t j = 0; j < p.size (); j++) { o << " " << j << ":{"; for (size_t k = 0; k < p [j].size (); k++) o << (k ? "," : "") << p [j] [k]; o << "}"; }
    std::string s = o.str (); if (s.size () > 1500) s = s.substr (0, 1500) + "..."; return s;
}
inline bool jumbled (const Pres &p)
{
    for (auto &c : p) for (size_t k = 1; k < c.size (); k++) if (c [k] <= c [k - 1]) return true;
    return false;
}

inline void key_of_pat (pbt::Ctx &c, const Pat &A) { c.mix ((uint64_t) A.m); c.mix ((uint64_t) A.n); for (auto &x : A.col) { for (auto i : x) c.mix ((uint64_t) i); c.mix ((uint64_t) -1); } }

namespace gen {
// undirected graph on n vertices, as adjacency lists; forest: acyclic
inline Adj graph (pbt::Src &s, pbt::Ctx &c, int64_t n, bool forest = false)
{
    std::set<std::pair<int64_t, int64_t>> E;
    auto add = [&] (int64_t a, int64_t b) { if (a != b) E.insert ({std::min (a, b), std::max (a, b)}); };
    auto lab = s.flip () ? s.perm (n) : std::vector<int64_t> ();
    auto L = [&] (int64_t v) { return lab.empty () ? v : lab [v]; };
    if (forest)
    {
        int k = s.pick ({3, 1, 1, 1}); int keep = (int) s.range (1, 12);
        for (int64_t i = 1; i < n; i++)
        {
            if (s.draw (keep + 1) == 0 && s.flip ()) continue;    // another tree
            int64_t p = k == 0 ? (int64_t) s.draw (i) : k == 1 ? i - 1 : k == 2 ? 0 : i / 2;
            add (L (i), L (p));
        }
        c.label ("forest");
    }
    else
    {
        int parts = s.pick ({5, 2, 1}) + 1;
        for (int q = 0; q < parts; q++)
        {
            int k = s.pick ({4, 2, 2, 2, 2, 2, 2, 1, 2, 1});
            static const char *nm [] = {"random", "band", "grid", "cliques", "dense rows", "twins", "tree", "complete", "hubs and path", "regular"};
            c.label (std::string ("graph:") + nm [k]);
            if (k == 0) { int64_t e = s.size (0, 5 * n); while (e-- > 0 && n) add (s.draw (n), s.draw (n)); }
            else if (k == 1) { int64_t w = s.range (1, 4); for (int64_t i = 0; i < n; i++) for (int64_t d = 1; d <= w && i + d < n; d++) if (!s.chance (1, 8)) add (L (i), L (i + d)); }
            else if (k == 2) { int64_t w = s.range (1, 12); for (int64_t i = 0; i < n; i++) { if (i % w + 1 < w && i + 1 < n) add (L (i), L (i + 1)); if (i + w < n) add (L (i), L (i + w)); } }
            else if (k == 3) { int64_t e = s.range (1, 6); while (e--) { int64_t z = s.size (2, 12); std::vector<int64_t> v; while (z-- && n) v.push_back (s.draw (n)); for (auto a : v) for (auto b : v) add (a, b); } }
            else if (k == 4) { int64_t e = s.range (1, 4); while (e-- && n) { int64_t r = s.draw (n); int den = (int) s.range (1, 6); for (int64_t i = 0; i < n; i++) if (den == 6 || s.draw (den + 1)) add (r, i); } }
            else if (k == 5)
            {   // groups of indistinguishable vertices
                int64_t g = std::max<int64_t> (1, n / s.range (2, 6)), e = s.size (0, 3 * g); std::set<std::pair<int64_t, int64_t>> Q; bool in = s.flip ();
                while (e--) { int64_t a = s.draw (g), b = s.draw (g); Q.insert ({std::min (a, b), std::max (a, b)}); }
                for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < i; j++) { int64_t a = i % g, b = j % g; if ((in && a == b) || Q.count ({std::min (a, b), std::max (a, b)})) add (L (i), L (j)); }
            }
            else if (k == 6) { for (int64_t i = 1; i < n; i++) add (L (i), L (s.draw (i))); }
            else if (k == 8)
            {   // a path whose vertices see a few hubs, and some chords: long lists meet short ones
                int64_t h = s.range (1, 3), den = s.range (1, 5); for (int64_t i = h; i + 1 < n; i++) add (L (i), L (i + 1)); for (int64_t a = 0; a < h && a < n; a++) for (int64_t i = h; i < n; i++) if (s.draw (den + 1)) add (L (a), L (i));
                int64_t e = s.size (0, n); while (e-- > 0 && n) { int64_t a = s.draw (n); add (L (a), L (std::min (n - 1, a + 1 + (int64_t) s.draw (6)))); }
            }
            else if (k == 9) { int64_t d = s.range (2, 6); for (int64_t q2 = 0; q2 < d && n > 1; q2++) { auto t = s.perm (n); for (int64_t i = 0; i + 1 < n; i += 2) add (t [i], t [i + 1]); } }
            else { int64_t z = std::min<int64_t> (n, s.size (1, 40)); for (int64_t i = 0; i < z; i++) for (int64_t j = 0; j < i; j++) add (L (i), L (j)); }
        }
    }
    Adj g (n); for (auto &e : E) { g [e.first].push_back (e.second); g [e.second].push_back (e.first); }
    for (auto &x : g) std::sort (x.begin (), x.end ());
    return g;
}
// a square pattern whose symmetrized form is the graph g
inline Pat pattern_of (pbt::Src &s, const Adj &g, int sym = -1)
{
    Pat A; A.m = A.n = g.size (); A.col.resize (A.n); if (sym < 0) sym = s.pick ({2, 2, 1, 1}); int dg = s.pick ({1, 1, 1});
    for (int64_t j = 0; j < A.n; j++) for (auto i : g [j]) if (i < j)
    {
        int w = sym == 0 ? 2 : sym == 1 ? (int) s.draw (3) : sym == 2 ? 0 : 1;
        if (w != 1) A.col [j].push_back (i);
        if (w != 0) A.col [i].push_back (j);
    }
    for (int64_t j = 0; j < A.n; j++) if (dg == 1 || (dg == 2 && s.flip ())) A.col [j].push_back (j);
    A.clean (); return A;
}
// unsorted and/or with duplicates (may still come out clean)
inline Pres present (pbt::Src &s, const Pat &A, int mode)
{
    Pres p = A.col; if (mode == 0) return p;
    int den = (int) s.range (1, 5);
    for (auto &c : p)
    {
        if (c.empty () || s.draw (den)) continue;
        if (mode != 1) { int64_t d = s.range (1, 4); while (d--) c.push_back (c [s.draw (c.size ())]); if (mode == 2) std::sort (c.begin (), c.end ()); }
        if (mode != 2) s.shuffle (c);
    }
    return p;
}
}

// exact-size arrays so that the sanitizer sees any access outside
template <class T> struct Arr
{
    T *p = nullptr; size_t n = 0;
    Arr () {} explicit Arr (size_t k) { make (k); }
    template <class V> explicit Arr (const std::vector<V> &v) { make (v.size ()); for (size_t i = 0; i < n; i++) p [i] = (T) v [i]; }
    Arr (const Arr &) = delete; Arr &operator= (const Arr &) = delete;
    Arr (Arr &&o) : p (o.p), n (o.n) { o.p = nullptr; }
    void make (size_t k) { ::free (p); n = k; p = (T *) malloc (k * sizeof (T)); }   // malloc (0): any access is reported
    ~Arr () { ::free (p); }
    T &operator[] (size_t i) { return p [i]; } const T &operator[] (size_t i) const { return p [i]; }
    std::vector<int64_t> vec () const { return std::vector<int64_t> (p, p + n); }
};
template <class T> struct Csc
{
    Arr<T> p, i;
    explicit Csc (const Pres &c, size_t extra = 0)
    {
        size_t nz = 0; for (auto &x : c) nz += x.size (); p.make (c.size () + 1); i.make (nz + extra); size_t k = 0; p [0] = 0;
        for (size_t j = 0; j < c.size (); j++) { for (auto r : c [j]) i [k++] = (T) r; p [j + 1] = (T) k; }
    }
};

inline bool is_perm_vec (const std::vector<int64_t> &p, int64_t n)
{
    if ((int64_t) p.size () < n) return false;
    std::vector<char> seen (n, 0);
    for (int64_t i = 0; i < n; i++) { if (p [i] < 0 || p [i] >= n || seen [p [i]]) return false; seen [p [i]] = 1; }
    return true;
}

// symbolic Cholesky of the graph in the given order: counts of L below the diagonal, by column
inline std::vector<int64_t> symbolic (const Adj &g, const std::vector<int64_t> &P)
{
    int64_t n = g.size (); std::vector<int64_t> inv (n), cnt (n); for (int64_t k = 0; k < n; k++) inv [P [k]] = k;
    std::vector<std::vector<int64_t>> L (n); std::vector<std::vector<int64_t>> kids (n); std::vector<int64_t> mark (n, -1);
    for (int64_t k = 0; k < n; k++)
    {
        mark [k] = k; auto &c = L [k];
        for (auto v : g [P [k]]) { int64_t a = inv [v]; if (a > k && mark [a] != k) { mark [a] = k; c.push_back (a); } }
        for (auto d : kids [k]) { for (auto a : L [d]) if (a > k && mark [a] != k) { mark [a] = k; c.push_back (a); } L [d].clear (); L [d].shrink_to_fit (); }
        cnt [k] = c.size (); if (!c.empty ()) kids [*std::min_element (c.begin (), c.end ())].push_back (k);
    }
    return cnt;
}

// the symmetric package in both widths
template <class T> struct Amd;
template <> struct Amd<int>
{
    static int order (int n, const int *p, const int *i, int *P, double *c, double *f) { return amd_order (n, p, i, P, c, f); }
    static int valid (int m, int n, const int *p, const int *i) { return amd_valid (m, n, p, i); }
    static void defaults (double *c) { amd_defaults (c); }
    template <class... A> static void direct (A... a) { amd_2 (a...); }
};
template <> struct Amd<SuiteSparse_long>
{
    typedef SuiteSparse_long L;
    static int order (L n, const L *p, const L *i, L *P, double *c, double *f) { return (int) amd_l_order (n, p, i, P, c, f); }
    static int valid (L m, L n, const L *p, const L *i) { return (int) amd_l_valid (m, n, p, i); }
    static void defaults (double *c) { amd_l_defaults (c); }
    template <class... A> static void direct (A... a) { amd_l2 (a...); }
};
typedef SuiteSparse_long SLong;

// the direct interface: the symmetrized pattern in caller-given workspace
template <class T> struct Direct
{
    Arr<T> Pe, Iw, Len, Nv, Next, Last, Head, Elen, Degree, W; double info [AMD_INFO];
    // elbow: room beyond the matrix, at least n; rows may be stored with gaps and in any order
    Direct (const Adj &g, int64_t elbow, const std::vector<int64_t> &gap, double *control)
    {
        int64_t n = g.size (), pf = 0; for (int64_t i = 0; i < n; i++) pf += g [i].size () + (gap.empty () ? 0 : gap [i]);
        for (auto a : {&Pe, &Len, &Nv, &Next, &Last, &Head, &Elen, &Degree, &W}) { a->make (n); for (int64_t i = 0; i < n; i++) (*a) [i] = (T) -77; }
        Iw.make (pf + elbow); for (size_t k = 0; k < Iw.n; k++) Iw [k] = (T) (k < (size_t) pf ? 0 : -55); int64_t q = 0;   // gaps between rows must not look like the package's own (negative) markers
        for (int64_t i = 0; i < n; i++) { Pe [i] = (T) q; Len [i] = (T) g [i].size (); for (auto j : g [i]) Iw [q++] = (T) j; if (!gap.empty ()) q += gap [i]; }
        Amd<T>::direct ((T) n, Pe.p, Iw.p, Len.p, (T) (pf + elbow), (T) pf, Nv.p, Next.p, Last.p, Head.p, Elen.p, Degree.p, W.p, control, info);
    }
};

// the support library's functions point to the tracked allocator while this lives
struct Tracked
{
    Tracked () { mem::reset (); SuiteSparse_config.malloc_func = mem::Malloc; SuiteSparse_config.calloc_func = mem::Calloc; SuiteSparse_config.realloc_func = mem::Realloc; SuiteSparse_config.free_func = mem::Free; out::capture (); out::text.clear (); }
    ~Tracked () { mem::reset (); SuiteSparse_config.malloc_func = malloc; SuiteSparse_config.calloc_func = calloc; SuiteSparse_config.realloc_func = realloc; SuiteSparse_config.free_func = free; SuiteSparse_config.printf_func = printf; }
};
