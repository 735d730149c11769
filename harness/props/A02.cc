// A02: statistics of the symmetric ordering are truthful; no fill-in on forests
#include "ord.h"
using namespace pbt;

struct Truth { int64_t nz, diag, both, nzaat; double sym; std::vector<int64_t> deg; Adj g; };
static Truth truth_of (const Pat &A)
{
    Truth t; t.nz = A.nnz (); t.diag = t.both = 0; std::vector<std::set<int64_t>> c (A.n);
    for (int64_t j = 0; j < A.n; j++) c [j].insert (A.col [j].begin (), A.col [j].end ());
    for (int64_t j = 0; j < A.n; j++) for (auto i : c [j]) { if (i == j) t.diag++; else if (c [i].count (j)) t.both++; }
    t.sym = t.nz == t.diag ? 1 : (double) t.both / (double) (t.nz - t.diag);
    t.g = adj_of (A); t.nzaat = 0; for (auto &x : t.g) { t.deg.push_back (x.size ()); t.nzaat += x.size (); }
    return t;
}
// vertices that the documented threshold calls dense; amb: too close to call in floating point
static std::vector<char> dense_of_ (const Truth &t, double alpha, bool &amb)
{
    int64_t n = t.deg.size (); std::vector<char> d (n, 0); amb = false;
    for (int64_t i = 0; i < n; i++)
    {
        if (t.deg [i] <= 16) continue;
        if (alpha < 0) { d [i] = t.deg [i] == n - 1; continue; }       // only completely dense rows are set aside
        double th = alpha * std::sqrt ((double) n); if (std::fabs (th - t.deg [i]) < 1e-6 && th != std::floor (th)) amb = true;
        d [i] = t.deg [i] > th;
    }
    return d;
}

template <class T> static void stats (Ctx &c, const char *w, const Truth &t, const std::vector<int64_t> &P, const double *I, double alpha, bool forest)
{
    int64_t n = t.deg.size (); bool amb; auto d = dense_of_ (t, alpha, amb); if (amb) throw Discard ();
    int64_t nd = std::count (d.begin (), d.end (), 1);
    CHECK (I [AMD_NDENSE] == nd, "dense", w << ": " << I [AMD_NDENSE] << " rows reported as dense, expected " << nd);
    for (int64_t k = 0; k < n; k++) CHECK (d [P [k]] == (k >= n - nd), "dense", w << ": row " << P [k] << " at position " << k << " of " << n << " is " << (d [P [k]] ? "" : "not ") << "dense");
    if (nd) c.label ("dense rows");
    auto cnt = symbolic (t.g, P); double lnz = 0, ldl = 0, lu = 0, dm = 1;
    for (auto x : cnt) { double v = x; lnz += v; ldl += v * (v + 1) / 2; lu += v * v; dm = std::max (dm, v + 1); }
    CHECK (I [AMD_LNZ] >= lnz, "bound", w << ": reported nonzeros in L " << I [AMD_LNZ] << ", but this order needs " << lnz);
    CHECK (I [AMD_NDIV] >= lnz, "bound", w << ": reported divisions " << I [AMD_NDIV] << ", but this order needs " << lnz);
    CHECK (I [AMD_NMULTSUBS_LDL] >= ldl, "bound", w << ": reported LDL' operations " << I [AMD_NMULTSUBS_LDL] << ", but this order needs " << ldl);
    CHECK (I [AMD_NMULTSUBS_LU] >= lu, "bound", w << ": reported LU operations " << I [AMD_NMULTSUBS_LU] << ", but this order needs " << lu);
    CHECK (I [AMD_DMAX] >= dm, "bound", w << ": reported largest column " << I [AMD_DMAX] << ", but this order has one with " << dm);
    double full = (double) n * (n - 1) / 2;
    CHECK (I [AMD_LNZ] <= full && I [AMD_NDIV] <= full && I [AMD_DMAX] <= std::max<double> (n, 1), "bound", w << ": reported L has " << I [AMD_LNZ] << " nonzeros and a column of " << I [AMD_DMAX] << ", more than a full matrix of size " << n);
    CHECK (I [AMD_NMULTSUBS_LU] <= (n - 1.0) * n * (2.0 * n - 1) / 6 && I [AMD_NMULTSUBS_LDL] <= ((n - 1.0) * n * (2.0 * n - 1) / 6 + full) / 2, "bound", w << ": more operations than a full matrix needs");
    if (I [AMD_LNZ] == lnz) c.label ("bound is exact");
    if (forest && nd == 0)
    {
        double e = 0; for (auto x : t.deg) e += x; e /= 2;
        CHECK (lnz == e, "forest", w << ": a forest with " << e << " edges gets a factor with " << lnz << " entries");
        CHECK (I [AMD_LNZ] == e && I [AMD_DMAX] == (e > 0 ? 2 : 1), "forest", w << ": " << I [AMD_LNZ] << " nonzeros reported for a forest with " << e << " edges");
    }
    if (n >= 2 && nd == 0 && 2 * full == t.nzaat) CHECK (I [AMD_LNZ] == full && I [AMD_DMAX] == n, "complete", w << ": a complete graph needs " << full << " entries, reported " << I [AMD_LNZ]);
}

template <class T> static void one (Src &s, Ctx &c, const char *w, const Truth &t, const Pres &p, double alpha, double aggr, bool null, bool forest)
{
    int64_t n = p.size (); Csc<T> A (p); double C [AMD_CONTROL], I [AMD_INFO]; for (auto &x : C) x = 3; for (auto &x : I) x = 77;
    Amd<T>::defaults (C); CHECK (C [AMD_DENSE] == 10 && C [AMD_AGGRESSIVE] == 1, "defaults", "default control settings are " << C [0] << ", " << C [1]);
    C [AMD_DENSE] = alpha; C [AMD_AGGRESSIVE] = aggr; Arr<T> P (n);
    uint64_t r0 = mem::requested; int r = Amd<T>::order ((T) n, A.p.p, A.i.p, P.p, null ? NULL : C, I);
    bool jum = jumbled (p); int64_t nz = 0; bool dup = false; for (auto &x : p) { nz += x.size (); dup |= std::set<int64_t> (x.begin (), x.end ()).size () != x.size (); }
    CHECK (r == (jum ? AMD_OK_BUT_JUMBLED : AMD_OK) && I [AMD_STATUS] == r, "status", w << ": returned " << r << ", reported " << I [AMD_STATUS]);
    auto v = P.vec (); CHECK (is_perm_vec (v, n), "perm", w << ": not a permutation");
    CHECK (I [AMD_N] == n, "size", w << ": size " << I [AMD_N]);
    CHECK (I [AMD_NZ] == t.nz || (dup && I [AMD_NZ] == nz), "nz", w << ": " << I [AMD_NZ] << " entries reported, expected " << t.nz);
    CHECK (I [AMD_NZDIAG] == t.diag, "diag", w << ": " << I [AMD_NZDIAG] << " diagonal entries reported, expected " << t.diag);
    CHECK (I [AMD_SYMMETRY] == t.sym, "symmetry", w << ": symmetry " << I [AMD_SYMMETRY] << ", expected " << t.sym);
    CHECK (I [AMD_NZ_A_PLUS_AT] == t.nzaat, "nzaat", w << ": " << I [AMD_NZ_A_PLUS_AT] << " entries in A+A', expected " << t.nzaat);
    CHECK (I [AMD_MEMORY] == (double) (mem::requested - r0), "memory", w << ": reported memory " << I [AMD_MEMORY] << " bytes, asked for " << mem::requested - r0);
    CHECK (I [AMD_NCMPA] >= 0, "ncmpa", w << ": " << I [AMD_NCMPA] << " garbage collections");
    if (I [AMD_NCMPA] > 0) c.label ("garbage collection");
    stats<T> (c, w, t, v, I, null ? AMD_DEFAULT_DENSE : alpha, forest);
    // the direct interface
    if (s.chance (1, 2))
    {
        std::vector<int64_t> gap; if (s.chance (1, 3)) for (int64_t i = 0; i < n; i++) gap.push_back (s.draw (4));
        int64_t elbow = n + (s.flip () ? 0 : s.size (0, n));
        Adj g = t.g; if (s.flip ()) for (auto &x : g) s.shuffle (x);
        Direct<T> d (g, elbow, gap, null ? NULL : C); auto q = d.Last.vec (), qi = d.Next.vec ();
        CHECK (is_perm_vec (q, n), "direct", w << ": the direct interface gives no permutation");
        for (int64_t k = 0; k < n; k++) CHECK (qi [q [k]] == k, "direct", w << ": the inverse permutation is wrong at " << q [k]);
        if (d.info [AMD_NCMPA] > 0) c.label ("garbage collection (direct)");
        stats<T> (c, w, t, q, d.info, null ? AMD_DEFAULT_DENSE : alpha, forest);
        // the assembly tree: node sizes add up to the rows that are not dense, parents come later
        int64_t sum = 0;
        for (int64_t i = 0; i < n; i++)
        {
            int64_t nv = d.Nv [i], pe = d.Pe [i]; CHECK (nv >= 0 && pe >= -1 && pe < n && pe != i, "tree", w << ": node " << i << " has size " << nv << " and parent " << pe);
            sum += nv; if (nv > 0 && pe >= 0) CHECK (d.Nv [pe] > 0 && qi [pe] > qi [i], "tree", w << ": parent " << pe << " of " << i << " is not a later node");
        }
        CHECK (sum + d.info [AMD_NDENSE] == n, "tree", w << ": the nodes of the assembly tree hold " << sum << " pivots");
    }
}

static void run (Src &s, Ctx &c)
{
    Tracked tr; int64_t maxn = s.pick ({5, 3, 2}) == 0 ? 16 : s.chance (1, 3) ? (c.thorough ? 500 : 180) : 60;
    int64_t n = s.size (1, maxn); bool forest = s.chance (1, 4);
    Pat A = gen::pattern_of (s, gen::graph (s, c, n, forest)); Pres p = gen::present (s, A, s.pick ({4, 1, 1, 1})); Truth t = truth_of (A);
    double alpha; switch (s.pick ({3, 2, 3, 1})) { case 0: alpha = 10; break; case 1: alpha = s.oneof<double> ({-1, -1e-9, -1e300}); break; case 2: alpha = (double) s.range (0, 60) / 8; break; default: alpha = s.oneof<double> ({1e5, 1e9, 1e10, 3e18, 1e19, 1e300, INFINITY, 0.0}); }
    double aggr = s.oneof<double> ({1, 0, 7, -1, 0.25}); bool null = s.chance (1, 6);
    key_of_pat (c, A); c.mix ((uint64_t) (alpha * 8)); c.nontrivial = n > 1 && t.nzaat > 0;
    c.describe ([&] (std::ostream &o) { o << show (p, n) << "\ndense " << alpha << ", aggressive " << aggr << (null ? " (not passed)" : ""); });
    if (s.flip ()) one<int> (s, c, "32-bit", t, p, alpha, aggr, null, forest); else one<SLong> (s, c, "64-bit", t, p, alpha, aggr, null, forest);
}
Prop pbt::the_prop = {"A02", "a case is a square pattern of a generated graph (forests, grids, cliques, dense rows, twins, ...) in a generated presentation with generated controls, ordered through the normal and the direct interface; non-trivial if the graph has an edge", 500000, 10000000, run};
