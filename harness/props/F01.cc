// F01: Fortran minimum degree orderings
#include "fortran.h"
using namespace pbt;
static int64_t total (const std::vector<int64_t> &c) { int64_t t = 0; for (auto x : c) t += x; return t; }
static int64_t max_n (bool t) { return t ? 300 : 100; }

static void run (Src &s, Ctx &c)
{
    bool bar = s.flip (), forest = s.chance (1, 4); int64_t n = s.size (1, max_n (c.thorough)); if (s.chance (1, 4000)) { n = s.range (500, c.thorough ? 4000 : 1500); c.label ("n >= 500"); } Adj g = gen::graph (s, c, n, forest); if (s.flip ()) for (auto &r : g) s.shuffle (r);
    Form f; f.place.resize (n); f.gap.assign (n, 0); for (int64_t i = 0; i < n; i++) f.place [i] = i; if (s.chance (1, 3)) s.shuffle (f.place); if (s.chance (1, 3)) for (auto &x : f.gap) x = s.draw (4);
    int64_t nz = 0; for (auto &r : g) nz += r.size (); int ek = s.pick ({3, 2, 2, 1}); int64_t elbow = ek == 0 ? 0 : ek == 1 ? (int64_t) s.draw (n + 1) : ek == 2 ? n + (int64_t) s.draw (n + 1) : nz + 4 * n + 10;
    const char *nm = bar ? "AMDBAR" : "AMD"; c.label (nm); c.label (ek == 0 ? "no elbow room" : ek == 1 ? "little elbow room" : "elbow room"); for (auto &r : g) { for (auto j : r) c.mix (j); c.mix (1000000); } c.mix (bar); c.mix (elbow); c.nontrivial = nz >= 4;
    auto told = [&] { std::ostringstream o; o << nm << ", elbow room " << elbow << ", rows" << show (Pres (g.begin (), g.end ()), n); return o.str (); }; c.describe ([&] (std::ostream &o) { o << told (); });
    F r (g, f, elbow, bar, s.draw (1000)); std::vector<int64_t> P = r.P;
    CHECK (is_perm_vec (P, n), "permutation", nm << " did not return a permutation"); CHECK (r.n == n && r.iwlen == r.pf0 - 1 + elbow, "arguments", nm << " changed n or iwlen");
    for (int64_t k = 0; k < n; k++) CHECK (r.elen [P [k]] == k + 1, "inverse", nm << ": row " << P [k] << " is pivot " << k << " but its inverse position is " << r.elen [P [k]] - 1);
    // workspace statistics
    CHECK (r.ncmpa >= 0, "statistics", nm << ": " << r.ncmpa << " compressions"); if (r.ncmpa) c.label ("compressed");
    if (r.ncmpa == 0) { CHECK (r.pfree <= r.iwlen, "statistics", nm << " had no compression with " << r.iwlen << " words but says that " << r.pfree << " were needed"); for (int q = r.pfree; q < r.iwlen; q++) CHECK (r.iw [q] == -1000 - q, "statistics", nm << " needed " << r.pfree << " words but used word " << q + 1); }
    else CHECK (r.pfree > r.iwlen, "statistics", nm << " compressed " << r.ncmpa << " times with " << r.iwlen << " words but says that " << r.pfree << " were needed");
    { int64_t e2 = r.pfree - (r.pf0 - 1); F q (g, f, std::max<int64_t> (e2, 0), bar, 7); CHECK (q.ncmpa == 0, "statistics", nm << " compresses " << q.ncmpa << " times with the " << r.pfree << " words it said it needed"); CHECK (q.P == P, "workspace", nm << " returns another ordering with more workspace"); CHECK (q.pfree == r.pfree, "statistics", nm << " needs " << r.pfree << " words, then " << q.pfree); }
    // assembly tree
    for (int64_t i = 0; i < n; i++)
    {
        int p = -r.pe [i]; CHECK (p >= 0 && p <= n, "tree", nm << ": parent of " << i << " is " << p - 1); CHECK (r.nv [i] >= 0 && r.nv [i] <= n, "tree", nm << ": nv of " << i << " is " << r.nv [i]);
        if (p) CHECK (r.elen [p - 1] > r.elen [i], "tree", nm << ": " << i << " is eliminated after its parent " << p - 1); else CHECK (r.nv [i] > 0, "tree", nm << ": the root " << i << " is not a node");
        if (r.nv [i] == 0) CHECK (r.nv [p - 1] > 0, "tree", nm << ": " << i << " is attached to " << p - 1 << ", which is no node");
    }
    auto cnt = symbolic (g, P); int64_t L = total (cnt);
    // the pivots of one node follow each other; the first one's column has nv entries
    std::vector<int64_t> block (n, 0); for (int64_t i = 0; i < n; i++) block [r.nv [i] ? i : -r.pe [i] - 1]++;
    for (int64_t i = 0; i < n; i++) if (r.nv [i]) { int64_t k0 = r.elen [i] - block [i]; CHECK (k0 >= 0, "tree", nm << ": node " << i << " is pivot " << r.elen [i] - 1 << " with " << block [i] << " rows"); CHECK (cnt [r.elen [i] - 1] + block [i] == r.nv [i] && cnt [k0] + 1 <= r.nv [i], "degree", nm << ": node " << i << " of " << block [i] << " rows has " << cnt [r.elen [i] - 1] << " entries below its block, " << cnt [k0] << " in its first column, and nv says " << r.nv [i]); for (int64_t k = k0; k < r.elen [i]; k++) { int64_t v = P [k]; CHECK (v == i || (r.nv [v] == 0 && -r.pe [v] - 1 == i), "tree", nm << ": row " << v << " stands among the rows of node " << i); } }
    {   // depth-first order of the tree: the same fill-in
        std::vector<std::vector<int64_t>> kids (n); std::vector<int64_t> roots, Q; for (int64_t k = 0; k < n; k++) { int64_t i = P [k]; int p = -r.pe [i]; if (p) kids [p - 1].push_back (i); else roots.push_back (i); }
        // rows attached to a node come right before it
        std::function<void (int64_t)> go = [&] (int64_t i) { for (auto k : kids [i]) if (r.nv [k]) go (k); for (auto k : kids [i]) if (!r.nv [k]) Q.push_back (k); Q.push_back (i); }; for (auto i : roots) go (i);
        CHECK (is_perm_vec (Q, n) && (int64_t) Q.size () == n, "tree", nm << ": the assembly tree does not hold every row once"); int64_t L2 = total (symbolic (g, Q)); CHECK (L2 == L, "tree", nm << ": depth-first order of the assembly tree gives " << L2 << " entries, the ordering itself " << L);
    }
    // the first pivot has minimum degree
    size_t md = n; for (auto &x : g) md = std::min (md, x.size ()); CHECK (g [P [0]].size () == md, "minimum degree", nm << ": the first pivot has degree " << g [P [0]].size () << ", the minimum is " << md);
    bool acyclic; { std::vector<int64_t> up (n); for (int64_t i = 0; i < n; i++) up [i] = i; std::function<int64_t (int64_t)> find = [&] (int64_t x) { while (up [x] != x) x = up [x] = up [up [x]]; return x; }; acyclic = true; for (int64_t i = 0; i < n; i++) for (auto j : g [i]) if (j > i) { int64_t a = find (i), b = find (j); if (a == b) acyclic = false; up [a] = b; } }
    if (acyclic) { c.label ("acyclic"); CHECK (L == nz / 2, "fill-in", nm << ": " << L - nz / 2 << " entries of fill-in on an acyclic graph"); }
    // the same graph in another storage
    if (s.chance (1, 3)) { Form f2 = f; s.shuffle (f2.place); for (auto &x : f2.gap) x = s.draw (3); F q (g, f2, s.draw (2 * n + 1), bar, 99); CHECK (q.P == P, "storage", nm << " returns another ordering when the rows are stored elsewhere"); }
}
Prop pbt::the_prop = {"F01", "a case is an undirected graph (forests, random, bands, grids, cliques, dense rows, twins) stored row by row in random places with gaps, given to AMD or AMDBAR with workspace from the minimum on; non-trivial: at least two edges", 700000, 12000000, run};
