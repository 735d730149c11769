// C04: every pivot column has least approximate external degree
#include "aside.h"

// the quotient structure of the paper on sets: rows of supercolumns, pivot rows, approximate degrees
struct Model
{
    int64_t n, k = 0; bool aggressive; std::vector<std::set<int64_t>> row; std::vector<V> col, member; V score, rep; std::set<int64_t> live;
    Model (const Pat &A, const Aside &a, bool ag) : n (A.n), aggressive (ag), row (A.m), col (A.n), member (A.n), score (A.n), rep (A.n, -1)
    {
        std::vector<char> out (n, 0); for (auto *v : {&a.null, &a.dense, &a.empty}) for (auto j : *v) out [j] = 1;
        for (int64_t j = 0; j < n; j++) if (!out [j]) { live.insert (j); rep [j] = j; member [j] = {j}; for (auto i : A.col [j]) if (!a.dead [i]) { col [j].push_back (i); score [j] += a.deg [i] - 1; row [i].insert (j); } score [j] = std::min (score [j], n); }
    }
    int64_t thick (int64_t j) { return member [j].size (); }
    int64_t least () { int64_t b = n + 1; for (auto j : live) b = std::min (b, score [j]); return b; }
    // the columns of these supercolumns come next, each supercolumn in one piece
    void next (const V &p, std::set<int64_t> group, const char *what)
    {
        while (!group.empty ())
        {
            int64_t r = rep [p [k]]; CHECK (group.count (r), "order", "position " << k << " has column " << p [k] << " where " << what << " must follow"); std::set<int64_t> want (member [r].begin (), member [r].end ()), got (p.begin () + k, p.begin () + std::min<int64_t> (k + thick (r), n));
            CHECK (want == got, "order", "the " << thick (r) << " columns identical to column " << p [k] << " are not together at position " << k); k += thick (r); group.erase (r);
        }
    }
    // one elimination: returns how many rows it merged
    void pivot (const V &p, Ctx &c)
    {
        int64_t x = rep [p [k]]; CHECK (x >= 0 && live.count (x), "order", "position " << k << " has column " << p [k] << ", which is set aside or eliminated"); CHECK (score [x] == least (), "degree", "column " << p [k] << " at position " << k << " has approximate degree " << score [x] << ", the least is " << least ());
        next (p, {x}, "the pivot"); live.erase (x); if (thick (x) > 1) c.label ("supercolumn");
        std::set<int64_t> R; for (auto i : col [x]) { R.insert (row [i].begin (), row [i].end ()); } R.erase (x); V dead = col [x]; std::set<int64_t> gone (dead.begin (), dead.end ());
        std::set<int64_t> touched; for (auto j : R) for (auto i : col [j]) if (!gone.count (i)) touched.insert (i);
        std::map<int64_t, int64_t> diff; for (auto i : touched) { int64_t d = 0; for (auto j : row [i]) if (!R.count (j)) d += thick (j); diff [i] = d; if (!d && aggressive) { gone.insert (i); c.label ("row absorbed"); } }
        std::set<int64_t> mass; V rest;
        for (auto j : R) { V q; int64_t sc = 0; for (auto i : col [j]) if (!gone.count (i)) { q.push_back (i); sc = std::min (sc + diff [i], n); } col [j] = q; score [j] = sc; if (q.empty ()) mass.insert (j); else rest.push_back (j); }
        if (!mass.empty ()) c.label ("mass elimination"); next (p, mass, "a column eliminated along with the last one"); for (auto j : mass) live.erase (j);
        for (auto i : gone) row [i].clear (); int64_t deg = 0; for (auto j : rest) deg += thick (j);
        // identical columns become one
        std::map<V, int64_t> first; V kept; for (auto j : rest) { V key = col [j]; std::sort (key.begin (), key.end ()); auto it = first.find (key); if (it == first.end ()) { first [key] = j; kept.push_back (j); continue; } int64_t f = it->second; for (auto m : member [j]) { member [f].push_back (m); rep [m] = f; } member [j].clear (); live.erase (j); for (auto i : col [j]) row [i].erase (j); }
        if (kept.empty ()) return; int64_t r = (int64_t) row.size (); row.push_back (std::set<int64_t> (kept.begin (), kept.end ()));
        for (auto j : kept) { col [j].push_back (r); score [j] = std::min (score [j] + deg - thick (j), n - k - thick (j)); }
    }
};
template <class T> static V order (const Pres &p, int64_t m, int64_t room, double *k, T *st) { ColRun<T> r (p, m, room, k); CHECK (r.ret == 1, "status", "colamd returned " << r.ret << " with status " << r.st [3]); CHECK (is_perm_vec (r.perm, p.size ()), "perm", "colamd did not return a permutation"); for (int i = 0; i < COLAMD_STATS; i++) st [i] = r.st [i]; return r.perm; }
template <class T> static void one (Src &s, Ctx &c, const Pat &A, Knobs &k)
{
    int64_t room = need_of (A.nnz (), A.m, A.n); switch (s.draw (3)) { case 0: break; case 1: room += A.nnz () / 5; break; default: room += s.size (0, 400); }
    Pres p = gen::present (s, A, s.chance (1, 4) ? s.pick ({0, 1, 1, 1}) : 0); size_t nz = 0; for (auto &x : p) nz += x.size (); room += 2 * (nz - A.nnz ()); T st [COLAMD_STATS]; V P = order<T> (p, A.m, room, k.get (), st);
    Aside a = aside (A, limit (k.k [0], A.n, A.n), limit (k.k [1], std::min (A.m, A.n), A.m)); int64_t n2 = A.n - (int64_t) (a.null.size () + a.dense.size () + a.empty.size ());
    Model M (A, a, k.null || k.k [2] != 0); int64_t steps = 0; while (M.k < n2) { M.pivot (P, c); steps++; } CHECK (M.k == n2, "order", "columns set aside are ordered early"); if (st [COLAMD_DEFRAG_COUNT]) c.label ("garbage collected"); c.nontrivial = steps >= 3;
}
static void run (Src &s, Ctx &c)
{
    Tracked tr; int64_t mx = s.pick ({4, 4, 1}) == 0 ? 14 : s.chance (1, 4) ? (c.thorough ? 200 : 90) : 40; Pat A;
    if (s.chance (2, 3)) { int64_t m = s.size (0, mx), n = s.size (0, mx); A = gen::rectangular (s, c, m, n); }
    else { int64_t n = s.size (0, mx); Adj g = gen::graph (s, c, n, s.chance (1, 3)); if (s.flip ()) A = gen::pattern_of (s, g); else { int64_t E = 0; A.n = n; A.col.resize (n); for (int64_t j = 0; j < n; j++) for (auto i : g [j]) if (i > j) { A.col [i].push_back (E); A.col [j].push_back (E); E++; } A.m = E; c.label ("edges"); } }
    key_of_pat (c, A); Knobs k (s); if (!k.null && s.flip ()) k.k [2] = s.flip (); c.mix (k.k [2] * 100); c.describe ([&] (std::ostream &o) { o << show (A.col, A.m) << "\n" << k.show (); });
    if (s.flip ()) one<int> (s, c, A, k); else one<SLong> (s, c, A, k);
}
Prop pbt::the_prop = {"C04", "a case is a rectangular pattern (also graphs and their edge matrices) in a generated presentation ordered with generated knobs and room, and the ordering replayed step by step on an independent set-based model of the approximate degrees; non-trivial: at least three pivots", 750000, 5000000, run};
