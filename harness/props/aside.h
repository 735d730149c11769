// the rows and columns that the column orderings set aside, from the documented thresholds
#pragma once
#include "col.h"
using namespace pbt;
typedef std::vector<int64_t> V;
static std::string text (const V &v) { std::string t; for (auto x : v) t += std::to_string (x) + " "; return t; }

// what is set aside, from the documented thresholds
struct Aside { V null, dense, empty; int64_t rows = 0; std::vector<char> dead; V deg; };
static double limit (double k, double n, int64_t all) { return k < 0 ? (double) all - 1 : std::max (16.0, k * std::sqrt (n)); }
static Aside aside (const Pat &A, double rowlim, double collim)
{
    Aside r; V deg (A.m, 0); std::vector<char> out (A.n, 0), dead (A.m, 0);
    for (int64_t j = 0; j < A.n; j++) { if (A.col [j].empty ()) { r.empty.push_back (j); out [j] = 1; } else if ((double) A.col [j].size () > std::floor (collim)) { r.dense.push_back (j); out [j] = 1; } else for (auto i : A.col [j]) deg [i]++; }
    for (int64_t i = 0; i < A.m; i++) if (!deg [i] || (double) deg [i] > std::floor (rowlim)) { dead [i] = 1; r.rows++; }
    for (int64_t j = 0; j < A.n; j++) if (!out [j]) { bool live = false; for (auto i : A.col [j]) if (!dead [i]) live = true; if (!live) r.null.push_back (j); }
    r.dead = dead; r.deg = deg; return r;
}
