// T01: the ordering packages and the support library keep no state between calls or threads
#include "fortran.h"
#include "col.h"
#include <pthread.h>
#include <memory>
using namespace pbt;
extern "C" const char *__tsan_default_options () { return "halt_on_error=1:exitcode=99:report_signal_unsafe=0:handle_abort=1:history_size=4"; }

static std::string bytes (const void *p, size_t n) { return std::string ((const char *) p, n); }
template <class T> static std::string arr (const Arr<T> &a) { return bytes (a.p, a.n * sizeof (T)); }
// what the tasks read: one matrix in both widths, settings; never written by anybody
struct Input
{
    Pat A; Adj g; Pres p; bool jumb; Csc<int> ci; Csc<SLong> cl; double C [AMD_CONTROL]; Knobs k; Form f; int64_t elbow; uint64_t junk;
    Input (Src &s, Ctx &c, int64_t n) : g (gen::graph (s, c, n, s.chance (1, 6))), p (gen::present (s, A = gen::pattern_of (s, g), s.pick ({4, 1, 1, 1}))), jumb (jumbled (p)), ci (p), cl (p), k (s)
    {
        for (auto &x : C) x = 0; amd_defaults (C); if (s.chance (1, 3)) C [AMD_DENSE] = s.oneof<double> ({-1, 0, 1, 3}); if (s.chance (1, 3)) C [AMD_AGGRESSIVE] = 0;
        f.place.resize (n); f.gap.assign (n, 0); for (int64_t i = 0; i < n; i++) f.place [i] = i; elbow = s.flip () ? 0 : (int64_t) s.draw (2 * n + 1); junk = s.draw (1000);
        key_of_pat (c, A); c.mix (elbow);
    }
};
template <class T> static const Csc<T> &csc (const Input &x);
template <> const Csc<int> &csc<int> (const Input &x) { return x.ci; }
template <> const Csc<SLong> &csc<SLong> (const Input &x) { return x.cl; }

template <class T> static std::string amd (const Input &x, bool info, bool control)
{
    const Csc<T> &m = csc<T> (x); int64_t n = x.A.n; Arr<T> P (n); double I [AMD_INFO] = {0}; for (int64_t i = 0; i < n; i++) P [i] = -1;
    int r = Amd<T>::order ((T) n, m.p.p, m.i.p, P.p, control ? (double *) x.C : NULL, info ? I : NULL); return std::to_string (r) + arr (P) + bytes (I, sizeof I);
}
template <class T> static std::string direct (const Input &x) { int64_t n = x.A.n; Direct<T> d (x.g, n + x.elbow, {}, (double *) x.C); return arr (d.Pe) + arr (d.Nv) + arr (d.Last) + arr (d.Next) + arr (d.Elen) + bytes (d.info + AMD_NCMPA, 8); }
template <class T> static std::string colamd_ (const Input &x) { ColRun<T> r (x.p, x.A.m, need_of (csc<T> (x).i.n, x.A.m, x.A.n) + x.elbow, x.k.null ? NULL : (double *) x.k.k); return std::to_string (r.ret) + bytes (r.perm.data (), r.perm.size () * 8) + bytes (r.st, sizeof r.st); }
template <class T> static std::string symamd_ (const Input &x)
{
    const Csc<T> &m = csc<T> (x); int64_t n = x.A.n; Arr<T> P (n + 1); T st [COLAMD_STATS] = {0}; for (auto &v : st) v = 0; for (int64_t i = 0; i <= n; i++) P [i] = -1;
    int r = Col<T>::sym ((T) n, m.i.p, m.p.p, P.p, x.k.null ? NULL : (double *) x.k.k, st, calloc, free); P [n] = 0; return std::to_string (r) + arr (P) + bytes (st, sizeof st);
}
template <class T> static std::string broken (const Input &x)    // a refused call
{
    int64_t n = x.A.n; Arr<T> p (n + 1), A (1), P (n + 1); for (int64_t i = 0; i <= n; i++) p [i] = 0; p [n] = -1; T st [COLAMD_STATS]; for (auto &v : st) v = 0; double I [AMD_INFO] = {0};
    int r = Col<T>::col ((T) n, (T) n, 1, A.p, p.p, NULL, st); int q = Amd<T>::order ((T) n, p.p, A.p, P.p, NULL, I); return std::to_string (r) + "," + std::to_string (q) + bytes (st, sizeof st) + bytes (I, sizeof I);
}
static std::string fortran (const Input &x, bool bar) { F r (x.g, x.f, x.elbow, bar, x.junk); return bytes (r.P.data (), r.P.size () * 8) + arr (r.pe) + arr (r.nv) + arr (r.elen) + std::to_string (r.ncmpa) + " " + std::to_string (r.pfree); }
static std::string support (const Input &x)
{
    std::string t; int ok = 0; size_t n = x.A.n; unsigned char *p = (unsigned char *) SuiteSparse_malloc (n, 3), *q = (unsigned char *) SuiteSparse_calloc (n, 5);
    for (size_t i = 0; i < 3 * n; i++) p [i] = (unsigned char) (x.junk + i); for (size_t i = 0; i < 5 * n; i++) if (q [i]) t += "not zero";
    p = (unsigned char *) SuiteSparse_realloc (2 * n, n, 3, p, &ok); t += std::to_string (ok); for (size_t i = 0; i < 3 * n; i++) if (p [i] != (unsigned char) (x.junk + i)) t += "lost";
    SuiteSparse_free (p); SuiteSparse_free (q); double a, b, h = SuiteSparse_hypot ((double) n, (double) x.junk); int z = SuiteSparse_divcomplex ((double) n, 1, (double) x.junk, (double) x.elbow + 1, &a, &b);
    t += bytes (&h, 8) + bytes (&a, 8) + bytes (&b, 8) + std::to_string (z); int v [3]; t += std::to_string (SuiteSparse_version (v)); double K [COLAMD_KNOBS], L [COLAMD_KNOBS], M [AMD_CONTROL], N [AMD_CONTROL];
    for (auto &e : M) e = 0; for (auto &e : N) e = 0; colamd_set_defaults (K); colamd_l_set_defaults (L); amd_defaults (M); amd_l_defaults (N); t += bytes (K, sizeof K) + bytes (L, sizeof L) + bytes (M, sizeof M) + bytes (N, sizeof N);
    t += std::to_string (colamd_recommended ((int) n, (int) n, 3)) + std::to_string (colamd_l_recommended (n, 2, n)); t += std::to_string (Amd<int>::valid ((int) n, (int) n, x.ci.p.p, x.ci.i.p)) + std::to_string (Amd<SLong>::valid (n, n, x.cl.p.p, x.cl.i.p)); return t;
}
static const char *names [] = {"amd", "amd (64-bit)", "colamd", "colamd (64-bit)", "symamd", "symamd (64-bit)", "AMD (Fortran)", "AMDBAR (Fortran)", "amd_2", "amd_2 (64-bit)", "refused calls", "refused calls (64-bit)", "support functions"};
struct Task { const Input *x; int kind; bool a, b; };
static std::string work (const Task &t)
{
    switch (t.kind)
    {
        case 0: return amd<int> (*t.x, t.a, t.b); case 1: return amd<SLong> (*t.x, t.a, t.b); case 2: return colamd_<int> (*t.x); case 3: return colamd_<SLong> (*t.x); case 4: return symamd_<int> (*t.x); case 5: return symamd_<SLong> (*t.x);
        case 6: return fortran (*t.x, false); case 7: return fortran (*t.x, true); case 8: return direct<int> (*t.x); case 9: return direct<SLong> (*t.x); case 10: return broken<int> (*t.x); case 11: return broken<SLong> (*t.x); default: return support (*t.x);
    }
}
struct Lane { std::vector<std::pair<int, std::string>> out; std::vector<int> todo; const std::vector<Task> *tasks; pthread_barrier_t *bar; };
static void *lane (void *v) { Lane *l = (Lane *) v; pthread_barrier_wait (l->bar); for (int t : l->todo) l->out.push_back ({t, work ((*l->tasks) [t])}); return NULL; }

static void run (Src &s, Ctx &c)
{
    int64_t mx = s.pick ({6, 3, 1}) == 0 ? 12 : s.chance (1, 6) ? (c.thorough ? 250 : 120) : 40; std::vector<std::unique_ptr<Input>> in; int ni = (int) s.range (1, 4), nt = (int) s.range (2, 8);
    while (ni--) in.emplace_back (new Input (s, c, s.size (1, mx)));
    std::vector<Task> T; std::vector<std::string> alone; int focus = s.chance (1, 3) ? (int) s.draw (13) : -1;
    for (int t = 0; t < nt; t++) { T.push_back ({in [s.draw (in.size ())].get (), focus >= 0 && s.flip () ? focus : (int) s.draw (13), !s.chance (1, 5), !s.chance (1, 5)}); c.label (names [T [t].kind]); c.mix (T [t].kind); }
    c.describe ([&] (std::ostream &o) { for (auto &t : T) o << names [t.kind] << " of " << show (t.x->p, t.x->A.m).substr (0, 250) << "\n"; });
    for (auto &t : T) alone.push_back (work (t));
    auto same = [&] (int t, const std::string &r, const char *when) { CHECK (r == alone [t], "state", names [T [t].kind] << " gives another result " << when << " than when called before"); };
    // in another order, one after the other
    for (int64_t t : s.perm (nt)) same ((int) t, work (T [t]), "after other calls");
    // at the same time
    int nl = (int) s.range (2, 5), rep = (int) s.range (1, 2); pthread_barrier_t bar; pthread_barrier_init (&bar, NULL, nl); std::vector<Lane> L (nl); std::vector<pthread_t> th (nl);
    for (auto &l : L) { l.tasks = &T; l.bar = &bar; int k = (int) s.range (1, 4); while (k--) for (int r = 0; r < rep; r++) l.todo.push_back ((int) s.draw (nt)); }
    int made = 0; for (int q = 0; q < nl; q++) made += pthread_create (&th [q], NULL, lane, &L [q]) == 0;
    if (made < nl) { fprintf (stderr, "no threads\n"); abort (); }
    for (auto &t : th) pthread_join (t, NULL);
    pthread_barrier_destroy (&bar); std::set<int> kinds; size_t calls = 0;
    for (auto &l : L) for (auto &r : l.out) { same (r.first, r.second, "while other threads work"); kinds.insert (T [r.first].kind); calls++; }
    for (int t = 0; t < nt; t++) if (s.chance (1, 4)) same (t, work (T [t]), "after the threads have ended");
    c.nontrivial = calls >= 3; c.label (nl == 2 ? "2 threads" : "3 to 5 threads"); if (kinds.size () < calls) c.label ("the same function in several calls"); pbt::count ("concurrent calls", calls);
}
Prop pbt::the_prop = {"T01", "a case is 2..8 ordering or support-library calls over 1..4 shared generated inputs, made in one order, in another order, and by 2..5 threads at once under a data-race detector; every result must be the first one; non-trivial: at least three concurrent calls", 40000, 600000, run};
