// SLIP LU support: tracked memory, sessions, generators and exact oracles.
// The library under test is reached through its public headers only.
#pragma once
#include "pbt.h"
#include <gmpxx.h>
#include <unordered_map>
#include <memory>
#include <cmath>
#include <algorithm>
extern "C" {
#include "SLIP_LU.h"
}

typedef std::vector<mpz_class> ZV;
typedef std::vector<mpq_class> QV;

//------------------------------------------------------------------------------
// tracked memory functions handed to SLIP_initialize_expert
//------------------------------------------------------------------------------
namespace mem {
extern std::unordered_map<void *, size_t> live;
extern uint64_t calls;              // allocation requests so far
extern uint64_t fail_at;            // 1-based index of the request to fail (0: none)
extern bool fail_forever;           // and every later one
extern uint64_t failed;             // requests failed
extern uint64_t bad_free;           // frees of unknown blocks
extern std::string bad_what;
extern size_t peak_request;
extern uint64_t requested;           // bytes asked for
extern size_t limit;                // requests beyond this size always fail
void *Malloc (size_t n);
void *Calloc (size_t n, size_t s);
void *Realloc (void *p, size_t n);
void Free (void *p);
void reset ();
void explain ();                    // debugging: MEM_BT=1
void plan (uint64_t at, bool forever);
inline size_t outstanding () { return live.size (); }
size_t size_of (void *p);           // (size_t)-1 if unknown
// memory taken from or given to the system allocator directly, while a library call is watched
extern int inside, own;             // in a library call; in one of these functions or the print hook
extern bool watch; extern uint64_t foreign; extern std::string foreign_what;
void watch_system ();
struct Own { Own () { own++; } ~Own () { own--; } };
}

//------------------------------------------------------------------------------
// sessions
//------------------------------------------------------------------------------
// GMP's default memory functions stay installed in harness code; SUT (...)
// switches to the library's for the duration of one expression.
namespace ses {
extern void *(*g_alloc) (size_t);
extern void *(*g_realloc) (void *, size_t, size_t);
extern void (*g_free) (void *, size_t);
void capture ();
void defaults ();
struct Enter { Enter () { mp_set_memory_functions (g_alloc, g_realloc, g_free); mem::inside++; } ~Enter () { mem::inside--; mp_set_memory_functions (0, 0, 0); } };
}
#define SUT(expr) ([&] { ses::Enter enter_; return (expr); } ())

struct Session          // initialize with the tracked allocator, finalize at the end
{
    bool open = false;
    explicit Session (bool tracked = true);
    void close ();
    ~Session ();
};

// captured print output
namespace out {
extern std::string text;
int Printf (const char *fmt, ...);
void capture ();   // install capture hook
void off ();       // printf_func = NULL
}

const char *info_name (int i);
#define CHECK_OK(info, what) CHECK ((info) == SLIP_OK, "status", what << " returned " << info_name (info) << ", expected SLIP_OK")

// owning handles, freed under the SUT's memory functions
struct Mat
{
    SLIP_matrix *p = nullptr;
    Mat () {}
    explicit Mat (SLIP_matrix *q) : p (q) {}
    Mat (const Mat &) = delete; Mat &operator= (const Mat &) = delete;
    Mat (Mat &&o) : p (o.p) { o.p = nullptr; }
    Mat &operator= (Mat &&o) { if (this != &o) { free (); p = o.p; o.p = nullptr; } return *this; }
    ~Mat () { free (); }
    void free () { if (p) SUT (SLIP_matrix_free (&p, NULL)); p = nullptr; }
    SLIP_matrix *operator-> () const { return p; }
    operator SLIP_matrix * () const { return p; }
};
struct Ana
{
    SLIP_LU_analysis *p = nullptr;
    Ana () {} Ana (const Ana &) = delete; Ana &operator= (const Ana &) = delete;
    ~Ana () { free (); }
    void free () { if (p) SUT (SLIP_LU_analysis_free (&p, NULL)); p = nullptr; }
    SLIP_LU_analysis *operator-> () const { return p; }
    operator SLIP_LU_analysis * () const { return p; }
};
struct Fact
{
    Mat L, U, rhos; int64_t *pinv = nullptr;
    Fact () {} Fact (const Fact &) = delete; Fact &operator= (const Fact &) = delete;
    ~Fact () { free (); }
    void free () { L.free (); U.free (); rhos.free (); if (pinv) { SUT (SLIP_free (pinv)); pinv = nullptr; } }
};
struct Opt
{
    SLIP_options *p = nullptr;
    explicit Opt (bool make = true) { if (make) p = SUT (SLIP_create_default_options ()); }
    Opt (const Opt &) = delete; Opt &operator= (const Opt &) = delete;
    ~Opt () { free (); }
    void free () { if (p) SUT (SLIP_free (p)); p = nullptr; }
    SLIP_options *operator-> () const { return p; }
    operator SLIP_options * () const { return p; }
};

//------------------------------------------------------------------------------
// abstract matrices
//------------------------------------------------------------------------------
template <class T> struct Ent { int64_t i, j; T v; };
// sparse matrix: stored entries, in storage order (column by column for CSC)
template <class T> struct SpM
{
    int64_t m = 0, n = 0;
    std::vector<Ent<T>> e;
    std::vector<std::vector<T>> dense () const
    {
        std::vector<std::vector<T>> d (m, std::vector<T> (n));
        for (auto &x : e) d [x.i] [x.j] = x.v;
        return d;
    }
};
typedef SpM<mpz_class> ZM;
typedef SpM<mpq_class> QM;
typedef std::vector<std::vector<mpz_class>> ZD;
typedef std::vector<std::vector<mpq_class>> QD;

std::string show (const ZM &A);
std::string show (const QM &A);
template <class T> void key_of (pbt::Ctx &c, const SpM<T> &A)
{
    c.mix ((uint64_t) A.m); c.mix ((uint64_t) A.n);
    for (auto &x : A.e) { c.mix ((uint64_t) x.i); c.mix ((uint64_t) x.j); c.mix (x.v.get_str (62)); }
}

//------------------------------------------------------------------------------
// generators
//------------------------------------------------------------------------------
namespace gen {
struct IntKind { int k; };
mpz_class integer (pbt::Src &s, int kind, bool nonzero = false); // kind 0..6
int int_kind (pbt::Src &s);                 // how large entries of one matrix are
mpz_class bits (pbt::Src &s, int nbits);    // uniform below 2^nbits
mpq_class rational (pbt::Src &s, int kind, bool nonzero = false);
// square integer matrix, columns in order, rows of a column in random order
struct SqOpt { int64_t maxn = 24; int64_t minn = 1; bool explicit_zeros = true; int64_t big_maxn = 0; int64_t huge_maxn = 0; int huge_one_in = 300; };  // huge: very sparse families only
ZM square (pbt::Src &s, pbt::Ctx &c, const SqOpt &o);
// square matrix biased to be nonsingular
ZM nonsing (pbt::Src &s, pbt::Ctx &c, const SqOpt &o);
// how many right-hand sides: lo..hi, now and then many
inline int64_t nrhs (pbt::Src &s, int64_t lo, int64_t hi, int64_t n, int one_in = 60) { int64_t k = s.range (lo, hi); return n <= 12 && s.chance (1, one_in) ? s.range (hi, 80) : k; }
// dense right-hand sides, m-by-k
ZD rhs (pbt::Src &s, int64_t m, int64_t k, int kind);
mpq_class scale (pbt::Src &s);              // 1 often, else a nonzero rational
void options (pbt::Src &s, SLIP_options *o); // pivot, order, tol
std::string show (const SLIP_options *o);
}

//------------------------------------------------------------------------------
// building and reading matrices of the library
//------------------------------------------------------------------------------
Mat mk_csc (const ZM &A, const mpq_class &scale, int64_t extra = 0);
Mat mk_dense (const ZD &B, int64_t m, int64_t n, const mpq_class &scale);
mpq_class rd (const mpq_t q);
mpz_class rd (const mpz_t z);
mpq_class rd_mpfr (const mpfr_t f);         // exact value of a finite mpfr
std::string snap (const SLIP_matrix *A);    // full byte-exact state, for "unchanged"
std::string snap (const SLIP_LU_analysis *S, int64_t n);
std::string snap (const SLIP_options *o);
void canonical (const mpq_t q, const char *what);  // lowest terms, positive denominator

//------------------------------------------------------------------------------
// exact oracles
//------------------------------------------------------------------------------
mpz_class det_bareiss (ZD a);               // determinant
int64_t rank_of (const ZD &a, int64_t m, int64_t n);
// x (dense MPQ n-by-k) satisfies (A/sa) x = b/sb
void check_solution (const ZM &A, const mpq_class &sa, const ZD &b, const mpq_class &sb, int64_t k, const SLIP_matrix *X, const char *tag);
QD solve_exact (const ZM &A, const mpq_class &sa, const ZD &b, const mpq_class &sb, int64_t k);
// correctly rounded value of v to prec bits (mode RNDN,Z,U,D,A)
mpq_class round_to (const mpq_class &v, int64_t prec, mpfr_rnd_t rnd);
