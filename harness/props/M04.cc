// M04: matrix objects own their storage: allocation, counting and freeing
#include "shallow.h"
#include "lu.h"
using namespace pbt;

struct Obj
{
    SLIP_matrix *h = NULL;         // the caller's handle
    int kind, type; int64_t m, n, cap; bool init, usable;
    bool px = false, ix = false, jx = false, xx = false;   // shallow components
    std::string snapshot;
    std::vector<int> users;        // objects borrowing from this one
    std::vector<int> lenders;
};

static bool live (const void *p) { return mem::size_of ((void *) p) != (size_t) -1; }

// the documented accessors address entry (i,j) by columns and entry k in order; the arguments may be expressions
static void accessors (Src &s, SLIP_matrix *h, int64_t cap)
{
    int64_t k = s.draw (cap), k1 = s.draw (k + 1), k2 = k - k1; size_t es = 0; void *p = NULL, *q = NULL; SLIP_matrix *two [2] = {h, h};
    int64_t i = h->m ? s.draw (h->m) : 0, j = h->n ? s.draw (h->n) : 0, i1 = s.draw (i + 1), i2 = i - i1, j1 = s.draw (j + 1), j2 = j - j1; bool dense = h->kind == SLIP_DENSE && h->m && h->n;
#define ACC(T, f) if (h->type == T) { es = sizeof h->x.f [0]; p = (void *) &SLIP_1D (*two + k1 * 0, k1 + k2, f); if (dense) q = (void *) &SLIP_2D (two [k2 > 0], i1 + i2, j1 + j2, f); }
    ACC (SLIP_MPZ, mpz) ACC (SLIP_MPQ, mpq) ACC (SLIP_MPFR, mpfr) ACC (SLIP_INT64, int64) ACC (SLIP_FP64, fp64)
    CHECK (p == (char *) h->x.mpz + es * k, "accessor", "SLIP_1D does not address entry " << k);
    if (dense) CHECK (q == (char *) h->x.mpz + es * (i + j * h->m), "accessor", "SLIP_2D does not address entry (" << i << ", " << j << ")");
}

static void run (Src &s, Ctx &c)
{
    Session ses;
    { Mat warm; SUT (SLIP_matrix_allocate (&warm.p, SLIP_DENSE, SLIP_MPQ, 1, 1, 1, false, true, NULL)); }   // the session's own blocks exist now
    std::vector<Obj> O; std::vector<std::string> log;
    int len = (int) s.range (1, 14); int nalloc = 0;
    struct Tell { Ctx &c; std::vector<std::string> &l; ~Tell () { c.describe ([&] (std::ostream &t) { for (auto &x : l) t << x << "; "; }); } } tell {c, log};
    auto note = [&] (const std::string &t) { log.push_back (t); };
    auto fill = [&] (Obj &o)
    {   // a valid random pattern and values within the capacity
        if (!o.h || !o.init) return;
        auto pos = fmt::positions (s, o.m, o.n, o.kind); int64_t nz = 0;
        if (o.kind != SLIP_DENSE) { if ((int64_t) pos.size () > o.cap) pos.resize (o.cap); nz = pos.size (); }
        else nz = o.m * o.n;
        if (o.kind == SLIP_CSC)
        {
            std::vector<int64_t> cnt (o.n + 1, 0); for (auto &q : pos) cnt [q.second + 1]++;
            for (int64_t j = 0; j < o.n; j++) cnt [j + 1] += cnt [j];
            for (int64_t j = 0; j <= o.n; j++) o.h->p [j] = cnt [j];
            for (size_t k = 0; k < pos.size (); k++) o.h->i [k] = pos [k].first;
        }
        if (o.kind == SLIP_TRIPLET) { for (size_t k = 0; k < pos.size (); k++) { o.h->i [k] = pos [k].first; o.h->j [k] = pos [k].second; } o.h->nz = nz; }
        int ik = gen::int_kind (s); if (o.type >= SLIP_MPFR) ik = 0;
        for (int64_t k = 0; k < nz; k++) fmt::put (o.h, k, mpq_class (gen::integer (s, ik)), 1);
    };
    auto others = [&] (const char *w, int but)
    {
        for (int k = 0; k < (int) O.size (); k++) if (k != but && O [k].h && O [k].usable) CHECK (snap (O [k].h) == O [k].snapshot, "modified", w << " changed object " << k);
    };
    auto count_check = [&] (Obj &o)
    {
        int64_t want = o.kind == SLIP_CSC ? o.h->p ? o.h->p [o.n] : -1 : o.kind == SLIP_TRIPLET ? o.h->nz : o.m * o.n;
        int64_t got = SUT (SLIP_matrix_nnz (o.h, NULL));
        CHECK (got == want, "count", "SLIP_matrix_nnz is " << got << ", expected " << want);
    };
    for (int t = 0; t < len; t++)
    {
        int op = s.pick ({5, 3, 2, 2, 4, 1, 1, 1});
        std::vector<int> own; for (int k = 0; k < (int) O.size (); k++) if (O [k].h) own.push_back (k);
        if (own.empty () && op != 5 && op != 6 && op != 7) op = 0;
        if (op == 0)
        {   // allocate
            Obj o; o.kind = (int) s.draw (3); o.type = (int) s.draw (5); fmt::dims (s, 9, o.m, o.n, 40);
            int64_t nzmax = s.pick ({6, 1, 1}) == 0 ? s.range (0, 60) : s.oneof<int64_t> ({0, -1, -5, INT64_MIN, 1});
            bool sh = s.chance (1, 4); o.init = !s.chance (1, 4);
            bool np = s.flip (); Opt opt (np); if (np) { opt->prec = (int) s.range (2, 300); opt->print_level = 0; }
            std::set<void *> before; for (auto &x : mem::live) before.insert (x.first);
            SLIP_matrix *h = (SLIP_matrix *) 0x10;
            int r = SUT (SLIP_matrix_allocate (&h, (SLIP_kind) o.kind, (SLIP_type) o.type, o.m, o.n, nzmax, sh, o.init, opt));
            note ("allocate " + std::string (fmt::kname [o.kind]) + " " + fmt::tname [o.type] + " " + std::to_string (o.m) + "x" + std::to_string (o.n) + " cap " + std::to_string (nzmax) + (sh ? " shallow" : "") + (o.init ? "" : " noinit"));
            CHECK_OK (r, "SLIP_matrix_allocate");
            o.cap = std::max<int64_t> (1, o.kind == SLIP_DENSE ? o.m * o.n : nzmax);
            CHECK (h && h->m == o.m && h->n == o.n && h->kind == o.kind && h->type == o.type, "fields", "wrong dimensions, kind or type");
            CHECK (h->nzmax >= o.cap, "fields", "capacity " << h->nzmax << " below " << o.cap);
            CHECK (h->nz == 0, "fields", "nz is " << h->nz);
            CHECK (mpq_cmp_ui (h->scale, 1, 1) == 0, "fields", "scale is not one");
            CHECK (h->p_shallow == sh && h->i_shallow == sh && h->j_shallow == sh && h->x_shallow == sh, "fields", "shallow flags");
            o.cap = h->nzmax;
            static const size_t es [] = {sizeof (mpz_t), sizeof (mpq_t), sizeof (mpfr_t), 8, 8};
            if (sh)
            {
                CHECK (!h->p && !h->i && !h->j && !h->x.mpz, "fields", "a shallow matrix has storage");
                o.px = o.ix = o.jx = o.xx = true;
            }
            else
            {
                CHECK ((h->p != NULL) == (o.kind == SLIP_CSC), "fields", "column pointers present or missing");
                CHECK ((h->i != NULL) == (o.kind != SLIP_DENSE), "fields", "row indices present or missing");
                CHECK ((h->j != NULL) == (o.kind == SLIP_TRIPLET), "fields", "column indices present or missing");
                CHECK (h->x.mpz != NULL, "fields", "no values");
                if (h->p) { CHECK (live (h->p) && mem::size_of (h->p) >= 8 * (size_t) (o.n + 1), "fields", "column pointers too small"); for (int64_t j = 0; j <= o.n; j++) CHECK (h->p [j] == 0, "zero", "p[" << j << "] is " << h->p [j]); }
                if (h->i) { CHECK (live (h->i) && mem::size_of (h->i) >= 8 * (size_t) o.cap, "fields", "row indices too small"); for (int64_t k = 0; k < o.cap; k++) CHECK (h->i [k] == 0, "zero", "i[" << k << "] is " << h->i [k]); }
                if (h->j) { CHECK (live (h->j) && mem::size_of (h->j) >= 8 * (size_t) o.cap, "fields", "column indices too small"); for (int64_t k = 0; k < o.cap; k++) CHECK (h->j [k] == 0, "zero", "j[" << k << "] is " << h->j [k]); }
                CHECK (live (h->x.mpz) && mem::size_of (h->x.mpz) >= es [o.type] * (size_t) o.cap, "fields", "value array too small");
                accessors (s, h, o.cap);
                if (!o.init) { if (o.type >= SLIP_INT64) o.init = true; else { const char *b = (const char *) h->x.mpz; for (size_t k = 0; k < es [o.type] * (size_t) o.cap; k++) CHECK (b [k] == 0, "zero", "uninitialized values are not zero bytes"); } }
                if (o.init) for (int64_t k = 0; k < o.cap; k++)
                {
                    mpq_class v = fmt::get (h, k, "zero"); CHECK (v == 0, "zero", "value " << k << " is " << v);
                    if (o.type == SLIP_MPFR) CHECK (mpfr_get_prec (h->x.mpfr [k]) == (opt.p ? opt->prec : 128), "fields", "precision of value " << k << " is " << mpfr_get_prec (h->x.mpfr [k]));
                }
            }
            o.h = h; o.usable = !sh; nalloc++;
            O.push_back (std::move (o)); Obj &q = O.back ();
            if (!sh) { if (s.flip ()) fill (q); q.snapshot = q.init ? snap (q.h) : ""; q.usable = q.init; count_check (q); }
            else { q.usable = false; int64_t g = SUT (SLIP_matrix_nnz (q.h, NULL)); CHECK (g == (q.kind == SLIP_CSC ? -1 : q.kind == SLIP_TRIPLET ? 0 : q.m * q.n), "count", "entry count of an empty shallow matrix is " << g); }
            if (!q.init && !sh && s.flip ())
            {   // the caller initializes some of the values
                int64_t k = s.range (0, q.cap);
                for (int64_t v = 0; v < k; v++) { int64_t w = s.draw (q.cap); if (q.type == SLIP_MPZ) { if (!q.h->x.mpz [w]->_mp_d) SUT ((mpz_init_set_si (q.h->x.mpz [w], 12345), 0)); } else if (q.type == SLIP_MPQ) { if (!mpq_numref (q.h->x.mpq [w])->_mp_d) SUT ((mpq_init (q.h->x.mpq [w]), 0)); } else if (!q.h->x.mpfr [w]->_mpfr_d) SUT ((mpfr_init2 (q.h->x.mpfr [w], 70), 0)); }
                note ("  initialize some values");
            }
            others ("allocate", (int) O.size () - 1);
        }
        else if (op == 1)
        {   // fill
            int k = own [s.draw (own.size ())]; Obj &o = O [k];
            if (o.px || o.ix || o.jx || o.xx || !o.users.empty () || !o.init) continue;
            fill (o); o.snapshot = snap (o.h); o.usable = true; count_check (o); note ("fill " + std::to_string (k));
            others ("filling", k);
        }
        else if (op == 2)
        {   // a shallow object sharing all or some of the arrays of another
            int k = own [s.draw (own.size ())]; Obj &l = O [k];
            if (!l.usable || l.xx || l.kind == SLIP_DENSE && l.m * l.n == 0) continue;
            Obj o; o.kind = l.kind; o.type = l.type; o.m = l.m; o.n = l.n; o.cap = l.cap; o.init = true; o.usable = true;
            CHECK_OK (SUT (SLIP_matrix_allocate (&o.h, (SLIP_kind) o.kind, (SLIP_type) o.type, o.m, o.n, o.cap, true, s.flip (), NULL)), "SLIP_matrix_allocate");
            o.h->nz = l.h->nz; o.h->x = l.h->x; o.xx = true; o.px = o.ix = o.jx = true;
            auto own_copy = [&] (int64_t *src, int64_t cnt) { int64_t *d = (int64_t *) SUT (SLIP_malloc (cnt * 8)); memcpy (d, src, cnt * 8); return d; };
            if (l.h->p) { if (s.chance (1, 3)) { o.h->p = own_copy (l.h->p, l.n + 1); o.h->p_shallow = o.px = false; } else o.h->p = l.h->p; }
            if (l.h->i) { if (s.chance (1, 3)) { o.h->i = own_copy (l.h->i, l.cap); o.h->i_shallow = o.ix = false; } else o.h->i = l.h->i; }
            if (l.h->j) { if (s.chance (1, 3)) { o.h->j = own_copy (l.h->j, l.cap); o.h->j_shallow = o.jx = false; } else o.h->j = l.h->j; }
            SUT ((mpq_set (o.h->scale, l.h->scale), 0));
            o.snapshot = snap (o.h); o.lenders.push_back (k); O.push_back (o); O [k].users.push_back ((int) O.size () - 1); nalloc++;
            count_check (O.back ()); note ("share from " + std::to_string (k)); c.label ("shared arrays");
        }
        else if (op == 3)
        {   // count, also with an invalid header
            int k = own [s.draw (own.size ())]; Obj &o = O [k];
            if (o.usable) count_check (o);
            SLIP_matrix sv = *o.h;
            int d = (int) s.draw (4); int64_t want = 0; bool test = true;
            if (d == 0) { o.h->kind = (SLIP_kind) s.oneof<int> ({3, -1, 99}); want = -1; }
            else if (d == 1) { if (o.kind == SLIP_TRIPLET) test = false; o.h->n = -s.range (1, 5); want = -1; }
            else if (d == 2) { if (o.kind != SLIP_DENSE) test = false; o.h->m = -s.range (1, 5); want = -1; }
            else { if (o.kind != SLIP_CSC) test = false; o.h->p = NULL; want = -1; }
            int64_t got = test ? SUT (SLIP_matrix_nnz (o.h, NULL)) : -1;
            *o.h = sv;
            CHECK (got == want, "count", "entry count of an invalid header (defect " << d << ") is " << got);
            CHECK (SUT (SLIP_matrix_nnz (NULL, NULL)) == -1, "count", "entry count of a null matrix");
            note ("count " + std::to_string (k));
        }
        else if (op == 4)
        {   // free: not while borrowed from, unless the borrowers are never used again
            int k = own [s.draw (own.size ())]; Obj &o = O [k];
            bool borrowed = false; for (int u : o.users) if (O [u].h) borrowed = true;
            if (borrowed) { if (!s.chance (1, 3)) continue; for (int u : o.users) O [u].usable = false; }
            std::vector<void *> mine, keep; SLIP_matrix *h = o.h; mine.push_back (h);
            auto put = [&] (void *p, bool shallow) { if (p) (shallow ? keep : mine).push_back (p); };
            put (h->p, o.px); put (h->i, o.ix); put (h->j, o.jx); put (h->x.mpz, o.xx);
            std::vector<bool> was; for (auto p : keep) was.push_back (live (p));
            uint64_t bad = mem::bad_free;
            int r = SUT (SLIP_matrix_free (&o.h, NULL));
            note ("free " + std::to_string (k));
            CHECK_OK (r, "SLIP_matrix_free");
            CHECK (o.h == NULL, "handle", "the handle was not cleared");
            CHECK (mem::bad_free == bad, "memory", mem::bad_what);
            for (auto p : mine) CHECK (!live (p), "owned", "freeing did not release a component");
            for (size_t q = 0; q < keep.size (); q++) CHECK (live (keep [q]) == was [q], "shallow", "freeing released a caller-owned array");
            others ("free", k);
            if (s.flip ()) { CHECK_OK (SUT (SLIP_matrix_free (&o.h, NULL)), "SLIP_matrix_free of a freed handle"); CHECK (o.h == NULL, "handle", "null handle changed"); }
        }
        else if (op == 5)
        {
            CHECK_OK (SUT (SLIP_matrix_free (NULL, NULL)), "SLIP_matrix_free (NULL)");
            SLIP_matrix *z = NULL; CHECK_OK (SUT (SLIP_matrix_free (&z, NULL)), "SLIP_matrix_free (null handle)");
            others ("free of nothing", -1); note ("free nothing");
        }
        else if (op == 6)
        {   // rejected requests
            int64_t m = s.size (0, 5), n = s.size (0, 5); int kind = (int) s.draw (3), type = (int) s.draw (5); bool nullh = false;
            switch (s.draw (5)) { case 0: m = -1 - (int64_t) s.draw (5); break; case 1: n = -1 - (int64_t) s.draw (5); break; case 2: kind = s.oneof<int> ({3, -1, 77}); break; case 3: type = s.oneof<int> ({5, -1, 77}); break; default: nullh = true; }
            size_t before = mem::outstanding (); SLIP_matrix *h = (SLIP_matrix *) 0x10;
            int r = SUT (SLIP_matrix_allocate (nullh ? NULL : &h, (SLIP_kind) kind, (SLIP_type) type, m, n, 5, s.flip (), s.flip (), NULL));
            CHECK (r == SLIP_INCORRECT_INPUT, "status", "an invalid request returned " << info_name (r));
            if (!nullh) CHECK (h == NULL, "handle", "an invalid request left a handle");
            CHECK (mem::outstanding () == before, "leak", "an invalid request leaked");
            note ("invalid allocate"); others ("invalid allocate", -1);
        }
        else
        {   // requests nothing can satisfy, including ones whose size overflows
            int kind = (int) s.draw (3), type = (int) s.draw (5);
            int64_t big = s.oneof<int64_t> ({1LL << 59, 1LL << 60, 1LL << 61, (1LL << 62) + 3, INT64_MAX - 1, INT64_MAX, 1LL << 32, 3037000500LL, 1LL << 57});
            int64_t m = s.range (1, 5), n = s.range (1, 5), nzmax = 5;
            if (kind == SLIP_DENSE) { m = big; n = big == (1LL << 32) || big == 3037000500LL ? big : s.flip () ? big : s.range (1, 20); if (s.flip ()) std::swap (m, n); }
            else if (kind == SLIP_CSC && s.flip ()) n = std::max<int64_t> (big, 1LL << 57); else nzmax = std::max<int64_t> (big, 1LL << 57);
            size_t before = mem::outstanding (); SLIP_matrix *h = (SLIP_matrix *) 0x10;
            int r = SUT (SLIP_matrix_allocate (&h, (SLIP_kind) kind, (SLIP_type) type, m, n, nzmax, false, s.flip (), NULL));
            note ("allocate " + std::string (fmt::kname [kind]) + " " + fmt::tname [type] + " " + std::to_string (m) + "x" + std::to_string (n) + " cap " + std::to_string (nzmax)); c.label ("huge request");
            CHECK (r == SLIP_OUT_OF_MEMORY || r == SLIP_INCORRECT_INPUT, "status", "a request for " << m << "x" << n << ", capacity " << nzmax << " (" << fmt::kname [kind] << ") returned " << info_name (r));
            CHECK (h == NULL, "handle", "a failed request left a handle");
            CHECK (mem::outstanding () == before, "leak", "a failed request leaked");
            others ("huge allocate", -1);
        }
    }
    for (auto &t : log) c.mix (t);
    c.nontrivial = nalloc >= 2;
    // the borrowers first
    for (int k = (int) O.size () - 1; k >= 0; k--) if (O [k].h) { SUT (SLIP_matrix_free (&O [k].h, NULL)); CHECK (O [k].h == NULL, "handle", "the handle was not cleared"); }
    no_leftover ("history");
    ses.close ();
    CHECK (mem::outstanding () == 0, "leak", mem::outstanding () << " blocks were not released by freeing every object");
}
Prop pbt::the_prop = {"M04", "a case is a history of 1..14 allocate (any kind, type, size, capacity, shallow, uninitialized), fill, share, count, free, repeated free, invalid and unsatisfiable requests, checked against a model of who owns which array through the tracked allocator; non-trivial: at least two objects", 700000, 12000000, run};
