// R03: memory helpers: contents kept, failures reported, no block lost
#include "memmodel.h"
using namespace pbt;
static std::string num (size_t n) { std::ostringstream o; o << n; return o.str (); }
static void run (Src &s, Ctx &c)
{
    bool tracked = !s.chance (1, 6); Session ses (tracked); MemApi a; a.name = "session memory helpers"; a.tracked = tracked; a.one = true;
    a.alloc = [] (size_t, size_t z, std::string &t) { t = "SLIP_malloc (" + num (z) + ")"; return SUT (SLIP_malloc (z)); };
    a.calloc_ = [] (size_t n, size_t z, std::string &t) { t = "SLIP_calloc (" + num (n) + ", " + num (z) + ")"; return SUT (SLIP_calloc (n, z)); };
    a.resize = [] (size_t n, size_t old, size_t z, void *p, bool &ok, std::string &t) { t = "SLIP_realloc (" + num (n) + " from " + num (old) + ", items of " + num (z) + (p ? ")" : ", no block)"); return SUT (SLIP_realloc ((int64_t) n, (int64_t) old, z, p, &ok)); };
    a.release = [] (void *p, std::string &t) { t = p ? "SLIP_free" : "SLIP_free (nothing)"; SUT (SLIP_free (p)); };
    MemModel *mm = NULL; int closed = 0;
    a.other = [&] (Src &s, std::string &t)
    {   // the helpers outside a session: nothing happens, no block is lost
        t = "outside the session"; CHECK (SUT (SLIP_finalize ()) == SLIP_OK, "status", "SLIP_finalize failed"); ses::defaults (); ses.open = false; closed++;
        uint64_t c0 = mem::calls; size_t l0 = mem::outstanding ();
        CHECK (SUT (SLIP_malloc (s.draw (9))) == NULL, "closed", "SLIP_malloc returned a block outside a session"); CHECK (SUT (SLIP_calloc (s.draw (9), 8)) == NULL, "closed", "SLIP_calloc returned a block outside a session");
        bool ok = true; void *p = mm->b.empty () ? NULL : mm->b [s.draw (mm->b.size ())].p; CHECK (SUT (SLIP_realloc (20, 10, 8, p, &ok)) == p && !ok, "closed", "SLIP_realloc outside a session did not report failure with the original block");
        SUT (SLIP_free (p)); CHECK (mem::calls == c0 && mem::outstanding () == l0, "closed", "memory changed hands outside a session");
        SLIP_info r = tracked ? SLIP_initialize_expert (mem::Malloc, mem::Calloc, mem::Realloc, mem::Free) : SLIP_initialize ();
        ses::capture (); ses::defaults (); CHECK (r == SLIP_OK, "status", "the session could not be reopened"); ses.open = true;
    };
    struct End { MemModel &m; ~End () { for (auto &x : m.b) if (m.a.tracked) mem::Free (x.p); } };
    { MemModel m (a, s); mm = &m; End e {m}; int nops = (int) s.size (3, c.thorough ? 120 : 40); m.run (nops); c.mix (m.log); m.labels (c); if (closed) c.label ("outside session"); c.nontrivial = m.interesting (); c.describe ([&] (std::ostream &o) { o << m.log; }); c.label (tracked ? "given allocator" : "system allocator"); m.b.clear (); }
    ses.close ();
}
Prop pbt::the_prop = {"R03", "a case is a history of 3..40 (thorough ..120) calls of SLIP_malloc/calloc/realloc/free with sizes from 0 over ordinary to overflowing, failures injected at single requests, calls outside the session; non-trivial: some block grew, some request failed or overflowed, and some block was zeroed or grown from nothing", 250000, 5000000, run};
