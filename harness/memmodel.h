// model of a block-owning client of allocation helpers: sequences of allocate, zero-allocate, resize, free
// with sizes from zero to overflowing and failures injected at any request
#pragma once
#include "slipx.h"
struct MemApi
{
    const char *name;
    std::function<void * (size_t n, size_t s, std::string &call)> alloc;
    std::function<void * (size_t n, size_t s, std::string &call)> calloc_;
    std::function<void * (size_t nnew, size_t nold, size_t s, void *p, bool &ok, std::string &call)> resize;
    std::function<void (void *p, std::string &call)> release;
    std::function<void (pbt::Src &, std::string &)> other;          // exchange allocators, close and reopen, ...
    bool tracked = true, one = false;                               // one: alloc takes bytes only
};
struct MemModel
{
    struct Blk { unsigned char *p; size_t n, s, bytes; std::vector<unsigned char> want; };
    MemApi &a; pbt::Src &s; std::vector<Blk> b; std::string log, call; size_t base; uint64_t wrote = 1, asked = 0;
    int moved = 0, failed = 0, overflowed = 0, zeroed = 0, shrunk = 0, kept = 0, fresh = 0;
    MemModel (MemApi &a, pbt::Src &s) : a (a), s (s), base (mem::outstanding ()) { mem::limit = (size_t) 1 << 20; }
    static size_t one (size_t n) { return n < 1 ? 1 : n; }
    static bool over (size_t n, size_t z) { return (unsigned __int128) one (n) * one (z) > (((unsigned __int128) 1 << 64) - 1); }
    static bool huge (size_t n, size_t z) { return (unsigned __int128) one (n) * one (z) > ((unsigned __int128) 1 << 20); }
    void sizes (size_t &n, size_t &z)
    {
        switch (s.pick ({6, 2, 2, 3, 2}))
        {
            case 0: n = s.draw (40); z = s.oneof<size_t> ({1, 8, 4, 2, 16, 24, 3, 32}); break;
            case 1: n = s.draw (3); z = s.draw (3); break;
            case 2: n = s.draw (3000); z = s.oneof<size_t> ({1, 8, 16, 0}); break;
            case 3:   // products just around and far beyond 2^64
            {
                int k = (int) s.range (1, 63); z = ((size_t) 1 << k) + s.range (0, 4) - 2; n = (((size_t) 1 << (64 - k)) - 1) + s.range (0, 5);
                if (s.flip ()) n += s.draw (0) % (n | 1); if (s.flip ()) std::swap (n, z); break;
            }
            default: n = s.oneof<size_t> ({(size_t) -1, (size_t) 1 << 63, (size_t) 1 << 60, ((size_t) 1 << 61) + 1, (size_t) 1 << 40}); z = s.oneof<size_t> ({1, 8, 2, 16, 0, (size_t) -1}); break;
        }
    }
    // the system allocator is only asked for sizes it has, or for ones no size type holds
    void tame (size_t &n, size_t &z, bool bytes = false) { if (bytes) n = 1; if (!a.tracked && huge (n, z) && !over (n, z)) { n %= 1000; z = z % 1000; } }
    void write (Blk &k)
    {   // use every byte of the block
        k.want.resize (k.bytes); for (auto &x : k.want) x = (unsigned char) (pbt::mix64 (wrote++) >> 7); memcpy (k.p, k.want.data (), k.bytes);
    }
    void intact (const Blk &k, const char *when) { size_t i = 0; while (i < k.want.size () && k.p [i] == k.want [i]) i++; CHECK (i == k.want.size (), "contents", a.name << ": byte " << i << " of a block of " << k.bytes << " bytes changed " << when << "\n" << log); }
    void audit (const char *when)
    {
        if (!a.tracked) return;
        CHECK (mem::bad_free == 0, "ownership", a.name << ": " << mem::bad_what << ", " << when << "\n" << log);
        CHECK (mem::outstanding () == base + b.size (), "ownership", a.name << ": " << mem::outstanding () - base << " blocks are held where " << b.size () << " are owned, " << when << "\n" << log);
    }
    void usable (const Blk &k) { if (a.tracked) { size_t z = mem::size_of (k.p); CHECK (z != (size_t) -1, "ownership", a.name << ": the returned block does not belong to the allocator\n" << log); CHECK (z >= k.bytes, "size", a.name << ": a block of " << k.bytes << " bytes was asked for, the allocator was asked for " << z << "\n" << log); } }
    void run (int nops)
    {
        for (int i = 0; i < nops; i++) step ();
        for (size_t i = 0; i < b.size (); i++) intact (b [i], "by the end");
        while (!b.empty ()) { size_t j = s.draw (b.size ()); call.clear (); a.release (b [j].p, call); log += call + "\n"; b.erase (b.begin () + j); audit ("after the last frees"); }
    }
    void step ()
    {
        int op = s.pick ({4, 3, 6, 2, 2}); bool inject = a.tracked && s.chance (1, 5); call.clear ();
        if (op == 2 && b.empty () && !s.chance (1, 4)) op = 0;
        if (op == 0 || op == 1)
        {
            size_t n, z; sizes (n, z); tame (n, z, a.one && op == 0);
            mem::plan (inject ? 1 : 0, false); void *p = op ? a.calloc_ (n, z, call) : a.alloc (n, z, call); uint64_t f = mem::failed; asked = mem::calls; mem::plan (0, false);
            log += call + (inject ? " with failure injected" : "") + (p ? "\n" : " -> nothing\n"); must (p, n, z, inject, f);
            if (p) { Blk k {(unsigned char *) p, n, z, one (n) * one (z), {}}; take (k, op == 1); }
        }
        else if (op == 2)
        {
            bool none = b.empty () || s.chance (1, 6); size_t n, z; sizes (n, z); bool ok = false;
            if (none)
            {
                size_t old = s.draw (5); tame (n, z); ok = s.flip (); mem::plan (inject ? 1 : 0, false); void *p = a.resize (n, old, z, NULL, ok, call); uint64_t f = mem::failed; asked = mem::calls; mem::plan (0, false);
                log += call + (inject ? " with failure injected" : "") + (p ? "\n" : " -> nothing\n"); fresh++;
                CHECK (ok == (p != NULL), "ok flag", a.name << ": resizing a missing block returned " << (p ? "a block" : "nothing") << " with success " << ok << "\n" << log); must (p, n, z, inject, f);
                if (p) { Blk k {(unsigned char *) p, n, z, one (n) * one (z), {}}; take (k, false); }
            }
            else
            {
                size_t j = s.draw (b.size ()); Blk &k = b [j]; z = k.s; if (s.chance (1, 5)) n = k.n; else if (s.chance (1, 4)) n = s.draw (one (k.n) + 1); else if (s.chance (1, 3)) n = k.n + s.draw (20);
                if (!a.tracked && huge (n, z) && !over (n, z)) n %= 1 + ((size_t) 1 << 20) / one (z);
                unsigned char *was = k.p; bool grow = one (n) > one (k.n); ok = !s.flip ();
                mem::plan (inject ? 1 : 0, false); void *p = a.resize (n, k.n, z, k.p, ok, call); uint64_t f = mem::failed; asked = mem::calls; mem::plan (0, false);
                log += call + (inject ? " with failure injected" : "") + (ok ? "\n" : " -> failed\n");
                CHECK (p != NULL, "lost block", a.name << ": resizing a block returned nothing\n" << log);
                if (!ok)
                {
                    CHECK (grow, "ok flag", a.name << ": " << (one (n) == one (k.n) ? "keeping the size of" : "shrinking") << " a block reported failure\n" << log);
                    CHECK (f > 0 || huge (n, z), "ok flag", a.name << ": growing a block to " << n << " items of " << z << " failed though memory was available\n" << log);
                    CHECK (p == was, "lost block", a.name << ": a failed resize did not return the original block\n" << log);
                    reached (n, z); if (over (n, z)) overflowed++; else failed++;
                    intact (k, "in a failed resize"); usable (k);
                }
                else
                {
                    CHECK (!grow || (!huge (n, z) && f == 0), "ok flag", a.name << ": growing a block to " << n << " items of " << z << " reported success though it cannot have worked\n" << log);
                    size_t nb = one (n) * one (z); k.p = (unsigned char *) p; k.n = n; k.want.resize (std::min (nb, k.want.size ())); k.bytes = nb; if (grow) moved++; else if (f) kept++; else shrunk++;
                    usable (k); intact (k, "in a resize"); write (k);
                }
            }
        }
        else if (op == 3)
        {
            if (b.empty () || s.chance (1, 4)) { a.release (NULL, call); log += call + "\n"; }
            else { size_t j = s.draw (b.size ()); intact (b [j], "before its release"); a.release (b [j].p, call); log += call + "\n"; b.erase (b.begin () + j); }
        }
        else { a.other (s, call); log += call + "\n"; }
        audit ("after the last call");
        if (!b.empty ()) { size_t j = s.draw (b.size ()); intact (b [j], "by a call on another block"); }
    }
    // whether a large block can be had is for the allocator to say
    void reached (size_t n, size_t z) { if (a.tracked && !over (n, z) && (unsigned __int128) one (n) * one (z) <= ((size_t) 1 << 50)) CHECK (asked > 0, "refused", a.name << ": a request for " << n << " items of " << z << " bytes was refused without asking the allocator\n" << log); }
    void must (void *p, size_t n, size_t z, bool, uint64_t f)
    {
        if (p == NULL) { reached (n, z); CHECK (f > 0 || huge (n, z), "refused", a.name << ": a request for " << n << " items of " << z << " bytes was refused though memory was available\n" << log); if (over (n, z)) overflowed++; else failed++; }
        else CHECK (f == 0 && !huge (n, z), "overflow", a.name << ": a request for " << n << " items of " << z << " bytes was granted\n" << log);
    }
    void take (Blk k, bool zero)
    {
        usable (k); if (zero) { zeroed++; for (size_t i = 0; i < k.bytes; i++) CHECK (k.p [i] == 0, "zeroed", a.name << ": byte " << i << " of a block promised zeroed is " << (int) k.p [i] << "\n" << log); }
        for (auto &x : b) CHECK (x.p != k.p, "ownership", a.name << ": the same block was handed out twice\n" << log);
        write (k); b.push_back (k);
    }
    bool interesting () const { return moved && (failed || overflowed) && (zeroed || fresh) ; }
    void labels (pbt::Ctx &c) const { if (moved) c.label ("grown"); if (failed) c.label ("failure reported"); if (overflowed) c.label ("overflow refused"); if (kept) c.label ("shrink kept block"); if (shrunk) c.label ("shrunk or same"); if (zeroed) c.label ("zeroed"); if (fresh) c.label ("missing block"); }
};
