// Property-based testing core: choice-sequence generation, generic shrinking,
// forked workers, crash/hang isolation, replay files and evidence.
//
// A property is a function of a choice source.  Every random decision is drawn
// from Src, which records it; a recorded sequence replays the case exactly, and
// a shorter or smaller sequence is a simpler case (0 is always the simplest
// choice), so one generic shrinker serves every property.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <stdexcept>

namespace pbt {

struct Fail { std::string tag, msg; };
struct Discard {};

inline uint64_t mix64 (uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct ShmRec { uint64_t n; uint64_t v [1]; };

class Src
{
public:
    static const size_t MAXREC = 1u << 20;
    Src (uint64_t seed, uint64_t *shm) : s (seed), rep (nullptr), pos (0), shm (shm) { init (); }
    Src (const std::vector<uint64_t> *r, uint64_t *shm) : s (1), rep (r), pos (0), shm (shm) { init (); }

    // uniform in [0,n), n>=1; n==0 means the full 64-bit range
    uint64_t draw (uint64_t n)
    {
        uint64_t v;
        if (rep)
        {
            v = pos < rep->size () ? (*rep) [pos] : 0;
            pos++;
            if (n && v >= n) v = v % n;
        }
        else
        {
            v = next ();
            if (n) v = (uint64_t) (((unsigned __int128) v * n) >> 64);
        }
        if (cnt >= MAXREC) throw Discard ();
        shm [1 + cnt++] = v;
        shm [0] = cnt;
        return v;
    }
    int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) draw ((uint64_t) (hi - lo) + 1); }
    bool chance (int num, int den) { return (int) draw (den) >= den - num; }
    bool flip () { return draw (2) != 0; }
    // weighted index, index 0 simplest
    int pick (std::initializer_list<int> w)
    {
        int tot = 0; for (int x : w) tot += x;
        int r = (int) draw (tot), k = 0;
        for (int x : w) { if (r < x) return k; r -= x; k++; }
        return 0;
    }
    template <class T> T oneof (std::initializer_list<T> l) { return *(l.begin () + draw (l.size ())); }
    // small sizes likely, tail up to hi
    int64_t size (int64_t lo, int64_t hi)
    {
        if (hi <= lo) { draw (1); return lo; }
        int b = pick ({4, 3, 2});
        int64_t span = hi - lo;
        int64_t h = b == 0 ? lo + (span + 3) / 4 : b == 1 ? lo + (span + 1) / 2 : hi;
        return range (lo, h);
    }
    template <class T> void shuffle (std::vector<T> &v)
    {   // all-zero choices give the identity
        for (size_t i = 0; i + 1 < v.size (); i++) { size_t j = i + draw (v.size () - i); std::swap (v [i], v [j]); }
    }
    std::vector<int64_t> perm (int64_t n)
    {
        std::vector<int64_t> p (n); for (int64_t i = 0; i < n; i++) p [i] = i;
        shuffle (p); return p;
    }
    size_t count () const { return cnt; }
private:
    uint64_t s; const std::vector<uint64_t> *rep; size_t pos; uint64_t *shm; size_t cnt = 0;
    void init () { shm [0] = 0; }
    uint64_t next () { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
};

struct Ctx
{
    bool want_desc = false;      // describe this case (sample or failure report)
    bool nontrivial = false;
    bool thorough = false;
    uint64_t key = 0x1234;
    std::string desc;
    std::vector<std::string> labels;
    void label (const std::string &l) { labels.push_back (l); }
    void mix (uint64_t v) { key = mix64 (key ^ mix64 (v)); }
    void mix (const std::string &s) { for (unsigned char c : s) mix ((uint64_t) c); }
    template <class F> void describe (F f) { if (want_desc) { std::ostringstream o; f (o); desc += o.str (); } }
};

// every property file defines these
struct Prop
{
    const char *id;
    const char *rule;                 // how cases are made / what is non-trivial
    long quick, thorough;             // number of cases
    void (*run) (Src &, Ctx &);
    const char *level = "exploration";
    // optional: extra named counters for the evidence file
};
extern Prop the_prop;
extern void (*before) (Src &);          // called before every case, if set

// extra counters (fault indices tried, calls made, ...), summed over workers
void count (const char *name, uint64_t by = 1);

[[noreturn]] inline void fail (const std::string &tag, const std::string &msg) { throw Fail {tag, msg}; }

} // namespace pbt

#define STR_(x) #x
#define STR(x) STR_(x)
// CHECK(cond, tag, streamed message)
#define CHECK(cond, tag, ...)                                              \
    do { if (!(cond)) { std::ostringstream o_; o_ << __VA_ARGS__;           \
        o_ << "  [" #cond "]"; pbt::fail (tag, o_.str ()); } } while (0)
