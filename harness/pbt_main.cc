// Runner for one property: see pbt.h
#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <unordered_set>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
typedef std::vector<uint64_t> Seq;

extern "C" const char *__asan_default_options ()
{
    return "detect_leaks=0:allocator_may_return_null=1:exitcode=99:hard_rss_limit_mb=6000:"
           "handle_abort=1:detect_stack_use_after_return=0:symbolize=1:quarantine_size_mb=16:"
           "max_allocation_size_mb=2000";
}
extern "C" const char *__ubsan_default_options () { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }

static const int HANG_CPU_S = 25;
enum { NCNT = 64 };
struct Shared
{
    volatile long cur;            // case index being run (-1: none)
    volatile int state;           // 0 running, 1 finished, 2 failed (Fail), 3 hang
    volatile uint64_t evals, discards, nontriv;
    char tag [128]; char msg [16384];
    char cntname [NCNT][48]; uint64_t cnt [NCNT];
    uint64_t nhash;
    // followed by: hashes [cap], then rec [1+MAXREC]
};
void (*pbt::before) (Src &) = nullptr;
static void run_case (Src &s, Ctx &c) { if (pbt::before) pbt::before (s); the_prop.run (s, c); }
static Shared *g_sh = nullptr;
static uint64_t *g_rec = nullptr;

void pbt::count (const char *name, uint64_t by)
{
    if (!g_sh) return;
    for (int i = 0; i < NCNT; i++)
    {
        if (!g_sh->cntname [i][0]) { strncpy (g_sh->cntname [i], name, 47); }
        if (!strncmp (g_sh->cntname [i], name, 47)) { g_sh->cnt [i] += by; return; }
    }
}

static void *shm_alloc (size_t n)
{
    void *p = mmap (0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror ("mmap"); exit (2); }
    return p;
}
static size_t rec_bytes () { return (Src::MAXREC + 2) * 8; }

static void on_hang (int)
{
    if (g_sh) g_sh->state = 3;
    _exit (77);
}
static void arm (int s)
{
    struct itimerval t; memset (&t, 0, sizeof t); t.it_value.tv_sec = s;
    setitimer (ITIMER_PROF, &t, 0);
}
static double now ()
{
    return std::chrono::duration<double> (std::chrono::steady_clock::now ().time_since_epoch ()).count ();
}
static uint64_t case_seed (uint64_t seed, long i)
{
    uint64_t h = mix64 (seed);
    for (const char *c = the_prop.id; *c; c++) h = mix64 (h ^ (unsigned char) *c);
    return mix64 (h ^ mix64 ((uint64_t) i));
}

struct Outcome { int status = 0; /*0 ok 1 fail 2 crash 3 hang*/ std::string tag, msg, desc; Seq rec; };
static bool g_thorough = false;
static std::string g_tmp;

static std::string tail_of (const std::string &path, size_t n)
{
    std::string s; FILE *f = fopen (path.c_str (), "r");
    if (!f) return s;
    char buf [4096]; size_t r;
    while ((r = fread (buf, 1, sizeof buf, f)) > 0) { s.append (buf, r); if (s.size () > 4 * n) s = s.substr (0, 2 * n) ; }
    fclose (f);
    // keep the beginning of a sanitizer report
    size_t p = s.find ("ERROR: "); if (p == std::string::npos) p = s.find ("runtime error");
    if (p != std::string::npos) { size_t q = p > 200 ? p - 200 : 0; s = s.substr (q); }
    if (s.size () > n) s = s.substr (0, n);
    return s;
}

// run one case, given its choices, in a forked child
static Outcome run_isolated (const Seq *choices, uint64_t seed, bool want_desc, int cpu_s = HANG_CPU_S)
{
    static uint64_t *rec = nullptr; static Shared *sh = nullptr; static char *dsc = nullptr;
    const size_t DSC = 1 << 20;
    if (!rec) { rec = (uint64_t *) shm_alloc (rec_bytes ()); sh = (Shared *) shm_alloc (sizeof (Shared)); dsc = (char *) shm_alloc (DSC); }
    memset (sh, 0, sizeof *sh); rec [0] = 0; dsc [0] = 0;
    std::string log = g_tmp + "/iso.log";
    fflush (stdout); fflush (stderr);
    pid_t p = fork ();
    if (p == 0)
    {
        int fd = open (log.c_str (), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2 (fd, 1); dup2 (fd, 2);
        g_sh = sh; signal (SIGPROF, on_hang); arm (cpu_s);
        Ctx c; c.want_desc = want_desc; c.thorough = g_thorough;
        int st = 0;
        try
        {
            if (choices) { Src s (choices, rec); run_case (s, c); }
            else { Src s (seed, rec); run_case (s, c); }
        }
        catch (Fail &f)
        {
            strncpy (sh->tag, f.tag.c_str (), sizeof sh->tag - 1);
            strncpy (sh->msg, f.msg.c_str (), sizeof sh->msg - 1);
            st = 1;
        }
        catch (Discard &) { st = 0; }
        strncpy (dsc, c.desc.c_str (), DSC - 1);
        sh->state = st == 1 ? 2 : 1;
        _exit (st);
    }
    int ws; while (waitpid (p, &ws, 0) < 0 && errno == EINTR) ;
    Outcome o;
    o.rec.assign (rec + 1, rec + 1 + rec [0]);
    o.desc = dsc;
    if (sh->state == 3) { o.status = 3; o.tag = "hang"; o.msg = "the call did not terminate (CPU limit)"; }
    else if (WIFEXITED (ws) && WEXITSTATUS (ws) == 0 && sh->state == 1) o.status = 0;
    else if (WIFEXITED (ws) && WEXITSTATUS (ws) == 1 && sh->state == 2) { o.status = 1; o.tag = sh->tag; o.msg = sh->msg; }
    else
    {
        o.status = 2; o.tag = "crash";
        std::ostringstream m; m << "the process died (";
        if (WIFSIGNALED (ws)) m << "signal " << WTERMSIG (ws); else m << "exit " << WEXITSTATUS (ws);
        m << ")\n" << tail_of (log, 6000); o.msg = m.str ();
    }
    return o;
}

static bool same (const Outcome &a, const Outcome &b) { return a.status && a.status == b.status && a.tag == b.tag; }

static Outcome shrink (Outcome best, double budget_s, long max_runs)
{
    double t0 = now (); long runs = 0;
    auto ok = [&] { return now () - t0 < budget_s && runs < max_runs; };
    auto attempt = [&] (const Seq &c) -> bool
    {
        runs++;
        Outcome o = run_isolated (&c, 0, false);
        if (same (o, best))
        {
            bool better = o.rec.size () < best.rec.size () ||
                (o.rec.size () == best.rec.size () && std::lexicographical_compare (o.rec.begin (), o.rec.end (), best.rec.begin (), best.rec.end ()));
            if (better) { best = o; return true; }
        }
        return false;
    };
    // minimise: 0-trailing removal happens by itself because missing choices read as 0
    bool progress = true;
    while (progress && ok ())
    {
        progress = false;
        for (size_t len = std::max<size_t> (1, best.rec.size () / 2); len >= 1 && ok (); len /= 2)
        {
            for (size_t i = best.rec.size () >= len ? best.rec.size () - len : 0; ok (); )
            {
                if (i + len <= best.rec.size ())
                {
                    Seq c = best.rec; c.erase (c.begin () + i, c.begin () + i + len);
                    if (attempt (c)) progress = true;
                }
                if (i == 0) break;
                i = i > len ? i - len : 0;
            }
        }
        for (size_t len = std::max<size_t> (1, best.rec.size () / 4); len >= 1 && ok (); len /= 2)
            for (size_t i = 0; i < best.rec.size () && ok (); i += len)
            {
                Seq c = best.rec; bool any = false;
                for (size_t k = i; k < std::min (i + len, c.size ()); k++) { any |= c [k] != 0; c [k] = 0; }
                if (any && attempt (c)) progress = true;
            }
        for (size_t i = 0; i < best.rec.size () && ok (); i++)
        {
            uint64_t v = best.rec [i];
            uint64_t lo = 0, hi = v;
            while (lo < hi && ok ())
            {
                uint64_t mid = lo + (hi - lo) / 2;
                Seq c = best.rec; if (i >= c.size ()) break; c [i] = mid;
                if (attempt (c)) { progress = true; hi = mid; if (i >= best.rec.size ()) break; }
                else lo = mid + 1;
            }
        }
    }
    return best;
}

static std::string jstr (const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b [8]; snprintf (b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

int main (int argc, char **argv)
{
    // fixed addresses make address-dependent failures replayable
    if (!getenv ("PBT_NOASLR"))
    {
        setenv ("PBT_NOASLR", "1", 1);
        int per = personality (0xffffffff);
        if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality (per | ADDR_NO_RANDOMIZE) >= 0) execv ("/proc/self/exe", argv);
    }
    uint64_t seed = 1; long cases = -1; double cap = -1; int W = 8; bool noshrink = false;
    std::string replay, evid, outdir = "/tmp", tmp = "/tmp", known;
    if (getenv ("VERIF_SEED")) seed = strtoull (getenv ("VERIF_SEED"), 0, 10);
    if (getenv ("VERIF_TIER")) g_thorough = !strcmp (getenv ("VERIF_TIER"), "thorough");
    std::vector<std::string> knowns;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv [i]; auto nx = [&] { return i + 1 < argc ? argv [++i] : (char *) ""; };
        if (a == "--seed") seed = strtoull (nx (), 0, 10);
        else if (a == "--tier") g_thorough = !strcmp (nx (), "thorough");
        else if (a == "--cases") cases = atol (nx ());
        else if (a == "--cap") cap = atof (nx ());
        else if (a == "--workers") W = atoi (nx ());
        else if (a == "--replay") replay = nx ();
        else if (a == "--no-shrink") noshrink = true;
        else if (a == "--evidence") evid = nx ();
        else if (a == "--outdir") outdir = nx ();
        else if (a == "--tmp") tmp = nx ();
        else if (a == "--known") knowns.push_back (nx ());   // replay file of a known finding
    }
    g_tmp = tmp;
    setvbuf (stdout, 0, _IOLBF, 0);
    if (cases < 0) cases = g_thorough ? the_prop.thorough : the_prop.quick;
    if (cap < 0) cap = g_thorough ? 2400 : 300;

    auto load = [] (const std::string &path, Seq &c, long &w, long &upto, uint64_t &sd, int &W2) -> bool
    {
        FILE *f = fopen (path.c_str (), "r"); if (!f) return false;
        char word [64]; bool got = false; w = -1;
        while (fscanf (f, "%63s", word) == 1)
        {
            if (!strcmp (word, "choices:"))
            { unsigned long long v; while (fscanf (f, "%llu", &v) == 1) c.push_back (v); got = true; break; }
            if (!strcmp (word, "prefix:"))
            { unsigned long long s2; if (fscanf (f, "%llu %d %ld %ld", &s2, &W2, &w, &upto) == 4) { sd = s2; got = true; } break; }
        }
        fclose (f); return got;
    };
    // re-run a worker's cases up to (and including) index upto in one process
    auto run_prefix = [&] (uint64_t sd, int W2, long w, long upto) -> Outcome
    {
        Outcome o; Shared *sh = (Shared *) shm_alloc (sizeof (Shared)); uint64_t *rec = (uint64_t *) shm_alloc (rec_bytes ());
        std::string log = g_tmp + "/iso.log"; fflush (stdout);
        pid_t p = fork ();
        if (p == 0)
        {
            int fd = open (log.c_str (), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2 (fd, 1); dup2 (fd, 2);
            g_sh = sh; signal (SIGPROF, on_hang);
            for (long i = w; i <= upto; i += W2)
            {
                arm (HANG_CPU_S); Ctx c; c.thorough = g_thorough; Src s (case_seed (sd, i), rec);
                try { run_case (s, c); }
                catch (Fail &f) { strncpy (sh->tag, f.tag.c_str (), 127); strncpy (sh->msg, f.msg.c_str (), 16383); sh->state = 2; _exit (1); }
                catch (Discard &) { }
            }
            sh->state = 1; _exit (0);
        }
        int ws; while (waitpid (p, &ws, 0) < 0 && errno == EINTR) ;
        if (sh->state == 3) { o.status = 3; o.tag = "hang"; o.msg = "did not terminate"; }
        else if (sh->state == 2) { o.status = 1; o.tag = sh->tag; o.msg = sh->msg; }
        else if (sh->state == 1 && WIFEXITED (ws) && WEXITSTATUS (ws) == 0) o.status = 0;
        else { o.status = 2; o.tag = "crash"; o.msg = tail_of (log, 6000); }
        munmap (sh, sizeof (Shared)); munmap (rec, rec_bytes ());
        return o;
    };

    if (!replay.empty ())
    {
        Seq c; long w, upto; uint64_t sd; int W2;
        if (!load (replay, c, w, upto, sd, W2)) { printf ("cannot read %s\n", replay.c_str ()); return 2; }
        Outcome o = w >= 0 ? run_prefix (sd, W2, w, upto) : run_isolated (&c, 0, true);
        printf ("%s\n", o.desc.c_str ());
        if (o.status == 0) { printf ("replay: property holds on this case\n"); return 0; }
        printf ("replay: FAILS [%s] %s\n", o.tag.c_str (), o.msg.c_str ());
        printf ("VIOLATION property=%s replay=%s\n", the_prop.id, replay.c_str ());
        return 1;
    }

    double t0 = now ();
    long percap = cases / W + 2;
    struct Wk { pid_t pid; Shared *sh; uint64_t *hash; uint64_t *rec; bool done; std::string out; };
    std::vector<Wk> wk (W);
    for (int w = 0; w < W; w++)
    {
        wk [w].sh = (Shared *) shm_alloc (sizeof (Shared));
        wk [w].hash = (uint64_t *) shm_alloc (percap * 8);
        wk [w].rec = (uint64_t *) shm_alloc (rec_bytes ());
        wk [w].done = false; wk [w].out = tmp + "/w" + std::to_string (w);
        memset (wk [w].sh, 0, sizeof (Shared)); wk [w].sh->cur = -1;
        fflush (stdout);
        pid_t p = fork ();
        if (p == 0)
        {
            Wk &k = wk [w]; g_sh = k.sh;
            int fd = open ((k.out + ".log").c_str (), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2 (fd, 1); dup2 (fd, 2);
            signal (SIGPROF, on_hang);
            std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
            std::unordered_set<uint64_t> seen;
            auto dump = [&]
            {
                FILE *f = fopen ((k.out + ".labels").c_str (), "w");
                for (auto &l : labels) fprintf (f, "%llu %s\n", (unsigned long long) l.second, l.first.c_str ());
                fclose (f);
                f = fopen ((k.out + ".samples").c_str (), "w");
                for (auto &s : samples) { fwrite (s.data (), 1, s.size (), f); fputc (1, f); }
                fclose (f);
            };
            for (long i = w; i < cases; i += W)
            {
                if (now () - t0 > cap) break;
                k.sh->cur = i; arm (HANG_CPU_S);
                Ctx c; c.thorough = g_thorough; c.want_desc = samples.size () < 3 && i / W >= (long) samples.size () * 7;
                Src s (case_seed (seed, i), k.rec);
                try { run_case (s, c); }
                catch (Fail &f)
                {
                    strncpy (k.sh->tag, f.tag.c_str (), 127); strncpy (k.sh->msg, f.msg.c_str (), 16383);
                    k.sh->evals++; dump (); k.sh->state = 2; _exit (1);
                }
                catch (Discard &) { k.sh->discards++; continue; }
                k.sh->evals++;
                for (auto &l : c.labels) labels [l]++;
                if (c.nontrivial)
                {
                    k.sh->nontriv++;
                    if (k.sh->nhash < (uint64_t) percap) k.hash [k.sh->nhash++] = c.key;
                    if (c.want_desc) samples.push_back (c.desc.substr (0, 1500));
                }
            }
            arm (0); dump (); k.sh->state = 1; _exit (0);
        }
        wk [w].pid = p;
    }
    // wait
    int left = W, bad = -1; int badws = 0;
    while (left > 0)
    {
        int ws; pid_t p = waitpid (-1, &ws, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (int w = 0; w < W; w++) if (wk [w].pid == p)
        {
            wk [w].done = true; left--;
            if (!(WIFEXITED (ws) && WEXITSTATUS (ws) == 0 && wk [w].sh->state == 1) && bad < 0)
            {
                bad = w; badws = ws;
                for (auto &o : wk) if (!o.done) kill (o.pid, SIGKILL);
            }
        }
    }
    uint64_t evals = 0, discards = 0, nontriv = 0; std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels, counters; std::vector<std::string> samples;
    for (auto &k : wk)
    {
        evals += k.sh->evals; discards += k.sh->discards; nontriv += k.sh->nontriv;
        for (uint64_t i = 0; i < k.sh->nhash; i++) distinct.insert (k.hash [i]);
        for (int i = 0; i < NCNT && k.sh->cntname [i][0]; i++) counters [k.sh->cntname [i]] += k.sh->cnt [i];
        FILE *f = fopen ((k.out + ".labels").c_str (), "r");
        if (f) { unsigned long long c; char nm [256]; while (fscanf (f, "%llu %255[^\n]", &c, nm) == 2) labels [nm] += c; fclose (f); }
        f = fopen ((k.out + ".samples").c_str (), "r");
        if (f) { std::string s; int ch; while ((ch = fgetc (f)) != EOF) { if (ch == 1) { if (samples.size () < 8) samples.push_back (s); s.clear (); } else s += (char) ch; } fclose (f); }
    }

    int rc = 0; long violations = 0; std::string note;
    if (bad >= 0)
    {
        Wk &k = wk [bad]; long idx = k.sh->cur;
        Outcome first; first.rec.assign (k.rec + 1, k.rec + 1 + k.rec [0]);
        if (k.sh->state == 3) { first.status = 3; first.tag = "hang"; }
        else if (k.sh->state == 2) { first.status = 1; first.tag = k.sh->tag; first.msg = k.sh->msg; }
        else { first.status = 2; first.tag = "crash"; first.msg = tail_of (k.out + ".log", 4000); }
        printf ("case %ld failed: [%s] %s\n", idx, first.tag.c_str (), first.msg.substr (0, 1500).c_str ());
        if (WIFSIGNALED (badws)) printf ("worker ended by signal %d\n", WTERMSIG (badws));
        std::string path = outdir + "/" + the_prop.id + "-s" + std::to_string (seed) + "-c" + std::to_string (idx) + ".replay";
        // does the case fail on its own, three times?
        Outcome alone = run_isolated (&first.rec, 0, false);
        bool confirmed = false; Outcome fin;
        if (alone.status)
        {
            Outcome r2 = run_isolated (&first.rec, 0, false), r3 = run_isolated (&first.rec, 0, false);
            if (r2.status && r3.status)
            {
                fin = alone;
                if (alone.status != 3 && !noshrink) fin = shrink (alone, g_thorough ? 120 : 60, 4000);
                confirmed = true;
                for (int r = 0; r < 3; r++) { Outcome o = run_isolated (&fin.rec, 0, true); if (!o.status) confirmed = false; else fin = o; }
                if (!confirmed) { fin = alone; confirmed = true; }
            }
        }
        if (confirmed)
        {
            FILE *f = fopen (path.c_str (), "w");
            fprintf (f, "property %s\nseed %llu case %ld tier %s\nchoices:", the_prop.id, (unsigned long long) seed, idx, g_thorough ? "thorough" : "quick");
            for (uint64_t v : fin.rec) fprintf (f, " %llu", (unsigned long long) v);
            fprintf (f, "\nfailure: [%s] %s\ncase:\n%s\n", fin.tag.c_str (), fin.msg.c_str (), fin.desc.c_str ());
            fclose (f);
        }
        else
        {
            // depends on earlier cases in the same process, or on addresses:
            // replay the worker's prefix
            int rep = 0, tries = 0; Outcome o, got;
            for (; tries < 6 && rep < 3; tries++) { o = run_prefix (seed, W, bad, idx); if (o.status) { rep++; got = o; } }
            // a hang must reproduce every time; a failed check or a sanitizer
            // report is evidence by itself (the harness is deterministic), but a
            // process ended from outside (signal 9) is not
            bool killed = WIFSIGNALED (badws) && (WTERMSIG (badws) == SIGKILL || WTERMSIG (badws) == SIGTERM);
            bool mem_limit = first.msg.find ("rss limit") != std::string::npos || first.msg.find ("out of memory") != std::string::npos || first.msg.find ("bad_alloc") != std::string::npos;
            if (first.status == 3 ? rep == 3 && tries == 3 : rep > 0 || (!killed && !mem_limit))
            {
                confirmed = true; fin = rep ? got : first;
                if (!rep) note = "the failure was observed once and did not reproduce on six replays of the same history (address dependent)";
                FILE *f = fopen (path.c_str (), "w");
                fprintf (f, "property %s\nprefix: %llu %d %d %ld\nfailure: [%s] %s (only after the preceding cases in one process; %d of %d replays fail)\n", the_prop.id, (unsigned long long) seed, W, bad, idx, fin.tag.c_str (), fin.msg.c_str (), rep, tries);
                fclose (f);
            }
        }
        if (confirmed)
        {
            printf ("minimised: [%s] %s\n%s\n", fin.tag.c_str (), fin.msg.substr (0, 3000).c_str (), fin.desc.substr (0, 4000).c_str ());
            printf ("VIOLATION property=%s replay=%s\n", the_prop.id, path.c_str ());
            rc = 1; violations = 1;
        }
        else
        {
            printf ("failure did not reproduce: inconclusive (resource limits?)\n");
            note = "one failure did not reproduce on replay and was not reported";
            rc = 0;
        }
    }
    double wall = now () - t0;
    if (!evid.empty ())
    {
        FILE *f = fopen (evid.c_str (), "w");
        if (f)
        {
            fprintf (f, "{\"property\":%s,\"tier\":\"%s\",\"seed\":%llu,\"level\":\"%s\",\"coverage\":{", jstr (the_prop.id).c_str (),
                g_thorough ? "thorough" : "quick", (unsigned long long) seed, the_prop.level);
            fprintf (f, "\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"rule\":%s,\"samples\":[", (unsigned long long) evals, distinct.size (), jstr (the_prop.rule).c_str ());
            for (size_t i = 0; i < samples.size (); i++) fprintf (f, "%s%s", i ? "," : "", jstr (samples [i]).c_str ());
            fprintf (f, "],\"nontrivial_cases\":%llu,\"discarded\":%llu,\"classes\":{", (unsigned long long) nontriv, (unsigned long long) discards);
            bool first = true;
            for (auto &l : labels) { fprintf (f, "%s%s:%llu", first ? "" : ",", jstr (l.first).c_str (), (unsigned long long) l.second); first = false; }
            fprintf (f, "}"); 
            for (auto &l : counters) fprintf (f, ",%s:%llu", jstr ("count_" + l.first).c_str (), (unsigned long long) l.second);
            fprintf (f, "},\"wall_s\":%.2f,\"violations\":%ld%s}\n", wall, violations, note.empty () ? "" : (",\"note\":" + jstr (note)).c_str ());
            fclose (f);
        }
    }
    printf ("%s: %llu cases (%zu distinct non-trivial, %llu discarded) in %.1f s, seed %llu, %s: %s\n", the_prop.id, (unsigned long long) evals, distinct.size (),
        (unsigned long long) discards, wall, (unsigned long long) seed, g_thorough ? "thorough" : "quick", rc == 0 ? "held" : "VIOLATED");
    return rc;
}
