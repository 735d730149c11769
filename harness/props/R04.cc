// R04: guarded arithmetic functions compute what the number library does
#include "gmpw.h"
using namespace pbt;

static void scan (Src &s, Ctx &c);
static void run (Src &s, Ctx &c)
{
    Session ses; c.nontrivial = true;
    int which = s.pick ({8, 1, 1});
    if (which == 2) { scan (s, c); ses.close (); return; }
    gw::Vals v; gw::Args x; int k = (int) s.draw (gw::nops), how = (int) s.draw (6); gw::gen (s, v, x);
    const gw::Op *op = which == 0 ? &gw::ops [k] : NULL;
    // constructed operands for the operations with a precondition
    if (op && !strcmp (op->name, "SLIP_mpz_divexact")) { if (v.z [x.c] == 0) v.z [x.c] = 7; if (x.b != x.c) v.z [x.b] *= v.z [x.c]; }
    if (op && !strcmp (op->name, "SLIP_mpq_set_den")) v.z [x.b] = abs (v.z [x.b]) + 1;
    if (op && !strcmp (op->name, "SLIP_mpq_div") && v.q [x.c] == 0) v.q [x.c] = mpq_class (-3, 7);
    const char *name = op ? op->name : "SLIP_mpfr_asprintf";
    if (op && !op->ok (v, x)) throw Discard ();
    if (!op && how == 2) for (int t = 0; t < 3; t++) v.fe [t] %= 200;
    c.label (name); c.mix (name); c.mix (gw::show (v, x)); c.mix (how);
    c.describe ([&] (std::ostream &o) { o << name << gw::show (v, x); });
    gw::Pool p, g; gw::load (p, v); gw::load (g, v); int r;
    if (op && op->res [0] == '+') for (auto *P : {&p, &g})
    {
        switch (op->res [1]) { case 'z': SUT ((mpz_clear (P->z [x.a]), 0)); break; case 'q': SUT ((mpq_clear (P->q [x.a]), 0)); break; default: SUT ((mpfr_clear (P->f [x.a]), 0)); }
        memset (op->res [1] == 'z' ? (void *) &P->z [x.a] : op->res [1] == 'q' ? (void *) &P->q [x.a] : (void *) &P->f [x.a], 0, op->res [1] == 'z' ? sizeof (mpz_t) : op->res [1] == 'q' ? sizeof (mpq_t) : sizeof (mpfr_t));
    }
    if (op) { SUT (op->run (g, x, false)); r = SUT (op->run (p, x, true)); } else { gw::print_op (g, x, false, how); r = gw::print_op (p, x, true, how); }
    if (op && strstr (op->name, "cmp")) { p.r = gw::sg (p.r); g.r = gw::sg (g.r); }
    if (op && (strstr (op->name, "sgn"))) { p.r = gw::sg (p.r); g.r = gw::sg (g.r); }
    if (op && strstr (op->name, "equal")) { p.r = !!p.r; g.r = !!g.r; }
    CHECK (r == SLIP_OK, "status", name << " returned " << info_name (r));
    std::string a = gw::text (p), b = gw::text (g);
    CHECK (a == b, "result", name << ": the numbers afterwards are" << a << " but the number library gives" << b);
    p.clear (); g.clear (); ses.close ();
    CHECK (mem::bad_free == 0, "memory", mem::bad_what);
}
// reading numbers from a file, in one go or field by field
static void scan (Src &s, Ctx &c)
{
    c.label ("SLIP_gmp_fscanf"); std::string t; int nf = (int) s.range (1, 6); int kind = gen::int_kind (s);
    std::vector<int> ty; ZV zs; QV qs; std::vector<long> ls; std::vector<double> ds;
    for (int i = 0; i < nf; i++)
    {
        int k = (int) s.draw (4); ty.push_back (k); zs.push_back (0); qs.push_back (0); ls.push_back (0); ds.push_back (0);
        std::string sep = s.oneof<const char *> ({" ", "\n", "  ", "\t"});
        switch (k)
        {
            case 0: zs [i] = gen::integer (s, kind); t += zs [i].get_str (); break;
            case 1: qs [i] = gen::rational (s, kind); t += qs [i].get_str (); break;
            case 2: ls [i] = (long) s.range (-100000, 100000); t += std::to_string (ls [i]); break;
            default: ds [i] = (double) s.range (-1000, 1000) / 8; { char b [40]; snprintf (b, 40, "%g", ds [i]); t += b; }
        }
        t += sep;
    }
    int bad = s.pick ({3, 1, 1});             // 0 well-formed; 1 file ends early; 2 text where a number is due
    if (bad == 2) t += "xyz";
    c.mix (t); c.mix (bad); c.describe ([&] (std::ostream &o) { o << "SLIP_gmp_fscanf on \"" << t << "\"" << (bad ? " and one more field" : ""); });
    FILE *f = fmemopen ((void *) t.data (), t.size (), "r"); if (!f) abort ();
    struct Cl { FILE *f; ~Cl () { fclose (f); } } cl {f};
    gw::Pool p; for (int k = 0; k < 3; k++) { SUT ((mpz_init_set_si (p.z [k], 99), mpq_init (p.q [k]), 0)); p.zi [k] = p.qi [k] = true; }
    for (int i = 0; i < nf; i++)
    {
        int r; long l = 0; double d = 0;
        switch (ty [i])
        {
            case 0: r = SUT (SLIP_gmp_fscanf (f, "%Zd", p.z [0])); CHECK (r == SLIP_OK && mpz_class (p.z [0]) == zs [i], "scan", "field " << i << " read as " << mpz_class (p.z [0]) << " (" << info_name (r) << ")"); break;
            case 1: r = SUT (SLIP_gmp_fscanf (f, "%Qd", p.q [0])); CHECK (r == SLIP_OK && mpq_class (p.q [0]) == qs [i], "scan", "field " << i << " read as " << mpq_class (p.q [0]) << " (" << info_name (r) << ")"); break;
            case 2: if (i + 1 < nf && ty [i + 1] == 0 && s.flip ()) { r = SUT (SLIP_gmp_fscanf (f, "%ld %Zd", &l, p.z [1])); CHECK (r == SLIP_OK && l == ls [i] && mpz_class (p.z [1]) == zs [i + 1], "scan", "fields " << i << "," << i + 1 << " read as " << l << " and " << mpz_class (p.z [1])); i++; }
                    else { r = SUT (SLIP_gmp_fscanf (f, "%ld", &l)); CHECK (r == SLIP_OK && l == ls [i], "scan", "field " << i << " read as " << l); } break;
            default: r = SUT (SLIP_gmp_fscanf (f, "%lf", &d)); CHECK (r == SLIP_OK && d == ds [i], "scan", "field " << i << " read as " << d);
        }
    }
    if (bad == 1)
    {
        mpz_class keep (p.z [2]); int r = SUT (SLIP_gmp_fscanf (f, "%Zd", p.z [2]));
        CHECK (r == SLIP_INCORRECT_INPUT, "scan", "reading past the end returned " << info_name (r));
        CHECK (mpz_class (p.z [2]) == keep, "scan", "reading past the end changed the number");
    }
    p.clear ();
}
Prop pbt::the_prop = {"R04", "a case is one guarded function with generated operands (three integers, rationals and floats of several precisions, with special values, any aliasing, all rounding modes), run on one pool of numbers and by the number library on a copy, all numbers compared; or a generated text scanned field by field; every case is non-trivial", 800000, 10000000, run};
