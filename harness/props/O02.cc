// O02: the reports of the ordering packages show exactly the statistics and settings given
#include "printed.h"
using namespace pbt;

static std::string tellit (const std::function<void ()> &f, const char *what)
{
    out::capture (); long s0 = stray (); f (); long s1 = stray (); std::string t = out::text; CHECK (s0 == s1, "output", what << " printed past the print function"); out::text.clear (); out::off (); f (); s0 = stray (); CHECK (s0 == s1 && out::text.empty (), "output", what << " printed without a print function"); SuiteSparse_config.printf_func = printf; return t;
}
static void has (const std::string &t, const char *key, double want, double tol = 0)
{   // the line with this phrase ends in this number (negative: left out)
    size_t p = t.find (key); if (want < 0) { CHECK (p == std::string::npos, "report", "the report shows \"" << key << "\" for an unknown value: " << t); return; }
    CHECK (p != std::string::npos, "report", "the report has no line \"" << key << "\": " << t); p = t.find (':', p); double v = strtod (t.c_str () + p + 1, NULL); CHECK (fabs (v - want) <= tol, "report", "\"" << key << "\" shows " << v << " where the value is " << want);
}
static void version (const std::string &t, const std::string &want)
{   // the first line names the version of the header
    CHECK (t.find (want) != std::string::npos && t.find (want) < 20, "report", "the report does not start with \"" << want << "\": " << t);
}
static void reports (Src &s, Ctx &c)
{
    Session ses; bool lng = s.flip (); int which = (int) s.draw (3); c.nontrivial = true; c.mix (which * 2 + lng);
    if (which == 0)
    {
        c.label ("amd_info"); double I [AMD_INFO]; for (int i = 0; i < AMD_INFO; i++) { I [i] = s.chance (1, 8) ? -1 : (double) s.draw ((uint64_t) 1 << s.range (1, 50)); c.mix (I [i]); } I [AMD_STATUS] = (double) s.oneof<int> ({AMD_OK, AMD_OUT_OF_MEMORY, AMD_INVALID, AMD_OK_BUT_JUMBLED, -7}); I [AMD_SYMMETRY] = s.chance (1, 8) ? -1 : (double) s.draw (1001) / 1000;
        c.describe ([&] (std::ostream &o) { o << "amd_info"; for (double x : I) o << " " << x; }); double K [AMD_INFO]; memcpy (K, I, sizeof I);
        std::string t = tellit ([&] { if (lng) amd_l_info (I); else amd_info (I); }, "amd_info"); CHECK (!memcmp (K, I, sizeof I), "report", "amd_info changed its input");
        size_t p = t.find ("status:"); CHECK (p != std::string::npos, "report", "no status: " << t); std::string st = t.substr (p + 8, t.find ('\n', p) - p - 8); std::string want = I [AMD_STATUS] == AMD_OK ? "OK" : I [AMD_STATUS] == AMD_OUT_OF_MEMORY ? "out of memory" : I [AMD_STATUS] == AMD_INVALID ? "invalid matrix" : I [AMD_STATUS] == AMD_OK_BUT_JUMBLED ? "OK, but jumbled" : "unknown"; CHECK (st == want, "report", "status " << I [AMD_STATUS] << " is shown as \"" << st << "\"");
        std::ostringstream ver; ver << "AMD version " << AMD_MAIN_VERSION << "." << AMD_SUB_VERSION << "." << AMD_SUBSUB_VERSION << ","; version (t, ver.str ());
        has (t, "dimension of A:", I [AMD_N]); has (t, "number of nonzeros in A:", I [AMD_NZ]); has (t, "symmetry of A:", I [AMD_SYMMETRY], 6e-5); has (t, "nonzeros on diagonal:", I [AMD_NZDIAG]); has (t, "nonzeros in pattern of A+A'", I [AMD_NZ_A_PLUS_AT]); has (t, "dense rows/columns of A+A':", I [AMD_NDENSE]); has (t, "memory used, in bytes:", I [AMD_MEMORY]); has (t, "memory compactions:", I [AMD_NCMPA]);
        double n = I [AMD_N], l = I [AMD_LNZ], d = I [AMD_NDIV], ml = I [AMD_NMULTSUBS_LDL], mu = I [AMD_NMULTSUBS_LU]; has (t, "nonzeros in L (excluding diagonal):", l); has (t, "nonzeros in L (including diagonal):", n >= 0 && l >= 0 ? n + l : -1); has (t, "divide operations for LDL' or LU:", d); has (t, "multiply-subtract operations for LDL':", ml); has (t, "multiply-subtract operations for LU:", mu); has (t, "max nz. in any column of L", I [AMD_DMAX]);
        bool all = n >= 0 && d >= 0 && ml >= 0 && mu >= 0; auto fl = [&] (const char *k, double v) { has (t, k, all ? v : -1, v * 1e-14); }; fl ("chol flop count for real A", n + d + 2 * ml); fl ("LDL' flop count for real A:", d + 2 * ml); fl ("LDL' flop count for complex A:", 9 * d + 8 * ml); fl ("LU flop count for real A", d + 2 * mu); fl ("LU flop count for complex A", 9 * d + 8 * mu);
        tellit ([&] { if (lng) amd_l_info (NULL); else amd_info (NULL); }, "amd_info (no statistics)");
    }
    else if (which == 1)
    {
        c.label ("amd_control"); double C [AMD_CONTROL]; for (auto &x : C) x = 0; C [AMD_DENSE] = s.flip () ? (double) s.range (-3, 100) : 10; C [AMD_AGGRESSIVE] = (double) s.range (-1, 2); bool null = s.chance (1, 4); c.mix (C [0] * 10 + C [1]); double K [AMD_CONTROL]; memcpy (K, C, sizeof C);
        c.describe ([&] (std::ostream &o) { o << "amd_control " << C [0] << " " << C [1] << (null ? " (not given)" : ""); });
        std::string t = tellit ([&] { if (lng) amd_l_control (null ? NULL : C); else amd_control (null ? NULL : C); }, "amd_control"); CHECK (!memcmp (K, C, sizeof C), "report", "amd_control changed its input");
        double a = null ? AMD_DEFAULT_DENSE : C [AMD_DENSE]; bool g = null ? AMD_DEFAULT_AGGRESSIVE : C [AMD_AGGRESSIVE] != 0; size_t p = t.find ("dense row parameter:"); CHECK (p != std::string::npos && strtod (t.c_str () + p + 20, NULL) == a, "report", "dense row parameter " << a << ": " << t);
        CHECK ((t.find ("no rows treated as dense") != std::string::npos) == (a < 0), "report", "dense row parameter " << a << ": " << t); CHECK (t.find (g ? "aggressive absorption:  yes" : "aggressive absorption:  no") != std::string::npos, "report", "aggressive absorption is " << (g ? "on" : "off") << ": " << t);
        if (a >= 0) { p = t.find ("max ("); CHECK (p != std::string::npos && strtod (t.c_str () + p + 5, NULL) == a, "report", "dense row parameter " << a << ": " << t); }
        std::ostringstream ver; ver << "AMD version " << AMD_MAIN_VERSION << "." << AMD_SUB_VERSION << "." << AMD_SUBSUB_VERSION << ","; version (t, ver.str ());
        p = t.find ("size of AMD integer:"); CHECK (p != std::string::npos && atoi (t.c_str () + p + 20) == (lng ? 8 : 4), "report", "the integer size is wrong: " << t);
    }
    else
    {
        c.label ("colamd_report"); bool sym = s.flip (), null = s.chance (1, 10); int st = (int) s.oneof<int> ({COLAMD_OK, COLAMD_OK_BUT_JUMBLED, COLAMD_ERROR_A_not_present, COLAMD_ERROR_p_not_present, COLAMD_ERROR_nrow_negative, COLAMD_ERROR_ncol_negative, COLAMD_ERROR_nnz_negative, COLAMD_ERROR_p0_nonzero, COLAMD_ERROR_A_too_small, COLAMD_ERROR_col_length_negative, COLAMD_ERROR_row_index_out_of_bounds, COLAMD_ERROR_out_of_memory});
        int64_t k [COLAMD_STATS]; int S [COLAMD_STATS]; SuiteSparse_long L [COLAMD_STATS]; for (int i = 0; i < COLAMD_STATS; i++) { k [i] = s.chance (1, 4) ? (int64_t) s.draw ((uint64_t) 1 << s.range (1, lng ? 62 : 30)) : s.range (0, 100000); if (s.chance (1, 4)) k [i] = -k [i]; c.mix (k [i]); } k [COLAMD_STATUS] = st; for (int i = 0; i < COLAMD_STATS; i++) L [i] = k [i], S [i] = (int) k [i];
        c.mix (st); c.describe ([&] (std::ostream &o) { o << (sym ? "symamd" : "colamd") << "_report"; for (int64_t x : k) o << " " << x; }); const char *nm = sym ? "symamd" : "colamd"; 
        std::string t = tellit ([&] { if (lng) { if (sym) symamd_l_report (null ? NULL : L); else colamd_l_report (null ? NULL : L); } else { if (sym) symamd_report (null ? NULL : S); else colamd_report (null ? NULL : S); } }, "colamd_report");
        CHECK (t.find (nm) != std::string::npos, "report", "the report does not name its method: " << t); for (int i = 0; i < COLAMD_STATS; i++) CHECK (L [i] == k [i] && S [i] == (int) k [i], "report", "the statistics were changed");
        std::ostringstream ver; ver << nm << " version " << COLAMD_MAIN_VERSION << "." << COLAMD_SUB_VERSION << ","; version (t, ver.str ());
        if (null) { CHECK (t.find ("No statistics available") != std::string::npos, "report", t); return; }
        CHECK ((t.find ("OK.") != std::string::npos) == (st >= 0) && (t.find ("ERROR.") != std::string::npos) == (st < 0), "report", "status " << st << " is reported as: " << t);
        std::vector<int64_t> nums; size_t p = t.find (st >= 0 ? "OK." : "ERROR."); int64_t v; std::string u = t; for (size_t q; (q = u.find ("p [0]")) != std::string::npos; ) u.erase (q, 5); while (number (u, p, v)) nums.push_back (v);
        std::vector<int64_t> want; int64_t i1 = k [COLAMD_INFO1], i2 = k [COLAMD_INFO2], i3 = k [COLAMD_INFO3]; const char *phrase = "";
        switch (st)
        {
            case COLAMD_OK_BUT_JUMBLED: want = {i3, i2, i1, k [COLAMD_DENSE_ROW], k [COLAMD_DENSE_COL], k [COLAMD_DEFRAG_COUNT]}; phrase = "unsorted or duplicate"; break;
            case COLAMD_OK: want = {k [COLAMD_DENSE_ROW], k [COLAMD_DENSE_COL], k [COLAMD_DEFRAG_COUNT]}; break;
            case COLAMD_ERROR_A_not_present: phrase = "Array A"; break; case COLAMD_ERROR_p_not_present: phrase = "Array p"; break;
            case COLAMD_ERROR_nrow_negative: want = {i1}; phrase = "number of rows"; break; case COLAMD_ERROR_ncol_negative: want = {i1}; phrase = "number of columns"; break; case COLAMD_ERROR_nnz_negative: want = {i1}; phrase = "nonzero entries"; break;
            case COLAMD_ERROR_p0_nonzero: want = {i1}; phrase = "must be zero"; break; case COLAMD_ERROR_A_too_small: want = {i1, i2}; phrase = "too small"; break; case COLAMD_ERROR_col_length_negative: want = {i1, i2}; phrase = "negative number"; break;
            case COLAMD_ERROR_row_index_out_of_bounds: want = {i2, 0, i3 - 1, i1}; phrase = "out of bounds"; break; default: phrase = "Out of memory";
        }
        CHECK (t.find (phrase) != std::string::npos, "report", "status " << st << " is reported as: " << t); CHECK (nums == want, "report", "the numbers of status " << st << " with info " << i1 << " " << i2 << " " << i3 << " are reported as: " << t);
    }
}

static void run (Src &s, Ctx &c) { reports (s, c); }
Prop pbt::the_prop = {"O02", "a case is a report of amd_info, amd_control, colamd_report or symamd_report, in either integer width, of generated statistics or settings (or none), with and without a print function, parsed back; every case is non-trivial", 3000000, 10000000, run};
