// shared by O01 and O02: reading what was printed
#pragma once
#include "shallow.h"
#include <unistd.h>
extern "C" {
#include "amd.h"
#include "colamd.h"
}
// bytes written to the process's own output so far (the worker's output is a file), -1 if unknown
static long stray () { fflush (stdout); fflush (stderr); return (long) lseek (1, 0, SEEK_CUR); }
static bool number (const std::string &t, size_t &p, int64_t &v) { while (p < t.size () && !isdigit (t [p]) && !(t [p] == '-' && p + 1 < t.size () && isdigit (t [p + 1]))) p++; if (p >= t.size ()) return false; char *e; v = strtoll (t.c_str () + p, &e, 10); p = e - t.c_str (); return true; }
