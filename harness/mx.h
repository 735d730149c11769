// A small model of MATLAB's mxArray world: the functions declared in mexstub/mex.h.
// Blocks come from the tracked allocator; mexErrMsgTxt throws, and mx::call plays
// MATLAB's part after an error (every block of the failed call is taken back).
#pragma once
#include "ord.h"
#include <cstdarg>
extern "C" {
#include "mexstub/mex.h"
}
struct mxArray_tag
{
    mxClassID cls = mxDOUBLE_CLASS; bool sparse = false, complex = false; std::vector<mwSize> dims {0, 0};
    double *pr = NULL; mwIndex *ir = NULL, *jc = NULL; mwSize nzmax = 0; bool owned = false;     // owned: the blocks are mx blocks
    std::vector<mxArray *> cell; std::map<std::string, mxArray *> field; std::string text;
    mwSize m () const { return dims [0]; }
    mwSize n () const { mwSize k = 1; for (size_t q = 1; q < dims.size (); q++) k *= dims [q]; return k; }
    mwSize count () const { return m () * n (); }
};
namespace mx {
struct Error { std::string msg; };
static std::set<mxArray *> made;            // created by the gateways and not destroyed
static std::string printed;
inline void *give (size_t n, bool zero) { void *p = zero ? mem::Calloc (n ? n : 1, 1) : mem::Malloc (n ? n : 1); if (!p) throw Error {"Out of memory."}; return p; }
inline void destroy (mxArray *a)
{
    if (!a) return; for (auto c : a->cell) destroy (c); for (auto &f : a->field) destroy (f.second);
    if (a->owned) { mem::Free (a->pr); mem::Free (a->ir); mem::Free (a->jc); } else { delete [] a->pr; delete [] a->ir; delete [] a->jc; }
    made.erase (a); delete a;
}
inline mxArray *create () { mxArray *a = new mxArray_tag; a->owned = true; made.insert (a); return a; }
// input arrays, made by the harness
struct Del { void operator () (mxArray *a) const { destroy (a); } };
typedef std::unique_ptr<mxArray, Del> In;
inline mxArray *raw (mwSize m, mwSize n) { mxArray *a = new mxArray_tag; a->dims = {m, n}; return a; }
inline In full (mwSize m, mwSize n, const std::vector<double> &v) { mxArray *a = raw (m, n); a->pr = new double [v.size ()]; std::copy (v.begin (), v.end (), a->pr); return In (a); }
inline In scalar (double v) { return full (1, 1, {v}); }
inline In str (const std::string &t) { mxArray *a = raw (1, t.size ()); a->cls = mxCHAR_CLASS; a->text = t; return In (a); }
inline In strct () { mxArray *a = raw (1, 1); a->cls = mxSTRUCT_CLASS; return In (a); }
inline In sparse (mwSize m, const std::vector<std::vector<std::pair<int64_t, double>>> &col, mwSize extra = 0)
{
    mxArray *a = raw (m, col.size ()); a->sparse = true; size_t nz = 0; for (auto &c : col) nz += c.size ();
    a->nzmax = std::max<size_t> (nz + extra, 1); a->pr = new double [a->nzmax]; a->ir = new mwIndex [a->nzmax]; a->jc = new mwIndex [col.size () + 1]; size_t p = 0; std::fill (a->pr, a->pr + a->nzmax, 1.5); std::fill (a->ir, a->ir + a->nzmax, (mwIndex) 1 << 40);
    for (size_t j = 0; j < col.size (); j++) { a->jc [j] = p; for (auto &e : col [j]) { a->ir [p] = e.first; a->pr [p++] = e.second; } } a->jc [col.size ()] = p; return In (a);
}
inline std::string snap (const mxArray *a)
{
    if (!a) return "-"; std::string t = std::to_string (a->cls) + (a->sparse ? "s" : "") + (a->complex ? "c" : "") + a->text; for (auto d : a->dims) t += "," + std::to_string (d);
    auto put = [&] (const void *p, size_t n) { if (p) t.append ((const char *) p, n); else t += "null"; };
    if (a->sparse) { put (a->pr, a->nzmax * 8); put (a->ir, a->nzmax * 8); put (a->jc, (a->n () + 1) * 8); } else if (a->cls == mxDOUBLE_CLASS) put (a->pr, a->count () * 8);
    for (auto &f : a->field) t += f.first + "=" + snap (f.second); return t;
}
// one call of a gateway, as MATLAB makes it
struct Result { bool error = false; std::string msg; std::vector<mxArray *> out; size_t left = 0;
    Result () {} Result (const Result &) = delete; Result (Result &&o) : error (o.error), msg (o.msg), out (o.out), left (o.left) { o.out.clear (); } ~Result () { for (auto a : out) destroy (a); } };
typedef void (*Gate) (int, mxArray **, int, const mxArray **);
inline size_t blocks_of (const mxArray *a) { if (!a) return 0; size_t k = (a->pr != NULL) + (a->ir != NULL) + (a->jc != NULL); for (auto c : a->cell) k += blocks_of (c); return k; }
inline Result call (Gate g, int nout, std::vector<const mxArray *> in)
{
    Result r; r.out.assign (std::max (nout, 1), NULL); std::vector<const mxArray *> keep = in; in.push_back (NULL); printed.clear (); size_t before = mem::outstanding ();
    mxArray *none [8]; for (auto &x : none) x = NULL; mp_set_memory_functions (0, 0, 0);
    try { mem::inside++; g (nout, none, (int) keep.size (), in.data ()); mem::inside--; } catch (Error &e) { mem::inside--; r.error = true; r.msg = e.msg; }
    mp_set_memory_functions (0, 0, 0);
    for (size_t k = 0; k < r.out.size (); k++) r.out [k] = none [k];
    if (r.error)
    {   // MATLAB takes back everything the call left behind
        for (auto &x : r.out) x = NULL; while (!made.empty ()) { mxArray *a = *made.begin (); made.erase (a); delete a; }
        std::vector<void *> all; for (auto &b : mem::live) all.push_back (b.first); for (auto p : all) mem::Free (p);
    }
    else { size_t own = 0; for (auto a : r.out) own += blocks_of (a); r.left = mem::outstanding () - before - own; }
    return r;
}
}
extern "C" {
void *mxMalloc (size_t n) { return mx::give (n, false); }
void *mxCalloc (size_t n, size_t s) { if (s && n > SIZE_MAX / s) throw mx::Error {"Out of memory."}; return mx::give (n * s, true); }
void *mxRealloc (void *p, size_t n) { void *q = p ? mem::Realloc (p, n ? n : 1) : mem::Malloc (n ? n : 1); if (!q) throw mx::Error {"Out of memory."}; return q; }
void mxFree (void *p) { if (p) mem::Free (p); }
void mexMakeMemoryPersistent (void *) {}
bool mxIsComplex (const mxArray *a) { return a->complex; } bool mxIsSparse (const mxArray *a) { return a->sparse; } bool mxIsEmpty (const mxArray *a) { return a->count () == 0; } bool mxIsStruct (const mxArray *a) { return a->cls == mxSTRUCT_CLASS; }
bool mxIsChar (const mxArray *a) { return a->cls == mxCHAR_CLASS; } bool mxIsDouble (const mxArray *a) { return a->cls == mxDOUBLE_CLASS; } bool mxIsNumeric (const mxArray *a) { return a->cls >= mxDOUBLE_CLASS; } bool mxIsLogical (const mxArray *a) { return a->cls == mxLOGICAL_CLASS; } bool mxIsCell (const mxArray *a) { return a->cls == mxCELL_CLASS; } bool mxIsScalar (const mxArray *a) { return a->count () == 1; }
mxClassID mxGetClassID (const mxArray *a) { return a->cls; }
const char *mxGetClassName (const mxArray *a) { static const char *n [] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}; return n [a->cls]; }
bool mxIsClass (const mxArray *a, const char *c) { return !strcmp (mxGetClassName (a), c); }
bool mxIsInf (double x) { return std::isinf (x); } bool mxIsNaN (double x) { return std::isnan (x); } bool mxIsFinite (double x) { return std::isfinite (x); } double mxGetInf (void) { return INFINITY; } double mxGetNaN (void) { return NAN; } double mxGetEps (void) { return 0x1p-52; }
size_t mxGetM (const mxArray *a) { return a->m (); } size_t mxGetN (const mxArray *a) { return a->n (); } size_t mxGetNumberOfElements (const mxArray *a) { return a->count (); } size_t mxGetNumberOfDimensions (const mxArray *a) { return a->dims.size (); }
const mwSize *mxGetDimensions (const mxArray *a) { return a->dims.data (); } mwSize mxGetNzmax (const mxArray *a) { return a->nzmax; }
mwIndex *mxGetJc (const mxArray *a) { return a->jc; } mwIndex *mxGetIr (const mxArray *a) { return a->ir; } double *mxGetPr (const mxArray *a) { return a->pr; }
double *mxGetDoubles (const mxArray *a) { return a->cls == mxDOUBLE_CLASS && !a->complex ? a->pr : NULL; } void *mxGetData (const mxArray *a) { return a->pr; }
double mxGetScalar (const mxArray *a) { if (a->cls == mxCHAR_CLASS) return a->text.empty () ? 0 : a->text [0]; return a->pr && a->count () ? a->pr [0] : 0; }
int mxGetString (const mxArray *a, char *b, mwSize len) { if (a->cls != mxCHAR_CLASS || !len) return 1; size_t k = std::min<size_t> (a->text.size (), len - 1); memcpy (b, a->text.data (), k); b [k] = 0; return k < a->text.size (); }
char *mxArrayToString (const mxArray *a) { if (a->cls != mxCHAR_CLASS) return NULL; char *t = (char *) mx::give (a->text.size () + 1, false); strcpy (t, a->text.c_str ()); return t; }
mxArray *mxGetField (const mxArray *a, mwIndex, const char *f) { auto q = a->field.find (f); return q == a->field.end () ? NULL : q->second; }
mxArray *mxGetCell (const mxArray *a, mwIndex k) { return a->cell.at (k); }
void mxSetPr (mxArray *a, double *p) { if (p && mem::size_of (p) == (size_t) -1) pbt::fail ("gateway", "an array was given a block that is not MATLAB's"); a->pr = p; }
int mxSetDoubles (mxArray *a, double *p) { mxSetPr (a, p); return 1; }
void mxSetM (mxArray *a, mwSize m) { a->dims [0] = m; } void mxSetN (mxArray *a, mwSize n) { a->dims [1] = n; }
void mxSetCell (mxArray *a, mwIndex k, mxArray *v) { a->cell.at (k) = v; mx::made.erase (v); }
mxArray *mxCreateDoubleMatrix (mwSize m, mwSize n, mxComplexity c) { mxArray *a = mx::create (); a->dims = {m, n}; a->complex = c == mxCOMPLEX; a->pr = m * n ? (double *) mx::give (m * n * 8, true) : NULL; return a; }
mxArray *mxCreateDoubleScalar (double v) { mxArray *a = mxCreateDoubleMatrix (1, 1, mxREAL); a->pr [0] = v; return a; }
mxArray *mxCreateCellMatrix (mwSize m, mwSize n) { mxArray *a = mx::create (); a->cls = mxCELL_CLASS; a->dims = {m, n}; a->cell.assign (m * n, NULL); return a; }
mxArray *mxCreateString (const char *t) { mxArray *a = mx::create (); a->cls = mxCHAR_CLASS; a->text = t; a->dims = {1, a->text.size ()}; return a; }
mxArray *mxDuplicateArray (const mxArray *) { pbt::fail ("gateway", "duplicating arrays is not modelled"); }
void mxDestroyArray (mxArray *a) { if (a && !mx::made.count (a)) pbt::fail ("gateway", "an input (or an array already destroyed) was destroyed"); mx::destroy (a); }
void mexErrMsgTxt (const char *t) { throw mx::Error {t ? t : ""}; }
void mexErrMsgIdAndTxt (const char *, const char *f, ...) { char b [4096]; va_list ap; va_start (ap, f); vsnprintf (b, sizeof b, f, ap); va_end (ap); throw mx::Error {b}; }
void mexWarnMsgTxt (const char *) {}
int mexPrintf (const char *f, ...) { char b [65536]; va_list ap; va_start (ap, f); int r = vsnprintf (b, sizeof b, f, ap); va_end (ap); mem::Own o; mx::printed += b; return r; }
int mexCallMATLAB (int nout, mxArray **outv, int nin, mxArray **in, const char *f)
{
    if (strcmp (f, "sparse") || nout != 1 || nin != 1) pbt::fail ("gateway", std::string ("call of MATLAB function ") + f);
    const mxArray *a = in [0]; mxArray *b = mx::create (); b->dims = {a->m (), a->n ()}; b->sparse = true; size_t nz = 0; for (size_t k = 0; k < a->count (); k++) nz += a->pr [k] != 0;
    b->nzmax = std::max<size_t> (nz, 1); b->pr = (double *) mx::give (b->nzmax * 8, false); b->ir = (mwIndex *) mx::give (b->nzmax * 8, false); b->jc = (mwIndex *) mx::give ((a->n () + 1) * 8, false); size_t p = 0;
    for (size_t j = 0; j < a->n (); j++) { b->jc [j] = p; for (size_t i = 0; i < a->m (); i++) if (a->pr [i + j * a->m ()] != 0) { b->ir [p] = i; b->pr [p++] = a->pr [i + j * a->m ()]; } } b->jc [a->n ()] = p; outv [0] = b; return 0;
}
}
