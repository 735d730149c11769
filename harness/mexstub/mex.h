/* Stand-in for MATLAB's mex.h and matrix.h (interleaved-complex interface), enough
   to run the gateways of this repository; implemented in ../mx.h. */
#ifndef MEXSTUB_H
#define MEXSTUB_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mxArray_tag mxArray ;
typedef size_t mwSize, mwIndex ;
typedef ptrdiff_t mwSignedIndex ;
typedef bool mxLogical ;
typedef uint16_t mxChar ;
typedef double mxDouble ;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS } mxClassID ;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity ;
void *mxMalloc (size_t) ; void *mxCalloc (size_t, size_t) ; void *mxRealloc (void *, size_t) ; void mxFree (void *) ;
void mexMakeMemoryPersistent (void *) ;
bool mxIsComplex (const mxArray *) ; bool mxIsSparse (const mxArray *) ; bool mxIsEmpty (const mxArray *) ; bool mxIsStruct (const mxArray *) ;
bool mxIsChar (const mxArray *) ; bool mxIsDouble (const mxArray *) ; bool mxIsNumeric (const mxArray *) ; bool mxIsLogical (const mxArray *) ; bool mxIsCell (const mxArray *) ; bool mxIsScalar (const mxArray *) ;
bool mxIsClass (const mxArray *, const char *) ; mxClassID mxGetClassID (const mxArray *) ; const char *mxGetClassName (const mxArray *) ;
bool mxIsInf (double) ; bool mxIsNaN (double) ; bool mxIsFinite (double) ; double mxGetInf (void) ; double mxGetNaN (void) ; double mxGetEps (void) ;
size_t mxGetM (const mxArray *) ; size_t mxGetN (const mxArray *) ; size_t mxGetNumberOfElements (const mxArray *) ; size_t mxGetNumberOfDimensions (const mxArray *) ;
const mwSize *mxGetDimensions (const mxArray *) ; mwSize mxGetNzmax (const mxArray *) ;
mwIndex *mxGetJc (const mxArray *) ; mwIndex *mxGetIr (const mxArray *) ; double *mxGetPr (const mxArray *) ; double *mxGetDoubles (const mxArray *) ; void *mxGetData (const mxArray *) ;
double mxGetScalar (const mxArray *) ; int mxGetString (const mxArray *, char *, mwSize) ; char *mxArrayToString (const mxArray *) ;
mxArray *mxGetField (const mxArray *, mwIndex, const char *) ; mxArray *mxGetCell (const mxArray *, mwIndex) ;
int mxSetDoubles (mxArray *, double *) ; void mxSetPr (mxArray *, double *) ; void mxSetM (mxArray *, mwSize) ; void mxSetN (mxArray *, mwSize) ; void mxSetCell (mxArray *, mwIndex, mxArray *) ;
mxArray *mxCreateDoubleMatrix (mwSize, mwSize, mxComplexity) ; mxArray *mxCreateDoubleScalar (double) ; mxArray *mxCreateCellMatrix (mwSize, mwSize) ; mxArray *mxCreateString (const char *) ; mxArray *mxDuplicateArray (const mxArray *) ;
void mxDestroyArray (mxArray *) ;
void mexErrMsgTxt (const char *) ; void mexErrMsgIdAndTxt (const char *, const char *, ...) ; void mexWarnMsgTxt (const char *) ; int mexPrintf (const char *, ...) ;
int mexCallMATLAB (int, mxArray *[], int, mxArray *[], const char *) ;
void mexFunction (int, mxArray *[], int, const mxArray *[]) ;
#define mxAssert(e, m)
#ifdef __cplusplus
}
#endif
#endif
