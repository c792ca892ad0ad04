/* Stand-in for the MATLAB C matrix API (separate complex storage), written from
   its published description: arrays own exactly sized blocks, column major. */
#ifndef MEX_STANDIN_H
#define MEX_STANDIN_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mxArray_tag mxArray;
typedef size_t mwSize;
typedef size_t mwIndex;
typedef ptrdiff_t mwSignedIndex;
typedef bool mxLogical;
typedef uint16_t mxChar;
typedef double mxDouble;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS,
  mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS,
  mxOPAQUE_CLASS, mxOBJECT_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
int mexPrintf( char const * fmt, ... );
void mexErrMsgTxt( char const * msg );
void mexWarnMsgTxt( char const * msg );
int mexCallMATLAB( int nlhs, mxArray * plhs[], int nrhs, mxArray * prhs[], char const * name );
void * mxMalloc( size_t n ); void * mxCalloc( size_t n, size_t size ); void mxFree( void * p );
void mxDestroyArray( mxArray * a );
size_t mxGetNumberOfElements( mxArray const * a ); mwSize mxGetNumberOfDimensions( mxArray const * a ); mwSize const * mxGetDimensions( mxArray const * a );
size_t mxGetM( mxArray const * a ); size_t mxGetN( mxArray const * a ); size_t mxGetElementSize( mxArray const * a );
mxClassID mxGetClassID( mxArray const * a ); char const * mxGetClassName( mxArray const * a ); bool mxIsClass( mxArray const * a, char const * name );
bool mxIsEmpty( mxArray const * a ); bool mxIsComplex( mxArray const * a ); bool mxIsSparse( mxArray const * a ); bool mxIsNumeric( mxArray const * a );
bool mxIsLogical( mxArray const * a ); bool mxIsChar( mxArray const * a ); bool mxIsCell( mxArray const * a ); bool mxIsStruct( mxArray const * a );
bool mxIsDouble( mxArray const * a ); bool mxIsSingle( mxArray const * a ); bool mxIsScalar( mxArray const * a );
bool mxIsInt8( mxArray const * a ); bool mxIsUint8( mxArray const * a ); bool mxIsInt16( mxArray const * a ); bool mxIsUint16( mxArray const * a );
bool mxIsInt32( mxArray const * a ); bool mxIsUint32( mxArray const * a ); bool mxIsInt64( mxArray const * a ); bool mxIsUint64( mxArray const * a );
bool mxIsLogicalScalar( mxArray const * a ); bool mxIsLogicalScalarTrue( mxArray const * a );
void * mxGetData( mxArray const * a ); void * mxGetImagData( mxArray const * a ); double * mxGetPr( mxArray const * a ); double * mxGetPi( mxArray const * a );
mxLogical * mxGetLogicals( mxArray const * a ); mxChar * mxGetChars( mxArray const * a ); double mxGetScalar( mxArray const * a );
mwIndex * mxGetIr( mxArray const * a ); mwIndex * mxGetJc( mxArray const * a ); mwSize mxGetNzmax( mxArray const * a );
mxArray * mxGetCell( mxArray const * a, mwIndex i ); void mxSetCell( mxArray * a, mwIndex i, mxArray * v );
int mxGetNumberOfFields( mxArray const * a ); char const * mxGetFieldNameByNumber( mxArray const * a, int n ); int mxGetFieldNumber( mxArray const * a, char const * name );
mxArray * mxGetFieldByNumber( mxArray const * a, mwIndex i, int n ); mxArray * mxGetField( mxArray const * a, mwIndex i, char const * name );
void mxSetFieldByNumber( mxArray * a, mwIndex i, int n, mxArray * v ); void mxSetField( mxArray * a, mwIndex i, char const * name, mxArray * v ); int mxAddField( mxArray * a, char const * name );
char * mxArrayToString( mxArray const * a ); char * mxArrayToUTF8String( mxArray const * a ); int mxGetString( mxArray const * a, char * buf, mwSize buflen );
mxArray * mxCreateNumericArray( mwSize nd, mwSize const * dims, mxClassID c, mxComplexity k ); mxArray * mxCreateNumericMatrix( mwSize m, mwSize n, mxClassID c, mxComplexity k );
mxArray * mxCreateDoubleMatrix( mwSize m, mwSize n, mxComplexity k ); mxArray * mxCreateDoubleScalar( double v );
mxArray * mxCreateLogicalScalar( mxLogical v ); mxArray * mxCreateLogicalMatrix( mwSize m, mwSize n ); mxArray * mxCreateLogicalArray( mwSize nd, mwSize const * dims );
mxArray * mxCreateString( char const * s ); mxArray * mxCreateStringFromNChars( char const * s, mwSize n ); mxArray * mxCreateCharArray( mwSize nd, mwSize const * dims );
mxArray * mxCreateCellMatrix( mwSize m, mwSize n ); mxArray * mxCreateCellArray( mwSize nd, mwSize const * dims );
mxArray * mxCreateStructMatrix( mwSize m, mwSize n, int nf, char const ** names ); mxArray * mxCreateStructArray( mwSize nd, mwSize const * dims, int nf, char const ** names );
mxArray * mxCreateSparse( mwSize m, mwSize n, mwSize nzmax, mxComplexity k ); mxArray * mxCreateSparseLogicalMatrix( mwSize m, mwSize n, mwSize nzmax );
mxArray * mxDuplicateArray( mxArray const * a );
#ifdef __cplusplus
}
#endif
#endif
