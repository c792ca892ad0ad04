// Stand-in for the matrix API of MATLAB
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include "mex.h"

struct mxArray_tag {
  mxClassID cls{mxDOUBLE_CLASS};
  bool cplx{false}, sparse{false};
  std::vector<mwSize> dims;
  char * re{nullptr}; char * im{nullptr};
  mwIndex * ir{nullptr}; mwIndex * jc{nullptr}; mwSize nz{0};
  std::vector<mxArray*> cells;                 // cells, or fields of each element in turn
  std::vector<std::string> names;
  std::string object;                          // class of an opaque object; its text
  std::string text;
};
static std::set<mxArray*> arrays;              // those not yet destroyed
static std::set<void*> blocks;
static std::string printed;
static mxArray * make( mxClassID c, std::vector<mwSize> d ) { auto * a = new mxArray_tag; a->cls = c; while ( d.size() < 2 ) d.push_back(1); while ( d.size() > 2 && d.back() == 1 ) d.pop_back(); a->dims = d; arrays.insert(a); return a; }
static size_t esize( mxClassID c ) {
  switch ( c ) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
  case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; default: return 8; }
}
[[noreturn]] static void bad( char const * what ) { fprintf(stderr,"ERROR: matrix API misused: %s\n",what); abort(); }
static mxArray const * use( mxArray const * a ) { if ( !a || !arrays.count(const_cast<mxArray*>(a)) ) bad("no such array"); return a; }
static mxArray * numeric( mxClassID c, std::vector<mwSize> d, bool k ) {
  mxArray * a{ make(c,d) }; a->cplx = k; size_t n{1}; for ( auto x : a->dims ) n *= x;
  a->re = static_cast<char*>(calloc( n ? n : 1, n ? esize(c) : 1 )); if ( k ) a->im = static_cast<char*>(calloc( n ? n : 1, n ? esize(c) : 1 ));
  return a;
}
extern "C" {
int mexPrintf( char const * fmt, ... ) { char b[4096]; va_list ap; va_start(ap,fmt); va_list ap2; va_copy(ap2,ap); int n{ vsnprintf(b,sizeof b,fmt,ap) }; va_end(ap);
  if ( n >= int(sizeof b) ) { std::string s( size_t(n)+1, 0 ); vsnprintf(&s[0],s.size(),fmt,ap2); s.pop_back(); printed += s; } else printed += b; va_end(ap2); return n; }
void mexErrMsgTxt( char const * msg ) { throw std::runtime_error(msg); }
void mexWarnMsgTxt( char const * msg ) { printed += msg; }
void * mxCalloc( size_t n, size_t z ) { void * p{ calloc(n?n:1,z?z:1) }; blocks.insert(p); return p; }
void * mxMalloc( size_t n ) { return mxCalloc(n,1); }
void mxFree( void * p ) { if ( !p ) return; if ( !blocks.erase(p) ) bad("mxFree"); free(p); }
void mxDestroyArray( mxArray * a ) { if ( !a ) return; if ( !arrays.erase(a) ) bad("mxDestroyArray"); for ( auto * e : a->cells ) mxDestroyArray(e); free(a->re); free(a->im); free(a->ir); free(a->jc); delete a; }
size_t mxGetNumberOfElements( mxArray const * a ) { size_t n{1}; for ( auto x : use(a)->dims ) n *= x; return n; }
mwSize mxGetNumberOfDimensions( mxArray const * a ) { return use(a)->dims.size(); }
mwSize const * mxGetDimensions( mxArray const * a ) { return use(a)->dims.data(); }
size_t mxGetM( mxArray const * a ) { return use(a)->dims[0]; }
size_t mxGetN( mxArray const * a ) { size_t n{1}; for ( size_t i{1}; i < use(a)->dims.size(); ++i ) n *= a->dims[i]; return n; }
size_t mxGetElementSize( mxArray const * a ) { return esize(use(a)->cls); }
mxClassID mxGetClassID( mxArray const * a ) { return use(a)->cls; }
char const * mxGetClassName( mxArray const * a ) {
  static char const * n[]{ "unknown","cell","struct","logical","char","void","double","single","int8","uint8","int16","uint16","int32","uint32","int64","uint64","function_handle","opaque","object" };
  return use(a)->object.empty() ? n[a->cls] : a->object.c_str(); }
bool mxIsClass( mxArray const * a, char const * name ) { return std::string(mxGetClassName(a)) == name || ( std::string(name) == "numeric" && mxIsNumeric(a) ); }
bool mxIsEmpty( mxArray const * a ) { return mxGetNumberOfElements(a) == 0; }
bool mxIsComplex( mxArray const * a ) { return use(a)->cplx; }
bool mxIsSparse( mxArray const * a ) { return use(a)->sparse; }
bool mxIsNumeric( mxArray const * a ) { return use(a)->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
#define IS(F,C) bool F( mxArray const * a ) { return use(a)->cls == C; }
IS(mxIsLogical,mxLOGICAL_CLASS) IS(mxIsChar,mxCHAR_CLASS) IS(mxIsCell,mxCELL_CLASS) IS(mxIsStruct,mxSTRUCT_CLASS) IS(mxIsDouble,mxDOUBLE_CLASS) IS(mxIsSingle,mxSINGLE_CLASS)
IS(mxIsInt8,mxINT8_CLASS) IS(mxIsUint8,mxUINT8_CLASS) IS(mxIsInt16,mxINT16_CLASS) IS(mxIsUint16,mxUINT16_CLASS) IS(mxIsInt32,mxINT32_CLASS) IS(mxIsUint32,mxUINT32_CLASS) IS(mxIsInt64,mxINT64_CLASS) IS(mxIsUint64,mxUINT64_CLASS)
bool mxIsScalar( mxArray const * a ) { return mxGetNumberOfElements(a) == 1; }
bool mxIsLogicalScalar( mxArray const * a ) { return mxIsLogical(a) && mxIsScalar(a); }
bool mxIsLogicalScalarTrue( mxArray const * a ) { return mxIsLogicalScalar(a) && a->re[0]; }
void * mxGetData( mxArray const * a ) { return use(a)->re; }
void * mxGetImagData( mxArray const * a ) { return use(a)->im; }
double * mxGetPr( mxArray const * a ) { return reinterpret_cast<double*>(use(a)->re); }
double * mxGetPi( mxArray const * a ) { return reinterpret_cast<double*>(use(a)->im); }
mxLogical * mxGetLogicals( mxArray const * a ) { return mxIsLogical(a) ? reinterpret_cast<mxLogical*>(a->re) : nullptr; }
mxChar * mxGetChars( mxArray const * a ) { return mxIsChar(a) ? reinterpret_cast<mxChar*>(a->re) : nullptr; }
double mxGetScalar( mxArray const * a ) {
  if ( !mxGetNumberOfElements(a) || !a->re ) return 0;
  switch ( a->cls ) { case mxDOUBLE_CLASS: return *reinterpret_cast<double*>(a->re); case mxSINGLE_CLASS: return *reinterpret_cast<float*>(a->re); case mxINT8_CLASS: return *reinterpret_cast<int8_t*>(a->re);
  case mxLOGICAL_CLASS: case mxUINT8_CLASS: return *reinterpret_cast<uint8_t*>(a->re); case mxINT16_CLASS: return *reinterpret_cast<int16_t*>(a->re); case mxCHAR_CLASS: case mxUINT16_CLASS: return *reinterpret_cast<uint16_t*>(a->re);
  case mxINT32_CLASS: return *reinterpret_cast<int32_t*>(a->re); case mxUINT32_CLASS: return *reinterpret_cast<uint32_t*>(a->re); case mxINT64_CLASS: return double(*reinterpret_cast<int64_t*>(a->re)); case mxUINT64_CLASS: return double(*reinterpret_cast<uint64_t*>(a->re)); default: return 0; } }
mwIndex * mxGetIr( mxArray const * a ) { return use(a)->ir; }
mwIndex * mxGetJc( mxArray const * a ) { return use(a)->jc; }
mwSize mxGetNzmax( mxArray const * a ) { return use(a)->nz; }
mxArray * mxGetCell( mxArray const * a, mwIndex i ) { if ( !mxIsCell(a) || i >= a->cells.size() ) bad("mxGetCell"); return a->cells[i]; }
void mxSetCell( mxArray * a, mwIndex i, mxArray * v ) { if ( !mxIsCell(a) || i >= a->cells.size() ) bad("mxSetCell"); a->cells[i] = v; }
int mxGetNumberOfFields( mxArray const * a ) { return int(use(a)->names.size()); }
char const * mxGetFieldNameByNumber( mxArray const * a, int n ) { return n < 0 || size_t(n) >= use(a)->names.size() ? nullptr : a->names[n].c_str(); }
int mxGetFieldNumber( mxArray const * a, char const * name ) { for ( size_t n{0}; n < use(a)->names.size(); ++n ) if ( a->names[n] == name ) return int(n); return -1; }
mxArray * mxGetFieldByNumber( mxArray const * a, mwIndex i, int n ) { if ( !mxIsStruct(a) || n < 0 || size_t(n) >= a->names.size() || i >= mxGetNumberOfElements(a) ) return nullptr; return a->cells[i*a->names.size()+n]; }
mxArray * mxGetField( mxArray const * a, mwIndex i, char const * name ) { return mxGetFieldByNumber(a,i,mxGetFieldNumber(a,name)); }
void mxSetFieldByNumber( mxArray * a, mwIndex i, int n, mxArray * v ) { if ( !mxIsStruct(a) || n < 0 || size_t(n) >= a->names.size() || i >= mxGetNumberOfElements(a) ) bad("mxSetFieldByNumber"); a->cells[i*a->names.size()+n] = v; }
void mxSetField( mxArray * a, mwIndex i, char const * name, mxArray * v ) { mxSetFieldByNumber(a,i,mxGetFieldNumber(a,name),v); }
int mxAddField( mxArray * a, char const * name ) {
  std::vector<mxArray*> n; size_t const f{ a->names.size() };
  for ( size_t e{0}; e < mxGetNumberOfElements(a); ++e ) { for ( size_t k{0}; k < f; ++k ) n.push_back( a->cells[e*f+k] ); n.push_back(nullptr); }
  a->cells.swap(n); a->names.push_back(name); return int(f); }
static std::string chars( mxArray const * a ) { std::string s; auto * p = reinterpret_cast<mxChar*>(a->re); for ( size_t i{0}; i < mxGetNumberOfElements(a); ++i ) s += char(p[i]); return s; }
char * mxArrayToString( mxArray const * a ) { if ( !mxIsChar(a) ) return nullptr; std::string s{ chars(a) }; char * p{ static_cast<char*>(mxCalloc(s.size()+1,1)) }; memcpy(p,s.data(),s.size()); return p; }
char * mxArrayToUTF8String( mxArray const * a ) { return mxArrayToString(a); }
int mxGetString( mxArray const * a, char * buf, mwSize n ) { if ( !mxIsChar(a) || n == 0 ) { if ( n ) buf[0] = 0; return 1; } std::string s{ chars(a) }; bool const cut{ s.size() > n-1 }; if ( cut ) s.resize(n-1); memcpy(buf,s.data(),s.size()); buf[s.size()] = 0; return cut ? 1 : 0; }
mxArray * mxCreateNumericArray( mwSize nd, mwSize const * dims, mxClassID c, mxComplexity k ) { return numeric(c,std::vector<mwSize>(dims,dims+nd),k == mxCOMPLEX); }
mxArray * mxCreateNumericMatrix( mwSize m, mwSize n, mxClassID c, mxComplexity k ) { return numeric(c,{m,n},k == mxCOMPLEX); }
mxArray * mxCreateDoubleMatrix( mwSize m, mwSize n, mxComplexity k ) { return numeric(mxDOUBLE_CLASS,{m,n},k == mxCOMPLEX); }
mxArray * mxCreateDoubleScalar( double v ) { mxArray * a{ numeric(mxDOUBLE_CLASS,{1,1},false) }; *mxGetPr(a) = v; return a; }
mxArray * mxCreateLogicalScalar( mxLogical v ) { mxArray * a{ numeric(mxLOGICAL_CLASS,{1,1},false) }; a->re[0] = v; return a; }
mxArray * mxCreateLogicalMatrix( mwSize m, mwSize n ) { return numeric(mxLOGICAL_CLASS,{m,n},false); }
mxArray * mxCreateLogicalArray( mwSize nd, mwSize const * dims ) { return numeric(mxLOGICAL_CLASS,std::vector<mwSize>(dims,dims+nd),false); }
mxArray * mxCreateStringFromNChars( char const * s, mwSize n ) { mxArray * a{ numeric(mxCHAR_CLASS,{n?mwSize(1):mwSize(0),n},false) }; auto * p = reinterpret_cast<mxChar*>(a->re); for ( mwSize i{0}; i < n; ++i ) p[i] = (unsigned char)s[i]; return a; }
mxArray * mxCreateString( char const * s ) { return mxCreateStringFromNChars(s,strlen(s)); }
mxArray * mxCreateCharArray( mwSize nd, mwSize const * dims ) { return numeric(mxCHAR_CLASS,std::vector<mwSize>(dims,dims+nd),false); }
mxArray * mxCreateCellArray( mwSize nd, mwSize const * dims ) { mxArray * a{ make(mxCELL_CLASS,std::vector<mwSize>(dims,dims+nd)) }; a->cells.resize( mxGetNumberOfElements(a) ); return a; }
mxArray * mxCreateCellMatrix( mwSize m, mwSize n ) { mwSize d[2]{m,n}; return mxCreateCellArray(2,d); }
mxArray * mxCreateStructArray( mwSize nd, mwSize const * dims, int nf, char const ** names ) { mxArray * a{ make(mxSTRUCT_CLASS,std::vector<mwSize>(dims,dims+nd)) }; for ( int n{0}; n < nf; ++n ) a->names.push_back(names[n]); a->cells.resize( mxGetNumberOfElements(a)*size_t(nf) ); return a; }
mxArray * mxCreateStructMatrix( mwSize m, mwSize n, int nf, char const ** names ) { mwSize d[2]{m,n}; return mxCreateStructArray(2,d,nf,names); }
static mxArray * sparse( mwSize m, mwSize n, mwSize nz, mxClassID c, bool k ) {
  mxArray * a{ make(c,{m,n}) }; a->cplx = k; a->sparse = true; a->nz = nz;
  a->re = static_cast<char*>(calloc(nz?nz:1,nz?esize(c):1)); if ( k ) a->im = static_cast<char*>(calloc(nz?nz:1,nz?esize(c):1));
  a->ir = static_cast<mwIndex*>(calloc(nz?nz:1,nz?sizeof(mwIndex):1)); a->jc = static_cast<mwIndex*>(calloc(n+1,sizeof(mwIndex))); return a; }
mxArray * mxCreateSparse( mwSize m, mwSize n, mwSize nz, mxComplexity k ) { return sparse(m,n,nz,mxDOUBLE_CLASS,k == mxCOMPLEX); }
mxArray * mxCreateSparseLogicalMatrix( mwSize m, mwSize n, mwSize nz ) { return sparse(m,n,nz,mxLOGICAL_CLASS,false); }
mxArray * mxDuplicateArray( mxArray const * a ) {
  use(a); mxArray * b{ new mxArray_tag(*a) }; arrays.insert(b); size_t const n{ a->sparse ? a->nz : mxGetNumberOfElements(a) };
  auto dup = [&]( auto * p, size_t z ) { if ( !p ) return p; auto * q = static_cast<decltype(p)>(calloc(z?z:1,1)); memcpy(q,p,z); return q; };
  b->re = dup(a->re,n*esize(a->cls)); b->im = dup(a->im,n*esize(a->cls)); b->ir = dup(a->ir,a->nz*sizeof(mwIndex)); b->jc = dup(a->jc,(mxGetN(a)+1)*sizeof(mwIndex));
  for ( auto & e : b->cells ) if ( e ) e = mxDuplicateArray(e); return b; }
int mexCallMATLAB( int nlhs, mxArray * plhs[], int nrhs, mxArray * prhs[], char const * name ) {
  if ( nlhs != 1 || nrhs != 1 || std::string(name) != "char" || use(prhs[0])->object != "string" ) return 1;
  plhs[0] = mxCreateStringFromNChars( prhs[0]->text.data(), prhs[0]->text.size() ); return 0; }
}

