// MATLAB interface, over the stand-in of the matrix API in mex/
#include "drv.hh"
#include "GenericContainer/GenericContainerInterface_matlab.hh"
#include <iostream>
#include "standin.hh"
#define A(n) ((*c.a)[n])

// ---- script and log form of arrays -----------------------------------------------
static char const * const NAMES[]{ "unknown","cell","struct","logical","char","void","double","single","int8","uint8","int16","uint16","int32","uint32","int64","uint64" };
static mxClassID classid( std::string const & s ) { for ( int n{0}; n < 16; ++n ) if ( s == NAMES[n] ) return mxClassID(n); fprintf(stderr,"bad class\n"); _exit(3); }
static void put( char * p, size_t i, mxClassID c, J const & x ) {
  auto set = [&]( auto v ) { memcpy( p+i*sizeof v, &v, sizeof v ); };
  switch ( c ) {
  case mxLOGICAL_CLASS: set( mxLogical(x.i != 0) ); break; case mxDOUBLE_CLASS: set( x.real() ); break; case mxSINGLE_CLASS: set( float(x.real()) ); break;
  case mxINT8_CLASS: case mxUINT8_CLASS: set( uint8_t(x.word()) ); break; case mxINT16_CLASS: case mxUINT16_CLASS: set( uint16_t(x.word()) ); break;
  case mxINT32_CLASS: case mxUINT32_CLASS: set( uint32_t(x.word()) ); break; default: set( uint64_t(x.word()) ); }
}
template <typename T> static T at( char const * p, size_t i ) { T v; memcpy(&v,p+i*sizeof v,sizeof v); return v; }
static void get( S & o, char const * p, size_t i, mxClassID c ) {
  switch ( c ) {
  case mxLOGICAL_CLASS: eint(o,p[i]?1:0); break; case mxDOUBLE_CLASS: ereal(o,at<double>(p,i)); break; case mxSINGLE_CLASS: ereal(o,at<float>(p,i)); break;
  case mxINT8_CLASS: eword(o,uint64_t(int64_t(at<int8_t>(p,i)))); break; case mxUINT8_CLASS: eword(o,at<uint8_t>(p,i)); break;
  case mxINT16_CLASS: eword(o,uint64_t(int64_t(at<int16_t>(p,i)))); break; case mxUINT16_CLASS: eword(o,at<uint16_t>(p,i)); break;
  case mxINT32_CLASS: eword(o,uint64_t(int64_t(at<int32_t>(p,i)))); break; case mxUINT32_CLASS: eword(o,at<uint32_t>(p,i)); break;
  default: eword(o,at<uint64_t>(p,i)); }
}
static std::vector<mwSize> jdims( J const & d ) { std::vector<mwSize> v; for ( auto const & x : d.a ) v.push_back( mwSize(x.i) ); return v; }
static mxArray * jmx( J const & m ) {
  std::string const & k{ m[0].s };
  if ( k == "nul" ) return nullptr;
  if ( k == "num" ) {
    mxClassID const c{ classid(m[1].s) }; bool const z{ m[2].i != 0 }; mxArray * a{ numeric(c,jdims(m[3]),z) };
    for ( size_t i{0}; i < m[4].size(); ++i ) if ( z ) { put(a->re,i,c,m[4][i][0]); put(a->im,i,c,m[4][i][1]); } else put(a->re,i,c,m[4][i]);
    return a;
  }
  if ( k == "char" ) { mxArray * a{ numeric(mxCHAR_CLASS,jdims(m[1]),false) }; for ( size_t i{0}; i < m[2].size(); ++i ) reinterpret_cast<mxChar*>(a->re)[i] = mxChar(m[2][i].i); return a; }
  if ( k == "cell" ) { auto d = jdims(m[1]); mxArray * a{ mxCreateCellArray(d.size(),d.data()) }; for ( size_t i{0}; i < m[2].size(); ++i ) a->cells.at(i) = jmx(m[2][i]); return a; }
  if ( k == "struct" ) {
    auto d = jdims(m[1]); mxArray * a{ mxCreateStructArray(d.size(),d.data(),0,nullptr) };
    for ( auto const & n : m[2].a ) mxAddField( a, n.bytes().c_str() );
    size_t p{0}; for ( auto const & e : m[3].a ) for ( auto const & f : e.a ) a->cells.at(p++) = jmx(f);
    return a;
  }
  if ( k == "sparse" ) {
    mxClassID const c{ classid(m[1].s) }; bool const z{ m[2].i != 0 }; size_t const nz{ m[7].size() }; mxArray * a{ sparse(mwSize(m[3].i),mwSize(m[4].i),nz,c,z) };
    for ( size_t i{0}; i < m[5].size(); ++i ) a->jc[i] = mwIndex(m[5][i].i);
    for ( size_t i{0}; i < nz; ++i ) { a->ir[i] = mwIndex(m[6][i].i); if ( z ) { put(a->re,i,c,m[7][i][0]); put(a->im,i,c,m[7][i][1]); } else put(a->re,i,c,m[7][i]); }
    return a;
  }
  mxArray * a{ make(mxUNKNOWN_CLASS,{1,1}) };
  a->object = k == "str" ? "string" : "datetime"; if ( k == "str" ) a->text = m[1].bytes();
  return a;
}
static void edims( S & o, mxArray const * a ) { o += '['; bool f{true}; for ( auto d : a->dims ) { if ( !f ) o += ','; f = false; eint(o,(long long)d); } o += ']'; }
static void emx( S & o, mxArray const * a ) {
  if ( !a ) { o += "[\"nul\"]"; return; }
  use(a); size_t const n{ mxGetNumberOfElements(a) };
  auto list = [&]( size_t m, auto f ) { o += '['; for ( size_t i{0}; i < m; ++i ) { if ( i ) o += ','; f(i); } o += ']'; };
  if ( a->cls == mxCHAR_CLASS ) { o += "[\"char\","; edims(o,a); o += ','; list(n,[&]( size_t i ) { eint(o,reinterpret_cast<mxChar*>(a->re)[i]); }); o += ']'; }
  else if ( a->cls == mxCELL_CLASS ) { o += "[\"cell\","; edims(o,a); o += ','; list(n,[&]( size_t i ) { emx(o,a->cells[i]); }); o += ']'; }
  else if ( a->cls == mxSTRUCT_CLASS ) {
    size_t const nf{ a->names.size() };
    o += "[\"struct\","; edims(o,a); o += ','; list(nf,[&]( size_t i ) { ebytes(o,a->names[i]); }); o += ',';
    list(n,[&]( size_t e ) { list(nf,[&]( size_t i ) { emx(o,a->cells[e*nf+i]); }); }); o += ']';
  } else {
    o += "[\"num\",\""; o += NAMES[a->cls]; o += "\","; eint(o,a->cplx); o += ','; edims(o,a); o += ',';
    list(n,[&]( size_t i ) { if ( a->cplx ) { o += '['; get(o,a->re,i,a->cls); o += ','; get(o,a->im,i,a->cls); o += ']'; } else get(o,a->re,i,a->cls); }); o += ']';
  }
}
// the end of a MEX call: the matrix API frees what was not freed
struct Call {
  std::ostringstream said; std::streambuf * old;
  Call() : old( std::cout.rdbuf(said.rdbuf()) ) { printed.clear(); }
  ~Call() { std::cout.rdbuf(old); done(); }
  static void done() {
    std::set<mxArray*> top(arrays);
    for ( auto * a : arrays ) for ( auto * e : a->cells ) top.erase(e);
    for ( auto * a : top ) mxDestroyArray(a);
    for ( auto * p : std::set<void*>(blocks) ) mxFree(p);
    std::string().swap(printed);
  }
  void quiet( S & r ) { r += said.str().empty() ? ",0" : ",1"; }
};
OP(mx_in) { Call k; mxArray * m{ jmx(A(0)) }; mxArray_to_GenericContainer( m, *c.t ); k.quiet(c.r); }
OP(mx_sparse) { Call k; mxArray * m{ jmx(A(0)) }; mxSparse_to_GenericContainer( m, *c.t ); k.quiet(c.r); }
OP(mx_out) { Call k; GCo const & g{ *c.t }; mxArray * m{ nullptr }; GenericContainer_to_mxArray( g, m ); c.r += ','; emx(c.r,m); k.quiet(c.r); }
OP(mx_rt) { Call k; GCo const & g{ *c.o }; mxArray * m{ nullptr }; GenericContainer_to_mxArray( g, m ); mxArray_to_GenericContainer( m, *c.t ); k.quiet(c.r); }
OP(mx_print) { Call k; GCo const & g{ *c.t }; mexPrint( g ); c.r += ','; ebytes( c.r, printed ); k.quiet(c.r); }
OP(mx_val) {   // the overloads of to_mxArray
  Call k; GCo const & g{ *c.t }; mxArray * m{ nullptr };
  switch ( int(g.get_type()) ) {
  case 2: to_mxArray( g.get_bool(), m ); break; case 3: to_mxArray( g.get_int(), m ); break; case 4: to_mxArray( g.get_long(), m ); break;
  case 5: to_mxArray( g.get_real(), m ); break; case 6: to_mxArray( g.get_complex(), m ); break;
  case 7: { std::string_view const s{ g.get_string() }; std::vector<char> v( s.begin(), s.end() ); v.shrink_to_fit(); to_mxArray( std::string_view(v.data(),v.size()), m ); break; }
  case 9: to_mxArray( g.get_vec_bool(), m ); break; case 10: to_mxArray( g.get_vec_int(), m ); break; case 11: to_mxArray( g.get_vec_long(), m ); break;
  case 12: to_mxArray( g.get_vec_real(), m ); break; case 13: to_mxArray( g.get_vec_complex(), m ); break; case 14: to_mxArray( g.get_vec_string(), m ); break;
  case 15: to_mxArray( g.get_mat_int(), m ); break; case 16: to_mxArray( g.get_mat_long(), m ); break; case 17: to_mxArray( g.get_mat_real(), m ); break; case 18: to_mxArray( g.get_mat_complex(), m ); break;
  default: break;
  }
  c.r += ','; emx(c.r,m); k.quiet(c.r);
}
