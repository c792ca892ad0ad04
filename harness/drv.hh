// Conformance driver: executes scripted operations on real containers and
// logs, for each, the reply and the content of every container it changed.
#pragma once
#include "GenericContainer/GenericContainer.hh"
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <cstdio>

using namespace GC_namespace;
using GCo = GenericContainer;

// ---- script values: integers, strings, arrays --------------------------------
struct J {
  enum { INT, STR, ARR } k{INT};
  long long i{0};
  std::string s;
  std::vector<J> a;
  size_t size() const { return a.size(); }
  J const & operator[]( size_t n ) const {
    if ( k != ARR || n >= a.size() ) { fprintf(stderr,"bad script argument\n"); _exit(3); }
    return a[n];
  }
  std::string bytes() const { std::string r; for ( auto const & e : a ) r += char(e.i); return r; }
  uint64_t word() const {
    return (uint64_t((*this)[0].i)<<48)|(uint64_t((*this)[1].i)<<32)|
           (uint64_t((*this)[2].i)<<16)|uint64_t((*this)[3].i);
  }
  double real() const { uint64_t w{word()}; double d; memcpy(&d,&w,8); return d; }
  std::complex<double> cplx() const { return { (*this)[0].real(), (*this)[1].real() }; }
  std::vector<std::string> strs() const { std::vector<std::string> r; for ( auto const & e : a ) r.push_back(e.bytes()); return r; }
};
J parse_json( char const * & p );

// pointers are never dereferenced: identifier p stands for this address
inline void * id2ptr( long long p ) { return reinterpret_cast<void*>(uintptr_t(p)*0x10001u); }
inline long long ptr2id( void const * p ) {
  auto u = reinterpret_cast<uintptr_t>(p);
  return u % 0x10001u == 0 && u/0x10001u < 30000 ? (long long)(u/0x10001u) : -1;
}

// ---- encoders -----------------------------------------------------------------
using S = std::string;
void eword( S & o, uint64_t w );
void ereal( S & o, double d );
void ecplx( S & o, std::complex<double> const & c );
void ebytes( S & o, std::string_view s );
void eint( S & o, long long i );
inline void epay( S & o, bool b ) { eint(o,b?1:0); }
inline void epay( S & o, int_type i ) { eint(o,i); }
inline void epay( S & o, long_type l ) { eword(o,uint64_t(l)); }
inline void epay( S & o, real_type r ) { ereal(o,r); }
inline void epay( S & o, complex_type const & c ) { ecplx(o,c); }
inline void epay( S & o, std::string const & s ) { ebytes(o,s); }
inline void epay( S & o, std::string_view s ) { ebytes(o,s); }
inline void epay( S & o, void * p ) { eint(o,ptr2id(p)); }
template <typename V> void eseq( S & o, V const & v ) {
  o += '['; bool f{true};
  for ( auto const & e : v ) { if ( !f ) o += ','; f = false; epay(o,e); }
  o += ']';
}
inline void eseq( S & o, std::vector<bool> const & v ) {
  o += '['; for ( size_t i{0}; i < v.size(); ++i ) { if ( i ) o += ','; eint(o,v[i]); } o += ']';
}
template <typename T> void emat( S & o, mat_type<T> const & m ) {
  eint(o,m.num_rows()); o += ','; eint(o,m.num_cols()); o += ',';
  eseq(o,static_cast<std::vector<T> const &>(m));
}
void eval( S & o, GCo const & g );          // content, via the public read-only API

void build( GCo & g, J const & v );         // content from a script value

inline void jpay( J const & j, bool & x ) { x = j.i != 0; }
inline void jpay( J const & j, int_type & x ) { x = int_type(j.i); }
inline void jpay( J const & j, long_type & x ) { x = long_type(j.word()); }
inline void jpay( J const & j, real_type & x ) { x = j.real(); }
inline void jpay( J const & j, complex_type & x ) { x = j.cplx(); }
inline void jpay( J const & j, std::string & x ) { x = j.bytes(); }
inline void jpay( J const & j, void * & x ) { x = id2ptr(j.i); }
template <typename T> std::vector<T> jvec( J const & j ) {
  std::vector<T> v; v.reserve(j.size());
  for ( auto const & e : j.a ) { T x; jpay(e,x); v.push_back(x); }
  return v;
}
template <typename T> mat_type<T> jmat( J const & nr, J const & nc, J const & data ) {
  mat_type<T> m( unsigned(nr.i), unsigned(nc.i) );
  for ( size_t n{0}; n < data.size(); ++n ) { T x; jpay(data[n],x); m[n] = x; }
  return m;
}

// ---- operations -----------------------------------------------------------------
constexpr int NSLOT = 4;
struct Ctx {
  GCo * slot[NSLOT];
  GCo * t{nullptr};     // target node
  GCo * o{nullptr};     // other node (two operand operations)
  J const * a{nullptr};
  S r;                 // reply after "ok": ",x,y"
  S raw;               // complete reply when not the default
};
using Op = std::function<void(Ctx&)>;
std::map<std::string,Op> & ops();
struct Reg { Reg( char const * n, Op f ) { ops()[n] = std::move(f); } };
// hooks run at the beginning / end of each case (additional interfaces)
std::vector<std::function<void(Ctx&)>> & case_begin();
std::vector<std::function<void(Ctx&)>> & case_end();
#define OP(NAME) static void op_##NAME( Ctx & c ); static Reg reg_##NAME( #NAME, op_##NAME ); static void op_##NAME( Ctx & c )
