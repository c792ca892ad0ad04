#include "drv.hh"
#include "GenericContainer/GenericContainerInterface_C.h"
#include <iostream>
#define A(n) ((*c.a)[n])

// container n of the script is the one with this name in the C interface
static char const * NAMES[NSLOT]{ "x", "xy", "", "X" };
static GCo * owned[NSLOT];
static bool  exists[NSLOT];
static bool at_begin{ (
  case_begin().push_back( []( Ctx & c ) {
    std::cerr.rdbuf(nullptr);
    for ( int n{0}; n < NSLOT; ++n ) { owned[n] = c.slot[n]; exists[n] = false; }
  } ),
  case_end().push_back( []( Ctx & c ) {
    for ( int n{0}; n < NSLOT; ++n ) { c.slot[n] = owned[n]; GC_delete( NAMES[n] ); }
  } ), true ) };

static void code( Ctx & c, int r ) { c.r += ','; eint(c.r,r); }
static void txt( Ctx & c, char const * s ) { if ( s ) { c.r += ','; ebytes(c.r,s); } }
static void num( Ctx & c, double d ) { c.r += ','; ereal(c.r,d); }
static void cpl( Ctx & c, c_complex_type z ) { c.r += ','; ecplx(c.r,{z.real,z.imag}); }

// On creation the content has to be located without disturbing the selection:
// a mark is written through the interface, which must appear in this container.
OP(c_new) {
  int const n{ int(A(0).i) };
  code( c, A(1).i ? GC_select( NAMES[n] ) : GC_new( NAMES[n] ) );
  if ( exists[n] ) return;
  GC_set_int( 4321 );
  auto * g = static_cast<GCo*>( GC_mem_ptr( NAMES[n] ) );
  if ( g->get_type() == GC_type::INTEGER && g->get_int() == 4321 ) g->clear();
  c.slot[n] = g; exists[n] = true;
}
OP(c_ptr) {
  int const n{ int(A(0).i) };
  auto * g = static_cast<GCo*>( GC_mem_ptr( NAMES[n] ) );
  code( c, exists[n] ? g == c.slot[n] : g != nullptr );
  c.slot[n] = g; exists[n] = true;
}
OP(c_delete) {
  int const n{ int(A(0).i) };
  c.slot[n] = owned[n]; exists[n] = false;
  code( c, GC_delete( NAMES[n] ) );
}
OP(c_fill) {
  int const n{ int(A(0).i) };
  code( c, GC_fill_for_test( NAMES[n] ) );
  if ( !exists[n] ) { c.slot[n] = static_cast<GCo*>( GC_mem_ptr( NAMES[n] ) ); exists[n] = true; }
}
OP(c_pop)   { code( c, GC_pop_head() ); }
OP(c_reset) { code( c, GC_reset_head() ); }
OP(c_dump)  { code( c, GC_dump() ); }
OP(c_types) { code( c, GC_print_content_types() ); }
OP(c_type)  { code( c, GC_get_type() ); }
OP(c_type_name) { txt( c, GC_get_type_name() ); }
OP(c_set) {
  switch ( A(0).i ) {
  case 2: code( c, GC_set_bool( A(1).i ? ( A(2).i ? -7 : 1 ) : 0 ) ); break;
  case 3: code( c, GC_set_int( int(A(1).i) ) ); break;
  case 5: code( c, GC_set_real( A(1).real() ) ); break;
  case 6: {
    auto z = A(1).cplx();
    if ( A(2).i ) { c_complex_type const t{ z.real(), z.imag() }; code( c, GC_set_complex(&t) ); }
    else code( c, GC_set_complex2( z.real(), z.imag() ) );
    break;
  }
  case 7: code( c, GC_set_string( A(1).bytes().c_str() ) ); break;
  }
}
OP(c_push) {
  switch ( A(0).i ) {
  case 2: code( c, GC_push_bool( A(1).i ? ( A(2).i ? -7 : 1 ) : 0 ) ); break;
  case 3: code( c, GC_push_int( int(A(1).i) ) ); break;
  case 5: code( c, GC_push_real( A(1).real() ) ); break;
  case 6: {
    auto z = A(1).cplx();
    if ( A(2).i ) { c_complex_type const t{ z.real(), z.imag() }; code( c, GC_push_complex(&t) ); }
    else code( c, GC_push_complex2( z.real(), z.imag() ) );
    break;
  }
  case 7: code( c, GC_push_string( A(1).bytes().c_str() ) ); break;
  }
}
OP(c_get) {
  std::string const & w{ A(0).s };
  if      ( w == "bool" ) code( c, GC_get_bool() );
  else if ( w == "int" ) code( c, GC_get_int() );
  else if ( w == "long" ) { c.r += ','; eword( c.r, uint64_t(GC_get_long()) ); }
  else if ( w == "real" ) num( c, GC_get_real() );
  else if ( w == "complex" ) cpl( c, GC_get_complex() );
  else if ( w == "re" ) num( c, GC_get_complex_re() );
  else if ( w == "im" ) num( c, GC_get_complex_im() );
  else txt( c, GC_get_string() );
}
OP(c_at) {
  std::string const & w{ A(0).s };
  int const p{ int(A(1).i) };
  if      ( w == "bool" ) code( c, GC_get_bool_at_pos(p) );
  else if ( w == "int" ) code( c, GC_get_int_at_pos(p) );
  else if ( w == "real" ) num( c, GC_get_real_at_pos(p) );
  else if ( w == "complex" ) cpl( c, GC_get_complex_at_pos(p) );
  else if ( w == "re" ) num( c, GC_get_complex_real_at_pos(p) );
  else if ( w == "im" ) num( c, GC_get_complex_imag_at_pos(p) );
  else txt( c, GC_get_string_at_pos(p) );
}
OP(c_coor) {
  std::string const & w{ A(0).s };
  int const p{ int(A(1).i) }, q{ int(A(2).i) };
  if      ( w == "real" ) num( c, GC_get_real_at_coor(p,q) );
  else if ( w == "complex" ) cpl( c, GC_get_complex_at_coor(p,q) );
  else if ( w == "re" ) num( c, GC_get_complex_real_at_coor(p,q) );
  else num( c, GC_get_complex_imag_at_coor(p,q) );
}
// [kind,elements] or, with the empty-vector calls, [kind,[],0]; [kind,[],-n]
OP(c_setvec) {
  J const & v{ A(1) };
  int const n{ c.a->size() > 2 && A(2).i < 0 ? int(A(2).i) : int(v.size()) };
  bool const e{ c.a->size() > 2 && A(2).i == 0 };
  switch ( A(0).i ) {
  case 9: { if ( e ) { code( c, GC_set_empty_vector_of_bool() ); break; }
    std::unique_ptr<int[]> x( new int[v.size()+1] ); for ( size_t i{0}; i < v.size(); ++i ) x[i] = v[i].i ? int(i+1) : 0;
    code( c, GC_set_vector_of_bool( x.get(), n ) ); break; }
  case 10: { if ( e ) { code( c, GC_set_empty_vector_of_int() ); break; }
    std::vector<int> x; for ( auto const & t : v.a ) x.push_back( int(t.i) );
    code( c, GC_set_vector_of_int( x.data(), n ) ); break; }
  case 12: { if ( e ) { code( c, GC_set_empty_vector_of_real() ); break; }
    std::vector<double> x; for ( auto const & t : v.a ) x.push_back( t.real() );
    code( c, GC_set_vector_of_real( x.data(), n ) ); break; }
  case 13: { if ( e ) { code( c, GC_set_empty_vector_of_complex() ); break; }
    std::vector<double> x, y; for ( auto const & t : v.a ) { x.push_back( t.cplx().real() ); y.push_back( t.cplx().imag() ); }
    code( c, GC_set_vector_of_complex( x.data(), y.data(), n ) ); break; }
  case 14: { if ( e ) { code( c, GC_set_empty_vector_of_string() ); break; }
    std::vector<std::string> x; std::vector<char const*> y; for ( auto const & t : v.a ) x.push_back( t.bytes() );
    for ( auto const & t : x ) y.push_back( t.c_str() );
    code( c, GC_set_vector_of_string( y.data(), n ) ); break; }
  }
}
OP(c_setvector) { code( c, A(1).i ? GC_set_empty_vector() : GC_set_vector( int(A(0).i) ) ); }
OP(c_setmap) { code( c, GC_set_map() ); }
OP(c_shape) { std::string const & w{ A(0).s }; code( c, w == "size" ? GC_get_vector_size() : w == "rows" ? GC_get_matrix_num_rows() : GC_get_matrix_num_cols() ); }
OP(c_pushpos) { code( c, GC_push_vector_position( int(A(0).i) ) ); }
OP(c_pushkey) { code( c, GC_push_map_position( A(0).bytes().c_str() ) ); }
OP(c_initkey) { code( c, GC_init_map_key() ); }
OP(c_nextkey) { txt( c, GC_get_next_key() ); }
