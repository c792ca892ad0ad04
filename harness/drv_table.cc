#include "drv.hh"
#include <iostream>
#define A(n) ((*c.a)[n])
std::string scratch_file( std::string const & text );

OP(twrite) {
  GCo const & g{ *c.t };
  char const d{ char(A(0).i) };
  std::ostringstream s; s.precision( A(1).i );
  switch ( A(2).i ) {
    case 0: g.write_formatted_data( s, d ); break;
    case 3: if ( d == '\t' ) g.write_formatted_data( s ); else g.writeFormattedData( s, d ); break;
    default: {
      vec_string_type const & h{ g("headers").get_vec_string() };
      GCo const & data{ g("data") };
      bool const mat{ data.get_type() == GC_type::MAT_REAL };
      switch ( A(2).i ) {
      case 1: if ( mat ) write_table( h, data.get_mat_real(), s, d ); else write_table( h, data.get_vector(), s, d ); break;
      case 4: if ( mat ) writeTable( h, data.get_mat_real(), s, d ); else writeTable( h, data.get_vector(), s, d ); break;
      case 5: if ( mat ) writeTableFormatted( h, data.get_mat_real(), s ); else writeTableFormatted( h, data.get_vector(), s ); break;
      default: if ( mat ) write_table_formatted( h, data.get_mat_real(), s ); else write_table_formatted( h, data.get_vector(), s );
      }
    }
  }
  c.r += ','; ebytes(c.r,s.str());
}
// how: 0 stream, 1 file, 2 stream with the default separators; +3: the deprecated names
template <typename IN> static void table_read( GCo & g, IN && in, char const * cc, char const * dl, GCo * pars, bool two, bool old, bool def ) {
  if ( def && !pars ) {
    if ( two ) { if ( old ) g.readFormattedData2( in ); else g.read_formatted_data2( in ); }
    else       { if ( old ) g.readFormattedData( in );  else g.read_formatted_data( in ); }
  } else {
    if ( two ) { if ( old ) g.readFormattedData2( in, cc, dl, pars ); else g.read_formatted_data2( in, cc, dl, pars ); }
    else       { if ( old ) g.readFormattedData( in, cc, dl );        else g.read_formatted_data( in, cc, dl ); }
  }
}
static void table_read( Ctx & c, bool two ) {
  std::string const text{ A(0).bytes() }, cc{ A(1).bytes() }, dl{ A(2).bytes() };
  bool const old{ A(3).i >= 3 }, def{ cc == "#%" && dl == " \t" && A(3).i % 3 != 0 };
  if ( A(3).i % 3 == 1 ) {
    std::string const fn{ scratch_file(text) };
    try { table_read( *c.t, fn.c_str(), cc.c_str(), dl.c_str(), c.o, two, old, def ); }
    catch ( ... ) { unlink(fn.c_str()); throw; }
    unlink(fn.c_str());
  } else {
    std::istringstream s(text);
    table_read( *c.t, s, cc.c_str(), dl.c_str(), c.o, two, old, def );
  }
}
OP(tread)  { table_read( c, false ); }
OP(tread2) { table_read( c, true ); }
