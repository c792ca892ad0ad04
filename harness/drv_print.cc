#include "drv.hh"
#include <iostream>
#include <iomanip>
#define A(n) ((*c.a)[n])

// args: prefix, indent, how, precision, base
template <typename F, typename S>
static void report( Ctx & c, F on_stream, S to_str ) {
  int const how( A(2).i ), base( A(4).i );
  if ( how == 2 ) { c.r += ','; ebytes( c.r, base == 0 ? to_str() : ( to_str(), std::string() ) ); c.r += ",1"; return; }
  std::ostringstream s;
  s.precision( A(3).i );
  if ( base == 1 ) s << std::hex;
  if ( base == 2 ) s << std::oct << std::showbase;
  if ( base == 3 ) s << std::hex << std::uppercase << std::showpos << std::setfill('*') << std::left;
  if ( base == 4 ) s << std::scientific << std::boolalpha;
  auto const f{ s.flags() }; auto const p{ s.precision() }; auto const fill{ s.fill() }; auto const w{ s.width() };
  on_stream( s, how );
  bool const same{ f == s.flags() && p == s.precision() && fill == s.fill() && w == s.width() && s.good() };
  c.r += ','; ebytes( c.r, base == 0 ? s.str() : std::string() );
  c.r += same ? ",1" : ",0";
}
OP(dump) {
  GCo const & g{ *c.t };
  std::string const pre{ A(0).bytes() }, ind{ A(1).bytes() };
  report( c,
    [&]( std::ostream & s, int how ) { if ( how == 3 ) g.dump( s ); else if ( how == 1 ) g.print( s, pre, ind ); else g.dump( s, pre, ind ); },
    [&]{ return g.print( pre, ind ); } );
}
OP(types) {
  GCo const & g{ *c.t };
  std::string const pre{ A(0).bytes() }, ind{ A(1).bytes() };
  auto fun = [&]( std::ostream & s, int how ) { if ( how == 3 ) g.print_content_types( s ); else g.print_content_types( s, pre, ind ); };
  report( c, fun, [&]{ std::ostringstream s; fun(s,0); return s.str(); } );
}
OP(info) {
  GCo const & g{ *c.t };
  report( c, [&]( std::ostream & s, int ) { g.info( s ); }, [&]{
    std::string const res{ g.info() };
    switch ( int(g.get_type()) ) { // the matrix describes itself in the same way
    case 15: return res == g.get_mat_int().info()     ? res : std::string("differ");
    case 16: return res == g.get_mat_long().info()    ? res : std::string("differ");
    case 17: return res == g.get_mat_real().info()    ? res : std::string("differ");
    case 18: return res == g.get_mat_complex().info() ? res : std::string("differ");
    }
    return res; } );
}
