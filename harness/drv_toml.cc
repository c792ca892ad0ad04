#include "drv.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
#include <cstdlib>
#include <fstream>
#define A(n) ((*c.a)[n])
std::string scratch_file( std::string const & text );

OP(to_toml) {
  GCo const & g{ *c.t };
  std::string res;
  bool ok{true};
  switch ( A(0).i ) {
    case 1: GC_to_TOML( g, res ); ok = !res.empty() || ( g.get_type() == GC_type::MAP && g.get_map().empty() ); break;
    case 2: { std::ostringstream s; GC_to_TOML( g, s ); res = s.str(); ok = !res.empty() || ( g.get_type() == GC_type::MAP && g.get_map().empty() ); break; }
    default: { std::ostringstream s; ok = g.to_toml( s ); res = s.str(); break; }
  }
  if ( ok ) { c.r += ','; ebytes(c.r,res); } else c.raw = "[\"err\"]";
}
static void verdict( Ctx & c, bool ok ) { if ( ok ) c.r += ",1"; else c.raw = "[\"err\"]"; }
OP(from_toml) {
  std::string const text{ A(0).bytes() };
  GCo & g{ *c.t };
  switch ( A(1).i ) {
    case 1: verdict( c, TOML_to_GC( text, g ) ); break;
    case 2: { std::istringstream s(text); verdict( c, TOML_to_GC( s, g ) ); break; }
    case 3: {
      std::string const fn{ scratch_file(text) };
      bool ok{false};
      try { ok = file_TOML_to_GC( fn, g ); } catch ( ... ) { unlink(fn.c_str()); throw; }
      unlink(fn.c_str());
      verdict( c, ok );
      break; }
    default: { std::istringstream s(text); verdict( c, g.from_toml(s) ); break; }
  }
}
