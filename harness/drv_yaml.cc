#include "drv.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include <cstdlib>
#include <fstream>
#define A(n) ((*c.a)[n])
std::string scratch_file( std::string const & text );

OP(to_yaml) {
  GCo const & g{ *c.t };
  std::string const prefix{ A(1).bytes() };
  std::string res;
  switch ( A(0).i ) {
    case 1: GC_to_YAML( g, res ); break;
    case 2: { std::ostringstream s; GC_to_YAML( g, s ); res = s.str(); break; }
    case 3: { std::ostringstream s; g.to_yaml( s ); res = s.str(); break; }
    default: { std::ostringstream s; g.to_yaml( s, prefix ); res = s.str(); break; }
  }
  c.r += ','; ebytes(c.r,res);
}
static void verdict( Ctx & c, bool ok ) { if ( ok ) c.r += ",1"; else c.raw = "[\"err\"]"; }
OP(from_yaml) {
  std::string const text{ A(0).bytes() };
  GCo & g{ *c.t };
  switch ( A(1).i ) {
    case 1: verdict( c, YAML_to_GC( text, g ) ); break;
    case 2: { std::istringstream s(text); verdict( c, YAML_to_GC( s, g ) ); break; }
    case 3: {
      std::string const fn{ scratch_file(text) };
      bool ok{false};
      try { ok = file_YAML_to_GC( fn, g ); } catch ( ... ) { unlink(fn.c_str()); throw; }
      unlink(fn.c_str());
      verdict( c, ok );
      break; }
    default: { std::istringstream s(text); verdict( c, g.from_yaml(s) ); break; }
  }
}
