#include "drv.hh"
#include "GenericContainer/GenericContainerInterface_json.hh"
#include <cstdlib>
#include <fstream>
std::string scratch_file( std::string const & text );
#define A(n) ((*c.a)[n])

// [how,prefix]
OP(to_json) {
  GCo const & g{ *c.t };
  std::string const prefix{ A(1).bytes() };
  std::string res;
  switch ( A(0).i ) {
    case 1: GC_to_JSON( g, res ); break;
    case 2: { std::ostringstream s; GC_to_JSON( g, s ); res = s.str(); break; }
    case 3: { std::ostringstream s; g.to_json( s ); res = s.str(); break; }
    default: { std::ostringstream s; g.to_json( s, prefix ); res = s.str(); break; }
  }
  c.r += ','; ebytes(c.r,res);
}

static void verdict( Ctx & c, bool ok ) { if ( ok ) c.r += ",1"; else c.raw = "[\"err\"]"; }

// [text,how]
OP(from_json) {
  std::string const text{ A(0).bytes() };
  GCo & g{ *c.t };
  switch ( A(1).i ) {
    case 1: verdict( c, JSON_to_GC( text, g ) ); break;
    case 2: { std::istringstream s(text); verdict( c, JSON_to_GC( s, g ) ); break; }
    case 3: {
      std::string const fn{ scratch_file(text) };
      bool ok{false};
      try { ok = file_JSON_to_GC( fn, g ); } catch ( ... ) { unlink(fn.c_str()); throw; }
      unlink(fn.c_str());
      verdict( c, ok );
      break; }
    default: { std::istringstream s(text); verdict( c, g.from_json(s) ); break; }
  }
}
OP(from_json2) {
  std::istringstream s( A(0).bytes() );
  verdict( c, c.t->from_json2(s) );
}
