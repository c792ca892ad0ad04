#include "drv.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
#include "lua.hpp"
#include <cstdlib>
#include <memory>
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
static size_t allocated() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t allocated() { return 0; }
#endif
#define A(n) ((*c.a)[n])
std::string scratch_file( std::string const & text );
using GC_namespace::LuaInterpreter;

static std::unique_ptr<LuaInterpreter> L;
static char const SETUP[] =
  "function id(x) return x end\n"
  "function two(x) return x, 5 end\n"
  "function none(x) end\n"
  "function wrap(x) return {x} end\n"
  "function mapk(x) return {k=x} end\n"
  "function pair(x) return {0,x} end\n"
  "function fail(x) error('boom') end\n"
  "function failt(x) error({1,2}) end\n";
static bool at_begin{ ( case_begin().push_back( []( Ctx & ) { L.reset( new LuaInterpreter ); L->execute(SETUP); } ),
                        case_end().push_back( []( Ctx & ) { L.reset(); } ), true ) };

static std::string name( J const & j ) { return j.bytes(); }
static std::string quoted( std::string const & s ) {
  std::string r{"\""};
  for ( unsigned char ch : s ) { char b[8]; snprintf(b,sizeof(b),"\\%03u",unsigned(ch)); r += b; }
  return r + "\"";
}
OP(lua_set) { L->GC_to_global( *c.t, name(A(0)).c_str() ); }
OP(lua_get) { L->global_to_GC( name(A(0)).c_str(), *c.t ); }
static std::string command( Ctx & c ) {
  std::string const & w{ A(0).s };
  std::string const x{ name(A(1)) }, y{ name(A(2)) };
  if ( w == "copy" ) return x + " = " + y;
  if ( w == "del" ) return x + " = nil";
  if ( w == "id" || w == "wrap" || w == "mapk" || w == "pair" ) return x + " = " + w + "(" + y + ")";
  if ( w == "len" ) return x + " = #" + y;
  if ( w == "field" ) return x + " = " + y + "[" + quoted(A(3).bytes()) + "]";
  if ( w == "elem" ) return x + " = " + y + "[" + std::to_string(A(3).i) + "]";
  if ( w == "error" ) return x + " = 1; error('boom')";
  if ( w == "errt" ) return "error({})";
  return x + " = = 1";
}
OP(lua_cmd) {
  std::string const & w{ A(0).s };
  if ( w == "error" ) { L->execute( "error('boom')" ); return; }
  if ( w == "file" || w == "filebad" || w == "fileerr" ) {
    std::string const fn{ scratch_file( name(A(1)) + ( w == "file" ? " = " : w == "filebad" ? " = = " : "(); error() -- " ) + std::to_string(A(3).i) + "\n" ) };
    try { L->do_file( fn.c_str() ); } catch ( ... ) { unlink(fn.c_str()); throw; }
    unlink(fn.c_str());
    return;
  }
  if ( w == "nofile" ) { L->do_file( "/nonexistent/dir/x.lua" ); return; }
  L->execute( command(c).c_str() );
}
OP(lua_call) {
  GCo io;
  io["function"].set_string( A(0).s );
  io["args"] = *c.o;
  L->call( io, *c.t );
}
OP(lua_callx) { L->call( *c.o, *c.t ); }

// the interpreter does not accumulate anything: repeated use keeps its size
OP(lua_leak) {
  std::string const & w{ A(0).s };
  GCo io, res, val;
  io["function"].set_string( w == "callfail" ? "fail" : "id" );
  io["args"] = *c.t;
  lua_State * own{ nullptr };
  auto once = [&]{
    try {
      if ( w == "call" || w == "callfail" ) L->call( io, res );
      else if ( w == "set" ) L->GC_to_global( *c.t, "tmp" );
      else if ( w == "get" ) L->global_to_GC( "tmp", res );
      else if ( w == "getnil" ) L->global_to_GC( "undefined", res );
      else if ( w == "getfun" ) L->global_to_GC( "id", res );
      else if ( w == "exec" ) L->execute( "tmp2 = 1" );
      else if ( w == "execfail" ) L->execute( "error('boom')" );
      else if ( w == "syntax" ) L->execute( "= = =" );
      else if ( w == "nofile" ) L->do_file( "/nonexistent/dir/x.lua" );
      else if ( w == "badcall" ) L->call( val, res );
    } catch ( ... ) {}
  };
  if ( w == "own" ) {
    own = luaL_newstate();
    int top{0};
    for ( int n{0}; n < 40; ++n ) {
      try { Lua_GC_to_global( own, *c.t, "v" ); } catch ( ... ) {}
      top += lua_gettop(own);
      try { Lua_global_to_GC( own, "v", res ); } catch ( ... ) {}
      top += lua_gettop(own);
      try { Lua_global_to_GC( own, "undefined", res ); } catch ( ... ) {}
      top += lua_gettop(own);
    }
    lua_close(own);
    c.r += top == 0 ? ",1" : ",0";
    return;
  }
  if ( w == "get" ) { val.set_int(1); L->GC_to_global( c.t->get_type() == GC_type::NOTYPE ? val : *c.t, "tmp" ); }
  auto settle = [&]{ res.clear(); L->execute("collectgarbage() collectgarbage()"); return long(allocated()); };
  for ( int n{0}; n < 100; ++n ) once();
  long const a0{ settle() };
  for ( int n{0}; n < 3000; ++n ) once();
  long const a1{ settle() };
  L->execute("tmp = nil tmp2 = nil collectgarbage()");
  c.r += a1-a0 < 20000 ? ",1" : ",0";
}
