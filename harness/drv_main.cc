#include "drv.hh"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <thread>
#if !defined(VERIF_TSAN) && __has_include(<sanitizer/allocator_interface.h>)
#include <sanitizer/allocator_interface.h>
#define ALLOCATED() __sanitizer_get_current_allocated_bytes()
#endif

std::map<std::string,Op> & ops() { static std::map<std::string,Op> m; return m; }
std::vector<std::function<void(Ctx&)>> & case_begin() { static std::vector<std::function<void(Ctx&)>> v; return v; }
std::vector<std::function<void(Ctx&)>> & case_end() { static std::vector<std::function<void(Ctx&)>> v; return v; }

J parse_json( char const * & p ) {
  auto ws = [&]{ while ( *p == ' ' || *p == '\n' || *p == '\r' ) ++p; };
  J j; ws();
  if ( *p == '[' ) {
    j.k = J::ARR; ++p; ws();
    if ( *p == ']' ) { ++p; return j; }
    for (;;) {
      j.a.push_back( parse_json(p) ); ws();
      if ( *p == ',' ) { ++p; continue; }
      if ( *p == ']' ) { ++p; return j; }
      fprintf(stderr,"bad script\n"); _exit(3);
    }
  } else if ( *p == '"' ) {
    j.k = J::STR; ++p; while ( *p && *p != '"' ) j.s += *p++; ++p; return j;
  } else {
    char * e; j.i = strtoll(p,&e,10);
    if ( e == p ) { fprintf(stderr,"bad script: %.20s\n",p); _exit(3); }
    p = e; return j;
  }
}

void eint( S & o, long long i ) { char b[32]; snprintf(b,sizeof b,"%lld",i); o += b; }
void eword( S & o, uint64_t w ) {
  char b[64];
  snprintf(b,sizeof b,"[%u,%u,%u,%u]",unsigned(w>>48),unsigned((w>>32)&0xffff),unsigned((w>>16)&0xffff),unsigned(w&0xffff));
  o += b;
}
void ereal( S & o, double d ) {
  uint64_t w; memcpy(&w,&d,8);
  if ( std::isnan(d) ) w = 0x7ff8000000000000ull;
  eword(o,w);
}
void ecplx( S & o, std::complex<double> const & c ) { o += '['; ereal(o,c.real()); o += ','; ereal(o,c.imag()); o += ']'; }
void ebytes( S & o, std::string_view s ) {
  o += '['; bool f{true};
  for ( char ch : s ) { if ( !f ) o += ','; f = false; eint(o,(unsigned char)ch); }
  o += ']';
}

void eval( S & o, GCo const & g ) {
  int k{ int(g.get_type()) };
  o += '['; eint(o,k);
  switch ( k ) {
  case 0: break;
  case 1: o += ','; epay(o,g.get_pvoid()); break;
  case 2: o += ','; epay(o,g.get_bool()); break;
  case 3: o += ','; epay(o,g.get_int()); break;
  case 4: o += ','; epay(o,g.get_long()); break;
  case 5: o += ','; epay(o,g.get_real()); break;
  case 6: o += ','; epay(o,g.get_complex()); break;
  case 7: o += ','; epay(o,g.get_string()); break;
  case 8: o += ','; eseq(o,g.get_vec_pointer()); break;
  case 9: o += ','; eseq(o,g.get_vec_bool()); break;
  case 10: o += ','; eseq(o,g.get_vec_int()); break;
  case 11: o += ','; eseq(o,g.get_vec_long()); break;
  case 12: o += ','; eseq(o,g.get_vec_real()); break;
  case 13: o += ','; eseq(o,g.get_vec_complex()); break;
  case 14: o += ','; eseq(o,g.get_vec_string()); break;
  case 15: o += ','; emat(o,g.get_mat_int()); break;
  case 16: o += ','; emat(o,g.get_mat_long()); break;
  case 17: o += ','; emat(o,g.get_mat_real()); break;
  case 18: o += ','; emat(o,g.get_mat_complex()); break;
  case 19: {
    o += ",["; bool f{true};
    for ( GCo const & e : g.get_vector() ) { if ( !f ) o += ','; f = false; eval(o,e); }
    o += ']'; break;
  }
  case 20: {
    o += ",["; bool f{true};
    for ( auto const & e : g.get_map() ) {
      if ( !f ) o += ','; f = false;
      o += '['; ebytes(o,e.first); o += ','; eval(o,e.second); o += ']';
    }
    o += ']'; break;
  }
  default: break;
  }
  o += ']';
}

void build( GCo & g, J const & v ) {
  switch ( int(v[0].i) ) {
  case 0: g.clear(); break;
  case 1: g.set_pointer( id2ptr(v[1].i) ); break;
  case 2: g.set_bool( v[1].i != 0 ); break;
  case 3: g.set_int( int_type(v[1].i) ); break;
  case 4: g.set_long( long_type(v[1].word()) ); break;
  case 5: g.set_real( v[1].real() ); break;
  case 6: g.set_complex( v[1][0].real(), v[1][1].real() ); break;
  case 7: g.set_string( v[1].bytes() ); break;
  case 8: g.clear(); g.set_vec_pointer( jvec<pointer_type>(v[1]) ); break;
  case 9: g.clear(); g.set_vec_bool( jvec<bool>(v[1]) ); break;
  case 10: g.clear(); g.set_vec_int( jvec<int_type>(v[1]) ); break;
  case 11: g.clear(); g.set_vec_long( jvec<long_type>(v[1]) ); break;
  case 12: g.clear(); g.set_vec_real( jvec<real_type>(v[1]) ); break;
  case 13: g.clear(); g.set_vec_complex( jvec<complex_type>(v[1]) ); break;
  case 14: g.clear(); g.set_vec_string( jvec<std::string>(v[1]) ); break;
  case 15: g.clear(); g.set_mat_int( jmat<int_type>(v[1],v[2],v[3]) ); break;
  case 16: g.clear(); g.set_mat_long( jmat<long_type>(v[1],v[2],v[3]) ); break;
  case 17: g.clear(); g.set_mat_real( jmat<real_type>(v[1],v[2],v[3]) ); break;
  case 18: g.clear(); g.set_mat_complex( jmat<complex_type>(v[1],v[2],v[3]) ); break;
  case 19: {
    g.clear();
    vector_type & x{ g.set_vector( unsigned(v[1].size()) ) };
    for ( size_t n{0}; n < v[1].size(); ++n ) build( x.at(n), v[1][n] );
    break;
  }
  case 20: {
    g.clear();
    map_type & m{ g.set_map() };
    for ( auto const & e : v[1].a ) build( m[e[0].bytes()], e[1] );
    break;
  }
  default: fprintf(stderr,"bad value kind\n"); _exit(3);
  }
}

// resolve selectors: at each level n picks an element of a list or a map;
// a string picks that key
static GCo * resolve( Ctx & c, J const & ref, S & path ) {
  GCo * g{ c.slot[ref[0].i] };
  path = "["; eint(path,ref[0].i); path += ",[";
  bool f{true};
  for ( size_t n{1}; n < ref.size(); ++n ) {
    J const & s{ ref[n] };
    if ( g->get_type() == GC_type::VECTOR && s.k == J::INT ) {
      vector_type & v{ g->get_vector() };
      if ( v.empty() ) break;
      size_t i{ size_t(s.i) % v.size() };
      if ( !f ) path += ','; f = false;
      path += "[\"i\","; eint(path,(long long)i); path += ']';
      g = &v[i];
    } else if ( g->get_type() == GC_type::MAP ) {
      map_type & m{ g->get_map() };
      if ( m.empty() ) break;
      auto it = m.begin();
      if ( s.k == J::INT ) std::advance( it, size_t(s.i) % m.size() );
      else { it = m.find( s.bytes() ); if ( it == m.end() ) break; }
      if ( !f ) path += ','; f = false;
      path += "[\"k\","; ebytes(path,it->first); path += ']';
      g = &it->second;
    } else break;
  }
  path += "]]";
  return g;
}

// a scratch file holding a text; the caller removes it
std::string scratch_file( std::string const & text ) {
  std::string fn{ std::string(getenv("VERIF_TMP")?getenv("VERIF_TMP"):"/tmp") + "/gcXXXXXX" };
  int const fd{ mkstemp(&fn[0]) };
  if ( fd < 0 || write(fd,text.data(),text.size()) != ssize_t(text.size()) ) { fprintf(stderr,"scratch file\n"); _exit(3); }
  close(fd);
  return fn;
}

static FILE * out;
static bool quiet{false};
static thread_local S * sink{nullptr};   // log of a thread
static void emit( S const & s ) { if ( quiet ) return; if ( sink ) { *sink += s; *sink += '\n'; return; } fwrite(s.data(),1,s.size(),out); fputc('\n',out); fflush(out); }

static S snap( GCo const & g ) {
  S s;
  try { eval(s,g); } catch ( ... ) { s = "[99]"; }
  return s;
}

static thread_local Ctx ctx;
static thread_local std::vector<S> prev;
static void begin_case() {
  for ( auto & p : ctx.slot ) p = new GCo();
  prev.assign( NSLOT, "[0]" );
  for ( auto & f : case_begin() ) f(ctx);
}
static void end_case() {
  for ( auto & f : case_end() ) f(ctx);
  for ( auto & p : ctx.slot ) { delete p; p = nullptr; }
  ctx.r = S(); ctx.raw = S(); std::vector<S>().swap(prev);
}

// a step: [op,target,args(,other)]; target, other = [slot,selectors...]
static void step( J const & st ) {
  Ctx & c{ctx};
  std::string const & name{ st[0].s };
  c.r.clear(); c.raw.clear(); c.o = nullptr;
  S path, opath;
  c.t = resolve(c,st[1],path);
  c.a = &st[2];
  bool const two{ st.size() > 3 };
  if ( two ) c.o = resolve(c,st[3],opath);
  auto it = ops().find(name);
  if ( it == ops().end() ) { fprintf(stderr,"unknown op %s\n",name.c_str()); _exit(3); }
  S line{ "{\"op\":\"" }; line += name; line += "\",\"t\":"; line += path;
  if ( two ) { line += ",\"o\":"; line += opath; }
  S rep;
  try {
    it->second(c);
    rep = c.raw.empty() ? "[\"ok\"" + c.r + "]" : c.raw;
  } catch ( std::exception const & ) {
    rep = c.raw.empty() ? "[\"err\"]" : c.raw;
  } catch ( ... ) { rep = c.raw.empty() ? "[\"err\"]" : c.raw; }
  line += ",\"r\":"; line += rep;
  line += ",\"c\":[";
  bool f{true};
  for ( int n{0}; n < NSLOT; ++n ) {
    S s{ snap(*c.slot[n]) };
    if ( s != prev[n] ) {
      if ( !f ) line += ','; f = false;
      line += '['; eint(line,n); line += ','; line += s; line += ']';
      prev[n] = s;
    }
  }
  line += "]}";
  emit(line);
}

// [shared,steps,steps,...]: one thread for each list of steps; container 3 of
// all of them is the same object, the other containers are the thread's own
static void parallel( J const & p ) {
  GCo shared; build( shared, p[0] );
  S const s0{ snap(shared) };
  size_t const n{ p.size()-1 };
  std::vector<S> log(n);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  for ( size_t k{0}; k < n; ++k )
    th.emplace_back( [&,k]{
      sink = &log[k];
      begin_case();
      GCo * const own{ ctx.slot[3] };
      ctx.slot[3] = &shared; prev[3] = s0;
      emit( "{\"op\":\"init\",\"t\":[3,[]],\"r\":[\"ok\"],\"c\":[[3," + s0 + "]]}" );
      ++ready; while ( ready < n ) std::this_thread::yield();
      for ( J const & st : p[k+1].a ) step( st );
      ctx.slot[3] = own;
      end_case();
      sink = nullptr;
    } );
  for ( auto & t : th ) t.join();
  for ( auto const & l : log ) { fwrite(l.data(),1,l.size(),out); }
  fflush(out);
}

// protocol on stdin: "P [...]" runs threads; "B" begins a case, "[...]" is a step, "E" ends the case
int main() {
  int const fd{ dup(1) };
  out = fdopen( fd, "w" );
  if ( !out || !freopen("/dev/null","w",stdout) ) return 3;
  std::string text;
  std::vector<J> steps;
  while ( std::getline(std::cin,text) ) {
    alarm(20);
    if ( text[0] == 'P' ) {
      alarm(60);
      char const * p{ text.c_str()+1 };
      parallel( parse_json(p) );
    } else if ( text == "B" ) {
      std::vector<J>().swap(steps);
      begin_case();
    } else if ( text == "E" ) {
      end_case();
      long leak{0};
#ifdef ALLOCATED
      // compare two complete repetitions: one-time allocations (locale,
      // regular expressions, buffers) do not repeat
      quiet = true;
      auto once = [&]{
        long const b0{ long(ALLOCATED()) };
        begin_case(); for ( auto const & s : steps ) step(s); end_case();
        return long(ALLOCATED()) - b0;
      };
      if ( !steps.empty() ) {
        leak = once();
        if ( leak ) { long const l1{ once() }, l2{ once() }; leak = l1 > 0 && l2 > 0 ? l2 : 0; }
      }
      quiet = false;
#endif
      S line{ "{\"op\":\"end\",\"leak\":" }; eint(line,leak); line += "}"; emit(line);
    } else {
      char const * p{ text.c_str() };
      steps.push_back( parse_json(p) );
      step( steps.back() );
    }
    alarm(0);
  }
  fclose(out);
  return 0;
}
