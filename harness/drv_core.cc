#include "drv.hh"

#define A(n) ((*c.a)[n])
static std::string const & sarg( Ctx & c, size_t n ) { return A(n).s; }

OP(init) { GCo tmp; build( tmp, A(0) ); c.t->clear(); build( *c.t, A(0) ); }

template <typename F> static void okval( Ctx & c, F f ) { c.r += ','; f(c.r); }
static void okgc( Ctx & c, GCo const & g ) { c.r += ','; eval(c.r,g); }
template <typename T> static void okscal( Ctx & c, int k, T const & x ) {
  c.r += ",["; eint(c.r,k); c.r += ','; epay(c.r,x); c.r += ']';
}
template <typename V> static void okvec( Ctx & c, int k, V const & v ) {
  c.r += ",["; eint(c.r,k); c.r += ','; eseq(c.r,v); c.r += ']';
}
template <typename T> static void okmat( Ctx & c, int k, mat_type<T> const & m ) {
  c.r += ",["; eint(c.r,k); c.r += ','; emat(c.r,m); c.r += ']';
}

// how: "m" method with value, "a" operator=, "c" constructor + load, "s" set(),
//      "r" allocate and fill through the reference, z*: C string
OP(store) {
  std::string const & how{ sarg(c,0) };
  J const & v{ A(1) };
  int const k{ int(v[0].i) };
  GCo & g{ *c.t };
#define SCAL(KIND,T,SETTER)                                              \
  case KIND: {                                                           \
    T x; jpay(v[1],x);                                                   \
    if ( how == "a" ) { g = x; okgc(c,g); }                              \
    else if ( how == "s" ) { g.set(x); okgc(c,g); }                      \
    else if ( how == "c" ) { GCo tmp(x); okgc(c,tmp); g.load(tmp); }      \
    else { auto & ref = g.SETTER(x); okscal(c,KIND,ref); }               \
    break; }
#define VECT(KIND,T,SETTER)                                              \
  case KIND: {                                                           \
    std::vector<T> x{ jvec<T>(v[1]) };                                   \
    if ( how == "a" ) { g = x; okgc(c,g); }                              \
    else if ( how == "c" ) { GCo tmp; tmp = x; okgc(c,tmp); g.from_gc(tmp); } \
    else if ( how == "r" ) {                                             \
      auto & ref = g.SETTER( unsigned(x.size()) );                       \
      for ( size_t n{0}; n < x.size(); ++n ) ref.at(n) = x[n];           \
      okvec(c,KIND,ref);                                                 \
    } else { auto & ref = g.SETTER(x); okvec(c,KIND,ref); }              \
    break; }
#define MATR(KIND,T,SETTER)                                              \
  case KIND: {                                                           \
    mat_type<T> x{ jmat<T>(v[1],v[2],v[3]) };                            \
    if ( how == "a" ) { g = x; okgc(c,g); }                              \
    else if ( how == "c" ) { GCo tmp; tmp = x; okgc(c,tmp); g.from_gc(tmp); } \
    else if ( how == "r" ) {                                             \
      auto & ref = g.SETTER( x.num_rows(), x.num_cols() );               \
      for ( unsigned j{0}; j < x.num_cols(); ++j )                       \
        for ( unsigned i{0}; i < x.num_rows(); ++i ) ref(i,j) = x(i,j);  \
      okmat(c,KIND,ref);                                                 \
    } else { auto & ref = g.SETTER(x); okmat(c,KIND,ref); }              \
    break; }
  switch ( k ) {
  case 0: g.clear(); okgc(c,g); break;
  SCAL(1,pointer_type,set_pointer)
  SCAL(2,bool,set_bool)
  SCAL(3,int_type,set_int)
  SCAL(4,long_type,set_long)
  SCAL(5,real_type,set_real)
  case 6: {
    complex_type x{ v[1].cplx() };
    if ( how == "a" ) { g = x; okgc(c,g); }
    else if ( how == "s" ) { g.set(x); okgc(c,g); }
    else if ( how == "c" ) { GCo tmp(x); okgc(c,tmp); g.load(tmp); }
    else if ( how == "r" ) { auto & ref = g.set_complex(x.real(),x.imag()); okscal(c,6,ref); }
    else { auto & ref = g.set_complex(x); okscal(c,6,ref); }
    break;
  }
  case 7: {
    std::string x{ v[1].bytes() };
    if      ( how == "a" )  { g = x; okgc(c,g); }
    else if ( how == "v" )  { g = std::string_view(x); okgc(c,g); }
    else if ( how == "s" )  { g.set(std::string_view(x)); okgc(c,g); }
    else if ( how == "c" )  { GCo tmp(x); okgc(c,tmp); g.load(tmp); }
    else if ( how == "r" )  { GCo tmp{std::string_view(x)}; okgc(c,tmp); g.load(tmp); }
    else if ( how == "za" ) { g = x.c_str(); okgc(c,g); }
    else if ( how == "zs" ) { g.set(x.c_str()); okgc(c,g); }
    else if ( how == "zc" ) { GCo tmp(x.c_str()); okgc(c,tmp); g.load(tmp); }
    else { auto & ref = g.set_string(x); okscal(c,7,ref); }
    break;
  }
  case 8: {
    std::vector<pointer_type> x{ jvec<pointer_type>(v[1]) };
    if ( how == "r" ) {
      auto & ref = g.set_vec_pointer( unsigned(x.size()) );
      for ( size_t n{0}; n < x.size(); ++n ) ref.at(n) = x[n];
      okvec(c,8,ref);
    } else { auto & ref = g.set_vec_pointer(x); okvec(c,8,ref); }
    break;
  }
  VECT(9,bool,set_vec_bool)
  VECT(10,int_type,set_vec_int)
  VECT(11,long_type,set_vec_long)
  VECT(12,real_type,set_vec_real)
  VECT(13,complex_type,set_vec_complex)
  VECT(14,std::string,set_vec_string)
  MATR(15,int_type,set_mat_int)
  MATR(16,long_type,set_mat_long)
  MATR(17,real_type,set_mat_real)
  MATR(18,complex_type,set_mat_complex)
  case 19: {
    vector_type & x{ g.set_vector() };
    x.resize( v[1].size() );
    for ( size_t n{0}; n < v[1].size(); ++n ) build( x.at(n), v[1][n] );
    okgc(c,g); break;
  }
  case 20: {
    g.set_map();
    if ( how == "r" ) { map_type & m{ g.get_map() }; for ( auto const & e : v[1].a ) build( m[e[0].bytes()], e[1] ); }
    else for ( auto const & e : v[1].a ) build( g[e[0].bytes()], e[1] );
    okgc(c,g); break;
  }
  }
}

OP(storeu) {
  std::string const & how{ sarg(c,0) };
  std::string const & ty{ sarg(c,1) };
  GCo & g{ *c.t };
  auto put = [&]( auto x ) {
    if ( how == "a" ) g = x;
    else if ( how == "s" ) g.set(x);
    else { GCo tmp(x); g.load(tmp); }
  };
  if      ( ty == "uint"   ) put( uint_type(A(2).word()) );
  else if ( ty == "ulong"  ) put( ulong_type(A(2).word()) );
  else if ( ty == "float"  ) put( float(A(2).real()) );
  else                       put( std::complex<float>( float(A(2).real()), float(A(3).real()) ) );
  okgc(c,g);
}

OP(alloc) {
  GCo & g{ *c.t };
  unsigned const n{ unsigned( c.a->size() > 1 ? A(1).i : 0 ) };
  unsigned const m{ unsigned( c.a->size() > 2 ? A(2).i : 0 ) };
  size_t sz{0}, want{n};
  switch ( A(0).i ) {
  case 8:  sz = g.set_vec_pointer(n).size(); break;
  case 9:  sz = g.set_vec_bool(n).size(); break;
  case 10: sz = g.set_vec_int(n).size(); break;
  case 11: sz = g.set_vec_long(n).size(); break;
  case 12: sz = g.set_vec_real(n).size(); break;
  case 13: sz = g.set_vec_complex(n).size(); break;
  case 14: sz = g.set_vec_string(n).size(); break;
  case 15: want = size_t(n)*m; sz = g.set_mat_int(n,m).size(); break;
  case 16: want = size_t(n)*m; sz = g.set_mat_long(n,m).size(); break;
  case 17: want = size_t(n)*m; sz = g.set_mat_real(n,m).size(); break;
  case 18: want = size_t(n)*m; sz = g.set_mat_complex(n,m).size(); break;
  case 19: sz = g.set_vector(n).size(); break;
  case 20: want = 0; sz = g.set_map().size(); break;
  }
  if ( sz != want ) c.raw = "[\"size\"]";
}
OP(clear) { c.t->clear(); }
OP(free_pointer) { c.t->free_pointer(); }
OP(shape) {
  GCo const & g{ *c.t };
  c.r += ','; eint(c.r,int(g.get_type()));
  c.r += ','; eint(c.r,g.get_num_elements());
  unsigned const nr{ g.num_rows() }, nc{ g.num_cols() };
  c.r += ','; eint(c.r,g.get_numRows() == nr ? nr : -1);
  c.r += ','; eint(c.r,g.get_numCols() == nc ? nc : -1);
}
OP(type_name) { c.r += ','; ebytes(c.r,c.t->get_type_name()); c.r += ','; ebytes(c.r,to_string(c.t->get_type())); }

OP(getc) {
  GCo const & g{ *c.t };
  switch ( A(0).i ) {
  case 1: {
    void * p{ g.get_pvoid("t") };
    void ** q{ g.get_ppvoid("t") };
    void * z{ g.get_pointer<void*>() };
    okscal(c,1,p == *q && p == z ? p : reinterpret_cast<void*>(1)); break;
  }
  case 2: okscal(c,2,bool(g.get_bool("t"))); break;
  case 3: okscal(c,3,g.get_int("t")); break;
  case 4: okscal(c,4,g.get_long("t")); break;
  case 5: okscal(c,5,g.get_real("t")); break;
  case 6: okscal(c,6,g.get_complex("t")); break;
  case 7: okscal(c,7,std::string(g.get_string("t"))); break;
  case 8: okvec(c,8,g.get_vec_pointer("t")); break;
  case 9: okvec(c,9,g.get_vec_bool("t")); break;
  case 10: okvec(c,10,g.get_vec_int("t")); break;
  case 11: okvec(c,11,g.get_vec_long("t")); break;
  case 12: okvec(c,12,g.get_vec_real("t")); break;
  case 13: okvec(c,13,g.get_vec_complex("t")); break;
  case 14: okvec(c,14,g.get_vec_string("t")); break;
  case 15: okmat(c,15,g.get_mat_int("t")); break;
  case 16: okmat(c,16,g.get_mat_long("t")); break;
  case 17: okmat(c,17,g.get_mat_real("t")); break;
  case 18: okmat(c,18,g.get_mat_complex("t")); break;
  case 19: g.get_vector("t"); okgc(c,g); break;
  case 20: g.get_map("t"); okgc(c,g); break;
  }
}
OP(getn) {
  GCo & g{ *c.t };
  bool const wr{ c.a->size() > 1 };
#define GSC(KIND,T,F) case KIND: { auto & ref = g.F("t"); okscal(c,KIND,ref); if ( wr ) { T x; jpay(A(1)[1],x); ref = x; } break; }
#define GVE(KIND,T,F) case KIND: { auto & ref = g.F("t"); okvec(c,KIND,ref); if ( wr ) ref = jvec<T>(A(1)[1]); break; }
#define GMA(KIND,T,F) case KIND: { auto & ref = g.F("t"); okmat(c,KIND,ref); if ( wr ) ref = jmat<T>(A(1)[1],A(1)[2],A(1)[3]); break; }
  switch ( A(0).i ) {
  case 1: { auto & ref = g.get_pointer<pointer_type>(); okscal(c,1,ref); if ( wr ) ref = id2ptr(A(1)[1].i); break; }
  GSC(2,bool,get_bool) GSC(3,int_type,get_int) GSC(4,long_type,get_long) GSC(5,real_type,get_real)
  GSC(6,complex_type,get_complex) GSC(7,std::string,get_string)
  GVE(8,pointer_type,get_vec_pointer) GVE(9,bool,get_vec_bool) GVE(10,int_type,get_vec_int)
  GVE(11,long_type,get_vec_long) GVE(12,real_type,get_vec_real) GVE(13,complex_type,get_vec_complex)
  GVE(14,std::string,get_vec_string)
  GMA(15,int_type,get_mat_int) GMA(16,long_type,get_mat_long) GMA(17,real_type,get_mat_real) GMA(18,complex_type,get_mat_complex)
  case 19: {
    vector_type & v{ g.get_vector("t") }; okgc(c,g);
    if ( wr ) { v.clear(); v.resize(A(1)[1].size()); for ( size_t n{0}; n < v.size(); ++n ) build(v[n],A(1)[1][n]); }
    break;
  }
  case 20: {
    map_type & m{ g.get_map("t") }; okgc(c,g);
    if ( wr ) { m.clear(); for ( auto const & e : A(1)[1].a ) build(m[e[0].bytes()],e[1]); }
    break;
  }
  }
}
template <typename T> static void through( Ctx & c, T const * p ) {
  unsigned const n{ c.t->get_num_elements() };
  std::vector<T> v; for ( unsigned i{0}; i < n; ++i ) v.push_back(p[i]);
  c.r += ','; eseq(c.r,v);
}
OP(ptr) {
  GCo & g{ *c.t }; GCo const & h{ *c.t };
  bool const cst{ c.a->size() > 1 };
  switch ( A(0).i ) {
  case 3: through<int_type>( c, cst ? h.get_int_pointer() : g.get_int_pointer() ); break;
  case 4: through<long_type>( c, cst ? h.get_long_pointer() : g.get_long_pointer() ); break;
  case 5: through<real_type>( c, cst ? h.get_real_pointer() : g.get_real_pointer() ); break;
  case 6: through<complex_type>( c, cst ? h.get_complex_pointer() : g.get_complex_pointer() ); break;
  }
}

// conversions: a = [T,api]
template <typename T> static bool same( T const & x, T const & y ) { return memcmp(&x,&y,sizeof(T)) == 0; }
template <typename T, typename E> static void conv( Ctx & c, T sentinel, E enc ) {
  T x{ sentinel };
  try { static_cast<GCo const*>(c.t)->get_value<T>( x, "t" ); }
  catch ( ... ) { c.raw = same(x,sentinel) ? "[\"err\",1]" : "[\"err\",0]"; return; }
  c.r += ','; enc(x);
}
OP(as) {
  std::string const & T{ sarg(c,0) };
  GCo const & g{ *c.t };
  bool const val{ c.a->size() > 1 };   // get_value
  c.raw = "[\"err\",1]";               // reply if an exception comes out
  S r;
  if ( T == "int" ) {
    if ( val ) { c.raw.clear(); conv<int_type>(c,-77,[&](int_type x){ eint(c.r,x); }); return; }
    eint(r,g.get_as_int("t"));
  } else if ( T == "uint" ) {
    if ( val ) { c.raw.clear(); conv<uint_type>(c,77,[&](uint_type x){ eword(c.r,x); }); return; }
    eword(r,g.get_as_uint("t"));
  } else if ( T == "long" ) {
    if ( val ) { c.raw.clear(); conv<long_type>(c,-77,[&](long_type x){ eword(c.r,uint64_t(x)); }); return; }
    eword(r,uint64_t(g.get_as_long("t")));
  } else if ( T == "ulong" ) {
    if ( val ) { c.raw.clear(); conv<ulong_type>(c,77,[&](ulong_type x){ eword(c.r,x); }); return; }
    eword(r,g.get_as_ulong("t"));
  } else if ( T == "float" ) {
    c.raw.clear(); conv<float>(c,-77.5f,[&](float x){ ereal(c.r,x); }); return;
  } else if ( T == "double" ) {
    c.raw.clear(); conv<double>(c,-77.5,[&](double x){ ereal(c.r,x); }); return;
  } else if ( T == "number" ) {
    ereal(r,g.get_number("t"));
  } else if ( T == "cnumber" ) {
    if ( val ) {
      real_type re{-77.5}, im{-88.5};
      try { g.get_complex_number(re,im); }
      catch ( ... ) { c.raw = re == -77.5 && im == -88.5 ? "[\"err\",1]" : "[\"err\",0]"; return; }
      ecplx(r,{re,im});
    } else ecplx(r,g.get_complex_number("t"));
  }
  c.raw.clear(); c.r += ','; c.r += r;
}

OP(promote) {
  GCo & g{ *c.t };
  GCo const * p{nullptr};
  switch ( A(0).i ) {
  case 3: p = &g.promote_to_int(); break;
  case 4: p = &g.promote_to_long(); break;
  case 5: p = &g.promote_to_real(); break;
  case 6: p = &g.promote_to_complex(); break;
  case 10: p = &g.promote_to_vec_int(); break;
  case 11: p = &g.promote_to_vec_long(); break;
  case 12: p = &g.promote_to_vec_real(); break;
  case 13: p = &g.promote_to_vec_complex(); break;
  case 15: p = &g.promote_to_mat_int(); break;
  case 16: p = &g.promote_to_mat_long(); break;
  case 17: p = &g.promote_to_mat_real(); break;
  case 18: p = &g.promote_to_mat_complex(); break;
  case 19: p = &g.promote_to_vector(); break;
  }
  if ( p != &g ) c.raw = "[\"badref\"]";
}

// element access
OP(atc) {
  GCo const & g{ *c.t }; unsigned const i( unsigned(A(1).i) );
  c.r += ',';
  switch ( A(0).i ) {
  case 2: epay(c.r,bool(g.get_bool_at(i,"t"))); break;
  case 3: epay(c.r,g.get_int_at(i,"t")); break;
  case 4: epay(c.r,g.get_long_at(i,"t")); break;
  case 5: epay(c.r,g.get_real_at(i,"t")); break;
  case 6: epay(c.r,g.get_complex_at(i,"t")); break;
  case 7: epay(c.r,g.get_string_at(i,"t")); break;
  }
}
OP(atn) {
  GCo & g{ *c.t }; unsigned const i( unsigned(A(1).i) );
  bool const wr{ c.a->size() > 2 };
  c.r += ',';
#define AT(KIND,T,F) case KIND: { T & ref{ g.F(i) }; epay(c.r,ref); if ( wr ) { T x; jpay(A(2),x); ref = x; } break; }
  switch ( A(0).i ) {
  case 2: epay(c.r,bool(g.get_bool_at(i))); break;
  AT(3,int_type,get_int_at) AT(4,long_type,get_long_at) AT(5,real_type,get_real_at)
  AT(6,complex_type,get_complex_at) AT(7,std::string,get_string_at)
  }
}
OP(at2c) {
  GCo const & g{ *c.t }; unsigned const i( unsigned(A(1).i) ), j( unsigned(A(2).i) );
  c.r += ',';
  switch ( A(0).i ) {
  case 3: epay(c.r,g.get_int_at(i,j,"t")); break;
  case 4: epay(c.r,g.get_long_at(i,j,"t")); break;
  case 5: epay(c.r,g.get_real_at(i,j,"t")); break;
  case 6: epay(c.r,g.get_complex_at(i,j,"t")); break;
  }
}
OP(at2n) {
  GCo & g{ *c.t }; unsigned const i( unsigned(A(1).i) ), j( unsigned(A(2).i) );
  bool const wr{ c.a->size() > 3 };
  c.r += ',';
#define AT2(KIND,T,F) case KIND: { T & ref{ g.F(i,j) }; epay(c.r,ref); if ( wr ) { T x; jpay(A(3),x); ref = x; } break; }
  switch ( A(0).i ) {
  AT2(3,int_type,get_int_at) AT2(4,long_type,get_long_at) AT2(5,real_type,get_real_at) AT2(6,complex_type,get_complex_at)
  }
}
OP(number_at) { c.r += ','; ereal(c.r,c.t->get_number_at(unsigned(A(0).i),"t")); }
OP(cnumber_at) {
  GCo const & g{ *c.t };
  c.r += ',';
  if ( c.a->size() > 1 ) { real_type re, im; g.get_complex_number_at(unsigned(A(0).i),re,im,"t"); ecplx(c.r,{re,im}); }
  else ecplx(c.r,g.get_complex_number_at(unsigned(A(0).i),"t"));
}
static void okref( Ctx & c, GCo & e, size_t n ) { okgc(c,e); if ( c.a->size() > n ) build(e,A(n)); }
OP(idx) {
  std::string const & how{ sarg(c,0) };
  unsigned const i( unsigned(A(1).i) );
  GCo & g{ *c.t }; GCo const & h{ *c.t };
  if      ( how == "br"  ) okref(c,g[i],2);
  else if ( how == "gc"  ) okref(c,g.get_gc_at(i),2);
  else if ( how == "pa"  ) okref(c,g(i,"t"),2);
  else if ( how == "brc" ) okgc(c,h[i]);
  else if ( how == "gcc" ) okgc(c,h.get_gc_at(i,"t"));
  else                     okgc(c,h(i,"t"));
}
template <typename T> static void rowcol( Ctx & c, mat_type<T> const & m ) {
  unsigned const i( unsigned(A(1).i) );
  std::vector<T> v, w, v1, w1, e;
  if ( A(0).i == 0 ) {
    m.get_row(i,v);  w.resize(m.num_cols());  m.get_row(i,w.data());
    m.getRow(i,v1);  w1.resize(m.numCols());  m.getRow(i,w1.data());
    for ( unsigned j{0}; j < m.num_cols(); ++j ) e.push_back( m(i,j) );
  } else {
    m.get_column(i,v);  w.resize(m.num_rows());  m.get_column(i,w.data());
    m.getColumn(i,v1);  w1.resize(m.numRows());  m.getColumn(i,w1.data());
    for ( unsigned j{0}; j < m.num_rows(); ++j ) e.push_back( m(j,i) );
  }
  S a; eseq(a,v);
  for ( auto const * x : { &w, &v1, &w1, &e } ) { S b; eseq(b,*x); if ( a != b ) { c.raw = "[\"differ\"]"; return; } }
  c.r += ','; c.r += a;
}
// [i]: read only, [i,"n"]: through the modifiable container, [i,"n",x]: and store
OP(ptr_at) {
  unsigned const i( unsigned(A(0).i) );
  c.r += ',';
  if ( c.a->size() == 1 ) { GCo const & g{ *c.t }; epay(c.r,g.get_pointer_at<pointer_type>(i)); return; }
  auto & ref = c.t->get_pointer_at<pointer_type>(i);
  epay(c.r,ref);
  if ( c.a->size() > 2 ) ref = id2ptr(A(2).i);
}
OP(rowcol) {
  GCo const & g{ *c.t };
  switch ( int(g.get_type()) ) {
  case 15: rowcol(c,g.get_mat_int()); break;
  case 16: rowcol(c,g.get_mat_long()); break;
  case 17: rowcol(c,g.get_mat_real()); break;
  case 18: rowcol(c,g.get_mat_complex()); break;
  default: c.raw = "[\"err\"]";
  }
}

// maps
OP(key) {
  std::string const & how{ sarg(c,0) };
  std::string const k{ A(1).bytes() };
  GCo & g{ *c.t }; GCo const & h{ *c.t };
  // a view into a longer buffer, not terminated after the key
  std::string const buf{ "\x01" + k + "\x01zz" };
  std::string_view const kv( buf.data()+1, k.size() );
  if      ( how == "br"  ) okref(c,g[kv],2);
  else if ( how == "pa"  ) okref(c,g(kv,"t"),2);
  else if ( how == "brc" ) okgc(c,h[kv]);
  else                     okgc(c,h(kv,"t"));
}
OP(keys) {
  std::string const & how{ sarg(c,0) };
  vec_string_type const ks{ A(1).strs() };
  GCo & g{ *c.t }; GCo const & h{ *c.t };
  if ( how == "pa" ) okref(c,g(ks,"t"),2); else okgc(c,h(ks,"t"));
}
OP(exists)  { c.r += ','; eint(c.r,c.t->exists(A(0).bytes())); }
OP(existsv) { c.r += ','; eint(c.r,c.t->exists(A(0).strs())); }
OP(must)    { std::string const k{ c.t->must_exists(A(0).strs(),"t") }; c.r += ','; ebytes(c.r,k); }
OP(get_keys) {
  vec_string_type k{ "old" }; c.t->get_keys(k);
  c.r += ','; eseq(c.r,k); c.r += ','; ebytes(c.r,c.t->get_keys());
}
OP(erase) { c.t->erase(A(0).bytes()); }
template <typename T, typename E> static void gie( Ctx & c, T const sentinel, E enc ) {
  T x{ sentinel };
  GCo const & g{ *c.t };
  vec_string_type const ks{ A(1).strs() };
  bool ok;
  std::string const how{ c.a->size() > 2 ? sarg(c,2) : "" };
  if ( how == "z" )      ok = g.get_if_exists( ks[0].c_str(), x );
  else if ( how == "1" ) ok = g.get_if_exists( std::string_view(ks[0]), x );
  else                   ok = g.get_if_exists( ks, x );
  if ( ok ) { c.r += ",1,"; enc(x); }
  else      { c.r += ",0,"; eint(c.r, x == sentinel ); }
}
OP(gie) {
  std::string const & T{ sarg(c,0) };
  if      ( T == "bool"    ) {
    bool x0{ c.a->size() > 3 && A(3).i };
    gie<bool>(c,x0,[&](bool x){ eint(c.r,x); });
  }
  else if ( T == "int"     ) gie<int_type>(c,-77,[&](int_type x){ eint(c.r,x); });
  else if ( T == "uint"    ) gie<uint_type>(c,77,[&](uint_type x){ eword(c.r,x); });
  else if ( T == "long"    ) gie<long_type>(c,-77,[&](long_type x){ eword(c.r,uint64_t(x)); });
  else if ( T == "ulong"   ) gie<ulong_type>(c,77,[&](ulong_type x){ eword(c.r,x); });
  else if ( T == "real"    ) gie<real_type>(c,-77.5,[&](real_type x){ ereal(c.r,x); });
  else if ( T == "complex" ) gie<complex_type>(c,{-77.5,1},[&](complex_type x){ ecplx(c.r,x); });
  else                       gie<std::string>(c,"sentinel",[&](std::string const & x){ ebytes(c.r,x); });
}
#define GM(F,ENC)                                                                      \
  if ( how == "key" )      { auto const & x = g.F( std::string_view(ks[0]), "t" ); ENC; } \
  else if ( how == "any" ) { auto const & x = g.F( ks, "t" ); ENC; }                     \
  else if ( ks.size() == 1 ) { auto const & x = g.F( {ks[0]} ); ENC; }                   \
  else if ( ks.size() == 2 ) { auto const & x = g.F( std::initializer_list<std::string>{ks[0],ks[1]} ); ENC; } \
  else                     { auto const & x = g.F( std::initializer_list<std::string>{ks[0],ks[1],ks[2]} ); ENC; }
OP(getmap) {
  std::string const & w{ sarg(c,0) };
  std::string const & how{ sarg(c,1) };
  vec_string_type const ks{ A(2).strs() };
  GCo const & g{ *c.t };
  S r;
  if      ( w == "bool"        ) { GM(get_map_bool,eint(r,x)) }
  else if ( w == "int"         ) { GM(get_map_int,eint(r,x)) }
  else if ( w == "number"      ) { GM(get_map_number,ereal(r,x)) }
  else if ( w == "string"      ) { GM(get_map_string,ebytes(r,x)) }
  else if ( w == "vec_real"    ) { GM(get_map_vec_real,eseq(r,x)) }
  else if ( w == "vec_complex" ) { GM(get_map_vec_complex,eseq(r,x)) }
  else                           { GM(get_map_vec_string,eseq(r,x)) }
  c.r += ','; c.r += r;
}

// two operands: t receives, o is the other
OP(from_gc) { c.t->from_gc(*c.o); }
OP(to_gc)   { c.o->to_gc(*c.t); }
OP(load)    { c.t->load(*c.o); }
OP(asg)     { *c.t = static_cast<GCo const &>(*c.o); }
OP(copyctor) { GCo tmp(*c.o); okgc(c,tmp); GCo tmp2(tmp); tmp.clear(); c.t->from_gc(tmp2); }
// store the typed content of o into t
OP(asgc) {
  GCo & g{ *c.t }; GCo const & s{ *c.o };
  bool const set{ c.a->size() > 0 };
  switch ( int(s.get_type()) ) {
  case 0: g.clear(); break;
  case 1: g = s.get_pvoid(); break;
  case 2: g = s.get_bool(); break;
  case 3: g = s.get_int(); break;
  case 4: g = s.get_long(); break;
  case 5: g = s.get_real(); break;
  case 6: if ( set ) g.set_complex(s.get_complex()); else g = s.get_complex(); break;
  case 7: if ( set ) g.set_string(s.get_string()); else g = s.get_string(); break;
  case 8: g.set_vec_pointer(s.get_vec_pointer()); break;
#define CV(KIND,F) case KIND: if ( set ) g.set_##F(s.get_##F()); else g = s.get_##F(); break;
  CV(9,vec_bool) CV(10,vec_int) CV(11,vec_long) CV(12,vec_real) CV(13,vec_complex) CV(14,vec_string)
  CV(15,mat_int) CV(16,mat_long) CV(17,mat_real) CV(18,mat_complex)
  default: g = s;
  }
}
OP(merge) { c.t->merge(*c.o,"t"); }
OP(compare) { std::string const d{ c.t->compare_content(*c.o) }; c.r += ','; eint(c.r,d.empty()); }

OP(push) {
  GCo & g{ *c.t }; J const & x{ A(1) };
  switch ( A(0).i ) {
  case 2: g.push_bool(x.i != 0); break;
  case 3: g.push_int(int_type(x.i)); break;
  case 4: g.push_long(long_type(x.word())); break;
  case 5: g.push_real(x.real()); break;
  case 6: {
    complex_type z{ x.cplx() };
    if ( c.a->size() > 2 ) g.push_complex(z); else g.push_complex(z.real(),z.imag());
    break;
  }
  case 7: g.push_string(x.bytes()); break;
  }
}
// append the (string, complex) content of o
OP(pushc) {
  GCo & g{ *c.t };
  if ( c.o->get_type() == GC_type::STRING ) g.push_string( static_cast<GCo const &>(*c.o).get_string() );
  else if ( c.o->get_type() == GC_type::COMPLEX ) g.push_complex( c.o->get_complex() );
}

template <typename T, typename F> static void cpv( Ctx & c, F f, T const & junk ) {
  std::vector<T> v( 3, junk );
  f(v); c.r += ','; eseq(c.r,v);
}
OP(copyto_vec) {
  std::string const & T{ sarg(c,0) };
  GCo const & g{ *c.t };
  S r;
  if      ( T == "int"     ) { vec_int_type v{9,9}; g.copyto_vec_int(v,"t"); eseq(r,v); }
  else if ( T == "uint"    ) { vec_uint_type v{9,9}; g.copyto_vec_uint(v,"t"); std::vector<long_type> w(v.begin(),v.end()); eseq(r,w); }
  else if ( T == "long"    ) { vec_long_type v{9,9}; g.copyto_vec_long(v,"t"); eseq(r,v); }
  else if ( T == "ulong"   ) { vec_ulong_type v{9,9}; g.copyto_vec_ulong(v,"t"); std::vector<long_type> w; for ( auto u : v ) w.push_back(long_type(u)); eseq(r,w); }
  else if ( T == "real"    ) { vec_real_type v{9,9}; g.copyto_vec_real(v,"t"); eseq(r,v); }
  else if ( T == "complex" ) { vec_complex_type v{9,9}; g.copyto_vec_complex(v,"t"); eseq(r,v); }
  else                       { vec_string_type v{"x"}; g.copyto_vec_string(v,"t"); eseq(r,v); }
  c.r += ','; c.r += r;
}
OP(copyto_mat) {
  std::string const & T{ sarg(c,0) };
  GCo const & g{ *c.t };
  S r{"["};
  if      ( T == "int"  ) { mat_int_type m(1,2); g.copyto_mat_int(m,"t"); emat(r,m); }
  else if ( T == "long" ) { mat_long_type m(2,1); g.copyto_mat_long(m,"t"); emat(r,m); }
  else if ( T == "real" ) { mat_real_type m(2,2); g.copyto_mat_real(m,"t"); emat(r,m); }
  else                    { mat_complex_type m(1,1); g.copyto_mat_complex(m,"t"); emat(r,m); }
  c.r += ','; c.r += r + "]";
}
OP(collapse) { c.t->collapse(); }

// ---- serialization ----------------------------------------------------------------
OP(ser) {   // into a growing vector, previous size A(0)
  GCo const & g{ *c.t };
  std::vector<uint8_t> buf( size_t(A(0).i), 0xA5 );
  int32_t const ms{ g.mem_size() };
  int32_t const n{ g.serialize(buf) };
  c.r += ','; eint(c.r,ms); c.r += ','; eint(c.r,n);
  // bytes after the announced ones must be untouched
  bool clean{true}; for ( size_t i{static_cast<size_t>(n)}; i < buf.size(); ++i ) clean = clean && buf[i] == 0xA5;
  c.r += ','; ebytes(c.r,std::string(buf.begin(),buf.begin()+std::min<size_t>(size_t(n),buf.size())));
  c.r += ','; eint(c.r,clean);
}
OP(serb) {  // into a buffer of mem_size()+A(0) bytes
  GCo const & g{ *c.t };
  long const dim{ long(g.mem_size()) + A(0).i };
  std::unique_ptr<uint8_t[]> buf( new uint8_t[ dim > 0 ? dim : 0 ] );
  memset(buf.get(),0xA5,dim > 0 ? dim : 0);
  int32_t const n{ g.serialize(int32_t(dim),buf.get()) };
  c.r += ','; eint(c.r,n);
  bool clean{true}; for ( long i{n}; i < dim; ++i ) clean = clean && buf[i] == 0xA5;
  c.r += ','; ebytes(c.r,std::string((char*)buf.get(),size_t(n))); c.r += ','; eint(c.r,clean);
}
OP(deser) { // exact buffer: A(0) bytes, A(1) "v" = vector interface
  std::string const b{ A(0).bytes() };
  int32_t n;
  if ( c.a->size() > 1 ) {
    std::vector<uint8_t> buf(b.begin(),b.end()); buf.shrink_to_fit();
    n = c.t->de_serialize(buf);
  } else {
    std::unique_ptr<uint8_t[]> buf( new uint8_t[b.size()] );
    memcpy(buf.get(),b.data(),b.size());
    n = c.t->de_serialize(int32_t(b.size()),buf.get());
  }
  c.r += ','; eint(c.r,n);
}
OP(serde) { // serialize o and rebuild it into t
  std::vector<uint8_t> buf;
  int32_t const n{ c.o->serialize(buf) };
  int32_t const m{ c.t->de_serialize(int32_t(n),buf.data()) };
  c.r += ','; eint(c.r,n); c.r += ','; eint(c.r,m);
}
