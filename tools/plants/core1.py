H = '#include "GenericContainer/GenericContainer.hh"\n#include <iostream>\n#include <vector>\n#include <limits>\nusing namespace GC_namespace;\n#define CK(c) if(!(c)){ std::cout << "FAILED: " #c "\\n"; return 1; }\nint main(){\n'
T = '\n return 0;\n}\n'
C = 'src/GenericContainer.cc'; PR = 'src/GenericContainerPromote.cc'; SE = 'src/GenericContainerSerialize.cc'
def p(id, prop, file, edits, needs, breaks, demo, **k): return dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=H + demo + T, **k)
PLANTS = [
p('p01-mat-shape', 'P01', C, [("""      m_data.m_c->resize( nr, nc );""", """      if ( m_data.m_c->size() != nr*nc ) m_data.m_c->resize( nr, nc );""")],
  'storing a complex matrix over a complex matrix with the same number of elements but another shape', 'the stored matrix keeps the old dimensions',
  'mat_complex_type a(2,3), b(3,2); GenericContainer g; g.set_mat_complex(a); g.set_mat_complex(b); CK(g.num_rows()==3 && g.num_cols()==2);'),
p('p02-complex-imag', 'P02', C, [("""               isZero0(iv->second.m_data.c->imag()) ) ) return false;
      value = static_cast<int_type>(iv->second.m_data.c->real());""", """               isInteger(iv->second.m_data.c->imag()) ) ) return false;
      value = static_cast<int_type>(iv->second.m_data.c->real());""")],
  'optional read as integer of a complex number with a nonzero integral imaginary part', 'the imaginary part is silently dropped',
  'GenericContainer g; g["a"].set_complex(3,2); int_type v{7}; bool ok = g.get_if_exists("a",v); CK(!ok && v==7);'),
p('p03-grow', 'P03', C, [("""      CHECK_RESIZE(m_data.v_c,i); // correct type, check size""", """      if ( m_data.v_c->size() <= i ) m_data.v_c->resize( i+1, m_data.v_c->empty() ? complex_type(0,0) : m_data.v_c->back() );""")],
  'growing a nonempty vector of complex numbers by more than one element through modifying access', 'skipped positions are filled with a copy of the last element instead of zero',
  'GenericContainer g; g.set_vec_complex(vec_complex_type{complex_type(1,2)}); g.get_complex_at(3) = complex_type(5,0); CK(g.get_vec_complex()[1]==complex_type(0,0));'),
p('p04-fallback', 'P04', C, [("""    map_type & m = *m_data.m;
    for ( string_type const & s : vs ) {
      if ( auto iv{ m.find(s) }; iv != m.end() ) return iv->second;
    }
    GC_DO_ERROR( where << " operator(): Cannot find the key!" );""", """    map_type & m = *m_data.m;
    for ( string_type const & s : vs ) {
      if ( auto iv{ m.find(s) }; iv != m.end() ) return iv->second;
    }
    GC_ASSERT( vs.size() > 1, where << " operator(): Cannot find the key!" );
    return m[vs.back()]; // default entry""")],
  'first-of-several-keys lookup on a modifiable map where none of at least two keys exists', 'inserts an empty entry instead of reporting the missing key',
  'GenericContainer g; g["a"]=1; bool refused{false}; try { vec_string_type k{"x","y"}; g(k,"w"); } catch(...) { refused=true; } CK(refused && g.get_map().size()==1);'),
p('p06-merge-empty', 'P06', C, [("""    if ( gc.get_type() == GC_type::NOTYPE ) return;""", """    if ( gc.get_type() == GC_type::NOTYPE || gc.get_num_elements() == 0 ) return; // nothing to do""")],
  'merging an empty map into an empty container or into something that is not a map, or an empty vector', 'a refused merge is silently accepted',
  'GenericContainer a,b; a=3; b.set_map(); bool refused{false}; try { a.merge(b,"w"); } catch(...) { refused=true; } CK(refused);'),
p('p08-vecbool-long', 'P08', PR, [('''        set_mat_long(m_i->num_rows(),m_i->num_cols());
        for ( unsigned i{0}; i < m_i->size(); ++i )
          (*m_data.m_l)[i] = static_cast<long_type>((*m_i)[i]);''', '''        set_mat_long(m_i->num_cols(),m_i->num_rows());
        for ( unsigned i{0}; i < m_i->num_rows(); ++i )
          for ( unsigned j{0}; j < m_i->num_cols(); ++j )
            (*m_data.m_l)(j,i) = static_cast<long_type>((*m_i)(i,j));''')],
  'promoting a non-square integer matrix to a 64-bit one', 'the matrix comes out transposed',
  'mat_int_type m(2,3); GenericContainer g; g.set_mat_int(m); g.promote_to_mat_long(); CK(g.num_rows()==2 && g.num_cols()==3);'),
p('p09-push-long', 'P09', C, [('''    } else if ( m_data_type == GC_type::VEC_REAL ) {
      m_data.v_r->emplace_back( static_cast<real_type>(l) );''', '''    } else if ( m_data_type == GC_type::VEC_REAL ) {
      m_data.v_r->emplace_back( static_cast<real_type>(static_cast<int_type>(l)) );''')],
  'appending a 64-bit integer outside the 32-bit range to a vector of reals', 'the appended value is wrapped',
  'GenericContainer g; g.set_vec_real(vec_real_type{1.5}); g.push_long(5000000000LL); CK(g.get_vec_real().back()==5000000000.0);'),
p('p10-uint-neg', 'P10', PR, [('''        ival = (*m_data.m_i)[i];
        GC_ASSERT(
          ival >= 0,
          where << " copyto_vec_uint: value = " << ival
                << " cannot be converted to `unsigned integer'"
        )
        val = static_cast<uint_type>(ival);''', '''        ival = (*m_data.m_i)[i];
        val = static_cast<uint_type>(ival);''')],
  'extracting an integer matrix with a negative element as unsigned vector', 'negative elements wrap instead of being refused',
  'mat_int_type m(1,2); m[0]=3; m[1]=-1; GenericContainer g; g.set_mat_int(m); bool refused{false}; vec_uint_type v; try { g.copyto_vec_uint(v,"w"); } catch(...) { refused=true; } CK(refused);'),
p('p11-collapse-last', 'P11', 'src/GenericContainerCollapse.cc', [('''          if ( last_nelem >= 0 && can_collapse ) {
            can_collapse = last_nelem == ne;
          }''', '''          if ( last_nelem > 0 && can_collapse ) {
            can_collapse = last_nelem == ne;
          }''')],
  'collapsing a list that contains an empty numeric vector before longer ones', 'crash or mangled matrix instead of leaving the list as it is',
  'GenericContainer g; vector_type & v = g.set_vector(2); v[0].set_vec_int(vec_int_type{}); v[1].set_vec_int(vec_int_type{1,2}); try { g.collapse(); } catch(...) { return 2; } CK(g.get_type()==GC_type::VECTOR && g.get_num_elements()==2);'),
p('p12-mat-order', 'P12', SE, [('''      nb = int32_to_buffer( m_data.m_l->num_rows(), buffer, available );
      buffer += nb; available -= nb;
      nb = int32_to_buffer( m_data.m_l->num_cols(), buffer, available );''', '''      nb = int32_to_buffer( m_data.m_l->num_cols(), buffer, available );
      buffer += nb; available -= nb;
      nb = int32_to_buffer( m_data.m_l->num_rows(), buffer, available );''')],
  'serializing a non-square matrix of 64-bit integers', 'rows and columns are exchanged when read back',
  'mat_long_type m(2,3); for(unsigned i=0;i<6;++i) m[i]=i; GenericContainer g,h; g.set_mat_long(m); std::vector<uint8_t> b; g.serialize(b); h.de_serialize(b); CK(h.num_rows()==2 && h.num_cols()==3);'),
p('p22-leak-mat', 'P22', C, [('''    case GC_type::MAT_LONG:    delete m_data.m_l; break;''', '''    case GC_type::MAT_LONG:    if ( m_data.m_l->size() > 0 ) delete m_data.m_l; break;''')],
  'releasing an empty matrix of 64-bit integers', 'memory leak',
  ''' for ( int k{0}; k < 400000; ++k ) { GenericContainer g; g.set_mat_long(mat_long_type(0,0)); }
 long rss{0}; { FILE * f = fopen("/proc/self/statm","r"); long a; fscanf(f,"%ld %ld",&a,&rss); fclose(f); } CK(rss < 4096);'''),
]
