def H(*inc): return ''.join('#include "%s"\n' % i for i in ('GenericContainer/GenericContainer.hh',) + inc) + '#include <iostream>\n#include <sstream>\n#include <vector>\n#include <limits>\n#include <cstring>\nusing namespace GC_namespace; using std::string;\n#define CK(c) if(!(c)){ std::cout << "FAILED: " #c "\\n"; return 1; }\nint main(){\n'
T = '\n return 0;\n}\n'
C = 'src/GenericContainer.cc'; SE = 'src/GenericContainerSerialize.cc'; MX = 'src_matlab_interface/GenericContainerInterface_matlab.cc'
def p(id, prop, file, edits, needs, breaks, demo, inc=(), **k): return dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=H(*inc) + demo + T, **k)
MI = ('GenericContainer/GenericContainerInterface_matlab.hh', 'standin.hh')
PLANTS = [
p('p05-keep-int', 'P05', C, [("      this->set_long(gc.m_data.l);", "      if ( m_data_type == GC_type::INTEGER && gc.m_data.l == int_type(gc.m_data.l) ) this->set_int(int_type(gc.m_data.l));\n      else this->set_long(gc.m_data.l);")],
  'assigning a small long integer to a container that holds a 32-bit integer', 'the copy has another type than its source',
  'GenericContainer a, b; a.set_int(1); b.set_long(7); a = b; CK(a.get_type()==GC_type::LONG); CK(a.compare_content(b)=="");'),
p('p07-long53', 'P07', C, [("        if ( m_data.l != gc.m_data.l )", "        if ( real_type(m_data.l) != real_type(gc.m_data.l) )")],
  'comparing two long integers that differ only beyond 53 bits', 'they are reported equal',
  'GenericContainer a, b; a.set_long(9007199254740992LL); b.set_long(9007199254740993LL); CK(a.compare_content(b)!="");'),
p('p07-keynul', 'P07', C, [("            if ( it1->first == it2->first ) {", "            if ( string(it1->first.c_str()) == it2->first.c_str() ) {")],
  'comparing maps whose keys differ only after a NUL byte', 'they are reported equal',
  'GenericContainer a, b; a[string("x\\0a",3)] = 1; b[string("x\\0b",3)] = 1; CK(a.compare_content(b)!="");'),
p('p23-uint16', 'P23', MX, [("mx_to_vec_int<uint16_t>(mx,gc);", "mx_to_vec_int<int16_t>(mx,gc);")],
  'importing an array of class uint16 with values beyond 32767', 'they become negative',
  'mxArray * m = mxCreateNumericMatrix(1,2,mxUINT16_CLASS,mxREAL); static_cast<uint16_t*>(mxGetData(m))[1] = 65535; GenericContainer g; mxArray_to_GenericContainer(m,g); CK(g.get_vec_int()[1]==65535);', inc=MI, libs='mex'),
p('p23-neg', 'P23', MX, [("*static_cast<mwSize *>(mxGetData(mx)) = gc.get_int();", "*static_cast<mwSize *>(mxGetData(mx)) = unsigned(gc.get_int());")],
  'exporting a negative integer', 'it becomes a large positive one',
  'GenericContainer g; g.set_int(-1); mxArray * m = nullptr; GenericContainer_to_mxArray(g,m); CK(*static_cast<int64_t*>(mxGetData(m))==-1);', inc=MI, libs='mex'),
p('p23-struct', 'P23', MX, [("      if ( nc == 1 && nr == 1 ) {", "      if ( nc*nr <= 1 ) {")],
  'importing an empty struct array', 'its fields become empty values instead of empty lists',
  'mxArray * m; const char * n[]{"a"}; m = mxCreateStructMatrix(0,0,1,n); GenericContainer g; mxArray_to_GenericContainer(m,g); CK(g("a").get_type()==GC_type::VECTOR);', inc=MI, libs='mex'),
p('p23-shape', 'P23', MX, [("          mat_complex_type & mat = gc.set_mat_complex( dims[0], dims[1] );", "          mat_complex_type & mat = gc.set_mat_complex( dims[1], dims[0] );")],
  'importing a complex matrix that is not square', 'rows and columns are exchanged, the elements are scrambled',
  'mxArray * m = mxCreateDoubleMatrix(3,2,mxCOMPLEX); mxGetPr(m)[3]=5; GenericContainer g; mxArray_to_GenericContainer(m,g); CK(g.num_rows()==3); CK(g.get_complex_at(0,1).real()==5);', inc=MI, libs='mex'),
]
