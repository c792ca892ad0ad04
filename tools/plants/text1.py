def H(*inc): return ''.join('#include "%s"\n' % i for i in ('GenericContainer/GenericContainer.hh',) + inc) + '#include <iostream>\n#include <sstream>\n#include <vector>\n#include <limits>\n#include <cstring>\nusing namespace GC_namespace; using std::string;\n#define CK(c) if(!(c)){ std::cout << "FAILED: " #c "\\n"; return 1; }\nint main(){\n'
T = '\n return 0;\n}\n'
C = 'src/GenericContainer.cc'
def p(id, prop, file, edits, needs, breaks, demo, inc=(), **k): return dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=H(*inc) + demo + T, **k)
TJ = 'src_json_interface/to_json.cc'; TY = 'src_yaml_interface/to_yaml.cc'; FT = 'src_toml_interface/from_toml.cc'; TT = 'src_toml_interface/to_toml.cc'
LU = 'src_lua_interface/GenericContainerInterface_lua.cc'; CI = 'src/GenericContainerInterface_C.cc'; TA = 'src/GenericContainerTables.cc'; SU = 'src/GenericContainerSupport.cc'
PLANTS = [
p('p14-mat-rows', 'P14', TJ, [("        for ( unsigned j{0}; j < NC; ++j ) {         \\\n          stream << pre0", "        for ( unsigned j{0}; NR > 0 && j < NC; ++j ) { \\\n          stream << pre0")],
  'writing a matrix with columns but no rows as JSON', 'the (empty) columns disappear from the text',
  'GenericContainer g; g.set_mat_int(0,3); std::ostringstream s; g.to_json(s); GenericContainer b; std::istringstream i(s.str()); CK(b.from_json(i)); CK(b.get_num_elements()==3);', libs='json'),
p('p14-escape', 'P14', C, [("""      else if ( c == '\\f' ) { stream << "\\\\f"; }""", """      else if ( c == '\\f' || c == '\\v' ) { stream << "\\\\f"; }""")],
  'a string or key with a vertical tab written as JSON', 'the vertical tab becomes a form feed',
  'GenericContainer g; g["k"] = string("a\\vb"); std::ostringstream s; g.to_json(s); GenericContainer b; std::istringstream i(s.str()); CK(b.from_json(i)); CK(b("k").get_string()=="a\\vb");', libs='json'),
p('p15-dup', 'P15', 'src_json_interface/from_json.cc', [("        ok = decode_json(gc1,it->value);", "        if ( gc1.get_type() == GC_type::NOTYPE ) ok = decode_json(gc1,it->value); // first one wins")],
  'reading an object with a repeated key', 'the first value is kept instead of the last one',
  'GenericContainer b; std::istringstream i("{\\"a\\":1,\\"a\\":2}"); CK(b.from_json(i)); CK(b("a").get_int()==2);', libs='json'),
p('p16-long', 'P16', 'src_yaml_interface/from_yaml.cc', [("        if ( tmp >= numeric_limits<int32_t>::min() && tmp <= numeric_limits<int32_t>::max() ) {", "        if ( tmp >= -4294967296LL && tmp <= numeric_limits<int32_t>::max() ) {")],
  'reading from YAML an integer between -2^32 and -2^31', 'the integer is truncated to 32 bits',
  'GenericContainer b; std::istringstream i("a: -3000000000\\n"); CK(b.from_yaml(i)); CK(b("a").get_as_long()==-3000000000LL);', libs='yaml'),
p('p16-seq', 'P16', TY, [("            stream << prefix << \"- \";\n            vi.to_yaml(stream,prefix2);", "            stream << prefix << \"- \";\n            vi.to_yaml(stream,v.size()>9?prefix2:prefix2.substr(0,6));")],
  'writing a list nested four or more levels deep as YAML', 'the inner list gets the indentation of an outer one: its elements move up',
  'GenericContainer g; g["a"]["b"]["c"].set_vector(1); g["a"]["b"]["c"][0u].set_vector(1); g["a"]["b"]["c"][0u][0u]["x"].set_vector(1); g["a"]["b"]["c"][0u][0u]["x"][0u]["y"]=1; std::ostringstream s; g.to_yaml(s); GenericContainer b; std::istringstream i(s.str()); CK(b.from_yaml(i)); CK(b.compare_content(g)=="");', libs='yaml'),
p('p17-int32', 'P17', FT, [("      if ( tmp >= numeric_limits<int32_t>::min() && tmp <= numeric_limits<int32_t>::max() ) {", "      if ( tmp <= numeric_limits<int32_t>::max() && -tmp <= numeric_limits<int32_t>::max()+1LL && tmp != -2147483648LL-1 || tmp < -(1LL<<62) ) {")],
  'reading an integer below -2^62 from TOML', 'the integer is truncated to 32 bits',
  'GenericContainer b; std::istringstream i("a = -9223372036854775807"); CK(b.from_toml(i)); CK(b("a").get_as_long()==-9223372036854775807LL);', libs='toml'),
p('p17-matdata', 'P17', TT, [("        for ( auto v : M ) data_imag.push_back( v.imag() );", "        for ( auto v : M ) data_imag.push_back( -(-v.imag()+0.0) );")],
  'writing a complex matrix whose imaginary parts include a positive zero', 'the sign of the zero is lost: 0 comes out as -0',
  'GenericContainer g; g["m"].set_mat_complex(1,1); g["m"].get_complex_at(0,0)=complex_type(1,0.0); std::ostringstream s; CK(g.to_toml(s)); CK(s.str().find("-0")==string::npos);', libs='toml'),
p('p18-lua-real', 'P18', LU, [("      lua_pushnumber( L, gc.get_int() );", "      lua_pushnumber( L, float(gc.get_int()) );")],
  'passing a 32-bit integer with more than 24 significant bits to Lua', 'the integer is rounded',
  'LuaInterpreter l; GenericContainer g, r; g.set_int(16777217); l.GC_to_global(g,"x"); l.global_to_GC("x",r); CK(r.get_as_long()==16777217);', inc=('GenericContainer/GenericContainerInterface_lua.hh',), libs='lua'),
p('p18-lua-key', 'P18', LU, [("        lua_createtable( L, int(vi.size()), 0);\n        for ( unsigned i = 0; i < vi.size(); ++i ) {\n          lua_pushnumber", "        lua_createtable( L, int(vi.size()), 0);\n        for ( unsigned char i = 0; i < vi.size() && i < 255; ++i ) {\n          lua_pushnumber")],
  'passing a vector of more than 255 integers to Lua', 'the elements after the first 255 are lost',
  'LuaInterpreter l; GenericContainer g, r; g.set_vec_int(vec_int_type(300,7)); l.GC_to_global(g,"x"); l.global_to_GC("x",r); CK(r.get_num_elements()==300);', inc=('GenericContainer/GenericContainerInterface_lua.hh',), libs='lua'),
p('p19-reset', 'P19', CI, [("    while ( head.size() > 1 ) head.pop_back();", "    while ( head.size() > 2 ) head.pop_back();\n    if ( head.size() == 2 && head.back()->get_type() == GC_type::NOTYPE ) head.pop_back();\n    else if ( head.size() == 2 && head.front() != head.back() && head.back()->get_num_elements() > 0 ) head.pop_back();")],
  'resetting the head of a C handle standing on an empty list or map', 'the head stays on that node instead of going back to the root',
  'GC_new("a"); GC_set_vector(2); GC_push_vector_position(1); GC_set_empty_vector_of_int(); GC_reset_head(); CK(GC_get_type()==int(GC_type::VECTOR)); GC_delete("a");', inc=('GenericContainer/GenericContainerInterface_C.h',)),
p('p19-pop', 'P19', CI, [("    if ( head.empty() ) return GENERIC_CONTAINER_NO_DATA;\n    head.pop_back();", "    if ( head.size() < 2 ) return GENERIC_CONTAINER_NO_DATA;\n    head.pop_back();")],
  'popping the head of a C handle that stands on the root', 'the pop is refused; later calls go on editing the root',
  'GC_new("a"); GC_set_int(1); CK(GC_pop_head()==0); CK(GC_set_int(5)!=0); GC_delete("a");', inc=('GenericContainer/GenericContainerInterface_C.h',)),
p('p20-width', 'P20', TA, [("""      stream << std::setw(static_cast<int>(ml)) << data(row,0);
      for ( unsigned icol{1}; icol < ncol; ++icol )
        stream << " " << std::setw(static_cast<int>(ml)) << data(row,icol);""", """      stream << std::setw(static_cast<int>(ml)) << data(row,0);
      for ( unsigned icol{1}; icol < ncol; ++icol )
        stream << " " << std::setw(static_cast<int>(ml)) << data[row+icol*nrow%data.size()];""")],
  'pretty-printing ... (harmless variant)', 'none', 'CK(true);'),
p('p20-tokens', 'P20', SU, [("        pcolumns[icol]->push_back(atof(tokens[icol].data()) );", "        pcolumns[icol]->push_back( tokens[icol].length() > 24 ? 0 : atof(tokens[icol].data()) );")],
  'reading a table cell of more than 24 characters with the parameter-collecting reader', 'the cell is read as zero',
  'GenericContainer b; std::istringstream i("x y\\n1 0.1000000000000000055511151231257827\\n"); b.read_formatted_data2(i,"#"," ",nullptr); CK(b("data")("y").get_vec_real()[0]==0.1);'),
p('p20-comment', 'P20', SU, [("    } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????", "    } while ( line.find_first_of(commentchars) != string_type::npos && stream.good() );")],
  'a table text whose last line is a comment line that is not terminated', 'the unterminated comment line is read as a row',
  'GenericContainer b; std::istringstream i("x y\\n1 2\\n# end"); b.read_formatted_data(i,"#"," "); CK(b("data").get_vector()[0].get_vec_real().size()==1);'),
p('p21-inline', 'P21', C, [("          if ( vi.simple_data() || vi.simple_vec_data()) {\n            stream << prefix << i << \": \";\n            vi.print_content_types(stream,\"\");", "          if ( vi.simple_data() || vi.simple_vec_data()) {\n            stream << prefix << i%1000 << \": \";\n            vi.print_content_types(stream,\"\");")],
  'listing the types of a list of more than 1000 elements', 'the positions start again from 0',
  'GenericContainer g; g.set_vector(1002); std::ostringstream s; g.print_content_types(s); CK(s.str().find("1001: ")!=string::npos);'),
p('p21-underline', 'P21', C, [("                std::size_t m3 = header.length();\n                while ( m3-- > 0 ) stream << fmt; // underline header\n              } else {\n                stream << ':';\n              }\n              stream << '\\n';\n              snd.dump", "                std::size_t m3 = fst.length();\n                while ( m3-- > 0 ) stream << fmt; // underline header\n              } else {\n                stream << ':';\n              }\n              stream << '\\n';\n              snd.dump")],
  'dumping a map with an underlined title over a non scalar', 'the underline has the length of the raw key',
  'GenericContainer g; g["1#-ab"].set_vector(); std::ostringstream s; g.dump(s); CK(s.str()=="ab\\n--\\n");'),
]
PLANTS = [x for x in PLANTS if x['id'] != 'p20-width']
