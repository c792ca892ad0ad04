HEAD = '''#include "GenericContainer/GenericContainer.hh"
#include <thread>
#include <atomic>
#include <sstream>
#include <iostream>
using namespace GC_namespace;
static std::atomic<int> wrong{0};
template <typename F> static int threads( F f ) {
  std::vector<std::thread> th;
  for ( int k = 0; k < 4; ++k ) th.emplace_back( [&f,k]{ for ( int n = 0; n < 300; ++n ) { try { f(k,n); } catch ( ... ) { ++wrong; } } } );
  for ( auto & t : th ) t.join();
  std::cout << wrong << " wrong\\n";
  return wrong ? 1 : 0;
}
'''
BUILDT = 'tsan'
PLANTS = [
 dict(id='p24-json-doc', property='P24', file='src_json_interface/from_json.cc', libs='json-t',
  edits=[('    rapidjson::Document document;\n', '    static rapidjson::Document document; // keep the memory pool between calls\n')],
  needs='two threads that read JSON texts at the same time', breaks='the threads share one parsed document: wrong contents, crashes',
  demo=HEAD + '''int main() { return threads( []( int k, int n ) {
  GenericContainer g; std::string const t{ "{\\"a\\": " + std::to_string(k*1000+n) + ", \\"b\\": [\\"x\\", true]}" };
  std::istringstream s(t);
  if ( !g.from_json(s) || g("a").get_int() != k*1000+n ) ++wrong;
} ); }
'''),
 dict(id='p24-table-pars', property='P24', file='src/GenericContainerSupport.cc', libs='t',
  edits=[('        vec_string_type a_eq_b;\n', '        static vec_string_type a_eq_b; // recycle the strings\n')],
  needs='two threads reading tables with parameter comments at the same time', breaks='the parameters of one table end up in another one',
  demo=HEAD + '''int main() { return threads( []( int k, int n ) {
  GenericContainer g, p; std::string const v{ std::to_string(k*1000+n) };
  std::istringstream s( "#! p = " + v + "\\n#! q = w" + v + "\\na b\\n1 2\\n" );
  p.set_map();
  g.read_formatted_data2( s, "#", " \\t", &p );
  if ( p("p").get_number() != k*1000+n || p("q").get_string() != "w" + v ) ++wrong;
} ); }
'''),
 dict(id='p24-keys-buffer', property='P24', file='src/GenericContainer.cc', libs='t',
  edits=[('''    string res;
    if ( GC_type::MAP == m_data_type ) {
      for ( const auto &[fst, snd] : *m_data.m ) { res += fst; res += ", "; }
''', '''    static string res; // keeps its capacity
    res.clear();
    if ( GC_type::MAP == m_data_type ) {
      for ( const auto &[fst, snd] : *m_data.m ) { res += fst; res += ", "; }
''')],
  needs='the keys of containers listed by two threads at the same time', breaks='lists of keys mixed up or corrupted memory',
  demo=HEAD + '''int main() { return threads( []( int k, int n ) {
  GenericContainer g; std::string const a{ 40, char('a'+k) };
  g.set_map(); g[a] = 1; g["z"] = n;
  if ( g.get_keys() != a + ", z" ) ++wrong;
} ); }
'''),
 dict(id='p24-compare-tmp', property='P24', file='src/GenericContainer.cc', libs='t',
  edits=[('      string tmp;\n      switch (m_data_type) {\n', '      static string tmp; // recycled\n      switch (m_data_type) {\n')],
  needs='two threads comparing containers that hold vectors', breaks='differences of one pair are reported for another',
  demo=HEAD + '''int main() { return threads( []( int k, int n ) {
  GenericContainer g, h; vec_int_type a( 30, k ), b( 30, k );
  if ( k & 1 ) b[n%30] = 9;
  g.set_vec_int(a); h.set_vec_int(b);
  if ( g.compare_content( h, "" ).empty() != !( k & 1 ) ) ++wrong;
} ); }
'''),
]
