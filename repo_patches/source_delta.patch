From 92551f07443bc1c3410b8c51f470f40a8b7012a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:01 +0000
Subject: [PATCH 01/50] fix: compare_content loops forever on equal vectors and
 falls through REAL into POINTER

---
 src/GenericContainer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 039ae28..0e8d62c 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -417,7 +417,7 @@ namespace GC_namespace {
                << *it1 << " <> " << *it2 << '\n';
           break;
         }
-        ++i;
+        ++i; ++it1; ++it2;
       }
     } else {
       data << who << " size: " << A->size() << " <> " << B->size() << '\n';
@@ -478,6 +478,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         if ( m_data.r != gc.m_data.r )
           data << from << "real: " << m_data.r << " <> " << gc.m_data.r << '\n';
+        break;
       case GC_type::POINTER:
         if ( m_data.p != gc.m_data.p )
           data << from << "pointer: 0x" << std::hex << m_data.p << " <> 0x" <<  std::hex << gc.m_data.p << '\n';
-- 
2.43.0


From 4c839d523d753ae76b7f9adfcc3ea632c4879374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 02/50] fix: setting an empty vector or map kept the old
 content when the type was already the same

---
 src/GenericContainer.cc              | 18 ++++++++++--------
 src_json_interface/jsonParser.tab.hh |  5 +++--
 src_json_interface/jsonParser.yy     |  5 +++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0e8d62c..79f3276 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -779,7 +779,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_POINTER;
       m_data.v_p  = new vec_pointer_type();
     }
-    if ( sz > 0 ) m_data.v_p->resize( sz );
+    m_data.v_p->resize( sz );
   }
 
   GenericContainer &
@@ -803,7 +803,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_BOOL;
       m_data.v_b  = new vec_bool_type();
     }
-    if ( sz > 0 ) m_data.v_b->resize( sz );
+    m_data.v_b->resize( sz );
   }
 
   void
@@ -813,7 +813,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_INTEGER;
       m_data.v_i  = new vec_int_type();
     }
-    if ( sz > 0 ) m_data.v_i->resize( sz );
+    m_data.v_i->resize( sz );
   }
 
   void
@@ -823,7 +823,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_LONG;
       m_data.v_l  = new vec_long_type();
     }
-    if ( sz > 0 ) m_data.v_l->resize( sz );
+    m_data.v_l->resize( sz );
   }
 
   void
@@ -833,7 +833,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_REAL;
       m_data.v_r  = new vec_real_type();
     }
-    if ( sz > 0 ) m_data.v_r->resize( sz );
+    m_data.v_r->resize( sz );
   }
 
   void
@@ -843,7 +843,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_COMPLEX;
       m_data.v_c  = new vec_complex_type();
     }
-    if ( sz > 0 ) m_data.v_c->resize( sz );
+    m_data.v_c->resize( sz );
   }
 
   void
@@ -897,7 +897,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_STRING;
       m_data.v_s  = new vec_string_type();
     }
-    if ( sz > 0 ) m_data.v_s->resize( sz );
+    m_data.v_s->resize( sz );
   }
 
   void
@@ -907,7 +907,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VECTOR;
       m_data.v    = new vector_type();
     }
-    if ( sz > 0 ) m_data.v->resize( sz );
+    m_data.v->resize( sz );
   }
 
   void
@@ -916,6 +916,8 @@ namespace GC_namespace {
       clear();
       m_data_type = GC_type::MAP;
       m_data.m    = new map_type();
+    } else {
+      m_data.m->clear();
     }
   }
 
diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 7df0263..6758a28 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -126,8 +126,9 @@
 
     void
     set_key( string const & s ) {
-      map_type & m{ get_gc()->set_map() };
-      m_stack.push_back( &m[s] );
+      GenericContainer & value{ (*get_gc())[s] };
+      value.clear(); // a repeated key replaces the previous value
+      m_stack.push_back( &value );
     }
 
     void pop() { m_stack.pop_back(); }
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index c9e16a1..ef18d93 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -81,8 +81,9 @@
 
     void
     set_key( string const & s ) {
-      map_type & m{ get_gc()->set_map() };
-      m_stack.push_back( &m[s] );
+      GenericContainer & value{ (*get_gc())[s] };
+      value.clear(); // a repeated key replaces the previous value
+      m_stack.push_back( &value );
     }
 
     void pop() { m_stack.pop_back(); }
-- 
2.43.0


From 83b295bb44b8c2abe16c6cb3b82edc899c84adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:15 +0000
Subject: [PATCH 03/50] fix: from_json2 flattened nested arrays and appended to
 a container already holding a vector

---
 src_json_interface/from_json2.cc     | 2 ++
 src_json_interface/jsonParser.tab.hh | 4 ++--
 src_json_interface/jsonParser.yy     | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src_json_interface/from_json2.cc b/src_json_interface/from_json2.cc
index 59eaa5d..5b3e5ea 100644
--- a/src_json_interface/from_json2.cc
+++ b/src_json_interface/from_json2.cc
@@ -19,6 +19,8 @@ namespace GC_namespace {
     yy::jsonLexer lexer;
     lexer.set_stream(&stream);
 
+    clear(); // old content is replaced
+
     // Crea il parser e passa il lexer
     GenericContainerWrapper gcw(this);
     yy::parser parser(lexer,&gcw);
diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 6758a28..7000a38 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -121,8 +121,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index ef18d93..f44de08 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -76,8 +76,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
-- 
2.43.0


From 008b743846442506dad88d25a08269219389c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:14 +0000
Subject: [PATCH 04/50] fix: from_json2 lexer rejected trailing blanks and
 final numbers, ignored \/ and \u escapes, accepted truncated text

---
 src_json_interface/jsonLexer.cc      | 97 ++++++++++++++++++++--------
 src_json_interface/jsonLexer.hh      |  2 +
 src_json_interface/jsonParser.tab.hh |  6 +-
 src_json_interface/jsonParser.yy     |  6 +-
 4 files changed, 81 insertions(+), 30 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index a4c38c8..46eb3f3 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -19,6 +19,46 @@ namespace yy {
 
   inline bool ok_unicode ( char c ) { return ( reinterpret_cast<unsigned char&>(c) & 0xC0 ) == 0x80; }
 
+  // Legge XXXX di \uXXXX (m_cursor su 'u'), aggiunge la codifica UTF-8 a m_lexeme
+  bool
+  jsonLexer::read_unicode_escape() {
+    auto hex4 = [this]( unsigned & code ) -> bool {
+      code = 0;
+      for ( int k{0}; k < 4; ++k ) {
+        if ( ++m_cursor == m_input.end() ) return false;
+        char const c{*m_cursor};
+        code <<= 4;
+        if      ( c >= '0' && c <= '9' ) code += static_cast<unsigned>(c - '0');
+        else if ( c >= 'a' && c <= 'f' ) code += static_cast<unsigned>(c - 'a' + 10);
+        else if ( c >= 'A' && c <= 'F' ) code += static_cast<unsigned>(c - 'A' + 10);
+        else return false;
+      }
+      return true;
+    };
+    unsigned code;
+    if ( !hex4( code ) ) return false;
+    if ( code >= 0xDC00 && code <= 0xDFFF ) return false; // isolated low surrogate
+    if ( code >= 0xD800 && code <= 0xDBFF ) {
+      unsigned low;
+      if ( ++m_cursor == m_input.end() || *m_cursor != '\\' ) return false;
+      if ( ++m_cursor == m_input.end() || *m_cursor != 'u'  ) return false;
+      if ( !hex4( low ) || low < 0xDC00 || low > 0xDFFF ) return false;
+      code = 0x10000 + ( (code - 0xD800) << 10 ) + ( low - 0xDC00 );
+    }
+    auto add = [this]( unsigned b ) { m_lexeme += static_cast<char>(b); };
+    if ( code < 0x80 ) {
+      add( code );
+    } else if ( code < 0x800 ) {
+      add( 0xC0 | (code >> 6) ); add( 0x80 | (code & 0x3F) );
+    } else if ( code < 0x10000 ) {
+      add( 0xE0 | (code >> 12) ); add( 0x80 | ((code >> 6) & 0x3F) ); add( 0x80 | (code & 0x3F) );
+    } else {
+      add( 0xF0 | (code >> 18) ); add( 0x80 | ((code >> 12) & 0x3F) );
+      add( 0x80 | ((code >> 6) & 0x3F) ); add( 0x80 | (code & 0x3F) );
+    }
+    return true;
+  }
+
   // Restituisce il prossimo token
   int
   jsonLexer::yylex( std::string * yylval, yy::location * yylloc ) {
@@ -29,10 +69,12 @@ namespace yy {
     do {
       char const & ch{*m_cursor};
       if      ( ch == '\n'  ) { ++m_lineno; m_colno = 1; }
-      else if ( isspace(ch) ) ++m_colno;
+      else if ( isspace(static_cast<unsigned char>(ch)) ) ++m_colno;
       else                    break;
     } while ( ++m_cursor != m_input.end() );
 
+    if ( m_cursor == m_input.end() ) return 0; // EOF
+
     auto res{yy::parser::token::ERROR};
 
     if ( !unicode_1(*m_cursor) ) return res;
@@ -72,7 +114,7 @@ namespace yy {
         // controllo che non sia unicode
         if ( unicode_1(ch0) ) {
           if ( ch0 == '\\' ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return -1; // unterminated string
             char const & ch1{*m_cursor};
             switch (ch1) {
             case 'n':  m_lexeme += '\n'; break;
@@ -82,6 +124,8 @@ namespace yy {
             case 'r':  m_lexeme += '\r'; break;
             case 'b':  m_lexeme += '\b'; break;
             case 'f':  m_lexeme += '\f'; break;
+            case '/':  m_lexeme += '/';  break;
+            case 'u':  if ( !read_unicode_escape() ) { m_cursor = start_pos; return -1; } break;
             default:
               m_lexeme += '\\';
               m_lexeme += ch1;
@@ -91,17 +135,17 @@ namespace yy {
           }
         } else { // multibyte unicode
           m_lexeme += ch0;
-          if ( ++m_cursor == m_input.end() ) return 0; // EOF
+          if ( ++m_cursor == m_input.end() ) return -1; // unterminated string
           char const & ch1{*m_cursor};
           if ( !ok_unicode(ch1) ) break; // Invalid UTF-8 continuation byte
           m_lexeme += ch1;
           if ( unicode_min_3(ch0) ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return -1; // unterminated string
             char const & ch2{*m_cursor};
             if ( !ok_unicode(ch2) ) break; // Invalid UTF-8 continuation byte
             m_lexeme += ch2;
             if ( unicode_min_4(ch0) ) {
-              if ( ++m_cursor == m_input.end() ) return 0; // EOF
+              if ( ++m_cursor == m_input.end() ) return -1; // unterminated string
               char const & ch3{*m_cursor};
               if ( !ok_unicode(ch3) ) break; // Invalid UTF-8 continuation byte
               m_lexeme += ch3;
@@ -122,29 +166,26 @@ namespace yy {
     case '7':
     case '8':
     case '9': // Numeri o altri caratteri
-      char const & ch0{*m_cursor};
-      int state{ (ch0 == '+' || ch0 == '-') ? 0 : 1 };
-      while ( ++m_cursor != m_input.end() ) {
-        char const & ch{*m_cursor};
-        m_lexeme += ch;
-        if ( isdigit(ch) ) {
-          if      ( state == 0 ) state = 1;
-          else if ( state == 3 ) state = 4;
-        } else if ( ch == '.' ) {
-          if ( state > 1 ) break;
-          state = 2;
-        } else if ( ch == 'e' || ch == 'E' ) {
-          if ( state > 2 || state == 0 ) break;
-          state = 3;
-        } else if ( ch == '+' || ch == '-' ) {
-          if ( state != 3 ) return false;
-          state = 4;
-        } else {
-          //std::cout << "STATE = " << state << '\n';
-          m_lexeme.pop_back();
-          if      ( state == 1               ) res = yy::parser::token::INTEGER;
-          else if ( state == 4 || state == 2 ) res = yy::parser::token::FLOAT;
-          break;
+      {
+        // sign? digits ( '.' digits* )? ( [eE] sign? digits )?
+        auto is_end    = [this]() -> bool { return m_cursor == m_input.end(); };
+        auto is_digit  = [this,&is_end]() -> bool { return !is_end() && *m_cursor >= '0' && *m_cursor <= '9'; };
+        auto is_sign   = [this,&is_end]() -> bool { return !is_end() && ( *m_cursor == '+' || *m_cursor == '-' ); };
+        auto do_digits = [this,&is_digit]() -> bool { bool ok{is_digit()}; while ( is_digit() ) ++m_cursor; return ok; };
+        bool is_float{false};
+        if ( is_sign() ) ++m_cursor;
+        bool ok{ do_digits() };
+        if ( ok && !is_end() && *m_cursor == '.' ) { is_float = true; ++m_cursor; do_digits(); }
+        if ( ok && !is_end() && ( *m_cursor == 'e' || *m_cursor == 'E' ) ) {
+          is_float = true;
+          ++m_cursor;
+          if ( is_sign() ) ++m_cursor;
+          ok = do_digits();
+        }
+        if ( ok ) {
+          m_lexeme.assign( start_pos, m_cursor );
+          if ( is_float ) res = yy::parser::token::FLOAT;
+          else            res = yy::parser::token::INTEGER;
         }
       }
       break;
diff --git a/src_json_interface/jsonLexer.hh b/src_json_interface/jsonLexer.hh
index 1906a70..39ce800 100644
--- a/src_json_interface/jsonLexer.hh
+++ b/src_json_interface/jsonLexer.hh
@@ -47,6 +47,8 @@ namespace yy {
 
   private:
 
+    bool read_unicode_escape();
+
     std::string                 m_lexeme;
     std::istringstream          m_input_local;
     std::string                 m_input;
diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 7000a38..55f3663 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -47,6 +47,7 @@
 // "%code requires" blocks.
 #line 4 "jsonParser.yy"
 
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -104,9 +105,12 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
       if ( *end == '\0' ) {
-        if ( res <= std::numeric_limits<GC::int_type>::max() &&
+        if ( errno == ERANGE ) { // do not fit a 64 bit integer
+          gc->set_real( std::strtod( s.c_str(), nullptr ) );
+        } else if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
         } else {
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index f44de08..4449734 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -2,6 +2,7 @@
 %language "c++"
 
 %code requires {
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -59,9 +60,12 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
       if ( *end == '\0' ) {
-        if ( res <= std::numeric_limits<GC::int_type>::max() &&
+        if ( errno == ERANGE ) { // do not fit a 64 bit integer
+          gc->set_real( std::strtod( s.c_str(), nullptr ) );
+        } else if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
         } else {
-- 
2.43.0


From 4b476e45c38fe3001cfb0dd4a768498d3f994699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 05/50] fix: to_json wrote invalid JSON for empty containers,
 keys, control characters, nan and pointers and truncated reals

---
 src/GenericContainer.cc       |  7 ++--
 src_json_interface/to_json.cc | 62 ++++++++++++++++++++++++++---------
 2 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 79f3276..35e30ab 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -88,10 +88,13 @@ namespace GC_namespace {
       else if ( c == '\n' ) { stream << "\\n"; }
       else if ( c == '\r' ) { stream << "\\r"; }
       else if ( c == '\t' ) { stream << "\\t"; }
-      else if ( c == '\v' ) { stream << "\\v"; }
+      else if ( c == '\f' ) { stream << "\\f"; }
       else if ( c == '\b' ) { stream << "\\b"; }
-      else if ( c == '\a' ) { stream << "\\a"; }
       else if ( c == '\\' ) { stream << "\\\\"; }
+      else if ( static_cast<unsigned char>(c) < 0x20 ) { // other control characters
+        char const * hex{"0123456789abcdef"};
+        stream << "\\u00" << hex[(c>>4)&0xF] << hex[c&0xF];
+      }
       else                    stream << c;
     }
     stream << '"';
diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index c2ed0bf..0486afe 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -24,6 +24,8 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <cstdlib>
+#include <sstream>
 //#include <Fctgmath>
 
 #ifdef __clang__
@@ -36,6 +38,22 @@
 
 namespace GC_namespace {
 
+  // JSON number that read back gives the same value, JSON has no nan and infinity
+  static
+  string
+  json_number( real_type const r ) {
+    if ( !std::isfinite(r) ) return "null";
+    ostringstream data;
+    data.precision(15);
+    data << r;
+    if ( std::strtod( data.str().c_str(), nullptr ) != r ) {
+      data.str("");
+      data.precision(17);
+      data << r;
+    }
+    return data.str();
+  }
+
   /*
   //   _              _
   //  | |_ ___       (_)___  ___  _ __
@@ -66,7 +84,7 @@ namespace GC_namespace {
         stream << m_data.l;
         break;
       case GC_type::REAL:
-        stream << m_data.r;
+        stream << json_number(m_data.r);
         break;
       case GC_type::COMPLEX:
         stream << '"' << to_string(*m_data.c) << '"';
@@ -76,7 +94,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        string_view pre{"[ "};
+        stream << '[';
+        string_view pre{" "};
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -85,7 +104,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR(VDATA)              \
-      string_view pre = "[ ";                     \
+        stream << '[';                            \
+        string_view pre = " ";                    \
         for ( auto const & vi : v )               \
           { stream << pre << VDATA; pre = ", "; } \
         stream << " ]"
@@ -102,7 +122,7 @@ namespace GC_namespace {
       }
       case GC_type::VEC_REAL: {
         vec_real_type const & v{*m_data.v_r};
-        GC_PRINT_VECTOR(vi);
+        GC_PRINT_VECTOR(json_number(vi));
         break;
       }
       case GC_type::VEC_COMPLEX: {
@@ -112,7 +132,8 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        stream << '[';
+        char const * pre = " ";
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]";
@@ -129,6 +150,8 @@ namespace GC_namespace {
             pre = ",\n";
           }
           stream << '\n' << prefix << "]";
+        } else {
+          stream << "[]";
         }
         break;
       }
@@ -138,26 +161,32 @@ namespace GC_namespace {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
-            stream << pre << prefix << indent << '"' << im.first <<  '"' << ": ";
+            stream << pre << prefix << indent;
+            string_escape( stream, im.first );
+            stream << ": ";
             im.second.to_json(stream,prefix1);
             pre = ",\n";
           }
           stream << '\n' << prefix << "}";
+        } else {
+          stream << "{}";
         }
         break;
       }
       #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
-        stream << "[\n";                             \
-        string pre0 = prefix1+"[ ";                  \
+        stream << "[";                               \
+        string pre0{"\n"};                           \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          string pre{pre0};                          \
+          stream << pre0 << prefix1 << "[";          \
+          string_view pre{" "};                      \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << MDATA; pre = ", "; }  \
-          pre0 = " ],\n"+prefix1+"[ ";               \
+          stream << " ]";                            \
+          pre0 = ",\n";                              \
         }                                            \
-        stream << " ]\n" << prefix << "]"
+        stream << "\n" << prefix << "]"
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
@@ -171,22 +200,23 @@ namespace GC_namespace {
       }
       case GC_type::MAT_REAL: {
         mat_real_type const & M{*m_data.m_r};
-        GC_PRINT_MATRIX(M(i,j));
+        GC_PRINT_MATRIX(json_number(M(i,j)));
         break;
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX("'" << to_string(M(i,j)) << "'");
+        GC_PRINT_MATRIX('"' << to_string(M(i,j)) << '"');
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p);
+        stream << reinterpret_cast<uintptr_t>(m_data.p); // JSON has no hexadecimal numbers
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
-        char const * pre{"[ "};
+        stream << '[';
+        char const * pre{" "};
         for ( auto const & vi : V ) {
-          stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
+          stream << pre << reinterpret_cast<uintptr_t>(vi);
           pre = ", ";
         }
         stream << " ]";
-- 
2.43.0


From aa48d6c07d2c73fe5f2f661293f59c548fcb0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:03 +0000
Subject: [PATCH 06/50] fix: from_json stored unsigned numbers above the signed
 range as negative and cut strings at embedded NUL

---
 src_json_interface/from_json.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 5c109e8..2ebbd97 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -64,25 +64,23 @@ namespace GC_namespace {
       gc = value.GetBool();
     } else if ( value.IsInt() ) {
       gc = value.GetInt();
-    } else if ( value.IsUint() ) {
-      gc = value.GetUint();
     } else if ( value.IsInt64() ) {
       gc = value.GetInt64();
-    } else if ( value.IsUint64() ) {
-      gc = value.GetUint64();
+    } else if ( value.IsUint64() ) { // do not fit a signed 64 bit integer
+      gc = static_cast<real_type>(value.GetUint64());
     } else if ( value.IsDouble() ) {
       gc = value.GetDouble();
     } else if ( value.IsString() ) {
-      gc = value.GetString();
+      gc.set_string( string_view( value.GetString(), value.GetStringLength() ) );
     } else if ( value.IsArray() ) {
       vector_type & V{ gc.set_vector( value.Size() ) };
-      for ( rapidjson::SizeType i{0}; i < value.Size(); ++i )
-        decode_json( V[i], value[i] );
+      for ( rapidjson::SizeType i{0}; ok && i < value.Size(); ++i )
+        ok = decode_json( V[i], value[i] );
     } else if ( value.IsObject() ) {
       map_type & M{ gc.set_map() };
       map<std::string, GenericContainer> object;
       for ( auto it = value.MemberBegin(); ok && it != value.MemberEnd(); ++it ) {
-        GenericContainer & gc1 = M[it->name.GetString()];
+        GenericContainer & gc1 = M[string( it->name.GetString(), it->name.GetStringLength() )];
         ok = decode_json(gc1,it->value);
       }
     } else {
-- 
2.43.0


From 1b1fb9be596972df76cba6580cf48bd2f3a9b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 07/50] fix: conversions to integer types silently wrapped
 values out of range; get_if_exists(fields,bool) read non boolean items

---
 src/GenericContainer.cc        | 55 +++++++++++++++++------------
 src/GenericContainerPromote.cc | 63 ++++++++++++++++++----------------
 2 files changed, 67 insertions(+), 51 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 35e30ab..dd5d3a6 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -56,8 +57,12 @@ static bool isZero0( real_type const x )
 static bool isInteger( real_type const x )
 { using std::round; return isZero0( x-round(x) ); }
 
-static bool isUnsigned( real_type const x )
-{ return isInteger(x) && x >= 0; }
+// true if x is an integer in the range of TYPE
+template <typename TYPE>
+static bool isIntegerOf( real_type const x ) {
+  real_type const top{ std::ldexp( 1.0, std::numeric_limits<TYPE>::digits ) };
+  return isInteger(x) && x < top && x >= ( std::numeric_limits<TYPE>::is_signed ? -top : 0 );
+}
 
 #endif
 
@@ -1568,15 +1573,15 @@ namespace GC_namespace {
       break;
     case GC_type::LONG:
       GC_ASSERT(
-        m_data.l >= 0,
-        where << " in get_value(...) negative `long` value '" << m_data.l
+        static_cast<uint_type>(m_data.l) == m_data.l,
+        where << " in get_value(...) `long` value '" << m_data.l
               << "' cannot be converted into `uint_type'"
       )
       v = static_cast<unsigned>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        isIntegerOf<uint_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `uint_type'"
       )
@@ -1584,7 +1589,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isIntegerOf<uint_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `uint_type'"
       )
@@ -1624,11 +1629,16 @@ namespace GC_namespace {
       v = m_data.i;
       break;
     case GC_type::LONG:
+      GC_ASSERT(
+        static_cast<int_type>(m_data.l) == m_data.l,
+        where << " in get_value(...) `long` value '" << m_data.l
+              << "' cannot be converted into `int_type'"
+      )
       v = static_cast<int>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        isIntegerOf<int_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `int_type'"
       )
@@ -1636,7 +1646,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isIntegerOf<int_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `int_type'"
       )
@@ -1690,7 +1700,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        isIntegerOf<ulong_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `ulong_type'"
       )
@@ -1698,7 +1708,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isIntegerOf<ulong_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value "
               << to_string(*m_data.c) << " cannot be converted into `ulong_type'"
       )
@@ -1743,7 +1753,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        isIntegerOf<long_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `long_type'"
       )
@@ -1751,7 +1761,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isIntegerOf<long_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `long_type'"
       )
@@ -2599,7 +2609,7 @@ namespace GC_namespace {
     if ( m_data_type != GC_type::MAP ) return false;
     map_type & m = *m_data.m;
     for ( string_type const & field : fields ) {
-      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type != GC_type::BOOL ) {
+      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type == GC_type::BOOL ) {
         value = iv->second.m_data.b;
         return true;
       }
@@ -2625,14 +2635,15 @@ namespace GC_namespace {
       value = iv->second.m_data.i;
       break;
     case GC_type::LONG:
+      if ( static_cast<int_type>(iv->second.m_data.l) != iv->second.m_data.l ) return false;
       value = static_cast<int_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( !isInteger(iv->second.m_data.r) ) return false;
+      if ( !isIntegerOf<int_type>(iv->second.m_data.r) ) return false;
       value = static_cast<int_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( isIntegerOf<int_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.c->real());
       break;
@@ -2676,15 +2687,15 @@ namespace GC_namespace {
       value = static_cast<uint_type>(iv->second.m_data.i);
       break;
     case GC_type::LONG:
-      if ( iv->second.m_data.l < 0 ) return false;
+      if ( static_cast<uint_type>(iv->second.m_data.l) != iv->second.m_data.l ) return false;
       value = static_cast<uint_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! isIntegerOf<uint_type>(iv->second.m_data.r) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( isIntegerOf<uint_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.c->real());
       break;
@@ -2730,11 +2741,11 @@ namespace GC_namespace {
       value = iv->second.m_data.l;
       break;
     case GC_type::REAL:
-      if ( ! isInteger(iv->second.m_data.r) ) return false;
+      if ( ! isIntegerOf<long_type>(iv->second.m_data.r) ) return false;
       value = static_cast<long_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( isIntegerOf<long_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.c->real());
       break;
@@ -2782,11 +2793,11 @@ namespace GC_namespace {
       value = static_cast<ulong_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! isIntegerOf<ulong_type>(iv->second.m_data.r) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( isIntegerOf<ulong_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.c->real());
       break;
diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4368a21..c87e50b 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 #include <algorithm>
 
 #ifdef __clang__
@@ -49,8 +50,12 @@ namespace GC_namespace {
   static bool isInteger( real_type const x )
   { using std::round; return isZero0( x-round(x) ); }
 
-  static bool isUnsigned( real_type const x )
-  { return isInteger(x) && x >= 0; }
+  // true if x is an integer in the range of TYPE
+  template <typename TYPE>
+  static bool isIntegerOf( real_type const x ) {
+    real_type const top{ std::ldexp( 1.0, std::numeric_limits<TYPE>::digits ) };
+    return isInteger(x) && x < top && x >= ( std::numeric_limits<TYPE>::is_signed ? -top : 0 );
+  }
 
   #endif
 
@@ -86,7 +91,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isIntegerOf<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -110,7 +115,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isIntegerOf<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -119,7 +124,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -128,7 +133,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -149,7 +154,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isIntegerOf<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -158,7 +163,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -212,7 +217,7 @@ namespace GC_namespace {
       case GC_type::LONG:
         lval = m_data.l;
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -221,7 +226,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isIntegerOf<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -242,7 +247,7 @@ namespace GC_namespace {
       case GC_type::VEC_LONG:
         lval = (*m_data.v_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -251,7 +256,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isIntegerOf<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -260,7 +265,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -269,7 +274,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<uint_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         );
@@ -287,7 +292,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:
         lval = (*m_data.m_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -296,7 +301,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isIntegerOf<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -305,7 +310,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -354,7 +359,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isIntegerOf<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -372,7 +377,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isIntegerOf<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -381,7 +386,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -390,7 +395,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -405,7 +410,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isIntegerOf<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -414,7 +419,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -477,7 +482,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isIntegerOf<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -507,7 +512,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isIntegerOf<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -516,7 +521,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
@@ -525,7 +530,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         );
@@ -552,7 +557,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isIntegerOf<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -561,7 +566,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isIntegerOf<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
-- 
2.43.0


From 987c960c18496a3f1be95e3bc605629031b6e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:01 +0000
Subject: [PATCH 08/50] fix: unsigned values above the signed range were stored
 as negative numbers

---
 include/GenericContainer/GenericContainer.hh | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 4faee7d..f5062f4 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -43,6 +43,7 @@
 #include <vector>
 #include <sstream>
 #include <iomanip>
+#include <limits>
 #include <stdexcept>
 
 #include "GenericContainerConfig.hh"
@@ -3357,7 +3358,11 @@ namespace GC_namespace {
     //! container.set(42u); // Store 42 as an unsigned integer in the container
     //! \endcode
     //!
-    void set( uint_type const & a ) { this->set_int(int_type(a)); }
+    void set( uint_type const & a ) {
+      // values over the range of int_type are stored as long
+      if ( static_cast<uint_type>(std::numeric_limits<int_type>::max()) >= a ) this->set_int(int_type(a));
+      else                                                                      this->set_long(long_type(a));
+    }
 
     //!
     //! Assign an integer to the generic container.
@@ -3383,7 +3388,13 @@ namespace GC_namespace {
     //! container.set(100000ul); // Store 100000 as an unsigned long integer in the container
     //! \endcode
     //!
-    void set( ulong_type const & a ) { this->set_long(long_type(a)); }
+    void set( ulong_type const & a ) {
+      GC_ASSERT(
+        a <= static_cast<ulong_type>(std::numeric_limits<long_type>::max()),
+        "set( " << a << " ) value cannot be stored as `long_type'"
+      )
+      this->set_long(long_type(a));
+    }
 
     //!
     //! Assign a long integer to the generic container.
@@ -3523,7 +3534,7 @@ namespace GC_namespace {
     //! \param[in] a integer to be stored
     //!
     GenericContainer & operator = ( uint_type const & a )
-    { this->set_int(int_type(a)); return * this; }
+    { this->set(a); return * this; }
 
     //!
     //! Assign an integer to the generic container.
@@ -3539,7 +3550,7 @@ namespace GC_namespace {
     //! \param[in] a unsigned long to be stored
     //!
     GenericContainer & operator = ( ulong_type const & a )
-    { this->set_long(long_type(a)); return * this; }
+    { this->set(a); return * this; }
 
     //!
     //! Assign a long integer to the generic container.
-- 
2.43.0


From cc2339a5a1eeab6b627d34d3b9ccf832134ce608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 09/50] fix: keys passed as string_view were looked up as C
 strings

---
 src/GenericContainer.cc | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index dd5d3a6..2812b20 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2373,7 +2373,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_as_int( where );
+    return this->m_data.m->at(string(key)).get_as_int( where );
   }
 
   int_type
@@ -2405,7 +2405,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_number( where );
+    return this->m_data.m->at(string(key)).get_number( where );
   }
 
   real_type
@@ -2437,7 +2437,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_string( where );
+    return this->m_data.m->at(string(key)).get_string( where );
   }
 
   string_view
@@ -2469,7 +2469,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_real( where );
+    return this->m_data.m->at(string(key)).get_vec_real( where );
   }
 
   vec_real_type const &
@@ -2501,7 +2501,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_complex( where );
+    return this->m_data.m->at(string(key)).get_vec_complex( where );
   }
 
   vec_complex_type const &
@@ -2533,7 +2533,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_string( where );
+    return this->m_data.m->at(string(key)).get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2564,7 +2564,7 @@ namespace GC_namespace {
   bool
   GenericContainer::exists( string_view const s ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(s.data()) };
+    auto const iv{ m_data.m->find(string(s)) };
     return iv != m_data.m->end();
   }
 
@@ -2572,7 +2572,7 @@ namespace GC_namespace {
   GenericContainer::exists( vec_string_type const & vs ) const {
     if (m_data_type != GC_type::MAP) return false;
     return std::any_of(vs.begin(), vs.end(),
-      [this](string_type const & s) { return m_data.m->find(s.data()) != m_data.m->end(); }
+      [this](string_type const & s) { return m_data.m->find(s) != m_data.m->end(); }
     );
   }
   string
@@ -2594,7 +2594,7 @@ namespace GC_namespace {
   bool
   GenericContainer::get_if_exists( string_view const field, bool & value ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::BOOL ) return false;
     value = iv->second.m_data.b;
@@ -2625,7 +2625,7 @@ namespace GC_namespace {
     int_type &        value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2676,7 +2676,7 @@ namespace GC_namespace {
     uint_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2728,7 +2728,7 @@ namespace GC_namespace {
     long_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2778,7 +2778,7 @@ namespace GC_namespace {
     ulong_type &      value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2830,7 +2830,7 @@ namespace GC_namespace {
     real_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2878,7 +2878,7 @@ namespace GC_namespace {
     complex_type &    value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2925,7 +2925,7 @@ namespace GC_namespace {
     string_type &     value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::STRING ) return false;
     value = *iv->second.m_data.s;
@@ -3340,7 +3340,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << " operator(): Cannot find key '" << s <<
@@ -3358,7 +3358,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << "\noperator() const: Cannot find key '" << s <<
@@ -3414,7 +3414,7 @@ namespace GC_namespace {
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   GenericContainer const &
@@ -3425,7 +3425,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   /*
-- 
2.43.0


From 783aa20ba60c0aa8f95106f6bf64d7aaf3acca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 10/50] fix: reading a missing key through a const container
 inserted it

---
 src/GenericContainer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 2812b20..ef6e2a5 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3425,7 +3425,13 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[string(s)];
+    auto const iv{ m_data.m->find(string(s)) };
+    GC_ASSERT(
+      iv != m_data.m->end(),
+      "operator [] const: Cannot find key '" << s <<
+      "'!\npossibile keys: " << get_keys()
+    )
+    return iv->second;
   }
 
   /*
-- 
2.43.0


From 6c3306aba56e4dee6d91b8e150953a29d436ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:37 +0000
Subject: [PATCH 11/50] fix: element access by index missed bounds checks, read
 the wrong matrix storage and reset existing elements

---
 include/GenericContainer/GenericContainer.hh |  8 +--
 src/GenericContainer.cc                      | 52 +++++++++++++++-----
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index f5062f4..74e5e2b 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -190,7 +190,7 @@ namespace GC_namespace {
     mat_type( unsigned nr, unsigned nc )
     : m_num_rows(nr)
     , m_num_cols(nc)
-    { vector<TYPE>::resize(size_type(nr*nc)); }
+    { vector<TYPE>::resize(size_type(nr)*size_type(nc)); }
 
     //!
     //! Resizes the matrix to the specified dimensions.
@@ -208,7 +208,7 @@ namespace GC_namespace {
     resize( unsigned nr, unsigned nc ) {
       m_num_rows = nr;
       m_num_cols = nc;
-      vector<TYPE>::resize(size_type(nr*nc));
+      vector<TYPE>::resize(size_type(nr)*size_type(nc));
     }
 
     //!
@@ -407,7 +407,7 @@ namespace GC_namespace {
     //! int *dataPtr = matrix.data();  // Pointer to matrix data
     //! \endcode
     //!
-    TYPE * data() { return &vector<TYPE>::front(); }
+    TYPE * data() { return vector<TYPE>::data(); }
 
     //!
     //! Returns a constant pointer to the underlying data block of the matrix.
@@ -420,7 +420,7 @@ namespace GC_namespace {
     //! const int *dataPtr = matrix.data();  // Constant pointer to matrix data
     //! \endcode
     //!
-    TYPE const * data() const { return &vector<TYPE>::front(); }
+    TYPE const * data() const { return vector<TYPE>::data(); }
   };
 
   // ---------------------------------------------------------------------------
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index ef6e2a5..fe84fbb 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -142,6 +142,11 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE const &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) const {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") index out of range, size "
+      << m_num_rows << " x " << m_num_cols
+    )
     try {
       return this->at(i+j*m_num_rows);
     } catch ( std::exception const & exc ) {
@@ -154,6 +159,11 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") index out of range, size "
+      << m_num_rows << " x " << m_num_cols
+    )
     try {
       return this->at(i+j*m_num_rows);
     } catch ( std::exception const & exc ) {
@@ -1956,6 +1966,10 @@ namespace GC_namespace {
 
   real_type
   GenericContainer::get_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT(
+      i < get_num_elements(),
+      where << "get_number_at( " << i << " ) index out of range"
+    )
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return (*m_data.v_b)[i] ? 1 : 0;
     case GC_type::VEC_INTEGER: return (*m_data.v_i)[i];
@@ -1988,6 +2002,10 @@ namespace GC_namespace {
 
   complex_type
   GenericContainer::get_complex_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT(
+      i < get_num_elements(),
+      where << "get_complex_number_at( " << i << " ) index out of range"
+    )
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return {static_cast<real_type>( (*m_data.v_b)[i]?1:0 ),0};
     case GC_type::VEC_INTEGER: return {static_cast<real_type>( (*m_data.v_i)[i] ),0};
@@ -2942,7 +2960,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_bool(false);
+    GenericContainer & e{ (*m_data.v)[i] };
+    if ( e.m_data_type != GC_type::BOOL ) e.set_bool(false);
+    return e.m_data.b;
   }
 
   bool_type
@@ -2967,7 +2987,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_int(0);
+    GenericContainer & e{ (*m_data.v)[i] };
+    if ( e.m_data_type != GC_type::INTEGER ) e.set_int(0);
+    return e.m_data.i;
   }
 
   int_type const &
@@ -2982,7 +3004,7 @@ namespace GC_namespace {
 
   int_type &
   GenericContainer::get_int_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_int(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ) promote_to_mat_int();
     GC_ASSERT(
@@ -3018,7 +3040,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_long(0);
+    GenericContainer & e{ (*m_data.v)[i] };
+    if ( e.m_data_type != GC_type::LONG ) e.set_long(0);
+    return e.m_data.l;
   }
 
   long_type const &
@@ -3033,7 +3057,7 @@ namespace GC_namespace {
 
   long_type &
   GenericContainer::get_long_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_long(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ) promote_to_mat_long();
@@ -3068,7 +3092,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_real(0);
+    GenericContainer & e{ (*m_data.v)[i] };
+    if ( e.m_data_type != GC_type::REAL ) e.set_real(0);
+    return e.m_data.r;
   }
 
   real_type const &
@@ -3083,7 +3109,7 @@ namespace GC_namespace {
 
   real_type &
   GenericContainer::get_real_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ||
@@ -3101,7 +3127,7 @@ namespace GC_namespace {
   GenericContainer::get_real_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_REAL);
     GC_ASSERT(
-      i < m_data.v_r->size(),
+      i < m_data.m_r->num_rows() && j < m_data.m_r->num_cols(),
       where << " get_real_at( " << i << ", " << j << " ) const, out of range"
     )
     return (*m_data.m_r)(i,j);
@@ -3120,7 +3146,9 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_complex(0,0);
+    GenericContainer & e{ (*m_data.v)[i] };
+    if ( e.m_data_type != GC_type::COMPLEX ) e.set_complex(0,0);
+    return *e.m_data.c;
   }
 
   complex_type const &
@@ -3135,7 +3163,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG    ||
@@ -3165,7 +3193,9 @@ namespace GC_namespace {
       return (*m_data.v_s)[i];
     }
     promote_to_vector();
-    return (*this)[i].set_string("");
+    GenericContainer & e{ (*this)[i] };
+    if ( e.m_data_type != GC_type::STRING ) e.set_string("");
+    return *e.m_data.s;
   }
 
   string_view
-- 
2.43.0


From 24c458d51e7c0ea158913ac72c288d03945b308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 12/50] fix: assignment involving a container and its own
 elements read released memory; new scalars read through get were not
 initialised

---
 src/GenericContainer.cc | 84 ++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 55 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index fe84fbb..771f042 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -761,8 +761,12 @@ namespace GC_namespace {
 
   void
   GenericContainer::ck_or_set( string_view const where, TypeAllowed const tp ) {
-    if ( m_data_type == GC_type::NOTYPE ) m_data_type = tp;
-    else                                  ck(where,tp);
+    if ( m_data_type == GC_type::NOTYPE ) {
+      m_data      = {}; // a new value is zero
+      m_data_type = tp;
+    } else {
+      ck(where,tp);
+    }
   }
 
   /*
@@ -984,9 +988,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::set_complex( complex_type const & value ) {
-    clear();
-    m_data_type = GC_type::COMPLEX;
-    m_data.c    = new complex_type;
+    allocate_complex();
     return (*m_data.c=value);
   }
 
@@ -3770,49 +3772,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::to_gc( GenericContainer & gc ) const {
-    switch (m_data_type) {
-    case GC_type::NOTYPE:      gc.clear();                break;
-    case GC_type::BOOL:        gc = m_data.b;    break;
-    case GC_type::INTEGER:     gc = m_data.i;    break;
-    case GC_type::LONG:        gc = m_data.l;    break;
-    case GC_type::REAL:        gc = m_data.r;    break;
-    case GC_type::COMPLEX:     gc = *m_data.c;   break;
-    case GC_type::STRING:      gc = *m_data.s;   break;
-    case GC_type::VEC_BOOL:    gc = *m_data.v_b; break;
-    case GC_type::VEC_INTEGER: gc = *m_data.v_i; break;
-    case GC_type::VEC_LONG:    gc = *m_data.v_l; break;
-    case GC_type::VEC_REAL:    gc = *m_data.v_r; break;
-    case GC_type::VEC_STRING:  gc = *m_data.v_s; break;
-
-    case GC_type::VECTOR:
-      gc.set_vector();
-      { vector_type const & v{*m_data.v};
-        vector_type       & vv = gc.set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          v[i].to_gc(vv[i]);
-      }
-      break;
-    case GC_type::MAP:
-      gc.set_map();
-      { map_type const & m{*m_data.m};
-        for ( const auto &[fst, snd] : m )
-          snd.to_gc(gc[fst]);
-      }
-      break;
-    case GC_type::MAT_INTEGER: gc = *m_data.m_i; break;
-    case GC_type::MAT_LONG:    gc = *m_data.m_l; break;
-    case GC_type::MAT_REAL:    gc = *m_data.m_r; break;
-    case GC_type::VEC_COMPLEX: gc = *m_data.v_c; break;
-    case GC_type::MAT_COMPLEX: gc = *m_data.m_c; break;
-    case GC_type::POINTER:     gc = this->get_pointer<void *>(); break;
-    case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = this->get_vec_pointer();
-        vec_pointer_type       & vv = gc.set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
-      break;
-    }
+    gc.from_gc( *this );
   }
 
   /*
@@ -3826,6 +3786,14 @@ namespace GC_namespace {
 
   void
   GenericContainer::from_gc( GenericContainer const & gc ) {
+    if ( this == &gc ) return;
+    if ( m_data_type == GC_type::VECTOR || m_data_type == GC_type::MAP ) {
+      // gc may be an element of *this: copy before release the old content
+      GenericContainer tmp( gc );
+      std::swap( m_data,      tmp.m_data      );
+      std::swap( m_data_type, tmp.m_data_type );
+      return; // old content released with tmp
+    }
     switch ( gc.get_type()) {
     case GC_type::NOTYPE:
       this->clear();
@@ -3864,19 +3832,21 @@ namespace GC_namespace {
       this->set_vec_string(*gc.m_data.v_s);
       break;
 
+    // the copy is completed before storing it, *this may be an element of gc
     case GC_type::VECTOR:
-      this->set_vector();
       { vector_type const & v{*gc.m_data.v};
-        vector_type       & vv = this->set_vector(v.size());
+        vector_type         vv(v.size());
         for ( vector_type::size_type i{0}; i < v.size(); ++i )
           vv[i].from_gc(v[i]);
+        this->set_vector().swap(vv);
       }
       break;
     case GC_type::MAP:
-      this->set_map();
       { map_type const & m{*gc.m_data.m};
+        map_type         mm;
         for ( const auto &[fst, snd] : m )
-          (*this)[fst].from_gc(snd);
+          mm[fst].from_gc(snd);
+        this->set_map().swap(mm);
       }
       break;
     case GC_type::MAT_INTEGER:
@@ -3922,9 +3892,13 @@ namespace GC_namespace {
     )
     if ( m_data_type == GC_type::NOTYPE ) this->set_map();
     ck( where, GC_type::MAP );
-    { map_type const & m{gc.get_map()};
-      for ( const auto &[fst, snd] : m )
-        (*this)[fst].from_gc(snd);
+    { GenericContainer const src{gc}; // gc may be an element of *this
+      map_type const & m{src.get_map()};
+      for ( const auto &[fst, snd] : m ) {
+        GenericContainer & item{ (*this)[fst] };
+        if ( item.m_data_type == GC_type::MAP && snd.m_data_type == GC_type::MAP ) item.merge( snd, where );
+        else                                                                      item.from_gc( snd );
+      }
     }
   }
 
-- 
2.43.0


From 5134c372a45c2d485218dc11aedbfe86f5461b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 13/50] fix: promotions to matrices and generic vectors wrote
 through the wrong storage or lost the value

---
 src/GenericContainer.cc        |  2 +
 src/GenericContainerPromote.cc | 70 ++++++++++++++++++++++++----------
 2 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 771f042..df06a95 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2316,6 +2316,8 @@ namespace GC_namespace {
          m_data_type == GC_type::VEC_INTEGER ||
          m_data_type == GC_type::VEC_LONG    ||
          m_data_type == GC_type::VEC_REAL    ||
+         m_data_type == GC_type::MAT_INTEGER ||
+         m_data_type == GC_type::MAT_LONG    ||
          m_data_type == GC_type::MAT_REAL    ||
          m_data_type == GC_type::VEC_COMPLEX ) promote_to_mat_complex();
     ck(where,GC_type::MAT_COMPLEX);
diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index c87e50b..272a194 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -685,7 +685,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:    val = { static_cast<real_type>((*m_data.m_l)[i]),0 };         break;
       case GC_type::MAT_REAL:    val = {(*m_data.m_r)[i],0};                                   break;
       case GC_type::MAT_COMPLEX: val = (*m_data.m_c)[i];                                                 break;
-      case GC_type::VECTOR:      val = (*this)(i).get_complex();                                         break;
+      case GC_type::VECTOR:      val = (*this)(i).get_complex_number();                                  break;
 
       case GC_type::NOTYPE:
       case GC_type::POINTER:
@@ -1081,6 +1081,12 @@ namespace GC_namespace {
         std::copy_n( m_r->data(), m_r->num_rows()*m_r->num_cols(), m.data() );
       }
       break;
+    case GC_type::MAT_COMPLEX:
+      { mat_complex_type const * m_c{m_data.m_c};
+        m.resize(m_c->num_rows(),m_c->num_cols());
+        std::copy_n( m_c->data(), m_c->num_rows()*m_c->num_cols(), m.data() );
+      }
+      break;
     case GC_type::VECTOR:
       { vector_type const & v{*m_data.v};
         if ( auto nc{static_cast<unsigned>(v.size())}; nc > 0 ) {
@@ -1108,7 +1114,6 @@ namespace GC_namespace {
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
     case GC_type::VEC_STRING:
-    case GC_type::MAT_COMPLEX:
     case GC_type::MAP:
       GC_DO_ERROR( where << "copyto_mat_complex() cannot promote " << get_type_name() << " to mat_complex_type" )
     }
@@ -1576,7 +1581,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1585,7 +1590,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_i)(i,0) = (*v_i)[i];
         delete v_i;
       }
       break;
@@ -1629,12 +1634,18 @@ namespace GC_namespace {
         get_long_at(0,0) = tmp;
       }
       break;
+    case GC_type::LONG:
+      { long_type const tmp{m_data.l};
+        set_mat_long(1,1);
+        get_long_at(0,0) = tmp;
+      }
+      break;
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
-        set_mat_real(static_cast<unsigned>(v_b->size()),1);
+        set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1669,7 +1680,6 @@ namespace GC_namespace {
       break;
     case GC_type::POINTER:
     case GC_type::STRING:
-    case GC_type::LONG:
     case GC_type::REAL:
     case GC_type::COMPLEX:
     case GC_type::VEC_REAL:
@@ -1703,6 +1713,12 @@ namespace GC_namespace {
         get_real_at(0,0) = tmp;
       }
       break;
+    case GC_type::LONG:
+      { real_type const tmp{ static_cast<real_type>(m_data.l) };
+        set_mat_real(1,1);
+        get_real_at(0,0) = tmp;
+      }
+      break;
     case GC_type::REAL:
       { real_type const tmp{m_data.r};
         set_mat_real(1,1);
@@ -1767,7 +1783,6 @@ namespace GC_namespace {
       break;
     case GC_type::POINTER:
     case GC_type::STRING:
-    case GC_type::LONG:
     case GC_type::COMPLEX:
     case GC_type::VEC_COMPLEX:
     case GC_type::VEC_POINTER:
@@ -1810,12 +1825,18 @@ namespace GC_namespace {
         get_complex_at(0,0) = tmp;
       }
       break;
+    case GC_type::COMPLEX:
+      { complex_type const tmp{*m_data.c};
+        set_mat_complex(1,1);
+        get_complex_at(0,0) = tmp;
+      }
+      break;
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_c)(i,0) = ((*v_b)[i]?1.0:0.0);
         delete v_b;
       }
       break;
@@ -1824,7 +1845,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
         delete v_i;
       }
       break;
@@ -1833,7 +1854,7 @@ namespace GC_namespace {
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
         delete v_l;
       }
       break;
@@ -1842,10 +1863,19 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
-          (*m_data.m_r)(i,0) = (*v_r)[i];
+          (*m_data.m_c)(i,0) = (*v_r)[i];
         delete v_r;
       }
       break;
+    case GC_type::VEC_COMPLEX:
+      { vec_complex_type const * v_c{m_data.v_c};
+        m_data_type = GC_type::NOTYPE;
+        set_mat_complex(static_cast<unsigned>(v_c->size()),1);
+        for ( unsigned i{0}; i < v_c->size(); ++i )
+          (*m_data.m_c)(i,0) = (*v_c)[i];
+        delete v_c;
+      }
+      break;
     case GC_type::MAT_INTEGER:
       { mat_int_type const * m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
@@ -1876,10 +1906,8 @@ namespace GC_namespace {
     case GC_type::MAT_COMPLEX:
       break;
     case GC_type::POINTER:
-    case GC_type::COMPLEX:
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
-    case GC_type::VEC_COMPLEX:
     case GC_type::VEC_STRING:
     case GC_type::VECTOR:
     case GC_type::MAP:
@@ -1895,25 +1923,25 @@ namespace GC_namespace {
       { set_vector(1); (*this)[0].clear(); } // set data to no type
       break;
     case GC_type::POINTER:
-      { set_vector(1); (*this)[0] = m_data.p; }
+      { pointer_type const tmp{m_data.p}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::BOOL:
-      { set_vector(1); (*this)[0] = m_data.b; }
+      { bool_type const tmp{m_data.b}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::INTEGER:
-      { set_vector(1); (*this)[0] = m_data.i; }
+      { int_type const tmp{m_data.i}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::LONG:
-      { set_vector(1); (*this)[0] = m_data.l; }
+      { long_type const tmp{m_data.l}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::REAL:
-      { set_vector(1); (*this)[0] = m_data.r; }
+      { real_type const tmp{m_data.r}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::COMPLEX:
-      { set_vector(1); (*this)[0] = *m_data.c; }
+      { complex_type const tmp{*m_data.c}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::STRING:
-      { set_vector(1); (*this)[0] = *m_data.s; }
+      { string_type const tmp{*m_data.s}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const * v_p{m_data.v_p};
-- 
2.43.0


From c9d25ec6f72a3528a4e53ab569e7fbf9873616b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:24 +0000
Subject: [PATCH 14/50] fix: (de)serialization lost pointers and embedded NULs,
 broke on complex matrices and read past truncated buffers

---
 src/GenericContainerSerialize.cc | 86 +++++++++++++++++++++++++++++---
 1 file changed, 79 insertions(+), 7 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index c8b0958..8cd1c82 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -186,6 +186,8 @@ namespace GC_namespace {
 
   int32_t
   GenericContainer::serialize( std::vector<uint8_t> & buffer ) const {
+    int32_t const required{ this->mem_size() };
+    if ( static_cast<int32_t>(buffer.size()) < required ) buffer.resize( required );
     int32_t const sz{ static_cast<int32_t>(buffer.size()) };
     return this->serialize( sz, buffer.data() );
   }
@@ -195,6 +197,8 @@ namespace GC_namespace {
 
     int32_t sz, available{buffer_dim};
 
+    GC_ASSERT( buffer_dim >= 0, msg );
+
     int32_t nb = int32_to_buffer( static_cast<int32_t>(m_data_type), buffer, available );
     available -= nb;
     buffer    += nb;
@@ -227,7 +231,7 @@ namespace GC_namespace {
       nb = int32_to_buffer( sz, buffer, available );
       buffer += nb; available -= nb;
       GC_ASSERT( sz <= available, msg );
-      memcpy( buffer, &m_data.s->front(), sz );
+      memcpy( buffer, m_data.s->c_str(), sz );
       buffer += sz; available -= sz;
       break;
     case GC_type::COMPLEX:
@@ -327,6 +331,7 @@ namespace GC_namespace {
         nb = double_to_buffer( c.imag(), buffer, available );
         buffer += nb; available -= nb;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = int32_to_buffer( static_cast<int32_t>(m_data.v_s->size()), buffer, available );
       buffer += nb; available -= nb;
@@ -335,7 +340,7 @@ namespace GC_namespace {
         nb = int32_to_buffer( sz, buffer, available );
         buffer += nb; available -= nb;
         GC_ASSERT( sz <= available, msg );
-        memcpy( buffer, &s.front(), sz );
+        memcpy( buffer, s.c_str(), sz );
         buffer += sz; available -= sz;
       }
       break;
@@ -355,7 +360,7 @@ namespace GC_namespace {
         nb = int32_to_buffer( sz, buffer, available );
         buffer += nb; available -= nb;
         GC_ASSERT( sz <= available, msg );
-        memcpy( buffer, &fst.front(), sz );
+        memcpy( buffer, fst.c_str(), sz );
         buffer += sz; available -= sz;
         nb = snd.serialize( available, buffer );
         buffer += nb; available -= nb;
@@ -374,10 +379,19 @@ namespace GC_namespace {
   int32_t
   GenericContainer::de_serialize( int32_t buffer_dim, uint8_t const * buffer ) {
     //int_type ptr_size = 8;
-    int32_t sz, nb, nbyte;
+    int32_t sz, nb, nbyte{0};
     double  bf;
 
+    // check that `num` items of `nbytes` bytes are available in the buffer
+    auto check_available = [&nbyte,buffer_dim]( int64_t const num, int64_t const nbytes ) -> void {
+      GC_ASSERT(
+        num >= 0 && num <= (int64_t(buffer_dim)-nbyte)/nbytes,
+        "GenericContainer::de_serialize, truncated or corrupted buffer"
+      );
+    };
+
     this->clear();
+    check_available( 1, 4 );
 
     int32_t nr, nc, i32;
     nbyte = nb = buffer_to_int32( buffer, &i32 );
@@ -388,6 +402,7 @@ namespace GC_namespace {
       m_data_type = GC_type::NOTYPE;
       break;
     case GC_type::BOOL:
+      check_available( 1, 1 );
       m_data_type = GC_type::BOOL;
       uint8_t b;
       nb = buffer_to_uint8( buffer, &b );
@@ -395,30 +410,42 @@ namespace GC_namespace {
       m_data.b = b > 0;
       break;
     case GC_type::INTEGER:
+      check_available( 1, 4 );
       m_data_type = GC_type::INTEGER;
       nb = buffer_to_int32( buffer, &m_data.i );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::LONG:
+      check_available( 1, 8 );
       m_data_type = GC_type::LONG;
       nb = buffer_to_int64( buffer, &m_data.l );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::REAL:
+      check_available( 1, 8 );
       m_data_type = GC_type::REAL;
       nb = buffer_to_double( buffer, &m_data.r );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
+      check_available( 1, 8 );
+      m_data_type = GC_type::POINTER;
+      int64_t i64;
+      nb = buffer_to_int64( buffer, &i64 );
+      buffer += nb; nbyte += nb;
+      m_data.p = reinterpret_cast<pointer_type>(i64);
       break;
     case GC_type::STRING:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check_available( i32, 1 ); GC_ASSERT( i32 > 0, "GenericContainer::de_serialize, bad string length" );
       allocate_string();
-      *m_data.s = reinterpret_cast<char const*>(buffer);
+      m_data.s->assign( reinterpret_cast<char const*>(buffer), i32-1 );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
+      check_available( 2, 8 );
       allocate_complex();
       nb = buffer_to_double( buffer, &bf ); m_data.c->real(bf);
       buffer += nb; nbyte += nb;
@@ -426,10 +453,22 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
+      check_available( 1, 4 );
+      nb = buffer_to_int32( buffer, &i32 );
+      buffer += nb; nbyte += nb;
+      check_available( i32, 8 );
+      allocate_vec_pointer(i32);
+      for ( auto & p : *m_data.v_p ) {
+        sz = buffer_to_int64( buffer, &i64 );
+        buffer += sz; nbyte += sz;
+        p = reinterpret_cast<pointer_type>(i64);
+      }
       break;
     case GC_type::VEC_BOOL:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check_available( i32, 1 );
       allocate_vec_bool(0);
       m_data.v_b->reserve(i32);
       for ( int32_t i = 0; i < i32; ++i ) {
@@ -440,8 +479,10 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_INTEGER:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check_available( i32, 4 );
       allocate_vec_int(i32);
       for ( auto & i : *m_data.v_i ) {
         sz = buffer_to_int32( buffer, &i );
@@ -449,8 +490,10 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_LONG:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check_available( i32, 8 );
       allocate_vec_long(i32);
       for ( auto & i : *m_data.v_l ) {
         sz = buffer_to_int64( buffer, &i );
@@ -458,8 +501,10 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_REAL:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check_available( i32, 8 );
       allocate_vec_real(i32);
       for ( auto & r : *m_data.v_r ) {
         sz = buffer_to_double( buffer, &r );
@@ -467,8 +512,10 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_COMPLEX:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check_available( i32, 16 );
       allocate_vec_complex(i32);
       for ( auto & c : *m_data.v_c ) {
         sz = buffer_to_double( buffer, &bf ); c.real(bf);
@@ -478,10 +525,13 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_INTEGER:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &nr );
       buffer += nb; nbyte += nb;
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &nc );
       buffer += nb; nbyte += nb;
+      check_available( nr < 0 || nc < 0 ? -1 : int64_t(nr)*nc, 4 );
       allocate_mat_int( nr, nc );
       for ( auto & i : *m_data.m_i ) {
         sz = buffer_to_int32( buffer, &i );
@@ -489,10 +539,13 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_LONG:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &nr );
       buffer += nb; nbyte += nb;
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &nc );
       buffer += nb; nbyte += nb;
+      check_available( nr < 0 || nc < 0 ? -1 : int64_t(nr)*nc, 8 );
       allocate_mat_long( nr, nc );
       for ( auto & i : *m_data.m_l ) {
         sz = buffer_to_int64( buffer, &i );
@@ -500,10 +553,13 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_REAL:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &nr );
       buffer += nb; nbyte += nb;
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &nc );
       buffer += nb; nbyte += nb;
+      check_available( nr < 0 || nc < 0 ? -1 : int64_t(nr)*nc, 8 );
       allocate_mat_real( nr, nc );
       for ( auto & r : *m_data.m_r ) {
         sz = buffer_to_double( buffer, &r );
@@ -511,10 +567,13 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_COMPLEX:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &nr );
       buffer += nb; nbyte += nb;
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &nc );
       buffer += nb; nbyte += nb;
+      check_available( nr < 0 || nc < 0 ? -1 : int64_t(nr)*nc, 16 );
       allocate_mat_complex( nr, nc );
       for ( auto & c : *m_data.m_c ) {
         sz = buffer_to_double( buffer, &bf ); c.real(bf);
@@ -522,20 +581,27 @@ namespace GC_namespace {
         sz = buffer_to_double( buffer, &bf ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
+      break;
     case GC_type::VEC_STRING:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check_available( i32, 4 );
       allocate_vec_string(i32);
       for ( auto & s : *m_data.v_s ) {
+        check_available( 1, 4 );
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        s = reinterpret_cast<char const*>(buffer);
+        check_available( i32, 1 ); GC_ASSERT( i32 > 0, "GenericContainer::de_serialize, bad string length" );
+        s.assign( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
       }
       break;
     case GC_type::VECTOR:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check_available( i32, 4 );
       allocate_vector(i32);
       for ( auto & S : *m_data.v ) {
         sz = S.de_serialize( buffer_dim-nbyte, buffer );
@@ -543,19 +609,25 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAP:
+      check_available( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 ); nr = i32;
       buffer += nb; nbyte += nb;
+      check_available( i32, 9 ); // key length, empty key, type
       allocate_map();
       for ( int32_t i = 0; i < nr; ++i ) {
+        check_available( 1, 4 );
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        string_type key = reinterpret_cast<char const*>(buffer);
+        check_available( i32, 1 ); GC_ASSERT( i32 > 0, "GenericContainer::de_serialize, bad string length" );
+        string_type key( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
         sz = (*m_data.m)[key].de_serialize( buffer_dim-nbyte, buffer );
         buffer += sz; nbyte += sz;
       }
       break;
+    default:
+      GC_DO_ERROR( "GenericContainer::de_serialize, unknown type in the buffer" );
     }
     GC_ASSERT(
       nbyte <= buffer_dim,
-- 
2.43.0


From 3f38ed7391be48e1ad9993252c39b6d74fdfb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:03 +0000
Subject: [PATCH 15/50] fix: to_yaml wrote unreadable YAML for empty vectors,
 complex vectors, matrices and unusual keys, truncated reals and left the
 stream in hex

---
 src_yaml_interface/to_yaml.cc | 93 ++++++++++++++++++++++++++---------
 1 file changed, 69 insertions(+), 24 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 4e5dfcb..0694078 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -24,6 +24,8 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <cstdlib>
+#include <sstream>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -36,6 +38,42 @@
 
 namespace GC_namespace {
 
+  // YAML number that read back gives the same value
+  static
+  string
+  yaml_number( real_type const r ) {
+    if ( std::isnan(r) ) return ".nan";
+    if ( std::isinf(r) ) return r > 0 ? ".inf" : "-.inf";
+    ostringstream data;
+    data.precision(15);
+    data << r;
+    if ( std::strtod( data.str().c_str(), nullptr ) != r ) {
+      data.str("");
+      data.precision(17);
+      data << r;
+    }
+    return data.str();
+  }
+
+  // plain identifiers are written as they are, any other key is quoted
+  static
+  void
+  yaml_key( ostream_type & stream, string const & key ) {
+    static char const * const reserved[]{
+      "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE"
+    };
+    bool plain{ !key.empty() };
+    for ( size_t i{0}; plain && i < key.size(); ++i ) {
+      char const c{ key[i] };
+      bool const is_alpha{ (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' };
+      bool const is_digit{ c >= '0' && c <= '9' };
+      plain = is_alpha || ( i > 0 && is_digit );
+    }
+    for ( auto const & r : reserved ) if ( key == r ) plain = false;
+    if ( plain ) stream << key;
+    else         string_escape( stream, key );
+  }
+
   /*
   //   _                                 _
   //  | |_ ___     _   _  __ _ _ __ ___ | |
@@ -64,7 +102,7 @@ namespace GC_namespace {
         stream << m_data.l << '\n';
         break;
       case GC_type::REAL:
-        stream << m_data.r << '\n';
+        stream << yaml_number(m_data.r) << '\n';
         break;
       case GC_type::COMPLEX:
         stream << to_string(*m_data.c) << '\n';
@@ -75,7 +113,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        char const * pre = "[ ";
+        stream << '[';
+        char const * pre = " ";
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -83,34 +122,36 @@ namespace GC_namespace {
         stream << " ]\n";
         break;
       }
-      #define GC_PRINT_VECTOR                  \
-        char const * pre = "[ ";               \
-        for ( auto const & vi : v )            \
-          { stream << pre << vi; pre = ", "; } \
+      #define GC_PRINT_VECTOR(VDATA)              \
+        stream << '[';                            \
+        char const * pre = " ";                   \
+        for ( auto const & vi : v )               \
+          { stream << pre << VDATA; pre = ", "; } \
         stream << " ]\n"
       case GC_type::VEC_INTEGER: {
         vec_int_type const & v{*m_data.v_i};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_LONG: {
         vec_long_type const & v{*m_data.v_l};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_REAL: {
         vec_real_type const & v{*m_data.v_r};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(yaml_number(vi));
         break;
       }
       case GC_type::VEC_COMPLEX: {
         vec_complex_type const & v{*m_data.v_c};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(to_string(vi));
         break;
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        stream << '[';
+        char const * pre = " ";
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]\n";
@@ -120,7 +161,7 @@ namespace GC_namespace {
         vector_type const & v{*m_data.v};
         string prefix2{prefix}; prefix2 += "  ";
         if ( v.empty() ) {
-          stream << "null\n";
+          stream << "[]\n";
         } else {
           stream << '\n';
           for ( auto const & vi : v ) {
@@ -133,26 +174,27 @@ namespace GC_namespace {
       case GC_type::MAP: {
         map_type const & m{*m_data.m};
         if ( m.empty() ) {
-          stream << "null\n";
+          stream << "{}\n";
         } else {
           stream << '\n';
           string prefix2{prefix}; prefix2 += "  ";
           for ( auto const & im : m ) {
-            stream << prefix << im.first << ": ";
+            stream << prefix; yaml_key( stream, im.first ); stream << ": ";
             im.second.to_yaml(stream,prefix2);
           }
         }
         break;
       }
-      #define GC_PRINT_MATRIX                        \
+      #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
+        if ( NC == 0 ) { stream << "[]\n"; break; }  \
         stream << '\n';                              \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          stream << prefix;                          \
-          char const * pre = "- [ ";                 \
+          stream << prefix << "- [";                 \
+          char const * pre = " ";                    \
           for ( unsigned i{0}; i < NR; ++i )         \
-            { stream << pre << M(i,j); pre = ", "; } \
+            { stream << pre << MDATA; pre = ", "; }  \
           stream << " ]\n";                          \
         }
 
@@ -170,32 +212,35 @@ namespace GC_namespace {
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_LONG: {
         mat_long_type const & M{*m_data.m_l};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_REAL: {
         mat_real_type const & M{*m_data.m_r};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(yaml_number(M(i,j)));
         break;
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(to_string(M(i,j)));
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p)
+               << std::dec << std::noshowbase << '\n';
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
+        if ( V.empty() ) { stream << "[]\n"; break; }
         stream << '\n';
         for ( auto const & vi : V ) {
-          stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '\n';
+          stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi)
+                 << std::dec << std::noshowbase << '\n';
         }
         break;
       }
-- 
2.43.0


From 3806514fae72ffb1ea74550f0e95f47ddcdb077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:03 +0000
Subject: [PATCH 16/50] fix: to_toml dereferenced a null node on empty values,
 mislabelled matrices and lost leading newlines; from_toml truncated integer
 arrays to 32 bits

---
 src_toml_interface/from_toml.cc | 11 +++++++++++
 src_toml_interface/to_toml.cc   | 13 +++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 70ab7cb..bd0f094 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -139,10 +139,15 @@ namespace GC_namespace {
 
       bool is_string_array  { true };
       bool is_integer_array { true };
+      bool is_int32_array   { true };
       bool is_float_array   { true };
       for ( const auto & value : *ary ) {
         if ( !value.is_string()         ) is_string_array  = false;
         if ( !value.is_integer()        ) is_integer_array = false;
+        else {
+          std::int64_t const tmp{ value.as_integer()->get() };
+          if ( tmp < numeric_limits<int32_t>::min() || tmp > numeric_limits<int32_t>::max() ) is_int32_array = false;
+        }
         if ( !value.is_floating_point() ) is_float_array   = false;
       }
       size_t N{ ary->size() };
@@ -152,6 +157,12 @@ namespace GC_namespace {
         V.reserve( N );
         for ( const auto & value : *ary ) V.emplace_back( value.as_string()->get() );
 
+      } else if (is_integer_array && !is_int32_array) {
+
+        GC::vec_long_type & V{ gc.set_vec_long() };
+        V.reserve( N );
+        for ( const auto & value : *ary ) V.emplace_back( value.as_integer()->get() );
+
       } else if (is_integer_array) {
 
         GC::vec_int_type & V{ gc.set_vec_int() };
diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index d8a1218..1970dfc 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -63,7 +63,8 @@ namespace GC_namespace {
     std::unique_ptr<toml::array> empty;
     switch ( gc.get_type() ) {
       case GC_type::NOTYPE:
-        return empty;
+        GC_DO_ERROR( "to_toml, TOML cannot represent an empty (null) value" );
+        break;
       case GC_type::BOOL:    return NEW_UNIQUE( toml::value<bool>,    gc.get_bool() );
       case GC_type::INTEGER: return NEW_UNIQUE( toml::value<int64_t>, gc.get_int()  );
       case GC_type::LONG:    return NEW_UNIQUE( toml::value<int64_t>, gc.get_long() );
@@ -151,7 +152,7 @@ namespace GC_namespace {
         mat_real.insert("$ncols",gc.num_cols());
         mat_real.insert("$data",data);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_real) );
+        node->as_table()->insert( "$mat_real", std::move(mat_real) );
         return node;
       }
       case GC_type::MAT_COMPLEX: {
@@ -166,7 +167,7 @@ namespace GC_namespace {
         mat_complex.insert("$data_real",data_real);
         mat_complex.insert("$data_imag",data_imag);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_complex) );
+        node->as_table()->insert( "$mat_complex", std::move(mat_complex) );
         return node;
       }
       case GC_type::POINTER: {
@@ -194,7 +195,11 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       std::unique_ptr<toml::node> root{ GC_to_TOML( *this ) };
-      if ( ok ) stream << toml::toml_formatter(*root);
+      // multi-line strings drop a leading newline when read back
+      if ( ok ) stream << toml::toml_formatter(
+        *root,
+        toml::toml_formatter::default_flags & ~toml::format_flags::allow_multi_line_strings
+      );
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::to_toml: " << e.what() << '\n';
-- 
2.43.0


From ce4fb05b68574f960309f5accd5a2e145fad36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:06 +0000
Subject: [PATCH 17/50] fix: C interface leaked and kept using deleted
 containers, let exceptions and negative positions through

---
 src/GenericContainerInterface_C.cc | 133 ++++++++++++++++-------------
 1 file changed, 74 insertions(+), 59 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index bf24c5a..2ab0ff4 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -177,7 +177,7 @@ namespace GC_namespace {
 
   string_view
   GenericContainerExplorer::next_map_key() {
-    if ( map_iterator != ptr_map->end() ) return map_iterator++->first;
+    if ( ptr_map != nullptr && map_iterator != ptr_map->end() ) return map_iterator++->first;
     return "";
   }
 
@@ -199,6 +199,14 @@ catch(std::runtime_error & err) {               \
   return GENERIC_CONTAINER_NO_DATA;             \
 }
 
+// a getter cannot report an error, return a neutral value when data is not available
+#define GC_TRY_GET(A,DEFAULT)                   \
+try { return A; }                               \
+catch(std::runtime_error & err) {               \
+  std::cerr << "Error: " << err.what() << "\n"; \
+} catch (...) { }                               \
+return DEFAULT
+
 using namespace ::GC_namespace;
 
 typedef std::map<string_type,GenericContainerExplorer*>  MAP;
@@ -242,7 +250,12 @@ GC_mem_ptr( char const id[] ) {
 
 int
 GC_delete( char const id[] ) {
-  gc_explorer.erase(id);
+  auto pos{ gc_explorer.find(id) };
+  if ( pos != gc_explorer.end() ) {
+    if ( gc_active == pos->second ) gc_active = nullptr;
+    delete pos->second;
+    gc_explorer.erase(pos);
+  }
   return GENERIC_CONTAINER_OK;
 }
 
@@ -341,14 +354,14 @@ GC_dump() {
 int
 GC_get_type() {
   if ( gc_active == nullptr ) return -1;
-  return static_cast<int>(gc_active->top()->get_type());
+  GC_TRY_GET( static_cast<int>(gc_active->top()->get_type()), -1 );
 }
 
 char const *
 GC_get_type_name() {
   static char const * empty{""};
   if ( gc_active == nullptr ) return empty;
-  return gc_active->top()->get_type_name().data();
+  GC_TRY_GET( gc_active->top()->get_type_name().data(), empty );
 }
 
 //..............................................................................
@@ -400,54 +413,53 @@ GC_set_string( char const a[] ) {
 int
 GC_get_bool() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_bool() ? 1 : 0;
+  GC_TRY_GET( gc_active->top()->get_bool() ? 1 : 0, 0 );
 }
 
 int
 GC_get_int() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int();
+  GC_TRY_GET( gc_active->top()->get_int(), 0 );
 }
 
 long
 GC_get_long() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_long();
+  GC_TRY_GET( gc_active->top()->get_long(), 0 );
 }
 
 double
 GC_get_real( ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real();
+  GC_TRY_GET( gc_active->top()->get_real(), 0 );
 }
 
 c_complex_type
 GC_get_complex( ) {
   c_complex_type tmp{ 0, 0 };
   if ( gc_active != nullptr ) {
-    complex_type const t = gc_active->top()->get_complex();
-    tmp.real = t.real();
-    tmp.imag = t.imag();
+    tmp.real = GC_get_complex_re();
+    tmp.imag = GC_get_complex_im();
   }
   return tmp;
 }
 
 double
 GC_get_complex_re( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().real();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex().real(), 0 );
 }
 
 double
 GC_get_complex_im( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().imag();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex().imag(), 0 );
 }
 
 char const *
 GC_get_string( ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string().data();
+  GC_TRY_GET( gc_active->top()->get_string().data(), nullptr );
 }
 
 //..............................................................................
@@ -498,57 +510,56 @@ GC_push_string( char const a[] ) {
 
 int
 GC_get_bool_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
-  bool const val{ gc_active->top()->get_bool_at(pos) };
-  return val ? 1 : 0;
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  GC_TRY_GET( gc_active->top()->get_bool_at(pos) ? 1 : 0, 0 );
 }
 
 int
 GC_get_int_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int_at( static_cast<unsigned>(pos) );
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  GC_TRY_GET( gc_active->top()->get_int_at( static_cast<unsigned>(pos) ), 0 );
 }
 
 double
 GC_get_real_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_number_at( static_cast<unsigned>(pos) );
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  GC_TRY_GET( gc_active->top()->get_number_at( static_cast<unsigned>(pos) ), 0 );
 }
 
 c_complex_type
 GC_get_complex_at_pos( int const pos ) {
   c_complex_type tmp;
   tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag );
-  return tmp;
+  if ( gc_active == nullptr || pos < 0 ) return tmp;
+  GC_TRY_GET( ( gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag ), tmp ), tmp );
 }
 
 double
 GC_get_complex_real_at_pos( int const pos ) {
   real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return re;
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  GC_TRY_GET( ( gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im ), re ), 0 );
 }
 
 double
 GC_get_complex_imag_at_pos( int const pos ) {
   real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return im;
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  GC_TRY_GET( ( gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im ), im ), 0 );
 }
 
 char const *
 GC_get_string_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string_at(pos).data();
+  if ( gc_active == nullptr || pos < 0 ) return nullptr;
+  GC_TRY_GET( gc_active->top()->get_string_at(pos).data(), nullptr );
 }
 
 //..............................................................................
 
 double
 GC_get_real_at_coor( int const i, int const j ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) );
+  if ( gc_active == nullptr || i < 0 || j < 0 ) return 0;
+  GC_TRY_GET( gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ), 0 );
 }
 
 c_complex_type
@@ -556,29 +567,22 @@ GC_get_complex_at_coor( int const i, int const j ) {
   c_complex_type tmp;
   tmp.real = tmp.imag = 0;
   if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    tmp.real = res.real();
-    tmp.imag = res.imag();
+    tmp.real = GC_get_complex_real_at_coor( i, j );
+    tmp.imag = GC_get_complex_imag_at_coor( i, j );
   }
   return tmp;
 }
 
 double
 GC_get_complex_real_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.real();
-  }
-  return 0;
+  if ( gc_active == nullptr || i < 0 || j < 0 ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ).real(), 0 );
 }
 
 double
 GC_get_complex_imag_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.imag();
-  }
-  return 0;
+  if ( gc_active == nullptr || i < 0 || j < 0 ) return 0;
+  GC_TRY_GET( gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ).imag(), 0 );
 }
 
 //..............................................................................
@@ -623,8 +627,11 @@ GC_set_empty_vector_of_string() {
 int
 GC_set_vector_of_bool( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
-  for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
+    for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0
+  );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -633,32 +640,38 @@ GC_set_vector_of_bool( int const * a, int const nelem ) {
 int
 GC_set_vector_of_int( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( std::copy_n( a, nelem, gc_active->top()->set_vec_int( nelem ).begin() ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_real( double const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_real_type & v{ gc_active->top()->set_vec_real(nelem) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( std::copy_n( a, nelem, gc_active->top()->set_vec_real( nelem ).begin() ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_complex( double const * re, double const * im, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_complex_type & v{gc_active->top()->set_vec_complex(nelem)};
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_complex_type & v{ gc_active->top()->set_vec_complex(nelem) };
+    for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) { v[i].real(re[i]); v[i].imag(im[i]); }
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_string_type & v{ gc_active->top()->set_vec_string(nelem) };
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_string_type & v{ gc_active->top()->set_vec_string(nelem) };
+    for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i]
+  );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -667,6 +680,7 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
 int
 GC_set_vector( int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY( gc_active->top()->set_vector(nelem) );
   return GENERIC_CONTAINER_OK;
 }
@@ -681,24 +695,25 @@ GC_set_empty_vector() {
 int
 GC_get_vector_size() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->get_num_elements());
+  GC_TRY_GET( static_cast<int>(gc_active->top()->get_num_elements()), 0 );
 }
 
 int
 GC_get_matrix_num_rows() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_rows());
+  GC_TRY_GET( static_cast<int>(gc_active->top()->num_rows()), 0 );
 }
 
 int
 GC_get_matrix_num_cols() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_cols());
+  GC_TRY_GET( static_cast<int>(gc_active->top()->num_cols()), 0 );
 }
 
 int
 GC_push_vector_position( int const pos ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( pos < 0 ) return GENERIC_CONTAINER_NO_DATA;
   return gc_active->push_vector_position(pos);
 }
 
-- 
2.43.0


From bdc1de534dd7da6b1e7c77b21300ceeae4ca8098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:06 +0000
Subject: [PATCH 18/50] fix: Lua conversion corrupted the stack with boolean
 vectors, lost 64 bit integers, embedded NULs and elements of mixed lists,
 leaked stack slots

---
 .../GenericContainerInterface_lua.cc          | 124 +++++++++++++-----
 1 file changed, 88 insertions(+), 36 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 4968a88..dd6c014 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -88,7 +88,32 @@ namespace GC_namespace {
   inline
   bool
   isInteger64( real_type x )
-  { return isZero( x-static_cast<int64_t>(floor(x)) ); }
+  { return x >= -9223372036854775808.0 && x < 9223372036854775808.0 && isZero( x-floor(x) ); }
+
+  // true if the number at position `idx` of the stack is an integer, integers
+  // are read without passing through a floating point number
+  static
+  inline
+  bool
+  lua_get_integer( lua_State * L, int idx, long_type & res ) {
+    #if LUA_VERSION_NUM >= 503
+    if ( lua_isinteger( L, idx ) ) { res = long_type(lua_tointeger( L, idx )); return true; }
+    #endif
+    real_type val = lua_tonumber( L, idx );
+    if ( !isInteger64(val) ) return false;
+    res = long_type(val);
+    return true;
+  }
+
+  // strings may contain NUL
+  static
+  inline
+  string
+  lua_get_string( lua_State * L, int idx ) {
+    size_t len{0};
+    char const * s = lua_tolstring( L, idx, &len );
+    return string( s, len );
+  }
 
   /*
   //   _                _           ____  ____
@@ -108,33 +133,48 @@ namespace GC_namespace {
   push_vec_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
     // index start from 1 in LUA
-    unsigned    idx  = unsigned(lua_tointeger(L, -2)-1);
+    long_type   key;
+    GC_ASSERT(
+      lua_get_integer( L, -2, key ) && key >= 1 && key <= 2147483647,
+      "lua_table_to_GC, bad index in lua table: " << lua_tonumber(L, -2)
+    )
+    unsigned    idx  = unsigned(key-1);
     lua_Integer type = lua_type(L, -1);
     switch( type ) {
     case LUA_TBOOLEAN:
       {
-        gc.get_bool_at(idx);
-        vec_bool_type & bv = gc.get_vec_bool();
-        bv[idx] = lua_toboolean(L, -1) ? true : false;
+        bool const val{ lua_toboolean(L, -1) ? true : false };
+        if ( gc.get_type() == GC_type::NOTYPE || gc.get_type() == GC_type::VEC_BOOL ) {
+          gc.get_bool_at(idx);
+          vec_bool_type & bv = gc.get_vec_bool();
+          bv[idx] = val;
+        } else {
+          gc.promote_to_vector();
+          gc[idx].set_bool( val );
+        }
       }
       break;
     case LUA_TNUMBER:
       {
         real_type val = lua_tonumber(L, -1);
+        long_type ival;
+        // booleans already stored must not become numbers
+        if ( gc.get_type() == GC_type::VEC_BOOL ) gc.promote_to_vector();
         if ( gc.get_type() == GC_type::VEC_REAL ||
              gc.get_type() == GC_type::MAT_REAL ) {
           gc.get_real_at(idx) = val;
-        } else if ( isInteger64(val) ) {
-          gc.get_long_at(idx) = long_type(val);
+        } else if ( lua_get_integer( L, -1, ival ) ) {
+          gc.get_long_at(idx) = ival;
         } else {
           gc.get_real_at(idx) = val;
         }
       }
       break;
     case LUA_TSTRING:
-      gc.get_string_at(idx) = lua_tostring(L, -1);
+      gc.get_string_at(idx) = lua_get_string(L, -1);
       break;
     case LUA_TTABLE:
+      if ( gc.get_type() != GC_type::NOTYPE ) gc.promote_to_vector(); // keep elements already stored
       lua_table_to_GC( L, gc[idx] );
       break;
     }
@@ -146,7 +186,7 @@ namespace GC_namespace {
   void
   push_hash_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
-    string key  = lua_tostring(L, -2);
+    string key  = lua_get_string(L, -2);
     int    type = lua_type(L, -1);
     switch( type ) {
       case LUA_TBOOLEAN:
@@ -154,13 +194,13 @@ namespace GC_namespace {
         break;
       case LUA_TNUMBER:
         {
-          real_type val = lua_tonumber(L, -1);
-          if ( isInteger64(val) ) gc[key].set_long(long_type(val));
-          else                    gc[key].set_real(val);
+          long_type ival;
+          if ( lua_get_integer( L, -1, ival ) ) gc[key].set_long(ival);
+          else                                  gc[key].set_real(lua_tonumber(L, -1));
         }
         break;
       case LUA_TSTRING:
-        gc[key].set_string(lua_tostring(L, -1));
+        gc[key].set_string(lua_get_string(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc[key] );
@@ -174,6 +214,7 @@ namespace GC_namespace {
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
     // ---
+    GC_ASSERT( lua_checkstack( L, 4 ), "lua_table_to_GC, lua stack exhausted" )
     lua_pushnil(L); // first key
     // ---
     while ( lua_next(L,-2) != 0 ) {
@@ -199,20 +240,20 @@ namespace GC_namespace {
         break;
       case LUA_TNUMBER:
         {
-        real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
+        long_type ival;
+        if ( lua_get_integer( L, -1, ival ) ) gc.set_long(ival);
+        else                                  gc.set_real(lua_tonumber(L, -1));
         }
         break;
       case LUA_TSTRING:
-        gc.set_string(lua_tostring(L, -1));
+        gc.set_string(lua_get_string(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
         //global_to_GC( gc );
-        lua_settop(L, 0);
         break;
     }
+    lua_settop(L, 0);
   }
 
   /*
@@ -228,6 +269,7 @@ namespace GC_namespace {
   void
   GC_to_lua( lua_State * L, GenericContainer const & gc ) {
     // inizializzazione
+    GC_ASSERT( lua_checkstack( L, 4 ), "GC_to_lua, lua stack exhausted" )
     switch ( gc.get_type() ) {
     case GC_type::NOTYPE:
       lua_pushnil(L);
@@ -242,13 +284,13 @@ namespace GC_namespace {
       lua_pushnumber( L, gc.get_int() );
       break;
     case GC_type::LONG:
-      lua_pushnumber( L, lua_Number(gc.get_long()) );
+      lua_pushinteger( L, lua_Integer(gc.get_long()) );
       break;
     case GC_type::REAL:
       lua_pushnumber( L, gc.get_real() );
       break;
     case GC_type::STRING:
-      lua_pushstring( L, gc.get_string().data() );
+      lua_pushlstring( L, gc.get_string().data(), gc.get_string().size() );
       break;
     case GC_type::VEC_POINTER:
       lua_pushnil(L);
@@ -261,7 +303,6 @@ namespace GC_namespace {
           lua_rawseti( L, -2, int(i+1) );
         }
       }
-      lua_pushnil(L);
       break;
     case GC_type::VEC_INTEGER:
       { vec_int_type const & vi = gc.get_vec_int();
@@ -276,7 +317,7 @@ namespace GC_namespace {
       { vec_long_type const & vi = gc.get_vec_long();
         lua_createtable(L, int(vi.size()), 0);
         for ( unsigned i = 0; i < vi.size(); ++i ) {
-          lua_pushnumber( L, lua_Number(vi[i]) );
+          lua_pushinteger( L, lua_Integer(vi[i]) );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -294,7 +335,7 @@ namespace GC_namespace {
       { vec_string_type const & vs = gc.get_vec_string();
         lua_createtable( L, int(vs.size()), 0);
         for ( unsigned i = 0; i < vs.size(); ++i ) {
-          lua_pushstring( L, vs[i].c_str() );
+          lua_pushlstring( L, vs[i].data(), vs[i].size() );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -312,7 +353,7 @@ namespace GC_namespace {
       { map_type const & m = gc.get_map();
         lua_createtable(L, int(m.size()), 0);
         for ( map_type::const_iterator it = m.begin(); it != m.end(); ++it ) {
-          lua_pushstring(L, it->first.c_str());
+          lua_pushlstring(L, it->first.data(), it->first.size());
           GC_to_lua( L, it->second );
           lua_settable( L, -3 );
         }
@@ -369,10 +410,12 @@ namespace GC_namespace {
       "')\nlua_State invalid!"
     )
     if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
-      GC_ASSERT(
-        lua_isnil(L,-1),
+      char const * m{ lua_tostring(L, -1) };
+      string const err{ m == nullptr ? "unknown error" : m };
+      lua_settop(L, 0);
+      GC_DO_ERROR(
         "In LuaInterpreter::do_file('" << filename <<
-        "')\n" << lua_tostring(L, -1)
+        "')\n" << err
       )
     }
   }
@@ -382,10 +425,14 @@ namespace GC_namespace {
   void
   LuaInterpreter::execute( char const cmd[] ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
-    GC_ASSERT(
+    bool const ok{
       L != nullptr &&
       !luaL_loadbuffer(L, cmd, strlen(cmd), "line") &&
-      !lua_pcall(L, 0, 0, 0),
+      !lua_pcall(L, 0, 0, 0)
+    };
+    if ( !ok && L != nullptr ) lua_settop(L, 0); // remove the error message
+    GC_ASSERT(
+      ok,
       "In LuaInterpreter::execute('" << cmd <<
       "')\ncannot run the command or lua_State invalid"
     )
@@ -406,8 +453,10 @@ namespace GC_namespace {
     GC_to_lua( L, args );
 
     /* do the call (1 arguments, 1 result) */
+    bool const ok{ lua_pcall(L, 1, 1, 0) == 0 };
+    if ( !ok ) lua_settop(L, 0); // remove the error message
     GC_ASSERT(
-      lua_pcall(L, 1, 1, 0) == 0,
+      ok,
       "GenericContainer: error running function `" << fname << "'\n"
     )
 
@@ -430,8 +479,10 @@ namespace GC_namespace {
     )
 
     lua_getglobal( L, global_var );
+    bool const found{ !lua_isnil(L,-1) };
+    if ( !found ) lua_settop(L, 0);
     GC_ASSERT(
-      !lua_isnil(L,-1),
+      found,
       "LuaInterpreter::global_to_GC(...) cannot find global variable: '" <<
       global_var << "'"
     )
@@ -443,26 +494,27 @@ namespace GC_namespace {
       break;
     case LUA_TNUMBER:
       {
-        real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
+        long_type ival;
+        if ( lua_get_integer( L, -1, ival ) ) gc.set_long(ival);
+        else                                  gc.set_real(lua_tonumber(L, -1));
       }
       break;
     case LUA_TSTRING:
-      gc.set_string(lua_tostring(L, -1));
+      gc.set_string(lua_get_string(L, -1));
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
       //global_to_GC( gc );
-      lua_settop(L, 0);
       break;
     default:
+      lua_settop(L, 0);
       GC_DO_ERROR(
         "LuaInterpreter::global_to_GC(...) global variable '" <<
         global_var << "' cannot be converted!"
       )
 
     }
+    lua_settop(L, 0);
 
   }
 
-- 
2.43.0


From 7fa2083ec6558f8c1088d62901220068206e83e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:58 +0000
Subject: [PATCH 19/50] fix: formatted tables read an unterminated last line
 twice; writing with missing columns or headers read out of bounds

---
 src/GenericContainerSupport.cc |  6 ++----
 src/GenericContainerTables.cc  | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 9b51fdc..44c8fa1 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -92,8 +92,7 @@ namespace GC_namespace {
   ) {
     unsigned nl = 0;
     do {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) { line.clear(); return 0; }
       ++nl;
     } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
     return nl;
@@ -110,8 +109,7 @@ namespace GC_namespace {
     unsigned nl      = 0;
     bool     comment = true;
     while ( comment ) {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) { line.clear(); return 0; }
       comment = line.empty() ||
                 line.find_first_of(commentchars) != string_type::npos;
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
diff --git a/src/GenericContainerTables.cc b/src/GenericContainerTables.cc
index 24a178e..58baabf 100755
--- a/src/GenericContainerTables.cc
+++ b/src/GenericContainerTables.cc
@@ -38,6 +38,12 @@ namespace GC_namespace {
     char const              delimiter
   ) {
 
+    GC_ASSERT(
+      data.size() >= headers.size(),
+      "write_table, found " << headers.size() << " headers and " << data.size() << " columns"
+    )
+    if ( headers.empty() ) return;
+
     auto const ncol{ static_cast<unsigned>(headers.size()) };
     auto const nrow{ (data[0].get_num_elements()) };
 
@@ -62,9 +68,16 @@ namespace GC_namespace {
     char const              delimiter
   ) {
 
+    GC_ASSERT(
+      data.num_cols() <= headers.size(),
+      "write_table, found " << headers.size() << " headers and " << data.num_cols() << " columns"
+    )
+
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
 
+    if ( ncol == 0 ) return;
+
     stream << headers[0];
     for ( unsigned icol{1}; icol < ncol; ++icol )
       stream << delimiter << headers[icol];
@@ -85,6 +98,12 @@ namespace GC_namespace {
     ostream_type          & stream
   ) {
 
+    GC_ASSERT(
+      data.size() >= headers.size(),
+      "write_table, found " << headers.size() << " headers and " << data.size() << " columns"
+    )
+    if ( headers.empty() ) return;
+
     auto const ncol{ static_cast<unsigned>(headers.size()) };
     auto const nrow{ (data[0].get_num_elements()) };
 
@@ -123,6 +142,11 @@ namespace GC_namespace {
     ostream_type          & stream
   ) {
 
+    GC_ASSERT(
+      data.num_cols() <= headers.size(),
+      "write_table, found " << headers.size() << " headers and " << data.num_cols() << " columns"
+    )
+
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
 
-- 
2.43.0


From e78cf3ae35d75d717749dda2c0a09d71f217e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:50 +0000
Subject: [PATCH 20/50] fix: collapse failed or changed the data on lists
 mixing vectors with scalars, strings or pointers

---
 src/GenericContainerCollapse.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GenericContainerCollapse.cc b/src/GenericContainerCollapse.cc
index 1238a24..2559084 100755
--- a/src/GenericContainerCollapse.cc
+++ b/src/GenericContainerCollapse.cc
@@ -55,6 +55,7 @@ namespace GC_namespace {
         vector_type & v{*m_data.v};
         if ( v.empty() ) break; // empty vector nothing to do
         auto max_sub_type{GC_type::NOTYPE};
+        auto min_sub_type{GC_type::MAP};
         bool can_collapse{true};
         bool all_string{true};
         int_type last_nelem{-1};
@@ -64,6 +65,7 @@ namespace GC_namespace {
           auto ti{vi.get_type()};
           if ( ti != GC_type::STRING ) all_string = false;
           if ( max_sub_type < ti ) max_sub_type = ti;
+          if ( min_sub_type > ti ) min_sub_type = ti;
           int_type ne{ static_cast<int_type>(vi.get_num_elements()) };
           if ( last_nelem >= 0 && can_collapse ) {
             can_collapse = last_nelem == ne;
@@ -79,6 +81,8 @@ namespace GC_namespace {
           *this = tmp;
           break;
         }
+        // only numbers collapse in a vector, only vectors of numbers collapse in a matrix
+        if ( min_sub_type < ( max_sub_type <= GC_type::COMPLEX ? GC_type::BOOL : GC_type::VEC_BOOL ) ) break;
         switch ( max_sub_type ) {
           case GC_type::BOOL: {
             vec_bool_type tmp; tmp.reserve(v.size());
-- 
2.43.0


From 65fbb5665bbe58ef53e0d6d4b78eb061dcec2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:50 +0000
Subject: [PATCH 21/50] fix: dump left the stream in hexadecimal after printing
 a pointer

---
 src/GenericContainer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index df06a95..405a3a5 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3489,7 +3489,8 @@ namespace GC_namespace {
       stream << prefix << "null\n";
       break;
     case GC_type::POINTER:
-      stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+      stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p)
+             << std::dec << std::noshowbase << '\n';
       break;
     case GC_type::BOOL:
       stream << prefix << (m_data.b?"true":"false") << '\n';
@@ -3513,7 +3514,8 @@ namespace GC_namespace {
       { vec_pointer_type const & v{*m_data.v_p};
         for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
           stream << prefix << "vec_pointer(" << i << "): "
-                 << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i]) << '\n';
+                 << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i])
+                 << std::dec << std::noshowbase << '\n';
       }
       break;
     case GC_type::VEC_BOOL:
-- 
2.43.0


From f86b5fb314c86e75f980d5d84987c3b0b647743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 22/50] fix: storing a value, vector, matrix or string that is
 part of the container's own content read released memory; appending to an
 empty container added a spurious first element

---
 src/GenericContainer.cc | 104 +++++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 45 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 405a3a5..cd9e2ed 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -355,43 +355,37 @@ namespace GC_namespace {
 
   GenericContainer &
   GenericContainer::operator = ( vec_bool_type const & a ) {
-    set_vec_bool( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_b->begin() );
+    set_vec_bool( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_int_type const & a ) {
-    set_vec_int( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_i->begin() );
+    set_vec_int( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_long_type const & a ) {
-    set_vec_long( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_l->begin() );
+    set_vec_long( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_real_type const & a ) {
-    set_vec_real( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_r->begin() );
+    set_vec_real( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_complex_type const & a ) {
-    set_vec_complex( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_c->begin() );
+    set_vec_complex( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_string_type const & a ) {
-    set_vec_string( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_s->begin() );
+    set_vec_string( a );
     return *this;
   }
 
@@ -988,8 +982,9 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::set_complex( complex_type const & value ) {
+    complex_type const tmp( value ); // value may be part of the content released below
     allocate_complex();
-    return (*m_data.c=value);
+    return (*m_data.c=tmp);
   }
 
   complex_type &
@@ -1002,8 +997,9 @@ namespace GC_namespace {
 
   string_type &
   GenericContainer::set_string( string_view const value ) {
+    string_type const tmp( value ); // value may be part of the content released below
     allocate_string();
-    return (*m_data.s = value);
+    return (*m_data.s = tmp);
   }
 
   vec_pointer_type &
@@ -1014,8 +1010,9 @@ namespace GC_namespace {
 
   vec_pointer_type &
   GenericContainer::set_vec_pointer( vec_pointer_type const & v ) {
-    allocate_vec_pointer( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_p->begin() );
+    vec_pointer_type const tmp( v ); // v may be part of the content released below
+    allocate_vec_pointer( tmp.size() );
+    std::copy( tmp.begin(), tmp.end(), m_data.v_p->begin() );
     return *m_data.v_p;
   }
 
@@ -1026,8 +1023,9 @@ namespace GC_namespace {
 
   vec_bool_type &
   GenericContainer::set_vec_bool( vec_bool_type const & v ) {
-    allocate_vec_bool( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_b->begin() );
+    vec_bool_type const tmp( v ); // v may be part of the content released below
+    allocate_vec_bool( tmp.size() );
+    std::copy( tmp.begin(), tmp.end(), m_data.v_b->begin() );
     return *m_data.v_b;
   }
 
@@ -1039,8 +1037,9 @@ namespace GC_namespace {
 
   vec_int_type &
   GenericContainer::set_vec_int( vec_int_type const & v ) {
-    allocate_vec_int( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_i->begin() );
+    vec_int_type const tmp( v ); // v may be part of the content released below
+    allocate_vec_int( tmp.size() );
+    std::copy( tmp.begin(), tmp.end(), m_data.v_i->begin() );
     return *m_data.v_i;
   }
 
@@ -1052,8 +1051,9 @@ namespace GC_namespace {
 
   vec_long_type &
   GenericContainer::set_vec_long( vec_long_type const & v ) {
-    allocate_vec_long( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_l->begin() );
+    vec_long_type const tmp( v ); // v may be part of the content released below
+    allocate_vec_long( tmp.size() );
+    std::copy( tmp.begin(), tmp.end(), m_data.v_l->begin() );
     return *m_data.v_l;
   }
 
@@ -1065,8 +1065,9 @@ namespace GC_namespace {
 
   vec_real_type &
   GenericContainer::set_vec_real( vec_real_type const & v ) {
-    allocate_vec_real( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_r->begin() );
+    vec_real_type const tmp( v ); // v may be part of the content released below
+    allocate_vec_real( tmp.size() );
+    std::copy( tmp.begin(), tmp.end(), m_data.v_r->begin() );
     return *m_data.v_r;
   }
 
@@ -1078,8 +1079,9 @@ namespace GC_namespace {
 
   vec_complex_type &
   GenericContainer::set_vec_complex( vec_complex_type const & v ) {
-    allocate_vec_complex( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_c->begin() );
+    vec_complex_type const tmp( v ); // v may be part of the content released below
+    allocate_vec_complex( tmp.size() );
+    std::copy( tmp.begin(), tmp.end(), m_data.v_c->begin() );
     return *m_data.v_c;
   }
 
@@ -1091,8 +1093,9 @@ namespace GC_namespace {
 
   mat_int_type &
   GenericContainer::set_mat_int( mat_int_type const & m ) {
-    allocate_mat_int( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_i->begin() );
+    mat_int_type const tmp( m ); // m may be part of the content released below
+    allocate_mat_int( tmp.num_rows(), tmp.num_cols() );
+    std::copy( tmp.begin(), tmp.end(), m_data.m_i->begin() );
     return *m_data.m_i;
   }
 
@@ -1104,8 +1107,9 @@ namespace GC_namespace {
 
   mat_long_type &
   GenericContainer::set_mat_long( mat_long_type const & m ) {
-    allocate_mat_long( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_l->begin() );
+    mat_long_type const tmp( m ); // m may be part of the content released below
+    allocate_mat_long( tmp.num_rows(), tmp.num_cols() );
+    std::copy( tmp.begin(), tmp.end(), m_data.m_l->begin() );
     return *m_data.m_l;
   }
 
@@ -1117,8 +1121,9 @@ namespace GC_namespace {
 
   mat_real_type &
   GenericContainer::set_mat_real( mat_real_type const & m ) {
-    allocate_mat_real( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_r->begin() );
+    mat_real_type const tmp( m ); // m may be part of the content released below
+    allocate_mat_real( tmp.num_rows(), tmp.num_cols() );
+    std::copy( tmp.begin(), tmp.end(), m_data.m_r->begin() );
     return *m_data.m_r;
   }
 
@@ -1130,8 +1135,9 @@ namespace GC_namespace {
 
   mat_complex_type &
   GenericContainer::set_mat_complex( mat_complex_type const & m ) {
-    allocate_mat_complex( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_c->begin() );
+    mat_complex_type const tmp( m ); // m may be part of the content released below
+    allocate_mat_complex( tmp.num_rows(), tmp.num_cols() );
+    std::copy( tmp.begin(), tmp.end(), m_data.m_c->begin() );
     return *m_data.m_c;
   }
 
@@ -1143,8 +1149,9 @@ namespace GC_namespace {
 
   vec_string_type &
   GenericContainer::set_vec_string( vec_string_type const & v ) {
-    allocate_vec_string( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_s->begin() );
+    vec_string_type const tmp( v ); // v may be part of the content released below
+    allocate_vec_string( tmp.size() );
+    std::copy( tmp.begin(), tmp.end(), m_data.v_s->begin() );
     return *m_data.v_s;
   }
 
@@ -1201,7 +1208,8 @@ namespace GC_namespace {
       m_data.v->resize(m_data.v->size()+1);
       m_data.v->back().set_int( i );
     } else {
-      if ( m_data_type != GC_type::VEC_INTEGER ) promote_to_vec_int();
+      if      ( m_data_type == GC_type::NOTYPE       ) set_vec_int();
+      else if ( m_data_type != GC_type::VEC_INTEGER ) promote_to_vec_int();
       m_data.v_i->emplace_back( i );
     }
   }
@@ -1218,7 +1226,8 @@ namespace GC_namespace {
       m_data.v->resize(m_data.v->size()+1);
       m_data.v->back().set_long( l );
     } else {
-      if ( m_data_type != GC_type::VEC_LONG ) promote_to_vec_long();
+      if      ( m_data_type == GC_type::NOTYPE       ) set_vec_long();
+      else if ( m_data_type != GC_type::VEC_LONG ) promote_to_vec_long();
       m_data.v_l->emplace_back( l );
     }
   }
@@ -1233,19 +1242,22 @@ namespace GC_namespace {
       m_data.v->resize(m_data.v->size()+1);
       m_data.v->back().set_real( r );
     } else {
-      if ( m_data_type != GC_type::VEC_REAL ) promote_to_vec_real();
+      if      ( m_data_type == GC_type::NOTYPE       ) set_vec_real();
+      else if ( m_data_type != GC_type::VEC_REAL ) promote_to_vec_real();
       m_data.v_r->emplace_back( r );
     }
   }
 
   void
   GenericContainer::push_complex( complex_type & c ) {
+    complex_type const tmp( c ); // c may be part of the storage moved below
     if ( m_data_type == GC_type::VECTOR ) {
       m_data.v->resize(m_data.v->size()+1);
-      m_data.v->back().set_complex( c );
+      m_data.v->back().set_complex( tmp );
     } else {
-      if ( m_data_type != GC_type::VEC_COMPLEX ) promote_to_vec_complex();
-      m_data.v_c->emplace_back( c );
+      if      ( m_data_type == GC_type::NOTYPE       ) set_vec_complex();
+      else if ( m_data_type != GC_type::VEC_COMPLEX ) promote_to_vec_complex();
+      m_data.v_c->emplace_back( tmp );
     }
   }
 
@@ -1257,12 +1269,14 @@ namespace GC_namespace {
 
   void
   GenericContainer::push_string( string_view const s ) {
-    if ( m_data_type != GC_type::VEC_STRING ) promote_to_vector();
+    string_type const tmp( s ); // s may be part of the storage moved below
+    if      ( m_data_type == GC_type::NOTYPE     ) set_vector();
+    else if ( m_data_type != GC_type::VEC_STRING ) promote_to_vector();
     if ( m_data_type == GC_type::VEC_STRING ) {
-      m_data.v_s->emplace_back( s );
+      m_data.v_s->emplace_back( tmp );
     } else {
       m_data.v->resize(m_data.v->size()+1);
-      m_data.v->back().set_string( s );
+      m_data.v->back().set_string( tmp );
     }
   }
 
-- 
2.43.0


From 8bdd2ea1c5d073ee38504a53533822b28a5a6059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:14 +0000
Subject: [PATCH 23/50] fix: get_map_bool and get_map_string on a read-only
 container turned an empty entry into a boolean or string

---
 src/GenericContainer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index cd9e2ed..c9c980f 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -25,6 +25,7 @@
 #include <iomanip>
 #include <cmath>
 #include <limits>
+#include <utility>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -2377,7 +2378,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_bool( where );
+    return std::as_const(*m_data.m).at(string(key)).get_bool( where );
   }
 
   bool_type
@@ -2400,7 +2401,7 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_bool( where );
+    return std::as_const(*m_data.m).at(who).get_bool( where );
   }
 
   int_type
@@ -2473,7 +2474,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_string( where );
+    return std::as_const(*m_data.m).at(string(key)).get_string( where );
   }
 
   string_view
@@ -2496,7 +2497,7 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_string( where );
+    return std::as_const(*m_data.m).at(who).get_string( where );
   }
 
   vec_real_type const &
-- 
2.43.0


From 26c868ab4d0af9e404375ef49047b5f630db60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:28 +0000
Subject: [PATCH 24/50] fix: merging a container into one of its own empty
 elements turned that element into a map in the merged copy

---
 src/GenericContainer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index c9c980f..ea43c7b 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3909,9 +3909,9 @@ namespace GC_namespace {
         << " in merge data expected to be of type: " << to_string(GC_type::MAP)
         << " but data stored is of type: " << gc.get_type_name()
     )
-    if ( m_data_type == GC_type::NOTYPE ) this->set_map();
-    ck( where, GC_type::MAP );
-    { GenericContainer const src{gc}; // gc may be an element of *this
+    { GenericContainer const src{gc}; // gc may be an element of *this, or contain it
+      if ( m_data_type == GC_type::NOTYPE ) this->set_map();
+      ck( where, GC_type::MAP );
       map_type const & m{src.get_map()};
       for ( const auto &[fst, snd] : m ) {
         GenericContainer & item{ (*this)[fst] };
-- 
2.43.0


From 9be8076491cf193d28025f0b063f67d9679704ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:32 +0000
Subject: [PATCH 25/50] fix: promote_to_complex refused the complex vector it
 had itself produced

---
 src/GenericContainerPromote.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 272a194..138b4b3 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1262,11 +1262,11 @@ namespace GC_namespace {
     case GC_type::VEC_INTEGER:
     case GC_type::VEC_LONG:
     case GC_type::VEC_REAL:
+    case GC_type::VEC_COMPLEX:
       promote_to_vec_complex();
       break;
     case GC_type::POINTER:
     case GC_type::STRING:
-    case GC_type::VEC_COMPLEX:
     case GC_type::VEC_STRING:
     case GC_type::MAT_INTEGER:
     case GC_type::MAT_LONG:
-- 
2.43.0


From 51a539c50b0ffee7d50b4bf87fc42a80701a0a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:14 +0000
Subject: [PATCH 26/50] fix: from_json did not round reals correctly

---
 src_json_interface/from_json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 2ebbd97..3a5f667 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -99,7 +99,7 @@ namespace GC_namespace {
     rapidjson::Document document;
 
     // Parse del file
-    document.ParseStream(isw);
+    document.ParseStream<rapidjson::kParseFullPrecisionFlag>(isw); // correctly rounded reals
 
     // Controllare eventuali errori di parsing
     if (document.HasParseError()) {
-- 
2.43.0


From 9b7e36c342298b479528a407af0278fc0dd12f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:14 +0000
Subject: [PATCH 27/50] fix: from_json2 took an invalid first token for the end
 of the text and accepted it as an empty document

---
 src_json_interface/jsonLexer.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index 46eb3f3..7f851b7 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -114,7 +114,7 @@ namespace yy {
         // controllo che non sia unicode
         if ( unicode_1(ch0) ) {
           if ( ch0 == '\\' ) {
-            if ( ++m_cursor == m_input.end() ) return -1; // unterminated string
+            if ( ++m_cursor == m_input.end() ) return yy::parser::token::ERROR; // unterminated string
             char const & ch1{*m_cursor};
             switch (ch1) {
             case 'n':  m_lexeme += '\n'; break;
@@ -125,7 +125,7 @@ namespace yy {
             case 'b':  m_lexeme += '\b'; break;
             case 'f':  m_lexeme += '\f'; break;
             case '/':  m_lexeme += '/';  break;
-            case 'u':  if ( !read_unicode_escape() ) { m_cursor = start_pos; return -1; } break;
+            case 'u':  if ( !read_unicode_escape() ) { m_cursor = start_pos; return yy::parser::token::ERROR; } break;
             default:
               m_lexeme += '\\';
               m_lexeme += ch1;
@@ -135,17 +135,17 @@ namespace yy {
           }
         } else { // multibyte unicode
           m_lexeme += ch0;
-          if ( ++m_cursor == m_input.end() ) return -1; // unterminated string
+          if ( ++m_cursor == m_input.end() ) return yy::parser::token::ERROR; // unterminated string
           char const & ch1{*m_cursor};
           if ( !ok_unicode(ch1) ) break; // Invalid UTF-8 continuation byte
           m_lexeme += ch1;
           if ( unicode_min_3(ch0) ) {
-            if ( ++m_cursor == m_input.end() ) return -1; // unterminated string
+            if ( ++m_cursor == m_input.end() ) return yy::parser::token::ERROR; // unterminated string
             char const & ch2{*m_cursor};
             if ( !ok_unicode(ch2) ) break; // Invalid UTF-8 continuation byte
             m_lexeme += ch2;
             if ( unicode_min_4(ch0) ) {
-              if ( ++m_cursor == m_input.end() ) return -1; // unterminated string
+              if ( ++m_cursor == m_input.end() ) return yy::parser::token::ERROR; // unterminated string
               char const & ch3{*m_cursor};
               if ( !ok_unicode(ch3) ) break; // Invalid UTF-8 continuation byte
               m_lexeme += ch3;
@@ -194,7 +194,7 @@ namespace yy {
       //std::cerr << "lexeme: " << m_lexeme << "\n";
       //std::cerr << "FAILED\n";
       m_cursor = start_pos;  // Ripristina la posizione iniziale
-      return -1;             // Se nessuna corrispondenza
+      return yy::parser::token::ERROR; // Se nessuna corrispondenza
     } else {
       m_colno += m_cursor-start_pos;
       //yylloc->begin.line   = m_lineno;
-- 
2.43.0


From 224d62663271199c86a5e73c2684039ce96f6774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:14 +0000
Subject: [PATCH 28/50] fix: from_yaml accepted text that ends inside a
 bracketed list or map

---
 src_yaml_interface/fkYAML/detail/input/deserializer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index 2e9c586..13cb89c 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -276,6 +276,9 @@ private:
 
         // parse YAML nodes recursively
         deserialize_node(lexer, token, line, indent, last_type);
+        if FK_YAML_UNLIKELY (m_flow_context_depth > 0) {
+            throw parse_error("A flow collection is not closed", line, indent);
+        }
         FK_YAML_ASSERT(
             last_type == lexical_token_t::END_OF_BUFFER || last_type == lexical_token_t::END_OF_DIRECTIVES ||
             last_type == lexical_token_t::END_OF_DOCUMENT);
-- 
2.43.0


From bc5a96b4b45a4f94b7386c8fdc6b1780cff0ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:59 +0000
Subject: [PATCH 29/50] fix: from_yaml could not read a quoted text made only
 of backslashes

---
 .../fkYAML/detail/input/lexical_analyzer.hpp             | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 130a9d3..ff5626c 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -811,13 +811,10 @@ private:
                 // * odd number of backslashes  -> double quotation mark IS escaped (e.g., "\\\"")
                 // * even number of backslashes -> double quotation mark IS NOT escaped (e.g., "\\"")
                 uint32_t backslash_counts = 0;
-                const char* p = m_token_begin_itr + (pos - 1);
-                do {
-                    if (*p-- != '\\') {
-                        break;
-                    }
+                const char* p = m_token_begin_itr + pos;
+                while (p != m_token_begin_itr && *--p == '\\') {
                     ++backslash_counts;
-                } while (p != m_token_begin_itr);
+                }
                 is_closed = ((backslash_counts & 1u) == 0); // true: even, false: odd
             }
 
-- 
2.43.0


From 0bff9fe5d18212e0016c74ebe7d815e41fb83a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:27 +0000
Subject: [PATCH 30/50] fix: from_yaml read past the end of a text cut off
 inside a multibyte character

---
 src_yaml_interface/fkYAML/detail/input/input_adapter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
index af74b16..f440aa3 100644
--- a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
@@ -820,6 +820,9 @@ private:
         while (current != end) {
             const auto first = static_cast<uint8_t>(*current++);
             const uint32_t num_bytes = utf8::get_num_bytes(first);
+            if FK_YAML_UNLIKELY (static_cast<std::size_t>(end - current) + 1 < num_bytes) {
+                throw fkyaml::invalid_encoding("Invalid UTF-8 encoding.", {first});
+            }
 
             switch (num_bytes) {
             case 1:
-- 
2.43.0


From 0f76571ef975965e2894da040d61c3e863f73dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:46 +0000
Subject: [PATCH 31/50] fix: from_yaml took an indented comment line after a
 plain scalar as part of it

---
 src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index ff5626c..3ddce38 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -862,7 +862,8 @@ private:
                 const std::size_t last_newline_pos = sv.find_last_of('\n', non_space_pos);
                 FK_YAML_ASSERT(last_newline_pos != str_view::npos);
 
-                if (non_space_pos == str_view::npos || non_space_pos - last_newline_pos - 1 <= indent) {
+                if (non_space_pos == str_view::npos || non_space_pos - last_newline_pos - 1 <= indent ||
+                    sv[non_space_pos] == '#') {
                     ends_loop = true;
                     break;
                 }
-- 
2.43.0


From b6a4dcb2aa5c1bb25dc720e20933ac3e086f0859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:02 +0000
Subject: [PATCH 32/50] fix: the key iteration of the C interface never
 reported its end and followed maps already gone

GC_get_next_key returned "" after the last key (the Ruby client waits for a null and
looped forever) and used iterators of a map which may have been replaced meanwhile.
---
 src/GenericContainerInterface_C.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 2ab0ff4..4431ce0 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -59,8 +59,8 @@ namespace GC_namespace {
     GenericContainer         data;
     deque<GenericContainer*> head;
 
-    map_type         * ptr_map{nullptr};
-    map_type::iterator map_iterator;
+    vec_string_type  map_keys;
+    size_t           map_key_pos{0};
 
   public:
 
@@ -82,7 +82,7 @@ namespace GC_namespace {
     int push_map_position( char const pos[] );
     int init_map_key();
 
-    string_view next_map_key();
+    char const * next_map_key();
 
     int reset();
 
@@ -169,16 +169,16 @@ namespace GC_namespace {
   GenericContainerExplorer::init_map_key() {
     int const ok{ check( GC_type::MAP ) };
     if ( ok == GENERIC_CONTAINER_OK ) {
-      ptr_map = &head.back()->get_map();
-      map_iterator = ptr_map->begin();
+      head.back()->get_keys( map_keys );
+      map_key_pos = 0;
     }
     return ok;
   }
 
-  string_view
+  char const *
   GenericContainerExplorer::next_map_key() {
-    if ( ptr_map != nullptr && map_iterator != ptr_map->end() ) return map_iterator++->first;
-    return "";
+    if ( map_key_pos < map_keys.size() ) return map_keys[map_key_pos++].c_str();
+    return nullptr;
   }
 
   int
@@ -747,7 +747,7 @@ GC_init_map_key() {
 char const *
 GC_get_next_key( void ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->next_map_key().data();
+  return gc_active->next_map_key();
 }
 
 } // close extern "C"
-- 
2.43.0


From fa21a1b7dee2e1a8ac3c5f22eb854205aca3d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:26 +0000
Subject: [PATCH 33/50] fix: GC_fill_for_test left the head of the container on
 nodes it had released

---
 src/GenericContainerInterface_C.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 4431ce0..0189ea0 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -263,6 +263,7 @@ int
 GC_fill_for_test( char const id[] ) {
   // ckeck if exists
   GC_select( id );
+  gc_active->reset(); // the nodes below the root are going to be replaced
   GenericContainer & gc =
      *static_cast<GenericContainer*>(gc_active->mem_ptr());
 
-- 
2.43.0


From 2596aca8b236e0436da4e6fd86394e21c14f693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:26 +0000
Subject: [PATCH 34/50] fix: GC_push_vector_position and the map calls let
 exceptions (memory exhausted) through to C

---
 src/GenericContainerInterface_C.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 0189ea0..b5b485f 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -715,7 +715,7 @@ int
 GC_push_vector_position( int const pos ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
   if ( pos < 0 ) return GENERIC_CONTAINER_NO_DATA;
-  return gc_active->push_vector_position(pos);
+  GC_TRY( return gc_active->push_vector_position(pos) );
 }
 
 //..............................................................................
@@ -735,14 +735,13 @@ GC_set_map() {
 int
 GC_push_map_position( char const pos[] ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->push_map_position( pos );
+  GC_TRY( return gc_active->push_map_position( pos ) );
 }
 
 int
 GC_init_map_key() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  int const ok{gc_active->init_map_key()};
-  return ok;
+  GC_TRY( return gc_active->init_map_key() );
 }
 
 char const *
-- 
2.43.0


From 6b09ef4674cb58511f8083a4c34d6d74199931e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:48 +0000
Subject: [PATCH 35/50] fix: tables with CRLF line endings kept the carriage
 return in the last header

The last header read was "name\r", and a blank line ended the data where with LF it is skipped.
---
 src/GenericContainerSupport.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 44c8fa1..19147b3 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -93,6 +93,7 @@ namespace GC_namespace {
     unsigned nl = 0;
     do {
       if ( !getline( stream, line ) ) { line.clear(); return 0; }
+      if ( !line.empty() && line.back() == '\r' ) line.pop_back(); // CRLF line ending
       ++nl;
     } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
     return nl;
@@ -110,6 +111,7 @@ namespace GC_namespace {
     bool     comment = true;
     while ( comment ) {
       if ( !getline( stream, line ) ) { line.clear(); return 0; }
+      if ( !line.empty() && line.back() == '\r' ) line.pop_back(); // CRLF line ending
       comment = line.empty() ||
                 line.find_first_of(commentchars) != string_type::npos;
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
-- 
2.43.0


From 942fe114fd1e8b5d88cbca79ec0314a28c6a9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 36/50] fix: dump used the default indentation below the first
 level

---
 src/GenericContainer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index ea43c7b..6913477 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3587,7 +3587,7 @@ namespace GC_namespace {
             vi.dump(stream,"");
           } else {
             stream << prefix << i << ":\n";
-            vi.dump(stream,prefix2);
+            vi.dump(stream,prefix2,indent);
           }
         }
       }
@@ -3618,7 +3618,7 @@ namespace GC_namespace {
                 stream << ':';
               }
               stream << '\n';
-              snd.dump(stream,prefix2);
+              snd.dump(stream,prefix2,indent);
             }
           } else {
             string_type header = pcreExecRet == 3 ? matches[3] : fst;
@@ -3627,7 +3627,7 @@ namespace GC_namespace {
               snd.dump(stream,"");
             } else {
               stream << prefix << header << ":\n";
-              snd.dump(stream,prefix2);
+              snd.dump(stream,prefix2,indent);
             }
           }
         }
-- 
2.43.0


From 8dd424931ac1d9099b08754f923f1b42d7042185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 37/50] fix: print_content_types did not indent the lines of
 vectors and matrices

---
 src/GenericContainer.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 6913477..5905a52 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3675,47 +3675,47 @@ namespace GC_namespace {
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const & v{*m_data.v_p};
-        stream << "vector of pointer[" << v.size() << "]\n"; }
+        stream << prefix << "vector of pointer[" << v.size() << "]\n"; }
       break;
     case GC_type::VEC_BOOL:
       { vec_bool_type const & v{*m_data.v_b};
-        stream << "vector of bool[" << v.size() << "]\n"; }
+        stream << prefix << "vector of bool[" << v.size() << "]\n"; }
       break;
     case GC_type::VEC_INTEGER:
       { vec_int_type const & v{*m_data.v_i};
-        stream << "vector of int[" << v.size() << "]\n"; }
+        stream << prefix << "vector of int[" << v.size() << "]\n"; }
       break;
     case GC_type::VEC_LONG:
       { vec_long_type const & v{*m_data.v_l};
-        stream << "vector of long[" << v.size() << "]\n"; }
+        stream << prefix << "vector of long[" << v.size() << "]\n"; }
       break;
     case GC_type::VEC_REAL:
       { vec_real_type const & v{*m_data.v_r};
-        stream << "vector of double[" << v.size() << "]\n"; }
+        stream << prefix << "vector of double[" << v.size() << "]\n"; }
       break;
     case GC_type::VEC_COMPLEX:
       { vec_complex_type const & v{*m_data.v_c};
-        stream << "vector of complex[" << v.size() << "]\n"; }
+        stream << prefix << "vector of complex[" << v.size() << "]\n"; }
       break;
     case GC_type::MAT_INTEGER:
       { mat_int_type const & m{*m_data.m_i};
-        stream << "matrix of int[" << m.num_rows() << "," << m.num_cols() << "]\n"; }
+        stream << prefix << "matrix of int[" << m.num_rows() << "," << m.num_cols() << "]\n"; }
       break;
     case GC_type::MAT_LONG:
       { mat_long_type const & m{*m_data.m_l};
-        stream << "matrix of long[" << m.num_rows() << "," << m.num_cols() << "]\n"; }
+        stream << prefix << "matrix of long[" << m.num_rows() << "," << m.num_cols() << "]\n"; }
       break;
     case GC_type::MAT_REAL:
       { mat_real_type const & m{*m_data.m_r};
-        stream << "matrix of double[" << m.num_rows() << "," << m.num_cols() << "]\n"; }
+        stream << prefix << "matrix of double[" << m.num_rows() << "," << m.num_cols() << "]\n"; }
       break;
     case GC_type::MAT_COMPLEX:
       { mat_complex_type const & m{*m_data.m_c};
-        stream << "matrix of complex[" << m.num_rows() << "," << m.num_cols() << "]\n"; }
+        stream << prefix << "matrix of complex[" << m.num_rows() << "," << m.num_cols() << "]\n"; }
       break;
     case GC_type::VEC_STRING:
       { vec_string_type const & v{*m_data.v_s};
-        stream << "vector of string[" << v.size() << "]\n"; }
+        stream << prefix << "vector of string[" << v.size() << "]\n"; }
       break;
     case GC_type::VECTOR:
       { vector_type const & v{*m_data.v};
-- 
2.43.0


From 683e031ed2bddae11b0bc3c9c69255633c27300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 38/50] fix: dump of a vector of pointers inside a list did not
 start or end its lines

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 5905a52..f4b9c61 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3582,7 +3582,7 @@ namespace GC_namespace {
         for ( vector_type::size_type i{0}; i < v.size(); ++i ) {
           GenericContainer const & vi{v[i]};
           if ( vi.simple_data() ||
-               ( vi.simple_vec_data() && vi.get_num_elements() <= 10 ) ) {
+               ( vi.simple_vec_data() && GC_type::VEC_POINTER != vi.m_data_type && vi.get_num_elements() <= 10 ) ) {
             stream << prefix << i << ": ";
             vi.dump(stream,"");
           } else {
-- 
2.43.0


From 8f167b30eac9ebc0dc1945bd7dbe57228d8c16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 39/50] fix: complex matrices printed their first column in
 another notation

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index f4b9c61..655cc4c 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -253,7 +253,7 @@ namespace GC_namespace {
   operator << ( ostream_type & s, mat_complex_type const & m ) {
     if ( m.num_rows() > 0 && m.num_cols() ) {
       for ( unsigned i{0}; i < m.num_rows(); ++i ) {
-        s << std::setw(8) << m(i,0);
+        s << std::setw(12) << to_string(m(i,0));
         for ( unsigned j{1}; j < m.num_cols(); ++j )
           s << " " << std::setw(12) << to_string(m(i,j));
         s << '\n';
-- 
2.43.0


From be64c8fd88caa133b0e27b26f62b4fea03332d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 40/50] fix: dump of pointers changed the number base set on
 the stream

---
 src/GenericContainer.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 655cc4c..7fbe82e 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3504,8 +3504,9 @@ namespace GC_namespace {
       stream << prefix << "null\n";
       break;
     case GC_type::POINTER:
-      stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p)
-             << std::dec << std::noshowbase << '\n';
+      { auto const flags{ stream.flags() };
+        stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        stream.flags( flags ); }
       break;
     case GC_type::BOOL:
       stream << prefix << (m_data.b?"true":"false") << '\n';
@@ -3527,10 +3528,12 @@ namespace GC_namespace {
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const & v{*m_data.v_p};
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          stream << prefix << "vec_pointer(" << i << "): "
-                 << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i])
-                 << std::dec << std::noshowbase << '\n';
+        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i ) {
+          stream << prefix << "vec_pointer(" << i << "): ";
+          auto const flags{ stream.flags() };
+          stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i]) << '\n';
+          stream.flags( flags );
+        }
       }
       break;
     case GC_type::VEC_BOOL:
-- 
2.43.0


From 3f5ad4dbd02600254f6f133faa1b330bf0bb700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:36 +0000
Subject: [PATCH 41/50] fix: dump did not prefix and indent the rows of
 matrices

---
 src/GenericContainer.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 7fbe82e..1ca0c63 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3492,6 +3492,17 @@ namespace GC_namespace {
   //  |_|
   */
 
+  template <typename TYPE>
+  static
+  void
+  dump_matrix( ostream_type & stream, string_view const prefix, mat_type<TYPE> const & m ) {
+    ostringstream rows;
+    rows.copyfmt( stream );
+    rows << m;
+    std::istringstream lines( rows.str() );
+    for ( string line; std::getline( lines, line ); ) stream << prefix << line << '\n';
+  }
+
   void
   GenericContainer::dump(
     ostream_type &    stream,
@@ -3558,19 +3569,19 @@ namespace GC_namespace {
       break;
     case GC_type::MAT_INTEGER:
       { mat_int_type const & m{*m_data.m_i};
-        stream << m; }
+        dump_matrix( stream, prefix, m ); }
       break;
     case GC_type::MAT_LONG:
       { mat_long_type const & m{*m_data.m_l};
-        stream << m; }
+        dump_matrix( stream, prefix, m ); }
       break;
     case GC_type::MAT_REAL:
       { mat_real_type const & m{*m_data.m_r};
-        stream << m; }
+        dump_matrix( stream, prefix, m ); }
       break;
     case GC_type::MAT_COMPLEX:
       { mat_complex_type const & m{*m_data.m_c};
-        stream << m; }
+        dump_matrix( stream, prefix, m ); }
       break;
     case GC_type::VEC_STRING:
       { vec_string_type const & v{*m_data.v_s};
-- 
2.43.0


From 1cbb39bc9435a9f9c6ff6a990aca803735bfac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:36 +0000
Subject: [PATCH 42/50] fix: info described every matrix as one of floating
 point numbers

---
 src/GenericContainer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 1ca0c63..e8f91b5 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -225,8 +225,12 @@ namespace GC_namespace {
   template <typename TYPE>
   void
   mat_type<TYPE>::info( ostream_type & stream ) const {
+    char const * kind{ "floating point number" };
+    if      ( std::is_same<TYPE,int_type>::value     ) kind = "integer";
+    else if ( std::is_same<TYPE,long_type>::value    ) kind = "long integer";
+    else if ( std::is_same<TYPE,complex_type>::value ) kind = "complex floating point number";
     stream
-      << "Matrix of floating point number of size "
+      << "Matrix of " << kind << " of size "
       << m_num_rows << " x " << m_num_cols
       << '\n';
   }
-- 
2.43.0


From a01f038d8c98325348714cb4ad84f9791e7ebf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 43/50] fix: dump and print_content_types overflowed the stack
 on long formatted keys and shared a match buffer between threads

---
 src/GenericContainer.cc | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index e8f91b5..18b65ba 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -26,6 +26,7 @@
 #include <cmath>
 #include <limits>
 #include <utility>
+#include <algorithm>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -38,7 +39,6 @@
   #error This library needs at least a C++11 compliant compiler
 #endif
 
-#include <regex>
 #include <fstream>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
@@ -274,25 +274,28 @@ namespace GC_namespace {
   //template ostream_type & operator << ( ostream_type & s, mat_type<complex_type> const & m );
 
   class Pcre_for_GC {
-
-    std::regex  reCompiled;
-    std::smatch reMatches;
-
   public:
-
-    Pcre_for_GC()
-    : reCompiled(R"(^\s*\d+\s*(##?)(-|=|~|_|)\s*(.*)$)")
-    { }
-
-    ~Pcre_for_GC() = default;
-
+    // matches  ^\s*\d+\s*(##?)(-|=|~|_|)\s*(.*)$  without recursion on the length of the string
     int
-    exec( string_view const str_in, string_type matches[4] ) {
-      if ( string const str(str_in); std::regex_match( str, reMatches, reCompiled ) ) {
-        for ( size_t i{0}; i < reMatches.size(); ++i ) matches[i] = reMatches[i].str();
-        return static_cast<int>(reMatches.size());
-      }
-      return 0;
+    exec( string_view const str, string_type matches[4] ) const {
+      auto const skip = [&str]( size_t const pos, char const set[] )->size_t {
+        size_t const end{ str.find_first_not_of( set, pos ) };
+        return end == string_view::npos ? str.size() : end;
+      };
+      char const blanks[]{" \t\n\v\f\r"};
+      size_t const num{ skip( 0, blanks ) };
+      size_t const num_end{ skip( num, "0123456789" ) };
+      size_t const mark{ skip( num_end, blanks ) };
+      if ( num_end == num || mark == str.size() || str[mark] != '#' ) return 0;
+      size_t const mark_end{ mark + ( str.substr( mark, 2 ) == "##" ? 2 : 1 ) };
+      size_t const line_end{ mark_end + ( str.find_first_of( "-=~_", mark_end ) == mark_end ? 1 : 0 ) };
+      size_t const head{ skip( line_end, blanks ) };
+      if ( str.find_first_of( "\n\r", head ) != string_view::npos ) return 0;
+      matches[0] = str;
+      matches[1] = str.substr( mark, mark_end - mark );
+      matches[2] = str.substr( mark_end, line_end - mark_end );
+      matches[3] = str.substr( head );
+      return 4;
     }
   };
 
-- 
2.43.0


From 941129368f70d6460b6df8b60fca76ad786011af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:58 +0000
Subject: [PATCH 44/50] fix: MATLAB import of sparse logical arrays read the
 values as doubles, out of bounds

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 4e6137c..f4204d1 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -252,7 +252,11 @@ namespace GC_namespace {
     for ( unsigned i = 0; i < nnz; ++i ) ir[i] = irs[i];
 
     real_type * sr = mxGetPr(mx);
-    if ( mxIsComplex( mx ) ) {
+    if ( mxIsLogical( mx ) ) {
+      mxLogical const * sl = mxGetLogicals(mx);
+      vec_real_type & val = gc["values"].set_vec_real( nnz );
+      for ( unsigned i = 0; i < nnz; ++i ) val[i] = sl[i] ? 1 : 0;
+    } else if ( mxIsComplex( mx ) ) {
       real_type * si = mxGetPi(mx);
       vec_complex_type & val = gc["values"].set_vec_complex( nnz );
       for ( unsigned i = 0; i < nnz; ++i ) val[i] = complex_type(sr[i],si[i]);
-- 
2.43.0


From 9166a88a4198566243231305b3a33959ac20e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:58 +0000
Subject: [PATCH 45/50] fix: MATLAB import of uint32 arrays turned values
 beyond 2^31 into negative ones

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index f4204d1..63352a4 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -322,7 +322,7 @@ namespace GC_namespace {
           case mxINT16_CLASS:   mx_to_vec_int<int16_t>(mx,gc);   break;
           case mxUINT16_CLASS:  mx_to_vec_int<uint16_t>(mx,gc);  break;
           case mxINT32_CLASS:   mx_to_vec_int<int32_t>(mx,gc);   break;
-          case mxUINT32_CLASS:  mx_to_vec_int<uint32_t>(mx,gc);  break;
+          case mxUINT32_CLASS:  mx_to_vec_long<uint32_t>(mx,gc); break;
           case mxINT64_CLASS:   mx_to_vec_long<int64_t>(mx,gc);  break;
           case mxUINT64_CLASS:  mx_to_vec_long<uint64_t>(mx,gc); break;
           case mxSINGLE_CLASS:  mx_to_vec_real<float>(mx,gc);    break;
-- 
2.43.0


From 6461c6b2e9589aca817bbba496e7ef94b451cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:59 +0000
Subject: [PATCH 46/50] fix: MATLAB import of uint64 arrays turned values
 beyond 2^63 into negative ones

---
 .../GenericContainerInterface_matlab.cc         | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 63352a4..d88b6d8 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -76,6 +76,15 @@ namespace GC_namespace {
     }
   }
 
+  template <typename T>
+  static
+  long_type
+  to_long( T v ) {
+    GC_ASSERT( v < T(0) || uint64_t(v) <= uint64_t(INT64_MAX),
+      "mxArray_to_GenericContainer: unsigned integer " << v << " does not fit a long integer" )
+    return long_type(v);
+  }
+
   template <typename T>
   static
   void
@@ -83,7 +92,7 @@ namespace GC_namespace {
     mwSize const * dims = mxGetDimensions(mx);
     T * pr = static_cast<T*>(mxGetData(mx));
     if ( mxGetNumberOfElements(mx) == 1 ) {
-      gc.set_long( long_type(*pr) );
+      gc.set_long( to_long(*pr) );
     } else {
       mwSize number_of_dimensions = mxGetNumberOfDimensions(mx);
       switch ( number_of_dimensions ) {
@@ -91,7 +100,7 @@ namespace GC_namespace {
         { mwSize total_num_of_elements = mxGetNumberOfElements(mx);
           vec_long_type & vec = gc.set_vec_long( total_num_of_elements );
           for ( mwSize idx = 0; idx < total_num_of_elements; ++idx )
-            vec[idx] = long_type(*pr++);
+            vec[idx] = to_long(*pr++);
         }
         break;
       case 2:
@@ -99,12 +108,12 @@ namespace GC_namespace {
           mwSize total_num_of_elements = mxGetNumberOfElements(mx);
           vec_long_type & vec = gc.set_vec_long( total_num_of_elements );
           for ( mwSize idx = 0; idx < total_num_of_elements; ++idx )
-            vec[idx] = long_type(*pr++);
+            vec[idx] = to_long(*pr++);
         } else {
           mat_long_type & mat = gc.set_mat_long( dims[0], dims[1] );
           for ( mwSize j = 0; j < dims[1]; ++j )
             for ( mwSize i = 0; i < dims[0]; ++i )
-              mat(i,j) = long_type(*pr++);
+              mat(i,j) = to_long(*pr++);
         }
         break;
       default:
-- 
2.43.0


From 53745020561d947c9195cba5c782bc80db394ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 47/50] fix: MATLAB export of a string_view read past its end

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index d88b6d8..28b9279 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -381,7 +381,7 @@ namespace GC_namespace {
 
   void
   to_mxArray( string_view val, mxArray * & mx ) {
-    mx = mxCreateString( val.data() );
+    mx = mxCreateString( string(val).c_str() );
   }
 
   void
-- 
2.43.0


From b4aab8bc7776cd5a1851cfbd411fb423b4cb6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 48/50] fix: MATLAB export of an empty map took the first of no
 field names

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 28b9279..ece1eb2 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -652,7 +652,7 @@ namespace GC_namespace {
         for ( map_type::const_iterator im = mappa.begin(); im != mappa.end(); ++im )
           fieldnames.push_back(im->first.data());
 
-        mx = mxCreateStructMatrix(1,1,nfield,&fieldnames.front());
+        mx = mxCreateStructMatrix(1,1,nfield,fieldnames.data());
 
         int ifield = 0;
         for ( map_type::const_iterator im = mappa.begin(); im != mappa.end(); ++im, ++ifield ) {
-- 
2.43.0


From aed22b30babecb9f61c9772eec1a03f4e08c4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:00 +0000
Subject: [PATCH 49/50] fix: debug message written to the standard output on
 export of integer vectors to MATLAB

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index ece1eb2..35f8d47 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -394,7 +394,6 @@ namespace GC_namespace {
 
   void
   to_mxArray( vec_int_type const & val, mxArray * & mx ) {
-  cout << "in  to_mxArray( vec_int_type\n";
     mwSize dims[2] = { mwSize(val.size()), 1 };
     mx = mxCreateNumericArray(2,dims,mxINT32_CLASS,mxREAL);
     int32_t * ptr = static_cast<int32_t*>(mxGetData(mx));
-- 
2.43.0


From 77476935add1e3ff5f433d7382a05d5bb7ca4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 50/50] fix: get_pointer_at discarded a vector of pointers
 instead of reading its element

---
 include/GenericContainer/GenericContainer.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 74e5e2b..1a152dd 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -2725,8 +2725,11 @@ namespace GC_namespace {
     //! \endcode
     //!
     template <typename T>
-    T& get_pointer_at( unsigned i )
-    { return (*this)[i].get_pointer<T>(); }
+    T& get_pointer_at( unsigned i ) {
+      if ( m_data_type != GC_type::VEC_POINTER ) return (*this)[i].get_pointer<T>();
+      GC_ASSERT( i < m_data.v_p->size(), "get_pointer_at( " << i << " ), out of range" )
+      return *reinterpret_cast<T*>(&(*m_data.v_p)[i]);
+    }
 
     //!
     //! Get the `i`-th pointer of the vector of pointers.
@@ -2741,8 +2744,11 @@ namespace GC_namespace {
     //! \endcode
     //!
     template <typename T>
-    T get_pointer_at( unsigned i ) const
-    { return (*this)[i].get_pointer<T>(); }
+    T get_pointer_at( unsigned i ) const {
+      if ( m_data_type != GC_type::VEC_POINTER ) return (*this)[i].get_pointer<T>();
+      GC_ASSERT( i < m_data.v_p->size(), "get_pointer_at( " << i << " ) const, out of range" )
+      return reinterpret_cast<T>((*m_data.v_p)[i]);
+    }
     //!< Return `i`-th generic pointer (if fails issue an error).
 
     //!
-- 
2.43.0

