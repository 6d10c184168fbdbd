From f28385974241d752d9806a9bfc4f9bac017dc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:38 +0000
Subject: [PATCH 01/51] fix: make container_tools.hpp well-formed C++
 (misplaced const, missing semicolon)

---
 flut/container_tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 80e7f4b..dabe74a 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -66,7 +66,7 @@ namespace flut
 	}
 
 	template< typename T > index_t back_index( const vector< T >& vec )
-	{ flut_assert( vec.size() > 0 ) return vec.size() - 1; }
+	{ flut_assert( vec.size() > 0 ); return vec.size() - 1; }
 
 	template< typename It, typename Pr > struct view_if {
 		view_if( It first, It last, Pr pred ) : first_( first ), last_( last ), pred_( pred ) {}
@@ -77,8 +77,8 @@ namespace flut
 			iterator operator++( int ) { auto keepit = *this; ++pos_; next_match(); return keepit; }
 			bool operator==( const iterator& other ) { return pos_ == other.pos_; }
 			bool operator!=( const iterator& other ) { return pos_ != other.pos_; }
-			typename const It::value_type& operator*() const { return *pos_; }
-			typename const It::value_type* operator->() const { return &(*pos_); }
+			const typename It::value_type& operator*() const { return *pos_; }
+			const typename It::value_type* operator->() const { return &(*pos_); }
 			const view_if& cv_;
 			It pos_;
 		};
-- 
2.43.0


From c42a7de861d9a127d3adc184bd0aa5d6ed37a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:55 +0000
Subject: [PATCH 02/51] fix: pattern_match uses its pattern argument on
 non-MSVC platforms

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 5c6e002..581193b 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -89,7 +89,7 @@ namespace flut
 		flut_assert_msg( str.find_first_of( ";" ) == string::npos, "pattern_match patterns cannot contain ';' on MSVC" );
 		return PathMatchSpecEx( str.c_str(), pattern.c_str(), PMSF_NORMAL ) == S_OK;
 #else
-		return fnmatch( p.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
+		return fnmatch( pattern.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
 #endif
 	}
 
-- 
2.43.0


From d9300bae5f528226694537314055b3788f9e1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:55 +0000
Subject: [PATCH 03/51] fix: parse_prop does not bind a temporary to a
 non-const reference

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9145764..2a53d85 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -151,7 +151,8 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		return parse_prop( char_stream( str, "\n\r\t\v;" ), ec );
+		char_stream cs( str, "\n\r\t\v;" );
+		return parse_prop( cs, ec );
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From f19d2375c4a19af85bd9c46058fbeb512f613360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:55 +0000
Subject: [PATCH 04/51] fix: filesystem.cpp compiles on POSIX (headers,
 explicit path, exists argument)

---
 flut/filesystem.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 2885960..1c6cc6f 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -7,9 +7,13 @@
 #ifdef FLUT_COMP_MSVC
 #	include <conio.h>
 #	include <shlobj.h>
+#	include <direct.h>
 #	pragma warning( disable: 4996 )
+#else
+#	include <sys/types.h>
+#	include <sys/stat.h>
+#	include <unistd.h>
 #endif
-#include <direct.h>
 
 namespace flut
 {
@@ -33,7 +37,7 @@ namespace flut
 		return get_known_windows_folder( FOLDERID_LocalAppData );
 #else
 		string homeDir = std::getenv( "HOME" );
-		return homeDir + "/.config";
+		return path( homeDir + "/.config" );
 #endif
 	}
 
@@ -82,7 +86,7 @@ namespace flut
 		return GetFileAttributes( path( p ).make_preferred().c_str() ) != INVALID_FILE_ATTRIBUTES;
 #else
 		struct stat info;
-		return stat( path, &info ) == 0;
+		return stat( p.c_str(), &info ) == 0;
 #endif
 	}
 
-- 
2.43.0


From bbc27f3038af7cb8b9f572702f37b3f4f4d2932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:49 +0000
Subject: [PATCH 05/51] fix: compact prop files separate entries by a delimiter
 the parser knows

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 2a53d85..551b81f 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -215,7 +215,7 @@ namespace flut
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
-		string newline = readable ? "\n" : " ";
+		string newline = readable ? "\n" : ";"; // must be a delimiter for parse_prop
 		string assign = readable ? " = " : "=";
 
 		str << indent << try_quoted( label );
-- 
2.43.0


From 9fdf72cf59cef789ac325c60860fc34d9bfcb846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:22 +0000
Subject: [PATCH 06/51] fix: quoted '%', empty comments and indented comments
 in prop files are read correctly

---
 flut/prop_node_tools.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 551b81f..12f853c 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -102,21 +102,26 @@ namespace flut
 		return ( s.size() > 0 && isalpha( s[ 0 ] ) );
 	}
 
-	string get_prop_token( char_stream& str )
+	/// skip white space, separators and comments in front of a token
+	void skip_prop_space( char_stream& str )
 	{
-		while ( true )
+		while ( str.good() )
 		{
-			string t = str.get_token( "={}%", "\"'" );
-			if ( t == "%" )
-			{
-				// comment: skip rest of line
+			char c = str.peekc();
+			if ( c == '%' ) // comment: skip rest of line
 				str.get_line();
-				continue;
-			}
-			else return trim_str( t );
+			else if ( c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f' || c == ';' )
+				str.getc();
+			else break;
 		}
 	}
 
+	string get_prop_token( char_stream& str )
+	{
+		skip_prop_space( str );
+		return trim_str( str.get_token( "={}%", "\"'" ) );
+	}
+
 	void read_prop_node( char_stream& str, prop_node& parent )
 	{
 		string t = get_prop_token( str );
-- 
2.43.0


From 10fe0c918016ef89bc0a1987bc0808e793f188dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:22 +0000
Subject: [PATCH 07/51] fix: load the children of a prop node that also has a
 value

---
 flut/prop_node_tools.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 12f853c..9ad7617 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -128,8 +128,14 @@ namespace flut
 		if ( t == "=" )
 		{
 			parent.set_value( get_prop_token( str ) );
+
+			// a node with a value can also have children
+			skip_prop_space( str );
+			if ( str.good() && str.peekc() == '{' )
+				t = get_prop_token( str );
 		}
-		else if ( t == "{" )
+
+		if ( t == "{" )
 		{
 			while ( str.good() && t != "}" )
 			{
-- 
2.43.0


From 70761560e4f710f6a2d463928cf5dc41f650453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:22 +0000
Subject: [PATCH 08/51] fix: quote operators, separators, comment signs and
 single quotes when saving prop files

---
 flut/prop_node_tools.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9ad7617..d2b849d 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -223,15 +223,21 @@ namespace flut
 		}
 	}
 
+	/// quote text that would otherwise be read as more than one token
+	string prop_quoted( const string& s )
+	{
+		return needs_quotes( s ) || s.find_first_of( "={}%;'" ) != string::npos ? quoted( s ) : s;
+	}
+
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
 		string newline = readable ? "\n" : ";"; // must be a delimiter for parse_prop
 		string assign = readable ? " = " : "=";
 
-		str << indent << try_quoted( label );
+		str << indent << prop_quoted( label );
 		if ( pn.has_value() || pn.empty() )
-			str << assign << ( pn.empty() ? "\"\"" : try_quoted( pn.get_value() ) );
+			str << assign << ( pn.empty() ? "\"\"" : prop_quoted( pn.get_value() ) );
 		str << newline;
 		if ( pn.size() > 0 )
 		{
-- 
2.43.0


From 81ef1cbd60904762379f7560565129aa8b425d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:11 +0000
Subject: [PATCH 09/51] fix: bytes above 127 are not control characters when
 quoting (UTF-8 text was damaged)

---
 flut/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 581193b..784f271 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -105,7 +105,7 @@ namespace flut
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( (unsigned char)c < 32 )
 		{
 			switch ( c )
 			{
@@ -157,7 +157,7 @@ namespace flut
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || (unsigned char)c < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -168,7 +168,7 @@ namespace flut
 	FLUT_API bool needs_quotes( const string& s )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || c == '\\' )
+			if ( (unsigned char)c < 33 || c == '\"' || c == '\\' )
 				return true;
 		return false;
 	}
-- 
2.43.0


From e993e8ebbb922a54498b3dff7df74919d599c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:27 +0000
Subject: [PATCH 10/51] fix: save_prop reports failed writes

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index d2b849d..7b99c03 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -255,7 +255,8 @@ namespace flut
 		{
 			for ( auto& node : pn )
 				write_prop_none( str, node.first, node.second, 0, readable );
-			return true;
+			str.close(); // writes what is left
+			return str.good();
 		}
 		else return false;
 	}
-- 
2.43.0


From 648dad925cf022c5bb34bdf6b5f2b89c42fceb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 11/51] fix: load_string reports read errors instead of
 returning part of the file

---
 flut/filesystem.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 1c6cc6f..d431745 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -154,6 +154,14 @@ namespace flut
 		}
 		std::stringstream buf;
 		buf << ifstr.rdbuf();
+		ifstr.peek();
+		if ( !ifstr.eof() )
+		{
+			// not everything could be read
+			if ( try_set_error( ec, "Could not read " + filename.str() ) )
+				return "";
+			else flut_error( "Could not read " + filename.str() );
+		}
 		return buf.str();
 	}
 
-- 
2.43.0


From f08a9e7ca2e099a5394eb7a53174215ffc17f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:53 +0000
Subject: [PATCH 12/51] fix: a successful load clears the error of an earlier
 call from the error_code

---
 flut/filesystem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index d431745..8b99b1b 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -162,6 +162,8 @@ namespace flut
 				return "";
 			else flut_error( "Could not read " + filename.str() );
 		}
+		if ( ec )
+			*ec = no_error(); // forget errors of earlier calls
 		return buf.str();
 	}
 
-- 
2.43.0


From eeab22e6f839970611d9ee32d1e3ab383fac98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:53 +0000
Subject: [PATCH 13/51] fix: parse_prop and load_prop report malformed content
 through the error_code

---
 flut/prop_node_tools.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 7b99c03..017abd0 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -162,8 +162,20 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		char_stream cs( str, "\n\r\t\v;" );
-		return parse_prop( cs, ec );
+		try
+		{
+			char_stream cs( str, "\n\r\t\v;" );
+			prop_node pn = parse_prop( cs, ec );
+			if ( ec )
+				*ec = no_error();
+			return pn;
+		}
+		catch ( std::exception& e )
+		{
+			if ( try_set_error( ec, e.what() ) )
+				return prop_node();
+			else throw;
+		}
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From 24655674ebb6a76b06df7e68e84c8508470f28a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:10 +0000
Subject: [PATCH 14/51] fix: string_cast does not cut off text when memory runs
 out

---
 flut/system/string_cast.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/string_cast.hpp b/flut/system/string_cast.hpp
index bb28141..ebc35c9 100644
--- a/flut/system/string_cast.hpp
+++ b/flut/system/string_cast.hpp
@@ -8,7 +8,7 @@ namespace flut
 {
 	template< typename T, typename E = void > struct string_cast {
 		static T from( const string& s ) { T value = T(); std::stringstream str( s ); str >> value; return value; }
-		static string to( const T& value ) { std::ostringstream str; str << value; return str.str(); }
+		static string to( const T& value ) { std::ostringstream str; str.exceptions( std::ios::badbit ); str << value; return str.str(); }
 	};
 
 	template<> struct string_cast< float, void > {
-- 
2.43.0


From 3fe91dd4a6347dd6ae41ccb2c28aa7a0aa0f5d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 15/51] fix: copy_file leaves the destination alone if the
 source is unreadable and reports failed reads and writes

---
 flut/filesystem.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 8b99b1b..102421b 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -66,14 +66,21 @@ namespace flut
 #ifdef FLUT_COMP_MSVC
 		return CopyFile( from.c_str(), to.c_str(), overwrite ) == TRUE;
 #else
-		if ( overwrite || !file_exists( to ) )
+		if ( overwrite || !exists( to ) )
 		{
+			// only touch the destination if the source can be read
 			std::ifstream src( from.str(), std::ios::binary );
-			std::ofstream dst( to.str(), std::ios::binary );
-			if ( src.good() && dst.good() )
+			src.peek();
+			if ( src.good() || src.eof() )
 			{
-				dst << src.rdbuf();
-				return true;
+				std::ofstream dst( to.str(), std::ios::binary );
+				if ( !src.eof() && dst.good() )
+				{
+					dst << src.rdbuf();
+					src.peek(); // everything was copied if this is the end
+				}
+				dst.close();
+				return src.eof() && dst.good();
 			}
 		}
 		return false;
-- 
2.43.0


From 02a3179a7c2de9826a7ce074bfa8aafc612d715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:48 +0000
Subject: [PATCH 16/51] fix: decode_char consumes a backslash at the end of the
 buffer (endless loop on truncated prop files)

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 784f271..ea15bbe 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -121,7 +121,7 @@ namespace flut
 	FLUT_API char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		flut_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
-- 
2.43.0


From 9a73428fda4481a01829526cde7c12dfb7f762a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:58 +0000
Subject: [PATCH 17/51] fix: load_ini does not drop the line after a comment

---
 flut/prop_node_tools.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 017abd0..a452a38 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -200,10 +200,7 @@ namespace flut
 				continue;
 
 			if ( line[0] == '#' ) // comment
-			{
-				str.get_line();
 				continue;
-			}
 
 			if ( line.size() > 2 && line[ 0 ] == '[' && line[ line.size() -1 ] == ']' )
 			{
-- 
2.43.0


From 34f5214cef69e16add14b8e79f2bf0dc8222decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:13 +0000
Subject: [PATCH 18/51] fix: folder_exists is not true for sockets and block
 devices

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 102421b..d7c17bc 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -112,7 +112,7 @@ namespace flut
 		struct stat status;
 		if ( stat( folder.c_str(), &status ) == 0 )
 		{
-			if ( status.st_mode & S_IFDIR )
+			if ( S_ISDIR( status.st_mode ) )
 				return true;
 		}
 		return false; // if any condition fails
-- 
2.43.0


From 54e787e4f8335695eb33ae2b18bef5adc21605ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 19/51] fix: file_exists is not true for folders

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index d7c17bc..1d74bf7 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -100,7 +100,7 @@ namespace flut
 	FLUT_API bool file_exists( const path& file )
 	{
 		std::ifstream ifs( file.str() );
-		return ifs.good();
+		return ifs.good() && !folder_exists( file ); // folders can be opened as well
 	}
 
 	FLUT_API bool folder_exists( const path& folder )
-- 
2.43.0


From 9f887df9b6eac49c9720584f5e345cea6eeb938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:41 +0000
Subject: [PATCH 20/51] fix: a file log does not repeat a torn message when its
 sink is destroyed

---
 flut/system/log_sink.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/system/log_sink.hpp b/flut/system/log_sink.hpp
index 3a42bdb..2eac379 100644
--- a/flut/system/log_sink.hpp
+++ b/flut/system/log_sink.hpp
@@ -35,7 +35,10 @@ namespace flut
 		class file_sink : public stream_sink
 		{
 		public:
-			file_sink( level l, const path& file ) : file_stream_( file.str() ), stream_sink( l, file_stream_ ) {}
+			file_sink( level l, const path& file ) : stream_sink( l, file_stream_ ) {
+				file_stream_.rdbuf()->pubsetbuf( nullptr, 0 ); // a buffer would be written again on closing after a failed write
+				file_stream_.open( file.str() );
+			}
 			virtual void send_log_message( level l, const string& msg ) override {
 				if ( file_stream_.good() ) { stream_sink::send_log_message( l, msg ); file_stream_.flush(); }
 			}
-- 
2.43.0


From f0c7c733c96d917f7812bf59cfb0a9a2d0a25e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:03 +0000
Subject: [PATCH 21/51] fix: timers use a steady clock, so setting the system
 time does not affect them

---
 flut/timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/timer.hpp b/flut/timer.hpp
index 6ffd5f4..8b23c3b 100644
--- a/flut/timer.hpp
+++ b/flut/timer.hpp
@@ -32,7 +32,7 @@ namespace flut
 #if defined FLUT_USE_WINDOWS_PERFORMANCE_COUNTER
 		typedef windows_performance_counter_clock timer_t;
 #else
-		typedef std::chrono::high_resolution_clock timer_t;
+		typedef std::chrono::steady_clock timer_t; // not affected by changes of the system time
 #endif
 		timer() : epoch( timer_t::now() ) {}
 		void reset() { epoch = timer_t::now(); }
-- 
2.43.0


From ac8778310d39f42a27f8250c73e945e480f84a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:01 +0000
Subject: [PATCH 22/51] fix: the profiler does not refuse its own thread
 (initialisation order of the thread id)

---
 flut/system/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index eef7885..60b3764 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -4,8 +4,8 @@
 
 namespace flut
 {
+	std::thread::id instance_thread_; // set by the profiler constructor, so must come first
 	profiler profiler::instance_;
-	std::thread::id instance_thread_;
 
 	profiler::profiler()
 	{
-- 
2.43.0


From 3b4557a7fb6a2ca89b964a10ef5e8008931a51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:28 +0000
Subject: [PATCH 23/51] fix: memoize does not remember a default value when
 memory runs out

---
 flut/memoize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/memoize.hpp b/flut/memoize.hpp
index c6bfd93..3181f83 100644
--- a/flut/memoize.hpp
+++ b/flut/memoize.hpp
@@ -17,7 +17,7 @@ namespace flut
 			auto it = mem_.find( tup );
 			if ( it == mem_.end() ) {
 				auto r = func_( args... );
-				mem_[ tup ] = r;
+				mem_.emplace( tup, r );
 				return r;
 			}
 			else
-- 
2.43.0


From 4c6c970928b49e598fd4ac939b043e0cc193d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:29 +0000
Subject: [PATCH 24/51] fix: const access to storage values and labels
 compiles, unknown labels are refused

---
 flut/storage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 9845f7b..01f27e9 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -78,13 +78,13 @@ namespace flut
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
-		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return *this( frame_size() - 1, channel ); }
+		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
 
 		/// access value of most recent frame by channel name, add channel if not existing
 		T& operator[]( const L& label ) { return (*this)[ find_or_add_channel( label ) ]; }
 
 		/// access value of most recent frame by channel name
-		const T& operator()( const L& label ) const { return *this( find_channel( label ) ); }
+		const T& operator()( const L& label ) const { auto idx = find_channel( label ); flut_assert( idx != no_index ); return (*this)[ idx ]; }
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
@@ -119,7 +119,7 @@ namespace flut
 			}
 		}
 
-		const std::vector< L >& labels() const { return labels_; }
+		const data_header< L >& labels() const { return labels_; }
 		const std::vector< T >& data() const { return data_; }
 
 	private:
-- 
2.43.0


From 3af1f6e1044a050c6ede7b9af53df85e13b054d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 25/51] fix: a duplicate channel label is refused before the
 storage is changed

---
 flut/storage.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 01f27e9..9e43b6b 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -17,13 +17,12 @@ namespace flut
 		~storage() {}
 
 		/// add a channel and resize buffer if needed
-		index_t add_channel( L label, const T& value = T() ) { resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label, const T& value = T() ) { flut_assert( find_channel( label ) == no_index ); resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
 
 		/// add a channel with data, resize buffer if needed
 		index_t add_channel( L label, const vector< T >& data ) {
-			resize( std::max( frame_size(), data.size() ), channel_size() + 1 );
-			labels_.set( channel_size() - 1, label );
-			auto cidx = channel_size() - 1;
+			auto cidx = add_channel( label );
+			resize( std::max( frame_size(), data.size() ), channel_size() );
 			for ( index_t fidx = 0; fidx < data.size(); ++fidx ) ( *this )( fidx, cidx ) = data[ fidx ];
 			return cidx;
 		}
-- 
2.43.0


From 514adca1aebbc794840044521e645ff9b77ed16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:07 +0000
Subject: [PATCH 26/51] fix: a data header made from labels finds them

---
 flut/buffer/data_header.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 030c3ef..011237f 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -11,8 +11,8 @@ namespace flut
 	struct data_header
 	{
 		data_header( size_t channels = 0 ) : labels_( channels ) {}
-		data_header( std::initializer_list< L > labels ) : labels_( labels ) {}
-		data_header( const std::vector< L >& labels ) : labels_( labels ) {}
+		data_header( std::initializer_list< L > labels ) { for ( auto& l : labels ) add( l ); }
+		data_header( const std::vector< L >& labels ) { for ( auto& l : labels ) add( l ); }
 		~data_header() {}
 
 		index_t add( const L& label ) {
-- 
2.43.0


From 0eb0a66b53ce1b86127de23eb6dd33ea71e25233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 27/51] fix: a relabelled channel is found at its own index and
 under its new label only

---
 flut/buffer/data_header.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 011237f..42a7764 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -35,8 +35,12 @@ namespace flut
 
 		index_t set( index_t idx, const L& label ) {
 			flut_assert( idx < size() && find( label ) == no_index );
-			labels_[ idx ] = label;
-			label_indices_[ label ] = labels_.size() - 1;
+			L new_label( label );
+			label_indices_.emplace( label, idx );
+			auto it = label_indices_.find( labels_[ idx ] );
+			if ( it != label_indices_.end() && it->second == idx )
+				label_indices_.erase( it );
+			labels_[ idx ] = std::move( new_label );
 			return idx;
 		}
 
-- 
2.43.0


From 9803a8f3c18042894a581759f1e9f6ff772f52d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:41 +0000
Subject: [PATCH 28/51] fix: a label that could not be added to a data header
 is not left behind half added

---
 flut/buffer/data_header.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 42a7764..8f9d712 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -18,7 +18,9 @@ namespace flut
 		index_t add( const L& label ) {
 			flut_assert( find( label ) == no_index );
 			labels_.push_back( label );
-			return label_indices_[ label ] = labels_.size() - 1;
+			try { label_indices_.emplace( label, labels_.size() - 1 ); }
+			catch ( ... ) { labels_.pop_back(); throw; }
+			return labels_.size() - 1;
 		}
 
 		void resize( size_t s ) { flut_assert( s >= size() ); labels_.resize( s ); }
-- 
2.43.0


From 5984fd83cb916c97333ac6b39249116ddba92cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:02 +0000
Subject: [PATCH 29/51] fix: storage dimensions and data stay in step when
 memory runs out while growing

---
 flut/storage.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 9e43b6b..6f9479b 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -98,17 +98,13 @@ namespace flut
 		void resize( size_t nframes, size_t nchannels, T value = T() ) {
 			flut_error_if( nframes < frame_size() || nchannels < channel_size(), "Cannot shrink storage" );
 			if ( nchannels > channel_size() ) {
-				if ( frame_size() > 1 ) {
-					// reorganize existing data
-					std::vector< T > new_data( nchannels * nframes, value );
-					for ( index_t fi = 0; fi < frame_size(); ++fi )
-						for ( index_t ci = 0; ci < channel_size(); ++ci )
-							new_data[ nchannels * fi + ci ] = data_[ channel_size() * fi + ci ];
-					data_ = std::move( new_data );
-				}
-				else data_.resize( nframes * nchannels, value ); // just resize
-
+				// reorganize existing data, change the storage only after everything is allocated
+				std::vector< T > new_data( nchannels * nframes, value );
+				for ( index_t fi = 0; fi < frame_size(); ++fi )
+					for ( index_t ci = 0; ci < channel_size(); ++ci )
+						new_data[ nchannels * fi + ci ] = data_[ channel_size() * fi + ci ];
 				labels_.resize( nchannels );
+				data_ = std::move( new_data );
 				frame_size_ = nframes;
 			}
 			else {
-- 
2.43.0


From bd82d722df67126c749c7705a8e68254c7b5e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:31 +0000
Subject: [PATCH 30/51] fix: interpolation before the first frame of a storage
 is refused

---
 flut/storage.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 6f9479b..3815f61 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -87,6 +87,7 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
+			flut_assert( frame_idx >= T( 0 ) );
 			auto frame_f = floor( frame_idx );
 			auto frame_w = frame_idx - frame_f;
 			index_t frame0 = static_cast<index_t>( frame_f );
-- 
2.43.0


From cfe0d40de0c61b0f41e600d85155857029aa9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:47 +0000
Subject: [PATCH 31/51] fix: reading a const table by label compiles

---
 flut/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index a56292f..fe36965 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -57,7 +57,7 @@ namespace flut
 		const T& operator()( index_t row, index_t col ) const { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 		T& operator()( index_t row, index_t col ) { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 
-		const T& operator()( const L& row, const L& col ) const { return (*this)( row_index( row ), col_index( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return (*this)( row_labels_.find( row ), col_labels_.find( col ) ); }
 		T& operator()( const L& row, const L& col ) { return (*this)( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 	private:
-- 
2.43.0


From ec6248a67c2a0fe6f1abee5c80e3cb10211e9dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 32/51] fix: growing a table by rows does not write out of
 bounds, and leaves it as it was when memory runs out

---
 flut/buffer/data_header.hpp |  1 -
 flut/table.hpp              | 18 +++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 8f9d712..279d0ec 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -13,7 +13,6 @@ namespace flut
 		data_header( size_t channels = 0 ) : labels_( channels ) {}
 		data_header( std::initializer_list< L > labels ) { for ( auto& l : labels ) add( l ); }
 		data_header( const std::vector< L >& labels ) { for ( auto& l : labels ) add( l ); }
-		~data_header() {}
 
 		index_t add( const L& label ) {
 			flut_assert( find( label ) == no_index );
diff --git a/flut/table.hpp b/flut/table.hpp
index fe36965..6d907bf 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -39,13 +39,17 @@ namespace flut
 		void resize( size_t rows, size_t cols ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
-			// reorganize existing data
-			data_.resize( row_size() * cols );
-			for ( index_t ri = rows; ri-- > 0; )
-				for ( index_t ci = cols; ci-- > 0; )
-					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : T();
-			col_labels_.resize( cols );
-			row_labels_.resize( rows );
+			// reorganize existing data, change the table only after everything is allocated
+			data_header< L > new_row_labels( row_labels_ ), new_col_labels( col_labels_ );
+			new_row_labels.resize( rows );
+			new_col_labels.resize( cols );
+			vector< T > new_data( rows * cols );
+			for ( index_t ri = 0; ri < row_size(); ++ri )
+				for ( index_t ci = 0; ci < column_size(); ++ci )
+					new_data[ cols * ri + ci ] = data_[ column_size() * ri + ci ];
+			std::swap( row_labels_, new_row_labels );
+			std::swap( col_labels_, new_col_labels );
+			std::swap( data_, new_data );
 		}
 
 		size_t row_size() const { return row_labels_.size(); }
-- 
2.43.0


From bb9edfc2995b8057204ca0ee47365652431c05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:26 +0000
Subject: [PATCH 33/51] fix: table::add_column uses its default value and
 refuses a duplicate label before changing the table

---
 flut/table.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index 6d907bf..79a711e 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -22,7 +22,8 @@ namespace flut
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
-			resize( row_size(), column_size() + 1 );
+			flut_assert( col_labels_.find( label ) == no_index );
+			resize( row_size(), column_size() + 1, default_value );
 			return col_labels_.set( column_size() - 1, label );
 		}
 
@@ -36,14 +37,14 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols ) {
+		void resize( size_t rows, size_t cols, const T& value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data, change the table only after everything is allocated
 			data_header< L > new_row_labels( row_labels_ ), new_col_labels( col_labels_ );
 			new_row_labels.resize( rows );
 			new_col_labels.resize( cols );
-			vector< T > new_data( rows * cols );
+			vector< T > new_data( rows * cols, value );
 			for ( index_t ri = 0; ri < row_size(); ++ri )
 				for ( index_t ci = 0; ci < column_size(); ++ci )
 					new_data[ cols * ri + ci ] = data_[ column_size() * ri + ci ];
-- 
2.43.0


From ec96a7958d64b03775d15b42b372b1c70b757db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:46 +0000
Subject: [PATCH 34/51] fix: table::add_row leaves the table as it was when
 memory runs out

---
 flut/table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index 79a711e..809edca 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -16,9 +16,9 @@ namespace flut
 		~table() {}
 
 		index_t add_row( const L& label, const T& default_value = T() ) {
-			row_labels_.add( label );
-			data_.resize( row_size() * column_size(), default_value );
-			return row_size() - 1;
+			data_.resize( ( row_size() + 1 ) * column_size(), default_value );
+			try { return row_labels_.add( label ); }
+			catch ( ... ) { data_.resize( row_size() * column_size() ); throw; }
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
-- 
2.43.0


From a53679b66c5baf7fcaae1a3d4888d564f8d7ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:20 +0000
Subject: [PATCH 35/51] fix: circular_deque.hpp compiles with conforming
 compilers, its postfix increment does not return a dangling reference

---
 flut/circular_deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 39fcd52..118359b 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -50,10 +50,10 @@ namespace flut
 			using value_type = IT;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this;  }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
-			difference_type operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
+			std::ptrdiff_t operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
 			bool operator==( const iterator_impl< IT >& other ) { return other.index_ == index_; }
 			bool operator!=( const iterator_impl< IT >& other ) { return other.index_ != index_; }
 			IT& operator*() { return const_cast< IT& >( buffer_[ index_ % buffer_.size() ] ); }
-- 
2.43.0


From 00d65ea32f161525bf5350e71551746f3b54aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:52 +0000
Subject: [PATCH 36/51] fix: the const back() of circular_deque gives the last
 element

---
 flut/circular_deque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 118359b..367f41a 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -31,7 +31,7 @@ namespace flut
 		void pop_front() { flut_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
-		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ ) % capacity() ]; }
+		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
 
 		T& front() { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
 		const T& front() const { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
-- 
2.43.0


From 0a27667b56bab0f962ecab57d5b2e06f9d818d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 37/51] fix: circular_deque::push_back on a full buffer whose
 front is not at its start

---
 flut/circular_deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 367f41a..0d39eb7 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -16,8 +16,10 @@ namespace flut
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
-			else back() = value;
+			if ( !full() ) buffer_[ ( front_ + size_ ) % capacity() ] = value;
+			else if ( front_ == 0 ) buffer_.push_back( value );
+			else { buffer_.insert( buffer_.begin() + front_, value ); ++front_; }
+			++size_;
 		}
 		void push_front( const T& value ) {
 			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + front_, value );
-- 
2.43.0


From 455c501e3e2c3f9a13f3625f8cb427a00791d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:12 +0000
Subject: [PATCH 38/51] fix: circular_deque::push_front leaves the contents as
 they were when it fails

---
 flut/circular_deque.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 0d39eb7..eb536bb 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -22,8 +22,13 @@ namespace flut
 			++size_;
 		}
 		void push_front( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + front_, value );
-			else { front_ = ( front_ + capacity() - 1 ) % capacity(); front() = value; }
+			if ( !full() ) {
+				auto new_front = ( front_ + capacity() - 1 ) % capacity();
+				buffer_[ new_front ] = value;
+				front_ = new_front;
+			}
+			else buffer_.insert( buffer_.begin() + front_, value );
+			++size_;
 		}
 
 		T& operator[]( index_t idx ) { return buffer_[ ( front_ + idx ) % buffer_.size() ]; }
-- 
2.43.0


From bbc3f722760abfece1ab0ae5f5ac591e212f7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:22 +0000
Subject: [PATCH 39/51] fix: circular_deque::reserve keeps the contents

---
 flut/circular_deque.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index eb536bb..e8f9a7d 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -49,7 +49,12 @@ namespace flut
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			if ( s <= capacity() ) return;
+			std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() );
+			front_ = 0;
+			buffer_.resize( s );
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl : public std::iterator< std::forward_iterator_tag, IT >
-- 
2.43.0


From 63ffd02f712ae6a1f0199d6093b4a729516247ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:43 +0000
Subject: [PATCH 40/51] fix: sorted_vector::find compiles and returns an
 iterator

---
 flut/sorted_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/sorted_vector.hpp b/flut/sorted_vector.hpp
index 5f2b691..7b793c6 100644
--- a/flut/sorted_vector.hpp
+++ b/flut/sorted_vector.hpp
@@ -27,12 +27,12 @@ namespace flut
 
 		iterator find( const T& e ) {
 			auto it = std::lower_bound( begin(), end(), e );
-			return ( it != end() && *it == e ) ? *it : end();
+			return ( it != end() && *it == e ) ? it : end();
 		}
 
 		const_iterator find( const T& e ) const {
 			auto it = std::lower_bound( cbegin(), cend(), e );
-			return ( it != cend() && *it == e ) ? *it : cend();
+			return ( it != cend() && *it == e ) ? it : cend();
 		}
 	};
 }
-- 
2.43.0


From 8461c7ee9ae3a25cdffa70385cbb3b46626cca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:43 +0000
Subject: [PATCH 41/51] fix: dynarray move assignment compiles and leaves the
 source empty

---
 flut/dynarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 2946f37..3002535 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -18,7 +18,7 @@ namespace flut
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
 		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
 		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) { data_ = std::move( o.data() ); end_ = o.end_; return *this; }
+		dynarray<T>& operator=( dynarray&& o ) { if ( this != &o ) { data_ = std::move( o.data_ ); end_ = o.end_; o.end_ = nullptr; } return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[ i ]; }
-- 
2.43.0


From 7bbba33f9d0f8cbdfc6e3c145a62f9e6350341aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:56 +0000
Subject: [PATCH 42/51] fix: a moved-from dynarray is empty

---
 flut/dynarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 3002535..8030e83 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -16,7 +16,7 @@ namespace flut
 		dynarray( size_t n ) : data_( new T[ n ] ), end_( data_.get() + n ) {}
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
+		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
 		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
 		dynarray<T>& operator=( dynarray&& o ) { if ( this != &o ) { data_ = std::move( o.data_ ); end_ = o.end_; o.end_ = nullptr; } return *this; }
 		~dynarray() {}
-- 
2.43.0


From 2fbeda7a6a88a419e0c91fa66188f767161b91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:09 +0000
Subject: [PATCH 43/51] fix: dynarray copy assignment keeps the contents on
 self-assignment and when copying fails

---
 flut/dynarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 8030e83..bae17ec 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -17,7 +17,7 @@ namespace flut
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
 		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
+		dynarray<T>& operator=( const dynarray& o ) { dynarray copy( o ); return *this = std::move( copy ); }
 		dynarray<T>& operator=( dynarray&& o ) { if ( this != &o ) { data_ = std::move( o.data_ ); end_ = o.end_; o.end_ = nullptr; } return *this; }
 		~dynarray() {}
 
-- 
2.43.0


From 6b7bc4cb89f6146a4b592cc664078d81a6af50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:56 +0000
Subject: [PATCH 44/51] fix: adding and erasing children of a prop_node keeps
 track of which nodes have been accessed

---
 flut/prop_node.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 8a26477..1407301 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -40,7 +40,7 @@ namespace flut
 		prop_node( const value_t& v ) : accessed_flag( false ), value( v ) {}
 		prop_node( value_t&& v ) : accessed_flag( false ), value( std::move( v ) ) {}
 		prop_node( const prop_node& other ) : accessed_flag( false ), value( other.value ), children( other.children ) {}
-		prop_node( prop_node&& other ) : accessed_flag( false ), value( std::move( other.value ) ), children( std::move( other.children ) ) {}
+		prop_node( prop_node&& other ) noexcept : accessed_flag( other.accessed_flag ), value( std::move( other.value ) ), children( std::move( other.children ) ) {}
 		prop_node( const prop_node* other ) : accessed_flag( false ), value( other ? other->value : value_t() ), children( other ? other->children : container_t() ) {}
 
 		/// destructor (non-virtual)
@@ -48,7 +48,7 @@ namespace flut
 
 		/// assignment operators
 		prop_node& operator=( const prop_node& other ) { value = other.value; children = other.children; return *this; }
-		prop_node& operator=( prop_node&& other ) { value = std::move( other.value ); children = std::move( other.children ); return *this; }
+		prop_node& operator=( prop_node&& other ) noexcept { accessed_flag = other.accessed_flag; value = std::move( other.value ); children = std::move( other.children ); return *this; }
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
 		/// equality operators
-- 
2.43.0


From b2cec8bf21ae07e3109abec45ebd37639b6e574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:26 +0000
Subject: [PATCH 45/51] fix: prop_node copy assignment takes full effect or
 none, also from the node's own parent or child

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 1407301..25efae8 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -47,7 +47,7 @@ namespace flut
 		~prop_node() {}
 
 		/// assignment operators
-		prop_node& operator=( const prop_node& other ) { value = other.value; children = other.children; return *this; }
+		prop_node& operator=( const prop_node& other ) { return *this = prop_node( other ); }
 		prop_node& operator=( prop_node&& other ) noexcept { accessed_flag = other.accessed_flag; value = std::move( other.value ); children = std::move( other.children ); return *this; }
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
-- 
2.43.0


From e2ae450ec5cf906f3cf3d7fa12665c53cf2bb45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:45 +0000
Subject: [PATCH 46/51] fix: merge_prop_nodes works when a node is merged with
 its own parent or child (use after free)

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index a452a38..5f900c7 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -272,7 +272,8 @@ namespace flut
 
 	void merge_prop_nodes( prop_node& pn, const prop_node& other, bool overwrite )
 	{
-		for ( auto& o : other )
+		const prop_node source( other ); // other may be part of pn, or contain it
+		for ( auto& o : source )
 		{
 			auto it = pn.find( o.first );
 			if ( it == pn.end() )
-- 
2.43.0


From f59c7638a30292f60efd40928f346c5f09370d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:06 +0000
Subject: [PATCH 47/51] fix: a node that could not be moved into another for
 lack of memory keeps its contents

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 25efae8..8306379 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -125,7 +125,7 @@ namespace flut
 		prop_node& push_back( const key_t& key, const prop_node& pn )
 		{ children.emplace_back( std::make_pair( key, pn ) ); return children.back().second; }
 		prop_node& push_back( const key_t& key, prop_node&& pn )
-		{ children.emplace_back( std::make_pair( key, std::move( pn ) ) ); return children.back().second; }
+		{ children.emplace_back( key, std::move( pn ) ); return children.back().second; }
 		prop_node& push_back( const key_t& key )
 		{ children.emplace_back( std::make_pair( key, prop_node() ) ); return children.back().second; }
 
-- 
2.43.0


From 6d6b8f347dff779533f8234de16b8b58b429c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:10 +0000
Subject: [PATCH 48/51] fix: prop_node::insert leaves the node as it was when
 memory runs out

---
 flut/prop_node.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 8306379..f6d40f2 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -130,11 +130,15 @@ namespace flut
 		{ children.emplace_back( std::make_pair( key, prop_node() ) ); return children.back().second; }
 
 		/// insert children
-		const_iterator insert( const_iterator pos, const_iterator first, const_iterator last )
-		{ return children.insert( pos, first, last ); }
+		const_iterator insert( const_iterator pos, const_iterator first, const_iterator last ) {
+			container_t nodes( first, last ); // copying may fail, moving does not
+			return children.insert( pos, std::make_move_iterator( nodes.begin() ), std::make_move_iterator( nodes.end() ) );
+		}
 
-		iterator insert( iterator pos, const_iterator first, const_iterator last )
-		{ return children.insert( pos, first, last ); }
+		iterator insert( iterator pos, const_iterator first, const_iterator last ) {
+			container_t nodes( first, last );
+			return children.insert( pos, std::make_move_iterator( nodes.begin() ), std::make_move_iterator( nodes.end() ) );
+		}
 
 		/// reserve children
 		void reserve( size_t n ) { children.reserve( n ); }
-- 
2.43.0


From 59c8fb6435dcd7181d8ccf656dc68e631b19d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:52 +0000
Subject: [PATCH 49/51] fix: copying a file onto itself no longer destroys it

---
 flut/filesystem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 1d74bf7..8615c53 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -68,6 +68,12 @@ namespace flut
 #else
 		if ( overwrite || !exists( to ) )
 		{
+			// opening the destination would destroy the source if they are the same file
+			struct stat from_info, to_info;
+			if ( stat( from.c_str(), &from_info ) == 0 && stat( to.c_str(), &to_info ) == 0 &&
+				from_info.st_dev == to_info.st_dev && from_info.st_ino == to_info.st_ino )
+				return false;
+
 			// only touch the destination if the source can be read
 			std::ifstream src( from.str(), std::ios::binary );
 			src.peek();
-- 
2.43.0


From 6027f4665a3f2db9e8c953d9aa2d73c564ee2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:56 +0000
Subject: [PATCH 50/51] fix: create_directories tells the truth about a path
 that ends in a separator

---
 flut/filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 8615c53..3531e23 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -127,6 +127,10 @@ namespace flut
 
 	FLUT_API bool create_directories( const path& folder )
 	{
+		// a separator at the end does not name another folder
+		if ( folder.has_parent_path() && !folder.has_filename() )
+			return create_directories( folder.parent_path() );
+
 		// make sure parent folders exist
 		if ( folder.has_parent_path() && !folder_exists( folder.parent_path() ) )
 			create_directories( folder.parent_path() );
-- 
2.43.0


From 83795f95d7ae5119ed9ef605adf30d5fcdcc717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:01 +0000
Subject: [PATCH 51/51] fix: profiler tells sections apart by name, not by the
 address of the name

FLUT_PROFILE_FUNCTION in functions of the same name, or a scope name used in
two source files, gave two sections of one name under one parent, of which the
report showed only one.
---
 flut/system/profiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index 60b3764..b94d6b6 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -1,5 +1,6 @@
 ﻿#include "profiler.hpp"
 #include <algorithm>
+#include <cstring>
 #include <thread>
 
 namespace flut
@@ -50,7 +51,7 @@ namespace flut
 
 	flut::profiler::section* profiler::find_section( const char* name, size_t parent_id )
 	{
-		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return s.name == name && s.parent_id == parent_id; } );
+		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return s.parent_id == parent_id && strcmp( s.name, name ) == 0; } );
 		return it != sections_.end() ? &( *it ) : nullptr;
 	}
 
-- 
2.43.0

