From 8fa11ca939a311cd952ac8cbfb666fb03d1f4725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:41 +0000
Subject: [PATCH 01/90] fix: container_tools.hpp does not compile with GCC or
 clang

---
 flut/container_tools.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 80e7f4b..b998a0e 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -2,7 +2,10 @@
 
 #include "flut/system/types.hpp"
 #include "system/assert.hpp"
+#include <algorithm>
+#include <iterator>
 #include <numeric>
+#include <ostream>
 
 namespace flut
 {
@@ -31,7 +34,7 @@ namespace flut
 	{ return std::max_element( std::cbegin( cont ), std::cend( cont ) ); }
 
 	template< typename I > typename I::value_type average( I b, I e )
-	{ return std::accumulate( b, e, I::value_type( 0 ) ) / typename I::value_type( e - b ); }
+	{ return std::accumulate( b, e, typename I::value_type( 0 ) ) / typename I::value_type( e - b ); }
 
 	template< typename C > typename C::value_type average( const C& cont )
 	{ return average( std::begin( cont ), std::end( cont ) ); }
@@ -66,7 +69,7 @@ namespace flut
 	}
 
 	template< typename T > index_t back_index( const vector< T >& vec )
-	{ flut_assert( vec.size() > 0 ) return vec.size() - 1; }
+	{ flut_assert( vec.size() > 0 ); return vec.size() - 1; }
 
 	template< typename It, typename Pr > struct view_if {
 		view_if( It first, It last, Pr pred ) : first_( first ), last_( last ), pred_( pred ) {}
@@ -77,8 +80,8 @@ namespace flut
 			iterator operator++( int ) { auto keepit = *this; ++pos_; next_match(); return keepit; }
 			bool operator==( const iterator& other ) { return pos_ == other.pos_; }
 			bool operator!=( const iterator& other ) { return pos_ != other.pos_; }
-			typename const It::value_type& operator*() const { return *pos_; }
-			typename const It::value_type* operator->() const { return &(*pos_); }
+			const typename It::value_type& operator*() const { return *pos_; }
+			const typename It::value_type* operator->() const { return &(*pos_); }
 			const view_if& cv_;
 			It pos_;
 		};
-- 
2.43.0


From 1875e4ca9ea48c27f7dc0a2e9e1db738fd011e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:41 +0000
Subject: [PATCH 02/90] fix: pattern_match uses an undeclared variable outside
 MSVC

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 5c6e002..581193b 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -89,7 +89,7 @@ namespace flut
 		flut_assert_msg( str.find_first_of( ";" ) == string::npos, "pattern_match patterns cannot contain ';' on MSVC" );
 		return PathMatchSpecEx( str.c_str(), pattern.c_str(), PMSF_NORMAL ) == S_OK;
 #else
-		return fnmatch( p.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
+		return fnmatch( pattern.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
 #endif
 	}
 
-- 
2.43.0


From 407515670a0d27627363b99624b28c368df163e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:41 +0000
Subject: [PATCH 03/90] fix: filesystem.cpp does not compile on POSIX systems

---
 flut/filesystem.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 2885960..577ac42 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -7,9 +7,14 @@
 #ifdef FLUT_COMP_MSVC
 #	include <conio.h>
 #	include <shlobj.h>
+#	include <direct.h>
 #	pragma warning( disable: 4996 )
+#else
+#	include <cstdlib>
+#	include <sys/stat.h>
+#	include <sys/types.h>
+#	include <unistd.h>
 #endif
-#include <direct.h>
 
 namespace flut
 {
@@ -33,7 +38,7 @@ namespace flut
 		return get_known_windows_folder( FOLDERID_LocalAppData );
 #else
 		string homeDir = std::getenv( "HOME" );
-		return homeDir + "/.config";
+		return path( homeDir + "/.config" );
 #endif
 	}
 
@@ -82,7 +87,7 @@ namespace flut
 		return GetFileAttributes( path( p ).make_preferred().c_str() ) != INVALID_FILE_ATTRIBUTES;
 #else
 		struct stat info;
-		return stat( path, &info ) == 0;
+		return stat( p.c_str(), &info ) == 0;
 #endif
 	}
 
-- 
2.43.0


From 1240b36225145a564c135cace2c8f4c8d1aa754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:46 +0000
Subject: [PATCH 04/90] fix: parse_prop binds a temporary to a non-const
 reference (MSVC only)

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9145764..c3dd707 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -151,7 +151,8 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		return parse_prop( char_stream( str, "\n\r\t\v;" ), ec );
+		char_stream stream( str, "\n\r\t\v;" );
+		return parse_prop( stream, ec );
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From 28ab149ee6dc2e5fb95dab46df51300adc7dc45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:46 +0000
Subject: [PATCH 05/90] fix: IS_PROP_NODE_CONSTRUCTABLE is rejected by GCC and
 clang

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 8a26477..56308d7 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -255,7 +255,7 @@ namespace flut
 }
 
 #define IS_PROP_NODE_CONSTRUCTABLE( _class_name_ ) \
-template<> struct ::flut::is_prop_node_constructable< _class_name_ > { static const bool value = true; };
+template<> struct flut::is_prop_node_constructable< _class_name_ > { static const bool value = true; };
 
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
-- 
2.43.0


From a1a436aad73308a2afbc7d0da634a25f1af976e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:46 +0000
Subject: [PATCH 06/90] fix: pattern_matcher::find_match calls an undefined
 function and returns nothing

---
 flut/pattern_matcher.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/pattern_matcher.hpp b/flut/pattern_matcher.hpp
index 44b892c..d4e9c86 100644
--- a/flut/pattern_matcher.hpp
+++ b/flut/pattern_matcher.hpp
@@ -24,7 +24,8 @@ namespace flut
 		template< typename T > bool operator()( const T* str ) const { return operator()( static_cast< const string& >( *str ) ); }
 
 		template< typename It > It find_match( It begin, It end ) const {
-			while ( begin != end && !match( static_cast< const string& >( *begin ) ) ) ++begin;
+			while ( begin != end && !( *this )( static_cast< const string& >( *begin ) ) ) ++begin;
+			return begin;
 		}
 
 		vector< string > patterns;
-- 
2.43.0


From dd794386de0a1559d1ad88670cf54ba8c859182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:46 +0000
Subject: [PATCH 07/90] fix: headers that use flut types without including them

---
 flut/buffer/data_algorithms.hpp | 1 +
 flut/factory.hpp                | 2 ++
 flut/math/bounding_box.hpp      | 1 +
 flut/math/bounds.hpp            | 1 +
 flut/math/delayer.hpp           | 1 +
 flut/math/optional.hpp          | 1 +
 6 files changed, 7 insertions(+)

diff --git a/flut/buffer/data_algorithms.hpp b/flut/buffer/data_algorithms.hpp
index e4fa6b4..e5e91f3 100644
--- a/flut/buffer/data_algorithms.hpp
+++ b/flut/buffer/data_algorithms.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "flut/storage.hpp"
 #include "flut/table.hpp"
 #include <vector>
 
diff --git a/flut/factory.hpp b/flut/factory.hpp
index 86510f0..fa53d77 100644
--- a/flut/factory.hpp
+++ b/flut/factory.hpp
@@ -5,6 +5,8 @@
 #include "system/assert.hpp"
 #include "system/platform.hpp"
 #include "flat_map.hpp"
+#include "string_tools.hpp"
+#include "system_tools.hpp"
 
 // need for demangling with GCC
 #ifndef FLUT_COMP_MSVC
diff --git a/flut/math/bounding_box.hpp b/flut/math/bounding_box.hpp
index 677c4c8..4ed933d 100644
--- a/flut/math/bounding_box.hpp
+++ b/flut/math/bounding_box.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "flut/math/math.hpp"
+#include "flut/math/vec3_type.hpp"
 
 namespace flut
 {
diff --git a/flut/math/bounds.hpp b/flut/math/bounds.hpp
index 6845b96..c3c2525 100644
--- a/flut/math/bounds.hpp
+++ b/flut/math/bounds.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "math.hpp"
+#include "flut/prop_node.hpp"
 
 namespace flut
 {
diff --git a/flut/math/delayer.hpp b/flut/math/delayer.hpp
index 6af8783..a55530c 100644
--- a/flut/math/delayer.hpp
+++ b/flut/math/delayer.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <array>
+#include "flut/system/types.hpp"
 
 namespace flut
 {
diff --git a/flut/math/optional.hpp b/flut/math/optional.hpp
index 98b533c..04d7836 100644
--- a/flut/math/optional.hpp
+++ b/flut/math/optional.hpp
@@ -3,6 +3,7 @@
 #include <limits>
 #include <type_traits>
 #include "flut/char_stream.hpp"
+#include "flut/math/math.hpp"
 
 namespace flut
 {
-- 
2.43.0


From 0666268889655068c823dcef7274a05fb841dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:46 +0000
Subject: [PATCH 08/90] fix: irange.hpp needs an MSVC-only header and
 increments an undeclared variable

---
 flut/math/irange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 4e62555..6d4ce68 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -1,6 +1,6 @@
 #pragma once
 
-#include <xutility>
+#include <iterator>
 
 namespace flut
 {
@@ -18,7 +18,7 @@ namespace flut
 			T value_;
 			T operator-( const iterator& other ) { return value_ - other.value_; }
 			T operator++() { return ++value_; }
-			T operator++( int ) { return value++; }
+			T operator++( int ) { return value_++; }
 			bool operator==( const iterator& other ) { return other.value_ == value_; }
 			bool operator!=( const iterator& other ) { return other.value_ != value_; }
 			T operator*() { return value_; }
-- 
2.43.0


From 713c1c54bc0b23e7044073e96b921e559849121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:46 +0000
Subject: [PATCH 09/90] fix: linear_regression.hpp needs an MSVC-only header

---
 flut/math/linear_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/linear_regression.hpp b/flut/math/linear_regression.hpp
index c2df43d..2b27d96 100644
--- a/flut/math/linear_regression.hpp
+++ b/flut/math/linear_regression.hpp
@@ -3,7 +3,7 @@
 #include <numeric>
 #include "math.hpp"
 #include "polynomial.hpp"
-#include <xtr1common>
+#include "flut/container_tools.hpp"
 
 namespace flut
 {
-- 
2.43.0


From 6c8b64c102d137cd77fea52084272d3626fd4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 10/90] fix: quoting corrupts bytes above 127 where char is
 signed

---
 flut/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 581193b..4b6b9f3 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -105,7 +105,7 @@ namespace flut
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( static_cast< unsigned char >( c ) < 32 )
 		{
 			switch ( c )
 			{
@@ -157,7 +157,7 @@ namespace flut
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || static_cast< unsigned char >( c ) < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -168,7 +168,7 @@ namespace flut
 	FLUT_API bool needs_quotes( const string& s )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || c == '\\' )
+			if ( static_cast< unsigned char >( c ) < 33 || c == '\"' || c == '\\' )
 				return true;
 		return false;
 	}
-- 
2.43.0


From e8337bbe48d72c072a6ceba482e37003d1fcf37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 11/90] fix: decode_char reports zero length for a trailing
 backslash, get_token then never ends

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 4b6b9f3..54ac7d1 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -121,7 +121,7 @@ namespace flut
 	FLUT_API char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		flut_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
-- 
2.43.0


From ffd6249dbcf2fed74f740c761be0d8d2e0973c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 12/90] fix: try_unquoted reads past the end of a lone or
 escaped closing quote

---
 flut/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 54ac7d1..660d200 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -182,11 +182,11 @@ namespace flut
 
 	FLUT_API string try_unquoted( const string& s )
 	{
-		if ( s.empty() || s.front() != '\"' || s.back() != '\"' )
+		if ( s.size() < 2 || s.front() != '\"' || s.back() != '\"' )
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it != s.end() && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
-- 
2.43.0


From 8ef3aab3ab4bd574f93af5c11983a1719a86dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 13/90] fix: get_token drops text before a quoted part and
 empty quoted tokens before an operator

---
 flut/char_stream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index c934ab5..cf44270 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -40,6 +40,7 @@ namespace flut
 	flut::string char_stream::get_token( const char* operators, const char* quotations )
 	{
 		string s;
+		bool has_quotes = false;
 		cur_pos_end = const_cast< char* >( cur_pos );
 		while ( good() )
 		{
@@ -53,6 +54,8 @@ namespace flut
 			else if ( strchr( quotations, *cur_pos_end ) )
 			{
 				// this is a part between quotes and must be decoded
+				s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
+				has_quotes = true;
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
 				while ( good() )
@@ -76,7 +79,7 @@ namespace flut
 			else if ( strchr( operators, *cur_pos_end ) )
 			{
 				// operator
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && s.empty() && !has_quotes )
 					s = *cur_pos_end++; // token is an operator
 				else s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
 				cur_pos = cur_pos_end;
-- 
2.43.0


From 20ceebab0248db118ab1b736e47ff4c5af9c508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 14/90] fix: copies of a char_stream that owns its text refer
 to the original's memory

---
 flut/char_stream.cpp | 25 +++++++++++++++++++++++++
 flut/char_stream.hpp |  4 ++++
 2 files changed, 29 insertions(+)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index cf44270..8c2b521 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -20,6 +20,17 @@ namespace flut
 	char_stream( load_string( filename ), delim )
 	{}
 
+	char_stream::char_stream( const char_stream& other )
+	{
+		rebase( other );
+	}
+
+	char_stream& char_stream::operator=( const char_stream& other )
+	{
+		if ( this != &other ) rebase( other );
+		return *this;
+	}
+
 	flut::char_stream& char_stream::operator>>( string& s )
 	{
 		for ( cur_pos_end = const_cast<char*>( cur_pos ); *cur_pos_end && !isspace( *cur_pos_end ); ++cur_pos_end );
@@ -101,6 +112,20 @@ namespace flut
 		skip_delimiters();
 	}
 
+	void char_stream::rebase( const char_stream& other )
+	{
+		// a stream that owns its text must refer to its own copy
+		const bool owns_buffer = other.buffer == other.str_buffer.c_str();
+		radix = other.radix;
+		str_buffer = other.str_buffer;
+		buffer = owns_buffer ? str_buffer.c_str() : other.buffer;
+		cur_pos = buffer + ( other.cur_pos - other.buffer );
+		cur_pos_end = nullptr;
+		buffer_end = buffer + ( other.buffer_end - other.buffer );
+		delimiters_ = other.delimiters_;
+		buffer_flags = other.buffer_flags;
+	}
+
 	flut::char_stream load_char_stream( const path& filename, const char* delimiters, error_code* ec )
 	{
 		return char_stream( load_string( filename, ec ), delimiters );
diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index 3b14a25..1a8c1f1 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -29,6 +29,9 @@ namespace flut
 		/// construct char_stream with contents read from file
 		char_stream( const path& filename, const char* delim = default_delimiters() );
 
+		char_stream( const char_stream& other );
+		char_stream& operator=( const char_stream& other );
+
 		~char_stream() {}
 
 		char_stream& operator>>( float& v ) { v = strtof( cur_pos, &cur_pos_end ); process_end_pos(); return *this; }
@@ -55,6 +58,7 @@ namespace flut
 
 	private:
 		void init_buffer( const char* b, size_t len );
+		void rebase( const char_stream& other );
 
 		void skip_delimiters() { while ( !test_eof() && strchr( delimiters_, *cur_pos ) ) ++cur_pos; }
 		void skip_delimiters( const char* delim ) { while ( !test_eof() && strchr( delim, *cur_pos ) ) ++cur_pos; }
-- 
2.43.0


From f4adf8dfd5b35ed74a2ad03f9c4f0467be568b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 15/90] fix: str_ends_with fails if the text also occurs
 earlier in the string

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 23052ea..4d9d3ff 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -32,7 +32,7 @@ namespace flut
 
 	/// check if a string ends with a string
 	inline bool str_ends_with( const string& str, const string& substr )
-	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.find( substr ) == s1 - s2 ); }
+	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && str.compare( s1 - s2, s2, substr ) == 0; }
 
 	/// remove leading and trailing spaces and newlines
 	FLUT_API string trim_str( const string& str, const char* trim_chars = " \t\r\n\f\v" );
-- 
2.43.0


From f0eb6ac98df62afa28840cee7aae1d8883768914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 16/90] fix: scan_str does not count the last value in the
 string

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 4d9d3ff..ee28616 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -52,7 +52,7 @@ namespace flut
 
 	inline int scan_str_impl( char_stream& str ) { return 0; }
 	template< typename T, typename... Args > int scan_str_impl( char_stream& str, T& v, Args&... args )
-	{ str >> v; return str.good() ? scan_str_impl( str, args... ) + 1 : 0; }
+	{ str >> v; return str.fail() ? 0 : scan_str_impl( str, args... ) + 1; }
 
 	/// read variables from string
 	template< typename... Args > int scan_str( const string& s, Args&... args )
-- 
2.43.0


From 63bb62a6a89b782c38097d6e42294f399aa74fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 17/90] fix: get_filename_folder returns the filename if there
 is no folder

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 660d200..2303b20 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -221,7 +221,7 @@ namespace flut
 	{
 		size_t n = str.find_last_of( "/\\" );
 		if ( n != string::npos ) return str.substr( 0, n + 1 );
-		else return str;
+		else return string(); // no folder
 	}
 
 	FLUT_API string get_filename_without_folder( const string& str )
-- 
2.43.0


From ccc5cfa7a764a80686d40c1e77c6663137788d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 18/90] fix: stringf truncates results longer than 255
 characters

---
 flut/string_tools.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 2303b20..6cccce3 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -72,12 +72,20 @@ namespace flut
 #	pragma warning( push )
 #	pragma warning( disable: 4996 )
 #endif
-		va_list args;
+		va_list args, args_copy;
 		va_start( args, format );
+		va_copy( args_copy, args );
 		char buf[256];
-		vsnprintf( buf, sizeof( buf ), format, args );
+		auto len = vsnprintf( buf, sizeof( buf ), format, args );
+		string str( buf );
+		if ( len >= int( sizeof( buf ) ) ) {
+			str.resize( len + 1 ); // result does not fit in buf
+			vsnprintf( &str[ 0 ], str.size(), format, args_copy );
+			str.resize( len );
+		}
+		va_end( args_copy );
 		va_end( args );
-		return string( buf );
+		return str;
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
 #endif
-- 
2.43.0


From 8dddcb862648486456c9779de7e03c2a13fc29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 19/90] fix: formatted log messages longer than 1023 characters
 are truncated

---
 flut/system/log.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flut/system/log.cpp b/flut/system/log.cpp
index 3e54fec..bcfeaee 100644
--- a/flut/system/log.cpp
+++ b/flut/system/log.cpp
@@ -21,9 +21,18 @@ namespace flut
 		{
 			if ( test_log_level( l ) )
 			{
+				va_list list_copy;
+				va_copy( list_copy, list );
 				char buf[ 1024 ];
-				vsnprintf( buf, sizeof( buf ), format, list );
-				log_string( l, string( buf ) ); // TODO: use string_view
+				auto len = vsnprintf( buf, sizeof( buf ), format, list );
+				string str( buf );
+				if ( len >= int( sizeof( buf ) ) ) {
+					str.resize( len + 1 ); // message does not fit in buf
+					vsnprintf( &str[ 0 ], str.size(), format, list_copy );
+					str.resize( len );
+				}
+				va_end( list_copy );
+				log_string( l, str ); // TODO: use string_view
 			}
 		}
 
-- 
2.43.0


From fae8cdbb1d767d4b0022deda9a5698d50cca0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 20/90] fix: path takes a dot in a folder name for the start of
 the extension

---
 flut/system/path.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index d2004c7..123853e 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -12,7 +12,8 @@ namespace flut
 	path& path::replace_extension( const path& ext )
 	{
 		size_t n = data_.find_last_of( '.' );
-		if ( n != string::npos ) data_.erase( n ); // remove existing extension
+		size_t sep = last_separator_pos();
+		if ( n != string::npos && ( sep == string::npos || n > sep ) ) data_.erase( n ); // remove existing extension
 
 		if ( !ext.empty() )
 			data_ += '.' + ext.data_;
@@ -50,7 +51,8 @@ namespace flut
 	path path::extension() const
 	{
 		size_t n = data_.find_last_of( '.' );
-		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
+		size_t sep = last_separator_pos();
+		return n != string::npos && ( sep == string::npos || n > sep ) ? path( data_.substr( n + 1 ) ) : path();
 	}
 
 	path path::filename() const
-- 
2.43.0


From 780e1e8318e60aa2a2a94bf597a2010ea8535856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:17 +0000
Subject: [PATCH 21/90] fix: path::filename is empty if the path has no folder

---
 flut/system/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index 123853e..edde354 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -58,7 +58,7 @@ namespace flut
 	path path::filename() const
 	{
 		size_t n = last_separator_pos();
-		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
+		return n != string::npos ? path( data_.substr( n + 1 ) ) : *this;
 	}
 
 	path path::stem() const
-- 
2.43.0


From 2b59cb8d129f76cf9f819cd38e053d11aaf97ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:25 +0000
Subject: [PATCH 22/90] fix: save_prop does not quote characters that have a
 meaning in prop files

---
 flut/prop_node_tools.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index c3dd707..f7cf146 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -212,15 +212,23 @@ namespace flut
 		}
 	}
 
+	string prop_quoted( const string& s )
+	{
+		// characters with a special meaning in prop files must be quoted
+		if ( s.empty() || needs_quotes( s ) || s.find_first_of( "={}%;'" ) != string::npos )
+			return quoted( s );
+		else return s;
+	}
+
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
 		string newline = readable ? "\n" : " ";
 		string assign = readable ? " = " : "=";
 
-		str << indent << try_quoted( label );
+		str << indent << prop_quoted( label );
 		if ( pn.has_value() || pn.empty() )
-			str << assign << ( pn.empty() ? "\"\"" : try_quoted( pn.get_value() ) );
+			str << assign << prop_quoted( pn.get_value() );
 		str << newline;
 		if ( pn.size() > 0 )
 		{
-- 
2.43.0


From fd635573eb97cd0e9a16e9a82ad90ba4b8a03440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 23/90] fix: compact prop files use a separator that the reader
 does not recognise

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index f7cf146..65e83d7 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -223,7 +223,7 @@ namespace flut
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
-		string newline = readable ? "\n" : " ";
+		string newline = readable ? "\n" : ";";
 		string assign = readable ? " = " : "=";
 
 		str << indent << prop_quoted( label );
-- 
2.43.0


From f74971323ca23d433c6a177b39dfe66ec0a66a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 24/90] fix: comments and blank space change the meaning of
 prop files

---
 flut/prop_node_tools.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 65e83d7..eff02f4 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -1,4 +1,5 @@
 #include "prop_node_tools.hpp"
+#include <cstring>
 #include <fstream>
 #include "system/path.hpp"
 #include "string_tools.hpp"
@@ -102,21 +103,24 @@ namespace flut
 		return ( s.size() > 0 && isalpha( s[ 0 ] ) );
 	}
 
-	string get_prop_token( char_stream& str )
+	void skip_prop_space( char_stream& str )
 	{
-		while ( true )
+		while ( str.good() )
 		{
-			string t = str.get_token( "={}%", "\"'" );
-			if ( t == "%" )
-			{
-				// comment: skip rest of line
-				str.get_line();
-				continue;
-			}
-			else return trim_str( t );
+			if ( str.peekc() == '%' )
+				str.get_line(); // comment: skip rest of line
+			else if ( strchr( " \t\r\n\f\v;", str.peekc() ) )
+				str.getc();
+			else break;
 		}
 	}
 
+	string get_prop_token( char_stream& str )
+	{
+		skip_prop_space( str );
+		return trim_str( str.get_token( "={}%", "\"'" ) );
+	}
+
 	void read_prop_node( char_stream& str, prop_node& parent )
 	{
 		string t = get_prop_token( str );
-- 
2.43.0


From b2396378dff3b8100de733ab89b39e5cdf870e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 25/90] fix: prop nodes with both a value and children cannot
 be loaded

---
 flut/prop_node_tools.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index eff02f4..002f8b3 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -127,8 +127,12 @@ namespace flut
 		if ( t == "=" )
 		{
 			parent.set_value( get_prop_token( str ) );
+			skip_prop_space( str );
+			if ( str.good() && str.peekc() == '{' )
+				t = get_prop_token( str ); // node has both a value and children
 		}
-		else if ( t == "{" )
+
+		if ( t == "{" )
 		{
 			while ( str.good() && t != "}" )
 			{
-- 
2.43.0


From e18ce2788a78b22bf417a5d433e82fd8061b1ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 26/90] fix: parse_prop and load_prop throw instead of setting
 the error code

---
 flut/prop_node_tools.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 002f8b3..38295ff 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -159,8 +159,17 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		char_stream stream( str, "\n\r\t\v;" );
-		return parse_prop( stream, ec );
+		try
+		{
+			char_stream stream( str, "\n\r\t\v;" );
+			return parse_prop( stream, ec );
+		}
+		catch ( std::exception& e )
+		{
+			if ( try_set_error( ec, e.what() ) )
+				return prop_node();
+			else throw;
+		}
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From d695c0a3b98d01575cc84c494b77a4cb9f631796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 27/90] fix: load_ini skips the line after a comment

---
 flut/prop_node_tools.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 38295ff..375c119 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -194,10 +194,7 @@ namespace flut
 				continue;
 
 			if ( line[0] == '#' ) // comment
-			{
-				str.get_line();
 				continue;
-			}
 
 			if ( line.size() > 2 && line[ 0 ] == '[' && line[ line.size() -1 ] == ']' )
 			{
-- 
2.43.0


From b899a83cdf650e019d8c1daf05cd2ab7238fd6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 28/90] fix: assigning a prop_node one of its own descendants
 reads freed memory

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 56308d7..02fe93e 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -47,7 +47,7 @@ namespace flut
 		~prop_node() {}
 
 		/// assignment operators
-		prop_node& operator=( const prop_node& other ) { value = other.value; children = other.children; return *this; }
+		prop_node& operator=( const prop_node& other ) { value = other.value; container_t c( other.children ); children.swap( c ); return *this; }
 		prop_node& operator=( prop_node&& other ) { value = std::move( other.value ); children = std::move( other.children ); return *this; }
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
-- 
2.43.0


From 71eacff4212c98b02614bbf0c502e7b2bfffd5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 29/90] fix: constant prop_nodes cannot be compared

---
 flut/prop_node.cpp | 2 +-
 flut/prop_node.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/prop_node.cpp b/flut/prop_node.cpp
index 3f0e689..4c5a84e 100644
--- a/flut/prop_node.cpp
+++ b/flut/prop_node.cpp
@@ -51,7 +51,7 @@ namespace flut
 		return str;
 	}
 
-	bool prop_node::operator==( const prop_node& other )
+	bool prop_node::operator==( const prop_node& other ) const
 	{
 		if ( value != other.value )
 			return false;
diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 02fe93e..73d1c66 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -52,8 +52,8 @@ namespace flut
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
 		/// equality operators
-		bool operator==( const prop_node& other );
-		bool operator!=( const prop_node& other ) { return !( *this == other ); }
+		bool operator==( const prop_node& other ) const;
+		bool operator!=( const prop_node& other ) const { return !( *this == other ); }
 
 		/// get the value of this node
 		template< typename T > T get() const { access(); return prop_node_cast< T >::from( *this ); }
-- 
2.43.0


From d6cc7a448c091ceb36326b854cd360895da1c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 30/90] fix: sorted_vector::find returns an element instead of
 an iterator

---
 flut/sorted_vector.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flut/sorted_vector.hpp b/flut/sorted_vector.hpp
index 5f2b691..3e7b1e3 100644
--- a/flut/sorted_vector.hpp
+++ b/flut/sorted_vector.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <algorithm>
+#include <vector>
+
 namespace flut
 {
 	template< typename T >
@@ -27,12 +30,12 @@ namespace flut
 
 		iterator find( const T& e ) {
 			auto it = std::lower_bound( begin(), end(), e );
-			return ( it != end() && *it == e ) ? *it : end();
+			return ( it != end() && *it == e ) ? it : end();
 		}
 
 		const_iterator find( const T& e ) const {
 			auto it = std::lower_bound( cbegin(), cend(), e );
-			return ( it != cend() && *it == e ) ? *it : cend();
+			return ( it != cend() && *it == e ) ? it : cend();
 		}
 	};
 }
-- 
2.43.0


From 23666721c7c6c3e03d6c895b0fff81ea55e02158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 31/90] fix: container headers that use flut and standard names
 without including them

---
 flut/dictionary.hpp | 3 +++
 flut/dynarray.hpp   | 1 +
 flut/flat_map.hpp   | 2 ++
 flut/memoize.hpp    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/flut/dictionary.hpp b/flut/dictionary.hpp
index 2899a28..6c3392d 100644
--- a/flut/dictionary.hpp
+++ b/flut/dictionary.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <algorithm>
+#include "string_tools.hpp"
+#include "system/assert.hpp"
 #include "system/types.hpp"
 
 namespace flut
diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 2946f37..241091c 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>
+#include "system/assert.hpp"
 #include "system/types.hpp"
 
 namespace flut
diff --git a/flut/flat_map.hpp b/flut/flat_map.hpp
index cc5574d..3aae49c 100644
--- a/flut/flat_map.hpp
+++ b/flut/flat_map.hpp
@@ -2,6 +2,8 @@
 
 #include <algorithm>
 #include <vector>
+#include "string_tools.hpp"
+#include "system/assert.hpp"
 
 namespace flut
 {
diff --git a/flut/memoize.hpp b/flut/memoize.hpp
index c6bfd93..9cd8f6f 100644
--- a/flut/memoize.hpp
+++ b/flut/memoize.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <functional>
+#include <map>
+#include <tuple>
 
 namespace flut
 {
-- 
2.43.0


From db3593a377beb5634fc2d3d3061fc7fcd6a24726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 32/90] fix: circular_deque::push_back writes out of bounds if
 it is full and wrapped around

---
 flut/circular_deque.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 39fcd52..a065488 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -16,8 +16,12 @@ namespace flut
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
-			else back() = value;
+			if ( full() ) {
+				buffer_.insert( buffer_.begin() + ( front_ > 0 ? front_ : size_ ), value );
+				if ( front_ > 0 ) ++front_; // the new element was inserted before the front
+				++size_;
+			}
+			else { ++size_; back() = value; }
 		}
 		void push_front( const T& value ) {
 			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + front_, value );
-- 
2.43.0


From 0cdabe76bf37987e0e47b114e4838e4fbca25607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 33/90] fix: constant circular_deque::back returns the element
 after the last one

---
 flut/circular_deque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index a065488..4213c0b 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -35,7 +35,7 @@ namespace flut
 		void pop_front() { flut_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
-		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ ) % capacity() ]; }
+		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
 
 		T& front() { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
 		const T& front() const { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
-- 
2.43.0


From b77bc8a65e8ebf05429dc724fde04c42862190d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 34/90] fix: circular_deque iterators do not compile, and
 postfix ++ returns a dangling reference

---
 flut/circular_deque.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 4213c0b..7f0ed1c 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cstddef>
+#include <iterator>
+#include <vector>
 #include "flut/dynarray.hpp"
 #include "flut/system/assert.hpp"
 
@@ -54,10 +57,10 @@ namespace flut
 			using value_type = IT;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this;  }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
-			difference_type operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
+			std::ptrdiff_t operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
 			bool operator==( const iterator_impl< IT >& other ) { return other.index_ == index_; }
 			bool operator!=( const iterator_impl< IT >& other ) { return other.index_ != index_; }
 			IT& operator*() { return const_cast< IT& >( buffer_[ index_ % buffer_.size() ] ); }
-- 
2.43.0


From 9af3d404261369cb2508021f670c40077e357d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 35/90] fix: circular_deque::reserve loses the order of
 elements that wrap around

---
 flut/circular_deque.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 7f0ed1c..f766407 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstddef>
 #include <iterator>
 #include <vector>
@@ -49,7 +50,12 @@ namespace flut
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			if ( s <= capacity() ) return;
+			std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() ); // new space must come after the last element
+			front_ = 0;
+			buffer_.resize( s );
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl : public std::iterator< std::forward_iterator_tag, IT >
-- 
2.43.0


From 4b01b94e3c031ccbb02180400f38ab026c401edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 36/90] fix: dynarray move assignment does not compile, and
 moved-from arrays keep their size

---
 flut/dynarray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 241091c..c03b564 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -17,9 +17,9 @@ namespace flut
 		dynarray( size_t n ) : data_( new T[ n ] ), end_( data_.get() + n ) {}
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
+		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
 		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) { data_ = std::move( o.data() ); end_ = o.end_; return *this; }
+		dynarray<T>& operator=( dynarray&& o ) { if ( this != &o ) { data_ = std::move( o.data_ ); end_ = o.end_; o.end_ = nullptr; } return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[ i ]; }
-- 
2.43.0


From c4c9f3fc1bd5e2b89abf9faadad2d53a14b0dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 37/90] fix: assigning a dynarray to itself loses its contents

---
 flut/dynarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index c03b564..ad20ab9 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -18,7 +18,7 @@ namespace flut
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
 		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
+		dynarray<T>& operator=( const dynarray& o ) { dynarray copy( o ); return *this = std::move( copy ); }
 		dynarray<T>& operator=( dynarray&& o ) { if ( this != &o ) { data_ = std::move( o.data_ ); end_ = o.end_; o.end_ = nullptr; } return *this; }
 		~dynarray() {}
 
-- 
2.43.0


From 5a237468500c96ad8fe5527a08dc5cde462393c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 38/90] fix: cloning an empty unique_ptr dereferences a null
 pointer

---
 flut/memory_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/memory_tools.hpp b/flut/memory_tools.hpp
index 2c6a684..08c4540 100644
--- a/flut/memory_tools.hpp
+++ b/flut/memory_tools.hpp
@@ -8,7 +8,7 @@ namespace flut
 	// create a new copy of unique_ptr
 	template< typename T >
 	std::unique_ptr< T > clone( const std::unique_ptr< T >& o )
-	{ return std::unique_ptr< T >( new T( *o ) ); }
+	{ return std::unique_ptr< T >( o ? new T( *o ) : nullptr ); }
 
 	// create a new copy of vector< unique_ptr >
 	template< typename T >
-- 
2.43.0


From e40bfcafd44d01337c90b569063ee05b854acf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 39/90] fix: hash functions are defined more than once if
 hash.hpp is included twice

---
 flut/hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/hash.hpp b/flut/hash.hpp
index d5a624e..e52e0ef 100644
--- a/flut/hash.hpp
+++ b/flut/hash.hpp
@@ -20,14 +20,14 @@ namespace flut
 		return *str ? hash_constexpr( str + 1, ( *str ^ last_value ) * fnv1a_64_prime ) : last_value;
 	}
 
-	hash_t hash( char const* str )
+	inline hash_t hash( char const* str )
 	{
 		hash_t ret = fnv1a_64_basis;
 		while ( *str ) { ret ^= *str; ret *= fnv1a_64_prime; ++str;	}
 		return ret;
 	}
 
-	hash_t hash( const std::string& str ) { return hash( str.c_str() ); }
+	inline hash_t hash( const std::string& str ) { return hash( str.c_str() ); }
 }
 
 constexpr unsigned long long operator""_hash( char const* p, size_t ) { return flut::hash_constexpr( p ); }
-- 
2.43.0


From 0cf97312d4d65ea57e221fe0c8314419e604338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 40/90] fix: clearing a list of flags does not compile

---
 flut/flag_set.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flut/flag_set.hpp b/flut/flag_set.hpp
index dff4fc3..81f8ed6 100644
--- a/flut/flag_set.hpp
+++ b/flut/flag_set.hpp
@@ -26,6 +26,8 @@ namespace flut
 		template< EnumT index > flag_set& set() { data |= storage_bit( index ); return *this; }
 		template< EnumT index > flag_set& clear() { data &= ~storage_bit( index ); return *this; }
 
+		flag_set& clear( EnumT index ) { data &= ~storage_bit( index ); return *this; }
+
 		flag_set& set( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) set( f ); return *this; }
 		flag_set& clear( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) clear( f ); return *this; }
 
-- 
2.43.0


From 1103537dae38ee7916de6aedf5386c26f48a148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 41/90] fix: setting a label registers it for the last channel
 and keeps the old label

---
 flut/buffer/data_header.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 030c3ef..5ca7ffd 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -35,8 +35,9 @@ namespace flut
 
 		index_t set( index_t idx, const L& label ) {
 			flut_assert( idx < size() && find( label ) == no_index );
+			label_indices_.erase( labels_[ idx ] ); // the old label is no longer in use
 			labels_[ idx ] = label;
-			label_indices_[ label ] = labels_.size() - 1;
+			label_indices_[ label ] = idx;
 			return idx;
 		}
 
-- 
2.43.0


From 846d4f4515abe76842f5f1856f6e0b28244b4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 42/90] fix: labels passed to the data_header constructor
 cannot be found

---
 flut/buffer/data_header.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 5ca7ffd..18ad389 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -11,8 +11,8 @@ namespace flut
 	struct data_header
 	{
 		data_header( size_t channels = 0 ) : labels_( channels ) {}
-		data_header( std::initializer_list< L > labels ) : labels_( labels ) {}
-		data_header( const std::vector< L >& labels ) : labels_( labels ) {}
+		data_header( std::initializer_list< L > labels ) { for ( auto& l : labels ) add( l ); }
+		data_header( const std::vector< L >& labels ) { for ( auto& l : labels ) add( l ); }
 		~data_header() {}
 
 		index_t add( const L& label ) {
-- 
2.43.0


From ec28789869a5f02e5427abd8ee943164b14fa63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 43/90] fix: constant access to storage values and labels does
 not compile

---
 flut/storage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 9845f7b..01f27e9 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -78,13 +78,13 @@ namespace flut
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
-		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return *this( frame_size() - 1, channel ); }
+		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
 
 		/// access value of most recent frame by channel name, add channel if not existing
 		T& operator[]( const L& label ) { return (*this)[ find_or_add_channel( label ) ]; }
 
 		/// access value of most recent frame by channel name
-		const T& operator()( const L& label ) const { return *this( find_channel( label ) ); }
+		const T& operator()( const L& label ) const { auto idx = find_channel( label ); flut_assert( idx != no_index ); return (*this)[ idx ]; }
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
@@ -119,7 +119,7 @@ namespace flut
 			}
 		}
 
-		const std::vector< L >& labels() const { return labels_; }
+		const data_header< L >& labels() const { return labels_; }
 		const std::vector< T >& data() const { return data_; }
 
 	private:
-- 
2.43.0


From 43a2f1d539c5f0a71be2271199537297a10e90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 44/90] fix: table resize writes out of bounds, columns ignore
 their default, refused labels leave a channel behind

---
 flut/storage.hpp |  3 ++-
 flut/table.hpp   | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 01f27e9..533ac65 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -17,10 +17,11 @@ namespace flut
 		~storage() {}
 
 		/// add a channel and resize buffer if needed
-		index_t add_channel( L label, const T& value = T() ) { resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label, const T& value = T() ) { flut_assert( find_channel( label ) == no_index ); resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
 
 		/// add a channel with data, resize buffer if needed
 		index_t add_channel( L label, const vector< T >& data ) {
+			flut_assert( find_channel( label ) == no_index );
 			resize( std::max( frame_size(), data.size() ), channel_size() + 1 );
 			labels_.set( channel_size() - 1, label );
 			auto cidx = channel_size() - 1;
diff --git a/flut/table.hpp b/flut/table.hpp
index a56292f..6c57a68 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -22,7 +22,8 @@ namespace flut
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
-			resize( row_size(), column_size() + 1 );
+			flut_assert( col_labels_.find( label ) == no_index );
+			resize( row_size(), column_size() + 1, default_value );
 			return col_labels_.set( column_size() - 1, label );
 		}
 
@@ -36,14 +37,14 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols ) {
+		void resize( size_t rows, size_t cols, const T& default_value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data_.resize( row_size() * cols );
+			data_.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
-					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : T();
+					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : default_value;
 			col_labels_.resize( cols );
 			row_labels_.resize( rows );
 		}
@@ -57,7 +58,7 @@ namespace flut
 		const T& operator()( index_t row, index_t col ) const { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 		T& operator()( index_t row, index_t col ) { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 
-		const T& operator()( const L& row, const L& col ) const { return (*this)( row_index( row ), col_index( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return (*this)( row_labels_.find( row ), col_labels_.find( col ) ); }
 		T& operator()( const L& row, const L& col ) { return (*this)( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 	private:
-- 
2.43.0


From 8289e34089d449051b8c4c47735b3d115315b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 45/90] fix: adding a channel changes the length of a
 circular_frame_buffer

---
 flut/buffer/circular_frame_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index d4cf960..7571d58 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -13,7 +13,7 @@ namespace flut
 		~circular_frame_buffer() {}
 
 		/// add a channel
-		index_t add_channel( L label ) { resize_buffer( frame_size(), channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label ) { flut_assert( find_channel( label ) == no_index ); resize_buffer( frame_buf_size_, channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
 		void set_label( index_t channel, L label ) { labels_.set( channel, label ); }
 		const L& get_label( index_t channel ) const { return labels_[ channel ]; }
 		index_t find_channel( const L& label ) const { return labels_.find( label ); }
-- 
2.43.0


From 296fd578bb1dde25390baa7c0c63b2562e5a9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 46/90] fix: circular_frame_buffer rejects valid frames until
 full, and constant and interpolated access do not compile

---
 flut/buffer/circular_frame_buffer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 7571d58..0f6e6ba 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -32,15 +32,15 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( index_t frame0, index_t channel, T pos ) {
-			flut_assert( frame0 >= frame_count() - frame_buf_size_ && frame0 < frame_count() && channel < this->channel_count() );
-			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_count() + channel;
-			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_count() + channel;
+			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 + 1 < frame_size() && channel < this->channel_size() );
+			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_size() + channel;
+			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_size() + channel;
 			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];
 		}
 
 		/// access value (no bounds checking)
 		T& operator()( index_t frame, index_t channel ) { return data( frame % frame_buf_size_, channel ); }
-		const T& operator()( index_t frame, index_t channel ) const { data( frame % frame_buf_size_, channel ); }
+		const T& operator()( index_t frame, index_t channel ) const { return data( frame % frame_buf_size_, channel ); }
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { return data( ( frame_size_ - 1 ) % frame_buf_size_, channel ); }
@@ -52,11 +52,11 @@ namespace flut
 
 		/// access value with bounds checking
 		T& at( index_t frame, index_t channel ) {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 		const T& at( index_t frame, index_t channel ) const {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 
-- 
2.43.0


From a8f9a5a0c9805ae8b4ef1e918f1012ff264616d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 47/90] fix: iterating an irange_step never ends if the step
 does not divide the range

---
 flut/math/irange.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 6d4ce68..8cb30fd 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -51,7 +51,12 @@ namespace flut
 		};
 
 		iterator begin() const { return iterator( begin_, step_ ); }
-		iterator end() const { return iterator( end_, step_ ); }
+		// the end is a whole number of steps from the begin
+		iterator end() const { return iterator( begin_ + step_count() * step_, step_ ); }
+		T step_count() const {
+			if ( step_ > T( 0 ) ? end_ <= begin_ : end_ >= begin_ ) return T( 0 );
+			return ( end_ - begin_ ) / step_ + T( ( end_ - begin_ ) % step_ != 0 );
+		}
 
 		T begin_, end_, step_;
 	};
-- 
2.43.0


From c258def65aaf6b1619af169f7ab1a67823c400c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 48/90] fix: catmull_rom.hpp does not compile

---
 flut/math/catmull_rom.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flut/math/catmull_rom.hpp b/flut/math/catmull_rom.hpp
index a1b8ced..a844c75 100644
--- a/flut/math/catmull_rom.hpp
+++ b/flut/math/catmull_rom.hpp
@@ -1,5 +1,10 @@
 #pragma once
 
+#include <algorithm>
+#include <cmath>
+#include "flut/system/assert.hpp"
+#include "flut/system/types.hpp"
+
 namespace flut
 {
 	template< typename P >
@@ -66,8 +71,8 @@ namespace flut
 		times_( times )
 		{
 			flut_assert( points.size() >= 4 && times.size() == ( points.size() - 2 ) );
-			segments_.reserve( points.size() - 4 );
-			for ( size_t i = 0; i <= points.size() - 4 )
+			segments_.reserve( points.size() - 3 );
+			for ( size_t i = 0; i <= points.size() - 4; ++i )
 				segments_.emplace_back( points[ i ], points[ i + 1 ], points[ i + 2 ], points[ i + 3 ] );
 		}
 
-- 
2.43.0


From 0c676aa8a04c95c7ac563afbd3efce1f4c014419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 49/90] fix: catmull_rom evaluates the segment after the one
 that contains t

---
 flut/math/catmull_rom.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/catmull_rom.hpp b/flut/math/catmull_rom.hpp
index a844c75..e0c26de 100644
--- a/flut/math/catmull_rom.hpp
+++ b/flut/math/catmull_rom.hpp
@@ -77,8 +77,8 @@ namespace flut
 		}
 
 		P operator()( T t ) {
-			auto it = std::lower_bound( times_.begin(), times_.end(), t );
-			if ( it == times_.end() ) it = times_.begin();
+			auto it = std::upper_bound( times_.begin(), times_.end(), t );
+			if ( it != times_.begin() ) --it; // segment starts at the last time that is not after t
 			if ( it == times_.end() - 1 ) it = times_.end() - 2;
 			size_t index = it - times_.begin();
 			return segments_[ index ]( ( t - *it ) / ( *( it + 1 ) - *it ) );
-- 
2.43.0


From 3c554d54c76f18639615a1126e8c1638af5cb15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 50/90] fix: vec3_::normalized does not compile

---
 flut/math/vec3_type.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/math/vec3_type.hpp b/flut/math/vec3_type.hpp
index 7234cba..34a2f02 100644
--- a/flut/math/vec3_type.hpp
+++ b/flut/math/vec3_type.hpp
@@ -2,6 +2,7 @@
 
 #include "flut/system/types.hpp"
 #include "flut/prop_node.hpp"
+#include "flut/math/math.hpp"
 
 namespace flut
 {
-- 
2.43.0


From 4c8c9cffe6292ce3991edd3810b105088ba46680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 51/90] fix: vec4 operators ignore the fourth component

---
 flut/math/vec4.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flut/math/vec4.hpp b/flut/math/vec4.hpp
index d606987..a85ed73 100644
--- a/flut/math/vec4.hpp
+++ b/flut/math/vec4.hpp
@@ -16,31 +16,31 @@ namespace flut
 
 		/// Subtraction
 		template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 		/// Subtraction
 		template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 		/// Negation
 		template< typename T > vec4_<T> operator-( vec4_<T> v )
-		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 		/// Scalar division
 		template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 		/// Scalar division
 		template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	}
 }
 
-- 
2.43.0


From f21ace68cc359a5a3f0359af9677d5ffa34a53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 52/90] fix: quat_from_directions is wrong for most opposite
 directions

---
 flut/math/quat.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 4fc115a..ebd5141 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -137,14 +137,17 @@ namespace flut
 			vec3_<T> c = cross_product( s, t );
 			T d = dot_product( s, t );
 
-			if ( equals( d, T(1) ) ) // check if vectors are the same
+			if ( d >= T(1) - constants<T>::relaxed_epsilon() ) // check if vectors are the same
 				return quat_<T>::identity();
 
-			auto clen = length( c );
-			if ( equals( clen, T() ) ) // check if vectors are 180 deg apart
-				return quat_<T>( 0, 1, 0, 0 ); // this doesn't work if source is unit_x
+			if ( d <= constants<T>::relaxed_epsilon() - T(1) ) // check if vectors are 180 deg apart
+			{
+				// rotate around any axis perpendicular to source
+				c = normalized( cross_product( s, std::abs( s.x ) < T(0.5) ? vec3_<T>::unit_x() : vec3_<T>::unit_y() ) );
+				return quat_<T>( 0, c.x, c.y, c.z );
+			}
 
-			c /= clen;
+			c /= length( c );
 			auto a = std::acos( d ) * T(0.5);
 			auto sa = std::sin( a );
 
-- 
2.43.0


From ed9f8d4b498d7703f544b11c48251d1cf2ff3114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 53/90] fix: rotation angle of a quat is not a number if
 rounding makes w larger than one

---
 flut/math/quat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index ebd5141..e4d24c0 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -165,7 +165,7 @@ namespace flut
 			T l = sqrt( q.x * q.x + q.y * q.y + q.z * q.z );
 			if ( l > constants<T>::epsilon() )
 			{
-				T f = T(2) * std::acos( q.w ) / l;
+				T f = T(2) * std::atan2( l, q.w ) / l;
 				return vec3_<T>( f * q.x, f * q.y, f * q.z );
 			}
 			else return vec3_<T>::zero();
@@ -179,7 +179,7 @@ namespace flut
 			if ( l > constants<T>::epsilon() )
 			{
 				T s = T(1) / l;
-				return std::pair< vec3_<T>, radian_<T> >{ vec3f( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
+				return std::pair< vec3_<T>, radian_<T> >{ vec3f( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::atan2( l, q.w ) ) };
 			}
 			else return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>::unit_x(), radian_<T>( T() ) };
 		}
-- 
2.43.0


From bf855a9b563417e6992d1273c9db572cea0a9f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 54/90] fix: axis_angle_from_quat rounds the axis to single
 precision

---
 flut/math/quat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index e4d24c0..ee369c4 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -179,7 +179,7 @@ namespace flut
 			if ( l > constants<T>::epsilon() )
 			{
 				T s = T(1) / l;
-				return std::pair< vec3_<T>, radian_<T> >{ vec3f( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::atan2( l, q.w ) ) };
+				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::atan2( l, q.w ) ) };
 			}
 			else return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>::unit_x(), radian_<T>( T() ) };
 		}
-- 
2.43.0


From 556381f410b57ebe295d7e00fe892ef3db0f0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 55/90] fix: pi is not given to double precision

---
 flut/math/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 8f76dee..8b8d587 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -8,9 +8,9 @@ namespace flut
 	/// constants
 	template< typename T > struct constants
 	{
-		static constexpr T pi() { return T( 3.14159265358979 ); }
-		static T half_pi() { return T( 0.5 ) * T( 3.14159265358979 ); }
-		static T two_pi() { return T( 2 ) * T( 3.14159265358979 ); }
+		static constexpr T pi() { return T( 3.14159265358979323846 ); }
+		static T half_pi() { return T( 0.5 ) * T( 3.14159265358979323846 ); }
+		static T two_pi() { return T( 2 ) * T( 3.14159265358979323846 ); }
 		static T epsilon() { return std::numeric_limits< T >::epsilon(); }
 		static T relaxed_epsilon() { return T( 4 * std::numeric_limits< T >::epsilon() ); }
 		static T one() { return T( 1 ); }
-- 
2.43.0


From 8fcae17d22f09745b8ac263363b5e3bfbc970d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 56/90] fix: bounds::soft_clamp does not compile

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 8b8d587..cb99a6b 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -83,7 +83,7 @@ namespace flut
 		template< typename T > T limit_transfer( T x, T limit ) { return limit - limit * limit / ( x + limit ); }
 
 		/// clamp with smooth boundary transformation
-		template< typename T > T soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
+		template< typename T > T& soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
 			auto r = boundary * ( max - min );
 			if ( v > max - r ) v = max - r + limit_transfer( v - max + r, r );
 			else if ( v < min + r )	v = min + r - limit_transfer( min + r - v, r );
-- 
2.43.0


From f951582172a232d6fd7b4e4f54711de626243622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 57/90] fix: square_wave is constant for negative values

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index cb99a6b..e7fd6f5 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -108,6 +108,6 @@ namespace flut
 		template< typename T > bool is_between( T v, T min, T max ) { return ( v >= min && v <= max ); }
 
 		/// square wave, period = 2, min = -1, max = 1
-		template< typename T > T square_wave( T v ) { return fmod( v, T(2) ) < T(1) ? T(1) : T(-1); }
+		template< typename T > T square_wave( T v ) { return v - T(2) * floor( v / T(2) ) < T(1) ? T(1) : T(-1); }
 	}
 }
-- 
2.43.0


From cd7f7eb10c38665ab0ebd38ef782d64c86051845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 58/90] fix: delayers apply their initial value to the first
 sample only

---
 flut/math/delayer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/math/delayer.hpp b/flut/math/delayer.hpp
index a55530c..fdd222c 100644
--- a/flut/math/delayer.hpp
+++ b/flut/math/delayer.hpp
@@ -8,7 +8,8 @@ namespace flut
 	template< typename T, int N = 2 >
 	struct delayer
 	{
-		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), data_{ init_value }, idx_( 0 ), time_( 0 ) {
+		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), idx_( 0 ), time_( 0 ) {
+			data_.fill( init_value );
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
 		}
 
@@ -38,7 +39,8 @@ namespace flut
 	template< typename T, int N = 2 >
 	struct smooth_delayer
 	{
-		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), data_{ init_value }, idx_( 0 ), time_( 0 ), inter_( 0 ) {
+		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), idx_( 0 ), time_( 0 ), inter_( 0 ) {
+			data_.fill( init_value );
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
 		}
 
-- 
2.43.0


From a3d02b558d484e5ddb4158d8f124d4cba0a019c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 59/90] fix: timer follows changes of the system clock

---
 flut/timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/timer.hpp b/flut/timer.hpp
index 6ffd5f4..eade4cf 100644
--- a/flut/timer.hpp
+++ b/flut/timer.hpp
@@ -32,7 +32,7 @@ namespace flut
 #if defined FLUT_USE_WINDOWS_PERFORMANCE_COUNTER
 		typedef windows_performance_counter_clock timer_t;
 #else
-		typedef std::chrono::high_resolution_clock timer_t;
+		typedef std::chrono::steady_clock timer_t;
 #endif
 		timer() : epoch( timer_t::now() ) {}
 		void reset() { epoch = timer_t::now(); }
-- 
2.43.0


From 9ab80b0e6c329147acf8f6e1322daf93dc3eb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 60/90] fix: profiler may forget its thread during static
 initialization

---
 flut/system/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index eef7885..7bb9552 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -4,8 +4,8 @@
 
 namespace flut
 {
-	profiler profiler::instance_;
 	std::thread::id instance_thread_;
+	profiler profiler::instance_;
 
 	profiler::profiler()
 	{
-- 
2.43.0


From bceb36e0afec3db60f7bf14d5e5e25220f248e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:42 +0000
Subject: [PATCH 61/90] fix: interrupting from another thread is a data race

---
 flut/interruptible.cpp | 9 +++++++++
 flut/interruptible.hpp | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/flut/interruptible.cpp b/flut/interruptible.cpp
index 9036fde..0dcda50 100644
--- a/flut/interruptible.cpp
+++ b/flut/interruptible.cpp
@@ -5,6 +5,15 @@ namespace flut
 	interruptible::interruptible() : interrupt_flag_( false )
 	{}
 
+	interruptible::interruptible( const interruptible& other ) : interrupt_flag_( other.test_interrupt_flag() )
+	{}
+
+	interruptible& interruptible::operator=( const interruptible& other )
+	{
+		interrupt_flag_ = other.test_interrupt_flag();
+		return *this;
+	}
+
 	interruptible::~interruptible()
 	{}
 
diff --git a/flut/interruptible.hpp b/flut/interruptible.hpp
index 8f2c197..82bb17d 100644
--- a/flut/interruptible.hpp
+++ b/flut/interruptible.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "system/platform.hpp"
+#include <atomic>
 
 namespace flut
 {
@@ -8,12 +9,14 @@ namespace flut
 	{
 	public:
 		interruptible();
+		interruptible( const interruptible& other );
+		interruptible& operator=( const interruptible& other );
 		virtual ~interruptible();
 
 		virtual void interrupt() const;
 		bool test_interrupt_flag() const;
 
 	private:
-		mutable bool interrupt_flag_;
+		mutable std::atomic< bool > interrupt_flag_;
 	};
 }
-- 
2.43.0


From 64a43830b068cd24d051b894cb12a5327cd0d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:42 +0000
Subject: [PATCH 62/90] fix: copy_file destroys the destination if the source
 is missing or the same file, and ignores write errors

---
 flut/filesystem.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 577ac42..dee4770 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -67,17 +67,23 @@ namespace flut
 #ifdef FLUT_COMP_MSVC
 		return CopyFile( from.c_str(), to.c_str(), overwrite ) == TRUE;
 #else
-		if ( overwrite || !file_exists( to ) )
+		struct stat from_info, to_info;
+		if ( stat( from.c_str(), &from_info ) != 0 || !S_ISREG( from_info.st_mode ) )
+			return false; // nothing to copy
+		if ( stat( to.c_str(), &to_info ) == 0 )
 		{
-			std::ifstream src( from.str(), std::ios::binary );
-			std::ofstream dst( to.str(), std::ios::binary );
-			if ( src.good() && dst.good() )
-			{
-				dst << src.rdbuf();
-				return true;
-			}
+			if ( !overwrite || ( from_info.st_dev == to_info.st_dev && from_info.st_ino == to_info.st_ino ) )
+				return false; // destination must be kept, or is the source itself
 		}
-		return false;
+
+		std::ifstream src( from.str(), std::ios::binary );
+		if ( !src.good() )
+			return false;
+		std::ofstream dst( to.str(), std::ios::binary );
+		if ( dst.good() && from_info.st_size > 0 )
+			dst << src.rdbuf();
+		dst.close();
+		return dst.good();
 #endif
 	}
 
-- 
2.43.0


From 52f0b581a2b6892e02669b674cf42ede8644c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:42 +0000
Subject: [PATCH 63/90] fix: folders are taken for files on POSIX systems

---
 flut/filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index dee4770..fd51de1 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -100,7 +100,7 @@ namespace flut
 	FLUT_API bool file_exists( const path& file )
 	{
 		std::ifstream ifs( file.str() );
-		return ifs.good();
+		return ifs.good() && !folder_exists( file );
 	}
 
 	FLUT_API bool folder_exists( const path& folder )
@@ -153,7 +153,7 @@ namespace flut
 	{
 		// this method uses a stringbuf, which may be slower but is more stable
 		std::ifstream ifstr( filename.str() );
-		if ( !ifstr.good() )
+		if ( !ifstr.good() || folder_exists( filename ) )
 		{
 			if ( try_set_error( ec, "Could not open " + filename.str() ) )
 				return "";
-- 
2.43.0


From 84df74daee5c7568978b6fcf698ca5f10a07def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:42 +0000
Subject: [PATCH 64/90] fix: version leaves the build number uninitialized and
 loses a postfix without build number

---
 flut/system/version.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/system/version.hpp b/flut/system/version.hpp
index 78409e9..c53f2d2 100644
--- a/flut/system/version.hpp
+++ b/flut/system/version.hpp
@@ -11,11 +11,11 @@ namespace flut
 		version( int maj, int min, int bugfix, int bld = 0, string post = "" ) :
 			major( maj ), minor( min ), patch( bugfix ), build( bld ), postfix( post ) {}
 
-		version( const string& version ) {
+		version( const string& version ) : major( 0 ), minor( 0 ), patch( 0 ), build( 0 ) {
 			std::stringstream str( version );
 			char dummy;
-			str >> major >> dummy >> minor >> dummy >> patch >> dummy;
-			if ( str.good() ) str >> build;
+			str >> major >> dummy >> minor >> dummy >> patch;
+			if ( str.good() && str.peek() == '.' ) str >> dummy >> build;
 			if ( str.good() ) str >> postfix;
 		}
 
-- 
2.43.0


From 600ba8d96dced80cf4773958ad7917f14620b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:33 +0000
Subject: [PATCH 65/90] fix: pattern_matcher.hpp specializes a template with an
 extra qualification

---
 flut/pattern_matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/pattern_matcher.hpp b/flut/pattern_matcher.hpp
index d4e9c86..abaa39a 100644
--- a/flut/pattern_matcher.hpp
+++ b/flut/pattern_matcher.hpp
@@ -30,7 +30,7 @@ namespace flut
 
 		vector< string > patterns;
 	};
-
-	IS_PROP_NODE_CONSTRUCTABLE( pattern_matcher );
 }
 
+IS_PROP_NODE_CONSTRUCTABLE( flut::pattern_matcher );
+
-- 
2.43.0


From 3bb9ca8bb887efdf81ec566db984b7055129b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:33 +0000
Subject: [PATCH 66/90] fix: angle.hpp and buffer_access.hpp use names without
 including them

---
 flut/buffer/buffer_access.hpp | 1 +
 flut/math/angle.hpp           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/flut/buffer/buffer_access.hpp b/flut/buffer/buffer_access.hpp
index ddb562c..9c49e30 100644
--- a/flut/buffer/buffer_access.hpp
+++ b/flut/buffer/buffer_access.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <utility>
 
diff --git a/flut/math/angle.hpp b/flut/math/angle.hpp
index 9b2e2fe..f5508be 100644
--- a/flut/math/angle.hpp
+++ b/flut/math/angle.hpp
@@ -4,6 +4,7 @@
 #include "math.hpp"
 #include "result_type.hpp"
 #include "flut/system/assert.hpp"
+#include "flut/char_stream.hpp"
 
 namespace flut
 {
-- 
2.43.0


From fbdb95374b25ace8f796a493c93dba1212a9aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:13 +0000
Subject: [PATCH 67/90] fix: assigning a prop_node one of its own ancestors
 changes the value of the copy

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 73d1c66..4cba3b7 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -47,7 +47,7 @@ namespace flut
 		~prop_node() {}
 
 		/// assignment operators
-		prop_node& operator=( const prop_node& other ) { value = other.value; container_t c( other.children ); children.swap( c ); return *this; }
+		prop_node& operator=( const prop_node& other ) { container_t c( other.children ); value = other.value; children.swap( c ); return *this; }
 		prop_node& operator=( prop_node&& other ) { value = std::move( other.value ); children = std::move( other.children ); return *this; }
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
-- 
2.43.0


From b2067275ed5a55ec89163aafc1d364befc40855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:01 +0000
Subject: [PATCH 68/90] fix: copy_file reports success for a copy cut short by
 a write error

---
 flut/filesystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index fd51de1..01cc2a2 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -82,8 +82,9 @@ namespace flut
 		std::ofstream dst( to.str(), std::ios::binary );
 		if ( dst.good() && from_info.st_size > 0 )
 			dst << src.rdbuf();
+		bool complete = src.peek() == std::ifstream::traits_type::eof(); // a failed write leaves part of the source unread
 		dst.close();
-		return dst.good();
+		return complete && dst.good();
 #endif
 	}
 
-- 
2.43.0


From eb36ddea4cbb812b7aec35131cbecdcf1b4fc1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:56 +0000
Subject: [PATCH 69/90] fix: save_prop reports success for a file cut short by
 a write error

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 375c119..1f8b207 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -260,7 +260,8 @@ namespace flut
 		{
 			for ( auto& node : pn )
 				write_prop_none( str, node.first, node.second, 0, readable );
-			return true;
+			str.close();
+			return str.good();
 		}
 		else return false;
 	}
-- 
2.43.0


From 7b87725542a4c4cff065cdc758d7dc11b5766ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:39 +0000
Subject: [PATCH 70/90] fix: storage::get_interpolated_value refuses negative
 frame positions

---
 flut/storage.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 533ac65..f64f65d 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -89,6 +89,7 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
+			flut_assert( frame_idx >= T(0) );
 			auto frame_f = floor( frame_idx );
 			auto frame_w = frame_idx - frame_f;
 			index_t frame0 = static_cast<index_t>( frame_f );
-- 
2.43.0


From 85c238ca51b644cffd731b7c925937b44c53ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 71/90] fix: indexed interpolation beyond the last sample
 overflows for very large keys

---
 flut/buffer/interpolation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flut/buffer/interpolation.hpp b/flut/buffer/interpolation.hpp
index 50d4b6a..4084c83 100644
--- a/flut/buffer/interpolation.hpp
+++ b/flut/buffer/interpolation.hpp
@@ -35,6 +35,8 @@ namespace flut
 
 		if ( key < K(0) )
 			return cont.front();
+		else if ( key >= K( cont.size() - 1 ) )
+			return cont.back(); // also for keys too large to be an index
 		else
 		{
 			auto lb = size_t( key );
-- 
2.43.0


From f70f178e9a55c8e686ec4580eb1c3159c8026b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:25 +0000
Subject: [PATCH 72/90] fix: piecewise linear function uses the wrong segment
 far beyond its upper end

---
 flut/math/regular_piecewise_linear_function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/regular_piecewise_linear_function.hpp b/flut/math/regular_piecewise_linear_function.hpp
index a77c487..d814f69 100644
--- a/flut/math/regular_piecewise_linear_function.hpp
+++ b/flut/math/regular_piecewise_linear_function.hpp
@@ -26,8 +26,8 @@ namespace flut
 			{
 				// find lower bound index of x
 				T x_idx = ( x - x_base ) / x_step;
-				int xlb = int( floor( x_idx ) );
-				clamp( xlb, 0, points - 2 );
+				T xlb_f = floor( x_idx ); // may be too large for an int
+				int xlb = xlb_f > T(0) ? ( xlb_f < T( points - 2 ) ? int( xlb_f ) : points - 2 ) : 0;
 				T wub = x_idx - xlb;
 				return ( T(1) - wub ) * data[ xlb ] + wub * data[ xlb + 1 ];
 			}
-- 
2.43.0


From 694a21b53fc6b13097922ee85be2024828565bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:50 +0000
Subject: [PATCH 73/90] fix: profiler sections of the same name from different
 places hide each other in the report

---
 flut/system/profiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index 7bb9552..65e4ab0 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -1,5 +1,6 @@
 ﻿#include "profiler.hpp"
 #include <algorithm>
+#include <cstring>
 #include <thread>
 
 namespace flut
@@ -50,7 +51,7 @@ namespace flut
 
 	flut::profiler::section* profiler::find_section( const char* name, size_t parent_id )
 	{
-		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return s.name == name && s.parent_id == parent_id; } );
+		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return s.parent_id == parent_id && strcmp( s.name, name ) == 0; } );
 		return it != sections_.end() ? &( *it ) : nullptr;
 	}
 
-- 
2.43.0


From 796669ee6e8ca7eb1a40aff5ea834efe0a1dea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:54 +0000
Subject: [PATCH 74/90] fix: sockets and block devices are taken for folders

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 01cc2a2..ec4692a 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -113,7 +113,7 @@ namespace flut
 		struct stat status;
 		if ( stat( folder.c_str(), &status ) == 0 )
 		{
-			if ( status.st_mode & S_IFDIR )
+			if ( S_ISDIR( status.st_mode ) )
 				return true;
 		}
 		return false; // if any condition fails
-- 
2.43.0


From c6e5ddacf498a780fdae0af357a71373ab3cb63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:54 +0000
Subject: [PATCH 75/90] fix: create_directories reports failure for a new
 folder given with a trailing separator

---
 flut/filesystem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index ec4692a..b3265ae 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -122,6 +122,9 @@ namespace flut
 
 	FLUT_API bool create_directories( const path& folder )
 	{
+		if ( folder.has_parent_path() && !folder.has_filename() )
+			return create_directories( folder.parent_path() ); // path ends with a separator
+
 		// make sure parent folders exist
 		if ( folder.has_parent_path() && !folder_exists( folder.parent_path() ) )
 			create_directories( folder.parent_path() );
-- 
2.43.0


From ed72bd353dd9ce6840ca84ec83b3bc3f06734f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:06 +0000
Subject: [PATCH 76/90] fix: keep all bits of 64-bit enum values when
 converting them to and from text

---
 flut/system/string_cast.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flut/system/string_cast.hpp b/flut/system/string_cast.hpp
index bb28141..f6ecb2c 100644
--- a/flut/system/string_cast.hpp
+++ b/flut/system/string_cast.hpp
@@ -52,8 +52,9 @@ namespace flut
 	};
 
 	template< typename T > struct string_cast< T, typename std::enable_if< std::is_enum< T >::value >::type > {
-		static T from( const string& s ) { return static_cast< T >( string_cast< int >::from( s ) ); }
-		static string to( const T& v ) { return string_cast< int >::to( static_cast< int >( v ) ); }
+		using int_t = typename std::conditional< ( sizeof( T ) > sizeof( int ) ), long long, int >::type;
+		static T from( const string& s ) { return static_cast< T >( string_cast< int_t >::from( s ) ); }
+		static string to( const T& v ) { return string_cast< int_t >::to( static_cast< int_t >( v ) ); }
 	};
 
 	template< typename T > bool string_is( const string& s ) {
-- 
2.43.0


From 4d07c33114f727e368e02994c1cf277c79fab4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:22 +0000
Subject: [PATCH 77/90] fix: stringf and printf-style log calls keep 0
 characters written by %c

---
 flut/string_tools.cpp | 2 +-
 flut/system/log.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 6cccce3..6764e2c 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -77,7 +77,7 @@ namespace flut
 		va_copy( args_copy, args );
 		char buf[256];
 		auto len = vsnprintf( buf, sizeof( buf ), format, args );
-		string str( buf );
+		string str( buf, len > 0 && len < int( sizeof( buf ) ) ? len : 0 ); // can contain 0 characters
 		if ( len >= int( sizeof( buf ) ) ) {
 			str.resize( len + 1 ); // result does not fit in buf
 			vsnprintf( &str[ 0 ], str.size(), format, args_copy );
diff --git a/flut/system/log.cpp b/flut/system/log.cpp
index bcfeaee..1bae009 100644
--- a/flut/system/log.cpp
+++ b/flut/system/log.cpp
@@ -25,7 +25,7 @@ namespace flut
 				va_copy( list_copy, list );
 				char buf[ 1024 ];
 				auto len = vsnprintf( buf, sizeof( buf ), format, list );
-				string str( buf );
+				string str( buf, len > 0 && len < int( sizeof( buf ) ) ? len : 0 ); // can contain 0 characters
 				if ( len >= int( sizeof( buf ) ) ) {
 					str.resize( len + 1 ); // message does not fit in buf
 					vsnprintf( &str[ 0 ], str.size(), format, list_copy );
-- 
2.43.0


From 18e784e7d83626eed7a4d10a1f75152230f3f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:22 +0000
Subject: [PATCH 78/90] fix: version parsed from a string keeps a postfix of
 several words

---
 flut/system/version.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/version.hpp b/flut/system/version.hpp
index c53f2d2..b1ea33b 100644
--- a/flut/system/version.hpp
+++ b/flut/system/version.hpp
@@ -16,7 +16,7 @@ namespace flut
 			char dummy;
 			str >> major >> dummy >> minor >> dummy >> patch;
 			if ( str.good() && str.peek() == '.' ) str >> dummy >> build;
-			if ( str.good() ) str >> postfix;
+			if ( str.good() && std::getline( str, postfix ) ) postfix = trim_str( postfix ); // can be several words
 		}
 
 		string to_str() const {
-- 
2.43.0


From 0c27b94aff96f1c90dc785b711c5c8863e32bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 79/90] fix: stopwatch reports in different threads no longer
 race on the to_str precision

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 6764e2c..cd13cdd 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -19,7 +19,7 @@
 
 namespace flut
 {
-	int to_str_precision_value = 4;
+	thread_local int to_str_precision_value = 4;
 
 	FLUT_API string trim_str( const string& s, const char* space_chars )
 	{
-- 
2.43.0


From c17d828035e05ffeb3bee79d2846aec008ad51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 80/90] fix: get_date_time_str no longer shares a buffer
 between threads

---
 flut/system_tools.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flut/system_tools.cpp b/flut/system_tools.cpp
index c3d8d1e..e5fd6df 100644
--- a/flut/system_tools.cpp
+++ b/flut/system_tools.cpp
@@ -34,8 +34,15 @@ namespace flut
 	FLUT_API string get_date_time_str( const char* format )
 	{
 		auto in_time_t = std::chrono::system_clock::to_time_t( std::chrono::system_clock::now() );
+		std::tm local_tm; // std::localtime() uses a buffer that is shared between threads
+#ifdef FLUT_COMP_MSVC
+		localtime_s( &local_tm, &in_time_t );
+#else
+		tzset(); // as std::localtime() does
+		localtime_r( &in_time_t, &local_tm );
+#endif
 		std::stringstream ss;
-		ss << std::put_time( std::localtime( &in_time_t ), format );
+		ss << std::put_time( &local_tm, format );
 		return ss.str();
 	}
 
-- 
2.43.0


From 74628fb3c317c8b41783d88458190b3d4f1e06a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:04 +0000
Subject: [PATCH 81/90] fix: a section that took no time reports no percentages
 instead of nan

---
 flut/system/profiler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index 65e4ab0..5c7b3a1 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -89,11 +89,11 @@ namespace flut
 	{
 		double root_total = root()->total_time / 1e6;
 		double total = s->total_time / 1e6;
-		double rel_total = 100.0 * total / root_total;
+		double rel_total = root_total > 0 ? 100.0 * total / root_total : 0.0;
 		double ex = exclusive_time( s ) / 1e6;
-		double rel_ex = 100.0 * ex / root_total;
+		double rel_ex = root_total > 0 ? 100.0 * ex / root_total : 0.0;
 		double over = total_overhead( s ) / 1e6;
-		double rel_over = 100.0 * over / total;
+		double rel_over = total > 0 ? 100.0 * over / total : 0.0;
 
 		pn[ s->name ] = stringf( "%6.0fms %6.2f%% (%5.2f%% exclusive %5.2f%% overhead)", total, rel_total, rel_ex, rel_over );
 
-- 
2.43.0


From eae40984f990d29b4d23799fc6cda3582fb6922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:48 +0000
Subject: [PATCH 82/90] fix: loading bad XML without an error code throws the
 parser's own error

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 1f8b207..bd516cf 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -86,7 +86,7 @@ namespace flut
 		{
 			if ( try_set_error( ec, e.what() ) )
 				return prop_node();
-			else throw e;
+			else throw;
 		}
 	}
 
-- 
2.43.0


From 8d21792fdbaad250e197c41ddb46fd2583a1ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:48 +0000
Subject: [PATCH 83/90] fix: an invalid token outside all blocks of a property
 text is reported, instead of dropping the rest

---
 flut/prop_node_tools.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index bd516cf..028f1ba 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -154,6 +154,7 @@ namespace flut
 			read_prop_node( str, root.push_back( t ) );
 			t = get_prop_token( str );
 		}
+		flut_error_if( !t.empty() || str.good(), "Invalid token: " + t );
 		return root;
 	}
 
-- 
2.43.0


From 6b98cf67f218868270ec1b9cac21841bbfdd5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:48 +0000
Subject: [PATCH 84/90] fix: a property text that ends before all its blocks
 are closed is reported

---
 flut/prop_node_tools.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 028f1ba..3bafb9f 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -142,6 +142,7 @@ namespace flut
 				else if ( t != "}" )
 					flut_error( "Invalid token: " + t );
 			}
+			flut_error_if( t != "}", "Unexpected end of text, missing '}'" );
 		}
 	}
 
-- 
2.43.0


From 8e042cadd29616e6e6c838e6e8625fb357c1cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:19 +0000
Subject: [PATCH 85/90] fix: a table can be resized with one of its own values
 as default

---
 flut/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index 6c57a68..657b261 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -37,7 +37,7 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols, const T& default_value = T() ) {
+		void resize( size_t rows, size_t cols, const T default_value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-- 
2.43.0


From 8abb4f323e60e43b63b85221478c3c8dc1ac2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:19 +0000
Subject: [PATCH 86/90] fix: a part of a property tree can be merged into the
 tree itself

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 3bafb9f..b57e21a 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -270,7 +270,7 @@ namespace flut
 
 	void merge_prop_nodes( prop_node& pn, const prop_node& other, bool overwrite )
 	{
-		for ( auto& o : other )
+		for ( auto& o : prop_node::container_t( other.begin(), other.end() ) ) // other can be part of pn
 		{
 			auto it = pn.find( o.first );
 			if ( it == pn.end() )
-- 
2.43.0


From 716fac69368ea0fe583d4c04745039afed217990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:33 +0000
Subject: [PATCH 87/90] fix: memoized functions keep their own copy of
 arguments passed by reference

---
 flut/memoize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/memoize.hpp b/flut/memoize.hpp
index 9cd8f6f..06042f3 100644
--- a/flut/memoize.hpp
+++ b/flut/memoize.hpp
@@ -27,7 +27,7 @@ namespace flut
 		}
 		
 	private:
-		std::map< std::tuple< Args... >, R > mem_;
+		std::map< std::tuple< typename std::decay< Args >::type... >, R > mem_; // keys must not refer to past arguments
 		std::function< R( Args... ) > func_;
 	};
 }
-- 
2.43.0


From a76e26606a415c3cdde006043dd425c1e5f9b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:33 +0000
Subject: [PATCH 88/90] fix: the clean name of a template class includes its
 own name, whatever its arguments

---
 flut/system_tools.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/system_tools.cpp b/flut/system_tools.cpp
index e5fd6df..7018a29 100644
--- a/flut/system_tools.cpp
+++ b/flut/system_tools.cpp
@@ -80,7 +80,10 @@ namespace flut
 		std::string str = std::string( cleanType );
 		free( cleanType );
 #endif
-		size_t pos = str.find_last_of( ": " );
+		size_t end = str.size();
+		for ( int depth = 0; end > 0 && ( depth > 0 || str[ end - 1 ] == '>' ); --end ) // template arguments can be in a namespace too
+			depth += str[ end - 1 ] == '>' ? 1 : str[ end - 1 ] == '<' ? -1 : 0;
+		size_t pos = str.find_last_of( ": ", end );
 		return ( pos != std::string::npos ) ? str.substr( pos + 1 ) : str;
 	}
 
-- 
2.43.0


From 48fcd0f3f7cae08a609f3142ca9cd9e06a558663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:23 +0000
Subject: [PATCH 89/90] fix: interpolated reads of a circular buffer refuse a
 frame before the first

---
 flut/buffer/circular_frame_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 0f6e6ba..efda92d 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -32,7 +32,7 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( index_t frame0, index_t channel, T pos ) {
-			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 + 1 < frame_size() && channel < this->channel_size() );
+			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 < frame_size() && frame0 + 1 < frame_size() && channel < this->channel_size() );
 			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_size() + channel;
 			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_size() + channel;
 			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];
-- 
2.43.0


From b4178867930e87ec3226aa89d2ce3f3406f41627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:23 +0000
Subject: [PATCH 90/90] fix: interpolated reads of a storage refuse a frame too
 large for an index

---
 flut/storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index f64f65d..5c94803 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -89,7 +89,7 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
-			flut_assert( frame_idx >= T(0) );
+			flut_assert( frame_idx >= T(0) && frame_idx < T( frame_size() ) );
 			auto frame_f = floor( frame_idx );
 			auto frame_w = frame_idx - frame_f;
 			index_t frame0 = static_cast<index_t>( frame_f );
-- 
2.43.0

