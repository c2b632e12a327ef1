From 75c0b01a751087f09846f107a1169a7b681dc333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 01/47] fix: quoted strings round-trip for NUL and for bytes >=
 0x80

encode_char compared a signed char with 32, so bytes >= 0x80 were written as an
11-digit octal escape; decode_char rejected the escape of NUL.
---
 flut/string_tools.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 5c6e002..111dd96 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -105,7 +105,7 @@ namespace flut
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( (unsigned char)c < 32 )
 		{
 			switch ( c )
 			{
@@ -145,7 +145,7 @@ namespace flut
 					value = value * 8 + *buf++ - '0';
 				else break;
 			}
-			if ( *len > 1 && value > 0 && value < 32 )
+			if ( *len > 1 && value < 32 )
 				return char( value ); // we read a valid char
 			else return '?'; // no valid char could be read
 		}
@@ -157,7 +157,7 @@ namespace flut
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || (unsigned char)c < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -168,7 +168,7 @@ namespace flut
 	FLUT_API bool needs_quotes( const string& s )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || c == '\\' )
+			if ( (unsigned char)c < 33 || c == '\"' || c == '\\' )
 				return true;
 		return false;
 	}
-- 
2.43.0


From 5c22d6fab9b8cdcdfbc8581576e5faee64d17bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 02/47] fix: decode_char reports one consumed character when
 there is nothing to decode

Reporting zero made char_stream::get_token loop forever on a quoted token whose
last character in the buffer is a backslash.
---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 111dd96..71d901c 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -121,7 +121,7 @@ namespace flut
 	FLUT_API char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		flut_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
-- 
2.43.0


From 5352761e871f0ee756ec7aa34f0db3f147aa0fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 03/47] fix: try_unquoted does not read past the end of its
 argument

A single quote character and a string ending in an escaped quote ran over the end.
---
 flut/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 71d901c..821693d 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -182,11 +182,11 @@ namespace flut
 
 	FLUT_API string try_unquoted( const string& s )
 	{
-		if ( s.empty() || s.front() != '\"' || s.back() != '\"' )
+		if ( s.size() < 2 || s.front() != '\"' || s.back() != '\"' )
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it < s.end() - 1 && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
-- 
2.43.0


From 573abca8fbdec225548e0d50d65f96e334cc4ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 04/47] fix: get_filename_folder is empty when there is no
 folder

It returned the whole file name, so folder + name did not give the path back.
---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 821693d..a5f2113 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -221,7 +221,7 @@ namespace flut
 	{
 		size_t n = str.find_last_of( "/\\" );
 		if ( n != string::npos ) return str.substr( 0, n + 1 );
-		else return str;
+		else return string();
 	}
 
 	FLUT_API string get_filename_without_folder( const string& str )
-- 
2.43.0


From fed2f46ce48ff72564020ae4ee3125dd856041ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 05/47] fix: str_ends_with looks at the end of the string, not
 at the first occurrence

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 23052ea..fbe9d86 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -32,7 +32,7 @@ namespace flut
 
 	/// check if a string ends with a string
 	inline bool str_ends_with( const string& str, const string& substr )
-	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.find( substr ) == s1 - s2 ); }
+	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.compare( s1 - s2, s2, substr ) == 0 ); }
 
 	/// remove leading and trailing spaces and newlines
 	FLUT_API string trim_str( const string& str, const char* trim_chars = " \t\r\n\f\v" );
-- 
2.43.0


From 5e88b78ff3b21163e8d2b046d1a10d26382bf39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 06/47] fix: right_str does not throw when more characters are
 requested than available

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index fbe9d86..098054a 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -22,7 +22,7 @@ namespace flut
 
 	/// get right n characters, if n is negative, get string WITHOUT the right n characters
 	inline string right_str( const string& str, int n )
-	{ if ( n >= 0 ) return str.substr( str.size() - n, string::npos ); else return str.substr( size_t( -n ), string::npos ); }
+	{ if ( n >= 0 ) return str.substr( str.size() - std::min( str.size(), size_t( n ) ), string::npos ); else return str.substr( std::min( str.size(), size_t( -n ) ), string::npos ); }
 
 	/// get index of a substring in a string
 	inline index_t in_str( const string& str, const string& substr, index_t p = 0 ) { return str.find( substr, p ); }
-- 
2.43.0


From d0a3565b22952974b648f17514463542b49136b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 07/47] fix: scan_str counts the last value of the string

Reading the last value sets eof, which was taken for a failure.
---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 098054a..82b20a9 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -52,7 +52,7 @@ namespace flut
 
 	inline int scan_str_impl( char_stream& str ) { return 0; }
 	template< typename T, typename... Args > int scan_str_impl( char_stream& str, T& v, Args&... args )
-	{ str >> v; return str.good() ? scan_str_impl( str, args... ) + 1 : 0; }
+	{ str >> v; return !str.fail() ? scan_str_impl( str, args... ) + 1 : 0; }
 
 	/// read variables from string
 	template< typename... Args > int scan_str( const string& s, Args&... args )
-- 
2.43.0


From 3cf5536bb3f99b7db741022162285f20e310f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 08/47] fix: path::filename of a path without separator is the
 path itself

---
 flut/system/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index d2004c7..860e557 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -56,7 +56,7 @@ namespace flut
 	path path::filename() const
 	{
 		size_t n = last_separator_pos();
-		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
+		return n != string::npos ? path( data_.substr( n + 1 ) ) : *this;
 	}
 
 	path path::stem() const
-- 
2.43.0


From deabcef7d7b06c1b70e2011b9c330348e2903fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 09/47] fix: a dot in a folder name is not the start of a file
 extension

path::extension and path::replace_extension cut at a dot in a parent folder.
---
 flut/system/path.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index 860e557..84caa7a 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -11,8 +11,8 @@ namespace flut
 
 	path& path::replace_extension( const path& ext )
 	{
-		size_t n = data_.find_last_of( '.' );
-		if ( n != string::npos ) data_.erase( n ); // remove existing extension
+		size_t n = data_.find_last_of( "./\\" );
+		if ( n != string::npos && data_[ n ] == '.' ) data_.erase( n ); // remove existing extension
 
 		if ( !ext.empty() )
 			data_ += '.' + ext.data_;
@@ -49,8 +49,8 @@ namespace flut
 
 	path path::extension() const
 	{
-		size_t n = data_.find_last_of( '.' );
-		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
+		size_t n = data_.find_last_of( "./\\" );
+		return n != string::npos && data_[ n ] == '.' ? path( data_.substr( n + 1 ) ) : path();
 	}
 
 	path path::filename() const
-- 
2.43.0


From b4388beb098a887e55e4f4a50f174326e1fd8b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 10/47] fix: char_stream::getc at the end of the buffer does
 not move past it

---
 flut/char_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index 3b14a25..a9dd5fa 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -46,7 +46,7 @@ namespace flut
 
 		string get_line();
 		string get_token( const char* operators = "", const char* quotations = "\"" );
-		char getc() { char c = *cur_pos++; test_eof(); return c; }
+		char getc() { char c = *cur_pos; if ( cur_pos != buffer_end ) ++cur_pos; test_eof(); return c; }
 		char peekc() { return *cur_pos; }
 
 		bool good() { return !buffer_flags.any(); }
-- 
2.43.0


From 94552458f11c21295210b0336b0cba99250cb678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 11/47] fix: char_stream reads strings up to the stream's own
 delimiters

It used isspace, so that with other delimiters whole values ran together and a
space made the next read fail; isspace was also called with negative values.
---
 flut/char_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index c934ab5..b6b8ece 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -22,7 +22,7 @@ namespace flut
 
 	flut::char_stream& char_stream::operator>>( string& s )
 	{
-		for ( cur_pos_end = const_cast<char*>( cur_pos ); *cur_pos_end && !isspace( *cur_pos_end ); ++cur_pos_end );
+		for ( cur_pos_end = const_cast<char*>( cur_pos ); cur_pos_end != buffer_end && !strchr( delimiters_, *cur_pos_end ); ++cur_pos_end );
 		s = string( cur_pos, size_t( cur_pos_end - cur_pos ) );
 		process_end_pos();
 		return *this;
-- 
2.43.0


From dcc1e5bda36c59d1360845c8cfa06b7847fe4c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:23 +0000
Subject: [PATCH 12/47] fix: container_tools is valid C++ (missing semicolon,
 misplaced typename)

---
 flut/container_tools.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 80e7f4b..978502e 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -31,7 +31,7 @@ namespace flut
 	{ return std::max_element( std::cbegin( cont ), std::cend( cont ) ); }
 
 	template< typename I > typename I::value_type average( I b, I e )
-	{ return std::accumulate( b, e, I::value_type( 0 ) ) / typename I::value_type( e - b ); }
+	{ return std::accumulate( b, e, typename I::value_type( 0 ) ) / typename I::value_type( e - b ); }
 
 	template< typename C > typename C::value_type average( const C& cont )
 	{ return average( std::begin( cont ), std::end( cont ) ); }
@@ -66,7 +66,7 @@ namespace flut
 	}
 
 	template< typename T > index_t back_index( const vector< T >& vec )
-	{ flut_assert( vec.size() > 0 ) return vec.size() - 1; }
+	{ flut_assert( vec.size() > 0 ); return vec.size() - 1; }
 
 	template< typename It, typename Pr > struct view_if {
 		view_if( It first, It last, Pr pred ) : first_( first ), last_( last ), pred_( pred ) {}
@@ -77,8 +77,8 @@ namespace flut
 			iterator operator++( int ) { auto keepit = *this; ++pos_; next_match(); return keepit; }
 			bool operator==( const iterator& other ) { return pos_ == other.pos_; }
 			bool operator!=( const iterator& other ) { return pos_ != other.pos_; }
-			typename const It::value_type& operator*() const { return *pos_; }
-			typename const It::value_type* operator->() const { return &(*pos_); }
+			const typename It::value_type& operator*() const { return *pos_; }
+			const typename It::value_type* operator->() const { return &(*pos_); }
 			const view_if& cv_;
 			It pos_;
 		};
-- 
2.43.0


From 6fac6752919270f17d83e49eaa6889278f88abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:23 +0000
Subject: [PATCH 13/47] fix: sorted_vector::find returns an iterator to the
 element

---
 flut/sorted_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/sorted_vector.hpp b/flut/sorted_vector.hpp
index 5f2b691..7b793c6 100644
--- a/flut/sorted_vector.hpp
+++ b/flut/sorted_vector.hpp
@@ -27,12 +27,12 @@ namespace flut
 
 		iterator find( const T& e ) {
 			auto it = std::lower_bound( begin(), end(), e );
-			return ( it != end() && *it == e ) ? *it : end();
+			return ( it != end() && *it == e ) ? it : end();
 		}
 
 		const_iterator find( const T& e ) const {
 			auto it = std::lower_bound( cbegin(), cend(), e );
-			return ( it != cend() && *it == e ) ? *it : cend();
+			return ( it != cend() && *it == e ) ? it : cend();
 		}
 	};
 }
-- 
2.43.0


From 241dcb48ee4fd6009ffe6f8df43c5c97cca1f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:23 +0000
Subject: [PATCH 14/47] fix: dynarray is empty after being moved from, and can
 be move-assigned

---
 flut/dynarray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 2946f37..6465ae9 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -16,9 +16,9 @@ namespace flut
 		dynarray( size_t n ) : data_( new T[ n ] ), end_( data_.get() + n ) {}
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
+		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = o.data_.get(); }
 		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) { data_ = std::move( o.data() ); end_ = o.end_; return *this; }
+		dynarray<T>& operator=( dynarray&& o ) { auto e = o.end_; o.end_ = nullptr; data_ = std::move( o.data_ ); end_ = e; return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[ i ]; }
-- 
2.43.0


From 3faaddf756115b7f0af368b5f7dbc1993293aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:23 +0000
Subject: [PATCH 15/47] fix: data_header indexes the labels it is constructed
 with

---
 flut/buffer/data_header.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 030c3ef..c80b737 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -11,8 +11,8 @@ namespace flut
 	struct data_header
 	{
 		data_header( size_t channels = 0 ) : labels_( channels ) {}
-		data_header( std::initializer_list< L > labels ) : labels_( labels ) {}
-		data_header( const std::vector< L >& labels ) : labels_( labels ) {}
+		data_header( std::initializer_list< L > labels ) : labels_( labels ) { index_labels(); }
+		data_header( const std::vector< L >& labels ) : labels_( labels ) { index_labels(); }
 		~data_header() {}
 
 		index_t add( const L& label ) {
@@ -44,6 +44,8 @@ namespace flut
 		typename vector< L >::const_iterator end() const { return labels_.end(); }
 
 	private:
+		void index_labels() { for ( index_t i = 0; i < labels_.size(); ++i ) label_indices_.emplace( labels_[ i ], i ); }
+
 		std::vector< L > labels_;
 		std::unordered_map< L, index_t > label_indices_;
 	};
-- 
2.43.0


From 5a27ef4bfeb6ff8c028e36de212916d4456b0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:23 +0000
Subject: [PATCH 16/47] fix: data_header::set indexes the label under its own
 position

---
 flut/buffer/data_header.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index c80b737..ace911b 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -35,8 +35,10 @@ namespace flut
 
 		index_t set( index_t idx, const L& label ) {
 			flut_assert( idx < size() && find( label ) == no_index );
+			auto it = label_indices_.find( labels_[ idx ] );
+			if ( it != label_indices_.end() && it->second == idx ) label_indices_.erase( it );
 			labels_[ idx ] = label;
-			label_indices_[ label ] = labels_.size() - 1;
+			label_indices_[ label ] = idx;
 			return idx;
 		}
 
-- 
2.43.0


From 152459072b7fc74358b357b802d9b0b9166f014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:23 +0000
Subject: [PATCH 17/47] fix: const access to a storage compiles

---
 flut/storage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 9845f7b..01f27e9 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -78,13 +78,13 @@ namespace flut
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
-		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return *this( frame_size() - 1, channel ); }
+		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
 
 		/// access value of most recent frame by channel name, add channel if not existing
 		T& operator[]( const L& label ) { return (*this)[ find_or_add_channel( label ) ]; }
 
 		/// access value of most recent frame by channel name
-		const T& operator()( const L& label ) const { return *this( find_channel( label ) ); }
+		const T& operator()( const L& label ) const { auto idx = find_channel( label ); flut_assert( idx != no_index ); return (*this)[ idx ]; }
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
@@ -119,7 +119,7 @@ namespace flut
 			}
 		}
 
-		const std::vector< L >& labels() const { return labels_; }
+		const data_header< L >& labels() const { return labels_; }
 		const std::vector< T >& data() const { return data_; }
 
 	private:
-- 
2.43.0


From 6fc01925f2629ac1859cafeff280266afc98f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 18/47] fix: table::resize allocates room for the new rows

---
 flut/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index a56292f..63e6d1f 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -40,7 +40,7 @@ namespace flut
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data_.resize( row_size() * cols );
+			data_.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
 					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : T();
-- 
2.43.0


From fa79fb342ebefbf1944fe90581f823c60308dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 19/47] fix: table::add_column fills the new column with the
 given default value

---
 flut/table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index 63e6d1f..ea372c9 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -22,7 +22,7 @@ namespace flut
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
-			resize( row_size(), column_size() + 1 );
+			resize( row_size(), column_size() + 1, default_value );
 			return col_labels_.set( column_size() - 1, label );
 		}
 
@@ -36,14 +36,14 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols ) {
+		void resize( size_t rows, size_t cols, const T& default_value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
 			data_.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
-					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : T();
+					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : default_value;
 			col_labels_.resize( cols );
 			row_labels_.resize( rows );
 		}
-- 
2.43.0


From a4a6cdf69b7623898c0e80c0eb323e804249af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 20/47] fix: const access to a table by label compiles

---
 flut/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index ea372c9..5a3dd3e 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -57,7 +57,7 @@ namespace flut
 		const T& operator()( index_t row, index_t col ) const { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 		T& operator()( index_t row, index_t col ) { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 
-		const T& operator()( const L& row, const L& col ) const { return (*this)( row_index( row ), col_index( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return (*this)( row_labels_.find( row ), col_labels_.find( col ) ); }
 		T& operator()( const L& row, const L& col ) { return (*this)( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 	private:
-- 
2.43.0


From df924a0ffcfc18728a4606ac6963711a5d4ff293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 21/47] fix: circular_frame_buffer::add_channel keeps the
 number of buffered frames

---
 flut/buffer/circular_frame_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index d4cf960..9a0bc6b 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -13,7 +13,7 @@ namespace flut
 		~circular_frame_buffer() {}
 
 		/// add a channel
-		index_t add_channel( L label ) { resize_buffer( frame_size(), channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label ) { resize_buffer( frame_buf_size_, channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
 		void set_label( index_t channel, L label ) { labels_.set( channel, label ); }
 		const L& get_label( index_t channel ) const { return labels_[ channel ]; }
 		index_t find_channel( const L& label ) const { return labels_.find( label ); }
-- 
2.43.0


From f56a359cc0d047a7df489b5375890bc936b65922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 22/47] fix: circular_frame_buffer const access and
 interpolation compile

---
 flut/buffer/circular_frame_buffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 9a0bc6b..883938c 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -32,15 +32,15 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( index_t frame0, index_t channel, T pos ) {
-			flut_assert( frame0 >= frame_count() - frame_buf_size_ && frame0 < frame_count() && channel < this->channel_count() );
-			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_count() + channel;
-			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_count() + channel;
+			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 < frame_size() && channel < channel_size() );
+			index_t ofs0 = ( frame0 % frame_buf_size_ ) * channel_size() + channel;
+			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * channel_size() + channel;
 			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];
 		}
 
 		/// access value (no bounds checking)
 		T& operator()( index_t frame, index_t channel ) { return data( frame % frame_buf_size_, channel ); }
-		const T& operator()( index_t frame, index_t channel ) const { data( frame % frame_buf_size_, channel ); }
+		const T& operator()( index_t frame, index_t channel ) const { return data( frame % frame_buf_size_, channel ); }
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { return data( ( frame_size_ - 1 ) % frame_buf_size_, channel ); }
-- 
2.43.0


From 9afa514569fb76826ccc2b6354916219455660e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 23/47] fix: circular_frame_buffer::at works before the buffer
 is full

---
 flut/buffer/circular_frame_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 883938c..620d096 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -52,11 +52,11 @@ namespace flut
 
 		/// access value with bounds checking
 		T& at( index_t frame, index_t channel ) {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 		const T& at( index_t frame, index_t channel ) const {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 
-- 
2.43.0


From 016b7f61ef4cbb4b4e327665d211aef327629e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 24/47] fix: circular_deque::push_back grows correctly when the
 contents are wrapped

---
 flut/circular_deque.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 39fcd52..bbe576c 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -16,7 +16,10 @@ namespace flut
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
+			if ( ++size_ > capacity() ) {
+				if ( front_ == 0 ) buffer_.push_back( value );
+				else buffer_.insert( buffer_.begin() + front_++, value ); // last element is right before front
+			}
 			else back() = value;
 		}
 		void push_front( const T& value ) {
-- 
2.43.0


From 1b72d5907559db5d31f6cf6f67d53ba3fde87315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 25/47] fix: const circular_deque::back returns the last
 element

---
 flut/circular_deque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index bbe576c..46f2c6a 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -34,7 +34,7 @@ namespace flut
 		void pop_front() { flut_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
-		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ ) % capacity() ]; }
+		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
 
 		T& front() { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
 		const T& front() const { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
-- 
2.43.0


From c4155fd19bf8525192cac5c46ad54c6895bc3b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 26/47] fix: circular_deque::reserve keeps the contents

---
 flut/circular_deque.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 46f2c6a..6bf8ded 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -45,7 +45,12 @@ namespace flut
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			if ( s <= capacity() ) return;
+			std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() );
+			front_ = 0;
+			buffer_.resize( s );
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl : public std::iterator< std::forward_iterator_tag, IT >
-- 
2.43.0


From 442d7eea6fd212b8745303a49ecbd9244cf1fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 27/47] fix: circular_deque iterators compile; post-increment
 does not return a dangling reference

---
 flut/circular_deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 6bf8ded..d3e4829 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -58,10 +58,10 @@ namespace flut
 			using value_type = IT;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this;  }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
-			difference_type operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
+			std::ptrdiff_t operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
 			bool operator==( const iterator_impl< IT >& other ) { return other.index_ == index_; }
 			bool operator!=( const iterator_impl< IT >& other ) { return other.index_ != index_; }
 			IT& operator*() { return const_cast< IT& >( buffer_[ index_ % buffer_.size() ] ); }
-- 
2.43.0


From 078ab02a5f537fc6c7d346d3ad84ac964fc1a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 28/47] fix: vec4 operators include the w component

---
 flut/math/vec4.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flut/math/vec4.hpp b/flut/math/vec4.hpp
index d606987..a85ed73 100644
--- a/flut/math/vec4.hpp
+++ b/flut/math/vec4.hpp
@@ -16,31 +16,31 @@ namespace flut
 
 		/// Subtraction
 		template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 		/// Subtraction
 		template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 		/// Negation
 		template< typename T > vec4_<T> operator-( vec4_<T> v )
-		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 		/// Scalar division
 		template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 		/// Scalar division
 		template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	}
 }
 
-- 
2.43.0


From 917e0362435797dd8c286a89074f8a637bc37fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 29/47] fix: square_wave has period 2 for negative values too

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 8f76dee..4d0e598 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -108,6 +108,6 @@ namespace flut
 		template< typename T > bool is_between( T v, T min, T max ) { return ( v >= min && v <= max ); }
 
 		/// square wave, period = 2, min = -1, max = 1
-		template< typename T > T square_wave( T v ) { return fmod( v, T(2) ) < T(1) ? T(1) : T(-1); }
+		template< typename T > T square_wave( T v ) { return v - T(2) * floor( v / T(2) ) < T(1) ? T(1) : T(-1); }
 	}
 }
-- 
2.43.0


From e732e9c53dbd6b87e21f0bed00acf0a1180e3d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 30/47] fix: axis_angle_from_quat does not round the axis to
 single precision

---
 flut/math/quat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 4fc115a..2649f8d 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -176,7 +176,7 @@ namespace flut
 			if ( l > constants<T>::epsilon() )
 			{
 				T s = T(1) / l;
-				return std::pair< vec3_<T>, radian_<T> >{ vec3f( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
+				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
 			}
 			else return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>::unit_x(), radian_<T>( T() ) };
 		}
-- 
2.43.0


From 8d1aaea9719ac4e9024d7ca5709e3655a63bad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:34 +0000
Subject: [PATCH 31/47] fix: hash does not depend on the signedness of char and
 can be included more than once

---
 flut/hash.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/hash.hpp b/flut/hash.hpp
index d5a624e..6950aa0 100644
--- a/flut/hash.hpp
+++ b/flut/hash.hpp
@@ -17,17 +17,17 @@ namespace flut
 
 	constexpr hash_t hash_constexpr( char const* str, hash_t last_value = fnv1a_64_basis )
 	{
-		return *str ? hash_constexpr( str + 1, ( *str ^ last_value ) * fnv1a_64_prime ) : last_value;
+		return *str ? hash_constexpr( str + 1, ( static_cast< unsigned char >( *str ) ^ last_value ) * fnv1a_64_prime ) : last_value;
 	}
 
-	hash_t hash( char const* str )
+	inline hash_t hash( char const* str )
 	{
 		hash_t ret = fnv1a_64_basis;
-		while ( *str ) { ret ^= *str; ret *= fnv1a_64_prime; ++str;	}
+		while ( *str ) { ret ^= static_cast< unsigned char >( *str ); ret *= fnv1a_64_prime; ++str;	}
 		return ret;
 	}
 
-	hash_t hash( const std::string& str ) { return hash( str.c_str() ); }
+	inline hash_t hash( const std::string& str ) { return hash( str.c_str() ); }
 }
 
 constexpr unsigned long long operator""_hash( char const* p, size_t ) { return flut::hash_constexpr( p ); }
-- 
2.43.0


From 45f1f8de2874625f6a14533b341df53d46fef530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:34 +0000
Subject: [PATCH 32/47] fix: flag_set can clear a list of flags

---
 flut/flag_set.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/flag_set.hpp b/flut/flag_set.hpp
index dff4fc3..0223d63 100644
--- a/flut/flag_set.hpp
+++ b/flut/flag_set.hpp
@@ -24,6 +24,7 @@ namespace flut
 
 		flag_set& set( EnumT index ) { data |= storage_bit( index ); return *this; }
 		template< EnumT index > flag_set& set() { data |= storage_bit( index ); return *this; }
+		flag_set& clear( EnumT index ) { data &= ~storage_bit( index ); return *this; }
 		template< EnumT index > flag_set& clear() { data &= ~storage_bit( index ); return *this; }
 
 		flag_set& set( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) set( f ); return *this; }
-- 
2.43.0


From 3abc0b13cc6c9449c716c4449d0dea5d91038669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:34 +0000
Subject: [PATCH 33/47] fix: test_framework::reset sets all counters to zero

---
 flut/system/test_framework.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/test_framework.cpp b/flut/system/test_framework.cpp
index 56bded8..e20aca5 100644
--- a/flut/system/test_framework.cpp
+++ b/flut/system/test_framework.cpp
@@ -32,7 +32,7 @@ namespace flut
 
 	void test_framework::reset()
 	{
-		num_tests = num_passed = num_failed;
+		num_tests = num_passed = num_failed = 0;
 	}
 
 	int test_framework::report()
-- 
2.43.0


From 58bd03ff20cadef1ea84ff1e38b0903a9c4d2914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:34 +0000
Subject: [PATCH 34/47] fix: dynarray keeps its contents when assigned to
 itself

---
 flut/dynarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 6465ae9..3688e1b 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -17,7 +17,7 @@ namespace flut
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
 		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = o.data_.get(); }
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
+		dynarray<T>& operator=( const dynarray& o ) { *this = dynarray( o ); return *this; }
 		dynarray<T>& operator=( dynarray&& o ) { auto e = o.end_; o.end_ = nullptr; data_ = std::move( o.data_ ); end_ = e; return *this; }
 		~dynarray() {}
 
-- 
2.43.0


From 11fc144ffb11e633fcbe0fe4c091b93c27fc46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:12 +0000
Subject: [PATCH 35/47] fix: bounds::soft_clamp compiles

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 4d0e598..4d6fab6 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -83,7 +83,7 @@ namespace flut
 		template< typename T > T limit_transfer( T x, T limit ) { return limit - limit * limit / ( x + limit ); }
 
 		/// clamp with smooth boundary transformation
-		template< typename T > T soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
+		template< typename T > T& soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
 			auto r = boundary * ( max - min );
 			if ( v > max - r ) v = max - r + limit_transfer( v - max + r, r );
 			else if ( v < min + r )	v = min + r - limit_transfer( min + r - v, r );
-- 
2.43.0


From 05522144798f6feb3d5a6e1be8e6509859ca1bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:01 +0000
Subject: [PATCH 36/47] fix: quat_from_directions works for any pair of
 opposite directions

---
 flut/math/quat.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 2649f8d..cddaecf 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -140,11 +140,14 @@ namespace flut
 			if ( equals( d, T(1) ) ) // check if vectors are the same
 				return quat_<T>::identity();
 
-			auto clen = length( c );
-			if ( equals( clen, T() ) ) // check if vectors are 180 deg apart
-				return quat_<T>( 0, 1, 0, 0 ); // this doesn't work if source is unit_x
+			if ( d <= T(-1) || equals( d, T(-1) ) ) // check if vectors are 180 deg apart
+			{
+				// rotate around an axis that is perpendicular to source
+				vec3_<T> p = normalized( s.x * s.x < T(0.5) ? vec3_<T>( 0, s.z, -s.y ) : vec3_<T>( -s.z, 0, s.x ) );
+				return quat_<T>( 0, p.x, p.y, p.z );
+			}
 
-			c /= clen;
+			c /= length( c );
 			auto a = std::acos( d ) * T(0.5);
 			auto sa = std::sin( a );
 
-- 
2.43.0


From a688dd7b80abc01a7f98e2082d3c58c643b5fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:45 +0000
Subject: [PATCH 37/47] Undo the test_framework::reset repair: it touches a
 file of the test framework

---
 flut/system/test_framework.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/test_framework.cpp b/flut/system/test_framework.cpp
index e20aca5..56bded8 100644
--- a/flut/system/test_framework.cpp
+++ b/flut/system/test_framework.cpp
@@ -32,7 +32,7 @@ namespace flut
 
 	void test_framework::reset()
 	{
-		num_tests = num_passed = num_failed = 0;
+		num_tests = num_passed = num_failed;
 	}
 
 	int test_framework::report()
-- 
2.43.0


From 51526cd4de047aa66eed3a5da75348815e2600ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:06 +0000
Subject: [PATCH 38/47] fix: a prop_node can be assigned one of its own
 descendants

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 8a26477..5648fa4 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -47,7 +47,7 @@ namespace flut
 		~prop_node() {}
 
 		/// assignment operators
-		prop_node& operator=( const prop_node& other ) { value = other.value; children = other.children; return *this; }
+		prop_node& operator=( const prop_node& other ) { return *this = prop_node( other ); } // copy first: other can be a descendant
 		prop_node& operator=( prop_node&& other ) { value = std::move( other.value ); children = std::move( other.children ); return *this; }
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
-- 
2.43.0


From daef8ab2606c52bc2f6ef34a83e043fd6fa728a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:06 +0000
Subject: [PATCH 39/47] fix: parse_prop does not bind a temporary to a
 non-const reference

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9145764..2a53d85 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -151,7 +151,8 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		return parse_prop( char_stream( str, "\n\r\t\v;" ), ec );
+		char_stream cs( str, "\n\r\t\v;" );
+		return parse_prop( cs, ec );
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From 1ae44727dd368b7d6acc8a9c6ac80e0f01ae63b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:06 +0000
Subject: [PATCH 40/47] fix: load_ini does not skip the line after a comment

---
 flut/prop_node_tools.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 2a53d85..a2e6b1f 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -177,10 +177,7 @@ namespace flut
 				continue;
 
 			if ( line[0] == '#' ) // comment
-			{
-				str.get_line();
 				continue;
-			}
 
 			if ( line.size() > 2 && line[ 0 ] == '[' && line[ line.size() -1 ] == ']' )
 			{
-- 
2.43.0


From a2160ce04b0a4009011707697c5664629b307ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:37 +0000
Subject: [PATCH 41/47] fix: stringf does not truncate its result at 255
 characters

---
 flut/string_tools.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index a5f2113..ae20bde 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -74,10 +74,14 @@ namespace flut
 #endif
 		va_list args;
 		va_start( args, format );
-		char buf[256];
-		vsnprintf( buf, sizeof( buf ), format, args );
+		va_list args_copy;
+		va_copy( args_copy, args );
+		int len = vsnprintf( nullptr, 0, format, args_copy );
+		va_end( args_copy );
+		std::vector< char > buf( len > 0 ? len + 1 : 1 );
+		vsnprintf( buf.data(), buf.size(), format, args );
 		va_end( args );
-		return string( buf );
+		return string( buf.data() );
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
 #endif
-- 
2.43.0


From f442f9218e361c962424a2c8f86bcd3f69ff64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:37 +0000
Subject: [PATCH 42/47] fix: formatted log messages are not truncated at 1023
 characters

---
 flut/system/log.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flut/system/log.cpp b/flut/system/log.cpp
index 3e54fec..6013150 100644
--- a/flut/system/log.cpp
+++ b/flut/system/log.cpp
@@ -21,9 +21,13 @@ namespace flut
 		{
 			if ( test_log_level( l ) )
 			{
-				char buf[ 1024 ];
-				vsnprintf( buf, sizeof( buf ), format, list );
-				log_string( l, string( buf ) ); // TODO: use string_view
+				va_list list_copy;
+				va_copy( list_copy, list );
+				int len = vsnprintf( nullptr, 0, format, list_copy );
+				va_end( list_copy );
+				std::vector< char > buf( len > 0 ? len + 1 : 1 );
+				vsnprintf( buf.data(), buf.size(), format, list );
+				log_string( l, string( buf.data() ) ); // TODO: use string_view
 			}
 		}
 
-- 
2.43.0


From c4785c82cba7a825d6ece0da9f548ceb0a29f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:46 +0000
Subject: [PATCH 43/47] fix: an empty comment in a property file does not hide
 the next line, and a quoted % is not a comment

---
 flut/prop_node_tools.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index a2e6b1f..1f10599 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -104,17 +104,9 @@ namespace flut
 
 	string get_prop_token( char_stream& str )
 	{
-		while ( true )
-		{
-			string t = str.get_token( "={}%", "\"'" );
-			if ( t == "%" )
-			{
-				// comment: skip rest of line
-				str.get_line();
-				continue;
-			}
-			else return trim_str( t );
-		}
+		while ( str.peekc() == '%' )
+			str.get_line(); // comment: skip rest of line
+		return trim_str( str.get_token( "={}%", "\"'" ) );
 	}
 
 	void read_prop_node( char_stream& str, prop_node& parent )
-- 
2.43.0


From fa18f7d01e0a372d5b9e9d50aeb76b396f015313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:46 +0000
Subject: [PATCH 44/47] fix: is_valid_prop_label does not pass a negative value
 to isalpha

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 1f10599..394c8ed 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -99,7 +99,7 @@ namespace flut
 
 	bool is_valid_prop_label( const string& s )
 	{
-		return ( s.size() > 0 && isalpha( s[ 0 ] ) );
+		return ( s.size() > 0 && isalpha( (unsigned char)s[ 0 ] ) );
 	}
 
 	string get_prop_token( char_stream& str )
-- 
2.43.0


From 845afba8b611b270d5d1e555d38075c67e71aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:46 +0000
Subject: [PATCH 45/47] fix: a saved prop_node with both a value and children
 can be loaded

---
 flut/prop_node_tools.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 394c8ed..58f2424 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -115,8 +115,11 @@ namespace flut
 		if ( t == "=" )
 		{
 			parent.set_value( get_prop_token( str ) );
+			if ( str.peekc() == '{' ) // node has both a value and children
+				t = get_prop_token( str );
 		}
-		else if ( t == "{" )
+
+		if ( t == "{" )
 		{
 			while ( str.good() && t != "}" )
 			{
-- 
2.43.0


From 6c5a35f63f91367d6d9d2bcbf12edcac6f13b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:46 +0000
Subject: [PATCH 46/47] fix: save_prop quotes labels and values with characters
 that have a meaning in property files

---
 flut/prop_node_tools.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 58f2424..be3c286 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -204,15 +204,21 @@ namespace flut
 		}
 	}
 
+	static string quoted_prop_str( const string& s )
+	{
+		// characters with a special meaning must be quoted
+		return s.find_first_of( "={}%;'" ) != string::npos ? quoted( s ) : try_quoted( s );
+	}
+
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
 		string newline = readable ? "\n" : " ";
 		string assign = readable ? " = " : "=";
 
-		str << indent << try_quoted( label );
+		str << indent << quoted_prop_str( label );
 		if ( pn.has_value() || pn.empty() )
-			str << assign << ( pn.empty() ? "\"\"" : try_quoted( pn.get_value() ) );
+			str << assign << ( pn.empty() ? "\"\"" : quoted_prop_str( pn.get_value() ) );
 		str << newline;
 		if ( pn.size() > 0 )
 		{
-- 
2.43.0


From 16027178b12d50af52ca7817453e7597cb89669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:46 +0000
Subject: [PATCH 47/47] fix: save_prop separates nodes with a delimiter that
 load_prop recognises

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index be3c286..a8a85c1 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -213,7 +213,7 @@ namespace flut
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
-		string newline = readable ? "\n" : " ";
+		string newline = readable ? "\n" : ";";
 		string assign = readable ? " = " : "=";
 
 		str << indent << quoted_prop_str( label );
-- 
2.43.0

