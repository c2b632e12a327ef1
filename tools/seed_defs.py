ST='#include "flut/string_tools.cpp"\n#undef p\n#include "flut/system/path.cpp"\n#include <cstdio>\nusing namespace flut;\n#define CHECK(x) if(!(x)){printf("FAILED: %s\\n",#x);return 1;}\n'
F='-Dp=pattern '
BUGS=[
 dict(id='S01',property='C01',flags=F,edits=[('flut/string_tools.cpp','default: return stringf( "\\\\%03o", (int)c );','default: return stringf( "\\\\%o", (int)c );')],
  needs='a control character below 8 (or below 32) directly followed by an octal digit character', breaks='octal escapes are not padded, so a following digit is absorbed when decoding and the round trip is lost',
  demo=ST+'int main(){ for(const char* s:{"a b","x\\ty","\\x01z"}) CHECK(try_unquoted(flut::quoted(s))==s); string t("\\x01" "7"); CHECK(try_unquoted(flut::quoted(t))==t); string u("\\x1b" "0x"); CHECK(try_unquoted(flut::quoted(u))==u); return 0; }\n'),
 dict(id='S02',property='C02',flags='-fsanitize=address -fno-sanitize-recover=all '+F,edits=[('flut/string_tools.cpp','int max_len = std::min( (int)buf_size - 1, 3 );','int max_len = std::min( (int)buf_size, 3 );')],
  needs='an octal escape truncated by the end of the buffer', breaks='decode_char reads one character past the end of its buffer and reports more consumed characters than are available',
  demo=ST+'int main(){ char* b=new char[2]; b[0]=92; b[1]=\'1\'; int n=0; decode_char(b,2,&n); CHECK(n>=1&&n<=2); char* c=new char[3]; c[0]=92;c[1]=c[2]=\'1\'; decode_char(c,3,&n); CHECK(n<=3); delete[] b; delete[] c; return 0; }\n'),
 dict(id='S03',property='C05',flags=F,edits=[('flut/string_tools.cpp','			ofs = s.find_first_not_of( sep_chars.c_str(), ofsend );','			ofs = ofsend == string::npos ? ofsend : s.find_first_not_of( sep_chars.c_str(), ofsend + 1 );\n			if ( ofs == s.size() - 1 && ofs == ofsend + 1 ) break;')],
  needs='a last token of exactly one character right behind a single separator', breaks='a one-character last token is dropped',
  demo=ST+'int main(){ CHECK(split_str("a,bc",",").size()==2); CHECK(split_str(",a,,bc,",",").size()==2); CHECK(split_str("ab;c",";").size()==2); CHECK(split_str("ab;c",";")[1]=="c"); return 0; }\n'),
 dict(id='S04',property='C07',flags=F,edits=[('flut/system/path.cpp','return last_separator_pos() != data_.size() - 1;','return !data_.empty() && data_.back() != preferred_separator();')],
  needs='a path that ends in the other separator (backslash)', breaks='joining a path that already ends in a backslash inserts a second separator, and the path is reported to have a filename',
  demo=ST+'int main(){ CHECK((path("a/")/"b").str()=="a/b"); CHECK((path("")/"b").str()=="b"); path p("a\\\\"); CHECK(!p.has_filename()); CHECK((p/"b").str()=="a\\\\b"); return 0; }\n'),
 dict(id='S05',property='C12',flags='-include vector -include algorithm ',edits=[('flut/circular_deque.hpp','if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + front_, value );','if ( ++size_ > capacity() ) { buffer_.insert( buffer_.begin(), value ); front_ = 0; }')],
  needs='pushing to the front of a full deque whose contents are wrapped around the end of its buffer', breaks='the element is put before the physical start of the buffer instead of before the logical front, so the order of all elements is lost',
  demo='#include "flut/circular_deque.hpp"\n#include <cstdio>\nint main(){ flut::circular_deque<int> d; for(int i=0;i<4;++i) d.push_back(i); d.push_front(-1); for(int i=0;i<5;++i) if(d[i]!=i-1) return 1; d.pop_front(); d.push_back(4); d.push_front(7); int e[]={7,0,1,2,3,4}; if(d.size()!=6) return 2; for(int i=0;i<6;++i) if(d[i]!=e[i]){printf("%d: %d\\n",i,d[i]);return 3;} return 0; }\n'),
 dict(id='S06',property='C16',flags='-include vector -include algorithm ',edits=[('flut/storage.hpp','				if ( frame_size() > 1 ) {','				if ( frame_size() > 1 && channel_size() > 0 && nframes != 2 * frame_size() ) {')],
  needs='growing channels and doubling the number of frames in one resize', breaks='cells of all but the first frame move to other positions when the number of frames doubles while channels are added',
  demo='#include "flut/storage.hpp"\n#include <cstdio>\nint main(){ flut::storage<double> s(2,2); for(int f=0;f<2;++f) for(int c=0;c<2;++c) s(f,c)=10*f+c; s.resize(3,3); for(int f=0;f<2;++f) for(int c=0;c<2;++c) if(s(f,c)!=10*f+c) return 1; s.resize(3,5); flut::storage<double> t(2,1); t(0,0)=1; t(1,0)=2; t.resize(4,2,9); if(t(0,0)!=1||t(1,0)!=2||t(0,1)!=9||t(3,1)!=9) return 2; return 0; }\n'),
 dict(id='S07',property='C27',flags='-Dp=pattern -include map -include functional -include iomanip ',edits=[('flut/prop_node.hpp','			return c->try_get_child_delimited( mid_str( key, p + 1 ), delim );','			return c->try_get_child_delimited( mid_str( key, p + 1 ) );')],
  needs='a path of at least three keys with a delimiter other than the default', breaks='the delimiter is lost below the first level, so nodes two levels down are not found',
  demo='#include "flut/string_tools.cpp"\n#undef p\n#include "flut/prop_node.cpp"\nnamespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }\nusing namespace flut;\nint main(){ prop_node n; n.set_delimited("a/b/c",string("1"),(char)47); n.set_delimited("d.e.f",string("2")); if(!n.try_get_child_delimited("d.e.f")) return 1; const prop_node* c=n.try_get_child_delimited("a/b/c",(char)47); if(!c||c->get_value()!="1") return 2; return 0; }\n'),
 dict(id='S08',property='C30',flags='-include map -include tuple ',edits=[('flut/memoize.hpp','if ( it == mem_.end() ) {','if ( it == mem_.end() || it->second == R() ) {')],
  needs='a function value equal to the default value (zero) for some argument, asked for twice', breaks='the function is called again for arguments whose value is the default value',
  demo='#include "flut/memoize.hpp"\nint calls=0;\nint main(){ flut::memoize<int(int)> m([](int x){ ++calls; return x*x-4; }); m(1); m(1); if(calls!=1) return 1; m(2); m(2); if(m(2)!=0||calls!=2) return 2; return 0; }\n'),
 dict(id='S09',property='C34',flags='-Dp=pattern -include map -include functional -include iomanip -include iostream -include algorithm ',edits=[('flut/prop_node_tools.cpp','					read_prop_node( str, parent.push_back( t ) );','					read_prop_node( str, parent.get_or_add_child( t ) );')],
  needs='two children of a nested node with the same label', breaks='children with a repeated label are merged into the first one when text is read',
  demo='#include "flut/string_tools.cpp"\n#undef p\n#include "flut/prop_node.cpp"\n#include "flut/char_stream.cpp"\n#include "flut/system/path.cpp"\n#include "flut/prop_node_tools.cpp"\nnamespace flut { string load_string( const path&, error_code* ) { return string(); } namespace log { bool test_log_level( level ) { return false; } void log_string( level, const string& ) {} } }\nusing namespace flut;\nint main(){ prop_node a=parse_prop("x = 1\\nx = 2\\ny\\n{\\nk = 1\\nl = 2\\n}\\n"); if(a.size()!=3||a.get_child(2).size()!=2) return 1; prop_node b=parse_prop("y\\n{\\nk = 1\\nk = 2\\n}\\n"); if(b.get_child(index_t(0)).size()!=2) return 2; return 0; }\n'),
 dict(id='S10',property='C35',flags='-Dp=pattern -include map -include functional -include iomanip -include iostream -include algorithm ',edits=[('flut/prop_node_tools.cpp','		if ( pn.has_value() || pn.empty() )\n','		if ( pn.has_value() || ( pn.empty() && level == 0 ) )\n')],
  needs='a nested node without value and children that is not the last child', breaks='an empty nested node is written as a bare label, and the label that follows it is lost when the text is read',
  demo='#include "flut/string_tools.cpp"\n#undef p\n#include "flut/prop_node.cpp"\n#include "flut/char_stream.cpp"\n#include "flut/system/path.cpp"\n#include "flut/prop_node_tools.cpp"\n#include <sstream>\nnamespace flut { string load_string( const path& f, error_code* ) { std::ifstream i(f.str()); std::stringstream s; s<<i.rdbuf(); return s.str(); } namespace log { bool test_log_level( level ) { return false; } void log_string( level, const string& ) {} } }\nusing namespace flut;\nint rt(prop_node& n){ for(int r=0;r<2;++r){ save_prop(n,path("t.prop"),r==1); prop_node m; try { m=load_prop(path("t.prop")); } catch(std::exception&) { return 1; } if(!(m==n)) return 1; } return 0; }\nint main(){ prop_node a; a.push_back("e"); a.push_back("f",string("1")); if(rt(a)) return 1; prop_node b; b.push_back("g",a); if(rt(b)) return 2; return 0; }\n'),
 dict(id='S11',property='C33',flags='-Dp=pattern -include map -include functional -include iomanip ',edits=[('flut/prop_node.hpp','return it != end() ? it->second.access() : default_node; }','return ( it != end() ? it->second : default_node ).access(); }')],
  needs='a lookup with a default node that is given out because the key is absent', breaks='the default node is marked as read although no node of the tree was read',
  demo='#include "flut/string_tools.cpp"\n#undef p\n#include "flut/prop_node.cpp"\nnamespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }\nusing namespace flut;\nint main(){ prop_node n, d; n.push_back("a",string("1")); n.clear_accessed_recursively(); const prop_node& c=n; if(c.try_get_child("a",d).count_unaccessed()!=0) return 1; if(n.count_unaccessed()!=0) return 2; c.try_get_child("b",d); if(d.is_accessed()) return 3; return 0; }\n'),
 dict(id='S12',property='C29',flags='-include iostream -include vector -include algorithm -include string ',edits=[('flut/system/log.cpp','			for ( auto s : global_sinks )\n				if ( s->get_log_level() < lowest_log_level ) lowest_log_level = s->get_log_level();','			if ( !global_sinks.empty() && global_sinks.front()->get_log_level() < lowest_log_level )\n				lowest_log_level = global_sinks.front()->get_log_level();\n			if ( global_sinks.size() > 1 && global_sinks.back()->get_log_level() < lowest_log_level )\n				lowest_log_level = global_sinks.back()->get_log_level();')],
  needs='three sinks of which only the middle one admits the message', breaks='the filter level ignores sinks between the first and the last, so messages for them are dropped before delivery',
  demo='#include "flut/system/log.cpp"\nusing namespace flut;\nstruct S : log::sink { S(log::level l):sink(l){} int n=0; void send_log_message(log::level,const string&){++n;} };\nint main(){ { S a(log::info_level); log::message(log::info_level,string("x")); if(a.n!=1) return 1; S b(log::trace_level); log::message(log::trace_level,string("y")); if(b.n!=1) return 2; S c(log::error_level); log::message(log::trace_level,string("z")); if(b.n!=2) return 3; } return 0; }\n'),
 dict(id='S13',property='C22',flags='-include cstddef ',edits=[('flut/math/regular_piecewise_linear_function.hpp','clamp( xlb, 0, points - 2 );','clamp( xlb, 0, points - 1 - ( x_idx > xlb ? 1 : 0 ) );')],
  needs='an argument exactly at the upper end of the domain or far below it', breaks='at the upper end the interpolation reads one value behind its table',
  demo='#include "flut/math/regular_piecewise_linear_function.hpp"\n#include <cstdlib>\nint main(){ flut::math::regular_piecewise_linear_function<double> f(0,2,2,[](double x){return 3*x+1;}); if(f(0.5)!=2.5||f(1)!=4||f(3)!=10) return 1; double y=f(2); return y==7?0:2; }\n'),
 dict(id='S14',property='C20',flags='-include map -include functional -Dp=p ',edits=[('flut/math/transform.hpp','transform_<T> inverse() const { auto iq = -q; return transform_<T>( iq * -p, iq ); }','transform_<T> inverse() const { auto iq = -q; return transform_<T>( q * -p, iq ); }')],
  needs='a transform with both a rotation (other than half turns) and an offset', breaks='the inverse of a transform does not undo it',
  demo='#include "flut/math/transform.hpp"\nusing namespace flut; using namespace flut::math;\nint main(){ transformd t; t.p=vec3d(1,2,3); t.q=quatd(0.8,0.6,0,0); transformd i=t.inverse(); vec3d v(4,5,6); vec3d w=i*(t*v); if(std::abs(w.x-4)+std::abs(w.y-5)+std::abs(w.z-6)>1e-9) return 1; transformd u; u.p=vec3d(1,2,3); u.q=quatd(1,0,0,0); w=u.inverse()*(u*v); return std::abs(w.x-4)+std::abs(w.y-5)>1e-9; }\n'),
 dict(id='S15',property='C17',flags='-include vector -include algorithm -include iostream ',edits=[('flut/table.hpp','for ( index_t ci = cols; ci-- > 0; )','for ( index_t ci = 0; ci < cols; ++ci )')],
  needs='a resize that adds columns to a table with at least two rows and more columns than are added times the row number', breaks='cells of later rows are overwritten by earlier cells of the same row before they are moved',
  demo='#include "flut/table.hpp"\nusing namespace flut;\nint main(){ table<double> t; for(int c=0;c<4;++c) t("a",string(1,char(\'p\'+c)))=c; for(int c=0;c<4;++c) t("b",string(1,char(\'p\'+c)))=10+c; t.add_column("z",7); for(int c=0;c<4;++c) if(t(0,c)!=c||t(1,c)!=10+c) return 1; return t(0,4)==7&&t(1,4)==7?0:2; }\n'),
 dict(id='S16',property='C13',flags='-include vector -include algorithm -include cstddef -include iostream ',edits=[('flut/container_tools.hpp','if ( s % 2 == 1 ) return v[ s / 2 ];','if ( s % 2 == 1 || v[ s / 2 - 1 ] == v.front() ) return v[ s / 2 ];')],
  needs='an even number of elements whose lower half is constant', breaks='the median of an even number of elements is the upper middle element when the lower half is constant',
  demo='#include "flut/container_tools.hpp"\nusing namespace flut;\nint main(){ if(median(std::vector<double>{4,1,3,2})!=2.5) return 1; if(median(std::vector<double>{5,1,2})!=2) return 2; if(median(std::vector<double>{3,1})!=2) return 3; return 0; }\n'),
 dict(id='S17',property='C36',flags='-include map -include functional -include algorithm -include iomanip -include iostream ',edits=[('flut/stopwatch.cpp','measures_.push_back( make_pair( s, now - epoch_ ) );','measures_.push_back( make_pair( s, timer_.seconds() - epoch_ ) );')],
  needs='a clock that advances between two readings during the first measure of a tag', breaks='the time between two readings is booked both under the new tag and as internal time, so the times add up to more than what has passed',
  demo='#include <chrono>\nstatic long long t = 0;\nstruct fake { typedef long long rep; typedef std::nano period; typedef std::chrono::duration<rep,period> duration; typedef std::chrono::time_point<fake> time_point; static const bool is_steady=true; static time_point now(){ return time_point(duration(t+=1000000000LL)); } };\nnamespace std { namespace chrono { typedef ::fake fake_t; } }\n#define high_resolution_clock fake_t\n#include "flut/timer.hpp"\n#undef high_resolution_clock\n#define p pattern\n#include "flut/string_tools.cpp"\n#include "flut/prop_node.cpp"\n#undef p\n#include "flut/stopwatch.cpp"\nnamespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }\nint main(){ flut::stopwatch w; long long from=t; w.add_measure("a"); w.add_measure("b"); w.add_measure("a"); double want=(t-from)*1e-9, sum=0; auto r=w.get_report(); for(size_t i=0;i<r.size();++i) sum+=std::stod(r.get_child(i).get_value()); return sum>want-0.01&&sum<want+0.01?0:1; }\n'),
 dict(id='S18',property='C31',flags='-include map -include functional -include algorithm -include iomanip -include iostream ',edits=[('flut/prop_node.cpp','get_align_width( child.second, depth + 1 ) );','get_align_width( child.second, depth ) );')],
  needs='a tree whose widest indented key lies below the first level', breaks='the equals signs of a written tree are no longer aligned when the widest key is a nested one',
  demo='#define p pattern\n#include "flut/string_tools.cpp"\n#include "flut/prop_node.cpp"\n#undef p\nnamespace flut { prop_node parse_prop( const char*, error_code* ) { return prop_node(); } }\n#include <sstream>\nint main(){ flut::prop_node n; n.push_back("a",std::string("1")); n.push_back("b").push_back("key",std::string("2")); std::ostringstream s; s<<n; return s.str()=="a     = 1\\nb    \\n  key = 2\\n"?0:1; }\n'),
 dict(id='S19',property='C24',flags='',edits=[('flut/flag_set.hpp','template< EnumT index > flag_set& set( bool value ) { data = ( data & ~storage_bit( index ) ) | storage_bit( index, value );','template< EnumT index > flag_set& set( bool value ) { data = data | storage_bit( index, value );')],
  needs='assigning false through the template form to a flag that is set', breaks='a flag given as template argument cannot be assigned false',
  demo='#include "flut/flag_set.hpp"\nenum class e { a, b, c };\nint main(){ flut::flag_set<e> f; f.set<e::b>(true); f.set(e::c); f.set<e::b>(false); return f.get(e::b)||!f.get(e::c)||f.get(e::a); }\n'),
 dict(id='S20',property='C18',flags='-include vector -include algorithm -include iostream ',edits=[('flut/buffer/circular_frame_buffer.hpp','T& reverse( index_t frame, index_t channel ) { return data( ( frame_size_ - frame - 1 ) % frame_buf_size_, channel ); }\n		const','T& reverse( index_t frame, index_t channel ) { return data( ( ( frame_size_ - 1 ) % frame_buf_size_ - frame ) % frame_buf_size_, channel ); }\n		const')],
  needs='a buffer whose number of frames is not a power of two, after it has wrapped, and a frame further back than the last wrap', breaks='looking frames back across the end of the buffer gives the wrong frame unless the number of buffered frames is a power of two',
  demo='#include "flut/buffer/circular_frame_buffer.hpp"\nusing namespace flut;\nint main(){ circular_frame_buffer<double,string> b(1,3); b.set_label(0,"x"); for(int i=0;i<8;++i){ b.add_frame(); b[0]=i; for(int k=0;k<3&&k<=i;++k) if(b.reverse(k,0)!=i-k) return 1; } return 0; }\n'),
 dict(id='S21',property='C28',flags='-include map -include functional -include algorithm -include iomanip -include iostream ',edits=[('flut/prop_node_tools.cpp','			else if ( overwrite )\n				it->second','			else if ( overwrite && o.second.has_value() )\n				it->second')],
  needs='merging with overwrite where the overwriting node has children but no value', breaks='a node with children but no value of its own does not replace the existing one although overwriting is asked for',
  demo='#define p pattern\n#include "flut/string_tools.cpp"\n#include "flut/prop_node.cpp"\n#include "flut/char_stream.cpp"\n#include "flut/system/path.cpp"\n#include "flut/prop_node_tools.cpp"\n#undef p\nnamespace flut { string load_string( const path&, error_code* ) { return string(); } namespace log { bool test_log_level( level ) { return false; } void log_string( level, const string& ) {} } }\nint main(){ flut::prop_node a,b; a.push_back("k",std::string("1")); b.push_back("k").push_back("c",std::string("2")); flut::merge_prop_nodes(a,b,true); return a.get_child("k").has_key("c")&&!a.get_child("k").has_value()?0:1; }\n'),
 dict(id='S22',property='C22',flags='-include vector -include algorithm -include iostream ',edits=[('flut/math/regular_piecewise_linear_function.hpp','clamp( xlb, 0, points - 2 );','clamp( xlb, 0, points - 1 );')],
  needs='evaluation beyond the upper end of the range', breaks='beyond its range the function does not continue its last segment but reads behind its last point',
  demo='#include "flut/math/regular_piecewise_linear_function.hpp"\nint main(){ flut::math::regular_piecewise_linear_function<double> f(0.,4.,4,[](double x){return 2*x+1;}); double xs[]={-1,0,.5,2.25,4,4.5,6}; for(double x:xs) { double d=f(x)-(2*x+1); if(!(d<1e-9&&d>-1e-9)) return 1; } return 0; }\n'),
 dict(id='S23',property='C37',flags='-Dp=pattern -include map -include functional -include limits -include iomanip ',edits=[('flut/factory.hpp','{ func_map_[ name ] = [](','{ auto& func = func_map_[ name ]; if ( !func ) func = [](')],
  needs='a name that is registered a second time, with another class', breaks='the second registration of a name is silently ignored: the factory keeps creating the class registered first',
  demo='#include <string>\n#include <algorithm>\n#include "flut/string_tools.hpp"\n#include "flut/system_tools.hpp"\n#include "flut/factory.hpp"\nnamespace flut { string clean_type_name( const char* n ) { return n; } }\nstruct B{ int v; B(int i):v(i){} virtual ~B(){} };\nstruct D1:B{ D1(int i):B(i){} };\nstruct D2:B{ D2(int i):B(-i){} };\nint main(){ flut::factory<B,int> f; f.register_class<D1>("a"); f.register_class<D1>("b"); if(f.create("a",3)->v!=3) return 1; f.register_class<D2>("a"); if(f.create("a",3)->v!=-3) return 2; if(f.create("b",3)->v!=3) return 3; return f.try_create("c",1)?4:0; }\n'),
 dict(id='S24',property='C38',flags='-Dp=pattern -include map -include functional -include limits -include iomanip -include ctime -include cxxabi.h ',edits=[('flut/system_tools.cpp','size_t pos = id.find_last_of( \':\' );','size_t pos = id.find( "::" );'),('flut/system_tools.cpp','return trim_str( id.substr( pos + 1 ), "_" ); // remove','return trim_str( id.substr( pos + 2 ), "_" ); // remove')],
  needs='a name with more than one qualification (a::b::c_)', breaks='the property name made from a doubly qualified variable keeps a qualification and contains colons',
  demo='#include "flut/string_tools.cpp"\n#include "flut/system/path.cpp"\n#include "flut/system/log.cpp"\n#include "flut/system_tools.cpp"\nint main(){ using flut::tidy_identifier; if(tidy_identifier("a::b_")!="b") return 1; if(tidy_identifier("m_value_")!="value") return 2; if(tidy_identifier("_x_")!="x") return 3; return tidy_identifier("a::b::c_")=="c"?0:4; }\n'),
 dict(id='S25',property='C39',flags='-Dp=pattern -include map -include functional -include limits -include iomanip ',edits=[('flut/math/optional.hpp','char_stream& operator>>( char_stream& str, optional< T >& v )\n	{ T tmp; str >> tmp; if ( !str.fail() ) v = tmp; return str; }','char_stream& operator>>( char_stream& str, optional< T >& v )\n	{ T tmp; str >> tmp; v = str.fail() ? optional< T >() : optional< T >( tmp ); return str; }')],
  needs='an optional that has a value and is read from a text that holds none', breaks='a failed read takes away the value (a default, say) that the optional had before',
  demo='#include "flut/string_tools.cpp"\n#undef p\n#include "flut/system/path.cpp"\n#include "flut/char_stream.cpp"\n#include "flut/math/math.hpp"\n#include "flut/math/optional.hpp"\nnamespace flut { string load_string( const path&, error_code* ) { return string(); } }\nint main(){ using namespace flut; optional<int> o; if(o) return 1; { char_stream s("12 x"); s>>o; if(!o||*o!=12) return 2; s>>o; if(!s.fail()) return 3; if(!o||*o!=12) return 4; } return 0; }\n'),
]
