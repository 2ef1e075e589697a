// C06 (values): hash_append and friends inside the constant evaluator, replayed at run time and on
// the message model. C++14 to C++20.
#define HARNESS_MAIN
#include "common.hpp"
#include "values.hpp"
#include "algos.hpp"
#include <limits>
#if __cplusplus >= 201703L
# include <string_view>
#endif
#if defined(__cpp_lib_constexpr_vector) && __cplusplus >= 202002L
# define CXVEC 1
#endif
#if defined(__cpp_lib_constexpr_string) && __cpp_lib_constexpr_string >= 201907L && __cplusplus >= 202002L
# define CXSTR 1
#endif
typedef unsigned char u8; typedef std::uint64_t u64;

// recording algorithm usable in constant expressions
struct crec
{
    typedef u64 result_type; u8 m[ 512 ]; int n; bool over;
    constexpr crec(): m(), n( 0 ), over( false ) {} explicit constexpr crec( u64 s ): m(), n( 0 ), over( false ) { for( int i = 0; s && i < 8; ++i ) put( (u8)( s >> 8*i ) ); } constexpr crec( u8 const* p, std::size_t k ): m(), n( 0 ), over( false ) { update( p, k ); }
    constexpr void put( u8 c ) { if( n < 512 ) m[ n++ ] = c; else over = true; }
    void update( void const* p, std::size_t k ) { update( (u8 const*)p, k ); }
    constexpr void update( u8 const* p, std::size_t k ) { for( std::size_t i = 0; i < k; ++i ) put( p[i] ); }
    constexpr result_type result() { u64 a = 0x9E3779B97F4A7C15ull; for( int i = 0; i < n; ++i ) { a ^= m[i]; a *= 0xBF58476D1CE4E5B9ull; a ^= a >> 31; } put( 0x5A ); return a; }
};
struct Lib
{
    template<class H, class F, class T> static constexpr void app( H& h, F const& f, T const& v ) { hh::hash_append( h, f, v ); }
    template<class H, class F, class I> static constexpr void range( H& h, F const& f, I a, I b ) { hh::hash_append_range( h, f, a, b ); }
    template<class H, class F, class I> static constexpr void sized( H& h, F const& f, I a, I b ) { hh::hash_append_sized_range( h, f, a, b ); }
    template<class H, class F, class I> static constexpr void unord( H& h, F const& f, I a, I b ) { hh::hash_append_unordered_range( h, f, a, b ); }
    template<class H, class F> static constexpr void size( H& h, F const& f, std::size_t n ) { hh::hash_append_size( h, f, n ); }
};
struct Mod
{
    template<class H, class F, class T> static void app( H& h, F const&, T const& v ) { sp::app<F>( h, v ); }
    template<class H, class F, class I> static std::size_t elems( H& h, F const&, I a, I b ) { std::size_t n = 0; for( ; a != b; ++a, ++n ) { typename std::iterator_traits<I>::value_type const v = *a; sp::app<F>( h, v ); } return n; }
    template<class H, class F, class I> static void range( H& h, F const& f, I a, I b ) { elems( h, f, a, b ); }
    template<class H, class F, class I> static void sized( H& h, F const& f, I a, I b ) { sp::size<F>( h, elems( h, f, a, b ) ); }
    template<class H, class F, class I> static void unord( H& h, F const&, I a, I b ) { sp::unordered<typename std::iterator_traits<I>::value_type, F>( h, a, b ); }
    template<class H, class F> static void size( H& h, F const&, std::size_t n ) { sp::size<F>( h, n ); }
};
template<class C, class X, class H, class F> constexpr H drive() { H h( (u64)3 ); C::template go<X>( h, F() ); return h; }
// real algorithms: results only
template<class C, class X, class H, class F> constexpr typename H::result_type res() { H h( (u64)3 ); C::template go<X>( h, F() ); return h.result(); }

static std::string txt( crec const& c ) { return hz::hex( c.m, c.n ); }
template<class C, class F> void one( char const* name, char const* fn )
{
    constexpr crec ct = drive<C, Lib, crec, F>();
    hz::cur( "%s %s", name, fn ); hz::states(); hz::trans( 3 ); hz::traces();
    crec rt = drive<C, Lib, crec, F>(); crec md = drive<C, Mod, crec, F>();
    if( ct.over || ct.n != rt.n || std::memcmp( ct.m, rt.m, ct.n ) ) hz::viol( "runtime", "%s flavor %s: message at compile time %s, at run time %s", name, fn, txt( ct ).c_str(), txt( rt ).c_str() );
    if( ct.n != md.n || std::memcmp( ct.m, md.m, ct.n ) ) hz::viol( "model", "%s flavor %s: message at compile time %s, documented %s", name, fn, txt( ct ).c_str(), txt( md ).c_str() );
}
template<class C, class H> void algo( char const* name, char const* an )
{
    constexpr typename H::result_type ct = res<C, Lib, H, hh::big_endian_flavor>(), cn = res<C, Lib, H, hh::default_flavor>(); hz::states( 2 ); hz::trans( 4 ); hz::traces( 2 );
    if( ct != res<C, Lib, H, hh::big_endian_flavor>() || ct != res<C, Mod, H, hh::big_endian_flavor>() || cn != res<C, Lib, H, hh::default_flavor>() || cn != res<C, Mod, H, hh::default_flavor>() ) hz::viol( "algorithm", "%s with %s: results at compile time and run time differ", name, an );
}
template<class C> void all( char const* name )
{
    one<C, hh::default_flavor>( name, "default" ); one<C, hh::little_endian_flavor>( name, "little" ); one<C, hh::big_endian_flavor>( name, "big" ); one<C, sp::be32>( name, "be32" ); one<C, sp::ne32>( name, "ne32" );
    algo<C, hh::fnv1a_32>( name, "fnv1a_32" ); algo<C, hh::xxhash_64>( name, "xxhash_64" ); algo<C, hh::siphash_32>( name, "siphash_32" ); algo<C, hh::ripemd_128>( name, "ripemd_128" ); algo<C, hh::hmac_md5_128>( name, "hmac_md5_128" );
}
#define CX(name,...) struct cx_##name { template<class X, class H, class F> static constexpr void go( H& h, F const& f ) { (void)f; __VA_ARGS__ } }; UNIT( name ) { all<cx_##name>( #name ); }
#define AP(...) X::app( h, f, __VA_ARGS__ );

enum class ec: short { a = -3 }; enum eu: std::uint32_t { eu1 = 0x01020304 };
struct hk { u8 a; std::uint16_t b; template<class H, class F> friend constexpr void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, hk const& v ) { hh::hash_append( h, f, v.b ); hh::hash_append( h, f, v.a ); } };
struct hb { int v[ 3 ]; int n; template<class H, class F> friend constexpr void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, hb const& v ) { hh::hash_append_range( h, f, v.v + 0, v.v + v.n ); hh::hash_append_size( h, f, v.n ); } };
struct tc { u8 v; template<class H, class F> friend constexpr void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, tc const& x ) { hh::hash_append( h, f, x.v ); } }; // declared trivially comparable
namespace boost { namespace hash2 { template<> struct is_trivially_equality_comparable<tc>: std::true_type {}; } }
namespace sp {
template<> struct S<hk, void> { template<class F, class H> static void app( H& h, hk const& v ) { num<F>( h, v.b, 2 ); num<F>( h, v.a, 1 ); } };
template<> struct S<hb, void> { template<class F, class H> static void app( H& h, hb const& v ) { for( int i = 0; i < v.n; ++i ) num<F>( h, (unsigned)v.v[i], 4 ); size<F>( h, v.n ); } };
template<> struct S<tc, void> { template<class F, class H> static void app( H& h, tc const& v ) { num<F>( h, v.v, 1 ); } };
}
// constexpr class iterator, forward only
template<class T> struct ci { typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference; T const* p; constexpr T const& operator*() const { return *p; } constexpr ci& operator++() { ++p; return *this; } constexpr ci operator++( int ) { ci r = *this; ++p; return r; } friend constexpr bool operator==( ci a, ci b ) { return a.p == b.p; } friend constexpr bool operator!=( ci a, ci b ) { return a.p != b.p; } };
template<class T> struct pi { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef T reference; T const* p; constexpr T operator*() const { return *p; } constexpr pi& operator++() { ++p; return *this; } constexpr pi operator++( int ) { pi r = *this; ++p; return r; } friend constexpr bool operator==( pi a, pi b ) { return a.p == b.p; } friend constexpr bool operator!=( pi a, pi b ) { return a.p != b.p; } };
// a constexpr range class (sequence with size)
template<class T, int N> struct rg { T v[ N ]; typedef ci<T> iterator; typedef ci<T> const_iterator; constexpr ci<T> begin() const { return ci<T>{ v }; } constexpr ci<T> end() const { return ci<T>{ v + N }; } };
template<class T, int N> struct cr { T v[ N ]; typedef T value_type; typedef T const* iterator; typedef T const* const_iterator; constexpr T const* begin() const { return v; } constexpr T const* end() const { return v + N; } constexpr T const* data() const { return v; } constexpr std::size_t size() const { return N; } };
namespace sp { template<class T, int N> struct S<rg<T, N>, void> { template<class F, class H> static void app( H& h, rg<T, N> const& v ) { S<T[N]>::template app<F>( h, v.v ); size<F>( h, N ); } }; template<class T, int N> struct S<cr<T, N>, void> { template<class F, class H> static void app( H& h, cr<T, N> const& v ) { S<T[N]>::template app<F>( h, v.v ); size<F>( h, N ); } }; }

CX( integers, AP( (u8)200 ) AP( (signed char)-2 ) AP( 'a' ) AP( (short)-300 ) AP( (std::uint16_t)0xABCD ) AP( 0x01020304 ) AP( -5 ) AP( 0x89ABCDEFu ) AP( 0x0123456789ABCDEFl ) AP( -2l ) AP( 0xFEDCBA9876543210ull ) AP( -9ll ) )
CX( chars, AP( '\xFF' ) AP( L'\x1234' ) AP( u'\x89AB' ) AP( U'\x12345' ) AP( true ) AP( false ) )
#if defined(__cpp_char8_t)
CX( char8, AP( u8'a' ) char8_t v[ 3 ] = { u8'x', u8'y', (char8_t)200 }; AP( v ) )
#endif
CX( extremes, AP( std::numeric_limits<int>::min() ) AP( std::numeric_limits<long long>::min() ) AP( std::numeric_limits<unsigned>::max() ) AP( std::numeric_limits<signed char>::min() ) AP( std::numeric_limits<short>::max() ) AP( std::numeric_limits<u64>::max() ) )
CX( enums, AP( ec::a ) AP( eu1 ) AP( (ec)0x1234 ) ec v[ 2 ] = { ec::a, (ec)7 }; AP( v ) eu w[ 2 ] = { eu1, (eu)9 }; AP( w ) )
typedef std::numeric_limits<float> lf; typedef std::numeric_limits<double> ld;
CX( floats, AP( 0.0f ) AP( -0.0f ) AP( 1.5f ) AP( -3.25f ) AP( lf::infinity() ) AP( -lf::infinity() ) AP( lf::quiet_NaN() ) AP( lf::denorm_min() ) AP( lf::min() ) AP( lf::max() ) AP( lf::lowest() ) AP( 3.14f ) AP( -lf::denorm_min() ) )
CX( doubles, AP( 0.0 ) AP( -0.0 ) AP( 1.5 ) AP( -3.25 ) AP( ld::infinity() ) AP( -ld::infinity() ) AP( ld::quiet_NaN() ) AP( ld::denorm_min() ) AP( ld::min() ) AP( ld::max() ) AP( ld::lowest() ) AP( 3.14 ) AP( 1e-310 ) AP( -ld::denorm_min() ) )
CX( array_u8, u8 v[ 5 ] = { 1, 2, 200, 0, 5 }; AP( v ) u8 w[ 1 ] = { 9 }; AP( w ) )
CX( array_char, AP( "abc" ) AP( "" ) char v[ 3 ] = { 'x', '\x80', 0 }; AP( v ) signed char s[ 2 ] = { -1, 1 }; AP( s ) )
CX( array_bool, bool v[ 4 ] = { true, false, true, true }; AP( v ) )
CX( array_u16, std::uint16_t v[ 4 ] = { 0x0102, 0xFFFE, 0, 5 }; AP( v ) std::uint16_t const c[ 2 ] = { 77, 0x8081 }; AP( c ) )
CX( array_int, int v[ 3 ] = { -1, 0x01020304, 7 }; AP( v ) int m[ 2 ][ 3 ] = { { 1, 2, 3 }, { -4, 5, 0x600 } }; AP( m ) int d[ 2 ][ 1 ][ 2 ] = { { { 1, 2 } }, { { 3, 4 } } }; AP( d ) )
CX( array_u64, u64 v[ 2 ] = { 0x0102030405060708ull, 9 }; AP( v ) u64 const c[ 1 ] = { 5 }; AP( c ) )
CX( array_float, float v[ 3 ] = { 1.0f, -0.0f, 2.5f }; AP( v ) double w[ 2 ] = { -0.0, 3.5 }; AP( w ) float m[ 2 ][ 2 ] = { { 1, 2 }, { -0.0f, 4 } }; AP( m ) )
CX( array_wide, AP( L"ab" ) AP( u"\x1234z" ) AP( U"q" ) )
CX( array_hook, hk v[ 2 ] = { { 1, 2 }, { 3, 0x0405 } }; AP( v ) tc t[ 3 ] = { { 1 }, { 2 }, { 3 } }; AP( t ) AP( t[1] ) )
CX( array_pair, std::pair<u8, int> v[ 2 ] = { { 1, 2 }, { 3, 4 } }; AP( v ) )
CX( hooks, AP( hk{ 7, 0x1234 } ) AP( hb{ { 1, 2, 3 }, 0 } ) AP( hb{ { 1, 2, 3 }, 3 } ) )
CX( pairs, AP( std::pair<u8, short>( 1, -2 ) ) AP( std::make_pair( 1.5f, true ) ) AP( std::make_pair( std::make_pair( 1, 2 ), 'c' ) ) )
CX( tuples, AP( std::tuple<>() ) AP( std::make_tuple( 1 ) ) AP( std::make_tuple( 1, 'b', -0.0, ec::a ) ) AP( std::make_tuple( std::make_tuple( (u8)1, hk{ 1, 2 } ), std::make_pair( 3, 4 ) ) ) )
CX( digests, u8 v[ 4 ] = { 9, 8, 7, 255 }; AP( hh::digest<4>( v ) ) hh::digest<16> d{}; AP( d ) hh::digest<4> a[ 2 ] = { hh::digest<4>( v ), hh::digest<4>() }; AP( a ) )
CX( digest_of_result, hh::md5_128 g; u8 v[ 3 ] = { 1, 2, 3 }; g.update( v, 3 ); AP( g.result() ) hh::hmac_sha1_160 k( v, 3 ); AP( k.result() ) )
CX( std_array, std::array<u8, 3> a = { { 1, 2, 3 } }; AP( a ) std::array<int, 2> b = { { -1, 0x01020304 } }; AP( b ) std::array<double, 2> d = { { -0.0, 1 } }; AP( d ) std::array<std::array<short, 2>, 2> e = { { { { 1, 2 } }, { { 3, 4 } } } }; AP( e ) std::array<bool, 3> c = { { true, false, true } }; AP( c ) )
CX( boost_array, boost::array<u8, 3> a = { { 1, 2, 3 } }; AP( a ) boost::array<int, 2> b = { { -1, 0x01020304 } }; AP( b ) boost::array<float, 2> d = { { -0.0f, 1 } }; AP( d ) )
CX( std_array0, std::array<int, 0> z = {}; AP( z ) )
CX( init_list, std::initializer_list<int> l = { 1, -2, 0x01020304 }; AP( l ) std::initializer_list<u8> m = { 1, 2 }; AP( m ) )
CX( user_ranges, rg<int, 3> a = { { 1, 2, 3 } }; AP( a ) cr<int, 3> b = { { 1, -2, 3 } }; AP( b ) cr<u8, 4> c = { { 1, 2, 3, 4 } }; AP( c ) cr<float, 2> d = { { -0.0f, 1 } }; AP( d ) rg<hk, 2> e = { { { 1, 2 }, { 3, 4 } } }; AP( e ) cr<cr<u8, 2>, 2> g = { { { { 1, 2 } }, { { 3, 4 } } } }; AP( g ) )
CX( ranges_u8, u8 v[ 4 ] = { 1, 2, 3, 4 }; X::range( h, f, v + 0, v + 4 ); X::range( h, f, v + 1, v + 1 ); u8 const* p = v; X::range( h, f, p, p + 2 ); X::sized( h, f, v + 0, v + 3 ); X::sized( h, f, p, p ); X::unord( h, f, v + 0, v + 4 ); X::unord( h, f, p, p ); )
CX( ranges_int, int v[ 4 ] = { 1, -2, 0x01020304, 4 }; X::range( h, f, v + 0, v + 4 ); int const* p = v; X::range( h, f, p, p + 2 ); X::sized( h, f, v + 0, v + 3 ); X::sized( h, f, p + 1, p + 1 ); X::unord( h, f, v + 0, v + 4 ); X::unord( h, f, p, p + 1 ); )
CX( ranges_float, float v[ 3 ] = { 1, -0.0f, 3 }; X::range( h, f, v + 0, v + 3 ); double d[ 3 ] = { 1, -0.0, 3 }; X::sized( h, f, d + 0, d + 3 ); X::unord( h, f, v + 0, v + 3 ); )
CX( ranges_class, int v[ 3 ] = { 1, -2, 3 }; X::range( h, f, ci<int>{ v }, ci<int>{ v + 3 } ); X::sized( h, f, ci<int>{ v }, ci<int>{ v + 2 } ); X::sized( h, f, pi<int>{ v }, pi<int>{ v + 3 } ); X::unord( h, f, ci<int>{ v }, ci<int>{ v + 3 } ); u8 w[ 2 ] = { 5, 6 }; X::range( h, f, pi<u8>{ w }, pi<u8>{ w + 2 } ); X::sized( h, f, ci<u8>{ w }, ci<u8>{ w + 2 } ); X::unord( h, f, pi<u8>{ w }, pi<u8>{ w + 2 } ); )
CX( ranges_hook, hk v[ 2 ] = { { 1, 2 }, { 3, 4 } }; X::range( h, f, v + 0, v + 2 ); X::sized( h, f, v + 0, v + 2 ); X::unord( h, f, v + 0, v + 2 ); tc t[ 3 ] = { { 1 }, { 2 }, { 200 } }; X::range( h, f, t + 0, t + 3 ); X::sized( h, f, t + 0, t + 3 ); )
CX( sizes, X::size( h, f, 0 ); X::size( h, f, 5 ); X::size( h, f, 0x89ABCDEF ); )
CX( interleaved, AP( 1 ) u8 v[ 70 ] = {}; for( int i = 0; i < 70; ++i ) v[i] = (u8)i; AP( v ) h.update( v, 70 ); AP( (u8)3 ) h.update( v + 3, 0 ); AP( "x" ) )
CX( through_copy, AP( 1 ) H g( h ); X::app( g, f, 2 ); h = g; AP( 3 ) (void)h.result(); AP( 4 ) )
#if __cplusplus >= 201703L
CX( views, AP( std::string_view( "hello" ) ) AP( std::string_view() ) AP( std::u16string_view( u"h\x1234" ) ) AP( std::u32string_view( U"xy" ) ) AP( std::wstring_view( L"w" ) ) AP( std::make_pair( std::string_view( "a" ), std::string_view( "bc" ) ) ) std::string_view a[ 2 ] = { "x", "" }; AP( a ) )
CX( reverse, int v[ 3 ] = { 1, -2, 3 }; std::array<int, 3> a = { { 4, 5, 6 } }; X::range( h, f, a.rbegin(), a.rend() ); X::sized( h, f, std::make_reverse_iterator( v + 3 ), std::make_reverse_iterator( v + 0 ) ); X::sized( h, f, a.begin(), a.end() ); X::unord( h, f, a.rbegin(), a.rend() ); )
struct d0 {}; BOOST_DESCRIBE_STRUCT( d0, (), () )
struct d1 { u8 a; int b; std::array<short, 2> c; }; BOOST_DESCRIBE_STRUCT( d1, (), (a, b, c) )
class d2: public d1, private d0 { double x; ec e; int arr[ 2 ]; bool t; public: constexpr d2( u8 p ): d1{ p, 2, { { 3, 4 } } }, x( -0.0 ), e( ec::a ), arr{ 5, -6 }, t( true ) {} BOOST_DESCRIBE_CLASS( d2, (d1, d0), (), (arr), (x, e, t) ) };
struct d3: d2 { std::pair<u8, hk> q; std::tuple<> z; d1 m; constexpr d3(): d2( 9 ), q( 1, hk{ 2, 3 } ), z(), m{ 7, 8, { { 9, 10 } } } {} }; BOOST_DESCRIBE_STRUCT( d3, (d2), (q, z, m) )
namespace sp {
template<> struct S<d0, void> { template<class F, class H> static void app( H& h, d0 const& ) { zero( h ); } };
template<> struct S<d1, void> { template<class F, class H> static void app( H& h, d1 const& v ) { num<F>( h, v.a, 1 ); num<F>( h, (unsigned)v.b, 4 ); num<F>( h, (unsigned short)v.c[0], 2 ); num<F>( h, (unsigned short)v.c[1], 2 ); } };
template<> struct S<d2, void> { template<class F, class H> static void app( H& h, d2 const& v ) { S<d1>::app<F>( h, v ); zero( h ); num<F>( h, 5, 4 ); num<F>( h, (unsigned)-6, 4 ); num<F>( h, 0, 8 ); num<F>( h, (unsigned short)-3, 2 ); num<F>( h, 1, 1 ); } };
template<> struct S<d3, void> { template<class F, class H> static void app( H& h, d3 const& v ) { S<d2>::app<F>( h, v ); num<F>( h, 1, 1 ); num<F>( h, 3, 2 ); num<F>( h, 2, 1 ); zero( h ); S<d1>::app<F>( h, v.m ); } };
}
CX( described, AP( d0() ) AP( d1{ 1, -2, { { 3, -4 } } } ) AP( d2( 200 ) ) AP( d3() ) d1 v[ 2 ] = { { 1, 2, { { 3, 4 } } }, { 5, 6, { { 7, 8 } } } }; AP( v ) AP( std::make_pair( d0(), d1{ 9, 9, { { 9, 9 } } } ) ) )
#endif
#ifdef CXVEC
CX( vectors, std::vector<u8> a = { 1, 2, 3 }; AP( a ) std::vector<u8> z; AP( z ) std::vector<int> b = { -1, 0x01020304 }; AP( b ) std::vector<double> d = { -0.0, 1 }; AP( d ) std::vector<std::vector<short>> e = { { 1 }, {}, { 2, 3 } }; AP( e ) std::vector<std::tuple<>> t( 2 ); AP( t ) std::vector<hk> k = { { 1, 2 } }; AP( k ) X::range( h, f, b.begin(), b.end() ); X::sized( h, f, a.cbegin(), a.cend() ); X::unord( h, f, b.begin(), b.end() ); std::vector<tc> c = { { 1 }, { 2 } }; AP( c ) )
CX( vector_bool, std::vector<bool> b = { true, false, true }; AP( b ) X::range( h, f, b.begin(), b.end() ); X::sized( h, f, b.begin(), b.end() ); X::unord( h, f, b.begin(), b.end() ); )
#endif
#ifdef CXSTR
CX( strings, std::string s = "hello, a string longer than the small buffer"; AP( s ) std::string z; AP( z ) std::u16string u = u"\x1234z"; AP( u ) std::vector<std::string> v = { "a", "", "bc" }; AP( v ) X::range( h, f, s.begin(), s.end() ); )
#endif
