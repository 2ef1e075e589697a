// C19: one line "case: value" per enumerated case, to be compared between configurations.
//   -DMODEL  expected values, from the reference models   -DBARE  no C library (bare.hpp)   -DPART=1,2,3
#include "algos.hpp"
#include "spec.hpp"
#include "iters.hpp"
#include <boost/describe.hpp>
#ifdef BARE
# include "bare.hpp"
#else
# include <cstdio>
static void out( char const* p, std::size_t n ) { fwrite( p, 1, n, stdout ); }
#endif
#ifndef SPAN
# define SPAN(b) ( 2*(b) + 9 )
#endif
typedef unsigned char u8;
static void puts_( char const* s ) { std::size_t n = 0; while( s[n] ) ++n; out( s, n ); }
static void num( unsigned long long x ) { char b[ 24 ]; int i = 24; do b[ --i ] = (char)( '0' + x % 10 ); while( x /= 10 ); out( b + i, 24 - i ); }
static void hexs( u8 const* p, std::size_t n ) { char b[ 256 ]; std::size_t k = 0; for( std::size_t i = 0; i < n; ++i ) { b[ k++ ] = "0123456789abcdef"[ p[i] >> 4 ]; b[ k++ ] = "0123456789abcdef"[ p[i] & 15 ]; if( k == 256 ) { out( b, k ); k = 0; } } out( b, k ); }
template<class R> static void show( R const& r ) { ref::res x = to_res( r ); hexs( x.b, x.n ); }
static void show( ref::res const& x ) { hexs( x.b, x.n ); }

#if PART == 1 || !defined(PART)
#ifdef MODEL
# define ALG(H,M) M
# define VOID
#else
# define ALG(H,M) H
# define VOID (void const*)
#endif
static u8 msg[ 600 ];
template<class H> static void alg( char const* name, std::size_t B )
{
    for( std::size_t n = 0; n <= SPAN( B ); ++n )
    {
        puts_( name ); puts_( " len " ); num( n ); puts_( ": " ); H h; h.update( VOID msg, n / 3 ); h.update( msg + n / 3, n - n / 3 ); show( h.result() ); puts_( " " ); show( h.result() ); puts_( "\n" );
    }
    static unsigned long long const S[] = { 0, 1, 0x80, 0xFFFFFFFFu, 0x100000005ull, 0x8000000000000000ull, ~0ull, 0x0123456789ABCDEFull };
    for( int i = 0; i < 8; ++i ) { puts_( name ); puts_( " seed " ); num( S[i] ); puts_( ": " ); H h( S[i] ); h.update( msg, B / 2 + i ); show( h.result() ); puts_( "\n" ); }
    for( std::size_t n = 0; n <= B + 17; n += n < 20 || n + 4 > B? 1: 7 ) { puts_( name ); puts_( " key of " ); num( n ); puts_( ": " ); H h( msg + 100, n ); h.update( msg, 5 ); show( h.result() ); puts_( "\n" ); }
}
#define XR(N,H,M,B) alg<ALG(hh::N, M)>( #N, B );
static void part1() { for( int i = 0; i < 600; ++i ) msg[i] = (u8)( ( i * i * 131 + i * 17 + 90 ) >> 2 ); ALGOS_ALL( XR ) }
#else
static void part1() {}
#endif

#if PART == 2 || !defined(PART)
struct buf { typedef std::uint64_t result_type; u8 m[ 2048 ]; std::size_t n; buf(): n( 0 ) {} void update( void const* p, std::size_t k ) { u8 const* q = (u8 const*)p; for( std::size_t i = 0; i < k && n < sizeof m; ++i ) m[ n++ ] = q[i]; } result_type result() { return sp::mix( m, n, 1 ); } };
#ifdef MODEL
# define APP(F,h,v) sp::app<F>( h, v )
#else
# define APP(F,h,v) hh::hash_append( h, F(), v )
#endif
static char const* cname; static int cidx;
template<class F> static void label( char const* fn ) { puts_( cname ); puts_( " #" ); num( cidx ); puts_( " " ); puts_( fn ); puts_( ": " ); }
template<class F, class T> static void one( char const* fn, T const& v ) { label<F>( fn ); buf h; APP( F, h, v ); hexs( h.m, h.n ); puts_( "\n" ); }
// native equals the explicit flavor of the machine's byte order
template<class T> static bool same( T const& v )
{
    buf a, b, c, d; hh::hash_append( a, hh::default_flavor(), v ); hh::hash_append( c, sp::ne32(), v );
    if( sp::machine_little() ) { hh::hash_append( b, hh::little_endian_flavor(), v ); hh::hash_append( d, sp::le32(), v ); } else { hh::hash_append( b, hh::big_endian_flavor(), v ); hh::hash_append( d, sp::be32(), v ); }
    buf e; sp::app<hh::default_flavor>( e, v ); // and the specification
    return a.n == b.n && std::memcmp( a.m, b.m, a.n ) == 0 && c.n == d.n && std::memcmp( c.m, d.m, c.n ) == 0 && a.n == e.n && std::memcmp( a.m, e.m, a.n ) == 0;
}
template<class T> static void native( T const& v ) { label<T>( "native" ); puts_( same( v )? "same\n": "different\n" ); }
template<class T> static void all( char const* n, T const& v ) { if( n != cname ) { cname = n; cidx = 0; } one<hh::little_endian_flavor>( "little", v ); one<hh::big_endian_flavor>( "big", v ); one<sp::le32>( "le32", v ); one<sp::be32>( "be32", v ); native( v ); ++cidx; }
template<class T> static void nat( char const* n, T const& v ) { if( n != cname ) { cname = n; cidx = 0; } native( v ); ++cidx; } // types whose size depends on the platform
template<class T> static void ints( char const* n ) { static unsigned long long const S[] = { 0, 1, 0x7F, 0x80, 0xFF, 0x1234, 0x8001, 0x01020304, 0x80000000u, 0xFFFFFFFEu, 0x0102030405060708ull, 0x8000000000000001ull, ~0ull }; for( int i = 0; i < 13; ++i ) all( n, (T)S[i] ); }
template<class T, class U> static T bits( U u ) { T t; std::memcpy( &t, &u, sizeof t ); return t; }
template<class T, class U> static void fps( char const* n, U const* s, int k, char const* sn, U const* q, int j )
{
    for( int i = 0; i < k; ++i ) { T* t = new T; std::memcpy( t, &s[i], sizeof(T) ); all( n, *t ); }
#if !defined(__i386__) || defined(__SSE2_MATH__)
    for( int i = 0; i < j; ++i ) { T* t = new T; std::memcpy( t, &q[i], sizeof(T) ); all( sn, *t ); }
#endif
}
// ranges
template<class T> static T mkv( std::uint64_t x ) { return (T)x; } template<> float mkv<float>( std::uint64_t x ) { return bits<float>( (std::uint32_t)x & 0xBFBFFFFFu ); } template<> double mkv<double>( std::uint64_t x ) { return bits<double>( (std::uint64_t)x * 0x10101 & 0xBFF7FFFFFFFFFFFFull ); }
template<class T> static void ranges( char const* n )
{
    for( std::size_t k = 0; k <= 9; ++k )
    {
        std::vector<T> v; T w[ 10 ]; for( std::size_t i = 0; i < k; ++i ) { w[i] = mkv<T>( i * 0x0102030405060709ull >> ( i * 7 ) ); v.push_back( w[i] ); } v.reserve( 16 ); v.resize( k ); all( n, v );
        it::crange<T> c = { w, k }; it::frange<T> f = { w, k };
        label<T>( "same message" ); buf a, b, d, e; hh::hash_append( a, sp::be32(), v ); hh::hash_append( b, sp::be32(), c ); hh::hash_append( d, sp::be32(), f ); hh::hash_append_sized_range( e, sp::be32(), w, w + k );
        puts_( a.n == b.n && a.n == d.n && a.n == e.n && !std::memcmp( a.m, b.m, a.n ) && !std::memcmp( a.m, d.m, a.n ) && !std::memcmp( a.m, e.m, a.n )? "yes\n": "no\n" );
#ifdef MODEL
# define UNO(F) { label<T>( "unordered " #F ); buf u; sp::unordered<T, F>( u, v.begin(), v.end() ); hexs( u.m, u.n ); puts_( "\n" ); }
#else
# define UNO(F) { label<T>( "unordered " #F ); buf u; hh::hash_append_unordered_range( u, F(), w, w + k ); hexs( u.m, u.n ); puts_( "\n" ); }
#endif
        UNO( hh::little_endian_flavor ) UNO( hh::big_endian_flavor ) UNO( sp::be32 )
    }
    T a[ 5 ] = { mkv<T>( 1 ), mkv<T>( 0 ), mkv<T>( 0x7F ), mkv<T>( 2 ), mkv<T>( 3 ) }; all( n, a ); std::array<T, 3> b = {{ mkv<T>( 5 ), mkv<T>( 6 ), mkv<T>( 0x0102 ) }}; all( n, b ); boost::array<T, 2> c = {{ mkv<T>( 1 ), mkv<T>( 0x55 ) }}; all( n, c ); T m[ 2 ][ 2 ] = { { mkv<T>( 1 ), mkv<T>( 2 ) }, { mkv<T>( 3 ), mkv<T>( 4 ) } }; all( n, m ); std::array<T, 0> z{}; all( n, z );
}
enum class e16: short { a = 0x0102, b = -3 }; enum class e64: unsigned long long { a = 0x0102030405060708ull }; enum class e8: u8 { a = 200 }; enum plain { p0, p1 = 70000 };
struct hookt { std::uint32_t a; std::uint16_t b; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, hookt const& v ) { hh::hash_append( h, f, v.a ); hh::hash_append( h, f, v.b ); } };
struct tree { char c; std::vector<tree> k; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, tree const& v ) { hh::hash_append( h, f, v.c ); hh::hash_append( h, f, v.k ); } };
#if __cplusplus >= 201402L
struct dsc { std::uint16_t x; float y; std::vector<std::uint32_t> z; }; BOOST_DESCRIBE_STRUCT( dsc, (), (x, y, z) )
class dsc2: public dsc { std::uint64_t w; protected: char16_t v; public: dsc2( dsc const& d, std::uint64_t a, char16_t b ): dsc( d ), w( a ), v( b ) {} std::uint64_t gw() const { return w; } char16_t gv() const { return v; } BOOST_DESCRIBE_CLASS( dsc2, (dsc), (), (v), (w) ) };
struct dsc0 {}; BOOST_DESCRIBE_STRUCT( dsc0, (), () )
#endif
namespace sp {
template<> struct S<hookt, void> { template<class F, class H> static void app( H& h, hookt const& v ) { num<F>( h, v.a, 4 ); num<F>( h, v.b, 2 ); } };
template<> struct S<tree, void> { template<class F, class H> static void app( H& h, tree const& v ) { num<F>( h, (u8)v.c, 1 ); for( std::size_t i = 0; i < v.k.size(); ++i ) app<F>( h, v.k[i] ); size<F>( h, v.k.size() ); } };
#if __cplusplus >= 201402L
template<> struct S<dsc, void> { template<class F, class H> static void app( H& h, dsc const& v ) { num<F>( h, v.x, 2 ); S<float>::app<F>( h, v.y ); S<std::vector<std::uint32_t> >::app<F>( h, v.z ); } };
template<> struct S<dsc2, void> { template<class F, class H> static void app( H& h, dsc2 const& v ) { S<dsc>::app<F>( h, v ); num<F>( h, v.gv(), 2 ); num<F>( h, v.gw(), 8 ); } };
template<> struct S<dsc0, void> { template<class F, class H> static void app( H& h, dsc0 const& ) { zero( h ); } };
#endif
}
template<class T> static void sizes( T n ) { label<T>( "size" ); buf h;
#ifdef MODEL
    sp::size<sp::le32>( h, n ); sp::size<hh::big_endian_flavor>( h, n ); sp::size<sp::be32>( h, n ); sp::size<hh::little_endian_flavor>( h, n );
#else
    hh::hash_append_size( h, sp::le32(), n ); hh::hash_append_size( h, hh::big_endian_flavor(), n ); hh::hash_append_size( h, sp::be32(), n ); hh::hash_append_size( h, hh::little_endian_flavor(), n );
#endif
    hexs( h.m, h.n ); puts_( "\n" ); ++cidx; }
template<class R> static void conv( char const* n, R r ) { if( n != cname ) { cname = n; cidx = 0; } label<R>( "to" ); show( hh::get_integral_result<std::uint8_t>( r ) ); puts_( " " ); show( hh::get_integral_result<std::uint16_t>( r ) ); puts_( " " ); show( hh::get_integral_result<std::uint32_t>( r ) ); puts_( " " ); show( hh::get_integral_result<std::uint64_t>( r ) ); puts_( " " ); show( (std::uint32_t)hh::get_integral_result<std::int32_t>( r ) ); puts_( " " ); show( (std::uint8_t)hh::get_integral_result<signed char>( r ) ); puts_( "\n" ); ++cidx; }
template<std::size_t N> static void dig( char const* n ) { hh::digest<N> d = {}; for( std::size_t i = 0; i < N; ++i ) d[i] = (u8)( i * 37 + 9 ); all( n, d ); label<void>( "text" ); char b[ 2*N + 1 ]; char* e = hh::to_chars( d, b, b + 2*N ); out( b, e - b ); puts_( " " ); char c[ 2*N + 1 ]; hh::to_chars( d, c ); puts_( c ); puts_( d == d? " e": " n" ); hh::digest<N> q = d; q[N-1] ^= 128; puts_( d != q? "n\n": "e\n" ); }
static void part2()
{
    ints<bool>( "bool" ); ints<char>( "char" ); ints<signed char>( "schar" ); ints<u8>( "uchar" ); ints<short>( "short" ); ints<std::uint16_t>( "uint16" ); ints<int>( "int" ); ints<std::uint32_t>( "uint32" ); ints<long long>( "llong" ); ints<std::uint64_t>( "uint64" ); ints<char16_t>( "char16" ); ints<char32_t>( "char32" );
#if __cplusplus > 201703L && defined(__cpp_char8_t)
    ints<char8_t>( "char8" );
#endif
    static std::uint32_t const f[] = { 0, 0x80000000u, 1, 0x3F800000u, 0xBF800000u, 0x7F7FFFFFu, 0x7F800000u, 0xFF800000u, 0x7FC00000u, 0xFFC00123u, 0x00800000u, 0x12345678u, 0x80000001u }; static std::uint32_t const fs[] = { 0x7F800001u, 0xFFABCDEFu };
    static std::uint64_t const d[] = { 0, 0x8000000000000000ull, 1, 0x3FF0000000000000ull, 0x7FEFFFFFFFFFFFFFull, 0x7FF0000000000000ull, 0xFFF8000000000123ull, 0x0102030405060708ull, 0xC0091EB851EB851Full, 0x8000000000000001ull }; static std::uint64_t const ds[] = { 0x7FF0000000000001ull, 0xFFF7FFFFFFFFFFFFull };
    fps<float>( "float", f, 13, "float snan", fs, 2 ); fps<double>( "double", d, 10, "double snan", ds, 2 );
    all( "enum", e16::a ); all( "enum", e16::b ); all( "enum", e64::a ); all( "enum", e8::a ); all( "enum", p1 );
    ranges<u8>( "r uchar" ); ranges<char>( "r char" ); ranges<bool>( "r bool" ); ranges<std::uint16_t>( "r uint16" ); ranges<int>( "r int" ); ranges<std::uint64_t>( "r uint64" ); ranges<char16_t>( "r char16" ); ranges<float>( "r float" ); ranges<double>( "r double" ); ranges<e16>( "r enum" );
    std::basic_string<char16_t> s; all( "u16string", s ); s.push_back( u'x' ); s.push_back( 0x1234 ); all( "u16string", s ); std::vector<std::basic_string<char16_t> > vs( 2, s ); all( "strings", vs ); std::vector<std::vector<bool> > vb( 3, std::vector<bool>( 2, true ) ); vb[1].clear(); all( "vectors of bool", vb );
    all( "pair", std::make_pair( (u8)1, (std::uint32_t)0x01020304 ) ); all( "pair", std::make_pair( s, std::make_pair( 1.5, 'c' ) ) ); all( "tuple", std::make_tuple( (short)-2, 0x0102030405060708ull, 2.5f ) ); all( "tuple", std::tuple<>() ); all( "tuple", std::make_tuple( std::tuple<>(), std::array<int, 0>(), 7 ) ); std::vector<std::tuple<> > vt( 3 ); all( "tuples", vt );
    hookt h = { 0x01020304, 0x0506 }; all( "hook", h ); std::vector<hookt> vh( 2, h ); all( "hook", vh ); tree l = { 'l', {} }, m = { 'm', { l, l } }, t = { 't', { m, l } }; all( "tree", t );
#if __cplusplus >= 201402L
    dsc q = { 0x0102, -0.0f, { 1, 0x01020304 } }; all( "described", q ); dsc2 r( q, 0x0102030405060708ull, 0x0102 ); all( "described", r ); std::vector<dsc2> vd( 2, r ); all( "described", vd ); all( "described", dsc0() ); std::array<dsc0, 4> az; all( "described", az );
#endif
#if __cplusplus >= 201703L
    all( "string_view", std::u16string_view( s ) ); all( "string_view", std::string_view( "a narrow view" ) ); all( "string_view", std::string_view() );
#endif
    std::initializer_list<int> il = { 1, 2, 0x01020304 }; all( "list", il );
    cname = "size"; cidx = 0; for( unsigned i = 0; i < 5; ++i ) { static unsigned const S[] = { 0, 1, 255, 70000, 0xFFFFFFFFu }; sizes( S[i] ); sizes( (std::uint64_t)S[i] ); sizes( (std::ptrdiff_t)( S[i] & 0x7FFFFFFF ) ); sizes( (u8)S[i] ); }
    nat( "platform", 5L ); nat( "platform", 0x80000001ul ); nat( "platform", L'x' ); nat( "platform", (std::size_t)77 ); nat( "platform", (void const*)nullptr ); nat( "platform", nullptr ); static int obj; nat( "platform", &obj ); nat( "platform", (std::ptrdiff_t)-3 ); std::vector<long> vl( 3, -1 ); nat( "platform", vl ); std::vector<wchar_t> vw( 3, L'y' ); nat( "platform", vw ); std::vector<int*> vp( 2, &obj ); nat( "platform", vp ); std::pair<long, void*> pl( 1, nullptr ); nat( "platform", pl );
    for( int i = 0; i < 256; i += 5 ) conv( "from 8", (std::uint8_t)i ); for( unsigned i = 0; i < 65536; i += 1111 ) conv( "from 16", (std::uint16_t)i ); for( int i = 0; i < 32; ++i ) { conv( "from 32", (std::uint32_t)( 0xC0000001u >> i ) ); conv( "from 32", (std::uint32_t)~( 1u << i ) ); } for( int i = 0; i < 64; ++i ) { conv( "from 64", (std::uint64_t)( 0xC000000000000001ull >> i ) ); conv( "from 64", (std::uint64_t)~( 1ull << i ) ); }
    hh::digest<20> g = {}; for( int i = 0; i < 20; ++i ) g[i] = (u8)( 200 + i * 3 ); conv( "from digest", g ); std::array<u8, 8> ga = {{ 1, 2, 3, 4, 5, 6, 7, 250 }}; conv( "from array", ga );
    dig<1>( "digest 1" ); dig<8>( "digest 8" ); dig<16>( "digest 16" ); dig<20>( "digest 20" ); dig<33>( "digest 33" ); dig<64>( "digest 64" );
}
#else
static void part2() {}
#endif
// part 3: constants computed by the compiler
#if defined(CX) && __cplusplus >= 201402L
#ifdef MODEL
# define CC
#else
# define CC constexpr
#endif
struct blk { u8 b[ 64 ]; unsigned n; };
template<class R> constexpr typename std::enable_if<std::is_integral<R>::value>::type store( blk& k, R r ) { for( unsigned i = 0; i < sizeof(R); ++i ) k.b[ k.n++ ] = (u8)( r >> ( 8 * i ) ); }
template<class R> constexpr typename std::enable_if<!std::is_integral<R>::value>::type store( blk& k, R const& r ) { for( std::size_t i = 0; i < r.size(); ++i ) k.b[ k.n++ ] = r[i]; }
#ifdef MODEL
static void store( blk& k, ref::res const& r ) { for( unsigned i = 0; i < r.n; ++i ) k.b[ k.n++ ] = r.b[i]; }
template<class F, class H, class T> void ap( H& h, T const& v ) { sp::app<F>( h, v ); }
#define REAL(H,M) M
#else
template<class F, class H, class T> constexpr void ap( H& h, T const& v ) { hh::hash_append( h, F(), v ); }
#define REAL(H,M) H
#endif
template<class H> CC blk cx_bytes( unsigned n ) { blk k = {}; u8 m[ 300 ] = {}; for( unsigned i = 0; i < n; ++i ) m[i] = (u8)( i * 29 + 7 ); H h( 5 ); h.update( m, n / 2 ); h.update( m + n / 2, n - n / 2 ); store( k, h.result() ); return k; }
template<class H> CC blk cx_seed( unsigned n ) { blk k = {}; u8 m[ 300 ] = {}; for( unsigned i = 0; i < n; ++i ) m[i] = (u8)( i * 31 + 1 ); H h( m, n ); h.update( m, 3 ); store( k, h.result() ); return k; }
template<class H, class F> CC blk cx_vals() { blk k = {}; H h; ap<F>( h, (std::uint16_t)0x0102 ); ap<F>( h, -5 ); ap<F>( h, 0x0102030405060708ull ); std::uint32_t a[ 3 ] = { 1, 0x01020304, 7 }; ap<F>( h, a ); ap<F>( h, true ); ap<F>( h, 'x' ); ap<F>( h, e16::b ); char16_t c[ 2 ] = { u'a', 0x1234 }; ap<F>( h, c ); store( k, h.result() ); return k; }
struct cxr { char const* n; blk k; };
#define XCX(N,H,M,B) static void cx_##N() { CC blk k = cx_bytes<REAL(H,M)>( 2*B + 5 ); puts_( "constant " #N ": " ); hexs( k.b, k.n ); CC blk q = cx_seed<REAL(H,M)>( B + 1 ); puts_( " " ); hexs( q.b, q.n ); puts_( "\n" ); }
ALGOS_ALL( XCX )
#define XCV(N,H,M,F) { CC blk k = cx_vals<REAL(H,H), F>(); puts_( "constant values " #N " " #F ": " ); hexs( k.b, k.n ); puts_( "\n" ); }
#define XCA(N,H,M,B) cx_##N();
static void part3() { ALGOS_ALL( XCA )
#define XF(F) XCV( sha2_256, hh::sha2_256, 0, F ) XCV( xxhash_64, hh::xxhash_64, 0, F ) XCV( siphash_32, hh::siphash_32, 0, F ) XCV( fnv1a_64, hh::fnv1a_64, 0, F ) XCV( md5_128, hh::md5_128, 0, F )
    XF( hh::little_endian_flavor ) XF( hh::big_endian_flavor ) XF( sp::le32 ) XF( sp::be32 ) }
#else
static void part3() {}
#endif
int main() { part1(); part2(); part3(); puts_( "END\n" ); return 0; }
