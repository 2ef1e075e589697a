// C12: sending raw bytes is never observable.
#define HARNESS_MAIN
#include "common.hpp"
#include "values.hpp"
#include <boost/hash2/is_contiguously_hashable.hpp>
#include <boost/hash2/is_trivially_equality_comparable.hpp>
#include <boost/hash2/is_endian_independent.hpp>
typedef std::vector<unsigned char> bytes;

// ---- user types ---------------------------------------------------------------------------
struct W1 { unsigned char a, b, c; }; BOOST_DESCRIBE_STRUCT( W1, (), (a, b, c) ) // declared comparable and endian independent
struct W2 { int v; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, W2 const& x ) { hh::hash_append( h, f, x.v ); } }; // declared comparable, with a hook
struct W3 { short a, b; }; BOOST_DESCRIBE_STRUCT( W3, (), (a, b) )   // declared comparable, described
struct W4 { unsigned char v; }; BOOST_DESCRIBE_STRUCT( W4, (), (v) ) // declared comparable, one byte
struct W5 { unsigned char a; std::uint32_t b; }; BOOST_DESCRIBE_STRUCT( W5, (), (a, b) ) // padding
struct W6 { float f; double d; }; BOOST_DESCRIBE_STRUCT( W6, (), (f, d) )
struct W7 { unsigned char c; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, W7 const& x ) { hh::hash_append( h, f, (unsigned char)( x.c >= 'a' && x.c <= 'z'? x.c - 32: x.c ) ); } }; // compares case-insensitively
struct W8 { unsigned short v[ 3 ]; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, W8 const& x ) { hh::hash_append( h, f, x.v ); } }; // declared comparable, multi-byte members
struct W9 { int v; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, W9 const& x ) { hh::hash_append( h, f, x.v / 2 ); } }; // user comparison: pairs of ints are equal
struct W10 { std::uint64_t key; unsigned char cache = 0; BOOST_DESCRIBE_CLASS( W10, (), (key), (), () ) }; // part of the object is not part of the value
struct W11: W4 { unsigned char w; }; BOOST_DESCRIBE_STRUCT( W11, (W4), (w) )
enum E1: unsigned {}; // not trivially comparable by declaration
enum E2: unsigned char { E2x, E2y = 200 };
namespace boost { namespace hash2 {
template<> struct is_trivially_equality_comparable<W1>: std::true_type {}; template<> struct is_endian_independent<W1>: std::true_type {};
template<> struct is_trivially_equality_comparable<W2>: std::true_type {}; template<> struct is_trivially_equality_comparable<W3>: std::true_type {}; template<> struct is_trivially_equality_comparable<W4>: std::true_type {}; template<> struct is_trivially_equality_comparable<W8>: std::true_type {};
template<> struct is_trivially_equality_comparable<E1>: std::false_type {};
} }
namespace sp {
template<> struct S<W1, void> { template<class F, class H> static void app( H& h, W1 const& v ) { num<F>( h, v.a, 1 ); num<F>( h, v.b, 1 ); num<F>( h, v.c, 1 ); } };
template<> struct S<W2, void> { template<class F, class H> static void app( H& h, W2 const& v ) { num<F>( h, (unsigned)v.v, 4 ); } };
template<> struct S<W3, void> { template<class F, class H> static void app( H& h, W3 const& v ) { num<F>( h, (unsigned short)v.a, 2 ); num<F>( h, (unsigned short)v.b, 2 ); } };
template<> struct S<W4, void> { template<class F, class H> static void app( H& h, W4 const& v ) { num<F>( h, v.v, 1 ); } };
template<> struct S<W5, void> { template<class F, class H> static void app( H& h, W5 const& v ) { num<F>( h, v.a, 1 ); num<F>( h, v.b, 4 ); } };
template<> struct S<W6, void> { template<class F, class H> static void app( H& h, W6 const& v ) { S<float>::app<F>( h, v.f ); S<double>::app<F>( h, v.d ); } };
template<> struct S<W7, void> { template<class F, class H> static void app( H& h, W7 const& v ) { num<F>( h, v.c >= 'a' && v.c <= 'z'? v.c - 32: v.c, 1 ); } };
template<> struct S<W8, void> { template<class F, class H> static void app( H& h, W8 const& v ) { for( int i = 0; i < 3; ++i ) num<F>( h, v.v[i], 2 ); } };
template<> struct S<W9, void> { template<class F, class H> static void app( H& h, W9 const& v ) { num<F>( h, (unsigned)( v.v / 2 ), 4 ); } };
template<> struct S<W10, void> { template<class F, class H> static void app( H& h, W10 const& v ) { num<F>( h, v.key, 8 ); } };
template<> struct S<W11, void> { template<class F, class H> static void app( H& h, W11 const& v ) { num<F>( h, v.v, 1 ); num<F>( h, v.w, 1 ); } };
}

// ---- the forms a sequence can be appended in ---------------------------------------------------
// elems: one by one; every other form must send the same bytes (then the count, where there is one)
template<class F, class T, std::size_t N> void fixed( T const* p, bytes const& e, char const* tn, char const* fn )
{
    std::array<T, N> a; boost::array<T, N> b; T c[N]; std::memcpy( (void*)&a, p, sizeof a ); std::memcpy( (void*)&b, p, sizeof b ); std::memcpy( (void*)&c, p, sizeof c );
    hz::trans( 4 ); T const (&cc)[N] = c;
    if( sp::lib<F>( a ) != e ) hz::viol( tn, "%s std::array<%zu> flavor %s: sent %s, elements are %s", tn, N, fn, hz::hexc( sp::lib<F>( a ) ).c_str(), hz::hexc( e ).c_str() );
    if( sp::lib<F>( b ) != e ) hz::viol( tn, "%s boost::array<%zu> flavor %s: sent %s, elements are %s", tn, N, fn, hz::hexc( sp::lib<F>( b ) ).c_str(), hz::hexc( e ).c_str() );
    if( sp::lib<F>( c ) != e ) hz::viol( tn, "%s [%zu] flavor %s: sent %s, elements are %s", tn, N, fn, hz::hexc( sp::lib<F>( c ) ).c_str(), hz::hexc( e ).c_str() );
    if( sp::lib<F>( cc ) != e ) hz::viol( tn, "%s const [%zu] flavor %s", tn, N, fn );
    if( N % 2 == 0 ) { T m[2][N/2? N/2: 1]; std::memcpy( (void*)&m, p, sizeof c ); hz::trans(); if( sp::lib<F>( m ) != e ) hz::viol( tn, "%s [2][%zu] flavor %s: sent %s, elements are %s", tn, N/2, fn, hz::hexc( sp::lib<F>( m ) ).c_str(), hz::hexc( e ).c_str() ); }
    struct pk { T x[N]; }; (void)sizeof( pk );
}
template<class F, class T> void forms( T* p, std::size_t n, char const* tn, char const* fn )
{
    bytes e, s; { sp::rec h; for( std::size_t i = 0; i < n; ++i ) sp::app<F>( h, p[i] ); e = h.m; sp::size<F>( h, n ); s = h.m; }
    hz::states(); hz::traces(); hz::cur( "%s n=%zu %s", tn, n, fn );
    { sp::rec h; for( std::size_t i = 0; i < n; ++i ) hh::hash_append( h, F(), p[i] ); hz::trans(); if( h.m != e ) hz::viol( tn, "%s x%zu one by one, flavor %s: sent %s, values are %s", tn, n, fn, hz::hexc( h.m ).c_str(), hz::hexc( e ).c_str() ); }
    T const* q = p;
    { sp::rec h; hh::hash_append_range( h, F(), p, p + n ); hz::trans(); if( h.m != e ) hz::viol( tn, "%s pointer range of %zu flavor %s: sent %s, elements are %s", tn, n, fn, hz::hexc( h.m ).c_str(), hz::hexc( e ).c_str() ); }
    { sp::rec2 h; hh::hash_append_range( h, F(), q, q + n ); hz::trans(); if( h.m != e ) hz::viol( tn, "%s const pointer range of %zu flavor %s: sent %s, elements are %s", tn, n, fn, hz::hexc( h.m ).c_str(), hz::hexc( e ).c_str() ); }
    { sp::rec h; hh::hash_append_range( h, F(), it::fwd<T>( q ), it::fwd<T>( q + n ) ); hz::trans(); if( h.m != e ) hz::viol( tn, "%s iterator range of %zu flavor %s: sent %s, elements are %s", tn, n, fn, hz::hexc( h.m ).c_str(), hz::hexc( e ).c_str() ); }
    { sp::rec h; hh::hash_append_sized_range( h, F(), q, q + n ); hz::trans(); if( h.m != s ) hz::viol( tn, "%s sized range of %zu flavor %s: sent %s, expected %s", tn, n, fn, hz::hexc( h.m ).c_str(), hz::hexc( s ).c_str() ); }
    { it::crange<T> c = { q, n }; hz::trans(); if( sp::lib<F>( c ) != s ) hz::viol( tn, "%s contiguous range of %zu flavor %s: sent %s, expected %s", tn, n, fn, hz::hexc( sp::lib<F>( c ) ).c_str(), hz::hexc( s ).c_str() ); }
    { it::frange<T> c = { q, n }; hz::trans(); if( sp::lib<F>( c ) != s ) hz::viol( tn, "%s forward range of %zu flavor %s: sent %s, expected %s", tn, n, fn, hz::hexc( sp::lib<F>( c ) ).c_str(), hz::hexc( s ).c_str() ); }
    { std::vector<T> v( q, q + n ); hz::trans(); if( sp::lib<F>( v ) != s ) hz::viol( tn, "%s vector of %zu flavor %s: sent %s, expected %s", tn, n, fn, hz::hexc( sp::lib<F>( v ) ).c_str(), hz::hexc( s ).c_str() ); }
    { std::list<T> v( q, q + n ); hz::trans(); if( sp::lib<F>( v ) != s ) hz::viol( tn, "%s list of %zu flavor %s: sent %s, expected %s", tn, n, fn, hz::hexc( sp::lib<F>( v ) ).c_str(), hz::hexc( s ).c_str() ); }
    switch( n ) { case 1: fixed<F, T, 1>( q, e, tn, fn ); break; case 2: fixed<F, T, 2>( q, e, tn, fn ); break; case 3: fixed<F, T, 3>( q, e, tn, fn ); break; case 4: fixed<F, T, 4>( q, e, tn, fn ); break; case 6: fixed<F, T, 6>( q, e, tn, fn ); break; case 17: fixed<F, T, 17>( q, e, tn, fn ); break; case 64: fixed<F, T, 64>( q, e, tn, fn ); break; case 257: fixed<F, T, 257>( q, e, tn, fn ); break; default: break; }
    // pairs, tuples and arrays of arrays around them
    if( n >= 2 ) { std::pair<T, T> x( q[0], q[1] ); bytes y; { sp::rec h; sp::app<F>( h, q[0] ); sp::app<F>( h, q[1] ); y = h.m; } hz::trans( 2 ); if( sp::lib<F>( x ) != y ) hz::viol( tn, "%s pair flavor %s", tn, fn ); std::tuple<T, T> z( q[0], q[1] ); if( sp::lib<F>( z ) != y ) hz::viol( tn, "%s tuple flavor %s", tn, fn ); }
}
template<class T> void fl( T* p, std::size_t n, char const* tn )
{
    forms<hh::default_flavor>( p, n, tn, "default" ); forms<hh::little_endian_flavor>( p, n, tn, "little" ); forms<hh::big_endian_flavor>( p, n, tn, "big" ); forms<sp::be32>( p, n, tn, "be32" ); forms<sp::ne32>( p, n, tn, "ne32" );
}
// objects made of every combination of a few fill bytes and a setter
template<class T, class Set> void run( char const* tn, Set set )
{
    unsigned char const fills[] = { 0, 0xFF, 0xA5 };
    for( unsigned f = 0; f < 3; ++f ) for( std::size_t n = 0; n <= ( hz::g_thorough? 40u: 9u ); ++n ) for( int x = 0; x < 12; ++x )
    {
        T* p = (T*)::operator new( ( n + 1 ) * sizeof(T) ); std::memset( (void*)p, fills[f], ( n + 1 ) * sizeof(T) );
        for( std::size_t i = 0; i < n; ++i ) set( p[i], (unsigned)( x * 7 + i * 5 ) );
        fl( p, n, tn ); ::operator delete( p );
    }
    static std::size_t const more[] = { 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192 };
    for( std::size_t n: more )
    {
        T* p = (T*)::operator new( ( n + 1 ) * sizeof(T) ); std::memset( (void*)p, fills[ n % 3 ], ( n + 1 ) * sizeof(T) );
        for( std::size_t i = 0; i < n; ++i ) set( p[i], (unsigned)( n * 7 + i * 5 + i / 11 ) );
        fl( p, n, tn ); ::operator delete( p );
    }
}
template<class T> void scal( char const* tn ) { std::vector<T> u = va::uni<T>::get( 12 ); run<T>( tn, [&]( T& t, unsigned k ) { T v = u[ k % u.size() ]; std::memcpy( (void*)&t, &v, sizeof v ); } ); }
#define SC(N,T) UNIT( N ) { scal<T>( #T ); }
SC( uc, unsigned char ) SC( ch, char ) SC( sc, signed char ) SC( sh, short ) SC( us, std::uint16_t ) SC( in, int ) SC( un, unsigned ) SC( u64, std::uint64_t ) SC( lg, long ) SC( fl_, float ) SC( db, double ) SC( en, va::en ) SC( vp, void const* ) SC( c32, char32_t ) SC( c16, char16_t ) SC( wc, wchar_t )
UNIT( bl ) { run<bool>( "bool", []( bool& b, unsigned k ) { b = k & 1; } ); }
UNIT( e1 ) { run<E1>( "enum declared not comparable", []( E1& b, unsigned k ) { b = (E1)( k * 77777u ); } ); } UNIT( e2 ) { run<E2>( "byte enum", []( E2& b, unsigned k ) { b = (E2)( k * 31 ); } ); }
static float const F[] = { 0.0f, -0.0f, 1.0f, -1.5f }; static double const D[] = { -0.0, 0.0, 2.5, -1e300 };

#if __cplusplus >= 201402L
UNIT( w1 ) { run<W1>( "declared 3-byte struct", []( W1& w, unsigned k ) { w.a = k; w.b = k * 3; w.c = k * 91; } ); }
#endif
UNIT( w2 ) { run<W2>( "declared struct with hook", []( W2& w, unsigned k ) { w.v = k * 0x01020304; } ); }

#if __cplusplus >= 201402L
UNIT( w3 ) { run<W3>( "declared described struct", []( W3& w, unsigned k ) { w.a = k * 257; w.b = -(int)k; } ); }
#endif

#if __cplusplus >= 201402L
UNIT( w4 ) { run<W4>( "declared one-byte struct", []( W4& w, unsigned k ) { w.v = k * 11; } ); }
#endif

#if __cplusplus >= 201402L
UNIT( w5 ) { run<W5>( "described struct with padding", []( W5& w, unsigned k ) { w.a = k; w.b = k * 0x01020305u; } ); } UNIT( w6 ) { run<W6>( "described floating point struct", []( W6& w, unsigned k ) { w.f = F[ k & 3 ]; w.d = D[ k / 4 & 3 ]; } ); }
#endif
UNIT( w7 ) { run<W7>( "one-byte struct, user comparison", []( W7& w, unsigned k ) { w.c = "aAbBzZ09"[ k & 7 ]; } ); } UNIT( w8 ) { run<W8>( "declared multi-byte struct with hook", []( W8& w, unsigned k ) { for( int i = 0; i < 3; ++i ) w.v[i] = k * 259 + i; } ); }
UNIT( w9 ) { run<W9>( "struct with user comparison", []( W9& w, unsigned k ) { w.v = (int)k - 30; } ); } 
#if __cplusplus >= 201402L
UNIT( w10 ) { run<W10>( "struct with a member outside the value", []( W10& w, unsigned k ) { w.key = k * 0x0102030405060708ull; w.cache = k * 3; } ); }
#endif

#if __cplusplus >= 201402L
UNIT( w11 ) { run<W11>( "derived bytes", []( W11& w, unsigned k ) { w.v = k; w.w = k * 5; } ); }
#endif

typedef std::pair<unsigned char, std::uint32_t> PP; typedef std::tuple<std::uint16_t, std::uint64_t, unsigned char> TT; typedef std::array<std::uint16_t, 3> AA; typedef std::array<float, 2> AF; typedef hh::digest<5> DG; typedef std::pair<float, bool> PF;
UNIT( pp ) { run<PP>( "pair with padding", []( PP& w, unsigned k ) { w.first = k; w.second = k * 0x01020305u; } ); } UNIT( tt ) { run<TT>( "tuple with padding", []( TT& w, unsigned k ) { std::get<0>( w ) = k * 300; std::get<1>( w ) = k * 0x0102030405060708ull; std::get<2>( w ) = k; } ); }
UNIT( aa ) { run<AA>( "array<uint16,3>", []( AA& w, unsigned k ) { for( int i = 0; i < 3; ++i ) w[i] = k * 259 + i; } ); } UNIT( af ) { run<AF>( "array<float,2>", []( AF& w, unsigned k ) { w[0] = F[ k & 3 ]; w[1] = F[ k / 4 & 3 ]; } ); } UNIT( dg ) { run<DG>( "digest<5>", []( DG& w, unsigned k ) { for( int i = 0; i < 5; ++i ) w[i] = k * 7 + i; } ); } UNIT( pf ) { run<PF>( "pair<float,bool>", []( PF& w, unsigned k ) { w.first = F[ k & 3 ]; w.second = k & 4; } ); }

// ---- the traits themselves ---------------------------------------------------------------------
template<class T> void tr( char const* tn, bool eq, bool ind )
{
    hz::states(); hz::trans( 9 ); hz::traces(); bool ln = hh::endian::native == hh::endian::little;
    bool ok = hh::is_trivially_equality_comparable<T>::value == eq && hh::is_trivially_equality_comparable<T const>::value == eq && hh::is_endian_independent<T>::value == ind && hh::is_endian_independent<T const>::value == ind;
    ok = ok && hh::is_contiguously_hashable<T, hh::endian::native>::value == eq && hh::is_contiguously_hashable<T, hh::endian::little>::value == ( eq && ( ln || ind ) ) && hh::is_contiguously_hashable<T, hh::endian::big>::value == ( eq && ( !ln || ind ) );
    ok = ok && hh::is_contiguously_hashable<T[3], hh::endian::native>::value == eq && hh::is_contiguously_hashable<T[2][5], hh::endian::big>::value == ( eq && ( !ln || ind ) ) && hh::is_contiguously_hashable<T const, hh::endian::native>::value == eq && hh::is_contiguously_hashable<T const[4], hh::endian::little>::value == ( eq && ( ln || ind ) );
    if( !ok ) hz::viol( "traits", "%s: traits do not have the documented values (comparable %d, endian independent %d)", tn, eq, ind );
}
UNIT( traits )
{
    tr<bool>( "bool", 1, 1 ); tr<char>( "char", 1, 1 ); tr<unsigned char>( "unsigned char", 1, 1 ); tr<signed char>( "signed char", 1, 1 ); tr<short>( "short", 1, 0 ); tr<int>( "int", 1, 0 ); tr<unsigned long>( "unsigned long", 1, 0 ); tr<long long>( "long long", 1, 0 ); tr<char16_t>( "char16_t", 1, 0 ); tr<wchar_t>( "wchar_t", 1, 0 );
    tr<float>( "float", 0, 0 ); tr<double>( "double", 0, 0 ); tr<long double>( "long double", 0, 0 ); tr<void*>( "void*", 1, 0 ); tr<int const*>( "int const*", 1, 0 ); tr<void(*)()>( "function pointer", 1, 0 ); tr<std::nullptr_t>( "nullptr_t", 0, 0 );
    tr<va::en>( "enum", 1, 0 ); tr<E2>( "byte enum", 1, 1 ); tr<std::pair<int, int> >( "pair", 0, 0 ); tr<std::pair<char, char> >( "pair<char,char>", 0, 0 ); tr<std::string>( "string", 0, 0 ); tr<std::vector<int> >( "vector", 0, 0 ); tr<std::array<int, 2> >( "array", 0, 0 ); tr<W5>( "padded struct", 0, 0 ); tr<W7>( "one-byte struct", 0, 1 );
#if __cplusplus >= 201402L
    tr<va::d0>( "empty struct", 0, 1 );
#endif

}
