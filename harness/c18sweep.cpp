// C18 (threads): sweep scripts, compiled with memory-access instrumentation. Each covers every size,
// overload, construction, element kind or value of a bounded set; two threads run the same one.
// -DPART=0 algorithms, 1 conversions and streams; -DVSEL=group: appended values of those types.
#include "algos.hpp"
#include "values.hpp"
#include "c18sweep.hpp"
#include <sstream>
typedef unsigned char u8;
struct acc { std::uint64_t s; acc(): s( 0x1234567 ) {} void u( std::uint64_t x ) { s = ( s ^ x ) * 0x9E3779B97F4A7C15ull; s ^= s >> 29; } void r( ref::res const& x ) { for( unsigned i = 0; i < x.n; ++i ) u( x.b[i] ); } void c( char const* p, std::size_t n ) { for( std::size_t i = 0; i < n; ++i ) u( (u8)p[i] ); } void out( u8* o ) { for( int i = 0; i < 8; ++i ) o[i] = (u8)( s >> 8*i ); } };
static void fill( u8* m, std::size_t n, int id ) { for( std::size_t i = 0; i < n; ++i ) m[i] = (u8)( i * 7 + id * 31 + ( i >> 5 ) ); }

#if defined(PART) && PART == 0
template<class H, unsigned B> static void sizes( int id, u8* o, u8* ) // every size, both overloads, from empty and from a partial block; results in sequence
{
    u8 m[ 2*B + 70 ]; fill( m, sizeof m, id ); acc a;
    for( std::size_t n = 0; n <= 2*B + 2; ++n )
    {
        H h, g; h.update( m, n ); a.r( to_res( h.result() ) ); g.update( (void const*)m, n ); a.r( to_res( g.result() ) ); a.r( to_res( g.result() ) );
        if( n > B + 2 ) continue; H k( 3 ); k.update( m, B - 3 ); k.update( (void const*)( m + 5 ), n ); a.r( to_res( k.result() ) ); k.update( m, n ); a.r( to_res( k.result() ) );
    }
    a.out( o );
}
template<class H, unsigned B> static void keys( int id, u8* o, u8* )
{
    u8 m[ 2*B + 70 ]; fill( m, sizeof m, id ); acc a;
    for( std::size_t n = 0; n <= 2*B + 2; n += ( n > 20 && ( n + 2 ) % B > 4? 3: 1 ) ) { H h( m, n ); a.r( to_res( h.result() ) ); H g( m, n ); g.update( m, 9 ); a.r( to_res( g.result() ) ); }
    for( int i = 0; i < 64; i += 3 ) { H h( ( 1ull << i ) + id ), k( h ), l; l = k; a.r( to_res( h.result() ) ); k.update( m, 3 ); a.r( to_res( k.result() ) ); a.r( to_res( l.result() ) ); a.u( hh::get_integral_result<std::uint64_t>( k.result() ) ); a.u( hh::get_integral_result<u8>( k.result() ) ); a.u( (std::uint64_t)hh::get_integral_result<short>( k.result() ) ); a.u( (std::uint64_t)hh::get_integral_result<int>( k.result() ) ); }
    a.out( o );
}
template<class H> static void values( int id, u8* o, u8* ) // byte ranges and scalars of every kind into each algorithm
{
    acc a; u8 m[ 150 ]; fill( m, sizeof m, id );
    for( std::size_t n = 0; n <= 140; n += ( n < 20? 1: 10 ) )
    {
        H h; hh::hash_append_range( h, hh::default_flavor(), m, m + n ); hh::hash_append( h, hh::big_endian_flavor(), std::vector<u8>( m, m + n ) ); hh::hash_append( h, hh::little_endian_flavor(), std::string( m, m + n ) ); hh::hash_append( h, hh::big_endian_flavor(), std::vector<std::uint32_t>( m, m + n ) ); hh::hash_append( h, hh::default_flavor(), std::list<short>( m, m + n ) );
        hh::hash_append_unordered_range( h, hh::big_endian_flavor(), m, m + n % 9 ); hh::hash_append_sized_range( h, hh::default_flavor(), m, m + n ); hh::hash_append( h, hh::big_endian_flavor(), (std::uint64_t)n << id ); hh::hash_append( h, hh::default_flavor(), (float)n ); hh::hash_append( h, hh::big_endian_flavor(), (double)n - id ); hh::hash_append( h, hh::default_flavor(), (void const*)(std::uintptr_t)n ); a.r( to_res( h.result() ) );
    }
    a.out( o );
}
# define X1(N,H,M,B) static sweep_reg rs_##N( #N ": every size", &sizes<H, B>, nullptr ), rk_##N( #N ": constructions", &keys<H, B>, nullptr ), rv_##N( #N ": ranges and scalars", &values<H>, nullptr );
ALGOS_ALL( X1 )
#endif

#if defined(PART) && PART == 1
template<std::size_t N> static void dig( acc& a, int id )
{
    hh::digest<N> d, e; for( std::size_t i = 0; i < N; ++i ) d[i] = (u8)( i * 37 + id * 5 + 1 ); e = d; char b[ 2*N + 3 ]; a.c( b, hh::to_chars( d, b, b + sizeof b ) - b ); hh::to_chars( e, b ); a.c( b, 2*N ); std::string s = hh::to_string( d ); a.c( s.data(), s.size() );
    std::ostringstream os; os << d << e; std::string t = os.str(); a.c( t.data(), t.size() ); a.u( d == e ); e[ N-1 ] ^= 1; a.u( d == e ); a.u( d != e ); a.u( d.front() + d.back() ); hh::fnv1a_64 h; hh::hash_append( h, hh::big_endian_flavor(), d ); a.u( h.result() );
}
template<std::size_t A, std::size_t Z> struct digs { static void go( acc& a, int id ) { digs<A, ( A + Z ) / 2>::go( a, id ); digs<( A + Z ) / 2, Z>::go( a, id ); } };
template<std::size_t A> struct digs<A, A + 1> { static void go( acc& a, int id ) { dig<A>( a, id ); } };
static void digests( int id, u8* o, u8* ) { acc a; digs<1, 66>::go( a, id ); dig<128>( a, id ); a.out( o ); }
template<class T, class R> static void ir1( acc& a, int id ) { for( int i = 0; i < (int)( 8 * sizeof(R) ); ++i ) { R r = (R)( ( (R)1 << i ) + (R)( id * 3 ) ); a.u( (std::uint64_t)hh::get_integral_result<T>( r ) ); } }
template<class T> static void ir( acc& a, int id )
{
    ir1<T, u8>( a, id ); ir1<T, std::uint16_t>( a, id ); ir1<T, std::uint32_t>( a, id ); ir1<T, unsigned long>( a, id ); ir1<T, unsigned long long>( a, id );
    std::array<u8, 8> x; std::array<u8, 17> y; hh::digest<20> z; for( int i = 0; i < 8; ++i ) x[i] = (u8)( i + id ); for( int i = 0; i < 17; ++i ) y[i] = (u8)( i * 3 + id ); for( int i = 0; i < 20; ++i ) z[i] = (u8)( i * 5 + id ); a.u( (std::uint64_t)hh::get_integral_result<T>( x ) ); a.u( (std::uint64_t)hh::get_integral_result<T>( y ) ); a.u( (std::uint64_t)hh::get_integral_result<T>( z ) );
}
static void integral( int id, u8* o, u8* ) { acc a; ir<u8>( a, id ); ir<signed char>( a, id ); ir<char>( a, id ); ir<short>( a, id ); ir<unsigned short>( a, id ); ir<int>( a, id ); ir<unsigned>( a, id ); ir<long>( a, id ); ir<unsigned long>( a, id ); ir<long long>( a, id ); ir<unsigned long long>( a, id ); ir<char16_t>( a, id ); ir<char32_t>( a, id ); ir<wchar_t>( a, id ); a.out( o ); }
template<class T, class F> static void sc( acc& a, int id ) { for( int i = 0; i < (int)( 8 * sizeof(T) ); i += 3 ) { hh::fnv1a_64 h; T v = (T)( ( (std::uint64_t)1 << i ) + (std::uint64_t)id ); hh::hash_append( h, F(), v ); T w[ 5 ] = { v, T(), v, T(), v }; hh::hash_append( h, F(), w ); hh::hash_append_range( h, F(), w, w + 3 ); hh::hash_append_sized_range( h, F(), w + 0, w + 3 ); hh::hash_append_unordered_range( h, F(), w, w + 4 ); hh::hash_append_size( h, F(), (std::size_t)i ); a.u( h.result() ); } }
template<class F> static void scf( acc& a, int id ) { sc<bool, F>( a, id ); sc<u8, F>( a, id ); sc<char, F>( a, id ); sc<signed char, F>( a, id ); sc<short, F>( a, id ); sc<std::uint16_t, F>( a, id ); sc<int, F>( a, id ); sc<std::uint32_t, F>( a, id ); sc<long, F>( a, id ); sc<std::uint64_t, F>( a, id ); sc<long long, F>( a, id ); sc<char16_t, F>( a, id ); sc<char32_t, F>( a, id ); sc<wchar_t, F>( a, id ); sc<float, F>( a, id ); sc<double, F>( a, id ); }
static void scalars( int id, u8* o, u8* ) { acc a; scf<hh::default_flavor>( a, id ); scf<hh::big_endian_flavor>( a, id ); scf<hh::little_endian_flavor>( a, id ); scf<sp::be32>( a, id ); a.out( o ); }
static sweep_reg r1( "digests of every size: text, streams, comparison", &digests, nullptr ), r2( "integral results", &integral, nullptr ), r3( "scalars and arrays of them", &scalars, nullptr );
#endif

#ifdef VSEL
template<class T> static std::vector<T>& U() { static std::vector<T>* u = new std::vector<T>; return *u; }
template<class T> static void mk() { if( U<T>().empty() ) U<T>() = va::uni<T>::get( 40 ); }
template<class T> static void vals( int id, u8* o, u8* )
{
    std::vector<T> const& u = U<T>(); acc a; (void)id;
    for( std::size_t i = 0; i < u.size(); ++i ) { hh::fnv1a_64 h; hh::hash_append( h, hh::default_flavor(), u[i] ); a.u( h.result() ); hh::hash_append( h, hh::big_endian_flavor(), u[i] ); hh::hash_append( h, sp::be32(), u[i] ); a.u( h.result() ); if( i % 4 ) continue; hh::xxhash_32 x; hh::hash_append( x, hh::little_endian_flavor(), u[i] ); a.u( x.result() ); hh::md5_128 m; hh::hash_append( m, hh::default_flavor(), u[i] ); a.r( to_res( m.result() ) ); }
    hh::siphash_64 s; hh::hash_append_range( s, hh::big_endian_flavor(), u.begin(), u.end() ); hh::hash_append_unordered_range( s, hh::default_flavor(), u.begin(), u.end() ); a.u( s.result() ); a.out( o );
}
# define XW(N,...) static sweep_reg rw_##N( "values " #N, &vals<__VA_ARGS__>, &mk<__VA_ARGS__> );
VSEL( XW )
#endif
