// C09, part two: two element counts that send the same bytes make different values collide; where two do, the values are built and their messages compared.
#define HARNESS_MAIN
#include "common.hpp"
#include "spec.hpp"
#include "iters.hpp"
#include <sys/mman.h>
#include <unordered_map>
typedef std::vector<unsigned char> bytes;
struct tail // the last bytes of a message of known length
{
    typedef std::uint64_t result_type; unsigned long long n = 0; unsigned char last[ 8 ] = {};
    void update( void const* p, std::size_t k ) { unsigned char const* q = (unsigned char const*)p; n += k; if( k >= 8 ) std::memcpy( last, q + k - 8, 8 ); else if( k ) { std::memmove( last, last + k, 8 - k ); std::memcpy( last + 8 - k, q, k ); } }
    result_type result() { return n; }
};
template<class C> C make( bytes const& b ) { return C( b.begin(), b.end() ); }
// n < m, both sending K: ( X of n ) ( Y K Z of m ) and ( X K Y of m ) ( Z of n )
template<class C, class F> void confirm( char const* tn, char const* fn, std::size_t n, std::size_t m, bytes const& K )
{
    std::size_t k = K.size(); if( m < n + k || m > ( 1u << 22 ) ) return;
    bytes X( n, 'x' ), Y( m - n - k, 'y' ), Z( n, 'z' ), a( Y ), b( X ); a.insert( a.end(), K.begin(), K.end() ); a.insert( a.end(), Z.begin(), Z.end() ); b.insert( b.end(), K.begin(), K.end() ); b.insert( b.end(), Y.begin(), Y.end() );
    std::pair<C, C> p( make<C>( X ), make<C>( a ) ), q( make<C>( b ), make<C>( Z ) ); hz::traces();
    if( !( p == q ) && sp::lib<F>( p ) == sp::lib<F>( q ) ) hz::viol( "count", "pairs of %s with %zu and %zu, and with %zu and %zu elements, flavor %s, are different and send the same message", tn, n, m, m, n, fn );
}
template<class C, class F> void counts( char const* tn, char const* fn, std::size_t all, std::size_t top )
{
    std::unordered_map<std::uint64_t, std::size_t> seen; std::size_t const k = sizeof( typename F::size_type ); std::vector<std::size_t> ns; int found = 0;
    for( std::size_t n = 0; n <= all; ++n ) ns.push_back( n );
    for( std::size_t p = 2; p <= top; p *= 2 ) for( std::size_t q: { p, p + p / 2 } ) for( int d = -9; d <= 9; ++d ) if( q + d > all && q + d <= top ) ns.push_back( q + d );
    for( std::size_t n: ns )
    {
        hz::cur( "%s of %zu, %s", tn, n, fn ); hz::states(); hz::trans();
        C c( n, 'e' ); tail t; hh::hash_append( t, F(), c ); if( t.n != n + k ) continue; // decided elsewhere
        std::uint64_t e = 0; std::memcpy( &e, t.last + 8 - k, k ); auto r = seen.emplace( e, n );
        if( !r.second && found < 3 ) { ++found; std::size_t m = r.first->second; bytes K( t.last + 8 - k, t.last + 8 ); for( std::size_t o: ns ) if( o > n + k && found < 3 ) { C x( o, 'e' ); tail u; hh::hash_append( u, F(), x ); if( !std::memcmp( u.last, t.last, 8 ) ) { confirm<C, F>( tn, fn, n, o, K ); ++found; } } confirm<C, F>( tn, fn, std::min( n, m ), std::max( n, m ), K ); }
    }
    hz::sample( "%s flavor %s: %zu counts, %zu different codes", tn, fn, ns.size(), seen.size() );
}
#define CT(N,ALL,TOP,...) UNIT( N ) { counts<__VA_ARGS__, hh::little_endian_flavor>( #__VA_ARGS__, "little", ALL, TOP ); counts<__VA_ARGS__, hh::big_endian_flavor>( #__VA_ARGS__, "big", ALL, TOP ); counts<__VA_ARGS__, sp::be32>( #__VA_ARGS__, "be32", ALL, TOP ); counts<__VA_ARGS__, sp::ne32>( #__VA_ARGS__, "ne32", ALL, TOP ); counts<__VA_ARGS__, hh::default_flavor>( #__VA_ARGS__, "default", ALL, TOP ); }
std::size_t const A0 = 70000, A1 = 6000, T0 = 1u << 24, T1 = 1u << 18;
CT( vec, A0, T0, std::vector<unsigned char> ) CT( str, A0, T0, std::string ) CT( deq, A1, T1, std::deque<unsigned char> ) CT( lst, A1, T1, std::list<unsigned char> ) CT( fwl, A1, T1, std::forward_list<unsigned char> ) CT( vbo, A1, T1, std::vector<bool> )
// counts beyond memory: over an untouched mapping; the codes of representable counts must differ
template<class F> void huge( char const* fn )
{
    std::size_t const N = ( (std::size_t)1 << 34 ) + 4096; void* q = mmap( 0, N, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( q == MAP_FAILED ) { hz::g_truncated = true; return; }
    std::unordered_map<std::uint64_t, std::size_t> seen; std::size_t const k = sizeof( typename F::size_type );
    for( unsigned p = 8; p <= 34; ++p ) for( std::size_t b: { (std::size_t)1 << p, (std::size_t)3 << ( p - 1 ), (std::size_t)5 << ( p - 2 ) } ) for( int d = -2; d <= 2; ++d )
    {
        std::size_t n = b + d; if( n > N - 16 || ( k == 4 && n > 0xFFFFFFFFu ) ) continue;
        hz::cur( "contiguous bytes %zu %s", n, fn ); hz::states(); hz::trans(); hz::traces(); tail t; it::crange<unsigned char> r = { (unsigned char const*)q, n }; hh::hash_append( t, F(), r ); if( t.n != n + k ) continue;
        std::uint64_t e = 0; std::memcpy( &e, t.last + 8 - k, k ); auto x = seen.emplace( e, n );
        if( !x.second && n >= x.first->second + k ) hz::viol( "count", "contiguous ranges of %zu and %zu bytes, flavor %s, send the same count, so that pairs of such ranges that are divided differently send the same message", x.first->second, n, fn );
    }
    munmap( q, N );
}
UNIT( huge ) { huge<hh::little_endian_flavor>( "little" ); huge<hh::big_endian_flavor>( "big" ); huge<sp::be32>( "be32" ); huge<hh::default_flavor>( "default" ); }
