// C15: digest values. One unit per group of sizes.
#define HARNESS_MAIN
#include "common.hpp"
#include <boost/hash2/digest.hpp>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <memory>
namespace hh = boost::hash2;
typedef unsigned char u8;

template<std::size_t N> struct raw { u8 v[ N ]; };
template<std::size_t N> hh::digest<N> mk( u8 const* p ) { u8 t[ N ]; std::memcpy( t, p, N ); return hh::digest<N>( t ); }
static std::string want_text( u8 const* p, std::size_t n ) { std::string s; for( std::size_t i = 0; i < n; ++i ) for( int k = 0; k < 2; ++k ) { unsigned d = k? p[i] % 16: p[i] / 16; s += (char)( d < 10? '0' + d: 'a' + ( d - 10 ) ); } return s; }

template<std::size_t N> void bounded( hh::digest<N> const& d, std::string const& t, std::size_t size, char const* how )
{
    // guarded buffer: size bytes between two guard zones
    std::vector<char> b( size + 80, '\x6B' ); char* p = b.data() + 40; hz::trans(); hz::traces();
    char* r = hh::to_chars( d, p, p + size );
    if( size < 2 * N )
    {
        if( r != nullptr ) hz::viol( "short-buffer", "to_chars of %zu bytes into %zu: not null", N, size );
        for( char c: b ) if( c != '\x6B' ) { hz::viol( "short-buffer", "to_chars of %zu bytes into %zu writes to the buffer", N, size ); break; }
    }
    else
    {
        if( r != p + 2 * N ) hz::viol( "to_chars", "to_chars of %zu bytes into %zu returns position %td", N, size, r? r - p: -1 );
        if( std::string( p, 2 * N ) != t ) hz::viol( "to_chars", "to_chars of %zu bytes (%s) into %zu: '%s' not '%s'", N, how, size, std::string( p, 2 * N ).c_str(), t.c_str() );
        for( std::size_t i = 0; i < b.size(); ++i ) if( ( i < 40 || i >= 40 + 2 * N ) && b[i] != '\x6B' ) { hz::viol( "to_chars", "to_chars of %zu bytes into %zu writes outside its 2N characters, at %td", N, size, (std::ptrdiff_t)i - 40 ); break; }
    }
}
template<std::size_t N, std::size_t M> void arr( hh::digest<N> const& d, std::string const& t )
{
    struct { char pre[ 8 ]; char w[ M ]; char post[ 8 ]; } x; std::memset( &x, 0x6B, sizeof x ); hz::trans(); hz::traces();
    hh::to_chars( d, x.w );
    if( std::memcmp( x.w, t.c_str(), 2 * N + 1 ) != 0 ) hz::viol( "array-form", "to_chars of %zu bytes into char[%zu]: not the text with a terminator", N, M );
    for( std::size_t i = 2 * N + 1; i < M; ++i ) if( x.w[i] != 0x6B ) { hz::viol( "array-form", "to_chars of %zu bytes into char[%zu] writes past the terminator", N, M ); break; }
    for( int i = 0; i < 8; ++i ) if( x.pre[i] != 0x6B || x.post[i] != 0x6B ) { hz::viol( "array-form", "to_chars of %zu bytes into char[%zu] writes outside the array", N, M ); break; }
}
template<std::size_t N> void text( u8 const* p, char const* how )
{
    hh::digest<N> d = mk<N>( p ); std::string t = want_text( p, N ); hz::states(); hz::cur( "digest<%zu> %s", N, hz::hex( p, N ).c_str() );
    bounded( d, t, 2 * N, how ); bounded( d, t, 2 * N - 1, how ); bounded( d, t, 2 * N + 1, how );
    arr<N, 2 * N + 1>( d, t ); arr<N, 2 * N + 7>( d, t );
    hz::trans( 2 ); hz::traces( 2 );
    if( to_string( d ) != t ) hz::viol( "to_string", "to_string of %s: %s", t.c_str(), to_string( d ).c_str() );
    std::ostringstream os; os << d; if( os.str() != t ) hz::viol( "stream", "operator<< of %s: %s", t.c_str(), os.str().c_str() );
}
template<std::size_t N> void values( u8 const* p ) // iteration, indexing, data
{
    hz::states(); hz::trans( 10 ); hz::traces();
    hh::digest<N> d = mk<N>( p ); hh::digest<N> const c = d; hh::digest<N> e; e = c;
    bool ok = d.size() == N && c.size() == N && c.max_size() == N && (std::size_t)( c.end() - c.begin() ) == N && (std::size_t)( d.end() - d.begin() ) == N;
    for( std::size_t i = 0; ok && i < N; ++i ) ok = d[i] == p[i] && c[i] == p[i] && d.data()[i] == p[i] && c.data()[i] == p[i] && e[i] == p[i] && *( c.begin() + i ) == p[i] && *( d.begin() + i ) == p[i] && &c[i] == c.data() + i && &d[i] == d.data() + i;
    ok = ok && c.front() == p[0] && d.front() == p[0] && c.back() == p[N-1] && d.back() == p[N-1] && &d.front() == d.data() && &d.back() == d.data() + ( N - 1 ) && std::equal( c.begin(), c.end(), p );
    if( !ok ) hz::viol( "access", "digest<%zu> of %s: an accessor disagrees with the bytes", N, hz::hex( p, N ).c_str() );
    // writes through each accessor
    for( std::size_t i = 0; i < N; ++i )
    {
        hh::digest<N> w = d; w[i] ^= 0x41; hh::digest<N> x = d; x.data()[i] ^= 0x41; hh::digest<N> y = d; *( y.begin() + i ) ^= 0x41; hh::digest<N> z = d; *( z.end() - ( N - i ) ) ^= 0x41; hz::trans( 4 );
        for( std::size_t j = 0; j < N; ++j ) { u8 v = (u8)( p[j] ^ ( i == j? 0x41: 0 ) ); if( w[j] != v || x[j] != v || y[j] != v || z[j] != v ) { hz::viol( "write", "digest<%zu>: a write at %zu is not seen (only) there", N, i ); break; } }
        if( d != c ) hz::viol( "write", "digest<%zu>: a write to a copy changes the original", N );
    }
    { hh::digest<N> w = d; w.front() = (u8)( p[0] + 1 ); if( w[0] != (u8)( p[0] + 1 ) || w == d ) hz::viol( "write", "digest<%zu>: front", N ); w = d; w.back() = (u8)( p[N-1] + 1 ); if( w[N-1] != (u8)( p[N-1] + 1 ) || w == d ) hz::viol( "write", "digest<%zu>: back", N ); }
}
template<std::size_t N> void cmp( hh::digest<N> const& a, hh::digest<N> const& b, bool eq, char const* how )
{
    hz::trans( 4 ); hz::traces(); hz::states();
    if( ( a == b ) != eq || ( b == a ) != eq || ( a != b ) == eq || ( b != a ) == eq ) hz::viol( "compare", "digest<%zu> %s and %s (%s): equality is wrong", N, hz::hexc( a ).c_str(), hz::hexc( b ).c_str(), how );
}
template<std::size_t N> void compare( u8 const* p )
{
    hh::digest<N> a = mk<N>( p ); cmp( a, mk<N>( p ), true, "same bytes" ); cmp( a, a, true, "itself" );
    for( std::size_t i = 0; i < N; ++i )
    {
        for( int v = 1; v < 256; ++v ) { hh::digest<N> b = a; b[i] ^= (u8)v; cmp( a, b, false, "one byte differs" ); }
        for( std::size_t j = 0; j < i; ++j ) for( int v: { 1, 0x80, 0xFF, 0x55 } )
        {
            hh::digest<N> b = a; b[i] ^= (u8)v; b[j] ^= (u8)v; cmp( a, b, false, "two bytes differ alike" );
            b = a; b[i] += (u8)v; b[j] -= (u8)v; cmp( a, b, false, "two bytes differ oppositely" );
            if( a[i] != a[j] ) { b = a; std::swap( b[i], b[j] ); cmp( a, b, false, "two bytes exchanged" ); }
        }
    }
    hh::digest<N> b = a; for( std::size_t i = 0; i < N; ++i ) b[i] ^= 0x80; cmp( a, b, false, "every byte differs" );
    if( N > 1 ) { bool same = true; for( std::size_t i = 1; i < N; ++i ) same = same && p[i] == p[0]; b = a; std::rotate( b.begin(), b.begin() + 1, b.end() ); cmp( a, b, same, "rotated" ); }
}
template<std::size_t N> void size()
{
    { hh::digest<N> z, y{}; for( std::size_t i = 0; i < N; ++i ) if( z[i] || y[i] ) hz::viol( "default", "digest<%zu>: default construction is not zero", N ); u8 q[N] = {}; cmp( z, mk<N>( q ), true, "default and zero" ); hz::states(); hz::trans( 2 ); }
    for( int pat = 0; pat < 5; ++pat )
    {
        u8 p[N]; for( std::size_t i = 0; i < N; ++i ) p[i] = (u8)( pat == 0? 0: pat == 1? 0xFF: pat == 2? i * 37 + 11: pat == 3? 0xF0 - i: i * i * 3 + 0x9C );
        text<N>( p, "pattern" ); values<N>( p ); if( pat < 3 || N <= 32 || hz::g_thorough ) compare<N>( p );
        hh::digest<N> d = mk<N>( p ); std::string t = want_text( p, N );
        for( std::size_t s = 0; s <= 2 * N + 20; ++s ) bounded( d, t, s, "size sweep" );
    }
    // every byte value at every position
    u8 p[N]; for( std::size_t i = 0; i < N; ++i ) p[i] = (u8)( i * 29 + 1 );
    for( std::size_t i = 0; i < N; ++i ) { u8 o = p[i]; for( int v = 0; v < 256; ++v ) { p[i] = (u8)v; text<N>( p, "byte sweep" ); } p[i] = o; }
    // stream states: the text does not depend on integer formatting, case or width up to its length
    hh::digest<N> d = mk<N>( p ); std::string t = want_text( p, N );
    for( int f = 0; f < 64; ++f ) for( int w: { 0, 1, (int)( 2 * N ) } )
    {
        std::ostringstream os; if( f & 1 ) os << std::uppercase; if( f & 2 ) os << std::hex; if( f & 4 ) os << std::showbase; if( f & 8 ) os << std::left; if( f & 16 ) os << std::setfill( '*' ); if( f & 32 ) os << std::oct << std::showpos;
        os << std::setw( w ); std::ostream& r = ( os << d ); hz::trans(); hz::states();
        if( &r != &os || os.str() != t || !os.good() ) hz::viol( "stream", "operator<< of digest<%zu> with format state %d width %d: '%s'", N, f, w, os.str().c_str() );
        os << '|' << d << d; if( os.str() != t + '|' + t + t ) hz::viol( "stream", "operator<< of digest<%zu> twice, format state %d", N, f );
    }
    if( hh::to_chars( d, (char*)nullptr, (char*)nullptr ) != nullptr ) hz::viol( "short-buffer", "to_chars into a null buffer of size zero" );
    hz::sample( "digest<%zu>: %s", N, t.c_str() );
}
template<std::size_t A, std::size_t B, bool E = ( A > B )> struct sizes { static void run() { size<A>(); sizes<A + 1, B>::run(); } };
template<std::size_t A, std::size_t B> struct sizes<A, B, true> { static void run() {} };
#ifdef LO
UNIT( sizes_ ) { sizes<LO, HI>::run(); }
#endif
#ifdef EXTRA
UNIT( all_pairs_1 ) { for( int i = 0; i < 256; ++i ) for( int j = 0; j < 256; ++j ) { u8 a = (u8)i, b = (u8)j; cmp( mk<1>( &a ), mk<1>( &b ), i == j, "all pairs" ); } }
UNIT( all_texts_2 ) { for( int i = 0; i < 65536; ++i ) { u8 p[2] = { (u8)i, (u8)( i >> 8 ) }; hh::digest<2> d = mk<2>( p ); bounded( d, want_text( p, 2 ), 4, "all" ); hz::states(); } }
UNIT( pairs_2 ) { for( int i = 0; i < 65536; i += ( hz::g_thorough? 17: 257 ) ) for( int j = 0; j < 65536; ++j ) { u8 p[2] = { (u8)i, (u8)( i >> 8 ) }, q[2] = { (u8)j, (u8)( j >> 8 ) }; cmp( mk<2>( p ), mk<2>( q ), i == j, "pairs" ); } }
// sizes whose count of bytes or characters does not fit a byte
template<std::size_t N> void big()
{
    for( int pat = 0; pat < 3; ++pat )
    {
        u8 p[N]; for( std::size_t i = 0; i < N; ++i ) p[i] = (u8)( pat == 0? 0: pat == 1? i * 37 + 11: 0xF0 - i / 3 );
        text<N>( p, "big" ); values<N>( p ); hh::digest<N> d = mk<N>( p ), a = d; std::string t = want_text( p, N ); cmp( a, d, true, "same bytes" );
        std::size_t const ss[] = { 0, 1, 2 * ( N % 128 ), 2 * ( N % 128 ) + 1, 255, 256, N, 2 * N - 2, 2 * N - 1, 2 * N, 2 * N + 1, 2 * N + 2, 65536 }; for( std::size_t s: ss ) bounded( d, t, s, "big" );
        for( std::size_t i = 0; i < N; ++i ) { a[i] ^= 0x10; cmp( a, d, false, "one byte differs" ); a[i] ^= 0x10; }
    }
}
UNIT( big_sizes ) { big<127>(); big<128>(); big<129>(); big<255>(); big<256>(); big<257>(); big<300>(); big<512>(); big<1000>(); }
#if __cplusplus >= 201402L
template<std::size_t N> struct ctx { char t[ 2*N + 1 ]; bool nul, full; bool eq[ N + 1 ]; u8 f, b; std::size_t n; };
template<std::size_t N> constexpr hh::digest<N> cmk() { u8 v[N] = {}; for( std::size_t i = 0; i < N; ++i ) v[i] = (u8)( i * 37 + 0xE1 ); return hh::digest<N>( v ); }
template<std::size_t N> constexpr ctx<N> cmake()
{
    ctx<N> r{}; hh::digest<N> d = cmk<N>(); hh::to_chars( d, r.t ); char b[ 2*N + 3 ] = {}; r.nul = hh::to_chars( d, b, b + 2*N - 1 ) == nullptr && b[0] == 0; r.full = hh::to_chars( d, b, b + 2*N + 2 ) == b + 2*N && b[ 2*N ] == 0 && b[ 2*N - 1 ] != 0;
    for( std::size_t i = 0; i < N; ++i ) { hh::digest<N> e = d; e[i] ^= 0x80; r.eq[i] = ( e == d ) || !( e != d ) || !( d != e ); } hh::digest<N> e; e = d; r.eq[N] = !( e == d ) || e != d; r.f = d.front(); r.b = d.back(); for( u8 c: d ) r.n += c == d[ r.n ]; return r;
}
template<std::size_t N> void ct()
{
    constexpr ctx<N> r = cmake<N>(); hh::digest<N> d = cmk<N>(); std::string t = want_text( d.data(), N ); hz::states(); hz::trans( N + 5 ); hz::traces();
    bool ok = std::string( r.t, 2*N + 1 ) == std::string( t.c_str(), 2*N + 1 ) && r.nul && r.full && r.f == d.front() && r.b == d.back() && r.n == N; for( bool e: r.eq ) ok = ok && !e;
    if( !ok ) hz::viol( "constexpr", "digest<%zu>: compile-time text, comparison or access differs from run time", N );
}
UNIT( constexprs ) { ct<1>(); ct<2>(); ct<3>(); ct<4>(); ct<7>(); ct<8>(); ct<9>(); ct<16>(); ct<20>(); ct<28>(); ct<32>(); ct<48>(); ct<64>(); ct<65>(); }
#endif
#endif
