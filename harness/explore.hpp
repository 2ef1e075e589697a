// Explicit-state exploration helpers over real algorithm objects.
#pragma once
#include "common.hpp"
#include "algos.hpp"
#include <set>
#include <deque>
#include <map>
#include <new>
#include <memory>

// a real object stored in zeroed storage, so that its raw bytes identify its state
template<class H> struct box
{
    alignas( H ) unsigned char s[ sizeof(H) ];
    box() { std::memset( s, 0, sizeof s ); new( s ) H(); }
    explicit box( std::uint64_t seed ) { std::memset( s, 0, sizeof s ); new( s ) H( seed ); }
    box( unsigned char const* p, std::size_t n ) { std::memset( s, 0, sizeof s ); new( s ) H( p, n ); }
    box( box const& r ) { std::memset( s, 0, sizeof s ); new( s ) H( r.get() ); }
    box& operator=( box const& r ) { get() = r.get(); return *this; }
    ~box() { get().~H(); }
    H& get() { return *reinterpret_cast<H*>( s ); }
    H const& get() const { return *reinterpret_cast<H const*>( s ); }
    std::string key() const { return std::string( (char const*)s, sizeof s ); }
};

typedef std::vector<unsigned char> bytes;

inline bytes pattern( int k, std::size_t n )
{
    bytes m( n + 1 ); // +1: &m[0] always valid
    for( std::size_t i = 0; i < n; ++i )
    {
        unsigned char c;
        switch( k )
        {
        case 0: c = (unsigned char)( i*7 + 3 ); break;
        case 1: c = (unsigned char)( 0xFF - i*13 ); break;
        case 2: c = 0; break;
        case 3: c = 0xFF; break;
        default: c = (unsigned char)( ( i*i*131 + i*17 + k*89 ) >> 2 ); break;
        }
        m[i] = c;
    }
    return m;
}
// long messages: no period, lengths around every power of two and some others
inline bytes aperiodic( std::size_t n )
{
    bytes m( n + 1 );
    for( std::size_t i = 0; i < n; ++i ) { std::uint64_t x = ( i + 1 ) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; m[i] = (unsigned char)( x >> 37 ); }
    return m;
}
inline std::vector<std::size_t> long_lengths( unsigned lo, unsigned hi )
{
    std::vector<std::size_t> r; std::size_t const dec[] = { 1000, 3000, 5000, 10000, 30000, 50000, 100000, 250000, 1000000 };
    for( unsigned k = lo; k <= hi; ++k ) { std::size_t const n = (std::size_t)1 << k; r.push_back( n - 1 ); r.push_back( n ); r.push_back( n + 1 ); r.push_back( n + n / 2 + 3 ); }
    for( std::size_t d: dec ) if( d <= ( (std::size_t)1 << hi ) && d >= ( (std::size_t)1 << lo ) ) r.push_back( d );
    return r;
}
// a piece of a message as the caller's own temporary: a copy between foreign bytes, at an
// alternating alignment, overwritten when the call is over
class piece
{
    unsigned char* b; std::size_t n;
public:
    unsigned char* p;
    piece( unsigned char const* q, std::size_t k ): n( k + 300 ) { static unsigned c; ++c; b = (unsigned char*)std::malloc( n ); std::memset( b, 0xA5 ^ (int)( c * 29 ), n ); p = b + 144 + c % 8; if( k ) std::memcpy( p, q, k ); }
    ~piece() { std::memset( b, 0x3D, n ); std::free( b ); }
    piece( piece const& ) = delete; piece& operator=( piece const& ) = delete;
};
template<class H> inline void feed( H& h, unsigned char const* q, std::size_t k, bool untyped = false ) { piece t( q, k ); if( untyped ) h.update( (void const*)t.p, k ); else h.update( t.p, k ); }

inline char const* hx( ref::res const& r ) { static std::string s[4]; static int i = 0; i = (i+1)&3; s[i] = hz::hex( r.b, r.n ); return s[i].c_str(); }
