// C16: after a result, no message, seed or key byte is left in the object, in the clear or masked by
// a constant. For every history and every input byte, the byte is given other values and the whole
// object is compared: an offset that follows the byte (by exclusive or, by addition, or by
// subtraction) under all 256 values is a leak.
#define HARNESS_MAIN
#include "explore.hpp"

// a history: construction and rounds of (update in pieces, result)
struct round_ { std::size_t off, n; int split; int results; };
struct hist { int ctor; std::size_t klen; std::uint64_t seed; std::vector<round_> r; };

template<class H, unsigned B> struct leak
{
    char const* name; bytes data; // key, then messages
    void feed( H& h, unsigned char const* p, std::size_t n, int split )
    {
        switch( split )
        {
        case 0: h.update( p, n ); break;
        case 1: for( std::size_t i = 0; i < n; ++i ) h.update( p + i, 1 ); break;
        case 2: { std::size_t a = n? 1: 0; h.update( p, a ); h.update( p + a, n - a ); break; }
        case 3: { std::size_t a = n? n - 1: 0; h.update( (void const*)p, a ); h.update( p + a, n - a ); break; }
        case 4: { std::size_t a = n < B - 1? n: B - 1; h.update( p, a ); h.update( p + a, n - a ); break; }
        case 5: { std::size_t a = n / 3; h.update( p, a ); h.update( p + a, a ); h.update( p + 2*a, n - 2*a ); break; }
        case 6: for( std::size_t i = 0; i < n; i += 7 ) h.update( p + i, n - i < 7? n - i: 7 ); break;
        default: { std::size_t a = (std::size_t)( split - 100 ); if( a > n ) a = n; h.update( p, a ); h.update( p + a, n - a ); break; }
        }
    }
    unsigned char st[ sizeof(H) ];
    void exec( hist const& x, unsigned char const* d )
    {
        hz::trans();
        if( x.ctor == 0 ) go( box<H>(), x, d ); else if( x.ctor == 1 ) go( box<H>( x.seed ), x, d ); else go( box<H>( d, x.klen ), x, d );
    }
    void go( box<H> b, hist const& x, unsigned char const* d )
    {
        for( round_ const& r: x.r ) { feed( b.get(), d + r.off, r.n, r.split ); for( int i = 0; i < r.results; ++i ) (void)b.get().result(); }
        std::memcpy( st, b.s, sizeof st );
    }
    std::string show( hist const& x ) { char t[ 64 ]; std::string s; snprintf( t, sizeof t, "construction %d (key %zu)", x.ctor, x.klen ); s = t; for( round_ const& r: x.r ) { snprintf( t, sizeof t, ", update %zu (split %d), %d results", r.n, r.split, r.results ); s += t; } return s; }
    // p: position of the examined byte in data
    void byte( hist const& x, std::size_t p )
    {
        static int const ds[] = { 1, 0x80, 0x55, 0xFF };
        unsigned char base[ sizeof(H) ]; exec( x, &data[0] ); std::memcpy( base, st, sizeof base );
        std::vector<std::size_t> cx, ca, cs; unsigned char o = data[p];
        for( int k = 0; k < 259; ++k )
        {
            unsigned char d = (unsigned char)( k < 4? ds[k]: k - 3 ); data[p] = (unsigned char)( o ^ d ); exec( x, &data[0] ); unsigned char q = data[p]; data[p] = o;
            if( k == 0 ) { for( std::size_t i = 0; i < sizeof(H); ++i ) { if( ( st[i] ^ base[i] ) == d ) cx.push_back( i ); if( (unsigned char)( st[i] - base[i] ) == (unsigned char)( q - o ) ) ca.push_back( i ); if( (unsigned char)( base[i] - st[i] ) == (unsigned char)( q - o ) ) cs.push_back( i ); } }
            else { keep( cx, [&]( std::size_t i ){ return ( st[i] ^ base[i] ) == d; } ); keep( ca, [&]( std::size_t i ){ return (unsigned char)( st[i] - base[i] ) == (unsigned char)( q - o ); } ); keep( cs, [&]( std::size_t i ){ return (unsigned char)( base[i] - st[i] ) == (unsigned char)( q - o ); } ); }
            if( cx.empty() && ca.empty() && cs.empty() ) return;
        }
        std::size_t at = !cx.empty()? cx[0]: !ca.empty()? ca[0]: cs[0];
        hz::viol( name, "%s: byte at offset %zu of the %s %s in the object (offset %zu of %zu) after: %s", name, p < x.klen? p: p - off0( x ), p < x.klen? "key": "message", base[at] == o? "is left": "is left, masked,", at, sizeof(H), show( x ).c_str() );
    }
    static std::size_t off0( hist const& x ) { return x.r.empty()? 0: x.r[0].off; }
    template<class P> static void keep( std::vector<std::size_t>& v, P p ) { std::size_t j = 0; for( std::size_t i = 0; i < v.size(); ++i ) if( p( v[i] ) ) v[ j++ ] = v[i]; v.resize( j ); }
    // all bytes of a history
    void check( hist x )
    {
        if( IS_LEGACY && x.ctor == 2 ) return; // seeds of the legacy algorithms are not keys
        std::size_t end = x.klen; for( round_ const& r: x.r ) end = r.off + r.n > end? r.off + r.n: end;
        hz::cur( "%s %s", name, show( x ).c_str() ); hz::states(); hz::traces();
        for( std::size_t p = 0; p < end; ++p ) byte( x, p );
        if( hz::g_samples < 2 && end > 40 ) hz::sample( "%s: %s: %zu input bytes x %zu object bytes", name, show( x ).c_str(), end, sizeof(H) );
    }
    static hist one( int ctor, std::size_t klen, std::size_t n, int split, int results = 1 ) { hist h = { ctor, ctor == 2? klen: 0, 0x0123456789ABCDEFull, {} }; round_ r = { h.klen, n, split, results }; h.r.push_back( r ); return h; }
    void run( int part )
    {
        data = pattern( 9, 12 * B + 64 ); std::size_t const L = ( hz::g_thorough? 4: 2 ) * B + 4;
        if( part == 0 ) for( std::size_t n = 1; n <= L; ++n ) for( int s = 0; s <= 6; ++s ) check( one( 0, 0, n, s ) ); // every length, standard splits
        if( part == 1 )
        {   // every two-piece split
            std::size_t M = hz::g_thorough? 2*B + 2: B + 2; for( std::size_t n = 1; n <= M; ++n ) for( std::size_t k = 0; k <= n; k += ( B > 64 && !hz::g_thorough? 3: 1 ) ) check( one( 0, 0, n, 100 + (int)k ) );
        }
        if( part == 2 )
        {   // seeds and keys of every length
            for( std::size_t k = 0; k <= L; ++k ) for( std::size_t n: { (std::size_t)0, (std::size_t)1, (std::size_t)B - 1, (std::size_t)B + 3 } ) check( one( 2, k, n, k % 7, 1 + k % 2 ) );
            for( std::size_t n = 0; n <= B + 9; ++n ) { check( one( 1, 0, n, n % 7 ) ); check( one( 2, 16, n, ( n + 3 ) % 7 ) ); }
        }
        if( part == 3 )
        {   // several rounds
            std::size_t const ns[] = { 0, 1, 3, 8, B/2, B - 9 > B? 2: B - 9, B - 1, B, B + 1, 2*B - 1 };
            for( std::size_t a: ns ) for( std::size_t b: ns ) for( int c = 0; c < 3; ++c ) for( int res = 1; res <= 2; ++res )
            {
                hist h = one( c, 20, a, (int)( a + b ) % 7, res ); round_ r = { h.r[0].off + a, b, (int)( a * 3 + b ) % 7, res }; h.r.push_back( r ); check( h );
                if( hz::g_thorough || ( res == 1 && b > 1 ) ) { round_ q = { r.off + b, (std::size_t)( ( a + b ) % ( B + 2 ) ), 0, 1 }; h.r.push_back( q ); if( hz::g_thorough || c == 0 ) check( h ); }
                // no result between the updates: the tail of an earlier block
                if( res == 1 ) { hist g = one( c, 20, a, 0, 0 ); round_ t = { g.r[0].off + a, b, 0, 1 }; g.r.push_back( t ); check( g ); }
            }
        }
        if( part == 4 )
        {   // other backgrounds: zero, all ones, low entropy
            for( int pat: { 2, 3, 4 } ) { data = pattern( pat, 12 * B + 64 ); for( std::size_t n = 1; n <= 2 * B + 2; n += ( hz::g_thorough? 1: 3 ) ) { check( one( 0, 0, n, n % 7 ) ); check( one( 2, n, n % 5, 0 ) ); } }
        }
    }
};
#define XU(N,H,M,B) UNIT( N##_0 ) { leak<H, B> t = { #N }; t.run( 0 ); } UNIT( N##_1 ) { leak<H, B> t = { #N }; t.run( 1 ); } UNIT( N##_2 ) { leak<H, B> t = { #N }; t.run( 2 ); } UNIT( N##_3 ) { leak<H, B> t = { #N }; t.run( 3 ); } UNIT( N##_4 ) { leak<H, B> t = { #N }; t.run( 4 ); }
ALGOS_ALL( XU )
// integer seeds that act as keys
template<class H> void ikey( char const* name )
{
    for( std::uint64_t s: { 0x0123456789ABCDEFull, 0xF1E2D3C4B5A69788ull } ) for( std::size_t n: { 0, 1, 5, 8, 64, 130 } ) for( int res = 1; res <= 2; ++res )
    {
        bytes m = pattern( 6, n ); hz::states();
        for( int p = 0; p < 8; ++p )
        {
            std::vector<std::vector<unsigned char> > o( 256 );
            for( int v = 0; v < 256; ++v ) { std::uint64_t t = ( s & ~( 0xFFull << 8*p ) ) | ( (std::uint64_t)v << 8*p ); box<H> b( t ); b.get().update( &m[0], n ); for( int i = 0; i < res; ++i ) b.get().result(); o[v].assign( b.s, b.s + sizeof(H) ); hz::trans(); }
            for( std::size_t i = 0; i < sizeof(H); ++i ) { bool x = true, a = true; for( int v = 1; v < 256 && ( x || a ); ++v ) { x = x && ( o[v][i] ^ o[0][i] ) == v; a = a && (unsigned char)( o[v][i] - o[0][i] ) == v; } if( x || a ) hz::viol( name, "%s: byte %d of the integer key is left in the object after a result, offset %zu (message of %zu bytes)", name, p, i, n ); }
        }
    }
}
#ifndef LEGACY
UNIT( integer_keys ) { ikey<hh::siphash_32>( "siphash_32" ); ikey<hh::siphash_64>( "siphash_64" );
#define XI(N,H,M,B) ikey<H>( #N );
ALGOS_HMAC( XI ) }
#endif
