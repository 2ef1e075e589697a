// C01: real digests == reference model for every explored message.
#define HARNESS_MAIN
#include "common.hpp"
#include "algos.hpp"
#include <fstream>

typedef std::vector<unsigned char> bytes;

template<class H> ref::res real( unsigned char const* p, std::size_t n, bool vp )
{
    H h; if( vp ) h.update( (void const*)p, n ); else h.update( p, n ); return to_res( h.result() );
}
template<class M> ref::res model( unsigned char const* p, std::size_t n ) { M m; m.update( p, n ); return m.result(); }

template<class H, class M> struct c01
{
    char const* name;
    unsigned long long cnt;
    void one( unsigned char const* p, std::size_t n, char const* what )
    {
        hz::cur( "%s n=%zu %s msg=%s", name, n, what, hz::hex( p, n < 64? n: 64 ).c_str() );
        ref::res e = model<M>( p, n );
        for( int vp = 0; vp < 2; ++vp )
        {
            hz::trans( 1 ); hz::traces();
            ref::res r = real<H>( p, n, vp );
            if( r != e ) hz::viol( name, "%s: message of %zu bytes (%s) %s: got %s want %s", name, n, what, hz::hex( p, n ).c_str(), hz::hex( r.b, r.n ).c_str(), hz::hex( e.b, e.n ).c_str() );
        }
        hz::states();
    }
    void run( unsigned B )
    {
        cnt = 0;
        std::size_t const Lmax = hz::g_thorough? 4200: ( B >= 64? 6*B + 9: 600 );
        bytes buf( Lmax + 64 );
        // 1. every length x byte-pattern families
        for( int pat = 0; pat < 8; ++pat )
        {
            for( std::size_t i = 0; i < buf.size(); ++i )
            {
                unsigned char c = 0;
                switch( pat )
                {
                case 0: c = (unsigned char)( i*7 + 3 ); break;
                case 1: c = 0; break;
                case 2: c = 0xFF; break;
                case 3: c = (unsigned char)( 0x80 + (i*29)%128 ); break;
                case 4: c = (unsigned char)( ( i*i*131 + i*17 + 89 ) >> 3 ); break;
                case 5: c = (unsigned char)( i & 1? 0x80: 0x7F ); break;
                case 6: c = (unsigned char)'a'; break;
                default: c = (unsigned char)( ~i ); break;
                }
                buf[i] = c;
            }
            for( std::size_t L = 0; L <= Lmax; ++L ) one( &buf[0] + pat, L, "length sweep" );
        }
        // 2. every byte value at every position of two blocks (length 2B+7: full blocks and tail)
        {
            std::size_t const n = 2*B + 7;
            for( int base = 0; base < ( hz::g_thorough? 3: 1 ); ++base )
            {
                bytes m( n, (unsigned char)( base == 0? 0: base == 1? 0xFF: 0x5A ) );
                for( std::size_t i = 0; i < n; ++i ) { unsigned char k = m[i]; for( int v = 0; v < 256; ++v ) { m[i] = (unsigned char)v; one( &m[0], n, "byte sweep" ); } m[i] = k; }
            }
        }
        // 3. every value of the first and of the last byte, at every length up to B+16
        for( std::size_t n = 1; n <= B + 16; ++n )
        {
            bytes m( n, 0xA5 );
            for( int v = 0; v < 256; ++v ) { m[n-1] = (unsigned char)v; one( &m[0], n, "last byte sweep" ); }
            m[n-1] = 0xA5;
            for( int v = 0; v < 256; v += ( hz::g_thorough? 1: 5 ) ) { m[0] = (unsigned char)v; one( &m[0], n, "first byte sweep" ); }
        }
        // 4. every message of at most two bytes (thorough: a large part of the three-byte ones)
        {
            unsigned char m[3];
            for( int a = 0; a < 256; ++a ) { m[0] = (unsigned char)a; one( m, 1, "all short" ); for( int b = 0; b < 256; ++b ) { m[1] = (unsigned char)b; one( m, 2, "all short" ); } }
            if( hz::g_thorough ) for( int a = 0; a < 256; a += 5 ) for( int b = 0; b < 256; ++b ) for( int c = 0; c < 256; c += 3 ) { m[0]=(unsigned char)a; m[1]=(unsigned char)b; m[2]=(unsigned char)c; one( m, 3, "all short" ); }
        }
        // 5. two-byte interactions: all pairs of positions of one block holding 0x80/0xFF
        {
            std::size_t const n = B;
            bytes m( n, 0 );
            for( std::size_t i = 0; i < n; ++i ) for( std::size_t j = i+1; j < n; ++j )
            {
                m[i] = 0xFF; m[j] = 0x80; one( &m[0], n, "pair sweep" ); m[i] = 0x01; m[j] = 0xFF; one( &m[0], n, "pair sweep" ); m[i] = m[j] = 0;
            }
        }
        // 6. longer messages at block multiples +-1
        for( std::size_t k = 8; k <= ( hz::g_thorough? 4096u: 256u ); k *= 2 ) for( int d = -1; d <= 1; ++d )
        {
            bytes m( k*B + d ); for( std::size_t i = 0; i < m.size(); ++i ) m[i] = (unsigned char)( i*i + (i>>8) + 11 );
            one( &m[0], m.size(), "long" );
        }
        // 7. lengths around powers of two, content without a period
        {
            unsigned const hi = hz::g_thorough? 23: 19; bytes m( ( (std::size_t)2 << hi ) + 8 ); for( std::size_t i = 0; i < m.size(); ++i ) { std::uint64_t x = ( i + 1 ) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; m[i] = (unsigned char)( x >> 37 ); }
            for( unsigned k = 10; k <= hi; ++k ) for( int d = -1; d < 3; ++d ) one( &m[0] + k % 8, d == 2? ( (std::size_t)3 << ( k - 1 ) ) + 5: ( (std::size_t)1 << k ) + d, "power of two" );
        }
        ref::res e = model<M>( (unsigned char const*)"abc", 3 );
        hz::sample( "%s(\"abc\") = %s (model and implementation)", name, hz::hex( e.b, e.n ).c_str() );
    }

};

// cross-check of the models against vectors made by a third implementation: lines "name hexmsg-kind n digest"
template<class M> void oracle( char const* name )
{
    char const* f = getenv( "ORACLE_VECTORS" ); if( !f ) return;
    std::ifstream is( f ); std::string a, d; std::size_t n; unsigned long long k = 0;
    while( is >> a >> n >> d )
    {
        if( a != name ) continue;
        bytes m( n + 1 ); for( std::size_t i = 0; i < n; ++i ) m[i] = (unsigned char)( i*7 + 3 );
        ref::res e = model<M>( &m[0], n ); ++k;
        if( hz::hex( e.b, e.n ) != d ) { fprintf( stderr, "MODEL MISMATCH %s n=%zu\n", name, n ); exit( 9 ); }
    }
    printf( "INFO model_vs_hashlib=%llu vectors\n", k );
}

#define X( name, type, mod, B ) UNIT( name ) { oracle< mod >( #name ); c01< type, mod > c = { #name, 0 }; c.run( B ); }
ALGOS_PLAIN( X )
