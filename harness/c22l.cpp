// C22: messages passing 2^32 bytes in many calls, 32-bit code (freestanding). -DSEL(X)
#define LEGACY
#include "algos.hpp"
#include "bare.hpp"
typedef unsigned char u8; typedef std::uint64_t u64;
static void puts_( char const* s ) { std::size_t n = 0; while( s[n] ) ++n; out( s, n ); }
static void num( unsigned long long x ) { char b[ 24 ]; int i = 24; do b[ --i ] = (char)( '0' + x % 10 ); while( x /= 10 ); out( b + i, 24 - i ); }
static u8 data[ 65536 + 64 ];
template<class H, class M> static void run( char const* name )
{
    for( unsigned i = 0; i < sizeof data; ++i ) data[i] = (u8)( ( i * i * 131 + i * 17 + 90 ) >> 2 );
    u64 const G = (u64)1 << 32, B[] = { G / 2 - 400, G - 400 }; H h; M m; u64 a = 0; unsigned long long cases = 0; int bad = 0;
    for( int b = 0; b < 2; ++b )
    {
        while( a < B[b] ) { std::size_t c = a % 7 == 3? 60001: 65536; if( B[b] - a < c ) c = (std::size_t)( B[b] - a ); h.update( data, c ); m.update( data, c ); a += c; }
        for( int k = 0; k < 1200; ++k, ++a )
        {
            H g( h ); M q( m );
            for( int r = 0; r < 3; ++r ) { ++cases; if( to_res( g.result() ) != q.result() && ++bad <= 2 ) { puts_( "VIOL key=long 32-bit " ); puts_( name ); puts_( ": result " ); num( r + 1 ); puts_( " after " ); num( a ); puts_( " bytes in many calls is wrong\n" ); } }
            H x( h ); M y( m ); x.update( data + k, 300 ); y.update( data + k, 300 ); ++cases; if( to_res( x.result() ) != y.result() && ++bad <= 2 ) { puts_( "VIOL key=long 32-bit " ); puts_( name ); puts_( ": result after " ); num( a ); puts_( " + 300 bytes is wrong\n" ); }
            h.update( data + k, 1 ); m.update( data + k, 1 );
        }
    }
    puts_( "STAT states=" ); num( cases ); puts_( " trans=" ); num( cases ); puts_( " traces=" ); num( cases ); puts_( " viol=" ); num( bad ); puts_( "\nDONE\n" );
}
int main()
{
#define XB(N,H,M,B) run<H, M>( #N );
    SEL( XB ) return 0;
}
