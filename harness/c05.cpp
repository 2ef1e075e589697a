// C05: HMAC == RFC 2104 model for every explored key, message and split; also over user-written hashes.
#define HARNESS_MAIN
#include "explore.hpp"
#include "toy.hpp"
#include <array>

template<class H, class M> struct macs
{
    char const* name; unsigned B;
    unsigned long long keys;
    void probe( unsigned char const* k, std::size_t n, bytes const& msg, std::size_t L, char const* what )
    {
        hz::cur( "%s key[%zu]=%s msg %zu (%s)", name, n, hz::hex( k, n < 64? n: 64 ).c_str(), L, what );
        H h( k, n ); M m( k, n ); hz::states(); hz::traces(); hz::trans( 3 );
        h.update( &msg[0], L ); m.update( &msg[0], L );
        for( int j = 0; j < 2; ++j )
        {
            ref::res r = to_res( h.result() ), e = m.result();
            if( r != e ) hz::viol( name, "%s key of %zu bytes %s, message of %zu bytes (%s), result #%d: got %s want %s", name, n, hz::hex( k, n ).c_str(), L, what, j+1, hx(r), hx(e) );
        }
    }
    void run()
    {
        std::size_t const KM = hz::g_thorough? 6*B + 9: 3*B + 9;
        std::size_t const LM = hz::g_thorough? 4*B + 9: 2*B + 9;
        bytes dummy = pattern( 2, 4 );
        // every key length x message lengths around the boundaries; every message length x key lengths around the boundaries
        unsigned const len = B / 8;
        std::vector<std::size_t> bl; 
        { std::size_t const x[] = { 0, 1, 8, B/2, B - len - 1, B - len, B - 1, B, B + 1, 2*B - len, 2*B, 2*B + 1 }; bl.assign( x, x + 12 ); }
        for( int pat = 0; pat < ( hz::g_thorough? 6: 4 ); ++pat )
        {
            bytes key = pattern( pat, KM ), msg = pattern( 9 - pat, LM );
            for( std::size_t n = 0; n <= KM; ++n ) for( std::size_t j = 0; j < bl.size(); ++j ) probe( &key[0], n, msg, bl[j], "key length sweep" );
            for( std::size_t L = 0; L <= LM; ++L ) for( std::size_t j = 0; j < bl.size(); ++j ) probe( &key[0], bl[j], msg, L, "message length sweep" );
            if( hz::g_thorough && pat < 2 ) for( std::size_t n = 0; n <= 2*B + 2; ++n ) for( std::size_t L = 0; L <= 2*B + 2; ++L ) probe( &key[0], n, msg, L, "full grid" );
        }
        {
            std::size_t const ll[] = { 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537, 65536 + B, 131072 }; bytes k = aperiodic( 131080 ), ms = aperiodic( 131080 );
            for( std::size_t n: long_lengths( 8, 16 ) ) { probe( &k[0], n, ms, 9, "long key" ); probe( &k[0], 13, ms, n, "long message" ); }
            for( unsigned i = 0; i < sizeof ll / sizeof *ll; ++i ) { probe( &k[0], ll[i], ms, 7, "long key" ); probe( &k[0], 11, ms, ll[i], "long message" ); }
        }
        bytes msg = pattern( 5, LM );
        // every byte value at every position of keys of one block, and of a hashed key
        std::size_t const kl[] = { B, B + 1, 20 };
        for( int a = 0; a < 3; ++a )
        {
            bytes k( kl[a], 0 );
            for( std::size_t i = 0; i < k.size(); ++i )
            {
                for( int v = 0; v < 256; v += ( hz::g_thorough? 1: a == 2? 1: 3 ) ) { k[i] = (unsigned char)v; probe( &k[0], k.size(), msg, 5, "key byte sweep" ); }
                k[i] = 0x36; probe( &k[0], k.size(), msg, 5, "key byte 0x36" ); k[i] = 0x5C; probe( &k[0], k.size(), msg, 5, "key byte 0x5c" );
                k[i] = 0;
            }
        }
        // all keys of at most two bytes
        for( int a = 0; a < 256; ++a ) for( int b = -1; b < 256; b += ( hz::g_thorough || b < 0? 1: 5 ) ) { unsigned char k[2] = { (unsigned char)a, (unsigned char)b }; probe( k, b < 0? 1: 2, msg, 3, "short keys" ); }
        // integer seeds
        for( int i = 0; i < 64; ++i ) for( int j = 0; j <= i; ++j )
        {
            std::uint64_t s = ( 1ull << i ) | ( 1ull << j ); unsigned char t[8]; for( int q = 0; q < 8; ++q ) t[q] = (unsigned char)( s >> (8*q) );
            H h( s ); M m( t, 8 ); h.update( &msg[0], 9 ); m.update( &msg[0], 9 ); hz::trans( 3 ); hz::states(); hz::traces();
            ref::res r = to_res( h.result() ), e = m.result(); if( r != e ) hz::viol( name, "%s integer seed %llx: got %s want %s", name, (unsigned long long)s, hx(r), hx(e) );
        }
        {
            H h0, h1( (std::uint64_t)0 ), h2( (unsigned char const*)0, 0 ); M m; ref::res e = m.result(); hz::trans( 3 ); hz::traces( 3 );
            if( to_res( h0.result() ) != e || to_res( h1.result() ) != e || to_res( h2.result() ) != e ) hz::viol( name, "%s: empty key / zero seed / default construction disagree", name );
        }
        // splits of the message: all two-way splits and all uniform pieces
        std::size_t const N = 2*B + 3; bytes key = pattern( 1, B + 1 );
        std::size_t const kk[] = { 0, B - 1, B, B + 1 };
        for( int a = 0; a < 4; ++a )
        {
            M m( &key[0], kk[a] ); m.update( &msg[0], N ); ref::res e = m.result();
            for( std::size_t i = 0; i <= N; ++i ) { H h( &key[0], kk[a] ); feed( h, &msg[0], i ); feed( h, &msg[0] + i, N - i, true ); hz::trans( 3 ); hz::traces(); ref::res r = to_res( h.result() ); if( r != e ) hz::viol( name, "%s key length %zu, message split at %zu: got %s want %s", name, kk[a], i, hx(r), hx(e) ); }
            for( std::size_t c = 1; c <= N; ++c ) { H h( &key[0], kk[a] ); for( std::size_t i = 0; i < N; i += c ) { feed( h, &msg[i], N - i < c? N - i: c ); hz::trans(); } hz::traces(); ref::res r = to_res( h.result() ); if( r != e ) hz::viol( name, "%s key length %zu, pieces of %zu: got %s want %s", name, kk[a], c, hx(r), hx(e) ); }
        }
        hz::sample( "%s: key lengths 0..%zu x message lengths 0..%zu", name, KM, LM );
    }
};
#define X( A, T, MOD, BL ) UNIT( A ) { macs< T, MOD > s; s.name = #A; s.B = BL; s.run(); }
ALGOS_HMAC( X )

template<unsigned BS, unsigned DS, class R> void foreign( char const* name )
{
    macs< hh::hmac< toy<BS,DS,R> >, ref::hmac< toy_model<BS,DS> > > s; s.name = name; s.B = BS < 32? 32: BS;
    typedef hh::hmac< toy<BS,DS,R> > HM; typedef ref::hmac< toy_model<BS,DS> > MM;
    if( HM::block_size != (int)BS ) hz::viol( name, "hmac block_size is %d", (int)HM::block_size );
    for( int pat = 0; pat < 4; ++pat )
    {
        bytes key = pattern( pat, 3*BS + 5 ), msg = pattern( 6, 3*BS + 5 );
        for( std::size_t n = 0; n <= 3*BS + 4; ++n ) for( std::size_t L = 0; L <= 2*BS + 3; L += ( BS > 64 && !hz::g_thorough? 7: 1 ) ) s.probe( &key[0], n, msg, L, "foreign hash" );
    }
}
UNIT( foreign_16_16 ) { foreign< 16, 16, hh::digest<16> >( "toy16/16" ); }
UNIT( foreign_20_20_stdarray ) { foreign< 20, 20, std::array<unsigned char,20> >( "toy20/20" ); }
UNIT( foreign_24_8 ) { foreign< 24, 8, hh::digest<8> >( "toy24/8" ); }
UNIT( foreign_136_32 ) { foreign< 136, 32, std::array<unsigned char,32> >( "toy136/32" ); }
UNIT( foreign_64_64 ) { foreign< 64, 64, hh::digest<64> >( "toy64/64" ); }
UNIT( foreign_9_8 ) { foreign< 9, 8, hh::digest<8> >( "toy9/8" ); }
// digests longer than the block: a key longer than the block is replaced by the first block of its digest
UNIT( foreign_4_8 ) { foreign< 4, 8, std::array<unsigned char,8> >( "toy4/8" ); }
UNIT( foreign_16_20 ) { foreign< 16, 20, hh::digest<20> >( "toy16/20" ); }
UNIT( foreign_1_3 ) { foreign< 1, 3, std::array<unsigned char,3> >( "toy1/3" ); }
UNIT( foreign_300_64 ) { foreign< 300, 64, hh::digest<64> >( "toy300/64" ); }
