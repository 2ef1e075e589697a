// C22: the legacy algorithms, beyond what the harnesses of C01..C04, C16..C20 explore with -DLEGACY.
#define LEGACY
#define HARNESS_MAIN
#include "explore.hpp"
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <sys/mman.h>
typedef unsigned char u8; typedef std::uint64_t u64;

// the models: verification values of SMHasher, published values of SpookyHash V2 (its test program)
struct mm32: ref::murmur32 { mm32( u64 s, u64 ): ref::murmur32( s ) {} };
UNIT( models )
{
    if( ref::smhasher<mm32>( 4 ) != 0xB0F57EE3u || ref::smhasher<ref::murmur128>( 16 ) != 0x6384BA69u ) { printf( "MODEL MISMATCH murmur3\n" ); exit( 9 ); }
    static struct { int n; std::uint32_t v; } const S[] = { { 0, 0x6bf50919 }, { 1, 0x70de1d26 }, { 2, 0xa2b37298 }, { 3, 0x35bc5fbf }, { 7, 0xf9f1a233 }, { 8, 0xee193982 }, { 15, 0x83ec01f9 }, { 16, 0xf274736c }, { 23, 0x608f8363 }, { 24, 0xd0639e68 }, { 31, 0x027bca7c }, { 32, 0xe5cfc8b6 }, { 127, 0x82356bf2 }, { 128, 0x94e948ec }, { 63, 0x09c1afb4 }, { 64, 0x069c8bb7 }, { 191, 0xe13d9e19 }, { 192, 0x77e012bd }, { 255, 0x2f40ee0b }, { 256, 0x38cebf03 }, { 320, 0xf1545450 } };
    for( auto const& s: S ) { u8 b[ 512 ]; for( int i = 0; i < s.n; ++i ) b[i] = (u8)( i + 128 ); ref::spooky m; m.update( b, s.n ); if( ref::ld32le( m.result().b ) != s.v ) { printf( "MODEL MISMATCH spooky %d\n", s.n ); exit( 9 ); } }
    printf( "INFO legacy_models=verified against SMHasher's verification values and SpookyHash's test values\n" );
    hz::states(); hz::trans(); hz::traces();
}

// seeds given as two integers
template<class H, class M> static void two( char const* name )
{
    std::vector<u64> S; for( int i = 0; i < 64; ++i ) { S.push_back( 1ull << i ); S.push_back( ~( 1ull << i ) ); } S.push_back( 0 ); S.push_back( ~0ull ); S.push_back( 0xdeadbeefdeadbeefull );
    std::map<std::string, std::string> fp; bytes d = pattern( 5, 400 );
    for( u64 a: S ) for( u64 b: S )
    {
        char t[ 64 ]; snprintf( t, sizeof t, "(0x%llx, 0x%llx)", (unsigned long long)a, (unsigned long long)b ); hz::cur( "%s%s", name, t ); hz::states(); std::string f;
        for( std::size_t n: { 0, 7, 33, 200 } ) { H h( a, b ); M m( a, b ); h.update( d.data(), n ); m.update( d.data(), n ); hz::trans( 2 ); hz::traces(); for( int k = 0; k < 2; ++k ) { ref::res r = to_res( h.result() ), e = m.result(); if( r != e ) hz::viol( name, "%s%s, %zu bytes, result %d: got %s, want %s", name, t, n, k + 1, hx( r ), hx( e ) ); f.append( (char const*)r.b, 16 ); } }
        if( !fp.insert( std::make_pair( f, t ) ).second ) hz::viol( "two-seeds", "%s: seeds %s and %s give the same results", name, fp[f].c_str(), t );
    }
}
UNIT( two_seeds ) { two<hh::murmur3_128, ref::murmur128>( "murmur3_128" ); two<hh::spooky2_128, ref::spooky>( "spooky2_128" ); }

// every byte of a byte-sequence seed has influence
template<class H> static void influence( char const* name, std::size_t head, std::size_t blk, char const* known )
{
    for( std::size_t n = 1; n <= 60; ++n ) for( std::size_t p = 0; p < n; ++p )
    {
        bytes k = pattern( 7, n ); hz::cur( "%s: seed of %zu bytes, byte %zu", name, n, p ); hz::states(); int same = 0;
        H a( k.data(), n ); ref::res ra = to_res( a.result() );
        for( int d = 1; d < 256; ++d ) { bytes q( k ); q[p] = (u8)( q[p] ^ d ); H b( q.data(), n ); hz::trans(); hz::traces(); if( to_res( b.result() ) == ra ) ++same; }
        bool const tail = n > head && p >= head + ( n - head ) / blk * blk; // behind the last whole block
        if( same ) hz::viol( tail && known? known: "byte-seed", "%s: byte %zu of a seed of %zu bytes has no influence on the result under %d of 255 changes", name, p, n, same );
    }
}
UNIT( influence_32 ) { influence<hh::murmur3_32>( "murmur3_32", 4, 4, "murmur3_32-byte-seed-tail" ); }
UNIT( influence_128 ) { influence<hh::murmur3_128>( "murmur3_128", 16, 16, "murmur3_128-byte-seed-tail" ); }
UNIT( influence_spooky ) { influence<hh::spooky2_128>( "spooky2_128", 16, 192, nullptr ); }

// one call longer than 4 GiB
template<class H, class M> static void big( char const* name )
{
    std::size_t const L = ( (std::size_t)1 << 32 ) + 777;
    u8* z = (u8*)mmap( nullptr, L, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( z == MAP_FAILED ) { printf( "INFO skipped=no address space\n" ); return; }
    M m; static u8 const zero[ 1 << 16 ] = {}; for( std::size_t a = 0; a < L; ) { std::size_t c = L - a < sizeof zero? L - a: sizeof zero; m.update( zero, c ); a += c; }
    hz::cur( "%s: one call of %zu bytes", name, L ); H h; h.update( z, L ); hz::states(); hz::trans(); hz::traces(); munmap( z, L );
    for( int k = 0; k < 40; ++k ) { H g( h ); M q( m ); ref::res r = to_res( g.result() ), e = q.result(); if( r != e ) { hz::viol( "long", "%s: digest of %zu + %d zero bytes given in one call is %s, want %s", name, L, k, hx( r ), hx( e ) ); break; } h.update( "x", 1 ); m.update( (u8 const*)"x", 1 ); hz::traces(); }
}
UNIT( long_murmur3_32 ) { big<hh::murmur3_32, ref::murmur32>( "murmur3_32" ); }
UNIT( long_murmur3_128 ) { big<hh::murmur3_128, ref::murmur128>( "murmur3_128" ); }
UNIT( long_spooky2_128 ) { big<hh::spooky2_128, ref::spooky>( "spooky2_128" ); }
