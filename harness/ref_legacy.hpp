// Models of the legacy algorithms: MurmurHash3 (x86 32-bit, x64 128-bit) and SpookyHash V2, from
// their reference implementations. They are checked against SMHasher's verification values.
#pragma once
#include "ref.hpp"

namespace ref {

inline u32 mm_fmix( u32 h ) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16; }
inline u64 mm_fmix( u64 h ) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; return h ^ h >> 33; }

struct murmur32
{
    u32 h; u64 n; u8 t[4]; unsigned m;
    static u32 k1( u32 k ) { return L32( k * 0xcc9e2d51u, 15 ) * 0x1b873593u; }
    void block( u32 k ) { h = L32( h ^ k1( k ), 13 ) * 5u + 0xe6546b64u; }
    void zero() { n = 0; m = 0; for( int i = 0; i < 4; ++i ) t[i] = 0; }
    explicit murmur32( u64 seed = 0 ) { zero(); h = (u32)seed; if( seed >> 32 ) block( (u32)( seed >> 32 ) ); }
    murmur32( u8 const* p, std::size_t k ) { zero(); u8 s[4] = { 0, 0, 0, 0 }; for( std::size_t i = 0; i < 4 && i < k; ++i ) s[i] = p[i]; h = ld32le( s ); if( k > 4 ) { update( p + 4, k - 4 ); result(); } }
    void update( u8 const* p, std::size_t k ) { for( std::size_t i = 0; i < k; ++i ) { t[ m++ ] = p[i]; ++n; if( m == 4 ) { block( ld32le( t ) ); m = 0; } } }
    res result()
    {
        for( unsigned i = m; i < 4; ++i ) t[i] = 0;
        u32 x = h; if( m ) x ^= k1( ld32le( t ) );
        x = mm_fmix( x ^ (u32)n );
        n += 4 - m; m = 0; for( int i = 0; i < 4; ++i ) t[i] = 0; // the next result counts the padding
        return res32( x );
    }
};

struct murmur128
{
    u64 a, b, n; u8 t[16]; unsigned m;
    static u64 ka( u64 k ) { return L64( k * 0x87c37b91114253d5ull, 31 ) * 0x4cf5ad432745937full; }
    static u64 kb( u64 k ) { return L64( k * 0x4cf5ad432745937full, 33 ) * 0x87c37b91114253d5ull; }
    void zero() { n = 0; m = 0; for( int i = 0; i < 16; ++i ) t[i] = 0; }
    explicit murmur128( u64 seed = 0 ) { zero(); a = b = seed; }
    murmur128( u64 s, u64 r ) { zero(); a = s; b = r; }
    murmur128( u8 const* p, std::size_t k )
    {
        zero(); u8 s[16]; for( std::size_t i = 0; i < 16; ++i ) s[i] = i < k? p[i]: 0;
        a = ld64le( s ); b = k <= 8? a: ld64le( s + 8 ); if( k > 16 ) { update( p + 16, k - 16 ); result(); }
    }
    void block() { a ^= ka( ld64le( t ) ); a = ( L64( a, 27 ) + b ) * 5 + 0x52dce729; b ^= kb( ld64le( t + 8 ) ); b = ( L64( b, 31 ) + a ) * 5 + 0x38495ab5; m = 0; }
    void update( u8 const* p, std::size_t k ) { for( std::size_t i = 0; i < k; ++i ) { t[ m++ ] = p[i]; ++n; if( m == 16 ) block(); } }
    res result()
    {
        for( unsigned i = m; i < 16; ++i ) t[i] = 0;
        u64 x = a, y = b; if( m > 8 ) y ^= kb( ld64le( t + 8 ) ); if( m ) x ^= ka( ld64le( t ) );
        x ^= n; y ^= n; x += y; y += x; x = mm_fmix( x ); y = mm_fmix( y ); x += y; y += x;
        n += 16 - m; m = 0; for( int i = 0; i < 16; ++i ) t[i] = 0;
        res r; r.n = 16; for( int i = 0; i < 8; ++i ) { r.b[i] = (u8)( x >> 8*i ); r.b[8+i] = (u8)( y >> 8*i ); } return r;
    }
};

struct spooky
{
    u64 v[12], n; u8 t[192]; unsigned m;
    static u64 SC() { return 0xdeadbeefdeadbeefull; }
    void init( u64 s, u64 r ) { for( int i = 0; i < 12; ++i ) v[i] = i % 3 == 0? s: i % 3 == 1? r: SC(); n = 0; m = 0; for( int i = 0; i < 192; ++i ) t[i] = 0; }
    explicit spooky( u64 s = 0, u64 r = 0 ) { init( s, r ); }
    spooky( u8 const* p, std::size_t k ) { u8 q[16]; for( std::size_t i = 0; i < 16; ++i ) q[i] = i < k? p[i]: 0; init( ld64le( q ), ld64le( q + 8 ) ); if( k > 16 ) { update( p + 16, k - 16 ); result(); } }
    static void mix( u64* s, u8 const* p )
    {
        static int const r[12] = { 11, 32, 43, 31, 17, 28, 39, 57, 55, 54, 22, 46 };
        for( int i = 0; i < 12; ++i ) { s[i] += ld64le( p + 8*i ); s[ (i+2)%12 ] ^= s[ (i+10)%12 ]; s[ (i+11)%12 ] ^= s[i]; s[i] = L64( s[i], r[i] ); s[ (i+11)%12 ] += s[ (i+1)%12 ]; }
    }
    static void end( u64* h, u8 const* p )
    {
        static int const r[12] = { 44, 15, 34, 21, 38, 33, 10, 13, 38, 53, 42, 54 };
        for( int i = 0; i < 12; ++i ) h[i] += ld64le( p + 8*i );
        for( int k = 0; k < 3; ++k ) for( int i = 0; i < 12; ++i ) { h[ (i+11)%12 ] += h[ (i+1)%12 ]; h[ (i+2)%12 ] ^= h[ (i+11)%12 ]; h[ (i+1)%12 ] = L64( h[ (i+1)%12 ], r[i] ); }
    }
    static void smix( u64* h ) { static int const r[12] = { 50, 52, 30, 41, 54, 48, 38, 37, 62, 34, 5, 36 }; for( int i = 0; i < 12; ++i ) { int x = ( 2 + i ) & 3; h[x] = L64( h[x], r[i] ); h[x] += h[ (x+1)&3 ]; h[ (x+2)&3 ] ^= h[x]; } }
    static void send( u64* h ) { static int const r[11] = { 15, 52, 26, 51, 28, 9, 47, 54, 32, 25, 63 }; for( int i = 0; i < 11; ++i ) { int x = ( 3 + i ) & 3, y = ( 2 + i ) & 3; h[x] ^= h[y]; h[y] = L64( h[y], r[i] ); h[x] += h[y]; } }
    static void brief( u8 const* p, unsigned len, u64& s, u64& q )
    {
        u64 h[4] = { s, q, SC(), SC() }; unsigned k = len;
        for( ; k >= 32; k -= 32, p += 32 ) { h[2] += ld64le( p ); h[3] += ld64le( p + 8 ); smix( h ); h[0] += ld64le( p + 16 ); h[1] += ld64le( p + 24 ); }
        if( k >= 16 ) { h[2] += ld64le( p ); h[3] += ld64le( p + 8 ); smix( h ); k -= 16; p += 16; }
        h[3] += (u64)len << 56;
        if( k == 0 ) { h[2] += SC(); h[3] += SC(); }
        for( unsigned i = 0; i < k; ++i ) h[ i < 8? 2: 3 ] += (u64)p[i] << 8 * ( i & 7 );
        send( h ); s = h[0]; q = h[1];
    }
    void update( u8 const* p, std::size_t k ) { for( std::size_t i = 0; i < k; ++i ) { t[ m++ ] = p[i]; ++n; if( m == 192 ) { mix( v, t ); mix( v, t + 96 ); m = 0; } } }
    res result()
    {
        if( n < 192 ) brief( t, m, v[0], v[1] );
        else
        {
            u8 const* p = t; unsigned k = m; if( k >= 96 ) { mix( v, p ); p += 96; k -= 96; }
            u8 l[96]; for( unsigned i = 0; i < 96; ++i ) l[i] = i < k? p[i]: 0;
            l[95] = (u8)k; end( v, l );
        }
        n += 192 - m; m = 0; for( int i = 0; i < 192; ++i ) t[i] = 0;
        res r; r.n = 16; for( int i = 0; i < 8; ++i ) { r.b[i] = (u8)( v[0] >> 8*i ); r.b[8+i] = (u8)( v[1] >> 8*i ); } return r;
    }
};

// SMHasher's verification value of a model: keys {}, {0}, {0,1} ... of 0..255 bytes with seed 256 - length
template<class M> u32 smhasher( unsigned bytes )
{
    u8 key[256], out[ 256 * 16 ];
    for( unsigned i = 0; i < 256; ++i ) { key[i] = (u8)i; M h( (u64)( 256 - i ), (u64)( 256 - i ) ); h.update( key, i ); res r = h.result(); for( unsigned j = 0; j < bytes; ++j ) out[ i * bytes + j ] = r.b[j]; }
    M h( (u64)0, (u64)0 ); h.update( out, 256 * bytes ); res r = h.result(); return ld32le( r.b );
}

} // namespace ref
