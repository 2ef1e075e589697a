// C21: messages around and beyond 2^32 bits and bytes. One real pass per algorithm brings the
// object to each boundary; around a boundary every short continuation is explored and compared
// with the reference model, continued from its own state at the boundary (long_states.hpp).
//   -DGEN   prints the model states   -DBARE  freestanding (32-bit), many calls only
#include "algos.hpp"
#include <boost/hash2/hash_append.hpp>
#ifdef GEN
# define HARNESS_MAIN
# include "explore.hpp"
#else
# include "long_states.hpp"
# ifdef BARE
#  include "bare.hpp"
# else
#  define HARNESS_MAIN
#  include "explore.hpp"
#  include <sys/mman.h>
#  include <string_view>
#  include <fcntl.h>
# endif
#endif
typedef unsigned char u8; typedef std::uint64_t u64;
static std::size_t const PER = 257 * 4096; // period of the message
static u64 const G = (u64)1 << 32;
static u64 const P[] = { ( (u64)1 << 29 ) - 256, ( (u64)1 << 31 ) - 256, G - 256, G + ( G >> 3 ) - 256, 2*G - 256 };
static u8 two[ 2 * ( 257 * 4096 ) ];
static void fill() { for( std::size_t i = 0; i < 2*PER; ++i ) { std::size_t j = i % PER; two[i] = (u8)( ( j * j * 131 + j * 17 + ( j >> 8 ) * 29 + 90 ) >> 2 ); } }

// the model's state after a whole number of blocks
template<class S> unsigned words( ref::md<S>& m, u64*& n, u64 (&w)[8], bool set ) { n = &m.n; for( unsigned i = 0; i < S::W; ++i ) if( set ) m.st[i] = (typename S::word)w[i]; else w[i] = m.st[i]; return S::W; }
template<class T> unsigned words( ref::sip<T>& m, u64*& n, u64 (&w)[8], bool set ) { n = &m.n; for( int i = 0; i < 4; ++i ) if( set ) m.v[i] = (T)w[i]; else w[i] = m.v[i]; return 4; }
template<class T> unsigned words( ref::fnv<T>& m, u64*& n, u64 (&w)[8], bool set ) { static u64 d; n = &d; if( set ) m.s = (T)w[0]; else w[0] = m.s; return 1; }
inline unsigned words( ref::xx32& m, u64*& n, u64 (&w)[8], bool set ) { n = &m.n; for( int i = 0; i < 4; ++i ) if( set ) m.v[i] = (std::uint32_t)w[i]; else w[i] = m.v[i]; return 4; }
inline unsigned words( ref::xx64& m, u64*& n, u64 (&w)[8], bool set ) { n = &m.n; for( int i = 0; i < 4; ++i ) if( set ) m.v[i] = w[i]; else w[i] = m.v[i]; return 4; }
template<class M> unsigned words( ref::hmac<M>& m, u64*& n, u64 (&w)[8], bool set ) { return words( m.in, n, w, set ); }

#ifdef GEN
template<class M> static void gen( char const* name )
{
    M m; u64 at = 0, *n, w[8];
    for( int i = 0; i < 5; ++i )
    {
        while( at < P[i] ) { std::size_t o = at % PER, k = PER; if( P[i] - at < k ) k = (std::size_t)( P[i] - at ); m.update( two + o, k ); at += k; }
        unsigned c = words( m, n, w, false );
        printf( "INFO state= { \"%s\", %d, {", name, i ); for( unsigned j = 0; j < 8; ++j ) printf( " 0x%llxull%s", j < c? (unsigned long long)w[j]: 0ull, j < 7? ",": "" ); printf( " } },\n" );
    }
}
#define XG(N,H,M,B) UNIT(N) { fill(); gen<M>( #N ); }
ALGOS_ALL( XG )
#else

static int eqs( char const* a, char const* b ) { while( *a && *a == *b ) ++a, ++b; return *a == *b; }
template<class M> static M at( char const* name, int b, u64 extra = 0 )
{
    M m; u64 *n, w[8];
    for( unsigned i = 0; i < sizeof( long_states ) / sizeof( long_states[0] ); ++i ) if( long_states[i].b == b && eqs( long_states[i].name, name ) )
    {
        for( int j = 0; j < 8; ++j ) w[j] = long_states[i].w[j];
        words( m, n, w, true ); *n += P[b];
        for( u64 a = P[b], k = extra; k; ++a, --k ) m.update( two + a % PER, 1 );
        return m;
    }
#ifndef BARE
    printf( "no state for %s\n", name ); exit( 77 );
#endif
    return m;
}

#ifdef BARE
static void puts_( char const* s ) { std::size_t n = 0; while( s[n] ) ++n; out( s, n ); }
static void num( unsigned long long x ) { char b[ 24 ]; int i = 24; do b[ --i ] = (char)( '0' + x % 10 ); while( x /= 10 ); out( b + i, 24 - i ); }
static unsigned long long cases_; static int bad_;
static void differ( char const* a, int b, unsigned d1, unsigned d2, char const* how, ref::res const&, ref::res const& ) { if( ++bad_ > 2 ) return; puts_( "VIOL key=long " ); puts_( a ); puts_( " boundary " ); num( P[b] + 256 ); puts_( ": digest of length " ); num( P[b] + d1 + d2 ); puts_( " is wrong, " ); puts_( how ); puts_( "\n" ); }
static void count() { ++cases_; }
#else
static void differ( char const* a, int b, unsigned d1, unsigned d2, char const* how, ref::res const& g, ref::res const& w ) { hz::viol( "long", "%s, %s: digest of %llu + %u + %u bytes is %s, want %s", a, how, (unsigned long long)P[b], d1, d2, hx( g ), hx( w ) ); }
static void count() { hz::states(); hz::trans( 2 ); hz::traces(); }
#endif

// every continuation d1, every pair (d1,d2) of continuations around the boundary; two results each
template<class H, class M> static void around( H const& h, M const& m, char const* name, int b, u64 from, unsigned range, char const* how )
{
    static unsigned const D2[] = { 0, 1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 255, 256, 257 };
    u8 const* p = two + from % PER; unsigned base = (unsigned)( from - P[b] );
    M mi( m ); H hi( h ); unsigned d1 = 0;
    for( ; d1 <= range; ++d1 )
    {
        for( unsigned j = 0; j < sizeof D2 / sizeof D2[0]; ++j )
        {
            unsigned d2 = D2[j]; if( j && d1 % 3 && d2 > 70 ) continue;
            M mm( mi ); H hh( h ); mm.update( p + d1, d2 ); if( d1 ) hh.update( p, d1 ); if( d2 ) hh.update( p + d1, d2 );
            ref::res w = mm.result(), g = to_res( hh.result() ); count(); if( g != w ) { differ( name, b, base + d1, d2, how, g, w ); return; }
            if( d1 % 16 == 0 ) { w = mm.result(); g = to_res( hh.result() ); if( g != w ) { char h2[ 120 ]; char const* t = ", second result"; unsigned q = 0; while( how[q] && q < 100 ) { h2[q] = how[q]; ++q; } while( *t ) h2[q++] = *t++; h2[q] = 0; differ( name, b, base + d1, d2, h2, g, w ); return; } }
            if( j == 0 ) { H h2( hi ); g = to_res( h2.result() ); M m2( mi ); w = m2.result(); count(); if( g != w ) { differ( name, b, base + d1, 0, "byte by byte", g, w ); return; } }
        }
        mi.update( p + d1, 1 ); hi.update( p + d1, 1 );
    }
}

template<class H, class M, class F> static void many( char const* name, int last, F visit )
{
    fill(); H h; u64 a = 0;
    for( int b = 0; b <= last; ++b )
    {
        for( unsigned k = 0; a < P[b]; ++k ) { std::size_t o = (std::size_t)( a % PER ), c = k % 5 == 0? PER: k % 5 == 1? PER / 3: k % 5 == 2? 4096 * 31 + 5: k % 5 == 3? 131: PER - 1; if( P[b] - a < c ) c = (std::size_t)( P[b] - a ); h.update( two + o, c ); a += c; }
        M m = at<M>( name, b ); around( h, m, name, b, a, 512, "many calls" ); visit( h, m, b, a );
    }
}

#ifdef BARE
struct noop { template<class H, class M> void operator()( H const&, M const&, int, u64 ) const {} };
int main()
{
#define XB(N,H,M,B) many<H,M>( #N, 2, noop() );
    SEL( XB )
    puts_( "STAT states=" ); num( cases_ ); puts_( " trans=" ); num( cases_ ); puts_( " traces=" ); num( cases_ ); puts_( " viol=" ); num( bad_ ); puts_( "\nDONE\n" ); return 0;
}
#else

// the object's byte counter, where it is a single 64-bit field identified by real executions on both
// sides of 2^32, is set to further values: bits 33 to 60 of the length
template<class H> struct locate
{
    static std::size_t const N = sizeof(H); std::vector<unsigned char> byte, bit, blk; std::size_t B; int seen;
    locate( std::size_t b ): byte( N, 1 ), bit( N, 1 ), blk( N, 1 ), B( b ), seen( 0 ) {}
    void see( H const& h, u64 n )
    {
        ++seen; unsigned char s[ sizeof(H) ]; std::memcpy( s, (void const*)&h, N );
        for( std::size_t i = 0; i < N; ++i ) { u64 v = 0; if( i + 8 <= N ) std::memcpy( &v, s + i, 8 ); if( i + 8 > N ) byte[i] = bit[i] = 0; else { if( v != n ) byte[i] = 0; if( v != n * 8 ) bit[i] = 0; } std::uint32_t x = 0; if( i + 4 <= N ) std::memcpy( &x, s + i, 4 ); if( i + 4 > N || x != (std::uint32_t)( n / B ) ) blk[i] = 0; }
    }
    // offset of the counter, or -1
    long where( int& scale ) { long r = -1; int k = 0; for( std::size_t i = 0; i < N; ++i ) { if( byte[i] ) { ++k; r = (long)i; scale = 1; } if( bit[i] ) { ++k; r = (long)i; scale = 8; } if( blk[i] ) ++k; } return k == 1? r: -1; }
};
template<class H> struct look
{
    locate<H>& L; H& last; explicit look( locate<H>& l, H& x ): L( l ), last( x ) {}
    template<class M> void operator()( H const& h, M const&, int b, u64 a ) const { for( unsigned d = 0; d <= 512; d += 37 ) { H x( h ); x.update( two + a % PER, d ); L.see( x, a + d ); } last = h; (void)b; }
};
template<class H, class M> static typename std::enable_if<std::is_trivially_copyable<H>::value>::type patched( char const* name, int b, H const& h, locate<H>& L )
{
    int scale = 1; long o = L.where( scale );
    if( o < 0 ) { printf( "INFO counter_not_located=%s: lengths beyond the real ones are not explored\n", name ); return; }
    printf( "INFO counter_at=%s: %s counter at offset %ld, confirmed by %d states on both sides of 2^32\n", name, scale == 1? "byte": "bit", o, L.seen );
    for( int k = 33; k <= 60; ++k )
    {
        u64 c = ( (u64)1 << k ) - 256, v = c * scale;
        if( scale == 8 && k > 60 ) break;
        H x( h ); std::memcpy( reinterpret_cast<char*>( &x ) + o, &v, 8 );
        M m = at<M>( name, b ); u64 *n, w[8]; words( m, n, w, false ); *n = c;
        char how[ 80 ]; snprintf( how, sizeof how, "state with a length of 2^%d - 256", k );
        around( x, m, name, b, P[b], 512, how );
    }
}
template<class H, class M> static typename std::enable_if<!std::is_trivially_copyable<H>::value>::type patched( char const*, int, H const&, locate<H>& ) {}

template<class H, class M> static void run_many( char const* name, std::size_t B )
{
    int last = hz::g_thorough? 4: 2; locate<H> L( B ); H keep; hz::cur( "%s, many calls", name );
    many<H,M>( name, last, look<H>( L, keep ) ); patched<H,M>( name, last, keep, L );
    hz::sample( "%s: all continuations of up to 512 bytes of %llu, %llu, %llu, %llu bytes given in many calls", name, (unsigned long long)P[0], (unsigned long long)P[1], (unsigned long long)P[2], (unsigned long long)P[3] );
}

static u8* map_long( u64 n )
{
    fill(); char f[] = "/tmp/hash2_long_XXXXXX"; int fd = memfd_create( "m", 0 ); if( fd < 0 ) { fd = mkstemp( f ); unlink( f ); }
    if( fd < 0 || write( fd, two, PER ) != (long)PER ) { puts( "no file" ); exit( 77 ); }
    u64 total = ( n + PER ) / PER * PER + PER;
    u8* base = (u8*)mmap( 0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( base == MAP_FAILED ) { puts( "no room" ); exit( 77 ); }
    for( u64 o = 0; o < total; o += PER ) if( mmap( base + o, PER, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) { puts( "no map" ); exit( 77 ); }
    close( fd ); return base;
}
template<class H, class M> static void run_one( char const* name, bool exact )
{
    u8* p = map_long( G + ( G >> 3 ) );
    if( exact ) { hz::cur( "%s, one call of 2^32 bytes", name ); H h; h.update( (void const*)p, (std::size_t)G ); around( h, at<M>( name, 2, 256 ), name, 2, G, 256, "one call of 2^32 bytes" ); }
    else { hz::cur( "%s, one call of 2^32 + 2^29 - 259 bytes", name ); H h; h.update( p, 3 ); h.update( p + 3, (std::size_t)( P[3] - 3 ) ); around( h, at<M>( name, 3 ), name, 3, P[3], 512, "one call of 2^32 + 2^29 - 259 bytes after 3 bytes" ); }
    hz::sample( "%s: %s, then all continuations", name, exact? "one call of 2^32 bytes": "3 bytes, one call of 2^32 + 2^29 - 259 bytes" );
}
// in the quick tier, one member of each family takes the additional passes
static bool lead( char const* n ) { static char const* const L[] = { "fnv1a_32", "fnv1a_64", "xxhash_32", "xxhash_64", "siphash_32", "siphash_64", "md5_128", "sha1_160", "sha2_256", "sha2_512", "ripemd_160", "ripemd_128", "hmac_md5_128", "hmac_sha1_160" }; for( unsigned i = 0; i < sizeof L / sizeof L[0]; ++i ) if( eqs( L[i], n ) ) return true; return hz::g_thorough; }
static bool lead2( char const* n ) { return lead( n ) && ( hz::g_thorough || !( eqs( n, "sha2_512" ) || eqs( n, "ripemd_128" ) || eqs( n, "ripemd_160" ) || eqs( n, "sha2_256" ) ) ); }
#define XM(N,H,M,B) UNIT(N##_many) { run_many<H,M>( #N, B ); }
#define XO(N,H,M,B) UNIT(N##_one) { if( lead( #N ) ) run_one<H,M>( #N, false ); } UNIT(N##_exact) { if( lead2( #N ) ) run_one<H,M>( #N, true ); }
#define XH(N,H,M,B) UNIT(N##_one) { if( lead( #N ) ) run_one<H,M>( #N, false ); }
#define XHM(N,H,M,B) UNIT(N##_many) { if( hz::g_thorough ) run_many<H,M>( #N, B ); } UNIT(N##_exact) { if( hz::g_thorough ) run_one<H,M>( #N, true ); }
ALGOS_PLAIN( XM ) ALGOS_PLAIN( XO ) ALGOS_HMAC( XH ) ALGOS_HMAC( XHM )

// keys of more than 4 GiB: key then message as the model keyed alike
template<class T> static void finish( ref::fnv<T>& ) {} // FNV-1a keys are not finalized
template<class M> static void finish( M& m ) { m.result(); }
template<class H, class M> static void longkey( char const* name, int few = 3 )
{
    u8* p = map_long( G + 4096 ); hz::cur( "%s, key of 2^32 + 16 bytes", name );
    static unsigned const E[] = { 0, 5, 8, 16, 64 };
    for( int i = 0; i < ( hz::g_thorough? 5: few ); ++i )
    {
        u64 n = G + E[i]; M m = at<M>( name, 2, 256 + E[i] ); finish( m ); H h( p, (std::size_t)n ); m.update( two, 11 ); h.update( two, 11 );
        ref::res w = m.result(), g = to_res( h.result() ); hz::states(); hz::trans( 2 ); hz::traces(); if( g != w ) hz::viol( "key", "%s keyed with %llu bytes gives %s, want %s", name, (unsigned long long)n, hx( g ), hx( w ) );
    }
}
static int few( char const* n ) { static char const* const L[] = { "sha", "rip" }; for( unsigned i = 0; i < 2; ++i ) if( n[0] == L[i][0] && n[1] == L[i][1] && n[2] == L[i][2] ) return 1; return 3; }
#define XK(N,H,M,B) UNIT(key_##N) { longkey<H,M>( #N, few( #N ) ); }
ALGOS_PLAIN( XK )
template<class H, class M, class HM, class MM> static void hmackey( char const* name )
{
    u8* p = map_long( G + 4096 ); hz::cur( "%s, key of 2^32 + 16 bytes", name ); u64 n = G + 16; M k = at<M>( name, 2, 272 ); ref::res d = k.result(); MM m( d.b, d.n ); HM h( p, (std::size_t)n ); m.update( two, 11 ); h.update( two, 11 );
    ref::res w = m.result(), g = to_res( h.result() ); hz::states(); hz::trans( 2 ); hz::traces(); if( g != w ) hz::viol( "key", "hmac of %s keyed with %llu bytes gives %s, want %s", name, (unsigned long long)n, hx( g ), hx( w ) );
}
UNIT(key_hmac_md5_128) { hmackey<hh::md5_128, ref::md5, hh::hmac_md5_128, ref::hmac<ref::md5> >( "md5_128" ); }
UNIT(key_hmac_sha1_160) { hmackey<hh::sha1_160, ref::sha1, hh::hmac_sha1_160, ref::hmac<ref::sha1> >( "sha1_160" ); }

#define XD(N,H,M,B) for( int b = 0; b < 5; ++b ) { M m = at<M>( #N, b ); printf( "INFO digest=%s %llu %s\n", #N, (unsigned long long)P[b], hx( m.result() ) ); }
UNIT(model_digests) { fill(); ALGOS_MD( XD ) }

// values of more than 2^32 bytes or elements
struct flavor64 { typedef u64 size_type; static constexpr auto byte_order = hh::endian::native; };
struct flavor64be { typedef u64 size_type; static constexpr auto byte_order = hh::endian::native == hh::endian::little? hh::endian::big: hh::endian::little; };
struct cnt // counts, and remembers the last bytes
{
    typedef u64 result_type; u64 n = 0; u8 t[ 16 ] = {};
    void update( void const* p, std::size_t k ) { u8 const* q = (u8 const*)p; n += k; if( k > 16 ) { q += k - 16; k = 16; } for( std::size_t i = 0; i < k; ++i ) t[ ( n - k + i ) & 15 ] = q[i]; }
    u64 result() { return n + 0x123456789ull; }
    u64 tail( unsigned k ) const { u64 v = 0; for( unsigned i = 0; i < k; ++i ) v |= (u64)t[ ( n - k + i ) & 15 ] << ( 8*i ); return v; }
};
static void want( char const* what, u64 g, u64 w ) { hz::states(); hz::trans(); hz::traces(); if( g != w ) hz::viol( "value", "%s: %llu, want %llu", what, (unsigned long long)g, (unsigned long long)w ); }
template<class T> static T const* as( u8 const* p ) { return reinterpret_cast<T const*>( p ); }
UNIT(value_pointers)
{
    u8* p = map_long( G + 4096 );
    for( unsigned d = 0; d <= 8; d += 4 )
    {
        ref::xx64 m = at<ref::xx64>( "xxhash_64", 2, 256 + d ); u64 n = G + d; ref::res w = m.result();
#define RUN(T) { hz::cur( "range of " #T ); hh::xxhash_64 h; hh::hash_append_range( h, flavor64(), as<T>( p ), as<T>( p + n ) ); ref::res g = to_res( h.result() ); hz::states(); hz::trans(); hz::traces(); if( g != w ) hz::viol( "value", "range of %llu bytes of " #T " hashes to %s, want %s", (unsigned long long)n, hx( g ), hx( w ) ); }
        RUN( unsigned char ) if( d % 4 == 0 ) { RUN( char ) RUN( std::uint32_t ) }
    }
}
UNIT(value_views)
{
    u8* p = map_long( G + 4096 );
    for( unsigned d = 0; d <= 7; d += 7 )
    {
        std::string_view v( (char const*)p, (std::size_t)( G + d ) ); hz::cur( "string_view of 2^32 + %u", d );
        { hh::xxhash_64 h; hh::hash_append( h, flavor64(), v ); ref::xx64 m = at<ref::xx64>( "xxhash_64", 2, 256 + d ); u64 s = G + d; m.update( (u8*)&s, 8 ); want( "string_view, 64-bit size", h.result(), ref::ld64le( m.result().b ) ); }
        { hh::xxhash_64 h; hh::hash_append( h, hh::default_flavor(), v ); ref::xx64 m = at<ref::xx64>( "xxhash_64", 2, 256 + d ); hh::default_flavor::size_type s = (hh::default_flavor::size_type)( G + d ); m.update( (u8*)&s, sizeof s ); want( "string_view, default flavor", h.result(), ref::ld64le( m.result().b ) ); }
        { cnt h; hh::hash_append_sized_range( h, flavor64(), as<std::uint32_t>( p ), as<std::uint32_t>( p ) + G/4 + d ); want( "sized range of words: bytes", h.n, G + 4*d + 8 ); want( "sized range of words: size", h.tail( 8 ), G/4 + d ); }
    }
}
UNIT(value_words_swapped) { u8* p = map_long( G + 4096 ); hz::cur( "2^30 words, other byte order" ); cnt h; hh::hash_append_range( h, flavor64be(), as<std::uint32_t>( p ), as<std::uint32_t>( p ) + G/4 + 3 ); want( "words in the other byte order: bytes", h.n, G + 12 ); want( "words in the other byte order: last", h.tail( 4 ), __builtin_bswap32( as<std::uint32_t>( p )[ G/4 + 2 ] ) ); }
struct gen_it // an input iterator over the bytes 0, 1, 2...
{
    typedef std::input_iterator_tag iterator_category; typedef u8 value_type; typedef std::ptrdiff_t difference_type; typedef u8 const* pointer; typedef u8 reference;
    u64 i; u8 operator*() const { return (u8)( i ^ i >> 32 ); } gen_it& operator++() { ++i; return *this; } gen_it operator++( int ) { gen_it r( *this ); ++i; return r; } bool operator==( gen_it const& r ) const { return i == r.i; } bool operator!=( gen_it const& r ) const { return i != r.i; }
};
UNIT(value_input_range) { hz::cur( "input range of 2^32 + 3 elements" ); cnt h; gen_it a = { 0 }, b = { G + 3 }; hh::hash_append_sized_range( h, flavor64(), a, b ); want( "input range: bytes", h.n, G + 3 + 8 ); want( "input range: size", h.tail( 8 ), G + 3 ); }
UNIT(value_unordered_range) { hz::cur( "unordered range of 2^32 + 3 elements" ); cnt h; gen_it a = { 0 }, b = { G + 3 }; hh::hash_append_unordered_range( h, flavor64(), a, b ); want( "unordered range: bytes", h.n, 16 ); want( "unordered range: size", h.tail( 8 ), G + 3 ); cnt g( h ); u64 s = 0; for( int i = 0; i < 8; ++i ) s |= (u64)g.t[i] << ( 8*i ); cnt one; one.n = 1; want( "unordered range: sum", s, ( G + 3 ) * one.result() ); }
#endif
#endif
