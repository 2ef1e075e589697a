// C18 (threads): the per-thread scripts, compiled with memory-access instrumentation.
// op_run( op, id, out ): thread id runs script op on its own objects; writes up to 256 result bytes.
#include "algos.hpp"
#include "values.hpp"
#include <sstream>
typedef unsigned char u8;
template<class R> static void put( u8*& o, u8* e, R const& r ) { ref::res x = to_res( r ); for( unsigned i = 0; i < x.n && o < e; ++i ) *o++ = x.b[i]; }
template<class H> static void alg( int id, u8* o, u8* e )
{
    u8 m[ 200 ]; for( int i = 0; i < 200; ++i ) m[i] = (u8)( i * 7 + id * 31 );
    H h; h.update( m, 3 ); h.update( (void const*)( m + 3 ), 61 + id ); put( o, e, h.result() ); H k( h ); h.update( m, 140 ); put( o, e, h.result() ); put( o, e, h.result() );
    H s( 77 + id ); s.update( m, 0 ); k = s; put( o, e, k.result() ); H q( m, 130 ); q.update( m, 17 ); put( o, e, q.result() );
    std::uint64_t x = hh::get_integral_result<std::uint64_t>( q.result() ); put( o, e, x ); unsigned char c = hh::get_integral_result<unsigned char>( q.result() ); put( o, e, c ); unsigned w = hh::get_integral_result<unsigned>( s.result() ); put( o, e, w );
}
// a shared object that both threads only copy from
template<class H> struct shared { static H const* get() { return p; } static H const* p; }; template<class H> H const* shared<H>::p;
template<class H> static void cpy( int id, u8* o, u8* e ) { H h( *shared<H>::get() ), g; g = *shared<H>::get(); u8 b[ 70 ] = { (u8)id }; h.update( b, 70 ); put( o, e, h.result() ); put( o, e, g.result() ); put( o, e, h.result() ); }
template<class H, class F> static void val( int id, u8* o, u8* e )
{
    typedef std::uint32_t u32; H h; u32 x[ 3 ] = { 0x01020304u * ( id + 1 ), 7u + id, 0 }; double d = 1.5 + id; float f = -2.25f * ( id + 1 );
    hh::hash_append( h, F(), x ); hh::hash_append( h, F(), x[0] ); hh::hash_append( h, F(), d ); hh::hash_append( h, F(), f ); hh::hash_append( h, F(), (short)( id * 300 + 5 ) ); hh::hash_append( h, F(), (void const*)nullptr ); hh::hash_append( h, F(), nullptr ); hh::hash_append( h, F(), 'c' ); hh::hash_append( h, F(), true ); hh::hash_append_size( h, F(), 5 + id ); put( o, e, h.result() );
    std::vector<u32> v( x, x + 3 ); hh::hash_append( h, F(), v ); hh::hash_append_range( h, F(), v.begin(), v.end() ); hh::hash_append_sized_range( h, F(), v.rbegin(), v.rend() ); std::vector<bool> b( 5, true ); b[1] = id & 1; hh::hash_append( h, F(), b ); hh::hash_append( h, F(), std::vector<int>() ); put( o, e, h.result() );
    hh::hash_append_unordered_range( h, F(), v.begin(), v.end() ); hh::hash_append( h, F(), std::make_pair( x[0], (u8)id ) ); hh::hash_append( h, F(), std::tuple<>() ); hh::hash_append( h, F(), std::make_tuple( x[1], d, std::array<u8, 0>() ) ); va::d1 q = { (u8)id, "abc", { 1, 2 } }; hh::hash_append( h, F(), q ); hh::hash_append( h, F(), va::d2( q, "xyz", va::en::c ) ); hh::hash_append( h, F(), va::d0() ); va::hook k; k.a = "hook"; k.b = (u8)id; hh::hash_append( h, F(), k ); put( o, e, h.result() );
    std::u16string s( 4, (char16_t)( 0x100 + id ) ); hh::hash_append( h, F(), s ); hh::digest<20> g = {}; g[3] = (u8)id; hh::hash_append( h, F(), g ); va::en en = va::en::b; hh::hash_append( h, F(), en ); put( o, e, h.result() );
}
static void conv( int id, u8* o, u8* e )
{
    hh::digest<20> d = {}, c; for( int i = 0; i < 20; ++i ) d[i] = (u8)( i * 13 + id ); c = d; char b[ 64 ]; char* q = hh::to_chars( d, b, b + 64 ); for( char* p = b; p != q; ++p ) *o++ = (u8)*p; hh::to_chars( c, b ); for( int i = 0; i < 40; ++i ) *o++ = (u8)b[i]; std::string t = hh::to_string( c ); for( char k: t ) *o++ = (u8)k;
    *o++ = d == c; c[19] ^= 1; *o++ = d != c; put( o, e, hh::get_integral_result<std::uint64_t>( d ) ); put( o, e, hh::get_integral_result<std::uint64_t>( (std::uint8_t)( id + 3 ) ) ); put( o, e, hh::get_integral_result<std::uint8_t>( (std::uint16_t)( id * 777 ) ) ); put( o, e, hh::get_integral_result<std::uint16_t>( 12345678u * ( id + 1 ) ) ); put( o, e, hh::get_integral_result<std::uint64_t>( 12345678u * ( id + 1 ) ) ); put( o, e, d );
}
typedef void fn( int, u8*, u8* );
struct entry { char const* name; fn* f; void (*setup)(); };
template<class H> static void mk() { H* h = new H( 5 ); u8 b[ 40 ] = {}; h->update( b, 40 ); shared<H>::p = h; }
#define XO(N,H,M,B) { #N, &alg<H>, nullptr }, { "copies of a shared " #N, &cpy<H>, &mk<H> },
#define XV(N,H,F) { "values into " #N ", " #F, &val<H, F>, nullptr },
static entry const E[] = { ALGOS_ALL( XO ) { "conversions", &conv, nullptr },
    XV( md5_128, hh::md5_128, hh::default_flavor ) XV( md5_128, hh::md5_128, hh::big_endian_flavor ) XV( xxhash_32, hh::xxhash_32, sp::be32 ) XV( fnv1a_64, hh::fnv1a_64, hh::little_endian_flavor ) XV( fnv1a_64, hh::fnv1a_64, hh::big_endian_flavor ) XV( sha2_512, hh::sha2_512, hh::big_endian_flavor ) XV( hmac_sha1_160, hh::hmac_sha1_160, hh::default_flavor ) XV( siphash_64, hh::siphash_64, hh::big_endian_flavor ) };
int op_count() { return (int)( sizeof E / sizeof E[0] ); }
char const* op_name( int i ) { return E[i].name; }
void op_setup( int i ) { if( E[i].setup ) E[i].setup(); }
void op_run( int i, int id, u8* out ) { E[i].f( id, out, out + 256 ); }
