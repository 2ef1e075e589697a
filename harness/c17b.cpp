// C17 (values): append operations under the sanitizers. -DVSEL=VTYPES_A..D, -DEDGES (ranges) or neither
#define HARNESS_MAIN
#include "explore.hpp"
#include "values.hpp"
#include <sys/mman.h>
#if __cplusplus >= 202002L
# include <span>
#endif
#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define MSAN
#  define DEFINED(p,n) __msan_check_mem_is_initialized( p, n )
# endif
#endif
#ifndef DEFINED
# define DEFINED(p,n) (void)0
#endif
typedef unsigned char u8;

// reads every byte it is given, and requires them to be initialized
struct reader { typedef std::uint32_t result_type; std::uint32_t a = 1; void update( void const* p, std::size_t n ) { u8 const* q = (u8 const*)p; DEFINED( p, n ); for( std::size_t i = 0; i < n; ++i ) a = a * 31 + q[i]; } result_type result() { DEFINED( &a, sizeof a ); return a = a * 31 + 1; } };
struct copier { typedef std::array<u8, 8> result_type; u8 b[ 64 ] = {}; std::size_t n = 0; void update( void const* p, std::size_t k ) { u8 const* q = (u8 const*)p; DEFINED( p, k ); while( k ) { std::size_t j = k < 64? k: 64; std::memcpy( b, q, j ); q += j; k -= j; n += j; } } result_type result() { result_type r; std::memcpy( r.data(), b, 8 ); r[0] ^= (u8)n; ++b[0]; return r; } };

template<class H, class F, class T> void one( T const& v, std::size_t fill )
{
    static u8 const z[ 256 ] = {}; H* h = new H; if( fill ) h->update( z, fill ); hh::hash_append( *h, F(), v ); auto r = h->result(); DEFINED( &r, sizeof r ); hh::hash_append( *h, F(), v ); r = h->result(); DEFINED( &r, sizeof r ); delete h; hz::trans( 2 );
}
template<class H, class T> void flavors( T const& v, std::size_t fill ) { one<H, hh::default_flavor>( v, fill ); one<H, hh::little_endian_flavor>( v, fill ); one<H, hh::big_endian_flavor>( v, fill ); one<H, sp::be32>( v, fill ); one<H, sp::ne32>( v, fill ); one<H, sp::le32>( v, fill ); hz::traces( 6 ); }
template<class T> void algs( T const& v, std::size_t i )
{
    hz::states(); flavors<reader>( v, 0 ); flavors<copier>( v, 0 ); std::size_t f = i % 64;
    switch( i % 8 ) { case 0: flavors<hh::md5_128>( v, f ); break; case 1: flavors<hh::fnv1a_32>( v, f ); break; case 2: flavors<hh::xxhash_64>( v, f ); break; case 3: flavors<hh::siphash_64>( v, f ); break; case 4: flavors<hh::sha2_512>( v, f * 2 ); break; case 5: flavors<hh::hmac_sha2_256>( v, f ); break; case 6: flavors<hh::siphash_32>( v, f ); break; default: flavors<hh::xxhash_32>( v, f ); }
}
#ifdef VSEL
template<class T> void type( char const* tn )
{
    std::vector<T> all = va::uni<T>::get( hz::g_thorough? 8000: 700 );
    for( std::size_t i = 0; i < all.size(); ++i ) { hz::cur( "%s #%zu", tn, i ); T* p = new T( all[i] ); algs( *p, i ); delete p; }
    hz::sample( "%s: %zu values", tn, all.size() );
}
#define XV(N,...) UNIT( N ) { type<__VA_ARGS__>( #N ); }
VSEL( XV )
#elif defined(EDGES)
template<class T> T* heap( std::vector<T> const& s ) { if( s.empty() ) return nullptr; T* p = (T*)std::malloc( s.size() * sizeof(T) ); std::memcpy( p, s.data(), s.size() * sizeof(T) ); return p; }
struct pages
{
    u8* m; static std::size_t const PG = 4096;
    pages() { m = (u8*)mmap( nullptr, 3 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); for( std::size_t i = 0; i < PG; ++i ) m[ PG + i ] = (u8)( i % 2 ); mprotect( m, PG, PROT_NONE ); mprotect( m + PG, PG, PROT_READ ); mprotect( m + 2*PG, PG, PROT_NONE ); }
    ~pages() { munmap( m, 3 * PG ); }
};
// element ranges of every length, by pointers into exact blocks and into read-only pages next to inaccessible ones
template<class H, class F, class T> void rng( char const* tn, T const* p, std::size_t n, std::size_t fill )
{
    static u8 const z[ 256 ] = {}; hz::cur( "range of %zu %s at fill %zu", n, tn, fill ); hz::states(); hz::trans( 4 ); hz::traces();
    H h; if( fill ) h.update( z, fill ); hh::hash_append_range( h, F(), p, p + n ); auto r = h.result(); DEFINED( &r, sizeof r );
    H g; if( fill ) g.update( z, fill ); hh::hash_append_sized_range( g, F(), p, p + n ); r = g.result(); DEFINED( &r, sizeof r );
    H k; if( fill ) k.update( z, fill ); hh::hash_append_unordered_range( k, F(), p, p + n ); r = k.result(); DEFINED( &r, sizeof r );
    it::crange<T> c = { p, n }; H d; if( fill ) d.update( z, fill ); hh::hash_append( d, F(), c ); r = d.result(); DEFINED( &r, sizeof r );
#if __cplusplus >= 202002L
    std::span<T const> s( p, n ); H e; if( fill ) e.update( z, fill ); hh::hash_append( e, F(), s ); r = e.result(); DEFINED( &r, sizeof r );
#endif
}
template<class T> void ranges( char const* tn, T const* p, std::size_t n, std::size_t fill )
{
    rng<reader, hh::default_flavor>( tn, p, n, fill ); rng<copier, hh::big_endian_flavor>( tn, p, n, fill ); rng<reader, sp::be32>( tn, p, n, fill ); rng<hh::md5_128, hh::little_endian_flavor>( tn, p, n, fill ); rng<hh::xxhash_64, hh::big_endian_flavor>( tn, p, n, fill );
    rng<hh::sha2_512, hh::default_flavor>( tn, p, n, fill ); rng<hh::siphash_64, sp::le32>( tn, p, n, fill ); rng<hh::fnv1a_64, sp::ne32>( tn, p, n, fill ); rng<hh::xxhash_32, hh::little_endian_flavor>( tn, p, n, fill ); rng<hh::siphash_32, hh::big_endian_flavor>( tn, p, n, fill ); rng<hh::hmac_sha1_160, hh::default_flavor>( tn, p, n, fill );
}
template<class T> void edge( char const* tn )
{
    pages pg; std::size_t N = hz::g_thorough? 300: 70;
    for( std::size_t n = 0; n <= N; ++n )
    {
        std::vector<T> s; for( std::size_t i = 0; i < n; ++i ) s.push_back( T( i % 2 ) ); T* p = heap( s ); ranges<T>( tn, p, n, 0 ); ranges<T>( tn, p, n, n % 9 + 1 ); std::free( p );
        ranges<T>( tn, (T const*)( pg.m + 2*pages::PG ) - n, n, 0 ); ranges<T>( tn, (T const*)( pg.m + pages::PG ), n, 3 );
    }
    // null ranges at every fill level of the algorithms
    for( std::size_t f = 0; f <= 130; ++f ) { ranges<T>( tn, (T const*)nullptr, 0, f ); T* q = (T*)std::malloc( sizeof(T) ); ranges<T>( tn, q + 1, 0, f ); std::free( q ); }
}
#if EDGES == 1
UNIT( e_uchar ) { edge<u8>( "unsigned char" ); } UNIT( e_char ) { edge<char>( "char" ); } UNIT( e_short ) { edge<short>( "short" ); } UNIT( e_u32 ) { edge<std::uint32_t>( "uint32_t" ); } 
#else
UNIT( e_u64 ) { edge<std::uint64_t>( "uint64_t" ); } UNIT( e_c32 ) { edge<char32_t>( "char32_t" ); } UNIT( e_wc ) { edge<wchar_t>( "wchar_t" ); }
UNIT( e_bool )
{
    pages pg; for( std::size_t n = 0; n <= 70; ++n ) { bool* p = (bool*)std::malloc( n? n: 1 ); for( std::size_t i = 0; i < n; ++i ) p[i] = i & 1; ranges<bool>( "bool", p, n, n % 9 ); std::free( p ); ranges<bool>( "bool", (bool const*)( pg.m + 2*pages::PG ) - n, n, 0 ); }
    for( std::size_t f = 0; f <= 130; ++f ) ranges<bool>( "bool", (bool const*)nullptr, 0, f );
}
template<class T> void fp( char const* tn ) { for( std::size_t n = 0; n <= 70; ++n ) { std::vector<T> s; for( std::size_t i = 0; i < n; ++i ) s.push_back( i % 3? T( i ): -T( 0 ) ); T* p = heap( s ); ranges<T>( tn, p, n, n % 9 ); std::free( p ); } for( std::size_t f = 0; f <= 130; ++f ) ranges<T>( tn, (T const*)nullptr, 0, f ); }
UNIT( e_float ) { fp<float>( "float" ); } UNIT( e_double ) { fp<double>( "double" ); }
#endif
#else
// objects with padding and with unused capacity: only the value is read
struct pad { char a; int b; friend bool operator==( pad const& x, pad const& y ) { return x.a == y.a && x.b == y.b; } explicit pad( int i = 0 ): a( (char)i ), b( i ) {} };
#if __cplusplus >= 201402L
BOOST_DESCRIBE_STRUCT( pad, (), (a, b) )
struct padded: pad { bool c; long double* d; char e; std::pair<char, double> f; padded( int i = 0 ): pad( i ), c( i & 1 ), d( nullptr ), e( 'e' ), f( 'f', 1.5 ) {} }; BOOST_DESCRIBE_STRUCT( padded, (pad), (c, d, e, f) )
UNIT( e_padding )
{
    for( std::size_t i = 0; i < 64; ++i )
    {
        hz::cur( "padded %zu", i ); void* q = std::malloc( sizeof(padded) ); padded* p = new( q ) padded( (int)i ); algs( *p, i ); algs( (pad&)*p, i ); std::pair<char, padded> pr( 'x', *p ); algs( pr, i ); std::array<padded, 3> ar = {{ *p, *p, *p }}; algs( ar, i ); std::tuple<char, pad, short, double> tu( 'c', *p, (short)1, 2.0 ); algs( tu, i );
        std::vector<padded> v( i % 5, *p ); algs( v, i ); std::vector<pad> w( i % 7, *p ); algs( w, i ); p->~padded(); std::free( q );
    }
}
#endif
UNIT( e_capacity )
{
    for( std::size_t n = 0; n <= 40; ++n ) for( std::size_t c = n; c <= n + 40; c += 13 )
    {
        hz::cur( "capacity %zu of %zu", n, c ); std::vector<u8> v; v.reserve( c ); v.resize( n ); algs( v, n ); std::vector<int> w; w.reserve( c ); w.resize( n ); algs( w, n );
#ifndef MSAN // (strings and lists are partly compiled in libstdc++.so)
        std::string s; s.reserve( c ); s.assign( n, 'x' ); algs( s, n ); std::vector<double> d; d.reserve( c ); d.resize( n ); algs( d, n ); std::u16string u; u.reserve( c ); u.assign( n, u'x' ); algs( u, n );
#endif
       
        std::vector<bool> b; b.reserve( c ); b.resize( n ); algs( b, n ); std::deque<int> q( n ); algs( q, n ); std::vector<std::string> vs; vs.reserve( c ); vs.resize( n ); algs( vs, n );
#if __cplusplus >= 201703L
        { char* p = (char*)std::malloc( n? n: 1 ); std::memset( p, 'y', n ); algs( std::string_view( p, n ), n ); algs( std::string_view( n? p: nullptr, n ), n ); std::free( p ); }
#endif
    }
}
// string literals and C arrays in exact blocks
template<std::size_t N> void carr()
{
    hz::cur( "C array of %zu", N ); typedef u8 A[ N ]; typedef char C[ N ]; typedef int I[ N ]; typedef double D[ N ]; struct box { A a; }; box* x = (box*)std::malloc( sizeof(box) ); std::memset( x, 1, sizeof(box) ); algs( x->a, N ); algs( (C&)x->a, N ); std::free( x );
    I* y = (I*)std::malloc( sizeof(I) ); std::memset( y, 1, sizeof(I) ); algs( *y, N ); std::free( y ); D* z = (D*)std::malloc( sizeof(D) ); for( std::size_t i = 0; i < N; ++i ) (*z)[i] = (double)i; algs( *z, N ); std::free( z );
    std::array<std::uint16_t, N>* s = new std::array<std::uint16_t, N>; s->fill( 5 ); algs( *s, N ); delete s; hh::digest<N>* d = new hh::digest<N>(); algs( *d, N ); delete d; boost::array<u8, N>* b = new boost::array<u8, N>; b->fill( 1 ); algs( *b, N ); delete b;
}
UNIT( e_arrays ) { carr<1>(); carr<2>(); carr<3>(); carr<4>(); carr<5>(); carr<7>(); carr<8>(); carr<9>(); carr<16>(); carr<31>(); carr<33>(); carr<64>(); carr<65>(); carr<129>(); algs( std::array<int, 0>(), 0 ); algs( std::array<u8, 0>(), 1 ); algs( boost::array<int, 0>(), 2 ); algs( std::tuple<>(), 3 ); }
UNIT( e_scalars ) { int x; algs( &x, 0 ); algs( (void*)nullptr, 1 ); algs( nullptr, 2 ); algs( true, 3 ); algs( 'c', 4 ); algs( va::en::c, 5 ); algs( 1.5f, 6 ); algs( -0.0, 7 ); algs( L'c', 0 ); algs( (signed char)-1, 0 ); algs( (long long)-1, 0 ); algs( std::initializer_list<int>(), 0 ); }
#endif
