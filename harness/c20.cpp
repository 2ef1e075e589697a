// C20: appending a value to any conforming algorithm, in any state, equals updating it with the
// value's message. -DALGO=type -DBLOCK=granularity; user-written algorithms below.
#define HARNESS_MAIN
#include "common.hpp"
#include "values.hpp"
#include "wide.hpp"
#include "algos.hpp"
#include <array>
typedef std::vector<unsigned char> bytes;

// minimal user-written algorithms: exactly the documented interface --------------------------
template<class R> struct conv; // 64-bit state -> result
template<class R> struct conv_int { static R get( std::uint64_t s ) { return (R)( s ^ ( s >> 29 ) ); } };
template<> struct conv<unsigned char>: conv_int<unsigned char> {}; template<> struct conv<std::uint16_t>: conv_int<std::uint16_t> {}; template<> struct conv<std::uint32_t>: conv_int<std::uint32_t> {}; template<> struct conv<unsigned long>: conv_int<unsigned long> {}; template<> struct conv<unsigned long long>: conv_int<unsigned long long> {};
template<class R> struct conv_arr { static R get( std::uint64_t s ) { R r{}; for( std::size_t i = 0; i < r.size(); ++i ) { s = s * 6364136223846793005ull + 1442695040888963407ull; *( r.data() + i ) = (unsigned char)( s >> 56 ); } return r; } };
template<std::size_t N> struct conv<std::array<unsigned char, N> >: conv_arr<std::array<unsigned char, N> > {}; template<std::size_t N> struct conv<hh::digest<N> >: conv_arr<hh::digest<N> > {};
template<class R> class user
{
    std::uint64_t s; unsigned n;
    void byte( unsigned char c ) { s = ( s ^ c ) * 0x9E3779B97F4A7C15ull; s ^= s >> 32; ++n; }
public:
    typedef R result_type; static constexpr int block_size = 16;
    user(): s( 1 ), n( 0 ) {}
    explicit user( std::uint64_t seed ): s( 1 ), n( 0 ) { if( seed ) { for( int i = 0; i < 8; ++i ) byte( (unsigned char)( seed >> 8*i ) ); result(); } }
    user( unsigned char const* p, std::size_t k ): s( 1 ), n( 0 ) { if( k ) { update( p, k ); result(); } }
    user( user const& r ): s( r.s ), n( r.n ) {}
    user& operator=( user const& r ) { s = r.s; n = r.n; return *this; }
    void update( void const* p, std::size_t k ) { for( std::size_t i = 0; i < k; ++i ) byte( ( (unsigned char const*)p )[i] ); }
    result_type result() { s ^= n; s *= 0xBF58476D1CE4E5B9ull; s ^= s >> 30; return conv<R>::get( s ); }
};
template<class R> constexpr int user<R>::block_size;
// an unusual but conforming one: final, allocates, update returns something, extra overloads and conversions
struct odd final
{
    typedef std::array<unsigned char, 9> result_type; static constexpr std::size_t block_size = 24;
    std::vector<unsigned char> m; odd() {} explicit odd( std::uint64_t s ) { for( int i = 0; s && i < 8; ++i ) m.push_back( (unsigned char)( s >> 8*i ) ); } odd( unsigned char const* p, std::size_t k ): m( p, p + k ) {}
    int update( void const* p, std::size_t k ) { m.insert( m.end(), (unsigned char const*)p, (unsigned char const*)p + k ); return 1; }
    odd& update( unsigned char const* p, std::size_t k ) { m.insert( m.end(), p, p + k ); return *this; }
    void update( int ) { m.push_back( 99 ); }
    result_type result() { m.push_back( 0x80 ); return conv<result_type>::get( sp::mix( m.data(), m.size(), 3 ) ); }
};
constexpr std::size_t odd::block_size;
// a wrapper that forwards to another algorithm (a counting, keyed adaptor)
template<class H> class wrap { H h; unsigned long long total; public: typedef typename H::result_type result_type; static constexpr int block_size = 64; wrap(): total( 0 ) {} explicit wrap( std::uint64_t s ): h( s ), total( 0 ) {} wrap( unsigned char const* p, std::size_t k ): h( p, k ), total( 0 ) {} void update( void const* p, std::size_t k ) { h.update( p, k ); total += k; } result_type result() { h.update( &total, sizeof total ); return h.result(); } };

static bytes aper( std::size_t n ) { bytes m( n ); for( std::size_t i = 0; i < n; ++i ) { std::uint64_t x = ( i + 1 ) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; m[i] = (unsigned char)( x >> 37 ); } return m; }
#ifndef ALGO
# define ALGO hh::fnv1a_32
# define BLOCK 8
#endif
typedef ALGO A;

struct st { char const* n; A h; };
static std::vector<st> states()
{
    std::vector<st> r; bytes d = bytes( 2 * BLOCK + 1 ); for( std::size_t i = 0; i < d.size(); ++i ) d[i] = (unsigned char)( i * 37 + 5 );
    st s; s.n = "fresh"; r.push_back( s );
    { st t = { "int-seeded", A( 0x1122334455667788ull ) }; r.push_back( t ); } { st t = { "byte-seeded", A( d.data(), 16 ) }; r.push_back( t ); }
    std::size_t k[] = { 1, BLOCK - 1, BLOCK, BLOCK + 3 }; static char const* kn[] = { "after 1 byte", "one byte before a block boundary", "at a block boundary", "past a block boundary" };
    for( int i = 0; i < 4; ++i ) { st t; t.n = kn[i]; t.h.update( d.data(), k[i] ); r.push_back( t ); }
    { st t; t.n = "after a result"; t.h.update( d.data(), 5 ); t.h.result(); r.push_back( t ); } { st t = { "seeded, after two results and input", A( 7 ) }; t.h.result(); t.h.result(); t.h.update( d.data(), BLOCK - 2 ); r.push_back( t ); }
    { st t; t.n = "assigned"; A x( 3 ); x.update( d.data(), 9 ); t.h = x; r.push_back( t ); }
    return r;
}
template<class F, class T> void one( T const& v, char const* tn, std::size_t i, char const* fn, std::vector<st> const& ss )
{
    for( st const& s: ss )
    {
        A a( s.h ), b( s.h ); hz::cur( "%s #%zu %s %s", tn, i, fn, s.n );
        hh::hash_append( a, F(), v ); sp::app<F>( b, v ); hz::trans( 2 ); hz::traces(); hz::states();
        for( int k = 0; k < 2; ++k ) { ref::res x = to_res( a.result() ), y = to_res( b.result() ); if( x.n != y.n || std::memcmp( x.b, y.b, x.n ) ) { hz::viol( "append", "%s value #%zu flavor %s, algorithm state '%s': result %d after append is %s, after updating with the message %s", tn, i, fn, s.n, k + 1, hz::hex( x.b, x.n ).c_str(), hz::hex( y.b, y.n ).c_str() ); break; } }
    }
}
template<class T> void type( char const* tn )
{
    std::vector<T> all = va::uni<T>::get( hz::g_thorough? 2000: 150 ); std::vector<st> ss = states();
    std::size_t step = all.size() > ( hz::g_thorough? 1500u: 90u )? all.size() / ( hz::g_thorough? 1500: 90 ): 1;
    for( std::size_t i = 0; i < all.size(); i += step ) { T const& v = all[i]; one<hh::default_flavor>( v, tn, i, "default", ss ); one<hh::little_endian_flavor>( v, tn, i, "little", ss ); one<sp::be32>( v, tn, i, "be32", ss ); }
    hz::sample( "%s: %zu values x %zu states x 3 flavors", tn, ( all.size() + step - 1 ) / step, ss.size() );
}
#define XV(N,...) UNIT( N ) { type<__VA_ARGS__>( #N ); }
#if __cplusplus >= 201402L
# define D14(X) X( d2, va::d2 ) X( v_d1, std::vector<va::d1> )
#else
# define D14(X)
#endif
#define TYPES(X) X( u8, unsigned char ) X( bl, bool ) X( i32, int ) X( u64, std::uint64_t ) X( en, va::en ) X( f, float ) X( d, double ) X( str, std::string ) X( v_u8, std::vector<unsigned char> ) X( v_u64, std::vector<std::uint64_t> ) X( v_f, std::vector<float> ) X( v_bool, std::vector<bool> ) X( dq, std::deque<std::uint16_t> ) X( fl, std::forward_list<unsigned char> ) X( v_v, std::vector<std::vector<short> > ) \
 X( p, VP( std::string, std::string ) ) X( t, VT3( std::string, unsigned char, std::string ) ) X( a2, VA( std::string, 2 ) ) X( a3, VA( std::uint16_t, 3 ) ) X( a0, VA( int, 0 ) ) X( ba, VBA( short, 2 ) ) X( vt0, std::vector<std::tuple<> > ) X( dig, hh::digest<3> ) X( set, std::set<std::string> ) X( map, VM( unsigned char, std::string ) ) \
 X( us, std::unordered_set<unsigned char> ) X( ums, std::unordered_multiset<std::string> ) X( um, VUM( unsigned char, std::vector<unsigned char> ) ) X( v_us, std::vector<std::unordered_set<unsigned char> > ) X( um_us, VUM( unsigned char, std::unordered_set<unsigned char> ) ) X( hook, va::hook ) X( ptr, void const* ) X( ff2_s, VFIX( fix_fwd, std::string, 2 ) ) X( fb1_i, VFIX( fix_bid, int, 1 ) ) X( fr2_i, VFIX( fix_rnd, int, 2 ) ) X( fc2_u16, VFIX( fix_con, std::uint16_t, 2 ) ) X( dc_i, va::dyn_con<int> ) X( df_s, va::dyn_fwd<std::string> ) X( uno_u8, va::uno<unsigned char> ) D14( X )
TYPES( XV )
// many elements, many components, deep nesting
template<class T> void wtype( char const* tn, std::size_t cap )
{
    std::vector<T> all = wd::wide<T>::get( cap ); std::vector<st> ss = states(), few; few.push_back( ss[0] ); few.push_back( ss[5] );
    std::size_t want = hz::g_thorough? 400: 60, step = all.size() > want? all.size() / want: 1; // an odd step, so that base values and variants of all sizes take part
    if( step > 1 && step % 2 == 0 ) ++step;
    for( std::size_t i = 0; i < all.size(); i += step ) { one<hh::default_flavor>( all[i], tn, i, "default", few ); one<sp::be32>( all[i], tn, i, "be32", few ); }
    hz::sample( "%s: %zu wide values", tn, ( all.size() + step - 1 ) / step );
}
#define XW(N,C,...) UNIT( N ) { wtype<__VA_ARGS__>( #N, C ); }
#define WSEL20(X) X( w_v_u16, 1025, std::vector<std::uint16_t> ) X( w_str, 4097, std::string ) X( w_v_str, 257, std::vector<std::string> ) X( w_map, 257, VM( std::string, std::string ) ) X( w_um, 257, VUM( int, std::string ) ) X( w_a17s, 0, VA( std::string, 17 ) ) X( w_a257f, 0, VA( float, 257 ) ) X( w_c33u, 0, wd::box<std::uint16_t VCOMMA 33> ) X( w_t13, 0, wd::T13 ) X( w_n8, 300, wd::N8 )
WSEL20( XW )
#if __cplusplus >= 201402L
XW( w_d20, 0, wd::D20 )
#endif
// long ranges: around every power of two, every form
UNIT( long_ranges )
{
    std::vector<st> ss = states(); std::vector<std::size_t> ns; unsigned const top = hz::g_thorough? 20: 16;
    for( unsigned k = 10; k <= top; ++k ) for( int d = -1; d <= 1; ++d ) ns.push_back( ( (std::size_t)1 << k ) + d ); for( std::size_t n: { 1500u, 3u * 1024, 5u * 1024, 3u * 4096, 10000u, 5u * 4096, 7u * 8192 } ) ns.push_back( n );
    bytes d = aper( ( (std::size_t)1 << top ) + 1 ); std::vector<std::uint16_t> w( d.begin(), d.end() );
    for( std::size_t n: ns ) for( std::size_t j: { 0u, 5u } )
    {
        st const& s = ss[j]; hz::cur( "long range n=%zu %s", n, s.n ); hz::states(); hz::traces( 8 ); hz::trans( 8 );
        A x( s.h ), y( s.h ), z( s.h ); x.update( (void const*)d.data(), n ); bytes m( 2 * n ); for( std::size_t i = 0; i < n; ++i ) { m[ 2*i ] = d[i]; m[ 2*i + 1 ] = 0; } y.update( (void const*)m.data(), 2 * n ); { bytes b( m ); for( std::size_t i = 0; i < n; ++i ) std::swap( b[ 2*i ], b[ 2*i + 1 ] ); z.update( (void const*)b.data(), 2 * n ); }
        A xs( x ), ys( y ), zs( z ); sp::size<sp::be32>( xs, n ); sp::size<hh::little_endian_flavor>( ys, n ); sp::size<sp::be32>( zs, n );
        auto rx = x.result(); auto ry = y.result(); auto rz = z.result(); auto rxs = xs.result(); auto rys = ys.result(); auto rzs = zs.result();
        A a( s.h ), b( s.h ), c( s.h ), e( s.h ), f( s.h ), g( s.h ), k( s.h ), l( s.h ); bytes v( d.begin(), d.begin() + n ); std::vector<std::uint16_t> u( w.begin(), w.begin() + n ); std::deque<unsigned char> q( v.begin(), v.end() );
        hh::hash_append_range( a, sp::be32(), v.data(), v.data() + n ); hh::hash_append_range( b, sp::be32(), q.begin(), q.end() ); hh::hash_append( c, sp::be32(), v ); hh::hash_append( e, sp::be32(), q );
        hh::hash_append_range( f, hh::little_endian_flavor(), u.data(), u.data() + n ); hh::hash_append( g, hh::little_endian_flavor(), u ); hh::hash_append_range( k, hh::big_endian_flavor(), u.begin(), u.end() ); hh::hash_append( l, sp::be32(), u );
        A o( s.h ); hh::hash_append( o, sp::be32(), std::string( v.begin(), v.end() ) ); A p( s.h ); hh::hash_append_sized_range( p, sp::be32(), v.data(), v.data() + n );
        bool const ok[] = { a.result() == rx, b.result() == rx, c.result() == rxs, e.result() == rxs, o.result() == rxs, p.result() == rxs, f.result() == ry, g.result() == rys, k.result() == rz, l.result() == rzs };
        static char const* const nm[] = { "byte pointer range", "deque iterator range", "byte vector", "byte deque", "string", "sized byte range", "16-bit pointer range", "16-bit vector", "16-bit range, big-endian", "16-bit vector, big-endian" };
        for( int i = 0; i < 10; ++i ) if( !ok[i] ) { hz::viol( "long", "%s of %zu elements, algorithm state '%s': differs from updating with its message", nm[i], n, s.n ); break; }
    }
}
// ranges by iterators, long pieces (several blocks in one update)
UNIT( ranges )
{
    std::vector<st> ss = states();
    for( std::size_t n: { 0u, 1u, 3u, (unsigned)BLOCK - 1, (unsigned)BLOCK, (unsigned)BLOCK + 1, 3u * BLOCK + 5, 1000u } ) for( st const& s: ss )
    {
        bytes d( n + 1 ); for( std::size_t i = 0; i < n; ++i ) d[i] = (unsigned char)( i * 73 + 1 ); std::vector<std::uint16_t> w( d.begin(), d.begin() + n );
        hz::cur( "range n=%zu %s", n, s.n ); hz::states(); hz::traces( 6 ); hz::trans( 8 );
        A a( s.h ), b( s.h ), c( s.h ), e( s.h ), x( s.h ), y( s.h );
        hh::hash_append_range( a, hh::default_flavor(), d.data(), d.data() + n ); hh::hash_append_size( a, sp::be32(), n );
        hh::hash_append_range( b, hh::big_endian_flavor(), it::fwd<unsigned char>( d.data() ), it::fwd<unsigned char>( d.data() + n ) ); hh::hash_append_size( b, sp::be32(), n );
        x.update( d.data(), n ); sp::size<sp::be32>( x, n );
        hh::hash_append_sized_range( c, sp::be32(), w.data(), w.data() + n ); hh::hash_append_sized_range( e, sp::be32(), w.begin(), w.end() );
        for( std::size_t i = 0; i < n; ++i ) sp::num<sp::be32>( y, w[i], 2 ); sp::size<sp::be32>( y, n );
        A u( s.h ), v( s.h ); hh::hash_append_unordered_range( u, sp::be32(), w.begin(), w.end() ); sp::unordered<std::uint16_t, sp::be32>( v, w.begin(), w.end() );
        auto rx = x.result(), ry = y.result();
        if( a.result() != rx || b.result() != rx ) hz::viol( "range", "hash_append_range of %zu bytes in state '%s'", n, s.n );
        if( c.result() != ry || e.result() != ry ) hz::viol( "sized", "hash_append_sized_range of %zu elements in state '%s'", n, s.n );
        if( u.result() != v.result() ) hz::viol( "unordered", "hash_append_unordered_range of %zu elements in state '%s'", n, s.n );
    }
}
// the message recorded by algorithms of different interfaces is the same
UNIT( recorders )
{
    std::vector<unsigned char> x; std::vector<std::map<std::string, std::vector<float> > > v( 3 ); v[1]["a"] = { 1.0f, -0.0f }; v[2]["bc"]; v[2]["d"].resize( 40 );
    sp::rec a; sp::rec2 b; odd c; hh::hash_append( a, sp::be32(), v ); hh::hash_append( b, sp::be32(), v ); hh::hash_append( c, sp::be32(), v ); sp::rec m; sp::app<sp::be32>( m, v ); hz::states( 3 ); hz::trans( 3 ); hz::traces( 3 );
    if( a.m != m.m || b.m != m.m || c.m != m.m ) hz::viol( "recorders", "messages recorded by algorithms of different interfaces differ" );
}
