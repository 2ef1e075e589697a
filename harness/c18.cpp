// C18 (one thread): copies, assignments and interleavings of operations on several objects.
#define HARNESS_MAIN
#include "explore.hpp"
#include "values.hpp"
#include <sstream>
typedef unsigned char u8;

static bytes const& msg() { static bytes m = pattern( 9, 600 ); return m; }

// ---- three objects of one algorithm: all histories of update, result, copy, assign, destroy/construct ----
template<class H, class M, unsigned B> struct cop
{
    char const* name; struct slot { std::unique_ptr<H> h; M m; }; std::size_t ks[ 3 ]; std::string path; int slots;
    struct st { std::unique_ptr<H> h[ 3 ]; M m[ 3 ]; };
    void dup( st& d, st const& s ) { for( int i = 0; i < slots; ++i ) { d.h[i].reset( new H( *s.h[i] ) ); d.m[i] = s.m[i]; } }
    void check( st& s, char const* w ) { for( int i = 0; i < slots; ++i ) for( int k = 0; k < 2; ++k ) { ref::res r = to_res( s.h[i]->result() ), e = s.m[i].result(); hz::trans(); if( r != e ) hz::viol( name, "%s: object %d, result %d after %s(%s): %s, want %s", name, i, k, w, path.c_str(), hx( r ), hx( e ) ); } }
    // ops are replayed from the start, so that objects live through the whole history
    std::vector<int> ops; int nops() const { return slots * 3 + slots + slots * slots + slots * ( slots - 1 ) + slots; }
    void apply( st& s, int o )
    {
        char b[ 32 ];
        if( o < slots * 3 ) { int i = o / 3; std::size_t k = ks[ o % 3 ]; s.h[i]->update( &msg()[ i * 7 ], k ); s.m[i].update( &msg()[ i * 7 ], k ); snprintf( b, sizeof b, " %d.update(%zu)", i, k ); path += b; return; } o -= slots * 3;
        if( o < slots ) { ref::res r = to_res( s.h[o]->result() ), e = s.m[o].result(); snprintf( b, sizeof b, " %d.result", o ); path += b; if( r != e ) hz::viol( name, "%s: result after%s: %s, want %s", name, path.c_str(), hx( r ), hx( e ) ); return; } o -= slots;
        if( o < slots * slots ) { int i = o / slots, j = o % slots; *s.h[j] = *s.h[i]; s.m[j] = M( s.m[i] ); snprintf( b, sizeof b, " %d=%d", j, i ); path += b; return; } o -= slots * slots;
        if( o < slots * ( slots - 1 ) ) { int i = o / ( slots - 1 ), j = ( i + 1 + o % ( slots - 1 ) ) % slots; s.h[j].reset( new H( *s.h[i] ) ); s.m[j] = M( s.m[i] ); snprintf( b, sizeof b, " %d(%d)", j, i ); path += b; return; } o -= slots * ( slots - 1 );
        { H t( std::move( *s.h[o] ) ); s.h[o].reset( new H( 77 ) ); M n( 77 ), q( s.m[o] ); s.m[o] = n; H u( 5 ); u = std::move( t ); ref::res r = to_res( u.result() ), e = q.result(); snprintf( b, sizeof b, " %d moved", o ); path += b; if( r != e ) hz::viol( name, "%s: moved object's result after%s: %s, want %s", name, path.c_str(), hx( r ), hx( e ) ); }
    }
    void run( st const& s, int depth )
    {
        for( int o = 0; o < nops(); ++o )
        {
            st c; dup( c, s ); std::size_t l = path.size(); hz::states(); hz::trans(); apply( c, o );
            if( depth > 1 ) run( c, depth - 1 );
            hz::traces(); check( c, "" ); path.resize( l );
        }
    }
    void replay( int depth ) // the same histories without any copy that the history does not contain
    {
        std::vector<int> v( depth, 0 );
        for( ;; )
        {
            st s; for( int i = 0; i < slots; ++i ) { s.h[i].reset( i == 1? new H( 12345 ): new H ); s.m[i] = i == 1? M( 12345 ): M(); } path.clear(); hz::states(); hz::traces(); hz::trans( depth );
            for( int d = 0; d < depth; ++d ) apply( s, v[d] );
            check( s, "fresh" ); int d = 0; while( d < depth && ++v[d] == nops() ) v[ d++ ] = 0; if( d == depth ) break;
        }
    }
    void go()
    {
        hz::cur( "%s", name ); ks[0] = 1; ks[1] = B - 1; ks[2] = B + B/2; 
        { slots = 2; st s; s.h[0].reset( new H ); s.h[1].reset( new H( 12345 ) ); s.m[0] = M(); s.m[1] = M( 12345 ); run( s, hz::g_thorough? 5: 4 ); replay( hz::g_thorough? 5: 4 ); }
        { slots = 3; st s; for( int i = 0; i < 3; ++i ) { s.h[i].reset( i == 1? new H( 12345 ): new H ); s.m[i] = i == 1? M( 12345 ): M(); } run( s, hz::g_thorough? 4: 3 ); replay( hz::g_thorough? 4: 3 ); }
    }
};
#define XC(N,H,M,B) UNIT( N##_copy ) { cop<H, M, B> c; c.name = #N; c.go(); }
ALGOS_ALL( XC )

// ---- objects of different algorithms: all interleavings of their scripts ------------------------------------
struct obj { virtual ~obj() {} virtual void up( u8 const* p, std::size_t n ) = 0; virtual ref::res res() = 0; virtual void copy() = 0; };
template<class T> struct real: obj { std::unique_ptr<T> h; explicit real( int k ) { static u8 const s[] = "a key of 17 bytes"; h.reset( k == 0? new T: k == 1? new T( 99 ): new T( s, 17 ) ); } void up( u8 const* p, std::size_t n ) { h->update( p, n ); } ref::res res() { return to_res( h->result() ); } void copy() { std::unique_ptr<T> n( new T( *h ) ); h.swap( n ); } };
template<class T> struct model: obj { T h; explicit model( int k ): h() { static u8 const s[] = "a key of 17 bytes"; if( k == 1 ) h = T( 99 ); if( k == 2 ) h = T( s, 17 ); } void up( u8 const* p, std::size_t n ) { h.update( p, n ); } ref::res res() { return h.result(); } void copy() {} };
struct alg { char const* name; obj* (*mk)( int ); obj* (*mm)( int ); unsigned b; };
template<class T> obj* mkr( int k ) { return new real<T>( k ); } template<class T> obj* mkm( int k ) { return new model<T>( k ); }
#define XA(N,H,M,B) { #N, &mkr<H>, &mkm<M>, B },
static alg const ALG[] = { ALGOS_ALL( XA ) }; static int const NA = sizeof ALG / sizeof ALG[0];

// script of object i: construct, update, update, result, update+copy, result
static int const LEN = 6;
static void step( std::unique_ptr<obj>& o, alg const& a, bool m, int id, int pc, std::vector<ref::res>* out )
{
    switch( pc )
    {
    case 0: o.reset( m? a.mm( id % 3 ): a.mk( id % 3 ) ); break;
    case 1: o->up( &msg()[ id * 5 ], a.b - 3 ); break;
    case 2: o->up( &msg()[ id * 5 + 100 ], 7 + id ); break;
    case 3: out->push_back( o->res() ); break;
    case 4: o->copy(); o->up( &msg()[ id * 11 ], 3 ); break;
    default: out->push_back( o->res() ); break;
    }
}
static std::vector<ref::res> const& expect( int a, int id ) // from the model
{
    static std::map<std::pair<int,int>, std::vector<ref::res> > c; std::vector<ref::res>& v = c[ std::make_pair( a, id ) ];
    if( v.empty() ) { std::unique_ptr<obj> o; for( int i = 0; i < LEN; ++i ) step( o, ALG[a], true, id, i, &v ); }
    return v;
}
static void inter( std::vector<int> const& as, int len )
{
    int n = (int)as.size(); std::vector<int> seq; for( int i = 0; i < n; ++i ) for( int k = 0; k < len; ++k ) seq.push_back( i );
    do
    {
        std::unique_ptr<obj> o[ 4 ]; std::vector<ref::res> out[ 4 ]; int pc[ 4 ] = {}; hz::states(); hz::trans( seq.size() ); hz::traces();
        for( std::size_t k = 0; k < seq.size(); ++k ) { int i = seq[k]; step( o[i], ALG[ as[i] ], false, i, pc[i]++, &out[i] ); }
        for( int i = 0; i < n; ++i ) { std::vector<ref::res> const& e = expect( as[i], i ); for( std::size_t k = 0; k < out[i].size(); ++k ) if( out[i][k] != e[k] ) { std::string s; for( int x: seq ) s += (char)( '0' + x ); hz::viol( "interleaving", "objects %s %s %s..., schedule %s: object %d result %zu is %s, want %s", ALG[ as[0] ].name, ALG[ as[1] ].name, n > 2? ALG[ as[2] ].name: "", s.c_str(), i, k, hx( out[i][k] ), hx( e[k] ) ); } }
    }
    while( std::next_permutation( seq.begin(), seq.end() ) );
}
static void pairs( int a ) { for( int b = 0; b < NA; ++b ) { hz::cur( "%s with %s", ALG[a].name, ALG[b].name ); inter( { a, b }, LEN ); } hz::sample( "%s with each of 26 algorithms: all 924 interleavings of two six-step scripts", ALG[a].name ); }
static void triples( int a ) { int st = hz::g_thorough? 1: 2; for( int b = 0; b < NA; b += st ) for( int d = ( a + b ) % st; d < NA; d += st ) { hz::cur( "%s, %s, %s", ALG[a].name, ALG[b].name, ALG[d].name ); inter( { a, b, d }, 3 + ( a == b && b == d ) ); } inter( { a, a, a }, 4 ); }
template<int I> static void pu() { pairs( I ); } template<int I> static void tu() { triples( I ); }
#define PU(I) static hz::reg pr##I( "pairs_" #I, &pu<I> ); static hz::reg tr##I( "triples_" #I, &tu<I> );
PU(0) PU(1) PU(2)
#ifndef LEGACY
PU(3) PU(4) PU(5) PU(6) PU(7) PU(8) PU(9) PU(10) PU(11) PU(12) PU(13) PU(14) PU(15) PU(16) PU(17) PU(18) PU(19) PU(20) PU(21) PU(22) PU(23) PU(24) PU(25)
#endif

// ---- operations nested in one another: an algorithm, a hook and an iterator that hash something else meanwhile ----
static int g_nest = 0; static unsigned long long g_nested = 0;
static void nested()
{
    if( g_nest >= 2 ) return; ++g_nest; ++g_nested; // appends of every kind, in both byte orders, and results and conversions
    hh::sha2_256 h; std::uint32_t x[ 3 ] = { 0xA1A2A3A4, 0xB1B2B3B4, 5 }; hh::hash_append( h, hh::big_endian_flavor(), x ); hh::hash_append( h, hh::little_endian_flavor(), x ); hh::hash_append( h, sp::be32(), 1.25 ); hh::hash_append( h, sp::be32(), -7.5f ); hh::hash_append( h, hh::big_endian_flavor(), std::make_pair( 'z', 0x1122334455667788ull ) ); hh::hash_append( h, hh::default_flavor(), (void*)nullptr ); hh::hash_append( h, hh::big_endian_flavor(), std::vector<bool>( 3, true ) ); hh::hash_append_size( h, sp::be32(), 99 ); hh::hash_append_unordered_range( h, hh::big_endian_flavor(), x, x + 3 ); hh::hash_append( h, hh::big_endian_flavor(), std::tuple<>() ); hh::hash_append( h, hh::big_endian_flavor(), std::u16string( u"qq" ) ); hh::hash_append( h, hh::big_endian_flavor(), std::unordered_set<short>{ 4, 5 } );
    auto r = h.result(); (void)hh::to_string( r ); (void)hh::get_integral_result<unsigned>( r ); hh::hmac_md5_128 k( 3 ); k.update( r.data(), 32 ); char b[ 80 ]; hh::to_chars( k.result(), b, b + 80 ); hh::xxhash_64 xx( 7 ); xx.update( r.data(), 32 ); (void)hh::get_integral_result<unsigned char>( xx.result() ); hh::siphash_64 ss( 8 ); ss.update( b, 20 ); (void)ss.result(); hh::sha2_512 s5; s5.update( b, 20 ); (void)s5.result(); hh::ripemd_160 r1; r1.update( b, 20 ); (void)r1.result(); hh::sha1_160 s1; s1.update( b, 20 ); (void)s1.result();
    std::ostringstream os; os << r << k.result(); hh::digest<3> d3; d3[1] = 7; os << d3; (void)hh::to_string( d3 );
    --g_nest;
}
struct nrec: sp::rec { nrec() {} nrec( std::uint64_t s ): sp::rec( s ) {} nrec( u8 const* p, std::size_t n ): sp::rec( p, n ) {} void update( void const* p, std::size_t n ) { nested(); sp::rec::update( p, n ); } result_type result() { nested(); return sp::rec::result(); } };
struct nhook { va::hook h; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, nhook const& v ) { nested(); hh::hash_append( h, f, v.h.a ); nested(); hh::hash_append( h, f, v.h.b ); } };
namespace sp { template<> struct S<va::hook, void>; template<> struct S<nhook, void> { template<class F, class H> static void app( H& h, nhook const& v ) { S<va::hook>::app<F>( h, v.h ); } }; }
template<class T> struct niter: it::fwd<T> { niter( T const* p ): it::fwd<T>( p ) {} T const& operator*() const { nested(); return *this->p; } niter& operator++() { nested(); ++this->p; return *this; } niter operator++( int ) { niter r( *this ); ++*this; return r; } };
template<class T> struct nrange { T const* p; std::size_t n; typedef niter<T> iterator; typedef niter<T> const_iterator; typedef T value_type; iterator begin() const { return niter<T>( p ); } iterator end() const { return niter<T>( p + n ); } };
template<class F, class T> void nest( char const* tn, T const& v ) { hz::trans(); hz::traces(); nrec h; hh::hash_append( h, F(), v ); sp::rec e; sp::app<F>( e, v ); if( h.m != e.m ) hz::viol( "nested", "%s: message %s when update hashes something else, %s otherwise", tn, hz::hexc( h.m ).c_str(), hz::hexc( e.m ).c_str() ); }
template<class T> void nestt( char const* tn ) { std::vector<T> a = va::uni<T>::get( hz::g_thorough? 600: 60 ); for( std::size_t i = 0; i < a.size(); ++i ) { hz::cur( "nested %s #%zu", tn, i ); hz::states(); nest<hh::default_flavor>( tn, a[i] ); nest<hh::big_endian_flavor>( tn, a[i] ); nest<hh::little_endian_flavor>( tn, a[i] ); nest<sp::be32>( tn, a[i] ); } hz::sample( "%s: %zu values appended while %llu other operations run inside update", tn, a.size(), g_nested ); }
#define XN(N,...) UNIT( nest_##N ) { nestt<__VA_ARGS__>( #N ); }
VTYPES_A( XN ) VTYPES_B( XN ) VTYPES_C( XN ) VTYPES_D( XN )
template<class H, class M> void nest_it( char const* an )
{
    for( std::size_t n = 0; n < 40; ++n )
    {
        std::vector<std::uint32_t> v; for( std::size_t i = 0; i < n; ++i ) v.push_back( (std::uint32_t)( i * 0x01020305u + 1 ) ); hz::cur( "nested iteration, %zu elements", n ); hz::states(); hz::trans( 3 ); hz::traces();
        nrange<std::uint32_t> r = { v.data(), n }; H h, g; hh::hash_append( h, hh::big_endian_flavor(), r ); sp::app<hh::big_endian_flavor>( g, v ); ref::res a = to_res( h.result() ), b = to_res( g.result() ); if( a != b ) hz::viol( "nested-iterator", "%s: range of %zu whose iterators hash something else: %s, want %s", an, n, hx( a ), hx( b ) );
        H k, l; hh::hash_append_unordered_range( k, hh::big_endian_flavor(), niter<std::uint32_t>( v.data() ), niter<std::uint32_t>( v.data() + n ) ); sp::unordered<std::uint32_t, hh::big_endian_flavor>( l, v.begin(), v.end() ); a = to_res( k.result() ); b = to_res( l.result() ); if( a != b ) hz::viol( "nested-iterator", "%s: unordered range of %zu whose iterators hash something else: %s, want %s", an, n, hx( a ), hx( b ) );
        nhook q; q.h.a = std::string( n, 'q' ); q.h.b = (u8)n; std::vector<nhook> w( n % 5, q ); H c, d; hh::hash_append( c, hh::default_flavor(), w ); sp::app<hh::default_flavor>( d, w ); a = to_res( c.result() ); b = to_res( d.result() ); if( a != b ) hz::viol( "nested-hook", "%s: hooks that hash something else: %s, want %s", an, hx( a ), hx( b ) );
        char buf[ 32 ]; nest<hh::big_endian_flavor>( "hook", q ); (void)buf;
    }
}
#define XI(N,H,M,B) UNIT( N##_nest ) { nest_it<H, M>( #N ); }
ALGOS_ALL( XI )

// a stream whose output operation prints and hashes other things
struct nbuf: std::streambuf { std::string s; int overflow( int c ) { nested(); s += (char)c; nested(); return c; } std::streamsize xsputn( char const* p, std::streamsize n ) { for( std::streamsize i = 0; i < n; ++i ) { if( i % 8 == 0 ) nested(); s += p[i]; } return n; } };
template<std::size_t N> static void print()
{
    for( int k = 0; k < 40; ++k )
    {
        hh::digest<N> d; std::string e; for( std::size_t i = 0; i < N; ++i ) { d[i] = (u8)( i * 29 + k * 7 ); char b[ 3 ]; snprintf( b, 3, "%02x", (unsigned)d[i] ); e += b; }
        nbuf b; std::ostream os( &b ); hz::cur( "digest<%zu> #%d printed on a stream that prints digests", N, k ); os << d; os << d; hz::states(); hz::trans( 2 ); hz::traces(); if( b.s != e + e ) hz::viol( "nested-stream", "digest<%zu> printed as %s, want %s twice", N, b.s.c_str(), e.c_str() );
    }
}
UNIT( print_nested ) { print<3>(); print<16>(); print<20>(); print<32>(); print<1>(); print<64>(); }
