// C11: unordered ranges and containers hash by content.
#define HARNESS_MAIN
#include "common.hpp"
#include "values.hpp"
#include "algos.hpp"
#include <boost/unordered_set.hpp>
#include <boost/unordered_map.hpp>
#include <algorithm>
#include <numeric>
#include <functional>
typedef std::vector<unsigned char> bytes;

// user algorithms with other result types
struct rec32: sp::rec { typedef std::uint32_t result_type; result_type result() { return (result_type)( sp::rec::result() >> 7 ); } };
struct recA8: sp::rec { typedef std::array<unsigned char, 8> result_type; result_type result() { std::uint64_t r = sp::rec::result(); result_type a; for( int i = 0; i < 8; ++i ) a[i] = (unsigned char)( r >> 8*i ); return a; } };
struct recD: sp::rec { typedef hh::digest<20> result_type; result_type result() { std::uint64_t r = sp::rec::result(); result_type a; for( int i = 0; i < 20; ++i ) a[i] = (unsigned char)( r >> 8*( i % 8 ) ) ^ i; return a; } };

template<class H> bytes dump( H& h ) { return h.m; }
#define REAL(N,T,MOD,BL) static bytes dump( T& h ) { bytes r; for( int k = 0; k < 2; ++k ) { ref::res x = to_res( h.result() ); r.insert( r.end(), x.b, x.b + x.n ); } return r; }
ALGOS_ALL( REAL )

template<class H> H pre( int k ) { H h; unsigned char const p[] = { 1, 2, 3 }; if( k >= 1 ) h.update( (void const*)p, 1 ); if( k >= 2 ) h.update( (void const*)( p + 1 ), 2 ); if( k == 3 ) (void)h.result(); return h; }

// every multiset over the alphabet, every order, several range forms
template<class H, class F, class T> void multisets( char const* what, std::vector<T> const& al, std::size_t maxn, bool sep )
{
    for( int pk = 0; pk < 4; ++pk )
    {
        H const h0 = pre<H>( pk ); std::map<bytes, std::string> seen;
        std::vector<int> ms; // non-decreasing index sequences
        std::function<void( int )> go = [&]( int from )
        {
            hz::states(); std::vector<int> perm( ms ); std::string name; for( int i: ms ) name += char( 'a' + i );
            hz::cur( "%s {%s} prefix %d", what, name.c_str(), pk );
            H e( h0 ); { std::vector<T> m; for( int i: ms ) m.push_back( al[i] ); sp::unordered<T, F>( e, m.begin(), m.end() ); } bytes ex = dump( e ); hz::traces();
            do
            {
                std::vector<T> m; for( int i: perm ) m.push_back( al[i] ); T* p = m.data(); T const* q = p; std::size_t n = m.size(); std::list<T> l( m.begin(), m.end() );
                auto chk = [&]( H& h, char const* form ) { hz::trans(); bytes g = dump( h ); if( g != ex ) { std::string o; for( int i: perm ) o += char( 'a' + i ); hz::viol( "unordered", "%s elements in order %s (%s), prior state %d: %s, specification %s", what, o.c_str(), form, pk, hz::hexc( g ).c_str(), hz::hexc( ex ).c_str() ); } };
                { H h( h0 ); hh::hash_append_unordered_range( h, F(), q, q + n ); chk( h, "pointers" ); }
                { H h( h0 ); hh::hash_append_unordered_range( h, F(), p, p + n ); chk( h, "mutable pointers" ); }
                { H h( h0 ); hh::hash_append_unordered_range( h, F(), l.begin(), l.end() ); chk( h, "list" ); }
                { H h( h0 ); hh::hash_append_unordered_range( h, F(), m.rbegin(), m.rend() ); chk( h, "reversed" ); }
                { H h( h0 ); it::src<T> s = { q, q + n }; hh::hash_append_unordered_range( h, F(), it::input<T>( &s ), it::input<T>() ); chk( h, "single pass" ); }
                { H h( h0 ); hh::hash_append_unordered_range( h, F(), it::prox<T, std::random_access_iterator_tag>( q ), it::prox<T, std::random_access_iterator_tag>( q + n ) ); chk( h, "proxies" ); }
            }
            while( std::next_permutation( perm.begin(), perm.end() ) );
            if( sep ) { auto r = seen.insert( std::make_pair( ex, name ) ); if( !r.second ) hz::viol( "multiplicity", "%s: multisets {%s} and {%s} give the same message", what, r.first->second.c_str(), name.c_str() ); }
            if( ms.size() < maxn ) for( int i = from; i < (int)al.size(); ++i ) { ms.push_back( i ); go( i ); ms.pop_back(); }
        };
        go( 0 );
    }
}
template<class H, class F> void alph( char const* what, bool sep, std::size_t n )
{
    std::string w( what );
    multisets<H, F, unsigned char>( ( w + " uchar" ).c_str(), { 0, 1, 255 }, n, sep ); multisets<H, F, int>( ( w + " int" ).c_str(), { 0, -1, 256, 7 }, n, sep );
    multisets<H, F, std::string>( ( w + " string" ).c_str(), { "", "a", "ab" }, n, sep ); multisets<H, F, std::pair<unsigned char, std::string> >( ( w + " pair" ).c_str(), { { 0, "" }, { 1, "x" }, { 1, "" } }, n, sep );
    multisets<H, F, double>( ( w + " double" ).c_str(), { 0.0, 1.0, -2.5 }, n, sep );
}
static std::size_t N() { return hz::g_thorough? 6: 4; }
UNIT( ms_rec_be ) { alph<sp::rec, hh::big_endian_flavor>( "64-bit recorder, big", true, N() + 1 ); } UNIT( ms_rec_le ) { alph<sp::rec, hh::little_endian_flavor>( "64-bit recorder, little", true, N() + 1 ); } UNIT( ms_rec_def ) { alph<sp::rec2, hh::default_flavor>( "64-bit recorder, default", true, N() ); } UNIT( ms_rec_be32 ) { alph<sp::rec, sp::be32>( "64-bit recorder, be32", true, N() ); }
UNIT( ms_32 ) { alph<rec32, hh::big_endian_flavor>( "32-bit recorder, big", false, N() ); alph<rec32, sp::le32>( "32-bit recorder, le32", false, N() ); } UNIT( ms_a8 ) { alph<recA8, sp::le32>( "array recorder", true, N() ); } UNIT( ms_dig ) { alph<recD, hh::big_endian_flavor>( "digest recorder", true, N() ); }
#define REALU(NM,T,MOD,BL) UNIT( real_##NM ) { multisets<T, hh::big_endian_flavor, unsigned char>( #NM " uchar", { 0, 1, 255 }, N() - 1, false ); multisets<T, sp::le32, std::string>( #NM " string", { "", "a", "ab" }, N() - 1, false ); }
ALGOS_ALL( REALU )

// ---- containers by history ------------------------------------------------------------------
struct bad { template<class T> std::size_t operator()( T const& ) const { return 1; } }; // everything collides
struct neg { std::size_t operator()( int x ) const { return ~(std::size_t)x * 0x9E3779B9u; } };
template<class C> struct ops; // op count, apply
template<class C> struct ops_set
{
    static int count() { return 9; }
    static bool apply( C& c, int op )
    {
        switch( op )
        {
        case 0: case 1: case 2: { static int const v[] = { 1, 14, -3 }; c.insert( v[op] ); return true; }
        case 3: case 4: { auto i = c.find( op == 3? 1: 14 ); if( i == c.end() ) return false; c.erase( i ); return true; }
        case 5: c.rehash( 1 ); return true; case 6: c.rehash( 97 ); return true;
        case 7: c.max_load_factor( c.max_load_factor() > 0.9f? 0.3f: 3.0f ); c.rehash( 0 ); return true;
        default: { C d( c.begin(), c.end(), 200 ); std::swap( c, d ); return true; }
        }
    }
};
template<class C> struct ops_map
{
    static int count() { return 9; }
    static bool apply( C& c, int op )
    {
        switch( op )
        {
        case 0: case 1: case 2: { static int const v[] = { 1, 14, -3 }; c.insert( typename C::value_type( v[op], std::string( op, 'z' ) ) ); return true; }
        case 3: { auto i = c.find( 1 ); if( i == c.end() ) return false; c.erase( i ); return true; }
        case 4: { auto i = c.find( 14 ); if( i == c.end() ) return false; i->second += 'q'; return true; }
        case 5: c.rehash( 1 ); return true; case 6: c.reserve( 97 ); return true;
        case 7: c.max_load_factor( c.max_load_factor() > 0.9f? 0.3f: 3.0f ); c.rehash( 0 ); return true;
        default: { C d( c.begin(), c.end(), 200 ); std::swap( c, d ); return true; }
        }
    }
};
template<class C, class O> struct hist
{
    typedef typename C::value_type V; char const* kind; std::string path; std::map<std::vector<bytes>, std::pair<bytes, std::string> > canon; std::map<bytes, std::vector<bytes> > back;
    void go( C const& c, int d )
    {
        hz::states(); hz::trans(); hz::traces(); hz::cur( "%s ops %s", kind, path.c_str() );
        sp::rec h = pre<sp::rec>( 1 ); hh::hash_append( h, hh::big_endian_flavor(), c ); bytes m = h.m;
        sp::rec e = pre<sp::rec>( 1 ); sp::app<hh::big_endian_flavor>( e, c ); if( m != e.m ) hz::viol( "container", "%s after %s: %s, specification %s", kind, path.c_str(), hz::hexc( m ).c_str(), hz::hexc( e.m ).c_str() );
        std::vector<bytes> content; for( auto const& x: c ) content.push_back( sp::mod<sp::be32>( x ) ); std::sort( content.begin(), content.end() );
        auto r = canon.insert( std::make_pair( content, std::make_pair( m, path ) ) );
        if( r.first->second.first != m ) hz::viol( "history", "%s: operations %s and %s give equal contents but different messages", kind, r.first->second.second.c_str(), path.c_str() );
        auto b = back.insert( std::make_pair( m, content ) ); if( b.first->second != content ) hz::viol( "content", "%s: different contents (after %s) give the same message", kind, path.c_str() );
        sp::rec k = pre<sp::rec>( 1 ); hh::hash_append_unordered_range( k, hh::big_endian_flavor(), c.begin(), c.end() ); if( k.m != m ) hz::viol( "range", "%s after %s: container and its range differ", kind, path.c_str() );
        if( d ) for( int op = 0; op < O::count(); ++op ) { C c2( c ); if( !O::apply( c2, op ) ) continue; path += char( 'a' + op ); go( c2, d - 1 ); path.pop_back(); }
    }
};
template<class C> void sets( char const* k ) { hist<C, ops_set<C> > h; h.kind = k; h.go( C(), hz::g_thorough? 6: 4 ); }
template<class C> void maps( char const* k ) { hist<C, ops_map<C> > h; h.kind = k; h.go( C(), hz::g_thorough? 6: 4 ); }
UNIT( h_us ) { sets<std::unordered_set<int> >( "unordered_set<int>" ); } UNIT( h_ums ) { sets<std::unordered_multiset<int> >( "unordered_multiset<int>" ); } UNIT( h_us_bad ) { sets<std::unordered_set<int, bad> >( "unordered_set, one bucket chain" ); } UNIT( h_ums_neg ) { sets<std::unordered_multiset<short, neg> >( "unordered_multiset<short>, other hash" ); }
UNIT( h_um ) { maps<std::unordered_map<int, std::string> >( "unordered_map<int,string>" ); } UNIT( h_umm ) { maps<std::unordered_multimap<int, std::string> >( "unordered_multimap<int,string>" ); } UNIT( h_umm_bad ) { maps<std::unordered_multimap<short, std::string, bad> >( "unordered_multimap, one bucket chain" ); }
namespace sp {
template<class T, class Hs, class E, class A> struct S<boost::unordered_set<T, Hs, E, A>, void>: Sunord<boost::unordered_set<T, Hs, E, A> > {};
template<class T, class Hs, class E, class A> struct S<boost::unordered_multiset<T, Hs, E, A>, void>: Sunord<boost::unordered_multiset<T, Hs, E, A> > {};
template<class K, class T, class Hs, class E, class A> struct S<boost::unordered_map<K, T, Hs, E, A>, void>: Sunord<boost::unordered_map<K, T, Hs, E, A> > {};
}
UNIT( h_bus ) { sets<boost::unordered_set<int> >( "boost::unordered_set<int>" ); } UNIT( h_bums ) { sets<boost::unordered_multiset<int> >( "boost::unordered_multiset<int>" ); } UNIT( h_bum ) { maps<boost::unordered_map<int, std::string> >( "boost::unordered_map" ); }

// same content across container kinds
UNIT( kinds )
{
    std::vector<int> al = { 1, 14, -3, 300 };
    for( int x = 0; x < 16; ++x )
    {
        std::vector<int> m; for( int i = 0; i < 4; ++i ) if( x >> i & 1 ) m.push_back( al[i] );
        std::unordered_set<int> a( m.begin(), m.end() ); std::unordered_multiset<int> b( m.rbegin(), m.rend() ); boost::unordered_set<int> c( m.begin(), m.end() ); std::unordered_set<int, bad> d( m.rbegin(), m.rend() );
        bytes e = sp::lib<sp::be32>( a ); hz::states(); hz::trans( 4 ); hz::traces();
        if( sp::lib<sp::be32>( b ) != e || sp::lib<sp::be32>( c ) != e || sp::lib<sp::be32>( d ) != e ) hz::viol( "kinds", "containers holding the same elements (mask %d) send different messages", x );
    }
}
// multiplicities: n copies of an element, n to the bound; all different, all as specified
UNIT( copies )
{
    std::map<bytes, std::size_t> seen; std::size_t ns[] = { 255, 256, 257, 4096, 65535, 65536, 65537, 70000 };
    auto one = [&]( std::size_t n ) { std::vector<int> m( n, 7 ); sp::rec h, e; hh::hash_append_unordered_range( h, hh::big_endian_flavor(), m.begin(), m.end() ); sp::unordered<int, hh::big_endian_flavor>( e, m.begin(), m.end() ); hz::states(); hz::trans(); hz::traces();
        if( h.m != e.m ) hz::viol( "copies", "%zu copies: %s, specification %s", n, hz::hexc( h.m ).c_str(), hz::hexc( e.m ).c_str() ); if( !seen.insert( std::make_pair( h.m, n ) ).second ) hz::viol( "copies", "%zu copies collide with another count", n ); };
    for( std::size_t n = 0; n < 200; ++n ) one( n ); for( std::size_t n: ns ) one( n );
    for( std::size_t a = 0; a <= 64; ++a ) { std::vector<int> m( a, 7 ); m.resize( 64, 9 ); sp::rec h; hh::hash_append_unordered_range( h, hh::big_endian_flavor(), m.begin(), m.end() ); hz::trans(); if( a < 64 && !seen.insert( std::make_pair( h.m, 1000000 + a ) ).second ) hz::viol( "copies", "%zu + %zu copies collide", a, 64 - a ); }
}
// nested unordered containers, every insertion order of the inner ones
UNIT( nested )
{
    typedef std::unordered_map<int, std::unordered_set<int> > M; std::vector<int> al = { 1, 14, -3, 27 }; std::sort( al.begin(), al.end() ); bytes first;
    do
    {
        M m, n; for( int x: al ) { for( int y: al ) m[ x & 3 ].insert( y + x ); } for( auto i = al.rbegin(); i != al.rend(); ++i ) for( int y: al ) { n[ *i & 3 ].reserve( 100 ); n[ *i & 3 ].insert( y + *i ); }
        bytes a = sp::lib<sp::be32>( m ), b = sp::lib<sp::be32>( n ); hz::states(); hz::trans( 2 ); hz::traces(); if( first.empty() ) first = sp::mod<sp::be32>( m ); if( a != first || b != first ) hz::viol( "nested", "nested unordered containers depend on the order of insertion" );
    }
    while( std::next_permutation( al.begin(), al.end() ) );
    hz::sample( "unordered_map<int,unordered_set<int>>: %s", hz::hexc( first ).c_str() );
}
UNIT( vbool ) // proxy references of the standard library
{
    for( int x = 0; x < 256; ++x ) { std::vector<bool> v; for( int i = 0; i < 8; ++i ) v.push_back( x >> i & 1 ); sp::rec h, g, e; hh::hash_append_unordered_range( h, sp::be32(), v.begin(), v.end() ); hh::hash_append_unordered_range( g, sp::be32(), v.rbegin(), v.rend() ); sp::unordered<bool, sp::be32>( e, v.begin(), v.end() );
        hz::states(); hz::trans( 2 ); hz::traces(); if( h.m != e.m || g.m != e.m ) hz::viol( "vbool", "vector<bool> %02x: %s, %s, specification %s", x, hz::hexc( h.m ).c_str(), hz::hexc( g.m ).c_str(), hz::hexc( e.m ).c_str() ); }
}
