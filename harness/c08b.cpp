// C08, part two: associative containers, nested arrays, other container libraries, very large counts.
#define HARNESS_MAIN
#include "common.hpp"
#include "spec.hpp"
#include "iters.hpp"
#include <functional>
#include <boost/container/vector.hpp>
#include <boost/container/static_vector.hpp>
#include <boost/container/small_vector.hpp>
#include <boost/container/stable_vector.hpp>
#include <boost/container/deque.hpp>
#include <boost/container/list.hpp>
#include <boost/container/slist.hpp>
#include <boost/container/flat_set.hpp>
#include <boost/container/flat_map.hpp>
#include <boost/container/string.hpp>
#include <boost/container/set.hpp>
#include <boost/circular_buffer.hpp>

typedef std::vector<unsigned char> bytes;
static std::string g_what;
static void cmp( bytes const& got, bytes const& e, char const* kind )
{
    hz::trans(); if( got != e ) hz::viol( kind, "%s, case %s: sent %s, expected %s", kind, g_what.c_str(), hz::hexc( got ).c_str(), hz::hexc( e ).c_str() );
}
template<class V> struct exp_
{
    template<class F> static bytes sized( std::vector<V> const& m ) { sp::rec h; for( V const& v: m ) sp::app<F>( h, v ); sp::size<F>( h, m.size() ); return h.m; }
    template<class F> static bytes plain( std::vector<V> const& m ) { sp::rec h; for( V const& v: m ) sp::app<F>( h, v ); return h.m; }
};
// container c holds the elements m in order
template<class F, class V, class C> void same1( C const& c, std::vector<V> const& m, char const* kind )
{
    bytes e = exp_<V>::template sized<F>( m ); cmp( sp::lib<F>( c ), e, kind );
    sp::rec2 h; hh::hash_append_sized_range( h, F(), c.begin(), c.end() ); cmp( h.m, e, kind );
    sp::rec g; hh::hash_append_range( g, F(), c.begin(), c.end() ); cmp( g.m, exp_<V>::template plain<F>( m ), kind );
    C c2( c ); sp::rec k; hh::hash_append( k, F(), c2 ); cmp( k.m, e, kind );
}
template<class V, class C> void same( C const& c, std::vector<V> const& m, char const* kind )
{
    hz::states(); hz::traces();
    same1<hh::default_flavor>( c, m, kind ); same1<hh::little_endian_flavor>( c, m, kind ); same1<hh::big_endian_flavor>( c, m, kind ); same1<sp::be32>( c, m, kind ); same1<sp::le32>( c, m, kind );
}

// ---- associative containers: all operation sequences -----------------------------------
template<class C, class V, class Less> struct assoc
{
    char const* kind; std::vector<V> al; bool multi; std::string path; Less less;
    void go( C const& c, std::vector<V> const& m, int d )
    {
        g_what = path; hz::cur( "%s %s", kind, path.c_str() ); same( c, m, kind ); if( !d ) return;
        for( std::size_t i = 0; i < al.size(); ++i )
        {
            { C c2( c ); std::vector<V> m2( m ); c2.insert( al[i] );
              auto p = m2.begin(); while( p != m2.end() && !less( al[i], *p ) ) ++p; // upper bound
              bool dup = p != m2.begin() && !less( *std::prev( p ), al[i] );
              if( multi || !dup ) m2.insert( p, al[i] );
              path += char( '0' + i ); go( c2, m2, d - 1 ); path.pop_back(); }
            if( !m.empty() && i == 0 ) { C c2( c ); std::vector<V> m2( m ); c2.erase( c2.begin() ); m2.erase( m2.begin() ); path += '-'; go( c2, m2, d - 1 ); path.pop_back(); }
            if( !m.empty() && i == 1 ) { C c2( c ); std::vector<V> m2( m ); c2.erase( std::prev( c2.end() ) ); m2.pop_back(); path += '_'; go( c2, m2, d - 1 ); path.pop_back(); }
        }
    }
};
struct vless { template<class V> bool operator()( V const& a, V const& b ) const { return a < b; } };
struct vgreater { template<class V> bool operator()( V const& a, V const& b ) const { return b < a; } };
struct kless { template<class V> bool operator()( V const& a, V const& b ) const { return a.first < b.first; } };
struct kgreater { template<class V> bool operator()( V const& a, V const& b ) const { return b.first < a.first; } };
template<class C, class V, class L> void as( char const* k, std::vector<V> al, bool multi ) { assoc<C, V, L> a; a.kind = k; a.al = al; a.multi = multi; a.go( C(), std::vector<V>(), hz::g_thorough? 6: 4 ); }
typedef std::pair<int, unsigned char> IU; typedef std::pair<std::string, std::string> SS; typedef std::pair<unsigned char, std::vector<int> > UV;
static std::vector<int> ints() { return { 3, -1, 0x01020304, 7 }; } static std::vector<std::string> strs() { return { "", "b", "ab", std::string( "a\0", 2 ) }; } static std::vector<IU> ius() { return { IU( 3, 1 ), IU( -1, 2 ), IU( 3, 9 ), IU( 70000, 0 ) }; } static std::vector<SS> sss() { return { SS( "", "x" ), SS( "x", "" ), SS( "a", "b" ) }; }
UNIT( set_int ) { as<std::set<int>, int, vless>( "set", ints(), false ); } UNIT( set_greater ) { as<std::set<int, std::greater<int> >, int, vgreater>( "set, greater", ints(), false ); }
UNIT( multiset_int ) { as<std::multiset<int>, int, vless>( "multiset", ints(), true ); } UNIT( set_string ) { as<std::set<std::string>, std::string, vless>( "set<string>", strs(), false ); }
UNIT( map_iu ) { as<std::map<int, unsigned char>, IU, kless>( "map", ius(), false ); } UNIT( multimap_iu ) { as<std::multimap<int, unsigned char>, IU, kless>( "multimap", ius(), true ); }
UNIT( map_ss ) { as<std::map<std::string, std::string>, SS, kless>( "map<string,string>", sss(), false ); } UNIT( multimap_g ) { as<std::multimap<int, unsigned char, std::greater<int> >, IU, kgreater>( "multimap, greater", ius(), true ); }
UNIT( map_uv ) { as<std::map<unsigned char, std::vector<int> >, UV, kless>( "map<uchar,vector<int>>", { UV( 0, {} ), UV( 1, { 1, 2 } ), UV( 255, { -1 } ) }, false ); }
UNIT( set_uchar ) { as<std::multiset<unsigned char>, unsigned char, vless>( "multiset<uchar>", { 0, 1, 255 }, true ); }

// ---- other container libraries -----------------------------------------------------------
namespace bc = boost::container;
template<class T> void libs( std::vector<T> const& m )
{
    bc::vector<T> a( m.begin(), m.end() ); same( a, m, "boost vector" ); bc::static_vector<T, 8> b( m.begin(), m.end() ); same( b, m, "boost static_vector" );
    bc::small_vector<T, 2> c( m.begin(), m.end() ); same( c, m, "boost small_vector" ); bc::stable_vector<T> d( m.begin(), m.end() ); same( d, m, "boost stable_vector" );
    bc::deque<T> e( m.begin(), m.end() ); same( e, m, "boost deque" ); bc::list<T> f( m.begin(), m.end() ); same( f, m, "boost list" ); bc::slist<T> g( m.begin(), m.end() ); same( g, m, "boost slist" );
    boost::circular_buffer<T> h( 4 ); for( int k = 0; k < 3; ++k ) h.push_back( T() ); for( int k = 0; k < 3; ++k ) h.pop_front(); for( T const& v: m ) h.push_back( v ); std::vector<T> l( m.size() > 4? m.end() - 4: m.begin(), m.end() ); same( h, l, "circular_buffer" );
    std::set<T> s( m.begin(), m.end() ); std::vector<T> sm( s.begin(), s.end() ); bc::flat_set<T> i( m.begin(), m.end() ); same( i, sm, "flat_set" ); bc::set<T> j( m.begin(), m.end() ); same( j, sm, "boost set" );
    std::initializer_list<T> il = { T(), T() }; cmp( sp::lib<hh::big_endian_flavor>( il ), exp_<T>::template sized<hh::big_endian_flavor>( { T(), T() } ), "initializer_list" );
}
template<class T> void libs_all( std::vector<T> al )
{
    std::size_t total = 1; for( int n = 0; n <= 5; ++n, total *= 3 ) for( std::size_t x = 0; x < total; ++x )
    { std::vector<T> m; std::size_t y = x; g_what.clear(); for( int i = 0; i < n; ++i, y /= 3 ) { m.push_back( al[ y % 3 ] ); g_what += char( '0' + y % 3 ); } libs( m ); }
}
UNIT( libs_uchar ) { libs_all<unsigned char>( { 0, 1, 255 } ); } UNIT( libs_short ) { libs_all<short>( { 0, -2, 300 } ); } UNIT( libs_string ) { libs_all<std::string>( { "", "a", "bc" } ); }
UNIT( flat_map ) { typedef std::pair<short, unsigned char> P; std::vector<P> al = { P( 1, 2 ), P( -1, 0 ), P( 300, 255 ) };
    for( int x = 0; x < 8; ++x ) { bc::flat_map<short, unsigned char> c; std::map<short, unsigned char> r; for( int i = 0; i < 3; ++i ) if( x >> i & 1 ) { c[ al[i].first ] = al[i].second; r[ al[i].first ] = al[i].second; } std::vector<P> m( r.begin(), r.end() ); g_what = std::to_string( x ); same( c, m, "flat_map" ); } }
UNIT( bstring ) { for( int n = 0; n < 60; ++n ) { std::vector<char> m; bc::string s; for( int i = 0; i < n; ++i ) { m.push_back( char( i * 37 ) ); s.push_back( char( i * 37 ) ); } g_what = std::to_string( n ); same( s, m, "boost string" ); } }

// ---- strings by history, across the small-buffer boundary ---------------------------------
struct shist
{
    std::string path; int depth;
    void go( std::string const& s, std::vector<char> const& m, int d )
    {
        g_what = path; same( s, m, "string history" ); if( !d ) return;
        for( int op = 0; op < 7; ++op )
        {
            std::string t( s ); std::vector<char> n( m );
            switch( op )
            {
            case 0: t += 'x'; n.push_back( 'x' ); break;
            case 1: t.insert( 0, 1, '\0' ); n.insert( n.begin(), '\0' ); break;
            case 2: if( n.empty() ) continue; t.pop_back(); n.pop_back(); break;
            case 3: t.append( 14, char( 0x80 ) ); n.insert( n.end(), 14, char( 0x80 ) ); break;
            case 4: if( n.size() < 8 ) continue; t.erase( 0, 8 ); n.erase( n.begin(), n.begin() + 8 ); break;
            case 5: t.reserve( t.size() + 40 ); break;
            default: t.shrink_to_fit(); break;
            }
            path += char( 'a' + op ); go( t, n, d - 1 ); path.pop_back();
        }
    }
};
UNIT( string_hist ) { shist h; h.go( std::string(), std::vector<char>(), hz::g_thorough? 6: 4 ); }

// ---- nested arrays --------------------------------------------------------------------------
template<class F> void nested1()
{
    for( int x = 0; x < 64; ++x )
    {
        g_what = std::to_string( x ); hz::states(); hz::traces();
        std::uint16_t a[2][3]; std::array<std::array<std::uint16_t, 3>, 2> b; std::array<std::uint16_t, 3> c[2]; boost::array<boost::array<std::uint16_t, 3>, 2> d; std::vector<std::uint16_t> flat;
        for( int i = 0; i < 2; ++i ) for( int j = 0; j < 3; ++j ) { std::uint16_t v = (std::uint16_t)( ( x >> ( i*3 + j ) & 1 )? 0xFF00 + i*3 + j: j ); a[i][j] = v; b[i][j] = v; c[i][j] = v; d[i][j] = v; flat.push_back( v ); }
        bytes e = exp_<std::uint16_t>::template plain<F>( flat );
        cmp( sp::lib<F>( a ), e, "two-dimensional array" ); cmp( sp::lib<F>( b ), e, "array of arrays" ); cmp( sp::lib<F>( c ), e, "C array of std::array" ); cmp( sp::lib<F>( d ), e, "boost::array of boost::array" );
        std::uint16_t t[2][1][3]; std::memcpy( t, a, sizeof a ); cmp( sp::lib<F>( t ), e, "three-dimensional array" );
        std::uint16_t const (&ca)[2][3] = a; cmp( sp::lib<F>( ca ), e, "const two-dimensional array" );
        std::array<std::uint16_t const, 3> k = {{ flat[0], flat[1], flat[2] }}; cmp( sp::lib<F>( k ), exp_<std::uint16_t>::template plain<F>( { flat[0], flat[1], flat[2] } ), "std::array<T const>" );
        sp::rec h; hh::hash_append_range( h, F(), a + 0, a + 2 ); cmp( h.m, e, "range of arrays" );
        sp::rec g; hh::hash_append_sized_range( g, F(), a + 0, a + 2 ); bytes e2( e ); { sp::rec z; sp::size<F>( z, 2 ); e2.insert( e2.end(), z.m.begin(), z.m.end() ); } cmp( g.m, e2, "sized range of arrays" );
        float f[2][2] = { { -0.0f, (float)x }, { 0.0f, -0.0f } }; std::vector<float> ff = { 0.0f, (float)x, 0.0f, 0.0f }; cmp( sp::lib<F>( f ), exp_<float>::template plain<F>( ff ), "two-dimensional float array" );
        std::vector<std::vector<bool> > vb = { std::vector<bool>( x % 3 ), std::vector<bool>( x % 2, true ) }; cmp( sp::lib<F>( vb ), sp::mod<F>( vb ), "vector<vector<bool>>" );
        std::string s2[2] = { std::string( x % 4, 'a' ), std::string( x / 4 % 4, 'b' ) }; cmp( sp::lib<F>( s2 ), sp::mod<F>( s2 ), "string array" );
    }
}
UNIT( nested ) { nested1<hh::default_flavor>(); nested1<hh::little_endian_flavor>(); nested1<hh::big_endian_flavor>(); nested1<sp::be32>(); }

template<class C> void counted( char const* kind )
{
    std::size_t const ns[] = { 254, 255, 256, 257, 65534, 65535, 65536, 65537, 70000 };
    for( std::size_t n: ns )
    {
        C c; for( std::size_t i = 0; i < n; ++i ) c.insert( c.end(), typename C::value_type( i & 255 ) ); std::vector<typename C::value_type> m( c.begin(), c.end() );
        g_what = std::to_string( n ); same( c, m, kind );
    }
}
UNIT( count_vector ) { counted<std::vector<int> >( "long vector" ); } UNIT( count_list ) { counted<std::list<unsigned char> >( "long list" ); } UNIT( count_deque ) { counted<std::deque<std::uint16_t> >( "long deque" ); } UNIT( count_string ) { counted<std::string>( "long string" ); }
UNIT( count_vbool ) { counted<std::vector<bool> >( "long vector<bool>" ); } UNIT( count_multiset ) { counted<std::multiset<unsigned char> >( "long multiset" ); } UNIT( count_wide ) { counted<std::u32string>( "long u32string" ); }
UNIT( null_data )
{
    it::crange<unsigned char> a = { nullptr, 0 }; it::crange<int> b = { nullptr, 0 }; g_what = "null"; hz::states(); hz::traces();
    bytes e = exp_<int>::sized<hh::big_endian_flavor>( {} ); cmp( sp::lib<hh::big_endian_flavor>( a ), e, "null contiguous range" ); cmp( sp::lib<hh::big_endian_flavor>( b ), e, "null contiguous range" );
    std::vector<int> v; cmp( sp::lib<hh::big_endian_flavor>( v ), e, "empty vector" );
}
