// C08, part four (C++20): spans, views, subranges, UTF-8 strings. Same elements, same message.
#define HARNESS_MAIN
#include "common.hpp"
#include "spec.hpp"
#include "iters.hpp"
#include <span>
#include <ranges>
#include <string>
#include <map>
typedef std::vector<unsigned char> bytes;
template<class T> struct al; template<class T> T val( int i ) { return al<T>::get( i ); }
#define AL(T,...) template<> struct al<T> { static T get( int i ) { static T const a[] = { __VA_ARGS__ }; return a[i]; } };
typedef std::pair<unsigned char, short> PS; typedef std::vector<unsigned char> VU;
AL( unsigned char, 0, 1, 0xFE ) AL( int, 0, -1, 0x01020304 ) AL( double, -0.0, 2.5, -1.0 ) AL( std::string, "", "a", "bc" ) AL( PS, PS( 0, 0 ), PS( 1, 0x0203 ), PS( 255, -1 ) ) AL( VU, VU(), VU( 1 ), VU( 2, 7 ) ) AL( char, 0, 'x', '\xFF' )
template<class F, class R> void is( R const& r, bytes const& e, char const* kind, std::size_t n, char const* fn )
{
    hz::trans(); bytes g = sp::lib<F>( r );
    if( g != e ) hz::viol( kind, "%s of %zu elements, flavor %s: sent %s, elements and count are %s", kind, n, fn, hz::hexc( g ).c_str(), hz::hexc( e ).c_str() );
}
template<class F, std::size_t N, class T> void fixed( T const* p, bytes const& e, char const* fn ) { std::span<T const, N> s( p, N ); is<F>( s, e, "span of static extent", N, fn ); }
template<class F, class T> void one( std::vector<T>& v, char const* fn )
{
    std::size_t n = v.size(); bytes e, z; { sp::rec h; for( auto const& x: v ) sp::app<F>( h, x ); z = h.m; sp::size<F>( h, n ); e = h.m; }
    hz::states(); hz::traces(); hz::cur( "n=%zu %s", n, fn ); namespace rg = std::ranges; namespace vw = std::views; std::list<T> l( v.begin(), v.end() ); std::forward_list<T> f( v.begin(), v.end() );
    is<F>( std::span<T const>( v ), e, "span of const", n, fn ); is<F>( std::span<T>( v ), e, "span", n, fn ); std::vector<T> w( n + 4, val<T>( 1 ) ); std::copy( v.begin(), v.end(), w.begin() + 2 ); is<F>( std::span<T>( w ).subspan( 2, n ), e, "subspan", n, fn );
    switch( n ) { case 0: fixed<F, 0>( v.data(), e, fn ); break; case 1: fixed<F, 1>( v.data(), e, fn ); break; case 2: fixed<F, 2>( v.data(), e, fn ); break; case 3: fixed<F, 3>( v.data(), e, fn ); break; case 5: fixed<F, 5>( v.data(), e, fn ); break; }
    is<F>( rg::subrange( v.begin(), v.end() ), e, "subrange of a vector", n, fn ); is<F>( rg::subrange( v.data(), v.data() + n ), e, "subrange of pointers", n, fn ); is<F>( rg::subrange( l.begin(), l.end() ), e, "subrange of a list", n, fn ); is<F>( rg::subrange( f.begin(), f.end() ), e, "subrange of a forward_list", n, fn ); is<F>( rg::subrange( l.begin(), l.end(), n ), e, "sized subrange of a list", n, fn ); auto const cs = rg::subrange( v.cbegin(), v.cend() ); is<F>( cs, e, "const subrange", n, fn );
    is<F>( vw::all( v ), e, "ref_view", n, fn ); is<F>( v | vw::reverse | vw::reverse, e, "reverse_view twice", n, fn ); is<F>( w | vw::drop( 2 ) | vw::take( (long)n ), e, "drop and take", n, fn ); is<F>( v | vw::transform( []( T const& x ) { return x; } ), e, "transform_view by value", n, fn ); is<F>( v | vw::transform( []( T const& x ) -> T const& { return x; } ), e, "transform_view by reference", n, fn );
    { std::vector<std::pair<int, T> > p; for( std::size_t i = 0; i < n; ++i ) p.push_back( std::make_pair( (int)i, v[i] ) ); is<F>( p | vw::values, e, "values_view", n, fn ); std::map<int, T> m( p.begin(), p.end() ); is<F>( m | vw::values, e, "values_view of a map", n, fn ); }
    if( n == 1 ) is<F>( vw::single( v[0] ), e, "single_view", n, fn ); if( n == 0 ) is<F>( vw::empty<T>, e, "empty_view", n, fn );
    { std::vector<T> r( v.rbegin(), v.rend() ); is<F>( r | vw::reverse, e, "reverse_view", n, fn ); std::list<T> q( r.begin(), r.end() ); is<F>( q | vw::reverse, e, "reverse_view of a list", n, fn ); }
    { auto c = l | vw::common; is<F>( c, e, "common_view", n, fn ); auto t = l | vw::take( (long)n ); if constexpr( rg::common_range<decltype( t ) const> ) is<F>( t, e, "take_view of a list", n, fn ); }
    // by iterators, pieces of views; and inside other values
    { sp::rec h; auto t = v | vw::transform( []( T const& x ) { return x; } ); hh::hash_append_range( h, F(), t.begin(), t.end() ); hz::trans(); if( h.m != z ) hz::viol( "transform iterators", "transform iterators over %zu elements, flavor %s", n, fn ); sp::rec g; hh::hash_append_sized_range( g, F(), t.begin(), t.end() ); if( g.m != e ) hz::viol( "transform iterators", "transform iterators over %zu elements, sized, flavor %s", n, fn ); }
    { auto s = rg::subrange( l.begin(), l.end() ); bytes ee( e ); ee.insert( ee.end(), e.begin(), e.end() ); is<F>( std::make_pair( s, s ), ee, "pair of subranges", n, fn ); is<F>( std::make_tuple( std::span<T>( v ), s ), ee, "tuple of span and subrange", n, fn ); std::array<decltype( s ), 2> a = {{ s, s }}; is<F>( a, ee, "array of subranges", n, fn ); std::vector<std::span<T> > ss( 2, std::span<T>( v ) ); { sp::rec h; h.m = ee; sp::size<F>( h, 2 ); is<F>( ss, h.m, "vector of spans", n, fn ); std::vector<decltype( s )> sv( 2, s ); is<F>( sv, h.m, "vector of subranges", n, fn ); } }
}
template<class T> void all( int depth )
{
    for( int n = 0; n <= depth; ++n ) { int t = 1; for( int i = 0; i < n; ++i ) t *= 3; for( int x = 0; x < t; ++x ) { std::vector<T> v; for( int i = 0, y = x; i < n; ++i, y /= 3 ) v.push_back( val<T>( y % 3 ) ); one<hh::default_flavor>( v, "default" ); one<hh::big_endian_flavor>( v, "big" ); one<sp::be32>( v, "be32" ); one<sp::le32>( v, "le32" ); } }
    for( std::size_t n: { 16u, 17u, 40u, 255u, 256u, 257u, 1000u } ) { std::vector<T> v; for( std::size_t i = 0; i < n; ++i ) v.push_back( val<T>( ( i*i + i/3 ) % 3 ) ); one<hh::default_flavor>( v, "default" ); one<sp::be32>( v, "be32" ); }
}
#define A(N,T) UNIT( N ) { all<T>( hz::g_thorough? 6: 4 ); }
A( u8, unsigned char ) A( i32, int ) A( dbl, double ) A( str, std::string ) A( ps, PS ) A( vu, VU ) A( ch, char )
UNIT( iota ) { for( int a = -3; a < 4; ++a ) for( int n = 0; n < 300; n += n < 20? 1: 37 ) { std::vector<int> v; for( int i = 0; i < n; ++i ) v.push_back( a + i ); sp::rec h; for( int x: v ) sp::app<sp::be32>( h, x ); sp::size<sp::be32>( h, n ); hz::states(); hz::traces(); is<sp::be32>( std::views::iota( a, a + n ), h.m, "iota_view", n, "be32" ); } }
UNIT( utf8 )
{
    for( std::size_t n = 0; n < 300; n += n < 70? 1: 29 )
    {
        std::u8string s; std::string t; for( std::size_t i = 0; i < n; ++i ) { s += (char8_t)( i * 37 ); t += (char)( i * 37 ); } bytes e; { sp::rec h; sp::app<sp::be32>( h, t ); e = h.m; } hz::states(); hz::traces();
        is<sp::be32>( s, e, "u8string", n, "be32" ); is<sp::be32>( std::u8string_view( s ), e, "u8string_view", n, "be32" ); is<sp::be32>( std::vector<char8_t>( s.begin(), s.end() ), e, "vector of char8_t", n, "be32" ); is<sp::be32>( std::list<char8_t>( s.begin(), s.end() ), e, "list of char8_t", n, "be32" ); is<sp::be32>( std::vector<std::byte>( (std::byte const*)t.data(), (std::byte const*)t.data() + n ), e, "vector of byte", n, "be32" ); is<sp::be32>( std::as_bytes( std::span( t ) ), e, "as_bytes", n, "be32" );
    }
}
