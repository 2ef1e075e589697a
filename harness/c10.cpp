// C10: no appended value ever produces an empty message; contentless values send one zero byte. -DVSEL=VTYPES_A..D
#define HARNESS_MAIN
#include "common.hpp"
#include "values.hpp"
#include <boost/hash2/fnv1a.hpp>
#ifndef VSEL
# define VSEL VTYPES_A
#endif
typedef std::vector<unsigned char> bytes;

template<class F, class T> void some( char const* tn, char const* fn, T const& v, std::size_t i )
{
    sp::rec h; hz::trans(); hz::traces(); hh::hash_append( h, F(), v );
    if( h.live == 0 || h.m.empty() ) hz::viol( "empty", "%s value #%zu flavor %s: %llu calls of update, %zu bytes", tn, i, fn, h.calls, h.m.size() );
    sp::rec2 g; hh::hash_append( g, F(), v ); if( g.live == 0 || g.m.empty() ) hz::viol( "empty", "%s value #%zu flavor %s (typed update): %llu calls of update, %zu bytes", tn, i, fn, g.calls, g.m.size() );
}
template<class T> void all_f( char const* tn, T const& v, std::size_t i )
{
    hz::states(); some<hh::default_flavor>( tn, "default", v, i ); some<hh::little_endian_flavor>( tn, "little", v, i ); some<hh::big_endian_flavor>( tn, "big", v, i ); some<sp::be32>( tn, "be32", v, i ); some<sp::ne32>( tn, "ne32", v, i );
}
template<class T> void type( char const* tn )
{
    std::vector<T> all = va::uni<T>::get( hz::g_thorough? 20000: 1500 );
    for( std::size_t i = 0; i < all.size(); ++i ) { hz::cur( "%s #%zu", tn, i ); all_f( tn, all[i], i ); }
    T d = all[0]; hz::sample( "%s: smallest value sends %s", tn, hz::hexc( sp::lib<sp::be32>( d ) ).c_str() );
}
#define XV(N,...) UNIT( N ) { type<__VA_ARGS__>( #N ); }
VSEL( XV )

#ifdef CONTENTLESS
// types without any content
template<class F, class T> void zero_f( char const* tn, char const* fn, T const& v, std::size_t n )
{
    hz::states(); hz::trans(); hz::traces(); sp::rec h; hh::hash_append( h, F(), v );
    if( h.m != bytes( n, 0 ) || h.live == 0 ) hz::viol( "contentless", "%s flavor %s: sent \"%s\" in %llu calls, expected %zu zero byte(s)", tn, fn, hz::hexc( h.m ).c_str(), h.calls, n );
}
template<class T> void zero( char const* tn, T const& v, std::size_t n = 1 )
{
    hz::cur( "%s", tn );
    zero_f<hh::default_flavor>( tn, "default", v, n ); zero_f<hh::little_endian_flavor>( tn, "little", v, n ); zero_f<hh::big_endian_flavor>( tn, "big", v, n ); zero_f<sp::be32>( tn, "be32", v, n ); zero_f<sp::ne32>( tn, "ne32", v, n );
    // a sequence of k of them sends k times as many bytes
    static std::size_t const ks[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 65535, 65536, 65537 };
    for( std::size_t k: ks )
    {
        std::vector<T> s; for( std::size_t i = 0; i < k; ++i ) s.push_back( v ); std::list<T> l( s.begin(), s.end() );
        sp::rec h; hh::hash_append_range( h, hh::big_endian_flavor(), s.begin(), s.end() ); hz::trans( 4 ); hz::states();
        if( h.m != bytes( k * n, 0 ) ) hz::viol( "contentless-seq", "range of %zu %s: sent \"%s\"", k, tn, hz::hexc( h.m ).c_str() );
        sp::rec g; hh::hash_append_range( g, hh::big_endian_flavor(), s.data(), s.data() + k ); if( g.m != bytes( k * n, 0 ) ) hz::viol( "contentless-seq", "pointer range of %zu %s: sent \"%s\"", k, tn, hz::hexc( g.m ).c_str() );
        bytes e( k * n, 0 ); { sp::rec z; sp::size<hh::big_endian_flavor>( z, k ); e.insert( e.end(), z.m.begin(), z.m.end() ); }
        if( sp::lib<hh::big_endian_flavor>( s ) != e ) hz::viol( "contentless-seq", "vector of %zu %s: sent \"%s\"", k, tn, hz::hexc( sp::lib<hh::big_endian_flavor>( s ) ).c_str() );
        if( sp::lib<hh::big_endian_flavor>( l ) != e ) hz::viol( "contentless-seq", "list of %zu %s", k, tn );
    }
    std::array<T, 3> a = {{ v, v, v }}; T c[ 2 ] = { v, v }; std::pair<T, T> p( v, v ); std::tuple<T, T, T> t( v, v, v );
    zero_f<hh::big_endian_flavor>( tn, "array of three", a, 3*n ); zero_f<hh::default_flavor>( tn, "C array of two", c, 2*n ); zero_f<hh::little_endian_flavor>( tn, "pair", p, 2*n ); zero_f<hh::default_flavor>( tn, "tuple", t, 3*n );
    std::array<T, 40> A40 = {}; std::array<T, 300> A300 = {}; struct big { T x[ 70 ]; }; static big B = {}; boost::array<T, 17> B17 = {}; zero_f<hh::default_flavor>( tn, "array of 40", A40, 40*n ); zero_f<hh::big_endian_flavor>( tn, "array of 300", A300, 300*n ); zero_f<hh::little_endian_flavor>( tn, "C array of 70", B.x, 70*n ); zero_f<sp::be32>( tn, "boost::array of 17", B17, 17*n );
    std::pair<std::array<T, 20>, std::vector<T> > pv{ std::array<T, 20>(), std::vector<T>() }; sp::rec hp; hh::hash_append( hp, sp::be32(), pv ); if( hp.m != bytes( 20*n + 4, 0 ) ) hz::viol( "contentless", "pair of an array of 20 %s and an empty vector: %zu bytes", tn, hp.m.size() );
}
struct r0 { typedef it::fwd<int> iterator; typedef it::fwd<int> const_iterator; typedef int value_type; iterator begin() const { return iterator(); } iterator end() const { return iterator(); } }; // constant size 0, not contiguous
struct c0 { typedef int const* iterator; typedef int const* const_iterator; typedef int value_type; iterator begin() const { return 0; } iterator end() const { return 0; } int const* data() const { return 0; } std::size_t size() const { return 0; } int const& front() const { static int x; return x; } };
namespace boost { namespace hash2 { template<> struct has_constant_size<r0>: std::true_type {}; template<> struct has_constant_size<c0>: std::true_type {}; } }
struct t0 {}; namespace std { template<> struct tuple_size<t0>: integral_constant<size_t, 0> {}; } template<std::size_t I> int get( t0 const& ) { return 0; }
struct e0 {}; BOOST_DESCRIBE_STRUCT( e0, (), () )
struct e1: e0 {}; BOOST_DESCRIBE_STRUCT( e1, (e0), () )
struct e2: va::d0, e0 {}; BOOST_DESCRIBE_STRUCT( e2, (va::d0, e0), () )
class e3 { BOOST_DESCRIBE_CLASS( e3, (), (), (), () ) int hidden = 7; public: e3() {} }; // nothing described
struct e4 { e0 a; std::tuple<> b; std::array<int, 0> c; }; BOOST_DESCRIBE_STRUCT( e4, (), (a, b, c) )
struct e5: e4, e1 { e3 z; }; BOOST_DESCRIBE_STRUCT( e5, (e4, e1), (z) )
class e6 { struct in {}; static int s; void f() {} BOOST_DESCRIBE_CLASS( e6, (), (), (), () ) public: e6() {} };
UNIT( z_array ) { zero( "std::array<int,0>", std::array<int, 0>() ); zero( "std::array<string,0>", std::array<std::string, 0>() ); zero( "std::array<uchar,0>", std::array<unsigned char, 0>() ); zero( "boost::array<int,0>", boost::array<int, 0>() ); zero( "boost::array<uchar,0>", boost::array<unsigned char, 0>() ); zero( "array<array<int,0>,0>", std::array<std::array<int, 0>, 0>() ); }
UNIT( z_range ) { zero( "user range of constant size 0", r0() ); zero( "user contiguous range of constant size 0", c0() ); }
UNIT( z_tuple ) { zero( "std::tuple<>", std::tuple<>() ); zero( "user tuple of size 0", t0() ); zero( "tuple<tuple<>>", std::tuple<std::tuple<> >() ); zero( "pair<tuple<>,array<int,0>>", std::pair<std::tuple<>, std::array<int, 0> >(), 2 ); }
UNIT( z_described ) { zero( "described empty", e0() ); zero( "described, empty base", e1() ); zero( "described, two empty bases", e2(), 2 ); zero( "described, nothing listed", e3() ); zero( "described, three empty members", e4(), 3 ); zero( "described, nested", e5(), 5 ); zero( "described, no data", e6() ); zero( "d0", va::d0() ); }
// empty containers of every kind send their count and nothing else
template<class C> void emp( char const* tn )
{
    C c{}; all_f( tn, c, 0 ); sp::rec h; hh::hash_append( h, sp::be32(), c ); hz::trans();
    if( h.m != bytes( 4, 0 ) ) hz::viol( "empty-container", "empty %s: sent \"%s\" instead of a zero count", tn, hz::hexc( h.m ).c_str() );
}
UNIT( z_containers )
{
    emp<std::vector<int> >( "vector<int>" ); emp<std::vector<bool> >( "vector<bool>" ); emp<std::vector<unsigned char> >( "vector<uchar>" ); emp<std::vector<std::tuple<> > >( "vector<tuple<>>" ); emp<std::string>( "string" ); emp<std::u16string>( "u16string" ); emp<std::deque<int> >( "deque" ); emp<std::list<int> >( "list" ); emp<std::forward_list<int> >( "forward_list" );
    emp<std::set<int> >( "set" ); emp<std::map<int, int> >( "map" ); emp<std::multimap<int, std::string> >( "multimap" ); emp<it::frange<int> >( "user range" ); emp<it::crange<int> >( "user contiguous range" ); emp<it::crange<unsigned char> >( "user contiguous byte range" ); emp<std::initializer_list<int> >( "initializer_list" );
#if __cplusplus >= 201703L
    emp<std::string_view>( "string_view" );
#endif
    all_f( "unordered_set", std::unordered_set<int>(), 0 ); all_f( "unordered_map", std::unordered_map<int, int>(), 0 ); all_f( "unordered_multiset", std::unordered_multiset<std::string>(), 0 );
}
// the sequences of the documentation: [[1],[],[]] and friends, over every contentless element
UNIT( z_nested )
{
    typedef std::vector<std::vector<std::tuple<> > > VV; std::vector<VV> all = va::uni<VV>::get( 3000 );
    for( std::size_t i = 0; i < all.size(); ++i ) { std::size_t n = 0; for( auto const& x: all[i] ) n += x.size(); sp::rec h; hh::hash_append( h, hh::little_endian_flavor(), all[i] ); hz::states(); hz::trans(); hz::traces();
        if( h.m.size() != n + 8 * ( all[i].size() + 1 ) ) hz::viol( "nested-length", "vector<vector<tuple<>>> #%zu: %zu bytes for %zu contentless values in %zu containers", i, h.m.size(), n, all[i].size() + 1 ); }
}
#endif
