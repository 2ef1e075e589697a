// Wide values: containers with many elements, long constant-size arrays, tuples and described
// classes with many components, deep nesting. wide<T>::get() lists base values and every value
// that differs from one of them in a single component or in the order of two neighbours.
#pragma once
#include "values.hpp"

namespace wd {

template<class T> struct at { static T get( std::size_t k ) { static std::vector<T> const u = va::uni<T>::get( 9 ); return u[ k % u.size() ]; } };
template<> struct at<std::string> { static std::string get( std::size_t k ) { static char const* const u[] = { "", "a", "b", "ab", "ba", "a longer one" }; return u[ k % 6 ]; } };
// distinct keys
template<class K> struct key { static K get( std::size_t i ) { return (K)( i * 40503u ); } };
template<> struct key<std::string> { static std::string get( std::size_t i ) { return "k" + std::to_string( i * 7 ); } };

inline std::vector<std::size_t> sizes( std::size_t max )
{
    std::vector<std::size_t> r; for( std::size_t n = 0; n <= 40 && n <= max; ++n ) r.push_back( n );
    for( std::size_t n: { 47u, 63u, 64u, 65u, 99u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 500u, 511u, 512u, 513u, 1000u, 1023u, 1024u, 1025u, 2048u, 4095u, 4096u, 4097u, 8192u, 12288u, 32768u, 65535u, 65536u, 65537u } ) if( n <= max ) r.push_back( n );
    return r;
}
inline std::vector<std::size_t> positions( std::size_t n )
{
    std::set<std::size_t> r; if( n <= 130 ) { for( std::size_t i = 0; i < n; ++i ) r.insert( i ); }
    else { for( std::size_t p = 1; p <= n; p *= 2 ) for( std::size_t i: { p - 1, p, p + 1 } ) if( i < n ) r.insert( i ); for( std::size_t i: { (std::size_t)0, n / 2, n - 2, n - 1, n / 3, n - n / 4 } ) r.insert( i ); }
    return std::vector<std::size_t>( r.begin(), r.end() );
}
template<class U, class Fn> void variants( std::size_t n, Fn fn ) // fn( vector<U> const& )
{
    std::vector<U> b; for( std::size_t i = 0; i < n; ++i ) b.push_back( at<U>::get( i * i + i / 3 + 1 ) );
    fn( b ); if( n == 0 ) return;
    for( std::size_t p: positions( n ) )
    {
        std::vector<U> c( b ); c[p] = at<U>::get( p * p + p / 3 + 2 ); fn( c );
        if( p + 1 < n && !( b[p] == b[p + 1] ) ) { c = b; U t = c[p]; c[p] = c[p + 1]; c[p + 1] = t; fn( c ); }
        if( p > 0 && !( b[p] == b[0] ) ) { c = b; U t = c[p]; c[p] = c[0]; c[0] = t; fn( c ); }
    }
}
template<class T, class = void> struct wide { static std::vector<T> get( std::size_t cap ) { return va::uni<T>::get( cap ); } };
template<class C> struct wseq
{
    typedef typename C::value_type U; // element count limited for elements with allocations
    static std::vector<C> get( std::size_t cap ) { std::vector<C> r; for( std::size_t n: sizes( cap ) ) variants<U>( n, [&]( std::vector<U> const& v ) { r.push_back( C( v.begin(), v.end() ) ); } ); return r; }
};
template<class T, class A> struct wide<std::vector<T, A>, typename std::enable_if<!std::is_same<T, std::vector<std::vector<std::vector<unsigned char> > > >::value>::type>: wseq<std::vector<T, A> > {};
template<class T> struct wide<std::deque<T>, void>: wseq<std::deque<T> > {}; template<class T> struct wide<std::list<T>, void>: wseq<std::list<T> > {}; template<class T> struct wide<std::forward_list<T>, void>: wseq<std::forward_list<T> > {};
template<class Ch> struct wide<std::basic_string<Ch>, void>: wseq<std::basic_string<Ch> > {};
template<class C> struct wset
{
    typedef typename C::value_type U;
    static std::vector<C> get( std::size_t cap ) { std::vector<C> r; for( std::size_t n: sizes( cap ) ) { C b; for( std::size_t i = 0; i < n; ++i ) b.insert( key<U>::get( i ) ); r.push_back( b ); if( n ) for( std::size_t p: positions( n ) ) { C c( b ); c.erase( c.find( key<U>::get( p ) ) ); c.insert( key<U>::get( n + p + 1 ) ); r.push_back( c ); } } return r; }
};
template<class T> struct wide<std::set<T>, void>: wset<std::set<T> > {}; template<class T> struct wide<std::multiset<T>, void>: wset<std::multiset<T> > {}; template<class T> struct wide<std::unordered_set<T>, void>: wset<std::unordered_set<T> > {}; template<class T> struct wide<std::unordered_multiset<T>, void>: wset<std::unordered_multiset<T> > {};
template<class C> struct wmap
{
    typedef typename C::key_type K; typedef typename C::mapped_type V;
    static std::vector<C> get( std::size_t cap ) { std::vector<C> r; for( std::size_t n: sizes( cap ) ) { C b; for( std::size_t i = 0; i < n; ++i ) b.insert( std::make_pair( key<K>::get( i ), at<V>::get( i * i + 1 ) ) ); r.push_back( b ); if( n ) for( std::size_t p: positions( n ) ) { C c( b ); c.find( key<K>::get( p ) )->second = at<V>::get( p * p + 2 ); r.push_back( c ); c.erase( c.find( key<K>::get( p ) ) ); c.insert( std::make_pair( key<K>::get( n + p ), at<V>::get( p * p + 1 ) ) ); r.push_back( c ); } } return r; }
};
template<class K, class V> struct wide<std::map<K, V>, void>: wmap<std::map<K, V> > {}; template<class K, class V> struct wide<std::multimap<K, V>, void>: wmap<std::multimap<K, V> > {}; template<class K, class V> struct wide<std::unordered_map<K, V>, void>: wmap<std::unordered_map<K, V> > {}; template<class K, class V> struct wide<std::unordered_multimap<K, V>, void>: wmap<std::unordered_multimap<K, V> > {};
template<class C> struct warr
{
    static std::vector<C> get( std::size_t ) { typedef typename C::value_type U; std::vector<C> r; variants<U>( std::tuple_size<C>::value, [&]( std::vector<U> const& v ) { C c; std::copy( v.begin(), v.end(), c.begin() ); r.push_back( c ); } ); return r; }
};
template<class T, std::size_t N> struct wide<std::array<T, N>, void>: warr<std::array<T, N> > {};
template<class T, std::size_t N> struct wide<boost::array<T, N>, void> { static std::vector<boost::array<T, N> > get( std::size_t ) { typedef boost::array<T, N> C; std::vector<C> r; variants<T>( N, [&]( std::vector<T> const& v ) { C c; std::copy( v.begin(), v.end(), c.begin() ); r.push_back( c ); } ); return r; } };
template<class T, std::size_t N, std::size_t M> struct at<std::array<std::array<T, N>, M> >;
template<class T, std::size_t N> struct at<std::array<T, N> > { static std::array<T, N> get( std::size_t k ) { std::array<T, N> a; for( std::size_t i = 0; i < N; ++i ) a[i] = at<T>::get( k + i * i ); return a; } };

// C arrays inside a described or hooked class
template<class T, std::size_t N> struct box
{
    T v[ N ]; friend bool operator==( box const& a, box const& b ) { return std::equal( a.v, a.v + N, b.v ); }
    template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, box const& x ) { hh::hash_append( h, f, x.v ); }
};
template<class T, std::size_t N> struct wide<box<T, N>, void> { static std::vector<box<T, N> > get( std::size_t ) { std::vector<box<T, N> > r; variants<T>( N, [&]( std::vector<T> const& v ) { box<T, N> c; std::copy( v.begin(), v.end(), c.v ); r.push_back( c ); } ); return r; } };

// a tuple with many components
typedef std::tuple<unsigned char, std::string, short, std::vector<unsigned char>, bool, std::uint64_t, std::string, unsigned char, float, va::en, std::pair<std::string, unsigned char>, std::array<std::uint16_t, 2>, std::string> T13;
template<std::size_t I, bool E = ( I == std::tuple_size<T13>::value )> struct tfill { static void all( T13& t, std::size_t d, std::size_t which ) { typedef typename std::tuple_element<I, T13>::type U; std::get<I>( t ) = at<U>::get( I + 1 + ( which == I? d: 0 ) ); tfill<I + 1>::all( t, d, which ); } };
template<std::size_t I> struct tfill<I, true> { static void all( T13&, std::size_t, std::size_t ) {} };
template<> struct wide<T13, void> { static std::vector<T13> get( std::size_t ) { std::vector<T13> r; T13 b; tfill<0>::all( b, 0, 0 ); r.push_back( b ); for( std::size_t i = 0; i < 13; ++i ) for( std::size_t d = 1; d < 4; ++d ) { T13 t; tfill<0>::all( t, d, i ); r.push_back( t ); } return r; } };
typedef std::pair<std::pair<std::pair<std::pair<std::pair<std::pair<std::string, std::string>, std::string>, std::string>, std::string>, std::string>, std::string> P7;

#if __cplusplus >= 201402L
struct B1 { unsigned char a; std::string b; }; BOOST_DESCRIBE_STRUCT( B1, (), (a, b) )
struct B2 { std::string c; }; BOOST_DESCRIBE_STRUCT( B2, (), (c) )
struct B3 { short d; }; BOOST_DESCRIBE_STRUCT( B3, (), (d) )
struct B4: B2 { std::vector<unsigned char> e; }; BOOST_DESCRIBE_STRUCT( B4, (B2), (e) )
struct B5 { bool f; std::uint64_t g; }; BOOST_DESCRIBE_STRUCT( B5, (), (f, g) )
struct D20: B1, B3, B4, B5
{
    std::string s0, s1, s2; unsigned char u0, u1, u2; std::vector<unsigned char> v0, v1; std::pair<std::string, std::string> p; std::array<std::uint16_t, 3> a; float x; va::en n; std::string z;
    std::tuple<unsigned char const&, std::string const&, short const&, std::string const&, std::vector<unsigned char> const&, bool const&, std::uint64_t const&, std::string const&, std::string const&, std::string const&, unsigned char const&, unsigned char const&, unsigned char const&, std::vector<unsigned char> const&, std::vector<unsigned char> const&, std::pair<std::string, std::string> const&, std::array<std::uint16_t, 3> const&, float const&, va::en const&, std::string const&> tie() const { return std::tie( B1::a, b, d, c, e, f, g, s0, s1, s2, u0, u1, u2, v0, v1, p, a, x, n, z ); }
    friend bool operator==( D20 const& l, D20 const& r ) { return l.tie() == r.tie(); }
};
BOOST_DESCRIBE_STRUCT( D20, (B1, B3, B4, B5), (s0, s1, s2, u0, u1, u2, v0, v1, p, a, x, n, z) )
template<class T> void put( T& t, std::size_t i, std::size_t which, std::size_t d ) { t = at<T>::get( i + 1 + ( i == which? d: 0 ) ); }
template<> struct wide<D20, void> { static std::vector<D20> get( std::size_t )
{
    std::vector<D20> r;
    for( std::size_t w = 0; w <= 20; ++w ) for( std::size_t k = w == 20? 0: 1; k < ( w == 20? 1u: 4u ); ++k )
    {
        D20 t; put( t.B1::a, 0, w, k ); put( t.b, 1, w, k ); put( t.d, 2, w, k ); put( t.c, 3, w, k ); put( t.e, 4, w, k ); put( t.f, 5, w, k ); put( t.g, 6, w, k ); put( t.s0, 7, w, k ); put( t.s1, 8, w, k ); put( t.s2, 9, w, k ); put( t.u0, 10, w, k ); put( t.u1, 11, w, k ); put( t.u2, 12, w, k ); put( t.v0, 13, w, k ); put( t.v1, 14, w, k ); put( t.p, 15, w, k ); put( t.a, 16, w, k ); put( t.x, 17, w, k ); put( t.n, 18, w, k ); put( t.z, 19, w, k ); r.push_back( t );
    }
    return r;
} };
#endif
// a chain of nested containers
template<unsigned D> struct nest { typedef std::vector<typename nest<D - 1>::type> type; static type get( unsigned k ) { type v; v.push_back( nest<D - 1>::get( k / 3 ) ); if( k % 3 == 1 ) v.push_back( typename nest<D - 1>::type() ); if( k % 3 == 2 ) v.insert( v.begin(), typename nest<D - 1>::type() ); return v; } };
template<> struct nest<0> { typedef std::string type; static type get( unsigned k ) { return k % 2? "x": ""; } };
struct N8 { nest<8>::type v; friend bool operator==( N8 const& a, N8 const& b ) { return a.v == b.v; } template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, N8 const& x ) { hh::hash_append( h, f, x.v ); } };
template<> struct wide<N8, void> { static std::vector<N8> get( std::size_t cap ) { std::vector<N8> r; for( unsigned k = 0; k < 6561 * 2 && r.size() < cap; ++k ) { N8 n; n.v = nest<8>::get( k % 2? k / 2 + 6561 * 1: k / 2 ); r.push_back( n ); } return r; } };
} // namespace wd

namespace sp {
template<class T, std::size_t N> struct S<wd::box<T, N>, void> { template<class F, class H> static void app( H& h, wd::box<T, N> const& v ) { for( std::size_t i = 0; i < N; ++i ) S<T>::template app<F>( h, v.v[i] ); } };
template<> struct S<wd::N8, void> { template<class F, class H> static void app( H& h, wd::N8 const& v ) { S<wd::nest<8>::type>::app<F>( h, v.v ); } };
#if __cplusplus >= 201402L
template<std::size_t I, class F, class T, class H, bool E = ( I == std::tuple_size<T>::value )> struct Stie { static void go( H& h, T const& t ) { S<typename std::decay<typename std::tuple_element<I, T>::type>::type>::template app<F>( h, std::get<I>( t ) ); Stie<I + 1, F, T, H>::go( h, t ); } };
template<std::size_t I, class F, class T, class H> struct Stie<I, F, T, H, true> { static void go( H&, T const& ) {} };
template<> struct S<wd::D20, void> { template<class F, class H> static void app( H& h, wd::D20 const& v ) { auto t = v.tie(); Stie<0, F, decltype( t ), H>::go( h, t ); } };
#endif
}

// X( name, cap, type )
#define WT0(X) \
 X( w_v_u16, 65537, std::vector<std::uint16_t> ) X( w_v_str, 1025, std::vector<std::string> ) X( w_v_bool, 65537, std::vector<bool> ) X( w_v_f, 4097, std::vector<float> ) X( w_str, 65537, std::string ) X( w_dq, 4097, std::deque<unsigned char> ) X( w_ls, 1025, std::list<std::string> ) X( w_fl, 4097, std::forward_list<short> ) X( w_v_v, 1025, std::vector<std::vector<unsigned char> > ) X( w_v_p, 513, std::vector<VP( std::string, unsigned char )> ) X( w_v_hook, 257, std::vector<va::hook> ) X( w_u32, 4097, std::u32string )
#define WT1(X) \
 X( w_set, 1025, std::set<int> ) X( w_mset, 257, std::multiset<std::string> ) X( w_map, 513, VM( std::string, std::string ) ) X( w_mmap, 257, VMM( int, std::string ) ) X( w_us, 1025, std::unordered_set<int> ) X( w_ums, 257, std::unordered_multiset<std::string> ) X( w_um, 513, VUM( int, std::string ) ) X( w_umm, 257, VUMM( std::string, unsigned char ) )
#define WT2(X) \
 X( w_a17s, 0, VA( std::string, 17 ) ) X( w_a33u, 0, VA( std::uint16_t, 33 ) ) X( w_a64c, 0, VA( unsigned char, 64 ) ) X( w_a100v, 0, VA( std::vector<unsigned char>, 100 ) ) X( w_a257f, 0, VA( float, 257 ) ) X( w_a1000, 0, VA( std::uint64_t, 1000 ) ) X( w_a4096, 0, VA( unsigned char, 4096 ) ) X( w_a20p, 0, VA( VP( std::string, unsigned char ), 20 ) ) X( w_a20a, 0, VA( VA( short, 20 ), 20 ) ) X( w_ba17s, 0, VBA( std::string, 17 ) ) X( w_ba65u, 0, VBA( std::uint16_t, 65 ) ) X( w_ba300, 0, VBA( va::hook, 300 ) ) X( w_c17s, 0, wd::box<std::string VCOMMA 17> ) X( w_c33u, 0, wd::box<std::uint16_t VCOMMA 33> ) X( w_c100h, 0, wd::box<va::hook VCOMMA 100> ) X( w_c256, 0, wd::box<unsigned char VCOMMA 256> ) X( w_c300d, 0, wd::box<double VCOMMA 300> )
#define WT3_(X) X( w_t13, 0, wd::T13 ) X( w_p7, 3000, wd::P7 ) X( w_n8, 6000, wd::N8 )
#if __cplusplus >= 201402L
# define WT3(X) WT3_(X) X( w_d20, 0, wd::D20 ) X( w_v_d1, 100, std::vector<va::d1> ) X( w_a20d, 0, VA( va::d1, 20 ) )
#else
# define WT3(X) WT3_(X)
#endif
