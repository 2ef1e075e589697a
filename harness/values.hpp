// Exhaustive value universes for nested types. uni<T>::get( cap ) lists all values of the
// type over small component universes, smallest first, at most about cap of them.
#pragma once
#include "spec.hpp"
#include "iters.hpp"
#include <boost/describe.hpp>
#include <algorithm>

namespace va {

// user-defined types ----------------------------------------------------------------
struct hook // user-supplied append hook; c is not part of the value
{
    std::string a; unsigned char b = 0; int c = 0;
    friend bool operator==( hook const& x, hook const& y ) { return x.a == y.a && x.b == y.b; } friend bool operator<( hook const& x, hook const& y ) { return std::tie( x.a, x.b ) < std::tie( y.a, y.b ); }
    template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, hook const& v ) { hh::hash_append( h, f, v.a ); hh::hash_append( h, f, v.b ); }
};
enum class en: short { a = 0, b = 1, c = -2 };
// user-written ranges, recognized by their members only; N elements in ones of constant size
template<class Base, std::size_t N = std::size_t( -1 )> struct rng
{
    typedef Base base; typedef typename Base::value_type value_type; typedef typename Base::const_iterator const_iterator, iterator; Base c; rng(): c() {} template<class It> rng( It a, It b ): c( a, b ) {}
    const_iterator begin() const { return c.begin(); } const_iterator end() const { return c.end(); }
    friend bool operator==( rng const& x, rng const& y ) { return x.c == y.c; } friend bool operator<( rng const& x, rng const& y ) { return x.c < y.c; }
};
template<class T, std::size_t N> struct fix_fwd: rng<std::forward_list<T>, N> { fix_fwd() {} template<class It> fix_fwd( It a, It b ): rng<std::forward_list<T>, N>( a, b ) {} }; // constant size, forward
template<class T, std::size_t N> struct fix_bid: rng<std::list<T>, N> { fix_bid() {} template<class It> fix_bid( It a, It b ): rng<std::list<T>, N>( a, b ) {} }; // constant size through tuple_size
template<class T, std::size_t N> struct fix_rnd: rng<std::deque<T>, N> { fix_rnd() {} template<class It> fix_rnd( It a, It b ): rng<std::deque<T>, N>( a, b ) {} std::size_t size() const { return this->c.size(); } }; // constant size, random access
template<class T> struct dyn_fwd: rng<std::forward_list<T> > { dyn_fwd() {} template<class It> dyn_fwd( It a, It b ): rng<std::forward_list<T> >( a, b ) {} };
template<class T> struct dyn_rnd: rng<std::deque<T> > { dyn_rnd() {} template<class It> dyn_rnd( It a, It b ): rng<std::deque<T> >( a, b ) {} }; // no size()
template<class T> struct dyn_con // contiguous, without front() or value_type
{
    std::vector<T> c; dyn_con() {} template<class It> dyn_con( It a, It b ): c( a, b ) {} T const* begin() const { return c.data(); } T const* end() const { return c.data() + c.size(); } T const* data() const { return c.data(); } std::size_t size() const { return c.size(); }
    friend bool operator==( dyn_con const& x, dyn_con const& y ) { return x.c == y.c; } friend bool operator<( dyn_con const& x, dyn_con const& y ) { return x.c < y.c; }
};
template<class T, std::size_t N> struct fix_con // contiguous, constant size
{
    typedef T value_type; T c[ N ]; T const* begin() const { return c; } T const* end() const { return c + N; } T const* data() const { return c; } std::size_t size() const { return N; } T const& front() const { return c[0]; }
    friend bool operator==( fix_con const& x, fix_con const& y ) { return std::equal( x.c, x.c + N, y.c ); } friend bool operator<( fix_con const& x, fix_con const& y ) { return std::lexicographical_compare( x.c, x.c + N, y.c, y.c + N ); }
};
template<class T> struct uno: rng<std::list<T> > { typedef int hasher; uno() {} template<class It> uno( It a, It b ): rng<std::list<T> >( a, b ) { this->c.sort(); } }; // unordered
}
namespace boost { namespace hash2 { template<class T, std::size_t N> struct has_constant_size< va::fix_fwd<T, N> >: std::true_type {}; template<class T, std::size_t N> struct has_constant_size< va::fix_rnd<T, N> >: std::true_type {}; template<class T, std::size_t N> struct has_constant_size< va::fix_con<T, N> >: std::true_type {}; } }
namespace std { template<class T, std::size_t N> struct tuple_size< va::fix_bid<T, N> >: std::integral_constant<std::size_t, N> {}; }
namespace va {
#if __cplusplus >= 201402L
struct d0 { friend bool operator==( d0, d0 ) { return true; } friend bool operator<( d0, d0 ) { return false; } }; BOOST_DESCRIBE_STRUCT( d0, (), () )
struct d1 { unsigned char a; std::string b; std::vector<unsigned char> c; friend bool operator==( d1 const& x, d1 const& y ) { return x.a == y.a && x.b == y.b && x.c == y.c; } }; BOOST_DESCRIBE_STRUCT( d1, (), (a, b, c) )
class d2: public d1, private d0
{
    std::string s; en e; public: d2( d1 const& x, std::string const& y, en z ): d1( x ), s( y ), e( z ) {}
    friend bool operator==( d2 const& x, d2 const& y ) { return (d1 const&)x == (d1 const&)y && x.s == y.s && x.e == y.e; }
    BOOST_DESCRIBE_CLASS( d2, (d1, d0), (), (), (s, e) ) std::string const& gs() const { return s; } en ge() const { return e; }
};
struct d3 { std::pair<unsigned char, std::string> p; unsigned char q[ 2 ]; friend bool operator==( d3 const& x, d3 const& y ) { return x.p == y.p && x.q[0] == y.q[0] && x.q[1] == y.q[1]; } }; BOOST_DESCRIBE_STRUCT( d3, (), (p, q) )
#endif

// universes ---------------------------------------------------------------------------
template<class T, class = void> struct uni;
template<class T> std::vector<T> list( std::initializer_list<T> l ) { return std::vector<T>( l ); }
#define UNI(T,...) template<> struct uni<T, void> { static std::vector<T> get( std::size_t cap ) { static T const a[] = { __VA_ARGS__ }; std::size_t n = sizeof a / sizeof a[0]; if( cap < n ) n = cap; return std::vector<T>( a, a + n ); } };
UNI( unsigned char, 0, 1, 2, 255 ) UNI( char, 0, 'a', char(-1) ) UNI( signed char, 0, -1 ) UNI( bool, false, true ) UNI( short, 0, 1, 256, -1 ) UNI( std::uint16_t, 0, 1, 256, 0x0101 ) UNI( int, 0, 1, 0x01000000, -1 ) UNI( unsigned, 0, 256 )
UNI( std::uint64_t, 0, 1, 2, 256 ) UNI( long, 0, 1, -1 ) UNI( float, 0.0f, 1.0f, -0.0f ) UNI( double, 0.0, 1.0, -0.0 ) UNI( en, en::a, en::b, en::c ) UNI( char32_t, 0, U'a' ) UNI( wchar_t, 0, L'a' ) UNI( char16_t, 0, u'a' )
template<class T> struct uni<T const, void>: uni<T> {};
template<> struct uni<void const*, void> { static std::vector<void const*> get( std::size_t ) { static int x[2]; return { nullptr, x, x + 1 }; } };
template<std::size_t N> struct uni<hh::digest<N>, void> { static std::vector<hh::digest<N> > get( std::size_t ) { std::vector<hh::digest<N> > r; for( std::size_t i = 0; i <= N; ++i ) { hh::digest<N> d{}; if( i < N ) d[i] = 1; r.push_back( d ); } return r; } };

// all sequences over e, shortest first, at most cap
template<class T> std::vector<std::vector<T> > seqs( std::vector<T> const& e, std::size_t cap, std::size_t maxlen = 6 )
{
    std::vector<std::vector<T> > r( 1 ); std::size_t lo = 0;
    for( std::size_t len = 0; len < maxlen && r.size() < cap && !e.empty(); ++len )
    {
        std::size_t hi = r.size();
        for( std::size_t i = lo; i < hi && r.size() < cap; ++i ) for( std::size_t k = 0; k < e.size() && r.size() < cap; ++k ) { std::vector<T> s( r[i] ); s.push_back( e[k] ); r.push_back( s ); }
        lo = hi;
    }
    return r;
}
inline std::size_t root( std::size_t cap, unsigned n ) { std::size_t k = 1; for( ;; ++k ) { std::size_t p = 1; for( unsigned i = 0; i < n; ++i ) p *= k + 1; if( p > cap ) return k; } }
template<class C> struct useq
{
    typedef typename C::value_type V; typedef typename std::remove_cv<V>::type U;
    static std::vector<C> get( std::size_t cap )
    {
        std::size_t ec = cap < 16? 2: cap < 64? 3: cap < 400? 5: cap < 2000? 8: 12; // element universe: enough for several lengths
        std::vector<std::vector<U> > s = seqs<U>( uni<U>::get( ec ), cap ); std::vector<C> r;
        for( std::size_t i = 0; i < s.size(); ++i ) r.push_back( C( s[i].begin(), s[i].end() ) );
        return r;
    }
};
template<class C> struct uset: useq<C> // sets: drop the duplicates
{
    static std::vector<C> get( std::size_t cap ) { std::vector<C> a = useq<C>::get( cap ), r; for( std::size_t i = 0; i < a.size(); ++i ) if( std::find( r.begin(), r.end(), a[i] ) == r.end() ) r.push_back( a[i] ); return r; }
};
template<class T, class A> struct uni<std::vector<T, A>, void>: useq<std::vector<T, A> > {};
template<class T> struct uni<std::deque<T>, void>: useq<std::deque<T> > {};
template<class T> struct uni<std::list<T>, void>: useq<std::list<T> > {};
template<class T> struct uni<std::forward_list<T>, void>: useq<std::forward_list<T> > {};
template<class Ch> struct uni<std::basic_string<Ch>, void>: useq<std::basic_string<Ch> > {};
template<class T> struct uni<std::set<T>, void>: uset<std::set<T> > {}; template<class T> struct uni<std::multiset<T>, void>: uset<std::multiset<T> > {};
template<class T> struct uni<std::unordered_set<T>, void>: uset<std::unordered_set<T> > {}; template<class T> struct uni<std::unordered_multiset<T>, void>: uset<std::unordered_multiset<T> > {};
template<class C> struct umap
{
    static std::vector<C> get( std::size_t cap )
    {
        typedef std::pair<typename C::key_type, typename C::mapped_type> P; std::vector<std::vector<P> > s = seqs<P>( uni<P>::get( cap < 64? 4: cap < 2000? 9: 16 ), cap, 3 ); std::vector<C> r;
        for( std::size_t i = 0; i < s.size(); ++i ) { C c( s[i].begin(), s[i].end() ); if( std::find( r.begin(), r.end(), c ) == r.end() ) r.push_back( c ); }
        return r;
    }
};
template<class K, class V> struct uni<std::map<K, V>, void>: umap<std::map<K, V> > {}; template<class K, class V> struct uni<std::multimap<K, V>, void>: umap<std::multimap<K, V> > {};
template<class K, class V> struct uni<std::unordered_map<K, V>, void>: umap<std::unordered_map<K, V> > {}; template<class K, class V> struct uni<std::unordered_multimap<K, V>, void>: umap<std::unordered_multimap<K, V> > {};
template<class A, class B> struct uni<std::pair<A, B>, void>
{
    static std::vector<std::pair<A, B> > get( std::size_t cap )
    {
        std::size_t k = root( cap, 2 ); auto a = uni<A>::get( k ); auto b = uni<B>::get( cap / std::max<std::size_t>( 1, std::min( k, a.size() ) ) ); std::vector<std::pair<A, B> > r;
        for( auto const& x: a ) for( auto const& y: b ) r.push_back( std::pair<A, B>( x, y ) );
        return r;
    }
};
template<> struct uni<std::tuple<>, void> { static std::vector<std::tuple<> > get( std::size_t ) { return std::vector<std::tuple<> >( 1 ); } };
template<class A, class... T> struct uni<std::tuple<A, T...>, void>
{
    static std::vector<std::tuple<A, T...> > get( std::size_t cap )
    {
        std::size_t k = std::max<std::size_t>( 2, root( cap, 1 + sizeof...(T) ) ); auto a = uni<A>::get( k ); auto b = uni<std::tuple<T...> >::get( std::max<std::size_t>( 2, cap / k ) ); std::vector<std::tuple<A, T...> > r;
        for( auto const& x: a ) for( auto const& y: b ) r.push_back( std::tuple_cat( std::tuple<A>( x ), y ) );
        return r;
    }
};
template<class C, class T, std::size_t N> struct uarr
{
    static std::vector<C> get( std::size_t cap )
    {
        std::vector<C> r; auto e = uni<T>::get( N? std::max<std::size_t>( 2, root( cap, N ) ): 1 ); if( N == 0 ) { r.resize( 1 ); return r; }
        std::vector<std::size_t> ix( N, 0 );
        for( ;; ) { C c; for( std::size_t i = 0; i < N; ++i ) c[i] = e[ ix[i] ]; r.push_back( c ); std::size_t i = 0; while( i < N && ++ix[i] == e.size() ) ix[ i++ ] = 0; if( i == N ) break; }
        return r;
    }
};
template<class T, std::size_t N> struct uni<std::array<T, N>, void>: uarr<std::array<T, N>, T, N> {};
template<class T, std::size_t N> struct uni<boost::array<T, N>, void>: uarr<boost::array<T, N>, T, N> {};
template<class T> struct uni<std::array<T, 0>, void> { static std::vector<std::array<T, 0> > get( std::size_t ) { return std::vector<std::array<T, 0> >( 1 ); } };
template<class T> struct uni<boost::array<T, 0>, void> { static std::vector<boost::array<T, 0> > get( std::size_t ) { return std::vector<boost::array<T, 0> >( 1 ); } };
template<class C, class T, std::size_t N> struct ufix { static std::vector<C> get( std::size_t cap ) { std::vector<C> r; for( auto const& a: uni<std::array<T, N>, void>::get( cap ) ) r.push_back( C( a.begin(), a.end() ) ); return r; } };
template<class T, std::size_t N> struct uni<fix_fwd<T, N>, void>: ufix<fix_fwd<T, N>, T, N> {}; template<class T, std::size_t N> struct uni<fix_bid<T, N>, void>: ufix<fix_bid<T, N>, T, N> {}; template<class T, std::size_t N> struct uni<fix_rnd<T, N>, void>: ufix<fix_rnd<T, N>, T, N> {};
template<class T, std::size_t N> struct uni<fix_con<T, N>, void> { static std::vector<fix_con<T, N> > get( std::size_t cap ) { std::vector<fix_con<T, N> > r; for( auto const& a: uni<std::array<T, N>, void>::get( cap ) ) { fix_con<T, N> c; std::copy( a.begin(), a.end(), c.c ); r.push_back( c ); } return r; } };
template<class C, class T> struct udyn { static std::vector<C> get( std::size_t cap ) { std::vector<C> r; for( auto const& a: uni<std::vector<T>, void>::get( cap ) ) r.push_back( C( a.begin(), a.end() ) ); return r; } };
template<class T> struct uni<dyn_fwd<T>, void>: udyn<dyn_fwd<T>, T> {}; template<class T> struct uni<dyn_rnd<T>, void>: udyn<dyn_rnd<T>, T> {}; template<class T> struct uni<dyn_con<T>, void>: udyn<dyn_con<T>, T> {};
template<class T> struct uni<uno<T>, void> { static std::vector<uno<T> > get( std::size_t cap ) { std::vector<uno<T> > r; for( auto const& a: uni<std::vector<T>, void>::get( cap ) ) { uno<T> u( a.begin(), a.end() ); if( std::find( r.begin(), r.end(), u ) == r.end() ) r.push_back( u ); } return r; } };
template<> struct uni<hook, void> { static std::vector<hook> get( std::size_t cap ) { std::vector<hook> r; for( auto const& x: uni<std::pair<std::string, unsigned char> >::get( cap ) ) { hook h; h.a = x.first; h.b = x.second; h.c = (int)r.size(); r.push_back( h ); } return r; } };
#if __cplusplus >= 201402L
template<> struct uni<d0, void> { static std::vector<d0> get( std::size_t ) { return std::vector<d0>( 1 ); } };
template<> struct uni<d1, void> { static std::vector<d1> get( std::size_t cap ) { std::vector<d1> r; for( auto const& x: uni<std::tuple<unsigned char, std::string, std::vector<unsigned char> > >::get( cap ) ) r.push_back( d1{ std::get<0>( x ), std::get<1>( x ), std::get<2>( x ) } ); return r; } };
template<> struct uni<d2, void> { static std::vector<d2> get( std::size_t cap ) { std::vector<d2> r; for( auto const& x: uni<d1>::get( root( cap, 2 ) ) ) for( auto const& y: uni<std::pair<std::string, en> >::get( root( cap, 2 ) ) ) r.push_back( d2( x, y.first, y.second ) ); return r; } };
template<> struct uni<d3, void> { static std::vector<d3> get( std::size_t cap ) { std::vector<d3> r; for( auto const& x: uni<std::tuple<unsigned char, std::string, unsigned char, unsigned char> >::get( cap ) ) { d3 d; d.p.first = std::get<0>( x ); d.p.second = std::get<1>( x ); d.q[0] = std::get<2>( x ); d.q[1] = std::get<3>( x ); r.push_back( d ); } return r; } };
#endif

} // namespace va

namespace sp {
template<class C, class T, std::size_t N> struct Sfix { template<class F, class H> static void app( H& h, C const& v ) { if( N == 0 ) zero( h ); for( auto i = v.begin(); i != v.end(); ++i ) S<T>::template app<F>( h, *i ); } };
template<class T, std::size_t N> struct S<va::fix_fwd<T, N>, void>: Sfix<va::fix_fwd<T, N>, T, N> {}; template<class T, std::size_t N> struct S<va::fix_bid<T, N>, void>: Sfix<va::fix_bid<T, N>, T, N> {};
template<class T, std::size_t N> struct S<va::fix_rnd<T, N>, void>: Sfix<va::fix_rnd<T, N>, T, N> {}; template<class T, std::size_t N> struct S<va::fix_con<T, N>, void>: Sfix<va::fix_con<T, N>, T, N> {};
template<class C, class T> struct Sdyn { template<class F, class H> static void app( H& h, C const& v ) { std::size_t n = 0; for( auto i = v.begin(); i != v.end(); ++i, ++n ) S<T>::template app<F>( h, *i ); size<F>( h, n ); } };
template<class T> struct S<va::dyn_fwd<T>, void>: Sdyn<va::dyn_fwd<T>, T> {}; template<class T> struct S<va::dyn_rnd<T>, void>: Sdyn<va::dyn_rnd<T>, T> {}; template<class T> struct S<va::dyn_con<T>, void>: Sdyn<va::dyn_con<T>, T> {};
template<class T> struct S<va::uno<T>, void>: Sunord<va::uno<T> > {};
template<> struct S<va::hook, void> { template<class F, class H> static void app( H& h, va::hook const& v ) { S<std::string>::app<F>( h, v.a ); num<F>( h, v.b, 1 ); } };
#if __cplusplus >= 201402L
template<> struct S<va::d0, void> { template<class F, class H> static void app( H& h, va::d0 const& ) { zero( h ); } };
template<> struct S<va::d1, void> { template<class F, class H> static void app( H& h, va::d1 const& v ) { num<F>( h, v.a, 1 ); S<std::string>::app<F>( h, v.b ); S<std::vector<unsigned char> >::app<F>( h, v.c ); } };
template<> struct S<va::d2, void> { template<class F, class H> static void app( H& h, va::d2 const& v ) { S<va::d1>::app<F>( h, v ); zero( h ); S<std::string>::app<F>( h, v.gs() ); num<F>( h, (unsigned long long)(short)v.ge(), 2 ); } };
template<> struct S<va::d3, void> { template<class F, class H> static void app( H& h, va::d3 const& v ) { num<F>( h, v.p.first, 1 ); S<std::string>::app<F>( h, v.p.second ); num<F>( h, v.q[0], 1 ); num<F>( h, v.q[1], 1 ); } };
#endif
}

// the types of the universe: X( name, type ), in groups
#define VTYPES_A(X) \
 X( v_u8, std::vector<unsigned char> ) X( v_short, std::vector<short> ) X( v_bool, std::vector<bool> ) X( v_float, std::vector<float> ) X( str, std::string ) X( u32str, std::u32string ) X( dq_u16, std::deque<std::uint16_t> ) X( ls_int, std::list<int> ) X( fl_u8, std::forward_list<unsigned char> ) \
 X( v_v_u8, std::vector<std::vector<unsigned char> > ) X( v_str, std::vector<std::string> ) X( v_v_v_bool, std::vector<std::vector<std::vector<bool> > > ) X( l_d_v, std::list<std::deque<std::vector<short> > > ) X( v_u64, std::vector<std::uint64_t> ) X( v_v_u64, std::vector<std::vector<std::uint64_t> > ) \
 X( p_ss, VP( std::string, std::string ) ) X( p_vv, VP( std::vector<unsigned char>, std::vector<unsigned char> ) ) X( p_v64, VP( std::vector<std::uint64_t>, std::vector<std::uint64_t> ) ) X( p_vs, VP( std::vector<std::string>, std::vector<std::string> ) ) X( v_p_ss, std::vector<VP( std::string, std::string )> )
#define VP(A,B) std::pair<A VCOMMA B>
#define VCOMMA ,
#define VTYPES_B(X) \
 X( t_sus, VT3( std::string, unsigned char, std::string ) ) X( t_vvv, VT3( std::vector<unsigned char>, std::vector<unsigned char>, std::vector<unsigned char> ) ) X( t_vsv, VT3( std::vector<std::vector<unsigned char> >, std::string, std::vector<bool> ) ) X( v_t, std::vector<VT3( unsigned char, std::string, short )> ) \
 X( a2_s, VA( std::string, 2 ) ) X( a3_v, VA( std::vector<unsigned char>, 3 ) ) X( ba2_v, VBA( std::vector<short>, 2 ) ) X( v_a2_s, std::vector<VA( std::string, 2 )> ) X( a2_v_a2, VA( std::vector<VA( unsigned char, 2 )>, 2 ) ) X( a2_a2_s, VA( VA( std::string, 2 ), 2 ) ) X( v_a3_u16, std::vector<VA( std::uint16_t, 3 )> ) \
 X( v_t0, std::vector<std::tuple<> > ) X( v_a0, std::vector<VA( int, 0 )> ) X( v_ba0, std::vector<VBA( int, 0 )> ) X( p_vt0, VP( std::vector<std::tuple<> >, std::vector<std::tuple<> > ) ) X( v_v_t0, std::vector<std::vector<std::tuple<> > > ) X( v_v_a0, std::vector<std::vector<VA( char, 0 )> > ) X( a2_v_t0, VA( std::vector<std::tuple<> >, 2 ) ) X( t_t0s, VT3( std::vector<std::tuple<> >, std::string, std::vector<VA( char, 0 )> ) ) \
 X( v_dig, std::vector<hh::digest<3> > ) X( p_dig, VP( hh::digest<3>, hh::digest<3> ) ) X( v_ptr, std::vector<void const*> ) X( v_dbl, std::vector<double> ) X( v_en, std::vector<va::en> )
#define VT3(A,B,C) std::tuple<A VCOMMA B VCOMMA C>
#define VA(A,N) std::array<A VCOMMA N>
#define VBA(A,N) boost::array<A VCOMMA N>
#define VTYPES_C(X) \
 X( set_u8, std::set<unsigned char> ) X( set_str, std::set<std::string> ) X( set_set, std::set<std::set<unsigned char> > ) X( ms_str, std::multiset<std::string> ) X( map_ss, VM( std::string, std::string ) ) X( map_uv, VM( unsigned char, std::vector<unsigned char> ) ) X( mm_us, VMM( unsigned char, std::string ) ) X( map_map, VM( unsigned char, VM( bool, std::string ) ) ) X( v_map, std::vector<VM( unsigned char, std::string )> ) X( p_map, VP( VM( unsigned char, std::string ), VM( unsigned char, std::string ) ) ) \
 X( us_u8, std::unordered_set<unsigned char> ) X( ums_u8, std::unordered_multiset<unsigned char> ) X( us_str, std::unordered_set<std::string> ) X( um_ss, VUM( std::string, std::string ) ) X( um_uv, VUM( unsigned char, std::vector<unsigned char> ) ) X( umm_us, VUMM( unsigned char, std::string ) ) X( v_us, std::vector<std::unordered_set<unsigned char> > ) X( p_us, VP( std::unordered_set<unsigned char>, std::unordered_set<unsigned char> ) ) X( um_us, VUM( unsigned char, std::unordered_set<unsigned char> ) ) X( a2_us, VA( std::unordered_set<std::string>, 2 ) )
#define VM(A,B) std::map<A VCOMMA B>
#define VMM(A,B) std::multimap<A VCOMMA B>
#define VUM(A,B) std::unordered_map<A VCOMMA B>
#define VUMM(A,B) std::unordered_multimap<A VCOMMA B>
#define VFIX(K,A,N) va::K<A VCOMMA N>
#define VTYPES_D0(X) X( ff2_s, VFIX( fix_fwd, std::string, 2 ) ) X( ff0_i, VFIX( fix_fwd, int, 0 ) ) X( ff3_u8, VFIX( fix_fwd, unsigned char, 3 ) ) X( fb2_v, VFIX( fix_bid, std::vector<unsigned char>, 2 ) ) X( fb1_i, VFIX( fix_bid, int, 1 ) ) X( fr2_i, VFIX( fix_rnd, int, 2 ) ) X( fr0_s, VFIX( fix_rnd, std::string, 0 ) ) X( fc2_u16, VFIX( fix_con, std::uint16_t, 2 ) ) X( fc2_s, VFIX( fix_con, std::string, 2 ) ) \
 X( v_ff2, std::vector<VFIX( fix_fwd, unsigned char, 2 )> ) X( p_fb, VP( VFIX( fix_bid, std::string, 1 ), VFIX( fix_rnd, std::string, 1 ) ) ) X( df_s, va::dyn_fwd<std::string> ) X( df_u8, va::dyn_fwd<unsigned char> ) X( dr_i, va::dyn_rnd<int> ) X( dc_u8, va::dyn_con<unsigned char> ) X( dc_i, va::dyn_con<int> ) X( dc_s, va::dyn_con<std::string> ) X( v_dc, std::vector<va::dyn_con<unsigned char> > ) X( p_df, VP( va::dyn_fwd<unsigned char>, va::dyn_con<unsigned char> ) ) X( uno_u8, va::uno<unsigned char> ) X( uno_s, va::uno<std::string> ) X( v_uno, std::vector<va::uno<unsigned char> > ) \
 X( hook, va::hook ) X( v_hook, std::vector<va::hook> ) X( m_hook, VM( va::hook, std::string ) ) X( p_hook, VP( va::hook, va::hook ) )
#if __cplusplus >= 201402L
# define VTYPES_D(X) VTYPES_D0(X) X( v_d0, std::vector<va::d0> ) X( v_v_d0, std::vector<std::vector<va::d0> > ) X( p_vd0, VP( std::vector<va::d0>, std::vector<va::d0> ) ) X( d1, va::d1 ) X( v_d1, std::vector<va::d1> ) X( d2, va::d2 ) X( v_d2, std::vector<va::d2> ) X( d3, va::d3 ) X( a2_d1, VBA( va::d1, 2 ) ) X( p_d, VP( va::d1, va::d2 ) ) X( l_d3, std::list<va::d3> )
#else
# define VTYPES_D(X) VTYPES_D0(X)
#endif
