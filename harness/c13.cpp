// C13: composition of user-defined types. -DOUTER=k selects the outermost wrapper.
#define HARNESS_MAIN
#include "common.hpp"
#include "values.hpp"
#include "algos.hpp"
#ifdef WSEL
# include "wide.hpp"
#endif
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/hmac.hpp>
typedef std::vector<unsigned char> bytes;

// flavors with state: the hook below sends the state, so it must arrive unchanged
template<int O, class Z> struct sflav { typedef Z size_type; static constexpr auto byte_order = O == 0? hh::endian::native: O == 1? hh::endian::little: hh::endian::big; unsigned salt; explicit sflav( unsigned s ): salt( s ) {} };
static unsigned g_salt = 0; static void const* g_tid = nullptr; static unsigned g_wrong = 0;
template<class H, class F> struct tid { static char c; }; template<class H, class F> char tid<H, F>::c;

struct probe
{
    unsigned char b; friend bool operator<( probe x, probe y ) { return x.b < y.b; } friend bool operator==( probe x, probe y ) { return x.b == y.b; }
    template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, probe const& v )
    { if( (void const*)&tid<H, F>::c != g_tid ) ++g_wrong; hh::hash_append( h, f, f.salt ); hh::hash_append( h, f, v.b ); }
};
typedef unsigned char u8;
// described wrappers
template<class T> class DM { u8 z; T x; BOOST_DESCRIBE_CLASS( DM, (), (), (), (z, x) ) public: DM( T const& t, u8 c = 7 ): z( c ), x( t ) {} T const& get_x() const { return x; } u8 get_z() const { return z; } };
template<class T> struct DB: public DM<T> { u8 z; DB( T const& t, u8 c ): DM<T>( t, c ^ 1 ), z( c ) {} typedef DM<T> B; BOOST_DESCRIBE_CLASS( DB, (B), (z), (), () ) };
template<class T> class DP: private DM<T> { public: typedef DM<T> B; B const& b() const { return *this; } DP( T const& t, u8 c ): DM<T>( t, c ), y( t ) {} protected: T y; BOOST_DESCRIBE_CLASS( DP, (B), (), (y), () ) public: T const& get_y() const { return y; } };
template<class T> struct DV: public virtual DM<T> { typedef DM<T> B; DV( T const& t, u8 c ): DM<T>( t, c ) {} virtual ~DV() {} BOOST_DESCRIBE_CLASS( DV, (B), (), (), () ) };
struct mark { u8 m = 9; BOOST_DESCRIBE_CLASS( mark, (), (m), (), () ) };
template<class T> struct D2: protected DB<T>, public mark { typedef DB<T> B; B const& b() const { return *this; } D2( T const& t, u8 c ): DB<T>( t, c ) {} BOOST_DESCRIBE_CLASS( D2, (B, mark), (), (), () ) }; // two bases, two levels
template<class T> struct DA { T x[ 2 ]; u8 const k; static int st; int fn() const { return 0; } BOOST_DESCRIBE_CLASS( DA, (), (st, fn, x, k), (), () ) }; template<class T> int DA<T>::st = 5; // array and const members; statics and functions are not members of the value
// hooks
template<class T> struct HK { T x; u8 y; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, HK const& v ) { hh::hash_append( h, f, v.y ); hh::hash_append( h, f, v.x ); } };
template<class T> struct HR { T x[ 3 ]; unsigned n; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, HR const& v ) { hh::hash_append_range( h, f, v.x + 0, v.x + v.n ); hh::hash_append_size( h, f, v.n ); } };
template<class T> struct HS { T x[ 3 ]; unsigned n; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, HS const& v ) { hh::hash_append_sized_range( h, f, it::fwd<T>( v.x + 0 ), it::fwd<T>( v.x + v.n ) ); } };
template<class T> struct HU { T x[ 3 ]; unsigned n; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, HU const& v ) { hh::hash_append_unordered_range( h, f, v.x + 0, v.x + v.n ); } };
namespace ext { template<class T> struct HF { T x; }; template<class Hash, class Flavor, class T> void tag_invoke( hh::hash_append_tag const&, Hash& h, Flavor const& f, HF<T> const& v ) { hh::hash_append( h, f, v.x ); unsigned char const t[ 2 ] = { 1, 2 }; h.update( t, 2 ); } } // free function; also talks to the algorithm directly
template<class T> struct DH: HK<T> { u8 w; DH( HK<T> const& b, u8 c ): HK<T>( b ), w( c ) {} template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, DH const& v ) { hh::hash_append( h, f, static_cast<HK<T> const&>( v ) ); hh::hash_append( h, f, v.w ); } }; // overrides the hook of its base
// user tuple-like
namespace ext { template<class T> struct TL { T a; u8 b; T c; }; template<std::size_t I> struct sel; template<> struct sel<0> { template<class T> static T const& g( TL<T> const& t ) { return t.c; } }; template<> struct sel<1> { template<class T> static u8 g( TL<T> const& t ) { return t.b; } }; template<> struct sel<2> { template<class T> static T g( TL<T> const& t ) { return t.a; } };
template<std::size_t I, class T> auto get( TL<T> const& t ) -> decltype( sel<I>::g( t ) ) { return sel<I>::g( t ); } }
namespace std { template<class T> struct tuple_size<ext::TL<T> >: integral_constant<size_t, 3> {}; template<class T> struct tuple_element<0, ext::TL<T> > { typedef T type; }; template<class T> struct tuple_element<1, ext::TL<T> > { typedef u8 type; }; template<class T> struct tuple_element<2, ext::TL<T> > { typedef T type; }; }

namespace sp {
#define APP template<class F, class H> static void app
template<> struct S<probe, void> { APP( H& h, probe const& v ) { num<F>( h, g_salt, 4 ); num<F>( h, v.b, 1 ); } };
template<class T> struct S<DM<T>, void> { APP( H& h, DM<T> const& v ) { num<F>( h, v.get_z(), 1 ); S<T>::template app<F>( h, v.get_x() ); } };
template<class T> struct S<DB<T>, void> { APP( H& h, DB<T> const& v ) { S<DM<T> >::template app<F>( h, v ); num<F>( h, v.z, 1 ); } };
template<class T> struct S<DP<T>, void> { APP( H& h, DP<T> const& v ) { S<DM<T> >::template app<F>( h, v.b() ); S<T>::template app<F>( h, v.get_y() ); } };
template<class T> struct S<DV<T>, void> { APP( H& h, DV<T> const& v ) { S<DM<T> >::template app<F>( h, v ); } };
template<class T> struct S<D2<T>, void> { APP( H& h, D2<T> const& v ) { S<DB<T> >::template app<F>( h, v.b() ); num<F>( h, v.m, 1 ); } };
template<class T> struct S<DA<T>, void> { APP( H& h, DA<T> const& v ) { S<T>::template app<F>( h, v.x[0] ); S<T>::template app<F>( h, v.x[1] ); num<F>( h, v.k, 1 ); } };
template<class T> struct S<HK<T>, void> { APP( H& h, HK<T> const& v ) { num<F>( h, v.y, 1 ); S<T>::template app<F>( h, v.x ); } };
template<class T> struct S<DH<T>, void> { APP( H& h, DH<T> const& v ) { S<HK<T> >::template app<F>( h, v ); num<F>( h, v.w, 1 ); } };
template<class T> struct S<HR<T>, void> { APP( H& h, HR<T> const& v ) { for( unsigned i = 0; i < v.n; ++i ) S<T>::template app<F>( h, v.x[i] ); size<F>( h, v.n ); } };
template<class T> struct S<HS<T>, void> { APP( H& h, HS<T> const& v ) { for( unsigned i = 0; i < v.n; ++i ) S<T>::template app<F>( h, v.x[i] ); size<F>( h, v.n ); } };
template<class T> struct S<HU<T>, void> { APP( H& h, HU<T> const& v ) { unordered<T, F>( h, v.x + 0, v.x + v.n ); } };
template<class T> struct S<ext::HF<T>, void> { APP( H& h, ext::HF<T> const& v ) { S<T>::template app<F>( h, v.x ); unsigned char t[ 2 ] = { 1, 2 }; h.update( t, 2 ); } };
template<class T> struct S<ext::TL<T>, void> { APP( H& h, ext::TL<T> const& v ) { S<T>::template app<F>( h, v.c ); num<F>( h, v.b, 1 ); S<T>::template app<F>( h, v.a ); } };
}

// values: few per type, but every branch of every container (empty, one, several) -------------
template<class T> struct val;
template<> struct val<probe> { static std::vector<probe> get() { return { probe{ 0 }, probe{ 1 }, probe{ 200 } }; } };
template<class T> std::vector<T> U() { std::vector<T> v = val<T>::get(); std::size_t cap = hz::g_thorough? 9: 5; if( v.size() > cap ) { std::vector<T> r; for( std::size_t i = 0; i < cap; ++i ) r.push_back( v[ i * ( v.size() - 1 ) / ( cap - 1 ) ] ); return r; } return v; }
#define E2 std::vector<T> e = U<T>(); T const& e0 = e[0]; T const& e1 = e[ e.size() / 2 ]; T const& e2 = e.back();
template<class C, class T> struct vseq { static std::vector<C> get() { E2 std::vector<C> r; r.push_back( C() ); for( T const& x: e ) r.push_back( C( 1, x ) ); C c; c.push_back( e0 ); c.push_back( e2 ); r.push_back( c ); c.push_back( e1 ); r.push_back( c ); return r; } };
template<class T> struct val<std::vector<T> >: vseq<std::vector<T>, T> {}; template<class T> struct val<std::deque<T> >: vseq<std::deque<T>, T> {}; template<class T> struct val<std::list<T> >: vseq<std::list<T>, T> {};
template<class T> struct val<std::array<T, 2> > { static std::vector<std::array<T, 2> > get() { E2 std::vector<std::array<T, 2> > r; for( T const& x: e ) r.push_back( {{ x, e1 }} ); r.push_back( {{ e2, e0 }} ); return r; } };
template<class T> struct val<boost::array<T, 2> > { static std::vector<boost::array<T, 2> > get() { E2 std::vector<boost::array<T, 2> > r; for( T const& x: e ) r.push_back( {{ e1, x }} ); r.push_back( {{ e2, e0 }} ); return r; } };
template<class T> struct val<std::pair<T, u8> > { static std::vector<std::pair<T, u8> > get() { std::vector<std::pair<T, u8> > r; u8 k = 0; for( T const& x: U<T>() ) r.push_back( { x, k += 77 } ); return r; } };
template<class T> struct val<std::pair<u8, T> > { static std::vector<std::pair<u8, T> > get() { std::vector<std::pair<u8, T> > r; u8 k = 0; for( T const& x: U<T>() ) r.push_back( { k += 77, x } ); return r; } };
template<class T> struct val<std::tuple<T, u8, T> > { static std::vector<std::tuple<T, u8, T> > get() { E2 (void)e2; std::vector<std::tuple<T, u8, T> > r; u8 k = 0; for( T const& x: e ) r.push_back( std::tuple<T, u8, T>( x, k += 77, e1 ) ); r.push_back( std::tuple<T, u8, T>( e2, 5, e0 ) ); return r; } };
template<class T> struct val<std::map<probe, T> > { static std::vector<std::map<probe, T> > get() { E2 std::vector<std::map<probe, T> > r( 1 ); for( T const& x: e ) { std::map<probe, T> m; m.emplace( probe{ 4 }, x ); r.push_back( m ); m.emplace( probe{ 1 }, e1 ); m.emplace( probe{ 9 }, e2 ); r.push_back( m ); } (void)e0; return r; } };
template<class T> struct val<std::unordered_map<u8, T> > { static std::vector<std::unordered_map<u8, T> > get() { E2 std::vector<std::unordered_map<u8, T> > r( 1 ); for( T const& x: e ) { std::unordered_map<u8, T> m; m.emplace( u8( 4 ), x ); r.push_back( m ); m.emplace( u8( 1 ), e1 ); m.emplace( u8( 9 ), e2 ); r.push_back( m ); } (void)e0; return r; } };
#define WRAP1(W) template<class T> struct val<W<T> > { static std::vector<W<T> > get() { std::vector<W<T> > r; u8 k = 0; for( T const& x: U<T>() ) r.push_back( W<T>( x, k += 91 ) ); return r; } };
WRAP1( DM ) WRAP1( DB ) WRAP1( DP ) WRAP1( DV ) WRAP1( D2 )
template<class T> struct val<DA<T> > { static std::vector<DA<T> > get() { E2 (void)e2; std::vector<DA<T> > r; u8 k = 0; for( T const& x: e ) { k += 91; r.push_back( DA<T>{ { x, e1 }, k } ); r.push_back( DA<T>{ { e0, x }, k } ); } return r; } };
template<class T> struct val<HK<T> > { static std::vector<HK<T> > get() { std::vector<HK<T> > r; u8 k = 0; for( T const& x: U<T>() ) r.push_back( HK<T>{ x, k += 91 } ); return r; } };
template<class T> struct val<DH<T> > { static std::vector<DH<T> > get() { std::vector<DH<T> > r; u8 k = 0; for( HK<T> const& x: val<HK<T> >::get() ) { r.push_back( DH<T>( x, k += 3 ) ); } return r; } };
template<class W, class T> struct vhn { static std::vector<W> get() { E2 std::vector<W> r; for( T const& x: e ) for( unsigned n = 0; n <= 3; ++n ) r.push_back( W{ { x, e2, n & 1? e0: e1 }, n } ); return r; } };
template<class T> struct val<HR<T> >: vhn<HR<T>, T> {}; template<class T> struct val<HS<T> >: vhn<HS<T>, T> {}; template<class T> struct val<HU<T> >: vhn<HU<T>, T> {};
template<class T> struct val<ext::HF<T> > { static std::vector<ext::HF<T> > get() { std::vector<ext::HF<T> > r; for( T const& x: U<T>() ) r.push_back( ext::HF<T>{ x } ); return r; } };
template<class T> struct val<ext::TL<T> > { static std::vector<ext::TL<T> > get() { E2 (void)e2; std::vector<ext::TL<T> > r; u8 k = 0; for( T const& x: e ) { k += 77; r.push_back( ext::TL<T>{ x, k, e1 } ); r.push_back( ext::TL<T>{ e0, k, x } ); } return r; } };

// wrappers ---------------------------------------------------------------------------------
template<class T> using w0 = DM<T>; template<class T> using w1 = DB<T>; template<class T> using w2 = DP<T>; template<class T> using w3 = DV<T>; template<class T> using w4 = D2<T>; template<class T> using w5 = DA<T>;
template<class T> using w6 = HK<T>; template<class T> using w7 = HR<T>; template<class T> using w8 = HS<T>; template<class T> using w9 = HU<T>; template<class T> using w10 = ext::HF<T>; template<class T> using w11 = DH<T>; template<class T> using w12 = ext::TL<T>;
template<class T> using w13 = std::vector<T>; template<class T> using w14 = std::deque<T>; template<class T> using w15 = std::list<T>; template<class T> using w16 = std::array<T, 2>; template<class T> using w17 = boost::array<T, 2>; template<class T> using w18 = std::pair<T, u8>; template<class T> using w19 = std::pair<u8, T>; template<class T> using w20 = std::tuple<T, u8, T>; template<class T> using w21 = std::map<probe, T>; template<class T> using w22 = std::unordered_map<u8, T>;
static char const* const wn[] = { "described", "derived", "priv-derived", "virt-derived", "two-bases", "described-array", "hook", "hook-range", "hook-sized", "hook-unordered", "hook-free", "hook-derived", "tuple-like", "vector", "deque", "list", "array", "boost::array", "pair1", "pair2", "tuple", "map", "unordered_map" };
// depth 3 needs copy-assignable-free types only; all wrappers are copy constructible

template<class H, class F, class T> void one( T const& v, F const& f, char const* tn, std::size_t i, char const* an )
{
    H a( 0x0102030405060708ull ), b( 0x0102030405060708ull ); g_tid = &tid<H, F>::c; g_wrong = 0;
    hh::hash_append( a, f, v ); sp::app<F>( b, v ); hz::trans( 2 );
    auto ra = a.result(), rb = b.result(); ref::res x = to_res( ra ), y = to_res( rb );
    if( x.n != y.n || std::memcmp( x.b, y.b, x.n ) != 0 ) hz::viol( "message", "%s value #%zu with %s: appending gives %s, appending its parts gives %s", tn, i, an, hz::hex( x.b, x.n ).c_str(), hz::hex( y.b, y.n ).c_str() );
    if( g_wrong ) hz::viol( "identity", "%s value #%zu with %s: a nested hook was called with another algorithm or flavor type", tn, i, an );
}
template<class T> void type( std::string const& name )
{
    std::vector<T> all = val<T>::get(); char const* tn = name.c_str();
    if( !hz::g_thorough && all.size() > 12 ) { std::size_t n = all.size(); for( std::size_t i = 0; i < 12; ++i ) hz::trans( 0 ); (void)n; }
    for( std::size_t i = 0; i < all.size(); ++i )
    {
        hz::states(); hz::traces(); hz::cur( "%s #%zu", tn, i );
        for( unsigned s: { 0u, 0xA1B2C3D4u } ) { g_salt = s;
        one<sp::rec>( all[i], sflav<1, std::uint64_t>( s ), tn, i, "recorder/le" ); one<sp::rec2>( all[i], sflav<2, std::uint32_t>( s ), tn, i, "recorder/be32" ); one<hh::fnv1a_64>( all[i], sflav<2, std::uint64_t>( s ), tn, i, "fnv1a_64/be" ); one<hh::hmac_sha2_256>( all[i], sflav<0, std::uint16_t>( s ), tn, i, "hmac_sha2_256/native16" ); }
    }
    hz::sample( "%s: %zu values", tn, all.size() );
}
#ifndef OUTER
# define OUTER 0
#endif
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define EACH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22)
template<class T> using outer = CAT( w, OUTER )<T>;
static std::string nm( int a ) { return std::string( wn[ OUTER ] ) + "<" + wn[a] + "<probe>>"; }
#define D2X(k) UNIT( o##k ) { type<outer<w##k<probe> > >( nm( k ) ); }
#ifdef WSEL
// many components, many elements, deep nesting
template<class T> void wtype( char const* tn, std::size_t cap )
{
    std::vector<T> all = wd::wide<T>::get( cap ); std::size_t want = hz::g_thorough? 1500: 250, step = all.size() > want? all.size() / want: 1; if( step > 1 && step % 2 == 0 ) ++step;
    for( std::size_t i = 0; i < all.size(); i += step )
    {
        hz::states(); hz::traces(); hz::cur( "%s #%zu", tn, i ); T const& v = all[i];
        one<sp::rec>( v, sflav<1, std::uint64_t>( 0 ), tn, i, "recorder/le" ); one<sp::rec2>( v, sflav<2, std::uint32_t>( 0 ), tn, i, "recorder/be32" ); one<hh::fnv1a_64>( v, sflav<2, std::uint64_t>( 0 ), tn, i, "fnv1a_64/be" );
        std::pair<T, probe> p( v, probe{ 3 } ); g_salt = 0x12345678u; one<sp::rec>( p, sflav<0, std::uint16_t>( g_salt ), tn, i, "recorder/native16, in a pair" ); HK<T> h = { v, 9 }; one<sp::rec2>( h, sflav<2, std::uint64_t>( 5 ), tn, i, "recorder/be, in a hook" );
    }
    hz::sample( "%s: %zu wide values", tn, ( all.size() + step - 1 ) / step );
}
#define XW(N,C,...) UNIT( N ) { wtype<__VA_ARGS__>( #N, C ); }
WT2( XW ) WT3( XW )
#define WSEL13(X) X( w_v_d1, 257, std::vector<va::d1> ) X( w_v_pr, 257, std::vector<VP( std::string, va::hook )> ) X( w_ba20d, 0, VBA( va::d3, 20 ) ) X( w_m_d, 129, VM( std::string, va::d1 ) ) X( w_us, 129, VUM( int, va::hook ) ) X( w_ls, 257, std::list<va::hook> )
#define XV_(N,C,...) UNIT( x_##N ) { wtype<__VA_ARGS__>( #N, C ); }
WSEL13( XV_ )
#elif defined(DEEP)
# define IN CAT( w, DEEP )
static std::string nm3( int a ) { return std::string( wn[ OUTER ] ) + "<" + wn[ DEEP ] + "<" + wn[a] + "<probe>>>"; }
# define D3X(k) UNIT( d##k ) { type<outer<IN<w##k<probe> > > >( nm3( k ) ); }
EACH( D3X )
#else
EACH( D2X )
UNIT( leaf ) { type<outer<probe> >( std::string( wn[ OUTER ] ) + "<probe>" ); }
#endif
