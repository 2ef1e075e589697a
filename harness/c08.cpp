// C08: the message of a range is that of its elements, in order, then the count. -DELEM=k selects the element type.
#define HARNESS_MAIN
#include "common.hpp"
#include "spec.hpp"
#include "iters.hpp"
#include <boost/describe.hpp>
#include <sys/mman.h>

enum class E16: short { a = 1, b = -2, c = 300 };
struct tagged { unsigned char a; std::string b; friend bool operator==( tagged const& x, tagged const& y ) { return x.a == y.a && x.b == y.b; }
    template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, tagged const& v ) { hh::hash_append( h, f, v.b ); hh::hash_append( h, f, v.a ); } };
struct descr { unsigned char a; std::uint32_t b; }; BOOST_DESCRIBE_STRUCT( descr, (), (a, b) )
namespace sp {
template<> struct S<tagged, void> { template<class F, class H> static void app( H& h, tagged const& v ) { S<std::string>::app<F>( h, v.b ); num<F>( h, v.a, 1 ); } };
template<> struct S<descr, void> { template<class F, class H> static void app( H& h, descr const& v ) { num<F>( h, v.a, 1 ); num<F>( h, v.b, 4 ); } };
}

template<class T> struct alpha; // three distinct element values
#define ALPHA(T,...) template<> struct alpha<T> { static T get( int i ) { static T const a[] = { __VA_ARGS__ }; return a[i]; } };
typedef std::pair<unsigned char, std::uint16_t> PU; typedef std::array<unsigned char, 2> A2; typedef std::tuple<> T0; typedef std::vector<unsigned char> VU; typedef hh::digest<4> D4; typedef int const* IP; typedef std::array<float, 2> AF; typedef std::array<std::uint16_t, 3> A3;
typedef std::tuple<char, double> TCD; typedef std::vector<bool> VB; typedef std::set<int> SI; typedef long double LD;
static int g_ints[ 4 ];
ALPHA( unsigned char, 0, 1, 0xFE ) ALPHA( char, 0, 'x', char(-1) ) ALPHA( signed char, 0, -1, 100 ) ALPHA( std::uint16_t, 0, 0x0102, 0xFFFE ) ALPHA( int, 0, -1, 0x01020304 ) ALPHA( std::uint64_t, 0, 0x0102030405060708ull, ~0ull )
ALPHA( float, 0.0f, -0.0f, 1.5f ) ALPHA( double, -0.0, 2.5, -1.0 ) ALPHA( E16, E16::a, E16::b, E16::c ) ALPHA( IP, nullptr, g_ints, g_ints + 1 ) ALPHA( std::string, "", "a", "ab" ) ALPHA( PU, PU( 0, 0 ), PU( 1, 0x0203 ), PU( 255, 1 ) )
template<> struct alpha<VU> { static VU get( int i ) { VU r; for( int k = 0; k < i; ++k ) r.push_back( (unsigned char)( k ) ); return r; } };
template<> struct alpha<A2> { static A2 get( int i ) { A2 r = {{ (unsigned char)i, (unsigned char)( i*7 ) }}; return r; } };
template<> struct alpha<A3> { static A3 get( int i ) { A3 r = {{ (std::uint16_t)i, (std::uint16_t)( i*700 ), 0x0102 }}; return r; } };
template<> struct alpha<AF> { static AF get( int i ) { AF r = {{ i == 1? -0.0f: (float)i, -0.0f }}; return r; } };
template<> struct alpha<T0> { static T0 get( int ) { return T0(); } };
template<> struct alpha<D4> { static D4 get( int i ) { unsigned char b[4] = { (unsigned char)i, 2, 3, (unsigned char)( i*9 ) }; return D4( b ); } };
template<> struct alpha<tagged> { static tagged get( int i ) { tagged t = { (unsigned char)i, std::string( i, 'q' ) }; return t; } };
template<> struct alpha<descr> { static descr get( int i ) { descr t; std::memset( &t, 0xA0 + i, sizeof t ); t.a = i; t.b = i * 1000003u; return t; } }; // padding differs
template<> struct alpha<TCD> { static TCD get( int i ) { return TCD( (char)i, i == 2? -0.0: i / 3.0 ); } };
template<> struct alpha<VB> { static VB get( int i ) { VB r; for( int k = 0; k < i; ++k ) r.push_back( k & 1 ); return r; } };
template<> struct alpha<SI> { static SI get( int i ) { SI r; for( int k = 0; k < i; ++k ) r.insert( -k ); return r; } };
template<> struct alpha<bool> { static bool get( int i ) { return i & 1; } };
ALPHA( wchar_t, 0, L'x', 0x12345 ) ALPHA( char16_t, 0, u'x', 0x1234 ) ALPHA( char32_t, 0, U'x', 0x12345 )

#ifndef ELEM
# define ELEM unsigned char
#endif
typedef ELEM T;
typedef std::vector<unsigned char> bytes;

struct seq { T* p; std::size_t n; T* stri; }; // contiguous and strided copies
static bytes e_range, e_size;

static char const* g_fl; static std::string g_what;
static void cmp( bytes const& got, bool sized, char const* kind, std::size_t n )
{
    hz::trans();
    bytes e = e_range; if( sized ) e.insert( e.end(), e_size.begin(), e_size.end() );
    if( got != e ) hz::viol( kind, "%s of %zu elements %s, flavor %s: sent %s, elements%s are %s", kind, n, g_what.c_str(), g_fl, hz::hexc( got ).c_str(), sized? " and count": "", hz::hexc( e ).c_str() );
}
template<class F, class C> void obj( C const& c, bool sized, char const* kind, std::size_t n ) { cmp( sp::lib<F>( c ), sized, kind, n ); }
template<class F, class C> void mobj( C& c, bool sized, char const* kind, std::size_t n ) { sp::rec2 h; hh::hash_append( h, F(), c ); cmp( h.m, sized, kind, n ); }
template<class F, class It> void rng( It a, It b, char const* kind, std::size_t n )
{
    sp::rec h; hh::hash_append_range( h, F(), a, b ); cmp( h.m, false, kind, n );
    sp::rec2 g; hh::hash_append_sized_range( g, F(), a, b ); cmp( g.m, true, kind, n );
    sp::rec k; hh::hash_append_range( k, F(), a, b ); hh::hash_append_size( k, F(), n ); cmp( k.m, true, kind, n );
}
template<class U> struct charlike: std::integral_constant<bool, std::is_same<U, char>::value || std::is_same<U, wchar_t>::value || std::is_same<U, char16_t>::value || std::is_same<U, char32_t>::value> {};
template<class F, class U> typename std::enable_if<charlike<U>::value>::type strings( U const* p, std::size_t n )
{
    std::basic_string<U> s( p, n ); obj<F>( s, true, "basic_string", n );
    std::basic_string<U> t( p, n ); t.reserve( 300 ); obj<F>( t, true, "basic_string with capacity", n );
    std::basic_string<U> u( 40, U( 'y' ) ); u.assign( p, n ); obj<F>( u, true, "basic_string reused heap", n );
    std::basic_string<U, std::char_traits<U>, it::galloc<U> > w( p, n ); obj<F>( w, true, "basic_string other allocator", n );
    mobj<F>( s, true, "basic_string lvalue", n ); rng<F>( s.begin(), s.end(), "string iterators", n );
#if __cplusplus >= 201703L
    std::basic_string_view<U> v( p, n ); obj<F>( v, true, "basic_string_view", n );
#endif
}
template<class F, class U> typename std::enable_if<!charlike<U>::value>::type strings( U const*, std::size_t ) {}

template<class F, std::size_t N> void arrays( seq const& s )
{
    std::array<T, N> a = {}; boost::array<T, N> b = {}; T c[ N? N: 1 ] = {};
    for( std::size_t i = 0; i < N; ++i ) { a[i] = s.p[i]; b[i] = s.p[i]; c[i] = s.p[i]; }
    obj<F>( a, false, "std::array", N ); obj<F>( b, false, "boost::array", N ); mobj<F>( a, false, "std::array lvalue", N ); rng<F>( a.begin(), a.end(), "std::array iterators", N ); rng<F>( b.begin(), b.end(), "boost::array iterators", N );
    if( N ) { obj<F>( c, false, "C array", N ); mobj<F>( c, false, "C array lvalue", N ); T const (&cc)[ N? N: 1 ] = c; obj<F>( cc, false, "const C array", N ); }
    std::array<T const, N? N: 1>* q = 0; (void)q;
}
// user ranges of constant size: no count
template<class F, class R> R ur( seq const& s ) { R r; r.p = s.p; r.n = s.n; return r; }
template<class F, std::size_t N> void constant( seq const& s )
{
    obj<F>( ur<F, it::sized<it::qrange<T>, N> >( s ), false, "user contiguous range of constant size", N ); obj<F>( ur<F, it::tsized<it::qrange<T>, N> >( s ), false, "user contiguous range with tuple_size", N );
    obj<F>( ur<F, it::sized<it::frange<T>, N> >( s ), false, "user forward range of constant size", N ); obj<F>( ur<F, it::tsized<it::frange<T>, N> >( s ), false, "user forward range with tuple_size", N );
    obj<F>( ur<F, it::sized<it::brange<T>, N> >( s ), false, "user bidirectional range of constant size", N ); it::sized<it::srange<T>, N> r; r.p = s.stri; r.n = N; obj<F>( r, false, "user strided range of constant size", N ); mobj<F>( r, false, "user strided range of constant size, lvalue", N );
}
template<class F> void arrays0( seq const& )
{
    std::array<T, 0> a; boost::array<T, 0> b; bytes z( 1, 0 ); hz::trans( 2 );
    if( sp::lib<F>( a ) != z || sp::lib<F>( b ) != z ) hz::viol( "array0", "zero-sized array does not send one zero byte, flavor %s", g_fl );
}


template<class F> void sequence( seq const& s, char const* fl )
{
    std::size_t n = s.n; T const* p = s.p; g_fl = fl;
    // expected, from the specification of elements and counts alone
    { sp::rec h; for( std::size_t i = 0; i < n; ++i ) sp::app<F>( h, p[i] ); e_range = h.m; sp::rec g; sp::size<F>( g, n ); e_size = g.m; }
    hz::cur( "%s n=%zu flavor %s", g_what.c_str(), n, fl );
    hz::states(); hz::traces();
    typedef std::vector<T> V;
    V v( p, p + n );
    {
        obj<F>( v, true, "vector", n ); mobj<F>( v, true, "vector lvalue", n );
        rng<F>( v.begin(), v.end(), "vector iterators", n ); rng<F>( v.cbegin(), v.cend(), "vector const_iterators", n );
        V w( v ); w.reserve( 100 ); obj<F>( w, true, "vector with capacity", n );
        w.push_back( alpha<T>::get( 1 ) ); w.pop_back(); obj<F>( w, true, "vector after push/pop", n );
        w.insert( w.begin(), alpha<T>::get( 2 ) ); w.erase( w.begin() ); obj<F>( w, true, "vector after insert/erase", n );
        V x( std::move( w ) ); obj<F>( x, true, "moved vector", n );
        std::vector<T, it::galloc<T> > y( p, p + n, it::galloc<T>( 3 ) ); obj<F>( y, true, "vector with other allocator", n ); rng<F>( y.begin(), y.end(), "vector with other allocator, iterators", n );
        V r( v.rbegin(), v.rend() ); rng<F>( r.rbegin(), r.rend(), "reverse iterators", n ); rng<F>( r.crbegin(), r.crend(), "const reverse iterators", n );
    }
    {
        std::deque<T> d( p, p + n ); obj<F>( d, true, "deque", n ); mobj<F>( d, true, "deque lvalue", n ); rng<F>( d.begin(), d.end(), "deque iterators", n ); rng<F>( d.cbegin(), d.cend(), "deque const_iterators", n );
        std::deque<T> e; for( std::size_t i = n; i > 0; --i ) e.push_front( p[ i-1 ] ); obj<F>( e, true, "deque built from the front", n );
        for( std::size_t m = 0; m <= n; ++m ) { std::deque<T> g; for( std::size_t i = m; i > 0; --i ) g.push_front( p[ i-1 ] ); for( std::size_t i = m; i < n; ++i ) g.push_back( p[i] ); obj<F>( g, true, "deque built from both ends", n ); rng<F>( g.begin(), g.end(), "deque built from both ends, iterators", n ); }
        for( int k = 0; k < 70; ++k ) { e.push_back( alpha<T>::get( 2 ) ); e.push_back( alpha<T>::get( 1 ) ); } for( int k = 0; k < 140; ++k ) e.pop_back(); obj<F>( e, true, "deque after growth", n );
    }
    {
        std::list<T> l( p, p + n ); obj<F>( l, true, "list", n ); mobj<F>( l, true, "list lvalue", n ); rng<F>( l.begin(), l.end(), "list iterators", n ); rng<F>( l.cbegin(), l.cend(), "list const_iterators", n );
        std::list<T> r( v.rbegin(), v.rend() ); rng<F>( r.rbegin(), r.rend(), "list reverse iterators", n ); r.reverse(); obj<F>( r, true, "reversed list", n );
        std::list<T> a( p, p + n / 2 ), b( p + n / 2, p + n ); a.splice( a.end(), b ); obj<F>( a, true, "spliced list", n ); obj<F>( std::list<T>( a ), true, "copied list", n );
        std::forward_list<T> f( p, p + n ); obj<F>( f, true, "forward_list", n ); mobj<F>( f, true, "forward_list lvalue", n ); rng<F>( f.begin(), f.end(), "forward_list iterators", n );
        std::forward_list<T> g; for( std::size_t i = n; i > 0; --i ) g.push_front( p[ i-1 ] ); obj<F>( g, true, "forward_list built from the front", n );
    }
    {
        it::crange<T> c = { p, n }; obj<F>( c, true, "user contiguous range", n ); mobj<F>( c, true, "user contiguous range lvalue", n );
        it::frange<T> f = { p, n }; obj<F>( f, true, "user forward range", n ); it::brange<T> b = { p, n }; obj<F>( b, true, "user bidirectional range", n );
        it::srange<T> r = { s.stri, n }; obj<F>( r, true, "user strided range", n ); rng<F>( r.begin(), r.end(), "strided iterators", n );
        rng<F>( f.begin(), f.end(), "forward iterators", n ); rng<F>( b.begin(), b.end(), "bidirectional iterators", n );
        rng<F>( std::reverse_iterator<std::reverse_iterator<it::bidi<T> > >( std::reverse_iterator<it::bidi<T> >( b.begin() ) ), std::reverse_iterator<std::reverse_iterator<it::bidi<T> > >( std::reverse_iterator<it::bidi<T> >( b.end() ) ), "double reverse iterators", n );
        rng<F>( p, p + n, "pointers to const", n ); rng<F>( s.p, s.p + n, "pointers", n );
        rng<F>( it::prox<T, std::random_access_iterator_tag>( p ), it::prox<T, std::random_access_iterator_tag>( p + n ), "random access proxies", n );
        rng<F>( it::prox<T, std::forward_iterator_tag>( p ), it::prox<T, std::forward_iterator_tag>( p + n ), "forward proxies", n );
        rng<F>( it::prox<T, std::input_iterator_tag>( p ), it::prox<T, std::input_iterator_tag>( p + n ), "input proxies", n );
        typedef it::input<T> in;
        { it::src<T> q = { p, p + n }; sp::rec h; hh::hash_append_range( h, F(), in( &q ), in() ); cmp( h.m, false, "single-pass iterators", n ); }
        { it::src<T> q = { p, p + n }; sp::rec h; hh::hash_append_sized_range( h, F(), in( &q ), in() ); cmp( h.m, true, "single-pass iterators, sized", n ); }
    }
    strings<F>( p, n );
    switch( n )
    {
    case 0: arrays0<F>( s ); break; case 1: arrays<F, 1>( s ); constant<F, 1>( s ); break; case 2: arrays<F, 2>( s ); constant<F, 2>( s ); break; case 3: arrays<F, 3>( s ); constant<F, 3>( s ); break; case 4: arrays<F, 4>( s ); constant<F, 4>( s ); break; case 5: arrays<F, 5>( s ); constant<F, 5>( s ); break;
    case 17: arrays<F, 17>( s ); constant<F, 17>( s ); break; default: break;
    }
}
static void all_flavors( seq const& s )
{
    sequence<hh::default_flavor>( s, "default" ); sequence<hh::little_endian_flavor>( s, "little" ); sequence<hh::big_endian_flavor>( s, "big" ); sequence<sp::be32>( s, "be32" ); sequence<sp::le32>( s, "le32" );
}
struct buf
{
    T* p; T* q; std::size_t n;
    explicit buf( std::size_t k ): p( new T[ k + 1 ]() ), q( new T[ 2*k + 2 ]() ), n( k ) {}
    ~buf() { delete[] p; delete[] q; }
    void set( std::size_t i, T const& v, T const& other ) { p[i] = v; q[ 2*i ] = v; q[ 2*i+1 ] = other; }
    seq get() { seq s = { p, n, q }; return s; }
};
// every sequence over three elements, up to the bound
template<int N> void small()
{
    std::size_t total = 1; for( int i = 0; i < N; ++i ) total *= 3;
    for( std::size_t x = 0; x < total; ++x )
    {
        buf b( N ); std::size_t y = x; g_what = "[";
        for( int i = 0; i < N; ++i ) { b.set( i, alpha<T>::get( y % 3 ), alpha<T>::get( ( y + 1 ) % 3 ) ); g_what += char( '0' + y % 3 ); y /= 3; }
        g_what += "]"; all_flavors( b.get() );
    }
    if( N == 3 ) hz::sample( "3 elements %s big: %s + count %s", g_what.c_str(), hz::hexc( e_range ).c_str(), hz::hexc( e_size ).c_str() );
}
UNIT( len0_3 ) { small<0>(); small<1>(); small<2>(); small<3>(); } UNIT( len4 ) { small<4>(); }
UNIT( len5 ) { small<5>(); }
UNIT( len6 ) { if( hz::g_thorough ) { small<6>(); small<7>(); } hz::states(); hz::trans(); hz::traces(); }
// longer ones: every length to 70, and the lengths around 2^8 and 2^16
static void longer( std::size_t n )
{
    buf b( n ); for( std::size_t i = 0; i < n; ++i ) b.set( i, alpha<T>::get( ( i*i + i/3 ) % 3 ), alpha<T>::get( ( i*i + i/3 + 1 ) % 3 ) );
    g_what = "(pattern)"; all_flavors( b.get() );
}
UNIT( lengths ) { for( std::size_t n = 0; n <= ( hz::g_thorough? 300u: 40u ); ++n ) longer( n ); longer( 64 ); for( std::size_t n = 255; n <= 257; ++n ) longer( n ); }

// containers by history: every operation sequence over the alphabet up to a depth, message compared with that of a plain list of the same elements
template<class F> static bytes expect( std::vector<T> const& m ) { sp::rec h; for( std::size_t i = 0; i < m.size(); ++i ) { T const& v = m[i]; sp::app<F>( h, v ); } sp::size<F>( h, m.size() ); return h.m; }
template<class C> struct hist
{
    int depth; char const* kind; std::string path;
    template<class F> void check( C const& c, std::vector<T> const& m, char const* fl )
    {
        hz::trans(); bytes g = sp::lib<F>( c ), e = expect<F>( m );
        if( g != e ) hz::viol( kind, "%s after operations %s, flavor %s: sent %s, expected %s", kind, path.c_str(), fl, hz::hexc( g ).c_str(), hz::hexc( e ).c_str() );
    }
    void go( C const& c, std::vector<T> const& m, int d )
    {
        hz::states(); hz::cur( "%s ops %s", kind, path.c_str() );
        check<hh::little_endian_flavor>( c, m, "little" ); check<sp::be32>( c, m, "be32" ); if( d == 0 ) { hz::traces(); return; }
        for( int op = 0; op < ops( c ); ++op ) { C c2( c ); std::vector<T> m2( m ); if( !step( c2, m2, op ) ) continue; path += char( 'a' + op ); go( c2, m2, d - 1 ); path.pop_back(); }
    }
    template<class A> static int ops( std::vector<T, A> const& ) { return 8; } static int ops( std::deque<T> const& ) { return 6; } static int ops( std::list<T> const& ) { return 7; } static int ops( std::forward_list<T> const& ) { return 5; }
    static T const A( int i ) { return alpha<T>::get( i ); }
    template<class Al> static bool step( std::vector<T, Al>& c, std::vector<T>& m, int op )
    {
        switch( op )
        {
        case 0: c.push_back( A( 1 ) ); m.push_back( A( 1 ) ); return true;
        case 1: c.push_back( A( 2 ) ); m.push_back( A( 2 ) ); return true;
        case 2: if( m.empty() ) return false; c.pop_back(); m.pop_back(); return true;
        case 3: if( m.empty() ) return false; c.erase( c.begin() ); m.erase( m.begin() ); return true;
        case 4: c.insert( c.begin(), A( 2 ) ); m.insert( m.begin(), A( 2 ) ); return true;
        case 5: c.reserve( c.capacity() + 3 ); return true;
        case 6: c.resize( c.size() + 2, A( 1 ) ); m.resize( m.size() + 2, A( 1 ) ); return true;
        default: c.clear(); m.clear(); return true;
        }
    }
    static bool step( std::deque<T>& c, std::vector<T>& m, int op )
    {
        switch( op )
        {
        case 0: c.push_back( A( 1 ) ); m.push_back( A( 1 ) ); return true;
        case 1: c.push_front( A( 2 ) ); m.insert( m.begin(), A( 2 ) ); return true;
        case 2: if( m.empty() ) return false; c.pop_back(); m.pop_back(); return true;
        case 3: if( m.empty() ) return false; c.pop_front(); m.erase( m.begin() ); return true;
        case 4: for( int k = 0; k < 40; ++k ) { c.push_front( A( k % 3 ) ); m.insert( m.begin(), A( k % 3 ) ); } return true;
        default: c.clear(); m.clear(); return true;
        }
    }
    static bool step( std::list<T>& c, std::vector<T>& m, int op )
    {
        switch( op )
        {
        case 0: c.push_back( A( 1 ) ); m.push_back( A( 1 ) ); return true;
        case 1: c.push_front( A( 2 ) ); m.insert( m.begin(), A( 2 ) ); return true;
        case 2: if( m.empty() ) return false; c.pop_back(); m.pop_back(); return true;
        case 3: if( m.empty() ) return false; c.pop_front(); m.erase( m.begin() ); return true;
        case 4: c.reverse(); m = std::vector<T>( m.rbegin(), m.rend() ); return true;
        case 5: c.splice( c.begin(), c, c.size()? std::prev( c.end() ): c.end() ); if( !m.empty() ) { T t = m.back(); m.pop_back(); m.insert( m.begin(), t ); } return !m.empty();
        default: c.insert( c.begin(), 2, A( 0 ) ); m.insert( m.begin(), 2, A( 0 ) ); return true;
        }
    }
    static bool step( std::forward_list<T>& c, std::vector<T>& m, int op )
    {
        switch( op )
        {
        case 0: c.push_front( A( 1 ) ); m.insert( m.begin(), A( 1 ) ); return true;
        case 1: c.push_front( A( 2 ) ); m.insert( m.begin(), A( 2 ) ); return true;
        case 2: if( m.empty() ) return false; c.pop_front(); m.erase( m.begin() ); return true;
        case 3: c.reverse(); m = std::vector<T>( m.rbegin(), m.rend() ); return true;
        default: c.clear(); m.clear(); return true;
        }
    }
};
template<class C> void run_hist( char const* kind, int d ) { hist<C> h; h.kind = kind; h.go( C(), std::vector<T>(), d + ( hz::g_thorough? 2: 0 ) ); }
UNIT( hist_vector ) { run_hist<std::vector<T> >( "vector history", 4 ); } UNIT( hist_deque ) { run_hist<std::deque<T> >( "deque history", 4 ); }
UNIT( hist_list ) { run_hist<std::list<T> >( "list history", 4 ); } UNIT( hist_flist ) { run_hist<std::forward_list<T> >( "forward_list history", 5 ); }
