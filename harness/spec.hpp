// Independent specification of the message of a value, written from the documentation
// (hashing_objects.adoc, reference/hash_append.adoc) without using the library's traits or
// append functions. S<T>::app<F>( h, v ) feeds the message of v under flavor F to h, one
// byte-exact piece at a time, through h.update only.
#pragma once
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/flavor.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/array.hpp>
#include <array>
#include <cstdint>
#include <cstring>
#include <deque>
#include <forward_list>
#include <initializer_list>
#include <list>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <iterator>
#include <type_traits>
#if __cplusplus >= 201703L
# include <string_view>
#endif

namespace hh = boost::hash2;

namespace sp {

inline bool machine_little() { unsigned x = 1; unsigned char c; std::memcpy( &c, &x, 1 ); return c == 1; }
template<class F> inline bool little() { return F::byte_order == hh::endian::little? true: F::byte_order == hh::endian::big? false: machine_little(); }
// explicit flavors must agree with the machine where they claim to
template<class F, class H> inline void num( H& h, unsigned long long x, unsigned n )
{
    unsigned char b[ 16 ];
    for( unsigned i = 0; i < n; ++i ) b[ little<F>()? i: n - 1 - i ] = (unsigned char)( i < 8? x >> ( 8 * i ): 0 );
    h.update( b, n );
}
template<class H> inline void zero( H& h ) { unsigned char b[ 1 ] = { 0 }; h.update( b, 1 ); }
template<class F, class H> inline void size( H& h, unsigned long long n ) { num<F>( h, n, sizeof( typename F::size_type ) ); }

template<class T, class = void> struct S; // specialised below; user types add theirs

template<class F, class H, class T> inline void app( H& h, T const& v ) { S<T>::template app<F>( h, v ); }

template<class T> struct S<T, typename std::enable_if<std::is_integral<T>::value>::type>
{
    template<class F, class H> static void app( H& h, T const& v ) { num<F>( h, (unsigned long long)v, sizeof(T) ); }
};
template<class T> struct S<T, typename std::enable_if<std::is_enum<T>::value>::type>
{
    template<class F, class H> static void app( H& h, T const& v ) { num<F>( h, (unsigned long long)(typename std::underlying_type<T>::type)v, sizeof(T) ); }
};
template<class T> struct S<T*, void>
{
    template<class F, class H> static void app( H& h, T* const& v ) { std::uintptr_t u; std::memcpy( &u, &v, sizeof u ); num<F>( h, u, sizeof u ); }
};
template<> struct S<std::nullptr_t, void>
{
    template<class F, class H> static void app( H& h, std::nullptr_t const& ) { num<F>( h, 0, sizeof(void*) ); }
};
template<> struct S<float, void>
{
    template<class F, class H> static void app( H& h, float const& v ) { std::uint32_t u; std::memcpy( &u, &v, 4 ); if( u == 0x80000000u ) u = 0; num<F>( h, u, 4 ); }
};
template<> struct S<double, void>
{
    template<class F, class H> static void app( H& h, double const& v ) { std::uint64_t u; std::memcpy( &u, &v, 8 ); if( u == 0x8000000000000000ull ) u = 0; num<F>( h, u, 8 ); }
};

// elements of a sequence, in order; returns the count
template<class V, class F, class H, class C> inline std::size_t elems( H& h, C const& c )
{
    std::size_t n = 0;
    for( auto i = c.begin(); i != c.end(); ++i, ++n ) { V const& v = *i; S<typename std::remove_cv<V>::type>::template app<F>( h, v ); }
    return n;
}
template<class C> struct Sseq
{
    template<class F, class H> static void app( H& h, C const& v ) { std::size_t n = elems<typename C::value_type, F>( h, v ); size<F>( h, n ); }
};
template<class T, class A> struct S<std::vector<T, A>, void>: Sseq<std::vector<T, A> > {};
template<class T, class A> struct S<std::deque<T, A>, void>: Sseq<std::deque<T, A> > {};
template<class T, class A> struct S<std::list<T, A>, void>: Sseq<std::list<T, A> > {};
template<class T, class A> struct S<std::forward_list<T, A>, void>: Sseq<std::forward_list<T, A> > {};
template<class T, class C, class A> struct S<std::set<T, C, A>, void>: Sseq<std::set<T, C, A> > {};
template<class T, class C, class A> struct S<std::multiset<T, C, A>, void>: Sseq<std::multiset<T, C, A> > {};
template<class K, class T, class C, class A> struct S<std::map<K, T, C, A>, void>: Sseq<std::map<K, T, C, A> > {};
template<class K, class T, class C, class A> struct S<std::multimap<K, T, C, A>, void>: Sseq<std::multimap<K, T, C, A> > {};
template<class Ch, class Tr, class A> struct S<std::basic_string<Ch, Tr, A>, void>: Sseq<std::basic_string<Ch, Tr, A> > {};
template<class T> struct S<std::initializer_list<T>, void>: Sseq<std::initializer_list<T> > {};
#if __cplusplus >= 201703L
template<class Ch, class Tr> struct S<std::basic_string_view<Ch, Tr>, void>: Sseq<std::basic_string_view<Ch, Tr> > {};
#endif

template<class T, std::size_t N> struct S<T[N], void>
{
    template<class F, class H> static void app( H& h, T const (&v)[N] ) { for( std::size_t i = 0; i < N; ++i ) S<typename std::remove_cv<T>::type>::template app<F>( h, v[i] ); }
};
template<class C, std::size_t N> struct Sarr
{
    template<class F, class H> static void app( H& h, C const& v ) { if( N == 0 ) zero( h ); else elems<typename C::value_type, F>( h, v ); }
};
template<class T, std::size_t N> struct S<std::array<T, N>, void>: Sarr<std::array<T, N>, N> {};
template<class T, std::size_t N> struct S<boost::array<T, N>, void>: Sarr<boost::array<T, N>, N> {};
template<std::size_t N> struct S<hh::digest<N>, void>: Sarr<hh::digest<N>, N> {};

template<class V, class F, class H, class It> inline void unordered( H& h, It first, It last )
{
    std::uint64_t w = 0; std::size_t n = 0;
    for( ; first != last; ++first, ++n )
    {
        H h2( h ); V const& v = *first; S<typename std::remove_cv<V>::type>::template app<F>( h2, v );
        w += hh::get_integral_result<std::uint64_t>( h2.result() );
    }
    num<F>( h, w, 8 ); size<F>( h, n );
}
template<class C> struct Sunord
{
    template<class F, class H> static void app( H& h, C const& v ) { unordered<typename C::value_type, F>( h, v.begin(), v.end() ); }
};
template<class T, class Hs, class E, class A> struct S<std::unordered_set<T, Hs, E, A>, void>: Sunord<std::unordered_set<T, Hs, E, A> > {};
template<class T, class Hs, class E, class A> struct S<std::unordered_multiset<T, Hs, E, A>, void>: Sunord<std::unordered_multiset<T, Hs, E, A> > {};
template<class K, class T, class Hs, class E, class A> struct S<std::unordered_map<K, T, Hs, E, A>, void>: Sunord<std::unordered_map<K, T, Hs, E, A> > {};
template<class K, class T, class Hs, class E, class A> struct S<std::unordered_multimap<K, T, Hs, E, A>, void>: Sunord<std::unordered_multimap<K, T, Hs, E, A> > {};

template<class A, class B> struct S<std::pair<A, B>, void>
{
    template<class F, class H> static void app( H& h, std::pair<A, B> const& v ) { S<typename std::remove_cv<A>::type>::template app<F>( h, v.first ); S<typename std::remove_cv<B>::type>::template app<F>( h, v.second ); }
};
template<std::size_t I, class Tup, bool End = ( I == std::tuple_size<Tup>::value )> struct Stup
{
    template<class F, class H> static void app( H& h, Tup const& v )
    {
        S<typename std::remove_cv<typename std::remove_reference<typename std::tuple_element<I, Tup>::type>::type>::type>::template app<F>( h, std::get<I>( v ) );
        Stup<I + 1, Tup>::template app<F>( h, v );
    }
};
template<std::size_t I, class Tup> struct Stup<I, Tup, true> { template<class F, class H> static void app( H&, Tup const& ) {} };
template<class... T> struct S<std::tuple<T...>, void>
{
    template<class F, class H> static void app( H& h, std::tuple<T...> const& v ) { if( sizeof...(T) == 0 ) zero( h ); else Stup<0, std::tuple<T...> >::template app<F>( h, v ); }
};

// ---- flavors -------------------------------------------------------------------
struct le32 { typedef std::uint32_t size_type; static constexpr auto byte_order = hh::endian::little; };
struct be32 { typedef std::uint32_t size_type; static constexpr auto byte_order = hh::endian::big; };
struct ne32 { typedef std::uint32_t size_type; static constexpr auto byte_order = hh::endian::native; };

// ---- recording algorithms --------------------------------------------------------
// rec: records the message; conforming, minimal (untyped update only)
inline std::uint64_t mix( unsigned char const* p, std::size_t n, std::uint64_t s )
{
    std::uint64_t a = 0x9E3779B97F4A7C15ull ^ s;
    for( std::size_t i = 0; i < n; ++i ) { a ^= p[i]; a *= 0xBF58476D1CE4E5B9ull; a ^= a >> 31; }
    a ^= n; a *= 0x94D049BB133111EBull; a ^= a >> 29; a *= 0xBF58476D1CE4E5B9ull; a ^= a >> 32;
    return a;
}
struct rec
{
    typedef std::uint64_t result_type;
    std::vector<unsigned char> m; unsigned long long calls = 0, live = 0; // live: calls with n > 0
    rec() {}
    explicit rec( std::uint64_t s ) { for( int i = 0; s && i < 8; ++i ) m.push_back( (unsigned char)( s >> 8*i ) ); }
    rec( unsigned char const* p, std::size_t n ): m( p, p + n ) {}
    void update( void const* p, std::size_t n ) { ++calls; if( n ) { ++live; unsigned char const* q = (unsigned char const*)p; m.insert( m.end(), q, q + n ); } }
    result_type result() { result_type r = mix( m.data(), m.size(), 1 ); m.push_back( 0x5A ); return r; }
};
// rec2: like rec, with the byte-pointer overload too
struct rec2: rec
{
    rec2() {} explicit rec2( std::uint64_t s ): rec( s ) {} rec2( unsigned char const* p, std::size_t n ): rec( p, n ) {}
    void update( void const* p, std::size_t n ) { rec::update( p, n ); }
    void update( unsigned char const* p, std::size_t n ) { rec::update( p, n ); }
};

template<class F, class T> inline std::vector<unsigned char> lib( T const& v ) { rec h; hh::hash_append( h, F(), v ); return h.m; }
template<class F, class T> inline std::vector<unsigned char> mod( T const& v ) { rec h; app<F>( h, v ); return h.m; }

} // namespace sp
