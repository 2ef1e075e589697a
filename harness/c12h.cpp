// C12, part two: more than 4 GiB of contiguous elements, in every form that can be laid over an untouched mapping.
#define HARNESS_MAIN
#include "common.hpp"
#include "spec.hpp"
#include "iters.hpp"
#include <boost/array.hpp>
#include <array>
#include <sys/mman.h>
struct counting // counts; the content must be zero wherever it is looked at
{
    typedef std::uint64_t result_type; unsigned long long n = 0; bool bad = false;
    void update( void const* p, std::size_t k ) { n += k; unsigned char const* q = (unsigned char const*)p; if( k && ( q[0] | q[k-1] | q[k/2] ) ) bad = true; }
    result_type result() { return n; }
};
struct W { std::uint16_t a, b; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, W const& v ) { hh::hash_append( h, f, v.a ); hh::hash_append( h, f, v.b ); } };
struct W3 { unsigned char a[ 3 ]; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, W3 const& v ) { hh::hash_append( h, f, v.a ); } };
namespace boost { namespace hash2 { template<> struct is_trivially_equality_comparable<W>: std::true_type {}; template<> struct is_trivially_equality_comparable<W3>: std::true_type {}; template<> struct is_endian_independent<W3>: std::true_type {}; } }
enum class E16: std::uint16_t {};
static void is( counting const& h, unsigned long long want, char const* tn, char const* form, std::size_t n )
{
    hz::states(); hz::traces(); hz::trans();
    if( h.n != want || h.bad ) hz::viol( tn, "%s of %zu elements of %s: %llu bytes sent, the elements have %llu%s", form, n, tn, h.n, want, h.bad? "; other content": "" );
}
template<class T, class F, std::size_t N> void go( char const* tn )
{
    std::size_t const B = N * sizeof(T); void* q = mmap( 0, B + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( q == MAP_FAILED ) { hz::g_truncated = true; return; }
    T const* p = (T const*)q; std::size_t const C = typename F::size_type() == 0? sizeof( typename F::size_type ): 0;
    hz::cur( "%s x %zu", tn, N );
    { counting h; hh::hash_append_range( h, F(), p, p + N ); is( h, B, tn, "pointer range", N ); }
    { counting h; hh::hash_append_sized_range( h, F(), p, p + N - 1 ); h.bad = false; is( h, B - sizeof(T) + C, tn, "sized pointer range", N - 1 ); }
    { counting h; it::crange<T> r = { p, N }; hh::hash_append( h, F(), r ); h.bad = false; is( h, B + C, tn, "contiguous range", N ); }
    { counting h; hh::hash_append( h, F(), *(std::array<T, N> const*)q ); is( h, B, tn, "std::array", N ); }
    { counting h; hh::hash_append( h, F(), *(boost::array<T, N - 1> const*)q ); is( h, B - sizeof(T), tn, "boost::array", N - 1 ); }
    { typedef T const (&A)[ N ]; counting h; hh::hash_append( h, F(), (A)*p ); is( h, B, tn, "C array", N ); }
    { typedef T const (&A)[ 2 ][ N / 2 ]; counting h; hh::hash_append( h, F(), (A)*p ); is( h, N / 2 * 2 * sizeof(T), tn, "C array of two arrays", N / 2 ); }
    { it::sized<it::qrange<T>, N> r; r.p = p; r.n = N; counting h; hh::hash_append( h, F(), r ); is( h, B, tn, "user range of constant size", N ); }
    munmap( q, B + 4096 );
}
std::size_t const G = (std::size_t)1 << 30; // elements: a little over 4 GiB of each kind
#define GO(N,T,F,C) UNIT( N ) { go<T, F, C>( #T ); }
GO( u16, std::uint16_t, hh::default_flavor, 2*G + 3 ) GO( u32, std::uint32_t, hh::little_endian_flavor, G + 5 ) GO( u64, std::uint64_t, hh::default_flavor, G/2 + 7 ) GO( i64, long, sp::le32, G/2 + 1 )
GO( e16, E16, hh::default_flavor, 2*G + 2 ) GO( vp, void const*, hh::default_flavor, G/2 + 2 ) GO( w4, W, hh::default_flavor, G + 3 ) GO( w3, W3, hh::big_endian_flavor, G/3*4 + 9 ) GO( u8, unsigned char, hh::big_endian_flavor, 4*G + 9 ) GO( ch, char, hh::default_flavor, 4*G + 1 )
