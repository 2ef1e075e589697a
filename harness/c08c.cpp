// C08, part three: very large counts, over an untouched mapping and a counting algorithm.
#define HARNESS_MAIN
#include "common.hpp"
#include "spec.hpp"
#include "iters.hpp"
#include <sys/mman.h>

struct counting // counts, remembers the last piece
{
    typedef std::uint64_t result_type; unsigned long long n = 0; unsigned char last[ 16 ]; std::size_t ln = 0;
    void update( void const* p, std::size_t k ) { n += k; ln = k <= 16? k: 0; if( ln ) std::memcpy( last, p, ln ); }
    result_type result() { return n; }
};
template<class F> void last_is( counting const& h, unsigned long long body, unsigned long long n, char const* kind )
{
    hz::states(); hz::traces(); hz::trans();
    sp::rec e; sp::size<F>( e, n ); bool ok = h.n == body + e.m.size() && h.ln == e.m.size() && std::memcmp( h.last, e.m.data(), h.ln ) == 0;
    if( !ok ) hz::viol( kind, "%s of %llu elements (%llu bytes): %llu bytes sent, last piece %s, count should be %s", kind, n, body, h.n, hz::hex( h.last, h.ln ).c_str(), hz::hexc( e.m ).c_str() );
}
template<class F> void big()
{
    std::size_t const N = ( 1ull << 32 ) + 4096; // bytes of address space, never touched
    void* q = mmap( 0, N, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( q == MAP_FAILED ) { hz::g_truncated = true; return; }
    unsigned char const* p = (unsigned char const*)q; char const* pc = (char const*)q;
    // (the largest sizes once per form: an implementation without a fast path must still finish)
    std::size_t const ns[] = { 65535, 65536, 65537, ( 1u << 24 ) + 1, 0x80000000u, ( 1ull << 32 ) + 5 };
    for( int i = 0; i < 6; ++i )
    {
        std::size_t n = ns[i]; hz::cur( "big %zu", n );
        if( i != 5 ) { counting h; hh::hash_append_sized_range( h, F(), p, p + n ); last_is<F>( h, n, n, "byte pointer range" ); }
        if( i != 4 ) { counting h; it::crange<unsigned char> r = { p, n }; hh::hash_append( h, F(), r ); last_is<F>( h, n, n, "contiguous byte range" ); }
        if( i != 4 ) { counting h; hh::hash_append_sized_range( h, F(), pc, pc + n ); last_is<F>( h, n, n, "char pointer range" ); }
        if( i < 4 ) { counting h; it::crange<char> r = { pc, n }; hh::hash_append( h, F(), r ); last_is<F>( h, n, n, "contiguous char range" ); }
        if( i < 5 ) { std::size_t m = n / 4; counting h; hh::hash_append_sized_range( h, F(), (std::uint32_t const*)q, (std::uint32_t const*)q + m ); last_is<F>( h, m * 4ull, m, "uint32 pointer range" ); }
        { counting g; it::crange<std::uint64_t> r = { (std::uint64_t const*)q, n / 8 }; hh::hash_append( g, F(), r ); last_is<F>( g, n / 8 * 8ull, n / 8, "contiguous uint64 range" ); }
    }
    munmap( q, N );
}
UNIT( big_default ) { big<hh::default_flavor>(); } UNIT( big_be ) { big<hh::big_endian_flavor>(); } UNIT( big_ne32 ) { big<sp::ne32>(); }
