#ifndef TOY_HPP
#define TOY_HPP
#include "ref.hpp"
// user-written hashes: a byte-at-a-time toy function with an arbitrary block and digest size
template<unsigned BS, unsigned DS> struct toy_core
{
    std::uint64_t s[3]; 
    toy_core() { s[0] = 0x1234567; s[1] = BS; s[2] = DS; }
    void push( unsigned char c ) { s[0] = ( s[0] ^ c ) * 0x100000001b3ull + 1; s[1] = ( s[1] + s[0] ) ^ ( s[1] >> 7 ); s[2] += s[1] * 31 + c; }
    void upd( void const* pv, std::size_t n ) { unsigned char const* p = (unsigned char const*)pv; for( std::size_t i = 0; i < n; ++i ) push( p[i] ); }
    void fin( unsigned char* out ) { for( unsigned i = 0; i < DS; ++i ) { push( 0x80 ); out[i] = (unsigned char)( s[ i%3 ] >> 24 ); } }
};
template<unsigned BS, unsigned DS, class R> struct toy: toy_core<BS,DS>
{
    using result_type = R;
    static constexpr int block_size = BS;
    toy() {}
    explicit toy( std::uint64_t s ) { if( s ) { this->upd( &s, 8 ); result(); } }
    toy( unsigned char const* p, std::size_t n ) { if( n ) { this->upd( p, n ); result(); } }
    void update( void const* p, std::size_t n ) { this->upd( p, n ); }
    result_type result() { result_type r = {}; this->fin( &r[0] ); return r; }
};
template<unsigned BS, unsigned DS> struct toy_model: toy_core<BS,DS>
{
    static const unsigned block = BS;
    void update( unsigned char const* p, std::size_t n ) { this->upd( p, n ); }
    ref::res result() { ref::res r; r.n = DS; this->fin( r.b ); return r; }
};
#endif
