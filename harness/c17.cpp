// C17 (algorithms): operation sequences under the sanitizers, with exact-size buffers.
#define HARNESS_MAIN
#include "explore.hpp"
#include "toy.hpp"
#include <array>
#include <sys/mman.h>
typedef unsigned char u8;

// input of exactly n bytes at alignment a, ending at the end of a heap block; content i*59+c
struct exact { u8* b; u8* p; std::size_t n; exact( std::size_t n_, unsigned a, int c = 1 ): b( (u8*)std::malloc( n_ + a? n_ + a: 1 ) ), p( b + a ), n( n_ ) { if( !( n_ + a ) ) p = b + 1; for( std::size_t i = 0; i < n; ++i ) p[i] = (u8)( i * 59 + c ); } ~exact() { std::free( b ); } };
// input in read-only pages, surrounded by inaccessible ones
struct pages
{
    u8* m; std::size_t len; static std::size_t const PG = 4096;
    explicit pages( std::size_t k ): len( k ) { m = (u8*)mmap( nullptr, ( k + 2 ) * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); for( std::size_t i = 0; i < k * PG; ++i ) m[ PG + i ] = (u8)( i * 59 + 1 ); mprotect( m, PG, PROT_NONE ); mprotect( m + PG, k * PG, PROT_READ ); mprotect( m + PG + k * PG, PG, PROT_NONE ); }
    ~pages() { munmap( m, ( len + 2 ) * PG ); }
    u8 const* front() const { return m + PG; } u8 const* back( std::size_t n ) const { return m + PG + len * PG - n; }
};
template<class H, class M, unsigned B> struct san
{
    char const* name;
    struct obj { H* h; obj(): h( new H ) {} explicit obj( H* q ): h( q ) {} ~obj() { delete h; } obj( obj const& r ): h( new H( *r.h ) ) {} };
    void expect( H& h, M& m, char const* what ) { ref::res r = to_res( h.result() ), e = m.result(); hz::trans(); if( r != e ) hz::viol( name, "%s: result %s, want %s (%s)", name, hx( r ), hx( e ), what ); }
    // every fill level x every piece length
    void grid()
    {
        std::size_t const F = B, P = hz::g_thorough? 3*B + 3: B + 3;
        for( std::size_t f = 0; f <= F; ++f )
        {
            exact a( f, (unsigned)( f % 16 ) ); obj o; M m; o.h->update( a.p, f ); m.update( a.p, f );
            for( std::size_t k = 0; k <= P; ++k )
            {
                hz::cur( "%s: update(%zu) update(%zu) result", name, f, k ); exact b( k, (unsigned)( ( f + k ) % 16 ), 7 ); obj c( o ); M n( m ); hz::states(); hz::traces(); hz::trans();
                if( k & 1 ) c.h->update( (void const*)b.p, k ); else c.h->update( b.p, k );
                n.update( b.p, k ); expect( *c.h, n, "grid" );
                for( std::size_t i = 0; i < k; ++i ) if( b.p[i] != (u8)( i * 59 + 7 ) ) { hz::viol( name, "%s: update wrote to its input", name ); break; }
            }
        }
    }
    // every alignment of short and block-sized pieces, in heap blocks and at page ends
    void align()
    {
        pages pg( 1 );
        for( unsigned a = 0; a < 32; ++a ) for( std::size_t n = 0; n <= 2*B + 9; n += ( n < 20 || n + 9 > B? 1: 5 ) )
        {
            hz::cur( "%s: aligned %u update(%zu)", name, a, n ); exact b( n, a ); obj o; M m; o.h->update( b.p, n ); m.update( b.p, n ); hz::states(); hz::traces(); hz::trans(); expect( *o.h, m, "alignment" );
            if( a == 0 || a + n < 64 )
            {
                obj x, y; M q; hz::cur( "%s: page end - %u, update(%zu)", name, a, n ); x.h->update( pg.back( n ), n ); q.update( pg.back( n ), n ); expect( *x.h, q, "page end" ); M q2;
                y.h->update( (void const*)( pg.front() + a ), n ); q2.update( pg.front() + a, n ); expect( *y.h, q2, "page front" ); hz::trans( 2 );
                H k( pg.back( n ), n ); M mk( pg.back( n ), n ); expect( k, mk, "seed at page end" ); H k2( pg.front(), n ); M mk2( pg.front(), n ); expect( k2, mk2, "seed at page front" );
            }
        }
    }
    // constructions from exact buffers, null pointers
    void seeds()
    {
        for( std::size_t k = 0; k <= 2*B + 17; ++k ) for( unsigned a = 0; a < 9; a += ( k < 20? 1: 4 ) )
        { hz::cur( "%s: seed of %zu bytes at %u", name, k, a ); exact b( k, a ); obj o( new H( b.p, k ) ); M m( b.p, k ); hz::states(); hz::traces(); hz::trans( 2 ); expect( *o.h, m, "byte seed" ); expect( *o.h, m, "byte seed, second result" ); }
        for( int i = 0; i < 64; ++i ) { std::uint64_t s = 1ull << i; hz::cur( "%s: seed 2^%d", name, i ); obj o( new H( s ) ), q( new H( ~s ) ); M m( s ), n( ~s ); expect( *o.h, m, "integer seed" ); expect( *q.h, n, "integer seed" ); hz::states( 2 ); }
        hz::cur( "%s: null pointers", name );
        { obj o( new H( (u8 const*)nullptr, 0 ) ); M m; o.h->update( (u8 const*)nullptr, 0 ); o.h->update( (void const*)nullptr, 0 ); expect( *o.h, m, "null pointers" ); o.h->update( (void const*)nullptr, 0 ); expect( *o.h, m, "null pointers" ); }
        for( std::size_t f = 0; f <= B; ++f ) { hz::cur( "%s: null update at fill %zu", name, f ); exact a( f, 0 ); obj o; M m; o.h->update( a.p, f ); m.update( a.p, f ); o.h->update( (u8 const*)nullptr, 0 ); o.h->update( (void const*)nullptr, 0 ); expect( *o.h, m, "null update" ); hz::states(); }
    }
    // all histories over a piece alphabet, to a depth
    std::vector<std::size_t> al; std::vector<exact*> in;
    void rec( H const& h, M const& m, int depth, int a )
    {
        hz::states(); hz::traces();
        if( !depth ) { H c( h ); M n( m ); expect( c, n, "history" ); return; }
        { H c( h ); M n( m ); expect( c, n, "history" ); H d; d = c; rec( d, n, depth - 1, a ); }
        for( std::size_t i = 0; i < al.size(); ++i )
        {
            H c( h ); M n( m ); hz::trans(); hz::cur( "%s: depth %d, update(%zu)", name, depth, al[i] );
            if( ( i + depth ) & 1 ) c.update( (void const*)in[i]->p, al[i] ); else c.update( in[i]->p, al[i] );
            n.update( in[i]->p, al[i] ); rec( c, n, depth - 1, a );
        }
    }
    void hist()
    {
        std::size_t const k[] = { 0, 1, 3, B/2, B - 9 < B? B - 9: 2, B - 1, B, B + 1, 3*B - 1 }; al.assign( k, k + 9 ); if( hz::g_thorough ) { al.push_back( 2*B ); al.push_back( 7 ); al.push_back( B - 8 < B? B - 8: 5 ); }
        for( std::size_t i = 0; i < al.size(); ++i ) in.push_back( new exact( al[i], (unsigned)( i * 3 % 16 ), (int)i ) );
        int D = hz::g_thorough? 4: 3; rec( H(), M(), D, 0 ); u8 s[ 20 ]; for( int i = 0; i < 20; ++i ) s[i] = (u8)( i * 3 ); rec( H( s, 20 ), M( s, 20 ), D - 1, 0 );
        for( exact* e: in ) delete e;
    }
};
#define XU(N,H,M,B) UNIT( N##_grid ) { san<H, M, B> s; s.name = #N; s.grid(); } UNIT( N##_align ) { san<H, M, B> s; s.name = #N; s.align(); } UNIT( N##_seeds ) { san<H, M, B> s; s.name = #N; s.seeds(); } UNIT( N##_hist ) { san<H, M, B> s; s.name = #N; s.hist(); }
ALGOS_ALL( XU )
#ifndef LEGACY
// hmac over user-written hashes, digests shorter than, equal to and longer than the block
#define XT(B,D,R) typedef hh::hmac< toy<B,D,R> > ht_##B##_##D; typedef ref::hmac< toy_model<B,D> > mt_##B##_##D; XU( toy_##B##_##D, ht_##B##_##D, mt_##B##_##D, B )
typedef std::array<u8,8> ar8; typedef std::array<u8,3> ar3;
XT( 4, 8, ar8 ) XT( 16, 20, hh::digest<20> ) XT( 1, 3, ar3 ) XT( 48, 64, hh::digest<64> ) XT( 7, 64, hh::digest<64> ) XT( 20, 20, hh::digest<20> ) XT( 33, 16, hh::digest<16> ) XT( 100, 8, ar8 )
#endif
