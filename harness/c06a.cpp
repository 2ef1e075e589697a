// C06 (algorithms): tables computed inside the constant evaluator, replayed at run time and on the
// reference model. -DALGO=type -DMODEL=ref type -DBLOCK=n -DNAME=string
#define HARNESS_MAIN
#include "common.hpp"
#include "explore.hpp"
typedef unsigned char u8; typedef std::uint64_t u64;
#ifndef ALGO
# define ALGO hh::md5_128
# define MODEL ref::md5
# define BLOCK 64
#endif
typedef ALGO A;
static constexpr int MAXB = 64, MSG = 4 * BLOCK + 16;

struct msg { u8 b[ MSG ]; };
constexpr msg mkmsg() { msg m{}; for( int i = 0; i < MSG; ++i ) m.b[i] = (u8)( i * 167 + ( i >> 3 ) * 29 + 0x8B ); return m; }
static constexpr msg M = mkmsg();

template<class R> constexpr typename std::enable_if<std::is_integral<R>::value>::type put( R r, u8* o ) { for( unsigned i = 0; i < sizeof(R); ++i ) o[i] = (u8)( r >> ( 8 * i ) ); }
template<class R> constexpr typename std::enable_if<!std::is_integral<R>::value>::type put( R const& r, u8* o ) { for( unsigned i = 0; i < r.size(); ++i ) o[i] = r[i]; }

// construction: 0 default, 1 integer seed, 2 byte sequence
struct cfg { int ctor; u64 seed; int off, klen; int n; int split; };
struct out { u8 r[ 3 ][ MAXB ]; };

template<class H> constexpr void feed( H& h, u8 const* p, int n, int split )
{
    switch( split )
    {
    case 0: h.update( p, (std::size_t)n ); break;
    case 1: for( int i = 0; i < n; ++i ) h.update( p + i, 1 ); break;
    case 2: { int a = n / 3; h.update( p, a ); h.update( p + a, 0 ); h.update( p + a, n - a ); break; }
    case 3: { int a = n < BLOCK - 1? n: BLOCK - 1; h.update( p, a ); int b = n - a < 2? n - a: 2; h.update( p + a, b ); h.update( p + a + b, n - a - b ); break; }
    case 4: { int a = n < 1? n: 1; h.update( p, a ); H c( h ); c.update( p + a, n - a ); H d; d.update( p, a ); d = c; h = d; break; } // through copies
    default: { h.update( (u8 const*)nullptr, 0 ); int a = n < BLOCK? n: BLOCK; h.update( p, a ); h.update( p + a, n - a ); break; }
    }
}
template<class H> constexpr out drive( H h, u8 const* p, cfg const& c )
{
    out o{}; feed( h, p, c.n, c.split ); put( h.result(), o.r[0] ); put( h.result(), o.r[1] ); h.update( p, c.n < 5? c.n: 5 ); put( h.result(), o.r[2] ); return o;
}
constexpr out run( cfg const& c, u8 const* p ) { return c.ctor == 0? drive( A(), p, c ): c.ctor == 1? drive( A( c.seed ), p, c ): drive( A( p + c.off, (std::size_t)c.klen ), p, c ); }

#ifdef FULL
static constexpr int NL = 2 * BLOCK + 4;
constexpr int len( int i ) { return i; }
#else
static constexpr int NL = 26;
constexpr int len( int i ) { int const k[] = { 0, 1, 2, 3, 4, 7, 8, 9, BLOCK/4, BLOCK/2 - 1, BLOCK/2, BLOCK - 17 > 0? BLOCK - 17: 5, BLOCK - 16 > 0? BLOCK - 16: 6, BLOCK - 9 > 0? BLOCK - 9: 10, BLOCK - 8 > 0? BLOCK - 8: 11, BLOCK - 1, BLOCK, BLOCK + 1, BLOCK + BLOCK/2, 2*BLOCK - 9 > 0? 2*BLOCK - 9: 12, 2*BLOCK - 8 > 0? 2*BLOCK - 8: 13, 2*BLOCK - 1, 2*BLOCK, 2*BLOCK + 1, 3*BLOCK + 2, 4*BLOCK }; return k[i]; }
#endif
constexpr u64 seed( int i ) { u64 const s[] = { 0, 1, 0x0123456789ABCDEFull, 0xFFFFFFFF00000000ull, 0x80000000ull, ~0ull }; return s[ i % 6 ]; }
constexpr int klen( int i ) { int const k[] = { 0, 1, 4, 8, 15, 16, 17, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK + 3 }; return k[ i % 11 ]; }
static constexpr int N1 = NL * 3, N2 = 12, N3 = 22, N = N1 + N2 + N3;
constexpr cfg get( int i )
{
    cfg c{};
    if( i < N1 ) { c.n = len( i % NL ); c.split = ( i / NL ) * 2 + ( i % NL ) % 2; } // every length under three split schemes
    else if( i < N1 + N2 ) { i -= N1; c.ctor = 1; c.seed = seed( i ); c.n = i < 6? 5: BLOCK + 3; c.split = i % 6; }
    else { i -= N1 + N2; c.ctor = 2; c.klen = klen( i ); c.off = i % 3; c.n = i < 11? 6: BLOCK; c.split = ( i + 1 ) % 6; }
    return c;
}
struct table { out o[ N ]; };
constexpr table mk() { table t{}; for( int i = 0; i < N; ++i ) t.o[i] = run( get( i ), M.b ); return t; }
static constexpr table T = mk();
// objects and results as constants in their own right
static constexpr A a0; static constexpr A a1( (u64)77 ); static constexpr A a2( M.b, 9 );
static constexpr A a3 = a1; static constexpr A::result_type r0 = A().result();

template<class S> ref::res model( S m, cfg const& c, u8 const* p, int which )
{
    m.update( p, c.n ); ref::res r = m.result(); if( which == 0 ) return r; r = m.result(); if( which == 1 ) return r; m.update( p, c.n < 5? c.n: 5 ); return m.result();
}
static int rsize() { A a; return (int)to_res( a.result() ).n; }

UNIT( table_ )
{
    msg volatile vm; msg p; for( int i = 0; i < MSG; ++i ) { vm.b[i] = (u8)( i * 167 + ( i >> 3 ) * 29 + 0x8B ); p.b[i] = vm.b[i]; }
    int rs = rsize();
    for( int i = 0; i < N; ++i )
    {
        cfg c = get( i ); hz::cur( NAME " cfg %d ctor %d klen %d n %d split %d", i, c.ctor, c.klen, c.n, c.split ); hz::states(); hz::trans( 12 ); hz::traces( 3 );
        out o = run( c, p.b );
        if( std::memcmp( &o, &T.o[i], sizeof o ) ) hz::viol( "runtime", NAME " construction %d (seed %llx, %d bytes), message of %d bytes, split %d: compile time %s, run time %s", c.ctor, (unsigned long long)c.seed, c.klen, c.n, c.split, hz::hex( T.o[i].r[0], rs ).c_str(), hz::hex( o.r[0], rs ).c_str() );
        // untyped pointer overload
        A h = c.ctor == 0? A(): c.ctor == 1? A( c.seed ): A( p.b + c.off, c.klen ); h.update( (void const*)p.b, c.n ); ref::res x = to_res( h.result() ), y = to_res( h.result() ); h.update( (void const*)p.b, c.n < 5? c.n: 5 ); ref::res z = to_res( h.result() );
        if( std::memcmp( x.b, T.o[i].r[0], rs ) || std::memcmp( y.b, T.o[i].r[1], rs ) || std::memcmp( z.b, T.o[i].r[2], rs ) ) hz::viol( "runtime", NAME " construction %d (%d bytes), message of %d bytes: run time through untyped pointers %s, compile time %s", c.ctor, c.klen, c.n, hx( x ), hz::hex( T.o[i].r[0], rs ).c_str() );
#ifdef MODEL
        for( int k = 0; k < 3; ++k )
        {
            ref::res e = c.ctor == 0? model( MODEL(), c, p.b, k ): c.ctor == 1? model( MODEL( c.seed ), c, p.b, k ): model( MODEL( p.b + c.off, c.klen ), c, p.b, k );
            if( std::memcmp( e.b, T.o[i].r[k], rs ) ) { hz::viol( "model", NAME " construction %d (seed %llx, %d bytes), message of %d bytes, split %d, result #%d: compile time %s, specification %s", c.ctor, (unsigned long long)c.seed, c.klen, c.n, c.split, k + 1, hz::hex( T.o[i].r[k], rs ).c_str(), hx( e ) ); break; }
        }
#endif
    }
    { A x; A y( a0 ); if( x.result() != y.result() || A().result() != r0 ) hz::viol( "constant", NAME ": copy of a constant default object" ); A u( (u64)77 ), v( a3 ); if( u.result() != v.result() ) hz::viol( "constant", NAME ": copy of a constant seeded object" ); A s( p.b, 9 ), t( a2 ); s.update( p.b, 3 ); t.update( p.b, 3 ); if( s.result() != t.result() ) hz::viol( "constant", NAME ": copy of a constant keyed object" ); hz::trans( 8 ); hz::states( 3 ); }
    hz::sample( NAME ": %d tables entries, e.g. %s", N, hz::hex( T.o[9].r[0], rs ).c_str() );
}
