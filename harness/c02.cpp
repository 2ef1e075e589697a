// C02: explicit-state exploration of update: from every reachable object state that
// has absorbed M[0,L), every next piece M[L,L+k) is fed through every overload. By
// induction on the states this covers every way of cutting M into pieces.
#define HARNESS_MAIN
#include "explore.hpp"

template<class H, class M> struct split
{
    char const* name; unsigned B;

    void explore( box<H> const& h0, M const& m0, char const* how, bytes const& msg, std::size_t N, std::size_t cap )
    {
        std::vector<ref::res> e1( N+1 ), e2( N+1 );
        for( std::size_t L = 0; L <= N; ++L ) { M m( m0 ); m.update( &msg[0], L ); e1[L] = m.result(); e2[L] = m.result(); }
        std::vector< std::deque< std::pair< box<H>, std::string > > > lev( N+1 );
        std::vector< std::set<std::string> > seen( N+1 );
        unsigned long long trunc = 0;
        lev[0].push_back( std::make_pair( h0, std::string() ) ); seen[0].insert( h0.key() );
        for( std::size_t L = 0; L <= N; ++L )
        {
            for( std::size_t i = 0; i < lev[L].size(); ++i )
            {
                box<H> const s( lev[L][i].first ); std::string const path = lev[L][i].second;
                hz::states(); hz::traces();
                hz::cur( "%s %s pieces=[%s] then result", name, how, path.c_str() );
                box<H> t( s );
                ref::res r1 = to_res( t.get().result() ), r2 = to_res( t.get().result() );
                if( r1 != e1[L] || r2 != e2[L] )
                    hz::viol( name, "%s %s: message of %zu bytes fed in pieces [%s]: results %s,%s but the whole message gives %s,%s", name, how, L, path.c_str(), hx(r1), hx(r2), hx(e1[L]), hx(e2[L]) );
                for( std::size_t k = 0; L + k <= N; ++k )
                {
                    int const modes = k == 0? 4: 2;
                    for( int md = 0; md < modes; ++md )
                    {
                        box<H> u( s );
                        hz::cur( "%s %s pieces=[%s] then +%zu mode %d", name, how, path.c_str(), k, md );
                        if( md >= 2 ) { unsigned char const* p = 0; if( md & 1 ) u.get().update( (void const*)p, 0 ); else u.get().update( p, 0 ); }
                        else feed( u.get(), &msg[L], k, md & 1 );
                        hz::trans();
                        std::string key = u.key();
                        if( seen[L+k].size() >= cap ) { if( !seen[L+k].count( key ) ) { ++trunc; check_only( u, e1[L+k], how, path, k, md, L+k ); } continue; }
                        if( seen[L+k].insert( key ).second )
                        {
                            char b[ 48 ]; sprintf( b, "%s%zu%s", path.empty()? "": " ", k, ( md & 1 )? "v": "" );
                            lev[L+k].push_back( std::make_pair( u, path + b ) );
                        }
                    }
                }
            }
            std::deque< std::pair< box<H>, std::string > >().swap( lev[L] );
        }
        if( trunc ) hz::g_truncated = true;
    }
    void check_only( box<H>& u, ref::res const& e, char const* how, std::string const& path, std::size_t k, int md, std::size_t L )
    {
        ref::res r = to_res( u.get().result() ); hz::traces();
        if( r != e ) hz::viol( name, "%s %s: message of %zu bytes fed in pieces [%s %zu%s]: result %s but the whole message gives %s", name, how, L, path.c_str(), k, ( md & 1 )? "v": "", hx(r), hx(e) );
    }

    void run()
    {
        bool const big = B >= 64;
        std::size_t const N = hz::g_thorough? ( big? 5*B + 9: 6*B + 9 ): ( big? 2*B + B/2: 4*B + 5 );
        std::size_t const cap = hz::g_thorough? 600: 60;
        for( int pat = 0; pat < ( hz::g_thorough? 4: 2 ); ++pat )
        {
            bytes msg = pattern( pat, N );
            explore( box<H>(), M(), "default", msg, N, cap );
            std::size_t const n2 = hz::g_thorough? N: B + B/2 + 3;
            explore( box<H>( (std::uint64_t)0x0123456789ABCDEFull ), M( (ref::u64)0x0123456789ABCDEFull ), "seed(u64)", msg, n2, cap );
            bytes key = pattern( 5, 3*B );
            std::size_t const kl[] = { 1, 8, 16, B, B + 1 };
            for( unsigned i = 0; i < sizeof kl / sizeof *kl; ++i )
            {
                if( !hz::g_thorough && ( i & 1 ) != ( pat & 1 ) ) continue;
                explore( box<H>( &key[0], kl[i] ), M( &key[0], kl[i] ), "seed(bytes)", msg, n2, cap );
            }
            for( int a = 0; a < ( hz::g_thorough? 6: 3 ); ++a ) // after results at various fill levels
            {
                std::size_t const pre[] = { 0, B/2 + 3, B - 1, B, 2*B - 9, 1 };
                box<H> h; M m;
                h.get().update( &key[0], pre[a] ); m.update( &key[0], pre[a] );
                h.get().result(); m.result();
                if( a & 1 ) { h.get().result(); m.result(); }
                explore( h, m, "after result", msg, n2, cap );
            }
        }
        hz::sample( "%s: all splits of a %zu-byte message explored as object states (chunk sequences merged when the object bytes coincide)", name, N );
        // every alignment of the piece, from several fill levels
        {
            bytes msg = pattern( 4, 4*B + 20 ); std::vector<unsigned char> al( 4*B + 64 ); std::size_t const fs[] = { 0, 1, B/2, B - 1 };
            for( int f = 0; f < 4; ++f ) for( std::size_t n = 0; n <= 2*B + 5; n += ( hz::g_thorough || n < 40 || n > 2*B - 6? 1: 3 ) )
            {
                M m; m.update( &msg[0], fs[f] ); m.update( &msg[0] + fs[f], n ); ref::res e = m.result();
                for( std::size_t o = 0; o < 16; ++o )
                {
                    unsigned char* p = (unsigned char*)( ( (std::uintptr_t)&al[0] + 15 ) / 16 * 16 ) + o; std::memcpy( p, &msg[0] + fs[f], n ); hz::cur( "%s fill %zu length %zu alignment %zu", name, fs[f], n, o );
                    H h; feed( h, &msg[0], fs[f] ); if( o & 1 ) h.update( (void const*)p, n ); else h.update( p, n ); hz::trans( 2 ); hz::traces();
                    ref::res r = to_res( h.result() ); if( r != e ) hz::viol( name, "%s: %zu bytes, then %zu at alignment %zu modulo 16: %s, whole: %s", name, fs[f], n, o, hx(r), hx(e) );
                }
            }
        }
        // long pieces: one call through either overload, from several fill levels
        {
            std::vector<std::size_t> const ls = long_lengths( 8, hz::g_thorough? 21: 17 ); bytes const msg = aperiodic( 1u << ( hz::g_thorough? 22: 18 ) ); std::size_t const fs[] = { 0, 1, B - 1, B };
            for( std::size_t n: ls )
            {
                M mm; mm.update( &msg[0], n ); ref::res const e = mm.result();
                for( int f = 0; f < 4; ++f ) for( int md = 0; md < 2; ++md )
                {
                    if( n < fs[f] ) continue;
                    hz::cur( "%s: %zu bytes, then %zu in one call, overload %d", name, fs[f], n - fs[f], md );
                    H h; h.update( &msg[0], fs[f] ); if( md ) h.update( (void const*)( &msg[0] + fs[f] ), n - fs[f] ); else h.update( &msg[0] + fs[f], n - fs[f] );
                    hz::trans( 2 ); hz::traces(); hz::states(); ref::res r = to_res( h.result() ); if( r != e ) hz::viol( name, "%s: %zu bytes, then %zu in one %s call: %s, whole: %s", name, fs[f], n - fs[f], md? "untyped": "byte pointer", hx(r), hx(e) );
                }
                H h; std::size_t a = 0, c = 1; for( ; a < n; a += c, c = c * 2 + 1 ) h.update( (void const*)&msg[a], n - a < c? n - a: c ); // growing pieces
                ref::res r = to_res( h.result() ); hz::traces(); if( r != e ) hz::viol( name, "%s: %zu bytes in growing pieces: %s, whole: %s", name, n, hx(r), hx(e) );
            }
        }
        // two-way and equal-chunk splits of longer messages
        {
            std::size_t const n = hz::g_thorough? 20000: 3000;
            bytes msg = pattern( 6, n ); M m; m.update( &msg[0], n ); ref::res e = m.result();
            for( std::size_t i = 0; i <= n; i += ( hz::g_thorough || i < 600? 1: 7 ) )
            {
                H h; feed( h, &msg[0], i ); feed( h, &msg[0] + i, n - i, true ); hz::trans( 2 ); hz::traces();
                ref::res r = to_res( h.result() );
                if( r != e ) hz::viol( name, "%s: %zu bytes split at %zu: %s, whole: %s", name, n, i, hx(r), hx(e) );
            }
            for( std::size_t c = 1; c <= ( hz::g_thorough? 2100u: 600u ); ++c )
            {
                H h; for( std::size_t i = 0; i < n; i += c ) { feed( h, &msg[i], n - i < c? n - i: c, ( i / c ) & 1 ); hz::trans(); }
                hz::traces(); ref::res r = to_res( h.result() );
                if( r != e ) hz::viol( name, "%s: %zu bytes in chunks of %zu: %s, whole: %s", name, n, c, hx(r), hx(e) );
            }
        }
    }
};

#define X( name, type, mod, B ) UNIT( name ) { split< type, mod > s = { #name, B }; s.run(); }
ALGOS_ALL( X )
