// C04: all histories of update/result up to a depth, in lock step with the model.
#define HARNESS_MAIN
#include "explore.hpp"

template<class H, class M> struct hist
{
    char const* name; unsigned B; bool mac;
    bytes msg;

    struct node { box<H> h; box<M> m; std::size_t pos; std::string path; };

    void check_result( box<H>& h, box<M>& m, char const* how, std::string const& path )
    {
        ref::res r = to_res( h.get().result() ), e = m.get().result(); hz::trans();
        if( r != e ) hz::viol( name, "%s %s: history [%s R]: got %s, want %s", name, how, path.c_str(), hx(r), hx(e) );
    }

    void bfs( box<H> const& h0, box<M> const& m0, char const* how, unsigned depth, std::vector<std::size_t> const& K )
    {
        std::vector<node> cur, nxt; node n0 = { h0, m0, 0, "" }; cur.push_back( n0 );
        for( unsigned d = 0; d < depth; ++d )
        {
            std::set<std::string> seen; nxt.clear();
            for( std::size_t i = 0; i < cur.size(); ++i )
            {
                node const& s = cur[i]; hz::states();
                for( std::size_t k = 0; k <= K.size(); ++k )
                {
                    node t( s );
                    if( k == K.size() )
                    {
                        hz::cur( "%s %s [%s R]", name, how, s.path.c_str() );
                        check_result( t.h, t.m, how, s.path ); t.path += " R"; hz::traces();
                    }
                    else
                    {
                        hz::cur( "%s %s [%s %zu]", name, how, s.path.c_str(), K[k] );
                        feed( t.h.get(), &msg[ t.pos ], K[k], d & 1 ); t.m.get().update( &msg[ t.pos ], K[k] ); t.pos += K[k]; hz::trans();
                        char b[ 24 ]; sprintf( b, " %zu", K[k] ); t.path += b;
                    }
                    char pb[ 24 ]; sprintf( pb, "|%zu|", t.pos );
                    if( seen.insert( t.h.key() + pb + t.m.key() ).second ) nxt.push_back( t );
                }
            }
            cur.swap( nxt );
        }
        for( std::size_t i = 0; i < cur.size(); ++i ) // leaves: three more results
        {
            node t( cur[i] ); hz::states(); hz::traces();
            hz::cur( "%s %s [%s RRR]", name, how, t.path.c_str() );
            for( int j = 0; j < 3; ++j ) { check_result( t.h, t.m, how, t.path ); t.path += " R"; }
        }
    }

    // runs of consecutive results from every fill level
    void runs( box<H> const& h0, box<M> const& m0, char const* how )
    {
        unsigned const R = hz::g_thorough? 300: 24;
        for( std::size_t L = 0; L <= 2*B + 2; ++L )
        {
            box<H> h( h0 ); box<M> m( m0 ); h.get().update( &msg[0], L ); m.get().update( &msg[0], L );
            std::set<ref::res> rs; hz::traces(); hz::states();
            for( unsigned i = 0; i < R; ++i )
            {
                hz::cur( "%s %s %zu bytes, result #%u", name, how, L, i );
                ref::res r = to_res( h.get().result() ), e = m.get().result(); hz::trans();
                if( r != e ) hz::viol( name, "%s %s: %zu bytes, result #%u: got %s want %s", name, how, L, i+1, hx(r), hx(e) );
                if( !rs.insert( r ).second ) { hz::viol( name, "%s %s: %zu bytes: result #%u repeats an earlier one (%s)", name, how, L, i+1, hx(r) ); break; }
            }
        }
        // results after long messages, and input after those
        {
            std::vector<std::size_t> const ls = long_lengths( 8, hz::g_thorough? 20: 16 ); bytes const lm = aperiodic( ( 1u << ( hz::g_thorough? 21: 17 ) ) );
            for( std::size_t n: ls )
            {
                box<H> h( h0 ); box<M> m( m0 ); char b[ 80 ]; hz::states(); hz::traces(); hz::cur( "%s %s long message of %zu bytes", name, how, n );
                h.get().update( &lm[0], n ); m.get().update( &lm[0], n ); sprintf( b, "%zu", n ); check_result( h, m, how, b );
                h.get().update( &lm[0] + 9, 10 ); m.get().update( &lm[0] + 9, 10 ); sprintf( b, "%zu R 10", n ); check_result( h, m, how, b );
                h.get().update( (void const*)( &lm[0] + 3 ), n ); m.get().update( &lm[0] + 3, n ); sprintf( b, "%zu R 10 R %zu", n, n ); check_result( h, m, how, b ); sprintf( b, "%zu R 10 R %zu R", n, n ); check_result( h, m, how, b );
            }
        }
        // a long run, then input again
        {
            box<H> h( h0 ); box<M> m( m0 ); unsigned const n = hz::g_thorough? 200000: 3000;
            for( unsigned i = 0; i < n; ++i )
            {
                ref::res r = to_res( h.get().result() ), e = m.get().result(); hz::trans();
                if( r != e ) { hz::viol( name, "%s %s: result #%u of a long run: got %s want %s", name, how, i+1, hx(r), hx(e) ); break; }
            }
            h.get().update( &msg[0], B + 1 ); m.get().update( &msg[0], B + 1 ); check_result( h, m, how, "long run, then update" ); hz::traces();
        }
    }

    void run()
    {
        msg = pattern( 7, 12 * ( B + 2 ) );
        std::vector<std::size_t> K;
        if( B >= 64 )
        {
            unsigned const len = B / 8;
            std::size_t const k[] = { 1, len - 1, B/2, B - len - 1, B - len, B - 1, B, B + 1 };
            K.assign( k, k + ( hz::g_thorough? 8: mac? 6: 7 ) );
        }
        else
        {
            for( std::size_t k = 1; k <= B + 1; k += ( B > 8 && !hz::g_thorough? ( k == 1 || k >= B-1? 1: k < 4? 1: B > 16? 5: 3 ): 1 ) ) K.push_back( k );
        }
        unsigned depth = hz::g_thorough? ( B >= 64? ( mac? 5: 6 ): 5 ): ( mac? 4: B >= 64? 4: 4 );
        box<H> h0; box<M> m0;
        bfs( h0, m0, "default", depth, K ); runs( h0, m0, "default" );
        box<H> h1( (std::uint64_t)0xFEDCBA9876543210ull ); box<M> m1( (std::uint64_t)0xFEDCBA9876543210ull );
        bfs( h1, m1, "seed(u64)", depth - 1, K ); runs( h1, m1, "seed(u64)" );
        bytes key = pattern( 8, 2*B );
        std::size_t const kl[] = { 3, 16, B + 3 };
        for( int i = 0; i < 3; ++i ) { box<H> h2( &key[0], kl[i] ); box<M> m2( &key[0], kl[i] ); bfs( h2, m2, "seed(bytes)", depth - 1, K ); if( i < 2 ) runs( h2, m2, "seed(bytes)" ); }
        hz::sample( "%s: every history of depth %u over %zu piece sizes and result; e.g. [%zu R %zu R R] matched the model", name, depth, K.size(), K[0], K.back() );
    }
};
#define X( A, T, MOD, BL ) UNIT( A ) { hist< T, MOD > s; s.name = #A; s.B = BL; s.mac = !std::strncmp( #A, "hmac", 4 ); s.run(); }
ALGOS_ALL( X )
