// C03: seeding. Every explored seed x message: real == model; distinct seeds => distinct behaviour.
#define HARNESS_MAIN
#include "explore.hpp"
#include <algorithm>

template<class H, class M> struct seeding
{
    char const* name; unsigned B; bool isfnv32, ishmac; int sipkey;
    std::vector<bytes> msgs;

    ref::res fp[ 8 ];
    // compares a seeded pair on every probe message with two results each; returns a fingerprint
    std::string probe( H const& h0, M const& m0, char const* desc )
    {
        std::string f;
        hz::states();
        for( std::size_t i = 0; i < msgs.size(); ++i )
        {
            H h( h0 ); M m( m0 );
            h.update( &msgs[i][0], msgs[i].size() - 1 ); m.update( &msgs[i][0], msgs[i].size() - 1 );
            for( int k = 0; k < 2; ++k )
            {
                ref::res r = to_res( h.result() ), e = m.result(); hz::trans();
                if( r != e ) hz::viol( name, "%s %s, message of %zu bytes, result #%d: got %s want %s", name, desc, msgs[i].size() - 1, k+1, hx(r), hx(e) );
                f.append( (char const*)r.b, r.n );
            }
            hz::traces();
        }
        return f;
    }

    std::map<std::string, std::string> fps; // fingerprint -> seed
    void distinct( std::string const& f, std::string const& seed, char const* what )
    {
        std::pair<std::map<std::string,std::string>::iterator,bool> p = fps.insert( std::make_pair( f, seed ) );
        if( !p.second && p.first->second != seed )
        {
            std::string key = std::string( name ) + ":" + what + ":" + p.first->second + "~" + seed;
            for( std::size_t i = 0; i < key.size(); ++i ) if( key[i] == ' ' ) key[i] = '_';
            if( std::string( name ) == "xxhash_32" && !std::strcmp( what, "seeds" ) )
            {
                // the listed finding (known-findings.txt): both seeds have non-zero high halves and low + high*P2 agree modulo 2^32
                std::uint64_t a = std::strtoull( p.first->second.c_str(), 0, 16 ), b = std::strtoull( seed.c_str(), 0, 16 );
                std::uint32_t const P2 = 0x85EBCA77u;
                if( ( a >> 32 ) && ( b >> 32 ) && (std::uint32_t)( a + ( a >> 32 ) * P2 ) == (std::uint32_t)( b + ( b >> 32 ) * P2 ) ) key = "xxhash_32-integer-seed-high-half-collision";
            }
            hz::viol( key.c_str(), "%s: distinct %s %s and %s give identical results on every probe message", name, what, p.first->second.c_str(), seed.c_str() );
        }
    }

    void u64seed( std::uint64_t s )
    {
        char b[ 64 ]; sprintf( b, "0x%016llx", (unsigned long long)s );
        hz::cur( "%s(seed %s)", name, b );
        std::string f = probe( H( s ), M( (ref::u64)s ), b );
        if( !isfnv32 ) distinct( f, b, "seeds" );
    }

    void run()
    {
        // probe messages: empty, 1 byte, around a block, two blocks and a tail
        std::size_t const ls[] = { 0, 1, B - 1, B, 2*B + 5 };
        for( unsigned i = 0; i < 5; ++i ) msgs.push_back( pattern( 4 + i, ls[i] ) );

        // zero / empty == default
        {
            unsigned char dummy = 0x77;
            H const a, b( (std::uint64_t)0 ), c( &dummy, 0 ), d( (unsigned char const*)0, 0 );
            std::string fa = probe( a, M(), "default" );
            if( probe( b, M(), "seed 0" ) != fa || probe( c, M(), "empty seed" ) != fa || probe( d, M(), "null seed" ) != fa ) hz::viol( name, "%s: seed zero or the empty seed differs from default construction", name );
        }

        // integer seeds
        std::set<std::uint64_t> S;
        for( int i = 0; i < 8; ++i ) for( int v = 0; v < 256; ++v ) S.insert( (std::uint64_t)v << (8*i) );
        for( int i = 0; i < 64; ++i ) for( int j = i; j < 64; ++j ) { std::uint64_t x = ( 1ull << i ) | ( 1ull << j ); S.insert( x ); if( j == i || hz::g_thorough ) S.insert( ~x ); }
        {
            static std::uint64_t const W[] = { 0, 1, 2, 3, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu,
                0x9E3779B1u, 0x85EBCA77u, 0xC2B2AE3Du, 0x27D4EB2Fu, 0x165667B1u, 0xDEADBEEFu, 0x12345678u, 0x61C8864Fu, 0x7A143589u };
            unsigned const nw = sizeof W / sizeof *W;
            for( unsigned i = 0; i < nw; ++i ) for( unsigned j = 0; j < nw; ++j ) S.insert( W[i] | ( W[j] << 32 ) );
        }
        unsigned const nseq = hz::g_thorough? 65536: 3000;
        for( unsigned i = 0; i < nseq; ++i ) S.insert( i );
        for( unsigned i = 1; i < ( hz::g_thorough? 4096u: 64u ); ++i ) S.insert( i * 0x9E3779B97F4A7C15ull );
        for( std::set<std::uint64_t>::iterator it = S.begin(); it != S.end(); ++it ) if( *it ) u64seed( *it );

        // integer seed and its documented byte form
        if( sipkey == 0 && !IS_LEGACY )
        {
            for( std::set<std::uint64_t>::iterator it = S.begin(); it != S.end(); ++it ) if( *it && ( *it % 97 == 0 || *it > ( 1ull << 60 ) ) )
            {
                unsigned char t[8]; for( int i = 0; i < 8; ++i ) t[i] = (unsigned char)( *it >> (8*i) );
                bool bytes_equiv = std::string( name ).substr( 0, 6 ) != "xxhash";
                if( !bytes_equiv ) break;
                H a( *it ), b( t, 8 ); hz::trans( 2 );
                if( to_res( a.result() ) != to_res( b.result() ) ) hz::viol( name, "%s: integer seed %llx differs from its little-endian bytes", name, (unsigned long long)*it );
            }
        }

        // byte sequence seeds
        fps.clear();
        std::size_t const Lmax = hz::g_thorough? 6*B + 20: 2*B + 20;
        for( int pat = 0; pat < ( hz::g_thorough? 6: 5 ); ++pat )
        {
            bytes k = pattern( pat, Lmax + 1 );
            for( std::size_t n = 1; n <= Lmax; ++n )
            {
                char b[ 64 ]; sprintf( b, "pattern%d[%zu]", pat, n );
                hz::cur( "%s(bytes %s)", name, b );
                std::string f = probe( H( &k[0], n ), M( &k[0], n ), b );
                bool const degenerate = pat == 2; // all zero bytes: equal to the empty key for HMAC and SipHash keys
                if( !degenerate && !IS_LEGACY && !isfnv32 && !( ishmac && k[n-1] == 0 ) )
                {
                    std::string id; for( std::size_t i = 0; i < n; ++i ) { char t[4]; sprintf( t, "%02x", k[i] ); id += t; }
                    distinct( f, id, "byte seeds" );
                }
                // unaligned source
                bytes u( n + 3 ); std::memcpy( &u[1], &k[0], n );
                H h1( &k[0], n ), h2( &u[1], n ); if( to_res( h1.result() ) != to_res( h2.result() ) ) hz::viol( name, "%s: seed alignment matters, n=%zu", name, n );
            }
        }
        // long seeds: lengths whose low bytes are small, and one-bit differences at either end
        {
            std::size_t const ll[] = { 255, 256, 257, 264, 256 + B, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 65544, 65536 + B, 65536 + B + 1, 131072, 131073 };
            for( int pat = 0; pat < 2; ++pat )
            {
                bytes k = pat? aperiodic( 131080 ): pattern( pat, 131080 );
                for( unsigned i = 0; i < sizeof ll / sizeof *ll; ++i )
                {
                    std::size_t n = ll[i]; char b[ 64 ]; sprintf( b, "pattern%d[%zu]", pat, n ); hz::cur( "%s(bytes %s)", name, b );
                    std::string f = probe( H( &k[0], n ), M( &k[0], n ), b );
                    if( IS_LEGACY || isfnv32 ) continue;
                    std::size_t const at[] = { 0, n / 2, n - 1 };
                    for( int j = 0; j < 3; ++j ) { k[ at[j] ] ^= 1; H h( &k[0], n ), g( h ); ref::res r = to_res( h.result() ); M m( &k[0], n ); if( r != m.result() ) hz::viol( name, "%s: seed %s with byte %zu changed: got %s", name, b, at[j], hx(r) ); std::string x( (char const*)r.b, r.n ); if( f.compare( 0, r.n, x ) == 0 && r.n >= 8 ) hz::viol( name, "%s: byte %zu of seed %s has no influence", name, at[j], b ); k[ at[j] ] ^= 1; hz::trans(); (void)g; }
                }
            }
        }
        // every byte value at every position of a seed of interesting lengths
        std::size_t const kl[] = { 4, 7, 8, 9, 15, 16, 17, B };
        for( unsigned a = 0; a < sizeof kl / sizeof *kl; ++a )
        {
            if( !hz::g_thorough && kl[a] > 32 ) continue;
            bytes k( kl[a], 0x35 );
            for( std::size_t i = 0; i < k.size(); ++i ) for( int v = 0; v < 256; v += ( hz::g_thorough || k.size() <= 16? 1: 17 ) )
            {
                k[i] = (unsigned char)v; hz::cur( "%s(seed %s)", name, hz::hexc( k ).c_str() );
                H h( &k[0], k.size() ); M m( &k[0], k.size() ); hz::states(); hz::trans( 2 ); hz::traces();
                unsigned char c = 0x42; h.update( &c, 1 ); m.update( &c, 1 );
                for( int j = 0; j < 2; ++j ) { ref::res r = to_res( h.result() ), e = m.result(); if( r != e ) hz::viol( name, "%s seed %s: got %s want %s", name, hz::hexc( k ).c_str(), hx(r), hx(e) ); }
                k[i] = 0x35;
            }
        }
        // all seeds of one or two bytes: exact values and pairwise different results
        std::set<std::string> seen; unsigned long long n2 = 0;
        for( int a = 0; a < 256; ++a ) for( int b = -1; b < 256; ++b )
        {
            if( !hz::g_thorough && b > 0 && ( a % 8 ) != 1 && ( b % 16 ) != 5 ) continue;
            unsigned char k[2] = { (unsigned char)a, (unsigned char)b }; std::size_t n = b < 0? 1: 2;
            H h( k, n ); M m( k, n ); hz::states(); hz::trans( 2 ); hz::traces(); std::string f;
            for( int j = 0; j < 3; ++j ) { ref::res r = to_res( h.result() ), e = m.result(); f.append( (char const*)r.b, r.n ); if( r != e ) hz::viol( name, "%s seed of %zu bytes %s: got %s want %s", name, n, hz::hex( k, n ).c_str(), hx(r), hx(e) ); }
            if( ishmac && k[n-1] == 0 ) continue; // zero-extended keys coincide by specification
            ++n2; if( !seen.insert( f ).second && !isfnv32 ) hz::viol( name, "%s: seed %s collides with another seed of at most two bytes", name, hz::hex( k, n ).c_str() );
        }
        if( sipkey ) // key-sized sequences
        {
            for( int pat = 0; pat < 6; ++pat ) for( std::size_t d = 0; d < 40; ++d )
            {
                bytes k = pattern( pat, 80 );
                H h( &k[d], sipkey ); M m( &k[d], sipkey ); char b[ 40 ]; sprintf( b, "key %d/%zu", pat, d ); probe( h, m, b );
            }
        }
        hz::sample( "%s: %zu integer seeds, byte seeds of every length 1..%zu in 5 patterns, %llu of at most two bytes", name, S.size(), Lmax, n2 );
    }
};
#define X( A, T, MOD, BL ) UNIT( A ) { std::string n = #A; seeding< T, MOD > s; s.name = #A; s.B = BL; s.isfnv32 = n == "fnv1a_32" || n == "murmur3_32"; s.ishmac = IS_LEGACY || n.substr(0,4) == "hmac"; s.sipkey = n == "siphash_32"? 8: n == "siphash_64"? 16: 0; s.run(); }
ALGOS_ALL( X )
