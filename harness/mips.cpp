// Executes a statically linked MIPS32r2/MIPS64r2 user program (either byte order, integer
// instructions), with write and exit system calls. Used to run the library as a big-endian machine does.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <vector>
typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t s32; typedef std::int64_t s64;
static u64 const MEM = 128u << 20; static u8* m; static bool BE; static u64 pc; static u64 r[32]; static unsigned long long icount;
[[noreturn]] static void die( char const* w, u64 x ) { fprintf( stderr, "mips: %s %llx at pc %llx after %llu instructions\n", w, (unsigned long long)x, (unsigned long long)pc, icount ); fflush( stdout ); exit( 99 ); }
static inline u8* at( u64 a, unsigned n ) { if( a < 0x1000 || a > MEM - n ) die( "bad address", a ); return m + a; }
template<class T> static inline T ld( u64 a ) { if( a & ( sizeof(T) - 1 ) ) die( "unaligned", a ); u8* p = at( a, sizeof(T) ); T v = 0; for( unsigned i = 0; i < sizeof(T); ++i ) v |= (T)( (T)p[i] << 8 * ( BE? sizeof(T) - 1 - i: i ) ); return v; }
template<class T> static inline void st( u64 a, T v ) { if( a & ( sizeof(T) - 1 ) ) die( "unaligned", a ); u8* p = at( a, sizeof(T) ); for( unsigned i = 0; i < sizeof(T); ++i ) p[i] = (u8)( v >> 8 * ( BE? sizeof(T) - 1 - i: i ) ); }
static inline u64 sx( u32 x ) { return (u64)(s64)(s32)x; }
// partial words: bytes of the word at a, from a to the end (left) or from the start to a (right) in memory significance order
template<class T> static T left( u64 a, T old ) { unsigned n = sizeof(T); u64 b = a & ~(u64)( n - 1 ); unsigned k = (unsigned)( a - b ); T w = ld<T>( b ); unsigned s = BE? k: n - 1 - k; return s? (T)( ( w << 8*s ) | ( old & ( ( (T)1 << 8*s ) - 1 ) ) ): w; }
template<class T> static T right( u64 a, T old ) { unsigned n = sizeof(T); u64 b = a & ~(u64)( n - 1 ); unsigned k = (unsigned)( a - b ); T w = ld<T>( b ); unsigned s = BE? n - 1 - k: k; return s? (T)( ( w >> 8*s ) | ( old & ~( (T)~(T)0 >> 8*s ) ) ): w; }
template<class T> static void sleft( u64 a, T v ) { unsigned n = sizeof(T); u64 b = a & ~(u64)( n - 1 ); unsigned k = (unsigned)( a - b ); T w = ld<T>( b ); unsigned s = BE? k: n - 1 - k; st<T>( b, s? (T)( ( v >> 8*s ) | ( w & ~( (T)~(T)0 >> 8*s ) ) ): v ); }
template<class T> static void sright( u64 a, T v ) { unsigned n = sizeof(T); u64 b = a & ~(u64)( n - 1 ); unsigned k = (unsigned)( a - b ); T w = ld<T>( b ); unsigned s = BE? n - 1 - k: k; st<T>( b, s? (T)( ( v << 8*s ) | ( w & ( ( (T)1 << 8*s ) - 1 ) ) ): v ); }
static u64 load( char const* f )
{
    FILE* p = fopen( f, "rb" ); if( !p ) { perror( f ); exit( 98 ); } std::vector<u8> b; u8 t[ 65536 ]; std::size_t n; while( ( n = fread( t, 1, sizeof t, p ) ) ) b.insert( b.end(), t, t + n ); fclose( p );
    if( b.size() < 64 || std::memcmp( &b[0], "\177ELF", 4 ) ) { fprintf( stderr, "not ELF\n" ); exit( 98 ); } bool w = b[4] == 2; BE = b[5] == 2;
    auto g = [&]( u64 o, unsigned k ) { u64 v = 0; for( unsigned i = 0; i < k; ++i ) v |= (u64)b.at( o + i ) << 8 * ( BE? k - 1 - i: i ); return v; };
    u64 entry = g( 24, w? 8: 4 ), ph = g( w? 32: 28, w? 8: 4 ); unsigned es = (unsigned)g( w? 54: 42, 2 ), en = (unsigned)g( w? 56: 44, 2 );
    for( unsigned i = 0; i < en; ++i ) { u64 o = ph + i * es; if( g( o, 4 ) != 1 ) continue; u64 off = g( o + ( w? 8: 4 ), w? 8: 4 ), va = g( o + ( w? 16: 8 ), w? 8: 4 ), fs = g( o + ( w? 32: 16 ), w? 8: 4 ), ms = g( o + ( w? 40: 20 ), w? 8: 4 ); at( va, (unsigned)ms ); std::memcpy( m + va, &b.at( 0 ) + off, fs ); }
    return entry;
}
int main( int, char** argv )
{
    m = (u8*)calloc( MEM, 1 ); pc = load( argv[1] ); u64 npc = pc + 4, hi = 0, lo = 0; r[29] = MEM - 4096; unsigned long long const LIMIT = 40000000000ull;
    for( ;; )
    {
        u32 w = ld<u32>( pc ); u64 nn = npc + 4; unsigned op = w >> 26, rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sa = w >> 6 & 31, fn = w & 63; u64 imm = (u64)(s64)(std::int16_t)w, br = pc + 4 + ( imm << 2 ); u64 a = r[rs], b = r[rt], ea = a + imm; bool likely_skip = false;
        if( ++icount > LIMIT ) die( "too many instructions", 0 );
        switch( op )
        {
        case 0: switch( fn )
            {
            case 0: r[rd] = sx( (u32)b << sa ); break; case 2: r[rd] = sx( rs & 1? ( sa? (u32)b >> sa | (u32)b << ( 32 - sa ): (u32)b ): (u32)b >> sa ); break; case 3: r[rd] = sx( (u32)( (s32)b >> sa ) ); break;
            case 4: r[rd] = sx( (u32)b << ( a & 31 ) ); break; case 6: { unsigned k = a & 31; r[rd] = sx( sa & 1? ( k? (u32)b >> k | (u32)b << ( 32 - k ): (u32)b ): (u32)b >> k ); break; } case 7: r[rd] = sx( (u32)( (s32)b >> ( a & 31 ) ) ); break;
            case 8: nn = a; break; case 9: r[rd] = pc + 8; nn = a; break; case 10: if( !b ) r[rd] = a; break; case 11: if( b ) r[rd] = a; break;
            case 12: { u64 nr = r[2]; if( nr == 4004 || nr == 5001 ) { fwrite( at( r[5], (unsigned)r[6] ), 1, r[6], stdout ); r[2] = r[6]; r[7] = 0; } else if( nr == 4001 || nr == 5058 ) { fflush( stdout ); fprintf( stderr, "INSTRUCTIONS %llu\n", icount ); return (int)r[4]; } else die( "syscall", nr ); break; }
            case 13: die( "break", w ); case 15: break;
            case 16: r[rd] = hi; break; case 17: hi = a; break; case 18: r[rd] = lo; break; case 19: lo = a; break;
            case 20: r[rd] = b << ( a & 63 ); break; case 22: { unsigned k = a & 63; r[rd] = sa & 1? ( k? b >> k | b << ( 64 - k ): b ): b >> k; break; } case 23: r[rd] = (u64)( (s64)b >> ( a & 63 ) ); break;
            case 24: { s64 p = (s64)(s32)a * (s32)b; lo = sx( (u32)p ); hi = sx( (u32)( (u64)p >> 32 ) ); break; } case 25: { u64 p = (u64)(u32)a * (u32)b; lo = sx( (u32)p ); hi = sx( (u32)( p >> 32 ) ); break; }
            case 26: if( (u32)b ) { if( (u32)b == ~0u ) { lo = sx( 0u - (u32)a ); hi = 0; } else { lo = sx( (u32)( (s32)a / (s32)b ) ); hi = sx( (u32)( (s32)a % (s32)b ) ); } } break; case 27: if( (u32)b ) { lo = sx( (u32)a / (u32)b ); hi = sx( (u32)a % (u32)b ); } break;
            case 28: { __int128 p = (__int128)(s64)a * (s64)b; lo = (u64)p; hi = (u64)( p >> 64 ); break; } case 29: { unsigned __int128 p = (unsigned __int128)a * b; lo = (u64)p; hi = (u64)( p >> 64 ); break; }
            case 30: if( b ) { if( b == ~0ull ) { lo = 0 - a; hi = 0; } else { lo = (u64)( (s64)a / (s64)b ); hi = (u64)( (s64)a % (s64)b ); } } break; case 31: if( b ) { lo = a / b; hi = a % b; } break;
            case 32: case 33: r[rd] = sx( (u32)a + (u32)b ); break; case 34: case 35: r[rd] = sx( (u32)a - (u32)b ); break; case 36: r[rd] = a & b; break; case 37: r[rd] = a | b; break; case 38: r[rd] = a ^ b; break; case 39: r[rd] = ~( a | b ); break;
            case 42: r[rd] = (s64)a < (s64)b; break; case 43: r[rd] = a < b; break; case 44: case 45: r[rd] = a + b; break; case 46: case 47: r[rd] = a - b; break; case 52: if( a == b ) die( "trap", w ); break; case 54: if( a != b ) die( "trap", w ); break;
            case 56: r[rd] = b << sa; break; case 58: r[rd] = rs & 1? ( sa? b >> sa | b << ( 64 - sa ): b ): b >> sa; break; case 59: r[rd] = (u64)( (s64)b >> sa ); break;
            case 60: r[rd] = b << ( sa + 32 ); break; case 62: { unsigned k = sa + 32; r[rd] = rs & 1? ( b >> k | b << ( 64 - k ) ): b >> k; break; } case 63: r[rd] = (u64)( (s64)b >> ( sa + 32 ) ); break;
            default: die( "special", w );
            } break;
        case 1: { bool t; switch( rt & 15 ) { case 0: t = (s64)a < 0; break; case 1: t = (s64)a >= 0; break; case 2: t = (s64)a < 0; likely_skip = !t; break; case 3: t = (s64)a >= 0; likely_skip = !t; break; default: die( "regimm", w ); } if( rt & 16 ) r[31] = pc + 8; if( t ) nn = br; break; }
        case 2: nn = ( npc & ~(u64)0x0FFFFFFF ) | ( (u64)( w & 0x3FFFFFF ) << 2 ); break; case 3: r[31] = pc + 8; nn = ( npc & ~(u64)0x0FFFFFFF ) | ( (u64)( w & 0x3FFFFFF ) << 2 ); break;
        case 4: if( a == b ) nn = br; break; case 5: if( a != b ) nn = br; break; case 6: if( (s64)a <= 0 ) nn = br; break; case 7: if( (s64)a > 0 ) nn = br; break;
        case 20: if( a == b ) nn = br; else likely_skip = true; break; case 21: if( a != b ) nn = br; else likely_skip = true; break; case 22: if( (s64)a <= 0 ) nn = br; else likely_skip = true; break; case 23: if( (s64)a > 0 ) nn = br; else likely_skip = true; break;
        case 8: case 9: r[rt] = sx( (u32)a + (u32)imm ); break; case 10: r[rt] = (s64)a < (s64)imm; break; case 11: r[rt] = a < imm; break; case 12: r[rt] = a & ( w & 0xFFFF ); break; case 13: r[rt] = a | ( w & 0xFFFF ); break; case 14: r[rt] = a ^ ( w & 0xFFFF ); break; case 15: r[rt] = sx( w << 16 ); break;
        case 24: case 25: r[rt] = a + imm; break;
        case 26: r[rt] = left<u64>( ea, b ); break; case 27: r[rt] = right<u64>( ea, b ); break;
        case 28: switch( fn )
            {
            case 0: { u64 p = ( (u64)(u32)hi << 32 | (u32)lo ) + (u64)( (s64)(s32)a * (s32)b ); lo = sx( (u32)p ); hi = sx( (u32)( p >> 32 ) ); break; } case 1: { u64 p = ( (u64)(u32)hi << 32 | (u32)lo ) + (u64)(u32)a * (u32)b; lo = sx( (u32)p ); hi = sx( (u32)( p >> 32 ) ); break; }
            case 4: { u64 p = ( (u64)(u32)hi << 32 | (u32)lo ) - (u64)( (s64)(s32)a * (s32)b ); lo = sx( (u32)p ); hi = sx( (u32)( p >> 32 ) ); break; } case 5: { u64 p = ( (u64)(u32)hi << 32 | (u32)lo ) - (u64)(u32)a * (u32)b; lo = sx( (u32)p ); hi = sx( (u32)( p >> 32 ) ); break; }
            case 2: r[rd] = sx( (u32)a * (u32)b ); break; case 32: r[rd] = (u32)a? __builtin_clz( (u32)a ): 32; break; case 33: r[rd] = ~(u32)a? __builtin_clz( ~(u32)a ): 32; break; case 36: r[rd] = a? __builtin_clzll( a ): 64; break; case 37: r[rd] = ~a? __builtin_clzll( ~a ): 64; break; default: die( "special2", w );
            } break;
        case 31: switch( fn )
            {
            case 0: r[rt] = sx( (u32)( (u32)a >> sa & ( rd == 31? ~0u: ( 1u << ( rd + 1 ) ) - 1 ) ) ); break; case 1: { unsigned k = rd + 33; r[rt] = a >> sa & ( k == 64? ~0ull: ( 1ull << k ) - 1 ); break; } case 2: r[rt] = a >> ( sa + 32 ) & ( ( 1ull << ( rd + 1 ) ) - 1 ); break; case 3: r[rt] = a >> sa & ( ( 1ull << ( rd + 1 ) ) - 1 ); break;
            case 4: { unsigned k = rd - sa + 1; u32 mk = k == 32? ~0u: ( ( 1u << k ) - 1 ) << sa; r[rt] = sx( ( (u32)b & ~mk ) | ( (u32)a << sa & mk ) ); break; }
            case 5: case 6: case 7: { unsigned p = sa + ( fn == 6? 32: 0 ), e = rd + ( fn == 7? 0: 32 ), k = e - p + 1; u64 mk = ( k == 64? ~0ull: ( 1ull << k ) - 1 ) << p; r[rt] = ( b & ~mk ) | ( a << p & mk ); break; }
            case 32: if( sa == 2 ) r[rd] = sx( ( (u32)b & 0x00FF00FFu ) << 8 | ( (u32)b >> 8 & 0x00FF00FFu ) ); else if( sa == 16 ) r[rd] = (u64)(s64)(std::int8_t)b; else if( sa == 24 ) r[rd] = (u64)(s64)(std::int16_t)b; else die( "bshfl", w ); break;
            case 36: if( sa == 2 ) r[rd] = ( b & 0x00FF00FF00FF00FFull ) << 8 | ( b >> 8 & 0x00FF00FF00FF00FFull ); else if( sa == 5 ) r[rd] = b << 48 | ( b & 0xFFFF0000ull ) << 16 | ( b >> 16 & 0xFFFF0000ull ) | b >> 48; else die( "dbshfl", w ); break;
            default: die( "special3", w );
            } break;
        case 32: r[rt] = (u64)(s64)(std::int8_t)ld<u8>( ea ); break; case 33: r[rt] = (u64)(s64)(std::int16_t)ld<u16>( ea ); break; case 34: r[rt] = sx( left<u32>( ea, (u32)b ) ); break; case 35: r[rt] = sx( ld<u32>( ea ) ); break; case 36: r[rt] = ld<u8>( ea ); break; case 37: r[rt] = ld<u16>( ea ); break; case 38: r[rt] = sx( right<u32>( ea, (u32)b ) ); break; case 39: r[rt] = ld<u32>( ea ); break;
        case 40: st<u8>( ea, (u8)b ); break; case 41: st<u16>( ea, (u16)b ); break; case 42: sleft<u32>( ea, (u32)b ); break; case 43: st<u32>( ea, (u32)b ); break; case 44: sleft<u64>( ea, b ); break; case 45: sright<u64>( ea, b ); break; case 46: sright<u32>( ea, (u32)b ); break;
        case 51: break; case 55: r[rt] = ld<u64>( ea ); break; case 63: st<u64>( ea, b ); break;
        default: die( "opcode", w );
        }
        r[0] = 0; if( likely_skip ) { pc = npc + 4; npc = pc + 4; } else { pc = npc; npc = nn; }
    }
}
