// C14: get_integral_result, enumerated over the result domain.
#define HARNESS_MAIN
#include "common.hpp"
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/siphash.hpp>
#include <array>
#include <algorithm>
#include <memory>
#include <type_traits>
namespace hh = boost::hash2;
typedef unsigned char u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t u64;

#define ALWAYS inline __attribute__((always_inline))
template<class T, class R> ALWAYS u64 g( R r ) { return (u64)(typename std::make_unsigned<T>::type)hh::get_integral_result<T>( r ); }
template<class R> typename std::enable_if<std::is_integral<R>::value, unsigned long long>::type show( R r ) { return r; }
template<class R> typename std::enable_if<!std::is_integral<R>::value, unsigned long long>::type show( R const& r ) { unsigned long long v = 0; for( int i = 0; i < 8; ++i ) v |= (unsigned long long)r.data()[i] << 8*i; return v; }
// all target types of one width must give the same bits
template<unsigned W> struct tgt;
template<> struct tgt<1> { typedef u8 U; typedef signed char S1; typedef char S2; typedef std::int8_t S3; };
template<> struct tgt<2> { typedef u16 U; typedef std::int16_t S1; typedef char16_t S2; typedef short S3; };
template<> struct tgt<4> { typedef u32 U; typedef int S1; typedef char32_t S2; typedef wchar_t S3; };
template<> struct tgt<8> { typedef u64 U; typedef long S1; typedef long long S2; typedef unsigned long long S3; };
template<unsigned W, class R> ALWAYS u64 bits( R r )
{
    typedef tgt<W> t; u64 u = g<typename t::U>( r );
    if( g<typename t::S1>( r ) != u || g<typename t::S2>( r ) != u || g<typename t::S3>( r ) != u ) hz::viol( "signed", "%zu-byte result %llx: targets of %u bytes differ: unsigned %llx, signed %llx", sizeof(R), show( r ), W, (unsigned long long)u, (unsigned long long)g<typename t::S1>( r ) );
    return u;
}
template<class T, class R> void nx() { static_assert( noexcept( hh::get_integral_result<T>( std::declval<R const&>() ) ), "get_integral_result must be noexcept" ); static_assert( std::is_same<decltype( hh::get_integral_result<T>( std::declval<R const&>() ) ), T>::value, "returns T" ); }
template<class R> void nxs() { nx<u8, R>(); nx<signed char, R>(); nx<char, R>(); nx<u16, R>(); nx<short, R>(); nx<u32, R>(); nx<int, R>(); nx<u64, R>(); nx<long, R>(); nx<long long, R>(); nx<unsigned long long, R>(); nx<char32_t, R>(); nx<std::size_t, R>(); }

// every value of R (1, 2 or 4 bytes) ------------------------------------------------------------
template<class R, unsigned W> void narrow( char const* name )
{
    u64 const dom = 1ull << ( 8 * sizeof(R) ), img = 1ull << ( 8 * W ); std::vector<u64> cnt( img );
    for( u64 r = 0; r < dom; ++r ) ++cnt[ bits<W>( (R)r ) ];
    hz::states( dom ); hz::trans( dom * 4 ); hz::traces( dom );
    for( u64 v = 0; v < img; ++v ) if( cnt[v] != dom / img ) { hz::viol( "uniform", "%s: target value %llx has %llu preimages, not %llu", name, (unsigned long long)v, (unsigned long long)cnt[v], (unsigned long long)( dom / img ) ); break; }
    hz::sample( "%s: %llu result values, every target value has %llu preimages", name, (unsigned long long)dom, (unsigned long long)( dom / img ) );
}
template<class R, unsigned W> void widen( char const* name )
{
    u64 const dom = 1ull << ( 8 * sizeof(R) ); std::vector<u64> img; img.reserve( sizeof(R) < 4? dom: 0 );
    u64 lo[ 256 ] = {}, hi[ 256 ] = {}; std::vector<bool> low; bool inj = true; if( sizeof(R) == 4 ) low.resize( dom );
    for( u64 r = 0; r < dom; ++r ) { u64 v = bits<W>( (R)r ); ++lo[ v & 255 ]; ++hi[ v >> ( 8 * W - 8 ) ]; if( sizeof(R) < 4 ) img.push_back( v ); else { u64 k = v & ( dom - 1 ); if( low[k] ) inj = false; low[k] = true; } }
    hz::states( dom ); hz::trans( dom * 4 ); hz::traces( dom );
    if( sizeof(R) < 4 ) { std::sort( img.begin(), img.end() ); inj = std::adjacent_find( img.begin(), img.end() ) == img.end(); }
    else if( !inj ) // the low half alone does not tell results apart: decide on the whole value, in slices
    {
        inj = true; std::vector<bool>().swap( low );
        for( unsigned s = 0; s < 64 && inj; ++s ) { img.clear(); for( u64 r = 0; r < dom; ++r ) { u64 v = g<typename tgt<W>::U>( (R)r ); if( ( ( v * 0x9E3779B97F4A7C15ull ) >> 58 ) == s ) img.push_back( v ); } std::sort( img.begin(), img.end() ); inj = std::adjacent_find( img.begin(), img.end() ) == img.end(); }
    }
    if( !inj ) hz::viol( "injective", "%s: two results give the same target value", name );
    u64 ml = *std::max_element( lo, lo + 256 ), mh = *std::max_element( hi, hi + 256 ), nl = *std::min_element( lo, lo + 256 ), nh = *std::min_element( hi, hi + 256 ), fair = dom / 256;
    if( ml > 4 * fair || nl * 4 < ( sizeof(R) == 1? 0: fair ) ) hz::viol( "spread", "%s: low byte takes a value %llu times, another %llu times, of %llu", name, (unsigned long long)ml, (unsigned long long)nl, (unsigned long long)dom );
    if( mh > 4 * fair || nh * 4 < ( sizeof(R) == 1? 0: fair ) ) hz::viol( "spread", "%s: high byte takes a value %llu times, another %llu times, of %llu", name, (unsigned long long)mh, (unsigned long long)nh, (unsigned long long)dom );
    hz::sample( "%s: %llu results injective; shares of low byte values %llu..%llu, high %llu..%llu", name, (unsigned long long)dom, (unsigned long long)nl, (unsigned long long)ml, (unsigned long long)nh, (unsigned long long)mh );
}
template<class R> void same( char const* name )
{
    u64 const dom = 1ull << ( 8 * sizeof(R) );
    for( u64 r = 0; r < dom; ++r ) if( bits<sizeof(R)>( (R)r ) != r ) { hz::viol( "identity", "%s: result %llx gives %llx", name, (unsigned long long)r, (unsigned long long)bits<sizeof(R)>( (R)r ) ); break; }
    hz::states( dom ); hz::trans( dom * 4 ); hz::traces( dom );
}
UNIT( same8 ) { same<u8>( "8->8" ); } UNIT( same16 ) { same<u16>( "16->16" ); } UNIT( same32 ) { same<u32>( "32->32" ); }
UNIT( narrow16_8 ) { narrow<u16, 1>( "16->8" ); } UNIT( narrow32_8 ) { narrow<u32, 1>( "32->8" ); } UNIT( narrow32_16 ) { narrow<u32, 2>( "32->16" ); }
UNIT( widen8_16 ) { widen<u8, 2>( "8->16" ); } UNIT( widen8_32 ) { widen<u8, 4>( "8->32" ); } UNIT( widen8_64 ) { widen<u8, 8>( "8->64" ); } UNIT( widen16_32 ) { widen<u16, 4>( "16->32" ); } UNIT( widen16_64 ) { widen<u16, 8>( "16->64" ); } UNIT( widen32_64 ) { widen<u32, 8>( "32->64" ); }

// 64-bit results: enumerated families ---------------------------------------------------------------
template<class Fn> void family64( Fn fn )
{
    fn( 0 ); u64 const bg[] = { 0, ~0ull, 0x0123456789ABCDEFull, 0xA5A5A5A55A5A5A5Aull };
    for( u64 b: bg ) for( int i = 0; i < 64; ++i ) for( int j = 0; j <= i; ++j ) for( int k = 0; k <= j; ++k ) fn( b ^ ( ( 1ull << i ) | ( 1ull << j ) | ( 1ull << k ) ) );
    for( u64 b: bg ) for( int p = 0; p <= 48; p += ( hz::g_thorough? 1: 4 ) ) for( u64 v = 0; v < 65536; ++v ) fn( ( b & ~( 0xFFFFull << p ) ) | ( v << p ) );
    for( int p = 0; p < 56; p += 8 ) for( int q = p + 8; q < 64; q += 8 ) for( u64 v = 0; v < 65536; ++v ) fn( ( ( v & 255 ) << p ) | ( ( v >> 8 ) << q ) );
}
static unsigned rank( std::vector<u64> m ) { unsigned r = 0; for( int b = 63; b >= 0; --b ) { std::size_t i = r; while( i < m.size() && !( m[i] >> b & 1 ) ) ++i; if( i == m.size() ) continue; std::swap( m[i], m[r] ); for( std::size_t j = 0; j < m.size(); ++j ) if( j != r && ( m[j] >> b & 1 ) ) m[j] ^= m[r]; ++r; } return r; }
// narrowing from 64 bits: the conversion is identified from its values on single bits, as the top (or
// bottom) bits of a multiple or as a linear map, and confirmed on the families; from that form uniformity
// over all 2^64 results follows (an odd multiplier is a bijection; a linear map of full rank is balanced)
template<unsigned W> void narrow64( char const* name )
{
    unsigned const w = 8 * W, s = 64 - w; u64 const mask = ~0ull >> s;
    u64 m = 0; // multiplier: f(2^k) = top w bits of m << k
    for( unsigned k = 0; k < 64; k += w ) { u64 v = bits<W>( (u64)1 << k ); m |= k + w <= 64? v << ( 64 - w - k ): 0; }
    std::vector<u64> col( 64 ); for( int k = 0; k < 64; ++k ) col[k] = bits<W>( (u64)1 << k );
    bool mul = true, lin = true; u64 n = 0;
    u64 bm = 0, bl = 0, zero = bits<W>( (u64)0 );
    family64( [&]( u64 r ){ u64 v = bits<W>( r ); ++n; if( mul && ( ( r * m ) >> s ) != v ) { mul = false; bm = r; } if( lin ) { u64 x = zero; for( u64 t = r; t; t &= t - 1 ) x ^= col[ __builtin_ctzll( t ) ] ^ zero; if( x != v ) { lin = false; bl = r; } } } );
    hz::states( n ); hz::trans( 4 * n ); hz::traces( mul || lin? n: 0 ); (void)mask;
    if( mul ) { if( !( m & 1 ) ) hz::viol( "uniform", "%s: conversion is the top bits of an even multiple (%llx), so target values do not have equally many preimages", name, (unsigned long long)m ); hz::sample( "%s: top bits of an odd multiple %llx on %llu results", name, (unsigned long long)m, (unsigned long long)n ); }
    else if( lin ) { std::vector<u64> c( col ); for( u64& x: c ) x ^= zero; if( rank( c ) != w ) hz::viol( "uniform", "%s: conversion is linear with rank %u, so some target values have no preimage", name, rank( c ) ); }
    else
    {
        // unknown form: gross bias over the families (constant target bits, unreachable values) is still an error
        std::vector<u64> cnt( W < 4? (std::size_t)1 << w: 65536 ), cnh( 65536 ); u64 total = 0;
        family64( [&]( u64 r ){ u64 v = bits<W>( r ); ++cnt[ v % cnt.size() ]; ++cnh[ ( v >> ( w > 16? w - 16: 0 ) ) & 65535 ]; ++total; } );
        u64 miss = 0; for( u64 c: cnt ) miss += !c; if( miss * 50 > cnt.size() ) hz::viol( "uniform", "%s: %llu of %zu target values are not reached over %llu results of all patterns", name, (unsigned long long)miss, cnt.size(), (unsigned long long)total );
        u64 big = *std::max_element( cnt.begin(), cnt.end() ); if( big > 1024 + 32 * total / cnt.size() ) hz::viol( "uniform", "%s: a target value takes %llu of %llu results", name, (unsigned long long)big, (unsigned long long)total );
        printf( "INFO undetermined_form=%s\n", name );
    }
}
UNIT( narrow64_8 ) { narrow64<1>( "64->8" ); } UNIT( narrow64_16 ) { narrow64<2>( "64->16" ); } UNIT( narrow64_32 ) { narrow64<4>( "64->32" ); }
template<class R> void same64( char const* name ) { u64 n = 0; family64( [&]( u64 r ){ ++n; if( bits<8>( (R)r ) != r ) hz::viol( "identity", "%s: result %llx gives %llx", name, (unsigned long long)r, (unsigned long long)bits<8>( (R)r ) ); } ); hz::states( n ); hz::trans( 4 * n ); hz::traces( n ); }
UNIT( same64 ) { same64<unsigned long>( "ulong" ); same64<unsigned long long>( "ulonglong" ); }
// the two 64-bit types behave alike
UNIT( alike ) { u64 n = 0; family64( [&]( u64 r ){ ++n; if( g<u8>( (unsigned long)r ) != g<u8>( (unsigned long long)r ) || g<u16>( (unsigned long)r ) != g<u16>( (unsigned long long)r ) || g<u32>( (unsigned long)r ) != g<u32>( (unsigned long long)r ) ) hz::viol( "alike", "unsigned long and unsigned long long result %llx", (unsigned long long)r ); } ); hz::states( n ); hz::trans( 6 * n ); }

// array-like ------------------------------------------------------------------------------------------
template<class A> A mk( u64 v, u8 fill ) { A a; for( std::size_t i = 0; i < a.size(); ++i ) *( a.data() + i ) = i < 8? (u8)( v >> 8*i ): (u8)( fill * ( i + 1 ) + ( fill? 1: 0 ) ); return a; }
template<class A> void array( char const* name )
{
    nxs<A>(); u64 n = 0;
    auto one = [&]( u64 r, u8 fill ){ A a = mk<A>( r, fill ); ++n; if( bits<8>( a ) != r || bits<4>( a ) != (u32)r || bits<2>( a ) != (u16)r || bits<1>( a ) != (u8)r ) hz::viol( "array", "%s with first bytes %016llx (little-endian): gives %llx %llx %llx %llx", name, (unsigned long long)r, (unsigned long long)bits<8>( a ), (unsigned long long)bits<4>( a ), (unsigned long long)bits<2>( a ), (unsigned long long)bits<1>( a ) ); };
    u64 const bg[] = { 0, ~0ull, 0x0123456789ABCDEFull, 0x8877665544332211ull };
    for( u64 b: bg ) for( int p = 0; p < 64; p += 8 ) for( u64 v = 0; v < 256; ++v ) for( u8 f: { 0, 1, 255 } ) one( ( b & ~( 0xFFull << p ) ) | ( v << p ), f );
    for( int p = 0; p < 64; p += 8 ) for( int q = 0; q < p; q += 8 ) for( u64 v = 0; v < 65536; v += ( hz::g_thorough? 1: 3 ) ) one( ( ( v & 255 ) << p ) | ( ( v >> 8 ) << q ), 0xA5 );
    for( int i = 0; i < 64; ++i ) for( int j = 0; j <= i; ++j ) one( ( 1ull << i ) | ( 1ull << j ), 0 );
    hz::states( n ); hz::trans( 16 * n ); hz::traces( n ); hz::sample( "%s: %llu arrays", name, (unsigned long long)n );
}
template<std::size_t N> using sa = std::array<u8, N>;
UNIT( digest8 ) { array<hh::digest<8> >( "digest<8>" ); } UNIT( digest9 ) { array<hh::digest<9> >( "digest<9>" ); } UNIT( digest16 ) { array<hh::digest<16> >( "digest<16>" ); } UNIT( digest20 ) { array<hh::digest<20> >( "digest<20>" ); } UNIT( digest28 ) { array<hh::digest<28> >( "digest<28>" ); } UNIT( digest32 ) { array<hh::digest<32> >( "digest<32>" ); } UNIT( digest48 ) { array<hh::digest<48> >( "digest<48>" ); } UNIT( digest64 ) { array<hh::digest<64> >( "digest<64>" ); }
UNIT( array8 ) { array<sa<8> >( "array<8>" ); } UNIT( array11 ) { array<sa<11> >( "array<11>" ); } UNIT( array32 ) { array<sa<32> >( "array<32>" ); } UNIT( array256 ) { array<sa<256> >( "array<256>" ); }

// a sequence of results of a real algorithm, all targets against the same bits as unsigned
UNIT( noexcepts ) { nxs<u8>(); nxs<u16>(); nxs<u32>(); nxs<u64>(); nxs<unsigned long long>(); hz::states( 5 ); hz::trans( 65 ); }
#if __cplusplus >= 201402L
// constant expressions: tables computed by the compiler against run time
template<class T, class R> struct tab { T v[ 256 ]; };
template<class T, class R> constexpr tab<T, R> mktab() { tab<T, R> t{}; for( int i = 0; i < 256; ++i ) t.v[i] = hh::get_integral_result<T>( (R)( (R)i * (R)( sizeof(R) == 1? 1: 0x0101010101010101ull * 0x35 + 1 ) ) ); return t; }
template<class T, class R> void ct( char const* name )
{
    constexpr tab<T, R> t = mktab<T, R>();
    for( int i = 0; i < 256; ++i ) { R volatile r = (R)( (R)i * (R)( sizeof(R) == 1? 1: 0x0101010101010101ull * 0x35 + 1 ) ); R q = r; if( hh::get_integral_result<T>( q ) != t.v[i] ) hz::viol( "constexpr", "%s: result %llx at compile time gives %llx, at run time %llx", name, (unsigned long long)q, (unsigned long long)t.v[i], (unsigned long long)hh::get_integral_result<T>( q ) ); }
    hz::states( 256 ); hz::trans( 512 ); hz::traces( 256 );
}
template<class R> void cts( char const* n ) { ct<u8, R>( n ); ct<signed char, R>( n ); ct<u16, R>( n ); ct<short, R>( n ); ct<u32, R>( n ); ct<int, R>( n ); ct<u64, R>( n ); ct<long long, R>( n ); ct<char32_t, R>( n ); }
UNIT( constexpr_tables ) { cts<u8>( "u8" ); cts<u16>( "u16" ); cts<u32>( "u32" ); cts<u64>( "u64" ); cts<unsigned long long>( "ull" ); }
#endif
