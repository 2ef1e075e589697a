// C07: scalars serialise to their value representation in the flavor's byte order.
#define HARNESS_MAIN
#include "common.hpp"
#include "spec.hpp"
#include <limits>

// cheap fixed-size recorder for the exhaustive sweeps
struct fx
{
    typedef std::uint64_t result_type;
    unsigned char b[ 32 ]; unsigned n = 0, calls = 0;
    void update( void const* p, std::size_t k ) { ++calls; if( n + k <= sizeof b ) std::memcpy( b + n, p, k ); n += (unsigned)k; }
    result_type result() { return sp::mix( b, n < sizeof b? n: sizeof b, 1 ); }
};

struct stateful { typedef std::uint32_t size_type; static constexpr auto byte_order = hh::endian::big; int tag; };

template<class F, class T> inline void one( char const* tn, char const* fn, T const& v, unsigned long long bits )
{
    fx a, e; hh::hash_append( a, F(), v ); sp::app<F>( e, v );
    hz::trans();
    if( a.n != e.n || std::memcmp( a.b, e.b, e.n ) != 0 || a.calls == 0 )
        hz::viol( "scalar", "%s, flavor %s, value bits %016llx: sent %s (%u bytes), value representation is %s", tn, fn, bits, hz::hex( a.b, a.n < 32? a.n: 32 ).c_str(), a.n, hz::hex( e.b, e.n ).c_str() );
}
template<class T> void all_flavors( char const* tn, T const& v, unsigned long long bits )
{
    hz::states(); hz::traces();
    one<hh::default_flavor>( tn, "default", v, bits );
    one<hh::little_endian_flavor>( tn, "little", v, bits );
    one<hh::big_endian_flavor>( tn, "big", v, bits );
    one<sp::le32>( tn, "le32", v, bits );
    one<sp::be32>( tn, "be32", v, bits );
    one<sp::ne32>( tn, "ne32", v, bits );
}
// the explicit flavors say what they say: independent of S<>, byte by byte
template<class T> void direct( char const* tn, T const& v, unsigned long long bits, unsigned n )
{
    fx l, b; hh::hash_append( l, hh::little_endian_flavor(), v ); hh::hash_append( b, hh::big_endian_flavor(), v );
    hz::trans( 2 );
    bool ok = l.n == n && b.n == n;
    for( unsigned i = 0; ok && i < n; ++i ) ok = l.b[i] == (unsigned char)( bits >> 8*i ) && b.b[ n-1-i ] == l.b[i];
    if( !ok ) hz::viol( "scalar-bytes", "%s bits %016llx: little %s big %s", tn, bits, hz::hex( l.b, l.n ).c_str(), hz::hex( b.b, b.n ).c_str() );
}

// the bit patterns enumerated for an n-byte scalar
template<class Fn> void patterns( unsigned n, Fn fn )
{
    if( n == 1 ) { for( unsigned x = 0; x < 256; ++x ) fn( x ); return; }
    if( n == 2 ) { for( unsigned x = 0; x < 65536; ++x ) fn( x ); return; }
    unsigned long long mask = n == 8? ~0ull: ( 1ull << 8*n ) - 1;
    unsigned long long const bg[] = { 0, ~0ull, 0x0102030405060708ull, 0xF0E1D2C3B4A59687ull };
    for( unsigned b = 0; b < 4; ++b )
    for( unsigned i = 0; i < n; ++i )
    for( unsigned x = 0; x < 256; ++x )
    for( unsigned j = i; j < n; ++j )
    {
        // every value at every byte position, a second position at extreme values
        static unsigned const ys[] = { 0, 1, 0x7F, 0x80, 0xFF };
        for( unsigned y = 0; y < 5; ++y )
        {
            unsigned long long w = bg[b]; w &= ~( 0xFFull << 8*j ); w |= (unsigned long long)ys[y] << 8*j; w &= ~( 0xFFull << 8*i ); w |= (unsigned long long)x << 8*i;
            fn( w & mask );
            if( j == i ) break;
        }
    }
    for( unsigned i = 0; i < 8*n; ++i ) for( unsigned j = i; j < 8*n; ++j ) { fn( ( ( 1ull << i ) | ( 1ull << j ) ) & mask ); fn( ( ~( ( 1ull << i ) | ( 1ull << j ) ) ) & mask ); }
}

template<class T> void ints( char const* tn )
{
    patterns( sizeof(T), [&]( unsigned long long x )
    {
        T v; std::memcpy( &v, &x, sizeof(T) ); // little-endian host
        all_flavors( tn, v, x ); direct( tn, v, x, sizeof(T) );
    });
    hz::sample( "%s: %s", tn, hz::hexc( sp::lib<hh::big_endian_flavor>( std::numeric_limits<T>::max() ) ).c_str() );
}
#define INTS(N,T) UNIT( N ) { ints<T>( #T ); }
INTS( char_, char ) INTS( schar_, signed char ) INTS( uchar_, unsigned char ) INTS( short_, short ) INTS( ushort_, unsigned short ) INTS( int_, int ) INTS( uint_, unsigned )
INTS( long_, long ) INTS( ulong_, unsigned long ) INTS( llong_, long long ) INTS( ullong_, unsigned long long ) INTS( wchar_, wchar_t ) INTS( char16_, char16_t ) INTS( char32_, char32_t )
#if defined(__cpp_char8_t)
INTS( char8_, char8_t )
#endif
UNIT( bool_ ) { for( int k = 0; k < 2; ++k ) { bool b = k != 0; all_flavors( "bool", b, k ); direct( "bool", b, k, 1 ); } }

template<class E> void enums( char const* tn )
{
    typedef typename std::underlying_type<E>::type U;
    patterns( sizeof(E), [&]( unsigned long long x )
    {
        U u; std::memcpy( &u, &x, sizeof u ); E v = static_cast<E>( u );
        all_flavors( tn, v, x ); direct( tn, v, x, sizeof(E) );
        // same as the underlying value
        fx a, b; hh::hash_append( a, hh::big_endian_flavor(), v ); hh::hash_append( b, hh::big_endian_flavor(), u );
        if( a.n != b.n || std::memcmp( a.b, b.b, a.n ) ) hz::viol( "enum", "%s %llx differs from its underlying value", tn, x );
    });
}
enum e1: unsigned char {}; enum e2: short {}; enum e3: int {}; enum e4: unsigned long long {}; enum e9: char {};
enum class s1: signed char {}; enum class s2: unsigned short {}; enum class s3 {}; enum class s4: long long {}; enum class s5: char32_t {};
UNIT( enum_u8 ) { enums<e1>( "enum:uchar" ); enums<s1>( "enum class:schar" ); enums<e9>( "enum:char" ); }
UNIT( enum_16 ) { enums<e2>( "enum:short" ); enums<s2>( "enum class:ushort" ); }
UNIT( enum_32 ) { enums<e3>( "enum:int" ); enums<s3>( "enum class" ); enums<s5>( "enum class:char32_t" ); }
UNIT( enum_64 ) { enums<e4>( "enum:ull" ); enums<s4>( "enum class:ll" ); }
enum class sb: bool { no, yes }; enum plain { p0, p1, p255 = 255, pbig = 70000 };
UNIT( enum_misc ) { sb a[] = { sb::no, sb::yes }; for( int i = 0; i < 2; ++i ) { all_flavors( "enum class:bool", a[i], i ); direct( "enum class:bool", a[i], i, 1 ); }
    plain b[] = { p0, p1, p255, pbig }; for( int i = 0; i < 4; ++i ) { all_flavors( "plain enum", b[i], b[i] ); direct( "plain enum", b[i], (unsigned)b[i], sizeof(plain) ); } }

struct incomplete; struct X {}; 
template<class P> void ptrs( char const* tn )
{
    patterns( sizeof(P), [&]( unsigned long long x )
    {
        P p; std::memcpy( &p, &x, sizeof p );
        all_flavors( tn, p, x ); direct( tn, p, x, sizeof p );
    });
}
UNIT( ptr_obj ) { ptrs<int*>( "int*" ); ptrs<X const*>( "X const*" ); }
UNIT( ptr_void ) { ptrs<void*>( "void*" ); ptrs<void const volatile*>( "void const volatile*" ); }
UNIT( ptr_char ) { ptrs<char const*>( "char const*" ); ptrs<unsigned char*>( "unsigned char*" ); }
UNIT( ptr_fn ) { ptrs<void(*)()>( "function pointer" ); ptrs<int(*)( int, X* )>( "int(*)(int,X*)" ); }
UNIT( ptr_misc ) { ptrs<int**>( "int**" ); ptrs<incomplete*>( "incomplete*" ); ptrs<int(*)[3]>( "int(*)[3]" ); }
UNIT( nullptr_ )
{
    std::nullptr_t np = nullptr; void* v = nullptr;
    all_flavors( "nullptr_t", np, 0 ); direct( "nullptr_t", np, 0, sizeof(void*) );
    all_flavors( "void*(0)", v, 0 );
    fx a, b; hh::hash_append( a, {}, nullptr ); hh::hash_append( b, {}, v ); if( a.n != b.n || std::memcmp( a.b, b.b, a.n ) ) hz::viol( "nullptr", "nullptr and (void*)0 differ" );
}

template<class T, class U> inline void flt( char const* tn, U x, bool wide )
{
    T v; std::memcpy( &v, &x, sizeof v );
    U e = (U)( x << 1 ) == 0? 0: x; // negative zero as positive zero
    if( wide ) all_flavors( tn, v, x );
    direct( tn, v, e, sizeof(T) );
    hz::states();
}
// all sign/exponent/high-fraction halves against the low halves below
static std::uint32_t const lows[] = { 0, 1, 2, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x00FF, 0xFF00, 0x1234 };
UNIT( float_grid ) { for( std::uint32_t hi = 0; hi < 65536; ++hi ) for( unsigned k = 0; k < 10; ++k ) flt<float, std::uint32_t>( "float", hi << 16 | lows[k], true ); }
UNIT( double_grid ) { for( std::uint64_t hi = 0; hi < 65536; ++hi ) for( unsigned k = 0; k < 10; ++k ) { flt<double, std::uint64_t>( "double", hi << 48 | lows[k], true ); flt<double, std::uint64_t>( "double", hi << 48 | (std::uint64_t)lows[k] << 20, false ); } }
UNIT( float_special )
{
    patterns( 4, []( unsigned long long x ) { flt<float, std::uint32_t>( "float", (std::uint32_t)x, true ); });
    patterns( 8, []( unsigned long long x ) { flt<double, std::uint64_t>( "double", x, true ); });
    float fs[] = { 0.f, -0.f, 1.f, -1.f, std::numeric_limits<float>::infinity(), std::numeric_limits<float>::denorm_min(), std::numeric_limits<float>::min(), std::numeric_limits<float>::max() };
    for( float f: fs ) { std::uint32_t u; std::memcpy( &u, &f, 4 ); flt<float>( "float", u, true ); }
    // -0 equals +0 wherever it appears
    double z[2] = { 0.0, -0.0 }; if( sp::lib<hh::little_endian_flavor>( z[0] ) != sp::lib<hh::little_endian_flavor>( z[1] ) ) hz::viol( "negzero", "0.0 and -0.0 differ" );
}
#define FLT_ALL(k) UNIT( float_all_##k ) { hz::traces(); \
    for( std::uint64_t x = (std::uint64_t)k << 29; x < (std::uint64_t)( k + 1 ) << 29; ++x ) flt<float, std::uint32_t>( "float", (std::uint32_t)x, false ); }
FLT_ALL(0) FLT_ALL(1) FLT_ALL(2) FLT_ALL(3) FLT_ALL(4) FLT_ALL(5) FLT_ALL(6) FLT_ALL(7)
#define U32_ALL(k) UNIT( uint_all_##k ) { hz::traces(); \
    for( std::uint64_t x = (std::uint64_t)k << 30; x < (std::uint64_t)( k + 1 ) << 30; ++x ) { direct( "uint32_t", (std::uint32_t)x, x, 4 ); hz::states(); } }
U32_ALL(0) U32_ALL(1) U32_ALL(2) U32_ALL(3)

#define DBL_ALL(k) UNIT( double_deep_##k ) { hz::traces(); if( !hz::g_thorough ) { hz::states(); hz::trans(); return; } \
    for( std::uint64_t hi = k * 8192; hi < ( k + 1 ) * 8192; ++hi ) for( unsigned i = 0; i < 48; ++i ) for( unsigned x = 0; x < 256; ++x ) flt<double, std::uint64_t>( "double", hi << 48 | ( (std::uint64_t)x << i & 0xFFFFFFFFFFFFull ), false ); }
DBL_ALL(0) DBL_ALL(1) DBL_ALL(2) DBL_ALL(3) DBL_ALL(4) DBL_ALL(5) DBL_ALL(6) DBL_ALL(7)

// sizes: hash_append_size( h, f, v ) is the value as Flavor::size_type
template<class F, class T> void sz( char const* fn, T v, unsigned long long x )
{
    fx a, e; hh::hash_append_size( a, F(), v ); sp::size<F>( e, (unsigned long long)v ); hz::states(); hz::trans(); hz::traces();
    if( a.n != e.n || std::memcmp( a.b, e.b, e.n ) ) hz::viol( "size", "hash_append_size %llx flavor %s: sent %s", x, fn, hz::hex( a.b, a.n ).c_str() );
}
template<class T> void szs()
{
    patterns( sizeof(T), []( unsigned long long x ) { T v; std::memcpy( &v, &x, sizeof v ); 
        sz<hh::default_flavor>( "default", v, x ); sz<hh::little_endian_flavor>( "little", v, x ); sz<hh::big_endian_flavor>( "big", v, x ); sz<sp::le32>( "le32", v, x ); sz<sp::be32>( "be32", v, x ); sz<sp::ne32>( "ne32", v, x ); } );
}
UNIT( size_sz ) { szs<std::size_t>(); } UNIT( size_int ) { szs<int>(); szs<unsigned>(); } UNIT( size_small ) { szs<unsigned char>(); szs<signed char>(); szs<short>(); szs<unsigned short>(); } UNIT( size_pd ) { szs<std::ptrdiff_t>(); szs<unsigned long long>(); }

// scalar const / volatile-free lvalues, bit-fields through values, default flavor argument
UNIT( forms )
{
    int const ci = -5; all_flavors( "int const", ci, 0 );
    fx a, b; hh::hash_append( a, {}, 0x01020304u ); hh::hash_append( b, hh::default_flavor(), 0x01020304u ); if( a.n != 4 || std::memcmp( a.b, b.b, 4 ) ) hz::viol( "default-flavor", "{} is not default_flavor" );
    stateful f{ 7 }; fx c; hh::hash_append( c, f, (short)0x0102 ); if( c.n != 2 || c.b[0] != 1 || c.b[1] != 2 ) hz::viol( "flavor-object", "user flavor with state ignored" );
    struct bf { unsigned x: 3; } v = { 5 }; fx d; hh::hash_append( d, hh::little_endian_flavor(), v.x ); if( d.n != sizeof(unsigned) || d.b[0] != 5 ) hz::viol( "bitfield", "bit-field value" );
    hz::states( 4 ); hz::trans( 4 ); hz::traces( 4 );
}
