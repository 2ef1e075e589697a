// A minimal C and C++ runtime for executing the harness without any library: i386, x86-64,
// mips, mips64 (either byte order). Output through the write system call.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void* memcpy( void* d, void const* s, std::size_t n ) { unsigned char* a = (unsigned char*)d; unsigned char const* b = (unsigned char const*)s; while( n-- ) { *a++ = *b++; __asm__ volatile( "" ); } return d; }
void* memmove( void* d, void const* s, std::size_t n ) { unsigned char* a = (unsigned char*)d; unsigned char const* b = (unsigned char const*)s; if( a < b ) while( n-- ) { *a++ = *b++; __asm__ volatile( "" ); } else { while( n-- ) { a[n] = b[n]; __asm__ volatile( "" ); } } return d; }
void* memset( void* d, int c, std::size_t n ) { unsigned char* a = (unsigned char*)d; while( n-- ) { *a++ = (unsigned char)c; __asm__ volatile( "" ); } return d; }
int memcmp( void const* p, void const* q, std::size_t n ) { unsigned char const* a = (unsigned char const*)p; unsigned char const* b = (unsigned char const*)q; for( ; n; --n, ++a, ++b ) if( *a != *b ) return *a < *b? -1: 1; return 0; }
int bcmp( void const* p, void const* q, std::size_t n ) { return memcmp( p, q, n ); }
std::size_t strlen( char const* s ) { std::size_t n = 0; while( s[n] ) ++n; return n; }
void* __dso_handle; int __cxa_atexit( void (*)( void* ), void*, void* ) { return 0; }
void __cxa_pure_virtual() { __builtin_trap(); }
}
#if __SIZEOF_POINTER__ == 4
static inline std::uint64_t udm( std::uint64_t a, std::uint64_t b, std::uint64_t& r ) { std::uint64_t q = 0; r = 0; for( int i = 63; i >= 0; --i ) { bool c = r >> 63; r = r << 1 | ( a >> i & 1 ); if( c || r >= b ) { r -= b; q |= (std::uint64_t)1 << i; } } return q; }
extern "C" {
std::uint64_t __udivdi3( std::uint64_t a, std::uint64_t b ) { std::uint64_t r; return udm( a, b, r ); } std::uint64_t __umoddi3( std::uint64_t a, std::uint64_t b ) { std::uint64_t r; udm( a, b, r ); return r; }
std::int64_t __divdi3( std::int64_t a, std::int64_t b ) { std::uint64_t r, q = udm( a < 0? 0 - (std::uint64_t)a: a, b < 0? 0 - (std::uint64_t)b: b, r ); return ( a < 0 ) != ( b < 0 )? (std::int64_t)( 0 - q ): (std::int64_t)q; }
std::int64_t __moddi3( std::int64_t a, std::int64_t b ) { std::uint64_t r; udm( a < 0? 0 - (std::uint64_t)a: a, b < 0? 0 - (std::uint64_t)b: b, r ); return a < 0? (std::int64_t)( 0 - r ): (std::int64_t)r; }
}
#endif
static inline long sys3( long nr, long a, long b, long c );
#if defined(__mips__)
# if __mips == 64
#  define NR_write 5001
#  define NR_exit 5058
# else
#  define NR_write 4004
#  define NR_exit 4001
# endif
static inline long sys3( long nr, long a, long b, long c ) { register long v0 __asm__( "$2" ) = nr; register long a0 __asm__( "$4" ) = a; register long a1 __asm__( "$5" ) = b; register long a2 __asm__( "$6" ) = c; __asm__ volatile( "syscall" : "+r"( v0 ) : "r"( a0 ), "r"( a1 ), "r"( a2 ) : "memory", "$1", "$3", "$7", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25" ); return v0; }
// comparisons of floating point values without a floating point unit
template<class U> static int fcmp( U a, U b, U inf ) { U m = ~( (U)1 << ( sizeof(U) * 8 - 1 ) ); if( ( a & m ) > inf || ( b & m ) > inf ) return 2; if( !( ( a | b ) & m ) ) return 0; return a == b? 0: 1; }
extern "C" { 
static std::uint32_t fb( float x ) { std::uint32_t u; __builtin_memcpy( &u, &x, 4 ); return u; } static std::uint64_t db( double x ) { std::uint64_t u; __builtin_memcpy( &u, &x, 8 ); return u; }
int __eqsf2( float a, float b ) { return fcmp<std::uint32_t>( fb( a ), fb( b ), 0x7F800000u ); } int __nesf2( float a, float b ) { return __eqsf2( a, b ); } int __eqdf2( double a, double b ) { return fcmp<std::uint64_t>( db( a ), db( b ), 0x7FF0000000000000ull ); } int __nedf2( double a, double b ) { return __eqdf2( a, b ); } // sums with a zero operand only
float __addsf3( float a, float b ) { std::uint32_t x = fb( a ), y = fb( b ); if( !( ( x | y ) << 1 ) ) x &= y; else if( !( x << 1 ) ) x = y; else if( y << 1 ) __builtin_trap(); if( x << 1 > 0xFF000000u ) x |= 0x00400000u; float r; __builtin_memcpy( &r, &x, 4 ); return r; }
double __adddf3( double a, double b ) { std::uint64_t x = db( a ), y = db( b ); if( !( ( x | y ) << 1 ) ) x &= y; else if( !( x << 1 ) ) x = y; else if( y << 1 ) __builtin_trap(); if( x << 1 > 0xFFE0000000000000ull ) x |= 0x0008000000000000ull; double r; __builtin_memcpy( &r, &x, 8 ); return r; }
int __unordsf2( float a, float b ) { return __eqsf2( a, b ) == 2; } int __unorddf2( double a, double b ) { return __eqdf2( a, b ) == 2; }
}
#elif defined(__i386__)
# define NR_write 4
# define NR_exit 1
static inline long sys3( long nr, long a, long b, long c ) { long r; __asm__ volatile( "int $0x80" : "=a"( r ) : "a"( nr ), "b"( a ), "c"( b ), "d"( c ) : "memory" ); return r; }
#else
# define NR_write 1
# define NR_exit 60
static inline long sys3( long nr, long a, long b, long c ) { long r; __asm__ volatile( "syscall" : "=a"( r ) : "a"( nr ), "D"( a ), "S"( b ), "d"( c ) : "rcx", "r11", "memory" ); return r; }
#endif
static char bare_buf[ 65536 ]; static std::size_t bare_n;
static void flush() { std::size_t i = 0; while( i < bare_n ) { long k = sys3( NR_write, 1, (long)( bare_buf + i ), (long)( bare_n - i ) ); if( k <= 0 ) break; i += k; } bare_n = 0; }
static void out( char const* p, std::size_t n ) { for( std::size_t i = 0; i < n; ++i ) { if( bare_n == sizeof bare_buf ) flush(); bare_buf[ bare_n++ ] = p[i]; } }
static inline void quit( int c ) { flush(); for( ;; ) sys3( NR_exit, c, 0, 0 ); }
alignas( 16 ) static char heap[ 16 << 20 ]; static std::size_t hp;
void* operator new( std::size_t n ) { std::size_t k = ( n + 31 ) & ~(std::size_t)15; if( hp + k > sizeof heap ) quit( 7 ); void* p = heap + hp; hp += k; return p; } void operator delete( void* ) noexcept {} void operator delete( void*, std::size_t ) noexcept {} void* operator new[]( std::size_t n ) { return operator new( n ); } void operator delete[]( void* ) noexcept {}
namespace std { void __throw_length_error( char const* ) { quit( 8 ); __builtin_unreachable(); } void __throw_logic_error( char const* ) { quit( 8 ); __builtin_unreachable(); } void __throw_out_of_range_fmt( char const*, ... ) { quit( 8 ); __builtin_unreachable(); } void __throw_bad_alloc() { quit( 8 ); __builtin_unreachable(); } void __throw_bad_array_new_length() { quit( 8 ); __builtin_unreachable(); } }
extern "C" void abort() noexcept { quit( 9 ); __builtin_unreachable(); }
int main();
extern "C" void start_c() { quit( main() ); }
#if defined(__mips__)
# if __mips == 64
__asm__( ".globl __start\n.set noreorder\n__start:\n dla $25, start_c\n jalr $25\n nop\n.set reorder\n" );
# else
__asm__( ".globl __start\n.set noreorder\n__start:\n la $25, start_c\n jalr $25\n nop\n.set reorder\n" );
# endif
#elif defined(__i386__)
__asm__( ".globl _start\n_start:\n and $-16, %esp\n call start_c\n" );
#else
__asm__( ".globl _start\n_start:\n and $-16, %rsp\n call start_c\n" );
#endif
