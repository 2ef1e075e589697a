// Common runtime of the harnesses: work units, counters, reporting. C++11.
//   prog --list            names the units
//   prog --unit NAME       runs one unit; prints SAMPLE / VIOL / STAT lines
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <csignal>
#include <unistd.h>

namespace hz {

struct unit { char const* name; void (*fn)(); };
inline std::vector<unit>& units() { static std::vector<unit> v; return v; }
struct reg { reg( char const* n, void (*f)() ) { unit u = { n, f }; units().push_back( u ); } };

extern unsigned long long g_states, g_trans, g_traces, g_viol, g_samples;
extern bool g_thorough, g_truncated;
extern char g_case[ 512 ];

inline void states( unsigned long long k = 1 ) { g_states += k; }
inline void trans( unsigned long long k = 1 ) { g_trans += k; }
inline void traces( unsigned long long k = 1 ) { g_traces += k; }

// remembers the case being executed, for reports about crashes
inline void cur( char const* fmt, ... ) { va_list a; va_start( a, fmt ); vsnprintf( g_case, sizeof g_case, fmt, a ); va_end( a ); }

inline void viol( char const* key, char const* fmt, ... )
{
    ++g_viol;
    static std::map<std::string,int> seen; // at most two reports per key and 12 keys
    if( !seen.count( key ) && seen.size() >= 12 ) return;
    if( ++seen[ key ] > 2 ) return;
    char b[ 2048 ]; va_list a; va_start( a, fmt ); vsnprintf( b, sizeof b, fmt, a ); va_end( a );
    printf( "VIOL key=%s %s\n", key, b ); fflush( stdout );
}
inline void sample( char const* fmt, ... )
{
    if( ++g_samples > 3 ) return;
    char b[ 1024 ]; va_list a; va_start( a, fmt ); vsnprintf( b, sizeof b, fmt, a ); va_end( a );
    printf( "SAMPLE %s\n", b );
}

template<class P> inline std::string hex( P const* p, std::size_t n )
{
    static char const d[] = "0123456789abcdef"; std::string s;
    unsigned char const* q = reinterpret_cast<unsigned char const*>( p );
    for( std::size_t i = 0; i < n && i < 160; ++i ) { s += d[ q[i] >> 4 ]; s += d[ q[i] & 15 ]; }
    if( n > 160 ) s += "...";
    return s;
}
template<class C> inline std::string hexc( C const& c ) { return c.size() == 0? std::string(): hex( &c[0], c.size() ); }

} // namespace hz

#define UNIT_(a,b) a##b
#define UNIT(name) static void UNIT_(unit_,name)(); static hz::reg UNIT_(reg_,name)( #name, &UNIT_(unit_,name) ); static void UNIT_(unit_,name)()

#ifdef HARNESS_MAIN
namespace hz {
unsigned long long g_states = 0, g_trans = 0, g_traces = 0, g_viol = 0, g_samples = 0;
bool g_thorough = false, g_truncated = false;
char g_case[ 512 ];
}
#if defined(__SANITIZE_ADDRESS__)
# define HZ_SAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(undefined_behavior_sanitizer)
#  define HZ_SAN 1
# endif
#endif
#ifdef HZ_SAN
extern "C" void __sanitizer_set_death_callback( void (*)() );
#endif
static void hz_dead()
{
    static char const m[] = "\nCRASHCASE "; (void)!write( 2, m, sizeof m - 1 );
    (void)!write( 2, hz::g_case, strlen( hz::g_case ) ); (void)!write( 2, "\n", 1 );
}
static void hz_sig( int s ) { hz_dead(); signal( s, SIG_DFL ); raise( s ); }
int main( int argc, char const* argv[] )
{
    std::string u; bool list = false;
    for( int i = 1; i < argc; ++i )
    {
        std::string a = argv[i];
        if( a == "--list" ) list = true;
        else if( a == "--unit" && i + 1 < argc ) u = argv[ ++i ];
        else if( a == "--thorough" ) hz::g_thorough = true;
    }
    if( list ) { for( std::size_t i = 0; i < hz::units().size(); ++i ) puts( hz::units()[i].name ); return 0; }
#ifdef HZ_SAN
    __sanitizer_set_death_callback( hz_dead ); signal( SIGABRT, hz_sig );
#else
    signal( SIGSEGV, hz_sig ); signal( SIGABRT, hz_sig ); signal( SIGBUS, hz_sig ); signal( SIGFPE, hz_sig ); signal( SIGILL, hz_sig );
#endif
    signal( SIGXCPU, hz_sig );
    bool found = false;
    for( std::size_t i = 0; i < hz::units().size(); ++i ) if( u.empty() || u == hz::units()[i].name ) { found = true; hz::units()[i].fn(); }
    if( !found ) return 9;
    printf( "STAT states=%llu trans=%llu traces=%llu viol=%llu truncated=%d\n", hz::g_states, hz::g_trans, hz::g_traces, hz::g_viol, (int)hz::g_truncated );
    printf( "DONE\n" );
    return 0;
}
#endif
