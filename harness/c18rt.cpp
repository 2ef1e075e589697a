// C18 (threads): a model checker for the instrumented scripts of c18ops.cpp.
// Real pthreads run one at a time under a controlled scheduler. Every memory access of the
// instrumented code is recorded; accesses of different threads to the same byte, one of them a
// write, not ordered by synchronization, are data races. If no two threads' accesses conflict,
// all interleavings are equivalent to the serial ones (which are all executed). Otherwise all
// schedules that switch threads at the conflicting and synchronizing accesses, up to a
// preemption bound, are executed, each in a fresh process.
#define HARNESS_MAIN
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <dlfcn.h>
#include <pthread.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
typedef unsigned char u8;
#include "c18sweep.hpp"
int op_count(); char const* op_name( int ); void op_setup( int ); void op_run( int, int, u8* );
std::vector<sweep_entry>& sweeps() { static std::vector<sweep_entry>* v = new std::vector<sweep_entry>; return *v; }
static char const* nm( int i ) { int n = op_count(); return i < n? op_name( i ): sweeps()[ i - n ].name; }
static void setup( int i ) { int n = op_count(); if( i < n ) op_setup( i ); else if( sweeps()[ i - n ].setup ) sweeps()[ i - n ].setup(); }
static void runop( int i, int id, u8* o ) { int n = op_count(); if( i < n ) op_run( i, id, o ); else sweeps()[ i - n ].f( id, o, o + 256 ); }

static int const MT = 3, MAXC = 4096, MAXP = 20000;
struct shm // shared between the explorer and the processes that run schedules
{
    u8 out[ MT ][ 256 ]; unsigned long long accesses; int status; // 0 ok, 1 deadlock
    int np; struct pt { u8 enabled, chosen, cur, free; } p[ MAXP ]; int nd; u8 d[ MAXP ];
    int nc; std::uintptr_t c[ MAXC ]; int races; char race[ 300 ];
};
static shm* S;
static thread_local int tid = -1; static int nth;
static std::atomic<int> turn; static bool finished_[ MT ], blocked_[ MT ];

// ---- vector clocks and shadow ------------------------------------------------------
static unsigned vc[ MT ][ MT ];
struct cell { std::uintptr_t a; unsigned wc, rc[ MT ]; u8 wt, seen; }; // seen: threads that touched it; bit 7: written
static cell* tab; static std::size_t const TN = 1u << 22;
struct sobj { void const* a; unsigned v[ MT ]; int owner; }; static sobj* syn; static int const SN = 4096;
static sobj& sy( void const* a ) { for( std::size_t i = ( (std::uintptr_t)a >> 2 ) % SN;; i = ( i + 1 ) % SN ) { if( syn[i].a == a ) return syn[i]; if( !syn[i].a ) { syn[i].a = a; syn[i].owner = -1; return syn[i]; } } }
static void acq( void const* a ) { sobj& s = sy( a ); for( int i = 0; i < MT; ++i ) if( s.v[i] > vc[tid][i] ) vc[tid][i] = s.v[i]; }
static void rel( void const* a ) { sobj& s = sy( a ); for( int i = 0; i < MT; ++i ) if( vc[tid][i] > s.v[i] ) s.v[i] = vc[tid][i]; ++vc[tid][tid]; }
static bool in_c( std::uintptr_t a ) { return S->nc && std::binary_search( S->c, S->c + S->nc, a ); }
static std::uintptr_t newc[ MAXC ]; static int nnew;

// ---- scheduler ---------------------------------------------------------------------
static void wake( std::atomic<int>* a ) { syscall( SYS_futex, a, FUTEX_WAKE, 64, nullptr, nullptr, 0 ); }
static void await( int t ) { int v; while( ( v = turn.load() ) != t ) syscall( SYS_futex, &turn, FUTEX_WAIT, v, nullptr, nullptr, 0 ); }
static void to( int t ) { turn = t; wake( &turn ); }
static int enabled() { int m = 0; for( int i = 0; i < nth; ++i ) if( !finished_[i] && !blocked_[i] ) m |= 1 << i; return m; }
static int choose( int cur, bool free ) // returns the thread to run next
{
    int e = enabled(); if( !e ) return -1;
    int def = cur >= 0 && ( e >> cur & 1 )? cur: __builtin_ctz( e ), c = def;
    if( S->np < MAXP ) { if( S->np < S->nd ) { c = S->d[ S->np ]; if( !( e >> c & 1 ) ) c = def; } shm::pt& p = S->p[ S->np++ ]; p.enabled = (u8)e; p.chosen = (u8)c; p.cur = (u8)def; p.free = free; }
    return c;
}
static int streak;
static void point() // a place where the running thread may be preempted
{
    int c = choose( tid, false ); if( c == tid && ++streak > 2000 ) { int e = enabled() & ~( 1 << tid ); streak = 0; if( e ) c = __builtin_ctz( e ); }
    if( c != tid ) { streak = 0; int me = tid; to( c ); await( me ); }
}
static void stuck() { S->status = 1; _exit( 0 ); }
static void block() { blocked_[tid] = true; int c = choose( -1, true ); if( c < 0 ) stuck(); int me = tid; to( c ); await( me ); blocked_[me] = false; } // until somebody unblocks
static void unblock() { for( int i = 0; i < nth; ++i ) blocked_[i] = false; }

static void access( void const* q, std::size_t n, bool w )
{
    if( tid < 0 ) return;
    std::uintptr_t a = (std::uintptr_t)q; ++S->accesses; bool c = false; for( std::size_t i = 0; i < n && !c; ++i ) c = in_c( a + i ); if( c ) point();
    for( std::size_t i = 0; i < n; ++i )
    {
        std::size_t h = ( ( ( a + i ) >> 6 ) * 0x9E3779B97F4A7C15ull >> 48 ) * 64 + ( ( a + i ) & 63 ); while( tab[h].a && tab[h].a != a + i ) h = ( h + 64 ) % TN; cell& x = tab[h]; x.a = a + i;
        bool race = x.wc && x.wt != tid && x.wc > vc[tid][x.wt]; if( w ) for( int u = 0; u < nth; ++u ) if( u != tid && x.rc[u] > vc[tid][u] ) race = true;
        if( race && !S->races++ ) { Dl_info f; char const* sn = dladdr( q, &f ) && f.dli_sname? f.dli_sname: "?"; snprintf( S->race, sizeof S->race, "%s of %zu bytes by thread %d at %p (%s) conflicts with an unsynchronized access of another thread", w? "write": "read", n, tid, q, sn ); }
        bool other = ( x.seen & 0x7F & ~( 1 << tid ) ) != 0; if( other && ( w || ( x.seen & 0x80 ) ) && !in_c( a + i ) && nnew < MAXC ) { bool dup = false; for( int k = nnew; k-- > 0 && nnew - k < 64; ) dup |= newc[k] == a + i; if( !dup ) newc[ nnew++ ] = a + i; }
        x.seen |= 1 << tid; if( w ) { x.seen |= 0x80; x.wt = (u8)tid; x.wc = vc[tid][tid]; } else x.rc[tid] = vc[tid][tid];
    }
}

// ---- instrumentation interface --------------------------------------------------------
extern "C" {
void __tsan_init() {} void __tsan_func_entry( void* ) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N( void* p ) { access( p, N, false ); } void __tsan_write##N( void* p ) { access( p, N, true ); } void __tsan_read_write##N( void* p ) { access( p, N, true ); } void __tsan_unaligned_read##N( void* p ) { access( p, N, false ); } void __tsan_unaligned_write##N( void* p ) { access( p, N, true ); } void __tsan_unaligned_read_write##N( void* p ) { access( p, N, true ); } void __tsan_volatile_read##N( void* p ) { access( p, N, false ); } void __tsan_volatile_write##N( void* p ) { access( p, N, true ); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update( void** p, void* ) { access( p, 8, true ); } void __tsan_vptr_read( void** p ) { access( p, 8, false ); }
void* __tsan_memcpy( void* d, void const* s, std::size_t n ) { access( s, n, false ); access( d, n, true ); return __builtin_memmove( d, s, n ); }
void* __tsan_memmove( void* d, void const* s, std::size_t n ) { access( s, n, false ); access( d, n, true ); return __builtin_memmove( d, s, n ); }
void* __tsan_memset( void* d, int c, std::size_t n ) { access( d, n, true ); return __builtin_memset( d, c, n ); }
static void apoint( void const volatile* p, int order, int kind ) // kind 1 load, 2 store, 3 both
{
    if( tid < 0 ) return; ++S->accesses; point(); (void)order; if( ( kind & 1 ) && order != 0 ) acq( (void const*)p ); if( ( kind & 2 ) && order != 0 ) rel( (void const*)p );
}
#define AT(B,T) \
 T __tsan_atomic##B##_load( T const volatile* p, int o ) { apoint( p, o, 1 ); return __atomic_load_n( p, 5 ); } \
 void __tsan_atomic##B##_store( T volatile* p, T v, int o ) { apoint( p, o, 2 ); __atomic_store_n( p, v, 5 ); } \
 T __tsan_atomic##B##_exchange( T volatile* p, T v, int o ) { apoint( p, o, 3 ); return __atomic_exchange_n( p, v, 5 ); } \
 T __tsan_atomic##B##_fetch_add( T volatile* p, T v, int o ) { apoint( p, o, 3 ); return __atomic_fetch_add( p, v, 5 ); } T __tsan_atomic##B##_fetch_sub( T volatile* p, T v, int o ) { apoint( p, o, 3 ); return __atomic_fetch_sub( p, v, 5 ); } \
 T __tsan_atomic##B##_fetch_and( T volatile* p, T v, int o ) { apoint( p, o, 3 ); return __atomic_fetch_and( p, v, 5 ); } T __tsan_atomic##B##_fetch_or( T volatile* p, T v, int o ) { apoint( p, o, 3 ); return __atomic_fetch_or( p, v, 5 ); } T __tsan_atomic##B##_fetch_xor( T volatile* p, T v, int o ) { apoint( p, o, 3 ); return __atomic_fetch_xor( p, v, 5 ); } \
 int __tsan_atomic##B##_compare_exchange_strong( T volatile* p, T* e, T v, int o, int ) { apoint( p, o, 3 ); return __atomic_compare_exchange_n( p, e, v, false, 5, 5 ); } int __tsan_atomic##B##_compare_exchange_weak( T volatile* p, T* e, T v, int o, int ) { apoint( p, o, 3 ); return __atomic_compare_exchange_n( p, e, v, false, 5, 5 ); } \
 T __tsan_atomic##B##_compare_exchange_val( T volatile* p, T e, T v, int o, int ) { apoint( p, o, 3 ); __atomic_compare_exchange_n( p, &e, v, false, 5, 5 ); return e; }
AT(8,u8) AT(16,std::uint16_t) AT(32,std::uint32_t) AT(64,std::uint64_t)
void __tsan_atomic_thread_fence( int ) { if( tid >= 0 ) point(); } void __tsan_atomic_signal_fence( int ) {}

// static local variables
int __cxa_guard_acquire( u8* g )
{
    if( tid < 0 ) { if( g[0] ) return 0; g[1] = 1; return 1; }
    point(); while( !g[0] && g[1] ) block(); if( g[0] ) { acq( g ); return 0; } g[1] = 1; return 1;
}
void __cxa_guard_release( u8* g ) { g[0] = 1; g[1] = 0; if( tid >= 0 ) { rel( g ); unblock(); point(); } }
void __cxa_guard_abort( u8* g ) { g[1] = 0; if( tid >= 0 ) { unblock(); point(); } }
// locks
typedef int (*mf)( void* ); static mf rl, ru, rt;
static void lock_( void* m ) { point(); while( sy( m ).owner >= 0 && sy( m ).owner != tid ) block(); sy( m ).owner = tid; acq( m ); }
static void unlock_( void* m ) { rel( m ); sy( m ).owner = -1; unblock(); point(); }
int pthread_mutex_lock( pthread_mutex_t* m ) noexcept { if( tid >= 0 ) { lock_( m ); return 0; } if( !rl ) rl = (mf)dlsym( RTLD_NEXT, "pthread_mutex_lock" ); return rl( m ); }
int pthread_mutex_unlock( pthread_mutex_t* m ) noexcept { if( tid >= 0 ) { unlock_( m ); return 0; } if( !ru ) ru = (mf)dlsym( RTLD_NEXT, "pthread_mutex_unlock" ); return ru( m ); }
int pthread_rwlock_rdlock( pthread_rwlock_t* m ) noexcept { if( tid >= 0 ) lock_( m ); return 0; } int pthread_rwlock_wrlock( pthread_rwlock_t* m ) noexcept { if( tid >= 0 ) lock_( m ); return 0; } int pthread_rwlock_unlock( pthread_rwlock_t* m ) noexcept { if( tid >= 0 ) unlock_( m ); return 0; }
int pthread_spin_lock( pthread_spinlock_t* m ) noexcept { if( tid >= 0 ) lock_( (void*)m ); return 0; } int pthread_spin_unlock( pthread_spinlock_t* m ) noexcept { if( tid >= 0 ) unlock_( (void*)m ); return 0; }
int pthread_once( pthread_once_t* c, void (*f)() ) { u8* g = (u8*)c; if( __cxa_guard_acquire( g ) ) { f(); __cxa_guard_release( g ); } return 0; }
}
// memory freed by one thread is not given to another
void operator delete( void* p ) noexcept { if( tid < 0 ) std::free( p ); } void operator delete( void* p, std::size_t ) noexcept { if( tid < 0 ) std::free( p ); } void operator delete[]( void* p ) noexcept { if( tid < 0 ) std::free( p ); } void operator delete[]( void* p, std::size_t ) noexcept { if( tid < 0 ) std::free( p ); }

// ---- one schedule, in a child process ---------------------------------------------------
struct job { int op, t; };
static void* body( void* q ) { job* j = (job*)q; await( j->t ); tid = j->t; runop( j->op, j->t, S->out[ j->t ] ); int me = tid; tid = -1; finished_[me] = true; int c = choose( -1, true ); if( c < 0 ) { for( int i = 0; i < nth; ++i ) if( !finished_[i] ) stuck(); to( 99 ); } else to( c ); return nullptr; }
static void child( std::vector<int> const& ops, int only )
{
    nth = (int)ops.size(); turn = -5; for( int i = 0; i < MT; ++i ) for( int k = 0; k < MT; ++k ) vc[i][k] = 0; for( int i = 0; i < MT; ++i ) vc[i][i] = 1;
    tab = (cell*)mmap( nullptr, TN * sizeof(cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); syn = (sobj*)mmap( nullptr, SN * sizeof(sobj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
    for( int o: ops ) setup( o ); pthread_t th[ MT ]; job j[ MT ]; if( only >= 0 ) for( int i = 0; i < nth; ++i ) finished_[i] = i != only;
    for( int i = 0; i < nth; ++i ) { j[i].op = ops[i]; j[i].t = i; if( !finished_[i] ) pthread_create( &th[i], nullptr, body, &j[i] ); }
    to( choose( -1, true ) ); await( 99 );
    if( nnew && S->nc + nnew <= MAXC ) { std::copy( newc, newc + nnew, S->c + S->nc ); S->nc += nnew; std::sort( S->c, S->c + S->nc ); S->nc = (int)( std::unique( S->c, S->c + S->nc ) - S->c ); }
    _exit( 0 );
}
static int run( std::vector<int> const& ops, int only = -1 )
{
    S->accesses = 0; S->status = 0; S->np = 0; S->races = 0; std::memset( S->out, 0, sizeof S->out ); fflush( stdout );
    pid_t p = fork(); if( !p ) { alarm( 60 ); child( ops, only ); } int st; waitpid( p, &st, 0 ); return st;
}
static std::string names( std::vector<int> const& ops ) { std::string s; for( int o: ops ) { if( !s.empty() ) s += " | "; s += nm( o ); } return s; }
static void explore( std::vector<int> const& ops )
{
    static std::map<std::pair<int,int>, std::string> alone; int n = (int)ops.size(); std::string exp[ MT ];
    for( int i = 0; i < n; ++i ) { std::string& e = alone[ std::make_pair( ops[i], i ) ]; if( e.empty() ) { std::vector<int> o( i + 1, ops[i] ); S->nd = 0; S->nc = 0; int st = run( o, i ); hz::trans( S->accesses ); if( st || S->status ) { hz::viol( "alone", "%s: process status %d", nm( ops[i] ), st ); return; } e.assign( (char*)S->out[i], 256 ); } exp[i] = e; }
    hz::cur( "%s", names( ops ).c_str() ); int const BOUND = hz::g_thorough? 3: 2; unsigned long long const CAP = hz::g_thorough? 20000: 2000; unsigned long long k = 0; S->nc = 0; std::vector<u8> d;
    for( ;; )
    {
        int c0 = S->nc; S->nd = (int)d.size(); std::copy( d.begin(), d.end(), S->d ); int st = run( ops ); ++k; hz::states(); hz::trans( S->accesses ); hz::traces();
        std::string sch; for( int i = 0; i < S->np && i < 200; ++i ) sch += (char)( '0' + S->p[i].chosen );
        if( st ) { hz::viol( "died", "threads %s, schedule %s: process status %d", names( ops ).c_str(), sch.c_str(), st ); return; }
        if( S->status == 1 ) { hz::viol( "deadlock", "threads %s, schedule %s: deadlock", names( ops ).c_str(), sch.c_str() ); return; }
        if( S->races ) { hz::viol( "race", "threads %s, schedule %s: %s", names( ops ).c_str(), sch.c_str(), S->race ); return; }
        for( int i = 0; i < n; ++i ) if( std::memcmp( exp[i].data(), S->out[i], 256 ) ) { hz::viol( "interleaving", "threads %s, schedule %s: thread %d computed %s, alone it computes %s", names( ops ).c_str(), sch.c_str(), i, hz::hex( S->out[i], 40 ).c_str(), hz::hex( exp[i].data(), 40 ).c_str() ); return; }
        if( S->nc != c0 ) { d.clear(); if( k < CAP ) continue; } // new conflicting locations: start over with more switch points
        if( k >= CAP ) { hz::g_truncated = true; break; }
        int i = S->np - 1; // next schedule, depth first, within the preemption bound
        for( ; i >= 0; --i )
        {
            int pre = 0; for( int q = 0; q < i; ++q ) pre += !S->p[q].free && S->p[q].chosen != S->p[q].cur;
            shm::pt& p = S->p[i]; std::vector<int> order( 1, p.cur ); for( int t = 0; t < n; ++t ) if( t != p.cur && ( p.enabled >> t & 1 ) ) order.push_back( t ); // default first
            std::size_t at = std::find( order.begin(), order.end(), (int)p.chosen ) - order.begin(); if( at + 1 >= order.size() ) continue; if( !p.free && pre + 1 > BOUND ) continue;
            d.assign( 1, 0 ); d.clear(); for( int q = 0; q < i; ++q ) d.push_back( S->p[q].chosen ); d.push_back( (u8)order[ at + 1 ] ); break;
        }
        if( i < 0 ) break;
    }
    if( ops[0] % 16 == 1 ) hz::sample( "threads %s: %llu schedules, %d conflicting bytes, %llu accesses in the last", names( ops ).c_str(), k, S->nc, S->accesses );
}
static void init() { if( !S ) S = (shm*)mmap( nullptr, sizeof(shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); }
static void part( int r, int of ) { init(); int N = op_count(); for( int a = 0; a < N; ++a ) if( a % of == r ) { for( int b = a; b < N; ++b ) explore( { a, b } ); explore( { a, a, a } ); for( int b = 0; b < N; b += hz::g_thorough? 1: 4 ) explore( { a, b, ( a + 7 * b + 1 ) % N } ); }
    for( int i = 0, K = (int)sweeps().size(); i < K; ++i ) if( ( i + 5 ) % of == r ) { explore( { N + i, N + i } ); if( hz::g_thorough ) { explore( { N + i, N + ( i + 1 ) % K } ); explore( { N + i, N + i, N + i } ); } } }
template<int I> static void pu() { part( I, 16 ); }
#define P(I) static hz::reg pr##I( "threads_" #I, &pu<I> );
P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12) P(13) P(14) P(15)
