// C23: exceptions thrown by user code during an append or a hash operation. Systematic fault
// injection: every user operation (algorithm update, copy, assignment, result; hook; iterator
// dereference, increment, comparison, copy; begin, end, size, data) is a numbered step, and for
// every value each step in turn throws, until a run completes without reaching the chosen step.
#define HARNESS_MAIN
#include "common.hpp"
#include "values.hpp"
#include "algos.hpp"
#include <exception>
#include <new>
typedef std::vector<unsigned char> bytes;

// every block allocated by operator new and not yet freed
static long g_blocks;
void* operator new( std::size_t n ) { void* p = std::malloc( n? n: 1 ); if( !p ) throw std::bad_alloc(); ++g_blocks; return p; }
void operator delete( void* p ) noexcept { if( p ) --g_blocks; std::free( p ); }
void operator delete( void* p, std::size_t ) noexcept { if( p ) --g_blocks; std::free( p ); }

// faults ----------------------------------------------------------------------------
struct boom { long k; int pad[ 6 ]; };
struct deep: std::exception { long k; char const* what() const noexcept { return "deep"; } };
static long g_step, g_at = -1; static int g_kind; static bool g_thrown, g_unwind; // g_at: the step that throws; -1: none
static void step()
{
    long s = g_step++;
    if( s != g_at ) return;
    if( g_thrown ) return;
    g_thrown = true;
    if( g_kind == 0 ) { boom b; b.k = s; for( int i = 0; i < 6; ++i ) b.pad[i] = (int)s * 3 + i; throw b; }
    if( g_kind == 1 ) { deep d; d.k = s; throw d; }
    if( g_kind == 2 ) throw (long)s;
    throw std::bad_alloc();
}
// runs f with step k throwing; 0: completed, 1: the exception arrived unchanged, 2: another one arrived
template<class Fn> int run( long k, int kind, Fn f )
{
    g_step = 0; g_at = k; g_kind = kind; g_thrown = false; int r = 0;
    try { f(); }
    catch( boom const& b ) { r = kind == 0 && b.k == k? 1: 2; for( int i = 0; i < 6; ++i ) if( b.pad[i] != (int)k * 3 + i ) r = 2; }
    catch( deep const& d ) { r = kind == 1 && d.k == k? 1: 2; }
    catch( long l ) { r = kind == 2 && l == k? 1: 2; }
    catch( std::bad_alloc const& ) { r = kind == 3? 1: 2; }
    catch( ... ) { r = 2; }
    g_at = -1; return r;
}

// a conforming algorithm all of whose operations are steps -----------------------------
static long g_live;
struct tx
{
    typedef std::uint64_t result_type; static constexpr int block_size = 16;
    bytes m; unsigned canary;
    tx(): canary( 0x600D ) { ++g_live; }
    explicit tx( std::uint64_t s ): canary( 0x600D ) { step(); for( int i = 0; s && i < 8; ++i ) m.push_back( (unsigned char)( s >> 8*i ) ); ++g_live; }
    tx( unsigned char const* p, std::size_t n ): m( p, p + n ), canary( 0x600D ) { step(); ++g_live; }
    tx( tx const& r ): canary( 0x600D ) { step(); m = r.m; ++g_live; }
    tx& operator=( tx const& r ) { step(); m = r.m; return *this; }
    ~tx() { if( canary != 0x600D ) hz::viol( "destroy", "an algorithm object is destroyed twice or without having been constructed" ); canary = 0; --g_live; }
    void update( void const* p, std::size_t n ) { step(); unsigned char const* q = (unsigned char const*)p; if( n ) m.insert( m.end(), q, q + n ); }
    result_type result() { step(); result_type r = sp::mix( m.data(), m.size(), 1 ); m.push_back( 0x5A ); return r; }
};
constexpr int tx::block_size;

// the same with an array-like result, for hmac
struct txd
{
    typedef hh::digest<8> result_type; static constexpr int block_size = 16;
    tx t; txd() {} explicit txd( std::uint64_t s ): t( s ) {} txd( unsigned char const* p, std::size_t n ): t( p, n ) {}
    void update( void const* p, std::size_t n ) { t.update( p, n ); }
    result_type result() { std::uint64_t r = t.result(); result_type d; for( int i = 0; i < 8; ++i ) d[i] = (unsigned char)( r >> 8*i ); return d; }
};
constexpr int txd::block_size;
// with a byte-pointer update as well, and a std::array result
struct txa
{
    typedef std::array<unsigned char, 12> result_type; static constexpr std::size_t block_size = 32;
    tx t; txa() {} explicit txa( std::uint64_t s ): t( s ) {} txa( unsigned char const* p, std::size_t n ): t( p, n ) {}
    void update( void const* p, std::size_t n ) { t.update( p, n ); } void update( unsigned char const* p, std::size_t n ) { t.update( p, n ); }
    result_type result() { std::uint64_t r = t.result(); result_type d; for( int i = 0; i < 12; ++i ) d[i] = (unsigned char)( r >> 5*i ); return d; }
};
constexpr std::size_t txa::block_size;

// throwing values -----------------------------------------------------------------------
namespace ux {
struct hk { unsigned char a; std::string s; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, hk const& v ) { step(); hh::hash_append( h, f, v.a ); step(); hh::hash_append( h, f, v.s ); step(); } };
// iterator whose operations are steps
template<class T, class Cat, class R = T const&> struct itr
{
    typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef R reference;
    T const* p; itr( T const* q = nullptr ): p( q ) {} itr( itr const& r ): p( r.p ) { step(); } itr& operator=( itr const& r ) { p = r.p; step(); return *this; }
    R operator*() const { step(); return *p; } T const* operator->() const { step(); return p; } R operator[]( difference_type n ) const { step(); return p[n]; }
    itr& operator++() { step(); ++p; return *this; } itr operator++( int ) { itr r( *this ); step(); ++p; return r; } itr& operator--() { step(); --p; return *this; } itr operator--( int ) { itr r( *this ); step(); --p; return r; }
    itr& operator+=( difference_type n ) { step(); p += n; return *this; } itr& operator-=( difference_type n ) { step(); p -= n; return *this; }
    friend itr operator+( itr const& a, difference_type n ) { step(); return itr( a.p + n ); } friend itr operator-( itr const& a, difference_type n ) { step(); return itr( a.p - n ); } friend difference_type operator-( itr const& a, itr const& b ) { step(); return a.p - b.p; }
    friend bool operator==( itr const& a, itr const& b ) { step(); return a.p == b.p; } friend bool operator!=( itr const& a, itr const& b ) { step(); return a.p != b.p; } friend bool operator<( itr const& a, itr const& b ) { step(); return a.p < b.p; }
};
template<class T, class It> struct rng { typedef T value_type; typedef It iterator; typedef It const_iterator; T const* p; std::size_t n; iterator begin() const { step(); return It( p ); } iterator end() const { step(); return It( p + n ); } };
template<class T> struct cont { typedef T value_type; typedef T const* iterator; typedef T const* const_iterator; T const* p; std::size_t n; iterator begin() const { step(); return p; } iterator end() const { step(); return p + n; } T const* data() const { step(); return p; } std::size_t size() const { step(); return n; } };
template<class T> struct unor: rng<T, itr<T, std::forward_iterator_tag> > { typedef std::hash<int> hasher; };
#if __cplusplus >= 201402L
struct db { hk b; }; BOOST_DESCRIBE_STRUCT( db, (), (b) ) struct dk: db { hk x; std::vector<hk> y; }; BOOST_DESCRIBE_STRUCT( dk, (db), (x, y) )
#endif
}
namespace boost { namespace container_hash { template<class T> struct is_unordered_range<ux::unor<T> >: std::true_type {}; } }

// the check ---------------------------------------------------------------------------------
template<class F, class V> void append( V const& v, char const* what, std::size_t ix, char const* fn, bool unordered )
{
    static unsigned char const pre[] = { 7, 7, 7, 1, 2, 3 };
    tx ref; g_at = -1; hh::hash_append( ref, F(), v ); // the value's message
    bytes const& M = ref.m; long live0 = g_live;
    for( int kind = 0; kind < 4; ++kind )
        for( long k = 0;; ++k )
        {
            if( kind && k > 40 && !hz::g_thorough ) break; // the other kinds of exception only at the first steps
            hz::cur( "%s #%zu %s kind %d step %ld", what, ix, fn, kind, k ); hz::states(); hz::trans(); hz::traces();
            tx h; h.m.reserve( M.size() + sizeof pre + 64 ); h.update( pre, sizeof pre ); long live1 = g_live, blocks = g_blocks;
            int r = run( k, kind, [&]{ hh::hash_append( h, F(), v ); } );
            if( r == 2 ) { hz::viol( "changed", "%s value #%zu flavor %s: the exception thrown at step %ld arrived as another one", what, ix, fn, k ); return; }
            if( r == 0 && g_thrown ) { hz::viol( "swallowed", "%s value #%zu flavor %s: the exception thrown at step %ld did not reach the caller", what, ix, fn, k ); return; }
            if( g_live != live1 ) { hz::viol( "leak", "%s value #%zu flavor %s: after an exception at step %ld %ld algorithm objects stay alive", what, ix, fn, k, g_live - live1 ); return; }
            if( g_blocks != blocks ) { hz::viol( "leak", "%s value #%zu flavor %s: after an exception at step %ld %ld allocated blocks are not freed", what, ix, fn, k, g_blocks - blocks ); return; }
            if( std::uncaught_exception() ) { hz::viol( "uncaught", "%s value #%zu: uncaught exception left behind", what, ix ); return; }
            std::size_t n = h.m.size() - sizeof pre; bool ok = h.m.size() >= sizeof pre && n <= M.size() && std::equal( pre, pre + sizeof pre, h.m.begin() ) && std::equal( h.m.begin() + sizeof pre, h.m.end(), M.begin() );
            if( r == 0 ) ok = ok && ( unordered || n == M.size() );
            if( unordered ) // elements only reach copies: before the combined value nothing is absorbed
            {
                tx full; full.update( pre, sizeof pre ); hh::hash_append( full, F(), v );
                ok = h.m.size() <= full.m.size() && h.m.size() >= sizeof pre && std::equal( h.m.begin(), h.m.end(), full.m.begin() ) && ( r == 1 || h.m.size() == full.m.size() );
            }
            if( !ok ) { hz::viol( "absorbed", "%s value #%zu flavor %s: after an exception at step %ld the object has absorbed %s, which is no prefix of the message %s", what, ix, fn, k, hz::hexc( h.m ).c_str(), hz::hexc( M ).c_str() ); return; }
            // still usable
            bytes before = h.m; hh::hash_append( h, F(), std::string( "xy" ) ); tx e; e.m = before; hh::hash_append( e, F(), std::string( "xy" ) );
            if( h.m != e.m || h.result() != e.result() ) { hz::viol( "unusable", "%s value #%zu: after an exception at step %ld a further append is wrong", what, ix, k ); return; }
            if( r == 0 ) break;
            if( kind == 0 && k > 20000 ) { hz::g_truncated = true; break; }
        }
    if( g_live != live0 ) hz::viol( "leak", "%s: objects stay alive", what );
}
template<class V> void flavors( V const& v, char const* what, std::size_t ix, bool u = false ) { append<hh::default_flavor>( v, what, ix, "default", u ); append<sp::be32>( v, what, ix, "be32", u ); }

// standard types, with the algorithm as the throwing party
template<class T> struct has_unordered: std::false_type {};
template<class T> void type( char const* tn, bool u )
{
    std::vector<T> all = va::uni<T>::get( hz::g_thorough? 800: 100 ); std::size_t lim = hz::g_thorough? 300: 40, st = all.size() > lim? all.size() / lim: 1;
    for( std::size_t i = 0; i < all.size(); i += st ) flavors( all[i], tn, i, u );
    hz::sample( "%s: %zu values, every step throwing", tn, ( all.size() + st - 1 ) / st );
}
static bool uo( char const* n ) { std::string s( n ); return s == "uno_u8" || s == "uno_s" || s == "v_uno" || s == "v_us" || s == "p_us" || s == "um_us" || s == "a2_us" || s.find( "us_" ) == 0 || s.find( "ums_" ) == 0 || s.find( "um_" ) == 0 || s.find( "umm_" ) == 0; }
#define XV(N,...) UNIT( N ) { type<__VA_ARGS__>( #N, uo( #N ) ); }
VTYPES_A( XV ) VTYPES_B( XV ) VTYPES_C( XV ) VTYPES_D( XV )
UNIT( scalars ) { flavors( 5, "int", 0 ); flavors( 'a', "char", 0 ); flavors( true, "bool", 0 ); flavors( 1.5f, "float", 0 ); flavors( -0.0, "double", 0 ); flavors( va::en::c, "enum", 0 ); flavors( (void const*)0, "pointer", 0 ); flavors( nullptr, "nullptr", 0 ); int a[ 3 ] = { 1, 2, 3 }; flavors( a, "int[3]", 0 ); std::string b[ 2 ] = { "a", "" }; flavors( b, "string[2]", 0 ); }

// throwing hooks and ranges
template<class T> std::vector<T> some( std::size_t n ); 
template<> std::vector<unsigned char> some( std::size_t n ) { std::vector<unsigned char> r; for( std::size_t i = 0; i < n; ++i ) r.push_back( (unsigned char)( i * 5 + 1 ) ); return r; }
template<> std::vector<std::uint16_t> some( std::size_t n ) { std::vector<std::uint16_t> r; for( std::size_t i = 0; i < n; ++i ) r.push_back( (std::uint16_t)( i * 517 + 1 ) ); return r; }
template<> std::vector<std::string> some( std::size_t n ) { std::vector<std::string> r; for( std::size_t i = 0; i < n; ++i ) r.push_back( std::string( i % 3, (char)( 'a' + i ) ) ); return r; }
template<> std::vector<ux::hk> some( std::size_t n ) { std::vector<ux::hk> r; for( std::size_t i = 0; i < n; ++i ) { ux::hk h; h.a = (unsigned char)i; h.s = std::string( i % 2, 'q' ); r.push_back( h ); } return r; }
template<class T> void ranges( char const* tn )
{
    for( std::size_t n = 0; n <= ( hz::g_thorough? 9u: 5u ); ++n )
    {
        std::vector<T> d = some<T>( n + 1 ); T const* p = d.data(); char nm[ 80 ];
#define R( K, TYPE, U ) { TYPE x; x.p = p; x.n = n; snprintf( nm, sizeof nm, "%s of %s", K, tn ); flavors( x, nm, n, U ); std::vector<TYPE> vv( 2, x ); snprintf( nm, sizeof nm, "vector of %s of %s", K, tn ); if( !U ) flavors( vv, nm, n, U ); }
        typedef ux::rng<T, ux::itr<T, std::input_iterator_tag> > ri; typedef ux::rng<T, ux::itr<T, std::forward_iterator_tag> > rf; typedef ux::rng<T, ux::itr<T, std::bidirectional_iterator_tag> > rb; typedef ux::rng<T, ux::itr<T, std::random_access_iterator_tag> > rr; typedef ux::rng<T, ux::itr<T, std::forward_iterator_tag, T> > rv;
        R( "input range", ri, false ) R( "forward range", rf, false ) R( "bidirectional range", rb, false ) R( "random access range", rr, false ) R( "by-value range", rv, false ) R( "contiguous range", ux::cont<T>, false ) R( "unordered range", ux::unor<T>, true )
    }
}
UNIT( ranges_u8 ) { ranges<unsigned char>( "unsigned char" ); } UNIT( ranges_u16 ) { ranges<std::uint16_t>( "uint16_t" ); } UNIT( ranges_str ) { ranges<std::string>( "string" ); } UNIT( ranges_hook ) { ranges<ux::hk>( "hook class" ); }
UNIT( hooks )
{
    std::vector<ux::hk> d = some<ux::hk>( 4 ); flavors( d[1], "hook class", 1 ); flavors( d, "vector of hook class", 4 ); std::deque<ux::hk> q( d.begin(), d.end() ); flavors( q, "deque of hook class", 4 ); std::list<ux::hk> l( d.begin(), d.end() ); flavors( l, "list of hook class", 4 );
    flavors( std::pair<ux::hk, int>( d[1], 3 ), "pair", 0 ); flavors( std::make_tuple( 1, d[1], std::string( "z" ), d[2] ), "tuple", 0 ); std::array<ux::hk, 2> a = {{ d[0], d[1] }}; flavors( a, "array", 0 ); std::map<int, ux::hk> m; m[3] = d[3]; m[1] = d[1]; flavors( m, "map", 0 ); std::unordered_map<int, ux::hk> um; um[3] = d[3]; um[1] = d[1]; flavors( um, "unordered_map", 0, true );
#if __cplusplus >= 201402L
    ux::dk k; k.b.a = 9; k.b.s = "b"; k.x = d[1]; k.y = d; flavors( k, "described class", 0 ); flavors( std::vector<ux::dk>( 2, k ), "vector of described class", 0 );
#endif
}
// the iterator-pair functions
template<class T, class It> void pairs( char const* tn )
{
    for( std::size_t n = 0; n <= 4; ++n ) for( int w = 0; w < 3; ++w ) for( int kind = 0; kind < 4; ++kind )
    {
        std::vector<T> d = some<T>( n + 1 ); tx ref; g_at = -1; bytes M; for( int pass = 0; pass < 1; ++pass ) { It a( d.data() ), b( d.data() + n ); if( w == 0 ) hh::hash_append_range( ref, sp::be32(), a, b ); else if( w == 1 ) hh::hash_append_sized_range( ref, sp::be32(), a, b ); else hh::hash_append_unordered_range( ref, sp::be32(), a, b ); M = ref.m; }
        for( long k = 0; k < 5000; ++k )
        {
            It a( d.data() ), b( d.data() + n ); tx h; long live = g_live; hz::cur( "iterators of %s n=%zu fn %d step %ld", tn, n, w, k ); hz::states(); hz::trans(); hz::traces();
            int r = run( k, kind, [&]{ if( w == 0 ) hh::hash_append_range( h, sp::be32(), a, b ); else if( w == 1 ) hh::hash_append_sized_range( h, sp::be32(), a, b ); else hh::hash_append_unordered_range( h, sp::be32(), a, b ); } );
            bool ok = h.m.size() <= M.size() && std::equal( h.m.begin(), h.m.end(), M.begin() ) && ( r || h.m == M );
            if( r == 2 || ( r == 0 && g_thrown ) || g_live != live || !ok ) { hz::viol( "iterators", "%s, %zu elements, function %d, exception at step %ld: outcome %d, %ld objects alive, absorbed %s", tn, n, w, k, r, g_live - live, hz::hexc( h.m ).c_str() ); return; }
            if( r == 0 ) break;
        }
    }
}
#define CATS( T, N ) UNIT( it_##N ) { pairs<T, ux::itr<T, std::input_iterator_tag> >( #N " input" ); pairs<T, ux::itr<T, std::forward_iterator_tag> >( #N " forward" ); pairs<T, ux::itr<T, std::random_access_iterator_tag> >( #N " random access" ); pairs<T, T const*>( #N " pointer" ); }
CATS( unsigned char, u8 ) CATS( std::uint16_t, u16 ) CATS( std::string, str ) CATS( ux::hk, hk )

// hmac over a throwing hash: construction, update, result, copies
template<class HM> void hm( int n )
{
    bytes key( n, 3 ), msg( 40, 9 ); std::unordered_set<int> us; us.insert( 5 ); us.insert( 6 ); g_at = -1; std::vector<std::uint64_t> want;
    for( int op = 0; op < 10; ++op ) for( int kind = 0; kind < 4; ++kind ) for( long k = 0; k < 1000; ++k )
    {
        hz::cur( "hmac key %d op %d step %ld", n, op, k ); hz::states(); hz::trans(); hz::traces(); long live = g_live; int r = 0;
        {
            HM a( key.data(), key.size() ), b; a.update( msg.data(), 5 ); long l2 = g_live;
            r = run( k, kind, [&]{ switch( op ) { case 0: { HM x( key.data(), key.size() ); break; } case 1: { HM x( 0x1234567890ull + n ); break; } case 2: a.update( msg.data(), msg.size() ); break; case 3: a.result(); break; case 4: { HM x( a ); x.update( msg.data(), 2 ); break; } case 6: a.update( (void const*)msg.data(), msg.size() ); break; case 7: hh::hash_append( a, sp::be32(), std::make_pair( msg, 5 ) ); break; case 8: hh::hash_append( a, sp::be32(), us ); break; case 9: { HM x( std::move( a ) ); a = HM(); break; } default: b = a; } } );
            if( g_live != l2 ) hz::viol( "hmac", "hmac of a user-written hash, operation %d, exception at step %ld: %ld hash objects stay alive", op, k, g_live - l2 );
            if( r && ( op == 2 || op == 6 || op == 8 ) ) { HM y( key.data(), key.size() ); y.update( msg.data(), 5 ); if( op == 8 && k >= 10 ) {} else { auto p = y.result(); auto q = a.result(); if( p != q ) hz::viol( "hmac", "hmac of a user-written hash, operation %d, exception at step %ld: the object is not as before", op, k ); } }
            if( r && op == 4 ) { HM y( key.data(), key.size() ); y.update( msg.data(), 5 ); if( to_res( y.result() ).b[0] != to_res( a.result() ).b[0] ) hz::viol( "hmac", "a failed copy changed its source" ); }
        }
        if( r == 2 || ( r == 0 && g_thrown ) || g_live != live ) { hz::viol( "hmac", "hmac of a user-written hash, key of %d bytes, operation %d, exception at step %ld: outcome %d, %ld objects alive", n, op, k, r, g_live - live ); return; }
        if( r == 0 ) break;
    }
}
UNIT( hmac ) { int const ks[] = { 0, 1, 15, 16, 17, 40 }; for( int n: ks ) hm<hh::hmac<txd> >( n ); }
UNIT( hmac_array ) { int const ks[] = { 0, 1, 31, 32, 33, 80 }; for( int n: ks ) hm<hh::hmac<txa> >( n ); }
UNIT( hmac_nested ) { int const ks[] = { 0, 5, 30 }; for( int n: ks ) hm<hh::hmac<hh::hmac<txd> > >( n ); }

// the provided algorithms with throwing hooks and iterators: the result is that of a prefix
template<class A> void provided( char const* an )
{
    typedef ux::rng<ux::hk, ux::itr<ux::hk, std::forward_iterator_tag> > rf; std::vector<ux::hk> d = some<ux::hk>( 3 );
    ux::hk one = d[1]; one.s = std::string( 70, 'm' ); rf r; r.p = d.data(); r.n = 3; std::vector<unsigned char> pre( 67, 4 ); ux::unor<ux::hk> u; u.p = d.data(); u.n = 3; std::pair<ux::hk, std::string> pr( one, std::string( 130, 'n' ) );
    for( int w = 0; w < 4; ++w ) for( int init = 0; init < 3; ++init )
    {
        A base; if( init == 1 ) base = A( pre.data(), 20 ); if( init == 2 ) { base.update( pre.data(), 67 ); base.result(); base.update( pre.data(), 5 ); }
        auto go = [&]( A& h ) { if( w == 0 ) hh::hash_append( h, sp::be32(), one ); else if( w == 1 ) hh::hash_append( h, sp::be32(), r ); else if( w == 2 ) hh::hash_append( h, sp::be32(), u ); else hh::hash_append( h, sp::be32(), pr ); };
        bytes M; { sp::rec m; g_at = -1; if( w == 0 ) hh::hash_append( m, sp::be32(), one ); else if( w == 1 ) hh::hash_append( m, sp::be32(), r ); else if( w == 3 ) hh::hash_append( m, sp::be32(), pr ); M = m.m; }
        std::vector<ref::res> prefix; for( std::size_t n = 0; n <= M.size(); ++n ) { A x( base ); x.update( M.data(), n ); prefix.push_back( to_res( x.result() ) ); } { A x( base ); go( x ); prefix.push_back( to_res( x.result() ) ); }
        for( long k = 0; k < 2000; ++k )
        {
            A h( base ); hz::cur( "%s value %d init %d step %ld", an, w, init, k ); hz::states(); hz::trans(); hz::traces();
            int q = run( k, (int)( k % 4 ), [&]{ go( h ); } ); ref::res x = to_res( h.result() ); bool ok = false;
            for( std::size_t i = 0; i < prefix.size(); ++i ) if( !std::memcmp( prefix[i].b, x.b, x.n ) && ( q || i + 1 == prefix.size() ) ) ok = true;
            if( q == 2 || ( q == 0 && g_thrown ) || !ok ) { hz::viol( "provided", "%s, value %d, state %d, exception at step %ld: outcome %d, the result is %s", an, w, init, k, q, ok? "right": "that of no prefix of the message" ); return; }
            if( q == 0 ) break;
        }
    }
}
#define XP( N, T, M, B ) UNIT( alg_##N ) { provided<T>( #N ); }
ALGOS_ALL( XP )
