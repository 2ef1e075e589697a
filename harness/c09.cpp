// C09: different values produce different messages. -DVSEL=VTYPES_A etc.
#define HARNESS_MAIN
#include "common.hpp"
#include "values.hpp"
#ifdef WSEL
# include "wide.hpp"
#endif
#include <unordered_map>
typedef std::vector<unsigned char> bytes;
struct bh { std::size_t operator()( bytes const& b ) const { return (std::size_t)sp::mix( b.data(), b.size(), 7 ); } };

static unsigned long long bound = 0; // messages that agree with the message model
template<class F, class T> void inj( char const* tn, char const* fn, std::vector<T> const& all )
{
    std::unordered_map<bytes, std::size_t, bh> seen; seen.reserve( all.size() );
    for( std::size_t i = 0; i < all.size(); ++i )
    {
        hz::cur( "%s value #%zu flavor %s", tn, i, fn );
        bytes m = sp::lib<F>( all[i] ); hz::trans(); bound += m == sp::mod<F>( all[i] );
        auto r = seen.insert( std::make_pair( m, i ) );
        if( !r.second && !( all[ r.first->second ] == all[i] ) ) hz::viol( "collision", "%s flavor %s: different values #%zu and #%zu send the same message %s", tn, fn, r.first->second, i, hz::hexc( m ).c_str() );
    }
}
template<class T> void type( char const* tn )
{
    std::vector<T> all = va::uni<T>::get( hz::g_thorough? 60000: 4000 );
    hz::states( all.size() ); bound = 0;
    inj<hh::little_endian_flavor>( tn, "little", all ); inj<hh::big_endian_flavor>( tn, "big", all ); inj<sp::be32>( tn, "be32", all ); inj<hh::default_flavor>( tn, "default", all ); hz::traces( bound );
    // equal values (copies) send equal messages
    for( std::size_t i = 0; i < all.size(); i += 7 ) { T c( all[i] ); hz::trans(); if( sp::lib<sp::le32>( c ) != sp::lib<sp::le32>( all[i] ) ) hz::viol( "copy", "%s: a copy of value #%zu sends a different message", tn, i ); }
    hz::sample( "%s: %zu values, e.g. #%zu -> %s", tn, all.size(), all.size() / 2, hz::hexc( sp::lib<sp::be32>( all[ all.size() / 2 ] ) ).c_str() );
}
#define XV(N,...) UNIT( N ) { type<__VA_ARGS__>( #N ); }
#ifdef WSEL
// many elements, many components, deep nesting: single changes and exchanges of neighbours
template<class T> void wtype( char const* tn, std::size_t cap )
{
    std::vector<T> all = wd::wide<T>::get( cap ); hz::states( all.size() ); bound = 0;
    inj<hh::little_endian_flavor>( tn, "little", all ); inj<sp::be32>( tn, "be32", all ); hz::traces( bound );
    hz::sample( "%s: %zu wide values", tn, all.size() );
}
#define XW(N,C,...) UNIT( N ) { wtype<__VA_ARGS__>( #N, C ); }
WSEL( XW )
#else
#ifndef VSEL
# define VSEL VTYPES_A
#endif
VSEL( XV )

// element boundaries: n equal elements divided between neighbouring containers in every way
template<class C> static C rep( std::size_t n ) { C c; for( std::size_t i = 0; i < n; ++i ) c.insert( c.end(), typename C::value_type() ); return c; }
template<> std::forward_list<int> rep<std::forward_list<int> >( std::size_t n ) { return std::forward_list<int>( n ); }
template<class C> void bounds( char const* tn )
{
    typedef std::pair<C, C> P; std::vector<P> all;
    for( std::size_t n = 0; n <= 12; ++n ) for( std::size_t i = 0; i <= n; ++i ) all.push_back( P( rep<C>( i ), rep<C>( n - i ) ) );
    for( std::size_t i = 0; i <= 520; ++i ) all.push_back( P( rep<C>( i ), rep<C>( 520 - i ) ) );
    std::size_t const k[] = { 0, 1, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 70000 };
    for( std::size_t i: k ) all.push_back( P( rep<C>( i ), rep<C>( 70000 - i ) ) );
    hz::states( all.size() ); bound = 0; inj<hh::little_endian_flavor>( tn, "little", all ); inj<sp::be32>( tn, "be32", all ); hz::traces( bound );
    std::vector<C> one; for( std::size_t i = 0; i < 300; ++i ) one.push_back( rep<C>( i ) ); for( std::size_t i: k ) if( i >= 300 ) one.push_back( rep<C>( i ) );
    inj<hh::big_endian_flavor>( tn, "big", one ); hz::states( one.size() );
}
#define XB(N,...) UNIT( N ) { bounds<__VA_ARGS__>( #N ); }
#define VTYPES_A_B XB( b_vu8, std::vector<unsigned char> ) XB( b_str, std::string ) XB( b_vu64, std::vector<std::uint64_t> ) XB( b_fl, std::forward_list<int> )
#define VTYPES_B_B XB( b_vt0, std::vector<std::tuple<> > ) XB( b_vbool, std::vector<bool> ) XB( b_dq, std::deque<float> )
#define VTYPES_C_B XB( b_ms, std::multiset<unsigned char> ) XB( b_ums, std::unordered_multiset<int> ) XB( b_ls, std::list<std::string> )
#if __cplusplus >= 201402L
# define VTYPES_D_B XB( b_vd0, std::vector<va::d0> ) XB( b_vhook, std::vector<va::hook> )
#else
# define VTYPES_D_B XB( b_vhook, std::vector<va::hook> )
#endif
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
CAT( VSEL, _B )
#endif
