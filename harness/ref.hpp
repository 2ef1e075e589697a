// Reference models: independent executable specifications of the algorithms.
// C++11, no Boost, no hosted-only facilities (also used in freestanding builds).
#pragma once
#include "ref_tables.hpp"
#include <cstdint>
#include <cstddef>
#include <cstring>

namespace ref {

typedef unsigned char u8; typedef std::uint32_t u32; typedef std::uint64_t u64;

struct res // a result value as bytes (integers: little-endian)
{
    u8 b[64]; unsigned n;
    res(): n(0) { for(unsigned i=0;i<64;++i) b[i]=0; }
};
inline bool operator==( res const& x, res const& y ) { if(x.n!=y.n) return false; for(unsigned i=0;i<x.n;++i) if(x.b[i]!=y.b[i]) return false; return true; }
inline bool operator!=( res const& x, res const& y ) { return !(x==y); }
inline bool operator<( res const& x, res const& y ) { if(x.n!=y.n) return x.n<y.n; for(unsigned i=0;i<x.n;++i) if(x.b[i]!=y.b[i]) return x.b[i]<y.b[i]; return false; }

inline res res32( u32 v ) { res r; r.n=4; for(int i=0;i<4;++i) r.b[i]=(u8)(v>>(8*i)); return r; }
inline res res64( u64 v ) { res r; r.n=8; for(int i=0;i<8;++i) r.b[i]=(u8)(v>>(8*i)); return r; }

inline u32 L32( u32 x, unsigned k ) { return k==0? x: (u32)((x<<k)|(x>>(32-k))); }
inline u64 L64( u64 x, unsigned k ) { return k==0? x: ((x<<k)|(x>>(64-k))); }
inline u32 R32( u32 x, unsigned k ) { return L32(x,32-k); }
inline u64 R64( u64 x, unsigned k ) { return L64(x,64-k); }
inline u32 ld32le( u8 const* p ) { u32 r=0; for(int i=3;i>=0;--i) r=(r<<8)|p[i]; return r; }
inline u64 ld64le( u8 const* p ) { u64 r=0; for(int i=7;i>=0;--i) r=(r<<8)|p[i]; return r; }
inline u32 ld32be( u8 const* p ) { u32 r=0; for(int i=0;i<4;++i) r=(r<<8)|p[i]; return r; }
inline u64 ld64be( u8 const* p ) { u64 r=0; for(int i=0;i<8;++i) r=(r<<8)|p[i]; return r; }

// ---- Merkle-Damgard construction ------------------------------------------------

template<class S> struct md
{
    typedef typename S::word word;
    static const unsigned block = S::B;
    word st[ S::W ]; u8 tail[ S::B ]; unsigned m; u64 n;

    void init() { S::init( st ); m=0; n=0; for(unsigned i=0;i<S::B;++i) tail[i]=0; }
    md() { init(); }
    explicit md( u64 seed ) { init(); if(seed) { u8 t[8]; for(int i=0;i<8;++i) t[i]=(u8)(seed>>(8*i)); update(t,8); result(); } }
    md( u8 const* p, std::size_t k ) { init(); if(k) { update(p,k); result(); } }

    void push( u8 c ) { tail[m]=c; ++m; ++n; if( m==S::B ) { S::compress( st, tail ); m=0; for(unsigned i=0;i<S::B;++i) tail[i]=0; } }
    void update( u8 const* p, std::size_t k )
    {
        while( k && m ) { push(*p); ++p; --k; }
        while( k>=S::B ) { S::compress( st, p ); n+=S::B; p+=S::B; k-=S::B; }
        while( k ) { push(*p); ++p; --k; }
    }
    res result()
    {
        u64 hi = n>>61, lo = n<<3;
        push( 0x80 );
        while( m != S::B - S::LEN ) push( 0 );
        u8 l[16];
        if( S::BE ) { for(int i=0;i<8;++i) { l[i]=(u8)(hi>>(56-8*i)); l[8+i]=(u8)(lo>>(56-8*i)); } for(unsigned i=16-S::LEN;i<16;++i) push(l[i]); }
        else { for(int i=0;i<8;++i) l[i]=(u8)(lo>>(8*i)); for(unsigned i=0;i<8;++i) push(l[i]); }
        res r; r.n = S::OUT;
        unsigned const ws = sizeof(word);
        for( unsigned i=0; i<S::OUT; ++i )
        {
            unsigned j = i%ws;
            r.b[i] = (u8)( st[i/ws] >> ( S::BE? 8*(ws-1-j): 8*j ) );
        }
        return r;
    }
};

struct md5_spec
{
    typedef u32 word; static const unsigned W=4, B=64, LEN=8, OUT=16; static const bool BE=false;
    static void init( u32* s ) { s[0]=0x67452301u; s[1]=0xefcdab89u; s[2]=0x98badcfeu; s[3]=0x10325476u; }
    static void compress( u32* s, u8 const* p )
    {
        static const unsigned char sh[4][4] = { {7,12,17,22}, {5,9,14,20}, {4,11,16,23}, {6,10,15,21} };
        u32 a=s[0], b=s[1], c=s[2], d=s[3];
        for( unsigned i=0; i<64; ++i )
        {
            u32 f; unsigned g;
            switch( i/16 )
            {
            case 0: f=(b&c)|(~b&d); g=i; break;
            case 1: f=(d&b)|(~d&c); g=(5*i+1)%16; break;
            case 2: f=b^c^d; g=(3*i+5)%16; break;
            default: f=c^(b|~d); g=(7*i)%16; break;
            }
            u32 t=d; d=c; c=b;
            b = b + L32( a+f+tab::md5_t[i]+ld32le(p+4*g), sh[i/16][i%4] );
            a = t;
        }
        s[0]+=a; s[1]+=b; s[2]+=c; s[3]+=d;
    }
};

struct sha1_spec
{
    typedef u32 word; static const unsigned W=5, B=64, LEN=8, OUT=20; static const bool BE=true;
    static void init( u32* s ) { s[0]=0x67452301u; s[1]=0xefcdab89u; s[2]=0x98badcfeu; s[3]=0x10325476u; s[4]=0xc3d2e1f0u; }
    static void compress( u32* s, u8 const* p )
    {
        u32 w[80];
        for(int i=0;i<16;++i) w[i]=ld32be(p+4*i);
        for(int i=16;i<80;++i) w[i]=L32( w[i-3]^w[i-8]^w[i-14]^w[i-16], 1 );
        u32 a=s[0],b=s[1],c=s[2],d=s[3],e=s[4];
        for(int i=0;i<80;++i)
        {
            u32 f,k;
            if(i<20){ f=(b&c)|(~b&d); k=0x5a827999u; }
            else if(i<40){ f=b^c^d; k=0x6ed9eba1u; }
            else if(i<60){ f=(b&c)|(b&d)|(c&d); k=0x8f1bbcdcu; }
            else { f=b^c^d; k=0xca62c1d6u; }
            u32 t=L32(a,5)+f+e+k+w[i];
            e=d; d=c; c=L32(b,30); b=a; a=t;
        }
        s[0]+=a; s[1]+=b; s[2]+=c; s[3]+=d; s[4]+=e;
    }
};

struct sha256_core
{
    typedef u32 word; static const unsigned W=8, B=64, LEN=8; static const bool BE=true;
    static void compress( u32* s, u8 const* p )
    {
        u32 w[64]; u32 v[8];
        for(int i=0;i<16;++i) w[i]=ld32be(p+4*i);
        for(int i=16;i<64;++i) { u32 x=w[i-15],y=w[i-2]; w[i]=w[i-16]+w[i-7]+(R32(x,7)^R32(x,18)^(x>>3))+(R32(y,17)^R32(y,19)^(y>>10)); }
        for(int i=0;i<8;++i) v[i]=s[i];
        for(int i=0;i<64;++i)
        {
            u32 t1=v[7]+(R32(v[4],6)^R32(v[4],11)^R32(v[4],25))+((v[4]&v[5])^(~v[4]&v[6]))+tab::k256[i]+w[i];
            u32 t2=(R32(v[0],2)^R32(v[0],13)^R32(v[0],22))+((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
            for(int j=7;j>0;--j) v[j]=v[j-1];
            v[4]+=t1; v[0]=t1+t2;
        }
        for(int i=0;i<8;++i) s[i]+=v[i];
    }
};
struct sha256_spec: sha256_core { static const unsigned OUT=32; static void init( u32* s ) { for(int i=0;i<8;++i) s[i]=tab::iv256[i]; } };
struct sha224_spec: sha256_core { static const unsigned OUT=28; static void init( u32* s ) { for(int i=0;i<8;++i) s[i]=tab::iv224[i]; } };

struct sha512_core
{
    typedef u64 word; static const unsigned W=8, B=128, LEN=16; static const bool BE=true;
    static void compress( u64* s, u8 const* p )
    {
        u64 w[80]; u64 v[8];
        for(int i=0;i<16;++i) w[i]=ld64be(p+8*i);
        for(int i=16;i<80;++i) { u64 x=w[i-15],y=w[i-2]; w[i]=w[i-16]+w[i-7]+(R64(x,1)^R64(x,8)^(x>>7))+(R64(y,19)^R64(y,61)^(y>>6)); }
        for(int i=0;i<8;++i) v[i]=s[i];
        for(int i=0;i<80;++i)
        {
            u64 t1=v[7]+(R64(v[4],14)^R64(v[4],18)^R64(v[4],41))+((v[4]&v[5])^(~v[4]&v[6]))+tab::k512[i]+w[i];
            u64 t2=(R64(v[0],28)^R64(v[0],34)^R64(v[0],39))+((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
            for(int j=7;j>0;--j) v[j]=v[j-1];
            v[4]+=t1; v[0]=t1+t2;
        }
        for(int i=0;i<8;++i) s[i]+=v[i];
    }
};
struct sha512_spec: sha512_core { static const unsigned OUT=64; static void init( u64* s ) { for(int i=0;i<8;++i) s[i]=tab::iv512[i]; } };
struct sha384_spec: sha512_core { static const unsigned OUT=48; static void init( u64* s ) { for(int i=0;i<8;++i) s[i]=tab::iv384[i]; } };

// SHA-512/t: the initial value is the SHA-512 digest (with a masked IV) of the name
struct sha512_gen_spec: sha512_core { static const unsigned OUT=64; static void init( u64* s ) { for(int i=0;i<8;++i) s[i]=tab::iv512[i]^0xa5a5a5a5a5a5a5a5ull; } };
inline void sha512t_iv( u64* s, char const* name )
{
    md<sha512_gen_spec> g; std::size_t n=0; while(name[n]) ++n;
    g.update( (u8 const*)name, n ); res r=g.result();
    for(int i=0;i<8;++i) s[i]=ld64be(r.b+8*i);
}
struct sha512_224_spec: sha512_core { static const unsigned OUT=28; static void init( u64* s ) { static u64 iv[8]; static bool d=false; if(!d){ sha512t_iv(iv,"SHA-512/224"); d=true; } for(int i=0;i<8;++i) s[i]=iv[i]; } };
struct sha512_256_spec: sha512_core { static const unsigned OUT=32; static void init( u64* s ) { static u64 iv[8]; static bool d=false; if(!d){ sha512t_iv(iv,"SHA-512/256"); d=true; } for(int i=0;i<8;++i) s[i]=iv[i]; } };

// RIPEMD (tables by the definition: r = id, rho, rho^2..; r' = pi, ...)
struct rmd_tab
{
    unsigned char rl[80], rr[80], sl[80], sr[80];
    rmd_tab()
    {
        static const unsigned char rho[16]={7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8};
        static const unsigned char shifts[5][16]={ // indexed by message word
            {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8},
            {12,13,11,15,6,9,9,7,12,15,11,13,7,8,7,7},
            {13,15,14,11,7,7,6,8,13,14,13,12,5,5,6,9},
            {14,11,12,14,8,6,5,5,15,12,15,14,9,9,8,6},
            {15,12,13,13,9,5,8,6,14,11,12,11,8,6,5,5} };
        for(int i=0;i<16;++i) { rl[i]=(u8)i; rr[i]=(u8)((9*i+5)%16); }
        for(int i=16;i<80;++i) { rl[i]=rho[rl[i-16]]; rr[i]=rho[rr[i-16]]; }
        for(int i=0;i<80;++i) { sl[i]=shifts[i/16][rl[i]]; sr[i]=shifts[i/16][rr[i]]; }
    }
};
inline rmd_tab const& rmdt() { static rmd_tab const t; return t; }
inline u32 rmd_f( int j, u32 x, u32 y, u32 z )
{
    switch(j) { case 0: return x^y^z; case 1: return (x&y)|(~x&z); case 2: return (x|~y)^z; case 3: return (x&z)|(y&~z); default: return x^(y|~z); }
}
struct rmd160_spec
{
    typedef u32 word; static const unsigned W=5, B=64, LEN=8, OUT=20; static const bool BE=false;
    static void init( u32* s ) { s[0]=0x67452301u; s[1]=0xefcdab89u; s[2]=0x98badcfeu; s[3]=0x10325476u; s[4]=0xc3d2e1f0u; }
    static void compress( u32* s, u8 const* p )
    {
        rmd_tab const& T=rmdt(); u32 l[5], r[5];
        u32 x[16]; for(int i=0;i<16;++i) x[i]=ld32le(p+4*i);
        for(int i=0;i<5;++i) l[i]=r[i]=s[i];
        for(int i=0;i<80;++i)
        {
            u32 t=L32( l[0]+rmd_f(i/16,l[1],l[2],l[3])+x[T.rl[i]]+tab::rmd_kl[i/16], T.sl[i] )+l[4];
            l[0]=l[4]; l[4]=l[3]; l[3]=L32(l[2],10); l[2]=l[1]; l[1]=t;
            t=L32( r[0]+rmd_f(4-i/16,r[1],r[2],r[3])+x[T.rr[i]]+tab::rmd_kr[i/16], T.sr[i] )+r[4];
            r[0]=r[4]; r[4]=r[3]; r[3]=L32(r[2],10); r[2]=r[1]; r[1]=t;
        }
        u32 t=s[1]+l[2]+r[3]; s[1]=s[2]+l[3]+r[4]; s[2]=s[3]+l[4]+r[0]; s[3]=s[4]+l[0]+r[1]; s[4]=s[0]+l[1]+r[2]; s[0]=t;
    }
};
struct rmd128_spec
{
    typedef u32 word; static const unsigned W=4, B=64, LEN=8, OUT=16; static const bool BE=false;
    static void init( u32* s ) { s[0]=0x67452301u; s[1]=0xefcdab89u; s[2]=0x98badcfeu; s[3]=0x10325476u; }
    static void compress( u32* s, u8 const* p )
    {
        rmd_tab const& T=rmdt(); u32 l[4], r[4];
        u32 x[16]; for(int i=0;i<16;++i) x[i]=ld32le(p+4*i);
        for(int i=0;i<4;++i) l[i]=r[i]=s[i];
        for(int i=0;i<64;++i)
        {
            u32 t=L32( l[0]+rmd_f(i/16,l[1],l[2],l[3])+x[T.rl[i]]+tab::rmd_kl[i/16], T.sl[i] );
            l[0]=l[3]; l[3]=l[2]; l[2]=l[1]; l[1]=t;
            t=L32( r[0]+rmd_f(3-i/16,r[1],r[2],r[3])+x[T.rr[i]]+( i/16==3? 0u: tab::rmd_kr[i/16] ), T.sr[i] );
            r[0]=r[3]; r[3]=r[2]; r[2]=r[1]; r[1]=t;
        }
        u32 t=s[1]+l[2]+r[3]; s[1]=s[2]+l[3]+r[0]; s[2]=s[3]+l[0]+r[1]; s[3]=s[0]+l[1]+r[2]; s[0]=t;
    }
};

typedef md<md5_spec> md5; typedef md<sha1_spec> sha1; typedef md<sha256_spec> sha256; typedef md<sha224_spec> sha224;
typedef md<sha512_spec> sha512; typedef md<sha384_spec> sha384; typedef md<sha512_224_spec> sha512_224; typedef md<sha512_256_spec> sha512_256;
typedef md<rmd160_spec> rmd160; typedef md<rmd128_spec> rmd128;

// ---- FNV-1a ------------------------------------------------------------------

template<class T> struct fnv
{
    T s;
    static T prime() { return sizeof(T)==4? (T)16777619ull: (T)1099511628211ull; }
    void init() { s = sizeof(T)==4? (T)2166136261ull: (T)14695981039346656037ull; }
    fnv() { init(); }
    explicit fnv( u64 seed ) { init(); if(seed) for(int i=0;i<8;++i) push((u8)(seed>>(8*i))); }
    fnv( u8 const* p, std::size_t n ) { init(); update(p,n); }
    void push( u8 c ) { s^=c; s*=prime(); }
    void update( u8 const* p, std::size_t n ) { for(std::size_t i=0;i<n;++i) push(p[i]); }
    res result() { res r; r.n=sizeof(T); for(unsigned i=0;i<r.n;++i) r.b[i]=(u8)(s>>(8*i)); push(0xFF); return r; }
};

// ---- SipHash-2-4, HalfSipHash-2-4 ---------------------------------------------

template<class T> struct sip // T: word
{
    static const unsigned B = sizeof(T);
    T v[4]; u8 t[sizeof(T)]; unsigned m; u64 n;
    static T rot( T x, unsigned k ) { unsigned w=8*sizeof(T); return (T)((x<<k)|(x>>(w-k))); }
    void key( T k0, T k1 )
    {
        m=0; n=0; for(unsigned i=0;i<B;++i) t[i]=0;
        if( B==8 ) { v[0]=(T)0x736f6d6570736575ull; v[1]=(T)0x646f72616e646f6dull; v[2]=(T)0x6c7967656e657261ull; v[3]=(T)0x7465646279746573ull; }
        else { v[0]=0; v[1]=0; v[2]=(T)0x6c796765u; v[3]=(T)0x74656462u; }
        v[0]^=k0; v[1]^=k1; v[2]^=k0; v[3]^=k1;
    }
    sip() { key(0,0); }
    explicit sip( u64 seed ) { if( B==8 ) key((T)seed,0); else key( (T)(seed&0xFFFFFFFFu), (T)(seed>>32) ); }
    sip( u8 const* p, std::size_t k )
    {
        if( k==2*B ) { T a=0,b=0; for(unsigned i=0;i<B;++i) { a|=(T)((T)p[i]<<(8*i)); b|=(T)((T)p[B+i]<<(8*i)); } key(a,b); }
        else { key(0,0); if(k) { update(p,k); result(); } }
    }
    void round()
    {
        bool L = B==8;
        v[0]+=v[1]; v[2]+=v[3]; v[1]=rot(v[1],L?13:5); v[3]=rot(v[3],L?16:8); v[1]^=v[0]; v[3]^=v[2];
        v[0]=rot(v[0],L?32:16);
        v[2]+=v[1]; v[0]+=v[3]; v[1]=rot(v[1],L?17:13); v[3]=rot(v[3],L?21:7); v[1]^=v[2]; v[3]^=v[0];
        v[2]=rot(v[2],L?32:16);
    }
    void word( T w ) { v[3]^=w; round(); round(); v[0]^=w; }
    void push( u8 c ) { t[m++]=c; ++n; if(m==B) { T w=0; for(unsigned i=0;i<B;++i) w|=(T)((T)t[i]<<(8*i)); word(w); m=0; } }
    void update( u8 const* p, std::size_t k ) { for(std::size_t i=0;i<k;++i) push(p[i]); }
    res result()
    {
        T w=0; for(unsigned i=0;i<m;++i) w|=(T)((T)t[i]<<(8*i));
        w |= (T)((T)(n&0xFF)<<(8*(B-1)));
        word(w); v[2]^=0xFF; round(); round(); round(); round();
        n += B-m; m=0; // the padded final word counts as absorbed
        T h = B==8? (T)(v[0]^v[1]^v[2]^v[3]): (T)(v[1]^v[3]);
        res r; r.n=B; for(unsigned i=0;i<B;++i) r.b[i]=(u8)(h>>(8*i)); return r;
    }
};

// ---- XXH32, XXH64 ----------------------------------------------------------------

struct xx32
{
    u32 v[4]; u8 t[16]; unsigned m; u64 n;
    static const u32 P1=0x9E3779B1u, P2=0x85EBCA77u, P3=0xC2B2AE3Du, P4=0x27D4EB2Fu, P5=0x165667B1u;
    static u32 rnd( u32 a, u32 x ) { return L32(a+x*P2,13)*P1; }
    void init( u32 s ) { v[0]=s+P1+P2; v[1]=s+P2; v[2]=s; v[3]=s-P1; m=0; n=0; for(int i=0;i<16;++i) t[i]=0; }
    xx32() { init(0); }
    explicit xx32( u64 s ) { init((u32)s); u32 h=(u32)(s>>32); if(h) for(int i=0;i<4;++i) v[i]=rnd(v[i],h); }
    xx32( u8 const* p, std::size_t k ) { init(0); if(k) { update(p,k); result(); } }
    void push( u8 c ) { t[m++]=c; ++n; if(m==16) { for(int i=0;i<4;++i) v[i]=rnd(v[i],ld32le(t+4*i)); m=0; } }
    void update( u8 const* p, std::size_t k ) { for(std::size_t i=0;i<k;++i) push(p[i]); }
    res result()
    {
        u32 h = n>=16? L32(v[0],1)+L32(v[1],7)+L32(v[2],12)+L32(v[3],18): v[2]+P5;
        h+=(u32)n;
        unsigned i=0;
        for(;i+4<=m;i+=4) h=L32(h+ld32le(t+i)*P3,17)*P4;
        for(;i<m;++i) h=L32(h+t[i]*P5,11)*P1;
        n+=16-m; m=0; v[0]+=h; v[1]+=h; v[2]-=h; v[3]-=h; // documented: the state is updated
        h^=h>>15; h*=P2; h^=h>>13; h*=P3; h^=h>>16;
        return res32(h);
    }
};
struct xx64
{
    u64 v[4]; u8 t[32]; unsigned m; u64 n;
    static const u64 P1=0x9E3779B185EBCA87ull, P2=0xC2B2AE3D27D4EB4Full, P3=0x165667B19E3779F9ull, P4=0x85EBCA77C2B2AE63ull, P5=0x27D4EB2F165667C5ull;
    static u64 rnd( u64 a, u64 x ) { return L64(a+x*P2,31)*P1; }
    void init( u64 s ) { v[0]=s+P1+P2; v[1]=s+P2; v[2]=s; v[3]=s-P1; m=0; n=0; for(int i=0;i<32;++i) t[i]=0; }
    xx64() { init(0); }
    explicit xx64( u64 s ) { init(s); }
    xx64( u8 const* p, std::size_t k ) { init(0); if(k) { update(p,k); result(); } }
    void push( u8 c ) { t[m++]=c; ++n; if(m==32) { for(int i=0;i<4;++i) v[i]=rnd(v[i],ld64le(t+8*i)); m=0; } }
    void update( u8 const* p, std::size_t k ) { for(std::size_t i=0;i<k;++i) push(p[i]); }
    res result()
    {
        u64 h;
        if( n>=32 )
        {
            h=L64(v[0],1)+L64(v[1],7)+L64(v[2],12)+L64(v[3],18);
            for(int i=0;i<4;++i) h=(h^rnd(0,v[i]))*P1+P4;
        }
        else h=v[2]+P5;
        h+=n;
        unsigned i=0;
        for(;i+8<=m;i+=8) h=L64(h^rnd(0,ld64le(t+i)),27)*P1+P4;
        for(;i+4<=m;i+=4) h=L64(h^((u64)ld32le(t+i)*P1),23)*P2+P3;
        for(;i<m;++i) h=L64(h^(t[i]*P5),11)*P1;
        n+=32-m; m=0; v[0]+=h; v[1]+=h; v[2]-=h; v[3]-=h;
        h^=h>>33; h*=P2; h^=h>>29; h*=P3; h^=h>>32;
        return res64(h);
    }
};

// ---- HMAC (RFC 2104) ----------------------------------------------------------------

template<class M> struct hmac
{
    M in, out;
    void key( u8 const* p, std::size_t n )
    {
        u8 k[ M::block ]; for(unsigned i=0;i<M::block;++i) k[i]=0;
        if( n > M::block ) { M h; h.update(p,n); res r=h.result(); for(unsigned i=0;i<r.n && i<M::block;++i) k[i]=r.b[i]; }
        else for(std::size_t i=0;i<n;++i) k[i]=p[i];
        u8 x[ M::block ];
        for(unsigned i=0;i<M::block;++i) x[i]=(u8)(k[i]^0x36);
        in=M(); in.update(x,M::block);
        for(unsigned i=0;i<M::block;++i) x[i]=(u8)(k[i]^0x5c);
        out=M(); out.update(x,M::block);
    }
    hmac() { key(0,0); }
    explicit hmac( u64 seed ) { u8 t[8]; for(int i=0;i<8;++i) t[i]=(u8)(seed>>(8*i)); key(t, seed? 8: 0); }
    hmac( u8 const* p, std::size_t n ) { key(p,n); }
    void update( u8 const* p, std::size_t n ) { in.update(p,n); }
    res result() { res r=in.result(); out.update(r.b,r.n); return out.result(); }
};

} // namespace ref
