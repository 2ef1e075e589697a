// The 26 provided algorithms and their reference models.
#pragma once
#include "ref.hpp"
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/hmac.hpp>
#include <boost/hash2/digest.hpp>
#include <type_traits>

namespace hh = boost::hash2;

// X( name, type, model, block granularity, key-class: 0 plain 1 siphash 2 hmac )
#define ALGOS_PLAIN(X) \
 X( fnv1a_32, hh::fnv1a_32, ref::fnv<std::uint32_t>, 8 ) \
 X( fnv1a_64, hh::fnv1a_64, ref::fnv<std::uint64_t>, 8 ) \
 X( xxhash_32, hh::xxhash_32, ref::xx32, 16 ) \
 X( xxhash_64, hh::xxhash_64, ref::xx64, 32 ) \
 X( siphash_32, hh::siphash_32, ref::sip<std::uint32_t>, 4 ) \
 X( siphash_64, hh::siphash_64, ref::sip<std::uint64_t>, 8 ) \
 X( md5_128, hh::md5_128, ref::md5, 64 ) \
 X( sha1_160, hh::sha1_160, ref::sha1, 64 ) \
 X( sha2_256, hh::sha2_256, ref::sha256, 64 ) \
 X( sha2_224, hh::sha2_224, ref::sha224, 64 ) \
 X( sha2_512, hh::sha2_512, ref::sha512, 128 ) \
 X( sha2_384, hh::sha2_384, ref::sha384, 128 ) \
 X( sha2_512_224, hh::sha2_512_224, ref::sha512_224, 128 ) \
 X( sha2_512_256, hh::sha2_512_256, ref::sha512_256, 128 ) \
 X( ripemd_160, hh::ripemd_160, ref::rmd160, 64 ) \
 X( ripemd_128, hh::ripemd_128, ref::rmd128, 64 )

#define ALGOS_HMAC(X) \
 X( hmac_md5_128, hh::hmac_md5_128, ref::hmac<ref::md5>, 64 ) \
 X( hmac_sha1_160, hh::hmac_sha1_160, ref::hmac<ref::sha1>, 64 ) \
 X( hmac_sha2_256, hh::hmac_sha2_256, ref::hmac<ref::sha256>, 64 ) \
 X( hmac_sha2_224, hh::hmac_sha2_224, ref::hmac<ref::sha224>, 64 ) \
 X( hmac_sha2_512, hh::hmac_sha2_512, ref::hmac<ref::sha512>, 128 ) \
 X( hmac_sha2_384, hh::hmac_sha2_384, ref::hmac<ref::sha384>, 128 ) \
 X( hmac_sha2_512_224, hh::hmac_sha2_512_224, ref::hmac<ref::sha512_224>, 128 ) \
 X( hmac_sha2_512_256, hh::hmac_sha2_512_256, ref::hmac<ref::sha512_256>, 128 ) \
 X( hmac_ripemd_160, hh::hmac_ripemd_160, ref::hmac<ref::rmd160>, 64 ) \
 X( hmac_ripemd_128, hh::hmac_ripemd_128, ref::hmac<ref::rmd128>, 64 )

#define ALGOS_ALL(X) ALGOS_PLAIN(X) ALGOS_HMAC(X)

#define ALGOS_MD(X) \
 X( md5_128, hh::md5_128, ref::md5, 64 ) \
 X( sha1_160, hh::sha1_160, ref::sha1, 64 ) \
 X( sha2_256, hh::sha2_256, ref::sha256, 64 ) \
 X( sha2_224, hh::sha2_224, ref::sha224, 64 ) \
 X( sha2_512, hh::sha2_512, ref::sha512, 128 ) \
 X( sha2_384, hh::sha2_384, ref::sha384, 128 ) \
 X( sha2_512_224, hh::sha2_512_224, ref::sha512_224, 128 ) \
 X( sha2_512_256, hh::sha2_512_256, ref::sha512_256, 128 ) \
 X( ripemd_160, hh::ripemd_160, ref::rmd160, 64 ) \
 X( ripemd_128, hh::ripemd_128, ref::rmd128, 64 )

#ifdef LEGACY // -DLEGACY: the same explorations for the legacy algorithms (C22)
# include "ref_legacy.hpp"
# include <boost/hash2/legacy/murmur3.hpp>
# include <boost/hash2/legacy/spooky2.hpp>
# undef ALGOS_PLAIN
# undef ALGOS_HMAC
# undef ALGOS_ALL
# undef ALGOS_MD
# define ALGOS_PLAIN(X) X( murmur3_32, hh::murmur3_32, ref::murmur32, 4 ) X( murmur3_128, hh::murmur3_128, ref::murmur128, 16 ) X( spooky2_128, hh::spooky2_128, ref::spooky, 192 )
# define ALGOS_HMAC(X)
# define ALGOS_MD(X)
# define ALGOS_ALL(X) ALGOS_PLAIN(X)
# define IS_LEGACY true
#else
# define IS_LEGACY false
#endif

template<class R> typename std::enable_if<std::is_integral<R>::value, ref::res>::type to_res( R const& r )
{
    ref::res x; x.n = sizeof(R); std::uint64_t v = r; for( unsigned i = 0; i < x.n; ++i ) x.b[i] = (unsigned char)( v >> (8*i) ); return x;
}
template<class R> typename std::enable_if<!std::is_integral<R>::value, ref::res>::type to_res( R const& r )
{
    ref::res x; x.n = (unsigned)r.size(); for( unsigned i = 0; i < x.n; ++i ) x.b[i] = r.data()[i]; return x;
}
