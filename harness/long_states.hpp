// written by tools/gen_long.py: model states after P[b] bytes of the long message
static struct { char const* name; int b; unsigned long long w[8]; } const long_states[] = {
 { "fnv1a_32", 0, { 0x8a5fd985ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "fnv1a_32", 1, { 0xf7fabb85ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "fnv1a_32", 2, { 0x3a94fd85ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "fnv1a_32", 3, { 0xbe84fc05ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "fnv1a_32", 4, { 0xb772ee05ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "fnv1a_64", 0, { 0x90f0949e8b45f5e5ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "fnv1a_64", 1, { 0x587d5cea9b9875e5ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "fnv1a_64", 2, { 0x95e0d945f1382b65ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "fnv1a_64", 3, { 0xf7bb8f1ccee23f65ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "fnv1a_64", 4, { 0x82f67f55cbce7ae5ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_md5_128", 0, { 0x50d96d8bull, 0xdaaa7e9cull, 0xa5a59599ull, 0x23a0e24cull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_md5_128", 1, { 0xa0d6e518ull, 0xacf7a8cull, 0xfe4d0cull, 0xd40b6f45ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_md5_128", 2, { 0x62bff341ull, 0xc0ded845ull, 0xf68300c3ull, 0xdfba7eb7ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_md5_128", 3, { 0xda724546ull, 0x1418eb08ull, 0xcd75238cull, 0xa295adf6ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_md5_128", 4, { 0x5a11fa7dull, 0xff53313ull, 0x505add16ull, 0x7db0f185ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_128", 0, { 0x763995e2ull, 0xdafee1a0ull, 0x313d083aull, 0xba40b724ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_128", 1, { 0xf0a07db5ull, 0xb5ccf58ull, 0x6b660d46ull, 0x784782bcull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_128", 2, { 0xe9384003ull, 0x5241e1e5ull, 0x5af32e9bull, 0x669f0674ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_128", 3, { 0x8e8ac00dull, 0xcd0ad7d9ull, 0xf1f156e2ull, 0xdcc94c3bull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_128", 4, { 0x11b39d1dull, 0xb780a4f2ull, 0x12a9b516ull, 0xb5943f54ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_160", 0, { 0xfdeec426ull, 0xff71b3dfull, 0xad40e39bull, 0x8b222032ull, 0xefc59b55ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_160", 1, { 0x36540045ull, 0xc0b2e0fdull, 0x482bcda4ull, 0x40ae7b72ull, 0x35c60846ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_160", 2, { 0x599d2f93ull, 0x3c800960ull, 0xc6aea38ull, 0x87a01788ull, 0x71173c9aull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_160", 3, { 0x19adcfull, 0xa5200103ull, 0x35d64951ull, 0x5545a3edull, 0xa63c9da7ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_ripemd_160", 4, { 0xaa39c9e0ull, 0x9a664e5full, 0x936cba95ull, 0xf0cb9e8full, 0xb3fd6f0bull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_sha1_160", 0, { 0xcf0af616ull, 0x80cc0afdull, 0x4d60b4c7ull, 0x5beeaccfull, 0x3e45261aull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_sha1_160", 1, { 0xb9baeb3cull, 0xf0f26487ull, 0xac8c404cull, 0xadcbf146ull, 0x51c509b8ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_sha1_160", 2, { 0x3cdbf6b3ull, 0x34769a82ull, 0xb2bbb8a1ull, 0x6339e309ull, 0xb0ac1eabull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_sha1_160", 3, { 0xba39cdd3ull, 0xc1d86208ull, 0x322fb92bull, 0x23c1dcddull, 0xd26ec767ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_sha1_160", 4, { 0xcec5be80ull, 0xfb1ffd31ull, 0xd1d37b6aull, 0x29177caull, 0x892c0e40ull, 0x0ull, 0x0ull, 0x0ull } },
 { "hmac_sha2_224", 0, { 0xdcd5ad3eull, 0x29286e8ull, 0x4623ffafull, 0x6984b72bull, 0x94c0b5a0ull, 0x84592a69ull, 0x1200e7cbull, 0xcb086db8ull } },
 { "hmac_sha2_224", 1, { 0xf3bb4856ull, 0xa9c6f15bull, 0x176b97f6ull, 0xceb3c0eeull, 0x3f728226ull, 0xb1d8d107ull, 0xbb5ecd35ull, 0x7d4f7c85ull } },
 { "hmac_sha2_224", 2, { 0x9c3897d2ull, 0xa73ca584ull, 0x44034e72ull, 0x1a4be506ull, 0xe9599af0ull, 0xbf52480ull, 0x3931dc89ull, 0x5fbb262aull } },
 { "hmac_sha2_224", 3, { 0x9890c35dull, 0x43c021a7ull, 0xc623daf5ull, 0x660bf93aull, 0x9f50806ull, 0x43d1a1b2ull, 0xd35b70e8ull, 0x7865b123ull } },
 { "hmac_sha2_224", 4, { 0xe4b6e67aull, 0x398453b7ull, 0x5f58e03dull, 0x300ac366ull, 0x361ad94ull, 0xcb11da9cull, 0xace1ecb4ull, 0x26cf9418ull } },
 { "hmac_sha2_256", 0, { 0x23d0304aull, 0x178082b0ull, 0x4ba08b5cull, 0x69f3a99full, 0xa62d8f60ull, 0x81a045ddull, 0x90a414baull, 0x83ad6585ull } },
 { "hmac_sha2_256", 1, { 0x8572d610ull, 0x587de5ecull, 0x8e067ab6ull, 0xf2f8d77dull, 0xf0597279ull, 0x830c5076ull, 0xc58b73d0ull, 0x9d0c6175ull } },
 { "hmac_sha2_256", 2, { 0x63be86f1ull, 0x42ae9d08ull, 0xc760657full, 0x2d1c9c25ull, 0x19acf402ull, 0x164587c4ull, 0xe06f85d9ull, 0x9b2e9866ull } },
 { "hmac_sha2_256", 3, { 0x7350ccf3ull, 0xe1161f5full, 0xc930747eull, 0xf0e59048ull, 0xbf2d3aull, 0x3b435319ull, 0xce892650ull, 0xa3887195ull } },
 { "hmac_sha2_256", 4, { 0x82ed7818ull, 0x44a50e02ull, 0x86d11418ull, 0xc45bf44aull, 0xd73b5f3dull, 0x8bb83003ull, 0x164cf884ull, 0xf506b98aull } },
 { "hmac_sha2_384", 0, { 0x9d9616b166f6d2aeull, 0xe22fd1153454483cull, 0xcd2f125f8cd25495ull, 0x20aec90204b22b49ull, 0x18df52f7321a355cull, 0xf79c6e931c573f68ull, 0x41f6521b66107447ull, 0xf0e2e252950c904eull } },
 { "hmac_sha2_384", 1, { 0xaccf8ec478410608ull, 0x839ef435c71dce34ull, 0xc20f9c537dabd2caull, 0x2be608336cb277cull, 0x59b8a9d4fa51115ull, 0x9e3572bfc2b7d34bull, 0xdd44f02eab4198ecull, 0xcbde942c6945bd24ull } },
 { "hmac_sha2_384", 2, { 0x349bae29eb49c928ull, 0x321f8c3232140c2cull, 0x95e3f54e5c939526ull, 0x5abf059b3d9e4b11ull, 0xa6492a9499909922ull, 0x4e97db35b9350ff6ull, 0x4a034bda4d1f83bcull, 0xaa34b6d2d5aaaa0bull } },
 { "hmac_sha2_384", 3, { 0x7d47bb2eed816988ull, 0x18d6d16517a48ef5ull, 0x81806f452b249145ull, 0x38628ffa7e45708bull, 0xf87668577f1e0ca5ull, 0xf9fa2d6ce9d6dacull, 0xa8ac866f8d7c8b1bull, 0xee06a1f852915db9ull } },
 { "hmac_sha2_384", 4, { 0x227ab88f16eb5536ull, 0x9a665b934452f4f8ull, 0xb4fd2a45f5a209a8ull, 0x707aed7c91240890ull, 0xbcda175a7e2c81f7ull, 0x42409bc857e9ea84ull, 0x8a204ddd6044de65ull, 0x636f4b077ee44a03ull } },
 { "hmac_sha2_512", 0, { 0xf60192195cc954e5ull, 0x8e9d537f4eeb1db2ull, 0xa21ba7b10de01c75ull, 0x1c2716fa140f3718ull, 0x324d19302e69c296ull, 0x718907f7fb92ba0ull, 0x7410ee3a4acbebb9ull, 0x40fdc26a9bf1d32full } },
 { "hmac_sha2_512", 1, { 0x821990a2885e079full, 0x2f50a7ccc827cd81ull, 0x4ecc30f2e9a86833ull, 0xe66be6338f075adcull, 0x4cf6fa7244e852a7ull, 0xc457d17b301e51full, 0x4228f8ccda334061ull, 0x82bbaa3f606942f5ull } },
 { "hmac_sha2_512", 2, { 0x2fd132d4ed4edcb8ull, 0x1dd2afbed74be5f1ull, 0x513624c146a3db21ull, 0x8a1ad965563e2b44ull, 0x1e49bb8a95a30366ull, 0xaacf1b51c4073aa0ull, 0xb3a54ee280b2ecd0ull, 0xfd89433fdf414b5cull } },
 { "hmac_sha2_512", 3, { 0xcf467c8adf23e140ull, 0xcc0b1feaa546b972ull, 0x448af6200156716cull, 0xfd5b93cc79760cd5ull, 0xa1b34398f93a0c4bull, 0xf0f30295018e3016ull, 0x6629437c66b89212ull, 0x7669d477de0f473full } },
 { "hmac_sha2_512", 4, { 0x2d4c681ac56b4bcbull, 0xde1968f79feb7bb1ull, 0xaa1c6621a2a344bbull, 0xf6945629149f1d7cull, 0x6dfc91d52e3b2e11ull, 0x5c85c464f14ec18cull, 0xc5f651167c3fb5d3ull, 0xf6f3e257438f9281ull } },
 { "hmac_sha2_512_224", 0, { 0x288a40b6a90cee8bull, 0xaa873d2c818dcc3full, 0xbea6a1d7a653ea0eull, 0xe29639a2c4544abcull, 0xc515c6fb0bd6807eull, 0x36971cc3e1a80e42ull, 0xb8280d571ba6cfbfull, 0x2b3f8a5e0840d3f4ull } },
 { "hmac_sha2_512_224", 1, { 0x45e2b057a02ccef6ull, 0x196d4c319aa41e0full, 0xa1f006984bcd6e64ull, 0x790b5ac31906f765ull, 0x8c28a10c27c35f60ull, 0xe52ea26b44012fe0ull, 0xd4fea0d0ee444002ull, 0xb2ab0efdcaaa1ca5ull } },
 { "hmac_sha2_512_224", 2, { 0xb90a9d3c081704aull, 0xb6e9258d7717a84full, 0xc64fa8b2202930ccull, 0x9e53bb6d3f969754ull, 0x1f02385dd0de9c79ull, 0xb262f2a17efdd5e2ull, 0xe5c248fa6379f294ull, 0x172825f569b2e915ull } },
 { "hmac_sha2_512_224", 3, { 0xab9409468e2efc9cull, 0x27abaf0f13cffdf3ull, 0x1809f1d04d845261ull, 0xb129d8b7c25a6ddeull, 0x21b5e0bb29a73293ull, 0x412145ea2160f034ull, 0x944941f20d35f2b6ull, 0x5c4866cb46a07414ull } },
 { "hmac_sha2_512_224", 4, { 0xbda66541333c44a5ull, 0xea3b7248bf94bcacull, 0xe09e95262519d737ull, 0x63ed3e05c55a5890ull, 0x1aef3a15106e509aull, 0xc18a534e880c518cull, 0x8313c89a237db964ull, 0x3d2eae808edfbd8full } },
 { "hmac_sha2_512_256", 0, { 0x93787e77f143b23full, 0x8035b3c348b83d1aull, 0xdcfc5e918c208458ull, 0xc0abaf52e79c66a4ull, 0x8d77061f2395c30cull, 0xc322d7d2f40786beull, 0xd52a96d47d680ee6ull, 0x288ad6e05fc6954bull } },
 { "hmac_sha2_512_256", 1, { 0x5b0d12d0046fcf8bull, 0x52c908bc81a8a883ull, 0xb7dcd095d2393918ull, 0xcf20a7b3dec53ecdull, 0x6dd4a8879d821dccull, 0x7767ef12d9e8d7e2ull, 0x1a4b28b8f9bc8edfull, 0xfa5b1420992d445full } },
 { "hmac_sha2_512_256", 2, { 0xd66048ec4b288fbdull, 0xb1560d37bd32339bull, 0x3ea893b34113f489ull, 0xb17362e332c71d72ull, 0xd0b07769a0d701faull, 0x778666a07ed03224ull, 0x2e322259685685c3ull, 0xa48c983cc4d8f18full } },
 { "hmac_sha2_512_256", 3, { 0x10e9cfe38dd37495ull, 0x9ad154c1324d8142ull, 0x20d361baae651facull, 0xa1738ab5e7c6c5ffull, 0x29997022290e03efull, 0x3731b68ef1b128full, 0x7d9a83db60e81554ull, 0xe747b556ca85e011ull } },
 { "hmac_sha2_512_256", 4, { 0x854041a90aadb70dull, 0x4ed5a777fc2fd382ull, 0x7567373d0e2ebec1ull, 0x9c1224b58210bf20ull, 0xfac3812a0cb4a154ull, 0x20ca38f6f97420aull, 0x538cb3343804d344ull, 0xc59b52dac1f56785ull } },
 { "md5_128", 0, { 0x159bc235ull, 0x42fb57b9ull, 0x3bf6f178ull, 0xbba2d97ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "md5_128", 1, { 0x8436ebdcull, 0x447ff525ull, 0xaf8b2019ull, 0xa13541e6ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "md5_128", 2, { 0xcd6c2736ull, 0x7e645289ull, 0xb59932beull, 0x6e464f6dull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "md5_128", 3, { 0xd15ff287ull, 0xfe766f27ull, 0x82545c1aull, 0x31d83a4cull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "md5_128", 4, { 0x84c55ab7ull, 0x22496ac7ull, 0x9043ef46ull, 0xfb3c2996ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_128", 0, { 0xe6fe087full, 0xe197d9cbull, 0xdebc4da3ull, 0x2bcc06ebull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_128", 1, { 0x5c43c688ull, 0x68cab0ddull, 0x6fcfaf84ull, 0x8152772eull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_128", 2, { 0xe4a5cfb7ull, 0x168ab281ull, 0x427500cfull, 0xd099bfdfull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_128", 3, { 0xaac248dfull, 0xad9b6360ull, 0x66344008ull, 0xf9944d49ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_128", 4, { 0x977cf3beull, 0xc50071a4ull, 0xc62e2214ull, 0x4fa08c9bull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_160", 0, { 0x3aa2f8cdull, 0xff97ea4eull, 0x9cb927bbull, 0x8f871ff0ull, 0x1c202a69ull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_160", 1, { 0xb5a6268ull, 0x84062b6eull, 0x2edff733ull, 0xa9eae13eull, 0xc3c52cdaull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_160", 2, { 0xf73dfaeeull, 0xfaed5e4eull, 0xeb037be4ull, 0x5cae48e1ull, 0xba4d4fcdull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_160", 3, { 0x98f56efaull, 0xd3846f01ull, 0xd308831bull, 0xb918940full, 0xd77542e2ull, 0x0ull, 0x0ull, 0x0ull } },
 { "ripemd_160", 4, { 0x498c1141ull, 0xa9257309ull, 0x1254cebaull, 0xcd4b886ull, 0x5edf4ac8ull, 0x0ull, 0x0ull, 0x0ull } },
 { "sha1_160", 0, { 0x200a01d5ull, 0x26ae7830ull, 0x299f8764ull, 0x353292c0ull, 0x8c4b7abeull, 0x0ull, 0x0ull, 0x0ull } },
 { "sha1_160", 1, { 0xca945bb4ull, 0xa88ae94ull, 0x1373dc4bull, 0x7bb7ab00ull, 0xf624ac07ull, 0x0ull, 0x0ull, 0x0ull } },
 { "sha1_160", 2, { 0x90fb878dull, 0xc0921ba4ull, 0x91fb7ba0ull, 0x196defecull, 0xbbb7f29dull, 0x0ull, 0x0ull, 0x0ull } },
 { "sha1_160", 3, { 0x446eed6eull, 0x3832ee8full, 0x5d28abb9ull, 0xa4ae5834ull, 0xad756216ull, 0x0ull, 0x0ull, 0x0ull } },
 { "sha1_160", 4, { 0x4503c958ull, 0x4e9ba363ull, 0xe81fafd1ull, 0x8c35ee8eull, 0x1b5fc2edull, 0x0ull, 0x0ull, 0x0ull } },
 { "sha2_224", 0, { 0xc289db0dull, 0x28321e57ull, 0x3633ac3cull, 0x61a59d53ull, 0xbe4c2076ull, 0x8df84cc5ull, 0xac5062d9ull, 0x84685440ull } },
 { "sha2_224", 1, { 0x30a02df8ull, 0x99e1637full, 0xe89b2cebull, 0xac0bd16bull, 0x60ed4ac5ull, 0x89c2cd15ull, 0x9a021d81ull, 0xd8728574ull } },
 { "sha2_224", 2, { 0xe1f2fbbeull, 0x505f2c7dull, 0xc4c07009ull, 0xe7bfd2ceull, 0x78edfecbull, 0xcd4c0884ull, 0x92461c02ull, 0x63262686ull } },
 { "sha2_224", 3, { 0x99e33ccbull, 0xd9cf5f6dull, 0xdccf4818ull, 0xbffbd717ull, 0xf9567772ull, 0x89819724ull, 0x3b6d447bull, 0x59c8fd4full } },
 { "sha2_224", 4, { 0xe9b2b68ull, 0xbb24fa2ull, 0x83e91dd0ull, 0xd18e983full, 0xbdc6ac5dull, 0xa99a4eb1ull, 0x96b681f7ull, 0xcdf0a31cull } },
 { "sha2_256", 0, { 0x1291dd47ull, 0xc36f97deull, 0xd6e76c23ull, 0x89970323ull, 0xff91ae88ull, 0x8efa758bull, 0x148d7532ull, 0x297628b0ull } },
 { "sha2_256", 1, { 0xc12c6cbaull, 0x99383a6bull, 0xae69f05dull, 0xcba72316ull, 0xa6d80e16ull, 0x357e5e2eull, 0x7a47f742ull, 0xe16167afull } },
 { "sha2_256", 2, { 0x66b5832cull, 0xdab23c38ull, 0xcf71c0c1ull, 0x59191958ull, 0x439d4e44ull, 0x1073caffull, 0xa698b26cull, 0xdb651769ull } },
 { "sha2_256", 3, { 0x31fb0754ull, 0x1ffacd0aull, 0x2f128caaull, 0x229cee34ull, 0x16b9de43ull, 0xec6f19a3ull, 0x61558a2full, 0xa18c1db4ull } },
 { "sha2_256", 4, { 0xc4d6807ull, 0x914cef06ull, 0x159496d0ull, 0x40a60faeull, 0x530681c3ull, 0x56a8b047ull, 0xbe5a81c3ull, 0x1df2defaull } },
 { "sha2_384", 0, { 0x74f30ba3b7daf828ull, 0x2e51e7fab1992c24ull, 0x2469e2bfe48be33full, 0x9edb8bc47656d65cull, 0x5c6ba6bd2ac86226ull, 0x4cb420b75bb495b9ull, 0xcd58fd2e70eb000dull, 0xd3412a832624b398ull } },
 { "sha2_384", 1, { 0x55f93cc85e593ce8ull, 0x4bf157257b33ec0eull, 0xa320f6ea7bbfc6f5ull, 0x68e4dad81abfe0c9ull, 0x64062e0dd0df5dcull, 0x5d40762b1ac49f61ull, 0xd17c02e33c2d5a7bull, 0x85d00a810ffaaf51ull } },
 { "sha2_384", 2, { 0x543e21c87e7afbbdull, 0xa13f4efc8da0301full, 0xed78b8ad53187621ull, 0xe884d4cda3abc993ull, 0x16f9fe3cd0d2f641ull, 0x4bd1ba31b39b5da3ull, 0x5c8b1b088be3ccbbull, 0x19cb61ff9e23126eull } },
 { "sha2_384", 3, { 0x8ae5f8ca1b873c1bull, 0xbe7e4874b910511cull, 0xdcbea862333ba816ull, 0xf53b7a90f511eeeull, 0x8dbee71ff11feeb4ull, 0x4c63a68cd5487738ull, 0xa9e9115f18da4906ull, 0xcb53b3e1edb7ea5aull } },
 { "sha2_384", 4, { 0xaef3d25f62ee35dbull, 0xead403349fd39495ull, 0x658297b9930e3c86ull, 0x2a4d2b6a4074ed06ull, 0x152f116195c9a144ull, 0x9f2d2d416bac3fa9ull, 0x7e2a5f4503dd7732ull, 0xdca9702852216dabull } },
 { "sha2_512", 0, { 0x68f116e7115d85faull, 0x33ad97760ab86df4ull, 0xc834a8629f253a80ull, 0xe01d3db42cd60f1ull, 0xd6e3383d71876full, 0xd2bf36e76e5bd98bull, 0x2ee2969816266c73ull, 0xf8c61b3f1cac5b37ull } },
 { "sha2_512", 1, { 0xdd77d91b20bc5fa7ull, 0x22318b38d1bf2ee2ull, 0x8cbf0bdf95d1fdf7ull, 0x56c6aaa59d518226ull, 0xf201188ec1dacdf5ull, 0xd24b17ca3aac7e44ull, 0xf8ec8cbf2d5fefd9ull, 0x33ed18f1bbe05b7aull } },
 { "sha2_512", 2, { 0x36731077bd583ddbull, 0x7a6eae816946b2dbull, 0x6ffc125c85f80747ull, 0xde93167c823d4878ull, 0x2afa428e1763686cull, 0x7a6f3f7f7f61212ull, 0xda56ce6bf119bba3ull, 0xd1f75ac126dfab79ull } },
 { "sha2_512", 3, { 0x918614d8b0bf49d7ull, 0xe88ac52aa96a0d49ull, 0x1846f640ae886522ull, 0x41a47b9a606da31eull, 0xbe807165b8b5ece2ull, 0x4d82fb7e4a5d093dull, 0x45eedb11019f0e25ull, 0x5ca9edd1bc20c6cbull } },
 { "sha2_512", 4, { 0x2c8b5f8543637548ull, 0xa7cce7306870db63ull, 0xe32f056be4bb00bfull, 0x2390a113fbd3fd8aull, 0x83a8f4a825f218b6ull, 0xdaae51f1f12efb76ull, 0x6f0ad6f17ba85851ull, 0x7965b84c7638f2ffull } },
 { "sha2_512_224", 0, { 0x762674703b17c10dull, 0xef8b86d2b9ad5d89ull, 0x91e7ee695134f655ull, 0x25e74158f62fdff6ull, 0xb073eb575b456780ull, 0x9512000b883e166full, 0x4f1d88a995437204ull, 0x2caa0eef7eba456dull } },
 { "sha2_512_224", 1, { 0x5903d84871a301eaull, 0x49fc71b5344ef3c7ull, 0x50c2cdd9dcc220feull, 0xccf487f14bc9f0beull, 0x7b2ed887b65720e7ull, 0x251801ab6e901676ull, 0x30cc0ab78cacff41ull, 0xf74b297ca7118b90ull } },
 { "sha2_512_224", 2, { 0xf9ca30c4c0d7e7b1ull, 0x939280c56ea0a414ull, 0xf2d07e761641e6c9ull, 0x145112c764367defull, 0x94d14b7de9f98283ull, 0x11dbde7563ebe42dull, 0x27893f198949a676ull, 0x992df51ebb36456full } },
 { "sha2_512_224", 3, { 0x5a54b7e99508d5e9ull, 0x3921ab80561e764eull, 0x3aa12513d1800cc5ull, 0xd1694675b3940c3full, 0x1226d48ebf8e9d0aull, 0x3d9464b020527b1eull, 0xa5a2e1ca7362d4f2ull, 0xeb8cc73fb98559abull } },
 { "sha2_512_224", 4, { 0xa7f4a81f23364944ull, 0x3d89a8bb109f617ull, 0x3b1038542d7c2ac5ull, 0x923768ff4f3bd199ull, 0x992e17f872dea2edull, 0x9efd75041865b083ull, 0x227b83ecc9b7a804ull, 0x35478c79c47b0a94ull } },
 { "sha2_512_256", 0, { 0x7e3dece9a5cb0106ull, 0xda2608ce9d124fc6ull, 0x5ae3e573c58dcebaull, 0x7cef42e9fa5fec6full, 0x40b611e7cde04d2dull, 0x8e7237dd97135295ull, 0xe4ccca418adf54c9ull, 0xe897850e1cde73e5ull } },
 { "sha2_512_256", 1, { 0x5ffcd4b71044dc35ull, 0xd92600e8d42deb61ull, 0x17227ce99d6cc68aull, 0x41259682226f6a5bull, 0xd19a9ffd6590b6c1ull, 0xb00a091027525f94ull, 0xa5871281179c1a9ull, 0x800ab09f929fc74ull } },
 { "sha2_512_256", 2, { 0xe029ee4e535f01a4ull, 0x3db4bea0a07de6a1ull, 0xa62c222cbf9dfc78ull, 0x90d721bbd180cf71ull, 0x50b4748cad6b40bull, 0x15681db3b56dc8d5ull, 0x4d5ffa0392171e41ull, 0x5a004ac2f27bcf5eull } },
 { "sha2_512_256", 3, { 0x8ccc4610ff08cd22ull, 0x92f6591fbbf97f80ull, 0x7e33213e668910bull, 0xa37bdf08d7a4eac7ull, 0xfca61153ffbf42faull, 0xef074639ae617010ull, 0xdece5ed4616fba6aull, 0x91c35fa98ff5075cull } },
 { "sha2_512_256", 4, { 0x4132e1850cdebfe1ull, 0x2f10c4b5a2d6ae8ull, 0x20ed5081e116e41aull, 0xe4119c830f8e90a5ull, 0xe30c1cfa7a1f19e5ull, 0x65e7a0b4fd612c3dull, 0x9ef5d9a3f0d464bcull, 0x59bdd61bd199c43eull } },
 { "siphash_32", 0, { 0x762ebf1bull, 0x8357e196ull, 0x13456441ull, 0x9b5f3aa1ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "siphash_32", 1, { 0xa5499a75ull, 0x37fd227bull, 0x92ea9ca1ull, 0xd07f751dull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "siphash_32", 2, { 0xf1ec39c0ull, 0x785cdcc3ull, 0x875d42beull, 0x9f840894ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "siphash_32", 3, { 0x468bf37ull, 0x8fe3bc2eull, 0xf42e9e89ull, 0xb9759e7bull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "siphash_32", 4, { 0x672280e3ull, 0x102c0658ull, 0xc3aab338ull, 0x5e19ba5ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "siphash_64", 0, { 0xa91055f055d5dcb4ull, 0x42e13b4f0134c0c0ull, 0x913a58739494192dull, 0xe027c84cc1ba885aull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "siphash_64", 1, { 0xb77bacde639632feull, 0xa1fa2654c47f3024ull, 0xa307fb1e91a2db1full, 0xa3163eaf013271ceull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "siphash_64", 2, { 0xde9def81000a5669ull, 0x734be932d2cd53e0ull, 0x452c056666122e9aull, 0xb3326ee1e9d8141cull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "siphash_64", 3, { 0x7e9b8edf858333full, 0xe04896f5b075ff07ull, 0xc3fd74a465bc78d6ull, 0x7875d5cfea9b2f3cull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "siphash_64", 4, { 0x8e9b974fb29d7027ull, 0xa3428d79c360937full, 0x76f32ae4c4704e72ull, 0x48a8f127a8c938c0ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_32", 0, { 0x298f0f32ull, 0xc9dea43cull, 0xa3939721ull, 0xbac61b57ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_32", 1, { 0x201236fbull, 0x5aa2873aull, 0x9d4162dull, 0x931bdc52ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_32", 2, { 0x7779f903ull, 0x3e2c470cull, 0x65a0945full, 0x598e5f6aull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_32", 3, { 0x83defe67ull, 0x1ccc5fc4ull, 0xfc7d17f1ull, 0x29b638e6ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_32", 4, { 0x1ada94bfull, 0x8370e431ull, 0xe3c6475dull, 0xb45979a3ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_64", 0, { 0xabb31c710bdb1c3aull, 0xdb2ccbb1e9d5c307ull, 0xa6eabe74810709f2ull, 0xfa3725ef505166ceull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_64", 1, { 0x32c11158e0e62e9full, 0x267e4eaa9b319ddaull, 0x86edb9a640097b42ull, 0xfbc293c7f2034c84ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_64", 2, { 0x3699eda9bc3ab1b9ull, 0xa68798e052a63192ull, 0x93c8009d8f5807ceull, 0xfb0dfdebbce61a0aull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_64", 3, { 0x3a62b35fd3379d1cull, 0xe563583c936d519aull, 0xda292c8f01042e5full, 0xb15e55975b4966ddull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
 { "xxhash_64", 4, { 0xfc3c904e70139eb1ull, 0x18754d9c3cedda49ull, 0x1d9e3fa7ec22c693ull, 0x82fe58967d47f6a9ull, 0x0ull, 0x0ull, 0x0ull, 0x0ull } },
};
