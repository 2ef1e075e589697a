#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator only so the lines stay well-formed)."""
import json, os
I='include/boost/hash2/'
D=I+'detail/'
ALG=[I+x for x in ('fnv1a.hpp','xxhash.hpp','siphash.hpp','md5.hpp','sha1.hpp','sha2.hpp','ripemd.hpp','hmac.hpp')]
HA=[I+'hash_append.hpp']
MEM=[D+x for x in ('read.hpp','write.hpp','rot.hpp','memcpy.hpp','memset.hpp','memcmp.hpp','is_constant_evaluated.hpp')]
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={'files':files,'mechanism':[{'name':mech,'where':', '.join(os.path.basename(f) for f in files)}]}
    a.update(kw)
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':qtext},why_tests_cant=why,anchors=a))

p('C01','Every digest equals the published algorithm for every message',
  'A default-constructed FNV-1a 32/64, xxHash 32/64, SipHash 2-4, HalfSipHash 2-4, MD5, SHA-1, SHA-224/256/384/512, SHA-512/224, SHA-512/256, RIPEMD-128 or RIPEMD-160 object that is given a message and asked for its result returns exactly the value the published specification of that algorithm assigns to that message. This holds for every message length (every position relative to the block and padding boundaries, including the empty message) and for every byte value at every position.',
  ['inputs'],'all messages: every length and every byte content, for each of the 16 unkeyed algorithms and the default-keyed SipHash variants',
  'The tests pin a few dozen vectors per algorithm at selected lengths; they do not visit every residue of the length modulo the block size, every padding boundary, or every byte value at every position of a block.',
  ALG+MEM,'Block compression, message padding, length encoding and result serialization of each algorithm.')
p('C02','How a message is split into update calls never matters',
  'Feeding a message to a hash algorithm through any sequence of update calls whose pieces concatenate to that message - pieces of length zero included, through the untyped or the byte-pointer overload in any mixture - leaves the object giving the same results as one update call with the whole message. This holds for all 26 provided algorithms, HMAC variants included, whether the object was default-constructed, seeded or keyed, and also after a result has already been taken.',
  ['inputs','histories'],'all ways of cutting a message into consecutive pieces, from every construction and from states after a result was taken',
  'The number of splits is exponential in the message length; the tests try a handful of two-way splits or character-by-character feeding on short messages, so off-by-one faults in partial-block buffering at one residue stay hidden.',
  ALG,'Partial-block buffer, fill level and total count kept across update calls; direct processing of whole blocks.')
p('C03','Seeding follows the documented derivation and separates instances',
  'Constructing with integer seed zero or an empty byte sequence is the same as default construction, and every other integer or byte-sequence seed puts the object in exactly the state its documentation defines (feeding the little-endian seed or the bytes and, except for FNV-1a, finalizing once; the algorithm key for SipHash with a key-sized sequence or an integer; the algorithm seed for xxHash). Wherever the state is wide enough to tell them apart, distinct integer seeds, and distinct byte-sequence seeds, start the algorithm in different states, so that they do not produce identical results on every message (zero-extended keys of HMAC and the all-zero SipHash key, which are equivalent by specification, excepted).',
  ['inputs'],'all 64-bit integer seeds and all byte-sequence seeds of every length, for every algorithm, followed by any message',
  'Tests use two or three seed values with small magnitudes; the high half of the integer, special seed lengths (8, 16, block size and beyond) and pairs of seeds that could collide structurally are not explored.',
  ALG,'The two seeding constructors of each algorithm.')
p('C04','Results are a deterministic, extending function of the operation history',
  'Any history of update and result calls on a hash algorithm object is allowed, and each returned value depends only on the algorithm, the construction arguments and the preceding history of results and message bytes: the same history always returns the same values. For the padding-based algorithms the state after a result is the state after absorbing the message plus its padding, for FNV-1a the one documented extra step, and for xxHash and SipHash the finalization applied to the state; consecutive results without intervening input keep changing, so they extend the output instead of repeating.',
  ['histories'],'all interleavings of update and result calls, any number of results, from every construction',
  'One test checks that four consecutive results of one short message differ pairwise; interleavings such as update-result-update-result at different buffer fill levels, and the exact values after the first result, are never exercised.',
  ALG,'State update performed by result(): padding absorption, count adjustment, state perturbation.')
p('C05','HMAC equals RFC 2104 for every key, message and hash',
  'For each cryptographic hash algorithm, the HMAC adaptor returns the value RFC 2104 defines for every key length (empty, shorter than, equal to and longer than the block size) and every message, however the message is split. An integer seed acts as its 8-byte little-endian key (zero as the empty key), and a user-supplied conforming hash algorithm with its own block and digest size is adapted in the same way.',
  ['inputs'],'all keys (every length around one and two blocks, every byte value) and all messages, for the ten provided HMACs and any conforming hash',
  'RFC vectors cover about seven key/message pairs per hash and no key of exactly one block or one block plus one byte for most of them; no test instantiates the adaptor with a foreign hash whose digest is larger than its block.',
  [I+'hmac.hpp',I+'md5.hpp',I+'sha1.hpp',I+'sha2.hpp',I+'ripemd.hpp'],'Key normalization, inner and outer pads, and outer finalization.')
p('C06','Compile-time hashing gives the same values as run-time hashing',
  'From C++14 on, every operation that is usable in a constant expression - constructing, seeding and keying an algorithm, byte updates, results, appending values (scalars, arrays, ranges, containers, tuples, described classes), integral results, digest comparison and digest-to-text conversion - can be evaluated by the compiler and yields exactly the values the same operations yield at run time.',
  ['inputs','programs','configurations'],'all constant-evaluable programs over the library: every algorithm, message length, split, seed and value, in each supported compiler and standard',
  'The compile-time tests evaluate a few fixed short messages; the constant-evaluation branches (element loops instead of block copies, shifts instead of memory copies) at other lengths and types are only reachable by enumerating them.',
  ALG+HA+MEM+[I+'digest.hpp',I+'get_integral_result.hpp'],'Constant-evaluation branches selected by the is-constant-evaluated test.')
p('C07','Scalars serialize to their exact value representation in the chosen byte order',
  'Appending an integer, character, boolean, enumeration or pointer value sends exactly its sizeof bytes, in the byte order selected by the flavor (native, little or big), and appending a float or double sends its IEEE representation as the equally sized unsigned integer, with negative zero sent as positive zero. Sizes are sent as the flavor\'s size type, null pointers as a null pointer value, and equal values always send equal bytes while distinct values (NaN payloads included) send distinct bytes.',
  ['inputs','configurations'],'all values of every scalar type under every flavor, including flavors defined by the user',
  'Tests check one or two values per type; sign extension, high-bit values, denormals, negative zero in composite positions and user-defined flavors with a 32-bit size type are not enumerated.',
  HA+[I+'flavor.hpp',I+'endian.hpp',D+'write.hpp',D+'bit_cast.hpp'],'Scalar overloads of the append operation and the endian-aware writer.')
p('C08','A range\'s message is determined by its elements, not by its representation',
  'Appending an array, string, container or iterator range sends the messages of its elements in order and then, unless the size is a compile-time constant, the number of elements; nothing else about the object (capacity, allocation layout, node structure, iterator category, proxy references, const-ness, pointer or class iterators) influences the message. Containers of different kinds holding the same elements therefore send the same message, and appending a range by iterators equals appending its elements and its size separately.',
  ['inputs','histories'],'all containers and ranges of any element type and length, however they were built, under every flavor',
  'Tests compare a few containers of three or so elements built one way; capacity and segment effects, every iterator category, proxy-reference iterators and every length across buffering boundaries are not covered.',
  HA+[I+'has_constant_size.hpp'],'Range overloads, contiguous fast path, sized-range dispatch on iterator category.')
p('C09','Different values of a type produce different messages',
  'For every type built from scalars, strings, sequences, maps, fixed-size arrays, pairs, tuples and described classes to any nesting depth, two values that are not equal always produce different messages, so element boundaries, nesting, emptiness and lengths can never be confused. In particular moving an element or an empty inner container between neighbouring containers always changes the message.',
  ['inputs'],'all pairs of unequal values of any nested composite type, under every flavor',
  'Injectivity is a statement about all pairs of values; the tests check a few hand-picked pairs.',
  HA,'Size suffixes of dynamic ranges and the never-empty rule.')
p('C10','No appended value ever produces an empty message',
  'Appending any value, including empty containers, zero-length fixed arrays, empty tuples and described classes without bases or members, calls update at least once with a total of at least one byte. Values without any content send a single zero byte, so a sequence of n such values sends n bytes.',
  ['inputs','programs'],'all values of all supported types, including compile-time-empty ones and their nestings',
  'A test covers the listed zero-size types once; combinations (empty bases, arrays of empty tuples, empty ranges of constant size in other shapes) and the count of update calls are not checked.',
  HA+[I+'has_constant_size.hpp'],'Explicit zero-byte message for types that would send nothing.')
p('C11','Unordered ranges hash by content, independent of order, but not of multiplicity',
  'Appending an unordered container or unordered range yields the same message for every iteration order, bucket count, insertion order, erase/rehash history, load factor and copy of the same multiset of elements. Any difference in the elements, in the multiplicity of an element, in the size, or in what the hash object had absorbed before changes the result, and the combined message is the order-independent combination of the per-element results taken from copies of the current hash object, followed by the element count.',
  ['inputs','histories'],'all multisets of elements, all permutations and construction histories of each, for every algorithm and flavor',
  'Tests compare one small set against itself built differently; all permutations, duplicates that could cancel, rehash histories and prior hash state are not enumerated.',
  HA+[I+'get_integral_result.hpp'],'Per-element hashing on copies of the hash state and commutative accumulation.')
p('C12','The contiguous fast path is never observable',
  'Whenever values are declared or detected to be hashable by their raw bytes, the bytes sent - as single values, in arrays, in contiguous containers and in iterator ranges - are the same as those sent by appending the values one by one and, for scalars, the same as the documented field-by-field representation in the flavor\'s byte order. Types whose object bytes do not determine their value (padding, floating point, user comparison) or whose byte order differs from the requested one are never sent raw unless the user declares it.',
  ['inputs','configurations','programs'],'all element types (built-in and user-declared), lengths and flavors, at run time and in constant expressions',
  'The fast path is selected by traits per type, byte order and iterator type; tests check trait values for some types, not the equality of the two paths over all types, flavors and lengths.',
  HA+[I+'is_contiguously_hashable.hpp',I+'is_trivially_equality_comparable.hpp',I+'is_endian_independent.hpp'],'Trait-selected raw update versus per-element append.')
p('C13','User-defined types hash exactly as their declared parts',
  'A class with a user-supplied append hook sends exactly what the hook appends; a described class sends each of its base subobjects in order and then each of its members in order, whatever their access level; a pair or other tuple-like type sends each element in order. This composes to any depth - inheritance chains, members of container or tuple type, containers of such classes, pointers and enumerations as members - and works with any hash algorithm and flavor, passing both on unchanged.',
  ['inputs','programs'],'all described, tuple-like and hook-providing classes and their nestings, for every algorithm and flavor',
  'Tests check about ten hand-written classes with one value each; order of bases versus members, private members, multiple inheritance, flavor propagation through every composite and deep nestings are only sampled.',
  HA+[D+'has_tag_invoke.hpp'],'Dispatch on hooks, described bases and members, tuple elements.')
p('C14','Integral results are exact, uniform and total',
  'Converting a hash result to an integer type is the identity (modulo sign) for equal sizes; narrowing maps the result domain onto the target domain uniformly, every target value having equally many preimages; widening is injective and spreads the input over the high and low bits of the target; and an array-like result of eight or more bytes yields its first eight bytes read as little-endian, truncated to the target. The operation gives signed and unsigned targets the same bits, works in constant expressions, never throws and has no undefined behaviour for any input.',
  ['inputs'],'all result values of every unsigned size and all array-like results, for every target integer type',
  'Uniformity and injectivity are statements about the whole 2^16 or 2^32 domain; the tests compare a few values, and sample uniformity on a handful.',
  [I+'get_integral_result.hpp',D+'read.hpp'],'Multiplicative contraction and expansion, little-endian read.')
p('C15','Digest values compare, index and print exactly',
  'Two digests are equal exactly when all their bytes are equal; iteration, indexing, front/back, data and size expose exactly the N bytes given. Text conversion produces exactly 2N lowercase hexadecimal characters, high nibble first; the bounded form writes nothing and returns null when the buffer is shorter than 2N and otherwise writes exactly 2N characters and returns the position after them, and the array form adds one terminator; the string and stream forms give the same text, at run time and compile time.',
  ['inputs'],'all digest sizes, all byte values at all positions, all buffer sizes',
  'Tests use a few sizes and a single content; a comparison that ignores one byte, a conversion that mishandles one nibble value, or a write outside the buffer at an exact size is not excluded.',
  [I+'digest.hpp',D+'memcmp.hpp'],'Byte-array wrapper with comparison and hexadecimal formatting.')
p('C16','No message or key byte survives in the object after a result',
  'After a result has been taken, the hash algorithm object contains no byte of the absorbed message and no byte of a seed sequence or key, in the clear or masked by a fixed constant, at any offset, however the message was split and whatever its length. This also holds for objects that were seeded, for HMAC objects, and after further update/result rounds.',
  ['inputs','histories'],'all messages, lengths, splits and seeds, at every object byte after each result',
  'One test searches each object for one four-byte pattern after one message; a leak of a shorter tail, at another length residue or through another path is invisible to it.',
  ALG+[D+'memset.hpp'],'Clearing of the partial-block buffer when a block is processed and when the result is taken.')
p('C17','Hashing is free of undefined behaviour and stays inside its buffers',
  'For every sequence of construction, update, result, append and conversion operations within the documented preconditions - including empty inputs given as a null pointer with length zero, at every buffer fill level and every pointer alignment - the library reads only the given bytes, writes only its own object and the given output buffer, reads no uninitialized memory, and executes no other undefined behaviour. No internal assertion fails.',
  ['inputs','histories'],'all operation sequences, lengths, alignments and buffer fill levels',
  'The test suite is usually run without sanitizers and never passes null with zero length in a non-empty state, exact-size heap buffers or every alignment.',
  ALG+HA+MEM+[I+'digest.hpp',I+'get_integral_result.hpp'],'Raw memory operations guarded by lengths and fill levels.')
p('C18','Hash objects are independent values, in any interleaving and on any thread',
  'Copying or assigning a hash algorithm object gives an equivalent, independent object: from then on each object\'s results depend only on its own history. This holds for every interleaving of operations on several objects, of the same or different algorithms, on one thread or on concurrent threads with no synchronization, because the library keeps no shared mutable state.',
  ['schedules','histories'],'all interleavings, at the granularity of memory accesses, of operations on distinct objects on several threads, and all histories of copies and assignments',
  'Tests are single-threaded and use one object at a time; shared scratch memory or a cached block would pass every one of them.',
  ALG+HA,'All state lives in the object; constants are immutable.')
p('C19','Results do not depend on compiler, language standard, optimization or platform',
  'The digest of a message, and the message of a value under a flavor with explicit byte order, are the same under every supported compiler, language standard (C++11 to the newest), optimization level, assertion setting, pointer width and machine byte order. Under the native flavor they equal those of the explicit flavor matching the machine\'s byte order.',
  ['configurations','inputs'],'all build configurations and platforms, for all messages and values',
  'A single test run exercises one configuration; code selected by language standard, compiler builtin, endianness or pointer width is compiled out in that run.',
  ALG+HA+MEM+[I+'endian.hpp',I+'flavor.hpp',D+'config.hpp'],'Preprocessor- and trait-selected code paths.')
p('C20','Any conforming hash algorithm can be plugged in and sees the same message',
  'The message sent for a value under a given flavor does not depend on the hash algorithm: appending a value to any conforming algorithm object, in any state, has the same effect as updating it with that value\'s message (for unordered ranges, as defined by the per-element results). Only the documented minimal interface is required of a user-written algorithm - untyped-pointer update, 32-bit, 64-bit or array-like result, copyable - and wrappers of algorithms such as HMAC behave like any other.',
  ['inputs','programs'],'all values of all supported types, all algorithms provided or user-written, in any state, under every flavor',
  'Tests append to one or two algorithms from a fresh object; algorithm-specific behaviour and foreign minimal algorithms are hardly exercised.',
  HA+ALG,'Generic append code calling only update, copy and result.')
p('C21','Very long messages are counted and hashed correctly',
  'Digests remain correct for messages whose length in bits or bytes passes 2^32, whether they arrive in one update call longer than 4 GiB or in many calls, on 64-bit platforms and - in many calls - on 32-bit platforms. The total length is accounted for exactly as the algorithm specification requires.',
  ['inputs','histories'],'all message lengths around and beyond 2^29 and 2^32 bytes, and the ways of feeding them',
  'No test hashes more than a few megabytes, so a narrowed counter or a truncated length argument is invisible.',
  ALG,'Total length counters and per-call length arithmetic.')
L=[I+'legacy/murmur3.hpp',I+'legacy/spooky2.hpp']
p('C22','Legacy MurmurHash3 and SpookyHash equal their published references',
  'murmur3_32, murmur3_128 (the x64 variant) and spooky2_128 return, for every message and seed, the value of the published reference implementation, however the message is split into updates, on every platform and for messages passing 2^32 bytes. Distinct integer seeds and constructor seed pairs start different states where the state is wide enough, and every byte of a byte-sequence seed influences the result; histories of updates and results are deterministic, copies are independent objects, no message byte survives a result, and the algorithms can be used with the append operation like any other.',
  ['inputs','histories','configurations'],'all messages, splits, seeds and operation histories of the three legacy algorithms, in each supported configuration',
  'The legacy tests compare a few short messages with a constant; buffer boundaries (16, 96, 192 bytes), 32-bit lengths, seeding by bytes and histories of results are not exercised.',
  L+HA,'Block and tail processing, short and long message paths, total length counters and seeding of the legacy algorithms.')
p('C23','Exceptions thrown by user code pass through and leave everything consistent',
  'When user code that an append or an HMAC operation calls throws - the update, copy or result of a user-written algorithm, an append hook, an iterator operation, or begin, end, size or data of a range - the exception reaches the caller unchanged. Nothing the library created stays alive, and a hash object being appended to has absorbed exactly some prefix of the value\'s message (in particular, none of the bytes of an unordered range\'s elements), so it can be used further like any other object.',
  ['histories','inputs'],'all points at which user code is called during an append or an HMAC operation, for all supported kinds of value, every algorithm and flavor',
  'No test throws anything; a missing cleanup, a swallowed exception, a spurious noexcept or a temporarily modified hash object only shows when one particular call fails.',
  HA+[I+'hmac.hpp'],'Exception-neutral traversal; copies of the algorithm are automatic objects.')
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
