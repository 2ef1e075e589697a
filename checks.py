"""The checks, one function per property."""
import os, sys, re, subprocess, hashlib, json
from concurrent.futures import ThreadPoolExecutor
from vlib import Check, VERIF, REPO, H, JOBS

CHECKS = {}
def check(pid):
    def d(f): CHECKS[pid] = f; return f
    return d

def run(pid, tier):
    if pid not in CHECKS: print('unknown property', pid); return 2
    c = Check(pid, tier)
    return CHECKS[pid](c)

# -------------------------------------------------------------------------------
NAMES = {'md5_128': 'md5', 'sha1_160': 'sha1', 'sha2_256': 'sha256', 'sha2_224': 'sha224', 'sha2_512': 'sha512', 'sha2_384': 'sha384',
         'sha2_512_224': 'sha512_224', 'sha2_512_256': 'sha512_256', 'ripemd_160': 'ripemd160'}

def oracle_vectors(c):
    """Digests by hashlib (OpenSSL), used to validate the reference models themselves."""
    f = os.path.join(c.dir, 'oracle.txt'); n = 0
    with open(f, 'w') as o:
        for a, b in NAMES.items():
            try: hashlib.new(b)
            except ValueError: continue
            for L in list(range(0, 300)) + [1000, 4095, 4096, 65537]:
                o.write('%s %d %s\n' % (a, L, hashlib.new(b, bytes((i * 7 + 3) & 255 for i in range(L))).hexdigest())); n += 1
    c.extra['model_vectors_from_hashlib'] = [str(n)]
    return f

@check('C01')
def c01(c):
    v = oracle_vectors(c)
    exe = c.compile('c01.cpp')
    c.run_all([('', exe)], env={'ORACLE_VECTORS': v})
    return c.finish('one state per (algorithm, message); transitions are real update+result executions compared with the reference model; messages: every length up to the bound in 8 byte patterns, every byte value at every position of two blocks, all messages of <=2 bytes, all position pairs of a block')

@check('C02')
def c02(c):
    exe = c.compile('c02.cpp')
    c.run_all([('', exe)])
    return c.finish('states are distinct raw object states per absorbed length; from each, every next piece length (0 included, null pointer included) through both update overloads; every state is bound to the model by two results')

@check('C03')
def c03(c):
    exe = c.compile('c03.cpp')
    c.run_all([('', exe)])
    return c.finish('one state per (algorithm, construction); each is run on five probe messages with two results in lock step with the model; fingerprints of distinct seeds must differ')

@check('C04')
def c04(c):
    exe = c.compile('c04.cpp')
    c.run_all([('', exe)])
    return c.finish('breadth-first over histories of update(k)/result with states merged on (object bytes, model state, position); every result transition is compared with the model; plus runs of consecutive results from every fill level')

@check('C05')
def c05(c):
    exe = c.compile('c05.cpp')
    c.run_all([('', exe)])
    return c.finish('one state per (HMAC, key, message); key lengths x message lengths grids, key byte sweeps, all keys of <=2 bytes, integer seeds, message splits; real HMAC against an RFC 2104 model over independent hash models and over user-written hashes')

@check('C07')
def c07(c):
    exes = c.compile_many([dict(src='c07.cpp', std='c++17', name='a'), dict(src='c07.cpp', cxx='clang++', std='c++20', name='b'), dict(src='c07.cpp', cxx='clang++', std='c++11', name='o')])
    c.run_all([('g++17', exes[0]), ('clang++20', exes[1]), ('clang++11', exes[2])])
    return c.finish('one state per (type, value): 8/16-bit types and 32-bit unsigned and float exhaustively (every bit pattern), 64-bit types over all single-byte values at every position on four backgrounds with a second extreme byte, all one/two-bit patterns, all sign/exponent/high-fraction halves of double; each appended under six flavors and compared byte for byte with the value representation')

C08_ELEMS = ['unsigned char', 'char', 'signed char', 'bool', 'std::uint16_t', 'int', 'std::uint64_t', 'float', 'double', 'E16', 'IP', 'std::string', 'PU', 'VU', 'A2', 'A3', 'AF', 'T0', 'D4', 'tagged', 'descr', 'TCD', 'VB', 'SI', 'wchar_t', 'char16_t', 'char32_t']
@check('C08')
def c08(c):
    jobs = [dict(src='c08b.cpp', cxx='clang++', opt='-O0', name='b'), dict(src='c08c.cpp', name='c')]
    jobs += [dict(src='c08.cpp', flags=['-DELEM=' + e], cxx='clang++', opt='-O1' if i % 3 else '-O0', std=['c++14', 'c++17', 'c++20'][i % 3], name='e%d' % i) for i, e in enumerate(C08_ELEMS)]
    if c.thorough: jobs += [dict(src='c08.cpp', flags=['-DELEM=' + e], cxx='g++', opt='-O2', std=['c++14', 'c++17', 'c++20'][(i + 1) % 3], name='g%d' % i) for i, e in enumerate(C08_ELEMS)]
    else: jobs += [dict(src='c08.cpp', flags=['-DELEM=' + e], cxx='g++', opt='-O1', name='g_' + e[:6].replace(':', '_').replace(' ', '_')) for e in ('unsigned char', 'float', 'bool', 'tagged')]
    # under C++11 contiguous elements go through a loop of their own
    jobs += [dict(src='c08.cpp', flags=['-DELEM=' + e], cxx=('clang++', 'g++')[i % 2], opt='-O0', std='c++11', name='c11_%d' % i) for i, e in enumerate(['unsigned char', 'int', 'IP', 'tagged', 'double', 'A3'])]
    jobs += [dict(src='c08b.cpp', cxx='g++', opt='-O0', std='c++11', name='b11'), dict(src='c08c.cpp', cxx='clang++', std='c++11', name='c11')]
    jobs += [dict(src='c08d.cpp', cxx=x, opt='-O1', std=s, name='d' + x[0] + s[-2:]) for x, s in [('g++', 'c++20'), ('clang++', 'c++20')] + [('g++', 'c++23'), ('clang++', 'c++23')] * c.thorough]
    exes = c.compile_many(jobs)
    labels = ['assoc', 'large'] + C08_ELEMS + [j['name'] for j in jobs[2 + len(C08_ELEMS):]]
    c.run_all(list(zip(labels, exes)))
    return c.finish('one state per (element type, element sequence, flavor) or container history; every container kind, array kind, iterator category and pointer form holding that sequence is appended and compared with the concatenated element messages and count; histories: all operation sequences to the depth')

VSELS = ['VTYPES_A', 'VTYPES_B', 'VTYPES_C', 'VTYPES_D']
@check('C09')
def c09(c):
    jobs = [dict(src='c09.cpp', flags=['-DVSEL=' + v], cxx='clang++', opt='-O1', std=s, name='c' + v[-1]) for v, s in zip(VSELS, ['c++14', 'c++17', 'c++20', 'c++17'])]
    jobs += [dict(src='c09.cpp', flags=['-DWSEL=WT%d' % k], cxx=x, opt='-O1', std=s, name='w%d' % k) for k, (x, s) in enumerate((('clang++', 'c++17'), ('clang++', 'c++14'), ('g++', 'c++20'), ('clang++', 'c++20')))]
    jobs += [dict(src='c09.cpp', flags=['-DVSEL=' + v], cxx='clang++', opt='-O1', std='c++11', name='o' + v[-1]) for v in VSELS] + [dict(src='c09n.cpp', cxx='clang++', opt='-O2', name='n')]
    exes = c.compile_many(jobs)
    c.run_all(list(zip(VSELS + ['wide%d' % k for k in range(4)] + [v + ' c++11' for v in VSELS] + ['counts'], exes)))
    return c.finish('one state per (type, value, flavor) over complete bounded universes of values of each type, and over wide values (containers of up to 65537 elements, arrays of up to 4096, 20 components, nesting depth eight) with every single component changed or exchanged with its neighbour; the real messages of all values of a type are put in a table and any two unequal values sharing a message are reported')

@check('C10')
def c10(c):
    jobs = [dict(src='c10.cpp', flags=['-DVSEL=' + v] + (['-DCONTENTLESS'] if i == 0 else []), cxx='clang++', opt='-O0', std=s, name='c' + v[-1]) for i, (v, s) in enumerate(zip(VSELS, ['c++14', 'c++17', 'c++20', 'c++17']))]
    exes = c.compile_many(jobs)
    c.run_all(list(zip(VSELS, exes)))
    return c.finish('one state per (type, value, flavor) over complete bounded universes plus all content-less types; the number of update calls and bytes is recorded, and sequences of n content-less values must send n zero bytes')

@check('C11')
def c11(c):
    exes = c.compile_many([dict(src='c11.cpp', cxx='clang++', opt='-O1', name='a'), dict(src='c11.cpp', cxx='g++', opt='-O1', std='c++11', name='o')])
    c.run_all(list(zip(['clang', 'c++11'], exes)))
    return c.finish('states are (multiset of elements, prior hash state, flavor); all permutations, bucket counts, insertion orders and erase/rehash histories to the depth are executed and must agree with one another and with the documented combination, and different multisets must differ')

@check('C12')
def c12(c):
    exes = c.compile_many([dict(src='c12.cpp', cxx='clang++', opt='-O0', name='a'), dict(src='c12.cpp', cxx='g++', opt='-O0', std='c++11', name='o'), dict(src='c12h.cpp', cxx='clang++', opt='-O2', name='h'), dict(src='c12h.cpp', cxx='clang++', opt='-O1', std='c++11', name='h11')] + [dict(src='c12.cpp', cxx='g++', opt='-O1', std='c++20', name='b')] * c.thorough)
    c.run_all(list(zip(['clang', 'c++11', 'huge', 'huge c++11', 'gcc'], exes)))
    return c.finish('one state per (type, value sequence, flavor); sequences of every length to the bound are appended one by one, as arrays, contiguous containers and iterator ranges, with and without the fast path declared, and all messages must agree with the field-by-field one')

@check('C13')
def c13(c):
    sys.path.insert(0, os.path.join(VERIF, 'tools')); import gen_c13
    jobs = [dict(src=f, cxx='g++' if i % 4 == 3 else 'clang++', opt='-O0', std=['c++14', 'c++17', 'c++20'][i % 3], name='s%d' % i) for i, f in enumerate(gen_c13.write(c.dir, 24 if c.thorough else 12, c.thorough))]
    jobs += [dict(src='c13.cpp', flags=['-DOUTER=%d' % i], cxx='clang++', opt='-O0', std=['c++17', 'c++20', 'c++14'][i % 3], name='o%d' % i) for i in range(23)]
    jobs += [dict(src='c13.cpp', flags=['-DWSEL'], cxx='clang++', opt='-O0', std='c++17', name='wide')]
    deep = [(a, b) for a in range(23) for b in range(23)] if c.thorough else [(0, 6), (2, 22), (13, 1), (6, 13), (22, 12), (20, 5), (12, 9), (5, 21)]
    jobs += [dict(src='c13.cpp', flags=['-DOUTER=%d' % a, '-DDEEP=%d' % b], cxx='clang++', opt='-O0', std='c++17', name='d%d_%d' % (a, b)) for a, b in deep]
    exes = c.compile_many(jobs)
    c.run_all([(j['name'], e) for j, e in zip(jobs, exes)])
    return c.finish('one state per (type, value): every described-class shape (base lists x member counts x access assignments x declaration orders) and every nesting of 23 wrappers (described classes, hooks, tuple-likes, containers) to depth two (selected depth three; all in thorough); message and results compared with those of the parts in order, with stateful flavors and several algorithms')

ALG_BLOCK = {'fnv1a_32': 8, 'fnv1a_64': 8, 'xxhash_32': 16, 'xxhash_64': 32, 'siphash_32': 4, 'siphash_64': 8, 'md5_128': 64, 'sha1_160': 64, 'sha2_256': 64, 'sha2_224': 64, 'sha2_512': 128, 'sha2_384': 128, 'sha2_512_224': 128, 'sha2_512_256': 128, 'ripemd_160': 64, 'ripemd_128': 64}
ALG_BLOCK.update({'hmac_' + k: v for k, v in list(ALG_BLOCK.items()) if v >= 64})
USER_ALGS = ['user<unsigned char>', 'user<std::uint16_t>', 'user<std::uint32_t>', 'user<unsigned long>', 'user<unsigned long long>', 'user<std::array<unsigned char,8>>', 'user<std::array<unsigned char,13>>', 'user<hh::digest<20>>', 'user<hh::digest<64>>', 'odd', 'wrap<user<std::uint32_t>>', 'wrap<hh::xxhash_32>', 'wrap<hh::hmac_sha1_160>', 'hh::hmac<odd>', 'hh::hmac<user<std::array<unsigned char,13>>>', 'wrap<hh::hmac<user<hh::digest<8>>>>', 'sp::rec']
@check('C20')
def c20(c):
    algs = [('hh::' + a, b) for a, b in ALG_BLOCK.items()] + [(a, 16) for a in USER_ALGS]
    jobs = [dict(src='c20.cpp', flags=['-DALGO=' + a, '-DBLOCK=%d' % b], cxx='clang++', opt='-O0', std=['c++17', 'c++14', 'c++20', 'c++11'][i % 4], name='a%d' % i) for i, (a, b) in enumerate(algs)]
    if c.thorough: jobs += [dict(src='c20.cpp', flags=['-DALGO=' + a, '-DBLOCK=%d' % b], cxx='g++', opt='-O2', std=['c++17', 'c++14', 'c++20'][(i + 1) % 3], name='g%d' % i) for i, (a, b) in enumerate(algs)]
    exes = c.compile_many(jobs)
    c.run_all([(j['flags'][0][7:], e) for j, e in zip(jobs, exes)])
    return c.finish('one state per (algorithm, algorithm state, type, value, flavor): 26 provided algorithms, user-written ones with only the documented interface, wrappers and HMAC over user-written ones, in ten states; two results after append must equal two results after updating with the modelled message')

@check('C14')
def c14(c):
    jobs = [dict(src='c14.cpp', cxx='clang++', opt='-O2', std='c++17', name='a'),
            dict(src='c14.cpp', cxx='g++', opt='-O1', std='c++14', flags=['-fsanitize=undefined', '-fno-sanitize-recover=all'], name='u')]
    exes = c.compile_many(jobs)
    c.run_all([('clang', exes[0])]); c.run_all([('ubsan', exes[1])], only=None if c.thorough else '^(same8|same16|narrow16_8|widen8|widen16|digest8|digest9|digest64|array8|constexpr|same64|noexcepts|narrow64_8)')
    return c.finish('one state per result value: all values of 8-, 16- and 32-bit results for every target width (preimage counts, injectivity, spread, identity); 64-bit results over all one- to three-bit and 16-bit-window patterns on four backgrounds, with the form of the narrowing identified and confirmed on all of them; array-like results over byte families; compile-time tables; the same under the undefined-behaviour monitor')

@check('C15')
def c15(c):
    rng = [(1, 8), (9, 16), (17, 20), (21, 24), (25, 28), (29, 32), (33, 36), (37, 40), (41, 44), (45, 48), (49, 51), (52, 54), (55, 57), (58, 60), (61, 62), (63, 64), (65, 66), (127, 127), (128, 128), (129, 129), (256, 256)]
    if c.thorough: rng += [(67, 70), (71, 74), (75, 78), (79, 82), (95, 97), (191, 193), (255, 255), (257, 257)]
    jobs = [dict(src='c15.cpp', flags=['-DLO=%d' % a, '-DHI=%d' % b], cxx='clang++' if i % 2 else 'g++', opt='-O1', std=['c++11', 'c++14', 'c++17', 'c++20'][i % 4], name='s%d' % a) for i, (a, b) in enumerate(rng)]
    jobs += [dict(src='c15.cpp', flags=['-DEXTRA'], cxx=x, opt='-O1', std=s, name='x' + x[:3] + s[-2:]) for x, s in [('g++', 'c++14'), ('clang++', 'c++14'), ('g++', 'c++20'), ('clang++', 'c++20')]]
    exes = c.compile_many(jobs)
    c.run_all([('%s %s %s' % (j['cxx'], j['std'], j['name']), e) for j, e in zip(jobs, exes)])
    return c.finish('one state per digest value, pair of values or buffer size: sizes 1..66 and larger, every byte value at every position as text, every buffer size from 0 to 2N+20 with guard zones, pairs differing in one byte (all 255 ways, every position), two bytes (alike, oppositely, exchanged), stream format states, all 1-byte pairs, 2-byte texts, and the same operations inside constant expressions')

MODELS = {'fnv1a_32': 'fnv<std::uint32_t>', 'fnv1a_64': 'fnv<std::uint64_t>', 'xxhash_32': 'xx32', 'xxhash_64': 'xx64', 'siphash_32': 'sip<std::uint32_t>', 'siphash_64': 'sip<std::uint64_t>', 'md5_128': 'md5', 'sha1_160': 'sha1', 'sha2_256': 'sha256', 'sha2_224': 'sha224', 'sha2_512': 'sha512', 'sha2_384': 'sha384', 'sha2_512_224': 'sha512_224', 'sha2_512_256': 'sha512_256', 'ripemd_160': 'rmd160', 'ripemd_128': 'rmd128'}
MODELS.update({'hmac_' + k: 'hmac<ref::%s>' % v for k, v in list(MODELS.items()) if ALG_BLOCK[k] >= 64})
CXLIM = {'g++': ['-fconstexpr-ops-limit=40000000000', '-fconstexpr-loop-limit=100000000', '-fconstexpr-depth=20000'], 'clang++': ['-fconstexpr-steps=2000000000', '-fconstexpr-depth=20000']}
@check('C06')
def c06(c):
    jobs = []
    stds = ['c++14', 'c++17', 'c++20'] + (['c++23'] if c.thorough else [])
    for x in ('g++', 'clang++'):
        for s in stds: jobs.append(dict(src='c06b.cpp', cxx=x, std=s, opt='-O0', flags=CXLIM[x], name='values_%s_%s' % (x[:3], s[3:])))
    for i, a in enumerate(sorted(ALG_BLOCK, key=lambda a: -ALG_BLOCK[a] - 1000 * a.startswith('hmac'))):
        for k, x in enumerate(('g++', 'clang++')):
            fl = CXLIM[x] + ['-DALGO=hh::' + a, '-DMODEL=ref::' + MODELS[a], '-DBLOCK=%d' % ALG_BLOCK[a], '-DNAME="%s"' % a]
            if c.thorough: jobs += [dict(src='c06a.cpp', cxx=x, std=s, opt='-O1', flags=fl + ['-DFULL'], name='%s_%s_%s' % (a, x[:3], s[3:])) for s in ('c++14', 'c++20')]
            else: jobs.append(dict(src='c06a.cpp', cxx=x, std=('c++14', 'c++17', 'c++20')[(i + 2 * k) % 3], opt='-O1', flags=fl, name='%s_%s' % (a, x[:3])))
    n = len(jobs)
    for x, s in (('g++', 'c++14'), ('clang++', 'c++20')):
        jobs.append(dict(src='c15.cpp', cxx=x, std=s, opt='-O0', flags=['-DEXTRA'] + CXLIM[x], name='digest_' + x[:3])); jobs.append(dict(src='c14.cpp', cxx=x, std=s, opt='-O0', flags=CXLIM[x], name='integral_' + x[:3]))
    exes = c.compile_many(jobs); l = [(j['name'], e) for j, e in zip(jobs, exes)]
    c.run_all(l[:n]); c.run_all(l[n:], only='constexpr')
    c.assumptions.append('g++ 13 and clang 18 reject operations that are not constant expressions')
    return c.finish('states are enumerated operation sequences (algorithm, construction, message length, split, copies; or value, flavor, algorithm) executed by the constant evaluators of two compilers under each standard; every resulting constant is compared with the same sequence at run time and with the model')

@check('C16')
def c16(c):
    exe = c.compile('c16.cpp', opt='-O2', name='a')
    c.run_all([('', exe)])
    return c.finish('one state per history (construction, key length, message lengths, splits, results); for each, every input byte is varied and every byte of the real object is watched: an offset following the byte by xor, addition or subtraction under all 256 values is a leak')

@check('C17')
def c17(c):
    AU = ['-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-D_GLIBCXX_ASSERTIONS']
    MS = ['-g1', '-fsanitize=memory', '-fno-sanitize-recover=all', '-fsanitize-memory-track-origins', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
    jobs = []
    def add(src, cxx, std, fl, label, extra=(), only=None, opt='-O1'): jobs.append((dict(src=src, cxx=cxx, std=std, opt=opt, flags=fl + list(extra), name='j%d' % len(jobs)), label, only))
    for i in (1, 2):
        add('c17b.cpp', 'clang++', 'c++20', AU, 'asan ranges', ['-DEDGES=%d' % i]); add('c17b.cpp', 'clang++', 'c++17', MS, 'msan ranges', ['-DEDGES=%d' % i])
    for k, v in enumerate(VSELS):
        add('c17b.cpp', 'g++' if k == 3 or c.thorough else 'clang++', ['c++14', 'c++17', 'c++20', 'c++17'][k], AU, 'asan ' + v, ['-DVSEL=' + v])
        if v != 'VTYPES_C': add('c17b.cpp', 'clang++', 'c++17', MS, 'msan ' + v, ['-DVSEL=' + v], None if v != 'VTYPES_A' else '^(?!ls_int|l_d_v)')
        if v == 'VTYPES_D': jobs[-1] = (jobs[-1][0], jobs[-1][1], '^(?!m_hook|l_d3|fb|p_fb|uno|v_uno)')
    add('c17b.cpp', 'g++', 'c++17', AU, 'asan objects'); add('c17b.cpp', 'clang++', 'c++17', MS, 'msan objects')
    add('c17.cpp', 'g++', 'c++17', AU, 'g++ asan'); add('c17.cpp', 'clang++', 'c++14', AU, 'clang asan'); add('c17.cpp', 'clang++', 'c++17', MS, 'msan')
    U = '^(same8|same16|narrow16_8|widen8|widen16|digest8|digest9|digest64|array8)'
    add('c14.cpp', 'clang++', 'c++17', AU, 'integral', [], U)
    for a, b, x in ((1, 4, 'g++'), (15, 17, 'clang++'), (20, 20, 'g++'), (31, 33, 'clang++'), (63, 65, 'clang++')): add('c15.cpp', x, 'c++17', AU, 'digest %d..%d' % (a, b), ['-DLO=%d' % a, '-DHI=%d' % b])
    add('c15.cpp', 'clang++', 'c++20', AU, 'digest', ['-DEXTRA'])
    if c.thorough:
        for o in ('-O0', '-O3'): add('c17.cpp', 'g++', 'c++11', AU, 'g++ asan ' + o, opt=o); add('c17.cpp', 'clang++', 'c++20', MS, 'msan ' + o, opt=o)
    exes = c.compile_many([j[0] for j in jobs])
    for (j, l, only), e in zip(jobs, exes):
        if only: c.run_all([(l, e)], only=only)
    c.run_all([(l, e) for (j, l, only), e in zip(jobs, exes) if not only])
    c.assumptions.append('address, memory and undefined-behaviour monitors of gcc 13 and clang 18, page protection and container checks decide what is an error; assertions are enabled')
    return c.finish('states are operation histories executed under the monitors: every fill level x every piece length, every alignment 0..31 and page boundary, every seed length, histories over a piece alphabet to a depth, null pointers at every fill level; every value of bounded universes appended under six flavors; every range length next to inaccessible pages; every digest and buffer size')

C18_SCRIPTS = [('c18ops.cpp', [], 'ops'), ('c18sweep.cpp', ['-DPART=0'], 'alg'), ('c18sweep.cpp', ['-DPART=1'], 'conv')] + [('c18sweep.cpp', ['-DVSEL=' + v], v) for v in VSELS]
@check('C18')
def c18(c):
    jobs = [dict(src='c18.cpp', cxx='clang++', opt='-O1', std='c++17', name='ops')]
    for i, (o, s) in enumerate([('-O1', 'c++17')] + ([('-O0', 'c++14'), ('-O2', 'c++20')] if c.thorough else [])):
        jobs += [dict(src=f, cxx='clang++', opt=o, std=s, flags=['-fsanitize=thread'] + g, compile_only=True, name='%s%d.o' % (n, i)) for f, g, n in C18_SCRIPTS]
    exes = c.compile_many(jobs); l = [('objects', exes[0])]; k = len(C18_SCRIPTS)
    for i in range(len(exes) // k):
        objs = exes[1 + i * k:1 + i * k + k]
        if None not in objs: l.append(('threads %s %s' % (jobs[i * k + 1]['opt'], jobs[i * k + 1]['std']), c.compile('c18rt.cpp', cxx='clang++', flags=objs + ['-rdynamic'], name='rt%d' % i)))
    c.run_all(l)
    c.assumptions.append('sequentially consistent memory for schedules that switch at conflicting accesses; unsynchronized conflicting accesses are reported as races')
    return c.finish('one state per history or schedule: all histories of update/result/assign/copy/move over two and three objects to a depth, all interleavings of six-step scripts for all 676 pairs of algorithms, of three-step scripts for triples, operations nested inside update, hooks and iterators; and for threads all pairs and triples of scripts at memory-access granularity: every thread order, and, where accesses of two threads conflict, every schedule within the preemption bound, each in a fresh process')

BARE = ['-DBARE', '-DNDEBUG', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-fno-pic', '-fno-stack-protector', '-nostdlib', '-static', '-D__regparm__(x)=', '-I' + H + '/compat', '-I/usr/include/x86_64-linux-gnu', '-I/usr/include/c++/13', '-I/usr/include/x86_64-linux-gnu/c++/13']
MIPS = BARE + ['-mno-abicalls', '-mno-gpopt', '-G0', '-msoft-float', '-fuse-ld=lld', '-Wl,--image-base=0x10000']
def foreign(c, **kw):
    """Compiles for another machine with this one's headers; a failure there says nothing about the library."""
    n, m = len(c.viol), len(c.errors); r = c.compile(**kw)
    if r is None:
        c.extra.setdefault('configurations_not_built', []).append(kw['name'] + ': ' + str((c.viol[n:] + c.errors[m:])[:1])[:300]); del c.viol[n:]; del c.errors[m:]
    return r
@check('C19')
def c19(c):
    import concurrent.futures as cf
    NB = ['-include', os.path.join(H, 'nobuiltin.hpp')]; jobs = []
    def add(name, cxx, std, opt, fl=(), kind=''): jobs.append((dict(src='c19.cpp', cxx=cxx, std=std, opt=opt, flags=list(fl), name='j%d_%s' % (len(jobs), name)), kind))
    add('model', 'g++', 'c++20', '-O1', ['-DMODEL', '-DCX'], 'model')
    CXG = ['-DCX'] + CXLIM['g++']; CXC = ['-DCX'] + CXLIM['clang++']
    if c.thorough:
        for x in ('g++', 'clang++'):
            for s in ('c++11', 'c++14', 'c++17', 'c++20', 'c++23', 'c++2c' if x == 'clang++' else 'c++2b'):
                for o in ('-O0', '-O1', '-O2', '-O3', '-Os'):
                    for d in ([], ['-DNDEBUG']): add('h', x, s, o, d + (CXC if x == 'clang++' else CXG if o == '-O1' else []))
            for s in ('c++11', 'c++14', 'c++17', 'c++20'): add('nobuiltin', x, s, '-O2', NB); add('gnu', x, s.replace('c++', 'gnu++'), '-O2'); add('uchar', x, s, '-O2', ['-funsigned-char'])
        for o in ('-O0', '-O1', '-O2', '-O3', '-Os'):
            for s in ('c++11', 'c++17', 'c++20'):
                for x in ('g++', 'clang++'): add('m32', x, s, o, BARE + ['-m32'], 'm32'); add('m32sse', x, s, o, BARE + ['-m32', '-msse2', '-mfpmath=sse'], 'm32')
                for t in ('mips-linux-gnu', 'mips64-linux-gnuabi64', 'mipsel-linux-gnu', 'mips64el-linux-gnuabi64'):
                    add(t, 'clang++', s, o, ['--target=' + t] + MIPS + (CXC if o == '-O1' else []), 'mips'); 
                    if o == '-O1': add(t + '_nobuiltin', 'clang++', s, o, ['--target=' + t] + MIPS + NB, 'mips')
    else:
        add('mips64be', 'clang++', 'c++17', '-O1', ['--target=mips64-linux-gnuabi64'] + MIPS + CXC, 'mips'); add('mips32be', 'clang++', 'c++14', '-O2', ['--target=mips-linux-gnu'] + MIPS, 'mips')
        add('mips64be_nobuiltin', 'clang++', 'c++20', '-O1', ['--target=mips64-linux-gnuabi64'] + MIPS + NB, 'mips'); add('mips32le', 'clang++', 'c++20', '-O1', ['--target=mipsel-linux-gnu'] + MIPS, 'mips'); add('mips32be_11', 'clang++', 'c++11', '-O0', ['--target=mips-linux-gnu'] + MIPS, 'mips')
        add('m32', 'g++', 'c++17', '-O2', BARE + ['-m32'], 'm32'); add('m32', 'clang++', 'c++20', '-O3', BARE + ['-m32'], 'm32'); add('m32sse', 'g++', 'c++11', '-O1', BARE + ['-m32', '-msse2', '-mfpmath=sse'], 'm32'); add('m32', 'clang++', 'c++14', '-O0', BARE + ['-m32'], 'm32')
        add('g', 'g++', 'c++11', '-O0'); add('g', 'g++', 'c++14', '-O2', CXG); add('g', 'g++', 'c++17', '-O3', ['-DNDEBUG']); add('g', 'g++', 'c++20', '-Os'); add('g', 'g++', 'c++23', '-O1', ['-funsigned-char']); add('g_nobuiltin', 'g++', 'c++17', '-O2', NB); add('g', 'g++', 'c++11', '-O3', ['-DNDEBUG'])
        add('c', 'clang++', 'c++11', '-O2'); add('c', 'clang++', 'c++14', '-O0', ['-DNDEBUG']); add('c', 'clang++', 'c++17', '-O3'); add('c', 'clang++', 'c++20', '-O1', CXC); add('c', 'clang++', 'c++2c', '-O2', ['-DNDEBUG']); add('c_nobuiltin', 'clang++', 'c++14', '-O1', NB)
    emu = c.compile('mips.cpp', opt='-O2', name='mips')
    def go(j):
        kw, kind = j; exe = foreign(c, **kw) if kind in ('mips', 'm32') else c.compile(**kw)
        if exe is None: return None
        p = subprocess.run([emu, exe] if kind == 'mips' else [exe], capture_output=True, text=True, errors='replace', timeout=800); return p
    with cf.ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(go, jobs))
    def table(p): return dict(l.split(': ', 1) for l in p.stdout.splitlines() if ': ' in l)
    if res[0] is None or res[0].returncode: c.errors.append('the model did not run'); return c.finish('')
    exp = table(res[0]); conf = []; bad = [l for l in exp if exp[l] in ('different', 'no')]
    for l in bad: c.viol.append(('native', '%s: %s in the default configuration' % (l, exp[l])))
    for (kw, kind), p in list(zip(jobs, res))[1:]:
        if p is None: continue
        lab = '%s %s %s %s' % (kw['cxx'], kw['std'], kw['opt'], ' '.join(f for f in kw['flags'] if f.startswith(('-m', '--target', '-DN', '-fun', '-DCX'))) + (' nobuiltin' if 'nobuiltin' in kw['name'] else ''))
        if p.returncode or not p.stdout.endswith('END\n'):
            if kind == 'mips' and p.returncode in (9, 8, 7, 99) and ('break' in p.stderr or 'trap' in p.stderr or 'instructions' in p.stderr) and 'bad address' not in p.stderr: c.extra.setdefault('configurations_not_executed', []).append(lab + ': ' + p.stderr[-200:]); continue
            c.viol.append(('died', '[%s] ended with status %d: %s' % (lab, p.returncode, p.stderr[-300:]))); continue
        t = table(p); conf.append(lab); n = 0; c.units += 1; c.states += len(t); c.trans += len(t); c.traces += len(t)
        for k, v in t.items():
            if k in exp and exp[k] != v or k not in exp or v in ('different', 'no'):
                n += 1
                if n <= 2: c.viol.append(('differs', '[%s] %s is %s, want %s' % (lab, k, v[:160], exp.get(k, '?')[:160])))
        if len(t) < 7000: c.viol.append(('short', '[%s] only %d cases' % (lab, len(t))))
    for k in list(exp)[5::700][:8]: c.samples.append('%s = %s in all %d configurations' % (k, exp[k][:80], len(conf)))
    c.extra['configurations'] = [' | '.join(conf)]
    c.assumptions.append('big-endian and MIPS code is executed by an interpreter of the MIPS instruction set (harness/mips.cpp), validated by the little-endian programs giving the native results; signaling NaNs are not compared on x87')
    return c.finish('one state per (configuration, case): every message length to two blocks, seeds and keys of 26 algorithms; values of scalar, range, tuple and user types under four explicit flavors and native against explicit; conversions and text; each executed in every configuration and compared with the model', configurations=len(conf))


@check('C21')
def c21(c):
    import hashlib
    jobs = [dict(src='c21.cpp', cxx='g++', std='c++17', opt='-O2', name='n64')]
    if c.thorough: jobs += [dict(src='c21.cpp', cxx='clang++', std='c++20', opt='-O3', flags=['-DNDEBUG'], name='c64')]
    quick32 = ['fnv1a_32', 'fnv1a_64', 'xxhash_32', 'xxhash_64', 'siphash_32', 'siphash_64', 'md5_128', 'sha1_160', 'sha2_256', 'sha2_512', 'ripemd_160', 'ripemd_128']
    model = {'fnv1a_32': 'ref::fnv<std::uint32_t>', 'fnv1a_64': 'ref::fnv<std::uint64_t>', 'xxhash_32': 'ref::xx32', 'xxhash_64': 'ref::xx64', 'siphash_32': 'ref::sip<std::uint32_t>', 'siphash_64': 'ref::sip<std::uint64_t>', 'md5_128': 'ref::md5', 'sha1_160': 'ref::sha1',
             'sha2_256': 'ref::sha256', 'sha2_224': 'ref::sha224', 'sha2_512': 'ref::sha512', 'sha2_384': 'ref::sha384', 'sha2_512_224': 'ref::sha512_224', 'sha2_512_256': 'ref::sha512_256', 'ripemd_160': 'ref::rmd160', 'ripemd_128': 'ref::rmd128'}
    names = list(model) if c.thorough else quick32
    if c.thorough:
        for a in ('md5_128', 'sha1_160', 'sha2_256', 'sha2_512', 'ripemd_160'): model['hmac_' + a] = 'ref::hmac<%s>' % model[a]; names.append('hmac_' + a)
    n64 = len(jobs)
    for a in names: jobs.append(dict(src='c21.cpp', cxx='g++', std='c++17', opt='-O2', flags=BARE + ['-m32', '-DSEL(X)=X(%s,hh::%s,%s,0)' % (a, a, model[a])], name='m32_' + a))
    with ThreadPoolExecutor(JOBS) as ex:
        exes = list(ex.map(lambda kw: (foreign if kw['name'].startswith('m32') else Check.compile)(c, **kw), jobs))
    work = []
    for kw, e in zip(jobs[:n64], exes[:n64]):
        if e is None: continue
        us = subprocess.run([e, '--list'], capture_output=True, text=True).stdout.split()
        work += [(kw['name'] + ':' + u, e, u) for u in us]
    work += [('32-bit:' + kw['name'][4:], e, None) for kw, e in zip(jobs[n64:], exes[n64:]) if e]
    def cost(w): n = w[0]; return 30 if '32-bit:sha2_512' in n or '32-bit:sha2_384' in n else 20 if n.startswith('32-bit') else 14 if re.search('sha2|ripemd|value_', n) else 7 if re.search('fnv|md5|sha1', n) else 1
    work.sort(key=cost, reverse=True)
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(lambda w: c.run_unit(w[1], w[2], cpu=1500), work))
    for w, p in zip(work, res):
        if p.returncode == 77: c.errors.append('%s: %s' % (w[0], p.stdout[-200:])); continue
        c.absorb(p, w[0])
    dig = c.extra.pop('digest', [])
    if c.thorough: # the model's states against hashlib, and recomputed
        two = bytearray(257 * 4096)
        for j in range(len(two)): two[j] = ((j * j * 131 + j * 17 + (j >> 8) * 29 + 90) & 0xFFFFFFFF) >> 2 & 0xFF
        two = bytes(two); H = {'md5_128': 'md5', 'sha1_160': 'sha1', 'sha2_256': 'sha256', 'sha2_224': 'sha224', 'sha2_512': 'sha512', 'sha2_384': 'sha384', 'sha2_512_224': 'sha512_224', 'sha2_512_256': 'sha512_256', 'ripemd_160': 'ripemd160'}
        want = {}
        for d in dig: _, n, l, x = d.split(); want.setdefault(n, {})[int(l)] = x
        def ref(n):
            try: h = hashlib.new(H[n])
            except Exception: return n + ': not in hashlib'
            at = 0
            for l in sorted(want[n]):
                while at < l: k = min(len(two) - at % len(two), l - at); h.update(two[at % len(two):][:k] if k < len(two) else two); at += k
                if h.copy().hexdigest() != want[n][l]: c.errors.append('the model of %s is wrong at length %d' % (n, l))
            return n + ': %d lengths equal hashlib' % len(want[n])
        with ThreadPoolExecutor(JOBS) as ex: c.extra['models_of_long_messages'] = list(ex.map(ref, [n for n in want if n in H]))
    return c.finish('one state per (algorithm, boundary, continuation): real messages of 2^29, 2^31, 2^32, 2^32+2^29 bytes less 256, in many calls and in one call longer than 4 GiB, on 64-bit and (many calls) 32-bit code; from each, all continuations of 0..512 bytes in one and two calls and byte by byte; then every power of two to 2^60 by setting the located counter; keys, ranges and views of more than 2^32 bytes or elements')

LEGACY = {'murmur3_32': ('ref::murmur32', 4), 'murmur3_128': ('ref::murmur128', 16), 'spooky2_128': ('ref::spooky', 192)}
@check('C22')
def c22(c):
    L = ['-DLEGACY']; AU = ['-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']; MS = ['-g1', '-fsanitize=memory', '-fno-sanitize-recover=all', '-fsanitize-memory-track-origins']
    jobs = [(dict(src='%s.cpp' % s, flags=L, cxx=x, std=d, opt='-O2', name=s), s, None) for s, x, d in (('c01', 'g++', 'c++17'), ('c02', 'clang++', 'c++14'), ('c03', 'g++', 'c++20'), ('c04', 'clang++', 'c++17'), ('c16', 'g++', 'c++17'), ('c22', 'g++', 'c++17'), ('c18', 'clang++', 'c++17'))]
    jobs[-1] = (jobs[-1][0], 'c18', '_copy|pairs|triples|_nest')
    jobs += [(dict(src='c17.cpp', flags=L + f, cxx=x, std=d, opt='-O1', name='san%d' % i), 'c17 ' + n, None) for i, (f, x, d, n) in enumerate(((AU, 'g++', 'c++11', 'g++ asan'), (AU, 'clang++', 'c++17', 'clang asan'), (MS, 'clang++', 'c++20', 'msan')))]
    for i, (a, (m, b)) in enumerate(LEGACY.items()):
        jobs.append((dict(src='c20.cpp', flags=L + ['-DALGO=hh::' + a, '-DBLOCK=%d' % b], cxx='clang++', opt='-O0', std=('c++14', 'c++17', 'c++20')[i], name='append_' + a), 'append to ' + a, None))
    n = len(jobs)
    for a, (m, b) in LEGACY.items(): jobs.append((dict(src='c22l.cpp', flags=BARE + ['-m32', '-DSEL(X)=X(%s,hh::%s,%s,%d)' % (a, a, m, b)], cxx='clang++', opt='-O3', name='m32_' + a), '32-bit ' + a, None))
    with ThreadPoolExecutor(JOBS) as ex: exes = list(ex.map(lambda j: foreign(c, **j[0]) if j[0]['name'].startswith('m32') else c.compile(**j[0]), jobs))
    # the same digests on other machines
    T = L + ['-DPART=1']; emu = c.compile('mips.cpp', opt='-O2', name='mips'); conf = [(dict(src='c19.cpp', flags=T + ['-DMODEL'], opt='-O1', name='tab_model'), [])]
    for k, (x, s, o, f, w) in enumerate((('clang++', 'c++17', '-O2', ['--target=mips64-linux-gnuabi64'] + MIPS, [emu]), ('clang++', 'c++11', '-O1', ['--target=mips-linux-gnu'] + MIPS, [emu]), ('g++', 'c++14', '-O2', BARE + ['-m32'], []), ('clang++', 'c++20', '-O0', BARE + ['-m32'], []), ('g++', 'c++20', '-O3', [], []))): conf.append((dict(src='c19.cpp', cxx=x, std=s, opt=o, flags=T + f, name='tab%d' % k), w))
    with ThreadPoolExecutor(JOBS) as ex: tabs = list(ex.map(lambda j: foreign(c, **j[0]) if j[1] or '-DBARE' in j[0]['flags'] else c.compile(**j[0]), conf))
    outs = [None if e is None else subprocess.run(w + [e], capture_output=True, text=True, errors='replace', timeout=300) for (j, w), e in zip(conf, tabs)]
    if outs[0] is None or outs[0].returncode: c.errors.append('the model table did not run')
    else:
        exp = outs[0].stdout.splitlines()
        for (j, w), p in list(zip(conf, outs))[1:]:
            if p is None: continue
            g = p.stdout.splitlines(); c.units += 1; c.states += len(g); c.trans += len(g); c.traces += len(g); lab = '%s %s %s %s' % (j['cxx'], j['std'], j['opt'], ' '.join(f for f in j['flags'] if f.startswith(('--target', '-m'))))
            if w and p.returncode in (9, 8, 7, 99) and ('break' in p.stderr or 'trap' in p.stderr or 'instructions' in p.stderr) and 'bad address' not in p.stderr: c.extra.setdefault('configurations_not_executed', []).append(lab); continue
            if p.returncode or len(g) != len(exp): c.viol.append(('table', '[%s] ended with status %d after %d of %d cases' % (lab, p.returncode, len(g), len(exp))))
            else: c.viol += [('table', '[%s] %s, want %s' % (lab, x, y)) for x, y in zip(g, exp) if x != y][:2]
    with ThreadPoolExecutor(JOBS) as ex:
        long = [(j[1], ex.submit(c.run_unit, e, None)) for j, e in zip(jobs[n:], exes[n:]) if e]
        for (j, l, only), e in zip(jobs[:n], exes[:n]):
            if only: c.run_all([(l, e)], only=only)
        c.run_all([(l, e) for (j, l, only), e in zip(jobs[:n], exes[:n]) if not only])
        for l, f in long: c.absorb(f.result(), l)
    return c.finish('one state per (algorithm, construction, history): the explorations of lengths and byte values, of splits as object states, of seeds, of histories, of residue, of copies and interleavings, of appended values and of memory errors, for murmur3_32, murmur3_128 and spooky2_128; every byte of a byte seed; messages passing 2^32 bytes in one call and, in 32-bit code, in many')

@check('C23')
def c23(c):
    jobs = [dict(src='c23.cpp', cxx='clang++', std='c++14', opt='-O0', name='a'), dict(src='c23.cpp', cxx='g++', std='c++11', opt='-O0', name='b'), dict(src='c23.cpp', cxx='clang++', std='c++17', opt='-O1', name='c')]
    if c.thorough: jobs += [dict(src='c23.cpp', cxx='g++', std='c++17', opt='-O2', name='d')]
    exes = c.compile_many(jobs)
    c.run_all([(j['cxx'] + ' ' + j['std'], e) for j, e in zip(jobs, exes)])
    return c.finish('one state per (value or operation, algorithm, flavor, kind of exception, step that throws): every user operation performed during the call is a numbered step and each in turn throws; the run without a throw ends the enumeration')
