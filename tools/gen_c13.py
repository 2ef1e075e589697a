"""Generates every described-class shape within bounds: all base lists x all member lists x
all access assignments, in description orders that differ from declaration orders."""
import itertools
KINDS = [  # C++ type, values
 ('unsigned char', ['0', '255']), ('std::uint16_t', ['258', '1']), ('int', ['-2', '0x01020304']), ('bool', ['true', 'false']), ('float', ['-0.0f', '1.5f']), ('double', ['2.5', '0.0']),
 ('std::string', ['""', '"ab"']), ('std::vector<std::uint16_t>', ['{1, 2}', '{}']), ('en', ['en::p', 'en::q']), ('void const*', ['nullptr', '(void const*)&g_obj']), ('inner', ['inner{1, "x"}', 'inner{}']),
 ('std::tuple<unsigned char VC std::string>', ['std::make_tuple((unsigned char)3, std::string("y"))']), ('std::array<std::uint16_t VC 2>', ['{{1, 2}}']), ('std::map<int VC std::string>', ['{{1, "q"}, {2, ""}}', '{}']), ('std::pair<bool VC short>', ['{true, -3}']), ('std::vector<inner>', ['{inner{2, ""}, inner{}}', '{}']), ('std::tuple<>', ['{}']), ('hk', ['hk{5}'])]
PRE = '''#define HARNESS_MAIN
#include "common.hpp"
#include "values.hpp"
#include "algos.hpp"
#define VC ,
static int g_obj;
enum class en: unsigned short { p = 1, q = 0x0203 };
struct inner { short a; std::string b; }; BOOST_DESCRIBE_STRUCT( inner, (), (a, b) )
struct hk { unsigned char v; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, hk const& x ) { hh::hash_append( h, f, x.v ); h.update( "zz", 2 ); } };
struct b0 {}; BOOST_DESCRIBE_STRUCT( b0, (), () )
class b1 { std::uint16_t m; std::string n; BOOST_DESCRIBE_CLASS( b1, (), (), (), (m, n) ) public: b1(): m( 0x1234 ), n( "base" ) {} template<class F, class H> void spec( H& h ) const { sp::num<F>( h, m, 2 ); sp::S<std::string>::app<F>( h, n ); } };
class b2: protected b1 { unsigned char k; BOOST_DESCRIBE_CLASS( b2, (b1), (), (k), () ) public: b2(): k( 9 ) {} template<class F, class H> void spec( H& h ) const { b1::spec<F>( h ); sp::num<F>( h, k, 1 ); } };
struct b3 { virtual ~b3() {} unsigned char m0 = 77; BOOST_DESCRIBE_CLASS( b3, (), (m0), (), () ) template<class F, class H> void spec( H& h ) const { sp::num<F>( h, m0, 1 ); } }; // polymorphic; its member is hidden by the derived class
struct b4: virtual b3 { BOOST_DESCRIBE_CLASS( b4, (b3), (), (), () ) template<class F, class H> void spec( H& h ) const { b3::spec<F>( h ); } };
struct b5 { unsigned char q = 4; template<class H, class F> friend void tag_invoke( hh::hash_append_tag const&, H& h, F const& f, b5 const& x ) { hh::hash_append( h, f, x.q ); } template<class F, class H> void spec( H& h ) const { sp::num<F>( h, q, 1 ); } }; // hook as base
namespace sp { template<> struct S<inner, void> { template<class F, class H> static void app( H& h, inner const& v ) { num<F>( h, (unsigned short)v.a, 2 ); S<std::string>::app<F>( h, v.b ); } }; template<> struct S<hk, void> { template<class F, class H> static void app( H& h, hk const& v ) { num<F>( h, v.v, 1 ); h.update( "zz", 2 ); } }; }
template<class H, class F, class T> static void one( T const& v, char const* tn, char const* fn, int i )
{
    H a( 5 ), b( 5 ); hh::hash_append( a, F(), v ); v.template spec<F>( b ); hz::trans( 2 ); ref::res x = to_res( a.result() ), y = to_res( b.result() );
    if( x.n != y.n || std::memcmp( x.b, y.b, x.n ) ) hz::viol( "shape", "%s value #%d flavor %s: message of the object differs from its bases and members in order", tn, i, fn );
}
template<class T> static void go( T const& v, char const* tn, int i )
{
    hz::states(); hz::traces(); hz::cur( "%s #%d", tn, i );
    one<sp::rec, hh::little_endian_flavor>( v, tn, "little", i ); one<sp::rec, sp::be32>( v, tn, "be32", i ); one<hh::xxhash_64, hh::default_flavor>( v, tn, "default", i );
    { sp::rec a; std::vector<T> w( 2, v ); hh::hash_append( a, sp::le32(), w ); sp::rec b; v.template spec<sp::le32>( b ); v.template spec<sp::le32>( b ); sp::size<sp::le32>( b, 2 ); hz::trans( 2 ); if( a.m != b.m ) hz::viol( "shape", "%s value #%d: vector of two", tn, i ); }
}
'''
BASES = [[], [('b0', 'public')], [('b1', 'private')], [('b2', 'protected')], [('b4', 'public')], [('b5', 'private')], [('b1', 'public'), ('b3', 'protected')], [('b3', 'public'), ('b2', 'private')], [('b4', 'virtual public'), ('b0', 'public'), ('b1', 'protected')]]
def shapes(maxm):
    for bi, b in enumerate(BASES):
        for n in range(maxm + 1):
            for acc in itertools.product((0, 1, 2), repeat=n):
                yield b, acc
def gen(thorough):
    out, rot = [], 0
    for k, (b, acc) in enumerate(shapes(4 if thorough else 3)):
        name = 'c%d' % k; ms = []
        for j, a in enumerate(acc):
            kd = KINDS[(rot * 5 + j * 7) % len(KINDS)]; rot += 1
            ms.append(('m%d' % j, kd, a))
        # declaration order is reversed for every second shape: the description decides
        decl = list(reversed(ms)) if k % 2 else ms
        lists = [[m for m in ms if m[2] == a] for a in range(3)]
        s = 'class %s%s {\npublic:\n' % (name, ': ' + ', '.join(a + ' ' + n for n, a in b) if b else '')
        for m in decl: s += '%s: %s %s{};\n' % (('public', 'protected', 'private')[m[2]], m[1][0], m[0])
        s += 'public: static std::vector<%s> all() { std::vector<%s> r; %s x;\n' % (name, name, name)
        nv = max([len(m[1][1]) for m in ms] or [1])
        for v in range(nv):
            for i, m in enumerate(ms):
                vals = m[1][1]; s += '{ %s t = %s; x.%s = t; }' % (m[1][0].replace('unsigned char', 'unsigned char'), vals[(v + i) % len(vals)], m[0])
            s += ' r.push_back( x );\n'
        s += 'return r; }\n template<class F, class H> void spec( H& h ) const {'
        for n, a in b: s += ' %s' % ('sp::zero( h );' if n == 'b0' else 'this->%s::template spec<F>( h );' % n)
        for l in lists:
            for m in l: s += ' sp::S<%s>::template app<F>( h, this->%s );' % (m[1][0], m[0])
        if not b and not ms: s += ' sp::zero( h );'
        s += ' }\nBOOST_DESCRIBE_CLASS( %s, (%s), (%s), (%s), (%s) )\n};\n' % (name, ', '.join(n for n, a in b), *[', '.join(m[0] for m in l) for l in lists])
        s += 'static void t_%s() { std::vector<%s> a = %s::all(); for( std::size_t i = 0; i < a.size(); ++i ) go( a[i], "shape %d: bases (%s) members (%s)", (int)i ); }\n' % (name, name, name, k, ' '.join(a + ' ' + n for n, a in b), '; '.join('%s %s %s' % (('public', 'protected', 'private')[m[2]], m[1][0].replace(' VC', ','), m[0]) for m in ms))
        out.append((name, s))
    return out
def write(d, nfiles, thorough):
    sh = gen(thorough); fs = []
    for i in range(nfiles):
        part = sh[i::nfiles]; f = '%s/shapes%d.cpp' % (d, i)
        open(f, 'w').write(PRE + ''.join(s for _, s in part) + 'UNIT( shapes ) {' + ' '.join('t_%s();' % n for n, _ in part) + ' hz::sample( "%d class shapes" ); }\n' % len(part))
        fs.append(f)
    return fs
if __name__ == '__main__':
    import sys; print(len(gen(False)), len(gen(True))); write(sys.argv[1], 12, False)
