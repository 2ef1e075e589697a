// Iterators and ranges of every category used by the range checks. C++11.
#pragma once
#include <iterator>
#include <cstddef>
#include <memory>

namespace it {

// forward iterator class over an array
template<class T> struct fwd
{
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
    T const* p; fwd( T const* q = nullptr ): p( q ) {}
    reference operator*() const { return *p; } pointer operator->() const { return p; }
    fwd& operator++() { ++p; return *this; } fwd operator++( int ) { fwd r( *this ); ++p; return r; }
    friend bool operator==( fwd a, fwd b ) { return a.p == b.p; } friend bool operator!=( fwd a, fwd b ) { return a.p != b.p; }
};
// bidirectional class
template<class T> struct bidi
{
    typedef std::bidirectional_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
    T const* p; bidi( T const* q = nullptr ): p( q ) {}
    reference operator*() const { return *p; } pointer operator->() const { return p; }
    bidi& operator++() { ++p; return *this; } bidi operator++( int ) { bidi r( *this ); ++p; return r; }
    bidi& operator--() { --p; return *this; } bidi operator--( int ) { bidi r( *this ); --p; return r; }
    friend bool operator==( bidi a, bidi b ) { return a.p == b.p; } friend bool operator!=( bidi a, bidi b ) { return a.p != b.p; }
};
// single-pass input iterator: reading an element consumes it; dereferencing twice or going back is detected as a wrong value
template<class T> struct src { T const* p; T const* e; };
template<class T> struct input
{
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T reference;
    src<T>* s; explicit input( src<T>* q = nullptr ): s( q && q->p != q->e? q: nullptr ) {}
    T operator*() const { return *s->p; }
    input& operator++() { ++s->p; if( s->p == s->e ) s = nullptr; return *this; }
    struct px { T v; T operator*() const { return v; } }; px operator++( int ) { px r = { *s->p }; ++*this; return r; }
    friend bool operator==( input a, input b ) { return a.s == b.s; } friend bool operator!=( input a, input b ) { return a.s != b.s; }
};
// proxy reference, convertible to the value type; random access or forward
template<class T> struct proxy { T const* p; operator T() const { return *p; } };
template<class T, class Cat> struct prox
{
    typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef proxy<T> reference;
    T const* p; prox( T const* q = nullptr ): p( q ) {}
    reference operator*() const { return proxy<T>{ p }; }
    reference operator[]( difference_type n ) const { return proxy<T>{ p + n }; }
    prox& operator++() { ++p; return *this; } prox operator++( int ) { prox r( *this ); ++p; return r; }
    prox& operator--() { --p; return *this; } prox operator--( int ) { prox r( *this ); --p; return r; }
    prox& operator+=( difference_type n ) { p += n; return *this; } prox& operator-=( difference_type n ) { p -= n; return *this; }
    friend prox operator+( prox a, difference_type n ) { return a.p + n; } friend prox operator+( difference_type n, prox a ) { return a.p + n; } friend prox operator-( prox a, difference_type n ) { return a.p - n; } friend difference_type operator-( prox a, prox b ) { return a.p - b.p; }
    friend bool operator==( prox a, prox b ) { return a.p == b.p; } friend bool operator!=( prox a, prox b ) { return a.p != b.p; }
    friend bool operator<( prox a, prox b ) { return a.p < b.p; } friend bool operator>( prox a, prox b ) { return a.p > b.p; } friend bool operator<=( prox a, prox b ) { return a.p <= b.p; } friend bool operator>=( prox a, prox b ) { return a.p >= b.p; }
};
// random access class with a stride: never contiguous
template<class T> struct stride
{
    typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
    T const* p; stride( T const* q = nullptr ): p( q ) {}
    reference operator*() const { return *p; } pointer operator->() const { return p; } reference operator[]( difference_type n ) const { return p[ 2*n ]; }
    stride& operator++() { p += 2; return *this; } stride operator++( int ) { stride r( *this ); p += 2; return r; }
    stride& operator--() { p -= 2; return *this; } stride operator--( int ) { stride r( *this ); p -= 2; return r; }
    stride& operator+=( difference_type n ) { p += 2*n; return *this; } stride& operator-=( difference_type n ) { p -= 2*n; return *this; }
    friend stride operator+( stride a, difference_type n ) { return a.p + 2*n; } friend stride operator+( difference_type n, stride a ) { return a.p + 2*n; } friend stride operator-( stride a, difference_type n ) { return a.p - 2*n; } friend difference_type operator-( stride a, stride b ) { return ( a.p - b.p ) / 2; }
    friend bool operator==( stride a, stride b ) { return a.p == b.p; } friend bool operator!=( stride a, stride b ) { return a.p != b.p; }
    friend bool operator<( stride a, stride b ) { return a.p < b.p; } friend bool operator>( stride a, stride b ) { return a.p > b.p; } friend bool operator<=( stride a, stride b ) { return a.p <= b.p; } friend bool operator>=( stride a, stride b ) { return a.p >= b.p; }
};

// user ranges
template<class T> struct crange // contiguous
{
    T const* p; std::size_t n;
    typedef T value_type; typedef T const* iterator; typedef T const* const_iterator;
    T const* begin() const { return p; } T const* end() const { return p + n; } T const* data() const { return p; } std::size_t size() const { return n; }
};
template<class T> struct frange // forward iterators, no size(), no data()
{
    T const* p; std::size_t n;
    typedef fwd<T> iterator; typedef fwd<T> const_iterator; typedef T value_type;
    iterator begin() const { return fwd<T>( p ); } iterator end() const { return fwd<T>( p + n ); }
};
template<class T> struct srange // random access, strided
{
    T const* p; std::size_t n;
    typedef stride<T> iterator; typedef stride<T> const_iterator; typedef T value_type;
    iterator begin() const { return stride<T>( p ); } iterator end() const { return stride<T>( p + 2*n ); }
};
template<class T> struct brange // bidirectional
{
    T const* p; std::size_t n;
    typedef bidi<T> iterator; typedef bidi<T> const_iterator; typedef T value_type;
    iterator begin() const { return bidi<T>( p ); } iterator end() const { return bidi<T>( p + n ); }
};

// the same with a size that is part of the type
template<class T> struct qrange: crange<T> { T const& front() const { return *this->p; } };
template<class R, std::size_t N> struct sized: R {};
template<class R, std::size_t N> struct tsized: R {};

// an allocator with state and fancy behaviour: leaves guard bytes around each block
template<class T> struct galloc
{
    typedef T value_type; int id;
    galloc( int i = 0 ): id( i ) {} template<class U> galloc( galloc<U> const& r ): id( r.id ) {}
    T* allocate( std::size_t n ) { char* q = (char*)::operator new( n * sizeof(T) + 128 ); return (T*)( q + 64 ); }
    void deallocate( T* p, std::size_t ) { ::operator delete( (char*)p - 64 ); }
    friend bool operator==( galloc const& a, galloc const& b ) { return a.id == b.id; } friend bool operator!=( galloc const& a, galloc const& b ) { return a.id != b.id; }
};

} // namespace it
namespace boost { namespace hash2 { template<class R, std::size_t N> struct has_constant_size< it::sized<R, N> >: std::true_type {}; } } // declared
namespace std { template<class R, std::size_t N> struct tuple_size< it::tsized<R, N> >: std::integral_constant<std::size_t, N> {}; } // by tuple_size
