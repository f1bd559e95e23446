// User-defined digit types and containers, set up as in the compression example.
#include <initializer_list>
#include <stdexcept>
#include <algorithm>
#include "vp.h"

#define DIGIT(name, type, base) \
    BN_DECLARE_CLASS(BNIntType, name, type, base); \
    BN_DEFINE_CLASS(BNIntType, type, base); \
    template <> constexpr bn_u64_t bn_min_limit<name>() { return 0; } \
    template <> constexpr bn_u64_t bn_max_limit<name>() { return base - 1; }
#define LIMITS(name, digit) \
    BN_DECLARE_STRUCT(BNLimitsType, name, digit, digit); \
    BN_DEFINE_STRUCT(BNLimitsType, digit, digit);
#define NUMBER(name, limits, cont) \
    BN_DECLARE_CLASS(Bignum, name, limits, cont); \
    BN_DEFINE_CLASS(Bignum, limits, cont);

// a container of fixed capacity with the interface of a vector
template <class T, size_t N> class Fixed {
    T d[N];
    size_t n;
    void room(size_t k) const { if (k > N) throw std::length_error("Fixed"); }
  public:
    typedef T value_type;
    typedef size_t size_type;
    typedef ptrdiff_t difference_type;
    typedef T& reference;
    typedef const T& const_reference;
    typedef T* iterator;
    typedef const T* const_iterator;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef std::reverse_iterator<iterator> reverse_iterator;
    typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
    Fixed() : n(0) {}
    explicit Fixed(size_t k) : n(0) { resize(k); }
    Fixed(size_t k, const T& t) : n(0) { assign(k, t); }
    template <class It, class = typename std::iterator_traits<It>::iterator_category>
    Fixed(It a, It b) : n(0) { for (; a != b; ++a) push_back(*a); }
    Fixed& operator=(std::initializer_list<T> l) { assign(l.begin(), l.end()); return *this; }
    Fixed(std::initializer_list<T> l) : n(0) { for (const T& t : l) push_back(t); }
    Fixed(const Fixed& o) : n(o.n) { for (size_t i = 0; i < n; ++i) d[i] = o.d[i]; }
    Fixed& operator=(const Fixed& o) { n = o.n; for (size_t i = 0; i < n; ++i) d[i] = o.d[i]; return *this; }
    Fixed(Fixed&& o) : n(o.n) { for (size_t i = 0; i < n; ++i) d[i] = o.d[i]; o.n = 0; }
    Fixed& operator=(Fixed&& o) {
        if (&o != this) { n = o.n; for (size_t i = 0; i < n; ++i) d[i] = o.d[i]; o.n = 0; }
        return *this;
    }
    size_t size() const { return n; }
    size_t max_size() const { return N; }
    size_t capacity() const { return N; }
    bool empty() const { return !n; }
    void reserve(size_t k) { room(k); }
    void shrink_to_fit() {}
    void resize(size_t k, const T& t = T()) { room(k); for (size_t i = n; i < k; ++i) d[i] = t; n = k; }
    void clear() { n = 0; }
    void push_back(const T& t) { room(n + 1); d[n++] = t; }
    void pop_back() { --n; }
    T& operator[](size_t i) { return d[i]; }
    const T& operator[](size_t i) const { return d[i]; }
    T& at(size_t i) { if (i >= n) throw std::out_of_range("Fixed"); return d[i]; }
    const T& at(size_t i) const { if (i >= n) throw std::out_of_range("Fixed"); return d[i]; }
    T& front() { return d[0]; }
    const T& front() const { return d[0]; }
    T& back() { return d[n - 1]; }
    const T& back() const { return d[n - 1]; }
    T* data() { return d; }
    const T* data() const { return d; }
    iterator begin() { return d; }
    iterator end() { return d + n; }
    const_iterator begin() const { return d; }
    const_iterator end() const { return d + n; }
    const_iterator cbegin() const { return d; }
    const_iterator cend() const { return d + n; }
    iterator insert(const_iterator p, const T& t) {
        size_t k = p - d;
        T v = t;
        room(n + 1);
        for (size_t i = n; i > k; --i) d[i] = d[i - 1];
        d[k] = v;
        ++n;
        return d + k;
    }
    iterator erase(const_iterator p) {
        size_t k = p - d;
        for (size_t i = k; i + 1 < n; ++i) d[i] = d[i + 1];
        --n;
        return d + k;
    }
    iterator erase(const_iterator p, const_iterator q) {
        size_t k = p - d, m = q - p;
        for (size_t i = k; i + m < n; ++i) d[i] = d[i + m];
        n -= m;
        return d + k;
    }
    reverse_iterator rbegin() { return reverse_iterator(end()); }
    reverse_iterator rend() { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
    const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    const_reverse_iterator crbegin() const { return rbegin(); }
    const_reverse_iterator crend() const { return rend(); }
    template <class... A> void emplace_back(A&&... a) { push_back(T(std::forward<A>(a)...)); }
    template <class... A> iterator emplace(const_iterator p, A&&... a) { return insert(p, T(std::forward<A>(a)...)); }
    iterator insert(const_iterator p, size_t m, const T& t) {
        size_t k = p - d;
        T v = t;
        room(n + m);
        for (size_t i = n; i > k; --i) d[i - 1 + m] = d[i - 1];
        for (size_t i = 0; i < m; ++i) d[k + i] = v;
        n += m;
        return d + k;
    }
    template <class It, class = typename std::iterator_traits<It>::iterator_category>
    iterator insert(const_iterator p, It a, It b) {
        size_t k = p - d;
        for (size_t i = k; a != b; ++a, ++i) insert(d + i, *a);
        return d + k;
    }
    iterator insert(const_iterator p, std::initializer_list<T> l) { return insert(p, l.begin(), l.end()); }
    template <class It, class = typename std::iterator_traits<It>::iterator_category>
    void assign(It a, It b) { Fixed f(a, b); *this = f; }
    void assign(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
    void assign(size_t k, const T& t) { T v = t; room(k); for (size_t i = 0; i < k; ++i) d[i] = v; n = k; }
    void swap(Fixed& o) { std::swap(*this, o); }
    bool operator==(const Fixed& o) const { return n == o.n && std::equal(d, d + n, o.d); }
    bool operator!=(const Fixed& o) const { return !(*this == o); }
    bool operator<(const Fixed& o) const { return std::lexicographical_compare(d, d + n, o.d, o.d + o.n); }
};

DIGIT(digit3, BN_UINT8, 3)
DIGIT(digit7, BN_UINT16, 7)
DIGIT(digit100, BN_UINT8, 100)
DIGIT(digit256, BN_UINT16, 256)
DIGIT(digit1000, BN_UINT32, 1000)
LIMITS(limits3, digit3)
LIMITS(limits7, digit7)
LIMITS(limits100, digit100)
LIMITS(limits256, digit256)
LIMITS(limits1000, digit1000)
NUMBER(num3, limits3, bn_default_container_t<digit3>)
NUMBER(num7, limits7, bn_default_container_t<digit7>)
NUMBER(num100, limits100, bn_default_container_t<digit100>)
NUMBER(num256, limits256, bn_default_container_t<digit256>)
NUMBER(num1000, limits1000, bn_default_container_t<digit1000>)
typedef Fixed<bn_base10_single, 24> cont10;
typedef Fixed<BN_UINT8, 24> contlowp;
NUMBER(fix10, bn_limits_base10, cont10)
NUMBER(fixlowp, bn_limits_lowp, contlowp)

#undef VP_KINDS
#define VP_KINDS(F) F(b3, num3) F(b7, num7) F(b100, num100) F(b256, num256) F(b1000, num1000) F(fix10, fix10) F(fixlowp, fixlowp)
#include "arith.cpp"
