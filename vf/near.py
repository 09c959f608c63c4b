"""Code that has nothing to do with safe numerics, next to `using namespace boost::safe_numerics` (the style of the library's tutorial).
Each body is compiled twice, with and without the directive; both must compile and write the same text."""
PRO = r'''#include "mon.hpp"
#include <atomic>
#include <bitset>
#include <chrono>
#include <complex>
#include <functional>
#include <iomanip>
#include <iterator>
#include <list>
#include <memory>
#include <random>
#include <sstream>
#include <tuple>
#include <utility>
#include <valarray>
#include <boost/safe_numerics/interval.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
VF_MON_GLOBALS
enum class Flag : unsigned { a = 1, b = 2, c = 4 };
constexpr Flag operator|(Flag x, Flag y){ return Flag(unsigned(x) | unsigned(y)); }
constexpr Flag operator&(Flag x, Flag y){ return Flag(unsigned(x) & unsigned(y)); }
enum Plain { p0, p1 = 4, p2 = 300 };
struct Point { int x, y; };
inline Point operator+(Point a, Point b){ return Point{a.x + b.x, a.y + b.y}; }
inline Point operator*(int k, Point b){ return Point{k * b.x, k * b.y}; }
inline Point operator-(Point a){ return Point{-a.x, -a.y}; }
inline bool operator==(Point a, Point b){ return a.x == b.x && a.y == b.y; }
inline bool operator<(Point a, Point b){ return a.x < b.x; }
inline std::ostream & operator<<(std::ostream & o, const Point & p){ return o << p.x << ',' << p.y; }
inline std::istream & operator>>(std::istream & i, Point & p){ return i >> p.x >> p.y; }
struct Three { operator int() const { return 3; } };
template<class T> struct Scaled { T x; template<class U> auto operator*(const U & u) const -> decltype(x * u){ return x * u; } };
struct Sink { std::string s; template<class T> Sink & operator<<(const T & t){ std::ostringstream o; o << t; s += o.str(); return *this; } };
struct Tape { int n; const Tape & operator>>(int & k) const { k = n; return *this; } };
struct Reg { const char * id; std::string (*with)(); std::string (*without)(); };
static std::vector<Reg> & regs(){ static std::vector<Reg> v; return v; }
struct Add { Add(const char * id, std::string (*a)(), std::string (*b)()){ Reg r = {id, a, b}; regs().push_back(r); } };
#define VF_IN std::istringstream is("1f 010 x yz word 1.5 true 7 8 9 110"); std::ostringstream os;
'''
END = r'''
int main(int c, char ** v){ mon::args(c, v);
    for(auto & r : regs()){ mon::progress(r.id); std::string a, b; mon::Outcome o; mon::observe([&](mon::Outcome &){ a = r.with(); b = r.without(); }, o); mon::count(o, !b.empty());
        if(o.k != mon::VALUE) mon::fail(r.id, "unrelated-code-fails", r.id, mon::show(o)); else if(a != b) mon::fail(r.id, "unrelated-code-changes-meaning", r.id, "'" + a + "' instead of '" + b + "'"); ++mon::feature["unrelated code"]; }
    mon::done(); return 0; }'''
BODIES = [
('stream manipulators in', 'VF_IN int i = 0; is >> std::hex >> i; os << i; is >> std::oct >> i; os << i; is >> std::dec >> std::ws; os << (char)is.peek();'),
('stream manipulators with arguments in', 'VF_IN std::string s; int i = 0; is >> std::setbase(16) >> i; os << i; is >> std::resetiosflags(std::ios::basefield) >> i; os << i; is >> std::setw(1) >> s; os << s;'),
('characters and strings in', 'VF_IN std::string s; char c; char b[8]; is >> s >> c >> c >> c; os << s << c; is >> b; os << b; is >> std::noskipws >> c; os << (int)c; is >> std::skipws >> s; os << s; std::getline(is, s); os << s;'),
('bool and double in', 'std::istringstream is("1.5 true 0"); std::ostringstream os; double d; bool b, e; is >> d >> std::boolalpha >> b >> std::noboolalpha >> e; os << d << b << e;'),
('wide stream in', 'std::wistringstream is(L"ff 12 x"); std::ostringstream os; int i; wchar_t w; is >> std::hex >> i >> std::dec; os << i; is >> i >> std::ws >> w; os << i << (int)w;'),
('own extraction', 'std::istringstream is("3 4"); std::ostringstream os; Point p; is >> p; os << p; const Tape t{5}; int k, l; t >> k >> l; os << k << l;'),
('stringstream both ways', 'std::stringstream os; int i = 0; os << std::hex << 255; os >> std::hex >> i; os.clear(); os << std::dec << i;'),
('manipulators out', 'std::ostringstream os; void * p = 0; os << std::hex << std::showbase << 31 << std::endl << std::setw(4) << std::setfill(\'0\') << std::dec << 7 << "x" << \'c\' << std::string("s") << 1.5 << (p == 0) << p1 << true << std::flush;'),
('own insertion', 'std::ostringstream os; os << Point{1, 2}; Sink s; s << 1 << "a" << 2.5; os << s.s;'),
('bitset', 'std::ostringstream os; std::bitset<8> b(3); b = b << 2; b <<= 1; b = b >> 1; b |= b << 3; b = (~b & b) ^ b | std::bitset<8>(1); os << b << (b == b); std::istringstream is("1010"); is >> b; os << b;'),
('complex', 'std::ostringstream os; std::complex<double> z(1, 2); z = z * 2.0 + z / z - z; z += 1.0; os << z << (z == z) << -z; std::istringstream is("(3,4)"); is >> z; os << z;'),
('chrono', 'std::ostringstream os; auto t = std::chrono::seconds(3) + std::chrono::milliseconds(4); t *= 2; t -= std::chrono::milliseconds(1); auto u = t % 1000; auto h = std::chrono::hours(5) / 2; os << t.count() << (t < std::chrono::hours(1)) << u.count() << h.count() << (-t).count() << std::chrono::hours(6) / std::chrono::minutes(7);'),
('valarray', 'std::ostringstream os; std::valarray<int> v = {1, 2, 3}; v = v + v * 2; v = v << 1; std::valarray<bool> b = v < 7; v %= 5; v = -v; v = v & (v | 3); v = ~v; v ^= 9; v >>= 1; for(int x : v) os << x << " "; for(bool x : b) os << x;'),
('iterators', 'std::ostringstream os; std::vector<int> v = {1, 2, 3}; auto it = v.begin() + 1; it += 1; it -= 1; it = 1 + it; os << *it << (it < v.end()) << (v.end() - it) << (it == v.begin() + 2); auto r = v.rbegin() + 1; os << *r << (r != v.rend()) << (r <= r);'),
('pointers', 'std::ostringstream os; int a[4] = {1, 2, 3, 4}; int * p = a; p = p + 2; p += 1; p = p - 1; p = 1 + p; os << *p << (p - a) << (p == a) << (p > a) << (p != nullptr); const char * s = "abc"; s = s + 1; os << s;'),
('smart pointers', 'std::ostringstream os; std::shared_ptr<int> a(new int(3)), b; std::unique_ptr<int> u; os << (a == b) << (b == nullptr) << (nullptr != a) << (b < a) << (u == nullptr) << *a + 1;'),
('strings', 'std::ostringstream os; std::string s("q"); s = s + "a" + \'b\' + s; s += \'c\'; s += "x"; s = "z" + s; os << s << (s == "abc") << ("abc" < s) << (s >= s) << (s != s);'),
('containers', 'std::ostringstream os; std::map<std::string,int> m{{"a", 1}}; std::set<int> t{1, 2}; std::list<int> l{3}; std::vector<int> v{1}; auto p = std::make_pair(1, 2); auto u = std::make_tuple(1, std::string("a")); os << (m == m) << (m < m) << (t != t) << (l <= l) << (v == v) << (p < std::make_pair(1, 3)) << (u == u) << (u < u);'),
('own enumeration', 'std::ostringstream os; Flag f = Flag::a | Flag::b; f = f & (Flag::a | Flag::c); os << (int)f << (f == Flag::b) << (f < Flag::b) << (f != Flag::a);'),
('plain enumeration', 'std::ostringstream os; int k = p0 | p1; os << k; k = p1 + 2; k <<= p1; k += p1; k ^= p2; os << k << (p1 << 1) << (p0 < p1) << (p0 == 0) << -p1 << ~p1 << p2 % 7 << p2 * p1 << p2 / p1 << (p2 >= 300u) << !p0;'),
('own arithmetic', 'std::ostringstream os; Point p = Point{1, 2} + Point{3, 4}; p = 3 * -p; os << p << (p == p) << (p < p); Scaled<int> s{3}; os << s * 4 << s * 2.5;'),
('object converting to int', 'std::ostringstream os; int i = Three() + 1; os << i << Three() + Three() << (Three() << 2) << (Three() == 3) << 1.5 * Three() << -Three() << ~Three() << Three() % 2u << (5 > Three()); i += Three(); i <<= Three(); os << i;'),
('atomic', 'std::ostringstream os; std::atomic<int> a(3); a += 2; a++; os << a + 1 << (a | 1) << (a == 6) << a * a << -a; a |= 1; a -= 4; os << a;'),
('reference wrapper', 'std::ostringstream os; int i = 4; std::reference_wrapper<int> r(i); os << r + 1 << (r == 4) << r * r << (r << 1) << r; r.get() += 2; os << i;'),
('integral constants', 'std::ostringstream os; std::integral_constant<int,4> a; constexpr int c = std::integral_constant<int,4>() * 2; os << a + a << (a < 5) << c << (std::true_type() == true) << !std::true_type() << (std::true_type() | false) << a << 1;'),
('vector<bool>', 'std::ostringstream os; std::vector<bool> v(4); v[0] = v[1] | 1; os << (v[0] == true) << v[0] + 1 << v[1] << (v[0] & v[1]); v[2] = !v[1]; v[3] = v[2] ^ v[0]; os << v[2] << v[3];'),
('built-in arithmetic', 'std::ostringstream os; volatile int z = 5; int i = z % 3; i <<= 2; i ^= 1; double d = i; d += i; d = d * i / 2.f; unsigned u = 3u - (unsigned)z; os << i << d << u << (1u < 2l) << \'a\' + 1 << true + true << (z, 4) << -7 / 2 << (z << 3) << (char)(z + 60) << (-1 < 1u);'),
('random engines', 'std::ostringstream os; std::minstd_rand g(7), h; std::stringstream s; s << g; s >> h; os << (g == h) << g() << (g != h); std::uniform_int_distribution<int> d(1, 6), e; std::stringstream t; t << d; t >> e; os << (d == e);'),
('error codes', 'std::ostringstream os; std::error_code e = std::make_error_code(std::errc::io_error), f; os << e << (e == std::errc::io_error) << (e == f) << (f < e) << (e != f);'),
('stream iterators', 'std::istringstream is("1 2 3"); std::ostringstream os; std::istream_iterator<int> i(is), e; int s = 0; for(; i != e; ++i) s += *i; os << s; std::ostream_iterator<int> o(os, ";"); *o++ = 4; std::istreambuf_iterator<char> b(is), c; os << (b == c);'),
('functions', 'std::ostringstream os; std::function<int(int)> f; os << (f == nullptr); f = [](int x){ return x + 1; }; os << f(1) + f(2) << (f != nullptr); auto m = &Point::x; os << (m == &Point::x); int (*g)(int) = [](int x){ return -x; }; os << g(3) * 2 << (g != nullptr);'),
('algorithms', 'std::ostringstream os; std::vector<int> v = {3, 1, 2}; std::sort(v.begin(), v.end(), std::greater<int>()); for(int x : v) os << x; os << *std::max_element(v.begin(), v.end()) << std::max(1, 2) << std::min({3, 1, 2}) << std::equal(v.begin(), v.end(), v.begin()) << std::abs(-3);'),
]


def lines():
    r = []
    for k, (n, b) in enumerate(BODIES):
        f = 'std::string f(){ %s return os.str(); }' % b
        r.append(('unrelated code: ' + n, 'namespace A%d { using namespace boost::safe_numerics; %s } namespace B%d { %s } static Add r%d("unrelated code: %s", &A%d::f, &B%d::f);' % (k, f, k, f, k, n, k, k)))
    return r
