"""Searching a failing input for the object-hashing properties, after an obligation failed: a native
program records the bytes passed to update and compares them with an independent rendering of the
documented message."""
import random, time
import build, relfuzz

SRC = r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/describe/class.hpp>
#include <boost/array.hpp>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
using namespace boost::hash2;
typedef std::vector<unsigned char> B;
static std::uint64_t g = 88172645463325252ull;
static std::uint64_t rnd(){ g ^= g << 13; g ^= g >> 7; g ^= g << 17; return g; }
static std::string hex(B const& v){ static const char* d = "0123456789abcdef"; std::string s; for(auto c: v){ s += d[c >> 4]; s += d[c & 15]; } return s.empty() ? "-" : s; }
[[noreturn]] static void dev(std::string const& s){ std::printf("DEV %s\n", s.c_str()); std::fflush(stdout); std::_Exit(3); }
struct XF { using size_type = std::uint32_t; static constexpr auto byte_order = endian::big; };
struct Y2 { using size_type = std::uint16_t; static constexpr auto byte_order = endian::little; };
// the recorder: an algorithm whose state is the message
struct Rec { typedef std::uint64_t result_type; B m; Rec(){} explicit Rec(std::uint64_t){} Rec(unsigned char const*, std::size_t){}
  void update(void const* p, std::size_t n){ unsigned char const* q = static_cast<unsigned char const*>(p); m.insert(m.end(), q, q + n); }
  std::uint64_t result(){ std::uint64_t h = 1469598103934665603ull; for(auto c: m){ h = (h ^ c) * 1099511628211ull; h ^= h >> 29; } m.push_back(0xEE); return h; } };
static bool big(){ std::uint16_t x = 1; unsigned char c; std::memcpy(&c, &x, 1); return c == 0; }
template<class F> static bool fbig(){ return F::byte_order == endian::big; }
template<class F> static void raw(B& o, std::uint64_t v, int n){ for(int i = 0; i < n; ++i){ int k = fbig<F>() ? n - 1 - i : i; o.push_back(static_cast<unsigned char>(v >> (8 * k))); } }
template<class F> static void sz(B& o, std::size_t n){ raw<F>(o, n, sizeof(typename F::size_type)); }
// expected messages
struct El { std::uint32_t id; bool operator<(El const& o) const { return id < o.id; } bool operator==(El const& o) const { return id == o.id; } };
namespace std { template<> struct hash<El> { std::size_t operator()(El const& e) const { return e.id % 5; } }; }
template<class H, class F> void tag_invoke(hash_append_tag const&, H& h, F const&, El const& v){ unsigned char t[3] = { static_cast<unsigned char>(v.id ^ 0x5A), static_cast<unsigned char>(v.id >> 8), static_cast<unsigned char>(v.id >> 16) }; h.update(t, 3); }
struct R3 { unsigned char a, b, c; bool operator<(R3 const& o) const { return std::tie(a, b, c) < std::tie(o.a, o.b, o.c); } };
template<class H, class F> void tag_invoke(hash_append_tag const&, H& h, F const& f, R3 const& v){ hash_append(h, f, v.a); hash_append(h, f, v.b); hash_append(h, f, v.c); }
struct N2 { std::uint16_t a, b; };
template<class H, class F> void tag_invoke(hash_append_tag const&, H& h, F const& f, N2 const& v){ hash_append(h, f, v.a); hash_append(h, f, v.b); }
struct EB { unsigned char a; };
template<class H, class F> void tag_invoke(hash_append_tag const&, H& h, F const& f, EB const& v){ hash_append(h, f, v.a); hash_append(h, f, '\x07'); }
struct EP { unsigned char a; std::uint32_t b; };
template<class H, class F> void tag_invoke(hash_append_tag const&, H& h, F const& f, EP const& v){ hash_append(h, f, v.a); hash_append(h, f, v.b); }
namespace boost { namespace hash2 { template<> struct is_trivially_equality_comparable<R3>: std::true_type {}; template<> struct is_endian_independent<R3>: std::true_type {}; template<> struct is_trivially_equality_comparable<N2>: std::true_type {}; template<> struct is_endian_independent<EP>: std::true_type {}; } }
struct D0 {}; BOOST_DESCRIBE_STRUCT(D0, (), ())
struct D1 { El a; std::uint16_t b; }; BOOST_DESCRIBE_STRUCT(D1, (), (a, b))
struct D2 { unsigned char a; std::uint32_t b; float c; bool d; }; BOOST_DESCRIBE_STRUCT(D2, (), (a, b, c, d))
struct D3: D1, D2 { El m; }; BOOST_DESCRIBE_STRUCT(D3, (D1, D2), (m))
struct D4: D0 { std::uint16_t m; }; BOOST_DESCRIBE_STRUCT(D4, (D0), (m))
struct D5 { std::vector<El> p; std::string q; std::vector<std::uint16_t> r; }; BOOST_DESCRIBE_STRUCT(D5, (), (p, q, r))
struct D6: D3 {}; BOOST_DESCRIBE_STRUCT(D6, (D3), ())
class D7: D4 { std::uint32_t x_ = 0; public: std::uint16_t y = 0; protected: unsigned char z_ = 0; public: D7(std::uint16_t m, std::uint32_t x, std::uint16_t yy, unsigned char z){ D4::m = m; x_ = x; y = yy; z_ = z; } BOOST_DESCRIBE_CLASS(D7, (D4), (y), (z_), (x_)) friend struct D7p; };
struct D7p { template<class F> static void e(B& o, D7 const& v); };
enum E0 : int { E00 }; enum class E1: unsigned char { a }; enum class E2: short { a }; enum class E3: std::uint64_t { a }; enum E4 { E40 = -1, E41 = 1000 };
template<class F, class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type ex(B& o, T const& v){ raw<F>(o, static_cast<std::uint64_t>(v), sizeof(T)); }
template<class F, class T> void ex(B& o, T* const& v){ raw<F>(o, reinterpret_cast<std::uintptr_t>(v), sizeof(v)); }
template<class F> void ex(B& o, std::nullptr_t const&){ raw<F>(o, 0, sizeof(void*)); }
template<class F> void ex(B& o, float const& v){ std::uint32_t u; std::memcpy(&u, &v, 4); if(u == 0x80000000u) u = 0; raw<F>(o, u, 4); }
template<class F> void ex(B& o, double const& v){ std::uint64_t u; std::memcpy(&u, &v, 8); if(u == 0x8000000000000000ull) u = 0; raw<F>(o, u, 8); }
template<class F> void ex(B& o, El const& v){ Rec h; tag_invoke(hash_append_tag(), h, F(), v); o.insert(o.end(), h.m.begin(), h.m.end()); }
template<class F> void ex(B& o, R3 const& v){ ex<F>(o, v.a); ex<F>(o, v.b); ex<F>(o, v.c); }
template<class F> void ex(B& o, N2 const& v){ ex<F>(o, v.a); ex<F>(o, v.b); }
template<class F> void ex(B& o, EB const& v){ ex<F>(o, v.a); o.push_back(7); }
template<class F> void ex(B& o, EP const& v){ ex<F>(o, v.a); ex<F>(o, v.b); }
template<class F, class T, std::size_t N> void ex(B& o, T const (&v)[N]);
template<class F, class T, std::size_t N> void ex(B& o, std::array<T, N> const& v);
template<class F, class T, std::size_t N> void ex(B& o, boost::array<T, N> const& v);
template<class F, std::size_t N> void ex(B& o, digest<N> const& v);
template<class F, class A, class C> void ex(B& o, std::pair<A, C> const& v);
template<class F, class... A> void ex(B& o, std::tuple<A...> const& v);
template<class F> void ex(B& o, D0 const&);
template<class F> void ex(B& o, D1 const&);
template<class F> void ex(B& o, D2 const&);
template<class F> void ex(B& o, D3 const&);
template<class F> void ex(B& o, D4 const&);
template<class F> void ex(B& o, D5 const&);
template<class F> void ex(B& o, D6 const&);
template<class F> void ex(B& o, D7 const&);
template<class F, class R> auto ex(B& o, R const& v) -> typename std::enable_if<!std::is_array<R>::value, decltype(v.begin(), typename R::value_type(), void())>::type;
template<class F, class R> void dyn(B& o, R const& v){ std::size_t n = 0; for(typename R::value_type const& x: v){ ex<F>(o, x); ++n; } sz<F>(o, n); }
template<class F, class R> auto ex(B& o, R const& v) -> typename std::enable_if<!std::is_array<R>::value, decltype(v.begin(), typename R::value_type(), void())>::type { dyn<F>(o, v); }
template<class F, class T, std::size_t N> void ex(B& o, T const (&v)[N]){ for(auto& x: v) ex<F>(o, x); }
template<class F, class T, std::size_t N> void ex(B& o, std::array<T, N> const& v){ for(auto& x: v) ex<F>(o, x); if(!N) o.push_back(0); }
template<class F, class T, std::size_t N> void ex(B& o, boost::array<T, N> const& v){ for(auto& x: v) ex<F>(o, x); if(!N) o.push_back(0); }
template<class F, std::size_t N> void ex(B& o, digest<N> const& v){ for(std::size_t i = 0; i < N; ++i) o.push_back(v.data()[i]); }
template<class F, class A, class C> void ex(B& o, std::pair<A, C> const& v){ ex<F>(o, v.first); ex<F>(o, v.second); }
template<class F, class T, std::size_t... J> void tup(B& o, T const& v, std::index_sequence<J...>){ int a[] = { 0, (ex<F>(o, std::get<J>(v)), 0)... }; (void)a; if(sizeof...(J) == 0) o.push_back(0); }
template<class F, class... A> void ex(B& o, std::tuple<A...> const& v){ tup<F>(o, v, std::index_sequence_for<A...>()); }
template<class F> void ex(B& o, D0 const&){ o.push_back(0); }
template<class F> void ex(B& o, D1 const& v){ ex<F>(o, v.a); ex<F>(o, v.b); }
template<class F> void ex(B& o, D2 const& v){ ex<F>(o, v.a); ex<F>(o, v.b); ex<F>(o, v.c); ex<F>(o, v.d); }
template<class F> void ex(B& o, D3 const& v){ ex<F>(o, static_cast<D1 const&>(v)); ex<F>(o, static_cast<D2 const&>(v)); ex<F>(o, v.m); }
template<class F> void ex(B& o, D4 const& v){ o.push_back(0); ex<F>(o, v.m); }
template<class F> void ex(B& o, D5 const& v){ ex<F>(o, v.p); ex<F>(o, v.q); ex<F>(o, v.r); }
template<class F> void ex(B& o, D6 const& v){ ex<F>(o, static_cast<D3 const&>(v)); }
template<class F> void D7p::e(B& o, D7 const& v){ o.push_back(0); ex<F>(o, ((D4 const&)v).m); ex<F>(o, v.y); ex<F>(o, v.z_); ex<F>(o, v.x_); }
template<class F> void ex(B& o, D7 const& v){ D7p::e<F>(o, v); }
// random values
static std::size_t len(){ switch(rnd() % 8){ case 0: return 0; case 1: return 1; case 2: return 2; case 3: return rnd() % 9; case 4: return rnd() % 70; case 5: return 250 + rnd() % 12; case 6: return rnd() % 400 == 0 ? 65530 + rnd() % 12 : 3; default: return rnd() % 33; } }
template<class T> struct mk { static T go(){ std::uint64_t r = rnd(); switch(r % 7){ case 0: r = 0; break; case 1: r = ~0ull; break; case 2: r = 1ull << (rnd() % 64); break; case 3: r = rnd() % 256; break; default: r = rnd(); } return static_cast<T>(r); } };
template<> struct mk<bool> { static bool go(){ return rnd() & 64; } };
template<class T> struct mk<T*> { static T* go(){ return reinterpret_cast<T*>(static_cast<std::uintptr_t>(rnd() % 5 ? rnd() : 0)); } };
template<> struct mk<std::nullptr_t> { static std::nullptr_t go(){ return nullptr; } };
template<> struct mk<E0> { static E0 go(){ return static_cast<E0>(mk<int>::go()); } };
template<> struct mk<E4> { static E4 go(){ return static_cast<E4>(static_cast<int>(rnd() % 1024)); } };
template<> struct mk<float> { static float go(){ static const float t[] = { 0.0f, -0.0f, 1.0f, -1.0f, 1e-45f, -1e-45f, 3.4e38f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), 1.17549435e-38f }; if(rnd() & 1) return t[rnd() % 10]; float f; do { std::uint32_t u = static_cast<std::uint32_t>(rnd() >> 16); std::memcpy(&f, &u, 4); } while(f != f); return f; } };
template<> struct mk<double> { static double go(){ static const double t[] = { 0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1.7e308, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 2.2250738585072014e-308 }; if(rnd() & 1) return t[rnd() % 10]; double f; do { std::uint64_t u = rnd(); std::memcpy(&f, &u, 8); } while(f != f); return f; } };
template<> struct mk<El> { static El go(){ return El{ mk<std::uint32_t>::go() }; } };
template<> struct mk<R3> { static R3 go(){ return R3{ mk<unsigned char>::go(), mk<unsigned char>::go(), mk<unsigned char>::go() }; } };
template<> struct mk<N2> { static N2 go(){ return N2{ mk<std::uint16_t>::go(), mk<std::uint16_t>::go() }; } };
template<> struct mk<EB> { static EB go(){ return EB{ mk<unsigned char>::go() }; } };
template<> struct mk<EP> { static EP go(){ EP p; std::memset(&p, static_cast<int>(rnd()), sizeof p); p.a = mk<unsigned char>::go(); p.b = mk<std::uint32_t>::go(); return p; } };
template<class T> struct fillc { static T go(){ T r; std::size_t n = len(); for(std::size_t i = 0; i < n; ++i) r.insert(r.end(), mk<typename T::value_type>::go()); return r; } };
template<class T> struct mk<std::vector<T>>: fillc<std::vector<T>> {}; template<class T> struct mk<std::deque<T>>: fillc<std::deque<T>> {}; template<class T> struct mk<std::list<T>>: fillc<std::list<T>> {}; template<class T> struct mk<std::basic_string<T>>: fillc<std::basic_string<T>> {};
template<class T> struct mk<std::set<T>>: fillc<std::set<T>> {}; template<class T> struct mk<std::multiset<T>>: fillc<std::multiset<T>> {};
template<class K, class T> struct mk<std::map<K, T>> { static std::map<K, T> go(){ std::map<K, T> r; std::size_t n = len(); for(std::size_t i = 0; i < n; ++i) r[mk<K>::go()] = mk<T>::go(); return r; } };
template<class T> struct mk<std::forward_list<T>> { static std::forward_list<T> go(){ std::forward_list<T> r; std::size_t n = len(); for(std::size_t i = 0; i < n; ++i) r.push_front(mk<T>::go()); return r; } };
template<class T, std::size_t N> struct mk<std::array<T, N>> { static std::array<T, N> go(){ std::array<T, N> r; for(auto& x: r) x = mk<T>::go(); return r; } };
template<class T, std::size_t N> struct mk<boost::array<T, N>> { static boost::array<T, N> go(){ boost::array<T, N> r; for(auto& x: r) x = mk<T>::go(); return r; } };
template<std::size_t N> struct mk<digest<N>> { static digest<N> go(){ digest<N> d; for(std::size_t i = 0; i < N; ++i) d.data()[i] = static_cast<unsigned char>(rnd() % 3 ? rnd() >> 9 : 0); return d; } };
template<class A, class C> struct mk<std::pair<A, C>> { static std::pair<A, C> go(){ return { mk<typename std::remove_const<A>::type>::go(), mk<C>::go() }; } };
template<class... A> struct mk<std::tuple<A...>> { static std::tuple<A...> go(){ return std::tuple<A...>{ mk<A>::go()... }; } };
template<> struct mk<std::tuple<>> { static std::tuple<> go(){ return std::tuple<>(); } };
template<> struct mk<D0> { static D0 go(){ return D0(); } };
template<> struct mk<D1> { static D1 go(){ return D1{ mk<El>::go(), mk<std::uint16_t>::go() }; } };
template<> struct mk<D2> { static D2 go(){ return D2{ mk<unsigned char>::go(), mk<std::uint32_t>::go(), mk<float>::go(), mk<bool>::go() }; } };
template<> struct mk<D3> { static D3 go(){ D3 d; static_cast<D1&>(d) = mk<D1>::go(); static_cast<D2&>(d) = mk<D2>::go(); d.m = mk<El>::go(); return d; } };
template<> struct mk<D4> { static D4 go(){ D4 d; d.m = mk<std::uint16_t>::go(); return d; } };
template<> struct mk<D5> { static D5 go(){ return D5{ mk<std::vector<El>>::go(), mk<std::string>::go(), mk<std::vector<std::uint16_t>>::go() }; } };
template<> struct mk<D6> { static D6 go(){ D6 d; static_cast<D3&>(d) = mk<D3>::go(); return d; } };
template<> struct mk<D7> { static D7 go(){ return D7(mk<std::uint16_t>::go(), mk<std::uint32_t>::go(), mk<std::uint16_t>::go(), mk<unsigned char>::go()); } };
template<class F> static const char* fname(){ return sizeof(typename F::size_type) == 4 ? "flavor(big, 32-bit size)" : sizeof(typename F::size_type) == 2 ? "flavor(little, 16-bit size)" : std::is_same<F, default_flavor>::value ? "default_flavor" : std::is_same<F, little_endian_flavor>::value ? "little_endian_flavor" : "big_endian_flavor"; }
template<class F> static void cmp(Rec& h, std::size_t pre, B const& w, std::string const& what){ B got(h.m.begin() + pre, h.m.end());
  if(got.empty()) dev(what + " under " + fname<F>() + ": no byte is passed to update");
  if(got != w) dev(what + " under " + fname<F>() + ": bytes passed to update " + hex(got).substr(0, 1500) + ", documented message " + hex(w).substr(0, 1500)); }
static Rec start(){ Rec h; std::size_t n = rnd() % 3; for(std::size_t i = 0; i < n; ++i) h.m.push_back(static_cast<unsigned char>(rnd())); return h; }
template<class F, class T> static void oneF(T const& v, const char* nm){ Rec h = start(); std::size_t p = h.m.size(); hash_append(h, F(), v); B w; ex<F>(w, v); cmp<F>(h, p, w, nm); }
template<class T> static void val(T const& v, const char* nm){ oneF<default_flavor>(v, nm); oneF<little_endian_flavor>(v, nm); oneF<big_endian_flavor>(v, nm); oneF<XF>(v, nm); oneF<Y2>(v, nm); }
#define T1(...) val(mk<__VA_ARGS__>::go(), #__VA_ARGS__)
template<class T, std::size_t N> static void carrN(const char* nm){ T a[N]; for(auto& x: a) x = mk<T>::go(); val(a, nm); T b[2][N]; for(auto& r: b) for(auto& x: r) x = mk<T>::go(); val(b, nm); }
template<class T> static void carr(const char* nm){ carrN<T, 1>(nm); carrN<T, 3>(nm); carrN<T, 7>(nm); }
template<class F, class T> static void seq(const char* nm){ std::size_t n = len(); std::unique_ptr<T[]> a(new T[n]); for(std::size_t i = 0; i < n; ++i) a[i] = mk<T>::go(); T* p = a.get(); if(n == 0 && (rnd() & 1)) p = nullptr; B e, s; for(std::size_t i = 0; i < n; ++i) ex<F>(e, p[i]); s = e; sz<F>(s, n); std::string w = std::string("range of ") + std::to_string(n) + " " + nm;
  { Rec h = start(); std::size_t q = h.m.size(); hash_append_range(h, F(), p, p + n); B got(h.m.begin() + q, h.m.end()); if(got != e) dev(w + ", hash_append_range, " + fname<F>() + ": " + hex(got).substr(0, 1500) + " instead of " + hex(e).substr(0, 1500)); }
  { Rec h = start(); std::size_t q = h.m.size(); T const* c = p; hash_append_range(h, F(), c, c + n); B got(h.m.begin() + q, h.m.end()); if(got != e) dev(w + ", hash_append_range, " + fname<F>() + ": " + hex(got).substr(0, 1500) + " instead of " + hex(e).substr(0, 1500)); }
  { Rec h = start(); std::size_t q = h.m.size(); hash_append_sized_range(h, F(), p, p + n); cmp<F>(h, q, s, w + ", hash_append_sized_range"); }
  std::list<T> l(p, p + n); { Rec h = start(); std::size_t q = h.m.size(); hash_append_range(h, F(), l.begin(), l.end()); B got(h.m.begin() + q, h.m.end()); if(got != e) dev(w + " in a list, hash_append_range, " + fname<F>() + ": " + hex(got).substr(0, 1500) + " instead of " + hex(e).substr(0, 1500)); }
  { Rec h = start(); std::size_t q = h.m.size(); hash_append_sized_range(h, F(), l.begin(), l.end()); cmp<F>(h, q, s, w + " in a list, hash_append_sized_range"); } }
// single pass
struct InS { int i, n; struct it { using iterator_category = std::input_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = int const*; using reference = int; InS* s; int operator*() const { return s->i * 7; } it& operator++(){ ++s->i; return *this; } it operator++(int){ it r(*this); ++s->i; return r; } bool operator==(it const&) const { return s->i >= s->n; } bool operator!=(it const& o) const { return !(*this == o); } }; };
template<class F> static void inp(){ int n = static_cast<int>(len()); InS s{ 0, n }; Rec h; hash_append_sized_range(h, F(), InS::it{ &s }, InS::it{ &s }); B w; for(int i = 0; i < n; ++i) ex<F>(w, i * 7); sz<F>(w, static_cast<std::size_t>(n)); cmp<F>(h, 0, w, "single-pass range of " + std::to_string(n) + " ints"); }
template<class T> static void seqs(const char* nm){ seq<default_flavor, T>(nm); seq<little_endian_flavor, T>(nm); seq<big_endian_flavor, T>(nm); seq<XF, T>(nm); seq<Y2, T>(nm); }
#define S1(...) seqs<__VA_ARGS__>(#__VA_ARGS__)
// unordered
template<class H> static std::string show(H h){ std::string s; for(int i = 0; i < 2; ++i) s += std::to_string(get_integral_result<std::uint64_t>(h.result())) + " "; return s; }
template<> std::string show<Rec>(Rec h){ return hex(h.m); }
template<class H, class F, class T> static void unord(const char* nm){ std::size_t n = rnd() % 4 ? rnd() % 6 : len() % 300; std::vector<T> a; for(std::size_t i = 0; i < n; ++i) a.push_back(mk<T>::go()); H h0; { unsigned char c[9]; for(auto& x: c) x = static_cast<unsigned char>(rnd()); h0.update(c, rnd() % 10); }
  H h1(h0), h2(h0), h3(h0); hash_append_unordered_range(h1, F(), a.begin(), a.end());
  std::uint64_t w = 0; for(auto& x: a){ H t(h0); hash_append(t, F(), x); w += get_integral_result<std::uint64_t>(t.result()); } hash_append(h3, F(), w); hash_append_size(h3, F(), n);
  if(show(h1) != show(h3)) dev(std::string("unordered range of ") + std::to_string(n) + " " + nm + " under " + fname<F>() + ": state " + show(h1) + ", documented " + show(h3));
  std::list<T> b(a.begin(), a.end()); for(int k = 0; k < 3; ++k){ std::vector<T> c(b.begin(), b.end()); for(std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[rnd() % i]); H h4(h0); hash_append_unordered_range(h4, F(), c.begin(), c.end()); if(show(h4) != show(h1)) dev(std::string("unordered range of ") + std::to_string(n) + " " + nm + " under " + fname<F>() + ": another order gives another state"); }
  (void)h2; }
template<class H, class F> static void uset(){ std::unordered_set<std::uint32_t> a(1), b(997); std::vector<std::uint32_t> v; std::size_t n = len() % 300; for(std::size_t i = 0; i < n; ++i) v.push_back(mk<std::uint32_t>::go()); for(auto x: v) a.insert(x); for(std::size_t i = v.size(); i > 0; --i) b.insert(v[i - 1]);
  H h, k, e; hash_append(h, F(), a); hash_append(k, F(), b); hash_append_unordered_range(e, F(), a.begin(), a.end()); if(show(h) != show(k)) dev(std::string("two equal unordered_sets of ") + std::to_string(a.size()) + " elements give different states under " + fname<F>()); if(show(h) != show(e)) dev("unordered_set: not hashed as an unordered range"); }
// digests
template<std::size_t N> static void dig(){ digest<N> a = mk<digest<N>>::go(), b(a); bool same = rnd() & 1; if(!same) b.data()[rnd() % N] ^= static_cast<unsigned char>(rnd() & 1 ? 1u << (rnd() % 8) : 1 + rnd() % 255); B x(a.data(), a.data() + N), y(b.data(), b.data() + N);
  std::string w = "digest<" + std::to_string(N) + "> " + hex(x) + " and " + hex(y); if((a == b) != same) dev(w + ": operator== gives " + (a == b ? "true" : "false")); if((a != b) == same) dev(w + ": operator!= is wrong");
  unsigned char src[N]; std::memcpy(src, x.data(), N); digest<N> c(src); if(!(c == a) || std::memcmp(c.data(), src, N)) dev(w + ": construction from an array"); digest<N> z{}; for(auto q: z) if(q) dev("a default digest is not zero");
  if(a.size() != N || a.max_size() != N || a.end() - a.begin() != static_cast<std::ptrdiff_t>(N) || &a[0] != a.data() || &a.front() != a.data() || &a.back() != a.data() + N - 1 || a.begin() != a.data()) dev("digest access");
  std::string h = hex(x); if(to_string(a) != h) dev(w + ": to_string gives " + to_string(a)); std::ostringstream os; os << a; if(os.str() != h) dev(w + ": the stream receives " + os.str());
  for(int k = 0; k < 4; ++k){ std::size_t L = k == 0 ? 2 * N : k == 1 ? 2 * N - 1 : k == 2 ? 2 * N + 1 : rnd() % (2 * N + 4); std::unique_ptr<char[]> o(new char[L ? L : 1]); std::memset(o.get(), '#', L); char* r = to_chars(a, o.get(), o.get() + L);
    if(L < 2 * N){ if(r) dev(w + ": to_chars into " + std::to_string(L) + " characters does not return null"); for(std::size_t i = 0; i < L; ++i) if(o[i] != '#') dev(w + ": to_chars into " + std::to_string(L) + " characters writes"); }
    else { if(r != o.get() + 2 * N || std::string(o.get(), 2 * N) != h) dev(w + ": to_chars writes " + std::string(o.get(), 2 * N)); for(std::size_t i = 2 * N; i < L; ++i) if(o[i] != '#') dev(w + ": to_chars writes more than the digits"); } }
  char m[2 * N + 1]; to_chars(a, m); if(m != h) dev(w + ": to_chars into an array"); }
// integral results
template<class T, class R> static void ir1(R const& r, std::uint64_t want, std::string const& what){ T t = get_integral_result<T>(r); if(static_cast<typename std::make_unsigned<T>::type>(t) != static_cast<typename std::make_unsigned<T>::type>(want)) dev(what + ": get_integral_result to " + std::to_string(sizeof(T)) + (std::is_signed<T>::value ? " signed" : " unsigned") + " bytes gives " + std::to_string(t) + ", documented " + std::to_string(static_cast<T>(want))); }
static std::uint64_t mult(int r, int t){ if(r == 2 && t == 1) return 0xBF01; if(r == 4 && t == 1) return 0x7F7F7F7F; if(r == 8 && t == 1) return 0x7F7F7F7F7F7F7F7Full; if(r == 4 && t == 2) return 0xBFFF0001; if(r == 8 && t == 2) return 0xBFFFBFFFBFFFBFFFull; if(r == 8 && t == 4) return 0xBFFFFFFF00000001ull; if(r == 1 && t == 2) return 0x7F7F; if(r == 1 && t == 4) return 0xBFBFBFBF; if(r == 1 && t == 8) return 0xDFDFDFDFDFDFDFDFull; if(r == 2 && t == 4) return 0x7FFF7FFF; if(r == 2 && t == 8) return 0x7FFF7FFF7FFF7FFFull; if(r == 4 && t == 8) return 0x7FFFFFFF7FFFFFFFull; return 1; }
static std::uint64_t spec(std::uint64_t x, int r, int t){ if(r == t) return x; std::uint64_t p = x * mult(r, t); if(r > t){ if(r < 8) p &= (1ull << (8 * r)) - 1; p >>= 8 * (r - t); } return t < 8 ? p & ((1ull << (8 * t)) - 1) : p; }
template<class T, class R> static void ir(){ R r = mk<R>::go(); ir1<T>(r, spec(static_cast<std::uint64_t>(r), sizeof(R), sizeof(T)), "value " + std::to_string(r) + " of " + std::to_string(sizeof(R)) + " bytes"); }
template<class T> static void irs(){ ir<T, std::uint8_t>(); ir<T, std::uint16_t>(); ir<T, std::uint32_t>(); ir<T, std::uint64_t>(); ir<T, unsigned long>(); ir<T, unsigned long long>(); ir<T, char32_t>(); }
template<class T, class A> static void ia(){ A a = mk<A>::go(); std::uint64_t w = 0; B x; for(int i = 0; i < 8; ++i){ w |= static_cast<std::uint64_t>(a[i]) << (8 * i); x.push_back(a[i]); } ir1<T>(a, w, "array-like value starting " + hex(x)); }
template<class T> static void ias(){ ia<T, digest<8>>(); ia<T, digest<16>>(); ia<T, digest<20>>(); ia<T, digest<64>>(); ia<T, std::array<unsigned char, 8>>(); ia<T, std::array<unsigned char, 9>>(); }
#define EACH(M) M(char); M(signed char); M(unsigned char); M(wchar_t); M(char16_t); M(char32_t); M(short); M(unsigned short); M(int); M(unsigned); M(long); M(unsigned long); M(long long); M(unsigned long long); M(E0); M(E1); M(E2); M(E3); M(E4); M(void*); M(El const*)
static void once(){
#if PART & 1
  EACH(T1); T1(bool); T1(void (*)(int)); T1(std::nullptr_t);
#endif
#if PART & 2
  T1(float); T1(double); { float f = mk<float>::go(), k = mk<float>::go(); Rec a, b; hash_append(a, little_endian_flavor(), f); hash_append(b, little_endian_flavor(), k); if((a.m == b.m) != (f == k)) dev("float values " + std::to_string(f) + " and " + std::to_string(k) + ": messages " + hex(a.m) + " and " + hex(b.m)); }
  { double f = mk<double>::go(), k = mk<double>::go(); Rec a, b; hash_append(a, little_endian_flavor(), f); hash_append(b, little_endian_flavor(), k); if((a.m == b.m) != (f == k)) dev("double values " + std::to_string(f) + " and " + std::to_string(k) + ": messages " + hex(a.m) + " and " + hex(b.m)); }
#endif
#if PART & 4
  S1(bool); S1(char); S1(signed char); S1(unsigned char); S1(wchar_t); S1(char16_t); S1(char32_t); S1(short); S1(int); S1(std::uint64_t); S1(E1); S1(E2); S1(void*); S1(float); S1(double); S1(El); S1(R3); S1(N2); S1(EB); S1(EP); S1(std::pair<El, std::uint16_t>); S1(std::pair<unsigned char, bool>);
  T1(std::vector<unsigned char>); T1(std::vector<char>); T1(std::vector<bool>); T1(std::vector<std::uint16_t>); T1(std::vector<std::uint64_t>); T1(std::vector<float>); T1(std::vector<double>); T1(std::vector<El>); T1(std::vector<R3>); T1(std::vector<N2>); T1(std::vector<EB>); T1(std::vector<EP>); T1(std::vector<std::vector<std::uint16_t>>); T1(std::vector<std::string>); T1(std::vector<std::pair<El, El>>); T1(std::vector<std::array<std::uint16_t, 2>>);
  T1(std::deque<int>); T1(std::list<std::uint16_t>); T1(std::list<El>); T1(std::forward_list<int>); T1(std::set<int>); T1(std::multiset<unsigned char>); T1(std::map<int, El>); T1(std::string); T1(std::wstring); T1(std::u16string); T1(std::u32string);
  inp<default_flavor>(); inp<XF>(); inp<Y2>();
#endif
#if PART & 8
  carr<unsigned char>("unsigned char[]"); carr<char>("char[]"); carr<bool>("bool[]"); carr<std::uint16_t>("uint16_t[]"); carr<std::uint32_t>("uint32_t[]"); carr<std::uint64_t>("uint64_t[]"); carr<float>("float[]"); carr<double>("double[]"); carr<E1>("E1[]"); carr<E2>("E2[]"); carr<void*>("void*[]"); carr<El>("El[]"); carr<R3>("R3[]"); carr<N2>("N2[]"); carr<EB>("EB[]"); carr<EP>("EP[]"); T1(R3); T1(N2); T1(EB); T1(EP);
  T1(std::array<unsigned char, 5>); T1(std::array<unsigned char, 0>); T1(std::array<std::uint32_t, 3>); T1(std::array<std::uint64_t, 0>); T1(std::array<float, 3>); T1(std::array<El, 2>); T1(std::array<El, 0>); T1(std::array<R3, 2>); T1(std::array<N2, 2>); T1(std::array<std::array<std::uint16_t, 2>, 2>); T1(std::array<std::string, 2>); T1(boost::array<std::uint16_t, 4>); T1(boost::array<El, 3>); T1(boost::array<El, 0>); T1(boost::array<std::uint32_t, 0>);
  T1(digest<1>); T1(digest<8>); T1(digest<16>); T1(digest<20>); T1(digest<28>); T1(digest<32>); T1(digest<48>); T1(digest<64>);
#endif
#if PART & 16
  T1(std::pair<El, std::uint16_t>); T1(std::pair<unsigned char, std::uint32_t>); T1(std::pair<float, bool>); T1(std::pair<std::vector<El>, std::vector<std::uint16_t>>); T1(std::pair<std::uint16_t, std::uint16_t>); T1(std::tuple<>); T1(std::tuple<El>); T1(std::tuple<std::uint32_t, El, unsigned char>); T1(std::tuple<std::pair<El, std::uint16_t>, std::tuple<>, std::uint16_t>); T1(std::tuple<std::string, unsigned char, std::vector<El>>);
  T1(D0); T1(D1); T1(D2); T1(D3); T1(D4); T1(D5); T1(D6); T1(D7); T1(std::vector<D1>); T1(std::pair<D0, D0>); T1(R3); T1(EB);
#endif
#if PART & 32
  unord<Rec, default_flavor, El>("El"); unord<Rec, XF, std::uint32_t>("uint32"); unord<Rec, little_endian_flavor, std::uint64_t>("uint64"); unord<fnv1a_32, default_flavor, El>("El"); unord<fnv1a_64, big_endian_flavor, std::uint16_t>("uint16"); unord<sha1_160, default_flavor, std::string>("string"); unord<siphash_32, XF, int>("int"); unord<xxhash_64, little_endian_flavor, std::pair<El, std::uint16_t>>("pair");
  uset<Rec, default_flavor>(); uset<fnv1a_32, XF>(); uset<sha1_160, big_endian_flavor>();
#endif
#if PART & 64
  dig<1>(); dig<2>(); dig<7>(); dig<8>(); dig<16>(); dig<20>(); dig<28>(); dig<32>(); dig<48>(); dig<64>();
#endif
#if PART & 128
  irs<char>(); irs<signed char>(); irs<unsigned char>(); irs<short>(); irs<unsigned short>(); irs<int>(); irs<unsigned>(); irs<long>(); irs<unsigned long>(); irs<long long>(); irs<unsigned long long>(); irs<wchar_t>(); irs<char16_t>(); irs<char32_t>();
  ias<signed char>(); ias<unsigned char>(); ias<short>(); ias<unsigned short>(); ias<int>(); ias<unsigned>(); ias<long long>(); ias<unsigned long long>();
#endif
}
int main(int c, char** v){ double b = c > 1 ? std::atof(v[1]) : 5; if(c > 2) g ^= 0x9E3779B97F4A7C15ull * (std::strtoull(v[2], 0, 10) + 1); for(int i = 0; i < 20; ++i) rnd(); auto t0 = std::chrono::steady_clock::now(); std::uint64_t n = 0;
  do { once(); ++n; } while(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < b); (void)big; std::printf("OK %llu\n", static_cast<unsigned long long>(n)); }
'''

PARTS = {'C16': [1], 'C17': [2], 'C18': [4, 8], 'C19': [1, 2, 4, 8, 16, 32], 'C20': [32], 'C21': [16], 'C22': [128], 'C23': [64], 'C24': [1, 8, 4, 2]}
BUILDS = [('g++', ('-O1', '-g0', '-fsanitize=undefined', '-fno-sanitize-recover=all'), 'c++17'), ('clang++-18', ('-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'), 'c++14')]


def native(pid, part, budget, seed, which):
    cxx, fl, std = BUILDS[which]
    try:
        r, n = relfuzz.build_run('#define PART %d\n' % part + SRC, 'app_%s_%d_%d' % (pid, part, which), budget, seed, fl, cxx, std)
    except build.BuildError as e:
        return dict(deviation='does not compile: %s' % str(e)[-700:], compiler=cxx) if 'static assertion' in str(e) else None
    if r is not None:
        return dict(deviation=r, compiler='%s -std=%s %s' % (cxx, std, ' '.join(fl)), kind='bytes recorded against the documented message')
    return None


# ------------------------------------------------------------ constant evaluation
CE = r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/describe/class.hpp>
#include <array>
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
using namespace boost::hash2;
struct CRec { using result_type = std::uint64_t; unsigned char m[700]; std::size_t n;
  constexpr CRec(): m{}, n(0) {}
  constexpr void update(unsigned char const* p, std::size_t k){ for(std::size_t i = 0; i < k; ++i) m[n++] = p[i]; }
  void update(void const* p, std::size_t k){ update(static_cast<unsigned char const*>(p), k); }
  constexpr std::uint64_t result(){ std::uint64_t h = 1469598103934665603ull; for(std::size_t i = 0; i < n; ++i) h = (h ^ m[i]) * 1099511628211ull; m[n++] = 0xEE; return h; } };
static std::string hex(CRec const& h){ std::string s; char t[3]; for(std::size_t i = 0; i < h.n; ++i){ std::sprintf(t, "%02x", h.m[i]); s += t; } return s; }
static bool same(CRec const& a, CRec const& b){ if(a.n != b.n) return false; for(std::size_t i = 0; i < a.n; ++i) if(a.m[i] != b.m[i]) return false; return true; }
struct XF { using size_type = std::uint32_t; static constexpr auto byte_order = endian::big; };
enum class E2: short {}; enum class E1: unsigned char {};
struct DS { std::uint32_t a; std::uint16_t b; }; BOOST_DESCRIBE_STRUCT(DS, (), (a, b))
struct DE {}; BOOST_DESCRIBE_STRUCT(DE, (), ())
'''
CETYPES = [('bool', 1, 'b'), ('char', 8, 'i'), ('unsigned char', 8, 'u'), ('short', 16, 'i'), ('std::uint16_t', 16, 'u'), ('int', 32, 'i'), ('std::uint32_t', 32, 'u'), ('long long', 64, 'i'), ('std::uint64_t', 64, 'u'), ('char16_t', 16, 'u'),
           ('E2', 16, 'e'), ('E1', 8, 'e1'), ('float', 32, 'f'), ('double', 64, 'f'), ('DS', 0, 'ds')]


def lit(rng, t, w, k):
    r = rng.choice([0, 1, (1 << w) - 1 if w else 0, rng.getrandbits(w) if w else 0, rng.getrandbits(w) if w else 0])
    if k == 'b':
        return 'true' if r & 1 else 'false'
    if k == 'f':
        return rng.choice(['0.0', '-0.0', '1.0', '-1.5', '3.0e30', '1e-40', '%r' % rng.uniform(-1e6, 1e6)]) + ('f' if w == 32 else '')
    if k == 'ds':
        return 'DS{ %du, %d }' % (rng.getrandbits(32), rng.getrandbits(16))
    if k in 'ei' or k == 'e1':
        if k != 'e1' and r >> (w - 1):
            r -= 1 << w
        s = '(-9223372036854775807ll - 1)' if r == -(1 << 63) else '%dll' % r
        return 'static_cast<%s>(%s)' % (t, s)
    return 'static_cast<%s>(%dull)' % (t, r)


def ce_object(rng, i):
    F = rng.choice(['default_flavor', 'little_endian_flavor', 'big_endian_flavor', 'XF'])
    t, w, k = rng.choice(CETYPES)
    n = rng.choice([1, 2, 3, 7])
    v = lambda: lit(rng, t, w, k)
    vs = [v() for _ in range(n)]
    kind = rng.randrange(9)
    d = ''
    e = ''
    if kind == 0:
        d, e = 'constexpr %s a%d = %s;' % (t, i, vs[0]), 'hash_append(h, %s(), a%d);' % (F, i)
    elif kind == 1:
        d, e = 'constexpr %s a%d[%d] = { %s };' % (t, i, n, ', '.join(vs)), 'hash_append(h, %s(), a%d);' % (F, i)
    elif kind == 2:
        d, e = 'constexpr std::array<%s, %d> a%d = {{ %s }};' % (t, n, i, ', '.join(vs)), 'hash_append(h, %s(), a%d);' % (F, i)
    elif kind == 3:
        m = rng.randrange(n + 1)
        d, e = 'constexpr %s a%d[%d] = { %s };' % (t, i, n, ', '.join(vs)), '%s(h, %s(), a%d, a%d + %d);' % (rng.choice(['hash_append_range', 'hash_append_sized_range']), F, i, i, m)
    elif kind == 4:
        d, e = 'constexpr std::pair<%s, std::uint16_t> a%d = { %s, %d };' % (t, i, vs[0], rng.getrandbits(16)), 'hash_append(h, %s(), a%d);' % (F, i)
    elif kind == 5:
        d, e = 'constexpr std::tuple<%s, std::uint32_t, %s> a%d = { %s, %du, %s };' % (t, t, i, vs[0], rng.getrandbits(32), v()), 'hash_append(h, %s(), a%d);' % (F, i)
    elif kind == 6:
        d, e = 'constexpr char a%d[] = "%s";' % (i, ''.join(rng.choice('abcxyz09') for _ in range(rng.randrange(9)))), 'hash_append(h, %s(), std::string_view(a%d));' % (F, i)
    elif kind == 7:
        d, e = 'constexpr %s a%d[2][%d] = { { %s }, { %s } };' % (t, i, n, ', '.join(vs), ', '.join(v() for _ in range(n))), 'hash_append(h, %s(), a%d);' % (F, i)
    else:
        N = rng.choice([1, 8, 16, 20, 32, 64])
        b = [rng.getrandbits(8) for _ in range(N)]
        c = list(b)
        if rng.random() < .6:
            c[rng.randrange(N)] ^= 1 << rng.randrange(8)
        d = 'constexpr unsigned char x%d[] = { %s }; constexpr unsigned char y%d[] = { %s };' % (i, ', '.join(map(str, b)), i, ', '.join(map(str, c)))
        e = 'digest<%d> p(x%d), q(y%d); unsigned char r[3] = { static_cast<unsigned char>(p == q), static_cast<unsigned char>(p != q), 0 }; h.update(r, 3); hash_append(h, %s(), p);' % (N, i, i, F)
    return d + ' static constexpr CRec f%d(){ CRec h; %s return h; } constexpr CRec c%d = f%d();\n' % (i, e, i, i), d + ' ' + e


def ce_objects(budget, seed, which=0):
    rng = random.Random(seed * 7 + which)
    t0 = time.time()
    k = 0
    while time.time() - t0 < budget:
        k += 1
        cs = [ce_object(rng, i) for i in range(24)]
        src = CE + ''.join(c for c, d in cs) + 'int main(int, char**){\n' + ''.join('{ CRec (*volatile p)() = f%d; CRec r = p(); if(!same(r, c%d)){ std::printf("DEV %d %%s %%s\\n", hex(c%d).c_str(), hex(r).c_str()); return 3; } }\n' % (i, i, i, i) for i in range(24)) + 'std::printf("OK 24\\n"); }\n'
        cxx, fl = [('g++', ('-O0', '-fconstexpr-ops-limit=900000000')), ('clang++-18', ('-O0', '-fconstexpr-steps=900000000'))][(k + which) % 2]
        try:
            r, _ = relfuzz.build_run(src, 'ceo_%d_%d' % (which, k), 0, seed, fl, cxx)
        except build.BuildError as e:
            if 'constant' in str(e) or 'constexpr' in str(e):
                return dict(deviation='not usable in a constant expression: ' + str(e)[-900:], compiler=cxx, cases=[d for c, d in cs][:3])
            return None
        if r is not None:
            i = r.split()[0]
            what = cs[int(i)][1] if i.isdigit() else ''
            return dict(deviation='%s: message in a constant expression and at run time: %s' % (what, r), compiler=cxx)
    return None


# ------------------------------------------------------------ executing the IR on concrete values
def conc_units(fails, budget, seed):
    """the failed units again, on concrete values: the IR of the code is executed"""
    import append, jobs, unit
    t0 = time.time()
    k = 0
    todo = [(u['kind'], u['kw'], u['unit']) for r, u in fails if u.get('kind') in ('app_fixed', 'app_range', 'app_size', 'app_unord', 'integral', 'digest')]
    jk = {}
    for kind, kw, name in todo:
        jk.setdefault((kind, repr(sorted(kw.items()))), (kind, kw, set()))[2].add(name)
    try:
        while time.time() - t0 < budget and jk and k < 200:
            for kind, kw, names in list(jk.values())[:6]:
                if time.time() - t0 > budget:
                    break
                append.CONC[0] = append.Conc(seed * 1000 + k)
                keep = jobs.run_unit
                jobs.run_unit = lambda f, *a: keep(f, *a) if time.time() - t0 < budget else dict(unit='', failures=[])
                try:
                    us = jobs.dispatch(kind, kw)
                except Exception:
                    continue
                finally:
                    jobs.run_unit = keep
                for u in us:
                    for f in u['failures']:
                        if u['unit'] in names and 'vacuity' not in f['obligation'] and f['how'] == 'canonical':
                            return dict(deviation='%s, executed on concrete values: %s fails; values %s' % (u['unit'], f['obligation'], show_vals(append.CONC[0])), kind='LLVM IR of the code executed', detail=f.get('detail'))
            k += 1
    finally:
        append.CONC[0] = None
    return None


def show_vals(c):
    return ' '.join('%s=%d' % (n, t.a) for (w, n), t in sorted(c.vals.items(), key=lambda x: x[0][1]))[:1500] or 'seed %s' % c.salt


def focus(pid, fails, budget, seed):
    import search
    t0 = time.time()
    tasks = []
    for p in PARTS[pid]:
        for w in (0, 1):
            tasks.append(lambda p=p, w=w: native(pid, p, max(5, budget / 3), seed, w))
    r = search.par(tasks, budget)
    return r or conc_units(fails, max(15, budget - (time.time() - t0)), seed)
