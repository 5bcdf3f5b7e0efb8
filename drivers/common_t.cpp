// conformance driver: common types, narrowest types, wide ratios
#include "common.h"
#include <cassert>
#include <functional>
#include <cstdint>
#include <type_traits>
#include <estd/type_traits.h>
#include <estd/limits.h>
#include <estd/ratio.h>
#include <estd/chrono.h>

namespace {
struct A {}; struct B : A {}; struct S {}; struct T2 {}; struct L {}; struct K { operator int() const { return 0; } };
}
namespace estd {
template <> struct common_type<S, T2> { typedef L type; };
template <> struct common_type<T2, S> { typedef L type; };
}
namespace {
template <class... Ts> struct List {};
typedef List<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double,
    A*, B*, const A*, void*, const void*, int*, A, B, S, T2, L, std::nullptr_t, K> All;
const char* names[] = {"bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "float", "double", "ldouble",
    "pA", "pB", "cpA", "pv", "cpv", "pi", "A", "B", "S", "T2", "L", "null", "K"};
const int count = sizeof(names) / sizeof(*names);
int idx(const std::string& n) { for (int i = 0; i < count; i++) if (n == names[i]) return i; return -1; }
template <class T, class... Ts> int where(List<Ts...>) { int r = -1, i = 0; ((std::is_same<T, Ts>::value ? r = i : 0, i++), ...); return r; }
template <class T> std::string nm() { int i = where<T>(All()); return i < 0 ? "other" : names[i]; }
template <int F, class T> struct Form { typedef T type; };
template <class T> struct Form<1, T> { typedef const T& type; };
template <class T> struct Form<2, T> { typedef T& type; };
template <class T> struct Form<3, T> { typedef T&& type; };
template <class T> struct Form<4, T> { typedef const T type; };
template <class V, class... Ts> struct Ct { static std::string get() { return "none"; } };
template <class... Ts> struct Ct<std::void_t<typename estd::common_type<Ts...>::type>, Ts...> { static std::string get() { return nm<typename estd::common_type<Ts...>::type>(); } };
template <class... Ts> std::string ct() { return Ct<void, Ts...>::get(); }
typedef std::string (*Fn)();
Fn two[5][count][count], one[5][count], arr[count];
template <int F, class X, class... Ys> void row(int i, List<Ys...>) { int j = 0; ((two[F][i][j++] = &ct<typename Form<(F + 2) % 5, X>::type, typename Form<F, Ys>::type>), ...); one[F][i] = &ct<typename Form<F, X>::type>; }
template <int F, class... Xs> void rows(List<Xs...>) { int i = 0; (row<F, Xs>(i++, All()), ...); }
template <class... Ts, class F> bool sel(List<Ts...>, const std::string& n, F f) { bool ok = false; ((nm<Ts>() == n ? (f((Ts*)nullptr), ok = true) : false), ...); return ok; }
typedef List<bool, short, unsigned, long long, float, A*> L1; typedef List<signed char, unsigned long, double, const A*, std::nullptr_t> L2; typedef List<int, B*, unsigned long long, void*> L3;
// narrowest
template <class T> J kind() { J r = J::arr(); if constexpr (std::is_void<T>::value) r.add(0).add(false); else r.add(int(sizeof(T) * 8)).add(bool(T(-1) < T(0))); return r; }
typedef List<int8_t, int16_t, int32_t, int64_t> Si; typedef List<uint8_t, uint16_t, uint32_t, uint64_t> Un;
template <class F> void integer(int w, bool s, F f) { auto one = [&](auto* p) { typedef std::remove_pointer_t<decltype(p)> T; if (int(sizeof(T) * 8) == w && (T(-1) < T(0)) == s) f(p); };
    one((int8_t*)0); one((int16_t*)0); one((int32_t*)0); one((int64_t*)0); one((uint8_t*)0); one((uint16_t*)0); one((uint32_t*)0); one((uint64_t*)0); }
// wide ratios
constexpr intmax_t pw(intmax_t b, int n) { return n ? b * pw(b, n - 1) : 1; }
template <int A_, int B_, int C_, int D_, int E_, int F_> struct Big { typedef estd::ratio<pw(2, A_) * pw(3, B_) * pw(5, C_), pw(2, D_) * pw(3, E_) * pw(5, F_)> type; static constexpr int x[2][3] = {{A_, B_, C_}, {D_, E_, F_}}; };
typedef List<Big<0, 0, 0, 0, 0, 0>, Big<12, 0, 12, 0, 0, 0>, Big<0, 0, 0, 12, 0, 12>, Big<9, 0, 9, 0, 0, 0>, Big<0, 0, 0, 9, 0, 9>, Big<6, 0, 6, 0, 7, 0>, Big<0, 13, 0, 20, 0, 0>, Big<31, 0, 0, 0, 0, 1>,
    Big<0, 0, 0, 40, 0, 0>, Big<0, 20, 0, 0, 0, 3>, Big<0, 0, 18, 3, 2, 0>, Big<4, 2, 2, 0, 0, 0>> Bigs;
constexpr bool fits(const int (&p)[3], const int (&q)[3]) { return (1000 * (p[0] + q[0]) + 1585 * (p[1] + q[1]) + 2322 * (p[2] + q[2])) / 1000 + 1 <= 62; }
J ex(intmax_t v) { J r = J::arr(); int b[] = {2, 3, 5}; for (int p : b) { int n = 0; while (v > 0 && v % p == 0) { v /= p; n++; } r.add(n); } if (v != 1) r.add((long long)v); return r; }
template <class R> J pr() { J r = J::arr(); r.add(ex(R::num)).add(ex(R::den)); return r; }
typedef std::function<bool(const std::string&, int, J&)> BigOp;
std::vector<std::pair<J, BigOp>> big;
template <class X, class... Ys> bool bigop(const std::string& o, int j, J& r, List<Ys...>)
{
    int k = 0; bool ok = false;
    auto one = [&](auto* q) {
        typedef std::remove_pointer_t<decltype(q)> Y; typedef typename X::type P; typedef typename Y::type Q;
        if (++k != j) return;
        if constexpr (fits(X::x[0], Y::x[0]) && fits(X::x[1], Y::x[1])) {
            if (o == "mul") { r = pr<estd::ratio_multiply<P, Q>>(); ok = true; }
            if (o == "period") {
                typedef estd::chrono::duration<int32_t, P> D1; typedef estd::chrono::duration<int32_t, Q> D2;
                r = pr<typename estd::common_type<D1, D2>::type::period>(); ok = true;
            }
        }
        if constexpr (fits(X::x[0], Y::x[1]) && fits(X::x[1], Y::x[0])) if (o == "div") { r = pr<estd::ratio_divide<P, Q>>(); ok = true; }
        if (o == "gcd") { r = ex(estd::internal::gcd<P::num, Q::num>::value); ok = true; }
        if constexpr (fits(X::x[0], Y::x[0])) if (o == "lcm") { r = ex(estd::internal::lcm<P::num, Q::num>::value); ok = true; }
    };
    (one((Ys*)nullptr), ...);
    return ok;
}
template <class... Xs> void fill(List<Xs...>) { (big.push_back({pr<typename Xs::type>(), [](const std::string& o, int j, J& r) { return bigop<Xs>(o, j, r, Bigs()); }}), ...); }
bool same(const J& p, const J& q) { for (int s = 0; s < 2; s++) for (int k = 0; k < 3; k++) if (p[s].n(k) != q[s].n(k)) return false; return true; }

struct Me : Obj
{
    std::string cur; int e;
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "fold" || o == "one")
        {
            int i = idx(cur), j = idx(a[0].s); unsigned f = a.n(1);
            if (i < 0 || j < 0 || f > 4) return false;
            r = J(o == "one" ? one[f][j]() : two[f][i][j]());
            if (o == "fold" && r.s != "none") cur = r.s;
            return true;
        }
        if (o == "three")
        {
            bool ok = false;
            sel(L1(), a[0].s, [&](auto* x) { sel(L2(), a[1].s, [&](auto* y) { sel(L3(), a[2].s, [&](auto* z) {
                r = J(ct<std::remove_pointer_t<decltype(x)>, std::remove_pointer_t<decltype(y)>, std::remove_pointer_t<decltype(z)>>()); ok = true; }); }); });
            return ok;
        }
        if (o == "narrow")
        {
            bool ok = false;
            integer(a.n(0), a[1].i, [&](auto* x) { integer(a.n(2), a[3].i, [&](auto* y) {
                typedef std::remove_pointer_t<decltype(x)> X; typedef std::remove_pointer_t<decltype(y)> Y; ok = true;
                r = a[4].i ? kind<typename estd::promoted_type<X, Y>::type>() : kind<typename estd::promoted_type<X, Y, false>::type>(); }); });
            return ok;
        }
        if (!big[e].second(o, a.n(0), r)) return false;
        if (o == "mul" || o == "div") for (int k = 0; k < (int)big.size(); k++) if (same(big[k].first, r)) e = k;
        return true;
    }
    J obs() override { J o = J::obj(); o.set("cur", J(cur)).set("ex", big[e].first); return o; }
};
}
Obj* make(const J& c)
{
    if (big.empty()) { fill(Bigs()); rows<0>(All()); rows<1>(All()); rows<2>(All()); rows<3>(All()); rows<4>(All()); }
    auto* o = new Me; o->cur = c[0].s; o->e = c.n(1) - 1; return o;
}
J end_report() { J r = J::arr(); r.add(0).add(0); return r; }
