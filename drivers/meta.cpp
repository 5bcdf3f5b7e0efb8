// conformance driver: computations with compile-time values
#include "common.h"
#include <cassert>
#include <map>
#include <functional>
#include <cstdint>
#include <limits>
#include <estd/type_traits.h>
#include <estd/limits.h>
#include <estd/ratio.h>

namespace {
struct Ra { intmax_t n, d; std::function<bool(const std::string&, int, J&)> op; };
std::vector<Ra> tab;
template <class R> J pr() { J r = J::arr(); r.add((long long)R::num).add((long long)R::den); return r; }
template <class... Rs> struct List {};
typedef List<estd::ratio<1>, estd::milli, estd::centi, estd::ratio<1, 60>, estd::deci, estd::ratio<1, 4>, estd::ratio<1, 3>, estd::ratio<1, 2>, estd::ratio<2, 3>, estd::ratio<3, 4>,
    estd::ratio<3, 2>, estd::ratio<2>, estd::ratio<3>, estd::deca, estd::ratio<60>, estd::ratio<100>, estd::ratio<125, 9>, estd::kilo, estd::ratio<3600>, estd::ratio<0>, estd::ratio<-1, 2>, estd::ratio<-3>> All;
template <class A, class B> bool divide(J& r, std::true_type) { r = pr<estd::ratio_divide<A, B>>(); return true; }
template <class A, class B> bool divide(J&, std::false_type) { return false; }
template <class A, class... Bs> bool pick(const std::string& o, int j, J& r, List<Bs...>)
{
    int k = 0; bool ok = false;
    auto one = [&](auto* b) {
        typedef std::remove_pointer_t<decltype(b)> B;
        if (++k != j) return;
        ok = true;
        if (o == "mul") r = pr<estd::ratio_multiply<A, B>>();
        else if (o == "add") r = pr<estd::ratio_add<A, B>>();
        else ok = divide<A, B>(r, std::integral_constant<bool, (B::num > 0)>());
    };
    (one((Bs*)nullptr), ...);
    return ok;
}
template <class... As> void fill(List<As...>)
{
    auto one = [](auto* a) { typedef std::remove_pointer_t<decltype(a)> A; tab.push_back({A::num, A::den, [](const std::string& o, int j, J& r) { return pick<A>(o, j, r, All()); }}); };
    (one((As*)nullptr), ...);
}
template <class T> J lim()
{
    typedef estd::numeric_limits<T> N; typedef std::numeric_limits<T> S;
    J f = J::arr();
    auto fit = [&](unsigned b, unsigned len) { unsigned need = 0; unsigned long long m = (unsigned long long)S::max() + (S::is_signed ? 1 : 0); do { need++; m /= b; } while (m); if (S::is_signed) need++; f.add(len >= need && len <= need + 1); };
    fit(8, N::template length<8>::value); fit(10, N::template length<10>::value); fit(16, N::template length<16>::value);
    J o = J::obj();
    o.set("min", codes(std::to_string(N::min()))).set("max", codes(std::to_string(N::max()))).set("digits", (int)N::digits).set("digits10", (int)N::digits10).set("signed", bool(N::is_signed))
     .set("integer", bool(N::is_integer)).set("special", bool(N::is_specialized)).set("radix", (int)N::radix).set("bits", (int)N::bits).set("fits", f);
    return o;
}
struct A { int a; }; struct B : A {}; struct C : private A {}; struct V : virtual A {}; struct M : B, C {}; union U { int a; };
enum E { e0 }; enum class EC { e0 };
struct X { X(int) {} }; struct Y { explicit Y(int) {} }; struct K { operator int() const { return 0; } }; struct EK { explicit operator bool() const { return false; } };
template <class T> struct Tag { typedef T type; };
template <class F> bool cls(const std::string& n, F f)
{
    if (n == "A") f(Tag<A>()); else if (n == "B") f(Tag<B>()); else if (n == "C") f(Tag<C>()); else if (n == "V") f(Tag<V>()); else if (n == "M") f(Tag<M>());
    else if (n == "cA") f(Tag<const A>()); else if (n == "vA") f(Tag<volatile A>()); else if (n == "vB") f(Tag<volatile B>()); else if (n == "cvM") f(Tag<const volatile M>()); else if (n == "U") f(Tag<U>()); else if (n == "int") f(Tag<int>()); else return false;
    return true;
}
template <class F> bool ty(const std::string& n, F f)
{
#define T(s, t) if (n == s) { f(Tag<t>()); return true; }
    T("int", int) T("double", double) T("bool", bool) T("pA", A*) T("pB", B*) T("pC", C*) T("cpA", const A*) T("pi", int*) T("pv", void*) T("cpv", const void*) T("A", A) T("rA", A&) T("crA", const A&) T("rrA", A&&)
    T("void", void) T("cvoid", const void) T("vvoid", volatile void) T("arr", int[2]) T("E", E) T("EC", EC) T("X", X) T("Y", Y) T("K", K) T("EK", EK) T("B", B) T("C", C) T("null", std::nullptr_t)
#undef T
    return false;
}
template <int I, bool V_> struct Cond : estd::bool_constant<V_> { static constexpr int id = I; };
template <class T> auto id(int) -> decltype(T::id) { return T::id; }
template <class T> int id(...) { return 0; }
template <class T> J which() { J r = J::arr(); r.add(bool(T::value)).add(id<T>(0)); return r; }
template <class... Cs> J cond(const J& s, bool all) { return all ? which<estd::conjunction<Cs...>>() : which<estd::disjunction<Cs...>>(); }
J conds(const J& s, bool all)
{
    int n = s.size(); bool a = n > 0 && s.n(0), b = n > 1 && s.n(1), c = n > 2 && s.n(2);
    auto w = [&](auto x) { typedef decltype(x) P; if (n == 1) return cond<Cond<1, P::value>>(s, all);
        auto w2 = [&](auto y) { typedef decltype(y) Q; if (n == 2) return cond<Cond<1, P::value>, Cond<2, Q::value>>(s, all);
            return c ? cond<Cond<1, P::value>, Cond<2, Q::value>, Cond<3, true>>(s, all) : cond<Cond<1, P::value>, Cond<2, Q::value>, Cond<3, false>>(s, all); };
        return b ? w2(std::true_type()) : w2(std::false_type()); };
    if (!n) return cond<>(s, all);
    return a ? w(std::true_type()) : w(std::false_type());
}
template <unsigned N, unsigned Al> J sto() { typedef typename estd::aligned_storage<N, Al>::type S; J r = J::arr(); r.add((int)sizeof(S)).add((int)estd::alignment_of<S>::value); return r; }
template <unsigned N> J sto1(int a) { return a == 1 ? sto<N, 1>() : a == 2 ? sto<N, 2>() : a == 4 ? sto<N, 4>() : a == 8 ? sto<N, 8>() : sto<N, 16>(); }
template <bool B_, class = void> struct En { static constexpr bool value = false; };
template <bool B_> struct En<B_, estd::enable_if_t<B_>> { static constexpr bool value = true; };
template <bool B_> J cnd() { J r = J::arr(); r.add(bool(std::is_same<estd::conditional_t<B_, int, char>, int>::value)).add(bool(En<B_>::value)).add(estd::bool_constant<B_>()() && (bool)estd::bool_constant<B_>{}); return r; }

struct Me : Obj
{
    int i = 1;
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "mul" || o == "div" || o == "add")
        {
            if (!tab[i - 1].op(o, a.n(0), r)) return false;
            for (int j = 0; j < (int)tab.size(); j++) if (tab[j].n == r.n(0) && tab[j].d == r.n(1)) i = j + 1;
            return true;
        }
        if (o == "reduce")
        {
#define T(p, q) if (a.n(0) == p && a.n(1) == q) { r = pr<typename estd::ratio<p, q>::type>(); return true; }
            T(2, 4) T(6, 3) T(0, 5) T(7, 7) T(1000000, 1000) T(60, 3600) T(1, 1) T(-2, 4) T(-9, 3) T(-1, 2)
#undef T
            return false;
        }
        if (o == "limits")
        {
            const std::string& t = a[0].s;
#define T(s, t_) if (t == s) { r = lim<t_>(); return true; }
            T("schar", signed char) T("uchar", unsigned char) T("short", short) T("ushort", unsigned short) T("int", int) T("uint", unsigned) T("long", long) T("ulong", unsigned long) T("llong", long long) T("ullong", unsigned long long)
#undef T
            return false;
        }
        if (o == "base") return cls(a[0].s, [&](auto x) { cls(a[1].s, [&](auto y) { r = bool(estd::is_base_of<typename decltype(x)::type, typename decltype(y)::type>::value); }); });
        if (o == "conv") return ty(a[0].s, [&](auto x) { ty(a[1].s, [&](auto y) { r = bool(estd::is_convertible<typename decltype(x)::type, typename decltype(y)::type>::value); }); });
        if (o == "all" || o == "some") { r = conds(a[0], o == "all"); return true; }
        if (o == "store")
        {
            int n = a.n(0), m = a.n(1);
            switch (n) { case 1: r = sto1<1>(m); break; case 2: r = sto1<2>(m); break; case 3: r = sto1<3>(m); break; case 4: r = sto1<4>(m); break; case 5: r = sto1<5>(m); break;
                case 6: r = sto1<6>(m); break; case 7: r = sto1<7>(m); break; case 8: r = sto1<8>(m); break; case 9: r = sto1<9>(m); break; default: return false; }
            return true;
        }
        if (o == "cond") { r = a[0].i ? cnd<true>() : cnd<false>(); return true; }
        return false;
    }
    J obs() override { J q = J::arr(); q.add((long long)tab[i - 1].n).add((long long)tab[i - 1].d); J o = J::obj(); o.set("r", q); return o; }
};
}
Obj* make(const J& c) { if (tab.empty()) fill(All()); auto* o = new Me; o->i = (int)c.i; return o; }
J end_report() { J r = J::arr(); r.add(0).add(0); return r; }
