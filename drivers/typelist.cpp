#include "common.h"
#include <cassert>
#include <estd/tuple.h>
#include <estd/internal/variadic.h>
#ifndef MAXLEN
#define MAXLEN 4
#endif

namespace {
using namespace estd;
struct E { E() {} };        // empty, not trivial
constexpr int code(type_identity<char>) { return 1; }
constexpr int code(type_identity<int>) { return 2; }
constexpr int code(type_identity<E>) { return 3; }
template <class T> constexpr int cd() { return code(type_identity<T>{}); }
template <class... T> J codesOf(variadic::types<T...>) { J j = J::arr(); int v[] = {cd<T>()..., 0}; for (size_t i = 0; i < sizeof...(T); i++) j.add(v[i]); return j; }
template <class T, T... V> J valsOf(variadic::values<T, V...>) { J j = J::arr(); int v[] = {(int)V..., 0}; for (size_t i = 0; i < sizeof...(V); i++) j.add(v[i]); return j; }
template <size_t... I, class... T> void idxOf(J& j, variadic::types<variadic::visitor_index<I, T>...>) { int v[] = {(int)I..., 0}, c[] = {cd<T>()..., 0}; for (size_t i = 0; i < sizeof...(I); i++) { J e = J::arr(); e.add(v[i]); e.add(c[i]); j.add(e); } }
struct EvenSel { template <class, size_t I> using evaluator = bool_constant<I % 2 == 0>; };
struct Vis
{
    J* l; int stop;
    template <size_t I, class T> bool operator()(variadic::type<I, T> t, int& extra) const { l->add("lvalue"); return (*this)(t, std::move(extra)); }
    template <size_t I, class T> bool operator()(variadic::type<I, T>, int&& extra) const { if (extra != 77) l->add("extra"); J e = J::arr(); e.add((int)I); e.add(cd<T>()); l->add(e); return (int)I == stop; }
};
struct VVis
{
    J* l; int stop;
    template <size_t I, class T, T v> bool operator()(variadic::v1::visitor_value<I, T, v> t, int& extra) const { l->add("lvalue"); return (*this)(t, std::move(extra)); }
    template <size_t I, class T, T v> bool operator()(variadic::v1::visitor_value<I, T, v>, int&& extra) const { if (extra != 77) l->add("extra"); J e = J::arr(); e.add((int)I); e.add((int)v); l->add(e); return (int)I == stop; }
};
typedef void (*Fn)(const std::string&, const J&, J&, J&);
// answers about one list: op "obs" fills the observation, prepend and append give the new list
template <class L, int N> struct Q;
template <class... T, int N> struct Q<variadic::types<T...>, N>
{
    typedef variadic::types<T...> L;
    template <class X> static void where(J& r)
    {
        typedef typename L::template selector<internal::is_same_selector<X>> S;
        r = J::arr(); J idx = valsOf(typename S::indices{}); r.add(idx); r.add(codesOf(typename S::types{})); r.add(internal::contains_type<X, T...>::value);
        bool all = all_(static_cast<S*>(nullptr), 0); r.add(all);
        typedef internal::first_index_of_type<X, T...> FI; r.add((int)internal::detail_get_index_of_type<X, T...>::value); r.add(fst<FI, internal::contains_type<X, T...>::value>());
        // the same through the other ways to ask
        J sel = J::arr(), want = J::arr(); idxOf(sel, typename S::selected{}); for (auto& i : idx.a) { J e = J::arr(); e.add(i); e.add(cd<X>()); want.add(e); }
        std::string a, b; sel.write(a); want.write(b); if (a != b) r.add(sel);
        a.clear(); b.clear(); codesOf(typename L::template where<internal::is_same_selector<X>>{}).write(a); r[1].write(b); if (a != b) r.add("where");
        a.clear(); codesOf(typename S::projected{}).write(a); if (a != b) r.add("projected");
        if (internal::are_same<X, T...>::value != (all || N == 0)) r.add("are_same");
        if (internal::select_type<X, T...>::size() != idx.size()) r.add("select_type");
    }
    template <class S> static auto all_(S*, int) -> decltype((bool)S::all) { return S::all; }
    static bool all_(void*, long) { return true; }
    template <class FI, bool c> static auto fst() -> typename std::enable_if<c, int>::type { return FI::index; }
    template <class FI, bool c> static auto fst() -> typename std::enable_if<!c, int>::type { return -1; }
    template <size_t I> static int at(std::true_type) { return cd<internal::type_at_index<I, T...>>() == cd<typename L::template get<I>>() ? cd<typename L::template get<I>>() : -1; }
    template <size_t I> static int at(std::false_type) { return 0; }
    template <class X, bool more> static auto pre(J& n) -> typename std::enable_if<more>::type { n = codesOf(typename L::template prepend<X>{}); }
    template <class X, bool more> static auto pre(J&) -> typename std::enable_if<!more>::type {}
    template <class X, bool more> static auto app(J& n) -> typename std::enable_if<more>::type { n = codesOf(typename L::template append<X>{}); }
    template <class X, bool more> static auto app(J&) -> typename std::enable_if<!more>::type {}
    template <class M> static auto ends(J& o, M*) -> typename std::enable_if<(M::size() > 0)>::type { o.set("f", cd<typename M::first>()).set("b", cd<typename M::last>()); }
    static void ends(J& o, variadic::types<>*) { o.set("f", 0).set("b", 0); }
    template <class M> static auto single(M*, int) -> decltype(cd<typename M::single>()) { return cd<typename M::single>(); }
    static int single(void*, long) { return 0; }
    template <class M> static auto large(M*, J& r) -> typename std::enable_if<(M::size() > 0)>::type { r = cd<typename internal::largest_type<T...>::type>(); }
    static void large(variadic::types<>*, J&) {}
    static void run(const std::string& o, const J& a, J& r, J& n)
    {
        L* l = nullptr;
        if (o == "obs") { r.set("l", codesOf(L{})).set("n", (int)L::size()).set("e", L::empty()); ends(r, l); r.set("one", single(l, 0)); return; }
        if (o == "prepend") switch (a.n(0)) { case 1: pre<char, (N < MAXLEN)>(n); return; case 2: pre<int, (N < MAXLEN)>(n); return; default: pre<E, (N < MAXLEN)>(n); return; }
        if (o == "append") switch (a.n(0)) { case 1: app<char, (N < MAXLEN)>(n); return; case 2: app<int, (N < MAXLEN)>(n); return; default: app<E, (N < MAXLEN)>(n); return; }
        if (o == "where") switch (a.n(0)) { case 1: where<char>(r); return; case 2: where<int>(r); return; default: where<E>(r); return; }
        if (o == "at") switch (a.n(0)) { case 0: r = at<0>(std::integral_constant<bool, (N > 0)>()); return; case 1: r = at<1>(std::integral_constant<bool, (N > 1)>()); return; case 2: r = at<2>(std::integral_constant<bool, (N > 2)>()); return; case 3: r = at<3>(std::integral_constant<bool, (N > 3)>()); return; case 4: r = at<4>(std::integral_constant<bool, (N > 4)>()); return; case 5: r = at<5>(std::integral_constant<bool, (N > 5)>()); return; case 6: r = at<6>(std::integral_constant<bool, (N > 6)>()); return; default: r = 0; return; }
        if (o == "visit")
        {
            J v = J::arr(); Vis f{&v, a.n(1)}; int w; typedef typename L::visitor V;
            if (a[0].s == "visit") w = V::visit(f, 77); else if (a[0].s == "reverse") w = V::visit_reverse(f, 77); else w = estd::experimental::forward_invoker<T...>{}.invoke(f, 77);
            r = J::arr(); r.add(v); r.add(w); return;
        }
        if (o == "even") { typedef typename L::template selector<EvenSel> S; r = J::arr(); r.add(valsOf(typename S::indices{})); r.add(codesOf(typename S::types{})); return; }
        if (o == "largest") { large(l, r); return; }
        if (o == "trivial") { r = internal::are_trivial<T...>::value; return; }
        r = "?";
    }
};
template <int... V, int N> struct Q<variadic::values<int, V...>, N>
{
    typedef variadic::values<int, V...> L;
    template <int v> static void where(J& r) { r = J::arr(); r.add(valsOf(typename L::template where<internal::is_same_value_selector<int, v>>{})); r.add(L::template contains<v>()); }
    template <size_t I> static int at(std::true_type) { return L::template get<I>::value; }
    template <size_t I> static int at(std::false_type) { return 0; }
    template <int x, bool more> static auto pre(J& n) -> typename std::enable_if<more>::type { n = valsOf(typename L::template prepend<x>{}); }
    template <int x, bool more> static auto pre(J&) -> typename std::enable_if<!more>::type {}
    template <int x, bool more> static auto app(J& n) -> typename std::enable_if<more>::type { n = valsOf(typename L::template append<x>{}); }
    template <int x, bool more> static auto app(J&) -> typename std::enable_if<!more>::type {}
    template <class M> static auto first(M*) -> typename std::enable_if<(M::size() > 0), int>::type { return M::first(); }
    static int first(variadic::values<int>*) { return 0; }
    template <class M> static auto single(M*, int) -> decltype(M::single()) { return M::single(); }
    static int single(void*, long) { return 0; }
    static void run(const std::string& o, const J& a, J& r, J& n)
    {
        L* l = nullptr;
        if (o == "obs") { r.set("l", valsOf(L{})).set("n", (int)L::size()).set("e", false).set("f", first(l)).set("b", 0).set("one", single(l, 0)); return; }
        if (o == "prepend") switch (a.n(0)) { case 1: pre<1, (N < MAXLEN)>(n); return; case 2: pre<2, (N < MAXLEN)>(n); return; default: pre<3, (N < MAXLEN)>(n); return; }
        if (o == "append") switch (a.n(0)) { case 1: app<1, (N < MAXLEN)>(n); return; case 2: app<2, (N < MAXLEN)>(n); return; default: app<3, (N < MAXLEN)>(n); return; }
        if (o == "where") switch (a.n(0)) { case 1: where<1>(r); return; case 2: where<2>(r); return; default: where<3>(r); return; }
        if (o == "at") switch (a.n(0)) { case 0: r = at<0>(std::integral_constant<bool, (N > 0)>()); return; case 1: r = at<1>(std::integral_constant<bool, (N > 1)>()); return; case 2: r = at<2>(std::integral_constant<bool, (N > 2)>()); return; case 3: r = at<3>(std::integral_constant<bool, (N > 3)>()); return; case 4: r = at<4>(std::integral_constant<bool, (N > 4)>()); return; case 5: r = at<5>(std::integral_constant<bool, (N > 5)>()); return; case 6: r = at<6>(std::integral_constant<bool, (N > 6)>()); return; default: r = 0; return; }
        if (o == "visit") { J v = J::arr(); VVis f{&v, a.n(1)}; int w = L::visit(f, 77); int first = (int)v.size(); int w2 = L::visitor::visit(f, 77); v.a.resize(first); r = J::arr(); r.add(v); r.add(w == w2 ? w : -2); return; }
        if (o == "among") { typedef variadic::values<int, 1, 3> A; typedef variadic::values<int, 2, 3> B; if (a[0].n(0) == 1) r = valsOf(typename L::template where<internal::is_same_values_selector<A>>{}); else r = valsOf(typename L::template where<internal::is_same_values_selector<B>>{}); return; }
        if (o == "iota") switch (a.n(0)) { case 0: r = valsOf(make_index_sequence<0>{}); return; case 1: r = valsOf(make_index_sequence<1>{}); return; case 2: r = valsOf(make_index_sequence<2>{}); return; case 3: r = valsOf(make_index_sequence<3>{}); return; case 4: r = valsOf(make_index_sequence<4>{}); return; case 5: r = valsOf(make_index_sequence<5>{}); return; case 6: r = valsOf(make_index_sequence<6>{}); return; case 7: r = valsOf(make_index_sequence<7>{}); return; case 8: r = valsOf(make_index_sequence<8>{}); return; default: r = valsOf(make_index_sequence<9>{}); return; }
        if (o == "reverse") { r = valsOf(typename internal::indices_reverser<V...>::reversed{}); return; }
        r = "?";
    }
};
// the list named at run time
template <class L, int N, bool deeper = (N < MAXLEN)> struct Find
{
    static Fn at(const J& l, size_t i)
    {
        if (i == l.size()) return Q<L, N>::run;
        switch (l.n(i)) { case 1: return next<1>(l, i, static_cast<L*>(nullptr)); case 2: return next<2>(l, i, static_cast<L*>(nullptr)); default: return next<3>(l, i, static_cast<L*>(nullptr)); }
    }
    template <int c, class... T> static Fn next(const J& l, size_t i, variadic::types<T...>*)
    { typedef typename std::conditional<c == 1, char, typename std::conditional<c == 2, int, E>::type>::type X; return Find<variadic::types<T..., X>, N + 1>::at(l, i + 1); }
    template <int c, int... V> static Fn next(const J& l, size_t i, variadic::values<int, V...>*) { return Find<variadic::values<int, V..., c>, N + 1>::at(l, i + 1); }
};
template <class L, int N> struct Find<L, N, false> { static Fn at(const J& l, size_t i) { return i == l.size() ? (Fn)Q<L, N>::run : nullptr; } };
// longer lists, which are only asked about
template <int c> using Ty = typename std::conditional<c == 1, char, typename std::conditional<c == 2, int, E>::type>::type;
template <int... c> struct Lg
{
    static bool is(const J& l) { std::vector<int> v = l.ints(), w{c...}; return v == w; }
    static Fn fn(bool types) { return types ? (Fn)Q<variadic::types<Ty<c>...>, sizeof...(c)>::run : (Fn)Q<variadic::values<int, c...>, sizeof...(c)>::run; }
};
template <class... Ls> Fn longer(const J& l, bool types) { Fn f = nullptr; ((Ls::is(l) ? f = Ls::fn(types) : f), ...); return f; }
struct O : Obj
{
    bool types; J l = J::arr();
    Fn fn() { if (l.size() > MAXLEN) return longer<Lg<2, 1, 2, 2, 3, 2, 1>, Lg<1, 1, 1, 1, 1, 1>, Lg<3, 2, 2, 2, 2, 2, 2>, Lg<2, 2, 2, 2, 2, 3>, Lg<1, 3, 1, 2, 1>, Lg<2, 2, 2, 2, 2>, Lg<1, 2, 2, 2, 1, 3, 3>>(l, types);
        return types ? Find<variadic::types<>, 0>::at(l, 0) : Find<variadic::values<int>, 0>::at(l, 0); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; if ((o == "prepend" || o == "append") && l.size() >= MAXLEN) return false;
        if (o == "largest" && (!types || !l.size())) return false;
        J n = l; fn()(o, a, r, n); l = n; return true;
    }
    J obs() override { J r = J::obj(), n; fn()("obs", J(), r, n); return r; }
};
}
Obj* make(const J& c) { auto* o = new O; o->types = c[0].s == "types"; o->l = c[1]; return o; }
J end_report() { return 0; }
