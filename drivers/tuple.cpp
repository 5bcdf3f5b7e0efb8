#include "common.h"
#include <cassert>
#include <estd/tuple.h>
#include <estd/utility.h>
#include <estd/internal/variadic.h>

namespace {
struct E1 { E1() = default; E1(int) {} operator int() const { return 0; } };
struct E2 { E2() = default; E2(int) {} operator int() const { return 0; } };
typedef estd::tuple<int, int, int> Tiii;
typedef estd::tuple<int, short, long> Tisl;
typedef estd::tuple<Tr, E1, Tr> Ttet;
typedef estd::tuple<E1, int, E2> Teie;
typedef estd::tuple<estd::tuple<int, short>, int> Tnst;
typedef estd::tuple<int&, long, int&> Tref;
typedef estd::pair<int, int> Pii;
typedef estd::pair<Tr, short> Pts;
int X1, X2;

int num(const Tr& t) { t.chk(); return t.v; }
int num(const E1&) { return 0; }
int num(const E2&) { return 0; }
template <class V> int num(const V& v) { return (int)v; }
void add(Tr& t, int d) { t.chk(); t.v += d; }
void add(E1&, int) {}
void add(E2&, int) {}
template <class V> void add(V& v, int d) { v += d; }

// plain three-element tuples
template <class Tp> J rd(const Tp& t) { J j = J::arr(); j.add(num(estd::get<0>(t))); j.add(num(estd::get<1>(t))); j.add(num(estd::get<2>(t))); return j; }
J rd(const Tnst& t) { J j = J::arr(); j.add(num(estd::get<0>(estd::get<0>(t)))); j.add(num(estd::get<1>(estd::get<0>(t)))); j.add(num(estd::get<1>(t))); return j; }
template <class A, class B> J rd(const estd::pair<A, B>& t) { J j = J::arr(); j.add(num(estd::get<0>(t))); j.add(num(estd::get<1>(t))); if (num(t.first) != j[0].i || num(t.second) != j[1].i) j.add(-1); return j; }
J three(int x, int y, int z) { J j = J::arr(); j.add(x); j.add(y); j.add(z); return j; }

template <int I, class Tp> using El = typename estd::tuple_element<I, Tp>::type;

template <class V> void put(V& x, int v) { x = V(v); }
void put(const E1&, int) {}
void put(const E2&, int) {}
struct S3
{
    J j;
    template <class A, class B, class C> S3(A&& x, B&& y, C&& z)
    {
        A p(std::forward<A>(x)); B q(std::forward<B>(y)); C r(std::forward<C>(z));    // takes what it is given as rvalues
        j = three(num(p), num(q), num(r));
    }
};
struct V
{
    J* l; int stop, d;
    template <size_t I, class X> bool operator()(estd::variadic::instance<I, X> i, int extra) const
    {
        if (extra != 77) { l->add("extra"); return true; }
        J e = J::arr(); e.add((int)I); e.add(num(i.value)); l->add(e); go(i.value, d);
        return (int)I == stop;
    }
    template <class X> static void go(X& v, int d) { add(v, d); }
    template <class X> static void go(const X&, int) {}
};
struct CV
{
    J* l; int stop;
    template <size_t I, class X> bool operator()(estd::variadic::instance<I, X> i) const
    { J e = J::arr(); e.add((int)I); e.add(num(i.value)); l->add(e); return (int)I == stop; }
};
template <class Tp, bool ok = true> struct Get
{
    template <int I> static void s(Tp& t, int v) { put(estd::get<I>(t), v); }
    static bool set(Tp& t, int i, int v) { switch (i) { case 1: s<0>(t, v); break; case 2: s<1>(t, v); break; case 3: s<2>(t, v); break; default: return false; } return true; }
};
bool sett(Tisl& t, int i, int v) { switch (i) { case 1: estd::get<int>(t) = v; return true; case 2: estd::get<short>(t) = v; return true; case 3: estd::get<long>(t) = v; return true; } return false; }
bool sett(Teie& t, int i, int v) { if (i != 2) return false; estd::get<int>(t) = v; return true; }
template <class Tp> bool sett(Tp&, int, int) { return false; }
bool takeT(Tisl& t, int i, J& r)
{
    const Tisl& c = t;
    switch (i)
    {
        case 1: { int x = estd::get<int>(std::move(t)); r = x == estd::get<int>(c) ? x : -1; return true; }
        case 2: { short x = estd::get<short>(std::move(t)); r = x == estd::get<short>(c) ? (int)x : -1; return true; }
        case 3: { long x = estd::get<long>(std::move(t)); r = x == estd::get<long>(c) ? (int)x : -1; return true; }
    }
    return false;
}
bool takeT(Teie& t, int i, J& r) { if (i != 2) return false; int x = estd::get<int>(std::move(t)); r = x; return true; }
template <class Tp> bool takeT(Tp&, int, J&) { return false; }
template <class X> int grab(X&& x) { typename std::decay<X>::type y(std::forward<X>(x)); return num(y); }
// the element of an rvalue tuple: an rvalue of that element
template <int I, class Tp> int take(Tp& t) { return grab(estd::get<I>(std::move(t))); }
template <int I, class Tp> int ctake(const Tp& t) { return grab(estd::get<I>(std::move(t))); }

template <class Tp> struct Own
{
    alignas(Tp) char m[sizeof(Tp)];
    Tp& t() { return *reinterpret_cast<Tp*>(m); }
    template <class... A> void make(A&&... x) { t().~Tp(); new (m) Tp(std::forward<A>(x)...); }
    Own() { new (m) Tp(); }
    ~Own() { t().~Tp(); }
};
// what three constructor arguments look like per kind
template <class Tp> struct B3
{
    static bool mk(const std::string& f, Own<Tp>& o, const J& s)
    {
        if (f == "ctor") o.make(El<0, Tp>((int)s[0].i), El<1, Tp>((int)s[1].i), El<2, Tp>((int)s[2].i));
        else if (f == "make") o.make(estd::make_tuple(El<0, Tp>((int)s[0].i), El<1, Tp>((int)s[1].i), El<2, Tp>((int)s[2].i)));
        else return false;
        return true;
    }
    static bool gswap(Tp& a, Tp& b, int i)
    {
        switch (i) { case 1: estd::swap(estd::get<0>(a), estd::get<0>(b)); return true; case 2: return sw2(estd::get<1>(a), estd::get<1>(b)); case 3: estd::swap(estd::get<2>(a), estd::get<2>(b)); return true; }
        return false;
    }
    template <class X> static bool sw2(X& a, X& b) { estd::swap(a, b); return true; }
    static bool sw2(const E1&, const E1&) { return false; }
    static bool exch(Tp& t, int i, int v, J& r)
    {
        switch (i) { case 1: return ex(estd::get<0>(t), v, r); case 2: return ex(estd::get<1>(t), v, r); case 3: return ex(estd::get<2>(t), v, r); }
        return false;
    }
    template <class X> static bool ex(X& x, int v, J& r) { X n(v); X o = estd::exchange(x, std::move(n)); r = num(o); if (std::is_same<X, Tr>::value && num(n) == num(x) && v != -9) r = "copied"; return true; }
    static bool ex(const E1&, int, J&) { return false; }
    static bool ex(const E2&, int, J&) { return false; }
};
template <> bool B3<Teie>::gswap(Teie& a, Teie& b, int i) { if (i != 2) return false; estd::swap(estd::get<1>(a), estd::get<1>(b)); return true; }
template <> bool B3<Tnst>::gswap(Tnst&, Tnst&, int) { return false; }
template <> bool B3<Tnst>::mk(const std::string& f, Own<Tnst>& o, const J& s)
{
    typedef estd::tuple<int, short> In; In in((int)s[0].i, (short)s[1].i);
    if (f == "ctor") o.make(std::move(in), (int)s[2].i); else if (f == "make") o.make(estd::make_tuple(estd::make_tuple((int)s[0].i, (short)s[1].i), (int)s[2].i)); else return false;
    return true;
}
template <class Tp> struct Ops
{
    static bool set(Tp& t, int i, int v) { return Get<Tp>::set(t, i, v); }
    static bool take(Tp& a, int i, J& r) { switch (i) { case 1: r = ::take<0>(a); return true; case 2: r = ::take<1>(a); return true; case 3: r = ::take<2>(a); return true; } return false; }
    static bool ctake(Tp& a, int i, J& r) { switch (i) { case 1: r = ::ctake<0>(a); return true; case 2: r = ::ctake<1>(a); return true; case 3: r = ::ctake<2>(a); return true; } return false; }
    static bool exch(Tp& t, int i, int v, J& r) { return B3<Tp>::exch(t, i, v, r); }
    static J apply(Tp& t, int d)
    {
        return estd::apply([d](auto&& x, auto&& y, auto&& z) { J j = three(num(x), num(y), num(z)); add(x, d); add(y, d); add(z, d); return j; }, t);
    }
    static J capply(const Tp& t) { return estd::apply([](const auto& x, const auto& y, const auto& z) { return three(num(x), num(y), num(z)); }, t); }
    // by value: what is moved out of the tuple is here alone
    static J mapply(Tp& t) { return estd::apply([](auto x, auto y, auto z) { return three(num(x), num(y), num(z)); }, std::move(t)); }
    static J mft(Tp& t) { return estd::make_from_tuple<S3>(std::move(t)).j; }
    static J visit(Tp& t, int s, int d) { J l = J::arr(), r = J::arr(); int b = t.visit(V{&l, s, d}, 77); r.add(l); r.add(b); return r; }
    static J cvisit(const Tp& t, int s) { J l = J::arr(), r = J::arr(); int b = t.visit(CV{&l, s}); r.add(l); r.add(b); return r; }
};
template <> bool Ops<Tnst>::set(Tnst& t, int i, int v) { switch (i) { case 1: estd::get<0>(estd::get<0>(t)) = v; return true; case 2: estd::get<1>(estd::get<0>(t)) = v; return true; case 3: estd::get<1>(t) = v; return true; } return false; }
template <> bool Ops<Tnst>::take(Tnst& a, int i, J& r)
{
    switch (i) { case 1: r = grab(estd::get<0>(estd::get<0>(std::move(a)))); return true; case 2: r = grab(estd::get<1>(estd::get<0>(std::move(a)))); return true; case 3: r = grab(estd::get<1>(std::move(a))); return true; }
    return false;
}
template <> bool Ops<Tnst>::ctake(Tnst& t, int i, J& r) { const Tnst& a = t; switch (i) { case 1: r = grab(estd::get<0>(estd::get<0>(std::move(a)))); return true; case 2: r = grab(estd::get<1>(estd::get<0>(a))); return true; case 3: r = grab(estd::get<1>(std::move(a))); return true; } return false; }
template <> bool Ops<Tnst>::exch(Tnst& t, int i, int v, J& r)
{
    switch (i) { case 1: r = (int)estd::exchange(estd::get<0>(estd::get<0>(t)), v); return true; case 2: r = (int)estd::exchange(estd::get<1>(estd::get<0>(t)), (short)v); return true; case 3: r = (int)estd::exchange(estd::get<1>(t), v); return true; }
    return false;
}
template <> J Ops<Tnst>::apply(Tnst& t, int d) { return estd::apply([d](estd::tuple<int, short>& in, int& z) { J j = three(estd::get<0>(in), estd::get<1>(in), z); estd::apply([d](int& x, short& y) { x += d; y += d; }, in); z += d; return j; }, t); }
template <> J Ops<Tnst>::capply(const Tnst& t) { return estd::apply([](const estd::tuple<int, short>& in, const int& z) { return three(estd::get<0>(in), estd::get<1>(in), z); }, t); }
template <> J Ops<Tnst>::mapply(Tnst& t) { return estd::apply([](estd::tuple<int, short> in, int z) { return three(estd::get<0>(in), estd::get<1>(in), z); }, std::move(t)); }
struct S2 { J j; S2(estd::tuple<int, short>&& in, int&& z) : j(three(estd::get<0>(in), estd::get<1>(in), z)) {} };
template <> J Ops<Tnst>::mft(Tnst& t) { return estd::make_from_tuple<S2>(std::move(t)).j; }
template <> J Ops<Tref>::mft(Tref&) { return -1; }
struct NV
{
    J* l; int stop, d, at;
    template <class X> bool one(X& v, int extra) { if (extra != 77) l->add("extra"); J e = J::arr(); e.add(at); e.add((int)v); l->add(e); v += d; return at++ == stop; }
    bool operator()(estd::variadic::instance<0, int> i, int x) { return one(i.value, x); }
    bool operator()(estd::variadic::instance<1, short> i, int x) { return one(i.value, x); }
    bool operator()(estd::variadic::instance<0, estd::tuple<int, short>> i, int x) { return i->visit(*this, x) >= 0; }
    bool operator()(estd::variadic::instance<1, int> i, int x) { return one(i.value, x); }
};
template <> J Ops<Tnst>::visit(Tnst& t, int s, int d) { J l = J::arr(), r = J::arr(); NV v{&l, s, d, 0}; int b = t.visit(v, 77); r.add(l); r.add(b < 0 ? b : v.at - 1); return r; }
struct NCV
{
    J* l; int stop, at;
    bool one(int v) { J e = J::arr(); e.add(at); e.add(v); l->add(e); return at++ == stop; }
    template <size_t I> bool operator()(estd::variadic::instance<I, const int> i) { return one(i.value); }
    template <size_t I> bool operator()(estd::variadic::instance<I, const short> i) { return one(i.value); }
    template <size_t I> bool operator()(estd::variadic::instance<I, const estd::tuple<int, short>> i) { return i.value.visit(*this) >= 0; }
};
template <> J Ops<Tnst>::cvisit(const Tnst& t, int s) { J l = J::arr(), r = J::arr(); NCV v{&l, s, 0}; int b = t.visit(v); r.add(l); r.add(b < 0 ? b : v.at - 1); return r; }

template <class Tp> bool compact(const Tp&) { return true; }
bool compact(const Teie& t) { return sizeof(t) == sizeof(int); }
bool compact(const Tiii& t) { return sizeof(t) == 3 * sizeof(int); }

template <class Tp> struct TO : Obj
{
    Own<Tp> a, b; const char* kind;
    Tp& w(const J& x) { return x.s == "a" ? a.t() : b.t(); }
    template <class Q = Tp> auto sswap(int i, int j, int) -> typename std::enable_if<std::is_same<Q, Tiii>::value, bool>::type
    {
        Tp& t = a.t(); int* p[3] = {&estd::get<0>(t), &estd::get<1>(t), &estd::get<2>(t)}; estd::swap(*p[i - 1], *p[j - 1]); return true;
    }
    bool sswap(int, int, long) { return false; }
    bool op(const std::string& o, const J& x, J& r) override
    {
        r = 0; typedef Ops<Tp> O;
        if (o == "set") return O::set(w(x[0]), x.n(1), x.n(2));
        if (o == "sett") return sett(w(x[0]), x.n(1), x.n(2));
        if (o == "mk") return B3<Tp>::mk(x[0].s, x[1].s == "a" ? a : b, x[2]);
        if (o == "copy") { const Tp& c = a.t(); b.make(c); return true; }
        if (o == "move") { b.make(std::move(a.t())); return true; }
        if (o == "take") { if (x[0].s == "type") return takeT(a.t(), x.n(1), r); return O::take(a.t(), x.n(1), r); }
        if (o == "ctake") return O::ctake(a.t(), x.n(0), r);
        if (o == "apply") { r = O::apply(w(x[0]), x.n(1)); return true; }
        if (o == "capply") { r = O::capply(a.t()); return true; }
        if (o == "mapply") { r = O::mapply(a.t()); return true; }
        if (o == "mft") { if (std::is_same<Tp, Tref>::value) return false; r = O::mft(a.t()); return true; }
        if (o == "visit") { r = O::visit(w(x[0]), x.n(1), x.n(2)); return true; }
        if (o == "cvisit") { r = O::cvisit(a.t(), x.n(0)); return true; }
        if (o == "fwd")
        {
            int p = x[0].n(0); short q = x[0].n(1); long s = x[0].n(2); auto t = estd::forward_as_tuple(p, q, (const long&)s);
            J old = three(estd::get<0>(t), estd::get<1>(t), estd::get<2>(t)); int v = x.n(2);
            switch (x.n(1)) { case 1: estd::get<0>(t) = v; break; case 2: estd::get<1>(t) = v; break; default: s = v; }
            J now = three(p, q, estd::get<2>(t)); r = J::arr(); r.add(now); r.add(old); return true;
        }
        if (o == "exch") return O::exch(a.t(), x.n(0), x.n(1), r);
        if (o == "gswap") return B3<Tp>::gswap(a.t(), b.t(), x.n(0));
        if (o == "sswap") return sswap(x.n(0), x.n(1), 0);
        return false;
    }
    J obs() override
    {
        const Tp &ca = a.t(), &cb = b.t();
        int n = (int)estd::tuple_size<Tp>::value; if (std::is_same<Tp, Tnst>::value) n++;
        J e = J::arr(); if (std::is_same<Tp, Tref>::value) { e.add(X1); e.add(X2); }
        return J::obj().set("a", rd(ca)).set("b", rd(cb)).set("n", n).set("live", Tr::live).set("ext", e).set("small", compact(ca));
    }
};
template <> bool B3<Tref>::mk(const std::string&, Own<Tref>&, const J&) { return false; }
template <> bool B3<Tref>::gswap(Tref&, Tref&, int) { return false; }
template <> bool B3<Tref>::exch(Tref& t, int i, int v, J& r)
{
    switch (i) { case 1: r = estd::exchange(estd::get<0>(t), v); return true; case 2: r = (int)estd::exchange(estd::get<1>(t), (long)v); return true; case 3: r = estd::exchange(estd::get<2>(t), v); return true; }
    return false;
}
template <> Own<Tref>::Own() { X1 = X2 = 0; new (m) Tref(X1, 0L, X2); }
template <class P> struct PO : Obj
{
    typedef typename P::first_type F; typedef typename P::second_type S;
    Own<P> a, b;
    PO() { estd::get<0>(a.t()) = F(0); a.t().second = 0; estd::get<0>(b.t()) = F(0); b.t().second = 0; }
    P& w(const J& x) { return x.s == "a" ? a.t() : b.t(); }
    bool op(const std::string& o, const J& x, J& r) override
    {
        r = 0;
        if (o == "set") { P& p = w(x[0]); int v = x.n(2); if (x.n(1) == 1) { if (v & 1) p.first = F(v); else estd::get<0>(p) = F(v); } else { if (v & 1) p.second = S(v); else estd::get<1>(p) = S(v); } return true; }
        if (o == "mk")
        {
            Own<P>& p = x[1].s == "a" ? a : b; int u = x[2].n(0), v = x[2].n(1);
            if (x[0].s == "ctor") { const F f(u); const S s(v); p.make(f, s); }
            else if (x[0].s == "make") p.make(estd::make_pair(F(u), S(v)));
            else p.make(estd::piecewise_construct_t{}, estd::make_tuple((int)u), estd::make_tuple((short)v));
            return true;
        }
        if (o == "copy") { const P& c = a.t(); b.make(c); return true; }
        if (o == "assign") { b.t() = a.t(); return true; }
        if (o == "move") { b.make(std::move(a.t())); return true; }
        if (o == "swap") { static int k; if (k++ & 1) a.t().swap(b.t()); else estd::swap(a.t(), b.t()); return true; }
        if (o == "exch") { int v = x.n(1); if (x.n(0) == 1) r = num(estd::exchange(a.t().first, F(v))); else r = (int)estd::exchange(a.t().second, S(v)); return true; }
        if (o == "gswap") { if (x.n(0) == 1) estd::swap(a.t().first, b.t().first); else estd::swap(a.t().second, b.t().second); return true; }
        if (o == "cmp") { const P &p = a.t(), &q = b.t(); r = J::arr(); r.add(p == q); r.add(p != q); r.add(p < q); r.add(p > q); if ((q > p) != (p < q)) r.add(-1); return true; }
        return false;
    }
    J obs() override { const P &p = a.t(), &q = b.t(); return J::obj().set("a", rd(p)).set("b", rd(q)).set("n", (int)estd::tuple_size<P>::value).set("live", Tr::live).set("ext", J::arr()).set("small", true); }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "iii") { auto* p = new TO<Tiii>; p->a.make(0, 0, 0); p->b.make(0, 0, 0); return p; }
    if (k == "isl") { auto* p = new TO<Tisl>; p->a.make(0, short(0), 0L); p->b.make(0, short(0), 0L); return p; }
    if (k == "tet") return new TO<Ttet>;
    if (k == "eie") { auto* p = new TO<Teie>; p->a.make(E1(), 0, E2()); p->b.make(E1(), 0, E2()); return p; }
    if (k == "nst") { auto* p = new TO<Tnst>; p->a.make(estd::tuple<int, short>(0, 0), 0); p->b.make(estd::tuple<int, short>(0, 0), 0); return p; }
    if (k == "ref") return new TO<Tref>;
    if (k == "pii") return new PO<Pii>;
    if (k == "pts") return new PO<Pts>;
    return nullptr;
}
J end_report() { return Tr::live || Tr::errs ? Tr::live * 100 + Tr::errs : 0; }
