#include "common.h"
#include <cassert>
#include <estd/array.h>
#include <estd/span.h>

namespace {
typedef uint16_t U;
template <class V> J lst(const V& v, size_t n) { J j = J::arr(); for (size_t i = 0; i < n; i++) j.add((int)v[i]); return j; }
template <class It, class E> J rng(It a, E b) { J j = J::arr(); for (; a != b; ++a) j.add((int)(U)*a); return j; }

template <class T, int N> struct Sp : Obj
{
    U* raw; estd::span<T> s;
    typedef U Raw[N];
    Sp() : raw(new U[N]), s(raw, N) { for (int i = 0; i < N; i++) raw[i] = i + 1; }
    ~Sp() { delete[] raw; }
    template <unsigned K> bool tf() { if (K > s.size()) return false; auto f = s.template first<K>(); if (f.size() != K || (f.end() - f.begin()) != K || f.empty() != (K == 0)) return false; estd::span<T> t(f); s = t; return true; }
    static bool wr(estd::span<const U>&, int, int) { return false; }
    static bool wr(estd::span<U>& x, int i, int v) { switch (v % 3) { case 0: x[i] = v; break; case 1: x.begin()[i] = v; break; default: x.data()[i] = v; } return true; }
    static bool wrb(estd::span<const U>&, int, int) { return false; }
    static bool wrb(estd::span<U>& x, int i, int v) { auto y = estd::as_writable_bytes(x); y[i] = (estd::byte)v; return y.size() == x.size_bytes(); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; int n = (int)s.size();
        if (o == "first") { if (a.n(0) > n) return false; s = s.first(a.n(0)); }
        else if (o == "tfirst") switch (a.n(0)) { case 0: return tf<0>(); case 1: return tf<1>(); case 2: return tf<2>(); case 3: return tf<3>(); case 4: return tf<4>(); case 5: return tf<5>(); default: return false; }
        else if (o == "sub") { if (a.n(0) > n || a.n(1) > n - a.n(0)) return false; s = s.subspan(a.n(0), a.n(1)); }
        else if (o == "subd") { if (a.n(0) > n) return false; s = s.subspan(a.n(0)); }
        else if (o == "via")
        {
            const std::string& f = a[0].s; T* p = s.data();
            if (f == "copy") { estd::span<T> t(s); s.~span(); new (&s) estd::span<T>(t); }
            else if (f == "ptrs") { s.~span(); new (&s) estd::span<T>(p, p + n); }
            else if (f == "count") { s.~span(); new (&s) estd::span<T>(p, (size_t)n); }
            else { estd::span<T> t; if (!t.empty() || t.data()) r = "default span"; t = s; s = t; }
        }
        else if (o == "whole")
        {
            const std::string& f = a[0].s; T (&c)[N] = *(T (*)[N])raw;
            if (f == "array") { estd::span<T> t(c); s = t; }
            else if (f == "fixed")
            {
                estd::span<T, N> t(c); estd::span<T> u(t); auto by = estd::as_bytes(t);
                if (t.size() != N || t.size_bytes() != N * sizeof(U) || by.size() != N * sizeof(U) || (const void*)by.data() != raw) r = "fixed span";
                s = u;
            }
            else { estd::span<T, N> t(c); s = t.first(N); if (N > 1 && t.subspan(1).size() != N - 1) r = "fixed subspan"; }
        }
        else if (o == "wr") { if (a.n(0) >= n) return false; return wr(s, a.n(0), a.n(1)); }
        else if (o == "wrb") { if (a.n(0) >= 2 * n) return false; return wrb(s, a.n(0), a.n(1)); }
        else return false;
        return true;
    }
    J obs() override
    {
        const auto& c = s; auto by = estd::as_bytes(c);
        if (N > 1000)
        {
            size_t n = c.size(); J w = J::arr(), x = J::arr(); if (n && n <= N) { w.add((int)c[0]).add((int)c[n / 2]).add((int)c[n - 1]); x.add((int)*c.begin()).add((int)c.cbegin()[n / 2]).add((int)*(c.end() - 1)); }
            return J::obj().set("n", (int)n).set("e", s.empty()).set("at", w).set("it", x).set("off", (int)(s.data() - raw)).set("by", (int)(s.size_bytes() == by.size() ? by.size() : -1));
        }
        return J::obj().set("n", (int)s.size()).set("e", s.empty()).set("at", lst(c, c.size())).set("it", rng(s.begin(), s.end())).set("cit", rng(c.cbegin(), c.cend()))
            .set("off", (int)(s.data() - raw)).set("by", s.size_bytes() == by.size() ? lst((const unsigned char*)by.data(), by.size()) : J("bytes")).set("f", 0).set("l", 0).set("buf", lst(raw, N));
    }
};
struct Pod { U v; Pod() = default; Pod(int x) : v(x) {} operator int() const { return v; } };
template <class A> auto backw(A& a, int v, int) -> decltype((void)a.back(), true) { a.back() = v; return true; }
template <class A> bool backw(A&, int, long) { return false; }
template <class A> auto backr(const A& a, int) -> decltype((void)a.back(), 0) { return (int)a.back(); }
template <class A> int backr(const A&, long) { return 0; }

template <class A, class T, int N, bool VAL> struct Ar : Obj
{
    T* raw; std::unique_ptr<A> p;
    Ar() : raw(nullptr) {}
    ~Ar() { p.reset(); delete[] raw; }
    void init() { for (int i = 0; i < N; i++) (*p)[i] = i + 1; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        A& x = *p; r = 0;
        if (o == "wr") { if (a.n(0) >= N) return false; switch (a.n(1) % 3) { case 0: x[a.n(0)] = a.n(1); break; case 1: x.begin()[a.n(0)] = a.n(1); break; default: x.data()[a.n(0)] = a.n(1); } return true; }
        if (o == "front") { x.front() = a.n(0); return true; }
        if (o == "back") return backw(x, a.n(0), 0);
        return val(o, a, r, std::integral_constant<bool, VAL>());
    }
    bool val(const std::string&, const J&, J&, std::false_type) { return false; }
    static void mk(A& x, const J& t) { for (int i = 0; i < N; i++) x[i] = (int)t[i].i; }
    static bool from(A& x, const J& t, std::true_type) { U c[N]; for (int i = 0; i < N; i++) c[i] = t[i].i; x = estd::to_array(c); return true; }
    static bool from(A&, const J&, std::false_type) { return false; }
    bool val(const std::string& o, const J& a, J& r, std::true_type)
    {
        A& x = *p;
        if (o == "fill") { x.fill(a.n(0)); return true; }
        if (o == "copy") { if (a.n(0) >= N) return false; std::unique_ptr<A> y(new A(x)); (*y)[a.n(0)] = a.n(1); r = lst(*y, N); return true; }
        if ((int)a[0].a.size() != N) return false;
        std::unique_ptr<A> y(new A); mk(*y, a[0]);
        if (o == "eq") { r = x == *y; if ((x != *y) == (bool)r.i || (*y == x) != (bool)r.i) r = "inconsistent"; }
        else if (o == "assign") x = *y;
        else if (o == "toarray") return from(x, a[0], std::is_same<A, estd::array<U, N>>());
        else return false;
        return true;
    }
    J obs() override
    {
        const A& c = *p; A& x = *p; J b = lst(c, N);
        return J::obj().set("n", (int)c.size()).set("e", c.begin() == c.end()).set("at", lst(x, N)).set("it", rng(x.begin(), x.end())).set("cit", rng(c.begin(), c.end()))
            .set("off", (int)(c.data() - c.begin())).set("by", J::arr()).set("f", (int)x.front() == (int)c.front() ? (int)c.front() : -1).set("l", backr(c, 0)).set("buf", raw ? lst(raw, N) : b);
    }
};
template <int N> Obj* mk(const std::string& k)
{
    if (k == "dyn") return new Sp<U, N>;
    if (k == "cdyn") return new Sp<const U, N>;
    if (k == "arr") { typedef estd::array<U, N> A; auto* p = new Ar<A, U, N, true>; p->p.reset(new A); p->init(); return p; }
    if (k == "un") { typedef estd::internal::uninitialized_array<Pod, N> A; auto* p = new Ar<A, Pod, N, true>; p->p.reset(new A); p->init(); return p; }
    if (k == "l2") { typedef estd::legacy::layer2::array<U, N> A; auto* p = new Ar<A, U, N, false>; p->raw = new U[N]; p->p.reset(new A(p->raw)); p->init(); return p; }
    if (k == "l3") { typedef estd::legacy::layer3::array<U> A; auto* p = new Ar<A, U, N, false>; p->raw = new U[N]; p->p.reset(new A(p->raw, N)); p->init(); return p; }
    return nullptr;
}
}
Obj* make(const J& c)
{
    switch (c.n(1)) { case 1: return mk<1>(c[0].s); case 2: return mk<2>(c[0].s); case 3: return mk<3>(c[0].s); case 4: return mk<4>(c[0].s); case 7: return mk<7>(c[0].s); case 200: return mk<200>(c[0].s); case 300: return mk<300>(c[0].s); case 70000: if (c[0].s == "dyn") return new Sp<U, 70000>; if (c[0].s == "cdyn") return new Sp<const U, 70000>; }
    return nullptr;
}
J end_report() { return 0; }
