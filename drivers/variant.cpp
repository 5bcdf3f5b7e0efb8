#include "common.h"
#include <cassert>
#include <estd/variant.h>

namespace {
int armed = 0;          // >0: the armed-th construction/copy of a B throws
int errs = 0;
struct Boom {};
template <char Id> struct Base
{
    static int live;
    int v; uint32_t m; const void* self;
    void chk() const { if (m != 0xA5A5u || self != this) errs++; }
    void born() { m = 0xA5A5u; self = this; live++; }
    Base(int x) : v(x) { born(); }
    Base(const Base& o) : v(o.v) { o.chk(); born(); }
    Base(Base&& o) noexcept : v(o.v) { o.chk(); o.v = -7; born(); }
    Base& operator=(const Base& o) { chk(); o.chk(); v = o.v; return *this; }
    Base& operator=(Base&& o) noexcept { chk(); o.chk(); v = o.v; if (&o != this) o.v = -7; return *this; }
    ~Base() { chk(); m = 0xDEAD; live--; }
};
template <char Id> int Base<Id>::live = 0;
template <char Id> struct In { int x; };     // the only thing each type is made from

struct A : Base<'a'> { A() : Base(0) {} A(In<'a'> i) : Base(i.x) {} };
inline int trip(int x) { if (armed > 0 && --armed == 0) throw Boom(); return x; }
struct B : Base<'b'>
{
    B(In<'b'> i) : Base(trip(i.x)) {}
    B(const B& o) : Base((trip(0), o)) {}
    B(B&& o) noexcept : Base(std::move(o)) {}
    B& operator=(const B& o) { trip(0); Base::operator=(o); return *this; }
    B& operator=(B&& o) noexcept { Base::operator=(std::move(o)); return *this; }
};
struct alignas(32) N : Base<'n'>
{
    void al() const { if ((uintptr_t)this % 32) errs++; }
    N(In<'n'> i) : Base(i.x) { al(); }
    N(const N& o) : Base(o) { al(); }
    N(N&& o) noexcept : Base(std::move(o)) { al(); }
    N& operator=(const N&) = delete;
    ~N() { al(); }
};
inline int val(int x) { return x; }
inline int val(char x) { return x; }
inline int val(long x) { return (int)x; }
template <char I> int val(const Base<I>& b) { b.chk(); return b.v; }
template <class T> struct Mk { static T mk(int x) { return (T)x; } typedef T arg; };
template <> struct Mk<A> { typedef In<'a'> arg; static arg mk(int x) { return arg{x}; } };
template <> struct Mk<B> { typedef In<'b'> arg; static arg mk(int x) { return arg{x}; } };
template <> struct Mk<N> { typedef In<'n'> arg; static arg mk(int x) { return arg{x}; } };

struct Vis
{
    int* i; int* x;
    template <size_t I, class T> bool operator()(estd::variadic::visitor_instance<I, T> vi) const
    { *i = (int)I; *x = val(vi.value); return true; }
};
void set(int& t, int x) { t = x; }
void set(char& t, int x) { t = (char)x; }
void set(long& t, int x) { t = x; }
template <char I> void set(Base<I>& t, int x) { t.chk(); t.v = x; }

// an alternative which occurs more than once is reached by position only
template <class T, class ...Ts> struct once { static constexpr int n() { int k = 0; int d[] = {(k += std::is_same<T, Ts>::value, 0)...}; (void)d; return k; } static constexpr bool value = n() == 1; };
inline void gone(int) {}
template <char I> void gone(const Base<I>& b) { if (b.v != -7) errs++; }

template <class ...Ts>
struct VO : Obj
{
    typedef estd::variant<Ts...> V;
    static constexpr int NA = sizeof...(Ts);
    template <size_t I> using Alt = estd::variant_alternative_t<I, V>;
    // aligned exactly as much as the variant asks for
    alignas(64) unsigned char b[2][(sizeof(V) + 128) / 64 * 64];
    void* slot(int r) { return b[r - 1] + alignof(V); }
    V& at(int r) { return *(V*)slot(r); }
    void kill(int r) { at(r).~V(); memset(slot(r), 0xEE, sizeof(V)); }
    VO() { armed = 0; errs = 0; Base<'a'>::live = Base<'b'>::live = Base<'n'>::live = 0;
           for (int r = 1; r <= 2; r++) { memset(slot(r), 0xEE, sizeof(V)); new (slot(r)) V(); } }
    ~VO() { kill(1); kill(2); }

    template <class F, size_t ...I> bool disp(int i, F&& f, std::index_sequence<I...>)
    { bool ok = false; int d[] = {((int)I == i ? (f(std::integral_constant<size_t, I>()), ok = true, 0) : 0)...}; (void)d; return ok; }
    template <class F> bool disp(int i, F&& f) { return disp(i, std::forward<F>(f), std::index_sequence_for<Ts...>()); }

    // what a move leaves behind: a moved-out alternative, or no alternative
    void left(int S) { disp((int)at(S).index(), [&](auto ic) { constexpr size_t I = decltype(ic)::value; gone(estd::get<(int)I>(at(S))); }); }
    bool op(const std::string& n, const J& a, J& r) override
    {
        armed = 0;
        int R = a.n(0);
        r = 0;
        if (n == "make_idx" || n == "make_type" || n == "make_conv" || n == "make_conv_m" || n == "assign_val" || n == "assign_val_m" ||
            n == "emplace_i" || n == "emplace_t")
        {
            int x = a.n(2);
            return disp(a.n(1), [&](auto ic)
            {
                constexpr size_t I = decltype(ic)::value;
                typedef Alt<I> T;
                constexpr bool uniq = once<T, Ts...>::value;
                if (n == "make_idx") { kill(R); new (slot(R)) V(estd::in_place_index_t<I>{}, Mk<T>::mk(x)); }
                else if (n == "make_type") { if constexpr (uniq) { kill(R); new (slot(R)) V(estd::in_place_type_t<T>{}, Mk<T>::mk(x)); } else errs++; }
                else if (n == "emplace_i") { T& t = at(R).template emplace<(unsigned)I>(Mk<T>::mk(x)); r = val(t); if (&t != estd::get_if<(unsigned)I>(&at(R))) errs++; }
                else if (n == "emplace_t") { if constexpr (uniq) { T& t = at(R).template emplace<T>(Mk<T>::mk(x)); r = val(t); if (&t != estd::get_if<T>(&at(R))) errs++; } else errs++; }
                else if constexpr (uniq)
                {
                    T t(Mk<T>::mk(x));
                    if (n == "make_conv") { kill(R); new (slot(R)) V((const T&)t); if (val(t) != x) errs++; }
                    else if (n == "make_conv_m") { kill(R); new (slot(R)) V(std::move(t)); gone(t); }
                    else if (n == "assign_val") { V& q = (at(R) = (const T&)t); if (&q != &at(R) || val(t) != x) errs++; }
                    else { V& q = (at(R) = std::move(t)); if (&q != &at(R)) errs++; gone(t); }
                }
                else errs++;
            });
        }
        if (n == "make_copy") { int S = a.n(1); kill(R); new (slot(R)) V((const V&)at(S)); return true; }
        if (n == "make_move") { int S = a.n(1); kill(R); new (slot(R)) V(std::move(at(S))); left(S); kill(S); new (slot(S)) V(); return true; }
        if (n == "assign_copy") { V& q = (at(R) = (const V&)at(a.n(1))); if (&q != &at(R)) errs++; return true; }
        if (n == "assign_move") { int S = a.n(1); at(R) = std::move(at(S)); left(S); kill(S); new (slot(S)) V(); return true; }
        if (n == "mut")
        {
            bool done = false;
            disp((int)at(R).index(), [&](auto ic) { constexpr size_t I = decltype(ic)::value; set(estd::get<(int)I>(at(R)), a.n(1)); done = true; });
            return done;
        }
        if (n == "visit")
        {
            int i = -1, x = -1;
            int k = (int)((const V&)at(R)).visit_index(Vis{&i, &x});
            int i2 = -1, x2 = -1;
            int k2 = (int)at(R).visit_index(Vis{&i2, &x2});
            if (k != k2 || i != i2 || x != x2) errs++;
            r = J::arr(); r.add(k); if (k != -1) { r.add(i); r.add(x); }
            return true;
        }
        return opthrow(n, a, r, std::is_same<V, estd::variant<int, A, B, N>>());
    }
    bool opthrow(const std::string&, const J&, J&, std::false_type) { return false; }
    bool opthrow(const std::string& n, const J& a, J& r, std::true_type)
    {
        int R = a.n(0);
        int i0 = (int)at(R).index(), x0 = -99;
        auto rd = [&]() { int x = -99; disp((int)at(R).index(), [&](auto ic) { constexpr size_t I = decltype(ic)::value; x = val(estd::get<(int)I>(at(R))); }); return x; };
        x0 = rd();
        r = 0;
        auto settle = [&]()     // after a throwing assignment: untouched, or valueless
        {
            int i = (int)at(R).index();
            if (i != -1 && (i != i0 || rd() != x0)) errs++;
            kill(R); new (slot(R)) V();
        };
        if (n == "emplace_throw" || n == "emplace_i_throw")
        {
            armed = 1;
            try { if (n == "emplace_throw") at(R).template emplace<B>(In<'b'>{5}); else at(R).template emplace<2u>(In<'b'>{5}); } catch (Boom&) { r = 1; }
            armed = 0; return true;
        }
        if (n == "assign_val_throw")
        {
            B b(In<'b'>{5}); armed = 1;
            try { at(R) = (const B&)b; } catch (Boom&) { r = 1; }
            armed = 0; settle(); return true;
        }
        if (n == "assign_copy_throw")
        {
            armed = 1;
            try { at(R) = (const V&)at(a.n(1)); } catch (Boom&) { r = 1; }
            armed = 0; settle(); return true;
        }
        if (n == "make_copy_throw")
        {
            kill(R); armed = 1;
            try { new (slot(R)) V((const V&)at(a.n(1))); } catch (Boom&) { r = 1; memset(slot(R), 0xEE, sizeof(V)); new (slot(R)) V(); }
            armed = 0; return true;
        }
        return false;
    }
    template <class P> static J ptr(P* p) { J j = J::arr(); if (p) j.add(val(*p)); return j; }
    template <size_t I> J getj(int r)
    {
        typedef Alt<I> T;
        V& x = at(r); const V& c = x;
        J j[6];
        j[0] = ptr(estd::get_if<(unsigned)I>(&x)); j[1] = ptr(estd::get_if<(unsigned)I>(&c));
        try { j[4] = ptr(&estd::get<(int)I>(x)); } catch (estd::bad_variant_access&) { j[4] = J::arr(); }
        int nj = 3; j[2] = j[4];
        if constexpr (once<T, Ts...>::value)
        {
            j[3] = ptr(estd::get_if<T>(&x)); j[4] = ptr(estd::get_if<T>(&c)); nj = 6;
            try { j[5] = ptr(&estd::get<T>(c)); } catch (estd::bad_variant_access&) { j[5] = J::arr(); }
        }
        // the remaining accessors answer with the same element, or refuse alike
        const T* p0 = estd::get_if<(unsigned)I>(&c);
        auto same = [&](auto&& f) { const T* q = nullptr; try { q = f(); } catch (estd::bad_variant_access&) {} if (q != p0) errs++; };
        same([&]() { const T& t = estd::get<(int)I>(c); return &t; });
        same([&]() { T&& t = estd::get<(int)I>(std::move(x)); return &t; });
        if constexpr (once<T, Ts...>::value)
        {
            same([&]() { T& t = estd::get<T>(x); return &t; });
            same([&]() { T&& t = estd::get<T>(std::move(x)); return &t; });
        }
        if (estd::get_if<(unsigned)I>((V*)nullptr) || estd::get_if<(unsigned)I>((const V*)nullptr)) errs++;
        std::string s0, s; j[0].write(s0);
        for (int k = 1; k < nj; k++) { s.clear(); j[k].write(s); if (s != s0) errs++; }
        return j[0];
    }
    template <size_t I> bool holds(int r)
    {
        if constexpr (once<Alt<I>, Ts...>::value) return estd::holds_alternative<Alt<I>>((const V&)at(r));
        else return at(r).index() == I;
    }
    template <size_t ...I> J one(int r, std::index_sequence<I...>)
    {
        J o = J::obj(), g = J::arr(), h = J::arr();
        int d[] = {(g.add(getj<I>(r)), h.add(holds<I>(r)), 0)...}; (void)d;
        o.set("i", (int)at(r).index()).set("n", at(r).valueless_by_exception()).set("get", g).set("h", h);
        return o;
    }
    J obs() override
    {
        J vs = J::arr(); for (int r = 1; r <= 2; r++) vs.add(one(r, std::index_sequence_for<Ts...>()));
        J l = J::arr(); l.add(Base<'a'>::live).add(Base<'b'>::live).add(Base<'n'>::live);
        J o = J::obj(); o.set("v", vs).set("live", l).set("err", errs);
        return o;
    }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "mix") return new VO<int, A, B, N>;
    if (k == "triv") return new VO<int, char, long>;
    if (k == "dup") return new VO<int, A, int, A>;
    if (k == "one") return new VO<A>;
    return nullptr;
}
J end_report() { J j = J::arr(); j.add(Base<'a'>::live).add(Base<'b'>::live).add(Base<'n'>::live).add(errs); return j; }
