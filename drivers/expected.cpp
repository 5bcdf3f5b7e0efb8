#include "common.h"
#include <estd/expected.h>

namespace {
int errs = 0;
template <char Id> struct Tk
{
    static int live;
    int v; uint32_t m; const void* self;
    void chk() const { if (m != 0xA5A5u || self != this) errs++; }
    void born() { m = 0xA5A5u; self = this; live++; }
    Tk() : v(0) { born(); }
    Tk(int x) : v(x) { born(); }
    Tk(const Tk& o) : v(o.v) { o.chk(); born(); }
    Tk(Tk&& o) noexcept : v(o.v) { o.chk(); o.v = -7; born(); }
    Tk& operator=(const Tk& o) { chk(); o.chk(); v = o.v; return *this; }
    Tk& operator=(Tk&& o) noexcept { chk(); o.chk(); v = o.v; if (&o != this) o.v = -7; return *this; }
    ~Tk() { chk(); m = 0xDEAD; live--; }
};
template <char I> int Tk<I>::live = 0;
typedef Tk<'v'> TV;
typedef Tk<'e'> TE;
struct TM : Tk<'v'> { using Tk::Tk; TM(TM&&) = default; TM(const TM&) = delete; TM& operator=(TM&&) = default; };   // can only be moved
template <char I> int val(const Tk<I>& t) { t.chk(); return t.v; }
inline int val(int x) { return x; }
inline int val(const estd::monostate&) { return 0; }
template <char I> void set(Tk<I>& t, int x) { t.chk(); t.v = x; }
inline void set(int& t, int x) { t = x; }
inline void set(estd::monostate&, int) {}

template <class V, class E>
struct EO : Obj
{
    typedef estd::expected<V, E> X;
    alignas(64) unsigned char b[2][(sizeof(X) + 128) / 64 * 64];
    void* slot(int r) { return b[r - 1] + alignof(X); }
    X& at(int r) { return *(X*)slot(r); }
    void kill(int r) { at(r).~X(); memset(slot(r), 0xEE, sizeof(X)); }
    EO() { errs = 0; TV::live = TE::live = 0; for (int r = 1; r <= 2; r++) { memset(slot(r), 0xEE, sizeof(X)); new (slot(r)) X(); } }
    ~EO() { kill(1); kill(2); }
    typedef std::is_void<V> IV;

    bool valop(const std::string&, const J&, J&, std::true_type) { return false; }
    bool valop(const std::string& n, const J& a, J& res, std::false_type)
    {
        int r = a.n(0), x = a.size() > 1 ? a.n(1) : 0;
        if constexpr (std::is_copy_constructible<V>::value)
        {
        if (n == "make_val") { const V v(x); kill(r); new (slot(r)) X(v); return true; }
        if (n == "set_val") { const V v(x); X& q = (at(r) = v); if (&q != &at(r) || val(v) != x) errs++; return true; }
        if (n == "value_or") { const X& c = at(r); res = val(c.value_or(V(x))); return true; }
        }
        if (n == "make_val_m") { V v(x); kill(r); new (slot(r)) X(std::move(v)); return true; }
        if (n == "make_inplace") { kill(r); new (slot(r)) X(estd::in_place_t{}, x); return true; }
        if (n == "set_val_m") { V v(x); at(r) = std::move(v); return true; }
        if (n == "emplace") { V& v = at(r).emplace(x); res = val(v); if (&v != &*at(r)) errs++; return true; }
        return false;
    }
    bool op(const std::string& n, const J& a, J& res) override
    {
        res = 0; int r = a.n(0);
        if (n == "make_default") { kill(r); new (slot(r)) X(); return true; }
        if (n == "make_err") { kill(r); new (slot(r)) X(estd::unexpect_t{}, a.n(1)); return true; }
        if (n == "make_unex") { estd::unexpected<E> u{E(a.n(1))}; kill(r); new (slot(r)) X(u); if (val(u.error()) != a.n(1)) errs++; return true; }
        if (n == "make_unex2") { estd::unexpected<short> u{(short)a.n(1)}; kill(r); new (slot(r)) X(u); return true; }
        if (n == "set_err") { estd::unexpected<E> u{E(a.n(1))}; X& q = (at(r) = u); if (&q != &at(r) || val(u.error()) != a.n(1)) errs++; return true; }
        if (n == "set_err2") { estd::unexpected<short> u{(short)a.n(1)}; at(r) = u; return true; }
        if (n == "make_copy") { if (!(IV::value || std::is_copy_constructible<V>::value)) return false; kill(r); new (slot(r)) X((const X&)at(a.n(1))); return true; }
        if (n == "make_move") { int s = a.n(1); kill(r); new (slot(r)) X(std::move(at(s))); kill(s); new (slot(s)) X(); return true; }
        if (n == "value")
        {
            res = J::arr();
            try { int v = val(at(r).value()); res.add(1).add(v); }
            catch (estd::bad_expected_access<E>& e) { res.add(0).add(val(e.error())); }
            // the const form answers alike
            int k = 0, v2 = 0;
            try { v2 = val(((const X&)at(r)).value()); k = 1; } catch (estd::bad_expected_access<E>& e) { v2 = val(e.error()); }
            if (k != res.n(0) || v2 != res.n(1)) errs++;
            try { ((const X&)at(r)).value(); if (!k) errs++; } catch (estd::bad_expected_access<void>&) { if (k) errs++; }
            return true;
        }
        if (n == "mut") { if (at(r).has_value()) { if (IV::value) return false; set(*at(r), a.n(1)); } else set(at(r).error(), a.n(1)); return true; }
        return valop(n, a, res, IV());
    }
    J obs() override
    {
        J h = J::arr(), v = J::arr();
        for (int r = 1; r <= 2; r++)
        {
            const X& c = at(r); bool e = c.has_value(); h.add(e); if ((bool)c != e) errs++;
            v.add(e ? val(*c) : val(c.error()));
            if (e)
            {
                if (&*c != &*at(r) || &c.value() != &*c || &at(r).value() != &*c) errs++;
                auto&& m = *std::move(at(r)); if (&m != &*c) errs++;
                auto&& cm = *std::move(c); if (&cm != &*c) errs++;
                static_assert(std::is_rvalue_reference<decltype(cm)>::value && std::is_const<std::remove_reference_t<decltype(cm)>>::value, "const rvalue");
                if constexpr (!IV::value) { if (c.operator->() != &*c) errs++; }
            }
            else if (&c.error() != &at(r).error()) errs++;
        }
        J o = J::obj(); o.set("has", h).set("v", v).set("lv", TV::live).set("le", TE::live).set("err", errs); return o;
    }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "tt") return new EO<TV, TE>;
    if (k == "ie") return new EO<int, TE>;
    if (k == "ti") return new EO<TV, int>;
    if (k == "mo") return new EO<TM, TE>;
    if (k == "ii") return new EO<int, int>;
    if (k == "ve") return new EO<void, TE>;
    return nullptr;
}
J end_report() { J j = J::arr(); j.add(TV::live).add(TE::live).add(errs); return j; }
