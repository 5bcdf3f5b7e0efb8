#include "common.h"
#include <estd/optional.h>
#include <estd/functional.h>

namespace {
int armed = 0, errs = 0;
struct Boom {};
inline void trip() { if (armed > 0 && --armed == 0) throw Boom(); }
struct alignas(16) T
{
    static int live;
    int v; uint32_t m; const void* self;
    void chk() const { if (m != 0xA5A5u || self != this || (uintptr_t)this % 16) errs++; }
    void born() { m = 0xA5A5u; self = this; live++; chk(); }
    T(int x) { trip(); v = x; born(); }
    T(const T& o) { trip(); o.chk(); v = o.v; born(); }
    T(T&& o) noexcept { o.chk(); v = o.v; o.v = -7; born(); }
    T& operator=(const T& o) { trip(); chk(); o.chk(); v = o.v; return *this; }
    T& operator=(T&& o) noexcept { chk(); o.chk(); v = o.v; if (&o != this) o.v = -7; return *this; }
    ~T() { chk(); m = 0xDEAD; live--; }
    bool operator==(const T& o) const { return v == o.v; }
    bool operator!=(const T& o) const { return v != o.v; }
};
int T::live = 0;
struct M : T { using T::T; M(M&&) = default; M(const M&) = delete; M& operator=(M&&) = default; };   // can be moved only
inline int val(const T& t) { t.chk(); return t.v; }
inline int val(int x) { return x; }
inline int val(bool x) { return x; }

enum K { TR, INT, NUL, BIT, MO };
template <class V, class O, K kind>
struct OO : Obj
{
    alignas(64) unsigned char b[2][(sizeof(O) + 128) / 64 * 64];
    // aligned exactly as much as the optional asks for
    void* slot(int r) { return b[r - 1] + alignof(O); }
    O& at(int r) { return *(O*)slot(r); }
    void kill(int r) { at(r).~O(); memset(slot(r), 0xEE, sizeof(O)); }
    OO() { armed = errs = 0; T::live = 0; for (int r = 1; r <= 2; r++) { memset(slot(r), 0xEE, sizeof(O)); new (slot(r)) O(); } }
    ~OO() { kill(1); kill(2); }
    typedef std::integral_constant<K, kind> KT;
    // in-place construction, emplacement, conversions: not offered by every kind
    template <class Q> bool emp(int r, int x, J& res, Q) { V& t = at(r).emplace(x); res = val(t); if (&t != &*at(r)) errs++; return true; }
    bool emp(int, int, J&, std::integral_constant<K, NUL>) { return false; }
    bool emp(int, int, J&, std::integral_constant<K, BIT>) { return false; }
    template <class Q> bool inpl(int r, int x, Q) { kill(r); new (slot(r)) O(estd::in_place_t{}, x); return true; }
    bool inpl(int, int, std::integral_constant<K, NUL>) { return false; }
    bool inpl(int, int, std::integral_constant<K, BIT>) { return false; }
    template <class Q> bool conv(const std::string& n, int r, const J& x, Q)
    {
        estd::optional<short> s; if (x.size()) s = (short)x.n(0);
        if (n == "make_conv") { kill(r); new (slot(r)) O((const estd::optional<short>&)s); }
        else if (n == "make_conv_m") { kill(r); new (slot(r)) O(std::move(s)); }
        else if (n == "assign_conv") at(r) = (const estd::optional<short>&)s;
        else at(r) = std::move(s);
        return true;
    }
    bool conv(const std::string&, int, const J&, std::integral_constant<K, BIT>) { return false; }
    template <class Q> bool rel(int r, int x, J& res, Q)
    { const O& c = at(r); res = J::arr(); res.add(c < (V)x).add(c > (V)x).add(c <= (V)x).add(c >= (V)x); return true; }
    bool rel(int, int, J&, std::integral_constant<K, TR>) { return false; }
    bool rel(int, int, J&, std::integral_constant<K, MO>) { return false; }
    template <class Q> bool mut(int r, int x, Q) { *at(r) = V(x); return true; }
    bool mut(int, int, std::integral_constant<K, BIT>) { return false; }
    template <class Q> bool thr(const std::string&, int, J&, Q) { return false; }
    bool thr(const std::string& n, int r, J& res, std::integral_constant<K, TR>)
    {
        res = 0;
        if (n == "emplace_throw") { armed = 1; try { at(r).emplace(4); } catch (Boom&) { res = 1; } armed = 0; return true; }
        bool had = at(r).has_value();
        bool thrown = false;
        if (n == "assign_throw") { T t(4); armed = 1; try { at(r) = (const T&)t; } catch (Boom&) { thrown = true; } }
        else if (n == "assign_opt_throw") { O q(estd::in_place_t{}, 4); armed = 1; try { at(r) = (const O&)q; } catch (Boom&) { thrown = true; } }
        else return false;
        armed = 0;
        if (!thrown || had != at(r).has_value()) errs++;
        res = (int)at(r).has_value();
        if (had) *at(r);
        kill(r); new (slot(r)) O();
        return true;
    }

    // what needs an element which can be copied; -1: something else was asked
    int copies(const std::string& n, const J& a, J& res)
    {
        int r = a.n(0);
        if (n == "make_val") { V t((V)a.n(1)); kill(r); if (a.n(1) % 2) new (slot(r)) O((const V&)t); else new (slot(r)) O(std::move(t)); return true; }
        if (n == "assign_val") { const V t((V)a.n(1)); O& q = (at(r) = t); if (&q != &at(r) || val(t) != a.n(1)) errs++; return true; }
        if (n == "make_copy") { kill(r); new (slot(r)) O((const O&)at(a.n(1))); return true; }
        if (n == "assign_copy") { at(r) = (const O&)at(a.n(1)); return true; }
        if (n == "value_or")
        {
            const O& c = at(r); int x = val(c.value_or((V)a.n(1)));
            O copy(c); int y = val(std::move(copy).value_or((V)a.n(1)));
            if (x != y) errs++;
            res = x; return true;
        }
        return -1;
    }
    bool op(const std::string& n, const J& a, J& res) override
    {
        armed = 0; res = 0;
        int r = a.n(0);
        if constexpr (std::is_copy_constructible<V>::value) { int k = copies(n, a, res); if (k >= 0) return k; }
        if (n == "make_val_m") { V t(a.n(1)); kill(r); new (slot(r)) O(std::move(t)); return true; }
        if (n == "make_inplace") return inpl(r, a.n(1), KT());
        if (n == "assign_val_m") { V t(a.n(1)); at(r) = std::move(t); return true; }
        if (n == "emplace") return emp(r, a.n(1), res, KT());
        if (n == "make_null") { kill(r); new (slot(r)) O(estd::nullopt); return true; }
        if (n == "make_default") { kill(r); new (slot(r)) O(); return true; }
        if (n == "assign_null") { at(r) = estd::nullopt; return true; }
        if (n == "do_reset") { at(r).reset(); return true; }
        if (n == "make_move") { kill(r); new (slot(r)) O(std::move(at(a.n(1)))); kill(a.n(1)); new (slot(a.n(1))) O(); return true; }
        if (n == "assign_move") { at(r) = std::move(at(a.n(1))); kill(a.n(1)); new (slot(a.n(1))) O(); return true; }
        if (n == "value")
        {
            const O& c = at(r);
            auto get = [&](auto f) { J j = J::arr(); try { j.add(val(f())); } catch (estd::bad_optional_access&) {} return j; };
            res = get([&]() -> int { return val(at(r).value()); });
            J r2 = get([&]() -> int { return val(c.value()); });
            J r3 = r2;
            if constexpr (std::is_copy_constructible<V>::value) r3 = get([&]() -> int { O copy(c); V moved(std::move(copy).value()); return val(moved); });
            std::string s1, s2, s3; res.write(s1); r2.write(s2); r3.write(s3);
            if (s1 != s2 || s1 != s3) errs++;
            return true;
        }
        if (n == "eqv")
        { const O& c = at(r); V t(a.n(1)); res = J::arr(); res.add(c == t).add(t == c).add(c != t); return true; }
        if (n == "eq") { res = (const O&)at(r) == (const O&)at(a.n(1)); return true; }
        if (n == "rel") return at(r).has_value() && rel(r, a.n(1), res, KT());
        if (n == "mut") return at(r).has_value() && mut(r, a.n(1), KT());
        if (n.find("conv") != std::string::npos) return conv(n, r, a[1], KT());
        return thr(n, r, res, KT());
    }
    J obs() override
    {
        J h = J::arr(), v = J::arr();
        for (int r = 1; r <= 2; r++)
        {
            O& x = at(r); const O& c = x;
            bool e = c.has_value(); h.add(e);
            if ((bool)c != e) errs++;
            if constexpr (kind == INT || kind == NUL)
            {
                size_t z = estd::hash<O>{}(c);
                if (z != (e ? estd::hash<int>{}(*c) : estd::hash<O>{}(O()))) errs++;
            }
            J j = J::arr(); if (e) { j.add(val(*c)); if (val(*x) != val(*c)) errs++; } v.add(j);
        }
        J o = J::obj(); o.set("has", h).set("val", v).set("live", T::live).set("err", errs); return o;
    }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "tr") return new OO<T, estd::optional<T>, TR>;
    if (k == "mo") return new OO<M, estd::optional<M>, MO>;
    if (k == "int") return new OO<int, estd::optional<int>, INT>;
    if (k == "nul" && c.n(1) == -1) return new OO<int, estd::layer1::optional<int, -1>, NUL>;
    if (k == "nul") return new OO<int, estd::layer1::optional<int>, NUL>;
    if (k == "bit") return new OO<bool, estd::layer1::optional<bool>, BIT>;
    return nullptr;
}
J end_report() { J j = J::arr(); j.add(T::live).add(errs); return j; }
