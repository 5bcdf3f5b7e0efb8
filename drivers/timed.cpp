#include "common.h"
#include <cassert>
#include <chrono>
#include <numeric>
#include <estd/chrono.h>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/bytes.h>
#include <estd/internal/units/operators.hpp>

namespace {
namespace ec = estd::chrono; namespace eu = estd::internal::units;
typedef __int128 W;
J wide(W v) { J j = J::arr(); j.add(v < 0 ? 1 : 0); if (v < 0) v = -v; while (v) { j.add((int)(v % 1000)); v /= 1000; } return j; }
W num(const J& j) { W v = 0; for (size_t i = j.size(); i-- > 1; ) v = v * 1000 + j.n(i); return j.n(0) ? -v : v; }
template <class R> bool fits(W v) { return v >= (W)std::numeric_limits<R>::min() && v <= (W)std::numeric_limits<R>::max(); }
template <class A, class B> struct Common
{
    typedef typename A::period P1; typedef typename B::period P2;
    // exact value of d in ticks of gcd(n1,n2)/lcm(d1,d2), which holds both exactly
    template <class D> static J ticks(const D& d)
    {
        const W n = std::gcd(P1::num, P2::num), l = std::lcm(P1::den, P2::den);
        W x = (W)d.count() * D::period::num * l, y = (W)D::period::den * n;
        return x % y ? J("fraction") : wide(x / y);
    }
    template <class D> static W per() { return (W)D::period::num * std::lcm(P1::den, P2::den) / ((W)D::period::den * std::gcd(P1::num, P2::num)); }
};
template <class A, class B> bool pos(W c1, W c2) { return std::is_signed<A>::value == std::is_signed<B>::value || (c1 >= 0 && c2 >= 0); }
template <class X, class Y> J cmp6(const X& a, const Y& b) { return J::arr().add(a < b).add(a > b).add(a <= b).add(a >= b).add(a == b).add(a != b); }
template <class X, class Y> J cmp5(const X& a, const Y& b) { return J::arr().add(a < b).add(a > b).add(!(a > b)).add(a >= b).add(a == b).add(a != b); }

template <class D> struct Clk { typedef D duration; typedef typename D::rep rep; typedef typename D::period period; typedef ec::time_point<Clk> time_point; };
template <class D> using StdD = std::chrono::duration<typename D::rep, std::ratio<D::period::num, D::period::den>>;
template <class T, class F> T via(const std::string& v, const F& f)
{
    if (v == "ctor") return T(f);
    if (v == "cast") return ec::duration_cast<T>(f);
    if (v == "asg") { T t(typename T::rep(3)); t = f; return t; }
#if FEATURE_STD_CHRONO
    StdD<F> s = f;
#else
    F s = f;                     // built as where there is no std to convert to
#endif
    if (v == "std") return T(s);
    return ec::duration_cast<T>(s);
}
template <class D> typename std::enable_if<std::is_signed<typename D::rep>::value>::type neg(D& d) { d = -d; }
template <class D> typename std::enable_if<!std::is_signed<typename D::rep>::value>::type neg(D&) {}
template <class D> constexpr bool sec() { return D::period::num == 1; }
template <class D> bool hms(const D& p, J& r, std::true_type)
{
    ec::hh_mm_ss<D> h(p);
    r = J::arr().add(h.is_negative()).add(wide(h.hours().count())).add(wide(h.minutes().count())).add(wide(h.seconds().count())).add(wide(h.subseconds().count())).add(wide(h.to_duration().count()));
    if (h.operator D() != p) r = "cast";
    return true;
}
template <class D> bool hms(const D&, J&, std::false_type) { return false; }

template <class A, class B> struct Chrono : Obj
{
    A p; B q; typedef Common<A, B> C; typedef typename A::rep R1; typedef typename B::rep R2;
    typedef Clk<A> K; typedef ec::time_point<K, A> T1; typedef ec::time_point<K, B> T2;
    Chrono() : p(A::zero()), q(0) { T1 t; if (t.time_since_epoch().count() != 0) p = A::max(); }
    bool mid(W v) { return fits<int64_t>(v); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        typedef typename decltype(p + q)::rep RC;
        r = 0;
        W w1 = (W)p.count() * C::template per<A>(), w2 = (W)q.count() * C::template per<B>();
        bool both = fits<RC>(w1) && fits<RC>(w2);
        if (o == "s1") { W v = num(a[0]); if (!fits<R1>(v)) return false; p = A((R1)v); }
        else if (o == "s2") { W v = num(a[0]); if (!fits<R2>(v)) return false; q = B((R2)v); }
        else if (o == "c12") { if (!pos<R1, R2>(w1, w2) || !mid(w1) || !fits<R2>(w1 / C::template per<B>())) return false; q = via<B>(a[0].s, p); }
        else if (o == "c21") { if (!pos<R1, R2>(w1, w2) || !mid(w2) || !fits<R1>(w2 / C::template per<A>())) return false; p = via<A>(a[0].s, q); }
        else if (o == "sum") { if (!both || !fits<RC>(w1 + w2)) return false; r = C::ticks(p + q); }
        else if (o == "diff") { if (!both || !fits<RC>(w1 - w2)) return false; if (a[0].s == "d") r = C::ticks(p - q); else r = C::ticks(T1(p) - T2(q)); }
        else if (o == "cmp") { if (!both) return false; if (a[0].s == "d") r = cmp6(p, q); else r = cmp5(T1(p), T2(q)); }
        else if (o == "addm") { W d = w2 / C::template per<A>(); if (!mid(w2) || !fits<R1>(d) || !fits<R1>((W)p.count() + a.n(0) * d)) return false; if (a.n(0) == 1) p += q; else p -= q; }
        else if (o == "add")
        {
            W d = num(a[2]); int s = a.n(1); if (!fits<R1>(d) || !fits<R1>((W)p.count() + s * d)) return false;
            A x((R1)d);
            if (a[0].s == "d") { if (s == 1) p += x; else p -= x; }
            else { T1 t(p), u; if (a[0].s == "t") { if (s == 1) t += x; else t -= x; u = t; } else u = s == 1 ? t + x : t - x; p = u.time_since_epoch(); }
        }
        else if (o == "mul") { if (!fits<R1>(a.n(0)) || !fits<R1>((W)p.count() * a.n(0))) return false; p *= (R1)a.n(0); }
        else if (o == "times") { if (sizeof(R1) < 4 || a.n(0) < 0 || a.n(0) > 9) return false; W v = (W)p.count() * a.n(0); if (!fits<typename std::make_signed<R1>::type>(v)) return false; auto t = p * a.n(0); static_assert(std::is_same<typename decltype(t)::period, typename A::period>::value, ""); r = wide(t.count()); }
        else if (o == "neg") { if (!std::is_signed<R1>::value || p.count() == std::numeric_limits<R1>::min()) return false; if ((+p).count() != p.count()) r = "plus"; neg(p); }
        else if (o == "abs") { if (std::is_signed<R1>::value && p.count() == std::numeric_limits<R1>::min()) return false; p = ec::abs(p); }
        else if (o == "lim") r = J::arr().add(wide(A::min().count())).add(wide(A::max().count())).add(wide(A::zero().count()));
        else if (o == "hms")
        {
            if (!sec<A>() || (std::is_signed<R1>::value && p.count() == std::numeric_limits<R1>::min())) return false;
            W c = p.count(); if (c < 0) c = -c; if (c / A::period::den / 3600 > 255) return false;
            return hms(p, r, std::integral_constant<bool, sec<A>()>());
        }
        else return false;
        return true;
    }
    J obs() override { return J::obj().set("p", wide(p.count())).set("q", wide(q.count())).set("root", wide(p.root_count())); }
};
// units: M = may be mixed
template <class A, class B> struct UnitMix
{
    typedef Common<A, B> C;
    static bool op(A& p, B& q, const std::string& o, const J& a, J& r, W w1, W w2)
    {
        typedef typename decltype(p + q)::rep RC; typedef typename A::root_rep R1;
        bool both = fits<RC>(w1) && fits<RC>(w2);
        if (o == "sum") { if (!both || !fits<RC>(w1 + w2)) return false; r = C::ticks(p + q); }
        else if (o == "diff") { if (!both || a[0].s != "d" || !fits<RC>(w1 - w2)) return false; r = C::ticks(p - q); }
        else if (o == "cmp") { if (!both || a[0].s != "d") return false; r = cmp6(p, q); }
        else if (o == "addm") { W d = w2 / C::template per<A>(); if (!fits<R1>(d) || !fits<R1>((W)p.count() + a.n(0) * d)) return false; return addm(p, q, a.n(0), std::is_same<decltype(p + q), A>()); }
        else if (o == "add")
        {
            W d = num(a[2]); int s = a.n(1); if (a[0].s != "d" || !fits<R1>(d) || !fits<R1>((W)p.count() + s * d)) return false;
            A x((R1)d); if (s == 1) { if (d % 2) p += x; else p = p + x; } else { if (d % 2) p -= x; else p = p - x; }
        }
        else if (o == "neg") { if (!std::is_signed<R1>::value || p.count() == std::numeric_limits<R1>::min()) return false; p = -p; }
        else return false;
        return true;
    }
    static bool addm(A& p, B& q, int s, std::true_type) { if (s == 1) p += q; else p -= q; return true; }
    static bool addm(A&, B&, int, std::false_type) { return false; }
};
struct NoMix { template <class A, class B> static bool op(A&, B&, const std::string&, const J&, J&, W, W) { return false; } };
template <class A, class B, class M> struct UnitT : Obj
{
    typedef typename A::root_rep R1; typedef typename B::root_rep R2; int off;
    bool fit1(W v) { return fits<R1>(v) && (!off || fits<int16_t>(v + off)); }
    A p; B q; typedef Common<A, B> C;
    UnitT(int off) : off(off), p(0), q(0) {}
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        W w1 = (W)p.count() * C::template per<A>(), w2 = (W)q.count() * C::template per<B>();
        if (o == "s1") { W v = num(a[0]); if (!fit1(v)) return false; if (v % 2) p.root_count((R1)v); else p = A((R1)v); }
        else if (o == "s2") { W v = num(a[0]); if (!fits<R2>(v)) return false; q = B((R2)v); }
        else if (o == "c12") { if (!pos<R1, R2>(w1, w2) || !fits<R2>(w1 / C::template per<B>())) return false; if (a[0].s == "ctor") { B t(p); q = t; } else if (a[0].s == "asg") q = p; else return false; }
        else if (o == "c21") { if (!pos<R1, R2>(w1, w2) || !fit1(w2 / C::template per<A>() - off)) return false; if (a[0].s == "ctor") { A t(q); p = t; } else if (a[0].s == "asg") p = q; else return false; }
        else if (o == "inc") { if (!fit1((W)p.root_count() + 1)) return false; ++p; }
        else return M::op(p, q, o, a, r, w1, w2);
        return true;
    }
    J obs() override { return J::obj().set("p", wide(p.count())).set("q", wide(q.count())).set("root", wide(p.root_count())); }
};
struct temp_tag {};
template <class R, int n, int d> using Dur = ec::duration<R, estd::ratio<n, d>>;
}

Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "sms") return new Chrono<ec::seconds, ec::milliseconds>;
    if (k == "ms8") return new Chrono<Dur<int16_t, 1, 1000>, Dur<int8_t, 1, 1>>;
    if (k == "ds") return new Chrono<Dur<uint16_t, 1, 1000>, Dur<uint8_t, 1, 10>>;
    if (k == "odd") return new Chrono<Dur<int, 1, 7>, Dur<int, 4, 3>>;
    if (k == "nsh") return new Chrono<ec::nanoseconds, ec::hours>;
    if (k == "nsm") return new Chrono<ec::nanoseconds, ec::minutes>;
    if (k == "usm") return new Chrono<Dur<uint32_t, 1, 1000000>, Dur<int32_t, 1, 1000>>;
    if (k == "tick") return new Chrono<Dur<int64_t, 1, 15>, ec::milliseconds>;
    if (k == "dw") return new Chrono<ec::days, ec::weeks>;
    if (k == "ym") return new Chrono<ec::years, ec::months>;
    if (k == "hm") return new Chrono<ec::hours, ec::minutes>;
    if (k == "same") return new Chrono<Dur<int16_t, 1, 1000>, Dur<int8_t, 1, 1000>>;
    if (k == "pct") { typedef eu::percent<int16_t, estd::ratio<100, 1024>> A; typedef eu::percent<uint32_t> B; return new UnitT<A, B, UnitMix<A, B>>(0); }
    if (k == "byt") { typedef eu::bytes<uint32_t> A; typedef eu::kilobytes<uint16_t> B; return new UnitT<A, B, UnitMix<A, B>>(0); }
    if (k == "pj") return new UnitT<eu::unit_base<int16_t, estd::ratio<1, 2>, temp_tag, eu::adder<int16_t, -40>>, eu::unit_base<int32_t, estd::ratio<1>, temp_tag>, NoMix>(-40);
    if (k == "pk") return new UnitT<eu::unit_base<uint8_t, estd::ratio<1>, temp_tag, eu::adder<int16_t, -125>>, eu::unit_base<int16_t, estd::ratio<1>, temp_tag>, NoMix>(-125);
    return nullptr;
}
J end_report() { return 0; }
