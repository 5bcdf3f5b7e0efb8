// conformance driver: quantities with a unit
#include "common.h"
#include <cassert>
#include <ratio>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/iomanip.h>
#include <estd/internal/units/bytes.h>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/ostream.h>
#include <estd/internal/units/operators.hpp>

struct hops_tag {};
namespace estd { namespace internal { namespace units {
template <> struct traits<hops_tag>
{
    static constexpr const char* name() { return "hops"; }
    static constexpr const char* abbrev() { return "hp"; }
};
}}}

namespace {
namespace U = estd::internal::units;
typedef std::ratio<1> _r;
template <class R> R mk(long long v) { return (R)v; }
template <> double mk<double>(long long v) { return v / 64.0; }
template <class R> long long un(R v) { return (long long)v; }
template <> long long un<double>(double v) { return (long long)(v * 64); }
template <class R> struct Lim { static long long lo() { return std::is_unsigned<R>::value ? 0 : sizeof(R) == 1 ? -128 : sizeof(R) == 2 ? -32768 : -1000000000; }
    static long long hi() { return sizeof(R) == 1 ? (std::is_unsigned<R>::value ? 255 : 127) : sizeof(R) == 2 ? (std::is_unsigned<R>::value ? 65535 : 32767) : 1000000000; } };

template <class T, class P, class R> struct Q : Obj
{
    typedef U::unit_base<R, P, T, U::passthrough<R>> q_t;
    static constexpr bool one = estd::is_same<P, estd::ratio<1>>::value, dbl = std::is_same<R, double>::value;
    static constexpr bool big = std::is_same<R, int>::value || std::is_same<R, int64_t>::value;
    q_t v{R(0)};
    typedef estd::layer1::ostringstream<4096> S;
    S* s = new S; unsigned from = 0;
    ~Q() { delete s; }
    static bool fits(long long n) { return n >= Lim<R>::lo() && n <= Lim<R>::hi(); }
    bool scalar(const std::string& o, const J& a, J& r, std::true_type)
    {
        long long n = a.n(0) * (dbl ? 64 : 1), c = un(v.count());
        if (dbl && std::llabs(a.n(0)) > 1000000) return false;
        if (!fits(n)) return false;
        int k = (int)a.n(0);
        if (o == "add") { if (!fits(c + n)) return false; v += k; return true; }
        if (o == "sub") { if (!fits(c - n)) return false; v -= k; return true; }
        r = J::arr();
        if (std::is_unsigned<R>::value) { unsigned u = k; r.add(v == u).add(v > u).add(v < u); }
        else r.add(v == k).add(v > k).add(v < k);
        return true;
    }
    bool scalar(const std::string&, const J&, J&, std::false_type) { return false; }
    bool thousand(const std::string& o, const J& a, std::true_type)
    {
        long long n = a.n(0); int s = o == "addk" ? 1 : -1;
        if (std::llabs(n) > 1000000 || !fits(un(v.count()) + 1000 * n * s)) return false;
        U::unit_base<R, estd::kilo, T, U::passthrough<R>> k{mk<R>(n)};
        if (s > 0) v += k; else v -= k;
        return true;
    }
    bool thousand(const std::string&, const J&, std::false_type) { return false; }
    template <class PP> J share(const J& a)
    {
        U::percent<int, PP> p{(int)a.n(0)};
        typedef U::unit_base<int, P, T, U::passthrough<int>> i_t;
        return a.size() == 4 ? U::get_from_percent(p, i_t{(int)a.n(2)}, i_t{(int)a.n(3)}).count() : U::get_from_percent(p, i_t{(int)a.n(2)}).count();
    }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "set") { if (!fits(a.n(0))) return false; v = q_t{mk<R>(a.n(0))}; return true; }
        if (o == "addq" || o == "subq")
        {
            long long n = a.n(0), c = un(v.count());
            if (!fits(n) || !fits(o == "addq" ? c + n : c - n)) return false;
            q_t q{mk<R>(n)};
            if (o == "addq") v += q; else v -= q;
            return true;
        }
        if (o == "add" || o == "sub" || o == "cmp") return scalar(o, a, r, std::integral_constant<bool, one>());
        if (o == "addk" || o == "subk") return thousand(o, a, std::integral_constant<bool, one && big>());
        if (o == "inc") { if (!fits(un(v.count()) + (dbl ? 64 : 1))) return false; ++v; return true; }
        if (o == "neg") { if (!fits(-un(v.count()))) return false; v = -v; return true; }
        if (o == "write")
        {
            const std::string h = a[0].s;
            if (from > 3800) { S* t = new S; t->width(s->width()); t->flags(s->flags()); delete s; s = t; from = 0; }
            S& out = *s;
            if (h == "full") U::write(out, v);
            else if (h == "abbrev") U::write_abbrev(out, v);
            else if (h == "spaced") U::write_abbrev(out, v, true);
            else if (h == "put") out << estd::put_unit(v);
            else if (h == "putfull") out << estd::put_unit(v, false);
            else return false;
            auto& t = out.rdbuf()->str();
            r = std::string(t.clock() + from, t.size() - from); from = t.size();
            return true;
        }
        if (o == "setw") { if (dbl) return false; s->width(a.n(0)); return true; }
        if (o == "base")
        {
            if (dbl) return false;
            if (a.n(0) == 8) *s << estd::oct; else if (a.n(0) == 10) *s << estd::dec; else *s << estd::hex;
            if (a[1].i) s->setf(estd::ios_base::uppercase); else s->unsetf(estd::ios_base::uppercase);
            return true;
        }
        if (o == "pct" || o == "share") { r = a.n(1) == 2 ? share<estd::deca>(a) : a.n(1) == 1 ? share<estd::deci>(a) : share<estd::ratio<1>>(a); return true; }
        if (o == "lit")
        {
            using namespace U::literals;
            r = J::arr();
            r.add(0_bytes == 0u && 0_pct == 0u ? 0 : -1).add((7_pct).count() == 7 && 7.25_pct == 7.25 ? 7 : -1).add((int)(100_bytes).count()).add((int)(65535_pct).count());
            return true;
        }
        return false;
    }
    J obs() override { J o = J::obj(); o.set("v", un(v.count())).set("w", (int)s->width()); return o; }
};
template <class T, class P> Obj* rep1(const std::string& r) { return r == "i32" ? new Q<T, P, int> : nullptr; }
template <class T, class P> Obj* rep2(const std::string& r)
{
    if (r == "i8") return new Q<T, P, int8_t>; if (r == "u8") return new Q<T, P, uint8_t>;
    if (r == "i16") return new Q<T, P, int16_t>; if (r == "u16") return new Q<T, P, uint16_t>;
    if (r == "u32") return new Q<T, P, uint32_t>; if (r == "i64") return new Q<T, P, int64_t>; if (r == "u64") return new Q<T, P, uint64_t>;
    if (r == "d") return new Q<T, P, double>;
    return rep1<T, P>(r);
}
template <class T, class P> Obj* repd(const std::string& r) { if (r == "d") return new Q<T, P, double>; return rep1<T, P>(r); }
template <class T> Obj* tag(const std::string& s, const std::string& r)
{
    if (s == "deci") return rep1<T, estd::deci>(r); if (s == "milli") return rep1<T, estd::milli>(r);
    if (s == "micro") return rep1<T, estd::micro>(r); if (s == "nano") return rep1<T, estd::nano>(r);
    if (s == "deca") return rep1<T, estd::deca>(r); if (s == "kilo") return rep1<T, estd::kilo>(r);
    if (s == "mega") return rep1<T, estd::mega>(r); if (s == "giga") return rep1<T, estd::giga>(r); if (s == "tera") return rep1<T, estd::tera>(r);
    return nullptr;
}
}
Obj* make(const J& c)
{
    const std::string t = c[0].s, s = c[1].s, r = c[2].s;
    if (t == "hops") { if (s == "") return rep2<hops_tag, estd::ratio<1>>(r); if (s == "centi") return rep1<hops_tag, estd::centi>(r); return tag<hops_tag>(s, r); }
    if (t == "percent") { if (s == "") return repd<U::percent_tag, estd::ratio<1>>(r); if (s == "centi") return repd<U::percent_tag, estd::centi>(r); return tag<U::percent_tag>(s, r); }
    if (s == "Ki") return rep2<U::bytes_tag, estd::ratio<1024>>(r);
    if (s == "Mi") return rep1<U::bytes_tag, estd::ratio<1024 * 1024>>(r);
    if (s == "Gi") return rep1<U::bytes_tag, estd::ratio<1024 * 1024 * 1024>>(r);
    if (s == "") return rep1<U::bytes_tag, estd::ratio<1>>(r);
    if (s == "centi") return rep1<U::bytes_tag, estd::centi>(r);
    return tag<U::bytes_tag>(s, r);
}
J end_report() { J r = J::arr(); r.add(0).add(0); return r; }
