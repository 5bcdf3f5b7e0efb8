#include "common.h"
#include <cassert>
#include <estd/chrono.h>

namespace {
namespace ec = estd::chrono; namespace ci = estd::chrono::internal;
template <int I> struct R;
template <> struct R<1> : estd::ratio<1, 1> { typedef estd::ratio<1, 1> t; };
template <> struct R<2> { typedef estd::ratio<1, 1000> t; };
template <> struct R<3> { typedef estd::ratio<2, 4> t; };
template <> struct R<4> { typedef estd::ratio<6, 1> t; };
template <> struct R<5> { typedef estd::ratio<5, 7> t; };
template <> struct R<6> { typedef estd::ratio<4, 6> t; };
template <> struct R<7> { typedef estd::ratio<3600, 1> t; };
template <> struct R<8> { typedef estd::ratio<1, 15> t; };
typedef J (*Fn)();
template <class T> J nd() { return J::arr().add((long)T::type::num).add((long)T::type::den); }
template <class A, class B> J mul() { return nd<estd::detail::ratio_multiply<A, B>>(); }
template <class A, class B> J dvd() { return nd<estd::detail::ratio_divide<A, B>>(); }
template <class A, class B> J add() { return nd<estd::detail::ratio_add<A, B>>(); }
template <class A, class B> J gcd() { return J::arr().add((long)estd::internal::gcd<A::num * B::den, B::num * A::den>::value).add(0); }
template <class A, class B> J lcm() { return J::arr().add((long)estd::internal::lcm<A::den, B::den>::value).add(0); }
template <int I, int K> J rat1(const std::string& o)
{
    typedef typename R<I>::t A; typedef typename R<K>::t B;
    if (o == "mul") return mul<A, B>();
    if (o == "div") return dvd<A, B>();
    if (o == "add") return add<A, B>();
    if (o == "gcd") return gcd<A, B>();
    return lcm<A, B>();
}
template <int I> J ratj(const std::string& o, int j)
{
    switch (j) { case 1: return rat1<I, 1>(o); case 2: return rat1<I, 2>(o); case 3: return rat1<I, 3>(o); case 4: return rat1<I, 4>(o); case 5: return rat1<I, 5>(o); case 6: return rat1<I, 6>(o); case 7: return rat1<I, 7>(o); default: return rat1<I, 8>(o); }
}
J rat(const std::string& o, int i, int j)
{
    switch (i) { case 1: return ratj<1>(o, j); case 2: return ratj<2>(o, j); case 3: return ratj<3>(o, j); case 4: return ratj<4>(o, j); case 5: return ratj<5>(o, j); case 6: return ratj<6>(o, j); case 7: return ratj<7>(o, j); default: return ratj<8>(o, j); }
}
bool yr(int v) { return v >= -32768 && v <= 32767; }
bool by(int v) { return v >= 0 && v <= 255; }
struct Cal : Obj
{
    ec::year y; ec::month m; ec::day d;
    Cal() : y(0), m(0), d(0) {}
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "set") { if (!yr(a.n(0)) || !by(a.n(1)) || !by(a.n(2))) return false; y = ec::year(a.n(0)); m = ec::month(a.n(1)); d = ec::day(a.n(2)); }
        else if (o == "addy") { if (!yr((int)y + a.n(0))) return false; y += ec::year(a.n(0)); }
        else if (o == "suby") { if (!yr((int)y - a.n(0))) return false; y -= ec::year(a.n(0)); }
        else if (o == "addm") { if (!by(m + a.n(0))) return false; m += ec::month(a.n(0)); }
        else if (o == "addd") { if (!by(d + a.n(0))) return false; d += ec::day(a.n(0)); }
        else if (o == "plus") { if (!yr((int)y + a.n(0))) return false; r = J::arr().add((int)(y + ec::years(a.n(0)))).add((int)(ec::years(a.n(0)) + y)); }
        else if (o == "leap") r = y.is_leap();
        else if (o == "ok") { ci::year_month_day<void> x(y, m, d); if (x.year() != y || x.month() != m || x.day() != d) return false; r = J::arr().add(y.ok()).add(m.ok()).add(d.ok()).add(x.ok()); 
            const ec::month named[] = { ec::January, ec::February, ec::March, ec::April, ec::May, ec::June, ec::July, ec::August, ec::September, ec::October, ec::November, ec::December };
            if (m.ok() && !(named[(int)m - 1] == m)) r = "name of the month"; }
        else if (o == "last")
        {
            if (m < 1 || m > 12) return false;
            ci::month_day_last<void> mdl(m); ci::year_month_day_last<void> x(y, mdl);
            if (mdl.ok() != true || x.year() != y) return false;
            r = J::arr().add((int)x.day()).add(x.ok());
        }
        else if (o == "rat") r = rat(a[0].s, a.n(1), a.n(2));
        else return false;
        return true;
    }
    J obs() override { return J::obj().set("y", (int)y.value()).set("m", (int)m.value()).set("d", (int)d.value()); }
};
}
Obj* make(const J&) { return new Cal; }
J end_report() { return 0; }
