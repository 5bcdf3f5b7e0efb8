// conformance driver: type computations
#include "common.h"
#include <cassert>
#include <map>
#include <estd/type_traits.h>
#include <estd/limits.h>

struct cls { int a; virtual ~cls() {} }; struct empty {}; struct final_ final { int a; };
enum enum_ { e0 }; enum class ec : unsigned char { e0 }; union union_ { int a; char b; };
typedef int fn_(int); typedef void fnx_() noexcept; typedef int fnv_(const char*, ...);
typedef int cls::*mobj_; typedef int (cls::*mfn_)() const;

namespace {
template <class T> J desc();
J lay(const std::string& w, bool c, bool v) { J l = J::arr(); l.add(w).add(c).add(v); return l; }
// how a type is described: by the compiler's own matching, not by the code under test
template <class T> struct B { static std::string s() { return "?"; } };
#define BASE(T, n) template <> struct B<T> { static std::string s() { return n; } };
BASE(bool, "bool") BASE(char, "char") BASE(signed char, "schar") BASE(unsigned char, "uchar") BASE(short, "short") BASE(unsigned short, "ushort") BASE(int, "int") BASE(unsigned, "uint")
BASE(long, "long") BASE(unsigned long, "ulong") BASE(long long, "llong") BASE(unsigned long long, "ullong") BASE(wchar_t, "wchar") BASE(char16_t, "c16") BASE(char32_t, "c32")
BASE(float, "float") BASE(double, "double") BASE(long double, "ldouble") BASE(cls, "cls") BASE(empty, "empty") BASE(final_, "final") BASE(enum_, "enum") BASE(ec, "ec") BASE(union_, "union")
BASE(void, "void") BASE(fn_, "fn") BASE(fnx_, "fnx") BASE(fnv_, "fnv") BASE(mobj_, "mobj") BASE(mfn_, "mfn")
template <class T, bool C, bool V> struct L { static J d() { J r = J::arr(); r.add(lay(B<T>::s(), C, V)); return r; } };
template <class T, bool C, bool V> struct L<T*, C, V> { static J d() { J r = desc<T>(); r.add(lay("*", C, V)); return r; } };
template <class T> struct D { static J d() { return L<T, false, false>::d(); } };
template <class T> struct D<const T> { static J d() { return L<T, true, false>::d(); } };
template <class T> struct D<volatile T> { static J d() { return L<T, false, true>::d(); } };
template <class T> struct D<const volatile T> { static J d() { return L<T, true, true>::d(); } };
template <class T> struct D<T&> { static J d() { J r = desc<T>(); r.add(lay("&", false, false)); return r; } };
template <class T> struct D<T&&> { static J d() { J r = desc<T>(); r.add(lay("&&", false, false)); return r; } };
#define ARR(CV) template <class T> struct D<CV T[2]> { static J d() { J r = desc<CV T>(); r.add(lay("[2]", false, false)); return r; } }; \
    template <class T> struct D<CV T[]> { static J d() { J r = desc<CV T>(); r.add(lay("[]", false, false)); return r; } };
ARR() ARR(const) ARR(volatile) ARR(const volatile)
template <class T> J desc() { return D<T>::d(); }

struct Node { virtual ~Node() {} virtual bool apply(const std::string& op, J& r) = 0; virtual J said() = 0; J d; };
std::map<std::string, Node*> nodes;

template <class T> J width() { J r = J::arr(); r.add((int)sizeof(T) * 8).add(std::is_signed<T>::value).add(std::is_const<T>::value).add(std::is_volatile<T>::value); return r; }
template <class T> struct plain_int { static constexpr bool value = std::is_integral<T>::value && !std::is_same<std::remove_cv_t<T>, bool>::value && !std::is_same<std::remove_cv_t<T>, char>::value
    && !std::is_same<std::remove_cv_t<T>, wchar_t>::value && !std::is_same<std::remove_cv_t<T>, char16_t>::value && !std::is_same<std::remove_cv_t<T>, char32_t>::value; };
template <class T> bool mks(J& r, std::true_type) { r = width<typename estd::make_signed<T>::type>(); J q = width<estd::make_signed_t<T>>(); return true; }
template <class T> bool mks(J&, std::false_type) { return false; }
template <class T> bool mku(J& r, std::true_type) { r = width<typename estd::make_unsigned<T>::type>(); return true; }
template <class T> bool mku(J&, std::false_type) { return false; }

template <class T, class U> void res(J& r) { r = J::arr(); r.add(desc<U>()).add(bool(estd::is_same<T, U>::value)); }
template <class T> struct N : Node
{
    bool apply(const std::string& o, J& r) override
    {
        if (o == "add_const") res<T, typename estd::add_const<T>::type>(r);
        else if (o == "add_volatile") res<T, typename estd::add_volatile<T>::type>(r);
        else if (o == "add_cv") res<T, typename estd::add_cv<T>::type>(r);
        else if (o == "remove_const") res<T, estd::remove_const_t<T>>(r);
        else if (o == "remove_volatile") res<T, estd::remove_volatile_t<T>>(r);
        else if (o == "remove_cv") res<T, estd::remove_cv_t<T>>(r);
        else if (o == "remove_reference") res<T, estd::remove_reference_t<T>>(r);
        else if (o == "remove_cvref") res<T, estd::remove_cvref_t<T>>(r);
        else if (o == "add_pointer") res<T, estd::add_pointer_t<T>>(r);
        else if (o == "remove_pointer") res<T, estd::remove_pointer_t<T>>(r);
        else if (o == "add_lref") res<T, estd::add_lvalue_reference_t<T>>(r);
        else if (o == "add_rref") res<T, estd::add_rvalue_reference_t<T>>(r);
        else if (o == "remove_extent") res<T, typename estd::remove_extent<T>::type>(r);
        else if (o == "decay") res<T, estd::decay_t<T>>(r);
        else if (o == "identity") res<T, estd::type_identity_t<T>>(r);
        else if (o == "make_signed") return mks<T>(r, std::integral_constant<bool, plain_int<T>::value>());
        else if (o == "make_unsigned") return mku<T>(r, std::integral_constant<bool, plain_int<T>::value && std::is_signed<T>::value && !std::is_const<T>::value && !std::is_volatile<T>::value>());
        else return false;
        return true;
    }
    J said() override
    {
        J s = J::obj();
        s.set("const", bool(estd::is_const<T>::value)).set("volatile", bool(estd::is_volatile<T>::value)).set("ref", bool(estd::is_reference<T>::value))
         .set("lref", bool(estd::is_lvalue_reference<T>::value)).set("rref", bool(estd::is_rvalue_reference<T>::value)).set("pointer", bool(estd::is_pointer<T>::value))
         .set("array", bool(estd::is_array<T>::value)).set("fn", bool(estd::is_function<T>::value)).set("void", bool(estd::is_void<T>::value)).set("integral", bool(estd::is_integral<T>::value))
         .set("floating", bool(estd::is_floating_point<T>::value)).set("arithmetic", bool(estd::is_arithmetic<T>::value)).set("signed", bool(estd::is_signed<T>::value))
         .set("unsigned", bool(estd::is_unsigned<T>::value)).set("enum", bool(estd::is_enum<T>::value)).set("class", bool(estd::is_class<T>::value)).set("union", bool(estd::is_union<T>::value))
         .set("member", bool(estd::is_member_pointer<T>::value)).set("mobj", bool(estd::is_member_object_pointer<T>::value)).set("mfn", bool(estd::is_member_function_pointer<T>::value));
        return s;
    }
};
std::string key(const J& d) { std::string k; for (int i = 0; i < (int)d.size(); i++) k += d[i][0].s + (d[i].n(1) ? "c" : "") + (d[i].n(2) ? "v" : "") + " "; return k; }
// the universe: pointers to, references to and arrays of what came before
template <class T> void put() { auto* n = new N<T>; n->d = desc<T>(); nodes[key(n->d)] = n; }
template <class T, int D> struct Reg { static void go(); };
template <class T, int D> void pointers() { Reg<T*, D>::go(); Reg<T* const, D>::go(); Reg<T* volatile, D>::go(); Reg<T* const volatile, D>::go(); }
template <class T, int D> void refs(std::true_type) { Reg<T&, D>::go(); Reg<T&&, D>::go(); }
template <class T, int D> void refs(std::false_type) {}
template <class T, int D> void arrays(std::true_type) { Reg<T[2], D>::go(); }
template <class T, int D> void arrays(std::false_type) {}
template <class T, int D> void arrays0(std::true_type) { Reg<T[], D>::go(); }
template <class T, int D> void arrays0(std::false_type) {}
template <class T, int D> void over(std::true_type)
{
    constexpr bool v = std::is_void<T>::value, f = std::is_function<T>::value, a = std::is_array<T>::value, u = a && std::extent<T>::value == 0;
    pointers<T, D - 1>(); refs<T, D - 1>(std::integral_constant<bool, !v>());
    arrays<T, D - 1>(std::integral_constant<bool, !v && !f && !u>()); arrays0<T, D - 1>(std::integral_constant<bool, !v && !f && !a>());
}
template <class T, int D> void over(std::false_type) {}
template <class T, int D> void Reg<T, D>::go() { put<T>(); over<T, D>(std::integral_constant<bool, (D > 1 && !std::is_reference<T>::value)>()); }
template <class T, int D = 1> void base() { Reg<T, D>::go(); Reg<const T, D>::go(); Reg<volatile T, D>::go(); Reg<const volatile T, D>::go(); }
template <class T, int D = 1> void fun() { Reg<T, D>::go(); }
void all()
{
    if (!nodes.empty()) return;
    base<bool>(); base<char>(); base<signed char>(); base<unsigned char>(); base<short>(); base<unsigned short>(); base<int, 3>(); base<unsigned>(); base<long>(); base<unsigned long>();
    base<long long>(); base<unsigned long long>(); base<wchar_t>(); base<char16_t>(); base<char32_t>(); base<float>(); base<double, 2>(); base<long double>(); base<cls, 2>(); base<empty>(); base<final_>();
    base<enum_>(); base<ec>(); base<union_>(); base<mobj_>(); base<mfn_>(); base<void, 2>(); fun<fn_, 2>(); fun<fnx_>(); fun<fnv_>();
}
struct T_ : Obj
{
    Node* n;
    bool op(const std::string& o, const J&, J& r) override
    {
        if (!n->apply(o, r)) return false;
        if (o.compare(0, 5, "make_")) { auto i = nodes.find(key(r[0])); if (i != nodes.end()) n = i->second; }
        return true;
    }
    J obs() override { J o = J::obj(); o.set("t", n->d).set("s", n->said()); return o; }
};
}
Obj* make(const J& c) { all(); auto i = nodes.find(key(c[0])); if (i == nodes.end()) return nullptr; auto* o = new T_; o->n = i->second; return o; }
J end_report() { J r = J::arr(); r.add(0).add(0); return r; }
