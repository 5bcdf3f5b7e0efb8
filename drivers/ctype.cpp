#include "common.h"
#include <cassert>
#include <estd/cctype.h>
#include <estd/locale.h>

namespace {
typedef estd::locale::classic_type Loc;
typedef estd::ctype_base B;
B::mask bit(const std::string& s)
{
    if (s == "space") return B::space; if (s == "digit") return B::digit; if (s == "alpha") return B::alpha; if (s == "punct") return B::punct;
    if (s == "upper") return B::upper; if (s == "lower") return B::lower; if (s == "xdigit") return B::xdigit; if (s == "alnum") return B::alnum; return B::graph;
}
template <unsigned b> bool base(const std::string& o, const J& a, int c, J& r)
{
    estd::internal::cbase<char, b, Loc> f; char ch = (char)c;
    if (o == "raw") { r = (int)f.from_char_raw(ch); return true; }
    int rb = a.n(1);
    if (o == "in") { bool v = f.is_in_base(ch, rb); r = v; if (rb == b && f.is_in_base(ch) != v) r = "default base"; }
    else { auto v = f.from_char(ch, rb); r = v ? (int)v.value() : -1; if (rb == b) { auto w = f.from_char(ch); if (w.has_value() != v.has_value() || (w && *w != *v)) r = "default base"; } }
    return true;
}
template <unsigned b> bool to(const std::string& k, int v, J& r)
{
    using namespace estd::internal;
    if (k == "lower") { cbase<char, b, Loc> f; cbase_utf<char, b, CBASE_POLICY_CASE_LOWER> g{}; r = (int)(unsigned char)f.to_char(v); if (g.to_char(v) != f.to_char(v)) r = "differ"; }
    else if (k == "upper") { cbase_utf<char, b, CBASE_POLICY_CASE_UPPER> f{}; r = (int)(unsigned char)f.to_char(v); }
    else { cbase_utf<char, b, CBASE_POLICY_CASE_DYNAMIC> f(k == "dupper" ? CBASE_POLICY_CASE_UPPER : CBASE_POLICY_CASE_LOWER); r = (int)(unsigned char)f.to_char(v); }
    return true;
}
struct C : Obj
{
    int c; bool ch;
    C(const J& k) : c(k.n(1)), ch(k[0].s == "char") {}
    bool op(const std::string& o, const J& a, J& r) override
    {
        Loc loc; auto f = estd::use_facet<estd::ctype<char>>(loc); char k = (char)c; r = 0;
        if (o == "is") { B::mask m = 0; for (size_t i = 0; i < a.size(); i++) m |= bit(a[i].s); r = f.is(m, k); }
        else if (o == "isspace") r = f.isspace(k);
        else if (o == "isupper") r = f.isupper(k);
        else if (o == "islower") r = f.islower(k);
        else if (o == "widen") r = (int)(unsigned char)f.widen(k);
        else if (o == "lspace") r = estd::isspace(k, loc);
        else if (o == "cspace") r = estd::isspace(c) != 0;
        else if (o == "cupper") r = estd::isupper(c) != 0;
        else if (o == "clower") r = estd::islower(c) != 0;
        else if (o == "calpha") r = estd::isalpha(c) != 0;
        else if (o == "cdigit") r = estd::isdigit(c) != 0;
        else if (o == "in" || o == "from" || o == "raw") switch (a.n(0)) { case 2: return base<2>(o, a, c, r); case 8: return base<8>(o, a, c, r); case 10: return base<10>(o, a, c, r); case 11: return base<11>(o, a, c, r); case 16: return base<16>(o, a, c, r); case 36: return base<36>(o, a, c, r); default: return false; }
        else if (o == "to") switch (a.n(0)) { case 2: return to<2>(a[1].s, c, r); case 8: return to<8>(a[1].s, c, r); case 10: return to<10>(a[1].s, c, r); case 11: return to<11>(a[1].s, c, r); case 16: return to<16>(a[1].s, c, r); case 36: return to<36>(a[1].s, c, r); default: return false; }
        else return false;
        return true;
    }
    J obs() override { return J::obj().set("c", c); }
};
}
Obj* make(const J& c) { return new C(c); }
J end_report() { return 0; }
