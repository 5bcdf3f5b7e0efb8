// conformance driver: string search / compare / views
#include "common.h"
#include <estd/string.h>
#include <estd/string_view.h>

template <class S> size_t hashof(const S& s) { return estd::hash<S>{}(s); }
// layer3 strings hash through their view conversion
template <bool Z> size_t hashof(const estd::layer3::basic_string<char, Z>& s) { return estd::hash<estd::string_view>{}(estd::string_view(s.data(), s.size())); }
inline size_t hashof(const estd::layer3::const_string& s) { return estd::hash<estd::string_view>{}(estd::string_view(s.clock(), s.size())); }

template <class S> struct Search : Obj
{
    // exact-size heap copies: any read past the end is an ASAN report
    std::unique_ptr<char[]> mem;
    std::unique_ptr<S> s;
    std::string plain;
    virtual void assign(const std::string& t) = 0;

    static J pos(size_t p) { return p == (size_t)(typename S::size_type)S::npos || p == (size_t)-1 ? J(-1) : J((int)p); }
    static J sgn(int c) { return c < 0 ? J(-1) : c > 0 ? J(1) : J(0); }

    bool mut(const std::string&, const J&, J&, std::false_type) { return false; }
    bool mut(const std::string& o, const J& a, J& r, std::true_type)
    {
        r = 0;
        if (o == "remove_prefix") { if (a.n(0) > (int)s->size()) return false; s->remove_prefix(a.n(0)); }
        else if (o == "remove_suffix") { if (a.n(0) > (int)s->size()) return false; s->remove_suffix(a.n(0)); }
        else if (o == "substr")
        {
            if (a.n(0) > (int)s->size()) return false;
            S t = a.n(1) == -1 ? s->substr(a.n(0)) : s->substr(a.n(0), a.n(1));
            r = J::arr(); for (auto c = t.begin(); c != t.end(); ++c) r.add((int)(unsigned char)*c);
        }
        else return false;
        return true;
    }
    bool op(const std::string& o, const J& a, J& r) override
    {
        typedef typename S::size_type st;
        S& v = *s;
        r = 0;
        if (o == "set") { plain = a[0].str(); assign(plain); return true; }
        if (o == "hash_same")
        {
            estd::layer1::string<400> x; J c = content();
            for (auto& k : c.a) { if (!k.i) return false; x += (char)k.i; }
            r = (bool)(hashof(v) == estd::hash<estd::layer1::string<400>>{}(x) && x == v);
            return true;
        }
        if (o == "remove_prefix" || o == "remove_suffix" || o == "substr")
            return mut(o, a, r, std::integral_constant<bool, std::is_same<S, estd::string_view>::value>());
        if (o == "find_ch") { r = pos(a.n(1) ? v.find((char)a.n(0), (st)a.n(1)) : v.find((char)a.n(0))); return true; }
        if (o == "starts_ch") { r = (bool)v.starts_with((char)a.n(0)); return true; }
        if (o == "ends_ch") { r = (bool)v.ends_with((char)a.n(0)); return true; }
        std::string t = a[0].str();
        // heap copies of the needle, exact size
        std::unique_ptr<char[]> ex(new char[t.size() + 1]); memcpy(ex.get(), t.c_str(), t.size() + 1);
        std::unique_ptr<char[]> nn(new char[t.size() ? t.size() : 1]); memcpy(nn.get(), t.data(), t.size());
        const char* c = ex.get();
        estd::layer1::string<64> x(c);
        estd::string_view vw(nn.get(), t.size());
        int p = a.size() > 1 ? a.n(1) : 0;
        bool nul = t.find('\0') != t.npos, useview = nul || (p + t.size()) % 2;
        // a terminated needle cannot hold its terminator
        if (nul && o[o.size() - 1] == 'c') return false;
        if (o == "find_c") r = pos(p ? v.find(c, (st)p) : v.find(c));
        else if (o == "find_n") r = pos(v.find(nn.get(), (st)p, (st)t.size()));
        else if (o == "find_s") r = pos(p == 0 ? (nul || t.size() % 2 ? v.find(vw) : v.find(x)) : useview ? v.find(vw, (st)p) : v.find(x, (st)p));
        else if (o == "rfind_c") r = pos(p == -1 ? v.rfind(c) : v.rfind(c, (st)p));
        else if (o == "rfind_n") r = pos(v.rfind(nn.get(), p == -1 ? (st)S::npos : (st)p, (st)t.size()));
        else if (o == "rfind_s") r = pos(p == -1 ? (nul || t.size() % 2 ? v.rfind(vw) : v.rfind(x)) : useview ? v.rfind(vw, (st)p) : v.rfind(x, (st)p));
        else if (o == "first_c") r = pos(p ? v.find_first_of(c, (st)p) : v.find_first_of(c));
        else if (o == "first_n") r = pos(v.find_first_of(nn.get(), (st)p, (st)t.size()));
        else if (o == "first_s") r = pos(p == 0 ? (nul || t.size() % 2 ? v.find_first_of(vw) : v.find_first_of(x)) : useview ? v.find_first_of(vw, (st)p) : v.find_first_of(x, (st)p));
        else if (o == "last_c") r = pos(p == -1 ? v.find_last_of(c) : v.find_last_of(c, (st)p));
        else if (o == "last_n") r = pos(v.find_last_of(nn.get(), p == -1 ? (st)S::npos : (st)p, (st)t.size()));
        else if (o == "last_s") r = pos(p == -1 ? (nul || t.size() % 2 ? v.find_last_of(vw) : v.find_last_of(x)) : useview ? v.find_last_of(vw, (st)p) : v.find_last_of(x, (st)p));
        else if (o == "starts_c") r = (bool)v.starts_with(c);
        else if (o == "starts_s") r = (bool)(useview ? v.starts_with(vw) : v.starts_with(x));
        else if (o == "ends_c") r = (bool)v.ends_with(c);
        else if (o == "ends_s") r = (bool)(useview ? v.ends_with(vw) : v.ends_with(x));
        else if (o == "cmp_c") r = sgn(v.compare(c));
        else if (o == "cmp_s") r = sgn(useview ? v.compare(vw) : v.compare(x));
        else if (o == "eq_c") r = (bool)(v == c);
        else if (o == "eq_rc") r = (bool)(c == v);
        else if (o == "eq_s") r = (bool)(useview ? v == vw : x == v);
        else return false;
        return true;
    }
    J content()
    {
        J j = J::arr();
        for (size_t i = 0; i < s->size(); i++) j.add((int)(unsigned char)(char)(*s)[i]);
        return j;
    }
    J obs() override { J o = J::obj(); J it = J::arr(); const S& k = *s; for (auto i = k.begin(), e = k.end(); i != e; ++i) it.add((int)(unsigned char)(char)*i);
        o.set("c", content()).set("it", it).set("e", (bool)k.empty()).set("n", k.length() == k.size() ? J((int)k.size()) : J("length")); return o; }
};

struct SV : Search<estd::string_view>
{
    SV() { assign(""); }
    void assign(const std::string& t) override
    {
        mem.reset(new char[t.size() ? t.size() : 1]); memcpy(mem.get(), t.data(), t.size());
        s.reset(new estd::string_view(mem.get(), t.size()));
    }
};
template <bool Z> struct L1 : Search<estd::layer1::string<12, Z>>
{
    L1() { assign(""); }
    void assign(const std::string& t) override { this->s.reset(new estd::layer1::string<12, Z>(t.c_str())); }
};
template <bool C> struct L2 : Search<estd::layer2::basic_string<typename std::conditional<C, const char, char>::type, 0>>
{
    typedef estd::layer2::basic_string<typename std::conditional<C, const char, char>::type, 0> type;
    L2() { assign(""); }
    void assign(const std::string& t) override
    {
        this->mem.reset(new char[t.size() + 1]); memcpy(this->mem.get(), t.c_str(), t.size() + 1);
        this->s.reset(new type(this->mem.get()));
    }
};
struct L3 : Search<estd::layer3::basic_string<char, false>>
{
    L3() { assign(""); }
    void assign(const std::string& t) override
    {
        mem.reset(new char[t.size() ? t.size() : 1]); memcpy(mem.get(), t.data(), t.size());
        s.reset(new estd::layer3::basic_string<char, false>(mem.get(), (uint16_t)t.size(), (uint16_t)t.size()));
    }
};
struct L3C : Search<estd::layer3::const_string>
{
    L3C() { assign(""); }
    void assign(const std::string& t) override
    {
        mem.reset(new char[t.size() ? t.size() : 1]); memcpy(mem.get(), t.data(), t.size());
        s.reset(new estd::layer3::const_string(mem.get(), t.size()));
    }
};

J end_report() { return 0; }
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "sv") return new SV;
    if (k == "l1z") return new L1<true>;
    if (k == "l1s") return new L1<false>;
    if (k == "l2") return new L2<false>;
    if (k == "l2c") return new L2<true>;
    if (k == "l3") return new L3;
    if (k == "l3c") return new L3C;
    return nullptr;
}
