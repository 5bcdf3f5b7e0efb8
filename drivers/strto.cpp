// conformance driver: stol, stoul, stoi
#include "common.h"
#include <cassert>
#include <estd/string.h>
#include <climits>

static J wide(bool neg, unsigned long m)
{
    J j = J::arr(); j.add(m && neg ? 1 : 0);
    for (; m; m /= 1000) j.add((int)(m % 1000));
    return j;
}
static J wide(long v) { return wide(v < 0, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v); }

template <class S> struct H : Obj
{
    std::string t;
    unsigned cap;
    H(unsigned cap) : cap(cap) {}
    template <class Q> bool go(Q& s, const std::string& o, const J& a, J& r)
    {
        size_t pos = 12345, *p = a[2].i ? &pos : nullptr;
        int base = a.n(1);
        r = J::arr();
        if (o == "stol") r.add(wide(base == 10 && !p ? estd::stol(s) : estd::stol(s, p, base)));
        else if (o == "stoul") r.add(wide(false, base == 10 && !p ? estd::stoul(s) : estd::stoul(s, p, base)));
        else r.add(wide(base == 10 && !p ? (long)estd::stoi(s) : (long)estd::stoi(s, p, base)));
        r.add(p ? (int)pos : -1);
        t.assign(s.size(), 0); for (size_t i = 0; i < s.size(); i++) t[i] = s[i];
        r.add(codes(t));
        return true;
    }
    bool op(const std::string& o, const J& a, J& r) override
    {
        if (o != "stol" && o != "stoul" && o != "stoi") return false;
        std::string T; for (int c : a[0].ints()) T += (char)c;
        if (T.size() > cap) return false;
        if (o == "stoi") { long v = strtol(T.c_str(), nullptr, a.n(1)); if (v < INT_MIN || v > INT_MAX) return false; }
        return with((S*)nullptr, T, o, a, r);
    }
    template <size_t N> bool with(estd::layer1::string<N>*, const std::string& T, const std::string& o, const J& a, J& r)
    { std::unique_ptr<estd::layer1::string<N>> s(new estd::layer1::string<N>); *s += T.c_str(); return go(*s, o, a, r); }
    bool with(estd::layer2::const_string*, const std::string& T, const std::string& o, const J& a, J& r)
    { std::unique_ptr<char[]> b(new char[T.size() + 1]); strcpy(b.get(), T.c_str()); estd::layer2::const_string s(b.get()); return go(s, o, a, r); }
    J obs() override { J o = J::obj(); o.set("zz", 0); return o; }
};
J end_report() { return 0; }
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "l1") return new H<estd::layer1::string<16>>(15);
    if (k == "l1w") return new H<estd::layer1::string<101>>(100);
    if (k == "l2") return new H<estd::layer2::const_string>(100);
    return nullptr;
}
