#include "common.h"
#include <cmath>
#include <estd/string.h>
#include <estd/span.h>
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/charconv.h>
#include <estd/locale.h>

namespace {
typedef estd::ios_base B;
J number(bool neg, unsigned long long m, int base)
{
    std::vector<J> d;
    while (m) { d.insert(d.begin(), J((int)(m % base))); m /= base; }
    J r = J::arr(); r.add(neg); r.add(J(d)); return r;
}
template <class T> J num(T v, int base)
{
    if (v < 0) return number(true, 0ull - (unsigned long long)(long long)v, base);
    return number(false, (unsigned long long)v, base);
}
int err(B::iostate x) { return x & ~(B::badbit | B::failbit | B::eofbit) ? 99 : (x & B::badbit ? 1 : 0) | (x & B::failbit ? 2 : 0) | (x & B::eofbit ? 4 : 0); }

template <class T, unsigned b> struct Iter : Obj
{
    typedef estd::iterated::num_get<b, char, estd::locale::classic_type> N;
    N* n = new N; T v = 0; bool done = false;
    ~Iter() { delete n; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "feed")
        {
            if (done) return false;
            B::iostate e = B::goodbit;
            done = n->get((char)a.n(0), e, v);
            r = J::arr().add(done).add(err(e) == 2);
            if (e & ~B::failbit) r = "err";
        }
        else if (o == "again") { delete n; n = new N; v = 0; done = false; }
        else return false;
        return true;
    }
    J obs() override { return J::obj().set("v", num(v, b)); }
};
struct Text : Obj
{
    char* t; int len, pos = 0, base = 10; bool alpha = false;
    int size() const { return len; }
    int digits() { int c = 0; for (int i = pos; i < size(); i++) c += t[i] >= '0' && t[i] <= '9'; return c; }
    // read at q; returns value
    virtual bool read(const std::string& type, J& r) = 0;
    ~Text() { free(t); }
    template <class F> bool each(const std::string& ty, F f)
    {
        if (ty == "i8") { int8_t v = 1; f(v); } else if (ty == "u8") { uint8_t v = 1; f(v); }
        else if (ty == "i16") { int16_t v = 1; f(v); } else if (ty == "u16") { uint16_t v = 1; f(v); }
        else if (ty == "i32") { int32_t v = 1; f(v); } else if (ty == "u32") { uint32_t v = 1; f(v); }
        else if (ty == "i64") { int64_t v = 1; f(v); } else if (ty == "u64") { uint64_t v = 1; f(v); }
        else return false;
        return true;
    }
    J scaled(double v, int from, int to)
    {
        int k = 0; bool dot = false;
        for (int i = from; i < to; i++) { if (t[i] == '.') dot = true, k = 0; else if (dot) k++; }
        double s = v; while (k--) s *= 10;
        if (!(s > -2e9 && s < 2e9)) return "far";
        long long n = std::llround(s);
        if (std::fabs(s - n) > 1e-2 ) return "near";
        return (int)n;
    }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "read")
        {
            const std::string& ty = a[0].s;
            if ((ty == "f" || ty == "d") && (digits() > 6 || base != 10)) return false;
            return read(ty, r);
        }
        return more(o, a, r);
    }
    virtual bool more(const std::string& o, const J& a, J& r) = 0;
};
struct Fmt : Text
{
    estd::layer1::istringstream<8> fmt;
    void set()
    {
        fmt.setf(base == 8 ? B::oct : base == 16 ? B::hex : B::dec, B::basefield);
        if (alpha) fmt.setf(B::boolalpha); else fmt.unsetf(B::boolalpha);
    }
    template <class T> const char* get(T& v, B::iostate& e, int q) { estd::num_get<char, const char*> n; set(); return n.get(t + q, t + size(), fmt, e, v); }
    bool read(const std::string& ty, J& r) override
    {
        B::iostate e = B::goodbit; const char* p = nullptr; J val;
        if (ty == "b") { bool v = false; p = get(v, e, pos); val = v; }
        else if (ty == "f") { float v = 1; p = get(v, e, pos); val = scaled(v, pos, p - t); }
        else if (ty == "d") { double v = 1; p = get(v, e, pos); val = scaled(v, pos, p - t); }
        else if (!each(ty, [&](auto& v) { p = get(v, e, pos); val = num(v, base); })) return false;
        pos = p - t;
        r = J::arr().add(val).add(err(e));
        return true;
    }
    bool more(const std::string& o, const J& a, J& r) override
    {
        if (o == "base") base = a.n(0);
        else if (o == "alpha") alpha = a[0].i;
        else if (o == "skip") { if (pos == size()) return false; pos++; }
        else return false;
        return true;
    }
    J obs() override { return J::obj().set("left", size() - pos).set("st", 0); }
};
struct FromChars : Text
{
    bool read(const std::string&, J&) override { return false; }
    bool more(const std::string& o, const J& a, J& r) override
    {
        if (o == "skip") { if (pos == size()) return false; pos++; return true; }
        if (o != "from") return false;
        int b = a.n(1);
        return each(a[0].s, [&](auto& v)
        {
            v = 77; estd::from_chars_result x;
            if (b == 10) x = estd::from_chars(t + pos, t + size(), v); else x = estd::from_chars(t + pos, t + size(), v, b);
            int ec = x.ec == 0 ? 0 : x.ec == estd::errc::invalid_argument ? 1 : x.ec == estd::errc::result_out_of_range ? 2 : 9;
            r = J::arr().add(ec).add(ec ? J(v == 77) : num(v, b)).add((int)(x.ptr - (t + pos)));
        });
    }
    J obs() override { return J::obj().set("left", size() - pos).set("st", 0); }
};
typedef estd::layer1::istringstream<301> L1;
typedef estd::layer2::basic_istringstream<const char> L2;
typedef estd::detail::basic_ispanstream<const char> SP;
template <class S> struct Str : Text
{
    S* s = nullptr;
    ~Str() { delete s; }
    int left() { int av = (int)s->rdbuf()->in_avail(); return av == -1 ? 0 : av ? av : -7; }
    template <class T> bool in(T& v, J& r, int& q) { bool ok = s->good(); if (ok) { int p = pos; while (p < size() && isspace((unsigned char)t[p])) p++; q = p; ok = p < size(); } *s >> v; pos = size() - left(); return ok; }
    bool read(const std::string& ty, J& r) override
    {
        s->setf(base == 8 ? B::oct : base == 16 ? B::hex : B::dec, B::basefield);
        if (alpha) s->setf(B::boolalpha); else s->unsetf(B::boolalpha);
        J val; bool some = false; int q = pos;
        if (ty == "b") { bool v = false; some = in(v, r, q); val = v; }
        else if (ty == "f") { float v = 1; some = in(v, r, q); val = scaled(v, q, pos); }
        else if (ty == "d") { double v = 1; some = in(v, r, q); val = scaled(v, q, pos); }
        else if (!each(ty, [&](auto& v) { some = in(v, r, q); val = num(v, base); })) return false;
        r = J::arr().add(some ? val : J("none"));
        return true;
    }
    bool more(const std::string& o, const J& a, J& r) override
    {
        if (o == "base") base = a.n(0);
        else if (o == "alpha") alpha = a[0].i;
        else if (o == "clear") s->clear();
        else if (o == "skip") { if (left() <= 0) return false; s->rdbuf()->sbumpc(); pos = size() - left(); }
        else return false;
        return true;
    }
    J obs() override { return J::obj().set("left", left()).set("st", err(s->rdstate())); }
};
template <unsigned b> Obj* iter(const std::string& ty)
{
    if (ty == "i8") return new Iter<int8_t, b>; if (ty == "u8") return new Iter<uint8_t, b>;
    if (ty == "i16") return new Iter<int16_t, b>; if (ty == "u16") return new Iter<uint16_t, b>;
    if (ty == "i32") return new Iter<int32_t, b>; if (ty == "u32") return new Iter<uint32_t, b>;
    if (ty == "i64") return new Iter<int64_t, b>; if (ty == "u64") return new Iter<uint64_t, b>;
    return nullptr;
}
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "iter") return c.n(2) == 8 ? iter<8>(c[1].s) : c.n(2) == 10 ? iter<10>(c[1].s) : c.n(2) == 16 ? iter<16>(c[1].s) : nullptr;
    std::string t = c[1].str(); int n = (int)t.size();
    auto init = [&](Text* p, bool z) { p->t = (char*)malloc(n + z ? n + z : 1); memcpy(p->t, t.c_str(), n + z); p->len = n; };
    if (k == "range") { auto* p = new Fmt; init(p, false); return p; }
    if (k == "chars") { auto* p = new FromChars; init(p, false); return p; }
    if (k == "l1") { auto* p = new Str<L1>; init(p, false); p->s = new L1; p->s->rdbuf()->sputn(t.data(), n); return p; }
    if (k == "l2") { auto* p = new Str<L2>; init(p, true); p->s = new L2((const char*)p->t); return p; }
    if (k == "span") { auto* p = new Str<SP>; init(p, false); estd::span<const char> v(p->t, n); p->s = new SP(v); return p; }
    return nullptr;
}
J end_report() { return 0; }
