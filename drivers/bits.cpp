#include "common.h"
#include <cassert>
#include <estd/bit.h>
#include <estd/flags.h>
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/vector.h>

namespace bits {
enum class Fl : unsigned char { none = 0, a = 1, b = 2, c = 4, h = 128, all = 255 };
ESTD_FLAGS(Fl)
}
namespace {
using bits::Fl;
typedef estd::detail::v1::flags<Fl> Fs;
template <class T> J by(T v) { J j = J::arr(); for (size_t i = 0; i < sizeof(T); i++) j.add((int)((v >> (8 * i)) & 255)); return j; }
template <class P, estd::internal::fnv_modes m> struct H { typedef estd::internal::fnv_hash<P, m> T; };
typedef H<uint32_t, estd::internal::FNV_1>::T A; typedef H<uint32_t, estd::internal::FNV_1A>::T B;
typedef H<uint64_t, estd::internal::FNV_1>::T C; typedef H<uint64_t, estd::internal::FNV_1A>::T D;
template <class T> J h4(const T* p, size_t n) { return J::arr().add(by(A::hash(p, p + n))).add(by(B::hash(p, p + n))).add(by(C::hash(p, p + n))).add(by(D::hash(p, p + n))); }
template <class T> struct Big { uint8_t n; };
struct Hash : Obj
{
    std::vector<char> s;
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "put") { s.push_back((char)a.n(0)); return true; }
        if (o == "ident") { int v = a.n(0); size_t z = estd::hash<int>{}(v); r = (int)z; if (z != (size_t)v) r = "int"; if (estd::hash<signed char>{}((signed char)v) != (size_t)(signed char)v) r = "char"; if (estd::hash<long long>{}(v - (1LL << 40)) != (size_t)(v - (1LL << 40))) r = "ll"; if (estd::hash<unsigned char>{}(v & 255) != (size_t)(v & 255)) r = "uchar"; if (estd::hash<unsigned long long>{}(v + (1ULL << 40)) != v + (1ULL << 40)) r = "ull"; return true; }
        size_t n = s.size(); std::unique_ptr<char[]> h(new char[n]); memcpy(h.get(), s.data(), n); char* p = h.get();
        if (o == "chain")
        {
            if ((size_t)a.n(0) > n) return false; char* q = p + a.n(0); const uint8_t* u = (const uint8_t*)p; const uint8_t* v = (const uint8_t*)q;
            r = J::arr().add(by(A::hash(q, p + n, A::hash(p, q)))).add(by(B::hash(v, u + n, B::hash(u, v)))).add(by(C::hash(v, u + n, C::hash(u, v)))).add(by(D::hash(q, p + n, D::hash(p, q))));
            return true;
        }
        if (o != "cont" || n > 30) return false;
        const std::string& k = a[0].s; bool z = memchr(p, 0, n) != nullptr; size_t v;
        if ((k == "l1" || k == "l2") && z) return false;
        if (k == "l1") { estd::layer1::string<31> t; t.append(p, n); v = estd::hash<decltype(t)>{}(t); }
        else if (k == "l1n") { estd::layer1::string<31, false> t; t.append(p, n); v = estd::hash<estd::layer1::string<31, false>>{}(t); }
        else if (k == "l2") { std::unique_ptr<char[]> b(new char[n + 1]); memcpy(b.get(), p, n); b[n] = 0; estd::layer2::const_string t(b.get()); v = estd::hash<estd::layer2::const_string>{}(t); }
        else if (k == "sv") { estd::string_view t(p, n); v = estd::hash<estd::string_view>{}(t); }
        else { estd::layer1::vector<uint8_t, 31> t; for (size_t i = 0; i < n; i++) t.push_back((uint8_t)p[i]); if (k == "vec") v = estd::internal::container_hash<>{}(t); else { r = by((uint64_t)estd::internal::container_hash<uint64_t>{}(t)); return true; } }
        if (v >> 32) r = "more than 32 bits"; else r = by((uint32_t)v);
        return true;
    }
    J obs() override
    {
        size_t n = s.size(); std::unique_ptr<uint8_t[]> h(new uint8_t[n]); memcpy(h.get(), s.data(), n);
        J x = h4(h.get(), n), y = h4((const int8_t*)h.get(), n); std::string a, b; x.write(a); y.write(b);
        return J::obj().set("s", codes(s.data(), n)).set("h", a == b ? x : J("signed"));
    }
};
struct Flags : Obj
{
    Fs f; Flags() : f(Fl::none) {}
    static int val(Fs x) { return (int)(unsigned char)x.value(); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "not") { r = val(~f); Fl e = f; if (val(~e) != r.i) r = "enum"; return true; }
        if (o == "any") { r = (bool)f; return true; }
        if (a.size() != 1) return false;
        Fl v = (Fl)a.n(0), e = f; Fs g(v); using namespace bits;
        if (o == "oreq") { if (a.n(0) & 1) f |= g; else f |= v; }
        else if (o == "set") f = v;
        else if (o == "or") { r = val(f | v); if (val(e | v) != r.i) r = "enum"; }
        else if (o == "and") { r = val(f & v); if (val(e & v) != r.i) r = "enum"; }
        else if (o == "xor") { r = val(f ^ v); if (val(e ^ v) != r.i) r = "enum"; }
        else if (o == "eq") { r = f == v; if ((f == g) != (bool)r.i || (f != g) == (bool)r.i) r = "inconsistent"; }
        else return false;
        return true;
    }
    J obs() override { return J::obj().set("s", J::arr().add(val(f))).set("h", J::arr()); }
};
template <class T> struct Sw : Obj
{
    T v = 0;
    bool op(const std::string& o, const J&, J& r) override { r = 0; if (o != "swap") return false; v = estd::byteswap(v); return true; }
    J obs() override { return J::obj().set("s", by((typename std::make_unsigned<T>::type)v)).set("h", J::arr()); }
};
template <class T> Obj* sw(const J& b) { auto* p = new Sw<T>; typename std::make_unsigned<T>::type u = 0; for (size_t i = 0; i < b.size(); i++) u |= (decltype(u))b.n(i) << (8 * i); p->v = (T)u; return p; }
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "hash") return new Hash;
    if (k == "flags") return new Flags;
    const std::string& t = c[1].s;
    if (t == "u16") return sw<uint16_t>(c[2]); if (t == "i16") return sw<int16_t>(c[2]); if (t == "u32") return sw<uint32_t>(c[2]);
    if (t == "i32") return sw<int32_t>(c[2]); if (t == "u64") return sw<uint64_t>(c[2]); return sw<int64_t>(c[2]);
}
J end_report() { return 0; }
