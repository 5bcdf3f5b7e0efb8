#include "common.h"
#include <estd/string.h>
#include <estd/span.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/iomanip.h>
#include <estd/charconv.h>
#include <estd/locale.h>
#include <estd/internal/locale/num_put.h>

namespace {
typedef estd::ios_base B;
struct Sink
{
    typedef char char_type; typedef estd::char_traits<char> traits_type; typedef traits_type::int_type int_type;
    typedef traits_type::pos_type pos_type; typedef traits_type::off_type off_type;
    std::string s; size_t cap = 0, flushed = 0; bool broken = false;
    int_type sputc(char c) { if (s.size() >= cap) return traits_type::eof(); s += c; return traits_type::to_int_type(c); }
    estd::streamsize sputn(const char* p, estd::streamsize n) { estd::streamsize i = 0; for (; i < n && s.size() < cap; i++) s += p[i]; return i; }
    int pubsync() { if (broken) return -1; flushed = s.size(); return 0; }
    pos_type pubseekoff(off_type, B::seekdir, B::openmode = B::out) { return (pos_type)s.size(); }
};
template <class F> bool each(const J& n, F f)
{
    const std::string& ty = n[0].s; unsigned long long m = 0;
    for (auto& x : n[2].a) m = m * 16 + x.i;
    if (n[1].i) m = 0 - m;
    if (ty == "i8") f((int8_t)m); else if (ty == "u8") f((uint8_t)m);
    else if (ty == "i16") f((int16_t)m); else if (ty == "u16") f((uint16_t)m);
    else if (ty == "i32") f((int32_t)m); else if (ty == "u32") f((uint32_t)m);
    else if (ty == "i64") f((int64_t)m); else if (ty == "u64") f((uint64_t)m);
    else return false;
    return true;
}
int sync(Sink& k) { return (int)(k.s.size() - k.flushed); }
template <class T> int sync(T&) { return 0; }
void brk(Sink& k, bool b) { k.broken = b; }
template <class T> void brk(T&, bool) {}

template <class S> struct OS : Obj
{
    S* s = nullptr; char* mem = nullptr; int cap = 0, var = 0; bool unit = false;
    ~OS() { delete s; free(mem); }
    J text(Sink& k) { return codes(k.s); }
    template <class T> J text(T& b) { if (mem) return codes(mem, cap); return txt(b, 0); }
    template <class T> auto txt(T& b, int) -> decltype((void)b.str(), J()) { auto& v = b.str(); return codes(v.clock(), v.size()); }
    template <class T> J txt(T&, long) { return "?"; }
    template <unsigned N> void l1(const std::string& t) { estd::layer1::string<N> v(t.c_str()); *s << v; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; var++;
        if (o == "num") return each(a, [&](auto v) { *s << v; });
        if (o == "char") *s << (char)a.n(0);
        else if (o == "put") s->put((char)a.n(0));
        else if (o == "write") { std::string t = a.str(); char* p = (char*)malloc(t.size() ? t.size() : 1); memcpy(p, t.data(), t.size()); s->write(p, t.size()); free(p); }
        else if (o == "str")
        {
            std::string t = a[1].str(); const std::string& k = a[0].s;
            if (k == "c") *s << t.c_str();
            else if (k == "l1") { if (t.size() < 8) l1<8>(t); else if (t.size() < 300) l1<301>(t); else return false; }
            else if (k == "l2") { estd::layer2::const_string v(t.c_str()); *s << v; }
            else { char* p = strdup(t.c_str()); estd::layer3::string v(p, (unsigned short)t.size(), (unsigned short)(t.size() + 1)); *s << v; free(p); }
        }
        else if (o == "ptr") { unsigned long long m = 0; for (auto& x : a.a) m = m * 16 + x.i; *s << (void*)m; }
        else if (o == "endl") *s << estd::endl;
        else if (o == "flush") { s->flush(); if (!s->bad() && sync(*s->rdbuf())) r = "unflushed"; }
        else if (o == "setw") { if (var % 2) *s << estd::setw(a.n(0)); else s->width(a.n(0)); }
        else if (o == "fill") { if (var % 2) *s << estd::setfill((char)a.n(0)); else s->fill((char)a.n(0)); }
        else if (o == "base")
        {
            int b = a.n(0);
            if (var % 3 == 0) *s << estd::setbase(b);
            else if (var % 3 == 1) { if (b == 8) *s << estd::oct; else if (b == 10) *s << estd::dec; else *s << estd::hex; }
            else s->setf(b == 8 ? B::oct : b == 10 ? B::dec : B::hex, B::basefield);
        }
        else if (o == "upper") { if (a[0].i) s->setf(B::uppercase); else s->unsetf(B::uppercase); }
        else if (o == "left") s->setf(a[0].i ? B::left : B::right, B::adjustfield);
        else if (o == "unit") { unit = a[0].i; if (unit) { s->setf(B::unitbuf); s->rdbuf()->pubsync(); } else s->unsetf(B::unitbuf); }
        else if (o == "break") { brk(*s->rdbuf(), a[0].i); if (unit) s->rdbuf()->pubsync(); }
        else if (o == "clear") { s->clear(); if (unit) s->rdbuf()->pubsync(); }
        else if (o == "seekp") { S& x = s->seekp(a.n(0), a.n(1) == 0 ? B::beg : a.n(1) == 1 ? B::end : B::cur); if (&x != s) r = "not the stream"; }
        else if (o == "tellp") r = (int)s->tellp();
        else return false;
        return true;
    }
    J obs() override
    {
        J o = J::obj(); auto x = s->rdstate();
        int pos = 0;
        { auto p = s->rdbuf()->pubseekoff(0, B::cur, B::out); pos = (int)p; }
        o.set("d", text(*s->rdbuf())).set("pp", pos).set("w", (int)s->width()).set("f", (int)(unsigned char)s->fill()).set("fail", s->fail())
         .set("good", s->good()).set("pend", unit && s->good() && !brkd() ? sync(*s->rdbuf()) : unit && s->good() ? 0 : -1);
        (void)x;
        return o;
    }
    bool brkd() { return broken(*s->rdbuf()); }
    static bool broken(Sink& k) { return k.broken; }
    template <class T> static bool broken(T&) { return false; }
};
struct Conv : Obj
{
    template <unsigned N, class T> J arr(T v, int b)
    {
        struct { char buf[N]; char guard[8]; } z; memset(&z, 1, sizeof z);
        auto x = estd::to_string_opt(z.buf, v, b);
        if (!(x.ec == 0)) return J::arr().add(false).add(J::arr());
        if (z.buf[N - 1] || x.ptr + strlen(x.ptr) != z.buf + N - 1) return "bad terminator";
        return J::arr().add(true).add(codes(x.ptr, strlen(x.ptr)));
    }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        auto none = J::arr().add(false).add(J::arr());
        if (o == "to")
        {
            const std::string& f = a[0].s; int b = a.n(2), room = a.n(3);
            return each(a[1], [&](auto v)
            {
                char* p = (char*)malloc(room ? room : 1); memset(p, 1, room);
                estd::to_chars_result x; const char *from = p, *to;
                if (f == "chars") { x = b == 10 ? estd::to_chars(p, p + room, v) : estd::to_chars(p, p + room, v, b); to = x.ptr; }
                else if (f == "opt") { x = b == 10 ? estd::to_chars_opt(p, p + room, v) : estd::to_chars_opt(p, p + room, v, b); from = x.ptr; to = p + room; }
                else if (f == "upper") { x = estd::to_chars_opt(p, p + room, v, b, true); from = x.ptr; to = p + room; }
                else { x = estd::to_chars_exp(p, p + room, v, b); to = x.ptr; }
                if (!(x.ec == 0)) r = x.ec == estd::errc::value_too_large ? none : J("wrong error");
                else if (from < p || to > p + room || from > to) r = "outside";
                else r = J::arr().add(true).add(codes(from, to - from));
                free(p);
            });
        }
        if (o == "tostr") return each(a[1], [&](auto v)
        {
            if (a[0].s == "str") { auto s = estd::to_string(v); r = J::arr().add(true).add(codes(s.clock(), s.size())); }
            else { estd::layer1::string<32> s; s = "x"; estd::to_string(s, v); r = J::arr().add(true).add(codes(s.clock(), s.size())); }
        });
        if (o == "toarr") return each(a[0], [&](auto v) { int room = a.n(2); r = room == 3 ? arr<4>(v, a.n(1)) : room == 12 ? arr<13>(v, a.n(1)) : arr<70>(v, a.n(1)); });
        if (o == "numput" || o == "boolput")
        {
            char* p = (char*)malloc(100); char* e = nullptr;
            estd::layer1::ostringstream<8> fmt;
            typedef estd::num_put<char, char*> NP;
            if (o == "boolput") { if (a[1].i) fmt.setf(B::boolalpha); bool v = a[0].i; e = NP::put(p, fmt, ' ', v); }
            else
            {
                int b = a.n(1); fmt.setf(b == 8 ? B::oct : b == 10 ? B::dec : B::hex, B::basefield);
                if (a[2].i) fmt.setf(B::uppercase);
                fmt.width(a.n(3)); fmt.setf(a[5].i ? B::left : B::right, B::adjustfield);
                if (!each(a[0], [&](auto v) { e = NP::put(p, fmt, (char)a.n(4), v); })) return false;
            }
            r = J::arr().add(true).add(codes(p, e - p)); free(p);
            return true;
        }
        return false;
    }
    J obs() override { return J::obj().set("c", 1); }
};
template <unsigned N> Obj* l1() { typedef estd::layer1::ostringstream<N + 1> S; auto* p = new OS<S>; p->cap = N; p->s = new S; return p; }
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s; int n = c.n(1);
    if (k == "conv") return new Conv;
    if (k == "l1") return n == 3 ? l1<3>() : n == 4 ? l1<4>() : n == 20 ? l1<20>() : n == 250 ? l1<250>() : nullptr;
    if (k == "span")
    {
        typedef estd::detail::ospanstream S; auto* p = new OS<S>; p->cap = n; p->mem = (char*)malloc(n ? n : 1); memset(p->mem, 238, n);
        estd::span<char> v(p->mem, n); p->s = new S(v); return p;
    }
    if (k == "sink") { typedef estd::detail::basic_ostream<Sink> S; auto* p = new OS<S>; p->cap = n; p->s = new S; p->s->rdbuf()->cap = n; return p; }
    return nullptr;
}
J end_report() { return 0; }
