#include "common.h"
#include <estd/string.h>
#include <estd/span.h>
#include <estd/sstream.h>
#include <estd/istream.h>

namespace {
typedef estd::layer1::istringstream<701> L1;
typedef estd::layer2::basic_istringstream<const char> L2;
typedef estd::layer1::istringstream<700, false> L1N;
typedef estd::detail::ispanstream SPm;
typedef estd::detail::basic_ispanstream<const char> SP;

// cannot be synchronized
struct NoSync : estd::internal::impl::in_span_streambuf<const char>
{
    typedef estd::internal::impl::in_span_streambuf<const char> base_type;
    NoSync(const estd::span<const char>& s) : base_type(s) {}
    int sync() { return -1; }
};
typedef estd::detail::basic_istream<estd::internal::streambuf<NoSync>> NS;

template <class S> struct IO : Obj
{
    S* s = nullptr; char* mem = nullptr; bool nul = std::is_same<S, L1N>::value || std::is_same<S, SP>::value || std::is_same<S, NS>::value;
    ~IO() { delete s; free(mem); }
    template <int N> J str()
    {
        if (nul) { estd::layer1::string<N, false> v; for (int i = 0; i < N; i++) v += "?"; *s >> v; return J::arr().add(codes(v.clock(), v.size())); }
        estd::layer1::string<N + 1> v; for (int i = 0; i < N; i++) v += "?";
        *s >> v;
        return J::arr().add(codes(v.clock(), v.size()));
    }
    J two(J v) { J r = J::arr(); r.add(v).add((int)s->gcount()); return r; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        typedef estd::ios_base B;
        r = 0;
        if (o == "get") { int c = s->get(); r = two(c); }
        else if (o == "peek") { int c = s->peek(); r = two(c); }
        else if (o == "unget") { s->unget(); r = (int)s->gcount(); }
        else if (o == "read" || o == "readsome")
        {
            int n = a.n(0); char* p = (char*)malloc(n ? n : 1); memset(p, 1, n);
            int k = 0;
            if (o == "read") { s->read(p, n); k = (int)s->gcount(); } else k = (int)s->readsome(p, n);
            r = two(k < 0 || k > n ? J(k) : codes(p, k)); free(p);
        }
        else if (o == "getline")
        {
            int n = a.n(0); char* p = (char*)malloc(n); memset(p, 1, n);
            if (a.n(1) == 10) s->getline(p, n); else s->getline(p, n, (char)a.n(1));
            int k = (int)s->gcount();
            int len = 0;        // NUL may be content: as far as was stored
            // stored = extracted, less a delimiter; the terminator follows it
            bool at = k <= n - 1 && p[k] == 0 && (k == 0 || p[k - 1] != 1);
            len = at ? k : k - 1;
            if (len < 0 || len > n - 1 || p[len] != 0) r = two(J("bad")); else r = two(codes(p, len));
            free(p);
        }
        else if (o == "ignore") { if (a.n(1) == -1) { if (a.n(0) == 1) s->ignore(); else s->ignore(a.n(0)); } else s->ignore(a.n(0), a.n(1)); r = (int)s->gcount(); }
        else if (o == "seekg") s->seekg(a.n(0), a.n(1) == 0 ? B::beg : a.n(1) == 1 ? B::end : B::cur);
        else if (o == "clear") { if (a.n(0)) s->clear(st(a.n(0))); else s->clear(); }
        else if (o == "setstate") s->setstate(st(a.n(0)));
        else if (o == "ws") *s >> estd::ws;
        else if (o == "char") { char c = 1; *s >> c; r = s->fail() ? -1 : (int)(unsigned char)c; if (s->fail() && c != 1) r = -2; }
        else if (o == "str") { switch (a.n(0)) { case 3: r = str<3>(); break; case 7: r = str<7>(); break; case 12: r = str<12>(); break; case 40: r = str<40>(); break; case 280: r = str<280>(); break; default: return false; } }
        else if (o == "sync") s->sync();
        else return false;
        return true;
    }
    static estd::ios_base::iostate st(int n) { return (n & 1 ? estd::ios_base::badbit : 0) | (n & 2 ? estd::ios_base::failbit : 0) | (n & 4 ? estd::ios_base::eofbit : 0); }
    J obs() override
    {
        J o = J::obj();
        typedef estd::ios_base B;
        auto x = s->rdstate();
        int n = (x & B::badbit ? 1 : 0) | (x & B::failbit ? 2 : 0) | (x & B::eofbit ? 4 : 0);
        if (x & ~(B::badbit | B::failbit | B::eofbit)) n = 99;
        int av = (int)s->rdbuf()->in_avail();
        o.set("left", av == -1 ? 0 : av ? av : -7).set("st", n).set("good", s->good()).set("fail", s->fail()).set("bad", s->bad()).set("eof", s->eof())
         .set("ok", (bool)*s);
        return o;
    }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s; std::string t = c[1].str();
    if (k == "l1") { auto* p = new IO<L1>; p->s = new L1; p->s->rdbuf()->sputn(t.data(), t.size()); return p; }
    if (k == "l1n") { auto* p = new IO<L1N>; p->s = new L1N; p->s->rdbuf()->sputn(t.data(), t.size()); return p; }
    if (k == "l2") { auto* p = new IO<L2>; p->mem = (char*)malloc(t.size() + 1); memcpy(p->mem, t.c_str(), t.size() + 1); p->s = new L2((const char*)p->mem); return p; }
    if (k == "span")
    {
        auto* p = new IO<SP>; p->mem = (char*)malloc(t.size() ? t.size() : 1); memcpy(p->mem, t.data(), t.size());
        estd::span<const char> v(p->mem, t.size()); p->s = new SP(v); return p;
    }
    if (k == "nosync")
    {
        auto* p = new IO<NS>; p->mem = (char*)malloc(t.size() ? t.size() : 1); memcpy(p->mem, t.data(), t.size());
        estd::span<const char> v(p->mem, t.size()); p->s = new NS(v); return p;
    }
    return nullptr;
}
J end_report() { return 0; }
