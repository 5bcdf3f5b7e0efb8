#include "common.h"
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/streambuf.h>

namespace {
typedef estd::detail::streambuf<estd::internal::impl::in_span_streambuf<const char>> ISpan;
typedef estd::detail::streambuf<estd::internal::impl::out_span_streambuf<char>> OSpan;
typedef estd::detail::streambuf<estd::internal::impl::out_span_streambuf<uint32_t>> OSpan32;
typedef estd::internal::streambuf<estd::internal::impl::basic_stringbuf<estd::layer2::basic_string<const char, 0, true>>> L2;

int code(char c) { return (unsigned char)c; }
int code(uint32_t c) { return (int)c; }
template <class T> int res(T v, char) { return v == estd::char_traits<char>::eof() ? -1 : (int)(unsigned char)v; }
template <class T> int res(T v, uint32_t) { return v == estd::char_traits<uint32_t>::eof() ? -1 : (int)v; }
template <class T> J cods(const T* p, size_t n) { J j = J::arr(); for (size_t i = 0; i < n; i++) j.add(code(p[i])); return j; }

template <class B> struct Base : Obj
{
    B* b = nullptr;
    ~Base() { delete b; }
    static estd::ios_base::seekdir dir(int d) { return d == 0 ? estd::ios_base::beg : d == 1 ? estd::ios_base::end : estd::ios_base::cur; }
    static int wh(int w) { return (w & 4 ? estd::ios_base::in : 0) | (w & 8 ? estd::ios_base::out : 0); }
    template <class P> static int pos(P p) { return p == (P)-1 ? -1 : (int)p; }
    bool in(const std::string& n, const J& a, J& r)
    {
        if (n == "sgetc") { r = res(b->sgetc(), ' '); return true; }
        if (n == "sbumpc") { r = res(b->sbumpc(), ' '); return true; }
        if (n == "snextc") { r = res(b->snextc(), ' '); return true; }
        if (n == "sungetc") { r = res(b->sungetc(), ' '); return true; }
        if (n == "sgetn")
        {
            int k = a.n(0); char* p = (char*)malloc(k ? k : 1);
            int got = (int)b->sgetn(p, k);
            r = got < 0 || got > k ? J("bad count") : codes(p, got); free(p); return true;
        }
        return false;
    }
    bool sync(const std::string& n, J& r) { if (n != "pubsync") return false; r = b->pubsync(); return true; }
    J ob(int av, int cur, const J& d, int pp) { J o = J::obj(); o.set("av", av).set("cur", cur).set("d", d).set("pp", pp); return o; }
};
template <class C, class B> bool outs(B* b, const std::string& n, const J& a, J& r)
{
    if (n == "sputc") { r = res(b->sputc((C)a.n(0)), C()); return true; }
    if (n == "sputn")
    {
        size_t k = a.size(); C* p = (C*)malloc(k ? k * sizeof(C) : 1); for (size_t i = 0; i < k; i++) p[i] = (C)a.n(i);
        r = (int)b->sputn(p, k); free(p); return true;
    }
    return false;
}
struct InS : Base<ISpan>
{
    char* p; int n;
    InS(int n_) : n(n_) { p = (char*)malloc(n ? n : 1); for (int i = 1; i <= n; i++) p[i - 1] = i % 7 == 3 ? 255 : i % 7 == 5 ? 0 : 97 + (i - 1) % 26; b = new ISpan(estd::span<const char>(p, n)); }
    ~InS() { free(p); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        if (o == "seek")
        {
            int off = a.n(0), d = a.n(1);
            r = pos(b->pubseekoff(off, dir(d), wh(a.n(2)))); return true;
        }
        return in(o, a, r) || sync(o, r);
    }
    J obs() override { bool ok = b->egptr() - b->eback() == n && b->eback() == p; return ob(ok ? (int)b->in_avail() : -99, res(b->sgetc(), ' '), J::arr(), 0); }
};
template <class B> struct Str : Base<B>
{
    using Base<B>::b;
    bool seek(const J& a, J& r)
    {
        int off = a.n(0), d = a.n(1);
        r = this->pos(b->pubseekoff(off, this->dir(d), this->wh(a.n(2)))); return true;
    }
};
struct L2S : Str<L2>
{
    char* p; int n;
    L2S(int n_) : n(n_) { p = (char*)malloc(n + 1); for (int i = 1; i <= n; i++) p[i - 1] = i % 7 == 3 ? 255 : 97 + (i - 1) % 26; p[n] = 0; b = new L2((const char*)p); }
    ~L2S() { free(p); }
    bool op(const std::string& o, const J& a, J& r) override { return o == "seek" ? seek(a, r) : in(o, a, r) || sync(o, r); }
    J obs() override { return ob((int)b->str().size() == n ? (int)b->in_avail() : -99, res(b->sgetc(), ' '), J::arr(), 0); }
};
template <class B> struct RW : Str<B>
{
    using Base<B>::b; char* mem;
    RW(B* p, char* m) : mem(m) { b = p; }
    ~RW() { free(mem); }
    bool op(const std::string& o, const J& a, J& r) override { return o == "seek" ? this->seek(a, r) : this->in(o, a, r) || this->sync(o, r) || outs<char>(b, o, a, r); }
    J obs() override { return this->ob((int)b->in_avail(), res(b->sgetc(), ' '), codes(b->str().clock(), b->str().size()), 0); }
};
template <class B> struct OL : Base<B>
{
    using Base<B>::b;
    OL() { b = new B; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        if (o == "seek") { r = this->pos(b->pubseekoff(a.n(0), this->dir(a.n(1)), this->wh(a.n(2)))); return true; }
        return this->sync(o, r) || outs<char>(b, o, a, r);
    }
    J obs() override { return this->ob(0, -2, codes(b->str().clock(), b->str().size()), 0); }
};
template <class B, class C> struct OS : Base<B>
{
    using Base<B>::b; C* p; int n;
    OS(int n_) : n(n_) { p = (C*)malloc(n * sizeof(C)); for (int i = 0; i < n; i++) p[i] = (C)238; b = new B(p, n); }
    ~OS() { free(p); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        if (o == "seek")
        {
            int off = a.n(0), d = a.n(1);
            r = this->pos(b->pubseekoff(off, this->dir(d), this->wh(a.n(2)))); return true;
        }
        if (o == "setbuf")
        {
            C* q = (C*)malloc(a.n(0) * sizeof(C));
            for (int i = 0; i < a.n(0); i++) q[i] = (C)238;
            b->setbuf_experimental(q, a.n(0)); free(p); p = q; n = a.n(0); r = 0; return true;
        }
        return this->sync(o, r) || outs<C>(b, o, a, r);
    }
    J obs() override { bool ok = b->epptr() - b->pbase() == n && b->pptr() - b->pbase() == (ptrdiff_t)b->pos(); return this->ob(0, -2, cods(p, n), ok ? (int)b->pos() : -99); }
};
template <int N> Obj* l1() { auto* b = new estd::layer1::stringbuf<N + 1>; return new RW<estd::layer1::stringbuf<N + 1>>(b, nullptr); }
template <int N> Obj* l1n() { auto* b = new estd::layer1::stringbuf<N, false>; return new RW<estd::layer1::stringbuf<N, false>>(b, nullptr); }
template <int N> Obj* l3() { char (*m)[N] = (char(*)[N])malloc(N); (*m)[0] = 0; return new RW<estd::layer3::stringbuf>(new estd::layer3::stringbuf(*m), *m); }
template <int N> Obj* ol1() { return new OL<estd::internal::streambuf<estd::internal::impl::out_stringbuf<estd::layer1::string<N + 1>>>>; }
template <int N> Obj* mk(const std::string& k) { return k == "l1" ? l1<N>() : k == "l1n" ? l1n<N>() : k == "l3" ? l3<N>() : ol1<N>(); }
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s; int n = c.n(1), cap = c.n(2);
    if (k == "span") return new InS(n);
    if (k == "l2") return new L2S(n);
    if (k == "ospan") return new OS<OSpan, char>(cap);
    if (k == "ospan32") return new OS<OSpan32, uint32_t>(cap);
    switch (cap) { case 2: return mk<2>(k); case 3: return mk<3>(k); case 4: return mk<4>(k); case 20: return mk<20>(k); case 300: return mk<300>(k); }
    return nullptr;
}
J end_report() { return 0; }
