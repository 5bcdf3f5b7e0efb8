#include "common.h"
#include <estd/streambuf.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/internal/impl/streambuf/buffer.h>
#include <estd/internal/impl/streambuf/bipbuf.h>

namespace {
struct State { int room = 0; std::string got; int maxroom = 0, per = 9, err = 0; };
struct SinkImpl : estd::internal::impl::streambuf_base<estd::char_traits<char>, void>
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char>, void> base;
    State* st; SinkImpl(State* s) : st(s) {}
    int_type sputc(char c) { if (!st->room) return traits_type::eof(); st->room--; st->got += c; return traits_type::to_int_type(c); }
protected:
    estd::streamsize xsputn(const char* s, estd::streamsize n)
    {
        if (n < 0) { st->got += "??"; return 0; }
        if (!st->room && n) return st->err;
        if (n > st->room) n = st->room;
        if (n > st->per) n = st->per;
        st->got.append(s, n); st->room -= n;
        return n;
    }
    int_type overflow(int_type c = traits_type::eof())
    {
        if (st->per < 1000) return traits_type::eof();      // takes so many per write
        if (c == traits_type::eof()) return st->room ? 0 : traits_type::eof();
        return sputc(traits_type::to_char_type(c));
    }
};
typedef estd::internal::streambuf<SinkImpl> Sink;
static const unsigned char ALPHA[7] = { 97, 255, 0, 98, 10, 128, 99 };

template <unsigned N> struct S
{
    Sink k; estd::internal::out_buffered_stringbuf<Sink&, N> sb;
    S(State* s, int) : k(s), sb(k) {}
    int avail(int model) { return model; }
};
template <unsigned N> struct B1
{
    Sink k; unsigned char g0[16]; estd::internal::out_bipbuf_streambuf<Sink&, N> sb; unsigned char g1[16];
    B1(State* s, int) : k(s), sb(k) { memset(g0, 0x3C, 16); memset(g1, 0x3C, 16); }
    int avail(int) { for (int i = 0; i < 16; i++) if (g0[i] != 0x3C || g1[i] != 0x3C) return -9; return (int)(sb.epptr() - sb.pptr()); }
};
struct B3
{
    Sink k; bipbuf_t* raw; estd::layer3::bipbuf bb; estd::internal::out_bipbuf_streambuf<Sink&, 0> sb;
    B3(State* s, int n) : k(s), raw((bipbuf_t*)malloc(sizeof(bipbuf_t) + n)), bb(raw, n), sb(raw, k) {}
    ~B3() { free(raw); }
    int avail(int) { return (int)(sb.epptr() - sb.pptr()); }
};
template <class B> struct BO : Obj
{
    State st; B q; int N, M, ctr = 0, held = 0; bool str;
    BO(const J& c) : q(&st, c.n(1)), N(c.n(1)), M(c.n(3)), str(c[0].s == "s") { st.room = c.n(2); st.per = c.n(4); st.err = c.n(5); }
    char nxt(int i) { return (char)ALPHA[(ctr + i) % M]; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        st.got.clear();
        J v;
        if (o == "sputc") { bool ok = q.sb.sputc(nxt(0)) != std::char_traits<char>::eof(); if (ok) { ctr = (ctr + 1) % M; held++; } v = ok; }
        else if (o == "overflow") v = q.sb.overflow(std::char_traits<char>::eof()) != std::char_traits<char>::eof();
        else if (o == "sputn")
        {
            int n = a.n(0);
            if (n < 0 || n > 4096) return false;
            char* d = (char*)malloc(n ? n : 1);
            for (int i = 0; i < n; i++) d[i] = nxt(i);
            int w = (int)q.sb.sputn(d, n);
            free(d);
            ctr = (ctr + w) % M; held += w; v = w;
        }
        else if (o == "sync") v = q.sb.pubsync();
        else if (o == "room")
        {
            if (st.room + a.n(0) > N + 2) return false;
            st.room += a.n(0); r = 0; return true;
        }
        else return false;
        held -= (int)st.got.size();
        r = J::arr(); r.add(v).add(codes(st.got));
        return true;
    }
    J obs() override
    {
        // the string kind does not say how much room it has: what was accepted less what was delivered
        int av = q.avail(N - held);
        J o = J::obj();
        o.set("room", st.room).set("avail", av).set("bad", 0);
        return o;
    }
};
template <template <unsigned> class K> Obj* mk(const J& c)
{
    switch (c.n(1)) { case 1: return new BO<K<1>>(c); case 2: return new BO<K<2>>(c); case 3: return new BO<K<3>>(c); case 4: return new BO<K<4>>(c);
        case 8: return new BO<K<8>>(c); case 64: return new BO<K<64>>(c); case 300: return new BO<K<300>>(c); }
    return nullptr;
}
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    if (k == "s") return mk<S>(c);
    if (k == "b1") return mk<B1>(c);
    if (k == "b3") return new BO<B3>(c);
    return nullptr;
}
J end_report() { return 0; }
