#include "common.h"
#include <estd/streambuf.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/internal/impl/streambuf/bipbuf.h>

namespace {
static const unsigned char ALPHA[7] = { 97, 255, 0, 98, 10, 128, 99 };
struct State { int src = 0, ctr = 0, M = 7, piece = 1, err = 0; };
struct SrcImpl : estd::internal::impl::streambuf_base<estd::char_traits<char>, void>
{
    State* st; SrcImpl(State* s) : st(s) {}
    char xsgetc() const { return (char)ALPHA[st->ctr]; }
    void one() { st->ctr = (st->ctr + 1) % st->M; st->src--; }
protected:
    int_type xin_avail() const { return st->src; }
    void gbump(int n) { while (n--) one(); }
    int_type underflow() { return st->src ? traits_type::to_int_type(xsgetc()) : traits_type::eof(); }
    estd::streamsize xsgetn(char* s, estd::streamsize n)
    {
        if (!st->src && n) return st->err;
        if (n > st->piece) n = st->piece;
        if (n > st->src) n = st->src;
        for (int i = 0; i < n; i++) { s[i] = xsgetc(); one(); }
        return n;
    }
};
typedef estd::internal::streambuf<SrcImpl> Src;
template <unsigned N> struct B : Obj
{
    State st; Src src; unsigned char g0[16]; estd::internal::in_bipbuf_streambuf<Src&, N> sb; unsigned char g1[16];
    B(const J& c) : src(&st), sb(src)
    { st.M = c.n(3); st.piece = c.n(2); st.err = c.n(4); memset(g0, 0x3C, 16); memset(g1, 0x3C, 16); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        if (o == "sgetc") r = (int)sb.sgetc();
        else if (o == "sbumpc") r = (int)sb.sbumpc();
        else if (o == "snextc") r = (int)sb.snextc();
        else if (o == "sync") r = sb.pubsync();
        else if (o == "sgetn")
        {
            int n = a.n(0);
            if (n < 0 || n > 4096) return false;
            char* d = (char*)malloc(n ? n : 1);
            int w = (int)sb.sgetn(d, n);
            r = w < 0 || w > n ? J(w) : codes(d, w);
            free(d);
        }
        else if (o == "supply")
        {
            if (st.src + a.n(0) > (int)N + 2) return false;
            st.src += a.n(0); r = 0;
        }
        else return false;
        return true;
    }
    J obs() override
    {
        int bad = 0;
        for (int i = 0; i < 16; i++) if (g0[i] != 0x3C || g1[i] != 0x3C) bad = 1;
        J o = J::obj();
        int av = (int)sb.in_avail();
        o.set("src", st.src).set("avail", av).set("contig", av ? (int)(sb.egptr() - sb.gptr()) : 0).set("bad", bad);
        return o;
    }
};
}
Obj* make(const J& c)
{
    switch (c.n(1)) { case 1: return new B<1>(c); case 2: return new B<2>(c); case 3: return new B<3>(c); case 4: return new B<4>(c);
        case 8: return new B<8>(c); case 64: return new B<64>(c); case 300: return new B<300>(c); }
    return nullptr;
}
J end_report() { return 0; }
