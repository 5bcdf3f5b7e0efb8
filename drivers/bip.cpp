#include "common.h"
#include <estd/internal/bip/buffer.h>

namespace {
static const int MAX = 1200;
struct C
{
    bipbuf_t* p; C(int n) : p(bipbuf_new(n)) {} ~C() { bipbuf_free(p); }
    int offer(const unsigned char* d, int n) { return bipbuf_offer(p, d, n); }
    bool can() { return false; }
    unsigned char* begin() { return nullptr; } void end_(int) {}
    const unsigned char* peek(int n) { return bipbuf_peek(p, n); }
    const unsigned char* poll(int n) { return bipbuf_poll(p, n); }
    int used() { return bipbuf_used(p); } int unused() { return bipbuf_unused(p); } bool empty() { return bipbuf_is_empty(p); }
    int size() { return bipbuf_size(p); } const unsigned char* data() { return p->data; }
};
template <class B> struct W
{
    B& b; W(B& b_) : b(b_) {}
    int offer(const unsigned char* d, int n) { return b.offer(d, n); }
    bool can() { return true; }
    unsigned char* begin() { return b.offer_begin(); } void end_(int n) { b.offer_end(n); }
    const unsigned char* peek(int n) { return b.peek(n); }
    const unsigned char* poll(int n) { return b.poll(n); }
    int used() { return (int)b.used(); } int unused() { return (int)b.unused(); } bool empty() { return b.peek() == nullptr; }
    int size() { return bipbuf_size(b.native()); } const unsigned char* data() { return b.native()->data; }
};
template <unsigned N> struct L1B { unsigned char g0[32]; alignas(8) estd::layer1::bipbuf<N> b; unsigned char g1[32]; L1B() { memset(g0, 0x3C, 32); memset(g1, 0x3C, 32); } 
    bool ok() { for (int i = 0; i < 32; i++) if (g0[i] != 0x3C || g1[i] != 0x3C) return false; return true; } };
template <unsigned N> struct L1 : L1B<N>, W<estd::layer1::bipbuf<N>> { L1(int) : W<estd::layer1::bipbuf<N>>(L1B<N>::b) {} };
struct L3B { bipbuf_t* raw; estd::layer3::bipbuf b; L3B(int n) : raw((bipbuf_t*)malloc(sizeof(bipbuf_t) + n)), b(raw, n) {} ~L3B() { free(raw); } bool ok() { return true; } };
struct L3 : L3B, W<estd::layer3::bipbuf> { L3(int n) : L3B(n), W<estd::layer3::bipbuf>(L3B::b) {} };
template <class T> auto okk(T& t, int) -> decltype(t.ok()) { return t.ok(); }
template <class T> bool okk(T&, long) { return true; }

template <class B> struct BO : Obj
{
    B q; int M, ctr = 0, n;
    BO(int n_, int m) : q(n_), M(m), n(n_) {}
    bool op(const std::string& o, const J& a, J& r) override
    {
        int k = a.size() ? a.n(0) : 0;
        if (o == "drain") while (k < n && q.peek(k + 1)) k++;      // poll all that is contiguous
        if (k < 0 || k > MAX) return false;
        unsigned char* d = (unsigned char*)malloc(k ? k : 1);      // exact extent: an over-read is an error
        for (int i = 0; i < k; i++) d[i] = (ctr + i) % M;
        bool ok = true;
        if (o == "offer") { int w = q.offer(d, k); ctr = (ctr + w) % M; r = w; }
        else if (o == "direct")
        {
            if (!q.can() || k > q.unused()) ok = false;
            else { memcpy(q.begin(), d, k); q.end_(k); ctr = (ctr + k) % M; r = 0; }
        }
        else if (o == "peek" || o == "poll" || o == "drain")
        {
            const unsigned char* p = o == "peek" ? q.peek(k) : q.poll(k);
            r = J::arr(); r.add(p != nullptr).add(p ? codes((const char*)p, k) : J::arr());
        }
        else ok = false;
        free(d);
        return ok;
    }
    J obs() override
    {
        int bad = 0;
        int la = 0;
        while (la <= n && q.peek(la + 1)) la++;
        const unsigned char* p = q.peek(0);
        if (p && (p < q.data() || p + la > q.data() + n)) bad |= 1;
        if (!okk(q, 0)) bad |= 2;
        int lb = q.used() - la;
        if (lb < 0 || lb > n) { bad |= 4; lb = 0; }
        J o = J::obj();
        o.set("used", q.used()).set("unused", q.unused()).set("e", q.empty()).set("a", p ? codes((const char*)p, la) : J::arr())
         .set("b", codes((const char*)q.data(), lb)).set("size", q.size()).set("bad", bad);
        return o;
    }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s; int n = c.n(1), m = c.n(2);
    if (k == "c") return new BO<C>(n, m);
    if (k == "l3") return new BO<L3>(n, m);
    if (k == "l1") switch (n) { case 1: return new BO<L1<1>>(n, m); case 2: return new BO<L1<2>>(n, m); case 3: return new BO<L1<3>>(n, m); case 4: return new BO<L1<4>>(n, m);
        case 5: return new BO<L1<5>>(n, m); case 6: return new BO<L1<6>>(n, m); case 16: return new BO<L1<16>>(n, m); case 50: return new BO<L1<50>>(n, m);
        case 300: return new BO<L1<300>>(n, m); case 1000: return new BO<L1<1000>>(n, m); }
    return nullptr;
}
J end_report() { return 0; }
