#include "common.h"
#include <estd/internal/memory/v1/pool.h>
#include <estd/utility.h>
#include <new>
#ifdef POOL_EXP
#include <estd/array.h>
#include <estd/memory.h>
#include <estd/forward_list.h>
#include <estd/exp/memory/memory_pool.h>
#include <estd/exp/memory/memory_pool2.h>
#endif

namespace {
using namespace estd::internal::memory;
static const int NS = 302;
int leak = 0;

template <unsigned B, unsigned N> struct Raw
{
    pool<B, N> p;
    unsigned char* take(int) { return (unsigned char*)p.alloc(); }
    void give(void* b) { p.free(b); }
    static const unsigned size = B;
    void put(unsigned char* b, int v) { for (unsigned i = 0; i < B; i++) b[i] = (unsigned char)(v * 7 + i * 3 + 1); }
    bool has(unsigned char* b, int v) { for (unsigned i = 0; i < B; i++) if (b[i] != (unsigned char)(v * 7 + i * 3 + 1)) return false; return true; }
    int live() { return 0; }
};
struct Obj2 : Tr { int w; Obj2(int x, int& y, std::unique_ptr<int> z) : Tr(x), w(x + *z) { y++; } };
template <unsigned N> struct Typed
{
    typed_pool<Obj2, N> p; int made = 0, n = 0;
    unsigned char* take(int v) { n++; return (unsigned char*)p.emplace(v, made, std::unique_ptr<int>(new int(5))); }
    void give(void* b) { p.erase((Obj2*)b); }
    static const unsigned size = sizeof(Obj2);
    void put(unsigned char* b, int v) { auto o = (Obj2*)b; o->v = v; o->w = v + 5; }
    bool has(unsigned char* b, int v) { auto o = (Obj2*)b; o->chk(); return o->v == v && o->w == v + 5; }
    int live() { return Tr::live; }
};
#ifdef POOL_EXP
namespace ex = estd::experimental::memory;
template <unsigned B> struct Blk { unsigned char b[B]; };
template <> struct Blk<8> { uint64_t b; };
template <> struct Blk<24> { void* b[3]; };
// the parts of a pool's interface which the experimental ones spell differently
template <class P, unsigned N, unsigned B> struct Mem
{
    P q;
    int available_blocks() { return (int)q.count_free(); }
    bool full() { return q.count_free() == 0; }
    unsigned max_blocks() { return N; }
    unsigned block_size() { return B; }
    int to_handle(void*) { return 0; }
    void* from_handle(int) { return nullptr; }
};
template <class P, unsigned N, unsigned B> struct RawE
{
    Mem<P, N, B> p;
    unsigned char* take(int) { return (unsigned char*)p.q.allocate(); }
    void give(void* b) { p.q.deallocate((typename P::value_type*)b); }
    static const unsigned size = B;
    void put(unsigned char* b, int v) { for (unsigned i = 0; i < B; i++) b[i] = (unsigned char)(v * 7 + i * 3 + 1); }
    bool has(unsigned char* b, int v) { for (unsigned i = 0; i < B; i++) if (b[i] != (unsigned char)(v * 7 + i * 3 + 1)) return false; return true; }
    int live() { return 0; }
};
struct Obj3 : Tr { int w; Obj3(int x, std::unique_ptr<int> z) : Tr(x), w(x + *z) {} };
template <class P, unsigned N> struct TypedE
{
    Mem<P, N, sizeof(Obj3)> p;
    unsigned char* take(int v) { return p.q.count_free() ? (unsigned char*)&p.q.construct(v, std::unique_ptr<int>(new int(5))) : nullptr; }
    void give(void* b) { p.q.destroy(*(Obj3*)b); }
    static const unsigned size = sizeof(Obj3);
    void put(unsigned char* b, int v) { auto o = (Obj3*)b; o->v = v; o->w = v + 5; }
    bool has(unsigned char* b, int v) { auto o = (Obj3*)b; o->chk(); return o->v == v && o->w == v + 5; }
    int live() { return Tr::live; }
};
template <class P> struct handles { static const bool value = false; static const unsigned align = 1; };
#else
template <class P> struct handles { static const bool value = true; static const unsigned align = P::size < 8 ? 1 : 8; };
#endif
template <class P, unsigned N> struct PO : Obj
{
    unsigned char before[64]; P p; unsigned char after[64];
    unsigned char* s[NS + 1]; int v[NS + 1];
    PO() { memset(before, 0x3C, 64); memset(after, 0x3C, 64); for (int i = 0; i <= NS; i++) { s[i] = nullptr; v[i] = 0; } }
    ~PO() { for (int i = 1; i <= NS; i++) if (s[i]) p.give(s[i]); leak = p.live() + ((int)p.p.available_blocks() - (int)N); }
    bool op(const std::string& n, const J& a, J& r) override
    {
        int i = a.n(0);
        if (n == "take")
        {
            if (s[i]) return false;
            unsigned char* b = p.take(a.n(1));
            if (b) { s[i] = b; v[i] = a.n(1); p.put(b, v[i]); }
            r = b != nullptr; return true;
        }
        if (!s[i]) return false;
        if (n == "give") { p.give(s[i]); s[i] = nullptr; v[i] = 0; r = true; return true; }
        if (n == "put") { v[i] = a.n(1); p.put(s[i], v[i]); r = true; return true; }
        return false;
    }
    J obs() override
    {
        int bad = 0; J sv = J::arr();
        for (int i = 1; i <= NS; i++)
        {
            if (i > lim && !s[i]) continue;
            if (s[i])
            {
                if (!p.has(s[i], v[i])) bad |= 1;
                if ((uintptr_t)s[i] % handles<P>::align) bad |= 2;
                if (s[i] < (unsigned char*)&p || s[i] + P::size > (unsigned char*)(&p + 1)) bad |= 4;
                for (int j = 1; j < i; j++) if (s[j] && s[j] < s[i] + P::size && s[i] < s[j] + P::size) bad |= 8;
                bool hs = handles<P>::value && N <= 128;
                int h = hs ? p.p.to_handle(s[i]) : 0;
                if (hs && (h < 0 || h >= (int)N || (void*)p.p.from_handle(h) != (void*)s[i])) bad |= 16;
            }
            sv.add(s[i] ? v[i] : 0);
        }
        for (int i = 0; i < 64; i++) if (before[i] != 0x3C || after[i] != 0x3C) bad |= 32;
        if (Tr::errs) bad |= 64;
        if (p.p.block_size() != P::size) bad |= 128;
        J o = J::obj();
        o.set("s", sv).set("avail", (int)p.p.available_blocks()).set("full", p.p.full()).set("max", (int)p.p.max_blocks()).set("live", p.live()).set("bad", bad);
        return o;
    }
    static int lim;
};
int LIM = NS;
template <class P, unsigned N> int PO<P, N>::lim = 0;
template <unsigned N> Obj* mk(const std::string& k, int lim)
{
#define K(name, T) if (k == name) { PO<T, N>::lim = lim; return new PO<T, N>; }
#define C ,
#ifdef POOL_EXP
#define E(sz) K("m1_" #sz, RawE<ex::v1::memory_pool_1<Blk<sz> C N> C N C sz>) K("ml_" #sz, RawE<ex::v1::memory_pool_ll<Blk<sz> C N> C N C sz>) \
    K("m2_" #sz, RawE<ex::v2::memory_pool<Blk<sz> C N C ex::v2::pool_types::linked_list> C N C sz>)
    E(1) E(3) E(8) E(24) K("m1t", TypedE<ex::v1::memory_pool_1<Obj3 C N> C N>) K("mlt", TypedE<ex::v1::memory_pool_ll<Obj3 C N> C N>)
#else
    K("p1", Raw<1 C N>) K("p3", Raw<3 C N>) K("p8", Raw<8 C N>) K("p20", Raw<20 C N>) K("p24", Raw<24 C N>) K("typed", Typed<N>)
#endif
    return nullptr;
}
}
Obj* make(const J& c)
{
    int lim = c.size() > 2 ? c.n(2) : NS; leak = 0;
    switch (c.n(1)) { case 1: return mk<1>(c[0].s, lim); case 2: return mk<2>(c[0].s, lim); case 3: return mk<3>(c[0].s, lim);
        case 4: return mk<4>(c[0].s, lim); case 9: return mk<9>(c[0].s, lim); case 128: return mk<128>(c[0].s, lim); case 300: return mk<300>(c[0].s, lim); }
    return nullptr;
}
J end_report() { return leak; }
