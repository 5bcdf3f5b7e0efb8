// conformance driver: layer1::deque, queue, stack
#include "common.h"
#include <estd/queue.h>
#include <estd/stack.h>
#include <new>

struct Pod { int v; char z[7]; };
template <class T> struct Cv { static T to(int v) { return (T)v; } static int from(const T& t) { return (int)t; } };
template <> struct Cv<Pod>
{
    static Pod to(int v) { Pod p{}; p.v = v; p.z[6] = (char)(v + 7); return p; }
    static int from(const Pod& p) { return p.z[6] == (char)(p.v + 7) ? p.v : -77; }
};

// the object lives in a raw buffer with guard bytes so that a moved-from
// object can be destroyed and its bytes overwritten
template <class Q> struct Cell
{
    unsigned char pre[16]; alignas(16) unsigned char b[sizeof(Q)]; unsigned char post[16];
    Q* q = nullptr;
    Cell() { memset(pre, 0xC3, 16); memset(post, 0xC3, 16); memset(b, 0xEE, sizeof b); }
    void make() { q = new (b) Q(); }
    void steal(Cell& o) { q = new (b) Q(std::move(*o.q)); o.kill(); }
    void kill() { q->~Q(); q = nullptr; memset(b, 0x5E, sizeof b); }
    bool ok() const { for (int i = 0; i < 16; i++) if (pre[i] != 0xC3 || post[i] != 0xC3) return false; return true; }
    ~Cell() { if (q) kill(); }
};

template <class T, size_t N> struct D : Obj
{
    typedef estd::layer1::deque<T, N> Q;
    typedef Cv<T> C;
    Cell<Q> c[2]; int cur = 0;
    D() { c[0].make(); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        Q& q = *c[cur].q; r = 0;
        if (o == "push_back") { const T x = C::to(a.n(0)); r = q.push_back(x); }
        else if (o == "push_back_m") r = q.push_back(C::to(a.n(0)));
        else if (o == "push_front") { const T x = C::to(a.n(0)); r = q.push_front(x); }
        else if (o == "emplace_back") { if (q.size() >= N) return false; r = C::from(q.emplace_back(C::to(a.n(0)))); }
        else if (o == "emplace_front") { if (q.size() >= N) return false; r = C::from(q.emplace_front(C::to(a.n(0)))); }
        else if (o == "pop_back") r = q.pop_back();
        else if (o == "pop_front") r = q.pop_front();
        else if (o == "set_front") { if (q.empty()) return false; q.front() = C::to(a.n(0)); }
        else if (o == "set_back") { if (q.empty()) return false; q.back() = C::to(a.n(0)); }
        else if (o == "move") { c[1 - cur].steal(c[cur]); cur = 1 - cur; }
        else return false;
        return true;
    }
    J obs() override
    {
        Q& q = *c[cur].q; const Q& k = q;
        J it = J::arr(), rit = J::arr(), f = J::arr(), b = J::arr();
        int n = 0;
        for (auto i = q.begin(); !(i == q.end()) && n < 400; ++n) { auto old = i++; it.add(C::from(*old)); }
        n = 0;
        for (auto i = q.end(); i != q.begin() && n < 400; ++n) { --i; rit.add(C::from(*i)); }
        if (!q.empty()) { f.add(C::from(q.front())).add(C::from(k.front())); b.add(C::from(q.back())).add(C::from(k.back())); }
        J o = J::obj();
        o.set("n", (int)q.size()).set("e", (bool)q.empty()).set("it", it).set("rit", rit).set("f", f).set("b", b)
         .set("cap", (int)q.max_size()).set("ok", c[0].ok() && c[1].ok());
        return o;
    }
};

template <class T, size_t N> struct QQ : Obj
{
    typedef estd::layer1::queue<T, N> Q;
    typedef Cv<T> C;
    Cell<Q> c[2]; int cur = 0;
    QQ() { c[0].make(); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        Q& q = *c[cur].q; r = 0;
        if (o == "push_back") { const T x = C::to(a.n(0)); r = q.push(x); }
        else if (o == "push_back_m") r = q.push(C::to(a.n(0)));
        else if (o == "emplace_back") { if (q.size() >= N) return false; r = C::from(q.emplace(C::to(a.n(0)))); }
        else if (o == "pop_front") r = q.pop();
        else if (o == "set_front") { if (q.empty()) return false; q.front() = C::to(a.n(0)); }
        else if (o == "set_back") { if (q.empty()) return false; q.back() = C::to(a.n(0)); }
        else if (o == "move") { c[1 - cur].steal(c[cur]); cur = 1 - cur; }
        else return false;
        return true;
    }
    J obs() override
    {
        Q& q = *c[cur].q; const Q& k = q;
        J f = J::arr(), b = J::arr();
        if (!q.empty()) { f.add(C::from(q.front())).add(C::from(k.front())); b.add(C::from(q.back())).add(C::from(k.back())); }
        J o = J::obj();
        o.set("n", (int)q.size()).set("e", (bool)q.empty()).set("it", J::arr()).set("rit", J::arr()).set("f", f).set("b", b)
         .set("cap", (int)N).set("ok", c[0].ok() && c[1].ok());
        return o;
    }
};

template <class T, size_t N> struct ST : Obj
{
    typedef estd::layer1::stack<T, N> S;
    typedef Cv<T> C;
    S s;
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = true;
        if (o == "push_back") { if (s.size() >= N) return false; const T x = C::to(a.n(0)); s.push(x); }
        else if (o == "push_back_m") { if (s.size() >= N) return false; s.push(C::to(a.n(0))); }
        else if (o == "pop_back") { if (s.empty()) return false; s.pop(); }
        else if (o == "set_back") { if (s.empty()) return false; auto x = s.top(); x.lock() = C::to(a.n(0)); x.unlock(); r = 0; }
        else return false;
        return true;
    }
    J obs() override
    {
        J it = J::arr(), b = J::arr();
        for (auto i = s.begin(); i != s.end(); ++i) it.add(C::from(*i));
        if (!s.empty()) { auto x = s.top(); b.add(C::from(x.lock())); x.unlock(); const S& cs = s; auto y = cs.top(); b.add(C::from(y.clock())); y.cunlock(); }
        J o = J::obj();
        o.set("n", (int)s.size()).set("e", (bool)s.empty()).set("it", it).set("rit", J::arr()).set("f", J::arr()).set("b", b)
         .set("cap", (int)N).set("ok", true);
        return o;
    }
};

J end_report() { return 0; }
template <class T, size_t N> Obj* mk(const std::string& k)
{
    if (k == "deque") return new D<T, N>;
    if (k == "queue") return new QQ<T, N>;
    if (k == "stack") return new ST<T, N>;
    return nullptr;
}
template <size_t N> Obj* mkn(const J& c)
{
    int t = c.size() > 2 ? c.n(2) : 0;
    if (t == 0) return mk<int, N>(c[0].s);
    if (t == 1) return mk<uint8_t, N>(c[0].s);
    return mk<Pod, N>(c[0].s);
}
Obj* make(const J& c)
{
    switch (c.n(1)) { case 1: return mkn<1>(c); case 2: return mkn<2>(c); case 3: return mkn<3>(c); case 4: return mkn<4>(c); case 7: return mkn<7>(c);
        case 16: return mkn<16>(c); case 31: return mkn<31>(c); case 300: return mkn<300>(c); }
    return nullptr;
}
