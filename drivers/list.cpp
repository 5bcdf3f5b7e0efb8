// conformance driver: forward lists and doubly linked lists
#include "common.h"
#include <estd/forward_list.h>
#include <estd/list.h>
#include <memory>

static int g_mem;      // nodes currently allocated

// counts node allocations (same interface as experimental_std_allocator)
template <class T> struct CA : estd::experimental_std_allocator<T>
{
    typedef estd::experimental_std_allocator<T> b;
    typedef typename b::handle_type handle_type;
    template <class U> struct rebind { typedef CA<U> other; };
    static handle_type allocate(size_t n) { g_mem += (int)n; return (handle_type)::operator new(sizeof(T) * n); }
    static void deallocate(handle_type h, size_t n) { g_mem -= (int)n; ::operator delete((void*)h); }
    static T& lock(handle_type h) { return *(T*)h; }
};

template <class It> struct W {};

// ------------------------------------------------------------- intrusive
struct Node : estd::experimental::forward_node_base { int id = 0, v = 0; bool operator==(const Node& o) const { return v == o.v; } };

template <class L> struct IBase : Obj
{
    std::vector<Node> n; L l;
    IBase(const J& vals) : n(vals.size() + 2) { for (size_t i = 0; i < vals.size(); i++) { n[i + 1].id = (int)i + 1; n[i + 1].v = vals.n(i); } }
    bool in(int x) { int c = 0; for (auto i = l.begin(); i != l.end() && c < 60; ++i, ++c) if ((*i).id == x) return true; return false; }
    int count() { int c = 0; for (auto i = l.begin(); i != l.end() && c < 60; ++i) ++c; return c; }
    bool free(int x) { return x >= 1 && x < (int)n.size() - 1 && !in(x); }
    bool step(const J& a, J& r)
    {
        if (a.n(0) >= count() || a.n(1) < 0 || a.n(0) + a.n(1) >= count()) return false;
        auto i = l.begin(); i += a.n(0); auto j = i; j += a.n(1); r = J::arr(); r.add((*j).id); r.add((*(i + a.n(1))).id); return true;
    }
    J seq() { J it = J::arr(); int c = 0; for (auto i = l.begin(); i != l.end() && c < 60; ++i, ++c) it.add((*i).id); return it; }
    J pseq() { J it = J::arr(); int c = 0; for (auto i = l.begin(); i != l.end() && c < 60; ++c) { auto o = i++; it.add((*o).id); } return it; }
    J ob(J b) { J o = J::obj(); J f = J::arr(); if (!l.empty()) f.add(l.front().id);
        o.set("e", (bool)l.empty()).set("it", seq()).set("pf", pseq()).set("rit", J::arr()).set("f", f).set("b", b).set("live", 0).set("mem", 0).set("err", 0); return o; }
};

struct IFwd : IBase<estd::intrusive_forward_list<Node>>
{
    using IBase::IBase;
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; int c = count();
        if (o == "push_front") { if (!free(a.n(0))) return false; l.push_front(n[a.n(0)]); }
        else if (o == "pop_front") { if (!c) return false; l.pop_front(); }
        else if (o == "insert_after") { if (a.n(0) >= c || !free(a.n(1))) return false; auto i = l.begin(); i += a.n(0); auto k = l.insert_after(i, n[a.n(1)]); r = (*k).id; }
        else if (o == "erase_after") { if (a.n(0) + 1 >= c) return false; auto i = l.begin(); i += a.n(0); auto k = l.erase_after(i); r = k == l.end() ? -1 : (*k).id; }
        else if (o == "remove") { Node t; t.v = a.n(0); l.remove(t, a.n(1) == 1); }
        else if (o == "remove_n") { int k = a.n(0); if (k < 1 || k >= (int)n.size() - 1) return false; l.remove(n[k], a.n(1) == 1); }
        else if (o == "remove_if") { int v = a.n(0); l.remove_if([v](Node& x) { return x.v == v; }, a.n(1) == 1); }
        else if (o == "step") return step(a, r);
        else return false;
        return true;
    }
    J obs() override { return ob(J::arr()); }
};
struct IBack : IBase<estd::intrusive_forward_list_with_back<Node>>
{
    using IBase::IBase;
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; int c = count();
        if (o == "push_front") { if (!free(a.n(0))) return false; l.push_front(n[a.n(0)]); }
        else if (o == "push_back") { if (!free(a.n(0))) return false; l.push_back(n[a.n(0)]); }
        else if (o == "pop_front") { if (!c) return false; l.pop_front(); }
        else if (o == "step") return step(a, r);
        else return false;
        return true;
    }
    J obs() override { J b = J::arr(); if (!l.empty()) b.add(l.back().id); return ob(b); }
};

struct HNode : estd::experimental::forward_node_base_base<HNode*>
{ int id = 0, v = 0; HNode() : estd::experimental::forward_node_base_base<HNode*>(nullptr) {} };
struct HFwd : Obj
{
    typedef estd::internal::list::intrusive_forward<HNode> L;
    std::vector<HNode> n; L l;
    HFwd(const J& vals) : n(vals.size() + 2) { for (size_t i = 0; i < vals.size(); i++) { n[i + 1].id = (int)i + 1; n[i + 1].v = vals.n(i); } }
    int count() { int c = 0; for (auto i = l.begin(); i != l.end() && c < 60; ++i) ++c; return c; }
    bool free(int x) { if (x < 1 || x >= (int)n.size() - 1) return false; int c = 0; for (auto& i : l) { if (i.id == x || ++c > 60) return false; } return true; }
    HNode* at(int p) { auto i = l.begin(); while (p--) ++i; return &*i; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; int c = count();
        if (o == "push_front") { if (!free(a.n(0))) return false; l.push_front(n[a.n(0)]); }
        else if (o == "pop_front") { if (!c) return false; l.pop_front(); }
        else if (o == "insert_after") { if (a.n(0) >= c || !free(a.n(1))) return false; auto k = l.insert_after(at(a.n(0)), n[a.n(1)]); r = (*k).id; }
        else if (o == "erase_after") { if (a.n(0) + 1 >= c) return false; auto k = l.erase_after(at(a.n(0))); r = k == l.end() ? -1 : (*k).id; }
        else if (o == "replace_after") { if (a.n(0) + 1 >= c || !free(a.n(1))) return false; auto k = l.replace_after(at(a.n(0)), n[a.n(1)]); r = (*k).id; }
        else if (o == "clear") { l.clear(); }
        else return false;
        return true;
    }
    J obs() override
    {
        const L& k = l;
        J it = J::arr(), pf = J::arr(), f = J::arr(); int c = 0;
        for (auto i = l.begin(); i != l.end() && c < 60; ++c) { auto o = i++; it.add((*o).id); }
        c = 0; for (auto i = k.begin(); !(i == k.cend()) && c < 60; ++i, ++c) pf.add((*i).id);
        if (!l.empty()) f.add(l.front().id);
        J o = J::obj(); o.set("e", (bool)l.empty()).set("it", it).set("pf", pf).set("rit", J::arr()).set("f", f).set("b", J::arr()).set("live", 0).set("mem", 0).set("err", 0); return o;
    }
};

// ------------------------------------------------------------- owning
struct OFwd : Obj
{
    typedef estd::experimental::ValueNode<Tr, estd::experimental::forward_node_base> node_t;
    typedef CA<node_t> A;
    typedef estd::inlinevalue_node_traits_new_base<node_t, A, estd::nothing_allocator<Tr>> NT;
    typedef estd::internal::forward_list<Tr, node_t, A, NT> L;
    L l;
    ~OFwd() { while (!l.empty()) l.pop_front(); }
    int count() { int c = 0; for (auto i = l.begin(); i != l.end() && c < 60; ++i) ++c; return c; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; int c = count();
        if (o == "push_front") { const Tr x(a.n(0)); l.push_front(x); }
        else if (o == "push_front_m") l.push_front(Tr(a.n(0)));
        else if (o == "emplace_front") l.emplace_front(a.n(0));
        else if (o == "pop_front") { if (!c) return false; l.pop_front(); }
        else if (o == "insert_after") { if (a.n(0) >= c) return false; auto i = l.begin(); i += a.n(0); Tr x(a.n(1)); auto k = l.insert_after(i, x); r = (*k).v; }
        else if (o == "erase_after") { if (a.n(0) + 1 >= c) return false; auto i = l.begin(); i += a.n(0); auto k = l.erase_after(i); r = k == l.end() ? -1 : (*k).v; }
        else if (o == "remove_if") { int v = a.n(0); l.remove_if([v](node_t& x) { return x.value().v == v; }, a.n(1) == 1); }
        else if (o == "step")
        {
            if (a.n(0) >= c || a.n(1) < 0 || a.n(0) + a.n(1) >= c) return false;
            auto i = l.begin(); i += a.n(0); auto j = i; j += a.n(1); r = J::arr(); r.add((*j).v); r.add((*(i + a.n(1))).v);
        }
        else return false;
        return true;
    }
    J obs() override
    {
        J it = J::arr(), pf = J::arr(), f = J::arr(); int c = 0;
        for (auto i = l.begin(); i != l.end() && c < 60; ++i, ++c) it.add((*i).v);
        c = 0; for (auto i = l.begin(); !(i == l.end()) && c < 60; ++c) { auto o = i++; pf.add((*o).v); }
        if (!l.empty()) f.add(l.front().v);
        J o = J::obj(); o.set("e", (bool)l.empty()).set("it", it).set("pf", pf).set("rit", J::arr()).set("f", f).set("b", J::arr()).set("live", Tr::live).set("mem", g_mem).set("err", Tr::errs); return o;
    }
};
// nodes live in blocks known by number, which have an address only while locked and move at every last unlock
struct NHeap
{
    struct Slot { void* stash; void* live; size_t bytes; int locks; bool used; };
    std::vector<Slot> s; int errs = 0;
    NHeap() { s.push_back(Slot{nullptr, nullptr, 0, 0, false}); }
    ~NHeap() { for (auto& x : s) { ::free(x.stash); ::free(x.live); } }
    int alloc(size_t b) { Slot x{malloc(b), nullptr, b, 0, true}; memset(x.stash, 0x5a, b); s.push_back(x); return (int)s.size() - 1; }
    bool good(int h) { if (h <= 0 || h >= (int)s.size() || !s[h].used) { errs++; return false; } return true; }
    void release(int h) { if (!good(h)) return; if (s[h].locks) errs++; ::free(s[h].stash); ::free(s[h].live); s[h].stash = s[h].live = nullptr; s[h].used = false; }
    void* lock(int h)
    {
        static char nowhere[256];
        if (!good(h)) return nowhere;
        Slot& x = s[h];
        if (x.locks++ == 0) { x.live = malloc(x.bytes); memcpy(x.live, x.stash, x.bytes); memset(x.stash, 0xEE, x.bytes); }
        return x.live;
    }
    void unlock(int h)
    {
        if (!good(h)) return;
        Slot& x = s[h];
        if (x.locks == 0) { errs++; return; }
        if (--x.locks == 0) { memcpy(x.stash, x.live, x.bytes); ::free(x.live); x.live = nullptr; }
    }
    int locked() { int n = 0; for (auto& x : s) if (x.used) n += x.locks; return n; }
};
extern NHeap* nheap; NHeap* nheap = nullptr;
template <class T> struct HA
{
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef const void* const_void_pointer;
    typedef size_t size_type; typedef ptrdiff_t difference_type; typedef int handle_type; typedef int handle_with_size;
    typedef estd::internal::handle_with_offset<int, size_t> handle_with_offset;
    typedef void is_locking_tag; typedef void is_stateful_tag;
    static constexpr int invalid() { return 0; }
    struct iterator { typedef T value_type; typedef int difference_type; typedef T* pointer; typedef T& reference; typedef std::forward_iterator_tag iterator_category; };
    int allocate(size_t n) { g_mem += (int)n; return nheap->alloc(n * sizeof(T)); }
    void deallocate(int h, size_t n) { g_mem -= (int)n; nheap->release(h); }
    T& lock(int h, size_t pos = 0, size_t = 0) { return ((T*)nheap->lock(h))[pos]; }
    void unlock(int h) { nheap->unlock(h); }
};
struct HFwdBase : estd::experimental::forward_node_base_base<int> { HFwdBase() : estd::experimental::forward_node_base_base<int>(0) {} };
struct HDblBase : HFwdBase { int p_ = 0; int prev() const { return p_; } void prev(int h) { p_ = h; } };
template <class I> int peekv(I i) { int v = i.lock().v; i.unlock(); return v; }

// the value of a node, built from one or two arguments
struct Vv { int v; Vv(int v) : v(v) {} Vv(int a, int b) : v(a * 2 + b) {} bool operator==(const Vv& o) const { return v == o.v; } };
template <bool handles> struct DblT;
template <> struct DblT<false> { typedef estd::experimental::ValueNode<Vv, estd::experimental::double_node_base> node_t; typedef CA<node_t> A; };
template <> struct DblT<true> { typedef estd::experimental::ValueNode<Vv, HDblBase> node_t; typedef HA<node_t> A; };
template <bool handles> struct Dbl : Obj
{
    typedef typename DblT<handles>::node_t node_t;
    typedef typename DblT<handles>::A A;
    typedef estd::inlinevalue_node_traits_new_base<node_t, A, estd::nothing_allocator<Vv>> NT;
    typedef estd::internal::list_base<Vv, node_t, A, NT> L;
    std::unique_ptr<NHeap> hp{mk()};
    static NHeap* mk() { if (!handles) return nullptr; nheap = new NHeap; return nheap; }
    L l;
    ~Dbl()
    {
        // list_base offers no way to remove anything: free its nodes by hand
        if (handles) { g_mem -= count(); return; }
        std::vector<node_t*> v; int c = 0;
        for (auto i = l.begin(); i != l.end() && c < 60; ++i, ++c) v.push_back((node_t*)(intptr_t)i.node());
        for (auto x : v) { g_mem--; ::operator delete(x); }
    }
    int count() {  int c = 0; for (auto i = l.begin(); i != l.end() && c < 60; ++i) ++c; return c; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; int c = count();
        if (o == "push_front") { const Vv x(a.n(0)); l.push_front(x); }
        else if (o == "push_front_m") l.push_front(Vv(a.n(0)));
        else if (o == "emplace_front") { if (a.n(0) & 1) l.emplace_front(a.n(0)); else l.emplace_front(a.n(0) / 2, 0); }
        else if (o == "push_back") { const Vv x(a.n(0)); l.push_back(x); }
        else if (o == "push_back_m") l.push_back(Vv(a.n(0)));
        else if (o == "insert") { if (a.n(0) > c) return false; auto i = l.begin(); i += a.n(0); const Vv x = a.n(1); auto k = l.insert(i, x); r = peekv(k); }
        else if (o == "step")
        {
            int i0 = a.n(0), k = a.n(1);
            if (i0 >= c || i0 + k < 0 || i0 + k >= c) return false;
            auto i = l.begin(); i += i0; auto j = i;
            r = J::arr();
            if (k >= 0) { j += k; r.add(peekv(j)); r.add(peekv(i + k)); } else { j -= -k; r.add(peekv(j)); r.add(peekv(i - -k)); }
        }
        else if (o == "dist")
        {
            if (a.n(0) > a.n(1) || a.n(1) > c) return false;
            auto i = l.begin(); i += a.n(0); auto j = l.begin(); j += a.n(1); r = (int)(j - i);
        }
        else return false;
        return true;
    }
    J obs() override
    {
        J it = J::arr(), pf = J::arr(), f = J::arr(), b = J::arr(), rit = J::arr(); int c = 0;
        for (auto i = l.begin(); i != l.end() && c < 60; ++i, ++c) it.add(peekv(i));
        c = 0; for (auto i = l.begin(); !(i == l.end()) && c < 60; ++c) { auto o = i++; pf.add(peekv(o)); }
        if (!l.empty())
        {
            if (handles) { f.add(peekv(l.begin())); auto e = l.begin(); e += c - 1; b.add(peekv(e)); } else { f.add(l.front().v); b.add(l.back().v); }
            auto i = l.begin(); i += c - 1; int k = 0;
            for (; i != l.end() && k < 60; ++k) { auto o = i--; rit.add(peekv(o)); }
        }
        J o = J::obj(); o.set("e", (bool)l.empty()).set("it", it).set("pf", pf).set("rit", rit).set("f", f).set("b", b).set("live", count()).set("mem", g_mem).set("err", handles ? nheap->errs + nheap->locked() : 0); return o;
    }
};

struct HOFwd : Obj
{
    typedef estd::experimental::ValueNode<Vv, HFwdBase> node_t;
    typedef HA<node_t> A;
    typedef estd::inlinevalue_node_traits_new_base<node_t, A, estd::nothing_allocator<Vv>> NT;
    typedef estd::internal::forward_list<Vv, node_t, A, NT> L;
    std::unique_ptr<NHeap> hp{mk()};
    static NHeap* mk() { nheap = new NHeap; return nheap; }
    L l;
    ~HOFwd() { while (!l.empty()) l.pop_front(); }
    int count() { int c = 0; for (auto i = l.begin(); i != l.end() && c < 60; ++i) ++c; return c; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0; int c = count();
        if (o == "push_front") { const  Vv x(a.n(0)); l.push_front(x); }
        else if (o == "push_front_m") l.push_front(Vv(a.n(0)));
        else if (o == "emplace_front") l.emplace_front(a.n(0));
        else if (o == "pop_front") { if (!c) return false; l.pop_front(); }
        else if (o == "insert_after") { if (a.n(0) >= c) return false; auto i = l.begin(); i += a.n(0);  Vv x(a.n(1)); auto k = l.insert_after(i, x); r = peekv(k); }
        else if (o == "erase_after") { if (a.n(0) + 1 >= c) return false; auto i = l.begin(); i += a.n(0); auto k = l.erase_after(i); r = k == l.end() ? -1 : peekv(k); }
        else if (o == "remove_if") { int v = a.n(0); l.remove_if([v](node_t& x) { return x.value().v == v; }, a.n(1) == 1); }
        else if (o == "step")
        {
            if (a.n(0) >= c || a.n(1) < 0 || a.n(0) + a.n(1) >= c) return false;
            auto i = l.begin(); i += a.n(0); auto j = i; j += a.n(1); r = J::arr(); r.add(peekv(j)); r.add(peekv(i + a.n(1)));
        }
        else return false;
        return true;
    }
    J obs() override
    {
        J it = J::arr(), pf = J::arr(), f = J::arr(); int c = 0;
        for (auto i = l.begin(); i != l.end() && c < 60; ++i, ++c) it.add(peekv(i));
        c = 0; for (auto i = l.begin(); !(i == l.end()) && c < 60; ++c) { auto o = i++; pf.add(peekv(o)); }
        if (!l.empty()) f.add(peekv(l.begin()));
        J o = J::obj(); o.set("e", (bool)l.empty()).set("it", it).set("pf", pf).set("rit", J::arr()).set("f", f).set("b", J::arr()).set("live", count()).set("mem", g_mem).set("err", nheap->errs + nheap->locked()); return o;
    }
};

J end_report() { J r = J::arr(); r.add(Tr::live).add(Tr::errs).add(g_mem); g_mem = 0; return r; }
Obj* make(const J& c)
{
    g_mem = 0;
    const std::string& k = c[0].s;
    if (k == "ifwd") return new IFwd(c[1]);
    if (k == "iback") return new IBack(c[1]);
    if (k == "hfwd") return new HFwd(c[1]);
    if (k == "ofwd") return new OFwd;
    if (k == "dbl") return new Dbl<false>;
    if (k == "hdbl") return new Dbl<true>;
    if (k == "hofwd") return new HOFwd;
    return nullptr;
}
