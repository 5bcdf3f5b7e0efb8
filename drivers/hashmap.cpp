// conformance driver: layer1/layer2 unordered_map, unordered_set
#include "common.h"
#include <cassert>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include <estd/optional.h>
#include <estd/string.h>
#include <map>

// keys of several types; hash modulus chosen at run time
#ifdef DRIVER_MAIN
int hashmod = 0;
#else
extern int hashmod;
#endif
inline unsigned hk(int k) { return (unsigned)(hashmod ? k % hashmod : k); }
typedef estd::layer1::optional<uint16_t, 0xFFFF> OptKey;
typedef estd::layer1::string<8> StrKey;
template <class K> struct KC;
template <> struct KC<int> { static int to(int k) { return k; } static int from(int k) { return k; } };
template <> struct KC<OptKey> { static OptKey to(int k) { return k < 0 ? OptKey() : OptKey((uint16_t)k); } static int from(const OptKey& k) { return k.has_value() ? (int)*k : -1; } };
template <> struct KC<StrKey> { static StrKey to(int k) { StrKey s; if (k) { char b[12]; snprintf(b, 12, "k%d", k); s += b; } return s; }
    static int from(const StrKey& s) { return s.size() ? atoi(s.data() + 1) : 0; } };
template <class K> struct Hash { unsigned operator()(const K& k) const { return hk(KC<K>::from(k)); } };
struct Big { int a; int b[3]; Big() = default; Big(int v) : a(v), b{v, v + 1, v + 2} {}
    operator int() const { return b[2] == a + 2 && b[0] == a ? a : -77; } };

template <class M> struct Hold1 { unsigned char pre[32]; M m; unsigned char post[32]; Hold1() { memset(pre, 0xC3, 32); memset(post, 0xC3, 32); }
    static void* operator new(size_t n) { void* p = malloc(n); memset(p, 0xFF, n); return p; } static void operator delete(void* p) { free(p); } };
template <class M, size_t N> struct Hold2 { typename estd::internal::unordered_map_traits_control<int, int>::control_type back[N]; M m; Hold2() : m(back) {}
    static void* operator new(size_t n) { void* p = malloc(n); memset(p, 0xFF, n); return p; } static void operator delete(void* p) { free(p); } };

template <class M, class K, class V, class H, bool L1> struct Map : Obj
{
    typedef KC<K> C;
    std::unique_ptr<H> h{new H};
    int nk; bool stable = true;
    std::map<const void*, int> where;
    Map(int nk) : nk(nk) {}
    std::map<const void*, int> scan() { std::map<const void*, int> r; for (auto i = h->m.begin(); i != h->m.end(); ++i) r[(const void*)&(*i).second] = C::from((*i).first); return r; }
    // i-th occurrence of k, walking the bucket
    typedef typename M::local_iterator LI;
    bool nth(int k, int n, typename M::pointer& p)
    {
        M& m = h->m; auto b = m.bucket(C::to(k));
        for (LI i = m.begin(b); i != m.end(b); ) { LI at = i++; const LI& c = at; if (C::from((*c).first) == k && c->first == (*at).first && n-- == 0) { p = (typename M::pointer)at; return true; } }
        return false;
    }
    J res(const estd::pair<typename M::iterator, bool>& r)
    {
        auto f = r.first; typename M::value_type* p = &*f;
        J j = J::arr(); j.add(r.second).add(p ? (int)(V)p->second : -1); return j;
    }
    bool op(const std::string& o, const J& a, J& r) override
    {
        M& m = h->m; r = 0;
        typedef typename M::value_type P;
        const M& cm = m;
        int news = 0; bool moves = false;
        if (a.size() && a.n(0) < 0 && o != "missing" && o != "erase" && !std::is_same<K, OptKey>::value) return false;
        K k = a.size() ? C::to(a.n(0)) : K();
        int v = a.size() > 1 ? a.n(1) : 0;
        if (o == "insert") { const P p(k, V(v)); r = res(m.insert(p)); news = 1; }
        else if (o == "insert_m") { r = res(m.insert(P(k, V(v)))); news = 1; }
        else if (o == "emplace") { r = res(m.emplace(k, V(v))); news = 1; }
        else if (o == "piecewise") { r = res(m.emplace(estd::piecewise_construct_t{}, estd::forward_as_tuple(k), estd::forward_as_tuple(v))); news = 1; }
        else if (o == "piecewise_dup") { r = res(m.emplace(estd::piecewise_construct_t{}, estd::forward_as_tuple(k), estd::forward_as_tuple(v), true)); news = 1; }
        else if (o == "try_emplace") { r = res(m.try_emplace(k, v)); news = 1; }
        else if (o == "insert_dup") { const P p(k, V(v)); r = res(m.insert(p, true)); news = 1; }
        else if (o == "insert_dup_m") { r = res(m.insert(P(k, V(v)), true)); news = 1; }
        else if (o == "insert_or_assign") { r = res(m.insert_or_assign(k, V(v))); news = 1; }
        else if (o == "index_set")
        {
            if (!L1) return false;
            if (!m.contains(k))
            {
                // would an insert succeed?  try on a bytewise copy
                std::unique_ptr<char[]> c(new char[sizeof(M)]); memcpy(c.get(), (void*)&m, sizeof(M));
                if (!((M*)c.get())->emplace(k, V(0)).second) return false;
            }
            m[k] = V(v); news = 1; if ((int)(V)m[k] != v) r = "readback";
        }
        else if (o == "erase") { r = (int)m.erase(k); }
        else if (o == "erase_it") { typename M::pointer p; if (!nth(a.n(0), a.n(1), p)) return false;
            auto i = m.begin(); while (&*i != p) ++i;
            auto n = m.erase(i); r = n == m.end() ? -1 : C::from((*n).first); }
        else if (o == "erase_gc") { typename M::pointer p; if (!nth(a.n(0), a.n(1), p)) return false;
            auto i = m.begin(); while (&*i != p) ++i; m.erase_and_gc(i); moves = true; }
        else if (o == "erase_gc_l") { int n = a.n(1); auto b = m.bucket(k); bool done = false;
            for (LI i = m.begin(b); i != m.end(b); ++i) if (C::from((*i).first) == a.n(0) && n-- == 0) { m.erase_and_gc(i); done = true; break; }
            if (!done) return false; moves = true; }
        else if (o == "gc") { typename M::pointer p; if (!nth(a.n(0), a.n(1), p)) return false;
            auto i = m.begin(); while (&*i != p) ++i; auto n = m.gc_active(i); r = C::from((*n).first); moves = true; }
        else if (o == "bucket") { auto b = cm.bucket(k); J l = J::arr();
            for (auto i = cm.cbegin(b); i != cm.cend(b); ++i) { J e = J::arr(); e.add(C::from((*i).first)).add((int)(V)i->second); l.add(e); }
            r = J::arr(); r.add((int)b).add(l).add((int)cm.bucket_size(b)); }
        else if (o == "clear") { m.clear(); }
        else if (o == "missing") { r = J::arr(); bool c = cm.contains(k); if (c != (m.find(k) != m.end())) { r = "find"; return true; } r.add(c).add((int)m.count(k)); }
        else return false;
        auto now = scan(); int fresh = 0;
        if (!moves) for (auto& e : now) { auto f = where.find(e.first); if (f == where.end() || f->second != e.second) fresh++; }
        if (fresh > news) stable = false;
        where = now;
        return true;
    }
    J obs() override
    {
        M& m = h->m; const M& cm = m;
        where = scan();
        J it = J::arr(), ks = J::arr(); int n = 0;
        for (auto i = cm.begin(); i != cm.end() && n < 1000; ++i, n++) { J e = J::arr(); e.add(C::from((*i).first)).add((int)(V)i->second); it.add(e); }
        for (int k = 1; k <= nk; k++)
        {
            K kk = C::to(k); J e = J::arr();
            auto f = m.find(kk); auto cf = cm.find(kk);
            bool c = cm.contains(kk); int v = -1;
            if ((f != m.end()) != c || (cf != cm.end()) != c) v = -99;
            else if (c) { v = (int)(V)f->second; if (C::from((*cf).first) != k || (int)(V)cf->second != v) v = -98; }
            e.add(c).add((int)cm.count(kk)).add(v); ks.add(e);
        }
        J o = J::obj();
        o.set("n", (int)cm.size()).set("e", (bool)cm.empty()).set("it", it).set("st", stable).set("ks", ks);
        return o;
    }
};
template <class S, class K> struct Set : Obj
{
    typedef KC<K> C;
    std::unique_ptr<Hold1<S>> h{new Hold1<S>};
    int nk; Set(int nk) : nk(nk) {}
    bool op(const std::string& o, const J& a, J& r) override
    {
        S& m = h->m; r = 0;
        if (o == "add") { auto x = m.insert(C::to(a.n(0))); auto f = x.first; auto p = &*f; r = J::arr(); r.add(x.second).add(p ? C::from(*p) : -1); }
        else if (o == "remove") r = (int)m.erase(C::to(a.n(0)));
        else if (o == "missing") { const S& c = m; r = J::arr(); r.add((bool)c.contains(C::to(a.n(0)))).add((int)c.count(C::to(a.n(0)))); }
        else if (o == "eq") { std::unique_ptr<Hold1<S>> h2(new Hold1<S>); for (auto& x : a[0].a) { if (h2->m.contains(C::to((int)x.i))) return false; if (!h2->m.insert(C::to((int)x.i)).second) { r = false; return true; } }
            bool e1 = m == h2->m, e2 = h2->m == m; r = e1 == e2 ? J(e1) : J("asym"); }
        else return false;
        return true;
    }
    J obs() override
    {
        S& m = h->m; const S& cm = m;
        J it = J::arr(), ks = J::arr(); int n = 0;
        for (auto i = cm.begin(); i != cm.end() && n < 1000; ++i, n++) { J e = J::arr(); e.add(C::from(*i)).add(C::from(*i)); it.add(e); }
        for (int k = 1; k <= nk; k++) { K kk = C::to(k); J e = J::arr(); e.add((bool)cm.contains(kk)).add((int)cm.count(kk)).add(cm.contains(kk) ? k : -1); ks.add(e); }
        J o = J::obj();
        o.set("n", (int)cm.size()).set("e", (bool)cm.empty()).set("it", it).set("st", true).set("ks", ks);
        return o;
    }
};
#ifndef PART
J end_report() { return 0; }
#endif
template <unsigned N> Obj* mkn(const J& c)
#ifdef PART
{
    std::string k = c[0].s; int nk = c.n(3); hashmod = c.n(2);
    int v = c.size() > 4 ? c.n(4) : 0;
    using namespace estd;
    if (k == "map" && v == 0) { typedef layer1::unordered_map<int, int, N, Hash<int>> M; return new Map<M, int, int, Hold1<M>, true>(nk); }
    if (k == "map" && v == 1) { typedef layer1::unordered_map<int, Big, N, Hash<int>> M; return new Map<M, int, Big, Hold1<M>, true>(nk); }
    if (k == "map" && v == 2) { typedef layer1::unordered_map<StrKey, int, N, Hash<StrKey>> M; return new Map<M, StrKey, int, Hold1<M>, true>(nk); }
    if (k == "mapl2") { typedef layer2::unordered_map<int, int, N, Hash<int>> M; return new Map<M, int, int, Hold2<M, N>, false>(nk); }
    if (k == "mapopt") { typedef layer1::unordered_map<OptKey, int, N, Hash<OptKey>> M; return new Map<M, OptKey, int, Hold1<M>, true>(nk); }
    if (k == "set" && v == 0) { typedef layer1::unordered_set<int, N, Hash<int>> M; return new Set<M, int>(nk); }
    if (k == "set" && v == 1) { typedef layer1::unordered_set<StrKey, N, Hash<StrKey>> M; return new Set<M, StrKey>(nk); }
    return nullptr;
}
template Obj* mkn<PART>(const J&);
#else
;
Obj* make(const J& c)
{
    switch (c.n(1)) { case 4: return mkn<4>(c); case 5: return mkn<5>(c); case 6: return mkn<6>(c); case 8: return mkn<8>(c); case 16: return mkn<16>(c); case 100: return mkn<100>(c); }
    return nullptr;
}
#endif
