// conformance driver: layer1, layer2 and layer3 maps
#include "common.h"
#include <cassert>
#include <estd/map.h>

namespace {
// a key which can only be compared for equality
struct SK { int a; char pad; bool operator==(const SK& o) const { return a == o.a; } };
template <class K> K mk(int x) { return K(x); }
template <> SK mk<SK>(int x) { return SK{x, 'p'}; }
template <class K> int un(const K& k) { return (int)k; }
template <> int un<SK>(const SK& k) { return k.a; }

template <class K, class M, class E, int N, int KIND> struct F : Obj
{
    E* raw = nullptr; estd::array<E, N> src; M* m[2] = {nullptr, nullptr};
    static M* build(estd::array<E, N>& s, E*, const J&, std::integral_constant<int, 1>) { return new M(s); }
    static M* build(estd::array<E, N>&, E* raw, const J&, std::integral_constant<int, 3>) { return new M(raw); }
    static M* build(estd::array<E, N>&, E* raw, const J&, std::integral_constant<int, 4>) { return new M(reinterpret_cast<E (&)[N]>(*raw)); }
    static E e(const J& j) { return E(mk<K>(j.n(0)), j.n(1)); }
    static M* build(estd::array<E, N>&, E*, const J& s, std::integral_constant<int, 2>) { return il(s, std::integral_constant<int, N>()); }
    static M* il(const J& s, std::integral_constant<int, 1>) { return new M({e(s[0])}); }
    static M* il(const J& s, std::integral_constant<int, 2>) { return new M({e(s[0]), e(s[1])}); }
    static M* il(const J& s, std::integral_constant<int, 3>) { return new M({e(s[0]), e(s[1]), e(s[2])}); }
    static M* il(const J& s, std::integral_constant<int, 4>) { return new M({e(s[0]), e(s[1]), e(s[2]), e(s[3])}); }
    static M* il(const J& s, std::integral_constant<int, 5>) { return new M({e(s[0]), e(s[1]), e(s[2]), e(s[3]), e(s[4])}); }
    static M* il(const J& s, std::integral_constant<int, 6>) { return new M({e(s[0]), e(s[1]), e(s[2]), e(s[3]), e(s[4]), e(s[5])}); }
    F(const J& s)
    {
        raw = new E[N];
        for (int i = 0; i < N; i++) { raw[i].first = mk<K>(s[i].n(0)); raw[i].second = s[i].n(1); src[i].first = raw[i].first; src[i].second = raw[i].second; }
        m[0] = build(src, raw, s, std::integral_constant<int, KIND>());
    }
    ~F() { delete m[0]; delete m[1]; delete[] raw; }
    static bool shared() { return KIND > 2; }
    E& at(int i) { return shared() ? raw[i] : src[i]; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "write") { int j = a.n(0); if (KIND == 2 || j < 1 || j > N) return false; at(j - 1).first = mk<K>(a[1].n(0)); at(j - 1).second = a[1].n(1); return true; }
        M*& x = m[a.n(0) - 1]; M*& y = m[2 - a.n(0)];
        if (!x) return false;
        if (o == "get")
        {
            int* p = (*x)[mk<K>(a.n(1))];
            int at = 0; J v = J::arr();
            if (p) { v.add(*p); if (shared()) for (int i = 0; i < N; i++) if (p == &raw[i].second) at = i + 1; }
            r = J::arr(); r.add(at).add(v); return true;
        }
        if (o == "set") { int* p = (*x)[mk<K>(a.n(1))]; if (p) *p = a.n(2); r = p != nullptr; return true; }
        if (o == "same") { r = (*x)[mk<K>(a.n(1))] == (*x)[mk<K>(a.n(2))]; return true; }
        if (o == "copy") { delete y; y = nullptr; y = new M(*x); return true; }
        if (o == "kill") { if (!y) return false; delete x; x = nullptr; return true; }
        return false;
    }
    J obs() override
    {
        static const int probe[] = {-1, 0, 1, 2, 3, 100};
        J b = J::arr(), mm = J::arr();
        if (KIND != 2) for (int i = 0; i < N; i++) { J k = J::arr(); k.add(un<K>(at(i).first)).add(at(i).second); b.add(k); }
        for (auto x : m)
        {
            J l = J::arr();
            if (x) for (int k : probe) { J v = J::arr(); if (int* p = (*x)[mk<K>(k)]) v.add(*p); l.add(v); }
            mm.add(l);
        }
        J o = J::obj(); o.set("b", b).set("m", mm); return o;
    }
};
template <class K, int N> Obj* make3(const std::string& k, const J& s)
{
    if (k == "l1") { typedef estd::layer1::map<K, int, N> M; return new F<K, M, typename M::value_type, N, 1>(s); }
    if (k == "il") { typedef estd::layer1::map<K, int, N> M; return new F<K, M, typename M::value_type, N, 2>(s); }
    if (k == "l2") { typedef estd::layer2::map<K, int, N> M; return new F<K, M, typename M::value_type, N, 3>(s); }
    if (k == "l3") { typedef estd::layer3::map<K, int> M; return new F<K, M, typename M::value_type, N, 4>(s); }
    return nullptr;
}
template <class K> Obj* make2(const std::string& k, const J& s)
{
    switch (s.size())
    {
        case 1: return make3<K, 1>(k, s);
        case 2: return make3<K, 2>(k, s);
        case 3: return make3<K, 3>(k, s);
        case 4: return make3<K, 4>(k, s);
        case 5: return make3<K, 5>(k, s);
        case 6: return make3<K, 6>(k, s);
    }
    return nullptr;
}
}
J end_report() { J j = J::arr(); j.add(0).add(0); return j; }
Obj* make(const J& c)
{
    const std::string& t = c[1].s;
    if (t == "i") return make2<int>(c[0].s, c[2]);
    if (t == "b") return make2<signed char>(c[0].s, c[2]);
    if (t == "s") return make2<SK>(c[0].s, c[2]);
    return nullptr;
}
