// conformance driver: estd vector family
#include "common.h"
#include <estd/vector.h>

struct Pod { int v; short w; char z[6]; bool operator==(const Pod& o) const { return v == o.v && w == o.w && z[5] == o.z[5]; } };

template <class T> struct Cv { static T to(int v) { return (T)v; } static int from(const T& t) { return (int)t; } };
template <> struct Cv<Pod>
{
    static Pod to(int v) { Pod p{}; p.v = v; p.w = (short)(v * 3); p.z[0] = (char)v; p.z[5] = (char)(v + 7); return p; }
    static int from(const Pod& p) { if (p.w != (short)(p.v * 3) || p.z[5] != (char)(p.v + 7) || p.z[0] != (char)p.v) return -77; return p.v; }
};

// malloc-backed allocator in the shape the library expects (handle == pointer)
template <class T>
struct mallocator
{
    static constexpr bool is_locking() { return false; }
    typedef T value_type;
    typedef value_type* pointer;
    typedef const void* const_void_pointer;
    typedef value_type* handle_type;
    typedef size_t size_type;
    typedef estd::internal::handle_with_offset_raw<pointer> handle_with_offset;
    typedef T& accessor;
    typedef estd::internal::locking_iterator<mallocator, estd::internal::traditional_accessor<value_type> > iterator;
    static handle_type invalid() { return nullptr; }
    pointer allocate(size_t n) { return (pointer)malloc(n * sizeof(T)); }
    void deallocate(handle_type p, size_t) { free(p); }
    handle_type reallocate(handle_type h, size_t n) { return (pointer)realloc(h, n * sizeof(T)); }
    handle_with_offset offset(handle_type h, ptrdiff_t n) const { return handle_with_offset(h + n); }
    value_type& lock(const estd::internal::handle_with_offset_raw<pointer, size_t>& a) const { return *a.handle(); }
    static unsigned max_size() { return 99999; }
};

template <class T, size_t N> struct Store { unsigned char pre[16]; T buf[N]; unsigned char post[16];
    Store() { memset(pre, 0xC3, 16); memset(post, 0xC3, 16); memset((void*)buf, 0x11, sizeof buf); }
    bool ok() const { for (int i = 0; i < 16; i++) if (pre[i] != 0xC3 || post[i] != 0xC3) return false; return true; } };

template <class T, size_t N> struct H1 { unsigned char pre[16]; estd::layer1::vector<T, N> v; unsigned char post[16];
    H1() { memset(pre, 0xC3, 16); memset(post, 0xC3, 16); }
    bool ok() const { for (int i = 0; i < 16; i++) if (pre[i] != 0xC3 || post[i] != 0xC3) return false; return true; }
    static constexpr bool fixed = true, l1 = true; };
template <class T, size_t N> struct HI { unsigned char pre[16]; estd::layer1::vector<T, N> v; unsigned char post[16];
    HI(const J& c) : v{(T)c.n(0), (T)c.n(1), (T)c.n(2)} { memset(pre, 0xC3, 16); memset(post, 0xC3, 16); }
    bool ok() const { for (int i = 0; i < 16; i++) if (pre[i] != 0xC3 || post[i] != 0xC3) return false; return true; }
    static constexpr bool fixed = true, l1 = true; };
template <class T, size_t N> struct HA { Store<T, N> s; estd::layer2::vector<T, N> v;
    static T* fill(T* b, const J& c) { for (size_t i = 0; i < c.size(); i++) b[i] = (T)c.n(i); return b; }
    HA(const J& c) : v(fill(s.buf, c), c.size()) {} bool ok() const { return s.ok(); } static constexpr bool fixed = true, l1 = false; };
template <class T, size_t N> struct H2 { Store<T, N> s; estd::layer2::vector<T, N> v;
    H2() : v(s.buf) {} bool ok() const { return s.ok(); } static constexpr bool fixed = true, l1 = false; };
template <class T, size_t N> struct H3 { Store<T, N> s; estd::layer3::vector<T> v;
    H3() : v(s.buf) {} bool ok() const { return s.ok(); } static constexpr bool fixed = true, l1 = false; };
template <class T, size_t N> struct HD { estd::vector<T, mallocator<T>> v;
    bool ok() const { return v.capacity() >= v.size(); } static constexpr bool fixed = false, l1 = false; };

template <class T, size_t N, template <class, size_t> class H>
struct V : Obj
{
    H<T, N> h;
    typedef Cv<T> C;
    std::vector<T> tv(const J& j) { std::vector<T> r; for (auto& x : j.a) r.push_back(C::to((int)x.i)); return r; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        auto& v = h.v;
        size_t n = v.size();
        auto fits = [&](size_t k) { return n + k <= N; };
        r = 0;
        if (o == "push_back") { if (!fits(1)) return false; const T x = C::to(a.n(0)); v.push_back(x); r = (int)v.size(); }
        else if (o == "push_move") { if (!fits(1)) return false; v.push_back(C::to(a.n(0))); r = (int)v.size(); }
        else if (o == "emplace_back") { if (!fits(1)) return false; auto acc = v.emplace_back(C::to(a.n(0))); r = C::from(acc.lock()); acc.unlock(); }
        else if (o == "pop_back") { if (!n) return false; v.pop_back(); }
        else if (o == "append_ptr") { if (!fits(a[0].size())) return false; auto t = tv(a[0]); v.append(t.data(), t.size()); }
        else if (o == "append_arr") { if (!fits(a[0].size())) return false; auto t = tv(a[0]);
            estd::layer1::vector<T, 310> s; for (auto& x : t) s.push_back(x); v.append(s); }
        else if (o == "assign") { if (a[0].size() > N) return false; auto t = tv(a[0]);
            if (!h.fixed && n == 0 && t.empty()) return true;
            estd::layer1::vector<T, 310> s; for (auto& x : t) s.push_back(x); v.assign(s); }
        else if (o == "insert") { if (!fits(1) || a.n(0) > (int)n) return false; if (!h.fixed && !n) { v.reserve(1); } const T x = C::to(a.n(1)); auto i = v.insert(v.begin() + a.n(0), x); r = (int)(i - v.begin()); if (!h.fixed) r = a.n(0); }
        else if (o == "insert_move") { if (!fits(1) || a.n(0) > (int)n) return false; if (!h.fixed && !n) { v.reserve(1); } auto i = v.insert(v.begin() + a.n(0), C::to(a.n(1))); r = (int)(i - v.begin()); if (!h.fixed) r = a.n(0); }
        else if (o == "insert_range") { if (!fits(a[1].size()) || a.n(0) > (int)n) return false; if (!h.fixed && !n) { v.reserve(1); } auto t = tv(a[1]); auto i = v.insert(v.begin() + a.n(0), t.data(), t.data() + t.size()); r = (int)(i - v.begin()); if (!h.fixed) r = a.n(0); }
        else if (o == "push_self") { if (a.n(0) >= (int)n || !fits(1)) return false; auto acc = v[a.n(0)]; v.push_back((const T&)acc.lock()); r = (int)v.size(); }
        else if (o == "insert_self") { if (a.n(1) >= (int)n || a.n(0) > (int)n || !fits(1)) return false; auto acc = v[a.n(1)]; auto i = v.insert(v.begin() + a.n(0), (const T&)acc.lock()); r = h.fixed ? (int)(i - v.begin()) : a.n(0); }
        else if (o == "append_self") { if (!h.fixed || !fits(n)) return false; v.append(v); }
        else if (o == "search" || o == "rsearch" || o == "first_of" || o == "last_of")
        {
            if (!h.fixed && !n) { v.reserve(1); }
            auto t = tv(a[0]); std::unique_ptr<T[]> q(new T[t.size()]); for (size_t i = 0; i < t.size(); i++) q[i] = t[i];
            typedef typename std::decay<decltype(v.size())>::type S; const S np = (S)-1; S p = a.n(1) == -1 ? np : (S)a.n(1), m = (S)t.size(), k;
            if ((o == "search" || o == "first_of") && a.n(1) < 0) return false;
            const auto& c = v;
            if (o == "search") k = c.find(q.get(), p, m, np); else if (o == "rsearch") k = c.rfind(q.get(), p, m, np);
            else if (o == "first_of") k = c.find_first_of(q.get(), p, m, np); else k = c.find_last_of(q.get(), p, m, np);
            r = k == np ? J(-1) : J((int)k);
        }
        else if (o == "step")
        {
            if (a.n(0) + 1 >= (int)n) return false;
            auto i = v.begin(); i += a.n(0); auto x = i++; r = J::arr().add(C::from(*x)).add(C::from(*i)); auto y = i--; r.add(C::from(*y)).add(C::from(*i)); i -= a.n(0); r.add(C::from(*i));
            if (i != v.begin() || y - x != 1 || x - y != -1 || !(x < y) || x > y || !(y > x) || x == y || !(x != y)) r = "iterators";
        }
        else if (o == "erase") { if (a.n(0) >= (int)n) return false; auto i = v.erase(v.begin() + a.n(0)); r = (int)(i - v.begin()); }
        else if (o == "resize") { if (a.n(0) > (int)N) return false; if (!h.fixed && !n && !a.n(0)) { r = true; return true; } bool ok = v.resize(a.n(0)); for (size_t i = n; i < (size_t)a.n(0); i++) v[i].lock() = C::to(a.n(1)); r = ok; }
        else if (o == "clear") { v.clear(); }
        else if (o == "set_ix") { if (a.n(0) >= (int)n) return false; auto acc = v[a.n(0)]; acc.lock() = C::to(a.n(1)); acc.unlock(); }
        else if (o == "set_it") { if (a.n(0) >= (int)n) return false; auto i = v.begin(); for (int k = 0; k < a.n(0); k++) ++i; *i = C::to(a.n(1)); }
        else if (o == "front") { if (!n) return false; auto acc = v.front(); r = C::from(acc.lock()); }
        else if (o == "back") { if (!n) return false; auto acc = v.back(); r = C::from(acc.lock()); }
        else if (o == "at") { if (a.n(0) >= (int)n) return false; const T& x = v.at(a.n(0)); r = C::from(x); }
        else if (o == "reverse_iter") { r = J::arr(); auto i = v.end(); while (i != v.begin()) { --i; r.add(C::from(*i)); } }
        else if (o == "eq") { auto t = tv(a[0]); estd::layer1::vector<T, 310> s; for (auto& x : t) s.push_back(x); bool e1 = v == s; bool e2 = s == v; r = (e1 == e2) ? J(e1) : J("asym"); }
        else if (o == "find") { int k = 0; T x = C::to(a.n(0)); auto i = v.begin(); for (; i != v.end(); i++) { if (*i == x) break; k++; } r = k; }
        else if (o == "copy") { if (a.n(1) > (int)n) return false; T out[320]; memset((void*)out, 0, sizeof out); size_t c = v.copy(out, a.n(0), a.n(1)); r = J::arr(); for (size_t k = 0; k < c; k++) r.add(C::from(out[k])); }
        else if (o == "iter") { if (a.n(0) > (int)n || a.n(1) > (int)n) return false; auto i = v.begin() + a.n(0); auto j = v.end() - ((int)n - a.n(1)); r = J::arr(); r.add((int)(j - i)).add(i < j).add(i == j).add(i > j).add(i >= j); }
        else if (o == "copy_indep") { if (!n || !h.l1) return false; return cpi(a.n(0), r, std::integral_constant<bool, H<T, N>::l1>()); }
        else if (o == "reserve") { if (h.fixed || a.n(0) < (int)n) return false; r = v.reserve(a.n(0)); }
        else if (o == "shrink_to_fit") { if (h.fixed || !n) return false; v.shrink_to_fit(); }
        else return false;
        return true;
    }
    V() {}
    template <class A> explicit V(const A& a) : h(a) {}
    bool cpi(int x, J& r, std::true_type)
    {
        auto v2 = h.v; v2.at(0) = C::to(x);
        r = J::arr(); for (size_t i = 0; i < v2.size(); i++) r.add(C::from(v2.at(i)));
        return true;
    }
    bool cpi(int, J&, std::false_type) { return false; }
    J obs() override
    {
        const auto& v = h.v;
        J it = J::arr(), ix = J::arr();
        if (h.fixed || v.size()) for (auto i = h.v.begin(); i != h.v.end(); ++i) it.add(C::from(*i));
        for (size_t i = 0; i < v.size(); i++) { auto acc = v[i]; ix.add(C::from(acc.lock())); }
        J o = J::obj();
        o.set("n", (int)v.size()).set("e", (bool)v.empty()).set("it", it).set("ix", ix);
        o.set("cap", h.fixed ? (int)v.capacity() : (int)v.size());
        bool ok = h.ok() && (!h.fixed || v.max_size() == N);
        if constexpr (H<T, N>::fixed)
        {
            const T* d = v.data(); if (d != h.v.data()) ok = false;
            for (size_t i = 0; ok && i < v.size(); i++) if (C::from(d[i]) != ix.n(i)) ok = false;
        }
        o.set("ok", ok);
        return o;
    }
};

template <class T, size_t N> Obj* mk(const std::string& k)
{
    if (k[1] == '1') return new V<T, N, H1>;
    if (k[1] == '2') return new V<T, N, H2>;
    if (k[1] == '3') return new V<T, N, H3>;
    return nullptr;
}
template <size_t N> Obj* mkn(const std::string& k, const J& c);
#ifdef PART
template <size_t N> Obj* mkn(const std::string& k, const J& c)
{
    if (k == "dyn") return new V<int, N, HD>;
    if (k == "l1i") return new V<int, N, HI>(c);
    if (k == "l2a") return new V<int, N, HA>(c);
    std::string t = k.substr(2);
    if (t == "") return mk<int, N>(k);
    if (t == "u8") return mk<uint8_t, N>(k);
    if (t == "pod") return mk<Pod, N>(k);
    return nullptr;
}
template Obj* mkn<PART>(const std::string&, const J&);
#else
J end_report() { return 0; }
extern template Obj* mkn<3>(const std::string&, const J&);
extern template Obj* mkn<4>(const std::string&, const J&);
extern template Obj* mkn<9>(const std::string&, const J&);
extern template Obj* mkn<13>(const std::string&, const J&);
extern template Obj* mkn<24>(const std::string&, const J&);
extern template Obj* mkn<300>(const std::string&, const J&);
Obj* make(const J& c)
{
    switch (c[0].s == "dyn" ? 24 : c.n(1)) { case 3: return mkn<3>(c[0].s, c.size() == 3 ? c[2] : c); case 4: return mkn<4>(c[0].s, c.size() == 3 ? c[2] : c); case 9: return mkn<9>(c[0].s, c.size() == 3 ? c[2] : c); case 13: return mkn<13>(c[0].s, c.size() == 3 ? c[2] : c); case 300: return mkn<300>(c[0].s, c.size() == 3 ? c[2] : c); case 24: return mkn<24>(c[0].s, c.size() == 3 ? c[2] : c); }
    return nullptr;
}
#endif
