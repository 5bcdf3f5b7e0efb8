// conformance driver: mutable estd strings
#include "common.h"
#include <estd/string.h>
#include <estd/string_view.h>
#include <string_view>

template <class T>
struct mallocator
{
    static constexpr bool is_locking() { return false; }
    typedef T value_type;
    typedef value_type* pointer;
    typedef const void* const_void_pointer;
    typedef value_type* handle_type;
    typedef size_t size_type;
    typedef estd::internal::handle_with_offset_raw<pointer> handle_with_offset;
    typedef T& accessor;
    typedef estd::internal::locking_iterator<mallocator, estd::internal::traditional_accessor<value_type> > iterator;
    static handle_type invalid() { return nullptr; }
    pointer allocate(size_t n) { return (pointer)malloc(n * sizeof(T)); }
    void deallocate(handle_type p, size_t) { free(p); }
    handle_type reallocate(handle_type h, size_t n) { return (pointer)realloc(h, n * sizeof(T)); }
    handle_with_offset offset(handle_type h, ptrdiff_t n) const { return handle_with_offset(h + n); }
    value_type& lock(const estd::internal::handle_with_offset_raw<pointer, size_t>& a) const { return *a.handle(); }
    static unsigned max_size() { return 99999; }
};

template <size_t N> struct Guard { unsigned char pre[16]; char buf[N]; unsigned char post[16];
    Guard() { memset(pre, 0xC3, 16); memset(post, 0xC3, 16); memset(buf, 0x7E, N); buf[0] = 0; }
    bool ok() const { for (int i = 0; i < 16; i++) if (pre[i] != 0xC3 || post[i] != 0xC3) return false; return true; } };

#define GUARDED unsigned char pre[16]; 
template <size_t N, bool Z> struct S1 { unsigned char pre[16]; estd::layer1::string<N, Z> v; unsigned char post[16];
    typedef estd::layer1::string<N, Z> type;
    S1() { memset(pre, 0xC3, 16); memset(post, 0xC3, 16); }
    bool ok() const { for (int i = 0; i < 16; i++) if (pre[i] != 0xC3 || post[i] != 0xC3) return false; return true; } };
template <size_t N, bool Z> struct S2 { Guard<N> g; estd::layer2::string<N, Z> v; typedef estd::layer2::string<N, Z> type;
    S2() : v(g.buf, 0) {} bool ok() const { return g.ok(); } };
// storage that already holds text
template <size_t N> struct Pre : Guard<N> { Pre(const std::string& t, bool z) { memcpy(this->buf, t.data(), t.size()); if (z) this->buf[t.size()] = 0; } };
enum { How_n, How_0, How_a, How_an, How_t };
template <size_t N, bool Z, int W> struct A2 { Pre<N> g; estd::layer2::string<N, Z> v; typedef estd::layer2::string<N, Z> type;
    A2(const std::string& t) : g(t, W != How_n && W != How_an), v(mk(g.buf, t.size(), std::integral_constant<int, W>())) {} bool ok() const { return g.ok(); }
    static type mk(char (&b)[N], int n, std::integral_constant<int, How_n>) { char* p = b; return type(p, n); }
    static type mk(char (&b)[N], int, std::integral_constant<int, How_0>) { char* p = b; return type(p); }
    static type mk(char (&b)[N], int, std::integral_constant<int, How_a>) { return type(b); }
    static type mk(char (&b)[N], int n, std::integral_constant<int, How_an>) { return type(b, n); }
    static type mk(char (&b)[N], int, std::integral_constant<int, How_t>) { char* p = b; return type(p, true); } };
template <size_t N, bool Z, int W> struct A3 { Pre<N> g; estd::layer3::basic_string<char, Z> v; typedef estd::layer3::basic_string<char, Z> type;
    A3(const std::string& t) : g(t, W != How_n && W != How_an), v(mk(g.buf, t.size(), std::integral_constant<int, W>())) {} bool ok() const { return g.ok(); }
    static type mk(char (&b)[N], int n, std::integral_constant<int, How_n>) { char* p = b; return type(p, (uint16_t)n, (uint16_t)N); }
    static type mk(char (&b)[N], int, std::integral_constant<int, How_a>) { return type(b); }
    static type mk(char (&b)[N], int n, std::integral_constant<int, How_an>) { return type(b, (uint16_t)n); } };
template <size_t N> struct S2u { Guard<N> g; estd::layer2::string<> v; typedef estd::layer2::string<> type;
    S2u() : v(g.buf, 0) {} bool ok() const { return g.ok(); } };
template <size_t N, bool Z> struct S3 { Guard<N> g; estd::layer3::basic_string<char, Z> v; typedef estd::layer3::basic_string<char, Z> type;
    S3() : v(g.buf, (uint16_t)0, (uint16_t)N) {} bool ok() const { return g.ok(); } };
template <size_t N> struct SD { typedef estd::basic_string<char, std::char_traits<char>, mallocator<char>> type; type v;
    SD() { v.reserve(1); }
    bool ok() const { return v.capacity() >= v.size(); } };

enum { L1, L2, L3, DY };

template <size_t N, bool Z, class H, int L>
struct S : Obj
{
    H h;
    typedef typename H::type type;
    static constexpr size_t CAP = Z ? N - 1 : N;
    static bool nonul(const std::string& t) { return t.find('\0') == t.npos; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        auto& v = h.v;
        size_t n = v.size();
        auto fits = [&](size_t k) { return n + k <= CAP; };
        r = 0;
        // a character which terminates cannot travel through a terminated source
        if (a.size() && a[a.size() - 1].t == J::A && !nonul(a[a.size() - 1].str()) && (Z || !(o == "append_n" || o == "append_sv" || o == "append_view" || o == "assign_view" || o == "insert_n" || (o == "ctor" && L == L1)))) return false;
        if (o == "append_c" || o == "append_n" || o == "append_str" || o == "plus_c" || o == "plus_str" || o == "append_sv" || o == "append_view")
        {
            std::string t = a[0].str();
            if (!fits(t.size())) return false;
            if (o == "append_c") v.append(t.c_str());
            else if (o == "append_n") { std::string u = t + "XYZ"; v.append(u.data(), t.size()); }
            else if (o == "append_str") { estd::layer1::string<310> x(t.c_str()); v.append(x); }
            else if (o == "plus_c") v += t.c_str();
            else if (o == "plus_str") { char b[310]; estd::layer2::string<> x(b, 0); x = t.c_str(); v += x; }
            else if (o == "append_sv") v.append(std::string_view(t.data(), t.size()));
            else { estd::string_view x(t.data(), t.size()); v.append(x); }
        }
        else if (o == "append_fill") { if (!fits(a.n(0))) return false; v.append((typename type::size_type)a.n(0), (char)a.n(1)); }
        else if (o == "plus_ch") { if (!fits(1)) return false; v += (char)a.n(0); }
        else if (o == "append_self" || o == "plus_self") { if (!fits(n)) return false; if (L == DY) part(0, n, std::false_type()); else if (o == "plus_self") v += v; else v.append(v); }
        else if (o == "assign_self") { auto& w = v; v = w; }
        else if (o == "append_part") { if (a.n(0) + a.n(1) > (int)n || !fits(a.n(1))) return false; part(a.n(0), a.n(1), std::integral_constant<bool, L != DY>()); }
        else if (o == "push_back") { if (!fits(1)) return false; const char c = (char)a.n(0); v.push_back(c); }
        else if (o == "pop_back") { if (!n) return false; v.pop_back(); }
        else if (o == "assign_c") { std::string t = a[0].str(); if (t.size() > CAP) return false; asg(t.c_str(), std::integral_constant<bool, L == L1 || L == L2>()); }
        else if (o == "assign_str") { std::string t = a[0].str(); if (t.size() > CAP) return false; estd::layer1::string<310> x(t.c_str()); v = x; }
        else if (o == "assign_view") { std::string t = a[0].str(); if (t.size() > CAP) return false; estd::string_view x(t.data(), t.size()); v = x; }
        else if (o == "ctor")
        {
            std::string t = a[0].str(); if (t.size() > CAP) return false;
            ctor(t, std::integral_constant<int, L>());
        }
        else if (o == "insert_c" || o == "insert_n" || o == "insert_str")
        {
            std::string t = a[1].str();
            if (!fits(t.size()) || a.n(0) > (int)n) return false;
            if (o == "insert_c") v.insert((typename type::size_type)a.n(0), t.c_str());
            else if (o == "insert_n") { std::string u = t + "QQQ"; v.insert((typename type::size_type)a.n(0), u.data(), (typename type::size_type)t.size()); }
            else { estd::layer1::string<310> x(t.c_str()); v.insert((typename type::size_type)a.n(0), x); }
        }
        else if (o == "erase")
        {
            if (a.n(0) > (int)n) return false;
            typedef typename type::size_type st;
            if (a.n(1) == 999) v.erase((st)a.n(0)); else v.erase((st)a.n(0), (st)a.n(1));
        }
        else if (o == "erase0") v.erase();
        else if (o == "clear") v.clear();
        else if (o == "resize") { if (a.n(0) > (int)n) return false; r = v.resize(a.n(0)); }
        else if (o == "set_ix") { if (a.n(0) >= (int)n) return false; v[a.n(0)] = (char)a.n(1); }
        else if (o == "copy") { if (a.n(1) > (int)n) return false; char out[320]; memset(out, 0x55, sizeof out); size_t c = v.copy(out, a.n(0) == 999 ? (typename type::size_type)-1 : (typename type::size_type)a.n(0), a.n(1)); if (out[c] != 0x55) r = "overrun"; else r = codes(out, c); }
        else if (o == "view") { r = view(std::integral_constant<int, L>()); }
        else if (o == "copy_ctor") { if (!n || L != L1) return false; r = cpi((char)a.n(0), std::integral_constant<bool, L == L1>()); }
        else if (o == "front") { if (!n) return false; r = (int)(unsigned char)(char)v.front(); }
        else if (o == "back") { if (!n) return false; r = (int)(unsigned char)(char)v.back(); }
        else return false;
        return true;
    }
    S() {}
    S(const std::string& t) : h(t) {}
    void part(int i, int k, std::true_type) { h.v.append(h.v.data() + i, k); }
    void part(int i, int k, std::false_type) { std::string t(h.v.clock() + i, k); h.v.cunlock(); h.v.append(t.data(), t.size()); }   // growing moves it: a copy
    void ctor(const std::string& t, std::integral_constant<int, L1>)
    {
        h.v.~type();
        if (t.size() % 2 || !nonul(t)) new (&h.v) type(t.data(), (typename type::size_type)t.size()); else new (&h.v) type(t.c_str());
    }
    template <int X> void ctor(const std::string& t, std::integral_constant<int, X>) { asg(t.c_str(), std::integral_constant<bool, L == L1 || L == L2>()); }
    void asg(const char* s, std::true_type) { h.v = s; }
    void asg(const char* s, std::false_type) { estd::layer1::string<310> x(s); h.v = x; }
    template <int X> J view(std::integral_constant<int, X>) { typename type::view_type x = h.v; return codes(x.data(), x.size()); }
    J view(std::integral_constant<int, DY>) { J j = codes(h.v.clock(), h.v.size()); h.v.cunlock(); return j; }
    J cpi(char c, std::true_type) { type w(h.v); w[0] = c; return codes(w.data(), w.size()); }
    J cpi(char, std::false_type) { return 0; }
    template <class V> bool term(V& v, std::true_type) { const char* p = v.data(); return strlen(p) == v.size(); }
    template <class V> bool term(V& v, std::false_type) { return true; }
    J obs() override
    {
        auto& v = h.v;
        J it = J::arr(), ix = J::arr();
        for (auto i = v.begin(); i != v.end(); ++i) it.add((int)(unsigned char)(char)*i);
        for (size_t i = 0; i < v.size(); i++) ix.add((int)(unsigned char)(char)v[i]);
        J o = J::obj();
        o.set("n", (int)v.size()).set("len", (int)v.length()).set("e", (bool)v.empty()).set("it", it).set("ix", ix);
        o.set("term", term(v, std::integral_constant<bool, Z>())).set("ok", h.ok());
        return o;
    }
};

template <size_t N> Obj* mkn(const std::string& k, const J& c);
#ifdef PART
template <size_t N> Obj* mkn(const std::string& k, const J& c)
{
    if (c.size() == 4)
    {
        std::string t = c[2].str(), w = c[3].s;
        if (k == "l2z") return w == "n" ? (Obj*)new S<N, true, A2<N, true, How_n>, L2>(t) : w == "0" ? (Obj*)new S<N, true, A2<N, true, How_0>, L2>(t) : w == "a" ? (Obj*)new S<N, true, A2<N, true, How_a>, L2>(t)
            : w == "an" ? (Obj*)new S<N, true, A2<N, true, How_an>, L2>(t) : (Obj*)new S<N, true, A2<N, true, How_t>, L2>(t);
        if (k == "l2s") return w == "n" ? (Obj*)new S<N, false, A2<N, false, How_n>, L2>(t) : (Obj*)new S<N, false, A2<N, false, How_an>, L2>(t);
        if (k == "l3z") return w == "n" ? (Obj*)new S<N, true, A3<N, true, How_n>, L3>(t) : w == "a" ? (Obj*)new S<N, true, A3<N, true, How_a>, L3>(t) : (Obj*)new S<N, true, A3<N, true, How_an>, L3>(t);
        return w == "n" ? (Obj*)new S<N, false, A3<N, false, How_n>, L3>(t) : w == "a" ? (Obj*)new S<N, false, A3<N, false, How_a>, L3>(t) : (Obj*)new S<N, false, A3<N, false, How_an>, L3>(t);
    }
    if (k == "l1z") return new S<N, true, S1<N, true>, L1>;
    if (k == "l1s") return new S<N, false, S1<N, false>, L1>;
    if (k == "l2z") return new S<N, true, S2<N, true>, L2>;
    if (k == "l2s") return new S<N, false, S2<N, false>, L2>;
    if (k == "l2u") return new S<N, true, S2u<N>, L2>;
    if (k == "l3z") return new S<N, true, S3<N, true>, L3>;
    if (k == "l3s") return new S<N, false, S3<N, false>, L3>;
    if (k == "dyn") return new S<N, false, SD<N>, DY>;
    return nullptr;
}
template Obj* mkn<PART>(const std::string&, const J&);
#else
J end_report() { return 0; }
Obj* make(const J& c)
{
    switch (c.n(1)) { case 4: return mkn<4>(c[0].s, c); case 5: return mkn<5>(c[0].s, c); case 9: return mkn<9>(c[0].s, c); case 20: return mkn<20>(c[0].s, c); case 300: return mkn<300>(c[0].s, c); }
    return nullptr;
}
#endif
