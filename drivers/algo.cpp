#include "common.h"
#include <cassert>
#include <iterator>
#include <estd/array.h>
#include <estd/vector.h>
#include <estd/algorithm.h>
#include <estd/numeric.h>

namespace {
struct M
{
    int v = 0;
    M() = default; M(int x) : v(x) {}
    M(const M&) = default; M& operator=(const M&) = default;
    M(M&& o) : v(o.v) { o.v = 9; } M& operator=(M&& o) { v = o.v; o.v = 9; return *this; }
    operator int() const { return v; }
};
// any order, given as an object with state
struct Cmp { int k; bool operator()(int x, int y) const { return k == 0 ? x < y : k == 1 ? x > y : x % 2 < y % 2; } };
struct Prd { int k; bool operator()(int x, int y) const { return k == 0 ? x == y : k == 1 ? x <= y : x >= y; } };
struct Is { int v; bool operator()(int x) const { return x == v; } };
Cmp cmp(const std::string& s) { return Cmp{s == "lt" ? 0 : s == "gt" ? 1 : 2}; }
Prd prd(const std::string& s) { return Prd{s == "eq" ? 0 : s == "le" ? 1 : 2}; }

template <class T> struct PtrC { T* p; int n; PtrC(int k) : p(new T[k]), n(k) { for (int i = 0; i < k; i++) p[i] = T(0); } ~PtrC() { delete[] p; } T* begin() { return p; } T* end() { return p + n; } };
template <unsigned N> struct ArrC { estd::array<int, N> a; ArrC(int) { for (unsigned i = 0; i < N; i++) a[i] = 0; } auto begin() -> decltype(a.begin()) { return a.begin(); } auto end() -> decltype(a.end()) { return a.end(); } };
struct VecC { estd::layer1::vector<int, 280> a; VecC(int n) { for (int i = 0; i < n; i++) a.push_back(0); } auto begin() -> decltype(a.begin()) { return a.begin(); } auto end() -> decltype(a.end()) { return a.end(); } };
// iterators of no library: only ++ (and --), every element a node of its own
template <bool BID> struct Node { int v = 0; Node* n = nullptr; Node* p = nullptr; };
template <bool BID> struct NIt
{
    typedef int value_type; typedef int& reference; typedef int* pointer; typedef std::ptrdiff_t difference_type;
    typedef typename std::conditional<BID, std::bidirectional_iterator_tag, std::forward_iterator_tag>::type iterator_category;
    Node<BID>* x;
    int& operator*() const { return x->v; }
    NIt& operator++() { x = x->n; return *this; } NIt operator++(int) { NIt y = *this; ++*this; return y; }
    NIt& operator--() { static_assert(BID, "only forward"); x = x->p; return *this; } NIt operator--(int) { NIt y = *this; --*this; return y; }
    bool operator==(const NIt& o) const { return x == o.x; } bool operator!=(const NIt& o) const { return x != o.x; }
};
template <bool BID> struct NodeC
{
    Node<BID>* h; Node<BID>* e;
    NodeC(int n) { h = e = new Node<BID>; while (n--) { auto* y = new Node<BID>; y->n = h; h->p = y; h = y; } }
    ~NodeC() { while (h) { auto* y = h->n; delete h; h = y; } }
    NIt<BID> begin() { return {h}; } NIt<BID> end() { return {e}; }
};
typedef NodeC<true> BidC; typedef NodeC<false> FwdC;

template <class C, bool BID> struct A : Obj
{
    C c; int n;
    A(int k) : c(k), n(k) {}
    typedef typename std::decay<decltype(c.begin())>::type It;
    It at(int i) { It x = c.begin(); while (i-- > 0) ++x; return x; }
    int pos(It x) { int i = 0; for (It y = c.begin(); ; ++y, i++) { if (y == x) return i; if (y == c.end()) return -1; } }
    template <bool B, class F, class... X> static auto bid(F f, X... x) -> typename std::enable_if<B, bool>::type { f(x...); return true; }
    template <bool B, class F, class... X> static auto bid(F, X...) -> typename std::enable_if<!B, bool>::type { return false; }
    template <class P> static J which(const P& r, const P& a, const P& b) { return &r == &a ? 0 : &r == &b ? 1 : -1; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "clamp")
        {
            int v = a.n(0), lo = a.n(1), hi = a.n(2); Cmp q = cmp(a[3].s);
            if (q(hi, lo)) return false;
            auto w = [&](const int& x) { return &x == &v ? 0 : &x == &lo ? 1 : &x == &hi ? 2 : -1; };
            r = w(estd::clamp(v, lo, hi, q));
            if (q.k == 0 && w(estd::clamp(v, lo, hi)) != r.i) r = "default order differs";
            return true;
        }
        int i = a.n(0), j = a.n(1);
        if (o == "set") { if (i < 0 || i >= n) return false; *at(i) = j; return true; }
        if (o == "swap" || o == "min" || o == "max" || o == "minc")
        {
            if (i < 0 || j < 0 || i >= n || j >= n) return false;
            if (o == "swap") { if (i == j && std::is_same<C, PtrC<M>>::value) return false; estd::iter_swap(at(i), at(j)); return true; }
            auto& x = *at(i); auto& y = *at(j);
            typedef typename std::decay<decltype(x)>::type T;
            if (o == "minc") { const T& z = estd::min(x, y, cmp(a[2].s)); r = &z == &x ? 0 : 1; }
            else if (o == "min") { const T& z = estd::min(x, y); r = &z == &x ? 0 : 1; }
            else { const T& z = estd::max(x, y); r = &z == &x ? 0 : 1; }
            // the same element twice: the reference cannot tell
            if (i == j) r = 0;
            return true;
        }
        bool byn = o == "filln" || o == "copyn";
        int e = byn ? i + j : j, len = e - i;
        if (i < 0 || e < i || e > n) return false;
        if (o == "fill") { auto v = typename std::decay<decltype(*at(0))>::type(a.n(2)); estd::fill(at(i), at(j), v); }
        else if (o == "filln") { auto v = typename std::decay<decltype(*at(0))>::type(a.n(2)); r = pos(estd::fill_n(at(i), j, v)); }
        else if (o == "copy" || o == "copyn")
        {
            int d = a.n(2); if (d < 0 || d + len > n || (d > i && d < e)) return false;
            r = pos(byn ? estd::copy_n(at(i), j, at(d)) : estd::copy(at(i), at(j), at(d)));
        }
        else if (o == "copyb" || o == "moveb")
        {
            int d = a.n(2); if (d > n || d - len < 0 || (d > i && d < e)) return false;
            if (o == "moveb" && len && d == e) return false;
            bool cb = o == "copyb";
            return bid<BID>([&](auto x, auto y, auto z) { r = pos(cb ? estd::copy_backward(x, y, z) : estd::move_backward(x, y, z)); }, at(i), at(j), at(d));
        }
        else if (o == "rev") return bid<BID>([&](auto x, auto y) { estd::reverse(x, y); }, at(i), at(j));
        else if (o == "find") r = pos(estd::find_if(at(i), at(j), Is{a.n(2)}));
        else if (o == "minel") r = pos(estd::min_element(at(i), at(j), cmp(a[2].s)));
        else if (o == "maxel") r = pos(estd::max_element(at(i), at(j), cmp(a[2].s)));
        else if (o == "acc") { if (a[3].s == "sum") r = estd::accumulate(at(i), at(j), a.n(2)); else r = estd::accumulate(at(i), at(j), a.n(2), [](int x, int y) { return 2 * x + y; }); }
        else
        {
            // the second range is an exact allocation of its own
            const J& t = a[2]; int m = (int)t.a.size();
            std::unique_ptr<int[]> b(new int[m]); for (int k = 0; k < m; k++) b[k] = t[k].i;
            const int* p = b.get();
            if (o == "equal") { if (m != len) return false; r = (bool)estd::equal(at(i), at(j), p); }
            else if (o == "mis") { if (m != len) return false; auto z = estd::mismatch(at(i), at(j), p); r = J::arr().add(pos(z.first)).add((int)(z.second - p)); }
            else if (o == "search") r = pos(estd::search(at(i), at(j), p, p + m, prd(a[3].s)));
            else if (o == "ffo") { Prd q = prd(a[3].s); r = pos(estd::find_first_of(at(i), at(j), p, p + m, q)); if (q.k == 0 && pos(estd::find_first_of(at(i), at(j), p, p + m)) != r.i) r = "default predicate differs"; }
            else return false;
        }
        return true;
    }
    J obs() override { J v = J::arr(); for (auto& x : c) v.add((int)x); return J::obj().set("s", v); }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s; int n = c.n(1);
    if (k == "ptr") return new A<PtrC<int>, true>(n);
    if (k == "mv") return new A<PtrC<M>, true>(n);
    if (k == "vec") return new A<VecC, true>(n);
    if (k == "bid") return new A<BidC, true>(n);
    if (k == "fwd") return new A<FwdC, false>(n);
    if (k == "arr") switch (n) { case 2: return new A<ArrC<2>, true>(n); case 3: return new A<ArrC<3>, true>(n); case 4: return new A<ArrC<4>, true>(n); case 5: return new A<ArrC<5>, true>(n); case 12: return new A<ArrC<12>, true>(n); case 260: return new A<ArrC<260>, true>(n); }
    return nullptr;
}
J end_report() { return 0; }
