// conformance driver: invoke, invoke_result, reference_wrapper, function_traits
#include "common.h"
#include <cassert>
#include <estd/tuple.h>
#include <estd/functional.h>
#include <estd/internal/functional/function_traits.h>

namespace {
int errs = 0, copies = 0, moves = 0;
const int M = 3, THROWS = 9;
struct Tr
{
    int n;
    explicit Tr(int n) : n(n) {}
    Tr(const Tr& o) noexcept : n(o.n) { copies++; }
    Tr(Tr&& o) noexcept : n(o.n) { moves++; o.n = -7; }
};
std::string tag;
struct A
{
    int v = 0;
    int step(const Tr& t, int& out) { if (t.n == THROWS) throw int(t.n); out = v; return v = (v + t.n) % M; }
    int look(const Tr& t, int& out) const { if (t.n == THROWS) throw int(t.n); out = v; return (v + t.n) % M; }
    int add(Tr t, int& out) { return step(t, out); }
    int peek(Tr t, int& out) const { return look(t, out); }
    int lq(Tr t, int& out) & { return step(t, out); }
    int rq(Tr t, int& out) && { return step(t, out); }
    int nx(Tr t, int& out) noexcept { return step(t, out); }
    virtual int vir(Tr t, int& out) { int r = step(t, out); tag = "A"; return r; }
    int& ref(Tr t, int& out) { step(t, out); return v; }
    int&& xval(Tr t, int& out) { step(t, out); return static_cast<int&&>(v); }
    void nothing(Tr t, int& out) { step(t, out); }
    virtual ~A() {}
    // a class may have a * of its own: the object is still the object
    const A& operator*() const { errs++; static A other; return other; }
};
struct B : A { int before = 5; int vir(Tr t, int& out) override { int r = A::step(t, out); tag = "B"; return r; } };
struct D { int pad; const int cv; };
const void* given = nullptr;
int& fref(A& a, Tr t, int& out) { a.step(t, out); return a.v; }
struct Fxv { int&& operator()(A& a, Tr t, int& out) const { a.step(t, out); return static_cast<int&&>(a.v); } };
int fun(A& a, Tr t, int& out) { return a.step(t, out); }
// every overload says which it is
struct G
{
#define OV(Q, N) \
    int operator()(A& a, Tr t, int& out) Q { tag = N "l"; return a.look(t, out); } \
    int operator()(const A& a, Tr t, int& out) Q { tag = N "cl"; return a.look(t, out); } \
    int operator()(A&& a, Tr t, int& out) Q { tag = N "r"; return a.look(t, out); } \
    int operator()(const A&& a, Tr t, int& out) Q { tag = N "cr"; return a.look(t, out); }
    OV(&, "ov") OV(const&, "cov") OV(&&, "rov")
#undef OV
};
// pointer-like: what it points to is an rvalue when it is one itself
template <class T> struct SP
{
    T* p;
    T& operator*() & { return *p; }
    T&& operator*() && { return static_cast<T&&>(*p); }
};
template <class F, class = void, class... Args> struct can : std::false_type {};
template <class F, class... Args> struct can<F, std::void_t<estd::invoke_result_t<F, Args...>>, Args...> : std::true_type {};

template <class T> const char* cat()
{
    typedef std::remove_reference_t<T> U;
    if (std::is_void<T>::value) return "void";
    if (!std::is_same<std::remove_cv_t<U>, int>::value) return "?";
    if (std::is_lvalue_reference<T>::value) return std::is_const<U>::value ? "cl" : "l";
    if (std::is_rvalue_reference<T>::value) return std::is_const<U>::value ? "cr" : "r";
    return "val";
}
J result(const char* ty, int val, int out)
{
    J j = J::arr();
    j.add(ty).add(val).add(tag).add(out).add(copies).add(moves);
    return j;
}
template <class F, class T, class TA> J go(F&& f, T&& t, TA&& a, bool canthrow)
{
    typedef can<F, void, T, TA, int&> C;
    tag = ""; copies = moves = 0; given = nullptr;
    if constexpr (!C::value) return J("no");
    else
    {
        typedef estd::invoke_result_t<F, T, TA, int&> R;
        // promises not to throw only what does not
        if (canthrow && noexcept(estd::invoke(std::forward<F>(f), std::forward<T>(t), std::forward<TA>(a), std::declval<int&>()))) errs++;
        if (!std::is_same<R, decltype(estd::invoke(std::forward<F>(f), std::forward<T>(t), std::forward<TA>(a), std::declval<int&>()))>::value) errs++;
        int out = -1, val = -1;
        try
        {
            if constexpr (std::is_void<R>::value) estd::invoke(std::forward<F>(f), std::forward<T>(t), std::forward<TA>(a), out);
            else
            {
                R r = estd::invoke(std::forward<F>(f), std::forward<T>(t), std::forward<TA>(a), out); val = r;
                if (std::is_reference<R>::value) given = &r;
            }
        }
        catch (int n) { J j = J::arr(); j.add("threw").add(n); return j; }
        return result(cat<R>(), val, out);
    }
}
template <class F, class T> J godata(F f, T&& t, const A* where)
{
    tag = ""; copies = moves = 0;
    static_assert(can<F, void, T>::value, "a data member is read through anything");
    static_assert(!can<F, void, T, int>::value, "without arguments");
    typedef estd::invoke_result_t<F, T> R;
    R r = estd::invoke(f, std::forward<T>(t));
    // the very member, not a copy of it
    if (std::is_reference<R>::value && (const void*)&r != (const void*)&where->v) errs++;
    return result(cat<R>(), r, -1);
}
typedef estd::reference_wrapper<A> W;
typedef estd::reference_wrapper<const A> CW;
static_assert(!std::is_constructible<W, A&&>::value && !std::is_constructible<W, const A&>::value && !std::is_default_constructible<W>::value && !std::is_constructible<CW, A&&>::value && !std::is_constructible<CW, const A&&>::value, "never bound to a temporary, nor to what is const");
static_assert(std::is_same<W::type, A>::value, "");

template <class T> struct Nm;
template <> struct Nm<void> { static const char* n() { return "void"; } };
template <> struct Nm<int> { static const char* n() { return "int"; } };
template <> struct Nm<double> { static const char* n() { return "double"; } };
template <> struct Nm<int&> { static const char* n() { return "rint"; } };
template <> struct Nm<const A*> { static const char* n() { return "cpA"; } };
template <class FT, size_t... I> void argn(J& j, std::index_sequence<I...>) { (j.add(Nm<typename FT::template arg<I>>::n()), ...); }
template <class T> struct ident { typedef T type; };
template <class FT, class R, class... Args> J sig1(bool cls, bool same)
{
    J o = J::arr(), ar = J::arr();
    argn<FT>(ar, std::make_index_sequence<FT::nargs>());
    if (!std::is_same<typename FT::tuple, estd::tuple<Args...>>::value) errs++;
    o.add((int)FT::nargs).add(Nm<typename FT::return_type>::n()).add(ar).add((bool)FT::is_method).add((bool)FT::is_function).add(cls).add(same);
    return o;
}
template <class R, class... Args> struct Fn { R operator()(Args...) const; };
template <class R, class... Args> J sig(const std::string& form)
{
    typedef R Fun(Args...);
    if (form == "fun") { typedef estd::function_traits<Fun> FT; return sig1<FT, R, Args...>(true, std::is_same<typename FT::function_type, Fun>::value); }
    if (form == "fref") { typedef estd::function_traits<Fun&> FT; return sig1<FT, R, Args...>(true, std::is_same<typename FT::function_type, Fun>::value); }
    if (form == "method") { typedef R (A::*Q)(Args...); typedef estd::function_traits<Q> FT; return sig1<FT, R, Args...>(std::is_same<typename FT::class_type, A>::value, std::is_same<typename FT::function_type, Q>::value); }
    if (form == "cmethod") { typedef R (B::*Q)(Args...) const; typedef estd::function_traits<Q> FT; return sig1<FT, R, Args...>(std::is_same<typename FT::class_type, B>::value, std::is_same<typename FT::function_type, Q>::value); }
    if (form == "functor") { typedef Fn<R, Args...> C; typedef R (C::*Q)(Args...) const; typedef estd::function_traits<C> FT; return sig1<FT, R, Args...>(std::is_same<typename FT::class_type, C>::value, std::is_same<typename FT::function_type, Q>::value); }
    typedef estd::function_traits<estd::detail::function<Fun>> FT;
    return sig1<FT, R, Args...>(true, std::is_same<typename FT::function_type, Fun>::value);
}
template <class R, class... Args> J sigs(const std::string& form, const J& a, size_t at)
{
    if (at == a.size()) return sig<R, Args...>(form);
    if constexpr (sizeof...(Args) < 3)
    {
        const std::string& s = a[at].s;
        if (s == "int") return sigs<R, Args..., int>(form, a, at + 1);
        if (s == "double") return sigs<R, Args..., double>(form, a, at + 1);
        if (s == "rint") return sigs<R, Args..., int&>(form, a, at + 1);
        if (s == "cpA") return sigs<R, Args..., const A*>(form, a, at + 1);
    }
    return J();
}
struct C : Obj
{
    A a; B b; W* w[2]; CW* cw;
    C() { b.v = 1; w[0] = new W(a); w[1] = new W(b); cw = new CW(a); errs = 0; }
    ~C() { delete w[0]; delete w[1]; delete cw; }
    A& at(int o) { return o == 1 ? a : b; }
    template <class T> int which(T& x) { return (const void*)&x == (const void*)(A*)&a ? 1 : (const void*)&x == (const void*)(A*)&b ? 2 : 0; }
    // f is applied to the object as it is to be given
    template <class T, class F> J with(T& x, const std::string& t, int o, F f)
    {
        const T& c = x; T* p = &x; const T* cp = &x;
        if (t == "l") return f(x);
        if (t == "cl") return f(c);
        if (t == "r") return f(std::move(x));
        if (t == "cr") return f(std::move(c));
        if (t == "p") return f(p);
        if (t == "cp") return f(cp);
        if (t == "rp") return f(std::move(p));
        SP<T> sp{p};
        if (t == "sp") return f(sp);
        if (t == "rsp") return f(std::move(sp));
        if (t == "w") return f(*w[o - 1]);
        if (t == "rw") return f(W(*w[o - 1]));
        if (t == "cww") return f(*cw);
        return J();
    }
    template <class F> J inv(F&& f, const J& a)
    {
        auto one = [&](auto&& t) -> J {
            Tr x(a.n(3));
            typedef decltype(t) T;
            bool ct = a[0].s != "nx";
            J j = a[4].s == "l" ? go(std::forward<F>(f), std::forward<T>(t), x, ct) : go(std::forward<F>(f), std::forward<T>(t), std::move(x), ct);
            if (a[4].s == "l" && x.n != a.n(3)) errs++;
            return j; };
        J j = a.n(2) == 1 ? with(this->a, a[1].s, 1, one) : with(b, a[1].s, 2, one);
        // a reference given back is to the very number of the object
        if (given && given != &denoted(a[1].s, a.n(2))->v) errs++;
        return j;
    }
    const A* denoted(const std::string& t, int o) { return t == "cww" ? &cw->get() : t == "w" || t == "rw" ? &w[o - 1]->get() : &at(o); }
    template <class F> J data(F f, const J& a)
    {
        int o = a.n(2); const std::string& t = a[1].s;
        const A* where = denoted(t, o);
        auto one = [&](auto&& t) -> J { return godata(f, std::forward<decltype(t)>(t), where); };
        return o == 1 ? with(this->a, t, 1, one) : with(b, t, 2, one);
    }
    bool op(const std::string& o, const J& a, J& r) override
    {
        if (o == "inv")
        {
            const std::string& c = a[0].s;
            A& me = this->a; (void)me;
            if (c == "add") r = inv(&A::add, a);
            else if (c == "peek") r = inv(&A::peek, a);
            else if (c == "lq") r = inv(&A::lq, a);
            else if (c == "rq") r = inv(&A::rq, a);
            else if (c == "nx") { if (a.n(3) == THROWS) return false; r = inv(&A::nx, a); }
            else if (c == "vir") r = inv(&A::vir, a);
            else if (c == "ref") r = inv(&A::ref, a);
            else if (c == "xval") r = inv(&A::xval, a);
            else if (c == "nothing") r = inv(&A::nothing, a);
            else if (c == "data") r = data(&A::v, a);
            else if (c == "cdata") r = data((const int A::*)&A::v, a);
            else if (c == "fun") r = inv(fun, a);
            else if (c == "fptr") { auto* f = &fun; r = inv(f, a); }
            else if (c == "fref") r = inv(fref, a);
            else if (c == "fxv") { const Fxv f{}; r = inv(f, a); }
            else if (c == "lam") { int calls = 0; auto f = [&calls](A& x, Tr t, int& out) mutable { calls++; return x.step(t, out); }; r = inv(f, a); if (r.t == J::A && calls != 1) errs++; }
            else { G g; const G& cg = g; if (c == "ov") r = inv(g, a); else if (c == "cov") r = inv(cg, a); else r = inv(std::move(g), a); }
            return true;
        }
        if (o == "through")
        {
            int n = a.n(2);
            auto one = [&](auto&& t) -> J {
                typedef decltype(t) T;
                if constexpr (std::is_const<std::remove_reference_t<estd::invoke_result_t<int A::*, T>>>::value) return J();
                else { auto&& x = estd::invoke(&A::v, std::forward<T>(t)); x = n; return J(); } };
            a.n(1) == 1 ? with(this->a, a[0].s, 1, one) : with(b, a[0].s, 2, one);
            return true;
        }
        if (o == "bind")
        {
            int k = a.n(0); const std::string& h = a[2].s; A& x = at(a.n(1)); const A& c = x;
            if (k == 3)
            {
                CW* n = h == "ctor" ? new CW(c) : h == "ref" ? new CW(estd::ref(c)) : new CW(estd::cref(x));
                delete cw; cw = n;
            }
            else { W* n = h == "ctor" ? (a.n(1) == 1 ? new W(this->a) : new W(b)) : new W(estd::ref(x)); delete w[k - 1]; w[k - 1] = n; }
            return true;
        }
        if (o == "assign")
        {
            if (a.n(0) == 3) *cw = (const CW&)*cw; else { W& x = (*w[a.n(0) - 1] = (const W&)*w[a.n(1) - 1]); if (&x != w[a.n(0) - 1]) errs++; }
            return true;
        }
        if (o == "copy")
        {
            if (a.n(0) == 3) { CW* n = new CW(*cw); delete cw; cw = n; }
            else { W* n = new W(*w[a.n(1) - 1]); delete w[a.n(0) - 1]; w[a.n(0) - 1] = n; }
            return true;
        }
        if (o == "asconst") { CW* n = new CW(w[a.n(0) - 1]->get()); delete cw; cw = n; return true; }
        if (o == "put_get") { const W& x = *w[a.n(0) - 1]; x.get().v = a.n(1); return true; }
        if (o == "put_conv") { A& x = *w[a.n(0) - 1]; x.v = a.n(1); return true; }
        if (o == "put_whole") { A x; x.v = a.n(1); w[a.n(0) - 1]->get() = x; return true; }
        if (o == "get") { r = a.n(0) == 3 ? cw->get().v : w[a.n(0) - 1]->get().v; return true; }
        if (o == "conv") { const A& x = a.n(0) == 3 ? (const A&)*cw : (const A&)*w[a.n(0) - 1]; r = x.v; return true; }
        if (o == "sig")
        {
            const std::string& f = a[0].s; const std::string& ret = a[1].s;
            r = ret == "void" ? sigs<void>(f, a[2], 0) : ret == "int" ? sigs<int>(f, a[2], 0) : sigs<int&>(f, a[2], 0);
            return true;
        }
        return false;
    }
    J obs() override
    {
        if (b.before != 5) errs++;
        J o = J::obj(), v = J::arr(), ws = J::arr();
        v.add(a.v).add(b.v); ws.add(which(w[0]->get())).add(which(w[1]->get())).add(which(cw->get()));
        o.set("v", v).set("w", ws).set("err", errs); return o;
    }
};
}
Obj* make(const J&) { return new C; }
J end_report() { J j = J::arr(); j.add(0).add(0); return j; }
