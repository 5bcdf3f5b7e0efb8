#include "common.h"
#include <estd/functional.h>

namespace {
int live = 0, errs = 0, mod = 8;
typedef int Sig(Tr, int&, int);
// the callable
struct Fn
{
    int b, acc; uint32_t m; const void* self;
#ifdef PAD
    unsigned char pad[PAD] = {};
#endif
    void chk() const { if (m != 0xA5A5u || self != this) errs++; }
    Fn(int b_) : b(b_), acc(0), m(0xA5A5u), self(this) { live++; }
    Fn(const Fn& o) : b(o.b), acc(o.acc), m(0xA5A5u), self(this) { o.chk(); live++; }
    Fn(Fn&& o) : b(o.b), acc(o.acc), m(0xA5A5u), self(this) { o.chk(); o.b = -9; o.acc = 5; live++; }
    Fn& operator=(const Fn&) = delete;
    ~Fn() { chk(); m = 0xDEAD; live--; }
    int operator()(Tr x, int& out, int y) { chk(); if (x.m != Tr::M) errs++; acc = (acc + x.v + 2 * y) % mod; out = acc; return b * mod + acc; }
};
// an object with a method
struct Ob
{
    int b, acc;
    int run(Tr x, int& out, int y) { if (x.m != Tr::M) errs++; acc = (acc + x.v + 2 * y) % mod; out = acc; return b * mod + acc; }
    static int srun(Tr x, int& out, int y, Ob* me, int tag) { if (tag != 31) errs++; return me->run(x, out, y); }
};

namespace di = estd::detail::impl;
// Owner policies: D is the reference type, O the owner.  Sharing owners refer to
// an Ob; a copy of such an owner gets its own Ob only in the specification's eyes,
// so the driver gives each owner slot its own Ob and copies it along.
template <template <class> class I> using DF = estd::detail::v2::function<Sig, I>;

struct Exp
{
    typedef DF<di::function_default> D; typedef estd::experimental::function<Sig> O;
    static const bool obj = false;
    static void make(void* p, int b, Ob*) { new (p) O(Fn(b)); }
    static D ref(O& o) { return D(o); }
    static bool null(O& o) { if ((bool)o == (((DF<di::function_default>&)o).getm() == nullptr)) errs++; return !o; }
};
struct ExpN
{
    typedef DF<di::function_default> D; typedef estd::experimental::function<Sig, false> O;
    static const bool obj = false;
    static void make(void* p, int b, Ob*) { new (p) O(Fn(b)); }
    static D ref(O& o) { return D(o); }
    static bool null(O& o) { if (!(bool)o) errs++; return ((DF<di::function_default>&)o).getm() == nullptr; }
};
struct Inl
{
    typedef DF<di::function_default> D; typedef estd::experimental::inline_function<Fn, Sig> O;
    static const bool obj = false;
    static void make(void* p, int b, Ob*) { new (p) O(Fn(b)); }
    static D ref(O& o) { return D(o); }
    static bool null(O& o) { return !o; }
};
template <template <class> class I> struct Mod
{
    typedef DF<I> D; typedef typename D::template model<Fn> O;
    static const bool obj = false;
    static void make(void* p, int b, Ob*) { new (p) O(Fn(b)); }
    static D ref(O& o) { return D(&o); }
    static bool null(O&) { return false; }
};
template <template <class> class I> struct Thf
{
    typedef DF<I> D; typedef estd::internal::thisify_function<Sig, I> O;
    static const bool obj = true;
    static void make(void* p, int, Ob* ob) { new (p) O(typename O::template model<Ob, &Ob::run>(ob)); }
    static D ref(O& o) { return D(o); }
    static bool null(O& o) { return !o; }
};
template <template <class> class I> struct Mm
{
    typedef DF<I> D; typedef typename I<Sig>::template method_model<Ob, &Ob::run> O;
    static const bool obj = true;
    static void make(void* p, int, Ob* ob) { new (p) O(ob); }
    static D ref(O& o) { return D(&o); }
    static bool null(O&) { return false; }
};
struct Cf
{
    typedef DF<di::function_fnptr1> D; typedef estd::experimental::context_function<decltype(&Ob::run), &Ob::run> O;
    static const bool obj = true;
    static void make(void* p, int, Ob* ob) { new (p) O(ob); }
    static D ref(O& o) { return D(o); }
    static bool null(O& o) { return !o; }
};
struct Ctx
{
    typedef estd::detail::function<Sig, di::function_fnptr1<Sig>> D;
    typedef estd::internal::contextify_function<Sig, int>::model<Ob*, &Ob::srun> O;
    static const bool obj = true;
    static void make(void* p, int, Ob* ob) { new (p) O(std::move(ob), 31); }
    static D ref(O& o) { return D(&o); }
    static bool null(O&) { return false; }
};

enum { C_EXP = 1, C_COPY = 2, C_OPT = 4 };
template <class P, int caps> struct FO : Obj
{
    typedef typename P::O O; typedef typename P::D D;
    struct Slot { alignas(O) unsigned char b[sizeof(O)]; bool on; Ob ob; } s[3];
    D* d[3]; int to[3];
    O& at(int i) { return *(O*)s[i].b; }
    FO() { errs = live = 0; for (int i = 0; i < 3; i++) { s[i].on = false; memset(s[i].b, 0xEE, sizeof(O)); d[i] = new D; to[i] = 0; } }
    ~FO() { for (int i = 1; i < 3; i++) { drop(i); delete d[i]; } delete d[0]; }
    void unref(int i) { for (int j = 1; j < 3; j++) if (to[j] == i) { setnull(j); } }
    void setnull(int j) { delete d[j]; d[j] = new D(nullptr); to[j] = 0; }
    void drop(int i) { if (!s[i].on) return; if (!(caps & C_OPT)) at(i).~O(); else live -= livein(i); memset(s[i].b, 0xEE, sizeof(O)); s[i].on = false; }
    int livein(int) { return 1; }       // a single-shot model never called: its callable is simply forgotten
    void retarget(int i, int j) { for (int k = 1; k < 3; k++) if (to[k] == j) to[k] = i; }
    template <int c> using Cap = std::integral_constant<bool, (caps & c) != 0>;

    bool expop(const std::string&, const J&, std::false_type) { return false; }
    bool expop(const std::string& n, const J& a, std::true_type)
    {
        int i = a.n(0), j = a.n(1);
        if (n == "make_lv") { if (s[i].on) return false; Fn f(j); new (s[i].b) O(f); s[i].on = true; if (f.b != j || f.acc) errs++; return true; }
        if (n == "move") { if (s[i].on || !s[j].on) return false; unref(i); new (s[i].b) O(std::move(at(j))); s[i].on = true; retarget(i, j); return true; }
        if (n == "assign_f") { if (!s[i].on) return false; unref(i); at(i) = Fn(j); return true; }
        if (n == "assign_flv") { if (!s[i].on) return false; unref(i); Fn f(j); at(i) = f; if (f.b != j || f.acc) errs++; return true; }
        if (n == "assign_move") { if (i == j || !s[i].on || !s[j].on) return false; unref(i); at(i) = std::move(at(j)); retarget(i, j); return true; }
        return false;
    }
    bool copyop(int, int, std::false_type) { return false; }
    bool copyop(int i, int j, std::true_type)
    {
        if (s[i].on || !s[j].on) return false;
        new (s[i].b) O((const O&)at(j)); s[i].on = true;
        return true;
    }
    bool op(const std::string& n, const J& a, J& r) override
    {
        r = 0;
        int i = a.n(0), j = a.size() > 1 ? a.n(1) : 0;
        if (n == "make") { if (s[i].on) return false; s[i].ob = Ob{j, 0}; P::make(s[i].b, j, &s[i].ob); s[i].on = true; return true; }
        if (n == "drop") { if (!s[i].on) return false; unref(i); drop(i); return true; }
        if (n == "copy") return !P::obj ? copyop(i, j, Cap<C_COPY>()) : copyobj(i, j, Cap<C_COPY>());
        if (n == "call" || n == "calld")
        {
            int out = -1; int ret;
            int own = n == "call" ? i : to[i];
            if (own == 0 || !s[own].on || P::null(at(own))) return false;
            if (n == "call") { if (caps & C_OPT) { D t(P::ref(at(i))); ret = t(Tr(j), out, a.n(2)); } else ret = callo(i, j, out, a.n(2), Cap<C_OPT>()); }
            else ret = (*d[i])(Tr(j), out, a.n(2));
            if (caps & C_OPT) { unref(own); memset(s[own].b, 0xEE, sizeof(O)); s[own].on = false; }
            r = J::arr(); r.add(ret).add(out); return true;
        }
        if (n == "dset") { if (!s[j].on || P::null(at(j))) return false; delete d[i]; d[i] = new D(P::ref(at(j))); to[i] = j; return true; }
        if (n == "dassign") { if (!s[j].on || P::null(at(j))) return false; *d[i] = P::ref(at(j)); to[i] = j; return true; }
        if (n == "dcopy") { if (i == j) *d[i] = (const D&)*d[j]; else { delete d[i]; d[i] = new D((const D&)*d[j]); } to[i] = to[j]; return true; }
        if (n == "dnull") { setnull(i); return true; }
        return expop(n, a, Cap<C_EXP>());
    }
    int callo(int i, int x, int& out, int y, std::false_type) { return at(i)(Tr(x), out, int(y)); }
    int callo(int, int, int&, int, std::true_type) { return -1; }
    // a copied method owner still targets the same object: check that by calling it, then give the slot its own
    bool copyobj(int, int, std::false_type) { return false; }
    bool copyobj(int i, int j, std::true_type)
    {
        if (s[i].on || !s[j].on) return false;
        alignas(O) unsigned char src[sizeof(O)]; Ob tmp{s[j].ob.b, s[j].ob.acc};
        P::make(src, tmp.b, &tmp);
        O* copy = new O(*(const O*)src);
        ((O*)src)->~O(); memset(src, 0xEE, sizeof(src));
        int out = 0; (*copy)(Tr(1), out, 0);
        if (out != (s[j].ob.acc + 1) % mod || tmp.acc != out) errs++;
        delete copy;
        s[i].ob = s[j].ob; P::make(s[i].b, 0, &s[i].ob); s[i].on = true;
        return true;
    }
    J obs() override
    {
        J dd = J::arr(), on = J::arr();
        for (int k = 1; k < 3; k++) { dd.add((bool)*d[k]); on.add(!s[k].on ? 0 : P::null(at(k)) ? 1 : 2); }
        if (Tr::live || Tr::errs) errs++;
        J o = J::obj(); o.set("d", dd).set("on", on).set("live", live).set("err", errs); return o;
    }
};
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s; mod = c.n(1);
    if (k == "exp") return new FO<Exp, C_EXP>;
    if (k == "expn") return new FO<ExpN, C_EXP>;
    if (k == "inl") return new FO<Inl, C_COPY>;
    if (k == "m1") return new FO<Mod<di::function_fnptr1>, C_COPY>;
    if (k == "m2") return new FO<Mod<di::function_fnptr2>, C_COPY>;
    if (k == "mv") return new FO<Mod<di::function_virtual>, 0>;
    if (k == "tf1") return new FO<Thf<di::function_fnptr1>, C_COPY>;
    if (k == "mm1") return new FO<Mm<di::function_fnptr1>, C_COPY>;
    if (k == "mm2") return new FO<Mm<di::function_fnptr2>, C_COPY>;
    if (k == "mmv") return new FO<Mm<di::function_virtual>, 0>;
    if (k == "cf") return new FO<Cf, C_COPY>;
    if (k == "ctx") return new FO<Ctx, 0>;
    if (k == "opt2") return new FO<Mod<di::function_fnptr2_opt>, C_OPT>;
    return nullptr;
}
J end_report() { J j = J::arr(); j.add(live).add(Tr::live).add(errs); return j; }
