#include "common.h"
#include <estd/memory.h>
#include <estd/internal/linked_ref.h>

namespace {
int errs = 0, live = 0, disposed = 0;
struct T
{
    long v; uint32_t m;
    T(int x) : v(x), m(0xA5A5u) { live++; }
    T(const T&) = delete;
    ~T() { if (m != 0xA5A5u) errs++; m = 0xDEAD; live--; disposed++; }
};
struct Del { int tag; T** last; void operator()(T* p) const { if (tag != 77) errs++; if (last) *last = p; p->~T(); } };

typedef estd::layer3::shared_ptr<T> S;
template <class M, bool L1>
struct SO : Obj
{
    static const int NS = 8;
    int ns = 3;
    M* m; T* expect; alignas(T) unsigned char tb[sizeof(T)];
    bool mact;
    struct Slot { alignas(S) unsigned char b[sizeof(S)]; bool on; } s[NS + 1];
    S& at(int i) { return *(S*)s[i].b; }
    SO(M* m_, int n) : ns(n), m(m_) { for (auto& x : s) { x.on = false; memset(x.b, 0xEE, sizeof(x.b)); } }
    void fin() { for (int i = 1; i <= NS; i++) drop(i); delete m; m = nullptr; }
    ~SO() { fin(); }
    void drop(int i) { if (s[i].on) { at(i).~S(); memset(s[i].b, 0xEE, sizeof(S)); s[i].on = false; } }
    void build(std::true_type, int x) { m->construct(x); }
    void build(std::false_type, int) {}
    static int byval(S p) { return p.use_count(); }
    bool op(const std::string& n, const J& a, J& r) override
    {
        int d0 = disposed;
        int i = a.size() > 0 ? a.n(0) : 0, j = a.size() > 1 ? a.n(1) : 0;
        auto on = [&](int k) { return s[k].on; };
        auto done = [&]() { r = disposed - d0; return true; };
        if (n == "construct") { if (!L1 || live) return false; build(std::integral_constant<bool, L1>(), i); return done(); }
        if (n == "mreset") { m->reset(); return done(); }
        if (n == "new_m") { if (on(i)) return false; new (s[i].b) S(*m); s[i].on = true; return done(); }
        if (n == "new_s") { if (on(i) || !on(j)) return false; new (s[i].b) S(at(j)); s[i].on = true; return done(); }
        if (n == "mov_s") { if (on(i) || !on(j)) return false; new (s[i].b) S(std::move(at(j))); s[i].on = true; return done(); }
        if (n == "asg_m") { if (!on(i)) return false; at(i) = *m; return done(); }
        if (n == "asg_s") { if (!on(i) || !on(j)) return false; at(i) = at(j); return done(); }
        if (n == "sreset") { if (!on(i)) return false; at(i).reset(); return done(); }
        if (n == "drop") { if (!on(i)) return false; drop(i); return done(); }
        if (n == "swap") { if (!on(i) || !on(j)) return false; at(i).swap(at(j)); return done(); }
        if (n == "set_s") { if (!on(i) || !at(i).use_count()) return false; if (j % 2) (*at(i)).v = j; else at(i)->v = j; return done(); }
        if (n == "set_m") { if (!m->use_count()) return false; (*m)->v = i; return done(); }
        if (n == "byval_m") { r = byval(S(*m)); if (disposed != d0) errs++; return true; }
        if (n == "byval_s") { if (!on(i)) return false; r = byval(S(at(i))); if (disposed != d0) errs++; return true; }
        // many references at once, dropped in the order they were made
        if (n == "burst")
        {
            if (!on(i)) return false;
            std::vector<Slot> v(j);
            for (auto& x : v) new (x.b) S(at(i));
            r = (int)at(i).use_count();
            // and handed on, which changes no count
            std::vector<Slot> w(j);
            for (int k = 0; k < j; k++) { new (w[k].b) S(std::move(*(S*)v[k].b)); if (((S*)v[k].b)->use_count()) errs++; ((S*)v[k].b)->~S(); }
            if ((int)at(i).use_count() != (int)r.i) errs++;
            for (auto& x : w) { if (((S*)x.b)->use_count() != at(i).use_count() || (at(i).use_count() && ((S*)x.b)->get() != at(i).get())) errs++; ((S*)x.b)->~S(); }
            if (disposed != d0) errs++;
            return true;
        }
        if (n == "eq") { if (!on(i) || !on(j) || !at(i).use_count() || !at(j).use_count()) return false; r = estd::operator==(at(i), at(j)); return true; }
        return false;
    }
    J obs() override
    {
        J su = J::arr(); int v = -1;
        auto see = [&](T* p) { if (live != 1 || p->m != 0xA5A5u) { errs++; return; } if (v != -1 && v != (int)p->v) errs++; v = (int)p->v; };
        if (m->use_count()) see(m->get());
        for (int i = 1; i <= ns; i++)
        {
            int c = s[i].on ? (int)at(i).use_count() : 0;
            su.add(c);
            if (c) see(at(i).get());
        }
        J o = J::obj(); o.set("uc", (int)m->use_count()).set("su", su).set("v", v).set("live", live).set("err", errs); return o;
    }
};

// ---- linked_ref
std::vector<int> destructed;
struct LT { static bool null(int v) { return v == -1; } static void destruct(int v) { destructed.push_back(v); } };
typedef estd::internal::linked_ref<int, LT> L;
struct LO : Obj
{
    static const int NMAX = 12; int N = 4;
    struct Slot { alignas(L) unsigned char b[sizeof(L)]; bool on, moved; } s[NMAX + 1];
    L& at(int i) { return *(L*)s[i].b; }
    LO(int n) : N(n) { destructed.clear(); for (auto& x : s) x.on = x.moved = false; }
    void drop(int i) { if (s[i].on) { at(i).~L(); memset(s[i].b, 0xEE, sizeof(L)); s[i].on = false; } }
    ~LO() { destructed.clear(); for (int i = 1; i <= N; i++) drop(i); std::sort(destructed.begin(), destructed.end()); }
    bool op(const std::string& n, const J& a, J& r) override
    {
        destructed.clear();
        int i = a.n(0);
        auto fin = [&]() { r = J(destructed); return true; };
        if (n == "drop") { if (!s[i].on) return false; drop(i); return fin(); }
        if (s[i].on) return false;
        int j = a.n(1);
        if (n == "new") { for (int k = 1; k <= N; k++) if (s[k].on && !s[k].moved && val(k) == j) return false; new (s[i].b) L(j); owner[i] = j; }
        else
        {
            if (!s[j].on || s[j].moved) return false;
            if (n == "copy") new (s[i].b) L((const L&)at(j));
            else { new (s[i].b) L(std::move(at(j))); s[j].moved = true; }
            owner[i] = owner[j];
        }
        s[i].on = true; s[i].moved = false;
        return fin();
    }
    int owner[NMAX + 1];
    int val(int k) { return owner[k]; }
    J obs() override
    {
        J c = J::arr(), ring = J::arr(), un = J::arr();
        for (int i = 1; i <= N; i++)
        {
            bool lk = s[i].on && !s[i].moved;
            J mem = J::arr(); bool in[NMAX + 1] = {};
            if (lk) { L* p = &at(i); int guard = 0; do { for (int k = 1; k <= N; k++) if (p == &at(k)) in[k] = true; p = p->next(); } while (p && p != &at(i) && ++guard < 40); }
            for (int k = 1; k <= N; k++) mem.add(in[k]);
            ring.add(mem);
            c.add(lk ? at(i).count_shared() : 0);
            un.add(s[i].on && s[i].moved && at(i).next() == nullptr);
        }
        J o = J::obj(); o.set("c", c).set("ring", ring).set("un", un); return o;
    }
};
bool linked = false;
T* dl;
alignas(T) unsigned char tbuf[sizeof(T)];
}
Obj* make(const J& c)
{
    const std::string& k = c[0].s;
    errs = live = disposed = 0; linked = false;
    if (k == "lr") { linked = true; return new LO(c.n(1)); }
    if (k == "l1") return new SO<estd::layer1::shared_ptr<T>, true>(new estd::layer1::shared_ptr<T>, c.n(1));
    if (k == "l1d") return new SO<estd::layer1::shared_ptr<T, Del>, true>(new estd::layer1::shared_ptr<T, Del>(Del{77, &dl}), c.n(1));
    T* t = new (tbuf) T(0);
    if (k == "l2") return new SO<estd::layer2::shared_ptr<T>, false>(new estd::layer2::shared_ptr<T>(t), c.n(1));
    if (k == "l2d") return new SO<estd::layer2::shared_ptr<T, Del>, false>(new estd::layer2::shared_ptr<T, Del>(t, Del{77, &dl}), c.n(1));
    return nullptr;
}
J end_report() { if (linked) return J(destructed); J j = J::arr(); j.add(live).add(errs); return j; }
