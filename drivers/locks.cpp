// conformance driver: lock_guard, unique_lock
#include "common.h"
#include <cassert>
#ifdef TIMED
#include <estd/chrono.h>
#endif
#include <estd/mutex.h>

namespace {
int misuse = 0;
// one holder at a time; anything a mutex would block on or not survive is counted
struct M
{
    bool held = false;
    M() {}
    M(const M&) = delete;
    void lock() { if (held) misuse++; held = true; }
    void unlock() { if (!held) misuse++; held = false; }
    bool try_lock() { if (held) return false; return held = true; }
    template <class D> bool try_lock_for(const D&) { return try_lock(); }
};
template <class T> struct Slot
{
    alignas(16) unsigned char b[sizeof(T)]; T* p = nullptr;
    void kill() { p->~T(); p = nullptr; memset(b, 0xEE, sizeof b); }
};
typedef estd::unique_lock<M> U;
typedef estd::lock_guard<M> G;
static_assert(!std::is_copy_constructible<U>::value && !std::is_copy_assignable<U>::value && !std::is_copy_constructible<G>::value, "a lock is not copied");
#if defined(TIMED) && !defined(FEATURE_ESTD_CHRONO2)
#error timed locks expected
#endif
struct L : Obj
{
    M m;
    Slot<G> g; Slot<U> u[2];
    L() { misuse = 0; memset(u[0].b, 0xEE, sizeof u[0].b); memset(u[1].b, 0xEE, sizeof u[1].b); }
    static bool endheld;
    ~L() { if (g.p) g.kill(); for (auto& s : u) if (s.p) s.kill(); endheld = m.held; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        r = 0;
        if (o == "hand_lock" || o == "other_lock") { m.lock(); return true; }
        if (o == "hand_unlock" || o == "other_unlock") { m.unlock(); return true; }
        if (o == "g_make") { if (g.p) return false; g.p = new (g.b) G(m); return true; }
        if (o == "g_kill") { if (!g.p) return false; g.kill(); return true; }
        if (a.size() < 1) return false;
        auto& s = u[a.n(0) - 1];
        if (o == "make")
        {
            if (s.p) return false;
            const std::string& how = a[1].s;
            if (how == "none") s.p = new (s.b) U();
            else if (how == "lock") s.p = new (s.b) U(m);
            else if (how == "defer") s.p = new (s.b) U(m, estd::defer_lock_t());
            else if (how == "adopt") s.p = new (s.b) U(m, estd::adopt_lock_t());
            else if (how == "try") s.p = new (s.b) U(m, estd::try_to_lock_t());
#ifdef FEATURE_ESTD_CHRONO2
            else if (how == "timed") s.p = new (s.b) U(m, estd::chrono::milliseconds(1));
#else
            else if (how == "timed") { s.p = new (s.b) U(m, estd::try_to_lock_t()); }
#endif
            else return false;
            return true;
        }
        if (!s.p) return false;
        if (o == "kill") { s.kill(); return true; }
        if (o == "release") { M* p = s.p->release(); if (p && p != &m) misuse += 10; r = p != nullptr; return true; }
        if (s.p->mutex() == nullptr) return false;
        if (o == "lock") s.p->lock();
        else if (o == "unlock") s.p->unlock();
        else if (o == "try_lock") r = s.p->try_lock();
#ifdef FEATURE_ESTD_CHRONO2
        else if (o == "try_lock_for") r = s.p->try_lock_for(estd::chrono::milliseconds(1));
#else
        else if (o == "try_lock_for") r = s.p->try_lock();
#endif
        else return false;
        return true;
    }
    J obs() override
    {
        J us = J::arr();
        for (auto& s : u)
        {
            J k = J::arr(); k.add(s.p != nullptr).add(s.p && s.p->mutex() != nullptr).add(s.p && s.p->owns_lock());
            if (s.p && s.p->mutex() && s.p->mutex() != &m) misuse += 10;
            us.add(k);
        }
        J o = J::obj(); o.set("held", m.held).set("g", g.p != nullptr).set("u", us).set("misuse", misuse);
        return o;
    }
};
bool L::endheld = false;
}
J end_report() { J j = J::arr(); j.add((int)L::endheld).add(misuse); return j; }
Obj* make(const J&) { return new L; }
