// conformance driver: locks and semaphores of port/freertos over a stand-in for the kernel
#include "common.h"
#include "rtos/kernel.h"
#include <estd/chrono.h>   // first: otherwise unique_lock has no timed forms
#include <estd/mutex.h>
#include <estd/semaphore.h>
#include <estd/thread.h>

namespace {
namespace fr = estd::freertos;
namespace ch = estd::chrono;
typedef ch::freertos_clock Clock;
typedef ch::duration<int, estd::ratio<1, configTICK_RATE_HZ>> ticks;
static_assert(!std::is_copy_constructible<fr::mutex<false>>::value && !std::is_copy_constructible<fr::timed_mutex<true>>::value && !std::is_copy_constructible<fr::recursive_mutex<true>>::value, "");
static_assert(!std::is_copy_constructible<fr::counting_semaphore<2, false>>::value && !std::is_copy_constructible<fr::binary_semaphore<true>>::value, "");
static_assert(!std::is_copy_assignable<fr::mutex<true>>::value && !std::is_copy_assignable<fr::counting_semaphore<2, true>>::value, "");
static_assert(std::is_same<estd::mutex, fr::mutex<false>>::value && std::is_same<estd::timed_mutex, fr::timed_mutex<false>>::value && std::is_same<estd::recursive_mutex, fr::recursive_mutex<false>>::value, "");
static_assert(std::is_same<estd::counting_semaphore<2>, fr::counting_semaphore<2, false>>::value, "");

template <class T, class = void> struct is_sem : std::false_type {};
template <class T> struct is_sem<T, std::void_t<decltype(std::declval<T&>().acquire())>> : std::true_type {};
template <class T, class = void> struct is_timed : std::false_type {};
template <class T> struct is_timed<T, std::void_t<decltype(std::declval<T&>().try_lock_for(ticks(1)))>> : std::true_type {};

struct Any { virtual ~Any() {} virtual bool op(const std::string& o, const J& a, J& r) = 0; virtual void* handle() = 0; };
struct schedule { ~schedule() { other_in = -1; } };

template <class T, bool rec> struct L : Any
{
    T x; rtos::KObj* k; SemaphoreHandle_t h;
    template <class... A> L(A... a) : x(a...) { h = x.native_handle(); k = &rtos::live[h]; }
    void* handle() override { return x.native_handle(); }
    template <class D> bool timed(bool until, D d)
    {
        if constexpr (is_sem<T>::value) return until ? x.try_acquire_until(Clock::now() + d) : x.try_acquire_for(d);
        else if constexpr (is_timed<T>::value) return until ? x.try_lock_until(Clock::now() + d) : x.try_lock_for(d);
        else return false;
    }
    // a point in time of the clock itself, which counts in unsigned ticks
    bool past(uint32_t n)
    {
        Clock::time_point t(Clock::duration(rtos::now - n));
        if constexpr (is_sem<T>::value) return x.try_acquire_until(t);
        else if constexpr (is_timed<T>::value) return x.try_lock_until(t);
        else return false;
    }
    // a point in time, counted in its own unit since the start of the clock
    template <class D> bool until(D d)
    {
        typedef ch::time_point<Clock, ch::duration<int64_t, typename D::period>> TP;
        TP t(ch::duration_cast<typename TP::duration>(ch::duration<int64_t, std::ratio<1, 1000>>((int64_t)rtos::now * 10)) + d);
        if constexpr (is_sem<T>::value) return x.try_acquire_until(t);
        else if constexpr (is_timed<T>::value) return x.try_lock_until(t);
        else return false;
    }
    bool op(const std::string& o, const J& a, J& r) override
    {
        schedule s;
        bool mine = k->kind != SEM;
        auto other = [this, mine] { if (mine) { k->holder = 0; k->depth = 0; } k->count++; };
        int d = o == "take" ? a.n(3) : o == "scoped" ? a.n(2) : -1;
        if (d >= 0) { other_in = d; other_act = other; }
        uint32_t from = rtos::now;
        auto res = [&](bool ok) { r = J::arr(); r.add(ok).add((int)(rtos::now - from)); };
        if (o == "take")
        {
            const std::string& f = a[0].s; const std::string& u = a[1].s; int n = a.n(2);
            if (f == "wait") { if constexpr (is_sem<T>::value) x.acquire(); else x.lock(); res(true); }
            else if (f == "try") { if constexpr (is_sem<T>::value) res(x.try_acquire()); else res(x.try_lock()); }
            else if (f == "for") res(u == "tick" ? timed(false, ticks(n)) : u == "ms" ? timed(false, ch::milliseconds(n)) : timed(false, ch::seconds(n)));
            else
            {
                if (u == "tick") { if (n < 0 && n % 2) { rtos::now += 300; from = rtos::now; } res(n >= 0 ? timed(true, Clock::duration(n)) : n % 2 ? past(-n) : until(ticks(n))); }
                else if (u == "ms") res(until(ch::milliseconds(n)));
                else { rtos::now -= rtos::now % 100; from = rtos::now; res(until(ch::seconds(n))); }
            }
            return true;
        }
        if (o == "give")
        {
            if constexpr (is_sem<T>::value) { x.release(); r = true; } else r = (bool)x.unlock();
            return true;
        }
        if (o == "take_isr" || o == "give_isr")
        {
            BaseType_t w = pdFALSE; BaseType_t* pw = a[0].i ? &w : nullptr; bool ok;
            rtos::isr = true;
            ok = o == "take_isr" ? x.native_handle().take_from_isr(pw) : x.native_handle().give_from_isr(pw);
            rtos::isr = false;
            r = J::arr(); r.add(ok).add(w == pdTRUE);
            return true;
        }
        if (o == "other_take") { k->count--; if (mine) k->holder = 2; return true; }
        if (o == "other_give") { other(); return true; }
        if constexpr (!is_sem<T>::value)
        if (o == "scoped")
        {
            const std::string& f = a[0].s;
            auto held = [&](bool owns) { if (owns && mine ? k->holder != 1 : owns && k->count) rtos::errs++; };
            int before = k->depth;
            if (f == "guard") { estd::lock_guard<T> g(x); held(true); res(true); }
            else if (f == "unique") { estd::unique_lock<T> g(x); held(g.owns_lock()); res(g.owns_lock()); }
            else if (f == "try") { estd::unique_lock<T> g(x, estd::try_to_lock_t()); held(g.owns_lock()); res(g.owns_lock()); }
            else { if constexpr (is_timed<T>::value) { estd::unique_lock<T> g(x, ticks(a.n(1))); held(g.owns_lock()); res(g.owns_lock()); } }
            if (k->depth != before) rtos::errs++;
            return true;
        }
        if (o == "count") { r = (int)x.native_handle().count(); return true; }
        if (o == "holder") { r = (int)(intptr_t)x.native_handle().mutex_holder(); return true; }
        if constexpr (is_sem<T>::value) if (o == "max") { r = (int)T::max(); return true; }
        return false;
    }
};
struct X : ::Obj
{
    Any* p; rtos::KObj* k = nullptr;
    X(const J& c)
    {
        rtos::now = 100000; rtos::errs = 0;
        const std::string& kind = c[0].s; bool st = c[1].s == "static"; int n = c.n(2);
#define K2(NAME, TYPE, REC, ...) if (kind == NAME) p = st ? (Any*)new L<TYPE<true>, REC>(__VA_ARGS__) : (Any*)new L<TYPE<false>, REC>(__VA_ARGS__);
        K2("mutex", fr::mutex, false) K2("bmutex", fr::mutex, false, true) K2("tmutex", fr::timed_mutex, false) K2("btmutex", fr::timed_mutex, false, true)
        K2("rec", fr::recursive_mutex, true) K2("bin", fr::binary_semaphore, false)
        if (kind == "sem") p = st ? (Any*)(n ? new L<fr::counting_semaphore<2, true>, false>((unsigned)n) : new L<fr::counting_semaphore<2, true>, false>()) : (Any*)(n ? new L<fr::counting_semaphore<2, false>, false>((unsigned)n) : new L<fr::counting_semaphore<2, false>, false>());
        auto i = rtos::live.find(p->handle());
        k = i == rtos::live.end() ? nullptr : &i->second;
        // kept where it was asked for: in the lock itself, or not at all
        if (!k || (k->mem != nullptr) != st) rtos::errs++;
        static const std::map<std::string, Kind> kinds{{"mutex", MUTEX}, {"tmutex", MUTEX}, {"rec", REC}};
        auto w = kinds.find(kind);
        if (k && k->kind != (w == kinds.end() ? SEM : w->second)) rtos::errs++;
    }
    ~X() { delete p; }
    bool op(const std::string& o, const J& a, J& r) override { return p->op(o, a, r); }
    J obs() override { return J::obj().set("cnt", (int)k->count).set("own", k->holder).set("depth", k->depth).set("live", (int)rtos::live.size()).set("errs", rtos::errs); }
};
}
::Obj* make(const J& c) { return new X(c); }
J end_report() { J j = J::arr(); j.add((int)rtos::live.size()).add(rtos::errs); rtos::live.clear(); return j; }
