// conformance driver: event groups, timers, tasks and waiting of port/freertos over a stand-in for the kernel
#include "common.h"
#include "rtos/kernel.h"
#include <estd/port/freertos/event_groups.h>
#include <estd/port/freertos/timer.h>
#include <estd/port/freertos/wrapper/task.h>
#include <estd/thread.h>

namespace {
namespace fr = estd::freertos;
namespace ch = estd::chrono;
typedef ch::freertos_clock Clock;
typedef Clock::duration dur_t;
typedef ch::duration<int, estd::ratio<1, configTICK_RATE_HZ>> ticks;
static_assert(!std::is_copy_constructible<fr::timer<false>>::value && !std::is_copy_constructible<fr::timer<true>>::value && !std::is_copy_constructible<fr::event_group<false>>::value && !std::is_copy_constructible<fr::event_group<true>>::value, "");
dur_t dur(const std::string& u, int n)
{
    if (u == "tick") return dur_t(n);
    if (u == "ms") return ch::milliseconds(n);
    if (u == "max") return fr::max_delay();
    return ch::seconds(n);
}
struct schedule { ~schedule() { other_in = -1; } };
rtos::KObj* only() { return rtos::live.size() == 1 ? &rtos::live.begin()->second : nullptr; }
struct Base : ::Obj { Base() { rtos::now = 100; rtos::errs = 0; } };
template <class G> struct Group : Base
{
    G g;
    Group() { if (!only() || (only()->mem != nullptr) != std::is_same<G, fr::event_group<true>>::value) rtos::errs++; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        schedule s; BaseType_t w = pdFALSE;
        if (o == "set") { r = (int)g.set_bits(a.n(0)); return true; }
        if (o == "clear") { r = (int)g.clear_bits(a.n(0)); return true; }
        if (o == "set_isr") { rtos::isr = true; bool ok = g.set_bits_from_isr(a.n(0), a[1].i ? &w : nullptr); rtos::isr = false; r = J::arr(); r.add(ok).add(w == pdTRUE); return true; }
        if (o == "clear_isr") { rtos::isr = true; bool ok = g.clear_bits_from_isr(a.n(0)); rtos::isr = false; r = ok; return true; }
        uint32_t from = rtos::now; rtos::KObj* k = only();
        int at = o == "await" ? 5 : 4;
        if (a.n(at) >= 0) { other_in = a.n(at); uint32_t ob = a.n(at + 1); other_act = [k, ob] { k->bits |= ob; }; }
        if (o == "await") { int b = g.wait_bits(a.n(0), a[1].i, a[2].i, dur(a[3].s, a.n(4))); r = J::arr(); r.add(b).add((int)(rtos::now - from)); return true; }
        if (o == "sync") { int b = g.sync(a.n(0), a.n(1), dur(a[2].s, a.n(3))); r = J::arr(); r.add(b).add((int)(rtos::now - from)); return true; }
        return false;
    }
    J obs() override { if (only() && (void*)(EventGroupHandle_t)g != rtos::live.begin()->first) rtos::errs++; return J::obj().set("bits", only() ? (int)only()->bits : -1).set("live", (int)rtos::live.size()).set("errs", rtos::errs); }
};
void cb(TimerHandle_t) {}
void pendee(void*, uint32_t) {}
int ids[3];
template <class T> struct Timer : Base
{
    T t;
    Timer() : t("T", ch::milliseconds(50), std::is_same<T, fr::timer<true>>::value, &ids[0], cb)
    {
        rtos::KObj* k = only();
        if (!k || k->cb != cb || k->reload != std::is_same<T, fr::timer<true>>::value || (k->mem != nullptr) != std::is_same<T, fr::timer<true>>::value) rtos::errs++;
    }
    bool op(const std::string& o, const J& a, J& r) override
    {
        timer_blocks.clear();
        auto blk = [&](bool ok) { r = J::arr(); uint32_t b = timer_blocks.size() == 1 ? timer_blocks[0] : 77777; r.add(ok).add(b == portMAX_DELAY ? 1000000000 : (int)b); };
        BaseType_t w = pdFALSE;
        if (o == "start") { blk(t.start(dur(a[0].s, a.n(1)))); return true; }
        if (o == "stop") { blk(t.stop(dur(a[0].s, a.n(1)))); return true; }
        if (o == "restart") { blk(t.reset(dur(a[0].s, a.n(1)))); return true; }
        if (o == "period") { blk(t.period(dur(a[0].s, a.n(1)), dur(a[2].s, a.n(3)))); return true; }
        if (o == "start_isr" || o == "stop_isr" || o == "restart_isr")
        {
            rtos::isr = true; BaseType_t* pw = a[0].i ? &w : nullptr;
            bool ok = o == "start_isr" ? t.native().start_from_isr(pw) : o == "stop_isr" ? t.stop_from_isr(pw) : t.reset_from_isr(pw);
            rtos::isr = false; r = J::arr(); r.add(ok).add(w == pdTRUE); return true;
        }
        if (o == "id") { t.id(&ids[a.n(0)]); return true; }
        if (o == "expiry") { r = (int)(t.expiry() - Clock::now()).count(); return true; }
        if (o == "pend")
        {
            pended.calls = 0;
            bool ok = t.pend_function_call(pendee, this, a.n(0), dur(a[1].s, a.n(2)));
            if (pended.calls != 1 || pended.f != pendee || pended.p != this) rtos::errs++;
            r = J::arr(); r.add(ok).add((int)pended.n).add(pended.t == portMAX_DELAY ? 1000000000 : (int)pended.t); return true;
        }
        uint32_t from = rtos::now;
        if (o == "sleep_for")
        {
            int n = a.n(1); const std::string& u = a[0].s;
            if (u == "tick") n < 0 ? estd::this_thread::sleep_for(ticks(n)) : estd::this_thread::sleep_for(dur_t(n));
            else if (u == "ms") estd::this_thread::sleep_for(ch::milliseconds(n));
            else estd::this_thread::sleep_for(ch::seconds(n));
            r = (int)(rtos::now - from); return true;
        }
        if (o == "sleep_until")
        {
            int n = a.n(1); const std::string& u = a[0].s;
            typedef ch::time_point<Clock, ch::duration<int64_t, std::ratio<1, 1000>>> TP;
            typedef ch::time_point<Clock, ch::duration<int64_t, std::ratio<1, configTICK_RATE_HZ>>> TK;
            if (u == "tick") n < 0 ? n % 2 && from >= (uint32_t)-n ? estd::this_thread::sleep_until(Clock::time_point(dur_t(from + n))) : estd::this_thread::sleep_until(TK(ch::duration<int64_t, std::ratio<1, configTICK_RATE_HZ>>(from)) + ticks(n)) : estd::this_thread::sleep_until(Clock::now() + dur_t(n));
            else estd::this_thread::sleep_until(TP(ch::duration<int64_t, std::ratio<1, 1000>>((int64_t)from * 10 + (u == "ms" ? n : n * 1000))));
            r = (int)(rtos::now - from); return true;
        }
        return false;
    }
    J obs() override
    {
        rtos::KObj* k = only();
        // what it says of itself is so
        if (!k || k->active != t.active() || k->period != t.period().count() || k->id != t.id()) rtos::errs++;
        int y = yields; estd::this_thread::yield(); if (yields != y + 1) rtos::errs++;
        if (estd::this_thread::get_id() != xTaskGetCurrentTaskHandle() || Clock::now().time_since_epoch().count() != rtos::now) rtos::errs++;
        return J::obj().set("active", t.active()).set("dormant", t.dormant()).set("period", (int)t.period().count()).set("id", (int)((int*)t.id() - ids)).set("name", t.name()).set("live", (int)rtos::live.size()).set("errs", rtos::errs);
    }
};
void code(void*) {}
struct Task : Base
{
    fr::wrapper::task t; std::string kind; fr::wrapper::task::storage<200> st; StackType_t stack[24]; StaticTask_t mem;
    Task(const std::string& kind) : kind(kind)
    {
        typedef fr::wrapper::task W;
        if (kind == "dyn") { if (t.create(code, "task", 30, this, 3) != pdPASS) rtos::errs++; }
        else if (kind == "static") t = W::create_static(code, "task", this, 3, &st);
        else t = W::create_static(code, "task", 24, this, 3, stack, &mem);
        rtos::KObj* k = only();
        if (!k || k->code != code || k->param != this || k->prio != 3) rtos::errs++;
        else if (kind == "dyn" ? k->mem || k->depth_words != 30 : kind == "static" ? k->mem != &st.task || k->stack != st.stack || k->depth_words * sizeof(StackType_t) != sizeof st.stack || sizeof st.stack != 200 : k->mem != &mem || k->stack != stack || k->depth_words != 24) rtos::errs++;
        if ((TaskHandle_t)W::current() != xTaskGetCurrentTaskHandle()) rtos::errs++;
    }
    ~Task() { vTaskDelete(t); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        BaseType_t w = pdFALSE;
        if (o == "suspend") { t.suspend(); return true; }
        if (o == "resume") { t.resume(); return true; }
        if (o == "note")
        {
            const std::string& h = a[0].s;
            eNotifyAction e = h == "none" ? eNoAction : h == "bits" ? eSetBits : h == "inc" ? eIncrement : h == "write" ? eSetValueWithOverwrite : eSetValueWithoutOverwrite;
            if (!a[2].i) { r = (bool)t.notify(a.n(1), e); return true; }
            rtos::isr = true; bool ok = a[3].i ? t.notify_from_isr(a.n(1), e, &w) : t.notify_from_isr(a.n(1), e); rtos::isr = false;
            r = J::arr(); r.add(ok).add(w == pdTRUE); return true;
        }
        if (o == "give")
        {
            if (a[0].s == "") r = (bool)t.notify_give();
            else if (a[0].s == "index") r = (bool)t.notify_give(0);
            else { rtos::isr = true; if (a[1].i) t.notify_give_from_isr(&w); else t.notify_give_from_isr(); rtos::isr = false; r = w == pdTRUE; }
            return true;
        }
        if (o == "value_clear") { r = (int)t.notify_value_clear(a.n(0)); return true; }
        if (o == "state_clear") { r = (bool)t.notify_state_clear(); return true; }
        return false;
    }
    J obs() override
    {
        rtos::KObj* k = only();
        if (k && (void*)(TaskHandle_t)t != rtos::live.begin()->first) rtos::errs++;
        return J::obj().set("susp", t.state() == eSuspended).set("pend", k->pending).set("value", (int)k->value).set("name", t.name()).set("live", (int)rtos::live.size()).set("errs", rtos::errs);
    }
};
}
::Obj* make(const J& c)
{
    bool st = c[1].s == "static";
    if (c[0].s == "group") return st ? (::Obj*)new Group<fr::event_group<true>>() : new Group<fr::event_group<false>>();
    if (c[0].s == "timer") return st ? (::Obj*)new Timer<fr::timer<true>>() : new Timer<fr::timer<false>>();
    return new Task(c[1].s);
}
J end_report() { J j = J::arr(); j.add((int)rtos::live.size()).add(rtos::errs); rtos::live.clear(); return j; }
