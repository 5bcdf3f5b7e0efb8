// conformance driver: queues of port/freertos over a stand-in for the kernel
#include "common.h"
#include "rtos/kernel.h"
#include <estd/port/freertos/queue.h>

namespace {
namespace fr = estd::freertos;
namespace ch = estd::chrono;
struct Item { int v; char pad[9]; };
static_assert(!std::is_copy_constructible<fr::queue<Item>>::value && !std::is_copy_assignable<fr::queue<Item, true>>::value && !std::is_copy_constructible<fr::layer1::queue<Item, 2>>::value, "");
Item item(int v) { Item i; i.v = v; for (int k = 0; k < 9; k++) i.pad[k] = (char)(v + k); return i; }
int value(const Item& i) { for (int k = 0; k < 9; k++) if (i.pad[k] != (char)(i.v + k)) return -9; return i.v; }
struct Any { virtual ~Any() {} virtual bool op(const std::string& o, const J& a, J& r) = 0; };
struct schedule { ~schedule() { other_in = -1; } };
rtos::KObj* only() { return rtos::live.size() == 1 ? &rtos::live.begin()->second : nullptr; }
fr::detail::queue<Item>::duration dur(const std::string& u, int n)
{
    if (u == "tick") return fr::detail::queue<Item>::duration(n);
    if (u == "ms") return ch::milliseconds(n);
    return ch::seconds(n);
}
template <class Q> struct P : Any
{
    Q q;
    template <class... A> P(A... a) : q(a...) {}
    bool op(const std::string& o, const J& a, J& r) override
    {
        uint32_t from = rtos::now;
        if (o == "send")
        {
            const Item v = item(a.n(1));
            bool ok = a[0].s == "wait" ? q.send(v) : q.send(v, dur(a[2].s, a.n(3)));
            r = J::arr(); r.add(ok).add((int)(rtos::now - from));
            return true;
        }
        if (o == "recv")
        {
            Item v = item(-1);
            bool ok = a[0].s == "wait" ? q.receive(&v) : q.receive(&v, dur(a[1].s, a.n(2)));
            r = J::arr(); r.add(ok).add((int)(rtos::now - from)).add(value(v));
            return true;
        }
        if (o == "send_isr")
        {
            BaseType_t w = pdFALSE; rtos::isr = true;
            bool ok = a[1].i ? q.send_from_isr(item(a.n(0)), &w) : q.send_from_isr(item(a.n(0)));
            rtos::isr = false;
            r = J::arr(); r.add(ok).add(w == pdTRUE);
            return true;
        }
        if (o == "waiting") { r = (int)q.messages_waiting(); return true; }
        if constexpr (std::is_base_of<fr::queue<Item, true>, Q>::value)
            if (o == "buffers") { uint8_t* s = nullptr; StaticQueue_t* m = nullptr; bool ok = q.static_buffers(&s, &m); r = ok && s == only()->store && m == only()->mem; return true; }
        return false;
    }
};
struct R : Any
{
    fr::wrapper::queue q;
    R(fr::wrapper::queue q) : q(q) {}
    ~R() { q.free(); }
    bool op(const std::string& o, const J& a, J& r) override
    {
        uint32_t from = rtos::now;
        auto t = [&](int i, const std::string& u, int n) -> TickType_t { return i ? portMAX_DELAY : (TickType_t)dur(u, n).count(); };
        if (o == "send")
        {
            const Item v = item(a.n(1)); TickType_t w = t(a[0].s == "wait", a[2].s, a.n(3));
            bool ok = a[0].s == "back" ? q.send_to_back(&v, w) : q.send(&v, w);
            r = J::arr(); r.add(ok).add((int)(rtos::now - from));
            return true;
        }
        if (o == "recv" || o == "peek")
        {
            Item v = item(-1); TickType_t w = t(a[0].s == "wait", a[1].s, a.n(2));
            bool ok = o == "recv" ? q.receive(&v, w) : q.peek(&v, w);
            r = J::arr(); r.add(ok).add((int)(rtos::now - from)).add(value(v));
            return true;
        }
        BaseType_t w = pdFALSE;
        if (o == "send_isr" || o == "over_isr")
        {
            Item v = item(a.n(0)); rtos::isr = true;
            bool ok = o == "send_isr" ? q.send_from_isr(&v, a[1].i ? &w : nullptr) : a[1].i ? q.overwrite_from_isr(&v, &w) : q.overwrite_from_isr(&v);
            rtos::isr = false;
            r = J::arr(); r.add(ok).add(w == pdTRUE);
            return true;
        }
        if (o == "peek_isr") { Item v = item(-1); rtos::isr = true; bool ok = q.peek_from_isr(&v); rtos::isr = false; r = J::arr(); r.add(ok).add(value(v)); return true; }
        if (o == "over") { Item v = item(a.n(0)); r = (bool)q.overwrite(&v); return true; }
        if (o == "clear") { r = (bool)q.reset(); return true; }
        if (o == "waiting") { r = (int)q.messages_waiting(); return true; }
        if (o == "spaces") { r = (int)q.spaces_available(); return true; }
        return false;
    }
};
struct X : ::Obj
{
    Any* p = nullptr; int cap; Item store[8]; StaticQueue_t mem;
    X(const J& c)
    {
        rtos::now = 100; rtos::errs = 0; cap = c.n(1);
        const std::string& k = c[0].s;
        if (k == "dyn") p = new P<fr::queue<Item>>((unsigned)cap);
        else if (k == "static") p = new P<fr::queue<Item, true>>(store, (unsigned)cap);
        else if (k == "layer1") p = cap == 1 ? (Any*)new P<fr::layer1::queue<Item, 1>>() : cap == 2 ? (Any*)new P<fr::layer1::queue<Item, 2>>() : (Any*)new P<fr::layer1::queue<Item, 3>>();
        else if (k == "raw") p = new R(fr::wrapper::queue::create(cap, sizeof(Item)));
        else p = new R(fr::wrapper::queue::create(cap, sizeof(Item), (uint8_t*)store, &mem));
        rtos::KObj* o = only();
        if (!o || o->size != sizeof(Item) || (int)o->max != cap) rtos::errs++;
        if (o && (o->mem != nullptr) != (k != "dyn" && k != "raw")) rtos::errs++;
    }
    ~X() { delete p; }
    bool op(const std::string& o, const J& a, J& r) override
    {
        schedule s;
        int d = o == "send" ? a.n(4) : o == "recv" || o == "peek" ? a.n(3) : -1;
        rtos::KObj* k = only();
        if (d >= 0)
        {
            other_in = d;
            if (o == "send") other_act = [k] { k->q.pop_front(); qstore(k); };
            else { Item v = item(a.n(4)); other_act = [k, v] { qput(k, &v); }; }
        }
        return p->op(o, a, r);
    }
    J obs() override
    {
        J q = J::arr(); rtos::KObj* k = only();
        if (k) { qcheck(k); for (auto& s : k->q) { Item i; memcpy(&i, s.data(), sizeof i); q.add(value(i)); } }
        return J::obj().set("q", q).set("live", (int)rtos::live.size()).set("errs", rtos::errs);
    }
};
}
::Obj* make(const J& c) { return new X(c); }
J end_report() { J j = J::arr(); j.add((int)rtos::live.size()).add(rtos::errs); rtos::live.clear(); return j; }
