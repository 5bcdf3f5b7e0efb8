// what FreeRTOS does, as documented, for one task (the driver) among others whose doings are scheduled by the driver:
// time passes only while the driver waits; after `other_in` ticks of waiting, `other_act` happens
#pragma once
#include "FreeRTOS.h"
#include <functional>
#include <map>
#include <deque>
#include <string>
#include <vector>
#include <cstring>

namespace rtos {
uint32_t now = 0;
int errs = 0;                  // calls the kernel does not allow
bool isr = false;              // whether the call comes from an interrupt
long other_in = -1;
std::function<void()> other_act;
const uint64_t MAGIC = 0x5eed5eed12345678ull;
enum Kind { SEM, MUTEX, REC, QUEUE, GROUP, TIMER, TASK };
struct KObj
{
    Kind kind; vf_static* mem = nullptr;   // mem: caller's memory, which nobody else may touch
    // semaphores and queues
    UBaseType_t max = 0, count = 0, size = 0; uint8_t* store = nullptr; std::deque<std::string> q;
    int holder = 0, depth = 0;             // 1: the driver, 2: another task
    // event groups
    uint32_t bits = 0;
    // timers
    std::string name; uint32_t period = 0, expiry = 0; bool reload = false, active = false; void* id = nullptr; TimerCallbackFunction_t cb = nullptr;
    // tasks
    bool suspended = false, pending = false; uint32_t value = 0; TaskFunction_t code = nullptr; void* param = nullptr; StackType_t* stack = nullptr; size_t depth_words = 0; UBaseType_t prio = 0;
};
std::map<void*, KObj> live;
void bad(const char* what) { errs++; fprintf(stderr, "kernel: %s\n", what); }
template <class H> KObj* get(H h, bool from_isr, Kind a, Kind b = TASK, Kind c = TASK)
{
    static KObj none;
    auto i = live.find((void*)h);
    if (isr != from_isr) bad("call from the wrong context");
    if (i == live.end()) { bad("no such object"); none = KObj(); none.max = 1; none.size = 1; return &none; }
    KObj& o = i->second;
    if (o.kind != a && o.kind != b && o.kind != c) bad("wrong kind of object");
    if (o.mem && (o.mem->raw[0] != MAGIC || o.mem->raw[11] != ~MAGIC)) bad("object memory overwritten");
    return &o;
}
template <class H> H make(Kind k, vf_static* mem)
{
    if (isr) bad("created from an interrupt");
    void* h = mem ? (void*)mem : malloc(1);
    if (live.count(h)) bad("memory used twice");
    KObj& o = live[h]; o = KObj(); o.kind = k; o.mem = mem;
    if (mem) { mem->raw[0] = MAGIC; mem->raw[11] = ~MAGIC; }
    return (H)h;
}
template <class H> void kill(H h, Kind a, Kind b = TASK, Kind c = TASK)
{
    KObj* o = get(h, false, a, b, c);
    auto i = live.find((void*)h);
    if (i == live.end()) return;
    if (!o->mem) free((void*)h);
    live.erase(i);
}
// wait for cond
template <class C> bool wait(uint32_t ticks, C cond)
{
    if (cond()) return true;
    if (isr && ticks) bad("waits in an interrupt");
    uint32_t left = ticks;
    if (other_in >= 0 && (ticks == portMAX_DELAY || (uint32_t)other_in <= left) && ticks)
    {
        now += other_in; left -= other_in; other_in = -1;
        other_act();
        if (cond()) return true;
    }
    if (ticks == portMAX_DELAY) { bad("waits forever"); return false; }
    now += left;
    return false;
}
void woke(BaseType_t* w, bool yes) { if (w && yes) *w = pdTRUE; }
}
using namespace rtos;
extern "C" {
static SemaphoreHandle_t mksem(Kind k, UBaseType_t max, UBaseType_t n, vf_static* m) { auto h = make<SemaphoreHandle_t>(k, m); live[h].max = max; live[h].count = n; if (n > max || !max) bad("count"); return h; }
SemaphoreHandle_t xSemaphoreCreateBinary(void) { return mksem(SEM, 1, 0, nullptr); }
SemaphoreHandle_t xSemaphoreCreateBinaryStatic(StaticSemaphore_t* m) { return mksem(SEM, 1, 0, m); }
SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t max, UBaseType_t n) { return mksem(SEM, max, n, nullptr); }
SemaphoreHandle_t xSemaphoreCreateCountingStatic(UBaseType_t max, UBaseType_t n, StaticSemaphore_t* m) { return mksem(SEM, max, n, m); }
SemaphoreHandle_t xSemaphoreCreateMutex(void) { return mksem(MUTEX, 1, 1, nullptr); }
SemaphoreHandle_t xSemaphoreCreateMutexStatic(StaticSemaphore_t* m) { return mksem(MUTEX, 1, 1, m); }
SemaphoreHandle_t xSemaphoreCreateRecursiveMutex(void) { return mksem(REC, 1, 1, nullptr); }
SemaphoreHandle_t xSemaphoreCreateRecursiveMutexStatic(StaticSemaphore_t* m) { return mksem(REC, 1, 1, m); }
void vSemaphoreDelete(SemaphoreHandle_t h) { kill(h, SEM, MUTEX, REC); }
BaseType_t xSemaphoreTake(SemaphoreHandle_t h, TickType_t t)
{
    KObj* o = get(h, false, SEM, MUTEX);
    if (!wait(t, [o] { return o->count > 0; })) return pdFALSE;
    o->count--; if (o->kind == MUTEX) o->holder = 1;
    return pdTRUE;
}
static BaseType_t sgive(KObj* o, int who)
{
    if (o->count >= o->max) return pdFALSE;
    if (o->kind == MUTEX) { if (o->holder != who) bad("gives a mutex it does not hold"); o->holder = 0; }
    o->count++;
    return pdTRUE;
}
BaseType_t xSemaphoreGive(SemaphoreHandle_t h) { return sgive(get(h, false, SEM, MUTEX), 1); }
BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t h, TickType_t t)
{
    KObj* o = get(h, false, REC);
    if (o->holder != 1) { if (!wait(t, [o] { return o->count > 0; })) return pdFALSE; o->count--; o->holder = 1; }
    o->depth++;
    return pdTRUE;
}
BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t h)
{
    KObj* o = get(h, false, REC);
    if (o->holder != 1) return pdFALSE;
    if (!--o->depth) { o->holder = 0; o->count++; }
    return pdTRUE;
}
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t h, BaseType_t* w) { KObj* o = get(h, true, SEM); if (!o->count) return pdFALSE; o->count--; woke(w, o->count == 0); return pdTRUE; }
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t h, BaseType_t* w) { KObj* o = get(h, true, SEM); bool was = o->count == 0; if (!sgive(o, 0)) return pdFALSE; woke(w, was); return pdTRUE; }
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t h) { return get(h, false, SEM, MUTEX, REC)->count; }
TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t h) { return (TaskHandle_t)(intptr_t)get(h, false, MUTEX, REC)->holder; }

static QueueHandle_t mkq(UBaseType_t n, UBaseType_t size, uint8_t* store, vf_static* m) { auto h = make<QueueHandle_t>(QUEUE, m); KObj& o = live[h]; o.max = n; o.size = size; o.store = store; if (!n) bad("no room"); if (!m != !store) bad("storage"); if (store) memset(store, 0x5a, n * size); return h; }
QueueHandle_t xQueueCreate(UBaseType_t n, UBaseType_t size) { return mkq(n, size, nullptr, nullptr); }
QueueHandle_t xQueueCreateStatic(UBaseType_t n, UBaseType_t size, uint8_t* store, StaticQueue_t* m) { return mkq(n, size, store, m); }
void vQueueDelete(QueueHandle_t h) { kill(h, QUEUE); }
UBaseType_t uxQueueMessagesWaiting(QueueHandle_t h) { return get(h, false, QUEUE)->q.size(); }
UBaseType_t uxQueueSpacesAvailable(QueueHandle_t h) { KObj* o = get(h, false, QUEUE); return o->max - o->q.size(); }
// a queue in the caller's memory keeps its items there
static void qstore(KObj* o) { if (o->store) for (size_t i = 0; i < o->q.size(); i++) memcpy(o->store + i * o->size, o->q[i].data(), o->size); }
static void qcheck(KObj* o) { if (o->store) for (size_t i = 0; i < o->q.size(); i++) if (memcmp(o->store + i * o->size, o->q[i].data(), o->size)) bad("item memory overwritten"); }
static void qput(KObj* o, const void* v) { qcheck(o); o->q.push_back(std::string((const char*)v, o->size)); qstore(o); }
static void qget(KObj* o, void* v, bool keep) { qcheck(o); memcpy(v, o->q.front().data(), o->size); if (!keep) o->q.pop_front(); qstore(o); }
BaseType_t xQueueSend(QueueHandle_t h, const void* v, TickType_t t)
{
    KObj* o = get(h, false, QUEUE);
    if (!wait(t, [o] { return o->q.size() < o->max; })) return pdFALSE;
    qput(o, v); return pdTRUE;
}
BaseType_t xQueueSendToBack(QueueHandle_t h, const void* v, TickType_t t) { return xQueueSend(h, v, t); }
BaseType_t xQueueSendFromISR(QueueHandle_t h, const void* v, BaseType_t* w) { KObj* o = get(h, true, QUEUE); if (o->q.size() >= o->max) return pdFALSE; woke(w, o->q.empty()); qput(o, v); return pdTRUE; }
static BaseType_t qover(KObj* o, const void* v) { if (o->max != 1) bad("overwrites a longer queue"); o->q.clear(); qput(o, v); return pdTRUE; }
BaseType_t xQueueOverwrite(QueueHandle_t h, const void* v) { return qover(get(h, false, QUEUE), v); }
BaseType_t xQueueOverwriteFromISR(QueueHandle_t h, const void* v, BaseType_t* w) { KObj* o = get(h, true, QUEUE); woke(w, o->q.empty()); return qover(o, v); }
BaseType_t xQueueReceive(QueueHandle_t h, void* v, TickType_t t) { KObj* o = get(h, false, QUEUE); if (!wait(t, [o] { return !o->q.empty(); })) return pdFALSE; qget(o, v, false); return pdTRUE; }
BaseType_t xQueuePeek(QueueHandle_t h, void* v, TickType_t t) { KObj* o = get(h, false, QUEUE); if (!wait(t, [o] { return !o->q.empty(); })) return pdFALSE; qget(o, v, true); return pdTRUE; }
BaseType_t xQueuePeekFromISR(QueueHandle_t h, void* v) { KObj* o = get(h, true, QUEUE); if (o->q.empty()) return pdFALSE; qget(o, v, true); return pdTRUE; }
BaseType_t xQueueReset(QueueHandle_t h) { get(h, false, QUEUE)->q.clear(); return pdPASS; }
BaseType_t xQueueGetStaticBuffers(QueueHandle_t h, uint8_t** s, StaticQueue_t** m) { KObj* o = get(h, false, QUEUE); if (!o->mem) return pdFALSE; *s = o->store; *m = o->mem; return pdTRUE; }

EventGroupHandle_t xEventGroupCreate(void) { return make<EventGroupHandle_t>(GROUP, nullptr); }
EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t* m) { return make<EventGroupHandle_t>(GROUP, m); }
void vEventGroupDelete(EventGroupHandle_t h) { kill(h, GROUP); }
EventBits_t xEventGroupWaitBits(EventGroupHandle_t h, EventBits_t b, BaseType_t clear, BaseType_t all, TickType_t t)
{
    KObj* o = get(h, false, GROUP);
    if (!b) bad("waits for nothing");
    bool ok = wait(t, [=] { return all ? (o->bits & b) == b : (o->bits & b) != 0; });
    EventBits_t r = o->bits;
    if (ok && clear) o->bits &= ~b;
    return r;
}
EventBits_t xEventGroupSetBits(EventGroupHandle_t h, EventBits_t b) { return get(h, false, GROUP)->bits |= b; }
EventBits_t xEventGroupClearBits(EventGroupHandle_t h, EventBits_t b) { KObj* o = get(h, false, GROUP); EventBits_t r = o->bits; o->bits &= ~b; return r; }
BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t h, EventBits_t b, BaseType_t* w) { KObj* o = get(h, true, GROUP); woke(w, (o->bits | b) != o->bits); o->bits |= b; return pdPASS; }
BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t h, EventBits_t b) { get(h, true, GROUP)->bits &= ~b; return pdPASS; }
EventBits_t xEventGroupSync(EventGroupHandle_t h, EventBits_t set, EventBits_t w, TickType_t t)
{
    KObj* o = get(h, false, GROUP);
    o->bits |= set;
    bool ok = wait(t, [=] { return (o->bits & w) == w; });
    EventBits_t r = o->bits;
    if (ok) o->bits &= ~w;
    return r;
}

static std::vector<uint32_t> timer_blocks;     // how long each command was told to wait for the timer task
static TimerHandle_t mktimer(const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t cb, vf_static* m) { auto h = make<TimerHandle_t>(TIMER, m); KObj& o = live[h]; o.name = n; o.period = p; o.reload = r; o.id = id; o.cb = cb; if (!p) bad("period"); return h; }
TimerHandle_t xTimerCreate(const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t cb) { return mktimer(n, p, r, id, cb, nullptr); }
TimerHandle_t xTimerCreateStatic(const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t cb, StaticTimer_t* m) { return mktimer(n, p, r, id, cb, m); }
BaseType_t xTimerDelete(TimerHandle_t h, TickType_t t) { timer_blocks.push_back(t); kill(h, TIMER); return pdPASS; }
static BaseType_t tgo(KObj* o) { o->active = true; o->expiry = now + o->period; return pdPASS; }
BaseType_t xTimerStart(TimerHandle_t h, TickType_t t) { timer_blocks.push_back(t); return tgo(get(h, false, TIMER)); }
BaseType_t xTimerStop(TimerHandle_t h, TickType_t t) { timer_blocks.push_back(t); get(h, false, TIMER)->active = false; return pdPASS; }
BaseType_t xTimerReset(TimerHandle_t h, TickType_t t) { timer_blocks.push_back(t); return tgo(get(h, false, TIMER)); }
BaseType_t xTimerChangePeriod(TimerHandle_t h, TickType_t p, TickType_t t) { timer_blocks.push_back(t); KObj* o = get(h, false, TIMER); if (!p) bad("period"); o->period = p; return tgo(o); }
BaseType_t xTimerStartFromISR(TimerHandle_t h, BaseType_t* w) { woke(w, true); return tgo(get(h, true, TIMER)); }
BaseType_t xTimerStopFromISR(TimerHandle_t h, BaseType_t* w) { woke(w, true); get(h, true, TIMER)->active = false; return pdPASS; }
BaseType_t xTimerResetFromISR(TimerHandle_t h, BaseType_t* w) { woke(w, true); return tgo(get(h, true, TIMER)); }
void vTimerSetTimerID(TimerHandle_t h, void* id) { get(h, false, TIMER)->id = id; }
void* pvTimerGetTimerID(TimerHandle_t h) { return get(h, false, TIMER)->id; }
const char* pcTimerGetName(TimerHandle_t h) { return get(h, false, TIMER)->name.c_str(); }
TickType_t xTimerGetExpiryTime(TimerHandle_t h) { return get(h, false, TIMER)->expiry; }
TickType_t xTimerGetPeriod(TimerHandle_t h) { return get(h, false, TIMER)->period; }
BaseType_t xTimerIsTimerActive(TimerHandle_t h) { return get(h, false, TIMER)->active; }
static struct { PendedFunction_t f; void* p; uint32_t n, t; int calls; } pended;
BaseType_t xTimerPendFunctionCall(PendedFunction_t f, void* p, uint32_t n, TickType_t t) { if (isr) bad("context"); pended.f = f; pended.p = p; pended.n = n; pended.t = t; pended.calls++; return pdPASS; }
BaseType_t xTimerPendFunctionCallFromISR(PendedFunction_t f, void* p, uint32_t n, BaseType_t* w) { if (!isr) bad("context"); woke(w, true); pended.f = f; pended.p = p; pended.n = n; pended.t = 0; pended.calls++; return pdPASS; }

TickType_t xTaskGetTickCount(void) { return now; }
void vTaskDelay(TickType_t t) { if (isr) bad("delay in an interrupt"); now += t; }
static int yields = 0;
void taskYIELD(void) { yields++; }
static vf_static main_task;
TaskHandle_t xTaskGetCurrentTaskHandle(void) { return (TaskHandle_t)&main_task; }
BaseType_t xTaskCreate(TaskFunction_t f, const char* n, configSTACK_DEPTH_TYPE d, void* p, UBaseType_t prio, TaskHandle_t* h)
{ auto x = make<TaskHandle_t>(TASK, nullptr); KObj& o = live[x]; o.code = f; o.name = n; o.depth_words = d; o.param = p; o.prio = prio; if (h) *h = x; return pdPASS; }
TaskHandle_t xTaskCreateStatic(TaskFunction_t f, const char* n, uint32_t d, void* p, UBaseType_t prio, StackType_t* s, StaticTask_t* m)
{ auto x = make<TaskHandle_t>(TASK, m); KObj& o = live[x]; o.code = f; o.name = n; o.depth_words = d; o.param = p; o.prio = prio; o.stack = s; memset(s, 0xa5, d * sizeof(StackType_t)); return x; }
void vTaskDelete(TaskHandle_t h) { kill(h, TASK); }
void vTaskSuspend(TaskHandle_t h) { get(h, false, TASK)->suspended = true; }
void vTaskResume(TaskHandle_t h) { get(h, false, TASK)->suspended = false; }
eTaskState eTaskGetState(TaskHandle_t h) { return get(h, false, TASK)->suspended ? eSuspended : eReady; }
char* pcTaskGetName(TaskHandle_t h) { return (char*)get(h, false, TASK)->name.c_str(); }
static BaseType_t tnote(KObj* o, uint32_t v, eNotifyAction a)
{
    bool was = o->pending;
    o->pending = true;
    if (a == eSetBits) o->value |= v;
    else if (a == eIncrement) o->value++;
    else if (a == eSetValueWithOverwrite) o->value = v;
    else if (a == eSetValueWithoutOverwrite) { if (was) return pdFAIL; o->value = v; }
    return pdPASS;
}
BaseType_t xTaskNotifyGive(TaskHandle_t h) { return tnote(get(h, false, TASK), 0, eIncrement); }
BaseType_t xTaskNotifyGiveIndexed(TaskHandle_t h, UBaseType_t i) { if (i) bad("index"); return tnote(get(h, false, TASK), 0, eIncrement); }
void vTaskNotifyGiveFromISR(TaskHandle_t h, BaseType_t* w) { woke(w, true); tnote(get(h, true, TASK), 0, eIncrement); }
BaseType_t xTaskNotify(TaskHandle_t h, uint32_t v, eNotifyAction a) { return tnote(get(h, false, TASK), v, a); }
BaseType_t xTaskNotifyFromISR(TaskHandle_t h, uint32_t v, eNotifyAction a, BaseType_t* w) { woke(w, true); return tnote(get(h, true, TASK), v, a); }
uint32_t ulTaskNotifyValueClear(TaskHandle_t h, uint32_t b) { KObj* o = get(h, false, TASK); uint32_t r = o->value; o->value &= ~b; return r; }
BaseType_t xTaskNotifyStateClear(TaskHandle_t h) { KObj* o = get(h, false, TASK); bool r = o->pending; o->pending = false; return r; }
}
