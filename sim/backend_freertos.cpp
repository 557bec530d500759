// A FreeRTOS kernel on the simulator: one core, tasks are simulated threads of any priority (the scheduler may switch between
// them wherever interrupts are enabled), interrupts hit at chosen instructions, critical sections exclude both. Software
// timers live in a daemon task which takes its commands from a queue, exactly like those of FreeRTOS (timers.c).
#include <pthread.h>
#include <setjmp.h>
#include <time.h>
#include <atomic.h>
#include <deque>
#include <semphr.h>
#include <task.h>
#include <timers.h>
#include "hsmcpp/HsmEventDispatcherFreeRTOS.hpp"
#include "world.h"

struct tskTaskControlBlock {
    int id = 0;
    bool deleted = false, suspended = false, blocked = false;
    uint32_t notify = 0;
    int nesting = 0;
    TaskFunction_t fn = nullptr;
    void* arg = nullptr;
    pthread_cond_t cv;
    jmp_buf end;
};
struct QueueDefinition {
    bool mutex = false, deleted = false;
    UBaseType_t count = 0, max = 1;
    int waiters = 0;
    tskTaskControlBlock* holder = nullptr;
    pthread_mutex_t mx;
    pthread_cond_t cv;
};
struct tmrTimerControl {
    bool deleted = false, active = false;
    bool reload = false;
    TickType_t period = 1, expiry = 0;
    void* id = nullptr;
    TimerCallbackFunction_t cb = nullptr;
};

namespace {
// The kernel is never preempted, so its mutex is always free. Everything lives in static memory: a handle stays recognisable
// after its object was deleted.
struct Kernel : sim::NoPoints {};
constexpr int NTASK = 256, NSEM = 4096, NTIMER = 4096, NCMD = 512;
tskTaskControlBlock tasks[NTASK];
QueueDefinition sems[NSEM];
tmrTimerControl timers[NTIMER];
int nTask, nSem, nTimer;
struct Cmd {
    int cmd;
    tmrTimerControl* t;
    TickType_t value;
    PendedFunction_t fn;
    void* a;
    uint32_t b;
};
Cmd cmds[NCMD];
int cmdHead, cmdCount;
pthread_mutex_t K = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t daemonCv, queueCv;
pthread_t daemonThread;
tskTaskControlBlock* daemonTask;
bool daemonStop;

void condInit(pthread_cond_t* c) {
    pthread_condattr_t a;
    pthread_condattr_init(&a);
    pthread_condattr_setclock(&a, CLOCK_MONOTONIC);
    pthread_cond_init(c, &a);
}
TickType_t tick0 = 0;   // what the tick counter showed when the simulation began
TickType_t tick() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return tick0 + (TickType_t)(((uint64_t)t.tv_sec * 1000000000ull + (uint64_t)t.tv_nsec) / (1000000000ull / configTICK_RATE_HZ));
}
timespec atTick(TickType_t from, TickType_t n) {
    uint64_t ns = ((uint64_t)(TickType_t)(from - tick0) + n) * (1000000000ull / configTICK_RATE_HZ);
    return {(time_t)(ns / 1000000000ull), (long)(ns % 1000000000ull)};
}
[[noreturn]] void misuse(const char* what) {
    sim::Internal in;
    sim::violation(TAG_UAF, std::string("the kernel was misused: ") + what);
}

struct Own {   // a thread of the workload is a task, too
    tskTaskControlBlock* t = nullptr;
    ~Own() {
        if (t) t->deleted = true;
    }
};
thread_local tskTaskControlBlock* current = nullptr;
thread_local Own own;
tskTaskControlBlock* newTask() {
    sim::Internal in;
    if (nTask >= NTASK) misuse("too many tasks");
    tskTaskControlBlock* t = &tasks[nTask];
    t->id = nTask++;
    condInit(&t->cv);
    return t;
}
tskTaskControlBlock* self() {
    if (!current) {
        sim::Internal in;
        current = own.t = newTask();
    }
    return current;
}
void alive(TaskHandle_t t) {
    if (!t) misuse("no task handle");
    if (t->deleted) misuse("a task was used after it was deleted");
}
void alive(SemaphoreHandle_t s) {
    if (!s) misuse("no semaphore");
    if (s->deleted) misuse("a semaphore was used after it was deleted");
}
void alive(TimerHandle_t t) {
    if (!t) misuse("no timer");
    if (t->deleted) misuse("a timer was used after it was deleted");
}
void notIsr(const char* what) {
    if (!sim::in_interrupt()) return;
    sim::Internal in;
    sim::violation(TAG_INT_ALLOC, std::string(what) + " was called by an interrupt handler");
}
// the calling task waits on a condition of the kernel; false: timeout
bool sleepOn(pthread_cond_t* cv, TickType_t ticks, TickType_t from) {
    notIsr("a function which blocks");
    if (self()->nesting) misuse("a task blocks inside a critical section");
    self()->blocked = true;
    int r = 0;
    if (ticks == portMAX_DELAY) pthread_cond_wait(cv, &K);
    else {
        timespec ts = atTick(from, ticks);
        r = pthread_cond_timedwait(cv, &K, &ts);
    }
    self()->blocked = false;
    return r == 0;
}
struct Lock {
    Lock() { pthread_mutex_lock(&K); }
    ~Lock() { pthread_mutex_unlock(&K); }
};
void* taskMain(void* p) {
    tskTaskControlBlock* t = (tskTaskControlBlock*)p;
    current = t;
    if (setjmp(t->end) == 0) {
        t->fn(t->arg);
        misuse("the function of a task returned");
    }
    return nullptr;
}
// ---- timers
bool due(TickType_t expiry, TickType_t now) { return (int32_t)(now - expiry) >= 0; }
void* daemonMain(void*) {
    current = daemonTask;
    for (;;) {
        tmrTimerControl* fire = nullptr;
        int times = 1;
        Cmd c = {};
        {
            Kernel k;
            Lock l;
            tmrTimerControl* next = nullptr;
            for (int i = 0; i < nTimer; i++)
                if (timers[i].active && (!next || (int32_t)(next->expiry - timers[i].expiry) > 0)) next = &timers[i];
            TickType_t now = tick();
            if (next && due(next->expiry, now)) {
                fire = next;
                if (fire->reload) {
                    fire->expiry += fire->period;
                    while (due(fire->expiry, now)) fire->expiry += fire->period, times++;
                } else {
                    fire->active = false;
                }
            } else if (cmdCount) {
                c = cmds[cmdHead];
                cmdHead = (cmdHead + 1) % NCMD;
                cmdCount--;
                pthread_cond_broadcast(&queueCv);
                tmrTimerControl* t = c.t;
                if (t && t->deleted) misuse("a command was sent to a deleted timer");
                if (t) t->active = false;
                if (c.cmd == 1) {
                    t->expiry = c.value + t->period;
                    if (due(t->expiry, now)) {
                        fire = t;
                        if (t->reload) {
                            t->active = true;
                            t->expiry += t->period;
                            while (due(t->expiry, now)) t->expiry += t->period, times++;
                        }
                    } else {
                        t->active = true;
                    }
                } else if (c.cmd == 3) {
                    t->period = c.value;
                    t->expiry = now + t->period;
                    t->active = true;
                } else if (c.cmd == 4) {
                    t->deleted = true;
                }
            } else if (daemonStop) {
                daemonTask->deleted = true;
                return nullptr;
            } else {
                sleepOn(&daemonCv, next ? next->expiry - now : portMAX_DELAY, now);
            }
        }
        sim::point();
        for (int i = 0; fire && i < times; i++) {
            sim::progress(false);   // catching up can take long
            fire->cb(fire);
        }
        if (c.cmd == 5) c.fn(c.a, c.b);
    }
}
BaseType_t command(const Cmd& c, TickType_t wait) {
    BaseType_t r = pdFAIL;
    notIsr("a function of the software timers");
    sim::point();
    {
        Kernel k;
        Lock l;
        if (c.t) alive(c.t);
        TickType_t from = tick();
        while (cmdCount == NCMD && wait && sleepOn(&queueCv, wait, from)) {}
        if (cmdCount < NCMD) {
            cmds[(cmdHead + cmdCount++) % NCMD] = c;
            pthread_cond_signal(&daemonCv);
            r = pdPASS;
        }
    }
    sim::point();
    return r;
}
QueueDefinition* newSem(bool mutex, UBaseType_t max, UBaseType_t init) {
    notIsr("a function which allocates memory");
    sim::Internal in;
    if (nSem >= NSEM) misuse("too many semaphores");
    QueueDefinition* s = &sems[nSem++];
    s->mutex = mutex;
    s->max = max;
    s->count = init;
    pthread_mutex_init(&s->mx, nullptr);
    condInit(&s->cv);
    return s;
}
bool giveSem(SemaphoreHandle_t s) {
    Lock l;
    if (s->count >= s->max) return false;
    s->count++;
    pthread_cond_signal(&s->cv);
    return true;
}
}  // namespace

extern "C" {
BaseType_t xPortIsInsideInterrupt(void) { return sim::in_interrupt() ? pdTRUE : pdFALSE; }
void* pvPortMalloc(size_t n) { return malloc(n); }
void vPortFree(void* p) { free(p); }

void simEnterCritical(void) {
    notIsr("taskENTER_CRITICAL");
    sim::point();
    self()->nesting++;
    sim::no_points(1);
}
void simExitCritical(void) {
    notIsr("taskEXIT_CRITICAL");
    if (self()->nesting-- <= 0) misuse("a critical section ends which was not entered");
    sim::no_points(-1);
    sim::point();
}
UBaseType_t simEnterCriticalIsr(void) {
    if (!sim::in_interrupt()) misuse("taskENTER_CRITICAL_FROM_ISR was called by a task");
    sim::no_points(1);
    return 0x51;
}
void simExitCriticalIsr(UBaseType_t s) {
    if (!sim::in_interrupt() || s != 0x51) misuse("taskEXIT_CRITICAL_FROM_ISR without its counterpart");
    sim::no_points(-1);
}

// ---- tasks
BaseType_t xTaskCreate(TaskFunction_t fn, const char*, configSTACK_DEPTH_TYPE, void* arg, UBaseType_t, TaskHandle_t* out) {
    notIsr("xTaskCreate");
    {
        Kernel k;
        tskTaskControlBlock* t = newTask();
        t->fn = fn;
        t->arg = arg;
        if (out) *out = t;
        pthread_t p;
        if (pthread_create(&p, nullptr, taskMain, t) != 0) return pdFAIL;
        pthread_detach(p);
    }
    sim::point();
    return pdPASS;
}
void vTaskDelete(TaskHandle_t t) {
    notIsr("vTaskDelete");
    sim::point();
    if (t && t != self()) misuse("deletes another task");
    if (self()->nesting) misuse("a task is deleted inside a critical section");
    self()->deleted = true;
    longjmp(self()->end, 1);
}
void vTaskDelay(TickType_t n) { sim::sleep_ns((int64_t)n * 1000000000 / configTICK_RATE_HZ); }
void vTaskSuspend(TaskHandle_t t) {
    notIsr("vTaskSuspend");
    sim::point();
    if (t && t != self()) misuse("suspends another task");
    Kernel k;
    Lock l;
    self()->suspended = true;
    while (self()->suspended) sleepOn(&self()->cv, portMAX_DELAY, 0);
}
void vTaskResume(TaskHandle_t t) {
    notIsr("vTaskResume");
    sim::point();
    {
        Kernel k;
        Lock l;
        alive(t);
        t->suspended = false;
        pthread_cond_broadcast(&t->cv);
    }
    sim::point();
}
eTaskState eTaskGetState(TaskHandle_t t) {
    sim::point();
    alive(t);
    return t == self() ? eRunning : t->suspended ? eSuspended : t->blocked ? eBlocked : eReady;
}
TaskHandle_t xTaskGetCurrentTaskHandle(void) { return self(); }
TickType_t xTaskGetTickCount(void) { return tick(); }
TickType_t xTaskGetTickCountFromISR(void) { return tick(); }
static void notifyTask(TaskHandle_t t) {
    Kernel k;
    Lock l;
    alive(t);
    t->notify++;
    pthread_cond_broadcast(&t->cv);
}
BaseType_t xTaskNotifyGive(TaskHandle_t t) {
    notIsr("xTaskNotifyGive");
    sim::point();
    notifyTask(t);
    sim::point();
    return pdPASS;
}
void vTaskNotifyGiveFromISR(TaskHandle_t t, BaseType_t* woken) {
    if (!sim::in_interrupt()) misuse("vTaskNotifyGiveFromISR was called by a task");
    notifyTask(t);
    if (woken) *woken = pdTRUE;
}
uint32_t ulTaskNotifyTake(BaseType_t clear, TickType_t ticks) {
    notIsr("ulTaskNotifyTake");
    sim::point();
    Kernel k;
    Lock l;
    TickType_t from = tick();
    while (!self()->notify && ticks && sleepOn(&self()->cv, ticks, from)) {}
    uint32_t n = self()->notify;
    if (n) self()->notify = clear ? 0 : n - 1;
    return n;
}

// ---- semaphores
SemaphoreHandle_t xSemaphoreCreateBinary(void) { return newSem(false, 1, 0); }
SemaphoreHandle_t xSemaphoreCreateMutex(void) { return newSem(true, 1, 1); }
SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t max, UBaseType_t initial) { return newSem(false, max, initial); }
void vSemaphoreDelete(SemaphoreHandle_t s) {
    notIsr("vSemaphoreDelete");
    alive(s);
    if (s->waiters) misuse("a semaphore is deleted while tasks wait for it");
    s->deleted = true;
}
BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t ticks) {
    notIsr("xSemaphoreTake");
    sim::point();
    alive(s);
    Kernel k;
    if (s->mutex) {
        if (pthread_mutex_trylock(&s->mx) != 0) {
            if (!ticks) return pdFALSE;
            if (ticks != portMAX_DELAY) misuse("waits for a mutex with a timeout: not simulated");
            if (self()->nesting) misuse("a task blocks inside a critical section");
            s->waiters++;
            pthread_mutex_lock(&s->mx);
            s->waiters--;
        }
        s->holder = self();
        return pdTRUE;
    }
    Lock l;
    TickType_t from = tick();
    s->waiters++;
    while (!s->count && ticks && sleepOn(&s->cv, ticks, from)) {}
    s->waiters--;
    alive(s);
    if (!s->count) return pdFALSE;
    s->count--;
    return pdTRUE;
}
BaseType_t xSemaphoreGive(SemaphoreHandle_t s) {
    notIsr("xSemaphoreGive");
    sim::point();
    BaseType_t r = pdTRUE;
    {
        Kernel k;
        alive(s);
        if (s->mutex) {
            if (s->holder != self()) misuse("a mutex is given by a task which does not hold it");
            s->holder = nullptr;
            pthread_mutex_unlock(&s->mx);
        } else {
            r = giveSem(s) ? pdTRUE : pdFALSE;
        }
    }
    sim::point();
    return r;
}
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t s, BaseType_t*) {
    if (!sim::in_interrupt()) misuse("xSemaphoreTakeFromISR was called by a task");
    Kernel k;
    alive(s);
    if (s->mutex) return pthread_mutex_trylock(&s->mx) == 0 ? pdTRUE : pdFALSE;   // nobody holds it: an interrupt is no task
    if (!s->count) return pdFALSE;
    s->count--;
    return pdTRUE;
}
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t s, BaseType_t*) {
    if (!sim::in_interrupt()) misuse("xSemaphoreGiveFromISR was called by a task");
    Kernel k;
    alive(s);
    if (s->mutex) {
        if (s->holder) misuse("an interrupt gives a mutex which a task holds");
        pthread_mutex_unlock(&s->mx);
        return pdTRUE;
    }
    return giveSem(s) ? pdTRUE : pdFALSE;
}
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t s) { return s->mutex ? (s->holder ? 0 : 1) : s->count; }
uint32_t Atomic_CompareAndSwap_u32(uint32_t volatile* dst, uint32_t exchange, uint32_t comparand) {
    sim::point();
    if (*dst != comparand) return ATOMIC_COMPARE_AND_SWAP_FAILURE;
    *dst = exchange;
    return ATOMIC_COMPARE_AND_SWAP_SUCCESS;
}

// ---- software timers
TimerHandle_t xTimerCreate(const char*, TickType_t period, UBaseType_t reload, void* id, TimerCallbackFunction_t cb) {
    notIsr("xTimerCreate");
    sim::point();
    if (!period) misuse("a timer with a period of 0 ticks");
    sim::Internal in;
    int i = nTimer;
    if (i >= NTIMER) misuse("too many timers");
    nTimer++;
    timers[i].reload = reload != pdFALSE;
    timers[i].period = period;
    timers[i].id = id;
    timers[i].cb = cb;
    return &timers[i];
}
BaseType_t simTimerCommand(TimerHandle_t t, int cmd, TickType_t value, TickType_t wait) {
    if (cmd == 3 && !value) misuse("a timer with a period of 0 ticks");
    if (!t) misuse("no timer");
    return command({cmd, t, value, nullptr, nullptr, 0}, wait);
}
BaseType_t xTimerPendFunctionCall(PendedFunction_t fn, void* a, uint32_t b, TickType_t wait) { return command({5, nullptr, 0, fn, a, b}, wait); }
TickType_t xTimerGetPeriod(TimerHandle_t t) {
    alive(t);
    return t->period;
}
TickType_t xTimerGetExpiryTime(TimerHandle_t t) {
    alive(t);
    return t->expiry;
}
BaseType_t xTimerIsTimerActive(TimerHandle_t t) {
    alive(t);
    return t->active ? pdTRUE : pdFALSE;
}
void vTimerSetReloadMode(TimerHandle_t t, UBaseType_t reload) {
    sim::point();
    alive(t);
    t->reload = reload != pdFALSE;
}
void* pvTimerGetTimerID(TimerHandle_t t) {
    alive(t);
    return t->id;
}
void vTimerSetTimerID(TimerHandle_t t, void* id) {
    alive(t);
    t->id = id;
}
TaskHandle_t xTimerGetTimerDaemonTaskHandle(void) { return daemonTask; }
}

uint32_t simTickRate = 1000;
namespace w {

static std::shared_ptr<hsmcpp::IHsmEventDispatcher> mk(size_t cache, int) { return hsmcpp::HsmEventDispatcherFreeRTOS::create(configMINIMAL_STACK_SIZE, tskIDLE_PRIORITY, cache); }
static void open(int, uint64_t bits) {
    simTickRate = bits % 4 == 0 ? 100 : 1000;
    tick0 = bits / 4 % 3 == 0 ? 0u - (TickType_t)(bits / 12 % 100) : 0u;   // the counter overflows during the run
    backend.early = 1000000000 / simTickRate;
    condInit(&daemonCv);
    condInit(&queueCv);
    daemonTask = newTask();
    pthread_create(&daemonThread, nullptr, daemonMain, nullptr);
}
static void close() {
    {
        Kernel k;
        Lock l;
        daemonStop = true;
        pthread_cond_signal(&daemonCv);
    }
    pthread_join(daemonThread, nullptr);
}
Backend backend = {"FreeRTOS", mk, false, nullptr, false, open, nullptr, close, 1000000, 0, false, 1000000, true};
}
