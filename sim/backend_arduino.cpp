// One core, no threads, no locks: the sketch's loop() polls the dispatcher, interrupts hit it at any instruction.
#include <signal.h>
#include <time.h>
#include "hsmcpp/HsmEventDispatcherArduino.hpp"
#include "world.h"
static unsigned long bootMs = 0;   // what the millisecond counter showed when the simulation began
extern "C" {
unsigned long millis(void) {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return bootMs + static_cast<unsigned long>(t.tv_sec) * 1000ul + static_cast<unsigned long>(t.tv_nsec / 1000000);
}
static void irqMask(int how) {
    sigset_t s;
    sigfillset(&s);
    pthread_sigmask(how, &s, nullptr);
}
void noInterrupts(void) { irqMask(SIG_BLOCK); }
void interrupts(void) { irqMask(SIG_UNBLOCK); }   // enables them whatever they were before, also inside an interrupt
}
namespace w {
static std::weak_ptr<hsmcpp::HsmEventDispatcherArduino> disp[8];
static std::shared_ptr<hsmcpp::IHsmEventDispatcher> mk(size_t cache, int i) {
    if (i == 0) bootMs = countdownMs < 0 ? 0 : 0ul - static_cast<unsigned long>(countdownMs) - (millis() - bootMs);
    auto d = hsmcpp::HsmEventDispatcherArduino::create(cache);
    disp[i] = d;
    return d;
}
static void poll(int i) {
    hsmcpp::HsmEventDispatcherArduino* d = nullptr;
    {
        sim::Internal in;
        auto s = disp[i].lock();   // the caller holds a reference
        d = s.get();
    }
    if (d) d->dispatchEvents();
}
Backend backend = {"Arduino", mk, true, poll, false, nullptr, nullptr, nullptr, 0, 0, false};
}
