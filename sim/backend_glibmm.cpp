#include <glibmm.h>
#include "loops_glib.h"
#include "hsmcpp/HsmEventDispatcherGLibmm.hpp"
namespace w {
static void open(int n, uint64_t seed) {
    pipeCap = 200;   // 24 bytes per notification, and dispatchers of one thread share a pipe
    {
        sim::NoPoints np;
        Glib::init();
    }
    openLoops(n, seed);
}
static std::shared_ptr<hsmcpp::IHsmEventDispatcher> mk(size_t cache, int i) {
    GMainContext* c = loops[loopOf[i]]->ctx;
    return c == g_main_context_default() ? hsmcpp::HsmEventDispatcherGLibmm::create(cache) : hsmcpp::HsmEventDispatcherGLibmm::create(Glib::wrap(c, true), cache);
}
Backend backend = {"GLibmm", mk, false, nullptr, true, open, post, closeLoops, 2500000, 0, false, 0, true};
}
