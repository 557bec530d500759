#include "loops_glib.h"
#include "hsmcpp/HsmEventDispatcherGLib.hpp"
namespace w {
static void open(int n, uint64_t seed) {
    pipeCap = 8;   // one byte per notification
    openLoops(n, seed);
}
static std::shared_ptr<hsmcpp::IHsmEventDispatcher> mk(size_t cache, int i) {
    GMainContext* c = loops[loopOf[i]]->ctx;
    return c == g_main_context_default() ? hsmcpp::HsmEventDispatcherGLib::create(cache) : hsmcpp::HsmEventDispatcherGLib::create(c, cache);
}
Backend backend = {"GLib", mk, false, nullptr, true, open, post, closeLoops, 2500000, 0, false, 0, true};
}
