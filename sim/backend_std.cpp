#include "hsmcpp/HsmEventDispatcherSTD.hpp"
#include "world.h"
namespace w {
static std::shared_ptr<hsmcpp::IHsmEventDispatcher> mk(size_t cache, int) { return hsmcpp::HsmEventDispatcherSTD::create(cache); }
Backend backend = {"STD", mk, false, nullptr, false, nullptr, nullptr, nullptr, 0, 0, false};
}
