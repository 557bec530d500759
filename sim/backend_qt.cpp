// Qt: all dispatchers live on the application's thread
#include "world.h"
#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QEvent>
#include <QThread>
#include <thread>
#include "hsmcpp/HsmEventDispatcherQt.hpp"
namespace w {
namespace {
std::thread loopThread;
QObject* inbox = nullptr;
bool up = false, closing = false;
struct Call : QEvent {
    std::function<void()> f;
    explicit Call(std::function<void()> g) : QEvent(static_cast<QEvent::Type>(QEvent::User + 5)), f(std::move(g)) {}
};
struct Inbox : QObject {
    bool event(QEvent* e) override {
        if (e->type() != static_cast<QEvent::Type>(QEvent::User + 5)) return QObject::event(e);
        static_cast<Call*>(e)->f();
        return true;
    }
};
void post(int, std::function<void()> f) { QCoreApplication::postEvent(inbox, new Call(std::move(f))); }
void openLoops(int, uint64_t) {
    setenv("QT_NO_GLIB", "1", 1);
    loopThread = std::thread([] {
        static int argc = 1;
        static char name[] = "sim";
        static char* argv[] = {name, nullptr};
        {
            QCoreApplication* app;
            {
                sim::NoPoints np;
                app = new QCoreApplication(argc, argv);
                inbox = new Inbox();
            }
            up = true;
            app->exec();
            sim::NoPoints np;
            delete inbox;
            delete app;
        }
    });
    while (!up) sim::sleep_ns(10000);
}
void later(int n) {   // after everything which is posted already, and what that posts
    QCoreApplication::postEvent(inbox, new Call([n] {
        if (n > 0 || !closing) later(n - 1);
        else QCoreApplication::quit();
    }), Qt::LowEventPriority - 1000);
}
void closeLoops() {
    post(0, [] { later(20); });
    closing = true;   // the loop may go now: nobody is inside postEvent()
    loopThread.join();
}
std::shared_ptr<hsmcpp::IHsmEventDispatcher> mk(size_t cache, int) { return hsmcpp::HsmEventDispatcherQt::create(cache); }
}  // namespace
Backend backend = {"Qt", mk, false, nullptr, true, openLoops, post, closeLoops, 2500000, 0, true, 0, true};
}
