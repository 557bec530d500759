// GLib main loops for the dispatchers of a run, each on a thread of its own. Which dispatcher lives on which context depends on the
// seed: all on the default context, the first on the default and the others on contexts of their own, or all on their own.
#pragma once
#include <glib.h>
#include <thread>
#include <vector>
#include "world.h"
namespace w {
struct Loop {
    GMainContext* ctx = nullptr;
    GMainLoop* loop = nullptr;
    std::thread th;
    bool up = false;
};
static std::vector<Loop*> loops;
static std::vector<int> loopOf;
static int pipeCap = 0;
static void openLoops(int n, uint64_t seed) {
    sim::pipe_cap = (seed >> 11) % 3 ? 0 : pipeCap;
    int mode = (int)((seed >> 7) % 3);
    for (int i = 0; i < n; i++) {
        if (mode == 0 && i > 0) {
            loopOf.push_back(0);
            continue;
        }
        Loop* l = new Loop();
        l->ctx = mode == 2 || i > 0 ? g_main_context_new() : g_main_context_ref(g_main_context_default());
        l->loop = g_main_loop_new(l->ctx, FALSE);
        loopOf.push_back((int)loops.size());
        loops.push_back(l);
        bool own = mode == 2 || i > 0, td = own && ((seed >> 9) & 1);
        l->th = std::thread([l, td] {
            if (td) g_main_context_push_thread_default(l->ctx);
            l->up = true;
            g_main_loop_run(l->loop);
            if (td) g_main_context_pop_thread_default(l->ctx);
        });
        while (!l->up) sim::sleep_ns(10000);
    }
}
static gboolean runPosted(gpointer f) {
    (*static_cast<std::function<void()>*>(f))();
    return G_SOURCE_REMOVE;
}
static void postTo(Loop* l, int prio, std::function<void()> f) {
    GSource* s = g_idle_source_new();
    g_source_set_priority(s, prio);
    g_source_set_callback(s, runPosted, new std::function<void()>(std::move(f)), [](gpointer p) { delete static_cast<std::function<void()>*>(p); });
    g_source_attach(s, l->ctx);
    g_source_unref(s);
}
static void post(int d, std::function<void()> f) { postTo(loops[loopOf[d]], G_PRIORITY_DEFAULT, std::move(f)); }
static void closeLoops() {
    for (auto* l : loops) postTo(l, G_PRIORITY_LOW + 100, [l] { g_main_loop_quit(l->loop); });   // after everything else
    for (auto* l : loops) {
        l->th.join();
        g_main_loop_unref(l->loop);
        g_main_context_unref(l->ctx);
        delete l;
    }
}
}
