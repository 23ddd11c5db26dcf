// A producer that waits for a consumer is released by whatever makes waiting pointless, and loses nothing before.
#include "sys.h"

namespace sim
{
namespace
{
const char* const WHAT[] = {"?",
                            "the consumer took its messages",
                            "the consumer disconnected",
                            "the consumer was destroyed",
                            "the consumer's process was killed",
                            "the producer stopped offering or disconnected",
                            "the producer's process was asked to shut down",
                            "the daemon was asked to terminate",
                            "the consumer's process ended"};
void c_blocked()
{
    sys_init();
    int mode = static_cast<int>(sim_choose(3));         // 0 publish/subscribe, 1 requests, 2 responses
    int cause = static_cast<int>(pick(1, 8));
    C().small = 200;
    C().large = 0;
    C().killDelayMs = 30000;
    int capp = cause == 4 || cause == 8 ? 1 : static_cast<int>(sim_choose(2));
    int pause = static_cast<int>(sim_choose(4));
    std::vector<int> prod;
    auto slow = [&](int kind) -> ctl::Ep& {
        auto& e = add_ep(kind, capp, 0);
        e.queue = static_cast<int>(pick(1, 3));
        e.keep = 1;
        e.hold = static_cast<int>(sim_choose(4));
        e.pause = pause;
        return e;
    };
    int n = mode == 2 ? 1 : static_cast<int>(pick(1, 2));
    int count = static_cast<int>(pick(8, 14));
    if (mode == 0)
    {
        slow(2);
        for (int i = 0; i < n; ++i)
        {
            prod.push_back(int(C().nEps));
            auto& e = add_ep(1, 0, 0);
            e.history = static_cast<int>(sim_choose(3));
            e.count = count;
            e.pause = pause;
            e.user = 1;
        }
        if (sim_choose(2))
        {
            auto& e = add_ep(2, cause == 4 || cause == 8 ? 0 : static_cast<int>(sim_choose(2)), 0);
            e.queue = static_cast<int>(pick(1, 4));
            e.keep = 0;
            e.pause = pause;
        }
    }
    else if (mode == 1)
    {
        auto& s = slow(4);
        s.block = 0; // does not answer
        for (int i = 0; i < n; ++i)
        {
            prod.push_back(int(C().nEps));
            auto& e = add_ep(3, 0, 0);
            e.block = 1;
            e.queue = 4;
            e.keep = 0;
            e.count = count;
            e.pause = pause;
            e.user = 1;
        }
    }
    else
    {
        auto& c = slow(3);
        c.block = 0;
        c.count = 8;
        prod.push_back(int(C().nEps));
        auto& e = add_ep(4, 0, 0);
        e.block = 1;
        e.queue = 8;
        e.keep = 0;
        e.pause = pause;
        e.user = 1;
    }
    start_roudi();
    for (int a = 0; a < 2; ++a)
        start_app(a, ctl::BLOCKED);
    for (int a = 0; a < 2; ++a)
        must([a] { return C().app[a].up != 0; }, 60 * SEC, tag_for({"P04", "P14"}, "register"), std::string("registration of ") + C().app[a].name);
    must(
        [] {
            for (int i = 0; i < C().nEps; ++i)
                if (!C().ep[i].exists || ((C().ep[i].kind == 2 || C().ep[i].kind == 3) && !C().ep[i].state))
                    return false;
            return true;
        },
        30 * SEC, tag_for({"P04", "P08"}, "connect"), "connection of everybody");
    sim_sleep(1 * SEC); // every pair
    C().phase = 1;
    // until it is blocked
    uint64_t since = sim_now();
    int sent = -1;
    auto blocked = [&] {
        int s = 0;
        bool in = false;
        for (int p : prod)
        {
            s += C().ep[p].sent;
            in = in || C().ep[p].inop;
        }
        if (s != sent)
        {
            sent = s;
            since = sim_now();
        }
        return in && sim_now() - since > 60 * MS;
    };
    if (!wait_until(blocked, 20 * SEC, 1 * MS))
        sim_fail("P04:lost", "%d messages were sent without waiting for the consumer, which had taken %d and whose queue holds %d", sent, C().ep[0].got, C().ep[0].queue);
    if (sim_choose(2))
        sim_sleep(1000ull * sim_choose(150000));
    int taken = C().ep[0].got;
    C().v[1] = cause == 8 ? capp : 0;
    uint64_t limit = 3 * SEC;
    if (cause == 4)
    {
        limit = 6 * SEC;
        g_res->crashes++;
        end_proc(g_sys.apps[static_cast<size_t>(capp)], ProcEnd::KILLED);
    }
    else if (cause == 7)
    {
        for (auto* a : g_sys.apps)
            a->abortExpected = true; // their requests are not answered any more
        must([] { return C().v[40] != 0; }, 10 * SEC, "P14:start", "installation of the daemon's signal handler");
        send_signal(g_sys.roudi, SIGTERM);
    }
    else
        C().v[0] = cause;
    for (int p : prod)
    {
        int s = C().ep[p].sent;
        if (C().ep[p].inop)
            must([p, s] { return C().ep[p].sent > s; }, limit, "P04:stuck",
                 std::string("return of a blocked ") + (mode == 0 ? "publisher" : mode == 1 ? "client" : "server") + " after " + WHAT[cause]);
    }
    sim_count(WHAT[cause], 1);
    if (cause != 7)
    {
        // the rest can be sent
        for (int p : prod)
            if (mode != 2)
                must([p] { return C().ep[p].settled != 0; }, 20 * SEC, "P04:stuck", std::string("end of the sends after ") + WHAT[cause]);
        int total = mode == 2 ? 8 : n * count;
        if (cause == 1)
            must([total] { return C().ep[0].got >= total; }, 20 * SEC, "P04:lost", "receipt of every message by the consumer that blocked its producers");
        for (int i = 0; i < C().nEps; ++i)
            if (C().ep[i].kind == 2 && !C().ep[i].keep && cause < 9 && cause != 5 && cause != 6)
                must([i, total] { return C().ep[i].got >= total; }, 20 * SEC, "P04:lost", "receipt of every message by a consumer beside the slow one");
    }
    (void)taken;
    C().phase = 4;
    if (cause == 7)
    {
        for (size_t i = 0; i < g_sys.apps.size(); ++i)
            must([i] { return !app_alive(i); }, 60 * SEC, tag_for({"P04", "P14"}, "end"), std::string("end of ") + g_sys.apps[i]->name);
        must([] { return !g_sys.roudi->alive; }, 60 * SEC, tag_for({"P04", "P14"}, "end"), "end of the daemon");
        return;
    }
    finish_apps(tag_for({"P04", "P14"}, "end"));
    check_pools_full(tag_for({"P04", "P05"}, "leak"), "although every endpoint is gone");
    finish_roudi(tag_for({"P04", "P14"}, "end"));
}
void conf() { knobs_system(); }
RegScn r1({"blocked", "sys", c_blocked, conf});
} // namespace
} // namespace sim
