// Events and states reach WaitSets and Listeners; detaching takes effect.
#include "sys.h"

namespace sim
{
namespace
{
const char* retag(const char* tag)
{
    if (C().mode == 1 && C().v[13]) // two threads attached and detached the same subscriber at the same time
        return "P11:attach-race";
    if (C().mode == 1 && C().v[10] && (!strcmp(tag, "*:deadlock") || strstr(tag, ":stuck")))
        return "P11:deadlock-self";
    if (C().mode == 1 && C().v[11] && (!strcmp(tag, "*:deadlock") || strstr(tag, ":stuck")))
        return "P11:deadlock-attach";
    return tag;
}
void common()
{
    sys_init();
    C().small = 300;
    C().large = 0;
    g_k.stallPermille = sim_choose(2) ? 30 + 100 * sim_choose(4) : 0; // per 100000 synchronisation steps
    g_k.stallMax = sim_choose(2) ? 2 * MS : 50 * MS;
}
void up(int nApps)
{
    start_roudi();
    for (int a = 0; a < nApps; ++a)
        start_app(a, ctl::EVENTS);
    for (int a = 0; a < nApps; ++a)
        must([a] { return C().app[a].up != 0; }, 60 * SEC, tag_for({"P10", "P11", "P14"}, "register"), std::string("registration of ") + C().app[a].name);
}
void down()
{
    C().phase = 3;
    finish_apps(tag_for({"P10", "P11", "P14"}, "end"));
    check_pools_full(tag_for({"P10", "P11", "P05"}, "leak"), "although every endpoint is gone");
    finish_roudi(tag_for({"P10", "P11", "P14"}, "end"));
}
bool source(int i) { return C().ep[i].wait != 0; }
bool reached(int i) { return C().ep[i].got >= C().ep[i].sent; }
void all_reached(bool lazy, const char* when)
{
    for (int i = 0; i < C().nEps; ++i)
        if (source(i) && (lazy || !C().ep[i].keep))
        {
            if (!wait_until([i] { return reached(i); }, 3 * SEC, 1 * MS))
            {
                const char* kinds[] = {"?", "?", "subscriber", "client", "server", "user trigger"};
                const char* how[] = {"?", "event of a WaitSet", "state of a WaitSet", "event of a Listener"};
                sim_fail("P10:missed", "source %d (%s, attached as %s) got %d notifications, of which only %d were seen 3 s after the last of them, %s; %s", i, kinds[C().ep[i].kind],
                         how[C().ep[i].wait], C().ep[i].sent, C().ep[i].got, when, C().v[5] ? "the WaitSet's thread is waiting" : "");
            }
        }
}
void c_events()
{
    common();
    C().mode = 0;
    bool toggles = sim_choose(4) == 3;
    C().v[2] = toggles ? static_cast<int>(pick(1, 12)) : 0;
    C().v[3] = static_cast<int>(sim_choose(3) == 2 ? 20 : sim_choose(3));
    C().v[4] = static_cast<int>(sim_choose(2));
    C().v[26] = sim_choose(3) == 2; // the threads wait by the C functions
    int n = static_cast<int>(pick(1, 6)), nApps = 1;
    std::vector<int> feeds;
    // all on one WaitSet, a few notifications at about the same time, and one state that stays true
    bool tight = !toggles && sim_choose(3) == 2;
    if (tight)
        n = static_cast<int>(pick(3, 7));
    int lazy = tight ? static_cast<int>(pick(0, static_cast<uint32_t>(n - 1))) : -1;
    for (int i = 0; i < n; ++i)
    {
        const int kinds[] = {5, 2, 5, 2, 4, 3};
        int kind = kinds[sim_choose(6)];
        auto& e = add_ep(kind, 0, i);
        e.wait = kind == 5 ? (sim_choose(2) ? 1 : 3) : static_cast<int>(pick(1, 3));
        e.count = static_cast<int>(pick(1, kind == 5 ? 12 : 25));
        e.burst = kind == 5 ? static_cast<int>(pick(1, 3)) : 1;
        e.pause = static_cast<int>(sim_choose(4) == 3 ? 30 : sim_choose(4));
        e.keep = e.wait == 2 && kind == 2 && !toggles && sim_choose(3) == 2;
        if (tight)
        {
            if (i == lazy)
                e.kind = kind = 2;
            e.wait = i == lazy ? 2 : kind == 5 ? 1 : static_cast<int>(pick(1, 2));
            e.keep = i == lazy;
            e.burst = kind == 5 ? e.burst : 1;
            e.count = static_cast<int>(pick(1, 3));
            e.pause = static_cast<int>(sim_choose(2));
        }
        // the events of a queue that nobody empties
        e.hold = kind != 5 && e.wait != 2 && !toggles && sim_choose(3) == 2 ? static_cast<int>(pick(1, 4)) : 0;
        if (kind != 5)
            feeds.push_back(i);
    }
    for (int i : feeds)
    {
        int app = static_cast<int>(sim_choose(2));
        nApps = std::max(nApps, app + 1);
        int kind = C().ep[i].kind;
        auto& p = add_ep(kind == 2 ? 1 : kind == 4 ? 3 : 4, app, C().ep[i].svc);
        p.count = C().ep[i].count;
        p.pause = tight ? static_cast<int>(sim_choose(2)) : static_cast<int>(sim_choose(4) == 3 ? 30 : sim_choose(4));
        p.keep = i;
        p.wait = 0;
    }
    up(nApps);
    must([] { return C().v[0] != 0; }, 60 * SEC, tag_for({"P08", "P10"}, "connect"), "connections");
    for (int i = 0; i < C().nEps; ++i)
        if (source(i))
            must([i] { return C().ep[i].settled >= C().ep[i].burst; }, 60 * SEC, "P10:stuck", "end of the work of source " + std::to_string(i));
    must([] { return C().app[0].done >= 1; }, 60 * SEC, "P10:stuck", "end of the triggering threads");
    sim_sleep(300 * MS);
    if (!toggles)
        all_reached(false, "while other sources were left with unread data");
    C().phase = 1;
    all_reached(true, "when all were read");
    C().phase = 2;
    must([] { return C().app[0].done >= 2; }, 20 * SEC, "P10:stuck", "end of waiting");
    down();
}
void c_detach()
{
    common();
    C().mode = 1;
    C().v[3] = static_cast<int>(sim_choose(3));
    C().v[6] = static_cast<int>(pick(1, 2));
    C().v[7] = static_cast<int>(sim_choose(8));
    C().v[8] = static_cast<int>(pick(1, 3));
    C().v[12] = sim_choose(12) == 11;
    C().v[9] = static_cast<int>(pick(5, 40));
    C().v[14] = sim_choose(3) == 2; // mostly subscribers, and much to receive
    C().v[27] = sim_choose(3) == 2; // C subscribers, stalled while they are deinitialised
    g_retag = retag;
    up(2);
    must([] { return C().app[0].done >= 1; }, 60 * SEC, "P11:stuck", "end of attaching and detaching");
    C().phase = 1;
    must([] { return C().app[0].done >= 2; }, 60 * SEC, "P11:stuck", "end of the listeners and their sources");
    C().phase = 2;
    must([] { return C().app[1].done >= 1; }, 20 * SEC, "P11:stuck", "end of the publisher");
    down();
}
void conf() { knobs_system(); }
RegScn r1({"events", "sys", c_events, conf});
RegScn r2({"detach", "sys", c_detach, conf});
} // namespace
} // namespace sim
