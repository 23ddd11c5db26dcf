// Monitoring: who lives stays, who is dead goes.
#include "sys.h"

namespace sim
{
namespace
{
uint64_t g_deadAt[12];
void c_alive()
{
    sys_init();
    memset(g_deadAt, 0, sizeof(g_deadAt));
    bool mon = sim_choose(6) != 5;
    C().monitoring = mon;
    int n = static_cast<int>(pick(2, 8));
    for (int a = 0; a < n; ++a)
    {
        add_ep(1, a, a);           // publisher of its own service
        add_ep(2, a, (a + 1) % n); // subscriber of the neighbour's
    }
    C().small = 60;
    C().large = 0;
    start_roudi();
    for (int a = 0; a < n; ++a)
        start_app(a, ctl::ALIVE);
    for (int a = 0; a < n; ++a)
        must([a] { return C().app[a].up != 0; }, 60 * SEC, tag_for({"P07", "P14"}, "register"), std::string("registration of ") + C().app[a].name);
    must([n] {
        for (int i = 0; i < 2 * n; ++i)
            if (!C().ep[i].peers)
                return false;
        return true;
    }, 20 * SEC, tag_for({"P07", "P08"}, "connect"), "connection of all endpoints");
    size_t watch = g_hist.size();
    std::vector<uint64_t> freeAt(static_cast<size_t>(n), 0);
    std::vector<bool> dead(static_cast<size_t>(n), false);
    std::vector<bool> clean(static_cast<size_t>(n), false); // was running normally when it died
    uint64_t roudiBusyUntil = 0;
    for (int k = static_cast<int>(pick(3, 14)); k > 0; --k)
    {
        sim_sleep(pick(1, 500) * MS);
        size_t a = pick(0, static_cast<uint32_t>(n - 1));
        switch (sim_choose(8))
        {
        case 0:
        case 1:
        case 2: // slow, but not too slow
            if (!dead[a] && freeAt[a] + 400 * MS < g_time)
            {
                uint64_t d = pick(100, mon ? 1050 : 6000) * MS;
                g_sys.apps[a]->frozenUntil = g_time + d;
                freeAt[a] = g_time + d;
                sim_note("freeze %s for %lu ms", g_sys.apps[a]->name.c_str(), d / MS);
                sim_count("frozen", 1);
            }
            break;
        case 3: // everybody is slow
            for (size_t b = 0; b < static_cast<size_t>(n); ++b)
                if (!dead[b] && freeAt[b] + 400 * MS < g_time)
                {
                    uint64_t d = pick(300, 1050) * MS;
                    g_sys.apps[b]->frozenUntil = g_time + d;
                    freeAt[b] = g_time + d;
                    sim_note("freeze %s for %lu ms", g_sys.apps[b]->name.c_str(), d / MS);
                }
            break;
        case 4: // the daemon is slow
        {
            bool anyDead = false;
            for (bool x : dead)
                anyDead = anyDead || x;
            if (!anyDead)
            {
                g_sys.roudi->frozenUntil = g_time + pick(200, 4000) * MS;
                roudiBusyUntil = g_sys.roudi->frozenUntil;
                sim_note("freeze daemon until %lu", roudiBusyUntil / MS);
                sim_count("daemon frozen", 1);
            }
            break;
        }
        case 5:
            // (set back, it prolongs the waits of the keep-alive thread: sem_timedwait uses the wall clock)
            clock_jump(static_cast<int64_t>(pick(0, 7200)) * 1000000000LL);
            sim_count("clock jump", 1);
            break;
        case 6:
        case 7:
            if (!dead[a] && roudiBusyUntil < g_time)
            {
                // (what a kill inside of a call does is another property)
                if (!wait_until([a] { return C().app[a].busy == 0; }, 3 * SEC, 100000))
                    break;
                dead[a] = true;
                clean[a] = freeAt[a] + 400 * MS < g_time;
                g_deadAt[a] = std::max(g_time, freeAt[a]); // (frozen: it may not have beaten since)
                if (!clean[a])
                    g_deadAt[a] = g_time;
                if (sim_choose(2) && clean[a]) // hangs for ever
                    g_sys.apps[a]->frozenUntil = g_time + 4000 * SEC;
                else
                {
                    g_res->crashes++;
                    end_proc(g_sys.apps[a], ProcEnd::KILLED);
                }
            }
            break;
        }
    }
    sim_sleep(5500 * MS);
    // what the living have seen
    for (size_t k = watch; k < g_hist.size(); ++k)
    {
        auto& e = g_hist[k];
        if (e.type != ctl::PEERS)
            continue;
        size_t a = static_cast<size_t>(C().ep[e.a].app);
        size_t peer = e.a % 2 == 0 ? (a + static_cast<size_t>(n) - 1) % static_cast<size_t>(n) : (a + 1) % static_cast<size_t>(n);
        if (e.b == 0)
        {
            if (!dead[peer] || e.time < g_deadAt[peer])
                sim_fail(tag_for({"P07"}, "evicted"), "endpoint %ld of %s lost its connection to %s, which was alive", static_cast<long>(e.a), C().app[a].name, C().app[peer].name);
            if (!mon)
                sim_fail("P07:evicted", "endpoint %ld of %s lost its connection to %s without monitoring", static_cast<long>(e.a), C().app[a].name, C().app[peer].name);
            if (clean[peer] && e.time < g_deadAt[peer] + 1500 * MS - 450 * MS)
                sim_fail("P07:early", "%s was removed %lu ms after it died, the time-out is 1500 ms", C().app[peer].name, static_cast<unsigned long>((e.time - g_deadAt[peer]) / MS));
        }
        else
            sim_fail("P07:reconnect", "endpoint %ld of %s was disconnected and connected again", static_cast<long>(e.a), C().app[a].name);
    }
    for (size_t a = 0; a < static_cast<size_t>(n); ++a)
    {
        if (dead[a])
            continue;
        // a publisher sees that its subscriber is gone; (a subscriber stays subscribed without a publisher: not visible)
        size_t peer = (a + static_cast<size_t>(n) - 1) % static_cast<size_t>(n);
        bool seen = C().ep[2 * a].peers;
        if (mon && dead[peer] && g_time > g_deadAt[peer] + 5000 * MS && seen)
            sim_fail("P07:stays", "%s died %lu ms ago and is still connected to %s", C().app[peer].name, static_cast<unsigned long>((g_time - g_deadAt[peer]) / MS), C().app[a].name);
        if (!dead[peer] && !seen)
            sim_fail("P07:evicted", "%s and %s live but are not connected any more", C().app[a].name, C().app[peer].name);
    }
    // hanging ones end now
    for (size_t a = 0; a < static_cast<size_t>(n); ++a)
        if (dead[a] && app_alive(a))
            end_proc(g_sys.apps[a], ProcEnd::KILLED);
    C().phase = 1;
    for (size_t a = 0; a < static_cast<size_t>(n); ++a)
        if (!dead[a])
            must([a] { return C().app[a].done >= 1; }, 20 * SEC, "P07:answer", std::string("answer of the daemon to a request of the living ") + C().app[a].name);
    C().phase = 2;
    for (size_t a = 0; a < static_cast<size_t>(n); ++a)
    {
        size_t peer = (a + static_cast<size_t>(n) - 1) % static_cast<size_t>(n);
        if (!dead[a] && !dead[peer])
            must([peer] { return C().ep[2 * peer + 1].lost == 100000; }, 20 * SEC, "P07:delivery", std::string("delivery from ") + C().app[a].name + " to " + C().app[peer].name);
    }
    // a dead one can come back
    if (mon)
        for (size_t a = 0; a < static_cast<size_t>(n) && C().nApps < 11; ++a)
            if (dead[a])
            {
                int b = C().nApps;
                strcpy(C().app[b].name, C().app[a].name);
                start_app(b, ctl::ALIVE);
                must([b] { return C().app[b].up != 0; }, 20 * SEC, tag_for({"P07", "P06"}, "reregister"), std::string("registration of the restarted ") + C().app[b].name);
                break;
            }
    C().phase = 3;
    finish_apps(tag_for({"P07", "P14"}, "end"));
    finish_roudi(tag_for({"P07", "P14"}, "end"));
}
void conf()
{
    knobs_system();
    g_k.stalePermille = 0;
}
RegScn r1({"alive", "sys", c_alive, conf});
} // namespace
} // namespace sim
