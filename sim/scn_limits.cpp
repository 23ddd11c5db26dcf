// Limits: ports, condition variables, data-plane limits and processes, up to and beyond, again and again.
#include "sys.h"
#include <map>

namespace sim
{
namespace
{
constexpr int KINDS = 5;
const char* const KIND[] = {"publishers", "subscribers", "clients", "servers", "condition variables", "large chunks"};
int g_cap[6];
int g_seq[12];
std::vector<Proc*> g_p;
constexpr uint64_t GRACE = 3 * SEC; // the daemon cleans up periodically

int64_t command(int app, int cmd, int arg, bool wait = true)
{
    C().v[30 + app] = arg;
    int n = g_seq[app] = (g_seq[app] / 16 + 1) * 16 + cmd;
    C().v[10 + app] = n;
    if (!wait)
        return 0;
    must([app, n] { return C().w[10 + app] == n || !app_alive(static_cast<size_t>(app)); }, 120 * SEC, "P17:hang", "end of a sequence of requests");
    if (!app_alive(static_cast<size_t>(app)))
        sim_fail("P17:crash", "program %s ended unexpectedly", C().app[app].name);
    return C().w[30 + app];
}
void wait_cmd(int app)
{
    int n = g_seq[app];
    must([app, n] { return C().w[10 + app] == n || !app_alive(static_cast<size_t>(app)); }, 120 * SEC, "P17:hang", "end of a sequence of requests");
}
std::map<int, uint64_t> g_killed; // app -> time

// counting model over the history
void check_history()
{
    struct Win
    {
        int worker, kind, maxOthers;
    };
    struct Dying
    {
        uint64_t until;
        int kind;
    };
    std::vector<Win> open;
    std::vector<Dying> dying;
    std::map<std::pair<int, int>, int> objs; // (worker, object) -> kind
    int exist[6] = {}, large[64] = {};
    size_t refusals[6] = {};
    auto others = [&](int kind, int worker) {
        int n = exist[kind];
        for (auto& d : dying)
            n += d.kind == kind;
        for (auto& w : open)
            n += w.kind == kind && w.worker != worker;
        return n;
    };
    auto update = [&] {
        for (auto& w : open)
            w.maxOthers = std::max(w.maxOthers, others(w.kind, w.worker));
    };
    auto killed = g_killed;
    for (auto& e : g_hist)
    {
        if (e.type < ctl::LIM_INV || e.type > ctl::LIM_NONE)
            continue;
        for (auto it = killed.begin(); it != killed.end();)
            if (it->second <= e.time)
            {
                for (auto o = objs.begin(); o != objs.end();)
                    if (o->first.first / 4 == it->first)
                    {
                        --exist[o->second];
                        dying.push_back({it->second + 10 * SEC, o->second});
                        o = objs.erase(o);
                    }
                    else
                        ++o;
                for (size_t i = 0; i < open.size();)
                    if (open[i].worker / 4 == it->first)
                    {
                        dying.push_back({it->second + 10 * SEC, open[i].kind});
                        open.erase(open.begin() + static_cast<ptrdiff_t>(i));
                    }
                    else
                        ++i;
                it = killed.erase(it);
            }
            else
                ++it;
        for (size_t i = 0; i < dying.size();)
            if (dying[i].until < e.time)
                dying.erase(dying.begin() + static_cast<ptrdiff_t>(i));
            else
                ++i;
        int worker = static_cast<int>(e.a), kind = static_cast<int>(e.b), no = static_cast<int>(e.c), cap = g_cap[kind];
        auto w = open.begin();
        while (w != open.end() && w->worker != worker)
            ++w;
        switch (e.type)
        {
        case ctl::LIM_INV:
            open.push_back({worker, kind, 0});
            break;
        case ctl::LIM_OK:
            open.erase(w);
            ++exist[kind];
            if (kind < 5)
                objs[{worker, no}] = kind;
            else
                ++large[worker];
            if (exist[kind] > cap)
                sim_fail("P17:beyond", "%d %s were granted, the limit is %d", exist[kind], KIND[kind], cap);
            break;
        case ctl::LIM_REF:
            ++refusals[kind];
            // (nothing orders the release of a chunk by another program before the request: a stale view is legal)
            if (w->maxOthers < cap && !(kind == 5 && g_res->staleLoads))
                sim_fail("P17:refused", "%s: a request was refused although at most %d of %d were in use", KIND[kind], w->maxOthers, cap);
            open.erase(w);
            break;
        case ctl::LIM_NONE:
            open.erase(w);
            break;
        case ctl::LIM_DINV:
            if (kind == 5)
            {
                // (given back at once, but the call takes time)
                --exist[kind];
                open.push_back({worker, kind, 0});
            }
            else if (objs.erase({worker, no}))
            {
                --exist[kind];
                dying.push_back({~0ULL, kind});
            }
            break;
        case ctl::LIM_DRET:
            if (kind == 5)
                open.erase(w);
            else
                for (auto& d : dying)
                    if (d.kind == kind && d.until == ~0ULL)
                    {
                        d.until = e.time + GRACE;
                        break;
                    }
            break;
        }
        update();
    }
    for (int k = 0; k < 6; ++k)
        if (refusals[k])
            sim_count(KIND[k], static_cast<int64_t>(refusals[k]));
}
void fill(int app, int kind, const char* when)
{
    // everybody else has none: exactly the configured number must be granted
    uint64_t until = g_time + GRACE;
    int64_t n = command(app, 1, kind);
    while (n < g_cap[kind] && g_time < until)
    {
        sim_sleep(100 * MS);
        n += command(app, 1, kind);
    }
    if (n != g_cap[kind])
        sim_fail("P17:capacity", "%s: %ld were granted %s, %d are configured", KIND[kind], n, when, g_cap[kind]);
    // the limit, again and again
    for (int k = static_cast<int>(sim_choose(4)); k > 0; --k)
    {
        if (command(app, 4, kind))
            sim_fail("P17:beyond", "%s: more than %d were granted", KIND[kind], g_cap[kind]);
        if (!command(app, 5, kind))
            break;
        uint64_t t = g_time + GRACE;
        while (!command(app, 4, kind))
        {
            if (g_time > t)
                sim_fail("P17:reversible", "%s: refused although one has been given back %lu ms ago", KIND[kind], GRACE / MS);
            sim_sleep(20 * MS);
        }
    }
    command(app, 3, kind);
}
void begin(int apps)
{
    sys_init();
    g_p.clear();
    g_killed.clear();
    for (auto& s : g_seq)
        s = 0;
    C().monitoring = 1;
    C().nApps = apps;
}
void start(int i)
{
    snprintf(C().app[i].name, sizeof(C().app[i].name), "lim%d", i);
    C().v[10 + i] = 0;
    C().w[10 + i] = 0;
    g_seq[i] = 0;
    C().app[i].busy = 0;
    start_app(i, ctl::LIMITS);
}
void c_ports()
{
    int apps = static_cast<int>(pick(2, 4));
    begin(apps);
    C().small = 60;
    C().large = 0;
    start_roudi();
    for (int i = 0; i <= apps; ++i) // the last one is the witness
    {
        start(i);
        if (sim_choose(2))
            must([i] { return C().app[i].up == 1; }, 60 * SEC, "P17:register", "registration");
    }
    for (int i = 0; i <= apps; ++i)
        must([i] { return C().app[i].up == 1; }, 60 * SEC, "P17:register", "registration");
    command(apps, 6, 0);
    // (24 publishers, 6 of them are the daemon's own; the witness has one and a subscriber)
    g_cap[0] = 24 - 6 - 1;
    g_cap[1] = 24 - 1;
    g_cap[2] = 24;
    g_cap[3] = 16;
    g_cap[4] = 8;
    for (int n = static_cast<int>(pick(0, 2)); n > 0; --n)
        fill(static_cast<int>(pick(0, static_cast<uint32_t>(apps - 1))), static_cast<int>(pick(0, KINDS - 1)), "at the beginning");
    command(apps, 6, 0);
    sim_sleep(GRACE);
    int only = static_cast<int>(pick(0, KINDS + 1)); // concentrate on one kind
    if (only >= KINDS)
        only = -1;
    bool kills = sim_choose(3) == 0;
    for (int round = static_cast<int>(pick(1, 3)); round > 0; --round)
    {
        for (int i = 0; i < apps; ++i)
            command(i, 2, static_cast<int>(pick(5, 40) << 8 | static_cast<uint32_t>(only + 1) << 1 | sim_choose(2)), false);
        int victim = kills ? static_cast<int>(pick(0, static_cast<uint32_t>(apps - 1))) : -1;
        if (victim >= 0)
        {
            sim_sleep(pick(0, 1) ? pick(1, 50) * MS : pick(1, 1000) * MS);
            // (only while it is idle)
            if (wait_until([victim] { return C().app[victim].busy == 0 || C().w[10 + victim] == g_seq[victim]; }, 20 * SEC, 10000) && C().app[victim].busy == 0)
            {
                Proc* p = g_sys.apps[static_cast<size_t>(victim)];
                g_killed[victim] = g_time;
                g_res->crashes++;
                end_proc(p, ProcEnd::KILLED);
                sim_count("killed", 1);
            }
            else
                victim = -1;
        }
        if (sim_choose(2))
            command(apps, 6, 0);
        for (int i = 0; i < apps; ++i)
            if (i != victim)
            {
                wait_cmd(i);
                if (!app_alive(static_cast<size_t>(i)))
                    sim_fail("P17:crash", "program %s ended unexpectedly", C().app[i].name);
            }
        if (victim >= 0)
        {
            check_history();
            sim_sleep(12 * SEC); // (the daemon finds out by the missing keep-alive)
            for (int i = 0; i < apps; ++i)
                if (i != victim)
                    command(i, 3, -1);
            sim_sleep(GRACE);
            g_hist.clear();
            g_killed.clear();
            start(victim);
            must([victim] { return C().app[victim].up == 1; }, 60 * SEC, "P17:register", "registration of a program after its predecessor was killed");
        }
    }
    check_history();
    // give everything back, then everything is there again
    for (int i = 0; i < apps; ++i)
        if (sim_choose(4))
            command(i, 3, -1);
        else
        {
            // or leave; the rest is done by the daemon
            if (i == 0)
                command(i, 3, -1);
            else
            {
                C().app[i].leave = 1;
                command(i, 9, -1, false);
                Proc* p = g_sys.apps[static_cast<size_t>(i)];
                must([p] { return !p->alive; }, 30 * SEC, "P17:leave", "orderly end");
            }
        }
    for (int k = 0; k < KINDS; ++k)
        if (k == only || sim_choose(2))
            fill(0, k, "after everything had been given back");
    command(apps, 6, 0);
    for (int i = 0; i <= apps; ++i)
        if (app_alive(static_cast<size_t>(i)))
        {
            command(i, 9, -1, false);
            Proc* p = g_sys.apps[static_cast<size_t>(i)];
            must([p] { return !p->alive; }, 30 * SEC, "P17:leave", "orderly end");
        }
    finish_roudi("P17:leave");
}
void c_data()
{
    int apps = static_cast<int>(pick(1, 3));
    begin(apps);
    C().small = 110 * apps;
    C().large = static_cast<int>(pick(1, 1 + static_cast<uint32_t>(4 * apps)));
    g_cap[5] = C().large;
    start_roudi();
    for (int i = 0; i < apps; ++i)
        start(i);
    for (int i = 0; i < apps; ++i)
        must([i] { return C().app[i].up == 1; }, 60 * SEC, "P17:register", "registration");
    for (int round = static_cast<int>(pick(1, 2)); round > 0; --round)
    {
        for (int i = 0; i < apps; ++i)
            command(i, 7, static_cast<int>(pick(50, 400)), false);
        for (int i = 0; i < apps; ++i)
        {
            wait_cmd(i);
            if (!app_alive(static_cast<size_t>(i)))
                sim_fail("P17:crash", "program %s ended unexpectedly", C().app[i].name);
        }
        check_history();
        g_hist.clear();
        sim_sleep(GRACE);
        check_pools_full("P17:reversible", "after everything had been given back");
    }
    for (int i = 0; i < apps; ++i)
    {
        command(i, 9, -1, false);
        Proc* p = g_sys.apps[static_cast<size_t>(i)];
        must([p] { return !p->alive; }, 30 * SEC, "P17:leave", "orderly end");
    }
    finish_roudi("P17:leave");
}
// more programs than allowed: those beyond the limit wait (or give up), all others work; when one leaves the next comes in
void c_proc()
{
    constexpr int MAX = 10;
    int apps = MAX + static_cast<int>(pick(1, 2));
    begin(apps);
    C().small = 100;
    C().large = 0;
    start_roudi();
    bool burst = sim_choose(2);
    for (int i = 0; i < apps; ++i)
    {
        start(i);
        if (!burst)
            sim_sleep(pick(0, 1) ? 0 : pick(1, 200) * MS);
    }
    auto ups = [apps] {
        int n = 0;
        for (int i = 0; i < apps; ++i)
            n += C().app[i].up == 1 && app_alive(static_cast<size_t>(i));
        return n;
    };
    must([ups] { return ups() == MAX; }, 60 * SEC, "P17:processes", "registration of as many programs as are allowed");
    sim_sleep(pick(1, 4000) * MS);
    int gone = 0;
    while (true)
    {
        int n = ups();
        if (n != std::min(MAX, apps - gone))
            sim_fail("P17:processes", "%d programs are registered, %d are allowed and %d are running", n, MAX, apps - gone);
        int w = static_cast<int>(pick(0, static_cast<uint32_t>(apps - 1)));
        for (int k = 0; k < apps; ++k)
        {
            int i = (w + k) % apps;
            if (C().app[i].up == 1 && app_alive(static_cast<size_t>(i)))
            {
                command(i, 6, 0);
                break;
            }
        }
        if (gone >= apps - MAX + 1)
            break;
        // one leaves or dies
        int v = static_cast<int>(pick(0, static_cast<uint32_t>(apps - 1)));
        while (!(C().app[v].up == 1 && app_alive(static_cast<size_t>(v))))
            v = (v + 1) % apps;
        Proc* p = g_sys.apps[static_cast<size_t>(v)];
        if (sim_choose(2))
        {
            command(v, 9, -1, false);
            must([p] { return !p->alive; }, 30 * SEC, "P17:leave", "orderly end");
        }
        else
        {
            sim_count("killed", 1);
            g_res->crashes++;
            end_proc(p, ProcEnd::KILLED);
        }
        ++gone;
        int want = std::min(MAX, apps - gone);
        must([ups, want] { return ups() == want; }, 30 * SEC, "P17:reversible", "registration of a waiting program after another one has gone");
        sim_count("let in", 1);
    }
    for (int i = 0; i < apps; ++i)
        if (app_alive(static_cast<size_t>(i)))
        {
            command(i, 9, -1, false);
            Proc* p = g_sys.apps[static_cast<size_t>(i)];
            must([p] { return !p->alive; }, 30 * SEC, "P17:leave", "orderly end");
        }
    finish_roudi("P17:leave");
}
RegScn r1({"limports", "sys", c_ports, knobs_system});
RegScn r2({"limdata", "sys", c_data, knobs_system});
RegScn r3({"limproc", "sys", c_proc, knobs_system});
} // namespace
} // namespace sim
