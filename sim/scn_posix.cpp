// Scenarios on the operating system wrappers: file locks of several processes (P14), local channels (P16), builders under
// failing system calls (P15).
#include "ctl_posix.h"
#include "sys.h"

namespace sim
{
namespace
{
px::Ctl& X() { return *static_cast<px::Ctl*>(g_sharedBlock); }
void init()
{
    static px::Ctl block;
    g_sharedBlock = &block;
    memset(g_sharedBlock, 0, sizeof(px::Ctl));
}
void wait_ended(std::vector<Proc*>& ps, uint64_t ns, const char* tag, const char* what)
{
    bool ok = wait_until(
        [&] {
            for (auto* p : ps)
                if (p->end == ProcEnd::RUNNING)
                    return false;
            return true;
        },
        ns, 2 * MS);
    if (!ok)
        sim_fail(tag, "%s", what);
    for (auto* p : ps)
        if (p->end != ProcEnd::RETURNED && p->end != ProcEnd::KILLED)
            sim_fail("*:end", "a program did not end normally");
}

void lock_holder_died(Proc* p)
{
    for (int n = 0; n < px::MAXN; ++n)
    {
        if (X().owner[n] == p->idx)
            X().owner[n] = 0;
        if (X().inside[p->idx] >> n & 1)
        {
            X().active[n] = X().active[n] - 1;
            X().epoch[n] = X().epoch[n] + 1;
        }
    }
    X().inside[p->idx] = 0;
}

void c_filelock()
{
    init();
    X().rounds = static_cast<int>(pick(2, 6));
    X().names = sim_choose(3) == 0 ? 2 : 1;
    g_onEnd = lock_holder_died;
    int n = static_cast<int>(pick(2, 4)), kills = static_cast<int>(sim_choose(3));
    std::vector<Proc*> ps;
    for (int i = 0; i < n; ++i)
    {
        ps.push_back(spawn_proc("locker", px::FILELOCK, {i}));
        if (kills > 0 && sim_choose(2) == 0)
        {
            --kills;
            ps.back()->crashAtTick = pick(1, 3000);
        }
    }
    wait_ended(ps, 60 * SEC, "P14:filelock-hang", "processes that take and release file locks do not come to an end");
    // whatever happened, the locks are free now
    for (int k = 0; k < px::MAXN; ++k)
        X().owner[k] = 0;
    X().rounds = 6;
    std::vector<Proc*> last{spawn_proc("last", px::FILELOCK, {99})};
    wait_ended(last, 30 * SEC, "P14:filelock-hang", "a process that takes and releases file locks does not come to an end");
    bool anyKilled = false;
    for (auto* p : ps)
        anyKilled |= p->end == ProcEnd::KILLED;
    if (!anyKilled && sim_fs_entries("/tmp/"))
        sim_fail("P14:filelock-left", "%d lock files are left although all locks were released", sim_fs_entries("/tmp/"));
}

void owner_died(Proc* p)
{
    for (int i = 0; i < 64; ++i)
        if (X().stProc[i] == p->idx && X().st[i])
        {
            if (X().st[i] == 2)
            {
                X().diedHolding = 1;
                X().holder = 0;
            }
            else
                X().mayDied = 1;
            X().st[i] = 0;
        }
}
void c_robust()
{
    init();
    X().robust = sim_choose(4) != 0;
    X().lockType = static_cast<int>(sim_choose(3));
    X().rounds2 = static_cast<int>(pick(2, 10));
    g_onEnd = owner_died;
    int n = static_cast<int>(pick(2, 4)), kills = X().robust ? static_cast<int>(sim_choose(4)) : 0;
    std::vector<Proc*> ps;
    ps.push_back(spawn_proc("founder", px::ROBUST, {0}));
    if (!wait_until([] { return X().ready != 0; }, 30 * SEC, 1 * MS))
        sim_fail("P13:create", "the lock was not created");
    for (int i = 1; i < n; ++i)
    {
        ps.push_back(spawn_proc("locker", px::ROBUST, {i}));
        if (kills > 0 && sim_choose(2) == 0)
        {
            --kills;
            g_res->crashes++;
            ps.back()->crashAtTick = pick(1, 600);
        }
    }
    std::vector<Proc*> others(ps.begin() + 1, ps.end());
    wait_ended(others, 200 * SEC, "P13:mutex-hang", "threads that lock and unlock do not come to an end");
    if (X().robust && sim_choose(3) == 0)
    {
        std::vector<Proc*> last{spawn_proc("last", px::ROBUST, {n})};
        wait_ended(last, 60 * SEC, "P13:mutex-hang", "a thread that locks and unlocks does not come to an end");
    }
    X().ready = 2;
    wait_ended(ps, 200 * SEC, "P13:mutex-hang", "threads that lock and unlock do not come to an end");
}

void chan(int kind, bool recreate)
{
    init();
    X().nClients = static_cast<int>(pick(1, 3));
    X().cap = static_cast<int>(kind == px::UDS ? 10 : pick(1, 10));
    X().msgSize = static_cast<int>(sim_choose(2) == 0 ? pick(60, 200) : 4000);
    X().recreate = recreate;
    X().faults = g_k.faultPermille != 0;
    X().eintr = g_k.eintrPermille != 0;
    X().timedSlackMs = 1000;
    for (int c = 0; c < X().nClients; ++c)
    {
        X().last[c] = -1;
        X().nMsgs[c] = static_cast<int>(pick(1, 24));
    }
    std::vector<Proc*> ps;
    faults_enable(X().faults || X().eintr);
    ps.push_back(spawn_proc("server", px::CHAN_SERVER, {kind}));
    if (!wait_until([] { return X().serverUp != 0; }, 30 * SEC, 1 * MS))
        sim_fail("P16:create", "the channel was not created within 30 s");
    for (int c = 0; c < X().nClients; ++c)
        ps.push_back(spawn_proc("client", px::CHAN_CLIENT, {kind, c}));
    wait_ended(ps, 600 * SEC, "P16:stuck", "sending and receiving over a channel does not come to an end");
    if (sim_fs_entries("/"))
        sim_fail("P15:leak", "%d names are left behind after all channels were closed", sim_fs_entries("/"));
    sim_count("messages", X().okSent);
}
void c_uds() { chan(px::UDS, false); }
void c_uds2() { chan(px::UDS, true); }
void c_mq() { chan(px::MQ, false); }
void c_pipe() { chan(px::PIPE, false); }

void c_builders()
{
    init();
    std::vector<Proc*> ps{spawn_proc("builder", px::BUILDERS, {})};
    wait_ended(ps, 600 * SEC, "P15:hang", "creating objects under failing system calls does not come to an end");
    if (sim_fs_entries("/"))
        sim_fail("P15:leak", "%d names are left behind", sim_fs_entries("/"));
}

void conf()
{
    g_raceTag = "P16:race";
    knobs_component();
    g_k.stalePermille = 0;
    Rng r;
    r.seed(g_cfg.seed ^ 0x913);
    static const uint64_t ec[] = {20, 200, 2000};
    g_k.eventCost = ec[r.below(3)];
    g_k.slackPermille = r.below(2) ? 0 : 200;
    g_k.slackMax = 2000000;
    if (sim_param("faults", 0))
        g_k.faultPermille = static_cast<uint32_t>(r.below(2) ? 20 : 120);
    if (sim_param("eintr", 0) && r.below(2))
        g_k.eintrPermille = static_cast<uint32_t>(r.below(2) ? 50 : 250);
}
void confr()
{
    knobs_component();
    g_raceTag = "P13:race";
    Rng r;
    r.seed(g_cfg.seed ^ 0x915);
    static const uint64_t ec[] = {20, 200, 2000};
    g_k.eventCost = ec[r.below(3)];
}
void confb()
{
    conf();
    Rng r;
    r.seed(g_cfg.seed ^ 0x914);
    g_k.faultPermille = static_cast<uint32_t>(r.below(2) ? 100 : 350);
    g_k.eintrPermille = r.below(2) ? 0 : 200;
}
RegScn r1({"filelock", "comp_posix", c_filelock, conf});
RegScn r2({"uds", "comp_posix", c_uds, conf});
RegScn r3({"udsre", "comp_posix", c_uds2, conf});
RegScn r4({"mq", "comp_posix", c_mq, conf});
RegScn r5({"pipe", "comp_posix", c_pipe, conf});
RegScn r6({"builders", "comp_posix", c_builders, confb});
RegScn r7({"robust", "comp_posix", c_robust, confr});
} // namespace
} // namespace sim
