// Start-up, restart, shutdown: programs and daemons come, leave and are killed in any order.
#include "sys.h"

namespace sim
{
namespace
{
constexpr int MAXR = 6, MAXA = 12;
struct Rd
{
    Proc* p;
    bool dup; // started while another one was running
};
std::vector<Rd> g_rd;
struct Ap
{
    Proc* p;
    int name;
    bool dup;        // started while another one of the name was running
    uint64_t daemon; // number of daemon changes when it was started
};
std::vector<Ap> g_ap;
uint64_t g_changes; // ends of daemons
int g_cur_rd;       // the daemon that should be running, -1: none
int g_budget;

bool rd_up(int i) { return i >= 0 && g_rd[static_cast<size_t>(i)].p->alive && C().w[i] == 1; }
int new_roudi(bool dup)
{
    int i = static_cast<int>(g_rd.size());
    C().w[i] = 0;
    C().v[40 + i] = 0;
    Proc* p = spawn_proc(dup ? "roudi'" : "roudi", ctl::ROUDI, {i});
    p->abortExpected = dup;
    g_rd.push_back({p, dup});
    --g_budget;
    return i;
}
int owner(int name) // the living program of that name
{
    for (size_t i = 0; i < g_ap.size(); ++i)
        if (g_ap[i].name == name && g_ap[i].p->alive && !g_ap[i].dup)
            return static_cast<int>(i);
    return -1;
}
int new_app(int name, bool dup)
{
    int i = static_cast<int>(g_ap.size());
    snprintf(C().app[i].name, sizeof(C().app[i].name), "n%d", name);
    C().ep[i].hold = sim_choose(6) == 0;
    C().ep[i].count = 0;
    Proc* p = start_app(i, ctl::START);
    p->abortExpected = dup;
    g_ap.push_back({p, name, dup, g_changes});
    --g_budget;
    return i;
}
void kill(Proc* p, const char* why)
{
    if (!p->alive)
        return;
    sim_note("kill %s: %s", p->name.c_str(), why);
    g_res->crashes++;
    end_proc(p, ProcEnd::KILLED);
}
// a program that lost its daemon: it can leave, but it cannot be served any more
void orphan(int i)
{
    Ap& a = g_ap[static_cast<size_t>(i)];
    if (!a.p->alive || a.dup)
        return;
    if (a.p->dgramsIn == 0)
        return; // it has not been registered: it goes on waiting
    a.p->abortExpected = true; // (the shared memory it was told about may be gone)
    C().app[i].leave = 1;
    if (C().app[i].up == 0 || C().app[i].busy || sim_choose(2))
    {
        kill(a.p, "its daemon has gone");
        return;
    }
    Proc* p = a.p;
    // (it may be about to send a request)
    if (!wait_until([p, i] { return !p->alive || (C().app[i].busy && C().app[i].up == 1); }, 15 * SEC, 5 * MS))
        sim_fail("P14:leave-orphan", "program %s does not end within 15 s after its daemon has gone", C().app[i].name);
    kill(a.p, "its daemon has gone");
    sim_count("orphan left", 1);
}
void on_end(Proc* p)
{
    for (auto& r : g_rd)
        if (r.p == p && !r.dup)
            for (auto& a : g_ap)
                if (a.p->dgramsIn)
                    a.p->abortExpected = true;
}
void daemon_gone()
{
    ++g_changes;
    g_cur_rd = -1;
    for (size_t i = 0; i < g_ap.size(); ++i)
        orphan(static_cast<int>(i));
}
bool registered(int i) { return C().app[i].up >= 1; }
bool healthy(int i) { return g_ap[static_cast<size_t>(i)].p->alive && !g_ap[static_cast<size_t>(i)].dup && !C().app[i].leave; }
void roundtrips(const char* when)
{
    if (g_cur_rd < 0 || !rd_up(g_cur_rd))
        return;
    for (size_t k = 0; k < g_ap.size(); ++k)
    {
        int i = static_cast<int>(k);
        if (!healthy(i))
            continue;
        must([i] { return C().app[i].up == 2; }, 30 * SEC, "P14:register", std::string("registration of ") + C().app[i].name + " " + when);
        int want = C().app[i].done + 1;
        C().ep[i].count = want;
        must([i, want] { return C().app[i].done >= want; }, 20 * SEC, "P14:serve", std::string("delivery of a message by ") + C().app[i].name + " " + when);
        sim_count("served", 1);
    }
}
void wait_daemon()
{
    int i = g_cur_rd;
    must([i] { return C().w[i] >= 1; }, 60 * SEC, "P14:daemon", "start of the daemon");
}
void duplicate_ends(Proc* p, const char* what)
{
    must([p] { return !p->alive; }, 30 * SEC, "P14:duplicate", std::string("end of a second ") + what);
    if (p->end != ProcEnd::ABORTED)
        sim_fail("P14:duplicate", "a second %s ran while the first one was there", what);
    sim_count("duplicates refused", 1);
}
void leave(int i, const char* tag)
{
    Proc* p = g_ap[static_cast<size_t>(i)].p;
    C().app[i].leave = 1;
    must([p] { return !p->alive; }, 30 * SEC, tag, std::string("orderly end of ") + C().app[i].name);
    sim_count("left", 1);
}
uint64_t crash_tick(uint64_t base, uint32_t bits) { return base + (1ULL << pick(0, bits)) + sim_choose(1u << pick(0, bits)); }

void stop_daemon()
{
    // those that are registered are told to end; those that ignore it are killed
    Proc* p = g_rd[static_cast<size_t>(g_cur_rd)].p;
    bool handles = C().v[40 + g_cur_rd] != 0; // else the signal ends it as a kill would do
    send_signal(p, SIGTERM);
    for (auto& a : g_ap)
        a.p->abortExpected = true; // (requests are not answered any more)
    must([p] { return !p->alive; }, (static_cast<uint64_t>(C().killDelayMs) + 12000) * MS, "P14:stop", "end of the daemon that was asked to terminate");
    if (p->end != ProcEnd::RETURNED && (handles || p->end != ProcEnd::KILLED))
        sim_fail("P14:stop", "the daemon that was asked to terminate did not end normally");
    sim_count("daemon stopped", 1);
    for (auto& a : g_ap)
        a.p->abortExpected = a.dup || a.p->dgramsIn != 0;
    daemon_gone();
}

void c_start()
{
    sys_init();
    g_onEnd = on_end;
    g_rd.clear();
    g_ap.clear();
    g_changes = 0;
    g_cur_rd = -1;
    g_budget = 9; // program instances; the rest is for the end
    C().small = 40;
    C().large = 0;
    C().monitoring = sim_choose(3) != 2;
    C().killDelayMs = static_cast<int>(pick(0, 1) ? 2000 : pick(50, 1000));
    int names = 2;
    for (int k = static_cast<int>(pick(3, 12)); k > 0 && g_budget >= 2; --k)
    {
        if (sim_choose(3))
            sim_sleep(pick(0, 1) ? pick(0, 30) * MS : pick(0, 1500) * MS);
        int name = static_cast<int>(pick(0, static_cast<uint32_t>(names - 1)));
        int o = owner(name);
        switch (sim_choose(10))
        {
        case 0:
        case 1:
            if (g_cur_rd < 0)
            {
                g_cur_rd = new_roudi(false);
                if (sim_choose(4) == 0)
                {
                    // two at the same time: exactly one stays
                    int j = new_roudi(true);
                    Proc *a = g_rd[static_cast<size_t>(g_cur_rd)].p, *b = g_rd[static_cast<size_t>(j)].p;
                    a->abortExpected = true;
                    must([a, b] { return !a->alive || !b->alive; }, 60 * SEC, "P14:duplicate", "end of one of two daemons");
                    if (!a->alive)
                    {
                        std::swap(a, b);
                        std::swap(g_cur_rd, j);
                        g_rd[static_cast<size_t>(g_cur_rd)].dup = false;
                        g_rd[static_cast<size_t>(j)].dup = true;
                    }
                    if (b->end != ProcEnd::ABORTED)
                        sim_fail("P14:duplicate", "two daemons ran at the same time");
                    a->abortExpected = false;
                    sim_count("two daemons", 1);
                }
                if (sim_choose(2))
                    wait_daemon();
            }
            else
            {
                if (!rd_up(g_cur_rd))
                    wait_daemon();
                duplicate_ends(g_rd[static_cast<size_t>(new_roudi(true))].p, "daemon");
                if (!g_rd[static_cast<size_t>(g_cur_rd)].p->alive)
                    sim_fail("P14:duplicate", "the daemon ended when a second one was started");
                roundtrips("after a second daemon was started");
            }
            break;
        case 2:
        case 3:
        case 4:
            if (o < 0)
            {
                int a = new_app(name, false);
                int q = static_cast<int>(sim_choose(8));
                if (q == 0)
                {
                    Proc* p = g_ap[static_cast<size_t>(a)].p;
                    p->crashAtTick = crash_tick(0, 15);
                    wait_until([p, a] { return !p->alive || registered(a); }, 2 * SEC, 20000);
                    p->crashAtTick = ~0ULL;
                }
                else if (q == 1)
                {
                    // two of the same name at the same time
                    int b = new_app(name, true);
                    Proc *pa = g_ap[static_cast<size_t>(a)].p, *pb = g_ap[static_cast<size_t>(b)].p;
                    pa->abortExpected = true;
                    must([pa, pb] { return !pa->alive || !pb->alive; }, 30 * SEC, "P14:duplicate", "end of one of two programs of the same name");
                    if (!pa->alive)
                    {
                        std::swap(pa, pb);
                        g_ap[static_cast<size_t>(a)].dup = true;
                        g_ap[static_cast<size_t>(b)].dup = false;
                    }
                    if (pb->end != ProcEnd::ABORTED)
                        sim_fail("P14:duplicate", "two programs of the same name ran at the same time");
                    pa->abortExpected = false;
                    sim_count("two of a name", 1);
                }
            }
            else if (sim_choose(2))
            {
                // (the first one must have the name already)
                sim_sleep(50 * MS);
                if (wait_until([o] { return registered(o); }, 100 * MS, MS) && g_ap[static_cast<size_t>(o)].p->alive)
                {
                    int d = new_app(name, true);
                    duplicate_ends(g_ap[static_cast<size_t>(d)].p, "program of the same name");
                    if (!g_ap[static_cast<size_t>(o)].p->alive)
                        sim_fail("P14:duplicate", "program %s ended when a second one was started", C().app[o].name);
                    roundtrips("after a second program of that name was started");
                }
            }
            break;
        case 5:
            if (o >= 0 && C().app[o].up == 2)
            {
                if (sim_choose(5) == 0)
                {
                    // killed while it leaves
                    C().app[o].leave = 1;
                    wait_until([o] { return C().app[o].gone >= 1; }, 5 * SEC, 100000);
                    Proc* p = g_ap[static_cast<size_t>(o)].p;
                    if (p->alive)
                    {
                        p->crashAtTick = crash_tick(p->ticks, 13);
                        must([p] { return !p->alive; }, 30 * SEC, "P14:leave", std::string("orderly end of ") + C().app[o].name);
                    }
                    p->crashAtTick = ~0ULL;
                }
                else
                {
                    if (rd_up(g_cur_rd) && sim_choose(4) == 0)
                    {
                        // the daemon is slow in answering
                        g_rd[static_cast<size_t>(g_cur_rd)].p->frozenUntil = g_time + pick(1, 6000) * MS;
                        sim_count("daemon slow", 1);
                    }
                    leave(o, "P14:leave");
                }
            }
            break;
        case 6:
            if (o >= 0)
            {
                if (wait_until([o] { return !C().app[o].busy; }, 2 * SEC, 100000))
                    kill(g_ap[static_cast<size_t>(o)].p, "at random");
            }
            break;
        case 7:
            if (g_cur_rd >= 0)
            {
                Proc* p = g_rd[static_cast<size_t>(g_cur_rd)].p;
                p->crashAtTick = crash_tick(p->ticks, rd_up(g_cur_rd) ? 14 : 17);
                if (!wait_until([p] { return !p->alive; }, pick(1, 1000) * MS, MS))
                    kill(p, "daemon");
                sim_count("daemon killed", 1);
                daemon_gone();
            }
            break;
        case 8:
            if (g_cur_rd >= 0 && rd_up(g_cur_rd))
                stop_daemon();
            break;
        case 9:
            if (rd_up(g_cur_rd))
                roundtrips("in between");
            break;
        }
    }
    // in the end everything can be started and everything leaves
    for (auto& r : g_rd)
        r.p->crashAtTick = ~0ULL;
    for (auto& a : g_ap)
        a.p->crashAtTick = ~0ULL;
    if (g_cur_rd < 0)
        g_cur_rd = new_roudi(false);
    wait_daemon();
    for (int n = 0; n < names; ++n)
        if (owner(n) < 0)
            new_app(n, false);
    roundtrips("in the end");
    for (size_t i = 0; i < g_ap.size(); ++i)
        if (healthy(static_cast<int>(i)) && sim_choose(3))
            leave(static_cast<int>(i), "P14:leave");
    {
        int r = g_cur_rd;
        must([r] { return C().v[40 + r] != 0; }, 60 * SEC, "P14:daemon", "start of the daemon");
    }
    stop_daemon();
    for (size_t i = 0; i < g_ap.size(); ++i)
        if (g_ap[i].p->alive)
            sim_fail("P14:stop", "program %s is still there although the daemon told it to end", C().app[i].name);
    // (each name was used by a program that ended in an orderly way after the last kill, unless it was killed in the end)
    bool last = false;
    for (int n = 0; n < names; ++n)
    {
        bool r = false;
        for (auto& a : g_ap)
            if (a.name == n && !a.dup)
                r = a.p->end != ProcEnd::RETURNED;
        last = last || r;
    }
    int files = sim_fs_entries("/");
    if (!last && files)
        sim_fail("P14:left", "%d files (sockets, locks, shared memory) are left although daemon and programs ended in an orderly way", files);
    if (!last)
        sim_count("nothing left", 1);
}
// System calls of one party fail: it works, or it ends with an error; the others are not disturbed; later it works.
void c_sysfault()
{
    sys_init();
    g_onEnd = on_end;
    g_rd.clear();
    g_ap.clear();
    g_changes = 0;
    g_cur_rd = -1;
    g_budget = 20;
    C().small = 40;
    C().large = 0;
    C().monitoring = sim_choose(3) != 2;
    C().killDelayMs = 200;
    bool daemonStart = sim_choose(3) == 0, daemonRun = sim_param("daemonrun", 0) && sim_choose(2);
    // (sem_init and pthread_mutex_init cannot fail on Linux)
    const uint64_t real = ~0ULL & ~(1ULL << 20) & ~(1ULL << 31);
    faults_mask(real & (sim_choose(2) ? ~0ULL : 1ULL << sim_choose(40) | 1ULL << sim_choose(40) | 1ULL << sim_choose(40)));
    if (daemonRun && sim_choose(2))
        faults_mask(real & ~(1ULL << 3));
    if (daemonStart)
        for (int k = 0; k < 3; ++k)
        {
            g_cur_rd = new_roudi(false);
            Proc* p = g_rd.back().p;
            p->abortExpected = true;
            faults_proc(p->idx);
            faults_enable(true);
            int i = g_cur_rd;
            must([i, p] { return !p->alive || C().w[i] >= 1; }, 60 * SEC, "P15:daemon-hang", "start or end of a daemon whose system calls fail");
            faults_enable(false);
            if (p->alive)
                break;
            sim_count("daemon gave up", 1);
            if (p->end == ProcEnd::KILLED)
                sim_fail("P15:daemon-end", "the daemon was killed by a failing system call");
            g_cur_rd = -1;
            if (sim_choose(2))
                break;
        }
    if (g_cur_rd < 0)
        g_cur_rd = new_roudi(false);
    g_rd.back().p->abortExpected = false;
    wait_daemon();
    int w = new_app(0, false); // the witness
    C().ep[w].hold = 0;
    roundtrips("at the beginning");
    Proc* d = g_rd[static_cast<size_t>(g_cur_rd)].p;
    for (int k = static_cast<int>(pick(1, 3)); k > 0; --k)
    {
        int v = new_app(1, false);
        C().ep[v].hold = 0;
        Proc* p = g_ap[static_cast<size_t>(v)].p;
        p->abortExpected = true;
        faults_proc(daemonRun ? d->idx : p->idx);
        faults_enable(true);
        C().ep[v].count = 1;
        auto lost = g_res->faults[3]; // sendto
        if (daemonRun && !wait_until([v, p] { return !p->alive || C().app[v].done >= 1; }, 60 * SEC, 5 * MS) && g_res->faults[3] != lost)
            sim_fail("P15:hang-reply", "a program waits for ever for the answer to a request because the daemon could not send it (sendto failed)");
        must([v, p] { return !p->alive || C().app[v].done >= 1; }, 60 * SEC, "P15:hang", daemonRun ? "registration and first message of a program while system calls of the daemon fail" : "registration and first message, or end, of a program whose system calls fail");
        if (p->alive)
        {
            sim_count(daemonRun ? "works: daemon has faults" : "works", 1);
            C().app[v].leave = 1;
        }
        must([p] { return !p->alive; }, 30 * SEC, "P15:leave", "end of a program whose system calls fail");
        if (p->end == ProcEnd::ABORTED)
            sim_count("gave up", 1);
        faults_enable(false);
        if (!d->alive)
            sim_fail("P15:daemon", "the daemon ended because system calls %s failed", daemonRun ? "" : "of a program");
        int want = C().app[w].done + 1;
        C().ep[w].count = want;
        must([w, want] { return C().app[w].done >= want; }, 20 * SEC, "P15:witness", "delivery of a message by a program that has nothing to do with it");
    }
    faults_proc(-1);
    int v = new_app(1, false);
    C().ep[v].hold = 0;
    roundtrips("after the faults");
    leave(v, "P15:leave");
    leave(w, "P15:leave");
    must([] { return C().v[40 + g_cur_rd] != 0; }, 60 * SEC, "P15:leave", "start of the daemon");
    stop_daemon();
    int files = sim_fs_entries("/");
    if (files)
        sim_fail("P15:left", "%d files (sockets, locks, shared memory) are left although daemon and programs ended in an orderly way", files);
}
void conf_fault()
{
    knobs_system();
    Rng r;
    r.seed(g_cfg.seed ^ 0x915);
    g_k.faultPermille = static_cast<uint32_t>(1 + r.below(r.below(2) ? 20 : 300));
    g_k.eintrPermille = r.below(2) ? 0 : 200;
}
RegScn r2({"sysfault", "sys", c_sysfault, conf_fault});
void conf()
{
    knobs_system();
}
RegScn r1({"start", "sys", c_start, conf});
} // namespace
} // namespace sim
