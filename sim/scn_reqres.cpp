// Requests and responses between clients and servers.
#include "sys.h"
#include <algorithm>
#include <set>

namespace sim
{
namespace
{
constexpr int64_t INC = 100000;
bool compat(const ctl::Ep& s, const ctl::Ep& c)
{
    return s.svc == c.svc && !(!(c.block & 1) && (s.block & 2)) && !(!(s.block & 1) && (c.block & 2));
}
struct Push
{
    uint64_t inv{0}, ret{~0ULL};
    int res{-1};
    int state{0};
    int server{-1};
    bool taken{false};
};
void check_reqres(bool stable)
{
    using Key = int64_t; // client << 32 | number
    std::map<Key, Push> req, rsp;
    std::map<int, std::vector<std::pair<Key, uint64_t>>> takes;  // server -> (request, when)
    std::map<int, std::vector<std::pair<Key, uint64_t>>> ctakes; // client -> (request answered, when)
    std::map<int, int64_t> lastSeq;                              // client -> newest request seen by any server
    std::map<int, int64_t> inc;
    std::map<int, bool> told;
    for (auto& h : g_hist)
    {
        int a = static_cast<int>(h.a);
        Key k = h.b;
        switch (h.type)
        {
        case ctl::SUB_NEW:
            inc[a] = h.b;
            break;
        case ctl::REQ_INV:
            k = static_cast<Key>(static_cast<uint64_t>(a) << 32) | h.b;
            req[k].inv = h.seq;
            req[k].state = static_cast<int>(h.d);
            break;
        case ctl::REQ_RET:
            k = static_cast<Key>(static_cast<uint64_t>(a) << 32) | h.b;
            req[k].ret = h.seq;
            req[k].res = static_cast<int>(h.c);
            break;
        case ctl::RTAKE_RET:
        {
            int cl = static_cast<int>(k >> 32);
            int64_t n = k & 0xffffffff;
            if (!req.count(k))
                sim_fail("P09:invented", "server %d received request %ld of endpoint %d that was never sent", a, static_cast<long>(n), cl);
            if (!compat(C().ep[a], C().ep[cl]))
                sim_fail(tag_for({"P09", "P08"}, "incompatible"), "server %d received a request of client %d, but they must not be connected", a, cl);
            if (req[k].taken)
                sim_fail("P09:twice", "request %ld of client %d was delivered twice", static_cast<long>(n), cl);
            req[k].taken = true;
            if (lastSeq.count(cl) && lastSeq[cl] >= n)
                sim_fail("P09:order", "request %ld of client %d was delivered after request %ld", static_cast<long>(n), cl, static_cast<long>(lastSeq[cl]));
            lastSeq[cl] = n;
            takes[a].push_back({k, h.seq});
            break;
        }
        case ctl::RSP_INV:
            if (rsp.count(k))
                sim_fail("*:harness", "answered twice");
            rsp[k].inv = h.seq;
            rsp[k].server = a;
            break;
        case ctl::RSP_RET:
            rsp[k].ret = h.seq;
            rsp[k].res = static_cast<int>(h.c);
            break;
        case ctl::CTAKE_RET:
        {
            int cl = static_cast<int>(k >> 32);
            int64_t n = k & 0xffffffff;
            if (!rsp.count(k) || rsp[k].server != static_cast<int>(h.c))
                sim_fail("P09:invented", "client %d received a response of server %ld to request %ld of client %d that was never sent", a, static_cast<long>(h.c), static_cast<long>(n), cl);
            if (cl != a)
                sim_fail("P09:wrong", "client %d received the response to request %ld of client %d", a, static_cast<long>(n), cl);
            if (n / INC != inc[a])
                sim_fail("P09:wrong", "client %d received a response to request %ld of an earlier client that no longer exists (now life %ld)", a, static_cast<long>(n),
                         static_cast<long>(inc[a]));
            if (rsp[k].taken)
                sim_fail("P09:twice", "the response to request %ld of client %d was delivered twice", static_cast<long>(n), cl);
            rsp[k].taken = true;
            int64_t id = static_cast<int64_t>(a) * 7919 + n * 3 - 50000;
            if (h.d != id)
                sim_fail("P09:seqid", "the response to request %ld of client %d carries sequence id %ld instead of %ld", static_cast<long>(n), cl, static_cast<long>(h.d), static_cast<long>(id));
            ctakes[a].push_back({k, h.seq});
            break;
        }
        case ctl::CMISSED:
            if (h.b)
                told[a] = true;
            break;
        default:
            break;
        }
    }
    if (!stable)
        return;
    std::map<int, int> lost, undecided;
    for (auto& p : req)
    {
        int cl = static_cast<int>(p.first >> 32);
        long n = static_cast<long>(p.first & 0xffffffff);
        Push& q = p.second;
        const ctl::Ep& c = C().ep[cl];
        int srv = -1;
        for (int i = 0; i < C().nEps; ++i)
            if (C().ep[i].kind == 4 && compat(C().ep[i], c))
                srv = i;
        if (srv < 0)
        {
            if (q.res == 0)
                sim_fail("P09:nowhere", "client %d sent request %ld without an error, but no server is compatible with it", cl, n);
            continue;
        }
        if (q.res > 0 && q.state == 2)
            sim_fail("P09:refused", "client %d saw itself connected to server %d, but sending request %ld failed with %d", cl, srv, n, q.res - 1);
        if (q.res > 0 && q.taken)
            sim_fail("P09:told", "request %ld of client %d was delivered although its sender was told that it failed (%d)", n, cl, q.res - 1);
        if (q.res != 0 || q.taken)
            continue;
        // lost: by overflow only
        uint64_t until = ~0ULL;
        for (auto& t : takes[srv])
            if (t.first > p.first && (t.first >> 32) == cl)
            {
                until = t.second;
                break;
            }
        int others = 0;
        for (auto& o : req)
            if (o.first != p.first && o.second.res != -1 && o.second.ret > q.inv && o.second.inv < until && C().ep[o.first >> 32].svc == c.svc)
                ++others;
        const ctl::Ep& s = C().ep[srv];
        if ((s.block & 2) || others < s.queue)
            sim_fail("P09:lost", "request %ld of client %d never reached server %d (queue capacity %d, %s; at most %d other requests were sent before a newer one was taken)", n, cl, srv, s.queue,
                     (s.block & 2) ? "blocks" : "overflows", others);
        lost[srv]++;
    }
    for (auto& p : rsp)
    {
        int cl = static_cast<int>(p.first >> 32);
        long n = static_cast<long>(p.first & 0xffffffff);
        Push& q = p.second;
        const ctl::Ep& c = C().ep[cl];
        if (q.res > 0)
            sim_fail("P09:rspfail", "sending the response to request %ld of the connected client %d failed with %d", n, cl, q.res - 1);
        if (q.taken || q.res != 0)
            continue;
        uint64_t until = ~0ULL;
        for (auto& t : ctakes[cl])
            if (rsp[t.first].inv > q.ret)
            {
                until = t.second;
                break;
            }
        int others = 0;
        for (auto& o : rsp)
            if (o.first != p.first && (o.first >> 32) == cl && o.second.ret > q.inv && o.second.inv < until)
                ++others;
        if ((c.block & 2) || others < c.queue)
            sim_fail("P09:lost", "the response to request %ld never reached client %d (queue capacity %d, %s; at most %d other responses were sent to it before a newer one was taken)", n, cl, c.queue,
                     (c.block & 2) ? "blocks" : "overflows", others);
        lost[cl]++;
    }
    for (int i = 0; i < C().nEps; ++i)
        if (told[i] != (lost[i] != 0))
            sim_fail("P09:missed", "%s %d lost %d messages by overflow, but it was told that it %s", C().ep[i].kind == 3 ? "client" : "server", i, lost[i], told[i] ? "missed some" : "missed none");
}
void add_client(int app, int svc, int policy, int pause, bool churn)
{
    auto& e = add_ep(3, app, svc);
    e.block = policy == 1 ? 1 : policy == 2 ? 2 + static_cast<int>(sim_choose(2)) : policy == 3 ? static_cast<int>(sim_choose(4)) : static_cast<int>(sim_choose(2));
    e.queue = static_cast<int>(pick(1, 4));
    e.hold = static_cast<int>(pick(0, 2));
    e.typed = sim_choose(3) == 2;
    e.words = sim_choose(2) ? 8 : 2;
    e.count = static_cast<int>(pick(3, 20));
    e.burst = static_cast<int>(sim_choose(8));
    e.pause = pause;
    e.toggles = churn ? static_cast<int>(pick(0, 10)) : 0;
    e.onCreate = !churn || sim_choose(4) != 3;
    e.late = sim_choose(3) == 2 ? static_cast<int>(sim_choose(300)) : 0;
}
void add_server(int app, int svc, int policy, int pause, bool churn)
{
    auto& e = add_ep(4, app, svc);
    e.block = policy == 1 ? 2 : policy == 2 ? 1 : policy == 3 ? static_cast<int>(sim_choose(4)) : static_cast<int>(sim_choose(2));
    e.queue = static_cast<int>(pick(1, 8));
    e.typed = sim_choose(3) == 2;
    e.words = sim_choose(2) ? 8 : 2;
    e.pause = pause;
    e.toggles = churn ? static_cast<int>(pick(0, 10)) : 0;
    e.onCreate = !churn || sim_choose(4) != 3;
    e.late = sim_choose(3) == 2 ? static_cast<int>(sim_choose(300)) : 0;
}
void on_end(Proc* p)
{
    if (p->end != ProcEnd::KILLED && p->end != ProcEnd::ABORTED)
        return;
    for (size_t a = 0; a < g_sys.apps.size(); ++a)
        if (g_sys.apps[a] == p)
            for (int i = 0; i < C().nEps; ++i)
                if (C().ep[i].app == static_cast<int>(a))
                {
                    sim_hist(ctl::EP_DEAD, i, 0, 0, 0);
                    C().ep[i].exists = 0;
                }
}
void c_reqres()
{
    sys_init();
    g_onEnd = on_end;
    int mode = static_cast<int>(sim_choose(3)); // 0 stable, 1 changing, 2 somebody is killed
    bool churn = mode == 1 || (mode == 2 && sim_choose(2));
    int policy = static_cast<int>(sim_choose(3)); // 1 servers' queues block, 2 clients' queues block
    int pause = policy ? static_cast<int>(pick(0, 3)) : static_cast<int>(pick(0, 20));
    int spause = sim_choose(3) == 2 ? (policy ? 5 : pause * 3 + 10) : pause / 2;
    int nApps = static_cast<int>(pick(mode == 2 ? 2 : 1, 3));
    int nSvc = static_cast<int>(pick(1, 2));
    C().small = 200;
    C().large = 200;
    auto app = [nApps] { return static_cast<int>(pick(0, static_cast<uint32_t>(nApps - 1))); };
    for (int s = 0; s < nSvc; ++s)
        add_server(app(), s, policy, spause, churn);
    for (int n = static_cast<int>(pick(1, 4)); n > 0; --n)
        add_client(app(), static_cast<int>(pick(0, static_cast<uint32_t>(nSvc - 1))), policy, pause, churn);
    start_roudi();
    for (int a = 0; a < nApps; ++a)
        start_app(a, ctl::REQRES);
    for (int a = 0; a < nApps; ++a)
        must([a] { return C().app[a].up != 0; }, 60 * SEC, tag_for({"P09", "P14"}, "register"), std::string("registration of ") + C().app[a].name);
    if (mode == 2)
    {
        sim_sleep(pick(0, 500) * MS);
        auto idle = [] {
            for (int i = 0; i < C().nEps; ++i)
                if (C().ep[i].app == 0 && C().ep[i].inop)
                    return false;
            return true;
        };
        if (wait_until(idle, 5 * SEC, 53000))
        {
            g_res->crashes++;
            end_proc(g_sys.apps[0], ProcEnd::KILLED);
            sim_sleep(pick(0, 1) ? pick(0, 100) * MS : pick(0, 2500) * MS);
            int b = C().nApps;
            strcpy(C().app[b].name, C().app[0].name);
            int n = C().nEps;
            for (int i = 0; i < n; ++i)
                if (C().ep[i].app == 0)
                {
                    if (C().ep[i].kind == 3)
                        add_client(b, C().ep[i].svc, policy, pause, churn);
                    else
                        add_server(b, C().ep[i].svc, policy, spause, churn);
                }
            start_app(b, ctl::REQRES);
            must([b] { return C().app[b].up != 0; }, 30 * SEC, tag_for({"P09", "P06"}, "register"), "registration of the restarted application");
        }
    }
    auto settled = [](int kind, int level, const char* what) {
        for (int i = 0; i < C().nEps; ++i)
            if (C().ep[i].kind == kind && app_alive(static_cast<size_t>(C().ep[i].app)))
                must([i, level] { return C().ep[i].settled >= level; }, 100 * SEC, tag_for({"P09", "P04"}, "stuck"), std::string(what) + std::to_string(i));
    };
    settled(3, 1, "end of the requests of client ");
    C().phase = 1;
    settled(4, 1, "end of the run of server ");
    C().phase = 2;
    settled(4, 2, "handling of the last request by server ");
    sim_sleep(200 * MS);
    C().phase = 3;
    settled(3, 3, "handling of the last response by client ");
    settled(4, 3, "end of server ");
    // nobody has more than one request or response on loan, and the pools are large
    for (auto& h : g_hist)
        if (h.type == ctl::LOAN_FAIL)
            sim_fail(tag_for({"P09", "P05"}, "loan"), "%s %ld, which has nothing on loan, gets nothing to write to", C().ep[h.a].kind == 3 ? "client" : "server", static_cast<long>(h.a));
    check_reqres(mode == 0);
    // every message was handled; what is left is the last one of each sender, which it keeps for reuse
    int alive = 0;
    for (int i = 0; i < C().nEps; ++i)
        alive += C().ep[i].exists != 0;
    for (int k = 0;; ++k)
    {
        query_pools();
        int used = 0;
        for (int j = 0; j < C().nPools; ++j)
            used += static_cast<int>(C().pools[j].used);
        if (used <= alive)
            break;
        if (k > 20)
            sim_fail(tag_for({"P09", "P05"}, "leak"), "%d chunks are in use although every message was handled; the %d clients and servers may keep one each", used, alive);
        sim_sleep(100 * MS);
    }
    finish_apps(tag_for({"P09", "P14"}, "end"));
    check_pools_full(tag_for({"P09", "P05"}, "leak"), "although every client and server is gone");
    finish_roudi(tag_for({"P09", "P14"}, "end"));
}
void conf() { knobs_system(); }
RegScn r1({"reqres", "sys", c_reqres, conf});
} // namespace
} // namespace sim
