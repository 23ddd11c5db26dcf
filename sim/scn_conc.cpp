// Scenarios and history oracles for the lock-free containers (P12) and for locks and semaphores (P13).
#include "simint.h"
#include <algorithm>

namespace sim
{
namespace
{
enum
{
    PUSH_INV = 1,
    PUSH_RET = 2,
    POP_INV = 3,
    POP_RET = 4,
    CAP_INV = 5,
    CAP_RET = 6,
    REMOVED = 7,
    DRAIN = 8,
    CONFIG = 9,
    POST_INV = 21,
    POST_RET = 22,
    WAIT_INV = 23,
    WAIT_RET = 24,
};

// does x precede y? In runs without weakly ordered loads real time decides, otherwise happens-before
bool prec(const HistEv* x, const HistEv* y)
{
    if (g_res->staleLoads == 0)
        return x->seq < y->seq;
    return hist_hb(*x, *y);
}

struct ItemRec
{
    const HistEv* pushInv{nullptr};
    const HistEv* pushRet{nullptr};
    const HistEv* remInv{nullptr};
    const HistEv* remRet{nullptr};
    bool rejected{false};
    int removals{0};
};

std::string ev(const HistEv* e)
{
    char b[160];
    snprintf(b, sizeof(b), "#%lu t%d type%d(%ld,%ld,%ld)", static_cast<unsigned long>(e->seq), e->fiber, e->type, static_cast<long>(e->a), static_cast<long>(e->b), static_cast<long>(e->c));
    return b;
}

void check_queue()
{
    const HistEv* cfg = nullptr;
    std::map<int64_t, ItemRec> items;
    std::map<int, const HistEv*> open; // fiber -> last invocation
    struct EmptyRep { const HistEv *inv, *ret; };
    struct FullRep { const HistEv *inv, *ret; int64_t item; bool evict; };
    std::vector<EmptyRep> empties;
    std::vector<FullRep> fulls;
    struct Cap { const HistEv *inv, *ret; int64_t cap; };
    std::vector<Cap> caps;
    int64_t minCap = 0;
    auto removed = [&](int64_t id, const HistEv* inv, const HistEv* ret) {
        auto it = items.find(id);
        if (it == items.end())
            sim_fail("P12:dup", "item %ld came out (%s) but was never pushed", static_cast<long>(id), ev(ret).c_str());
        if (++it->second.removals > 1)
            sim_fail("P12:dup", "item %ld came out twice (second: %s)", static_cast<long>(id), ev(ret).c_str());
        it->second.remInv = inv;
        it->second.remRet = ret;
    };
    for (auto& e : g_hist)
    {
        switch (e.type)
        {
        case CONFIG:
            cfg = &e;
            minCap = e.b;
            break;
        case PUSH_INV:
            open[e.fiber] = &e;
            items[e.a].pushInv = &e;
            break;
        case PUSH_RET:
        {
            auto& it = items[e.a];
            it.pushRet = &e;
            it.rejected = e.b == 1;
            if (e.b != 0)
                fulls.push_back({open[e.fiber], &e, e.a, e.b == 2});
            if (e.b == 2)
                removed(e.c, open[e.fiber], &e);
            break;
        }
        case POP_INV:
            open[e.fiber] = &e;
            break;
        case POP_RET:
            if (e.b)
                removed(e.a, open[e.fiber], &e);
            else
                empties.push_back({open[e.fiber], &e});
            break;
        case CAP_INV:
            open[e.fiber] = &e;
            minCap = std::min(minCap, e.a);
            break;
        case REMOVED:
            removed(e.a, open[e.fiber], &e);
            break;
        case DRAIN:
            removed(e.a, &e, &e);
            break;
        default:
            break;
        }
    }
    if (!cfg)
        return;
    for (auto& i : items)
    {
        if (i.second.rejected && i.second.removals)
            sim_fail("P12:dup", "item %ld was rejected by push but came out", static_cast<long>(i.first));
        if (!i.second.rejected && i.second.removals == 0)
            sim_fail("P12:lost", "item %ld was pushed (%s) and never came out again", static_cast<long>(i.first), i.second.pushRet ? ev(i.second.pushRet).c_str() : "?");
    }
    for (auto& a : items)
        for (auto& b : items)
        {
            if (a.first == b.first || a.second.rejected || b.second.rejected)
                continue;
            if (prec(a.second.pushRet, b.second.pushInv) && prec(b.second.remRet, a.second.remInv))
                sim_fail("P12:fifo", "item %ld was pushed before %ld (%s < %s) but left after it (%s > %s)", static_cast<long>(a.first), static_cast<long>(b.first),
                         ev(a.second.pushRet).c_str(), ev(b.second.pushInv).c_str(), ev(a.second.remInv).c_str(), ev(b.second.remRet).c_str());
        }
    if (g_res->staleLoads)
        return; // with relaxed positions a stale view of the fill level is legal in the C++ memory model
    for (auto& e : empties)
        for (auto& a : items)
            if (!a.second.rejected && prec(a.second.pushRet, e.inv) && prec(e.ret, a.second.remInv))
                sim_fail("P12:empty", "pop %s reported empty although item %ld was in the queue all the time (pushed %s, left %s)", ev(e.ret).c_str(),
                         static_cast<long>(a.first), ev(a.second.pushRet).c_str(), ev(a.second.remInv).c_str());
    for (auto& f : fulls)
    {
        int64_t n = 0;
        for (auto& a : items)
        {
            if (a.second.rejected || a.first == f.item)
                continue;
            if (!prec(a.second.remRet, f.inv) && !prec(f.ret, a.second.pushInv))
                ++n;
        }
        if (n < minCap)
            sim_fail("P12:full", "push %s reported a full queue, but at most %ld items can have been in it (capacity %ld)", ev(f.ret).c_str(), static_cast<long>(n), static_cast<long>(minCap));
    }
}

void check_loffli()
{
    const HistEv* cfg = nullptr;
    struct Hold { const HistEv *popInv{nullptr}, *popRet{nullptr}, *pushInv{nullptr}, *pushRet{nullptr}; };
    std::map<int64_t, std::vector<Hold>> holds;
    std::map<int, const HistEv*> open;
    struct EmptyRep { const HistEv *inv, *ret; };
    std::vector<EmptyRep> empties;
    for (auto& e : g_hist)
        switch (e.type)
        {
        case CONFIG:
            cfg = &e;
            break;
        case POP_INV:
            open[e.fiber] = &e;
            break;
        case POP_RET:
            if (e.b)
            {
                Hold h;
                h.popInv = open[e.fiber];
                h.popRet = &e;
                holds[e.a].push_back(h);
            }
            else
                empties.push_back({open[e.fiber], &e});
            break;
        case PUSH_INV:
            holds[e.a].back().pushInv = &e;
            break;
        case PUSH_RET:
            for (auto& h : holds[e.a])
                if (h.pushInv && h.pushInv->fiber == e.fiber && !h.pushRet)
                    h.pushRet = &e;
            break;
        default:
            break;
        }
    if (!cfg)
        return;
    if (g_res->staleLoads)
        return;
    for (auto& em : empties)
        for (int64_t i = 0; i < cfg->b; ++i)
        {
            bool possible = false;
            for (auto& h : holds[i])
                if (!(h.pushRet && prec(h.pushRet, em.inv)) && !prec(em.ret, h.popInv))
                    possible = true;
            if (!possible)
                sim_fail("P12:empty", "free list reported exhaustion (%s) although index %ld was free all the time", ev(em.ret).c_str(), static_cast<long>(i));
        }
}

void check_sem()
{
    int64_t init = 0, posts = 0, begun = 0, got = 0, left = -1;
    std::map<int, const HistEv*> open;
    struct Rec { const HistEv *inv, *ret; bool got; };
    std::vector<Rec> waits, posts_;
    for (auto& e : g_hist)
        switch (e.type)
        {
        case CONFIG:
            init = e.b;
            break;
        case POST_INV:
            ++begun;
            open[e.fiber] = &e;
            break;
        case WAIT_INV:
            open[e.fiber] = &e;
            break;
        case POST_RET:
            posts += e.a;
            begun -= !e.a;
            posts_.push_back({open[e.fiber], &e, e.a != 0});
            break;
        case WAIT_RET:
            got += e.b;
            if (got > init + begun)
                sim_fail("P13:sem-admit", "semaphore: %ld waits succeeded although there were only %ld initial tokens and %ld posts", static_cast<long>(got), static_cast<long>(init), static_cast<long>(begun));
            waits.push_back({open[e.fiber], &e, e.b != 0});
            break;
        case DRAIN:
            left = e.a;
            break;
        default:
            break;
        }
    if (left < 0)
        return;
    if (init + posts != got + left)
        sim_fail("P13:sem-count", "semaphore: %ld initial + %ld posted tokens, but %ld taken and %ld left", static_cast<long>(init), static_cast<long>(posts), static_cast<long>(got), static_cast<long>(left));
    // a refused or timed-out wait: a token was not available all the time
    for (auto& w : waits)
    {
        if (w.got)
            continue;
        int64_t sure = init, taken = 0;
        for (auto& p : posts_)
            sure += p.got && prec(p.ret, w.inv);
        for (auto& o : waits)
            if (o.got && !prec(w.ret, o.inv))
                ++taken;
        if (sure > taken)
            sim_fail("P13:sem-avail", "wait %s was refused although at least %ld tokens were available throughout", ev(w.ret).c_str(), static_cast<long>(sure - taken));
    }
    // a post is refused only at the maximum
    for (auto& p : posts_)
    {
        if (p.got)
            continue;
        int64_t most = init;
        for (auto& o : posts_)
            most += o.got && !prec(p.ret, o.inv);
        for (auto& w : waits)
            most -= w.got && prec(w.ret, p.inv);
        if (most < 0x7fffffff)
            sim_fail("P13:sem-full", "post %s was refused although the semaphore counted at most %ld", ev(p.ret).c_str(), static_cast<long>(most));
    }
}

int g_role;
void run_role(int role, void (*check)())
{
    g_role = role;
    Proc* p = spawn_proc("main", role, {});
    while (p->alive)
        sim_sleep(1000000);
    if (p->end != ProcEnd::RETURNED)
        sim_fail("*:end", "the program did not end normally");
    if (check)
        check();
}
void conf12()
{
    g_histVc = true;
    g_raceTag = "P12:race";
    knobs_component();
    if (sim_param("stale", -1) >= 0)
        g_k.stalePermille = static_cast<uint32_t>(sim_param("stale", 0));
}
void conf13()
{
    g_histVc = true;
    g_raceTag = "P13:race";
    knobs_component();
    Rng r;
    r.seed(g_cfg.seed ^ 0x77);
    static const uint64_t ec[] = {20, 200, 5000};
    g_k.eventCost = ec[r.below(3)];
    g_k.slackPermille = r.below(3) == 0 ? 0 : 300;
    g_k.slackMax = 5000000;
}
void c_mpmc() { run_role(1, check_queue); }
void c_resz() { run_role(2, check_queue); }
void c_sofi() { run_role(3, check_queue); }
void c_fifo() { run_role(4, check_queue); }
void c_loffli() { run_role(5, check_loffli); }
void c_mutex() { run_role(10, nullptr); }
void c_spin() { run_role(11, nullptr); }
void c_smart() { run_role(12, nullptr); }
void c_usem() { run_role(13, check_sem); }
void c_nsem() { run_role(14, check_sem); }
void c_ssem() { run_role(15, check_sem); }
void c_periodic() { run_role(16, nullptr); }
RegScn r1({"mpmc", "comp_conc", c_mpmc, conf12});
RegScn r2({"mpmc_resize", "comp_conc", c_resz, conf12});
RegScn r3({"sofi", "comp_conc", c_sofi, conf12});
RegScn r4({"fifo", "comp_conc", c_fifo, conf12});
RegScn r5({"loffli", "comp_conc", c_loffli, conf12});
RegScn r10({"mutex", "comp_conc", c_mutex, conf13});
RegScn r11({"spinlock", "comp_conc", c_spin, conf13});
RegScn r12({"smartlock", "comp_conc", c_smart, conf13});
RegScn r13({"usem", "comp_conc", c_usem, conf13});
RegScn r14({"nsem", "comp_conc", c_nsem, conf13});
RegScn r15({"spinsem", "comp_conc", c_ssem, conf13});
RegScn r16({"periodic", "comp_conc", c_periodic, conf13});
} // namespace
} // namespace sim
