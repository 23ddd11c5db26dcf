// Whole-system scenarios: RouDi and applications as simulated processes; publish/subscribe oracles.
#include "sys.h"
#include <algorithm>

namespace sim
{
Sys g_sys;

const char* tag_for(std::initializer_list<const char*> props, const char* oracle)
{
    static std::string t[8];
    static int k;
    const char* p = *props.begin();
    for (auto* q : props)
        if (target(q))
            p = q;
    std::string& s = t[k++ % 8];
    s = std::string(p) + ":" + oracle;
    return s.c_str();
}
uint32_t pick(uint32_t lo, uint32_t hi) { return lo + sim_choose(hi - lo + 1); }

void sys_init()
{
    static ctl::Ctl block;
    g_sharedBlock = &block;
    memset(g_sharedBlock, 0, sizeof(ctl::Ctl));
    g_sys = Sys{};
    C().small = 64;
    C().rot = static_cast<int>(sim_choose(3));
    C().large = 16;
    C().monitoring = 1;
    C().killDelayMs = 2000;
}
void start_roudi()
{
    C().roudiUp = 0;
    g_sys.roudi = spawn_proc("roudi", ctl::ROUDI, {});
}
Proc* start_app(int n, int role)
{
    if (!C().app[n].name[0])
        snprintf(C().app[n].name, sizeof(C().app[n].name), "app%d", n);
    C().app[n].up = C().app[n].done = C().app[n].leave = C().app[n].gone = 0;
    if (C().nApps <= n)
        C().nApps = n + 1;
    Proc* p = spawn_proc(C().app[n].name, role, {n});
    if (g_sys.apps.size() <= static_cast<size_t>(n))
        g_sys.apps.resize(static_cast<size_t>(n) + 1, nullptr);
    g_sys.apps[static_cast<size_t>(n)] = p;
    return p;
}
ctl::Ep& add_ep(int kind, int app, int svc)
{
    if (C().nEps >= ctl::MAXE)
        sim_fail("*:ctl", "too many endpoints");
    ctl::Ep& e = C().ep[C().nEps];
    C().nEps = C().nEps + 1;
    e.kind = kind;
    e.app = app;
    e.svc = svc;
    e.queue = 4;
    e.onCreate = 1;
    e.words = 4;
    e.hold = 2;
    e.pause = 20;
    e.count = 8;
    e.inC = sim_choose(3) == 2;
    return e;
}
void must(const std::function<bool()>& cond, uint64_t timeoutNs, const char* tag, const std::string& what)
{
    if (!wait_until(cond, timeoutNs, 5 * MS))
        sim_fail(tag, "%s did not happen within %lu ms", what.c_str(), static_cast<unsigned long>(timeoutNs / MS));
}
void query_pools()
{
    C().poolReq = C().poolReq + 1;
    must([] { return C().poolAck == C().poolReq; }, 20 * SEC, "*:inspect", "answer of the daemon's inspection thread");
}
void check_pools_full(const char* tag, const char* when)
{
    // releasing may need discovery rounds of the daemon
    for (int i = 0;; ++i)
    {
        query_pools();
        bool full = true;
        for (int k = 0; k < C().nPools; ++k)
            full = full && C().pools[k].used == 0;
        if (full || i > 20)
        {
            C().poolCount = 1;
            query_pools();
            C().poolCount = 0;
            for (int k = 0; k < C().nPools; ++k)
                if (C().pools[k].used + C().pools[k].got != C().pools[k].n)
                    sim_fail(target("P18") ? "P18:count" : tag, "%lu of %lu chunks of %lu bytes are reported to be in use %s, but %lu could be allocated", static_cast<unsigned long>(C().pools[k].used),
                             static_cast<unsigned long>(C().pools[k].n), static_cast<unsigned long>(C().pools[k].size), when, static_cast<unsigned long>(C().pools[k].got));
        }
        if (full)
            return;
        if (i > 20)
            for (int k = 0; k < C().nPools; ++k)
                if (C().pools[k].used)
                    sim_fail(tag, "%lu of %lu chunks of %lu bytes are still in use %s", static_cast<unsigned long>(C().pools[k].used), static_cast<unsigned long>(C().pools[k].n),
                             static_cast<unsigned long>(C().pools[k].size), when);
        sim_sleep(100 * MS);
    }
}
bool app_alive(size_t i) { return g_sys.apps[i] && g_sys.apps[i]->alive; }

void finish_apps(const char* tag)
{
    C().phase = 4;
    for (size_t i = 0; i < g_sys.apps.size(); ++i)
        if (g_sys.apps[i])
            must([i] { return !app_alive(i); }, 30 * SEC, tag, std::string("orderly end of ") + g_sys.apps[i]->name);
}
void finish_roudi(const char* tag)
{
    if (!g_sys.roudi->alive)
        return;
    send_signal(g_sys.roudi, SIGTERM);
    must([] { return !g_sys.roudi->alive; }, 60 * SEC, tag, "orderly end of the daemon");
    if (g_sys.roudi->end != ProcEnd::RETURNED)
        sim_fail(tag, "the daemon did not end normally");
}

// ------------------------------------------------------------------------------------------------ oracles
// A chunk that is loaned is held by nobody else; a chunk that is read is not written
void check_address_ownership()
{
    struct Cell
    {
        int writer{-1};
        std::map<int, int> readers; // endpoint -> count
    };
    std::map<int64_t, Cell> cells;
    for (auto& e : g_hist)
    {
        switch (e.type)
        {
        case ctl::LOAN:
        {
            Cell& c = cells[e.c];
            if (c.writer >= 0)
                sim_fail(tag_for({"P05", "P01"}, "double"), "endpoint %ld was given a chunk that endpoint %d had loaned and neither sent nor released", static_cast<long>(e.a), c.writer);
            for (auto& r : c.readers)
                if (r.second > 0)
                    sim_fail(tag_for({"P01", "P05"}, "reuse"), "endpoint %ld was given a chunk for writing that endpoint %d is reading", static_cast<long>(e.a), r.first);
            c.writer = static_cast<int>(e.a);
            break;
        }
        case ctl::SEND_INV:
        case ctl::LOAN_REL:
            cells[e.c].writer = -1;
            break;
        case ctl::TAKE_RET:
        {
            Cell& c = cells[e.c];
            if (c.writer >= 0)
                sim_fail(tag_for({"P01", "P05"}, "early"), "endpoint %ld received a chunk that endpoint %d is still writing", static_cast<long>(e.a), c.writer);
            c.readers[static_cast<int>(e.a)]++;
            break;
        }
        case ctl::TAKE_REL:
            cells[e.c].readers[static_cast<int>(e.a)]--;
            break;
        case ctl::EP_DEAD:
            for (auto& c : cells)
            {
                if (c.second.writer == static_cast<int>(e.a))
                    c.second.writer = -1;
                c.second.readers.erase(static_cast<int>(e.a));
            }
            break;
        default:
            break;
        }
    }
}

namespace
{
struct Send
{
    uint64_t inv{0}, ret{~0ULL}, tinv{0}, tret{~0ULL};
};
struct Take
{
    int pub;
    int64_t seq;
    uint64_t inv, ret;
};
struct PubH
{
    std::vector<Send> sends;
    std::vector<uint64_t> offerInv, offerRet, stopInv, stopRet;
    uint64_t born{0}, gone{~0ULL};
    bool dead{false};
};
struct SubH
{
    std::vector<Take> takes;
    std::vector<uint64_t> subInv, unsubInv, subRet;
    std::vector<std::pair<uint64_t, bool>> missed;
    uint64_t born{0}, gone{~0ULL}, subscribed{~0ULL}, tSubscribed{~0ULL};
    bool dead{false};
};

bool compatible(const ctl::Ep& p, const ctl::Ep& s)
{
    if (p.svc != s.svc || p.typed != s.typed)
        return p.svc == s.svc && p.typed == s.typed;
    if (s.block && !p.block)
        return false;
    if (s.needHist && p.history == 0)
        return false;
    return true;
}

void check_pubsub()
{
    std::map<int, PubH> pubs;
    std::map<int, SubH> subs;
    std::map<int, uint64_t> lastInv;
    for (auto& e : g_hist)
    {
        int a = static_cast<int>(e.a);
        switch (e.type)
        {
        case ctl::PUB_NEW:
            pubs[a].born = e.seq;
            if (e.b)
            {
                pubs[a].offerInv.push_back(e.seq);
                pubs[a].offerRet.push_back(e.seq);
            }
            break;
        case ctl::EP_DEAD:
            if (pubs.count(a))
            {
                pubs[a].gone = e.seq;
                pubs[a].dead = true;
            }
            if (subs.count(a))
            {
                subs[a].gone = e.seq;
                subs[a].dead = true;
            }
            break;
        case ctl::PUB_GONE:
            pubs[a].gone = e.seq;
            break;
        case ctl::SEND_INV:
        {
            Send s;
            s.inv = e.seq;
            s.tinv = e.time;
            pubs[a].sends.push_back(s);
            break;
        }
        case ctl::SEND_RET:
            pubs[a].sends[static_cast<size_t>(e.b)].ret = e.seq;
            pubs[a].sends[static_cast<size_t>(e.b)].tret = e.time;
            break;
        case ctl::OFFER_INV:
            pubs[a].offerInv.push_back(e.seq);
            break;
        case ctl::OFFER_RET:
            pubs[a].offerRet.push_back(e.seq);
            break;
        case ctl::STOP_INV:
            pubs[a].stopInv.push_back(e.seq);
            break;
        case ctl::STOP_RET:
            pubs[a].stopRet.push_back(e.seq);
            break;
        case ctl::SUB_NEW:
            subs[a].born = e.seq;
            if (e.b)
                subs[a].subInv.push_back(e.seq);
            break;
        case ctl::SUB_GONE:
            subs[a].gone = e.seq;
            break;
        case ctl::SUB_INV:
            subs[a].subInv.push_back(e.seq);
            break;
        case ctl::UNSUB_INV:
            subs[a].unsubInv.push_back(e.seq);
            break;
        case ctl::SUB_STATE:
            if (e.b == 2 && subs[a].subscribed == ~0ULL) // SubscribeState::SUBSCRIBED
            {
                subs[a].subscribed = e.seq;
                subs[a].tSubscribed = e.time;
            }
            break;
        case ctl::TAKE_INV:
            lastInv[a] = e.seq;
            break;
        case ctl::TAKE_RET:
            subs[a].takes.push_back({static_cast<int>(e.b >> 32), e.b & 0xffffffff, lastInv[a], e.seq});
            break;
        case ctl::MISSED:
            subs[a].missed.push_back({e.seq, e.b != 0});
            break;
        default:
            break;
        }
    }
    bool stale = g_res->staleLoads != 0;
    for (auto& sp : subs)
    {
        int si = sp.first;
        const ctl::Ep& sc = C().ep[si];
        SubH& s = sp.second;
        bool anyLoss = false, anyToggle = !s.unsubInv.empty();
        uint64_t lossInv = 0; // newest definite loss: its SEND_INV
        std::map<int, std::vector<const Take*>> byPub;
        for (auto& t : s.takes)
        {
            if (!pubs.count(t.pub) || t.seq >= static_cast<int64_t>(pubs[t.pub].sends.size()))
                sim_fail("P02:invented", "subscriber %d received message %ld of endpoint %d that was never sent", si, static_cast<long>(t.seq), t.pub);
            byPub[t.pub].push_back(&t);
        }
        // pushes other publishers may add when they connect (history)
        int64_t extra = 0;
        bool steadyAll = true;
        for (auto& pp : pubs)
            if (compatible(C().ep[pp.first], sc))
            {
                extra += std::min(C().ep[pp.first].history, sc.history);
                if (!pp.second.stopInv.empty() || pp.second.dead || s.missed.empty() || pp.second.gone < s.missed.back().first)
                    steadyAll = false;
            }
        if (anyToggle || s.dead)
            steadyAll = false;
        int64_t mostPushes = extra;
        for (auto& pp : pubs)
            if (compatible(C().ep[pp.first], sc))
                mostPushes += static_cast<int64_t>(pp.second.sends.size());
        for (auto& pp : pubs)
        {
            int pi = pp.first;
            PubH& p = pp.second;
            const ctl::Ep& pc = C().ep[pi];
            auto& tk = byPub[pi];
            if (!compatible(pc, sc))
            {
                if (!tk.empty())
                    sim_fail(tag_for({"P08", "P02"}, "incompatible"), "subscriber %d received message %ld of publisher %d although they must not be connected", si,
                             static_cast<long>(tk[0]->seq), pi);
                continue;
            }
            bool steady = p.stopInv.empty() && s.unsubInv.empty();
            int64_t hist = std::min(pc.history, sc.history);
            // order, duplicates
            for (size_t i = 1; i < tk.size(); ++i)
            {
                if (tk[i]->seq > tk[i - 1]->seq)
                    continue;
                // a new connection gets the history, and what is being sent while it is made
                bool reconnect = false, inFlight = false;
                uint64_t from = p.sends[static_cast<size_t>(tk[i - 1]->seq)].inv, to = tk[i]->ret;
                uint64_t sent = p.sends[static_cast<size_t>(tk[i]->seq)].ret;
                for (auto x : s.subInv)
                    if (!s.unsubInv.empty() && x > s.unsubInv[0] && x > from && x < to)
                    {
                        reconnect = true;
                        inFlight = inFlight || sent > x;
                    }
                for (auto x : p.offerInv)
                    if (!p.stopInv.empty() && x > p.stopInv[0] && x > from && x < to)
                    {
                        reconnect = true;
                        inFlight = inFlight || sent > x;
                    }
                if (!reconnect || (hist == 0 && !inFlight))
                    sim_fail(tag_for({"P02", "P03", "P04"}, tk[i]->seq == tk[i - 1]->seq ? "twice" : "order"), "subscriber %d received message %ld of publisher %d after message %ld", si, static_cast<long>(tk[i]->seq),
                             pi, static_cast<long>(tk[i - 1]->seq));
            }
            // nothing is delivered that was sent before the subscription, except for history
            if (!s.subInv.empty() && !stale)
            {
                int64_t before = 0; // definitely sent before the first subscription
                for (auto& x : p.sends)
                    before += x.ret < s.subInv[0];
                if (!tk.empty() && tk[0]->seq < before - hist)
                    sim_fail(tag_for({"P03", "P02"}, "toomuch"), "subscriber %d (history request %d) received message %ld of publisher %d (history %d), but %ld were already sent before it subscribed", si,
                             sc.history, static_cast<long>(tk[0]->seq), pi, pc.history, static_cast<long>(before));
            }
            if (!steady)
                continue;
            // from here on: one connection
            // the connection is established at the latest: first received sample, or 3 s after both sides are ready
            int64_t firstDue = -1;
            const char* why = "";
            uint64_t ready = ~0ULL;
            if (s.subscribed != ~0ULL && !p.offerRet.empty())
            {
                uint64_t tOffer = g_hist[p.offerRet[0]].time;
                ready = std::max(s.tSubscribed, tOffer) + 3 * SEC;
            }
            for (size_t i = 0; i < p.sends.size(); ++i)
                if (p.sends[i].tinv > ready)
                {
                    firstDue = static_cast<int64_t>(i);
                    why = "connected for 3 s";
                    break;
                }
            if (!tk.empty() && (firstDue < 0 || tk[0]->seq < firstDue))
            {
                firstDue = tk[0]->seq;
                why = "older one received";
                // history that does not fit into a queue that must not overflow is left out
                if (sc.block && extra > 0 && mostPushes > sc.queue)
                    while (firstDue < static_cast<int64_t>(p.sends.size()) && p.sends[static_cast<size_t>(firstDue)].inv < tk[0]->ret)
                        ++firstDue;
            }
            // history part
            if (hist > 0 && sc.queue >= mostPushes && s.subInv.size() == 1 && !stale)
            {
                int64_t lo = 0, hi = 0;
                for (auto& x : p.sends)
                    lo += x.ret < std::max(s.subInv[0], p.offerInv.empty() ? 0 : p.offerInv[0]);
                uint64_t lim = tk.empty() ? s.gone : tk[0]->ret;
                for (auto& x : p.sends)
                    hi += x.inv < lim;
                if (tk.empty())
                {
                    if (lo > 0 && !s.dead && !p.dead && p.gone >= s.gone && ready < g_hist.back().time)
                        sim_fail("P03:history", "subscriber %d (history request %d) received nothing from publisher %d although it had sent %ld messages before", si, sc.history, pi,
                                 static_cast<long>(lo));
                }
                else
                {
                    int64_t a = tk[0]->seq;
                    if (a > std::max<int64_t>(0, hi - hist) || a < std::max<int64_t>(0, lo - hist))
                        sim_fail("P03:history", "subscriber %d (history request %d, publisher %d keeps %d) starts with message %ld, but had to start with one of %ld..%ld", si, sc.history, pi,
                                 pc.history, static_cast<long>(a), static_cast<long>(std::max<int64_t>(0, lo - hist)), static_cast<long>(std::max<int64_t>(0, hi - hist)));
                }
            }
            if (firstDue < 0)
                continue;
            // losses
            size_t k = 0;
            // a reader that died has not seen what was still queued; a writer that died has not finished its last send
            size_t nDue = s.dead ? (tk.empty() ? 0 : static_cast<size_t>(tk.back()->seq)) : p.sends.size();
            while (nDue > 0 && p.dead && p.sends[nDue - 1].ret == ~0ULL)
                --nDue;
            for (size_t m = static_cast<size_t>(firstDue); m < nDue; ++m)
            {
                while (k < tk.size() && tk[k]->seq < static_cast<int64_t>(m))
                    ++k;
                if (k < tk.size() && tk[k]->seq == static_cast<int64_t>(m))
                    continue;
                anyLoss = true;
                uint64_t displaced = p.sends[m].inv; // not before this: as many newer ones as fit into the queue were sent
                if (extra == 0)
                {
                    std::vector<uint64_t> inv;
                    for (auto& qq : pubs)
                        if (compatible(C().ep[qq.first], sc))
                            for (size_t i = 0; i < qq.second.sends.size(); ++i)
                                if (qq.first == pi ? i > m : qq.second.sends[i].ret > p.sends[m].inv)
                                    inv.push_back(qq.second.sends[i].inv);
                    std::sort(inv.begin(), inv.end());
                    if (static_cast<int>(inv.size()) >= sc.queue)
                        displaced = std::max(displaced, inv[static_cast<size_t>(sc.queue) - 1]);
                }
                lossInv = std::max(lossInv, displaced);
                if (pc.block && sc.block)
                    sim_fail(tag_for({"P04", "P02"}, "lost"), "message %lu of blocking publisher %d never reached blocking subscriber %d (%s)", m, pi, si, why);
                if (stale)
                    continue;
                uint64_t until = k < tk.size() ? tk[k]->ret : s.gone;
                int64_t newer = extra;
                for (auto& qq : pubs)
                {
                    if (!compatible(C().ep[qq.first], sc))
                        continue;
                    for (size_t i = 0; i < qq.second.sends.size(); ++i)
                    {
                        if (qq.first == pi && i <= m)
                            continue;
                        auto& x = qq.second.sends[i];
                        if (x.ret < p.sends[m].inv || x.inv > until)
                            continue;
                        ++newer;
                    }
                }
                if (newer < sc.queue)
                    sim_fail(tag_for({"P02", "P03"}, "lost"), "message %lu of publisher %d never reached subscriber %d (%s): at most %ld newer messages had been sent when a newer one was taken, the queue holds %d", m, pi,
                             si, why, static_cast<long>(newer), sc.queue);
            }
        }
        if (steadyAll && anyLoss && !stale)
        {
            bool told = false;
            for (auto& m : s.missed)
                told = told || (m.second && m.first > lossInv);
            if (!told)
                sim_fail("P02:silent", "subscriber %d lost samples by overflow, but hasMissedData did not say so after the last of them had been sent", si);
        }
        // hasMissedData is true although nothing was lost
        if (steadyAll && s.subscribed != ~0ULL && !stale)
        {
            size_t total = 0;
            for (auto& pp : pubs)
                if (compatible(C().ep[pp.first], sc))
                    total += pp.second.sends.size();
            for (auto& m : s.missed)
                if (m.second && s.takes.size() == total)
                    sim_fail("P02:falsemiss", "subscriber %d was told that it missed data although it received everything", si);
        }
    }
}

// ------------------------------------------------------------------------------------------------ scenario: pubsub
void c_pubsub()
{
    sys_init();
    int mode = target("P04") ? 4 : target("P03") ? 3 : target("P05") ? 5 : 0;
    C().mode = mode;
    C().monitoring = sim_choose(4) != 3;
    int nApps = static_cast<int>(pick(1, 3));
    int nSvc = static_cast<int>(pick(1, 2));
    int nPub = static_cast<int>(pick(1, 3));
    int nSub = static_cast<int>(pick(1, 3));
    bool toggles = mode != 4 && sim_choose(3) == 2;
    int allBlock = mode == 4 ? 1 : static_cast<int>(sim_choose(5)) == 4;
    int words = sim_choose(3) == 2 ? 60 : 4;
    int typed = sim_choose(3) == 2;
    int count = static_cast<int>(pick(3, mode == 3 ? 6 : 16));
    int pause = sim_choose(4) == 3 ? 200 : static_cast<int>(pick(0, 30));
    if (allBlock)
        pause = static_cast<int>(pick(0, 3)); // blocked publishers spin
    bool lateTest = sim_choose(3) == 2;
    // a few samples, and a subscriber that takes none of them but asks all the time whether some were lost
    bool ask = target("P02") && !allBlock && sim_choose(5) == 4;
    if (ask)
    {
        pause = 0;
        count = static_cast<int>(pick(2, 6));
        toggles = lateTest = false;
        nPub = nSvc = 1;
        nSub = static_cast<int>(pick(1, 2));
        g_k.stalePermille = 0;
    }
    for (int i = 0; i < nPub; ++i)
    {
        auto& e = add_ep(1, static_cast<int>(pick(0, static_cast<uint32_t>(nApps - 1))), static_cast<int>(pick(0, static_cast<uint32_t>(nSvc - 1))));
        e.history = mode == 3 ? static_cast<int>(pick(1, 4)) : static_cast<int>(sim_choose(3) == 2 ? pick(1, 4) : 0);
        e.block = allBlock || sim_choose(5) == 4;
        e.onCreate = sim_choose(4) != 3;
        e.toggles = toggles ? static_cast<int>(pick(0, 4)) : 0;
        e.count = count;
        e.burst = static_cast<int>(sim_choose(10));
        e.words = words;
        e.pause = pause;
        e.typed = typed;
        e.user = sim_choose(2);
        e.late = lateTest ? static_cast<int>(sim_choose(1000)) : 0;
        e.keep = ask;
        if (ask)
        {
            e.history = e.block = 0;
            e.onCreate = 1;
        }
    }
    for (int i = 0; i < nSub; ++i)
    {
        auto& e = add_ep(2, static_cast<int>(pick(0, static_cast<uint32_t>(nApps - 1))), static_cast<int>(pick(0, static_cast<uint32_t>(nSvc - 1))));
        e.history = mode == 3 ? static_cast<int>(pick(1, 6)) : static_cast<int>(sim_choose(3) == 2 ? pick(1, 4) : 0);
        e.queue = mode == 3 ? 32 : static_cast<int>(pick(1, 6));
        e.block = allBlock || (sim_choose(8) == 7);
        e.needHist = sim_choose(6) == 5;
        e.onCreate = sim_choose(4) != 3;
        e.toggles = toggles ? static_cast<int>(pick(0, 4)) : 0;
        e.hold = static_cast<int>(pick(0, 5));
        e.pause = sim_choose(3) == 2 ? (allBlock ? 5 : pause * 4 + 20) : pause;
        e.typed = typed;
        e.late = lateTest || mode == 3 ? static_cast<int>(sim_choose(1000)) : 0;
        e.keep = ask;
        if (ask)
        {
            e.history = e.block = e.needHist = 0;
            e.queue = static_cast<int>(pick(1, static_cast<uint32_t>(count)));
            e.onCreate = 1;
        }
    }
    // enough memory: pub loans 4, history, queues, held
    C().small = words > 10 ? 24 : 0;
    int need = 8;
    for (int i = 0; i < C().nEps; ++i)
        need += C().ep[i].kind == 1 ? 6 + C().ep[i].history : C().ep[i].queue + 9;
    C().small = need;
    C().large = words > 10 ? need : 0;
    if (mode == 5 && sim_choose(2))
    {
        C().small = static_cast<int>(pick(3, 12));
        C().large = words > 10 ? static_cast<int>(pick(2, 8)) : 0;
    }
    bool ample = C().small == need;
    bool early = sim_choose(4) == 3;
    if (!early)
        start_roudi();
    for (int a = 0; a < nApps; ++a)
        start_app(a, ctl::PUBSUB);
    if (early)
    {
        sim_sleep(pick(1, 500) * MS);
        start_roudi();
    }
    for (int a = 0; a < nApps; ++a)
        must([a] { return C().app[a].up != 0; }, 60 * SEC, "P14:register", std::string("registration of ") + C().app[a].name);
    for (int i = 0; i < C().nEps; ++i)
        if (C().ep[i].kind == 1)
            must([i] { return C().ep[i].got != 0; }, 200 * SEC, "P04:stuck", "end of all sends of publisher " + std::to_string(i));
    sim_sleep(200 * MS);
    C().phase = 1;
    // the last subscriptions are made (and their histories delivered) before the queues are emptied for good
    wait_until(
        [] {
            for (int i = 0; i < C().nEps; ++i)
                if (C().ep[i].kind == 2 && (!C().ep[i].exists || (C().ep[i].wants && C().ep[i].state != 2)))
                    return false;
            return true;
        },
        10 * SEC,
        20 * MS);
    sim_sleep(sim_choose(3) == 2 ? 4 * SEC : 400 * MS);
    C().phase = 2;
    for (int i = 0; i < C().nEps; ++i)
        if (C().ep[i].kind == 2)
            must([i] { return C().ep[i].lost != 0; }, 60 * SEC, "P02:drain", "emptying of the queue of subscriber " + std::to_string(i));
    // conservation while samples are held: nothing but loans, histories, last chunks and held samples is in use
    C().phase = 3;
    for (int a = 0; a < nApps; ++a)
        must([a] { return C().app[a].done >= 3; }, 60 * SEC, "P14:end", std::string("clean-up of ") + C().app[a].name);
    check_address_ownership();
    for (auto& h : g_hist)
        if (h.type == ctl::LOAN_FAIL && ample)
            sim_fail("P05:refused", "publisher %ld got no chunk (error %ld) although the pool is larger than all that can be in use", static_cast<long>(h.a), static_cast<long>(h.b));
    check_pubsub();
    check_pools_full("P05:leak", "although every endpoint is gone");
    finish_apps("P14:end");
    finish_roudi("P14:end");
}
// ------------------------------------------------------------------------------------------------ scenario: crash
int g_inflight; // library calls a process was inside of when it was killed
void on_end(Proc* p)
{
    if (p->end != ProcEnd::KILLED && p->end != ProcEnd::ABORTED)
        return;
    for (size_t a = 0; a < g_sys.apps.size(); ++a)
        if (g_sys.apps[a] == p)
            for (int i = 0; i < C().nEps; ++i)
                if (C().ep[i].app == static_cast<int>(a))
                {
                    sim_hist(ctl::EP_DEAD, i, 0, 0, 0);
                    g_inflight += C().ep[i].inop;
                    C().ep[i].inop = 0;
                    C().ep[i].exists = 0;
                }
}
bool on_abort(Proc* p, const char* why)
{
    (void)why;
    if (p->ownerDeadSeen)
        sim_fail("P06:lockdeath", "%s terminated itself because a killed application had held a lock in shared memory: %s", p->name.c_str(), p->lastLog.c_str());
    return false;
}
const char* retag_crash(const char* t)
{
    // somebody hangs, and an application was killed inside of a library call
    const char* what = strchr(t, ':');
    for (const char* h : {":livelock", ":deadlock", ":stuck", ":drain", ":end", ":reregister", ":inspect", ":register"})
        if (g_inflight && what && !strcmp(what, h))
            return "P06:hang-inflight";
    return t;
}
void add_random_ep(int kind, int app, int nSvc, bool block, int pause)
{
    auto& e = add_ep(kind, app, static_cast<int>(pick(0, static_cast<uint32_t>(nSvc - 1))));
    e.history = static_cast<int>(sim_choose(2) ? pick(1, 4) : 0);
    e.block = block || sim_choose(8) == 7;
    e.onCreate = sim_choose(4) != 3;
    e.pause = pause;
    e.late = sim_choose(3) == 2 ? static_cast<int>(sim_choose(500)) : 0;
    if (kind == 1)
    {
        e.count = static_cast<int>(pick(4, 20));
        e.user = sim_choose(2);
    }
    else
    {
        e.queue = static_cast<int>(pick(1, 6));
        e.hold = static_cast<int>(pick(0, 5));
    }
}
void c_crash()
{
    sys_init();
    g_inflight = 0;
    g_onEnd = on_end;
    g_onAbort = on_abort;
    g_retag = retag_crash;
    C().monitoring = sim_choose(4) != 3;
    int nApps = static_cast<int>(pick(2, 3));
    int nSvc = static_cast<int>(pick(1, 2));
    bool block = sim_choose(3) == 2;
    int pause = block ? static_cast<int>(pick(0, 3)) : static_cast<int>(pick(0, 30));
    for (int a = 0; a < nApps; ++a)
        for (int k = static_cast<int>(pick(1, 2)); k > 0; --k)
            add_random_ep(static_cast<int>(pick(1, 2)), a, nSvc, block, pause);
    int firstNew = C().nEps;
    C().small = 120;
    C().large = 0;
    start_roudi();
    for (int a = 0; a < nApps; ++a)
        start_app(a, ctl::PUBSUB);
    int victims = static_cast<int>(pick(1, static_cast<uint32_t>(nApps - 1)));
    bool early = sim_choose(6) == 5;
    if (sim_param("idle", 0))
        early = false;
    if (early)
        g_sys.apps[0]->crashAtTick = pick(1, 30000);
    for (int a = early ? 1 : 0; a < nApps; ++a)
        must([a] { return C().app[a].up != 0; }, 60 * SEC, tag_for({"P06"}, "register"), std::string("registration of ") + C().app[a].name);
    for (int v = early ? 1 : 0; v < victims; ++v)
    {
        sim_sleep(pick(0, 600) * MS);
        if (sim_param("idle", 0) || sim_choose(2)) // between two library calls
        {
            auto idle = [v] {
                for (int i = 0; i < C().nEps; ++i)
                    if (C().ep[i].app == v && C().ep[i].inop)
                        return false;
                return true;
            };
            if (wait_until(idle, 2 * SEC, 37000) && app_alive(static_cast<size_t>(v)))
            {
                g_res->crashes++;
                end_proc(g_sys.apps[static_cast<size_t>(v)], ProcEnd::KILLED);
                continue;
            }
        }
        g_sys.apps[static_cast<size_t>(v)]->crashAtTick = g_sys.apps[static_cast<size_t>(v)]->ticks + pick(0, 3000);
    }
    bool restart = !C().monitoring || sim_choose(4) != 3; // without monitoring only a restart tells the daemon
    for (int v = 0; v < victims; ++v)
    {
        Proc* p = g_sys.apps[static_cast<size_t>(v)];
        // (a process that does not get there is idle: kill it there)
        if (!wait_until([p] { return !p->alive; }, pick(1, 2000) * MS, 5 * MS))
        {
            p->crashAtTick = ~0ULL;
            g_res->crashes++;
            end_proc(p, ProcEnd::KILLED);
        }
    }
    sim_sleep(pick(0, 1) ? pick(0, 300) * MS : pick(0, 3000) * MS);
    if (restart)
        for (int v = 0; v < victims; ++v)
        {
            int a = C().nApps;
            strcpy(C().app[a].name, C().app[v].name);
            for (int k = static_cast<int>(pick(1, 2)); k > 0; --k)
                add_random_ep(static_cast<int>(pick(1, 2)), a, nSvc, block, pause);
            start_app(a, ctl::PUBSUB);
            must([a] { return C().app[a].up != 0; }, 30 * SEC, "P06:reregister", std::string("registration of the restarted ") + C().app[a].name);
        }
    for (int i = 0; i < C().nEps; ++i)
        if (C().ep[i].kind == 1 && app_alive(static_cast<size_t>(C().ep[i].app)))
            must([i] { return C().ep[i].got != 0; }, 100 * SEC, tag_for({"P06", "P04"}, "stuck"), "end of all sends of publisher " + std::to_string(i) + " after a peer was killed");
    sim_sleep(4 * SEC);
    if (!g_sys.roudi->alive)
        sim_fail("P06:daemon", "the daemon ended after an application was killed");
    // everything the dead ones had is gone: the survivors and the restarted ones are connected with each other as usual
    C().phase = 1;
    sim_sleep(400 * MS);
    C().phase = 2;
    for (int i = 0; i < C().nEps; ++i)
        if (C().ep[i].kind == 2 && app_alive(static_cast<size_t>(C().ep[i].app)))
            must([i] { return C().ep[i].lost != 0; }, 60 * SEC, tag_for({"P06", "P02"}, "drain"), "emptying of the queue of subscriber " + std::to_string(i));
    for (int i = 0; i < C().nEps; ++i)
    {
        ctl::Ep& e = C().ep[i];
        if (e.kind != 1 || !app_alive(static_cast<size_t>(e.app)))
            continue;
        bool peer = false;
        for (int j = 0; j < C().nEps; ++j)
            peer = peer || (C().ep[j].kind == 2 && app_alive(static_cast<size_t>(C().ep[j].app)) && C().ep[j].wants && compatible(e, C().ep[j]));
        peer = peer && e.wants;
        if ((e.peers != 0) != peer)
            sim_fail(tag_for({"P06", "P08"}, "peers"), "publisher %d %s a subscriber, but of the living ones %s is connected to it", i, e.peers ? "sees" : "does not see", peer ? "one" : "none");
    }
    C().phase = 3;
    for (int a = 0; a < C().nApps; ++a)
        if (app_alive(static_cast<size_t>(a)))
            must([a] { return C().app[a].done >= 3; }, 60 * SEC, tag_for({"P06", "P14"}, "end"), std::string("clean-up of ") + C().app[a].name);
    check_address_ownership();
    check_pubsub();
    {
        for (int i = 0;; ++i)
        {
            query_pools();
            if (C().pools[0].used == 0)
                break;
            if (i > 30)
                sim_fail(static_cast<int>(C().pools[0].used) <= 2 * g_inflight ? "P06:leak-inflight" : "P06:leak",
                         "%lu chunks are still in use although the owners are dead or gave everything back (%d library calls were interrupted by the kill)",
                         static_cast<unsigned long>(C().pools[0].used), g_inflight);
            sim_sleep(100 * MS);
        }
    }
    (void)firstNew;
    finish_apps(tag_for({"P06", "P14"}, "end"));
    finish_roudi(tag_for({"P06", "P14"}, "end"));
}
void conf_sys() { knobs_system(); }
RegScn r2({"crash", "sys", c_crash, conf_sys});
RegScn r1({"pubsub", "sys", c_pubsub, conf_sys});
} // namespace
} // namespace sim
extern "C" uint64_t sim_phys(const void* p) { return sim::phys(p); }
