// Endpoints that come, go and toggle; service discovery. One thread per endpoint, one searching thread per application.
#include "cbind.h"
#include "sys_common.h"

#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iceoryx_posh/runtime/service_discovery.hpp"

using namespace iox;
using namespace iox::popo;

namespace
{
constexpr uint64_t FINAL = 1000000;
struct Op
{
    ctl::Ep& c;
    explicit Op(ctl::Ep& e)
        : c(e)
    {
        c.inop = 1;
    }
    ~Op() { c.inop = 0; }
};
template <typename P, typename S, typename Q, typename R>
struct Any
{
    int i;
    ctl::Ep& c;
    std::unique_ptr<P> p;
    std::unique_ptr<S> s;
    std::unique_ptr<Q> q;
    std::unique_ptr<R> r;
    uint64_t seq{0};

    explicit Any(int ep)
        : i(ep)
        , c(C().ep[ep])
    {
    }
    void create(bool on)
    {
        Op op(c);
        auto d = svcDesc(c.svc);
        switch (c.kind)
        {
        case 1:
        {
            PublisherOptions o;
            o.historyCapacity = static_cast<uint64_t>(c.history);
            o.offerOnCreate = on;
            o.subscriberTooSlowPolicy = c.block ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            p.reset(new P(d, o));
            break;
        }
        case 2:
        {
            SubscriberOptions o;
            o.historyRequest = static_cast<uint64_t>(c.history);
            o.queueCapacity = 30;
            o.subscribeOnCreate = on;
            o.queueFullPolicy = c.block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
            o.requiresPublisherHistorySupport = c.needHist != 0;
            s.reset(new S(d, o));
            break;
        }
        case 3:
        {
            ClientOptions o;
            o.connectOnCreate = on;
            o.serverTooSlowPolicy = (c.block & 1) ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            o.responseQueueFullPolicy = (c.block & 2) ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
            q.reset(new Q(d, o));
            break;
        }
        default:
        {
            ServerOptions o;
            o.offerOnCreate = on;
            o.clientTooSlowPolicy = (c.block & 1) ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            o.requestQueueFullPolicy = (c.block & 2) ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
            r.reset(new R(d, o));
        }
        }
        c.exists = 1;
        c.onCreate = on;
        c.wants = on;
    }
    void destroy()
    {
        Op op(c);
        c.exists = 0;
        c.wants = 0;
        if (C().v[24] && sim_choose(2)) // interrupted somewhere
            sim_slow(600000000);
        p.reset();
        s.reset();
        q.reset();
        r.reset();
        sim_slow(0);
    }
    void toggle(bool on)
    {
        Op op(c);
        if (p)
            on ? p->offer() : p->stopOffer();
        if (s)
            on ? s->subscribe() : s->unsubscribe();
        if (q)
            on ? q->connect() : q->disconnect();
        if (r)
            on ? r->offer() : r->stopOffer();
        c.wants = on;
    }
    void state()
    {
        Op op(c);
        if (p)
        {
            c.state = p->isOffered();
            c.peers = p->hasSubscribers();
        }
        if (s)
            c.state = static_cast<int>(s->getSubscriptionState());
        if (q)
            c.state = static_cast<int>(q->getConnectionState());
        if (r)
        {
            c.state = r->isOffered();
            c.peers = r->hasClients();
        }
    }
    void send(uint64_t n)
    {
        Op op(c);
        if (p)
            p->loan(msgSize(1), 8).and_then([&](auto& m) {
                msgFill(static_cast<Msg*>(m), static_cast<uint64_t>(i), n, 1);
                p->publish(m);
            });
        if (q)
            q->loan(msgSize(1), 8).and_then([&](auto& m) {
                msgFill(static_cast<Msg*>(m), static_cast<uint64_t>(i), n, 1);
                q->send(m).or_else([&](auto& e) { sim_note("client %d: send failed %d", i, static_cast<int>(e)); });
            }).or_else([&](auto& e) { sim_note("client %d: loan failed %d", i, static_cast<int>(e)); });
    }
    void heard(const Msg* m)
    {
        msgCheck(m, "endpoint", 1024, "on receipt");
        if (m->seq >= FINAL)
            c.mask = c.mask | 1u << m->src;
    }
    void receive()
    {
        Op op(c);
        while (s)
        {
            auto x = s->take();
            if (x.has_error())
                break;
            heard(static_cast<const Msg*>(x.value()));
            s->release(x.value());
        }
        while (r)
        {
            auto x = r->take();
            if (x.has_error())
                break;
            auto* m = static_cast<const Msg*>(x.value());
            heard(m);
            cb::loanResponse(*r, m, msgSize(1)).and_then([&](auto& a) {
                msgFill(static_cast<Msg*>(a), static_cast<uint64_t>(i), m->seq, 1);
                IOX_DISCARD_RESULT(r->send(a));
            });
            r->releaseRequest(m);
        }
        while (q)
        {
            auto x = q->take();
            if (x.has_error())
                break;
            heard(static_cast<const Msg*>(x.value()));
            q->releaseResponse(x.value());
        }
    }
    void run()
    {
        if (c.late)
            sim_sleep(1000000ull * static_cast<uint64_t>(c.late));
        create(sim_choose(4) != 3);
        int k = c.toggles;
        while (k-- > 0 && C().phase < 1)
        {
            nap(c.pause);
            uint32_t a = sim_choose(10);
            if (a < (C().v[24] ? 6u : 2u))
            {
                if (c.exists)
                {
                    destroy();
                    if (C().v[24])
                        sim_sleep(150000000); // the number of ports that wait for the daemon stays small
                }
                else
                    create(sim_choose(4) != 3);
            }
            else if (a < 6 && c.exists)
                toggle(!c.wants);
            else if (a == 6 && c.exists)
                toggle(c.wants); // once more the same
            else if (a == 7)
                send(seq++);
            else
                receive();
            if (sim_chance(300) && c.exists)
                state();
        }
        // how it ends
        if (!c.exists && sim_chance(700))
            create(sim_choose(4) != 3);
        if (c.exists && !c.wants && sim_chance(600))
            toggle(true);
        c.settled = 1;
        while (C().phase < 2)
        {
            receive();
            if (c.keep) // a single change in a quiet system
            {
                if (!c.exists)
                    create(sim_choose(2) != 0);
                else if (sim_choose(2))
                    toggle(!c.wants);
                else
                    destroy();
                c.keep = 0;
            }
            sim_sleep(20000000);
        }
        state();
        send(FINAL + seq);
        c.settled = 2;
        while (C().phase < 3)
        {
            receive();
            sim_sleep(20000000);
        }
        receive();
        c.settled = 3;
        waitPhase(4);
        destroy();
    }
};
struct Th
{
    int ep;
};
void tramp(void* p)
{
    int ep = static_cast<Th*>(p)->ep;
    if (C().ep[ep].inC)
        Any<cb::Pub, cb::Sub, cb::Cli, cb::Srv>(ep).run();
    else
        Any<UntypedPublisher, UntypedSubscriber, UntypedClient, UntypedServer>(ep).run();
}

void find(runtime::ServiceDiscovery& d, int app, bool report)
{
    int pat = static_cast<int>(sim_choose(2)), q[3] = {-1, -1, -1};
    capro::ServiceDescription all[8];
    for (int k = 0; k < 8; ++k)
        all[k] = svcDesc(k);
    auto ask = [&] {
        optional<capro::IdString_t> id[3];
        for (int k = 0; k < 3; ++k)
            if (q[k] >= 0)
            {
                char b[3] = {"Sie"[k], static_cast<char>('0' + q[k]), 0};
                id[k].emplace(TruncateToCapacity, b);
            }
        uint64_t mask = 0;
        d.findService(
            id[0],
            id[1],
            id[2],
            [&](const capro::ServiceDescription& x) {
                if (x.getServiceIDString().size() != 2)
                    return; // the daemon's own
                int k = 0;
                while (k < 8 && x != all[k])
                    ++k;
                if (k == 8)
                    sim_fail("P08:search",
                             "a search found the service %s/%s/%s, which was never offered",
                             x.getServiceIDString().c_str(),
                             x.getInstanceIDString().c_str(),
                             x.getEventIDString().c_str());
                if (mask >> k & 1)
                    mask |= 1ull << (32 + k);
                mask |= 1ull << k;
            },
            pat ? MessagingPattern::REQ_RES : MessagingPattern::PUB_SUB);
        if (report)
            sim_hist(ctl::FIND, app, pat, (q[0] + 1) << 16 | (q[1] + 1) << 8 | (q[2] + 1), static_cast<int64_t>(mask));
    };
    if (!report)
    {
        q[sim_choose(3)] = static_cast<int>(sim_choose(3)) - 1;
        ask();
        return;
    }
    for (pat = 0; pat < 2; ++pat)
        for (q[0] = -1; q[0] < 2; ++q[0])
            for (q[1] = -1; q[1] < 2; ++q[1])
                for (q[2] = -1; q[2] < 2; ++q[2])
                    ask();
}
struct Searcher
{
    runtime::ServiceDiscovery* d;
    int app;
};
void search(void* p)
{
    auto* s = static_cast<Searcher*>(p);
    while (C().phase < 1)
    {
        find(*s->d, s->app, false);
        sim_sleep(1000000ull * (1 + sim_choose(60)));
    }
}
} // namespace

void run_churn(int app)
{
    runtime::PoshRuntime::initRuntime(RuntimeName_t(TruncateToCapacity, C().app[app].name));
    C().app[app].up = 1;
    {
        C().app[app].busy = 1;
        sim_heap_watch(1);
        auto discPtr = std::make_unique<runtime::ServiceDiscovery>();
        sim_heap_watch(0);
        auto& disc = *discPtr;
        Searcher second{&disc, app};
        C().app[app].busy = 0;
        std::vector<int> t;
        Th th[ctl::MAXE];
        for (int i = 0; i < C().nEps; ++i)
            if (C().ep[i].app == app)
            {
                th[i].ep = i;
                char b[16];
                snprintf(b, sizeof(b), "ep%d", i);
                t.push_back(sim_thread(tramp, &th[i], b));
            }
        if (C().v[23])
            t.push_back(sim_thread(search, &second, "search"));
        while (C().phase < 2)
        {
            if (C().phase < 1)
            {
                C().app[app].busy = 1;
                find(disc, app, false);
                C().app[app].busy = 0;
            }
            sim_sleep(1000000ull * (10 + sim_choose(100)));
        }
        find(disc, app, true);
        C().app[app].done = 2;
        for (int f : t)
            sim_join(f);
        waitPhase(4);
    }
    C().app[app].done = 3;
    waitPhase(4);
}
