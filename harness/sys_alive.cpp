// Programs that mostly live: one thread, endpoints are watched, something is sent now and then.
#include "sys_common.h"

#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"

using namespace iox;
using namespace iox::popo;

void run_alive(int app)
{
    runtime::PoshRuntime::initRuntime(RuntimeName_t(TruncateToCapacity, C().app[app].name));
    C().app[app].up = 1;
    struct E
    {
        int i;
        std::unique_ptr<UntypedPublisher> p;
        std::unique_ptr<UntypedSubscriber> s;
        int last{-1};
        uint64_t seq{0};
    };
    std::vector<E> es;
    for (int i = 0; i < C().nEps; ++i)
        if (C().ep[i].app == app)
        {
            es.emplace_back();
            auto& e = es.back();
            e.i = i;
            if (C().ep[i].kind == 1)
                e.p.reset(new UntypedPublisher(svcDesc(C().ep[i].svc)));
            else
                e.s.reset(new UntypedSubscriber(svcDesc(C().ep[i].svc)));
            C().ep[i].exists = 1;
        }
    auto round = [&](bool traffic) {
        for (auto& e : es)
        {
            ctl::Ep& c = C().ep[e.i];
            int now;
            if (e.p)
            {
                now = e.p->hasSubscribers();
                if (traffic && sim_chance(200))
                    e.p->loan(msgSize(1), 8).and_then([&](auto& m) {
                        msgFill(static_cast<Msg*>(m), static_cast<uint64_t>(e.i), e.seq++, 1);
                        e.p->publish(m);
                    });
            }
            else
            {
                now = e.s->getSubscriptionState() == SubscribeState::SUBSCRIBED;
                while (true)
                {
                    auto r = e.s->take();
                    if (r.has_error())
                        break;
                    auto* m = static_cast<const Msg*>(r.value());
                    msgCheck(m, "subscriber", 1024, "on receipt");
                    c.got = c.got + 1;
                    c.lost = static_cast<int>(m->seq);
                    e.s->release(m);
                }
            }
            if (now != e.last)
                sim_hist(ctl::PEERS, e.i, now, 0, 0);
            e.last = now;
            c.state = c.peers = now;
        }
    };
    while (C().phase < 1)
    {
        C().app[app].busy = 1;
        round(true);
        C().app[app].busy = 0;
        sim_sleep(1000000ull * (5 + sim_choose(60)));
    }
    // still known to the daemon: it answers requests
    {
        UntypedSubscriber extra(svcDesc(99));
        C().app[app].done = 1;
        while (C().phase < 2)
        {
            round(false);
            sim_sleep(10000000);
        }
    }
    // still connected: everybody sends one message
    for (auto& e : es)
        if (e.p)
            e.p->loan(msgSize(1), 8).and_then([&](auto& m) {
                msgFill(static_cast<Msg*>(m), static_cast<uint64_t>(e.i), 100000, 1);
                e.p->publish(m);
            });
    C().app[app].done = 2;
    while (C().phase < 3)
    {
        round(false);
        sim_sleep(10000000);
    }
    es.clear();
    C().app[app].done = 3;
    waitPhase(4);
}
