// Producers that wait for consumers which do not consume, until something releases them.
#include "sys_common.h"

#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iox/signal_watcher.hpp"

using namespace iox;
using namespace iox::popo;

namespace
{
// the producing objects of this process, for those who stop them from another thread
UntypedPublisher* g_pub[ctl::MAXE];
UntypedClient* g_cli[ctl::MAXE];
UntypedServer* g_srv[ctl::MAXE];

void received(ctl::Ep& c, int e, const Msg* m, uint64_t* next)
{
    char b[32];
    snprintf(b, sizeof(b), "endpoint %d", e);
    msgCheck(m, b, 1024, "on receipt");
    if (m->seq < next[m->src])
        sim_fail("P02:order", "endpoint %d received message %lu of endpoint %lu after message %lu", e, m->seq, m->src, next[m->src] - 1);
    if (m->seq != next[m->src])
        sim_fail("P04:lost", "endpoint %d, which blocks its producers, received message %lu of endpoint %lu instead of message %lu", e, m->seq, m->src, next[m->src]);
    next[m->src] = m->seq + 1;
    c.got = c.got + 1;
}
// v[0]: 1 take, 2 disconnect, 3 destroy
bool consuming(ctl::Ep& c) { return !c.keep || c.got < c.hold || C().v[0] == 1; }
void subscriber(int e)
{
    auto& c = C().ep[e];
    SubscriberOptions o;
    o.queueCapacity = static_cast<uint64_t>(c.queue);
    o.queueFullPolicy = QueueFullPolicy::BLOCK_PRODUCER;
    auto* s = new UntypedSubscriber(svcDesc(c.svc), o);
    c.exists = 1;
    uint64_t next[ctl::MAXE] = {};
    while (C().phase < 4)
    {
        if (s->getSubscriptionState() == SubscribeState::SUBSCRIBED)
            c.state = 1;
        if (consuming(c))
            while (true)
            {
                auto r = s->take();
                if (r.has_error())
                    break;
                received(c, e, static_cast<const Msg*>(r.value()), next);
                s->release(r.value());
                if (!consuming(c))
                    break;
            }
        if (c.keep && C().v[0] == 2 && !c.settled)
        {
            s->unsubscribe();
            c.settled = 1;
        }
        if (c.keep && C().v[0] == 3)
            break;
        if (c.keep && C().v[0] == 8)
            return; // the object is left to the daemon
        nap(c.pause);
    }
    delete s;
}
void publisher(int e)
{
    auto& c = C().ep[e];
    PublisherOptions o;
    o.historyCapacity = static_cast<uint64_t>(c.history);
    o.subscriberTooSlowPolicy = ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER;
    UntypedPublisher p(svcDesc(c.svc), o);
    g_pub[e] = &p;
    c.exists = 1;
    waitPhase(1);
    for (int k = 0; k < c.count; ++k)
    {
        nap(c.pause);
        auto r = p.loan(msgSize(2), 8);
        if (r.has_error())
            sim_fail("P05:loan", "publisher %d, which has nothing on loan, gets no memory", e);
        msgFill(static_cast<Msg*>(r.value()), static_cast<uint64_t>(e), static_cast<uint64_t>(k), 2);
        c.inop = 1;
        p.publish(r.value());
        c.inop = 0;
        c.sent = c.sent + 1;
    }
    c.settled = 1;
    waitPhase(4);
    g_pub[e] = nullptr;
}
void client(int e)
{
    auto& c = C().ep[e];
    ClientOptions o;
    o.responseQueueCapacity = static_cast<uint64_t>(c.queue);
    o.responseQueueFullPolicy = c.keep ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
    o.serverTooSlowPolicy = c.block ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
    auto* p = new UntypedClient(svcDesc(c.svc), o);
    g_cli[e] = p;
    c.exists = 1;
    while (p->getConnectionState() != ConnectionState::CONNECTED)
        sim_sleep(1000000);
    c.state = 1;
    waitPhase(1);
    uint64_t next[ctl::MAXE] = {};
    int k = 0;
    bool off = false;
    while (C().phase < 4)
    {
        nap(c.pause);
        if (k < c.count && !off)
        {
            auto r = p->loan(msgSize(2), 8);
            if (r.has_error())
                sim_fail("P05:loan", "client %d, which has nothing on loan, gets no memory", e);
            msgFill(static_cast<Msg*>(r.value()), static_cast<uint64_t>(e), static_cast<uint64_t>(k), 2);
            c.inop = 1;
            bool bad = p->send(r.value()).has_error();
            c.inop = 0;
            if (bad)
                c.lost = c.lost + 1;
            c.sent = c.sent + 1;
            ++k;
        }
        if (k >= c.count || off)
            c.settled = 1;
        if (consuming(c))
            while (true)
            {
                auto r = p->take();
                if (r.has_error())
                    break;
                received(c, e, static_cast<const Msg*>(r.value()), next);
                p->releaseResponse(r.value());
                if (!consuming(c))
                    break;
            }
        if (c.keep && C().v[0] == 2 && !off)
        {
            p->disconnect();
            off = true;
        }
        if (c.keep && C().v[0] == 3)
            break;
        if (c.keep && C().v[0] == 8)
            return;
    }
    c.settled = 1;
    g_cli[e] = nullptr;
    delete p;
}
void server(int e)
{
    auto& c = C().ep[e];
    ServerOptions o;
    o.requestQueueCapacity = static_cast<uint64_t>(c.queue);
    o.requestQueueFullPolicy = c.keep ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
    o.clientTooSlowPolicy = c.block ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
    auto* s = new UntypedServer(svcDesc(c.svc), o);
    g_srv[e] = s;
    c.exists = 1;
    uint64_t next[ctl::MAXE] = {}, answers[ctl::MAXE] = {};
    bool off = false;
    while (C().phase < 4)
    {
        if (consuming(c))
            while (true)
            {
                auto r = s->take();
                if (r.has_error())
                    break;
                auto* m = static_cast<const Msg*>(r.value());
                received(c, e, m, next);
                if (c.block) // a server which answers
                {
                    auto a = s->loan(RequestHeader::fromPayload(m), msgSize(2), 8);
                    if (a.has_error())
                        sim_fail("P05:loan", "server %d, which has nothing on loan, gets no memory", e);
                    msgFill(static_cast<Msg*>(a.value()), static_cast<uint64_t>(e), answers[m->src]++, 2);
                    c.inop = 1;
                    (void)s->send(a.value());
                    c.inop = 0;
                    c.sent = c.sent + 1;
                }
                s->releaseRequest(m);
                if (!consuming(c))
                    break;
            }
        if (c.keep && C().v[0] == 2 && !off)
        {
            s->stopOffer();
            off = true;
        }
        if (c.keep && C().v[0] == 3)
            break;
        if (c.keep && C().v[0] == 8)
            return;
        nap(c.pause);
    }
    g_srv[e] = nullptr;
    delete s;
}
void tramp(void* p)
{
    int e = static_cast<int>(reinterpret_cast<intptr_t>(p));
    switch (C().ep[e].kind)
    {
    case 1:
        publisher(e);
        break;
    case 2:
        subscriber(e);
        break;
    case 3:
        client(e);
        break;
    default:
        server(e);
    }
    C().ep[e].exists = 0;
}
} // namespace

void run_blocked(int app)
{
    hasTerminationRequested(); // installs the handler: a termination request does not end the process at once
    runtime::PoshRuntime::initRuntime(RuntimeName_t(TruncateToCapacity, C().app[app].name));
    C().app[app].up = 1;
    std::vector<int> f;
    for (int i = 0; i < C().nEps; ++i)
        if (C().ep[i].app == app)
        {
            char nm[16];
            snprintf(nm, sizeof(nm), "ep%d", i);
            f.push_back(sim_thread(tramp, reinterpret_cast<void*>(static_cast<intptr_t>(i)), nm));
        }
    bool done = false;
    while (C().phase < 4)
    {
        if (C().v[0] == 8 && C().v[1] == app)
            break;
        if (!done && C().v[1] == app && C().v[0] == 5)
        {
            done = true;
            for (int i = 0; i < C().nEps; ++i)
            {
                if (!C().ep[i].user)
                    continue;
                if (g_pub[i])
                    g_pub[i]->stopOffer();
                if (g_cli[i])
                    g_cli[i]->disconnect();
                if (g_srv[i])
                    g_srv[i]->stopOffer();
            }
        }
        if (!done && C().v[1] == app && C().v[0] == 6)
        {
            done = true;
            runtime::PoshRuntime::getInstance().shutdown();
        }
        sim_sleep(1000000);
    }
    for (int x : f)
        sim_join(x);
    C().app[app].done = 4;
}
