// An observer of the daemon's introspection topics.
#include "sys_common.h"

#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/roudi/introspection_types.hpp"

using namespace iox;
using namespace iox::popo;

namespace
{
template <typename S>
void put(char (&d)[32], const S& s)
{
    snprintf(d, sizeof(d), "%s", s.c_str());
}
template <typename T>
void port(ctl::IntroPort& o, const T& p)
{
    put(o.app, p.m_name);
    put(o.service, p.m_caproServiceID);
    put(o.instance, p.m_caproInstanceID);
    put(o.event, p.m_caproEventMethodID);
}
struct Observer
{
    int app;
    ctl::Intro& in;
    SubscriberOptions opt() const
    {
        SubscriberOptions o;
        o.historyRequest = 1;
        o.queueCapacity = sim_choose(2) ? 1 : 3;
        return o;
    }
    Subscriber<roudi::ProcessIntrospectionFieldTopic> proc{roudi::IntrospectionProcessService, opt()};
    Subscriber<roudi::PortIntrospectionFieldTopic> ports{roudi::IntrospectionPortService, opt()};
    Subscriber<roudi::SubscriberPortChangingIntrospectionFieldTopic> states{roudi::IntrospectionSubscriberPortChangingDataService, opt()};
    Subscriber<roudi::MemPoolIntrospectionInfoContainer> pools{roudi::IntrospectionMempoolService, opt()};
    std::vector<std::unique_ptr<UntypedPublisher>> pubs;
    std::vector<std::pair<UntypedPublisher*, void*>> held;
    std::vector<Sample<const roudi::ProcessIntrospectionFieldTopic>> heldProc;
    std::vector<Sample<const roudi::PortIntrospectionFieldTopic>> heldPorts;
    std::vector<Sample<const roudi::SubscriberPortChangingIntrospectionFieldTopic>> heldStates;
    std::vector<Sample<const roudi::MemPoolIntrospectionInfoContainer>> heldPools;

    explicit Observer(int a)
        : app(a)
        , in(C().in[C().v[30 + a]])
    {
        for (int i = 0; i < C().v[20] && &in == &C().in[0]; ++i)
        {
            PublisherOptions o;
            o.offerOnCreate = false;
            pubs.emplace_back(new UntypedPublisher(capro::ServiceDescription("Obs", "x", "ev"), o));
        }
    }
    void look()
    {
        C().app[app].busy = 1;
        if (!in.hoard)
        {
            heldProc.clear();
            heldPorts.clear();
            heldStates.clear();
            heldPools.clear();
        }
        while (proc.take().and_then([&](auto& s) {
            auto& l = s->m_processList;
            in.nProc = static_cast<int>(l.size());
            for (uint64_t i = 0; i < l.size() && i < 32; ++i)
            {
                in.proc[i].pid = l[i].m_pid;
                put(in.proc[i].name, l[i].m_name);
            }
            in.seen = in.seen | 1;
            if (in.hoard)
                heldProc.push_back(std::move(s));
        }))
            ;
        while (ports.take().and_then([&](auto& s) {
            in.nPub = static_cast<int>(s->m_publisherList.size());
            in.nSub = static_cast<int>(s->m_subscriberList.size());
            for (int i = 0; i < in.nPub && i < 32; ++i)
            {
                auto& p = s->m_publisherList[static_cast<uint64_t>(i)];
                auto& o = in.pub[i];
                port(o, p);
                o.id = p.m_publisherPortID;
                o.history = p.m_publisherOptions.historyCapacity;
                o.on = p.m_publisherOptions.offerOnCreate;
                o.block = p.m_publisherOptions.subscriberTooSlowPolicy == ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER;
            }
            for (int i = 0; i < in.nSub && i < 32; ++i)
            {
                auto& p = s->m_subscriberList[static_cast<uint64_t>(i)];
                auto& o = in.sub[i];
                port(o, p);
                o.history = p.m_subscriberOptions.historyRequest;
                o.queue = p.m_subscriberOptions.queueCapacity;
                o.on = p.m_subscriberOptions.subscribeOnCreate;
                o.block = p.m_subscriberOptions.queueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER;
                o.need = p.m_subscriberOptions.requiresPublisherHistorySupport;
            }
            in.seen = in.seen | 2;
            if (in.hoard)
                heldPorts.push_back(std::move(s));
        }))
            ;
        while (states.take().and_then([&](auto& s) {
            auto& l = s->subscriberPortChangingDataList;
            in.nState = static_cast<int>(l.size());
            for (uint64_t i = 0; i < l.size() && i < 32; ++i)
                in.sub[i].state = static_cast<int>(l[i].subscriptionState);
            in.seen = in.seen | 4;
            if (in.hoard)
                heldStates.push_back(std::move(s));
        }))
            ;
        while (pools.take().and_then([&](auto& s) {
            in.nPool = 0;
            if (s->size() > 1)
                for (auto& p : (*s)[1].m_mempoolInfo)
                    in.pool[in.nPool++] = {p.m_chunkSize, p.m_numChunks, p.m_usedChunks, p.m_minFreeChunks};
            in.seen = in.seen | 8;
            if (in.hoard)
                heldPools.push_back(std::move(s));
        }))
            ;
        C().app[app].busy = 0;
    }
    void run()
    {
        while (!in.leave)
        {
            look();
            if (in.req != in.ack)
                in.ack = in.req;
            if (in.stuff && !in.stuffed && !pubs.empty())
            {
                for (auto& p : pubs)
                    for (bool more = true; more;)
                    {
                        more = false;
                        p->loan(8, 8).and_then([&](auto& m) {
                            held.push_back({p.get(), m});
                            more = true;
                        });
                    }
                in.stuffed = 1 + static_cast<int>(held.size());
            }
            nap(60);
        }
        for (auto& h : held)
            h.first->release(h.second);
    }
};
} // namespace

void run_intro(int app)
{
    runtime::PoshRuntime::initRuntime(RuntimeName_t(TruncateToCapacity, C().app[app].name));
    C().app[app].busy = 1;
    C().app[app].up = 1;
    {
        Observer o(app);
        C().app[app].busy = 0;
        o.run();
    }
    C().app[app].done = 3;
}
