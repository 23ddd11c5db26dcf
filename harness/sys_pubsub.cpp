// Publish/subscribe programs: every endpoint is driven by its own thread of the application it is assigned to.
#include "cbind.h"
#include "sys_common.h"

#include "iceoryx_posh/popo/publisher.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"

using namespace iox;
using namespace iox::popo;

namespace
{
struct UserHdr
{
    uint64_t src, seq, inv;
};
struct alignas(8) TMsg
{
    Msg m;
    uint64_t rest[9];
};
constexpr uint64_t TWORDS = 8;

struct PubIf
{
    virtual ~PubIf() = default;
    virtual Msg* loan(uint64_t words, bool hdr, int& err) = 0;
    virtual void publish(Msg* m) = 0;
    virtual void release(Msg* m) = 0;
    virtual void offer() = 0;
    virtual void stopOffer() = 0;
    virtual bool isOffered() = 0;
    virtual bool hasSubscribers() = 0;
};
template <typename P>
struct UPub : PubIf
{
    P p;
    UPub(const capro::ServiceDescription& d, const PublisherOptions& o)
        : p(d, o)
    {
    }
    Msg* loan(uint64_t words, bool hdr, int& err) override
    {
        uint32_t align = 8u << sim_choose(C().large ? 5 : 3);
        auto r = hdr ? p.loan(msgSize(words), align, sizeof(UserHdr), alignof(UserHdr)) : p.loan(msgSize(words), align);
        if (r.has_error())
        {
            err = static_cast<int>(r.error());
            return nullptr;
        }
        auto* h = mepoo::ChunkHeader::fromUserPayload(r.value());
        auto at = reinterpret_cast<uint64_t>(r.value()), end = reinterpret_cast<uint64_t>(h) + h->chunkSize();
        if (at % align)
            sim_fail("P01:align", "a loan with alignment %u gave %p", align, r.value());
        if (at + msgSize(words) > end || h->userPayloadSize() != msgSize(words))
            sim_fail("P01:space", "a loan of %lu bytes with alignment %u gave %lu bytes, the chunk ends after %lu", msgSize(words), align, static_cast<uint64_t>(h->userPayloadSize()), end - at);
        if (hdr && (h->userHeaderSize() != sizeof(UserHdr) || reinterpret_cast<uint64_t>(h->userHeader()) + sizeof(UserHdr) > at || reinterpret_cast<uint64_t>(h->userHeader()) < reinterpret_cast<uint64_t>(h) + sizeof(*h)))
            sim_fail("P01:space", "the user header of a loan overlaps with something else");
        return static_cast<Msg*>(r.value());
    }
    void publish(Msg* m) override { p.publish(m); }
    void release(Msg* m) override { p.release(m); }
    void offer() override { p.offer(); }
    void stopOffer() override { p.stopOffer(); }
    bool isOffered() override { return p.isOffered(); }
    bool hasSubscribers() override { return p.hasSubscribers(); }
};
struct TPub : PubIf
{
    Publisher<TMsg> p;
    std::vector<Sample<TMsg>> loans;
    TPub(const capro::ServiceDescription& d, const PublisherOptions& o)
        : p(d, o)
    {
    }
    Msg* loan(uint64_t, bool, int& err) override
    {
        auto r = p.loan();
        if (r.has_error())
        {
            err = static_cast<int>(r.error());
            return nullptr;
        }
        loans.emplace_back(std::move(r.value()));
        return &loans.back()->m;
    }
    size_t find(Msg* m)
    {
        for (size_t i = 0; i < loans.size(); ++i)
            if (&loans[i]->m == m)
                return i;
        return 0;
    }
    void publish(Msg* m) override
    {
        size_t i = find(m);
        loans[i].publish();
        loans.erase(loans.begin() + static_cast<long>(i));
    }
    void release(Msg* m) override { loans.erase(loans.begin() + static_cast<long>(find(m))); }
    void offer() override { p.offer(); }
    void stopOffer() override { p.stopOffer(); }
    bool isOffered() override { return p.isOffered(); }
    bool hasSubscribers() override { return p.hasSubscribers(); }
};

struct SubIf
{
    virtual ~SubIf() = default;
    virtual const Msg* take(int& err) = 0; // err 0: empty
    virtual void release(const Msg* m) = 0;
    virtual void subscribe() = 0;
    virtual void unsubscribe() = 0;
    virtual SubscribeState state() = 0;
    virtual bool missed() = 0;
    virtual bool hasData() = 0;
    virtual void clear() = 0;
};
template <typename S>
struct USub : SubIf
{
    S s;
    USub(const capro::ServiceDescription& d, const SubscriberOptions& o)
        : s(d, o)
    {
    }
    const Msg* take(int& err) override
    {
        auto r = s.take();
        if (r.has_error())
        {
            err = r.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE ? 0 : 1;
            return nullptr;
        }
        return static_cast<const Msg*>(r.value());
    }
    void release(const Msg* m) override { s.release(m); }
    void subscribe() override { s.subscribe(); }
    void unsubscribe() override { s.unsubscribe(); }
    SubscribeState state() override { return s.getSubscriptionState(); }
    bool missed() override { return s.hasMissedData(); }
    bool hasData() override { return s.hasData(); }
    void clear() override { s.releaseQueuedData(); }
};
struct TSub : SubIf
{
    Subscriber<TMsg> s;
    std::vector<Sample<const TMsg>> held;
    TSub(const capro::ServiceDescription& d, const SubscriberOptions& o)
        : s(d, o)
    {
    }
    const Msg* take(int& err) override
    {
        auto r = s.take();
        if (r.has_error())
        {
            err = r.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE ? 0 : 1;
            return nullptr;
        }
        held.emplace_back(std::move(r.value()));
        return &held.back()->m;
    }
    void release(const Msg* m) override
    {
        for (size_t i = 0; i < held.size(); ++i)
            if (&held[i]->m == m)
            {
                held.erase(held.begin() + static_cast<long>(i));
                return;
            }
    }
    void subscribe() override { s.subscribe(); }
    void unsubscribe() override { s.unsubscribe(); }
    SubscribeState state() override { return s.getSubscriptionState(); }
    bool missed() override { return s.hasMissedData(); }
    bool hasData() override { return s.hasData(); }
    void clear() override { s.releaseQueuedData(); }
};

struct Op
{
    ctl::Ep& c;
    explicit Op(ctl::Ep& e)
        : c(e)
    {
        c.inop = 1;
    }
    ~Op() { c.inop = 0; }
};

void check(const Msg* m, int ep, const char* when)
{
    char b[48];
    snprintf(b, sizeof(b), "subscriber %d", ep);
    auto* h = mepoo::ChunkHeader::fromUserPayload(m);
    if (h->userPayloadSize() < sizeof(Msg) || h->userPayloadSize() > 1024)
        sim_fail("P01:content", "%s: payload size %lu in the header of a received sample (%s)", b, h->userPayloadSize(), when);
    msgCheck(m, b, h->userPayloadSize(), when);
    if (h->userHeaderSize() == sizeof(UserHdr))
    {
        auto* u = static_cast<const UserHdr*>(h->userHeader());
        if (u->src != m->src || u->seq != m->seq || u->inv != ~m->seq)
            sim_fail("P01:content", "%s: user header does not belong to message %lu of endpoint %lu (%s)", b, m->seq, m->src, when);
    }
}

// ------------------------------------------------------------------------------------------------ publisher thread
struct Loaned
{
    Msg* m;
    uint64_t n;
};
struct Pub
{
    int e;
    ctl::Ep& c;
    std::unique_ptr<PubIf> p;
    std::vector<Loaned> loans;
    uint64_t seq{0};

    explicit Pub(int ep)
        : e(ep)
        , c(C().ep[ep])
    {
    }
    void create()
    {
        PublisherOptions o;
        o.historyCapacity = static_cast<uint64_t>(c.history);
        o.offerOnCreate = c.onCreate != 0;
        o.subscriberTooSlowPolicy = c.block ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        sim_hist(ctl::PUB_NEW, e, c.onCreate, c.svc, 0);
        Op op(c);
        if (c.typed)
            p.reset(new TPub(svcDesc(c.svc), o));
        else if (c.inC)
            p.reset(new UPub<cb::Pub>(svcDesc(c.svc), o));
        else
            p.reset(new UPub<UntypedPublisher>(svcDesc(c.svc), o));
        c.wants = c.onCreate;
        c.exists = 1;
    }
    bool loan()
    {
        if (loans.size() >= 3)
            return false;
        uint64_t n = c.typed ? TWORDS : 1 + sim_choose(static_cast<uint32_t>(c.words));
        bool hdr = c.user && !c.typed;
        int err = 0;
        Op op(c);
        Msg* m = p->loan(n, hdr, err);
        if (!m)
        {
            sim_hist(ctl::LOAN_FAIL, e, err, static_cast<int64_t>(n), 0);
            return false;
        }
        sim_hist(ctl::LOAN, e, 0, static_cast<int64_t>(sim_phys(m)), 0);
        loans.push_back({m, n});
        return true;
    }
    void fill(Loaned& l, uint64_t s)
    {
        msgFill(l.m, static_cast<uint64_t>(e), s, l.n);
        if (c.user && !c.typed)
        {
            auto* u = static_cast<UserHdr*>(mepoo::ChunkHeader::fromUserPayload(l.m)->userHeader());
            u->src = static_cast<uint64_t>(e);
            u->seq = s;
            u->inv = ~s;
        }
    }
    void send(size_t i)
    {
        Loaned l = loans[i];
        loans.erase(loans.begin() + static_cast<long>(i));
        fill(l, seq);
        sim_hist(ctl::SEND_INV, e, static_cast<int64_t>(seq), static_cast<int64_t>(sim_phys(l.m)), 0);
        c.inop = 1;
        p->publish(l.m);
        c.inop = 0;
        sim_hist(ctl::SEND_RET, e, static_cast<int64_t>(seq), 0, 0);
        ++seq;
        c.sent = static_cast<int>(seq);
    }
    void drop(size_t i)
    {
        Loaned l = loans[i];
        loans.erase(loans.begin() + static_cast<long>(i));
        sim_hist(ctl::LOAN_REL, e, 0, static_cast<int64_t>(sim_phys(l.m)), 0);
        Op op(c);
        p->release(l.m);
    }
    void offer(bool on)
    {
        sim_hist(on ? ctl::OFFER_INV : ctl::STOP_INV, e, 0, 0, 0);
        Op op(c);
        if (on)
            p->offer();
        else
            p->stopOffer();
        c.wants = on;
        sim_hist(on ? ctl::OFFER_RET : ctl::STOP_RET, e, 0, 0, 0);
    }
    void run()
    {
        if (c.late)
            sim_sleep(1000000ull * static_cast<uint64_t>(c.late));
        create();
        int toggles = c.toggles;
        if (!c.onCreate)
        {
            for (uint32_t k = sim_choose(3); k--;) // samples sent before offering only become history
                if (loan())
                    send(0);
            nap(c.pause);
            offer(true);
        }
        for (int n = 0; c.keep && n < 300 && !p->hasSubscribers(); ++n)
            sim_sleep(2000000);
        if (c.keep)
            sim_sleep(5000000);
        int burst = 0;
        int tries = 0;
        while (static_cast<int>(seq) < c.count && C().phase < 1 && ++tries < 10 * c.count)
        {
            if (burst > 0)
                --burst;
            else
                nap(c.pause);
            if (burst == 0 && c.burst && sim_chance(150))
                burst = 1 + static_cast<int>(sim_choose(static_cast<uint32_t>(c.burst)));
            uint32_t k = sim_choose(20);
            if (k >= 17 && toggles > 0)
            {
                --toggles;
                offer(!c.wants);
                continue;
            }
            if (k == 1)
            {
                loan();
                continue;
            }
            if (k == 2 && !loans.empty())
            {
                drop(sim_choose(static_cast<uint32_t>(loans.size())));
                continue;
            }
            if (k == 3)
            {
                c.peers = p->hasSubscribers();
                c.state = p->isOffered();
                continue;
            }
            if (!loan() && loans.empty())
                continue;
            send(sim_choose(static_cast<uint32_t>(loans.size())));
            if (c.keep && seq == 1)
                sim_sleep(2000000);
        }
        if (!c.wants && sim_chance(700))
            offer(true);
        c.got = 1; // all sent
        while (C().phase < 3)
        {
            c.state = p->isOffered();
            c.peers = p->hasSubscribers();
            sim_sleep(10000000);
        }
        while (!loans.empty())
            drop(0);
        sim_hist(ctl::PUB_GONE, e, 0, 0, 0);
        c.exists = 0;
        Op op(c);
        p.reset();
    }
};

// ------------------------------------------------------------------------------------------------ subscriber thread
struct Sub
{
    int e;
    ctl::Ep& c;
    std::unique_ptr<SubIf> s;
    std::vector<const Msg*> held;
    SubscribeState last{SubscribeState::NOT_SUBSCRIBED};

    explicit Sub(int ep)
        : e(ep)
        , c(C().ep[ep])
    {
    }
    void state()
    {
        auto st = s->state();
        c.state = static_cast<int>(st);
        if (st != last)
            sim_hist(ctl::SUB_STATE, e, static_cast<int64_t>(st), 0, 0);
        last = st;
    }
    bool take()
    {
        int err = 0;
        sim_hist(ctl::TAKE_INV, e, 0, 0, 0);
        Op op(c);
        const Msg* m = s->take(err);
        if (!m)
        {
            sim_hist(err ? ctl::TAKE_ERR : ctl::TAKE_EMPTY, e, 0, 0, 0);
            return false;
        }
        check(m, e, "on receipt");
        sim_hist(ctl::TAKE_RET, e, static_cast<int64_t>(m->src << 32 | m->seq), static_cast<int64_t>(sim_phys(m)), 0);
        c.got = c.got + 1;
        held.push_back(m);
        return true;
    }
    void release(size_t i)
    {
        const Msg* m = held[i];
        held.erase(held.begin() + static_cast<long>(i));
        check(m, e, "while held");
        sim_hist(ctl::TAKE_REL, e, static_cast<int64_t>(m->src << 32 | m->seq), static_cast<int64_t>(sim_phys(m)), 0);
        Op op(c);
        s->release(m);
    }
    void missed() { sim_hist(ctl::MISSED, e, s->missed(), 0, 0); }
    void sub(bool on)
    {
        sim_hist(on ? ctl::SUB_INV : ctl::UNSUB_INV, e, 0, 0, 0);
        Op op(c);
        if (on)
            s->subscribe();
        else
            s->unsubscribe();
        c.wants = on;
        sim_hist(on ? ctl::SUB_RET : ctl::UNSUB_RET, e, 0, 0, 0);
    }
    void run()
    {
        if (c.late)
            sim_sleep(1000000ull * static_cast<uint64_t>(c.late));
        SubscriberOptions o;
        o.historyRequest = static_cast<uint64_t>(c.history);
        o.queueCapacity = static_cast<uint64_t>(c.queue);
        o.subscribeOnCreate = c.onCreate != 0;
        o.queueFullPolicy = c.block ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
        o.requiresPublisherHistorySupport = c.needHist != 0;
        sim_hist(ctl::SUB_NEW, e, c.onCreate, c.svc, 0);
        c.inop = 1;
        if (c.typed)
            s.reset(new TSub(svcDesc(c.svc), o));
        else if (c.inC)
            s.reset(new USub<cb::Sub>(svcDesc(c.svc), o));
        else
            s.reset(new USub<UntypedSubscriber>(svcDesc(c.svc), o));
        c.inop = 0;
        c.wants = c.onCreate;
        c.exists = 1;
        int toggles = c.toggles;
        if (!c.onCreate)
        {
            nap(c.pause);
            sub(true);
        }
        for (int n = 0; c.keep && n < 2000 && !take(); ++n)
            sim_sleep(500000);
        if (c.keep) // takes nothing more, but asks all the time whether something was lost
            for (int n = 0; C().phase < 1 && n < 1500; ++n)
            {
                bool busy = false;
                for (int i = 0; i < C().nEps; ++i)
                    busy = busy || (C().ep[i].kind == 1 && C().ep[i].got == 0 && C().ep[i].sent > 0);
                state();
                if (!busy || n % 30 == 29)
                    sim_sleep(busy ? 20000 : 500000);
                for (uint32_t i = 100; busy && i; --i)
                    if (s->missed())
                        sim_hist(ctl::MISSED, e, 1, 0, 0);
            }
        while (C().phase < 1)
        {
            nap(c.pause);
            state();
            uint32_t k = sim_choose(20);
            if (k >= 18 && toggles > 0)
            {
                --toggles;
                sub(!c.wants);
                continue;
            }
            if (k == 17)
            {
                missed();
                if (sim_choose(2)) // again and again, while samples arrive
                    for (uint32_t i = sim_choose(10); i; --i)
                        missed();
                continue;
            }
            if (k >= 15 && !held.empty())
            {
                release(sim_choose(static_cast<uint32_t>(held.size())));
                continue;
            }
            if (k == 14)
            {
                s->hasData();
            }
            else
            {
                uint32_t n = 1 + sim_choose(3);
                while (n-- && take())
                    ;
            }
            while (static_cast<int>(held.size()) > c.hold)
                release(sim_choose(static_cast<uint32_t>(held.size())));
        }
        // no more samples are sent. Empty the queue
        if (!c.wants && sim_chance(700))
            sub(true);
        while (C().phase < 2)
        {
            state();
            while (take())
                if (static_cast<int>(held.size()) > c.hold)
                    release(0);
            sim_sleep(5000000);
        }
        for (int n = 0; n < 3; ++n)
        {
            while (take())
                release(0);
            sim_sleep(20000000);
        }
        missed();
        state();
        c.lost = 1; // drained
        while (C().phase < 3)
        {
            state();
            sim_sleep(10000000);
        }
        while (!held.empty())
            release(0);
        sim_hist(ctl::SUB_GONE, e, 0, 0, 0);
        c.exists = 0;
        Op op(c);
        s.reset();
    }
};

struct Th
{
    int ep;
};
void tramp(void* p)
{
    int ep = static_cast<Th*>(p)->ep;
    if (C().ep[ep].kind == 1)
        Pub(ep).run();
    else
        Sub(ep).run();
}
} // namespace

void run_pubsub(int app)
{
    runtime::PoshRuntime::initRuntime(RuntimeName_t(TruncateToCapacity, C().app[app].name));
    C().app[app].up = 1;
    std::vector<int> t;
    Th th[ctl::MAXE];
    for (int i = 0; i < C().nEps; ++i)
        if (C().ep[i].app == app && (C().ep[i].kind == 1 || C().ep[i].kind == 2))
        {
            th[i].ep = i;
            char b[16];
            snprintf(b, sizeof(b), "ep%d", i);
            t.push_back(sim_thread(tramp, &th[i], b));
        }
    for (int f : t)
        sim_join(f);
    C().app[app].done = 3;
    waitPhase(4);
}
