// Request/response programs: one thread per client or server.
#include "cbind.h"
#include "sys_common.h"

#include "iceoryx_posh/popo/client.hpp"
#include "iceoryx_posh/popo/server.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"

using namespace iox;
using namespace iox::popo;

namespace
{
constexpr uint64_t INC = 100000; // sequence numbers per incarnation of an endpoint
struct Op
{
    ctl::Ep& c;
    explicit Op(ctl::Ep& e)
        : c(e)
    {
        c.inop = 1;
    }
    ~Op() { c.inop = 0; }
};
struct alignas(8) Fix
{
    Msg m;
    uint64_t rest[7];
};
constexpr uint64_t FWORDS = 6;

// what the typed and the untyped interface have in common
struct CliIf
{
    virtual ~CliIf() = default;
    virtual Msg* loan(uint64_t words, int64_t seqId, int& err) = 0;
    virtual int send(Msg* m) = 0;
    virtual void drop(Msg* m) = 0;
    virtual const Msg* take(int64_t& seqId) = 0;
    virtual void release(const Msg* m) = 0;
    virtual void connect(bool on) = 0;
    virtual int state() = 0;
    virtual bool missed() = 0;
    virtual void clear() = 0;
};
template <typename P>
struct UCli : CliIf
{
    P c;
    UCli(const capro::ServiceDescription& d, const ClientOptions& o)
        : c(d, o)
    {
    }
    Msg* loan(uint64_t words, int64_t seqId, int& err) override
    {
        auto r = c.loan(msgSize(words), 8);
        if (r.has_error())
        {
            err = static_cast<int>(r.error());
            return nullptr;
        }
        cb::setSeqId(c, r.value(), seqId);
        return static_cast<Msg*>(r.value());
    }
    int send(Msg* m) override
    {
        auto r = c.send(m);
        return r.has_error() ? 1 + static_cast<int>(r.error()) : 0;
    }
    void drop(Msg* m) override { c.releaseRequest(m); }
    const Msg* take(int64_t& seqId) override
    {
        auto r = c.take();
        if (r.has_error())
            return nullptr;
        seqId = cb::seqId(c, r.value());
        return static_cast<const Msg*>(r.value());
    }
    void release(const Msg* m) override { c.releaseResponse(m); }
    void connect(bool on) override { on ? c.connect() : c.disconnect(); }
    int state() override { return static_cast<int>(c.getConnectionState()); }
    bool missed() override { return c.hasMissedResponses(); }
    void clear() override { c.releaseQueuedResponses(); }
};
template <typename V, typename M>
size_t pos(V& v, const M* m)
{
    for (size_t i = 0; i < v.size(); ++i)
        if (&v[i]->m == m)
            return i;
    return 0;
}
struct TCli : CliIf
{
    Client<Fix, Fix> c;
    std::vector<Request<Fix>> loans;
    std::vector<Response<const Fix>> held;
    TCli(const capro::ServiceDescription& d, const ClientOptions& o)
        : c(d, o)
    {
    }
    Msg* loan(uint64_t, int64_t seqId, int& err) override
    {
        auto r = c.loan();
        if (r.has_error())
        {
            err = static_cast<int>(r.error());
            return nullptr;
        }
        r.value().getRequestHeader().setSequenceId(seqId);
        loans.emplace_back(std::move(r.value()));
        return &loans.back()->m;
    }
    int send(Msg* m) override
    {
        size_t i = pos(loans, m);
        auto r = loans[i].send();
        loans.erase(loans.begin() + static_cast<long>(i));
        return r.has_error() ? 1 + static_cast<int>(r.error()) : 0;
    }
    void drop(Msg* m) override { loans.erase(loans.begin() + static_cast<long>(pos(loans, m))); }
    const Msg* take(int64_t& seqId) override
    {
        auto r = c.take();
        if (r.has_error())
            return nullptr;
        seqId = r.value().getResponseHeader().getSequenceId();
        held.emplace_back(std::move(r.value()));
        return &held.back()->m;
    }
    void release(const Msg* m) override { held.erase(held.begin() + static_cast<long>(pos(held, m))); }
    void connect(bool on) override { on ? c.connect() : c.disconnect(); }
    int state() override { return static_cast<int>(c.getConnectionState()); }
    bool missed() override { return c.hasMissedResponses(); }
    void clear() override { c.releaseQueuedResponses(); }
};
struct SrvIf
{
    virtual ~SrvIf() = default;
    virtual const Msg* take(int64_t& seqId) = 0;
    virtual void release(const Msg* m) = 0;
    virtual Msg* loan(const Msg* req, uint64_t words) = 0;
    virtual int send(Msg* m) = 0;
    virtual void drop(Msg* m) = 0;
    virtual void offer(bool on) = 0;
    virtual bool missed() = 0;
    virtual bool clients() = 0;
};
template <typename P>
struct USrv : SrvIf
{
    P s;
    USrv(const capro::ServiceDescription& d, const ServerOptions& o)
        : s(d, o)
    {
    }
    const Msg* take(int64_t& seqId) override
    {
        auto r = s.take();
        if (r.has_error())
            return nullptr;
        seqId = cb::seqId(s, r.value());
        return static_cast<const Msg*>(r.value());
    }
    void release(const Msg* m) override { s.releaseRequest(m); }
    Msg* loan(const Msg* req, uint64_t words) override
    {
        auto r = cb::loanResponse(s, req, msgSize(words));
        return r.has_error() ? nullptr : static_cast<Msg*>(r.value());
    }
    int send(Msg* m) override
    {
        auto r = s.send(m);
        return r.has_error() ? 1 + static_cast<int>(r.error()) : 0;
    }
    void drop(Msg* m) override { s.releaseResponse(m); }
    void offer(bool on) override { on ? s.offer() : s.stopOffer(); }
    bool missed() override { return s.hasMissedRequests(); }
    bool clients() override { return s.hasClients(); }
};
struct TSrv : SrvIf
{
    Server<Fix, Fix> s;
    std::vector<Request<const Fix>> held;
    std::vector<Response<Fix>> loans;
    TSrv(const capro::ServiceDescription& d, const ServerOptions& o)
        : s(d, o)
    {
    }
    const Msg* take(int64_t& seqId) override
    {
        auto r = s.take();
        if (r.has_error())
            return nullptr;
        seqId = r.value().getRequestHeader().getSequenceId();
        held.emplace_back(std::move(r.value()));
        return &held.back()->m;
    }
    void release(const Msg* m) override { held.erase(held.begin() + static_cast<long>(pos(held, m))); }
    Msg* loan(const Msg* req, uint64_t) override
    {
        auto r = s.loan(held[pos(held, req)]);
        if (r.has_error())
            return nullptr;
        loans.emplace_back(std::move(r.value()));
        return &loans.back()->m;
    }
    int send(Msg* m) override
    {
        size_t i = pos(loans, m);
        auto r = loans[i].send();
        loans.erase(loans.begin() + static_cast<long>(i));
        return r.has_error() ? 1 + static_cast<int>(r.error()) : 0;
    }
    void drop(Msg* m) override { loans.erase(loans.begin() + static_cast<long>(pos(loans, m))); }
    void offer(bool on) override { on ? s.offer() : s.stopOffer(); }
    bool missed() override { return s.hasMissedRequests(); }
    bool clients() override { return s.hasClients(); }
};
int64_t key(const Msg* m) { return static_cast<int64_t>(m->src << 32 | m->seq); }
int64_t seqIdOf(uint64_t src, uint64_t seq) { return static_cast<int64_t>(src * 7919 + seq * 3) - 50000; }

struct Client1
{
    int e;
    ctl::Ep& c;
    std::unique_ptr<CliIf> q;
    struct Held
    {
        const Msg* m;
        int64_t seqId;
    };
    std::vector<Held> held;
    uint64_t inc{0}, n{0};

    explicit Client1(int ep)
        : e(ep)
        , c(C().ep[ep])
    {
    }
    void create(bool on)
    {
        ClientOptions o;
        o.connectOnCreate = on;
        o.responseQueueCapacity = static_cast<uint64_t>(c.queue);
        o.serverTooSlowPolicy = (c.block & 1) ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        o.responseQueueFullPolicy = (c.block & 2) ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
        Op op(c);
        if (c.typed)
            q.reset(new TCli(svcDesc(c.svc), o));
        else if (c.inC)
            q.reset(new UCli<cb::Cli>(svcDesc(c.svc), o));
        else
            q.reset(new UCli<UntypedClient>(svcDesc(c.svc), o));
        c.exists = 1;
        c.wants = on;
        sim_hist(ctl::SUB_NEW, e, static_cast<int64_t>(inc), 0, 0);
    }
    void destroy()
    {
        while (!held.empty())
            giveBack(0);
        Op op(c);
        sim_hist(ctl::SUB_GONE, e, static_cast<int64_t>(inc), 0, 0);
        c.exists = 0;
        c.wants = 0;
        q.reset();
        ++inc;
        n = 0;
    }
    void verify(const Held& h, const char* when)
    {
        char b[48];
        snprintf(b, sizeof(b), "client %d", e);
        auto* ch = mepoo::ChunkHeader::fromUserPayload(h.m);
        msgCheck(h.m, b, ch->userPayloadSize(), when);
    }
    void giveBack(size_t i)
    {
        Held h = held[i];
        verify(h, "while holding a response");
        held.erase(held.begin() + static_cast<long>(i));
        Op op(c);
        q->release(h.m);
    }
    bool take()
    {
        if (static_cast<int>(held.size()) > c.hold)
            giveBack(sim_choose(static_cast<uint32_t>(held.size())));
        int64_t id = 0;
        sim_hist(ctl::CTAKE_INV, e, 0, 0, 0);
        Op op(c);
        const Msg* m = q->take(id);
        if (!m)
        {
            sim_hist(ctl::CTAKE_EMPTY, e, 0, 0, 0);
            return false;
        }
        Held h{m, id};
        verify(h, "on receipt of a response");
        // word 0 of a response names the request
        sim_hist(ctl::CTAKE_RET, e, static_cast<int64_t>(m->seq), static_cast<int64_t>(m->src), id);
        held.push_back(h);
        return true;
    }
    void send()
    {
        uint64_t s = inc * INC + n;
        uint64_t words = c.typed ? FWORDS : 1 + sim_choose(static_cast<uint32_t>(c.words));
        int err = 0;
        c.inop = 1;
        c.state = q->state();
        sim_hist(ctl::CON_STATE, e, c.state, 0, 0);
        Msg* m = q->loan(words, seqIdOf(static_cast<uint64_t>(e), s), err);
        c.inop = 0;
        if (!m)
        {
            sim_hist(ctl::LOAN_FAIL, e, err, 0, 0);
            return;
        }
        msgFill(m, static_cast<uint64_t>(e), s, words);
        if (sim_chance(60))
        {
            Op op(c);
            q->drop(m);
            return;
        }
        ++n;
        sim_hist(ctl::REQ_INV, e, static_cast<int64_t>(s), static_cast<int64_t>(sim_phys(m)), c.state);
        c.inop = 1;
        int r = q->send(m);
        c.inop = 0;
        sim_hist(ctl::REQ_RET, e, static_cast<int64_t>(s), r, 0);
        c.sent = c.sent + 1;
    }
    void missed()
    {
        Op op(c);
        sim_hist(ctl::CMISSED, e, q->missed(), 0, 0);
    }
    void run()
    {
        if (c.late)
            sim_sleep(1000000ull * static_cast<uint64_t>(c.late));
        create(c.onCreate != 0);
        int toggles = c.toggles;
        int burst = 0, k = 0;
        while (k < c.count && C().phase < 1)
        {
            if (burst > 0)
                --burst;
            else
                nap(c.pause);
            if (burst == 0 && c.burst && sim_chance(200))
                burst = 1 + static_cast<int>(sim_choose(static_cast<uint32_t>(c.burst)));
            uint32_t a = sim_choose(20);
            if (a >= 17 && toggles > 0)
            {
                --toggles;
                if (!c.exists)
                    create(sim_choose(3) != 2);
                else if (sim_choose(3) == 2)
                    destroy();
                else
                {
                    Op op(c);
                    q->connect(!c.wants);
                    c.wants = !c.wants;
                }
            }
            else if (!c.exists)
                ++k;
            else if (a < 9)
            {
                ++k;
                send();
            }
            else if (a == 9)
                missed();
            else if (a == 10 && !held.empty())
                giveBack(sim_choose(static_cast<uint32_t>(held.size())));
            else
                take();
        }
        c.settled = 1;
        while (C().phase < 3)
        {
            if (c.exists)
            {
                while (take())
                    ;
                while (!held.empty())
                    giveBack(0);
            }
            sim_sleep(10000000);
        }
        if (c.exists)
        {
            while (take())
                ;
            while (!held.empty())
                giveBack(0);
            missed();
            Op op(c);
            c.state = q->state();
        }
        c.settled = 3;
        waitPhase(4);
        if (c.exists)
            destroy();
    }
};
struct Server1
{
    int e;
    ctl::Ep& c;
    std::unique_ptr<SrvIf> s;
    struct Held
    {
        const Msg* m;
        uint64_t src, seq;
        int64_t seqId;
    };
    std::vector<Held> held;
    uint64_t answers{0};
    explicit Server1(int ep)
        : e(ep)
        , c(C().ep[ep])
    {
    }
    void create(bool on)
    {
        ServerOptions o;
        o.offerOnCreate = on;
        o.requestQueueCapacity = static_cast<uint64_t>(c.queue);
        o.clientTooSlowPolicy = (c.block & 1) ? ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
        o.requestQueueFullPolicy = (c.block & 2) ? QueueFullPolicy::BLOCK_PRODUCER : QueueFullPolicy::DISCARD_OLDEST_DATA;
        Op op(c);
        if (c.typed)
            s.reset(new TSrv(svcDesc(c.svc), o));
        else if (c.inC)
            s.reset(new USrv<cb::Srv>(svcDesc(c.svc), o));
        else
            s.reset(new USrv<UntypedServer>(svcDesc(c.svc), o));
        c.exists = 1;
        c.wants = on;
        sim_hist(ctl::PUB_NEW, e, 0, 0, 0);
    }
    void verify(const Held& h, const char* when)
    {
        char b[48];
        snprintf(b, sizeof(b), "server %d", e);
        auto* ch = mepoo::ChunkHeader::fromUserPayload(h.m);
        msgCheck(h.m, b, ch->userPayloadSize(), when);
        if (h.m->src != h.src || h.m->seq != h.seq)
            sim_fail("P01:content", "server %d: held request %lu of client %lu changed (%s)", e, h.seq, h.src, when);
    }
    void destroy()
    {
        while (!held.empty())
            giveBack(0);
        Op op(c);
        sim_hist(ctl::PUB_GONE, e, 0, 0, 0);
        c.exists = 0;
        c.wants = 0;
        s.reset();
    }
    void giveBack(size_t i)
    {
        Held h = held[i];
        verify(h, "while holding a request");
        held.erase(held.begin() + static_cast<long>(i));
        Op op(c);
        s->release(h.m);
    }
    bool take()
    {
        if (held.size() > 2)
            return false;
        int64_t id = 0;
        sim_hist(ctl::RTAKE_INV, e, 0, 0, 0);
        Op op(c);
        const Msg* m = s->take(id);
        if (!m)
        {
            sim_hist(ctl::RTAKE_EMPTY, e, 0, 0, 0);
            return false;
        }
        Held h{m, m->src, m->seq, id};
        verify(h, "on receipt of a request");
        sim_hist(ctl::RTAKE_RET, e, key(m), static_cast<int64_t>(sim_phys(m)), id);
        if (id != seqIdOf(m->src, m->seq))
            sim_fail("P09:seqid", "server %d: request %lu of client %lu carries sequence id %ld instead of %ld", e, m->seq, m->src, static_cast<long>(id),
                     static_cast<long>(seqIdOf(m->src, m->seq)));
        held.push_back(h);
        return true;
    }
    void answer(size_t i)
    {
        Held h = held[i];
        uint64_t words = c.typed ? FWORDS : 1 + sim_choose(static_cast<uint32_t>(c.words));
        c.inop = 1;
        Msg* m = s->loan(h.m, words);
        c.inop = 0;
        if (!m)
        {
            sim_hist(ctl::LOAN_FAIL, e, 0, 0, 0);
            giveBack(i);
            return;
        }
        // the sequence number of a response is the key of its request
        msgFill(m, static_cast<uint64_t>(e), static_cast<uint64_t>(h.src << 32 | h.seq), words);
        bool early = sim_chance(300); // give the request back before the response is sent
        if (early)
            giveBack(i);
        if (sim_chance(40))
        {
            c.inop = 1;
            s->drop(m);
            c.inop = 0;
        }
        else
        {
            int64_t k = static_cast<int64_t>(h.src << 32 | h.seq);
            sim_hist(ctl::RSP_INV, e, k, static_cast<int64_t>(sim_phys(m)), 0);
            c.inop = 1;
            int r = s->send(m);
            c.inop = 0;
            sim_hist(ctl::RSP_RET, e, k, r, 0);
            ++answers;
        }
        if (!early)
            giveBack(i);
        c.got = static_cast<int>(answers);
    }
    void missed()
    {
        Op op(c);
        sim_hist(ctl::CMISSED, e, s->missed(), 0, 0);
    }
    void run()
    {
        if (c.late)
            sim_sleep(1000000ull * static_cast<uint64_t>(c.late));
        create(c.onCreate != 0);
        int toggles = c.toggles;
        while (C().phase < 1)
        {
            nap(c.pause);
            uint32_t a = sim_choose(20);
            if (a >= 18 && toggles > 0)
            {
                --toggles;
                if (!c.exists)
                    create(sim_choose(3) != 2);
                else if (sim_choose(3) == 2)
                    destroy();
                else
                {
                    Op op(c);
                    s->offer(!c.wants);
                    c.wants = !c.wants;
                }
            }
            else if (!c.exists)
                continue;
            else if (a < 9)
                take();
            else if (a < 15 && !held.empty())
                answer(sim_choose(static_cast<uint32_t>(held.size())));
            else if (a == 15 && sim_chance(100) && !held.empty())
                giveBack(sim_choose(static_cast<uint32_t>(held.size()))); // never answered
            else if (a == 16)
                missed();
        }
        c.settled = 1;
        while (C().phase < 3)
        {
            if (c.exists)
            {
                while (take() || !held.empty())
                    answer(0);
                if (C().phase >= 2)
                    c.settled = 2;
            }
            else
                c.settled = C().phase >= 2 ? 2 : 1;
            sim_sleep(10000000);
        }
        if (c.exists)
            missed();
        c.settled = 3;
        waitPhase(4);
        if (c.exists)
            destroy();
    }
};
void tramp(void* p)
{
    int ep = static_cast<int>(reinterpret_cast<intptr_t>(p));
    if (C().ep[ep].kind == 3)
        Client1(ep).run();
    else
        Server1(ep).run();
}
} // namespace

void run_reqres(int app)
{
    runtime::PoshRuntime::initRuntime(RuntimeName_t(TruncateToCapacity, C().app[app].name));
    C().app[app].up = 1;
    std::vector<int> f;
    for (int i = 0; i < C().nEps; ++i)
        if (C().ep[i].app == app)
        {
            char nm[16];
            snprintf(nm, sizeof(nm), "ep%d", i);
            f.push_back(sim_thread(tramp, reinterpret_cast<void*>(static_cast<intptr_t>(i)), nm));
        }
    for (int x : f)
        sim_join(x);
    C().app[app].done = 4;
}
