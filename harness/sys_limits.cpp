// Programs that go up to and beyond every configured limit (ports, condition variables, loans, held messages, pools,
// attachments), give back and try again. Uses the Node API, which reports refusals.
#include "sys_common.h"

#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iox/posh/experimental/node.hpp"

#include <deque>

using namespace iox;
using namespace iox::popo;
using namespace iox::posh::experimental;

namespace
{
constexpr int KINDS = 5; // publisher, subscriber, client, server, condition variable
struct Obj
{
    int kind{-1}, no{0};
    optional<unique_ptr<UntypedPublisher>> pub;
    optional<unique_ptr<UntypedSubscriber>> sub;
    optional<unique_ptr<UntypedClient>> cli;
    optional<unique_ptr<UntypedServer>> srv;
    optional<unique_ptr<iox::popo::WaitSet<3>>> ws;
    optional<unique_ptr<Listener>> lis;
};
template <typename P, typename R>
bool keep(P& p, R& r)
{
    if (r.has_error())
        return false;
    p.emplace(std::move(r.value()));
    if (p.value().get() == nullptr)
        sim_fail("P17:null", "creation succeeded without an object");
    return true;
}
capro::ServiceDescription desc(const char* s, int i)
{
    char b[16];
    snprintf(b, sizeof(b), "i%d", i);
    return capro::ServiceDescription(capro::IdString_t(TruncateToCapacity, s), capro::IdString_t(TruncateToCapacity, b), "ev");
}
// a: worker, b: kind
bool make(Node& node, int worker, int kind, Obj& o)
{
    int no;
    {
        SimAtomicSection s;
        no = static_cast<int>(++C().w[50]);
    }
    o.kind = kind;
    o.no = no;
    sim_hist(ctl::LIM_INV, worker, kind, no, 0);
    bool ok = false;
    switch (kind)
    {
    case 0: {
        auto r = node.publisher(desc("L", no % 7)).history_capacity(sim_choose(3)).create();
        ok = keep(o.pub, r);
        break;
    }
    case 1: {
        auto r = node.subscriber(desc("L", no % 7)).create();
        ok = keep(o.sub, r);
        break;
    }
    case 2: {
        auto r = node.client(desc("C", no % 7)).create();
        ok = keep(o.cli, r);
        break;
    }
    case 3: {
        auto r = node.server(desc("R", no)).create();
        ok = keep(o.srv, r);
        break;
    }
    default:
        if (no % 2)
        {
            auto r = node.wait_set().create<3>();
            ok = keep(o.ws, r);
        }
        else
        {
            auto r = node.listener().create();
            ok = keep(o.lis, r);
        }
    }
    sim_hist(ok ? ctl::LIM_OK : ctl::LIM_REF, worker, kind, no, 0);
    sim_count(ok ? "granted" : "refused", 1);
    if (!ok)
        o.kind = -1;
    return ok;
}
void drop(int worker, Obj& o)
{
    int k = o.kind, no = o.no;
    if (k < 0)
        return;
    sim_hist(ctl::LIM_DINV, worker, k, no, 0);
    o.pub.reset();
    o.sub.reset();
    o.cli.reset();
    o.srv.reset();
    o.ws.reset();
    o.lis.reset();
    o.kind = -1;
    sim_hist(ctl::LIM_DRET, worker, k, no, 0);
}
expected<Node, NodeBuilderError> makeNode(int app)
{
    return NodeBuilder(NodeName_t(TruncateToCapacity, C().app[app].name)).roudi_registration_timeout(units::Duration::fromSeconds(60)).create();
}

// commands of the controller: v[10 + app] = command number (1 fill kind, 2 churn, 3 drop all, 9 leave), v[30 + app] = its argument,
// w[10 + app] = number of the last command done, w[30 + app] = result
struct Worker
{
    Node* node;
    int app, no, ops, only;
    std::vector<std::unique_ptr<Obj>> objs;
};
void churn(Worker& w)
{
    auto& A = C().app[w.app];
    for (int i = 0; i < w.ops; ++i)
    {
        if (sim_choose(4) == 0)
            nap(static_cast<int>(sim_choose(3)) * 60);
        A.busy = A.busy + 1;
        bool grow = sim_choose(100) < (w.objs.size() < 3 ? 90u : 55u);
        if (grow)
        {
            auto o = std::make_unique<Obj>();
            if (make(*w.node, w.no, w.only >= 0 && sim_choose(5) ? w.only : static_cast<int>(sim_choose(KINDS)), *o))
                w.objs.push_back(std::move(o));
        }
        else
            for (uint32_t n = 1 + sim_choose(3); n > 0 && !w.objs.empty(); --n)
            {
                size_t j = sim_choose(static_cast<uint32_t>(w.objs.size()));
                drop(w.no, *w.objs[j]);
                w.objs.erase(w.objs.begin() + static_cast<ptrdiff_t>(j));
            }
        A.busy = A.busy - 1;
    }
}

// ---------------------------------------------------------------------------------------------- data plane
void dataLimits(Node& node, int app, int ops)
{
    auto& A = C().app[app];
    auto svc = desc("D", app);
    constexpr uint64_t LOANS = MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY, HELD = MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY;
    uint64_t q = 1 + sim_choose(MAX_SUBSCRIBER_QUEUE_CAPACITY);
    A.busy = 1;
    auto rp = node.publisher(svc).create();
    auto rs = node.subscriber(svc).queue_capacity(q).create();
    auto rv = node.server(svc).create();
    auto rc = node.client(svc).create();
    auto rw = node.wait_set().create<3>();
    auto rl = node.listener().create();
    if (rp.has_error() || rs.has_error() || rv.has_error() || rc.has_error() || rw.has_error() || rl.has_error())
        sim_fail("P17:refused", "an endpoint was refused although only a few exist");
    auto pub = std::move(rp.value());
    auto sub = std::move(rs.value());
    auto srv = std::move(rv.value());
    auto cli = std::move(rc.value());
    auto ws = std::move(rw.value());
    auto lis = std::move(rl.value());
    A.busy = 0;
    sim_deadline(20000000000ull, "*:connect", "connection of endpoints");
    while (sub->getSubscriptionState() != SubscribeState::SUBSCRIBED || cli->getConnectionState() != ConnectionState::CONNECTED)
        sim_sleep(5000000);
    sim_deadline_clear();
    std::vector<std::pair<Msg*, uint64_t>> loans; // bytes
    std::deque<uint64_t> queue;                   // expected content of the subscriber's queue (sequence numbers)
    std::vector<std::pair<const Msg*, uint64_t>> held;
    uint64_t seq = 0;
    std::vector<Msg*> reqLoans, rspLoans;
    std::deque<uint64_t> reqQueue, rspQueue;
    std::vector<std::pair<const Msg*, uint64_t>> reqHeld, rspHeld;
    uint64_t rseq = 0, pseq = 0;
    auto triggers = std::make_unique<UserTrigger[]>(14);
    int att[14] = {}; // 0 not attached, 1 wait set, 2 listener
    uint64_t nWs = 0, nLis = 0;
    const uint64_t src = static_cast<uint64_t>(app);
    auto note = [&](int worker, int type) { sim_hist(type, worker, 5, 0, 0); };
    std::deque<uint32_t> script;
    for (int i = 0; i < ops; ++i)
    {
        if (sim_choose(8) == 0)
            nap(20);
        A.busy = 1;
        uint32_t op = 0;
        if (script.empty())
            op = sim_choose(13);
        else
        {
            op = script.front();
            script.pop_front();
            --i;
        }
        int step = -1;
        if (op >= 100)
        {
            step = static_cast<int>(op % 10);
            op = op / 10;
        }
        switch (op)
        {
        case 12: // take more and more
            if (sim_choose(2))
                for (uint32_t n = 5 + sim_choose(40); n > 0; --n)
                    script.insert(script.end(), {1, 4, 6});
            else
                for (uint32_t n = 2 + sim_choose(8); n > 0; --n) // request, take it, respond, take the response
                    script.insert(script.end(), {100, 102, 110, 112, 113, 104});
            break;
        case 0:
        case 1:
        case 2: { // loan
            bool large = C().large && sim_choose(2);
            bool huge = sim_choose(12) == 0;
            uint64_t n = huge ? 100000 : large ? 90 + sim_choose(20) : sim_choose(8);
            if (large)
                note(app, ctl::LIM_INV);
            auto r = pub->loan(static_cast<uint64_t>(msgSize(n)), 8);
            if (large)
                note(app, !huge && !r.has_error() ? ctl::LIM_OK : r.has_error() && r.error() == AllocationError::RUNNING_OUT_OF_CHUNKS ? ctl::LIM_REF : ctl::LIM_NONE);
            if (r.has_error())
            {
                auto e = r.error();
                sim_count("loan refused", 1);
                if (huge)
                {
                    if (e == AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL && loans.size() < LOANS)
                        sim_fail("P17:loan", "too many loans reported with %zu loans", loans.size());
                }
                else if (e == AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL)
                {
                    if (loans.size() < LOANS)
                        sim_fail("P17:loan", "a loan was refused (too many) although only %zu of %lu are loaned", loans.size(), LOANS);
                }
                else if (!(large && e == AllocationError::RUNNING_OUT_OF_CHUNKS))
                    sim_fail("P17:loan", "a loan of %lu bytes was refused with error %d while %zu are loaned", msgSize(n), static_cast<int>(e), loans.size());
            }
            else
            {
                if (huge)
                    sim_fail("P17:loan", "a loan larger than every chunk was granted");
                if (loans.size() >= LOANS)
                    sim_fail("P17:loan", "a loan beyond the limit of %lu was granted", LOANS);
                auto* m = static_cast<Msg*>(r.value());
                for (auto& l : loans)
                    if (l.first == m)
                        sim_fail("P17:loan", "the same chunk was loaned twice");
                for (auto& h : held)
                    if (h.first == m)
                        sim_fail("P17:loan", "a chunk that the subscriber holds was loaned");
                // (large ones are only given back, never published)
                msgFill(m, src, 1000000 + static_cast<uint64_t>(i), large ? 0 : n);
                loans.push_back({m, large ? ~0ULL : n});
            }
            break;
        }
        case 3: // give a loan back
            if (!loans.empty())
            {
                size_t j = sim_choose(static_cast<uint32_t>(loans.size()));
                msgCheck(loans[j].first, "publisher", 4096, "before its release");
                bool large = loans[j].second == ~0ULL;
                if (large)
                    note(app, ctl::LIM_DINV);
                pub->release(loans[j].first);
                if (large)
                    note(app, ctl::LIM_DRET);
                loans.erase(loans.begin() + static_cast<ptrdiff_t>(j));
            }
            break;
        case 4:
        case 5: // publish
            if (!loans.empty())
            {
                size_t j = sim_choose(static_cast<uint32_t>(loans.size()));
                if (loans[j].second == ~0ULL)
                    break;
                msgCheck(loans[j].first, "publisher", 4096, "before its publication");
                msgFill(loans[j].first, src, seq, loans[j].second);
                pub->publish(loans[j].first);
                loans.erase(loans.begin() + static_cast<ptrdiff_t>(j));
                queue.push_back(seq++);
                if (queue.size() > q)
                    queue.pop_front();
            }
            break;
        case 6:
        case 7: // take
        {
            auto r = sub->take();
            if (r.has_error())
            {
                if (r.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE)
                {
                    if (!queue.empty())
                        sim_fail("P17:take", "nothing to take although %zu samples are in the queue", queue.size());
                }
                else
                {
                    sim_count("take refused", 1);
                    if (held.size() < HELD)
                        sim_fail("P17:take", "a sample was refused (too many held) although only %zu are held", held.size());
                    if (queue.empty())
                        sim_fail("P17:take", "a sample was refused although there is none");
                    queue.pop_front(); // (documented: it is dropped)
                }
                break;
            }
            auto* m = static_cast<const Msg*>(r.value());
            if (held.size() > HELD)
                sim_fail("P17:take", "a sample was granted although %zu are held", held.size());
            msgCheck(m, "subscriber", 4096, "on receipt");
            if (queue.empty() || m->seq != queue.front() || m->src != src)
                sim_fail("P17:take", "sample %lu of %lu was taken, expected was %ld", m->seq, m->src, queue.empty() ? -1L : static_cast<long>(queue.front()));
            held.push_back({m, m->seq});
            queue.pop_front();
            break;
        }
        case 8: // give samples back
            for (uint32_t n = sim_choose(3) ? 1 : static_cast<uint32_t>(held.size()); n > 0 && !held.empty(); --n)
            {
                size_t j = sim_choose(static_cast<uint32_t>(held.size()));
                msgCheck(held[j].first, "subscriber", 4096, "before its release");
                if (held[j].first->seq != held[j].second)
                    sim_fail("P17:take", "a held sample changed");
                sub->release(held[j].first);
                held.erase(held.begin() + static_cast<ptrdiff_t>(j));
            }
            break;
        case 9: { // attachments
            uint32_t t = sim_choose(14);
            if (att[t] && sim_choose(2)) // attached already
            {
                bool ok = att[t] == 1 ? !ws->attachEvent(triggers[t]).has_error()
                                      : !lis->attachEvent(triggers[t], createNotificationCallback(*+[](UserTrigger*) {})).has_error();
                if (ok)
                    sim_fail("P17:attach", "a trigger is attached twice");
            }
            else if (att[t])
            {
                if (att[t] == 1)
                {
                    ws->detachEvent(triggers[t]);
                    --nWs;
                }
                else
                {
                    lis->detachEvent(triggers[t]);
                    --nLis;
                }
                att[t] = 0;
            }
            else if (sim_choose(3))
            {
                bool ok = !lis->attachEvent(triggers[t], createNotificationCallback(*+[](UserTrigger*) {})).has_error();
                if (ok != (nLis < MAX_NUMBER_OF_EVENTS_PER_LISTENER))
                    sim_fail("P17:attach", "listener: attachment %s while %lu of %u are attached", ok ? "granted" : "refused", nLis, MAX_NUMBER_OF_EVENTS_PER_LISTENER);
                if (ok)
                    att[t] = 2, ++nLis;
                else
                    sim_count("attachment refused", 1);
            }
            else
            {
                bool ok = !ws->attachEvent(triggers[t]).has_error();
                if (ok != (nWs < 3))
                    sim_fail("P17:attach", "wait set: attachment %s while %lu of 3 are attached", ok ? "granted" : "refused", nWs);
                if (ok)
                    att[t] = 1, ++nWs;
                else
                    sim_count("attachment refused", 1);
            }
            if (ws->size() != nWs || lis->size() != nLis)
                sim_fail("P17:attach", "%lu and %lu attachments are reported instead of %lu and %lu", ws->size(), lis->size(), nWs, nLis);
            break;
        }
        case 10: // client side
        {
            uint32_t k = step >= 0 ? static_cast<uint32_t>(step) : sim_choose(6);
            if (k < 2)
            {
                auto r = cli->loan(msgSize(2), 8);
                if (r.has_error())
                {
                    sim_count("request refused", 1);
                    if (reqLoans.size() < MAX_REQUESTS_ALLOCATED_SIMULTANEOUSLY)
                        sim_fail("P17:request", "a request was refused although only %zu of %u are loaned", reqLoans.size(), MAX_REQUESTS_ALLOCATED_SIMULTANEOUSLY);
                }
                else
                {
                    if (reqLoans.size() > MAX_REQUESTS_ALLOCATED_SIMULTANEOUSLY)
                        sim_fail("P17:request", "a request was granted although %zu are loaned", reqLoans.size());
                    auto* m = static_cast<Msg*>(r.value());
                    msgFill(m, src, 2000000, 2);
                    reqLoans.push_back(m);
                }
            }
            else if (k < 4 && !reqLoans.empty())
            {
                Msg* m = reqLoans.back();
                reqLoans.pop_back();
                msgCheck(m, "client", 4096, "before it is sent");
                if (k == 2)
                {
                    msgFill(m, src, rseq, 2);
                    if (cli->send(m).has_error())
                        sim_fail("P17:request", "a request to a connected server was refused");
                    reqQueue.push_back(rseq++);
                    if (reqQueue.size() > MAX_REQUEST_QUEUE_CAPACITY)
                        reqQueue.pop_front();
                }
                else
                    cli->releaseRequest(m);
            }
            else if (k == 4)
            {
                auto r = cli->take();
                if (r.has_error())
                {
                    if (r.error() != ChunkReceiveResult::NO_CHUNK_AVAILABLE)
                    {
                        sim_count("response refused", 1);
                        if (rspHeld.size() < MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY || rspQueue.empty())
                            sim_fail("P17:response", "a response was refused although only %zu are held", rspHeld.size());
                        rspQueue.pop_front();
                    }
                    else if (!rspQueue.empty())
                        sim_fail("P17:response", "nothing to take although %zu responses are in the queue", rspQueue.size());
                }
                else
                {
                    auto* m = static_cast<const Msg*>(r.value());
                    if (rspHeld.size() > MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY)
                        sim_fail("P17:response", "a response was granted although %zu are held", rspHeld.size());
                    msgCheck(m, "client", 4096, "on receipt");
                    if (rspQueue.empty() || rspQueue.front() != m->seq)
                        sim_fail("P17:response", "response %lu was taken, expected was %ld", m->seq, rspQueue.empty() ? -1L : static_cast<long>(rspQueue.front()));
                    rspQueue.pop_front();
                    rspHeld.push_back({m, m->seq});
                }
            }
            else if (!rspHeld.empty())
            {
                msgCheck(rspHeld.back().first, "client", 4096, "before its release");
                cli->releaseResponse(rspHeld.back().first);
                rspHeld.pop_back();
            }
            break;
        }
        case 11: // server side
        {
            uint32_t k = step >= 0 ? static_cast<uint32_t>(step) : sim_choose(6);
            if (k < 2)
            {
                auto r = srv->take();
                if (r.has_error())
                {
                    if (r.error() == ServerRequestResult::TOO_MANY_REQUESTS_HELD_IN_PARALLEL)
                    {
                        sim_count("request take refused", 1);
                        if (reqHeld.size() < MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY || reqQueue.empty())
                            sim_fail("P17:request", "a request was refused although only %zu are held", reqHeld.size());
                        reqQueue.pop_front();
                    }
                    else if (!reqQueue.empty())
                        sim_fail("P17:request", "nothing to take (error %d) although %zu requests are in the queue", static_cast<int>(r.error()), reqQueue.size());
                }
                else
                {
                    auto* m = static_cast<const Msg*>(r.value());
                    if (reqHeld.size() > MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY)
                        sim_fail("P17:request", "a request was granted although %zu are held", reqHeld.size());
                    msgCheck(m, "server", 4096, "on receipt");
                    if (reqQueue.empty() || reqQueue.front() != m->seq)
                        sim_fail("P17:request", "request %lu was taken, expected was %ld", m->seq, reqQueue.empty() ? -1L : static_cast<long>(reqQueue.front()));
                    reqQueue.pop_front();
                    reqHeld.push_back({m, m->seq});
                }
            }
            else if (k == 2 && !reqHeld.empty())
            {
                auto r = srv->loan(RequestHeader::fromPayload(reqHeld.front().first), msgSize(2), 8);
                if (r.has_error())
                {
                    sim_count("response loan refused", 1);
                    if (rspLoans.size() < MAX_RESPONSES_ALLOCATED_SIMULTANEOUSLY)
                        sim_fail("P17:response", "a response was refused although only %zu of %u are loaned", rspLoans.size(), MAX_RESPONSES_ALLOCATED_SIMULTANEOUSLY);
                }
                else
                {
                    if (rspLoans.size() > MAX_RESPONSES_ALLOCATED_SIMULTANEOUSLY)
                        sim_fail("P17:response", "a response was granted although %zu are loaned", rspLoans.size());
                    auto* m = static_cast<Msg*>(r.value());
                    msgFill(m, src, 3000000, 2);
                    rspLoans.push_back(m);
                }
            }
            else if (k < 5 && !rspLoans.empty())
            {
                Msg* m = rspLoans.back();
                rspLoans.pop_back();
                msgCheck(m, "server", 4096, "before it is sent");
                if (k == 3)
                {
                    msgFill(m, src, pseq, 2);
                    if (srv->send(m).has_error())
                        sim_fail("P17:response", "a response to a connected client was refused");
                    rspQueue.push_back(pseq++);
                    if (rspQueue.size() > MAX_RESPONSE_QUEUE_CAPACITY)
                        rspQueue.pop_front();
                }
                else
                    srv->releaseResponse(m);
            }
            else if (!reqHeld.empty())
            {
                msgCheck(reqHeld.front().first, "server", 4096, "before its release");
                srv->releaseRequest(reqHeld.front().first);
                reqHeld.erase(reqHeld.begin());
            }
            break;
        }
        }
        A.busy = 0;
    }
    A.busy = 1;
    for (auto& l : loans)
    {
        if (l.second == ~0ULL)
            note(app, ctl::LIM_DINV);
        pub->release(l.first);
        if (l.second == ~0ULL)
            note(app, ctl::LIM_DRET);
    }
    for (auto& h : held)
        sub->release(h.first);
    for (auto* m : reqLoans)
        cli->releaseRequest(m);
    for (auto* m : rspLoans)
        srv->releaseResponse(m);
    for (auto& h : rspHeld)
        cli->releaseResponse(h.first);
    for (auto& h : reqHeld)
        srv->releaseRequest(h.first);
    triggers.reset();
    A.busy = 0;
}
} // namespace

void run_limits(int app)
{
    auto& A = C().app[app];
    A.busy = 1;
    auto r = makeNode(app);
    if (r.has_error())
        sim_fail("P17:node", "program %s could not register (error %d)", A.name, static_cast<int>(r.error()));
    Node node = std::move(r.value());
    A.busy = 0;
    A.up = 1;
    std::vector<Worker> w(2);
    for (int t = 0; t < 2; ++t)
    {
        w[static_cast<size_t>(t)].node = &node;
        w[static_cast<size_t>(t)].app = app;
        w[static_cast<size_t>(t)].no = app * 4 + t;
    }
    // (the witness)
    optional<unique_ptr<UntypedPublisher>> pub;
    optional<unique_ptr<UntypedSubscriber>> sub;
    uint64_t seq = 0;
    int last = 0;
    while (true)
    {
        int c = C().v[10 + app];
        if (c == last)
        {
            sim_sleep(3000000);
            continue;
        }
        last = c;
        int arg = C().v[30 + app];
        int64_t res = 0;
        int cmd = c % 16;
        if (cmd == 1) // fill
        {
            A.busy = 1;
            while (res < 64)
            {
                auto o = std::make_unique<Obj>();
                if (!make(node, w[0].no, arg, *o))
                    break;
                w[0].objs.push_back(std::move(o));
                ++res;
            }
            A.busy = 0;
        }
        else if (cmd == 2) // concurrent creation and destruction
        {
            int n = 1 + (arg & 1), ops = arg >> 8, only = ((arg >> 1) & 15) - 1;
            int f[2] = {};
            for (int t = 0; t < n; ++t)
            {
                w[static_cast<size_t>(t)].ops = ops;
                w[static_cast<size_t>(t)].only = only;
                f[t] = sim_thread([](void* p) { churn(*static_cast<Worker*>(p)); }, &w[static_cast<size_t>(t)], "worker");
            }
            for (int t = 0; t < n; ++t)
                sim_join(f[t]);
        }
        else if (cmd == 3 || cmd == 9) // give everything (arg >= 0: of a kind) back
        {
            A.busy = 1;
            for (auto& x : w)
                for (size_t i = 0; i < x.objs.size();)
                    if (arg < 0 || x.objs[i]->kind == arg)
                    {
                        drop(x.no, *x.objs[i]);
                        x.objs.erase(x.objs.begin() + static_cast<ptrdiff_t>(i));
                    }
                    else
                        ++i;
            A.busy = 0;
        }
        else if (cmd == 4) // one more of a kind
        {
            A.busy = 1;
            auto o = std::make_unique<Obj>();
            if (make(node, w[0].no, arg, *o))
            {
                w[0].objs.push_back(std::move(o));
                res = 1;
            }
            A.busy = 0;
        }
        else if (cmd == 5) // give one of a kind back
        {
            A.busy = 1;
            for (auto& x : w)
                for (size_t i = 0; i < x.objs.size() && !res; ++i)
                    if (x.objs[i]->kind == arg)
                    {
                        drop(x.no, *x.objs[i]);
                        x.objs.erase(x.objs.begin() + static_cast<ptrdiff_t>(i));
                        res = 1;
                    }
            A.busy = 0;
        }
        else if (cmd == 6) // witness: message to itself
        {
            A.busy = 1;
            if (!pub.has_value())
            {
                auto p = node.publisher(desc("W", app)).create();
                auto s = node.subscriber(desc("W", app)).create();
                if (p.has_error() || s.has_error())
                    sim_fail("P17:refused", "the first endpoints were refused");
                pub.emplace(std::move(p.value()));
                sub.emplace(std::move(s.value()));
            }
            sim_deadline(20000000000ull, "P17:witness", "a connected pair can still exchange a message");
            while (sub.value()->getSubscriptionState() != SubscribeState::SUBSCRIBED)
                sim_sleep(5000000);
            pub.value()->loan(msgSize(3), 8)
                .and_then([&](auto& m) {
                    msgFill(static_cast<Msg*>(m), static_cast<uint64_t>(app), seq, 3);
                    pub.value()->publish(m);
                })
                .or_else([&](auto&) { sim_fail("P17:witness", "a loan was refused"); });
            for (bool got = false; !got;)
            {
                auto t = sub.value()->take();
                if (t.has_error())
                {
                    sim_sleep(1000000);
                    continue;
                }
                auto* m = static_cast<const Msg*>(t.value());
                msgCheck(m, "witness", 4096, "on receipt");
                if (m->seq != seq)
                    sim_fail("P17:witness", "message %lu arrived instead of %lu", m->seq, seq);
                got = true;
                sub.value()->release(m);
            }
            sim_deadline_clear();
            ++seq;
            A.busy = 0;
        }
        else if (cmd == 7)
            dataLimits(node, app, arg);
        C().w[30 + app] = res;
        C().w[10 + app] = c;
        if (cmd == 9)
            break;
    }
    A.gone = 1;
}
