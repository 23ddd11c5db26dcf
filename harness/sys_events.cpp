// WaitSet and Listener programs.
//  mode 0: sources fire while a WaitSet thread and a Listener report them
//  mode 1: attachments to listeners come and go from several threads and from inside of callbacks
#include "cbind.h"
#include "sys_common.h"

#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"

#include <cstring>
#include <mutex>

using namespace iox;
using namespace iox::popo;

namespace
{
// ---------------------------------------------------------------------------------------------------- event sources
struct Src;
void handle(Src& s, bool byListener);
struct Src
{
    int e;
    ctl::Ep& c;
    std::unique_ptr<UserTrigger> ut;
    std::unique_ptr<UntypedSubscriber> sub;
    std::unique_ptr<cb::Sub> csub;
    std::unique_ptr<UntypedServer> srv;
    std::unique_ptr<UntypedClient> cli;
    std::mutex m; // a client sends and receives in different threads
    bool attached{false};
    bool detachedOnce{false};
    uint64_t reports{0};

    explicit Src(int ep)
        : e(ep)
        , c(C().ep[ep])
    {
        if (c.kind == 5)
            ut.reset(new UserTrigger());
        else if (c.kind == 2)
        {
            SubscriberOptions o;
            o.queueCapacity = c.hold ? static_cast<uint64_t>(c.hold) : 32;
            if (c.inC)
                csub.reset(new cb::Sub(svcDesc(c.svc), o));
            else
                sub.reset(new UntypedSubscriber(svcDesc(c.svc), o));
        }
        else if (c.kind == 4)
        {
            ServerOptions o;
            o.requestQueueCapacity = c.hold ? static_cast<uint64_t>(c.hold) : 8;
            srv.reset(new UntypedServer(svcDesc(c.svc), o));
        }
        else
        {
            ClientOptions o;
            o.responseQueueCapacity = c.hold ? static_cast<uint64_t>(c.hold) : 4;
            cli.reset(new UntypedClient(svcDesc(c.svc), o));
        }
        c.exists = 1;
    }
    bool ready()
    {
        if (sub)
            return sub->getSubscriptionState() == SubscribeState::SUBSCRIBED;
        if (csub)
            return csub->getSubscriptionState() == SubscribeState::SUBSCRIBED;
        if (srv)
            return srv->hasClients();
        if (cli)
            return cli->getConnectionState() == ConnectionState::CONNECTED;
        return true;
    }
    void take1()
    {
        int g = c.got;
        drain(1);
        c.got = g;
    }
    // takes up to n messages
    int drain(int n)
    {
        int k = 0;
        while (k < n)
        {
            if (sub)
            {
                auto r = sub->take();
                if (r.has_error())
                    break;
                sub->release(r.value());
            }
            else if (csub)
            {
                auto r = csub->take();
                if (r.has_error())
                    break;
                csub->release(r.value());
            }
            else if (srv)
            {
                auto r = srv->take();
                if (r.has_error())
                    break;
                srv->releaseRequest(r.value());
            }
            else if (cli)
            {
                std::lock_guard<std::mutex> g(m);
                auto r = cli->take();
                if (r.has_error())
                    break;
                cli->releaseResponse(r.value());
            }
            else
                break;
            ++k;
        }
        c.got = c.got + k;
        return k;
    }
    static void onTrigger(UserTrigger* const, Src* const s) { handle(*s, true); }
    static void onData(UntypedSubscriber* const, Src* const s) { handle(*s, true); }
    static void onRequest(UntypedServer* const, Src* const s) { handle(*s, true); }
    static void onResponse(UntypedClient* const, Src* const s) { handle(*s, true); }
    static void cTrigger(iox_user_trigger_t, void* s) { handle(*static_cast<Src*>(s), true); }
    static void cData(iox_sub_t, void* s) { handle(*static_cast<Src*>(s), true); }
    static void cRequest(iox_server_t, void* s) { handle(*static_cast<Src*>(s), true); }
    static void cResponse(iox_client_t, void* s) { handle(*static_cast<Src*>(s), true); }
    bool attachC(Listener& w)
    {
        return ListenerResult_SUCCESS
               == (ut     ? iox_listener_attach_user_trigger_event_with_context_data(&w, ut.get(), cTrigger, this)
                   : csub ? iox_listener_attach_subscriber_event_with_context_data(&w, csub->s, SubscriberEvent_DATA_RECEIVED, cData, this)
                   : srv  ? iox_listener_attach_server_event_with_context_data(&w, srv.get(), ServerEvent_REQUEST_RECEIVED, cRequest, this)
                          : iox_listener_attach_client_event_with_context_data(&w, cli.get(), ClientEvent_RESPONSE_RECEIVED, cResponse, this));
    }
    bool attachC(cpp2c_WaitSet& w, uint64_t id)
    {
        bool st = c.wait == 2;
        return WaitSetResult_SUCCESS
               == (ut     ? iox_ws_attach_user_trigger_event(&w, ut.get(), id, nullptr)
                   : csub ? (st ? iox_ws_attach_subscriber_state(&w, csub->s, SubscriberState_HAS_DATA, id, nullptr) : iox_ws_attach_subscriber_event(&w, csub->s, SubscriberEvent_DATA_RECEIVED, id, nullptr))
                   : srv  ? (st ? iox_ws_attach_server_state(&w, srv.get(), ServerState_HAS_REQUEST, id, nullptr) : iox_ws_attach_server_event(&w, srv.get(), ServerEvent_REQUEST_RECEIVED, id, nullptr))
                          : (st ? iox_ws_attach_client_state(&w, cli.get(), ClientState_HAS_RESPONSE, id, nullptr) : iox_ws_attach_client_event(&w, cli.get(), ClientEvent_RESPONSE_RECEIVED, id, nullptr)));
    }
    void detachC(Listener& w)
    {
        if (ut)
            iox_listener_detach_user_trigger_event(&w, ut.get());
        else if (csub)
            iox_listener_detach_subscriber_event(&w, csub->s, SubscriberEvent_DATA_RECEIVED);
        else if (srv)
            iox_listener_detach_server_event(&w, srv.get(), ServerEvent_REQUEST_RECEIVED);
        else
            iox_listener_detach_client_event(&w, cli.get(), ClientEvent_RESPONSE_RECEIVED);
    }
    void detachC(cpp2c_WaitSet& w)
    {
        bool st = c.wait == 2;
        if (ut)
            iox_ws_detach_user_trigger_event(&w, ut.get());
        else if (csub)
            st ? iox_ws_detach_subscriber_state(&w, csub->s, SubscriberState_HAS_DATA) : iox_ws_detach_subscriber_event(&w, csub->s, SubscriberEvent_DATA_RECEIVED);
        else if (srv)
            st ? iox_ws_detach_server_state(&w, srv.get(), ServerState_HAS_REQUEST) : iox_ws_detach_server_event(&w, srv.get(), ServerEvent_REQUEST_RECEIVED);
        else
            st ? iox_ws_detach_client_state(&w, cli.get(), ClientState_HAS_RESPONSE) : iox_ws_detach_client_event(&w, cli.get(), ClientEvent_RESPONSE_RECEIVED);
    }
    template <typename W>
    bool attach(W& w)
    {
        bool bad = false;
        uint64_t id = static_cast<uint64_t>(e) + 100;
        if constexpr (std::is_same<W, Listener>::value)
        {
            (void)id;
            if (c.inC)
                bad = !attachC(w);
            else if (ut)
                bad = w.attachEvent(*ut, createNotificationCallback(onTrigger, *this)).has_error();
            else if (sub)
                bad = w.attachEvent(*sub, SubscriberEvent::DATA_RECEIVED, createNotificationCallback(onData, *this)).has_error();
            else if (srv)
                bad = w.attachEvent(*srv, ServerEvent::REQUEST_RECEIVED, createNotificationCallback(onRequest, *this)).has_error();
            else
                bad = w.attachEvent(*cli, ClientEvent::RESPONSE_RECEIVED, createNotificationCallback(onResponse, *this)).has_error();
        }
        else
        {
            bool st = c.wait == 2;
            if (c.inC)
                bad = !attachC(w, id);
            else if (ut)
                bad = w.attachEvent(*ut, id).has_error();
            else if (sub)
                bad = (st ? w.attachState(*sub, SubscriberState::HAS_DATA, id) : w.attachEvent(*sub, SubscriberEvent::DATA_RECEIVED, id)).has_error();
            else if (srv)
                bad = (st ? w.attachState(*srv, ServerState::HAS_REQUEST, id) : w.attachEvent(*srv, ServerEvent::REQUEST_RECEIVED, id)).has_error();
            else
                bad = (st ? w.attachState(*cli, ClientState::HAS_RESPONSE, id) : w.attachEvent(*cli, ClientEvent::RESPONSE_RECEIVED, id)).has_error();
        }
        attached = !bad;
        sim_hist(ctl::EV_ATTACH, e, bad, 0, 0);
        return !bad;
    }
    template <typename W>
    void detach(W& w)
    {
        sim_hist(ctl::EV_DETACH_INV, e, 0, 0, 0);
        bool st = c.wait == 2;
        if (c.inC)
            detachC(w);
        else if (ut)
            w.detachEvent(*ut);
        else if constexpr (std::is_same<W, Listener>::value)
        {
            if (sub)
                w.detachEvent(*sub, SubscriberEvent::DATA_RECEIVED);
            else if (srv)
                w.detachEvent(*srv, ServerEvent::REQUEST_RECEIVED);
            else
                w.detachEvent(*cli, ClientEvent::RESPONSE_RECEIVED);
        }
        else
        {
            if (sub)
                st ? w.detachState(*sub, SubscriberState::HAS_DATA) : w.detachEvent(*sub, SubscriberEvent::DATA_RECEIVED);
            else if (srv)
                st ? w.detachState(*srv, ServerState::HAS_REQUEST) : w.detachEvent(*srv, ServerEvent::REQUEST_RECEIVED);
            else
                st ? w.detachState(*cli, ClientState::HAS_RESPONSE) : w.detachEvent(*cli, ClientEvent::RESPONSE_RECEIVED);
        }
        attached = false;
        detachedOnce = true;
        sim_hist(ctl::EV_DETACH_RET, e, 0, 0, 0);
    }
    bool originOf(const NotificationInfo& i)
    {
        if (ut)
            return i.doesOriginateFrom(ut.get());
        if (sub)
            return i.doesOriginateFrom(sub.get());
        if (csub)
            return iox_notification_info_does_originate_from_subscriber(&i, csub->s);
        if (srv)
            return i.doesOriginateFrom(srv.get());
        return i.doesOriginateFrom(cli.get());
    }
};
bool g_anyDetach;
void handle(Src& s, bool byListener)
{
    ctl::Ep& c = s.c;
    ++s.reports;
    sim_hist(byListener ? ctl::EV_CALLED : ctl::EV_REPORT, s.e, static_cast<int64_t>(s.reports), c.sent, c.got);
    if (sim_chance(100))
        sim_sleep(1000ull * sim_choose(3000));
    bool state = c.wait == 2;
    if (!state && !g_anyDetach && s.reports > static_cast<uint64_t>(c.sent))
        sim_fail("P10:false", "source %d was reported %lu times although it fired only %d times", s.e, s.reports, c.sent);
    if (s.ut || c.hold)
    {
        c.got = c.sent; // everything announced before is seen now
        if (c.hold && sim_choose(4) == 3)
            s.take1(); // most of its data stays in the queue, which overflows
    }
    else if (!state)
        s.drain(1000);
    else if (c.keep && C().phase < 1)
    {
        if (s.reports % 4 == 0)
            sim_sleep(50000);
        return; // this one leaves its data alone for a while
    }
    else
    {
        // only the thread that is told takes data, so what made the state true must still be there
        if (s.drain(1 + static_cast<int>(sim_choose(3))) == 0)
            sim_fail("P10:false", "the WaitSet reported that source %d has data, but there is none", s.e);
    }
}
// ---------------------------------------------------------------------------------------------------- mode 0
struct World
{
    std::vector<std::unique_ptr<Src>> src;
    std::unique_ptr<cpp2c_WaitSet> ws;
    std::unique_ptr<Listener> li;
    volatile bool stop{false}, marked{false};
} * g_w;

void waiter(void*)
{
    World& w = *g_w;
    std::vector<Src*> mine;
    for (auto& s : w.src)
        if (s->c.wait == 1 || s->c.wait == 2)
            mine.push_back(s.get());
    for (auto* s : mine)
        if (!s->attach(*w.ws))
            sim_fail("P10:attach", "source %d can not be attached", s->e);
    C().v[1] = 1;
    int toggles = C().v[2];
    while (!w.stop)
    {
        if (sim_chance(300))
            nap(C().v[3]);
        if (toggles > 0 && C().phase < 1 && sim_chance(100))
        {
            --toggles;
            Src& s = *mine[sim_choose(static_cast<uint32_t>(mine.size()))];
            if (s.attached)
                s.detach(*w.ws);
            else if (!s.attach(*w.ws))
                sim_fail("P11:reattach", "source %d can not be attached again", s.e);
            else if (s.c.wait == 1)
            {
                if (s.ut)
                    s.c.got = s.c.sent;
                else
                    s.drain(1000);
            }
        }
        if (C().phase >= 1)
            for (auto* s : mine)
                if (!s->attached)
                {
                    if (!s->attach(*w.ws))
                        sim_fail("P11:reattach", "source %d can not be attached again", s->e);
                    if (s->ut)
                        s->c.got = s->c.sent;
                    else if (s->c.wait == 1)
                        s->drain(1000);
                }
        bool allThere = true;
        for (auto* s : mine)
            allThere = allThere && s->attached;
        bool timed = !allThere || (C().v[4] && sim_choose(2));
        uint64_t ms = timed ? (allThere && sim_choose(4) == 3 ? 4000 : 1 + sim_choose(50)) : 0;
        sim_hist(ctl::EV_WAIT, timed, static_cast<int64_t>(ms), 0, 0);
        if (timed)
            sim_deadline((ms + 1000) * 1000000ull, "P10:timeout", "timedWait");
        C().v[5] = 1;
        WaitSet<>::NotificationInfoVector v;
        if (C().v[26]) // by way of the C interface
        {
            iox_notification_info_t arr[16];
            uint64_t missed = 77;
            struct timespec ts{static_cast<time_t>(ms / 1000), static_cast<long>(ms % 1000 * 1000000)};
            uint64_t n = timed ? iox_ws_timed_wait(w.ws.get(), ts, arr, 16, &missed) : iox_ws_wait(w.ws.get(), arr, 16, &missed);
            if (missed || n > 16)
                sim_fail("P10:foreign", "a wait with room for 16 reports gave %lu and says that it missed %lu", n, missed);
            for (uint64_t k = 0; k < n; ++k)
                v.push_back(arr[k]);
        }
        else
            v = timed ? w.ws->timedWait(units::Duration::fromMilliseconds(ms)) : w.ws->wait();
        C().v[5] = 0;
        if (timed)
            sim_deadline_clear();
        sim_hist(ctl::EV_WAKE, static_cast<int64_t>(v.size()), 0, 0, 0);
        std::vector<Src*> told;
        for (auto* i : v)
        {
            Src* o = nullptr;
            for (auto& s : w.src)
                if (s->originOf(*i))
                    o = s.get();
            if (!o || !o->attached || o->c.wait == 3 || i->getNotificationId() != static_cast<uint64_t>(o->e) + 100)
                sim_fail(o && !o->attached ? "P11:late" : "P10:foreign", "the WaitSet reported source %d, id %lu, which is not attached to it", o ? o->e : -1, i->getNotificationId());
            for (auto* t : told)
                if (t == o)
                    sim_fail("P10:twice", "one wait reported source %d twice", o->e);
            told.push_back(o);
        }
        for (auto* o : told)
            handle(*o, false);
    }
    while (!w.marked)
        sim_sleep(100000);
    if (sim_choose(2))
        w.ws.reset(); // with everything still attached
    else
        for (auto* s : mine)
            if (s->attached && sim_choose(2))
                s->detach(*w.ws);
}
void fire(void* p)
{
    Src& s = *g_w->src[static_cast<size_t>(reinterpret_cast<intptr_t>(p))];
    for (int k = 0; k < s.c.count; ++k)
    {
        if (!sim_chance(300))
            nap(s.c.pause);
        if (s.ut)
        {
            {
                SimAtomicSection a;
                s.c.sent = s.c.sent + 1;
            }
            sim_hist(ctl::EV_FIRE, s.e, s.c.sent, 0, 0);
            s.ut->trigger();
        }
        else
        {
            std::lock_guard<std::mutex> g(s.m);
            auto r = s.cli->loan(sizeof(Msg), 8);
            if (r.has_error())
                continue;
            msgFill(static_cast<Msg*>(r.value()), static_cast<uint64_t>(s.e), static_cast<uint64_t>(k), 0);
            (void)s.cli->send(r.value());
        }
        // a client does not let its response queue overflow
        for (int i = 0; s.cli && k + 1 - s.c.got > 2 && i < 4000; ++i)
            sim_sleep(500000);
        if (s.cli && k + 1 - s.c.got > 2)
            break;
    }
    SimAtomicSection a;
    s.c.settled = s.c.settled + 1;
}
// the other side of the sources
void peer(void* p)
{
    int e = static_cast<int>(reinterpret_cast<intptr_t>(p));
    ctl::Ep& c = C().ep[e];
    ctl::Ep& t = C().ep[c.keep]; // the source that it feeds
    if (c.kind == 1)
    {
        UntypedPublisher pub(svcDesc(c.svc));
        c.exists = 1;
        while (C().v[0] == 0)
            sim_sleep(1000000);
        for (int k = 0; k < c.count; ++k)
        {
            if (!sim_chance(300))
                nap(c.pause);
            auto r = pub.loan(sizeof(Msg), 8);
            if (r.has_error())
                continue;
            msgFill(static_cast<Msg*>(r.value()), static_cast<uint64_t>(e), static_cast<uint64_t>(k), 0);
            t.sent = t.sent + 1;
            sim_hist(ctl::EV_FIRE, c.keep, t.sent, 0, 0);
            pub.publish(r.value());
        }
        t.settled = 1;
        waitPhase(3);
    }
    else if (c.kind == 3) // client of a server source
    {
        UntypedClient cl(svcDesc(c.svc));
        c.exists = 1;
        while (C().v[0] == 0)
            sim_sleep(1000000);
        for (int k = 0; k < c.count; ++k)
        {
            if (!sim_chance(300))
                nap(c.pause);
            for (int i = 0; t.sent - t.got > 6 && i < 2000; ++i) // no overflow
                sim_sleep(1000000);
            if (t.sent - t.got > 6)
                break;
            auto r = cl.loan(sizeof(Msg), 8);
            if (r.has_error())
                continue;
            msgFill(static_cast<Msg*>(r.value()), static_cast<uint64_t>(e), static_cast<uint64_t>(k), 0);
            t.sent = t.sent + 1;
            sim_hist(ctl::EV_FIRE, c.keep, t.sent, 0, 0);
            if (cl.send(r.value()).has_error())
                sim_fail("*:harness", "a connected client can not send");
        }
        t.settled = 1;
        waitPhase(3);
    }
    else // server of a client source
    {
        UntypedServer sv(svcDesc(c.svc));
        c.exists = 1;
        while (C().phase < 3)
        {
            auto q = sv.take();
            if (q.has_error())
            {
                nap(c.pause);
                continue;
            }
            auto r = sv.loan(RequestHeader::fromPayload(q.value()), sizeof(Msg), 8);
            if (!r.has_error())
            {
                msgFill(static_cast<Msg*>(r.value()), static_cast<uint64_t>(e), 0, 0);
                t.sent = t.sent + 1;
                sim_hist(ctl::EV_FIRE, c.keep, t.sent, 0, 0);
                (void)sv.send(r.value());
            }
            sv.releaseRequest(q.value());
        }
    }
}
void events0(int app)
{
    World w;
    g_w = &w;
    g_anyDetach = C().v[2] != 0;
    std::vector<int> f, fs;
    int wt = -1;
    for (int i = 0; i < C().nEps; ++i)
        if (C().ep[i].app == app && !C().ep[i].wait)
            f.push_back(sim_thread(peer, reinterpret_cast<void*>(static_cast<intptr_t>(i)), "peer"));
    if (app == 0)
    {
        bool ws = false, li = false;
        for (int i = 0; i < C().nEps; ++i)
            if (C().ep[i].app == 0 && C().ep[i].wait)
            {
                w.src.emplace_back(new Src(i));
                ws = ws || C().ep[i].wait != 3;
                li = li || C().ep[i].wait == 3;
            }
        if (ws)
            w.ws.reset(new cpp2c_WaitSet());
        if (li)
            w.li.reset(new Listener());
        if (ws)
            wt = sim_thread(waiter, nullptr, "waiter");
        else
            C().v[1] = 1;
        for (auto& s : w.src)
            if (s->c.wait == 3 && !s->attach(*w.li))
                sim_fail("P10:attach", "source %d can not be attached", s->e);
        while (!C().v[1])
            sim_sleep(1000000);
        // everybody is connected
        for (auto& s : w.src)
            while (!s->ready())
                sim_sleep(20000000);
        sim_sleep(500000000);
        C().v[0] = 1;
        for (size_t i = 0; i < w.src.size(); ++i)
            for (int k = 0; w.src[i]->c.kind == 5 ? k < w.src[i]->c.burst : (w.src[i]->c.kind == 3 && k < 1); ++k)
                fs.push_back(sim_thread(fire, reinterpret_cast<void*>(static_cast<intptr_t>(i)), "fire"));
    }
    for (int x : fs)
        sim_join(x);
    C().app[app].done = 1;
    waitPhase(2);
    if (w.ws)
    {
        // wakes whoever waits, for good
        w.stop = true;
        sim_deadline(2000000000ull, "P10:wakeup", "return of a waiting thread after markForDestruction");
        w.ws->markForDestruction();
        w.marked = true;
        sim_join(wt);
        sim_deadline_clear();
    }
    if (w.li && sim_choose(2))
    {
        sim_deadline(2000000000ull, "P10:wakeup", "end of the listener");
        w.li.reset();
        sim_deadline_clear();
    }
    C().app[app].done = 2;
    waitPhase(3);
    for (int x : f)
        sim_join(x);
    w.src.clear();
    w.li.reset();
    w.ws.reset();
}
// ---------------------------------------------------------------------------------------------------- mode 1
constexpr int SLOTS = 6, MAXL = 2, GENS = 400;
struct Gen // one attachment; never reused
{
    int slot, no, lis;
    volatile int attached; // attachEvent has returned
    volatile int dead;     // a detach, the end of the source or of the listener has returned
    volatile int inCb;     // running
    volatile int thread;
    volatile int calls;
    volatile int own;    // detaches itself: nobody else waits for the end of the running callback
    volatile int unsure; // a detach ran at the same time
};
struct Slot
{
    int no{0};
    int kind{0}; // 5 or 2
    alignas(16) char mem[2048];
    UserTrigger* ut{nullptr};
    UntypedSubscriber* sub{nullptr};
    cb::Sub* csub{nullptr};
    volatile int users{0}, excl{0};
    volatile int outside{0};    // threads that are inside of detach, not called from a callback
    volatile int inside{0};     // its own callback is inside of a call for itself
    volatile int lis{-1};
    volatile int detActive{0}, detDone{0};
    volatile int changing{0};   // threads inside of attach or detach
};
Gen g_gen[GENS];
int g_nGen;
Slot g_slot[SLOTS];
Listener* g_lis[MAXL];
int g_renewed;
volatile int g_lisBusy[MAXL];
volatile int g_attachOutside[MAXL], g_attachInside[MAXL];
static_assert(sizeof(UntypedSubscriber) <= 2048 && sizeof(UserTrigger) <= 2048, "slot");

// self detaches and foreign attach / detach at the same time (reported with a tag of their own)
void updateFlags()
{
    int a = 0, b = 0;
    for (auto& s : g_slot)
        a |= s.outside > 0 && s.inside > 0;
    for (int l = 0; l < MAXL; ++l)
        b |= g_attachOutside[l] > 0 && g_attachInside[l] > 0;
    C().v[10] = a;
    C().v[11] = b;
}
void inc(volatile int& x, int d)
{
    SimAtomicSection a;
    x = x + d;
    updateFlags();
}
bool enter(Slot& s)
{
    SimAtomicSection a;
    if (s.excl || (!s.ut && !s.sub && !s.csub))
        return false;
    s.users = s.users + 1;
    return true;
}
void leave(Slot& s) { inc(s.users, -1); }
bool lock(Slot& s)
{
    {
        SimAtomicSection a;
        if (s.excl)
            return false;
        s.excl = 1;
    }
    while (s.users)
        sim_sleep(30000);
    return true;
}
// a subscriber, unlike a user trigger, is attached and detached by one thread at a time
bool change(Slot& s)
{
    SimAtomicSection a;
    if ((s.sub || s.csub) && s.changing)
    {
        if (!C().v[12])
            return false;
        C().v[13] = 1;
    }
    s.changing = s.changing + 1;
    return true;
}
struct Change
{
    Slot& s;
    ~Change() { inc(s.changing, -1); }
};
void callback(Gen* g, Slot& s);
void onTrig(UserTrigger* const o, Gen* const g)
{
    if (o != g_slot[g->slot].ut && !g->dead)
        sim_fail("P11:origin", "a callback of slot %d got a wrong origin", g->slot);
    callback(g, g_slot[g->slot]);
}
void onSub(UntypedSubscriber* const o, Gen* const g)
{
    if (o != g_slot[g->slot].sub && !g->dead)
        sim_fail("P11:origin", "a callback of slot %d got a wrong origin", g->slot);
    callback(g, g_slot[g->slot]);
}
void onCSub(iox_sub_t o, void* x)
{
    auto* g = static_cast<Gen*>(x);
    if (!g->dead && (!g_slot[g->slot].csub || o != g_slot[g->slot].csub->s))
        sim_fail("P11:origin", "a callback of slot %d got a wrong origin", g->slot);
    callback(g, g_slot[g->slot]);
}
// marks what must not be called any more; before: collected before the call
std::vector<Gen*> live(Slot& s)
{
    SimAtomicSection a;
    std::vector<Gen*> v;
    for (int i = 0; i < g_nGen; ++i)
        if (g_gen[i].slot == s.no && g_gen[i].attached && !g_gen[i].dead)
            v.push_back(&g_gen[i]);
    return v;
}
void doAttach(Slot& s, int l, bool inCallback)
{
    Gen* g;
    if (!change(s))
        return;
    Change ch{s};
    {
        SimAtomicSection a;
        if (g_nGen >= GENS)
            return;
        g = &g_gen[g_nGen++];
        *g = Gen{s.no, g_nGen - 1, l, 0, 0, 0, 0, 0, 0, s.detActive > 0};
        if (s.lis >= 0 && s.lis != l) // one listener at a time
            return;
        s.lis = l;
    }
    if (!g_lis[l])
        return;
    int done = s.detDone;
    std::vector<Gen*> before = live(s);
    inc(inCallback ? g_attachInside[l] : g_attachOutside[l], 1);
    sim_hist(ctl::EV_ATTACH, s.no, g->no, l, inCallback);
    bool bad = s.ut ? g_lis[l]->attachEvent(*s.ut, createNotificationCallback(onTrig, *g)).has_error()
               : s.csub ? iox_listener_attach_subscriber_event_with_context_data(g_lis[l], s.csub->s, SubscriberEvent_DATA_RECEIVED, onCSub, g) != ListenerResult_SUCCESS
                    : g_lis[l]->attachEvent(*s.sub, SubscriberEvent::DATA_RECEIVED, createNotificationCallback(onSub, *g)).has_error();
    inc(inCallback ? g_attachInside[l] : g_attachOutside[l], -1);
    if (bad)
        g->dead = 2;
    else
    {
        SimAtomicSection a;
        g->attached = 1;
        if (s.detActive || s.detDone != done)
            g->unsure = 1;
        for (auto* b : before) // an origin is attached once
            b->dead = 1;
    }
    sim_hist(ctl::EV_ATTACH, s.no, g->no, l, bad ? 3 : 2);
}
void bury(const std::vector<Gen*>& v, const char* what)
{
    SimAtomicSection a;
    for (auto* g : v)
    {
        if (g->inCb && g->thread != sim_self() && !g->own)
            sim_fail("P11:running", "the callback of attachment %d of slot %d is still running when %s has returned", g->no, g->slot, what);
        g->dead = 1;
    }
}
void doDetach(Slot& s, bool inCallback, bool self)
{
    int l = s.lis;
    if (l < 0 || !g_lis[l] || !change(s))
        return;
    Change ch{s};
    auto v = live(s);
    inc(s.detActive, 1);
    if (!inCallback)
        inc(s.outside, 1);
    if (self)
        inc(s.inside, 1);
    sim_hist(ctl::EV_DETACH_INV, s.no, inCallback, self, 0);
    if (s.ut)
        g_lis[l]->detachEvent(*s.ut);
    else if (s.csub)
        iox_listener_detach_subscriber_event(g_lis[l], s.csub->s, SubscriberEvent_DATA_RECEIVED);
    else
        g_lis[l]->detachEvent(*s.sub, SubscriberEvent::DATA_RECEIVED);
    sim_hist(ctl::EV_DETACH_RET, s.no, inCallback, self, 0);
    if (!inCallback)
        inc(s.outside, -1);
    if (self)
        inc(s.inside, -1);
    inc(s.detActive, -1);
    inc(s.detDone, 1);
    bury(v, "detachEvent");
}
void callback(Gen* g, Slot& s)
{
    if (g->dead)
        sim_fail("P11:late", "the callback of attachment %d of slot %d runs although %s", g->no, s.no, g->dead == 2 ? "it was refused" : "the attachment is gone");
    {
        SimAtomicSection a;
        g->inCb = 1;
        g->own = 0;
        g->thread = sim_self();
        g->calls = g->calls + 1;
    }
    sim_hist(ctl::EV_CALLED, s.no, g->no, 0, 0);
    if (s.sub)
        while (true)
        {
            auto r = s.sub->take();
            if (r.has_error())
                break;
            s.sub->release(r.value());
        }
    if (s.csub)
        while (true)
        {
            auto r = s.csub->take();
            if (r.has_error())
                break;
            s.csub->release(r.value());
        }
    if (C().phase == 0 && C().v[7])
    {
        uint32_t a = sim_choose(12);
        Slot& o = g_slot[sim_choose(SLOTS)];
        if (a == 1)
            sim_sleep(1000ull * sim_choose(2000));
        else if (a == 2 && (C().v[7] & 1))
        {
            if (enter(s))
            {
                g->own = 1;
                doDetach(s, true, true);
                if (sim_choose(2) && (C().v[7] & 2))
                    doAttach(s, g->lis, true);
                leave(s);
            }
        }
        else if (a == 3 && o.lis == g->lis && &o != &s && (C().v[7] & 4))
        {
            if (enter(o))
            {
                if (o.lis == g->lis)
                    doDetach(o, true, false);
                leave(o);
            }
        }
        else if (a == 4 && (C().v[7] & 2))
        {
            if (enter(o))
            {
                if (o.lis == g->lis || o.lis < 0)
                    doAttach(o, g->lis, true);
                leave(o);
            }
        }
        else if (a == 5 && s.ut && (C().v[7] & 1))
        {
            if (enter(s))
            {
                inc(s.inside, 1);
                s.ut->trigger();
                inc(s.inside, -1);
                leave(s);
            }
        }
    }
    SimAtomicSection a;
    g->inCb = 0;
}
void fire1(void*)
{
    while (C().phase == 0)
    {
        if (!sim_chance(400))
            nap(C().v[3]);
        Slot& s = g_slot[sim_choose(SLOTS)];
        if (!enter(s))
            continue;
        if (s.ut)
            s.ut->trigger();
        leave(s);
    }
}
void make(Slot& s)
{
    if (s.kind == 5)
        s.ut = new (s.mem) UserTrigger();
    else
    {
        SubscriberOptions o;
        o.queueCapacity = 16;
        if (C().v[27])
            s.csub = new cb::Sub(svcDesc(0), o);
        else
            s.sub = new (s.mem) UntypedSubscriber(svcDesc(0), o);
    }
    s.lis = -1;
}
void unmake(Slot& s)
{
    auto v = live(s);
    if (C().v[27] && sim_choose(3) == 2) // interrupted somewhere
        sim_slow(600000000);
    if (s.ut)
        s.ut->~UserTrigger();
    else if (s.csub)
        delete s.csub;
    else
        s.sub->~UntypedSubscriber();
    sim_slow(0);
    bury(v, "the destructor of its origin");
    s.ut = nullptr;
    s.sub = nullptr;
    s.csub = nullptr;
    memset(s.mem, 0xdd, sizeof(s.mem));
    s.lis = -1;
}
void owner(void* p)
{
    int me = static_cast<int>(reinterpret_cast<intptr_t>(p)), n = C().v[8];
    for (int k = 0; k < C().v[9] && C().phase == 0; ++k)
    {
        if (!sim_chance(300))
            nap(C().v[3]);
        uint32_t a = sim_choose(12);
        int i = static_cast<int>(sim_choose(SLOTS));
        Slot& s = g_slot[i];
        if (a < 5)
        {
            if (!enter(s))
                continue;
            int l = static_cast<int>(sim_choose(static_cast<uint32_t>(C().v[6])));
            if (s.lis < 0 || s.lis == l) // moves to another listener only after a destruction or an explicit change below
                doAttach(s, l, false);
            leave(s);
        }
        else if (a < 9)
        {
            if (!enter(s))
                continue;
            doDetach(s, false, false);
            leave(s);
        }
        else if (a == 11 && me == 0 && g_renewed < 4 && sim_chance(300)) // the end of a listener
        {
            bool ok = true;
            std::vector<Slot*> held;
            for (auto& x : g_slot)
                if (lock(x))
                    held.push_back(&x);
                else
                    ok = false;
            if (ok)
            {
                int l = static_cast<int>(sim_choose(static_cast<uint32_t>(C().v[6])));
                std::vector<Gen*> v;
                for (auto& x : g_slot)
                    for (auto* g : live(x))
                        if (g->lis == l)
                            v.push_back(g);
                ++g_renewed; // condition variables are given back by the daemon only later
                Listener* old = g_lis[l];
                // callbacks may still look at it, but nobody can attach to or detach from it: every slot is locked
                delete old;
                bury(v, "the destructor of the listener");
                for (auto& x : g_slot)
                    if (x.lis == l)
                        x.lis = -1;
                g_lis[l] = new Listener();
            }
            for (auto* x : held)
                x->excl = 0;
        }
        else if (i % n == me) // only the owner creates and destroys
        {
            if (!lock(s))
                continue;
            if (s.ut || s.sub || s.csub)
                unmake(s);
            else
                make(s);
            s.excl = 0;
        }
    }
}
void events1(int app)
{
    if (app == 1)
    {
        UntypedPublisher pub(svcDesc(0));
        for (int k = 0; C().phase < 2; ++k)
        {
            auto r = pub.loan(sizeof(Msg), 8);
            if (!r.has_error())
            {
                msgFill(static_cast<Msg*>(r.value()), 0, 0, 0);
                pub.publish(r.value());
            }
            if (C().v[14] && C().phase == 0 && k < 1500)
                sim_sleep(1000ull * (1 + sim_choose(200)));
            else
                nap(C().v[3] + 5);
        }
        C().app[app].done = 1;
        waitPhase(3);
        return;
    }
    for (int i = 0; i < SLOTS; ++i)
    {
        g_slot[i].no = i;
        g_slot[i].kind = (i % 3 == 2) != (C().v[14] != 0) ? 2 : 5;
        make(g_slot[i]);
    }
    for (int l = 0; l < C().v[6]; ++l)
        g_lis[l] = new Listener();
    std::vector<int> f, o;
    for (int i = 0; i < C().v[8]; ++i)
        o.push_back(sim_thread(owner, reinterpret_cast<void*>(static_cast<intptr_t>(i)), "owner"));
    for (int i = 0; i < 2; ++i)
        f.push_back(sim_thread(fire1, nullptr, "fire"));
    for (int x : o)
        sim_join(x);
    C().app[app].done = 1;
    waitPhase(1);
    for (int x : f)
        sim_join(x);
    // callbacks no longer change anything
    sim_sleep(50000000);
    // everything that is attached still works, and only that
    for (int l = 0; l < C().v[6]; ++l)
    {
        uint64_t n = 0, unsure = 0;
        for (auto& s : g_slot)
            for (auto* g : live(s))
                if (g->lis == l)
                    ++(g->unsure ? unsure : n);
        if (n > g_lis[l]->size() || g_lis[l]->size() > n + unsure)
            sim_fail("P11:others", "listener %d has %lu attachments, but %lu were made and not taken back", l, g_lis[l]->size(), n);
    }
    for (auto& s : g_slot)
    {
        auto v = live(s);
        if (v.empty() || v.size() > 1 || v[0]->unsure)
            continue;
        int before = v[0]->calls;
        if (s.ut)
            s.ut->trigger(); // (a publisher feeds the subscribers)
        for (int i = 0; v[0]->calls == before; ++i)
        {
            if (i > 200 && ((s.sub && !s.sub->hasData()) || (s.csub && !s.csub->hasData()))) // one of too many for the publisher: the daemon still counts those which are gone
                break;
            if (i > 2000)
                sim_fail("P11:others", "the %s of slot %d is attached (attachment %d), but its callback is no longer called", s.ut ? "trigger" : "subscriber", s.no, v[0]->no);
            sim_sleep(1000000);
        }
    }
    for (auto& s : g_slot)
        if ((s.ut || s.sub || s.csub) && sim_choose(2))
            unmake(s);
    for (auto*& l : g_lis)
    {
        delete l;
        l = nullptr;
    }
    for (auto& s : g_slot)
        if (s.ut || s.sub || s.csub)
            unmake(s);
    C().app[app].done = 2;
    waitPhase(3);
}
} // namespace

void run_events(int app)
{
    runtime::PoshRuntime::initRuntime(RuntimeName_t(TruncateToCapacity, C().app[app].name));
    C().app[app].up = 1;
    if (C().mode == 0)
        events0(app);
    else
        events1(app);
    C().app[app].done = 4;
}
