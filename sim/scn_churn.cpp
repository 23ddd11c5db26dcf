// Connections and discovery converge to what is offered.
#include "sys.h"
#include <algorithm>
#include <iterator>
#include <set>

namespace sim
{
namespace
{
bool alive_ep(int i)
{
    ctl::Ep& e = C().ep[i];
    return app_alive(static_cast<size_t>(e.app)) && e.exists;
}
bool match(int i, int j) // i: publisher or server, j: subscriber or client
{
    ctl::Ep &a = C().ep[i], &b = C().ep[j];
    if (a.svc != b.svc)
        return false;
    if (a.kind == 1 && b.kind == 2)
        return !(b.block && !a.block) && !(b.needHist && a.history == 0);
    if (a.kind == 4 && b.kind == 3)
        return !(!(b.block & 1) && (a.block & 2)) && !(!(a.block & 1) && (b.block & 2));
    return false;
}
void add_churn_ep(int kind, int app, int svc)
{
    auto& e = add_ep(kind, app, svc);
    e.history = static_cast<int>(sim_choose(2) ? pick(1, 3) : 0);
    e.needHist = kind == 2 && e.history && sim_choose(4) == 3;
    e.block = kind <= 2 ? sim_choose(4) == 3 : static_cast<int>(sim_choose(3) == 2 ? sim_choose(4) : 0);
    e.toggles = static_cast<int>(pick(0, 14));
    e.pause = sim_choose(3) == 2 ? 150 : 20;
    e.late = sim_choose(3) == 2 ? static_cast<int>(sim_choose(400)) : 0;
}
void c_churn()
{
    sys_init();
    int nApps = static_cast<int>(pick(1, 3));
    int nSvc = static_cast<int>(pick(1, 5));
    C().v[23] = sim_choose(3) == 2; // two threads search at the same time
    C().v[0] = nSvc;
    C().v[24] = sim_choose(4) == 3; // endpoints are mainly made and destroyed, slowly
    C().small = 400;
    C().large = 0;
    bool server[8] = {};
    for (int n = static_cast<int>(pick(2, C().v[24] ? 4 : 8)); n > 0; --n)
    {
        int kind = static_cast<int>(pick(1, 4)), svc = static_cast<int>(pick(0, static_cast<uint32_t>(nSvc - 1)));
        if (kind == 4 && server[svc]) // only one server of a service at a time
            kind = 3;
        if (kind == 4)
            server[svc] = true;
        add_churn_ep(kind, static_cast<int>(pick(0, static_cast<uint32_t>(nApps - 1))), svc);
    }
    start_roudi();
    for (int a = 0; a < nApps; ++a)
        start_app(a, ctl::CHURN);
    for (int a = 0; a < nApps; ++a)
        must([a] { return C().app[a].up != 0; }, 60 * SEC, tag_for({"P08", "P14"}, "register"), std::string("registration of ") + C().app[a].name);
    bool crashed = false;
    if (nApps > 1 && sim_choose(3) == 2) // one is killed between two calls, and possibly comes back
    {
        sim_sleep(pick(0, 800) * MS);
        auto idle = [] {
            if (C().app[0].busy)
                return false;
            for (int i = 0; i < C().nEps; ++i)
                if (C().ep[i].app == 0 && C().ep[i].inop)
                    return false;
            return true;
        };
        if (wait_until(idle, 5 * SEC, 53000))
        {
            g_res->crashes++;
            end_proc(g_sys.apps[0], ProcEnd::KILLED);
            crashed = true;
            if (sim_choose(2))
            {
                sim_sleep(pick(0, 2500) * MS);
                int b = C().nApps;
                strcpy(C().app[b].name, C().app[0].name);
                int n = C().nEps;
                for (int i = 0; i < n; ++i)
                    if (C().ep[i].app == 0 && sim_choose(3) != 2)
                        add_churn_ep(C().ep[i].kind, b, C().ep[i].svc);
                start_app(b, ctl::CHURN);
                must([b] { return C().app[b].up != 0; }, 30 * SEC, tag_for({"P08", "P06"}, "register"), "registration of the restarted application");
            }
        }
    }
    for (int i = 0; i < C().nEps; ++i)
        if (app_alive(static_cast<size_t>(C().ep[i].app)))
            must([i] { return C().ep[i].settled >= 1; }, 200 * SEC, tag_for({"P08", "P04"}, "stuck"), "end of the changes of endpoint " + std::to_string(i));
    if (crashed)
        sim_sleep(2500 * MS);
    sim_sleep(1000 * MS); // ten discovery rounds
    C().phase = 2;
    for (int i = 0; i < C().nEps; ++i)
        if (app_alive(static_cast<size_t>(C().ep[i].app)))
            must([i] { return C().ep[i].settled >= 2; }, 60 * SEC, tag_for({"P08", "P04"}, "stuck"), "last message of endpoint " + std::to_string(i));
    for (int a = 0; a < C().nApps; ++a)
        if (app_alive(static_cast<size_t>(a)))
            must([a] { return C().app[a].done >= 2; }, 60 * SEC, tag_for({"P08"}, "search"), std::string("service search of ") + C().app[a].name);
    sim_sleep(400 * MS);
    C().phase = 3;
    for (int i = 0; i < C().nEps; ++i)
        if (app_alive(static_cast<size_t>(C().ep[i].app)))
            must([i] { return C().ep[i].settled >= 3; }, 60 * SEC, tag_for({"P08"}, "stuck"), "last receive of endpoint " + std::to_string(i));
    uint64_t offered[2] = {0, 0};
    for (int i = 0; i < C().nEps; ++i)
    {
        ctl::Ep& e = C().ep[i];
        if (!alive_ep(i))
            continue;
        if ((e.kind == 1 || e.kind == 4) && e.wants)
            offered[e.kind == 4] |= 1ull << e.svc;
        bool prov = e.kind == 1 || e.kind == 4;
        uint32_t partners = 0;
        for (int j = 0; j < C().nEps; ++j)
            if (alive_ep(j) && e.wants && C().ep[j].wants && (prov ? match(i, j) : match(j, i)))
                partners |= 1u << j;
        const char* kinds[] = {"?", "publisher", "subscriber", "client", "server"};
        if (prov)
        {
            if ((e.state != 0) != (e.wants != 0))
                sim_fail("P08:offer", "%s %d %s offered, but reports %d", kinds[e.kind], i, e.wants ? "is" : "is not", e.state);
            if ((e.peers != 0) != (partners != 0))
                sim_fail("P08:peers", "%s %d %s a partner but reports %s", kinds[e.kind], i, partners ? "has" : "does not have", e.peers ? "one" : "none");
        }
        else if (e.kind == 2)
        {
            if (e.state != (e.wants ? 2 : 0))
                sim_fail("P08:state", "subscriber %d %s subscribed, but its state is %d", i, e.wants ? "is" : "is not", e.state);
        }
        else
        {
            int want = !e.wants ? 0 : partners ? 2 : 4; // NOT_CONNECTED, CONNECTED, WAIT_FOR_OFFER
            if (e.state != want)
                sim_fail("P08:state", "client %d (%s, %s server) is in state %d instead of %d", i, e.wants ? "connects" : "does not connect", partners ? "with a" : "without a", e.state, want);
        }
        // what really arrived in the end
        uint32_t heard = e.mask;
        if (e.kind == 1)
            heard = partners;
        if (heard != partners)
            sim_fail("P08:traffic", "%s %d heard of endpoints %x, but is to be connected with %x", kinds[e.kind], i, heard, partners);
    }
    for (auto& h : g_hist)
    {
        if (h.type != ctl::FIND)
            continue;
        if (h.d >> 32)
            sim_fail("P08:search", "a search lists a service twice (%lx)", static_cast<unsigned long>(h.d));
        uint64_t exp = 0;
        int qs = static_cast<int>(h.c >> 16) - 1, qi = static_cast<int>(h.c >> 8 & 255) - 1, qe = static_cast<int>(h.c & 255) - 1;
        for (int k = 0; k < 8; ++k)
        {
            int s, i, e;
            ctl::svcParts(k, C().rot, s, i, e);
            if ((offered[h.b] >> k & 1) && (qs < 0 || qs == s) && (qi < 0 || qi == i) && (qe < 0 || qe == e))
                exp |= 1ull << k;
        }
        if (exp != static_cast<uint64_t>(h.d))
            sim_fail("P08:search", "%s searched %s services (service %d, instance %d, event %d): found %lx, offered are %lx", C().app[h.a].name, h.b ? "request/response" : "publish/subscribe", qs, qi, qe,
                     static_cast<unsigned long>(h.d), static_cast<unsigned long>(exp));
    }
    finish_apps(tag_for({"P08", "P14"}, "end"));
    check_pools_full(tag_for({"P08", "P05"}, "leak"), "although every endpoint is gone");
    finish_roudi(tag_for({"P08", "P14"}, "end"));
}

// ------------------------------------------------------------------------------------------------ introspection
std::string text(const ctl::IntroPort& p, bool sub)
{
    char b[256];
    snprintf(b, sizeof(b), "%.31s %.31s/%.31s/%.31s history %lu %s%s%s", p.app, p.service, p.instance, p.event, static_cast<unsigned long>(p.history), p.on ? "on " : "", p.block ? "blocking " : "",
             sub && p.need ? "needs " : "");
    std::string r = b;
    if (sub)
        r += " queue " + std::to_string(p.queue) + " state " + std::to_string(p.state);
    return r;
}
bool isIntro(const ctl::IntroPort& p) { return !strcmp(p.service, "Introspection") || !strcmp(p.app, "roudi"); }
void same(const char* tag, const char* what, const char* when, std::vector<std::string> said, std::vector<std::string> real)
{
    std::sort(said.begin(), said.end());
    std::sort(real.begin(), real.end());
    std::vector<std::string> a, b;
    std::set_difference(said.begin(), said.end(), real.begin(), real.end(), std::back_inserter(a));
    std::set_difference(real.begin(), real.end(), said.begin(), said.end(), std::back_inserter(b));
    if (!a.empty())
        sim_fail(tag, "%s: introspection lists the %s '%s', which does not exist (like that)%s%s", when, what, a[0].c_str(), b.empty() ? "" : "; missing: ", b.empty() ? "" : b[0].c_str());
    if (!b.empty())
        sim_fail(tag, "%s: introspection does not list the %s '%s'", when, what, b[0].c_str());
}
void c_compare(int obs, bool disc, const char* when)
{
    ctl::Intro& in = C().in[obs];
    in.req = in.req + 1;
    must([&in] { return in.ack == in.req; }, 20 * SEC, "P18:observer", "answer of the observer");
    if (in.seen != 15)
        sim_fail("P18:silent", "%s: the observer did not get every introspection topic (%d)", when, static_cast<int>(in.seen));
    std::vector<std::string> said, real;
    for (int i = 0; i < in.nProc; ++i)
        said.push_back(std::string(in.proc[i].name) + " " + std::to_string(in.proc[i].pid));
    real.push_back("roudi " + std::to_string(g_sys.roudi->pid));
    for (size_t a = 0; a < g_sys.apps.size(); ++a)
        if (app_alive(a))
            real.push_back(std::string(C().app[a].name) + " " + std::to_string(g_sys.apps[a]->pid));
    same("P18:process", "process", when, said, real);
    said.clear();
    real.clear();
    std::set<uint64_t> ids;
    for (int i = 0; i < in.nPub; ++i)
    {
        if (!ids.insert(in.pub[i].id).second)
            sim_fail("P18:port", "%s: two publishers have the same id", when);
        if (isIntro(in.pub[i]))
            real.push_back(""); // the daemon's own are counted only
        said.push_back(isIntro(in.pub[i]) ? "" : text(in.pub[i], false));
    }
    if (real.size() != 6)
        sim_fail("P18:port", "%s: %zu publishers of the daemon are listed instead of 6", when, real.size());
    std::vector<std::string> rsub, ssub;
    int subs = 0;
    for (int i = 0; i < C().nEps; ++i)
    {
        ctl::Ep& e = C().ep[i];
        if (!alive_ep(i) || e.kind > 2)
            continue;
        ctl::IntroPort p{};
        strcpy(p.app, C().app[e.app].name);
        int s, n, v;
        ctl::svcParts(e.svc, C().rot, s, n, v);
        snprintf(p.service, sizeof(p.service), "S%d", s);
        snprintf(p.instance, sizeof(p.instance), "i%d", n);
        snprintf(p.event, sizeof(p.event), "e%d", v);
        p.history = static_cast<uint64_t>(e.history);
        p.on = e.onCreate;
        p.block = e.block;
        p.need = e.needHist;
        p.queue = 30;
        p.state = e.wants ? 2 : 0;
        (e.kind == 1 ? real : rsub).push_back(text(p, e.kind == 2));
        subs += e.kind == 2;
    }
    for (int i = 0; i < C().v[20]; ++i)
        real.push_back(std::string(C().app[C().v[21]].name) + " Obs/x/ev history 0 ");
    same("P18:port", "publisher", when, said, real);
    if (in.nState != in.nSub)
        sim_fail("P18:port", "%s: states of %d subscribers, but %d subscribers are listed", when, in.nState, in.nSub);
    int others = 0;
    for (int i = 0; i < in.nSub; ++i)
        if (in.sub[i].service[0] == 'S' && in.sub[i].service[1] >= '0' && in.sub[i].service[1] <= '9')
            ssub.push_back(text(in.sub[i], true));
        else
        {
            if (in.sub[i].state != 2)
                sim_fail("P18:port", "%s: the subscriber of %s to %s/%s is listed in state %d", when, in.sub[i].app, in.sub[i].service, in.sub[i].event, in.sub[i].state);
            ++others;
        }
    same("P18:port", "subscriber", when, ssub, rsub);
    int want = 0; // service search of the applications and the observers' own
    for (size_t a = 0; a < g_sys.apps.size(); ++a)
        if (app_alive(a))
            want += C().v[30 + a] >= 0 ? 4 : disc;
    if (others != want)
        sim_fail("P18:port", "%s: %d subscribers to the daemon's topics are listed, but there are %d", when, others, want);
    query_pools();
    if (in.nPool != C().nPools)
        sim_fail("P18:pool", "%s: %d pools are listed instead of %d", when, in.nPool, static_cast<int>(C().nPools));
    sim_count("introspection_comparison", 1);
}
int g_observer(int n, int which)
{
    C().v[30 + n] = which;
    if (which == 0)
        C().v[21] = n;
    strcpy(C().app[n].name, which ? "late" : "observer");
    start_app(n, ctl::INTRO);
    return n;
}
void c_intro()
{
    sys_init();
    for (int i = 30; i < 40; ++i)
        C().v[i] = -1;
    int nApps = static_cast<int>(pick(1, 2));
    int nSvc = static_cast<int>(pick(1, 3));
    C().v[0] = nSvc;
    C().v[20] = 5;
    C().small = 18;
    C().large = 0;
    bool server[8] = {};
    // an observer which keeps what it gets, until the daemon has no memory for more reports
    bool hoard = sim_choose(3) == 2;
    if (hoard)
        C().v[22] = static_cast<int>(pick(4, 7));
    for (int n = static_cast<int>(pick(1, 6)); n > 0; --n)
    {
        int kind = static_cast<int>(sim_choose(6)), svc = static_cast<int>(pick(0, static_cast<uint32_t>(nSvc - 1)));
        kind = kind < 2 ? 1 : kind < 4 ? 2 : kind - 1;
        if (kind == 4 && server[svc])
            kind = 3;
        if (kind == 4)
            server[svc] = true;
        add_churn_ep(kind, static_cast<int>(pick(0, static_cast<uint32_t>(nApps - 1))), svc);
    }
    start_roudi();
    for (int a = 0; a < nApps; ++a)
        start_app(a, ctl::CHURN);
    int obs = g_observer(nApps, 0);
    for (int a = 0; a <= nApps; ++a)
        must([a] { return C().app[a].up != 0; }, 60 * SEC, "P18:register", std::string("registration of ") + C().app[a].name);
    C().in[0].hoard = hoard;
    bool crashed = false;
    auto idle = [](int k) {
        if (C().app[k].busy)
            return false;
        for (int i = 0; i < C().nEps; ++i)
            if (C().ep[i].app == k && C().ep[i].inop)
                return false;
        return true;
    };
    if (sim_choose(2))
    {
        sim_sleep(pick(0, 1200) * MS);
        if (wait_until([&] { return idle(0); }, 5 * SEC, 53000))
        {
            g_res->crashes++;
            end_proc(g_sys.apps[0], ProcEnd::KILLED);
            crashed = true;
            if (sim_choose(3))
            {
                sim_sleep(pick(0, 2500) * MS);
                int b = C().nApps;
                strcpy(C().app[b].name, C().app[0].name);
                int n = C().nEps;
                for (int i = 0; i < n; ++i)
                    if (C().ep[i].app == 0 && sim_choose(3) != 2)
                        add_churn_ep(C().ep[i].kind, b, C().ep[i].svc);
                start_app(b, ctl::CHURN);
                must([b] { return C().app[b].up != 0; }, 30 * SEC, "P18:register", "registration of the restarted application");
            }
        }
    }
    for (int i = 0; i < C().nEps; ++i)
        if (app_alive(static_cast<size_t>(C().ep[i].app)))
            must([i] { return C().ep[i].settled >= 1; }, 200 * SEC, "P18:stuck", "end of the changes of endpoint " + std::to_string(i));
    if (crashed)
        sim_sleep(2500 * MS);
    for (int k = static_cast<int>(sim_choose(4)); k > 0; --k)
    {
        int i = static_cast<int>(sim_choose(static_cast<uint32_t>(C().nEps)));
        if (!app_alive(static_cast<size_t>(C().ep[i].app)))
            continue;
        C().ep[i].keep = 1;
        must([i] { return C().ep[i].keep == 0; }, 60 * SEC, "P18:stuck", "a change of endpoint " + std::to_string(i));
        sim_sleep(pick(0, 1500) * MS);
    }
    C().phase = 2;
    for (int i = 0; i < C().nEps; ++i)
        if (app_alive(static_cast<size_t>(C().ep[i].app)))
            must([i] { return C().ep[i].settled >= 2; }, 60 * SEC, "P18:stuck", "last message of endpoint " + std::to_string(i));
    sim_sleep(400 * MS);
    C().phase = 3;
    for (int i = 0; i < C().nEps; ++i)
        if (app_alive(static_cast<size_t>(C().ep[i].app)))
            must([i] { return C().ep[i].settled >= 3; }, 60 * SEC, "P18:stuck", "last receive of endpoint " + std::to_string(i));
    C().in[0].hoard = 0;
    sim_sleep(200 * MS);
    int late = -1;
    if (sim_choose(2))
    {
        late = g_observer(C().nApps, 1);
        must([late] { return C().app[late].up != 0; }, 30 * SEC, "P18:register", "registration of the second observer");
    }
    sim_sleep(3500 * MS);
    c_compare(0, true, "when all is quiet");
    if (late >= 0)
        c_compare(1, true, "when all is quiet (late observer)");
    // the pool: what is reported as free is really there
    ctl::Intro& in = C().in[0];
    uint64_t used = in.pool[0].used;
    if (in.pool[0].minFree + used > in.pool[0].n)
        sim_fail("P18:pool", "%lu of %lu chunks are in use, but never less than %lu were free", static_cast<unsigned long>(used), static_cast<unsigned long>(in.pool[0].n), static_cast<unsigned long>(in.pool[0].minFree));
    in.stuff = 1;
    must([&in] { return in.stuffed != 0; }, 20 * SEC, "P18:observer", "loans of the observer");
    if (in.pool[0].n != 18 || used + static_cast<uint64_t>(in.stuffed - 1) != 18)
        sim_fail("P18:pool", "introspection reports %lu of %lu chunks in use, but %d more could be loaned", static_cast<unsigned long>(used), static_cast<unsigned long>(in.pool[0].n), in.stuffed - 1);
    sim_sleep(2500 * MS);
    for (int o = 0; o < 1 + (late >= 0); ++o)
    {
        c_compare(o, true, "when all chunks are loaned");
        ctl::Pool& p = C().in[o].pool[0];
        if (p.used != 18 || p.minFree != 0)
            sim_fail("P18:pool", "every chunk is loaned, but introspection reports %lu of %lu in use and at least %lu free", static_cast<unsigned long>(p.used), static_cast<unsigned long>(p.n), static_cast<unsigned long>(p.minFree));
    }
    // the others go
    C().phase = 4;
    for (size_t i = 0; i < g_sys.apps.size(); ++i)
        if (static_cast<int>(i) != obs && static_cast<int>(i) != late)
            must([i] { return !app_alive(i); }, 30 * SEC, "P18:end", std::string("orderly end of ") + C().app[i].name);
    sim_sleep(3000 * MS);
    c_compare(0, false, "when the others have left");
    uint64_t n = C().in[0].pool[0].used;
    if (n != static_cast<uint64_t>(in.stuffed - 1))
        sim_fail("P18:pool", "%d chunks are loaned, but introspection reports %lu in use", in.stuffed - 1, static_cast<unsigned long>(n));
    C().in[0].leave = C().in[1].leave = 1;
    finish_apps("P18:end");
    finish_roudi("P18:end");
}
void conf() { knobs_system(); }
RegScn r2({"intro", "sys", c_intro, conf});
RegScn r1({"churn", "sys", c_churn, conf});
} // namespace
} // namespace sim
