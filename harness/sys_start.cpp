// Programs that come and go: registration, one loop-back message per request, orderly end on request or SIGTERM.
#include "sys_common.h"

#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iox/signal_watcher.hpp"

using namespace iox;
using namespace iox::popo;

// app.up: 1 registered, 2 endpoints exist; app.done: number of round trips; app.leave: 1 end, 2 ignore SIGTERM
// ep[app].count: round trips wanted
void run_start(int app)
{
    auto& A = C().app[app];
    hasTerminationRequested(); // installs the handler
    runtime::PoshRuntime::initRuntime(RuntimeName_t(TruncateToCapacity, A.name));
    A.up = 1;
    bool stubborn = C().ep[app].hold != 0;
    {
        A.busy = 1;
        UntypedPublisher pub(svcDesc(app));
        UntypedSubscriber sub(svcDesc(app));
        A.busy = 0;
        A.up = 2;
        uint64_t seq = 0;
        while (true)
        {
            if (A.leave == 1 || (!stubborn && hasTerminationRequested()))
                break;
            if (A.done < C().ep[app].count)
            {
                A.busy = 1;
                bool got = false;
                // bounded: the controller watches; stops when it is told to leave
                while (!got && A.leave != 1 && (stubborn || !hasTerminationRequested()))
                {
                    if (sub.getSubscriptionState() == SubscribeState::SUBSCRIBED)
                        pub.loan(msgSize(2), 8).and_then([&](auto& m) {
                            msgFill(static_cast<Msg*>(m), static_cast<uint64_t>(app), seq, 2);
                            pub.publish(m);
                        });
                    while (true)
                    {
                        auto r = sub.take();
                        if (r.has_error())
                            break;
                        auto* m = static_cast<const Msg*>(r.value());
                        msgCheck(m, "subscriber", 1024, "on receipt");
                        if (m->src != static_cast<uint64_t>(app))
                            sim_fail("P14:foreign", "a message of program %lu reached program %d", m->src, app);
                        got = got || m->seq == seq;
                        sub.release(m);
                    }
                    A.busy = 0;
                    if (!got)
                        sim_sleep(1000000ull * (1 + sim_choose(20)));
                    A.busy = 1;
                }
                A.busy = 0;
                ++seq;
                if (got)
                    A.done = A.done + 1;
            }
            sim_sleep(1000000ull * (1 + sim_choose(30)));
        }
        A.gone = 1;
    }
    A.gone = 2;
}
