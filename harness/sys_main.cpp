// Whole-system harness: the RouDi daemon and the dispatcher of the application roles.
#include "sys_common.h"
#include "simnew.h"

#include "iceoryx_posh/internal/roudi/roudi.hpp"
#include "iceoryx_posh/roudi/iceoryx_roudi_app.hpp"
#include "iceoryx_posh/roudi/iceoryx_roudi_components.hpp"
#include "iox/posix_user.hpp"
#include "iox/scoped_static.hpp"
#include "iox/signal_watcher.hpp"

using namespace iox;

namespace
{
void copyPools(const mepoo::MemoryManager& m, ctl::Pool* out, volatile int& n)
{
    uint32_t k = m.getNumberOfMemPools();
    for (uint32_t i = 0; i < k && i < 8; ++i)
    {
        auto info = m.getMemPoolInfo(i);
        out[i] = {info.m_chunkSize, info.m_numChunks, info.m_usedChunks, info.m_minFreeChunks, 0};
    }
    n = static_cast<int>(k);
}
void countFree(mepoo::MemoryManager& m, ctl::Pool* out, int n)
{
    for (int i = 0; i < n && i < 8; ++i)
    {
        auto payload = static_cast<uint32_t>(out[i].size - sizeof(mepoo::ChunkHeader));
        auto settings = mepoo::ChunkSettings::create(payload, 8);
        std::vector<mepoo::SharedChunk> all;
        while (all.size() <= out[i].n)
        {
            auto c = m.getChunk(settings.value());
            if (c.has_error())
                break;
            all.push_back(c.value());
        }
        out[i].got = all.size();
    }
}
struct Roudi : public roudi::RouDiApp
{
    int no;
    Roudi(const IceoryxConfig& c, int n)
        : RouDiApp(c)
        , no(n)
    {
    }
    uint8_t run() noexcept override
    {
        if (!m_run)
            return 1;
        // on the heap, where data races are detected
        auto componentsPtr = std::make_unique<roudi::IceOryxRouDiComponents>(m_config);
        auto& components = *componentsPtr;
        auto daemonPtr = std::make_unique<roudi::RouDi>(components.rouDiMemoryManager, components.portManager, m_config);
        C().roudiUp = 1;
        C().w[no] = 1; // this daemon is up
        // inspector: answers the controller's questions about the pools
        struct Ins
        {
            roudi::IceOryxRouDiComponents* c;
            volatile bool stop;
        } ins{&components, false};
        int f = sim_thread(
            [](void* p) {
                auto* i = static_cast<Ins*>(p);
                while (!i->stop)
                {
                    if (C().poolReq != C().poolAck)
                    {
                        SimAtomicSection s;
                        auto info = i->c->rouDiMemoryManager.segmentManager().value()->getSegmentInformationWithWriteAccessForUser(
                            PosixUser::getUserOfCurrentProcess());
                        if (info.m_memoryManager.has_value())
                        {
                            copyPools(info.m_memoryManager.value().get(), C().pools, C().nPools);
                            if (C().poolCount)
                                countFree(info.m_memoryManager.value().get(), C().pools, C().nPools);
                        }
                        copyPools(*i->c->rouDiMemoryManager.introspectionMemoryManager().value(), C().intro, C().nIntro);
                        C().poolAck = C().poolReq;
                    }
                    sim_sleep(20000000);
                }
            },
            &ins,
            "inspector");
        hasTerminationRequested(); // installs the handler
        C().v[40 + no] = 1;
        waitForTerminationRequest();
        ins.stop = true;
        sim_join(f);
        C().roudiUp = 2;
        C().w[no] = 2;
        return 0;
    }
};

void run_roudi(int no)
{
    IceoryxConfig cfg;
    cfg.logLevel = log::LogLevel::Off;
    cfg.monitoringMode = C().monitoring ? roudi::MonitoringMode::ON : roudi::MonitoringMode::OFF;
    cfg.processKillDelay = units::Duration::fromMilliseconds(C().killDelayMs);
    if (C().v[22])
        cfg.introspectionChunkCount = static_cast<uint32_t>(C().v[22]);
    mepoo::MePooConfig mp;
    mp.addMemPool({128, static_cast<uint32_t>(C().small)});
    if (C().large)
        mp.addMemPool({1024, static_cast<uint32_t>(C().large)});
    auto grp = PosixGroup::getGroupOfCurrentProcess().getName();
    cfg.m_sharedMemorySegments.push_back({grp, grp, mp});
    Roudi app(cfg, no);
    app.run();
    C().roudiUp = 3;
}
} // namespace

extern "C" void harness_main(int role, const int64_t* args)
{
    log::Logger::setLogLevel(log::LogLevel::Off);
    int app = static_cast<int>(args[0]);
    switch (role)
    {
    case ctl::ROUDI:
        run_roudi(app);
        break;
    case ctl::PUBSUB:
        run_pubsub(app);
        break;
    case ctl::CHURN:
        run_churn(app);
        break;
    case ctl::REQRES:
        run_reqres(app);
        break;
    case ctl::EVENTS:
        run_events(app);
        break;
    case ctl::ALIVE:
        run_alive(app);
        break;
    case ctl::BLOCKED:
        run_blocked(app);
        break;
    case ctl::LIMITS:
        run_limits(app);
        break;
    case ctl::INTRO:
        run_intro(app);
        break;
    case ctl::START:
        run_start(app);
        break;
    default:
        sim_fail("*:role", "unknown role %d", role);
    }
}
