// Shared helpers of the whole-system harness programs.
#pragma once
#include "ctl.h"
#include "sim.h"

#include "iceoryx_posh/runtime/posh_runtime.hpp"
#include "iceoryx_posh/capro/service_description.hpp"
#include "iceoryx_posh/mepoo/chunk_header.hpp"

#include <cstdio>
#include <memory>
#include <vector>

extern "C" uint64_t sim_phys(const void* p);

inline ctl::Ctl& C() { return *static_cast<ctl::Ctl*>(sim_shared()); }

inline iox::capro::ServiceDescription svcDesc(int svc)
{
    char b[3][16];
    int s, i, e;
    ctl::svcParts(svc, C().rot, s, i, e);
    snprintf(b[0], sizeof(b[0]), "S%d", s);
    snprintf(b[1], sizeof(b[1]), "i%d", i);
    snprintf(b[2], sizeof(b[2]), "e%d", e);
    using Id = iox::capro::IdString_t;
    return iox::capro::ServiceDescription(Id(iox::TruncateToCapacity, b[0]), Id(iox::TruncateToCapacity, b[1]), Id(iox::TruncateToCapacity, b[2]));
}
inline uint64_t word(uint64_t src, uint64_t seq, uint64_t i) { return (src * 1000003 + seq + 1) * 0x9E3779B97F4A7C15ULL ^ (i * 0x100000001B3ULL); }

struct Msg
{
    uint64_t magic, src, seq, n;
    uint64_t w[1];
};
constexpr uint64_t MAGIC = 0x1ce02c5afe001ULL;
inline size_t msgSize(uint64_t n) { return sizeof(Msg) + 8 * n; }
inline void msgFill(Msg* m, uint64_t src, uint64_t seq, uint64_t n)
{
    m->magic = MAGIC;
    m->src = src;
    m->seq = seq;
    m->n = n;
    for (uint64_t i = 0; i < n; ++i)
        m->w[i] = word(src, seq, i);
}
// checks that m is a complete message; what: description of the reader
inline void msgCheck(const Msg* m, const char* what, uint64_t limitBytes, const char* when)
{
    if (m->magic != MAGIC || m->src >= ctl::MAXE || msgSize(m->n) > limitBytes)
        sim_fail("P01:content", "%s: %s holds something that nobody sent (magic %lx src %lu seq %lu n %lu, %lu bytes)", what, when, m->magic, m->src, m->seq, m->n, limitBytes);
    for (uint64_t i = 0; i < m->n; ++i)
        if (m->w[i] != word(m->src, m->seq, i))
            sim_fail("P01:content", "%s: word %lu of message %lu of endpoint %lu is wrong (%s)", what, i, m->seq, m->src, when);
}
inline void nap(int maxMs)
{
    uint32_t k = sim_choose(6);
    if (maxMs <= 0)
        sim_sleep(100000ull * (1 + sim_choose(10)));
    else if (k == 0)
        sim_sleep(20000);
    else if (k < 3)
        sim_sleep(1000ull * (1 + sim_choose(100)));
    else
        sim_sleep(1000000ull * (1 + sim_choose(static_cast<uint32_t>(maxMs))));
}
inline void waitPhase(int p)
{
    while (C().phase < p)
        sim_sleep(5000000);
}
void run_pubsub(int app);
void run_churn(int app);
void run_reqres(int app);
void run_events(int app);
void run_limits(int app);
void run_start(int app);
void run_intro(int app);
void run_alive(int app);
void run_blocked(int app);
