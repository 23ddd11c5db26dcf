// Helpers of the whole-system scenario controllers.
#pragma once
#include "ctl.h"
#include "simint.h"
#include <csignal>

namespace sim
{
void send_signal(Proc* p, int sig);
void clock_jump(int64_t ns);
void faults_mask(uint64_t m);
void faults_proc(int p);
extern bool (*g_onAbort)(Proc*, const char*);
extern void (*g_onEnd)(Proc*);
extern const char* (*g_retag)(const char*);

inline ctl::Ctl& C() { return *static_cast<ctl::Ctl*>(g_sharedBlock); }
constexpr uint64_t MS = 1000000ULL, SEC = 1000000000ULL;

struct Sys
{
    Proc* roudi{nullptr};
    std::vector<Proc*> apps;
};
extern Sys g_sys;
// tag of the property being decided if it is one of those, else of the first
const char* tag_for(std::initializer_list<const char*> props, const char* oracle);
void sys_init();
void start_roudi();
Proc* start_app(int n, int role);
ctl::Ep& add_ep(int kind, int app, int svc);
void query_pools();
void check_pools_full(const char* tag, const char* when);
// waits until cond or fails with tag
void must(const std::function<bool()>& cond, uint64_t timeoutNs, const char* tag, const std::string& what);
// phases 1..4, daemon shutdown, nothing left behind
void finish_apps(const char* tag);
void finish_roudi(const char* tag);
uint32_t pick(uint32_t lo, uint32_t hi);
bool app_alive(size_t i);
void check_address_ownership();
} // namespace sim
