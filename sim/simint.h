// Simulator internals.
#pragma once
#include "sim.h"
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim
{
constexpr int MAXF = 128; // fibers per run

struct VC
{
    uint32_t c[MAXF];
    void clear() { memset(c, 0, sizeof(c)); }
    VC() { clear(); }
};
extern int g_nf; // number of fibers ever created in this run
inline void vc_join(VC& a, const VC& b)
{
    for (int i = 0; i < g_nf; ++i)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}

struct FileNode;
struct Instance
{
    void* handle{nullptr};
    void (*entry)(int, const int64_t*){nullptr};
    bool used{false};
    void* dso{nullptr};
    std::vector<std::pair<void (*)(void*), void*>> atexit_;
};

struct OpenFile; // open file description

enum class ProcEnd
{
    RUNNING,
    RETURNED,
    EXITED,
    ABORTED,
    KILLED
};

struct Fiber;
struct Proc
{
    int idx{0};
    int pid{0};
    std::string name;
    int role{0};
    std::vector<int64_t> args;
    Instance* inst{nullptr};
    bool alive{true};
    ProcEnd end{ProcEnd::RUNNING};
    int exitCode{0};
    bool abortExpected{false};
    bool heapWatch{false}; // objects it allocates now are checked for data races
    int dgramsIn{0}; // datagrams sent to sockets of this process
    uint64_t ticks{0};
    uint64_t crashAtTick{~0ULL};
    uint64_t frozenUntil{0};
    std::map<int, OpenFile*> fds;
    std::map<uintptr_t, size_t> maps; // address -> slot
    std::map<int, void (*)(int)> sigHandlers;
    std::vector<int> pendingSignals;
    std::vector<std::pair<void (*)(void*), void*>> atexit_;
    std::map<std::string, void*> namedSems;
    std::vector<Fiber*> fibers;
    int uid{0}, gid{0};
    int umask_{022};
    std::string lastLog;
    std::vector<int> heldAtDeath;
    uint64_t ownerDeadSeen{0}; // lock calls that returned EOWNERDEAD
};

enum class FState
{
    RUNNABLE,
    BLOCKED,
    DEAD
};

struct Fiber
{
    int id{0};
    Proc* proc{nullptr};
    FState state{FState::RUNNABLE};
    void* sp{nullptr};
    void* stack{nullptr};
    size_t stackSize{0};
    std::string name;
    void* (*fn)(void*){nullptr};
    void* arg{nullptr};
    void* ret{nullptr};
    bool detached{false};
    int eintrRun{0}; // interrupted system calls in a row
    int err{0};
    uint64_t ticks{0};     // instrumented accesses executed
    uint64_t syscalls{0};  // simulated system calls
    uint64_t choices{0};
    uint64_t loads{0};
    uint64_t deadline{~0ULL};
    uint64_t waitKey{0};
    bool wokenByTimeout{false};
    bool interrupted{false};
    uint64_t prio{0};
    int noPreempt{0};
    VC vc;
    VC acqFence; // clocks of relaxed loads, for acquire fences
    VC relFence;
    bool hasRelFence{false};
    bool hasAcqFence{false};
    std::unordered_map<void*, void*> tls;
    std::vector<std::pair<void (*)(void*), void*>> tlsDtors;
    uint64_t opDeadline{~0ULL};
    std::string opTag, opWhat;
    std::string blockedOn;
    uint64_t yields{0};
    uint64_t stallUntil{0};
    uint32_t slowIn{0}; // sync events until the stall asked for by sim_slow
    uint64_t slowNs{0};
    uint64_t blocks{0};
    uint64_t ticksAtSwitchIn{0};
    uint64_t fairMark{0};
    uint64_t readyMark{0}; // since when it could run, but does not
    uint64_t spinMark{0}; // ticks when it last blocked
    void* ehGlobals[2]{nullptr, nullptr};
};

struct HistEv
{
    uint64_t seq, time;
    int fiber, proc, type;
    int64_t a, b, c, d;
    std::vector<uint32_t> vc; // only if g_histVc
};
extern bool g_histVc;
extern const char* g_raceTag;
extern bool g_heapRace; // happens-before race detection on the heap of the simulated programs
inline bool hist_hb(const HistEv& x, const HistEv& y)
{
    if (x.fiber == y.fiber)
        return x.seq < y.seq;
    return static_cast<size_t>(x.fiber) < y.vc.size() && y.vc[x.fiber] >= x.vc[x.fiber];
}

enum DKind
{
    D_SCHED = 0,  // (fiber, ticks) -> fiber
    D_STALE = 1,  // (fiber, loads) -> stores back
    D_CHOICE = 2, // (fiber, choices) -> value
    D_FAULT = 3,  // (fiber, syscalls) -> errno
    D_SLACK = 4,  // (0, n) -> ns
    D_STALL = 5,  // (fiber, ticks) -> ns
    D_WAKE = 6,
    D_KINDS
};
struct Decision
{
    int kind;
    int fiber;
    uint64_t counter;
    int64_t value;
};

struct RunCfg
{
    uint64_t seed{1};
    std::string prop, scn, harness;
    std::map<std::string, int64_t> params;
    bool verbose{false};
    bool replay{false};
    std::vector<Decision> decisions;
    uint64_t tickBudget{60000000};
    uint64_t simBudgetNs{3600ULL * 1000000000ULL};
};

constexpr int NFAULT = 48;
struct Result
{
    int status; // 0 ok, 1 violation, 2 budget (inconclusive), 3 simulator error
    char tag[64];
    char msg[1600];
    char trace[3000];
    uint64_t hash, schedHash;
    uint64_t ticks, atomics, switches, simNs, syscalls, staleLoads, nDecisions, fibers, procs, crashes, stalls, lateTimers;
    uint64_t faults[NFAULT];
    uint64_t foreign;
    char foreignTag[64];
    char known[64];
    uint64_t cover[256];
    uint32_t ncover;
    struct { char name[24]; int64_t n; } counts[24];
    uint32_t ncounts;
};

// ---- globals of the current run
extern RunCfg g_cfg;
extern Result* g_res;
extern bool g_active; // a run is in progress
extern Fiber* g_cur;
extern std::vector<Fiber*> g_fibers;
extern std::vector<Proc*> g_procs;
extern std::vector<Instance> g_instances;
extern uint64_t g_time; // simulated ns
extern std::vector<HistEv> g_hist;
extern std::vector<Decision> g_dec;
extern long g_cd;  // ticks left in slice
extern long g_cda; // atomics left in slice
extern void* g_sharedBlock;

struct Knobs
{
    // scheduling
    int strategy;         // 0 random walk, 1 PCT
    double meanAtomic;    // mean number of sync events between preemptions
    double meanPlain;     // mean number of plain accesses between preemptions (0: never)
    int pctDepth;
    double pctLen;
    // weak memory
    uint32_t stalePermille;
    // time
    uint64_t tickCost;   // ps per tick
    uint64_t eventCost;  // ns per sync event
    uint32_t slackPermille;
    uint64_t slackMax;
    // faults
    uint32_t faultPermille;
    uint32_t eintrPermille;
    uint32_t stallPermille; // per 100k sync events
    uint64_t stallMax;
};
extern Knobs g_k;

// ---- rng
struct Rng
{
    uint64_t s[2];
    void seed(uint64_t x);
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    uint64_t geom(double mean);
};
extern Rng g_rngSched, g_rngChoice, g_rngMem, g_rngFault;

// ---- core
Proc* spawn_proc(const char* name, int role, const std::vector<int64_t>& args, bool useInstance = true, bool isolated = true);
Fiber* new_fiber(Proc* p, void* (*fn)(void*), void* arg, const char* name);
void end_proc(Proc* p, ProcEnd how); // kills all fibers, releases kernel resources; if current fiber belongs to p it does not return
void reschedule();
void sched_sync(const char* what);  // scheduling point at a synchronisation event
void slow_tick();
// blocks the current fiber until woken by key or the deadline; returns false on time-out
bool block_on(uint64_t key, uint64_t deadline, const char* what);
void wake_all(uint64_t key);
void wake_one(uint64_t key);
bool has_waiters(uint64_t key);
[[noreturn]] void finish_run(int status);
[[noreturn]] void violation(const char* tag, const std::string& msg);
void record(int kind, int fiber, uint64_t counter, int64_t value);
bool lookup(int kind, int fiber, uint64_t counter, int64_t& value);
void run_controller(void (*scn)());
void kernel_reset();
void kernel_proc_death(Proc* p);
void mem_reset();
void mem_track_object(uint64_t keyBase, size_t size, int cls, const char* what);
void deliver_signals();
std::string describe_state();
std::string backtrace_str(void* pc, void* fp);
bool freeze_fiber_stalls();
void slow_here(uint64_t ns);

// physical identity of an address (shared memory objects are mapped several times)
extern uintptr_t g_arena;
constexpr size_t ARENA_SLOT = 64UL << 20;
constexpr size_t ARENA_SLOTS = 96;
extern uint64_t g_slotKey[ARENA_SLOTS]; // key base of the object mapped in the slot, 0 if none
inline uint64_t phys(const volatile void* p)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    uintptr_t off = a - g_arena;
    if (off < ARENA_SLOT * ARENA_SLOTS)
    {
        uint64_t base = g_slotKey[off / ARENA_SLOT];
        if (base)
            return base + off % ARENA_SLOT;
    }
    return a;
}
constexpr uint64_t KEY_SHM = 1ULL << 62;

// happens-before helpers for kernel objects
void hb_release(VC& obj);
void hb_acquire(const VC& obj);
void hb_fork(Fiber* child);
void hb_join(Fiber* dead);

// scenarios
struct Scenario
{
    const char* name;
    const char* harness;
    void (*controller)();
    void (*configure)(); // sets knobs
};
void register_scenario(const Scenario& s);
const Scenario* find_scenario(const std::string& n);
struct RegScn
{
    RegScn(const Scenario& s) { register_scenario(s); }
};
// controller helpers
bool wait_until(const std::function<bool()>& cond, uint64_t timeoutNs, uint64_t pollNs);
inline bool target(const char* p) { return g_cfg.prop == p; }
void default_knobs();
void knobs_component();
void knobs_system();
void faults_enable(bool on);
} // namespace sim
