// Fibers, simulated processes, seeded scheduler, simulated time, decision recording and replay.
#include "simint.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <unistd.h>

namespace __cxxabiv1
{
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
} // namespace __cxxabiv1

namespace sim
{
RunCfg g_cfg;
Result* g_res = nullptr;
bool g_active = false;
Fiber* g_cur = nullptr;
std::vector<Fiber*> g_fibers;
std::vector<Proc*> g_procs;
std::vector<Instance> g_instances;
uint64_t g_time = 0;
std::vector<HistEv> g_hist;
std::vector<Decision> g_dec;
long g_cd = 1L << 60;
long g_cda = 1L << 60;
static long g_sliceInit = 1L << 60;
int g_nf = 0;
Knobs g_k;
Rng g_rngSched, g_rngChoice, g_rngMem, g_rngFault;
void* g_sharedBlock = nullptr;
bool g_histVc = false;

static uint64_t g_ticks = 0, g_events = 0, g_switches = 0;
static uint64_t g_timePs = 0;
static uint64_t g_nextDeadline = ~0ULL;
static uint64_t g_schedHash = 0xcbf29ce484222325ULL;
static uint64_t g_slackCount = 0;
static std::vector<uint64_t> g_pctPoints;
static uint64_t g_pctLow = 1u << 20;
static bool g_prioPreempt = false;
static std::map<std::tuple<int, int, uint64_t>, int64_t> g_replay;
static std::map<int, std::map<uint64_t, int64_t>> g_replaySched, g_replayStall;
bool (*g_onAbort)(Proc*, const char*) = nullptr;
void (*g_onEnd)(Proc*) = nullptr;
const char* (*g_retag)(const char*) = nullptr; // scenarios name known causes

void Rng::seed(uint64_t x)
{
    auto sm = [&x]() {
        x += 0x9E3779B97F4A7C15ULL;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    };
    s[0] = sm();
    s[1] = sm();
}
uint64_t Rng::next()
{
    uint64_t s1 = s[0];
    const uint64_t s0 = s[1];
    const uint64_t r = s0 + s1;
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
uint64_t Rng::geom(double mean)
{
    if (mean <= 1.0)
        return 1;
    double u = unit();
    double v = -std::log(1.0 - u) * mean;
    if (v > 1e12)
        v = 1e12;
    return 1 + static_cast<uint64_t>(v);
}

constexpr uint64_t START_NS = 1700000000ULL * 1000000000ULL;
uint64_t g_eventNo() { return g_events; }

static void mix(uint64_t& h, uint64_t v)
{
    h ^= v;
    h *= 0x100000001b3ULL;
    h ^= h >> 29;
}

void record(int kind, int fiber, uint64_t counter, int64_t value)
{
    g_dec.push_back(Decision{kind, fiber, counter, value});
}
bool lookup(int kind, int fiber, uint64_t counter, int64_t& value)
{
    auto it = g_replay.find(std::make_tuple(kind, fiber, counter));
    if (it == g_replay.end())
        return false;
    value = it->second;
    return true;
}

// ------------------------------------------------------------------------------------------------ context switch
extern "C" void sim_swap(void** saveSp, void* newSp);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_swap,.-sim_swap
)");

static void fiber_end(Fiber* f)
{
    // thread-local destructors in reverse order
    while (!f->tlsDtors.empty())
    {
        auto d = f->tlsDtors.back();
        f->tlsDtors.pop_back();
        d.first(d.second);
    }
}

[[noreturn]] static void fiber_main()
{
    Fiber* f = g_cur;
    f->ret = f->fn(f->arg);
    fiber_end(f);
    if (f->proc->fibers.front() == f && f->proc->idx != 0)
    {
        // main thread returned: orderly process exit
        extern void run_atexit(Proc*);
        run_atexit(f->proc);
        end_proc(f->proc, ProcEnd::RETURNED);
    }
    extern void kernel_fiber_exit(Fiber*);
    kernel_fiber_exit(f);
    f->state = FState::DEAD;
    f->vc.c[f->id]++;
    wake_all(reinterpret_cast<uint64_t>(f));
    reschedule();
    abort();
}

Fiber* new_fiber(Proc* p, void* (*fn)(void*), void* arg, const char* name)
{
    if (g_nf >= MAXF)
    {
        snprintf(g_res->msg, sizeof(g_res->msg), "too many fibers");
        finish_run(2);
    }
    auto* f = new Fiber;
    f->id = g_nf++;
    f->proc = p;
    f->fn = fn;
    f->arg = arg;
    f->name = name ? name : "";
    f->stackSize = 1 << 20;
    f->stack = mmap(nullptr, f->stackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stack, 4096, PROT_NONE);
    uintptr_t top = reinterpret_cast<uintptr_t>(f->stack) + f->stackSize;
    top &= ~0xFULL;
    auto* sp = reinterpret_cast<uint64_t*>(top);
    *--sp = 0; // alignment / fake return address of fiber_main
    *--sp = reinterpret_cast<uint64_t>(&fiber_main);
    for (int i = 0; i < 6; ++i)
        *--sp = 0;
    f->sp = sp;
    g_fibers.push_back(f);
    p->fibers.push_back(f);
    f->vc.c[f->id] = 1;
    f->prio = (1u << 24) + g_rngSched.below(1u << 24);
    if (g_cur && g_active)
        hb_fork(f);
    return f;
}

// ------------------------------------------------------------------------------------------------ slices
static void account()
{
    long used = g_sliceInit - g_cd;
    if (used > 0 && g_cur)
    {
        // a thread that spins without ever blocking does not get through a second of simulated time in any reasonable
        // number of steps: after a while its steps count a hundredfold, as on a slow machine
        uint64_t limit = std::max(g_cur->ticks, g_cur->spinMark + 300000), now = g_cur->ticks + static_cast<uint64_t>(used);
        uint64_t slow = now > limit ? now - limit : 0;
        g_cur->ticks = now;
        g_cur->proc->ticks += used;
        g_ticks += used;
        g_timePs += (static_cast<uint64_t>(used) + 99 * slow) * g_k.tickCost;
        if (g_timePs >= 1000)
        {
            g_time += g_timePs / 1000;
            g_timePs %= 1000;
        }
    }
    g_sliceInit = g_cd;
}

static void begin_slice()
{
    long cd = 200000; // fairness bound
    g_cda = 1L << 60;
    Fiber* f = g_cur;
    if (g_cfg.replay)
    {
        auto it = g_replaySched.find(f->id);
        if (it != g_replaySched.end())
        {
            auto j = it->second.upper_bound(f->ticks);
            if (j != it->second.end())
                cd = std::min<long>(cd, static_cast<long>(j->first - f->ticks));
        }
        auto is = g_replayStall.find(f->id);
        if (is != g_replayStall.end())
        {
            auto j = is->second.upper_bound(f->ticks);
            if (j != is->second.end())
                cd = std::min<long>(cd, static_cast<long>(j->first - f->ticks));
        }
    }
    else if (f->proc->idx != 0)
    {
        if (g_k.strategy == 0)
        {
            if (g_k.meanPlain > 0)
                cd = std::min<long>(cd, g_rngSched.geom(g_k.meanPlain));
            g_cda = g_rngSched.geom(g_k.meanAtomic);
        }
        else if (!g_pctPoints.empty())
        {
            uint64_t next = g_pctPoints.back();
            cd = std::min<long>(cd, next > g_ticks ? static_cast<long>(next - g_ticks) : 1);
        }
        if (g_k.strategy == 1)
        {
            long fair = static_cast<long>(f->fairMark + 50000) - static_cast<long>(f->ticks);
            cd = std::min<long>(cd, fair > 0 ? fair : 1);
        }
    }
    if (f->proc->crashAtTick != ~0ULL)
    {
        long rem = f->proc->crashAtTick > f->proc->ticks ? static_cast<long>(f->proc->crashAtTick - f->proc->ticks) : 1;
        cd = std::min(cd, rem);
    }
    g_cd = cd;
    g_sliceInit = cd;
}

static bool selectable(const Fiber* f)
{
    return f->state == FState::RUNNABLE && f->stallUntil <= g_time && f->proc->frozenUntil <= g_time;
}

static void check_budgets()
{
    if (g_ticks > g_cfg.tickBudget)
    {
        g_cfg.tickBudget = ~0ULL;
        // a thread that never blocks any more is a livelock; a run that is merely expensive (for example peers that sleep
        // while a blocked sender polls) decides nothing
        for (auto* f : g_fibers)
            if (f->state != FState::DEAD && f->ticks > f->spinMark + 15000000)
                violation("*:livelock", "no end in sight after the step budget; " + describe_state());
        snprintf(g_res->msg, sizeof(g_res->msg), "step budget; %s", describe_state().c_str());
        finish_run(2);
    }
    if (g_time > g_cfg.simBudgetNs)
    {
        g_cfg.simBudgetNs = ~0ULL;
        violation("*:livelock", "no end in sight after the simulated time budget; " + describe_state());
    }
}

static void expire_timers()
{
    uint64_t next = ~0ULL;
    for (auto* f : g_fibers)
    {
        if (f->state == FState::DEAD)
            continue;
        if (f->opDeadline <= g_time)
        {
            std::string t = f->opTag, w = f->opWhat;
            f->opDeadline = ~0ULL;
            violation(t.c_str(), "no progress: " + w + " did not complete in time; " + describe_state());
        }
        next = std::min(next, f->opDeadline);
        if (f->state == FState::BLOCKED && f->deadline <= g_time)
        {
            f->state = FState::RUNNABLE;
            f->wokenByTimeout = true;
            f->deadline = ~0ULL;
            f->waitKey = 0;
            if (f->prio > (g_cur ? g_cur->prio : 0))
                g_prioPreempt = true;
        }
        else if (f->state == FState::BLOCKED)
            next = std::min(next, f->deadline);
        if (f->stallUntil > g_time)
            next = std::min(next, f->stallUntil);
        if (f->proc->frozenUntil > g_time)
            next = std::min(next, f->proc->frozenUntil);
    }
    g_nextDeadline = next;
}

static void note_deadline(uint64_t d)
{
    if (d < g_nextDeadline)
        g_nextDeadline = d;
}

static void switch_to(Fiber* n)
{
    Fiber* o = g_cur;
    n->readyMark = 0;
    if (n == o)
    {
        begin_slice();
        return;
    }
    g_switches++;
    mix(g_schedHash, (static_cast<uint64_t>(o->id) << 40) ^ o->ticks ^ (static_cast<uint64_t>(n->id) << 52));
    o->err = errno;
    memcpy(o->ehGlobals, __cxxabiv1::__cxa_get_globals(), sizeof(o->ehGlobals));
    g_cur = n;
    n->ticksAtSwitchIn = n->ticks;
    memcpy(__cxxabiv1::__cxa_get_globals(), n->ehGlobals, sizeof(n->ehGlobals));
    begin_slice();
    sim_swap(&o->sp, n->sp);
    errno = g_cur->err;
}

static Fiber* rr_next(const std::vector<Fiber*>& r)
{
    int id = g_cur->id;
    Fiber* best = nullptr;
    for (auto* f : r)
        if (f->id > id && (!best || f->id < best->id))
            best = f;
    if (best)
        return best;
    for (auto* f : r)
        if (!best || f->id < best->id)
            best = f;
    return best;
}

// chooses the next fiber after the current one can not or does not want to continue
// strict priorities, but nobody is kept from running for longer than 100 ms
static Fiber* by_prio(const std::vector<Fiber*>& r)
{
    Fiber *c = r[0], *old = nullptr;
    for (auto* f : r)
    {
        if (!f->readyMark)
            f->readyMark = g_time;
        if (g_time - f->readyMark > 100 * 1000000ull && (!old || f->readyMark < old->readyMark))
            old = f;
        if (f->prio > c->prio)
            c = f;
    }
    return old ? old : c;
}

static Fiber* pick_next(bool excludeSelf)
{
    std::vector<Fiber*> r;
    while (true)
    {
        r.clear();
        for (auto* f : g_fibers)
            if (selectable(f) && !(excludeSelf && f == g_cur))
                r.push_back(f);
        if (!r.empty())
            break;
        if (excludeSelf && selectable(g_cur))
        {
            // a lone yielding fiber: let time pass a little so that polling loops make progress in time
            return g_cur;
        }
        expire_timers();
        bool any = false;
        for (auto* f : g_fibers)
            any |= selectable(f);
        if (any)
        {
            excludeSelf = false;
            continue;
        }
        uint64_t next = g_nextDeadline;
        if (next == ~0ULL)
            violation("*:deadlock", "deadlock: every thread waits forever; " + describe_state());
        uint64_t slack = 0;
        uint64_t n = g_slackCount++;
        if (g_cfg.replay)
        {
            int64_t v = 0;
            if (lookup(D_SLACK, 0, n, v))
                slack = v;
        }
        else if (g_k.slackPermille && g_rngSched.below(1000) < g_k.slackPermille)
        {
            double e = g_rngSched.unit() * std::log(static_cast<double>(g_k.slackMax));
            slack = static_cast<uint64_t>(std::exp(e));
            record(D_SLACK, 0, n, static_cast<int64_t>(slack));
        }
        if (slack)
            g_res->lateTimers++;
        g_time = std::max(g_time, next) + slack;
        check_budgets();
        expire_timers();
        excludeSelf = false;
    }
    uint64_t n = g_cur->blocks++;
    Fiber* def = rr_next(r);
    if (g_cfg.replay)
    {
        int64_t v = 0;
        if (lookup(D_WAKE, g_cur->id, n, v))
            for (auto* f : r)
                if (f->id == v)
                    return f;
        return def;
    }
    Fiber* c;
    if (g_k.strategy == 1)
        c = by_prio(r);
    else
        c = r[g_rngSched.below(r.size())];
    if (c != def)
        record(D_WAKE, g_cur->id, n, c->id);
    return c;
}

void reschedule()
{
    account();
    if (g_time >= g_nextDeadline)
        expire_timers();
    Fiber* n = pick_next(true);
    switch_to(n);
    deliver_signals();
}

static void maybe_stall()
{
    // slow thread: the current fiber does not get the CPU for a while
    Fiber* f = g_cur;
    if (f->noPreempt || f->proc->idx == 0)
        return;
    uint64_t ns = 0;
    if (g_cfg.replay)
    {
        auto it = g_replayStall.find(f->id);
        if (it == g_replayStall.end())
            return;
        auto j = it->second.find(f->ticks);
        if (j == it->second.end())
            return;
        ns = j->second;
    }
    else
    {
        if (f->slowIn && --f->slowIn == 0)
            ns = f->slowNs / 8 + g_rngSched.below(f->slowNs);
        else if (!g_k.stallPermille || g_rngSched.below(100000) >= g_k.stallPermille)
            return;
        else
        {
            double e = g_rngSched.unit() * std::log(static_cast<double>(g_k.stallMax));
            ns = static_cast<uint64_t>(std::exp(e));
        }
        record(D_STALL, f->id, f->ticks, static_cast<int64_t>(ns));
    }
    g_res->stalls++;
    f->stallUntil = g_time + ns;
    note_deadline(f->stallUntil);
}

// end of slice (tick countdown or sync countdown expired)
void slow_tick()
{
    if (!g_active)
    {
        g_cd = 1L << 60;
        g_cda = 1L << 60;
        g_sliceInit = g_cd;
        return;
    }
    bool syncExpired = g_cda <= 0;
    account();
    check_budgets();
    Fiber* f = g_cur;
    if (f->proc->crashAtTick <= f->proc->ticks && !f->noPreempt)
    {
        f->proc->crashAtTick = ~0ULL;
        g_res->crashes++;
        end_proc(f->proc, ProcEnd::KILLED);
    }
    if (f->noPreempt)
    {
        begin_slice();
        if (g_cd < 16)
            g_sliceInit = g_cd = 16;
        return;
    }
    if (g_time >= g_nextDeadline)
        expire_timers();
    (void)syncExpired;
    maybe_stall();
    Fiber* n = nullptr;
    if (g_cfg.replay)
    {
        auto it = g_replaySched.find(f->id);
        if (it != g_replaySched.end())
        {
            auto j = it->second.find(f->ticks);
            if (j != it->second.end())
                for (auto* c : g_fibers)
                    if (c->id == j->second && selectable(c))
                        n = c;
        }
        if (!selectable(f) && !n)
            n = pick_next(true);
        if (!n)
            n = f;
        // fairness bound is part of the deterministic semantics
        if (n == f && f->ticks - f->ticksAtSwitchIn >= 200000)
            n = pick_next(true);
    }
    else
    {
        if (g_k.strategy == 1)
        {
            if (!g_pctPoints.empty() && g_pctPoints.back() <= g_ticks)
            {
                g_pctPoints.pop_back();
                f->prio = g_pctLow--;
            }
            if (f->ticks - f->fairMark >= 50000 && f->proc->idx != 0)
            {
                f->fairMark = f->ticks;
                f->prio = g_pctLow--;
            }
            std::vector<Fiber*> r;
            for (auto* c : g_fibers)
                if (selectable(c))
                    r.push_back(c);
            if (!r.empty())
                n = by_prio(r);
        }
        else
        {
            std::vector<Fiber*> r;
            for (auto* c : g_fibers)
                if (c != f && selectable(c))
                    r.push_back(c);
            if (!r.empty())
                n = r[g_rngSched.below(r.size())];
        }
        if (!n)
            n = selectable(f) ? f : nullptr;
        if (n && n != f)
            record(D_SCHED, f->id, f->ticks, n->id);
        if (!n)
            n = pick_next(true);
    }
    switch_to(n);
    deliver_signals();
}

void slow_here(uint64_t ns)
{
    if (g_cfg.replay || g_cur->noPreempt)
        return;
    g_cur->slowIn = !ns ? 0 : 1 + static_cast<uint32_t>(std::exp(g_rngSched.unit() * std::log(400.0)));
    g_cur->slowNs = ns;
}
void sched_sync(const char*)
{
    if (!g_active)
        return;
    g_events++;
    g_time += g_k.eventCost;
    --g_cd;
    --g_cda;
    account();
    if (g_time >= g_nextDeadline)
        expire_timers();
    if (!g_cfg.replay && (g_k.stallPermille || g_cur->slowIn) && g_cur->proc->idx != 0 && !g_cur->noPreempt)
    {
        maybe_stall();
        if (g_cur->stallUntil > g_time)
        {
            slow_tick();
            return;
        }
    }
    if (g_prioPreempt && g_k.strategy == 1)
    {
        g_prioPreempt = false;
        slow_tick();
        return;
    }
    if (g_cd <= 0 || g_cda <= 0)
        slow_tick();
}

bool block_on(uint64_t key, uint64_t deadline, const char* what)
{
    Fiber* f = g_cur;
    account();
    if (deadline <= g_time)
    {
        // still a scheduling point, otherwise polling loops would monopolise the CPU
        f->blockedOn = what;
        reschedule();
        return false;
    }
    f->fairMark = f->ticks;
    f->spinMark = f->ticks;
    f->state = FState::BLOCKED;
    f->waitKey = key;
    f->deadline = deadline;
    f->wokenByTimeout = false;
    f->blockedOn = what;
    note_deadline(deadline);
    reschedule();
    f->blockedOn.clear();
    return !f->wokenByTimeout;
}

static void make_runnable(Fiber* f)
{
    f->state = FState::RUNNABLE;
    f->deadline = ~0ULL;
    f->waitKey = 0;
    if (g_cur && f->prio > g_cur->prio)
        g_prioPreempt = true;
}
void wake_all(uint64_t key)
{
    for (auto* f : g_fibers)
        if (f->state == FState::BLOCKED && f->waitKey == key)
            make_runnable(f);
}
void wake_one(uint64_t key)
{
    wake_all(key);
}
bool has_waiters(uint64_t key)
{
    for (auto* f : g_fibers)
        if (f->state == FState::BLOCKED && f->waitKey == key)
            return true;
    return false;
}

// ------------------------------------------------------------------------------------------------ processes
static void* proc_entry(void* a)
{
    auto* p = static_cast<Proc*>(a);
    p->inst->entry(p->role, p->args.data());
    return nullptr;
}

Proc* spawn_proc(const char* name, int role, const std::vector<int64_t>& args, bool useInstance, bool)
{
    auto* p = new Proc;
    p->idx = static_cast<int>(g_procs.size());
    p->pid = 1000 + p->idx;
    p->name = name;
    p->role = role;
    p->args = args;
    p->args.resize(16, 0);
    g_procs.push_back(p);
    if (useInstance)
    {
        for (auto& i : g_instances)
            if (!i.used)
            {
                i.used = true;
                p->inst = &i;
                break;
            }
        if (!p->inst)
        {
            snprintf(g_res->msg, sizeof(g_res->msg), "out of program instances");
            finish_run(2);
        }
        new_fiber(p, proc_entry, p, name);
    }
    return p;
}

void run_atexit(Proc* p)
{
    // function-local statics and atexit handlers registered by this process, newest first, then those of start-up
    while (!p->atexit_.empty())
    {
        auto h = p->atexit_.back();
        p->atexit_.pop_back();
        h.first(h.second);
    }
    if (p->inst)
        while (!p->inst->atexit_.empty())
        {
            auto h = p->inst->atexit_.back();
            p->inst->atexit_.pop_back();
            h.first(h.second);
        }
}

void end_proc(Proc* p, ProcEnd how)
{
    if (!p->alive)
        return;
    account();
    p->end = how;
    if (g_onEnd)
        g_onEnd(p);
    p->alive = false;
    kernel_proc_death(p);
    for (auto* f : p->fibers)
    {
        f->state = FState::DEAD;
        f->opDeadline = ~0ULL;
        f->vc.c[f->id]++;
        wake_all(reinterpret_cast<uint64_t>(f));
    }
    wake_all(reinterpret_cast<uint64_t>(p));
    if (g_cfg.verbose)
        fprintf(stderr, "[%12.6f] process %s (pid %d) ended: %s\n", g_time / 1e9, p->name.c_str(), p->pid,
                how == ProcEnd::KILLED ? "KILLED" : how == ProcEnd::ABORTED ? "ABORTED" : "exit");
    if (g_cur->proc == p)
    {
        reschedule();
        abort();
    }
}

// ------------------------------------------------------------------------------------------------ end of run
std::string describe_state()
{
    std::string s = "threads:";
    for (auto* f : g_fibers)
    {
        if (f->state == FState::DEAD)
            continue;
        char b[220];
        snprintf(b, sizeof(b), " [%s/%s#%d %s%s%s%s]", f->proc->name.c_str(), f->name.c_str(), f->id,
                 f->state == FState::BLOCKED ? "blocked:" : (f == g_cur ? "running" : "runnable"),
                 f->state == FState::BLOCKED ? f->blockedOn.c_str() : "",
                 f->opDeadline != ~0ULL ? " in " : "", f->opDeadline != ~0ULL ? f->opWhat.c_str() : "");
        s += b;
        if (s.size() > 1200)
            break;
    }
    return s;
}

std::string backtrace_str(void* pc, void* fp)
{
    std::string s;
    auto add = [&s](void* a) {
        Dl_info di;
        char b[400];
        if (dladdr(a, &di) && di.dli_fname)
        {
            const char* base = strrchr(di.dli_fname, '/');
            base = base ? base + 1 : di.dli_fname;
            int st = -1;
            char* dem = di.dli_sname ? abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st) : nullptr;
            snprintf(b, sizeof(b), "%s+0x%lx %.*s; ", base, static_cast<unsigned long>(reinterpret_cast<uintptr_t>(a) - reinterpret_cast<uintptr_t>(di.dli_fbase)), 120, st == 0 ? dem : (di.dli_sname ? di.dli_sname : "?"));
        }
        else
            snprintf(b, sizeof(b), "%p; ", a);
        s += b;
    };
    if (pc)
        add(pc);
    Fiber* own = nullptr;
    for (auto* f : g_fibers)
        if (reinterpret_cast<uintptr_t>(fp) - reinterpret_cast<uintptr_t>(f->stack) < f->stackSize)
            own = f;
    if (own)
    {
        auto lo = reinterpret_cast<uintptr_t>(own->stack), hi = lo + own->stackSize;
        auto p = reinterpret_cast<uintptr_t>(fp);
        for (int i = 0; i < 14 && p >= lo && p + 16 <= hi && (p & 7) == 0; ++i)
        {
            auto* w = reinterpret_cast<void**>(p);
            if (!w[1])
                break;
            add(w[1]);
            p = reinterpret_cast<uintptr_t>(w[0]);
        }
    }
    return s;
}

extern std::string g_decOut;

void finish_run(int status)
{
    g_active = false;
    account();
    g_res->status = status;
    g_res->ticks = g_ticks;
    g_res->atomics = g_events;
    g_res->switches = g_switches;
    g_res->simNs = g_time - START_NS;
    g_res->fibers = g_nf;
    g_res->procs = g_procs.size();
    g_res->schedHash = g_schedHash;
    uint64_t h = g_schedHash;
    mix(h, g_time);
    mix(h, g_ticks);
    mix(h, g_events);
    for (auto& e : g_hist)
    {
        mix(h, e.seq);
        mix(h, e.type);
        mix(h, e.a);
        mix(h, e.b);
        mix(h, e.c);
        mix(h, e.d);
    }
    g_res->hash = h;
    g_res->nDecisions = g_dec.size();
    if (!g_decOut.empty() && (status == 1 || g_cfg.verbose))
    {
        if (FILE* o = fopen(g_decOut.c_str(), "w"))
        {
            for (auto& d : g_dec)
                fprintf(o, "D %d %d %lu %ld\n", d.kind, d.fiber, static_cast<unsigned long>(d.counter), static_cast<long>(d.value));
            fclose(o);
        }
    }
    if (g_cfg.verbose)
        fflush(stderr);
    _exit(0);
}
std::string g_decOut;

void violation(const char* tag, const std::string& msg)
{
    if (g_retag)
        tag = g_retag(tag);
    // "*:x" applies to every property; "Pxx:y" only to Pxx
    if (strncmp(tag, "*:", 2) != 0 && g_cfg.prop != "*" && strncmp(tag, g_cfg.prop.c_str(), 3) != 0)
    {
        g_res->foreign++;
        snprintf(g_res->foreignTag, sizeof(g_res->foreignTag), "%s", tag);
        snprintf(g_res->msg, sizeof(g_res->msg), "(foreign oracle) %s", msg.c_str());
        finish_run(2);
    }
    snprintf(g_res->tag, sizeof(g_res->tag), "%s", tag);
    snprintf(g_res->msg, sizeof(g_res->msg), "%s", msg.c_str());
    // tail of the history
    std::string t;
    size_t n = g_hist.size(), from = n > 40 ? n - 40 : 0;
    for (size_t i = from; i < n; ++i)
    {
        auto& e = g_hist[i];
        char b[160];
        snprintf(b, sizeof(b), "%lu:%s/%s ev%d(%ld,%ld,%ld,%ld) ", static_cast<unsigned long>(e.seq), g_procs[e.proc]->name.c_str(),
                 g_fibers[e.fiber]->name.c_str(), e.type, static_cast<long>(e.a), static_cast<long>(e.b), static_cast<long>(e.c), static_cast<long>(e.d));
        t += b;
    }
    snprintf(g_res->trace, sizeof(g_res->trace), "%s", t.size() > 2900 ? t.c_str() + (t.size() - 2900) : t.c_str());
    if (g_cfg.verbose)
    {
        fprintf(stderr, "VIOLATION %s: %s\n  bt: %s\n", tag, msg.c_str(), backtrace_str(nullptr, __builtin_frame_address(0)).c_str());
        for (auto* f : g_fibers)
            if (f->state != FState::DEAD && f != g_cur)
            {
                auto** w = static_cast<void**>(f->sp);
                fprintf(stderr, "  thread %d %s/%s: %s\n", f->id, f->proc->name.c_str(), f->name.c_str(), backtrace_str(w[6], w[5]).c_str());
            }
    }
    finish_run(1);
}

// ------------------------------------------------------------------------------------------------ run set-up
static void (*g_controller)() = nullptr;
static void* controller_main(void*)
{
    g_controller();
    finish_run(0);
    return nullptr;
}

void run_controller(void (*scn)())
{
    g_controller = scn;
    g_rngSched.seed(g_cfg.seed * 4 + 0);
    g_rngChoice.seed(g_cfg.seed * 4 + 1);
    g_rngMem.seed(g_cfg.seed * 4 + 2);
    g_rngFault.seed(g_cfg.seed * 4 + 3);
    if (g_cfg.replay)
        for (auto& d : g_cfg.decisions)
        {
            if (d.kind == D_SCHED)
                g_replaySched[d.fiber][d.counter] = d.value;
            else if (d.kind == D_STALL)
                g_replayStall[d.fiber][d.counter] = d.value;
            else
                g_replay[std::make_tuple(d.kind, d.fiber, d.counter)] = d.value;
        }
    if (g_k.strategy == 1)
    {
        for (int i = 0; i < g_k.pctDepth; ++i)
            g_pctPoints.push_back(static_cast<uint64_t>(g_rngSched.unit() * g_k.pctLen));
        std::sort(g_pctPoints.rbegin(), g_pctPoints.rend());
    }
    kernel_reset();
    mem_reset();
    g_time = START_NS;
    g_cfg.simBudgetNs += g_time;
    auto* p0 = new Proc;
    p0->name = "controller";
    p0->pid = 1;
    g_procs.push_back(p0);
    static Fiber boot;
    boot.id = 0;
    g_nf = 1;
    boot.proc = p0;
    boot.state = FState::DEAD;
    boot.name = "boot";
    boot.vc.c[0] = 1;
    g_fibers.push_back(&boot);
    p0->fibers.push_back(&boot);
    g_cur = &boot;
    Fiber* c = new_fiber(p0, controller_main, nullptr, "controller");
    c->prio = 1ULL << 40;
    g_active = true;
    switch_to(c);
    abort();
}

bool wait_until(const std::function<bool()>& cond, uint64_t timeoutNs, uint64_t pollNs)
{
    uint64_t end = g_time + timeoutNs;
    while (!cond())
    {
        if (g_time >= end)
            return false;
        sim_sleep(pollNs);
    }
    return true;
}

// ------------------------------------------------------------------------------------------------ knobs
void default_knobs()
{
    memset(&g_k, 0, sizeof(g_k));
    g_k.meanAtomic = 8;
    g_k.meanPlain = 0;
    g_k.tickCost = 500;
    g_k.eventCost = 20;
}
void knobs_component()
{
    Rng r;
    r.seed(g_cfg.seed ^ 0xabcdef12345ULL);
    default_knobs();
    static const double am[] = {1.5, 2, 3, 4, 6, 10, 20};
    static const double pm[] = {0, 0, 30, 100, 400};
    g_k.strategy = r.below(100) < 40 ? 1 : 0;
    g_k.meanAtomic = am[r.below(7)];
    g_k.meanPlain = pm[r.below(5)];
    g_k.pctDepth = 1 + static_cast<int>(r.below(6));
    static const double pl[] = {300, 1000, 3000, 10000};
    g_k.pctLen = pl[r.below(4)];
    static const uint32_t st[] = {0, 0, 30, 100, 300};
    g_k.stalePermille = st[r.below(5)];
    g_k.eventCost = 20;
}
void knobs_system()
{
    Rng r;
    r.seed(g_cfg.seed ^ 0x5157e3ULL);
    default_knobs();
    g_heapRace = sim_param("heaprace", 1) != 0;
    static const double am[] = {3, 8, 20, 60, 200};
    static const double pm[] = {0, 0, 0, 300, 2000, 20000};
    g_k.strategy = r.below(100) < 30 ? 1 : 0;
    g_k.meanAtomic = am[r.below(5)];
    g_k.meanPlain = pm[r.below(6)];
    g_k.pctDepth = 2 + static_cast<int>(r.below(30));
    static const double pl[] = {200000, 600000, 2000000};
    g_k.pctLen = pl[r.below(3)];
    static const uint32_t st[] = {0, 0, 20, 100};
    g_k.stalePermille = st[r.below(4)];
    static const uint64_t ec[] = {20, 200, 2000, 10000};
    g_k.eventCost = ec[r.below(4)];
    g_k.slackPermille = r.below(3) == 0 ? 0 : 300;
    g_k.slackMax = 20000000;
}
} // namespace sim

using namespace sim;

// ---------------------------------------------------------------------------------------------------- C interface
extern "C" {
uint32_t sim_choose(uint32_t n)
{
    if (n <= 1 || !g_active)
        return 0;
    Fiber* f = g_cur;
    uint64_t c = f->choices++;
    if (g_cfg.replay)
    {
        int64_t v = 0;
        if (lookup(D_CHOICE, f->id, c, v))
            return static_cast<uint32_t>(v) % n;
        return 0;
    }
    uint32_t v = static_cast<uint32_t>(g_rngChoice.below(n));
    if (v)
        record(D_CHOICE, f->id, c, v);
    return v;
}
bool sim_chance(uint32_t permille)
{
    // default (0) means: no
    return sim_choose(1000) > 999 - std::min(permille, 999u);
}
uint64_t sim_now() { return g_time; }
int sim_self() { return g_cur ? g_cur->id : -1; }
int sim_proc() { return g_cur ? g_cur->proc->idx : -1; }
uint64_t sim_seq() { return g_hist.size(); }
void sim_sleep(uint64_t ns)
{
    if (!g_active)
        return;
    uint64_t end = g_time + ns;
    block_on(1, end, "sleep");
}
void sim_yield()
{
    if (!g_active)
        return;
    account();
    g_time += 100;
    if (g_k.strategy == 1 && g_cur->proc->idx != 0)
        g_cur->prio = g_pctLow--;
    reschedule();
}
void sim_fail(const char* tag, const char* fmt, ...)
{
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    if (!g_active)
    {
        fprintf(stderr, "sim_fail outside of a run: %s %s\n", tag, b);
        abort();
    }
    violation(tag, b);
}
void sim_note(const char* fmt, ...)
{
    if (!g_cfg.verbose)
        return;
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    fprintf(stderr, "[%12.6f] %s/%s: %s\n", (g_time % 1000000000000ULL) / 1e9, g_cur ? g_cur->proc->name.c_str() : "-", g_cur ? g_cur->name.c_str() : "-", b);
}
bool sim_verbose() { return g_cfg.verbose; }
int64_t sim_param(const char* name, int64_t d)
{
    auto it = g_cfg.params.find(name);
    return it == g_cfg.params.end() ? d : it->second;
}
void sim_cover(uint64_t f)
{
    if (g_res->ncover >= 256)
        return;
    for (uint32_t i = 0; i < g_res->ncover; ++i)
        if (g_res->cover[i] == f)
            return;
    g_res->cover[g_res->ncover++] = f;
}
void sim_count(const char* w, int64_t n)
{
    for (uint32_t i = 0; i < g_res->ncounts; ++i)
        if (!strcmp(g_res->counts[i].name, w))
        {
            g_res->counts[i].n += n;
            return;
        }
    if (g_res->ncounts < 24)
    {
        snprintf(g_res->counts[g_res->ncounts].name, 24, "%s", w);
        g_res->counts[g_res->ncounts++].n = n;
    }
}
void sim_hist(int type, int64_t a, int64_t b, int64_t c, int64_t d)
{
    if (!g_active)
        return;
    g_hist.push_back(HistEv{g_hist.size(), g_time, g_cur->id, g_cur->proc->idx, type, a, b, c, d, {}});
    if (g_histVc)
        g_hist.back().vc.assign(g_cur->vc.c, g_cur->vc.c + g_nf);
    if (g_cfg.verbose)
        sim_note("hist ev%d (%ld,%ld,%ld,%ld)", type, static_cast<long>(a), static_cast<long>(b), static_cast<long>(c), static_cast<long>(d));
}
struct ThreadStart
{
    sim_fn fn;
    void* arg;
};
static void* thread_tramp(void* a)
{
    auto* t = static_cast<ThreadStart*>(a);
    t->fn(t->arg);
    return nullptr;
}
int sim_thread(sim_fn fn, void* arg, const char* name)
{
    auto* t = new ThreadStart{fn, arg};
    Fiber* f = new_fiber(g_cur->proc, thread_tramp, t, name);
    sched_sync("thread");
    return f->id;
}
void sim_join(int id)
{
    Fiber* f = g_fibers[id];
    while (f->state != FState::DEAD)
        block_on(reinterpret_cast<uint64_t>(f), ~0ULL, "join");
    hb_join(f);
}
void sim_atomic_begin()
{
    if (g_cur)
        g_cur->noPreempt++;
}
void sim_atomic_end()
{
    if (g_cur)
        g_cur->noPreempt--;
}
void sim_deadline(uint64_t ns, const char* tag, const char* what)
{
    g_cur->opDeadline = g_time + ns;
    g_cur->opTag = tag;
    g_cur->opWhat = what;
    if (g_cur->opDeadline < sim::g_nextDeadline)
        sim::g_nextDeadline = g_cur->opDeadline;
}
void sim_deadline_clear()
{
    if (g_time > g_cur->opDeadline)
    {
        std::string t = g_cur->opTag, w = g_cur->opWhat;
        g_cur->opDeadline = ~0ULL;
        violation(t.c_str(), "no progress: " + w + " completed too late");
    }
    g_cur->opDeadline = ~0ULL;
}
void* sim_shared() { return g_sharedBlock; }
}
