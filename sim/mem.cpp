// Instrumentation run-time: memory accesses, atomics with weakly ordered loads, happens-before clocks, race and
// heap-lifetime detection, thread-local storage, function-local statics. Implements the interface that clang's
// thread-sanitizer pass compiles against; nothing of the real sanitizer is linked.
#include "simint.h"
#include <cerrno>
#include <cstdlib>
#include <memory>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim
{
extern uint64_t g_eventNo();

uintptr_t g_arena = 0;
uint64_t g_slotKey[ARENA_SLOTS];
uint8_t g_slotTracked[ARENA_SLOTS];

// ------------------------------------------------------------------------------------------------ clocks
using Clk = std::vector<uint32_t>;
using ClkP = std::shared_ptr<const Clk>;

static inline void join(VC& a, const Clk& b)
{
    for (size_t i = 0; i < b.size(); ++i)
        if (b[i] > a.c[i])
            a.c[i] = b[i];
}
static inline ClkP snap(const VC& a)
{
    return std::make_shared<Clk>(a.c, a.c + g_nf);
}
static VC g_scClock;

void hb_release(VC& obj)
{
    if (!g_cur)
        return;
    vc_join(obj, g_cur->vc);
    g_cur->vc.c[g_cur->id]++;
}
void hb_acquire(const VC& obj)
{
    if (g_cur)
        vc_join(g_cur->vc, obj);
}
void hb_fork(Fiber* child)
{
    uint32_t own = child->vc.c[child->id];
    vc_join(child->vc, g_cur->vc);
    child->vc.c[child->id] = own + 1;
    g_cur->vc.c[g_cur->id]++;
}
void hb_join(Fiber* dead)
{
    vc_join(g_cur->vc, dead->vc);
}
// everything a dead process did is visible to everybody who can learn of its death
void hb_proc_death(Proc* p)
{
    for (auto* d : p->fibers)
        for (auto* f : g_fibers)
            if (f->proc != p && f->state != FState::DEAD)
                vc_join(f->vc, d->vc);
}

// ------------------------------------------------------------------------------------------------ store histories
struct Store
{
    uint64_t val;
    int fiber; // -1: initial value
    uint32_t epoch;
    bool sc;
    uint64_t ev;
    uint64_t time;
    ClkP rel;
    std::vector<std::pair<int, uint32_t>> seen; // fiber, epoch of first observation
};
struct Loc
{
    uint8_t size{0};
    uint8_t n{0};
    Store h[6]; // oldest first
};
static std::unordered_map<uint64_t, Loc> g_locs;
static uint8_t g_bloom[1 << 16];
static inline uint32_t bloom_idx(uint64_t key) { return static_cast<uint32_t>(((key >> 3) * 0x9E3779B97F4A7C15ULL) >> 48); }

static inline void plain_write_hits(const volatile void* a, size_t n)
{
    if (!g_active)
        return;
    uint64_t k = phys(a) & ~7ULL;
    uint64_t e = (phys(a) + n + 7) & ~7ULL;
    if (n > 4096)
    {
        // large range: walk the histories only if there are few of them
        for (auto it = g_locs.begin(); it != g_locs.end();)
        {
            if (it->first >= k && it->first < e)
                it = g_locs.erase(it);
            else
                ++it;
        }
        return;
    }
    for (; k < e; k += 8)
        if (g_bloom[bloom_idx(k)])
            for (int j = 0; j < 8; ++j)
                g_locs.erase(k + j);
}

static void loc_init(Loc& l, uint8_t size, uint64_t val)
{
    l.size = size;
    for (int i = 0; i < l.n; ++i)
        l.h[i] = Store{};
    l.n = 1;
    l.h[0] = Store{};
    l.h[0].val = val;
    l.h[0].fiber = -1;
}
static Loc& loc_get(const volatile void* a, uint8_t size, uint64_t cur)
{
    uint64_t k = phys(a);
    Loc& l = g_locs[k];
    if (l.n == 0 || l.size != size || l.h[l.n - 1].val != cur)
    {
        g_bloom[bloom_idx(k & ~7ULL)] = 1;
        loc_init(l, size, cur);
    }
    return l;
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void observe(Loc& l, int idx, int mo)
{
    Fiber* f = g_cur;
    Store& s = l.h[idx];
    bool found = false;
    for (auto& p : s.seen)
        found |= p.first == f->id;
    if (!found)
        s.seen.emplace_back(f->id, f->vc.c[f->id]);
    if (s.rel)
    {
        if (is_acq(mo))
            join(f->vc, *s.rel);
        else
        {
            join(f->acqFence, *s.rel);
            f->hasAcqFence = true;
        }
    }
}

static void push_store(Loc& l, uint64_t val, int mo, bool rmw)
{
    Fiber* f = g_cur;
    Store s{};
    s.val = val;
    s.fiber = f->id;
    s.epoch = f->vc.c[f->id];
    s.sc = mo == __ATOMIC_SEQ_CST;
    s.ev = g_eventNo();
    s.time = g_time;
    const Store& prev = l.h[l.n - 1];
    if (is_rel(mo))
    {
        if (rmw && prev.rel)
        {
            auto c = std::make_shared<Clk>(f->vc.c, f->vc.c + g_nf);
            for (size_t i = 0; i < prev.rel->size(); ++i)
                if ((*prev.rel)[i] > (*c)[i])
                    (*c)[i] = (*prev.rel)[i];
            s.rel = c;
        }
        else
            s.rel = snap(f->vc);
    }
    else
    {
        ClkP base;
        if (rmw || prev.fiber == f->id) // release sequence (C++17 rules: also later stores of the same thread)
            base = prev.rel;
        if (f->hasRelFence)
        {
            auto c = std::make_shared<Clk>(f->relFence.c, f->relFence.c + g_nf);
            if (base)
                for (size_t i = 0; i < base->size(); ++i)
                    if ((*base)[i] > (*c)[i])
                        (*c)[i] = (*base)[i];
            s.rel = c;
        }
        else
            s.rel = base;
    }
    if (l.n == 6)
    {
        for (int i = 0; i < 5; ++i)
            l.h[i] = std::move(l.h[i + 1]);
        l.n = 5;
    }
    l.h[l.n++] = std::move(s);
    f->vc.c[f->id]++;
}

static int pick_load(Loc& l, int mo)
{
    Fiber* f = g_cur;
    uint64_t no = f->loads++;
    int last = l.n - 1;
    if (last == 0)
        return 0;
    if (!g_cfg.replay && g_k.stalePermille == 0)
        return last;
    int floor = 0;
    uint64_t ev = g_eventNo();
    for (int i = last; i > 0; --i)
    {
        const Store& s = l.h[i];
        bool known = s.fiber < 0 || s.fiber == f->id || s.epoch <= f->vc.c[s.fiber];
        if (!known)
            for (auto& p : s.seen)
                known |= p.second <= f->vc.c[p.first];
        if (!known && mo == __ATOMIC_SEQ_CST && s.sc)
            known = true;
        // a store becomes visible everywhere after a while
        if (!known && (s.ev + 200 < ev || s.time + 1000000 < g_time))
            known = true;
        if (known)
        {
            floor = i;
            break;
        }
    }
    if (floor == last)
        return last;
    if (g_cfg.replay)
    {
        int64_t v = 0;
        if (!lookup(D_STALE, f->id, no, v))
            return last;
        if (v > last - floor)
            v = last - floor;
        if (v)
            g_res->staleLoads++;
        return last - static_cast<int>(v);
    }
    if (g_rngMem.below(1000) >= g_k.stalePermille)
        return last;
    int back = 1 + static_cast<int>(g_rngMem.below(last - floor));
    record(D_STALE, f->id, no, back);
    g_res->staleLoads++;
    return last - back;
}

static inline bool on() { return g_active && g_cur; }

template <typename T>
static T at_load(const volatile T* a, int mo)
{
    if (!on())
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);
    sched_sync("load");
    T cur = *a;
    if constexpr (sizeof(T) <= 8)
    {
        Loc& l = loc_get(a, sizeof(T), static_cast<uint64_t>(cur));
        int i = pick_load(l, mo);
        observe(l, i, mo);
        return static_cast<T>(l.h[i].val);
    }
    return cur;
}
template <typename T>
static void at_store(volatile T* a, T v, int mo)
{
    if (!on())
    {
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
        return;
    }
    sched_sync("store");
    if constexpr (sizeof(T) <= 8)
    {
        Loc& l = loc_get(a, sizeof(T), static_cast<uint64_t>(*a));
        push_store(l, static_cast<uint64_t>(v), mo, false);
    }
    *a = v;
}
template <typename T, typename F>
static T at_rmw(volatile T* a, int mo, F fn)
{
    if (on())
        sched_sync("rmw");
    T cur = *a;
    T nv = fn(cur);
    if (on())
    {
        if constexpr (sizeof(T) <= 8)
        {
            Loc& l = loc_get(a, sizeof(T), static_cast<uint64_t>(cur));
            observe(l, l.n - 1, mo);
            push_store(l, static_cast<uint64_t>(nv), mo, true);
        }
    }
    *a = nv;
    return cur;
}
template <typename T>
static bool at_cas(volatile T* a, T* exp, T v, int mo, int fmo, bool weak)
{
    if (on())
        sched_sync("cas");
    T cur = *a;
    if (!on())
    {
        if (cur == *exp)
        {
            *a = v;
            return true;
        }
        *exp = cur;
        return false;
    }
    bool spurious = false;
    if (weak && cur == *exp && (g_cfg.replay || g_k.stalePermille))
    {
        uint64_t no = g_cur->loads++;
        if (g_cfg.replay)
        {
            int64_t x = 0;
            spurious = lookup(D_STALE, g_cur->id, no, x);
        }
        else if (g_rngMem.below(4000) < g_k.stalePermille)
        {
            spurious = true;
            record(D_STALE, g_cur->id, no, 1);
        }
        if (spurious)
            g_res->staleLoads++;
    }
    if constexpr (sizeof(T) <= 8)
    {
        Loc& l = loc_get(a, sizeof(T), static_cast<uint64_t>(cur));
        if (cur == *exp && !spurious)
        {
            observe(l, l.n - 1, mo);
            push_store(l, static_cast<uint64_t>(v), mo, true);
            *a = v;
            return true;
        }
        observe(l, l.n - 1, fmo);
        *exp = cur;
        return false;
    }
    else
    {
        if (cur == *exp && !spurious)
        {
            *a = v;
            return true;
        }
        *exp = cur;
        return false;
    }
}

// ------------------------------------------------------------------------------------------------ race detection
// byte-granular epochs on tracked memory; packed fiber(8) | epoch(24)
struct RaceCell
{
    uint32_t w{0};
    uint32_t r[2]{0, 0};
};
struct Shadow
{
    std::vector<RaceCell> c;
    std::string what;
};
static std::unordered_map<uint64_t, Shadow> g_shadow; // object key -> cells
static std::map<uintptr_t, std::pair<size_t, uint64_t>> g_priv; // private ranges
static uintptr_t g_privLo = ~0ULL, g_privHi = 0;
static uint64_t g_privKey = 1ULL << 61;

static inline bool ordered(uint32_t cell)
{
    if (!cell)
        return true;
    uint32_t f = cell >> 24, e = cell & 0xffffff;
    return e <= g_cur->vc.c[f] || f == static_cast<uint32_t>(g_cur->id);
}

const char* g_raceTag = "P01:race";
static void race_report(const char* what, uint64_t off, uint32_t other, const char* kind, void* pc, void* fp)
{
    uint32_t fo = other >> 24;
    char b[400];
    snprintf(b, sizeof(b), "%s at offset %lu of %s by %s/%s is not ordered after the access by %s/%s", kind, static_cast<unsigned long>(off), what,
             g_cur->proc->name.c_str(), g_cur->name.c_str(), g_fibers[fo]->proc->name.c_str(), g_fibers[fo]->name.c_str());
    violation(g_raceTag, std::string(b) + "; at " + backtrace_str(pc, fp));
}

static void race_cells(RaceCell* cells, size_t n, uint64_t off, const char* what, bool write, void* pc, void* fp)
{
    uint32_t ep = g_cur->vc.c[g_cur->id];
    if (ep > 0xffffff)
        return;
    uint32_t me = (static_cast<uint32_t>(g_cur->id) << 24) | ep;
    for (size_t i = 0; i < n; ++i)
    {
        RaceCell& c = cells[i];
        if (!ordered(c.w))
            race_report(what, off + i, c.w, write ? "write (after write)" : "read (after write)", pc, fp);
        if (write)
        {
            for (auto r : c.r)
                if (!ordered(r))
                    race_report(what, off + i, r, "write (after read)", pc, fp);
            c.w = me;
            c.r[0] = c.r[1] = 0;
        }
        else
        {
            if (c.r[0] == 0 || (c.r[0] >> 24) == (me >> 24) || ordered(c.r[0]))
                c.r[0] = me;
            else
                c.r[1] = me;
        }
    }
}

static void race_access(Shadow& s, uint64_t off, size_t n, bool write, void* pc, void* fp)
{
    if (!g_cur || !g_active || g_cur->proc->idx == 0 || off >= s.c.size())
        return;
    race_cells(s.c.data() + off, std::min(n, s.c.size() - static_cast<size_t>(off)), off, s.what.c_str(), write, pc, fp);
}

void mem_track_object(uint64_t key, size_t size, int, const char* what)
{
    Shadow& s = g_shadow[key];
    s.c.assign(size, RaceCell{});
    s.what = what;
}

static bool g_raceOn = true;
void race_enable(bool on) { g_raceOn = on; }

static void race_slow(const volatile void* a, size_t n, bool write, void* pc, void* fp)
{
    if (!g_raceOn)
        return;
    uintptr_t x = reinterpret_cast<uintptr_t>(a);
    uintptr_t off = x - g_arena;
    if (off < ARENA_SLOT * ARENA_SLOTS)
    {
        uint64_t base = g_slotKey[off / ARENA_SLOT];
        auto it = g_shadow.find(base);
        if (it != g_shadow.end())
            race_access(it->second, off % ARENA_SLOT, n, write, pc, fp);
        return;
    }
    auto it = g_priv.upper_bound(x);
    if (it == g_priv.begin())
        return;
    --it;
    if (x < it->first + it->second.first)
        race_access(g_shadow[it->second.second], x - it->first, n, write, pc, fp);
}

// ------------------------------------------------------------------------------------------------ heap of simulated code
static uintptr_t g_heap = 0, g_heapTop = 0, g_heapEnd = 0;
static uint8_t* g_heapShadow = nullptr;
constexpr size_t HEAP_SIZE = 1UL << 30;
static void heap_init()
{
    if (g_heap)
        return;
    g_heap = reinterpret_cast<uintptr_t>(reinterpret_cast<void*>(syscall(SYS_mmap, nullptr, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)));
    g_heapTop = g_heap + 4096;
    g_heapEnd = g_heap + HEAP_SIZE;
    g_heapShadow = reinterpret_cast<uint8_t*>(reinterpret_cast<void*>(syscall(SYS_mmap, nullptr, HEAP_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)));
}
static inline bool in_heap(uintptr_t x) { return x - g_heap < HEAP_SIZE && g_heap; }

static void heap_bad(const volatile void* a, bool write, void* pc, void* fp)
{
    if (!g_active || !g_cur || g_cur->proc->idx == 0)
        return;
    char b[200];
    snprintf(b, sizeof(b), "%s of freed or unallocated heap memory by %s/%s", write ? "write" : "read", g_cur->proc->name.c_str(), g_cur->name.c_str());
    (void)a;
    violation("*:heap", std::string(b) + "; at " + backtrace_str(pc, fp));
}

// happens-before race detection on the heap of the simulated programs (addresses are not reused within a run)
bool g_heapRace = false;
static RaceCell* g_heapCells = nullptr;
constexpr size_t HEAP_RACE = 64UL << 20;
static void heap_race_init()
{
    if (!g_heapCells)
        g_heapCells = reinterpret_cast<RaceCell*>(reinterpret_cast<void*>(
            syscall(SYS_mmap, nullptr, HEAP_RACE * sizeof(RaceCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)));
}
static std::vector<std::pair<uintptr_t, uintptr_t>>* g_watched; // sorted: the heap only grows
static bool heap_watched(uintptr_t x)
{
    if (!g_watched || x < g_watched->front().first || x >= g_watched->back().second)
        return false;
    auto it = std::upper_bound(g_watched->begin(), g_watched->end(), std::make_pair(x, ~uintptr_t{0}));
    return it != g_watched->begin() && x < (it - 1)->second;
}
static void heap_race(uintptr_t x, size_t n, bool write, void* pc, void* fp)
{
    uintptr_t o = x - g_heap;
    // only in the daemon: the programs of the harness hand over their own objects by means that order nothing
    if (!g_raceOn || !g_active || !g_cur || o + n > HEAP_RACE)
        return;
    bool daemon = g_cur->proc->name.compare(0, 5, "roudi") == 0;
    if (!daemon && !heap_watched(x))
        return;
    heap_race_init();
    const char* tag = g_raceTag;
    g_raceTag = "*:race";
    race_cells(g_heapCells + o, n, 0, daemon ? "an object of the daemon" : "an object that threads of an application share", write, pc, fp);
    g_raceTag = tag;
}

static inline void heap_check(uintptr_t x, bool write, void* pc, void* fp)
{
    uintptr_t o = x - g_heap;
    if (o < HEAP_SIZE && g_heapShadow[o >> 4] != 1)
        heap_bad(reinterpret_cast<void*>(x), write, pc, fp);
}
// stacks of dead fibers and memory after the end of its owner are covered by never reusing them within a run

#define ACCESS(a, n, w)                                                                                                                  \
    do                                                                                                                                   \
    {                                                                                                                                    \
        if (__builtin_expect(--g_cd <= 0, 0))                                                                                            \
            slow_tick();                                                                                                                 \
        uintptr_t x_ = reinterpret_cast<uintptr_t>(a);                                                                                   \
        uintptr_t o_ = x_ - g_arena;                                                                                                     \
        if (o_ < ARENA_SLOT * ARENA_SLOTS)                                                                                               \
        {                                                                                                                                \
            if (g_slotTracked[o_ / ARENA_SLOT])                                                                                          \
                race_slow(a, n, w, __builtin_return_address(0), __builtin_frame_address(0));                                             \
        }                                                                                                                                \
        else if (x_ - g_heap < HEAP_SIZE)                                                                                                \
        {                                                                                                                                \
            heap_check(x_, w, __builtin_return_address(0), __builtin_frame_address(0));                                                  \
            if (g_heapRace)                                                                                                              \
                heap_race(x_, n, w, __builtin_return_address(0), __builtin_frame_address(0));                                            \
        }                                                                                                                                \
        if (__builtin_expect(x_ >= g_privLo && x_ < g_privHi, 0))                                                                        \
            race_slow(a, n, w, __builtin_return_address(0), __builtin_frame_address(0));                                                 \
        if (w && __builtin_expect(g_bloom[bloom_idx(phys(a) & ~7ULL)], 0))                                                               \
            plain_write_hits(a, n);                                                                                                      \
    } while (0)

static void range_access(const void* a, size_t n, bool w, void* pc, void* fp)
{
    if (!n)
        return;
    uintptr_t x = reinterpret_cast<uintptr_t>(a);
    uintptr_t o = x - g_arena;
    if (o < ARENA_SLOT * ARENA_SLOTS)
    {
        if (g_slotTracked[o / ARENA_SLOT])
            race_slow(a, n, w, pc, fp);
    }
    else if (in_heap(x))
    {
        heap_check(x, w, pc, fp);
        heap_check(x + n - 1, w, pc, fp);
        if (g_heapRace)
            heap_race(x, n, w, pc, fp);
    }
    if (x >= g_privLo && x < g_privHi)
        race_slow(a, n, w, pc, fp);
    if (w)
        plain_write_hits(a, n);
}

void mem_reset()
{
    g_locs.clear();
    memset(g_bloom, 0, sizeof(g_bloom));
    g_scClock.clear();
}
void mem_init()
{
    heap_init();
    if (!g_arena)
        g_arena = reinterpret_cast<uintptr_t>(reinterpret_cast<void*>(
            syscall(SYS_mmap, nullptr, ARENA_SLOT * ARENA_SLOTS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)));
}

// ------------------------------------------------------------------------------------------------ thread-local storage
struct EmutlsControl
{
    size_t size;
    size_t align;
    void* loc;
    void* templ;
};
static std::unordered_map<void*, void*>& base_tls()
{
    static auto* m = new std::unordered_map<void*, void*>;
    return *m;
}
struct GuardState
{
    Fiber* owner{nullptr};
    VC vc;
};
static std::unordered_map<void*, GuardState>& guards()
{
    static auto* m = new std::unordered_map<void*, GuardState>;
    return *m;
}
} // namespace sim

using namespace sim;

extern "C" {
void* __emutls_get_address(EmutlsControl* c)
{
    auto& m = g_cur ? g_cur->tls : base_tls();
    auto it = m.find(c);
    if (it != m.end())
        return it->second;
    void* p = aligned_alloc(c->align < 16 ? 16 : c->align, (c->size + 63) & ~63UL);
    if (c->templ)
        memcpy(p, c->templ, c->size);
    else
        memset(p, 0, c->size);
    m[c] = p;
    return p;
}
int __cxa_thread_atexit(void (*d)(void*), void* o, void*) noexcept
{
    if (g_cur)
        g_cur->tlsDtors.emplace_back(d, o);
    return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
    if (!on())
        return *reinterpret_cast<volatile char*>(g) == 0;
    sched_sync("guard");
    while (true)
    {
        auto& gs = guards()[g];
        if (*reinterpret_cast<volatile char*>(g))
        {
            hb_acquire(gs.vc);
            return 0;
        }
        if (!gs.owner || gs.owner->state == FState::DEAD)
        {
            gs.owner = g_cur;
            return 1;
        }
        if (gs.owner == g_cur)
            violation("*:recursive-init", "recursive initialisation of a function-local static");
        block_on(reinterpret_cast<uint64_t>(g), ~0ULL, "static initialisation");
    }
}
void __cxa_guard_release(uint64_t* g)
{
    if (on())
    {
        auto& gs = guards()[g];
        gs.owner = nullptr;
        hb_release(gs.vc);
        // the inlined fast path is an acquire load of the first byte
        auto* b = reinterpret_cast<volatile uint8_t*>(g);
        push_store(loc_get(b, 1, *b), 1, __ATOMIC_RELEASE, false);
    }
    *reinterpret_cast<volatile char*>(g) = 1;
    if (on())
        wake_all(reinterpret_cast<uint64_t>(g));
}
void __cxa_guard_abort(uint64_t* g)
{
    if (on())
    {
        guards()[g].owner = nullptr;
        wake_all(reinterpret_cast<uint64_t>(g));
    }
}

// ---- heap
void* sim_malloc(size_t n, size_t align)
{
    heap_init();
    if (align < 16)
        align = 16;
    if (n > (1UL << 32))
        return nullptr;
    uintptr_t p = (g_heapTop + 16 + align - 1) & ~(align - 1);
    size_t len = (n + 15) & ~15UL;
    if (len == 0)
        len = 16;
    if (p + len + 16 > g_heapEnd)
    {
        if (g_active)
        {
            snprintf(g_res->msg, sizeof(g_res->msg), "simulated heap exhausted");
            finish_run(2);
        }
        return nullptr;
    }
    g_heapTop = p + len;
    memset(g_heapShadow + ((p - g_heap) >> 4), 1, len >> 4);
    // remember the length in front (inside the red zone)
    reinterpret_cast<uint64_t*>(p)[-1] = len;
    if (g_active && g_cur && g_cur->proc->heapWatch)
    {
        if (!g_watched)
            g_watched = new std::vector<std::pair<uintptr_t, uintptr_t>>;
        g_watched->emplace_back(p, p + len);
    }
    return reinterpret_cast<void*>(p);
}
void sim_free(void* q)
{
    if (!q)
        return;
    uintptr_t p = reinterpret_cast<uintptr_t>(q);
    if (!in_heap(p))
    {
        free(q);
        return;
    }
    if (g_active && g_cur && g_cur->proc->idx != 0 && g_heapShadow[(p - g_heap) >> 4] != 1)
        violation("*:heap", std::string("double free or free of a foreign pointer; at ") + backtrace_str(__builtin_return_address(0), __builtin_frame_address(0)));
    size_t len = reinterpret_cast<uint64_t*>(p)[-1];
    if (g_active)
        plain_write_hits(q, len);
    if (g_heapRace)
        heap_race(p, len, true, __builtin_return_address(0), __builtin_frame_address(0));
    memset(g_heapShadow + ((p - g_heap) >> 4), 2, len >> 4);
    memset(q, 0xDD, len);
}

void sim_slow(uint64_t ns) { slow_here(ns); }
void sim_heap_watch(int on) { g_cur->proc->heapWatch = on != 0; }
void sim_track(const void* p, size_t n)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    uint64_t key = g_privKey;
    g_privKey += 1ULL << 32;
    g_priv[a] = {n, key};
    mem_track_object(key, n, 0, "tracked memory");
    if (a < g_privLo)
        g_privLo = a;
    if (a + n > g_privHi)
        g_privHi = a + n;
}
void sim_untrack(const void* p, size_t)
{
    g_priv.erase(reinterpret_cast<uintptr_t>(p));
}

// ---- plain accesses
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                                            \
    void __tsan_read##n(void* a) { ACCESS(a, n, false); }                                                                                \
    void __tsan_write##n(void* a) { ACCESS(a, n, true); }                                                                                \
    void __tsan_unaligned_read##n(void* a) { ACCESS(a, n, false); }                                                                      \
    void __tsan_unaligned_write##n(void* a) { ACCESS(a, n, true); }                                                                      \
    void __tsan_read_write##n(void* a) { ACCESS(a, n, true); }                                                                           \
    void __tsan_unaligned_read_write##n(void* a) { ACCESS(a, n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_vptr_update(void** a, void* v)
{
    // the store of the same value (first thing in a destructor) is no change
    ACCESS(a, 8, *a != v);
}
void __tsan_vptr_read(void** a) { ACCESS(a, 8, false); }
void __tsan_read_range(void* a, unsigned long n)
{
    if (--g_cd <= 0)
        slow_tick();
    range_access(a, n, false, __builtin_return_address(0), __builtin_frame_address(0));
}
void __tsan_write_range(void* a, unsigned long n)
{
    if (--g_cd <= 0)
        slow_tick();
    range_access(a, n, true, __builtin_return_address(0), __builtin_frame_address(0));
}

// bulk operations can be preempted (and the process can die) in the middle
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    void *pc = __builtin_return_address(0), *fp = __builtin_frame_address(0);
    if (--g_cd <= 0)
        slow_tick();
    if (on() && n >= 16 && n <= 4096)
    {
        size_t h = n / 2;
        range_access(s, h, false, pc, fp);
        range_access(d, h, true, pc, fp);
        memmove(d, s, h);
        if (--g_cd <= 0)
            slow_tick();
        range_access(static_cast<const char*>(s) + h, n - h, false, pc, fp);
        range_access(static_cast<char*>(d) + h, n - h, true, pc, fp);
        memmove(static_cast<char*>(d) + h, static_cast<const char*>(s) + h, n - h);
        return d;
    }
    range_access(s, n, false, pc, fp);
    range_access(d, n, true, pc, fp);
    return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    void *pc = __builtin_return_address(0), *fp = __builtin_frame_address(0);
    if (--g_cd <= 0)
        slow_tick();
    range_access(s, n, false, pc, fp);
    range_access(d, n, true, pc, fp);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n)
{
    void *pc = __builtin_return_address(0), *fp = __builtin_frame_address(0);
    if (--g_cd <= 0)
        slow_tick();
    range_access(d, n, true, pc, fp);
    return memset(d, v, n);
}

// ---- atomics
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
typedef unsigned __int128 a128;
#define AT(N, T)                                                                                                                         \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) { return at_load<T>(a, mo); }                                                 \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_store<T>(a, v, mo); }                                                 \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T) { return v; }); }                         \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T c) { return static_cast<T>(c + v); }); }  \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T c) { return static_cast<T>(c - v); }); }  \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T c) { return static_cast<T>(c & v); }); }  \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T c) { return static_cast<T>(c | v); }); }   \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T c) { return static_cast<T>(c ^ v); }); }  \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, [v](T c) { return static_cast<T>(~(c & v)); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int f) { return at_cas<T>(a, e, v, mo, f, false); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int f) { return at_cas<T>(a, e, v, mo, f, true); }    \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int f)                                                    \
    {                                                                                                                                    \
        at_cas<T>(a, &e, v, mo, f, false);                                                                                               \
        return e;                                                                                                                        \
    }
AT(8, a8)
AT(16, a16)
AT(32, a32)
AT(64, a64)
static a128 ld128(const volatile a128* a) { a128 r; memcpy(&r, const_cast<const a128*>(a), 16); return r; }
a128 __tsan_atomic128_load(const volatile a128* a, int) { if (on()) sched_sync("load"); return ld128(a); }
void __tsan_atomic128_store(volatile a128* a, a128 v, int) { if (on()) sched_sync("store"); memcpy(const_cast<a128*>(a), &v, 16); }
a128 __tsan_atomic128_exchange(volatile a128* a, a128 v, int) { if (on()) sched_sync("rmw"); a128 c = ld128(a); memcpy(const_cast<a128*>(a), &v, 16); return c; }
int __tsan_atomic128_compare_exchange_strong(volatile a128* a, a128* e, a128 v, int, int)
{
    if (on())
        sched_sync("cas");
    a128 c = ld128(a);
    if (c == *e)
    {
        memcpy(const_cast<a128*>(a), &v, 16);
        return 1;
    }
    *e = c;
    return 0;
}
int __tsan_atomic128_compare_exchange_weak(volatile a128* a, a128* e, a128 v, int m, int f) { return __tsan_atomic128_compare_exchange_strong(a, e, v, m, f); }
a128 __tsan_atomic128_compare_exchange_val(volatile a128* a, a128 e, a128 v, int m, int f)
{
    __tsan_atomic128_compare_exchange_strong(a, &e, v, m, f);
    return e;
}
void __tsan_atomic_thread_fence(int mo)
{
    if (!on())
        return;
    sched_sync("fence");
    Fiber* f = g_cur;
    if (is_acq(mo) && f->hasAcqFence)
        vc_join(f->vc, f->acqFence);
    if (mo == __ATOMIC_SEQ_CST)
    {
        vc_join(f->vc, g_scClock);
        vc_join(g_scClock, f->vc);
    }
    if (is_rel(mo))
    {
        f->relFence = f->vc;
        f->hasRelFence = true;
        f->vc.c[f->id]++;
    }
}
void __tsan_atomic_signal_fence(int) {}
}

// global operator delete: memory may have been allocated by simulated code and released inside the C++ run-time library
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
