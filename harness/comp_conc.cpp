// Component harness: lock-free containers (P12) and locks / semaphores (P13), one process, several threads.
#include "sim.h"
#include "simnew.h"

#include "iox/detail/mpmc_lockfree_queue.hpp"
#include "iox/detail/mpmc_loffli.hpp"
#include "iox/detail/mpmc_resizeable_lockfree_queue.hpp"
#include "iox/detail/spsc_fifo.hpp"
#include "iox/detail/spsc_sofi.hpp"
#include "iox/mutex.hpp"
#include "iox/named_semaphore.hpp"
#include "iox/smart_lock.hpp"
#include "iox/spin_lock.hpp"
#include "iox/spin_semaphore.hpp"
#include "iox/unnamed_semaphore.hpp"
#include "iox/detail/periodic_task.hpp"

#include <atomic>
#include <memory>
#include <vector>

using namespace iox;
using namespace iox::concurrent;

namespace
{
// history event types, see sim/scn_conc.cpp
enum
{
    PUSH_INV = 1,
    PUSH_RET = 2, // a item, b 0 ok 1 rejected 2 overflow, c evicted item
    POP_INV = 3,
    POP_RET = 4, // a item, b found
    CAP_INV = 5, // a new capacity
    CAP_RET = 6, // a new capacity, b result
    REMOVED = 7, // a item (by setCapacity)
    DRAIN = 8,   // a item
    CONFIG = 9,  // a kind, b capacity, c maxCapacity
    SIZE_RET = 10, // a size, b empty
};

constexpr int MAXITEMS = 512;
uint64_t g_payload[MAXITEMS]; // private memory handed over through the queues

uint64_t chk(uint64_t id, uint64_t i) { return (id + 1) * 0x9E3779B97F4A7C15ULL ^ (i * 0x12345671u); }

struct Item
{
    uint64_t id{~0ULL};
    uint64_t c[3]{0, 0, 0};
    static Item make(uint64_t id)
    {
        Item i;
        i.id = id;
        for (uint64_t k = 0; k < 3; ++k)
            i.c[k] = chk(id, k);
        return i;
    }
    bool ok() const { return id < MAXITEMS && c[0] == chk(id, 0) && c[1] == chk(id, 1) && c[2] == chk(id, 2); }
};
// same, with a non-trivial life cycle
struct NItem : Item
{
    NItem() = default;
    NItem(const Item& i)
        : Item(i)
    {
    }
    NItem(const NItem& o)
        : Item(o)
    {
    }
    NItem(NItem&& o)
        : Item(o)
    {
        o.c[0] = o.c[1] = o.c[2] = 0xdeadULL;
    }
    NItem& operator=(const NItem& o)
    {
        id = o.id;
        for (int k = 0; k < 3; ++k)
            c[k] = o.c[k];
        return *this;
    }
    NItem& operator=(NItem&& o)
    {
        id = o.id;
        for (int k = 0; k < 3; ++k)
            c[k] = o.c[k];
        o.c[0] = o.c[1] = o.c[2] = 0xdeadULL;
        return *this;
    }
    ~NItem() { c[0] = 0xdeaddeadULL; }
};

void prepare(uint64_t id) { g_payload[id] = chk(id, 7); }
template <typename I>
int64_t consume(const I& it, const char* how)
{
    if (!it.ok())
        sim_fail("P12:torn", "item obtained by %s is not one that was pushed: id %lu words %lx %lx %lx", how, it.id, it.c[0], it.c[1], it.c[2]);
    if (g_payload[it.id] != chk(it.id, 7))
        sim_fail("P12:publish", "payload published with item %lu is not visible to the consumer (%s)", it.id, how);
    g_payload[it.id] = chk(it.id, 7); // the consumer owns it now
    return static_cast<int64_t>(it.id);
}

struct Th
{
    void (*fn)(Th*);
    void* q;
    int first;
    int n;
    int who;
    int mode;
    uint32_t cap;
};
void tramp(void* p)
{
    auto* t = static_cast<Th*>(p);
    t->fn(t);
}
void maybe_pause()
{
    if (sim_chance(120))
        sim_yield();
}

// ------------------------------------------------------------------------------------------------ MPMC queues
template <typename Q>
struct MpmcOps
{
    static void producer(Th* t)
    {
        auto* q = static_cast<Q*>(t->q);
        for (int i = 0; i < t->n; ++i)
        {
            uint64_t id = t->first + i;
            prepare(id);
            sim_hist(PUSH_INV, id, 0, 0, 0);
            bool isTry = t->mode == 1 || (t->mode == 2 && sim_choose(2));
            if (isTry)
            {
                NItem it(Item::make(id));
                bool ok = sim_choose(2) ? q->tryPush(it) : q->tryPush(NItem(Item::make(id)));
                sim_hist(PUSH_RET, id, ok ? 0 : 1, -1, 0);
            }
            else
            {
                NItem it(Item::make(id));
                auto r = sim_choose(2) ? q->push(it) : q->push(NItem(Item::make(id)));
                if (r.has_value())
                    sim_hist(PUSH_RET, id, 2, consume(r.value(), "push(overflow)"), 0);
                else
                    sim_hist(PUSH_RET, id, 0, -1, 0);
            }
            maybe_pause();
        }
    }
    static void consumer(Th* t)
    {
        auto* q = static_cast<Q*>(t->q);
        for (int i = 0; i < t->n; ++i)
        {
            sim_hist(POP_INV, 0, 0, 0, 0);
            auto r = q->pop();
            if (r.has_value())
                sim_hist(POP_RET, consume(r.value(), "pop"), 1, 0, 0);
            else
                sim_hist(POP_RET, -1, 0, 0, 0);
            maybe_pause();
        }
    }
    static void observer(Th* t)
    {
        auto* q = static_cast<Q*>(t->q);
        for (int i = 0; i < t->n; ++i)
        {
            uint64_t s = q->size();
            if (s > 1000)
                sim_fail("P12:size", "size() returned %lu", s);
            sim_hist(SIZE_RET, s, q->empty(), 0, 0);
            maybe_pause();
        }
    }
};
template <typename Q>
void resizer(Th* t)
{
    auto* q = static_cast<Q*>(t->q);
    for (int i = 0; i < t->n; ++i)
    {
        uint64_t nc = 1 + sim_choose(t->cap);
        sim_hist(CAP_INV, nc, 0, 0, 0);
        bool ok = q->setCapacity(nc, [](const NItem& it) { sim_hist(REMOVED, consume(it, "setCapacity"), 0, 0, 0); });
        sim_hist(CAP_RET, nc, ok, 0, 0);
        maybe_pause();
    }
}

template <typename Q>
void run_mpmc(Q* q, int kind, uint64_t cap, uint64_t maxCap, bool resize)
{
    sim_hist(CONFIG, kind, cap, maxCap, resize);
    int np = 1 + sim_choose(3), nc = sim_choose(3);
    int mode = sim_choose(3);
    std::vector<Th> ths;
    ths.reserve(16);
    int first = 0;
    for (int i = 0; i < np; ++i)
    {
        int n = 1 + sim_choose(12);
        ths.push_back(Th{&MpmcOps<Q>::producer, q, first, n, i, mode, 0});
        first += n;
    }
    for (int i = 0; i < nc; ++i)
        ths.push_back(Th{&MpmcOps<Q>::consumer, q, 0, 1 + static_cast<int>(sim_choose(14)), i, 0, 0});
    if (sim_choose(3) == 2)
        ths.push_back(Th{&MpmcOps<Q>::observer, q, 0, 4, 0, 0, 0});
    if constexpr (std::is_same<Q, MpmcResizeableLockFreeQueue<NItem, 4>>::value)
    {
        int nr = resize ? 1 + static_cast<int>(sim_choose(2)) : 0;
        for (int i = 0; i < nr; ++i)
            ths.push_back(Th{&resizer<Q>, q, 0, 1 + static_cast<int>(sim_choose(4)), i, 0, static_cast<uint32_t>(maxCap)});
    }
    std::vector<int> ids;
    for (auto& t : ths)
        ids.push_back(sim_thread(tramp, &t, "worker"));
    for (int id : ids)
        sim_join(id);
    // a queue that is not in use any more hands out everything that is left, and then takes a full load again
    while (true)
    {
        auto r = q->pop();
        if (!r.has_value())
            break;
        sim_hist(DRAIN, consume(r.value(), "final pop"), 0, 0, 0);
    }
    if (!q->empty() || q->size() != 0)
        sim_fail("P12:size", "drained queue reports size %lu, empty %d", q->size(), q->empty());
    uint64_t c = q->capacity();
    for (uint64_t i = 0; i < c; ++i)
    {
        prepare(MAXITEMS - 1 - i);
        if (!q->tryPush(NItem(Item::make(MAXITEMS - 1 - i))))
            sim_fail("P12:capacity", "quiescent queue of capacity %lu accepts only %lu items", c, i);
    }
    if (q->tryPush(NItem(Item::make(0))))
        sim_fail("P12:capacity", "quiescent queue of capacity %lu accepts more", c);
    for (uint64_t i = 0; i < c; ++i)
    {
        auto r = q->pop();
        if (!r.has_value() || r.value().id != MAXITEMS - 1 - i)
            sim_fail("P12:fifo", "quiescent queue of capacity %lu lost or reordered item %lu of a refill", c, i);
    }
}

// ------------------------------------------------------------------------------------------------ Sofi / Fifo
template <uint64_t C>
struct SofiT
{
    using Q = SpscSofi<Item, C>;
    static void producer(Th* t)
    {
        auto* q = static_cast<Q*>(t->q);
        for (int i = 0; i < t->n; ++i)
        {
            uint64_t id = t->first + i;
            prepare(id);
            sim_hist(PUSH_INV, id, 0, 0, 0);
            Item in = Item::make(id), out;
            if (q->push(in, out))
                sim_hist(PUSH_RET, id, 0, -1, 0);
            else
                sim_hist(PUSH_RET, id, 2, consume(out, "push(overflow)"), 0);
            maybe_pause();
        }
    }
    static void consumer(Th* t)
    {
        auto* q = static_cast<Q*>(t->q);
        for (int i = 0; i < t->n; ++i)
        {
            Item out;
            sim_hist(POP_INV, 0, 0, 0, 0);
            if (q->pop(out))
                sim_hist(POP_RET, consume(out, "pop"), 1, 0, 0);
            else
                sim_hist(POP_RET, -1, 0, 0, 0);
            maybe_pause();
        }
    }
    static void run()
    {
        auto q = std::make_unique<Q>();
        uint64_t cap = C;
        if (sim_choose(2))
        {
            cap = 1 + sim_choose(C);
            if (!q->setCapacity(cap))
                sim_fail("P12:capacity", "setCapacity(%lu) on an empty sofi of maximum %lu failed", cap, C);
        }
        sim_hist(CONFIG, 3, cap, C, 0);
        Th p{&producer, q.get(), 0, 2 + static_cast<int>(sim_choose(20)), 0, 0, 0};
        Th c{&consumer, q.get(), 0, 1 + static_cast<int>(sim_choose(20)), 0, 0, 0};
        int a = sim_thread(tramp, &p, "producer"), b = sim_thread(tramp, &c, "consumer");
        sim_join(a);
        sim_join(b);
        uint64_t n = q->size(), k = 0;
        Item out;
        while (q->pop(out))
        {
            sim_hist(DRAIN, consume(out, "final pop"), 0, 0, 0);
            ++k;
        }
        if (k != n)
            sim_fail("P12:size", "quiescent sofi reported size %lu but held %lu items", n, k);
        if (!q->empty())
            sim_fail("P12:size", "drained sofi is not empty");
    }
};
template <uint64_t C>
struct FifoT
{
    using Q = SpscFifo<Item, C>;
    static void producer(Th* t)
    {
        auto* q = static_cast<Q*>(t->q);
        for (int i = 0; i < t->n; ++i)
        {
            uint64_t id = t->first + i;
            prepare(id);
            sim_hist(PUSH_INV, id, 0, 0, 0);
            bool ok = q->push(Item::make(id));
            sim_hist(PUSH_RET, id, ok ? 0 : 1, -1, 0);
            maybe_pause();
        }
    }
    static void consumer(Th* t)
    {
        auto* q = static_cast<Q*>(t->q);
        for (int i = 0; i < t->n; ++i)
        {
            sim_hist(POP_INV, 0, 0, 0, 0);
            auto r = q->pop();
            if (r.has_value())
                sim_hist(POP_RET, consume(r.value(), "pop"), 1, 0, 0);
            else
                sim_hist(POP_RET, -1, 0, 0, 0);
            maybe_pause();
        }
    }
    static void run()
    {
        auto q = std::make_unique<Q>();
        sim_hist(CONFIG, 4, C, C, 0);
        // the storage itself is handed over between the two sides as well
        sim_track(q.get(), sizeof(Q));
        Th p{&producer, q.get(), 0, 2 + static_cast<int>(sim_choose(20)), 0, 0, 0};
        Th c{&consumer, q.get(), 0, 1 + static_cast<int>(sim_choose(20)), 0, 0, 0};
        int a = sim_thread(tramp, &p, "producer"), b = sim_thread(tramp, &c, "consumer");
        sim_join(a);
        sim_join(b);
        uint64_t n = q->size(), k = 0;
        while (true)
        {
            auto r = q->pop();
            if (!r.has_value())
                break;
            sim_hist(DRAIN, consume(r.value(), "final pop"), 0, 0, 0);
            ++k;
        }
        if (k != n)
            sim_fail("P12:size", "quiescent fifo reported size %lu but held %lu items", n, k);
        sim_untrack(q.get(), sizeof(Q));
    }
};

// ------------------------------------------------------------------------------------------------ LoFFLi
constexpr uint32_t LOFFLI_MAX = 8;
struct Loffli
{
    alignas(8) uint32_t mem[2 * LOFFLI_MAX + 8];
    MpmcLoFFLi l;
    uint64_t slot[LOFFLI_MAX];
    int owner[LOFFLI_MAX];
    uint32_t cap;
};
void loffli_worker(Th* t)
{
    auto* L = static_cast<Loffli*>(t->q);
    uint32_t held[LOFFLI_MAX];
    uint32_t nh = 0;
    for (int i = 0; i < t->n; ++i)
    {
        bool take = nh == 0 || (nh < L->cap && sim_choose(2));
        if (take)
        {
            uint32_t idx = 0xffff;
            sim_hist(POP_INV, 0, 0, 0, 0);
            bool ok = L->l.pop(idx);
            sim_hist(POP_RET, ok ? idx : -1, ok, 0, 0);
            if (ok)
            {
                if (idx >= L->cap)
                    sim_fail("P12:loffli", "index %u popped from a free list of capacity %u", idx, L->cap);
                {
                    SimAtomicSection s;
                    if (L->owner[idx] != -1)
                        sim_fail("P12:loffli", "index %u handed out while thread %d still owns it", idx, L->owner[idx]);
                    L->owner[idx] = t->who;
                }
                L->slot[idx] = 1000 + t->who;
                held[nh++] = idx;
            }
        }
        else
        {
            uint32_t k = sim_choose(nh);
            uint32_t idx = held[k];
            held[k] = held[--nh];
            if (L->slot[idx] != 1000u + t->who)
                sim_fail("P12:loffli", "memory of index %u was written by somebody else while owned", idx);
            {
                SimAtomicSection s;
                L->owner[idx] = -1;
            }
            sim_hist(PUSH_INV, idx, 0, 0, 0);
            bool ok = L->l.push(idx);
            sim_hist(PUSH_RET, idx, ok ? 0 : 1, 0, 0);
            if (!ok)
                sim_fail("P12:loffli", "returning owned index %u was refused", idx);
        }
        maybe_pause();
    }
    while (nh)
    {
        uint32_t idx = held[--nh];
        {
            SimAtomicSection s;
            L->owner[idx] = -1;
        }
        sim_hist(PUSH_INV, idx, 0, 0, 0);
        bool ok = L->l.push(idx);
        sim_hist(PUSH_RET, idx, ok ? 0 : 1, 0, 0);
        if (!ok)
            sim_fail("P12:loffli", "returning owned index %u was refused", idx);
    }
}
void run_loffli()
{
    auto L = std::make_unique<Loffli>();
    L->cap = 1 + sim_choose(5);
    for (auto& o : L->owner)
        o = -1;
    L->l.init(not_null<uint32_t*>(&L->mem[0]), L->cap);
    sim_hist(CONFIG, 5, L->cap, L->cap, 0);
    sim_track(L->slot, sizeof(L->slot));
    int n = 2 + sim_choose(3);
    std::vector<Th> ths;
    for (int i = 0; i < n; ++i)
        ths.push_back(Th{&loffli_worker, L.get(), 0, 3 + static_cast<int>(sim_choose(12)), i, 0, 0});
    std::vector<int> ids;
    for (auto& t : ths)
        ids.push_back(sim_thread(tramp, &t, "worker"));
    for (int id : ids)
        sim_join(id);
    // conservation: all indices are back, each exactly once
    uint32_t seen = 0, idx;
    for (uint32_t i = 0; i < L->cap; ++i)
    {
        if (!L->l.pop(idx))
            sim_fail("P12:loffli", "%u of %u indices lost", L->cap - i, L->cap);
        if (idx >= L->cap || (seen >> idx) & 1)
            sim_fail("P12:loffli", "index %u duplicated or out of range", idx);
        seen |= 1u << idx;
    }
    if (L->l.pop(idx))
        sim_fail("P12:loffli", "more indices than capacity");
    // documented: a double release and an index out of range are refused
    if (!L->l.push(0))
        sim_fail("P12:loffli", "index could not be returned");
    if (L->l.push(0))
        sim_fail("P12:loffli", "double release of an index was accepted");
    if (L->l.push(L->cap) || L->l.push(L->cap + 7))
        sim_fail("P12:loffli", "release of an index out of range was accepted");
    sim_untrack(L->slot, sizeof(L->slot));
}

// ------------------------------------------------------------------------------------------------ locks (P13)
struct LockShared
{
    optional<iox::mutex> m;
    optional<SpinLock> s;
    int kind; // 0 mutex, 1 spin
    bool recursive;
    uint64_t counter{0};
    uint64_t expected{0};
    int inside{0};
    int owner{-1};
};
template <typename L>
void lock_ops(L& l, LockShared* S, int who, int n)
{
    for (int i = 0; i < n; ++i)
    {
        bool got = false;
        if (sim_choose(3) == 2)
        {
            bool mustWork;
            {
                SimAtomicSection a;
                mustWork = false;
                (void)mustWork;
            }
            auto r = l.try_lock();
            if (r.has_error())
                sim_fail("P13:trylock", "try_lock failed with error %d", static_cast<int>(r.error()));
            got = r.value() == TryLock::LOCK_SUCCEEDED;
        }
        else
        {
            sim_deadline(20000000000ULL, "P13:lock-progress", "lock()");
            auto r = l.lock();
            sim_deadline_clear();
            if (r.has_error())
                sim_fail("P13:lock", "lock failed with error %d", static_cast<int>(r.error()));
            got = true;
        }
        if (!got)
        {
            sim_yield();
            continue;
        }
        {
            SimAtomicSection a;
            if (S->inside != 0)
                sim_fail("P13:mutex", "two threads (%d and %d) own the lock", S->owner, who);
            S->inside = 1;
            S->owner = who;
            S->expected++;
        }
        int rec = 0;
        if (S->recursive)
            rec = sim_choose(3);
        else if (sim_choose(6) == 5)
        {
            // error detection: the owner is told instead of deadlocking
            auto t = l.try_lock();
            if (!t.has_error() && t.value() == TryLock::LOCK_SUCCEEDED)
                sim_fail("P13:reentrant", "non-recursive lock taken twice by its owner");
        }
        for (int k = 0; k < rec; ++k)
        {
            bool ok;
            if (sim_choose(2))
                ok = l.lock().has_value();
            else
            {
                auto t = l.try_lock();
                ok = t.has_value() && t.value() == TryLock::LOCK_SUCCEEDED;
            }
            if (!ok)
                sim_fail("P13:reentrant", "recursive lock refused its owner");
        }
        uint64_t v = S->counter;
        if (sim_choose(2))
            sim_yield();
        S->counter = v + 1;
        for (int k = 0; k < rec; ++k)
        {
            if (l.unlock().has_error())
                sim_fail("P13:unlock", "unlock of a recursively held lock failed");
            S->counter = S->counter + 0;
            maybe_pause();
        }
        {
            SimAtomicSection a;
            if (S->inside != 1 || S->owner != who)
                sim_fail("P13:mutex", "thread %d entered while %d owned the lock", S->owner, who);
            S->inside = 0;
        }
        if (l.unlock().has_error())
            sim_fail("P13:unlock", "unlock by the owner failed");
        // a thread that does not own the lock can not release it
        if (sim_choose(8) == 7 && (S->kind == 1 || S->recursive))
        {
            if (!l.unlock().has_error())
                sim_fail("P13:foreign-unlock", "unlock of a lock that the thread does not own succeeded");
        }
        maybe_pause();
    }
}
void lock_worker(Th* t)
{
    auto* S = static_cast<LockShared*>(t->q);
    if (S->kind == 0)
        lock_ops(*S->m, S, t->who, t->n);
    else
        lock_ops(*S->s, S, t->who, t->n);
}
void run_locks(int kind)
{
    auto S = std::make_unique<LockShared>();
    S->kind = kind;
    int lb = sim_choose(2);
    S->recursive = lb == 0;
    auto behavior = lb == 0 ? LockBehavior::RECURSIVE : LockBehavior::WITH_DEADLOCK_DETECTION;
    if (kind == 0)
    {
        auto b = MutexBuilder().lock_behavior(behavior).is_inter_process_capable(sim_choose(2) == 0);
        if (b.create(S->m).has_error())
            sim_fail("P13:create", "mutex could not be created");
    }
    else
    {
        if (lb == 1)
            behavior = LockBehavior::NORMAL;
        if (SpinLockBuilder().lock_behavior(behavior).create(S->s).has_error())
            sim_fail("P13:create", "spin lock could not be created");
    }
    sim_track(&S->counter, sizeof(S->counter));
    int n = 2 + sim_choose(3);
    std::vector<Th> ths;
    for (int i = 0; i < n; ++i)
        ths.push_back(Th{&lock_worker, S.get(), 0, 2 + static_cast<int>(sim_choose(8)), i, 0, 0});
    std::vector<int> ids;
    for (auto& t : ths)
        ids.push_back(sim_thread(tramp, &t, "worker"));
    for (int id : ids)
        sim_join(id);
    if (S->counter != S->expected)
        sim_fail("P13:mutex", "counter protected by the lock is %lu after %lu critical sections", S->counter, S->expected);
    sim_untrack(&S->counter, sizeof(S->counter));
}

// smart_lock
struct SmartData
{
    uint64_t a{0}, b{0};
};
struct SmartShared
{
    smart_lock<SmartData> l;
    smart_lock<SmartData> x[2];
    std::atomic<uint64_t> done{0};
};
void smart_worker(Th* t)
{
    auto* S = static_cast<SmartShared*>(t->q);
    for (int i = 0; i < t->n; ++i)
    {
        switch (sim_choose(8))
        {
        case 4:
        {
            // assignments in both directions
            int from = static_cast<int>(sim_choose(2));
            S->x[1 - from] = S->x[from];
            break;
        }
        case 5:
        {
            int from = static_cast<int>(sim_choose(2));
            S->x[1 - from] = std::move(S->x[from]);
            break;
        }
        case 6:
        {
            smart_lock<SmartData> c(std::move(S->x[sim_choose(2)]));
            auto k = c.get_copy();
            if (k.a != k.b)
                sim_fail("P13:smart-lock", "moved object saw a half-finished update: %lu %lu", k.a, k.b);
            break;
        }
        case 7:
        {
            auto g = S->x[sim_choose(2)].get_scope_guard();
            auto v = g->a;
            if (g->b != v)
                sim_fail("P13:smart-lock", "writer saw a half-finished update: %lu %lu", g->a, g->b);
            g->a = v + 1;
            if (sim_choose(2))
                sim_yield();
            g->b = v + 1;
            break;
        }
        case 0:
        {
            auto g = S->l.get_scope_guard();
            auto v = g->a;
            if (sim_choose(2))
                sim_yield();
            g->a = v + 1;
            g->b = v + 1;
            S->done++;
            break;
        }
        case 1:
        {
            auto c = S->l.get_copy();
            if (c.a != c.b)
                sim_fail("P13:smart-lock", "get_copy saw a half-finished update: %lu %lu", c.a, c.b);
            break;
        }
        case 2:
        {
            smart_lock<SmartData> c(S->l);
            auto k = c.get_copy();
            if (k.a != k.b)
                sim_fail("P13:smart-lock", "copy saw a half-finished update: %lu %lu", k.a, k.b);
            break;
        }
        default:
        {
            const auto& cl = S->l;
            auto g = cl.get_scope_guard();
            if (g->a != g->b)
                sim_fail("P13:smart-lock", "reader saw a half-finished update: %lu %lu", g->a, g->b);
            break;
        }
        }
    }
}
void run_smart()
{
    auto S = std::make_unique<SmartShared>();
    sim_track(S.get(), sizeof(SmartShared));
    int n = 2 + sim_choose(3);
    std::vector<Th> ths;
    for (int i = 0; i < n; ++i)
        ths.push_back(Th{&smart_worker, S.get(), 0, 2 + static_cast<int>(sim_choose(8)), i, 0, 0});
    std::vector<int> ids;
    for (auto& t : ths)
        ids.push_back(sim_thread(tramp, &t, "worker"));
    sim_deadline(120000000000ULL, "P13:smart-lock", "all operations on smart locks");
    for (int id : ids)
        sim_join(id);
    sim_deadline_clear();
    auto c = S->l.get_copy();
    if (c.a != S->done.load() || c.b != c.a)
        sim_fail("P13:smart-lock", "%lu updates under the lock, data shows %lu/%lu", S->done.load(), c.a, c.b);
    sim_untrack(S.get(), sizeof(SmartShared));
}

// ------------------------------------------------------------------------------------------------ semaphores
enum
{
    POST_INV = 21,
    POST_RET = 22,
    WAIT_INV = 23, // a kind (0 wait,1 try,2 timed) b timeout ns
    WAIT_RET = 24, // a kind b got c elapsed
};
struct SemShared
{
    int kind;
    optional<UnnamedSemaphore> u;
    optional<NamedSemaphore> nm;
    optional<SpinSemaphore> s;
    int waiters{0};
    std::vector<Th> ths;
    std::atomic<int> waiting{0};
};
bool nearMax{false};
template <typename S>
void sem_post_n(S& s, int n)
{
    for (int i = 0; i < n; ++i)
    {
        sim_hist(POST_INV, 0, 0, 0, 0);
        auto r = s.post();
        sim_hist(POST_RET, r.has_value(), 0, 0, 0);
        if (r.has_error() && !(nearMax && r.error() == SemaphoreError::SEMAPHORE_OVERFLOW))
            sim_fail("P13:sem-post", "post failed with error %d", static_cast<int>(r.error()));
        maybe_pause();
        if (sim_choose(4) == 3)
            sim_sleep(1000 * (1 + sim_choose(4000)));
    }
}
template <typename S>
void sem_wait_n(S& s, int n, bool blocking)
{
    for (int i = 0; i < n; ++i)
    {
        int k = blocking ? 0 : 1 + static_cast<int>(sim_choose(2));
        uint64_t to = k == 2 ? 1000ULL * (1 + sim_choose(5000)) : 0;
        uint64_t t0 = sim_now();
        sim_hist(WAIT_INV, k, to, 0, 0);
        bool got = false;
        if (k == 0)
        {
            auto r = s.wait();
            if (r.has_error())
                sim_fail("P13:sem-wait", "wait failed with error %d", static_cast<int>(r.error()));
            got = true;
        }
        else if (k == 1)
        {
            auto r = s.tryWait();
            if (r.has_error())
                sim_fail("P13:sem-wait", "tryWait failed with error %d", static_cast<int>(r.error()));
            got = r.value();
        }
        else
        {
            sim_deadline(to + 30000000000ULL, "P13:sem-timeout", "timedWait()");
            auto r = s.timedWait(units::Duration::fromNanoseconds(to));
            sim_deadline_clear();
            if (r.has_error())
                sim_fail("P13:sem-wait", "timedWait failed with error %d", static_cast<int>(r.error()));
            got = r.value() == SemaphoreWaitState::NO_TIMEOUT;
            if (!got && sim_now() - t0 < to)
                sim_fail("P13:sem-timeout", "timedWait(%lu ns) timed out after %lu ns", to, sim_now() - t0);
        }
        sim_hist(WAIT_RET, k, got, sim_now() - t0, 0);
        maybe_pause();
    }
}
template <typename S>
void sem_thread(S& s, Th* t)
{
    if (t->mode == 0)
        sem_post_n(s, t->n);
    else
        sem_wait_n(s, t->n, t->mode == 1);
}
void sem_worker(Th* t)
{
    auto* S = static_cast<SemShared*>(t->q);
    if (S->kind == 0)
        sem_thread(*S->u, t);
    else if (S->kind == 1 && sim_choose(2))
    {
        // through a handle of its own, which it closes again while others use theirs
        optional<NamedSemaphore> mine;
        auto r = NamedSemaphoreBuilder()
                     .name("sim_sem")
                     .openMode(sim_choose(2) ? OpenMode::OpenExisting : OpenMode::OpenOrCreate)
                     .initialValue(7)
                     .create(mine);
        if (r.has_error())
            sim_fail("P13:sem-open", "the existing named semaphore could not be opened: error %d", static_cast<int>(r.error()));
        sem_thread(*mine, t);
    }
    else if (S->kind == 1)
        sem_thread(*S->nm, t);
    else
        sem_thread(*S->s, t);
}
void run_sem(int kind)
{
    auto S = std::make_unique<SemShared>();
    S->kind = kind;
    nearMax = sim_choose(6) == 5;
    uint32_t init = nearMax ? static_cast<uint32_t>(IOX_SEM_VALUE_MAX) - sim_choose(4) : sim_choose(4);
    bool ok = true;
    if (kind == 0)
        ok = UnnamedSemaphoreBuilder().initialValue(init).isInterProcessCapable(sim_choose(2) == 0).create(S->u).has_value();
    else if (kind == 1)
        ok = NamedSemaphoreBuilder().name("sim_sem").openMode(OpenMode::PurgeAndCreate).initialValue(init).create(S->nm).has_value();
    else
        ok = SpinSemaphoreBuilder().initialValue(init).create(S->s).has_value();
    if (!ok)
        sim_fail("P13:create", "semaphore could not be created");
    sim_hist(CONFIG, 20, init, 0, 0);
    int np = 1 + sim_choose(3), nb = sim_choose(3), nt = sim_choose(3);
    int posts = 0, blocking = 0;
    for (int i = 0; i < np; ++i)
    {
        int n = 1 + sim_choose(5);
        posts += n;
        S->ths.push_back(Th{&sem_worker, S.get(), 0, n, i, 0, 0});
    }
    for (int i = 0; i < nt; ++i)
        S->ths.push_back(Th{&sem_worker, S.get(), 0, 1 + static_cast<int>(sim_choose(5)), i, 2, 0});
    int tryMax = 0;
    for (auto& t : S->ths)
        if (t.mode == 2)
            tryMax += t.n;
    for (int i = 0; i < nb; ++i)
    {
        int n = 1 + sim_choose(4);
        blocking += n;
        S->ths.push_back(Th{&sem_worker, S.get(), 0, n, i, 1, 0});
    }
    // as many posts in total as there can be successful waits: every blocking wait has to return
    int need = nearMax ? 0 : blocking + tryMax - posts - static_cast<int>(init);
    if (need > 0)
        S->ths.push_back(Th{&sem_worker, S.get(), 0, need, 99, 0, 0});
    std::vector<int> ids;
    for (auto& t : S->ths)
        ids.push_back(sim_thread(tramp, &t, "worker"));
    sim_deadline(120000000000ULL, "P13:sem-progress", "all waits for posted tokens");
    for (int id : ids)
        sim_join(id);
    sim_deadline_clear();
    uint64_t left = 0;
    auto drain = [&](auto& s) {
        if (nearMax)
        {
            // fill it up instead
            int n = 0;
            while (n < 1000 && s.post().has_value())
                ++n;
            left = static_cast<uint64_t>(IOX_SEM_VALUE_MAX) - n;
            return;
        }
        while (true)
        {
            auto r = s.tryWait();
            if (r.has_error() || !r.value())
                break;
            ++left;
        }
    };
    if (kind == 0)
        drain(*S->u);
    else if (kind == 1)
        drain(*S->nm);
    else
        drain(*S->s);
    sim_hist(DRAIN, left, 0, 0, 0);
}

// ------------------------------------------------------------------------------------------------ periodic task
struct Pt
{
    std::atomic<int> runs{0};
    std::atomic<bool> stopped{false};
    std::atomic<int> inside{0};
};
void run_periodic()
{
    Pt p;
    auto fn = [&p] {
        if (p.stopped)
            sim_fail("P13:periodic", "callback of a stopped periodic task runs");
        if (p.inside.fetch_add(1) != 0)
            sim_fail("P13:periodic", "two executions of a periodic task overlap");
        p.runs++;
        if (sim_choose(2))
            sim_sleep(1000 * sim_choose(3000));
        if (p.stopped)
            sim_fail("P13:periodic", "callback of a stopped periodic task still runs");
        p.inside--;
    };
    using namespace iox::units::duration_literals;
    uint64_t interval = sim_choose(11);
    {
        concurrent::detail::PeriodicTask<function<void()>> t(concurrent::detail::PeriodicTaskManualStart, "task", fn);
        int rounds = 1 + sim_choose(3);
        for (int i = 0; i < rounds; ++i)
        {
            p.stopped = false;
            int before = p.runs;
            uint64_t t0 = sim_now();
            t.start(units::Duration::fromMilliseconds(interval));
            uint64_t d = 1000000ULL * (1 + sim_choose(60));
            sim_sleep(d);
            if (sim_choose(2))
            {
                sim_deadline(60000000000ULL, "P13:periodic-stop", "PeriodicTask::stop()");
                t.stop();
                sim_deadline_clear();
                p.stopped = true;
                (void)before;
                (void)t0;
                if (t.isActive())
                    sim_fail("P13:periodic", "stopped periodic task reports to be active");
                sim_sleep(1000000ULL * sim_choose(30));
            }
            else if (sim_now() - t0 > 0 && !t.isActive())
                sim_fail("P13:periodic", "started periodic task reports to be inactive");
        }
        // it keeps running while started
        p.stopped = false;
        t.start(units::Duration::fromMilliseconds(interval));
        int before = p.runs;
        sim_sleep(1000000ULL * (interval + 6) * 40);
        if (p.runs - before < 2)
            sim_fail("P13:periodic", "periodic task of %lu ms ran %d times in %lu ms", interval, p.runs.load() - before, (interval + 6) * 40);
        sim_deadline(60000000000ULL, "P13:periodic-stop", "~PeriodicTask()");
    }
    sim_deadline_clear();
    p.stopped = true;
    sim_sleep(20000000);
}

template <uint64_t C>
void mpmc_plain()
{
    using Q = MpmcLockFreeQueue<NItem, C>;
    auto q = std::make_unique<Q>();
    if (sim_param("trackbuf", 0))
        sim_track(q.get(), sizeof(Q));
    run_mpmc(q.get(), 1, C, C, false);
    sim_untrack(q.get(), sizeof(Q));
}
} // namespace

extern "C" void harness_main(int role, const int64_t*)
{
    sim_track(g_payload, sizeof(g_payload));
    switch (role)
    {
    case 1:
        switch (sim_choose(4))
        {
        case 0:
            mpmc_plain<1>();
            break;
        case 1:
            mpmc_plain<2>();
            break;
        case 2:
            mpmc_plain<3>();
            break;
        default:
            mpmc_plain<5>();
        }
        break;
    case 2:
    {
        using Q = MpmcResizeableLockFreeQueue<NItem, 4>;
        uint64_t cap = 1 + sim_choose(4);
        auto q = std::make_unique<Q>(cap);
        if (sim_param("trackbuf", 0))
            sim_track(q.get(), sizeof(Q));
        run_mpmc(q.get(), 2, cap, 4, sim_choose(3) != 0);
        sim_untrack(q.get(), sizeof(Q));
        break;
    }
    case 3:
        switch (sim_choose(3))
        {
        case 0:
            SofiT<1>::run();
            break;
        case 1:
            SofiT<2>::run();
            break;
        default:
            SofiT<4>::run();
        }
        break;
    case 4:
        switch (sim_choose(3))
        {
        case 0:
            FifoT<1>::run();
            break;
        case 1:
            FifoT<2>::run();
            break;
        default:
            FifoT<4>::run();
        }
        break;
    case 5:
        run_loffli();
        break;
    case 10:
        run_locks(0);
        break;
    case 11:
        run_locks(1);
        break;
    case 12:
        run_smart();
        break;
    case 13:
        run_sem(0);
        break;
    case 14:
        run_sem(1);
        break;
    case 15:
        run_sem(2);
        break;
    case 16:
        run_periodic();
        break;
    }
    sim_untrack(g_payload, sizeof(g_payload));
}
