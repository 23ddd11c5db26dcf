// Component harness: file locks (P14), local channels (P16) and the builders of operating system resources (P15).
#include "ctl_posix.h"
#include "sim.h"
#include "simnew.h"

#include "iox/file.hpp"
#include "iox/file_lock.hpp"
#include "iox/message_queue.hpp"
#include "iox/mutex.hpp"
#include "iox/named_pipe.hpp"
#include "iox/named_semaphore.hpp"
#include "iox/posix_shared_memory_object.hpp"
#include "iox/thread.hpp"
#include "iox/unix_domain_socket.hpp"
#include "iox/unnamed_semaphore.hpp"

#include <cstdio>
#include <cstring>
#include <memory>
#include <string>

using namespace iox;
using iox::units::Duration;

namespace
{
px::Ctl& C() { return *static_cast<px::Ctl*>(sim_shared()); }

void pause_some()
{
    switch (sim_choose(6))
    {
    case 0:
        sim_yield();
        break;
    case 1:
        sim_sleep(1000 * (1 + sim_choose(200)));
        break;
    case 2:
        sim_sleep(1000000ULL * (1 + sim_choose(20)));
        break;
    default:
        break;
    }
}

// ------------------------------------------------------------------------------------------------ file lock
void run_filelock(int worker)
{
    int me = sim_proc();
    for (int r = 0; r < C().rounds; ++r)
    {
        pause_some();
        int n = static_cast<int>(sim_choose(static_cast<uint32_t>(C().names)));
        char name[32];
        snprintf(name, sizeof(name), "lk%d", n);
        int others;
        uint32_t epoch;
        {
            SimAtomicSection a;
            others = C().active[n];
            epoch = ++C().epoch[n];
            C().active[n] = others + 1;
            C().inside[me] |= 1 << n;
        }
        sim_deadline(5000000000ULL, "P14:filelock-hang", "FileLockBuilder::create");
        auto lock = FileLockBuilder().name(FileLock::FileName_t(TruncateToCapacity, name)).permission(perms::owner_all).create();
        sim_deadline_clear();
        if (lock.has_error())
        {
            {
                SimAtomicSection a;
                if (lock.error() != FileLockError::LOCKED_BY_OTHER_PROCESS)
                    sim_fail("P14:filelock-error", "worker %d could not create the file lock %s: error %d", worker, name, static_cast<int>(lock.error()));
                if (others == 0 && C().epoch[n] == epoch)
                    sim_fail("P14:filelock-refused", "the file lock %s is reported as locked by another process although no other process used it", name);
                sim_count("lock refused", 1);
                C().active[n] = C().active[n] - 1;
                C().inside[me] &= ~(1 << n);
            }
            continue;
        }
        {
            SimAtomicSection a;
            if (C().owner[n] != 0)
                sim_fail("P14:filelock-two-owners", "process %d got the file lock %s which process %d holds", me, name, C().owner[n]);
            C().owner[n] = me;
            sim_count("lock taken", 1);
        }
        pause_some();
        if (sim_choose(3) == 0)
        {
            // a lock can be moved while it is held
            FileLock moved(std::move(lock.value()));
            pause_some();
            if (sim_choose(2) == 0)
                lock.value() = std::move(moved);
            else
            {
                {
                    SimAtomicSection a;
                    C().owner[n] = 0;
                }
                FileLock gone(std::move(moved));
            }
        }
        if (sim_choose(4) == 0)
        {
            // the owner itself can not take it twice either
            auto second = FileLockBuilder().name(FileLock::FileName_t(TruncateToCapacity, name)).permission(perms::owner_all).create();
            SimAtomicSection a;
            if (C().owner[n] == me && second.has_value())
                sim_fail("P14:filelock-two-owners", "process %d got the file lock %s twice", me, name);
            if (C().owner[n] != me && second.has_value())
            {
                if (C().owner[n] != 0)
                    sim_fail("P14:filelock-two-owners", "process %d got the file lock %s which process %d holds", me, name, C().owner[n]);
            }
        }
        {
            SimAtomicSection a;
            if (C().owner[n] == me)
                C().owner[n] = 0;
        }
        {
            auto drop = std::move(lock);
        }
        {
            SimAtomicSection a;
            C().active[n] = C().active[n] - 1;
            C().inside[me] &= ~(1 << n);
        }
    }
    if (sim_open_fds() != 0)
        sim_fail("P15:leak-fd", "worker %d ends with %d open descriptors", worker, sim_open_fds());
}

// ------------------------------------------------------------------------------------------------ channels
template <typename T>
struct Tr;
template <>
struct Tr<UnixDomainSocket>
{
    static constexpr const char* name = "uds";
    static constexpr uint64_t minTimeout = 1;   // 0 means no time-out
    static constexpr uint64_t gran = 1000;      // resolution of a time-out
    static constexpr uint64_t maxLen(uint64_t m) { return m; }
    static constexpr uint64_t limit = UnixDomainSocket::MAX_MESSAGE_SIZE;
};
template <>
struct Tr<MessageQueue>
{
    static constexpr const char* name = "mq";
    static constexpr uint64_t minTimeout = 0;
    static constexpr uint64_t gran = 1000;
    static constexpr uint64_t maxLen(uint64_t m) { return m - 1; }
    static constexpr uint64_t limit = MessageQueue::MAX_MESSAGE_SIZE;
};
template <>
struct Tr<NamedPipe>
{
    static constexpr const char* name = "pipe";
    static constexpr uint64_t minTimeout = 0;
    static constexpr uint64_t gran = 1000;
    static constexpr uint64_t maxLen(uint64_t) { return NamedPipe::MAX_MESSAGE_SIZE; }
    static constexpr uint64_t limit = NamedPipe::MAX_MESSAGE_SIZE;
};

template <typename T>
expected<T, PosixIpcChannelError> make(const char* nm, PosixIpcChannelSide side)
{
    using B = typename T::Builder_t;
    return B()
        .name(PosixIpcChannelName_t(TruncateToCapacity, nm))
        .channelSide(side)
        .maxMsgSize(static_cast<uint64_t>(C().msgSize))
        .maxMsgNumber(static_cast<uint64_t>(C().cap))
        .create();
}

std::string text(int client, int seq, uint64_t len)
{
    char b[48];
    snprintf(b, sizeof(b), "%d.%d.%lu.", client, seq, static_cast<unsigned long>(len));
    std::string s(b);
    if (s.size() > len)
        return s;
    while (s.size() < len)
        s.push_back(static_cast<char>('a' + (s.size() * 7 + static_cast<uint64_t>(seq) * 3 + static_cast<uint64_t>(client)) % 26));
    return s;
}

uint64_t pick_timeout(uint64_t mn)
{
    switch (sim_choose(6))
    {
    case 0:
        return mn;
    case 1:
        return mn ? mn + sim_choose(999) : sim_choose(1000);
    case 2:
        return 1000 * (1 + sim_choose(500));
    case 3:
        return 1000000ULL * (1 + sim_choose(50));
    case 4:
        return 1000000ULL * (100 + sim_choose(900));
    default:
        return 1000000000ULL * (1 + sim_choose(3)) + sim_choose(1000000);
    }
}
uint64_t slack() { return static_cast<uint64_t>(C().timedSlackMs) * 1000000ULL; }

bool is_timeout(PosixIpcChannelError e) { return e == PosixIpcChannelError::TIMEOUT; }

// with injected faults any error is legitimate; an interruption is only reported after several repetitions
bool faulty() { return C().faults || C().eintr; }

template <typename T>
void check_timeout(const char* what, uint64_t t0, uint64_t to, bool timedOut)
{
    uint64_t dt = sim_now() - t0;
    if (timedOut && dt + Tr<T>::gran < to)
        sim_fail("P16:early", "%s of %s reports a time-out after %lu ns although %lu ns were given", what, Tr<T>::name, static_cast<unsigned long>(dt), static_cast<unsigned long>(to));
    if (dt > to * (C().eintr ? 7 : 1) + slack())
        sim_fail("P16:late", "%s of %s with a time-out of %lu ns took %lu ns", what, Tr<T>::name, static_cast<unsigned long>(to), static_cast<unsigned long>(dt));
}

template <typename T>
void received(const std::string& m)
{
    SimAtomicSection a;
    int c = -1, s = -1;
    unsigned long len = 0;
    int used = 0;
    bool ok = sscanf(m.c_str(), "%d.%d.%lu.%n", &c, &s, &len, &used) == 3 && c >= 0 && c < C().nClients && s >= 0 && s < px::MAXM;
    if (!ok || m != text(c, s, len))
        sim_fail("P16:torn", "%s delivered a message that was not sent: length %lu \"%.40s\"", Tr<T>::name, static_cast<unsigned long>(m.size()), m.c_str());
    if (C().status[c][s] == 0)
        sim_fail("P16:torn", "%s delivered message %d of client %d before it was sent", Tr<T>::name, s, c);
    if (C().status[c][s] == 3)
        sim_fail("P16:refused", "%s delivered message %d of client %d although its sender was told that it was not sent", Tr<T>::name, s, c);
    if (C().got[c][s])
        sim_fail("P16:twice", "%s delivered message %d of client %d twice", Tr<T>::name, s, c);
    if (s < C().last[c])
        sim_fail("P16:order", "%s delivered message %d of client %d after message %d", Tr<T>::name, s, c, C().last[c]);
    C().got[c][s] = 1;
    C().last[c] = s;
    C().recvRet = C().recvRet + 1;
    sim_count("received", 1);
}
// The receiver may take a message while its sender is still inside send(); another message whose sender has already returned can then be
// reported as missing until that sender is done. Hence the number of completed sends counts, not which ones they are.
int deliverable()
{
    int n = 0;
    for (int c = 0; c < C().nClients; ++c)
        for (int s = 0; s < px::MAXM; ++s)
            n += (C().status[c][s] == 2) - (C().got[c][s] != 0);
    return n;
}
// messages whose sending was completed and which have not been received
int pending()
{
    int n = 0;
    for (int c = 0; c < C().nClients; ++c)
        for (int s = 0; s < px::MAXM; ++s)
            n += C().status[c][s] == 2 && !C().got[c][s];
    return n;
}
bool all_done()
{
    for (int c = 0; c < C().nClients; ++c)
        if (!C().done[c])
            return false;
    return true;
}

template <typename T>
expected<std::string, PosixIpcChannelError> timed_recv(T& ch, uint64_t to, bool viaString)
{
    if (!viaString)
        return ch.timedReceive(Duration::fromNanoseconds(to));
    iox::string<Tr<T>::limit> buf;
    auto r = ch.timedReceive(buf, Duration::fromNanoseconds(to));
    if (r.has_error())
        return err(r.error());
    return ok<std::string>(buf.c_str());
}

template <typename T>
struct RecvOps
{
    static bool try_recv(T&, bool) { return false; }
};
template <>
struct RecvOps<NamedPipe>
{
    static bool try_recv(NamedPipe& ch, bool viaString)
    {
        int before;
        {
            SimAtomicSection a;
            before = deliverable();
        }
        bool isErr;
        PosixIpcChannelError e{};
        std::string m;
        if (viaString)
        {
            iox::string<NamedPipe::MAX_MESSAGE_SIZE> buf;
            auto r = ch.tryReceive(buf);
            isErr = r.has_error();
            if (isErr)
                e = r.error();
            m = buf.c_str();
        }
        else
        {
            auto r = ch.tryReceive();
            isErr = r.has_error();
            if (isErr)
                e = r.error();
            else
                m = r.value();
        }
        if (isErr)
        {
            if (!is_timeout(e))
                sim_fail("P16:recv-error", "tryReceive of a named pipe failed with %d", static_cast<int>(e));
            if (before > 0)
                sim_fail("P16:lost", "tryReceive of a named pipe finds nothing although %d messages are waiting", before);
            return true;
        }
        received<NamedPipe>(m);
        return true;
    }
};

template <typename T>
void move_some(optional<T>& ch)
{
    if (sim_choose(8) != 0)
        return;
    sim_count("moved", 1);
    T tmp(std::move(*ch));
    pause_some();
    if (sim_choose(2) == 0)
        *ch = std::move(tmp);
    else
        ch.emplace(std::move(tmp));
}

template <typename T>
void create_until(optional<T>& ch, const char* nm, PosixIpcChannelSide side)
{
    uint64_t start = sim_now();
    for (int k = 0;; ++k)
    {
        int fds = sim_open_fds(), maps = sim_open_maps();
        uint64_t inj = sim_injected_faults();
        auto r = make<T>(nm, side);
        if (r.has_value())
        {
            ch.emplace(std::move(r.value()));
            return;
        }
        if (sim_open_fds() != fds || sim_open_maps() != maps)
            sim_fail("P15:leak", "the failed creation of a %s left %d descriptors and %d mappings behind", Tr<T>::name, sim_open_fds() - fds, sim_open_maps() - maps);
        if (side == PosixIpcChannelSide::SERVER && sim_injected_faults() == inj)
            sim_fail("P16:create", "the %s channel could not be created: error %d", Tr<T>::name, static_cast<int>(r.error()));
        if (sim_now() - start > 20000000000ULL)
            sim_fail("P16:create", "the client side of the %s channel could not be created within 20 s: error %d", Tr<T>::name, static_cast<int>(r.error()));
        sim_sleep(1000000);
    }
}

template <typename T>
void serve()
{
    bool recreate = C().recreate != 0;
    optional<T> other;
    if (sim_choose(2) == 0)
    {
        // a second channel with its own name is not disturbed by anything that happens to the first
        create_until<T>(other, "cho", PosixIpcChannelSide::SERVER);
        sim_count("second channel", 1);
    }
    optional<T> ch;
    create_until<T>(ch, "ch", PosixIpcChannelSide::SERVER);
    C().serverUp = 1;
    uint64_t quietSince = 0;
    while (true)
    {
        bool done;
        {
            SimAtomicSection a;
            done = all_done();
        }
        if (done)
        {
            // drained: nothing that was sent is missing
            SimAtomicSection a;
            if (recreate || pending() == 0)
                break;
            if (quietSince == 0)
                quietSince = sim_now();
            if (sim_now() - quietSince > 5000000000ULL)
                sim_fail("P16:lost", "%d messages that were sent over the %s channel never arrive", pending(), Tr<T>::name);
        }
        pause_some();
        move_some(ch);
        if (recreate && sim_choose(6) == 0)
        {
            {
                SimAtomicSection a;
                C().serverUp = 0;
            }
            ch.reset();
            pause_some();
            create_until<T>(ch, "ch", PosixIpcChannelSide::SERVER);
            C().incarnation = C().incarnation + 1;
            C().serverUp = 1;
            sim_count("re-created", 1);
        }
        bool viaString = sim_choose(2) == 0;
        if (sim_choose(4) == 0 && RecvOps<T>::try_recv(*ch, viaString))
            continue;
        int before;
        {
            SimAtomicSection a;
            before = deliverable();
        }
        if (before > 0 && !recreate && sim_choose(3) == 0)
        {
            sim_deadline(5000000000ULL, "P16:recv-hang", "receive although messages are waiting");
            expected<std::string, PosixIpcChannelError> r = err(PosixIpcChannelError::UNDEFINED);
            if (viaString)
            {
                iox::string<Tr<T>::limit> buf;
                auto x = ch->receive(buf);
                if (x.has_error())
                    r = err(x.error());
                else
                    r = ok<std::string>(buf.c_str());
            }
            else
                r = ch->receive();
            sim_deadline_clear();
            if (r.has_value())
                received<T>(r.value());
            else if (!faulty())
                sim_fail("P16:recv-error", "receive of %s failed with %d", Tr<T>::name, static_cast<int>(r.error()));
            continue;
        }
        uint64_t to = done ? 1000000 : pick_timeout(Tr<T>::minTimeout);
        uint64_t t0 = sim_now();
        sim_deadline(30000000000ULL, "P16:timed-hang", "timedReceive");
        auto r = timed_recv<T>(*ch, to, viaString);
        sim_deadline_clear();
        check_timeout<T>("timedReceive", t0, to, r.has_error() && is_timeout(r.error()));
        if (r.has_value())
            received<T>(r.value());
        else if (is_timeout(r.error()))
        {
            if (before > 0 && !recreate && !faulty())
                sim_fail("P16:lost", "timedReceive of %s reports a time-out although %d messages are waiting", Tr<T>::name, before);
        }
        else if (!faulty())
            sim_fail("P16:recv-error", "timedReceive of %s failed with %d", Tr<T>::name, static_cast<int>(r.error()));
    }
    ch.reset();
    if (other.has_value())
    {
        optional<T> cl;
        create_until<T>(cl, "cho", PosixIpcChannelSide::CLIENT);
        sim_faults_enable(false);
        if (cl->send("hello").has_error())
            sim_fail("P16:disturbed", "the second %s channel does not work any more", Tr<T>::name);
        auto r = other->timedReceive(Duration::fromMilliseconds(100));
        if (r.has_error() || r.value() != "hello")
            sim_fail("P16:disturbed", "the second %s channel does not deliver", Tr<T>::name);
    }
    other.reset();
    if (sim_open_fds() || sim_open_maps())
        sim_fail("P15:leak", "%d descriptors and %d mappings are left after the %s channels were closed", sim_open_fds(), sim_open_maps(), Tr<T>::name);
}

template <typename T>
struct SendOps
{
    static int try_send(T&, const std::string&) { return -1; }
};
template <>
struct SendOps<NamedPipe>
{
    static int try_send(NamedPipe& ch, const std::string& m)
    {
        auto r = ch.trySend(m);
        return r.has_error() ? static_cast<int>(r.error()) + 1 : 0;
    }
};

template <typename T>
void client(int c)
{
    optional<T> ch;
    create_until<T>(ch, "ch", PosixIpcChannelSide::CLIENT);
    bool recreate = C().recreate != 0;
    uint64_t maxLen = Tr<T>::maxLen(static_cast<uint64_t>(C().msgSize));
    for (int s = 0; s < C().nMsgs[c]; ++s)
    {
        pause_some();
        move_some(ch);
        if (sim_choose(12) == 0)
        {
            ch.reset();
            pause_some();
            create_until<T>(ch, "ch", PosixIpcChannelSide::CLIENT);
        }
        uint64_t len;
        switch (sim_choose(5))
        {
        case 0:
            len = maxLen;
            break;
        case 1:
            len = maxLen + 1;
            break;
        case 2:
            len = sim_choose(static_cast<uint32_t>(maxLen));
            break;
        default:
            len = sim_choose(40);
        }
        std::string m = text(c, s, len);
        bool tooLong = m.size() > maxLen;
        int recvBefore;
        {
            SimAtomicSection a;
            C().status[c][s] = 1;
            C().sendInv = C().sendInv + 1;
            recvBefore = C().recvRet;
        }
        int inc = C().incarnation;
        bool timed = recreate || sim_choose(2) == 0;
        uint64_t to = 0, t0 = sim_now();
        PosixIpcChannelError e{};
        bool isErr = true, timedOut = false;
        int t = sim_choose(4) == 0 ? SendOps<T>::try_send(*ch, m) : -1;
        if (t >= 0)
        {
            isErr = t != 0;
            e = static_cast<PosixIpcChannelError>(t - 1);
        }
        else if (timed)
        {
            to = pick_timeout(Tr<T>::minTimeout);
            sim_deadline(30000000000ULL, "P16:timed-hang", "timedSend");
            auto r = ch->timedSend(m, Duration::fromNanoseconds(to));
            sim_deadline_clear();
            isErr = r.has_error();
            if (isErr)
                e = r.error();
            timedOut = isErr && is_timeout(e);
            check_timeout<T>("timedSend", t0, to, timedOut);
        }
        else
        {
            sim_deadline(60000000000ULL, "P16:send-hang", "send to a receiver that keeps receiving");
            auto r = ch->send(m);
            sim_deadline_clear();
            isErr = r.has_error();
            if (isErr)
                e = r.error();
        }
        bool reconnect = false;
        {
            SimAtomicSection a;
            C().status[c][s] = isErr ? 3 : 2;
            if (!isErr)
            {
                sim_count("sent", 1);
                C().okSent = C().okSent + 1;
                if (tooLong)
                    sim_fail("P16:too-long", "%s accepted a message of %lu bytes, the limit is %lu", Tr<T>::name, static_cast<unsigned long>(m.size()), static_cast<unsigned long>(maxLen));
            }
            else
            {
                sim_count("refused", 1);
                if (C().got[c][s])
                    sim_fail("P16:refused", "%s delivered message %d of client %d although its sender was told that it was not sent", Tr<T>::name, s, c);
                if (tooLong)
                    sim_count("too long", 1);
                else if (is_timeout(e))
                {
                    // the channel was full at some time during the call
                    if (!recreate && !faulty() && C().sendInv - 1 - recvBefore < C().cap)
                        sim_fail("P16:full", "sending over %s reports a time-out, but at most %d messages can have been in the channel for %d", Tr<T>::name, C().sendInv - 1 - recvBefore, C().cap);
                }
                else if (!faulty() && !(recreate && (C().incarnation != inc || !C().serverUp)) && !recreate)
                    sim_fail("P16:send-error", "sending over %s failed with %d", Tr<T>::name, static_cast<int>(e));
                reconnect = recreate && !is_timeout(e);
            }
        }
        if (reconnect)
        {
            ch.reset();
            create_until<T>(ch, "ch", PosixIpcChannelSide::CLIENT);
        }
    }
    ch.reset();
    if (sim_open_fds() || sim_open_maps())
        sim_fail("P15:leak", "%d descriptors and %d mappings are left after the client side of the %s channel was closed", sim_open_fds(), sim_open_maps(), Tr<T>::name);
    SimAtomicSection a;
    C().done[c] = 1;
}

// ------------------------------------------------------------------------------------------------ builders under faults
struct Snap
{
    int fds, maps, files;
    Snap() : fds(sim_open_fds()), maps(sim_open_maps()), files(sim_fs_entries("/")) {}
    bool operator==(const Snap& o) const { return fds == o.fds && maps == o.maps && files == o.files; }
};

template <typename MakeFn, typename UseFn>
void attempt(const char* what, bool nameMayStay, MakeFn&& mk, UseFn&& use)
{
    Snap before;
    for (int k = 0;; ++k)
    {
        bool last = k >= 6;
        sim_faults_enable(!last);
        uint64_t inj = sim_injected_faults();
        sim_deadline(10000000000ULL, "P15:hang", what);
        auto r = mk();
        sim_deadline_clear();
        bool injected = sim_injected_faults() != inj;
        sim_faults_enable(false);
        if (r)
        {
            sim_deadline(10000000000ULL, "P15:hang-use", what);
            use(*r);
            sim_deadline_clear();
            r.reset();
            Snap now;
            if (!(now == before))
                sim_fail("P15:leak", "%s: %d descriptors, %d mappings, %d names are left after it was created and destroyed", what, now.fds - before.fds, now.maps - before.maps, now.files - before.files);
            if (injected)
                sim_count("survived", 1);
            if (last || sim_choose(3) == 0)
                return;
            continue;
        }
        Snap now;
        // the file of a lock that could not be taken may belong to somebody else: it must not be removed
        if (nameMayStay && now.files == before.files + 1)
            now.files = before.files;
        if (!(now == before))
            sim_fail("P15:leak", "%s: the failed creation left %d descriptors, %d mappings and %d names behind", what, now.fds - before.fds, now.maps - before.maps, now.files - before.files);
        if (!injected)
            sim_fail("P15:spurious", "%s fails although no system call failed", what);
        sim_count("reported", 1);
    }
}

void thread_body(int* n) { ++*n; }

void run_builders()
{
    int n = 3 + static_cast<int>(sim_choose(6));
    for (int i = 0; i < n; ++i)
    {
        switch (sim_choose(13))
        {
        case 0:
            attempt(
                "FileLock", true,
                [] {
                    std::unique_ptr<FileLock> p;
                    auto r = FileLockBuilder().name("bl").permission(perms::owner_all).create();
                    if (r.has_value())
                        p = std::make_unique<FileLock>(std::move(r.value()));
                    return p;
                },
                [](FileLock&) {
                    if (FileLockBuilder().name("bl").permission(perms::owner_all).create().has_value())
                        sim_fail("P15:no-effect", "a file lock was created that does not lock");
                });
            break;
        case 1:
            attempt(
                "UnixDomainSocket server", false,
                [] {
                    std::unique_ptr<UnixDomainSocket> p;
                    auto r = UnixDomainSocketBuilder().name("bu").channelSide(PosixIpcChannelSide::SERVER).create();
                    if (r.has_value())
                        p = std::make_unique<UnixDomainSocket>(std::move(r.value()));
                    return p;
                },
                [](UnixDomainSocket& s) {
                    auto c = UnixDomainSocketBuilder().name("bu").create();
                    if (c.has_error() || c->send("x").has_error() || s.timedReceive(Duration::fromMilliseconds(50)).has_error())
                        sim_fail("P15:no-effect", "a domain socket was created that does not work");
                });
            break;
        case 2:
        {
            auto s = UnixDomainSocketBuilder().name("bu").channelSide(PosixIpcChannelSide::SERVER).create();
            if (s.has_error())
                sim_fail("P15:spurious", "domain socket could not be created");
            attempt(
                "UnixDomainSocket client", false,
                [] {
                    std::unique_ptr<UnixDomainSocket> p;
                    auto r = UnixDomainSocketBuilder().name("bu").create();
                    if (r.has_value())
                        p = std::make_unique<UnixDomainSocket>(std::move(r.value()));
                    return p;
                },
                [&](UnixDomainSocket& c) {
                    sim_faults_enable(true);
                    bool sent = c.timedSend("x", Duration::fromMilliseconds(10)).has_value();
                    sim_faults_enable(false);
                    auto m = s->timedReceive(Duration::fromMilliseconds(5));
                    if (sent != m.has_value())
                        sim_fail("P15:no-effect", "timedSend of a domain socket reported %s but the message %s", sent ? "success" : "an error", m.has_value() ? "arrived" : "did not arrive");
                });
            break;
        }
        case 3:
            attempt(
                "MessageQueue server", false,
                [] {
                    std::unique_ptr<MessageQueue> p;
                    auto r = MessageQueueBuilder().name("bm").channelSide(PosixIpcChannelSide::SERVER).create();
                    if (r.has_value())
                        p = std::make_unique<MessageQueue>(std::move(r.value()));
                    return p;
                },
                [](MessageQueue& s) {
                    auto c = MessageQueueBuilder().name("bm").create();
                    if (c.has_error() || c->send("x").has_error() || s.timedReceive(Duration::fromMilliseconds(50)).has_error())
                        sim_fail("P15:no-effect", "a message queue was created that does not work");
                });
            break;
        case 4:
            attempt(
                "NamedPipe server", false,
                [] {
                    std::unique_ptr<NamedPipe> p;
                    auto r = NamedPipeBuilder().name("bp").channelSide(PosixIpcChannelSide::SERVER).create();
                    if (r.has_value())
                        p = std::make_unique<NamedPipe>(std::move(r.value()));
                    return p;
                },
                [](NamedPipe& s) {
                    auto c = NamedPipeBuilder().name("bp").create();
                    if (c.has_error() || c->send("x").has_error() || s.timedReceive(Duration::fromMilliseconds(50)).has_error())
                        sim_fail("P15:no-effect", "a named pipe was created that does not work");
                });
            break;
        case 5:
        {
            OpenMode mode = sim_choose(3) == 0 ? OpenMode::ExclusiveCreate : sim_choose(2) == 0 ? OpenMode::PurgeAndCreate : OpenMode::OpenOrCreate;
            attempt(
                "PosixSharedMemoryObject", false,
                [mode] {
                    std::unique_ptr<PosixSharedMemoryObject> p;
                    auto r = PosixSharedMemoryObjectBuilder().name("bs").memorySizeInBytes(8192).accessMode(AccessMode::ReadWrite).openMode(mode).permissions(perms::owner_all).create();
                    if (r.has_value())
                        p = std::make_unique<PosixSharedMemoryObject>(std::move(r.value()));
                    return p;
                },
                [](PosixSharedMemoryObject& s) {
                    memset(s.getBaseAddress(), 5, 8192);
                    auto o = PosixSharedMemoryObjectBuilder().name("bs").memorySizeInBytes(8192).accessMode(AccessMode::ReadOnly).openMode(OpenMode::OpenExisting).permissions(perms::owner_all).create();
                    if (o.has_error() || static_cast<const uint8_t*>(o->getBaseAddress())[8191] != 5)
                        sim_fail("P15:no-effect", "a shared memory object was created that is not shared");
                });
            break;
        }
        case 6:
        {
            auto s = PosixSharedMemoryObjectBuilder().name("bs").memorySizeInBytes(4096).accessMode(AccessMode::ReadWrite).openMode(OpenMode::ExclusiveCreate).permissions(perms::owner_all).create();
            if (s.has_error())
                sim_fail("P15:spurious", "shared memory could not be created");
            OpenMode mode = sim_choose(2) == 0 ? OpenMode::OpenExisting : OpenMode::OpenOrCreate;
            attempt(
                "PosixSharedMemoryObject (existing)", false,
                [mode] {
                    std::unique_ptr<PosixSharedMemoryObject> p;
                    auto r = PosixSharedMemoryObjectBuilder().name("bs").memorySizeInBytes(4096).accessMode(AccessMode::ReadWrite).openMode(mode).permissions(perms::owner_all).create();
                    if (r.has_value())
                        p = std::make_unique<PosixSharedMemoryObject>(std::move(r.value()));
                    return p;
                },
                [&](PosixSharedMemoryObject& o) {
                    static_cast<uint8_t*>(o.getBaseAddress())[100] = 7;
                    if (static_cast<const uint8_t*>(s->getBaseAddress())[100] != 7 || o.hasOwnership())
                        sim_fail("P15:no-effect", "an existing shared memory object was opened but is not the same");
                    static_cast<uint8_t*>(o.getBaseAddress())[100] = 0;
                });
            break;
        }
        case 7:
        {
            OpenMode mode = sim_choose(3) == 0 ? OpenMode::ExclusiveCreate : sim_choose(2) == 0 ? OpenMode::PurgeAndCreate : OpenMode::OpenOrCreate;
            attempt(
                "NamedSemaphore", false,
                [mode] {
                    auto p = std::make_unique<optional<NamedSemaphore>>();
                    if (NamedSemaphoreBuilder().name("bsem").openMode(mode).permissions(perms::owner_all).initialValue(2).create(*p).has_error())
                    {
                        if (p->has_value())
                            sim_fail("P15:half-made", "the failed creation of a named semaphore leaves an object");
                        p.reset();
                    }
                    return p;
                },
                [](optional<NamedSemaphore>& s) {
                    if (!s.has_value() || !s->tryWait().value_or(false) || !s->tryWait().value_or(false) || s->tryWait().value_or(true))
                        sim_fail("P15:no-effect", "a named semaphore was created that does not work");
                });
            break;
        }
        case 8:
            attempt(
                "UnnamedSemaphore", false,
                [] {
                    auto p = std::make_unique<optional<UnnamedSemaphore>>();
                    if (UnnamedSemaphoreBuilder().initialValue(1).create(*p).has_error())
                    {
                        if (p->has_value())
                            sim_fail("P15:half-made", "the failed creation of a semaphore leaves an object");
                        p.reset();
                    }
                    return p;
                },
                [](optional<UnnamedSemaphore>& s) {
                    if (!s.has_value() || !s->tryWait().value_or(false) || s->tryWait().value_or(true))
                        sim_fail("P15:no-effect", "the creation of a semaphore reported success, but it does not exist or does not work");
                });
            break;
        case 9:
            attempt(
                "mutex", false,
                [] {
                    auto p = std::make_unique<optional<mutex>>();
                    if (MutexBuilder().create(*p).has_error())
                    {
                        if (p->has_value())
                            sim_fail("P15:half-made", "the failed creation of a mutex leaves an object");
                        p.reset();
                    }
                    return p;
                },
                [](optional<mutex>& m) {
                    if (!m.has_value() || !m->try_lock())
                        sim_fail("P15:no-effect", "a mutex was created that does not work");
                    m->unlock();
                });
            break;
        case 10:
        {
            int ran = 0;
            attempt(
                "Thread", false,
                [&ran] {
                    ran = 0;
                    auto p = std::make_unique<optional<Thread>>();
                    if (ThreadBuilder().name("t").create(*p, [&ran] { thread_body(&ran); }).has_error())
                    {
                        if (p->has_value())
                            sim_fail("P15:half-made", "the failed creation of a thread leaves an object");
                        p.reset();
                    }
                    return p;
                },
                [&ran](optional<Thread>& t) {
                    t.reset();
                    if (ran != 1)
                        sim_fail("P15:no-effect", "a thread was created that did not run");
                });
            break;
        }
        default:
            attempt(
                "File", false,
                [] {
                    std::unique_ptr<File> p;
                    auto r = FileBuilder()
                                 .access_mode(AccessMode::ReadWrite)
                                 .open_mode(OpenMode::PurgeAndCreate)
                                 .permissions(perms::owner_all)
                                 .create(*FilePath::create("/tmp/bfile"));
                    if (r.has_value())
                        p = std::make_unique<File>(std::move(r.value()));
                    else if (sim_fs_entries("/tmp/bfile"))
                        sim_fail("P15:half-made", "the failed creation of a file leaves it behind");
                    return p;
                },
                [](File& f) {
                    uint8_t b[64], in[64];
                    for (int k = 0; k < 64; ++k)
                        b[k] = static_cast<uint8_t>(k);
                    sim_faults_enable(true);
                    auto w = f.write(b, sizeof(b));
                    sim_faults_enable(false);
                    auto rd = f.read(in, sizeof(in));
                    if (rd.has_error())
                        sim_fail("P15:spurious", "a file could not be read");
                    if (w.has_value() && (rd.value() < w.value() || memcmp(b, in, w.value()) != 0))
                        sim_fail("P15:no-effect", "%lu bytes were reported as written, %lu read back", static_cast<unsigned long>(w.value()), static_cast<unsigned long>(rd.value()));
                    IOX_DISCARD_RESULT(File::remove(*FilePath::create("/tmp/bfile")));
                });
        }
    }
}
} // namespace

namespace
{
// ------------------------------------------------------------------------------------------------ lock in shared memory
struct SharedLock
{
    optional<iox::mutex> m;
    uint64_t a{0}, b{0};
};
struct RobustTh
{
    SharedLock* s;
    int id; // 1...
};
void robust_body(SharedLock& s, int id)
{
    for (int r = 0; r < C().rounds2; ++r)
    {
        pause_some();
        bool notice = false, have = false;
        C().st[id] = 1;
        sim_deadline(60000000000ULL, "P13:mutex-hang", "mutex::lock");
        if (sim_choose(3) == 2)
        {
            auto t = s.m->try_lock();
            if (t.has_error())
            {
                notice = t.error() == TryLockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED;
                if (!notice)
                    sim_fail("P13:mutex-error", "try_lock reports error %d", static_cast<int>(t.error()));
            }
            else if (*t == TryLock::FAILED_TO_ACQUIRE_LOCK)
            {
                sim_deadline_clear();
                C().st[id] = 0;
                continue;
            }
        }
        else
        {
            auto t = s.m->lock();
            if (t.has_error())
            {
                notice = t.error() == LockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED;
                if (!notice)
                    sim_fail("P13:mutex-error", "lock reports error %d", static_cast<int>(t.error()));
            }
        }
        sim_deadline_clear();
        (void)have;
        {
            SimAtomicSection x;
            if (C().holder)
                sim_fail("P13:mutex", "thread %d got the lock while %d holds it", id, C().holder);
            if (notice && !C().diedHolding && !C().mayDied)
                sim_fail("P13:robust", "thread %d is told that the owner of the lock died, but none did", id);
            if (!notice && C().diedHolding)
                sim_fail("P13:robust", "the owner of the lock died, but the next owner is not told");
            if (notice)
                sim_count("owner died", 1);
            C().diedHolding = 0;
            C().holder = id;
            C().st[id] = 2;
        }
        if (notice)
        {
            pause_some();
            s.b = s.a;
            s.m->make_consistent();
        }
        else if (s.a != s.b)
            sim_fail("P13:robust", "the protected data is inconsistent (%lu, %lu) without notice", s.a, s.b);
        int again = C().lockType == 1 ? static_cast<int>(sim_choose(3)) : 0;
        for (int k = 0; k < again; ++k)
            if (s.m->lock().has_error())
                sim_fail("P13:mutex-error", "a recursive lock can not be locked again by its owner");
        if (C().lockType == 2 && sim_choose(3) == 0)
        {
            auto t = s.m->lock();
            if (!t.has_error() || t.error() != LockError::DEADLOCK_CONDITION)
                sim_fail("P13:mutex-error", "locking a deadlock-detecting lock twice is not reported as a deadlock");
        }
        s.a = s.a + 1;
        pause_some();
        s.b = s.b + 1;
        if (C().robust && r + 1 == C().rounds2 && sim_choose(3) == 2)
        {
            SimAtomicSection x;
            C().holder = 0; // ends while it owns the lock
            C().diedHolding = 1;
            C().st[id] = 0;
            return;
        }
        for (int k = 0; k < again; ++k)
            if (s.m->unlock().has_error())
                sim_fail("P13:mutex-error", "a recursive lock can not be unlocked by its owner");
        {
            SimAtomicSection x;
            C().holder = 0;
            C().st[id] = 3;
        }
        if (s.m->unlock().has_error())
            sim_fail("P13:mutex-error", "the owner can not unlock the lock");
        C().st[id] = 0;
    }
}
void run_robust(int worker)
{
    auto shm = PosixSharedMemoryObjectBuilder().name("rl").memorySizeInBytes(4096).accessMode(AccessMode::ReadWrite).openMode(worker ? OpenMode::OpenExisting : OpenMode::ExclusiveCreate).permissions(perms::owner_all).create();
    if (shm.has_error())
        sim_fail("P13:create", "shared memory could not be opened");
    auto* s = static_cast<SharedLock*>(shm->getBaseAddress());
    if (worker == 0)
    {
        new (s) SharedLock;
        LockBehavior lb[] = {LockBehavior::NORMAL, LockBehavior::RECURSIVE, LockBehavior::WITH_DEADLOCK_DETECTION};
        if (MutexBuilder()
                .is_inter_process_capable(true)
                .lock_behavior(lb[C().lockType])
                .thread_termination_behavior(C().robust ? MutexThreadTerminationBehavior::RELEASE_WHEN_LOCKED : MutexThreadTerminationBehavior::STALL_WHEN_LOCKED)
                .create(s->m)
                .has_error())
            sim_fail("P13:create", "mutex could not be created");
        C().ready = 1;
    }
    sim_track(&s->a, 16);
    RobustTh t[2];
    int f[2], n = 1 + static_cast<int>(sim_choose(2));
    for (int k = 0; k < n; ++k)
    {
        t[k] = {s, 1 + 2 * worker + k};
        C().stProc[t[k].id] = sim_proc();
        f[k] = sim_thread(
            [](void* p) {
                auto* x = static_cast<RobustTh*>(p);
                robust_body(*x->s, x->id);
            },
            &t[k],
            "locker");
    }
    for (int k = 0; k < n; ++k)
        sim_join(f[k]);
    if (worker == 0)
        while (C().ready < 2)
            sim_sleep(5000000);
}
} // namespace

extern "C" void harness_main(int role, const int64_t* args)
{
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    switch (role)
    {
    case px::FILELOCK:
        run_filelock(static_cast<int>(args[0]));
        break;
    case px::CHAN_SERVER:
        if (args[0] == px::UDS)
            serve<UnixDomainSocket>();
        else if (args[0] == px::MQ)
            serve<MessageQueue>();
        else
            serve<NamedPipe>();
        break;
    case px::CHAN_CLIENT:
        if (args[0] == px::UDS)
            client<UnixDomainSocket>(static_cast<int>(args[1]));
        else if (args[0] == px::MQ)
            client<MessageQueue>(static_cast<int>(args[1]));
        else
            client<NamedPipe>(static_cast<int>(args[1]));
        break;
    case px::ROBUST:
        run_robust(static_cast<int>(args[0]));
        break;
    case px::BUILDERS:
        run_builders();
        break;
    }
}
