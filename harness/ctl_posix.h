// Control block of the scenarios on the operating system wrappers (file lock, local channels, builders).
#pragma once
#include <cstdint>

namespace px
{
constexpr int MAXC = 6, MAXM = 40, MAXN = 3;
enum Role
{
    FILELOCK = 1, // args: worker
    CHAN_SERVER = 2, // args: kind
    CHAN_CLIENT = 3, // args: kind, client
    BUILDERS = 4,
    ROBUST = 5, // args: worker
};
enum Kind
{
    UDS = 0,
    MQ = 1,
    PIPE = 2
};
struct Ctl
{
    // file locks
    volatile int owner[MAXN]; // process that is inside, 0: none
    volatile int active[MAXN]; // processes between begin of create and end of destroy
    volatile uint32_t epoch[MAXN];
    volatile int inside[64]; // per process: bit mask of the names it is active in
    volatile int rounds, names;
    // channels
    volatile int nClients, cap, msgSize, recreate, serverUp, stop, faults, eintr;
    volatile int done[MAXC];
    volatile int nMsgs[MAXC];
    volatile int status[MAXC][MAXM]; // 0 unused, 1 being sent, 2 sent, 3 refused
    volatile int got[MAXC][MAXM];
    volatile int last[MAXC];
    volatile int sendInv, recvRet, okSent, timedSlackMs;
    volatile int incarnation;
    // lock in shared memory
    volatile int ready, lockType, robust, rounds2;
    volatile int holder, diedHolding, mayDied;
    volatile int st[64], stProc[64]; // per thread: 0 outside, 1 in lock, 2 holding, 3 in unlock
};
} // namespace px
