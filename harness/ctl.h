// Control block shared by the scenario controller (simulator side) and the simulated programs. Plain data only.
#pragma once
#include <cstdint>

namespace ctl
{
constexpr int MAXE = 32;
enum Role
{
    ROUDI = 1,
    PUBSUB = 2,  // args: app number; runs all endpoints assigned to it
    CHURN = 3,
    REQRES = 4,
    EVENTS = 5,
    LIMITS = 6,
    START = 7,
    INTRO = 8,
    ALIVE = 9,
    BLOCKED = 10,
};
// history events
enum
{
    // publishers: a = endpoint, b = sequence number, c = physical address
    LOAN = 1,
    LOAN_FAIL = 2, // b = error code
    SEND_INV = 3,
    SEND_RET = 4,
    LOAN_REL = 5, // before giving a loan back
    OFFER_INV = 6,
    OFFER_RET = 7, // b: 1 isOffered observed
    STOP_INV = 8,
    STOP_RET = 9,
    PUB_NEW = 10,
    PUB_GONE = 11,
    // subscribers: a = endpoint, b = publisher << 32 | seq, c = address
    SUB_INV = 20,
    SUB_RET = 21,
    UNSUB_INV = 22,
    UNSUB_RET = 23,
    SUB_STATE = 24, // b = state
    TAKE_INV = 25,
    TAKE_RET = 26,
    TAKE_EMPTY = 27,
    TAKE_REL = 28, // before giving a sample back
    MISSED = 29,   // b = hasMissedData
    SUB_NEW = 30,
    SUB_GONE = 31,
    TAKE_ERR = 32,
    QUEUE_CLEAR = 33,
    // clients / servers: a = endpoint, b = client << 32 | seq, c = address, d = sequence id seen
    REQ_INV = 40,
    REQ_RET = 41, // c = result
    RTAKE_INV = 42,
    RTAKE_RET = 43, // server got request
    RTAKE_EMPTY = 44,
    RSP_INV = 45,
    RSP_RET = 46, // c = result
    CTAKE_INV = 47,
    CTAKE_RET = 48, // client got response
    CTAKE_EMPTY = 49,
    CON_STATE = 50,
    CMISSED = 51,
    // events
    EV_ATTACH = 60,
    EV_DETACH_INV = 61,
    EV_DETACH_RET = 62,
    EV_FIRE = 63,
    EV_CALLED = 64,
    EV_REPORT = 65,
    EV_WAIT = 66,
    EV_WAKE = 67,
    FIND = 72,    // a = app, b = pattern, c = service + 1 << 8 | instance + 1, d = mask of services found
    PEERS = 71,   // a = endpoint, b = somebody is connected
    // limits: a = worker, b = kind, c = object
    LIM_INV = 80,
    LIM_OK = 81,
    LIM_REF = 82,
    LIM_DINV = 83,
    LIM_DRET = 84,
    LIM_NONE = 85, // neither granted nor refused for lack of this resource
    EP_DEAD = 70, // a = endpoint: its process died
};

// the three identifiers of a service: any two services differ in at least one; rot decides in which the first ones do
inline void svcParts(int svc, int rot, int& s, int& i, int& e)
{
    static const int T[8][3] = {{0, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 0}, {1, 1, 1}, {1, 0, 1}, {1, 1, 0}, {0, 1, 1}};
    const int* t = T[svc & 7];
    s = t[rot % 3] + 2 * (svc >> 3);
    i = t[(rot + 1) % 3];
    e = t[(rot + 2) % 3];
}
struct Pool
{
    uint64_t size, n, used, minFree, got;
};
struct App
{
    volatile int up;       // 1 runtime registered
    volatile int done;     // highest phase completed
    volatile int leave;    // 1: orderly exit requested
    volatile int gone;
    volatile int busy;     // inside library calls
    char name[32];
};
struct Ep // one publisher, subscriber, client or server
{
    volatile int kind; // 0 none, 1 publisher, 2 subscriber, 3 client, 4 server
    volatile int app;
    volatile int svc;
    volatile int history;  // publisher: capacity, subscriber: requested
    volatile int queue;    // subscriber / server / client queue capacity
    volatile int block;    // too-slow / queue-full policy blocks
    volatile int needHist; // subscriber requires history support
    volatile int onCreate; // offer / subscribe / connect on create
    volatile int toggles;  // how often to toggle
    volatile int count;    // messages to send
    volatile int burst;
    volatile int words;    // maximal payload words
    volatile int hold;     // samples held at most
    volatile int pause;    // ms between actions
    volatile int typed;    // 0 untyped, 1 typed
    volatile int inC;      // untyped, by way of the C interface
    volatile int late;     // ms to wait before creating
    volatile int user;     // user header
    volatile int wait;     // 0 polling, 1 waitset, 2 listener
    volatile int keep;     // chunks held until told otherwise
    // status
    volatile int exists;
    volatile int wants;    // offered / subscribed / connected as requested last
    volatile int state;    // as seen by the endpoint
    volatile int peers;    // hasSubscribers / hasClients
    volatile int sent;
    volatile int lost;
    volatile int got;
    volatile int inop; // inside a library call
    volatile int settled;
    volatile uint32_t mask; // partners heard of in the end
};
struct IntroPort
{
    char app[32], service[32], instance[32], event[32];
    uint64_t id, history, queue;
    int on, block, need, state, scope;
};
struct Intro // what the introspection topics say, as an observer sees them
{
    volatile int req, ack, seen; // seen: mask of topics received at least once
    int nProc, nPub, nSub, nState, nPool;
    struct
    {
        int pid;
        char name[32];
    } proc[32];
    IntroPort pub[32], sub[32];
    Pool pool[8];
    volatile int stuff, stuffed, leave; // ask to take every chunk; how many were there (+ 1)
    volatile int hoard;                 // keep every sample
};
struct Ctl
{
    volatile int phase; // 0 run, 1 stop changing, 2 drain, 3 give everything back, 4 leave
    volatile int nApps, nEps;
    App app[12];
    Ep ep[MAXE];
    // daemon
    volatile int roudiUp;
    volatile int poolReq, poolAck;
    volatile int rot; // see svcParts
    volatile int poolCount; // take every free chunk for a moment and count them
    volatile int nPools;
    Pool pools[8];
    volatile int nIntro;
    Pool intro[8];
    volatile int small, large; // chunks per pool
    volatile int monitoring;
    volatile int killDelayMs;
    volatile int mode;
    volatile int v[64];
    volatile int64_t w[64];
    Intro in[2];
};
} // namespace ctl
