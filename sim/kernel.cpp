// The simulated kernel: threads, mutexes, condition variables, semaphores, message queues, domain sockets, files, locks,
// shared memory, clocks, signals, users. The functions interpose the C library's for everything loaded into this
// executable; outside of a run (and for the simulator itself) they forward to the real ones.
#include "simint.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <grp.h>
#include <mqueue.h>
#include <pthread.h>
#include <pwd.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/un.h>
#include <unistd.h>

#ifndef SEM_VALUE_MAX
#define SEM_VALUE_MAX 2147483647
#endif

namespace sim
{
static void ensure_tracked(FileNode* n);
extern uint8_t g_slotTracked[ARENA_SLOTS];
extern bool (*g_onAbort)(Proc*, const char*);
void hb_proc_death(Proc* p);
void run_atexit(Proc* p);
Instance* g_loading = nullptr;
bool g_quietLog = true;
std::string g_trackPrefix; // shared memory objects whose name does not contain "management" are race checked

static inline bool on() { return g_active && g_cur; }
static inline bool on_app() { return g_active && g_cur && g_cur->proc->idx != 0; }

template <typename F>
static F real(const char* n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
#define REAL(fn) static auto real_##fn = real<decltype(&fn)>(#fn)

// ------------------------------------------------------------------------------------------------ fault injection
extern const char* const g_callNames[NFAULT];
const char* const g_callNames[NFAULT] = {"socket", "bind", "connect", "sendto", "recvfrom", "setsockopt", "open", "close", "read", "write",
    "fstat", "fchown", "fchmod", "ftruncate", "mmap", "munmap", "shm_open", "shm_unlink", "unlink", "flock", "sem_init", "sem_wait",
    "sem_timedwait", "sem_post", "sem_open", "mq_open", "mq_send", "mq_receive", "clock_gettime", "nanosleep", "pthread_create",
    "pthread_mutex_init", "kill", "fcntl", "lseek", "sem_close", "sem_unlink", "mq_close", "mq_unlink", "access"};
enum Call
{
    C_socket, C_bind, C_connect, C_sendto, C_recvfrom, C_setsockopt, C_open, C_close, C_read, C_write,
    C_fstat, C_fchown, C_fchmod, C_ftruncate, C_mmap, C_munmap, C_shm_open, C_shm_unlink, C_unlink, C_flock, C_sem_init, C_sem_wait,
    C_sem_timedwait, C_sem_post, C_sem_open, C_mq_open, C_mq_send, C_mq_receive, C_clock_gettime, C_nanosleep, C_pthread_create,
    C_pthread_mutex_init, C_kill, C_fcntl, C_lseek, C_sem_close, C_sem_unlink, C_mq_close, C_mq_unlink, C_access, C_N
};
// errors a healthy system really can return
static const std::vector<std::vector<int>> g_errnos = {
    /*socket*/ {EMFILE, ENFILE, ENOMEM, ENOBUFS}, /*bind*/ {ENOMEM, EACCES, EROFS}, /*connect*/ {EAGAIN, EACCES}, /*sendto*/ {ENOBUFS, ENOMEM},
    /*recvfrom*/ {ENOMEM}, /*setsockopt*/ {}, /*open*/ {EMFILE, ENFILE, ENOMEM, EACCES}, /*close*/ {}, /*read*/ {EIO}, /*write*/ {EIO, ENOSPC},
    /*fstat*/ {}, /*fchown*/ {EPERM}, /*fchmod*/ {EPERM}, /*ftruncate*/ {EFBIG, ENOMEM}, /*mmap*/ {ENOMEM, EAGAIN}, /*munmap*/ {},
    /*shm_open*/ {EMFILE, ENFILE, ENOMEM, EACCES, ENOSPC}, /*shm_unlink*/ {}, /*unlink*/ {}, /*flock*/ {ENOLCK}, /*sem_init*/ {ENOSPC},
    /*sem_wait*/ {}, /*sem_timedwait*/ {}, /*sem_post*/ {}, /*sem_open*/ {EMFILE, ENOMEM, EACCES}, /*mq_open*/ {EMFILE, ENOSPC, ENOMEM},
    /*mq_send*/ {}, /*mq_receive*/ {}, /*clock_gettime*/ {}, /*nanosleep*/ {}, /*pthread_create*/ {EAGAIN}, /*pthread_mutex_init*/ {ENOMEM, EAGAIN},
    /*kill*/ {}, {}, {}, {}, {}, {}, {}, {}};
static const bool g_intr[C_N] = {false, false, true, true, true, false, true, false, true, true, false, false, false, true, false, false, false, false,
                                 false, true, false, true, true, false, false, false, true, true, false, true};
static bool g_faultsOn = false;
static uint64_t g_siteMask = ~0ULL;
static uint64_t g_injected = 0;
static int g_faultProc = -1; // -1: every process
void faults_enable(bool on) { g_faultsOn = on; }
void faults_mask(uint64_t m) { g_siteMask = m; }
void faults_proc(int p) { g_faultProc = p; }
uint64_t faults_injected() { return g_injected; }

// returns the errno to fail with or 0. EINTR is only injected for calls that can block and only in processes that handle signals
static int fault(int call)
{
    Fiber* f = g_cur;
    uint64_t no = f->syscalls++;
    g_res->syscalls++;
    int e = 0;
    if (g_cfg.replay)
    {
        int64_t v = 0;
        if (lookup(D_FAULT, f->id, no, v))
        {
            // while a schedule is being minimised the decision may hit another call: only faults that exist there count
            e = static_cast<int>(v);
            if (e == EINTR ? !g_intr[call] || f->eintrRun >= 3 : std::find(g_errnos[call].begin(), g_errnos[call].end(), e) == g_errnos[call].end())
                e = 0;
        }
    }
    else
    {
        if (!g_faultsOn || f->noPreempt || f->proc->idx == 0 || (g_faultProc >= 0 && f->proc->idx != g_faultProc))
            return 0;
        // IOX_POSIX_CALL repeats an interrupted call a bounded number of times (5): more interrupts in a row are not claimed to be survived
        if (g_k.faultPermille && !g_errnos[call].empty() && (g_siteMask >> call & 1) && g_rngFault.below(1000) < g_k.faultPermille)
            e = g_errnos[call][g_rngFault.below(g_errnos[call].size())];
        else if (g_intr[call] && f->eintrRun < 3 && g_k.eintrPermille && g_rngFault.below(1000) < g_k.eintrPermille)
            e = EINTR;
        if (e)
            record(D_FAULT, f->id, no, e);
    }
    f->eintrRun = e == EINTR ? f->eintrRun + 1 : 0;
    if (e)
    {
        g_res->faults[call]++;
        g_injected++;
        if (g_cfg.verbose)
            sim_note("fault: %s -> errno %d", g_callNames[call], e);
        f->proc->lastLog += "";
    }
    return e;
}
#define ENTER(call)                                                                                                                      \
    sched_sync(#call);                                                                                                                   \
    if (int e_ = fault(C_##call))                                                                                                        \
    {                                                                                                                                    \
        errno = e_;                                                                                                                      \
        return -1;                                                                                                                       \
    }

// ------------------------------------------------------------------------------------------------ objects
enum class NType { REG, SHM, SOCK, MQ, SEM };
struct SemObj
{
    int64_t value{0};
    bool shared{true}; // waiters of other processes are woken
    VC vc;
    bool destroyed{false};
};
struct Msg
{
    std::string data;
    unsigned prio{0};
    VC vc;
};
struct FileNode
{
    NType type{NType::REG};
    std::string name;
    mode_t mode{0};
    int uid{0}, gid{0};
    std::vector<uint8_t> data;
    int memfd{-1};
    size_t size{0};
    uint64_t key{0};
    bool linked{true};
    VC vc;
    OpenFile* sock{nullptr};
    std::deque<Msg> q;
    long maxmsg{10}, msgsize{8192};
    SemObj sem;
    OpenFile* lockEx{nullptr};
    std::set<OpenFile*> lockSh;
};
struct OpenFile
{
    FileNode* node{nullptr};
    int flags{0};
    int refs{1};
    size_t pos{0};
    bool isSock{false};
    OpenFile* peer{nullptr};
    std::deque<Msg> rq;
    bool closed{false};
    uint64_t rcvTo{0}, sndTo{0};
    Proc* maker{nullptr};
};
static std::map<std::string, FileNode*> g_fs;
static uint64_t g_nextKey = KEY_SHM;
static size_t g_nextSlot = 0;
int g_dgramQlen = 10;
static uint64_t g_rtOffset = 0;
void clock_jump(int64_t ns) { g_rtOffset += ns; }

struct MutexObj
{
    int type{PTHREAD_MUTEX_NORMAL};
    bool robust{false};
    bool shared{false};
    Fiber* owner{nullptr};
    Proc* ownerProc{nullptr};
    uint32_t count{0};
    bool ownerDead{false};
    bool inconsistent{false};
    bool notRecoverable{false};
    VC vc;
};
static std::unordered_map<uint64_t, MutexObj> g_mutex;
static std::unordered_map<uint64_t, SemObj> g_sem;
struct CondObj
{
    VC vc;
    uint64_t gen{0};
    int clock{CLOCK_REALTIME};
    bool mono{false};
};
static std::unordered_map<uint64_t, CondObj> g_cond;

void kernel_reset()
{
    g_fs.clear();
    g_mutex.clear();
    g_sem.clear();
    g_cond.clear();
    g_nextSlot = 0;
    g_faultsOn = false;
}

static FileNode* new_node(NType t, const std::string& n, mode_t m)
{
    auto* x = new FileNode;
    x->type = t;
    x->name = n;
    x->mode = m & ~static_cast<mode_t>(g_cur->proc->umask_);
    x->uid = 1000;
    x->gid = 1000;
    g_fs[n] = x;
    return x;
}
static int new_fd(OpenFile* o)
{
    int fd = 3;
    auto& m = g_cur->proc->fds;
    while (m.count(fd))
        ++fd;
    m[fd] = o;
    return fd;
}
static OpenFile* get_fd(int fd)
{
    auto& m = g_cur->proc->fds;
    auto it = m.find(fd);
    return it == m.end() ? nullptr : it->second;
}
static void drop_locks(OpenFile* o)
{
    if (!o->node)
        return;
    bool had = o->node->lockEx == o || o->node->lockSh.count(o);
    if (o->node->lockEx == o)
        o->node->lockEx = nullptr;
    o->node->lockSh.erase(o);
    if (had)
    {
        if (g_cur)
            hb_release(o->node->vc);
        wake_all(reinterpret_cast<uint64_t>(o->node));
    }
}
static void release_open(OpenFile* o)
{
    if (--o->refs > 0)
        return;
    drop_locks(o);
    if (o->isSock)
    {
        o->closed = true;
        if (o->node && o->node->sock == o)
            o->node->sock = nullptr;
        wake_all(reinterpret_cast<uint64_t>(o));
        wake_all(reinterpret_cast<uint64_t>(o) + 1);
    }
}

static void unmap_slot(uintptr_t addr, size_t len)
{
    size_t slot = (addr - g_arena) / ARENA_SLOT;
    size_t n = (len + ARENA_SLOT - 1) / ARENA_SLOT;
    for (size_t i = 0; i < n; ++i)
    {
        g_slotKey[slot + i] = 0;
        g_slotTracked[slot + i] = 0;
    }
    syscall(SYS_mmap, addr, n * ARENA_SLOT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
}

// waiting on an object that is not process-shared: only the own process wakes
static uint64_t private_key(uint64_t k, Proc* p) { return k ^ static_cast<uint64_t>(p->idx + 1) << 50; }

void kernel_fiber_exit(Fiber* f)
{
    for (auto& kv : g_mutex)
        if (kv.second.owner == f)
        {
            MutexObj& m = kv.second;
            if (m.robust)
            {
                m.owner = nullptr;
                m.count = 0;
                m.ownerDead = true;
                vc_join(m.vc, f->vc);
                wake_all(m.shared ? kv.first : private_key(kv.first, f->proc));
            }
        }
}

void kernel_proc_death(Proc* p)
{
    hb_proc_death(p);
    for (auto* f : p->fibers)
        if (f->state != FState::DEAD)
            kernel_fiber_exit(f);
    auto fds = p->fds;
    p->fds.clear();
    for (auto& kv : fds)
        release_open(kv.second);
    auto maps = p->maps;
    p->maps.clear();
    for (auto& kv : maps)
        unmap_slot(kv.first, kv.second);
}

// ------------------------------------------------------------------------------------------------ signals
void deliver_signals()
{
    Fiber* f = g_cur;
    if (!f || f->noPreempt || f->proc->idx == 0 || !f->proc->alive)
        return;
    while (!f->proc->pendingSignals.empty())
    {
        int s = f->proc->pendingSignals.front();
        f->proc->pendingSignals.erase(f->proc->pendingSignals.begin());
        auto it = f->proc->sigHandlers.find(s);
        if (s == SIGKILL || it == f->proc->sigHandlers.end() || it->second == SIG_DFL)
        {
            if (s == SIGCHLD || s == SIGURG)
                continue;
            end_proc(f->proc, ProcEnd::KILLED);
            return;
        }
        if (it->second == SIG_IGN)
            continue;
        int e = errno;
        it->second(s);
        errno = e;
    }
}

void send_signal(Proc* p, int sig)
{
    if (!p->alive)
        return;
    if (sig == SIGKILL)
    {
        end_proc(p, ProcEnd::KILLED);
        return;
    }
    p->pendingSignals.push_back(sig);
    if (g_cur->proc == p)
    {
        deliver_signals();
        return;
    }
    // a blocked main thread is woken to run the handler
    Fiber* f = p->fibers.front();
    for (auto* c : p->fibers)
        if (c->state != FState::DEAD)
        {
            f = c;
            break;
        }
    if (f->state == FState::BLOCKED)
    {
        f->interrupted = true;
        f->state = FState::RUNNABLE;
        f->deadline = ~0ULL;
        f->waitKey = 0;
    }
}

[[noreturn]] void proc_abort(const char* why)
{
    Proc* p = g_cur->proc;
    p->end = ProcEnd::ABORTED;
    if (p->idx == 0)
        violation("*:sim", std::string("simulator assertion: ") + why);
    bool ok = g_onAbort && g_onAbort(p, why);
    if (!ok && !p->abortExpected)
        violation("*:abort", "process " + p->name + " terminated abnormally (" + why + "): " + p->lastLog + "; at " + backtrace_str(__builtin_return_address(0), __builtin_frame_address(0)));
    end_proc(p, ProcEnd::ABORTED);
    ::_exit(3);
}

static uint64_t abs_deadline(const timespec* ts, bool mono)
{
    uint64_t t = static_cast<uint64_t>(ts->tv_sec) * 1000000000ULL + static_cast<uint64_t>(ts->tv_nsec);
    if (ts->tv_sec < 0)
        return 0;
    if (mono)
        return t + 1700000000ULL * 1000000000ULL - 1000ULL * 1000000000ULL;
    return t - g_rtOffset;
}

static bool take_interrupt()
{
    bool i = g_cur->interrupted;
    g_cur->interrupted = false;
    return i;
}

static int mutex_acquire(pthread_mutex_t* mm, bool tryOnly, uint64_t deadline)
{
    uint64_t k = phys(mm);
    while (true)
    {
        MutexObj& m = g_mutex[k];
        if (m.notRecoverable)
            return ENOTRECOVERABLE;
        m.type = mm->__data.__kind & 3; // statically initialised ones are not known beforehand
        if (!m.owner)
        {
            m.owner = g_cur;
            m.ownerProc = g_cur->proc;
            m.count = 1;
            hb_acquire(m.vc);
            if (m.ownerDead)
            {
                m.ownerDead = false;
                m.inconsistent = true;
                g_cur->proc->ownerDeadSeen++;
                return EOWNERDEAD;
            }
            return 0;
        }
        if (m.owner == g_cur)
        {
            if (m.type == PTHREAD_MUTEX_RECURSIVE)
            {
                m.count++;
                return 0;
            }
            if (tryOnly)
                return EBUSY;
            if (m.type == PTHREAD_MUTEX_ERRORCHECK)
                return EDEADLK;
        }
        if (tryOnly)
            return EBUSY;
        if (!block_on(m.shared ? k : private_key(k, g_cur->proc), deadline, "mutex") && g_mutex[k].owner)
            return ETIMEDOUT;
    }
}
static int mutex_release(pthread_mutex_t* mm)
{
    uint64_t k = phys(mm);
    MutexObj& m = g_mutex[k];
    if (m.owner != g_cur)
    {
        if (m.type == PTHREAD_MUTEX_ERRORCHECK || m.type == PTHREAD_MUTEX_RECURSIVE || m.robust)
            return EPERM;
        if (!m.owner)
            return 0;
    }
    if (--m.count > 0)
        return 0;
    m.owner = nullptr;
    hb_release(m.vc);
    if (m.inconsistent)
    {
        m.inconsistent = false;
        m.notRecoverable = true;
    }
    wake_all(m.shared ? k : private_key(k, g_cur->proc));
    return 0;
}

static SemObj& sem_of(sem_t* s)
{
    auto& n = g_cur->proc->namedSems;
    if (!n.empty())
    {
        char b[32];
        snprintf(b, sizeof(b), "%p", static_cast<void*>(s));
        auto it = n.find(b);
        if (it != n.end())
            return static_cast<FileNode*>(it->second)->sem;
    }
    return g_sem[phys(s)];
}
static uint64_t sem_key(sem_t* s)
{
    SemObj& o = sem_of(s);
    uint64_t k = reinterpret_cast<uint64_t>(&o);
    return o.shared ? k : private_key(k, g_cur->proc);
}

static int sem_do_wait(sem_t* s, bool tryOnly, uint64_t deadline)
{
    while (true)
    {
        SemObj& o = sem_of(s);
        if (o.value > 0)
        {
            o.value--;
            hb_acquire(o.vc);
            return 0;
        }
        if (tryOnly)
        {
            errno = EAGAIN;
            return -1;
        }
        bool timely = block_on(sem_key(s), deadline, "semaphore");
        if (take_interrupt())
        {
            errno = EINTR;
            return -1;
        }
        if (!timely && sem_of(s).value <= 0)
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
}
} // namespace sim

using namespace sim;

extern "C" {
// ------------------------------------------------------------------------------------------------ inspection
void sim_faults_enable(bool on) { faults_enable(on); }
uint64_t sim_injected_faults() { return g_injected; }
int sim_open_fds() { return static_cast<int>(g_cur->proc->fds.size()); }
int sim_open_maps() { return static_cast<int>(g_cur->proc->maps.size()); }
int sim_fs_entries(const char* prefix)
{
    int n = 0;
    for (auto& kv : g_fs)
        if (kv.first.compare(0, strlen(prefix), prefix) == 0)
        {
            ++n;
            if (g_cfg.verbose)
                sim_note("  fs: %s", kv.first.c_str());
        }
    return n;
}

// ------------------------------------------------------------------------------------------------ process
void abort() noexcept
{
    if (on())
        proc_abort("abort");
    signal(SIGABRT, SIG_DFL);
    syscall(SYS_kill, syscall(SYS_getpid), SIGABRT);
    syscall(SYS_exit_group, 134);
    __builtin_unreachable();
}
void __assert_fail(const char* a, const char*, unsigned, const char*) noexcept
{
    if (on())
        proc_abort(a);
    abort();
}
void _exit(int c)
{
    if (on())
    {
        g_cur->proc->exitCode = c;
        end_proc(g_cur->proc, ProcEnd::EXITED);
    }
    syscall(SYS_exit_group, c);
    __builtin_unreachable();
}
void exit(int c) noexcept
{
    if (on())
    {
        run_atexit(g_cur->proc);
        g_cur->proc->exitCode = c;
        end_proc(g_cur->proc, ProcEnd::EXITED);
    }
    REAL(exit);
    real_exit(c);
    __builtin_unreachable();
}
int __cxa_atexit(void (*f)(void*), void* a, void* dso) noexcept
{
    if (g_loading)
    {
        g_loading->atexit_.emplace_back(f, a);
        return 0;
    }
    if (on_app())
    {
        g_cur->proc->atexit_.emplace_back(f, a);
        return 0;
    }
    static auto r = real<int (*)(void (*)(void*), void*, void*)>("__cxa_atexit");
    return r(f, a, dso);
}
pid_t getpid() noexcept { return on() ? g_cur->proc->pid : static_cast<pid_t>(syscall(SYS_getpid)); }
int kill(pid_t pid, int sig) noexcept
{
    if (!on())
        return static_cast<int>(syscall(SYS_kill, pid, sig));
    ENTER(kill);
    for (auto* p : g_procs)
        if (p->pid == pid && p->alive)
        {
            if (sig != 0)
                send_signal(p, sig);
            return 0;
        }
    errno = ESRCH;
    return -1;
}
int raise(int sig) noexcept
{
    if (!on())
    {
        REAL(raise);
        return real_raise(sig);
    }
    if (sig == SIGABRT)
        proc_abort("raise(SIGABRT)");
    send_signal(g_cur->proc, sig);
    return 0;
}
int sigaction(int s, const struct sigaction* a, struct sigaction* old) noexcept
{
    if (!on_app())
    {
        REAL(sigaction);
        return real_sigaction(s, a, old);
    }
    auto& h = g_cur->proc->sigHandlers;
    if (old)
    {
        memset(old, 0, sizeof(*old));
        old->sa_handler = h.count(s) ? h[s] : SIG_DFL;
    }
    if (a)
        h[s] = a->sa_handler;
    return 0;
}
uid_t getuid() noexcept { return on() ? 1000 : static_cast<uid_t>(syscall(SYS_getuid)); }
uid_t geteuid() noexcept { return on() ? 1000 : static_cast<uid_t>(syscall(SYS_geteuid)); }
gid_t getgid() noexcept { return on() ? 1000 : static_cast<gid_t>(syscall(SYS_getgid)); }
gid_t getegid() noexcept { return on() ? 1000 : static_cast<gid_t>(syscall(SYS_getegid)); }
static char g_uname[] = "simuser", g_gname[] = "simgroup", g_pw[] = "x", g_home[] = "/";
static struct passwd g_pwEnt = {g_uname, g_pw, 1000, 1000, g_uname, g_home, g_home};
static char* g_noMem[] = {nullptr};
static struct group g_grEnt = {g_gname, g_pw, 1000, g_noMem};
struct passwd* getpwnam(const char* n) { errno = 0; return !strcmp(n, g_uname) ? &g_pwEnt : nullptr; }
struct passwd* getpwuid(uid_t u) { errno = 0; return u == 1000 ? &g_pwEnt : nullptr; }
struct group* getgrnam(const char* n) { errno = 0; return !strcmp(n, g_gname) ? &g_grEnt : nullptr; }
struct group* getgrgid(gid_t g) { errno = 0; return g == 1000 ? &g_grEnt : nullptr; }
int getgrouplist(const char*, gid_t, gid_t* g, int* n)
{
    if (*n < 1)
    {
        *n = 1;
        return -1;
    }
    g[0] = 1000;
    *n = 1;
    return 1;
}
mode_t umask(mode_t m) noexcept
{
    if (!on())
        return static_cast<mode_t>(syscall(SYS_umask, m));
    mode_t o = static_cast<mode_t>(g_cur->proc->umask_);
    g_cur->proc->umask_ = static_cast<int>(m & 0777);
    return o;
}
int puts(const char* s)
{
    if (!on())
    {
        REAL(puts);
        return real_puts(s);
    }
    sched_sync("puts");
    g_cur->proc->lastLog = s;
    if (g_cfg.verbose)
        fprintf(stderr, "[%12.6f] %s/%s: log: %s\n", (g_time % 1000000000000ULL) / 1e9, g_cur->proc->name.c_str(), g_cur->name.c_str(), s);
    return 1;
}

// ------------------------------------------------------------------------------------------------ time
int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    if (!on())
        return static_cast<int>(syscall(SYS_clock_gettime, c, t));
    sched_sync("clock");
    uint64_t v = g_time;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
        v += g_rtOffset;
    else
        v -= (1700000000ULL - 1000ULL) * 1000000000ULL;
    t->tv_sec = static_cast<time_t>(v / 1000000000ULL);
    t->tv_nsec = static_cast<long>(v % 1000000000ULL);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts;
    int r = clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return r;
}
time_t time(time_t* t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const struct timespec* rq, struct timespec* rm)
{
    if (!on())
        return static_cast<int>(syscall(SYS_nanosleep, rq, rm));
    sched_sync("nanosleep");
    int e = fault(C_nanosleep);
    uint64_t ns = static_cast<uint64_t>(rq->tv_sec) * 1000000000ULL + static_cast<uint64_t>(rq->tv_nsec);
    uint64_t end = g_time + ns;
    if (e == EINTR)
        end = g_time + ns / 2;
    while (g_time < end)
    {
        block_on(2, end, "nanosleep");
        if (take_interrupt())
        {
            e = EINTR;
            break;
        }
    }
    if (e == EINTR)
    {
        if (rm)
        {
            uint64_t left = g_time < end ? end - g_time : ns / 2;
            rm->tv_sec = static_cast<time_t>(left / 1000000000ULL);
            rm->tv_nsec = static_cast<long>(left % 1000000000ULL);
        }
        errno = EINTR;
        return -1;
    }
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* rq, struct timespec* rm)
{
    if (!on())
        return syscall(SYS_clock_nanosleep, c, fl, rq, rm) == 0 ? 0 : errno;
    uint64_t d = fl & TIMER_ABSTIME ? abs_deadline(rq, c != CLOCK_REALTIME)
                                    : g_time + static_cast<uint64_t>(rq->tv_sec) * 1000000000ULL + static_cast<uint64_t>(rq->tv_nsec);
    sched_sync("clock_nanosleep");
    while (g_time < d)
    {
        block_on(2, d, "clock_nanosleep");
        if (take_interrupt())
            return EINTR;
    }
    return 0;
}
int usleep(useconds_t us)
{
    struct timespec ts = {static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s)
{
    struct timespec ts = {static_cast<time_t>(s), 0};
    nanosleep(&ts, nullptr);
    return 0;
}
int sched_yield() noexcept
{
    if (!on())
        return static_cast<int>(syscall(SYS_sched_yield));
    sim_yield();
    return 0;
}

// ------------------------------------------------------------------------------------------------ threads
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
{
    if (!on())
    {
        REAL(pthread_create);
        return real_pthread_create(t, a, fn, arg);
    }
    sched_sync("pthread_create");
    if (int e = fault(C_pthread_create))
        return e == EINTR ? EAGAIN : e;
    Fiber* f = new_fiber(g_cur->proc, fn, arg, "thread");
    *t = reinterpret_cast<pthread_t>(f);
    sched_sync("pthread_create");
    return 0;
}
static Fiber* as_fiber(pthread_t t)
{
    for (auto* f : g_fibers)
        if (reinterpret_cast<pthread_t>(f) == t)
            return f;
    return nullptr;
}
int pthread_join(pthread_t t, void** r)
{
    if (!on())
    {
        REAL(pthread_join);
        return real_pthread_join(t, r);
    }
    sched_sync("pthread_join");
    Fiber* f = as_fiber(t);
    if (!f)
        return ESRCH;
    if (f == g_cur)
        return EDEADLK;
    if (f->detached)
        return EINVAL;
    while (f->state != FState::DEAD)
    {
        block_on(reinterpret_cast<uint64_t>(f), ~0ULL, "pthread_join");
        take_interrupt();
    }
    f->detached = true;
    hb_join(f);
    if (r)
        *r = f->ret;
    return 0;
}
int pthread_detach(pthread_t t) noexcept
{
    if (!on())
    {
        REAL(pthread_detach);
        return real_pthread_detach(t);
    }
    if (Fiber* f = as_fiber(t))
        f->detached = true;
    return 0;
}
pthread_t pthread_self() noexcept
{
    if (!on())
    {
        REAL(pthread_self);
        return real_pthread_self();
    }
    return reinterpret_cast<pthread_t>(g_cur);
}
int pthread_setname_np(pthread_t t, const char* n) noexcept
{
    if (!on())
        return 0;
    if (Fiber* f = as_fiber(t))
        f->name = n;
    return 0;
}
int pthread_getname_np(pthread_t t, char* b, size_t n) noexcept
{
    if (!on())
        return 0;
    if (Fiber* f = as_fiber(t))
        snprintf(b, n, "%s", f->name.c_str());
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
    if (!on())
    {
        REAL(pthread_mutex_init);
        return real_pthread_mutex_init(m, a);
    }
    sched_sync("mutex_init");
    if (int e = fault(C_pthread_mutex_init))
        return e == EINTR ? EAGAIN : e;
    MutexObj o;
    if (a)
    {
        int v = 0;
        pthread_mutexattr_gettype(a, &v);
        o.type = v;
        pthread_mutexattr_getrobust(a, &v);
        o.robust = v == PTHREAD_MUTEX_ROBUST;
        pthread_mutexattr_getpshared(a, &v);
        o.shared = v == PTHREAD_PROCESS_SHARED;
    }
    g_mutex[phys(m)] = o;
    memset(m, 0, sizeof(*m));
    m->__data.__kind = o.type;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    if (!on())
        return 0;
    auto it = g_mutex.find(phys(m));
    if (it != g_mutex.end())
    {
        if (it->second.owner)
            return EBUSY;
        g_mutex.erase(it);
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!on())
    {
        REAL(pthread_mutex_lock);
        return real_pthread_mutex_lock(m);
    }
    sched_sync("mutex_lock");
    return mutex_acquire(m, false, ~0ULL);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!on())
    {
        REAL(pthread_mutex_trylock);
        return real_pthread_mutex_trylock(m);
    }
    sched_sync("mutex_trylock");
    return mutex_acquire(m, true, 0);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept
{
    if (!on())
        return pthread_mutex_lock(m);
    sched_sync("mutex_timedlock");
    return mutex_acquire(m, false, abs_deadline(ts, false));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept
{
    if (!on())
        return pthread_mutex_lock(m);
    sched_sync("mutex_timedlock");
    return mutex_acquire(m, false, abs_deadline(ts, c != CLOCK_REALTIME));
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!on())
    {
        REAL(pthread_mutex_unlock);
        return real_pthread_mutex_unlock(m);
    }
    sched_sync("mutex_unlock");
    int r = mutex_release(m);
    return r;
}
int pthread_mutex_consistent(pthread_mutex_t* m) noexcept
{
    if (!on())
        return 0;
    MutexObj& o = g_mutex[phys(m)];
    if (!o.robust || o.owner != g_cur || !o.inconsistent)
        return EINVAL;
    o.inconsistent = false;
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept
{
    if (!on())
    {
        REAL(pthread_cond_init);
        return real_pthread_cond_init(c, a);
    }
    CondObj o;
    if (a)
    {
        clockid_t id = CLOCK_REALTIME;
        pthread_condattr_getclock(a, &id);
        o.mono = id != CLOCK_REALTIME;
    }
    g_cond[phys(c)] = o;
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if (!on())
        return 0;
    g_cond.erase(phys(c));
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
    sched_sync("cond_wait");
    uint64_t k = phys(c);
    g_cond[k];
    int r = mutex_release(m);
    if (r)
        return r;
    bool ok = block_on(k, deadline, "condition variable");
    take_interrupt();
    hb_acquire(g_cond[k].vc);
    r = mutex_acquire(m, false, ~0ULL);
    if (r)
        return r;
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on())
    {
        REAL(pthread_cond_wait);
        return real_pthread_cond_wait(c, m);
    }
    return cond_wait(c, m, ~0ULL);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!on())
    {
        REAL(pthread_cond_timedwait);
        return real_pthread_cond_timedwait(c, m, ts);
    }
    return cond_wait(c, m, abs_deadline(ts, g_cond[phys(c)].mono));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts)
{
    if (!on())
    {
        REAL(pthread_cond_clockwait);
        return real_pthread_cond_clockwait(c, m, id, ts);
    }
    return cond_wait(c, m, abs_deadline(ts, id != CLOCK_REALTIME));
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!on())
    {
        REAL(pthread_cond_signal);
        return real_pthread_cond_signal(c);
    }
    sched_sync("cond_signal");
    hb_release(g_cond[phys(c)].vc);
    wake_all(phys(c));
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return pthread_cond_signal(c); }

// ------------------------------------------------------------------------------------------------ semaphores
int sem_init(sem_t* s, int shared, unsigned v) noexcept
{
    if (!on())
    {
        REAL(sem_init);
        return real_sem_init(s, 0, v);
    }
    ENTER(sem_init);
    if (v > static_cast<unsigned>(SEM_VALUE_MAX))
    {
        errno = EINVAL;
        return -1;
    }
    SemObj o;
    o.value = v;
    o.shared = shared != 0;
    g_sem[phys(s)] = o;
    memset(s, 0, sizeof(*s));
    return 0;
}
int sem_destroy(sem_t* s) noexcept
{
    if (!on())
        return 0;
    sched_sync("sem_destroy");
    g_sem.erase(phys(s));
    return 0;
}
int sem_post(sem_t* s) noexcept
{
    if (!on())
    {
        REAL(sem_post);
        return real_sem_post(s);
    }
    sched_sync("sem_post");
    SemObj& o = sem_of(s);
    if (o.value >= SEM_VALUE_MAX)
    {
        errno = EOVERFLOW;
        return -1;
    }
    o.value++;
    hb_release(o.vc);
    wake_all(sem_key(s));
    return 0;
}
int sem_wait(sem_t* s)
{
    if (!on())
    {
        REAL(sem_wait);
        return real_sem_wait(s);
    }
    ENTER(sem_wait);
    return sem_do_wait(s, false, ~0ULL);
}
int sem_trywait(sem_t* s) noexcept
{
    if (!on())
    {
        REAL(sem_trywait);
        return real_sem_trywait(s);
    }
    sched_sync("sem_trywait");
    return sem_do_wait(s, true, 0);
}
int sem_timedwait(sem_t* s, const struct timespec* ts)
{
    if (!on())
    {
        REAL(sem_timedwait);
        return real_sem_timedwait(s, ts);
    }
    ENTER(sem_timedwait);
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L)
    {
        errno = EINVAL;
        return -1;
    }
    return sem_do_wait(s, false, abs_deadline(ts, false));
}
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts)
{
    if (!on())
    {
        errno = ENOSYS;
        return -1;
    }
    ENTER(sem_timedwait);
    return sem_do_wait(s, false, abs_deadline(ts, c != CLOCK_REALTIME));
}
int sem_getvalue(sem_t* s, int* v) noexcept
{
    if (!on())
    {
        REAL(sem_getvalue);
        return real_sem_getvalue(s, v);
    }
    sched_sync("sem_getvalue");
    *v = static_cast<int>(sem_of(s).value);
    return 0;
}
sem_t* sem_open(const char* n, int fl, ...) noexcept
{
    if (!on())
    {
        errno = ENOSYS;
        return SEM_FAILED;
    }
    mode_t mode = 0;
    unsigned v = 0;
    if (fl & O_CREAT)
    {
        va_list ap;
        va_start(ap, fl);
        mode = va_arg(ap, mode_t);
        v = va_arg(ap, unsigned);
        va_end(ap);
    }
    sched_sync("sem_open");
    if (int e = fault(C_sem_open))
    {
        errno = e;
        return SEM_FAILED;
    }
    std::string name = std::string("/dev/shm/sem.") + (n[0] == '/' ? n + 1 : n);
    auto it = g_fs.find(name);
    FileNode* node;
    if (it == g_fs.end())
    {
        if (!(fl & O_CREAT))
        {
            errno = ENOENT;
            return SEM_FAILED;
        }
        if (v > static_cast<unsigned>(SEM_VALUE_MAX))
        {
            errno = EINVAL;
            return SEM_FAILED;
        }
        node = new_node(NType::SEM, name, mode);
        node->sem.value = v;
    }
    else
    {
        if ((fl & O_CREAT) && (fl & O_EXCL))
        {
            errno = EEXIST;
            return SEM_FAILED;
        }
        node = it->second;
    }
    auto* s = static_cast<sem_t*>(calloc(1, sizeof(sem_t)));
    char b[32];
    snprintf(b, sizeof(b), "%p", static_cast<void*>(s));
    g_cur->proc->namedSems[b] = node;
    return s;
}
int sem_close(sem_t* s) noexcept
{
    if (!on())
        return 0;
    sched_sync("sem_close");
    char b[32];
    snprintf(b, sizeof(b), "%p", static_cast<void*>(s));
    if (!g_cur->proc->namedSems.erase(b))
    {
        errno = EINVAL;
        return -1;
    }
    return 0;
}
int sem_unlink(const char* n) noexcept
{
    if (!on())
        return 0;
    sched_sync("sem_unlink");
    std::string name = std::string("/dev/shm/sem.") + (n[0] == '/' ? n + 1 : n);
    auto it = g_fs.find(name);
    if (it == g_fs.end())
    {
        errno = ENOENT;
        return -1;
    }
    g_fs.erase(it);
    return 0;
}

// ------------------------------------------------------------------------------------------------ files
static int do_open(const std::string& path, NType t, int fl, mode_t mode)
{
    auto it = g_fs.find(path);
    FileNode* n;
    if (it == g_fs.end())
    {
        if (!(fl & O_CREAT))
        {
            errno = ENOENT;
            return -1;
        }
        n = new_node(t, path, mode);
        if (t == NType::SHM)
        {
            n->memfd = static_cast<int>(syscall(SYS_memfd_create, "simshm", 0));
            n->key = g_nextKey;
            g_nextKey += 1ULL << 36;
        }
    }
    else
    {
        n = it->second;
        if ((fl & O_CREAT) && (fl & O_EXCL))
        {
            errno = EEXIST;
            return -1;
        }
        if (n->type == NType::SOCK)
        {
            errno = ENXIO;
            return -1;
        }
        // permission of the owner
        int acc = fl & O_ACCMODE;
        if ((acc != O_WRONLY && !(n->mode & 0400)) || (acc != O_RDONLY && !(n->mode & 0200)))
        {
            errno = EACCES;
            return -1;
        }
        if ((fl & O_TRUNC) && acc != O_RDONLY)
        {
            n->data.clear();
            n->size = 0;
            if (n->memfd >= 0)
                (void)!syscall(SYS_ftruncate, n->memfd, 0);
        }
    }
    hb_acquire(n->vc);
    hb_release(n->vc);
    auto* o = new OpenFile;
    o->node = n;
    o->flags = fl;
    return new_fd(o);
}
int open(const char* p, int fl, ...)
{
    mode_t mode = 0;
    if (fl & (O_CREAT | O_TMPFILE))
    {
        va_list ap;
        va_start(ap, fl);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (!on_app())
        return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, mode));
    ENTER(open);
    return do_open(p, NType::REG, fl, mode);
}
int open64(const char* p, int fl, ...)
{
    mode_t mode = 0;
    va_list ap;
    va_start(ap, fl);
    mode = va_arg(ap, mode_t);
    va_end(ap);
    return open(p, fl, mode);
}
int shm_open(const char* n, int fl, mode_t mode)
{
    if (!on())
    {
        errno = ENOSYS;
        return -1;
    }
    ENTER(shm_open);
    return do_open(std::string("/dev/shm/") + (n[0] == '/' ? n + 1 : n), NType::SHM, fl, mode);
}
int shm_unlink(const char* n)
{
    if (!on())
    {
        errno = ENOSYS;
        return -1;
    }
    ENTER(shm_unlink);
    auto it = g_fs.find(std::string("/dev/shm/") + (n[0] == '/' ? n + 1 : n));
    if (it == g_fs.end())
    {
        errno = ENOENT;
        return -1;
    }
    it->second->linked = false;
    g_fs.erase(it);
    return 0;
}
int close(int fd)
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_close, fd));
    ENTER(close);
    OpenFile* o = get_fd(fd);
    if (!o)
    {
        errno = EBADF;
        return -1;
    }
    g_cur->proc->fds.erase(fd);
    release_open(o);
    return 0;
}
int unlink(const char* p) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
    ENTER(unlink);
    auto it = g_fs.find(p);
    if (it == g_fs.end())
    {
        errno = ENOENT;
        return -1;
    }
    it->second->linked = false;
    g_fs.erase(it);
    return 0;
}
int remove(const char* p) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
    return unlink(p);
}
int access(const char* p, int) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_faccessat, AT_FDCWD, p, 0));
    ENTER(access);
    if (g_fs.count(p))
        return 0;
    errno = ENOENT;
    return -1;
}
static int fill_stat(OpenFile* o, struct stat* st)
{
    memset(st, 0, sizeof(*st));
    FileNode* n = o->node;
    st->st_mode = n ? (n->mode | (n->type == NType::SOCK ? S_IFSOCK : S_IFREG)) : (S_IFSOCK | 0777);
    st->st_size = n ? static_cast<off_t>(n->type == NType::SHM ? n->size : n->data.size()) : 0;
    st->st_uid = n ? static_cast<uid_t>(n->uid) : 1000;
    st->st_gid = n ? static_cast<gid_t>(n->gid) : 1000;
    st->st_nlink = n && n->linked ? 1 : 0;
    return 0;
}
int fstat(int fd, struct stat* st) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_fstat, fd, st));
    ENTER(fstat);
    OpenFile* o = get_fd(fd);
    if (!o)
    {
        errno = EBADF;
        return -1;
    }
    return fill_stat(o, st);
}
int stat(const char* p, struct stat* st) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, p, st, 0));
    sched_sync("stat");
    auto it = g_fs.find(p);
    if (it == g_fs.end())
    {
        errno = ENOENT;
        return -1;
    }
    OpenFile o;
    o.node = it->second;
    return fill_stat(&o, st);
}
int fchmod(int fd, mode_t m) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_fchmod, fd, m));
    ENTER(fchmod);
    OpenFile* o = get_fd(fd);
    if (!o)
    {
        errno = EBADF;
        return -1;
    }
    if (o->node)
        o->node->mode = m & 07777;
    return 0;
}
int fchown(int fd, uid_t u, gid_t g) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_fchown, fd, u, g));
    ENTER(fchown);
    OpenFile* o = get_fd(fd);
    if (!o)
    {
        errno = EBADF;
        return -1;
    }
    if (o->node && u != static_cast<uid_t>(-1))
        o->node->uid = static_cast<int>(u);
    if (o->node && g != static_cast<gid_t>(-1))
        o->node->gid = static_cast<int>(g);
    return 0;
}
int ftruncate(int fd, off_t len) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_ftruncate, fd, len));
    ENTER(ftruncate);
    OpenFile* o = get_fd(fd);
    if (!o || !o->node)
    {
        errno = EBADF;
        return -1;
    }
    if (len < 0)
    {
        errno = EINVAL;
        return -1;
    }
    if (o->node->type == NType::SHM)
    {
        if (syscall(SYS_ftruncate, o->node->memfd, len) != 0)
            return -1;
        o->node->size = static_cast<size_t>(len);
    }
    else
        o->node->data.resize(static_cast<size_t>(len));
    return 0;
}
int ftruncate64(int fd, off_t len) noexcept { return ftruncate(fd, len); }
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!on_app())
        return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
    ENTER(fcntl);
    OpenFile* o = get_fd(fd);
    if (!o)
    {
        errno = EBADF;
        return -1;
    }
    if (cmd == F_GETFL)
        return o->flags;
    if (cmd == F_SETFL)
        o->flags = (o->flags & O_ACCMODE) | static_cast<int>(arg);
    return 0;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}
off_t lseek(int fd, off_t off, int wh) noexcept
{
    if (!on_app())
        return syscall(SYS_lseek, fd, off, wh);
    ENTER(lseek);
    OpenFile* o = get_fd(fd);
    if (!o || !o->node)
    {
        errno = EBADF;
        return -1;
    }
    size_t sz = o->node->type == NType::SHM ? o->node->size : o->node->data.size();
    long np = wh == SEEK_SET ? off : wh == SEEK_CUR ? static_cast<long>(o->pos) + off : static_cast<long>(sz) + off;
    if (np < 0)
    {
        errno = EINVAL;
        return -1;
    }
    o->pos = static_cast<size_t>(np);
    return np;
}
off_t lseek64(int fd, off_t off, int wh) noexcept { return lseek(fd, off, wh); }
ssize_t read(int fd, void* b, size_t n)
{
    if (!on_app())
        return syscall(SYS_read, fd, b, n);
    ENTER(read);
    OpenFile* o = get_fd(fd);
    if (!o || !o->node || (o->flags & O_ACCMODE) == O_WRONLY)
    {
        errno = EBADF;
        return -1;
    }
    auto& d = o->node->data;
    hb_acquire(o->node->vc);
    if (o->pos >= d.size())
        return 0;
    size_t k = std::min(n, d.size() - o->pos);
    // a read may be short
    if (k > 1 && g_faultsOn && sim_chance(50))
        k = 1 + sim_choose(static_cast<uint32_t>(k));
    memcpy(b, d.data() + o->pos, k);
    o->pos += k;
    return static_cast<ssize_t>(k);
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (!on_app())
        return syscall(SYS_write, fd, b, n);
    if (fd == 1 || fd == 2)
    {
        sched_sync("write");
        return static_cast<ssize_t>(n);
    }
    ENTER(write);
    OpenFile* o = get_fd(fd);
    if (!o || !o->node || (o->flags & O_ACCMODE) == O_RDONLY)
    {
        errno = EBADF;
        return -1;
    }
    auto& d = o->node->data;
    if (n > 1 && g_faultsOn && sim_chance(50))
        n = 1 + sim_choose(static_cast<uint32_t>(n));
    if (o->flags & O_APPEND)
        o->pos = d.size();
    if (d.size() < o->pos + n)
        d.resize(o->pos + n);
    memcpy(d.data() + o->pos, b, n);
    o->pos += n;
    hb_release(o->node->vc);
    return static_cast<ssize_t>(n);
}
int flock(int fd, int op) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_flock, fd, op));
    ENTER(flock);
    OpenFile* o = get_fd(fd);
    if (!o || !o->node)
    {
        errno = EBADF;
        return -1;
    }
    FileNode* n = o->node;
    if ((op & ~LOCK_NB) == LOCK_UN)
    {
        drop_locks(o);
        return 0;
    }
    bool ex = (op & ~LOCK_NB) == LOCK_EX;
    while (true)
    {
        bool free = ex ? (!n->lockEx || n->lockEx == o) && (n->lockSh.empty() || (n->lockSh.size() == 1 && n->lockSh.count(o)))
                       : (!n->lockEx || n->lockEx == o);
        if (free)
        {
            n->lockSh.erase(o);
            if (n->lockEx == o)
                n->lockEx = nullptr;
            if (ex)
                n->lockEx = o;
            else
                n->lockSh.insert(o);
            hb_acquire(n->vc);
            return 0;
        }
        if (op & LOCK_NB)
        {
            errno = EWOULDBLOCK;
            return -1;
        }
        block_on(reinterpret_cast<uint64_t>(n), ~0ULL, "flock");
        if (take_interrupt())
        {
            errno = EINTR;
            return -1;
        }
    }
}

// ------------------------------------------------------------------------------------------------ memory
void* mmap(void* a, size_t len, int prot, int fl, int fd, off_t off) noexcept
{
    if (!on_app() || fd < 0 || (fl & MAP_ANONYMOUS))
        return reinterpret_cast<void*>(syscall(SYS_mmap, a, len, prot, fl, fd, off));
    sched_sync("mmap");
    if (int e = fault(C_mmap))
    {
        errno = e;
        return MAP_FAILED;
    }
    OpenFile* o = get_fd(fd);
    if (!o || !o->node || o->node->type != NType::SHM)
    {
        errno = EBADF;
        return MAP_FAILED;
    }
    if (len == 0)
    {
        errno = EINVAL;
        return MAP_FAILED;
    }
    if ((prot & PROT_WRITE) && (o->flags & O_ACCMODE) == O_RDONLY)
    {
        errno = EACCES;
        return MAP_FAILED;
    }
    if ((fl & MAP_FIXED) && a)
    {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    size_t n = (len + ARENA_SLOT - 1) / ARENA_SLOT;
    if (g_nextSlot + n > ARENA_SLOTS)
        g_nextSlot = 0;
    for (size_t tries = 0; tries < ARENA_SLOTS; ++tries)
    {
        bool free = g_nextSlot + n <= ARENA_SLOTS;
        for (size_t i = 0; free && i < n; ++i)
            free = g_slotKey[g_nextSlot + i] == 0;
        if (free)
            break;
        g_nextSlot = (g_nextSlot + 1) % (ARENA_SLOTS - n + 1);
    }
    uintptr_t addr = g_arena + g_nextSlot * ARENA_SLOT;
    long r = syscall(SYS_mmap, addr, len, prot, MAP_SHARED | MAP_FIXED, o->node->memfd, off);
    if (static_cast<uintptr_t>(r) != addr)
        return MAP_FAILED;
    bool track = o->node->name.find("management") == std::string::npos && o->node->name.find("iox1_") != std::string::npos && o->node->size <= (1 << 20);
    for (size_t i = 0; i < n; ++i)
    {
        g_slotKey[g_nextSlot + i] = o->node->key + static_cast<uint64_t>(off) + i * ARENA_SLOT;
        g_slotTracked[g_nextSlot + i] = track;
    }
    if (track)
        ensure_tracked(o->node);
    g_nextSlot += n;
    g_cur->proc->maps[addr] = len;
    return reinterpret_cast<void*>(addr);
}
void* mmap64(void* a, size_t len, int prot, int fl, int fd, off_t off) noexcept { return mmap(a, len, prot, fl, fd, off); }
int munmap(void* a, size_t len) noexcept
{
    uintptr_t x = reinterpret_cast<uintptr_t>(a);
    if (!on_app() || x - g_arena >= ARENA_SLOT * ARENA_SLOTS)
        return static_cast<int>(syscall(SYS_munmap, a, len));
    ENTER(munmap);
    auto it = g_cur->proc->maps.find(x);
    if (it == g_cur->proc->maps.end())
    {
        errno = EINVAL;
        return -1;
    }
    unmap_slot(x, it->second);
    g_cur->proc->maps.erase(it);
    return 0;
}

// ------------------------------------------------------------------------------------------------ sockets
int socket(int d, int t, int p) noexcept
{
    if (!on_app())
        return static_cast<int>(syscall(SYS_socket, d, t, p));
    ENTER(socket);
    auto* o = new OpenFile;
    o->isSock = true;
    o->flags = O_RDWR;
    o->maker = g_cur->proc;
    return new_fd(o);
}
int setsockopt(int fd, int, int opt, const void* v, socklen_t) noexcept
{
    if (!on_app())
        return -1;
    ENTER(setsockopt);
    OpenFile* o = get_fd(fd);
    if (!o || !o->isSock)
    {
        errno = o ? ENOTSOCK : EBADF;
        return -1;
    }
    auto* tv = static_cast<const struct timeval*>(v);
    if (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)
    {
        if (tv->tv_usec < 0 || tv->tv_usec >= 1000000)
        {
            errno = EDOM;
            return -1;
        }
        uint64_t ns = tv->tv_sec < 0 ? 1 : static_cast<uint64_t>(tv->tv_sec) * 1000000000ULL + static_cast<uint64_t>(tv->tv_usec) * 1000ULL;
        (opt == SO_RCVTIMEO ? o->rcvTo : o->sndTo) = ns;
    }
    return 0;
}
int bind(int fd, const struct sockaddr* sa, socklen_t) noexcept
{
    if (!on_app())
        return -1;
    ENTER(bind);
    OpenFile* o = get_fd(fd);
    if (!o || !o->isSock)
    {
        errno = EBADF;
        return -1;
    }
    std::string path = reinterpret_cast<const sockaddr_un*>(sa)->sun_path;
    if (o->node)
    {
        errno = EINVAL;
        return -1;
    }
    if (g_fs.count(path))
    {
        errno = EADDRINUSE;
        return -1;
    }
    o->node = new_node(NType::SOCK, path, 0777);
    o->node->sock = o;
    return 0;
}
static OpenFile* resolve(const std::string& path)
{
    auto it = g_fs.find(path);
    if (it == g_fs.end())
    {
        errno = ENOENT;
        return nullptr;
    }
    if (it->second->type != NType::SOCK || !it->second->sock)
    {
        errno = ECONNREFUSED;
        return nullptr;
    }
    return it->second->sock;
}
int connect(int fd, const struct sockaddr* sa, socklen_t)
{
    if (!on_app())
        return -1;
    ENTER(connect);
    OpenFile* o = get_fd(fd);
    if (!o || !o->isSock)
    {
        errno = EBADF;
        return -1;
    }
    OpenFile* p = resolve(reinterpret_cast<const sockaddr_un*>(sa)->sun_path);
    if (!p)
        return -1;
    o->peer = p;
    return 0;
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* sa, socklen_t)
{
    if (!on_app())
        return -1;
    ENTER(sendto);
    OpenFile* o = get_fd(fd);
    if (!o || !o->isSock)
    {
        errno = o ? ENOTSOCK : EBADF;
        return -1;
    }
    OpenFile* p = o->peer;
    if (sa)
    {
        p = resolve(reinterpret_cast<const sockaddr_un*>(sa)->sun_path);
        if (!p)
            return -1;
    }
    if (!p)
    {
        errno = ENOTCONN;
        return -1;
    }
    if (n > 212992)
    {
        errno = EMSGSIZE;
        return -1;
    }
    uint64_t end = o->sndTo ? g_time + o->sndTo : ~0ULL;
    while (true)
    {
        if (p->closed)
        {
            errno = ECONNREFUSED;
            return -1;
        }
        if (static_cast<int>(p->rq.size()) < g_dgramQlen)
            break;
        if (fl & MSG_DONTWAIT)
        {
            errno = EAGAIN;
            return -1;
        }
        bool ok = block_on(reinterpret_cast<uint64_t>(p) + 1, end, "sendto");
        if (take_interrupt())
        {
            errno = EINTR;
            return -1;
        }
        if (!ok && !p->closed && static_cast<int>(p->rq.size()) >= g_dgramQlen)
        {
            errno = EAGAIN;
            return -1;
        }
    }
    p->rq.emplace_back();
    p->rq.back().data.assign(static_cast<const char*>(b), n);
    hb_release(p->rq.back().vc);
    if (p->maker)
        p->maker->dgramsIn++;
    if (g_cfg.verbose)
        sim_note("send -> %s: %.120s", p->node ? p->node->name.c_str() : "?", std::string(static_cast<const char*>(b), strnlen(static_cast<const char*>(b), n)).c_str());
    wake_all(reinterpret_cast<uint64_t>(p));
    return static_cast<ssize_t>(n);
}
ssize_t send(int fd, const void* b, size_t n, int fl) { return sendto(fd, b, n, fl, nullptr, 0); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*)
{
    if (!on_app())
        return -1;
    ENTER(recvfrom);
    OpenFile* o = get_fd(fd);
    if (!o || !o->isSock)
    {
        errno = o ? ENOTSOCK : EBADF;
        return -1;
    }
    uint64_t end = o->rcvTo ? g_time + o->rcvTo : ~0ULL;
    while (o->rq.empty())
    {
        if (fl & MSG_DONTWAIT)
        {
            errno = EAGAIN;
            return -1;
        }
        bool ok = block_on(reinterpret_cast<uint64_t>(o), end, "recvfrom");
        if (take_interrupt())
        {
            errno = EINTR;
            return -1;
        }
        if (o->closed)
        {
            errno = EBADF;
            return -1;
        }
        if (!ok && o->rq.empty())
        {
            errno = EAGAIN;
            return -1;
        }
    }
    Msg m = std::move(o->rq.front());
    o->rq.pop_front();
    hb_acquire(m.vc);
    wake_all(reinterpret_cast<uint64_t>(o) + 1);
    size_t k = std::min(n, m.data.size());
    memcpy(b, m.data.data(), k);
    return static_cast<ssize_t>(fl & MSG_TRUNC ? m.data.size() : k);
}
ssize_t recv(int fd, void* b, size_t n, int fl) { return recvfrom(fd, b, n, fl, nullptr, nullptr); }

// ------------------------------------------------------------------------------------------------ message queues
mqd_t mq_open(const char* n, int fl, ...) noexcept
{
    if (!on_app())
        return -1;
    mode_t mode = 0;
    struct mq_attr* at = nullptr;
    if (fl & O_CREAT)
    {
        va_list ap;
        va_start(ap, fl);
        mode = va_arg(ap, mode_t);
        at = va_arg(ap, struct mq_attr*);
        va_end(ap);
    }
    ENTER(mq_open);
    if (n[0] != '/')
    {
        errno = EINVAL;
        return -1;
    }
    std::string path = std::string("/dev/mqueue") + n;
    bool existed = g_fs.count(path);
    if (!existed && (fl & O_CREAT) && at && (at->mq_maxmsg <= 0 || at->mq_maxmsg > 10 || at->mq_msgsize <= 0 || at->mq_msgsize > 8192))
    {
        errno = EINVAL;
        return -1;
    }
    int fd = do_open(path, NType::MQ, fl, mode);
    if (fd >= 0 && !existed && at)
    {
        OpenFile* o = get_fd(fd);
        o->node->maxmsg = at->mq_maxmsg;
        o->node->msgsize = at->mq_msgsize;
    }
    return fd;
}
int mq_close(mqd_t d) noexcept { return on_app() ? close(d) : -1; }
int mq_unlink(const char* n) noexcept
{
    if (!on_app())
        return -1;
    return unlink((std::string("/dev/mqueue") + n).c_str());
}
int mq_getattr(mqd_t d, struct mq_attr* a) noexcept
{
    OpenFile* o = on_app() ? get_fd(d) : nullptr;
    if (!o || !o->node)
    {
        errno = EBADF;
        return -1;
    }
    memset(a, 0, sizeof(*a));
    a->mq_flags = o->flags & O_NONBLOCK;
    a->mq_maxmsg = o->node->maxmsg;
    a->mq_msgsize = o->node->msgsize;
    a->mq_curmsgs = static_cast<long>(o->node->q.size());
    return 0;
}
static int mq_do_send(mqd_t d, const char* b, size_t n, unsigned prio, uint64_t end)
{
    ENTER(mq_send);
    OpenFile* o = get_fd(d);
    if (!o || !o->node || (o->flags & O_ACCMODE) == O_RDONLY)
    {
        errno = EBADF;
        return -1;
    }
    if (static_cast<long>(n) > o->node->msgsize)
    {
        errno = EMSGSIZE;
        return -1;
    }
    while (static_cast<long>(o->node->q.size()) >= o->node->maxmsg)
    {
        if (o->flags & O_NONBLOCK)
        {
            errno = EAGAIN;
            return -1;
        }
        bool ok = block_on(reinterpret_cast<uint64_t>(o->node) + 1, end, "mq_send");
        if (take_interrupt())
        {
            errno = EINTR;
            return -1;
        }
        if (!ok && static_cast<long>(o->node->q.size()) >= o->node->maxmsg)
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    Msg m;
    m.data.assign(b, n);
    m.prio = prio;
    hb_release(m.vc);
    auto it = o->node->q.begin();
    while (it != o->node->q.end() && it->prio >= prio)
        ++it;
    o->node->q.insert(it, std::move(m));
    wake_all(reinterpret_cast<uint64_t>(o->node));
    return 0;
}
static ssize_t mq_do_recv(mqd_t d, char* b, size_t n, unsigned* prio, uint64_t end)
{
    ENTER(mq_receive);
    OpenFile* o = get_fd(d);
    if (!o || !o->node || (o->flags & O_ACCMODE) == O_WRONLY)
    {
        errno = EBADF;
        return -1;
    }
    if (static_cast<long>(n) < o->node->msgsize)
    {
        errno = EMSGSIZE;
        return -1;
    }
    while (o->node->q.empty())
    {
        if (o->flags & O_NONBLOCK)
        {
            errno = EAGAIN;
            return -1;
        }
        bool ok = block_on(reinterpret_cast<uint64_t>(o->node), end, "mq_receive");
        if (take_interrupt())
        {
            errno = EINTR;
            return -1;
        }
        if (!ok && o->node->q.empty())
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    Msg m = std::move(o->node->q.front());
    o->node->q.pop_front();
    hb_acquire(m.vc);
    wake_all(reinterpret_cast<uint64_t>(o->node) + 1);
    memcpy(b, m.data.data(), m.data.size());
    if (prio)
        *prio = m.prio;
    return static_cast<ssize_t>(m.data.size());
}
int mq_send(mqd_t d, const char* b, size_t n, unsigned p) { return on_app() ? mq_do_send(d, b, n, p, ~0ULL) : -1; }
int mq_timedsend(mqd_t d, const char* b, size_t n, unsigned p, const struct timespec* ts) { return on_app() ? mq_do_send(d, b, n, p, abs_deadline(ts, false)) : -1; }
ssize_t mq_receive(mqd_t d, char* b, size_t n, unsigned* p) { return on_app() ? mq_do_recv(d, b, n, p, ~0ULL) : -1; }
ssize_t mq_timedreceive(mqd_t d, char* b, size_t n, unsigned* p, const struct timespec* ts) { return on_app() ? mq_do_recv(d, b, n, p, abs_deadline(ts, false)) : -1; }
}
namespace sim
{
static void ensure_tracked(FileNode* n)
{
    static auto& done = *new std::set<uint64_t>; // (a local static object would be destroyed by the first simulated process that ends)
    if (done.insert(n->key).second)
        mem_track_object(n->key, n->size, 0, n->name.c_str());
}
} // namespace sim
