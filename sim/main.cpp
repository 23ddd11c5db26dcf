#include <exception>
// Driver: seeded search over simulated runs, minimisation, replay, evidence.
#include "simint.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{
extern Instance* g_loading;
extern std::string g_decOut;
extern const char* const g_callNames[NFAULT];
void mem_init();

static std::vector<Scenario>& scns()
{
    static auto* v = new std::vector<Scenario>;
    return *v;
}
void register_scenario(const Scenario& s) { scns().push_back(s); }
const Scenario* find_scenario(const std::string& n)
{
    for (auto& s : scns())
        if (n == s.name)
            return &s;
    return nullptr;
}

static std::string g_dir = ".";
static std::map<std::string, std::vector<Instance>> g_loaded;

static void load_harness(const std::string& h, int copies)
{
    auto& v = g_loaded[h];
    while (static_cast<int>(v.size()) < copies)
    {
        std::string path = g_dir + "/inst/" + h + "." + std::to_string(v.size()) + ".so";
        Instance in;
        v.push_back(in);
        // __cxa_atexit during static initialisation is recorded with the instance
        static Instance tmp;
        tmp = Instance{};
        g_loading = &tmp;
        void* hd = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        g_loading = nullptr;
        if (!hd)
        {
            fprintf(stderr, "ioxsim: %s\n", dlerror());
            _exit(3);
        }
        tmp.handle = hd;
        tmp.entry = reinterpret_cast<void (*)(int, const int64_t*)>(dlsym(hd, "harness_main"));
        if (!tmp.entry)
        {
            fprintf(stderr, "ioxsim: %s has no harness_main\n", path.c_str());
            _exit(3);
        }
        v.back() = tmp;
    }
}
static int copies_for(const std::string& h)
{
    if (h == "comp_conc")
        return 1;
    return h.compare(0, 5, "comp_") == 0 ? 6 : 14;
}

static void segv(int sig, siginfo_t* si, void* uc)
{
    (void)si;
    if (!g_active || !g_cur)
    {
        const char m[] = "ioxsim: crash outside of a run\n";
        (void)!::write(2, m, sizeof(m) - 1);
        signal(sig, SIG_DFL);
        syscall(SYS_exit_group, 139);
    }
    if (sig == SIGALRM)
    {
        snprintf(g_res->msg, sizeof(g_res->msg), "wall clock limit of a single run; %s", describe_state().c_str());
        finish_run(2);
    }
    auto* c = static_cast<ucontext_t*>(uc);
    std::string w = std::string(strsignal(sig)) + " in process " + g_cur->proc->name + " thread " + g_cur->name + " at ";
    w += backtrace_str(reinterpret_cast<void*>(c->uc_mcontext.gregs[REG_RIP]), reinterpret_cast<void*>(c->uc_mcontext.gregs[REG_RBP]));
    violation(g_cur->proc->idx == 0 ? "*:sim" : "*:segv", w);
}
static void install_handlers()
{
    static char alt[1 << 16];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof(alt);
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = segv;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM})
        sigaction(s, &sa, nullptr);
}

// executes one run in a forked child
static void run_child(const RunCfg& cfg, Result* res, const std::string& decOut)
{
    g_cfg = cfg;
    g_res = res;
    memset(res, 0, sizeof(*res));
    res->status = 3;
    snprintf(res->msg, sizeof(res->msg), "run ended without a result");
    g_decOut = decOut;
    install_handlers();
    itimerval it{};
    it.it_value.tv_sec = cfg.verbose ? 600 : 40;
    setitimer(ITIMER_REAL, &it, nullptr);
    const Scenario* s = find_scenario(cfg.scn);
    auto& v = g_loaded[s->harness];
    g_instances = v;
    default_knobs();
    s->configure();
    g_cfg.tickBudget = std::max<uint64_t>(g_cfg.tickBudget, 1);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    run_controller(s->controller);
}
static Result* new_result()
{
    return static_cast<Result*>(mmap(nullptr, (sizeof(Result) + 4095) & ~4095UL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}
static void fix_status(Result* r, int st)
{
    if (r->status == 3 && WIFSIGNALED(st))
    {
        snprintf(r->msg, sizeof(r->msg), "simulator child killed by signal %d", WTERMSIG(st));
    }
}
static void run_once(const RunCfg& cfg, Result* res, const std::string& decOut)
{
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0)
        run_child(cfg, res, decOut);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    fix_status(res, st);
}

// ------------------------------------------------------------------------------------------------ known findings
struct Known
{
    std::string prop, tag, match, what;
};
static std::vector<Known> g_known;
static void load_known(const std::string& f)
{
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l))
    {
        // known: property=P06 tag=P06:x match="..." what
        if (l.compare(0, 6, "known:") != 0)
            continue;
        Known k;
        auto get = [&l](const std::string& key) {
            auto p = l.find(key + "=");
            if (p == std::string::npos)
                return std::string();
            p += key.size() + 1;
            if (l[p] == '"')
            {
                auto e = l.find('"', p + 1);
                return l.substr(p + 1, e - p - 1);
            }
            auto e = l.find(' ', p);
            return l.substr(p, e - p);
        };
        k.prop = get("property");
        k.tag = get("tag");
        k.match = get("match");
        k.what = get("what");
        g_known.push_back(k);
    }
}
static int known_index(const std::string& prop, const Result* r)
{
    for (size_t i = 0; i < g_known.size(); ++i)
        if ((g_known[i].prop == prop) && g_known[i].tag == r->tag && strstr(r->msg, g_known[i].match.c_str()))
            return static_cast<int>(i);
    return -1;
}

// ------------------------------------------------------------------------------------------------ shared statistics
constexpr size_t HSET = 1 << 22;
struct Stats
{
    std::atomic<uint64_t> next, runs, inconclusive, simErrors, foreign, knownHits[16];
    std::atomic<uint64_t> ticks, atomics, switches, simNs, syscalls, stale, decisions, fibers, procs, crashes, stalls, late, preempted;
    std::atomic<uint64_t> faults[NFAULT];
    std::atomic<uint64_t> distinct, distinctNT, covered, recheck, nondet;
    std::atomic<int> stop;
    std::atomic<uint64_t> violSeed;
    std::atomic<int> violScn;
    std::atomic<uint64_t> set[HSET];
    std::atomic<uint64_t> cov[1 << 16];
    std::atomic<int> lock;
    struct { char name[24]; int64_t n; } counts[64];
    uint32_t ncounts;
    char incMsg[1024];
    char forMsg[1024];
    char errMsg[1024];
    uint64_t perScn[64];
    uint64_t perScnNs[64];
    char sample[4][400];
};
static Stats* g_st = nullptr;
static bool insert(std::atomic<uint64_t>* t, size_t n, uint64_t h)
{
    if (h == 0)
        h = 1;
    size_t i = (h * 0x9E3779B97F4A7C15ULL) >> 20 & (n - 1);
    for (size_t k = 0; k < 64; ++k, i = (i + 1) & (n - 1))
    {
        uint64_t e = t[i].load(std::memory_order_relaxed);
        if (e == h)
            return false;
        if (e == 0)
        {
            uint64_t z = 0;
            if (t[i].compare_exchange_strong(z, h))
                return true;
            if (z == h)
                return false;
        }
    }
    return false;
}
static void lock() { while (g_st->lock.exchange(1)) usleep(10); }
static void unlock() { g_st->lock.store(0); }

static uint64_t mix64(uint64_t a, uint64_t b)
{
    Rng r;
    r.seed(a * 0x100000001b3ULL ^ b);
    r.next();
    return r.next() >> 8;
}

static bool save_replay(const std::string& file, const RunCfg& c, const Result* r, const std::vector<Decision>& d, const char* mode)
{
    FILE* o = fopen(file.c_str(), "w");
    if (!o)
        return false;
    fprintf(o, "IOXSIM-REPLAY 1\nprop %s\nscn %s\nseed %lu\nmode %s\ntag %s\nhash %lx\n", c.prop.c_str(), c.scn.c_str(), static_cast<unsigned long>(c.seed), mode, r->tag,
            static_cast<unsigned long>(r->hash));
    for (auto& p : c.params)
        fprintf(o, "param %s %ld\n", p.first.c_str(), static_cast<long>(p.second));
    std::string m = r->msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    fprintf(o, "# violation: %s\n", m.c_str());
    std::string t = r->trace;
    fprintf(o, "# end of the history: %s\n", t.c_str());
    static const char* kinds[] = {"sched", "stale", "choice", "fault", "slack", "stall", "wake"};
    for (auto& x : d)
        fprintf(o, "D %d %d %lu %ld # %s\n", x.kind, x.fiber, static_cast<unsigned long>(x.counter), static_cast<long>(x.value), kinds[x.kind]);
    fclose(o);
    return true;
}
static std::vector<Decision> load_decisions(const std::string& file)
{
    std::vector<Decision> v;
    std::ifstream in(file);
    std::string l;
    while (std::getline(in, l))
        if (l.size() > 2 && l[0] == 'D' && l[1] == ' ')
        {
            Decision d;
            unsigned long c;
            long val;
            if (sscanf(l.c_str(), "D %d %d %lu %ld", &d.kind, &d.fiber, &c, &val) == 4)
            {
                d.counter = c;
                d.value = val;
                v.push_back(d);
            }
        }
    return v;
}
static bool load_replay(const std::string& file, RunCfg& c, std::string& tag, uint64_t& hash)
{
    std::ifstream in(file);
    std::string l;
    if (!std::getline(in, l) || l != "IOXSIM-REPLAY 1")
        return false;
    while (std::getline(in, l))
    {
        std::istringstream is(l);
        std::string k;
        is >> k;
        if (k == "prop")
            is >> c.prop;
        else if (k == "scn")
            is >> c.scn;
        else if (k == "seed")
            is >> c.seed;
        else if (k == "mode")
        {
            std::string m;
            is >> m;
            c.replay = m == "decisions";
        }
        else if (k == "tag")
            is >> tag;
        else if (k == "hash")
            is >> std::hex >> hash >> std::dec;
        else if (k == "param")
        {
            std::string n;
            int64_t v;
            is >> n >> v;
            c.params[n] = v;
        }
    }
    c.decisions = load_decisions(file);
    return true;
}

// ------------------------------------------------------------------------------------------------ minimisation
static std::string klass(const char* tag) { return tag; }
struct Minimiser
{
    RunCfg base;
    std::string tag;
    int jobs;
    std::chrono::steady_clock::time_point end;
    std::vector<Result*> slots;
    uint64_t tries{0};
    bool timeUp() const { return std::chrono::steady_clock::now() > end; }
    // runs all candidates in parallel; returns the index of the first that still fails, or -1
    int first_failing(const std::vector<std::vector<Decision>>& cand)
    {
        std::vector<pid_t> pids(cand.size());
        for (size_t i = 0; i < cand.size(); ++i)
        {
            RunCfg c = base;
            c.replay = true;
            c.decisions = cand[i];
            fflush(stdout);
            pid_t p = fork();
            if (p == 0)
                run_child(c, slots[i], "");
            pids[i] = p;
            ++tries;
        }
        int found = -1;
        for (size_t i = 0; i < cand.size(); ++i)
        {
            int st;
            while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR)
                ;
            fix_status(slots[i], st);
            if (found < 0 && slots[i]->status == 1 && klass(slots[i]->tag) == tag && known_index(base.prop, slots[i]) < 0)
                found = static_cast<int>(i);
        }
        return found;
    }
    std::vector<Decision> minimise(std::vector<Decision> cur)
    {
        size_t n = 2;
        while (cur.size() > 0 && !timeUp())
        {
            bool progress = false;
            size_t chunk = std::max<size_t>(1, cur.size() / n);
            std::vector<std::pair<size_t, size_t>> parts;
            for (size_t i = 0; i < cur.size(); i += chunk)
                parts.emplace_back(i, std::min(cur.size(), i + chunk));
            for (size_t i = 0; i < parts.size() && !timeUp() && !progress; i += static_cast<size_t>(jobs))
            {
                std::vector<std::vector<Decision>> cand;
                for (size_t j = i; j < parts.size() && j < i + static_cast<size_t>(jobs); ++j)
                {
                    std::vector<Decision> c;
                    for (size_t k = 0; k < cur.size(); ++k)
                        if (k < parts[j].first || k >= parts[j].second)
                            c.push_back(cur[k]);
                    cand.push_back(c);
                }
                int f = first_failing(cand);
                if (f >= 0)
                {
                    cur = cand[static_cast<size_t>(f)];
                    progress = true;
                }
            }
            if (progress)
                n = std::max<size_t>(2, n - 1);
            else if (chunk == 1)
                break;
            else
                n = std::min(cur.size(), n * 2);
        }
        return cur;
    }
};

static std::string jesc(const std::string& s)
{
    std::string o;
    for (char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += ch;
        }
        else if (static_cast<unsigned char>(ch) < 32 || static_cast<unsigned char>(ch) > 126)
            o += ' ';
        else
            o += ch;
    }
    return o;
}
} // namespace sim

using namespace sim;

int main(int argc, char** argv)
{
    std::set_terminate([] { abort(); });
    // identical address layout in every execution
    if (!getenv("IOXSIM_NOASLR"))
    {
        int p = personality(0xffffffff);
        if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) >= 0)
        {
            setenv("IOXSIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
        setenv("IOXSIM_NOASLR", "1", 1);
    }
    unsetenv("IOX_LOG_LEVEL");
    setenv("TZ", "UTC", 1);
    RunCfg base;
    std::string mode = argc > 1 ? argv[1] : "help", scnList, out = "out", evid, tier = "quick", knownFile, replayFile;
    double secs = 20;
    int jobs = 8;
    uint64_t maxRuns = ~0ULL;
    for (int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop")
            base.prop = val();
        else if (a == "--scn")
            scnList = val();
        else if (a == "--seed")
            base.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--time")
            secs = atof(val().c_str());
        else if (a == "--jobs")
            jobs = atoi(val().c_str());
        else if (a == "--runs")
            maxRuns = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--dir")
            g_dir = val();
        else if (a == "--out")
            out = val();
        else if (a == "--evidence")
            evid = val();
        else if (a == "--tier")
            tier = val();
        else if (a == "--known")
            knownFile = val();
        else if (a == "-v")
            base.verbose = true;
        else if (a == "--param")
        {
            std::string kv = val();
            auto p = kv.find('=');
            base.params[kv.substr(0, p)] = atoll(kv.c_str() + p + 1);
        }
        else
            replayFile = a;
    }
    mem_init();
    if (!knownFile.empty())
        load_known(knownFile);
    if (mode == "list")
    {
        for (auto& s : scns())
            printf("%s %s\n", s.name, s.harness);
        return 0;
    }
    if (mode == "one" || mode == "replay")
    {
        std::string tag;
        uint64_t hash = 0;
        if (mode == "replay")
        {
            bool v = base.verbose;
            if (!load_replay(replayFile, base, tag, hash))
            {
                fprintf(stderr, "not a replay file: %s\n", replayFile.c_str());
                return 2;
            }
            base.verbose = v;
        }
        else
            base.scn = scnList;
        const Scenario* s = find_scenario(base.scn);
        if (!s)
        {
            fprintf(stderr, "no such scenario: %s\n", base.scn.c_str());
            return 2;
        }
        load_harness(s->harness, copies_for(s->harness));
        Result* r = new_result();
        std::string dec = mode == "one" ? out + ".dec" : "";
        run_once(base, r, mode == "one" && out != "out" ? dec : "");
        printf("status %d tag %s hash %lx ticks %lu events %lu switches %lu sim %.6f s decisions %lu stale %lu crashes %lu\n%s\n%s\n", r->status, r->tag, static_cast<unsigned long>(r->hash),
               static_cast<unsigned long>(r->ticks), static_cast<unsigned long>(r->atomics), static_cast<unsigned long>(r->switches), static_cast<double>(r->simNs) / 1e9,
               static_cast<unsigned long>(r->nDecisions), static_cast<unsigned long>(r->staleLoads), static_cast<unsigned long>(r->crashes), r->msg, r->trace);
        for (uint32_t i = 0; i < r->ncounts; ++i)
            printf("count %s %ld\n", r->counts[i].name, static_cast<long>(r->counts[i].n));
        if (mode == "replay")
        {
            bool same = r->status == 1 && tag == r->tag && r->hash == hash;
            printf("%s\n", same ? "REPRODUCED" : "NOT REPRODUCED");
            if (same)
                printf("VIOLATION property=%s replay=%s\n", base.prop.c_str(), replayFile.c_str());
            return same ? 1 : 0;
        }
        return r->status;
    }
    if (mode != "run")
    {
        printf("usage: ioxsim run|one|replay|list ...\n");
        return 2;
    }
    ::mkdir(out.c_str(), 0755);

    // ---------------------------------------------------------------------------------------------- search
    std::vector<std::pair<const Scenario*, std::map<std::string, int64_t>>> list; // with parameters "name:k=v:k=v*weight"
    std::vector<std::string> labels;
    {
        std::istringstream is(scnList);
        std::string s;
        while (std::getline(is, s, ','))
        {
            int w = 1;
            auto st = s.find('*');
            if (st != std::string::npos)
            {
                w = atoi(s.c_str() + st + 1);
                s = s.substr(0, st);
            }
            std::string label = s;
            std::map<std::string, int64_t> ps;
            std::istringstream is2(s);
            std::string part, name;
            std::getline(is2, name, ':');
            while (std::getline(is2, part, ':'))
            {
                auto p = part.find('=');
                ps[part.substr(0, p)] = atoll(part.c_str() + p + 1);
            }
            const Scenario* sc = find_scenario(name);
            if (!sc)
            {
                fprintf(stderr, "no such scenario: %s\n", name.c_str());
                return 3;
            }
            for (int i = 0; i < w; ++i)
            {
                list.emplace_back(sc, ps);
                labels.push_back(label);
            }
        }
    }
    if (list.empty())
        return 3;
    g_st = static_cast<Stats*>(mmap(nullptr, (sizeof(Stats) + 4095) & ~4095UL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto t0 = std::chrono::steady_clock::now();
    auto tEnd = t0 + std::chrono::milliseconds(static_cast<int64_t>(secs * 1000));
    std::vector<pid_t> workers;
    for (int w = 0; w < jobs; ++w)
    {
        fflush(stdout);
        pid_t p = fork();
        if (p)
        {
            workers.push_back(p);
            continue;
        }
        for (auto& s : list)
            load_harness(s.first->harness, copies_for(s.first->harness));
        Result* r = new_result();
        Result* r2 = new_result();
        while (!g_st->stop.load() && std::chrono::steady_clock::now() < tEnd)
        {
            uint64_t i = g_st->next.fetch_add(1);
            if (i >= maxRuns)
                break;
            size_t si = i % list.size();
            RunCfg c = base;
            c.scn = list[si].first->name;
            for (auto& kv : list[si].second)
                c.params[kv.first] = kv.second;
            c.seed = mix64(base.seed, i);
            auto a = std::chrono::steady_clock::now();
            std::string dec = out + "/raw." + base.prop + "." + std::to_string(w);
            run_once(c, r, dec);
            auto b = std::chrono::steady_clock::now();
            auto& S = *g_st;
            S.runs++;
            lock();
            S.perScn[si % 64]++;
            S.perScnNs[si % 64] += static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(b - a).count());
            for (uint32_t k = 0; k < r->ncounts; ++k)
            {
                uint32_t j = 0;
                for (; j < S.ncounts; ++j)
                    if (!strcmp(S.counts[j].name, r->counts[k].name))
                        break;
                if (j == S.ncounts && j < 64)
                {
                    memcpy(S.counts[j].name, r->counts[k].name, 24);
                    S.counts[j].n = 0;
                    S.ncounts++;
                }
                if (j < 64)
                    S.counts[j].n += r->counts[k].n;
            }
            if (i < 4)
                snprintf(S.sample[i], sizeof(S.sample[i]), "seed=%lu scenario=%s steps=%lu switches=%lu decisions=%lu simulated_ms=%.3f crashes=%lu stale_loads=%lu schedule=%016lx", static_cast<unsigned long>(c.seed),
                         labels[si].c_str(), static_cast<unsigned long>(r->ticks), static_cast<unsigned long>(r->switches), static_cast<unsigned long>(r->nDecisions), static_cast<double>(r->simNs) / 1e6,
                         static_cast<unsigned long>(r->crashes), static_cast<unsigned long>(r->staleLoads), static_cast<unsigned long>(r->schedHash));
            unlock();
            S.ticks += r->ticks;
            S.atomics += r->atomics;
            S.switches += r->switches;
            S.simNs += r->simNs;
            S.syscalls += r->syscalls;
            S.stale += r->staleLoads;
            S.decisions += r->nDecisions;
            S.fibers += r->fibers;
            S.procs += r->procs;
            S.crashes += r->crashes;
            S.stalls += r->stalls;
            S.late += r->lateTimers;
            for (int k = 0; k < NFAULT; ++k)
                S.faults[k] += r->faults[k];
            if (insert(S.set, HSET, r->schedHash))
            {
                S.distinct++;
                if (r->nDecisions > 0 && r->switches > 2)
                    S.distinctNT++;
            }
            for (uint32_t k = 0; k < r->ncover; ++k)
                if (insert(S.cov, 1 << 16, r->cover[k]))
                    S.covered++;
            if (r->status == 2)
            {
                if (r->foreign)
                {
                    S.foreign++;
                    snprintf(S.forMsg, sizeof(S.forMsg), "%s seed %lu: %s: %.700s", labels[si].c_str(), static_cast<unsigned long>(c.seed), r->foreignTag, r->msg);
                }
                else
                {
                    S.inconclusive++;
                    snprintf(S.incMsg, sizeof(S.incMsg), "%s seed %lu: %.800s", labels[si].c_str(), static_cast<unsigned long>(c.seed), r->msg);
                }
            }
            else if (r->status == 3 || (r->status == 1 && !strcmp(r->tag, "*:sim")))
            {
                S.simErrors++;
                snprintf(S.errMsg, sizeof(S.errMsg), "%s seed %lu: %.800s", labels[si].c_str(), static_cast<unsigned long>(c.seed), r->msg);
            }
            else if (r->status == 1)
            {
                int k = known_index(base.prop, r);
                if (k >= 0)
                    S.knownHits[k % 16]++;
                else
                {
                    int z = 0;
                    if (S.stop.compare_exchange_strong(z, 1))
                    {
                        S.violSeed = c.seed;
                        S.violScn = static_cast<int>(si);
                        rename(dec.c_str(), (out + "/raw." + base.prop).c_str());
                    }
                    break;
                }
            }
            if (i % 97 == 13)
            {
                // determinism: the same seed again must give the same execution
                run_once(c, r2, "");
                S.recheck++;
                if (r2->hash != r->hash && r->status != 2 && r2->status != 2)
                    S.nondet++;
            }
        }
        ::unlink((out + "/raw." + base.prop + "." + std::to_string(w)).c_str());
        _exit(0);
    }
    bool workerFailed = false;
    for (auto p : workers)
    {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR)
            ;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
            workerFailed = true;
    }
    auto& S = *g_st;
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    int rc = 0;
    std::string violLine, violMsg;
    if (S.stop.load() == 1)
    {
        RunCfg c = base;
        size_t si = static_cast<size_t>(S.violScn.load());
        c.scn = list[si].first->name;
        for (auto& kv : list[si].second)
            c.params[kv.first] = kv.second;
        c.seed = S.violSeed.load();
        load_harness(list[si].first->harness, copies_for(list[si].first->harness));
        std::string file = out + "/" + base.prop + ".replay";
        auto dec = load_decisions(out + "/raw." + base.prop);
        ::unlink((out + "/raw." + base.prop).c_str());
        Result* r = new_result();
        run_once(c, r, "");
        std::string tag = r->tag;
        printf("violation found: scenario %s seed %lu: %s: %s\n", labels[si].c_str(), static_cast<unsigned long>(c.seed), r->tag, r->msg);
        bool saved = false;
        if (r->status == 1)
        {
            Minimiser m;
            m.base = c;
            m.tag = tag;
            m.jobs = jobs;
            m.end = std::chrono::steady_clock::now() + std::chrono::seconds(40);
            for (int i = 0; i < std::max(jobs, 1); ++i)
                m.slots.push_back(new_result());
            if (m.first_failing({dec}) == 0)
            {
                size_t before = dec.size();
                dec = m.minimise(dec);
                RunCfg rc2 = c;
                rc2.replay = true;
                rc2.decisions = dec;
                Result* a = new_result();
                run_once(rc2, a, "");
                Result* b = new_result();
                run_once(rc2, b, "");
                if (a->status == 1 && a->hash == b->hash && tag == a->tag)
                {
                    saved = save_replay(file, rc2, a, dec, "decisions");
                    printf("minimised from %zu to %zu decisions in %lu replays: %s: %s\n", before, dec.size(), static_cast<unsigned long>(m.tries), a->tag, a->msg);
                    violMsg = a->msg;
                }
            }
            if (!saved)
            {
                // the seed itself reproduces the execution
                saved = save_replay(file, c, r, {}, "seed");
                printf("kept as a seed replay\n");
                violMsg = r->msg;
            }
            printf("VIOLATION property=%s replay=%s\n", base.prop.c_str(), file.c_str());
            rc = 1;
        }
        else
        {
            printf("ERROR the violation did not reproduce from its seed (status %d %s): nondeterminism in the simulator\n", r->status, r->msg);
            rc = 3;
        }
    }
    else if (workerFailed || S.runs.load() == 0)
    {
        printf("ERROR a worker failed\n");
        rc = 3;
    }
    else if (S.simErrors.load() > 0)
    {
        printf("ERROR simulator errors: %lu, last: %s\n", static_cast<unsigned long>(S.simErrors.load()), S.errMsg);
        rc = 3;
    }
    uint64_t runs = S.runs.load();
    printf("%s %s: runs %lu (%.0f/h), distinct schedules %lu, steps %lu, simulated %.1f s, crashes %lu, inconclusive %lu, foreign %lu, recheck %lu nondeterministic %lu, %.1f s\n", base.prop.c_str(),
           tier.c_str(), static_cast<unsigned long>(runs), static_cast<double>(runs) / wall * 3600, static_cast<unsigned long>(S.distinct.load()), static_cast<unsigned long>(S.ticks.load()),
           static_cast<double>(S.simNs.load()) / 1e9, static_cast<unsigned long>(S.crashes.load()), static_cast<unsigned long>(S.inconclusive.load()), static_cast<unsigned long>(S.foreign.load()),
           static_cast<unsigned long>(S.recheck.load()), static_cast<unsigned long>(S.nondet.load()), wall);
    if (S.incMsg[0])
        printf("last inconclusive: %s\n", S.incMsg);
    if (S.forMsg[0])
        printf("last foreign: %s\n", S.forMsg);
    for (size_t i = 0; i < list.size() && i < 64; ++i)
        if (i == 0 || labels[i] != labels[i - 1])
            printf("  %-28s runs %lu, %.2f ms/run\n", labels[i].c_str(), static_cast<unsigned long>(S.perScn[i]), S.perScn[i] ? static_cast<double>(S.perScnNs[i]) / 1e6 / static_cast<double>(S.perScn[i]) : 0.0);
    for (uint32_t i = 0; i < S.ncounts; ++i)
        printf("  count %-24s %ld\n", S.counts[i].name, static_cast<long>(S.counts[i].n));
    for (size_t i = 0; i < g_known.size(); ++i)
        if (g_known[i].prop == base.prop)
            printf("KNOWN-FINDING: property=%s %s (seen %lu times in this run)\n", base.prop.c_str(), g_known[i].what.c_str(), static_cast<unsigned long>(S.knownHits[i % 16].load()));
    if (!evid.empty())
    {
        FILE* o = fopen(evid.c_str(), "w");
        if (o)
        {
            fprintf(o, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %lu,\n \"level\": \"exploration\",\n \"wall_s\": %.2f,\n \"violations\": %d,\n", base.prop.c_str(), tier.c_str(),
                    static_cast<unsigned long>(base.seed), wall, rc == 1 ? 1 : 0);
            fprintf(o, " \"coverage\": {\n  \"evaluations\": %lu,\n  \"distinct_nontrivial\": %lu,\n", static_cast<unsigned long>(runs), static_cast<unsigned long>(S.distinctNT.load()));
            fprintf(o, "  \"rule\": \"one evaluation is one simulated execution of a whole scenario from its own seed (schedule, delays, faults, workload); distinct: the sequence of context switches (which thread, at which of its own steps, to which thread) hashes differently from all others of this run; non-trivial: at least one recorded scheduling, fault, delay or workload decision and more than two context switches\",\n");
            fprintf(o, "  \"runs_per_hour\": %.0f,\n  \"distinct_schedules\": %lu,\n  \"simulated_seconds\": %.3f,\n  \"steps\": %lu,\n  \"sync_events\": %lu,\n  \"context_switches\": %lu,\n  \"simulated_syscalls\": %lu,\n", static_cast<double>(runs) / wall * 3600,
                    static_cast<unsigned long>(S.distinct.load()), static_cast<double>(S.simNs.load()) / 1e9, static_cast<unsigned long>(S.ticks.load()), static_cast<unsigned long>(S.atomics.load()), static_cast<unsigned long>(S.switches.load()),
                    static_cast<unsigned long>(S.syscalls.load()));
            fprintf(o, "  \"faults_injected\": {\"process_crash\": %lu, \"thread_stall\": %lu, \"late_timer\": %lu, \"weakly_ordered_or_spurious_atomic\": %lu", static_cast<unsigned long>(S.crashes.load()),
                    static_cast<unsigned long>(S.stalls.load()), static_cast<unsigned long>(S.late.load()), static_cast<unsigned long>(S.stale.load()));
            for (int k = 0; k < NFAULT; ++k)
                if (S.faults[k].load())
                    fprintf(o, ", \"errno_%s\": %lu", g_callNames[k], static_cast<unsigned long>(S.faults[k].load()));
            fprintf(o, "},\n  \"probes_hit\": %lu,\n  \"workload_counts\": {", static_cast<unsigned long>(S.covered.load()));
            for (uint32_t i = 0; i < S.ncounts; ++i)
                fprintf(o, "%s\"%s\": %ld", i ? ", " : "", jesc(S.counts[i].name).c_str(), static_cast<long>(S.counts[i].n));
            fprintf(o, "},\n  \"inconclusive_runs\": %lu,\n  \"ended_by_oracle_of_another_property\": %lu,\n  \"known_finding_runs\": %lu,\n  \"determinism_rechecks\": %lu,\n  \"determinism_mismatches\": %lu,\n", static_cast<unsigned long>(S.inconclusive.load()),
                    static_cast<unsigned long>(S.foreign.load()), [&] { uint64_t n = 0; for (auto& k : S.knownHits) n += k.load(); return static_cast<unsigned long>(n); }(), static_cast<unsigned long>(S.recheck.load()), static_cast<unsigned long>(S.nondet.load()));
            fprintf(o, "  \"scenarios\": {");
            std::map<std::string, uint64_t> per;
            for (size_t i = 0; i < list.size() && i < 64; ++i)
                per[labels[i]] += S.perScn[i];
            bool first = true;
            for (auto& kv : per)
            {
                fprintf(o, "%s\"%s\": %lu", first ? "" : ", ", jesc(kv.first).c_str(), static_cast<unsigned long>(kv.second));
                first = false;
            }
            fprintf(o, "},\n  \"components\": {\"real\": \"all iceoryx code used by the scenarios (hoofs, posh, roudi, c binding), compiled from /repo's working tree\", \"simulated\": \"kernel services (threads, mutexes, semaphores, sockets, files, shared memory objects, clocks, signals, users), heap, scheduler, memory ordering of atomics\"},\n");
            fprintf(o, "  \"samples\": [");
            for (int i = 0; i < 4; ++i)
                if (S.sample[i][0])
                    fprintf(o, "%s\"%s\"", i ? ", " : "", jesc(S.sample[i]).c_str());
            if (!violMsg.empty())
                fprintf(o, ", \"violation: %s\"", jesc(violMsg).c_str());
            fprintf(o, "]\n },\n \"assumptions\": [\"sampled, not exhaustive\", \"small configured limits (see tools/gen_build.py)\", \"the simulated kernel models Linux semantics of the calls iceoryx uses\"]\n}\n");
            fclose(o);
        }
    }
    return rc;
}
