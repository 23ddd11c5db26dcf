// Interface between the simulator (executable, not instrumented) and the harness code (instrumented shared objects).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
// ---- seeded choices (recorded in the replay file; the value 0 is the default the minimiser tries)
uint32_t sim_choose(uint32_t n);
bool sim_chance(uint32_t permille);
// ---- time, identity
uint64_t sim_now();
void sim_sleep(uint64_t ns);
void sim_yield();
int sim_self();
int sim_proc();
uint64_t sim_seq();
// ---- oracles. tag is "Pxx:oracle"; a tag of another property than the one being decided is only counted
void sim_fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void sim_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool sim_verbose();
int64_t sim_param(const char* name, int64_t dflt);
void sim_cover(uint64_t feature);
void sim_count(const char* what, int64_t n);
// ---- history
void sim_hist(int type, int64_t a, int64_t b, int64_t c, int64_t d);
// ---- fibers of the calling simulated process
typedef void (*sim_fn)(void*);
int sim_thread(sim_fn fn, void* arg, const char* name);
void sim_join(int fiber);
// ---- tracked memory: happens-before race detection on [p, p+n) (private memory of harnesses)
void sim_track(const void* p, size_t n);
// heap objects allocated by this process while on are checked for data races (in whole-system scenarios)
// the calling thread loses the CPU for up to ns at one of its next synchronisation steps (chosen by the scheduler); 0: not any more
void sim_slow(uint64_t ns);
void sim_heap_watch(int on);
void sim_untrack(const void* p, size_t n);
// ---- uninstrumented / unscheduled section (harness bookkeeping)
void sim_atomic_begin();
void sim_atomic_end();
// ---- faults
void sim_faults_enable(bool on);
uint64_t sim_injected_faults();
// bound: the calling fiber must reach sim_deadline_clear() within ns of simulated time
void sim_deadline(uint64_t ns, const char* tag, const char* what);
void sim_deadline_clear();
// shared between all simulated processes: pointer to the scenario's control block in the simulator
void* sim_shared();
// ---- simulated kernel inspection
int sim_open_fds();
int sim_open_maps();
int sim_fs_entries(const char* prefix);
}

struct SimAtomicSection
{
    SimAtomicSection() { sim_atomic_begin(); }
    ~SimAtomicSection() { sim_atomic_end(); }
};

// entry point exported by each harness .so
extern "C" void harness_main(int role, const int64_t* args);
