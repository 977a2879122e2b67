// Deterministic fiber engine, choice tape and case runner.
// Everything the library under test does with threads, locks, sockets and memory goes through the
// vf_* functions (the library objects are rewritten with objcopy --redefine-sym), so one OS thread
// runs every library thread as a fiber under a scheduler driven by the case's choice tape.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vf {

// ---------------------------------------------------------------- choice tape
uint32_t choose(uint32_t n);                       // 0..n-1 (0 is the simplest choice)
uint32_t range(uint32_t lo, uint32_t hi);          // lo..hi inclusive, lo simplest
bool     chance(uint32_t num, uint32_t den);       // true with probability num/den; false simplest
uint32_t weighted(std::initializer_list<uint32_t> w); // index
uint32_t bits32();

// ---------------------------------------------------------------- outcome of a case
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // readable operation trace
void nontrivial(bool yes = true);                           // the case satisfied the property's stated rule
void count(const char* what, uint64_t n = 1);      // named counters reported in the evidence

// ---------------------------------------------------------------- fibers
int  spawn(const char* name, std::function<void()> fn);
bool alive(int id);
void yield();                                      // scheduling point
void settle();                                     // returns when every other fiber is blocked
void settle_until(const std::function<bool()>& c, const char* what); // settle; fail if !c()
void join(int id);
void wait_fd(int fd, short events);                // fiber-blocking poll
int  self();
bool others_blocked();                             // after settle(): is some non-harness fiber alive
std::string fiber_states();
void wait_event(const void* key);                  // fiber-level event: blocks until signal_event
void signal_event(const void* key);
int  library_threads();                            // live fibers created by the library

enum SchedMode { RUN_TO_BLOCK, SYNC_RANDOM, MEM_LIGHT, MEM_HEAVY, PCT };
struct Sched { int mode = RUN_TO_BLOCK; uint32_t seed = 0; bool spurious = false; bool shortio = false; };
void set_sched(const Sched&);
Sched draw_sched(bool concurrent = true);          // draw a schedule from the tape
void interrupts(bool on);                          // blocking system calls of the library end early with EINTR or a part of the data
uint64_t interruptions();
void shortage(uint32_t den);                       // one of den requests of the library for memory, threads or descriptors fails (0: none)
uint64_t shortages();
bool shortage_on();
void relieve(bool on);                             // suspends the shortage
void set_step_cap(uint64_t steps);

// ---------------------------------------------------------------- resource accounting of the library
struct Resources { uint64_t blocks, bytes, fds; };
Resources resources();
uint64_t foreign_closes();                         // closes of descriptors the library does not own
void     disown_fd(int fd);
std::string resource_detail();

// short sockets for harness peers: moved to high numbers so the library sees realistic fd reuse
int raw_socket(int domain, int type);
void raw_close(int fd);

// ---------------------------------------------------------------- registration
struct Property { const char* id; const char* rule; void (*run)(); };
struct Register { Register(const char* id, const char* rule, void (*run)()); };
uint64_t case_index();
void grace(bool on);                               // while set, settle() gives deferred loopback delivery time to happen

} // namespace vf
