#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <poll.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <set>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <pthread.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <threads.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace vf {

struct Rng {
    uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32); }
};
static uint64_t mix(uint64_t a, uint64_t b) { Rng r{a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull)}; r.next(); return r.next(); }

// ------------------------------------------------------------------ shared memory with the runner
static const size_t TAPE_MAX = 1 << 18, LOG_MAX = 1 << 16, HASH_MAX = 1 << 19, COV_MAX = 1 << 14;
struct Shm {
    volatile uint64_t case_no;      // the case being run
    volatile uint32_t tape_len;
    volatile uint32_t log_len;
    volatile uint64_t evaluations, nontrivial, hash_n, steps, switches;
    volatile uint64_t case_started_ns;
    char msg[4096];
    uint32_t tape[TAPE_MAX];
    char log[LOG_MAX];
    uint64_t hashes[HASH_MAX];
    char samples[6][4096]; volatile uint32_t nsamples;
    struct { char name[96]; uint64_t n; } counters[64];
    uint8_t cov[COV_MAX];
};
static Shm* shm;

// ------------------------------------------------------------------ tape
static bool g_gen; static Rng g_rng; static std::vector<uint32_t> g_replay; static size_t g_pos;
static uint64_t g_trace_hash;
static bool g_nontrivial;
static uint64_t g_case; static int g_base_fd;

static uint32_t draw_raw(uint32_t n) {
    uint32_t v;
    if (g_gen) v = n ? g_rng.below(n) : (uint32_t)g_rng.next();
    else { v = g_pos < g_replay.size() ? g_replay[g_pos] : 0; if (n) v %= n; }
    g_pos++;
    if (shm->tape_len < TAPE_MAX) shm->tape[shm->tape_len++] = v;
    g_trace_hash = g_trace_hash * 0x100000001b3ull ^ (v + 0x9E37u);
    return v;
}
uint32_t choose(uint32_t n) { return n <= 1 ? 0 : draw_raw(n); }
uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
uint32_t bits32() { return draw_raw(0); }
uint32_t weighted(std::initializer_list<uint32_t> w) {
    uint32_t sum = 0; for (auto x : w) sum += x;
    uint32_t v = choose(sum), i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}
uint64_t case_index() { return g_case; }

// ------------------------------------------------------------------ outcome
static void logv(const char* fmt, va_list ap) {
    char b[1024]; int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    if (n < 0) return;
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (shm->log_len + n < LOG_MAX) { memcpy(shm->log + shm->log_len, b, n); shm->log_len += n; }
}
void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); logv(fmt, ap); va_end(ap); }
void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
    _exit(101);
}
void nontrivial(bool yes) { g_nontrivial = yes; }
void count(const char* what, uint64_t n) {
    for (auto& c : shm->counters) {
        if (!c.name[0]) { strncpy(c.name, what, sizeof c.name - 1); c.n = n; return; }
        if (!strncmp(c.name, what, sizeof c.name - 1)) { c.n += n; return; }
    }
}

// ------------------------------------------------------------------ fibers
enum St { FREE, RUN, B_MTX, B_CND, B_FD, B_JOIN, B_IDLE, B_EVENT, B_RETRY, DONE };
struct Fiber {
    int id; std::string name; St st = FREE; void* sp = nullptr; char* stack = nullptr;
    std::function<void()> fn; const void* obj = nullptr; int fd = -1; short ev = 0;
    bool timed = false, timed_out = false; uint64_t prio = 0; int saved_errno = 0; bool lib = false; int code = 0;
    bool sig = false; uint64_t run_len = 0; bool detached = false;
};
static const size_t STACK = 192 * 1024;
static std::vector<Fiber*> g_f; static Fiber* g_cur; static std::vector<char*> g_stacks;
static char* g_main_bottom; static size_t g_main_size;
static Sched g_s; static bool g_intr; static uint64_t g_nintr; static uint32_t g_short; static bool g_relief; static uint64_t g_nshort; static Rng g_srng; static uint64_t g_low_prio; static std::vector<uint64_t> g_changes;
static uint64_t g_steps, g_step_cap, g_points, g_syscalls; static bool g_active; static bool g_inet;
static int g_timeout_rounds;
static Fiber* g_dead; // fiber whose stack can be recycled
int64_t g_countdown = INT64_MAX / 2; static int64_t g_slice;

extern "C" void vf_swap(void** save, void* to);
asm(R"(
.text
.globl vf_swap
.type vf_swap,@function
vf_swap:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
.size vf_swap,.-vf_swap
)");

static void refill() {
    int64_t n;
    switch (g_s.mode) {
    case MEM_LIGHT: n = 1 + g_srng.below(300); break;
    case MEM_HEAVY: n = 1 + g_srng.below(24); break;
    case PCT: n = 1 + g_srng.below(60); break;
    default: n = 20000; break;
    }
    g_slice = g_countdown = n;
}
void grace(bool on) { g_inet = on; }

static const char* st_name(St s) { static const char* n[] = {"free", "runnable", "mutex", "cond", "fd", "join", "idle", "event", "retry", "done"}; return n[s]; }
std::string fiber_states() {
    std::string r;
    for (auto f : g_f) if (f->st != DONE && f->st != FREE) {
        char b[160]; snprintf(b, sizeof b, "%s%s:%s", r.empty() ? "" : " ", f->name.c_str(), st_name(f->st)); r += b;
        if (f->st == B_FD) { snprintf(b, sizeof b, "(%d/%x)", f->fd, f->ev); r += b; }
    }
    return r;
}

static bool poll_fds(int timeout) {
    struct pollfd p[256]; Fiber* who[256]; int n = 0;
    for (auto f : g_f) if (f->st == B_FD && n < 256 && f->fd >= 0) { p[n] = {f->fd, (short)(f->ev | POLLRDHUP), 0}; who[n++] = f; }
    if (!n) return false;
    int r = ::poll(p, n, timeout);
    if (r <= 0) return false;
    bool any = false;
    for (int i = 0; i < n; i++) if (p[i].revents) {
        short want = who[i]->ev;
        if (p[i].revents & (want | POLLERR | POLLHUP | POLLNVAL | ((want & POLLIN) ? POLLRDHUP : 0))) { who[i]->st = RUN; any = true; }
    }
    return any;
}

static void switch_to(Fiber* t, bool dying);

static Fiber* pick() {
    for (int grace = 0;;) {
        bool blocked = false, idle = false; std::vector<Fiber*> r; Fiber* retry = nullptr;
        for (auto f : g_f) {
            if (f->st == RUN) r.push_back(f);
            else if (f->st == B_FD) blocked = true;
            else if (f->st == B_IDLE) idle = true;
            else if (f->st == B_RETRY && !retry) retry = f;
        }
        bool pn = r.empty() || (g_s.mode <= SYNC_RANDOM ? true : (g_srng.below(4) == 0));
        if (blocked && pn && (r.empty() || g_s.mode != RUN_TO_BLOCK)) {
            if (poll_fds(0)) { r.clear(); for (auto f : g_f) if (f->st == RUN) r.push_back(f); }
        }
        if (!r.empty()) {
            // retriers become runnable again whenever something else can run
            for (auto f : g_f) if (f->st == B_RETRY) f->timed_out = false, f->st = RUN;
            g_timeout_rounds = 0;
            if (g_s.mode == RUN_TO_BLOCK) { // round robin
                Fiber* best = nullptr;
                for (auto f : r) if (!g_cur || f->id > g_cur->id) { best = f; break; }
                return best ? best : r[0];
            }
            if (g_s.mode == PCT) { Fiber* b = r[0]; for (auto f : r) if (f->prio > b->prio) b = f; return b; }
            return r[g_srng.below(r.size())];
        }
        if (g_inet && blocked && grace < 3) { grace++; poll_fds(grace == 1 ? 2 : 15); continue; }
        // nothing can run: let virtual timeouts expire, retries give it another try, then idle waiters
        if (g_timeout_rounds < 2) {
            bool fired = false;
            for (auto f : g_f) if (f->timed && (f->st == B_FD || f->st == B_CND)) { f->timed_out = true; f->st = RUN; fired = true; }
            if (fired) { g_timeout_rounds++; int keep = g_timeout_rounds; Fiber* t = nullptr; for (auto f : g_f) if (f->st == RUN) { t = f; break; } g_timeout_rounds = keep; if (t) return t; }
        }
        if (retry && !retry->timed_out) { retry->timed_out = true; retry->st = RUN; return retry; }
        if (idle) { for (auto f : g_f) if (f->st == B_IDLE) { f->st = RUN; return f; } }
        fail("deadlock: no thread can make progress [%s]", fiber_states().c_str());
    }
}

static void die();
static void trampoline() {
    Fiber* f = g_cur;
    __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
    f->fn();
    f->fn = nullptr;
    die();
}
static void die() {
    Fiber* f = g_cur;
    g_active = false;
    f->st = DONE;
    for (auto o : g_f) if (o->st == B_JOIN && o->fd == f->id) o->st = RUN;
    Fiber* t = pick();
    g_active = true;
    switch_to(t, true);
    abort();
}

static void switch_to(Fiber* t, bool dying) {
    Fiber* o = g_cur;
    if (o == t) return;
    shm->switches++;
    o->saved_errno = errno;
    g_cur = t; t->run_len = 0;
    void* fake = nullptr;
    if (t->stack) __sanitizer_start_switch_fiber(dying ? nullptr : &fake, t->stack, STACK);
    else __sanitizer_start_switch_fiber(dying ? nullptr : &fake, g_main_bottom, g_main_size);
    vf_swap(&o->sp, t->sp);
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
    errno = o->saved_errno;
}

static void account() {
    g_steps += g_slice - g_countdown; g_countdown = g_slice = 0;
    if (g_steps > g_step_cap) fail("livelock: %llu memory steps without finishing [%s]", (unsigned long long)g_steps, fiber_states().c_str());
    refill();
}

static void reschedule() { // current fiber already has its blocked state (or RUN)
    bool was = g_active; g_active = false;
    Fiber* t = pick();
    g_active = was;
    switch_to(t, false);
    g_active = was;
}

static void point(bool mem) { // preemption point
    if (!g_cur) return;
    int e = errno;
    g_points++;
    account();
    bool sw = false;
    switch (g_s.mode) {
    case RUN_TO_BLOCK: if (++g_cur->run_len > 3000) { sw = true; } break;
    case SYNC_RANDOM: if (!mem) sw = g_srng.below(2) == 0; else if (++g_cur->run_len > 200) sw = true; break;
    case MEM_LIGHT: sw = mem || g_srng.below(3) == 0; break;
    case MEM_HEAVY: sw = mem || g_srng.below(2) == 0; break;
    case PCT:
        for (auto c : g_changes) if (c == g_points) g_cur->prio = g_low_prio--;
        if (++g_cur->run_len > 4000) { g_cur->prio = g_low_prio--; }
        sw = true; break;
    }
    if (sw) reschedule();
    errno = e;
}
void yield() { point(false); }
int self() { return g_cur->id; }

static void block(St s, const void* obj) { g_cur->obj = obj; g_cur->st = s; account(); reschedule(); }

int spawn(const char* name, std::function<void()> fn) {
    Fiber* f = new Fiber; f->id = (int)g_f.size(); f->name = name; f->fn = std::move(fn); f->st = RUN;
    f->prio = 1000000000ull + g_srng.below(1000000);
    if (g_stacks.empty()) {
        char* m = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { fprintf(stderr, "mmap stack failed\n"); _exit(3); }
        mprotect(m, 4096, PROT_NONE);
        g_stacks.push_back(m + 4096);
    }
    f->stack = g_stacks.back(); g_stacks.pop_back();
    __asan_unpoison_memory_region(f->stack, STACK);
    uintptr_t top = ((uintptr_t)f->stack + STACK) & ~15ull;
    void** sp = (void**)top;
    *--sp = nullptr;                   // fake return address: keeps alignment at entry
    *--sp = (void*)trampoline;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f->sp = sp;
    g_f.push_back(f);
    return f->id;
}
bool alive(int id) { return g_f[id]->st != DONE; }
void join(int id) { while (g_f[id]->st != DONE) { g_cur->fd = id; block(B_JOIN, nullptr); } }
void settle() { account(); block(B_IDLE, nullptr); }
void settle_until(const std::function<bool()>& c, const char* what) { settle(); if (!c()) fail("%s [%s]", what, fiber_states().c_str()); }
void wait_fd(int fd, short ev) { g_cur->fd = fd; g_cur->ev = ev; g_cur->timed = false; block(B_FD, nullptr); }
void wait_event(const void* k) { if (g_cur->sig) { g_cur->sig = false; return; } block(B_EVENT, k); }
void signal_event(const void* k) { for (auto f : g_f) if (f->st == B_EVENT && f->obj == k) f->st = RUN; }
bool others_blocked() { for (auto f : g_f) if (f != g_cur && f->st != DONE) return true; return false; }
int library_threads() { int n = 0; for (auto f : g_f) if (f->lib && f->st != DONE) n++; return n; }
void set_step_cap(uint64_t s) { g_step_cap = s; }
void set_sched(const Sched& s) {
    g_s = s; g_srng.s = mix(s.seed, 77); g_changes.clear();
    if (s.mode == PCT) {
        uint32_t d = 1 + g_srng.below(6), span = 40u << g_srng.below(8);
        for (uint32_t i = 0; i < d; i++) g_changes.push_back(g_points + 1 + g_srng.below(span));
        for (auto f : g_f) f->prio = 1000000000ull + g_srng.below(1000000);
    }
    refill();
}
Sched draw_sched(bool concurrent) {
    Sched s;
    if (concurrent) {
        static const int m[] = {RUN_TO_BLOCK, SYNC_RANDOM, SYNC_RANDOM, MEM_LIGHT, MEM_LIGHT, MEM_HEAVY, PCT, PCT, PCT};
        s.mode = m[choose(9)]; s.seed = choose(1u << 16); s.spurious = chance(1, 6); s.shortio = chance(1, 5);
    } else { s.mode = choose(2) ? SYNC_RANDOM : RUN_TO_BLOCK; s.seed = choose(1u << 16); s.shortio = chance(1, 5); }
    note("schedule mode=%d seed=%u spurious=%d shortio=%d", s.mode, s.seed, (int)s.spurious, (int)s.shortio);
    return s;
}

// ------------------------------------------------------------------ resource accounting
static std::unordered_map<void*, size_t>* g_mem; static uint64_t g_bytes; static std::set<int>* g_fds; static uint64_t g_foreign;
Resources resources() { return {g_mem->size(), g_bytes, g_fds->size()}; }
uint64_t foreign_closes() { return g_foreign; }
void disown_fd(int fd) { g_fds->erase(fd); }
std::string resource_detail() {
    std::map<size_t, int> h; for (auto& m : *g_mem) h[m.second]++;
    std::string r; char b[64];
    for (auto& x : h) { snprintf(b, sizeof b, "%s%zuB x%d", r.empty() ? "" : ", ", x.first, x.second); r += b; if (r.size() > 300) break; }
    r += "; fds:"; for (int f : *g_fds) { snprintf(b, sizeof b, " %d", f); r += b; }
    return r;
}
static int hi_fd = 900;
int raw_socket(int domain, int type) {
    int fd = ::socket(domain, type | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    if (fd < 0) { perror("socket"); _exit(3); }
    int n = fcntl(fd, F_DUPFD_CLOEXEC, hi_fd); ::close(fd);
    if (n < 0) { perror("dupfd"); _exit(3); }
    return n;
}
void raw_close(int fd) { ::close(fd); }

// ------------------------------------------------------------------ case execution
static std::vector<Property>& props() { static std::vector<Property> p; return p; }
Register::Register(const char* id, const char* rule, void (*run)()) { props().push_back({id, rule, run}); }

static void run_case(const Property& p, uint64_t no) {
    static Fiber mainf; mainf = Fiber(); mainf.id = 0; mainf.name = "main"; mainf.st = RUN; mainf.prio = 1000000000ull;
    for (auto f : g_f) if (f != &mainf) { if (f->stack) g_stacks.push_back(f->stack); delete f; }
    g_f.clear(); g_f.push_back(&mainf); g_cur = &mainf;
    g_case = no; g_pos = 0; g_trace_hash = 1469598103934665603ull; g_nontrivial = false;
    g_steps = g_points = g_syscalls = 0; g_step_cap = 60000000; g_low_prio = 900000000; g_inet = false; g_timeout_rounds = 0;
    g_srng.s = 1; g_s = Sched(); g_intr = false; g_nintr = 0; g_short = 0; g_relief = false; g_nshort = 0; g_changes.clear();
    if (!g_mem) { g_mem = new std::unordered_map<void*, size_t>; g_fds = new std::set<int>; }
    g_mem->clear(); g_bytes = 0; g_fds->clear(); g_foreign = 0;
    shm->tape_len = 0; shm->log_len = 0; shm->msg[0] = 0;
    refill();
    g_active = true;
    p.run();
    g_active = false;
    shm->steps += g_steps;
    // abandon whatever the case left behind (other fibers, descriptors); memory goes with the batch
    g_fds->clear();
    if (g_base_fd > 2) syscall(SYS_close_range, g_base_fd, ~0u, 0);
}

} // namespace vf

using namespace vf;

// ------------------------------------------------------------------ functions the library is bound to
extern "C" {
// coverage callbacks of the instrumented library code: memory-level preemption points
#define MEMCB(n) void __sanitizer_cov_##n(void*) { if (__builtin_expect(--g_countdown < 0, 0) && g_active) point(true); }
MEMCB(load1) MEMCB(load2) MEMCB(load4) MEMCB(load8) MEMCB(load16)
MEMCB(store1) MEMCB(store2) MEMCB(store4) MEMCB(store8) MEMCB(store16)
static uint32_t g_guards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a == b || *a) return; for (; a < b; a++) *a = ++g_guards; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { if (*g < COV_MAX && shm) shm->cov[*g] = 1; }

struct vf_mtx { int owner, count, type; };
int vf_mtx_init(mtx_t* m, int type) { vf_mtx* x = (vf_mtx*)m; x->owner = 0; x->count = 0; x->type = type; return thrd_success; }
void vf_mtx_destroy(mtx_t* m) { ((vf_mtx*)m)->type |= 0x1000; }
static int lock_raw(vf_mtx* x) {
    int me = g_cur->id + 1;
    if (x->owner == me && (x->type & mtx_recursive)) { x->count++; return thrd_success; }
    while (x->owner) block(B_MTX, x);
    x->owner = me; x->count = 1; return thrd_success;
}
int vf_mtx_lock(mtx_t* m) { point(false); return lock_raw((vf_mtx*)m); }
int vf_mtx_timedlock(mtx_t* m, const struct timespec*) { return vf_mtx_lock(m); }
int vf_mtx_trylock(mtx_t* m) {
    point(false); vf_mtx* x = (vf_mtx*)m; int me = g_cur->id + 1;
    if (x->owner == me && (x->type & mtx_recursive)) { x->count++; return thrd_success; }
    if (x->owner) return thrd_busy;
    x->owner = me; x->count = 1; return thrd_success;
}
int vf_mtx_unlock(mtx_t* m) {
    vf_mtx* x = (vf_mtx*)m;
    if (--x->count <= 0) { x->owner = 0; x->count = 0; for (auto f : g_f) if (f->st == B_MTX && f->obj == x) f->st = RUN; }
    point(false); return thrd_success;
}
int vf_cnd_init(cnd_t* c) { memset(c, 0, sizeof *c); return thrd_success; }
void vf_cnd_destroy(cnd_t* c) { memset(c, 0, sizeof *c); }
static int cnd_wait_raw(cnd_t* c, mtx_t* m, bool timed) {
    vf_mtx* x = (vf_mtx*)m; *(volatile char*)c;
    int cnt = x->count; x->owner = 0; x->count = 0;
    for (auto f : g_f) if (f->st == B_MTX && f->obj == x) f->st = RUN;
    g_cur->timed = timed; g_cur->timed_out = false;
    if (g_s.spurious && g_srng.below(4) == 0) { bool was = g_active; g_cur->st = RUN; account(); reschedule(); g_active = was; }
    else block(B_CND, c);
    bool to = g_cur->timed_out; g_cur->timed = g_cur->timed_out = false;
    while (x->owner) block(B_MTX, x);
    x->owner = g_cur->id + 1; x->count = cnt;
    return to ? thrd_timedout : thrd_success;
}
int vf_cnd_wait(cnd_t* c, mtx_t* m) { point(false); return cnd_wait_raw(c, m, false); }
int vf_cnd_timedwait(cnd_t* c, mtx_t* m, const struct timespec*) { point(false); return cnd_wait_raw(c, m, true); }
int vf_cnd_signal(cnd_t* c) {
    *(volatile char*)c; std::vector<Fiber*> w; for (auto f : g_f) if (f->st == B_CND && f->obj == c) w.push_back(f);
    if (!w.empty()) { Fiber* f = g_s.mode == RUN_TO_BLOCK ? w[0] : w[g_srng.below(w.size())]; f->st = RUN; }
    point(false); return thrd_success;
}
int vf_cnd_broadcast(cnd_t* c) { *(volatile char*)c; for (auto f : g_f) if (f->st == B_CND && f->obj == c) f->st = RUN; point(false); return thrd_success; }
static bool shortage_now();
int vf_thrd_create(thrd_t* t, thrd_start_t fn, void* arg) {
    if (shortage_now()) return thrd_nomem;
    char nm[32]; snprintf(nm, sizeof nm, "thread%zu", g_f.size());
    int id = spawn(nm, [fn, arg]() { int r = fn(arg); g_cur->code = r; });
    g_f[id]->lib = true; *t = (thrd_t)(uintptr_t)(id + 1);
    point(false); return thrd_success;
}
int vf_thrd_join(thrd_t t, int* res) {
    point(false); uintptr_t id = (uintptr_t)t - 1;
    if (id >= g_f.size()) return thrd_error;
    join((int)id); if (res) *res = g_f[id]->code; return thrd_success;
}
void vf_thrd_exit(int r) { g_cur->code = r; die(); }
void vf_pthread_exit(void*) { die(); }
int vf_thrd_detach(thrd_t) { return thrd_success; }
thrd_t vf_thrd_current(void) { return (thrd_t)(uintptr_t)(g_cur->id + 1); }
int vf_thrd_equal(thrd_t a, thrd_t b) { return a == b; }
void vf_thrd_yield(void) { g_cur->run_len = 1u << 30; point(false); }
int vf_thrd_sleep(const struct timespec*, struct timespec*) { vf_thrd_yield(); return 0; }
void vf_call_once(once_flag* f, void (*fn)(void)) { int* x = (int*)f; if (!*x) { *x = 1; fn(); } }
int vf_sched_yield(void) { vf_thrd_yield(); return 0; }
int vf_usleep(unsigned) { vf_thrd_yield(); return 0; }
int vf_nanosleep(const struct timespec*, struct timespec*) { vf_thrd_yield(); return 0; }
unsigned vf_sleep(unsigned) { vf_thrd_yield(); return 0; }
// the same on pthread names (thread_api.h can be built on either)
int vf_pthread_mutex_init(void* m, const void*) { return vf_mtx_init((mtx_t*)m, mtx_plain); }
int vf_pthread_mutex_destroy(void* m) { vf_mtx_destroy((mtx_t*)m); return 0; }
int vf_pthread_mutex_lock(void* m) { return vf_mtx_lock((mtx_t*)m); }
int vf_pthread_mutex_trylock(void* m) { return vf_mtx_trylock((mtx_t*)m) == thrd_success ? 0 : EBUSY; }
int vf_pthread_mutex_unlock(void* m) { return vf_mtx_unlock((mtx_t*)m); }
int vf_pthread_cond_init(void* c, const void*) { return vf_cnd_init((cnd_t*)c); }
int vf_pthread_cond_destroy(void* c) { vf_cnd_destroy((cnd_t*)c); return 0; }
int vf_pthread_cond_wait(void* c, void* m) { return vf_cnd_wait((cnd_t*)c, (mtx_t*)m); }
int vf_pthread_cond_signal(void* c) { return vf_cnd_signal((cnd_t*)c); }
int vf_pthread_cond_broadcast(void* c) { return vf_cnd_broadcast((cnd_t*)c); }
int vf_pthread_create(thrd_t* t, const void*, void* (*fn)(void*), void* a) { return vf_thrd_create(t, (thrd_start_t)(void*)fn, a); }
int vf_pthread_mutex_timedlock(void* m, const struct timespec*) { return vf_mtx_lock((mtx_t*)m); }
int vf_pthread_cond_timedwait(void* c, void* m, const struct timespec*) { point(false); return cnd_wait_raw((cnd_t*)c, (mtx_t*)m, true) == thrd_timedout ? ETIMEDOUT : 0; }
int vf_pthread_detach(thrd_t) { return 0; }
thrd_t vf_pthread_self(void) { return vf_thrd_current(); }
int vf_pthread_equal(thrd_t a, thrd_t b) { return a == b; }
int vf_pthread_once(int* f, void (*fn)(void)) { if (!*f) { *f = 1; fn(); } return 0; }
int vf_pthread_setname_np(thrd_t, const char*) { return 0; }
struct vf_rw { int readers, writer; };
int vf_pthread_rwlock_init(vf_rw* l, const void*) { memset(l, 0, sizeof *l); return 0; }
int vf_pthread_rwlock_destroy(vf_rw* l) { memset(l, 0, sizeof *l); return 0; }
int vf_pthread_rwlock_rdlock(vf_rw* l) { point(false); while (l->writer) block(B_MTX, l); l->readers++; return 0; }
int vf_pthread_rwlock_wrlock(vf_rw* l) { point(false); while (l->writer || l->readers) block(B_MTX, l); l->writer = g_cur->id + 1; return 0; }
int vf_pthread_rwlock_tryrdlock(vf_rw* l) { point(false); if (l->writer) return EBUSY; l->readers++; return 0; }
int vf_pthread_rwlock_trywrlock(vf_rw* l) { point(false); if (l->writer || l->readers) return EBUSY; l->writer = g_cur->id + 1; return 0; }
int vf_pthread_rwlock_unlock(vf_rw* l) { if (l->writer) l->writer = 0; else l->readers--; for (auto f : g_f) if (f->st == B_MTX && f->obj == l) f->st = RUN; point(false); return 0; }
struct vf_sem { int n; };
int vf_sem_init(vf_sem* x, int, unsigned v) { x->n = (int)v; return 0; }
int vf_sem_destroy(vf_sem*) { return 0; }
int vf_sem_wait(vf_sem* x) { point(false); while (x->n <= 0) block(B_MTX, x); x->n--; return 0; }
int vf_sem_trywait(vf_sem* x) { point(false); if (x->n <= 0) { errno = EAGAIN; return -1; } x->n--; return 0; }
int vf_sem_post(vf_sem* x) { x->n++; for (auto f : g_f) if (f->st == B_MTX && f->obj == x) f->st = RUN; point(false); return 0; }
int vf_pthread_join(thrd_t t, void** r) { if (r) *r = nullptr; return vf_thrd_join(t, nullptr); }

// memory
static void* track(void* p, size_t n) { if (p) { (*g_mem)[p] = n; g_bytes += n; } return p; }
// no memory, threads or descriptors right now
static Rng g_xrng; static bool shortage_now() { if (!g_short || g_relief || g_xrng.below(g_short)) return false; g_nshort++; return true; }
static bool no_memory() { if (!shortage_now()) return false; errno = ENOMEM; return true; }
static bool no_fd() { if (!shortage_now()) return false; errno = EMFILE; return true; }
void* vf_malloc(size_t n) { if (no_memory()) return nullptr; void* p = malloc(n); if (p) memset(p, 0xA5, n); return track(p, n); } // unspecified contents, made deterministic
void* vf_calloc(size_t a, size_t b) { if (no_memory()) return nullptr; return track(calloc(a, b), a * b); }
static void untrack(void* p) { auto i = g_mem->find(p); if (i != g_mem->end()) { g_bytes -= i->second; g_mem->erase(i); } }
void vf_free(void* p) { if (p) untrack(p); free(p); }
void* vf_realloc(void* p, size_t n) {
    if (no_memory()) return nullptr;
    if (p) untrack(p);
    void* q = realloc(p, n); return track(q, n);
}
void* vf_reallocarray(void* p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return vf_realloc(p, a * b); }
void* vf_aligned_alloc(size_t a, size_t n) { if (no_memory()) return nullptr; void* p = nullptr; if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n)) return nullptr; memset(p, 0xA5, n); return track(p, n); }
int vf_posix_memalign(void** o, size_t a, size_t n) { if (no_memory()) return ENOMEM; void* p = nullptr; int r = posix_memalign(&p, a, n); if (!r) { memset(p, 0xA5, n); *o = track(p, n); } return r; }
char* vf_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)vf_malloc(n); if (p) memcpy(p, s, n); return p; }
char* vf_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)vf_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

// descriptors
static int own(int fd) { if (fd >= 0) g_fds->insert(fd); return fd; }
static void sys() { point(false); if (++g_syscalls > 3000000) fail("livelock: endless system calls [%s]", fiber_states().c_str()); }
int vf_socket(int d, int t, int p) { sys(); if (no_fd()) return -1; return own(socket(d, t | SOCK_CLOEXEC, p)); }
int vf_epoll_create1(int f) { if (no_fd()) return -1; return own(epoll_create1(f)); }
int vf_epoll_create(int n) { if (no_fd()) return -1; return own(epoll_create(n)); }
int vf_epoll_ctl(int ep, int op, int fd, struct epoll_event* e) { if (op == EPOLL_CTL_ADD && no_memory()) return -1; return epoll_ctl(ep, op, fd, e); }
int vf_eventfd(unsigned v, int f) { if (no_fd()) return -1; return own(eventfd(v, f)); }
int vf_dup(int fd) { if (no_fd()) return -1; return own(dup(fd)); }
int vf_close(int fd) {
    sys();
    auto i = g_fds->find(fd);
    if (i == g_fds->end()) { g_foreign++; errno = EBADF; return -1; }
    g_fds->erase(i); return close(fd);
}
// a handled signal arrives while the caller would wait: the call ends early, with what it has transferred so far
static bool interrupted() { if (!g_intr || g_srng.below(3)) return false; g_nintr++; yield(); errno = EINTR; return true; }
static bool nonblocking(int fd) { int fl = fcntl(fd, F_GETFL); return fl >= 0 && (fl & O_NONBLOCK); }

ssize_t vf_recvfrom(int fd, void* buf, size_t len, int flags, struct sockaddr* a, socklen_t* al) {
    sys();
    bool nb = (flags & MSG_DONTWAIT) || nonblocking(fd);
    bool all = (flags & MSG_WAITALL) && !nb;
    size_t got = 0; int type = 0; socklen_t tl = sizeof type; getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &tl);
    int k = (flags & ~MSG_WAITALL) | MSG_DONTWAIT;
    socklen_t in = al ? *al : 0;
    for (;;) {
        if (al) *al = in;
        ssize_t r = recvfrom(fd, (char*)buf + got, len - got, k, a, al);
        if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK) && !nb) { if (got && !all) return got; if (interrupted()) return got ? (ssize_t)got : -1; wait_fd(fd, POLLIN); continue; }
        if (r < 0) return got ? (ssize_t)got : r;
        if (r == 0) return got;
        got += r;
        if (type != SOCK_STREAM || !all || got >= len) return got;
    }
}
ssize_t vf_recv(int fd, void* b, size_t n, int f) { return vf_recvfrom(fd, b, n, f, nullptr, nullptr); }
ssize_t vf_read(int fd, void* b, size_t n) {
    sys(); struct stat st; if (!fstat(fd, &st) && S_ISSOCK(st.st_mode)) return vf_recvfrom(fd, b, n, 0, nullptr, nullptr);
    for (;;) { struct pollfd p = {fd, POLLIN, 0}; if (nonblocking(fd) || poll(&p, 1, 0) > 0) return read(fd, b, n); wait_fd(fd, POLLIN); }
}
ssize_t vf_recvmsg(int fd, struct msghdr* m, int flags) {
    sys(); bool nb = (flags & MSG_DONTWAIT) || nonblocking(fd);
    if (m->msg_iovlen == 1 && !m->msg_control) {
        socklen_t al = m->msg_namelen; m->msg_flags = 0;
        ssize_t r = vf_recvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags, (struct sockaddr*)m->msg_name, m->msg_name ? &al : nullptr);
        m->msg_namelen = al; return r;
    }
    for (;;) { ssize_t r = recvmsg(fd, m, flags | MSG_DONTWAIT); if (r < 0 && errno == EAGAIN && !nb) { if (interrupted()) return -1; wait_fd(fd, POLLIN); continue; } return r; }
}
ssize_t vf_sendto(int fd, const void* buf, size_t len, int flags, const struct sockaddr* a, socklen_t al) {
    sys();
    bool nb = (flags & MSG_DONTWAIT) || nonblocking(fd);
    size_t sent = 0; int k = flags | MSG_DONTWAIT, type = 0; socklen_t tl = sizeof type; getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &tl);
    for (;;) {
        // a stream socket with little room takes a part: a blocking send then waits, and other senders may come in between
        size_t part = len - sent; if (g_s.shortio && type == SOCK_STREAM && part > 1 && g_srng.below(3) == 0) part = 1 + g_srng.below((uint32_t)part - 1);
        ssize_t r = sendto(fd, (const char*)buf + sent, part, k, a, al);
        if (r < 0 && errno == EAGAIN && !nb) { if (interrupted()) return sent ? (ssize_t)sent : -1; wait_fd(fd, POLLOUT); continue; }
        if (r < 0) return sent ? (ssize_t)sent : r;
        sent += r;
        if (nb || sent >= len) return sent;
        if (interrupted()) return sent;
        yield();
    }
}
ssize_t vf_send(int fd, const void* b, size_t n, int f) { return vf_sendto(fd, b, n, f, nullptr, 0); }
ssize_t vf_write(int fd, const void* b, size_t n) {
    struct stat st; if (!fstat(fd, &st) && S_ISSOCK(st.st_mode)) return vf_sendto(fd, b, n, 0, nullptr, 0);
    sys(); return write(fd, b, n);
}
ssize_t vf_sendmsg(int fd, const struct msghdr* m, int flags) {
    sys(); bool nb = (flags & MSG_DONTWAIT) || nonblocking(fd); size_t total = 0; std::string flat;
    for (size_t i = 0; i < m->msg_iovlen; i++) { total += m->msg_iov[i].iov_len; flat.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); }
    if (!m->msg_control) return vf_sendto(fd, flat.data(), flat.size(), flags, (const struct sockaddr*)m->msg_name, m->msg_namelen);
    for (;;) { ssize_t r = sendmsg(fd, m, flags | MSG_DONTWAIT); if (r < 0 && errno == EAGAIN && !nb) { if (interrupted()) return -1; wait_fd(fd, POLLOUT); continue; } return r; }
}
ssize_t vf_writev(int fd, const struct iovec* v, int n) { struct msghdr m = {}; m.msg_iov = (struct iovec*)v; m.msg_iovlen = n; return vf_sendmsg(fd, &m, 0); }
ssize_t vf_readv(int fd, const struct iovec* v, int n) { struct msghdr m = {}; m.msg_iov = (struct iovec*)v; m.msg_iovlen = n; struct stat st; if (!fstat(fd, &st) && S_ISSOCK(st.st_mode)) return vf_recvmsg(fd, &m, 0); return vf_read(fd, v[0].iov_base, v[0].iov_len); }
int vf_pipe(int p[2]) { if (no_fd()) return -1; int r = pipe(p); if (!r) own(p[0]), own(p[1]); return r; }
int vf_pipe2(int p[2], int f) { if (no_fd()) return -1; int r = pipe2(p, f); if (!r) own(p[0]), own(p[1]); return r; }
int vf_socketpair(int d, int t, int k, int p[2]) { int r = socketpair(d, t, k, p); if (!r) own(p[0]), own(p[1]); return r; }
int vf_accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) {
    sys();
    for (;;) {
        struct pollfd p = {fd, POLLIN, 0};
        if (!nonblocking(fd) && poll(&p, 1, 0) <= 0) { wait_fd(fd, POLLIN); continue; }
        if (g_intr && !g_srng.below(4)) { g_nintr++; static const int e[] = {EMFILE, ECONNABORTED, ENFILE, EINTR}; errno = e[g_srng.below(4)]; return -1; } // the connection stays pending
        if (no_fd()) return -1;
        return own(accept4(fd, a, l, fl | SOCK_CLOEXEC));
    }
}
int vf_accept(int fd, struct sockaddr* a, socklen_t* l) { return vf_accept4(fd, a, l, 0); }
int vf_connect(int fd, const struct sockaddr* a, socklen_t l) {
    sys();
    if (nonblocking(fd)) return connect(fd, a, l);
    int fl = fcntl(fd, F_GETFL); fcntl(fd, F_SETFL, fl | O_NONBLOCK);
    int r;
    for (;;) {
        r = connect(fd, a, l);
        if (r == 0) break;
        if (errno == EAGAIN) { // backlog full: try again after others have run
            bool last = g_cur->timed_out; (void)last;
            block(B_RETRY, nullptr); continue;
        }
        if (errno == EINPROGRESS) {
            wait_fd(fd, POLLOUT); int e = 0; socklen_t el = sizeof e; getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &el);
            if (e) { errno = e; r = -1; } else r = 0;
            break;
        }
        break;
    }
    int e = errno; fcntl(fd, F_SETFL, fl); errno = e;
    return r;
}
int vf_epoll_wait(int ep, struct epoll_event* ev, int n, int timeout) {
    sys();
    for (;;) {
        int r = epoll_wait(ep, ev, n, 0);
        if (r != 0 || timeout == 0) return r;
        if (interrupted()) return -1;
        g_cur->fd = ep; g_cur->ev = POLLIN; g_cur->timed = timeout > 0; g_cur->timed_out = false;
        block(B_FD, nullptr);
        bool to = g_cur->timed_out; g_cur->timed = g_cur->timed_out = false;
        if (to) return 0;
    }
}
int vf_epoll_pwait(int ep, struct epoll_event* ev, int n, int timeout, const sigset_t*) { return vf_epoll_wait(ep, ev, n, timeout); }
int vf_poll(struct pollfd* p, nfds_t n, int timeout) {
    sys();
    for (;;) {
        int r = poll(p, n, 0);
        if (r != 0 || timeout == 0 || n == 0) return r;
        if (interrupted()) return -1;
        g_cur->fd = p[0].fd; g_cur->ev = p[0].events; g_cur->timed = timeout > 0; g_cur->timed_out = false;
        if (n == 1) block(B_FD, nullptr); else { g_cur->st = RUN; block(B_RETRY, nullptr); }
        bool to = g_cur->timed && g_cur->timed_out; g_cur->timed = g_cur->timed_out = false;
        if (to) return 0;
    }
}
int vf_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t*) { return vf_poll(p, n, t ? (t->tv_sec || t->tv_nsec ? 1 : 0) : -1); }
} // extern "C"

// ------------------------------------------------------------------ runner
namespace vf {
void interrupts(bool on) { g_intr = on; }
uint64_t interruptions() { return g_nintr; }
void shortage(uint32_t den) { if (den) { g_xrng.s = bits32() | 1; } g_short = den; }
uint64_t shortages() { return g_nshort; }
bool shortage_on() { return g_short != 0; }
void relieve(bool on) { g_relief = on; }
}
namespace vf {
static uint64_t now_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
static uint64_t g_seed;
static std::string g_errfile;

static void child_setup() {
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n);
    int e = open(g_errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (e >= 0) { dup2(e, 2); close(e); }
    signal(SIGPIPE, SIG_DFL); signal(SIGTERM, SIG_DFL);
    g_base_fd = dup(2); close(g_base_fd);
    char* bottom; size_t size; // main stack bounds for asan
    pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* b; pthread_attr_getstack(&a, &b, &size); bottom = (char*)b; pthread_attr_destroy(&a);
    g_main_bottom = bottom; g_main_size = size;
}
// returns 0 ok, 1 violation (message in shm->msg), 2 harness trouble
static int wait_child(pid_t pid, double limit_s) {
    int st;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        uint64_t started = shm->case_started_ns;
        if (started && now_ns() > started && (now_ns() - started) / 1e9 > limit_s) {
            kill(pid, SIGKILL); waitpid(pid, &st, 0);
            snprintf(shm->msg, sizeof shm->msg, "hang: the case did not finish within %.0f s", limit_s); return 1;
        }
        struct timespec ts = {0, 300000}; nanosleep(&ts, nullptr);
    }
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 0) return 0;
        if (c == 101) return 1;
        if (c == 3) return 2;
        snprintf(shm->msg, sizeof shm->msg, "crash: memory error or abnormal exit (status %d)", c);
    } else snprintf(shm->msg, sizeof shm->msg, "crash: killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    // add the first line of the sanitizer report
    FILE* f = fopen(g_errfile.c_str(), "r");
    if (f) {
        char l[512]; int fr = 0; size_t n = strlen(shm->msg);
        while (fgets(l, sizeof l, f)) {
            bool take = strstr(l, "ERROR: AddressSanitizer") || strstr(l, "Assertion") || strstr(l, "runtime error") || (fr < 4 && strstr(l, "    #") && strstr(l, " in "));
            if (strstr(l, "ERROR: AddressSanitizer")) fr = 0;
            if (take) { if (strstr(l, "    #")) fr++; size_t m = strlen(l); if (n + m < sizeof shm->msg - 4) { shm->msg[n++] = '\n'; memcpy(shm->msg + n, l, m); n += m; while (n && (shm->msg[n - 1] == '\n')) n--; shm->msg[n] = 0; } }
        }
        fclose(f);
    }
    return 1;
}
static void json_str(FILE* o, const char* s, size_t n) {
    fputc('"', o);
    for (size_t i = 0; i < n && s[i]; i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') fprintf(o, "\\%c", c); else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c); else fputc(c, o); }
    fputc('"', o);
}
static int run_tape(const Property& p, const std::vector<uint32_t>& t, double limit) {
    shm->case_started_ns = 0; shm->msg[0] = 0;
    pid_t pid = fork();
    if (!pid) { child_setup(); g_gen = false; g_replay = t; shm->case_started_ns = now_ns(); run_case(p, 0); _exit(0); }
    return wait_child(pid, limit);
}
static std::vector<uint32_t> load_tape(const char* path) {
    std::vector<uint32_t> t; FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    char* line = nullptr; size_t cap = 0; 
    while (getline(&line, &cap, f) > 0) { if (line[0] == '#') continue; char* s = line; char* e; for (;;) { unsigned long v = strtoul(s, &e, 10); if (e == s) break; t.push_back((uint32_t)v); s = e; } }
    free(line); fclose(f); return t;
}
static void save_tape(const char* path, const Property& p, const std::vector<uint32_t>& t) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    fprintf(f, "# replay of property %s: run  harness %s replay THISFILE\n", p.id, p.id);
    for (char* l = strtok(strdup(shm->msg), "\n"); l; l = strtok(nullptr, "\n")) fprintf(f, "# %s\n", l);
    fprintf(f, "# operations:\n");
    std::string lg(shm->log, shm->log_len); for (char* l = strtok(strdup(lg.c_str()), "\n"); l; l = strtok(nullptr, "\n")) fprintf(f, "#   %s\n", l);
    for (size_t i = 0; i < t.size(); i++) fprintf(f, "%u%s", t[i], (i % 24 == 23) ? "\n" : " ");
    fprintf(f, "\n"); fclose(f);
}
static int do_shrink(const Property& p, const char* in, const char* out, double secs) {
    auto best = load_tape(in); uint64_t end = now_ns() + (uint64_t)(secs * 1e9); int runs = 0;
    auto bad = [&](const std::vector<uint32_t>& t) { runs++; return run_tape(p, t, 20) == 1; };
    if (!bad(best)) return 4;
    best.assign(shm->tape, shm->tape + std::min<size_t>(shm->tape_len, best.size()));
    bool progress = true;
    while (progress && now_ns() < end && runs < 3000) {
        progress = false;
        for (size_t cut = best.size() / 2; cut >= 1 && now_ns() < end; cut /= 2) // truncate
            while (best.size() > cut && now_ns() < end) { auto t = best; t.resize(t.size() - cut); if (bad(t)) { best = t; progress = true; } else break; }
        for (size_t c = std::min<size_t>(64, best.size()); c >= 1 && now_ns() < end; c /= 2) // delete chunks
            for (size_t i = 0; i + c <= best.size() && now_ns() < end;) { auto t = best; t.erase(t.begin() + i, t.begin() + i + c); if (bad(t)) { best = t; progress = true; } else i += c; }
        for (size_t i = 0; i < best.size() && now_ns() < end; i++) if (best[i]) { // simplify values
            auto t = best; t[i] = 0; if (bad(t)) { best = t; progress = true; continue; }
            uint32_t lo = 0, hi = best[i];
            for (int k = 0; k < 8 && hi - lo > 1 && now_ns() < end; k++) { uint32_t m = lo + (hi - lo) / 2; t = best; t[i] = m; if (bad(t)) { best = t; hi = m; progress = true; } else lo = m; }
        }
    }
    for (int i = 0; i < 3; i++) if (bad(best)) { save_tape(out, p, best); printf("shrunk to %zu choices in %d runs\n", best.size(), runs); return 0; }
    return 4;
}

static int main_impl(int argc, char** argv) {
    if (argc < 3) { fprintf(stderr, "usage: harness PROP run|replay|shrink|list ...\n"); return 2; }
    const Property* p = nullptr; for (auto& x : props()) if (!strcmp(x.id, argv[1])) p = &x;
    if (!p) { fprintf(stderr, "unknown property %s\n", argv[1]); return 2; }
    std::string cmd = argv[2]; std::map<std::string, std::string> o;
    std::vector<std::string> pos;
    for (int i = 3; i < argc; i++) { if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { o[argv[i] + 2] = argv[i + 1]; i++; } else pos.push_back(argv[i]); }
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct rlimit rl = {4096, 4096}; { struct rlimit cur; getrlimit(RLIMIT_NOFILE, &cur); if (cur.rlim_max < rl.rlim_max) rl.rlim_cur = rl.rlim_max = cur.rlim_max; } setrlimit(RLIMIT_NOFILE, &rl);
    char ef[64]; const char* td = getenv("VF_TMP"); snprintf(ef, sizeof ef, "%s/err.%d", td ? td : ".", (int)getpid()); g_errfile = ef;
    if (cmd == "replay") {
        auto t = load_tape(pos[0].c_str()); int r = run_tape(*p, t, 60);
        printf("%.*s", (int)shm->log_len, shm->log);
        if (r) printf("-> VIOLATED: %s\n", shm->msg); else printf("-> property held\n");
        unlink(g_errfile.c_str()); return r;
    }
    if (cmd == "shrink") { int r = do_shrink(*p, pos[0].c_str(), pos[1].c_str(), atof(o["secs"].c_str())); unlink(g_errfile.c_str()); return r; }
    if (cmd != "run") return 2;
    g_seed = strtoull(o["seed"].c_str(), nullptr, 10);
    uint64_t shard = strtoull(o["shard"].c_str(), nullptr, 10), shards = strtoull(o["shards"].c_str(), nullptr, 10), cases = strtoull(o["cases"].c_str(), nullptr, 10);
    double secs = atof(o["secs"].c_str()); uint64_t end = now_ns() + (uint64_t)(secs * 1e9);
    uint64_t batch = o.count("batch") ? strtoull(o["batch"].c_str(), nullptr, 10) : 40;
    int status = 0; uint64_t next = 0;
    static volatile sig_atomic_t stop; signal(SIGTERM, [](int) { stop = 1; });
    while (next < cases && now_ns() < end && !status && !stop) {
        shm->case_started_ns = 0; shm->msg[0] = 0; shm->case_no = next;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (!pid) {
            child_setup();
            for (uint64_t k = 0; k < batch && shm->case_no < cases; k++) {
                uint64_t no = shm->case_no * shards + shard;
                g_gen = true; g_rng.s = mix(mix(g_seed, no), 0xC0FFEE);
                shm->case_started_ns = now_ns();
                run_case(*p, no);
                shm->evaluations++;
                if (g_nontrivial) {
                    shm->nontrivial++; if (shm->hash_n < HASH_MAX) shm->hashes[shm->hash_n++] = g_trace_hash;
                    if (shm->nsamples < 6 && (shm->nsamples == 0 || no % 7 == 3)) { size_t n = std::min<size_t>(shm->log_len, 4095); memcpy(shm->samples[shm->nsamples], shm->log, n); shm->samples[shm->nsamples][n] = 0; shm->nsamples++; }
                }
                shm->case_started_ns = 0;
                shm->case_no++;
                if (now_ns() > end) break;
            }
            _exit(0);
        }
        int r = wait_child(pid, 60);
        next = shm->case_no;
        if (r == 2) { fprintf(stderr, "harness trouble in case %llu (see %s)\n", (unsigned long long)next, g_errfile.c_str()); status = 3; }
        else if (r == 1) {
            if (!shm->case_started_ns && !strncmp(shm->msg, "crash", 5)) { fprintf(stderr, "crash outside a case: %s\n", shm->msg); }
            status = 1;
            std::vector<uint32_t> t(shm->tape, shm->tape + shm->tape_len);
            save_tape(o["fail"].c_str(), *p, t);
        }
    }
    FILE* f = fopen(o["report"].c_str(), "w");
    fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"status\":%d,\"message\":", (unsigned long long)shm->evaluations, (unsigned long long)shm->nontrivial, (unsigned long long)shm->steps, (unsigned long long)shm->switches, status);
    json_str(f, shm->msg, sizeof shm->msg); fprintf(f, ",\"rule\":"); json_str(f, p->rule, strlen(p->rule));
    fprintf(f, ",\"hashes\":["); for (uint64_t i = 0; i < shm->hash_n; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)shm->hashes[i]);
    fprintf(f, "],\"samples\":["); for (uint32_t i = 0; i < shm->nsamples; i++) { if (i) fputc(',', f); json_str(f, shm->samples[i], 4096); }
    fprintf(f, "],\"counters\":{"); bool first = true; for (auto& c : shm->counters) if (c.name[0]) { if (!first) fputc(',', f); first = false; json_str(f, c.name, 96); fprintf(f, ":%llu", (unsigned long long)c.n); }
    fprintf(f, "},\"guards\":%u,\"cov\":[", g_guards); first = true; for (size_t i = 0; i < COV_MAX; i++) if (shm->cov[i]) { fprintf(f, "%s%zu", first ? "" : ",", i); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    if (status == 0) unlink(g_errfile.c_str());
    return status;
}
} // namespace vf
int main(int argc, char** argv) { return vf::main_impl(argc, argv); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:exitcode=99:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:max_uar_stack_size_log=16:quarantine_size_mb=16:symbolize=1"; }
