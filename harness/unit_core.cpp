// Direct model-based tests of the library's internal memory pool and containers. Compiled on its own: when the internal
// interfaces change this part is left out and the end-to-end parts of C11 and C12 remain.
#include "engine.h"
#include "world.h"
#include <algorithm>
extern "C" {
#include "arena.h"
#include "hashtable.h"
#include "queue.h"
#include "stack.h"
}
using namespace vf;
namespace {
struct Blk { char* p; size_t n; uint32_t tag; };
struct Pool {
    struct gracht_arena* a; size_t size; std::vector<Blk> live; uint64_t allocs = 0, shrinks = 0, refused = 0; uint32_t tag = 1; size_t most = 0;
    void overlap(const Blk& b) { for (auto& o : live) if (b.p < o.p + o.n && o.p < b.p + b.n) fail("two buffers in use overlap: %zu bytes and %zu bytes", b.n, o.n); }
    bool alloc(size_t n) {
        char* p = (char*)gracht_arena_allocate(a, nullptr, n); if (!p) { refused++; return false; }
        Blk b{p, n, tag++}; overlap(b); allocs++; std::string s = pattern(b.tag, n); memcpy(p, s.data(), n); live.push_back(b); return true; }
    void check(const Blk& b) { if (memcmp(b.p, pattern(b.tag, b.n).data(), b.n)) fail("the contents of a buffer in use changed"); }
    void shrink(size_t k, size_t by) { Blk& b = live[k]; check(b); b.n -= by; shrinks++; gracht_arena_free(a, b.p, by); }
    void release(size_t k) { Blk b = live[k]; check(b); live.erase(live.begin() + k); gracht_arena_free(a, b.p, 0); }
};
size_t largest(size_t size) { // what a fresh pool of this size can hand out at once
    static std::map<size_t, size_t> known; auto i = known.find(size); if (i != known.end()) return i->second;
    size_t lo = 0, hi = size + 1; while (lo + 1 < hi) { size_t mid = (lo + hi) / 2; struct gracht_arena* a; if (gracht_arena_create(size, &a)) fail("creating a pool of %zu bytes failed", size); void* p = gracht_arena_allocate(a, nullptr, mid); gracht_arena_destroy(a); if (p) lo = mid; else hi = mid; }
    return known[size] = lo;
}
size_t pool_size() { switch (choose(6)) { case 0: return 2000 + choose(3000); case 1: return 600; case 2: return 64 + choose(400); case 3: return 20000; case 4: return 1 << (8 + choose(8)); default: return chance(1, 40) ? (20u << 20) + choose(1000) : 10000; } }
size_t draw(size_t size) { switch (choose(5)) { case 0: return 1 + choose(40); case 1: return 1 + choose(std::min<size_t>(size, 700)); case 2: return 128 + choose(8) - 4; case 3: return std::max<size_t>(1, size / (1 + choose(6)) - choose(40)); default: return 1 + choose(size); } }
void settle_pool(Pool& p) {
    for (auto& b : p.live) p.check(b);
    while (!p.live.empty()) p.release(choose(p.live.size()));
    size_t m = largest(p.size); char* w = (char*)gracht_arena_allocate(p.a, nullptr, m);
    if (!w) fail("after everything was released only part of the pool is available (%zu bytes in one piece were available at the start)", m);
    memset(w, 0x5A, m); gracht_arena_free(p.a, w, 0);
}
} // namespace
extern "C" void unit_c11() {
    Pool p; p.size = pool_size(); if (gracht_arena_create(p.size, &p.a)) fail("creating a pool of %zu bytes failed", p.size);
    note("pool of %zu bytes", p.size); int ops = range(4, 120), rounds = range(1, 3); bool conc = chance(1, 5); bool uniform = chance(1, 3); size_t un = std::min<size_t>(draw(p.size), p.size / 4 + 1);
    if (p.size > 1 << 20) { ops = range(2, 8); conc = false; }
    auto step = [&](int) {
        switch (weighted({6, 3, 4})) {
        case 0: { size_t n = uniform ? un : draw(p.size); bool empty = p.live.empty(); bool ok = p.alloc(n); note("allocate %zu -> %s", n, ok ? "ok" : "refused"); if (!ok && empty && n <= largest(p.size) && !conc) fail("an empty pool refused %zu bytes", n); break; }
        case 1: if (!p.live.empty()) { size_t k = choose(p.live.size()); if (p.live[k].n > 1) { size_t by = choose(2) ? 1 + choose(p.live[k].n - 1) : p.live[k].n / 2; if (by) { note("shrink %zu bytes by %zu", p.live[k].n, by); p.shrink(k, by); } } } break;
        case 2: if (!p.live.empty()) { size_t k = choose(p.live.size()); note("release %zu bytes", p.live[k].n); p.release(k); } break;
        }
        p.most = std::max(p.most, p.live.size());
    };
    for (int r = 0; r < rounds; r++) {
        if (!conc) for (int i = 0; i < ops; i++) { step(i); if (choose(4) == 0) for (auto& b : p.live) p.check(b); }
        else { // several threads, each with its own buffers
            set_sched(draw_sched()); std::vector<int> f; int nt = range(2, 3); static struct gracht_arena* A; A = p.a; static std::vector<Blk>* all; static std::vector<Blk> store; store.clear(); all = &store; int per = range(3, 14);
            for (int t = 0; t < nt; t++) f.push_back(spawn("user", [t, per, &p]() {
                std::vector<Blk> mine;
                for (int i = 0; i < per; i++) {
                    size_t n = 1 + choose(std::min<size_t>(p.size / 6 + 1, 400));
                    if (choose(3)) { char* q = (char*)gracht_arena_allocate(A, nullptr, n); if (q) { Blk b{q, n, p.tag++}; for (auto& o : *all) if (b.p < o.p + o.n && o.p < b.p + b.n) fail("two threads were given overlapping buffers"); all->push_back(b); p.allocs++; std::string s = pattern(b.tag, n); memcpy(q, s.data(), n / 2); yield(); memcpy(q + n / 2, s.data() + n / 2, n - n / 2); mine.push_back(b); } }
                    else if (!mine.empty()) { size_t k = choose(mine.size()); Blk b = mine[k]; if (memcmp(b.p, pattern(b.tag, b.n).data(), b.n)) fail("the contents of a buffer in use changed"); auto me = std::find_if(all->begin(), all->end(), [&](Blk& o) { return o.tag == b.tag; });
                        if (choose(3) == 0 && b.n > 30) { me->n /= 2; mine[k].n /= 2; gracht_arena_free(A, b.p, b.n - b.n / 2); p.shrinks++; } else { all->erase(me); mine.erase(mine.begin() + k); gracht_arena_free(A, b.p, 0); } }
                }
                for (auto& b : mine) { if (memcmp(b.p, pattern(b.tag, b.n).data(), b.n)) fail("the contents of a buffer in use changed"); all->erase(std::find_if(all->begin(), all->end(), [&](Blk& o) { return o.tag == b.tag; })); gracht_arena_free(A, b.p, 0); }
            }));
            for (int x : f) join(x);
            p.most = 2;
        }
        settle_pool(p);
    }
    gracht_arena_destroy(p.a); if (resources().blocks) fail("a destroyed pool still holds memory");
    count("pool allocations", p.allocs); count("pool shrinks", p.shrinks); count("pool allocations refused", p.refused); count("direct pool cases");
    if (p.allocs >= 3 && p.most >= 2) nontrivial();
}

// ------------------------------------------------------------------ containers
namespace {
struct El { uint32_t key; uint32_t val; char pad[5]; };
int g_hash;
uint64_t hash_el(const void* e) { uint32_t k = ((const El*)e)->key; switch (g_hash) { case 0: return k; case 1: return k % 7; case 2: return 3; case 3: return (uint64_t)k << 60 | (k & 1); case 4: return ~(uint64_t)k; default: return k * 0x9E3779B97F4A7C15ull; } }
int cmp_el(const void* a, const void* b) { return ((const El*)a)->key == ((const El*)b)->key ? 0 : 1; }
std::map<uint32_t, uint32_t>* g_seen; int g_dups;
void enum_el(int, const void* e, void* ctx) { auto* m = (std::map<uint32_t, uint32_t>*)ctx; const El* x = (const El*)e; if (!m->insert({x->key, x->val}).second) g_dups++; }
void table() {
    gr_hashtable_t t; std::map<uint32_t, uint32_t> ref; static const size_t caps[] = {0, 1, 16, 17, 100}; g_hash = choose(6);
    if (gr_hashtable_construct(&t, caps[choose(5)], sizeof(El), hash_el, cmp_el)) fail("constructing a table failed");
    uint32_t keys = g_hash == 1 || g_hash == 2 ? range(2, 40) : chance(1, 4) ? range(50, 400) : range(2, 30), val = 1; int ops = range(5, 60); if (keys > 60) ops = range(200, 900); int phase = 0; size_t peak = 0; uint64_t removed = 0;
    note("table with %u keys, hash kind %d, %d operations", keys, g_hash, ops);
    for (int i = 0; i < ops; i++) {
        if (choose(12) == 0) phase = choose(3); // grow, shrink or mix
        El k{}; k.key = choose(keys) * (g_hash == 0 && keys > 20 ? 3 : 1);
        uint32_t op = weighted({phase == 1 ? 2u : 6u, phase == 0 ? 2u : 6u, 3, 1});
        if (op == 0) {
            k.val = val++; memset(k.pad, 0x33, 5); El* old = (El*)gr_hashtable_set(&t, &k); auto r = ref.find(k.key);
            if (!old && r != ref.end()) fail("replacing key %u did not return the replaced element", k.key);
            if (old && r == ref.end()) fail("inserting new key %u reported a replaced element", k.key);
            if (old && (old->key != k.key || old->val != r->second)) fail("replacing key %u returned another element", k.key);
            ref[k.key] = k.val;
        } else if (op == 1) {
            El* old = (El*)gr_hashtable_remove(&t, &k); auto r = ref.find(k.key);
            if (!old != (r == ref.end())) fail("removing key %u %s", k.key, old ? "succeeded although it is not there" : "did not find it");
            if (old) { if (old->key != k.key || old->val != r->second) fail("removing key %u returned another element", k.key); ref.erase(r); removed++; }
        } else if (op == 2) {
            El* e = (El*)gr_hashtable_get(&t, &k); auto r = ref.find(k.key);
            if (!e != (r == ref.end())) fail("looking up key %u %s", k.key, e ? "found it although it is not there" : "did not find it");
            if (e && (e->key != k.key || e->val != r->second || e->pad[4] != 0x33)) fail("looking up key %u returned another element", k.key);
        } else {
            std::map<uint32_t, uint32_t> seen; g_dups = 0; gr_hashtable_enumerate(&t, enum_el, &seen); if (g_dups) fail("enumeration returned an element twice"); if (seen != ref) fail("enumeration returned %zu elements, %zu are there", seen.size(), ref.size());
        }
        peak = std::max(peak, ref.size());
    }
    for (uint32_t i = 0; i < keys * 3; i++) { El k{}; k.key = i; El* e = (El*)gr_hashtable_get(&t, &k); auto r = ref.find(i); if (!e != (r == ref.end()) || (e && e->val != r->second)) fail("key %u is wrong at the end", i); }
    gr_hashtable_destroy(&t); count("table operations", ops); if (peak >= 3 && removed) nontrivial();
}
void queue() {
    struct gr_queue q; std::deque<uintptr_t> ref; static const unsigned caps[] = {1, 2, 3, 4, 8, 32}; if (gr_queue_construct(&q, caps[choose(6)])) fail("constructing a queue failed");
    uintptr_t v = 1; int ops = range(4, 200); size_t peak = 0; int bias = choose(3);
    for (int i = 0; i < ops; i++) {
        if (choose(20) == 0) bias = choose(3);
        if (weighted({bias == 0 ? 3u : 1u, bias == 1 ? 3u : 1u}) == 0) { if (!gr_queue_enqueue(&q, (void*)v)) ref.push_back(v); v++; }
        else { uintptr_t g = (uintptr_t)gr_queue_dequeue(&q); uintptr_t w = ref.empty() ? 0 : ref.front(); if (!ref.empty()) ref.pop_front(); if (g != w) fail("the queue returned element %zu, expected %zu", (size_t)g, (size_t)w); }
        peak = std::max(peak, ref.size());
    }
    while (!ref.empty()) { uintptr_t g = (uintptr_t)gr_queue_dequeue(&q); if (g != ref.front()) fail("the queue returned element %zu, expected %zu", (size_t)g, (size_t)ref.front()); ref.pop_front(); }
    if (gr_queue_dequeue(&q)) fail("the queue returned an element that was not added");
    gr_queue_destroy(&q); note("queue: %d operations, up to %zu queued", ops, peak); count("queue operations", ops); if (peak >= 2) nontrivial();
}
struct stack S; std::multiset<void*>* g_in; std::set<void*>* g_out;
void stacks() {
    static std::set<void*> in, out; in.clear(); out.clear(); if (stack_construct(&S, 1 + choose(9))) fail("constructing a stack failed");
    int nt = range(1, 3), ops = range(3, 60); static uintptr_t next; next = 1; static int pushing; pushing = 0; set_sched(draw_sched(nt > 1)); std::vector<int> f;
    for (int t = 0; t < nt; t++) f.push_back(spawn("user", [ops]() {
        std::vector<void*> mine;
        for (int i = 0; i < ops; i++) {
            if (choose(2) || mine.empty()) { void* p = stack_pop(&S); if (!p) { p = (void*)next++; } else { auto it = in.find(p); if (it == in.end()) fail("the buffer pool handed out a buffer that was not returned to it, or one that is in use"); in.erase(it); } mine.push_back(p); }
            else { size_t k = choose(mine.size()); void* p = mine[k]; mine.erase(mine.begin() + k); in.insert(p); stack_push(&S, p); }
        }
        for (auto p : mine) { in.insert(p); stack_push(&S, p); }
    }));
    for (int x : f) join(x);
    for (void* p; (p = stack_pop(&S));) { auto it = in.find(p); if (it == in.end()) fail("the buffer pool handed out a buffer twice"); in.erase(it); }
    if (!in.empty()) fail("%zu buffers returned to the pool were lost", in.size());
    stack_destroy(&S); note("buffer pool: %d threads, %d operations each", nt, ops); count("buffer pool operations", ops * nt); if (next >= 4) nontrivial();
}
} // namespace
extern "C" void unit_c12() {
    switch (weighted({5, 2, 2})) { case 0: table(); break; case 1: queue(); break; default: stacks(); }
    if (resources().blocks) fail("a destroyed container still holds memory (%s)", resource_detail().c_str());
    count("direct container cases");
}
