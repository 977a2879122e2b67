// Client-side properties: a real client (or several threads sharing one) against a scripted server.
#include "world.h"
#include <algorithm>
using namespace vf;
namespace {
enum { PEND, ANSWERED, ERRORED, NOREPLY };
struct Call { struct gracht_message_context ctx; uint32_t id = 0, tag = 0; uint32_t reqn = 0, respn = 0; int state = PEND; bool fetched = false, lost = false; bool seen = false; };
struct World {
    Listener l; gracht_client_t* c = nullptr; Peer p; int max = 0, cap = 0; // cap: responses that may be held unfetched
    std::deque<Call> calls; uint32_t next_tag = 1; std::vector<uint32_t> ev_sent, ev_got; uint8_t ev_sid = 0; int known = 0; uint64_t cut = 0;
    std::vector<char> sendbuf; uint64_t unread = 0; bool single = false, dgram = false;
    struct EvS { uint8_t sid; bool on; gracht_protocol_function_t fn[2]; gracht_protocol_t proto; }; std::deque<EvS> evs; std::map<uint32_t, std::pair<int, int>> ev_kind;
};
World* W;
const uint32_t RESP = 0x40000000, EVT = 0x20000000;

template <int S, int F> void on_event(gracht_client_t* cl, gracht_buffer_t* b) {
    uint32_t t = 0; uint32_t n = check_body(b->data + b->index, W->max - HDR, &t);
    if (cl != W->c) fail("an event handler was given another client");
    if (!n || !(t & EVT)) fail("an event handler was given bytes that are not those of an event");
    { auto k = W->ev_kind[t & ~EVT]; if (k.first % 4 != S || k.second != F) fail("event %u ran the handler of another event", t & ~EVT); }
    W->ev_got.push_back(t & ~EVT);
    if (W->ev_got.size() > W->ev_sent.size()) fail("an event was delivered twice or never sent");
    if (W->ev_sent[W->ev_got.size() - 1] != (t & ~EVT)) fail("events were delivered out of order, lost or repeated: expected %u, got %u", W->ev_sent[W->ev_got.size() - 1], t & ~EVT);
}
void on_event_any(gracht_client_t* cl, gracht_buffer_t* b) { // arrival order is not claimed between threads
    uint32_t t = 0; uint32_t n = check_body(b->data + b->index, W->max - HDR, &t);
    if (!n || !(t & EVT)) fail("an event handler was given bytes that are not those of an event");
    for (auto x : W->ev_got) if (x == (t & ~EVT)) fail("event %u was delivered twice", x);
    W->ev_got.push_back(t & ~EVT);
}
typedef void (*evfn)(gracht_client_t*, gracht_buffer_t*);
evfn g_ev[4][2] = {{on_event<0, 0>, on_event<0, 1>}, {on_event<1, 0>, on_event<1, 1>}, {on_event<2, 0>, on_event<2, 1>}, {on_event<3, 0>, on_event<3, 1>}};
void setup(bool ordered = true, int mincap = 1, bool big = false, bool packets = false) {
    static World* old; delete old; W = old = new World;
    W->dgram = packets && chance(1, 4); if (W->dgram) count("cases on a packet link"); W->l.open("l", W->dgram); static const int maxes[] = {256, 64, 128, 512, 2048}; W->max = maxes[choose(mincap >= 30 ? 3 : 5)]; if (big && chance(1, 16)) { W->max = choose(2) ? 70000 : 20000; count("cases with a message limit above 10000"); }
    W->cap = mincap + choose(W->max > 10000 ? 3 : 12);
    bool own = chance(1, 4); if (own) W->sendbuf.resize(W->max);
    // room for cap unfetched responses, the message being received and (event handlers) one more, plus block headers
    W->c = make_client(W->l.addr, W->max, (W->max + 32) * (W->cap + 3), W->dgram, AF_LOCAL, true, own ? W->sendbuf.data() : nullptr);
    W->p = W->l.accept(W->dgram ? gracht_client_iod(W->c) : -1);
    int n = ordered ? range(1, 3) : 1; if (ordered && chance(1, 24)) n = range(4, 60); std::set<uint8_t> used;
    for (int i = 0; i < n; i++) {
        uint8_t sid = 1 + choose(254); while (used.count(sid)) sid = sid % 254 + 1; used.insert(sid);
        W->evs.emplace_back(); auto& e = W->evs.back(); e.sid = sid; e.on = true; uint8_t a = (uint8_t)choose(255); for (int f = 0; f < 2; f++) e.fn[f] = {ordered ? (uint8_t)(a + f) : (uint8_t)(7 + f), (void*)(ordered ? g_ev[i % 4][f] : on_event_any)};
        e.proto = {sid, (char*)"ev", 2, e.fn}; if (gracht_client_register_protocol(W->c, &e.proto)) fail("registering a protocol with the client failed");
    }
    W->ev_sid = W->evs[0].sid;
    note("client max=%d capacity=%d event services=%d%s%s", W->max, W->cap, n, own ? " own send buffer" : "", W->dgram ? " packet link" : "");
}
uint32_t size(uint32_t over) { uint32_t room = W->max - HDR - over; switch (weighted({4, 3, 1, 1})) { case 0: return choose(std::min<uint32_t>(room, 24)); case 1: return choose(room + 1); case 2: return room; default: return 0; } }
// sends a request through the client; runs in the fiber that calls it. type: T_SYNC or T_ASYNC
Call* call(uint8_t type = T_SYNC) {
    W->calls.emplace_back(); Call& k = W->calls.back(); k.tag = W->next_tag++; k.reqn = size(12); k.respn = size(12); memset(&k.ctx, 0, sizeof k.ctx); if (type != T_SYNC) { k.state = NOREPLY; k.fetched = true; }
    gracht_buffer_t b; if (gracht_client_get_buffer(W->c, &b)) fail("the client gave no buffer");
    if (b.index != 0) fail("the client gave a buffer in use");
    std::string f = make_frame(0, 9, (uint8_t)k.tag, type, body(k.tag, k.reqn));
    size_t half = choose(2) ? f.size() / 2 : 0; // write in two parts, so that another thread writing the same memory is noticed
    memcpy(b.data, f.data(), half); if (half) yield(); memcpy(b.data + half, f.data() + half, f.size() - half); b.index = f.size();
    if (gracht_client_invoke(W->c, type == T_SYNC ? &k.ctx : nullptr, &b)) { k.lost = true; return &k; }
    if (type == T_SYNC) k.id = k.ctx.message_id;
    return &k;
}
Call* by_tag(uint32_t t) { for (auto& k : W->calls) if (k.tag == t) return &k; return nullptr; }
// what arrived at the server; every request must be one intact message
void read_requests() {
    W->p.pump(); if (W->p.bad) fail("the server received a broken stream from the client: %s", W->p.bad_why.c_str());
    while (!W->p.frames.empty()) {
        Frame f = W->p.frames.front(); W->p.frames.pop_front(); uint32_t t = 0;
        uint32_t n = check_body(f.payload.data(), f.payload.size(), &t); Call* k = n ? by_tag(t) : nullptr;
        if (!n || n != f.payload.size() || !k || f.sid != 9 || f.aid != (uint8_t)t || n != 12 + k->reqn) fail("the server received an altered request");
        if (k->seen) fail("the server received request %u twice", t);
        k->seen = true;
        for (auto& o : W->calls) if (&o != k && o.seen && o.id == f.id) fail("two calls carry the same identity %u", f.id);
        k->id = f.id;
    }
}
std::string response(Call& k, uint32_t salt = 0) { return make_frame(k.id, 9, (uint8_t)k.tag, T_RESPONSE, body((k.tag + salt) | RESP, k.respn)); }
std::string error(uint32_t id) { std::string p; put32(p, id); put32(p, 22); return make_frame(0, 0, 2, T_EVENT, p); }
std::string event() { // of a registered service; an ignored one when none is registered
    std::vector<int> on; for (size_t i = 0; i < W->evs.size(); i++) if (W->evs[i].on) on.push_back(i);
    uint32_t t = W->next_tag++; if (on.empty()) return make_frame(choose(3), W->evs[0].sid, W->evs[0].fn[0].id, T_EVENT, body(t | EVT, size(12)));
    int i = on[choose(on.size())], f = choose(2); W->ev_sent.push_back(t); W->ev_kind[t] = {i, f}; return make_frame(choose(3), W->evs[i].sid, W->evs[i].fn[f].id, T_EVENT, body(t | EVT, size(12))); }
std::string unknown_event() {
    uint32_t t = W->next_tag++; auto& e = W->evs[choose(W->evs.size())]; uint8_t sd = e.sid, a = e.fn[1].id + 1 + choose(250);
    if (choose(2)) { a = e.fn[0].id; bool used = true; while (used) { sd = sd % 254 + 1; used = false; for (auto& x : W->evs) if (x.sid == sd && x.on) used = true; } }
    return make_frame(choose(100), sd, a, T_EVENT, body(t | EVT, size(12))); }
void drain();
void send(const std::string& b) { if ((W->max > 2048 || W->dgram) && W->single) { W->unread += b.size() + (W->dgram ? 1300 : 500); if (W->unread > 90000 && W->unread > b.size() + 1300) { drain(); W->unread = b.size() + 500; } } if (!W->p.send(b)) fail("the client closed the connection"); }
// fetches the result: 1 completed (verified), 0 in progress, -1 error/none
int fetch(Call& k) {
    gracht_buffer_t b; memset(&b, 0, sizeof b); errno = 0;
    int st = gracht_client_get_status_buffer(W->c, &k.ctx, &b);
    if (st == GRACHT_MESSAGE_COMPLETED) {
        if (k.fetched) fail("the result of call %u was obtained twice", k.tag);
        if (k.state != ANSWERED) fail("call %u has a result although the server %s", k.tag, k.state == PEND ? "did not answer it" : "reported an error for it");
        uint32_t t = 0; uint32_t n = b.data ? check_body(b.data + b.index, W->max - HDR, &t) : 0;
        if (!n || t != (k.tag | RESP) || n != 12 + k.respn) fail("call %u obtained a result that is not the response to it (got %s%u)", k.tag, n ? "that of " : "garbage ", t & ~RESP);
        k.fetched = true;
        if (gracht_client_status_finalize(W->c, &b)) fail("releasing the result of call %u failed", k.tag);
    } else if (st == GRACHT_MESSAGE_ERROR) {
        if (!k.fetched && k.state == PEND && !k.lost) fail("call %u in progress reports an error (errno %d)", k.tag, errno);
        if (!k.fetched && k.state == ANSWERED) fail("the response to call %u was lost (errno %d)", k.tag, errno);
        k.fetched = true;
    } else if (k.fetched) fail("call %u is in progress again after its result was obtained", k.tag);
    return st;
}
int held() { int n = 0; for (auto& k : W->calls) if (k.state == ANSWERED && !k.fetched) n++; return n; }
std::vector<Call*> pick(const std::function<bool(Call&)>& f) { std::vector<Call*> r; for (auto& k : W->calls) if (f(k)) r.push_back(&k); return r; }
void finish(bool closed = false) {
    gracht_client_shutdown(W->c); for (auto& x : W->sendbuf) x = 1; Resources r = resources();
    if (r.blocks || r.fds) fail("a client that was shut down still holds %llu allocations and %llu descriptors (%s)", (unsigned long long)r.blocks, (unsigned long long)r.fds, resource_detail().c_str());
}

// ------------------------------------------------------------------ C02
uint64_t g_strays, g_reordered, g_early;
// drain: handle everything that has been sent
void drain() {
    for (int i = 0; i < 100000; i++) if (wait_msg(W->c, nullptr, 0)) { if (errno != EAGAIN && errno != EWOULDBLOCK) fail("the client reports an error (errno %d) on a healthy connection", errno); return; }
    fail("the client never runs out of messages");
}
// more messages than fit in 16 bits while calls are in the air
void bulk() {
    std::set<uint32_t> ids; for (auto& k : W->calls) if (k.state == PEND) ids.insert(k.id);
    uint32_t n = 65536 + choose(80); note("%u messages without response", n); count("bulk runs"); std::string f = make_frame(0, 9, 3, T_ASYNC, ""); uint64_t got = 0;
    for (uint32_t i = 0; i < n; i++) {
        gracht_buffer_t b; if (gracht_client_get_buffer(W->c, &b)) fail("the client gave no buffer");
        memcpy(b.data, f.data(), f.size()); b.index = f.size(); if (gracht_client_invoke(W->c, nullptr, &b)) fail("a message could not be sent");
        if (i % 64 == 63 || i + 1 == n) { W->p.pump(); while (!W->p.frames.empty()) { Frame& x = W->p.frames.front(); if (ids.count(x.id)) fail("two calls carry the same identity %u", x.id); if (!x.payload.empty() || x.sid != 9) fail("the server received an altered message"); got++; W->p.frames.pop_front(); } }
    }
    if (got != n) fail("%u messages were sent but %llu arrived", n, (unsigned long long)got);
}
void c02_run() {
    setup(true, 1, true, true); W->single = true; set_sched(draw_sched(false)); g_strays = g_reordered = g_early = 0; uint64_t done = 0;
    int ops = range(4, 30); if (chance(1, 8)) ops = range(100, 400); // long histories exhaust anything that leaks
    uint32_t last_answered = 0; int in_sock = 0; // messages sent that the client has not necessarily read
    for (int o = 0; o < ops; o++) {
        auto open = pick([](Call& k) { return k.state == PEND; });
        auto ready = pick([](Call& k) { return k.state != PEND && !k.fetched; });
        switch (weighted({6, 6, 2, 2, 2, 1, 3, 3, 3, 5, 2, 1, 1})) {
        case 0: { if (open.size() >= 40) break; Call* k = call(); read_requests(); if (!k->seen) fail("a request did not reach the server"); note("call %u (id %u)", k->tag, k->id); break; }
        case 1: if (!open.empty() && held() < W->cap) { // respond
            Call* k = open[choose(open.size())]; if (k->tag < last_answered) g_reordered++; last_answered = k->tag; k->state = ANSWERED; send(response(*k)); in_sock++; note("server answers %u", k->tag); } break;
        case 2: if (!open.empty()) { Call* k = open[choose(open.size())]; k->state = ERRORED; send(error(k->id)); note("server reports an error for %u", k->tag); } break;
        case 3: send(event()); note("server sends event %u", W->ev_sent.empty() ? 0 : W->ev_sent.back()); break;
        case 4: { // stray or repeated
            Call x; uint32_t w = choose(4);
            if (w == 0) { x.id = 100000 + choose(1000); x.tag = 5; send(response(x, 1000)); note("server answers an unknown call"); }
            else if (!ready.empty() || W->calls.size()) {
                auto c = pick([](Call& k) { return k.state == ANSWERED || k.state == ERRORED; }); if (c.empty()) break;
                Call* k = c[choose(c.size())];
                if (w == 3) { send(error(k->id)); note("server reports an error for %u, which is already answered", k->tag); }
                else { send(response(*k, 1000)); note("server answers %u again", k->tag); }
            }
            g_strays++; break; }
        case 5: send(unknown_event()); note("server sends an event of an unknown kind"); break;
        case 6: { int r = wait_msg(W->c, nullptr, 0); if (r && errno != EAGAIN && errno != EWOULDBLOCK) fail("the client reports an error (errno %d) on a healthy connection", errno); note("poll -> %d", r); break; }
        case 7: if (!ready.empty()) { Call* k = ready[choose(ready.size())]; bool bl = choose(2); int r = wait_msg(W->c, &k->ctx, bl ? GRACHT_MESSAGE_BLOCK : 0);
            note("wait for %u -> %d", k->tag, r); if (r) fail("waiting for call %u, which has been answered, failed (errno %d)", k->tag, errno);
            if (fetch(*k) == 0) fail("call %u is in progress after waiting for it", k->tag); done++; } break;
        case 8: if (!ready.empty()) { // await a set: all of it answered, or any mode with at least one answered
            std::vector<struct gracht_message_context*> cx; std::vector<Call*> set; bool any = choose(2);
            for (auto k : ready) if (choose(2) || cx.empty()) { cx.push_back(&k->ctx); set.push_back(k); }
            if (any) for (auto k : open) if (choose(2)) { cx.push_back(&k->ctx); set.push_back(k); }
            int r = await_msgs(W->c, cx.data(), cx.size(), any ? GRACHT_AWAIT_ANY : GRACHT_AWAIT_ALL);
            note("await %s of %zu -> %d", any ? "any" : "all", cx.size(), r);
            if (r) fail("awaiting answered calls failed (errno %d)", errno);
            int ok = 0; for (auto k : set) { int s = fetch(*k); if (s) ok++; else if (!any) fail("call %u is in progress after awaiting all", k->tag); }
            if (!ok) fail("awaiting any of several calls returned with all of them in progress");
            done++; } break;
        case 9: if (!W->calls.empty()) { Call& k = W->calls[choose(W->calls.size())]; if (k.state == NOREPLY) break; bool was = k.state == PEND; int s = fetch(k); if (was) g_early++; note("result of %u -> %d", k.tag, s); } break;
        case 10: drain(); note("drain"); for (auto& k : W->calls) if (k.state != PEND && !k.fetched && choose(2)) if (fetch(k) == 0) fail("the response to call %u was received but its result is not there", k.tag); break;
        case 11: call(T_ASYNC); read_requests(); if (!open.empty() && chance(1, 1200)) bulk(); break;
        case 12: if (choose(2)) { drain(); auto& e = W->evs[choose(W->evs.size())]; note("%sregister service %u", e.on ? "un" : "", e.sid); if (e.on) gracht_client_unregister_protocol(W->c, &e.proto); else if (gracht_client_register_protocol(W->c, &e.proto)) fail("registering a service again failed"); e.on = !e.on; }
            break;
        }
    }
    // answer the rest, in any order, keeping within the memory
    for (;;) {
        drain(); for (auto& k : W->calls) if (k.state != PEND && !k.fetched) if (fetch(k) == 0) fail("the response to call %u was received but its result is not there", k.tag);
        auto open = pick([](Call& k) { return k.state == PEND && k.ctx.message_id; }); if (open.empty()) break;
        for (int i = 0; i < W->cap && !open.empty(); i++) { size_t j = choose(open.size()); open[j]->state = ANSWERED; send(response(*open[j])); open.erase(open.begin() + j); done++; }
    }
    if (W->ev_got.size() != W->ev_sent.size()) fail("%zu of %zu events were not delivered", W->ev_sent.size() - W->ev_got.size(), W->ev_sent.size());
    count("results obtained", done); count("stray or repeated responses", g_strays); count("responses out of order", g_reordered); count("results asked for too early", g_early);
    if (done >= 2 && (g_strays || g_reordered || g_early || W->ev_sent.size())) nontrivial();
    finish();
}
Register r02("C02", "a case is one client (message limit, receive memory for 1-12 unfetched responses) and a scripted server; the history mixes calls, responses in any order, errors, events, unknown events, stray and repeated responses, polls, waits, awaits and result queries at any time. Non-trivial: at least 2 results obtained and at least one reordered, stray or repeated response, event or early query", c02_run);

// ------------------------------------------------------------------ C10
struct Waiter { int fiber; std::vector<Call*> set; unsigned flags; bool returned = false, started = false; int ret = 0, err = 0; bool via_wait = false; };
void c10() {
    bool many = chance(1, 16); setup(false, many ? 50 : 3, false, true); int ncalls = many ? range(9, 50) : range(1, std::min(W->cap, 8)); if (many) count("cases with more than 8 calls"); bool async = choose(2), mixed = chance(1, 4); int nwait = chance(1, 16) ? range(5, 20) : range(1, 4), npump = async ? range(1, 2) : 0;
    static std::deque<Waiter> ws; ws.clear(); static int pumps; pumps = 0; static bool lost; lost = false; std::vector<int> pf;
    for (int i = 0; i < ncalls; i++) { call(); if (many) read_requests(); }
    read_requests();
    set_sched(draw_sched());
    auto wcond = [](Waiter& w) { size_t n = 0; for (auto k : w.set) n += k->state != PEND; return w.flags & GRACHT_AWAIT_ALL ? n == w.set.size() : n > 0; };
    for (int i = 0; i < npump; i++) { pumps++; pf.push_back(spawn("pump", []() { while (!wait_msg(W->c, nullptr, GRACHT_MESSAGE_BLOCK) && !(W->dgram && lost)) {} pumps--; })); }
    auto start = [&](int i) {
        ws.emplace_back(); Waiter* w = &ws.back(); bool a = async && !(mixed && choose(2));
        for (auto& k : W->calls) if (choose(2)) w->set.push_back(&k);
        if (w->set.empty()) w->set.push_back(&W->calls[choose(W->calls.size())]);
        w->flags = (choose(2) ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY) | (a ? GRACHT_AWAIT_ASYNC : 0); w->via_wait = !a && w->set.size() == 1 && chance(1, 3);
        note("waiter %zu: %s of %zu calls%s", ws.size() - 1, w->flags & GRACHT_AWAIT_ALL ? "all" : "any", w->set.size(), a ? ", asynchronous" : w->via_wait ? ", wait" : "");
        w->fiber = spawn("waiter", [w, wcond]() {
            std::vector<struct gracht_message_context*> cx; for (auto k : w->set) cx.push_back(&k->ctx);
            if (w->via_wait) w->ret = wait_msg(W->c, cx[0], GRACHT_MESSAGE_BLOCK);
            else if (cx.size() == 1) w->ret = await_msg(W->c, cx[0], w->flags);
            else w->ret = await_msgs(W->c, cx.data(), cx.size(), w->flags);
            w->err = errno; w->returned = true;
            if (!w->ret && !wcond(*w)) fail("waiting for %s of %zu calls succeeded although its condition is not met", w->flags & GRACHT_AWAIT_ALL ? "all" : "any", w->set.size());
            if (w->ret && !lost) fail("waiting failed (errno %d) although the connection is fine", w->err);
        });
    };
    int started = 0; bool early = chance(1, 2); if (early) for (; started < nwait; started++) start(started);
    auto check = [&](bool end) {
        settle();
        for (size_t i = 0; i < ws.size(); i++) { Waiter& w = ws[i]; if (!w.returned && wcond(w)) fail("waiter %zu is still waiting although its condition is met [%s]", i, fiber_states().c_str()); if (end && !w.returned) fail("waiter %zu hangs after the connection was lost [%s]", i, fiber_states().c_str()); }
    };
    bool lose = chance(1, 3) && !W->dgram; int lose_at = lose ? choose(ncalls + 1) : -1; int sent = 0; int steps = 0; bool all_sent = false;
    for (;;) {
        if (started < nwait && choose(3) == 0) start(started++);
        if (sent == lose_at) { lost = true; note("connection lost"); if (choose(2)) W->p.close(); else ::shutdown(W->p.fd, SHUT_RDWR); break; }
        auto open = pick([](Call& k) { return k.state == PEND; });
        if (open.empty()) { all_sent = true; if (started >= nwait) break; continue; }
        switch (weighted({5, 2, 1, 3})) {
        case 0: { Call* k = open[choose(open.size())]; k->state = ANSWERED; sent++; note("answer %u", k->tag); send(response(*k)); break; }
        case 1: { Call* k = open[choose(open.size())]; k->state = ERRORED; sent++; note("error %u", k->tag); send(error(k->id)); break; }
        case 2: send(event()); break;
        case 3: if (choose(2)) check(false); else yield(); break;
        }
        if (++steps > 200) break;
    }
    if (!lost) for (auto& k : W->calls) if (k.state == PEND) { k.state = ANSWERED; send(response(k)); }
    for (; started < nwait; started++) start(started);
    if (!lost) check(false);
    if (!lost) { // with everything answered all waiters are done; end the pump threads
        for (auto& w : ws) if (!w.returned || w.ret) fail("a waiter did not return although everything was answered [%s]", fiber_states().c_str());
        lost = true; if (!W->dgram) W->p.close(); else for (int i = 0; pumps && i < 4; i++) { settle(); send(unknown_event()); } settle();
    } else { check(true); for (auto& w : ws) if (w.ret == 0 && !wcond(w)) fail("a wait succeeded although the connection was lost before its condition was met"); }
    if (pumps) fail("a thread pumping messages hangs after the connection was lost [%s]", fiber_states().c_str());
    count(lose ? "cases with connection loss" : "cases without connection loss"); count(async ? "asynchronous cases" : "synchronous cases");
    if (ncalls >= 2 && (nwait >= 2 || async || lose)) nontrivial();
    // everything that was answered and handled can still be fetched
    for (auto& k : W->calls) { k.lost = true; if (!lose) fetch(k); }
    finish();
}
Register r10("C10", "a case has 1-8 calls in the air, 1-4 waiters (any/all, synchronous, asynchronous with 1-2 pumping threads, or both), responses, errors and events in random order and a random schedule of all threads; a third lose the connection at a random point. Non-trivial: at least 2 calls and several waiters, asynchronous mode or a lost connection", c10);

// ------------------------------------------------------------------ C20
struct Th { int fiber; std::vector<Call*> waiting; unsigned flags = 0; bool blocked = false, done = false; int calls = 0; };
void c20() {
    bool many = chance(1, 16); setup(false, many ? 30 : 8, false, true); int n = many ? range(5, 12) : range(2, 4), rounds = range(1, 6); static std::deque<Th> th; th.clear(); static int nth; nth = n;
    set_sched(draw_sched());
    for (int i = 0; i < n; i++) {
        th.emplace_back(); Th* t = &th.back(); int seed = i; (void)seed;
        t->fiber = spawn("user", [t, rounds]() {
            for (int r = 0; r < rounds; r++) {
                std::vector<Call*> mine; int k = 1 + choose(2);
                for (int j = 0; j < k; j++) { if (chance(1, 5)) call(T_ASYNC); Call* c = call(); if (c->lost) fail("a call failed on a healthy connection"); mine.push_back(c); t->calls++; if (chance(1, 8)) { int s = fetch(*c); if (s) mine.pop_back(); } }
                while (!mine.empty()) {
                    std::vector<Call*> set; std::vector<struct gracht_message_context*> cx;
                    if (choose(2)) set.push_back(mine[choose(mine.size())]); else set = mine;
                    for (auto c : set) cx.push_back(&c->ctx);
                    unsigned fl = choose(2) ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY; int rc;
                    t->waiting = set; t->flags = fl; t->blocked = true;
                    if (set.size() == 1 && choose(2)) rc = wait_msg(W->c, cx[0], GRACHT_MESSAGE_BLOCK);
                    else rc = await_msgs(W->c, cx.data(), cx.size(), fl);
                    int e = errno; t->blocked = false;
                    if (rc) fail("a thread's wait failed (errno %d) on a healthy connection", e);
                    int got = 0; for (auto c : set) { int s = fetch(*c); if (s) { got++; for (size_t m = 0; m < mine.size(); m++) if (mine[m] == c) { mine.erase(mine.begin() + m); break; } } else if (fl & GRACHT_AWAIT_ALL) fail("call %u is in progress although waiting for it succeeded", c->tag); }
                    if (!got) fail("a thread's wait succeeded without any result");
                }
            }
            t->done = true; nth--;
        });
    }
    int steps = 0; uint64_t both = 0;
    for (;;) {
        bool quiet = choose(2); if (quiet) settle(); else yield();
        read_requests();
        if (quiet) { int bl = 0; for (auto& t : th) if (t.blocked) { bl++; size_t k = 0; for (auto c : t.waiting) k += c->state != PEND; if (t.flags & GRACHT_AWAIT_ALL ? k == t.waiting.size() : k > 0) fail("a thread is blocked although its response has arrived [%s]", fiber_states().c_str()); } if (bl >= 2) both++; }
        auto open = pick([](Call& k) { return k.state == PEND && k.seen && k.ctx.message_id; });
        if (open.empty()) { if (!nth) break; if (quiet && others_blocked()) { bool any = false; for (auto& t : th) if (!t.done && !t.blocked) any = true; if (!any && pick([](Call& k) { return k.state == PEND && k.ctx.message_id && !k.seen; }).empty()) { if (++steps > 50) fail("threads are stuck although every call was answered [%s]", fiber_states().c_str()); } } continue; }
        steps = 0;
        if (held() >= W->cap) continue;
        Call* k = open[choose(open.size())];
        switch (weighted({6, 1, 1, 2})) { case 0: k->state = ANSWERED; send(response(*k)); break; case 1: k->state = ERRORED; send(error(k->id)); break; case 2: send(event()); break; default: break; }
    }
    count("checks with several threads blocked", both);
    if (both) nontrivial();
    settle(); drain(); if (W->ev_got.size() != W->ev_sent.size()) fail("events were lost");
    finish();
}
Register r20("C20", "2-4 threads share one client and make 1-12 calls each (1-2 at a time, some without response), waiting by wait or await (any/all) and fetching results, under a random schedule; the server answers in random order with errors and events in between. Non-trivial: two threads were blocked at once while the server was quiet", c20);
} // namespace

void c02() { c02_run(); }
// ------------------------------------------------------------------ C07, client side
void c07_client() {
    setup(true, 1, true, true); W->single = true; set_sched(draw_sched(false)); int n = range(1, std::min(W->cap, 4)); int ops = range(1, 10); bool broken = false; int pend = 0; (void)pend;
    for (int i = 0; i < n; i++) { call(); read_requests(); }
    auto junk = [](uint32_t n) { std::string r; for (uint32_t i = 0; i < n; i++) r += (char)choose(256); return r; };
    for (int i = 0; i < ops && !broken; i++) {
        auto open = pick([](Call& k) { return k.state == PEND; }); uint32_t l;
        switch (weighted({3, 2, 3, 1, 2, 3})) {
        case 0: if (!open.empty()) { Call* k = open[choose(open.size())]; k->state = ANSWERED; send(response(*k)); note("answer %u", k->tag); } break;
        case 1: send(event()); break;
        case 2: { uint8_t sd = (uint8_t)choose(256), ai = (uint8_t)(8 + choose(200)); for (auto& e : W->evs) if (e.sid == sd) ai = e.fn[1].id + 1; send(make_frame(choose(2) ? choose(8) : bits32(), sd, ai, (uint8_t)(choose(64) * 4 + choose(3)), junk(choose(24)))); } note("odd frame"); break; // any type but a response
        case 3: send(make_frame(choose(8), 0, (uint8_t)choose(4), T_EVENT, [&] { std::string p; put32(p, 4000000000u); return p + junk(choose(8)); }())); note("odd control event"); break;
        case 4: { Call x; x.id = 1000000 + choose(1000); x.tag = 1; x.respn = size(12); send(response(x)); note("answer to nobody"); break; }
        case 5: if (W->dgram) { // a packet that is not exactly one message is ignored
                std::string f; size_t r = 0; auto hdr = [&](uint32_t len) { put32(f, open.empty() ? 1 : open[0]->id); put32(f, len); f += (char)W->ev_sid; f += (char)W->evs[0].fn[0].id; f += (char)(choose(2) ? T_EVENT : T_RESPONSE); };
                switch (choose(5)) {
                case 0: f = junk(1 + choose(HDR - 1)); break;                                           // too short for a header
                case 1: hdr(choose(HDR)); r = choose(40); break;                                       // announces less than a header
                case 2: r = choose(std::min(W->max - HDR, 60)); hdr(HDR + r + 1 + choose(choose(2) ? 8 : 100000)); break;   // announces more than it has
                case 3: r = 1 + choose(std::min(W->max - HDR, 60)); hdr(HDR + choose(r)); break;       // has more than it announces
                default: r = W->max - HDR + 1 + choose(200); hdr(W->max + 1 + choose(2) * 1000000); break; // beyond the limit
                }
                f += junk(r); if (!W->p.send_packet(f)) fail("the client closed its socket"); note("malformed packet of %zu bytes", f.size()); count("malformed packets to the client"); break;
            }
            switch (choose(6)) { case 0: l = choose(HDR); break; case 1: l = HDR - 1; break; case 2: l = W->max + 1 + choose(3); break; case 3: l = W->max + 1 + choose(5000); break; case 4: l = 0xFFFFFFFFu - choose(16); break; default: l = 0x80000000u + choose(64); }
            { std::string f; put32(f, open.empty() ? 1 : open[0]->id); put32(f, l); f += (char)W->ev_sid; f += (char)W->evs[0].fn[0].id; f += (char)(choose(2) ? T_EVENT : T_RESPONSE); f += junk(choose(60)); send(f); note("frame announcing %u bytes", l); broken = true; }
            break;
        }
        if (choose(3) == 0 && !broken) drain();
    }
    int r = 0, k = 0; for (; k < 1000 && !(r = wait_msg(W->c, nullptr, 0)); k++) {}
    if (k >= 1000) fail("the client never runs out of messages");
    if (broken && (errno == EAGAIN || errno == EWOULDBLOCK)) { r = wait_msg(W->c, nullptr, 0); if (!r) fail("the client accepted a frame with an invalid length"); }
    for (auto& x : W->calls) { if (broken) x.lost = x.state == PEND; if (x.state != PEND && fetch(x) == 0) fail("the response to call %u, sent before the malformed frame, was lost", x.tag); else if (x.state == PEND && fetch(x) == 1) fail("call %u has a result nobody sent", x.tag); }
    if (W->ev_got.size() != W->ev_sent.size()) fail("events sent before the malformed frame were lost");
    if (ops >= 2) nontrivial();
    count("malformed client streams", broken); finish();
}

// ------------------------------------------------------------------ C06, client side
void c06_client() {
    setup(true, 1, true); set_sched(draw_sched()); int n = range(1, std::min(W->cap, 6)); std::string bytes; static bool fin; fin = false; std::vector<Call*> cs;
    for (int i = 0; i < n; i++) { call(); read_requests(); } int msgs = 0;
    auto open = pick([](Call&) { return true; });
    while (!open.empty()) {
        switch (weighted({4, 1, 3, 1})) {
        case 0: { size_t j = choose(open.size()); open[j]->state = ANSWERED; bytes += response(*open[j]); open.erase(open.begin() + j); break; }
        case 1: { size_t j = choose(open.size()); open[j]->state = ERRORED; bytes += error(open[j]->id); open.erase(open.begin() + j); break; }
        case 2: bytes += event(); break;
        case 3: bytes += unknown_event(); break;
        }
        msgs++;
    }
    int mode = choose(3); note("client %s", mode == 0 ? "polls" : mode == 1 ? "blocks" : "mixes polling and blocking");
    int f = spawn("app", [mode]() {
        for (;;) {
            bool bl = mode == 1 || (mode == 2 && choose(2));
            int r = wait_msg(W->c, nullptr, bl ? GRACHT_MESSAGE_BLOCK : 0);
            if (!r) continue;
            if (errno == EAGAIN || errno == EWOULDBLOCK) { wait_fd(gracht_client_iod(W->c), POLLIN); continue; }
            if (!fin) fail("the client reports an error (errno %d) although the stream is well-formed", errno);
            return;
        }
    });
    size_t o = 0; int segs = range(1, 14), cuts = 0;
    for (int i = 0; i < segs && o < bytes.size(); i++) {
        size_t k = choose(3) ? 1 + choose(24) : 1 + choose(bytes.size()); if (i + 1 == segs || o + k > bytes.size()) k = bytes.size() - o;
        send(bytes.substr(o, k)); o += k; cuts++; note("segment of %zu bytes", k); if (choose(3)) settle(); else yield();
    }
    settle(); fin = true; W->p.close(); settle();
    if (alive(f)) fail("the client hangs after the stream ended [%s]", fiber_states().c_str());
    for (auto& k : W->calls) if (fetch(k) == 0) fail("the response to call %u was lost", k.tag);
    if (W->ev_got.size() != W->ev_sent.size()) fail("%zu of %zu events were lost", W->ev_sent.size() - W->ev_got.size(), W->ev_sent.size());
    if (cuts >= 2 && msgs >= 2) nontrivial();
    count("client streams", 1); count("segments", cuts);
    finish();
}
// ------------------------------------------------------------------ C22, client side
void c22_client() { interrupts(true); switch (choose(4)) { case 0: c06_client(); break; case 1: c10(); break; case 2: c20(); break; default: c02_run(); } }
