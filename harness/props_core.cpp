// C11 and C12: direct tests of the internal pool and containers where their interface allows, and end to end.
#include "server_model.h"
#include <algorithm>
using namespace vf;
extern "C" __attribute__((weak)) void unit_c11();
extern "C" __attribute__((weak)) void unit_c12();
void c02();
static void fresh(Model*& m) { static Model* old; if (old) for (auto& d : old->deferred) free(d.m); delete old; m = old = new Model; on_connected = nullptr; on_disconnected = nullptr; }

static void c11() {
    if (unit_c11 && chance(9, 10)) { unit_c11(); return; }
    if (chance(1, 3)) { c02(); return; }
    // a server with workers receives far more than its pool holds, with handlers keeping messages for varying times
    Model* m; fresh(m); Weights w; w.fixed_workers = range(2, 4); w.batch = 10; w.quiesce = 1; w.connect = 1; w.disconnect = 1; w.partial = 1; w.max_batch = 60; w.min_ops = 6; w.max_ops = 60; w.min_clients = 1; w.max_clients = 6; w.unserveable = 1;
    w.beh[ECHO] = 4; w.beh[SILENT] = 8; w.beh[SLOW] = 6; w.beh[DEFER] = 1; w.release = 2;
    m->run(w); count("end-to-end cases"); count("requests handled end to end", m->handled_total);
    if (m->handled_total >= 50 && m->inflight_max >= 4) nontrivial();
}
static Register r11("C11", "a case is a sequence of 4-360 allocations, shrinks and releases (sizes uniform or mixed, pools of 64 bytes to 20 MB, a fifth with 2-3 threads) on the receive pool with a map of live buffers as reference; 1 in 10 cases instead runs a worker server or a client end to end through a long history with checked contents. Non-trivial: at least 3 buffers with 2 live at once (end to end: 50 requests with 4 in flight)", c11);

// ------------------------------------------------------------------ end-to-end registries
struct Many { Srv srv; uint32_t calls[256][4]; gracht_protocol_function_t fn[256][4]; gracht_protocol_t proto[256]; int nfn[256]; bool reg[256]; };
static Many* Q;
static void many_handler(struct gracht_message* m, gracht_buffer_t* b) { // payload: [sid][aid]
    const char* p = b->data + b->index; uint8_t s = p[0], a = p[1];
    gracht_buffer_t o; if (gracht_server_get_buffer(m->server, &o)) fail("no buffer"); memset(o.data, 0, 8); o.data[8] = s; o.data[9] = a; o.data[10] = T_RESPONSE; o.data[11] = s; o.data[12] = a; o.index = 13; gracht_server_respond(m, &o);
}
static void c12_services() {
    static Many* old; delete old; Q = old = new Many; memset(Q->reg, 0, sizeof Q->reg); set_sched(draw_sched(false)); SrvCfg c; c.workers = choose(3); c.max = 256; Q->srv.start(c);
    int n = chance(1, 3) ? range(100, 255) : range(2, 40), ops = range(3, 20); uint64_t calls = 0; std::vector<uint8_t> ids; { std::set<uint8_t> u; while ((int)u.size() < n) { uint8_t x = range(1, 255); while (u.count(x) || !x) x++; u.insert(x); ids.push_back(x); } }
    for (uint8_t i : ids) { Q->nfn[i] = range(1, 4); for (int a = 0; a < Q->nfn[i]; a++) Q->fn[i][a] = {(uint8_t)(a * 5), (void*)many_handler}; Q->proto[i] = {i, (char*)"s", (uint8_t)Q->nfn[i], Q->fn[i]}; }
    settle(); Peer p; if (!p.connect(Q->srv.addr)) fail("cannot connect"); settle(); uint32_t id = 1; size_t regs = 0, peak = 0;
    for (int o = 0; o < ops; o++) {
        int k = range(1, chance(1, 3) ? 120 : 12); bool up = choose(3) != 0;
        for (int i = 0; i < k; i++) { uint8_t s = ids[choose(ids.size())]; if (up) { int r = gracht_server_register_protocol(Q->srv.s, &Q->proto[s]); if (!r == Q->reg[s]) fail(r ? "registering service %u was refused" : "registering service %u twice was accepted", s); if (!Q->reg[s]) regs++; Q->reg[s] = true; } else { gracht_server_unregister_protocol(Q->srv.s, &Q->proto[s]); if (Q->reg[s]) regs--; Q->reg[s] = false; } }
        peak = std::max(peak, regs); note("%s %d times, %zu services registered", up ? "register" : "unregister", k, regs);
        int q = range(1, 8); if (chance(1, 6)) q = n; std::map<uint32_t, std::pair<uint8_t, uint8_t>> want; std::map<uint32_t, bool> ok; std::string out;
        for (int i = 0; i < q; i++) { uint8_t s = q == n ? ids[i] : ids[choose(ids.size())]; int a = choose(5); uint8_t aid = a * 5; std::string pl; pl += (char)s; pl += (char)aid; want[id] = {s, aid}; ok[id] = Q->reg[s] && a < Q->nfn[s]; out += make_frame(id++, s, aid, T_SYNC, pl); calls++; }
        p.send(out); do settle(); while (p.pump()); if (p.eof || p.bad) fail("the server closed the connection or sent garbage");
        for (auto& f : p.frames) {
            if ((f.flags & 3) == T_RESPONSE) { auto w = want.find(f.id); if (w == want.end() || f.payload.size() != 2 || (uint8_t)f.payload[0] != w->second.first || (uint8_t)f.payload[1] != w->second.second) fail("a call was answered by another service"); if (!ok[f.id]) fail("service %u function %u, which is not registered, answered", w->second.first, w->second.second); want.erase(w); }
            else { uint32_t e = get32(f.payload.data()); auto w = want.find(e); if (w == want.end()) fail("an error for no call"); if (ok[e]) fail("service %u function %u is registered but was not found (%zu services)", w->second.first, w->second.second, regs); want.erase(w); }
        }
        p.frames.clear(); if (!want.empty()) fail("a call to service %u was neither answered nor refused", want.begin()->second.first);
    }
    count("service registry cases"); count("calls across services", calls); if (peak >= 10) nontrivial();
}
// many simultaneous calls of one client and many clients of one server
static void c12_calls() {
    Listener l; l.open("l"); set_sched(draw_sched(false)); int burst = chance(1, 3) ? range(60, 300) : range(5, 60); gracht_client_t* c = make_client(l.addr, 128, (128 + 32) * (burst + 3)); Peer p = l.accept(); int rounds = range(1, 3); uint64_t done = 0;
    std::vector<struct gracht_message_context> cx(burst); std::vector<int> open, ready, fetched; std::vector<uint32_t> val(burst);
    for (int r = 0; r < rounds; r++) {
        std::vector<char> st(burst, 0); // 0 free 1 open 2 ready
        int made = 0, fin = 0;
        while (fin < burst) {
            uint32_t k = weighted({made < burst ? 5u : 0u, 4, 3}); std::vector<int> o, q; for (int i = 0; i < burst; i++) { if (st[i] == 1) o.push_back(i); if (st[i] == 2) q.push_back(i); }
            if (k == 0) for (int n = range(1, 30); n-- > 0 && made < burst; made++) { gracht_buffer_t b; if (gracht_client_get_buffer(c, &b)) fail("the client gave no buffer"); std::string f = make_frame(0, 9, 1, T_SYNC, "x"); memcpy(b.data, f.data(), f.size()); b.index = f.size(); cx[made] = {}; if (gracht_client_invoke(c, &cx[made], &b)) fail("a call failed"); st[made] = 1; p.pump(); p.frames.clear(); }
            else if (k == 1) for (int n = range(1, 30); n-- > 0 && !o.empty();) { size_t j = choose(o.size()); int i = o[j]; o.erase(o.begin() + j); val[i] = cx[i].message_id * 7 + r; std::string pl; put32(pl, val[i]); if (!p.send(make_frame(cx[i].message_id, 9, 1, T_RESPONSE, pl))) fail("the client closed the connection"); st[i] = 2; }
            else { while (!gracht_client_wait_message(c, nullptr, 0)) {} for (int n = range(1, 40); n-- > 0 && !q.empty();) { size_t j = choose(q.size()); int i = q[j]; q.erase(q.begin() + j); gracht_buffer_t b{}; int s = gracht_client_get_status_buffer(c, &cx[i], &b); if (s != GRACHT_MESSAGE_COMPLETED) fail("the result of one of %d simultaneous calls is missing (status %d)", burst, s); if (get32(b.data + b.index) != val[i]) fail("a call obtained the result of another"); gracht_client_status_finalize(c, &b); st[i] = 3; fin++; done++; } }
            if (choose(20) == 0 && made) { int i = choose(made); if (st[i] == 1) { gracht_buffer_t b{}; if (gracht_client_get_status_buffer(c, &cx[i], &b) != GRACHT_MESSAGE_INPROGRESS) fail("a call in progress is not found"); } }
        }
    }
    note("%d simultaneous calls, %d rounds", burst, rounds); gracht_client_shutdown(c); count("call registry cases"); count("calls registered", done); if (burst >= 14) nontrivial();
}
static void c12_clients() {
    Model* m; fresh(m); Weights w; w.batch = 6; w.connect = 0; w.disconnect = 0; w.quiesce = 0; w.min_clients = 14; w.max_clients = 60; w.min_ops = 4; w.max_ops = 20; w.max_batch = 2; w.beh[ECHO] = 10; w.beh[SILENT] = 0; w.beh[SLOW] = 0; w.bcast = 1; w.external = false; w.concurrent = false;
    m->start(w); set_sched(draw_sched(false)); int n = range(w.min_ops, w.max_ops);
    for (int i = 0; i < n; i++) switch (choose(4)) { // waves of arrivals and departures
        case 0: { int k = range(1, 30); for (int j = 0; j < k; j++) { int live = 0; for (auto& x : m->cl) live += x->open; if (live < 70) m->connect(); } m->quiesce(); break; }
        case 1: { int k = range(1, 40); for (int j = 0; j < k; j++) { int c = m->pick_open(); if (c >= 0) m->disconnect(c, choose(2)); } m->quiesce(); break; }
        default: for (int j = 0; j < 10; j++) m->op(); m->quiesce(); }
    m->quiesce(); count("client registry cases"); count("clients", m->cl.size()); if (m->handled_total >= 5) nontrivial();
}
static void c12() {
    if (unit_c12 && chance(4, 5)) { unit_c12(); return; }
    switch (weighted({4, 4, 2})) { case 0: c12_services(); break; case 1: c12_calls(); break; default: c12_clients(); }
}
static Register r12("C12", "a case is a sequence of 5-900 operations on the library's hash table (6 hash functions from perfect to constant), work queue or buffer pool (1-3 threads) against std::map / std::deque / set references; 1 in 5 cases works end to end: up to 255 services registered, unregistered and called, up to 300 simultaneous calls of a client, or waves of up to 70 clients. Non-trivial: at least 3 elements and a removal, 2 queued, 3 buffers, 10 services, 14 calls or 5 requests", c12);
