// C14 (shutdown) and C15 (resource use).
#include "server_model.h"
#include <algorithm>
using namespace vf;
static void fresh(Model*& m) { static Model* old; if (old) for (auto& d : old->deferred) free(d.m); delete old; m = old = new Model; on_connected = nullptr; on_disconnected = nullptr; }
static void released(const char* what) {
    Resources r = resources();
    if (library_threads()) fail("%d threads of %s are still running [%s]", library_threads(), what, fiber_states().c_str());
    if (r.fds) fail("%s still holds %llu descriptors (%s)", what, (unsigned long long)r.fds, resource_detail().c_str());
    if (r.blocks) fail("%s still holds %llu blocks of memory (%s)", what, (unsigned long long)r.blocks, resource_detail().c_str());
    if (foreign_closes()) fail("%s closed a descriptor it does not own", what);
}
// an event that lets the server notice the request; the server may be gone already
static void kick(Model* m) {
    static std::vector<std::unique_ptr<Peer>> ps;
    switch (m->cl.empty() ? 0 : choose(3)) {
    case 1: for (auto& c : m->cl) if (c->open) { std::string f = make_frame(9999, 250, 250, T_ASYNC, ""); c->p.send_some(f.data(), f.size()); yield(); break; } // fallthrough
    case 0: { ps.push_back(std::make_unique<Peer>()); Peer* p = ps.back().get(); p->fd = raw_socket(AF_UNIX, SOCK_STREAM); ::connect(p->fd, (sockaddr*)&m->srv.addr.ss, m->srv.addr.len); break; }
    case 2: { bool any = false; for (auto& c : m->cl) if (c->open) { m->disconnect(&c - &m->cl[0], 0); any = true; break; } if (!any) { ps.push_back(std::make_unique<Peer>()); ps.back()->fd = raw_socket(AF_UNIX, SOCK_STREAM); ::connect(ps.back()->fd, (sockaddr*)&m->srv.addr.ss, m->srv.addr.len); } break; }
    }
}
static void ended(Model* m) {
    settle(); m->pump();
    if (!m->srv.returned) { note("an event occurs"); kick(m); settle(); m->pump(); settle(); }
    if (!m->srv.returned) fail("the server did not stop although shutdown was requested and an event occurred [%s]", fiber_states().c_str());
    if (m->srv.cfg.external == false && m->srv.ret != 0) fail("the main loop ended with an error (%d, errno %d)", m->srv.ret, errno);
    m->forbid_handlers = true; settle(); m->pump();
    released("a server that has stopped");
    for (auto& c : m->cl) if (c->open && !c->p.eof) fail("the connection of a client was not closed when the server stopped");
}
static void watch(Model* m) { m->srv.on_return = [m]() { m->forbid_handlers = true; if (m->running) fail("the server stopped while a handler was still running"); }; }

static void c14s() {
    link_trouble = chance(1, 8) ? range(1, 4) : 0;
    Model* m; fresh(m); Weights w; w.connect = 2; w.disconnect = 2; w.batch = 12; w.release = 1; w.quiesce = 1; w.bcast = 1; w.subscribe = 0; w.partial = 1; w.min_clients = 0; w.max_clients = 4; w.min_ops = 0; w.max_ops = 8; w.callbacks = choose(2); w.packet = true; w.max_batch = 12;
    w.beh[ECHO] = 10; w.beh[SILENT] = 3; w.beh[SLOW] = 6; w.beh[DEFER] = 2; w.beh[ECHO_EVENT] = 1;
    watch(m); int how = choose(w.callbacks ? 6 : 4); int fx = -1;
    if (how == 0 && choose(2)) { // right after creation, before workers or main loop have run
        m->w = w; M = m; m->cfg.workers = choose(5); m->cfg.external = choose(2); m->cfg.callbacks = false; m->cfg.packet = choose(2); set_sched(draw_sched()); m->srv.start(m->cfg);
        for (int i = choose(3); i-- > 0;) yield();
        note("shutdown is requested right after creation"); m->shutdown_requested = true; gracht_server_request_shutdown(m->srv.s); count("right after creation");
        if (m->cfg.workers > 1) nontrivial();
        ended(m); return;
    }
    m->start(w); set_sched(draw_sched());
    int n = range(w.min_ops, w.max_ops); for (int i = 0; i < n; i++) { m->op(); if (m->deferred.size() > 8) m->release(0); }
    if (how >= 4) m->quiesce();
    uint64_t before = m->handled_total; int cs = 0; for (auto& c : m->cl) cs += c->open;
    if (!(how >= 4)) for (int k = choose(4); k-- > 0;) { int c = m->pick_open(); if (c >= 0) m->batch(c); } // requests in progress
    m->shutdown_requested = true; int unh = 0; for (auto& r : m->reqs) if (!r.second.handled) unh++;
    switch (how) {
    case 0: case 1: note("shutdown is requested from another thread"); fx = spawn("requester", [m]() { gracht_server_request_shutdown(m->srv.s); }); break;
    case 2: case 3: { int c = m->pick_open(); if (c < 0) c = m->connect(); std::string b; Weights sv = m->w; int pre = choose(3), post = choose(6);
        auto one = [&](int beh) { std::vector<int> reg; for (size_t s = 0; s < m->svc.size(); s++) if (m->svc[s].registered >= 0) reg.push_back(s); int s = reg[choose(reg.size())]; return m->request(c, s, m->svc[s].aids[choose(m->svc[s].aids.size())], beh, choose(20), choose(20), choose(4), false); };
        for (int i = 0; i < pre; i++) b += one(choose(2) ? ECHO : SLOW); b += one(SHUTDOWN_REQ); for (int i = 0; i < post; i++) b += one(choose(2) ? ECHO : SLOW);
        note("client %d sends %d requests, one of which makes its handler request shutdown", c, pre + post + 1); m->send(c, b, 0); break; }
    case 4: { auto f = on_connected; on_connected = [m, f](gracht_conn_t h) { f(h); note("the connection callback requests shutdown"); gracht_server_request_shutdown(m->srv.s); }; m->connect(); break; }
    case 5: { int c = m->pick_open(); if (c < 0) { c = m->connect(); settle(); } auto f = on_disconnected; on_disconnected = [m, f](gracht_conn_t h) { f(h); note("the disconnection callback requests shutdown"); gracht_server_request_shutdown(m->srv.s); }; m->disconnect(c, choose(3)); break; }
    }
    if (how < 2) { for (int i = choose(4); i-- > 0;) yield(); if (fx >= 0) join(fx); }
    ended(m);
    static const char* names[] = {"from another thread", "from another thread", "from a handler", "from a handler", "from a connection callback", "from a disconnection callback"};
    count(names[how]); count("cases with requests in progress", unh > 0); count("cases with workers", m->cfg.workers > 1);
    if (cs || unh) nontrivial(); (void)before;
}
// ------------------------------------------------------------------ clients
static int g_events; static void on_ev(gracht_client_t*, gracht_buffer_t*) { g_events++; }
static gracht_protocol_function_t g_evfn[1] = {{7, (void*)on_ev}};
struct CState { Listener l; Peer p; gracht_client_t* c = nullptr; int max; std::deque<struct gracht_message_context> ctx; std::vector<uint32_t> open, ready; gracht_protocol_t protos[3]; };
static void client_ops(CState& s, int ops, bool all) {
    for (int i = 0; i < ops; i++) switch (choose(9)) {
    case 0: case 1: { gracht_buffer_t b; if (gracht_client_get_buffer(s.c, &b)) fail("the client gave no buffer"); bool sync = choose(4) != 0; std::string f = make_frame(0, 9, 1, sync ? T_SYNC : T_ASYNC, body(1, choose(30))); memcpy(b.data, f.data(), f.size()); b.index = f.size(); s.ctx.emplace_back(); if (gracht_client_invoke(s.c, &s.ctx.back(), &b)) fail("a call failed on a healthy connection"); if (sync) s.open.push_back(s.ctx.back().message_id); break; }
    case 2: case 3: if (!s.open.empty() && s.ready.size() < 4) { size_t j = choose(s.open.size()); s.p.send(make_frame(s.open[j], 9, 1, T_RESPONSE, body(2, choose(s.max - HDR - 12)))); s.ready.push_back(s.open[j]); s.open.erase(s.open.begin() + j); } break;
    case 4: s.p.send(make_frame(1, 5, choose(2) ? 7 : 8, T_EVENT, body(3, choose(s.max - HDR - 12)))); break;
    case 5: if (!s.open.empty()) { size_t j = choose(s.open.size()); std::string p; put32(p, s.open[j]); put32(p, 5); s.p.send(make_frame(0, 0, 2, T_EVENT, p)); s.open.erase(s.open.begin() + j); } break;
    case 6: s.p.send(make_frame(choose(2) ? 1u << 30 : s.ready.empty() ? 77777 : s.ready[choose(s.ready.size())], 9, 1, T_RESPONSE, body(9, choose(20)))); break;
    case 7: gracht_client_wait_message(s.c, nullptr, 0); break;
    case 8: if (!s.ready.empty()) { size_t j = choose(s.ready.size()); struct gracht_message_context x; x.message_id = s.ready[j]; gracht_buffer_t b{}; int st = gracht_client_get_status_buffer(s.c, &x, &b); if (st == GRACHT_MESSAGE_COMPLETED) gracht_client_status_finalize(s.c, &b); if (st) s.ready.erase(s.ready.begin() + j); } break;
    }
    s.p.pump(); s.p.frames.clear();
}
static void client_start(CState& s) {
    static const int maxes[] = {256, 64, 128, 512}; s.max = maxes[choose(4)];
    if (chance(1, 8)) { // nobody listens at first
        Addr a = unix_addr("l"); int n = range(1, 6); s.c = make_client(a, s.max, (s.max + 32) * 9, false, AF_LOCAL, false); uint64_t held = resources().fds; note("%d attempts to connect fail", n); count("failed attempts to connect", n);
        for (int i = 0; i < n; i++) { if (!gracht_client_connect(s.c)) fail("a client is connected although nobody listens"); if (resources().fds > held) fail("a failed attempt to connect leaves a descriptor open"); }
        s.l.open_at(a); if (gracht_client_connect(s.c)) fail("a client cannot connect (errno %d) after an attempt that failed", errno);
    } else { s.l.open("l"); s.c = make_client(s.l.addr, s.max, (s.max + 32) * 9); }
    s.p = s.l.accept();
    s.protos[0] = {5, (char*)"ev", 1, g_evfn}; gracht_client_register_protocol(s.c, &s.protos[0]);
}
static void c14c() {
    set_sched(draw_sched(false)); CState s; int state = choose(5); static const char* names[] = {"client never connected", "client that failed to connect", "client in use", "client whose connection was lost", "client in the middle of a message"};
    note("%s", names[state]); count(names[state]);
    if (state <= 1) {
        s.l.open("l"); Addr a = s.l.addr; if (state == 1) a = unix_addr("nobody"); bool pk = choose(3) == 0;
        s.c = make_client(a, 256, 0, pk, AF_UNIX, false); if (state == 1) gracht_client_connect(s.c);
        s.protos[0] = {5, (char*)"ev", 1, g_evfn}; if (choose(2)) gracht_client_register_protocol(s.c, &s.protos[0]);
    } else {
        client_start(s); client_ops(s, range(0, 30), false);
        if (state == 3) { if (choose(2)) s.p.close(); else ::shutdown(s.p.fd, SHUT_RDWR); for (int i = choose(10); i-- > 0;) gracht_client_wait_message(s.c, nullptr, 0); }
        if (state == 4) { std::string f = make_frame(s.open.empty() ? 1 : s.open[0], 9, 1, T_RESPONSE, body(2, 20)); s.p.send(f.substr(0, 1 + choose(f.size() - 1))); if (choose(2)) s.p.close(); if (s.p.fd < 0) for (int i = choose(3); i-- > 0;) gracht_client_wait_message(s.c, nullptr, 0); }
        if (!s.open.empty() || !s.ready.empty() || state >= 3) nontrivial();
    }
    gracht_client_shutdown(s.c); released("a client that was shut down");
}
static void c14() { link_trouble = 0;  if (packet_share("C14")) return; if (chance(1, 6)) c14c(); else c14s(); }
static Register r14("C14", "a case runs a server (0-4 workers, own or external loop, with or without packet link and callbacks) through a short history with 0-4 clients and then requests shutdown - right after creation, from another thread, from a handler among other requests, or from a connection or disconnection callback - with requests queued and executing under a random schedule; then an event occurs, the server must have stopped and every thread, descriptor and block of memory must be gone. A sixth of the cases shut down clients in every state. Non-trivial: clients connected or requests in progress (clients: calls or results outstanding, connection lost or message incomplete)", c14);

// ------------------------------------------------------------------ C23
static void c23s() {
    Model* m; fresh(m); Weights w; w.connect = 5; w.disconnect = 4; w.batch = 12; w.release = 2; w.bcast = 2; w.subscribe = 1; w.partial = 1; w.targeted = 1; w.unserveable = chance(1, 4) ? 3 : 0; w.regs = chance(1, 3) ? 3 : 0; w.quiesce = 2; w.segment = chance(1, 4) ? 3 : 0; w.min_clients = 0; w.max_clients = chance(1, 3) ? 30 : 4; w.min_ops = 3; w.max_ops = 25; w.max_batch = 8; w.callbacks = choose(2); w.flood = chance(1, 6) ? 2 : 0; w.fd_check = true; w.max_workers = 6;
    w.beh[ECHO] = 10; w.beh[SILENT] = 3; w.beh[SLOW] = 4; w.beh[DEFER] = 2; w.beh[ECHO_EVENT] = 2;
    static const uint32_t dens[] = {16, 2, 3, 6, 40}; shortage(dens[choose(5)]);
    m->start(w); if (w.max_clients == 30) m->crowd = 40; set_sched(draw_sched());
    int n = range(w.min_ops, w.max_ops);
    for (int i = 0; i < n; i++) {
        if (chance(1, 8)) shortage(shortage_on() ? 0 : dens[choose(5)]);
        m->op(); if (m->deferred.size() > 8) m->release(choose(m->deferred.size()));
        if (w.max_clients == 30 && chance(1, 6)) { // many come, many go
            if (chance(1, 2)) { for (int k = range(5, 20); k-- > 0;) { int live = 0; for (auto& x : m->cl) live += x->open; if (live < 40) m->connect(); } }
            else { int k = range(5, 30); for (size_t x = 0; x < m->cl.size() && k > 0; x++) if (m->cl[x]->open && chance(3, 4)) { m->disconnect(x, choose(3)); k--; } }
        }
    }
    while (!m->deferred.empty()) m->release(choose(m->deferred.size()));
    m->quiesce(); bool on = shortage_on(); shortage(0);
    // from here on there is no shortage: everyone is served
    int c = m->connect(); settle(); m->w.unserveable = 0; bool reg = false; for (auto& s : m->svc) if (s.registered >= 0) reg = true;
    if (!reg) { if (gracht_server_register_protocol(m->srv.s, &m->svc[0].proto[0])) fail("registering a service failed (errno %d) although resources are available again", errno); m->svc[0].registered = 0; }
    for (size_t i = 0; i < m->cl.size(); i++) if (m->cl[i]->open && ((int)i == c || chance(1, 3))) m->batch(i);
    while (!m->deferred.empty()) m->release(0);
    m->quiesce(); if (m->cl[c]->p.eof || !m->cl[c]->open) fail("a new client is refused although resources are available again");
    if (shortages()) nontrivial(); count("requests for resources that failed", shortages());
    if (on && chance(1, 2)) shortage(dens[choose(5)]);
    m->shutdown_requested = true; gracht_server_request_shutdown(m->srv.s); ended(m);
}
static void c23c() {
    static const uint32_t dens[] = {16, 2, 3, 6, 40}; set_sched(draw_sched(false)); CState s; s.max = 128; shortage(dens[choose(5)]); bool pk = false;
    s.l.open("l", pk); s.c = make_client(s.l.addr, s.max, (s.max + 32) * 12, pk); s.p = s.l.accept();
    std::deque<gracht_protocol_t> protos; int np = range(1, 40);
    for (int i = 0; i < np; i++) { protos.push_back({(uint8_t)(i + 1), (char*)"ev", 1, g_evfn}); insist("registering a service with a client", [&]() { return gracht_client_register_protocol(s.c, &protos.back()); }); }
    struct Call { uint32_t id, tag; bool answered = false; }; std::deque<Call> calls; uint32_t tag = 0; int peak = 0, ops = range(10, 160); bool drain = false; uint64_t done = 0; int unread = 0;
    for (int i = 0; i < ops || !calls.empty(); i++) {
        drain = i >= ops; if (i == ops && chance(1, 2)) { note("no shortage any more"); shortage(0); }
        if (!drain && chance(1, 20)) shortage(shortage_on() ? 0 : dens[choose(5)]);
        switch (drain ? 3 + choose(3) : choose(6)) {
        case 0: case 1: case 2: { // a call that is refused has no effect
            if (calls.size() >= 120) break;
            gracht_buffer_t b; if (gracht_client_get_buffer(s.c, &b)) fail("the client gave no buffer"); std::string f = make_frame(0, 9, 1, T_SYNC, body(++tag, choose(30))); memcpy(b.data, f.data(), f.size()); b.index = f.size(); struct gracht_message_context x; memset(&x, 0, sizeof x); uint64_t sh = shortages();
            int r = gracht_client_invoke(s.c, &x, &b); s.p.pump();
            if (r) { if (shortages() == sh) fail("a call failed on a healthy connection (errno %d)", errno); if (!s.p.frames.empty()) fail("a call that was refused was sent nevertheless"); count("calls refused for want of resources"); break; }
            if (s.p.frames.size() != 1 || s.p.frames[0].id != x.message_id) fail("a call was accepted, but not sent"); s.p.frames.clear();
            calls.push_back({x.message_id, tag}); peak = std::max<int>(peak, calls.size()); break; }
        case 3: { std::vector<size_t> o; for (size_t k = 0; k < calls.size(); k++) if (!calls[k].answered) o.push_back(k); if (o.empty() || unread >= 6) break; Call& k = calls[o[choose(o.size())]]; s.p.send(make_frame(k.id, 9, 1, T_RESPONSE, body(k.tag, choose(40)))); k.answered = true; unread++; break; }
        case 4: if (drain) break; s.p.send(make_frame(1, (uint8_t)range(1, np), 7, T_EVENT, body(3, choose(20)))); break;
        case 5: { for (int k = 0; k < 50; k++) if (gracht_client_wait_message(s.c, nullptr, 0)) { if (errno == EINTR || errno == EAGAIN || errno == ENODATA || errno == ENOMEM) break; if (errno == EPIPE || errno == ECONNRESET) fail("the client gave up its connection (errno %d)", errno); break; }
            for (size_t k = 0; k < calls.size();) { if (!calls[k].answered) { struct gracht_message_context x; x.message_id = calls[k].id; gracht_buffer_t b{}; int st = chance(1, 8) ? gracht_client_get_status_buffer(s.c, &x, &b) : 0; if (st) fail("a call that was not answered has status %d", st); k++; continue; }
                struct gracht_message_context x; x.message_id = calls[k].id; gracht_buffer_t b{}; int st = gracht_client_get_status_buffer(s.c, &x, &b); uint32_t t = 0;
                if (st != GRACHT_MESSAGE_COMPLETED) fail("a call that was answered has status %d (errno %d)", st, errno);
                if (!check_body(b.data + b.index, s.max, &t) || t != calls[k].tag) fail("a call received the response to another one");
                gracht_client_status_finalize(s.c, &b); done++; unread--; calls.erase(calls.begin() + k); } break; }
        }
    }
    count("calls", done); count("requests for resources that failed", shortages()); if (shortages() && done >= 5) nontrivial(); if (peak > 11) count("cases with more than 11 calls in progress");
    if (chance(1, 2)) shortage(dens[choose(5)]);
    for (int k = 0; k < 500; k++) if (gracht_client_wait_message(s.c, nullptr, 0)) break;
    while (!protos.empty()) { // nothing is delivered for a service that is no longer registered
        std::swap(protos[choose(protos.size())], protos.back()); gracht_client_unregister_protocol(s.c, &protos.back()); uint8_t gone = protos.back().id; protos.pop_back();
        if (!chance(1, 3)) continue;
        int before = g_events; s.p.send(make_frame(1, gone, 7, T_EVENT, body(3, 5))); if (!protos.empty()) s.p.send(make_frame(1, protos[0].id, 7, T_EVENT, body(3, 5)));
        for (int k = 0; k < 3; k++) gracht_client_wait_message(s.c, nullptr, 0);
        if (g_events - before != !protos.empty()) fail("%d events were delivered, %d were sent for services that are registered", g_events - before, (int)!protos.empty());
    }
    gracht_client_shutdown(s.c); released("a client that was shut down");
}
static void c23() { link_trouble = 0; if (packet_share("C23")) return; if (chance(1, 4)) c23c(); else c23s(); }
static Register r23("C23", "a case runs a server (0-20 workers, 0-40 clients coming and going, services registered and unregistered, deferred answers, events, floods) or a client (up to 120 calls in progress, up to 40 services) while a share (1/2 to 1/40, changing) of the library's requests for memory, threads and descriptors fail; failed operations of the application are checked to leave nothing behind and tried again; then resources are available again and everything must work, and shutdown must release everything. Non-trivial: at least one request for resources failed (client: and 5 calls completed)", c23);

// ------------------------------------------------------------------ C15
static void c15s() {
    link_trouble = chance(1, 8) ? range(1, 4) : 0;
    Model* m; fresh(m); Weights w; w.connect = 4; w.disconnect = 4; w.batch = 10; w.release = 2; w.bcast = 2; w.subscribe = 1; w.partial = 1; w.targeted = 2; w.unserveable = 2; w.quiesce = 1; w.hostile = chance(1, 3) ? 3 : 0; w.packet = w.hostile != 0; w.regs = chance(1, 4) ? 2 : 0; w.min_clients = 0; w.max_clients = 2; w.max_batch = 5;
    w.beh[ECHO] = 10; w.beh[SILENT] = 2; w.beh[SLOW] = 2; w.beh[DEFER] = 3; w.beh[ECHO_EVENT] = 2; w.beh[EVENT_ONLY] = 1; w.concurrent = chance(1, 3);
    // emphasise one kind of activity in some cases, so that whatever grows with it grows quickly
    switch (choose(8)) { case 1: w.connect = w.disconnect = 20; break; case 2: w.partial = 20; w.connect = 20; break; case 3: w.targeted = 20; break; case 4: w.bcast = 20; break; case 5: w.unserveable = 18; break; case 6: w.subscribe = 15; break; case 7: w.beh[DEFER] = 30; w.release = 10; break; }
    m->start(w); set_sched(draw_sched(w.concurrent)); m->quiesce();
    size_t keep = m->cl.size(); int rounds = range(6, 24); Resources base = resources(); uint64_t cap = 2 * (m->cfg.workers + 3), worst = 0;
    for (int r = 0; r < rounds; r++) {
        int ops = range(4, 14); for (int i = 0; i < ops; i++) { m->op(); if (m->deferred.size() > 8) m->release(choose(m->deferred.size())); }
        while (!m->deferred.empty()) m->release(choose(m->deferred.size()));
        for (size_t c = keep; c < m->cl.size(); c++) if (m->cl[c]->open) m->disconnect(c, choose(2));
        for (auto& h : m->bad) if (h->fd >= 0) h->close();
        m->quiesce();
        for (auto& s : m->svc) if (s.registered < 0) { gracht_server_register_protocol(m->srv.s, &s.proto[0]); s.registered = 0; }
        size_t left = 0; for (size_t c = 0; c < keep; c++) left += !m->cl[c]->open;
        Resources now = resources();
        if (now.fds != base.fds - left) fail("after round %d the same clients are connected but the server holds %lld more descriptors", r + 1, (long long)(now.fds - base.fds + left));
        // reusable message buffers may be kept, at most what can be in use at once
        if (now.blocks > base.blocks + cap) fail("memory grows: %llu blocks after round %d, %llu at the start (%s)", (unsigned long long)now.blocks, r + 1, (unsigned long long)base.blocks, resource_detail().c_str());
        if (now.bytes > base.bytes + cap * (m->cfg.max + 512) + 16384) fail("memory grows: %llu bytes after round %d, %llu at the start (%s)", (unsigned long long)now.bytes, r + 1, (unsigned long long)base.bytes, resource_detail().c_str());
        worst = std::max<uint64_t>(worst, now.blocks > base.blocks ? now.blocks - base.blocks : 0);
    }
    count("rounds", rounds); count("requests handled", m->handled_total); count("clients that came and left", m->cl.size() - keep); if (m->handled_total >= 20 && m->cl.size() - keep >= 3) nontrivial();
    m->shutdown_requested = true; gracht_server_request_shutdown(m->srv.s); ended(m);
}
static void c15c() {
    set_sched(draw_sched(false)); CState s; client_start(s); Resources base = resources(); int rounds = range(6, 30); uint64_t calls = 0;
    for (int r = 0; r < rounds; r++) {
        client_ops(s, range(4, 40), false);
        while (!s.open.empty() || !s.ready.empty()) { // answer and fetch what is left
            while (!s.open.empty() && s.ready.size() < 4) { s.p.send(make_frame(s.open.back(), 9, 1, T_RESPONSE, body(2, choose(30)))); s.ready.push_back(s.open.back()); s.open.pop_back(); }
            for (int i = 0; i < 10000 && !gracht_client_wait_message(s.c, nullptr, 0); i++) {}
            for (uint32_t id : s.ready) { struct gracht_message_context x; x.message_id = id; gracht_buffer_t b{}; int st = gracht_client_get_status_buffer(s.c, &x, &b); if (!st) fail("the response to a call was lost after %llu calls", (unsigned long long)s.ctx.size()); if (st == GRACHT_MESSAGE_COMPLETED) gracht_client_status_finalize(s.c, &b); }
            s.ready.clear();
        }
        for (int i = 0; i < 10000 && !gracht_client_wait_message(s.c, nullptr, 0); i++) {}
        s.p.pump(); s.p.frames.clear(); Resources now = resources();
        if (now.blocks > base.blocks + 4 || now.bytes > base.bytes + 16384 || now.fds != base.fds) fail("a client with no calls in the air grows: %llu blocks and %llu bytes after round %d, %llu and %llu at the start (%s)", (unsigned long long)now.blocks, (unsigned long long)now.bytes, r + 1, (unsigned long long)base.blocks, (unsigned long long)base.bytes, resource_detail().c_str());
    }
    calls = s.ctx.size(); count("client calls", calls); if (calls >= 10) nontrivial();
    gracht_client_shutdown(s.c); released("a client that was shut down");
}
static void c15() { link_trouble = 0;  if (packet_share("C15")) return; if (chance(1, 4)) c15c(); else c15s(); }
static Register r15("C15", "a case takes a server through 6-24 rounds of 4-14 operations (connects, departures, abandoned frames, requests, deferred answers, events, errors, subscriptions, registrations, hostile peers), each round returning to the same connected clients with nothing in progress, or a client through 6-30 rounds of calls, responses, errors, events and stray responses; memory and descriptors are compared with the start after each round and everything must be released at the end. Non-trivial: at least 20 requests and 3 clients that came and left (clients: 10 calls)", c15);
