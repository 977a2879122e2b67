// C26: operations that cannot be carried out are refused and change nothing.
#include "server_model.h"
#include <algorithm>
extern "C" {
#include "vf_link.h"
}
using namespace vf;
namespace {
#define REFUSED(expr, err, what) do { errno = 0; long r_ = (long)(expr); int e_ = errno; G_refused++; if (r_ != -1) fail("%s was not refused but returned %ld", what, r_); if ((err) && e_ != (err)) fail("%s was refused with errno %d instead of %d", what, e_, (int)(err)); } while (0)
uint64_t G_refused;
void ends(const char* what) { Resources r = resources(); if (library_threads()) fail("%d threads of %s are still running", library_threads(), what); if (r.fds || r.blocks) fail("%s still holds %llu descriptors and %llu blocks (%s)", what, (unsigned long long)r.fds, (unsigned long long)r.blocks, resource_detail().c_str()); if (foreign_closes()) fail("%s closed a descriptor it does not own", what); }

// ------------------------------------------------------------------ server
struct Stub { struct gracht_link base; int setups = 0; };
gracht_conn_t stub_setup(struct gracht_link* l, gracht_handle_t) { ((Stub*)l)->setups++; errno = EADDRINUSE; return GRACHT_CONN_INVALID; }
void stub_destroy(struct gracht_link*, gracht_handle_t) { fail("a link that was refused was destroyed by the server"); }
int stub_recv(struct gracht_link*, struct gracht_message*, unsigned) { fail("a link that was refused was used"); }
Stub G_stub;
void imposter(struct gracht_message*, gracht_buffer_t*) { fail("a request was executed by a service whose registration was refused"); }
gracht_protocol_function_t G_fns[256]; gracht_protocol_t G_imp[256];
bool G_full; // all links of the server are in use
void stub() { memset(&G_stub.base, 0, sizeof G_stub.base); G_stub.base.type = choose(2) ? gracht_link_packet_based : gracht_link_stream_based; G_stub.base.connection = GRACHT_CONN_INVALID; G_stub.base.ops.server.setup = stub_setup; G_stub.base.ops.server.destroy = stub_destroy; G_stub.base.ops.server.recv = stub_recv; }
uint8_t unused_sid(Model* m) { for (;;) { uint8_t s = m->svc.empty() || chance(1, 2) ? range(1, 254) : (uint8_t)(m->svc[choose(m->svc.size())].sid + 16 * range(1, 15)); if (!s) continue; bool used = false; for (auto& v : m->svc) used |= v.sid == s; if (!used) return s; if (m->svc.size() > 200) return 255; } }
gracht_buffer_t filled(gracht_server_t* s, uint8_t sid) { gracht_buffer_t b; if (gracht_server_get_buffer(s, &b)) fail("no buffer to send with"); std::string f = make_frame(0, sid, 1, T_EVENT, body(77, choose(20))); memcpy(b.data, f.data(), f.size()); b.index = f.size(); return b; }
gracht_conn_t nobody() { return chance(1, 4) ? -1 : (gracht_conn_t)range(500000, 700000); }
void refuse_server(Model* m, gracht_server_t* s) {
    gracht_buffer_t b{};
    switch (choose(13)) {
    case 0: case 1: { if (m->svc.empty()) break; uint8_t sid = chance(1, 5) ? 0 : m->svc[choose(m->svc.size())].sid; note("a service is registered again"); REFUSED(gracht_server_register_protocol(s, &G_imp[sid]), EEXIST, "registering a service that is registered already"); break; }
    case 2: note("a service that does not exist is unregistered"); gracht_server_unregister_protocol(s, &G_imp[unused_sid(m)]); G_refused++; break;
    case 3: { int n = G_stub.setups; note("a link is added that cannot be set up"); REFUSED(gracht_server_add_link(s, &G_stub.base), G_full ? ENOENT : EADDRINUSE, "adding a link that cannot be set up"); if (G_full && G_stub.setups != n) fail("a link was set up although there is no room for it"); break; }
    case 4: case 5: note("an event is sent to nobody"); b = filled(s, 9); REFUSED(gracht_server_send_event(s, nobody(), &b, 0), ENOENT, "sending an event to an unknown client"); break;
    case 6: { // buffers given back by refused operations are given out once
        gracht_buffer_t x[6]; int n = range(2, 6); note("%d buffers are used for events to nobody", n); for (int i = 0; i < n; i++) { x[i] = filled(s, 9); for (int k = 0; k < i; k++) if (x[k].data == x[i].data) fail("a buffer in use was given out again"); memset(x[i].data + HDR, 0x51 + i, 12); }
        yield(); for (int i = 0; i < n; i++) for (int k = 0; k < 12; k++) if (x[i].data[HDR + k] != 0x51 + i) fail("a buffer in use was changed"); for (int i = 0; i < n; i++) REFUSED(gracht_server_send_event(s, nobody(), &x[i], GRACHT_MESSAGE_BLOCK), ENOENT, "sending an event to an unknown client"); break; }
    case 7: note("operations on no server"); REFUSED(gracht_server_add_link(nullptr, &G_stub.base), EINVAL, "adding a link to no server"); REFUSED(gracht_server_register_protocol(nullptr, &G_imp[7]), EINVAL, "registering a service with no server"); gracht_server_unregister_protocol(nullptr, &G_imp[7]); gracht_server_request_shutdown(nullptr); REFUSED(gracht_server_get_aio_handle(nullptr), EINVAL, "asking no server for its handle"); REFUSED(gracht_server_main_loop(nullptr), EINVAL, "running no server"); REFUSED(gracht_server_handle_event(nullptr, 3, 1), EINVAL, "handling an event of no server"); REFUSED(gracht_server_get_buffer(nullptr, &b), EINVAL, "asking no server for a buffer"); break;
    case 8: { note("operations without their argument"); REFUSED(gracht_server_add_link(s, nullptr), EINVAL, "adding no link"); REFUSED(gracht_server_register_protocol(s, nullptr), EINVAL, "registering no service"); gracht_server_unregister_protocol(s, nullptr); REFUSED(gracht_server_send_event(s, 5, nullptr, 0), EINVAL, "sending no event"); REFUSED(gracht_server_broadcast_event(s, nullptr, 0), EINVAL, "broadcasting no event"); break; }
    case 9: { b = filled(s, 9); note("a message without server or request"); REFUSED(gracht_server_broadcast_event(nullptr, &b, 0), EINVAL, "broadcasting without a server"); REFUSED(gracht_server_send_event(nullptr, 5, &b, 0), EINVAL, "sending an event without a server"); REFUSED(gracht_server_respond(nullptr, &b), EINVAL, "responding to no request"); REFUSED(gracht_server_send_event(s, nobody(), &b, 0), ENOENT, "sending an event to an unknown client"); break; }
    case 10: { struct gracht_message x; memset(&x, 0, sizeof x); x.server = s; note("no response"); REFUSED(gracht_server_respond(&x, nullptr), EINVAL, "responding with nothing"); gracht_server_defer_message(nullptr, &x); gracht_server_defer_message(&x, nullptr); break; }
    case 11: { gracht_server_configuration_t c; gracht_server_configuration_init(&c); gracht_server_t* o = nullptr; note("no configuration"); REFUSED(gracht_server_create(nullptr, &o), EINVAL, "creating a server without a configuration"); REFUSED(gracht_server_create(&c, nullptr), EINVAL, "creating a server for nobody"); if (o) fail("a server was created by a refused operation"); break; }
    case 12: { int h = gracht_server_get_aio_handle(s); if (h < 0) fail("a running server gives no handle to wait on"); break; }
    }
}
uint64_t G_strangers;
void server_case() {
    static Model* old; if (old) for (auto& d : old->deferred) free(d.m); delete old; Model* m = old = new Model; on_connected = nullptr; on_disconnected = nullptr; G_refused = 0; G_strangers = 0; stub(); G_stub.setups = 0; G_full = false;
    for (int i = 0; i < 256; i++) { G_fns[i] = {1, (void*)imposter}; G_imp[i] = {(uint8_t)i, (char*)"i", 1, &G_fns[i]}; }
    Weights w; w.connect = 1; w.disconnect = 1; w.batch = 10; w.targeted = 2; w.bcast = 2; w.subscribe = 2; w.unserveable = 2; w.release = 1; w.quiesce = 2; w.callbacks = choose(2); w.max_ops = 12; w.beh[ECHO] = 10; w.beh[SILENT] = 1; w.beh[SLOW] = 3; w.beh[DEFER] = 2; w.beh[ECHO_EVENT] = 2;
    m->srv.between = [m](gracht_server_t* s) { // an external event loop passes on events of descriptors that are not the server's
        while (chance(1, 3)) { unsigned e[] = {EPOLLIN, EPOLLHUP, EPOLLIN | EPOLLRDHUP, EPOLLRDHUP, EPOLLOUT, 0}; unsigned ev = e[choose(6)]; note("the application passes on event 0x%x of a descriptor of its own", ev); G_strangers++; errno = 0; if (gracht_server_handle_event(s, (gracht_conn_t)range(500000, 700000), ev) == 0) fail("the server claims to have handled an event of a descriptor that it does not own"); if (errno == EPIPE) fail("the server claims that it has stopped"); }
    };
    m->start(w); Srv& srv = m->srv; gracht_server_t* s = srv.s; set_sched(draw_sched());
    if (chance(1, 2)) { int have = 1 + m->cfg.extra_streams; if (chance(1, 2)) { for (; have < 4; have++) { struct gracht_link_socket* l; if (gracht_link_socket_create(&l)) fail("no link"); Addr a = unix_addr("f"); gracht_link_socket_set_type(l, gracht_link_stream_based); gracht_link_socket_set_listen(l, 1); gracht_link_socket_set_domain(l, AF_LOCAL); gracht_link_socket_set_address(l, &a.ss, a.len); if (chance(1, 2)) refuse_server(m, s); if (gracht_server_add_link(s, (struct gracht_link*)l)) fail("link %d of at most 4 was refused (errno %d)", have + 1, errno); srv.more.push_back(a); } G_full = true; count("servers with all links in use"); } }
    bool stop = false; int intr = chance(1, 2) ? spawn("intruder", [m, s, &stop]() { for (int i = range(2, 30); i-- > 0 && !stop;) { refuse_server(m, s); for (int k = choose(3); k-- > 0;) yield(); } }) : -1;
    int n = range(3, 12); for (int i = 0; i < n; i++) { for (int k = choose(3); k-- > 0;) refuse_server(m, s); m->op(); if (m->deferred.size() > 8) m->release(choose(m->deferred.size())); }
    for (int k = choose(3); k-- > 0;) refuse_server(m, s);
    if (intr >= 0) { stop = true; join(intr); }
    while (!m->deferred.empty()) m->release(choose(m->deferred.size()));
    m->quiesce(); { int c = m->connect(); m->batch(c); m->quiesce(); }
    if (G_refused >= 4 && m->handled_total >= 3) nontrivial(); count("events of descriptors that are not the server's", G_strangers); count("requests handled", m->handled_total);
    // after a shutdown was requested
    m->shutdown_requested = true; m->srv.between = nullptr; srv.on_return = [m]() { m->forbid_handlers = true; }; note("shutdown is requested"); gracht_server_request_shutdown(s); int su = G_stub.setups; 
    if (!srv.returned) for (int i = choose(6); i-- > 0;) switch (choose(5)) {
    case 0: REFUSED(gracht_server_add_link(s, &G_stub.base), EPERM, "adding a link to a server that is shutting down"); if (su != G_stub.setups) fail("a link was set up by a server that is shutting down"); break;
    case 1: REFUSED(gracht_server_register_protocol(s, &G_imp[chance(1, 2) ? unused_sid(m) : m->svc[0].sid]), EPERM, "registering a service with a server that is shutting down"); break;
    case 2: REFUSED(gracht_server_get_aio_handle(s), EPERM, "asking a server that is shutting down for its handle"); break;
    case 3: errno = 0; gracht_server_request_shutdown(s); if (errno != EPERM) fail("requesting shutdown twice was not refused (errno %d)", errno); break;
    case 4: gracht_server_unregister_protocol(s, &G_imp[unused_sid(m)]); break;
    }
    count("operations refused by the server", G_refused);
    static std::unique_ptr<Peer> kp; kp = std::make_unique<Peer>(); kp->fd = raw_socket(AF_UNIX, SOCK_STREAM); ::connect(kp->fd, (sockaddr*)&srv.addr.ss, srv.addr.len); settle(); m->pump(); settle();
    if (!srv.returned) fail("the server did not stop although shutdown was requested and an event occurred [%s]", fiber_states().c_str());
    ends("a server that has stopped");
}

// ------------------------------------------------------------------ client
struct Call { struct gracht_message_context x; uint32_t tag; int st; /* 0 in progress, 1 answered, 2 failed, 3 finished */ };
struct Api { Listener l; Addr a; Peer p; gracht_client_t* c = nullptr; uint32_t max; size_t arena; std::deque<Call> calls; std::vector<std::string> sent; std::vector<gracht_buffer_t> held; bool up = false, gone = false; int ev_sent = 0, ev = 0; uint32_t tag = 1; bool registered = false; uint64_t done = 0; uint64_t full = 0; };
Api* A;
void on_event(gracht_client_t* c, gracht_buffer_t* b) { uint32_t t; if (c != A->c || !check_body(b->data + b->index, A->max - HDR, &t) || t != 31) fail("an event was altered"); A->ev++; }
gracht_protocol_function_t G_evf[1] = {{7, (void*)on_event}}; gracht_protocol_t G_evp = {5, (char*)"e", 1, G_evf};
void wrong_event(gracht_client_t*, gracht_buffer_t*) { fail("an event was handled by a service that is not registered"); }
gracht_protocol_function_t G_wf[1] = {{7, (void*)wrong_event}}; gracht_protocol_t G_wp = {21, (char*)"w", 1, G_wf};
bool room(int n = 1) { return (A->held.size() + n) * (A->max + 160) <= A->arena; } // space for n more messages
void drop() { if (A->held.empty()) return; size_t k = choose(A->held.size()); if (gracht_client_status_finalize(A->c, &A->held[k])) fail("returning a buffer failed"); A->held.erase(A->held.begin() + k); }
void pumpc() { if (!A->up) return; A->p.pump(); if (A->p.bad) fail("%s", A->p.bad_why.c_str()); }
bool arrivals() { pumpc(); size_t i = 0; for (auto& f : A->p.frames) { if (i >= A->sent.size() || f.payload != A->sent[i] || f.sid != 9) fail("a message arrived that no operation sent, or out of order"); i++; } return i == A->sent.size(); }
// an invocation; returns what the library returned
int invoke(bool sync, bool ctx, bool expect, struct gracht_message_context* x) {
    gracht_buffer_t b; if (gracht_client_get_buffer(A->c, &b)) fail("the client gave no buffer"); if (b.index) fail("the buffer of a client is not empty"); std::string pl = body(A->tag, choose(std::min<uint32_t>(60, A->max - HDR - 12))); std::string f = make_frame(0, 9, 1, sync ? T_SYNC : T_ASYNC, pl); memcpy(b.data, f.data(), f.size()); b.index = f.size();
    errno = 0; int r = gracht_client_invoke(A->c, ctx ? x : nullptr, &b); if (expect && !r) A->sent.push_back(pl); return r;
}
int status(Call& c, gracht_buffer_t* b) { memset(b, 0, sizeof *b); errno = 0; return gracht_client_get_status_buffer(A->c, &c.x, b); }
void finish(Call& c) { // the response (or error) of this call was received
    gracht_buffer_t b; int st = status(c, &b); if (st != (c.st == 1 ? GRACHT_MESSAGE_COMPLETED : GRACHT_MESSAGE_ERROR)) fail("a call that ended has status %d", st);
    if (c.st == 1) { uint32_t t; if (!check_body(b.data + b.index, A->max - HDR, &t) || t != (c.tag | 0x80000000u)) fail("a call obtained the response of another one"); if (chance(1, 2)) { if (gracht_client_status_finalize(A->c, &b)) fail("returning a buffer failed"); } else A->held.push_back(b); }
    c.st = 3; A->done++; if (chance(1, 2)) { REFUSED(status(c, &b), ENOENT, "asking for the result of a call twice"); }
}
void obtain(Call& c) { // waits for a call that was answered
    for (int i = 0;; i++) {
        bool fits = room(); int r; errno = 0; struct gracht_message_context* xs[1] = {&c.x};
        switch (choose(4)) { case 0: r = gracht_client_wait_message(A->c, &c.x, 0); break; case 1: r = gracht_client_wait_message(A->c, &c.x, GRACHT_MESSAGE_BLOCK); break; case 2: r = gracht_client_await(A->c, &c.x, 0); break; default: r = gracht_client_await_multiple(A->c, xs, 1, GRACHT_AWAIT_ALL); }
        if (!r) break; if (errno != ENOMEM) fail("waiting for a call that was answered failed (errno %d)", errno);
        // responses received for other calls occupy space as well
        int got = 0; std::vector<size_t> rd; for (size_t k = 0; k < A->calls.size(); k++) if (A->calls[k].st == 1 && &A->calls[k] != &c) rd.push_back(k); got = rd.size();
        if (fits && !got) fail("there was no space for a message although %zu bytes are free", A->arena - A->held.size() * (A->max + 160)); A->full++; note("no space for a message");
        while (!A->held.empty()) { drop(); if (choose(2)) break; }
        for (size_t k : rd) { gracht_buffer_t b; int st = status(A->calls[k], &b); if (st == GRACHT_MESSAGE_INPROGRESS) continue; if (st != GRACHT_MESSAGE_COMPLETED) fail("a call that was answered has status %d", st); uint32_t t; if (!check_body(b.data + b.index, A->max - HDR, &t) || t != (A->calls[k].tag | 0x80000000u)) fail("a call obtained the response of another one"); gracht_client_status_finalize(A->c, &b); A->calls[k].st = 3; A->done++; break; }
        if (i > 300) fail("there is no space for a message although buffers were returned");
    }
    finish(c);
}
void unknown(Call& c) { // a call that is not in progress
    gracht_buffer_t b; int e = A->ev; if (choose(2)) { REFUSED(gracht_client_wait_message(A->c, &c.x, choose(2) ? GRACHT_MESSAGE_BLOCK : 0), ENOENT, "waiting for a call that is not in progress"); } else REFUSED(status(c, &b), ENOENT, "asking for the result of a call that is not in progress"); if (e != A->ev) fail("a refused operation received messages");
    if (chance(1, 3) && gracht_client_await(A->c, &c.x, choose(2) ? GRACHT_AWAIT_ASYNC : 0)) fail("awaiting a call that has ended failed"); if (e != A->ev) fail("a refused operation received messages");
}
void arguments() {
    gracht_client_t* c = A->c; gracht_buffer_t b{}; struct gracht_message_context x{}; struct gracht_message_context* xs[1] = {&x}; gracht_client_t* o = nullptr; Resources r0 = resources();
    switch (choose(8)) {
    case 0: REFUSED(gracht_client_invoke(nullptr, &x, &b), EINVAL, "a call without a client"); REFUSED(gracht_client_invoke(c, &x, nullptr), EINVAL, "a call without a message"); break;
    case 1: REFUSED(gracht_client_wait_message(nullptr, &x, GRACHT_MESSAGE_BLOCK), EINVAL, "waiting without a client"); REFUSED(gracht_client_await(nullptr, &x, 0), EINVAL, "awaiting without a client"); break;
    case 2: REFUSED(gracht_client_await_multiple(c, nullptr, 1, 0), EINVAL, "awaiting no calls"); REFUSED(gracht_client_await_multiple(c, xs, 0, GRACHT_AWAIT_ALL), EINVAL, "awaiting zero calls"); break;
    case 3: REFUSED(gracht_client_get_status_buffer(nullptr, &x, &b), EINVAL, "status without a client"); REFUSED(gracht_client_get_status_buffer(c, nullptr, &b), EINVAL, "status without a call"); if (!A->calls.empty()) REFUSED(gracht_client_get_status_buffer(c, &A->calls[choose(A->calls.size())].x, nullptr), EINVAL, "status without a buffer"); break;
    case 4: REFUSED(gracht_client_status_finalize(nullptr, &b), EINVAL, "returning a buffer to no client"); if (!A->held.empty()) REFUSED(gracht_client_status_finalize(nullptr, &A->held[0]), EINVAL, "returning a buffer to no client"); REFUSED(gracht_client_get_buffer(nullptr, &b), 0, "a buffer of no client"); break;
    case 5: REFUSED(gracht_client_register_protocol(c, nullptr), EINVAL, "registering no service"); REFUSED(gracht_client_register_protocol(nullptr, &G_wp), EINVAL, "registering with no client"); gracht_client_unregister_protocol(nullptr, &G_evp); gracht_client_unregister_protocol(c, nullptr); gracht_client_unregister_protocol(c, &G_wp); break;
    case 6: gracht_client_shutdown(nullptr); REFUSED(gracht_client_iod(nullptr), EINVAL, "the handle of no client"); REFUSED(gracht_client_connect(nullptr), EINVAL, "connecting no client"); break;
    case 7: { gracht_client_configuration_t g; gracht_client_configuration_init(&g); REFUSED(gracht_client_create(&g, &o), EINVAL, "creating a client without a link"); REFUSED(gracht_client_create(nullptr, &o), EINVAL, "creating a client without a configuration"); Stub s; stub(); s.base = G_stub.base; gracht_client_configuration_set_link(&g, &s.base); REFUSED(gracht_client_create(&g, nullptr), EINVAL, "creating a client for nobody"); if (o) fail("a refused operation created a client"); break; }
    }
    Resources r1 = resources(); if (r1.blocks != r0.blocks || r1.fds != r0.fds) fail("a refused operation changed the resources in use");
}
void nosync(const char* why) { uint32_t t = A->tag++; note("a call without a context"); (void)t; REFUSED(invoke(true, false, false, nullptr), EINVAL, why); }
void down_call(const char* why) { A->calls.push_back({}); Call c; memset(&c, 0, sizeof c); A->calls.pop_back(); bool sync = choose(3), ctx = sync || choose(2); A->tag++; REFUSED(invoke(sync, ctx, false, &c.x), 0, why); if (ctx) { gracht_buffer_t b; REFUSED(status(c, &b), ENOENT, "asking for the result of a call that was not sent"); } }
void sequential() {
    A->max = 0; uint32_t mx = chance(1, 3) ? 0 : choose(2) ? 256 : 64, ar = chance(1, 3) ? 0 : choose(2) ? 40 * 400 : 1; A->max = mx ? mx : 2048; A->arena = std::max<size_t>(ar ? ar : 16 * 2048, 2 * A->max); A->a = unix_addr("api"); static std::vector<char> own; void* ob = nullptr; if (chance(1, 4)) { own.assign(A->max, 0); ob = own.data(); }
    A->c = make_client(A->a, mx, ar, false, AF_LOCAL, false, ob); gracht_client_t* c = A->c; note("client max=%u arena=%u", mx, ar); set_sched(draw_sched(false)); if (!mx && !ar) count("clients with the default configuration");
    if (gracht_client_register_protocol(c, &G_evp)) fail("registering failed");
    Resources r0 = resources(); for (int i = choose(6); i-- > 0;) { note("before the connection"); switch (choose(6)) {
        case 0: case 1: REFUSED(gracht_client_connect(c), 0, "connecting although nobody listens"); if (resources().fds != r0.fds) fail("a failed attempt to connect leaves %llu descriptors open", (unsigned long long)(resources().fds - r0.fds)); break;
        case 2: down_call("a call before the connection"); break; case 3: nosync("a call without a context"); break;
        case 4: REFUSED(gracht_client_wait_message(c, nullptr, choose(2) ? GRACHT_MESSAGE_BLOCK : 0), 0, "waiting before the connection"); break;
        case 5: arguments(); break; }
        if (gracht_client_iod(c) != GRACHT_CONN_INVALID) fail("a client that is not connected has handle %d", (int)gracht_client_iod(c)); }
    if (chance(1, 16)) { gracht_client_shutdown(c); ends("a client that was never connected"); return; }
    A->l.open_at(A->a); if (gracht_client_connect(c)) fail("connecting failed (errno %d)", errno); int fd = gracht_client_iod(c); A->p = A->l.accept(); A->up = true; note("connected");
    int n = range(4, 40); for (int i = 0; i < n; i++) {
        std::vector<Call*> prog, ans, fin; for (auto& k : A->calls) (k.st == 0 ? prog : k.st == 3 ? fin : ans).push_back(&k); gracht_buffer_t b;
        switch (choose(14)) {
        case 0: case 1: case 2: { uint32_t t = A->tag++; bool sync = choose(4) != 0; A->calls.push_back({}); Call& k = A->calls.back(); memset(&k, 0, sizeof k); k.tag = t; note("a call"); A->tag--; if (invoke(sync, sync || choose(2), true, &k.x)) fail("a call failed (errno %d)", errno); A->tag++; if (!sync) A->calls.pop_back(); break; }
        case 3: case 4: if (!prog.empty()) { Call* k = prog[choose(prog.size())]; note("a response"); if (chance(1, 5)) { std::string p; put32(p, k->x.message_id); put32(p, 5); A->p.send(make_frame(0, 0, 2, T_EVENT, p)); k->st = 2; } else { A->p.send(make_frame(k->x.message_id, 9, 1, T_RESPONSE, body(k->tag | 0x80000000u, choose(A->max - HDR - 12)))); k->st = 1; } } break;
        case 5: case 6: if (!ans.empty()) { note("a result is obtained"); obtain(*ans[choose(ans.size())]); } break;
        case 7: A->p.send(make_frame(1, 5, 7, T_EVENT, body(31, choose(20)))); A->ev_sent++; break;
        case 8: if (!fin.empty()) { note("a call that is not in progress"); unknown(*fin[choose(fin.size())]); } else { Call k; memset(&k, 0, sizeof k); k.x.message_id = 0x40000000u + choose(1000); unknown(k); } break;
        case 9: if (!prog.empty()) { Call* k = prog[choose(prog.size())]; if (status(*k, &b) != GRACHT_MESSAGE_INPROGRESS) fail("a call in progress has another status"); if (room(6) && A->calls.size() - fin.size() < 4) { note("polling for a call in progress"); REFUSED(gracht_client_wait_message(c, &k->x, 0), EAGAIN, "waiting for a call in progress without blocking"); } } break;
        case 10: note("connecting again"); REFUSED(gracht_client_connect(c), EISCONN, "connecting twice"); break;
        case 11: nosync("a call without a context"); break;
        case 12: arguments(); break;
        case 13: drop(); break;
        }
        if (gracht_client_iod(c) != fd) fail("the handle of a client changed"); arrivals();
    }
    if (!arrivals()) fail("messages that were sent did not arrive");
    if (chance(1, 2)) { // the connection breaks
        note("the server goes away"); pumpc(); A->p.close(); A->l.fd >= 0 ? raw_close(A->l.fd) : (void)0; A->l.fd = -1; A->up = false; count("broken connections");
        for (int i = range(1, 8); i-- > 0;) { std::vector<Call*> prog; for (auto& k : A->calls) if (k.st == 0) prog.push_back(&k); gracht_buffer_t b;
            switch (choose(6)) {
            case 0: down_call("a call on a broken connection"); break;
            case 1: for (auto& k : A->calls) if (k.st == 1 || k.st == 2) { obtain(k); break; } break;
            case 2: if (!prog.empty()) { Call* k = prog[choose(prog.size())]; while (!A->held.empty()) drop(); for (auto& o : A->calls) if (o.st == 1 || o.st == 2) obtain(o); while (!A->held.empty()) drop(); if (choose(2)) { REFUSED(gracht_client_wait_message(c, &k->x, GRACHT_MESSAGE_BLOCK), 0, "waiting on a broken connection"); } else REFUSED(gracht_client_await(c, &k->x, 0), 0, "awaiting on a broken connection"); REFUSED(gracht_client_await(c, &k->x, GRACHT_AWAIT_ASYNC), EPIPE, "awaiting on a broken connection"); if (status(*k, &b) != GRACHT_MESSAGE_INPROGRESS) fail("a call in progress has another status"); } break;
            case 3: REFUSED(gracht_client_connect(c), EISCONN, "connecting twice"); break;
            case 4: nosync("a call without a context"); break;
            case 5: arguments(); break; } }
    }
    for (auto& k : A->calls) if (k.st == 1 || k.st == 2) { if (chance(1, 8)) continue; obtain(k); }
    if (A->up && choose(4)) { while (!A->held.empty()) drop(); bool left = false; for (auto& k : A->calls) left |= k.st == 1; if (!left) { while (!gracht_client_wait_message(c, nullptr, 0)) {} if (errno != EAGAIN) fail("polling failed (errno %d)", errno); if (A->ev != A->ev_sent) fail("%d events were received, but %d handled", A->ev_sent, A->ev); } }
    if (A->ev > A->ev_sent) fail("an event was handled twice");
    gracht_client_shutdown(c); ends("a client that was shut down");
}
// several threads use a client while another one attempts what is refused
void threads() {
    A->max = 256; A->arena = 40 * 500; A->a = unix_addr("api"); A->c = make_client(A->a, 256, 40 * 500, false, AF_LOCAL, false); gracht_client_t* c = A->c; for (int i = choose(4); i-- > 0;) { if (choose(2)) REFUSED(gracht_client_connect(c), 0, "connecting although nobody listens"); else REFUSED(gracht_client_wait_message(c, nullptr, choose(2) ? GRACHT_MESSAGE_BLOCK : 0), 0, "waiting before the connection"); } A->l.open_at(A->a); if (gracht_client_connect(c)) fail("connecting failed (errno %d)", errno); A->p = A->l.accept(); A->up = true; if (gracht_client_register_protocol(c, &G_evp)) fail("registering failed"); set_sched(draw_sched());
    int live = range(1, 3), n = live; uint64_t asked = 0; std::vector<int> f; bool async = chance(1, 3), stop = false; int pump = -1; note("%d callers%s", n, async ? " and a thread that receives" : "");
    for (int t = 0; t < n; t++) f.push_back(spawn("caller", [&, t]() { for (int i = range(1, 8); i-- > 0;) { gracht_buffer_t b; struct gracht_message_context x; memset(&x, 0, sizeof x); uint32_t tag = 1000 * (t + 1) + i; if (gracht_client_get_buffer(c, &b)) fail("no buffer"); std::string fr = make_frame(0, 9, 1, T_SYNC, body(tag, choose(40))); memcpy(b.data, fr.data(), fr.size()); b.index = fr.size(); if (gracht_client_invoke(c, &x, &b)) fail("a call failed (errno %d)", errno); asked++;
            if (gracht_client_await(c, &x, async ? GRACHT_AWAIT_ASYNC : 0)) fail("awaiting a call failed (errno %d)", errno); if (gracht_client_get_status_buffer(c, &x, &b) != GRACHT_MESSAGE_COMPLETED) fail("no result after waiting"); uint32_t tg; if (!check_body(b.data + b.index, 245, &tg) || tg != (tag | 0x80000000u)) fail("a call obtained the response of another one"); gracht_client_status_finalize(c, &b); A->done++; if (gracht_client_get_status_buffer(c, &x, &b) != -1) fail("a call has two results"); } live--; }));
    if (async) pump = spawn("receiver", [&]() { while (!stop) if (gracht_client_wait_message(c, nullptr, GRACHT_MESSAGE_BLOCK) && !stop && errno != EBUSY) fail("receiving failed (errno %d)", errno); });
    int intr = spawn("intruder", [&]() { for (int i = range(4, 40); i-- > 0;) { switch (choose(6)) { 
        case 0: { gracht_buffer_t b; if (gracht_client_get_buffer(c, &b)) fail("no buffer"); std::string fr = make_frame(0, 9, 1, T_SYNC, body(5, choose(40))); memcpy(b.data, fr.data(), fr.size()); b.index = fr.size(); REFUSED(gracht_client_invoke(c, nullptr, &b), EINVAL, "a call without a context"); break; }
        case 1: { struct gracht_message_context x{}; x.message_id = 0x40000000u; gracht_buffer_t b; REFUSED(gracht_client_wait_message(c, &x, choose(2) ? GRACHT_MESSAGE_BLOCK : 0), ENOENT, "waiting for a call that is not in progress"); REFUSED(gracht_client_get_status_buffer(c, &x, &b), ENOENT, "asking for the result of a call that is not in progress"); break; }
        case 2: REFUSED(gracht_client_connect(c), EISCONN, "connecting twice"); break;
        case 3: { errno = 0; int r = gracht_client_wait_message(c, nullptr, 0); if (r && errno != EBUSY && errno != EAGAIN) fail("polling failed (errno %d)", errno); if (r && errno == EBUSY) { count("polls while another thread receives"); G_refused++; } break; }
        case 4: gracht_client_unregister_protocol(c, &G_wp); REFUSED(gracht_client_register_protocol(c, nullptr), EINVAL, "registering no service"); break;
        case 5: REFUSED(gracht_client_await_multiple(c, nullptr, 3, GRACHT_AWAIT_ANY), EINVAL, "awaiting no calls"); break; }
        for (int k = choose(3); k-- > 0;) yield(); } });
    size_t answered = 0; for (int spin = 0; live; spin++) { if (chance(1, 2)) yield(); else settle(); A->p.pump(); if (A->p.bad) fail("%s", A->p.bad_why.c_str()); while (answered < A->p.frames.size() && (spin > 300 || choose(2))) { Frame& q = A->p.frames[answered++]; uint32_t tg; if (q.sid != 9 || !check_body(q.payload.data(), q.payload.size(), &tg) || tg < 1000) fail("a message arrived that no operation sent"); A->p.send(make_frame(q.id, 9, 1, T_RESPONSE, body(tg | 0x80000000u, choose(60)))); } if (chance(1, 6)) { A->p.send(make_frame(1, 5, 7, T_EVENT, body(31, choose(20)))); A->ev_sent++; } if (spin > 5000) fail("callers are stuck although all responses were sent [%s]", fiber_states().c_str()); }
    for (int x : f) join(x); join(intr); if (pump >= 0) { stop = true; A->p.send(make_frame(1, 5, 7, T_EVENT, body(31, 3))); A->ev_sent++; join(pump); }
    while (!gracht_client_wait_message(c, nullptr, 0)) {} if (errno != EAGAIN) fail("polling failed (errno %d)", errno); if (A->ev != A->ev_sent) fail("%d events were received, but %d handled", A->ev_sent, A->ev); A->p.pump(); if (A->p.frames.size() != asked) fail("%zu messages arrived, but %llu calls were made", A->p.frames.size(), (unsigned long long)asked);
    gracht_client_shutdown(c); ends("a client that was shut down");
}
void client_case() { static Api* old; delete old; A = old = new Api; G_refused = 0; if (chance(1, 3)) threads(); else sequential(); if (A->full) count("receptions refused for want of space", A->full); count("operations refused by the client", G_refused); count("calls completed", A->done); if (G_refused >= 2 && A->done >= 1) nontrivial(); }
void c26() { if (choose(2)) { count("client cases"); client_case(); } else server_case(); }
Register r26("C26", "a case drives a server (0-4 workers, own or external event loop, 1-4 links, raw clients whose traffic is checked by the reference model) or a client (default or own configuration, before, during and after its connection, from one or several threads) and puts operations that cannot be carried out between, and in half of the cases beside, those that can. Non-trivial: servers refused at least 4 operations and executed 3 requests, clients refused at least 2 operations and completed a call", c26);
} // namespace
