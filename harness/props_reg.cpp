// C24: services come and go while messages arrive, on the server and in the client.
#include "world.h"
using namespace vf;
namespace {
enum { V = 8 };
struct Sv { uint8_t id = 0; int variant = 0; bool fixed = false, on = false; uint32_t ver = 0; gracht_protocol_function_t fn[1]; gracht_protocol_t proto; };
struct Ev { int svc; uint32_t tag, ver; bool on; int handled = 0; };
struct Reg { Srv srv; gracht_client_t* c = nullptr; std::vector<Sv> sv; std::vector<int> ours, theirs; int busy = 0; uint64_t ops = 0, inside = 0, overlap = 0; std::vector<Ev> ev; std::map<uint8_t, int> at; std::vector<uint32_t> order; bool closing = false; int registrars = 0, handling = 0; };
Reg* R;
bool server() { return !R->c; }
void change(Sv& s, const char* who) { // registers or unregisters, and keeps the books; ver is odd while it happens
    bool on = s.on; note("%s %sregisters service %u", who, on ? "un" : "", s.id); s.ver++; R->ops++; if (R->handling) R->overlap++;
    if (on) { if (server()) gracht_server_unregister_protocol(R->srv.s, &s.proto); else gracht_client_unregister_protocol(R->c, &s.proto); }
    else if (server() ? gracht_server_register_protocol(R->srv.s, &s.proto) : gracht_client_register_protocol(R->c, &s.proto)) fail("registering service %u, which was not registered, failed (errno %d)", s.id, errno);
    s.on = !on; s.ver++;
    if (server() && s.on && chance(1, 6) && gracht_server_register_protocol(R->srv.s, &s.proto) != -1) fail("registering service %u twice was accepted", s.id);
}
void inner() { // a handler that changes a service; one at a time
    if (R->busy || R->theirs.empty()) return;
    R->busy = 1; R->inside++; change(R->sv[R->theirs[choose(R->theirs.size())]], "a handler"); R->busy = 0;
}
// payload of requests: [service index][tag][flag]
void serve(int variant, struct gracht_message* m, gracht_buffer_t* b) {
    const char* p = b->data + b->index; uint32_t idx = get32(p), tag = get32(p + 4); bool in = p[8]; R->handling++;
    if (idx >= R->sv.size() || R->sv[idx].variant != variant) fail("a request was executed by the handler of another service");
    if (in) inner();
    gracht_buffer_t o; if (gracht_server_get_buffer(m->server, &o)) fail("no buffer"); std::string pl; put32(pl, idx); put32(pl, tag); std::string f = make_frame(0, R->sv[idx].id, 1, T_RESPONSE, pl); memcpy(o.data, f.data(), f.size()); o.index = f.size(); R->handling--; gracht_server_respond(m, &o);
}
template <int N> void h(struct gracht_message* m, gracht_buffer_t* b) { serve(N, m, b); }
void* const H[V] = {(void*)h<0>, (void*)h<1>, (void*)h<2>, (void*)h<3>, (void*)h<4>, (void*)h<5>, (void*)h<6>, (void*)h<7>};
void take(int variant, gracht_client_t* c, gracht_buffer_t* b) {
    const char* p = b->data + b->index; uint32_t idx = get32(p), tag = get32(p + 4); bool in = p[8]; if (c != R->c) fail("an event handler was given another client"); R->handling++;
    if (idx >= R->sv.size() || R->sv[idx].variant != variant) fail("an event was handled by the handler of another service");
    if (tag >= R->ev.size() || R->ev[tag].svc != (int)idx) fail("an event that was not sent was handled");
    if (R->ev[tag].handled++) fail("an event was handled twice");
    R->order.push_back(tag); if (in) inner(); R->handling--;
}
template <int N> void e(gracht_client_t* c, gracht_buffer_t* b) { take(N, c, b); }
void* const E[V] = {(void*)e<0>, (void*)e<1>, (void*)e<2>, (void*)e<3>, (void*)e<4>, (void*)e<5>, (void*)e<6>, (void*)e<7>};

void services(bool client) {
    int fixed = range(1, 3), n = chance(1, 3) ? range(20, 60) : range(2, 16); std::set<uint8_t> used; R->sv.resize(fixed + n);
    bool clash = chance(1, 3); uint8_t low = choose(16);
    for (size_t i = 0; i < R->sv.size(); i++) {
        Sv& s = R->sv[i]; uint32_t x = clash && chance(3, 4) ? low + 16 * choose(16) : range(1, 254); while (!x || x > 254 || used.count(x)) x = x >= 254 ? 1 : x + 1;
        s.id = x; used.insert(x); s.variant = choose(V); s.fixed = (int)i < fixed; s.fn[0] = {1, client ? E[s.variant] : H[s.variant]}; s.proto = {s.id, (char*)"s", 1, s.fn};
        if (!s.fixed) (chance(1, 4) ? R->theirs : R->ours).push_back(i);
    }
    std::vector<int> first; for (size_t i = 0; i < R->sv.size(); i++) first.push_back(i);
    for (size_t i = 0; i < first.size(); i++) std::swap(first[i], first[i + choose(first.size() - i)]);
    for (int i : first) if (R->sv[i].fixed || chance(1, 2)) change(R->sv[i], "the application");
}
std::vector<int> registrars(int round) { // threads that change services, each its own
    std::vector<int> f; int n = range(1, 3);
    for (int k = 0; k < n; k++) f.push_back(spawn("registrar", [k, n]() { std::vector<int> mine; for (size_t i = 0; i < R->ours.size(); i++) if ((int)(i % n) == k) mine.push_back(R->ours[i]); if (mine.empty()) return;
        for (int i = range(1, 30); i-- > 0;) { change(R->sv[mine[choose(mine.size())]], "a thread"); if (chance(1, 3)) yield(); } }));
    (void)round; return f;
}
std::string load(int idx, uint32_t tag, bool in) { std::string p; put32(p, idx); put32(p, tag); p += (char)in; p += std::string(choose(30), 'x'); return p; }

struct Want { int svc; uint32_t ver; bool on; uint32_t tag; };
void server_case() {
    SrvCfg c; c.workers = choose(5); c.max = 256; R->srv.start(c); services(false); set_sched(draw_sched());
    int np = range(1, 3), rounds = range(1, 4); std::vector<Peer> p(np); std::vector<std::map<uint32_t, Want>> want(np); std::vector<uint32_t> id(np, 1); uint64_t fixed = 0, sure = 0;
    for (auto& x : p) if (!x.connect(R->srv.addr)) fail("cannot connect");
    auto ask = [&](int k, int idx, bool in) { Sv& s = R->sv[idx]; uint32_t i = id[k]++; want[k][i] = {idx, s.ver, s.on, i * 3 + k}; if (!p[k].send(make_frame(i, s.id, 1, T_SYNC, load(idx, i * 3 + k, in)))) fail("the server closed the connection"); };
    auto hear = [&]() { bool any = false; for (int k = 0; k < np; k++) { any |= p[k].pump(); if (p[k].eof || p[k].bad) fail("the server closed the connection or sent garbage");
        for (auto& f : p[k].frames) {
            bool ok = (f.flags & 3) == T_RESPONSE; uint32_t i = ok ? f.id : f.payload.size() >= 4 ? get32(f.payload.data()) : 0; auto w = want[k].find(i); if (w == want[k].end()) fail(ok ? "an answer to no request" : "an error for no request"); Sv& s = R->sv[w->second.svc];
            if (ok && (f.payload.size() != 8 || get32(f.payload.data()) != (uint32_t)w->second.svc || get32(f.payload.data() + 4) != w->second.tag)) fail("a request was answered with the answer to another");
            if (!(w->second.ver & 1) && s.ver == w->second.ver) { sure++; if (ok != w->second.on) fail(ok ? "service %u, which was not registered all the time, ran a handler" : "service %u was registered all the time, but a request was refused", s.id); }
            if (s.fixed) fixed++; want[k].erase(w);
        } p[k].frames.clear(); } return any; };
    for (int r = 0; r < rounds; r++) {
        std::vector<int> f = registrars(r);
        for (int i = range(1, 30); i-- > 0;) { ask(choose(np), chance(1, 2) ? choose(std::min<size_t>(R->sv.size(), 3)) : choose(R->sv.size()), chance(1, 4)); if (chance(1, 2)) yield(); if (chance(1, 6)) hear(); }
        for (int x : f) join(x);
        do settle(); while (hear()); for (auto& w : want) if (!w.empty()) fail("a request to service %u was neither executed nor refused", R->sv[w.begin()->second.svc].id);
        for (size_t i = 0; i < R->sv.size(); i++) ask(choose(np), i, false); // nobody changes anything now
        do settle(); while (hear()); for (auto& w : want) if (!w.empty()) fail("a request to service %u was neither executed nor refused", R->sv[w.begin()->second.svc].id);
    }
    count("requests to services that stay", fixed); count("requests to services in a known state", sure); if (R->ops >= 10 && fixed >= 3) nontrivial();
}
void client_case() {
    Listener l; l.open("l"); R->c = make_client(l.addr, 256, 300 * 8); Peer p = l.accept(); services(true); set_sched(draw_sched());
    int rounds = range(1, 4), pump = spawn("receiver", []() { while (!gracht_client_wait_message(R->c, nullptr, GRACHT_MESSAGE_BLOCK)) {} if (!R->closing) fail("receiving failed (errno %d) on a healthy connection", errno); }); uint64_t fixed = 0;
    auto tell = [&](int idx, bool in) { Sv& s = R->sv[idx]; R->ev.push_back({idx, (uint32_t)R->ev.size(), s.ver, s.on}); if (!p.send(make_frame(0, s.id, 1, T_EVENT, load(idx, R->ev.size() - 1, in)))) fail("the client closed the connection"); };
    auto judge = [&](size_t from) { settle(); for (size_t i = from; i < R->ev.size(); i++) { Ev& x = R->ev[i]; Sv& s = R->sv[x.svc]; if (s.fixed) fixed++; if (!(x.ver & 1) && s.ver == x.ver && x.handled != x.on) fail(x.on ? "service %u was registered all the time, but an event of it was not handled" : "an event of service %u, which was not registered, was handled", s.id); } };
    for (int r = 0; r < rounds; r++) {
        size_t from = R->ev.size(); std::vector<int> f = registrars(r);
        for (int i = range(1, 30); i-- > 0;) { tell(chance(1, 2) ? choose(std::min<size_t>(R->sv.size(), 3)) : choose(R->sv.size()), chance(1, 4)); if (chance(1, 2)) yield(); }
        for (int x : f) join(x);
        judge(from); from = R->ev.size(); for (size_t i = 0; i < R->sv.size(); i++) tell(i, false); judge(from);
    }
    for (size_t i = 1; i < R->order.size(); i++) if (R->order[i] < R->order[i - 1]) fail("events were not handled in the order they arrived");
    R->closing = true; p.close(); join(pump); gracht_client_shutdown(R->c); count("events of services that stay", fixed); if (R->ops >= 10 && fixed >= 3) nontrivial();
}
void c24() {
    static Reg* old; delete old; R = old = new Reg; bool client = choose(2); note(client ? "client" : "server"); count(client ? "client cases" : "server cases");
    if (client) client_case(); else server_case();
    count("services registered or unregistered", R->ops); count("changes made by handlers", R->inside); count("changes while a handler was running", R->overlap);
}
Register r24("C24", "a case starts a server (0-4 workers, 1-3 raw clients) or a client (events from a scripted server, received by a thread of its own) with 1-3 services that stay registered and 2-60 (a third with colliding identifiers) that 1-3 threads and the handlers themselves register and unregister while requests or events arrive, under a random schedule with preemption at memory accesses; every round ends with a message to every service. Non-trivial: at least 10 changes and 3 messages to services that stay", c24);
} // namespace
