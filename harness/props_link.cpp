// C25: links implemented by the application. The core is driven through links that exist only here; every use of their operations is recorded and checked.
#include "world.h"
#include <algorithm>
#include <bitset>
extern "C" {
#include "vf_link.h"
}
using namespace vf;
namespace {
enum { K_ECHO, K_SILENT, K_DEFER, K_SLOW, K_EVENT, K_BCAST, K_NB };
const uint32_t RESP = 0x40000000, EVT = 0x20000000, ALIVE = 0x11223344, DEAD = 0x55667788;
struct End;
struct MClient { struct gracht_server_client base; uint32_t magic = ALIVE; End* e = nullptr; int busy = 0; };
// the far end of a connection, or a sender of a packet link
struct End { int no = 0, link = 0, handle = 0, fd = -1, rf = -1; bool packet = false, open = true, accepted = false, refused = false, hang = false; std::deque<std::string> q; MClient* cl = nullptr; uint32_t next_id = 1; std::bitset<256> subs; int conn = 0; uint64_t chg = 0, quiet = 0; };
struct MLink { struct gracht_link base; uint32_t magic = ALIVE; int no = 0, fd = -1, rf = -1, tries = 0, handle = 0, meta = 0; bool packet = false, tells = false, up = false, down = false; std::deque<End*> coming; std::deque<std::pair<End*, std::string>> q; };
struct Rq { uint32_t tag, id; int end; uint8_t sid, aid; int beh, arg; uint32_t n, respn; bool uns = false, answered = false, lost = false, errlost = false, known = false; uint64_t chg = 0; int handled = 0, got = 0, errs = 0; };
struct Ev { uint8_t sid; uint32_t n; unsigned flags; int target; std::map<int, int> must, may, got; uint64_t chg; };
struct LW {
    gracht_server_t* s = nullptr; int set = -1; int epfd = -1; std::vector<std::unique_ptr<MLink>> links; std::vector<std::unique_ptr<End>> ends; std::vector<std::unique_ptr<MClient>> clients; std::map<uint32_t, Rq> rq; std::map<uint32_t, Ev> ev; uint32_t tag = 1;
    uint8_t sid[3], aid[3][2]; gracht_protocol_function_t fn[3][2]; gracht_protocol_t proto[3]; int nsvc = 0, max = 256, workers = 1; std::vector<std::pair<struct gracht_message*, uint32_t>> deferred; std::map<int, int> sent; std::map<gracht_conn_t, int> conns;
    bool stopping = false, stopped = false, calm = false; int running = 0; uint64_t handled = 0, refusals = 0, failures = 0; uint32_t trouble = 0; uint64_t chgs = 0, calms = 1, flux = 0;
    ~LW() { for (auto& d : deferred) free(d.first); for (auto& l : links) { if (l->fd >= 0) ::close(l->fd); if (l->rf >= 0) ::close(l->rf); } for (auto& e : ends) { if (e->fd >= 0) ::close(e->fd); if (e->rf >= 0) ::close(e->rf); } if (epfd >= 0) ::close(epfd); }
};
LW* W;
bool trouble() { if (W->trouble && !W->calm && !W->stopping && chance(1, W->trouble)) { W->failures++; return true; } return false; }
void bell_pair(int& a, int& b) { int v[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0, v)) { perror("socketpair"); _exit(3); } a = fcntl(v[0], F_DUPFD_CLOEXEC, 900); b = fcntl(v[1], F_DUPFD_CLOEXEC, 900); ::close(v[0]); ::close(v[1]); }
void ring(int fd) { if (::send(fd, "!", 1, MSG_NOSIGNAL) != 1) fail("harness: bell"); }
bool answer(int fd) { char c; return ::recv(fd, &c, 1, MSG_DONTWAIT) == 1; }
std::string metadata(const End& e) { std::string m; put32(m, e.no); m += pattern(e.no + 77, std::max(0, W->links[e.link]->meta - 4)); return m; }
MLink* the_link(struct gracht_link* p, const char* op) { for (auto& l : W->links) if (&l->base == p) { if (l->down) fail("%s was invoked on a link that was destroyed", op); if (!l->up && strcmp(op, "setup")) fail("%s was invoked on a link that was not set up", op); return l.get(); } fail("%s was invoked with something that is no link", op); }
MClient* the_client(struct gracht_server_client* p, const char* op) { for (auto& c : W->clients) if (&c->base == p) { if (c->magic != ALIVE) fail("%s was invoked on a client that was destroyed", op); return c.get(); } fail("%s was invoked with something that is no client", op); }
void the_set(int set, const char* op) { if (W->set < 0) W->set = set; if (W->set != set) fail("%s was given another set of handles", op); }
void pause_() { for (int i = chance(1, 4) ? choose(4) : 0; i-- > 0;) yield(); }
void watch(int set, int fd, int handle) { struct epoll_event ev; memset(&ev, 0, sizeof ev); ev.events = EPOLLIN | EPOLLRDHUP; ev.data.fd = handle; if (::epoll_ctl(set, EPOLL_CTL_ADD, fd, &ev)) fail("a link was given a set of handles that cannot be used (errno %d)", errno); }

int to_message(MLink* l, End* e, const std::string& f, struct gracht_message* m) {
    std::string meta = metadata(*e); if (m->index < meta.size() + W->max) fail("the space for a message is only %u bytes", m->index);
    memset(m->payload, 0xA5, m->index); memcpy(m->payload, meta.data(), meta.size()); memcpy(m->payload + meta.size(), f.data(), f.size());
    m->link = l->handle; m->client = e->handle; m->index = meta.size(); m->size = meta.size() + f.size(); return 0;
}
void arrived(End* e, const char* p, size_t n, unsigned flags);
int deliver(End* e, struct gracht_buffer* b, unsigned flags, const char* op) {
    uint32_t len = get32(b->data + 4); if (b->index < HDR || len != b->index) fail("%s was given %u bytes, but the message has %u", op, b->index, len);
    std::string f(b->data, b->index); pause_(); if (f != std::string(b->data, b->index)) fail("a message was changed while it was being sent");
    if (trouble()) { uint8_t t = f[10] & 3; uint32_t tg; if (t == T_EVENT && !f[8]) { for (auto& r : W->rq) if (r.second.end == e->no && r.second.id == get32(f.data() + HDR)) r.second.errlost = true; } else if (check_body(f.data() + HDR, f.size() - HDR, &tg)) { if (tg & RESP) W->rq[tg & ~RESP].lost = true; else W->ev[tg & ~EVT].got[e->no] += 100; } errno = EPIPE; return W->sent[self()] = -1; }
    if (e->open) arrived(e, f.data(), f.size(), flags); return W->sent[self()] = 0;
}
// ---- the operations
gracht_conn_t op_setup(struct gracht_link* p, gracht_handle_t set) {
    MLink* l = the_link(p, "setup"); if (l->up) fail("a link was set up twice"); the_set(set, "setup");
    if (l->tries-- > 0) { errno = EADDRINUSE; W->failures++; return GRACHT_CONN_INVALID; }
    bell_pair(l->fd, l->rf); if (!l->handle) l->handle = l->fd; watch(set, l->fd, l->handle); l->up = true; l->base.connection = l->handle; return l->handle;
}
void op_destroy(struct gracht_link* p, gracht_handle_t set) {
    MLink* l = the_link(p, "destroy"); the_set(set, "destroy"); for (auto& c : W->clients) if (c->magic == ALIVE && c->e->link == l->no) fail("a link was destroyed before its clients");
    ::epoll_ctl(set, EPOLL_CTL_DEL, l->fd, nullptr); l->down = true; l->magic = DEAD;
}
int op_accept(struct gracht_link* p, gracht_handle_t set, struct gracht_server_client** out) {
    MLink* l = the_link(p, "accept_client"); the_set(set, "accept_client"); if (l->packet) fail("accept_client was invoked on a packet link"); if (l->coming.empty()) { errno = EAGAIN; return -1; }
    answer(l->fd); End* e = l->coming.front(); l->coming.pop_front(); if (trouble()) { e->refused = true; e->open = false; errno = ECONNABORTED; return -1; }
    W->clients.push_back(std::make_unique<MClient>()); MClient* c = W->clients.back().get(); memset(&c->base, 0, sizeof c->base); c->e = e; c->base.handle = e->handle; e->cl = c; e->accepted = true; watch(set, e->fd, e->handle); pause_(); *out = &c->base; return 0;
}
int op_create(struct gracht_link* p, struct gracht_message* m, struct gracht_server_client** out) {
    MLink* l = the_link(p, "create_client"); if (!l->packet) fail("create_client was invoked on a stream link"); uint32_t no = get32((char*)m->payload);
    if (m->index != (uint32_t)l->meta || no >= W->ends.size() || W->ends[no]->link != l->no || memcmp(m->payload, metadata(*W->ends[no]).data(), l->meta)) fail("create_client was given another message than the one received");
    End* e = W->ends[no].get(); if (e->cl) fail("a sender that is known already was created again"); if (trouble()) { errno = ENOMEM; return -1; }
    W->clients.push_back(std::make_unique<MClient>()); MClient* c = W->clients.back().get(); memset(&c->base, 0, sizeof c->base); c->e = e; c->base.handle = m->client; e->cl = c; pause_(); *out = &c->base; return 0;
}
int op_destroy_client(struct gracht_server_client* p, gracht_handle_t set) {
    MClient* c = the_client(p, "destroy_client"); the_set(set, "destroy_client"); if (c->busy) fail("a client was destroyed while a message was being sent to it");
    if (W->links[c->e->link]->down) fail("a client was destroyed after its link"); c->magic = DEAD; memset(&c->base, 0xDD, sizeof c->base); c->e->cl = nullptr;
    if (!c->e->packet) { ::epoll_ctl(set, EPOLL_CTL_DEL, c->e->fd, nullptr); ::close(c->e->fd); c->e->fd = -1; c->e->open = false; } return 0;
}
int op_recv_client(struct gracht_server_client* p, struct gracht_message* m, unsigned) {
    MClient* c = the_client(p, "recv_client"); End* e = c->e; if (e->packet) fail("recv_client was invoked for a sender of packets");
    if (e->q.empty()) { if (e->hang) { errno = EFAULT; return -1; } errno = EAGAIN; return -1; }
    if (trouble()) { errno = EAGAIN; return -1; } // not yet
    pause_(); answer(e->fd); std::string f = e->q.front(); e->q.pop_front(); return to_message(W->links[e->link].get(), e, f, m);
}
int op_send_client(struct gracht_server_client* p, struct gracht_buffer* b, unsigned flags) { MClient* c = the_client(p, "send_client"); c->busy++; int r = deliver(c->e, b, flags, "send_client"); the_client(p, "send_client"); c->busy--; return r; }
int op_recv(struct gracht_link* p, struct gracht_message* m, unsigned) {
    MLink* l = the_link(p, "recv"); if (!l->packet) fail("recv was invoked on a stream link"); if (l->q.empty()) { errno = ENODATA; return -1; } if (trouble()) { errno = chance(1, 2) ? EINTR : EIO; return -1; }
    pause_(); answer(l->fd); auto x = l->q.front(); l->q.pop_front(); return to_message(l, x.first, x.second, m);
}
int op_send(struct gracht_link* p, struct gracht_message* m, struct gracht_buffer* b) {
    MLink* l = the_link(p, "send"); if (!l->packet) fail("send was invoked on a stream link"); uint32_t no = get32((char*)m->payload);
    if (m->index != (uint32_t)l->meta || no >= W->ends.size() || W->ends[no]->link != l->no || memcmp(m->payload, metadata(*W->ends[no]).data(), l->meta)) fail("a response was given to a link with another message than the one it received");
    return deliver(W->ends[no].get(), b, GRACHT_MESSAGE_BLOCK, "send");
}
int op_is_sender(struct gracht_server_client* p, const struct gracht_message* m) {
    MClient* c = the_client(p, "is_sender"); MLink* l = W->links[c->e->link].get(); if (m->link != l->handle) fail("a link was asked about a message of another link"); return get32((const char*)m->payload) == (uint32_t)c->e->no;
}
// ---- the application
void arrived(End* e, const char* p, size_t n, unsigned flags) {
    int t = p[10] & 3; uint8_t sid = p[8], aid = p[9]; uint32_t tg, got;
    if (t == T_EVENT && !sid) { if (aid != 2 || n != HDR + 8) fail("an unknown control event was sent"); for (auto& r : W->rq) if (r.second.end == e->no && r.second.id == get32(p + HDR)) { if (!r.second.uns) fail("an error was sent for a request that can be served"); if (r.second.errs++) fail("two errors were sent for one request"); return; } fail("an error was sent for no request"); }
    got = check_body(p + HDR, n - HDR, &tg); if (got != n - HDR) fail("a link was given a corrupted message to send");
    if (t == T_RESPONSE) { auto r = W->rq.find(tg & ~RESP); if (!(tg & RESP) || r == W->rq.end()) fail("a response to no request was sent"); if (r->second.end != e->no) fail("the response to a request of %d was sent to %d", r->second.end, e->no); if (r->second.id != get32(p) || r->second.sid != sid || r->second.aid != aid || got != 12 + r->second.respn) fail("a response was altered"); if (r->second.got++) fail("a response was sent twice"); if (flags != GRACHT_MESSAGE_BLOCK) fail("a response was sent with flags %u", flags); }
    else if (t == T_EVENT) { auto v = W->ev.find(tg & ~EVT); if (!(tg & EVT) || v == W->ev.end()) fail("an event that nobody sent was sent"); if (v->second.sid != sid || got != 12 + v->second.n || flags != v->second.flags) fail("an event was altered"); if (!v->second.must.count(e->no) && (v->second.target >= 0 || (!v->second.may.count(e->no) && e->chg <= v->second.chg))) fail("an event was sent to %d, for whom it is not", e->no); if (v->second.got[e->no]++) fail("an event was sent twice"); }
    else fail("a message of type %d was sent to a client", t);
}
void header(gracht_buffer_t* b, uint8_t sid, uint8_t aid, uint8_t fl) { memset(b->data, 0, 8); b->data[8] = sid; b->data[9] = aid; b->data[10] = fl; b->index = HDR; }
void respond(struct gracht_message* m, uint32_t tag) {
    Rq r = W->rq[tag]; gracht_buffer_t b; if (gracht_server_get_buffer(W->s, &b)) fail("no response buffer"); std::string p = body(tag | RESP, r.respn); header(&b, r.sid, r.aid, T_RESPONSE); memcpy(b.data + b.index, p.data(), p.size()); b.index += p.size(); yield();
    W->sent[self()] = 2; W->rq[tag].answered = true; End* e = W->ends[r.end].get(); bool open = e->open; int st = gracht_server_respond(m, &b), x = W->sent[self()];
    if (x == 2 ? !st || (open && e->open) : st != x) fail("responding returned %d, %s", st, x == 2 ? "but nothing was sent to a client that is there" : x ? "but the link failed" : "but the link sent it");
}
uint32_t event(int target, int handle, uint8_t sid) {
    uint32_t tg = W->tag++; Ev v{}; v.sid = sid; v.n = choose(30); v.flags = choose(2) ? GRACHT_MESSAGE_BLOCK : 0; v.target = target; bool open = target >= 0 && W->ends[target]->open;
    if (target >= 0) v.must[target] = 1; else for (auto& e : W->ends) if (e->open) { if (e->quiet >= W->calms) v.may[e->no] = 1, W->flux++; else if (e->cl && e->subs[sid]) v.must[e->no] = 1; } v.chg = W->chgs; W->ev[tg] = v;
    gracht_buffer_t b; if (gracht_server_get_buffer(W->s, &b)) fail("no event buffer"); std::string p = body(tg | EVT, v.n); header(&b, sid, 7, T_EVENT); memcpy(b.data + b.index, p.data(), p.size()); b.index += p.size(); W->sent[self()] = 2;
    if (target < 0) { if (gracht_server_broadcast_event(W->s, &b, v.flags)) fail("broadcasting failed"); }
    else { int st = gracht_server_send_event(W->s, handle, &b, v.flags), x = W->sent[self()]; if (x == 2 ? !st || (open && W->ends[target]->open && W->ends[target]->cl) : st != x) fail("sending an event returned %d, but the link %s", st, x == 2 ? "was not asked" : x ? "failed" : "sent it"); }
    return tg;
}
void on_call(int s, int a, struct gracht_message* m, gracht_buffer_t* b) {
    const char* p = b->data + b->index; uint32_t tag; if (m->server != W->s) fail("a handler was given another server"); if (b->data != (char*)m->payload || b->index != m->index + HDR) fail("a handler was not given the message it was called for");
    if (!check_body(p + 6, W->max, &tag)) fail("a handler was invoked with bytes no link received"); auto it = W->rq.find(tag); if (it == W->rq.end()) fail("a handler was invoked with a request no link received"); Rq r = it->second; End* e = W->ends[r.end].get();
    if (check_body(p + 6, W->max, &tag) != 12 + r.n || (uint8_t)p[0] != r.beh) fail("a request was altered"); if (r.uns || r.sid != W->sid[s] || r.aid != W->aid[s][a]) fail("a request was given to another handler"); if (it->second.handled++) fail("a request was executed twice");
    if (W->stopped) fail("a handler runs although the server has stopped"); if (m->link != W->links[e->link]->handle || (!e->packet && m->client != e->handle)) fail("a message is attributed to another link or client"); std::string meta = metadata(*e); if (m->index != meta.size() || memcmp(m->payload, meta.data(), meta.size())) fail("what the link stored with a message was altered");
    struct Busy { Busy() { W->running++; } ~Busy() { W->running--; } } busy; W->handled++;
    switch (r.beh) {
    case K_ECHO: respond(m, tag); break;
    case K_DEFER: { auto* k = (struct gracht_message*)malloc(GRACHT_MESSAGE_DEFERRABLE_SIZE(m)); gracht_server_defer_message(m, k); W->deferred.push_back({k, tag}); break; }
    case K_SLOW: for (int i = 0; i <= r.arg; i++) yield(); respond(m, tag); break;
    case K_EVENT: event(r.end, m->client, r.sid); respond(m, tag); break;
    case K_BCAST: event(-1, 0, r.sid); respond(m, tag); break;
    }
    uint32_t t2; if (!check_body(p + 6, W->max, &t2) || t2 != tag) fail("a request was overwritten while its handler was running");
}
template <int S, int A> void handler(struct gracht_message* m, gracht_buffer_t* b) { on_call(S, A, m, b); }
void* H[3][2] = {{(void*)handler<0, 0>, (void*)handler<0, 1>}, {(void*)handler<1, 0>, (void*)handler<1, 1>}, {(void*)handler<2, 0>, (void*)handler<2, 1>}};
void came(gracht_conn_t h) { if (W->conns[h]++) fail("client %d was reported twice", h); }
void left(gracht_conn_t h) { if (W->conns[h]-- != 1) fail("client %d was reported gone, but is not known", h); }

MLink* add_link() {
    W->links.push_back(std::make_unique<MLink>()); MLink* l = W->links.back().get(); memset(&l->base, 0, sizeof l->base); l->no = W->links.size() - 1; l->packet = choose(2); l->tells = choose(2); l->meta = l->packet ? range(4, 60) : choose(3) ? 0 : range(4, 60); if (chance(1, 6)) l->meta = 300; if (!l->packet && l->meta && l->meta < 4) l->meta = 4;
    l->base.type = l->packet ? gracht_link_packet_based : gracht_link_stream_based; l->base.connection = GRACHT_CONN_INVALID; l->handle = chance(1, 4) ? 0x10000 + l->no : 0; l->tries = chance(1, 6) ? range(1, 3) : 0; auto& o = l->base.ops.server;
    o.setup = op_setup; o.destroy = op_destroy; if (l->packet) { o.create_client = op_create; o.recv = op_recv; o.send = op_send; if (l->tells) o.is_sender = op_is_sender; } else { o.accept_client = op_accept; o.recv_client = op_recv_client; } o.destroy_client = op_destroy_client; o.send_client = op_send_client;
    return l;
}
End* add_end(MLink* l) {
    W->ends.push_back(std::make_unique<End>()); End* e = W->ends.back().get(); e->no = W->ends.size() - 1; e->link = l->no; e->packet = l->packet;
    if (l->packet) { e->handle = 0x20000000 + e->no * 16; if (chance(1, 4)) e->handle = -2 - e->no * 16; if (l->tells && chance(1, 3)) for (auto& x : W->ends) if (x.get() != e && x->packet && x->link == l->no && chance(1, 2)) { e->handle = x->handle; count("senders with the handle of another"); break; } }
    else { bell_pair(e->fd, e->rf); e->handle = chance(1, 3) ? 0x30000 + e->no : e->fd; e->subs.set(); e->chg = ++W->chgs; e->quiet = W->calms; l->coming.push_back(e); ring(l->rf); }
    note("%s %d on link %d", l->packet ? "sender" : "connection", e->no, l->no); return e;
}
void put(End* e, const std::string& f) { if (e->packet) { MLink* l = W->links[e->link].get(); l->q.push_back({e, f}); ring(l->rf); } else { e->q.push_back(f); if (e->rf >= 0) ring(e->rf); } }
uint32_t ask(End* e, int beh, bool uns) {
    Rq r{}; r.tag = W->tag++; r.id = e->next_id++; r.end = e->no; r.beh = beh; r.arg = choose(6); r.uns = uns; r.known = !e->packet || e->cl; r.chg = e->packet && e->quiet >= W->calms ? 0 : W->chgs; uint32_t room = W->max - HDR - 18, rroom = W->max - HDR - 12; r.n = chance(1, 4) ? room : choose(std::min(room, 40u) + 1); r.respn = chance(1, 4) ? rroom : choose(std::min(rroom, 40u) + 1);
    int s = choose(W->nsvc); r.sid = W->sid[s]; r.aid = W->aid[s][choose(2)]; if (uns) { r.beh = K_ECHO; do r.sid = r.sid % 254 + 1; while (r.sid == W->sid[0] || (W->nsvc > 1 && r.sid == W->sid[1]) || (W->nsvc > 2 && r.sid == W->sid[2])); }
    std::string p; p += (char)r.beh; p += (char)r.arg; put32(p, r.respn); p += body(r.tag, r.n); W->rq[r.tag] = r; put(e, make_frame(r.id, r.sid, r.aid, beh == K_SILENT ? T_ASYNC : T_SYNC, p)); return r.tag;
}
void quiesce() {
    settle();
    for (auto i = W->rq.begin(); i != W->rq.end();) { Rq& r = i->second; End* e = W->ends[r.end].get(); bool waits = r.beh == K_DEFER && !r.answered && r.handled;
        if (r.uns && e->packet && e->chg > r.chg) {} else if (r.uns) { if (e->open && r.known && e->cl && !r.errs && !r.errlost) fail("a request that cannot be served produced no error [%s]", fiber_states().c_str()); if (!r.known && r.errs) fail("an error was sent to a sender that is not known"); }
        else if (e->open) { if (!r.handled) fail("request %u of %d was never executed [%s]", r.tag, r.end, fiber_states().c_str()); if (r.beh != K_SILENT && !waits && !r.got && !r.lost) fail("request %u of %d was never answered [%s]", r.tag, r.end, fiber_states().c_str()); }
        if (waits) ++i; else i = W->rq.erase(i); }
    for (auto& v : W->ev) for (auto& t : v.second.must) if (W->ends[t.first]->open && (v.second.target >= 0 || W->ends[t.first]->chg <= v.second.chg) && !v.second.got.count(t.first)) fail("%d never received an event of service %u", t.first, v.second.sid);
    W->ev.clear(); W->calms++;
    if (!W->trouble) for (auto& e : W->ends) if (e->packet && !e->cl && e->subs.any()) fail("sender %d subscribed but is not known", e->no);
    for (auto& e : W->ends) if (!e->packet && !e->accepted && !e->refused) fail("connection %d was never accepted [%s]", e->no, fiber_states().c_str());
    for (auto& e : W->ends) if (!e->packet && e->accepted && !e->open && e->cl) fail("connection %d is gone but was not destroyed", e->no);
}
void control(End* e, bool sub, uint8_t id, bool flux) {
    note("%d %ssubscribes %u", e->no, sub ? "" : "un", id); put(e, make_frame(e->next_id++, 0, sub ? 0 : 1, T_ASYNC, std::string(1, (char)id))); bool was = e->cl; e->chg = ++W->chgs; e->quiet = W->calms; if (flux) { if (sub) { if (id == 0xFF) e->subs.set(); else e->subs[id] = 1; } else if (id == 0xFF) e->subs.reset(); else e->subs[id] = 0; return; } settle(); W->calms++;
    if (sub) { if (!e->cl) { if (!W->trouble) fail("a sender that subscribed was not created"); e->subs.reset(); return; } if (id == 0xFF) e->subs.set(); else e->subs[id] = 1; }
    else { if (id == 0xFF) e->subs.reset(); else e->subs[id] = 0; if (e->packet && id == 0xFF && e->cl) fail("a sender that unsubscribed from everything was not destroyed"); if (!e->packet && was && !e->cl) fail("a connection was destroyed because it unsubscribed"); }
}
void release(size_t k) { auto d = W->deferred[k]; W->deferred.erase(W->deferred.begin() + k); note("answer %u", d.second); respond(d.first, d.second); free(d.first); }
void server_case() {
    W->workers = choose(5); static const int maxes[] = {256, 64, 130, 1000, 2048}; W->max = maxes[choose(5)]; if (chance(1, 2)) W->trouble = 1u << range(3, 6); bool crowd = chance(1, 5), external = chance(1, 4), callbacks = choose(2);
    gracht_server_configuration_t g; gracht_server_configuration_init(&g); g.callbacks.clientConnected = callbacks ? came : nullptr; g.callbacks.clientDisconnected = callbacks ? left : nullptr; gracht_server_configuration_set_num_workers(&g, W->workers); gracht_server_configuration_set_max_msg_size(&g, W->max);
    if (external) { int f = ::epoll_create1(EPOLL_CLOEXEC); W->epfd = fcntl(f, F_DUPFD_CLOEXEC, 900); ::close(f); W->set = W->epfd; gracht_server_configuration_set_aio_descriptor(&g, W->epfd); }
    if (gracht_server_create(&g, &W->s)) fail("creating a server failed"); if (!external) W->set = gracht_server_get_aio_handle(W->s);
    int nl = range(1, 4); for (int i = 0; i < nl; i++) { MLink* l = add_link(); while (gracht_server_add_link(W->s, &l->base)) { if (l->tries < 0 && l->up) fail("a link was not added although its setup succeeded"); if (l->tries < -1) fail("a link was not added"); } if (!l->up) fail("a link was added but not set up"); }
    if (nl == 4 && choose(2)) { MLink* l = add_link(); if (!gracht_server_add_link(W->s, &l->base)) fail("a fifth link was added"); if (l->up) fail("a link that was refused was set up"); count("links refused"); ::close(-1); W->links.pop_back(); }
    W->nsvc = range(1, 3); for (int i = 0; i < W->nsvc; i++) { uint8_t s = 1 + choose(254); for (bool c = true; c;) { c = false; for (int k = 0; k < i; k++) if (W->sid[k] == s) { s = s % 254 + 1; c = true; } } W->sid[i] = s; W->aid[i][0] = choose(256); W->aid[i][1] = W->aid[i][0] + 1 + choose(254); for (int a = 0; a < 2; a++) W->fn[i][a] = {W->aid[i][a], H[i][a]}; W->proto[i] = {s, (char*)"s", 2, W->fn[i]}; if (gracht_server_register_protocol(W->s, &W->proto[i])) fail("registering a service failed"); }
    note("server workers=%d max=%d links=%d %s", W->workers, W->max, nl, external ? "external loop" : "");
    auto done = []() { W->stopped = true; if (W->running) fail("the server stopped while a handler was running"); };
    int sf = spawn("server", [external, done]() { if (!external) { gracht_server_main_loop(W->s); done(); return; } for (;;) { struct epoll_event ev[4]; wait_fd(W->epfd, POLLIN); int n = ::epoll_wait(W->epfd, ev, 4, 0); for (int i = 0; i < n; i++) if (gracht_server_handle_event(W->s, ev[i].data.fd, ev[i].events) == -1 && errno == EPIPE) { done(); return; } } });
    settle(); set_sched(draw_sched()); for (int i = range(1, 4); i-- > 0;) add_end(W->links[choose(nl)].get());
    int ops = range(4, 24);
    for (int o = 0; o < ops; o++) {
        std::vector<End*> live; for (auto& e : W->ends) if (e->open) live.push_back(e.get()); uint32_t k = live.empty() ? 1 : weighted({14, 3, 4, 3, 2, 2, 2, 2}); End* e = live.empty() ? nullptr : live[choose(live.size())];
        switch (k) {
        case 0: for (int i = range(1, 5); i-- > 0;) ask(e, weighted({10, 3, 3, 4, e->cl && e->accepted ? 2u : 0u, 3}), chance(1, 8)); break;
        case 1: for (int i = crowd ? range(1, 12) : 1; i-- > 0 && live.size() + i < (crowd ? 40 : 8);) add_end(W->links[choose(nl)].get()); break;
        case 2: { bool flux = !W->trouble && choose(2); if (!flux) quiesce(); if (!e->open || (!e->packet && !e->cl)) break; for (int i = range(1, 3); i-- > 0;) { uint32_t x = choose(5); control(e, chance(2, 3), x == 0 ? 0xFF : x == 1 ? (uint8_t)range(1, 254) : W->sid[choose(W->nsvc)], flux); } break; }
        case 3: { bool flux = choose(2); if (!flux) quiesce(); for (int i = range(1, 3); i-- > 0;) { event(-1, 0, chance(1, 5) ? (uint8_t)range(1, 254) : W->sid[choose(W->nsvc)]); if (!flux) quiesce(); } break; }
        case 4: if (!W->deferred.empty()) release(choose(W->deferred.size())); break;
        case 5: quiesce(); break;
        case 6: if (e->packet) break; note("connection %d %s", e->no, choose(2) ? "breaks" : "closes"); e->open = false; if (choose(2)) { e->hang = true; if (e->rf >= 0) ring(e->rf); } else { ::close(e->rf); e->rf = -1; } break;
        case 7: if (e->cl && e->open && e->accepted) { settle(); if (e->cl) event(e->no, e->cl->base.handle, W->sid[choose(W->nsvc)]); } else if (e->packet && e->quiet < W->calms && e->cl) event(e->no, e->cl->base.handle, W->sid[choose(W->nsvc)]); break;
        }
        if (crowd && !W->trouble && chance(1, 2)) for (auto& x : live) if (x->open && (x->packet || x->cl) && chance(1, 3)) { control(x, chance(2, 3), choose(3) ? 0xFF : W->sid[choose(W->nsvc)], true); if (chance(1, 3)) ask(x, weighted({10, 3, 3, 4, 0, 3}), chance(1, 4)); }
        if (W->deferred.size() > 6) release(0);
    }
    bool late = chance(1, 3); if (!late) { while (!W->deferred.empty()) release(choose(W->deferred.size())); quiesce(); if (callbacks) { int known = 0, rep = 0; for (auto& e : W->ends) known += e->cl != nullptr; for (auto& c : W->conns) rep += c.second; if (known != rep) fail("%d clients are known but %d are reported", known, rep); } }
    count("handled", W->handled); count("senders and connections in flux during a broadcast", W->flux); count("operations of links that failed", W->failures); count("clients", W->clients.size()); if (W->handled >= 3 && W->clients.size() >= 1) nontrivial();
    W->stopping = true; gracht_server_request_shutdown(W->s); End* e = nullptr; for (auto& l : W->links) if (l->packet) { e = add_end(l.get()); put(e, make_frame(1, 250, 250, T_ASYNC, "")); break; } if (!e) add_end(W->links[0].get());
    settle(); if (!W->stopped && external) { add_end(W->links[e ? e->link : 0].get()); if (e) put(W->ends.back().get(), make_frame(1, 250, 250, T_ASYNC, "")); settle(); }
    if (!W->stopped) fail("the server did not stop although an event happened [%s]", fiber_states().c_str()); join(sf);
    for (auto& l : W->links) if (!l->down) fail("link %d was not destroyed", l->no); for (auto& c : W->clients) if (c->magic == ALIVE) fail("client %d was not destroyed", c->e->no);
    Resources r = resources(); if (r.fds || r.blocks || library_threads()) fail("a server that has stopped still holds %llu descriptors and %llu blocks (%s)", (unsigned long long)r.fds, (unsigned long long)r.blocks, resource_detail().c_str());
}

// ---- the client
struct CL { struct gracht_link base; int fd = -1, rf = -1, tries = 0, in_recv = 0, in_send = 0; bool up = false, down = false; std::deque<std::string> q; std::deque<Frame> out; uint32_t trouble = 0; bool broken = false; void* ctx = nullptr; int failed = 0; gracht_client_t* c = nullptr; uint64_t failures = 0; std::set<uint32_t> errors; };
CL* K;
CL* ckl(struct gracht_link* p, const char* op) { if (p != &K->base) fail("%s was invoked with something that is no link", op); if (K->down) fail("%s was invoked on a link that was destroyed", op); if (!K->up && strcmp(op, "connect") && strcmp(op, "destroy")) fail("%s was invoked on a link that is not connected", op); return K; }
gracht_conn_t ck_connect(struct gracht_link* p) { CL* k = ckl(p, "connect"); if (k->up) fail("connect was invoked on a connected link"); if (k->tries-- > 0) { k->failures++; errno = ECONNREFUSED; return GRACHT_CONN_INVALID; } bell_pair(k->fd, k->rf); k->up = true; return k->fd; }
void ck_destroy(struct gracht_link* p) { CL* k = ckl(p, "destroy"); k->down = true; if (k->in_recv || k->in_send) fail("the link was destroyed while it was in use"); }
int ck_send(struct gracht_link* p, struct gracht_buffer* b, void* ctx) {
    CL* k = ckl(p, "send"); if (k->in_send) fail("two threads send at the same time"); k->in_send = 1; if (b->index < HDR || get32(b->data + 4) != b->index) fail("send was given %u bytes, but the message has %u", b->index, get32(b->data + 4)); std::string f(b->data, b->index); pause_(); if (f != std::string(b->data, b->index)) fail("a message was changed while it was being sent"); k->in_send = 0;
    if (k->trouble && chance(1, k->trouble)) { k->failures++; k->failed = 1; errno = EPIPE; return -1; }
    Frame x; x.id = get32(f.data()); x.sid = f[8]; x.aid = f[9]; x.flags = f[10]; x.payload = f.substr(HDR); k->out.push_back(x); k->ctx = ctx; return 0;
}
uint32_t g_cmax;
int ck_recv(struct gracht_link* p, struct gracht_buffer* b, unsigned flags) {
    CL* k = ckl(p, "recv"); if (k->in_recv) fail("two threads receive at the same time"); if (b->index < g_cmax) fail("the space for a message is only %u bytes", b->index); k->in_recv = 1; pause_();
    for (;;) { if (!k->q.empty() || k->broken) break; if (!(flags & GRACHT_MESSAGE_BLOCK)) { k->in_recv = 0; errno = EAGAIN; return -1; } wait_fd(k->fd, POLLIN); }
    k->in_recv = 0; if (k->q.empty()) { errno = ENODATA; return -1; } answer(k->fd); std::string f = k->q.front(); k->q.pop_front(); memset(b->data, 0xA5, b->index); uint32_t at = b->index > f.size() && chance(1, 2) ? choose(std::min<uint32_t>(b->index - f.size(), 40) + 1) : 0; if (at) count("messages received with metadata before them"); memcpy(b->data + at, f.data(), f.size()); b->index = at; return 0;
}
int g_cev;
void ck_event(gracht_client_t* c, gracht_buffer_t* b) { uint32_t t; if (c != K->c) fail("an event handler was given another client"); if (!check_body(b->data + b->index, g_cmax, &t) || !(t & EVT)) fail("an event was altered"); g_cev++; }
void client_case() {
    static CL* old; if (old) { if (old->fd >= 0) ::close(old->fd); if (old->rf >= 0) ::close(old->rf); } delete old; K = old = new CL; memset(&K->base, 0, sizeof K->base); K->base.type = choose(2) ? gracht_link_packet_based : gracht_link_stream_based; K->base.connection = GRACHT_CONN_INVALID; K->base.ops.client = {ck_connect, ck_recv, ck_send, ck_destroy}; K->tries = chance(1, 4) ? range(1, 3) : 0; g_cmax = choose(2) ? 128 : 512; g_cev = 0;
    gracht_client_configuration_t g; gracht_client_configuration_init(&g); gracht_client_configuration_set_link(&g, &K->base); gracht_client_configuration_set_max_msg_size(&g, g_cmax); gracht_client_configuration_set_recv_buffer(&g, nullptr, (g_cmax + 32) * 40); if (gracht_client_create(&g, &K->c)) fail("creating a client failed");
    if (chance(1, 12)) { if (choose(2) && K->tries > 0) gracht_client_connect(K->c); if (!K->up) { gracht_client_shutdown(K->c); if (!K->down) fail("the link of a client that was shut down was not destroyed"); return; } }
    while (gracht_client_connect(K->c)) if (K->tries < 0) fail("connecting failed"); if (gracht_client_iod(K->c) != K->fd) fail("the client reports another handle than its link");
    gracht_protocol_function_t fn[1] = {{7, (void*)ck_event}}; gracht_protocol_t proto = {9, (char*)"e", 1, fn}; if (gracht_client_register_protocol(K->c, &proto)) fail("registering failed"); set_sched(draw_sched()); if (chance(1, 2)) K->trouble = 1u << range(2, 5);
    int nt = range(1, 4), sent_ev = 0, live = nt; uint64_t done = 0, refused = 0; std::vector<int> f;
    for (int t = 0; t < nt; t++) f.push_back(spawn("caller", [t, &done, &refused, &live]() {
        for (int i = range(1, 8); i-- > 0;) { int n = range(1, 4); std::deque<struct gracht_message_context> cx; std::vector<uint32_t> tags; 
            for (int j = 0; j < n; j++) { gracht_buffer_t b; if (gracht_client_get_buffer(K->c, &b)) fail("no buffer"); uint32_t tag = (t + 1) * 1000 + i * 10 + j; std::string fr = make_frame(0, 9, 3, T_SYNC, body(tag, choose(30))); memcpy(b.data, fr.data(), fr.size()); b.index = fr.size(); cx.push_back({}); K->failed = 0; memset(&cx.back(), 0, sizeof cx.back());
                if (gracht_client_invoke(K->c, &cx.back(), &b)) { if (!K->trouble) fail("a call failed although the link sent it"); refused++; gracht_buffer_t o{}; if (gracht_client_get_status_buffer(K->c, &cx.back(), &o) != -1 || errno != ENOENT) fail("a call that could not be sent is still in progress"); cx.pop_back(); } else tags.push_back(tag); }
            if (cx.empty()) continue; std::vector<struct gracht_message_context*> cp; for (auto& c : cx) cp.push_back(&c); if (gracht_client_await_multiple(K->c, cp.data(), cp.size(), GRACHT_AWAIT_ALL)) fail("waiting failed (errno %d)", errno);
            for (size_t j = 0; j < cx.size(); j++) { gracht_buffer_t b{}; int st = gracht_client_get_status_buffer(K->c, &cx[j], &b); if (K->errors.count(tags[j])) { if (st != GRACHT_MESSAGE_ERROR) fail("a call for which an error arrived has status %d", st); count("client calls that ended in an error"); done++; continue; } if (st != GRACHT_MESSAGE_COMPLETED) fail("no result after waiting"); uint32_t tg; if (!check_body(b.data + b.index, g_cmax - HDR, &tg) || tg != (tags[j] | RESP)) fail("a call obtained the response to another one"); gracht_client_status_finalize(K->c, &b); done++; } }
        live--; }));
    std::vector<Frame> held; for (int spin = 0; live; spin++) { // the other side
        if (chance(1, 2)) yield(); else settle(); while (!K->out.empty()) { held.push_back(K->out.front()); K->out.pop_front(); } if (chance(1, 4)) { K->q.push_back(make_frame(0, 9, 7, T_EVENT, body(EVT | 5, choose(20)))); sent_ev++; ring(K->rf); }
        for (int n = held.empty() ? 0 : spin > 400 ? held.size() : choose(held.size() + 1); n-- > 0;) { size_t k = choose(held.size()); uint32_t tg; if (!check_body(held[k].payload.data(), held[k].payload.size(), &tg)) fail("a request was altered"); if (chance(1, 6)) { std::string p; put32(p, held[k].id); put32(p, 2); K->errors.insert(tg); K->q.push_back(make_frame(0, 0, 2, T_EVENT, p)); } else K->q.push_back(make_frame(held[k].id, held[k].sid, held[k].aid, T_RESPONSE, body(tg | RESP, choose(40)))); held.erase(held.begin() + k); ring(K->rf); }
        if (spin > 5000) fail("callers are stuck although all responses were sent [%s]", fiber_states().c_str());
    }
    for (int x : f) join(x); while (!gracht_client_wait_message(K->c, nullptr, 0)) {} if (errno != EAGAIN) fail("polling failed (errno %d)", errno); if (g_cev != sent_ev) fail("%d events were received, but %d handled", sent_ev, g_cev); if (choose(2)) { K->broken = true; ring(K->rf); if (!gracht_client_wait_message(K->c, nullptr, GRACHT_MESSAGE_BLOCK)) fail("receiving from a broken link succeeded"); }
    gracht_client_shutdown(K->c); if (!K->down) fail("the link of a client that was shut down was not destroyed"); Resources r = resources(); if (r.fds || r.blocks) fail("a client that was shut down still holds %llu blocks (%s)", (unsigned long long)r.blocks, resource_detail().c_str());
    count("client calls", done); count("client calls the link refused", refused); if (done >= 3) nontrivial();
}
void c25() { static LW* old; delete old; W = old = new LW; if (chance(1, 4)) { count("client cases"); client_case(); } else server_case(); }
Register r25("C25", "a case implements 1-4 links of its own (stream and packet, arbitrary handles and metadata, with or without is_sender) under a server with 0-4 workers, and 1-8 connections and senders on them that send requests (answered, deferred, slow, unserveable), subscribe, disconnect and receive broadcasts and targeted events, or one such link under a client used by 1-4 threads; in half of the cases the operations of the links fail now and then. Every use of a link's operations is recorded and checked. Non-trivial: at least 3 requests handled and one client created, or 3 calls completed", c25);
} // namespace
