// C13: packet (connectionless) links.
#include "world.h"
#include <algorithm>
#include <array>
#include <bitset>
#include <unordered_map>
#include <netinet/in.h>
using namespace vf;
namespace {
enum { P_ECHO, P_SILENT, P_DEFER, P_SLOW, P_EVENT, P_NB };
const uint32_t RESP = 0x40000000, EVT = 0x20000000;
struct PReq { uint32_t tag, id; int sender; uint8_t sid, aid; int beh, arg; uint32_t n, respn; bool uns = false; int handled = 0, responded = 0, errors = 0; bool answered = false, released = false, known = false, real = false; int epoch = 0; };
struct PEv { uint32_t tag; uint8_t sid; uint32_t n; std::vector<char> must, got; bool stream_must = false; int stream_got = 0; };
struct Sender { int fd = -1; bool open = true, named = true; uint32_t next_id = 1; std::bitset<256> subs; bool known = false; int handle = 0; bool has_handle = false; int epoch = 0; Addr addr{}; int inq = 0; size_t bytes = 0; };
struct PW {
    Srv srv; SrvCfg cfg; std::vector<Sender> sn; std::unordered_map<uint32_t, PReq> reqs; std::map<uint32_t, PEv> evs; uint32_t next_tag = 1;
    uint8_t sid[3]; uint8_t aid[3][2]; gracht_protocol_function_t fn[3][2]; gracht_protocol_t proto[3]; int nsvc = 0;
    std::vector<std::pair<struct gracht_message*, uint32_t>> deferred; std::unique_ptr<Peer> stream; std::vector<Peer> more; std::map<int, int> conn; bool stopped = false, ending = false; int running = 0; uint64_t handled = 0, bc = 0, errors = 0, forgets = 0; gracht_client_t* real = nullptr; int real_sender = -1; std::deque<std::pair<uint32_t, struct gracht_message_context>> rcalls; std::vector<uint32_t> rev; gracht_protocol_function_t rfn[1]; gracht_protocol_t rproto[3]; int qlimit = 8; size_t unread = 0; size_t crowd = 9;
};
PW* X;
void hdr(gracht_buffer_t* b, uint8_t sid, uint8_t aid, uint8_t flags) { memset(b->data + b->index, 0, 8); b->index += 8; b->data[b->index++] = sid; b->data[b->index++] = aid; b->data[b->index++] = flags; }
void respond(struct gracht_message* m, uint32_t tag) {
    PReq& r = X->reqs[tag]; gracht_buffer_t b; while (gracht_server_get_buffer(X->srv.s, &b)) { if (!shortages()) fail("no response buffer available"); yield(); }
    std::string p = body(tag | RESP, r.respn); hdr(&b, r.sid, r.aid, T_RESPONSE); yield(); memcpy(b.data + b.index, p.data(), p.size()); b.index += p.size();
    X->reqs[tag].answered = true; bool open = r.real || X->sn[r.sender].open;
    if (gracht_server_respond(m, &b) && open) fail("responding to a sender that is there failed (errno %d)", errno);
}
void event(int sender, int handle, uint8_t sid) { // sender < 0: broadcast
    PEv e{}; e.tag = X->next_tag++; e.sid = sid; e.n = choose(30); e.must.resize(X->sn.size()); e.got.resize(X->sn.size() + 100);
    for (size_t i = 0; i < X->sn.size(); i++) if (X->sn[i].open) { e.must[i] = sender < 0 ? X->sn[i].known && X->sn[i].subs[sid] : (int)i == sender; if (e.must[i]) X->sn[i].inq++; }
    e.stream_must = sender < 0 && X->stream != nullptr; uint32_t tag = e.tag, n = e.n; X->evs[tag] = e;
    gracht_buffer_t b; while (gracht_server_get_buffer(X->srv.s, &b)) { if (!shortages()) fail("no event buffer available"); yield(); }
    std::string p = body(tag | EVT, n); hdr(&b, sid, 7, T_EVENT); yield(); memcpy(b.data + b.index, p.data(), p.size()); b.index += p.size();
    if (sender < 0) gracht_server_broadcast_event(X->srv.s, &b, 0);
    else if (gracht_server_send_event(X->srv.s, handle, &b, choose(2) ? GRACHT_MESSAGE_BLOCK : 0)) fail("sending an event to subscribed sender %d failed (errno %d)", sender, errno);
    X->bc++;
}
void on_call(int s, int a, struct gracht_message* m, gracht_buffer_t* b) {
    const char* p = b->data + b->index; uint32_t tag;
    if (!check_body(p + 6, X->cfg.max, &tag)) fail("a handler was invoked with bytes nobody sent");
    auto it = X->reqs.find(tag); if (it == X->reqs.end()) fail("a handler was invoked with a request nobody sent (tag %u)", tag);
    PReq r = it->second;
    if (check_body(p + 6, X->cfg.max, &tag) != 12 + r.n || (uint8_t)p[0] != r.beh || get32(p + 2) != r.respn) fail("request %u arrived altered", tag);
    if (r.uns) fail("unserveable request %u was executed", tag);
    if (r.sid != X->sid[s] || r.aid != X->aid[s][a]) fail("request %u for %u/%u ran the handler of %u/%u", tag, r.sid, r.aid, X->sid[s], X->aid[s][a]);
    if (it->second.handled++) fail("request %u was executed twice", tag);
    if (X->stopped) fail("a handler runs although the server has stopped");
    struct Running { Running() { X->running++; } ~Running() { X->running--; } } running_;
    X->handled++; Sender& S = X->sn[r.sender];
    if (r.known && S.known && r.epoch == S.epoch) { // subscribed since before the request was sent: the handle stands for this sender
    if (S.has_handle && S.handle != m->client) fail("sender %d appears under two handles", r.sender);
    S.has_handle = true; S.handle = m->client;
    for (size_t i = 0; i < X->sn.size(); i++) if ((int)i != r.sender && X->sn[i].has_handle && X->sn[i].handle == m->client) fail("senders %zu and %d share a handle", i, r.sender); }
    switch (r.beh) {
    case P_ECHO: respond(m, tag); break;
    case P_SILENT: break;
    case P_DEFER: { auto* k = (struct gracht_message*)malloc(GRACHT_MESSAGE_DEFERRABLE_SIZE(m)); gracht_server_defer_message(m, k); X->deferred.push_back({k, tag}); break; }
    case P_SLOW: for (int i = 0; i <= r.arg; i++) yield(); respond(m, tag); break;
    case P_EVENT: event(r.sender, m->client, r.sid); respond(m, tag); break;
    }
    uint32_t t2; if (!check_body(p + 6, X->cfg.max, &t2) || t2 != tag) fail("request %u was overwritten while its handler was running", tag);
}
template <int S, int A> void handler(struct gracht_message* m, gracht_buffer_t* b) { on_call(S, A, m, b); }
void* H[3][2] = {{(void*)handler<0, 0>, (void*)handler<0, 1>}, {(void*)handler<1, 0>, (void*)handler<1, 1>}, {(void*)handler<2, 0>, (void*)handler<2, 1>}};
void on_event(int c, const char* data, size_t size, uint8_t sid) {
    uint32_t t; uint32_t got = check_body(data, size, &t); if (!got || !(t & EVT)) fail("sender %d received a corrupted event", c);
    auto e = X->evs.find(t & ~EVT); if (e == X->evs.end()) fail("sender %d received an event nobody sent", c);
    if (sid != e->second.sid || got != 12 + e->second.n) fail("sender %d received an altered event", c);
    if ((size_t)c >= e->second.must.size() || !e->second.must[c]) fail("sender %d received an event on service %u that is not for it", c, sid);
    if (e->second.got[c]++) fail("sender %d received an event twice", c);
}
void on_dgram(int c, const std::string& d) {
    if (d.size() < HDR || get32(d.data() + 4) != d.size()) fail("sender %d received a packet that is not one message", c);
    uint32_t id = get32(d.data()); uint8_t sid = d[8], aid = d[9]; int type = d[10] & 3; const char* p = d.data() + HDR; size_t n = d.size() - HDR;
    if (type == T_RESPONSE) {
        uint32_t t; uint32_t got = check_body(p, n, &t); if (!got || got != n || !(t & RESP)) fail("sender %d received a corrupted response", c);
        auto it = X->reqs.find(t & ~RESP); if (it == X->reqs.end()) fail("sender %d received a response nobody gave", c);
        PReq& r = it->second; if (r.sender != c) fail("sender %d received the response to a request of sender %d", c, r.sender);
        if (r.id != id || r.sid != sid || r.aid != aid || got != 12 + r.respn) fail("response to request %u differs from the one given", r.tag);
        if (r.responded++) fail("sender %d received the response to request %u twice", c, r.tag);
    } else if (type == T_EVENT && sid == 0) {
        if (aid != 2 || n < 8) fail("sender %d received an unknown control event", c);
        for (auto& kv : X->reqs) if (kv.second.sender == c && kv.second.id == get32(p)) { if (!kv.second.uns) fail("sender %d received an error for request %u, which can be served", c, kv.first); if (kv.second.errors++) fail("two errors for one request"); return; }
        fail("sender %d received an error for a request it did not make", c);
    } else if (type == T_EVENT) on_event(c, p, n, sid);
    else fail("sender %d received a packet of type %d", c, type);
}
bool pump() {
    bool any = false; char b[65536];
    for (size_t i = 0; i < X->sn.size(); i++) if (X->sn[i].fd >= 0) for (;;) { ssize_t r = ::recv(X->sn[i].fd, b, sizeof b, MSG_DONTWAIT); if (r < 0) break; any = true; on_dgram(i, std::string(b, r)); }
    for (auto& p : X->more) { if (p.pump()) any = true; if (p.bad || (p.eof && !X->ending)) fail("a stream client next to the packet link was disturbed"); for (auto& f : p.frames) if ((f.flags & 3) != T_EVENT) fail("a stream client received what is meant for a sender of packets"); p.frames.clear(); }
    if (X->stream) { if (X->stream->pump()) any = true; if (X->stream->bad || (X->stream->eof && !X->ending)) fail("the stream client next to the packet link was disturbed"); while (!X->stream->frames.empty()) { Frame f = X->stream->frames.front(); X->stream->frames.pop_front(); uint32_t t; if ((f.flags & 3) != T_EVENT || !check_body(f.payload.data(), f.payload.size(), &t)) fail("the stream client received something that is not for it"); auto e = X->evs.find(t & ~EVT); if (e == X->evs.end() || !e->second.stream_must || e->second.stream_got++) fail("the stream client received an event that is not for it, or twice"); } }
    return any;
}
bool complete() { // everything expected has arrived
    for (auto& kv : X->reqs) { PReq& r = kv.second; Sender& S = X->sn[r.sender]; if (r.uns) { if (S.open && r.known && !r.errors && !shortages()) return false; } else { if (!r.handled) return false; bool want = r.beh != P_SILENT && !(r.beh == P_DEFER && !r.released); if (want && S.open && !r.real && !r.responded) return false; } }
    for (auto& kv : X->evs) { PEv& e = kv.second; for (size_t c = 0; c < e.must.size(); c++) if (e.must[c] && X->sn[c].open && (int)c != X->real_sender && !e.got[c]) return false; }
    return true;
}
void drain() {
    do settle(); while (pump());
    for (int i = 0; i < 4 && X->cfg.packet_inet && !complete(); i++) { grace(true); do settle(); while (pump()); grace(false); } // delivery on the loopback device can be late
}
void quiesce() {
    drain();
    for (auto i = X->reqs.begin(); i != X->reqs.end();) {
        PReq& r = i->second; Sender& S = X->sn[r.sender]; bool keep = false;
        if (r.uns) { if (S.open && r.known && r.errors != 1 && !shortages()) fail("unserveable request %u of subscribed sender %d produced no error notification", r.tag, r.sender); if (!r.known && r.errors) fail("an error was sent to sender %d, which is not subscribed", r.sender); }
        else {
            if (!r.handled) fail("request %u of sender %d was never executed [%s]", r.tag, r.sender, fiber_states().c_str());
            bool want = r.beh != P_SILENT && !(r.beh == P_DEFER && !r.released); if (r.beh == P_DEFER && !r.released) keep = true;
            if (want && S.open && !r.real && r.responded != 1) fail("sender %d never received the response to request %u [%s]", r.sender, r.tag, fiber_states().c_str());
        }
        if (keep || r.real) ++i; else i = X->reqs.erase(i);
    }
    for (auto& kv : X->evs) { PEv& e = kv.second; for (size_t c = 0; c < e.must.size(); c++) if (e.must[c] && X->sn[c].open && (int)c != X->real_sender && !e.got[c]) fail("sender %zu did not receive an event of service %u it is subscribed to", c, e.sid); if (e.stream_must && !e.stream_got) fail("the stream client missed a broadcast"); }
    if (X->real_sender < 0) X->evs.clear();
    for (auto& s : X->sn) s.inq = 0, s.bytes = 0;
    X->unread = 0;
}
void put(int c, const std::string& d) {
    if (X->unread + d.size() + 1300 > 90000 && X->unread) drain(), X->unread = 0; // what the server's socket can certainly hold
    X->unread += d.size() + 1300;
    for (int i = 0; i < 200; i++) { ssize_t r = ::sendto(X->sn[c].fd, d.data(), d.size(), MSG_NOSIGNAL | MSG_DONTWAIT, (sockaddr*)&X->srv.paddr.ss, X->srv.paddr.len); if (r == (ssize_t)d.size()) { yield(); return; } if (errno != EAGAIN && errno != ENOBUFS) fail("sending a packet to the server failed (errno %d)", errno); settle(); pump(); }
    fail("the server does not read its packet link [%s]", fiber_states().c_str());
}
// 6 byte patterns that do not change the CRC-32 of what they are combined with (multiples of its polynomial)
const std::vector<std::array<uint8_t, 6>>& twists() {
    static std::vector<std::array<uint8_t, 6>> v; if (!v.empty()) return v;
    for (uint64_t q = 1; q < 1 << 15; q++) { uint64_t p = 0; for (int i = 0; i < 15; i++) if (q >> i & 1) p ^= 0x104C11DB7ull << i; std::array<uint8_t, 6> b{}; for (int i = 0; i < 48; i++) if (p >> (47 - i) & 1) b[i / 8] |= 1 << i % 8; v.push_back(b); }
    return v;
}
// an address that looks like another one to whoever only compares checksums
bool twin_of(Addr& a) {
    auto& v = twists(); if (a.ss.ss_family == AF_UNIX) { auto& t = v[choose(v.size())]; uint8_t* p = (uint8_t*)((sockaddr_un*)&a.ss)->sun_path + 1; for (int i = 0; i < 6; i++) p[i] ^= t[i]; return true; }
    sockaddr_in* in = (sockaddr_in*)&a.ss; size_t at = choose(v.size());
    for (size_t k = 0; k < v.size(); k++) { auto& t = v[(at + k) % v.size()]; if (t[2] || (t[0] | t[1] | t[3] | t[4] | t[5]) == 0) continue; sockaddr_in n = *in; uint8_t* p = (uint8_t*)&n.sin_port; for (int i = 0; i < 6; i++) p[i] ^= t[i]; uint32_t ip = ntohl(n.sin_addr.s_addr); if (ntohs(n.sin_port) < 1024 || (ip & 0xFFFFFF) == 0 || (ip & 0xFFFFFF) == 0xFFFFFF) continue; *in = n; return true; }
    return false;
}
uint32_t crc32_of(const uint8_t* p, size_t n) { uint32_t c = ~0u; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int j = 0; j < 8; j++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return ~c; }
// chooses the first bytes of the name so that the address has the given CRC-32
bool with_checksum(Addr& a, uint32_t want) {
    uint8_t* p = (uint8_t*)((sockaddr_un*)&a.ss)->sun_path + 1; memset(p, 0, 5); p[4] = 'q'; uint32_t base = crc32_of((uint8_t*)&a.ss, a.len), need = base ^ want, row[32], comb[32]; int n = 0;
    for (int i = 0; i < 32; i++) { p[i / 8] = 1 << i % 8; uint32_t v = crc32_of((uint8_t*)&a.ss, a.len) ^ base, c = 1u << i; p[i / 8] = 0; for (int k = 0; k < n; k++) if ((v ^ row[k]) < v) v ^= row[k], c ^= comb[k]; if (v) { row[n] = v; comb[n++] = c; for (int k = n - 1; k > 0 && row[k] > row[k - 1]; k--) std::swap(row[k], row[k - 1]), std::swap(comb[k], comb[k - 1]); } }
    uint32_t x = 0; for (int k = 0; k < n; k++) if ((need ^ row[k]) < need) need ^= row[k], x ^= comb[k];
    if (need) return false; for (int i = 0; i < 32; i++) if (x >> i & 1) p[i / 8] |= 1 << i % 8;
    return crc32_of((uint8_t*)&a.ss, a.len) == want;
}
int add_sender() {
    Sender s; s.fd = raw_socket(X->cfg.packet_inet ? AF_INET : AF_UNIX, SOCK_DGRAM); int ok = -1;
    if (chance(1, 6)) { std::vector<int> o; for (size_t i = 0; i < X->sn.size(); i++) if (X->sn[i].addr.len) o.push_back(i); if (!o.empty()) { s.addr = X->sn[o[choose(o.size())]].addr; bool fit = twin_of(s.addr); for (auto& x : X->sn) if (!memcmp(&x.addr.ss, &s.addr.ss, sizeof s.addr.ss)) fit = false; if (fit && !(ok = ::bind(s.fd, (sockaddr*)&s.addr.ss, s.addr.len))) count("senders whose address has the checksum of another"); } }
    else if (!X->cfg.packet_inet && chance(1, 16)) { s.addr = unix_addr("p"); uint32_t t = chance(1, 8) ? ~0u : choose(24); bool fit = with_checksum(s.addr, t); for (auto& x : X->sn) if (!memcmp(&x.addr.ss, &s.addr.ss, sizeof s.addr.ss)) fit = false; if (fit && !(ok = ::bind(s.fd, (sockaddr*)&s.addr.ss, s.addr.len))) count("senders whose address has the number of a descriptor as checksum"); }
    if (!ok) {}
    else if (X->cfg.packet_inet) { Addr A = X->srv.paddr; sockaddr_in& a = *(sockaddr_in*)&A.ss; for (int i = 0; i < 50; i++) { a.sin_port = htons(fresh_port()); if (!(ok = ::bind(s.fd, (sockaddr*)&a, sizeof a))) break; } s.addr = A; } // addresses are never used twice in a case
    else if (choose(2)) { s.named = false; sa_family_t f = AF_UNIX; ok = ::bind(s.fd, (sockaddr*)&f, sizeof f); }
    else { Addr a = unix_addr("p", choose(2)); ok = ::bind(s.fd, (sockaddr*)&a.ss, a.len); s.addr = a; }
    if (ok) { perror("bind sender"); _exit(3); }
    X->sn.push_back(s); note("sender %zu", X->sn.size() - 1); return X->sn.size() - 1;
}
std::string make_req(int c, bool uns, int beh, bool small = false) {
    Sender& S = X->sn[c]; PReq r{}; r.tag = X->next_tag++; r.id = S.next_id++; r.sender = c; r.uns = uns; r.known = S.known; r.epoch = S.epoch; r.beh = beh; r.arg = choose(6);
    uint32_t room = X->cfg.max - HDR - 18, rroom = X->cfg.max - HDR - 12; if (small) room = std::min(room, 800u), rroom = std::min(rroom, 800u); r.n = chance(1, 3) ? choose(room + 1) : chance(1, 4) ? room : choose(std::min(room, 24u) + 1); r.respn = chance(1, 4) ? choose(rroom + 1) : choose(std::min(rroom, 24u) + 1);
    if (beh == P_DEFER) r.respn = std::min(r.respn, 4000u);
    if (uns) { uint8_t s = 1 + choose(254); for (bool c2 = true; c2;) { c2 = false; for (int i = 0; i < X->nsvc; i++) if (X->sid[i] == s) { s = s % 254 + 1; c2 = true; } } r.sid = s; r.aid = choose(256); r.beh = P_ECHO; }
    else { int s = choose(X->nsvc); r.sid = X->sid[s]; r.aid = X->aid[s][choose(2)]; }
    std::string p; p += (char)r.beh; p += (char)r.arg; put32(p, r.respn); p += body(r.tag, r.n); X->reqs[r.tag] = r; S.inq += 2; S.bytes += r.n + r.respn + 1500;
    return make_frame(r.id, r.sid, r.aid, beh == P_SILENT ? T_ASYNC : T_SYNC, p);
}
void send_control(int c, bool sub, uint8_t id) {
    Sender& S = X->sn[c]; note("sender %d %ssubscribes %u", c, sub ? "" : "un", id);
    if (sub) { S.known = true; if (id == 0xFF) S.subs.set(); else S.subs[id] = 1; } else if (id == 0xFF) { if (S.known) X->forgets++; S.known = false; S.has_handle = false; S.epoch++; S.subs.reset(); } else S.subs[id] = 0;
    put(c, make_frame(S.next_id++, 0, sub ? 0 : 1, T_ASYNC, std::string(1, (char)id)));
    if (shortage_on()) { drain(); relieve(true); put(c, make_frame(S.next_id++, 0, sub ? 0 : 1, T_ASYNC, std::string(1, (char)id))); drain(); relieve(false); } // the first may have been refused
}
int pick_sender() { std::vector<int> o; for (size_t i = 0; i < X->sn.size(); i++) if (X->sn[i].open && X->sn[i].fd >= 0) o.push_back(i); return o.empty() ? -1 : o[choose(o.size())]; }
void real_event(gracht_client_t*, gracht_buffer_t* b) { on_event(X->real_sender, b->data + b->index, X->cfg.max - HDR, (uint8_t)b->data[b->index - 3]); }
// a real client used in one fiber
void real_client(int rounds) {
    X->real = make_client(X->srv.paddr, X->cfg.max, (X->cfg.max + 32) * 12, true, X->cfg.packet_inet ? AF_INET : AF_UNIX); int me = X->real_sender;
    X->rfn[0] = {7, (void*)real_event}; for (int i = 0; i < X->nsvc; i++) { X->rproto[i] = {X->sid[i], (char*)"r", 1, X->rfn}; if (gracht_client_register_protocol(X->real, &X->rproto[i])) fail("registering a protocol with the client failed"); }
    for (int k = 0; k < rounds; k++) {
        int n = range(1, 3); std::deque<std::pair<uint32_t, struct gracht_message_context>> calls;
        for (int i = 0; i < n; i++) {
            std::string f = make_req(me, false, choose(2) ? P_ECHO : P_SLOW, i || X->unread); uint32_t tag = X->next_tag - 1; X->unread += f.size() + 1300; // sockets can hold only so much X->reqs[tag].real = true;
            gracht_buffer_t b; if (gracht_client_get_buffer(X->real, &b)) fail("the client gave no buffer"); memcpy(b.data, f.data(), f.size()); b.index = f.size(); calls.push_back({tag, {}});
            if (gracht_client_invoke(X->real, &calls.back().second, &b)) fail("a packet client could not send a request (errno %d)", errno);
        }
        std::vector<struct gracht_message_context*> cx; for (auto& c : calls) cx.push_back(&c.second);
        if (await_msgs(X->real, cx.data(), cx.size(), GRACHT_AWAIT_ALL)) fail("a packet client failed waiting (errno %d)", errno);
        for (auto& c : calls) {
            gracht_buffer_t b{}; if (gracht_client_get_status_buffer(X->real, &c.second, &b) != GRACHT_MESSAGE_COMPLETED) fail("a packet client has no result after waiting");
            uint32_t t; uint32_t got = check_body(b.data + b.index, X->cfg.max - HDR, &t); if (got != 12 + X->reqs[c.first].respn || t != (c.first | RESP)) fail("a packet client obtained a result that is not the response to its call");
            gracht_client_status_finalize(X->real, &b); X->reqs.erase(c.first);
        }
        X->sn[me].inq = 0;
    }
    gracht_client_shutdown(X->real); X->real = nullptr; X->sn[me].open = false;
}
struct PWt { uint32_t op[9] = {12, 5, 4, 2, 2, 1, 1, 1, 2}; uint32_t beh[5] = {10, 3, 3, 4, 3}; uint32_t uns = 8; bool callbacks = false, real = true, end = false, scarce = false; int rounds = 1; };
void give_answer(size_t j) { auto d = X->deferred[j]; X->deferred.erase(X->deferred.begin() + j); note("answer deferred request %u", d.second); X->reqs[d.second].released = true; respond(d.first, d.second); free(d.first); }
void packet_case(const PWt& w) {
    static PW* old; if (old) for (auto& d : old->deferred) free(d.first); delete old; X = old = new PW; on_connected = on_disconnected = nullptr;
    SrvCfg& g = X->cfg; g.workers = choose(5); static const int maxes[] = {256, 64, 128, 1000, 2048, 4096}; g.max = maxes[choose(6)]; if (chance(1, 16)) g.workers = range(5, 20); if (chance(1, 20)) { g.max = choose(2) ? 60000 : 20000; count("cases with a message limit above 10000"); } g.packet = true; g.packet_inet = choose(2); g.stream = chance(1, 3); g.external = chance(1, 4); g.callbacks = w.callbacks || choose(2);
    X->qlimit = g.packet_inet ? 60 : 8;
    on_connected = [](gracht_conn_t h) { if (X->conn[h]++) fail("sender reported connected twice"); };
    on_disconnected = [](gracht_conn_t h) { if (X->conn[h]-- != 1) fail("a sender was reported gone that was not known"); };
    static const uint32_t dens[] = {16, 2, 3, 6, 40}; if (w.scarce) shortage(dens[choose(5)]);
    X->srv.start(g); X->nsvc = range(1, 3);
    for (int i = 0; i < X->nsvc; i++) {
        uint8_t s = 1 + choose(254); for (bool c = true; c;) { c = false; for (int k = 0; k < i; k++) if (X->sid[k] == s) { s = s % 254 + 1; c = true; } } X->sid[i] = s; X->aid[i][0] = choose(256); X->aid[i][1] = X->aid[i][0] + 1 + choose(254);
        for (int a = 0; a < 2; a++) X->fn[i][a] = {X->aid[i][a], H[i][a]}; X->proto[i] = {s, (char*)"svc", 2, X->fn[i]};
        insist("registering a service", [&]() { return gracht_server_register_protocol(X->srv.s, &X->proto[i]); });
    }
    settle(); relieve(true); if (g.stream) { X->stream = std::make_unique<Peer>(); if (!X->stream->connect(X->srv.addr)) fail("a stream client could not connect"); settle(); }
    relieve(false); int n = range(1, 5); if (chance(1, 30)) { n = range(10, 70); X->crowd = n + 8; count("cases with more than 9 senders"); } for (int i = 0; i < n; i++) add_sender();
    set_sched(draw_sched());
    int rf = -1; Resources base{}; if (w.rounds > 1) { quiesce(); base = resources(); }
    if (w.real && chance(1, 3)) { Sender s; X->sn.push_back(s); X->real_sender = X->sn.size() - 1; int rounds = range(1, 5); note("a real client joins"); rf = spawn("client", [rounds]() { real_client(rounds); }); }
    for (int round = 0; round < w.rounds; round++) {
    int ops = w.rounds > 1 ? range(4, 12) : w.end ? range(0, 12) : range(4, 24);
    for (int o = 0; o < ops; o++) {
        int c = pick_sender(); uint32_t k = weighted({w.op[0], w.op[1], w.op[2], w.op[3], w.op[4], w.op[5], w.op[6], w.op[7], w.op[8]});
        if (c < 0 && k != 5) k = 5;
        if (w.scarce && chance(1, 8)) { quiesce(); shortage(shortage_on() ? 0 : dens[choose(5)]); }
        switch (k) {
        case 0: { int m = range(1, 5); int sent = 0; for (int i = 0; i < m && X->sn[c].inq + 2 <= X->qlimit && (X->cfg.max > 10000 ? X->sn[c].bytes == 0 : X->sn[c].bytes < 60000); i++) { uint32_t b = weighted({w.beh[0], w.beh[1], w.beh[2], w.beh[3], X->sn[c].known ? w.beh[4] : 0u}); if (b == P_EVENT && X->sn[c].inq + 3 > X->qlimit) b = P_ECHO; put(c, make_req(c, chance(1, w.uns), b)); sent++; } if (sent) note("sender %d sends %d requests", c, sent); count("requests", sent); break; }
        case 1: { quiesce(); int m = range(1, 3); for (int i = 0; i < m; i++) { uint32_t kk = choose(5); send_control(c, chance(2, 3), kk == 0 ? 0xFF : kk == 1 ? (uint8_t)range(1, 254) : X->sid[choose(X->nsvc)]); } put(c, make_req(c, false, P_ECHO)); drain(); break; } // the request tells when the changes have been received
        case 2: { quiesce(); int m = range(1, 4); for (int i = 0; i < m; i++) { note("broadcast"); event(-1, 0, chance(1, 5) ? (uint8_t)range(1, 254) : X->sid[choose(X->nsvc)]); } quiesce(); break; }
        case 3: if (!X->deferred.empty()) { size_t j = choose(X->deferred.size()); if (X->sn[X->reqs[X->deferred[j].second].sender].inq < X->qlimit) give_answer(j); } break;
        case 4: quiesce(); break;
        case 5: if (X->sn.size() < X->crowd) add_sender(); break;
        case 6: if (X->stream && chance(1, 3)) { // connections come and go next to the packet link
                relieve(true); quiesce(); if (X->more.size() < 6 && chance(2, 3)) for (int i = range(1, 4); i-- > 0;) { X->more.emplace_back(); note("a stream client connects"); if (!X->more.back().connect(X->srv.addr)) fail("a stream client could not connect"); } else if (!X->more.empty()) { note("a stream client leaves"); X->more.back().close(); X->more.pop_back(); } settle(); relieve(false); break; }
            if (chance(1, 2) && X->sn[c].named) { quiesce(); note("sender %d leaves", c); raw_close(X->sn[c].fd); X->sn[c].fd = -1; X->sn[c].open = false; } break;
        case 7: { std::string d; switch (choose(4)) { case 0: break; case 1: for (uint32_t i = choose(HDR); i-- > 0;) d += (char)choose(256); break; case 2: d = make_frame(1, X->sid[0], X->aid[0][0], T_SYNC, "abcdef"); d.resize(d.size() - 1 - choose(5)); break; default: d = make_frame(1, X->sid[0], X->aid[0][0], T_SYNC, "abcdef") + "x"; } note("sender %d sends a malformed packet of %zu bytes", c, d.size()); if (d.empty() && ::sendto(X->sn[c].fd, "", 0, MSG_NOSIGNAL | MSG_DONTWAIT, (sockaddr*)&X->srv.paddr.ss, X->srv.paddr.len) == 0) { yield(); break; } else if (!d.empty()) put(c, d); break; }
        case 8: settle(); pump(); break;
        }
        if (X->deferred.size() > 6) { for (auto it = X->deferred.begin(); it != X->deferred.end(); ++it) if (X->sn[X->reqs[it->second].sender].inq < X->qlimit) { auto d = *it; X->deferred.erase(it); X->reqs[d.second].released = true; respond(d.first, d.second); free(d.first); break; } }
    }
    if (w.rounds > 1) { // back to nobody subscribed
        quiesce(); for (auto& p : X->more) p.close(); X->more.clear(); settle(); while (!X->deferred.empty()) give_answer(choose(X->deferred.size())), quiesce();
        for (size_t i = 0; i < X->sn.size(); i++) if (X->sn[i].open && X->sn[i].known) { send_control(i, false, 0xFF); quiesce(); }
        int c = pick_sender(); if (c >= 0) put(c, make_req(c, false, P_ECHO));
        quiesce(); Resources now = resources(); uint64_t cap = 2 * (g.workers + 3);
        if (now.fds != base.fds) fail("after round %d nobody is subscribed but the server holds %lld more descriptors", round + 1, (long long)(now.fds - base.fds));
        if (now.blocks > base.blocks + cap || now.bytes > base.bytes + cap * (g.max + 512) + 16384) fail("memory grows: %llu blocks of %llu bytes after round %d, %llu of %llu at the start (%s)", (unsigned long long)now.blocks, (unsigned long long)now.bytes, round + 1, (unsigned long long)base.blocks, (unsigned long long)base.bytes, resource_detail().c_str());
    }
    }
    if (w.scarce) { // afterwards everyone is served
        if (X->crowd > X->sn.size()) add_sender(); if (!w.end || chance(1, 2)) shortage(0);
        for (size_t i = 0; i < X->sn.size(); i++) if (X->sn[i].open && X->sn[i].fd >= 0) { put(i, make_req(i, false, P_ECHO)); quiesce(); }
        count("requests for resources that failed", shortages());
    }
    if (w.end) { X->ending = true;
        X->srv.on_return = []() { X->stopped = true; if (X->running) fail("the server stopped while a handler was still running"); };
        int fx = spawn("requester", []() { gracht_server_request_shutdown(X->srv.s); }); for (int i = choose(4); i-- > 0;) yield(); join(fx); settle(); pump();
        if (!X->srv.returned) { note("a packet arrives"); int c = pick_sender(); if (c < 0) c = add_sender(); for (int i = 0; i < 4 && !X->srv.returned; i++) { std::string d = make_frame(9999, 0, 9, T_ASYNC, "x"); ::sendto(X->sn[c].fd, d.data(), d.size(), MSG_NOSIGNAL | MSG_DONTWAIT, (sockaddr*)&X->srv.paddr.ss, X->srv.paddr.len); grace(g.packet_inet); settle(); grace(false); pump(); } }
        if (!X->srv.returned) fail("the server did not stop although shutdown was requested and a packet arrived [%s]", fiber_states().c_str());
        settle(); pump(); Resources r = resources(); int known = 0; for (auto& q : X->sn) known += q.known; count("cases with subscribed senders at the end", known > 0); if (known || X->handled) nontrivial();
        if (library_threads()) fail("%d threads of a server that has stopped are still running", library_threads());
        if (X->stream && !X->stream->eof) fail("the connection of a client was not closed when the server stopped");
        if (r.fds || r.blocks) fail("a server that has stopped still holds %llu descriptors and %llu blocks of memory (%s)", (unsigned long long)r.fds, (unsigned long long)r.blocks, resource_detail().c_str());
        return;
    }
    quiesce();
    if (rf >= 0) { for (int i = 0; i < 50 && alive(rf); i++) { grace(i > 1); settle(); } grace(false); if (alive(rf)) fail("a packet client is stuck waiting for responses [%s]", fiber_states().c_str()); }
    while (!X->deferred.empty()) { give_answer(X->deferred.size() - 1); quiesce(); }
    quiesce();
    if (g.callbacks) { int known = 0, rep = 0; for (auto& s : X->sn) known += s.known; for (auto& c : X->conn) rep += c.second; int str = (g.stream ? 1 : 0) + X->more.size(); if (rep != known + str) fail("%d senders are subscribed but %d are reported connected", known, rep - str); }
    count("handled", X->handled); count("events sent", X->bc); count("senders that unsubscribed from everything", X->forgets); if (g.packet_inet) count("udp cases"); if (rf >= 0) count("cases with a real client");
    if (X->sn.size() >= 2 && X->handled >= 2) nontrivial();
}
void c13() { PWt w; packet_case(w); }
Register r13("C13", "a case is one server with a packet link (UDP on loopback or local datagrams; 0-4 workers, own or external loop, with or without a stream link and callbacks) and 1-9 raw senders, in a third of the cases also a real client; requests, deferred answers, subscriptions, broadcasts, targeted events, malformed packets and departures in random order under a random schedule. Non-trivial: at least 2 senders and 2 requests executed", c13);
} // namespace
// the same model within the properties that also hold for packet links
bool packet_share(const char* pid) {
    int p = atoi(pid + 1); bool often = p == 5 || p == 9 || p == 15 || p == 19 || p == 21;
    if (!chance(1, often ? 4 : 8)) return false;
    PWt w;
    switch (p) {
    case 5: w.op[1] = 9; w.op[2] = 9; w.op[7] = 0; break;
    case 8: w.op[6] = 5; w.op[5] = 4; w.op[2] = 6; break;
    case 9: w.uns = 2; w.op[1] = 7; break;
    case 14: w.end = true; w.real = false; w.op[2] = 2; break;
    case 15: w.rounds = range(3, 12); w.real = false; w.op[6] = 0; w.op[1] = 8; break;
    case 19: w.beh[P_DEFER] = 16; w.op[3] = 8; break;
    case 22: w.op[2] = 6; break;
    case 23: w.scarce = true; w.real = false; w.op[1] = 9; w.uns = 4; w.end = chance(1, 2); break;
    case 21: w.callbacks = true; w.op[1] = 12; w.op[2] = 1; break;
    }
    count("cases on a packet link"); packet_case(w); return true;
}
