#include "server_model.h"
#include <cstdlib>
namespace vf {
Model* M;
template <int S, int A, int V> static void handler(struct gracht_message* m, gracht_buffer_t* b) { M->on_call(S, A, V, m, b); }
typedef void (*hfn)(struct gracht_message*, gracht_buffer_t*);
#define ROW(S) {{handler<S, 0, 0>, handler<S, 1, 0>, handler<S, 2, 0>, handler<S, 3, 0>}, {handler<S, 0, 1>, handler<S, 1, 1>, handler<S, 2, 1>, handler<S, 3, 1>}}
template <int S, int A, int V> static void tinyh(struct gracht_message* m, gracht_buffer_t* b) { M->on_tiny(S, A, V, m, b); }
static hfn g_h[8][2][4] = {ROW(0), ROW(1), ROW(2), ROW(3), ROW(4), ROW(5), ROW(6), ROW(7)};
#define TROW(S) {{tinyh<S, 0, 0>, tinyh<S, 1, 0>}, {tinyh<S, 0, 1>, tinyh<S, 1, 1>}}
static hfn g_t[8][2][2] = {TROW(0), TROW(1), TROW(2), TROW(3), TROW(4), TROW(5), TROW(6), TROW(7)};
static const uint32_t EMPTY = 0xFFFFFFFF; // a response without any payload
static const uint32_t RESP = 0x40000000, EVT = 0x20000000;

void Model::start(const Weights& ww) {
    w = ww; M = this;
    static const int maxes[] = {256, 64, 128, 1000, 2048, 4096};
    cfg.workers = w.fixed_workers >= 0 ? w.fixed_workers : (int)choose(w.max_workers + 1);
    if (w.fixed_workers < 0 && w.max_workers >= 4 && chance(1, 16)) cfg.workers = range(5, 20);
    static const int large[] = {20000, 70000, 140000};
    cfg.max = maxes[choose(6)]; if (w.big && chance(1, 12)) cfg.max = large[choose(3)]; cfg.external = w.external && chance(1, 4); cfg.callbacks = w.callbacks; cfg.extra_streams = chance(1, 6) ? 1 : 0; if (w.packet) { cfg.packet = chance(1, 2); cfg.packet_inet = false; }
    if (w.callbacks) {
        on_connected = [this](gracht_conn_t h) { if (conn_state[h]) fail("client %d reported connected twice", (int)h); conn_state[h] = 1; n_conn++; };
        on_disconnected = [this](gracht_conn_t h) { if (!conn_state[h]) fail("client %d reported disconnected but it was not connected", (int)h); conn_state[h] = 0; n_disc++; };
    }
    srv.start(cfg);
    int ns = range(1, 4); std::set<uint8_t> used; if (w.crowd && chance(1, 16)) { ns = range(5, 40); if (chance(1, 4)) ns = range(41, 240); count("cases with more than 4 services"); }
    tiny = w.tiny && ns <= 8 && !w.disconnect && !w.partial && !w.hostile && chance(1, 2);
    for (int i = 0; i < ns; i++) {
        Svc s; static const uint8_t special[] = {1, 2, 31, 32, 33, 63, 64, 127, 128, 200, 253, 254};
        uint8_t id; do { id = chance(1, 3) ? (uint8_t)range(1, 254) : special[choose(12)]; while (used.count(id)) id = id % 254 + 1; } while (used.count(id)); used.insert(id);
        s.sid = id; std::set<uint8_t> ua; int na = range(1, 4);
        for (int a = 0; a < na; a++) { uint8_t x = chance(1, 3) ? (uint8_t)choose(256) : (uint8_t)(a + 1); while (ua.count(x)) x++; ua.insert(x); s.aids.push_back(x); }
        for (int v = 0; v < 2; v++) { s.nfn[v] = v == 0 ? na : (na > 1 ? na - 1 : na); for (int a = 0; a < na; a++) s.fn[v][a] = {s.aids[a], (void*)g_h[i % 8][v][a]}; }
        for (int t = 0; t < 2; t++) { uint8_t x = (uint8_t)(choose(200) + 20); while (ua.count(x)) x++; ua.insert(x); s.tiny[t] = x; if (tiny) for (int v = 0; v < 2; v++) s.fn[v][s.nfn[v] + t] = {x, (void*)g_t[i % 8][v][t]}; }
        svc.push_back(s);
    }
    for (auto& s : svc) {
        for (int v = 0; v < 2; v++) s.proto[v] = {s.sid, (char*)"svc", (uint8_t)(s.nfn[v] + (tiny ? 2 : 0)), s.fn[v]};
        if (!(w.regs && chance(1, 4))) { insist("registering a service", [&]() { return gracht_server_register_protocol(srv.s, &s.proto[0]); }); s.registered = 0; }
    }
    settle(); base_fds = resources().fds;
    int nc = range(w.min_clients, w.max_clients); if (w.crowd && chance(1, 40)) { nc = range(9, 50); if (chance(1, 8)) nc = range(258, 290); count("cases with more than 8 clients"); } crowd = nc + 6 > 8 ? nc + 6 : 8;
    for (int i = 0; i < nc; i++) connect();
    settle();
}
int Model::connect() {
    auto c = std::make_unique<Cl>(); int lk = srv.more.empty() ? 0 : (int)choose(2); c->link = lk;
    if (!c->p.connect(lk ? srv.more[0] : srv.addr)) fail("a client could not connect (errno %d) [%s]", errno, fiber_states().c_str());
    c->open = true; c->subs.set(); c->chg = ++chgs; c->quiet = calms; cl.push_back(std::move(c)); connects++;
    note("connect client %zu", cl.size() - 1);
    return (int)cl.size() - 1;
}
int Model::pick_open() { std::vector<int> o; for (size_t i = 0; i < cl.size(); i++) if (cl[i]->open) o.push_back(i); return o.empty() ? -1 : o[choose(o.size())]; }

// Request payload: [beh][arg][respn u32] body(tag, n)
std::string Model::request(int c, int s, uint8_t aid, int beh, uint32_t n, uint32_t respn, int arg, bool uns) {
    Req r{}; r.tag = next_tag++; r.client = c; r.svc = s; r.sid = s >= 0 ? svc[s].sid : (uint8_t)arg; r.aid = aid; r.beh = beh; r.arg = arg; r.n = n; r.respn = respn; r.seq = ++seq; r.unserveable = uns;
    r.id = cl[c]->next_id++; r.ver = s >= 0 ? svc[s].registered : -1; r.flags = (beh == SILENT || beh == EVENT_ONLY) ? T_ASYNC : T_SYNC;
    std::string p; p += (char)beh; p += (char)arg; put32(p, respn); p += body(r.tag, n);
    reqs[r.tag] = r; cl[c]->by_id[r.id] = r.tag;
    return make_frame(r.id, r.sid, r.aid, r.flags, p);
}
void Model::send(int c, const std::string& b, int segs) {
    size_t o = 0; Peer& p = cl[c]->p; if (segs) cl[c]->cut = true;
    // a client reads while it waits for room to send
    auto push = [&](size_t k) { size_t e = o + k; while (o < e) { ssize_t r = p.send_some(b.data() + o, e - o); if (r > 0) { o += r; continue; } if (r < 0 && errno == EAGAIN) { cl[c]->cut = true; settle(); if (!pump()) { struct pollfd f = {p.fd, POLLOUT, 0}; if (::poll(&f, 1, 0) == 0) wait_fd(p.fd, POLLOUT); } if (p.fd < 0) return false; continue; } return false; } return true; };
    for (int i = 0; i < segs && o + 1 < b.size(); i++) {
        size_t rest = b.size() - o - 1, k = 1 + choose((uint32_t)(chance(1, 4) ? rest : std::min<size_t>(rest, 40))); if (!push(k)) return;
        if (chance(1, 2)) settle(); else yield();
    }
    push(b.size() - o);
    yield();
}
// before the application itself sends: it is also the one that reads for the clients
void Model::make_room(size_t n) {
    bool full = false; for (auto& c : cl) if (c->open && c->bytes + n > 110000) full = true;
    if (full) { do settle(); while (pump()); for (auto& c : cl) c->bytes = 0; }
    for (auto& c : cl) c->bytes += n;
}
void Model::batch(int c) {
    int k = range(1, w.max_batch); std::string all; Cl& C = *cl[c]; int real = 0;
    for (int i = 0; i < k; i++) {
        uint32_t room = cfg.max - HDR - 18; // payload: 6 + 12 + n
        uint32_t n = chance(1, 3) ? choose(room + 1) : chance(1, 4) ? room : choose(std::min(room, 24u) + 1);
        uint32_t rroom = cfg.max - HDR - 12, rn = chance(1, 4) ? choose(rroom + 1) : choose(std::min(rroom, 24u) + 1);
        uint32_t tot = 0; for (auto x : w.beh) tot += x;
        uint32_t v = choose(tot), beh = 0; while (v >= w.beh[beh]) v -= w.beh[beh++];
        if (beh == DEFER) rn = std::min(rn, 50000u);
        if (C.bytes && C.bytes + rn + 1500 > 120000) break;
        bool uns = w.unserveable && chance(w.unserveable, 20);
        std::vector<int> reg, un; for (size_t s = 0; s < svc.size(); s++) (svc[s].registered >= 0 ? reg : un).push_back(s);
        if (reg.empty()) uns = true;
        if (uns) {
            if (!w.unserveable && !w.regs) break;
            unserved++;
            uint32_t kind = choose(3);
            if (kind == 0 && !un.empty()) { int s = un[choose(un.size())]; all += request(c, s, svc[s].aids[choose(svc[s].aids.size())], ECHO, n, 0, 0, true); }
            else if (kind == 1 && !reg.empty()) { // function the registered version lacks
                int s = reg[choose(reg.size())]; auto& S = svc[s]; auto taken = [&](uint8_t x) { for (int q = 0; q < S.nfn[S.registered]; q++) if (S.aids[q] == x) return true; return x == S.tiny[0] || x == S.tiny[1]; };
                uint8_t a; switch (choose(4)) { case 0: a = S.aids.back(); break; case 1: a = S.aids[choose(S.aids.size())] + (choose(2) ? 1 : -1); break; case 2: a = 0; break; default: a = (uint8_t)choose(256); } // the last one of the other version, a neighbour, any
                while (taken(a)) a++;
                all += request(c, s, a, ECHO, n, 0, 0, true);
            } else { uint8_t sid = (uint8_t)range(1, 255); bool used = true; while (used) { used = false; for (auto& s : svc) if (s.sid == sid) { used = true; sid = sid % 255 + 1; } } all += request(c, -1, (uint8_t)choose(256), ECHO, n, 0, sid, true); }
        } else {
            int s = reg[choose(reg.size())]; uint8_t aid = svc[s].aids[choose(svc[s].nfn[svc[s].registered])];
            if (tiny && C.handle >= 0 && C.nil.size() < 200 && chance(1, 3)) { // payload of no or one byte
                int t = choose(2); Req r{}; r.tag = next_tag++; r.client = c; r.svc = s; r.sid = svc[s].sid; r.aid = svc[s].tiny[t]; r.beh = w.beh[DEFER] && chance(1, 2) ? DEFER : ECHO; r.respn = std::min(rn, 40u); r.seq = ++seq; r.id = C.next_id++; r.ver = svc[s].registered; r.flags = T_SYNC; r.tiny = t;
                std::string pl; if (t) { while (C.slot[C.next_slot]) C.next_slot++; C.slot[C.next_slot] = r.tag; pl += (char)C.next_slot++; } C.nil.push_back(r.tag);
                reqs[r.tag] = r; C.by_id[r.id] = r.tag; all += make_frame(r.id, r.sid, r.aid, r.flags, pl); tiny_total++; C.bytes += 1000; real++; continue;
            }
            if (beh != DEFER && w.tiny && chance(1, 12)) rn = EMPTY;
            all += request(c, s, aid, beh, n, rn, (int)choose(6), false);
        }
        C.bytes += (rn == EMPTY ? 0 : rn) + 1000; real++;
    }
    if (!real) return;
    note("client %d sends %d requests (%zu bytes)", c, real, all.size());
    count("requests", real);
    send(c, all, w.segment ? (int)choose(w.segment + 1) : 0);
}
void Model::flood(int c) {
    std::string all; int n = range(250, 420); std::vector<int> reg; for (size_t s = 0; s < svc.size(); s++) if (svc[s].registered >= 0) reg.push_back(s);
    uint8_t sid = (uint8_t)range(1, 255); bool used = true; while (used) { used = false; for (auto& s : svc) if (s.sid == sid) { used = true; sid = sid % 255 + 1; } }
    bool uns = w.unserveable && (reg.empty() || chance(1, 2)); if (!uns && reg.empty()) return;
    for (int i = 0; i < n; i++) {
        if (uns) { unserved++; all += request(c, -1, 3, ECHO, 0, 0, sid, true); }
        else { int s = reg[i % reg.size()]; all += request(c, s, svc[s].aids[0], ECHO, 0, 0, 0, false); }
    }
    note("client %d sends %d %srequests without reading", c, n, uns ? "unserveable " : ""); count("requests", n); count("floods");
    send(c, all, 0);
}
static void write_header(gracht_buffer_t* b, uint8_t sid, uint8_t aid, uint8_t flags);
// A peer that does not follow the protocol. Payloads start with 0xEE when the frame is acceptable, 0xDD when no handler may see it.
void Model::hostile() {
    n_hostile++;
    Svc& s = svc[choose(svc.size())]; uint8_t aid = s.aids[choose(s.aids.size())];
    auto junk = [&](uint32_t n) { std::string r; for (uint32_t i = 0; i < n; i++) r += (char)choose(256); return r; };
    auto badlen = [&]() -> uint32_t { switch (choose(7)) { case 0: return choose(HDR); case 1: return HDR - 1; case 2: return cfg.max + 4097 + choose(64); case 3: return 0xFFFFFFFFu - choose(16); case 4: return 0x80000000u + choose(64); case 5: return 0x10000u * ((cfg.max + 4096) / 0x10000u + 1 + choose(16)) + (choose(2) ? HDR + choose(40) : cfg.max % 0x10000u); default: return cfg.max * 8 + 8192; } };
    auto hdr = [&](uint32_t len, uint8_t sid, uint8_t a, uint8_t fl) { std::string r; put32(r, choose(5)); put32(r, len); r += (char)sid; r += (char)a; r += (char)fl; return r; };
    auto odd = [&]() { // a frame with a valid length
        uint32_t k = choose(4);
        if (k == 0) return make_frame(choose(100), 0, (uint8_t)(choose(2) ? choose(256) : choose(4)), (uint8_t)choose(256), junk(choose(4)));
        if (k == 1) { uint8_t sid = (uint8_t)range(1, 255); bool used = true; while (used) { used = false; for (auto& x : svc) if (x.sid == sid) { used = true; sid = sid % 255 + 1; } } return make_frame(choose(100), sid, (uint8_t)choose(256), (uint8_t)choose(256), junk(choose(24))); }
        std::string p; p += (char)0xEE; p += (char)choose(2); p += junk(choose(std::min(40, cfg.max - HDR - 2) + 1)); if (k == 3) p.resize(cfg.max - HDR, (char)0xEE);
        return make_frame(choose(100), s.sid, k == 3 ? aid : (uint8_t)choose(256), (uint8_t)choose(256), p); };
    if (cfg.packet && chance(1, 2)) { // datagrams
        if (dgram < 0) { dgram = raw_socket(AF_UNIX, SOCK_DGRAM); sa_family_t f = AF_UNIX; ::bind(dgram, (sockaddr*)&f, sizeof f); }
        int n = range(1, 4);
        for (int i = 0; i < n; i++) {
            std::string d; 
            switch (choose(6)) {
            case 0: d = odd(); break;
            case 1: d = hdr(badlen(), s.sid, aid, T_SYNC); d += (char)0xDD; d += junk(choose(24)); break;
            case 2: d = hdr(HDR + 40, s.sid, aid, T_SYNC); d += (char)0xDD; d += junk(choose(30)); break;   // shorter than announced
            case 3: d = hdr(HDR + 1, s.sid, aid, T_SYNC); d += (char)0xDD; d += junk(1 + choose(30)); break; // longer than announced
            case 4: d = junk(choose(HDR)); break;
            case 5: { bool may = choose(2); uint32_t n = cfg.max + (may ? 1 + choose(900) : 4600 + choose(300)); d = hdr(n, s.sid, aid, T_SYNC); d += (char)(may ? 0xEE : 0xDD); d.resize(n, (char)0xEE); break; } // above the limit, may fit or not
            }
            note("datagram of %zu bytes, announcing %u", d.size(), d.size() >= 8 ? get32(d.data() + 4) : 0); n_dgram++;
            ::sendto(dgram, d.data(), d.size(), MSG_NOSIGNAL | MSG_DONTWAIT, (sockaddr*)&srv.paddr.ss, srv.paddr.len); if (chance(1, 2)) settle(); else yield();
        }
        return;
    }
    Peer* h = nullptr; for (auto& x : bad) if (x->fd >= 0 && !x->eof && chance(1, 2)) h = x.get();
    int open = 0; for (auto& x : bad) open += x->fd >= 0;
    if (!h) { if (open >= 4) { for (auto& x : bad) if (x->fd >= 0) { x->close(); break; } } bad.push_back(std::make_unique<Peer>()); h = bad.back().get(); if (!h->connect(srv.addr)) fail("a client could not connect (errno %d)", errno); note("hostile peer connects"); }
    std::string b = h->rest; h->rest.clear(); int n = range(0, 3); for (int i = 0; i < n; i++) b += odd();
    switch (choose(5)) {
    case 0: b += odd(); note("hostile peer sends odd frames (%zu bytes)", b.size()); break;
    case 1: { uint32_t l = badlen(); b += hdr(l, s.sid, aid, T_SYNC); std::string p; p += (char)0xDD; p += junk(choose(40)); b += p; n_invalid++; note("hostile peer announces a length of %u", l); break; }
    case 2: { std::string f = odd(); size_t cut = range(1, f.size() - 1); b += f.substr(0, cut); h->rest = f.substr(cut); n_stall++; note("hostile peer sends %zu of %zu bytes and stalls", cut, f.size()); break; }
    case 3: { b += hdr(badlen(), (uint8_t)choose(256), (uint8_t)choose(256), (uint8_t)choose(256)); b += junk(choose(200)); n_invalid++; note("hostile peer sends garbage"); break; }
    case 4: { uint32_t l = cfg.max + 1 + choose(choose(3) ? 512 : 4096); std::string f = hdr(l, s.sid, aid, T_SYNC); f.resize(l, (char)0xEE); b += f; note("hostile peer sends a message of %u bytes", l); break; } // above the limit, may still fit
    }
    { ssize_t k = h->send_some(b.data(), b.size()); if (k >= 0 && k < (ssize_t)b.size()) h->rest = b.substr(k) + h->rest; } if (chance(1, 2)) settle(); else yield();
    if (chance(1, 6)) { note("hostile peer leaves"); h->close(); }
}
static void write_header(gracht_buffer_t* b, uint8_t sid, uint8_t aid, uint8_t flags) {
    memset(b->data + b->index, 0, 8); b->index += 8; b->data[b->index++] = sid; b->data[b->index++] = aid; b->data[b->index++] = flags;
}
void Model::respond(struct gracht_message* m, Req& r) {
    gracht_buffer_t b;
    while (gracht_server_get_buffer(m->server, &b)) { if (!shortages()) fail("no response buffer available"); yield(); }
    if (b.index != 0 || !b.data) fail("response buffer handed out in a bad state");
    uint32_t tag = r.tag, n = r.respn; uint8_t sid = r.sid, aid = r.aid;
    write_header(&b, sid, aid, T_RESPONSE); std::string p; if (n != EMPTY) p = body(tag | RESP, n);
    yield();
    memcpy(b.data + b.index, p.data(), p.size()); b.index += p.size();
    reqs[tag].answered = true;
    gracht_server_respond(m, &b);
}
void Model::event(int target, gracht_conn_t h, uint8_t sid, bool bcast, bool from_main, unsigned flags) {
    Ev e{}; e.tag = next_tag++; e.sid = sid; e.target = bcast ? -1 : target; e.seq = ++ev_seq; e.n = from_main && w.big && chance(1, 6) ? choose(std::min(cfg.max - HDR - 12, 30000) + 1) : choose(20); e.from_main = from_main; e.handle = bcast ? -1 : (int)h; e.chg = chgs;
    e.must.resize(cl.size()); e.may.resize(cl.size()); e.got.resize(cl.size() + 64);
    bool any = false, none = false;
    for (size_t i = 0; i < cl.size(); i++) if (cl[i]->open) { if (bcast) { e.must[i] = cl[i]->subs[sid]; if (w.storm && cl[i]->quiet >= calms) e.must[i] = 0, e.may[i] = 1, bc_flux++; (e.must[i] ? any : none) = true; } else e.must[i] = (int)i == target; }
    if (bcast && any && none) bc_selective++;
    uint32_t tag = e.tag, n = e.n; evs[tag] = e;
    if (from_main) make_room(n + 1000);
    gracht_buffer_t b;
    while (gracht_server_get_buffer(srv.s, &b)) { if (!shortages()) fail("no event buffer available"); yield(); }
    write_header(&b, sid, 7, T_EVENT); std::string p = body(tag | EVT, n);
    yield();
    memcpy(b.data + b.index, p.data(), p.size()); b.index += p.size();
    if (bcast) { note("broadcast event %u on service %u%s", tag, sid, from_main ? "" : " (from a handler)"); gracht_server_broadcast_event(srv.s, &b, flags); }
    else { note("targeted event %u to client %d", tag, target); if (gracht_server_send_event(srv.s, h, &b, flags) && target >= 0 && cl[target]->open && !(shortages() && cl[target]->cut)) fail("sending an event to connected client %d failed (errno %d)", target, errno); }
}
void Model::release(size_t k, bool from_main) {
    if (from_main) { uint32_t t = deferred[k].tag; make_room(reqs[t].respn + 1000); k = 0; while (k < deferred.size() && deferred[k].tag != t) k++; if (k == deferred.size()) return; }
    Deferred d = deferred[k]; deferred.erase(deferred.begin() + k);
    Req& r = reqs[d.tag]; r.released = true; note("answer deferred request %u of client %d%s", d.tag, r.client, cl[r.client]->gone ? " (gone)" : "");
    if (cl[r.client]->gone) late_answers++;
    respond(d.m, r); free(d.m);
}
void Model::act(uint32_t tag, int s, struct gracht_message* m) {
    running++; if (running > max_running) max_running = running;
    Req r = reqs[tag]; // copies: other fibers may add requests while we are preempted
    switch (r.beh) {
    case ECHO: respond(m, reqs[tag]); break;
    case SILENT: break;
    case DEFER: {
        size_t sz = GRACHT_MESSAGE_DEFERRABLE_SIZE(m); struct gracht_message* k = (struct gracht_message*)malloc(sz);
        gracht_server_defer_message(m, k); deferred.push_back({k, tag}); deferred_total++; break; }
    case ECHO_EVENT: event(r.client, m->client, svc[s].sid, false, false, 0); respond(m, reqs[tag]); break;
    case EVENT_ONLY: event(r.client, m->client, svc[s].sid, false, false, GRACHT_MESSAGE_BLOCK); break;
    case BCAST: event(-1, 0, svc[r.arg % svc.size()].sid, true, false, 0); respond(m, reqs[tag]); break;
    case RELEASE: for (int i = 0; i <= r.arg && !deferred.empty(); i++) release((r.arg * 7 + i) % deferred.size(), false); respond(m, reqs[tag]); break;
    case SLOW: for (int i = 0; i <= r.arg; i++) yield(); respond(m, reqs[tag]); break;
    case SHUTDOWN_REQ: shutdown_requested = true; gracht_server_request_shutdown(m->server); respond(m, reqs[tag]); break;
    }
    running--;
}
void Model::on_tiny(int s, int t, int v, struct gracht_message* m, gracht_buffer_t* b) {
    if (forbid_handlers) fail("a handler ran after the server had stopped");
    auto o = handle_owner.find(m->client); if (o == handle_owner.end()) fail("a small request appears under an unknown handle %d", (int)m->client);
    Cl& C = *cl[o->second]; Req* q = nullptr; uint8_t slot = 0;
    if (t) { slot = (uint8_t)b->data[b->index]; auto i = reqs.find(C.slot[slot]); if (!C.slot[slot] || i == reqs.end()) fail("a handler was invoked with a small request nobody sent"); q = &i->second; }
    else for (uint32_t tag : C.nil) { auto i = reqs.find(tag); if (i == reqs.end()) continue; Req& r = i->second; if (r.tiny == 0 && !r.handled && r.svc % 8 == s) { q = &r; break; } } // requests without arguments cannot be told apart
    if (!q) fail("the handler of a function without arguments ran more often than it was called");
    if (q->svc % 8 != s || q->ver != v || q->tiny != t) fail("small request %u ran the wrong handler", q->tag);
    if (q->handled++) fail("small request %u was executed twice", q->tag);
    if (st()) { if (C.last_seq > q->seq) fail("requests of client %d executed out of order", q->client); C.last_seq = q->seq; }
    handled_total++; uint32_t tag = q->tag; int sv = q->svc;
    act(tag, sv, m);
    if (t && (uint8_t)b->data[b->index] != slot) fail("small request %u was overwritten while its handler was running", tag);
}
void Model::on_call(int s, int a, int v, struct gracht_message* m, gracht_buffer_t* b) {
    if (forbid_handlers) fail("a handler ran after the server had stopped");
    const char* p = b->data + b->index; uint32_t tag;
    if (w.hostile && (uint8_t)p[0] == 0xDD) fail("a handler was invoked for a message with an invalid length");
    if (w.hostile && (uint8_t)p[0] == 0xEE) { hostile_calls++; if (p[1] & 1) { gracht_buffer_t o; while (gracht_server_get_buffer(m->server, &o)) { if (!shortages()) fail("no response buffer available"); yield(); } write_header(&o, 1, 1, T_RESPONSE); gracht_server_respond(m, &o); } return; }
    if (!check_body(p + 6, cfg.max, &tag)) fail("a handler was invoked with bytes that no client sent");
    auto it = reqs.find(tag);
    if (it == reqs.end()) fail("a handler was invoked with a request nobody sent (tag %u)", tag);
    { Req& r = it->second;
      if (check_body(p + 6, cfg.max, &tag) != 12 + r.n || (uint8_t)p[0] != r.beh || get32(p + 2) != r.respn || (uint8_t)p[1] != (uint8_t)r.arg) fail("request %u arrived altered", tag);
      if (r.unserveable) fail("unserveable request %u was executed", tag);
      if (r.svc >= 0 && r.svc % 8 == s) s = r.svc; // services 8 apart share handlers
      if (r.svc != s || svc[s].aids[a] != r.aid) fail("request %u for service %u function %u ran the handler of service %u function %u", tag, r.sid, r.aid, svc[s].sid, svc[s].aids[a]);
      if (v != r.ver) fail("request %u ran a handler that is not the registered one", tag);
      if (r.handled++) fail("request %u was executed twice", tag);
      Cl& C = *cl[r.client];
      if (st()) { if (C.last_seq > r.seq) fail("requests of client %d executed out of order", r.client); C.last_seq = r.seq; }
      if (cfg.callbacks && C.open && !(C.cut && shortages()) && !conn_state[m->client]) fail("request of a client that was not reported as connected");
      if (C.handle < 0) { C.handle = m->client; auto h = handle_owner.find(m->client); if (h != handle_owner.end() && h->second != r.client) { reuses++; if (cl[h->second]->open && C.open && !(shortages() && (cl[h->second]->cut || C.cut))) fail("clients %d and %d share handle %d", h->second, r.client, m->client); } handle_owner[m->client] = r.client; }
      else if (C.handle != m->client) fail("client %d appears under two handles", r.client);
      handled_total++; }
    act(tag, s, m);
    // the request must still be intact when the handler is done with it
    uint32_t t2; if (!check_body(p + 6, cfg.max, &t2) || t2 != tag) fail("request %u was overwritten while its handler was running", tag);
}
void Model::on_frame(int c, const Frame& f) {
    Cl& C = *cl[c]; int type = f.flags & 3;
    if (type == T_RESPONSE) {
        auto i = C.by_id.find(f.id); uint32_t t;
        if (f.payload.empty() && i != C.by_id.end() && reqs[i->second].respn == EMPTY) {
            Req& r = reqs[i->second];
            if (f.sid != r.sid || f.aid != r.aid || !r.answered) fail("client %d received an empty response to request %u that nobody gave", c, r.tag);
            if (r.responded++) fail("client %d received the response to request %u twice", c, r.tag);
            return;
        }
        uint32_t got = check_body(f.payload.data(), f.payload.size(), &t);
        if (!got || got != f.payload.size()) fail("client %d received a corrupted response (id %u, %zu bytes)", c, f.id, f.payload.size());
        auto own = reqs.find(t & ~RESP);
        if (!(t & RESP) || own == reqs.end()) fail("client %d received a response nobody gave", c);
        if (own->second.client != c) fail("client %d received the response to request %u of client %d", c, t & ~RESP, own->second.client);
        if (own->second.tiny == 0) {
            if (i == C.by_id.end()) fail("client %d received a response under an identity it did not use", c);
            Req& q = reqs[i->second]; if (q.tiny != 0 || q.sid != own->second.sid) fail("client %d received a response under the identity of another request", c);
            if (q.idgot++) fail("client %d received two responses under one identity", c);
        } else if (i == C.by_id.end() || i->second != (t & ~RESP)) fail("client %d received the response to request %u under the identity of another request", c, t & ~RESP);
        Req& r = own->second;
        if (f.sid != r.sid || f.aid != r.aid || got != 12 + r.respn) fail("response to request %u differs from the one given", r.tag);
        if (!r.answered) fail("response to request %u arrived before it was given", r.tag);
        if (r.responded++) fail("client %d received the response to request %u twice", c, r.tag);
    } else if (type == T_EVENT && f.sid == 0) {
        if (f.aid != 2 || f.payload.size() < 8) fail("client %d received an unknown control event", c);
        auto i = C.by_id.find(get32(f.payload.data()));
        if (i == C.by_id.end()) fail("client %d received an error for a request it did not make", c);
        Req& r = reqs[i->second];
        if (!r.unserveable) fail("client %d received an error for request %u, which can be served", c, r.tag);
        if (r.errors++) fail("client %d received two errors for one request", c);
    } else if (type == T_EVENT) {
        uint32_t t; uint32_t got = check_body(f.payload.data(), f.payload.size(), &t);
        if (!got || got != f.payload.size() || !(t & EVT)) fail("client %d received a corrupted event", c);
        auto e = evs.find(t & ~EVT);
        if (e == evs.end()) fail("client %d received an event nobody sent", c);
        Ev& v = e->second;
        if (v.target >= 0 && v.target != c) {
            // a handle names the client that holds it when the event is sent: only when the client it was meant for has left may its successor get it
            if ((cl[v.target]->open && !(shortages() && cl[v.target]->cut)) || v.handle < 0 || (C.handle >= 0 && C.handle != v.handle)) fail("client %d received an event meant for client %d", c, v.target);
            if ((size_t)c >= v.got.size()) v.got.resize(c + 1);
            if (v.got[c]++) fail("client %d received event %u twice", c, v.tag);
            return;
        }
        if (f.sid != v.sid || got != 12 + v.n) fail("client %d received event %u altered", c, v.tag);
        if ((!w.storm || C.chg <= v.chg) && ((size_t)c >= v.must.size() || (!v.must[c] && !v.may[c]))) fail("client %d received broadcast %u on service %u without being subscribed", c, v.tag, v.sid);
        if ((size_t)c >= v.got.size()) v.got.resize(c + 1);
        if (v.got[c]++) fail("client %d received event %u twice", c, v.tag);
        if (v.from_main) { if (C.last_ev > v.seq) fail("client %d received events out of order", c); C.last_ev = v.seq; }
    } else fail("client %d received a frame of type %d", c, type);
}
bool Model::pump() {
    bool any = false;
    for (auto& h : bad) if (h->fd >= 0) { if (h->pump()) any = true; h->frames.clear(); h->in.clear(); }
    if (dgram >= 0) { char b[65536]; while (::recv(dgram, b, sizeof b, MSG_DONTWAIT) >= 0) any = true; }
    for (size_t i = 0; i < cl.size(); i++) if (cl[i]->open) {
        if (cl[i]->p.pump()) any = true;
        if (cl[i]->p.bad) fail("client %zu: %s", i, cl[i]->p.bad_why.c_str());
        while (!cl[i]->p.frames.empty()) { Frame f = cl[i]->p.frames.front(); cl[i]->p.frames.pop_front(); on_frame(i, f); }
        if (cl[i]->p.eof && shortages() && (cl[i]->handle < 0 || cl[i]->cut)) { // refused when it connected, or given up in the middle of a message
            note("client %zu was refused", i); count("clients refused for want of resources"); for (auto& r : reqs) if (r.second.client == (int)i) r.second.maybe = true;
            cl[i]->p.close(); cl[i]->open = false; cl[i]->gone = true; continue; }
        if (cl[i]->p.eof && !cl[i]->malformed && !shutdown_requested) fail("the server closed the connection of well-behaved client %zu", i);
    }
    return any;
}
void Model::quiesce() {
    int un = 0; for (auto& r : reqs) if (!r.second.handled && !r.second.unserveable) un++;
    if (un > inflight_max) inflight_max = un;
    do settle(); while (pump());
    quiesces++; calms++;
    verify();
    for (auto& c : cl) c->bytes = 0, c->events = 0;
}
void Model::verify() {
    if (srv.returned && !shutdown_requested) fail("the server stopped on its own");
    for (auto i = reqs.begin(); i != reqs.end();) {
        Req& r = i->second; Cl& C = *cl[r.client];
        if (C.gone || r.maybe || C.malformed) { ++i; continue; }
        if (r.unserveable) {
            if (r.errors != 1 && !shortages()) fail("unserveable request %u (service %u function %u) of client %d produced no error notification [%s]", r.tag, r.sid, r.aid, r.client, fiber_states().c_str());
        } else {
            if (!r.handled) fail("request %u of client %d was never executed [%s]", r.tag, r.client, fiber_states().c_str());
            bool want = r.beh != SILENT && r.beh != EVENT_ONLY && !(r.beh == DEFER && !r.released);
            if (want && r.responded != 1) fail("client %d never received the response to request %u [%s]", r.client, r.tag, fiber_states().c_str());
        }
        ++i;
    }
    for (auto& kv : evs) { Ev& e = kv.second; for (size_t c = 0; c < e.must.size(); c++) if (e.must[c] && cl[c]->open && (!w.storm || cl[c]->chg <= e.chg) && !cl[c]->malformed && !(c < e.got.size() && e.got[c])) fail("client %zu did not receive %s %u on service %u", c, e.target >= 0 ? "its event" : "broadcast", e.tag, e.sid); }
    int live = 0, gone = 0; bool mal = false; for (auto& c : cl) { if (c->open) live++; if (c->gone) gone++; if (c->malformed) mal = true; }
    if (cfg.callbacks && !shutdown_requested && !mal) {
        if (shortages()) { if (n_conn - n_disc != (uint64_t)live) fail("%d clients are connected but %llu arrivals and %llu departures were reported", live, (unsigned long long)n_conn, (unsigned long long)n_disc); }
        else if (n_conn != (uint64_t)connects) fail("%d clients connected but %llu arrivals were reported", connects, (unsigned long long)n_conn);
        if (!shortages() && n_disc != (uint64_t)gone) fail("%d clients left but %llu departures were reported", gone, (unsigned long long)n_disc);
    }
    if (w.fd_check && !shutdown_requested && !mal && resources().fds != base_fds + live) fail("%d clients are connected but the server holds %lld client descriptors", live, (long long)(resources().fds - base_fds));
    // forget what is settled
    std::set<int> busy; for (auto& kv : reqs) { Req& r = kv.second; if (r.tiny == 0 && r.beh == DEFER && !r.released) busy.insert(r.client); }
    for (size_t c = 0; c < cl.size(); c++) if (!busy.count(c)) { std::deque<uint32_t> k; for (uint32_t t : cl[c]->nil) { auto i = reqs.find(t); if (i != reqs.end() && i->second.beh == DEFER && !i->second.released) k.push_back(t); else for (auto& x : cl[c]->slot) if (x == t) x = 0; } cl[c]->nil = k; }
    for (auto i = reqs.begin(); i != reqs.end();) { Req& r = i->second; bool pend = r.beh == DEFER && !r.released && r.handled; if (r.tiny == 0 && busy.count(r.client)) pend = true; if (!pend && !cl[r.client]->gone) { cl[r.client]->by_id.erase(r.id); i = reqs.erase(i); } else ++i; }
    evs.clear();
}
void Model::disconnect(int c, int how) {
    Cl& C = *cl[c]; bool busy = false; for (auto& r : reqs) if (r.second.client == c) { r.second.maybe = true; if (!r.second.responded) busy = true; }
    if (busy) gone_busy++;
    note("client %d %s%s", c, how == 0 ? "closes" : how == 1 ? "reads and closes" : "half-closes", busy ? " with requests in progress" : "");
    if (how == 1) { C.p.pump(); while (!C.p.frames.empty()) { Frame f = C.p.frames.front(); C.p.frames.pop_front(); on_frame(c, f); } }
    C.open = false; C.gone = true;
    if (how == 2) C.p.half_close(); else C.p.close();
    yield();
}
void Model::op() {
    uint32_t k = weighted({w.batch, w.connect, w.disconnect, w.subscribe, w.bcast, w.targeted, w.regs, w.release, w.quiesce, w.partial, w.flood, w.hostile});
    int c;
    switch (k) {
    case 0: if ((c = pick_open()) >= 0) batch(c); break;
    case 1: { int live = 0; for (auto& x : cl) live += x->open; if (live < crowd) connect(); break; }
    case 2: if ((c = pick_open()) >= 0) disconnect(c, choose(3)); break;
    case 3: if ((c = pick_open()) >= 0) {
        bool flux = w.storm && chance(2, 3); if (!flux) quiesce(); int n = range(1, 3); std::string b; Cl& C = *cl[c];
        for (int i = 0; i < n; i++) {
            bool sub = chance(1, 2); uint32_t kk = choose(5); uint8_t id = kk == 4 ? 0xFF : kk == 3 ? (uint8_t)range(1, 254) : svc[choose(svc.size())].sid;
            if (id == 0xFF) { if (sub) C.subs.set(); else C.subs.reset(); } else C.subs[id] = sub;
            note("client %d %ssubscribes %u", c, sub ? "" : "un", id);
            b += make_frame(C.next_id++, 0, sub ? 0 : 1, T_ASYNC, std::string(1, (char)id));
        }
        C.chg = ++chgs; C.quiet = calms; send(c, b, 0); if (!flux) { do settle(); while (pump()); calms++; }
        } break;
    case 4: { bool conc = chance(1, 2); if (!conc) quiesce(); else if (!w.storm) settle(); else if (choose(2)) yield(); // connects are settled; requests may be in progress
        int n = range(1, 4); for (int i = 0; i < n; i++) { uint8_t sid = chance(1, 6) ? (uint8_t)range(1, 254) : svc[choose(svc.size())].sid; event(-1, 0, sid, true, true, 0); yield(); }
        if (conc && (c = pick_open()) >= 0) batch(c);
        } break;
    case 5: if ((c = pick_open()) >= 0 && cl[c]->handle >= 0) event(c, cl[c]->handle, svc[choose(svc.size())].sid, false, true, choose(2) ? GRACHT_MESSAGE_BLOCK : 0); break;
    case 6: { quiesce(); Svc& s = svc[choose(svc.size())]; int v = choose(2);
        if (s.registered >= 0) {
            if (chance(1, 4)) { note("register service %u again", s.sid); if (gracht_server_register_protocol(srv.s, &s.proto[v]) != -1) fail("registering service %u twice was accepted", s.sid); }
            else { note("unregister service %u", s.sid); gracht_server_unregister_protocol(srv.s, &s.proto[s.registered]); s.registered = -1; }
        } else { note("register service %u version %d", s.sid, v); insist("registering a service", [&]() { return gracht_server_register_protocol(srv.s, &s.proto[v]); }); s.registered = v; }
        } break;
    case 7: if (!deferred.empty()) { int n = range(1, (uint32_t)std::min<size_t>(deferred.size(), 4)); for (int i = 0; i < n && !deferred.empty(); i++) { release(choose(deferred.size())); yield(); } } break;
    case 8: quiesce(); break;
    case 9: if ((c = pick_open()) >= 0) { // leave in the middle of a frame
        Cl& C = *cl[c]; std::string f = request(c, -1, 1, ECHO, choose(30), 0, 1, true); for (auto& s : svc) (void)s;
        size_t cut = range(1, f.size() - 1); C.cut = true; C.p.send(f.substr(0, cut)); note("client %d sends %zu of %zu bytes of a frame", c, cut, f.size()); if (chance(1, 2)) settle(); else yield(); disconnect(c, choose(3)); } break;
    case 11: hostile(); break;
    case 10: if ((c = pick_open()) >= 0) { // more answers than fit in the client's socket before it reads again
        quiesce(); flood(c);
        if (w.disconnect && chance(1, 2)) { if (chance(1, 2)) settle(); disconnect(c, choose(2)); } else quiesce(); } break;
    }
}
void Model::run(const Weights& ww) {
    start(ww);
    set_sched(draw_sched(w.concurrent));
    int n = range(w.min_ops, w.max_ops);
    for (int i = 0; i < n; i++) { op(); if (deferred.size() > 8) release(choose(deferred.size())); }
    while (!deferred.empty()) release(choose(deferred.size()));
    quiesce();
    // the server still accepts and serves a new client
    if (w.batch) { int c = connect(); bool reg = false; for (auto& s : svc) if (s.registered >= 0) reg = true; if (reg) { auto keep = w.beh[ECHO]; Weights sv = w; memset(w.beh, 0, sizeof w.beh); w.beh[ECHO] = 1; batch(c); w = sv; (void)keep; } quiesce(); }
    count("handled", handled_total); if (tiny_total) count("requests with a payload of at most one byte", tiny_total); if (cfg.max > 10000) count("cases with a message limit above 10000");
}
} // namespace vf
