#include "world.h"
#include <arpa/inet.h>
#include <netinet/in.h>
namespace vf {
std::function<void(gracht_conn_t)> on_connected, on_disconnected;

std::string make_frame(uint32_t id, uint8_t sid, uint8_t aid, uint8_t flags, const std::string& payload) {
    std::string s; put32(s, id); put32(s, HDR + payload.size()); s += (char)sid; s += (char)aid; s += (char)flags; s += payload; return s;
}
std::string pattern(uint32_t tag, uint32_t n) {
    std::string s(n, 0); uint32_t x = tag * 2654435761u + 12345;
    for (uint32_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; s[i] = (char)(x >> 24); }
    return s;
}
static uint32_t digest(const char* p, uint32_t n) { uint32_t h = 2166136261u; for (uint32_t i = 0; i < n; i++) h = (h ^ (uint8_t)p[i]) * 16777619u; return h; }
std::string body(uint32_t tag, uint32_t n) { std::string s; put32(s, tag); put32(s, n); s += pattern(tag, n); put32(s, digest(s.data(), s.size())); return s; }
uint32_t check_body(const char* p, uint32_t max, uint32_t* tag) {
    if (max < 12) return 0;
    uint32_t t = get32(p), n = get32(p + 4);
    if (n > max - 12) return 0;
    if (get32(p + 8 + n) != digest(p, 8 + n)) return 0;
    if (memcmp(p + 8, pattern(t, n).data(), n)) return 0;
    if (tag) *tag = t;
    return 12 + n;
}

static int g_addr_no;
Addr unix_addr(const char* what, bool full) {
    Addr a; memset(&a, 0, sizeof a); sockaddr_un* u = (sockaddr_un*)&a.ss; u->sun_family = AF_UNIX;
    int n = snprintf(u->sun_path + 1, sizeof u->sun_path - 1, "vf-%d-%d-%s", (int)getpid(), g_addr_no++, what);
    a.len = full ? sizeof(sockaddr_un) : offsetof(sockaddr_un, sun_path) + 1 + n; return a;
}
uint16_t fresh_port() { return 10000 + g_addr_no++ % 20000; }
Addr inet_addr_free(int type) {
    // a loopback address per process, so that parallel runs never compete for a port
    uint32_t pid = (uint32_t)getpid(), ip = (127u << 24) | ((64 + (pid >> 16) % 128) << 16) | (pid & 0xFFFF);
    Addr a; memset(&a, 0, sizeof a); sockaddr_in* u = (sockaddr_in*)&a.ss; u->sin_family = AF_INET; a.len = sizeof *u;
    for (int i = 0; i < 200; i++) {
        u->sin_addr.s_addr = htonl(i < 100 ? ip : INADDR_LOOPBACK); u->sin_port = htons(i < 100 ? fresh_port() : 0);
        int fd = ::socket(AF_INET, type, 0); socklen_t l = sizeof *u; bool ok = !::bind(fd, (sockaddr*)u, sizeof *u) && !getsockname(fd, (sockaddr*)u, &l);
        ::close(fd); if (ok) return a;
    }
    perror("bind loopback"); _exit(3);
}

bool Peer::connect(const Addr& a) {
    fd = raw_socket(a.ss.ss_family, SOCK_STREAM); eof = bad = false; in.clear(); frames.clear();
    for (int i = 0; i < 64; i++) {
        if (::connect(fd, (const sockaddr*)&a.ss, a.len) == 0) return true;
        if (errno == EAGAIN) { settle(); continue; } // accept queue is full: let the server accept
        if (errno == EINPROGRESS) { wait_fd(fd, POLLOUT); int e = 0; socklen_t l = sizeof e; getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l); return e == 0; }
        return false;
    }
    fail("the server stopped accepting connections [%s]", fiber_states().c_str());
}
ssize_t Peer::send_some(const char* b, size_t n) { return ::send(fd, b, n, MSG_NOSIGNAL | MSG_DONTWAIT); }
bool Peer::send(const std::string& b) {
    size_t o = 0;
    if (dgram) for (;;) { // the messages within b, one packet each; what does not parse is one packet
        if (o >= b.size()) return true;
        size_t n = b.size() - o; if (n >= HDR) { uint32_t len = get32(b.data() + o + 4); if (len >= HDR && len < n) n = len; }
        if (!send_packet(b.substr(o, n))) return false;
        o += n;
    }
    while (o < b.size()) {
        ssize_t r = send_some(b.data() + o, b.size() - o);
        if (r > 0) { o += r; continue; }
        if (r < 0 && errno == EAGAIN) { wait_fd(fd, POLLOUT); continue; }
        return false;
    }
    return true;
}
bool Peer::send_packet(const std::string& b) {
    for (;;) { ssize_t r = send_some(b.data(), b.size()); if (r == (ssize_t)b.size()) return true; if (r < 0 && errno == EAGAIN) { wait_fd(fd, POLLOUT); continue; } return false; }
}
bool Peer::pump() {
    if (fd < 0 || eof) return false;
    bool any = false; static char b[1 << 17];
    for (;;) {
        ssize_t r = ::recv(fd, b, sizeof b, MSG_DONTWAIT);
        if (r > 0 && dgram) {
            any = true; if (r < HDR || get32(b + 4) != (uint32_t)r) { bad = true; bad_why = "received a packet of " + std::to_string(r) + " bytes that is not one message"; break; }
            Frame f; f.id = get32(b); f.sid = b[8]; f.aid = b[9]; f.flags = b[10]; f.payload.assign(b + HDR, r - HDR); frames.push_back(f); continue;
        }
        if (r > 0) { in.append(b, r); any = true; continue; }
        if (r == 0 || (r < 0 && errno != EAGAIN)) { if (!eof) any = true; eof = true; }
        break;
    }
    size_t o = 0;
    while (in.size() - o >= HDR && !bad) {
        uint32_t len = get32(in.data() + o + 4);
        if (len < HDR || len > (1u << 20)) { bad = true; bad_why = "received a frame announcing length " + std::to_string(len); break; }
        if (in.size() - o < len) break;
        Frame f; f.id = get32(in.data() + o); f.sid = in[o + 8]; f.aid = in[o + 9]; f.flags = in[o + 10]; f.payload = in.substr(o + HDR, len - HDR);
        frames.push_back(f); o += len;
    }
    in.erase(0, o);
    return any;
}
void Peer::close() { if (fd >= 0) raw_close(fd); fd = -1; }
void Peer::reset() { if (fd >= 0) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); raw_close(fd); } fd = -1; }

static void cb_conn(gracht_conn_t c) { if (on_connected) on_connected(c); }
static void cb_disc(gracht_conn_t c) { if (on_disconnected) on_disconnected(c); }

int link_trouble;
static void add_link(gracht_server_t* s, const Addr& a, enum gracht_link_type t) {
    struct gracht_link_socket* l;
    insist("creating a link", [&]() { return gracht_link_socket_create(&l); });
    gracht_link_socket_set_type(l, t); gracht_link_socket_set_listen(l, 1);
    gracht_link_socket_set_domain(l, a.ss.ss_family); gracht_link_socket_set_address(l, &a.ss, a.len);
    if (link_trouble) { // the address is in use at first
        int fd = raw_socket(a.ss.ss_family, t == gracht_link_stream_based ? SOCK_STREAM : SOCK_DGRAM); if (::bind(fd, (const sockaddr*)&a.ss, a.len)) fail("harness: bind failed (errno %d)", errno);
        uint64_t held = resources().fds; note("the address of a link is in use"); count("failed attempts to add a link", link_trouble);
        for (int i = 0; i < link_trouble; i++) {
            if (!gracht_server_add_link(s, (struct gracht_link*)l)) fail("a link was added although its address is in use");
            if (resources().fds > held + 1) fail("failed attempts to add a link leave %llu descriptors open", (unsigned long long)(resources().fds - held));
        }
        raw_close(fd);
    }
    insist("adding a link", [&]() { return gracht_server_add_link(s, (struct gracht_link*)l); });
}
void Srv::start(const SrvCfg& c) {
    cfg = c; gracht_server_configuration_t conf; gracht_server_configuration_init(&conf);
    if (c.callbacks) { conf.callbacks.clientConnected = cb_conn; conf.callbacks.clientDisconnected = cb_disc; }
    else { conf.callbacks.clientConnected = nullptr; conf.callbacks.clientDisconnected = nullptr; }
    gracht_server_configuration_set_num_workers(&conf, c.workers);
    gracht_server_configuration_set_max_msg_size(&conf, c.max);
    bool own_set = c.external && chance(1, 3); // the application waits on the server's own set
    if (c.external && !own_set) { epfd = epoll_create1(EPOLL_CLOEXEC); int n = fcntl(epfd, F_DUPFD_CLOEXEC, 900); ::close(epfd); epfd = n; gracht_server_configuration_set_aio_descriptor(&conf, epfd); }
    insist("creating a server", [&]() { return gracht_server_create(&conf, &s); });
    if (own_set) { epfd = gracht_server_get_aio_handle(s); if (epfd < 0) fail("the server gave no handle to wait on (errno %d)", errno); count("cases waiting on the server's own set"); }
    if (c.stream) { addr = unix_addr("s"); add_link(s, addr, gracht_link_stream_based); }
    if (c.packet) { paddr = c.packet_inet ? inet_addr_free(SOCK_DGRAM) : unix_addr("d", true); add_link(s, paddr, gracht_link_packet_based); }
    for (int i = 0; i < c.extra_streams; i++) { Addr a = unix_addr("x"); add_link(s, a, gracht_link_stream_based); more.push_back(a); }
    note("server workers=%d max=%d %s%s%s", c.workers, c.max, c.external ? "external loop " : "main loop ", c.stream ? "stream " : "", c.packet ? (c.packet_inet ? "udp" : "local-dgram") : "");
    if (!c.external) fiber = spawn("server", [this]() { ret = gracht_server_main_loop(s); returned = true; if (on_return) on_return(); });
    else fiber = spawn("server", [this]() {
        for (;;) {
            struct epoll_event ev[8]; wait_fd(epfd, POLLIN);
            int n = epoll_wait(epfd, ev, 8, 0);
            for (int i = 0; i < n; i++) { if (between) between(s); if (gracht_server_handle_event(s, ev[i].data.fd, ev[i].events) == -1 && errno == EPIPE) { returned = true; if (on_return) on_return(); return; } }
        }
    });
}
void Srv::kick() { Peer* p = new Peer; if (cfg.stream) p->connect(addr); else { int fd = raw_socket(paddr.ss.ss_family, SOCK_DGRAM); std::string f = make_frame(1, 250, 250, T_ASYNC, ""); ::sendto(fd, f.data(), f.size(), MSG_NOSIGNAL, (sockaddr*)&paddr.ss, paddr.len); } }

gracht_client_t* make_client(const Addr& a, int max, int arena, bool packet, int domain, bool doconnect, void* sendbuf) {
    struct gracht_link_socket* l; gracht_client_configuration_t c; gracht_client_t* cl = nullptr;
    insist("creating a link", [&]() { return gracht_link_socket_create(&l); });
    gracht_link_socket_set_type(l, packet ? gracht_link_packet_based : gracht_link_stream_based); gracht_link_socket_set_listen(l, 0);
    gracht_link_socket_set_domain(l, domain); gracht_link_socket_set_address(l, &a.ss, a.len);
    gracht_client_configuration_init(&c); gracht_client_configuration_set_link(&c, (struct gracht_link*)l);
    if (max) gracht_client_configuration_set_max_msg_size(&c, max);
    if (arena) gracht_client_configuration_set_recv_buffer(&c, nullptr, arena);
    if (sendbuf) gracht_client_configuration_set_send_buffer(&c, sendbuf);
    insist("creating a client", [&]() { return gracht_client_create(&c, &cl); });
    if (doconnect) insist("connecting a client", [&]() { return gracht_client_connect(cl); });
    return cl;
}
void Listener::open(const char* what, bool d) {
    open_at(unix_addr(what), d);
}
void Listener::open_at(const Addr& a, bool d) {
    dgram = d; addr = a; fd = raw_socket(AF_UNIX, d ? SOCK_DGRAM : SOCK_STREAM);
    if (d) { if (::bind(fd, (sockaddr*)&addr.ss, addr.len)) { perror("bind"); _exit(3); } return; }
    if (::bind(fd, (sockaddr*)&addr.ss, addr.len) || ::listen(fd, 16)) { perror("listen"); _exit(3); }
}
Peer Listener::accept(int client_fd) {
    Peer p;
    if (dgram) { // answer to the address the client has; sockets connected to each other have no queue limit
        sockaddr_storage ss; socklen_t l = sizeof ss; if (getsockname(client_fd, (sockaddr*)&ss, &l) || ::connect(fd, (sockaddr*)&ss, l)) fail("a packet client has no address to answer to (errno %d)", errno);
        p.fd = fd; fd = -1; p.dgram = true; return p;
    }
    for (;;) {
        int n = ::accept4(fd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
        if (n >= 0) { p.fd = fcntl(n, F_DUPFD_CLOEXEC, 900); ::close(n); return p; }
        wait_fd(fd, POLLIN);
    }
}
} // namespace vf
