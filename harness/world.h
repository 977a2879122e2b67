// Peers, frames and server/client fixtures shared by the property harnesses.
#pragma once
#include "engine.h"
#include <cerrno>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <string>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <vector>
extern "C" {
#include "gracht/client.h"
#include "gracht/link/socket.h"
#include "gracht/server.h"
// the interface exported to generated code
int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
int gracht_server_respond(struct gracht_message*, gracht_buffer_t*);
int gracht_server_send_event(gracht_server_t*, gracht_conn_t client, gracht_buffer_t*, unsigned int flags);
int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int flags);
int gracht_client_get_buffer(gracht_client_t*, gracht_buffer_t*);
int gracht_client_get_status_buffer(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
int gracht_client_status_finalize(gracht_client_t* client, struct gracht_buffer*);
int gracht_client_invoke(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
}

namespace vf {
enum { HDR = 11, T_SYNC = 0, T_ASYNC = 1, T_EVENT = 2, T_RESPONSE = 3 };

inline void put32(std::string& s, uint32_t v) { s.append((const char*)&v, 4); }
inline void put16(std::string& s, uint16_t v) { s.append((const char*)&v, 2); }
inline uint32_t get32(const char* p) { uint32_t v; memcpy(&v, p, 4); return v; }
inline uint16_t get16(const char* p) { uint16_t v; memcpy(&v, p, 2); return v; }

struct Frame { uint32_t id = 0; uint8_t sid = 0, aid = 0, flags = 0; std::string payload; };
std::string make_frame(uint32_t id, uint8_t sid, uint8_t aid, uint8_t flags, const std::string& payload);
std::string pattern(uint32_t tag, uint32_t n);                 // n deterministic bytes
std::string body(uint32_t tag, uint32_t n);                    // [tag][n][pattern][check]  (12 + n bytes)
// verifies a body at p with at most max bytes available; returns total size or 0
uint32_t check_body(const char* p, uint32_t max, uint32_t* tag);

struct Addr { sockaddr_storage ss; socklen_t len; };
Addr unix_addr(const char* what, bool full = false); // fresh abstract address
uint16_t fresh_port(); // of the addresses of inet_addr_free
Addr inet_addr_free(int type);     // loopback with a free port

// A peer speaking raw bytes on a stream.
struct Peer {
    int fd = -1; bool eof = false, dgram = false; std::string in; // dgram: one message per packet
    std::deque<Frame> frames; bool bad = false; std::string bad_why, rest;
    bool connect(const Addr& a);
    bool send(const std::string& b);         // blocking (fiber) send of everything; false when the peer is gone
    ssize_t send_some(const char* b, size_t n);
    bool send_packet(const std::string& b);
    bool pump();                             // read what is there; true if something arrived
    void close();
    void reset();                            // abortive close (unread data pending where possible)
    void half_close() { ::shutdown(fd, SHUT_WR); }
};

// A server under test.
struct SrvCfg {
    int workers = 1, max = 2048; bool external = false; bool callbacks = false;
    bool stream = true, packet = false; bool packet_inet = false; int extra_streams = 0;
};
struct Srv {
    gracht_server_t* s = nullptr; SrvCfg cfg; Addr addr{}, paddr{}; int fiber = -1; bool returned = false; int ret = 0; int epfd = -1;
    std::vector<Addr> more; std::function<void()> on_return; std::function<void(gracht_server_t*)> between; // called between the events of an external loop
    void start(const SrvCfg&);
    void kick(); // make an event happen so that a requested shutdown is noticed
};
extern std::function<void(gracht_conn_t)> on_connected, on_disconnected;

// A client under test.
gracht_client_t* make_client(const Addr& a, int max = 0, int arena = 0, bool packet = false, int domain = AF_LOCAL, bool doconnect = true, void* sendbuf = nullptr);

// Listener for scripted servers (client-side properties)
// an operation that may fail for want of resources, but then must leave nothing behind; tried again until it succeeds
template <class F> void insist(const char* what, F op) {
    for (int i = 0;; i++) {
        Resources b = resources(); int t = library_threads(); uint64_t n = shortages();
        if (!op()) return;
        if (shortages() == n) fail("%s failed (errno %d)", what, errno);
        Resources a = resources(); count("operations refused for want of resources");
        if (a.blocks > b.blocks || a.fds > b.fds || library_threads() > t) fail("%s failed for want of resources and left %lld blocks, %lld descriptors and %d threads behind", what, (long long)(a.blocks - b.blocks), (long long)(a.fds - b.fds), library_threads() - t);
        if (i == 8) { relieve(true); Resources c = resources(); int r = op(); relieve(false); (void)c; if (r) fail("%s failed (errno %d) although resources were available again", what, errno); return; }
    }
}
extern int link_trouble; // failing attempts before a server link can be added
struct Listener { int fd = -1; bool dgram = false; Addr addr; void open(const char* what, bool dgram = false); void open_at(const Addr& a, bool dgram = false); Peer accept(int client_fd = -1); };
// waiting may also end because of a signal, with nothing lost
inline int wait_msg(gracht_client_t* c, struct gracht_message_context* x, unsigned f) { for (;;) { int r = gracht_client_wait_message(c, x, f); if (!r || errno != EINTR || !interruptions()) return r; } }
inline int await_msg(gracht_client_t* c, struct gracht_message_context* x, unsigned f) { for (;;) { int r = gracht_client_await(c, x, f); if (!r || errno != EINTR || !interruptions()) return r; } }
inline int await_msgs(gracht_client_t* c, struct gracht_message_context** x, int n, unsigned f) { for (;;) { int r = gracht_client_await_multiple(c, x, n, f); if (!r || errno != EINTR || !interruptions()) return r; } }
} // namespace vf
