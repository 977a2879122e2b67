// Reference model of a gracht server with stream clients; drives the real server and compares.
#pragma once
#include "world.h"
#include <bitset>
#include <unordered_map>
namespace vf {
enum Beh { ECHO, SILENT, DEFER, ECHO_EVENT, BCAST, RELEASE, SLOW, EVENT_ONLY, SHUTDOWN_REQ, NBEH };

struct Req {
    uint32_t tag, id; int client; int svc; uint8_t sid, aid, flags; int beh, arg; uint32_t n, respn; uint64_t seq;
    bool unserveable = false; int ver = 0; int handled = 0, responded = 0, errors = 0; bool answered = false; bool maybe = false; bool released = false; int tiny = -1; int idgot = 0;
};
struct Ev { uint32_t tag; uint8_t sid; int target; std::vector<char> must, may; std::vector<char> got; uint64_t seq; uint32_t n; bool from_main; int handle; uint64_t chg = 0; };
struct Cl {
    Peer p; bool open = false, gone = false; uint32_t next_id = 1; int handle = -1; std::bitset<256> subs; uint64_t last_seq = 0; uint64_t last_ev = 0;
    std::unordered_map<uint32_t, uint32_t> by_id; size_t bytes = 0; int outstanding = 0; int events = 0; bool malformed = false, cut = false; int link = 0; std::deque<uint32_t> nil; uint32_t slot[256] = {0}; uint8_t next_slot = 0; uint64_t chg = 0, quiet = 0;
};
struct Svc { uint8_t sid; std::vector<uint8_t> aids; int registered = -1; /* version or -1 */ gracht_protocol_function_t fn[2][6]; uint8_t tiny[2]; gracht_protocol_t proto[2]; int nfn[2]; };
struct Deferred { struct gracht_message* m; uint32_t tag; };

struct Weights {
    uint32_t connect = 0, disconnect = 0, batch = 10, subscribe = 0, bcast = 0, targeted = 0, regs = 0, unserveable = 0, release = 0, quiesce = 2, partial = 0, hostile = 0, flood = 0;
    uint32_t beh[NBEH] = {10, 3, 0, 0, 0, 0, 3, 0, 0};
    int min_clients = 1, max_clients = 4, min_ops = 3, max_ops = 14, max_batch = 6, segment = 0; bool callbacks = false; bool external = true; int max_workers = 4; bool concurrent = true;
    bool fd_check = false; int fixed_workers = -1; bool packet = false; bool big = false, crowd = false, tiny = false, storm = false;
};

struct Model {
    Srv srv; SrvCfg cfg; Weights w; std::vector<std::unique_ptr<Cl>> cl; std::unordered_map<uint32_t, Req> reqs; std::vector<Svc> svc; std::map<uint32_t, Ev> evs; std::vector<Deferred> deferred;
    uint32_t next_tag = 1; uint64_t seq = 0, ev_seq = 0; uint64_t base_fds = 0; std::map<int, int> conn_state; uint64_t n_conn = 0, n_disc = 0; int connects = 0; int running = 0, max_running = 0;
    bool overlapped = false; uint64_t handled_total = 0; bool shutdown_requested = false; bool forbid_handlers = false; int in_handler = 0; std::map<int, int> handle_owner; int inflight_max = 0; uint64_t quiesces = 0, chgs = 0, calms = 1, bc_flux = 0; bool tiny = false; int crowd = 8; uint64_t tiny_total = 0; uint64_t late_answers = 0, reuses = 0, unserved = 0, bc_selective = 0, gone_busy = 0, deferred_total = 0;
    bool st() const { return cfg.workers <= 1; }
    void start(const Weights&);
    int  connect();
    void on_tiny(int s, int t, int v, struct gracht_message* m, gracht_buffer_t* b);
    void act(uint32_t tag, int s, struct gracht_message* m);
    void make_room(size_t bytes);
    void on_call(int s, int a, int v, struct gracht_message* m, gracht_buffer_t* b);
    std::string request(int c, int s, uint8_t aid, int beh, uint32_t n, uint32_t respn, int arg, bool unserveable);
    void send(int c, const std::string& bytes, int segs);
    void batch(int c);
    void flood(int c);
    void hostile();
    std::vector<std::unique_ptr<Peer>> bad; int dgram = -1; uint64_t n_hostile = 0, n_invalid = 0, n_stall = 0, n_dgram = 0, hostile_calls = 0;
    void respond(struct gracht_message* m, Req& r);
    void event(int target_client, gracht_conn_t h, uint8_t sid, bool bcast, bool from_main, unsigned flags);
    void release(size_t k, bool from_main = true);
    void on_frame(int c, const Frame& f);
    bool pump();
    void quiesce();
    void verify();
    void op();
    void run(const Weights&);
    void disconnect(int c, int how);
    int  pick_open();
};
extern Model* M;
} // namespace vf
bool packet_share(const char* pid); // runs the case on a packet link in a share of the cases
