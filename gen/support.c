#define _GNU_SOURCE
#include "support.h"
#include <gracht/link/socket.h>
#include <utils.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#define VF_MAX 400000
struct op vf_ops[4096]; int vf_nops; volatile int vf_head, vf_ehead, vf_failed; int vf_mode17;
gracht_server_t* vf_server; gracht_client_t* vf_client; volatile gracht_conn_t vf_conn = GRACHT_CONN_INVALID;
static __thread uint64_t S; static __thread int budget;
static uint64_t next(void) { uint64_t z = (S += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t vf_hash(uint64_t a, uint64_t b) { uint64_t s = S, r; S = a * 0x9e3779b97f4a7c15ull + b; r = next(); S = s; return r; }
void vf_seed(uint64_t s, int b) { S = s; budget = b; }
uint32_t r_n(uint32_t n) { return n ? next() % n : 0; }
uint64_t r_bits(int bits) {
    uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
    switch (next() % 8) { case 0: return 0; case 1: return m; case 2: return 1ull << (bits - 1); case 3: return (1ull << (bits - 1)) - 1; case 4: return next() % 256 & m; case 5: return 1; default: return next() & m; }
}
uint32_t r_count(uint32_t elem, int nested) {
    uint32_t c; if (!elem) elem = 1;
    switch (next() % 8) { case 0: c = 0; break; case 1: c = 1; break; case 2: case 3: case 4: c = 2 + next() % 4; break; case 5: case 6: c = next() % 20; break; default: c = nested ? (budget > 8000 && !(next() % 8) ? next() % 300 : next() % 6) : next() % 600; }
    if (budget > 65536 && !nested && elem <= 2 && next() % 2) c = 65536 + next() % 700; // more than 16 bits can count
    if (nested > 2) c = c > 1 ? next() % 2 : c;
    if ((int64_t)c * elem > budget) c = budget > 0 ? budget / elem : 0;
    budget -= (int)(c * elem); return c;
}
char* r_str(void) {
    uint32_t n, i; char* s;
    switch (next() % 8) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = next() % 300; break; default: n = next() % 24; }
    if (budget > 65536 && next() % 2) n = 65530 + next() % 700;
    if ((int)n > budget) n = budget > 0 ? budget : 0;
    budget -= n; s = ar(n + 1);
    for (i = 0; i < n; i++) s[i] = next() % 4 ? 'a' + next() % 26 : 1 + next() % 255;
    s[n] = 0; return s;
}
static __thread void** ptrs_; static __thread size_t np_, cap_;
static void vf_ar_push(void* p) { if (np_ == cap_) { cap_ = cap_ ? cap_ * 2 : 256; ptrs_ = realloc(ptrs_, cap_ * sizeof(void*)); } ptrs_[np_++] = p; }
void* ar(size_t n) { void* p = malloc(n ? n : 1); vf_ar_push(p); return p; } // exact blocks, so that a read past the end is seen
void ar_reset(void) { while (np_) free(ptrs_[--np_]); }
static void vfail(const char* which, const char* fmt, va_list ap) {
    char b[1024]; int n = snprintf(b, sizeof b, "FAIL %s ", which); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); if (n > (int)sizeof b - 2) n = sizeof b - 2; b[n++] = '\n';
    if (write(1, b, n)) {} vf_failed = 1; _exit(1);
}
void fail01(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail("C01", fmt, ap); va_end(ap); }
void fail27(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail("C27", fmt, ap); va_end(ap); }
void fail17(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail("C17", fmt, ap); va_end(ap); }
int eq_str(const char* a, const char* b) { return !strcmp(a ? a : "", b ? b : ""); }

// allocations of generated code
static pthread_mutex_t tm = PTHREAD_MUTEX_INITIALIZER;
enum { NB = 1 << 14 }; struct tr { void* p; size_t n; struct tr* next; }; static struct tr* tab[NB]; static long live_;
static unsigned hp(void* p) { return ((uintptr_t)p >> 4) * 2654435761u >> 7 & (NB - 1); }
static void* track(void* p, size_t n) { if (!p) return p; struct tr* t = malloc(sizeof *t); t->p = p; t->n = n; pthread_mutex_lock(&tm); t->next = tab[hp(p)]; tab[hp(p)] = t; live_++; pthread_mutex_unlock(&tm); return p; }
static void untrack(void* p) { if (!p) return; pthread_mutex_lock(&tm); for (struct tr** q = &tab[hp(p)]; *q; q = &(*q)->next) if ((*q)->p == p) { struct tr* t = *q; *q = t->next; free(t); live_--; break; } pthread_mutex_unlock(&tm); }
void* vf_malloc(size_t n) { void* p = track(malloc(n), n); if (p) memset(p, 0xA5, n); return p; }
void* vf_calloc(size_t a, size_t b) { return track(calloc(a, b), a * b); }
void* vf_realloc(void* o, size_t n) { untrack(o); return track(realloc(o, n), n); }
void vf_free(void* p) { untrack(p); free(p); }
char* vf_strdup(const char* s) { return track(strdup(s), strlen(s) + 1); }
char* vf_strndup(const char* s, size_t n) { char* p = strndup(s, n); return track(p, strlen(p) + 1); }
long vf_live(void) { pthread_mutex_lock(&tm); long l = live_; pthread_mutex_unlock(&tm); return l; }
const char* vf_live_what(void) { static char b[200]; int n = 0; pthread_mutex_lock(&tm); for (int i = 0; i < NB && n < 150; i++) for (struct tr* t = tab[i]; t && n < 150; t = t->next) n += snprintf(b + n, sizeof b - n, "%zu bytes; ", t->n); pthread_mutex_unlock(&tm); return b; }

struct op* vf_next(int fn, const char* name) {
    if (vf_head >= vf_nops) fail01("handler %s was called although no call is outstanding", name);
    struct op* o = &vf_ops[vf_head];
    while (o->fn < 0 && vf_head < vf_nops) o = &vf_ops[++vf_head];
    if (o->fn != fn) fail01("handler %s (%d) was called for a call of function %d", name, fn, o->fn);
    vf_head++; o->handled++; return o;
}
struct op* vf_enext(int fn, const char* name) {
    struct op* o = &vf_ops[vf_ehead];
    if (o->fn != fn) fail01("event handler %s (%d) was called for event %d", name, fn, o->fn);
    o->handled++; return o;
}
// answers set aside, given when the next ping is handled, last first
int vf_packet; static struct { struct gracht_message* m; struct op* op; void (*fn)(struct gracht_message*, struct op*); } later[16]; static int nlater;
void vf_later(struct gracht_message* m, struct op* op, void (*fn)(struct gracht_message*, struct op*)) { struct gracht_message* d = (malloc)(GRACHT_MESSAGE_DEFERRABLE_SIZE(m)); gracht_server_defer_message(m, d); later[nlater].m = d; later[nlater].op = op; later[nlater++].fn = fn; }
void vf_answer_later(void) { while (nlater) { nlater--; later[nlater].fn(later[nlater].m, later[nlater].op); (free)(later[nlater].m); } }
static void connected(gracht_conn_t c) { vf_conn = c; }
static void gone(gracht_conn_t c) {}
static void* loop(void* a) { gracht_server_main_loop(vf_server); return 0; }
static void on_alarm(int s) { static const char m[] = "FAIL C01 no progress: a value never arrived\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
static gracht_protocol_t* cps[64]; static int ncps; static gracht_protocol_t* sps[64]; static int nsps;
void vf_register_server(gracht_protocol_t* p) { sps[nsps++] = p; }
void vf_register_client(gracht_protocol_t* p) { cps[ncps++] = p; }
static void watch(struct gracht_link* l, int server);
static void trouble(const char* w) { printf("TROUBLE %s\n", w); fflush(stdout); _exit(3); }
void vf_start(void) {
    struct sockaddr_storage ss; struct sockaddr_un* a = (void*)&ss; memset(&ss, 0, sizeof ss); a->sun_family = AF_LOCAL;
    snprintf(a->sun_path + 1, sizeof a->sun_path - 1, "vfgen-%d", getpid());
    signal(SIGALRM, on_alarm); alarm(60);
    struct gracht_server_configuration sc; gracht_server_configuration_init(&sc); gracht_server_configuration_set_max_msg_size(&sc, VF_MAX); sc.callbacks.clientConnected = connected; sc.callbacks.clientDisconnected = gone;
    if (gracht_server_create(&sc, &vf_server)) trouble("server");
    struct gracht_link_socket* l; gracht_link_socket_create(&l); gracht_link_socket_set_type(l, vf_packet ? gracht_link_packet_based : gracht_link_stream_based); gracht_link_socket_set_address(l, &ss, sizeof *a); gracht_link_socket_set_listen(l, 1); gracht_link_socket_set_domain(l, AF_LOCAL);
    watch((struct gracht_link*)l, 1);
    if (gracht_server_add_link(vf_server, (struct gracht_link*)l)) trouble("link");
    for (int i = 0; i < nsps; i++) if (gracht_server_register_protocol(vf_server, sps[i])) fail01("the protocol %s cannot be registered with the server", sps[i]->name);
    pthread_t t; pthread_create(&t, 0, loop, 0);
    struct gracht_client_configuration cc; gracht_client_configuration_init(&cc); gracht_client_configuration_set_max_msg_size(&cc, VF_MAX); cc.recv_buffer_size = VF_MAX * 12;
    struct gracht_link_socket* c; gracht_link_socket_create(&c); gracht_link_socket_set_type(c, vf_packet ? gracht_link_packet_based : gracht_link_stream_based); gracht_link_socket_set_address(c, &ss, sizeof *a); gracht_link_socket_set_domain(c, AF_LOCAL);
    watch((struct gracht_link*)c, 0);
    gracht_client_configuration_set_link(&cc, (struct gracht_link*)c);
    if (gracht_client_create(&cc, &vf_client)) trouble("client");
    for (int i = 0; i < ncps; i++) if (gracht_client_register_protocol(vf_client, cps[i])) fail01("the protocol %s cannot be registered with the client", cps[i]->name);
    if (gracht_client_connect(vf_client)) trouble("connect");
}
void vf_await(struct gracht_message_context** c, int n, int how) { if (n == 1) gracht_client_await(vf_client, c[0], 0); else gracht_client_await_multiple(vf_client, c, n, GRACHT_AWAIT_ALL); }
void vf_pump_event(void) { int h = vf_ops[vf_ehead].handled; while (vf_ops[vf_ehead].handled == h) if (gracht_client_wait_message(vf_client, NULL, GRACHT_MESSAGE_BLOCK)) usleep(1000); }

// ---- the wire format: what a message must consist of is put together by the driver, independently of the generated code
int vf_wire; static struct gracht_link sv, sl; static __thread unsigned char *wb, *wm; static __thread size_t wn, wc; static __thread int wset;
static void wroom(size_t n) { if (wn + n > wc) { wc = (wn + n) * 2 + 4096; wb = realloc(wb, wc); wm = realloc(wm, wc); } }
void wput(const void* p, size_t n) { wroom(n); if (n) memcpy(wb + wn, p, n); memset(wm + wn, 1, n); wn += n; }
void wput_u8(unsigned v) { unsigned char c = (unsigned char)v; wput(&c, 1); }
void wput_u32(uint32_t v) { unsigned char c[4] = {v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24 & 255}; wput(c, 4); }
void wput_str(const char* s) { size_t n = s ? strlen(s) : 0; wput_u32((uint32_t)n); wput(s, n); wput_u8(0); }
void wmask(size_t n) { wroom(n); memset(wm + wn, 0, n); wn += n; } // bytes without meaning
void vf_expect(int sid, int aid, int flags) { wn = 0; wset = 1; wmask(8); wput_u8(sid); wput_u8(aid); wput_u8(flags); }
void vf_expected(const char* what) { if (wset && what) fail27("%s was not sent", what); wset = 0; } // (an event for the subscribers may have none)
static void wcheck(gracht_buffer_t* b) { // what is handed to the link
    if (!wset) return; wset = 0;
    const unsigned char* d = (const unsigned char*)b->data; uint32_t len = d[4] | d[5] << 8 | d[6] << 16 | (uint32_t)d[7] << 24;
    for (size_t i = 0; i < wn && i < b->index; i++) if (wm[i] && d[i] != wb[i]) fail27("byte %zu of a message of %zu bytes (service %u, action %u, flags %u) is %u instead of %u", i, wn, wb[8], wb[9], wb[10], d[i], wb[i]);
    if (b->index != wn || len != wn) fail27("a message (service %u, action %u, flags %u) has %u bytes and says it has %u instead of %zu", wb[8], wb[9], wb[10], (unsigned)b->index, len, wn);
}
static int client_send(struct gracht_link* l, struct gracht_buffer* b, void* x) { wcheck(b); return sl.ops.client.send(l, b, x); }
static int server_send_client(struct gracht_server_client* c, struct gracht_buffer* b, unsigned int f) { wcheck(b); return sv.ops.server.send_client(c, b, f); }
static int server_send(struct gracht_link* l, struct gracht_message* m, struct gracht_buffer* b) { wcheck(b); return sv.ops.server.send(l, m, b); }
static void watch(struct gracht_link* l, int server) {
    if (!vf_wire) return;
    if (server) { sv = *l; l->ops.server.send_client = server_send_client; l->ops.server.send = server_send; } else { sl = *l; l->ops.client.send = client_send; }
}
