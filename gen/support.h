// Shared by all generated drivers: value sources, allocation tracking, fixtures.
#pragma once
#include <gracht/client.h>
#include <gracht/server.h>
#include <stdint.h>
#include <stddef.h>
struct op { int fn; uint64_t seed, rseed; int budget, rbudget; int tight; int how, defer; volatile int handled; };
extern int vf_packet; void vf_later(struct gracht_message*, struct op*, void (*)(struct gracht_message*, struct op*)); void vf_answer_later(void);
extern struct op vf_ops[]; extern int vf_nops;
extern volatile int vf_head, vf_ehead, vf_failed; extern int vf_mode17;
extern gracht_server_t* vf_server; extern gracht_client_t* vf_client; extern volatile gracht_conn_t vf_conn;
void vf_seed(uint64_t seed, int budget);
uint64_t r_bits(int bits);          // edge values and random ones
uint32_t r_n(uint32_t n);           // 0..n-1
uint32_t r_count(uint32_t elem, int nested);
char* r_str(void);
void* ar(size_t n);                 // arena of the calling thread
void ar_reset(void);
void fail01(const char* fmt, ...); void fail17(const char* fmt, ...);
long vf_live(void); const char* vf_live_what(void);
int eq_str(const char* a, const char* b);
uint64_t vf_hash(uint64_t a, uint64_t b);
void vf_start(void);                // server, client, connection
void vf_register_server(gracht_protocol_t*); void vf_register_client(gracht_protocol_t*);
void vf_await(struct gracht_message_context** c, int n, int how);
void vf_pump_event(void);
struct op* vf_next(int fn, const char* name); struct op* vf_enext(int fn, const char* name);
// the bytes the next message must have
extern int vf_wire; void wput(const void* p, size_t n); void wput_u8(unsigned v); void wput_u32(uint32_t v); void wput_str(const char* s); void wmask(size_t n); void vf_expect(int sid, int aid, int flags); void vf_expected(const char* what);
void fail27(const char* fmt, ...);
