#include "server_model.h"
using namespace vf;
static void fresh(Model*& m) { static Model* old; delete old; m = old = new Model; on_connected = nullptr; on_disconnected = nullptr; }
static void common(Weights& w) { w.big = w.crowd = w.tiny = true; }
#define CFG "a case is one server configuration (0-4 workers, message limit, own or external event loop, 1-2 stream links), 1-8 raw clients and a generated history under a generated schedule; "

static void c03() {
    if (packet_share("C03")) return;
    Model* m; fresh(m); Weights w; w.batch = 14; w.quiesce = 3; w.beh[ECHO] = 10; w.beh[SILENT] = 4; w.beh[SLOW] = 4; w.max_batch = 10;
    if (chance(1, 5)) { w.max_batch = 60; w.max_ops = 24; w.min_ops = 8; } // long pipelines
    if (chance(1, 12)) w.flood = 2;
    common(w); m->run(w);
    if (m->handled_total >= 4 && (m->cfg.workers > 1 ? m->inflight_max >= 2 : true)) nontrivial();
    if (m->max_running > 1) count("cases with handlers overlapping");
}
static Register r03("C03", CFG "requests of random sizes are pipelined by all clients. Non-trivial: at least 4 requests executed, with workers also at least 2 in flight at once", c03);

static void c04() {
    if (packet_share("C04")) return;
    Model* m; fresh(m); Weights w; w.connect = 3; w.disconnect = 3; w.batch = 12; w.targeted = 3; w.quiesce = 2; w.release = 3; w.unserveable = 1; w.min_clients = 2; w.max_clients = 5;
    w.beh[ECHO] = 10; w.beh[SILENT] = 1; w.beh[DEFER] = 4; w.beh[ECHO_EVENT] = 5; w.beh[SLOW] = 5; w.beh[EVENT_ONLY] = 2; w.max_ops = 20;
    common(w); m->run(w);
    if (m->cl.size() >= 3 && m->handled_total >= 4) nontrivial();
    count("answers given after the caller had left", m->late_answers); count("handle reuses", m->reuses); count("clients that left busy", m->gone_busy);
}
static Register r04("C04", CFG "clients connect and leave while requests, deferred answers and targeted events are in progress. Non-trivial: at least 3 clients took part and at least 4 requests executed", c04);

static void c05() {
    if (packet_share("C05")) return;
    Model* m; fresh(m); Weights w; w.connect = 2; w.disconnect = 1; w.batch = 3; w.subscribe = 10; w.bcast = 10; w.quiesce = 1; w.min_clients = 1; w.max_clients = 5; w.max_ops = 24;
    w.beh[ECHO] = 4; w.beh[SILENT] = 1; w.beh[SLOW] = 2; w.beh[BCAST] = 0; w.max_batch = 4;
    if (chance(1, 3)) { w.connect = w.disconnect = w.subscribe = 0; w.beh[BCAST] = 8; w.min_clients = 2; w.batch = 10; } // broadcasts from handlers
    else if (chance(1, 2)) { w.storm = true; w.connect = w.disconnect = 4; w.subscribe = 4; w.batch = 10; w.bcast = 5; w.beh[BCAST] = 8; w.min_clients = 2; w.min_ops = 6; } // while clients come, go and change their mind
    common(w); m->run(w);
    if (m->ev_seq >= 2 && (m->bc_selective || w.beh[BCAST])) nontrivial();
    count("broadcasts", m->ev_seq); count("clients coming or changing their subscriptions during a broadcast", m->bc_flux); count("broadcasts that some clients must not get", m->bc_selective);
}
static Register r05("C05", CFG "clients subscribe and unsubscribe to single services and to all while events are broadcast by the application and by handlers. Non-trivial: at least 2 broadcasts, one of them with a subscribed and an unsubscribed client connected (or broadcast from a handler)", c05);

static void c06s() {
    Model* m; fresh(m); Weights w; w.batch = 14; w.quiesce = 3; w.segment = 12; w.max_batch = 5; w.max_clients = 2; w.max_ops = 10; w.min_ops = 2; w.external = false;
    w.beh[ECHO] = 10; w.beh[SILENT] = 4; w.beh[SLOW] = 1;
    common(w); m->run(w);
    if (m->handled_total >= 2) nontrivial();
}
void c06_client();
static void c06() { if (chance(1, 2)) c06_client(); else c06s(); }
static Register r06("C06", "a case delivers a sequence of frames in randomly cut segments with the receiver running between them: half the cases to a server from raw clients, half to a real client from a scripted server while it polls or waits. Non-trivial: at least 2 messages whose bytes were cut", c06);

void c07_client();
static void c07() {
    if (chance(1, 4)) { c07_client(); return; }
    Model* m; fresh(m); Weights w; w.batch = 10; w.hostile = 10; w.quiesce = 3; w.connect = 1; w.bcast = 1; w.min_clients = 1; w.max_clients = 3; w.max_ops = 20; w.packet = true;
    w.beh[ECHO] = 10; w.beh[SILENT] = 2; w.beh[SLOW] = 3; w.beh[DEFER] = 1; w.release = 1;
    common(w); m->run(w);
    if (m->n_hostile >= 1 && m->handled_total >= 2) nontrivial();
    count("hostile acts", m->n_hostile); count("frames with invalid length", m->n_invalid); count("frames left incomplete", m->n_stall); count("odd datagrams", m->n_dgram); count("odd frames handled", m->hostile_calls);
}
static Register r07("C07", CFG "peers that send invalid lengths, incomplete frames, unknown types, services and control messages, garbage and malformed datagrams act between the requests of well-behaved clients; a quarter of the cases feed malformed frames or datagrams to a client. Non-trivial: at least 1 hostile act and 2 requests executed (clients: a malformed frame after valid ones)", c07);

static void c08() {
    if (packet_share("C08")) return;
    Model* m; fresh(m); Weights w; w.connect = 4; w.disconnect = 5; w.batch = 12; w.targeted = 2; w.partial = 4; w.quiesce = 2; w.release = 2; w.bcast = 1; w.min_clients = 1; w.max_clients = 5; w.max_ops = 22;
    w.beh[ECHO] = 10; w.beh[SILENT] = 2; w.beh[DEFER] = 3; w.beh[ECHO_EVENT] = 2; w.beh[SLOW] = 6; w.fd_check = true; w.flood = chance(1, 8) ? 3 : 0; w.unserveable = 1;
    common(w); m->run(w);
    if (m->gone_busy >= 1) nontrivial();
    count("clients that left with requests in progress", m->gone_busy); count("answers given after the caller had left", m->late_answers);
}
static Register r08("C08", CFG "clients close, half-close or abandon frames midway at arbitrary points with requests queued, executing, deferred or unread. Non-trivial: at least one client left with requests in progress", c08);

static void c09() {
    if (packet_share("C09")) return;
    Model* m; fresh(m); Weights w; w.batch = 12; w.regs = 6; w.unserveable = 7; w.quiesce = 2; w.connect = 1; w.max_ops = 20; w.flood = chance(1, 10) ? 2 : 0;
    w.beh[ECHO] = 10; w.beh[SILENT] = 2; w.beh[SLOW] = 2;
    common(w); m->run(w);
    if (m->unserved >= 1 && m->handled_total >= 1) nontrivial();
    count("unserveable requests", m->unserved);
}
static Register r09("C09", CFG "services are registered, unregistered and replaced while clients call existing and missing services and functions. Non-trivial: at least one unserveable and one serveable request", c09);

static void c19() {
    if (packet_share("C19")) return;
    Model* m; fresh(m); Weights w; w.batch = 12; w.release = 8; w.quiesce = 3; w.disconnect = chance(1, 2); w.connect = 1; w.min_clients = 1; w.max_clients = 4; w.max_ops = 24;
    w.beh[ECHO] = 4; w.beh[SILENT] = 1; w.beh[DEFER] = 10; w.beh[RELEASE] = 4; w.beh[SLOW] = 2;
    common(w); m->run(w);
    if (m->deferred_total >= 2) nontrivial();
    count("requests deferred", m->deferred_total);
}
static Register r19("C19", CFG "requests are set aside and answered later in arbitrary order, by the application or from other handlers. Non-trivial: at least 2 requests were deferred", c19);

static void c21() {
    if (packet_share("C21")) return;
    Model* m; fresh(m); Weights w; w.connect = 6; w.disconnect = 6; w.batch = 8; w.partial = 2; w.quiesce = 3; w.min_clients = 1; w.max_clients = 5; w.max_ops = 22; w.callbacks = true; w.subscribe = 2;
    w.beh[ECHO] = 10; w.beh[SILENT] = 2; w.beh[SLOW] = 3;
    common(w); m->run(w);
    if (m->n_disc >= 1 && m->n_conn >= 2) nontrivial();
    count("arrivals reported", m->n_conn); count("departures reported", m->n_disc);
}
static Register r21("C21", CFG "with connection callbacks installed, clients come, call, (un)subscribe and leave. Non-trivial: at least 2 arrivals and 1 departure reported", c21);

void c22_client();
static void c22s() {
    interrupts(true); if (packet_share("C22")) return;
    Model* m; fresh(m); Weights w; w.batch = 12; w.quiesce = 3; w.subscribe = 2; w.bcast = 2; w.targeted = 2; w.unserveable = 2; w.connect = 1; w.disconnect = chance(1, 3); w.release = 2; w.flood = chance(1, 3) ? 3 : 0; w.max_ops = 20;
    w.beh[ECHO] = 10; w.beh[SILENT] = 2; w.beh[DEFER] = 2; w.beh[SLOW] = 2; w.beh[ECHO_EVENT] = 2;
    common(w); m->run(w);
    if (m->handled_total >= 2) nontrivial();
}
static void c22() { if (choose(2)) c22_client(); else c22s(); if (!interruptions()) nontrivial(false); count("interrupted system calls", interruptions()); }
static Register r22("C22", "a case is a history of a server (as in C03-C05, C09, C13, C19) or of a client (as in C02, C06, C10, C20) in which a third of the system calls that would wait end early, as if a handled signal had arrived: with EINTR, or with a part of the data. Non-trivial: at least one call was interrupted and the rule of that history is met", c22);
