// Applications, raw wire-level peers and the scheduler on top of the simulated system.
#include "world.h"
#include <algorithm>
#include <arpa/inet.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>

static const uint32_t GROUP = 0xE0010101u;
static const int PORT = 5007;
static const size_t BUF_CAP = RMC_MAX_PACKET - 1;
static std::string S(uint64_t v) { return std::to_string(v); }
static std::string ipstr(uint32_t ip) {
    char b[32];
    snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255);
    return b;
}
static uint64_t hbytes(uint64_t h, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull; return h; }
static void put(std::vector<uint8_t>& o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o.push_back((uint8_t) (v >> (8 * i))); }
static uint16_t le16(const uint8_t* p) { return (uint16_t) (p[0] | p[1] << 8); }
static uint64_t le64(const uint8_t* p) { uint64_t v = 0; for (int i = 7; i >= 0; --i) v = v << 8 | p[i]; return v; }

// ---- callbacks ------------------------------------------------------------------------------------------------------

static App* cur_app(const char* what) {
    World* w = g_world;
    if (w->sim.cur < 0) { w->violation("R23,R21", std::string(what) + " outside of a library call"); return nullptr; }
    return w->apps[(size_t) w->sim.cur].get();
}
static void check_token(App& a, user_data_t ud, const char* what) {
    if (ud.u64 != a.token) g_world->violation("R23", std::string(what) + " gets user data " + S(ud.u64) + ", current is " + S(a.token));
}

static void cb_poll_add(user_data_t ud, int fd, rmc_index_t idx, rmc_poll_action_t act) {
    World* w = g_world;
    App* a = cur_app("poll add callback");
    if (!a) return;
    ++w->st.checks;
    check_token(*a, ud, "poll add callback");
    w->trace("poll-add", fd, idx, act);
    if (a->regs.count(idx)) w->violation("R16", "index " + S(idx) + " is added twice");
    for (auto& r : a->regs) if (r.second.fd == fd && r.first != idx) w->violation("R16", "a descriptor is added under two indexes");
    Sock* s = w->sim.get(fd);
    if (!s || s->owner != a->id) { w->violation("R16", "a descriptor that is not open is added"); return; }
    if (s->kind == K_UDP ? idx != RMC_MULTICAST_INDEX : s->kind == K_LISTEN ? idx != RMC_LISTEN_INDEX : idx >= a->cap)
        w->violation("R16", "index " + S(idx) + " does not fit the kind of the descriptor");
    if (act & ~3) w->violation("R16", "undefined poll action");
    Reg r;
    r.fd = fd; r.act = act; r.armed = true; r.gen = ++w->gen;
    a->regs[idx] = r;
    a->cool.erase(idx);
}

static void cb_poll_modify(user_data_t ud, int fd, rmc_index_t idx, rmc_poll_action_t old, rmc_poll_action_t act) {
    World* w = g_world;
    App* a = cur_app("poll modify callback");
    if (!a) return;
    ++w->st.checks;
    check_token(*a, ud, "poll modify callback");
    w->trace("poll-mod", fd, idx, act);
    auto it = a->regs.find(idx);
    if (it == a->regs.end() || it->second.fd != fd) {
        w->violation("R16", "poll modify for descriptor " + std::to_string(fd) + ", index " + S(idx) + ", which is not registered");
        return;
    }
    if (act & ~3) w->violation("R16", "undefined poll action");
    if (a->poll_mode == 0 && old == act) return;
    it->second.act = act;
    it->second.armed = true;
}

static void cb_poll_remove(user_data_t ud, int fd, rmc_index_t idx) {
    World* w = g_world;
    App* a = cur_app("poll remove callback");
    if (!a) return;
    ++w->st.checks;
    check_token(*a, ud, "poll remove callback");
    w->trace("poll-rem", fd, idx, 0);
    auto it = a->regs.find(idx);
    if (it == a->regs.end() || it->second.fd != fd) {
        w->violation("R16", "poll remove for descriptor " + std::to_string(fd) + ", index " + S(idx) + ", which is not registered");
        return;
    }
    Sock* s = w->sim.get(fd);
    if (!s || s->owner != a->id) w->violation("R16", "poll remove after the descriptor was closed");
    a->regs.erase(it);
}

static void cb_pub_free(void* p, payload_len_t len, user_data_t ud) {
    World* w = g_world;
    App* a = cur_app("payload free callback");
    if (!a) return;
    if (ud.u64 != a->token && !a->old_tokens.count(ud.u64)) w->violation("R23", "publisher payload free callback gets user data " + S(ud.u64) + ", which was never set");
    auto it = w->live_payload.find(p);
    if (it == w->live_payload.end()) { w->violation("R05,R04", "payload free callback for memory that is not a held payload (released twice?)"); return; }
    w->released(it->second, len, true);
    // An application that sends the next piece as soon as the last one is done with.
    if (!a->thr_s && a->active && !w->call.destroying && !w->draining && a->queued.size() < 40 && w->rng.chance(0.03)) w->queue(*a, w->pick_len());
    if (a->queued.size() < 40 && !w->call.ann_due) w->cb_flush(*a);     // (the announcement of a call is accounted for at its end)
}

static void* cb_sub_alloc(payload_len_t len, user_data_t ud) {
    World* w = g_world;
    App* a = cur_app("payload alloc callback");
    if (!a) abort();
    check_token(*a, ud, "payload alloc callback");
    void* p = malloc(len);
    if (!p) p = malloc(1);
    memset(p, w->sim.garbage, len);
    a->payloads[p] = len;
    return p;
}
static void cb_sub_free(void* p, payload_len_t len, user_data_t ud) {
    World* w = g_world;
    App* a = cur_app("payload free callback");
    if (!a) return;
    check_token(*a, ud, "subscriber payload free callback");
    auto it = a->payloads.find(p);
    if (it == a->payloads.end()) { w->violation("R05", "subscriber payload free callback for memory that is not a live payload"); return; }
    if (it->second != len) w->violation("R05,R23", "subscriber payload of " + S(it->second) + " bytes released with length " + S(len));
    ++w->st.checks;
    a->payloads.erase(it);
    free(p);
}

static App* ctx_app(const void* ctx, const char* what) {
    App* a = cur_app(what);
    if (a && (a->is_pub ? (void*) a->pub : (void*) a->sub) != ctx) { g_world->violation("R23,R21", std::string(what) + " gets a wrong context"); return nullptr; }
    ++g_world->st.checks;
    return a;
}

static uint8_t cb_pub_announce(rmc_pub_context_t* ctx, void* payload, payload_len_t max, payload_len_t* len) {
    World* w = g_world;
    App* a = ctx_app(ctx, "announce callback");
    if (!a) return 0;
    if (!w->call.ann_due || ++w->call.pub_ann_cb > 1) w->violation("R15,R23", "announce callback although no announcement is due");
    if (!a->thr_s && a->active && !w->draining && w->rng.chance(0.05)) w->queue(*a, w->pick_len());
    w->cb_flush(*a);
    if (!w->draining && w->p.w_misc && w->rng.chance(0.03)) w->set_interval(*a, w->rng.chance(0.3) ? 0 : (uint32_t) w->rng.range(1000, 400000));
    if (w->closes(*a))                  // an application that uses the moment to let a subscriber go
        for (auto& s : w->sessions)
            if (s->pub == a->id && s->p_open && w->rng.chance(0.5)) { w->cb_close(*a, s.get()); break; }
    if (w->rng.chance(w->p.decline)) { w->trace("decline", 0, 0, 0); return 0; }
    w->pkts.emplace_back(new Pkt());
    Pkt* k = w->pkts.back().get();
    uint32_t n = (uint32_t) w->rng.below(w->rng.chance(0.1) ? max + 1u : 40);
    if (w->rng.chance(0.02)) n = max;
    if (n > max) n = max;
    k->pub = a->id; k->announce = true; k->len = n; k->seed = w->rng.next();
    fill_payload((uint8_t*) payload, n, k->seed);
    *len = (payload_len_t) n;
    w->call.ann = k;
    return (uint8_t) (1 + w->rng.below(255));
}

static uint8_t cb_pub_connect(rmc_pub_context_t* ctx, uint32_t ip, in_port_t port) {
    World* w = g_world;
    App* a = ctx_app(ctx, "connect callback");
    if (!a) return 1;
    if (w->call.accepted.empty()) { w->violation("R23", "connect callback without a new connection"); return 1; }
    Session* s = w->call.accepted.back();
    if (ip != s->link->cip || port != s->link->cport)
        w->violation("R23", "connect callback reports " + ipstr(ip) + ":" + S(port) + " instead of " + ipstr(s->link->cip) + ":" + S(s->link->cport));
    if (s->p_conn_cb) w->violation("R23", "connect callback twice for one subscriber");
    s->p_conn_cb = true;
    if (!a->thr_s && a->active && !w->draining && w->rng.chance(0.1)) w->queue(*a, w->pick_len());      // an application that greets
    if (a->active && !w->call.closing && w->closes(*a)) {       // an application that makes room, or has enough
        if (w->p.w_react && w->rng.chance(0.3)) { w->cb_deactivate(*a); return (uint8_t) w->rng.below(2); }
        for (auto& o : w->sessions)
            if (o->pub == a->id && o->p_open && (o.get() != s || w->rng.chance(0.2)) && w->rng.chance(0.5)) {
                w->cb_close(*a, o.get());
                if (o.get() == s) return 1;
                break;
            }
    }
    if (w->rng.chance(a->reject)) { s->p_rejected = true; w->trace("reject", 0, 0, 0); return 0; }
    return (uint8_t) (1 + w->rng.below(255));
}

static void cb_pub_disconnect(rmc_pub_context_t* ctx, uint32_t ip, in_port_t port) {
    World* w = g_world;
    App* a = ctx_app(ctx, "disconnect callback");
    if (!a) return;
    for (auto& s : w->sessions)
        if (s->pub == a->id && s->link && s->link->cip == ip && s->link->cport == port && !s->p_disc_cb &&
            (s->p_open || std::find(w->call.closed.begin(), w->call.closed.end(), s.get()) != w->call.closed.end())) {
            s->p_disc_cb = true;
            if (!a->thr_s && a->active && !w->draining && w->rng.chance(0.1)) w->queue(*a, w->pick_len());      // an application that tells the others
            if (a->active && !w->call.closing && w->closes(*a))         // ... or that lets another one go as well
                for (auto& o : w->sessions)
                    if (o->pub == a->id && o->p_open && !o->p_disc_cb && w->rng.chance(0.5)) { w->cb_close(*a, o.get()); break; }
            return;
        }
    w->violation("R23", "disconnect callback for " + ipstr(ip) + ":" + S(port) + ", which is not a connected subscriber");
}

// An application that ends a connection from one of its callbacks.
bool World::closes(App& a) { return !draining && !faulty() && (a.is_pub ? p.w_pubclose : p.w_subclose) > 0 && rng.chance(0.05); }

// Packets in flight in the middle of a call: the resends of a timeout call are accounted for at its beginning.
size_t World::unacked(App& a) {
    size_t n = a.inflight.size();
    for (auto k : call.due) n += !k->released && k->pid;
    return n;
}

void World::cb_close(App& a, Session* s) {
    int idx = -1;
    for (auto& r : a.regs) {
        Sock* k = r.first < (int) a.cap ? sim.get(r.second.fd) : nullptr;
        if (k && k->link && sess_of(k->link) == s) idx = r.first;
    }
    if (idx < 0) return;
    trace("close-in-cb", idx, 0, 0);
    (a.is_pub ? s->p_cause : s->s_cause) = true;
    call.cb_closed = true;
    int rc = a.is_pub ? rmc_pub_close_connection(a.pub, (rmc_index_t) idx) : rmc_sub_close_connection(a.sub, (rmc_index_t) idx);
    if (rc) violation("R20", "closing a connection from a callback returns " + S((uint64_t) rc));
    if (a.regs.count(idx)) violation("R20,R16", "a connection that was closed from a callback is still registered");
    call.inflight0 = unacked(a);
    // What the same read call already took from the channel but did not get to is gone with the connection.
    if (a.is_pub) call.ctl.erase(std::remove_if(call.ctl.begin(), call.ctl.end(), [&](Call::Ctl& c) { return c.s == s; }), call.ctl.end());
    else while (a.ready.size() > (size_t) rmc_sub_get_dispatch_ready_count(a.sub) && a.ready.back().s == s) a.ready.pop_back();
}

// An application that does not wait for its poll loop to send what is queued.
void World::cb_flush(App& a) {
    if (!a.is_pub || !a.active || draining || faulty() || call.closing || call.destroying || !a.regs.count(RMC_MULTICAST_INDEX) || !rng.chance(0.05)) return;
    if (p.hostile && !call.ann_due) return;         // an acknowledgement in the same call can cover packets of the future
    trace("flush-in-cb", a.id, (int64_t) a.queued.size(), 0);
    if (a.suspended && a.inflight.size() <= a.thr_r) call.dipped = true;     // what is sent now may lift the number again
    uint8_t op = 99;
    uint64_t ea = sim.ev_eagain;
    int rc = rmc_pub_write(a.pub, RMC_MULTICAST_INDEX, &op);
    if (op != RMC_WRITE_MULTICAST && op != RMC_ERROR) violation("R28", "a multicast write from a callback reports the operation result " + S(op));
    call.inflight0 = unacked(a);
    if (rc && !faulty() && sim.ev_eagain == ea) violation("R28", "a multicast write from a callback returns " + S((uint64_t) rc));
}

// An application that has seen enough and stops from a callback.
void World::cb_deactivate(App& a) {
    trace("deactivate-in-cb", a.id, 0, 0);
    call.closing = call.cb_closed = true;
    int rc = a.is_pub ? rmc_pub_deactivate_context(a.pub) : rmc_sub_deactivate_context(a.sub);
    if (rc) violation("R20,R22", "deactivation from a callback fails with " + S((uint64_t) rc));
    a.active = false;
    call.ctl.clear();
    call.exp_ann = call.exp_conn = false;
    if (!a.is_pub) {
        a.ready.clear();
        if (!a.payloads.empty()) violation("R05,R20", S(a.payloads.size()) + " undelivered payloads are not released by deactivation from a callback");
    }
    if (!a.regs.empty()) violation("R16,R20", "poll registrations are left after deactivation from a callback");
}

static void cb_pub_control(rmc_pub_context_t* ctx, uint32_t ip, uint16_t port, rmc_node_id_t, void* payload, payload_len_t len) {
    World* w = g_world;
    App* a = ctx_app(ctx, "control message callback");
    if (!a) return;
    auto& q = w->call.ctl;
    while (!q.empty() && q.front().d.empty() && len) q.pop_front();
    if (q.empty()) {
        if (len) w->violation("R11,R12", "control message callback without a complete message");
        return;
    }
    auto c = q.front();
    q.pop_front();
    if (c.d.size() != len || (len && memcmp(c.d.data(), payload, len))) w->violation("R11,R12,R26", "control message callback gets other bytes than were sent");
    if (ip != c.s->link->cip || port != c.s->link->cport)
        w->violation("R11,R23", "control message reported from " + ipstr(ip) + ":" + S(port) + " instead of " + ipstr(c.s->link->cip) + ":" + S(c.s->link->cport));
    ++w->st.ctl;
    if (!a->thr_s && a->active && !w->draining && w->rng.chance(0.1)) w->queue(*a, w->pick_len());      // an application that answers
    w->cb_flush(*a);
    if (w->closes(*a)) w->cb_close(*a, c.s);
    else if (w->p.w_react && w->closes(*a) && a->active) w->cb_deactivate(*a);
}

static uint8_t cb_sub_announce(rmc_sub_context_t* ctx, uint32_t ip, in_port_t port, rmc_node_id_t node, void* payload, payload_len_t len) {
    World* w = g_world;
    App* a = ctx_app(ctx, "announce callback");
    if (!a) return 0;
    auto& c = w->call;
    if (!c.exp_ann || c.ann_called) {
        w->violation("R15,R23", "announcement reported although there is a subscription or connection attempt, or none was received");
        return 0;
    }
    c.ann_called = true;
    if (ip != c.aip || port != c.aport || node != c.anode) w->violation("R15,R23", "announcement reported with wrong address or node id");
    if (len != c.apay.size() || (len && memcmp(payload, c.apay.data(), len))) w->violation("R15,R23,R26", "announcement reported with a wrong payload");
    bool yes = w->draining ? true : !w->rng.chance(a->decline);
    // Peers that are not part of the honest population are refused while the session is being settled.
    if (w->draining && !w->announced_by(*a, ip, port)) yes = false;
    if (w->closes(*a))                  // an application that gives up another publisher for this one
        for (auto& s : w->sessions)
            if (s->sub == a->id && s->s_open && w->rng.chance(0.5)) { w->cb_close(*a, s.get()); break; }
    c.exp_conn = yes && open_subs(*w, *a) < a->cap;
    w->trace("announced", ip, port, yes);
    return yes ? (uint8_t) (w->rng.chance(0.5) ? 1 : 1 + w->rng.below(255)) : 0;
}

static void cb_sub_complete(rmc_sub_context_t* ctx, uint32_t ip, in_port_t port, rmc_node_id_t node) {
    World* w = g_world;
    App* a = ctx_app(ctx, "subscription complete callback");
    if (!a) return;
    auto& c = w->call;
    Session* s = c.writing;
    if (!s || !c.wr_connecting) { w->violation("R23,R15", "subscription complete callback without a connection being completed"); return; }
    if (++c.complete_cb > 1) w->violation("R23", "subscription complete callback fires twice");
    if (!s->link->established || s->link->cerr) w->violation("R23,R15", "subscription complete callback for a failed connection");
    if (ip != s->ip || port != s->port || node != s->node) w->violation("R23,R20", "subscription complete callback with wrong address or node id");
    s->s_connected = true; s->s_complete_cb = true;
    w->trace("complete", ip, port, node);
    if (w->rng.chance(0.3)) w->control(*a, s, 1 + (uint32_t) w->rng.below(50), w->rng.chance(0.5));
    if (w->closes(*a)) w->cb_close(*a, s);
    else if (w->p.w_react && w->closes(*a)) w->cb_deactivate(*a);
}

static void cb_sub_ready(rmc_sub_context_t* ctx) {
    World* w = g_world;
    App* a = ctx_app(ctx, "packet ready callback");
    if (!a) return;
    uint64_t tot = a->delivered + (uint64_t) rmc_sub_get_dispatch_ready_count(a->sub);
    if (tot <= w->call.seen) w->violation("R23", "packet ready callback without a new packet");
    w->call.seen = tot;
    w->call.ready_cb = true;
    if (a->dispatch_mode == 0) w->dispatch(*a, 1 << 30);
    else if (a->dispatch_mode == 3) w->dispatch(*a, 1);
    if (w->rng.chance(0.05))            // an application that answers
        for (auto& s : w->sessions)
            if (s->sub == a->id && s->s_connected && w->rng.chance(0.5)) { w->control(*a, s.get(), 1 + (uint32_t) w->rng.below(40), w->rng.chance(0.5)); break; }
    if (w->closes(*a))
        for (auto& s : w->sessions)
            if (s->sub == a->id && s->s_open && w->rng.chance(0.7)) { w->cb_close(*a, s.get()); break; }
    if (w->p.w_react && w->closes(*a) && w->rng.chance(0.3)) w->cb_deactivate(*a);
}

// ---- applications ---------------------------------------------------------------------------------------------------

struct Call1 {      // a library call, unless one is already running (calls made from callbacks)
    World& w; App& a; bool nested;
    Call1(World& w, App& a, const char* n) : w(w), a(a), nested(w.call.app >= 0) { if (!nested) w.begin(a, n); else w.trace(n, a.id, -1, 0); }
    void done() { if (!nested) w.end(a); }
};

void World::set_token(App& a) {
    a.old_tokens.insert(a.token);
    a.token = rng.next() | 1;
}

// Which group, port and interface a context uses.
void World::place(App& a) {
    a.mif = rng.chance(0.5) ? a.host : 0;
    if (!p.nets) return;
    a.group = rng.chance(0.6) ? GROUP : GROUP + 0x100;
    a.mport = (uint16_t) (rng.chance(0.7) ? PORT : PORT + 1);
    if (rng.chance(0.4)) a.mif = second_ip(a.host);
}

bool World::reaches(App& a, App& b) {
    return a.group == b.group && a.mport == b.mport && segment(a.host, a.src()) == segment(b.host, b.src());
}

void World::set_ttl(App& a) {
    Call1 c(*this, a, "ttl");
    int hops = rng.chance(0.8) ? (int) rng.range(0, 255) : (int) rng.range(-3, 300), before = 0;
    trace("ttl", hops, 0, 0);
    Sock* u = nullptr;
    for (auto s : sim.socks) if (s && s->owner == a.id && s->kind == K_UDP) u = s;
    if (u) before = u->ttl;
    int rc = rmc_pub_set_multicast_ttl(a.pub, hops);
    bool ok = hops >= -1 && hops <= 255 && a.active;
    if (ok && rc && !faulty()) violation("R29,R28", "setting a hop limit of " + std::to_string(hops) + " fails with " + S((uint64_t) rc));
    if (!ok && !rc) violation("R29,R28", "setting a hop limit of " + std::to_string(hops) + " reports success");
    if (!rc) a.ttl = hops == -1 ? 1 : hops;
    if (u && u->ttl != (rc ? before : a.ttl)) violation("R29", "the hop limit is " + S((uint64_t) u->ttl) + " after setting it to " + std::to_string(hops));
    c.done();
}

int World::add_pub(int host, int port) {
    apps.emplace_back(new App());
    App& a = *apps.back();
    a.id = (int) apps.size() - 1; a.is_pub = true;
    a.host = host >= 0 ? 0x0A000001u + (uint32_t) host : 0x0A000001u + (uint32_t) a.id;
    if (host < 0 && a.id && apps[0]->is_pub && rng.chance(0.3)) a.host = apps[0]->host;
    a.node = 1000 + (uint32_t) a.id * 7;
    a.cap = p.max_subs;
    a.lip = (int) rng.below(100) < p.listen0 ? 0 : rng.chance(0.4) ? second_ip(a.host) : a.host;
    a.cport = port >= 0 ? (uint16_t) port : rng.chance(0.5) ? 0 : (uint16_t) (7000 + a.id);
    a.custom_free = rng.chance(0.6);
    a.poll_mode = p.oneshot ? 2 : p.poll_mode >= 0 ? p.poll_mode : (int) rng.below(3);
    if (a.poll_mode != 2 && rng.chance(p.no_poll)) { a.no_modify = rng.chance(0.7); a.no_remove = !a.no_modify || rng.chance(0.3); a.poll_mode = 1; }
    // One that gave none at all serves its only connection, the one with index 0, by itself.
    if (a.poll_mode != 2 && !p.nets && p.max_pubs >= (uint32_t) (p.pubs + p.raw_pubs) && !p.raw_subs && p.max_subs < 100 && rng.chance(p.no_poll / 2)) { a.no_add = a.no_modify = a.no_remove = true; a.poll_mode = 1; a.cap = 1; }
    a.reject = p.reject;
    a.has_ann_cb = rng.chance(0.7); a.has_conn_cb = p.reject > 0 || rng.chance(0.6); a.has_disc_cb = rng.chance(0.7); a.has_ctl_cb = rng.chance(0.85);
    a.token = rng.next() | 1;
    sim.cur = a.id; sim.cur_host = a.host; sim.call_sys = 0;
    place(a);
    std::string l = ipstr(a.lip), g = ipstr(a.group), m = ipstr(a.mif);
    uint32_t want_node = rng.chance(0.03) ? 0 : a.node;        // 0: the library picks one
    int rc = rmc_pub_init_context(&a.pub, want_node, &g[0], a.mport, a.mif ? &m[0] : nullptr, a.lip ? &l[0] : nullptr, a.cport, user_data_u64(a.token),
                                  a.no_add ? nullptr : cb_poll_add, a.no_modify ? nullptr : cb_poll_modify, a.no_remove ? nullptr : cb_poll_remove, a.cap, a.custom_free ? cb_pub_free : nullptr);
    sim.cur = -1;
    if (!rc && !want_node) a.node = rmc_pub_node_id(a.pub);
    if (rc) { violation("R22,R13", "publisher initialisation fails with " + S((uint64_t) rc)); return a.id; }
    a.alive = true;
    a.base_blocks = blocks_of(a.id);
    begin(a, "setup");
    if (a.has_ann_cb) setter(rmc_pub_set_announce_callback(a.pub, cb_pub_announce));
    if (a.has_conn_cb) setter(rmc_pub_set_subscriber_connect_callback(a.pub, cb_pub_connect));
    if (a.has_disc_cb) setter(rmc_pub_set_subscriber_disconnect_callback(a.pub, cb_pub_disconnect));
    if (a.has_ctl_cb) setter(rmc_pub_set_control_message_callback(a.pub, cb_pub_control));
    end(a);
    if (p.throttle) throttle(a, 1 + (uint32_t) rng.below(12), 0);
    return a.id;
}

int World::add_sub() {
    apps.emplace_back(new App());
    App& a = *apps.back();
    a.id = (int) apps.size() - 1; a.is_pub = false;
    a.host = 0x0A000001u + (uint32_t) a.id;
    if (a.id && rng.chance(p.shared)) a.host = apps[0]->host;
    a.node = 5000 + (uint32_t) a.id * 7;
    a.cap = p.max_pubs;
    a.custom_alloc = rng.chance(0.6);
    a.poll_mode = p.oneshot ? 2 : p.poll_mode >= 0 ? p.poll_mode : (int) rng.below(3);
    if (a.poll_mode != 2 && rng.chance(p.no_poll)) { a.no_modify = rng.chance(0.7); a.no_remove = !a.no_modify || rng.chance(0.3); a.poll_mode = 1; }
    if (a.poll_mode != 2 && !p.nets && p.pubs + p.raw_pubs == 1 && p.max_pubs < 100 && rng.chance(p.no_poll / 2)) { a.no_add = a.no_modify = a.no_remove = true; a.poll_mode = 1; a.cap = 1; }
    a.decline = p.decline;
    a.has_sann_cb = p.decline > 0 || rng.chance(0.6); a.has_complete_cb = rng.chance(0.7); a.has_ready_cb = rng.chance(0.7);
    a.dispatch_mode = p.lazy_dispatch ? 2 : (int) rng.below(4);
    if (!a.has_ready_cb && a.dispatch_mode != 2) a.dispatch_mode = 1;
    a.token = rng.next() | 1;
    sim.cur = a.id; sim.cur_host = a.host; sim.call_sys = 0;
    place(a);
    std::string g = ipstr(a.group), m = ipstr(a.mif);
    int rc = rmc_sub_init_context(&a.sub, a.node, &g[0], a.mport, a.mif ? &m[0] : nullptr, user_data_u64(a.token),
                                  a.no_add ? nullptr : cb_poll_add, a.no_modify ? nullptr : cb_poll_modify, a.no_remove ? nullptr : cb_poll_remove, a.cap, a.custom_alloc ? cb_sub_alloc : nullptr, a.custom_alloc ? cb_sub_free : nullptr);
    sim.cur = -1;
    if (rc) { violation("R22,R13", "subscriber initialisation fails with " + S((uint64_t) rc)); return a.id; }
    a.alive = true;
    a.base_blocks = blocks_of(a.id);
    begin(a, "setup");
    if (a.has_sann_cb) setter(rmc_sub_set_announce_callback(a.sub, cb_sub_announce));
    if (a.has_complete_cb) setter(rmc_sub_set_subscription_complete_callback(a.sub, cb_sub_complete));
    if (a.has_ready_cb) setter(rmc_sub_set_packet_ready_callback(a.sub, cb_sub_ready));
    end(a);
    return a.id;
}

int World::activate(App& a) {
    begin(a, "activate");
    int rc = a.is_pub ? rmc_pub_activate_context(a.pub) : rmc_sub_activate_context(a.sub);
    if (rc == 0) {
        a.active = true; a.ttl = 1;
        int udp = 0, lst = 0;
        for (auto s : sim.socks)
            if (s && s->owner == a.id) {
                if (s->kind == K_UDP) { ++udp; if (!a.is_pub && (s->port != a.mport || !s->groups.count({a.group, a.src()}))) violation("R15,R22,R26,R29", "the subscriber's multicast socket has not joined the group"); }
                if (s->kind == K_LISTEN) {
                    ++lst;
                    a.lport = s->port;
                    if (a.cport && a.lport != a.cport) violation("R15,R26,R29", "listening on another port than configured");
                    if (s->ip != a.lip) violation("R15,R26,R29", "listening on another address than configured");
                }
            }
        if (udp != 1 || lst != (a.is_pub ? 1 : 0)) violation("R16,R22", "activation succeeded without its sockets");
        for (auto& r : a.regs) if (!(r.second.act & RMC_POLLREAD) && !a.is_pub) violation("R16", "no read interest after activation");
    } else {
        if (!faulty()) violation("R20,R22,R29", "activation fails with " + S((uint64_t) rc));
        if (!a.regs.empty()) violation("R22,R16", "poll registrations are left after a failed activation");
    }
    end(a);
    return rc;
}

void World::deactivate(App& a) {
    begin(a, "deactivate");
    call.closing = true;
    int rc = a.is_pub ? rmc_pub_deactivate_context(a.pub) : rmc_sub_deactivate_context(a.sub);
    if (rc) violation("R20,R22", "deactivation fails with " + S((uint64_t) rc));
    a.active = false;
    if (!a.is_pub) {
        a.ready.clear();
        if (!a.payloads.empty()) violation("R05,R20", S(a.payloads.size()) + " undelivered payloads are not released by deactivation");
    }
    if (!a.regs.empty()) violation("R16,R20", "poll registrations are left after deactivation");
    end(a);
}

void World::destroy(App& a) {
    begin(a, "delete");
    call.closing = call.destroying = true;
    if (a.is_pub) {
        setter(rmc_pub_delete_context(a.pub));
        for (auto k : a.queued) call.due.push_back(k);
        for (auto k : a.queued_ann) if (k->ptr) call.due.push_back(k);
        for (auto& k : a.inflight) call.due.push_back(k.second);
        a.queued.clear(); a.queued_ann.clear(); a.inflight.clear();
        for (auto s : a.sess) violation("R16,R05", "a connection stays open after the publisher was deleted (" + desc(s) + ")");
    } else {
        setter(rmc_sub_delete_context(a.sub));
        a.ready.clear();
        if (!a.payloads.empty()) violation("R05", S(a.payloads.size()) + " payloads are not released when the subscriber is deleted");
    }
    a.alive = a.active = false;
    free_kept(a);
    uint64_t left = blocks_of(a.id);
    if (left) {
        size_t sz = 0;
        for (auto& b : sim.heap) if (b.second.app == a.id) { sz = b.second.size; break; }
        violation("R05", S(left) + " blocks leaked when the context was deleted (one of " + S(sz) + " bytes)");
    }
    end(a);
}

uint32_t World::pick_len() {
    static const uint32_t edge[] = {0, 1, 2, 255, 256, 1451, 1452, 1472, 32767, 32768, 65311, 65312};
    if (p.size_mode != 1 && ((int) rng.below(100) < p.big || p.size_mode == 2)) {
        switch (rng.below(4)) {
        case 0: return 65312 - (uint32_t) rng.below(3);
        case 1: return (uint32_t) rng.range(20000, 65312);
        case 2: return edge[rng.below(12)];
        default: return (uint32_t) rng.range(1000, 9000);
        }
    }
    switch (rng.below(8)) {
    case 0: return (uint32_t) rng.below(2);
    case 1: return (uint32_t) rng.range(100, 1500);
    default: return (uint32_t) rng.range(1, 64);
    }
}

bool World::queue(App& a, uint32_t len, bool announce) {
    uint8_t* buf = (uint8_t*) malloc(len ? len : 1);
    uint64_t seed = rng.next();
    fill_payload(buf, len, seed);
    if (!len) buf[0] = 0x5a;
    Call1 c(*this, a, announce ? "queue-announce" : "queue");
    trace("queue", a.id, len, announce);
    int rc = rmc_pub_queue_packet(a.pub, buf, (payload_len_t) len, announce ? (uint8_t) (1 + rng.below(255)) : 0);
    int want = len > RMC_MAX_PAYLOAD ? EMSGSIZE : a.suspended ? EBUSY : 0;
    if (rc != want && !(len > RMC_MAX_PAYLOAD && a.suspended && rc == EBUSY)) {
        if (want == EBUSY || rc == EBUSY) violation(a.thr_misused ? "R14,R28" : "R14", "queueing returns " + S((uint64_t) rc) + " while traffic is " + (a.suspended ? "suspended" : "running"));
        else violation("R02,R10", "queueing a payload of " + S(len) + " bytes returns " + S((uint64_t) rc) + " instead of " + S((uint64_t) want));
    }
    if (rc) { free(buf); ++st.refused; c.done(); return false; }
    pkts.emplace_back(new Pkt());
    Pkt* k = pkts.back().get();
    k->pub = a.id; k->ptr = buf; k->len = len; k->seed = seed; k->announce = announce;
    k->guard = (uint8_t) rng.next(); k->hash = hbytes(k->guard, buf, len);
    live_payload[buf] = k;
    if (announce) a.queued_ann.push_back(k);
    else { k->pid = a.next_pid++; a.queued.push_back(k); }
    ++st.queued;
    if (a.thr_s && a.inflight.size() >= a.thr_s && !a.suspended) { a.suspended = true; ++st.suspended; }
    c.done();
    return true;
}

void World::control(App& a, Session* s, uint32_t len, bool by_node) {
    std::vector<uint8_t> d(len);
    fill_payload(d.data(), len, rng.next());
    // A copy of exact size: reading past the message is an error the sanitizer sees.
    uint8_t* buf = (uint8_t*) malloc(len ? len : 1);
    if (len) memcpy(buf, d.data(), len);
    Call1 c(*this, a, "control");
    bool up = s && s->s_connected;
    uint32_t ip = s ? s->ip : 0x0A0000FEu, node = s ? s->node : 77; uint16_t port = s ? s->port : 9;
    // Hostile publishers make up node ids: only a unique one identifies a publisher.
    for (auto& x : sessions) if (x.get() != s && x->sub == a.id && x->s_open && x->node == node) by_node = false;
    int rc = by_node ? rmc_sub_write_control_message_by_node_id(a.sub, node, buf, (payload_len_t) len)
                     : rmc_sub_write_control_message_by_address(a.sub, ip, port, buf, (payload_len_t) len);
    memset(buf, 0xEE, len);
    free(buf);
    trace("control", rc, len, by_node);
    if (!len) { if (!rc) violation("R11", "an empty control message is accepted"); }
    else if (!up) { if (rc != ENOTCONN) violation("R11,R20,R28", "writing a control message without a connection returns " + S((uint64_t) rc)); }
    else {
        size_t need = s->s_pending + 3 + len;
        if (rc == 0) {
            if (need > BUF_CAP) violation("R11,R08", "a control message is accepted that does not fit into the channel");
            s->ctl.push_back(d);
            s->s_pending += 3 + len;
        } else if (need + 1 <= BUF_CAP) violation("R11,R08,R28", "a control message of " + S(len) + " bytes is refused with " + S((uint64_t) rc) + " although " + S(BUF_CAP - s->s_pending) + " bytes are free");
        else ++st.fullchan;
    }
    c.done();
}

void World::set_interval(App& a, uint32_t iv) {
    Call1 c(*this, a, "set-interval");
    setter(rmc_pub_set_announce_interval(a.pub, iv));
    trace("interval", iv, 0, 0);
    if (iv && !a.ann_next) a.ann_next = sim.now + iv;
    a.ann_iv = iv;
    if (!iv) a.ann_next = 0;
    c.done();
}

void World::throttle(App& a, uint32_t s, uint32_t r) {
    Call1 c(*this, a, "throttle");
    trace("thr", s, r, 0);
    int rc = rmc_pub_throttling(a.pub, s, r);
    if (s < r) { if (!rc) violation("R14,R28", "inconsistent thresholds are accepted"); }
    else {
        if (rc) violation("R14", "thresholds are refused");
        a.thr_s = s; a.thr_r = r;
    }
    c.done();
}

void World::timeout(App& a, bool early) {
    (void) early;
    uint64_t full0 = st.fullchan;
    begin(a, "timeout");
    ++st.timeouts;
    bool susp = a.suspended;
    int rc = a.is_pub ? rmc_pub_timeout_process(a.pub) : rmc_sub_timeout_process(a.sub);
    trace("timeout-rc", rc, 0, 0);
    if (a.is_pub && call.ann_due) {
        if (a.has_ann_cb && !call.pub_ann_cb) violation("R15,R18", "an announcement is due but the announce callback is not called");
        Pkt* k = call.ann;
        if (!a.has_ann_cb) {
            pkts.emplace_back(new Pkt());
            k = pkts.back().get();
            k->pub = a.id; k->announce = true;
        }
        if (k) {
            bool in = true;
            if (susp) in = rmc_pub_queue_length(a.pub) > a.queued.size() + a.queued_ann.size();
            if (in) {
                a.queued_ann.push_back(k); ++a.ann_made;
                // The library's own announcement is queued before anything is resent.
                if (a.thr_s && call.inflight0 >= a.thr_s && !a.suspended) { a.suspended = true; ++st.suspended; }
            }
        }
        a.ann_next = a.ann_iv ? sim.now + a.ann_iv : 0;
    }
    if (!rc && !call.cb_closed && st.fullchan != full0) violation("R28,R18", "the timeout function reports success although a channel had no room for what was due");
    if (rc && st.fullchan == full0 && !faulty()) violation("R18,R28", "the timeout function fails with " + S((uint64_t) rc));
    end(a);
    usec_t t = timer(a);
    if (t != -1 && t <= sim.now) a.tcool = sim.now + 1000;
}

void World::close_conn(App& a, int idx) {
    begin(a, "close");
    call.closing = true;
    bool open = a.regs.count(idx) && idx < (int) a.cap;
    int rc = a.is_pub ? rmc_pub_close_connection(a.pub, (rmc_index_t) idx) : rmc_sub_close_connection(a.sub, (rmc_index_t) idx);
    trace("close-rc", idx, rc, 0);
    if (open && rc) violation("R20,R28", "closing a connection returns " + S((uint64_t) rc));
    if (open && a.regs.count(idx)) violation("R20,R16", "a connection that was closed is still registered");
    end(a);
}

void World::free_kept(App& a) {
    for (auto& k : a.kept) {
        if (a.custom_alloc) free(k.first);
        else { int saved = sim.cur; sim.cur = a.id; vf_free(k.first); sim.cur = saved; }
    }
    a.kept.clear();
}

void World::dispatch(App& a, int max) {
    Call1 c(*this, a, "dispatch");
    for (int n = 0; n < max && !failed; ++n) {
        sub_packet_t* pk = rmc_sub_get_next_dispatch_ready(a.sub);
        if (!pk) break;
        void* pay = rmc_sub_packet_payload(pk);
        uint32_t len = rmc_sub_packet_payload_len(pk);
        ++st.checks;
        if (a.ready.empty()) { violation("R01,R15", "a packet is handed out that was not received (pid " + S(pk->pid) + ")"); return; }
        RxPkt x = std::move(a.ready.front());
        a.ready.pop_front();
        if (pk->pid != x.pid) violation("R01,R27", "packet " + S(pk->pid) + " is handed out, expected " + S(x.pid));
        if (len != x.data.size()) violation("R02,R01", "packet " + S(x.pid) + " is handed out with " + S(len) + " bytes instead of " + S(x.data.size()));
        else if (len && memcmp(pay, x.data.data(), len)) violation("R02,R01", "packet " + S(x.pid) + " is handed out with other bytes than were published");
        if (a.custom_alloc) {
            auto it = a.payloads.find(pay);
            if (it == a.payloads.end() || it->second != len) violation("R05,R23", "the payload handed out is not the buffer that was allocated for it");
        }
        hash = hbytes(hash, (const uint8_t*) &x.pid, 8);
        trace("deliver", (int64_t) x.pid, len, 0);
        ++a.delivered; ++st.delivered;
        bool keep = p.keep && rng.chance(0.2);
        int rc = keep ? rmc_sub_packet_dispatched_keep_payload(a.sub, pk) : rmc_sub_packet_dispatched(a.sub, pk);
        if (rc) violation("R01,R05", "marking a packet as dispatched returns " + S((uint64_t) rc));
        if (keep) {
            if (a.custom_alloc) {
                if (!a.payloads.erase(pay)) violation("R05", "the library released a payload the application asked to keep");
            } else if (!sim.heap.count(pay)) { violation("R05", "the library released a payload the application asked to keep"); continue; }
            if (len != x.data.size() || (len && memcmp(pay, x.data.data(), len))) violation("R05,R02", "a kept payload was modified");
            a.kept.push_back({pay, len});
            if (a.kept.size() > 8) free_kept(a);
        } else if (a.custom_alloc ? a.payloads.count(pay) : sim.heap.count(pay) != 0) {
            // The same address may have been handed out again only after a release, so a live entry means it was not released.
            violation("R05", "the payload of a dispatched packet is not released");
        }
    }
    c.done();
}

// ---- poll events ----------------------------------------------------------------------------------------------------

void World::do_read(App& a, int idx, bool stale) {
    auto it = a.regs.find(idx);
    uint64_t g0 = it == a.regs.end() ? 0 : it->second.gen;
    Sock* s = it == a.regs.end() ? nullptr : sim.get(it->second.fd);
    bool was = !stale && s && sim.readable(s);      // a stale event says nothing about the connection that has the index now
    uint64_t pr = progress, ea = sim.ev_eagain; size_t fds = a.regs.size();
    bool full = a.is_pub && idx == RMC_LISTEN_INDEX && a.sess.size() >= a.cap;
    if (it != a.regs.end() && !stale) it->second.armed = a.poll_mode != 2;
    begin(a, "read");
    uint8_t op = 99;
    uint8_t* opp = rng.chance(0.2) ? nullptr : &op;
    int rc = a.is_pub ? rmc_pub_read(a.pub, (rmc_index_t) idx, opp) : rmc_sub_read(a.sub, (rmc_index_t) idx, opp);
    trace("read-rc", idx, rc, op);
    bool flt = faulty();
    if (opp && op == 99) violation("R28", "the operation result is not set by a read call");
    if (call.udp_bad && !rc && !call.cb_closed && a.active) violation("R28", "reading a malformed datagram reports success");
    if (opp && call.bad.empty()) {
        bool tcp = idx < (int) a.cap, down = !call.closed.empty() && call.accepted.empty() && !call.cb_closed, ok = true;
        if (!g0) ok = op == RMC_ERROR && rc;
        else if (tcp) ok = rc == 0 ? op == (down ? RMC_READ_DISCONNECT : RMC_READ_TCP) : rc == EAGAIN ? op == RMC_READ_TCP || op == RMC_ERROR : op == RMC_ERROR;
        else if (idx == RMC_LISTEN_INDEX) ok = rc == 0 ? op == RMC_READ_ACCEPT : op == RMC_ERROR;
        else if (a.is_pub) ok = op == (rc == 0 ? RMC_READ_MULTICAST_LOOPBACK : RMC_ERROR);
        else if (rc == 0) ok = call.last_udp == 0 ? op == RMC_ERROR : call.last_udp == 1 ? op == RMC_READ_MULTICAST
                               : op == RMC_READ_MULTICAST_NEW || op == RMC_READ_MULTICAST_NOT_READY;
        if (!ok) violation("R28", "a read call on index " + S((uint64_t) idx) + " returns " + S((uint64_t) rc) + " and reports the operation result " + S(op) + (down ? " after a disconnect" : ""));
    }
    if (g0 && !call.cb_closed && a.active && (idx < (int) a.cap || (a.is_pub && idx == RMC_MULTICAST_INDEX)) && call.bad.empty() && !rc && progress == pr)
        violation("R28", "a read call on index " + S((uint64_t) idx) + " that read nothing reports success");
    if (g0 && !a.is_pub && idx == RMC_MULTICAST_INDEX && rc && !flt && !call.udp_bad && !call.cb_closed && a.active)
        violation("R28", "reading well-formed datagrams returns " + S((uint64_t) rc));
    if (idx == RMC_LISTEN_INDEX && a.is_pub && !flt && (rc == 0) == call.accepted.empty()) violation("R28,R23", "accepting returns " + S((uint64_t) rc) + " with " + S(call.accepted.size()) + " connections accepted");
    if (g0 && !stale && (was || rc) && !flt && !full && rc && rc != EAGAIN && rc != EPROTO && rc != EPIPE && sim.ev_eagain == ea && a.active && call.bad.empty())
        if (s && s->kind != K_UDP) violation("R12,R13,R16,R28", "reading from a connection in order returns " + S((uint64_t) rc));
    end(a);
    auto i2 = a.regs.find(idx);
    if (i2 != a.regs.end() && i2->second.gen == g0) {
        if (!i2->second.armed) { violation("R16,R22,R13", "a one-shot registration is not re-armed after a read (index " + S((uint64_t) idx) + ", rc " + S((uint64_t) rc) + ")"); i2->second.armed = true; }
        if (was && progress == pr && !flt && !full && sim.ev_eagain == ea && a.regs.size() == fds)
            violation("R13,R16", "a read call consumes nothing although there is input: the caller spins (index " + S((uint64_t) idx) + ", rc " + S((uint64_t) rc) + ")");
        if (full && was) a.cool[idx] = sim.now + 5000;
        else if (rc && rc != EAGAIN) a.cool[idx] = sim.now + 1000;
    }
    if (!a.is_pub && a.alive && (a.dispatch_mode == 1 || (a.dispatch_mode == 3 && rng.chance(0.5)))) dispatch(a, 1 << 30);
}

void World::do_write(App& a, int idx, bool spurious) {
    auto it = a.regs.find(idx);
    uint64_t g0 = it == a.regs.end() ? 0 : it->second.gen;
    Sock* s = it == a.regs.end() ? nullptr : sim.get(it->second.fd);
    uint64_t ea = sim.ev_eagain, pr = progress;
    if (it != a.regs.end() && !spurious) it->second.armed = a.poll_mode != 2;
    begin(a, "write");
    Session* ss = s && s->kind == K_TCP && s->link ? sess_of(s->link) : nullptr;
    bool conn = ss && !a.is_pub && !ss->s_connected;
    call.writing = ss; call.wr_connecting = conn;
    size_t pend = !ss ? 0 : a.is_pub ? ss->p_out.size() : ss->s_pending;
    if (conn && s->link->cerr) ss->s_cause = true;
    size_t queued = a.queued.size() + a.queued_ann.size();
    bool est = conn && s->link->established && !s->link->cerr, bad = conn && s->link->cerr;
    uint8_t op = 99;
    uint8_t* opp = rng.chance(0.2) ? nullptr : &op;
    int rc = a.is_pub ? rmc_pub_write(a.pub, (rmc_index_t) idx, opp) : rmc_sub_write(a.sub, (rmc_index_t) idx, opp);
    trace("write-rc", idx, rc, op);
    bool flt = faulty();
    if (opp && op == 99) violation("R28", "the operation result is not set by a write call");
    if (opp && !conn) {
        bool ok = idx == RMC_MULTICAST_INDEX ? op == RMC_WRITE_MULTICAST || (rc && op == RMC_ERROR) : rc == 0 ? op == RMC_WRITE_TCP : op == RMC_ERROR;
        if (!ok) violation("R28", "a write call on index " + S((uint64_t) idx) + " returns " + S((uint64_t) rc) + " and reports the operation result " + S(op));
    } else if (opp && rc == 0 && op != RMC_COMPLETE_CONNECTION) violation("R28", "completing a connection reports the operation result " + S(op));
    if (g0 && a.active && !call.cb_closed) {
        // Success means that something was sent, or at a multicast socket that there was nothing to send.
        if (idx == RMC_MULTICAST_INDEX) {
            if (!rc && queued && !call.udp_sent) violation("R28,R22", "a multicast write that sent none of " + S(queued) + " queued packets reports success");
            if (rc && !flt && sim.ev_eagain == ea) violation("R28", "a multicast write returns " + S((uint64_t) rc) + " although nothing went wrong");
        } else if (ss && !conn && !rc && progress == pr) violation("R28", "a write call on index " + S((uint64_t) idx) + " that sent nothing reports success");
    }
    if (conn) {
        if (call.cb_closed) {
            if (rc && !flt) violation("R28", "completing a connection returns " + S((uint64_t) rc));
        } else if (rc == 0 && ss->s_open) {
            if (!est) violation("R15,R23,R20", "a connection that is not established is reported as complete");
            ss->s_connected = true;
            if (a.has_complete_cb && call.complete_cb != 1) violation("R23", "subscription completed without its callback");
        } else {
            if (est && !flt) violation("R15,R20", "completing an established connection returns " + S((uint64_t) rc));
            if (call.complete_cb) violation("R23,R15", "subscription complete callback although completing the connection failed");
            if (ss->s_open && (bad || (flt && rc))) violation("R20,R15,R22", "a connection that failed is kept");
        }
    }
    end(a);
    auto i2 = a.regs.find(idx);
    if (i2 != a.regs.end() && i2->second.gen == g0) {
        if (!i2->second.armed && (i2->second.act || a.poll_mode == 2) && (s->kind != K_UDP || !a.queued.empty() || !a.queued_ann.empty())) {
            violation("R16,R22", "a one-shot registration is not re-armed after a write (index " + S((uint64_t) idx) + ", rc " + S((uint64_t) rc) + ")");
            i2->second.armed = true;
        }
        if (progress == pr && !conn && pend && !flt && sim.ev_eagain == ea && !call.closing) {
            Link* l = s->link;
            if (!(l && sim.now >= l->gone_at[s->side])) violation("R12,R16,R28", "a write call sends nothing although the channel has room");
        }
        if (rc && rc != EAGAIN) a.cool[idx] = sim.now + 1000;
        else if (rc == EAGAIN) a.cool[idx] = sim.now + 100;
    }
}

int World::busy_links(App& a) {
    int n = 0;
    for (auto l : sim.links) {
        if (!owns(a.host, l->sip) || l->sport != a.lport || l->cerr || l->c_closed || l->s_closed) continue;
        Session* s = l->sess;
        if (!l->accepted) { if (l->established || l->in_backlog) ++n; continue; }
        if (s && s->p_open && s->sub >= 0 && s->s_open && !s->s_connected) ++n;
    }
    return n;
}
bool World::ingress_blocked(App& a) { return p.prudent && a.is_pub && a.sess.size() < a.cap && busy_links(a) > 0; }

bool World::drop_dgram(Sock& dst, const Dgram& d, bool& forced) {
    forced = false;
    if (drop_hook && drop_hook(dst, d, forced)) return true;
    if (forced) return false;
    // Prudent publishers stand for a network in which nothing sent before a subscription is complete straggles in afterwards.
    if (p.prudent && call.app >= 0 && apps[(size_t) call.app]->is_pub && d.data.size() >= 20 && le64(&d.data[0]) && dst.owner >= 0) {
        App& a = *apps[(size_t) call.app];
        Session* s = nullptr;
        for (auto x : a.sess) if (x->p_open && x->sub == dst.owner && x->s_connected) s = x;
        if (!s) { forced = true; return true; }
    }
    return false;
}

// What an application without a modify callback waits for: it knows what it has queued.
// What an application without poll callbacks can know: there is one socket of each kind.
void World::find_sockets(App& a) {
    if (!a.no_add) return;
    for (auto s : sim.socks) {
        if (!s || s->owner != a.id) continue;
        int idx = s->kind == K_UDP ? RMC_MULTICAST_INDEX : s->kind == K_LISTEN ? RMC_LISTEN_INDEX : 0;
        if (a.regs.count(idx)) continue;
        Reg r;
        r.fd = s->fd; r.act = RMC_POLLREAD; r.armed = true; r.gen = ++gen;
        a.regs[idx] = r;
        a.cool.erase(idx);
    }
}

int World::interest(App& a, Sock* s) {
    if (s->kind == K_LISTEN) return RMC_POLLREAD;
    if (s->kind == K_UDP) return RMC_POLLREAD | (a.is_pub && (!a.queued.empty() || !a.queued_ann.empty()) ? RMC_POLLWRITE : 0);
    Session* x = s->link ? sess_of(s->link) : nullptr;
    if (!x) return RMC_POLLREAD;
    if (!a.is_pub && !x->s_connected) return RMC_POLLWRITE;
    return RMC_POLLREAD | ((a.is_pub ? x->p_out.size() : x->s_pending) ? RMC_POLLWRITE : 0);
}

int World::ready_events(App& a, std::vector<std::pair<int, int>>& ev) {
    ev.clear();
    for (auto& r : a.regs) {
        if (!r.second.armed) continue;
        auto c = a.cool.find(r.first);
        if (c != a.cool.end()) { if (c->second > sim.now) continue; a.cool.erase(c); }
        Sock* s = sim.get(r.second.fd);
        if (!s) continue;
        int act = a.no_modify ? interest(a, s) : r.second.act;
        if ((act & RMC_POLLREAD) && sim.readable(s)) ev.push_back({r.first, 0});
        if ((act & RMC_POLLWRITE) && sim.writable(s) && !(r.first == RMC_MULTICAST_INDEX && ingress_blocked(a))) ev.push_back({r.first, 1});
    }
    return (int) ev.size();
}

// One round of an application's event loop.
bool World::fire(App& a) {
    bool did = false;
    std::vector<std::pair<int, int>> ev;
    if (ready_events(a, ev)) {
        for (size_t i = ev.size(); i > 1; --i) std::swap(ev[i - 1], ev[rng.below(i)]);
        std::map<int, uint64_t> g;
        for (auto& r : a.regs) g[r.first] = r.second.gen;
        size_t n = p.stale_batch ? ev.size() : 1;
        if (n > 1 && rng.chance(0.3)) n = 1 + rng.below(n);
        for (size_t i = 0; i < n && !failed && a.alive; ++i) {
            auto it = a.regs.find(ev[i].first);
            bool stale = it == a.regs.end() || it->second.gen != g[ev[i].first];
            if (stale && (ev[i].first >= (int) a.cap || !rng.chance(0.3))) continue;   // some applications act on stale events
            if (!stale && !it->second.armed) continue;
            did = true;
            if (ev[i].second == 0) do_read(a, ev[i].first, stale);
            else if (!stale) do_write(a, ev[i].first);
        }
    }
    usec_t t = a.alive ? timer(a) : -1;
    if (!failed && t != -1 && t <= sim.now && a.tcool <= sim.now && (draining || !p.late || rng.chance(0.2))) { timeout(a, false); did = true; }
    if (!failed && a.alive && !a.is_pub && a.dispatch_mode == 2 && !a.ready.empty() && (draining || rng.chance(0.1))) { dispatch(a, draining ? 1 << 30 : 1 + (int) rng.below(4)); did = true; }
    return did;
}

bool World::step() {
    ++st.steps;
    for (auto& r : raws) if (!r->closed) raw_io(*r);
    if (sim.now >= next_op && !draining) {
        op();
        double gap = 100.0 / std::max(1e-6, p.op_rate);
        next_op = sim.now + 1 + (usec_t) (rng.below(2000) / 1000.0 * gap);
        if (p.lull > 0 && rng.chance(p.lull)) {
            usec_t d = rng.range(30000, rng.chance(0.1) ? 1000000 : 250000);
            next_op += d; end_at += d;
        }
        return true;
    }
    std::vector<App*> who;
    std::vector<std::pair<int, int>> ev;
    usec_t wake = INT64_MAX;
    for (auto& ap : apps) {
        App& a = *ap;
        if (!a.alive) continue;
        if (a.paused > sim.now && !draining) { wake = std::min(wake, a.paused); continue; }
        usec_t t = timer(a);
        bool due = t != -1 && t <= sim.now && a.tcool <= sim.now;
        if (ready_events(a, ev) || due || (draining && !a.is_pub && !a.ready.empty())) who.push_back(&a);
        if (t != -1) wake = std::min(wake, std::max(t, a.tcool));
        for (auto& c : a.cool) if (c.second > sim.now) wake = std::min(wake, c.second);
        if (!a.is_pub && !a.ready.empty() && a.dispatch_mode == 2) wake = std::min(wake, sim.now + 2000);
    }
    if (!who.empty() && !rng.chance(0.05)) {
        App& a = *who[rng.below(who.size())];
        if (fire(a)) return true;
    }
    for (auto& r : raws) if (!r->closed && r->next_at <= sim.now) { raw_act(*r); return true; }
    for (auto& r : raws) if (!r->closed) wake = std::min(wake, r->next_at);
    if (!draining) wake = std::min(wake, next_op);
    wake = std::min(wake, sim.next_event());
    usec_t lim = sim.now + (who.empty() ? 20000 : rng.range(1, 200));
    usec_t t = std::min(wake, lim);
    if (t <= sim.now) t = sim.now + 1;
    sim.advance(t);
    return who.empty() && t == lim ? false : true;
}

void World::run_until(usec_t t) {
    while (sim.now < t && !failed) step();
}

// ---- operations -----------------------------------------------------------------------------------------------------

App* World::alive(bool pub, bool need_active) {
    std::vector<App*> v;
    for (auto& a : apps) if (a->alive && a->is_pub == pub && (!need_active || a->active) && (a->paused <= sim.now)) v.push_back(a.get());
    return v.empty() ? nullptr : v[rng.below(v.size())];
}

// Calls that cannot succeed: they must say so and leave no trace.
static uint32_t g_pick_threshold(Rng& r, size_t inflight) { return r.chance(0.5) ? (uint32_t) r.below(inflight + 3) : (uint32_t) r.below(12); }

void World::misuse(App& a) {
    begin(a, "misuse");
    uint64_t h0 = hash, sys0 = sim.sys_count, b0 = blocks_of(a.id), tr0 = 0;
    int m = (int) rng.below(a.is_pub ? 18 : 15), rc = 0;
    bool lib_error = true;               // an error return is expected
    uint8_t op = 99, *opp = rng.chance(0.3) ? nullptr : &op;
    // An index nobody owns.
    int idx = 0;
    for (int i = 0; i < 20; ++i) {
        switch (rng.below(4)) {
        case 0: idx = (int) rng.below(a.cap + 1); break;
        case 1: idx = (int) a.cap + (int) rng.below(3); break;
        case 2: idx = RMC_MULTICAST_INDEX + (int) rng.below(2) * (a.is_pub ? -1 : 0); break;
        default: idx = (int) rng.below(0x10000); break;
        }
        if (!a.regs.count(idx) && !(a.active && (idx == RMC_MULTICAST_INDEX || (a.is_pub && idx == RMC_LISTEN_INDEX)))) break;
        idx = 0x7FFF;
    }
    ++st.misuse;
    static char group[] = "224.1.1.1", bad[] = "no.such.address", bad2[] = "300.1.2.3", ok[] = "10.0.0.1";
    char* wrong = rng.chance(0.5) ? bad : bad2;
    uint8_t buf[8] = {0};
    uint32_t u0 = 77;
    usec_t t = -2;
    const char* what = "";
    if (a.is_pub) {
        rmc_pub_context_t *none = nullptr, *x = nullptr;
        switch (m) {
        case 0: what = "read of a closed index"; rc = rmc_pub_read(a.pub, (rmc_index_t) idx, opp); if (opp && op != RMC_ERROR) rc = 0; break;
        case 1: what = "write of a closed index"; rc = rmc_pub_write(a.pub, (rmc_index_t) idx, opp); if (opp && op != RMC_ERROR) rc = 0; break;
        case 2: what = "close of a closed index"; rc = rmc_pub_close_connection(a.pub, (rmc_index_t) idx); break;
        case 3: what = "initialisation with a bad group"; rc = rmc_pub_init_context(&x, 1, wrong, PORT, nullptr, nullptr, 0, user_data_u64(1), cb_poll_add, cb_poll_modify, cb_poll_remove, 2, nullptr); break;
        case 4: what = "initialisation with a bad interface"; rc = rmc_pub_init_context(&x, 1, group, PORT, wrong, ok, 0, user_data_u64(1), cb_poll_add, cb_poll_modify, cb_poll_remove, 2, nullptr); break;
        case 5: what = "initialisation with a bad control address"; rc = rmc_pub_init_context(&x, 1, group, PORT, ok, wrong, 0, user_data_u64(1), cb_poll_add, cb_poll_modify, cb_poll_remove, 2, nullptr); break;
        case 6: what = "queueing nothing"; rc = rmc_pub_queue_packet(a.pub, nullptr, 5, 0); break;
        case 7: what = "activation of an active context"; rc = a.active ? rmc_pub_activate_context(a.pub) : EINVAL; break;
        case 8: what = "timeout query without a result"; rc = rmc_pub_timeout_get_next(a.pub, nullptr); break;
        case 9: what = "TTL of an inactive context"; rc = a.active ? EINVAL : rmc_pub_set_multicast_ttl(a.pub, 3); break;
        case 10: what = "initialisation without a group"; rc = rmc_pub_init_context(&x, 1, nullptr, PORT, nullptr, nullptr, 0, user_data_u64(1), cb_poll_add, cb_poll_modify, cb_poll_remove, 2, nullptr); break;
        case 11: what = "deactivation of an inactive context"; lib_error = false; if (!a.active) rc = rmc_pub_deactivate_context(a.pub); break;
        case 12: what = "pending query without results"; lib_error = false; rmc_pub_context_get_pending(a.pub, nullptr, nullptr, rng.chance(0.5) ? &u0 : nullptr); break;
        case 14: case 15: {
            what = "inconsistent throttling thresholds";
            uint32_t s = g_pick_threshold(rng, a.inflight.size());
            a.thr_misused = true;
            rc = rmc_pub_throttling(a.pub, s, s + 1 + (uint32_t) rng.below(5));
            break;
        }
        case 13: what = "queueing too much"; if (a.suspended) { rc = EMSGSIZE; break; } rc = rmc_pub_queue_packet(a.pub, buf, RMC_MAX_PAYLOAD + 1, rng.chance(0.5)); break;
        default: {
            what = "call without a context";
            int r[] = {rmc_pub_activate_context(none), rmc_pub_deactivate_context(none), rmc_pub_delete_context(none), rmc_pub_set_announce_interval(none, 5), rmc_pub_set_announce_callback(none, cb_pub_announce),
                rmc_pub_set_subscriber_connect_callback(none, nullptr), rmc_pub_set_subscriber_disconnect_callback(none, nullptr), rmc_pub_set_control_message_callback(none, nullptr),
                rmc_pub_set_multicast_ttl(none, 1), rmc_pub_set_user_data(none, user_data_u64(1)), rmc_pub_throttling(none, 3, 1), rmc_pub_close_connection(none, 0), rmc_pub_timeout_get_next(none, &t),
                rmc_pub_timeout_process(none), rmc_pub_queue_packet(none, buf, 4, 0), rmc_pub_read(none, 0, opp), rmc_pub_write(none, 0, opp), rmc_pub_write(none, RMC_MULTICAST_INDEX, nullptr), rmc_pub_context_get_pending(none, &u0, &u0, &u0)};
            rc = 1;
            for (size_t i = 0; i < sizeof r / sizeof *r; ++i) if (!r[i]) { rc = 0; tr0 = i; }
            if (rmc_pub_queue_length(none) || rmc_pub_get_max_subscriber_count(none) || rmc_pub_get_subscriber_count(none) || rmc_pub_get_socket_count(none) || rmc_pub_node_id(none) || rmc_pub_user_data(none).u64) { rc = 0; tr0 = 99; }
        }
        }
    } else {
        rmc_sub_context_t *none = nullptr, *x = nullptr;
        switch (m) {
        case 0: what = "read of a closed index"; rc = rmc_sub_read(a.sub, (rmc_index_t) idx, opp); if (opp && op != RMC_ERROR) rc = 0; break;
        case 1: what = "write of a closed index"; rc = rmc_sub_write(a.sub, (rmc_index_t) idx, opp); if (opp && op != RMC_ERROR) rc = 0; break;
        case 2: what = "close of a closed index"; rc = rmc_sub_close_connection(a.sub, (rmc_index_t) idx); break;
        case 3: what = "initialisation with a bad group"; rc = rmc_sub_init_context(&x, 1, wrong, PORT, ok, user_data_u64(1), cb_poll_add, cb_poll_modify, cb_poll_remove, 2, nullptr, nullptr); break;
        case 4: what = "initialisation with a bad interface"; rc = rmc_sub_init_context(&x, 1, group, PORT, wrong, user_data_u64(1), cb_poll_add, cb_poll_modify, cb_poll_remove, 2, nullptr, nullptr); break;
        case 5: what = "initialisation without a group"; rc = rmc_sub_init_context(&x, 1, nullptr, PORT, ok, user_data_u64(1), cb_poll_add, cb_poll_modify, cb_poll_remove, 2, nullptr, nullptr); break;
        case 6: what = "activation of an active context"; rc = a.active ? rmc_sub_activate_context(a.sub) : EINVAL; break;
        case 7: what = "timeout query without a result"; rc = rmc_sub_timeout_get_next(a.sub, nullptr); break;
        case 8: what = "control message to nobody"; rc = rng.chance(0.5) ? rmc_sub_write_control_message_by_address(a.sub, 0x0A0000FEu, 9, buf, 4) : rmc_sub_write_control_message_by_node_id(a.sub, 77, buf, 4); break;
        case 9: {
            what = "empty control message";
            Session* s = nullptr;
            for (auto& q : sessions) if (q->sub == a.id && q->s_connected) s = q.get();
            void* z = rng.chance(0.5) ? nullptr : buf;
            rc = !s ? EINVAL : rng.chance(0.5) ? rmc_sub_write_control_message_by_address(a.sub, s->ip, s->port, z, z ? 0 : 4) : rmc_sub_write_control_message_by_node_id(a.sub, s->node, z, z ? 0 : 4);
            break;
        }
        case 10: what = "deactivation of an inactive context"; lib_error = false; if (!a.active) rc = rmc_sub_deactivate_context(a.sub); break;
        case 11: what = "dispatching nothing"; rc = rng.chance(0.5) ? rmc_sub_packet_dispatched(a.sub, nullptr) : rmc_sub_packet_dispatched_keep_payload(a.sub, nullptr); break;
        case 12: {
            what = "dispatching a packet that is not ready";
            static sub_packet_t stranger;
            rc = rng.chance(0.5) ? rmc_sub_packet_dispatched(a.sub, &stranger) : rmc_sub_packet_dispatched_keep_payload(a.sub, &stranger);
            break;
        }
        default: {
            what = "call without a context";
            int r[] = {rmc_sub_activate_context(none), rmc_sub_deactivate_context(none), rmc_sub_delete_context(none), rmc_sub_close_connection(none, 0), rmc_sub_set_subscription_complete_callback(none, nullptr),
                rmc_sub_set_announce_callback(none, nullptr), rmc_sub_set_packet_ready_callback(none, nullptr), rmc_sub_set_user_data(none, user_data_u64(1)), rmc_sub_timeout_get_next(none, &t),
                rmc_sub_timeout_process(none), rmc_sub_write_control_message_by_address(none, 1, 1, buf, 4), rmc_sub_write_control_message_by_node_id(none, 1, buf, 4), rmc_sub_read(none, 0, opp), rmc_sub_write(none, 0, opp)};
            rc = 1;
            for (size_t i = 0; i < sizeof r / sizeof *r; ++i) if (!r[i]) { rc = 0; tr0 = i; }
            if (rmc_sub_get_dispatch_ready_count(none) || rmc_sub_get_next_dispatch_ready(none) || rmc_sub_get_max_publisher_count(none) || rmc_sub_get_publisher_count(none) || rmc_sub_get_socket_count(none)
                || rmc_sub_packet_payload(nullptr) || rmc_sub_packet_payload_len(nullptr)) { rc = 0; tr0 = 99; }
        }
        }
    }
    std::string w = what;
    if (lib_error && !rc) violation("R28", w + " reports success (" + S((uint64_t) idx) + ", " + S(tr0) + ")");
    if (!lib_error && rc) violation("R28,R16", w + " fails with " + S((uint64_t) rc));
    if (sim.sys_count != sys0) violation("R28", w + " makes system calls");
    if (hash != h0) violation("R28", w + " has side effects (callbacks)");
    if (blocks_of(a.id) != b0) violation("R28,R05", w + " leaves " + S(blocks_of(a.id)) + " blocks allocated instead of " + S(b0));
    trace("misuse", m, a.id, 0);
    end(a);
}

void World::op() {
    int w[] = {p.w_queue, p.w_ctl, p.w_subclose, p.w_pubclose, p.w_reset, p.w_react, p.w_pause, p.w_misc, p.w_early, p.w_throttle, p.w_misuse, p.w_sleep, p.w_stall};
    int sum = 0;
    for (int x : w) sum += x;
    if (!sum) return;
    int r = (int) rng.below((uint64_t) sum), k = 0;
    while (r >= w[k]) r -= w[k++];
    App* a;
    switch (k) {
    case 0: {
        a = alive(true, !p.inactive_queue);
        if (!a) return;
        if (!a->active && a->queued.size() > 10) return;
        int n = 1 + (int) rng.below((uint64_t) p.w_burst);
        if (a->queued.size() > 60u * (unsigned) p.thr_scale) return;
        while (n-- && !failed) {
            uint32_t len = pick_len();
            if (rng.chance(0.01)) len = RMC_MAX_PAYLOAD + 1 + (uint32_t) rng.below(65535 - RMC_MAX_PAYLOAD);
            queue(*a, len);
        }
        break;
    }
    case 1: {
        a = alive(false, true);
        if (!a) return;
        std::vector<Session*> v;
        for (auto& s : sessions) if (s->sub == a->id && s->s_open) v.push_back(s.get());
        Session* s = v.empty() || rng.chance(0.05) ? nullptr : v[rng.below(v.size())];
        uint32_t len = rng.chance(0.02) ? 0 : rng.chance(0.1) ? (uint32_t) rng.range(1, 2000) : (uint32_t) rng.range(1, 60);
        if (p.big_ctl && rng.chance(0.4)) len = rng.chance(0.1) ? (uint32_t) rng.range(65390, 65399) : (uint32_t) rng.range(5000, 65000);
        int n = rng.chance(0.2) ? (int) rng.range(2, 8) : 1;
        while (n-- && !failed) { control(*a, s, len, rng.chance(0.5)); if (s && !s->s_open) break; }
        break;
    }
    case 2: case 3: {
        a = alive(k == 3, true);
        if (!a) return;
        std::vector<int> idx;
        for (auto& x : a->regs) if (x.first < (int) a->cap) idx.push_back(x.first);
        int i = idx.empty() || rng.chance(0.1) ? (int) rng.below(rng.chance(0.5) ? a->cap + 2 : 0x8000) : idx[rng.below(idx.size())];
        close_conn(*a, i);
        break;
    }
    case 4: {
        std::vector<Link*> v;
        for (auto l : sim.links) if (!l->c_closed && !l->s_closed && l->gone_at[0] == INT64_MAX && l->gone_at[1] == INT64_MAX && !l->cerr) v.push_back(l);
        if (v.empty()) return;
        Link* l = v[rng.below(v.size())];
        trace("net-reset", l->id, 0, 0);
        sim.reset_link(l);
        break;
    }
    case 5: {
        a = alive(rng.chance(0.5), false);
        if (!a) return;
        if (!a->active) { if (activate(*a) == 0 && a->is_pub && !a->ann_iv) set_interval(*a, (uint32_t) p.announce); return; }
        if (rng.chance(0.5)) { deactivate(*a); return; }
        bool pub = a->is_pub; int host = (int) (a->host - 0x0A000001u), port = rng.chance(0.5) ? a->lport : -1;
        destroy(*a);
        if (apps.size() > 40) return;
        int id = pub ? add_pub(host, port) : add_sub();
        if (failed || !apps[(size_t) id]->alive) return;
        App& b = *apps[(size_t) id];
        if (rng.chance(0.8) && activate(b) == 0 && pub) set_interval(b, (uint32_t) p.announce);
        break;
    }
    case 6:
        a = alive(rng.chance(0.5), true);
        if (a) a->paused = sim.now + rng.range(100, 300000);
        break;
    case 7: {
        a = alive(rng.chance(0.6), true);
        if (!a) return;
        int m = (int) rng.below(6);
        if (m == 0) {
            set_token(*a);
            begin(*a, "user-data");
            if (a->is_pub) setter(rmc_pub_set_user_data(a->pub, user_data_u64(a->token))); else setter(rmc_sub_set_user_data(a->sub, user_data_u64(a->token)));
            end(*a);
        } else if (m == 1 && a->is_pub) {
            static const uint32_t iv[] = {0, 1000, 20000, 50000, 250000, 3600000000u, 2147483647u, 4294967295u};
            set_interval(*a, rng.chance(0.5) ? (uint32_t) p.announce : iv[rng.below(p.w_sleep ? 8 : 5)]);
        } else if (m == 2 && a->is_pub) {
            queue(*a, pick_len(), true);
        } else if (m == 3 && a->is_pub) {
            set_ttl(*a);
        } else if (m == 4) {
            begin(*a, "callbacks");
            if (a->is_pub) {
                if (rng.chance(0.5)) { a->has_ann_cb = !a->has_ann_cb; setter(rmc_pub_set_announce_callback(a->pub, a->has_ann_cb ? cb_pub_announce : nullptr)); }
                else if (rng.chance(0.5)) { a->has_ctl_cb = !a->has_ctl_cb; setter(rmc_pub_set_control_message_callback(a->pub, a->has_ctl_cb ? cb_pub_control : nullptr)); }
                else if (rng.chance(0.5)) { a->has_disc_cb = !a->has_disc_cb; setter(rmc_pub_set_subscriber_disconnect_callback(a->pub, a->has_disc_cb ? cb_pub_disconnect : nullptr)); }
                else { a->has_conn_cb = !a->has_conn_cb; setter(rmc_pub_set_subscriber_connect_callback(a->pub, a->has_conn_cb ? cb_pub_connect : nullptr)); }
            } else {
                if (rng.chance(0.5)) { a->has_sann_cb = !a->has_sann_cb; setter(rmc_sub_set_announce_callback(a->sub, a->has_sann_cb ? cb_sub_announce : nullptr)); }
                else if (rng.chance(0.5)) { a->has_complete_cb = !a->has_complete_cb; setter(rmc_sub_set_subscription_complete_callback(a->sub, a->has_complete_cb ? cb_sub_complete : nullptr)); }
                else if (!a->has_ready_cb || a->dispatch_mode == 1 || a->dispatch_mode == 2) {
                    a->has_ready_cb = !a->has_ready_cb;
                    setter(rmc_sub_set_packet_ready_callback(a->sub, a->has_ready_cb ? cb_sub_ready : nullptr));
                }
            }
            end(*a);
        } else if (m == 5 && !a->is_pub) free_kept(*a);
        break;
    }
    case 8: {
        a = alive(rng.chance(0.5), true);
        if (!a) return;
        if (rng.chance(0.5) || a->regs.empty()) { timeout(*a, true); return; }
        // A wakeup without data.
        auto it = a->regs.begin();
        std::advance(it, (long) rng.below(a->regs.size()));
        Sock* s = sim.get(it->second.fd);
        int i = it->first;
        if (s && (s->kind != K_TCP || a->is_pub || sess_of(s->link)->s_connected)) {
            ++st.spin_probe;
            if (rng.chance(0.7)) do_read(*a, i);
            if (i != RMC_LISTEN_INDEX && (a->is_pub || i != RMC_MULTICAST_INDEX) && a->regs.count(i) && rng.chance(0.4)) do_write(*a, i, true);
        }
        break;
    }
    case 9:
        a = alive(true, true);
        if (!a) return;
        if (rng.chance(0.2)) throttle(*a, 0, 0);
        else if (rng.chance(0.1)) { uint32_t s = (uint32_t) rng.below(5); throttle(*a, s, s + 1 + (uint32_t) rng.below(4)); }
        else { uint32_t s = 1 + (uint32_t) rng.below(12 * (unsigned) p.thr_scale); throttle(*a, s, (uint32_t) rng.below(s + 1)); }
        break;
    case 10:
        a = alive(rng.chance(0.5), false);
        if (a) misuse(*a);
        break;
    case 12: {
        // One direction of a connection makes no progress for a while, as when TCP waits to retransmit.
        std::vector<Link*> v;
        for (auto l : sim.links) if (!l->c_closed && !l->s_closed && l->established && l->gone_at[0] == INT64_MAX && l->gone_at[1] == INT64_MAX && !l->cerr) v.push_back(l);
        if (v.empty()) return;
        Link* l = v[rng.below(v.size())];
        int side = (int) rng.below(2);
        usec_t d = rng.range(2000, rng.chance(0.5) ? 60000 : 300000);
        trace("stall", l->id, side, d);
        sim.stall(l, side, d, rng.chance(0.7));
        ++st.stalls;
        Session* s = l->sess;
        if (side == 0 && s && s->s_open && s->s_connected && s->sub >= 0 && rng.chance(0.6) &&
            (!sim.net.read_max || sim.net.read_max >= 200) && (!sim.net.write_max || sim.net.write_max >= 100) && sim.net.pipe_cap >= 500) {
            // The channel is almost full: there is room for a few acknowledgements at most.
            a = apps[(size_t) s->sub].get();
            size_t room = rng.below(70);
            if (a->alive && a->active && BUF_CAP > s->s_pending + room + 3) control(*a, s, (uint32_t) std::min<size_t>(BUF_CAP - s->s_pending - room - 3, 65535), rng.chance(0.5));
        }
        break;
    }
    case 11: {
        // The whole system sleeps, from minutes to weeks.
        a = alive(true, true);
        usec_t d = rng.pick(std::vector<usec_t>{2000000000, 2147483648 + 5000, 2400000000, 4294967296 + 3000, 4294967296 + 60000, 8000000000, 86400000000, 3000000000000});
        if (a && a->ann_next > sim.now && rng.chance(0.5)) d = std::min(d, a->ann_next - sim.now - (usec_t) rng.below(2));
        trace("sleep", d, 0, 0);
        ++st.sleeps;
        end_at += d;
        sim.advance(sim.now + d);
        break;
    }
    }
}

// ---- raw peers ------------------------------------------------------------------------------------------------------

RawPeer* World::add_raw(bool pub, bool hostile) {
    raws.emplace_back(new RawPeer());
    RawPeer& r = *raws.back();
    r.is_pub = pub; r.hostile = hostile;
    r.host = 0x0A000101u + (uint32_t) raws.size(); r.port = (uint16_t) (9000 + raws.size()); r.node = 900000 + (uint32_t) raws.size();
    r.content = rng.next();
    r.next_at = sim.now + rng.range(1000, 50000); r.next_ann = sim.now;
    r.udp = sim.new_sock(K_UDP, -1, r.host);
    r.udp->bound = true; r.udp->nonblock = true; r.udp->rcvbuf = 4 << 20;
    if (pub) {
        r.udp->port = r.port;
        r.lst = sim.new_sock(K_LISTEN, -1, r.host);
        r.lst->bound = true; r.lst->port = r.port; r.lst->ip = 0; r.lst->backlog_max = 8;
        r.lip = rng.chance(0.5) ? 0 : rng.chance(0.5) ? r.host : second_ip(r.host);
        static const uint64_t base[] = {1, 2, 0xFFFFFFFDull, 0x7FFFFFFFFFFFFFF0ull, 0xFFFFFFFFFFFFFF80ull, 65530};
        r.next_pid = p.raw_base ? p.raw_base : base[rng.below(6)];
    } else {
        r.udp->port = PORT;
        r.udp->groups.insert({GROUP, r.host});
    }
    return &r;
}

std::vector<uint8_t> World::raw_packet(RawPeer& r, uint64_t pid, bool tcp) {
    auto it = r.sizes.find(pid);
    if (it == r.sizes.end()) it = r.sizes.emplace(pid, pick_len()).first;
    uint32_t len = it->second;
    std::vector<uint8_t> o;
    if (tcp) o.push_back(1);
    put(o, pid, 8); put(o, r.node, 4); put(o, len, 2); put(o, r.lip, 4); put(o, r.port, 2);
    size_t n = o.size();
    o.resize(n + len);
    fill_payload(o.data() + n, len, r.content ^ (pid * 0x9E3779B97F4A7C15ull));
    return o;
}

void World::raw_announce(RawPeer& r) {
    std::vector<uint8_t> o;
    uint32_t len = (uint32_t) rng.below(30);
    put(o, 0, 8); put(o, r.node, 4); put(o, len, 2); put(o, r.lip, 4); put(o, r.port, 2);
    for (uint32_t i = 0; i < len; ++i) o.push_back((uint8_t) rng.next());
    sim.do_udp_send(r.udp, GROUP, PORT, o);
}

RawPeer::Conn* World::raw_connect(RawPeer& r, App& pub) {
    r.conns.emplace_back(new RawPeer::Conn());
    RawPeer::Conn& c = *r.conns.back();
    c.s = sim.new_sock(K_TCP, -1, r.host);
    c.s->nonblock = true; c.target = pub.id; c.born = sim.now;
    c.silent = r.hostile || rng.chance(0.3);
    c.reads = !(p.raw_stall && rng.chance(0.5));
    if (!r.hostile) c.reads = true;
    int e = sim.do_connect(c.s, pub.lip ? pub.lip : pub.host, pub.lport);
    if (e && e != EINPROGRESS) c.dead = true;
    return &c;
}

void World::conn_close(RawPeer::Conn& c, bool rst) {
    if (c.dead) return;
    c.dead = true;
    if (c.s->fd != -1) sim.do_close(c.s, rst);
}

void World::raw_close(RawPeer& r) {
    if (r.closed) return;
    for (auto& c : r.conns) conn_close(*c, rng.chance(0.3));
    if (r.lst && r.lst->fd != -1) sim.do_close(r.lst);
    if (r.udp->fd != -1) sim.do_close(r.udp);
    r.closed = true;
}

void World::raw_io(RawPeer& r) {
    // Datagrams (subscribers).
    while (!r.udp->rx.empty()) {
        Dgram d = r.udp->rx.front();
        r.udp->rx.pop_front(); r.udp->rx_bytes -= d.data.size();
        if (r.is_pub || d.data.size() < 20) continue;
        uint64_t pid = le64(&d.data[0]); uint16_t port = le16(&d.data[18]);
        if (!pid) continue;
        for (auto& cp : r.conns) {
            auto& c = *cp;
            if (c.dead || c.s->connecting || apps[(size_t) c.target]->src() != d.src_ip || apps[(size_t) c.target]->lport != port) continue;
            if (c.got.insert(pid).second && !c.silent) c.to_ack.emplace(pid, sim.now);
        }
    }
    if (r.lst && r.lst->fd != -1)
        while (!r.lst->backlog.empty()) {
            Link* l = r.lst->backlog.front();
            Sock* s = sim.do_accept(r.lst, -1, r.host);
            s->nonblock = true;
            r.conns.emplace_back(new RawPeer::Conn());
            auto& c = *r.conns.back();
            c.s = s; c.born = sim.now;
            c.reads = !(p.raw_stall && r.hostile && rng.chance(0.3));
            Session* x = sess_of(l);
            x->raw_honest = !r.hostile;
        }
    for (auto& cp : r.conns) {
        auto& c = *cp;
        if (c.dead) continue;
        Link* l = c.s->link;
        if (c.s->connecting) {
            if (l->cerr) { conn_close(c, false); continue; }
            if (!l->established) continue;
            c.s->connecting = false;
        }
        if (c.reads) {
            uint8_t buf[8192];
            bool blk; int err;
            ssize_t n;
            while ((n = sim.do_read(c.s, buf, sizeof buf, blk, err)) > 0) c.in.insert(c.in.end(), buf, buf + n);
            if (n == 0 || !blk) { conn_close(c, false); continue; }
            size_t i = 0;
            while (i < c.in.size()) {
                size_t m = c.in.size() - i;
                if (r.is_pub) {
                    if (c.in[i] == 2) {
                        if (m < 17) break;
                        uint64_t f = le64(&c.in[i + 1]), t = le64(&c.in[i + 9]);
                        for (auto it = c.owed.lower_bound(f); it != c.owed.end() && it->first <= t;) it = c.owed.erase(it);
                        i += 17;
                    } else if (c.in[i] == 3) {
                        if (m < 3 || m < 3u + le16(&c.in[i + 1])) break;
                        i += 3u + le16(&c.in[i + 1]);
                    } else { i = c.in.size(); }
                } else {
                    if (m < 21) break;
                    size_t len = le16(&c.in[i + 13]);
                    if (m < 21 + len) break;
                    c.got.insert(le64(&c.in[i + 1])); ++c.n_tcp;
                    i += 21 + len;
                }
            }
            c.in.erase(c.in.begin(), c.in.begin() + (long) i);
        }
        if (!c.out.empty()) {
            bool blk; int err;
            ssize_t n = sim.do_write(c.s, c.out.data(), c.out.size(), blk, err);
            if (n > 0) c.out.erase(c.out.begin(), c.out.begin() + n);
            else if (!blk) conn_close(c, false);
        }
    }
}

void World::raw_garbage(RawPeer& r) {
    ++st.hostile;
    if (r.is_pub && rng.chance(0.3)) {
        // A packet of its own whose end is missing, as after truncation: the header claims more than there is.
        std::vector<uint8_t> o = raw_packet(r, r.next_pid ? r.next_pid + rng.below(3) : rng.next(), false);
        size_t cut = rng.chance(0.5) ? 1 + rng.below(3) : 1 + rng.below(40);
        if (rng.chance(0.3)) { uint32_t more = le16(&o[12]) + (uint32_t) (1 + rng.below(24)); if (more > 65535) return; o[12] = (uint8_t) more; o[13] = (uint8_t) (more >> 8); }
        else if (cut < o.size() && le16(&o[12])) o.resize(std::max(o.size() - cut, (size_t) 1));
        else return;
        sim.do_udp_send(r.udp, GROUP, PORT, o);
        return;
    }
    if (r.is_pub || rng.chance(0.3)) {
        // A datagram.  Never one that carries the control address of an honest publisher.
        std::vector<uint8_t> o;
        static const uint64_t pids[] = {0, 0, 0, 1, 2, 3, 0xFFFFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFEull, 0x8000000000000000ull};
        size_t n = rng.chance(0.2) ? rng.below(20) : rng.chance(0.1) ? 20 + rng.below(65488) : 20 + rng.below(60);
        uint64_t pid = pids[rng.below(9)];
        uint32_t len = rng.chance(0.5) ? (uint32_t) (n >= 20 ? n - 20 : 0) : (uint32_t) rng.below(65536);
        put(o, pid, 8); put(o, rng.chance(0.5) ? r.node : (uint32_t) rng.below(1 << 30) + (1u << 30), 4); put(o, len, 2);
        if (rng.chance(0.2))        // at a publisher's sending socket
            for (auto s : sim.socks) if (s && s->kind == K_UDP && s->bound && s->owner >= 0 && apps[(size_t) s->owner]->is_pub && rng.chance(0.5)) { sim.do_udp_send(r.udp, s->host, s->port, o); return; }
        put(o, rng.chance(0.7) ? r.lip : 0x0A000200u + (uint32_t) rng.below(3), 4); put(o, rng.chance(0.8) ? r.port : (uint16_t) rng.below(5), 2);
        while (o.size() < n) o.push_back((uint8_t) rng.next());
        o.resize(n);
        sim.do_udp_send(r.udp, GROUP, PORT, o);
        return;
    }
    std::vector<RawPeer::Conn*> v;
    for (auto& c : r.conns) if (!c->dead && !c->s->connecting) v.push_back(c.get());
    if (v.empty()) return;
    auto& c = *v[rng.below(v.size())];
    switch (rng.below(8)) {
    case 0: conn_close(c, rng.chance(0.5)); break;
    case 1: c.out.push_back((uint8_t) rng.next()); break;
    default: break;
    }
}

// What a hostile peer writes on one of its connections.
static void hostile_stream(World& w, RawPeer& r, RawPeer::Conn& c) {
    Rng& g = w.rng;
    auto& o = c.out;
    static const uint64_t edge[] = {0, 1, 2, 5, 100, 1000, 0x7FFFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFEull, 0xFFFFFFFFFFFFFFFFull};
    ++w.st.hostile;
    if (!r.is_pub) {
        switch (g.below(7)) {
        case 0: o.push_back(2); put(o, edge[g.below(9)], 8); put(o, edge[g.below(9)], 8); break;
        case 1: { uint64_t b = g.below(200); o.push_back(2); put(o, b, 8); put(o, b + g.below(20), 8); break; }
        case 2: { uint32_t n = (uint32_t) g.below(100); o.push_back(3); put(o, n, 2); while (n--) o.push_back((uint8_t) g.next()); break; }
        case 3: { uint32_t n = g.chance(0.2) ? (uint32_t) g.range(65394, 65399) : g.chance(0.3) ? (uint32_t) g.range(65380, 65535) : (uint32_t) g.range(60000, 65380); o.push_back(3); put(o, n, 2); while (n--) o.push_back((uint8_t) n); break; }
        case 4: o.push_back((uint8_t) g.next()); break;
        case 5: { size_t n = g.below(17); o.push_back(2); while (n--) o.push_back((uint8_t) g.next()); break; }
        default: o.push_back(3); put(o, 0, 2); break;
        }
    } else {
        switch (g.below(7)) {
        case 0: case 1: { auto b = w.raw_packet(r, r.next_pid + g.below(20), true); o.insert(o.end(), b.begin(), b.end()); break; }
        case 2: { auto b = w.raw_packet(r, edge[g.below(9)], true); o.insert(o.end(), b.begin(), b.end()); break; }
        case 3: { o.push_back(1); put(o, 7, 8); put(o, g.next(), 4); uint32_t n = (uint32_t) (g.chance(0.4) ? g.range(65310, 65314) : g.range(65300, 65535)); put(o, n, 2); put(o, 0, 6); while (n--) o.push_back((uint8_t) n); break; }
        case 4: o.push_back((uint8_t) g.next()); break;
        case 5: { size_t n = g.below(21); o.push_back(1); while (n--) o.push_back((uint8_t) g.next()); break; }
        default: w.conn_close(c, g.chance(0.5)); break;
        }
    }
}

void World::raw_act(RawPeer& r) {
    r.next_at = sim.now + rng.range(500, 8000) * (draining ? 1 : p.raw_slow);
    if (r.is_pub && sim.now >= r.next_ann && !draining) { raw_announce(r); r.next_ann = sim.now + 40000; }
    // Duties on every connection.
    for (auto& cp : r.conns) {
        auto& c = *cp;
        if (c.dead || c.s->connecting) continue;
        if (r.is_pub && !r.hostile) {
            for (auto it = c.owed.begin(); it != c.owed.end();) {
                if (it->second + 100000 > sim.now) { ++it; continue; }
                auto b = raw_packet(r, it->first, true);
                c.out.insert(c.out.end(), b.begin(), b.end());
                it = c.owed.erase(it);
            }
        }
        if (!r.is_pub && !c.silent && !c.to_ack.empty() && rng.chance(draining ? 1.0 : 0.3)) {
            if (rng.chance(0.2)) {   // a control message in between
                uint32_t n = 1 + (uint32_t) rng.below(80);
                c.out.push_back(3); put(c.out, n, 2);
                while (n--) c.out.push_back((uint8_t) rng.next());
            }
            while (!c.to_ack.empty()) {
                uint64_t f = c.to_ack.begin()->first, t = f;
                c.to_ack.erase(c.to_ack.begin());
                while (!c.to_ack.empty() && c.to_ack.begin()->first == t + 1) { ++t; c.to_ack.erase(c.to_ack.begin()); }
                c.out.push_back(2); put(c.out, f, 8); put(c.out, t, 8);
            }
        }
        if (r.hostile && rng.chance(0.4)) hostile_stream(*this, r, c);
        if (!r.hostile && !draining && rng.chance(0.01)) conn_close(c, rng.chance(0.5));
    }
    if (draining) return;
    if (r.hostile && rng.chance(0.7)) raw_garbage(r);
    if (r.is_pub && r.next_pid && rng.chance(0.5)) {
        // A batch of packets, some out of order, some twice, some only by TCP.
        std::vector<uint64_t> b;
        size_t n = 1 + rng.below(6);
        for (size_t i = 0; i < n && r.next_pid; ++i) b.push_back(r.next_pid++);
        std::vector<uint64_t> all = b;
        if (rng.chance(0.4)) for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[rng.below(i)]);
        for (auto pid : b) {
            if (!rng.chance(0.1)) sim.do_udp_send(r.udp, GROUP, PORT, raw_packet(r, pid, false));
            if (rng.chance(0.1)) sim.do_udp_send(r.udp, GROUP, PORT, raw_packet(r, pid, false));
        }
        for (auto& cp : r.conns) {
            if (cp->dead) continue;
            for (auto pid : all) cp->owed[pid] = sim.now;
            if (rng.chance(0.15)) { auto x = raw_packet(r, all[rng.below(all.size())], true); cp->out.insert(cp->out.end(), x.begin(), x.end()); }
        }
    }
    if (!r.is_pub) {
        size_t up = 0;
        for (auto& c : r.conns) if (!c->dead) ++up;
        if (up < 2 && rng.chance(0.2)) { App* a = alive(true, true); if (a) raw_connect(r, *a); }
    }
}

// ---- life of a case -------------------------------------------------------------------------------------------------

bool g_log_fixed;

World::World(const Case& cs, const std::string& f) : c(cs), p(cs.p), sim(cs.seed * 2654435761u + 17), rng(cs.seed), filter(f) {
    g_world = this; g_sim = &sim;
    sim.obs = this; sim.net = p.net; sim.now = p.start;
    // Processes without standard descriptors, and ones with many files open.
    static const int lowest[] = {3, 3, 3, 0, 0, 1, 1022, 32760, 65534};
    sim.fd_base = lowest[(cs.seed * 0x9E3779B97F4A7C15ull >> 40) % 9];
    if (!g_log_fixed) rmc_set_log_level(p.log_level);
}

World::~World() {
    g_world = this; g_sim = &sim;
    for (auto& a : apps) {
        for (auto& x : a->payloads) free(x.first);
        if (a->custom_alloc) for (auto& k : a->kept) free(k.first);
    }
    for (auto& k : live_payload) free(k.first);
    for (auto& b : sim.heap) free(b.first);
    sim.obs = nullptr;
    g_world = nullptr; g_sim = nullptr;
}

void World::setup() {
    end_at = sim.now + p.duration;
    next_op = sim.now + 1000;
    for (int i = 0; i < p.pubs && !failed; ++i) add_pub();
    for (int i = 0; i < p.subs && !failed; ++i) add_sub();
    if (failed) return;
    if (p.faults)
        sim.fault = [this](int sys, uint64_t, int) -> int {
            static const std::vector<int> e[S_COUNT] = {
                {EMFILE, ENFILE, ENOBUFS}, {ENOMEM, ENOPROTOOPT, ENOBUFS}, {ENOBUFS, ENOTCONN}, {EADDRINUSE, EACCES}, {EADDRINUSE}, {ENOBUFS},
                {ECONNREFUSED, ENETUNREACH, EADDRNOTAVAIL}, {EMFILE, ECONNABORTED, EAGAIN, EINTR, ENFILE}, {}, {ENOTCONN}, {EIO, EINTR},
                {ENOBUFS, EAGAIN, ENETUNREACH, EPERM, EINTR}, {ENOMEM, EAGAIN, EINTR, ECONNREFUSED}, {EAGAIN, EINTR, ECONNRESET, ETIMEDOUT},
                {EAGAIN, EINTR, ECONNRESET, EPIPE, ENOBUFS}};
            if (halt_faults || e[sys].empty() || !rng.chance(p.fault_p)) return 0;
            ++st.faults;
            return e[sys][rng.below(e[sys].size())];
        };
    for (auto& a : apps) {
        if (failed) return;
        for (int t = 0; t < 20 && activate(*a); ++t) {}
        if (a->is_pub && a->active) set_interval(*a, (uint32_t) p.announce);
    }
    for (int i = 0; i < p.raw_pubs; ++i) add_raw(true, p.hostile && (i || rng.chance(0.5)));
    for (int i = 0; i < p.raw_subs; ++i) add_raw(false, p.hostile && (i || rng.chance(0.5)));
}

// A connection that the publisher has no place for fills up while it waits to be accepted.
static bool waits_full(Session* s) {
    if (s->pub >= 0 || s->p_open || !s->link) return false;
    Pipe& o = s->link->pipe[0];
    return o.queued && o.queued + o.cap / 4 >= o.cap;       // as Sim::writable()
}

bool World::quiet() {
    for (auto& ap : apps) {
        App& a = *ap;
        if (!a.alive || !a.active) continue;
        if (!a.queued.empty() || !a.queued_ann.empty() || !a.inflight.empty() || !a.ready.empty()) return false;
    }
    for (auto& sp : sessions) {
        Session* s = sp.get();
        if (s->s_open && (!s->to_ack.empty() || s->s_pending) && !waits_full(s)) return false;
        if (s->p_open && (!s->p_out.empty() || !s->owed.empty())) return false;
        if (s->s_open && s->p_open && s->link && (s->link->pipe[0].queued || s->link->pipe[1].queued)) return false;
    }
    for (auto s : sim.socks) if (s && s->kind == K_UDP && !s->rx.empty()) return false;
    for (auto& r : raws)
        if (!r->closed && !r->hostile)
            for (auto& cn : r->conns) if (!cn->dead && (!cn->owed.empty() || !cn->out.empty())) return false;
    return sim.events.empty();
}

bool World::announced_by(App& a, uint32_t ip, uint16_t port) {
    (void) a;
    for (auto& x : apps) if (x->alive && x->active && x->is_pub && (x->lip ? x->lip : x->src()) == ip && x->lport == port) return true;
    return false;
}

// Let the faults stop, give everybody time, and look at what is left.
void World::drain() {
    if (failed) return;
    draining = true; halt_faults = true;
    trace("drain", 0, 0, 0);
    sim.net = p.drain_net;
    for (auto l : sim.links) for (auto& pp : l->pipe) pp.cap = std::max(pp.cap, sim.net.pipe_cap);   // nothing is to be limited by bandwidth
    for (auto& r : raws) {
        if (r->hostile) { raw_close(*r); continue; }
        for (auto& cn : r->conns) cn->reads = true;
    }
    // Wire-level peers first: what they were promised.
    usec_t lim = sim.now + 1500000;
    if (!raws.empty()) {
        while (sim.now < lim && !failed && !quiet()) step();
        run_for(300000);
        for (auto& r : raws) {
            if (r->closed || r->hostile) continue;
            for (auto& cn : r->conns) {
                if (cn->dead || !cn->s->link || !cn->s->link->sess) continue;
                Session* s = cn->s->link->sess;
                ++st.checks;
                if (r->is_pub) {
                    if (!s->s_open || !s->s_connected) continue;
                    if (!cn->owed.empty() || !cn->out.empty()) continue;
                    if (!s->beyond.empty()) {
                        // The publisher sent everything over TCP or was told it arrived, so the gap is before the start of the connection.
                        bool kf = false;
                        uint64_t gap = s->next;
                        if (!s->acked.count(gap) && !cn->got.count(gap)) kf = true;
                        if (kf) { s->kf2 = true; ++st.kf2; }
                    }
                } else {
                    App& a = *apps[(size_t) cn->target];
                    if (!s->p_open || !a.alive) continue;
                    for (auto pid : s->ever_owed)
                        if (!cn->got.count(pid)) { violation("R03,R17,R26", "packet " + S(pid) + " never reached a wire-level subscriber of pub" + S((uint64_t) a.id)); break; }
                }
            }
            raw_close(*r);
        }
    }
    if (failed) return;
    for (auto& ap : apps) {
        App& a = *ap;
        a.paused = 0;
        if (!a.alive) continue;
        a.reject = a.decline = 0;
        if (!a.active) for (int t = 0; t < 3 && activate(a); ++t) {}
        if (failed) return;
        if (a.is_pub && a.thr_s) throttle(a, 0, 0);
        if (a.is_pub) set_interval(a, 0);
        if (a.is_pub) set_interval(a, 50000);
    }
    double dec = p.decline;
    p.decline = 0;
    // Subscriptions come up as far as capacity allows.
    size_t np = 0, ns = 0;
    for (auto& a : apps) if (a->alive && a->active) (a->is_pub ? np : ns)++;
    auto full_of_twins = [&](App& x) {
        std::set<int> peers; size_t n = 0;
        for (auto& q : sessions)
            if (x.is_pub ? q->pub == x.id && q->p_open : q->sub == x.id && q->s_open) {
                ++n;
                // A twin that the publisher has no place for waits unaccepted.
                if (q->p_open && q->s_open) peers.insert(x.is_pub ? q->sub : q->pub);
            }
        return n >= x.cap && peers.size() < n;
    };
    auto twins_at = [&](bool pubs) {
        for (auto& x : apps) if (x->alive && x->active && x->is_pub == pubs && full_of_twins(*x)) return true;
        return false;
    };
    auto missing = [&]() -> std::string {
        for (auto& a : apps) {
            if (!a->alive || !a->active || !a->is_pub) continue;
            if (a->cap < ns || p.max_pubs < np) {
                if (p.max_pubs >= np && !twins_at(false) && a->sess.size() < std::min<size_t>(a->cap, ns)) return "publisher " + S((uint64_t) a->id) + " has " + S(a->sess.size()) + " subscribers, capacity " + S(a->cap);
                continue;
            }
            for (auto& b : apps) {
                if (!b->alive || !b->active || b->is_pub || !reaches(*a, *b)) continue;
                bool ok = false;
                for (auto s : a->sess) if (s->p_open && s->sub == b->id && s->s_connected) ok = true;
                // A publisher that was reached at two addresses takes two places.
                if (!ok && (full_of_twins(*a) || full_of_twins(*b))) continue;
                if (!ok) return "subscriber " + S((uint64_t) b->id) + " has no subscription to publisher " + S((uint64_t) a->id);
            }
        }
        for (auto& b : apps)
            if (b->alive && b->active && !b->is_pub && b->cap < np && p.max_subs >= ns && !twins_at(true) && open_subs(*this, *b) < b->cap)
                return "subscriber " + S((uint64_t) b->id) + " does not use all its connections";
        return "";
    };
    lim = sim.now + 4500000;
    std::string m;
    do run_for(60000); while (!failed && sim.now < lim && !(m = missing()).empty());
    if (failed) return;
    if (!m.empty()) { violation("R15,R20,R22", "subscriptions do not come back: " + m); return; }
    for (auto& a : apps) if (a->alive && a->is_pub) set_interval(*a, 0);
    run_for(5000);
    // One more packet from everybody, then silence.
    for (auto& a : apps)
        if (a->alive && a->active && a->is_pub && !failed) {
            if (!queue(*a, 1 + (uint32_t) rng.below(100))) violation("R14", "queueing is refused at rest");
        }
    lim = sim.now + 3000000;
    while (sim.now < lim && !failed && !quiet()) step();
    p.decline = dec;
    if (!failed) run_for(1000);
    finish_checks();
}

void World::finish_checks() {
    if (failed) return;
    for (auto& ap : apps) if (ap->alive && !ap->is_pub) dispatch(*ap, 1 << 30);
    for (auto& ap : apps)
        if (ap->alive && !ap->is_pub && !ap->ready.empty()) violation("R01,R03,R27", S(ap->ready.size()) + " packets were received but never handed to the application");
    for (auto& sp : sessions) {
        Session* s = sp.get();
        if (failed) return;
        ++st.checks;
        if (s->p_open && s->pub >= 0 && apps[(size_t) s->pub]->alive) {
            if (!s->owed.empty() || !s->p_out.empty())
                violation("R03,R02,R12,R10,R16,R18,R06", S(s->owed.size()) + " packets and " + S(s->p_out.size()) + " bytes are still owed to " + desc(s) + " after everything calmed down");
        }
        if (!s->s_open || !s->s_connected || !apps[(size_t) s->sub]->alive || waits_full(s)) continue;
        if (!s->to_ack.empty() || !s->issued.empty()) violation("R06,R18", S(s->to_ack.size() + s->issued.size()) + " packets were never acknowledged (" + desc(s) + ")");
        if (s->s_pending) violation("R12,R16,R11", S(s->s_pending) + " bytes were never written by the subscriber (" + desc(s) + ")");
        if (!s->ctl.empty()) violation("R11", "a control message was accepted but never sent");
        if (!s->p_open || s->pub < 0) continue;
        if (!s->p_in.empty()) violation("R12,R11", "an incomplete command is left in the stream from " + desc(s));
        for (auto pid : s->ever_owed) {
            if (s->anchored && pid < s->anchor) { ++st.kf1; continue; }      // known finding KF1
            if (s->anchored && (pid < s->next || s->next == 0)) continue;
            if (s->anchored && !s->ever_owed.count(s->next) && s->next >= s->anchor && s->next < pid) {   // known finding KF2
                s->kf2 = true;
                ++st.kf2;
                break;
            }
            violation("R03,R02,R12,R27", "packet " + S(pid) + " was never delivered to " + desc(s) + " (stream at " + S(s->next) + ")");
            break;
        }
    }
    for (auto& ap : apps) {
        App& a = *ap;
        if (!a.alive || failed) continue;
        begin(a, "rest");
        if (a.is_pub) {
            uint32_t q = 0, b = 0, k = 0;
            if (a.active && rmc_pub_context_get_pending(a.pub, &q, &b, &k)) violation("R19,R03", "work is reported as pending at rest");
        }
        uint64_t n = blocks_of(a.id), lim = a.base_blocks + 12 + a.queued.size() * 3;
        if (!a.is_pub) {
            for (auto& s : sessions) if (s->sub == a.id && s->s_open) lim += 3 * s->beyond.size();
            if (!a.custom_alloc) lim += a.kept.size();
        }
        if (check_growth && n > lim) violation("R05", "memory grows: " + S(n) + " blocks at rest, " + S(a.base_blocks) + " after initialisation");
        end(a);
    }
    ++st.final_ok;
}

void World::teardown() {
    if (failed) return;
    std::vector<App*> v;
    for (auto& a : apps) if (a->alive) v.push_back(a.get());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng.below(i)]);
    for (auto a : v) {
        if (failed) return;
        if (a->active && rng.chance(0.4)) deactivate(*a);
        if (!failed && !a->active && rng.chance(0.2)) deactivate(*a);     // twice is harmless
        if (!failed) destroy(*a);
    }
    for (auto& r : raws) raw_close(*r);
    if (failed) return;
    if (!live_payload.empty()) violation("R05", S(live_payload.size()) + " payloads were never released");
    if (!sim.heap.empty()) violation("R05", S(sim.heap.size()) + " blocks are left after all contexts were deleted");
    for (auto s : sim.socks) if (s) { violation("R16", "a descriptor is left open after all contexts were deleted"); break; }
}

bool World::run() {
    setup();
    while (!failed && sim.now < end_at && (st.steps < max_steps || scripted)) step();   // long cases are cut short
    if (rng.chance(0.25) && !scripted) { halt_faults = true; teardown(); return !failed; }     // deleted in the middle of everything
    if (p.final_phase) drain();
    halt_faults = true;
    teardown();
    return !failed;
}
