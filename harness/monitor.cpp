// Monitors: executable models of both roles, fed from the socket boundary and the API boundary.
#include "world.h"
#include <algorithm>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>

thread_local World* g_world = nullptr;
static const size_t BUF_CAP = RMC_MAX_PACKET - 1;
static const usec_t RESEND = 100000, ACKTO = 50000;

static uint16_t le16(const uint8_t* p) { return (uint16_t) (p[0] | p[1] << 8); }
static uint32_t le32(const uint8_t* p) { return (uint32_t) le16(p) | (uint32_t) le16(p + 2) << 16; }
static uint64_t le64(const uint8_t* p) { return (uint64_t) le32(p) | (uint64_t) le32(p + 4) << 32; }
static void put(std::deque<uint8_t>& o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o.push_back((uint8_t) (v >> (8 * i))); }
static std::string S(uint64_t v) { return std::to_string(v); }
static uint64_t hbytes(uint64_t h, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull; return h; }

void fill_payload(uint8_t* p, size_t n, uint64_t seed) {
    Rng r(seed);
    uint64_t v = 0;
    for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) v = r.next(); p[i] = (uint8_t) v; v >>= 8; }
}

static bool has_tag(const std::string& l, const std::string& t) {
    size_t i = l.find(t);
    return i != std::string::npos;
}

void World::violation(const char* props, const std::string& msg) {
    std::string pr = props;
    if (!p.extra.empty() && !has_tag(pr, p.extra))
        for (const char* h : {"R01", "R02", "R03", "R06", "R22"})
            if (has_tag(pr, h)) { pr += "," + p.extra; break; }
    if ((p.extra == "R22" || p.extra == "R20") && !has_tag(pr, p.extra))
        for (const char* h : {"R16", "R05", "R12", "R11"})
            if ((p.extra == "R20" ? h[1] == '1' && h[2] != '6' : true) && has_tag(pr, h)) { pr += "," + p.extra; break; }
    if (call.foreign && !has_tag(pr, "R29")) pr += ",R29";
    std::string m = msg + " [t=" + std::to_string(sim.now) + " call=" + call.name + " app=" + std::to_string(call.app) + "]";
    if (tracing) fprintf(tf, "!! %s: %s\n", pr.c_str(), m.c_str());
    if (filter.empty() || has_tag(pr, filter)) {
        if (!failed) { failed = true; fail_props = pr; fail_msg = m; }
    } else {
        ++st.other;
        if (others.size() < 4) others.push_back(pr + ": " + m);
    }
}

void World::trace(const char* what, int64_t a, int64_t b, int64_t c) {
    uint64_t h = hash;
    h = hbytes(h, (const uint8_t*) what, strlen(what));
    h = hbytes(h, (const uint8_t*) &a, 8); h = hbytes(h, (const uint8_t*) &b, 8); h = hbytes(h, (const uint8_t*) &c, 8);
    h = hbytes(h, (const uint8_t*) &sim.now, 8);
    hash = h;
    // The shape leaves out times and sizes: it counts distinct interleavings of operations.
    shape = hbytes(shape, (const uint8_t*) what, strlen(what));
    shape = (shape ^ (uint64_t) (sim.cur + 1)) * 1099511628211ull;
    if (tracing) fprintf(tf, "%9ld app%d %-14s %ld %ld %ld\n", (long) sim.now, sim.cur, what, (long) a, (long) b, (long) c);
}

std::string World::desc(Session* s) {
    return "pub" + std::to_string(s->pub) + "/sub" + std::to_string(s->sub) + "/link" + std::to_string(s->link ? s->link->id : -1);
}

Session* World::sess_of(Link* l) {
    if (l->sess) return l->sess;
    sessions.emplace_back(new Session());
    Session* s = sessions.back().get();
    s->link = l; l->sess = s;
    return s;
}

Session* World::sub_session(App& a, uint32_t ip, uint16_t port) {
    for (auto& s : sessions)
        if (s->sub == a.id && s->s_open && s->ip == ip && s->port == port) return s.get();
    return nullptr;
}

size_t open_subs(World& w, App& a) {
    size_t n = 0;
    for (auto& s : w.sessions) if (s->sub == a.id && s->s_open) ++n;
    return n;
}

// ---- memory ---------------------------------------------------------------------------------------------------------

void World::on_alloc(void*, size_t) {}
bool World::on_free(void* q) {
    auto it = live_payload.find(q);
    if (it == live_payload.end()) {
        if (sim.cur >= 0 && !apps[sim.cur]->is_pub) {
            App& a = *apps[sim.cur];
            if (a.payloads.count(q)) violation("R05,R23", "the library calls free() on a payload that came from the application's allocator");
        }
        return false;
    }
    Pkt* k = it->second;
    if (sim.cur >= 0 && apps[sim.cur]->custom_free)
        violation("R04,R05,R23", "payload of packet " + S(k->pid) + " released with free() instead of the callback");
    released(k, k->len, false);
    return true;
}

void World::released(Pkt* k, uint32_t len, bool has_len) {
    if (has_len && len != k->len) violation("R05,R23", "payload released with length " + S(len) + " instead of " + S(k->len));
    if (hbytes(k->guard, (uint8_t*) k->ptr, k->len) != k->hash)
        violation("R04,R05,R02", "payload of packet " + S(k->pid) + " was modified while the library held it");
    k->released = true;
    live_payload.erase(k->ptr);
    trace("released", (int64_t) k->pid, k->len, 0);
    ++st.released;
    if (k->pub != sim.cur) violation("R05,R21", "a payload was released by another context");
    call.rel.push_back(k);
    ++st.checks;
    free(k->ptr);
    k->ptr = nullptr;
}

uint64_t World::blocks_of(int app) {
    uint64_t n = 0;
    for (auto& b : sim.heap) if (b.second.app == app) ++n;
    return n;
}

// ---- descriptors ----------------------------------------------------------------------------------------------------

void World::on_open(int, Sock&) {}
void World::on_close(int app, Sock& k) {
    ++progress;
    if (app < 0) return;
    App& a = *apps[app];
    if (a.no_remove)
        for (auto i = a.regs.begin(); i != a.regs.end();) if (i->second.fd == k.fd) i = a.regs.erase(i); else ++i;
    for (auto& r : a.regs)
        if (r.second.fd == k.fd) violation("R16", "descriptor " + S((uint64_t) k.fd) + " is closed while it is still registered for polling (index " + S((uint64_t) r.first) + ")");
    if (k.kind != K_TCP || !k.link) return;
    Session* s = sess_of(k.link);
    ++st.closes;
    if (k.side == 1) {
        if (!s->p_cause && !call.closing && !s->p_rejected && !faulty())
            violation("R03,R17,R20", "the publisher closed a healthy connection (" + desc(s) + ")");
        s->p_open = false;
        std::vector<uint64_t> o;
        for (auto& x : s->owed) o.push_back(x.first);
        for (auto pid : o) pub_drop(s, pid);
        s->p_out.clear();
        for (size_t i = 0; i < a.sess.size(); ++i) if (a.sess[i] == s) { a.sess.erase(a.sess.begin() + (long) i); break; }
    } else {
        if (!s->s_cause && !call.closing && !faulty())
            violation("R01,R03,R20", "the subscriber closed a healthy connection (" + desc(s) + ")");
        s->s_open = s->s_connected = false;
        s->beyond.clear(); s->to_ack.clear(); s->issued.clear(); s->ctl.clear(); s->s_out.clear(); s->s_in.clear(); s->s_pending = 0;
    }
    call.closed.push_back(s);
}

// ---- publisher: multicast -------------------------------------------------------------------------------------------

void World::on_udp_send(int app, Sock& k, uint32_t dip, uint16_t dport, const std::vector<uint8_t>& d) {
    App& a = *apps[app];
    ++st.checks; ++progress; ++call.udp_sent;
    if (!a.is_pub) { violation("R26", "a subscriber sends a datagram"); return; }
    if (dip != a.group || dport != a.mport) violation("R26,R29", "datagram sent to the wrong group or port");
    if ((k.mcast_if ? k.mcast_if : k.host) != a.src()) violation("R29", "datagram sent through the wrong interface");
    if (k.ttl != a.ttl) violation("R29", "datagram sent with hop limit " + S((uint64_t) k.ttl) + " instead of " + S((uint64_t) a.ttl));
    if (d.size() < 20) { violation("R26,R02", "datagram of " + S(d.size()) + " bytes: no complete header"); return; }
    uint64_t pid = le64(&d[0]); uint32_t node = le32(&d[8]); uint16_t len = le16(&d[12]); uint32_t lip = le32(&d[14]); uint16_t lport = le16(&d[18]);
    if (len != d.size() - 20) violation("R26,R02", "header says " + S(len) + " payload bytes, datagram has " + S(d.size() - 20));
    if (node != a.node) violation("R26", "wrong node id on the wire");
    if (lip != a.lip || lport != a.lport) violation("R26,R15,R29", "wrong control address on the wire");
    std::vector<uint8_t> body(d.begin() + 20, d.end());
    if (pid == 0) {
        ++st.announces; ++a.ann_sent;
        if (a.queued_ann.empty()) { violation("R15,R26", "an announcement is sent that nobody asked for"); return; }
        Pkt* q = a.queued_ann.front();
        a.queued_ann.pop_front();
        bool same;
        if (q->ptr) same = body.size() == q->len && (body.empty() || !memcmp(body.data(), q->ptr, body.size()));
        else { std::vector<uint8_t> e(q->len); fill_payload(e.data(), e.size(), q->seed); same = e == body; }
        if (!same) violation("R15,R26", "announcement payload differs from what the application provided");
        q->sent = true;
        if (q->ptr) call.due.push_back(q);
        return;
    }
    ++st.mcast;
    if (a.queued.empty()) { violation("R01,R10,R26", "packet " + S(pid) + " is multicast but nothing is queued"); return; }
    Pkt* q = a.queued.front();
    a.queued.pop_front();
    if (pid != q->pid) violation("R01,R10,R26", "packet number " + S(pid) + " on the wire, expected " + S(q->pid));
    if (body.size() != q->len || (q->ptr && q->len && memcmp(body.data(), q->ptr, q->len)))
        violation("R02,R26", "multicast payload of packet " + S(pid) + " differs from the queued one");
    q->sent = true; q->sent_at = sim.now;
    for (auto s : a.sess)
        if (s->p_open) {
            q->owed.insert(s); s->owed[q->pid] = q; s->ever_owed.insert(q->pid); s->last_owed = q->pid;
        }
    if (q->owed.empty()) call.due.push_back(q);
    else a.inflight[q->pid] = q;
}

void World::pub_drop(Session* s, uint64_t pid) {
    auto it = s->owed.find(pid);
    if (it == s->owed.end()) return;
    Pkt* k = it->second;
    s->owed.erase(it);
    k->owed.erase(s);
    if (k->owed.empty()) {
        call.due.push_back(k);
        if (k->pub >= 0) apps[k->pub]->inflight.erase(k->pid);
    }
}

// ---- publisher: TCP -------------------------------------------------------------------------------------------------

void World::on_accept(int app, Link* l) {
    App& a = *apps[app];
    Session* s = sess_of(l);
    s->pub = app; s->p_open = s->p_known = true; s->p_since = sim.now;
    a.sess.push_back(s);
    call.accepted.push_back(s);
    ++progress; ++st.checks;
    if (a.sess.size() > a.cap) violation("R20,R19", "more connections accepted than the configured capacity");
}

void World::pub_parse(Session* s) {
    auto& b = s->p_in;
    App& a = *apps[s->pub];
    size_t i = 0;
    while (!s->p_bad && i < b.size()) {
        size_t n = b.size() - i;
        if (b[i] == 2) {
            if (n < 17) break;
            uint64_t f = le64(&b[i + 1]), t = le64(&b[i + 9]);
            ++st.acks;
            std::vector<uint64_t> hit;
            for (auto it = s->owed.lower_bound(f); it != s->owed.end() && it->first <= t; ++it) hit.push_back(it->first);
            for (auto pid : hit) pub_drop(s, pid);
            i += 17;
        } else if (b[i] == 3) {
            if (n < 3) break;
            size_t len = le16(&b[i + 1]);
            if (len + 3 > BUF_CAP) { s->p_bad = true; break; }
            if (n < 3 + len) break;
            if (a.has_ctl_cb) {
                Call::Ctl c; c.s = s; c.d.assign(b.begin() + (long) i + 3, b.begin() + (long) (i + 3 + len));
                call.ctl.push_back(std::move(c));
            }
            ++st.ctl;
            i += 3 + len;
        } else s->p_bad = true;
    }
    b.erase(b.begin(), b.begin() + (long) i);
    if (s->p_bad) { s->p_cause = true; call.bad.push_back(s); b.clear(); ++st.hostile; }
}

void World::on_connect(int app, Link* l) {
    App& a = *apps[app];
    ++st.checks; ++progress;
    if (a.is_pub) { violation("R15", "a publisher connects"); return; }
    if (!call.exp_conn) violation("R15", "a connection is made without an announcement the application agreed to");
    else if (l->sip != call.aip || l->sport != call.aport) violation("R15,R26", "connection to the wrong address");
    if (sub_session(a, l->sip, l->sport)) violation("R15,R20", "a second connection to the same publisher");
    call.exp_conn = false;
    if (l->id < 0) { trace("connect-fail", l->cerr, 0, 0); return; }
    Session* s = sess_of(l);
    s->sub = app; s->ip = l->sip; s->port = l->sport; s->node = call.anode; s->s_open = true; s->s_since = sim.now;
    ++st.subs;
    if (open_subs(*this, a) > a.cap) violation("R20", "more connections than the configured capacity");
}

void World::on_tcp_write(int app, Link* l, int side, const uint8_t* q, size_t n) {
    Session* s = sess_of(l);
    ++progress; (void) app;
    hash = hbytes(hash, q, n);
    if (side == 1) {
        ++st.checks;
        for (size_t i = 0; i < n; ++i) {
            if (s->p_out.empty()) { violation("R03,R10,R12,R18,R26", "the publisher writes bytes on TCP that no due resend explains (" + desc(s) + ")"); return; }
            if (s->p_out.front() != q[i]) {
                violation("R02,R03,R10,R12,R26", "byte " + S(s->p_out_written) + " of the resend stream to " + desc(s) + " is wrong");
                s->p_out.clear();
                return;
            }
            s->p_out.pop_front(); ++s->p_out_written;
        }
    } else {
        if (n > s->s_pending) violation("R12,R26", "the subscriber writes more bytes than its commands have");
        s->s_pending -= std::min(n, s->s_pending);
        s->s_out.insert(s->s_out.end(), q, q + n);
        sub_out_parse(s);
    }
}

void World::on_tcp_read(int app, Link* l, int side, const uint8_t* q, size_t n) {
    Session* s = sess_of(l);
    (void) app;
    ++progress; ++st.reads;
    hash = hbytes(hash, q, n);
    if (side == 1) { if (!s->p_bad) { s->p_in.insert(s->p_in.end(), q, q + n); pub_parse(s); } }
    else if (!s->s_bad) { s->s_in.insert(s->s_in.end(), q, q + n); sub_parse(s); }
}

void World::on_tcp_eof(int, Link* l, int side, bool) {
    Session* s = sess_of(l);
    (side ? s->p_cause : s->s_cause) = true;
    ++progress;
    if (!strcmp(call.name, "read")) call.bad.push_back(s);
}

// ---- subscriber -----------------------------------------------------------------------------------------------------

void World::settle() {
    if (call.app < 0) return;
    App& a = *apps[call.app];
    if (call.exp_ann && !call.ann_called && a.has_sann_cb)
        violation("R15,R23", "an announcement of a publisher without subscription is not reported");
    if (call.exp_conn && !faulty()) violation("R15,R20", "no connection is made to an announced publisher although a slot is free");
    call.exp_ann = call.exp_conn = call.ann_called = false;
}

void World::on_udp_recv(int app, Sock& k, const Dgram& d, size_t given) {
    (void) k;
    App& a = *apps[app];
    ++progress; ++st.checks; ++st.reads;
    settle();
    call.udp_bad = false;
    hash = hbytes(hash, d.data.data(), d.data.size());
    if (a.is_pub) return;
    // Traffic of another group or interface is nothing this subscriber may act on.
    if (d.dst_ip >> 28 == 14 && (d.dst_ip != a.group || d.seg != segment(a.host, a.src()))) { call.foreign = true; ++st.hostile; return; }
    if (given < 20) { ++st.hostile; call.udp_bad = given > 0; return; }
    const uint8_t* q = d.data.data();
    uint64_t pid = le64(q); uint32_t node = le32(q + 8); uint16_t len = le16(q + 12); uint32_t ip = le32(q + 14); uint16_t port = le16(q + 18);
    if (given < 20u + len) { ++st.hostile; call.udp_bad = true; return; }
    if (!ip) ip = d.src_ip;
    Session* s = sub_session(a, ip, port);
    call.last_udp = s && s->s_connected ? 1 : 2;
    if (!s || !s->s_connected) {
        if (pid || s) return;
        call.exp_ann = true; call.ann_called = false;
        call.aip = ip; call.aport = port; call.anode = node; call.apay.assign(q + 20, q + 20 + len);
        if (!a.has_sann_cb) call.exp_conn = open_subs(*this, a) < a.cap;
        return;
    }
    if (!pid) return;
    sub_accept(a, s, pid, q + 20, len, true);
}

void World::sub_accept(App& a, Session* s, uint64_t pid, const uint8_t* d, size_t n, bool mcast) {
    if (s->anchored && (s->next == 0 || pid < s->next || s->beyond.count(pid))) {
        ++st.dup; ++s->n_dup;
        if (!mcast && pid < s->anchor) s->kf1.push_back(pid);
        return;
    }
    if (!s->anchored) { s->anchored = true; s->anchor = s->next = pid; }
    if (pid != s->next) ++st.reorders;
    RxPkt x;
    x.pid = pid; x.data.assign(d, d + n); x.s = s;
    s->beyond[pid] = std::move(x);
    if (mcast) { s->to_ack[pid] = sim.now; ++s->n_mcast; } else { ++s->n_tcp; ++st.resends; }
    while (s->next) {
        auto it = s->beyond.find(s->next);
        if (it == s->beyond.end()) break;
        a.ready.push_back(std::move(it->second));
        s->beyond.erase(it);
        ++s->next; ++call.added; ++s->n_delivered;
    }
}

void World::sub_parse(Session* s) {
    auto& b = s->s_in;
    App& a = *apps[s->sub];
    size_t i = 0;
    while (!s->s_bad && i < b.size()) {
        size_t n = b.size() - i;
        if (b[i] != 1) { s->s_bad = true; break; }
        if (n < 21) break;
        size_t len = le16(&b[i + 13]);
        if (len > RMC_MAX_PAYLOAD) { s->s_bad = true; break; }
        if (n < 21 + len) break;
        uint64_t pid = le64(&b[i + 1]);
        if (pid) sub_accept(a, s, pid, b.data() + i + 21, len, false);
        i += 21 + len;
    }
    b.erase(b.begin(), b.begin() + (long) i);
    if (s->s_bad) { s->s_cause = true; call.bad.push_back(s); b.clear(); ++st.hostile; }
}

void World::sub_out_parse(Session* s) {
    auto& b = s->s_out;
    size_t i = 0;
    while (i < b.size()) {
        size_t n = b.size() - i;
        if (b[i] == 2) {
            if (n < 17) break;
            uint64_t f = le64(&b[i + 1]), t = le64(&b[i + 9]);
            ++st.acks; ++st.checks;
            if (f > t || t - f > 1000000) { violation("R06,R26", "malformed acknowledgement interval [" + S(f) + "," + S(t) + "]"); i += 17; continue; }
            for (uint64_t pid = f;; ++pid) {
                if (!s->issued.erase(pid) && !s->to_ack.erase(pid))
                    violation("R06,R20", "packet " + S(pid) + " acknowledged " + (s->acked.count(pid) ? "twice" : "although it was never received by multicast in this subscription"));
                s->acked.insert(pid);
                if (pid == t) break;
            }
            i += 17;
        } else if (b[i] == 3) {
            if (n < 3) break;
            size_t len = le16(&b[i + 1]);
            if (n < 3 + len) break;
            ++st.checks;
            if (s->ctl.empty()) violation("R11,R26", "a control message is sent that no successful call asked for");
            else {
                if (s->ctl.front().size() != len || (len && memcmp(s->ctl.front().data(), &b[i + 3], len)))
                    violation("R11,R26", "control message on the wire differs from the one written");
                s->ctl.pop_front();
            }
            i += 3 + len;
        } else { violation("R12,R26,R06", "unknown command " + S(b[i]) + " written by the subscriber"); b.clear(); return; }
    }
    b.erase(b.begin(), b.begin() + (long) i);
}

// ---- library calls --------------------------------------------------------------------------------------------------

void World::begin(App& a, const char* name) {
    call = Call();
    call.app = a.id; call.name = name; call.faults0 = sim.ev_faults;
    sim.cur = a.id; sim.cur_host = a.host; sim.call_sys = 0; sim.call_udp_full = false;
    ++st.calls;
    trace(name, a.id, 0, 0);
    if (!a.is_pub && a.sub) call.seen = a.delivered + (uint64_t) rmc_sub_get_dispatch_ready_count(a.sub);
    call.inflight0 = a.inflight.size();
    if (!strcmp(name, "timeout")) {
        if (a.is_pub) {
            call.ann_due = a.ann_iv && a.ann_next && a.ann_next <= sim.now;
            for (auto s : a.sess) {
                std::vector<std::pair<uint64_t, Pkt*>> due(s->owed.begin(), s->owed.end());
                for (auto& o : due) {
                    Pkt* k = o.second;
                    if (k->sent_at + RESEND > sim.now) break;
                    if (s->p_out.size() + 21 + k->len > BUF_CAP) { ++st.fullchan; break; }
                    s->p_out.push_back(1);
                    put(s->p_out, k->pid, 8); put(s->p_out, a.node, 4); put(s->p_out, k->len, 2); put(s->p_out, a.lip, 4); put(s->p_out, a.lport, 2);
                    std::vector<uint8_t> body(k->len);
                    fill_payload(body.data(), k->len, k->seed);
                    s->p_out.insert(s->p_out.end(), body.begin(), body.end());
                    s->p_out_total += 21 + k->len;
                    s->resent.insert(k->pid);
                    ++st.resends;
                    pub_drop(s, k->pid);
                }
            }
        } else {
            for (auto& sp : sessions) {
                Session* s = sp.get();
                if (s->sub != a.id || !s->s_connected || s->to_ack.empty()) continue;
                usec_t old = INT64_MAX;
                for (auto& t : s->to_ack) old = std::min(old, t.second);
                if (old + ACKTO > sim.now) continue;
                while (!s->to_ack.empty()) {
                    if (s->s_pending + 17 > BUF_CAP) { ++st.fullchan; break; }
                    uint64_t pid = s->to_ack.begin()->first;
                    while (!s->to_ack.empty() && s->to_ack.begin()->first == pid) {
                        s->issued.insert(*s->to_ack.begin());
                        s->to_ack.erase(s->to_ack.begin());
                        ++pid;
                    }
                    s->s_pending += 17;
                }
            }
        }
    }
}

void World::end(App& a) {
    settle();
    find_sockets(a);
    for (auto s : call.bad) {
        bool open = a.is_pub ? s->p_open : s->s_open;
        if (open) violation(s->p_bad || s->s_bad ? "R12,R13" : "R20,R16,R13",
                            s->p_bad || s->s_bad ? "a connection that sent an invalid command is kept open (" + desc(s) + ")"
                                                 : "a connection whose peer is gone is kept open (" + desc(s) + ")");
    }
    for (auto& c : call.ctl)
        if (c.d.size()) { violation("R11,R12", "a complete control message of " + S(c.d.size()) + " bytes was not delivered in the read call that completed it"); break; }
    for (auto s : call.accepted) {
        if (a.has_conn_cb && !s->p_conn_cb && !faulty()) violation("R23", "a subscriber is accepted without asking the connect callback");
        if (s->p_rejected && s->p_open) violation("R23,R20", "a rejected subscriber stays connected");
    }
    for (auto s : call.closed)
        if (a.is_pub && s->pub == a.id) {
            bool fresh = false;
            for (auto t : call.accepted) if (t == s) fresh = true;
            if (a.has_disc_cb && !fresh && !s->p_disc_cb) violation("R23", "a subscriber went away without a disconnect callback");
        }
    if (!a.is_pub && a.alive && a.has_ready_cb && a.delivered + (uint64_t) rmc_sub_get_dispatch_ready_count(a.sub) > call.seen)
        violation("R23", "packets became available without a packet-ready callback");
    if (a.is_pub)
        for (auto s : a.sess)
            if (s->p_disc_cb) violation("R23", "disconnect callback for a subscriber that stays connected (" + desc(s) + ")");
    for (auto k : call.rel) {
        if (call.destroying) continue;
        if (!k->sent) violation("R04,R05", "payload of packet " + S(k->pid) + " released before it was sent");
        else if (!k->owed.empty()) violation("R04,R10", "payload of packet " + S(k->pid) + " released although " + desc(*k->owed.begin()) + " has neither acknowledged it nor been sent a copy");
    }
    for (auto k : call.due)
        if (!k->released) violation("R04,R05,R10", "payload of packet " + S(k->pid) + " is not released although no subscriber owes it any more");
    if (a.is_pub && a.alive && a.suspended) {
        // With equal thresholds a number that sits exactly on them has been reached, but it has not fallen: both answers are right.
        if (call.dipped && a.suspended) a.suspended = rmc_pub_traffic_suspended(a.pub) == EBUSY;
        if (a.thr_s && a.thr_s == a.thr_r && a.inflight.size() == a.thr_s) a.suspended = rmc_pub_traffic_suspended(a.pub) == EBUSY;
        else if (a.thr_s == 0 || a.inflight.size() <= a.thr_r) a.suspended = false;
    }
    if (a.alive) check_app(a);
    else {
        for (auto& r : a.regs) { violation("R16", "index " + S((uint64_t) r.first) + " is still registered after the context was deleted"); break; }
        for (auto s : sim.socks) if (s && s->owner == a.id) { violation("R16,R05", "a descriptor is still open after the context was deleted"); break; }
    }
    sim.cur = -1;
    call.app = -1; call.name = "";
}

usec_t World::timer(App& a) {
    usec_t t = -1;
    auto lower = [&](usec_t x) { if (t == -1 || x < t) t = x; };
    if (a.is_pub) {
        if (a.ann_next) lower(a.ann_next);
        if (!a.inflight.empty()) lower(a.inflight.begin()->second->sent_at + RESEND);   // sent in the order of their ids
    } else
        for (auto& s : sessions)
            if (s->sub == a.id && s->s_connected)
                for (auto& x : s->to_ack) lower(x.second + ACKTO);
    return t;
}

void World::check_app(App& a) {
    ++st.checks;
    int saved = sim.cur;
    sim.cur = a.id;
    usec_t want = timer(a), got = -2;
    if (a.is_pub) {
        uint32_t q = 77, sb = 77, ac = 77;
        size_t eq = a.queued.size() + a.queued_ann.size(), esb = 0, eac = 0;
        for (auto s : a.sess) { esb += s->p_out.size(); eac += s->owed.size(); }
        int rc = rmc_pub_context_get_pending(a.pub, &q, &sb, &ac);
        if (q != eq || rmc_pub_queue_length(a.pub) != eq) violation("R19,R10", "queue length reported as " + S(q) + "/" + S(rmc_pub_queue_length(a.pub)) + ", is " + S(eq));
        if (sb != esb) violation("R19,R12,R03", "pending TCP bytes reported as " + S(sb) + ", are " + S(esb));
        if (ac != eac) violation("R19,R10,R03", "outstanding acknowledgements reported as " + S(ac) + ", are " + S(eac));
        if (rc != (eq || esb || eac ? EBUSY : 0)) violation("R19", "pending query returns " + S((uint64_t) rc));
        if (rmc_pub_get_subscriber_count(a.pub) != a.sess.size()) violation("R19,R20", "subscriber count reported as " + S(rmc_pub_get_subscriber_count(a.pub)) + ", is " + S(a.sess.size()));
        if (rmc_pub_get_socket_count(a.pub) != a.sess.size() + (a.active ? 2 : 0)) violation("R19", "socket count reported as " + S(rmc_pub_get_socket_count(a.pub)));
        if (rmc_pub_get_max_subscriber_count(a.pub) != a.cap) violation("R19", "capacity reported as " + S(rmc_pub_get_max_subscriber_count(a.pub)));
        if (rmc_pub_traffic_suspended(a.pub) != (a.suspended ? EBUSY : 0))
            violation(a.thr_misused ? "R14,R28" : "R14", std::string("traffic reported as ") + (a.suspended ? "running" : "suspended") + " with " + S(a.inflight.size()) + " packets in flight, thresholds " + S(a.thr_s) + "/" + S(a.thr_r));
        if (rmc_pub_timeout_get_next(a.pub, &got)) violation("R18", "the timeout query fails");
        if (rmc_pub_user_data(a.pub).u64 != a.token || rmc_pub_node_id(a.pub) != a.node) violation("R23", "user data or node id query is wrong");
    } else {
        size_t n = open_subs(*this, a);
        if ((size_t) rmc_sub_get_dispatch_ready_count(a.sub) != a.ready.size())
            violation((size_t) rmc_sub_get_dispatch_ready_count(a.sub) < a.ready.size() ? "R01,R19,R03,R27" : "R01,R19,R27", S((uint64_t) rmc_sub_get_dispatch_ready_count(a.sub)) + " packets available to the application, should be " + S(a.ready.size()));
        if (rmc_sub_get_publisher_count(a.sub) != n) violation("R19,R20", "publisher count reported as " + S(rmc_sub_get_publisher_count(a.sub)) + ", is " + S(n));
        if (rmc_sub_get_socket_count(a.sub) != n + (a.active ? 1 : 0)) violation("R19", "socket count reported as " + S(rmc_sub_get_socket_count(a.sub)));
        if (rmc_sub_get_max_publisher_count(a.sub) != a.cap) violation("R19", "capacity reported as " + S(rmc_sub_get_max_publisher_count(a.sub)));
        if (rmc_sub_timeout_get_next(a.sub, &got)) violation("R18", "the timeout query fails");
        if (rmc_sub_user_data(a.sub).u64 != a.token || rmc_sub_node_id(a.sub) != a.node) violation("R23", "user data or node id query is wrong");
    }
    if (got != want) violation(a.is_pub ? want != -1 && want == a.ann_next ? "R18,R15" : "R18,R10,R03" : "R18,R06", "next timeout reported as " + std::to_string(got) + ", should be " + std::to_string(want));
    // Descriptors and poll interest.
    size_t open = 0;
    std::vector<int> fds;
    for (auto& r : a.regs) fds.push_back(r.second.fd);
    std::sort(fds.begin(), fds.end());
    for (auto s : sim.socks)
        if (s && s->owner == a.id) {
            ++open;
            if (!std::binary_search(fds.begin(), fds.end(), s->fd)) { violation("R16,R22", "descriptor " + S((uint64_t) s->fd) + " is open but not registered for polling (leaked)"); break; }
        }
    for (auto& r : a.regs) {
        Sock* s = sim.get(r.second.fd);
        if (!s || s->owner != a.id) { violation("R16", "index " + S((uint64_t) r.first) + " is registered with a descriptor that is not open"); continue; }
        int act = a.no_modify ? interest(a, s) : r.second.act;
        bool rd = act & RMC_POLLREAD, wr = act & RMC_POLLWRITE;
        if (s->kind == K_TCP && s->link) {
            Session* x = sess_of(s->link);
            bool conn = a.is_pub || x->s_connected;
            size_t pend = a.is_pub ? x->p_out.size() : x->s_pending;
            if (conn && !s->nodelay && !p.faults) violation("R29", "a connection is up with Nagle's algorithm on (index " + S((uint64_t) r.first) + ")");
            if (conn && !rd) violation("R16", "read interest is off on a connection that is up (index " + S((uint64_t) r.first) + ")");
            if (conn && wr != (pend > 0)) violation(wr ? "R16,R12" : a.is_pub ? "R16,R12,R03" : "R16,R12,R06,R11", std::string("write interest is ") + (wr ? "on with nothing" : "off with " + S(pend) + " bytes") + " to send (index " + S((uint64_t) r.first) + ")");
            if (!conn && !wr) violation("R16", "write interest is off while connecting");
        } else if (s->kind == K_LISTEN) {
            if (!rd) violation("R16", "read interest is off on the listening socket");
        } else if (a.is_pub) {
            bool pend = !a.queued.empty() || !a.queued_ann.empty();
            if (wr != pend) violation("R16", std::string("multicast write interest is ") + (wr ? "on with an empty queue" : "off although packets are queued"));
        } else if (!rd) violation("R16", "read interest is off on the multicast socket");
    }
    sim.cur = saved;
}
