#include "sim.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

thread_local Sim* g_sim = nullptr;

const char* sys_name(int s) {
    static const char* n[] = {"socket", "setsockopt", "getsockopt", "bind", "listen", "getsockname", "connect", "accept",
                              "fcntl", "shutdown", "close", "sendmsg", "recvfrom", "readv", "writev"};
    return s >= 0 && s < S_COUNT ? n[s] : "?";
}

Sim::~Sim() {
    for (auto s : all_socks) delete s;
    for (auto l : links) delete l;
}

Sock* Sim::lib_get(int fd, const char* what) {
    Sock* s = get(fd);
    if (!s) {
        if (obs) obs->violation("R16", std::string(what) + "() on descriptor " + std::to_string(fd) + ", which is not open");
        errno = EBADF;
        return nullptr;
    }
    if (s->owner != cur && obs)
        obs->violation("R16,R21", std::string(what) + "() on a descriptor of another context");
    return s;
}

Sock* Sim::new_sock(SockKind k, int owner, uint32_t host) {
    Sock* s = new Sock();
    s->kind = k; s->owner = owner; s->host = host; s->fd = -1;
    all_socks.push_back(s);
    size_t i = 0;
    if (owner >= 0) {
        while (i < socks.size() && socks[i]) ++i;
        if (i == socks.size()) socks.push_back(nullptr);
        socks[i] = s;
        s->fd = (int) i + fd_base;
    } else {
        // Raw peers live outside of the library's descriptor table.
        static thread_local int raw = 1 << 20;
        s->fd = raw++;
    }
    return s;
}

void Sim::free_fd(Sock* s) {
    int i = s->fd - fd_base;
    if (s->owner >= 0 && i >= 0 && i < (int) socks.size() && socks[i] == s) socks[i] = nullptr;
    s->fd = -1;
}

bool Sim::hup(Sock* s) {
    if (s->kind != K_TCP || !s->link) return false;
    Link* l = s->link;
    if (s->connecting) return l->cerr != 0;
    return now >= l->gone_at[s->side];
}

bool Sim::readable(Sock* s) {
    if (s->kind == K_UDP) return !s->rx.empty();
    if (s->kind == K_LISTEN) return !s->backlog.empty();
    if (!s->link || s->connecting) return s->link && s->link->cerr;
    Link* l = s->link;
    Pipe& p = l->pipe[1 - s->side];
    if (p.any(now)) return true;
    return now >= l->gone_at[s->side];
}

bool Sim::writable(Sock* s) {
    if (s->kind == K_UDP) return true;
    if (s->kind == K_LISTEN) return false;
    if (!s->link) return true;
    Link* l = s->link;
    if (s->connecting) return l->established || l->cerr;
    if (now >= l->gone_at[s->side]) return true;
    Pipe& p = l->pipe[s->side];
    return p.cap && (p.queued + (p.cap >= 4 ? p.cap / 4 : 0) < p.cap || p.queued == 0);
}

void Sim::stall(Link* l, int side, usec_t d, bool full) {
    Pipe& o = l->pipe[side];
    if (o.fin || o.stalled) return;
    usec_t until = now + d;
    for (auto& s : o.segs) if (s.avail > now) s.avail = std::max(s.avail, until);
    o.last_avail = std::max(o.last_avail, until);
    if (!full) return;
    size_t cap = o.cap;
    o.cap = 0; o.stalled = true;
    events.insert({until, [&o, cap] { o.cap = std::max(o.cap, cap); o.stalled = false; }});
}

usec_t Sim::next_event() {
    usec_t t = events.empty() ? INT64_MAX : events.begin()->first;
    for (auto l : links) {
        for (int side = 0; side < 2; ++side) {
            if (l->gone_at[side] != INT64_MAX && l->gone_at[side] > now && l->gone_at[side] < t) t = l->gone_at[side];
            for (auto& s : l->pipe[side].segs)
                if (s.avail > now) { if (s.avail < t) t = s.avail; break; }
        }
    }
    return t;
}

void Sim::advance(usec_t t) {
    while (!events.empty() && events.begin()->first <= t) {
        auto it = events.begin();
        if (it->first > now) now = it->first;
        auto f = it->second;
        events.erase(it);
        f();
    }
    if (t > now) now = t;
}

int Sim::inject(int sys, int fd) {
    uint64_t idx = sys_count++;
    ++call_sys; ++sys_by_kind[sys];
    if (call_sys > 200000) fatal_line("R24,R13", "one library call has made 200000 system calls");
    int e = fault ? fault(sys, idx, fd) : 0;
    if (log_sys) sys_log.push_back({(uint8_t) sys, fd});
    if (e) {
        ++ev_faults; last_fault = e;
        if (obs) obs->trace("fault", sys, e, 0);
    }
    return e;
}

Sock* Sim::listener(uint32_t ip, uint16_t port) {
    for (auto s : all_socks)
        if (s->fd != -1 && s->kind == K_LISTEN && s->port == port && owns(s->host, ip) && (s->ip == 0 || s->ip == ip)) return s;
    return nullptr;
}

int Sim::do_connect(Sock* s, uint32_t ip, uint16_t port) {
    if (s->link) return s->connecting ? EALREADY : EISCONN;
    if (rng.chance(net.connect_refuse)) return ECONNREFUSED;
    Link* l = new Link();
    l->id = (int) links.size();
    links.push_back(l);
    l->cip = s->host; l->cport = s->bound ? s->port : next_port++;
    if (next_port < 2000) next_port = 2000;
    l->sip = ip; l->sport = port;
    l->cfd = s->fd;
    l->lat = tcp_lat();
    l->pipe[0].cap = l->pipe[1].cap = net.pipe_cap;
    s->link = l; s->side = 0; s->connecting = true;
    if (rng.chance(net.connect_blackhole)) {
        events.emplace(now + 3000000, [l] { if (!l->c_closed) l->cerr = ETIMEDOUT; });
        return EINPROGRESS;
    }
    auto syn = [this, l](void) -> bool {
        Sock* ls = listener(l->sip, l->sport);
        size_t pend = 0;
        if (ls) pend = ls->backlog.size();
        return ls && (int) pend <= ls->backlog_max;
    };
    auto enqueue = [this, l] {
        if (l->c_closed && rng.chance(0.5)) return;    // gone before the application could accept it
        Sock* ls = listener(l->sip, l->sport);
        if (!ls) { reset_link(l); return; }
        ls->backlog.push_back(l);
        l->in_backlog = true;
    };
    if (rng.chance(net.connect_now) && syn()) {
        l->established = true; s->connecting = false;
        enqueue();
        return 0;
    }
    events.emplace(now + l->lat, [this, l, syn, enqueue] {
        if (l->c_closed) return;
        if (!syn()) { l->cerr = ECONNREFUSED; return; }
        l->established = true;
        events.emplace(now + l->lat, enqueue);
    });
    return EINPROGRESS;
}

Sock* Sim::do_accept(Sock* ls, int owner, uint32_t host) {
    Link* l = ls->backlog.front();
    ls->backlog.pop_front();
    l->in_backlog = false; l->accepted = true;
    Sock* s = new_sock(K_TCP, owner, host);
    s->link = l; s->side = 1; s->port = ls->port; s->bound = true;
    l->sfd = s->fd;
    return s;
}

void Sim::reset_link(Link* l) {
    for (int side = 0; side < 2; ++side) {
        bool closed = side ? l->s_closed : l->c_closed;
        if (!closed && l->gone_at[side] == INT64_MAX) {
            l->gone_at[side] = now;
            Pipe& in = l->pipe[1 - side];
            in.fin = true; in.rst = true; in.fin_at = now;
            while (!in.segs.empty() && in.segs.back().avail > now) { in.queued -= in.segs.back().d.size() - in.segs.back().off; in.segs.pop_back(); }
        }
    }
    if (!l->established && !l->cerr) l->cerr = ECONNRESET;
}

ssize_t Sim::do_write(Sock* s, const uint8_t* p, size_t n, bool& blocked, int& err) {
    blocked = false; err = 0;
    Link* l = s->link;
    if (l && s->connecting && l->established) s->connecting = false;
    if (!l || s->connecting) { err = s->nonblock && l ? EAGAIN : ENOTCONN; return -1; }
    if (now >= l->gone_at[s->side] || s->shut) { err = EPIPE; return -1; }
    Pipe& o = l->pipe[s->side];
    if (o.queued >= o.cap) { blocked = true; err = EAGAIN; return -1; }
    size_t m = std::min(n, o.cap - o.queued);
    if (net.write_max && s->owner >= 0) {
        size_t k = 1 + rng.below(net.write_max);
        if (k < m) { m = k; ++ev_short_rw; }
    }
    usec_t at = std::max(o.last_avail, now + tcp_lat());
    o.last_avail = at;
    Pipe::Seg sg; sg.avail = at; sg.d.assign(p, p + m);
    bool peer_closed = s->side ? l->c_closed : l->s_closed;
    if (!peer_closed) { o.segs.push_back(std::move(sg)); o.queued += m; }
    ev_tcp_bytes += m;
    return (ssize_t) m;
}

ssize_t Sim::do_read(Sock* s, uint8_t* p, size_t n, bool& blocked, int& err) {
    blocked = false; err = 0;
    Link* l = s->link;
    if (l && s->connecting && l->established) s->connecting = false;
    if (!l || s->connecting) { err = ENOTCONN; return -1; }
    Pipe& in = l->pipe[1 - s->side];
    size_t got = 0, want = n;
    if (net.read_max && s->owner >= 0) { size_t k = 1 + rng.below(net.read_max); if (k < want) { want = k; ++ev_short_rw; } }
    while (got < want && !in.segs.empty() && in.segs.front().avail <= now) {
        auto& sg = in.segs.front();
        size_t m = std::min(want - got, sg.d.size() - sg.off);
        memcpy(p + got, sg.d.data() + sg.off, m);
        sg.off += m; got += m; in.queued -= m;
        if (sg.off == sg.d.size()) in.segs.pop_front();
    }
    if (got) return (ssize_t) got;
    if (s->shut) return 0;
    if (now >= l->gone_at[s->side] && in.segs.empty()) {
        if (in.rst) { err = ECONNRESET; in.rst = false; return -1; }
        return 0;
    }
    blocked = true; err = EAGAIN;
    return -1;
}

void Sim::do_close(Sock* s, bool reset) {
    if (s->kind == K_LISTEN) {
        for (auto l : s->backlog) { l->in_backlog = false; l->s_closed = true; reset_link(l); }
        s->backlog.clear();
    }
    if (s->kind == K_TCP && s->link) {
        Link* l = s->link;
        int side = s->side, peer = 1 - side;
        if (side == 1 && l->gone_at[1] == INT64_MAX) time_wait[{s->host, s->port}] = now + 60000000;
        Pipe& in = l->pipe[peer];
        bool rst = reset || !in.segs.empty();
        (side ? l->s_closed : l->c_closed) = true;
        bool peer_open = peer ? !l->s_closed : !l->c_closed;
        Pipe& o = l->pipe[side];
        if (peer_open && l->gone_at[peer] == INT64_MAX) {
            usec_t at = std::max(o.last_avail, now + tcp_lat());
            o.fin = true; o.rst = rst; o.fin_at = at;
            l->gone_at[peer] = at;
        }
        in.segs.clear(); in.queued = 0;
        if (side) l->sfd = -1; else l->cfd = -1;
        if (l->in_backlog && side == 0 && rng.chance(0.5)) {
            // The kernel forgets the connection: a poll event without anything to accept.
            Sock* ls = listener(l->sip, l->sport);
            if (ls)
                for (auto it = ls->backlog.begin(); it != ls->backlog.end(); ++it)
                    if (*it == l) { ls->backlog.erase(it); l->in_backlog = false; break; }
        }
    }
    free_fd(s);
}

void Sim::do_shutdown(Sock* s, bool reset) { (void) reset; s->shut = true; }

void Sim::do_udp_send(Sock* s, uint32_t dip, uint16_t dport, const std::vector<uint8_t>& d) {
    if (!s->bound) { s->bound = true; s->port = next_port++; }
    ++ev_dgram_sent;
    uint32_t sif = s->mcast_if && dip >> 28 == 14 ? s->mcast_if : s->host;
    int seg = segment(s->host, sif);
    auto joined = [&](Sock* t) { for (auto& x : t->groups) if (x.first == dip && segment(t->host, x.second) == seg) return true; return false; };
    for (auto t : all_socks) {
        if (t->fd == -1 || t->kind != K_UDP || !t->bound || t->port != dport) continue;
        if (!s->mc_loop && t->host == s->host) continue;
        if (dip >> 28 == 14) {
            // A socket that did not join still gets what any other socket of the host joined, unless IP_MULTICAST_ALL is off
            // or it is bound to another address.
            if (t->ip && t->ip != dip) continue;
            bool in = joined(t);
            if (!in && t->mc_all) for (auto o : all_socks) if (o->fd != -1 && o->host == t->host && o->kind == K_UDP && joined(o)) { in = true; break; }
            if (!in) continue;
        } else if (!owns(t->host, dip)) continue;
        Dgram g; g.src_ip = sif; g.src_port = s->port; g.data = d; g.dst_ip = dip; g.seg = seg;
        bool forced = false;
        bool drop = obs ? obs->drop_dgram(*t, g, forced) : false;
        if (!forced && !(net.spare && d.size() >= 8 && !memcmp(d.data(), "\0\0\0\0\0\0\0", 8))) {
            if (rng.chance(net.outage)) t->out_until = now + rng.range(500, 300000);
            drop = t->out_until > now || rng.chance(net.drop);
        }
        if (drop) { ++ev_dgram_lost; continue; }
        int copies = 1;
        while (copies < 4 && rng.chance(net.dup)) { ++copies; ++ev_dgram_dup; }
        for (int c = 0; c < copies; ++c)
            events.emplace(now + udp_lat(), [this, t, g] {
                if (t->fd == -1) return;
                if (t->rx_bytes + g.data.size() > t->rcvbuf) { ++ev_dgram_lost; return; }
                Dgram h = g; h.avail = now;
                t->rx_bytes += h.data.size();
                t->rx.push_back(std::move(h));
            });
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// What the library calls.

extern "C" {

int vf_socket(int domain, int type, int proto) {
    Sim* g = g_sim;
    if (int e = g->inject(S_SOCKET, -1)) { errno = e; return -1; }
    int t = type & 0xf;
    if (proto && proto != (t == SOCK_DGRAM ? IPPROTO_UDP : IPPROTO_TCP)) { errno = EPROTONOSUPPORT; return -1; }
    Sock* s = g->new_sock(t == SOCK_DGRAM ? K_UDP : K_TCP, g->cur, g->cur_host);
    if (type & SOCK_NONBLOCK) s->nonblock = true;
    if (domain != AF_INET || (t != SOCK_DGRAM && t != SOCK_STREAM))
        g->obs->violation("R16", "socket() of an unexpected kind");
    g->obs->trace("socket", s->fd, type, 0);
    g->obs->on_open(g->cur, *s);
    return s->fd;
}

int vf_setsockopt(int fd, int level, int opt, const void* val, socklen_t len) {
    Sim* g = g_sim;
    int e = g->inject(S_SETSOCKOPT, fd);
    Sock* s = g->lib_get(fd, "setsockopt");
    if (!s) return -1;
    if (e) { errno = e; return -1; }
    g->obs->trace("setsockopt", level, opt, 0);
    bool bytes = level == IPPROTO_IP && (opt == IP_MULTICAST_TTL || opt == IP_MULTICAST_LOOP || opt == IP_MULTICAST_ALL || opt == IP_TTL || opt == IP_TOS);
    if (!val) { errno = EFAULT; return -1; }
    if (len < (bytes ? 1 : sizeof(int))) { errno = EINVAL; return -1; }
    int iv = len >= sizeof(int) ? *(const int*) val : *(const uint8_t*) val;
    if (level == SOL_SOCKET && opt == SO_REUSEPORT) s->reuse_port = iv;
    else if (level == SOL_SOCKET && opt == SO_REUSEADDR) s->reuse_addr = iv;
    else if (level == IPPROTO_TCP && opt == TCP_NODELAY && s->kind == K_TCP) s->nodelay = iv;
    else if (level == IPPROTO_IP && opt == IP_MULTICAST_ALL) s->mc_all = iv;
    else if (level == IPPROTO_IP && opt == IP_MULTICAST_TTL) {
        if (iv < -1 || iv > 255) { errno = EINVAL; return -1; }
        s->ttl = iv == -1 ? 1 : iv;
    }
    else if (level == SOL_SOCKET && opt == SO_RCVBUF) { s->rcvbuf = std::min<size_t>((size_t) iv, g->net.rcvbuf_limit) * 2; }
    else if (level == IPPROTO_IP && opt == IP_MULTICAST_IF) {
        // An address alone, or the interface member of a larger structure.
        uint32_t ip = ntohl(((const uint32_t*) val)[len >= sizeof(struct ip_mreq) ? 1 : 0]);
        if (ip && !owns(s->host, ip)) { errno = EADDRNOTAVAIL; return -1; }
        s->mcast_if = ip;
    } else if (level == IPPROTO_IP && opt == IP_MULTICAST_LOOP) s->mc_loop = iv;
    else if (level == IPPROTO_IP && (opt == IP_ADD_MEMBERSHIP || opt == IP_DROP_MEMBERSHIP)) {
        if (len < sizeof(struct ip_mreq)) { errno = EINVAL; return -1; }
        const struct ip_mreq* m = (const struct ip_mreq*) val;
        uint32_t ip = ntohl(m->imr_multiaddr.s_addr), ifc = ntohl(m->imr_interface.s_addr);
        if (ip >> 28 != 14) { errno = EINVAL; return -1; }
        if (ifc && !owns(s->host, ifc)) { errno = ENODEV; return -1; }
        if (opt == IP_DROP_MEMBERSHIP) { if (!s->groups.erase({ip, ifc ? ifc : s->host})) { errno = EADDRNOTAVAIL; return -1; } }
        else if (!s->groups.insert({ip, ifc ? ifc : s->host}).second) { errno = EADDRINUSE; return -1; }
    } else if (level == IPPROTO_TCP && s->kind != K_TCP) { errno = ENOPROTOOPT; return -1; }
    return 0;
}

int vf_getsockopt(int fd, int level, int opt, void* val, socklen_t* len) {
    Sim* g = g_sim;
    int e = g->inject(S_GETSOCKOPT, fd);
    Sock* s = g->lib_get(fd, "getsockopt");
    if (!s) return -1;
    if (e) { errno = e; return -1; }
    if (level == SOL_SOCKET && opt == SO_ERROR) {
        int r = 0;
        if (s->link) {
            if (s->connecting && s->link->cerr) r = s->link->cerr;
            else if (s->connecting && s->link->established) s->connecting = false;
        }
        if (val && len && *len >= sizeof(int)) { *(int*) val = r; *len = sizeof(int); }
        g->obs->trace("so_error", fd, r, 0);
        return 0;
    }
    if (val && len && *len >= sizeof(int)) { *(int*) val = 0; *len = sizeof(int); }
    return 0;
}

int vf_bind(int fd, const struct sockaddr* a, socklen_t alen) {
    Sim* g = g_sim;
    int e = g->inject(S_BIND, fd);
    Sock* s = g->lib_get(fd, "bind");
    if (!s) return -1;
    if (e) { errno = e; return -1; }
    const struct sockaddr_in* in = (const struct sockaddr_in*) a;
    if (alen < sizeof *in) { errno = EINVAL; return -1; }
    if (in->sin_family != AF_INET && (in->sin_family != AF_UNSPEC || in->sin_addr.s_addr)) { errno = EAFNOSUPPORT; return -1; }
    uint32_t ip = ntohl(in->sin_addr.s_addr); uint16_t port = ntohs(in->sin_port);
    if (ip && !owns(s->host, ip) && ip >> 28 != 14) { errno = EADDRNOTAVAIL; return -1; }
    if (s->bound) { errno = EINVAL; return -1; }
    if (port)
        for (auto t : g->all_socks)
            if (t != s && t->fd != -1 && t->bound && t->port == port && t->host == s->host && !t->link && (t->kind == K_UDP || !ip || !t->ip || t->ip == ip) &&
                (t->kind == K_UDP) == (s->kind == K_UDP) && !(t->reuse_port && s->reuse_port)) {
                errno = EADDRINUSE;
                return -1;
            }
    if (port && s->kind != K_UDP && !s->reuse_addr && !s->reuse_port) {
        auto tw = g->time_wait.find({s->host, port});
        if (tw != g->time_wait.end() && tw->second > g->now) { errno = EADDRINUSE; return -1; }
    }
    if (!port) port = g->next_port++;
    s->bound = true; s->ip = ip; s->port = port;
    g->obs->trace("bind", ip, port, 0);
    return 0;
}

int vf_listen(int fd, int backlog) {
    Sim* g = g_sim;
    int e = g->inject(S_LISTEN, fd);
    Sock* s = g->lib_get(fd, "listen");
    if (!s) return -1;
    if (e) { errno = e; return -1; }
    if (s->kind == K_UDP) { errno = EOPNOTSUPP; return -1; }
    s->kind = K_LISTEN; s->backlog_max = backlog;
    if (!s->bound) { s->bound = true; s->port = g->next_port++; }
    return 0;
}

int vf_getsockname(int fd, struct sockaddr* a, socklen_t* len) {
    Sim* g = g_sim;
    int e = g->inject(S_GETSOCKNAME, fd);
    Sock* s = g->lib_get(fd, "getsockname");
    if (!s) return -1;
    if (e) { errno = e; return -1; }
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET; in.sin_port = htons(s->port); in.sin_addr.s_addr = htonl(s->ip);
    memcpy(a, &in, std::min<size_t>(*len, sizeof in));
    *len = sizeof in;
    return 0;
}

int vf_getpeername(int fd, struct sockaddr* a, socklen_t* len) {
    Sim* g = g_sim;
    Sock* s = g->lib_get(fd, "getpeername");
    if (!s) return -1;
    if (!s->link) { errno = ENOTCONN; return -1; }
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_port = htons(s->side ? s->link->cport : s->link->sport);
    in.sin_addr.s_addr = htonl(s->side ? s->link->cip : s->link->sip);
    memcpy(a, &in, std::min<size_t>(*len, sizeof in));
    *len = sizeof in;
    return 0;
}

int vf_connect(int fd, const struct sockaddr* a, socklen_t alen) {
    Sim* g = g_sim;
    int e = g->inject(S_CONNECT, fd);
    Sock* s = g->lib_get(fd, "connect");
    if (!s) return -1;
    const struct sockaddr_in* in = (const struct sockaddr_in*) a;
    uint32_t ip = ntohl(in->sin_addr.s_addr); uint16_t port = ntohs(in->sin_port);
    if (!e && alen < sizeof *in) e = EINVAL;
    if (!e && in->sin_family != AF_INET) e = EAFNOSUPPORT;
    if (!s->nonblock) g->obs->violation("R24", "connect() on a blocking socket");
    if (!e) e = g->do_connect(s, ip, port);
    g->obs->trace("connect", ip, port, e);
    if (s->link && (e == 0 || e == EINPROGRESS)) g->obs->on_connect(g->cur, s->link);
    else {
        // A refused connection: the monitors learn where it was meant to go.
        Link l; l.sip = ip; l.sport = port; l.cerr = e; l.id = -1;
        g->obs->on_connect(g->cur, &l);
    }
    if (e) { errno = e; return -1; }
    return 0;
}

int vf_accept4(int fd, struct sockaddr* a, socklen_t* len, int flags) {
    Sim* g = g_sim;
    int e = g->inject(S_ACCEPT, fd);
    Sock* s = g->lib_get(fd, "accept");
    if (!s) return -1;
    if (e) { errno = e; return -1; }
    if (s->kind != K_LISTEN) { errno = EINVAL; return -1; }
    if (s->backlog.empty()) {
        if (!s->nonblock) g->obs->violation("R24", "accept() would wait: no connection is pending and the listening socket is blocking");
        errno = EAGAIN;
        return -1;
    }
    Sock* n = g->do_accept(s, g->cur, g->cur_host);
    if (flags & SOCK_NONBLOCK) n->nonblock = true;
    Link* l = n->link;
    if (a && len) {
        struct sockaddr_in in;
        memset(&in, 0, sizeof in);
        in.sin_family = AF_INET; in.sin_port = htons(l->cport); in.sin_addr.s_addr = htonl(l->cip);
        memcpy(a, &in, std::min<size_t>(*len, sizeof in));
        *len = sizeof in;
    }
    g->obs->trace("accept", n->fd, l->cip, l->cport);
    g->obs->on_open(g->cur, *n);
    g->obs->on_accept(g->cur, l);
    return n->fd;
}
int vf_accept(int fd, struct sockaddr* a, socklen_t* len) { return vf_accept4(fd, a, len, 0); }

int vf_fcntl(int fd, int cmd, ...) {
    Sim* g = g_sim;
    va_list ap;
    va_start(ap, cmd);
    int arg = va_arg(ap, int);
    va_end(ap);
    g->inject(S_FCNTL, fd);
    Sock* s = g->lib_get(fd, "fcntl");
    if (!s) return -1;
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) s->nonblock = (arg & O_NONBLOCK) != 0;
    return 0;
}

int vf_ioctl(int fd, unsigned long req, ...) {
    Sim* g = g_sim;
    va_list ap;
    va_start(ap, req);
    int* arg = va_arg(ap, int*);
    va_end(ap);
    Sock* s = g->lib_get(fd, "ioctl");
    if (!s) return -1;
    if (req == FIONBIO) s->nonblock = *arg != 0;
    else if (req == FIONREAD) {
        size_t n = 0;
        if (s->kind == K_UDP) n = s->rx.empty() ? 0 : s->rx.front().data.size();
        else if (s->link && !s->connecting) n = s->link->pipe[1 - s->side].readable(g->now);
        *arg = (int) n;
    }
    return 0;
}

int vf_shutdown(int fd, int) {
    Sim* g = g_sim;
    int e = g->inject(S_SHUTDOWN, fd);
    Sock* s = g->lib_get(fd, "shutdown");
    if (!s) return -1;
    if (e) { errno = e; return -1; }
    if (!s->link || s->connecting) { errno = ENOTCONN; return -1; }
    g->do_shutdown(s, false);
    return 0;
}

int vf_close(int fd) {
    Sim* g = g_sim;
    int e = g->inject(S_CLOSE, fd);
    Sock* s = g->lib_get(fd, "close");
    if (!s) return -1;
    g->obs->trace("close", fd, 0, 0);
    g->obs->on_close(g->cur, *s);
    g->do_close(s);
    if (e) { errno = e; return -1; }
    return 0;
}

static size_t iov_total(const struct iovec* v, int n) { size_t t = 0; for (int i = 0; i < n; ++i) t += v[i].iov_len; return t; }
static std::vector<uint8_t> gather(const struct iovec* v, int n) {
    std::vector<uint8_t> b;
    for (int i = 0; i < n; ++i) if (v[i].iov_len) b.insert(b.end(), (uint8_t*) v[i].iov_base, (uint8_t*) v[i].iov_base + v[i].iov_len);
    return b;
}
static void scatter(const struct iovec* v, int n, const uint8_t* p, size_t len) {
    for (int i = 0; i < n && len; ++i) {
        size_t m = std::min(len, (size_t) v[i].iov_len);
        if (m) memcpy(v[i].iov_base, p, m);
        p += m; len -= m;
    }
}

static ssize_t tcp_out(Sim* g, Sock* s, const struct iovec* v, int n, int flags) {
    std::vector<uint8_t> b = gather(v, n);
    if (g->net.spurious > 0 && s->nonblock && g->rng.chance(g->net.spurious)) { ++g->ev_eagain; errno = EAGAIN; return -1; }
    bool blocked; int err;
    size_t ask = b.size();
    if (n > 1 && v[0].iov_len && v[0].iov_len < ask && s->owner >= 0 && g->net.edge > 0 && g->rng.chance(g->net.edge)) { ask = v[0].iov_len; ++g->ev_short_rw; }
    ssize_t r = g->do_write(s, b.data(), ask, blocked, err);
    if (r < 0) {
        if (blocked) {
            ++g->ev_eagain;
            if (!s->nonblock && !(flags & MSG_DONTWAIT)) g->obs->violation("R24", "a write to a full TCP channel would wait");
        }
        g->obs->trace("write-err", s->fd, err, 0);
        if (err == EPIPE && !(flags & MSG_NOSIGNAL) && !g->sigpipe_ignored)
            g->obs->violation("R13,R17,R22", "a write to a connection the peer has closed, made without MSG_NOSIGNAL, ends the process with SIGPIPE");
        if (err == EPIPE) g->obs->on_tcp_eof(g->cur, s->link, s->side, true);
        errno = err;
        return -1;
    }
    if (!s->nonblock && !(flags & MSG_DONTWAIT) && (size_t) r < b.size())
        g->obs->violation("R24", "a write to a TCP channel that is filling up would wait (blocking socket)");
    g->obs->trace("write", s->fd, r, 0);
    g->obs->on_tcp_write(g->cur, s->link, s->side, b.data(), (size_t) r);
    return r;
}

static ssize_t tcp_in(Sim* g, Sock* s, const struct iovec* v, int n, int flags) {
    size_t want = iov_total(v, n);
    if (g->net.spurious > 0 && s->nonblock && g->rng.chance(g->net.spurious)) { ++g->ev_eagain; errno = EAGAIN; return -1; }
    std::vector<uint8_t> b(want);
    bool blocked; int err;
    size_t ask = want;
    if (n > 1 && v[0].iov_len && v[0].iov_len < ask && s->owner >= 0 && g->net.edge > 0 && g->rng.chance(g->net.edge)) { ask = v[0].iov_len; ++g->ev_short_rw; }
    ssize_t r = g->do_read(s, b.data(), ask, blocked, err);
    if (r < 0) {
        if (blocked) {
            ++g->ev_eagain;
            if (!s->nonblock && !(flags & MSG_DONTWAIT)) g->obs->violation("R24", "a read from an idle TCP channel would wait");
        } else g->obs->on_tcp_eof(g->cur, s->link, s->side, true);
        g->obs->trace("read-err", s->fd, err, 0);
        errno = err;
        return -1;
    }
    g->obs->trace("read", s->fd, r, 0);
    if (r == 0) { if (want) g->obs->on_tcp_eof(g->cur, s->link, s->side, false); return 0; }
    scatter(v, n, b.data(), (size_t) r);
    g->obs->on_tcp_read(g->cur, s->link, s->side, b.data(), (size_t) r);
    return r;
}

static ssize_t udp_out(Sim* g, Sock* s, const struct sockaddr* a, const struct iovec* v, int n, int flags) {
    std::vector<uint8_t> b = gather(v, n);
    if (!a) { errno = EDESTADDRREQ; return -1; }
    if (b.size() > 65507) { errno = EMSGSIZE; return -1; }
    if (g->call_udp_full || g->rng.chance(g->net.udp_eagain)) {
        g->call_udp_full = g->cur >= 0;     // the channel does not drain during the call
        ++g->ev_eagain;
        if (!s->nonblock && !(flags & MSG_DONTWAIT)) g->obs->violation("R24", "a send on a full datagram socket would wait");
        errno = EAGAIN;
        return -1;
    }
    const struct sockaddr_in* in = (const struct sockaddr_in*) a;
    if (in->sin_family != AF_INET && in->sin_family != AF_UNSPEC) { errno = EAFNOSUPPORT; return -1; }
    uint32_t dip = ntohl(in->sin_addr.s_addr); uint16_t dport = ntohs(in->sin_port);
    if (!dport) { errno = EINVAL; return -1; }
    if (!(flags & MSG_DONTWAIT) && !s->nonblock) g->obs->violation("R24", "a datagram send that could wait (neither MSG_DONTWAIT nor O_NONBLOCK)");
    g->obs->trace("udp-send", s->fd, (int64_t) b.size(), 0);
    g->obs->on_udp_send(g->cur, *s, dip, dport, b);
    g->do_udp_send(s, dip, dport, b);
    return (ssize_t) b.size();
}

static ssize_t udp_in(Sim* g, Sock* s, struct sockaddr* a, socklen_t* alen, const struct iovec* v, int n, int flags, int* oflags) {
    if (s->rx.empty()) {
        if (!(flags & MSG_DONTWAIT) && !s->nonblock) g->obs->violation("R24", "a receive on an empty datagram socket would wait");
        errno = EAGAIN;
        return -1;
    }
    Dgram d = s->rx.front();
    if (!(flags & MSG_PEEK)) { s->rx.pop_front(); s->rx_bytes -= d.data.size(); }
    size_t want = iov_total(v, n), m = std::min(want, d.data.size());
    scatter(v, n, d.data.data(), m);
    if (a && alen) {
        struct sockaddr_in in;
        memset(&in, 0, sizeof in);
        in.sin_family = AF_INET; in.sin_port = htons(d.src_port); in.sin_addr.s_addr = htonl(d.src_ip);
        memcpy(a, &in, std::min<size_t>(*alen, sizeof in));
        *alen = sizeof in;
    }
    if (oflags && m < d.data.size()) *oflags |= MSG_TRUNC;
    if (!(flags & MSG_PEEK)) {
        ++g->ev_dgram_recv;
        g->obs->trace("udp-recv", s->fd, (int64_t) d.data.size(), 0);
        g->obs->on_udp_recv(g->cur, *s, d, m);
    }
    return (ssize_t) ((flags & MSG_TRUNC) ? d.data.size() : m);
}

static ssize_t out_any(int fd, const struct sockaddr* a, const struct iovec* v, int n, int flags, const char* nm) {
    Sim* g = g_sim;
    Sock* s0 = g->get(fd);
    int e = g->inject(s0 && s0->kind == K_UDP ? S_SEND_UDP : S_WRITE, fd);
    Sock* s = g->lib_get(fd, nm);
    if (!s) return -1;
    if (e) { errno = e; return -1; }
    if (s->kind == K_UDP) return udp_out(g, s, a, v, n, flags);
    return tcp_out(g, s, v, n, flags);
}
static ssize_t in_any(int fd, struct sockaddr* a, socklen_t* al, const struct iovec* v, int n, int flags, const char* nm, int* of = nullptr) {
    Sim* g = g_sim;
    Sock* s0 = g->get(fd);
    int e = g->inject(s0 && s0->kind == K_UDP ? S_RECV_UDP : S_READ, fd);
    Sock* s = g->lib_get(fd, nm);
    if (!s) return -1;
    if (e) { errno = e; return -1; }
    if (s->kind == K_UDP) return udp_in(g, s, a, al, v, n, flags, of);
    return tcp_in(g, s, v, n, flags);
}

ssize_t vf_sendmsg(int fd, const struct msghdr* m, int flags) {
    if (m->msg_name && m->msg_namelen < sizeof(struct sockaddr_in)) { errno = EINVAL; return -1; }
    return out_any(fd, (const struct sockaddr*) m->msg_name, m->msg_iov, (int) m->msg_iovlen, flags, "sendmsg");
}
ssize_t vf_sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t alen) {
    if (a && alen < sizeof(struct sockaddr_in)) { errno = EINVAL; return -1; }
    struct iovec v = {(void*) b, n};
    return out_any(fd, a, &v, 1, flags, "sendto");
}
ssize_t vf_send(int fd, const void* b, size_t n, int flags) { struct iovec v = {(void*) b, n}; return out_any(fd, nullptr, &v, 1, flags, "send"); }
ssize_t vf_write(int fd, const void* b, size_t n) { struct iovec v = {(void*) b, n}; return out_any(fd, nullptr, &v, 1, 0, "write"); }
ssize_t vf_writev(int fd, const struct iovec* v, int n) { return out_any(fd, nullptr, v, n, 0, "writev"); }
ssize_t vf_recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* al) {
    struct iovec v = {b, n};
    return in_any(fd, a, al, &v, 1, flags, "recvfrom");
}
ssize_t vf_recv(int fd, void* b, size_t n, int flags) { struct iovec v = {b, n}; return in_any(fd, nullptr, nullptr, &v, 1, flags, "recv"); }
ssize_t vf_read(int fd, void* b, size_t n) { struct iovec v = {b, n}; return in_any(fd, nullptr, nullptr, &v, 1, 0, "read"); }
ssize_t vf_readv(int fd, const struct iovec* v, int n) { return in_any(fd, nullptr, nullptr, v, n, 0, "readv"); }
ssize_t vf_recvmsg(int fd, struct msghdr* m, int flags) {
    socklen_t al = m->msg_namelen;
    m->msg_flags = 0;
    ssize_t r = in_any(fd, (struct sockaddr*) m->msg_name, &al, m->msg_iov, (int) m->msg_iovlen, flags, "recvmsg", &m->msg_flags);
    m->msg_namelen = al;
    return r;
}
int vf_sendmmsg(int fd, struct mmsghdr* v, unsigned n, int flags) {
    unsigned i = 0;
    for (; i < n; ++i) { ssize_t r = vf_sendmsg(fd, &v[i].msg_hdr, flags); if (r < 0) break; v[i].msg_len = (unsigned) r; }
    return i || !n ? (int) i : -1;
}
int vf_recvmmsg(int fd, struct mmsghdr* v, unsigned n, int flags, struct timespec*) {
    unsigned i = 0;
    for (; i < n; ++i) { ssize_t r = vf_recvmsg(fd, &v[i].msg_hdr, i ? flags | MSG_DONTWAIT : flags); if (r < 0) break; v[i].msg_len = (unsigned) r; }
    return i || !n ? (int) i : -1;
}
int vf_poll(struct pollfd* p, nfds_t n, int timeout) {
    Sim* g = g_sim;
    int r = 0;
    for (nfds_t i = 0; i < n; ++i) {
        p[i].revents = 0;
        Sock* s = g->get(p[i].fd);
        if (!s) { p[i].revents = POLLNVAL; ++r; continue; }
        if ((p[i].events & POLLIN) && g->readable(s)) p[i].revents |= POLLIN;
        if ((p[i].events & POLLOUT) && g->writable(s)) p[i].revents |= POLLOUT;
        if (p[i].revents) ++r;
    }
    if (!r && timeout) g->obs->violation("R24", "poll() in the library waits");
    return r;
}

static void waits(const char* w) { g_sim->obs->violation("R24", std::string(w) + " in the library puts the caller to sleep"); }
int vf_usleep(useconds_t) { waits("usleep()"); return 0; }
unsigned vf_sleep(unsigned) { waits("sleep()"); return 0; }
int vf_nanosleep(const struct timespec*, struct timespec*) { waits("nanosleep()"); return 0; }

// The wall clock is set by people and daemons: it steps by up to an hour in either direction. Clocks of CPU time hardly move.
static usec_t clock_now(clockid_t id) {
    if (!g_sim) return 1000000;
    usec_t t = g_sim->now;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) {
        Rng r((uint64_t) t >> 15);
        return t + 1700000000000000ll + (r.chance(0.7) ? 0 : r.range(-3600000000ll, 3600000000ll));
    }
    if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return 1000000 + t / 1000;
    return t;
}
int vf_clock_gettime(clockid_t id, struct timespec* ts) {
    usec_t t = clock_now(id);
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
}
int vf_gettimeofday(struct timeval* tv, void*) { usec_t t = clock_now(CLOCK_REALTIME); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
time_t vf_time(time_t* r) { time_t t = clock_now(CLOCK_REALTIME) / 1000000; if (r) *r = t; return t; }
int vf_select(int n, fd_set* rd, fd_set* wr, fd_set* ex, struct timeval* tv) {
    int r = 0;
    for (int i = 0; i < n && i < FD_SETSIZE; ++i) {
        Sock* s = g_sim ? g_sim->get(i) : nullptr;
        if (rd && FD_ISSET(i, rd)) { if (s && g_sim->readable(s)) ++r; else FD_CLR(i, rd); }
        if (wr && FD_ISSET(i, wr)) { if (s && g_sim->writable(s)) ++r; else FD_CLR(i, wr); }
    }
    if (ex) FD_ZERO(ex);
    if (!r && g_sim && (!tv || tv->tv_sec || tv->tv_usec)) g_sim->obs->violation("R24", "select() in the library waits");
    return r;
}
int vf_ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) { return vf_poll(p, n, !ts || ts->tv_sec || ts->tv_nsec); }

typedef void (*sigh)(int);
static sigh handle(int n, sigh h) {
    if (!g_sim || n != SIGPIPE) return SIG_DFL;
    bool was = g_sim->sigpipe_ignored;
    g_sim->sigpipe_ignored = h != SIG_DFL;
    return was ? SIG_IGN : SIG_DFL;
}
sigh vf_signal(int n, sigh h) { return handle(n, h); }
int vf_sigaction(int n, const struct sigaction* a, struct sigaction*) { if (a) handle(n, a->sa_handler); return 0; }

void* vf_malloc(size_t n) {
    Sim* g = g_sim;
    void* p = malloc(n ? n : 1);
    if (!g || !p) return p;
    memset(p, g->garbage, n);
    g->heap[p] = Blk{n, __builtin_return_address(0), g->cur, g->heap_no++};
    g->heap_bytes += n; g->heap_total += 1;
    if (g->obs) g->obs->on_alloc(p, n);
    return p;
}
void* vf_calloc(size_t a, size_t b) { void* p = vf_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void vf_free(void* p) {
    Sim* g = g_sim;
    if (!p) return;
    if (!g) { free(p); return; }
    auto it = g->heap.find(p);
    if (it != g->heap.end()) {
        g->heap_bytes -= it->second.size;
        if (it->second.size) memset(p, (uint8_t) ~g->garbage, it->second.size);
        g->heap.erase(it);
        free(p);
        return;
    }
    if (g->obs && g->obs->on_free(p)) return;
    fatal_line("R05", "free() of a pointer that is not an allocated block (double free, interior or foreign pointer)");
}
void* vf_realloc(void* p, size_t n) {
    Sim* g = g_sim;
    if (!p) return vf_malloc(n);
    if (!g) return realloc(p, n);
    size_t old = 0;
    auto it = g->heap.find(p);
    if (it == g->heap.end()) fatal_line("R05", "realloc() of a pointer that is not an allocated block");
    old = it->second.size;
    void* q = vf_malloc(n);
    memcpy(q, p, std::min(old, n));
    vf_free(p);
    return q;
}
void* vf_reallocarray(void* p, size_t a, size_t b) { return vf_realloc(p, a * b); }
void* vf_aligned_alloc(size_t, size_t n) { return vf_malloc(n); }
int vf_posix_memalign(void** p, size_t, size_t n) { *p = vf_malloc(n); return 0; }
char* vf_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*) vf_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char* vf_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*) vf_malloc(n); memcpy(p, s, n); return p; }

[[noreturn]] void vf_exit(int rc) { fatal_line("R13,R22,R05", "the library ends the process: exit(" + std::to_string(rc) + ")"); }
[[noreturn]] void vf__exit(int rc) { fatal_line("R13,R22,R05", "the library ends the process: _exit(" + std::to_string(rc) + ")"); }
[[noreturn]] void vf_abort(void) { fatal_line("R13,R22,R05", "the library aborts the process"); }
[[noreturn]] void vf___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
    fatal_line("R13,R22,R05", std::string("assertion failed in the library: ") + e + " at " + f + ":" + std::to_string(l) + " " + fn);
}
void vf_perror(const char*) {}
int vf_fcntl64(int, int, ...) __attribute__((alias("vf_fcntl")));
int vf_rand_r(unsigned* seed) { *seed = *seed * 1103515245u + 12345u; return (int) (*seed >> 1) ^ 0x2a5a5a; }
}
