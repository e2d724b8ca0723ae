// Simulated operating system under the library: descriptors, UDP multicast,
// TCP, time, memory.  One Sim per thread (thread_local), fully deterministic.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef int64_t usec_t;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) { s = seed * 0x9E3779B97F4A7C15ull + 0x1234567; next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return b <= a ? a : a + (int64_t) below((uint64_t) (b - a + 1)); }
    bool chance(double p) { return p > 0 && (double) (next() >> 11) / 9007199254740992.0 < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

enum Sys {
    S_SOCKET, S_SETSOCKOPT, S_GETSOCKOPT, S_BIND, S_LISTEN, S_GETSOCKNAME, S_CONNECT, S_ACCEPT,
    S_FCNTL, S_SHUTDOWN, S_CLOSE, S_SEND_UDP, S_RECV_UDP, S_READ, S_WRITE, S_COUNT
};
extern const char* sys_name(int s);

struct Dgram {
    uint32_t src_ip = 0, dst_ip = 0; uint16_t src_port = 0; int seg = 0;
    usec_t avail = 0;
    std::vector<uint8_t> data;
};

// One direction of a TCP connection.
struct Pipe {
    struct Seg { usec_t avail; std::vector<uint8_t> d; size_t off = 0; };
    std::deque<Seg> segs;
    size_t queued = 0;              // written, not yet read
    size_t cap = 1 << 18; bool stalled = false;
    usec_t last_avail = 0;
    bool fin = false; usec_t fin_at = 0; bool rst = false;  // end of stream, after the data
    bool any(usec_t now) const {
        for (auto& s : segs) { if (s.avail > now) return false; if (s.d.size() > s.off) return true; }
        return false;
    }
    size_t readable(usec_t now) const {
        size_t n = 0;
        for (auto& s : segs) { if (s.avail > now) break; n += s.d.size() - s.off; }
        return n;
    }
};

struct Session;
struct Link {
    int id = 0;
    uint32_t cip = 0, sip = 0; uint16_t cport = 0, sport = 0;
    int cfd = -1, sfd = -1;              // endpoints (-1: closed / not accepted yet)
    bool c_closed = false, s_closed = false;
    bool established = false;            // client side sees the connection
    int cerr = 0;                        // client-side error of connect()
    bool in_backlog = false, accepted = false;
    usec_t gone_at[2] = {INT64_MAX, INT64_MAX};   // when side 0/1 notices that the peer is gone
    Pipe pipe[2];                        // [0]: client->server, [1]: server->client
    usec_t lat = 100;
    Session* sess = nullptr;
};

enum SockKind { K_UDP, K_TCP, K_LISTEN };
struct Sock {
    int fd; SockKind kind; int owner; uint32_t host;
    bool nonblock = false;
    uint32_t ip = 0; uint16_t port = 0; bool bound = false;
    std::set<std::pair<uint32_t, uint32_t>> groups;      // (group, interface)
    uint32_t mcast_if = 0; int ttl = 1; bool mc_all = true, mc_loop = true, reuse_addr = false, reuse_port = false, nodelay = false;
    std::deque<Dgram> rx; size_t rx_bytes = 0; size_t rcvbuf = 212992;
    std::deque<Link*> backlog; int backlog_max = 5;
    Link* link = nullptr; int side = 0; bool connecting = false;
    bool shut = false;
    bool polled = false;
    usec_t out_until = 0;
};

struct NetCfg {
    double drop = 0, dup = 0;            // multicast
    bool spare = false;                  // announcements are not lost
    double outage = 0;                   // a receiver gets nothing for a while
    usec_t udp_lat_min = 50, udp_lat_max = 500;
    usec_t tcp_lat_min = 50, tcp_lat_max = 500;
    double udp_eagain = 0;               // sendmsg says EAGAIN
    size_t read_max = 0, write_max = 0;  // 0: no limit; otherwise a random 1..max bytes per call
    double edge = 0;                     // a transfer ends exactly where the first segment does
    double spurious = 0;                 // readv says EAGAIN although data is there
    size_t pipe_cap = 1 << 18;
    double connect_refuse = 0, connect_blackhole = 0, connect_now = 0;
    size_t rcvbuf_limit = 1 << 20;
};

struct Observer {
    virtual ~Observer() {}
    virtual void on_udp_send(int app, Sock& s, uint32_t dip, uint16_t dport, const std::vector<uint8_t>& d) = 0;
    virtual void on_udp_recv(int app, Sock& s, const Dgram& d, size_t given) = 0;
    virtual void on_connect(int app, Link* l) = 0;
    virtual void on_accept(int app, Link* l) = 0;
    virtual void on_tcp_write(int app, Link* l, int side, const uint8_t* p, size_t n) = 0;
    virtual void on_tcp_read(int app, Link* l, int side, const uint8_t* p, size_t n) = 0;
    virtual void on_tcp_eof(int app, Link* l, int side, bool err) = 0;
    virtual void on_close(int app, Sock& s) = 0;
    virtual void on_open(int app, Sock& s) = 0;
    virtual bool drop_dgram(Sock& dst, const Dgram& d, bool& forced) = 0;
    virtual void violation(const char* prop, const std::string& msg) = 0;
    virtual void trace(const char* what, int64_t a, int64_t b, int64_t c) = 0;
    virtual void on_alloc(void* p, size_t n) = 0;
    virtual bool on_free(void* p) = 0;   // true: consumed (a block handed in by the application)
};

struct Blk { size_t size; void* site; int app; uint64_t no; };

struct Sim {
    Rng rng; NetCfg net; Observer* obs = nullptr;
    usec_t now = 1000000;
    int cur = -1;                        // application whose library call is running (-1: none)
    uint32_t cur_host = 0;
    std::vector<Sock*> socks;            // by fd - fd_base; null when closed
    std::vector<Sock*> all_socks; std::vector<Link*> links;
    std::multimap<usec_t, std::function<void()>> events;
    uint16_t next_port = 40000;
    uint64_t sys_count = 0; uint64_t call_sys = 0; bool call_udp_full = false; uint64_t sys_by_kind[S_COUNT] = {0};
    std::function<int(int sys, uint64_t idx, int fd)> fault;
    std::vector<std::pair<uint8_t, int>> sys_log; bool log_sys = false;
    int last_fault = 0; bool sigpipe_ignored = false;
    std::unordered_map<void*, Blk> heap; uint64_t heap_no = 0, heap_bytes = 0, heap_total = 0; uint8_t garbage = 0xA5;
    uint64_t ev_dgram_sent = 0, ev_dgram_lost = 0, ev_dgram_dup = 0, ev_dgram_recv = 0, ev_tcp_bytes = 0, ev_short_rw = 0,
        ev_eagain = 0, ev_faults = 0;
    explicit Sim(uint64_t seed) : rng(seed) {}
    ~Sim();
    int fd_base = 3;                     // the lowest free descriptor of the process
    Sock* get(int fd) { int i = fd - fd_base; return (i >= 0 && i < (int) socks.size()) ? socks[i] : nullptr; }
    Sock* lib_get(int fd, const char* what);
    Sock* new_sock(SockKind k, int owner, uint32_t host);
    void free_fd(Sock* s);
    usec_t tcp_lat() { return rng.range(net.tcp_lat_min, net.tcp_lat_max); }
    usec_t udp_lat() { return rng.range(net.udp_lat_min, net.udp_lat_max); }
    bool readable(Sock* s); bool writable(Sock* s); bool hup(Sock* s);
    usec_t next_event();
    void advance(usec_t t);
    int inject(int sys, int fd);
    // operations shared by library sockets and raw peers
    int do_connect(Sock* s, uint32_t ip, uint16_t port);
    Sock* do_accept(Sock* ls, int owner, uint32_t host);
    ssize_t do_write(Sock* s, const uint8_t* p, size_t n, bool& blocked, int& err);
    ssize_t do_read(Sock* s, uint8_t* p, size_t n, bool& blocked, int& err);
    void do_shutdown(Sock* s, bool reset);
    void do_close(Sock* s, bool reset = false);
    std::map<std::pair<uint32_t, uint16_t>, usec_t> time_wait;    // listening ports with connections in TIME_WAIT
    void do_udp_send(Sock* s, uint32_t dip, uint16_t dport, const std::vector<uint8_t>& d);
    Sock* listener(uint32_t ip, uint16_t port);
    void stall(Link* l, int side, usec_t d, bool full);   // nothing arrives for a while; full: and no more can be sent
    void reset_link(Link* l);           // the network kills the connection
};
// Every host has a second address, which is not the one its datagrams come from.
// The second address belongs to a second interface, on a network of its own.
inline uint32_t second_ip(uint32_t host) { return host + 0x00014000u; }
inline int segment(uint32_t host, uint32_t ifc) { return ifc == second_ip(host); }
inline bool owns(uint32_t host, uint32_t ip) { return ip == host || ip == second_ip(host); }
extern thread_local Sim* g_sim;
[[noreturn]] extern void fatal_line(const char* prop, const std::string& msg);
