// Applications on top of the library, scheduler, and the monitors that judge every step.
#pragma once
#include "sim.h"
#include <memory>
#include <set>
#include <string>
extern "C" {
#include "rmc_internal.h"
#include "rmc_log.h"
}

struct Profile {
    std::string name;
    std::string extra;                 // properties that also count as violated when an honest guarantee breaks here
    int pubs = 1, subs = 1, raw_pubs = 0, raw_subs = 0;
    uint32_t max_subs = 4, max_pubs = 4;
    NetCfg net; NetCfg drain_net;
    usec_t announce = 50000;
    usec_t duration = 1000000;
    double op_rate = 0.02;             // operations per 100 us of virtual time
    int w_queue = 60, w_ctl = 8, w_subclose = 0, w_pubclose = 0, w_reset = 0, w_react = 0, w_pause = 2, w_misc = 3, w_early = 4, w_burst = 6, w_throttle = 0, w_misuse = 1, w_sleep = 0, w_stall = 0, thr_scale = 1;
    double lull = 0;            // share of operations followed by silence for longer than the timeouts
    int big = 5;                       // percent of large payloads
    int size_mode = 0;                 // 0 mixed, 1 small only, 2 mostly large
    bool hostile = false;              // raw peers send nonsense too
    bool raw_stall = false;            // raw subscribers may stop reading
    bool prudent = true;               // publishers do not multicast while a subscriber is being set up
    bool oneshot = false;
    double no_poll = 0.04;             // chance that an application gives no modify (or no remove) callback
    int poll_mode = -1;                // -1 random, 0 skip equal modifications, 1 apply, 2 one-shot
    double shared = 0.2;               // how likely a subscriber runs on the first publisher's host
    double reject = 0, decline = 0;
    bool throttle = false;
    bool faults = false; double fault_p = 0;
    bool late = false;                 // applications act late at times
    bool lazy_dispatch = false;
    bool keep = true;
    bool stale_batch = true;
    int log_level = 0;
    usec_t start = 1000000;
    bool final_phase = true;
    uint64_t raw_base = 0;
    bool churn = false;
    int listen0 = 50;                  // percent: control address left at "any"
    bool nets = false;                 // several groups, ports and interfaces
    bool big_ctl = false;
    bool no_subs_phase = false;
    int raw_slow = 1;                  // raw peers act this many times slower
    bool inactive_queue = true;
};

struct Case { uint64_t seed = 1; std::string profile; Profile p; };

struct Pkt {
    int pub = -1; uint64_t pid = 0; void* ptr = nullptr; uint32_t len = 0; uint64_t seed = 0;
    bool announce = false, sent = false, released = false; usec_t sent_at = 0;
    std::set<Session*> owed; bool early_release = false;
    uint8_t guard = 0; uint64_t hash = 0;
};

struct RxPkt { uint64_t pid = 0; std::vector<uint8_t> data; Session* s = nullptr; };

struct Session {
    Link* link = nullptr;
    int pub = -1, sub = -1;            // library applications at the ends (-1: raw peer)
    // publisher side
    bool p_open = false, p_known = false, p_rejected = false, p_bad = false, p_disc_cb = false, p_conn_cb = false; usec_t p_since = 0;
    std::vector<uint8_t> p_in;         // unparsed bytes read by the publisher
    std::map<uint64_t, Pkt*> owed;
    std::set<uint64_t> ever_owed; uint64_t last_owed = 0;
    std::deque<uint8_t> p_out;         // bytes of resent packets that still have to appear on the wire
    size_t p_out_total = 0, p_out_written = 0; std::set<uint64_t> resent; bool raw_honest = false;
    // subscriber side
    uint32_t ip = 0; uint16_t port = 0; uint32_t node = 0;
    bool s_open = false, s_connected = false, s_bad = false; usec_t s_since = 0;
    bool p_cause = false, s_cause = false;   // a reason for the library to close its end is known
    bool s_complete_cb = false;
    std::vector<uint8_t> s_in;         // unparsed bytes read by the subscriber
    uint64_t anchor = 0, next = 0; bool anchored = false;
    std::map<uint64_t, RxPkt> beyond;
    std::map<uint64_t, usec_t> to_ack, issued;
    std::set<uint64_t> acked;
    std::deque<std::vector<uint8_t>> ctl; std::vector<uint8_t> s_out;   // control messages accepted, unparsed bytes written
    std::deque<std::vector<uint8_t>> ctl_wire;        // written by the subscriber, not yet delivered by the publisher
    size_t s_pending = 0;
    uint64_t n_mcast = 0, n_tcp = 0, n_dup = 0, n_delivered = 0; bool kf2 = false; std::vector<uint64_t> kf1;
};

struct Reg { int fd = -1; uint16_t act = 0; bool armed = true; uint64_t gen = 0; };

struct App {
    int id = 0; bool is_pub = false; bool alive = false, active = false; uint32_t host = 0; int poll_mode = 0; bool no_add = false, no_modify = false, no_remove = false;
    rmc_pub_context_t* pub = nullptr; rmc_sub_context_t* sub = nullptr;
    uint32_t node = 0; uint16_t lport = 0; uint32_t lip = 0; bool custom_free = true, custom_alloc = true; uint32_t cap = 0;
    uint32_t group = 0xE0010101u, mif = 0; uint16_t mport = 5007; int ttl = 1;
    uint32_t src() const { return mif ? mif : host; }
    uint64_t token = 0; std::set<uint64_t> old_tokens;
    std::map<int, Reg> regs; std::map<int, usec_t> cool; usec_t paused = 0, tcool = 0; uint16_t cport = 0; std::vector<uint8_t> ctlbuf; std::vector<std::pair<void*, uint32_t>> kept;
    uint64_t base_blocks = 0;
    // publisher
    uint64_t next_pid = 1; std::deque<Pkt*> queued, queued_ann; std::map<uint64_t, Pkt*> inflight;
    std::vector<Session*> sess;
    usec_t ann_next = 0; uint32_t ann_iv = 0; bool has_ann_cb = false; uint32_t thr_s = 0, thr_r = 0; bool suspended = false, thr_misused = false;
    bool has_conn_cb = false, has_disc_cb = false, has_ctl_cb = false;
    std::deque<std::vector<uint8_t>> ann_exp;   // announcements made by the library, not yet sent
    uint64_t ann_sent = 0, ann_made = 0;
    // subscriber
    std::deque<RxPkt> ready; std::map<void*, uint32_t> payloads; bool has_ready_cb = false, has_complete_cb = false, has_sann_cb = false;
    int dispatch_mode = 0; double decline = 0, reject = 0;
    uint64_t delivered = 0;
};

struct RawPeer {
    bool is_pub = false, hostile = false, closed = false; uint32_t host = 0; uint16_t port = 0; uint32_t node = 0; uint32_t lip = 0;
    Sock* udp = nullptr; Sock* lst = nullptr;
    struct Conn {
        Sock* s = nullptr; std::vector<uint8_t> out, in; bool reads = true, silent = false, dead = false; int target = -1; usec_t born = 0;
        std::map<uint64_t, usec_t> owed;               // publisher role: multicast, not acknowledged
        std::map<uint64_t, usec_t> to_ack; std::set<uint64_t> got; uint64_t n_tcp = 0;   // subscriber role
    };
    std::vector<std::unique_ptr<Conn>> conns;
    uint64_t next_pid = 1; usec_t next_at = 0, next_ann = 0; uint64_t content = 0;
    std::map<uint64_t, uint32_t> sizes;
};

struct Stats {
    uint64_t steps = 0, calls = 0, queued = 0, mcast = 0, resends = 0, delivered = 0, dup = 0, acks = 0, ctl = 0, subs = 0, closes = 0, released = 0,
        announces = 0, checks = 0, reads = 0, timeouts = 0, faults = 0, other = 0, refused = 0, hostile = 0, kf1 = 0, kf2 = 0, reorders = 0, suspended = 0,
        spin_probe = 0, final_ok = 0, fullchan = 0, misuse = 0, sleeps = 0, stalls = 0;
    void add(const Stats& o) {
        uint64_t* a = (uint64_t*) this; const uint64_t* b = (const uint64_t*) &o;
        for (size_t i = 0; i < sizeof(Stats) / 8; ++i) a[i] += b[i];
    }
};

struct World : Observer {
    Case c; Profile p; Sim sim; Rng rng;
    std::string filter;                  // property under check ("" = all)
    bool failed = false; std::string fail_props, fail_msg; std::vector<std::string> others;
    uint64_t hash = 1469598103934665603ull; uint64_t shape = 1469598103934665603ull; bool tracing = false; FILE* tf = nullptr;
    std::vector<std::unique_ptr<App>> apps; std::vector<std::unique_ptr<RawPeer>> raws;
    std::vector<std::unique_ptr<Session>> sessions; std::vector<std::unique_ptr<Pkt>> pkts;
    std::unordered_map<void*, Pkt*> live_payload; std::vector<Pkt*> announce_pkts;
    std::set<void*> kept;
    Stats st;
    usec_t next_op = 0, end_at = 0; bool draining = false; uint64_t gen = 0; bool halt_faults = false;
    uint64_t pkt_seq = 0;
    // the library call that is running
    struct Call {
        int app = -1; const char* name = ""; uint64_t faults0 = 0; std::vector<Pkt*> rel; uint64_t added = 0, seen = 0; bool ready_cb = false;
        struct Ctl { Session* s; std::vector<uint8_t> d; };
        std::deque<Ctl> ctl; std::vector<Session*> accepted; std::vector<Session*> closed;
        bool exp_ann = false, ann_called = false; uint32_t aip = 0; uint16_t aport = 0; uint32_t anode = 0; std::vector<uint8_t> apay;
        bool exp_conn = false; Session* writing = nullptr; bool wr_connecting = false; int complete_cb = 0; bool so_fail = false;
        std::vector<Session*> bad; std::vector<Pkt*> due; int pub_ann_cb = 0; bool fresh_so = false, foreign = false; bool ann_due = false; Pkt* ann = nullptr;
        uint64_t udp_sent = 0; size_t inflight0 = 0; bool destroying = false; bool closing = false; int last_udp = 0; bool udp_bad = false; bool cb_closed = false, dipped = false;
    } call;
    uint64_t progress = 0;

    World(const Case& c, const std::string& filter);
    ~World() override;
    bool run();                          // true: nothing to object
    // scenario primitives (also used by scripted scenarios)
    int add_pub(int host = -1, int port = -1); int add_sub(); RawPeer* add_raw(bool pub, bool hostile);
    void setup(); bool step(); void drain(); void teardown(); void finish_checks();
    void run_until(usec_t t); void run_for(usec_t d) { run_until(sim.now + d); } bool quiet(); bool fire(App& a); void set_token(App& a);
    int activate(App& a); void deactivate(App& a); void destroy(App& a);
    bool queue(App& a, uint32_t len, bool announce = false);
    void control(App& a, Session* s, uint32_t len, bool by_node);
    void cb_close(App& a, Session* s); void cb_deactivate(App& a); void cb_flush(App& a); size_t unacked(App& a); bool closes(App& a);
    void timeout(App& a, bool early); usec_t timer(App& a);
    void do_read(App& a, int idx, bool stale = false); void do_write(App& a, int idx, bool spurious = false);
    void dispatch(App& a, int max);
    void misuse(App& a); void op(); void raw_act(RawPeer& r); void raw_io(RawPeer& r); void raw_close(RawPeer& r); void conn_close(RawPeer::Conn& c, bool rst);
    std::vector<uint8_t> raw_packet(RawPeer& r, uint64_t pid, bool tcp);
    void raw_announce(RawPeer& r); RawPeer::Conn* raw_connect(RawPeer& r, App& pub); void raw_garbage(RawPeer& r);
    bool ingress_blocked(App& a); int busy_links(App& a);
    void set_interval(App& a, uint32_t iv); void throttle(App& a, uint32_t s, uint32_t r); App* alive(bool pub, bool need_active);
    void close_conn(App& a, int idx); void free_kept(App& a); bool reaches(App& pub, App& sub); void set_ttl(App& a); void place(App& a); bool announced_by(App& a, uint32_t ip, uint16_t port);
    void setter(int rc) { if (rc && !faulty()) violation("R28", "a call that can only succeed returns " + std::to_string(rc)); }
    void begin(App& a, const char* name); void end(App& a); void check_app(App& a); void settle();
    void pub_parse(Session* s); void sub_parse(Session* s); void sub_accept(App& a, Session* s, uint64_t pid, const uint8_t* d, size_t n, bool mcast);
    void pub_drop(Session* s, uint64_t pid); void sub_out_parse(Session* s);
    Session* sess_of(Link* l); Session* sub_session(App& a, uint32_t ip, uint16_t port);
    uint32_t pick_len();
    void released(Pkt* k, uint32_t len, bool has_len);
    uint64_t blocks_of(int app);
    int interest(App& a, Sock* s); void find_sockets(App& a); int ready_events(App& a, std::vector<std::pair<int, int>>& ev);
    bool faulty() { return sim.ev_faults != call.faults0; }
    std::string desc(Session* s);
    // Observer
    void on_udp_send(int app, Sock& s, uint32_t dip, uint16_t dport, const std::vector<uint8_t>& d) override;
    void on_udp_recv(int app, Sock& s, const Dgram& d, size_t given) override;
    void on_connect(int app, Link* l) override; void on_accept(int app, Link* l) override;
    void on_tcp_write(int app, Link* l, int side, const uint8_t* p, size_t n) override;
    void on_tcp_read(int app, Link* l, int side, const uint8_t* p, size_t n) override;
    void on_tcp_eof(int app, Link* l, int side, bool err) override;
    void on_close(int app, Sock& s) override; void on_open(int app, Sock& s) override;
    bool drop_dgram(Sock& dst, const Dgram& d, bool& forced) override;
    void violation(const char* prop, const std::string& msg) override;
    void trace(const char* what, int64_t a, int64_t b, int64_t c) override;
    void on_alloc(void* p, size_t n) override; bool on_free(void* p) override;
    std::function<bool(Sock&, const Dgram&, bool&)> drop_hook;
    std::function<void(const char*)> call_hook;
    bool scripted = false; uint64_t max_steps = 30000; bool check_growth = true; bool kf_strict = false;
};
extern thread_local World* g_world;
extern bool g_log_fixed;             // the log level is not to be touched (threads)
size_t open_subs(World& w, App& a);
extern "C" void vf_free(void*);

Profile make_profile(const std::string& name, Rng& r, bool thorough);
std::vector<std::string> profiles_for(const std::string& prop);
void fill_payload(uint8_t* p, size_t n, uint64_t seed);
