// Driver.  Runs numbered cases of one property's workload; every case is a function of (seed, property, number).
//   vd run    <prop> <seed> <tier> <first> <stride> <seconds> <max> <out>   run cases, one result line each
//   vd one    <prop> <seed> <tier> <n> [trace-file]                        run one case (replay)
//   vd list   <prop>                                                        kinds of cases
#include "world.h"
#include "modules.h"
extern "C" void rmc_log_set_file(FILE* file);
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

static FILE* g_out;                  // result lines
static bool g_thorough;
static std::string g_prop;
static uint64_t g_seed;
static uint8_t g_garbage = 0xA5;
static bool g_watch = true;

static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 1000003 + b); return r.next(); }
static uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (uint8_t) c) * 1099511628211ull; return h; }

static std::string esc(const std::string& s) {
    std::string o;
    for (char c : s) if (c == '\n' || c == '\t' || (unsigned char) c < 32) o += ' '; else o += c;
    return o;
}

// The case that is running, kept where a crash leaves it readable.
struct Status { volatile uint64_t n, done; };
static Status* g_status;
static Status g_dummy;

[[noreturn]] void fatal_line(const char* prop, const std::string& msg) {
    World* w = g_world;
    if (g_out) {
        fprintf(g_out, "FATAL\t%llu\t%s\t%s%s\n", (unsigned long long) g_status->n, prop, esc(msg).c_str(),
                w ? esc(std::string(" [t=") + std::to_string(w->sim.now) + " call=" + w->call.name + "]").c_str() : "");
        fflush(g_out);
    }
    if (w && w->tracing) { fprintf(w->tf, "!! FATAL %s: %s\n", prop, msg.c_str()); fflush(w->tf); }
    _exit(4);
}

// The bulk case is long. While it makes progress it is only slow, which is nobody's guarantee: it is given up without a verdict.
static volatile bool g_in_bulk;
static uint64_t g_progress;
static int g_alarms;
static void on_alarm(int) {
    if (g_in_bulk && g_sim) {
        uint64_t now = (uint64_t) g_sim->heap_no * 3 + g_sim->sys_count * 7919 + g_sim->heap.size() * 1000003;
        bool moved = now != g_progress;
        g_progress = now;
        if (moved && ++g_alarms < 4) return;
        if (moved) _exit(5);
    }
    static const char m[] = "WATCHDOG: the case does not come to an end\n";
    if (write(2, m, sizeof m - 1)) {}
    if (g_out) {
        char b[128];
        int n = snprintf(b, sizeof b, "FATAL\t%llu\tR24,R13\tthe case does not come to an end (endless loop)\n", (unsigned long long) g_status->n);
        if (write(fileno(g_out), b, (size_t) n)) {}
    }
    _exit(4);
}

static void watchdog(int sec) {
    if (!g_watch) return;
    struct itimerval t = {{30, 0}, {sec, 0}};
    g_alarms = 0;
    setitimer(ITIMER_PROF, &t, nullptr);
}

struct Result { bool failed = false; std::string props, msg, kind; uint64_t hash = 0, shape = 0; Stats st; uint64_t ops = 0; std::vector<std::string> others; std::string note; };
static uint64_t g_sys_total = 0, g_lost = 0;

static void collect(World& w, Result& r) {
    r.failed = w.failed; r.props = w.fail_props; r.msg = w.fail_msg;
    r.hash = w.hash; r.shape = w.shape; r.st = w.st; r.others = w.others; r.ops = w.st.calls;
    g_sys_total += w.sim.sys_count; g_lost += w.sim.ev_dgram_lost;
}

static Case make_case(const std::string& prof, uint64_t seed) {
    Case c;
    c.seed = seed; c.profile = prof;
    Rng r(seed ^ 0x5bd1e995);
    c.p = make_profile(prof, r, g_thorough);
    if (g_prop == "R23" || g_prop == "R28" || g_prop == "R05") c.p.no_poll = 0.15;
    if (g_prop == "R12" || g_prop == "R16" || g_prop == "R17" || g_prop == "R20" || g_prop == "R21" || g_prop == "R22" || g_prop == "R26" || g_prop == "R29" || g_prop == "R13" || g_prop == "R25") c.p.extra = g_prop;
    return c;
}

static void run_world(const std::string& prof, uint64_t seed, Result& r, FILE* tf, uint8_t garbage = 0, int log_level = -1) {
    Case c = make_case(prof, seed);
    if (log_level >= 0) c.p.log_level = log_level;
    World w(c, g_prop);
    if (tf) { w.tracing = true; w.tf = tf; }
    w.sim.garbage = garbage ? garbage : g_garbage;
    w.run();
    collect(w, r);
}

// ---- every system call of a small session fails once ------------------------------------------------------------------

static const std::vector<int>& errs(int sys) {
    static const std::vector<int> e[S_COUNT] = {
        {EMFILE, ENOBUFS}, {ENOMEM, ENOPROTOOPT}, {ENOBUFS, ENOTCONN}, {EADDRINUSE, EACCES}, {EADDRINUSE}, {ENOBUFS},
        {ECONNREFUSED, ENETUNREACH, EADDRNOTAVAIL}, {EMFILE, ECONNABORTED, EAGAIN, EINTR, ENFILE}, {}, {ENOTCONN}, {EIO, EINTR},
        {ENOBUFS, EAGAIN, ENETUNREACH, EPERM, EINTR}, {ENOMEM, EAGAIN, EINTR, ECONNREFUSED}, {EAGAIN, EINTR, ECONNRESET, ETIMEDOUT},
        {EAGAIN, EINTR, ECONNRESET, EPIPE, ENOBUFS}};
    return e[sys];
}

static Case enum_case(uint64_t j) {
    Case c;
    c.seed = mix(g_seed * 31 + 7, j); c.profile = "enum";
    Rng r(c.seed);
    Profile p = make_profile("basic", r, false);
    p.name = "enum"; p.extra = "R22";
    p.pubs = 1; p.subs = (int) r.range(1, 2);
    p.duration = r.range(60000, 250000); p.announce = 20000; p.op_rate = r.pick(std::vector<double>{0.005, 0.02}); p.w_burst = 3;
    p.w_ctl = 20; p.w_react = r.chance(0.5) ? 8 : 0; p.w_reset = r.chance(0.5) ? 5 : 0; p.w_subclose = r.chance(0.3) ? 5 : 0; p.w_pubclose = r.chance(0.3) ? 5 : 0;
    p.net.connect_now = r.chance(0.3) ? 1 : 0;
    p.max_subs = p.max_pubs = (uint32_t) r.range(2, 3);
    p.big = r.pick(std::vector<int>{0, 10});
    p.net.drop = r.pick(std::vector<double>{0, 0.1, 0.4});
    p.net.udp_lat_max = p.net.tcp_lat_max = r.pick(std::vector<int>{60, 2000});
    p.drain_net = p.net; p.drain_net.drop = 0.1;
    p.faults = false;
    c.p = p;
    return c;
}

static void run_enum(uint64_t m, Result& r, FILE* tf) {
    const uint64_t SLOTS = 2048;
    uint64_t j = m / SLOTS, q = m % SLOTS;
    static uint64_t base_j = ~0ull; static std::vector<std::pair<uint64_t, int>> pairs; static uint64_t total;
    if (base_j != j) {
        Case c = enum_case(j);
        World w(c, g_prop);
        w.sim.log_sys = true;
        w.run();
        base_j = j; pairs.clear(); total = w.sim.sys_log.size();
        if (w.failed) { collect(w, r); return; }
        for (uint64_t i = 0; i < total; ++i)
            for (int e : errs(w.sim.sys_log[i].first)) pairs.push_back({i, e});
        Rng g(c.seed + 1);
        for (size_t i = pairs.size(); i > 1; --i) std::swap(pairs[i - 1], pairs[g.below(i)]);
    }
    std::map<uint64_t, int> plan;        // error by system call index
    Rng g(mix(j, q));
    if (q < pairs.size()) plan[pairs[q].first] = pairs[q].second;
    if (q >= pairs.size() || g.chance(0.1)) {
        // Two or three failures, often close together.
        uint64_t at = g.below(total);
        int n = 2 + (int) g.below(2);
        for (int i = 0; i < n; ++i) { plan[at] = 0; at = g.chance(0.7) ? at + 1 + g.below(4) : g.below(total + 1); }
    }
    Case c = enum_case(j);
    World w(c, g_prop);
    if (tf) { w.tracing = true; w.tf = tf; }
    w.sim.garbage = g_garbage;
    w.sim.fault = [&](int sys, uint64_t idx, int) -> int {
        auto it = plan.find(idx);
        if (it == plan.end() || w.halt_faults) return 0;
        auto& e = errs(sys);
        if (e.empty()) return 0;
        ++w.st.faults;
        if (it->second && std::find(e.begin(), e.end(), it->second) != e.end()) return it->second;
        return e[g.below(e.size())];
    };
    w.run();
    collect(w, r);
    if (plan.size() == 1 && !w.sim.ev_faults) r.note = "no fault reached";
}

// ---- independent contexts in threads of their own ---------------------------------------------------------------------

static void run_threads(uint64_t seed, Result& r, FILE*) {
    // Each thread's world must behave exactly like the same world on its own.
    const int N = 4;
    std::vector<Case> cs;
    Rng g(seed);
    for (int i = 0; i < N; ++i) {
        static const std::vector<std::string> pr = {"basic", "lossy", "churn-basic", "announce"};
        Case c = make_case(g.pick(pr), mix(seed, (uint64_t) i));
        c.p.duration = std::min<usec_t>(c.p.duration, 300000); c.p.log_level = 0;
        cs.push_back(c);
    }
    std::vector<Result> alone((size_t) N), par((size_t) N);
    auto one = [&](int i, Result& o) { World w(cs[(size_t) i], g_prop); w.sim.garbage = g_garbage; w.run();
        o.failed = w.failed; o.props = w.fail_props; o.msg = w.fail_msg; o.hash = w.hash; o.shape = w.shape; o.st = w.st; };
    rmc_set_log_level(0);
    g_log_fixed = true;
    std::vector<std::thread> t;
    for (int i = 0; i < N; ++i) t.emplace_back([&, i] { one(i, par[(size_t) i]); });
    for (auto& x : t) x.join();
    g_log_fixed = false;
    for (int i = 0; i < N; ++i) {
        one(i, alone[(size_t) i]);
        r.st.add(par[(size_t) i].st); r.shape = r.shape * 31 + par[(size_t) i].shape; r.hash = r.hash * 31 + par[(size_t) i].hash; r.ops += par[(size_t) i].st.calls;
        if (par[(size_t) i].failed && !r.failed) { r.failed = true; r.props = par[(size_t) i].props; r.msg = par[(size_t) i].msg; }
        if (!r.failed && par[(size_t) i].hash != alone[(size_t) i].hash) {
            r.failed = true; r.props = "R21";
            r.msg = "a session behaves differently when unrelated contexts run in other threads (world " + std::to_string(i) + ")";
        }
    }
}

// ---- same case, one thing changed that must not matter ----------------------------------------------------------------

static void run_twice_garbage(const std::string& prof, uint64_t seed, Result& r, FILE* tf) {
    Result b;
    run_world(prof, seed, r, tf, 0xA5);
    if (r.failed) return;
    run_world(prof, seed, b, nullptr, 0x5A);
    if (b.failed) { r.failed = true; r.props = b.props; r.msg = b.msg + " (with other contents of uninitialised memory)"; return; }
    if (b.hash != r.hash) {
        r.failed = true; r.props = "R13,R05,R20";
        r.msg = "the behaviour depends on the contents of uninitialised memory";
    }
}

static FILE *g_null, *g_full;
static void run_twice_log(const std::string& prof, uint64_t seed, Result& r, FILE* tf) {
    Result b;
    Rng g(seed + 5);
    int lv = g.chance(0.6) ? 6 : (int) g.range(1, 5);
    bool full = g.chance(0.5), color = g.chance(0.5);
    rmc_log_set_file(nullptr == g_null ? stdout : g_null);
    run_world(prof, seed, r, tf, 0, 0);
    if (r.failed && r.props.find("R25") == std::string::npos) return;
    r.failed = false;
    rmc_log_set_file(full ? g_full : g_null);
    rmc_log_use_color(color ? 1 : g.chance(0.5) ? 0 : -1);
    errno = 0;
    run_world(prof, seed, b, nullptr, 0, lv);
    rmc_set_log_level(0);
    rmc_log_use_color(0);
    rmc_log_set_file(g_null);
    if (b.hash != r.hash || b.failed) {
        r.failed = true; r.props = "R25";
        r.msg = "the session behaves differently at log level " + std::to_string(lv) + (full ? " with a log file that takes no data" : "") + (b.failed ? ": " + b.msg : "");
    }
}

// ---- known findings ---------------------------------------------------------------------------------------------------

static Case script_case() {
    Case c;
    Rng r(1);
    c.p = make_profile("basic", r, false);
    c.profile = "script";
    Profile& p = c.p;
    p.pubs = p.subs = 1; p.net = NetCfg(); p.net.udp_lat_min = p.net.udp_lat_max = 100; p.net.tcp_lat_min = p.net.tcp_lat_max = 100;
    p.drain_net = p.net; p.op_rate = 0; p.announce = 20000; p.prudent = false; p.poll_mode = 1; p.late = false; p.lazy_dispatch = false; p.start = 1000000;
    p.w_queue = p.w_ctl = p.w_subclose = p.w_pubclose = p.w_reset = p.w_react = p.w_pause = p.w_misc = p.w_early = p.w_throttle = p.w_sleep = p.w_stall = p.w_misuse = 0;
    return c;
}

static void run_kf(int k, Result& r, FILE* tf) {
    Case c = script_case();
    World w(c, g_prop);
    w.scripted = true;
    if (tf) { w.tracing = true; w.tf = tf; }
    w.setup();
    App& pub = *w.apps[0];
    if (k == 1) {
        // The first packet owed to the subscriber is lost, the second arrives.
        w.run_for(50000);
        w.drop_hook = [](Sock&, const Dgram& d, bool& forced) { forced = true; return d.data.size() > 8 && d.data[0] == 1 && !d.data[1]; };
        w.queue(pub, 10); w.queue(pub, 10);
        w.run_for(500000);
        w.drop_hook = nullptr;
    } else {
        // A packet multicast before the publisher accepts the subscriber arrives, the next one is lost.
        bool owing = false;
        w.drop_hook = [](Sock&, const Dgram& d, bool& forced) { forced = true; return d.data.size() > 8 && d.data[0] == 2 && !d.data[1]; };
        for (int i = 0; i < 400 && !w.failed && !owing; ++i) {
            w.run_for(50);
            for (auto& s : w.sessions) if (s->s_connected && !s->p_open) owing = true;
        }
        if (owing) {
            pub.paused = w.sim.now + 30000;        // the publisher's application does not get to its listen socket
            w.queue(pub, 10); w.do_write(pub, RMC_MULTICAST_INDEX);
            w.queue(pub, 10); w.do_write(pub, RMC_MULTICAST_INDEX);
            w.run_for(40000);
            w.queue(pub, 10);
            w.run_for(500000);
        }
        w.drop_hook = nullptr;
    }
    w.finish_checks();
    w.teardown();
    collect(w, r);
    if (!r.failed && (k == 1 ? r.st.kf1 : r.st.kf2)) r.note = k == 1 ? "KF1" : "KF2";
}

// ---- more packets than fit into 16 bits, in every list at once ----------------------------------------------------------

static void run_bulk(Result& r, FILE* tf) {
    Case c = script_case();
    World w(c, g_prop);
    w.scripted = true;
    if (tf) { w.tracing = true; w.tf = tf; }
    w.setup();
    App &pub = *w.apps[0], &sub = *w.apps[1];
    w.run_for(60000);
    w.drop_hook = [](Sock&, const Dgram& d, bool& forced) { forced = true; return d.data.size() > 8 && d.data[0] == 0x83 && d.data[1] % 64 == 7; };
    for (int i = 0; i < 65800 && !w.failed; ++i) w.queue(pub, 1 + (uint32_t) i % 3);
    while (!w.failed && !pub.queued.empty()) w.do_write(pub, RMC_MULTICAST_INDEX);
    if (!w.failed) w.throttle(pub, 66000, 65600);
    for (int i = 0; i < 300 && !w.failed; ++i) { w.queue(pub, 1); w.do_write(pub, RMC_MULTICAST_INDEX); }
    if (!w.failed) w.do_read(sub, RMC_MULTICAST_INDEX);
    w.run_for(1000000);
    w.drop_hook = nullptr;
    w.finish_checks();
    w.teardown();
    collect(w, r);
}

// ---- more peers than fit into 8 bits ------------------------------------------------------------------------------------

static void run_wide(uint64_t n, Result& r, FILE* tf) {
    bool pubs = n & 1;
    Case c = script_case();
    c.seed = mix(mix(g_seed, hstr(g_prop)), n);
    Profile& p = c.p;
    p.extra = "R20";
    p.pubs = pubs ? 0 : 1; p.subs = pubs ? 1 : 0; p.max_subs = p.max_pubs = 290; p.announce = 0; p.raw_slow = 12;
    p.net.drop = 0.05; p.net.udp_lat_max = p.net.tcp_lat_max = 600; p.drain_net = p.net; p.drain_net.drop = 0;
    World w(c, g_prop);
    w.scripted = true;
    if (tf) { w.tracing = true; w.tf = tf; }
    w.setup();
    for (int i = 0; i < 270 && !w.failed; ++i) {
        RawPeer* q = w.add_raw(pubs, false);
        if (!pubs) w.raw_connect(*q, *w.apps[0]);
        w.run_for(300);
    }
    w.run_for(pubs ? 150000 : 20000);
    // Library applications get the places with the highest numbers.
    for (int i = 0; i < 2 && !w.failed; ++i) {
        int id = pubs ? w.add_pub() : w.add_sub();
        if (w.failed) break;
        w.activate(*w.apps[(size_t) id]);
        if (pubs) w.set_interval(*w.apps[(size_t) id], 20000);
    }
    if (!w.failed && !pubs) w.set_interval(*w.apps[0], 20000);
    w.run_for(60000);
    w.p.op_rate = 0.03; w.p.w_queue = 20; w.p.w_ctl = 20; w.p.w_pubclose = w.p.w_subclose = 1; w.p.w_reset = 1; w.p.w_early = 1; w.p.w_misc = 1;
    w.next_op = w.sim.now;
    w.run_for(300000);
    // Everybody misses the same packets.
    if (!pubs && !w.failed) {
        w.p.op_rate = 1e-9;
        w.drop_hook = [](Sock&, const Dgram&, bool& forced) { forced = true; return true; };
        if (w.rng.chance(0.5)) w.throttle(*w.apps[0], 3, 1);
        for (int i = 0; i < 3 && !w.failed && w.apps[0]->active; ++i) { w.queue(*w.apps[0], 50); w.run_for(2000); }
        w.run_for(30000);
        w.drop_hook = nullptr;
        w.run_for(120000);
    }
    // All connections end at once.
    if (!w.failed && w.apps[0]->active) {
        if (g_prop != "R05" && w.rng.chance(0.5)) w.deactivate(*w.apps[0]);
        else {
            w.destroy(*w.apps[0]);
            int id = w.failed ? -1 : pubs ? w.add_sub() : w.add_pub();
            if (id >= 0) w.activate(*w.apps[(size_t) id]);
        }
    }
    w.run_for(20000);
    w.drain();
    w.teardown();
    collect(w, r);
}

// ---- cases ------------------------------------------------------------------------------------------------------------

static void run_case(uint64_t n, Result& r, FILE* tf) {
    std::vector<std::string> v = profiles_for(g_prop);
    size_t k = v.size();
    static const char* bulk[] = {"R01", "R03", "R04", "R06", "R10", "R14", "R17", "R18", "R19"};
    if (n == 5)
        for (auto b : bulk) if (g_prop == b) { r.kind = "bulk"; g_in_bulk = true; run_bulk(r, tf); g_in_bulk = false; return; }
    static const char* wide[] = {"R01", "R03", "R04", "R05", "R06", "R10", "R11", "R14", "R15", "R16", "R17", "R18", "R19", "R20", "R22", "R23"};
    if (n % 4096 == 6 || n % 4096 == 7)
        for (auto b : wide) if (g_prop == b) { r.kind = "wide"; g_in_bulk = true; run_wide(n, r, tf); g_in_bulk = false; return; }
    const std::string& kind = v[n % k];
    uint64_t seed = mix(mix(g_seed, hstr(g_prop + kind)), n);
    r.kind = kind;
    if (kind.compare(0, 4, "mod:") == 0) {
        ModResult m;
        m.tracing = tf != nullptr; m.tf = tf;
        std::string s = kind.substr(4);
        if (s == "circ") mod_circ(seed, g_thorough, m);
        else if (s == "list") mod_list(seed, g_thorough, m);
        else if (s == "interval") mod_interval(seed, g_thorough, m);
        else if (s == "pub") mod_pub(seed, g_thorough, m);
        else if (s == "sub") mod_sub(seed, g_thorough, m);
        else mod_log(seed, g_thorough, m);
        r.failed = m.failed; r.props = g_prop; r.msg = m.msg; r.hash = r.shape = m.hash; r.ops = m.ops;
        r.st.checks = m.ops;
    } else if (kind.compare(0, 8, "garbage:") == 0) run_twice_garbage(kind.substr(8), seed, r, tf);
    else if (kind.compare(0, 4, "log:") == 0) run_twice_log(kind.substr(4), seed, r, tf);
    else if (kind == "enum") {
        // The n-th enumeration slot of this property's list.
        uint64_t per = 0, before = 0;
        for (size_t i = 0; i < k; ++i) { if (v[i] == "enum") { ++per; if (i < n % k) ++before; } }
        run_enum(n / k * per + before, r, tf);
    } else if (kind == "threads") run_threads(seed, r, tf);
    else if (kind == "kf1" || kind == "kf2") { if (n < 64) run_kf(kind == "kf1" ? 1 : 2, r, tf); else r.note = "skipped"; }
    else run_world(kind, seed, r, tf);
}

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec / 1e9; }

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::string mode = argv[1];
    g_prop = argv[2];
    if (mode == "list") { for (auto& s : profiles_for(g_prop)) printf("%s\n", s.c_str()); return 0; }
    g_status = &g_dummy;
    if (argc < 5) return 2;
    g_seed = strtoull(argv[3], nullptr, 10);
    g_thorough = !strcmp(argv[4], "thorough");
    if (getenv("VD_GARBAGE")) g_garbage = (uint8_t) strtoul(getenv("VD_GARBAGE"), nullptr, 0);
    if (getenv("VD_NOWATCH")) g_watch = false;
    // The library prints to stdout; results go elsewhere.
    if (!freopen("/dev/null", "w", stdout)) {}
    g_null = fopen("/dev/null", "w");
    g_full = fopen("/dev/full", "w");
    if (g_full) setvbuf(g_full, nullptr, _IONBF, 0); else g_full = g_null;
    rmc_log_set_file(g_null);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_alarm;
    sigaction(SIGPROF, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    if (mode == "one") {
        uint64_t n = strtoull(argv[5], nullptr, 10);
        FILE* tf = argc > 6 ? fopen(argv[6], "w") : nullptr;
        g_out = fdopen(dup(2), "w");
        g_status->n = n;
        watchdog(n == 5 ? 30 : 90);
        Result r;
        run_case(n, r, tf);
        if (tf) fclose(tf);
        fprintf(g_out, "%s\t%llu\t%s\t%s\t%s\thash=%016llx\t%s\n", r.failed ? "VIOL" : "OK", (unsigned long long) n, r.kind.c_str(), r.props.c_str(), esc(r.msg).c_str(), (unsigned long long) r.hash, r.note.c_str());
        for (auto& o : r.others) fprintf(g_out, "OTHER\t%s\n", esc(o).c_str());
        fclose(g_out);
        return r.failed ? 3 : 0;
    }
    if (mode != "run" || argc < 10) return 2;
    uint64_t first = strtoull(argv[5], nullptr, 10), stride = strtoull(argv[6], nullptr, 10);
    double secs = strtod(argv[7], nullptr); uint64_t max = strtoull(argv[8], nullptr, 10);
    std::string out = argv[9];
    g_out = fopen(out.c_str(), "a");
    int fd = open((out + ".status").c_str(), O_RDWR | O_CREAT, 0600);
    if (!g_out || fd < 0 || ftruncate(fd, sizeof(Status))) return 2;
    g_status = (Status*) mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (g_status == MAP_FAILED) return 2;
    double t0 = wall();
    uint64_t cnt = 0;
    // Module workloads make millions of small cases: after the first ones only their sums and distinct shapes are kept.
    struct Agg { uint64_t n = 0, ops = 0; Stats st; std::unordered_set<uint64_t> shapes, hashes; };
    std::map<std::string, Agg> agg;
    for (uint64_t n = first; cnt < max; n += stride, ++cnt) {
        if (cnt >= 2 && wall() - t0 > secs) break;
        g_status->n = n;
        watchdog(30);
        Result r;
        run_case(n, r, nullptr);
        Stats& s = r.st;
        if (!r.failed && r.note.empty() && r.kind.compare(0, 4, "mod:") == 0 && cnt > 300) {
            Agg& g = agg[r.kind];
            ++g.n; g.ops += r.ops; g.st.add(s);
            if (s.checks && g.shapes.size() < 150000) g.shapes.insert(r.shape);
            if (g.hashes.size() < 150000) g.hashes.insert(r.hash);
            for (auto& o : r.others) fprintf(g_out, "OTHER\t%llu\t%s\n", (unsigned long long) n, esc(o).c_str());
            g_status->done = n;
            continue;
        }
        fprintf(g_out, "%s\t%llu\t%s\t%016llx\t%016llx\t%llu\t%s\t%s\t", r.failed ? "VIOL" : "OK", (unsigned long long) n, r.kind.c_str(), (unsigned long long) r.shape,
                (unsigned long long) r.hash, (unsigned long long) r.ops, r.props.empty() ? "-" : r.props.c_str(), r.msg.empty() ? (r.note.empty() ? "-" : r.note.c_str()) : esc(r.msg).c_str());
        const uint64_t* a = (const uint64_t*) &s;
        for (size_t i = 0; i < sizeof(Stats) / 8; ++i) fprintf(g_out, "%s%llu", i ? "," : "", (unsigned long long) a[i]);
        fprintf(g_out, "\n");
        if (r.failed || cnt % 64 == 0) fflush(g_out);
        for (auto& o : r.others) fprintf(g_out, "OTHER\t%llu\t%s\n", (unsigned long long) n, esc(o).c_str());
        if (r.failed) { fclose(g_out); return 3; }
        g_status->done = n;
    }
    for (auto& e : agg) {
        fprintf(g_out, "AGG\t%s\t%llu\t%llu\t", e.first.c_str(), (unsigned long long) e.second.n, (unsigned long long) e.second.ops);
        const uint64_t* a = (const uint64_t*) &e.second.st;
        for (size_t i = 0; i < sizeof(Stats) / 8; ++i) fprintf(g_out, "%s%llu", i ? "," : "", (unsigned long long) a[i]);
        fprintf(g_out, "\n");
        for (auto x : e.second.shapes) fprintf(g_out, "S\t%016llx\n", (unsigned long long) x);
        for (auto x : e.second.hashes) fprintf(g_out, "H\t%016llx\n", (unsigned long long) x);
    }
    fprintf(g_out, "END\t%llu\tsys=%llu\tlost=%llu\n", (unsigned long long) cnt, (unsigned long long) g_sys_total, (unsigned long long) g_lost);
    fclose(g_out);
    return 0;
}
