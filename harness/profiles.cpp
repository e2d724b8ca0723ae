// Populations, networks and mixes of operations.  Each profile is a family; the case's generator picks the member.
#include "world.h"

static Profile base(Rng& r, bool thorough) {
    Profile p;
    p.duration = thorough ? r.range(500000, 3000000) : r.range(300000, 1200000);
    p.announce = r.pick(std::vector<int>{10000, 30000, 50000, 100000});
    p.net.udp_lat_max = r.pick(std::vector<int>{60, 500, 5000, 40000});
    p.net.tcp_lat_max = r.pick(std::vector<int>{60, 500, 5000, 30000});
    p.op_rate = r.pick(std::vector<double>{0.01, 0.03, 0.1});
    p.w_burst = r.pick(std::vector<int>{1, 4, 8, 16});
    p.late = r.chance(0.3);
    p.net.edge = r.pick(std::vector<double>{0, 0.3});
    p.lazy_dispatch = r.chance(0.2);
    if (r.chance(0.2)) p.w_sleep = r.pick(std::vector<int>{1, 1, 4});
    if (r.chance(0.25)) p.w_stall = r.pick(std::vector<int>{3, 10, 30});
    if (r.chance(0.35)) p.lull = r.pick(std::vector<double>{0.05, 0.2, 0.6});
    p.start = r.pick(std::vector<int64_t>{1000000, 1, 1000000000000ll, 0x7FFFFFFFll * 1000});
    return p;
}

static void lossy(Profile& p, Rng& r) {
    p.net.drop = r.pick(std::vector<double>{0, 0.02, 0.1, 0.3, 0.7, 1.0});
    p.net.spare = p.net.drop > 0.6 ? r.chance(0.8) : r.chance(0.4);
    p.net.outage = r.pick(std::vector<double>{0, 0, 0, 0.003, 0.03});
    p.net.dup = r.pick(std::vector<double>{0, 0, 0.1, 0.5});
    p.net.udp_eagain = r.pick(std::vector<double>{0, 0, 0.1});
}

static void fragment(Profile& p, Rng& r) {
    p.net.read_max = (size_t) r.pick(std::vector<int>{0, 1, 3, 20, 200, 5000});
    p.net.write_max = (size_t) r.pick(std::vector<int>{0, 1, 7, 100, 3000});
    p.net.spurious = r.pick(std::vector<double>{0, 0, 0.2, 0.5}); p.net.edge = r.pick(std::vector<double>{0, 0.2, 0.6});
    p.net.pipe_cap = (size_t) r.pick(std::vector<int>{262144, 20, 500, 4096, 60000});
}

Profile make_profile(const std::string& name, Rng& r, bool thorough) {
    Profile p = base(r, thorough);
    p.name = name;
    if (name == "basic") {
        p.pubs = 1; p.subs = (int) r.range(1, 3);
        p.net.drop = r.pick(std::vector<double>{0, 0.05, 0.2});
        p.net.dup = r.pick(std::vector<double>{0, 0.1});
    } else if (name == "lossy") {
        p.pubs = (int) r.range(1, 2); p.subs = (int) r.range(1, 3);
        lossy(p, r);
        if (r.chance(0.3)) fragment(p, r);
    } else if (name == "many") {
        p.pubs = (int) r.range(2, 4); p.subs = (int) r.range(1, 4);
        lossy(p, r);
        p.w_pause = 4;
        if (r.chance(0.3)) { p.w_reset = 2; p.w_pubclose = 1; p.w_subclose = 1; }
    } else if (name == "big") {
        p.pubs = 1; p.subs = (int) r.range(1, 2);
        lossy(p, r);
        p.big = r.pick(std::vector<int>{20, 60, 100});
        p.net.pipe_cap = (size_t) r.pick(std::vector<int>{262144, 70000, 4096});
        p.net.read_max = (size_t) r.pick(std::vector<int>{0, 5000, 40000});
        p.net.write_max = (size_t) r.pick(std::vector<int>{0, 3000, 40000});
        p.op_rate = 0.01; p.w_burst = 3;
    } else if (name == "frag") {
        p.pubs = 1; p.subs = (int) r.range(1, 2);
        lossy(p, r); fragment(p, r);
        p.w_ctl = 30; p.big_ctl = r.chance(0.3);
        if (p.net.read_max && p.net.read_max < 50) { p.big = 1; p.big_ctl = false; }
        if (p.net.write_max && p.net.write_max < 50) { p.big = 1; p.big_ctl = false; }
        if (p.net.pipe_cap < 1000) { p.big = 1; p.big_ctl = false; }
        p.duration /= 2;
    } else if (name == "ctl") {
        p.pubs = (int) r.range(1, 3); p.subs = (int) r.range(1, 3);
        p.w_ctl = 150; p.w_queue = 20; p.w_pause = 4; p.big_ctl = r.chance(0.6);
        p.net.pipe_cap = (size_t) r.pick(std::vector<int>{262144, 2000, 30000});
        p.net.write_max = (size_t) r.pick(std::vector<int>{0, 0, 500, 20000});
        p.net.read_max = (size_t) r.pick(std::vector<int>{0, 0, 500, 20000});
        if (r.chance(0.3)) { p.w_reset = 2; p.w_subclose = 2; p.w_pubclose = 1; }
        p.listen0 = r.pick(std::vector<int>{0, 50, 100});
    } else if (name == "churn") {
        p.pubs = (int) r.range(1, 3); p.subs = (int) r.range(1, 4);
        lossy(p, r);
        p.w_subclose = 6; p.w_pubclose = 6; p.w_reset = 6; p.w_react = 6; p.w_misc = 6;
        p.max_subs = (uint32_t) r.range(1, 5); p.max_pubs = (uint32_t) r.range(1, 4);
        p.net.connect_refuse = r.pick(std::vector<double>{0, 0.2}); p.net.connect_now = r.pick(std::vector<double>{0, 0.3, 1});
        p.net.connect_blackhole = r.pick(std::vector<double>{0, 0.1});
        p.reject = r.pick(std::vector<double>{0, 0, 0.3}); p.decline = r.pick(std::vector<double>{0, 0, 0.3});
        p.announce = r.pick(std::vector<int>{5000, 20000}); p.op_rate = 0.05;
        if (r.chance(0.3)) fragment(p, r);
    } else if (name == "churn-basic") {
        p.pubs = (int) r.range(1, 2); p.subs = (int) r.range(1, 3);
        p.net.drop = r.pick(std::vector<double>{0, 0.1, 0.5});
        p.w_subclose = 3; p.w_pubclose = 3; p.w_reset = 3;
        p.max_subs = (uint32_t) r.range(2, 4); p.max_pubs = (uint32_t) r.range(2, 4);
        p.announce = r.pick(std::vector<int>{5000, 20000, 50000}); p.op_rate = 0.05;
    } else if (name == "announce") {
        p.pubs = (int) r.range(1, 3); p.subs = (int) r.range(1, 3);
        p.w_queue = 10; p.w_misc = 30; p.w_reset = 5; p.w_subclose = 3; p.w_pubclose = 3; p.w_react = 3; p.w_early = 10;
        p.net.drop = r.pick(std::vector<double>{0, 0.3, 0.8}); p.net.dup = r.pick(std::vector<double>{0, 0.5});
        p.net.connect_refuse = r.pick(std::vector<double>{0, 0.3}); p.net.connect_now = r.pick(std::vector<double>{0, 0.5});
        p.net.connect_blackhole = r.pick(std::vector<double>{0, 0.2});
        p.net.tcp_lat_max = r.pick(std::vector<int>{100, 60000});
        p.decline = r.pick(std::vector<double>{0, 0.5}); p.reject = r.pick(std::vector<double>{0, 0.3});
        p.announce = r.pick(std::vector<int>{2000, 10000, 50000});
        p.listen0 = r.pick(std::vector<int>{0, 50, 100});
        p.raw_pubs = r.chance(0.3);
    } else if (name == "throttle") {
        p.pubs = (int) r.range(1, 2); p.subs = (int) r.range(0, 3);
        lossy(p, r);
        p.throttle = r.chance(0.8); p.w_throttle = 6; p.w_burst = 12; p.w_queue = 80; p.w_pause = 4; p.w_pubclose = 3; p.w_subclose = 2; p.w_reset = 2;
        if (r.chance(0.3)) p.w_react = 2;
        if (r.chance(0.2)) p.raw_subs = 1;
        if (r.chance(0.2)) { p.thr_scale = (int) r.pick(std::vector<int>{8, 8, 8, 60}); p.w_burst = 25 * p.thr_scale; p.size_mode = 1; if (p.thr_scale > 8) { p.duration = std::min(p.duration, (usec_t) 400000); p.op_rate = 0.03; } }
    } else if (name == "slow") {
        // Subscribers that stall next to healthy ones.
        p.pubs = 1; p.subs = (int) r.range(2, 4);
        lossy(p, r);
        p.w_pause = 20; p.net.pipe_cap = (size_t) r.pick(std::vector<int>{2000, 30000, 262144});
        p.big = r.pick(std::vector<int>{5, 60}); p.w_burst = 8;
        p.raw_subs = (int) r.range(1, 3); p.hostile = true; p.raw_stall = r.chance(0.7); p.max_subs = 12;
        if (r.chance(0.3)) { p.w_reset = 3; p.w_subclose = 3; p.w_pubclose = 2; }
    } else if (name == "hostile") {
        p.pubs = (int) r.range(1, 2); p.subs = (int) r.range(1, 2);
        lossy(p, r);
        p.hostile = true; p.raw_pubs = (int) r.range(0, 2); p.raw_subs = (int) r.range(0, 2);
        if (!p.raw_pubs && !p.raw_subs) p.raw_pubs = p.raw_subs = 1;
        p.raw_stall = r.chance(0.3); p.max_subs = 10; p.max_pubs = 8;
        if (r.chance(0.3)) fragment(p, r);
        if (p.net.pipe_cap < 1000) p.net.pipe_cap = 5000;
        if (r.chance(0.3)) p.log_level = 6;
    } else if (name == "wire") {
        p.pubs = (int) r.range(0, 1); p.subs = (int) r.range(1, 2);
        p.raw_pubs = (int) r.range(0, 2); p.raw_subs = (int) r.range(0, 2);
        if (!p.pubs && !p.raw_pubs) p.raw_pubs = 1;
        if (!p.pubs) p.raw_subs = 0;
        lossy(p, r);
        p.max_subs = 10; p.max_pubs = 8; p.w_ctl = 20;
        p.listen0 = r.pick(std::vector<int>{0, 50, 100});
        if (r.chance(0.3)) fragment(p, r);
        if (p.net.pipe_cap < 1000) p.net.pipe_cap = 5000;
    } else if (name == "faults") {
        p.pubs = (int) r.range(1, 2); p.subs = (int) r.range(1, 3);
        p.net.drop = r.pick(std::vector<double>{0, 0.1, 0.5});
        p.faults = true; p.fault_p = r.pick(std::vector<double>{0.001, 0.01, 0.05, 0.2});
        p.w_reset = 2; p.w_react = r.chance(0.5) ? 4 : 0; p.w_subclose = 1; p.w_pubclose = 1;
        p.announce = r.pick(std::vector<int>{5000, 20000});
        if (r.chance(0.3)) fragment(p, r);
        p.duration /= 2;
    } else if (name == "teardown") {
        p.pubs = (int) r.range(1, 2); p.subs = (int) r.range(1, 3);
        lossy(p, r);
        p.w_react = 15; p.w_misc = 10; p.w_pause = 8; p.announce = 5000; p.duration = r.range(20000, 400000);
        p.net.pipe_cap = (size_t) r.pick(std::vector<int>{262144, 2000});
        p.big = r.pick(std::vector<int>{5, 50});
    } else if (name == "misuse") {
        p.pubs = (int) r.range(1, 2); p.subs = (int) r.range(1, 3);
        lossy(p, r);
        p.w_misuse = 60; if (r.chance(0.5)) { p.throttle = true; p.w_throttle = 6; } p.w_react = 4; p.w_reset = 3; p.w_subclose = 2; p.w_pubclose = 2; p.announce = 5000; p.op_rate = 0.05;
        p.net.connect_refuse = r.pick(std::vector<double>{0, 0.2}); p.net.connect_now = r.pick(std::vector<double>{0, 0.5});
        p.max_subs = (uint32_t) r.range(1, 3); p.max_pubs = (uint32_t) r.range(1, 3); p.reject = r.pick(std::vector<double>{0, 0, 0.3});
        if (r.chance(0.3)) fragment(p, r);
        if (r.chance(0.3)) { p.faults = true; p.fault_p = 0.01; }
        if (r.chance(0.3)) { p.hostile = true; p.raw_pubs = 1; p.raw_subs = 1; if (p.net.pipe_cap < 1000) p.net.pipe_cap = 5000; }
    } else if (name == "long") {
        p.pubs = 1; p.subs = (int) r.range(1, 2);
        p.net.drop = r.pick(std::vector<double>{0, 0.05, 0.3});
        p.duration = thorough ? 12000000 : 3000000; p.op_rate = 0.1; p.w_burst = 8; p.size_mode = 1;
        p.w_ctl = 20; p.w_misc = 6;
    } else if (name == "nets") {
        p.nets = true;
        p.pubs = (int) r.range(1, 4); p.subs = (int) r.range(1, 4);
        p.net.drop = r.pick(std::vector<double>{0, 0, 0.1, 0.5}); p.net.dup = r.pick(std::vector<double>{0, 0.2});
        p.w_misc = 15; p.w_react = 8; p.w_pubclose = 2; p.w_subclose = 2; p.w_reset = 2; p.announce = r.pick(std::vector<int>{5000, 20000}); p.op_rate = 0.03;
        p.max_subs = p.max_pubs = 5; p.listen0 = r.pick(std::vector<int>{0, 50, 100}); p.shared = r.pick(std::vector<double>{0.2, 0.8});
        p.net.connect_now = r.pick(std::vector<double>{0, 0.5});
        if (r.chance(0.2)) { p.faults = true; p.fault_p = 0.01; }
    } else if (name == "oneshot") {
        p.pubs = (int) r.range(1, 2); p.subs = (int) r.range(1, 3);
        lossy(p, r);
        p.oneshot = true; p.w_reset = 2; p.w_pause = 5; p.net.pipe_cap = (size_t) r.pick(std::vector<int>{262144, 1000, 20000});
        p.net.spurious = r.pick(std::vector<double>{0, 0.2});
        if (r.chance(0.4)) { p.w_react = 3; p.w_pubclose = 2; p.w_subclose = 2; p.w_early = 20; }
        if (r.chance(0.3)) { p.faults = true; p.fault_p = 0.01; }
    }
    p.max_subs = std::max<uint32_t>(p.max_subs, 1); p.max_pubs = std::max<uint32_t>(p.max_pubs, 1);
    p.drain_net = p.net;
    auto& d = p.drain_net;
    d.drop = std::min(d.drop, 0.3); d.outage = 0;
    d.udp_lat_max = std::min<usec_t>(d.udp_lat_max, 5000); d.tcp_lat_max = std::min<usec_t>(d.tcp_lat_max, 5000);
    d.connect_refuse = d.connect_blackhole = 0;
    d.spurious = std::min(d.spurious, 0.1); d.udp_eagain = std::min(d.udp_eagain, 0.1);
    if (d.read_max) d.read_max = std::max<size_t>(d.read_max, 5000);
    if (d.write_max) d.write_max = std::max<size_t>(d.write_max, 5000);
    d.pipe_cap = std::max<size_t>(d.pipe_cap, 65536);
    return p;
}

std::vector<std::string> profiles_for(const std::string& q) {
    typedef std::vector<std::string> V;
    static const std::map<std::string, V> m = {
        {"R01", {"lossy", "many", "frag", "churn-basic", "wire", "basic", "lossy", "big"}},
        {"R02", {"big", "frag", "lossy", "big", "wire", "basic"}},
        {"R03", {"lossy", "many", "slow", "lossy", "oneshot", "big", "churn-basic", "wire", "kf1", "kf2"}},
        {"R04", {"lossy", "churn", "churn-basic", "many", "slow", "wire", "hostile", "teardown"}},
        {"R05", {"teardown", "churn", "garbage:churn", "long", "garbage:hostile", "lossy", "hostile", "faults", "garbage:many", "mod:sub", "announce", "throttle"}},
        {"R06", {"lossy", "many", "wire", "churn-basic", "frag", "slow"}},
        {"R07", {"mod:interval"}},
        {"R08", {"mod:circ", "mod:circ", "mod:circ", "frag"}},
        {"R09", {"mod:list"}},
        {"R10", {"mod:pub", "mod:pub", "many", "churn-basic"}},
        {"R11", {"ctl", "ctl", "frag", "churn"}},
        {"R12", {"frag", "frag", "ctl", "big", "wire", "hostile"}},
        {"R13", {"hostile", "hostile", "garbage:hostile", "wire"}},
        {"R14", {"throttle"}},
        {"R15", {"announce", "announce", "churn", "wire"}},
        {"R16", {"oneshot", "churn", "faults", "teardown", "frag", "announce"}},
        {"R17", {"slow", "slow", "hostile"}},
        {"R18", {"lossy", "many", "announce", "churn-basic", "slow"}},
        {"R19", {"lossy", "churn", "many", "slow", "teardown", "throttle"}},
        {"R20", {"churn", "churn", "teardown", "churn-basic", "faults"}},
        {"R21", {"many", "threads", "many", "churn"}},
        {"R22", {"enum", "enum", "enum", "faults"}},
        {"R23", {"churn", "announce", "basic", "wire", "teardown"}},
        {"R24", {"slow", "faults", "oneshot", "hostile", "churn", "frag"}},
        {"R25", {"log:churn", "log:hostile", "log:lossy", "log:faults", "log:announce", "mod:log"}},
        {"R26", {"wire", "wire", "frag", "big", "announce"}},
        {"R28", {"misuse", "misuse", "churn", "hostile", "misuse", "oneshot"}},
        {"R29", {"nets", "nets", "nets", "announce"}},
        {"R27", {"mod:sub", "mod:sub", "mod:sub", "lossy"}},
    };
    auto it = m.find(q);
    return it == m.end() ? V{"basic"} : it->second;
}
