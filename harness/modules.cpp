// Random operation sequences on the library's building blocks, each step compared with an executable model.
#include "modules.h"
#include <algorithm>
#include <errno.h>
#include <list>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
extern "C" {
#include "rmc_internal.h"
#include "rmc_log.h"
#include "circular_buffer.h"
#include "list_inst.h"
void vf_free(void*);
}

struct Mod {
    Sim sim; Rng g; ModResult& r;
    Mod(uint64_t seed, ModResult& r) : sim(seed), g(seed * 7919 + 3), r(r) { g_sim = &sim; }
    ~Mod() { for (auto& b : sim.heap) free(b.first); g_sim = nullptr; }
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[256];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        ++r.ops;
        for (char* p = b; *p; ++p) r.hash = (r.hash ^ (uint8_t) *p) * 1099511628211ull;
        if (r.tracing) fprintf(r.tf, "%s\n", b);
    }
    bool fail(const std::string& m) { if (!r.failed) { r.failed = true; r.msg = m; if (r.tracing) fprintf(r.tf, "!! %s\n", m.c_str()); } return false; }
};
#define CHECK(cond, ...) do { if (!(cond)) { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); m.fail(b_); return; } } while (0)
typedef unsigned long long ull;

// ---- circular buffer ------------------------------------------------------------------------------------------------

void mod_circ(uint64_t seed, bool thorough, ModResult& r) {
    Mod m(seed, r);
    Rng& g = m.g;
    uint32_t size = g.chance(0.7) ? (uint32_t) g.range(1, 12) : g.chance(0.7) ? (uint32_t) g.range(13, 200) : g.chance(0.5) ? RMC_MAX_PACKET : (uint32_t) g.range(200, 70000);
    struct Own { uint8_t* p; ~Own() { free(p); } } store{(uint8_t*) malloc(size)};
    memset(store.p, 0xCC, size);
    circ_buf_t cb;
    memset(&cb, 0xA5, sizeof cb);
    circ_buf_init(&cb, store.p, size);
    std::deque<uint8_t> q;
    m.op("init %u", size);
    int n = (size > 1000 ? 60 : 150) * (thorough ? 3 : 1);
    uint8_t next = (uint8_t) g.next();
    auto amount = [&](uint32_t around) -> uint32_t {
        switch (g.below(5)) {
        case 0: return around;
        case 1: return around ? around - 1 : 0;
        case 2: return around + 1;
        case 3: return (uint32_t) g.below(4);
        default: return (uint32_t) g.below(size + 2);
        }
    };
    for (int i = 0; i < n; ++i) {
        uint32_t used = (uint32_t) q.size(), room = size - 1 - used;
        switch (g.below(7)) {
        case 0: case 1: {
            uint32_t len = amount(room);
            if (g.chance(0.3)) len = std::min(room, (uint32_t) g.below(size));
            uint8_t *a = nullptr, *b = nullptr; uint32_t al = 0, bl = 0;
            int rc = circ_buf_alloc(&cb, len, &a, &al, &b, &bl);
            m.op("alloc %u -> %d", len, rc);
            if (len > room) { CHECK(rc == ENOMEM, "reserving %u bytes with %u available returns %d", len, room, rc); break; }
            CHECK(rc == 0, "reserving %u bytes with %u available returns %d", len, room, rc);
            CHECK((uint64_t) al + bl == len, "reserving %u bytes gives %u + %u", len, al, bl);
            CHECK(!len || al, "reserving %u bytes gives an empty first segment", len);
            CHECK(!al || (a >= store.p && a + al <= store.p + size), "first segment lies outside of the storage");
            CHECK(!bl || (b >= store.p && b + bl <= store.p + size), "second segment lies outside of the storage");
            CHECK(!al || !bl || a + al <= b || b + bl <= a, "the segments overlap");
            for (uint32_t k = 0; k < al; ++k) { a[k] = next; q.push_back(next); next = (uint8_t) (next * 5 + 3); }
            for (uint32_t k = 0; k < bl; ++k) { b[k] = next; q.push_back(next); next = (uint8_t) (next * 5 + 3); }
            break;
        }
        case 2: {
            uint32_t len = amount(used), in_use = 0xDEAD;
            bool nul = g.chance(0.3);
            circ_buf_free(&cb, len, nul ? nullptr : &in_use);
            m.op("free %u", len);
            q.erase(q.begin(), q.begin() + std::min<long>(len, (long) q.size()));
            CHECK(nul || in_use == q.size(), "freeing reports %u bytes in use, should be %zu", in_use, q.size());
            break;
        }
        case 3: {
            uint32_t len = amount(used);
            circ_buf_trim(&cb, len);
            m.op("trim %u", len);
            if (q.size() > len) q.resize(len);
            break;
        }
        case 4: case 5: {
            uint32_t off = g.chance(0.3) ? 0 : amount(used), want = amount(used), got = 0xDEAD;
            bool whole = off == 0 && g.chance(0.5), nul = g.chance(0.2);
            uint32_t exp = off > used ? 0 : std::min(want, used - off);
            Own t{(uint8_t*) malloc(exp ? exp : 1)};
            int rc = whole ? circ_buf_read(&cb, t.p, want, nul ? nullptr : &got) : circ_buf_read_offset(&cb, off, t.p, want, nul ? nullptr : &got);
            m.op("read %u+%u -> %d", off, want, rc);
            if (off > used) { CHECK(rc == EINVAL, "reading past the end returns %d", rc); break; }
            CHECK(rc == 0, "reading returns %d", rc);
            CHECK(nul || got == exp, "reading %u bytes at %u of %u gives %u", want, off, used, got);
            for (uint32_t k = 0; k < exp; ++k) CHECK(t.p[k] == q[off + k], "byte %u of a read at offset %u (of %u in use) is wrong", k, off, used);
            break;
        }
        case 6: {
            uint32_t want = amount(used);
            uint8_t *a = (uint8_t*) 1, *b = (uint8_t*) 1; uint32_t al = 77777, bl = 77777;
            int rc = circ_buf_read_segment(&cb, want, &a, &al, &b, &bl);
            m.op("segments %u -> %d", want, rc);
            uint32_t exp = std::min(want, used);
            CHECK(rc == 0, "viewing segments returns %d", rc);
            CHECK((uint64_t) al + bl == exp, "segment view of %u of %u bytes gives %u + %u", want, used, al, bl);
            CHECK(!al || (a >= store.p && a + al <= store.p + size), "first segment lies outside of the storage");
            CHECK(!bl || (b >= store.p && b + bl <= store.p + size), "second segment lies outside of the storage");
            CHECK(!exp || al, "a view of %u of %u bytes gives an empty first segment", want, used);
            for (uint32_t k = 0; k < exp; ++k) CHECK((k < al ? a[k] : b[k - al]) == q[k], "byte %u of a segment view is wrong", k);
            break;
        }
        }
        CHECK(circ_buf_in_use(&cb) == q.size(), "%u bytes reported in use, should be %zu", circ_buf_in_use(&cb), q.size());
        CHECK(circ_buf_available(&cb) == size - 1 - q.size(), "%u bytes reported available, should be %zu", circ_buf_available(&cb), size - 1 - q.size());
    }
    std::vector<uint8_t> all(q.size() + 1);
    uint32_t got = 0;
    circ_buf_read(&cb, all.data(), (uint32_t) q.size(), &got);
    CHECK(got == q.size() && std::equal(q.begin(), q.end(), all.begin()), "final content differs");
}

// ---- list -----------------------------------------------------------------------------------------------------------

static int cmp_desc(uint64_t n, uint64_t e, void* ud) {
    uint64_t sh = *(uint64_t*) ud;
    n >>= sh; e >>= sh;      // elements that differ only in the low bits are equal
    return n > e ? 1 : n < e ? -1 : 0;
}
static int cmp_find(uint64_t n, uint64_t e, void* ud) { ++*(uint64_t*) ud; return n == e ? 1 : 0; }
static int cmp_stop(uint64_t n, uint64_t e, void* ud) { ++*(uint64_t*) ud; return n == e ? 1 : e > n ? -1 : 0; }
struct Visit { std::vector<uint64_t> v; size_t stop; };
static uint8_t visit(vt_node* n, void* ud) { Visit* v = (Visit*) ud; v->v.push_back(n->data); return v->v.size() < v->stop; }
static thread_local uint64_t pool_live;
static vt_node* pool_alloc(void* ud) { ++*(uint64_t*) ud; ++pool_live; return (vt_node*) malloc(sizeof(vt_node)); }
static void pool_free(vt_node* n, void*) { --pool_live; free(n); }

void mod_list(uint64_t seed, bool thorough, ModResult& r) {
    Mod m(seed, r);
    Rng& g = m.g;
    typedef std::list<std::pair<uint64_t, vt_node*>> L;
    uint64_t ud = 0;
    pool_live = 0;
    bool own = g.chance(0.4);
    vt_list li[2];
    memset(li, 0xA5, sizeof li);
    for (auto& x : li) vt_list_init(&x, &ud, own ? pool_alloc : nullptr, own ? pool_free : nullptr);
    L q[2];
    uint64_t sh = g.chance(0.5) ? 0 : 2;
    bool sorted_only = g.chance(0.4); int dir = (int) g.below(2);
    int n = thorough ? 400 : 120;
    uint64_t range = g.pick(std::vector<uint64_t>{4, 20, 1000, ~0ull});
    std::vector<vt_node*> loose;
    auto newnode = [&](uint64_t v) { vt_node* x = own ? pool_alloc(&ud) : (vt_node*) nullptr; if (!x) { vt_list t; vt_list_init(&t, &ud, nullptr, nullptr); x = vt_list_push_head(&t, v); vt_list_unlink(x); } x->data = v; return x; };
    auto at = [&](L& l, size_t i) { auto it = l.begin(); std::advance(it, (long) i); return it; };
    auto drop = [&](vt_node* x) { if (own) pool_free(x, nullptr); else vf_free(x); };
    for (int i = 0; i < n; ++i) {
        int w = g.chance(0.8) ? 0 : 1;
        vt_list* l = &li[w]; L& s = q[w];
        uint64_t v = g.below(range);
        bool node = g.chance(0.4);
        int o = sorted_only ? (g.chance(0.7) ? 7 + dir : g.chance(0.5) ? 4 : g.chance(0.5) ? 5 : 6) : (int) g.below(13);
        m.op("list %d op %d %llu node %d size %zu", w, o, (ull) v, node, s.size());
        vt_node* x = nullptr;
        switch (o) {
        case 0: x = node ? vt_list_push_head_node(l, newnode(v)) : vt_list_push_head(l, v); s.push_front({v, x}); break;
        case 1: x = node ? vt_list_push_tail_node(l, newnode(v)) : vt_list_push_tail(l, v); s.push_back({v, x}); break;
        case 2: case 3: {
            if (s.empty()) break;
            auto it = at(s, g.below(s.size()));
            if (o == 2) { x = node ? vt_list_insert_before_node(it->second, newnode(v)) : vt_list_insert_before(it->second, v); s.insert(it, {v, x}); }
            else { x = node ? vt_list_insert_after_node(it->second, newnode(v)) : vt_list_insert_after(it->second, v); s.insert(std::next(it), {v, x}); }
            break;
        }
        case 4: {
            bool head = g.chance(0.5);
            if (node) {
                x = head ? vt_list_pop_head_node(l) : vt_list_pop_tail_node(l);
                CHECK((x != nullptr) == !s.empty(), "popping a node from a list of %zu gives %p", s.size(), (void*) x);
                if (!x) break;
                auto e = head ? s.front() : s.back();
                CHECK(x == e.second && x->data == e.first, "popping gives a wrong node");
                if (g.chance(0.5)) drop(x); else loose.push_back(x);
            } else {
                uint64_t out = 0xDEAD;
                int rc = head ? vt_list_pop_head(l, &out) : vt_list_pop_tail(l, &out);
                CHECK(!!rc == !s.empty(), "popping from a list of %zu returns %d", s.size(), rc);
                if (!rc) break;
                CHECK(out == (head ? s.front() : s.back()).first, "popping gives a wrong element");
            }
            if (head) s.pop_front(); else s.pop_back();
            break;
        }
        case 5: case 6: {
            if (s.empty()) break;
            auto it = at(s, g.below(s.size()));
            if (o == 5) vt_list_delete(it->second);
            else {
                x = vt_list_unlink(it->second);
                CHECK(x == it->second && x->data == it->first, "unlinking returns a wrong node");
                if (g.chance(0.5) && !loose.empty()) { drop(loose.back()); loose.pop_back(); }
                loose.push_back(x);
            }
            s.erase(it);
            break;
        }
        case 7: case 8: {
            if (node && !loose.empty() && g.chance(0.5)) { x = loose.back(); loose.pop_back(); x->data = v; } else if (node) x = newnode(v);
            if (o == 7) {
                x = node ? vt_list_insert_sorted_node(l, x, cmp_desc, &sh) : vt_list_insert_sorted(l, v, cmp_desc, &sh);
                auto it = s.begin();
                while (it != s.end() && cmp_desc(v, it->first, &sh) < 0) ++it;
                s.insert(it, {v, x});
            } else {
                x = node ? vt_list_insert_sorted_node_rev(l, x, cmp_desc, &sh) : vt_list_insert_sorted_rev(l, v, cmp_desc, &sh);
                auto it = s.end();
                while (it != s.begin() && cmp_desc(v, std::prev(it)->first, &sh) < 0) --it;
                s.insert(it, {v, x});
            }
            CHECK(x && x->data == v, "a sorted insert returns a wrong node");
            break;
        }
        case 9: case 10: {
            if (!s.empty() && g.chance(0.6)) v = at(s, g.below(s.size()))->first;
            bool stop = g.chance(0.4);
            uint64_t calls = 0;
            vt_node* f = nullptr;
            auto fn = stop ? cmp_stop : cmp_find;
            x = o == 9 ? vt_list_find_node(l, v, fn, &calls) : vt_list_find_node_rev(l, v, fn, &calls);
            auto look = [&](std::pair<uint64_t, vt_node*>& e) { if (e.first == v) { f = e.second; return true; } return stop && e.first > v; };
            if (o == 9) { for (auto& e : s) if (look(e)) break; }
            else for (auto it = s.rbegin(); it != s.rend(); ++it) if (look(*it)) break;
            CHECK(x == f, "searching finds a wrong node");
            break;
        }
        case 11: {
            Visit a{{}, g.chance(0.5) ? ~(size_t) 0 : 1 + g.below(s.size() + 1)};
            bool rev = g.chance(0.5);
            if (rev) vt_list_for_each_rev(l, visit, &a); else vt_list_for_each(l, visit, &a);
            std::vector<uint64_t> e;
            for (auto& y : s) e.push_back(y.first);
            if (rev) std::reverse(e.begin(), e.end());
            if (e.size() > a.stop) e.resize(a.stop);
            CHECK(a.v == e, "iteration visits other elements");
            break;
        }
        case 12: if (g.chance(0.2)) { vt_list_empty(l); s.clear(); } break;
        }
        if (x && (o <= 3 || o == 7 || o == 8)) CHECK(x->data == v && x->owner == l, "an insert returns a wrong node");
        for (int k = 0; k < 2; ++k) {
            vt_node* y = vt_list_head(&li[k]);
            for (auto& e : q[k]) { CHECK(y && y == e.second && y->data == e.first, "forward traversal differs"); y = vt_list_next(y); }
            CHECK(!y, "forward traversal is too long");
            y = vt_list_tail(&li[k]);
            for (auto it = q[k].rbegin(); it != q[k].rend(); ++it) { CHECK(y && y == it->second, "backward traversal differs"); y = vt_list_prev(y); }
            CHECK(!y, "backward traversal is too long");
            CHECK(vt_list_size(&li[k]) == q[k].size(), "size is %u, should be %zu", vt_list_size(&li[k]), q[k].size());
        }
        if (sorted_only)
            for (int k = 0; k < 2; ++k) {
                uint64_t last = 0; bool first = true;
                for (vt_node* y = vt_list_head(&li[k]); y; y = vt_list_next(y)) {
                    CHECK(first || (dir == 0 ? (y->data >> sh) <= (last >> sh) : (y->data >> sh) >= (last >> sh)), "sorted inserts leave the list unsorted");
                    last = y->data; first = false;
                }
            }
        uint64_t live = q[0].size() + q[1].size() + loose.size();
        CHECK((own ? pool_live : m.sim.heap.size()) == live, "%zu nodes are allocated, %llu are in use", own ? (size_t) pool_live : m.sim.heap.size(), (ull) live);
    }
    CHECK(vt_list_next(nullptr) == nullptr && vt_list_prev(nullptr) == nullptr, "neighbours of nothing");
    for (auto& x : li) vt_list_empty(&x);
    for (auto x : loose) drop(x);
    CHECK(!vt_list_size(&li[0]) && !vt_list_head(&li[0]) && !vt_list_tail(&li[0]), "an emptied list is not empty");
    CHECK(own ? !pool_live : m.sim.heap.empty(), "nodes leak");
}

// ---- received intervals ---------------------------------------------------------------------------------------------

static const uint64_t bases[] = {1, 2, 100, 0xFFFFFFF0ull, 0x7FFFFFFFFFFFFFF0ull, 0xFFFFFFFFFFFFFFFFull - 40};

void mod_interval(uint64_t seed, bool thorough, ModResult& r) {
    Mod m(seed, r);
    Rng& g = m.g;
    sub_publisher_t pub;
    memset(&pub, 0xA5, sizeof pub);
    sub_init_publisher(&pub);
    uint64_t base = bases[g.below(6)];
    std::map<uint64_t, usec_t> got;
    std::vector<uint64_t> pids;
    int n = thorough ? 120 : 40;
    for (int i = 0; i < n; ++i) if (base + (uint64_t) i >= base && g.chance(0.9)) pids.push_back(base + (uint64_t) i);
    if (base > 0xFFFFFFFFFFFFFF00ull) { pids.clear(); for (uint64_t p = base; p != 0; ++p) if (p != ~0ull) pids.push_back(p); if (g.chance(0.5)) pids.push_back(~0ull); }
    if (g.chance(0.5)) {            // runs that are far apart, at distances whose low bits are close
        static const uint64_t gaps[] = {1ull << 31, 1ull << 32, (1ull << 32) * 3, 1ull << 63, 1ull << 16};
        uint64_t gap = gaps[g.below(5)], b = 1 + g.below(40);
        std::set<uint64_t> t;
        for (int i = 0; i < n; ++i) { uint64_t x = b + gap * (g.below(3)) + g.below((uint64_t) n / 2); if (x) t.insert(x); }
        pids.assign(t.begin(), t.end());
    }
    int order = (int) g.below(4);
    if (order == 1) std::reverse(pids.begin(), pids.end());
    else if (order == 2) for (size_t i = pids.size(); i > 1; --i) std::swap(pids[i - 1], pids[g.below(i)]);
    else if (order == 3) for (size_t i = 0; i + 1 < pids.size(); ++i) if (g.chance(0.4)) std::swap(pids[i], pids[i + 1]);
    bool pops = g.chance(0.6), same = g.chance(0.2);
    m.op("base %llu order %d", (ull) base, order);
    for (auto pid : pids) {
        if (!same) m.sim.now += g.range(0, 5);
        sub_packet_received(&pub, pid, nullptr, 0, 1, m.sim.now, user_data_nil());
        m.op("add %llu at %lld", (ull) pid, (long long) m.sim.now);
        got[pid] = m.sim.now;
        auto check = [&]() -> void {
            auto it = got.begin();
            usec_t oldest = 0;
            for (auto& x : got) if (!oldest || x.second < oldest) oldest = x.second;
            sub_pid_interval_node_t* nd = sub_pid_interval_list_head(&pub.received_interval);
            while (it != got.end()) {
                uint64_t f = it->first, l = f; usec_t t = it->second;
                while (++it != got.end() && it->first == l + 1) { l = it->first; t = std::min(t, it->second); }
                CHECK(nd, "interval [%llu,%llu] is missing", (ull) f, (ull) l);
                CHECK(nd->data.first_pid == f && nd->data.last_pid == l, "interval [%llu,%llu] instead of [%llu,%llu]", (ull) nd->data.first_pid, (ull) nd->data.last_pid, (ull) f, (ull) l);
                nd = sub_pid_interval_list_next(nd);
            }
            CHECK(!nd, "there is an interval too many");
            usec_t o = sub_oldest_unacknowledged_packet(&pub);
            CHECK(o == oldest, "oldest unacknowledged time is %lld, should be %lld", (long long) o, (long long) oldest);
        };
        check();
        if (r.failed) return;
        if (pops && g.chance(0.1)) {
            sub_pid_interval_t iv;
            int k = 1 + (int) g.below(3);
            while (k-- && sub_pid_interval_list_pop_head(&pub.received_interval, &iv)) {
                m.op("pop [%llu,%llu]", (ull) iv.first_pid, (ull) iv.last_pid);
                for (uint64_t p = iv.first_pid;; ++p) { CHECK(got.erase(p), "an interval covers %llu, which was not received", (ull) p); if (p == iv.last_pid) break; }
            }
            check();
            if (r.failed) return;
        }
    }
    sub_reset_publisher(&pub, [](void*, payload_len_t, user_data_t) {});
    CHECK(!sub_pid_interval_list_size(&pub.received_interval) && !sub_oldest_unacknowledged_packet(&pub), "intervals survive a reset");
    CHECK(m.sim.heap.empty(), "%zu blocks leak", m.sim.heap.size());
}

// ---- subscriber bookkeeping -----------------------------------------------------------------------------------------

static thread_local std::map<void*, uint32_t>* sub_live; static thread_local Mod* sub_mod;
static void sub_pfree(void* p, payload_len_t len, user_data_t) {
    auto it = sub_live->find(p);
    if (it == sub_live->end()) { sub_mod->fail("a payload is freed twice, or one that was handed out"); return; }
    if (it->second != len) sub_mod->fail("a payload is freed with a wrong length");
    sub_live->erase(it);
}

void mod_sub(uint64_t seed, bool thorough, ModResult& r) {
    Mod m(seed, r);
    Rng& g = m.g;
    std::map<void*, uint32_t> live;
    sub_live = &live; sub_mod = &m;
    sub_publisher_t pub;
    memset(&pub, 0xA5, sizeof pub);
    sub_init_publisher(&pub);
    sub_packet_list_t ready;
    memset(&ready, 0xA5, sizeof ready);
    sub_packet_list_init(&ready, 0, 0, 0);
    struct In { void* p; uint32_t len; uint64_t ud; };
    std::map<uint64_t, In> held;
    std::deque<std::pair<uint64_t, In>> out;
    std::set<uint64_t> iv;
    uintptr_t cookie = 0x1000;
    int n = thorough ? 400 : 120;
    uint64_t base = bases[g.below(6)], next = 0, span = g.pick(std::vector<uint64_t>{3, 10, 50}), front = base;
    bool anchored = false, batch = g.chance(0.5); usec_t t = 1000000;
    double hole = g.pick(std::vector<double>{0, 0.1, 0.5});
    uint64_t far = g.chance(0.3) ? 1ull << g.pick(std::vector<int>{16, 31, 32, 33, 62}) : 0;
    std::map<uint64_t, usec_t> pend;
    for (int i = 0; i < n; ++i) {
        int o = (int) g.below(20);
        uint64_t mid = anchored ? next : front;
        if (o < 12) {
            uint64_t pid = g.chance(1 - hole) ? mid + g.below(2) : mid + g.below(span);
            if (far && g.chance(0.25)) pid = (g.chance(0.5) ? mid : base) + far * (1 + g.below(2)) - g.below(3) + g.below(6);
            if (anchored && g.chance(0.2)) pid = mid - g.below(std::min<uint64_t>(span, mid - 1) + 1);
            if (pid == 0 || pid == ~0ull || pid < base / 2) continue;
            bool dup = anchored ? pid < next || held.count(pid) : held.count(pid);
            if (!anchored && dup) continue;
            m.op("offer %llu dup %d", (ull) pid, dup);
            CHECK(!!sub_packet_is_duplicate(&pub, pid) == dup, "packet %llu is %sreported as a duplicate (stream at %llu)", (ull) pid, dup ? "not " : "", (ull) next);
            if (dup) continue;
            In x{(void*) (cookie += 16), (uint32_t) g.below(65536), g.next()};
            bool ack = g.chance(0.7);
            t += g.range(0, 9); m.sim.now = t;
            sub_packet_received(&pub, pid, x.p, (payload_len_t) x.len, ack, t, user_data_u64(x.ud));
            held[pid] = x; live[x.p] = x.len;
            if (ack) { iv.insert(pid); pend[pid] = t; }
            if (g.chance(0.3)) CHECK(!anchored || sub_packet_is_duplicate(&pub, pid), "packet %llu is not a duplicate right after it was received", (ull) pid);
            if (!batch || g.chance(0.3)) o = 12;
        }
        if (o >= 12 && o < 17) {
            sub_process_received_packets(&pub, &ready);
            if (!anchored && !held.empty()) { anchored = true; next = held.begin()->first; }
            while (anchored && held.count(next)) { out.push_back({next, held[next]}); held.erase(next); ++next; }
            m.op("process: %zu ready, next %llu", out.size(), (ull) next);
        } else if (o == 17) {
            int k = (int) g.below(10);
            sub_packet_t* p = nullptr;
            while (k-- && !out.empty()) {
                CHECK(sub_packet_list_pop_head(&ready, &p), "the ready list is too short");
                auto e = out.front();
                out.pop_front();
                CHECK(p->pid == e.first && p->payload == e.second.p && p->payload_len == e.second.len && p->publisher == &pub && sub_packet_user_data(p).u64 == e.second.ud, "packet %llu comes out as %llu", (ull) e.first, (ull) p->pid);
                live.erase(p->payload);
                vf_free(p);
            }
        } else if (o == 18 && g.chance(0.3)) {
            m.op("acknowledge");
            sub_pid_interval_t x;
            while (sub_pid_interval_list_pop_head(&pub.received_interval, &x))
                for (uint64_t p = x.first_pid;; ++p) { CHECK(iv.erase(p), "interval covers %llu, which was not received by multicast", (ull) p); pend.erase(p); if (p == x.last_pid) break; }
        } else if (o == 19 && g.chance(0.2)) {
            m.op("reset");
            size_t before = live.size();
            sub_reset_publisher(&pub, g.chance(0.9) ? sub_pfree : nullptr);
            if (r.failed) return;
            if (live.size() == before && !held.empty()) { for (auto& h : held) live.erase(h.second.p); }
            for (auto& h : held) CHECK(!live.count(h.second.p), "the payload of packet %llu is not freed by a reset", (ull) h.first);
            CHECK(live.size() == out.size(), "a reset frees payloads that were handed out");
            CHECK(!sub_packet_list_size(&pub.received_pid) && !sub_pid_interval_list_size(&pub.received_interval), "packets or intervals survive a reset");
            held.clear(); iv.clear(); pend.clear();
            sub_init_publisher(&pub);
            anchored = false; next = 0; front = base = bases[g.below(6)];
        }
        CHECK(sub_packet_list_size(&ready) == out.size(), "%u packets are ready, should be %zu", sub_packet_list_size(&ready), out.size());
        CHECK(sub_packet_list_size(&pub.received_pid) == held.size(), "%u packets are held back, should be %zu", sub_packet_list_size(&pub.received_pid), held.size());
        sub_packet_node_t* nd = sub_packet_list_head(&ready);
        for (auto& e : out) {
            CHECK(nd->data->pid == e.first && nd->data->payload == e.second.p && nd->data->payload_len == e.second.len, "ready packet %llu is wrong", (ull) e.first);
            nd = sub_packet_list_next(nd);
        }
        size_t cnt = 0;
        for (auto nd2 = sub_pid_interval_list_head(&pub.received_interval); nd2; nd2 = sub_pid_interval_list_next(nd2)) {
            CHECK(nd2->data.last_pid - nd2->data.first_pid < 100000, "interval [%llu,%llu]", (ull) nd2->data.first_pid, (ull) nd2->data.last_pid);
            for (uint64_t p = nd2->data.first_pid;; ++p) { CHECK(iv.count(p), "interval covers %llu, which was not received by multicast", (ull) p); ++cnt; if (p == nd2->data.last_pid) break; }
        }
        CHECK(cnt == iv.size(), "intervals cover %zu packets, should be %zu", cnt, iv.size());
        usec_t old = 0;
        for (auto& x : pend) if (!old || x.second < old) old = x.second;
        CHECK(sub_oldest_unacknowledged_packet(&pub) == old, "oldest unacknowledged arrival is wrong");
    }
    sub_reset_publisher(&pub, sub_pfree);
    if (r.failed) return;
    sub_packet_t* p = nullptr;
    while (sub_packet_list_pop_head(&ready, &p)) { live.erase(p->payload); vf_free(p); }
    CHECK(live.empty(), "%zu payloads are never freed", live.size());
    CHECK(m.sim.heap.empty(), "%zu blocks leak", m.sim.heap.size());
}

// ---- publisher bookkeeping ------------------------------------------------------------------------------------------

struct PM { std::map<void*, std::pair<uint32_t, uint64_t>> live; std::vector<void*> freed; Mod* m; };
static thread_local PM* pub_m;
static void pub_pfree(void* p, payload_len_t len, user_data_t ud) {
    auto it = pub_m->live.find(p);
    if (it == pub_m->live.end()) { pub_m->m->fail("a payload is released twice"); return; }
    if (it->second.first != len || it->second.second != ud.u64) pub_m->m->fail("a payload is released with wrong length or user data");
    pub_m->live.erase(it);
    pub_m->freed.push_back(p);
}

void mod_pub(uint64_t seed, bool thorough, ModResult& r) {
    Mod m(seed, r);
    Rng& g = m.g;
    PM pm;
    pm.m = &m;
    pub_m = &pm;
    pub_context_t ctx;
    memset(&ctx, 0xA5, sizeof ctx);
    pub_init_context(&ctx);
    const bool crowd = g.chance(0.04);      // more subscribers than a byte can count
    const int MAXS = crowd ? (int) g.range(250, 300) : 5;
    std::vector<pub_subscriber_t> sub(MAXS);
    memset((void*) sub.data(), 0xA5, sizeof(pub_subscriber_t) * MAXS);
    std::vector<std::map<uint64_t, usec_t>> owed((size_t) MAXS); std::vector<char> on((size_t) MAXS, 0);
    std::deque<std::pair<uint64_t, void*>> queue; std::deque<void*> anns;
    struct Fl { void* p; usec_t at; };
    std::map<uint64_t, Fl> fl;
    uint64_t next = 1; uintptr_t cookie = 0x1000; usec_t now = 1000; size_t ann_sent = 0;
    int n = crowd ? 60 : thorough ? 500 : 160;
    int want = crowd ? MAXS : 1 + (int) g.below((uint64_t) MAXS); double burst = g.pick(std::vector<double>{0.2, 0.5, 0.8});
    auto gone = [&](int s, uint64_t pid, std::vector<void*>& due) {
        owed[(size_t) s].erase(pid);
        for (int k = 0; k < MAXS; ++k) if (on[(size_t) k] && owed[(size_t) k].count(pid)) return;
        auto it = fl.find(pid);
        if (it != fl.end()) { due.push_back(it->second.p); fl.erase(it); }
    };
    if (crowd) for (int k = 0; k < MAXS; ++k) { pub_init_subscriber(&sub[(size_t) k], &ctx, user_data_u64((uint64_t) k + 77)); on[(size_t) k] = 1; }
    for (int i = 0; i < n; ++i) {
        pm.freed.clear();
        std::vector<void*> due;
        int up = 0;
        for (char x : on) up += x;
        int o = (int) g.below(20);
        if (o < 6) {
            void* p = (void*) (cookie += 16);
            uint32_t len = (uint32_t) g.below(65536); uint64_t ud = g.next();
            pm.live[p] = {len, ud};
            if (g.chance(0.05)) {
                uint64_t pid = pub_queue_no_acknowledge_packet(&ctx, p, (payload_len_t) len, user_data_u64(ud));
                m.op("queue announcement");
                CHECK(pid == 0, "an announcement gets number %llu", (ull) pid);
                anns.push_back(p);
            } else {
                uint64_t pid = pub_queue_packet(&ctx, p, (payload_len_t) len, user_data_u64(ud));
                m.op("queue -> %llu", (ull) pid);
                CHECK(pid == next, "packet %llu is numbered %llu", (ull) next, (ull) pid);
                queue.push_back({next++, p});
            }
        } else if (o < 11) {
            pub_packet_t* pk = pub_next_queued_packet(&ctx);
            void* e = !anns.empty() ? anns.front() : !queue.empty() ? queue.front().second : nullptr;
            CHECK((pk != nullptr) == (e != nullptr), "next queued packet is %p with %zu queued", (void*) pk, queue.size());
            if (!pk) continue;
            uint64_t pid = anns.empty() ? queue.front().first : 0;
            CHECK(pk->pid == pid && pk->payload == e && pk->payload_len == pm.live[e].first && pub_packet_user_data(pk).u64 == pm.live[e].second, "next queued packet is %llu, should be %llu", (ull) pk->pid, (ull) pid);
            if (!pid) {
                m.op("send announcement");
                pub_packet_sent(&ctx, pk, now);
                anns.pop_front(); pm.live.erase(e); ++ann_sent;
            } else if (up) {
                if (g.chance(0.7)) now += g.range(0, 100);
                m.op("send %llu at %lld to %d", (ull) pid, (long long) now, up);
                pub_packet_sent(&ctx, pk, now);
                queue.pop_front();
                fl[pid] = Fl{e, now};
                for (int k = 0; k < MAXS; ++k) if (on[(size_t) k]) owed[(size_t) k][pid] = now;
            }
        } else if (o < 16) {
            int s = (int) g.below(MAXS);
            if (crowd && !fl.empty() && g.chance(0.7)) {      // nearly everybody acknowledges one packet
                uint64_t pid = g.chance(0.5) ? fl.begin()->first : fl.rbegin()->first;
                int first = (int) g.below((uint64_t) MAXS), count = g.chance(0.4) ? MAXS : (int) g.range(MAXS / 2, MAXS);
                m.op("ack %llu by %d from %d", (ull) pid, count, first);
                for (int k = 0; k < count; ++k) {
                    int t = (first + k) % MAXS;
                    if (!on[(size_t) t]) continue;
                    pub_packet_ack(&sub[(size_t) t], pid, pub_pfree);
                    if (owed[(size_t) t].count(pid)) gone(t, pid, due);
                }
                s = -1;
            }
            if (s >= 0 && !on[(size_t) s]) continue;
            int c = s < 0 ? 0 : g.chance(burst) ? 1 + (int) g.below(6) : 1;
            while (c--) {
                uint64_t pid = owed[(size_t) s].empty() || g.chance(0.15) ? g.below(next + 2) : g.chance(0.5) ? owed[(size_t) s].begin()->first : std::next(owed[(size_t) s].begin(), (long) g.below(owed[(size_t) s].size()))->first;
                if (!pid) continue;
                m.op("ack %llu by %d", (ull) pid, s);
                pub_packet_ack(&sub[(size_t) s], pid, pub_pfree);
                if (owed[(size_t) s].count(pid)) gone(s, pid, due);
            }
        } else if (o == 16 || o == 17) {
            int s = (int) g.below(MAXS);
            if (!on[(size_t) s] && up < want) {
                m.op("subscribe %d", s);
                pub_init_subscriber(&sub[(size_t) s], &ctx, user_data_u64((uint64_t) s + 77));
                on[(size_t) s] = true; owed[(size_t) s].clear();
            } else if (on[(size_t) s] && g.chance(0.3)) {
                m.op("unsubscribe %d", s);
                pub_reset_subscriber(&sub[(size_t) s], pub_pfree);
                std::vector<uint64_t> all;
                for (auto& x : owed[(size_t) s]) all.push_back(x.first);
                for (auto pid : all) gone(s, pid, due);
                on[(size_t) s] = false;
            }
        } else if (o == 18) now += g.range(0, 3000);
        if (r.failed) return;
        std::sort(due.begin(), due.end()); std::sort(pm.freed.begin(), pm.freed.end());
        CHECK(due == pm.freed, "%zu payloads released, should be %zu", pm.freed.size(), due.size());
        CHECK(pub_queue_size(&ctx) == queue.size() + anns.size(), "queue size %u, should be %zu", pub_queue_size(&ctx), queue.size() + anns.size());
        CHECK(pub_get_unacknowledged_packet_count(&ctx) == fl.size(), "%u packets in flight, should be %zu", pub_get_unacknowledged_packet_count(&ctx), fl.size());
        usec_timestamp_t old = 5, exp = -1;
        for (int k = 0; k < MAXS; ++k) if (on[(size_t) k]) for (auto& x : owed[(size_t) k]) if (exp == -1 || x.second < exp) exp = x.second;
        CHECK(pub_get_oldest_unackowledged_packet(&ctx, &old) == 1 && old == exp, "oldest unacknowledged send time %lld, should be %lld", (long long) old, (long long) exp);
        usec_timestamp_t period = g.pick(std::vector<usec_t>{0, 1, 50, 200, 1000, 100000}), at = now + g.range(0, 300);
        if (g.chance(0.3) && exp != -1) { at = exp + period; if (g.chance(0.5)) --at; }
        pub_sub_list_t sl; pub_packet_list_t pl;
        pub_sub_list_init(&sl, 0, 0, 0);
        pub_get_timed_out_subscribers(&ctx, at, period, &sl);
        std::set<pub_subscriber_t*> ss, es;
        pub_subscriber_t* x = nullptr;
        while (pub_sub_list_pop_head(&sl, &x)) CHECK(ss.insert(x).second, "a subscriber is reported twice");
        for (int k = 0; k < MAXS; ++k) {
            if (!on[(size_t) k]) continue;
            bool late = false;
            pub_packet_list_init(&pl, 0, 0, 0);
            pub_get_timed_out_packets(&sub[(size_t) k], at, period, &pl);
            pub_packet_t* pk = nullptr;
            for (auto& y : owed[(size_t) k]) {
                if (y.second + period > at) continue;
                late = true;
                CHECK(pub_packet_list_pop_head(&pl, &pk), "packet %llu of subscriber %d has timed out but is not reported", (ull) y.first, k);
                CHECK(pk->pid == y.first && pk->payload == fl[y.first].p, "timed-out packet %llu reported, should be %llu", (ull) pk->pid, (ull) y.first);
            }
            CHECK(!pub_packet_list_pop_head(&pl, &pk), "a packet is reported as timed out that is not");
            if (late) es.insert(&sub[(size_t) k]);
            CHECK(pub_packet_list_size(&sub[(size_t) k].inflight) == owed[(size_t) k].size(), "subscriber %d owes %u packets, should be %zu", k, pub_packet_list_size(&sub[(size_t) k].inflight), owed[(size_t) k].size());
            CHECK(pub_subscriber_user_data(&sub[(size_t) k]).u64 == (uint64_t) k + 77, "user data of a subscriber is wrong");
        }
        CHECK(ss == es, "%zu subscribers reported as timed out, should be %zu", ss.size(), es.size());
    }
    // A node and a packet for everything that is still held, one node per owed copy, one node per subscriber.
    size_t blocks = 2 * (queue.size() + anns.size() + fl.size());
    for (int k = 0; k < MAXS; ++k) if (on[(size_t) k]) blocks += 1 + owed[(size_t) k].size();
    size_t have = m.sim.heap.size();
    CHECK(have <= blocks + 2 * ann_sent, "%zu blocks are allocated, should be at most %zu", have, blocks + (size_t) (2 * ann_sent));
}

// ---- log formatter --------------------------------------------------------------------------------------------------

void mod_log(uint64_t seed, bool, ModResult& r) {
    Mod m(seed, r);
    Rng& g = m.g;
    m.sim.now = g.pick(std::vector<usec_t>{0, 1, 1000000, 1ll << 60});
    rmc_log_use_color(g.chance(0.7) ? 1 : g.chance(0.5) ? 0 : -1);
    static const uint16_t idx[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 99, 100, 999, 1000, 9999, 10000, 32764, 0x7FFC, 0x7FFD, 0x7FFE, 0x7FFF, 0x8000, 65534, 65535};
    int lv = (int) g.range(0, 6);
    CHECK(rmc_set_log_level(lv) == 0, "level %d is refused", lv);
    int bad = g.chance(0.5) ? 7 + (int) g.below(1000) : -1 - (int) g.below(1000);
    CHECK(rmc_set_log_level(bad) != 0, "level %d is accepted", bad);
    if (g.chance(0.5)) rmc_log_set_start_time();
    for (int i = 0; i < 40; ++i) {
        uint16_t ix = g.chance(0.8) ? idx[g.below(25)] : (uint16_t) g.next();
        int e = (int) g.below(100);
        errno = e;
        m.op("log %d index %u", lv, ix);
        int l = g.chance(0.9) ? (int) g.range(1, 6) : (int) g.next();
        rmc_log(l, "func", "file.c", (int) g.next(), ix, "%s %d", std::string(g.below(3000), 'x').c_str(), 7);
        CHECK(errno == e, "logging changes errno from %d to %d", e, errno);
        RMC_LOG_INDEX_DEBUG(ix, "x %d", i);
        RMC_LOG_INDEX_FATAL(ix, "x %d", i);
        CHECK(errno == e, "logging changes errno from %d to %d", e, errno);
    }
    rmc_set_log_level(0);
    rmc_log_use_color(0);
}
