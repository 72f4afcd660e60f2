// C13: managers and collections do not influence each other, neither interleaved in one thread nor in concurrent threads.
#include "mix.h"
#include <thread>
#include <condition_variable>
#include <mutex>
#include "scale.h"
using namespace H;

struct Barrier { std::mutex m; std::condition_variable cv; int n, waiting = 0; u64 gen = 0; explicit Barrier(int n_) : n(n_) {}
    void wait() { std::unique_lock<std::mutex> l(m); const u64 g = gen; if(++waiting == n) { waiting = 0; ++gen; cv.notify_all(); } else cv.wait(l, [&] { return gen != g; }); } };

static void interleave(Case& c)
{
    const int K = c.rng.range(2, 4);
    const int n = c.rng.range(1, 5);
    struct Slot { Rng r; std::unique_ptr<Mix> x; size_t nodes = 0; std::vector<std::vector<std::array<size_t, 3>>> snap; explicit Slot(u64 s) : r(s) {} };
    std::vector<std::unique_ptr<Slot>> s;
    auto fresh = [&](Slot& t) { t.x.reset(new Mix(n, t.r, t.r.chance(40) ? 4 : 0)); t.nodes = t.x->w.m.nr_nodes(); t.snap = t.x->c.snapshot(); };
    for(int k = 0; k < K; ++k) { s.emplace_back(new Slot(c.rng.next())); fresh(*s.back()); }
    const int steps = c.rng.range(40, 150);
    int last = -1;
    for(int i = 0; i < steps; ++i) {
        const int k = c.rng.below(K); Slot& t = *s[k];
        op("[manager %d]", k);
        if(last != k) count("switches");
        last = k;
        if(c.rng.chance(3)) { op("manager %d destroyed and made anew", k); t.x.reset(); fresh(t); count("managers_replaced"); }
        else if(c.rng.chance(12)) { // a function travels to another manager through a collection
            const int d = (k + 1 + c.rng.below(K - 1)) % K; Mix& A = *t.x; Mix& B = *s[d]->x;
            const size_t e = A.w.pick(); const TT f = A.w.pool[e].t;
            op("#%zu of manager %d goes to manager %d", e, k, d); count("transfers");
            bdd_collection col; const size_t z = col.add_bdd(A.w.pool[e].h);
            std::unordered_map<size_t, size_t> mp; for(int q = 0; q < n; ++q) mp[A.w.vmap[q]] = B.w.vmap[q];
            col.rebase(z, mp);
            for(size_t v : B.w.vmap) B.w.need_var(v);
            node_ref h = c.rng.chance(50) ? col.export_bdd(B.w.m, z) : B.w.m.add_bdd(col, z);
            REQUIRE(h.find_bdd_mgr() == &B.w.m, "transfer", "a diagram exported into one manager belongs to another");
            B.w.put("transfer", h, f);
            const size_t y = B.c.col.add_bdd(A.w.pool[e].h); B.c.col.rebase(y, mp); B.c.record("transfer", y, f); // straight into the other collection
            s[d]->nodes = B.w.m.nr_nodes(); s[d]->snap = B.c.snapshot();
        } else { const int q = c.rng.range(1, 4); for(int j = 0; j < q; ++j) t.x->step(); }
        t.nodes = t.x->w.m.nr_nodes(); t.snap = t.x->c.snapshot();
        for(int j = 0; j < K; ++j) { // nobody else changed
            REQUIRE(s[j]->x->w.m.nr_nodes() == s[j]->nodes, "influence", "work on manager %d changed the node count of manager %d from %zu to %zu", k, j, s[j]->nodes, s[j]->x->w.m.nr_nodes());
            if(i % 4 == 0) REQUIRE(s[j]->x->c.snapshot() == s[j]->snap, "influence", "work on manager %d changed the collection of manager %d", k, j);
        }
        nontrivial(mix(hist_id));
    }
    // nodes of different managers are different objects
    std::unordered_map<node*, int> owner;
    for(int k = 0; k < K; ++k) for(auto& e : s[k]->x->w.pool) { World::Walk w; s[k]->x->w.walk(e.h, w); for(auto& [p, t] : w.tt) { auto it = owner.emplace(p, k).first; REQUIRE(it->second == k, "shared-node", "managers %d and %d share a node", it->second, k); } }
    for(auto& t : s) t->x->finish();
    count("interleaved_histories");
}
static void threads(Case& c)
{
    const int T = c.rng.range(2, c.thorough ? 8 : 5);
    const bool made_here = c.rng.chance(40);
    op("%d threads, managers made in %s", T, made_here ? "the main thread" : "their own thread"); count("thread_groups"); count("threads", T);
    struct Slot { Rng r; std::unique_ptr<Mix> x; explicit Slot(u64 s) : r(s) {} };
    std::vector<std::unique_ptr<Slot>> s; for(int k = 0; k < T; ++k) s.emplace_back(new Slot(c.rng.next()));
    const int steps = c.rng.range(15, 60); const int n = c.rng.range(1, 6);
    quiet = true;
    if(made_here) for(auto& t : s) t->x.reset(new Mix(n, t->r, 0));
    const int phases = c.rng.range(1, 3);
    for(int ph = 0; ph < phases; ++ph) {
        Barrier b(T); std::vector<std::thread> th; std::vector<std::atomic<u64>> hashes(T);
        std::atomic<u64> alive{0}; std::atomic<u64> overlap{0};
        for(int k = 0; k < T; ++k) th.emplace_back([&, k] {
            quiet = true;
            Slot& t = *s[(k + ph) % T]; // handed from thread to thread, with a join in between
            b.wait();
            alive.fetch_add(1, std::memory_order_relaxed);
            if(!t.x) t.x.reset(new Mix(n, t.r, t.r.chance(40) ? 4 : 0));
            for(int i = 0; i < steps; ++i) { t.x->step(); if(alive.load(std::memory_order_relaxed) > 1) overlap.fetch_add(1, std::memory_order_relaxed); }
            t.x->finish();
            hashes[k].store(hist_id);
            if(t.r.chance(30)) t.x.reset();
            alive.fetch_sub(1, std::memory_order_relaxed);
        });
        for(auto& t : th) t.join();
        for(int k = 0; k < T; ++k) note(hashes[k].load());
        quiet = false; count("thread_steps", u64(T) * steps); count("overlapping_steps", overlap); quiet = true;
    }
    for(auto& t : s) t->x.reset();
    quiet = false;
    nontrivial(mix(hist_id));
}
// several managers with large diagrams and collections, interleaved in one thread
static void scale(Case& c)
{
    const int K = c.rng.range(2, 3); std::vector<std::unique_ptr<SWorld>> s; std::vector<size_t> nodes(K); std::vector<std::vector<u64>> dig(K);
    for(int k = 0; k < K; ++k) { s.emplace_back(new SWorld(c.rng, c.rng.range(10, 40), c.rng.chance(70) ? 400 : 5000)); s[k]->coll_limit = 6; }
    auto seen = [&](int k) { nodes[k] = s[k]->m.nr_nodes(); dig[k] = s[k]->digests(); }; for(int k = 0; k < K; ++k) seen(k);
    const int steps = c.rng.range(8, 30);
    for(int i = 0; i < steps; ++i) {
        const int k = c.rng.below(K); op("[manager %d]", k);
        if(c.rng.chance(65)) s[k]->step(); else s[k]->coll_step();
        if(c.rng.chance(10)) s[k]->do_gc();
        if(c.rng.chance(5)) { op("manager %d destroyed and made anew", k); s[k].reset(); s[k].reset(new SWorld(c.rng, c.rng.range(10, 40), 400)); s[k]->coll_limit = 6; count("managers_replaced"); }
        seen(k);
        for(int j = 0; j < K; ++j) { REQUIRE(s[j]->m.nr_nodes() == nodes[j], "influence", "work on manager %d changed the node count of manager %d from %zu to %zu", k, j, nodes[j], s[j]->m.nr_nodes()); REQUIRE(s[j]->digests() == dig[j], "influence", "work on manager %d changed the collection of manager %d", k, j); }
        if(c.rng.chance(10)) s[c.rng.below(K)]->check_all();
        nontrivial(mix(hist_id));
    }
    std::unordered_map<node*, int> owner;
    for(int k = 0; k < K; ++k) { s[k]->check_all(); s[k]->check_coll(); for(auto& [p, f] : s[k]->walked) { auto it = owner.emplace(p, k).first; REQUIRE(it->second == k, "shared-node", "managers %d and %d share a node", it->second, k); } }
}
// threads with large diagrams of their own: tables grow and shrink, node pages and memories of results are added at the same time
static void threads_large(Case& c)
{
    const int T = c.rng.range(2, c.thorough ? 6 : 4); const size_t target = c.rng.chance(60) ? 400 : 2500; const bool made_here = c.rng.chance(30);
    op("%d threads with diagrams of up to %zu nodes, managers made in %s", T, target, made_here ? "the main thread" : "their own thread"); count("large_thread_groups"); count("threads", T);
    struct Slot { Rng r; std::unique_ptr<SWorld> x; explicit Slot(u64 s) : r(s) {} };
    std::vector<std::unique_ptr<Slot>> s; for(int k = 0; k < T; ++k) s.emplace_back(new Slot(c.rng.next()));
    const int steps = c.rng.range(6, 20), phases = c.rng.range(1, 2);
    auto fresh = [&](Slot& t) { t.x.reset(new SWorld(t.r, t.r.range(8, 40), target, false)); t.x->coll_limit = 6; };
    if(made_here) { quiet = true; for(auto& t : s) fresh(*t); quiet = false; }
    for(int ph = 0; ph < phases; ++ph) {
        Barrier b(T); std::vector<std::thread> th; std::vector<std::atomic<u64>> hashes(T); std::atomic<u64> alive{0}, overlap{0}, nodes{0};
        for(int k = 0; k < T; ++k) th.emplace_back([&, k] {
            quiet = true; Slot& t = *s[(k + ph) % T];
            b.wait(); alive.fetch_add(1, std::memory_order_relaxed);
            if(!t.x) fresh(t);
            for(int i = 0; i < steps; ++i) {
                if(t.r.chance(60)) t.x->step(); else t.x->coll_step();
                if(t.r.chance(15)) t.x->do_gc();
                if(alive.load(std::memory_order_relaxed) > 1) overlap.fetch_add(1, std::memory_order_relaxed);
            }
            t.x->check_all(); t.x->check_coll(); nodes.fetch_add(t.x->m.nr_nodes(), std::memory_order_relaxed);
            hashes[k].store(hist_id);
            if(t.r.chance(30)) t.x.reset();
            alive.fetch_sub(1, std::memory_order_relaxed);
        });
        for(auto& t : th) t.join();
        for(int k = 0; k < T; ++k) note(hashes[k].load());
        count("thread_steps", u64(T) * steps); count("overlapping_steps", overlap); maximum("threads_nodes", nodes);
    }
    quiet = true; for(auto& t : s) t->x.reset(); quiet = false;
    nontrivial(mix(hist_id));
}
void run_case(Case& c) { if(args.mode == "threads-large") { threads_large(c); return; } if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } if(args.mode == "threads") threads(c); else interleave(c); }
void end_of_chunk() {}
