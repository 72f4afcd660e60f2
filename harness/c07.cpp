// C07: collection reclaims exactly the unreachable nodes; the reported node count is exact; storage is reused.
#include "mix.h"
#include "scale.h"
#include "cycling.h"
using namespace H;

static size_t reachable(World& w, const std::vector<node_ref>& extra = {})
{
    std::unordered_set<node*> s;
    std::vector<node_ref> st;
    for(auto& e : w.pool) st.push_back(e.h);
    for(auto& e : extra) st.push_back(e);
    while(!st.empty()) {
        node_ref x = st.back(); st.pop_back();
        if(x.is_terminal() || !s.insert(x.address()).second) continue;
        st.push_back(x.low()); st.push_back(x.high());
    }
    return s.size();
}
static void exact(World& w, const char* when)
{
    const size_t e = reachable(w) + 2;
    REQUIRE(w.m.nr_nodes() == e, "wrong-count", "%s: %zu nodes reported, %zu are reachable from handles (with the two terminals)", when, w.m.nr_nodes(), e);
    count("exact_counts");
}
static void hist(Case& c)
{
    const bool large = args.mode == "big";
    Mix x(large ? c.rng.range(8, c.thorough ? 13 : 11) : c.rng.range(1, 7), c.rng, c.rng.chance(30) ? 4 : 0);
    World& w = x.w;
    exact(w, "fresh manager");
    w.pool_limit = large ? 14 : c.rng.range(6, 60);
    const int steps = large ? c.rng.range(6, 20) : c.rng.range(20, 90);
    for(int k = 0; k < steps; ++k) {
        const size_t before = w.m.nr_nodes();
        if(large && c.rng.chance(20)) w.do_random_function(); else if(!large && c.rng.chance(12)) x.side(); else w.boolean_step();
        REQUIRE(w.m.nr_nodes() >= before, "count-decreased", "node count fell from %zu to %zu without collection", before, w.m.nr_nodes());
        REQUIRE(w.m.nr_nodes() >= reachable(w) + 2, "count-too-low", "fewer nodes reported than reachable");
        if(c.rng.chance(30)) { // one node more exactly when it is new
            const size_t a = w.pick();
            const size_t b = w.m.nr_nodes();
            node_ref z = w.from_tt(w.pool[a].t);
            REQUIRE(w.m.nr_nodes() == b, "count-changed", "asking for an existing function changed the node count from %zu to %zu", b, w.m.nr_nodes());
        }
        if(c.rng.chance(25)) {
            w.drop_many();
            w.do_gc(); exact(w, "after collection");
            if(c.rng.chance(30)) { w.do_gc(); exact(w, "after a second collection"); }
            nontrivial(mix(hist_id));
        }
    }
    w.pool.clear();
    op("drop everything"); w.do_gc();
    REQUIRE(w.m.nr_nodes() == 2, "wrong-count", "%zu nodes left after everything was dropped and collected", w.m.nr_nodes());
    w.start();
    for(int k = 0; k < 5; ++k) w.boolean_step();
    w.check_pool(true);
}
// node count steps by exactly one per new node; a chain of single-parent nodes disappears in one collection
static void chain(Case& c)
{
    bdd_mgr m;
    const int n = c.rng.range(1, c.thorough ? 3000 : 1200);
    m.projection(n - 1); m.collect_garbage();
    REQUIRE(m.nr_nodes() == 2, "wrong-count", "%zu nodes after collecting the only function", m.nr_nodes());
    node_ref f = m.topsink();
    for(int i = n; i-- > 0;) {
        const size_t b = m.nr_nodes();
        f = c.rng.chance(50) ? m.unique_find(i, m.botsink(), f) : m.unique_find(i, f, m.botsink());
        REQUIRE(m.nr_nodes() == b + 1, "wrong-count", "a new node changed the count from %zu to %zu", b, m.nr_nodes());
    }
    op("chain of %d nodes", n);
    const size_t cut = c.rng.below(n);
    { node_ref g = f; for(size_t i = 0; i < cut; ++i) g = g.low().is_botsink() ? g.high() : g.low(); f = g; }
    m.collect_garbage();
    REQUIRE(m.nr_nodes() == n - cut + 2, "wrong-count", "cut %zu of %d chain nodes: %zu reported", cut, n, m.nr_nodes());
    f = m.botsink();
    m.collect_garbage();
    REQUIRE(m.nr_nodes() == 2, "wrong-count", "%zu nodes left of a dropped chain", m.nr_nodes());
    count("chains"); nontrivial(mix(n * 4099 + cut)); maximum("chain_length", n);
}
// repeated build / drop / collect cycles must not need more storage than the largest cycle
static void cycles(Case& c)
{
    const int n = c.rng.range(9, c.thorough ? 13 : 11);
    World w(n, c.rng, 0);
    std::unordered_set<node*> seen; size_t peak = 0;
    const int rounds = c.rng.range(8, 20);
    for(int q = 0; q < rounds; ++q) {
        {
            std::vector<node_ref> h;
            const int k = c.rng.range(1, 4);
            for(int i = 0; i < k; ++i) { const TT t = TT::random(n, c.rng); note(t.hash()); h.push_back(w.from_tt(t)); }
            if(k > 1) h.push_back(w.m.xor_rec(h[0], h[1]));
            peak = std::max(peak, w.m.nr_nodes());
            for(auto& f : h) for(auto& x : f.nodes_postorder()) seen.insert(x.address());
        }
        op("cycle %d: %zu nodes, then all dropped", q, w.m.nr_nodes());
        w.m.collect_garbage();
        REQUIRE(w.m.nr_nodes() == 2, "wrong-count", "%zu nodes left in cycle %d", w.m.nr_nodes(), q);
        REQUIRE(seen.size() <= peak + 4096, "not-reused", "%zu different nodes were handed out although at most %zu existed at a time", seen.size(), peak);
        count("cycles");
        nontrivial(mix(hist_id));
    }
    maximum("peak_nodes", peak);
}
// tables that grow and shrink again need no more storage in any round than in the largest one
static void plateau(Case& c)
{
    const size_t e = args.mode.find("-large") != std::string::npos ? c.rng.range(18, 20) : c.rng.range(7, 17), S = size_t(1) << e; const size_t V = c.rng.chance(70) ? 1 : 2;
    const size_t most = S / 4 + 3; Cycling w(most, V); const size_t rounds = (size_t(1) << 20) / S + (e > 17 ? 3 : 8 + c.rng.below(8));
    op("%zu rounds of %zu nodes on one variable", rounds, most); note(S); note(rounds); note(V); u64 bytes = 0;
    for(size_t q = 0; q < rounds; ++q) {
        for(size_t v = 0; v < V; ++v) w.grow(v, q < 2 || c.rng.chance(90) ? most : c.rng.range(0, int(most)));
        for(size_t v = 0; v < V; ++v) w.shrink(v, q < 2 || c.rng.chance(80) ? 0 : c.rng.range(0, int(S / 64)));
        w.collect();
        if(q == 1) bytes = alloc_stats.live_bytes;
        if(q > 1) REQUIRE(alloc_stats.live_bytes <= bytes + (1 << 18), "not-reused", "%llu bytes in use after %zu equal rounds, %llu after the second", (unsigned long long)alloc_stats.live_bytes, q + 1, (unsigned long long)bytes);
        count("rounds");
    }
    maximum("rounds_of_one_table", rounds); maximum("table_slots", S); nontrivial(mix(hist_id));
}
// large populations: exact counts, and storage used again
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int rounds = w.target > 20000 ? c.rng.range(2, 4) : c.rng.range(3, 8);
    for(int q = 0; q < rounds; ++q) {
        const int k = c.rng.range(1, 5); for(int i = 0; i < k; ++i) if(c.rng.chance(60)) w.do_generate(); else w.step();
        if(c.rng.chance(70)) w.drop_some();
        w.do_gc(); 
        const size_t n0 = w.m.nr_nodes(); w.build(w.pool[w.pick()].f); REQUIRE(w.m.nr_nodes() == n0, "wrong-count", "building an existing diagram changed the node count from %zu to %zu", n0, w.m.nr_nodes());
        // a diagram, dropped and built again, uses the storage given back
        const id f = w.generate(); std::unordered_set<node*> s; { node_ref h = w.build(f); for(auto& x : h.is_terminal() ? std::vector<node_ref>() : h.nodes_postorder()) s.insert(x.address()); }
        w.do_gc();
        size_t known = 0, fresh = 0; { node_ref h = w.build(f); for(auto& x : h.is_terminal() ? std::vector<node_ref>() : h.nodes_postorder()) (s.count(x.address()) ? known : fresh)++; }
        count("rebuilt_nodes", known + fresh); count("rebuilt_on_old_storage", known);
        w.do_gc(); nontrivial(mix(hist_id));
    }
    w.pool.clear(); w.m.collect_garbage(); REQUIRE(w.m.nr_nodes() == 2, "wrong-count", "%zu nodes after everything was dropped", w.m.nr_nodes());
    w.pool.push_back({w.m.botsink(), 0}); w.pool.push_back({w.m.topsink(), 1});
}
void run_case(Case& c) { if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } if(args.mode.rfind("plateau", 0) == 0) plateau(c); else if(args.mode == "chain") chain(c); else if(args.mode == "cycles") cycles(c); else hist(c); }
void end_of_chunk() {}
