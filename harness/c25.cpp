// C25: depth bookkeeping: the depth of a node is the length of the longest path to a terminal.
#include "world.h"
#include "bdd_node_depth.h"
#include <deque>
using namespace H;

// diagrams that are deeper than 16-bit counters reach; nodes are added as they are made
static void deep(Case& c)
{
    bdd_mgr m; const size_t n = c.rng.range(66000, 72000); m.projection(n - 1);
    BDD::bdd_node_depth d; d.add_topsink(m.topsink().address()); d.add_botsink(m.botsink().address());
    std::unordered_map<node*, size_t> ref; std::deque<node_ref> keep; node_ref x = m.topsink(); const int p = c.rng.range(0, 20);
    op("chain over %zu variables", n); note(n);
    for(size_t i = n; i-- > 0;) {
        node_ref y = c.rng.chance(p) && !keep.empty() ? keep[c.rng.below(keep.size())] : c.rng.chance(50) ? m.botsink() : m.topsink(); if(y == x) y = x == m.botsink() ? m.topsink() : m.botsink();
        const bool s = c.rng.chance(50); node_ref z = s ? m.unique_find(i, x, y) : m.unique_find(i, y, x); note(s);
        auto dep = [&](const node_ref& q) -> size_t { return q.is_terminal() ? 0 : ref.at(q.address()); };
        const size_t e = 1 + std::max(dep(x), dep(y)), got = d.add_node(z.address());
        REQUIRE(got == e, "depth", "depth of a node on variable %zu is %zu instead of %zu", i, got, e);
        ref[z.address()] = e; keep.push_back(z); x = z; count("nodes_added"); maximum("depth", e);
    }
    nontrivial(mix(hist_id));
    // the nodes go one after another, as a handle to the whole chain is not needed
}
void run_case(Case& c)
{
    if(args.mode == "deep") { deep(c); return; }
    const bool chain = args.mode == "chain";
    const int n = chain ? c.rng.range(50, 1200) : c.rng.range(1, 9);
    const int tables = c.rng.range(1, 3);
    World w(chain ? 1 : n, c.rng, chain ? 0 : (c.rng.chance(30) ? 4 : 0));
    std::vector<BDD::bdd_node_depth> d(tables); std::vector<std::unordered_map<node*, size_t>> ref(tables);
    const bool bot_first = c.rng.chance(50);
    for(int t = 0; t < tables; ++t) { if(bot_first) d[t].add_botsink(w.m.botsink().address()); d[t].add_topsink(w.m.topsink().address()); if(!bot_first) d[t].add_botsink(w.m.botsink().address()); }
    std::vector<node_ref> f;
    if(chain) {
        w.m.projection(n - 1); node_ref x = w.m.topsink();
        for(int i = n; i-- > 0;) if(c.rng.chance(90)) { node_ref y = c.rng.chance(60) ? (c.rng.chance(50) ? w.m.botsink() : w.m.topsink()) : (f.empty() ? w.m.botsink() : f[c.rng.below(f.size())]); node_ref z = c.rng.chance(50) ? w.m.unique_find(i, x, y) : w.m.unique_find(i, y, x); if(z == x || z.is_terminal() || z.variable() != size_t(i)) continue; x = z; f.push_back(x); }
    } else { const int k = c.rng.range(1, 8); for(int i = 0; i < k; ++i) { TT t = TT::random(n, c.rng); for(int v = 0; v < n; ++v) if(c.rng.chance(25)) t = t.cofactor(v, c.rng.chance(50)); f.push_back(w.from_tt(t)); op("function %s", t.str().c_str()); } }
    for(auto& h : f) {
        const int t = c.rng.below(tables);
        for(auto& x : h.nodes_postorder()) {
            if(ref[t].count(x.address())) continue;
            node_ref y = x; node_ref lo = y.low(), hi = y.high();
            const size_t a = lo.is_terminal() ? 0 : ref[t].at(lo.address()), b = hi.is_terminal() ? 0 : ref[t].at(hi.address());
            const size_t e = 1 + std::max(a, b);
            const size_t got = d[t].add_node(x.address());
            REQUIRE(got == e, "depth", "depth of a node on variable %zu is %zu instead of %zu", y.variable(), got, e);
            ref[t][x.address()] = e; count("nodes_added"); maximum("depth", e);
            if(a != b) count("uneven");
        }
        nontrivial(mix(shape(h) * 3 + tables));
    }
}
void end_of_chunk() {}
