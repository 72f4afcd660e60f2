// C12: memory safety of the whole API: every operation, under sanitizers / valgrind / an allocation monitor, and no storage left behind.
#include "mix.h"
#include "scale.h"
using namespace H;

static int rounds(Case& c) { return args.mode == "small" ? c.rng.range(6, 25) : c.rng.range(40, 160); }
static void mix_case(Case& c)
{
    Mix x(args.mode == "small" ? c.rng.range(1, 4) : c.rng.range(1, 7), c.rng, c.rng.chance(40) ? 5 : 0);
    const int k = rounds(c);
    for(int i = 0; i < k; ++i) x.step();
    x.finish();
    count("mix_steps", k);
}
// everything a manager and its collections allocate is given back when they are destroyed
static void leak_case(Case& c)
{
    op("leak accounting of one history (the steps are not logged; rerun mode mix with the same seed)");
    u64 b0, y0, a0, b1 = 0, y1 = 0, a1 = 0;
    const u64 seed = c.rng.next();
    for(int pass = 0; pass < 2; ++pass) { // the first pass warms up whatever lives as long as the process
        quiet = true;
        b0 = alloc_stats.live_blocks; y0 = alloc_stats.live_bytes; a0 = alloc_stats.total_allocs;
        {
            Rng r(seed);
            Mix x(r.range(1, 6), r, r.chance(40) ? 5 : 0);
            const int k = r.range(10, 80);
            for(int i = 0; i < k; ++i) x.step();
            if(r.chance(50)) x.finish();
        }
        b1 = alloc_stats.live_blocks; y1 = alloc_stats.live_bytes; a1 = alloc_stats.total_allocs;
        quiet = false;
    }
    REQUIRE(b1 == b0 && y1 == y0, "leak", "%lld blocks, %lld bytes more than before the manager and its collections existed", (long long)(b1 - b0), (long long)(y1 - y0));
    count("leak_checked_lifetimes"); count("allocations_accounted", a1 - a0); nontrivial(mix(hist_id));
}
// managers whose pools grow several times: many variables, many nodes, several large tables
static void pools_case(Case& c)
{
    const int kind = c.rng.below(4); const u64 seed = c.rng.next(); u64 b0 = 0, y0 = 0, b1 = 0, y1 = 0, nodes = 0, vars = 0;
    note(seed);
    auto life = [&]() {
        Rng r(seed); bdd_mgr m; std::vector<node_ref> keep;
        const size_t nv = kind == 0 ? 16300 + r.below(60000) : 30;
        m.projection(nv - 1); // many pages of the smallest tables
        if(kind == 1) { std::vector<node_ref> x; for(size_t i = 0; i < nv; ++i) x.push_back(m.projection(i)); keep = x; for(size_t i = 0; i < 20; ++i) keep.push_back(m.cardinality(x.begin(), x.end(), r.below(30))); }
        if(kind >= 2) { // wide levels: several tables of one size class at a time
            std::vector<node_ref> lower{m.botsink(), m.topsink()};
            for(size_t v = nv - 1; lower.size() < 800; --v) { std::vector<node_ref> nx(lower); for(int q = 0; q < 400; ++q) { const size_t a = r.below(lower.size()), b = r.below(lower.size()); if(a != b) nx.push_back(m.unique_find(v, lower[a], lower[b])); } std::sort(nx.begin(), nx.end(), [](const node_ref& a, const node_ref& b) { return a.address() < b.address(); }); nx.erase(std::unique(nx.begin(), nx.end()), nx.end()); lower.swap(nx); }
            const size_t tables = kind == 2 ? 2 + r.below(8) : 2, per = kind == 2 ? 20000 + r.below(60000) : 140000 + r.below(c.thorough ? 400000 : 20000);
            for(size_t v = 0; v < tables; ++v) { size_t k = 0; for(size_t a = 0; a < lower.size() && k < per; ++a) for(size_t b = 0; b < lower.size() && k < per; ++b) if(a != b) { keep.push_back(m.unique_find(v, lower[a], lower[b])); ++k; } if(r.chance(20)) { keep.clear(); m.collect_garbage(); } }
            if(r.chance(50)) { keep.clear(); m.collect_garbage(); }
        }
        nodes = m.nr_nodes(); vars = m.nr_variables();
    };
    op("life of a manager with grown pools, kind %d", kind);
    { bdd_mgr warm; warm.projection(3); }
    b0 = alloc_stats.live_blocks; y0 = alloc_stats.live_bytes; const u64 a0 = alloc_stats.total_allocs;
    life();
    b1 = alloc_stats.live_blocks; y1 = alloc_stats.live_bytes;
    REQUIRE(b1 == b0 && y1 == y0, "leak", "%lld blocks, %lld bytes more than before a manager with %zu nodes and %zu variables existed", (long long)(b1 - b0), (long long)(y1 - y0), size_t(nodes), size_t(vars));
    count("leak_checked_lifetimes"); count("allocations_accounted", alloc_stats.total_allocs - a0); maximum("nodes", nodes); maximum("variables", vars); nontrivial(mix(hist_id));
}
// collections alone, without a manager of their own
static void coll_leak_case(Case& c)
{
    Mix x(c.rng.range(1, 6), c.rng, 0);
    x.c.ensure(4); x.c.check_all();
    for(int pass = 0; pass < 2; ++pass) {
        const u64 seed = c.rng.next();
        quiet = true;
        auto body = [&]() {
            bdd_collection col(x.c.col);
            Rng r(seed);
            for(int i = 0; i < 12; ++i) {
                const size_t a = r.below(col.nr_bdds()), b = r.below(col.nr_bdds()); note(a * 64 + b);
                switch(r.below(5)) {
                    case 0: col.bdd_and(a, b); break;
                    case 1: col.bdd_and(a, b, size_t(3) + r.below(6)); break;
                    case 2: { size_t idx[5] = {a, b, a, b, 0}; col.bdd_and(idx, idx + 5); break; }
                    case 3: { std::vector<size_t> p{0}, q{}; col.bdd_or_var(a, p, q); break; }
                    default: { if(col.nr_bdds() > 3) { size_t d[1] = {col.nr_bdds() - 1}; col.remove(d, d + 1); } break; }
                }
            }
        };
        body();
        const u64 b0 = alloc_stats.live_blocks, y0 = alloc_stats.live_bytes;
        body();
        const u64 b1 = alloc_stats.live_blocks, y1 = alloc_stats.live_bytes;
        quiet = false;
        REQUIRE(b1 == b0 && y1 == y0, "leak", "a collection left %lld blocks, %lld bytes behind", (long long)(b1 - b0), (long long)(y1 - y0));
        count("leak_checked_collections"); nontrivial(mix(hist_id));
    }
}
// larger managers: several pages of nodes, tables that grow and shrink, long histories on one manager
static void large_case(Case& c)
{
    Mix x(c.rng.range(8, 11), c.rng, 0);
    x.w.pool_limit = 10;
    const int k = c.rng.range(10, 30);
    for(int i = 0; i < k; ++i) {
        if(c.rng.chance(35)) x.w.do_random_function(); else x.w.boolean_step();
        if(c.rng.chance(20)) { x.w.drop_many(); x.w.do_gc(); }
        if(c.rng.chance(20)) { const size_t a = x.w.pick(); x.c.do_add(x.w.pool[a].t); x.c.do_and(); if(c.rng.chance(40)) x.c.do_or_var(); if(c.rng.chance(30)) x.c.do_remove(); x.c.ensure(1); x.coll_query(); }
    }
    x.w.check_pool(false);
    maximum("nodes", x.w.m.nr_nodes()); count("large_steps", k);
}
// all operations on large diagrams
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(2, 8) : c.rng.range(5, 20);
    for(int k = 0; k < steps; ++k) { if(c.rng.chance(50)) w.step(); else w.coll_step(); }
    w.check_all(); w.check_coll();
}
void run_case(Case& c)
{ if(args.mode.rfind("scale", 0) == 0) { scale(c); return; }
    if(args.mode == "leak") leak_case(c);
    else if(args.mode == "pools") pools_case(c);
    else if(args.mode == "coll-leak") coll_leak_case(c);
    else if(args.mode == "large") large_case(c);
    else mix_case(c);
}
void end_of_chunk() {}
