// C06: garbage collection at any point leaves every held handle and every later result right.
#include "mix.h"
#include "scale.h"
using namespace H;

// An operation whose operands stay alive while its result is dropped: repeated after collection, when the storage
// of the result has been reused, it must be computed again rightly.
static void redo(World& w, Rng& r)
{
    struct Q { int kind; World::E a, b, c; };
    std::vector<Q> qs;
    const int k = r.range(1, 6);
    for(int i = 0; i < k; ++i) qs.push_back({int(r.below(9)), w.pool[w.pick()], w.pool[w.pick()], w.pool[w.pick()]});
    auto go = [&](const Q& q) {
        node_ref z; TT t;
        switch(q.kind) {
            case 0: z = w.m.and_rec(q.a.h, q.b.h); t = q.a.t & q.b.t; break;
            case 1: z = w.m.or_rec(q.a.h, q.b.h); t = q.a.t | q.b.t; break;
            case 2: z = w.m.xor_rec(q.a.h, q.b.h); t = q.a.t ^ q.b.t; break;
            case 3: case 4: z = w.m.ite_rec(q.a.h, q.b.h, q.c.h); t = (q.a.t & q.b.t) | (~q.a.t & q.c.t); break;
            case 5: z = w.m.negate(q.a.h); t = ~q.a.t; break;
            case 6: { auto [y, cnt] = w.m.and_rec_limited(q.a.h, q.b.h, std::numeric_limits<size_t>::max()); z = y; t = q.a.t & q.b.t; break; }
            case 7: z = w.m.ite_rec(q.a.h, q.c.h, w.m.negate(q.b.h)); t = (q.a.t & q.c.t) | (~q.a.t & ~q.b.t); break;
            default: z = w.m.and_rec(w.m.or_rec(q.a.h, q.b.h), w.m.xor_rec(q.a.h, q.c.h)); t = (q.a.t | q.b.t) & (q.a.t ^ q.c.t); break;
        }
        w.check_result("operation around a collection", z, t);
        nontrivial(mix(t.hash() + q.kind));
    };
    op("redo: %d operations with dropped results", k);
    for(auto& q : qs) go(q);
    if(r.chance(30)) w.drop_many(); // operands kept by qs only
    w.do_gc();
    const int fill = r.range(0, 6);
    op("  refill with %d functions", fill);
    for(int i = 0; i < fill; ++i) { TT t = TT::random(w.n, r); w.put("refill", w.from_tt(t), t); }
    if(r.chance(30)) { op("  collect again"); w.do_gc(); }
    for(auto& q : qs) go(q);
    count("redo", k);
}
static void hist(Case& c)
{
    const bool large = args.mode == "big";
    Mix x(large ? c.rng.range(8, c.thorough ? 13 : 11) : c.rng.range(1, 7), c.rng, c.rng.chance(30) ? 4 : 0);
    World& w = x.w;
    w.pool_limit = large ? 14 : c.rng.range(6, 60);
    const int steps = large ? c.rng.range(6, 20) : c.rng.range(20, 90);
    const int gcp = c.rng.range(3, 50);
    for(int k = 0; k < steps; ++k) {
        if(large && c.rng.chance(20)) w.do_random_function(); else if(!large && c.rng.chance(12)) x.side(); else w.boolean_step();
        if(c.rng.chance(gcp)) {
            if(c.rng.chance(60)) w.drop_many(); else if(c.rng.chance(50)) w.do_drop();
            w.do_gc();
            if(c.rng.chance(20)) w.do_gc();
            w.check_pool(true);
            for(int i = 0; i < 2; ++i) { // surviving functions are found, not duplicated
                const size_t a = w.pick();
                REQUIRE(w.from_tt(w.pool[a].t) == w.pool[a].h, "lost-node", "function of live handle #%zu built again gives another handle after collection", a);
            }
        }
        if(c.rng.chance(15)) redo(w, c.rng);
    }
    w.check_pool(true);
    maximum("nr_nodes", w.m.nr_nodes());
}
// handles held only in containers returned by the library, or only through inner nodes
static void inner(Case& c)
{
    World w(c.rng.range(3, 8), c.rng, 0);
    w.start();
    std::vector<std::pair<node_ref, TT>> held;
    for(int q = 0; q < 6; ++q) {
        TT t = TT::random(w.n, c.rng);
        {
            node_ref f = w.from_tt(t);
            auto v = c.rng.chance(50) ? f.nodes_postorder() : f.nodes_bfs();
            op("hold some inner nodes of %s (%zu nodes), drop the root", t.str().c_str(), v.size());
            for(auto& x : v) if(c.rng.chance(30)) held.push_back({x, w.tt_of(x)});
            if(!v.empty()) { auto k = c.rng.below(v.size()); node_ref x = v[k]; held.push_back({x.low(), w.tt_of(x.low())}); held.push_back({x.high(), w.tt_of(x.high())}); }
        }
        w.do_gc();
        w.do_random_function();
        for(auto& [h, u] : held) { REQUIRE(w.tt_of(h) == u, "handle-changed", "an inner node held by a handle changed after collection"); REQUIRE(w.from_tt(u) == h, "lost-node", "an inner node held by a handle is not found after collection"); count("inner_handles_checked"); nontrivial(u.hash()); }
        if(c.rng.chance(50)) for(size_t i = held.size(); i-- > 0;) if(c.rng.chance(50)) { held[i] = held.back(); held.pop_back(); }
    }
}
// large populations, collected at random points
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(4, 10) : c.rng.range(8, 30); const int gcp = c.rng.range(10, 60);
    for(int k = 0; k < steps; ++k) {
        w.step();
        if(!c.rng.chance(gcp)) continue;
        if(c.rng.chance(60)) w.drop_some();
        w.do_gc(false); if(c.rng.chance(20)) w.do_gc(false);
        w.check_all();
        for(int q = 0; q < 2; ++q) { const size_t a = w.pick(); REQUIRE(w.build(w.pool[a].f) == w.pool[a].h, "lost-node", "function of live handle #%zu built again gives another handle after collection", a); }
    }
    w.check_all();
}
void run_case(Case& c) { if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } if(args.mode == "inner") inner(c); else hist(c); }
void end_of_chunk() {}
