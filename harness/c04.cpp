// C04: node-limited conjunction is exact: the conjunction iff it has fewer nodes than the limit, else nothing.
#include "world.h"
#include "scale.h"
using namespace H;

static void limited(World& w, node_ref f, node_ref g, const TT& t, size_t limit)
{
    const size_t nodes = RefBdd(t).nodes;
    auto [z, cnt] = w.m.and_rec_limited(f, g, limit);
    count("limited_calls");
    if(nodes < limit) {
        REQUIRE(z.address() != nullptr, "refused", "conjunction has %zu nodes, limit %zu, but nothing was returned", nodes, limit);
        w.check_result("and_rec_limited", z, t);
        REQUIRE(cnt == nodes, "wrong-count", "reported %zu nodes instead of %zu (limit %zu)", cnt, nodes, limit);
        REQUIRE(z == w.from_tt(t), "not-canonical", "limited conjunction is not the diagram of its function");
        count("limit_granted");
    } else {
        REQUIRE(z.address() == nullptr, "limit-ignored", "conjunction has %zu nodes, limit %zu, but a diagram was returned", nodes, limit);
        REQUIRE(cnt == std::numeric_limits<size_t>::max(), "wrong-count", "refused, but the reported count is %zu", cnt);
        count("limit_refused");
    }
    if(nodes == limit) count("limit_equal"); if(nodes + 1 == limit) count("limit_one_above");
    nontrivial(mix(t.hash() ^ mix(limit)));
}

static void hist(Case& c)
{
    const bool large = args.mode == "big";
    World w(large ? c.rng.range(8, 12) : c.rng.range(1, 7), c.rng, c.rng.chance(20) ? 3 : 0);
    w.start();
    w.pool_limit = 30;
    if(large) for(int k = 0; k < 3; ++k) w.do_random_function();
    const int steps = large ? c.rng.range(4, 10) : c.rng.range(15, 60);
    for(int k = 0; k < steps; ++k) {
        if(c.rng.chance(60)) w.boolean_step();
        const size_t a = w.pick(), b = w.pick();
        const World::E A = w.pool[a], B = w.pool[b];
        const TT t = A.t & B.t;
        const size_t nodes = RefBdd(t).nodes;
        std::vector<size_t> limits;
        const int q = c.rng.range(1, 5);
        for(int i = 0; i < q; ++i) {
            switch(c.rng.below(8)) {
                case 0: limits.push_back(nodes); break;
                case 1: limits.push_back(nodes + 1); break;
                case 2: limits.push_back(nodes ? nodes - 1 : 0); break;
                case 3: limits.push_back(c.rng.below(4)); break;
                case 4: limits.push_back(std::numeric_limits<size_t>::max()); break;
                default: limits.push_back(c.rng.below(nodes * 2 + 3)); break;
            }
        }
        for(size_t l : limits) {
            op("and_rec_limited(#%zu,#%zu,%zu), conjunction has %zu nodes", a, b, l, nodes);
            limited(w, A.h, B.h, t, l);
            if(c.rng.chance(15)) { op("  and again with swapped operands"); limited(w, B.h, A.h, t, l); }
            if(c.rng.chance(15)) { op("  unlimited"); w.check_result("and after limited", w.m.and_rec(A.h, B.h), t); }
            if(c.rng.chance(5)) w.do_gc();
        }
        if(c.rng.chance(10)) { w.drop_many(); w.do_gc(); }
        maximum("conjunction_nodes", nodes);
    }
    w.check_pool(true);
}
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    w.do_generate(); w.do_generate();
    const int steps = w.target > 20000 ? c.rng.range(4, 10) : c.rng.range(8, 30);
    for(int k = 0; k < steps; ++k) { if(c.rng.chance(40)) w.step(); w.do_limited(); if(c.rng.chance(50)) w.do_limited(); }
    w.check_all();
}
void run_case(Case& c) { if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } hist(c); }
void end_of_chunk() {}
