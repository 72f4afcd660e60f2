// C01: every Boolean operation returns the diagram of the right function, for all operands and histories.
#include "world.h"
#include "scale.h"
using namespace H;

static void hist(Case& c)
{
    World w(c.rng.range(1, c.rng.chance(20) ? 8 : 6), c.rng, c.rng.chance(30) ? 5 : c.rng.chance(5) ? 300 : 0);
    w.start();
    w.pool_limit = c.rng.range(8, 70);
    const int steps = c.rng.range(30, 160);
    const int gc = c.rng.chance(40) ? c.rng.range(1, 12) : 0;
    for(int k = 0; k < steps; ++k) {
        w.boolean_step();
        if(gc && c.rng.chance(gc)) { if(c.rng.chance(50)) w.drop_many(); w.do_gc(); }
    }
    w.check_pool(false);
}

// all functions of n variables, all operand combinations, in random order within one manager
static void exhaustive(Case& c, int n)
{
    World w(n, c.rng, c.rng.chance(50) ? 3 : 0);
    w.start();
    const size_t N = size_t(1) << (size_t(1) << n);
    std::vector<node_ref> f; std::vector<TT> t;
    w.need_var(w.vmap.back() + (c.rng.chance(50) ? c.rng.below(3) : 0)); // the last variable may or may not be used
    for(size_t x = 0; x < N; ++x) { TT u(n); u.w[0] = x; t.push_back(u); }
    for(size_t x = 0; x < N; ++x) f.push_back(w.from_tt(t[x]));
    op("all %zu functions of %d variables built", N, n);
    auto index_of = [&](const TT& u) { return size_t(u.w[0]); };
    const int nops = n == 2 ? 5 : 4;
    struct J { int o; uint32_t a, b, c; };
    std::vector<J> jobs;
    for(size_t a = 0; a < N; ++a) {
        jobs.push_back({3, uint32_t(a), 0, 0});
        for(size_t b = 0; b < N; ++b) {
            if(n > 2 && !c.thorough && (mix(a * 7919 + b + c.no) & 3)) continue;
            for(int o = 0; o < 3; ++o) jobs.push_back({o, uint32_t(a), uint32_t(b), 0});
            if(nops > 4) for(size_t d = 0; d < N; ++d) jobs.push_back({4, uint32_t(a), uint32_t(b), uint32_t(d)});
            else for(int k = 0; k < 2; ++k) jobs.push_back({4, uint32_t(a), uint32_t(b), uint32_t(c.rng.below(N))});
        }
    }
    for(size_t i = jobs.size(); i > 1; --i) std::swap(jobs[i - 1], jobs[c.rng.below(i)]);
    for(const J& j : jobs) {
        node_ref z; size_t e = 0;
        switch(j.o) {
            case 0: z = w.m.and_rec(f[j.a], f[j.b]); e = j.a & j.b; break;
            case 1: z = w.m.or_rec(f[j.a], f[j.b]); e = j.a | j.b; break;
            case 2: z = w.m.xor_rec(f[j.a], f[j.b]); e = j.a ^ j.b; break;
            case 3: z = w.m.negate(f[j.a]); e = index_of(~t[j.a]); break;
            default: z = w.m.ite_rec(f[j.a], f[j.b], f[j.c]); e = (j.a & j.b) | (index_of(~t[j.a]) & j.c); break;
        }
        if(!(z == f[e])) {
            op("op %d (0 and,1 or,2 xor,3 not,4 ite) on functions %x %x %x", j.o, j.a, j.b, j.c);
            violation("wrong-function", "n=%d op %d on functions %x %x %x: result is not the diagram of %zx", n, j.o, j.a, j.b, j.c, e);
        }
        nontrivial(mix(mix(j.o * 77 + n) + (u64(j.a) << 40) + (u64(j.b) << 20) + j.c));
    }
    count(n == 2 ? "exhaustive_n2_ops" : "exhaustive_n3_ops", jobs.size());
    for(size_t x = 0; x < N; ++x) REQUIRE(w.tt_of(f[x]) == t[x], "handle-changed", "function %zx changed", x);
}

// many variables: large tables, several storage pages, memo growth
static void big(Case& c)
{
    const int n = c.rng.range(9, c.thorough ? 14 : 12);
    World w(n, c.rng, c.rng.chance(30) ? 2 : 0);
    w.start();
    w.pool_limit = 14;
    const int steps = c.rng.range(12, 30);
    for(int k = 0; k < steps; ++k) {
        if(k < 4 || c.rng.chance(10)) w.do_random_function();
        else if(c.rng.chance(10)) w.do_family();
        else w.boolean_step();
        if(c.rng.chance(4)) { w.drop_many(); w.do_gc(); }
        maximum("nr_nodes", w.m.nr_nodes());
    }
    w.check_pool(false);
}

// large diagrams, against the reference manager
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(4, 10) : c.rng.range(8, 30);
    for(int k = 0; k < steps; ++k) { const int q = c.rng.below(100); if(q < 25 || w.pool.size() < 4) w.do_generate(); else if(q < 32) w.do_literal(); else if(q < 65) w.do_bin(c.rng.below(3)); else if(q < 73) w.do_negate(); else if(q < 87) w.do_ite(); else if(q < 97) w.do_nary(c.rng.below(3)); else { w.drop_some(); w.do_gc(false); } }
    w.check_all();
}
void run_case(Case& c)
{ if(args.mode.rfind("scale", 0) == 0) { scale(c); return; }
    if(args.mode == "hist") hist(c);
    else if(args.mode == "exh2") exhaustive(c, 2);
    else if(args.mode == "exh3") exhaustive(c, 3);
    else if(args.mode == "big") big(c);
    else harness_error("mode");
}
void end_of_chunk() {}
