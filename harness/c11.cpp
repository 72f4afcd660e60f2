// C11: variables may be added at any time, and far apart, without disturbing anything.
#include "world.h"
#include "scale.h"
using namespace H;

static void hist(Case& c)
{
    const int gap = c.rng.chance(25) ? 3000 : c.rng.chance(50) ? 60 : 3;
    World w(c.rng.range(2, 7), c.rng, gap);
    w.start();
    w.pool_limit = c.rng.range(10, 40);
    size_t nv = 0;
    REQUIRE(w.m.nr_variables() == 0, "wrong-count", "a fresh manager has %zu variables", w.m.nr_variables());
    const int steps = c.rng.range(20, 80);
    // variables become usable one after another; at first only few exist
    int usable = 1;
    for(int k = 0; k < steps; ++k) {
        const size_t before = w.m.nr_variables();
        const int q = c.rng.below(10);
        if(q == 0) {
            op("add_variable"); 
            const size_t v = w.m.add_variable();
            REQUIRE(v == before && w.m.nr_variables() == before + 1, "wrong-index", "add_variable returned %zu with %zu variables", v, before);
            count("add_variable");
        } else if(q == 1 && usable < w.n) {
            op("projection(%zu) grows from %zu variables", w.vmap[usable], before);
            node_ref z = w.m.projection(w.vmap[usable]);
            REQUIRE(w.m.nr_variables() == std::max(before, w.vmap[usable] + 1), "wrong-count", "%zu variables after projecting variable %zu (before: %zu)", w.m.nr_variables(), w.vmap[usable], before);
            w.put("projection", z, TT::var(w.n, usable));
            ++usable; count("growing_projection");
            w.check_pool(true);
        } else if(q == 2) {
            const int i = c.rng.below(usable); w.need_var(w.vmap[i]);
            op("projection(%zu) existing", w.vmap[i]);
            const size_t b2 = w.m.nr_variables();
            w.put("projection", w.m.projection(w.vmap[i]), TT::var(w.n, i));
            w.put("neg_projection", w.m.neg_projection(w.vmap[i]), ~TT::var(w.n, i));
            REQUIRE(w.m.nr_variables() == b2, "wrong-count", "projecting an existing variable changed the number of variables");
        } else if(w.pool.size() >= 4) {
            const int o = c.rng.below(4);
            if(o == 0) w.do_ite(w.pick(), w.pick(), w.pick()); else if(o == 1) w.do_negate(w.pick()); else w.do_bin(c.rng.below(3), w.pick(), w.pick());
            REQUIRE(w.m.nr_variables() == before, "wrong-count", "an operation changed the number of variables from %zu to %zu", before, w.m.nr_variables());
        } else { const int i = c.rng.below(usable); w.put("projection", w.m.projection(w.vmap[i]), TT::var(w.n, i)); }
        REQUIRE(w.m.nr_variables() >= nv, "wrong-count", "number of variables fell"); nv = w.m.nr_variables();
        if(c.rng.chance(6)) { w.drop_many(); w.do_gc(); REQUIRE(w.m.nr_variables() == nv, "wrong-count", "collection changed the number of variables"); }
    }
    w.check_pool(true);
    maximum("variables", w.m.nr_variables());
}
// very many variables: all literals distinct, functions over far-apart variables right
static void many(Case& c)
{
    bdd_mgr m;
    const size_t N = c.rng.chance(30) ? 17000 + c.rng.below(c.thorough ? 60000 : 8000) : 100 + c.rng.below(5000);
    std::vector<node_ref> early; 
    const size_t E = 2 + c.rng.below(20);
    for(size_t i = 0; i < E; ++i) early.push_back(m.projection(i));
    node_ref f = m.simplex(early.begin(), early.end());
    const size_t fn = f.nr_nodes();
    if(c.rng.chance(50)) m.projection(N - 1); else while(m.nr_variables() < N) { const size_t v = m.nr_variables(); REQUIRE(m.add_variable() == v, "wrong-index", "add_variable"); }
    REQUIRE(m.nr_variables() == N, "wrong-count", "%zu variables instead of %zu", m.nr_variables(), N);
    op("%zu variables; simplex over the first %zu built before", N, E);
    REQUIRE(m.simplex(early.begin(), early.end()) == f && f.nr_nodes() == fn, "not-canonical", "function built before the growth is not found after it");
    std::vector<size_t> vs; for(int i = 0; i < 12; ++i) vs.push_back(c.rng.below(N)); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    std::vector<node_ref> p; for(size_t v : vs) { p.push_back(m.projection(v)); REQUIRE(p.back().variable() == v && p.back().low().is_botsink() && p.back().high().is_topsink(), "wrong-function", "projection of variable %zu", v); node_ref q = m.neg_projection(v); REQUIRE(q.low().is_topsink() && q.high().is_botsink() && q.variable() == v && m.negate(p.back()) == q, "wrong-function", "negated projection of variable %zu", v); }
    node_ref x = p[0]; for(size_t i = 1; i < p.size(); ++i) x = m.xor_rec(x, p[i]);
    node_ref y = p.size() > 1 ? m.at_least(p.begin(), p.end(), 2) : m.botsink();
    std::vector<char> l(N);
    for(int k = 0; k < 40; ++k) { for(auto& b : l) b = c.rng.chance(50); int s = 0; for(size_t v : vs) s += l[v]; if(k < 3) { for(auto& b : l) b = k == 0; s = k == 0 ? vs.size() : 0; }
        REQUIRE(x.evaluate(l.begin(), l.end()) == (s & 1) && y.evaluate(l.begin(), l.end()) == (s >= 2), "wrong-function", "function over far-apart variables"); }
    if(c.rng.chance(30)) { m.collect_garbage(); REQUIRE(m.simplex(early.begin(), early.end()) == f, "not-canonical", "function is not found after collection"); }
    for(auto& b : vs) note(b);
    count("many"); maximum("variables", N); nontrivial(mix(hist_id));
}
// more variables than fit into 16 or 20 bits
static void million(Case& c)
{
    bdd_mgr m; const size_t N = (size_t(1) << 20) - 2 + c.rng.below(c.thorough ? 900000 : 40000);
    std::vector<size_t> vs{0, 1, 255, 256, 65535, 65536, (size_t(1) << 20) - 4, N}; for(int k = 0; k < 20; ++k) vs.push_back(c.rng.below(N)); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    std::vector<node_ref> early; for(size_t i = 0; i < 5; ++i) early.push_back(m.projection(i)); node_ref f = m.simplex(early.begin(), early.end());
    op("projection of variable %zu", N);
    node_ref top = m.projection(N); REQUIRE(m.nr_variables() == N + 1, "wrong-count", "%zu variables after projecting variable %zu", m.nr_variables(), N);
    REQUIRE(!top.is_terminal() && top.variable() == N && top.low().is_botsink() && top.high().is_topsink(), "wrong-function", "projection of variable %zu branches on %zu", N, size_t(top.variable()));
    REQUIRE(m.simplex(early.begin(), early.end()) == f, "not-canonical", "function built before the growth is not found after it");
    std::vector<node_ref> p; for(size_t v : vs) { p.push_back(m.projection(v)); node_ref q = m.neg_projection(v); REQUIRE(p.back().variable() == v && q.variable() == v && m.negate(p.back()) == q, "wrong-function", "projection of variable %zu branches on %zu", v, size_t(p.back().variable())); note(v); }
    node_ref x = m.xor_rec(p.begin(), p.end()), y = m.at_least(p.begin(), p.end(), 3); REQUIRE(x.variables() == vs && y.variables() == vs, "wrong-variables", "variables of a function");
    std::vector<char> l(N + 1, 0);
    for(int k = 0; k < 40; ++k) { size_t s = 0; const int pr = k % 3 == 0 ? 10 : 50; for(size_t v : vs) { l[v] = c.rng.chance(pr); s += l[v]; } REQUIRE(x.evaluate(l.begin(), l.end()) == (s & 1) && y.evaluate(l.begin(), l.end()) == (s >= 3), "wrong-function", "function over far-apart variables"); }
    bdd_collection col; const size_t k = col.add_bdd(y); REQUIRE(col.variables(k) == vs && m.add_bdd(col, k) == y && col.export_bdd(m, k) == y, "wrong-function", "stored diagram");
    std::unordered_map<size_t, size_t> mp; for(size_t i = 0; i < vs.size(); ++i) mp[vs[i]] = i; node_ref z = m.rebase(y, mp); std::unordered_map<size_t, size_t> back; for(size_t i = 0; i < vs.size(); ++i) back[i] = vs[i]; REQUIRE(m.rebase(z, back) == y, "wrong-function", "renaming there and back");
    m.collect_garbage(); REQUIRE(m.simplex(early.begin(), early.end()) == f && m.projection(N) == top, "not-canonical", "function is not found after collection");
    count("million"); maximum("variables", N + 1); nontrivial(mix(hist_id));
}
// variables that come into existence through renaming and import, and big diagrams over far-apart variables
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(3, 6) : c.rng.range(6, 20);
    size_t nv = 0;
    for(int k = 0; k < steps; ++k) {
        switch(c.rng.below(5)) {
            case 0: w.do_rebase(); break;
            case 1: { // import of a stored diagram over variables that do not exist yet
                const id f = w.generate(); auto mp = w.increasing(f, true); if(f < 2) break; const id g = w.R.rename(f, mp);
                bdd_mgr m2; node_ref x; { std::unordered_map<id, node_ref> h; h.emplace(0, m2.botsink()); h.emplace(1, m2.topsink()); for(size_t v = 0; v <= mp.rbegin()->second; ++v) m2.add_variable(); for(id y : w.R.postorder(g)) { const auto z = w.R.n[y]; h.emplace(y, m2.unique_find(z.var, h.at(z.lo), h.at(z.hi))); } x = h.at(g); }
                bdd_collection col; const size_t k2 = col.add_bdd(x); const size_t want = std::max(w.m.nr_variables(), mp.rbegin()->second + 1);
                op("import over variables up to %zu, %zu exist", mp.rbegin()->second, w.m.nr_variables()); if(want > w.m.nr_variables()) count("variables_created");
                node_ref h = w.m.add_bdd(col, k2); REQUIRE(w.m.nr_variables() == want, "wrong-count", "%zu variables after importing a diagram over variables up to %zu", w.m.nr_variables(), mp.rbegin()->second);
                w.put("import", h, g); count("imports"); break; }
            case 2: { const size_t n0 = w.m.nr_variables(); const size_t v = n0 + c.rng.below(c.rng.chance(20) ? 20000 : 100); op("projection(%zu) of %zu", v, n0); if(v >= w.lab.size()) w.lab.resize(v + 1, 0); w.put("projection", w.m.projection(v), w.R.var(v)); REQUIRE(w.m.nr_variables() == v + 1, "wrong-count", "%zu variables after projecting variable %zu", w.m.nr_variables(), v); count("growing_projection"); break; }
            case 3: { const size_t n0 = w.m.nr_variables(); REQUIRE(w.m.add_variable() == n0 && w.m.nr_variables() == n0 + 1, "wrong-index", "add_variable"); break; }
            default: w.do_generate(); { const size_t n0 = w.m.nr_variables(); w.do_negate(); w.do_bin(c.rng.below(3)); w.do_limited(); if(w.m.nr_variables() != n0) {} } break;
        }
        REQUIRE(w.m.nr_variables() >= nv, "wrong-count", "number of variables fell"); nv = w.m.nr_variables();
        if(c.rng.chance(20)) { w.drop_some(); w.do_gc(false); REQUIRE(w.m.nr_variables() == nv, "wrong-count", "collection changed the number of variables"); }
    }
    w.check_all(); maximum("variables", nv);
}
void run_case(Case& c) { if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } if(args.mode == "million") million(c); else if(args.mode == "many") many(c); else hist(c); }
void end_of_chunk() {}
