// C02: canonicity: same function <=> same handle, whatever the construction path; ordered, reduced, no duplicates.
#include "world.h"
#include <functional>
#include "scale.h"
using namespace H;

// After each step: the handle equals the handle built bottom-up for the same function, and equals every pool
// handle with that function and no other.
static void compare_with_pool(World& w)
{
    const World::E e = w.pool.back();
    node_ref ref = w.from_tt(e.t);
    REQUIRE(ref == e.h, "not-canonical", "two constructions of the function %s give different handles", e.t.str().c_str());
    for(size_t k = 0; k < w.pool.size(); ++k) {
        const bool same_f = w.pool[k].t == e.t, same_h = w.pool[k].h == e.h;
        REQUIRE(same_f == same_h, "not-canonical", "handles #%zu and last: functions %s, handles %s", k, same_f ? "equal" : "differ", same_h ? "equal" : "differ");
    }
    count("handle_comparisons", w.pool.size());
}

static void hist(Case& c)
{
    World w(c.rng.range(1, 7), c.rng, c.rng.chance(30) ? 4 : 0);
    w.start();
    w.pool_limit = c.rng.range(10, 50);
    const int steps = c.rng.range(30, 120);
    const int gc = c.rng.chance(60) ? c.rng.range(1, 15) : 0;
    for(int k = 0; k < steps; ++k) {
        w.boolean_step();
        compare_with_pool(w);
        if(gc && c.rng.chance(gc)) { if(c.rng.chance(70)) w.drop_many(); w.do_gc(); w.check_pool(true); }
    }
    w.check_pool(true);
}

// Tautologies relating different operations: both sides must be one handle (large functions, no truth tables needed)
static void laws(Case& c)
{
    const int n = c.rng.range(8, c.thorough ? 15 : 13);
    World w(n, c.rng, c.rng.chance(30) ? 2 : 0);
    bdd_mgr& m = w.m;
    auto rnd = [&](int k) {
        // random combination of k literals
        node_ref f = m.projection(w.vmap[c.rng.below(n)]);
        for(int i = 0; i < k; ++i) {
            node_ref v = m.projection(w.vmap[c.rng.below(n)]);
            if(c.rng.chance(40)) v = m.negate(v);
            switch(c.rng.below(4)) { case 0: f = m.and_rec(f, v); break; case 1: f = m.or_rec(f, v); break; case 2: f = m.xor_rec(f, v); break; default: f = m.ite_rec(v, f, m.negate(f)); }
        }
        return f;
    };
    const int rounds = c.rng.range(2, 6);
    for(int q = 0; q < rounds; ++q) {
        const bool dense = c.rng.chance(50);
        node_ref a = dense ? w.from_tt(TT::random(n, c.rng)) : rnd(c.rng.range(5, 60)), b = dense ? w.from_tt(TT::random(n, c.rng)) : rnd(c.rng.range(5, 60)), d = rnd(c.rng.range(5, 40));
        op("laws on functions with %zu %zu %zu nodes, shapes %llx %llx %llx", a.nr_nodes(), b.nr_nodes(), d.nr_nodes(), (unsigned long long)shape(a), (unsigned long long)shape(b), (unsigned long long)shape(d));
        maximum("nodes_of_operand", a.nr_nodes());
        struct L { const char* nm; std::function<node_ref()> l, r; };
        std::vector<L> laws = {
            {"a&b = !(!a|!b)", [&] { return m.and_rec(a, b); }, [&] { return m.negate(m.or_rec(m.negate(a), m.negate(b))); }},
            {"a^b = (a|b)&!(a&b)", [&] { return m.xor_rec(a, b); }, [&] { return m.and_rec(m.or_rec(a, b), m.negate(m.and_rec(a, b))); }},
            {"ite(a,b,d) = ab|!ad", [&] { return m.ite_rec(a, b, d); }, [&] { return m.or_rec(m.and_rec(a, b), m.and_rec(m.negate(a), d)); }},
            {"ite(a,b,d) = !ite(a,!b,!d)", [&] { return m.ite_rec(a, b, d); }, [&] { return m.negate(m.ite_rec(a, m.negate(b), m.negate(d))); }},
            {"a&(b|d) = ab|ad", [&] { return m.and_rec(a, m.or_rec(b, d)); }, [&] { return m.or_rec(m.and_rec(a, b), m.and_rec(a, d)); }},
            {"a^(b^d) = (a^b)^d", [&] { return m.xor_rec(a, m.xor_rec(b, d)); }, [&] { return m.xor_rec(m.xor_rec(a, b), d); }},
            {"a^1 = !a", [&] { return m.xor_rec(a, m.topsink()); }, [&] { return m.negate(a); }},
            {"!!a = a", [&] { return m.negate(m.negate(a)); }, [&] { return a; }},
            {"a&!a = 0", [&] { return m.and_rec(a, m.negate(a)); }, [&] { return m.botsink(); }},
            {"a|!a = 1", [&] { return m.or_rec(a, m.negate(a)); }, [&] { return m.topsink(); }},
            {"a&b = b&a", [&] { return m.and_rec(a, b); }, [&] { return m.and_rec(b, a); }},
            {"ite(a,!b,b) = a^b", [&] { return m.ite_rec(a, m.negate(b), b); }, [&] { return m.xor_rec(a, b); }},
        };
        for(size_t i = laws.size(); i > 1; --i) std::swap(laws[i - 1], laws[c.rng.below(i)]);
        for(auto& l : laws) {
            const bool swap = c.rng.chance(50);
            node_ref x = swap ? l.r() : l.l(); 
            if(c.rng.chance(10)) { m.collect_garbage(); count("collect_garbage"); }
            node_ref y = swap ? l.l() : l.r();
            op("law %s", l.nm);
            REQUIRE(x == y, "not-canonical", "law %s: both sides denote one function but are different handles", l.nm);
            count("laws");
            nontrivial(mix(hist_id));
        }
        maximum("nr_nodes", m.nr_nodes());
    }
    // structural uniqueness over everything reachable from a few handles
    node_ref z = m.and_rec(rnd(60), rnd(60));
    std::map<std::array<size_t, 3>, node*> seen;
    for(auto& x : z.nodes_postorder()) {
        std::array<size_t, 3> k = {x.variable(), size_t(x.low().address()), size_t(x.high().address())};
        REQUIRE(seen.emplace(k, x.address()).second, "duplicate-node", "two nodes with equal variable and successors");
    }
}

// one variable with very many nodes: the table behind find-or-create goes through its growth steps and every
// node must be found again, also after deletions
static void wide(Case& c)
{
    bdd_mgr m;
    const int L = 14;
    for(int i = 0; i < L; ++i) m.add_variable();
    // base functions on variables 3..13
    std::vector<node_ref> base = {m.botsink(), m.topsink()};
    const size_t want = c.thorough ? c.rng.range(100, 500) : c.rng.range(60, 260);
    for(int v = L - 1; v >= 3 && base.size() < want; --v) {
        std::vector<node_ref> nx = base;
        const size_t s = base.size();
        for(size_t i = 0; i < s * s && nx.size() < want; ++i) { size_t a = c.rng.below(s), b = c.rng.below(s); if(a != b) { node_ref x = m.unique_find(v, base[a], base[b]); if(std::find(nx.begin(), nx.end(), x) == nx.end()) nx.push_back(x); } }
        base = nx;
    }
    const size_t B = base.size();
    op("wide: %zu base functions, pairs on variable 1", B);
    std::vector<std::pair<uint32_t, uint32_t>> pairs;
    for(uint32_t a = 0; a < B; ++a) for(uint32_t b = 0; b < B; ++b) if(a != b) pairs.push_back({a, b});
    for(size_t i = pairs.size(); i > 1; --i) std::swap(pairs[i - 1], pairs[c.rng.below(i)]);
    std::unordered_map<node*, size_t> owner;
    std::vector<node_ref> h;
    for(size_t i = 0; i < pairs.size(); ++i) {
        node_ref x = m.unique_find(1, base[pairs[i].first], base[pairs[i].second]);
        REQUIRE(x.variable() == 1 && x.low() == base[pairs[i].first] && x.high() == base[pairs[i].second], "wrong-node", "node for pair %zu has other successors", i);
        auto [it, fresh] = owner.emplace(x.address(), i);
        REQUIRE(fresh, "shared-node", "one node represents two different functions (pairs %zu and %zu)", it->second, i);
        h.push_back(x);
        if(c.rng.chance(10)) { const size_t k = c.rng.below(i + 1); REQUIRE(m.unique_find(1, base[pairs[k].first], base[pairs[k].second]) == h[k], "not-canonical", "pair %zu asked again (after %zu) gives another node", k, i); count("refinds"); }
    }
    for(size_t k = 0; k < h.size(); ++k) REQUIRE(m.unique_find(1, base[pairs[k].first], base[pairs[k].second]) == h[k], "not-canonical", "pair %zu asked again at the end gives another node", k);
    count("wide_nodes", h.size()); count("refinds", h.size());
    // deletions in several rounds, then the survivors must still be found, the others re-created once
    std::vector<char> alive(h.size(), 1);
    const int rounds = c.rng.range(1, 4);
    for(int q = 0; q < rounds; ++q) {
        const int keep = c.rng.range(0, 100);
        for(size_t k = 0; k < h.size(); ++k) if(alive[k] && !c.rng.chance(keep)) { note(k); h[k] = node_ref(); alive[k] = 0; }
        op("drop, keep %d%%, collect_garbage", keep);
        m.collect_garbage(); count("collect_garbage");
        size_t live = 0;
        for(size_t k = 0; k < h.size(); ++k) if(alive[k]) { ++live; REQUIRE(m.unique_find(1, base[pairs[k].first], base[pairs[k].second]) == h[k], "not-canonical", "surviving node for pair %zu is not found after garbage collection", k); }
        for(size_t k = 0; k < h.size(); ++k) if(!alive[k] && c.rng.chance(60)) {
            h[k] = m.unique_find(1, base[pairs[k].first], base[pairs[k].second]); alive[k] = 1;
            REQUIRE(h[k] == m.unique_find(1, base[pairs[k].first], base[pairs[k].second]), "not-canonical", "re-created node for pair %zu is not found", k);
        }
        owner.clear();
        for(size_t k = 0; k < h.size(); ++k) if(alive[k]) REQUIRE(owner.emplace(h[k].address(), k).second, "shared-node", "one node represents two functions after garbage collection");
        count("survivors_found", live);
        nontrivial(mix(hist_id));
    }
    maximum("nr_nodes", m.nr_nodes());
}

// large diagrams, against the reference manager: one node per function among everything alive, and rebuilt functions found again
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(3, 8) : c.rng.range(8, 25);
    for(int k = 0; k < steps; ++k) {
        w.step();
        const size_t a = w.pick(); const auto A = w.pool[a];
        REQUIRE(w.build(A.f) == A.h, "not-canonical", "function of handle #%zu (%zu nodes) built again bottom up gives another handle", a, w.R.size(A.f));
        const size_t b = w.pick(); REQUIRE((w.pool[b].h == A.h) == (w.pool[b].f == A.f), "not-canonical", "equality of two handles does not agree with equality of their functions");
        if(c.rng.chance(40) && w.R.size(A.f) < w.target) { // another way to the same function: Shannon expansion by a variable
            auto s = w.R.support(A.f); if(s.empty()) continue; const size_t v = s[c.rng.below(s.size())];
            std::unordered_map<id, id> lo, hi; lo[0] = hi[0] = 0; lo[1] = hi[1] = 1;
            for(id x : w.R.postorder(A.f)) { const auto y = w.R.n[x]; if(y.var == v) { lo[x] = y.lo; hi[x] = y.hi; } else { lo[x] = y.var > v ? x : w.R.mk(y.var, lo[y.lo], lo[y.hi]); hi[x] = y.var > v ? x : w.R.mk(y.var, hi[y.lo], hi[y.hi]); } }
            REQUIRE(w.m.ite_rec(w.m.projection(v), w.build(hi[A.f]), w.build(lo[A.f])) == A.h, "not-canonical", "recombining the two restrictions of a function by variable %zu gives another handle", v); count("recombined");
        }
    }
    w.check_all();
}
void run_case(Case& c)
{ if(args.mode.rfind("scale", 0) == 0) { scale(c); return; }
    if(args.mode == "hist") hist(c);
    else if(args.mode == "laws") laws(c);
    else if(args.mode == "wide") wide(c);
    else harness_error("mode");
}
void end_of_chunk() {}
