// C21: the table of one variable grows to about a million nodes, shrinks again, and fails cleanly when it is full.
#include "world.h"
using namespace H;

// k distinct functions over variables 1..: minterm chains, different from each other and from constants
static std::vector<node_ref> children(bdd_mgr& m, size_t k, Rng& r, size_t first_var)
{
    std::vector<node_ref> v; std::unordered_set<node*> s;
    size_t bits = 1; while((size_t(1) << bits) < k) ++bits;
    m.projection(first_var + bits);
    const u64 salt = r.next(); note(salt & ((u64(1) << bits) - 1)); note(k);
    for(size_t i = 0; i < k; ++i) {
        node_ref f = m.topsink();
        for(size_t b = bits; b-- > 0;) f = ((i ^ salt) >> b) & 1 ? m.unique_find(first_var + b, m.botsink(), f) : m.unique_find(first_var + b, f, m.botsink());
        REQUIRE(s.insert(f.address()).second, "duplicate", "two different functions share a node");
        v.push_back(f);
    }
    m.collect_garbage(); // the projection above
    return v;
}
struct Pairs { size_t k; size_t i = 0, j = 0; std::pair<size_t, size_t> next() { for(;;) { if(++j >= k) { j = 0; ++i; } if(i != j) return {i, j}; } } };

// the tables move to another place whenever the manager takes more variables
static void more_variables(bdd_mgr& m, Rng& r)
{
    const size_t n = m.nr_variables(), k = r.chance(30) ? n + 1 : r.range(1, 40);
    for(size_t i = 0; i < k; ++i) m.add_variable();
    REQUIRE(m.nr_variables() == n + k, "wrong-count", "%zu variables instead of %zu", m.nr_variables(), n + k); count("variables_added", k);
}
// one variable, filled with every (0-successor, 1-successor) pair until N nodes exist
static void grow(Case& c)
{
    const size_t N = args.mode == "grow-small" ? c.rng.range(1, 6000) : c.rng.range(20000, 300000);
    bdd_mgr m;
    size_t k = 2; while(k * (k - 1) < N + 8) ++k;
    auto ch = children(m, k, c.rng, 3);
    const int vars = c.rng.range(1, 3);
    std::vector<std::unordered_map<u64, node_ref>> have(vars); // per variable 0..2
    const size_t base = m.nr_nodes();
    op("%d variables, up to %zu nodes each, %zu children", vars, N, k);
    size_t total = 0; const int cycles = args.mode == "grow-small" ? c.rng.range(1, 5) : c.rng.range(1, 3);
    for(int cy = 0; cy < cycles; ++cy) {
        for(int v = 0; v < vars; ++v) {
            Pairs p{k, c.rng.below(k / 2), 0};
            const size_t want = cy == 0 || c.rng.chance(50) ? N : c.rng.below(N + 1);
            for(size_t q = 0; q < want; ++q) {
                auto [i, j] = p.next(); if(i >= k) break;
                if(m.nr_variables() < 2000 && c.rng.below(want) < 2) more_variables(m, c.rng);
                auto it = have[v].find(i * k + j);
                const size_t b = m.nr_nodes();
                node_ref z = m.unique_find(v, ch[i], ch[j]);
                REQUIRE(z.variable() == size_t(v) && z.low() == ch[i] && z.high() == ch[j], "wrong-node", "a node of variable %d does not have the successors asked for", v);
                if(it != have[v].end()) { REQUIRE(it->second == z && m.nr_nodes() == b, "duplicate", "a node of variable %d was made twice", v); }
                else { REQUIRE(m.nr_nodes() == b + 1, "wrong-count", "a new node changed the count from %zu to %zu", b, m.nr_nodes()); have[v].emplace(i * k + j, z); note(i * k + j); ++total; }
            }
            maximum("nodes_of_one_variable", have[v].size()); count("nodes_made", have[v].size());
        }
        // everything is found again
        std::unordered_set<node*> distinct_nodes;
        for(int v = 0; v < vars; ++v) for(auto& [key, z] : have[v]) {
            if(have[v].size() < 20000 || c.rng.chance(20)) { REQUIRE(m.unique_find(v, ch[key / k], ch[key % k]) == z, "duplicate", "a node of variable %d is not found any more", v); count("lookups"); }
            REQUIRE(distinct_nodes.insert(z.address()).second, "shared", "two functions share a node");
        }
        REQUIRE(m.nr_nodes() == base + total, "wrong-count", "%zu nodes instead of %zu", m.nr_nodes(), base + total);
        // drop some of them
        for(int v = 0; v < vars; ++v) {
            const int keep = c.rng.chance(30) ? 0 : c.rng.chance(30) ? 3 : c.rng.range(0, 100);
            for(auto it = have[v].begin(); it != have[v].end();) if(!c.rng.chance(keep)) { it = have[v].erase(it); --total; } else ++it;
        }
        if(c.rng.chance(80)) {
            m.collect_garbage(); count("collections");
            size_t inner = 0; { std::unordered_set<node*> s; for(auto& f : ch) for(auto& x : f.nodes_postorder()) s.insert(x.address()); inner = s.size(); }
            REQUIRE(m.nr_nodes() == total + inner + 2, "wrong-count", "%zu nodes after collecting, expected %zu", m.nr_nodes(), total + inner + 2);
            for(int v = 0; v < vars; ++v) for(auto& [key, z] : have[v]) if(have[v].size() < 20000 || c.rng.chance(20)) { REQUIRE(m.unique_find(v, ch[key / k], ch[key % k]) == z, "duplicate", "a node of variable %d is not found after collecting", v); count("lookups"); }
            REQUIRE(m.nr_nodes() == total + inner + 2, "wrong-count", "looking up nodes after collecting changed the count");
        } else { total = m.nr_nodes() - base; for(int v = 0; v < vars; ++v) have[v].clear(); m.collect_garbage(); total = 0; }
        nontrivial(mix(hist_id));
    }
}
// fill the table of one variable until it refuses; then everything else must still work
static void full(Case& c)
{
    bdd_mgr m;
    const size_t k = 1060; // 1060 * 1059 pairs > 2^20
    const size_t top_var = c.rng.range(1, 3); // the variable that fills up
    auto ch = children(m, k, c.rng, top_var + 1);
    const size_t base = m.nr_nodes();
    std::vector<node_ref> h; h.reserve(1100000); std::vector<std::pair<unsigned, unsigned>> key; key.reserve(1100000);
    Pairs p{k}; bool threw = false; std::pair<size_t, size_t> at{0, 0};
    op("filling variable %zu", top_var);
    while(!threw) {
        auto [i, j] = p.next();
        if(i >= k) break;
        try { h.push_back(m.unique_find(top_var, ch[i], ch[j])); key.push_back({unsigned(i), unsigned(j)}); }
        catch(const std::runtime_error&) { threw = true; at = {i, j}; }
    }
    maximum("nodes_of_one_variable", h.size());
    REQUIRE(threw, "no-error", "%zu nodes of one variable were made without an error", h.size());
    REQUIRE(h.size() >= (size_t(1) << 19), "too-early", "the table was full after %zu nodes", h.size());
    REQUIRE(h.size() <= (size_t(1) << 20), "too-late", "the table of at most 2^20 slots took %zu nodes", h.size());
    REQUIRE(m.nr_nodes() == base + h.size(), "wrong-count", "%zu nodes instead of %zu after the error", m.nr_nodes(), base + h.size());
    count("capacity_errors");
    auto expect_throw = [&](const char* what, auto f) { bool t = false; try { f(); } catch(const std::runtime_error&) { t = true; } REQUIRE(t, "no-error", "%s on a full table did not report an error", what); count("capacity_errors"); };
    expect_throw("asking again", [&] { m.unique_find(top_var, ch[at.first], ch[at.second]); });
    if(c.rng.chance(70)) { more_variables(m, c.rng); expect_throw("asking after adding variables", [&] { m.unique_find(top_var, ch[at.first], ch[at.second]); }); }
    // present nodes are still found, and other variables still work
    for(int q = 0; q < 300; ++q) { const size_t x = c.rng.below(h.size()); REQUIRE(m.unique_find(top_var, ch[key[x].first], ch[key[x].second]) == h[x], "duplicate", "a node is not found in the full table"); count("lookups"); }
    { const size_t b = m.nr_nodes(); node_ref z = m.unique_find(0, h[5], h[77]); REQUIRE(m.nr_nodes() == b + 1 && z.low() == h[5] && z.high() == h[77], "other-variable", "another variable does not work after the error"); }
    // operations that need a new node on the full variable fail; nothing they made on the way stays
    {
        node_ref f = h[c.rng.below(h.size())], g = h[c.rng.below(h.size())];
        int errors = 0;
        for(int q = 0; q < 6; ++q) { f = h[c.rng.below(h.size())]; g = h[c.rng.below(h.size())]; try { switch(q % 5) { case 0: m.xor_rec(f, g); break; case 1: m.or_rec(f, g); break; case 2: m.negate(f); break; case 3: m.ite_rec(f, m.negate(g), g); break; default: m.or_rec(m.projection(0), g & f); break; } } catch(const std::runtime_error&) { ++errors; } }
        REQUIRE(errors > 0, "no-error", "no operation on a full table reported an error"); count("failed_operations", errors);
    }
    m.collect_garbage();
    size_t inner; { std::unordered_set<node*> s; for(auto& f : ch) for(auto& x : f.nodes_postorder()) s.insert(x.address()); inner = s.size(); }
    REQUIRE(m.nr_nodes() == h.size() + inner + 2, "wrong-count", "%zu nodes after failed operations and a collection, expected %zu", m.nr_nodes(), h.size() + inner + 2);
    // room again after dropping
    const size_t drop = c.rng.chance(50) ? h.size() / 2 : h.size() - 1000;
    h.resize(h.size() - drop); key.resize(h.size());
    m.collect_garbage();
    REQUIRE(m.nr_nodes() == h.size() + inner + 2, "wrong-count", "%zu nodes after dropping, expected %zu", m.nr_nodes(), h.size() + inner + 2);
    { node_ref z = m.unique_find(top_var, ch[at.first], ch[at.second]); REQUIRE(z.low() == ch[at.first] && z.high() == ch[at.second], "wrong-node", "the table does not take new nodes after the collection"); }
    for(size_t x = 0; x < h.size(); x += 1 + h.size() / 20000) { REQUIRE(m.unique_find(top_var, ch[key[x].first], ch[key[x].second]) == h[x], "duplicate", "a node is not found after the collection"); count("lookups"); }
    { node_ref f = h[1], g = h[2]; node_ref z = m.xor_rec(f, g); REQUIRE(m.xor_rec(z, g) == f, "operation", "operations are wrong after the error"); }
    nontrivial(mix(hist_id));
}
// tables of all sizes in use at once, with the pages passed on between variables
static void many(Case& c)
{
    bdd_mgr m;
    const int V = c.rng.range(4, 16);
    const size_t k = 90;
    auto ch = children(m, k, c.rng, V);
    const size_t base = m.nr_nodes();
    std::vector<std::unordered_map<u64, node_ref>> have(V);
    const int rounds = c.rng.range(3, 8);
    size_t inner; { std::unordered_set<node*> s; for(auto& f : ch) for(auto& x : f.nodes_postorder()) s.insert(x.address()); inner = s.size(); }
    for(int q = 0; q < rounds; ++q) {
        for(int v = 0; v < V; ++v) {
            const size_t want = c.rng.chance(30) ? 0 : (size_t(1) << c.rng.range(0, 12));
            for(size_t x = 0; x < want; ++x) {
                const size_t i = c.rng.below(k); size_t j = c.rng.below(k); if(i == j) continue;
                if(m.nr_variables() < 2000 && c.rng.below(want) < 1) more_variables(m, c.rng);
                const size_t b = m.nr_nodes(); node_ref z = m.unique_find(v, ch[i], ch[j]);
                auto it = have[v].find(i * k + j);
                REQUIRE(z.variable() == size_t(v) && z.low() == ch[i] && z.high() == ch[j], "wrong-node", "a node does not have the successors asked for");
                if(it == have[v].end()) { REQUIRE(m.nr_nodes() == b + 1, "duplicate", "a new node changed the count from %zu to %zu", b, m.nr_nodes()); have[v].emplace(i * k + j, z); note(i * k + j); } else REQUIRE(it->second == z && m.nr_nodes() == b, "duplicate", "a node of variable %d was made twice", v);
                count("nodes_made");
            }
            if(c.rng.chance(40)) have[v].clear();
            else if(c.rng.chance(50)) { const int keep = c.rng.range(0, 30); for(auto it = have[v].begin(); it != have[v].end();) if(!c.rng.chance(keep)) it = have[v].erase(it); else ++it; }
        }
        m.collect_garbage(); count("collections");
        size_t total = 0; for(auto& x : have) total += x.size();
        REQUIRE(m.nr_nodes() == total + inner + 2, "wrong-count", "%zu nodes after collecting, expected %zu", m.nr_nodes(), total + inner + 2);
        for(int v = 0; v < V; ++v) for(auto& [key, z] : have[v]) { REQUIRE(m.unique_find(v, ch[key / k], ch[key % k]) == z, "duplicate", "a node of variable %d is not found after collecting", v); count("lookups"); }
        op("round %d: %zu nodes in %d tables", q, total, V); nontrivial(mix(hist_id));
    }
    (void)base;
}
void run_case(Case& c) { if(args.mode == "full") full(c); else if(args.mode == "many") many(c); else grow(c); }
void end_of_chunk() {}
