// C15: conjunction of two or many diagrams in a collection, with and without node limit.
#include "coll.h"
#include "scale.h"
#include "wide.h"
using namespace H;

static const size_t NONE = std::numeric_limits<size_t>::max();

static void limited(CollWorld& w, const std::vector<size_t>& idx, size_t limit, bool use_list)
{
    TT u(w.n, true); for(size_t i : idx) u = u & w.t[i];
    const size_t nodes = RefBdd(u).nodes + 2;
    auto before = w.snapshot();
    std::string s; for(size_t i : idx) s += std::to_string(i) + " ";
    op("and(%s) limit %zu; the conjunction has %zu nodes", s.c_str(), limit, nodes);
    const size_t k = and_call(w.col, idx, limit, w.r, use_list);
    if(idx.size() == 1) { REQUIRE(k == idx[0] && w.col.nr_bdds() == w.t.size(), "wrong-index", "conjunction of one entry %zu is %zu", idx[0], k); count("single"); return; }
    if(nodes > limit) {
        REQUIRE(k == NONE, "limit-ignored", "conjunction of %zu nodes was built in spite of limit %zu", nodes, limit);
        REQUIRE(w.snapshot() == before, "changed", "a refused conjunction changed the collection");
        count("refused");
    } else {
        REQUIRE(k != NONE, "refused", "conjunction of %zu nodes was refused with limit %zu", nodes, limit);
        w.record("bdd_and", k, u);
        auto after = w.snapshot(); after.pop_back();
        REQUIRE(after == before, "changed", "a conjunction changed other entries");
        count("granted");
    }
    count(idx.size() == 2 ? "two" : idx.size() < 8 ? "few" : "many");
    if(nodes == limit) count("limit_exact"); if(nodes == limit + 1) count("limit_one_short");
    nontrivial(mix(u.hash() ^ mix(limit) ^ idx.size()));
}
static void hist(Case& c)
{
    const bool large = args.mode == "big";
    CollWorld w(large ? c.rng.range(8, 11) : c.rng.range(1, 7), c.rng, c.rng.chance(30) ? 6 : 0);
    w.w.start(); w.limit = large ? 12 : 40;
    w.ensure(3);
    const int steps = large ? c.rng.range(4, 10) : c.rng.range(15, 60);
    for(int k = 0; k < steps; ++k) {
        if(w.t.size() > w.limit) { w.do_remove(); }
        w.ensure(3);
        if(c.rng.chance(50)) w.do_add(); else if(c.rng.chance(20)) w.do_or_var();
        const size_t m = c.rng.chance(50) ? 2 : c.rng.chance(5) ? 1 : c.rng.chance(75) ? 3 + c.rng.below(5) : 8 + c.rng.below(42);
        std::vector<size_t> idx; for(size_t i = 0; i < m; ++i) idx.push_back(c.rng.below(w.t.size()));
        TT u(w.n, true); for(size_t i : idx) u = u & w.t[i];
        const size_t nodes = RefBdd(u).nodes + 2;
        size_t limit = NONE;
        switch(c.rng.below(7)) { case 0: limit = nodes; break; case 1: limit = nodes - 1; break; case 2: limit = nodes + 1; break; case 3: limit = 3 + c.rng.below(4); break; case 4: limit = 3 + c.rng.below(2 * nodes); break; }
        limit = std::max<size_t>(limit, 3);
        limited(w, idx, limit, c.rng.chance(40));
        if(c.rng.chance(20)) { limited(w, idx, NONE, c.rng.chance(50)); }
        if(c.rng.chance(10)) {
            const size_t i = c.rng.below(w.t.size()), j = c.rng.below(w.t.size()); op("entry & entry (%zu,%zu)", i, j);
            auto a = w.col[i], b = w.col[j]; auto z = a & b; const TT t = w.t[i] & w.t[j];
            w.record("entry and", w.col.nr_bdds() - 1, t);
            CollWorld::Memo memo; REQUIRE(w.walk(z.root_node(), memo) == t, "wrong-function", "entry & entry returns another entry"); count("entry_and");
        }
        if(c.rng.chance(8)) { // unsupported list lengths are refused and leave everything as it was
            std::vector<size_t> big(c.rng.chance(50) ? 50 + c.rng.below(10) : 0, 0); auto before = w.snapshot(); bool threw = false;
            op("and of %zu entries", big.size());
            try { w.col.bdd_and(big.begin(), big.end()); } catch(const std::runtime_error&) { threw = true; }
            REQUIRE(threw && w.snapshot() == before, "unsupported-length", "conjunction of %zu entries: %s", big.size(), threw ? "collection changed" : "no exception"); count("unsupported_length");
        }
        maximum("operands", m); maximum("conjunction_nodes", nodes);
    }
    w.check_all();
}
// chains of many variables: the result against the manager's conjunction
static void chain(Case& c)
{
    bdd_mgr m; bdd_collection col;
    const int n = c.rng.range(4, c.thorough ? 400 : 120);
    m.projection(n - 1);
    auto rnd = [&] { // windows of simplex / clause / parity constraints
        const int a = c.rng.below(n), len = 1 + c.rng.below(std::min(n - a, 12)); std::vector<node_ref> v;
        for(int i = a; i < a + len; ++i) v.push_back(c.rng.chance(80) ? m.projection(i) : m.negate(m.projection(i)));
        switch(c.rng.below(4)) { case 0: return m.simplex(v.begin(), v.end()); case 1: return m.at_most_one(v.begin(), v.end()); case 2: return m.at_least_one(v.begin(), v.end()); default: { node_ref f = v.back(); for(size_t i = v.size() - 1; i-- > 0;) f = m.xor_rec(v[i], f); return f; } }
    };
    const size_t k = c.rng.range(2, 9);
    std::vector<size_t> idx; std::vector<node_ref> h;
    for(size_t i = 0; i < k; ++i) { node_ref f = rnd(); h.push_back(f); idx.push_back(col.add_bdd(f)); }
    node_ref e = h[0]; for(size_t i = 1; i < k; ++i) e = m.and_rec(e, h[i]);
    if(e.nr_nodes() > 30000) return;
    const size_t z = col.bdd_and(idx.begin(), idx.end());
    op("and of %zu constraints over %d variables: %zu nodes", k, n, e.nr_nodes());
    REQUIRE(z == k && col.nr_bdd_nodes(z) == e.nr_nodes() + 2, "wrong-count", "%zu nodes, the manager's conjunction has %zu", col.nr_bdd_nodes(z), e.nr_nodes() + 2);
    REQUIRE(col.export_bdd(m, z) == e, "wrong-function", "conjunction in the collection differs from the manager's");
    size_t p = idx[0]; bool ok = true;
    for(size_t i = 1; i < k && ok; ++i) { p = col.bdd_and(p, idx[i]); }
    REQUIRE(col.export_bdd(m, p) == e, "wrong-function", "successive conjunctions in the collection differ from the manager's");
    const size_t nn = e.nr_nodes() + 2;
    if(nn > 3) { const size_t before = col.nr_bdds(); REQUIRE(col.bdd_and(idx.begin(), idx.end(), nn - 1) == NONE && col.nr_bdds() == before, "limit-ignored", "limit %zu for %zu nodes", nn - 1, nn); REQUIRE(col.export_bdd(m, col.bdd_and(idx.begin(), idx.end(), nn)) == e, "refused", "limit equal to the size"); }
    count("chains"); maximum("conjunction_nodes", nn); nontrivial(mix(shape(e) + k));
}
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(2, 6) : c.rng.range(5, 20);
    for(int k = 0; k < steps; ++k) { w.coll_trim(); if(c.rng.chance(30)) w.coll_step(); if(c.rng.chance(50)) w.coll_and(); else w.coll_nary(); if(c.rng.chance(40)) w.coll_and(); }
    w.check_coll(); w.check_all();
}
void run_case(Case& c)
{ if(args.mode == "wide") { wide(c, {6, 6, 6, 8, 3, 2, 2, 0}); return; } if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } if(args.mode == "chain") chain(c); else hist(c); }
void end_of_chunk() {}
