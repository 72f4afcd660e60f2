// C14: diagrams imported into a collection keep function, size and variables, and come back as the same handles.
#include "coll.h"
#include "scale.h"
#include "wide.h"
using namespace H;

static void check_instructions(CollWorld& w, size_t k)
{
    auto [b, e] = w.col.get_bdd_instructions(k);
    auto [rb, re] = w.col.get_reverse_bdd_instructions(k);
    const size_t nn = std::distance(b, e);
    REQUIRE(nn == w.col.nr_bdd_nodes(k), "instructions", "%zu instructions, %zu nodes", nn, w.col.nr_bdd_nodes(k));
    REQUIRE(size_t(std::distance(rb, re)) == nn, "instructions", "reverse list has %zu instructions", size_t(std::distance(rb, re)));
    std::vector<bdd_instruction> f(b, e), rv(rb, re);
    std::reverse(rv.begin(), rv.end());
    REQUIRE(f == rv, "instructions", "the reverse list is not the reversed list");
    const size_t first = w.col.offset(*b);
    size_t tops = 0, bots = 0;
    for(size_t i = 0; i < nn; ++i) {
        REQUIRE(w.col.offset(*(b + i)) == first + i, "instructions", "instructions are not numbered consecutively");
        if(f[i].is_topsink()) { ++tops; continue; } if(f[i].is_botsink()) { ++bots; continue; }
        REQUIRE(!f[i].is_terminal() && f[i].lo != f[i].hi, "instructions", "instruction %zu has equal successors", i);
        REQUIRE(f[i].lo > first + i && f[i].hi > first + i && f[i].lo < first + nn && f[i].hi < first + nn, "instructions", "instruction %zu does not precede its successors within the diagram", i);
    }
    REQUIRE(tops == 1 && bots == 1, "instructions", "%zu true and %zu false terminals", tops, bots);
    // first instruction is the root: interpret from there
    for(int q = 0; q < 6; ++q) {
        const size_t a = w.r.below(size_t(1) << w.n); auto l = w.labeling(a);
        size_t i = 0; int guard = 0;
        while(!f[i].is_topsink() && !f[i].is_botsink()) { REQUIRE(++guard <= w.n, "instructions", "path too long"); i = (l[f[i].index] ? f[i].hi : f[i].lo) - first; }
        REQUIRE(f[i].is_topsink() == w.t[k].bit(a), "instructions", "instructions give the wrong value at assignment %zx", a);
    }
    count("instruction_lists");
}
static void roundtrip(CollWorld& w, size_t k)
{
    Rng& r = w.r;
    for(size_t v : w.w.vmap) w.w.need_var(v);
    op("export %zu", k);
    node_ref a = w.col.export_bdd(w.w.m, k);
    REQUIRE(a == w.w.from_tt(w.t[k]), "round-trip", "export of entry %zu into the manager is not the handle of its function", k);
    node_ref b = w.w.m.add_bdd(w.col, k);
    REQUIRE(a == b, "round-trip", "the two ways back from a collection give different handles for entry %zu", k);
    count("exports");
    if(r.chance(30)) { // into another manager
        bdd_mgr m2;
        node_ref x = m2.add_bdd(w.col, k);
        REQUIRE(x.find_bdd_mgr() == &m2, "round-trip", "imported diagram does not belong to the importing manager");
        while(m2.nr_variables() <= w.w.vmap.back()) m2.add_variable();
        node_ref y = w.col.export_bdd(m2, k);
        REQUIRE(x == y, "round-trip", "two ways into another manager differ");
        bdd_collection c2; const size_t j = c2.add_bdd(x);
        for(int q = 0; q < 12; ++q) { const size_t s = r.below(size_t(1) << w.n); auto l = w.labeling(s); REQUIRE(x.evaluate(l.begin(), l.end()) == w.t[k].bit(s) && c2.evaluate(j, l.begin(), l.end()) == w.t[k].bit(s), "round-trip", "function changed on the way through another manager and collection"); }
        if(w.exact[k]) REQUIRE(c2.nr_bdd_nodes(j) == w.col.nr_bdd_nodes(k), "round-trip", "size changed on the way");
        count("other_manager");
    }
}
static void hist(Case& c)
{
    const bool large = args.mode == "big";
    CollWorld w(large ? c.rng.range(9, 13) : c.rng.range(1, 7), c.rng, c.rng.chance(40) ? 6 : 0);
    w.w.start(); w.w.pool_limit = 20; if(large) w.limit = 8;
    const int steps = large ? c.rng.range(3, 8) : c.rng.range(12, 50);
    for(int k = 0; k < steps; ++k) {
        if(c.rng.chance(30)) w.w.boolean_step();
        if(c.rng.chance(60)) { w.ensure(1); w.do_add(); } else w.coll_step();
        w.ensure(1);
        const size_t j = c.rng.chance(60) ? w.t.size() - 1 : c.rng.below(w.t.size());
        check_instructions(w, j);
        if(c.rng.chance(60)) roundtrip(w, j);
        if(c.rng.chance(10)) { w.w.drop_many(); w.w.do_gc(); } // the collection does not depend on the manager's nodes
        maximum("entry_nodes", w.col.nr_bdd_nodes(j));
    }
    w.check_all(); w.w.check_pool(false);
    for(size_t k = 0; k < w.t.size(); ++k) roundtrip(w, k);
}
// long diagrams
static void chain(Case& c)
{
    bdd_mgr m; bdd_collection col;
    const int n = c.rng.range(2, c.thorough ? 3000 : 1200);
    std::vector<node_ref> v; for(int i = 0; i < n; ++i) v.push_back(m.projection(i));
    const int kind = c.rng.below(3);
    node_ref f = kind == 0 ? m.simplex(v.begin(), v.end()) : kind == 1 ? m.at_most_one(v.begin(), v.end()) : [&] { node_ref e = v[n - 1]; for(int i = n - 1; i-- > 0;) e = m.xor_rec(v[i], e); return e; }();
    const size_t pre = c.rng.below(4); for(size_t i = 0; i < pre; ++i) col.add_bdd(v[c.rng.below(n)]);
    op("entry of %zu nodes over %d variables after %zu others", f.nr_nodes(), n, pre);
    const size_t k = col.add_bdd(f);
    REQUIRE(k == pre && col.nr_bdds() == pre + 1, "wrong-index", "index %zu", k);
    REQUIRE(col.nr_bdd_nodes(k) == f.nr_nodes() + 2, "wrong-count", "%zu nodes stored of %zu", col.nr_bdd_nodes(k), f.nr_nodes() + 2);
    REQUIRE(col.variables(k) == f.variables(), "wrong-variables", "variables differ");
    REQUIRE(m.add_bdd(col, k) == f && col.export_bdd(m, k) == f, "round-trip", "a diagram of %zu nodes does not come back", f.nr_nodes());
    std::vector<char> l(n);
    for(int q = 0; q < 20; ++q) { int pr = c.rng.range(0, 3); int s = 0; for(auto& b : l) { b = c.rng.below(n) < size_t(pr); s += b; } REQUIRE(col.evaluate(k, l.begin(), l.end()) == (kind == 0 ? s == 1 : kind == 1 ? s <= 1 : s & 1), "wrong-evaluation", "long entry"); }
    count("long_entries"); maximum("entry_nodes", f.nr_nodes()); nontrivial(mix(n * 3 + kind));
}
static void reverse(SWorld& w, size_t k)
{
    auto [b, e] = w.col.get_bdd_instructions(k); auto [rb, re] = w.col.get_reverse_bdd_instructions(k); const size_t nn = std::distance(b, e);
    REQUIRE(nn == w.R.size(w.t[k]) + 2 && size_t(std::distance(rb, re)) == nn, "instructions", "%zu and %zu instructions, %zu nodes", nn, size_t(std::distance(rb, re)), w.R.size(w.t[k]) + 2);
    for(size_t i = 0; i < nn; ++i) REQUIRE(*(b + i) == *(rb + (nn - 1 - i)) && w.col.offset(*(b + i)) == w.col.offset(*b) + i, "instructions", "instruction %zu differs between the lists or is numbered wrongly", i);
    REQUIRE(w.convert_entry(k) == w.t[k], "instructions", "the instruction list of entry %zu denotes another function", k); count("instruction_lists");
}
// thousands of entries in one collection
static void scale_many(Case& c)
{
    SWorld w(c.rng, c.rng.range(3, 20), 12);
    w.fill_many(args.mode == "scale-san" ? 1000 : 5000);
    for(int q = 0; q < 4; ++q) { const size_t k = w.epick(); w.check_entry(k); w.coll_export(); w.coll_add(w.generate()); reverse(w, k); w.coll_and(); w.coll_or_var(); }
    w.check_coll(); nontrivial(mix(hist_id));
}
// large entries
static void scale(Case& c)
{
    if(c.rng.chance(25)) { scale_many(c); return; }
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(2, 6) : c.rng.range(5, 20);
    for(int k = 0; k < steps; ++k) {
        w.coll_trim(); if(c.rng.chance(60)) w.coll_add(w.generate()); else w.coll_step();
        w.coll_ensure(1); const size_t j = w.epick(); reverse(w, j); w.check_entry(j); w.coll_export();
        if(c.rng.chance(10)) { w.drop_some(); w.do_gc(false); }
    }
    w.check_coll(); w.check_all();
}
void run_case(Case& c)
{ if(args.mode == "wide") { wide(c, {10, 3, 2, 2, 3, 3, 2, 1}); return; } if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } if(args.mode == "chain") chain(c); else hist(c); }
void end_of_chunk() {}
