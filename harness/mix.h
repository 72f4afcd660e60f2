// A history that mixes every public operation of managers and collections, each checked against the model.
#pragma once
#include "coll.h"
#include <sstream>
namespace H {
struct Mix {
    CollWorld c; World& w; Rng& r; int n;
    Mix(int n_, Rng& r_, int gap) : c(n_, r_, gap), w(c.w), r(r_), n(n_) { w.start(); w.pool_limit = 30; c.limit = 14; }

    static size_t pc(size_t a) { return __builtin_popcountll(a); }
    void counting()
    {
        const int k = r.range(1, 7);
        std::vector<node_ref> h; std::vector<TT> t;
        for(int i = 0; i < k; ++i) { const size_t a = w.pick(); h.push_back(w.pool[a].h); t.push_back(w.pool[a].t); }
        const size_t b = r.below(k + 3);
        const int kind = r.below(7);
        TT u(n); for(size_t a = 0; a < u.size(); ++a) { size_t s = 0; for(auto& x : t) s += x.bit(a); u.set(a, kind == 0 ? s == 0 : kind == 1 ? s == 1 : kind == 2 ? s <= 1 : kind == 3 ? s >= 1 : kind == 4 ? s >= b : kind == 5 ? s <= b : s == b); }
        op("counting %d of %d, bound %zu", kind, k, b); count("counting");
        node_ref z = kind == 0 ? w.m.all_false(h.begin(), h.end()) : kind == 1 ? w.m.simplex(h.begin(), h.end()) : kind == 2 ? w.m.at_most_one(h.begin(), h.end()) : kind == 3 ? w.m.at_least_one(h.begin(), h.end())
            : kind == 4 ? w.m.at_least(h.begin(), h.end(), b) : kind == 5 ? w.m.at_most(h.begin(), h.end(), b) : w.m.cardinality(h.begin(), h.end(), b);
        w.put("counting", z, u);
    }
    void limited()
    {
        const size_t a = w.pick(), b = w.pick(); const TT t = w.pool[a].t & w.pool[b].t; const size_t nodes = RefBdd(t).nodes, l = r.below(2 * nodes + 3);
        op("limited and #%zu #%zu limit %zu", a, b, l); count("limited");
        auto [z, k] = w.m.and_rec_limited(w.pool[a].h, w.pool[b].h, l);
        REQUIRE((z.address() != nullptr) == (nodes < l), "limited", "limit %zu, %zu nodes", l, nodes);
        if(z.address()) { REQUIRE(k == nodes, "limited", "count %zu of %zu", k, nodes); node_ref y = z; w.put("limited", y, t); }
    }
    void rebase()
    {
        const size_t e = w.pick(); const TT t = w.pool[e].t;
        std::vector<int> sup; for(int i = 0; i < n; ++i) if(t.depends(i)) sup.push_back(i);
        std::vector<int> all(n); for(int i = 0; i < n; ++i) all[i] = i;
        for(size_t i = n; i > 1; --i) std::swap(all[i - 1], all[r.below(i)]);
        std::vector<int> to(all.begin(), all.begin() + sup.size()); std::sort(to.begin(), to.end());
        TT u(n); for(size_t a = 0; a < u.size(); ++a) { size_t b = 0; for(size_t i = 0; i < sup.size(); ++i) if((a >> to[i]) & 1) b |= size_t(1) << sup[i]; u.set(a, t.bit(b)); }
        op("rebase #%zu", e); count("rebase");
        if(r.chance(50)) { std::unordered_map<size_t, size_t> m; for(size_t i = 0; i < sup.size(); ++i) m[w.vmap[sup[i]]] = w.vmap[to[i]]; w.put("rebase", w.m.rebase(w.pool[e].h, m), u); }
        else { std::vector<size_t> m(w.vmap.back() + 1, 0); for(size_t i = 0; i < sup.size(); ++i) m[w.vmap[sup[i]]] = w.vmap[to[i]]; w.put("rebase", with_map(m, r, [&](auto b, auto f) { return w.m.rebase(w.pool[e].h, b, f); }), u); }
    }
    void query()
    {
        const size_t e = w.pick(); node_ref h = w.pool[e].h; const RefBdd ref(w.pool[e].t);
        op("queries on #%zu", e); count("queries");
        REQUIRE(h.nr_nodes() == ref.nodes, "query", "%zu nodes of %zu", h.nr_nodes(), ref.nodes);
        auto p = h.nodes_postorder(); auto b = h.nodes_bfs();
        REQUIRE(p.size() == ref.nodes && b.size() == ref.nodes, "query", "traversals list %zu and %zu of %zu nodes", p.size(), b.size(), ref.nodes);
        std::vector<size_t> v; for(int i = 0; i < n; ++i) if(ref.per_level[i]) v.push_back(w.vmap[i]);
        REQUIRE(h.variables() == v, "query", "variables");
        (void)h.exactly_one_solution();
        std::ostringstream s; h.print(s); REQUIRE(!s.str().empty(), "query", "print");
        REQUIRE(h.find_bdd_mgr() == &w.m, "query", "manager of a diagram");
        REQUIRE(h.botsink() == w.m.botsink() && h.topsink() == w.m.topsink(), "query", "terminals of a diagram");
        REQUIRE(h.reference_count() >= 1, "query", "reference count");
        if(!h.is_terminal() && !h.marked()) { h.mark(); REQUIRE(h.marked(), "query", "mark"); h.unmark(); REQUIRE(!h.marked(), "query", "unmark"); }
    }
    void coll_query()
    {
        c.ensure(1); const size_t k = r.below(c.t.size());
        op("queries on entry %zu", k); count("coll_queries");
        std::ostringstream s; c.col.export_graphviz(k, s); REQUIRE(!s.str().empty(), "query", "graphviz");
        auto [b, e] = c.col.get_bdd_instructions(k); auto [rb, re] = c.col.get_reverse_bdd_instructions(k);
        REQUIRE(size_t(std::distance(b, e)) == c.col.nr_bdd_nodes(k) && size_t(std::distance(rb, re)) == c.col.nr_bdd_nodes(k), "query", "instruction lists");
        REQUIRE(b == e || std::equal(rb, re, std::make_reverse_iterator(e)), "query", "reverse instruction list");
        if(c.exact[k] && c.col.nr_bdd_nodes(k) > 2) { auto en = c.col[k]; auto x = en.first_node_postorder(); size_t q = 1; while(x != en.root_node()) { auto y = x.next_postorder(); x = y; REQUIRE(++q <= c.col.nr_bdd_nodes(k), "query", "postorder of a stored diagram"); } }
        for(size_t v : w.vmap) w.need_var(v);
        const TT t = c.t[k];
        w.put("export", r.chance(50) ? c.col.export_bdd(w.m, k) : w.m.add_bdd(c.col, k), t);
    }
    void coll_rebase()
    {
        c.ensure(1); const size_t k = r.below(c.t.size());
        if(!c.exact[k]) return;
        op("identity renaming of entry %zu", k); count("coll_rebase");
        std::vector<size_t> m(w.vmap.back() + 1); for(size_t i = 0; i < m.size(); ++i) m[i] = i;
        c.col.rebase(k, m.begin(), m.end()); c.check_entry(k);
    }
    void coll_limited()
    {
        c.ensure(2); const size_t i = r.below(c.t.size()), j = r.below(c.t.size());
        const TT t = c.t[i] & c.t[j]; const size_t l = 3 + r.below(14);
        op("limited and of entries %zu %zu limit %zu", i, j, l); count("coll_limited");
        auto before = c.snapshot();
        const size_t k = and_call(c.col, {i, j}, l, r);
        if(k != std::numeric_limits<size_t>::max()) { c.record("limited and", k, t); REQUIRE(RefBdd(t).nodes + 2 <= l, "coll-limited", "limit %zu ignored", l); }
        else { REQUIRE(c.snapshot() == before, "coll-limited", "a refused conjunction changed the collection"); const size_t need = RefBdd(t).nodes + 2; REQUIRE(need > l, "coll-limited", "conjunction of %zu nodes refused with limit %zu", need, l); }
    }
    void build()
    {
        op("build an entry by hand"); count("build");
        const size_t z = c.col.new_bdd();
        // v0 ? (last ? 1 : 0) : (last ? 0 : 1), or a literal for one variable
        if(n == 1) { auto a = c.col.add_bdd_node(w.vmap[0]); a.set_lo_to_0_terminal(); a.set_hi_to_1_terminal(); c.col.close_bdd(); c.record("build", z, TT::var(n, 0)); return; }
        const int i = r.below(n - 1), j = r.range(i + 1, n - 1);
        auto a = c.col.add_bdd_node(w.vmap[i]); auto b = c.col.add_bdd_node(w.vmap[j]); auto d = c.col.add_bdd_node(w.vmap[j]);
        a.set_lo_arc(b); a.set_hi_arc(d); b.set_lo_to_0_terminal(); b.set_hi_to_1_terminal(); d.set_lo_to_1_terminal(); d.set_hi_to_0_terminal();
        c.col.close_bdd(); c.record("build", z, TT::var(n, i) ^ TT::var(n, j));
    }
    void copy_collection() { op("copy, assign and drop collections"); count("coll_copies"); bdd_collection a(c.col); bdd_collection b; b = a; a = bdd_collection(); c.col = b; }
    // one operation of any kind that drops no handle and collects nothing
    void side()
    {
        const int k = r.below(100);
        if(k < 15) counting(); else if(k < 25) limited(); else if(k < 35) rebase(); else if(k < 50) query(); else if(k < 65) c.coll_step(); else if(k < 85) coll_query(); else if(k < 89) coll_rebase(); else if(k < 94) coll_limited(); else if(k < 97) build(); else copy_collection();
        count("side_steps");
    }
    void step()
    {
        const int k = r.below(100);
        if(k < 38) w.boolean_step();
        else if(k < 44) counting();
        else if(k < 48) limited();
        else if(k < 52) rebase();
        else if(k < 58) query();
        else if(k < 74) c.coll_step();
        else if(k < 80) coll_query();
        else if(k < 83) coll_rebase();
        else if(k < 87) coll_limited();
        else if(k < 89) build();
        else if(k < 91) copy_collection();
        else if(k < 95) { w.drop_many(); }
        else w.do_gc();
    }
    void finish() { w.check_pool(true); c.check_all(); }
};
} // namespace H
