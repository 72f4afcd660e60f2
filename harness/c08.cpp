// C08: reference counts equal held handles plus arcs from existing nodes.
#include "mix.h"
#include "scale.h"
using namespace H;

static void counts(World& w, size_t base)
{
    std::unordered_map<node*, size_t> expect;
    std::vector<node_ref> order;
    {
        std::vector<node_ref> st;
        for(auto& e : w.pool) { ++expect[e.h.address()]; st.push_back(e.h); }
        std::unordered_set<node*> s;
        while(!st.empty()) {
            node_ref x = st.back(); st.pop_back();
            if(!s.insert(x.address()).second) continue;
            order.push_back(x);
            if(x.is_terminal()) continue;
            ++expect[x.low().address()]; ++expect[x.high().address()];
            st.push_back(x.low()); st.push_back(x.high());
        }
    }
    for(auto& x : order) {
        const size_t e = expect[x.address()] + (x.is_terminal() ? base : 0) + 1; // +1: held by order
        REQUIRE(x.reference_count() == e, "wrong-refcount", "a %s has reference count %zu, but %zu handles and arcs refer to it", x.is_terminal() ? "terminal" : "node", x.reference_count(), e);
        count("refcounts_checked");
    }
}
static void hist(Case& c)
{
    const bool large = args.mode == "big";
    Mix x(large ? c.rng.range(8, 11) : c.rng.range(1, 7), c.rng, c.rng.chance(30) ? 4 : 0);
    World& w = x.w;
    const size_t base = w.m.topsink().reference_count() - 2; // one handle is in the pool
    REQUIRE(w.m.botsink().reference_count() - 2 == base, "wrong-refcount", "fresh terminals differ in reference count");
    w.pool_limit = large ? 14 : c.rng.range(6, 60);
    const int steps = large ? c.rng.range(6, 20) : c.rng.range(20, 90);
    for(int k = 0; k < steps; ++k) {
        if(large && c.rng.chance(20)) w.do_random_function(); else if(!large && c.rng.chance(12)) x.side(); else w.boolean_step();
        // handle life cycle by differences, at any time
        {
            const size_t a = w.pick(); node_ref& h = w.pool[a].h;
            const size_t r0 = h.reference_count();
            { node_ref x(h); REQUIRE(h.reference_count() == r0 + 1, "wrong-refcount", "copying a handle: %zu -> %zu", r0, h.reference_count());
              node_ref y(std::move(x)); REQUIRE(h.reference_count() == r0 + 1, "wrong-refcount", "moving a handle: %zu -> %zu", r0 + 1, h.reference_count());
              node_ref z; z = y; REQUIRE(h.reference_count() == r0 + 2, "wrong-refcount", "assigning a handle"); z = z; REQUIRE(h.reference_count() == r0 + 2, "wrong-refcount", "self-assignment of a handle");
              z = node_ref(); REQUIRE(h.reference_count() == r0 + 1, "wrong-refcount", "clearing a handle");
              std::vector<node_ref> v(7, h); REQUIRE(h.reference_count() == r0 + 8, "wrong-refcount", "vector of handles"); v.resize(3); v.push_back(y); v.erase(v.begin()); REQUIRE(h.reference_count() == r0 + 4, "wrong-refcount", "vector of handles resized: %zu -> %zu", r0, h.reference_count()); }
            REQUIRE(h.reference_count() == r0, "wrong-refcount", "handles gone, count %zu instead of %zu", h.reference_count(), r0);
            count("handle_lifecycles");
            switch(c.rng.below(6)) { // queries leave the counts alone
                case 0: { auto v = h.nodes_postorder(); if(!h.is_terminal()) REQUIRE(h.reference_count() == r0 + 1 && v.back() == h, "wrong-refcount", "listed nodes hold one reference each"); break; }
                case 1: { auto v = h.nodes_bfs(); if(!h.is_terminal()) REQUIRE(h.reference_count() == r0 + 1 && v.front() == h, "wrong-refcount", "listed nodes hold one reference each"); break; }
                case 2: h.variables(); break;
                case 3: h.nr_nodes(); break;
                case 4: w.eval(h, 0); h.exactly_one_solution(); break;
                default: { node_ref t = h.topsink(), b = h.botsink(); REQUIRE(t == w.m.topsink() && b == w.m.botsink() && h.find_bdd_mgr() == &w.m, "wrong-terminal", "terminals reached from a handle are not the manager's"); }
            }
            REQUIRE(h.reference_count() == r0, "wrong-refcount", "a query changed the count from %zu to %zu", r0, h.reference_count());
        }
        if(c.rng.chance(25)) { w.drop_many(); w.do_gc(); counts(w, base); nontrivial(mix(hist_id)); }
    }
    w.pool.clear(); w.do_gc();
    REQUIRE(w.m.topsink().reference_count() == base + 1 && w.m.botsink().reference_count() == base + 1, "wrong-refcount", "terminals do not return to their initial reference count");
}
// large diagrams, and very many handles of one node
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const size_t base = w.m.topsink().reference_count() - 2;
    const int rounds = w.target > 20000 ? 2 : c.rng.range(2, 6);
    for(int q = 0; q < rounds; ++q) {
        const int k = c.rng.range(1, 5); for(int i = 0; i < k; ++i) w.step();
        if(c.rng.chance(60)) w.do_query();
        if(c.rng.chance(60)) w.do_store();
        if(c.rng.chance(60)) w.drop_some();
        w.do_gc();
        std::vector<node_ref> many; const size_t a = w.pick(); const size_t N = c.rng.chance(30) ? 66000 + c.rng.below(80000) : c.rng.below(3000);
        for(size_t i = 0; i < N; ++i) many.push_back(w.pool[a].h);
        if(c.rng.chance(30)) { op("%zu handles of one node during a collection", N); w.do_gc(); }
        std::unordered_map<node*, size_t> e; for(auto& x : w.pool) ++e[x.h.address()]; e[w.pool[a].h.address()] += N;
        std::vector<node*> all; { std::unordered_set<node*> s; std::vector<node*> st; for(auto& x : w.pool) st.push_back(x.h.address()); while(!st.empty()) { node* p = st.back(); st.pop_back(); if(!s.insert(p).second) continue; all.push_back(p); if(p->is_terminal()) continue; ++e[p->lo]; ++e[p->hi]; st.push_back(p->lo); st.push_back(p->hi); } }
        for(node* p : all) { const size_t x = e[p] + (p->is_terminal() ? base : 0); REQUIRE(size_t(p->xref) == x, "wrong-refcount", "a %s has reference count %ld, but %zu handles and arcs refer to it", p->is_terminal() ? "terminal" : "node", long(p->xref), x); }
        count("refcounts_checked", all.size()); maximum("handles_of_one_node", N); nontrivial(mix(hist_id));
        const size_t before = w.pool[a].h.reference_count();
        while(many.size() > N / 3) many.pop_back();
        REQUIRE(w.pool[a].h.reference_count() == before - (N - N / 3 > N ? 0 : N - many.size()), "wrong-refcount", "dropping handles");
        many.clear(); REQUIRE(w.pool[a].h.reference_count() == before - N, "wrong-refcount", "dropping %zu handles of one node: %zu -> %zu", N, before, w.pool[a].h.reference_count());
        w.check_all();
    }
}
void run_case(Case& c) { if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } hist(c); }
void end_of_chunk() {}
