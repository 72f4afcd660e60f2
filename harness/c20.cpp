// C20: building a diagram in a collection node by node.
#include "coll.h"
#include "scale.h"
#include "wide.h"
using namespace H;

// large diagrams built node by node
static void scale(Case& c)
{
    SWorld w = make_scale(c); w.coll_limit = 8;
    const int rounds = w.target > 20000 ? c.rng.range(1, 3) : c.rng.range(3, 8);
    for(int q = 0; q < rounds; ++q) {
        if(c.rng.chance(50)) w.coll_step();
        const id f = w.generate(); if(f < 2) continue;
        auto po = w.R.postorder(f); // any order with predecessors first
        if(c.rng.chance(50)) std::reverse(po.begin(), po.end()); else std::sort(po.begin(), po.end(), [&](id a, id b) { return w.R.n[a].var != w.R.n[b].var ? w.R.n[a].var < w.R.n[b].var : mix(a) < mix(b); });
        std::unordered_map<id, size_t> pos; for(size_t i = 0; i < po.size(); ++i) pos[po[i]] = i;
        auto before = w.digests(); op("new diagram of %zu nodes", po.size()); note(w.R.hash(f));
        const size_t z = w.col.new_bdd(); REQUIRE(z == w.t.size() && w.col.nr_bdds() == z + 1, "builder", "index of the new diagram");
        std::vector<bdd_collection_node> h; std::vector<std::pair<size_t, int>> todo;
        for(size_t i = 0; i < po.size(); ++i) { h.push_back(w.col.add_bdd_node(w.R.n[po[i]].var)); todo.push_back({i, 0}); todo.push_back({i, 1}); }
        const int ord = c.rng.below(3); if(ord == 1) std::reverse(todo.begin(), todo.end()); if(ord == 2) for(size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[c.rng.below(i)]);
        for(auto& [i, b] : todo) {
            const auto& x = w.R.n[po[i]]; const id y = b ? x.hi : x.lo;
            if(y == 0) { if(b) h[i].set_hi_to_0_terminal(); else h[i].set_lo_to_0_terminal(); } else if(y == 1) { if(b) h[i].set_hi_to_1_terminal(); else h[i].set_lo_to_1_terminal(); } else if(b) h[i].set_hi_arc(h[pos[y]]); else h[i].set_lo_arc(h[pos[y]]);
            count("arcs_set");
        }
        w.col.close_bdd();
        auto e = w.col[z];
        for(size_t i = 0; i < po.size(); ++i) {
            const auto& x = w.R.n[po[i]]; auto u = e[i]; REQUIRE(u == h[i] && u.variable() == x.var, "builder", "node %zu after closing", i);
            auto lo = u.lo(), hi = u.hi(); REQUIRE((x.lo < 2 ? (x.lo ? lo.is_topsink() : lo.is_botsink()) : lo == h[pos[x.lo]]) && (x.hi < 2 ? (x.hi ? hi.is_topsink() : hi.is_botsink()) : hi == h[pos[x.hi]]), "builder", "successors of node %zu after closing", i);
        }
        w.record("builder", z, f, &before); count("built_diagrams"); maximum("built_nodes", po.size());
        w.coll_export(); if(c.rng.chance(60)) w.coll_and(); if(c.rng.chance(40)) w.coll_or_var(); if(c.rng.chance(30)) w.coll_remove_random();
        w.coll_trim();
    }
    w.check_coll();
}
void run_case(Case& c)
{ if(args.mode == "wide") { wide(c, {12, 3, 2, 1, 3, 2, 2, 0}); return; } if(args.mode.rfind("scale", 0) == 0) { scale(c); return; }
    CollWorld w(c.rng.range(1, 8), c.rng, c.rng.chance(40) ? 6 : 0);
    w.w.start(); w.limit = 25;
    const bool allow_equal = c.rng.chance(15);
    const int rounds = c.rng.range(4, 14);
    for(size_t v : w.w.vmap) w.w.need_var(v);
    for(int q = 0; q < rounds; ++q) {
        const int pre = c.rng.below(3); for(int i = 0; i < pre; ++i) w.coll_step();
        // a random ordered graph: nodes sorted by variable, every arc to a later node of a later variable or a terminal
        const size_t want = 1 + c.rng.below(c.rng.chance(20) ? 60 : 10);
        std::vector<int> draw; for(size_t i = 0; i < want; ++i) draw.push_back(c.rng.below(w.n)); std::sort(draw.rbegin(), draw.rend());
        struct Arc { int kind; size_t to; }; // 0 bot, 1 top, 2 node
        std::vector<int> var; std::vector<std::array<Arc, 2>> arc; // last node first
        std::set<std::array<size_t, 5>> have;
        for(size_t i = 0; i < want; ++i) {
            std::vector<size_t> later; for(size_t j = 0; j < var.size(); ++j) if(var[j] > draw[i]) later.push_back(j);
            std::array<Arc, 2> a; int tries = 0; bool ok = false;
            while(!ok && ++tries < 40) {
                for(int b = 0; b < 2; ++b) { if(later.empty() || c.rng.chance(20)) a[b] = {int(c.rng.below(2)), 0}; else a[b] = {2, later[later.size() - 1 - (c.rng.chance(60) ? c.rng.below(std::min<size_t>(later.size(), 4)) : c.rng.below(later.size()))]}; }
                const std::array<size_t, 5> key{size_t(draw[i]), size_t(a[0].kind), a[0].to, size_t(a[1].kind), a[1].to};
                ok = !(a[0].kind == a[1].kind && a[0].to == a[1].to) && (allow_equal || have.insert(key).second);
            }
            if(ok) { var.push_back(draw[i]); arc.push_back(a); }
        }
        const size_t N = var.size();
        std::reverse(var.begin(), var.end()); std::reverse(arc.begin(), arc.end());
        for(auto& a : arc) for(int b = 0; b < 2; ++b) if(a[b].kind == 2) a[b].to = N - 1 - a[b].to;
        auto before = w.snapshot();
        const bool incomplete = c.rng.chance(12);
        op("new diagram of %zu nodes after %zu entries%s", N, w.t.size(), incomplete ? ", one arc left unset" : "");
        if(incomplete) { // closing with an arc unset is reported
            bdd_collection col2(w.col);
            REQUIRE(col2.new_bdd() == w.t.size(), "builder", "index of the new diagram");
            std::vector<bdd_collection_node> h; for(size_t i = 0; i < N; ++i) h.push_back(col2.add_bdd_node(w.w.vmap[var[i]]));
            const size_t miss = c.rng.below(N * 2);
            for(size_t i = 0; i < N; ++i) for(int b = 0; b < 2; ++b) { if(i * 2 + b == miss) continue; const Arc& a = arc[i][b];
                if(b == 0) { if(a.kind == 0) h[i].set_lo_to_0_terminal(); else if(a.kind == 1) h[i].set_lo_to_1_terminal(); else h[i].set_lo_arc(h[a.to]); }
                else { if(a.kind == 0) h[i].set_hi_to_0_terminal(); else if(a.kind == 1) h[i].set_hi_to_1_terminal(); else h[i].set_hi_arc(h[a.to]); } }
            bool threw = false; try { col2.close_bdd(); } catch(const std::runtime_error&) { threw = true; }
            REQUIRE(threw, "builder", "closing a diagram with an arc unset is not reported"); count("incomplete");
            REQUIRE(w.snapshot() == before, "changed", "work on a copy changed the collection");
            continue;
        }
        const size_t z = w.col.new_bdd();
        REQUIRE(z == w.t.size() && w.col.nr_bdds() == z + 1, "builder", "index of the new diagram is %zu", z);
        // add nodes and set arcs in mixed order; an arc to a node needs that node to exist
        std::vector<bdd_collection_node> h; std::vector<std::pair<size_t, int>> todo;
        auto set = [&](size_t i, int b) {
            const Arc& a = arc[i][b];
            if(c.rng.chance(15)) { // an arc set before to something else: the last one counts
                const int k = c.rng.below(3); count("arcs_set_again");
                if(k == 0) { if(b) h[i].set_hi_to_0_terminal(); else h[i].set_lo_to_0_terminal(); } else if(k == 1) { if(b) h[i].set_hi_to_1_terminal(); else h[i].set_lo_to_1_terminal(); } else { auto& y = h[c.rng.below(h.size())]; if(b) h[i].set_hi_arc(y); else h[i].set_lo_arc(y); }
            }
            if(b == 0) { if(a.kind == 0) h[i].set_lo_to_0_terminal(); else if(a.kind == 1) h[i].set_lo_to_1_terminal(); else h[i].set_lo_arc(h[a.to]); }
            else { if(a.kind == 0) h[i].set_hi_to_0_terminal(); else if(a.kind == 1) h[i].set_hi_to_1_terminal(); else h[i].set_hi_arc(h[a.to]); }
            count("arcs_set");
        };
        const bool late = c.rng.chance(40);
        for(size_t i = 0; i < N; ++i) {
            h.push_back(w.col.add_bdd_node(w.w.vmap[var[i]]));
            REQUIRE(h.back().variable() == w.w.vmap[var[i]], "builder", "variable of a new node");
            for(int b = 0; b < 2; ++b) todo.push_back({i, b});
            if(!late) for(size_t t = 0; t < todo.size();) { const Arc& a = arc[todo[t].first][todo[t].second]; if((a.kind < 2 || a.to <= i) && c.rng.chance(70)) { set(todo[t].first, todo[t].second); todo[t] = todo.back(); todo.pop_back(); } else ++t; }
        }
        for(size_t t = todo.size(); t > 1; --t) std::swap(todo[t - 1], todo[c.rng.below(t)]);
        for(auto& [i, b] : todo) set(i, b);
        w.col.close_bdd();
        REQUIRE(w.col.nr_bdds() == z + 1, "builder", "closing changed the number of entries to %zu", w.col.nr_bdds());
        REQUIRE(w.col.nr_bdd_nodes(z) == N + 2, "builder", "%zu nodes instead of %zu and two terminals", w.col.nr_bdd_nodes(z), N);
        // expected function
        std::vector<TT> f(N);
        for(size_t i = N; i-- > 0;) { TT s[2]; for(int b = 0; b < 2; ++b) { const Arc& a = arc[i][b]; s[b] = a.kind < 2 ? TT(w.n, a.kind == 1) : f[a.to]; } const TT x = TT::var(w.n, var[i]); f[i] = (x & s[1]) | (~x & s[0]); }
        auto after = w.snapshot(); after.pop_back();
        REQUIRE(after == before, "changed", "building a diagram changed other entries");
        auto e = w.col[z];
        for(size_t i = 0; i < N; ++i) { auto x = e[i]; REQUIRE(x == h[i] && x.variable() == w.w.vmap[var[i]], "builder", "node %zu after closing", i);
            for(int b = 0; b < 2; ++b) { auto y = b ? x.hi() : x.lo(); const Arc& a = arc[i][b]; REQUIRE(a.kind == 0 ? y.is_botsink() : a.kind == 1 ? y.is_topsink() : y == h[a.to], "builder", "%d-successor of node %zu after closing", b, i); } }
        w.record("builder", z, f[0], false);
        std::set<size_t> vs; for(int v : var) vs.insert(w.w.vmap[v]);
        REQUIRE(w.col.variables(z) == std::vector<size_t>(vs.begin(), vs.end()), "builder", "variables of the built diagram");
        for(size_t v : vs) { size_t cnt = 0; for(int x : var) cnt += w.w.vmap[x] == v; REQUIRE(w.col.nr_bdd_nodes(z, v) == cnt, "builder", "nodes per variable"); }
        REQUIRE(w.col.export_bdd(w.w.m, z) == w.w.from_tt(f[0]), "builder", "export of the built diagram is not the diagram of its function");
        REQUIRE(w.w.m.add_bdd(w.col, z) == w.w.from_tt(f[0]), "builder", "import of the built diagram is not the diagram of its function");
        for(int k = 0; k < 2; ++k) { const size_t j = c.rng.below(w.t.size()); op("and of the built diagram with %zu", j); const TT u = w.t[z] & w.t[j]; w.record("and of built", w.col.bdd_and(j, z), u); }
        if(c.rng.chance(50)) { const int v = c.rng.below(w.n); std::vector<size_t> p{w.w.vmap[v]}, none; w.record("or_var of built", w.col.bdd_or_var(z, p, none), w.t[z] | TT::var(w.n, v)); }
        count("built_diagrams");
        if(w.t.size() > w.limit) w.do_remove();
    }
    w.check_all();
}
void end_of_chunk() {}
