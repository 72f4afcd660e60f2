// C19: node handles of a stored diagram: navigation and re-routing of arcs.
#include "coll.h"
#include "scale.h"
#include "wide.h"
using namespace H;

struct G { struct N { size_t var; int kind; size_t lo, hi; }; std::vector<N> n; }; // kind 0 inner, 1 top, 2 bot; index within entry
static G read(CollWorld& w, size_t k)
{
    G g; auto c = w.contents(k);
    for(auto& x : c) { bdd_instruction i{x[0], x[1], x[2]}; g.n.push_back({x[2], i.is_topsink() ? 1 : i.is_botsink() ? 2 : 0, x[0], x[1]}); }
    return g;
}
static bool interpret(const G& g, const std::vector<char>& l)
{
    size_t i = 0; size_t guard = 0;
    while(g.n[i].kind == 0) { if(++guard > g.n.size()) harness_error("cyclic model"); i = l[g.n[i].var] ? g.n[i].hi : g.n[i].lo; }
    return g.n[i].kind == 1;
}
static void navigate(CollWorld& w, size_t k)
{
    auto e = w.col[k];
    const G g = read(w, k);
    REQUIRE(e.nr_nodes() == g.n.size(), "navigation", "node counts");
    auto node = [&](size_t i) { return e[i]; };
    auto kind = [](const bdd_collection_node& x) { return x.is_topsink() ? 1 : x.is_botsink() ? 2 : 0; };
    for(size_t i = 0; i < g.n.size(); ++i) {
        auto x = node(i);
        REQUIRE(kind(x) == g.n[i].kind, "navigation", "node %zu has another kind", i);
        if(g.n[i].kind) continue;
        REQUIRE(x.variable() == g.n[i].var, "navigation", "variable of node %zu", i);
        REQUIRE(x.lo() == node(g.n[i].lo) && x.low() == node(g.n[i].lo) && x.hi() == node(g.n[i].hi) && x.high() == node(g.n[i].hi), "navigation", "successors of node %zu", i);
        REQUIRE(x.lo() != x.hi(), "navigation", "equal successors");
        REQUIRE(std::hash<bdd_collection_node>()(x) == std::hash<bdd_collection_node>()(node(i)), "navigation", "equal node handles hash differently");
    }
    REQUIRE(e.topsink().is_topsink() && e.topsink().is_terminal() && !e.topsink().is_botsink(), "navigation", "true terminal");
    REQUIRE(e.botsink().is_botsink() && e.botsink().is_terminal() && !e.botsink().is_topsink(), "navigation", "false terminal");
    REQUIRE(e.root_node() == node(0), "navigation", "root");
    if(g.n.size() > 2) { // all inner nodes, successors first, ending with the root
        std::vector<bdd_collection_node> seen; auto x = e.first_node_postorder(); size_t cnt = 0;
        std::unordered_set<bdd_collection_node> done;
        for(;;) {
            ++cnt; REQUIRE(cnt <= g.n.size() - 2, "navigation", "postorder has too many nodes");
            REQUIRE(!x.is_terminal() && done.insert(x).second, "navigation", "postorder repeats a node or meets a terminal");
            auto lo = x.lo(), hi = x.hi();
            REQUIRE((lo.is_terminal() || done.count(lo)) && (hi.is_terminal() || done.count(hi)), "navigation", "postorder meets a node before its successor");
            if(x == e.root_node()) break;
            auto y = x.next_postorder(); x = y;
        }
        REQUIRE(cnt == g.n.size() - 2, "navigation", "postorder lists %zu of %zu nodes", cnt, g.n.size() - 2);
    }
    count("navigated_nodes", g.n.size());
}
// large entries: navigation through the views, and re-routed arcs judged against a copy of the instruction list
static void scale(Case& c)
{
    SWorld w = make_scale(c); w.coll_limit = 6;
    const int steps = w.target > 20000 ? c.rng.range(1, 3) : c.rng.range(3, 10);
    for(int q = 0; q < steps; ++q) {
        if(c.rng.chance(60)) w.coll_add(w.generate()); else w.coll_step();
        w.coll_ensure(1); const size_t k = w.epick(); auto e = w.col[k]; auto [b, en] = w.col.get_bdd_instructions(k); const size_t nn = std::distance(b, en), first = w.col.offset(*b);
        op("navigate %zu nodes", nn);
        REQUIRE(e.nr_nodes() == nn && e.root_node() == e[0], "navigation", "root or node count");
        std::vector<bdd_collection_node> h; for(size_t i = 0; i < nn; ++i) h.push_back(e[i]);
        for(size_t i = 0; i < nn; ++i) {
            const auto x = *(b + i);
            REQUIRE(h[i].is_topsink() == x.is_topsink() && h[i].is_botsink() == x.is_botsink() && h[i].is_terminal() == (x.is_topsink() || x.is_botsink()), "navigation", "kind of node %zu", i);
            if(!h[i].is_terminal()) REQUIRE(h[i].lo() == h[x.lo - first] && h[i].hi() == h[x.hi - first] && h[i].variable() == x.index && !(h[i].lo() == h[x.hi - first]), "navigation", "node %zu of %zu", i, nn);
        }
        if(nn > 2) {
            std::unordered_set<bdd_collection_node> done; auto x = e.first_node_postorder();
            for(;;) {
                REQUIRE(!x.is_terminal() && done.insert(x).second, "navigation", "postorder repeats a node or meets a terminal");
                auto lo = x.lo(), hi = x.hi(); REQUIRE((lo.is_terminal() || done.count(lo)) && (hi.is_terminal() || done.count(hi)), "navigation", "postorder meets a node before its successor");
                if(x == e.root_node()) break;
                auto y = x.next_postorder(); x = y;
            }
            REQUIRE(done.size() == nn - 2, "navigation", "postorder lists %zu of %zu nodes", done.size(), nn - 2);
        }
        std::map<size_t, size_t> per; for(size_t i = 0; i < nn; ++i) if(!h[i].is_terminal()) ++per[h[i].variable()];
        int z = 0; for(auto& [v, cnt] : per) if(++z < 5) REQUIRE(e.nr_nodes(v) == cnt, "navigation", "%zu nodes on variable %zu instead of %zu", e.nr_nodes(v), v, cnt);
        count("navigated_nodes", nn); nontrivial(mix(w.R.hash(w.t[k]) + 9)); maximum("entry_nodes", nn);
        if(nn <= 3 || !c.rng.chance(60)) continue;
        // re-route arcs of a copy
        const size_t y = w.coll_add(w.t[k]); auto before = w.digests(); auto ey = w.col[y]; auto [b2, e2] = w.col.get_bdd_instructions(y); const size_t f2 = w.col.offset(*b2);
        struct M { size_t var, lo, hi; int kind; }; std::vector<M> g; size_t top = 0, bot = 0;
        for(size_t i = 0; i < nn; ++i) { const auto x = *(b2 + i); const bool te = x.is_topsink() || x.is_botsink(); if(x.is_topsink()) top = i; if(x.is_botsink()) bot = i; g.push_back({x.index, te ? 0 : x.lo - f2, te ? 0 : x.hi - f2, x.is_topsink() ? 1 : x.is_botsink() ? 2 : 0}); }
        const int ch = c.rng.range(1, 40);
        for(int i = 0; i < ch; ++i) {
            const size_t a = c.rng.below(nn); if(g[a].kind) continue; auto x = ey[a]; size_t to; const bool lo = c.rng.chance(50);
            if(c.rng.chance(50)) { to = c.rng.chance(50) ? top : bot; if(to == (lo ? g[a].hi : g[a].lo)) continue; if(lo) { if(to == top) x.set_lo_to_1_terminal(); else x.set_lo_to_0_terminal(); } else { if(to == top) x.set_hi_to_1_terminal(); else x.set_hi_to_0_terminal(); } }
            else { to = a + 1 + c.rng.below(nn - a - 1); if(!g[to].kind && g[to].var <= g[a].var) continue; if(to == (lo ? g[a].hi : g[a].lo)) continue; auto t = ey[to]; if(lo) x.set_lo_arc(t); else x.set_hi_arc(t); }
            (lo ? g[a].lo : g[a].hi) = to; note(a); note(to); count("reroutes");
        }
        { auto [b3, e3] = w.col.get_bdd_instructions(y); REQUIRE(size_t(std::distance(b3, e3)) == nn, "reroute", "node count"); for(size_t i = 0; i < nn; ++i) { const auto x = *(b3 + i); REQUIRE((x.is_topsink() ? 1 : x.is_botsink() ? 2 : 0) == g[i].kind && (g[i].kind || (x.index == g[i].var && x.lo - f2 == g[i].lo && x.hi - f2 == g[i].hi)), "reroute", "node %zu of %zu after re-routing", i, nn); } }
        std::vector<id> v(nn); for(size_t i = nn; i-- > 0;) v[i] = g[i].kind ? id(g[i].kind == 1) : w.R.mk(g[i].var, v[g[i].lo], v[g[i].hi]);
        for(int j = 0; j < 12; ++j) { w.draw(v[0]); REQUIRE(w.col.evaluate(y, w.lab.begin(), w.lab.end()) == w.R.eval(v[0], w.lab), "reroute", "evaluation of the re-routed diagram"); }
        if(v[0] >= 2) w.need_var(w.R.support(v[0]).back());
        for(auto& x : g) if(!x.kind) w.need_var(x.var);
        w.put("export", c.rng.chance(50) ? w.col.export_bdd(w.m, y) : w.m.add_bdd(w.col, y), v[0]);
        auto after = w.digests(); after.pop_back(); before.pop_back(); REQUIRE(after == before, "changed", "re-routing one entry changed another");
        w.t.pop_back(); size_t d[1] = {y};
        std::set<std::array<size_t, 3>> eq; bool dup = false; for(auto& x : g) if(!x.kind && !eq.insert({x.var, x.lo, x.hi}).second) dup = true;
        if(dup) return; // equal nodes: the diagram cannot be removed again, and the case ends
        w.col.remove(d, d + 1); REQUIRE(w.col.nr_bdds() == w.t.size(), "changed", "removing the re-routed entry");
    }
    w.check_coll();
}
// variables up to 2^62: navigation and re-routing in collections without a manager
static void wide_nav(Case& c)
{
    Wide w(c.rng, c.rng.range(1, 7)); const int steps = c.rng.range(4, 16);
    for(int q = 0; q < steps; ++q) {
        w.step({3, 2, 1, 1, 2, 2, 1, 0}); if(w.t.empty()) continue;
        const size_t k = c.rng.below(w.t.size()); auto x = w.contents(k); auto e = w.col[k]; op("navigate entry %zu", k);
        std::vector<bdd_collection_node> h; for(size_t i = 0; i < x.size(); ++i) h.push_back(e[i]);
        auto kind = [&](size_t i) { return x[i][2] == bdd_instruction::topsink_index ? 1 : x[i][2] == bdd_instruction::botsink_index ? 2 : 0; };
        for(size_t i = 0; i < x.size(); ++i) {
            REQUIRE(h[i].is_topsink() == (kind(i) == 1) && h[i].is_botsink() == (kind(i) == 2) && h[i].is_terminal() == (kind(i) != 0), "navigation", "kind of node %zu", i);
            if(!kind(i)) REQUIRE(h[i].variable() == x[i][2] && h[i].lo() == h[x[i][0]] && h[i].hi() == h[x[i][1]] && h[i].low() == h[x[i][0]] && h[i].high() == h[x[i][1]], "navigation", "node %zu", i);
        }
        REQUIRE(e.root_node() == h[0] && e.topsink().is_topsink() && e.botsink().is_botsink(), "navigation", "root or terminals");
        std::map<size_t, size_t> per; for(size_t i = 0; i < x.size(); ++i) if(!kind(i)) ++per[x[i][2]];
        for(size_t v : w.vs) for(size_t u : {v, v + (size_t(1) << 32), v + 65536, v & 0xffffffff, v & 0xffff, v + 1}) if(u < bdd_instruction::botsink_index) REQUIRE(e.nr_nodes(u) == (per.count(u) ? per[u] : 0), "navigation", "%zu nodes counted on variable %zu", e.nr_nodes(u), u);
        if(x.size() > 2) {
            std::unordered_set<bdd_collection_node> done; auto y = e.first_node_postorder();
            for(;;) { REQUIRE(!y.is_terminal() && done.insert(y).second, "navigation", "postorder repeats a node or meets a terminal"); auto lo = y.lo(), hi = y.hi(); REQUIRE((lo.is_terminal() || done.count(lo)) && (hi.is_terminal() || done.count(hi)), "navigation", "postorder meets a node before its successor"); if(y == e.root_node()) break; auto z = y.next_postorder(); y = z; }
            REQUIRE(done.size() == x.size() - 2, "navigation", "postorder lists %zu nodes", done.size());
        }
        count("navigated_nodes", x.size()); nontrivial(mix(w.t[k].hash() ^ mix(w.vs.back())));
        if(x.size() <= 3 || !c.rng.chance(60)) continue;
        w.build(w.t[k]); const size_t y = w.t.size() - 1; auto before = w.snapshot(); auto g = w.contents(y); auto ey = w.col[y]; size_t top = 0, bot = 0;
        for(size_t i = 0; i < g.size(); ++i) { if(g[i][2] == bdd_instruction::topsink_index) top = i; if(g[i][2] == bdd_instruction::botsink_index) bot = i; }
        for(int i = 0; i < 8; ++i) {
            const size_t a = c.rng.below(g.size() - 2); auto n = ey[a]; const bool lo = c.rng.chance(50); size_t to = c.rng.chance(50) ? (c.rng.chance(50) ? top : bot) : a + 1 + c.rng.below(g.size() - a - 1);
            if(to == g[a][lo ? 1 : 0] || (to != top && to != bot && g[to][2] <= g[a][2])) continue;
            op("arc %d of node %zu to %zu", int(!lo), a, to);
            if(to == top) { if(lo) n.set_lo_to_1_terminal(); else n.set_hi_to_1_terminal(); } else if(to == bot) { if(lo) n.set_lo_to_0_terminal(); else n.set_hi_to_0_terminal(); }
            else { auto z = ey[to]; if(lo) n.set_lo_arc(z); else n.set_hi_arc(z); }
            g[a][lo ? 0 : 1] = to; count("reroutes");
        }
        REQUIRE(w.contents(y) == g, "reroute", "entry %zu after re-routing", y);
        for(size_t a = 0; a < (size_t(1) << w.n); ++a) {
            size_t i = 0; while(i != top && i != bot) i = g[i][(a >> w.inv[g[i][2]]) & 1];
            REQUIRE(w.col.evaluate(y, Wide::At{&w, a, 0}, Wide::At{&w, a, std::numeric_limits<ptrdiff_t>::max()}) == (i == top), "reroute", "evaluation of the re-routed diagram");
        }
        auto after = w.snapshot(); after.pop_back(); before.pop_back(); REQUIRE(after == before, "changed", "re-routing one entry changed another");
        std::set<std::array<size_t, 3>> eq; bool dup = false; for(auto& z : g) if(z[0] != z[1] && !eq.insert(z).second) dup = true;
        w.t.pop_back(); if(dup) return; // equal nodes: the entry cannot be removed again, and the case ends
        size_t d[1] = {y}; w.col.remove(d, d + 1); REQUIRE(w.col.nr_bdds() == w.t.size(), "changed", "removing the re-routed entry");
    }
    w.check_all();
}
void run_case(Case& c)
{ if(args.mode == "wide") { wide_nav(c); return; }
  if(args.mode.rfind("scale", 0) == 0) { scale(c); return; }
    CollWorld w(c.rng.range(1, 7), c.rng, c.rng.chance(40) ? 6 : 0);
    w.w.start(); w.limit = 25;
    const int steps = c.rng.range(8, 30);
    for(int q = 0; q < steps; ++q) {
        w.coll_step(); w.ensure(1);
        const size_t k = c.rng.chance(50) ? w.t.size() - 1 : c.rng.below(w.t.size());
        op("navigate entry %zu", k); navigate(w, k);
        nontrivial(w.t[k].hash());
        if(!w.exact[k] || w.col.nr_bdd_nodes(k) <= 2 || !c.rng.chance(50)) continue;
        // re-route some arcs of a copy and compare with the model; then throw the copy away
        for(size_t v : w.w.vmap) w.w.need_var(v);
        const size_t z = w.col.add_bdd(w.col.export_bdd(w.w.m, k));
        auto before = w.snapshot();
        G g = read(w, z);
        std::vector<bdd_collection_node> h; { auto e = w.col[z]; for(size_t i = 0; i < g.n.size(); ++i) h.push_back(e[i]); }
        const size_t inner = g.n.size() - 2; size_t top = 0, bot = 0; for(size_t i = 0; i < g.n.size(); ++i) { if(g.n[i].kind == 1) top = i; if(g.n[i].kind == 2) bot = i; }
        const int ch = c.rng.range(1, 6);
        for(int i = 0; i < ch; ++i) {
            const size_t a = c.rng.below(inner); auto& x = h[a];
            // keep the two successors of a node different
            auto ok = [&](size_t lo, size_t hi) { return lo != hi; };
            switch(c.rng.below(6)) {
                case 0: if(ok(top, g.n[a].hi)) { op("set_lo_to_1(%zu)", a); x.set_lo_to_1_terminal(); g.n[a].lo = top; } break;
                case 1: if(ok(bot, g.n[a].hi)) { op("set_lo_to_0(%zu)", a); x.set_lo_to_0_terminal(); g.n[a].lo = bot; } break;
                case 2: if(ok(g.n[a].lo, top)) { op("set_hi_to_1(%zu)", a); x.set_hi_to_1_terminal(); g.n[a].hi = top; } break;
                case 3: if(ok(g.n[a].lo, bot)) { op("set_hi_to_0(%zu)", a); x.set_hi_to_0_terminal(); g.n[a].hi = bot; } break;
                case 4: case 5: {
                    std::vector<size_t> below; for(size_t b = a + 1; b < g.n.size(); ++b) if(g.n[b].kind || g.n[b].var > g.n[a].var) below.push_back(b);
                    const size_t b = below[c.rng.below(below.size())];
                    if(c.rng.chance(50)) { if(ok(b, g.n[a].hi)) { op("set_lo_arc(%zu,%zu)", a, b); x.set_lo_arc(h[b]); g.n[a].lo = b; } } else if(ok(g.n[a].lo, b)) { op("set_hi_arc(%zu,%zu)", a, b); x.set_hi_arc(h[b]); g.n[a].hi = b; }
                    break; }
            }
            count("reroutes");
        }
        for(size_t i = 0; i < g.n.size(); ++i) if(!g.n[i].kind) REQUIRE(h[i].lo() == h[g.n[i].lo] && h[i].hi() == h[g.n[i].hi] && h[i].variable() == g.n[i].var, "reroute", "node %zu after re-routing", i);
        TT u(w.n);
        for(size_t a = 0; a < (size_t(1) << w.n); ++a) { auto l = w.labeling(a); const bool e = interpret(g, l); u.set(a, e); REQUIRE(w.col.evaluate(z, l.begin(), l.end()) == e, "reroute", "re-routed diagram evaluates to %d at assignment %zx", int(!e), a); }
        REQUIRE(w.col.export_bdd(w.w.m, z) == w.w.from_tt(u), "reroute", "export of the re-routed diagram is not the diagram of its function");
        REQUIRE(w.w.m.add_bdd(w.col, z) == w.w.from_tt(u), "reroute", "import of the re-routed diagram is not the diagram of its function");
        auto after = w.snapshot(); after.pop_back(); before.pop_back();
        REQUIRE(after == before, "changed", "re-routing one entry changed another");
        if(c.rng.chance(60) || w.has_equal_nodes(z) || !w.removable()) { w.t.push_back(u); w.exact.push_back(0); const size_t j = c.rng.below(w.t.size()); op("and with the re-routed entry"); const TT t = w.t[z] & w.t[j]; w.record("and of re-routed", w.col.bdd_and(z, j), t); }
        else { size_t d[1] = {z}; op("remove the re-routed entry"); w.col.remove(d, d + 1); }
    }
    w.check_all();
}
void end_of_chunk() {}
