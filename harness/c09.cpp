// C09: traversals and structural queries.
#include "world.h"
#include <sstream>
#include <deque>
#include "scale.h"
using namespace H;

struct Dag { // independent breadth-first exploration through low/high
    std::unordered_map<node*, size_t> dist; std::vector<node_ref> nodes; std::set<size_t> vars;
    explicit Dag(node_ref f)
    {
        if(f.is_terminal()) return;
        std::deque<node_ref> q{f}; dist[f.address()] = 0;
        while(!q.empty()) {
            node_ref x = q.front(); q.pop_front(); nodes.push_back(x); vars.insert(x.variable());
            const size_t d = dist[x.address()];
            node_ref ch[2] = {x.low(), x.high()};
            for(auto& y : ch) if(!y.is_terminal() && !dist.count(y.address())) { dist[y.address()] = d + 1; q.push_back(y); }
        }
    }
};
static void no_marks(const Dag& d, bdd_mgr& m, const char* after)
{
    for(auto& x : d.nodes) REQUIRE(!x.marked(), "mark-left", "a node is still marked after %s", after);
    REQUIRE(!m.topsink().marked() && !m.botsink().marked(), "mark-left", "a terminal is marked after %s", after);
}
static void check(bdd_mgr& m, node_ref f, Rng& r)
{
    const Dag d(f);
    std::vector<node_ref> other; for(size_t k = 0; k < 3 && m.nr_variables(); ++k) { auto x = m.projection(r.below(m.nr_variables())); if(!d.dist.count(x.address())) other.push_back(x); }
    const size_t nn = m.nr_nodes();
    std::vector<int> order = {0, 1, 2, 3, 4, 5, 6};
    for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for(int o : order) switch(o) {
        case 0: {
            auto v = f.nodes_postorder(); std::unordered_map<node*, size_t> pos;
            for(size_t i = 0; i < v.size(); ++i) {
                REQUIRE(!v[i].is_terminal() && d.dist.count(v[i].address()), "postorder", "postorder lists a node that is not an inner node of the diagram");
                REQUIRE(pos.emplace(v[i].address(), i).second, "postorder", "postorder lists a node twice");
                node_ref ch[2] = {v[i].low(), v[i].high()};
                for(auto& y : ch) REQUIRE(y.is_terminal() || pos.count(y.address()), "postorder", "postorder lists a node before its successor");
            }
            REQUIRE(v.size() == d.nodes.size(), "postorder", "postorder lists %zu of %zu nodes", v.size(), d.nodes.size());
            if(!v.empty()) REQUIRE(v.back() == f, "postorder", "postorder does not end with the root");
            no_marks(d, m, "postorder"); count("postorder"); break; }
        case 1: {
            auto v = f.nodes_bfs(); std::unordered_set<node*> s; size_t last = 0;
            for(auto& x : v) {
                auto it = d.dist.find(x.address());
                REQUIRE(!x.is_terminal() && it != d.dist.end(), "bfs", "breadth-first order lists a node that is not an inner node of the diagram");
                REQUIRE(s.insert(x.address()).second, "bfs", "breadth-first order lists a node twice");
                REQUIRE(it->second >= last, "bfs", "breadth-first order lists a node at distance %zu after one at distance %zu", it->second, last); last = it->second;
            }
            REQUIRE(v.size() == d.nodes.size(), "bfs", "breadth-first order lists %zu of %zu nodes", v.size(), d.nodes.size());
            if(!v.empty()) REQUIRE(v.front() == f, "bfs", "breadth-first order does not start with the root");
            no_marks(d, m, "breadth-first order"); count("bfs"); break; }
        case 2: REQUIRE(f.nr_nodes() == d.nodes.size(), "nr_nodes", "%zu nodes counted instead of %zu", f.nr_nodes(), d.nodes.size()); no_marks(d, m, "counting"); count("nr_nodes"); break;
        case 3: { auto v = f.variables(); REQUIRE(v == std::vector<size_t>(d.vars.begin(), d.vars.end()), "variables", "variables of a diagram: %zu listed, %zu expected (sorted, without repetition)", v.size(), d.vars.size()); no_marks(d, m, "variables"); count("variables"); break; }
        case 4: {
            // exactly one assignment of the variables in the diagram satisfies it: count paths with skipped levels
            std::vector<size_t> vs(d.vars.begin(), d.vars.end()); std::unordered_map<size_t, int> lv; for(size_t i = 0; i < vs.size(); ++i) lv[vs[i]] = i;
            std::unordered_map<node*, int> sol; // 0, 1, 2 = many, at own level
            auto lev = [&](node_ref x) { return x.is_terminal() ? int(vs.size()) : lv[x.variable()]; };
            for(size_t i = d.nodes.size(); i-- > 0;) (void)i;
            std::vector<node_ref> by(d.nodes); std::sort(by.begin(), by.end(), [](const node_ref& a, const node_ref& b) { return a.variable() > b.variable(); });
            auto get = [&](node_ref x, int from) { int s = x.is_topsink() ? 1 : x.is_botsink() ? 0 : sol[x.address()]; return s == 0 ? 0 : (lev(x) > from ? 2 : s); };
            for(auto& x : by) { const int l = lv[x.variable()]; sol[x.address()] = std::min(2, get(x.low(), l + 1) + get(x.high(), l + 1)); }
            const bool e = f.is_topsink() ? true : f.is_botsink() ? false : sol[f.address()] == 1;
            REQUIRE(f.exactly_one_solution() == e, "exactly-one", "exactly_one_solution is %d, %s", int(f.exactly_one_solution()), e ? "one assignment satisfies" : "not exactly one assignment satisfies");
            count(e ? "exactly_one_true" : "exactly_one_false"); break; }
        case 6: { // marks set on a whole diagram reach its inner nodes, and only them
            f.address()->mark(); if(r.chance(30)) f.address()->mark();
            for(auto& x : d.nodes) REQUIRE(x.marked() && x.address()->marked(), "marking", "a node of a marked diagram is not marked");
            for(auto& x : other) REQUIRE(!x.marked(), "marking", "a node outside of a marked diagram is marked");
            REQUIRE(!m.topsink().marked() && !m.botsink().marked(), "marking", "a terminal of a marked diagram is marked");
            if(r.chance(50)) f.unmark_rec(); else f.address()->unmark();
            no_marks(d, m, "marking and unmarking"); count("marked_diagrams"); break; }
        default: { std::ostringstream s; f.print(s); no_marks(d, m, "printing"); break; }
    }
    REQUIRE(m.nr_nodes() == nn, "count-changed", "a query changed the manager's node count");
    maximum("nodes", d.nodes.size());
    nontrivial(mix(shape(f) + d.nodes.size()));
}
static void hist(Case& c)
{
    const bool large = args.mode == "big";
    World w(large ? c.rng.range(8, c.thorough ? 14 : 12) : c.rng.range(1, 7), c.rng, c.rng.chance(40) ? 5 : 0);
    check(w.m, w.m.topsink(), c.rng); check(w.m, w.m.botsink(), c.rng);
    w.start();
    w.pool_limit = 24;
    const int steps = large ? c.rng.range(4, 12) : c.rng.range(10, 50);
    for(int k = 0; k < steps; ++k) {
        if(large && c.rng.chance(40)) w.do_random_function(); else w.boolean_step();
        if(c.rng.chance(20)) { // a cube of literals, sometimes spoiled
            std::vector<node_ref> l; TT t(w.n, true);
            for(int i = 0; i < w.n; ++i) if(c.rng.chance(60)) { w.need_var(w.vmap[i]); const bool p = c.rng.chance(50); t = t & (p ? TT::var(w.n, i) : ~TT::var(w.n, i)); }
            if(c.rng.chance(30)) { const int i = c.rng.below(w.n); t = t | (TT::var(w.n, i) & TT::random(w.n, c.rng) & TT::random(w.n, c.rng)); }
            op("#%zu = cube %s", w.pool.size(), t.str().c_str()); w.put("cube", w.from_tt(t), t);
        }
        const size_t q = c.rng.range(1, 3);
        for(size_t i = 0; i < q; ++i) { const size_t a = i == 0 ? w.pool.size() - 1 : w.pick(); op("query #%zu", a); check(w.m, w.pool[a].h, c.rng); }
        if(c.rng.chance(5)) { w.drop_many(); w.do_gc(); }
    }
    w.check_pool(false);
}
// long thin diagrams
static void chain(Case& c)
{
    bdd_mgr m;
    const int n = c.rng.range(2, c.thorough ? 4000 : 1500);
    m.projection(n - 1);
    const int kind = c.rng.below(4);
    node_ref f = m.topsink(), g = m.botsink();
    for(int i = n; i-- > 0;) {
        if(kind == 3 && c.rng.chance(30)) continue;
        if(kind == 0) f = m.unique_find(i, m.botsink(), f);
        else if(kind == 1) f = m.unique_find(i, f, m.botsink());
        else if(kind == 2) { node_ref a = m.unique_find(i, f, g), b = m.unique_find(i, g, f); f = a; g = b; }
        else f = c.rng.chance(99) ? (c.rng.chance(50) ? m.unique_find(i, m.botsink(), f) : m.unique_find(i, f, m.botsink())) : m.unique_find(i, m.topsink(), f);
    }
    op("chain kind %d over %d variables", kind, n);
    check(m, f, c.rng);
    if(!f.is_terminal()) { check(m, f.low(), c.rng); check(m, f.high(), c.rng); check(m, f, c.rng); }
    count("chains");
}
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(2, 4) : c.rng.range(4, 12);
    for(int k = 0; k < steps; ++k) {
        if(c.rng.chance(50)) w.do_generate(); else w.step();
        const size_t a = c.rng.chance(70) ? w.pool.size() - 1 : w.pick(); op("query #%zu", a); check(w.m, w.pool[a].h, c.rng);
        if(w.R.size(w.pool[a].f) > 20000) count("large_queries");
    }
    w.check_all();
}
void run_case(Case& c) { if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } if(args.mode == "chain") chain(c); else hist(c); }
void end_of_chunk() {}
