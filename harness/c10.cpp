// C10: the textual graph written for a diagram is that diagram.
#include "coll.h"
#include "dot.h"
#include <sstream>
#include "scale.h"
#include "wide.h"
using namespace H;

static void check_print(World& w, const World::E& e)
{
    std::ostringstream s; node_ref h = e.h; h.print(s);
    Dot d(s.str());
    if(h.is_terminal()) { REQUIRE(d.edges.empty(), "print", "arcs printed for a constant"); return; }
    struct N { size_t var = 0; std::string c[2]; bool has[2] = {false, false}; };
    std::map<std::string, N> g; std::set<std::string> target;
    for(auto& x : d.edges) {
        const std::string l = attr_value(x.attr, "label");
        REQUIRE(l == "0" || l == "1", "print", "arc label '%s'", l.c_str());
        N& nd = g[x.a]; const int b = l == "1";
        REQUIRE(!nd.has[b], "print", "two %s-arcs leave one node", l.c_str());
        nd.has[b] = true; nd.c[b] = x.b; nd.var = strtoull(x.a.c_str(), nullptr, 10); target.insert(x.b);
    }
    REQUIRE(g.size() == h.nr_nodes(), "print", "%zu nodes printed of %zu", g.size(), h.nr_nodes());
    std::string root; int roots = 0;
    for(auto& [id, nd] : g) { REQUIRE(nd.has[0] && nd.has[1], "print", "a node lacks an arc"); if(!target.count(id)) { root = id; ++roots; } }
    REQUIRE(roots == 1, "print", "%d nodes without incoming arc", roots);
    for(size_t a = 0; a < (size_t(1) << w.n); ++a) {
        std::string x = root; auto l = w.labeling(a);
        for(int k = 0; x != "top" && x != "bot"; ++k) {
            auto it = g.find(x); REQUIRE(it != g.end(), "print", "arc to an unknown node %s", x.c_str()); REQUIRE(k <= w.n, "print", "path longer than the number of variables");
            REQUIRE(it->second.var < l.size(), "print", "variable %zu", it->second.var);
            x = it->second.c[int(l[it->second.var])];
        }
        REQUIRE((x == "top") == e.t.bit(a), "print", "printed graph gives %s at assignment %zx", x.c_str(), a);
    }
    count("printed"); nontrivial(mix(e.t.hash() ^ 3));
}
static void check_graphviz(CollWorld& w, size_t k)
{
    std::ostringstream s; w.col.export_graphviz(k, s);
    Dot d(s.str());
    std::map<std::string, std::string> label; std::map<std::string, std::array<std::string, 2>> arc; std::set<std::string> target;
    for(auto& [id, at] : d.nodes) REQUIRE(label.emplace(id, attr_value(at, "label")).second, "graphviz", "node %s listed twice", id.c_str());
    size_t tops = 0, bots = 0;
    for(auto& [id, l] : label) { tops += l == "top"; bots += l == "bot"; }
    REQUIRE(tops == 1 && bots == 1, "graphviz", "%zu top and %zu bot nodes", tops, bots);
    REQUIRE(label.size() == w.col.nr_bdd_nodes(k), "graphviz", "%zu nodes listed of %zu", label.size(), w.col.nr_bdd_nodes(k));
    for(auto& e : d.edges) {
        const std::string st = attr_value(e.attr, "style");
        REQUIRE(label.count(e.a) && label.count(e.b), "graphviz", "arc between unknown nodes");
        if(st == "invis") continue;
        const int b = st == "dashed" ? 0 : 1;
        REQUIRE(arc[e.a][b].empty(), "graphviz", "two arcs of one kind leave node %s", e.a.c_str());
        arc[e.a][b] = e.b; target.insert(e.b);
    }
    std::string root; int roots = 0;
    for(auto& [id, l] : label) if(l != "top" && l != "bot") { REQUIRE(!arc[id][0].empty() && !arc[id][1].empty(), "graphviz", "node %s lacks an arc", id.c_str()); if(!target.count(id)) { root = id; ++roots; } }
    if(label.size() > 2) REQUIRE(roots == 1, "graphviz", "%d inner nodes without incoming arc", roots); else { count("graphviz_constant"); return; }
    for(size_t a = 0; a < (size_t(1) << w.n); ++a) {
        std::string x = root; auto l = w.labeling(a);
        for(int q = 0; label[x] != "top" && label[x] != "bot"; ++q) { REQUIRE(q <= w.n, "graphviz", "path too long"); const size_t v = strtoull(label[x].c_str(), nullptr, 10); REQUIRE(v < l.size(), "graphviz", "label %s", label[x].c_str()); x = arc[x][int(l[v])]; }
        REQUIRE((label[x] == "top") == w.t[k].bit(a), "graphviz", "exported graph gives %s at assignment %zx", label[x].c_str(), a);
    }
    count("graphviz"); nontrivial(mix(w.t[k].hash() ^ 5));
}
// large diagrams and entries: every name is one node, walked next to the real diagram
static void scale_print(SWorld& w, node_ref h, id f)
{
    std::ostringstream s; h.print(s); Dot d(s.str());
    if(f < 2) { REQUIRE(d.edges.empty(), "print", "arcs printed for a constant"); return; }
    struct N { std::string c[2]; }; std::unordered_map<std::string, N> g; std::unordered_set<std::string> target;
    for(auto& x : d.edges) {
        const std::string l = attr_value(x.attr, "label"); REQUIRE(l == "0" || l == "1", "print", "arc label '%s'", l.c_str());
        std::string& t = g[x.a].c[l == "1"]; REQUIRE(t.empty(), "print", "two %s-arcs leave one printed node", l.c_str()); t = x.b; target.insert(x.b);
    }
    REQUIRE(g.size() == w.R.size(f), "print", "%zu nodes printed of %zu", g.size(), w.R.size(f));
    std::string root; for(auto& [x, nd] : g) { REQUIRE(!nd.c[0].empty() && !nd.c[1].empty(), "print", "a printed node lacks an arc"); if(!target.count(x)) { REQUIRE(root.empty(), "print", "two printed nodes without incoming arc"); root = x; } }
    std::unordered_map<std::string, id> is{{"top", 1}, {"bot", 0}, {root, f}}; std::vector<std::string> st{root};
    while(!st.empty()) {
        const std::string x = st.back(); st.pop_back(); const auto& nd = w.R.n[is[x]]; REQUIRE(strtoull(x.c_str(), nullptr, 10) == nd.var, "print", "printed node %s stands for a node on variable %zu", x.c_str(), nd.var);
        for(int b = 0; b < 2; ++b) { const std::string& y = g[x].c[b]; const id z = b ? nd.hi : nd.lo; auto [it, fresh] = is.emplace(y, z); REQUIRE(it->second == z, "print", "one printed name (%s) stands for two nodes", y.c_str()); if(fresh) { REQUIRE(g.count(y), "print", "arc to an unknown node"); st.push_back(y); } }
    }
    count("printed"); maximum("printed_nodes", g.size()); nontrivial(mix(w.R.hash(f) + 3));
}
static void scale_graphviz(SWorld& w, size_t k)
{
    const id f = w.t[k]; std::ostringstream s; w.col.export_graphviz(k, s); Dot d(s.str());
    std::unordered_map<std::string, std::string> label; struct N { std::string c[2]; }; std::unordered_map<std::string, N> g; std::unordered_set<std::string> target; size_t tops = 0, bots = 0;
    for(auto& [i, at] : d.nodes) { const std::string l = attr_value(at, "label"); REQUIRE(label.emplace(i, l).second, "graphviz", "node %s listed twice", i.c_str()); tops += l == "top"; bots += l == "bot"; }
    REQUIRE(tops == 1 && bots == 1 && label.size() == w.R.size(f) + 2, "graphviz", "%zu nodes listed of %zu (%zu top, %zu bot)", label.size(), w.R.size(f) + 2, tops, bots);
    for(auto& e : d.edges) { const std::string st = attr_value(e.attr, "style"); REQUIRE(label.count(e.a) && label.count(e.b), "graphviz", "arc between unknown nodes"); if(st == "invis") continue; std::string& t = g[e.a].c[st != "dashed"]; REQUIRE(t.empty(), "graphviz", "two arcs of one kind leave node %s", e.a.c_str()); t = e.b; target.insert(e.b); }
    if(f < 2) { count("graphviz_constant"); return; }
    std::string root; for(auto& [i, l] : label) if(l != "top" && l != "bot") { REQUIRE(g.count(i) && !g[i].c[0].empty() && !g[i].c[1].empty(), "graphviz", "node %s lacks an arc", i.c_str()); if(!target.count(i)) { REQUIRE(root.empty(), "graphviz", "two roots"); root = i; } }
    REQUIRE(g.size() == w.R.size(f), "graphviz", "arcs leave %zu nodes of %zu", g.size(), w.R.size(f));
    std::unordered_map<std::string, id> is{{root, f}}; std::vector<std::string> st{root};
    while(!st.empty()) {
        const std::string x = st.back(); st.pop_back(); const id v = is[x]; const std::string& l = label[x]; if(v < 2) { REQUIRE(l == (v ? "top" : "bot"), "graphviz", "node %s should be a terminal", x.c_str()); continue; }
        REQUIRE(l != "top" && l != "bot" && strtoull(l.c_str(), nullptr, 10) == w.R.n[v].var, "graphviz", "label %s for a node on variable %zu", l.c_str(), w.R.n[v].var);
        for(int b = 0; b < 2; ++b) { const std::string& y = g[x].c[b]; const id z = b ? w.R.n[v].hi : w.R.n[v].lo; auto [it, fresh] = is.emplace(y, z); REQUIRE(it->second == z, "graphviz", "node %s stands for two nodes", y.c_str()); if(fresh) st.push_back(y); }
    }
    count("graphviz"); maximum("exported_nodes", g.size()); nontrivial(mix(w.R.hash(f) + 5));
}
static void scale(Case& c)
{
    SWorld w = make_scale(c); w.coll_limit = 5;
    const int steps = w.target > 20000 ? c.rng.range(1, 3) : c.rng.range(2, 8);
    for(int k = 0; k < steps; ++k) {
        if(c.rng.chance(60)) w.do_generate(); else w.step();
        const auto e = w.pool[c.rng.chance(70) ? w.pool.size() - 1 : w.pick()]; op("print %zu nodes", w.R.size(e.f)); scale_print(w, e.h, e.f);
        if(c.rng.chance(50)) w.coll_add(e.f); else w.coll_step();
        w.coll_ensure(1); const size_t j = w.epick(); op("graphviz %zu", j); scale_graphviz(w, j);
    }
    w.check_all(); w.check_coll();
}
void run_case(Case& c)
{ if(args.mode == "wide") { wide(c, {6, 2, 1, 1, 2, 3, 1, 12}); return; } if(args.mode.rfind("scale", 0) == 0) { scale(c); return; }
    CollWorld w(c.rng.range(1, 7), c.rng, c.rng.chance(40) ? 6 : 0);
    w.w.start(); w.w.pool_limit = 20;
    const int steps = c.rng.range(8, 30);
    for(int k = 0; k < steps; ++k) {
        w.w.boolean_step();
        const World::E e = w.w.pool[w.w.pick()];
        op("print and check"); check_print(w.w, e); 
        w.coll_step();
        const size_t j = c.rng.below(w.t.size());
        op("graphviz of entry %zu", j); check_graphviz(w, j);
    }
    w.w.check_pool(false); w.check_all();
}
void end_of_chunk() {}
