// Collections whose variables lie anywhere up to 2^62: entries are built node by node, so no manager has to hold the variables.
#pragma once
#include "world.h"
#include "bdd_collection.h"
#include "dot.h"
#include <sstream>
namespace H {
using BDD::bdd_collection; using BDD::bdd_collection_node; using BDD::bdd_instruction;

struct Wide {
    Rng& r; int n; std::vector<size_t> vs; std::unordered_map<size_t, int> inv; bdd_collection col; std::vector<TT> t; size_t limit = 30;
    // an assignment given as a function of the position: only the variables in use have a value
    struct At {
        using iterator_category = std::random_access_iterator_tag; using value_type = char; using difference_type = ptrdiff_t; using pointer = const char*; using reference = char;
        const Wide* w; size_t a; ptrdiff_t pos;
        At operator+(ptrdiff_t k) const { return {w, a, pos + k}; }
        ptrdiff_t operator-(const At& o) const { return pos - o.pos; }
        bool operator==(const At& o) const { return pos == o.pos; } bool operator!=(const At& o) const { return pos != o.pos; } bool operator<(const At& o) const { return pos < o.pos; }
        At& operator++() { ++pos; return *this; } At& operator--() { --pos; return *this; } At& operator+=(ptrdiff_t k) { pos += k; return *this; } At& operator-=(ptrdiff_t k) { pos -= k; return *this; }
        char operator*() const { auto it = w->inv.find(size_t(pos)); REQUIRE(it != w->inv.end(), "foreign-variable", "the evaluation reads the value of variable %zu", size_t(pos)); return (a >> it->second) & 1; }
        char operator[](ptrdiff_t k) const { return *(*this + k); }
    };
    std::vector<size_t> draw(int k)
    {
        std::set<size_t> s; const int kind = r.below(6); const size_t top = size_t(1) << 62, base = r.below(size_t(1) << 16);
        while(int(s.size()) < k) {
            size_t v = 0;
            switch(kind) {
                case 0: v = r.next() >> r.range(2, 63); break;
                case 1: v = base + (size_t(r.below(1000)) << 16); break;      // alike in the low 16 bits
                case 2: v = base + (size_t(r.below(1000)) << 32); break;      // alike in the low 32 bits
                case 3: { static const int e[] = {7, 8, 15, 16, 20, 31, 32, 33, 53, 61}; v = (size_t(1) << e[r.below(10)]) + r.range(-3, 3); break; } // around sizes of integers
                case 4: v = (base << r.range(0, 44)) + r.below(4); break;
                default: v = r.below(k * 2); break;
            }
            if(v < top) s.insert(v);
        }
        return {s.begin(), s.end()};
    }
    Wide(Rng& r_, int n_) : r(r_), n(n_) { vs = draw(n); for(int i = 0; i < n; ++i) { inv[vs[i]] = i; note(vs[i]); } maximum("largest_variable_log2", 63 - __builtin_clzll(vs.back() + 1)); }

    using Contents = std::vector<std::array<size_t, 3>>;
    Contents contents(size_t k) const
    {
        Contents v; auto [b, e] = col.get_bdd_instructions(k); const size_t first = b == e ? 0 : col.offset(*b);
        for(auto it = b; it != e; ++it) { const bool term = it->is_botsink() || it->is_topsink(); v.push_back({term ? it->lo : it->lo - first, term ? it->hi : it->hi - first, it->index}); }
        return v;
    }
    std::vector<Contents> snapshot() const { std::vector<Contents> s; for(size_t k = 0; k < col.nr_bdds(); ++k) s.push_back(contents(k)); return s; }
    void check_entry(size_t k)
    {
        const Contents x = contents(k); const size_t N = x.size(); std::vector<TT> f(N); std::set<std::array<size_t, 3>> seen; std::vector<size_t> per(n, 0);
        REQUIRE(N >= 2 && N == col.nr_bdd_nodes(k) && N == col[k].nr_nodes(), "wrong-count", "entry %zu has %zu instructions, %zu nodes counted", k, N, col.nr_bdd_nodes(k));
        for(size_t i = N; i-- > 0;) {
            auto& [lo, hi, v] = x[i];
            if(v == bdd_instruction::topsink_index) { f[i] = TT(n, true); continue; }
            if(v == bdd_instruction::botsink_index) { f[i] = TT(n, false); continue; }
            auto it = inv.find(v); REQUIRE(it != inv.end(), "foreign-variable", "a node branches on variable %zu", v);
            REQUIRE(lo > i && hi > i && lo < N && hi < N && lo != hi, "bad-arc", "node %zu of %zu has successors %zu and %zu", i, N, lo, hi);
            REQUIRE(v < x[lo][2] && v < x[hi][2], "not-ordered", "a successor of a node on variable %zu branches on a smaller one", v);
            REQUIRE(seen.insert(x[i]).second, "not-reduced", "entry %zu has two nodes alike", k);
            const TT b = TT::var(n, it->second); f[i] = (b & f[hi]) | (~b & f[lo]); ++per[it->second];
            auto u = col[k][i]; REQUIRE(u.variable() == v && !u.is_terminal(), "node-view", "node %zu of entry %zu", i, k);
        }
        REQUIRE(f[0] == t[k], "wrong-function", "entry %zu denotes %s instead of %s", k, f[0].str().c_str(), t[k].str().c_str());
        const RefBdd ref(t[k]); REQUIRE(N == ref.nodes + 2, "not-reduced", "entry %zu has %zu nodes, the reduced diagram %zu", k, N, ref.nodes + 2);
        std::vector<size_t> vars; for(int i = 0; i < n; ++i) { REQUIRE(per[i] == ref.per_level[i] && col.nr_bdd_nodes(k, vs[i]) == per[i] && col[k].nr_nodes(vs[i]) == per[i], "wrong-count", "nodes of entry %zu on variable %zu", k, vs[i]); if(per[i]) vars.push_back(vs[i]); }
        REQUIRE(col.variables(k) == vars && col[k].variables() == vars, "wrong-variables", "variables of entry %zu", k);
        for(int q = 0; q < 6; ++q) { const size_t a = r.below(size_t(1) << n); REQUIRE(col.evaluate(k, At{this, a, 0}, At{this, a, std::numeric_limits<ptrdiff_t>::max()}) == t[k].bit(a), "wrong-evaluation", "entry %zu at assignment %zx", k, a); }
        count("entries_checked");
    }
    void check_all() { REQUIRE(col.nr_bdds() == t.size() && col.size() == t.size(), "wrong-count", "%zu entries instead of %zu", col.nr_bdds(), t.size()); for(size_t k = 0; k < t.size(); ++k) check_entry(k); }
    void record(const char* what, size_t k, TT u, const std::vector<Contents>& before)
    {
        REQUIRE(k == t.size() && col.nr_bdds() == t.size() + 1, "wrong-index", "%s returned entry %zu of %zu", what, k, col.nr_bdds());
        t.push_back(u); check_entry(k); auto after = snapshot(); after.pop_back(); REQUIRE(after == before, "changed", "%s changed other entries", what);
        nontrivial(mix(u.hash() ^ mix(std::hash<std::string>()(what)) ^ mix(vs.back() + vs[0])));
    }
    TT random_function() { TT u = TT::random(n, r); const int q = r.below(6); if(q == 0) u = TT::var(n, r.below(n)); else if(q == 1) u = u & TT::random(n, r) & TT::random(n, r); else if(q == 2) u = u | TT::random(n, r); if(q > 1) for(int i = 0; i < n; ++i) if(r.chance(30)) u = u.cofactor(i, r.chance(50)); return u; }
    // a reduced diagram, nodes sorted by variable, arcs in random order
    void build(TT u)
    {
        if(u.is_const(false) || u.is_const(true)) { u = TT::var(n, r.below(n)); }
        auto before = snapshot(); op("entry %zu = build(%s)", t.size(), u.str().c_str()); count("built");
        struct N { TT f; int v; }; std::vector<N> nodes; std::unordered_map<TT, size_t, TTHash> idx; std::vector<TT> todo{u};
        auto top = [&](const TT& f) { for(int i = 0; i < n; ++i) if(f.depends(i)) return i; return n; };
        while(!todo.empty()) { TT f = todo.back(); todo.pop_back(); const int v = top(f); if(v == n || !idx.emplace(f, 0).second) continue; nodes.push_back({f, v}); todo.push_back(f.cofactor(v, false)); todo.push_back(f.cofactor(v, true)); }
        std::sort(nodes.begin(), nodes.end(), [](const N& a, const N& b) { return a.v != b.v ? a.v < b.v : a.f < b.f; });
        for(size_t i = 0; i < nodes.size(); ++i) idx[nodes[i].f] = i;
        const size_t z = col.new_bdd(); std::vector<bdd_collection_node> h; std::vector<std::pair<size_t, int>> arcs;
        for(size_t i = 0; i < nodes.size(); ++i) { h.push_back(col.add_bdd_node(vs[nodes[i].v])); REQUIRE(h.back().variable() == vs[nodes[i].v], "builder", "variable of a new node"); arcs.push_back({i, 0}); arcs.push_back({i, 1}); }
        for(size_t x = arcs.size(); x > 1; --x) std::swap(arcs[x - 1], arcs[r.below(x)]);
        auto set = [&](size_t i, int b, const TT& s) {
            if(s.is_const(false)) { if(b) h[i].set_hi_to_0_terminal(); else h[i].set_lo_to_0_terminal(); } else if(s.is_const(true)) { if(b) h[i].set_hi_to_1_terminal(); else h[i].set_lo_to_1_terminal(); }
            else { auto& y = h[idx[s]]; if(b) h[i].set_hi_arc(y); else h[i].set_lo_arc(y); } };
        for(auto& [i, b] : arcs) {
            if(r.chance(25)) { const int k = r.below(3); if(k == 2 && i + 1 < h.size()) { auto& y = h[i + 1 + r.below(h.size() - i - 1)]; if(b) h[i].set_hi_arc(y); else h[i].set_lo_arc(y); } else set(i, b, TT(n, k == 1)); count("arcs_set_again"); }
            set(i, b, nodes[i].f.cofactor(nodes[i].v, b));
        }
        col.close_bdd(); record("builder", z, u, before);
    }
    size_t pick() { while(t.empty()) build(random_function()); return r.below(t.size()); }
    void step(const std::vector<int>& weight) // build, and, n-ary, limited, or_var, rebase, remove, graphviz
    {
        int sum = 0; for(int w : weight) sum += w; int k = r.below(sum), o = 0; while(k >= weight[o]) k -= weight[o++];
        if(t.size() > limit) o = 6;
        while(t.size() < 2) build(random_function());
        auto before = snapshot();
        switch(o) {
            case 0: build(random_function()); break;
            case 1: { const size_t i = pick(), j = pick(); op("entry %zu = and(%zu,%zu)", t.size(), i, j); count("and"); const TT u = t[i] & t[j]; record("bdd_and", and_call(col, {i, j}, std::numeric_limits<size_t>::max(), r), u, before); break; }
            case 2: case 3: {
                const size_t k = 2 + r.below(r.chance(80) ? 5 : 47); std::vector<size_t> idx; TT u(n, true); for(size_t q = 0; q < k; ++q) { idx.push_back(pick()); u = u & t[idx.back()]; }
                const size_t nodes = RefBdd(u).nodes + 2; const size_t lim = o == 2 ? std::numeric_limits<size_t>::max() : std::max<size_t>(3, nodes + r.range(-3, 3)); op("and of %zu entries, %zu nodes, limit %zu", k, nodes, lim); count("and-n");
                const size_t z = and_call(col, idx, lim, r, r.chance(50));
                if(nodes > lim) { REQUIRE(z == std::numeric_limits<size_t>::max() && snapshot() == before, "limit", "conjunction of %zu nodes with limit %zu", nodes, lim); count("refused"); } else record("bdd_and n-ary", z, u, before);
                break; }
            case 4: {
                const size_t i = pick(); std::set<size_t> p, q; TT u = t[i]; const int pr = r.range(5, 60);
                for(int v = 0; v < n; ++v) { const bool a = r.chance(pr), b = r.chance(pr) && (!a || r.chance(10)); if(a) { p.insert(vs[v]); u = u | TT::var(n, v); } if(b) { q.insert(vs[v]); u = u | ~TT::var(n, v); } }
                op("entry %zu = or_var(%zu; %zu, %zu)", t.size(), i, p.size(), q.size()); count("or_var"); const size_t z = col.bdd_or_var(i, p, q); record("bdd_or_var", z, u, before); break; }
            case 5: {
                const size_t i = pick(); std::vector<int> sup; for(int v = 0; v < n; ++v) if(t[i].depends(v)) sup.push_back(v);
                std::vector<int> to(n); for(int v = 0; v < n; ++v) to[v] = v; for(size_t x = n; x > 1; --x) std::swap(to[x - 1], to[r.below(x)]); to.resize(sup.size()); std::sort(to.begin(), to.end());
                std::map<size_t, size_t> mp; std::unordered_map<size_t, size_t> um; TT u(n); for(size_t x = 0; x < sup.size(); ++x) um[vs[sup[x]]] = mp[vs[sup[x]]] = vs[to[x]];
                for(size_t a = 0; a < u.size(); ++a) { size_t b = 0; for(size_t x = 0; x < sup.size(); ++x) if((a >> to[x]) & 1) b |= size_t(1) << sup[x]; u.set(a, t[i].bit(b)); }
                op("rebase entry %zu", i); count("rebase"); switch(r.below(3)) { case 0: col.rebase(i, mp); break; case 1: col.rebase(i, um); break; default: col[i].rebase(mp); }
                t[i] = u; auto after = snapshot(); REQUIRE(after.size() == before.size(), "wrong-count", "renaming changed the number of entries"); for(size_t k = 0; k < after.size(); ++k) if(k != i) REQUIRE(after[k] == before[k], "changed", "renaming entry %zu changed entry %zu", i, k);
                check_entry(i); nontrivial(mix(u.hash() ^ mix(vs.back() + i))); break; }
            case 6: {
                std::vector<size_t> del; const int pr = r.range(5, 100); for(size_t k = 0; k < t.size(); ++k) if(r.chance(pr)) del.push_back(k);
                op("remove %zu of %zu", del.size(), t.size()); count("remove"); remove_call(col, del, r);
                for(size_t q = del.size(); q-- > 0;) { t.erase(t.begin() + del[q]); before.erase(before.begin() + del[q]); }
                REQUIRE(col.nr_bdds() == t.size() && snapshot() == before, "changed", "removing entries changed the others"); nontrivial(mix(hist_id)); break; }
            default: {
                const size_t i = pick(); std::ostringstream s; op("graph of entry %zu", i); count("graphs"); col.export_graphviz(i, s); const Dot d(s.str());
                const Contents x = contents(i); std::map<std::string, std::string> label; for(auto& [id, at] : d.nodes) { const std::string l = attr_value(at, "label"); if(!l.empty()) REQUIRE(label.emplace(id, l).second, "graph", "node %s drawn twice", id.c_str()); }
                REQUIRE(label.size() == x.size(), "graph", "%zu nodes drawn instead of %zu", label.size(), x.size());
                std::map<std::string, std::array<std::vector<std::string>, 2>> arcs; size_t cnt = 0; for(auto& e : d.edges) { if(e.attr.find("invis") != std::string::npos) continue; arcs[e.a][e.attr.find("dashed") != std::string::npos ? 0 : 1].push_back(e.b); ++cnt; }
                REQUIRE(cnt == 2 * (x.size() - 2), "graph", "%zu arcs drawn for %zu nodes", cnt, x.size());
                // the drawn graph is evaluated from its source
                std::set<std::string> targets; for(auto& [a, v] : arcs) for(auto& w : v) targets.insert(w.begin(), w.end());
                std::string root; for(auto& [id, l] : label) if(!targets.count(id) && arcs.count(id)) { REQUIRE(root.empty(), "graph", "two nodes without predecessor"); root = id; }
                if(x.size() == 2) break;
                for(int q = 0; q < 16; ++q) { const size_t a = r.below(size_t(1) << n); std::string u = root; size_t guard = 0; while(arcs.count(u)) { auto it = inv.find(strtoull(label[u].c_str(), nullptr, 10)); REQUIRE(it != inv.end() && ++guard < 100, "graph", "drawn node labelled %s", label[u].c_str()); auto& to = arcs[u][(a >> it->second) & 1]; REQUIRE(to.size() == 1, "graph", "arcs of a drawn node"); u = to[0]; } REQUIRE(label[u] == (t[i].bit(a) ? "top" : "bot"), "graph", "the drawn graph of entry %zu ends in %s at %zx", i, label[u].c_str(), a); }
                nontrivial(mix(t[i].hash() ^ mix(vs.back()))); break; }
        }
    }
};
inline void wide(Case& c, const std::vector<int>& weight)
{
    Wide w(c.rng, c.rng.range(1, 7)); const int steps = c.rng.range(10, 40);
    for(int k = 0; k < steps; ++k) w.step(weight);
    w.check_all();
}
}
