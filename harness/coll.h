// Reference model of a collection: the list of expected functions, over the variables of a World.
#pragma once
#include "world.h"
#include "bdd_collection.h"
namespace H {
using BDD::bdd_collection; using BDD::bdd_collection_node; using BDD::bdd_collection_entry; using BDD::bdd_instruction;

struct CollWorld {
    World w; int n; Rng& r;
    bdd_collection col;
    std::vector<TT> t;       // expected function of every entry
    std::vector<char> exact; // entry is known to be reduced
    size_t limit = 24;

    CollWorld(int n_, Rng& r_, int gap = 0) : w(n_, r_, gap), n(n_), r(r_) {}

    std::vector<char> labeling(size_t a) { return w.labeling(a, true); }

    // function of an entry through the node handles
    struct NodeHash { size_t operator()(const bdd_collection_node& x) const { return std::hash<bdd_collection_node>()(x); } };
    using Memo = std::unordered_map<bdd_collection_node, TT, NodeHash>;
    TT walk(const bdd_collection_node& x, Memo& memo, bool ordered = true)
    {
        auto it = memo.find(x);
        if(it != memo.end()) return it->second;
        REQUIRE(!(x.is_topsink() && x.is_botsink()), "terminal", "a node is both terminals");
        REQUIRE(x.is_terminal() == (x.is_topsink() || x.is_botsink()), "terminal", "is_terminal disagrees with the terminal kinds");
        TT u(n);
        if(x.is_topsink()) u = TT(n, true);
        else if(x.is_botsink()) u = TT(n, false);
        else {
            auto lo = x.lo(), hi = x.hi();
            REQUIRE(lo == x.low() && hi == x.high(), "node-handle", "lo/low or hi/high differ");
            auto iv = w.inv.find(x.variable());
            REQUIRE(iv != w.inv.end(), "foreign-variable", "a node in the collection branches on variable %zu", x.variable());
            if(ordered) {
                REQUIRE(lo.is_terminal() || lo.variable() > x.variable(), "not-ordered", "0-successor of variable %zu branches on %zu", x.variable(), lo.variable());
                REQUIRE(hi.is_terminal() || hi.variable() > x.variable(), "not-ordered", "1-successor of variable %zu branches on %zu", x.variable(), hi.variable());
            }
            const TT a = walk(lo, memo, ordered), b = walk(hi, memo, ordered), v = TT::var(n, iv->second);
            u = (v & b) | (~v & a);
        }
        memo.emplace(x, u);
        return u;
    }
    void check_entry(size_t k, bool full = true)
    {
        REQUIRE(k < col.nr_bdds(), "missing-entry", "entry %zu of %zu", k, col.nr_bdds());
        Memo memo;
        const TT got = walk(col[k].root_node(), memo);
        REQUIRE(got == t[k], "wrong-function", "entry %zu denotes %s instead of %s", k, got.str().c_str(), t[k].str().c_str());
        const size_t nodes = col.nr_bdd_nodes(k);
        REQUIRE(nodes == col[k].nr_nodes(), "wrong-count", "entry %zu: node counts %zu and %zu", k, nodes, col[k].nr_nodes());
        if(exact[k]) {
            const RefBdd ref(t[k]);
            REQUIRE(nodes == ref.nodes + 2, "not-reduced", "entry %zu has %zu nodes, the reduced diagram has %zu (with terminals)", k, nodes, ref.nodes + 2);
            for(int i = 0; i < n; ++i) {
                REQUIRE(col.nr_bdd_nodes(k, w.vmap[i]) == ref.per_level[i], "wrong-count", "entry %zu has %zu nodes on variable %zu instead of %zu", k, col.nr_bdd_nodes(k, w.vmap[i]), w.vmap[i], ref.per_level[i]);
                REQUIRE(col[k].nr_nodes(w.vmap[i]) == ref.per_level[i], "wrong-count", "entry handle count per variable");
            }
            std::vector<size_t> vars; for(int i = 0; i < n; ++i) if(ref.per_level[i]) vars.push_back(w.vmap[i]);
            REQUIRE(col.variables(k) == vars && col[k].variables() == vars, "wrong-variables", "entry %zu lists %zu variables instead of %zu", k, col.variables(k).size(), vars.size());
        }
        if(full && n <= 8) {
            const int q = n <= 5 ? (1 << n) : 32;
            for(int i = 0; i < q; ++i) { const size_t a = n <= 5 ? size_t(i) : r.below(size_t(1) << n); REQUIRE(with_labels(labeling(a), r, [&](auto b, auto e) { return col.evaluate(k, b, e); }) == t[k].bit(a), "wrong-evaluation", "entry %zu evaluates to %d at assignment %zx", k, int(!t[k].bit(a)), a); }
        } else for(int i = 0; i < 8; ++i) { const size_t a = r.below(size_t(1) << n); REQUIRE(with_labels(labeling(a), r, [&](auto b, auto e) { return col.evaluate(k, b, e); }) == t[k].bit(a), "wrong-evaluation", "entry %zu evaluates to %d at assignment %zx", k, int(!t[k].bit(a)), a); }
        count("entries_checked");
    }
    void check_all()
    {
        REQUIRE(col.nr_bdds() == t.size() && col.size() == t.size(), "wrong-count", "%zu entries instead of %zu", col.nr_bdds(), t.size());
        for(size_t k = 0; k < t.size(); ++k) check_entry(k);
    }
    // the exact stored contents of an entry, to see that other operations leave it alone
    std::vector<std::array<size_t, 3>> contents(size_t k)
    {
        std::vector<std::array<size_t, 3>> v;
        auto [b, e] = col.get_bdd_instructions(k);
        const size_t first = b == e ? 0 : col.offset(*b);
        for(auto it = b; it != e; ++it) v.push_back({it->is_terminal() ? it->lo : it->lo - first, it->is_terminal() ? it->hi : it->hi - first, it->index});
        return v;
    }
    std::vector<std::vector<std::array<size_t, 3>>> snapshot() { std::vector<std::vector<std::array<size_t, 3>>> s; for(size_t k = 0; k < col.nr_bdds(); ++k) s.push_back(contents(k)); return s; }

    size_t record(const char* what, size_t k, TT u, bool reduced = true)
    {
        REQUIRE(k == t.size() && col.nr_bdds() == t.size() + 1, "wrong-index", "%s returned entry %zu of %zu, expected a new last entry %zu", what, k, col.nr_bdds(), t.size());
        t.push_back(std::move(u)); exact.push_back(reduced);
        check_entry(k);
        nontrivial(mix(t[k].hash() ^ mix(std::hash<std::string>()(what))));
        return k;
    }
    TT random_function()
    {
        TT u = TT::random(n, r);
        const int q = r.below(8);
        if(q == 0) u = TT(n, r.chance(50));
        else if(q == 1) u = TT::var(n, r.below(n));
        else if(q == 2) u = u & TT::random(n, r) & TT::random(n, r);
        else if(q == 3) { TT s(n); for(size_t a = 0; a < s.size(); ++a) s.set(a, (u.w[0] >> __builtin_popcountll(a)) & 1); u = s; }
        else if(q >= 6) for(int i = 0; i < n; ++i) if(r.chance(35)) u = u.cofactor(i, r.chance(50));
        return u;
    }
    size_t do_add(TT u)
    {
        op("entry %zu = add_bdd(%s)", t.size(), u.str().c_str()); count("coll_add");
        return record("add_bdd", col.add_bdd(w.from_tt(u)), u);
    }
    void do_add() { if(!w.pool.empty() && r.chance(40)) { const size_t a = w.pick(); op("entry %zu = add_bdd(#%zu)", t.size(), a); count("coll_add"); record("add_bdd", col.add_bdd(w.pool[a].h), w.pool[a].t); } else do_add(random_function()); }
    void ensure(size_t k) { while(t.size() < k) do_add(); }
    void do_and()
    {
        ensure(2);
        const size_t i = r.below(t.size()), j = r.below(t.size());
        op("entry %zu = and(%zu,%zu)", t.size(), i, j); count("coll_and");
        const TT u = t[i] & t[j];
        record("bdd_and", and_call(col, {i, j}, std::numeric_limits<size_t>::max(), r), u);
    }
    void do_nary()
    {
        ensure(3);
        const size_t k = r.chance(80) ? 2 + r.below(5) : 2 + r.below(18);
        std::vector<size_t> idx; TT u(n, true); std::string s;
        for(size_t q = 0; q < k; ++q) { idx.push_back(r.below(t.size())); u = u & t[idx.back()]; s += std::to_string(idx.back()) + " "; }
        op("entry %zu = and(%s)", t.size(), s.c_str()); count("coll_and_nary");
        record("bdd_and n-ary", and_call(col, idx, std::numeric_limits<size_t>::max(), r), u);
    }
    void do_or_var()
    {
        ensure(1);
        const size_t i = r.below(t.size());
        std::set<size_t> p, q; TT u = t[i];
        const int pr = r.range(0, 40);
        for(int v = 0; v < n; ++v) { if(r.chance(pr)) { p.insert(w.vmap[v]); u = u | TT::var(n, v); } if(r.chance(pr) && (r.chance(10) || !p.count(w.vmap[v]))) { q.insert(w.vmap[v]); u = u | ~TT::var(n, v); } }
        op("entry %zu = or_var(%zu) with %zu positive, %zu negative literals", t.size(), i, p.size(), q.size()); count("coll_or_var");
        record("bdd_or_var", col.bdd_or_var(i, p, q), u);
    }
    // remove() requires diagrams without equal nodes; hand-made ones may have them
    bool has_equal_nodes(size_t k)
    {
        std::set<std::array<size_t, 3>> s; for(auto& x : contents(k)) if(!s.insert(x).second) return true;
        return false;
    }
    bool removable() { for(size_t k = 0; k < t.size(); ++k) if(!exact[k] && has_equal_nodes(k)) return false; return true; }
    void do_remove()
    {
        if(!removable()) { count("remove_skipped"); return; }
        std::vector<size_t> del; const int pr = r.range(5, 60);
        for(size_t k = 0; k < t.size(); ++k) if(r.chance(pr)) del.push_back(k);
        std::string s; for(size_t k : del) s += std::to_string(k) + " ";
        op("remove(%s)", s.c_str()); count("coll_remove");
        remove_call(col, del, r);
        for(size_t q = del.size(); q-- > 0;) { t.erase(t.begin() + del[q]); exact.erase(exact.begin() + del[q]); }
        REQUIRE(col.nr_bdds() == t.size(), "wrong-count", "%zu entries after removing, expected %zu", col.nr_bdds(), t.size());
    }
    // the collection is copied, assigned, moved or swapped as a value; a copy made earlier keeps its own contents
    std::unique_ptr<bdd_collection> kept; std::vector<std::vector<std::array<size_t, 3>>> kept_contents; std::vector<TT> kept_t;
    void check_kept()
    {
        if(!kept) return;
        std::swap(col, *kept); auto s = snapshot(); REQUIRE(s == kept_contents, "changed", "a copy of the collection changed with the original");
        if(!kept_t.empty()) { const size_t k = r.below(kept_t.size()); auto l = labeling(r.below(size_t(1) << n)); (void)l; for(int q = 0; q < 4; ++q) { const size_t a = r.below(size_t(1) << n); auto l2 = labeling(a); REQUIRE(col.evaluate(k, l2.begin(), l2.end()) == kept_t[k].bit(a), "wrong-evaluation", "entry %zu of a copy", k); } }
        std::swap(col, *kept); count("copies_checked");
    }
    void do_value()
    {
        op("copy, assign, move or swap the collection"); count("coll_values"); auto before = snapshot();
        switch(r.below(6)) {
            case 0: { bdd_collection a(col); col = a; break; }
            case 1: { bdd_collection a(col); col = bdd_collection(); col = std::move(a); break; }
            case 2: { bdd_collection a(std::move(col)); col = std::move(a); break; }
            case 3: { bdd_collection a; a = col; std::swap(a, col); break; }
            case 4: { std::vector<bdd_collection> v; v.push_back(col); for(int i = 0; i < 3; ++i) v.push_back(bdd_collection()); std::swap(v[0], col); break; }
            default: check_kept(); kept.reset(new bdd_collection(col)); kept_contents = before; kept_t = t;
        }
        REQUIRE(snapshot() == before, "changed", "handling the collection as a value changed it");
    }
    void coll_step()
    {
        if(t.size() > limit) do_remove();
        if(r.below(100) < 4) { ensure(1); do_value(); return; }
        if(kept && r.below(100) < 5) check_kept();
        const int k = r.below(100);
        if(k < 35 || t.empty()) do_add();
        else if(k < 60) do_and();
        else if(k < 75) do_nary();
        else if(k < 92) do_or_var();
        else { do_remove(); ensure(1); }
    }
};
} // namespace H
