// C05: renaming variables by an increasing map.
#include "world.h"
#include "scale.h"
using namespace H;

static TT rename(const TT& t, const std::vector<int>& to) // model variable i -> to[i] (only for variables t depends on)
{
    TT r(t.n);
    for(size_t a = 0; a < t.size(); ++a) {
        size_t b = 0;
        for(int i = 0; i < t.n; ++i) if(to[i] >= 0 && ((a >> to[i]) & 1)) b |= size_t(1) << i;
        r.set(a, t.bit(b));
    }
    return r;
}
static void hist(Case& c)
{
    const int n = c.rng.range(2, 9);
    World w(n, c.rng, c.rng.chance(40) ? 4 : 0);
    w.start();
    w.pool_limit = 30;
    const int steps = c.rng.range(10, 40);
    int created = 0;
    for(int k = 0; k < steps; ++k) {
        // functions over few of the variables, so that there is room to rename
        if(c.rng.chance(70)) {
            TT t = TT::random(n, c.rng);
            for(int i = 0; i < n; ++i) if(c.rng.chance(40)) t = t.cofactor(i, c.rng.chance(50));
            if(c.rng.chance(5)) t = TT(n, c.rng.chance(50));
            op("#%zu = function %s", w.pool.size(), t.str().c_str());
            w.put("built", w.from_tt(t), t);
        } else w.boolean_step();
        const size_t a = c.rng.chance(60) ? w.pool.size() - 1 : w.pick();
        const World::E A = w.pool[a];
        std::vector<int> sup; for(int i = 0; i < n; ++i) if(A.t.depends(i)) sup.push_back(i);
        // strictly increasing random injection of the support
        std::vector<int> targets; { std::vector<int> all(n); for(int i = 0; i < n; ++i) all[i] = i; for(size_t i = n; i > 1; --i) std::swap(all[i - 1], all[c.rng.below(i)]); targets.assign(all.begin(), all.begin() + sup.size()); std::sort(targets.begin(), targets.end()); }
        if(c.rng.chance(15)) targets = sup; // identity
        std::vector<int> to(n, -1);
        for(size_t i = 0; i < sup.size(); ++i) to[sup[i]] = targets[i];
        const TT e = rename(A.t, to);
        const size_t nv = w.m.nr_variables();
        const size_t top_target = sup.empty() ? 0 : w.vmap[targets.back()];
        std::string s; for(size_t i = 0; i < sup.size(); ++i) s += std::to_string(w.vmap[sup[i]]) + "->" + std::to_string(w.vmap[targets[i]]) + " ";
        const int kind = c.rng.below(3);
        op("#%zu = rebase(#%zu) by %s: %s", w.pool.size(), a, kind == 0 ? "unordered_map" : kind == 1 ? "map" : "vector", s.c_str());
        node_ref z;
        if(kind == 0) {
            std::unordered_map<size_t, size_t> mp; for(size_t i = 0; i < sup.size(); ++i) mp[w.vmap[sup[i]]] = w.vmap[targets[i]];
            if(c.rng.chance(20)) mp[w.vmap.back() + 5] = w.vmap.front(); // an entry for a variable the function does not have
            z = w.m.rebase(A.h, mp);
        } else if(kind == 1) {
            std::map<size_t, size_t> mp; for(size_t i = 0; i < sup.size(); ++i) mp[w.vmap[sup[i]]] = w.vmap[targets[i]];
            z = w.m.rebase(A.h, mp);
        } else {
            std::vector<size_t> v(sup.empty() ? 1 : w.vmap[sup.back()] + 1 + c.rng.below(3), 0);
            for(size_t i = 0; i < sup.size(); ++i) v[w.vmap[sup[i]]] = w.vmap[targets[i]];
            z = with_map(v, w.r, [&](auto b, auto e) { return w.m.rebase(A.h, b, e); });
        }
        count("rebase"); count(kind == 2 ? "rebase_vector" : "rebase_map"); if(sup.empty()) count("rebase_constant");
        REQUIRE(w.m.nr_variables() >= nv && (sup.empty() || w.m.nr_variables() > top_target), "variables-missing", "variables named by the map do not exist after renaming");
        if(!sup.empty() && w.m.nr_variables() > nv) ++created;
        w.put("rebase", z, e);
        REQUIRE(z == w.from_tt(e), "not-canonical", "renamed diagram is not the diagram of the renamed function");
        if(targets == sup) { REQUIRE(z == A.h, "identity", "renaming by the identity gives another handle"); count("rebase_identity"); }
        REQUIRE(z.nr_nodes() == A.h.nr_nodes(), "wrong-size", "renaming changed the number of nodes from %zu to %zu", A.h.nr_nodes(), z.nr_nodes());
        REQUIRE(w.tt_of(A.h) == A.t, "operand-changed", "the renamed function itself changed");
        // and back
        std::map<size_t, size_t> back; for(size_t i = 0; i < sup.size(); ++i) back[w.vmap[targets[i]]] = w.vmap[sup[i]];
        REQUIRE(w.m.rebase(z, back) == A.h, "not-inverse", "renaming back does not give the original handle");
        if(c.rng.chance(10)) { w.drop_many(); w.do_gc(); }
    }
    count("variables_created_by_rebase", created);
    w.check_pool(true);
}
// long diagrams shifted onto variables that do not exist yet
static void shift(Case& c)
{
    bdd_mgr m;
    const int n = c.rng.range(3, c.thorough ? 800 : 300);
    std::vector<node_ref> v; for(int i = 0; i < n; ++i) v.push_back(m.projection(i));
    const bool par = c.rng.chance(40);
    node_ref f = m.topsink();
    if(par) { f = v[0]; for(int i = 1; i < n; ++i) f = m.xor_rec(v[i], f); }
    else f = m.simplex(v.begin(), v.end());
    std::vector<size_t> mp; size_t x = c.rng.below(50);
    for(int i = 0; i < n; ++i) { x += 1 + (c.rng.chance(10) ? c.rng.below(30) : c.rng.below(2)); mp.push_back(x); }
    op("shift %s over %d variables to %zu..%zu", par ? "parity" : "simplex", n, mp.front(), mp.back());
    node_ref z = c.rng.chance(50) ? m.rebase(f, mp.begin(), mp.end()) : [&] { std::unordered_map<size_t, size_t> u; for(int i = 0; i < n; ++i) u[i] = mp[i]; return m.rebase(f, u); }();
    REQUIRE(m.nr_variables() == std::max<size_t>(mp.back() + 1, n), "variables-missing", "%zu variables after renaming to %zu", m.nr_variables(), mp.back());
    std::vector<node_ref> p; for(size_t q : mp) p.push_back(m.projection(q));
    node_ref e;
    if(par) { e = p[0]; for(int i = 1; i < n; ++i) e = m.xor_rec(p[i], e); } else e = m.simplex(p.begin(), p.end());
    REQUIRE(z == e, "wrong-function", "shifted diagram differs from the one built on the target variables");
    REQUIRE(z.variables() == mp, "wrong-variables", "variables of the shifted diagram are not the targets");
    count("shifts"); maximum("shift_length", n); nontrivial(mix(n * 31 + par) ^ mp.back());
}
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(4, 8) : c.rng.range(8, 25);
    for(int k = 0; k < steps; ++k) { if(c.rng.chance(50)) w.do_generate(); else w.step(); w.do_rebase(); }
    w.check_all();
}
void run_case(Case& c) { if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } if(args.mode == "shift") shift(c); else hist(c); }
void end_of_chunk() {}
