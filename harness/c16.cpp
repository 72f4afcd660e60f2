// C16: disjunction of a stored diagram with literals.
#include "coll.h"
#include "scale.h"
#include "wide.h"
using namespace H;

template<class SET> static size_t call(CollWorld& w, size_t i, const std::vector<int>& p, const std::vector<int>& q)
{
    SET P, Q; for(int v : p) P.insert(P.end(), w.w.vmap[v]); for(int v : q) Q.insert(Q.end(), w.w.vmap[v]);
    return w.col.bdd_or_var(i, P, Q);
}
static void hist(Case& c)
{
    const bool large = args.mode == "big";
    CollWorld w(large ? c.rng.range(8, 11) : c.rng.range(1, 7), c.rng, c.rng.chance(40) ? 6 : 0);
    w.w.start(); w.limit = large ? 12 : 40;
    const int steps = large ? c.rng.range(4, 10) : c.rng.range(15, 60);
    for(int k = 0; k < steps; ++k) {
        if(w.t.size() > w.limit) w.do_remove();
        w.ensure(1);
        if(c.rng.chance(50)) w.do_add(); else if(c.rng.chance(20)) w.do_and();
        const size_t i = c.rng.chance(50) ? w.t.size() - 1 : c.rng.below(w.t.size());
        std::vector<int> p, q; TT u = w.t[i];
        const int pr = c.rng.range(0, 60), both = c.rng.chance(15);
        for(int v = 0; v < w.n; ++v) {
            const bool in_p = c.rng.chance(pr), in_q = c.rng.chance(pr) && (both || !in_p);
            if(in_p) { p.push_back(v); u = u | TT::var(w.n, v); } if(in_q) { q.push_back(v); u = u | ~TT::var(w.n, v); }
            if(in_p && in_q) count("both_literals");
            if((in_p || in_q) && !w.t[i].depends(v)) count("literal_outside_support");
        }
        std::string s; for(int v : p) s += "x" + std::to_string(v) + " "; for(int v : q) s += "!x" + std::to_string(v) + " ";
        auto before = w.snapshot();
        op("entry %zu = or_var(%zu; %s)", w.t.size(), i, s.c_str()); count("or_var");
        if(p.empty() && q.empty()) count("no_literal"); if(w.t[i].is_const(false) || w.t[i].is_const(true)) count("constant_operand");
        for(size_t x = p.size(); x > 1; --x) std::swap(p[x - 1], p[c.rng.below(x)]);
        for(size_t x = q.size(); x > 1; --x) std::swap(q[x - 1], q[c.rng.below(x)]);
        size_t z;
        const size_t kind = c.rng.below(4);
        if(kind >= 2 && c.rng.chance(30)) { for(auto* l : {&p, &q}) for(int x = l->empty() ? 0 : c.rng.range(0, 3); x--;) l->push_back((*l)[c.rng.below(l->size())]); count("literal_repeated"); } // containers that may repeat
        switch(kind) { case 0: z = call<std::unordered_set<size_t>>(w, i, p, q); break; case 1: z = call<std::set<size_t>>(w, i, p, q); break; case 2: z = call<std::multiset<size_t>>(w, i, p, q); break; default: z = call<std::vector<size_t>>(w, i, p, q); }
        w.record("bdd_or_var", z, u);
        auto after = w.snapshot(); after.pop_back();
        REQUIRE(after == before, "changed", "a disjunction changed other entries");
        nontrivial(mix(u.hash() ^ w.t[i].hash() * 3));
        maximum("result_nodes", w.col.nr_bdd_nodes(z));
    }
    w.check_all();
}
static void chain(Case& c)
{
    bdd_mgr m; bdd_collection col;
    const int n = c.rng.range(3, c.thorough ? 500 : 150);
    std::vector<node_ref> v; for(int i = 0; i < n; ++i) v.push_back(m.projection(i));
    node_ref f = m.topsink();
    const int kind = c.rng.below(3);
    if(kind == 0) f = m.simplex(v.begin(), v.end()); else if(kind == 1) { f = v[n - 1]; for(int i = n - 1; i-- > 0;) f = m.xor_rec(v[i], f); } else for(int i = n; i-- > 0;) if(c.rng.chance(70)) f = m.and_rec(c.rng.chance(50) ? v[i] : m.negate(v[i]), f);
    const size_t k = col.add_bdd(f);
    std::set<size_t> p, q; node_ref e = f; std::vector<node_ref> lits;
    const int cnt = c.rng.range(1, std::min(n, 12));
    for(int i = 0; i < cnt; ++i) { size_t x = c.rng.below(n); if(p.count(x) || q.count(x)) continue; if(c.rng.chance(50)) { p.insert(x); lits.push_back(v[x]); } else { q.insert(x); lits.push_back(m.negate(v[x])); } }
    for(auto& l : lits) e = m.or_rec(e, l);
    op("or of %zu literals to kind %d over %d variables", lits.size(), kind, n);
    const size_t z = col.bdd_or_var(k, p, q);
    REQUIRE(col.nr_bdd_nodes(z) == e.nr_nodes() + 2 && col.export_bdd(m, z) == e && col.variables(z) == e.variables(), "wrong-function", "disjunction in the collection differs from the manager's");
    count("chains"); nontrivial(mix(shape(e) + shape(f) * 3)); maximum("result_nodes", e.nr_nodes());
}
static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(2, 6) : c.rng.range(5, 20);
    for(int k = 0; k < steps; ++k) { w.coll_trim(); if(c.rng.chance(40)) w.coll_step(); w.coll_or_var(); }
    w.check_coll(); w.check_all();
}
void run_case(Case& c)
{ if(args.mode == "wide") { wide(c, {6, 2, 1, 1, 12, 2, 2, 0}); return; } if(args.mode.rfind("scale", 0) == 0) { scale(c); return; } if(args.mode == "chain") chain(c); else hist(c); }
void end_of_chunk() {}
