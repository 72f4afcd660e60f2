// C18: renaming one entry affects that entry alone and renames its variables.
#include "coll.h"
#include "scale.h"
#include "wide.h"
using namespace H;

static void scale(Case& c)
{
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(2, 6) : c.rng.range(5, 20);
    for(int k = 0; k < steps; ++k) { w.coll_trim(); if(c.rng.chance(50)) w.coll_add(w.generate()); else w.coll_step(); w.coll_rebase(); }
    w.check_coll(); w.check_all();
}
void run_case(Case& c)
{ if(args.mode == "wide") { wide(c, {6, 2, 1, 1, 2, 12, 2, 0}); return; } if(args.mode.rfind("scale", 0) == 0) { scale(c); return; }
    const int n = c.rng.range(2, 8);
    CollWorld w(n, c.rng, c.rng.chance(40) ? 6 : 0);
    w.w.start(); w.limit = 30;
    const int steps = c.rng.range(10, 40);
    for(int k = 0; k < steps; ++k) {
        if(w.t.size() > w.limit) w.do_remove();
        w.ensure(2);
        if(c.rng.chance(60)) { TT t = TT::random(n, c.rng); for(int i = 0; i < n; ++i) if(c.rng.chance(40)) t = t.cofactor(i, c.rng.chance(50)); w.do_add(t); } else w.coll_step();
        w.ensure(1);
        const size_t e = c.rng.chance(40) ? w.t.size() - 1 : c.rng.below(w.t.size());
        std::vector<int> sup; for(int i = 0; i < n; ++i) if(w.t[e].depends(i)) sup.push_back(i);
        // entries that are not reduced may mention more variables than they depend on
        if(!w.exact[e]) continue;
        std::vector<int> targets; { std::vector<int> all(n); for(int i = 0; i < n; ++i) all[i] = i; for(size_t i = n; i > 1; --i) std::swap(all[i - 1], all[c.rng.below(i)]); targets.assign(all.begin(), all.begin() + sup.size()); std::sort(targets.begin(), targets.end()); }
        if(c.rng.chance(10)) targets = sup;
        std::map<size_t, size_t> mp; TT u(n);
        for(size_t i = 0; i < sup.size(); ++i) mp[w.w.vmap[sup[i]]] = w.w.vmap[targets[i]];
        for(size_t a = 0; a < u.size(); ++a) { size_t b = 0; for(size_t i = 0; i < sup.size(); ++i) if((a >> targets[i]) & 1) b |= size_t(1) << sup[i]; u.set(a, w.t[e].bit(b)); }
        auto before = w.snapshot();
        const int kind = c.rng.below(5);
        std::string s; for(auto& [x, y] : mp) s += std::to_string(x) + "->" + std::to_string(y) + " ";
        op("rebase entry %zu kind %d: %s", e, kind, s.c_str()); count("rebase"); if(mp.empty()) count("rebase_constant");
        std::vector<size_t> vec(sup.empty() ? 1 : w.w.vmap[sup.back()] + 1 + c.rng.below(2), 0); for(auto& [x, y] : mp) vec[x] = y;
        std::unordered_map<size_t, size_t> um(mp.begin(), mp.end());
        switch(kind) {
            case 0: w.col.rebase(e, mp); break;
            case 1: w.col.rebase(e, um); break;
            case 2: with_map(vec, w.r, [&](auto b, auto f) { w.col.rebase(e, b, f); return 0; }); break;
            case 3: w.col[e].rebase(um); break;
            default: w.col[e].rebase(vec.begin(), vec.end()); break;
        }
        w.t[e] = u;
        auto after = w.snapshot();
        REQUIRE(after.size() == before.size(), "wrong-count", "renaming changed the number of entries");
        for(size_t i = 0; i < after.size(); ++i) if(i != e) REQUIRE(after[i] == before[i], "changed", "renaming entry %zu changed entry %zu", e, i);
        REQUIRE(after[e].size() == before[e].size(), "changed", "renaming changed the number of nodes");
        w.check_entry(e);
        for(size_t v : w.w.vmap) w.w.need_var(v);
        REQUIRE(w.col.export_bdd(w.w.m, e) == w.w.from_tt(u), "wrong-function", "export of the renamed entry is not the renamed function");
        nontrivial(mix(u.hash() ^ (e * 7)));
    }
    w.check_all();
}
void end_of_chunk() {}
