// C24: the memo cache returns for a key only what was last stored under exactly that key, and nothing that mentions a dead node after a purge.
#include "world.h"
using namespace H;
using BDD::memo_cache; using BDD::memo_struct;

void run_case(Case& c)
{
    const bool large = args.mode == "big";
    const int n = large ? 10 : c.rng.range(2, 6);
    World w(n, c.rng, 0);
    for(int i = 0; i < n; ++i) w.need_var(i);
    memo_cache mc(w.m.get_node_cache());
    using Key = std::array<node*, 3>;
    std::map<Key, node*> model;
    node* const symb[3] = {memo_struct::and_symb(), memo_struct::or_symb(), memo_struct::xor_symb()};
    auto is_symb = [&](node* p) { return p == symb[0] || p == symb[1] || p == symb[2]; };
    REQUIRE(symb[0] != symb[1] && symb[1] != symb[2] && symb[0] != symb[2], "symbols", "operation symbols coincide");
    std::vector<node_ref> held;
    auto refill = [&](size_t k) { while(held.size() < k) { TT t = TT::random(n, c.rng); held.push_back(w.from_tt(t)); } };
    const int rounds = large ? 3 : c.rng.range(3, 12);
    for(int q = 0; q < rounds; ++q) {
        refill(large ? 400 : c.rng.range(3, 40));
        std::vector<node*> nodes{w.m.botsink().address(), w.m.topsink().address()};
        { std::unordered_set<node*> s; for(auto& h : held) for(auto& x : h.nodes_postorder()) if(s.insert(x.address()).second) nodes.push_back(x.address()); }
        const int ops = large ? 30000 : c.rng.range(20, 800);
        auto any = [&] { const size_t i = c.rng.below(nodes.size()); note(i); return nodes[i]; };
        auto key = [&]() -> Key { node* f = any(); node* g = any(); node* h = c.rng.chance(60) ? symb[c.rng.below(3)] : any(); return {f, g, h}; };
        auto look = [&](const Key& k) {
            node* r = mc.cache_lookup(k[0], k[1], k[2]);
            auto it = model.find(k);
            if(r == nullptr) { count("miss"); return; }
            REQUIRE(it != model.end(), "foreign-result", "a result was returned for a key that was never stored, or whose nodes are dead");
            REQUIRE(it->second == r, "stale-result", "an outdated result was returned");
            count("hit");
        };
        for(int i = 0; i < ops; ++i) {
            if(c.rng.chance(45)) {
                const Key k = key(); node* r = nodes[c.rng.below(nodes.size())];
                mc.cache_insert(k[0], k[1], k[2], r); model[k] = r; count("inserted");
                REQUIRE(mc.cache_lookup(k[0], k[1], k[2]) == r, "lost", "a result is not found right after it was stored");
                nontrivial(mix(hist_id));
            } else if(!model.empty() && c.rng.chance(70)) {
                auto it = model.lower_bound(Key{nodes[c.rng.below(nodes.size())], nullptr, nullptr}); if(it == model.end()) it = model.begin();
                Key k = it->first; look(k);
                if(c.rng.chance(40)) { std::swap(k[0], k[1]); look(k); }
                if(c.rng.chance(40)) { k[2] = symb[c.rng.below(3)]; look(k); }
                if(c.rng.chance(20)) { std::swap(k[1], k[2]); if(!is_symb(k[1])) look(k); }
            } else look(key());
        }
        if(!large || q == 0) for(auto& [k, r] : model) look(k);
        // some nodes die, the cache is purged, then their storage is reused
        const int keep = c.rng.range(0, 100);
        std::vector<node_ref> rest; for(auto& h : held) if(c.rng.chance(keep)) rest.push_back(h);
        held.swap(rest); rest.clear();
        op("round %d: %zu keys, %zu functions kept", q, model.size(), held.size());
        std::vector<Key> stale;
        auto dead = [](node* p) { return !p->is_terminal() && p->xref <= 0; };
        for(auto& [k, r] : model) if(dead(k[0]) || dead(k[1]) || (!is_symb(k[2]) && dead(k[2])) || dead(r)) stale.push_back(k);
        mc.purge(); count("purges"); count("stale_keys", stale.size());
        for(auto& k : stale) { REQUIRE(mc.cache_lookup(k[0], k[1], k[2]) == nullptr, "stale-after-purge", "a result that mentions a dead node is still returned after the purge"); model.erase(k); }
        for(auto& [k, r] : model) look(k);
        // nodes that die later in the same collection: purge again before their storage is handed out
        size_t more = 1;
        while(more) { // peel off layer by layer, as the manager's collection does
            const size_t before = w.m.nr_nodes();
            std::vector<Key> st2;
            // mirror: after the manager collected, every unreachable node is dead
            w.m.collect_garbage();
            more = before - w.m.nr_nodes();
        }
        std::unordered_set<node*> alive{w.m.botsink().address(), w.m.topsink().address()};
        for(auto& h : held) for(auto& x : h.nodes_postorder()) alive.insert(x.address());
        mc.purge();
        for(auto it = model.begin(); it != model.end();) { const Key& k = it->first; if(!alive.count(k[0]) || !alive.count(k[1]) || (!is_symb(k[2]) && !alive.count(k[2])) || !alive.count(it->second)) it = model.erase(it); else ++it; }
        for(auto& [k, r] : model) look(k);
    }
    maximum("keys", model.size());
}
void end_of_chunk() {}
