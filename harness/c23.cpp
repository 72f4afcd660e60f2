// C23: the storage pools: nodes and table pages are handed out once, counted, cleared and reused.
#include "world.h"
#include "cycling.h"
using namespace H;
using BDD::bdd_node_cache; using BDD::unique_table_page_cache; using BDD::unique_table_page;

static void nodes(Case& c)
{
    bdd_mgr mgr; // only its address is stored in the terminals
    bdd_node_cache nc(&mgr);
    const size_t page = BDD::bdd_node_page_size;
    node* bot = nc.botsink(); node* top = nc.topsink();
    REQUIRE(bot != top && bot->is_botsink() && top->is_topsink() && !bot->is_topsink() && !top->is_botsink(), "terminals", "terminals of a fresh pool");
    REQUIRE(nc.nr_nodes() == 2, "count", "%zu nodes in a fresh pool", nc.nr_nodes());
    REQUIRE(bot->find_bdd_mgr() == &mgr && top->find_bdd_mgr() == &mgr, "terminals", "manager of the terminals");
    struct N { node* lo; node* hi; size_t var; int refs; };
    std::unordered_map<node*, N> live; std::unordered_set<node*> ever; size_t peak = 0;
    std::vector<node*> order;
    const int phases = c.rng.range(2, 6);
    // references held by the harness on the terminals, so that they never count as unused
    bot->xref++; top->xref++;
    std::unordered_map<node*, long> expect; expect[bot] = bot->xref; expect[top] = top->xref;
    for(int ph = 0; ph < phases; ++ph) {
        const size_t grow = c.rng.below(c.rng.chance(30) ? 3 * page : 600);
        for(size_t i = 0; i < grow; ++i) {
            node* lo = order.empty() || c.rng.chance(30) ? (c.rng.chance(50) ? bot : top) : order[c.rng.below(order.size())];
            node* hi = order.empty() || c.rng.chance(30) ? (c.rng.chance(50) ? bot : top) : order[c.rng.below(order.size())];
            if(lo == hi) { lo = bot; hi = lo == hi ? top : hi; }
            const size_t k = nc.nr_nodes();
            node* p = nc.reserve_node();
            REQUIRE(p != nullptr && p != bot && p != top && !live.count(p), "issued-twice", "a node in use was handed out again");
            REQUIRE(nc.nr_nodes() == k + 1, "count", "reserving a node changed the count from %zu to %zu", k, nc.nr_nodes());
            const size_t v = c.rng.below(1000); note(v);
            p->init_new_node(v, lo, hi); expect[lo]++; expect[hi]++; expect[p] = 0;
            REQUIRE(p->lo == lo && p->hi == hi && p->index == v && p->xref == 0 && !p->marked() && !p->is_terminal(), "init", "a new node is not initialised");
            live[p] = {lo, hi, v, 0}; order.push_back(p); ever.insert(p); peak = std::max(peak, live.size());
            count("reserved");
        }
        for(auto& [p, e] : live) REQUIRE(p->lo == e.lo && p->hi == e.hi && p->index == e.var, "overwritten", "a node in use was changed");
        for(auto& [p, x] : expect) REQUIRE(p->xref == x, "references", "a node has %d references instead of %ld", p->xref, x);
        // give back unreferenced nodes, newest first, down to a random size
        const size_t keep = c.rng.chance(30) ? 0 : c.rng.below(order.size() + 1);
        std::vector<node*> rest;
        for(size_t i = order.size(); i-- > 0;) {
            node* p = order[i];
            if(order.size() - i <= order.size() - keep && expect[p] == 0 && c.rng.chance(90)) {
                const N e = live[p]; const size_t k = nc.nr_nodes(); note(i);
                nc.free_node(p); expect[e.lo]--; expect[e.hi]--; expect.erase(p); live.erase(p);
                REQUIRE(nc.nr_nodes() == k - 1, "count", "giving a node back changed the count from %zu to %zu", k, nc.nr_nodes());
                count("released");
            } else rest.push_back(p);
        }
        std::reverse(rest.begin(), rest.end()); order.swap(rest);
        for(auto& [p, x] : expect) REQUIRE(p->xref == x, "references", "a node has %d references instead of %ld after some were given back", p->xref, x);
        REQUIRE(nc.nr_nodes() == live.size() + 2, "count", "%zu nodes counted, %zu in use", nc.nr_nodes(), live.size() + 2);
        REQUIRE(ever.size() <= peak + page, "not-reused", "%zu different nodes handed out, at most %zu were in use", ever.size(), peak);
        nontrivial(mix(hist_id)); maximum("nodes", live.size());
    }
}
template<size_t PS, size_t NS> static void pages(Case& c)
{
    unique_table_page_cache<PS, NS> pc;
    REQUIRE(pc.nr_pages() == 0, "pages", "a fresh pool has %zu pages", pc.nr_pages());
    using P = unique_table_page<PS>;
    std::vector<P*> live; std::map<P*, u64> tag; size_t peak = 0; std::set<P*> ever;
    note(PS * 100000 + NS);
    const int steps = PS > 32768 ? c.rng.range(4, 24) : c.rng.range(5, 120); const int up = c.rng.range(40, 75);
    auto val = [](u64 t, size_t i) { return reinterpret_cast<node*>(mix(t + i) | 1); };
    for(int k = 0; k < steps; ++k) {
        if(live.empty() || c.rng.chance(up)) {
            P* p = pc.reserve_page();
            REQUIRE(p != nullptr && !tag.count(p), "issued-twice", "a page in use was handed out again");
            auto it = tag.upper_bound(p); 
            if(it != tag.end()) REQUIRE(p + 1 <= it->first, "overlap", "pages overlap");
            if(it != tag.begin()) { --it; REQUIRE(it->first + 1 <= p, "overlap", "pages overlap"); }
            for(size_t i = 0; i < PS; ++i) REQUIRE(p->data[i] == nullptr, "not-cleared", "slot %zu of a new page of %zu is not empty", i, PS);
            const u64 t = c.rng.next(); for(size_t i = 0; i < PS; ++i) p->data[i] = val(t, i);
            note(1); tag[p] = t; live.push_back(p); ever.insert(p); peak = std::max(peak, live.size()); count("pages_reserved");
        } else {
            const size_t i = c.rng.below(live.size()); note(i + 2); P* p = live[i]; live[i] = live.back(); live.pop_back(); tag.erase(p);
            pc.free_page(p); count("pages_released");
        }
        REQUIRE(pc.nr_pages() >= live.size() && pc.nr_pages() % NS == 0 && pc.nr_pages() < peak + NS, "pages", "%zu pages allocated in blocks of %zu, at most %zu were in use", pc.nr_pages(), NS, peak);
        if(k % 16 == 15) for(auto& [p, t] : tag) for(size_t i = 0; i < PS; ++i) REQUIRE(p->data[i] == val(t, i), "overwritten", "slot %zu of a page of %zu in use was changed", i, PS);
    }
    for(auto& [p, t] : tag) for(size_t i = 0; i < PS; ++i) REQUIRE(p->data[i] == val(t, i), "overwritten", "slot %zu of a page of %zu in use was changed", i, PS);
    nontrivial(mix(hist_id));
}
// the pools as used by a manager: tables of several variables grow, shrink and are given back; nothing overlaps, nothing is lost
template<class F> static void each_class(bdd_mgr& m, F f)
{
    auto& q = m.get_unique_table_page_cache();
    f(q.cache_64, 0); f(q.cache_128, 1); f(q.cache_256, 2); f(q.cache_512, 3); f(q.cache_1024, 4); f(q.cache_2048, 5); f(q.cache_4096, 6); f(q.cache_8192, 7); f(q.cache_16384, 8); f(q.cache_32768, 9); f(q.cache_65536, 10);
    f(q.cache_131072, 11); f(q.cache_262144, 12); f(q.cache_524288, 13); f(q.cache_1048576, 14);
}
template<class PC> struct Geometry; 
template<size_t PS, size_t NS> struct Geometry<unique_table_page_cache<PS, NS>> { static constexpr size_t ps = PS, ns = NS; };
static void tables(Case& c)
{
    bdd_mgr m;
    const bool large = args.mode == "tables-large";
    const size_t most = large ? 290000 : c.rng.chance(50) ? 20000 : 3000;
    const int V = large ? c.rng.range(2, 3) : c.rng.range(2, 5);
    size_t k = 2; while(k * (k - 1) < most + 8) ++k;
    std::vector<node_ref> ch; size_t bits = 1; while((size_t(1) << bits) < k) ++bits;
    m.projection(V + bits);
    for(size_t i = 0; i < k; ++i) { node_ref f = m.topsink(); for(size_t b = bits; b-- > 0;) f = (i >> b) & 1 ? m.unique_find(V + b, m.botsink(), f) : m.unique_find(V + b, f, m.botsink()); ch.push_back(f); }
    m.collect_garbage();
    const size_t base = m.nr_nodes(), vars = m.nr_variables();
    std::vector<std::vector<node_ref>> have(V); size_t peak = base;
    // node number q of a variable
    auto pair_of = [&](size_t q) { size_t i = q / (k - 1), j = q % (k - 1); if(j >= i) ++j; return std::make_pair(i, j); };
    const int rounds = large ? c.rng.range(2, 4) : c.rng.range(3, 10);
    std::unordered_set<node*> ever;
    for(int q = 0; q < rounds; ++q) {
        for(int v = 0; v < V; ++v) {
            size_t want = have[v].size();
            if(q < 1 || c.rng.chance(60)) { // sizes around the steps of the table, which doubles when half full
                want = c.rng.chance(60) ? (size_t(32) << c.rng.below(large ? 14 : 10)) + c.rng.below(40) : c.rng.below(most);
                if(large && c.rng.chance(70)) want = c.rng.range(132000, 280000);
                want = std::min(want, std::min(most, k * (k - 1)));
            }
            op("round %d: variable %d from %zu to %zu nodes", q, v, have[v].size(), want); note(want * 8 + v);
            if(want < have[v].size()) { have[v].resize(want); if(c.rng.chance(60)) { m.collect_garbage(); count("collections"); } }
            for(size_t x = have[v].size(); x < want; ++x) { auto [i, j] = pair_of(x); have[v].push_back(m.unique_find(v, ch[i], ch[j])); count("table_nodes"); }
            peak = std::max(peak, m.nr_nodes()); maximum("nodes_of_one_variable", want);
        }
        size_t total = 0; for(auto& h : have) total += h.size(); peak = std::max(peak, m.nr_nodes());
        // every node in use lies alone and keeps its contents
        std::unordered_set<node*> seen;
        for(int v = 0; v < V; ++v) for(size_t x = 0; x < have[v].size(); ++x) { auto [i, j] = pair_of(x); node* p = have[v][x].address(); REQUIRE(p->index == size_t(v) && p->lo == ch[i].address() && p->hi == ch[j].address(), "overwritten", "a node in use was changed"); REQUIRE(seen.insert(p).second, "issued-twice", "a node in use was handed out again"); if(!large) ever.insert(p); }
        m.collect_garbage(); count("collections");
        REQUIRE(m.nr_nodes() == base + total && m.get_node_cache().nr_nodes() == base + total, "count", "%zu nodes counted, %zu in use", m.nr_nodes(), base + total);
        REQUIRE(ever.size() <= peak + BDD::bdd_node_page_size, "not-reused", "%zu different nodes handed out, at most %zu were in use", ever.size(), peak);
        // every table holds exactly its own nodes: each is found again and nothing is made
        for(int v = 0; v < V; ++v) { const size_t step = large ? 1 + have[v].size() / 40000 : 1; for(size_t x = step > 1 ? c.rng.below(step) : 0; x < have[v].size(); x += step) { auto [i, j] = pair_of(x); REQUIRE(m.unique_find(v, ch[i], ch[j]) == have[v][x], "overlap", "a node of variable %d is not found in its table", v); count("table_lookups"); } }
        REQUIRE(m.nr_nodes() == base + total, "overlap", "looking up nodes in use made new ones: %zu instead of %zu", m.nr_nodes(), base + total);
        // pages: at most one per variable (and one taken directly below) is in use, so no class needs more blocks than that
        each_class(m, [&](auto& pc, int cl) {
            using G = Geometry<std::remove_reference_t<decltype(pc)>>;
            // large tables belong to the upper variables only
            const size_t tables = G::ps > 32 * k ? V : std::max<size_t>(vars, V);
            REQUIRE(pc.nr_pages() % G::ns == 0 && pc.nr_pages() < tables + 1 + G::ns, "pages", "%zu pages of %zu slots allocated in blocks of %zu for %zu variables", pc.nr_pages(), G::ps, G::ns, tables);
        });
        // pages taken from the pools of the manager are empty, and none of them belongs to a table
        if(c.rng.chance(large ? 30 : 60)) {
            const size_t b = m.nr_nodes();
            each_class(m, [&](auto& pc, int cl) {
                using G = Geometry<std::remove_reference_t<decltype(pc)>>;
                if(pc.nr_pages() == 0 || (G::ps > 65536 && !large)) return;
                auto* p = pc.reserve_page();
                for(size_t i = 0; i < G::ps; ++i) REQUIRE(p->data[i] == nullptr, "not-cleared", "slot %zu of a new page of %zu is not empty", i, G::ps);
                for(size_t i = 0; i < G::ps; ++i) p->data[i] = ch[0].address();
                for(int z = 0; z < 40; ++z) { const int v = c.rng.below(V); if(have[v].empty()) continue; const size_t x = c.rng.below(have[v].size()); auto [i, j] = pair_of(x); REQUIRE(m.unique_find(v, ch[i], ch[j]) == have[v][x], "overlap", "a page handed out belongs to a table in use"); }
                pc.free_page(p); count("pages_probed");
            });
            REQUIRE(m.nr_nodes() == b, "overlap", "nodes were made by looking up nodes in use: %zu instead of %zu", m.nr_nodes(), b);
        }
        nontrivial(mix(hist_id));
    }
}
// one table grows to a class and shrinks again so often that a page lost each time would show
static void cycling(Case& c)
{
    const size_t e = args.mode.find("-large") != std::string::npos ? c.rng.range(18, 20) : c.rng.range(7, 17), S = size_t(1) << e; const size_t V = c.rng.chance(70) ? 1 : 2;
    const size_t most = S / 4 + 3; Cycling w(most, V); const size_t ns = (size_t(1) << 20) / S; size_t rounds = ns + (e > 17 ? 3 : 8 + c.rng.below(8));
    op("%zu rounds of growing to a table of %zu slots and shrinking", rounds, S); note(S); note(rounds); note(V);
    std::unordered_set<node*> ever; const bool addr = most * rounds < 3000000;
    for(size_t q = 0; q < rounds; ++q) {
        for(size_t v = 0; v < V; ++v) w.grow(v, q == 0 || c.rng.chance(90) ? most : c.rng.range(0, int(most)));
        if(addr && (q < 3 || q + 3 > rounds || q % 16 == 0)) for(auto& h : w.have) for(auto& x : h) ever.insert(x.address());
        for(size_t v = 0; v < V; ++v) w.shrink(v, c.rng.chance(80) ? 0 : c.rng.range(0, int(S / 64)));
        w.collect();
        REQUIRE(ever.size() <= w.peak + BDD::bdd_node_page_size, "not-reused", "%zu different nodes handed out, at most %zu were in use", ever.size(), w.peak);
        if(q % 8 == 7 || q + 1 == rounds) each_class(w.m, [&](auto& pc, int) {
            using G = Geometry<std::remove_reference_t<decltype(pc)>>;
            const size_t tables = G::ps > 32 * w.k ? V : w.m.nr_variables();
            REQUIRE(pc.nr_pages() % G::ns == 0 && pc.nr_pages() < tables + 1 + G::ns, "pages", "%zu pages of %zu slots allocated in blocks of %zu for at most %zu tables, after %zu rounds", pc.nr_pages(), G::ps, G::ns, tables, q + 1);
        });
        count("rounds");
    }
    maximum("rounds_of_one_table", rounds); maximum("table_slots", S); nontrivial(mix(hist_id));
}
void run_case(Case& c)
{
    if(args.mode.rfind("cycling", 0) == 0) { cycling(c); return; }
    if(args.mode == "nodes") { nodes(c); return; }
    if(args.mode.rfind("tables", 0) == 0) { tables(c); return; }
    if(args.mode == "pages-large") { switch(c.rng.below(6)) { case 0: pages<1048576, 1>(c); break; case 1: pages<524288, 2>(c); break; case 2: pages<262144, 4>(c); break; case 3: pages<131072, 8>(c); break; case 4: pages<65536, 16>(c); break; default: pages<32768, 32>(c); } return; }
    switch(c.no % 12) {
        case 0: pages<64, 1>(c); break; case 1: pages<64, 2>(c); break; case 2: pages<64, 16>(c); break; case 3: pages<128, 3>(c); break;
        case 4: pages<256, 8>(c); break; case 5: pages<512, 1>(c); break; case 6: pages<1024, 4>(c); break; case 7: pages<4096, 2>(c); break;
        case 8: pages<64, 16384>(c); break; case 9: pages<16384, 2>(c); break; case 10: pages<128, 8192>(c); break; default: pages<2048, 5>(c); break;
    }
}
void end_of_chunk() {}
