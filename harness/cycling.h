#pragma once
// One variable whose table grows to a class and shrinks again, over and over.
#include "common.h"
#include "bdd_mgr.h"
namespace H {
using BDD::bdd_mgr; using BDD::node_ref;
struct Cycling {
    bdd_mgr m; const size_t V; size_t k = 2, bits = 1, base = 0, peak = 0; std::vector<node_ref> ch; std::vector<std::vector<node_ref>> have;
    // room for `most` nodes on each of the first V variables
    Cycling(size_t most, size_t v) : V(v), have(v)
    {
        while(k * (k - 1) < most + 8) ++k;
        while((size_t(1) << bits) < k) ++bits;
        m.projection(V + bits);
        for(size_t i = 0; i < k; ++i) { node_ref f = m.topsink(); for(size_t b = bits; b-- > 0;) f = (i >> b) & 1 ? m.unique_find(V + b, m.botsink(), f) : m.unique_find(V + b, f, m.botsink()); ch.push_back(f); }
        m.collect_garbage(); base = m.nr_nodes();
    }
    std::pair<size_t, size_t> pair_of(size_t q) const { size_t i = q / (k - 1), j = q % (k - 1); if(j >= i) ++j; return {i, j}; }
    void grow(size_t v, size_t n) { auto& h = have[v]; h.reserve(n); for(size_t x = h.size(); x < n; ++x) { auto [i, j] = pair_of(x); h.push_back(m.unique_find(v, ch[i], ch[j])); } count("table_nodes", n); peak = std::max(peak, m.nr_nodes()); }
    void shrink(size_t v, size_t n) { auto& h = have[v]; if(n < h.size()) h.resize(n); }
    size_t held() const { size_t t = 0; for(auto& h : have) t += h.size(); return t; }
    void collect() { m.collect_garbage(); count("collections"); REQUIRE(m.nr_nodes() == base + held(), "count", "%zu nodes counted after a collection, %zu in use", m.nr_nodes(), base + held()); }
};
}
