// The ways in which a user can hand over the same arguments.
#pragma once
#include "common.h"
#include <deque>

namespace H {
// an assignment handed over in different containers; any value that converts to true makes a variable true
template<typename F> bool with_labels(const std::vector<char>& l, Rng& r, F f)
{
    auto raise = [&](auto& v, size_t top) { if(r.chance(50)) { for(auto& x : v) if(x) x = static_cast<std::decay_t<decltype(x)>>(1 + r.below(top)); count("nonzero_labels"); } };
    switch(r.below(9)) {
        case 0: { std::vector<bool> v(l.begin(), l.end()); return f(v.begin(), v.end()); }
        case 1: { std::vector<int> v(l.begin(), l.end()); raise(v, 2000000000); if(r.chance(30)) for(int& x : v) x = -x; return f(v.cbegin(), v.cend()); }
        case 2: { std::deque<bool> v(l.begin(), l.end()); return f(v.begin(), v.end()); }
        case 3: { std::vector<size_t> v(l.begin(), l.end()); raise(v, size_t(1) << 62); if(r.chance(30)) for(size_t& x : v) x <<= 40; return f(v.data(), v.data() + v.size()); }
        case 4: { std::vector<unsigned char> v(l.begin(), l.end()); raise(v, 255); return f(v.begin(), v.end()); }
        default: return f(l.begin(), l.end());
    }
}
// a conjunction of entries through one of the overloads, the entries listed in one of several containers
template<typename COL> size_t and_call(COL& col, const std::vector<size_t>& idx, size_t limit, Rng& r, bool list = false)
{
    const bool def = limit == std::numeric_limits<size_t>::max() && r.chance(50);
    if(idx.size() == 2 && !list) {
        const size_t i = idx[0], j = idx[1];
        if(r.chance(50)) return def ? col.bdd_and(i, j) : col.bdd_and(i, j, limit);
        count(i == j ? "int_overload_same" : "int_overload"); return def ? col.bdd_and(int(i), int(j)) : col.bdd_and(int(i), int(j), limit);
    }
    auto call = [&](auto b, auto e) { return def ? col.bdd_and(b, e) : col.bdd_and(b, e, limit); };
    switch(r.below(8)) {
        case 0: case 1: { std::deque<size_t> v(idx.begin(), idx.end()); return call(v.cbegin(), v.cend()); }
        case 2: case 3: return call(idx.data(), idx.data() + idx.size());
        default: return call(idx.begin(), idx.end());
    }
}
// entries to remove, in increasing order, listed in one of several containers
template<typename COL> void remove_call(COL& col, const std::vector<size_t>& del, Rng& r)
{
    switch(r.below(8)) {
        case 0: case 1: { std::deque<size_t> v(del.begin(), del.end()); col.remove(v.begin(), v.end()); REQUIRE(std::equal(v.begin(), v.end(), del.begin(), del.end()), "list-changed", "remove() changed the list it was given"); break; }
        case 2: case 3: { std::vector<size_t> v(del); col.remove(v.data(), v.data() + v.size()); break; }
        default: { std::vector<size_t> v(del); col.remove(v.begin(), v.end()); REQUIRE(v == del, "list-changed", "remove() changed the list it was given"); }
    }
}
// a renaming given by position, in one of several containers; call(begin, end)
template<typename F> auto with_map(const std::vector<size_t>& m, Rng& r, F call)
{
    switch(r.below(5)) {
        case 0: { std::deque<size_t> v(m.begin(), m.end()); return call(v.begin(), v.end()); }
        case 1: return call(m.data(), m.data() + m.size());
        default: return call(m.begin(), m.end());
    }
}
}
