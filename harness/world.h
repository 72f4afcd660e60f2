// Reference model: truth tables over a few model variables mapped to manager variables, and a pool of
// (handle, expected function) pairs that grows and shrinks as a history of manager operations runs.
#pragma once
#include "common.h"
#include "calls.h"
#include "bdd_mgr.h"
#include <memory>

namespace H {
using BDD::bdd_mgr; using BDD::node_ref; using BDD::node;

struct TT {
    int n = 0;
    std::vector<u64> w;
    TT() {}
    explicit TT(int n_, bool v = false) : n(n_), w(n_ <= 6 ? 1 : size_t(1) << (n_ - 6), v ? ~u64(0) : 0) { trim(); }
    u64 mask() const { return n >= 6 ? ~u64(0) : (u64(1) << (u64(1) << n)) - 1; }
    void trim() { if(n < 6) w[0] &= mask(); }
    size_t size() const { return size_t(1) << n; }
    bool bit(size_t a) const { return (w[a >> 6] >> (a & 63)) & 1; }
    void set(size_t a, bool v) { if(v) w[a >> 6] |= u64(1) << (a & 63); else w[a >> 6] &= ~(u64(1) << (a & 63)); }
    static TT var(int n, int i)
    {
        static const u64 p[6] = {0xAAAAAAAAAAAAAAAAULL, 0xCCCCCCCCCCCCCCCCULL, 0xF0F0F0F0F0F0F0F0ULL, 0xFF00FF00FF00FF00ULL, 0xFFFF0000FFFF0000ULL, 0xFFFFFFFF00000000ULL};
        TT t(n);
        if(i < 6) for(u64& x : t.w) x = p[i];
        else for(size_t k = 0; k < t.w.size(); ++k) t.w[k] = (k >> (i - 6)) & 1 ? ~u64(0) : 0;
        t.trim();
        return t;
    }
    TT operator~() const { TT r = *this; for(u64& x : r.w) x = ~x; r.trim(); return r; }
    TT operator&(const TT& o) const { TT r = *this; for(size_t k = 0; k < w.size(); ++k) r.w[k] &= o.w[k]; return r; }
    TT operator|(const TT& o) const { TT r = *this; for(size_t k = 0; k < w.size(); ++k) r.w[k] |= o.w[k]; return r; }
    TT operator^(const TT& o) const { TT r = *this; for(size_t k = 0; k < w.size(); ++k) r.w[k] ^= o.w[k]; return r; }
    bool operator==(const TT& o) const { return n == o.n && w == o.w; }
    bool operator!=(const TT& o) const { return !(*this == o); }
    bool operator<(const TT& o) const { return w < o.w; }
    bool is_const(bool v) const { return *this == TT(n, v); }
    size_t ones() const { size_t s = 0; for(u64 x : w) s += __builtin_popcountll(x); return s; }
    u64 hash() const { u64 h = 1469598103934665603ULL + n; for(u64 x : w) h = mix(h ^ x); return h; }
    std::string str() const { std::string s; char b[20]; for(size_t k = std::min<size_t>(w.size(), 4); k-- > 0;) { snprintf(b, sizeof b, "%llx.", (unsigned long long)w[k]); s += b; } if(w.size() > 4) s += "..."; return s; }
    static TT random(int n, Rng& r) { TT t(n); for(u64& x : t.w) x = r.next(); t.trim(); return t; }
    TT cofactor(int i, bool v) const
    {
        TT r = *this;
        if(i < 6) {
            const u64 m = var(6, i).w[0]; const int s = 1 << i;
            for(u64& x : r.w) { if(v) { x &= m; x |= x >> s; } else { x &= ~m; x |= x << s; } }
            r.trim();
        } else {
            const size_t s = size_t(1) << (i - 6);
            for(size_t k = 0; k < w.size(); ++k) { const size_t src = v ? (k | s) : (k & ~s); r.w[k] = w[src]; }
        }
        return r;
    }
    bool depends(int i) const { return cofactor(i, false) != cofactor(i, true); }
};
struct TTHash { size_t operator()(const TT& t) const { return t.hash(); } };

// hash of the graph below a handle: branch variables and successors, not addresses
inline u64 shape(node_ref f)
{
    std::unordered_map<node*, u64> s;
    for(auto& x : f.nodes_postorder()) {
        auto val = [&](const node_ref& y) { return y.is_topsink() ? u64(1) : y.is_botsink() ? u64(2) : s[y.address()]; };
        s[x.address()] = mix(mix(x.variable() * 3 + val(x.low())) * 5 + val(x.high()));
    }
    return f.is_topsink() ? 1 : f.is_botsink() ? 2 : s[f.address()];
}
// nodes of the reduced ordered diagram of t with model variable order 0..n-1 (without terminals), by level
struct RefBdd {
    std::vector<size_t> per_level; size_t nodes = 0;
    explicit RefBdd(const TT& t) : per_level(t.n, 0)
    {
        std::unordered_set<TT, TTHash> level{t};
        for(int i = 0; i < t.n; ++i) {
            std::unordered_set<TT, TTHash> next;
            for(const TT& f : level) {
                TT a = f.cofactor(i, false), b = f.cofactor(i, true);
                if(a != b) { ++per_level[i]; ++nodes; }
                next.insert(std::move(a)); next.insert(std::move(b));
            }
            level.swap(next);
        }
    }
};

struct World {
    std::unique_ptr<bdd_mgr> mp;
    bdd_mgr& m;
    int n;
    std::vector<size_t> vmap; // model variable -> manager variable, strictly increasing
    std::unordered_map<size_t, int> inv;
    Rng& r;
    struct E { node_ref h; TT t; };
    std::vector<E> pool;
    size_t pool_limit = 60;
    u64 ops = 0;

    World(int n_, Rng& r_, int gap = 0) : mp(new bdd_mgr), m(*mp), n(n_), r(r_)
    {
        size_t v = gap > 0 ? r.below(gap + 1) : 0;
        if(r.chance(8)) { static const size_t edge[] = {256, 256, 256, 1024}; v = edge[r.below(4)] - r.below(n + 1); } // around round indices
        for(int i = 0; i < n; ++i) { vmap.push_back(v); inv[v] = i; v += 1 + (gap > 0 ? r.below(gap + 1) : 0); }
        std::string s; for(size_t x : vmap) s += std::to_string(x) + " ";
        op("world n=%d manager variables: %s", n, s.c_str());
    }
    ~World() { pool.clear(); }

    // ---- oracle: function of a handle, read through low/high/variable
    struct Walk { std::unordered_map<node*, TT> tt; };
    const TT& walk(const node_ref& f, Walk& w)
    {
        auto it = w.tt.find(f.address());
        if(it != w.tt.end()) return it->second;
        if(f.is_topsink()) return w.tt.emplace(f.address(), TT(n, true)).first->second;
        if(f.is_botsink()) return w.tt.emplace(f.address(), TT(n, false)).first->second;
        node_ref g(f);
        node_ref lo = g.low(), hi = g.high();
        const size_t v = g.variable();
        auto iv = inv.find(v);
        REQUIRE(iv != inv.end(), "foreign-variable", "a result branches on variable %zu, which no operand depends on", v);
        REQUIRE(lo != hi, "not-reduced", "a node on variable %zu has equal successors", v);
        REQUIRE(lo.is_terminal() || lo.variable() > v, "not-ordered", "0-successor of variable %zu branches on %zu", v, lo.variable());
        REQUIRE(hi.is_terminal() || hi.variable() > v, "not-ordered", "1-successor of variable %zu branches on %zu", v, hi.variable());
        const TT a = walk(lo, w), b = walk(hi, w);
        const TT x = TT::var(n, iv->second);
        return w.tt.emplace(f.address(), (x & b) | (~x & a)).first->second;
    }
    TT tt_of(const node_ref& f) { Walk w; return walk(f, w); }

    std::vector<char> labeling(size_t a, bool fill = false)
    {
        std::vector<char> l(vmap.empty() ? 1 : vmap.back() + 1, 0);
        if(fill) for(char& x : l) x = char(r.below(2));
        for(int i = 0; i < n; ++i) l[vmap[i]] = (a >> i) & 1;
        return l;
    }
    bool eval(node_ref f, size_t a) { return with_labels(labeling(a, true), r, [&](auto b, auto e) { return f.evaluate(b, e); }); }

    // ---- build a handle for a function bottom up
    node_ref from_tt(const TT& t, int i = 0)
    {
        if(t.is_const(false)) return m.botsink();
        if(t.is_const(true)) return m.topsink();
        while(!t.depends(i)) ++i;
        node_ref lo = from_tt(t.cofactor(i, false), i + 1), hi = from_tt(t.cofactor(i, true), i + 1);
        need_var(vmap[i]);
        return m.unique_find(vmap[i], lo, hi);
    }
    void need_var(size_t v) { while(m.nr_variables() <= v) m.add_variable(); }

    // ---- checks
    void check_result(const char* what, const node_ref& f, const TT& expect)
    {
        REQUIRE(f.address() != nullptr, "null-result", "%s returned no diagram", what);
        const TT got = tt_of(f);
        if(got != expect) {
            size_t a = 0; while(a < got.size() && got.bit(a) == expect.bit(a)) ++a;
            violation("wrong-function", "%s: at assignment %zx (bit i = model variable i) expected %d, got %d; expected %s got %s", what, a, int(expect.bit(a)), int(got.bit(a)), expect.str().c_str(), got.str().c_str());
        }
        for(int k = 0; k < 3; ++k) {
            const size_t a = r.below(size_t(1) << n);
            REQUIRE(eval(f, a) == expect.bit(a), "wrong-evaluation", "%s: evaluate at assignment %zx is not %d", what, a, int(expect.bit(a)));
        }
    }
    // every pool handle denotes its function; nodes of all handles are distinct functions
    void check_pool(bool canonical)
    {
        Walk w;
        for(size_t k = 0; k < pool.size(); ++k) {
            const TT& got = walk(pool[k].h, w);
            REQUIRE(got == pool[k].t, "handle-changed", "handle #%zu denotes %s instead of %s", k, got.str().c_str(), pool[k].t.str().c_str());
        }
        if(canonical) check_canonical(w);
        count("pool_checks"); count("handles_checked", pool.size()); count("nodes_checked", w.tt.size());
    }
    void check_canonical(Walk& w)
    {
        std::unordered_map<TT, node*, TTHash> owner;
        for(auto& [p, t] : w.tt) {
            auto [it, fresh] = owner.emplace(t, p);
            REQUIRE(fresh || it->second == p, "duplicate-function", "two different nodes represent the function %s", t.str().c_str());
        }
    }

    size_t put(const char* what, node_ref h, TT t, bool check = true)
    {
        ++ops;
        if(check) check_result(what, h, t);
        nontrivial(mix(t.hash() ^ mix(std::hash<std::string>()(what))));
        if(pool.size() >= pool_limit) {
            const size_t k = 2 + r.below(pool.size() - 2);
            op("  (slot %zu reused)", k);
            pool[k] = E{h, t};
            return k;
        }
        pool.push_back(E{h, t});
        return pool.size() - 1;
    }
    void start()
    {
        pool.push_back(E{m.botsink(), TT(n, false)});
        pool.push_back(E{m.topsink(), TT(n, true)});
    }
    size_t pick()
    {
        if(pool.size() > 4 && r.chance(40)) return pool.size() - 1 - r.below(4);
        if(r.chance(8)) return r.below(2);
        return r.below(pool.size());
    }
    size_t pick_nonterminal()
    {
        for(int k = 0; k < 20; ++k) { size_t i = pick(); if(!pool[i].h.is_terminal()) return i; }
        const int i = r.below(n);
        op("projection(%zu)", vmap[i]);
        return put("projection", m.projection(vmap[i]), TT::var(n, i));
    }

    // ---- operations (each is logged, executed and recorded with its expected function)
    void do_projection()
    {
        const int i = r.below(n);
        op("#%zu = projection(%zu)", pool.size(), vmap[i]); count("projection");
        put("projection", m.projection(vmap[i]), TT::var(n, i));
    }
    void do_neg_projection()
    {
        const int i = r.below(n);
        need_var(vmap[i]);
        op("#%zu = neg_projection(%zu)", pool.size(), vmap[i]); count("neg_projection");
        put("neg_projection", m.neg_projection(vmap[i]), ~TT::var(n, i));
    }
    void do_negate(size_t a)
    {
        op("#%zu = negate(#%zu)", pool.size(), a); count("negate");
        put("negate", r.chance(50) ? m.negate(pool[a].h) : !pool[a].h, ~pool[a].t);
    }
    void do_bin(int which, size_t a, size_t b)
    {
        static const char* nm[] = {"and", "or", "xor"};
        op("#%zu = %s(#%zu,#%zu)", pool.size(), nm[which], a, b); count(nm[which]);
        node_ref x = pool[a].h, y = pool[b].h;
        const TT t = which == 0 ? pool[a].t & pool[b].t : which == 1 ? pool[a].t | pool[b].t : pool[a].t ^ pool[b].t;
        const bool oper = r.chance(30);
        node_ref z = which == 0 ? (oper ? x & y : m.and_rec(x, y)) : which == 1 ? (oper ? x || y : m.or_rec(x, y)) : (oper ? x ^ y : m.xor_rec(x, y));
        put(nm[which], z, t);
    }
    void do_ite(size_t a, size_t b, size_t c)
    {
        op("#%zu = ite(#%zu,#%zu,#%zu)", pool.size(), a, b, c); count("ite");
        const TT t = (pool[a].t & pool[b].t) | (~pool[a].t & pool[c].t);
        put("ite", m.ite_rec(pool[a].h, pool[b].h, pool[c].h), t);
    }
    void do_nary(int which)
    {
        static const char* nm[] = {"and-n", "or-n", "xor-n"};
        const size_t k = r.chance(70) ? 3 + r.below(4) : 2 + r.below(12);
        std::vector<node_ref> hs; TT t; std::string s;
        for(size_t i = 0; i < k; ++i) {
            const size_t a = pick(); s += "#" + std::to_string(a) + " ";
            hs.push_back(pool[a].h);
            t = i == 0 ? pool[a].t : which == 0 ? t & pool[a].t : which == 1 ? t | pool[a].t : t ^ pool[a].t;
        }
        const bool variadic = k >= 3 && k <= 5 && r.chance(50);
        op("#%zu = %s%s(%s)", pool.size(), nm[which], variadic ? " variadic" : " iterator", s.c_str()); count(nm[which]);
        node_ref z;
        auto& h = hs;
        if(variadic) {
            if(which == 0) z = k == 3 ? m.and_rec(h[0], h[1], h[2]) : k == 4 ? m.and_rec(h[0], h[1], h[2], h[3]) : m.and_rec(h[0], h[1], h[2], h[3], h[4]);
            else if(which == 1) z = k == 3 ? m.or_rec(h[0], h[1], h[2]) : k == 4 ? m.or_rec(h[0], h[1], h[2], h[3]) : m.or_rec(h[0], h[1], h[2], h[3], h[4]);
            else z = k == 3 ? m.xor_rec(h[0], h[1], h[2]) : k == 4 ? m.xor_rec(h[0], h[1], h[2], h[3]) : m.xor_rec(h[0], h[1], h[2], h[3], h[4]);
        } else
            z = which == 0 ? m.and_rec(h.begin(), h.end()) : which == 1 ? m.or_rec(h.begin(), h.end()) : m.xor_rec(h.begin(), h.end());
        put(nm[which], z, t);
    }
    // all binary operations and if-then-else forms on one operand pair, in random order: memo keys must not clash
    void do_family()
    {
        const size_t a = pick(), b = pick(), c = pick();
        std::vector<int> order = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
        for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
        const size_t kmax = 3 + r.below(7);
        // operands are kept by value: slots may be reused meanwhile
        const E A = pool[a], B = pool[b], C = pool[c];
        op("family of #%zu #%zu #%zu", a, b, c); count("families");
        for(size_t k = 0; k < kmax; ++k) {
            node_ref z; TT t; const char* nm = "";
            switch(order[k]) {
                case 0: z = m.and_rec(A.h, B.h); t = A.t & B.t; nm = "and"; break;
                case 1: z = m.or_rec(A.h, B.h); t = A.t | B.t; nm = "or"; break;
                case 2: z = m.xor_rec(A.h, B.h); t = A.t ^ B.t; nm = "xor"; break;
                case 3: z = m.ite_rec(A.h, B.h, C.h); t = (A.t & B.t) | (~A.t & C.t); nm = "ite(a,b,c)"; break;
                case 4: z = m.ite_rec(A.h, C.h, B.h); t = (A.t & C.t) | (~A.t & B.t); nm = "ite(a,c,b)"; break;
                case 5: z = m.ite_rec(B.h, A.h, C.h); t = (B.t & A.t) | (~B.t & C.t); nm = "ite(b,a,c)"; break;
                case 6: z = m.ite_rec(A.h, m.botsink(), B.h); t = ~A.t & B.t; nm = "ite(a,0,b)"; break;
                case 7: z = m.ite_rec(A.h, B.h, m.topsink()); t = ~A.t | B.t; nm = "ite(a,b,1)"; break;
                case 8: z = m.ite_rec(A.h, B.h, m.negate(B.h)); t = ~(A.t ^ B.t); nm = "ite(a,b,!b)"; break;
                default: z = m.negate(A.h); t = ~A.t; nm = "negate"; break;
            }
            op("  #%zu = %s", pool.size(), nm);
            put(nm, z, t);
        }
    }
    void do_drop()
    {
        if(pool.size() <= 3) return;
        const size_t k = 2 + r.below(pool.size() - 2);
        op("drop #%zu (last moves there)", k); count("drop");
        if(k + 1 != pool.size()) pool[k] = pool.back();
        pool.pop_back();
    }
    void drop_many()
    {
        const int keep = r.range(0, 100);
        std::vector<E> q;
        for(size_t k = 0; k < pool.size(); ++k) if(k < 2 || r.chance(keep)) q.push_back(pool[k]);
        op("drop handles, %zu -> %zu", pool.size(), q.size()); count("drop", pool.size() - q.size());
        pool.swap(q);
    }
    void do_gc() { op("collect_garbage"); count("collect_garbage"); m.collect_garbage(); }
    void do_random_function()
    {
        TT t = TT::random(n, r);
        const int sh = r.below(3);
        for(int k = 0; k < sh; ++k) t = r.chance(50) ? t & TT::random(n, r) : t | TT::random(n, r);
        op("#%zu = function %s built bottom up", pool.size(), t.str().c_str()); count("built");
        put("unique_find", from_tt(t), t);
    }
    void do_copy()
    {
        const size_t a = pick(), b = pick();
        op("copy/move/assign handles #%zu #%zu", a, b); count("handle_copies");
        node_ref x(pool[a].h); node_ref y; y = x; y = y; node_ref z(std::move(x)); x = pool[b].h; x = z;
        REQUIRE(x == y && y == z && x == pool[a].h && x.address() == pool[a].h.address(), "handle-copy", "copies of one handle differ");
        REQUIRE((pool[a].h == pool[b].h) == (pool[a].h.address() == pool[b].h.address()) && (pool[a].h != pool[b].h) == !(pool[a].h == pool[b].h), "handle-compare", "comparison of handles is inconsistent");
        put("copy", x, pool[a].t);
    }
    void boolean_step()
    {
        const int k = r.below(100);
        if(k < 10) do_projection();
        else if(k < 14) do_neg_projection();
        else if(k < 24) do_negate(pick());
        else if(k < 54) do_bin(r.below(3), pick(), pick());
        else if(k < 72) do_ite(pick(), pick(), pick());
        else if(k < 84) do_nary(r.below(3));
        else if(k < 91) do_family();
        else if(k < 95) do_random_function();
        else if(k < 97) do_copy();
        else do_drop();
    }
};
} // namespace H
