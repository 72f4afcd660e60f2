// Reference model for large diagrams: an independent little diagram manager (ids; 0 = false, 1 = true) in which
// every expected result is computed, and worlds of (handle, id) pairs and (entry, id) pairs judged against it.
// Conversion of a library diagram into an id visits every node, so equality of ids is equality of functions.
#pragma once
#include "common.h"
#include "calls.h"
#include "bdd_mgr.h"
#include "bdd_collection.h"
#include <memory>

namespace H {
using BDD::bdd_mgr; using BDD::node_ref; using BDD::node; using BDD::bdd_collection; using BDD::bdd_collection_node;

typedef uint32_t id;
constexpr id NOID = ~id(0);

struct RefMgr {
    struct N { size_t var; id lo, hi; u64 h; };
    std::vector<N> n;
    std::vector<id> tab; size_t mask;
    struct Key { u64 a, b; bool operator==(const Key& o) const { return a == o.a && b == o.b; } };
    struct KH { size_t operator()(const Key& k) const { return mix(k.a * 0x9e3779b97f4a7c15ULL + k.b); } };
    std::unordered_map<Key, id, KH> memo;
    std::vector<uint32_t> stamp; uint32_t epoch = 0;
    size_t budget = ~size_t(0); // largest number of nodes

    RefMgr() : tab(1 << 12, NOID), mask((1 << 12) - 1)
    {
        n.push_back({~size_t(0), 0, 0, 11}); n.push_back({~size_t(0), 1, 1, 13});
    }
    u64 slot(size_t v, id lo, id hi) const { return mix(v * 0x100000001b3ULL + (u64(lo) << 32 | hi)); }
    id mk(size_t v, id lo, id hi)
    {
        if(lo == hi) return lo;
        size_t p = slot(v, lo, hi) & mask;
        for(; tab[p] != NOID; p = (p + 1) & mask) { const N& x = n[tab[p]]; if(x.var == v && x.lo == lo && x.hi == hi) return tab[p]; }
        if(n.size() > budget) throw Full();
        const id r = id(n.size());
        n.push_back({v, lo, hi, mix(mix(v * 3 + n[lo].h) * 5 + n[hi].h)});
        tab[p] = r;
        if(n.size() * 2 > tab.size()) {
            std::vector<id> t(tab.size() * 2, NOID); mask = t.size() - 1;
            for(id i = 2; i < n.size(); ++i) { size_t q = slot(n[i].var, n[i].lo, n[i].hi) & mask; while(t[q] != NOID) q = (q + 1) & mask; t[q] = i; }
            tab.swap(t);
        }
        return r;
    }
    struct Full {};
    size_t top(id f) const { return n[f].var; } // terminals: largest number
    id cof(id f, size_t v, int b) const { return n[f].var == v ? (b ? n[f].hi : n[f].lo) : f; }
    // op: 0 and, 1 or, 2 xor
    id apply(int op, id f, id g)
    {
        if(op == 0) { if(f == 0 || g == 0) return 0; if(f == 1) return g; if(g == 1 || f == g) return f; }
        else if(op == 1) { if(f == 1 || g == 1) return 1; if(f == 0) return g; if(g == 0 || f == g) return f; }
        else { if(f == g) return 0; if(f == 0) return g; if(g == 0) return f; if(f == 1 && g < 2) return 1 - g; }
        if(f > g) std::swap(f, g);
        const Key k{u64(f) << 32 | g, u64(op)};
        auto it = memo.find(k); if(it != memo.end()) return it->second;
        const size_t v = std::min(top(f), top(g));
        const id lo = apply(op, cof(f, v, 0), cof(g, v, 0)), hi = apply(op, cof(f, v, 1), cof(g, v, 1));
        const id r = mk(v, lo, hi); memo[k] = r; return r;
    }
    id neg(id f) { return apply(2, f, 1); }
    id ite(id f, id g, id h)
    {
        if(f == 1) return g; if(f == 0) return h; if(g == h) return g; if(g == 1 && h == 0) return f;
        const Key k{u64(f) << 32 | g, u64(h) << 8 | 7};
        auto it = memo.find(k); if(it != memo.end()) return it->second;
        const size_t v = std::min(top(f), std::min(top(g), top(h)));
        const id lo = ite(cof(f, v, 0), cof(g, v, 0), cof(h, v, 0)), hi = ite(cof(f, v, 1), cof(g, v, 1), cof(h, v, 1));
        const id r = mk(v, lo, hi); memo[k] = r; return r;
    }
    id var(size_t v) { return mk(v, 0, 1); }
    void fresh() { if(stamp.size() < n.size()) stamp.resize(n.size() + 1024, 0); ++epoch; }
    // nodes reachable from f, successors first
    void reach(id f, std::vector<id>& out)
    {
        std::vector<std::pair<id, int>> st; 
        if(f < 2 || stamp[f] == epoch) return;
        stamp[f] = epoch; st.push_back({f, 0});
        while(!st.empty()) {
            auto& [x, k] = st.back();
            if(k == 2) { out.push_back(x); st.pop_back(); continue; }
            const id y = k++ ? n[x].hi : n[x].lo;
            if(y >= 2 && stamp[y] != epoch) { stamp[y] = epoch; st.push_back({y, 0}); }
        }
    }
    std::vector<id> postorder(id f) { fresh(); std::vector<id> o; reach(f, o); return o; }
    size_t size(id f) { return postorder(f).size(); }
    size_t size(const std::vector<id>& fs) { fresh(); std::vector<id> o; for(id f : fs) reach(f, o); return o.size(); }
    std::vector<size_t> support(id f) { std::vector<size_t> v; for(id x : postorder(f)) v.push_back(n[x].var); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
    template<class L> bool eval(id f, const L& l) const { while(f >= 2) f = l[n[f].var] ? n[f].hi : n[f].lo; return f == 1; }
    template<class MAP> id rename(id f, const MAP& to)
    {
        std::unordered_map<id, id> m{{0, 0}, {1, 1}};
        for(id x : postorder(f)) { const N y = n[x]; m[x] = mk(to.at(y.var), m[y.lo], m[y.hi]); }
        return m[f];
    }
    u64 hash(id f) const { return n[f].h; }
};

struct SWorld {
    Rng& r;
    std::unique_ptr<bdd_mgr> mp; bdd_mgr& m;
    RefMgr R;
    std::vector<size_t> vs; // variables in use, increasing
    std::vector<char> lab;  // labeling, long enough for every variable in use
    struct E { node_ref h; id f; };
    std::vector<E> pool; size_t pool_limit = 16;
    size_t target;          // size of generated diagrams (upper end)
    std::unordered_map<node*, id> walked; std::unordered_map<id, node*> owner; // since the last collection

    static std::vector<size_t> draw_vars(Rng& r, int n, bool far)
    {
        std::vector<size_t> v; const int kind = r.below(far ? 4 : 3);
        static const size_t edge[] = {256, 256, 1024, 4096, 32768, 65536};
        size_t x = kind == 0 ? 0 : r.below(4), gap = kind == 0 ? 1 : 1 + r.below(6);
        if(kind == 3) { const size_t e = edge[r.below(6)]; const int low = r.chance(40) ? r.below(4) : 0; for(int i = 0; i < low; ++i) v.push_back(i); x = e - r.below(std::min<size_t>(n + 1, e - 8)); }
        while(int(v.size()) < n) { v.push_back(x); x += 1 + r.below(gap); }
        return v;
    }
    SWorld(Rng& r_, int n, size_t target_, bool far = true) : r(r_), mp(new bdd_mgr), m(*mp), vs(draw_vars(r_, n, far)), lab(vs.back() + 1, 0), target(target_)
    {
        op("variables: %d from %zu to %zu", n, vs.front(), vs.back()); note(vs.front()); note(vs.back());
        maximum("variable_index", vs.back());
        pool.push_back({m.botsink(), 0}); pool.push_back({m.topsink(), 1});
    }
    ~SWorld() { pool.clear(); }
    void need_var(size_t v) { while(m.nr_variables() <= v) m.add_variable(); }
    void need_all() { need_var(vs.back()); }

    // ---- generators
    id layered(size_t T)
    {
        const size_t k = vs.size(); std::vector<id> below{0, 1}, open; // open: not yet used as a successor
        size_t made = 0;
        for(size_t q = k; q-- > 0;) {
            size_t lg = 0; while((size_t(1) << lg) < open.size()) ++lg;
            std::vector<id> fresh;
            for(size_t i = open.size(); i > 1; --i) std::swap(open[i - 1], open[r.below(i)]);
            auto take = [&]() -> id { if(!open.empty() && r.chance(75)) { id x = open.back(); open.pop_back(); return x; } return below[r.below(below.size())]; };
            if(q <= lg || made >= T) { // close: pair up
                while(open.size() >= 2) { id a = open.back(); open.pop_back(); id b = open.back(); open.pop_back(); fresh.push_back(R.mk(vs[q], a, b)); }
            } else {
                const size_t rest = T - made; size_t w = r.chance(30) ? 1 + r.below(rest) : 1 + r.below(std::max<size_t>(1, 3 * rest / (q + 1)));
                w = std::min(w, below.size() * below.size());
                for(size_t i = 0; i < w; ++i) { const id a = take(), b = take(); if(a == b) continue; const size_t s = R.n.size(); const id x = R.mk(vs[q], a, b); if(R.n.size() > s) { fresh.push_back(x); ++made; } }
            }
            for(id x : fresh) { open.push_back(x); below.push_back(x); }
        }
        id f = open.empty() ? below.back() : open.back();
        return f;
    }
    std::vector<size_t> subset(int percent) { std::vector<size_t> s; for(size_t v : vs) if(r.chance(percent)) s.push_back(v); if(s.empty()) s.push_back(vs[r.below(vs.size())]); return s; }
    id modular(size_t M)
    {
        auto s = subset(r.range(40, 100)); std::vector<id> cur(M), nx(M);
        const size_t t = r.below(M); for(size_t i = 0; i < M; ++i) cur[i] = i == t;
        for(size_t q = s.size(); q-- > 0;) { const size_t a = 1 + r.below(M > 1 ? M - 1 : 1); for(size_t i = 0; i < M; ++i) nx[i] = R.mk(s[q], cur[i], cur[(i + a) % M]); cur.swap(nx); }
        return cur[0];
    }
    id threshold(size_t B)
    {
        auto s = subset(r.range(40, 100)); std::vector<id> cur(B + 2), nx(B + 2); const bool eq = r.chance(30);
        for(size_t i = 0; i < B + 2; ++i) cur[i] = eq ? i == B : i <= B;
        const size_t W = 1 + r.below(std::max<size_t>(1, 3 * B / s.size()));
        for(size_t q = s.size(); q-- > 0;) { const size_t a = 1 + r.below(W); for(size_t i = 0; i < B + 2; ++i) nx[i] = R.mk(s[q], cur[i], cur[std::min(i + a, B + 1)]); cur.swap(nx); }
        return cur[0];
    }
    id cube() { auto s = subset(r.range(5, 100)); id f = 1; for(size_t q = s.size(); q-- > 0;) f = r.chance(50) ? R.mk(s[q], 0, f) : R.mk(s[q], f, 0); return f; }
    id clause() { return R.neg(cube()); }
    id small() { switch(r.below(5)) { case 0: return R.var(vs[r.below(vs.size())]); case 1: return cube(); case 2: return clause(); case 3: return modular(2 + r.below(4)); default: return threshold(1 + r.below(6)); } }
    size_t draw_size(size_t T) { size_t t = T; while(t > 4 && r.chance(45)) t /= 2 + r.below(3); return std::max<size_t>(2, t); }
    id generate()
    {
        const size_t T = draw_size(target);
        switch(r.below(7)) { case 0: case 1: case 2: return layered(T); case 3: return modular(std::max<size_t>(2, std::min<size_t>(T / std::max<size_t>(1, vs.size()) * 2, 8000))); case 4: return threshold(1 + std::min<size_t>(T / std::max<size_t>(1, vs.size()), 8000)); default: return small(); }
    }

    // ---- library diagram <-> id
    id convert(const node_ref& f)
    {
        if(f.is_terminal()) return f.is_topsink();
        { auto it = walked.find(f.address()); if(it != walked.end()) return it->second; }
        struct F { node* p; int k; }; std::vector<F> st{{f.address(), 0}};
        auto val = [&](node* p) -> id { return p->is_topsink() ? 1 : p->is_botsink() ? 0 : walked.at(p); };
        while(!st.empty()) {
            F& x = st.back(); node* p = x.p;
            if(x.k == 2) {
                node* lo = p->lo; node* hi = p->hi;
                REQUIRE(lo != hi, "not-reduced", "a node on variable %zu has equal successors", size_t(p->index));
                REQUIRE((lo->is_terminal() || lo->index > p->index) && (hi->is_terminal() || hi->index > p->index), "not-ordered", "a node on variable %zu has a successor on a variable not larger", size_t(p->index));
                const id i = R.mk(p->index, val(lo), val(hi));
                auto [it, fresh] = owner.emplace(i, p);
                REQUIRE(fresh || it->second == p, "duplicate-function", "two nodes on variable %zu represent one function", size_t(p->index));
                walked.emplace(p, i); st.pop_back(); continue;
            }
            node* y = x.k++ ? p->hi : p->lo;
            REQUIRE(y != nullptr, "broken-diagram", "a node on variable %zu has no successor", size_t(p->index));
            REQUIRE(st.size() < 300000, "not-ordered", "a path does not end");
            if(!y->is_terminal() && !walked.count(y)) st.push_back({y, 0});
        }
        return walked.at(f.address());
    }
    node_ref build(id f)
    {
        if(f == 0) return m.botsink(); if(f == 1) return m.topsink();
        std::unordered_map<id, node_ref> h; h.emplace(0, m.botsink()); h.emplace(1, m.topsink());
        for(id x : R.postorder(f)) { const auto y = R.n[x]; need_var(y.var); h.emplace(x, m.unique_find(y.var, h.at(y.lo), h.at(y.hi))); }
        return h.at(f);
    }
    // an assignment: random, or leading along a random path of f
    void draw(id f)
    {
        const int kind = r.below(4);
        const int p = kind == 0 ? 50 : kind == 1 ? r.range(0, 100) : r.range(0, 100);
        for(size_t v : vs) lab[v] = r.chance(p);
        if(kind >= 2) while(f >= 2) { const auto& x = R.n[f]; int b = r.below(2); if(kind == 3) { if(x.lo == 0) b = 1; else if(x.hi == 0) b = 0; else if(x.lo == 1) b = r.chance(10) ? 0 : 1; else if(x.hi == 1) b = r.chance(10) ? 1 : 0; } lab[x.var] = b; f = b ? x.hi : x.lo; }
    }
    void check(const char* what, const node_ref& h, id f)
    {
        REQUIRE(h.address() != nullptr, "null-result", "%s returned no diagram", what);
        const id g = convert(h);
        if(g != f) {
            id d = R.apply(2, g, f); for(auto& b : lab) b = 0; std::string s;
            for(id x = d; x >= 2; x = lab[R.n[x].var] ? R.n[x].hi : R.n[x].lo) { if(R.n[x].lo == 0) lab[R.n[x].var] = 1; if(s.size() < 200) s += std::to_string(R.n[x].var) + (lab[R.n[x].var] ? "=1 " : "=0 "); }
            violation("wrong-function", "%s: result has %zu nodes, expected %zu; they differ at %s", what, R.size(g), R.size(f), s.c_str());
        }
        node_ref x = h;
        for(int k = 0; k < 3; ++k) { draw(f); REQUIRE(x.evaluate(lab.begin(), lab.end()) == R.eval(f, lab), "wrong-evaluation", "%s: evaluate disagrees with the function", what); }
    }
    size_t put(const char* what, node_ref h, id f)
    {
        check(what, h, f);
        nontrivial(mix(R.hash(f) ^ mix(std::hash<std::string>()(what))));
        count("results"); maximum("result_nodes", R.size(f));
        if(pool.size() >= pool_limit) { const size_t k = 2 + r.below(pool.size() - 2); op("  (slot %zu reused)", k); pool[k] = {h, f}; return k; }
        pool.push_back({h, f}); return pool.size() - 1;
    }
    void check_all()
    {
        walked.clear(); owner.clear();
        for(size_t k = 0; k < pool.size(); ++k) { const id g = convert(pool[k].h); REQUIRE(g == pool[k].f, "handle-changed", "handle #%zu no longer denotes its function (%zu nodes, expected %zu)", k, R.size(g), R.size(pool[k].f)); }
        count("pool_checks"); maximum("live_nodes", walked.size());
    }
    size_t pick() { if(pool.size() > 4 && r.chance(40)) return pool.size() - 1 - r.below(4); if(r.chance(3)) return r.below(2); return r.below(pool.size()); }
    size_t live() { std::vector<id> f; for(auto& e : pool) f.push_back(e.f); return R.size(f); }

    // ---- operations
    void do_generate()
    {
        const id f = generate(); op("#%zu = diagram of %zu nodes built bottom up", pool.size(), R.size(f)); note(R.hash(f)); count("built");
        put("unique_find", build(f), f);
    }
    void do_literal() { const size_t v = vs[r.below(vs.size())]; op("#%zu = literal %zu", pool.size(), v); if(r.chance(50)) put("projection", m.projection(v), R.var(v)); else { need_var(v); put("neg_projection", m.neg_projection(v), R.mk(v, 1, 0)); } }
    template<class F> bool budgeted(F f) { R.budget = R.n.size() + 20 * target + 30000; try { f(); R.budget = ~size_t(0); return true; } catch(RefMgr::Full&) { count("too_large"); R.budget = ~size_t(0); return false; } }
    size_t pick_for(size_t a) // a partner that keeps the product moderate
    {
        for(int k = 0; k < 8; ++k) { const size_t b = pick(); if(R.size(pool[a].f) * R.size(pool[b].f) <= 60 * target) return b; }
        return r.below(2);
    }
    void do_bin(int w)
    {
        static const char* nm[] = {"and", "or", "xor"};
        const size_t a = pick(); size_t b = pick_for(a);
        if(b < 2 && r.chance(70)) { const id g = small(); b = put("unique_find", build(g), g); if(a >= pool.size()) return; }
        const E A = pool[a], B = pool[b]; id f = NOID;
        if(!budgeted([&] { f = R.apply(w, A.f, B.f); })) return;
        op("#%zu = %s(#%zu,#%zu): %zu nodes", pool.size(), nm[w], a, b, R.size(f)); count(nm[w]);
        const bool o = r.chance(30);
        put(nm[w], w == 0 ? (o ? A.h & B.h : m.and_rec(A.h, B.h)) : w == 1 ? (o ? A.h || B.h : m.or_rec(A.h, B.h)) : o ? A.h ^ B.h : m.xor_rec(A.h, B.h), f);
    }
    void do_negate() { const size_t a = pick(); const E A = pool[a]; id f = NOID; if(!budgeted([&] { f = R.neg(A.f); })) return; op("#%zu = negate(#%zu)", pool.size(), a); count("negate"); put("negate", r.chance(50) ? m.negate(A.h) : !A.h, f); }
    void do_ite()
    {
        const size_t a = pick(), b = pick_for(a), c = pick_for(a); const E A = pool[a], B = pool[b], C = pool[c]; id f = NOID;
        if(R.size(A.f) * R.size(B.f) / 100 * R.size(C.f) > target * 20) return;
        if(!budgeted([&] { f = R.ite(A.f, B.f, C.f); })) return;
        op("#%zu = ite(#%zu,#%zu,#%zu): %zu nodes", pool.size(), a, b, c, R.size(f)); count("ite"); put("ite", m.ite_rec(A.h, B.h, C.h), f);
    }
    void do_nary(int w)
    {
        const size_t k = 2 + r.below(r.chance(20) ? 40 : 6); std::vector<node_ref> h; std::vector<id> g; id f = NOID;
        for(size_t i = 0; i < k; ++i) g.push_back(small());
        // combined pairwise and in sequence, so that neither way gets too large

        if(!budgeted([&] { std::vector<id> l = g; while(l.size() > 1) { std::vector<id> n; for(size_t i = 0; i + 1 < l.size(); i += 2) n.push_back(R.apply(w, l[i], l[i + 1])); if(l.size() % 2) n.push_back(l.back()); l.swap(n); } f = l[0]; id e = g[0]; for(size_t i = 1; i < k; ++i) e = R.apply(w, e, g[i]); if(e != f) harness_error("reference"); })) return;
        for(id x : g) h.push_back(build(x));
        op("#%zu = n-ary operation %d on %zu diagrams", pool.size(), w, k); count("nary");
        put("n-ary", w == 0 ? m.and_rec(h.begin(), h.end()) : w == 1 ? m.or_rec(h.begin(), h.end()) : m.xor_rec(h.begin(), h.end()), f);
    }
    void do_limited()
    {
        const size_t a = pick(), b = pick_for(a); const E A = pool[a], B = pool[b]; id f = NOID;
        if(!budgeted([&] { f = R.apply(0, A.f, B.f); })) return;
        const size_t s = R.size(f);
        size_t l; switch(r.below(6)) { case 0: l = s; break; case 1: l = s + 1; break; case 2: l = s ? s - 1 : 0; break; case 3: l = s / 2; break; case 4: l = ~size_t(0); break; default: l = r.below(2 * s + 4); }
        op("and_rec_limited(#%zu,#%zu,%zu): %zu nodes", a, b, l, s);
        if(vs.size() > 200 && double(R.size(A.f) + R.size(B.f)) * std::min(s, l) > 5e7) { count("too_large"); return; } // it recounts its result at every step
        auto [z, c] = m.and_rec_limited(A.h, B.h, l); count("limited");
        if(s < l) { REQUIRE(z.address() != nullptr, "refused", "conjunction has %zu nodes, limit %zu, but nothing was returned", s, l); REQUIRE(c == s, "wrong-count", "reported %zu nodes instead of %zu", c, s); put("and_rec_limited", z, f); count("limit_granted"); }
        else { REQUIRE(z.address() == nullptr && c == ~size_t(0), "limit-ignored", "conjunction has %zu nodes, limit %zu, but a diagram was returned", s, l); count("limit_refused"); nontrivial(mix(R.hash(f) ^ l)); }
    }
    // a strictly increasing map of the support of f; targets within the variables in use, sometimes beyond
    std::map<size_t, size_t> increasing(id f, bool beyond = false)
    {
        auto s = R.support(f); std::map<size_t, size_t> mp; 
        if(r.chance(50) || s.size() >= vs.size()) { size_t x = r.below(3) + (r.chance(30) ? s.empty() ? 0 : s[0] : 0); const size_t g = 1 + r.below(4); for(size_t v : s) { mp[v] = x; x += 1 + r.below(g); } }
        else { std::vector<size_t> t(vs); for(size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[r.below(i)]); t.resize(s.size()); std::sort(t.begin(), t.end()); for(size_t i = 0; i < s.size(); ++i) mp[s[i]] = t[i]; }
        if(beyond && r.chance(30)) { size_t d = 1 + r.below(500); size_t k = r.below(s.size() + 1), i = 0; size_t last = 0; for(auto& [a, b] : mp) { if(i++ >= k) b += d; (void)last; } }
        for(auto& [a, b] : mp) if(b >= lab.size()) lab.resize(b + 1, 0);
        return mp;
    }
    void do_rebase()
    {
        const size_t a = pick(); const E A = pool[a]; auto mp = increasing(A.f, true); id f = NOID;
        if(!budgeted([&] { f = R.rename(A.f, mp); })) return;
        const int kind = A.f < 2 ? 0 : r.below(3); const size_t nv = m.nr_variables();
        op("#%zu = rebase(#%zu) kind %d, %zu variables to at most %zu", pool.size(), a, kind, mp.size(), mp.empty() ? 0 : mp.rbegin()->second); count("rebase");
        node_ref z;
        if(kind == 0) { std::unordered_map<size_t, size_t> u(mp.begin(), mp.end()); z = m.rebase(A.h, u); } else if(kind == 1) z = m.rebase(A.h, mp);
        else { std::vector<size_t> u(mp.rbegin()->first + 1 + r.below(3), 0); for(auto& [x, y] : mp) u[x] = y; z = with_map(u, r, [&](auto b, auto e) { return m.rebase(A.h, b, e); }); }
        const size_t want = mp.empty() ? nv : std::max(nv, mp.rbegin()->second + 1);
        REQUIRE(m.nr_variables() == want || (mp.empty() && m.nr_variables() <= 1), "variables-missing", "%zu variables after renaming to at most %zu (before: %zu)", m.nr_variables(), want - 1, nv);
        if(want > nv) count("variables_created");
        put("rebase", z, f);
        std::map<size_t, size_t> back; for(auto& [x, y] : mp) back[y] = x;
        REQUIRE(m.rebase(z, back) == A.h, "not-inverse", "renaming back does not give the original handle");
    }
    void drop_some() { const int keep = r.range(0, 100); std::vector<E> q; for(size_t k = 0; k < pool.size(); ++k) if(k < 2 || r.chance(keep)) q.push_back(pool[k]); op("drop handles, %zu -> %zu", pool.size(), q.size()); pool.swap(q); }
    // traversals and queries of a diagram of any size; they leave all reference counts as they were
    void do_query()
    {
        const size_t a = pick(); node_ref h = pool[a].h; const id f = pool[a].f; if(f < 2) return;
        const size_t s = R.size(f); op("queries on #%zu (%zu nodes)", a, s); count("queries");
        std::vector<std::pair<node*, int>> before; { node* p = h.address(); while(!p->is_terminal()) { before.push_back({p, p->xref}); p = r.chance(50) ? p->lo : p->hi; } before.push_back({p, p->xref}); }
        for(int q = 0; q < 2; ++q) {
            auto v = q ? h.nodes_bfs() : h.nodes_postorder();
            REQUIRE(v.size() == s, "wrong-traversal", "%zu of %zu nodes are listed", v.size(), s);
            for(auto& [p, x] : before) REQUIRE(p->xref == x + (p->is_terminal() ? 0 : 1), "wrong-refcount", "a listed node has reference count %d, before the traversal %d", int(p->xref), x);
            if(r.chance(30)) { std::vector<node_ref> u(v); v.clear(); std::swap(u, v); }
        }
        REQUIRE(h.variables() == R.support(f) && h.nr_nodes() == s, "wrong-query", "variables or number of nodes");
        (void)h.exactly_one_solution(); REQUIRE(h.find_bdd_mgr() == &m && h.botsink() == m.botsink() && h.topsink() == m.topsink(), "wrong-query", "manager or terminals of a diagram");
        for(auto& [p, x] : before) REQUIRE(p->xref == x, "wrong-refcount", "queries changed a reference count from %d to %d", x, int(p->xref));
        nontrivial(mix(R.hash(f) + 5));
    }
    // a diagram of any size goes into a collection and comes back; reference counts are as before
    void do_store()
    {
        const size_t a = pick(); node_ref h = pool[a].h; const id f = pool[a].f; if(f < 2) return;
        op("store #%zu (%zu nodes)", a, R.size(f)); count("stored");
        std::vector<std::pair<node*, int>> before; { node* p = h.address(); while(!p->is_terminal()) { before.push_back({p, p->xref}); p = r.chance(50) ? p->lo : p->hi; } before.push_back({p, p->xref}); }
        const size_t nodes = m.nr_nodes(); // intermediate results may come into existence and hold references until the next collection
        {
            bdd_collection col; if(r.chance(30)) { const size_t k = col.add_bdd(pool[pick()].h); (void)k; }
            const size_t k = col.add_bdd(h);
            REQUIRE(col.nr_bdd_nodes(k) == R.size(f) + 2, "wrong-size", "stored diagram has %zu instructions, %zu expected", size_t(col.nr_bdd_nodes(k)), R.size(f) + 2);
            for(auto& [p, x] : before) REQUIRE(p->xref == x, "wrong-refcount", "storing changed a reference count from %d to %d", x, int(p->xref));
            node_ref g = r.chance(50) ? m.add_bdd(col, k) : col.export_bdd(m, k);
            REQUIRE(g == h, "not-canonical", "a stored diagram does not come back as the same node");
        }
        if(m.nr_nodes() == nodes) for(auto& [p, x] : before) REQUIRE(p->xref == x, "wrong-refcount", "storing and importing changed a reference count from %d to %d", x, int(p->xref));
        nontrivial(mix(R.hash(f) + 6));
    }
    void do_gc(bool exact = true)
    {
        op("collect_garbage"); count("collect_garbage"); walked.clear(); owner.clear();
        m.collect_garbage();
        if(exact) { const size_t e = live() + 2; REQUIRE(m.nr_nodes() == e, "wrong-count", "%zu nodes after collection, %zu are reachable (with the terminals)", m.nr_nodes(), e); maximum("nodes_after_gc", e); }
    }
    void step()
    {
        const int k = r.below(100);
        if(k < 25 || pool.size() < 4) do_generate(); else if(k < 30) do_literal(); else if(k < 54) do_bin(r.below(3)); else if(k < 57) do_query(); else if(k < 60) do_store(); else if(k < 67) do_negate(); else if(k < 79) do_ite(); else if(k < 86) do_nary(r.below(3)); else if(k < 91) do_limited(); else if(k < 96) do_rebase();
        else { drop_some(); do_gc(); }
    }

    // ---- collection
    bdd_collection col; std::vector<id> t; size_t coll_limit = 12;
    id convert_entry(size_t k)
    {
        auto [b, e] = col.get_bdd_instructions(k); const size_t nn = std::distance(b, e); const size_t first = col.offset(*b);
        std::vector<id> v(nn);
        for(size_t i = nn; i-- > 0;) {
            const auto& x = *(b + i);
            if(x.is_topsink()) { v[i] = 1; continue; } if(x.is_botsink()) { v[i] = 0; continue; }
            REQUIRE(x.lo >= first && x.hi >= first && x.lo - first < nn && x.hi - first < nn && x.lo - first > i && x.hi - first > i && x.lo != x.hi, "broken-entry", "instruction %zu of entry %zu points outside of what follows it in the entry", i, k);
            const auto& lo = *(b + (x.lo - first)); const auto& hi = *(b + (x.hi - first));
            REQUIRE((lo.is_terminal() || lo.index > x.index) && (hi.is_terminal() || hi.index > x.index), "not-ordered", "instruction %zu of entry %zu", i, k);
            v[i] = R.mk(x.index, v[x.lo - first], v[x.hi - first]);
        }
        return v[0];
    }
    void check_entry(size_t k, bool full = true)
    {
        REQUIRE(k < col.nr_bdds(), "missing-entry", "entry %zu of %zu", k, col.nr_bdds());
        const id g = convert_entry(k);
        REQUIRE(g == t[k], "wrong-function", "entry %zu denotes another function (%zu nodes, expected %zu)", k, R.size(g), R.size(t[k]));
        const size_t s = R.size(t[k]) + 2;
        REQUIRE(col.nr_bdd_nodes(k) == s && col[k].nr_nodes() == s, "not-reduced", "entry %zu has %zu nodes, the reduced diagram has %zu (with terminals)", k, col.nr_bdd_nodes(k), s);
        if(full) {
            auto sup = R.support(t[k]);
            REQUIRE(col.variables(k) == sup && col[k].variables() == sup, "wrong-variables", "entry %zu lists %zu variables instead of %zu", k, col.variables(k).size(), sup.size());
            if(!sup.empty()) { std::map<size_t, size_t> per; for(id x : R.postorder(t[k])) ++per[R.n[x].var]; for(int q = 0; q < 3; ++q) { const size_t v = sup[r.below(sup.size())]; REQUIRE(col.nr_bdd_nodes(k, v) == per[v] && col[k].nr_nodes(v) == per[v], "wrong-count", "entry %zu: nodes on variable %zu", k, v); } }
        }
        for(int q = 0; q < 4; ++q) {
            draw(t[k]); const bool e = R.eval(t[k], lab);
            REQUIRE(col.evaluate(k, lab.begin(), lab.end()) == e, "wrong-evaluation", "entry %zu", k);
            if(q < 2) { auto x = col[k].root_node(); while(!x.is_terminal()) { auto y = lab[x.variable()] ? x.hi() : x.lo(); x = y; } REQUIRE(x.is_topsink() == e, "wrong-evaluation", "entry %zu through node handles", k); }
        }
        count("entries_checked"); maximum("entry_nodes", s);
    }
    std::vector<u64> digests() // contents of all entries
    {
        std::vector<u64> d; for(size_t k = 0; k < col.nr_bdds(); ++k) { auto [b, e] = col.get_bdd_instructions(k); const size_t first = b == e ? 0 : col.offset(*b); u64 h = 1; for(auto it = b; it != e; ++it) { const bool te = it->is_terminal(); h = mix(h * 3 + mix(it->index) + mix(te ? it->lo : it->lo - first) * 5 + mix(te ? it->hi : it->hi - first) * 7); } d.push_back(h); }
        return d;
    }
    size_t record(const char* what, size_t k, id f, const std::vector<u64>* before = nullptr)
    {
        REQUIRE(k == t.size() && col.nr_bdds() == t.size() + 1, "wrong-index", "%s returned entry %zu of %zu, expected a new last entry %zu", what, k, col.nr_bdds(), t.size());
        t.push_back(f); check_entry(k);
        if(before) { auto a = digests(); a.pop_back(); REQUIRE(a == *before, "changed", "%s changed another entry", what); }
        nontrivial(mix(R.hash(f) ^ mix(std::hash<std::string>()(what)))); count("entries_made");
        return k;
    }
    size_t coll_add(id f) { op("entry %zu = add_bdd(diagram of %zu nodes)", t.size(), R.size(f)); note(R.hash(f)); count("coll_add"); auto b = digests(); return record("add_bdd", col.add_bdd(build(f)), f, &b); }
    void coll_ensure(size_t k) { while(t.size() < k) coll_add(r.chance(50) ? generate() : small()); }
    size_t epick() { return r.chance(40) ? t.size() - 1 : r.below(t.size()); }
    void coll_and()
    {
        coll_ensure(2); const size_t i = epick(); size_t j = epick();
        for(int q = 0; q < 8 && R.size(t[i]) * R.size(t[j]) > 60 * target; ++q) j = epick();
        if(R.size(t[i]) * R.size(t[j]) > 60 * target) j = coll_add(small());
        id f = NOID; if(!budgeted([&] { f = R.apply(0, t[i], t[j]); })) return;
        const size_t s = R.size(f) + 2; size_t l = ~size_t(0);
        if(r.chance(40)) { static const int d[] = {0, 0, -1, 1}; l = std::max<size_t>(3, s + d[r.below(4)]); if(r.chance(20)) l = 3 + r.below(s); }
        op("entry %zu = and(%zu,%zu) limit %zu: %zu nodes", t.size(), i, j, l, s); count("coll_and"); auto b = digests();
        const size_t k = and_call(col, {i, j}, l, r);
        refused_or_record("bdd_and", k, f, s, l, b);
    }
    void refused_or_record(const char* what, size_t k, id f, size_t s, size_t l, const std::vector<u64>& b)
    {
        if(s > l) { REQUIRE(k == ~size_t(0), "limit-ignored", "%s of %zu nodes was built in spite of limit %zu", what, s, l); REQUIRE(digests() == b, "changed", "a refused conjunction changed the collection"); count("refused"); nontrivial(mix(R.hash(f) ^ l)); }
        else { REQUIRE(k != ~size_t(0), "refused", "%s of %zu nodes was refused with limit %zu", what, s, l); record(what, k, f, &b); if(l != ~size_t(0)) count("granted"); }
    }
    // the product of the operands: how many tuples of nodes an n-ary conjunction has to visit (at most cap)
    size_t tuples(const std::vector<id>& fs, size_t cap)
    {
        struct VH { size_t operator()(const std::vector<id>& v) const { u64 h = 1; for(id x : v) h = mix(h * 31 + x); return h; } };
        std::unordered_set<std::vector<id>, VH> seen; std::vector<std::vector<id>> st{fs}; seen.insert(fs);
        while(!st.empty() && seen.size() < cap) {
            std::vector<id> v = std::move(st.back()); st.pop_back();
            size_t top = ~size_t(0); bool zero = false; for(id x : v) { zero |= x == 0; top = std::min(top, R.n[x].var); }
            if(zero || top == ~size_t(0)) continue;
            for(int b = 0; b < 2; ++b) { std::vector<id> w(v); for(id& x : w) x = R.cof(x, top, b); if(seen.insert(w).second) st.push_back(std::move(w)); }
        }
        return seen.size();
    }
    void coll_nary()
    {
        // many mutually compatible constraints, so that the conjunction is not trivial; small indices mixed with a large one
        const size_t k = r.chance(50) || vs.size() > 8000 ? 3 + r.below(5) : 8 + r.below(42);
        std::vector<size_t> idx; std::vector<id> gs; size_t again = 0; id f = 1; std::vector<char> w(lab.size(), 0); for(size_t v : vs) w[v] = r.below(2); // a common solution
        for(size_t i = 0; i < k; ++i) {
            id g = 1; for(int q = 0; q < 6; ++q) { g = i == 0 && r.chance(50) ? generate() : small(); if(R.eval(g, w)) break; g = R.neg(g); if(R.size(g) < 4 * target) break; }
            if(r.chance(10) && !gs.empty()) { ++again; continue; }
            id h = NOID; if(!budgeted([&] { h = R.apply(0, f, g); })) return; if(R.size(h) > target) { g = R.var(vs[r.below(vs.size())]); if(!w[R.n[g].var]) g = R.neg(g); h = R.apply(0, f, g); }
            f = h; gs.push_back(g);
        }
        { const size_t cap = std::min<size_t>(200000, 8 * target + 3000); if(tuples(gs, cap) >= cap) { count("too_large"); return; } }
        for(id g : gs) { idx.push_back(col.add_bdd(build(g))); t.push_back(g); }
        for(size_t i = 0; i < again; ++i) idx.push_back(idx[r.below(idx.size())]);
        for(size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[r.below(i)]);
        const size_t s = R.size(f) + 2; size_t l = ~size_t(0); if(r.chance(40)) l = std::max<size_t>(3, s - r.below(2));
        op("entry %zu = and of %zu entries limit %zu: %zu nodes", t.size(), idx.size(), l, s); count("coll_and_nary"); maximum("operands", idx.size()); if(f >= 2) count("nary_not_constant");
        auto b = digests(); refused_or_record("n-ary bdd_and", and_call(col, idx, l, r), f, s, l, b);
        coll_trim();
    }
    void coll_or_var()
    {
        coll_ensure(1); const size_t i = epick(); std::set<size_t> p, q; id f = t[i]; const int pr = r.range(0, 25);
        for(size_t z = vs.size(); z-- > 0;) { const size_t v = vs[z]; if(r.chance(pr)) { const bool pos = r.chance(50); (pos ? p : q).insert(v); if(r.chance(3)) (pos ? q : p).insert(v); } }
        // literals outside of the variables in use
        if(r.chance(30)) { const size_t v = r.chance(50) ? vs.back() + 1 + r.below(40) : r.below(vs.back() + 1); if(v >= lab.size()) lab.resize(v + 1, 0); if(!q.count(v)) p.insert(v); }
        bool ok = budgeted([&] { id cl = 0; std::set<size_t> u(p); u.insert(q.begin(), q.end()); for(auto v = u.rbegin(); v != u.rend(); ++v) cl = p.count(*v) && q.count(*v) ? id(1) : p.count(*v) ? R.mk(*v, cl, 1) : R.mk(*v, 1, cl); for(size_t v : p) if(q.count(v)) cl = 1; f = R.apply(1, f, cl); }); if(!ok) return;
        op("entry %zu = or_var(%zu; %zu positive, %zu negative)", t.size(), i, p.size(), q.size()); for(size_t v : p) note(v); for(size_t v : q) note(~v); count("coll_or_var");
        auto b = digests(); record("bdd_or_var", r.chance(50) ? col.bdd_or_var(i, p, q) : col.bdd_or_var(i, std::unordered_set<size_t>(p.begin(), p.end()), std::unordered_set<size_t>(q.begin(), q.end())), f, &b);
    }
    void coll_rebase()
    {
        coll_ensure(1); const size_t k = epick(); auto mp = increasing(t[k], true); id f = NOID; if(!budgeted([&] { f = R.rename(t[k], mp); })) return;
        auto b = digests(); const int kind = r.below(4); op("rebase entry %zu kind %d, %zu variables", k, kind, mp.size()); for(auto& [x, y] : mp) { note(x); note(y); } count("coll_rebase");
        if(kind < 2) { std::unordered_map<size_t, size_t> u(mp.begin(), mp.end()); if(kind == 0) col.rebase(k, u); else col[k].rebase(u); }
        else { std::vector<size_t> u(mp.empty() ? 1 : mp.rbegin()->first + 1, 0); for(auto& [x, y] : mp) u[x] = y; if(kind == 2) col.rebase(k, u.begin(), u.end()); else col[k].rebase(u.begin(), u.end()); }
        t[k] = f; check_entry(k); auto a = digests(); for(size_t i = 0; i < a.size(); ++i) REQUIRE(i == k || a[i] == b[i], "changed", "renaming entry %zu changed entry %zu", k, i);
        nontrivial(mix(R.hash(f) + 77));
    }
    void coll_export()
    {
        coll_ensure(1); const size_t k = epick(); op("export %zu (%zu nodes)", k, R.size(t[k])); count("coll_export");
        if(t[k] >= 2) need_var(R.support(t[k]).back());
        const size_t nv = m.nr_variables(); const bool a = r.chance(50);
        node_ref h = a ? col.export_bdd(m, k) : m.add_bdd(col, k);
        REQUIRE(m.nr_variables() == nv, "wrong-count", "export changed the number of variables");
        put("export", h, t[k]);
        if(r.chance(30)) { // another manager
            bdd_mgr m2; node_ref x = m2.add_bdd(col, k); REQUIRE(x.find_bdd_mgr() == &m2, "round-trip", "manager of the imported diagram"); if(t[k] >= 2) REQUIRE(m2.nr_variables() == R.support(t[k]).back() + 1 && x.nr_nodes() == R.size(t[k]), "round-trip", "size or variables in another manager");
            bdd_collection c2; const size_t j = c2.add_bdd(x); for(int q = 0; q < 6; ++q) { draw(t[k]); const bool e = R.eval(t[k], lab); REQUIRE(x.evaluate(lab.begin(), lab.end()) == e && c2.evaluate(j, lab.begin(), lab.end()) == e, "round-trip", "function changed on the way through another manager"); } count("other_manager");
        }
    }
    void coll_remove(std::vector<size_t> del)
    {
        auto b = digests(); op("remove %zu of %zu entries", del.size(), t.size()); for(size_t k : del) note(k); count("coll_remove");
        remove_call(col, del, r);
        std::vector<id> nt; std::vector<u64> nb; size_t q = 0; for(size_t k = 0; k < t.size(); ++k) { if(q < del.size() && del[q] == k) { ++q; continue; } nt.push_back(t[k]); nb.push_back(b[k]); }
        t.swap(nt); REQUIRE(col.nr_bdds() == t.size() && digests() == nb, "changed", "after a removal %zu entries remain, expected %zu, or their contents differ", col.nr_bdds(), t.size());
        nontrivial(mix(hist_id));
    }
    void coll_remove_random() { const int pr = r.range(1, 70); std::vector<size_t> del; for(size_t k = 0; k < t.size(); ++k) if(r.chance(pr)) del.push_back(k); coll_remove(del); }
    void coll_trim() { while(t.size() > coll_limit) { std::vector<size_t> del; for(size_t k = 0; k < t.size(); ++k) if(t.size() - del.size() > coll_limit / 2 && r.chance(50)) del.push_back(k); coll_remove(del); } }
    std::unique_ptr<bdd_collection> kept; std::vector<u64> kept_digests;
    void coll_value()
    {
        op("copy, assign, move or swap the collection"); count("coll_values"); auto before = digests();
        switch(r.below(5)) {
            case 0: { bdd_collection a(col); col = a; break; }
            case 1: { bdd_collection a(std::move(col)); col = std::move(a); break; }
            case 2: { bdd_collection a; a = col; std::swap(a, col); break; }
            case 3: kept.reset(new bdd_collection(col)); kept_digests = before; break;
            default: if(kept) { std::swap(col, *kept); REQUIRE(digests() == kept_digests, "changed", "a copy of the collection changed with the original"); std::swap(col, *kept); count("copies_checked"); }
        }
        REQUIRE(digests() == before, "changed", "handling the collection as a value changed it");
    }
    void coll_step()
    {
        coll_trim();
        if(r.below(100) < 4) { coll_ensure(1); coll_value(); return; }
        const int k = r.below(100);
        if(k < 25 || t.empty()) coll_add(generate()); else if(k < 45) coll_and(); else if(k < 55) coll_nary(); else if(k < 75) coll_or_var(); else if(k < 83) coll_rebase(); else if(k < 94) coll_export(); else { coll_remove_random(); coll_ensure(1); }
    }
    void fill_many(size_t most)
    {
        const size_t N = r.chance(50) ? 200 + r.below(200) : 500 + r.below(most);
        std::vector<id> fs; for(int i = 0; i < 60; ++i) fs.push_back(r.chance(5) ? id(r.below(2)) : r.chance(50) ? small() : generate());
        std::vector<node_ref> hs; for(id f : fs) hs.push_back(build(f));
        while(t.size() < N) { const size_t q = r.below(fs.size()); const size_t k = col.add_bdd(hs[q]); REQUIRE(k == t.size() && col.nr_bdds() == k + 1, "wrong-index", "add_bdd returned entry %zu of %zu", k, t.size()); t.push_back(fs[q]); note(R.hash(fs[q])); }
        op("%zu entries", N); maximum("entries", N); count("many_entries", N); coll_limit = 2 * most + 1000;
    }
    void check_coll() { REQUIRE(col.nr_bdds() == t.size(), "wrong-count", "%zu entries instead of %zu", col.nr_bdds(), t.size()); for(size_t k = 0; k < t.size(); ++k) check_entry(k, false); }
};
// sizes of a case: mostly moderate, sometimes past 65536 nodes in optimised builds
inline SWorld make_scale(Case& c)
{
    const bool san = args.mode == "scale-san" || args.mode == "scale-deep-san";
    if(args.mode.rfind("scale-deep", 0) == 0) { // few nodes per variable, many variables
        const size_t n = san || c.rng.chance(60) ? c.rng.range(200, 2500) : c.rng.chance(65) ? c.rng.range(2500, 8000) : c.rng.chance(60) ? c.rng.range(8000, 20000) : c.rng.range(65600, 70000);
        maximum("deep_variables", n);
        return SWorld(c.rng, n, n * c.rng.range(1, 3));
    }
    size_t T = c.rng.chance(60) ? 300 : c.rng.chance(70) ? 3000 : san ? 8000 : 80000;
    int n = T > 20000 ? c.rng.range(24, 40) : T > 2000 ? c.rng.range(16, 40) : c.rng.range(8, 60);
    return SWorld(c.rng, n, T);
}
} // namespace H
