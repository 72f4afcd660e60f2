// C03: counting and utility constructors for every list of functions and every bound.
#include "world.h"
using namespace H;

static const char* NM[] = {"all_false", "simplex", "at_most_one", "at_least_one", "at_least", "at_most", "cardinality"};
template<class IT> static node_ref call(bdd_mgr& m, int f, IT b, IT e, size_t k)
{
    switch(f) {
        case 0: return m.all_false(b, e);
        case 1: return m.simplex(b, e);
        case 2: return m.at_most_one(b, e);
        case 3: return m.at_least_one(b, e);
        case 4: return m.at_least(b, e, k);
        case 5: return m.at_most(b, e, k);
        default: return m.cardinality(b, e, k);
    }
}
static bool pred(int f, size_t s, size_t k)
{
    switch(f) { case 0: return s == 0; case 1: return s == 1; case 2: return s <= 1; case 3: return s >= 1; case 4: return s >= k; case 5: return s <= k; default: return s == k; }
}
static size_t bound(Rng& r, size_t n)
{
    const int k = r.below(20);
    if(k == 0) return n + 1 + r.below(4);
    if(k == 1) return 1000000007;
    if(k == 2) return std::numeric_limits<size_t>::max();
    return r.below(n + 2);
}

// lists of arbitrary functions, with repetitions, complements and constants
static void mixed(Case& c)
{
    World w(c.rng.range(1, 6), c.rng, c.rng.chance(30) ? 3 : 0);
    w.start();
    w.pool_limit = 40;
    const int pre = c.rng.range(0, 25);
    for(int k = 0; k < pre; ++k) w.boolean_step();
    const int rounds = c.rng.range(6, 16);
    for(int q = 0; q < rounds; ++q) {
        const size_t len = 1 + c.rng.below(c.rng.chance(30) ? 9 : 6);
        std::vector<node_ref> h; std::vector<TT> t; std::string s;
        for(size_t i = 0; i < len; ++i) {
            if(c.rng.chance(60)) { const int v = c.rng.below(w.n); h.push_back(w.m.projection(w.vmap[v])); t.push_back(TT::var(w.n, v)); s += "x" + std::to_string(v) + " "; if(c.rng.chance(20)) { h.back() = w.m.negate(h.back()); t.back() = ~t.back(); s += "' "; } }
            else { const size_t a = w.pick(); h.push_back(w.pool[a].h); t.push_back(w.pool[a].t); s += "#" + std::to_string(a) + " "; }
        }
        std::vector<int> order = {0, 1, 2, 3, 4, 5, 6};
        for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.rng.below(i)]);
        for(int f : order) {
            if(c.rng.chance(25)) continue;
            const size_t k = bound(c.rng, len);
            TT e(w.n);
            for(size_t a = 0; a < e.size(); ++a) { size_t sum = 0; for(auto& u : t) sum += u.bit(a); e.set(a, pred(f, sum, k)); }
            op("#%zu = %s over [%s] bound %zu", w.pool.size(), NM[f], s.c_str(), k); count(NM[f]);
            node_ref z = c.rng.chance(50) ? call(w.m, f, h.begin(), h.end(), k) : call(w.m, f, h.data(), h.data() + len, k);
            const size_t slot = w.put(NM[f], z, e);
            if(c.rng.chance(50)) REQUIRE(w.from_tt(e) == w.pool[slot].h, "not-canonical", "%s differs from the diagram of its function", NM[f]);
            if(k > len) count("bound_exceeds_length");
            if(len == 1) count("length_one");
        }
        for(size_t i = 0; i < len; ++i) REQUIRE(w.tt_of(h[i]) == t[i], "operand-changed", "list element %zu changed", i);
        if(c.rng.chance(10)) w.do_gc();
    }
    w.check_pool(false);
}

// n different variables, any n: the result may only depend on the number of true variables.  Exact for any n:
// explore (node, position, count) and compare every terminal.
static void symmetric(Case& c)
{
    bdd_mgr m;
    const int f = c.rng.below(7);
    const int n = f < 4 ? c.rng.range(1, c.thorough ? 400 : 150) : c.rng.range(1, c.thorough ? 26 : 17);
    const bool small_bound = c.rng.chance(50);
    size_t k = bound(c.rng, n);
    int nn = n;
    if(f >= 4 && small_bound) { k = c.rng.below(4); nn = c.rng.range(1, c.thorough ? 120 : 60); }
    std::vector<size_t> vars; size_t v = 0;
    for(int i = 0; i < nn; ++i) { v += c.rng.below(3); vars.push_back(v++); }
    std::vector<node_ref> h;
    for(int i = 0; i < nn; ++i) h.push_back(m.projection(vars[i]));
    std::vector<size_t> perm(nn); for(int i = 0; i < nn; ++i) perm[i] = i;
    const bool shuffled = c.rng.chance(40);
    if(shuffled) for(size_t i = nn; i > 1; --i) std::swap(perm[i - 1], perm[c.rng.below(i)]);
    std::vector<node_ref> list; for(size_t i : perm) list.push_back(h[i]);
    op("%s over %d variables (%s) bound %zu", NM[f], nn, shuffled ? "shuffled" : "in order", k);
    node_ref z = call(m, f, list.begin(), list.end(), k);
    std::set<std::tuple<node*, int, int>> seen;
    std::vector<std::tuple<node_ref, int, int>> todo = {{z, 0, 0}};
    size_t states = 0;
    while(!todo.empty()) {
        auto [x, i, s] = todo.back(); todo.pop_back();
        if(!seen.insert({x.address(), i, s}).second) continue;
        ++states;
        if(i == nn) {
            REQUIRE(x.is_terminal(), "wrong-function", "%s n=%d bound %zu depends on more than its variables", NM[f], nn, k);
            REQUIRE(x.is_topsink() == pred(f, s, k), "wrong-function", "%s over %d variables with bound %zu is %d when %d are true", NM[f], nn, k, int(x.is_topsink()), s);
            continue;
        }
        if(!x.is_terminal() && x.variable() == vars[i]) { todo.push_back({x.low(), i + 1, s}); todo.push_back({x.high(), i + 1, s + 1}); }
        else { REQUIRE(x.is_terminal() || x.variable() > vars[i], "not-ordered", "variable %zu met at position of variable %zu", x.variable(), vars[i]); todo.push_back({x, i + 1, s}); todo.push_back({x, i + 1, s + 1}); }
        REQUIRE(states < 5000000, "wrong-function", "the result is not a function of the number of true variables");
    }
    count("symmetric_states", states); count("symmetric_functions");
    nontrivial(mix(u64(f) * 1000003 + nn * 977 + k) ^ shuffled);
    maximum("list_length", nn);
}

void run_case(Case& c)
{
    if(args.mode == "mixed") mixed(c);
    else if(args.mode == "sym") symmetric(c);
    else harness_error("mode");
}
void end_of_chunk() {}
