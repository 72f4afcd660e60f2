// C22: polynomial work: basic blocks executed by each operation stay within a bound that depends on the sizes of operands and result.
#include "world.h"
#include "scale.h"
#include "bdd_collection.h"
#include "cycling.h"
#include <sstream>
using namespace H;

static volatile u64 g_steps = 0, g_budget = ~u64(0); static volatile bool g_armed = false; static volatile size_t g_sink; static const char* g_what = "";
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc()
{
    if(!g_armed) return;
    const u64 s = g_steps + 1; g_steps = s; if(s > g_budget) { g_armed = false; violation("too-many-steps", "%s took more than %llu basic blocks", g_what, (unsigned long long)u64(g_budget)); }
}
static double g_worst = 0;
// units: the size the work has to be polynomial in
template<typename F> __attribute__((noinline)) static void call(F& f) { f(); }
template<typename F> static void bounded(const char* what, double units, double per_unit, F f)
{
    g_what = what; g_budget = u64(per_unit * units + 20000); g_steps = 0;
    g_armed = true; call(f); g_armed = false;
    const u64 s = g_steps;
    const double ratio = double(s) / double(g_budget);
    std::string k = std::string("percent_of_budget ") + what; maximum(k.c_str(), u64(ratio * 100));
    std::string q = std::string("steps ") + what; maximum(q.c_str(), s);
    count("measured_calls"); count("steps_observed", s);
    g_worst = std::max(g_worst, ratio);
    nontrivial(mix(u64(units)) ^ mix(std::hash<std::string>()(what)) ^ mix(s));
}
// symmetric functions of n consecutive-ish variables: value depends on the number of ones
static node_ref symmetric(bdd_mgr& m, const std::vector<size_t>& vars, const std::vector<char>& val)
{
    const size_t n = vars.size();
    std::vector<node_ref> row; for(size_t k = 0; k <= n; ++k) row.push_back(val[k] ? m.topsink() : m.botsink());
    for(size_t i = n; i-- > 0;) { std::vector<node_ref> next; for(size_t k = 0; k <= i; ++k) next.push_back(m.unique_find(vars[i], row[k], row[k + 1])); row.swap(next); }
    return row[0];
}
static node_ref some_function(bdd_mgr& m, int n, Rng& r, int kind)
{
    std::vector<size_t> vars; for(int i = 0; i < n; ++i) if(kind != 4 || r.chance(60)) vars.push_back(i);
    if(vars.empty()) vars.push_back(0);
    std::vector<char> val(vars.size() + 1);
    const size_t t = r.below(vars.size() + 1), md = 2 + r.below(3);
    for(size_t k = 0; k < val.size(); ++k) val[k] = kind == 0 ? k & 1 : kind == 1 ? k >= t : kind == 2 ? k == t : kind == 3 ? k % md == 0 : r.below(2);
    return symmetric(m, vars, val);
}
static void run(Case& c)
{
    const int n = c.rng.range(12, c.thorough ? 70 : 44);
    bdd_mgr m; m.projection(n - 1);
    std::vector<node_ref> f; for(int i = 0; i < 3; ++i) f.push_back(some_function(m, n, c.rng, c.rng.below(5)));
    if(c.rng.chance(40)) f[0] = some_function(m, n, c.rng, 0);
    const double a = f[0].nr_nodes() + 2, b = f[1].nr_nodes() + 2, d = f[2].nr_nodes() + 2;
    op("n=%d, sizes %.0f %.0f %.0f", n, a, b, d); maximum("variables", n); maximum("operand_nodes", u64(a));
    node_ref z;
    const double W = 900, L = 400, P = 250; // basic blocks per unit: others, linear queries, pairs of nodes
    std::vector<int> order(12); for(int i = 0; i < 12; ++i) order[i] = i;
    for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.rng.below(i)]);
    for(int o : order) { op("operation %d", o); switch(o) {
        case 0: bounded("negate", a, 3000, [&] { z = m.negate(f[0]); }); REQUIRE(m.negate(z) == f[0], "wrong", "double negation"); break;
        case 1: bounded("and", a * b, P, [&] { z = m.and_rec(f[0], f[1]); }); break;
        case 2: bounded("or", a * b, P, [&] { z = m.or_rec(f[0], f[1]); }); break;
        case 3: bounded("xor", a * b * 2, P, [&] { z = m.xor_rec(f[0], f[1]); }); break;
        case 4: if(n > 30) break; bounded("ite", a * b * d, W, [&] { z = m.ite_rec(f[0], f[1], f[2]); }); break;
        case 5: { const size_t lim = c.rng.chance(50) ? 1000000 : 1 + c.rng.below(200); const double cap = lim == 1000000 ? a * b : std::min<double>(a * b, lim); // every step may recount its result
            (void)cap; std::tuple<node_ref, size_t> t{node_ref(nullptr), 0}; bounded("and_rec_limited", a * b * (std::min<double>(a * b, double(lim)) + 50), W / 4, [&] { t = m.and_rec_limited(f[0], f[1], lim); }); break; }
        case 6: bounded("nr_nodes", a, L, [&] { g_sink = f[0].nr_nodes(); }); bounded("variables", a, L, [&] { f[0].variables(); }); bounded("exactly_one_solution", a, L, [&] { g_sink = f[0].exactly_one_solution(); }); break;
        case 7: bounded("nodes_postorder", a, L, [&] { f[0].nodes_postorder(); }); bounded("nodes_bfs", a, L, [&] { f[0].nodes_bfs(); }); { std::ostringstream s; bounded("print", a, W * 3, [&] { f[0].print(s); }); } break;
        case 8: { std::vector<size_t> mp; for(int i = 0; i < n; ++i) mp.push_back(i + 1); bounded("rebase", a + n, 2500, [&] { z = m.rebase(f[0], mp.begin(), mp.end()); }); break; }
        case 9: { std::vector<char> l(n + 1, 1); bounded("evaluate", n, W, [&] { g_sink = f[0].evaluate(l.begin(), l.end()); }); break; }
        case 10: bounded("collect_garbage", m.nr_nodes() + 70.0 * 64 + 4000, W * 2, [&] { m.collect_garbage(); }); break;
        default: { // literals
            std::vector<node_ref> lit; for(int i = 0; i < n; ++i) lit.push_back(m.projection(i));
            const double N = n;
            bounded("simplex", N * N * N, W, [&] { z = m.simplex(lit.begin(), lit.end()); }); 
            bounded("at_most_one", N * N * N, W, [&] { z = m.at_most_one(lit.begin(), lit.end()); });
            bounded("all_false", N * N, W, [&] { z = m.all_false(lit.begin(), lit.end()); });
            bounded("at_least_one", N * N, W, [&] { z = m.at_least_one(lit.begin(), lit.end()); });
            bounded("and of literals", N * N, W, [&] { z = m.and_rec(lit.begin(), lit.end()); });
            bounded("xor of literals", N * N * N, W, [&] { z = m.xor_rec(lit.begin(), lit.end()); });
            break; }
    } }
}
static void coll(Case& c)
{
    using BDD::bdd_collection;
    const int n = c.rng.range(8, c.thorough ? 50 : 34);
    bdd_mgr m; m.projection(n);
    std::vector<node_ref> f; for(int i = 0; i < 4; ++i) f.push_back(some_function(m, n, c.rng, c.rng.below(5)));
    bdd_collection col;
    double sz[4];
    const double W = 900;
    for(int i = 0; i < 4; ++i) { sz[i] = f[i].nr_nodes() + 2; bounded("add_bdd", sz[i], W, [&] { col.add_bdd(f[i]); }); }
    op("n=%d, sizes %.0f %.0f %.0f %.0f", n, sz[0], sz[1], sz[2], sz[3]); maximum("coll_operand_nodes", u64(sz[0]));
    bounded("export_bdd", sz[0], W, [&] { col.export_bdd(m, 0); });
    bounded("import", sz[0] + n, 3600, [&] { m.add_bdd(col, 0); });
    bounded("collection and", sz[0] * sz[1], 300, [&] { col.bdd_and(0, 1); });
    { const size_t lim = 3 + c.rng.below(60); bounded("limited collection and", sz[0] * sz[1], W, [&] { col.bdd_and(0, 1, lim); }); }
    if(n <= 22) { size_t idx[3] = {0, 1, 2}; bounded("collection and of 3", sz[0] * sz[1] * sz[2], W, [&] { col.bdd_and(idx, idx + 3); }); }
    { std::array<size_t, 4> idx{0, 1, 2, 3}; const size_t k = 3 + c.rng.below(2); double u = 1; for(size_t q = 0; q < k; ++q) u *= sz[idx[q]]; const size_t lim = 3 + c.rng.below(40); if(u < 4e6) bounded("limited collection and of many", u, 300, [&] { col.bdd_and(idx.begin(), idx.begin() + k, lim); }); }
    { // disjunction with literals: the result may branch on the literals first
        std::set<size_t> p, q; for(int v = 0; v < n; ++v) if(c.rng.chance(8)) (c.rng.chance(50) ? p : q).insert(v);
        bounded("collection or_var", sz[3] * (p.size() + q.size() + 2), W * 2, [&] { col.bdd_or_var(3, p, q); }); }
    { std::vector<char> l(n + 1, 1); bounded("collection evaluate", n, W, [&] { g_sink = col.evaluate(0, l.begin(), l.end()); }); }
    { std::vector<size_t> mp; for(int i = 0; i < n; ++i) mp.push_back(i + 1); bounded("collection rebase", sz[1], W, [&] { col.rebase(1, mp.begin(), mp.end()); }); bounded("collection variables", sz[1], W, [&] { col.variables(1); }); }
    { std::ostringstream s; bounded("graphviz", sz[2] * 8, W, [&] { col.export_graphviz(2, s); }); }
    double total = 0; for(size_t i = 0; i < col.nr_bdds(); ++i) total += col.nr_bdd_nodes(i);
    { size_t del[2] = {1, 2}; bounded("collection remove", total, W, [&] { col.remove(del, del + 2); }); }
}
// the result of an operation is remembered: repeating it, or repeating it on shared parts, is cheap
static void memo(Case& c)
{
    const int n = c.rng.range(14, 40);
    bdd_mgr m; m.projection(n - 1);
    node_ref f = some_function(m, n, c.rng, c.rng.below(5)), g = some_function(m, n, c.rng, c.rng.below(5));
    node_ref x = m.and_rec(f, g), y = m.or_rec(f, g), z = m.xor_rec(f, g);
    op("n=%d sizes %zu %zu", n, f.nr_nodes(), g.nr_nodes());
    const double ab = double(f.nr_nodes() + 2) * (g.nr_nodes() + 2);
    bounded("and after or and xor", ab, 600, [&] { REQUIRE(m.and_rec(g, f) == x, "wrong", "and"); });
    bounded("or after or and xor", ab, 600, [&] { REQUIRE(m.or_rec(g, f) == y, "wrong", "or"); });
    bounded("xor after or and xor", 2 * ab, 600, [&] { REQUIRE(m.xor_rec(g, f) == z, "wrong", "xor"); });
    // a long conjunction of clauses over windows stays cheap
    node_ref acc = m.topsink(); double sum = 0;
    for(int i = 0; i + 2 < n; ++i) {
        node_ref cl = m.or_rec(m.or_rec(m.projection(i), m.projection(i + 1)), m.negate(m.projection(i + 2)));
        const double u = double(acc.nr_nodes() + 2) * 5; sum += u;
        bounded("conjoin a clause", u, 6000, [&] { acc = m.and_rec(acc, cl); });
        if(c.rng.chance(10)) m.collect_garbage();
    }
    maximum("clause_chain_nodes", acc.nr_nodes());
}
// large diagrams with small ones: the work has to stay proportional to the product, also at tens of thousands of nodes
static void big(Case& c)
{
    const size_t T = c.rng.chance(50) ? 4000 : c.rng.chance(60) ? 15000 : c.thorough ? 120000 : 40000;
    SWorld w(c.rng, T > 20000 ? c.rng.range(24, 40) : c.rng.range(16, 60), T);
    RefMgr& R = w.R; bdd_mgr& m = w.m; w.need_all();
    id f = 0; for(int i = 0; i < 5 && R.size(f) < 500; ++i) f = w.generate();
    node_ref F = w.build(f), z; const double a = R.size(f) + 2; maximum("big_operand_nodes", u64(a)); op("operand of %.0f nodes", a);
    bdd_collection col; size_t entry = 0;
    bounded("large add_bdd", a, 900, [&] { entry = col.add_bdd(F); });
    const double P = 300, L = 400, W = 900;
    const int rounds = c.rng.range(3, 8);
    for(int q = 0; q < rounds; ++q) {
        id g = w.small(); const double b = R.size(g) + 2; node_ref G = w.build(g); size_t ge = col.add_bdd(G);
        if(a * b > 3e6) continue;
        op("with %.0f nodes", b);
        const int k = c.rng.below(12);
        switch(k) {
            case 0: bounded("large and", a * b, P, [&] { z = m.and_rec(F, G); }); break;
            case 1: bounded("large or", a * b, P, [&] { z = m.or_rec(F, G); }); break;
            case 2: bounded("large xor", a * b * 2, P, [&] { z = m.xor_rec(F, G); }); break;
            case 3: bounded("large negate", a, 3000, [&] { z = m.negate(F); }); break;
            case 4: bounded("large nr_nodes", a, L, [&] { g_sink = F.nr_nodes(); }); bounded("large variables", a, L, [&] { F.variables(); }); bounded("large exactly_one_solution", a, L, [&] { g_sink = F.exactly_one_solution(); });
                bounded("large nodes_postorder", a, L, [&] { F.nodes_postorder(); }); bounded("large nodes_bfs", a, L, [&] { F.nodes_bfs(); }); break;
            case 5: { auto mp = w.increasing(f, false); std::unordered_map<size_t, size_t> u(mp.begin(), mp.end()); const double top = mp.empty() ? 0 : mp.rbegin()->second; w.need_var(size_t(top)); bounded("large rebase", a, 2500, [&] { z = m.rebase(F, u); }); break; }
            case 6: { std::ostringstream s; bounded("large print", a, W * 3, [&] { F.print(s); }); break; }
            case 7: z = node_ref(); G = z; bounded("large collect_garbage", m.nr_nodes() + 64.0 * m.nr_variables() * 2 + 4000, W * 2, [&] { m.collect_garbage(); }); break;
            case 8: { id h = w.clause(); const double d = R.size(h) + 2; if(a * b * d > 2e6) break; node_ref H = w.build(h); bounded("large ite", a * b * d, W, [&] { z = m.ite_rec(G, F, H); }); break; }
            case 9: { size_t x = 0; id h = w.cube(); const double d = R.size(h) + 2; size_t he = col.add_bdd(w.build(h)); if(a * b * d > 2e6) break; size_t idx[3] = {entry, ge, he}; std::swap(idx[0], idx[c.rng.below(3)]); bounded("large collection and of 3", a * b * d, W, [&] { x = col.bdd_and(idx, idx + 3); }); break; }
            case 10: { std::tuple<node_ref, size_t> t{node_ref(nullptr), 0}; bounded("large and_rec_limited", a * b * 50, W / 4, [&] { t = m.and_rec_limited(F, G, 5); }); break; }
            default: { std::ostringstream s; bounded("large graphviz", a * 8, W, [&] { col.export_graphviz(entry, s); }); break; }
        }
        switch(c.rng.below(8)) {
            case 0: case 1: case 2: bounded("large collection and", a * b, P, [&] { g_sink = c.rng.chance(50) ? col.bdd_and(entry, ge) : col.bdd_and(ge, entry); }); break;
            case 3: bounded("large limited collection and", a * b, P, [&] { g_sink = col.bdd_and(entry, ge, 3 + c.rng.below(size_t(a))); }); break;
            case 4: { std::set<size_t> p, n; for(size_t v : w.subset(5)) (c.rng.chance(50) ? p : n).insert(v); bounded("large collection or_var", a * (p.size() + n.size() + 2), W * 2, [&] { col.bdd_or_var(entry, p, n); }); break; }
            case 5: bounded("large export_bdd", a, W, [&] { z = col.export_bdd(m, entry); }); bounded("large import", a, 3600, [&] { z = m.add_bdd(col, entry); }); break;
            case 6: { auto mp = w.increasing(f, false); std::unordered_map<size_t, size_t> u(mp.begin(), mp.end()); bdd_collection c2; c2.add_bdd(F); bounded("large collection rebase", a, W, [&] { c2.rebase(0, u); }); bounded("large collection variables", a, W, [&] { col.variables(entry); }); break; }
            default: { double total = 0; for(size_t i = 0; i < col.nr_bdds(); ++i) total += col.nr_bdd_nodes(i); bdd_collection c2(col); std::vector<size_t> del; for(size_t i = 0; i < col.nr_bdds(); ++i) if(c.rng.chance(40)) del.push_back(i); bounded("large collection remove", total + 10, W, [&] { c2.remove(del.begin(), del.end()); }); break; }
        }
    }
}
// many entries and many handles: the work depends on the entries concerned, not on how many there are
static void many(Case& c)
{
    SWorld w(c.rng, c.rng.range(8, 30), 60); w.need_all();
    bdd_collection col; const size_t N = c.rng.range(300, c.thorough ? 6000 : 2500);
    std::vector<id> fs; for(int i = 0; i < 40; ++i) { id f = w.generate(); fs.push_back(f); }
    std::vector<node_ref> hs; for(id f : fs) hs.push_back(w.build(f));
    std::vector<id> t; u64 all = 0;
    for(size_t i = 0; i < N; ++i) { const size_t q = c.rng.below(fs.size()); const double a = w.R.size(fs[q]) + 2; all += u64(a); bounded("add_bdd to many entries", a, 900, [&] { col.add_bdd(hs[q]); }); t.push_back(fs[q]); }
    op("%zu entries of %llu nodes", N, (unsigned long long)all); maximum("many_entries", N);
    for(int q = 0; q < 12; ++q) {
        const size_t i = c.rng.below(t.size()), j = c.rng.below(t.size()); const double a = w.R.size(t[i]) + 2, b = w.R.size(t[j]) + 2; node_ref z;
        bounded("and among many entries", a * b, 300, [&] { g_sink = col.bdd_and(i, j); });
        { std::set<size_t> p{w.vs[c.rng.below(w.vs.size())]}, n; bounded("or_var among many entries", a * 3, 1800, [&] { col.bdd_or_var(i, p, n); }); }
        bounded("export among many entries", a, 900, [&] { z = col.export_bdd(w.m, i); });
        bounded("import among many entries", a, 3600, [&] { z = w.m.add_bdd(col, i); });
        bounded("variables among many entries", a, 900, [&] { col.variables(i); });
        { auto mp = w.increasing(t[i], false); std::unordered_map<size_t, size_t> u(mp.begin(), mp.end()); std::unordered_map<size_t, size_t> back; for(auto& [x, y] : u) back[y] = x; bounded("rebase among many entries", a, 900, [&] { col.rebase(i, u); }); col.rebase(i, back); }
        { std::vector<char> l(w.vs.back() + 100, 1); bounded("evaluate among many entries", w.vs.size(), 900, [&] { g_sink = col.evaluate(i, l.begin(), l.end()); }); }
        bounded("node count among many entries", 1, 900, [&] { g_sink = col.nr_bdd_nodes(i) + col.nr_bdds(); });
    }
    std::vector<size_t> del; const int pr = c.rng.range(1, 90); for(size_t i = 0; i < col.nr_bdds(); ++i) if(c.rng.chance(pr)) del.push_back(i);
    double total = 0; for(size_t i = 0; i < col.nr_bdds(); ++i) total += col.nr_bdd_nodes(i);
    bounded("remove among many entries", total, 900, [&] { col.remove(del.begin(), del.end()); });
}
// collections after a table has been far larger than what is left: the work depends on what is left
static void collect(Case& c)
{
    const size_t V = c.rng.range(1, 3), e = c.rng.range(6, c.thorough ? 18 : 16); Cycling w((size_t(1) << e) + 8, V);
    const double W = 120;
    auto size = [&] { return double(w.m.nr_nodes()) + 64.0 * w.m.nr_variables() + 200; };
    for(int q = c.rng.range(2, 6); q--;) {
        for(size_t v = 0; v < V; ++v) w.grow(v, c.rng.range(1, 1 << e));
        maximum("nodes_before_collection", w.m.nr_nodes());
        if(c.rng.chance(50)) bounded("collect_garbage, nothing dead", size(), W, [&] { w.m.collect_garbage(); });
        for(size_t v = 0; v < V; ++v) if(c.rng.chance(80)) w.shrink(v, c.rng.chance(50) ? c.rng.below(10) : c.rng.below(size_t(1) << e));
        bounded("collect_garbage, first", size(), W, [&] { w.m.collect_garbage(); });
        op("%zu nodes left", w.m.nr_nodes());
        for(int k = c.rng.range(1, 4); k--;) { bounded("collect_garbage, again", size(), W, [&] { w.m.collect_garbage(); }); if(c.rng.chance(50)) w.m.unique_find(c.rng.below(V), w.ch[0], w.ch[1]); }
        w.collect();
    }
}
void run_case(Case& c) { if(args.mode == "collect") collect(c); else if(args.mode == "big") big(c); else if(args.mode == "many") many(c); else if(args.mode == "coll") coll(c); else if(args.mode == "memo") memo(c); else run(c); }
void end_of_chunk() {}
