// C17: removing entries removes exactly those, keeps the others in order and intact.
#include "coll.h"
#include "scale.h"
#include "wide.h"
using namespace H;

// thousands of entries in one collection
static void scale_many(Case& c)
{
    SWorld w(c.rng, c.rng.range(3, 20), 12);
    w.fill_many(args.mode == "scale-san" ? 1000 : 5000);
    for(int q = 0; q < 4; ++q) {
        w.coll_remove_random(); if(w.t.size() < 4) break;
        if(c.rng.chance(50)) { std::vector<size_t> d; const size_t a = c.rng.below(w.t.size()), b = c.rng.chance(30) ? w.t.size() - 1 : a + c.rng.below(w.t.size() - a); for(size_t i = a; i <= b; ++i) d.push_back(i); w.coll_remove(d); }
        w.coll_ensure(3); for(int i = 0; i < 5; ++i) w.check_entry(w.epick());
        w.coll_and(); w.coll_export(); w.coll_or_var();
    }
    w.check_coll();
}
// large entries
static void scale(Case& c)
{
    if(c.rng.chance(50)) { scale_many(c); return; }
    SWorld w = make_scale(c);
    const int steps = w.target > 20000 ? c.rng.range(2, 6) : c.rng.range(5, 20);
    for(int k = 0; k < steps; ++k) { w.coll_step(); if(c.rng.chance(50)) { w.coll_remove_random(); w.coll_ensure(2); w.check_coll(); w.coll_export(); } }
    w.check_coll(); w.check_all();
}
void run_case(Case& c)
{ if(args.mode == "wide") { wide(c, {10, 3, 1, 1, 2, 2, 8, 0}); return; } if(args.mode.rfind("scale", 0) == 0) { scale(c); return; }
    CollWorld w(c.rng.range(1, 7), c.rng, c.rng.chance(40) ? 6 : 0);
    w.w.start(); w.limit = 60;
    const int rounds = c.rng.range(3, 12);
    for(int q = 0; q < rounds; ++q) {
        const int add = c.rng.range(0, 14);
        for(int i = 0; i < add; ++i) { const int k = c.rng.below(4); if(k == 0 && w.t.size() >= 2) w.do_and(); else if(k == 1 && !w.t.empty()) w.do_or_var(); else w.do_add(); }
        const size_t N = w.t.size();
        std::vector<size_t> del;
        const int kind = c.rng.below(10);
        if(kind == 0) {} // nothing
        else if(kind == 1) for(size_t k = 0; k < N; ++k) del.push_back(k); // all
        else if(kind == 2 && N) del.push_back(0);
        else if(kind == 3 && N) del.push_back(N - 1);
        else if(kind == 4 && N) { const size_t a = c.rng.below(N), b = a + c.rng.below(N - a); for(size_t k = a; k <= b; ++k) del.push_back(k); }
        else if(kind == 5 && N) { const size_t a = c.rng.below(N); for(size_t k = a; k < N; ++k) del.push_back(k); }
        else { const int pr = c.rng.range(5, 80); for(size_t k = 0; k < N; ++k) if(c.rng.chance(pr)) del.push_back(k); }
        auto before = w.snapshot();
        std::string s; for(size_t k : del) s += std::to_string(k) + " ";
        op("remove(%s) of %zu", s.c_str(), N); count("removals"); count("entries_removed", del.size());
        // exactly-sized copies: reading past the given range is caught
        if(c.rng.chance(50)) { size_t* raw = new size_t[del.size() ? del.size() : 1]; std::copy(del.begin(), del.end(), raw); w.col.remove(raw, raw + del.size()); for(size_t i = 0; i < del.size(); ++i) REQUIRE(raw[i] == del[i], "input-changed", "the list of indices was changed"); delete[] raw; }
        else remove_call(w.col, del, w.r);
        for(size_t i = del.size(); i-- > 0;) { w.t.erase(w.t.begin() + del[i]); w.exact.erase(w.exact.begin() + del[i]); before.erase(before.begin() + del[i]); }
        REQUIRE(w.col.nr_bdds() == w.t.size() && w.col.size() == w.t.size(), "wrong-count", "%zu entries left instead of %zu", w.col.nr_bdds(), w.t.size());
        REQUIRE(w.snapshot() == before, "changed", "a remaining entry changed or moved out of order");
        w.check_all();
        nontrivial(mix(hist_id));
        // the collection goes on working
        if(w.t.size() >= 2) { w.do_and(); w.do_nary(); }
        if(!w.t.empty()) { const size_t k = c.rng.below(w.t.size()); for(size_t v : w.w.vmap) w.w.need_var(v); REQUIRE(w.col.export_bdd(w.w.m, k) == w.w.from_tt(w.t[k]), "wrong-function", "export after removal"); }
    }
}
void end_of_chunk() {}
