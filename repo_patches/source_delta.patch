From 97d8feb25ccf04a3bfd355144ff4a0357f125572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 01/24] fix: give the exclusive-or its own memo key

xor_symb() returned the disjunction's key, so an exclusive-or computed after
a disjunction of the same operands returned the disjunction.
---
 include/bdd_memo_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_memo_cache.h b/include/bdd_memo_cache.h
index cfa6b39..d5e7f4a 100644
--- a/include/bdd_memo_cache.h
+++ b/include/bdd_memo_cache.h
@@ -25,7 +25,7 @@ namespace BDD {
 
         template<typename T>
         constexpr static node* xor_symb_impl() { return static_cast<T*>(nullptr) + 3; }
-        constexpr static node* xor_symb() { return or_symb_impl<node>(); }
+        constexpr static node* xor_symb() { return xor_symb_impl<node>(); }
 
         bool operator==(const memo_struct& m) const;
         bool operator!=(const memo_struct& m) const;
-- 
2.43.0


From 9ca10e793327d7251111930b4b858d75ad1dc570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 02/24] fix: branch on the smaller variable in the exclusive-or

Branching on the larger one built diagrams that violate the variable order
and are not canonical.
---
 src/bdd_mgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index af87c96..85c3d85 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -242,7 +242,7 @@ namespace BDD {
         var& vf = vars[f.variable()];
         assert(g.variable() < nr_variables());
         var& vg = vars[g.variable()];
-        var& v = *std::max(&vg,&vf);
+        var& v = *std::min(&vg,&vf);
 
         node_ref r0 = xor_rec(&v == &vf ? f.low() : f, &v == &vg ? g.low() : g);
         assert(r0.ref != nullptr);
-- 
2.43.0


From fb0694bfac752d1229284a1a984a7fbffbde50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 03/24] fix: do not descend into a terminal in if-then-else

A terminal branch is given the last variable, so when the last variable was
branched on the terminal's (non-existent) children were dereferenced.
---
 src/bdd_mgr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 85c3d85..50f6769 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -287,15 +287,15 @@ namespace BDD {
 
         node_ref r0 = ite_rec(
                 (&vf == &v ? f.low() : f),
-                (&vg == &v ? g.low() : g),
-                (&vh == &v ? h.low() : h)
+                (&vg == &v && !g.is_terminal() ? g.low() : g),
+                (&vh == &v && !h.is_terminal() ? h.low() : h)
                 );
         assert(r0.ref != nullptr);
 
         node_ref r1 = ite_rec(
                 (&vf == &v ? f.high() : f),
-                (&vg == &v ? g.high() : g),
-                (&vh == &v ? h.high() : h)
+                (&vg == &v && !g.is_terminal() ? g.high() : g),
+                (&vh == &v && !h.is_terminal() ? h.high() : h)
                 );
         assert(r1.ref != nullptr);
 
-- 
2.43.0


From 1ef029d4f385aef4c0759db57a6d39e1c64e195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 04/24] fix: at most b of fewer than b functions is always true

---
 include/bdd_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index cbc72b6..689ef8d 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -346,7 +346,7 @@ namespace BDD {
             const size_t n = std::distance(begin, end);
 
             if(n < b)
-                return node_cache_.botsink();
+                return node_cache_.topsink();
 
             if(n == 1 && b == 1)
                 return node_cache_.topsink();
-- 
2.43.0


From 10ccd84356591f38917bd5c8c6cb98393b171eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 05/24] fix: initialise hash key and mark of the terminal nodes

Both were read uninitialised; counting the nodes of a constant could abort.
---
 src/bdd_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 7518bc8..f9c333e 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -118,6 +118,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = botsink_index;
+        this->hash_key = 0;
+        this->marked_ = 0;
     }
 
     bool node::is_botsink() const
@@ -132,7 +134,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = topsink_index;
-
+        this->hash_key = 1;
+        this->marked_ = 0;
     }
 
     bool node::is_topsink() const
-- 
2.43.0


From d93297211be3c2a352df346cdc38e1b687d12c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 06/24] fix: garbage collection keeps the unique table
 consistent

Live nodes that were moved stayed in their old slot as well, dead nodes
inside a cluster were dropped without being freed, and shrinking the table
placed nodes by slot instead of by hash. Collection then hung, aborted, or
lost and duplicated nodes.
---
 include/bdd_var.h |  1 -
 src/bdd_var.cpp   | 76 ++++++++++-------------------------------------
 2 files changed, 16 insertions(+), 61 deletions(-)

diff --git a/include/bdd_var.h b/include/bdd_var.h
index ffc5f76..e96367f 100644
--- a/include/bdd_var.h
+++ b/include/bdd_var.h
@@ -91,7 +91,6 @@ class var_struct {
     private:
         const size_t var;
         double occupied_rate() const;
-        double occupied_rate(const size_t new_nr_pages) const;
         void initialize_unique_table();
 
         node** new_page(const size_t new_mask);
diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index d0d52f3..d89782c 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -197,83 +197,39 @@ namespace BDD {
         return double(hash_table_size() - free) / double(hash_table_size());
     }
 
-    double var_struct::occupied_rate(const size_t new_page_size) const
-    {
-        return double(new_page_size - free) / double(new_page_size);
-    }
-
     void var_struct::remove_dead_nodes()
     {
+        // take all nodes out of the table, so that no stale slot remains, and free the dead ones
+        std::vector<node*> live_nodes;
         for(std::size_t k = 0; k < hash_table_size(); ++k)
         {
             node* p = fetch_node(k);
-            if(p != nullptr && p->dead())
-            {
+            if(p == nullptr)
+                continue;
+            store_node(k, nullptr);
+            if(p->dead())
                 bdd_mgr_.get_node_cache().free_node(p);
-                store_node(k, nullptr);
-                free++;
-                // move nodes that follow this one back if hash value indicates so
-                size_t first_free_slot = k;
-                for(size_t j = k+1;; ++j)
-                {
-                    const size_t jj = j & mask;
-                    node* p = fetch_node(jj);
-                    if(p == nullptr)
-                    {
-                        k = j;
-                        break;
-                    }
-                    if(p->dead())
-                    {
-                        store_node(jj, nullptr);
-                        free++;
-                    }
-                    else
-                    {
-                        // shift one place up if hash code says so
-                        // TODO: can be made faster.
-                        store_node(next_free_slot(hash_code(p)), p);
-                    }
-                }
-            }
+            else
+                live_nodes.push_back(p);
         }
+        free = hash_table_size() - live_nodes.size();
 
         // reduce nr of pages if unique table too sparsely populated
         if(mask > 63 && occupied_rate() <= min_unique_table_fill)
         {
-            const size_t new_mask = [&]() {
-                size_t n = (mask+1)/2 - 1;
-                while(n >= 63 && occupied_rate(n) >= min_unique_table_fill)
-                    n /= (mask+1)/2 - 1;
-                return n;
-            }();
+            size_t new_mask = mask;
+            while(new_mask > 63 && live_nodes.size() <= min_unique_table_fill * (new_mask+1))
+                new_mask /= 2;
 
             node** new_base = new_page(new_mask);
-
-            for(std::size_t k = 0; k <= mask; ++k)
-            {
-                node* p = fetch_node(k);
-                if(p != nullptr)
-                {
-                    const size_t next_free_slot = [&]() {
-                        for(size_t l=k;; l++)
-                        {
-                            l = l & new_mask;
-                            if(new_base[k] == nullptr)
-                                return l;
-                        }
-                        assert(false);
-                        return size_t(0);
-                    }();
-
-                    new_base[next_free_slot] = p;
-                } 
-            }
-
             free_page(base, mask);
             base = new_base;
             mask = new_mask;
+            free = hash_table_size() - live_nodes.size();
         }
+
+        for(node* p : live_nodes)
+            store_node(next_free_slot(hash_code(p)), p);
     }
 
     node* var_struct::unique_find(const size_t index, node* l, node* h)
-- 
2.43.0


From 4b01cf18aec031f61d3bb4b1d1ee5435a6e32fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 07/24] fix: forget memoised results whose nodes were collected

Collected nodes have a reference count of zero, not a negative one, and the
third operand was not looked at, so memo entries kept naming freed nodes.
---
 src/bdd_memo_cache.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bdd_memo_cache.cpp b/src/bdd_memo_cache.cpp
index ab090f6..143050d 100644
--- a/src/bdd_memo_cache.cpp
+++ b/src/bdd_memo_cache.cpp
@@ -148,13 +148,11 @@ namespace BDD {
     {
         if(r == nullptr)
             return true; // TODO: or false?
-        if(r->xref < 0)
+        // nodes without references have been given back to the node cache
+        if(r->dead() || f->dead() || g->dead())
             return true;
-        if(f->xref < 0)
-            return true;
-        if(h != nullptr && g->xref < 0)
-            return true;
-        return false;
+        const bool h_is_node = h != and_symb() && h != or_symb() && h != xor_symb();
+        return h_is_node && h->dead();
     }
 
     size_t memo_cache::choose_cache_size(const size_t items) const
-- 
2.43.0


From 93c914424de234ea5ea2f8814c0cc894e7a2c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 08/24] fix: breadth first traversal of a constant is empty

It followed the terminal's child fields, which hold the manager's address.
---
 src/bdd_node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index f9c333e..402d66f 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -83,6 +83,8 @@ namespace BDD {
     {
         assert(marked_ == 0);
         std::vector<node*> nodes;
+        if(is_terminal())
+            return nodes;
         std::deque<node*> dq;
 
         dq.push_back(this);
-- 
2.43.0


From d06f0cfbdbe37ff3dbb027d95188348651d90b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 09/24] fix: rebasing a constant with a variable vector

The last element of an empty list of variables was taken.
---
 include/bdd_mgr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 689ef8d..49c6f10 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -128,8 +128,10 @@ namespace BDD {
     template<typename ITERATOR>
     node_ref bdd_mgr::rebase(node_ref p, ITERATOR var_map_begin, ITERATOR var_map_end)
     {
+        if(p.is_terminal())
+            return p;
         const size_t nr_vars = std::distance(var_map_begin, var_map_end);
-        assert(p.variables().back() <= nr_vars);
+        assert(p.variables().back() < nr_vars);
         const size_t last_var = *std::max_element(var_map_begin, var_map_end);
         for(size_t i=nr_variables(); i<=last_var; ++i)
             add_variable();
-- 
2.43.0


From 47ef050cda9e131d5be70a193ff5b0ef80e6fcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 10/24] fix: import diagrams from collections of over 1000
 nodes

A leftover debugging assertion aborted.
---
 src/bdd_mgr.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 50f6769..49380bc 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -412,7 +412,6 @@ namespace BDD {
             }
             else
             { 
-                assert(bdd_col.offset(bdd) < 1000); // TODO: remove
                 assert(bdd_map.count(bdd.lo) > 0);
                 node_ref lo = bdd_map.find(bdd.lo)->second;
 
-- 
2.43.0


From 19bac89b9f2848b543af010411a5fcbe6d1b9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 11/24] fix: removing diagrams reads past the end of the index
 list

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7d6ff09..cfdaa9c 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -265,7 +265,7 @@ namespace BDD {
             auto bdd_it = bdd_it_begin;
             for(size_t bdd_nr=*bdd_it; bdd_nr<nr_bdds(); ++bdd_nr)
             {
-                if(bdd_nr == *bdd_it) // skip bdd
+                if(bdd_it != bdd_it_end && bdd_nr == *bdd_it) // skip bdd
                 {
                     ++bdd_it;
                 }
-- 
2.43.0


From 765deb4a8c62e049acd3d63aaefa01b5849461fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 12/24] fix: negation takes exponential time

Without memoisation shared nodes were negated once per path; negating the
parity of 50 variables did not end.
---
 src/bdd_mgr.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 49380bc..c65765d 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -46,9 +46,18 @@ namespace BDD {
             return node_ref(node_cache_.botsink());
         else
         {
+            // negation is exclusive-or with the topsink, which xor_rec does not memoise itself
+            node* m = memo_.cache_lookup(p.ref, node_cache_.topsink(), memo_struct::xor_symb());
+            if(m != nullptr)
+                return node_ref(m);
+
             const std::size_t v = p.variable();
             assert(v < nr_variables());
-            return node_ref(vars[v].unique_find( negate(p.low()).ref, negate(p.high()).ref));
+            node_ref lo = negate(p.low());
+            node_ref hi = negate(p.high());
+            node* r = vars[v].unique_find(lo.ref, hi.ref);
+            memo_.cache_insert(p.ref, node_cache_.topsink(), memo_struct::xor_symb(), r);
+            return node_ref(r);
         }
     }
 
-- 
2.43.0


From 79529cb06571187ffe2832466bf4fc5d9dcfc105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 13/24] fix: data race between independent managers in
 different threads

All managers drew hash keys from one unsynchronised generator.
---
 src/bdd_node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 402d66f..2b8ae67 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -22,9 +22,9 @@ namespace BDD {
         marked_ = 0;
         xref = 0;
 
-        static std::random_device rd;
-        static std::mt19937 unique_table_gen(rd());
-        static std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
+        thread_local std::random_device rd;
+        thread_local std::mt19937 unique_table_gen(rd());
+        thread_local std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
 
         hash_key = unique_table_distribution(unique_table_gen);
 
-- 
2.43.0


From dc0a70fe706a02e601ffe3b376d612b2d3038aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 14/24] fix: unique table grows to its maximum size and reports
 when it is full

new_page took pages of another size than free_page gave back, so pages of
each size leaked into the next smaller one, and the step to the largest size
threw after the mask had been doubled, leaving a table that is read out of
bounds. Fill the largest table up instead and throw before changing anything.
---
 src/bdd_var.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index d89782c..2a6bb22 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -38,21 +38,21 @@ namespace BDD {
     {
         unique_table_page_caches& cache = bdd_mgr_.get_unique_table_page_cache();
         switch(new_mask) {
-            case 63: return reinterpret_cast<node**>(cache.cache_128.reserve_page()); 
-            case 127: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
-            case 255: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
-            case 511: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
-            case 1023: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
-            case 2047: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
-            case 4095: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
-            case 8191: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
-            case 16383: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
-            case 32767: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
-            case 65535: return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
-            case 131071:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
-            case 262143:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
-            case 524287:return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
-            case 1048575: throw std::runtime_error("Cannot increase unique table page cache size.");;
+            case 63: return reinterpret_cast<node**>(cache.cache_64.reserve_page()); 
+            case 127: return reinterpret_cast<node**>(cache.cache_128.reserve_page());
+            case 255: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
+            case 511: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
+            case 1023: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
+            case 2047: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
+            case 4095: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
+            case 8191: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
+            case 16383: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
+            case 32767: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
+            case 65535: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
+            case 131071: return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
+            case 262143: return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
+            case 524287: return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
+            case 1048575: return reinterpret_cast<node**>(cache.cache_1048576.reserve_page());
             default: assert(false);
         } 
     }
@@ -272,6 +272,9 @@ namespace BDD {
         // allocate free node and add it to unique table
         if(occupied_rate() > max_unique_table_fill) // double number of base pages for unique table
             double_cache();
+        // one slot has to stay empty, otherwise looking up an absent node does not end
+        if(free <= 1)
+            throw std::runtime_error("Cannot increase unique table page cache size.");
 
         // allocate new node and insert it into unique table
         p = bdd_mgr_.get_node_cache().reserve_node();
-- 
2.43.0


From 7ffdf01d5a01804582a1f578f6ec9db497b83d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 15/24] fix: node limited conjunction counts the nodes of its
 result

It counted shared nodes once per path, did not count the node it had just
made, and ignored the limit when an operand was a constant, so it both gave up
on results with fewer nodes than the limit and returned larger ones.
---
 src/bdd_mgr.cpp | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index c65765d..62320b9 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -112,36 +112,32 @@ namespace BDD {
     // return
     std::tuple<node_ref,size_t> bdd_mgr::and_rec_limited(node_ref f, node_ref g, const size_t node_limit)
     {
+        // result r, unless it has too many nodes
+        auto limited = [&](node_ref r) -> std::tuple<node_ref,size_t> {
+            const size_t nr_nodes = r.nr_nodes();
+            if(nr_nodes >= node_limit)
+                return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
+            return {r, nr_nodes};
+        };
+
         if(f == g)
-        {
-            const size_t nr_nodes = f.nr_nodes();
-            if(nr_nodes > node_limit)
-               return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-            return {f,nr_nodes};
-        }
+            return limited(f);
 
         if(f.ref > g.ref)
             return and_rec_limited(g,f,node_limit);
 
         if(f.ref == node_cache_.topsink())
-            return {g,g.nr_nodes()};
+            return limited(g);
         else if(f.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return limited(f);
         else if(g.ref == node_cache_.topsink())
-            return {f,f.nr_nodes()};
+            return limited(f);
         else if(g.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return limited(g);
 
         node* m = memo_.cache_lookup(f.ref, g.ref, memo_struct::and_symb());
         if(m != nullptr)
-        {
-            const size_t m_nr_nodes = m->nr_nodes();
-            if(m != nullptr)
-                if(m_nr_nodes <= node_limit)
-                    return {node_ref(m), m_nr_nodes};
-                else 
-                    return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-        }
+            return limited(node_ref(m));
 
         var& f_var = vars[f.variable()];
         var& g_var = vars[g.variable()];
@@ -152,22 +148,23 @@ namespace BDD {
                 return g_var;
         }();
 
+        // the nodes of r0 and r1 are also nodes of the result
         auto [r0, r0_nr_nodes] = and_rec_limited(&v == &f_var ? f.low() : f, &v == &g_var ? g.low() : g, node_limit);
         assert((r0 == nullptr) == (r0_nr_nodes == std::numeric_limits<size_t>::max()));
         assert(r0.ref != nullptr || r0_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes > node_limit)
+        if(r0.ref == nullptr)
             return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
         auto [r1, r1_nr_nodes] = and_rec_limited(&v == &f_var ? f.high() : f, &v == &g_var ? g.high() : g, node_limit);
         assert((r1 == nullptr) == (r1_nr_nodes == std::numeric_limits<size_t>::max()));
         assert(r1.ref != nullptr || r1_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes == std::numeric_limits<size_t>::max() || r1_nr_nodes == std::numeric_limits<size_t>::max() || r0_nr_nodes + r1_nr_nodes > node_limit)
+        if(r1.ref == nullptr)
             return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
         
         node* r = v.unique_find(r0.ref, r1.ref);
         assert(r != nullptr);
         //if(r != nullptr)
         memo_.cache_insert(f.ref, g.ref, memo_struct::and_symb(), r);
-        return {node_ref(r),r0_nr_nodes + r1_nr_nodes}; 
+        return limited(node_ref(r));
     }
 
     node_ref bdd_mgr::or_rec(node_ref f, node_ref g)
-- 
2.43.0


From 4a969619bb9d398ea83b10d1361a4e77c2a8e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 16/24] fix: constant diagrams in collections

The conjunction of contradicting diagrams aborted (without assertions it came
out as constant true), and constants could not be added. A constant is now two
terminal instructions with the root first, as evaluate already expects.
---
 include/bdd_collection.h |  4 ++--
 src/bdd_collection.cpp   | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index cfdaa9c..07920e0 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -286,7 +286,7 @@ namespace BDD {
                             new_bdd_instructions.push_back(bdd_instr);
                     }
                     new_bdd_delimiters.push_back(new_bdd_instructions.size());
-                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] > 2);
+                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] >= 2);
                 }
             }
             assert(bdd_it == bdd_it_end);
@@ -482,7 +482,7 @@ namespace BDD {
             for(auto [x,y] : cluster_nodes)
                 cluster_nodes2.push_back({x,y});
             std::sort(cluster_nodes2.begin(), cluster_nodes2.end(), [](const auto a, const auto b) { return a[0] < b[0]; });
-            for(size_t c=0; c<cluster_nodes2.size()-1; ++c)
+            for(size_t c=0; c+1<cluster_nodes2.size(); ++c)
                 s << cluster_nodes2[c][1] << " -> " << cluster_nodes2[c+1][1] << " [style=invis];\n";
 
             for(size_t i=bdd_delimiters[bdd_nr]; i<bdd_delimiters[bdd_nr+1]; ++i)
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d9c08ec..42b436a 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -29,7 +29,8 @@ namespace BDD {
 
         if(root_idx != std::numeric_limits<size_t>::max())
         {
-            assert(stack.size() > 2);
+            if(root_idx == 0) // constant false: the root is always the first instruction
+                std::swap(stack[0], stack[1]);
             const size_t offset = bdd_delimiters.back();
             for(ptrdiff_t s = stack.size()-1; s>=0; --s)
             {
@@ -131,7 +132,8 @@ namespace BDD {
 
             if(root_idx != std::numeric_limits<size_t>::max())
             {
-                assert(stack.size() > 2);
+                if(root_idx == 0) // constant false: the root is always the first instruction
+                    std::swap(stack[0], stack[1]);
                 const size_t offset = bdd_delimiters.back();
                 for(ptrdiff_t s = stack.size()-1; s>=0; --s)
                 {
@@ -293,14 +295,17 @@ namespace BDD {
         }
 
         // TODO: not most efficient, record top and botsink above
-        node_ref_hash.insert({nodes.back().botsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.botsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::botsink());
         assert(bdd_instructions.back().is_botsink());
 
-        node_ref_hash.insert({nodes.back().topsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.topsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::topsink());
         assert(bdd_instructions.back().is_topsink());
 
+        if(root.is_topsink()) // constant true: the root is always the first instruction
+            std::swap(bdd_instructions[bdd_instructions.size()-2], bdd_instructions[bdd_instructions.size()-1]);
+
         const size_t offset = bdd_delimiters.back();
         for(size_t i=0; i<nodes.size(); ++i)
         {
@@ -324,7 +329,9 @@ namespace BDD {
     node_ref bdd_collection::export_bdd(bdd_mgr& mgr, const size_t bdd_nr) const
     {
         assert(bdd_nr < nr_bdds());
-        assert(nr_bdd_nodes(bdd_nr) > 2);
+        assert(nr_bdd_nodes(bdd_nr) >= 2);
+        if(nr_bdd_nodes(bdd_nr) == 2)
+            return bdd_instructions[bdd_delimiters[bdd_nr]].is_topsink() ? mgr.topsink() : mgr.botsink();
         // TODO: use vector and shift indices by offset
         std::unordered_map<size_t, node_ref> bdd_instr_hash;
         assert(bdd_instructions[bdd_delimiters[bdd_nr+1]-2].is_terminal());
@@ -535,7 +542,6 @@ namespace BDD {
             vars.push_back(bdd_instructions[i].index);
         }
 
-        assert(vars.size() > 0);
         std::sort(vars.begin(), vars.end());
         vars.erase( std::unique(vars.begin(), vars.end() ), vars.end());
         return vars;
-- 
2.43.0


From a27db1af8bc3a9343485bb67d3100eb78824f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 17/24] fix: conjunction in collections takes exponential time

Pairs of nodes whose conjunction is a terminal or an existing node were not
remembered and were expanded again on every path to them.
---
 src/bdd_collection.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 42b436a..c1973c4 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -93,10 +93,17 @@ namespace BDD {
             return std::numeric_limits<size_t>::max();
 
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t reduced_idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, reduced_idx));
+            return reduced_idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
@@ -266,10 +273,17 @@ namespace BDD {
             return std::numeric_limits<size_t>::max();
 
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(bdds, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t reduced_idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(bdds, reduced_idx));
+            return reduced_idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
-- 
2.43.0


From 1c4905692cb3ce6d31224f0538f6fddf081e8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 18/24] fix: disjunction of a diagram in a collection with
 literals

Rerouting arcs of existing nodes missed every path that does not test the
variable, and the reduction afterwards aborted, or left redundant, isomorphic
and unreachable nodes. Synthesise the disjunction as the conjunction is.
---
 include/bdd_collection.h |  51 +++-----------
 src/bdd_collection.cpp   | 147 +++++++++++++++++++--------------------
 2 files changed, 80 insertions(+), 118 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 07920e0..0006eb9 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -168,8 +168,8 @@ namespace BDD {
             size_t splitting_variable(const bdd_instruction& k, const bdd_instruction& l) const;
             size_t add_bdd_impl(node_ref bdd);
             bool is_bdd(const size_t i) const;
-            // bring last DAG into BDD-form
-            void reduce();
+            size_t bdd_or_literals(const size_t i, const std::vector<std::array<size_t,2>>& literals);
+            size_t bdd_or_literals_impl(const size_t f_i, const size_t k, const std::vector<std::array<size_t,2>>& literals);
 
             std::vector<bdd_instruction> bdd_instructions;
             std::vector<size_t> bdd_delimiters = {0};
@@ -374,45 +374,14 @@ namespace BDD {
         size_t bdd_collection::bdd_or_var(const size_t i, const VAR_SET& positive_variables, const VAR_SET& negative_variables)
         {
             assert(i < nr_bdds());
-            // copy old bdd instructions
-            for(size_t idx=bdd_delimiters[i]; idx<bdd_delimiters[i+1]; ++idx)
-            {
-                bdd_instruction instr = bdd_instructions[idx];
-                if(!instr.is_terminal())
-                {
-                    instr.lo += bdd_delimiters.back() - bdd_delimiters[i];
-                    instr.hi += bdd_delimiters.back() - bdd_delimiters[i];
-                }
-                bdd_instructions.push_back(instr);
-            }
-            bdd_delimiters.push_back(bdd_instructions.size());
-
-            assert(bdd_instructions.back().is_terminal());
-            assert(bdd_instructions[bdd_instructions.size()-2].is_terminal());
-            assert(bdd_instructions[bdd_instructions.size()-1] != bdd_instructions[bdd_instructions.size()-2]);
-
-            const size_t botsink_index = bdd_instructions[bdd_instructions.size()-1].is_botsink() ? bdd_instructions.size()-1 : bdd_instructions.size()-2;
-            assert(bdd_instructions[botsink_index].is_botsink());
-            const size_t topsink_index = bdd_instructions[bdd_instructions.size()-1].is_topsink() ? bdd_instructions.size()-1 : bdd_instructions.size()-2;
-            assert(bdd_instructions[topsink_index].is_topsink());
-            assert(botsink_index != topsink_index);
-
-            // reroute arcs to topsink for instructions that cover positive or negative variables
-            const size_t new_bdd_nr = bdd_delimiters.size()-2;
-            for(size_t idx=bdd_delimiters[new_bdd_nr]; idx<bdd_delimiters[new_bdd_nr+1]; ++idx)
-            {
-                auto& instr = bdd_instructions[idx];
-                if(instr.is_terminal())
-                    continue;
-                if(positive_variables.count(instr.index) > 0)
-                    instr.hi = topsink_index; 
-                if(negative_variables.count(instr.index) > 0)
-                    instr.lo = topsink_index; 
-            }
-
-            reduce(); 
-            assert(is_bdd(new_bdd_nr));
-            return new_bdd_nr;
+            // (variable, value) pairs that make a literal true, in variable order
+            std::vector<std::array<size_t,2>> literals;
+            for(const size_t v : positive_variables)
+                literals.push_back({v,1});
+            for(const size_t v : negative_variables)
+                literals.push_back({v,0});
+            std::sort(literals.begin(), literals.end());
+            return bdd_or_literals(i, literals);
         }
 
 
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index c1973c4..67e663d 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -295,6 +295,76 @@ namespace BDD {
         return meld_idx;
     }
 
+    size_t bdd_collection::bdd_or_literals(const size_t i, const std::vector<std::array<size_t,2>>& literals)
+    {
+        assert(i < nr_bdds());
+        assert(stack.empty());
+        assert(generated_nodes.empty());
+        assert(reduction.empty());
+
+        // generate terminal vertices
+        stack.push_back(bdd_instruction::botsink());
+        stack.push_back(bdd_instruction::topsink());
+        const size_t root_idx = bdd_or_literals_impl(bdd_delimiters[i], 0, literals);
+        if(root_idx == 0) // constant false: the root is always the first instruction
+            std::swap(stack[0], stack[1]);
+
+        const size_t offset = bdd_delimiters.back();
+        for(ptrdiff_t s = stack.size()-1; s>=0; --s)
+        {
+            const size_t lo = offset + stack.size() - stack[s].lo - 1;
+            const size_t hi = offset + stack.size() - stack[s].hi - 1;
+            bdd_instructions.push_back({lo, hi, stack[s].index});
+        }
+        bdd_delimiters.push_back(bdd_instructions.size());
+        assert(is_bdd(bdd_delimiters.size()-2));
+
+        generated_nodes.clear();
+        reduction.clear();
+        stack.clear();
+        return bdd_delimiters.size()-2;
+    }
+
+    // disjunction of the node f_i with the literals from the k-th on. Return index on stack.
+    size_t bdd_collection::bdd_or_literals_impl(const size_t f_i, const size_t k, const std::vector<std::array<size_t,2>>& literals)
+    {
+        const bdd_instruction f = bdd_instructions[f_i];
+        if(f.is_topsink())
+            return 1; //topsink position on stack
+        if(f.is_botsink() && k == literals.size())
+            return 0; //botsink position on stack
+
+        auto it = generated_nodes.find({f_i,k});
+        if(it != generated_nodes.end())
+            return it->second;
+
+        const size_t v = k < literals.size() ? std::min(f.index, literals[k][0]) : f.index;
+        const bool is_literal = k < literals.size() && v == literals[k][0];
+        const size_t next_k = is_literal ? k+1 : k;
+        // both literals of a variable are given
+        if(is_literal && next_k < literals.size() && v == literals[next_k][0])
+            return 1;
+
+        const size_t lo = is_literal && literals[k][1] == 0 ? 1 : bdd_or_literals_impl(v == f.index ? f.lo : f_i, next_k, literals);
+        const size_t hi = is_literal && literals[k][1] == 1 ? 1 : bdd_or_literals_impl(v == f.index ? f.hi : f_i, next_k, literals);
+
+        size_t or_idx = lo;
+        if(lo != hi)
+        {
+            auto reduction_it = reduction.find({lo,hi,v});
+            if(reduction_it != reduction.end())
+                or_idx = reduction_it->second;
+            else
+            {
+                stack.push_back({lo, hi, v});
+                or_idx = stack.size()-1;
+                reduction.insert({bdd_instruction{lo,hi,v}, or_idx});
+            }
+        }
+        generated_nodes.insert({std::array<size_t,2>{f_i,k}, or_idx});
+        return or_idx;
+    }
+
     size_t bdd_collection::add_bdd(node_ref root)
     {
         assert(bdd_delimiters.back() == bdd_instructions.size());
@@ -468,83 +538,6 @@ namespace BDD {
         return true;
     }
 
-    void bdd_collection::reduce()
-    {
-        assert(nr_bdds() > 0);
-        const size_t bdd_nr = nr_bdds() - 1;
-
-        std::vector<char> remove(nr_bdd_nodes(bdd_nr), false);
-        
-        // remove nodes with identical lo and hi arcs
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
-        {
-            bdd_instruction& instr = bdd_instructions[idx];
-            bdd_instruction& lo = bdd_instructions[instr.lo];
-            bdd_instruction& hi = bdd_instructions[instr.hi];
-            if(!lo.is_terminal() && lo.lo == lo.hi)
-                instr.lo = bdd_instructions[lo.lo].lo;
-            if(!hi.is_terminal() && hi.lo == hi.hi)
-                instr.hi = bdd_instructions[hi.hi].hi;
-            if(instr.lo == instr.hi)
-            {
-                std::cout << "remove instr due to same lo and hi\n";
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-            }
-        }
-
-        // remove isomorphic subgraphs
-        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-1], bdd_delimiters[bdd_nr+1]-1});
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-2], bdd_delimiters[bdd_nr+1]-2});
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
-        {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
-            bdd_instruction& instr = bdd_instructions[idx];
-            auto it = bdd_map.find(instr);
-            if(it == bdd_map.end())
-                bdd_map.insert({instr, idx});
-            else
-            {
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-                std::cout << "remove due to isomorphic subgraphs\n";
-            }
-            assert(bdd_map.count(bdd_instructions[instr.lo]) > 0);
-            assert(bdd_map.count(bdd_instructions[instr.hi]) > 0);
-            instr.lo = bdd_map.find(bdd_instructions[instr.lo])->second;
-            instr.hi = bdd_map.find(bdd_instructions[instr.hi])->second;
-        }
-
-        // compactify: remove unused instructions and move remaining ones to contiguous placement
-        const size_t nr_remaining_instructions = std::count(remove.begin(), remove.end(), false);
-        std::vector<bdd_instruction> new_bdd_instructions;
-        new_bdd_instructions.reserve(nr_remaining_instructions);
-        std::vector<size_t> address_delta;
-        // TODO: counted correctly?
-        address_delta.reserve(nr_bdd_nodes(bdd_nr));
-        address_delta.push_back(0);
-        std::partial_sum(remove.begin(), remove.end()-1, std::back_inserter(address_delta));
-            
-        for(size_t idx=bdd_delimiters[bdd_nr]; idx<bdd_delimiters[bdd_nr+1]-2; ++idx)
-        {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
-            bdd_instruction instr = bdd_instructions[idx];
-            instr.lo -= address_delta[instr.lo-bdd_delimiters[bdd_nr]];
-            instr.hi -= address_delta[instr.hi-bdd_delimiters[bdd_nr]]; 
-            new_bdd_instructions.push_back(instr);
-        }
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-2]);
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-1]);
-        std::cout << "new bdd has " << new_bdd_instructions.size() << " nodes\n";
-
-        bdd_instructions.resize(bdd_delimiters[bdd_nr]);
-        for(const auto instr : new_bdd_instructions)
-            bdd_instructions.push_back(instr);
-        bdd_delimiters.back() = bdd_instructions.size(); 
-        assert(is_bdd(bdd_nr));
-    }
-
     std::vector<size_t> bdd_collection::variables(const size_t bdd_nr) const
     {
         assert(bdd_nr < nr_bdds());
-- 
2.43.0


From 63025c1e259efd1ad39c8e141948c3fd25c1927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 19/24] fix: find the terminals of a diagram in a collection in
 either order

Importing a diagram stores them in one order, synthesising one in the other,
so the terminals of a conjunction were confused. Rerouting arcs uses them.
---
 src/bdd_collection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 67e663d..b76a262 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -654,14 +654,20 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_entry::botsink() const
     {
+        // the order of the two terminals is not fixed
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
+        if(!node.is_botsink())
+            node = bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
         assert(node.is_botsink());
         return node;
     }
 
     bdd_collection_node bdd_collection_entry::topsink() const
     {
+        // the order of the two terminals is not fixed
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
+        if(!node.is_topsink())
+            node = bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
         assert(node.is_topsink());
         return node;
     }
-- 
2.43.0


From 47d2f21a17f2a9b0f37505d345594706534e2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 20/24] fix: nodes of a diagram in a collection refer to a
 destroyed entry

collection[i].root_node() kept a reference to the temporary collection[i].
---
 include/bdd_collection.h | 57 ++++++++++++++++++++--------------------
 src/bdd_collection.cpp   |  2 +-
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 0006eb9..16eb703 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -54,7 +54,34 @@ namespace BDD {
         } 
     };
 
-    class bdd_collection_entry;
+    class bdd_collection;
+    class bdd_collection_node;
+
+    // convenience class to make bdd_collection bdds behave similary to node_ref
+    class bdd_collection_entry 
+    {
+        friend class bdd_collection_node;
+        public:
+            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
+            std::vector<size_t> variables();
+            bdd_collection_entry operator&(bdd_collection_entry& o);
+            bdd_collection_node operator[](const size_t i) const;
+            size_t nr_nodes() const;
+            size_t nr_nodes(const size_t variable) const;
+            template<typename ITERATOR>
+                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
+            template<typename VAR_MAP>
+                void rebase(const VAR_MAP& var_map);
+
+            bdd_collection_node root_node() const;
+            bdd_collection_node first_node_postorder() const;
+            bdd_collection_node botsink() const;
+            bdd_collection_node topsink() const;
+
+        private:
+            const size_t bdd_nr;
+            bdd_collection& bdd_col;
+    };
 
     // convenience class for wrapping bdd node
     class bdd_collection_node
@@ -85,33 +112,7 @@ namespace BDD {
 
         private:
             size_t i; 
-            const bdd_collection_entry& bce;
-    };
-
-    // convenience class to make bdd_collection bdds behave similary to node_ref
-    class bdd_collection_entry 
-    {
-        friend class bdd_collection_node;
-        public:
-            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
-            std::vector<size_t> variables();
-            bdd_collection_entry operator&(bdd_collection_entry& o);
-            bdd_collection_node operator[](const size_t i) const;
-            size_t nr_nodes() const;
-            size_t nr_nodes(const size_t variable) const;
-            template<typename ITERATOR>
-                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
-            template<typename VAR_MAP>
-                void rebase(const VAR_MAP& var_map);
-
-            bdd_collection_node root_node() const;
-            bdd_collection_node first_node_postorder() const;
-            bdd_collection_node botsink() const;
-            bdd_collection_node topsink() const;
-
-        private:
-            const size_t bdd_nr;
-            bdd_collection& bdd_col;
+            const bdd_collection_entry bce;
     };
 
     class bdd_collection {
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index b76a262..a125300 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -779,7 +779,7 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_node::operator=(const bdd_collection_node& o)
     {
-        assert(&bce == &o.bce);
+        assert(&bce.bdd_col == &o.bce.bdd_col && bce.bdd_nr == o.bce.bdd_nr);
         i = o.i;
         return *this;
     }
-- 
2.43.0


From d32ea1de926b1d43e6d7efda0ed2b61afad8c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 21/24] fix: building a diagram in a collection node by node

Every added node lay outside of its diagram's delimiters, arcs to terminals
looked for terminals that do not exist before the diagram is closed, and
closing walked over a range that was not up to date.
---
 include/bdd_collection.h |  1 +
 src/bdd_collection.cpp   | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 16eb703..6955e8a 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -79,6 +79,7 @@ namespace BDD {
             bdd_collection_node topsink() const;
 
         private:
+            bool under_construction() const; // no terminals yet
             const size_t bdd_nr;
             bdd_collection& bdd_col;
     };
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index a125300..3221ffc 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -572,6 +572,7 @@ namespace BDD {
         instr.lo = bdd_instruction::temp_undefined_index;
         instr.hi = bdd_instruction::temp_undefined_index;
         bdd_instructions.push_back(instr);
+        bdd_delimiters.back() = bdd_instructions.size();
         return bdd_collection_node(bdd_instructions.size()-1, bdd_collection_entry(bdd_delimiters.size()-2, *this));
     }
 
@@ -580,6 +581,7 @@ namespace BDD {
         // add top and botsink
         bdd_instructions.push_back(bdd_instruction::topsink());
         bdd_instructions.push_back(bdd_instruction::botsink());
+        bdd_delimiters.back() = bdd_instructions.size();
 
         // go over previous bdd instructions and reroute topsink and botsink entries to correct entries
         for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_delimiters[bdd_delimiters.size()-1]-2; ++idx)
@@ -604,8 +606,6 @@ namespace BDD {
             else
                 assert(instr.hi < bdd_instructions.size() && instr.hi >= bdd_delimiters[bdd_delimiters.size()-2]); 
         }
-
-        bdd_delimiters.back() = bdd_instructions.size();
     }
 
     //////////////////////////
@@ -652,6 +652,12 @@ namespace BDD {
         return bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-3, *this);
     }
 
+    bool bdd_collection_entry::under_construction() const
+    {
+        const bdd_instruction& last = bdd_col.bdd_instructions[bdd_col.bdd_delimiters[bdd_nr+1]-1];
+        return !last.is_botsink() && !last.is_topsink();
+    }
+
     bdd_collection_node bdd_collection_entry::botsink() const
     {
         // the order of the two terminals is not fixed
@@ -738,25 +744,25 @@ namespace BDD {
     void bdd_collection_node::set_lo_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.botsink().i;
+        instr.lo = bce.under_construction() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_lo_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.topsink().i;
+        instr.lo = bce.under_construction() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     void bdd_collection_node::set_hi_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.botsink().i;
+        instr.hi = bce.under_construction() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_hi_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.topsink().i;
+        instr.hi = bce.under_construction() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     bdd_collection_node bdd_collection_node::next_postorder() const
-- 
2.43.0


From b0fbedd932ce9540053e09118f2808fc50164839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 22/24] fix: list a diagram's instructions in reverse

get_reverse_bdd_instructions listed them in forward order.
---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 6955e8a..20f52e7 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -154,7 +154,7 @@ namespace BDD {
             template<typename STREAM>
                 void export_graphviz(const size_t bdd_nr, STREAM& s) const;
             auto get_bdd_instructions(const size_t bdd_nr) const { return std::make_pair(bdd_instructions.begin() + bdd_delimiters[bdd_nr], bdd_instructions.begin() + bdd_delimiters[bdd_nr+1]); }
-            auto get_reverse_bdd_instructions(const size_t bdd_nr) const { return std::make_pair(bdd_instructions.begin() + bdd_delimiters[bdd_nr], bdd_instructions.begin() + bdd_delimiters[bdd_nr+1]); }
+            auto get_reverse_bdd_instructions(const size_t bdd_nr) const { return std::make_pair(std::make_reverse_iterator(bdd_instructions.begin() + bdd_delimiters[bdd_nr+1]), std::make_reverse_iterator(bdd_instructions.begin() + bdd_delimiters[bdd_nr])); }
 
             // for constructing a new bdd
             size_t new_bdd();
-- 
2.43.0


From e5c2ad981f9d27d701f55c5d9b34958ed3bfd3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 23/24] fix: hashes in collections collide

The exclusive-or of the two successors of a node and its index takes few
values, as indices of successors are close to each other: the conjunction of a
diagram of some ten thousand nodes with a small one took quadratic time.
---
 include/bdd_collection.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 20f52e7..100db5d 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -31,29 +31,30 @@ namespace BDD {
         constexpr static size_t temp_undefined_index = std::numeric_limits<size_t>::max()-2;
     };
 
-    struct bdd_instruction_hasher {
-        size_t operator()(const bdd_instruction& bdd) const { return std::hash<size_t>()(bdd.lo) ^ std::hash<size_t>()(bdd.hi) ^ std::hash<size_t>()(bdd.index); }
-    };
-
     template<size_t N>
     struct array_hasher {
         size_t hash_combine(size_t lhs, size_t rhs) const
         {
-            lhs ^= rhs + 0x9e3779b9 + (lhs << 6) + (lhs >> 2);
-            return lhs;
+            // indices are consecutive small numbers, hence spread them over all bits
+            lhs = (lhs ^ rhs) * 0x9e3779b97f4a7c15;
+            return lhs ^ (lhs >> 32);
         }
            
 
         size_t operator()(const std::array<size_t,N>& a) const 
         {
-             size_t h = std::hash<size_t>()(a[0]);
-             for(std::size_t i=1; i<N; ++i) {
+             size_t h = 0;
+             for(std::size_t i=0; i<N; ++i) {
                  h = hash_combine(h, std::hash<size_t>()(a[i]));
              }   
              return h; 
         } 
     };
 
+    struct bdd_instruction_hasher {
+        size_t operator()(const bdd_instruction& bdd) const { return array_hasher<3>()({bdd.lo, bdd.hi, bdd.index}); }
+    };
+
     class bdd_collection;
     class bdd_collection_node;
 
-- 
2.43.0


From 36ac62611b0446784641738a7671415917111666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:37 +0000
Subject: [PATCH 24/24] fix: literals listed twice in a disjunction of a
 diagram in a collection

---
 include/bdd_collection.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 100db5d..7ec941c 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -384,6 +384,8 @@ namespace BDD {
             for(const size_t v : negative_variables)
                 literals.push_back({v,0});
             std::sort(literals.begin(), literals.end());
+            // containers may list a literal more than once
+            literals.erase(std::unique(literals.begin(), literals.end()), literals.end());
             return bdd_or_literals(i, literals);
         }
 
-- 
2.43.0

