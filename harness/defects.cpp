// Demonstrations of the genuine defects found in the original tree (see DESIGN.md).
// Each runs in a forked child; prints OK / FAIL per defect.  Not a registered check:
// the registered checks cover the same ground with generated inputs.
#include "bdd_mgr.h"
#include "bdd_collection.h"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <set>
#include <unordered_set>
using namespace BDD;
#define REQ(c) do{ if(!(c)) { fprintf(stderr,"   requirement failed: %s\n", #c); _exit(3);} }while(0)
template<class F> bool T(F f, unsigned m, int n){ std::vector<char> l(n); for(int i=0;i<n;i++) l[i]=(m>>i)&1; return f.evaluate(l.begin(), l.end()); }
template<class C> bool TC(C& c, size_t nr, unsigned m, int n){ std::vector<char> l(n); for(int i=0;i<n;i++) l[i]=(m>>i)&1; return c.evaluate(nr, l.begin(), l.end()); }

static void d01_xor_memo(){ bdd_mgr m; auto x=m.projection(0), y=m.projection(1); auto o=m.or_rec(x,y); auto z=m.xor_rec(x,y); for(unsigned a=0;a<4;a++) REQ(T(z,a,2)==(((a&1)^(a>>1))!=0)); }
static void d02_xor_order(){ bdd_mgr m; auto x=m.projection(0), y=m.projection(1); auto z=m.xor_rec(x,y); auto w=m.or_rec(m.and_rec(x,m.negate(y)), m.and_rec(m.negate(x),y)); REQ(z.variable()==0); REQ(z==w);}
static void d03_ite_last(){ bdd_mgr m; m.add_variable(); m.add_variable(); auto x=m.projection(1); auto z=m.ite_rec(x,m.negate(x),m.topsink()); REQ(z==m.negate(x)); auto w=m.ite_rec(x,m.botsink(),m.negate(x)); REQ(w==m.negate(x)); }
static void d04_at_most(){ bdd_mgr m; std::vector<node_ref> v; for(int i=0;i<3;i++) v.push_back(m.projection(i)); REQ(m.at_most(v.begin(), v.end(), 4)==m.topsink()); }
static void d05_terminal_init(){ bdd_mgr m; REQ(m.topsink().marked()==false); REQ(m.botsink().marked()==false); REQ(m.topsink().nr_nodes()==0); REQ(m.botsink().nodes_postorder().empty()); }
static void d06_gc(){ for(int rep=0;rep<30;rep++){ bdd_mgr m; std::vector<node_ref> v; for(int i=0;i<8;i++) v.push_back(m.projection(i)); auto keep=m.simplex(v.begin(),v.end()); for(int r=0;r<3;r++){ { auto t=m.cardinality(v.begin(),v.end(),r+2); } m.collect_garbage(); std::set<node*> s; for(auto& n:keep.nodes_postorder()) s.insert(n.address()); for(auto& n:v) s.insert(n.address()); REQ(m.nr_nodes()==s.size()+2); for(unsigned a=0;a<256;a++) REQ(T(keep,a,8)==(__builtin_popcount(a)==1)); REQ(keep==m.simplex(v.begin(),v.end())); m.collect_garbage(); } } }
static void d07_gc_memo(){ bdd_mgr m; auto x=m.projection(0),y=m.projection(1),z=m.projection(2); m.and_rec(x,y); m.collect_garbage(); auto o=m.or_rec(y,z); auto a=m.and_rec(x,y); for(unsigned i=0;i<8;i++) REQ(T(a,i,3)==((i&3)==3)); }
static void d08_bfs_terminal(){ bdd_mgr m; m.add_variable(); REQ(m.topsink().nodes_bfs().empty()); REQ(m.botsink().nodes_bfs().empty()); }
static void d09_rebase_const(){ bdd_mgr m; m.projection(0); std::vector<size_t> v={0}; REQ(m.rebase(m.topsink(), v.begin(), v.end())==m.topsink()); }
static void d10_add_bdd_1000(){ bdd_mgr m; bdd_collection c; std::vector<node_ref> v; for(int i=0;i<600;i++) v.push_back(m.projection(i)); auto s=m.simplex(v.begin(), v.end()); size_t n=c.add_bdd(s); REQ(m.add_bdd(c,n)==s); }
static void d11_remove(){ bdd_mgr m; bdd_collection c; auto x=m.projection(0),y=m.projection(1); c.add_bdd(x&y); c.add_bdd(x||y); c.add_bdd(m.negate(x)&y); size_t* r=new size_t[2]; r[0]=0; r[1]=1; c.remove(r, r+1); delete[] r; REQ(c.nr_bdds()==2); for(unsigned a=0;a<4;a++) REQ(TC(c,0,a,2)==(a!=0)); }
static void d12_or_var_reduce(){ bdd_mgr m; bdd_collection c; auto x=m.projection(0),y=m.projection(1); size_t n=c.add_bdd(x&m.negate(y)); std::unordered_set<size_t> p={1},q; size_t r=c.bdd_or_var(n,p,q); for(unsigned a=0;a<4;a++) REQ(TC(c,r,a,2)==(((a&1)&&!(a&2))||(a&2))); }
static void d13_or_var_skip(){ bdd_mgr m; bdd_collection c; auto x=m.projection(0),y=m.projection(1),z=m.projection(2); size_t n=c.add_bdd(x&z); std::unordered_set<size_t> p={1},q; size_t r=c.bdd_or_var(n,p,q); for(unsigned a=0;a<8;a++) REQ(TC(c,r,a,3)==((a&5)==5||(a&2))); }
static void d14_and_constant(){ bdd_mgr m; bdd_collection c; auto x=m.projection(0); c.add_bdd(x); c.add_bdd(m.negate(x)); size_t r=c.bdd_and(0,1); REQ(TC(c,r,0,1)==false); REQ(TC(c,r,1,1)==false); }
static void d14b_add_constant(){ bdd_mgr m; m.add_variable(); bdd_collection c; size_t r=c.add_bdd(m.botsink()); size_t s=c.add_bdd(m.topsink()); REQ(!TC(c,r,0,1)); REQ(TC(c,s,0,1)); REQ(c.export_bdd(m,r)==m.botsink()); REQ(c.export_bdd(m,s)==m.topsink()); }
static void d15_entry_sinks(){ bdd_mgr m; bdd_collection c; auto x=m.projection(0),y=m.projection(1); c.add_bdd(x); c.add_bdd(y); size_t r=c.bdd_and(0,1); auto e=c[r]; REQ(e.botsink().is_botsink()); REQ(e.topsink().is_topsink()); }
static void d16_node_dangling(){ bdd_mgr m; bdd_collection c; auto x=m.projection(0),y=m.projection(1); c.add_bdd(x&y); auto n=c[0].root_node(); volatile char buf[256]; for(auto& b:buf) b=77; auto h=n.hi(); REQ(h.variable()==1); REQ(n.lo().is_botsink()); }
static void d17_builder(){ bdd_collection c; size_t nr=c.new_bdd(); auto a=c.add_bdd_node(0); auto b=c.add_bdd_node(1); a.set_lo_to_0_terminal(); a.set_hi_arc(b); b.set_lo_to_0_terminal(); b.set_hi_to_1_terminal(); c.close_bdd(); REQ(c.nr_bdds()==1); for(unsigned i=0;i<4;i++) REQ(TC(c,nr,i,2)==(i==3)); }
static void d18_capacity(){ bool threw=false; { bdd_mgr m; for(int i=0;i<16;i++) m.add_variable(); std::vector<node_ref> f={m.botsink(),m.topsink()}; { std::vector<node_ref> base=f; for(int v=15;v>=1 && f.size()<600;--v){ std::vector<node_ref> nx=f; for(size_t i=0;i<f.size()&&nx.size()<600;i++) for(size_t j=0;j<f.size()&&nx.size()<600;j++) if(i!=j) nx.push_back(m.unique_find(v,f[i],f[j])); f=nx; } } try { for(size_t i=0;i<f.size();i++) for(size_t j=0;j<f.size();j++) if(i!=j) m.unique_find(0,f[i],f[j]); } catch(std::runtime_error& e){ threw=true; } auto p=m.projection(0); std::vector<char> l(16,0); REQ(!p.evaluate(l.begin(),l.end())); } fprintf(stderr,"   threw=%d\n",threw); }
static void d19_negate_exp(){ alarm(20); bdd_mgr m; node_ref p=m.projection(0); for(int i=1;i<50;i++){ p=m.ite_rec(m.projection(i), p, p)==p?p:p; } node_ref e=m.botsink(), o=m.topsink(); for(int i=49;i>=0;--i){ m.projection(i); node_ref ne=m.unique_find(i,e,o), no=m.unique_find(i,o,e); e=ne;o=no; } REQ(m.negate(e)==o); }
static void d20_coll_and_exp(){ alarm(20); bdd_mgr m; bdd_collection c; m.projection(49); node_ref e=m.botsink(), o=m.topsink(); for(int i=49;i>=0;--i){ node_ref ne=m.unique_find(i,e,o), no=m.unique_find(i,o,e); e=ne;o=no; } auto g=m.and_rec(e, m.projection(49)); c.add_bdd(e); c.add_bdd(o); c.add_bdd(g); size_t r=c.bdd_and(1,2); std::vector<char> l(50,0); REQ(!c.evaluate(r,l.begin(),l.end())); }
static void d21_limited(){ bdd_mgr m; std::vector<node_ref> v; for(int i=0;i<6;i++) v.push_back(m.projection(i)); auto s=m.simplex(v.begin(), v.end()); auto [a,na]=m.and_rec_limited(m.topsink(), s, 3); REQ(a.address()==nullptr); auto [b,nb]=m.and_rec_limited(v[0],v[1],1); REQ(b.address()==nullptr); auto [c,nc]=m.and_rec_limited(v[2],v[3],3); REQ(c.address()!=nullptr && nc==2); }
static void d22_graphviz_const(){ bdd_mgr m; bdd_collection c; auto x=m.projection(0); c.add_bdd(x); std::stringstream s; c.export_graphviz(0,s); }
static void d23_stdout(){ bdd_mgr m; bdd_collection c; auto x=m.projection(0),y=m.projection(1); size_t n=c.add_bdd(x&y); std::stringstream s; auto* o=std::cout.rdbuf(s.rdbuf()); std::unordered_set<size_t> p={0},q; c.bdd_or_var(n,p,q); std::cout.rdbuf(o); REQ(s.str().empty()); }
static void d24_ascending(){ bdd_mgr m; bdd_collection c; auto x=m.projection(0),y=m.projection(1); size_t n=c.add_bdd(x&y); auto [b,e]=c.get_reverse_bdd_instructions(n); REQ(b->is_terminal()); }

int main(){
  struct D{const char*n; void(*f)();} ds[]={
#define X(a) {#a,a}
  X(d01_xor_memo),X(d02_xor_order),X(d03_ite_last),X(d04_at_most),X(d05_terminal_init),X(d06_gc),X(d07_gc_memo),X(d08_bfs_terminal),X(d09_rebase_const),X(d10_add_bdd_1000),X(d11_remove),X(d12_or_var_reduce),X(d13_or_var_skip),X(d14_and_constant),X(d14b_add_constant),X(d15_entry_sinks),X(d16_node_dangling),X(d17_builder),X(d18_capacity),X(d19_negate_exp),X(d20_coll_and_exp),X(d21_limited),X(d22_graphviz_const),X(d23_stdout),X(d24_ascending)};
  int bad=0;
  for(auto&d:ds){ fflush(stdout); pid_t p=fork(); if(!p){ alarm(60); d.f(); _exit(0);} int st; waitpid(p,&st,0); bool ok=WIFEXITED(st)&&WEXITSTATUS(st)==0; printf("%-22s %s (%s %d)\n",d.n,ok?"OK":"FAIL",WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); bad+=!ok; }
  printf("%d failing\n",bad); return bad!=0; }
