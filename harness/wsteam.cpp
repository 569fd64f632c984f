// Workspace operations of a team whose threads are fibers: between barriers they run in any order, and
// switch at every access to the manager's memory. Threads do operations back to back; each writes and
// reads only its own entries of the blocks.
//   wsteam SCRIPT TYPES TEAM MODE SEED   (script lines as in ws.cpp, no resetmgr)
#include "simteam.hpp"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_team_policy_utils.hpp"
#include "ekat_kokkos_types.hpp"
struct SimDev {};
namespace ekat { template<> struct KokkosTypes<SimDev> : KokkosTypes<DefaultDevice> { using MemberType=sim::Team; }; }
#include "ekat_workspace.hpp"
#include <map>
#define NOSAN __attribute__((no_sanitize("thread"),noinline))
using namespace ekat;
struct Range { const char *lo,*hi; };
static Range g_rng[64]; static int g_n=0; static sim::Sched* g_s=nullptr; static long g_touch=0; static int g_bias=3;
NOSAN static void add(const void* p,size_t n) { if(g_n<64) g_rng[g_n++]={(const char*)p,(const char*)p+n}; }
static void on_alloc(Kokkos::Tools::SpaceHandle, const char* l, const void* p, uint64_t n) { add((const char*)p+sizeof(Kokkos::Impl::SharedAllocationHeader),n); }
NOSAN static void pause_(sim::Sched* s) { if(s->mode==2&&s->g.below(g_bias)==0) { int c=s->cur; swapcontext(&s->ctx[c],&s->main); } }
extern "C" NOSAN void vp_touch(const void* p,int) { sim::Sched* s=g_s; if(!s||s->cur<0) return; const char* c=(const char*)p; for(int i=0;i<g_n;++i) if(c>=g_rng[i].lo&&c<g_rng[i].hi) { ++g_touch; pause_(s); return; } }
template<class S> struct Val { static S mk(int t) { return S(t); } static bool is(const S& x,int t) { return x==S(t); } };
template<class V,int N> struct Val<Pack<V,N>> { static Pack<V,N> mk(int t) { return Pack<V,N>(V(t)); } static bool is(const Pack<V,N>& x,int t) { for(int i=0;i<N;++i) if(!(x[i]==V(t))) return false; return true; } };
using Script=std::vector<std::vector<std::string>>;
static const char* NAMES[3]={"alpha","beta","a"};
template<class T,class S> struct Driver {
  using WSM=WorkspaceManager<T,SimDev>; using Ws=typename WSM::Workspace; using V=Unmanaged<typename KokkosTypes<DefaultDevice>::template view_1d<S>>;
  struct H { V v; int n=1,tag=0; std::string name; };
  struct St { std::vector<int> hs; std::vector<std::pair<const void*,long>> got; std::map<int,int> tags; std::map<int,std::string> names; };
  int ts,mode,size=0,cap=0; uint64_t seed; std::unique_ptr<WSM> wsm; std::vector<char> buf; char* base=nullptr; int bytes=0;
  std::vector<std::vector<St>> log;   // step, thread
  int mlen(const V& v,int n) { return (n==1?(int)(v.extent(0)*sizeof(S)):n*size*(int)sizeof(T))/(int)sizeof(S); }
  void fill(const H& h,int r) { S* p=h.v.data(); for(int i=r;i<mlen(h.v,h.n);i+=ts) p[i]=Val<S>::mk(h.tag); }
  int look(const H& h,int r) { const S* p=h.v.data(); for(int i=r;i<mlen(h.v,h.n);i+=ts) if(!Val<S>::is(p[i],h.tag)) return -1; return h.tag; }
  template<int N> void many(const Ws& ws,int how,std::vector<V>& vs,const char* const* nm,bool byref) { Kokkos::Array<const char*,N> names; typename WSM::template view_1d_ptr_array<S,N> ptrs; for(int i=0;i<N;++i) { names[i]=nm[i]; ptrs[i]=&vs[i]; }
    if constexpr(N==2&&std::is_same<T,S>::value) if(byref&&how==0) { ws.take_many_refs(names,vs[0],vs[1]); return; }
    if(how==0) ws.template take_many<N,S>(names,ptrs); else if(how==1) ws.template take_many_contiguous_unsafe<N,S>(names,ptrs); else if(how==2) ws.template take_many_and_reset<N,S>(names,ptrs); else ws.template release_many_contiguous<N,S>(ptrs); }
  void manyN(const Ws& ws,int how,std::vector<V>& vs,const char* const* nm,bool b) { switch(vs.size()) { case 1: many<1>(ws,how,vs,nm,b); break; case 2: many<2>(ws,how,vs,nm,b); break; case 3: many<3>(ws,how,vs,nm,b); break; case 4: many<4>(ws,how,vs,nm,b); break; default: many<5>(ws,how,vs,nm,b); } }
  void thread(const sim::Team& team,const Script& ops) {
    const int r=team.team_rank(); auto ws=wsm->get_workspace(team,"vp"); std::map<int,H> my; int k=-1;
    for(auto& w:ops) { ++k; const std::string& o=w[0]; std::vector<int> hs; std::vector<V> got; bool take=false,rel=false; int n=1; const char* nm[5]; for(int i=0;i<5;++i) nm[i]=NAMES[(k+i)%3];
      if(o=="take") { hs={vp::num(w[1])}; got={ws.template take<S>(nm[0])}; take=true; }
      else if(o=="many"||o=="contig") { for(size_t i=1;i<w.size();++i) hs.push_back(vp::num(w[i])); got.resize(hs.size()); manyN(ws,o=="many"?0:1,got,nm,k%2); take=true; }
      else if(o=="andreset") { int c=vp::num(w[1]); for(int i=0;i<c;++i) hs.push_back(i); got.resize(c); manyN(ws,2,got,nm,false); take=true; my.clear(); }
      else if(o=="macro") { hs={vp::num(w[1])}; n=vp::num(w[2]); got={ws.template take_macro_block<S>(nm[0],n)}; take=true; }
      else if(o=="release") { hs={vp::num(w[1])}; rel=true; ws.release(my[hs[0]].v); }
      else if(o=="relcontig") { int s=vp::num(w[1]),c=vp::num(w[2]); for(int i=0;i<c;++i) { hs.push_back(s+i); got.push_back(my[s+i].v); } manyN(ws,3,got,nm,false); rel=true; }
      else if(o=="relmacro") { hs={vp::num(w[1])}; rel=true; ws.template release_macro_block<S>(my[hs[0]].v,vp::num(w[2])); }
      else if(o=="reset") { ws.reset(); my.clear(); }
      else { fprintf(stderr,"bad op %s\n",o.c_str()); exit(3); }
      if(rel) for(int h:hs) my.erase(h);
      St st; st.hs=hs;
      if(take) for(size_t i=0;i<hs.size();++i) { H h; h.v=got[i]; h.n=n; h.tag=1+(k*5+i)%100; h.name=nm[i]; my[hs[i]]=h; st.got.push_back({got[i].data(),(long)got[i].extent(0)}); if((char*)got[i].data()>=base&&(char*)(got[i].data()+mlen(got[i],n))<=base+bytes) fill(h,r); }
      for(auto& kv:my) { st.tags[kv.first]=(char*)kv.second.v.data()>=base&&(char*)(kv.second.v.data()+mlen(kv.second.v,kv.second.n))<=base+bytes?look(kv.second,r):-1;
#ifndef NDEBUG
        st.names[kv.first]=ws.get_name(kv.second.v);
#endif
      }
      log[k][r]=st; } }
  void segment(const Script& ops) {
    if(ops.empty()) return; log.assign(ops.size(),std::vector<St>(ts)); sim::Sched sc(ts,seed++,mode); g_s=&sc; sc.run([&](int r) { thread(sim::Team(&sc,r),ops); }); g_s=nullptr;
    if(sc.diverged) { vp::Rec("Diverged").i("team",ts); return; }
    int k=-1; std::map<int,int> ns;
    for(auto& w:ops) { ++k; const std::string& o=w[0]; auto& a=log[k]; bool same=true; for(auto& b:a) if(b.got!=a[0].got||b.hs!=a[0].hs) same=false;
      bool reset=o=="reset", andreset=o=="andreset", rel=o.compare(0,3,"rel")==0; vp::Rec r(reset?"Reset":rel?"Release":andreset?"TakeAndReset":"Take"); r.i("team",0).t("op",o).a("h",a[0].hs);
      if(!reset&&!rel) { std::vector<long long> off; std::vector<int> len,n,ext; std::vector<std::string> nm; for(size_t i=0;i<a[0].hs.size();++i) { long long d=(const char*)a[0].got[i].first-base; off.push_back(d>1000000000?1000000000:d<-1000000000?-1000000000:d); int m=o=="macro"?vp::num(w[2]):1; n.push_back(m); ext.push_back(a[0].got[i].second); len.push_back(m==1?ext.back()*(int)sizeof(S):m*size*(int)sizeof(T)); nm.push_back(NAMES[(k+i)%3]); }
        r.a("off",off).a("len",len).a("n",n).a("ext",ext).sa("name",nm); }
      std::string tg="[",nms="["; bool f=true; for(auto& kv:a[0].tags) { int t=kv.second; for(auto& b:a) if(!b.tags.count(kv.first)||b.tags[kv.first]!=t) t=-1; tg+=(f?"[":",[")+std::to_string(kv.first)+","+std::to_string(t)+"]";
        if(a[0].names.count(kv.first)) { std::string x=a[0].names[kv.first]; for(auto& b:a) if(b.names[kv.first]!=x) x="(not the same on all threads)"; nms+=(f?"[":",[")+std::to_string(kv.first)+",\""+vp::esc(x)+"\"]"; } f=false; }
      bool guard=true; for(int i=0;i<256;++i) if(base[-1-i]!=0x5a||base[bytes+i]!=0x5a) guard=false;
      r.b("same",same).i("bytes",bytes).raw("tags",tg+"]").raw("names",nms+"]").b("guard",guard); r.emit(); } }
  void make(int c,int sz) {
    cap=c; size=sz; wsm.reset(); g_n=0; auto p=TeamPolicyFactory<typename KokkosTypes<DefaultDevice>::ExeSpace>::get_team_policy_force_team_size(1,1);
    bytes=(int)WSM::get_total_bytes_needed(size,cap,p); buf.assign(bytes+1024,0x5a); base=buf.data()+320; base+=(64-((size_t)base%64))%64; memset(base,0x11,bytes); wsm.reset(new WSM((T*)base,size,cap,p)); add(base,bytes);
    vp::Rec("New").i("cap",cap).i("size",size).i("blk",size*(int)sizeof(T)).i("need",bytes).i("sz",(int)sizeof(S)).b("user",true).i("teams",1); }
  void run(const Script& sc) { Script seg; for(auto& w:sc) { if(w[0]=="new") { segment(seg); seg.clear(); make(vp::num(w[1]),vp::num(w[2])); } else seg.push_back(w); } segment(seg); wsm.reset(); } };
template<class T,class S> void go(const Script& sc,char** a) { Driver<T,S> d; d.ts=atoi(a[3]); d.mode=atoi(a[4]); d.seed=atoi(a[5])*1000003ull; g_bias=2+atoi(a[5])%3*7; d.run(sc); }
int main(int argc,char** argv) {
  if(argc<6) return 3; Kokkos::initialize(argc,argv); Kokkos::Tools::Experimental::set_allocate_data_callback(on_alloc);
  auto sc=vp::script(argv[1]); std::string ty=argv[2];
  if(ty=="dd") go<double,double>(sc,argv); else if(ty=="fd") go<float,double>(sc,argv); else if(ty=="cc") go<char,char>(sc,argv); else if(ty=="pp") go<Pack<double,4>,Pack<double,4>>(sc,argv); else return 3;
  fprintf(stderr,"accesses %ld\n",g_touch); Kokkos::finalize(); return 0; }
