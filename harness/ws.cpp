// Replays scripts of workspace operations on the real WorkspaceManager.
//   ws SCRIPT TYPES MODE LEAGUE TEAM
// TYPES: dd ff fd df cc pd ii (manager type, view type); MODE: own | user
// Script lines: new CAP SIZE | take h | many h.. | contig h.. | macro h n |
//   andreset n | release h | relcontig h n | relmacro h n | reset | resetmgr | report
#include "vp.hpp"
#include <mutex>
#include "ekat_pack.hpp"
#include "ekat_workspace.hpp"
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include <mutex>
#include <map>
#include <unistd.h>
#include <fcntl.h>
using namespace ekat;
struct Alloc { char* p; size_t n; };
static std::vector<Alloc> g_alloc; static std::mutex g_amx;
static void on_alloc(Kokkos::Tools::SpaceHandle, const char*, const void* p, uint64_t n) { std::lock_guard<std::mutex> g(g_amx); g_alloc.push_back({(char*)p+sizeof(Kokkos::Impl::SharedAllocationHeader),(size_t)n}); }
static void on_free(Kokkos::Tools::SpaceHandle, const char*, const void* p, uint64_t) {
  std::lock_guard<std::mutex> g(g_amx);
  for (size_t i=0;i<g_alloc.size();++i) if (g_alloc[i].p==(char*)p+sizeof(Kokkos::Impl::SharedAllocationHeader)) { g_alloc.erase(g_alloc.begin()+i); return; } }
template<class S> struct Val { static S mk(int t) { return S(t); } static bool is(const S& x,int t) { return x==S(t); } };
template<class V,int N> struct Val<Pack<V,N>> { static Pack<V,N> mk(int t) { return Pack<V,N>(V(t)); }
  static bool is(const Pack<V,N>& x,int t) { for(int i=0;i<N;++i) if(!(x[i]==V(t))) return false; return true; } };

using Script = std::vector<std::vector<std::string>>;
static const char* NAMES[3] = {"alpha","beta","a"};

template<class T,class S> struct Driver {
  using WSM = WorkspaceManager<T,DefaultDevice>;
  using MT = typename WSM::MemberType;
  using V = Unmanaged<typename KokkosTypes<DefaultDevice>::template view_1d<S>>;
  struct H { V v; int n=1; int tag=0; std::string name; bool live=false; };
  int league, ts; bool user;
  int size=0, cap=0;
  std::unique_ptr<WSM> wsm;
  std::vector<T> buf; char* base=nullptr; size_t bytes=0; bool based=false;
  std::vector<char> raw; size_t guard=0;
  std::map<int,std::map<int,V>> old; std::vector<std::map<int,H>> tab; // per team, host-side truth kept by rank 0
  std::mutex mx;
  int tagc=0, step=0;
  void note_base(const void* p) {
    if (based) return; based=true;
    if (user) return;
    for (auto& a : g_alloc) if ((char*)p>=a.p && (char*)p<a.p+a.n) { base=a.p; bytes=a.n; }
  }
  long long off(const V& v) { long long d=(char*)v.data()-base; return d>1000000000?1000000000:d<-1000000000?-1000000000:d; }
  int mlen(const H& h) { return h.n==1 ? (int)(h.v.extent(0)*sizeof(S)) : h.n*size*(int)sizeof(T); }
  void fill(H& h) { // the user writes the whole block
    S* p=h.v.data(); int m=mlen(h)/sizeof(S); for(int i=0;i<m;++i) p[i]=Val<S>::mk(h.tag); }
  int readtag(const H& h) { const S* p=h.v.data(); int m=mlen(h)/sizeof(S); for(int i=0;i<m;++i) if(!Val<S>::is(p[i],h.tag)) return -1; return h.tag; }
  std::string tags() {
    std::string r="["; bool f=true;
    for (int t=0;t<(int)tab.size();++t) for (auto& kv : tab[t]) { if(!f) r+=","; f=false; r+="["+std::to_string(t*1000+kv.first)+","+std::to_string(readtag(kv.second))+"]"; }
    return r+"]";
  }
  std::string names(const typename WSM::Workspace* ws,int team) {
    std::string r="["; bool f=true;
#ifndef NDEBUG
    if (ws) for (auto& kv : tab[team]) { if(!f) r+=","; f=false; r+="["+std::to_string(team*1000+kv.first)+",\""+vp::esc(ws->get_name(kv.second.v))+"\"]"; }
#endif
    return r+"]";
  }
  struct Shared { std::vector<const void*> ptr; };
  std::vector<std::vector<std::vector<const void*>>> seen; // team, rank -> pointers got

  template<int N> void many(const typename WSM::Workspace& ws,int how,std::vector<V>& vs,const char* const* nm) {
    Kokkos::Array<const char*,N> names; typename WSM::template view_1d_ptr_array<S,N> ptrs;
    for(int i=0;i<N;++i) { names[i]=nm[i]; ptrs[i]=&vs[i]; }
    if (how==0) ws.template take_many<N,S>(names,ptrs);
    else if (how==1) ws.template take_many_contiguous_unsafe<N,S>(names,ptrs);
    else if (how==2) ws.template take_many_and_reset<N,S>(names,ptrs);
    else ws.template release_many_contiguous<N,S>(ptrs);
  }
  template<int N,class TT=T,class SS=S> std::enable_if_t<std::is_same<TT,SS>::value,bool>
  refs(const typename WSM::Workspace& ws,std::vector<V>& vs,const char* const* nm) {
    Kokkos::Array<const char*,N> names; for(int i=0;i<N;++i) names[i]=nm[i];
    if constexpr (N==1) ws.take_many_refs(names,vs[0]);
    if constexpr (N==2) ws.take_many_refs(names,vs[0],vs[1]);
    if constexpr (N==3) ws.take_many_refs(names,vs[0],vs[1],vs[2]);
    if constexpr (N==4) ws.take_many_refs(names,vs[0],vs[1],vs[2],vs[3]);
    return true; }
  template<int N,class TT=T,class SS=S> std::enable_if_t<!std::is_same<TT,SS>::value,bool>
  refs(const typename WSM::Workspace&,std::vector<V>&,const char* const*) { return false; }
  void manyN(const typename WSM::Workspace& ws,int how,std::vector<V>& vs,const char* const* nm,bool byref) {
    switch(vs.size()) {
      case 1: if(byref&&how==0&&refs<1>(ws,vs,nm)) break; many<1>(ws,how,vs,nm); break;
      case 2: if(byref&&how==0&&refs<2>(ws,vs,nm)) break; many<2>(ws,how,vs,nm); break;
      case 3: if(byref&&how==0&&refs<3>(ws,vs,nm)) break; many<3>(ws,how,vs,nm); break;
      case 4: if(byref&&how==0&&refs<4>(ws,vs,nm)) break; many<4>(ws,how,vs,nm); break;
      default: many<5>(ws,how,vs,nm); break; }
  }
  void run_ops(const MT& team,const Script& ops,int first) {
    const int t=team.league_rank(), rank=team.team_rank();
    auto ws = wsm->get_workspace(team,"vp");
    std::map<int,H> my = tab[t];      // every thread keeps its own handles
    team.team_barrier();
    int k=first;
    for (auto& w : ops) {
      const std::string& o=w[0];
      if (rank==0) mx.lock();
      team.team_barrier();
      ++k;
      std::vector<int> hs; bool isTake=false, isRel=false, rst=false, macro=false;
      const char* nm[5]; for(int i=0;i<5;++i) nm[i]=NAMES[(k+i)%3];
      std::vector<V> got;
      if (o=="take") { hs={vp::num(w[1])}; V v=ws.template take<S>(nm[0]); got={v}; isTake=true; }
      else if (o=="many"||o=="contig") { for(size_t i=1;i<w.size();++i) hs.push_back(vp::num(w[i])); got.resize(hs.size()); manyN(ws,o=="many"?0:1,got,nm,k%2); isTake=true; }
      else if (o=="andreset") { int n=vp::num(w[1]); for(int i=0;i<n;++i) hs.push_back(i); got.resize(n); manyN(ws,2,got,nm,false); isTake=true; rst=true; }
      else if (o=="macro") { hs={vp::num(w[1])}; V v=ws.template take_macro_block<S>(nm[0],vp::num(w[2])); got={v}; isTake=true; macro=true; }
      else if (o=="release") { hs={vp::num(w[1])}; isRel=true; ws.release(my[hs[0]].v); }
      else if (o=="stale") { hs={vp::num(w[1])}; isRel=true; ws.release(old[t][hs[0]]); }
      else if (o=="relcontig") { int s=vp::num(w[1]),n=vp::num(w[2]); for(int i=0;i<n;++i) { hs.push_back(s+i); got.push_back(my[s+i].v); } manyN(ws,3,got,nm,false); isRel=true; }
      else if (o=="relmacro") { hs={vp::num(w[1])}; isRel=true; ws.template release_macro_block<S>(my[hs[0]].v,vp::num(w[2])); }
      else if (o=="reset") { ws.reset(); }
      else { fprintf(stderr,"bad op %s\n",o.c_str()); exit(3); }
      if (o=="reset"||rst) my.clear();
      if (isRel) for(int h:hs) my.erase(h);
      if (isTake) for(size_t i=0;i<hs.size();++i) { H h; h.v=got[i]; h.n=macro?vp::num(w[2]):1; h.name=nm[i]; h.live=true; my[hs[i]]=h; }
      std::vector<const void*> pp; for(auto&kv:my) { pp.push_back(kv.second.v.data()); pp.push_back((void*)(size_t)kv.second.v.extent(0)); }
      seen[t][rank]=pp;
      team.team_barrier();
      if (rank==0) {
        bool same=true; for(int r=1;r<ts;++r) if(seen[t][r]!=seen[t][0]) same=false;
        if (o=="reset"||rst) tab[t].clear();
        if (isRel) for(int h:hs) { if(tab[t].count(h)) old[t][h]=tab[t][h].v; tab[t].erase(h); }
        vp::Rec r(o=="reset"?"Reset":isRel?"Release":rst?"TakeAndReset":"Take");
        r.i("team",t).t("op",o);
        std::vector<int> gh; for(int h:hs) gh.push_back(t*1000+h); r.a("h",gh);
        if (isTake) {
          std::vector<long long> offs; std::vector<int> lens,ns,ext; std::vector<std::string> nms;
          for(int h:hs) { H x=my[h]; note_base(x.v.data()); x.tag=1+(tagc++%100); fill(x); tab[t][h]=x;
            offs.push_back(off(x.v)); lens.push_back(mlen(x)); ns.push_back(x.n); ext.push_back((int)x.v.extent(0)); nms.push_back(x.name); }
          r.a("off",offs).a("len",lens).a("n",ns).a("ext",ext).sa("name",nms);
        }
        r.b("same",same).i("bytes",(long long)bytes).raw("tags",tags()).raw("names",names(&ws,t)).b("guard",guards());
        r.emit();
        mx.unlock();
      }
      team.team_barrier();
    }
  }
  bool guards() { if(!user) return true; for(size_t i=0;i<guard;++i) if(raw[i]!=0x5a||raw[raw.size()-1-i]!=0x5a) return false; return true; }
  int slots=1;
  void make(int c,int sz) {
    cap=c; size=sz; wsm.reset(); base=nullptr; based=false; tagc=0; step=0;
    auto p=TeamPolicyFactory<typename KokkosTypes<DefaultDevice>::ExeSpace>::get_team_policy_force_team_size(league,ts);
    const int need=WSM::get_total_bytes_needed(size,cap,p);
    if (user) {
      guard=64*4; raw.assign(need+2*guard+64,0x5a); base=raw.data()+guard; base+=(64-((size_t)base%64))%64; bytes=need;
      // fill data with a non-guard value
      memset(base,0x11,need);
      if (vp::num(std::to_string(cap+size))%2) { wsm.reset(new WSM()); wsm->setup((T*)base,size,cap,p); }
      else wsm.reset(new WSM((T*)base,size,cap,p));
    } else { bytes=0;
      if ((cap+size)%2) { wsm.reset(new WSM()); wsm->setup(size,cap,p); } else wsm.reset(new WSM(size,cap,p)); }
    tab.assign(league,{}); seen.assign(league,std::vector<std::vector<const void*>>(ts));
    vp::Rec("New").i("cap",cap*league).i("size",size).i("blk",size*(int)sizeof(T)).i("need",need).i("sz",(int)sizeof(S)).b("user",user).i("teams",league);
  }
  void report() {
#ifndef NDEBUG
    fflush(stdout); std::ostringstream os; auto* old=std::cout.rdbuf(os.rdbuf()); wsm->report(); std::cout.rdbuf(old);
    std::istringstream is(os.str()); std::string l; std::vector<int> cur,high; std::string per="["; bool f=true; int idx=-1;
    std::string sum="["; bool fs=true;
    while(std::getline(is,l)) {
      int a,b,c,d; char nmbuf[200];
      if (sscanf(l.c_str(),"WS %d currently using %d",&a,&b)==2) cur.push_back(b);
      else if (sscanf(l.c_str(),"WS %d high-water %d",&a,&b)==2) high.push_back(b);
      else if (sscanf(l.c_str()," For wsidx %d",&a)==1) idx=a;
      else if (sscanf(l.c_str()," workspace '%199[^']' was taken %d times and released %d times",nmbuf,&a,&b)==3) {
        if(!f) per+=","; f=false; per+="{\"idx\":"+std::to_string(idx)+",\"name\":\""+vp::esc(nmbuf)+"\",\"take\":"+std::to_string(a)+",\"rel\":"+std::to_string(b)+"}"; }
      else if (sscanf(l.c_str(),"Workspace '%199[^']' was used by %d wsindices with %d takes and %d releases",nmbuf,&a,&b,&c)==4) {
        if(!fs) sum+=","; fs=false; sum+="{\"name\":\""+vp::esc(nmbuf)+"\",\"used\":"+std::to_string(a)+",\"take\":"+std::to_string(b)+",\"rel\":"+std::to_string(c)+"}"; }
    }
    vp::Rec("Report").a("cur",cur).a("high",high).raw("per",per+"]").raw("sum",sum+"]");
#endif
  }
  void segment(const Script& seg) {
    if (seg.empty()) return;
    auto p=TeamPolicyFactory<typename KokkosTypes<DefaultDevice>::ExeSpace>::get_team_policy_force_team_size(league,ts);
    const int first=step; step+=seg.size();
    Kokkos::parallel_for("vp",p,[&](const MT& team) { run_ops(team,seg,first); });
    Kokkos::fence();
  }
  void run(const Script& sc) {
    Script seg;
    for (auto& w : sc) {
      if (w[0]=="new"||w[0]=="resetmgr"||w[0]=="report"||w[0]=="undiagnosed") {
        segment(seg); seg.clear();
        if (w[0]=="new") make(vp::num(w[1]),vp::num(w[2]));
        else if (w[0]=="report") report();
        else if (w[0]=="undiagnosed") vp::Rec("Undiagnosed");
        else { wsm->reset_internals(); for(auto&m:tab) m.clear(); vp::Rec("ResetManager"); }
      } else seg.push_back(w);
    }
    segment(seg);
    wsm.reset();
  }
};
template<class T,class S> void go(const Script& sc,bool user,int l,int t) { Driver<T,S> d; d.league=l; d.ts=t; d.user=user; d.run(sc); }
int main(int argc,char** argv) {
  if (argc<6) return 3;
  Kokkos::initialize(argc,argv);
  Kokkos::Tools::Experimental::set_allocate_data_callback(on_alloc);
  Kokkos::Tools::Experimental::set_deallocate_data_callback(on_free);
  auto sc=vp::script(argv[1]); std::string ty=argv[2]; bool user=std::string(argv[3])=="user"; int l=atoi(argv[4]),t=atoi(argv[5]);
  if (ty=="dd") go<double,double>(sc,user,l,t);
  else if (ty=="ff") go<float,float>(sc,user,l,t);
  else if (ty=="fd") go<float,double>(sc,user,l,t);
  else if (ty=="df") go<double,float>(sc,user,l,t);
  else if (ty=="cc") go<char,char>(sc,user,l,t);
  else if (ty=="ii") go<int,int>(sc,user,l,t);
  else if (ty=="pd") go<Pack<double,4>,double>(sc,user,l,t);
  else if (ty=="pp") go<Pack<double,4>,Pack<double,4>>(sc,user,l,t);
  else return 3;
  Kokkos::finalize();
  return 0;
}
