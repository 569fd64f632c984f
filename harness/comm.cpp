// Histories of communicator operations on n processes; rank 0 writes one record per step with what every process gave and got.
// Compiled with EKAT_ENABLE_MPI, and without it (serial implementation).
#include "vp.hpp"
#include "ekat_comm.hpp"
#include <time.h>
#include <unistd.h>
#include <memory>
#include <exception>
using std::string; using std::vector; using vp::Rec; using ekat::Comm;
typedef long long ll; typedef vector<ll> VL;
static int N=1,me=0;
#ifdef EKAT_ENABLE_MPI
static vector<VL> collect(const VL& v) { int n=v.size(); vector<int> c(N),d(N); MPI_Allgather(&n,1,MPI_INT,c.data(),1,MPI_INT,MPI_COMM_WORLD); int t=0; for(int i=0;i<N;++i) { d[i]=t; t+=c[i]; } VL all(t+1); VL w=v; w.push_back(0); MPI_Allgatherv(w.data(),n,MPI_LONG_LONG,all.data(),c.data(),d.data(),MPI_LONG_LONG,MPI_COMM_WORLD); vector<VL> r(N); for(int i=0;i<N;++i) r[i]=VL(all.begin()+d[i],all.begin()+d[i]+c[i]); return r; }
static VL members(const Comm& c) { VL r(c.size()); ll x=me; int sz; MPI_Comm_size(c.mpi_comm(),&sz); if(sz!=c.size()) return {}; MPI_Allgather(&x,1,MPI_LONG_LONG,r.data(),1,MPI_LONG_LONG,c.mpi_comm()); return r; }
#else
static vector<VL> collect(const VL& v) { return {v}; }
static VL members(const Comm&) { return {0}; }
#endif
static string jj(const vector<VL>& v) { string s="["; for(size_t i=0;i<v.size();++i) s+=(i?",":"")+Rec::arr(v[i]); return s+"]"; }
static string jb(const vector<VL>& v) { string s="["; for(size_t i=0;i<v.size();++i) s+=string(i?",":"")+(!v[i].empty()&&v[i][0]?"true":"false"); return s+"]"; }
static string j1(const vector<VL>& v) { string s="["; for(size_t i=0;i<v.size();++i) s+=string(i?",":"")+(v[i].empty()?"-9":std::to_string(v[i][0])); return s+"]"; }
static void put(const string& line) { if(me==0) { fputs((line+"}\n").c_str(),vp::out()); fflush(vp::out()); } }
static vector<std::unique_ptr<Comm>> C; static vector<vector<bool>> has; // per handle, per rank
static string sees(const Comm* c) { VL r,s,o,m; if(c) { r={c->rank()}; s={c->size()}; o={c->am_i_root()}; m=members(*c); } return ",\"rank\":"+j1(collect(r))+",\"size\":"+j1(collect(s))+",\"root\":"+jb(collect(o))+",\"members\":"+jj(collect(m)); }
static const char* OPN[]={"sum","prod","max","min","land","lor","lxor","band","bor","bxor"};
static MPI_Op opof(const string& o) { return o=="sum"?MPI_SUM:o=="prod"?MPI_PROD:o=="max"?MPI_MAX:o=="min"?MPI_MIN:o=="land"?MPI_LAND:o=="lor"?MPI_LOR:o=="lxor"?MPI_LXOR:o=="band"?MPI_BAND:o=="bor"?MPI_BOR:MPI_BXOR; }
template<class T> struct Buf { T* p; int n; Buf(int n_):n(n_) { p=new T[n+4]; for(int i=0;i<n+4;++i) p[i]=T(1); } ~Buf() { delete[] p; } T* b() { return p+2; } bool guard() { return p[0]==T(1)&&p[1]==T(1)&&p[n+2]==T(1)&&p[n+3]==T(1); } VL get() { VL r; for(int i=0;i<n;++i) r.push_back((ll)b()[i]); return r; } void set(const VL& v) { for(int i=0;i<n;++i) b()[i]=(T)v[i]; } };
static ll now(ll base) { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000000ll+t.tv_nsec/1000-base; }
struct Task { string kind,op; bool inplace; int count,from; };
template<class T> static void coll(const Task& t,const Comm* c,const VL& in,VL& out,bool& kept) {
  int n=t.count, sz=c->size(); kept=true;
  if(t.kind=="bcast") { Buf<T> b(n); b.set(in); c->broadcast(b.b(),n,t.from); out=b.get(); kept=b.guard(); }
  else if(t.kind=="gather") { Buf<T> a(n*sz), b(n); b.set(in); if(t.inplace) { for(int i=0;i<n;++i) a.b()[c->rank()*n+i]=(T)in[i]; c->all_gather(a.b(),n); } else c->all_gather((const T*)b.b(),a.b(),n); out=a.get(); kept=a.guard()&&b.guard()&&b.get()==in; }
  else { Buf<T> a(n),b(n); b.set(in); MPI_Op op=opof(t.op); if(t.inplace) { a.set(in); if(t.kind=="all") c->all_reduce(a.b(),n,op); else c->scan(a.b(),n,op); } else if(t.kind=="all") c->all_reduce((const T*)b.b(),a.b(),n,op); else c->scan((const T*)b.b(),a.b(),n,op); out=a.get(); kept=a.guard()&&b.guard()&&b.get()==in; } }
static const vector<string> TYPES={"int","double","float","long","llong","short","char","bool"};
static void run(const string& type,const Task& t,int h,vp::Rng& g) {
  VL mine,out; for(int r=0;r<N;++r) { VL v; for(int i=0;i<t.count;++i) { ll x=t.op=="prod"?g.pick(vector<int>{1,-1,2,0,3}):t.op[0]=='l'?g.range(0,2):t.op[0]=='b'?g.range(0,255):g.range(-100,100); if(type=="char") x=g.range(0,100); if(type=="bool") x=g.below(2); v.push_back(x); } if(r==me) mine=v; }
  const Comm* c=has[h][me]?C[h].get():nullptr; bool kept=true;
  if(c) { if(type=="int") coll<int>(t,c,mine,out,kept); else if(type=="double") coll<double>(t,c,mine,out,kept); else if(type=="float") coll<float>(t,c,mine,out,kept); else if(type=="long") coll<long>(t,c,mine,out,kept); else if(type=="llong") coll<long long>(t,c,mine,out,kept); else if(type=="short") coll<short>(t,c,mine,out,kept); else if(type=="char") coll<char>(t,c,mine,out,kept); else coll<bool>(t,c,mine,out,kept); }
  auto I=collect(mine),O=collect(out),K=collect({kept});
  put(string("{\"event\":\"")+(t.kind=="bcast"?"Bcast":t.kind=="gather"?"Gather":"Reduce")+"\",\"h\":"+std::to_string(h+1)+",\"type\":\""+type+"\",\"kind\":\""+t.kind+"\",\"op\":\""+t.op+"\",\"inplace\":"+(t.inplace?"true":"false")+",\"count\":"+std::to_string(t.count)+",\"from\":"+std::to_string(t.from)+",\"inp\":"+jj(I)+",\"out\":"+jj(O)+",\"kept\":"+jb(K)); }
static void info(int h) { put("{\"event\":\"Info\",\"h\":"+std::to_string(h+1)+sees(has[h][me]?C[h].get():nullptr)); }
int main(int argc,char** argv) {
#ifdef EKAT_ENABLE_MPI
  MPI_Init(&argc,&argv); MPI_Comm_size(MPI_COMM_WORLD,&N); MPI_Comm_rank(MPI_COMM_WORLD,&me);
#endif
  vp::Rng g(vp::seed()*100+N); ll base=now(0);
#ifdef EKAT_ENABLE_MPI
  MPI_Bcast(&base,1,MPI_LONG_LONG,0,MPI_COMM_WORLD);
#endif
  // what a rank knows of its communicators, for all ranks (only to make legal calls)
  vector<vector<int>> minsz; // size of the communicator per rank
  auto setup=[&]{ C.clear(); has.clear(); C.emplace_back(new Comm(MPI_COMM_WORLD)); C.emplace_back(new Comm()); has.assign(2,vector<bool>(N,true)); minsz={vector<int>(N,N),vector<int>(N,1)}; put("{\"event\":\"Begin\",\"n\":"+std::to_string(N)); info(0); info(1); };
  auto sizes=[&](int h) { VL s; if(has[h][me]) s={C[h]->size()}; auto a=collect(s); int m=1<<20; for(auto&x:a) if(!x.empty()&&x[0]<m) m=x[0]; return m; };
  setup();
  // every operation on every type, in place or not
  for(auto&ty:TYPES) for(string k:{"all","scan","gather","bcast"}) for(const char* o:OPN) { string op=o; bool red=k=="all"||k=="scan"; if(!red&&op!="sum") continue;
    if(red) { if(ty=="char") continue; if(ty=="bool"&&op[0]!='l') continue; if((ty=="float"||ty=="double")&&(op[0]=='l'||op[0]=='b')) continue; }
    for(int ip=0;ip<2;++ip) { if(k=="bcast"&&ip) continue; int cnt=g.range(1,4); run(ty,{k,op,ip!=0,cnt,k=="bcast"?g.below(N):0},0,g); } }
  for(int root=0;root<N;++root) run("int",{"bcast","sum",false,3,root},0,g);
  for(int cnt:{0,1,33}) for(string k:{"all","scan","gather"}) for(int ip=0;ip<2;++ip) run("double",{k,"sum",ip!=0,cnt,0},0,g);
  // long messages
  for(int cnt:{100,127,128,129,255,256,257,511,512,513,600,1000,1023,1024,1025,1500}) for(string k:{"all","scan","gather","bcast"}) { if(N>3&&cnt>600&&cnt!=1500) continue; string ty=g.pick(vector<string>{"int","double","long","short"}); run(ty,{k,k=="all"?g.pick(vector<string>{"sum","max","min"}):"sum",k!="bcast"&&g.below(2)==1,cnt,k=="bcast"?g.below(N):0},0,g); }
  if(N<=3) for(string k:{"all","scan","gather","bcast"}) for(int cnt:{4097,33000,66000}) if(cnt<60000||(k!="gather"&&N==2)) run("int",{k,"sum",k!="bcast"&&g.below(2)==1,cnt,k=="bcast"?N-1:0},0,g);
  int H=vp::thorough()?60:8, T=vp::thorough()?60:40;
  for(int h=0;h<H;++h) { setup();
    for(int t=0;t<T;++t) { int x=g.below(C.size()), m=g.below(14);
      if(m<3&&C.size()<12) { VL col(N); int k=g.range(1,4); bool undef=g.below(5)==0; for(auto&c:col) { c=g.below(k); if(undef&&g.below(3)==0) c=-1; }
#ifdef EKAT_ENABLE_MPI
        auto color=[](ll c)->int { return c<0?MPI_UNDEFINED:(int)c*7; };
#else
        for(auto&c:col) if(c<0) c=0; auto color=[](ll c)->int { return (int)c*7; };
#endif
        bool err=false; std::unique_ptr<Comm> nc; if(has[x][me]) { try { nc.reset(new Comm(C[x]->split(color(col[me])))); } catch(const std::exception&) { err=true; } }
        auto E=collect({err}); VL ok={nc!=nullptr}; auto K=collect(ok); vector<bool> hv; for(auto&k:K) hv.push_back(k[0]!=0);
        put("{\"event\":\"Split\",\"h\":"+std::to_string(x+1)+",\"color\":"+Rec::arr(col)+",\"err\":"+jb(E)+sees(nc.get())); C.push_back(std::move(nc)); has.push_back(hv); }
      else if(m==3&&C.size()<12) { std::unique_ptr<Comm> nc; if(has[x][me]) { nc.reset(new Comm()); int how=g.below(3); if(how==0) nc->reset_mpi_comm(C[x]->mpi_comm()); else if(how==1) nc.reset(new Comm(*C[x])); else { Comm a(C[x]->mpi_comm()); *nc=a; } } else g.below(3);
        put("{\"event\":\"Wrap\",\"h\":"+std::to_string(x+1)+sees(nc.get())); C.push_back(std::move(nc)); has.push_back(has[x]); }
      else if(m==4) { bool e=false; if(has[x][me]) { int how=g.below(2); try { if(how) C[x]->reset_mpi_comm(MPI_COMM_NULL); else Comm z(MPI_COMM_NULL); } catch(const std::exception&) { e=true; } } else g.below(2); auto E=collect({e}); put("{\"event\":\"Null\",\"h\":"+std::to_string(x+1)+",\"err\":"+jb(E)+sees(has[x][me]?C[x].get():nullptr)); }
      else if(m==5) { info(x); }
      else if(m==6) { VL came,left; int slow=g.below(N); if(has[x][me]) { if(me==slow) usleep(4000); came={now(base)}; C[x]->barrier(); left={now(base)}; } auto A=collect(came),B=collect(left); put("{\"event\":\"Barrier\",\"h\":"+std::to_string(x+1)+",\"came\":"+j1(A)+",\"left\":"+j1(B)); }
      else { string ty=g.pick(TYPES); string k=g.pick(vector<string>{"all","all","scan","scan","gather","bcast"}); string op=g.below(2)?"sum":OPN[g.below(10)]; if(k=="all"||k=="scan") { if(ty=="char") ty="int"; if(ty=="bool") op=OPN[4+g.below(3)]; if((ty=="float"||ty=="double")&&(op[0]=='l'||op[0]=='b')) op="max"; } else op="sum";
        int from=k=="bcast"?g.below(std::min(N,sizes(x))):0; run(ty,{k,op,k!="bcast"&&g.below(2)==1,g.below(6),from},x,g); } } }
#ifdef EKAT_ENABLE_MPI
  MPI_Finalize();
#endif
  return 0;
}
