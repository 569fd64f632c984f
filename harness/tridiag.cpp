// Tridiagonal solvers: over a finite field with every schedule of a simulated team, and with real teams, numbers and packs.
#include "simteam.hpp"
#include <cmath>
#include "ekat_pack_kokkos.hpp"
#include "ekat_team_policy_utils.hpp"
#include "ekat_tridiag.hpp"
using std::string; using std::vector; using vp::Rec; using ekat::Pack; namespace td=ekat::tridiag;
static vp::Rng g(1);
const int P=32749;
static bool div0=false;
static int inv(int a) { long r=1,b=a,e=P-2; while(e) { if(e&1) r=r*b%P; b=b*b%P; e/=2; } return (int)r; }
static void rd(const void* p) { if(auto s=sim::Sched::now()) s->read(p); } static void wr(const void* p) { if(auto s=sim::Sched::now()) s->write(p); } static void sw() { if(auto s=sim::Sched::now()) s->maybe(); }
struct GF { int v; GF(): v(0) {} GF(int x): v(((x%P)+P)%P) {} GF(const GF& o) { rd(&o); v=o.v; } GF& operator=(const GF& o) { rd(&o); int x=o.v; sw(); wr(this); v=x; return *this; }
  static GF mk(long x) { GF r; r.v=(int)(((x%P)+P)%P); return r; }
  GF& upd(const GF& o,long x) { (void)o; sw(); wr(this); v=(int)(((x%P)+P)%P); return *this; }
  GF& operator+=(const GF& o) { rd(this); rd(&o); return upd(o,(long)v+o.v); } GF& operator-=(const GF& o) { rd(this); rd(&o); return upd(o,(long)v-o.v); } GF& operator*=(const GF& o) { rd(this); rd(&o); return upd(o,(long)v*o.v); } GF& operator/=(const GF& o) { rd(this); rd(&o); if(o.v==0) div0=true; return upd(o,(long)v*inv(o.v)); }
  friend GF operator+(const GF& a,const GF& b) { rd(&a); rd(&b); return mk((long)a.v+b.v); } friend GF operator-(const GF& a,const GF& b) { rd(&a); rd(&b); return mk((long)a.v-b.v); } friend GF operator*(const GF& a,const GF& b) { rd(&a); rd(&b); return mk((long)a.v*b.v); } friend GF operator/(const GF& a,const GF& b) { rd(&a); rd(&b); if(b.v==0) div0=true; return mk((long)a.v*inv(b.v)); } friend GF operator-(const GF& a) { rd(&a); return mk(-(long)a.v); } };
struct Mat { vector<int> l,d,u; };
static string js(const vector<Mat>& m) { string s="["; for(size_t k=0;k<m.size();++k) s+=(k?",":"")+string("{\"l\":")+Rec::arr(m[k].l)+",\"d\":"+Rec::arr(m[k].d)+",\"u\":"+Rec::arr(m[k].u)+"}"; return s+"]"; }
static string js(const vector<vector<int>>& m) { string s="["; for(size_t k=0;k<m.size();++k) s+=(k?",":"")+Rec::arr(m[k]); return s+"]"; }
// all blocks of adjacent rows regular
static Mat field(int n) { while(true) { Mat m; for(int i=0;i<n;++i) { m.l.push_back(g.below(5)?g.below(P):0); m.d.push_back(1+g.below(P-1)); m.u.push_back(g.below(5)?g.below(P):0); } bool ok=true; for(int i=0;i<n&&ok;++i) { long a=1,b=m.d[i]; for(int j=i+1;j<n&&ok;++j) { long c=((b*m.d[j]-(long)m.l[j]*m.u[j-1]%P*a)%P+P)%P; a=b; b=c; ok=b!=0; } } if(ok) return m; } }
template<class T> using V1=Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged>; template<class T> using V2=Kokkos::View<T**,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged>; template<class T> using V1L=Kokkos::View<T*,Kokkos::LayoutLeft,Kokkos::HostSpace,Kokkos::MemoryUnmanaged>;
// rows s elements apart, as in slices of larger views
template<class T> static V2<T> rows(T* p,int n,int w,long s) { V2<T> v(p,n,w); auto m=v.impl_map(); m.m_impl_offset.m_stride=s; return V2<T>(v.impl_track(),m); }
// solvers by number: 0 thomas(team) 1 thomas 2 cr 3 bfb; formats: 0 one matrix, one column; 1 one matrix, columns; 2 matrices; 3 one matrix as a 2d view
static bool valid(int s,int f) { return s==0?f==1:s==1?f!=3:s==2?f!=3:f!=0; }
template<class TM,class D,class X> static void solve1(int s,const TM& t,D dl,D d,D du,X x) { if constexpr(X::rank==2) { if(s==0) { td::thomas(t,dl,d,du,x); return; } if(s==3) { td::bfb(t,dl,d,du,x); return; } } if constexpr(std::is_same<typename D::value_type,typename X::value_type>::value||!ekat::IsPack<typename X::value_type>::value) if(s==2) { td::cr(t,dl,d,du,x); return; } if(s==1) Kokkos::single(Kokkos::PerTeam(t),[&](){ td::thomas(dl,d,du,x); }); }
template<class TM,class D,class X> static void solve2(int s,const TM& t,D dl,D d,D du,X x) { if(s==3) { td::bfb(t,dl,d,du,x); return; } if constexpr(std::is_same<typename D::value_type,typename X::value_type>::value||!ekat::IsPack<typename X::value_type>::value) { if(s==2) { td::cr(t,dl,d,du,x); return; } if(s==1) Kokkos::single(Kokkos::PerTeam(t),[&](){ td::thomas(dl,d,du,x); }); } }
static const char* NM[]={"thomas-team","thomas","cr","bfb"};
static void simulated(int s,int f,int n,int nrhs,int team,int mode) { if(f==0) nrhs=1; int nm=f==2?nrhs:1; const int G=3; vector<Mat> ms; for(int k=0;k<nm;++k) ms.push_back(field(n)); vector<vector<int>> b(nrhs); for(auto&c:b) for(int i=0;i<n;++i) c.push_back(g.below(P));
  long st[4]; for(int a=0;a<4;++a) st[a]=(a==3?nrhs:nm)+((a==3?f>0:f==2)&&g.below(2)?g.below(3):0);
  vector<GF> buf[4]; for(int a=0;a<4;++a) { int w=a==3?nrhs:nm; buf[a].resize(n*st[a]+2*G); for(auto&x:buf[a]) x.v=12345; for(int i=0;i<n;++i) for(int k=0;k<w;++k) buf[a][G+i*st[a]+k].v=a==0?ms[k].l[i]:a==1?ms[k].d[i]:a==2?ms[k].u[i]:b[k][i]; }
  GF* p[4]; for(int a=0;a<4;++a) p[a]=buf[a].data()+G; sim::Sched sc(team,g.next(),mode); sc.unit=sizeof(GF); for(int a=0;a<4;++a) sc.mem.push_back({(char*)p[a],(char*)(p[a]+n*st[a])}); div0=false; bool left=g.below(2);
  sc.run([&](int r) { sim::Team t{&sc,r};
    if(f==0) { if(left) solve1(s,t,V1L<GF>(p[0],n),V1L<GF>(p[1],n),V1L<GF>(p[2],n),V1<GF>(p[3],n)); else solve1(s,t,V1<GF>(p[0],n),V1<GF>(p[1],n),V1<GF>(p[2],n),V1L<GF>(p[3],n)); }
    else if(f==1) { if(left) solve1(s,t,V1L<GF>(p[0],n),V1L<GF>(p[1],n),V1L<GF>(p[2],n),rows(p[3],n,nrhs,st[3])); else solve1(s,t,V1<GF>(p[0],n),V1<GF>(p[1],n),V1<GF>(p[2],n),rows(p[3],n,nrhs,st[3])); }
    else solve2(s,t,rows(p[0],n,nm,st[0]),rows(p[1],n,nm,st[1]),rows(p[2],n,nm,st[2]),rows(p[3],n,nrhs,st[3])); });
  bool ok=!div0&&!sc.diverged; for(auto&v:buf) for(int k=0;k<G;++k) ok=ok&&v[k].v==12345&&v[v.size()-1-k].v==12345;
  for(int a=0;a<4;++a) for(int i=0;i<n;++i) for(int k=a==3?nrhs:nm;k<st[a];++k) ok=ok&&p[a][i*st[a]+k].v==12345;
  vector<vector<int>> x(nrhs); for(int k=0;k<nrhs;++k) for(int i=0;i<n;++i) x[k].push_back(p[3][i*st[3]+k].v);
  Rec("Solve").t("solver",NM[s]).i("format",f).i("p",P).i("n",n).i("team",team).i("mode",mode).b("ok",ok).raw("m",js(ms)).raw("b",js(b)).raw("x",js(x)).raw("ph",sc.log()); }
// ---- real teams. DT, XT: numbers; ND, NX: pack lengths, 0 for none
using Ex=Kokkos::DefaultExecutionSpace; using Mem=Kokkos::TeamPolicy<Ex>::member_type;
template<class T,int N> struct El { using t=Pack<T,N>; }; template<class T> struct El<T,0> { using t=T; };
static Mat dominant(int n) { Mat m; for(int i=0;i<n;++i) { int l=g.below(4)?g.range(-9,9):0,u=g.below(4)?g.range(-9,9):0; m.l.push_back(i?l:0); m.u.push_back(i<n-1?u:0); int d=2*(std::abs(m.l[i])+std::abs(m.u[i]))+g.range(1,9); m.d.push_back(g.below(2)?d:-d); } return m; }
struct Prob { vector<Mat> ms; vector<vector<int>> x0,b; string id; };
static vector<int> times(const Mat& m,const vector<int>& x) { int n=x.size(); vector<int> b; for(int i=0;i<n;++i) b.push_back(m.d[i]*x[i]+(i?m.l[i]*x[i-1]:0)+(i<n-1?m.u[i]*x[i+1]:0)); return b; }
template<class T> static string bits(T x) { unsigned long long u=0; memcpy(&u,&x,sizeof x); char s[32]; snprintf(s,32,"%llx",u); return s; }
// columns c0..c1-1 of the problem, in league teams, each a copy
template<class DT,class XT,int ND,int NX> static void real(int s,int f,const Prob& pr,int c0,int c1,int team,int league,double tol,const string& ty) {
  using DE=typename El<DT,ND>::t; using XE=typename El<XT,NX>::t; const int wd=ND?ND:1,wx=NX?NX:1; int n=pr.ms[0].d.size(),nrhs=c1-c0,nm=f==2?nrhs:1; int pd=f==2?(nm+wd-1)/wd:1,px=(nrhs+wx-1)/wx; const int G=2; const DT bad=std::numeric_limits<DT>::quiet_NaN();
  // row lengths in packs
  const bool wide=g.below(2); int rd[3]; for(int& r:rd) r=pd+(f>=2&&wide?g.below(3):0); const int rx=px+(f>=1&&wide?g.below(3):0);
  size_t ld[3],lx=(size_t)n*rx*wx; vector<vector<DT>> dd(3); for(int a=0;a<3;++a) { ld[a]=(size_t)n*rd[a]*wd; dd[a].assign(ld[a]*league+2*G*wd,(DT)777); } vector<XT> xx(lx*league+2*G*wx,(XT)777);
  for(int q=0;q<league;++q) { for(int i=0;i<n;++i) for(int k=0;k<pd*wd;++k) { const Mat* m=f!=2?&pr.ms[0]:k<nm?&pr.ms[c0+k]:nullptr; auto at=[&](int a)->DT& { return dd[a][G*wd+q*ld[a]+(size_t)i*rd[a]*wd+k]; }; at(0)=m?(i?m->l[i]:bad):0; at(1)=m?m->d[i]:1; at(2)=m?(i<n-1?m->u[i]:bad):0; }
    for(int i=0;i<n;++i) for(int k=0;k<px*wx;++k) xx[G*wx+q*lx+(size_t)i*rx*wx+k]=k<nrhs?pr.b[c0+k][i]:i+k; }
  DE* p[3]; XE* px_; for(int a=0;a<3;++a) p[a]=(DE*)(dd[a].data()+G*wd); px_=(XE*)(xx.data()+G*wx); auto pol=Kokkos::TeamPolicy<Ex>(league,team);
  Kokkos::parallel_for(pol,[&](const Mem& t) { int q=t.league_rank(); DE* a[3]; for(int k=0;k<3;++k) a[k]=p[k]+q*(ld[k]/wd); XE* x=px_+q*(lx/wx);
    if constexpr(ND==0) { if(f==0) { if constexpr(NX==0) solve1(s,t,V1<DE>(a[0],n),V1<DE>(a[1],n),V1<DE>(a[2],n),V1<XE>(x,n)); return; } if(f==1) { solve1(s,t,V1<DE>(a[0],n),V1<DE>(a[1],n),V1<DE>(a[2],n),rows(x,n,px,rx)); return; } }
    if constexpr(ND==NX||ND==0) if(f>=2&&(f==3||ND==NX)) solve2(s,t,rows(a[0],n,pd,rd[0]),rows(a[1],n,pd,rd[1]),rows(a[2],n,pd,rd[2]),rows(x,n,px,rx)); });
  bool ok=true; for(auto&v:dd) for(int k=0;k<G*wd;++k) ok=ok&&v[k]==777&&v[v.size()-1-k]==777; for(int k=0;k<G*wx;++k) ok=ok&&xx[k]==777&&xx[xx.size()-1-k]==777;
  for(int q=0;q<league;++q) for(int i=0;i<n;++i) { for(int a=0;a<3;++a) for(int k=pd*wd;k<rd[a]*wd;++k) ok=ok&&dd[a][G*wd+q*ld[a]+(size_t)i*rd[a]*wd+k]==777; for(int k=px*wx;k<rx*wx;++k) ok=ok&&xx[G*wx+q*lx+(size_t)i*rx*wx+k]==777; }
  for(int q=0;q<league;++q) { vector<vector<int>> x(nrhs); vector<Mat> ms; vector<vector<int>> b; vector<string> ids,bs; for(int k=0;k<nrhs;++k) { string w; for(int i=0;i<n;++i) { XT y=xx[G*wx+q*lx+(size_t)i*rx*wx+k]; double r=std::round((double)y); ok=ok&&std::abs(y-r)<=tol*std::max(1.0,std::abs(r)); x[k].push_back(std::abs(r)<1e6?(int)r:999999); w+=bits(y)+" "; } b.push_back(pr.b[c0+k]); ids.push_back(pr.id+"."+std::to_string(c0+k)+"."+ty); bs.push_back(w); }
    for(int k=0;k<nm;++k) ms.push_back(pr.ms[f==2?c0+k:0]);
    Rec("Solve").t("solver",NM[s]).i("format",f).i("p",0).i("n",n).i("team",team).i("league",league).t("type",ty).i("nd",ND).i("nx",NX).b("ok",ok).raw("m",js(ms)).raw("b",js(b)).raw("x",js(x)).raw("ph","[]"); if(s==3) Rec("Bits").i("team",team).i("nd",ND).i("nx",NX).i("format",f).sa("q",ids).sa("x",bs); } }
static int cnt=0;
// one problem, solved by everything; f: 1 one matrix, 2 matrices
template<class DT,class XT> static void everything(int n,int m,double tol,const string& ty) { Rec("New"); int mt=Ex().concurrency(); for(int multi=0;multi<2;++multi) { Prob p; p.id=std::to_string(cnt++); for(int k=0;k<(multi?m:1);++k) p.ms.push_back(dominant(n)); for(int k=0;k<m;++k) { vector<int> x; for(int i=0;i<n;++i) x.push_back(g.range(-20,20)); p.x0.push_back(x); p.b.push_back(times(p.ms[multi?k:0],x)); }
    for(int s=0;s<4;++s) for(int f=0;f<4;++f) if(valid(s,f)&&(f==2)==(multi==1)) for(int rep=0;rep<2;++rep) { int team=g.range(1,mt),c0=f==0?g.below(m):rep?0:g.below(m),c1=f==0?c0+1:rep?m:g.range(c0+1,m),lg=1+g.below(4)/3;
        real<DT,XT,0,0>(s,f,p,c0,c1,team,lg,tol,ty);
        if(f==1&&s!=2) { if(g.below(2)) real<DT,XT,0,4>(s,f,p,c0,c1,team,lg,tol,ty); else real<DT,XT,0,2>(s,f,p,c0,c1,team,lg,tol,ty); }
        if(f==3) real<DT,XT,0,4>(s,f,p,c0,c1,team,lg,tol,ty);
        if constexpr(std::is_same<DT,XT>::value) if(f==2) { if(g.below(2)) real<DT,XT,4,4>(s,f,p,c0,c1,team,lg,tol,ty); else real<DT,XT,1,1>(s,f,p,c0,c1,team,lg,tol,ty); } } } }
int main(int argc,char** argv) { Kokkos::initialize(argc,argv); { g=vp::Rng(vp::seed()); bool th=vp::thorough();
  Rec("New"); int N=th?20:13; for(int s=0;s<4;++s) for(int f=0;f<4;++f) if(valid(s,f)) for(int n=1;n<=N;++n) for(int k=0;k<(th?16:7);++k) { int team=k==0?1:g.range(1,7); simulated(s,f,n,g.range(1,4),team,k%3==1?2:k%3==2?1:g.below(3)); }
  for(int n: th?vector<int>{1,2,3,4,5,6,7,8,9,10,12,13,15,16,17,20,24,31,32,33,40}:vector<int>{1,2,3,4,5,7,8,9,16,17,33}) { everything<double,double>(n,g.range(1,7),1e-9,"dd"); if(n<10||th) { everything<float,float>(n,g.range(1,5),1e-2,"ff"); everything<double,float>(n,g.range(1,5),1e-2,"df"); everything<float,double>(n,g.range(1,5),1e-2,"fd"); } }
  for(int n: {100,127,128,129,130,200,255,257,300,511}) { everything<double,double>(n,g.range(1,2),1e-9,"dd"); if(!th&&n>130&&n<511) continue; everything<float,float>(n<200?n:130,1,1e-2,"ff"); }
  for(int m: {127,129,130,257}) everything<double,double>(g.range(1,3),m,1e-9,"dd");
 } Kokkos::finalize(); return 0; }
