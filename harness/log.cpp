// Histories of loggers in a scratch directory; what appears on the console and in files is read back after every step.
#include "vp.hpp"
#include "ekat_logger.hpp"
#include <filesystem>
#include <map>
#include <memory>
#include <thread>
#include <unistd.h>
#include <fcntl.h>
#include <regex>
namespace fs=std::filesystem; using namespace ekat::logger; using std::string; using std::vector; using vp::Rec; using ekat::Comm;
static vp::Rng g(vp::seed()); static string con; static long conpos=0; static std::map<string,string> seen;
static string slurp(const string& p,long from=0) { std::ifstream f(p,std::ios::binary); f.seekg(from); std::stringstream s; s<<f.rdbuf(); return s.str(); }
// the default format starts with the time
static string norm(const string& l) { static const std::regex ts("^\\[[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2}\\.[0-9]{3}\\] "); return std::regex_replace(l,ts,"[T] "); }
static vector<string> lines(const string& s) { vector<string> r; std::stringstream ss(s); string x; while(std::getline(ss,x)) { auto p=x.find('*'); if(p!=string::npos) { auto q=x.find_last_of("*x"); x=x.substr(0,p)+x.substr(q+1); } r.push_back(norm(x)); } if(!s.empty()&&s.back()!='\n') r.back()+=" (no newline)"; return r; }
static string obj(const std::map<string,string>& m) { string r="{"; for(auto&x:m) r+=(r.size()>1?",\"":"\"")+vp::esc(x.first)+"\":"+Rec::sarr(lines(x.second)); return r+"}"; }
static std::map<string,string> listing() { std::map<string,string> r; for(auto&e:fs::recursive_directory_iterator(".")) if(e.is_regular_file()) r[fs::relative(e.path(),".").string()]=slurp(e.path().string()); return r; }
static vector<string> console() { fflush(stdout); string s=slurp(con,conpos); conpos+=s.size(); return lines(s); }
static vector<std::unique_ptr<Comm>> comms; static int RK=0,SZ=1;
struct Lg { std::shared_ptr<LoggerBase> p; string file,mpi,name; int comm; string fname; };
static std::map<int,Lg> G; static int next_id=1; static long msgs=0;
static Comm& pick(int& c) { c=g.below(comms.size()); return *comms[c]; }
template<class F,class M> static std::shared_ptr<LoggerBase> mk(const string& n,int lev,const Comm& c,const string& suf) { if(suf==".log"&&n.size()%2) return std::make_shared<Logger<F,M>>(n,LogLevel(lev),c); return std::make_shared<Logger<F,M>>(n,LogLevel(lev),c,suf); }
template<class F,class M,class M0> static std::shared_ptr<LoggerBase> sh(const string& n,int lev,const Comm& c,LoggerBase& b) { return std::make_shared<Logger<F,M>>(n,LogLevel(lev),c,dynamic_cast<Logger<F,M0>&>(b)); }
template<class F> static std::shared_ptr<LoggerBase> sh1(const string& m,const string& m0,const string& n,int lev,const Comm& c,LoggerBase& b) { if(m=="all") return m0=="all"?sh<F,LogAllRanks,LogAllRanks>(n,lev,c,b):sh<F,LogAllRanks,LogRootRank>(n,lev,c,b); return m0=="all"?sh<F,LogRootRank,LogAllRanks>(n,lev,c,b):sh<F,LogRootRank,LogRootRank>(n,lev,c,b); }
static string levels() { string r="{"; for(auto&x:G) { auto&p=*x.second.p; r+=(r.size()>1?",\"":"\"")+std::to_string(x.first)+"\":["+std::to_string((int)p.log_level())+","+std::to_string((int)p.console_level())+","+std::to_string((int)p.file_level())+"]"; } return r+"}"; }
static void flush() { for(auto&x:G) x.second.p->flush(); }
static void finish(Rec& r,bool full) { flush(); r.sa("con",console()); auto l=listing(); if(full) r.raw("files",obj(l)); else { std::map<string,string> d; for(auto&x:l) { auto it=seen.find(x.first); string old=it==seen.end()?"":it->second; if(x.second.compare(0,old.size(),old)==0) { if(x.second.size()>old.size()) d[x.first]=x.second.substr(old.size()); } else d[x.first]="(rewritten) "+x.second; } for(auto&x:seen) if(!l.count(x.first)) d[x.first]="(gone)\n"; r.raw("grew",obj(d)); } seen=l; r.raw("levels",levels()); r.i("limit",(long)LogBigFiles::mb_per_file*1024*1024).i("keep",LogBigFiles::num_files); }
static string fname(const string& file,const string& mpi,const string& n,const string& suf,const Comm& c) { if(file=="none") return ""; return (mpi=="all"?n+"."+std::to_string(c.size())+"."+std::to_string(c.rank()):n)+suf; }
static const vector<string> FMT={"d","m","n","q"};
static void hist(bool big,int T,bool many=false) {
  string dir="h"+std::to_string(getpid()); fs::create_directory(dir); fs::current_path(dir); seen.clear(); G.clear(); Rec("Begin");
  auto lev=[]{ return g.below(7); };
  for(int t=0;t<T;++t) { int m=g.below(20); if(G.empty()) m=0; else if(many) m=g.below(30)?19:m;
    if(m<3&&G.size()<5) { int ci; Comm& c=pick(ci); Lg x; x.comm=ci; x.file=many?"big":big?(g.below(4)?"big":"none"):g.pick(vector<string>{"none","basic","basic","basic","big"}); x.mpi=g.below(2)?"all":"root"; x.name=g.pick(vector<string>{"a","b","run.x","c"}); string suf=g.pick(vector<string>{".log",".log",".txt"}); x.fname=fname(x.file,x.mpi,x.name,suf,c);
      bool clash=false; for(auto&y:G) if(!x.fname.empty()&&y.second.fname==x.fname) clash=true; if(clash) continue;
      int lv=many?g.below(5):lev(); Rec r("New"); int id=next_id++;
      if(x.file=="none") x.p=x.mpi=="all"?mk<LogNoFile,LogAllRanks>(x.name,lv,c,suf):mk<LogNoFile,LogRootRank>(x.name,lv,c,suf); else if(x.file=="basic") x.p=x.mpi=="all"?mk<LogBasicFile,LogAllRanks>(x.name,lv,c,suf):mk<LogBasicFile,LogRootRank>(x.name,lv,c,suf); else x.p=x.mpi=="all"?mk<LogBigFiles,LogAllRanks>(x.name,lv,c,suf):mk<LogBigFiles,LogRootRank>(x.name,lv,c,suf);
      G[id]=x; string base=x.fname.size()>suf.size()?x.fname.substr(0,x.fname.size()-suf.size()):""; r.i("l",id).t("name",x.name).t("suffix",suf).t("base",base).i("lev",lv).t("file",x.file).t("mpi",x.mpi).i("rank",c.rank()).i("size",c.size()).t("logname",x.p->get_logfile_name()); finish(r,true); }
    else if(m==3&&G.size()<5) { auto it=G.begin(); std::advance(it,g.below(G.size())); int ci; Comm& c=pick(ci); Lg x=it->second; string m0=x.mpi; int src=it->first; Lg y; y.file=x.file; y.comm=ci; y.mpi=g.below(2)?"all":"root"; y.name=g.pick(vector<string>{"s1","s2"}); y.fname=x.fname; int lv=lev(); Rec r("Share"); int id=next_id++;
      y.p=x.file=="none"?sh1<LogNoFile>(y.mpi,m0,y.name,lv,c,*x.p):x.file=="basic"?sh1<LogBasicFile>(y.mpi,m0,y.name,lv,c,*x.p):sh1<LogBigFiles>(y.mpi,m0,y.name,lv,c,*x.p); x.p.reset(); G[id]=y;
      r.i("l",id).i("src",src).t("name",y.name).i("lev",lv).t("mpi",y.mpi).i("rank",c.rank()).i("size",c.size()).t("logname",y.p->get_logfile_name()); finish(r,true); }
    else if(m==4&&G.size()>1) { auto it=G.begin(); std::advance(it,g.below(G.size())); Rec r("Drop"); r.i("l",it->first); it->second.p->flush(); G.erase(it); finish(r,true); }
    else { auto it=G.begin(); std::advance(it,g.below(G.size())); auto& p=*it->second.p; int lv=lev();
      if(m==5) { Rec r("SetLog"); p.set_log_level(LogLevel(lv)); r.i("l",it->first).i("lev",lv); finish(r,big); }
      else if(m==6) { Rec r("SetCon"); p.set_console_level(LogLevel(lv)); r.i("l",it->first).i("lev",lv); finish(r,big); }
      else if(m==7) { Rec r("SetFile"); p.set_file_level(LogLevel(lv)); r.i("l",it->first).i("lev",lv); finish(r,big); }
      else if(m==8) { Rec r("SetFmt"); string f=g.pick(FMT); if(f=="m") { if(lv%2) p.set_no_format(); else p.set_format(); } else p.set_format(f=="d"?"%+":f=="n"?"%n|%l|%v":"<%v>"); if(f=="d") { p.set_format("[%Y-%m-%d %H:%M:%S.%e] [%n] [%l] %v"); } r.i("l",it->first).t("fmt",f); finish(r,big); }
      else if(m==9&&!big&&g.below(2)) { Rec r("Burst"); int N=g.range(2,3), per=g.range(3,8); vector<int> who,levs; vector<vector<string>> tx; vector<LoggerBase*> ps; for(int k=0;k<N;++k) { auto jt=G.begin(); std::advance(jt,g.below(G.size())); who.push_back(jt->first); ps.push_back(jt->second.p.get()); levs.push_back(g.range(2,5)); vector<string> v; for(int i=0;i<per;++i) v.push_back("m"+std::to_string(++msgs)+"t"+std::to_string(k)); tx.push_back(v); }
        vector<std::thread> th; for(int k=0;k<N;++k) th.emplace_back([&,k]{ for(auto&s:tx[k]) ps[k]->log(LogLevel(levs[k]),s); }); for(auto&x:th) x.join();
        string T2="["; for(auto&v:tx) T2+=(T2.size()>1?",":"")+Rec::sarr(v); r.a("who",who).a("levs",levs).i("per",per).raw("texts",T2+"]"); finish(r,false); }
      else { Rec r("Msg"); int lv2=g.below(6); string text="m"+std::to_string(++msgs); string body=text;
        if(many) lv2=5; if(many||(big&&g.below(4))) { body+="*"+string(many?g.range(5000000,8388600):g.pick(vector<int>{100,700000,1000000,2000000,2796200,4194300,8388600,9000000}),'x'); }
        switch(lv2) { case 0: p.trace(body); break; case 1: p.debug(body); break; case 2: p.info(body); break; case 3: p.warn(body); break; case 4: p.error(body); break; default: p.critical(body); }
        r.i("l",it->first).i("lev",lv2).t("text",text); r.i("bulk",(long)(body.size()-text.size())); finish(r,big); } } }
  G.clear(); fs::current_path(".."); fs::remove_all(dir); }
int main(int argc,char** argv) {
  string home=argv[1]; int saved;
#ifdef EKAT_ENABLE_MPI
  MPI_Init(&argc,&argv); MPI_Comm_rank(MPI_COMM_WORLD,&RK); MPI_Comm_size(MPI_COMM_WORLD,&SZ);
  { string tr=getenv("VP_TRACE"); if(RK>0) setenv("VP_TRACE",(tr+"."+std::to_string(RK)).c_str(),1); }
  if(RK>0) unlink(getenv("VP_TRACE"));
  comms.emplace_back(new Comm(MPI_COMM_WORLD)); comms.emplace_back(new Comm(MPI_COMM_WORLD)); comms.emplace_back(new Comm()); comms.emplace_back(new Comm(comms[0]->split(RK%2)));
  g=vp::Rng(vp::seed()*7+RK*1000+SZ);
#else
  comms.emplace_back(new Comm(MPI_COMM_WORLD));
#endif
  vp::out(); fs::create_directories(home+"/r"+std::to_string(RK)); fs::current_path(home+"/r"+std::to_string(RK));
  con=fs::current_path().string()+"/console.txt"; fflush(stdout); saved=open(con.c_str(),O_CREAT|O_TRUNC|O_RDWR,0644); dup2(saved,1);
  int H=vp::thorough()?1500:(SZ>1?80:400); for(int h=0;h<H;++h) hist(false,30); int HB=vp::thorough()?60:(SZ>1?2:10); for(int h=0;h<HB;++h) hist(true,25); if(RK==0) hist(true,14,true);
#ifdef EKAT_ENABLE_MPI
  MPI_Finalize();
#endif
  return 0;
}
