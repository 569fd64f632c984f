// Calls the string helpers on enumerated and random text. MODE: nested | helpers | score | ci
#include "vp.hpp"
#include "ekat_string_utils.hpp"
#include <map>
#include <list>
#include <set>
#include <functional>
using namespace ekat; using std::string; using std::vector; using vp::Rec;
static vector<string> all(const string& letters,int maxlen) {
  vector<string> r{""}; size_t lo=0;
  for(int n=0;n<maxlen;++n) { size_t hi=r.size(); for(size_t i=lo;i<hi;++i) for(char c:letters) r.push_back(r[i]+c); lo=hi; }
  return r; }
static string rnd(vp::Rng& g,const string& letters,int maxlen) { string s; int n=g.below(maxlen+1); for(int i=0;i<n;++i) s+=letters[g.below(letters.size())]; return s; }
template<class F> static bool guarded(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
static void flat(const ParameterList& p,int lvl,string& r) {   // the entries in the order written, each with its level
  int n=p.get<int>("Num Entries");
  for(int i=0;i<n;++i) { if(r.size()>1) r+=",";
    string ty=p.get<string>(strint("Type",i));
    if (ty=="Value") r+="{\"lvl\":"+std::to_string(lvl)+",\"t\":\"v\",\"w\":"+Rec::codes(p.get<string>(strint("Entry",i)))+",\"n\":0,\"depth\":0}";
    else { const auto& q=p.sublist(strint("Entry",i)); r+="{\"lvl\":"+std::to_string(lvl)+",\"t\":\"l\",\"w\":[],\"n\":"+std::to_string(q.get<int>("Num Entries"))+",\"depth\":"+std::to_string(q.get<int>("Depth"))+"}"; flat(q,lvl+1,r); } } }
static string tree(const ParameterList& p) { string r="["; flat(p,1,r); return r+"]"; }
static void nested1(const string& s,bool valid=true) {
  if (valid) { bool v=false; bool e=guarded([&]{v=valid_nested_list_format(s);}); Rec("ValidNested").c("s",s).b("err",e).b("r",v); }
  string t="[]",str; int n=0,d=0;
  bool e=guarded([&]{ auto p=parse_nested_list(s); t=tree(p); n=p.get<int>("Num Entries"); d=p.get<int>("Depth"); str=p.get<string>("String"); });
  Rec("ParseNested").c("s",s).b("err",e).raw("r",e?"[]":t).i("n",n).i("depth",d).c("str",str);
}
static void nested(vp::Rng& g) {
  for (auto& s: all("[],a",vp::thorough()?8:6)) nested1(s);
  for (auto& s: all("<>,",5)) nested1(s);
  for (string b: {"()","{}","<>","[]"}) for (int k=0;k<(vp::thorough()?20000:700);++k) {
    // a well formed list, then now and then broken
    std::function<string(int)> mk=[&](int d)->string { string s(1,b[0]); int n=g.range(1,3); for(int i=0;i<n;++i) { if(i) s+=','; if(d>0&&g.below(3)==0) s+=mk(d-1); else { string w; do w=rnd(g,"azAZ09_.-!@#$%^&*+=?xyz",3); while(w.empty()); s+=w; } } return s+b[1]; };
    string s=mk(g.below(4));
    if (g.below(2)) { int m=g.range(1,2); for(int i=0;i<m;++i) { int p=g.below(s.size()); switch(g.below(4)) { case 0: s.erase(p,1); break; case 1: s.insert(p,1,string("[](){}<>, a;/|\"'~:\n")[g.below(19)]); break; case 2: s.insert(p,1,b[g.below(2)]); break; default: s[p]=string(",a][)")[g.below(5)]; } if(s.empty()) s="["; } }
    nested1(s);
    if (g.below(4)==0) { string q; for(char c:s) { if(g.below(3)==0) q+=' '; q+=c; } nested1(q,true); }
  }
  // many entries, long entries, deep nesting
  for (string b: {"()","{}","<>","[]"}) for (int n: {9,10,16,33,64,100,127,128,129,255,256,257,300}) { string m(1,b[0]); for(int i=0;i<n;++i) { if(i) m+=','; m+=(i%50==7?string(1,b[0])+"x,y"+b[1]:"e"+std::to_string(i)); } m+=b[1]; nested1(m);
    m[g.below(m.size())]=','; nested1(m); nested1(string(1,b[0])+string(n,'w')+b[1]);
    if (n<=260 && (n<=130||b[0]=='[')) { int k=n; nested1(string(k,b[0])+"a"+string(k,b[1])); nested1(string(k,b[0])+"a"+string(k-1,b[1])); nested1(string(k,b[0])+"a"+string(k+1,b[1])); }
    { string v=string(n,b[0])+"a"+string(n,b[1]); bool r=false; bool e=guarded([&]{r=valid_nested_list_format(v);}); Rec("ValidNested").c("s",v).b("err",e).b("r",r); v.pop_back(); e=guarded([&]{r=valid_nested_list_format(v);}); Rec("ValidNested").c("s",v).b("err",e).b("r",r); } }
  for (int c=1;c<256;++c) { nested1(string("[a")+char(c)+"b]"); nested1(string(1,char(c))+"a]"); nested1(string("[a")+char(c)); }
}
static void helpers1(const string& s,const string& d) {
  vector<string> p; bool e=guarded([&]{p=split(s,d);}); Rec("Split").c("s",s).c("d",d).b("err",e).ca("r",p);
  if (d.size()==1) { vector<string> q; e=guarded([&]{q=split(s,d[0]);}); Rec("Split").c("s",s).c("d",d).b("err",e).ca("r",q); }
  bool b=false; e=guarded([&]{b=starts_with(s,d);}); Rec("StartsWith").c("s",s).c("d",d).b("err",e).b("r",b);
}
static void helpers2(const string& s,char c,int i) {
  string r; bool e=guarded([&]{r=s; strip(r,c);}); Rec("Strip").c("s",s).i("c",(unsigned char)c).b("err",e).c("r",r);
  e=guarded([&]{r=trim(s,c);}); Rec("Trim").c("s",s).i("c",(unsigned char)c).b("err",e).c("r",r);
  e=guarded([&]{r=trim(s);}); Rec("Trim").c("s",s).i("c",' ').b("err",e).c("r",r);
  e=guarded([&]{r=upper_case(s);}); Rec("Upper").c("s",s).b("err",e).c("r",r);
  e=guarded([&]{r=strint(s,i);}); Rec("StrInt").c("s",s).i("i",i).b("err",e).c("r",r);
}
static string up(const string& x) { return upper_case(x); }
static void joins(const vector<string>& q,const string& d) {
  string r; bool e=guarded([&]{r=join(q,d);}); Rec("Join").ca("q",q).c("d",d).b("err",e).c("r",r);
  std::list<string> ql(q.begin(),q.end());
  e=guarded([&]{r=join(ql,d);}); Rec("Join").ca("q",q).c("d",d).b("err",e).c("r",r);
  std::set<string> qs(q.begin(),q.end()); vector<string> qq(qs.begin(),qs.end());
  e=guarded([&]{r=join(qs,d);}); Rec("Join").ca("q",qq).c("d",d).b("err",e).c("r",r);
  vector<int> qi; for(auto&x:q) qi.push_back((int)x.size()*7-9);
  e=guarded([&]{r=join(qi,d);}); Rec("JoinInts").a("q",qi).c("d",d).b("err",e).c("r",r);
  e=guarded([&]{r=join(ql,up,d);}); Rec("JoinUpper").ca("q",q).c("d",d).b("err",e).c("r",r);
  auto odd=[](const string& x){return x.size()%2==1;};
  e=guarded([&]{r=join_if(q,odd,d);}); Rec("JoinIf").ca("q",q).c("d",d).b("err",e).c("r",r);
  e=guarded([&]{r=join_if(ql,odd,up,d);}); Rec("JoinIfUpper").ca("q",q).c("d",d).b("err",e).c("r",r);
}
static void tokens(const string& s,const string& D,const string& a) {
  vector<char> dv(D.begin(),D.end()); std::list<string> q;
  bool e=guarded([&]{q=gather_tokens(s,dv);}); Rec("Tokens").c("s",s).c("D",D).b("err",e).ca("r",q);
  // an atomic word that begins or ends with a delimiter has no agreed meaning
  if (!a.empty() && (D.find(a[0])!=string::npos || D.find(a.back())!=string::npos)) return;
  e=guarded([&]{q=gather_tokens(s,dv,a);}); Rec("Atomic").c("s",s).c("D",D).c("a",a).b("err",e).ca("r",q);
}
static void helpers(vp::Rng& g) {
  bool T=vp::thorough();
  auto S=all("ab_",T?7:5), D=all("ab_",2);
  for(auto&s:S) for(auto&d:D) if (s.size()<=4 || d.size()>0) helpers1(s,d);
  for(auto&s:all("a b",T?6:4)) for(char c:string("a ")) helpers2(s,c,(int)s.size()*37-40);
  for(int i=0;i<(T?20000:1500);++i) { string al="aAzZ 09_-/@[`{\t."; string s=rnd(g,al,20),d=rnd(g,al.substr(0,4),2); helpers1(s+d+rnd(g,al,9)+(g.below(2)?d:""),d); helpers2(s,al[g.below(al.size())],(int)(g.next()%2000001)-1000000); }
  for(int c=0;c<256;++c) helpers2(string("x")+char(c)+string(2,char(c)),(char)c,c-128);
  for(int n: {15,16,17,31,63,64,65,100,127,128,129,130,255,256,257,300,600}) { string x; for(int i=0;i<n;++i) x+="ab_c"[g.below(4)];
    for(string d: {"_","ab","b_c","Q"}) { helpers1(x,d); helpers1(string(n,d[0]),d); helpers1(x+d+x,x); helpers1(x+d+string(n,'z')+d+"y",d); helpers1(x,x+"a"); }
    helpers2(string(n,' ')+"x y"+string(n/2,' '),' ',n); helpers2("y"+string(n,' '),' ',n); helpers2(string(n,'a')+x+string(n,'a'),'a',-n); helpers2(string(n,'a'),'a',n);
    vector<string> q; for(int i=0;i<n;++i) q.push_back(rnd(g,"ab,_ Z",3)); joins(q,", "); joins(vector<string>(2,x),x); if(n<=130) { tokens(x,"_c",""); tokens(x+"_"+string(n,'z')+"_"+x,"_",string(n,'z')); tokens(x,"_","ab"); } }
  helpers2(string(3,'\0'),'\0',INT32_MAX); helpers2("",'\0',-INT32_MAX); helpers2("a",'a',0);
  for(int i=0;i<(T?20000:1200);++i) { vector<string> q; int n=g.below(5); for(int k=0;k<n;++k) q.push_back(rnd(g,"ab,_ Z",4)); joins(q,rnd(g,", _",2)); }
  auto A=all("a_",3); for(auto&s:all("ab_",T?6:5)) for(auto&a:A) if (s.size()<=4||a.size()==2) tokens(s,"_",a);
  for(int i=0;i<(T?40000:4000);++i) { string a=rnd(g,"ab_",4), s; int n=g.below(5); for(int k=0;k<n;++k) { s+= g.below(2)?a:rnd(g,"ab _",3); if(g.below(3)) s+=(g.below(2)?'_':' '); } tokens(s,g.below(3)?"_ ":g.below(2)?"_":"",a); }
}
static void score_(const string& ev,const string& a,const string& b,double v,const string& extra) {
  bool fin=std::isfinite(v)&&std::fabs(v)<=1.0000001; vector<long> r; double f=1; for(int k=0;k<8;++k) { f*=10; r.push_back(fin?lround(v*f):-1); }
  Rec e(ev); e.c("a",a).c("b",b).b("finite",fin).a("r",r).b("exact1",std::fabs(v-1)<1e-12).b("inrange",v>=0&&v<=1+1e-12);
  e.s+=extra; }
static void score1(const string& a,const string& b) {
  score_("Jaro",a,b,jaro_similarity(a,b),"");
  score_("JaroWinkler",a,b,jaro_winkler_similarity(a,b),",\"l\":4,\"p\":10,\"thr\":70");
  int l=(a.size()+2*b.size())%5, p=(a.size()*3+b.size())%21, th=30+(a.size()*7+b.size()*11)%60;
  score_("JaroWinkler",a,b,jaro_winkler_similarity(a,b,l,p/100.0,th/100.0),",\"l\":"+std::to_string(l)+",\"p\":"+std::to_string(p)+",\"thr\":"+std::to_string(th)); }
static void score2(const string& a,const string& b,const string& D) {
  vector<char> dv(D.begin(),D.end());
  for(int ta=0;ta<2;++ta) for(int tb=0;tb<2;++tb)
    score_("Jaccard",a,b,jaccard_similarity(a,b,dv,ta,tb),",\"D\":"+Rec::codes(D)+",\"ta\":"+(ta?"true":"false")+",\"tb\":"+(tb?"true":"false")); }
static void score(vp::Rng& g) {
  bool T=vp::thorough();
  auto S=all("ab",T?5:4), S3=all("abc",3); auto U=all("a_b",3);
  for(auto&a:S) for(auto&b:S) score1(a,b);
  for(auto&a:S3) for(auto&b:S3) if (T || (a.size()+b.size())%2==0 || a.size()>=b.size()) score1(a,b);
  for(int i=0;i<(T?30000:3000);++i) { string al=string("abcdefgh").substr(0,g.range(2,8)); string a=rnd(g,al,9),b; if(g.below(3)) { b=a; int m=g.below(5); for(int k=0;k<m&&!b.empty();++k) { int p=g.below(b.size()),q=g.below(b.size()); if(g.below(2)) std::swap(b[p],b[q]); else b[p]=al[g.below(al.size())]; } if(g.below(3)==0) b+=rnd(g,al,2); if(g.below(3)==0) b.erase(0,g.below(2)); } else b=rnd(g,al,9); score1(a,b); }
  // long texts: windows and counts far from those of short ones
  for(int i=0;i<(T?1500:160);++i) { string al=string("abcdefghijklmnopqrstuvwxyz0123456789").substr(0,g.range(2,36)); int n=g.pick(vector<int>{15,16,17,24,31,32,33,40,48,63,64,65}); string a; for(int k=0;k<n;++k) a+=al[g.below(al.size())]; string b=a;
    switch(g.below(4)) { case 0: { int d=g.below(n/2+2); for(int k=0;k<4;++k) { int x=g.below(n),y=(x+d)%n; std::swap(b[x],b[y]); } break; } case 1: std::rotate(b.begin(),b.begin()+g.below(n),b.end()); break; case 2: { int x=g.below(n); b=b.substr(x/2)+rnd(g,al,6); break; } default: { string c; int m=g.range(n/2,n); for(int k=0;k<m;++k) c+=al[g.below(al.size())]; b=c; } }
    score1(a,b); }
  for(auto&a:U) for(auto&b:U) if(T||a.size()+b.size()<6) score2(a,b,"_");
  for(int i=0;i<(T?20000:2000);++i) { vector<string> w={"air","sea","a","b","air_sea","x","zenith","angle"}; auto mk=[&]{ string s; int n=g.below(40)?g.below(5):g.range(17,40); for(int k=0;k<n;++k) { if(k) s+=(g.below(4)?"_":" "); s+=g.pick(w); if(n>16) s+=std::to_string(g.below(45)); } return s; }; string a=mk(),b=mk(); if(g.below(4)==0) b=g.below(2)?"air_sea":"zenith_angle"; score2(a,b,g.below(4)?"_ ":"_"); }
}
using CI=CaseInsensitiveString;
static string bits(bool a,bool b,bool c,bool d) { string r="["; for(bool x:{a,b,c,d}) r+=string(r.size()>1?",":"")+(x?"true":"false"); return r+"]"; }
static void ci(vp::Rng& g) {
  bool T=vp::thorough();
  auto one=[&](const string& a,const string& b) {
    CI ca(a),cb(b);
    Rec("Compare").c("a",a).c("b",b).b("plain",false).t("mix","cc").raw("r",bits(ca==cb,ca!=cb,ca<cb,ca<=cb));
    Rec("Compare").c("a",a).c("b",b).b("plain",false).t("mix","cs").raw("r",bits(ca==b,ca!=b,ca<b,ca<=b));
    Rec("Compare").c("a",a).c("b",b).b("plain",false).t("mix","sc").raw("r",bits(a==cb,a!=cb,a<cb,a<=cb));
    Rec("Compare").c("a",a).c("b",b).b("plain",false).t("mix","ff").raw("r",bits(caseInsensitiveEqualString(a,b),!caseInsensitiveEqualString(a,b),caseInsensitiveLessString(a,b),caseInsensitiveLessEqualString(a,b))); };
  auto S=all("aAb_",T?4:3); for(auto&a:S) for(auto&b:S) if (T||a.size()<3||b.size()<3||((a.size()*31+a[0]+b[2])%3==0)) one(a,b);
  string al; for(int c=1;c<127;++c) al+=char(c);
  for(char c:al) for(char d:al) if(T||isalpha(c)||isalpha(d)) if(T||g.below(3)==0) one(string(1,c),string(1,d));
  for(int i=0;i<(T?20000:1500);++i) { string a=rnd(g,al,8),b=a; for(auto&c:b) if(g.below(2)) c=g.below(2)?toupper(c):tolower(c); if(g.below(2)&&!b.empty()) b[g.below(b.size())]=al[g.below(al.size())]; if(g.below(4)==0) b+=rnd(g,al,2); one(a,b); }
}
static void cimap(vp::Rng& g) {
  bool T=vp::thorough();
  for(int h=0;h<(T?2000:150);++h) {
    Rec("New"); std::map<CI,int> m; int v=0;
    for(int k=0;k<40;++k) { string s=rnd(g,g.below(2)?"aAbB_":"aA[z`{",3);
      switch(g.below(6)) {
        case 0: { bool r=m.insert({CI(s),++v}).second; Rec("Insert").c("k",s).i("v",v).b("r",r); break; }
        case 1: { m[CI(s)]=++v; Rec("Assign").c("k",s).i("v",v); break; }
        case 2: { int n=m.erase(CI(s)); Rec("Erase").c("k",s).i("n",n); break; }
        case 3: case 4: { auto it=m.find(CI(s)); Rec("Find").c("k",s).i("r",it==m.end()?-1:it->second); break; }
        default: { vector<string> q; vector<int> vv; for(auto&p:m) { q.push_back(p.first); vv.push_back(p.second); } Rec("Contents").ca("q",q).a("v",vv); } } } }
}
int main(int argc,char** argv) {
  if (argc<2) return 3; string m=argv[1]; vp::Rng g(vp::seed()*131+m.size()*7+m[0]);
  if (m=="nested") nested(g); else if (m=="helpers") helpers(g); else if (m=="score") score(g); else if (m=="ci") ci(g); else if (m=="cimap") cimap(g); else return 3;
  return 0;
}
