// YAML documents rendered from trees and parsed by the real reader ("parse"); histories of lists written to files and read back ("files").
#include "vp.hpp"
#include "ekat_yaml.hpp"
#include <memory>
#include <set>
#include <functional>
#include <unistd.h>
using ekat::ParameterList; using std::string; using std::vector; using vp::Rec;
static vp::Rng g(vp::seed());
static int DIG=14;
static string num(double d) { char b[64]; snprintf(b,64,"%.*e",d!=0&&std::fabs(d)<2.3e-308?4:DIG,d); return b; }
static string q(const string& s) { return "\""+vp::esc(s)+"\""; }
static string one(const string& s) { return Rec::codes(s); }
static string dump(const ParameterList& p) {
  string r="{\"n\":"+q(p.name())+",\"p\":{"; bool first=true;
  for(auto& k:p.param_names()) { string ty="?",v; int n=0;
    auto put=[&](const char* t,const vector<string>& e) { ++n; ty=t; v=Rec::carr(e); };
    if(p.isType<int>(k)) put("i",{std::to_string(p.get<int>(k))});
    if(p.isType<double>(k)) put("d",{num(p.get<double>(k))});
    if(p.isType<bool>(k)) put("b",{p.get<bool>(k)?"true":"false"});
    if(p.isType<string>(k)) put("s",{p.get<string>(k)});
    if(p.isType<float>(k)) put("f",{num(p.get<float>(k))});
    if(p.isType<long>(k)) put("l",{std::to_string(p.get<long>(k))});
    if(p.isType<vector<bool>>(k)) put("vB",{});
    if(p.isType<ParameterList::EmptySeq>(k)) put("es",{});
    if(p.isType<vector<int>>(k)) { vector<string> e; for(int x:p.get<vector<int>>(k)) e.push_back(std::to_string(x)); put("vi",e); }
    if(p.isType<vector<double>>(k)) { vector<string> e; for(double x:p.get<vector<double>>(k)) e.push_back(num(x)); put("vd",e); }
    if(p.isType<vector<char>>(k)) { vector<string> e; for(int x:p.get<vector<char>>(k)) e.push_back(x==1?"true":x==0?"false":"?"); put("vb",e); }
    if(p.isType<vector<string>>(k)) put("vs",p.get<vector<string>>(k));
    if(n!=1) ty="?";
    r+=(first?"":",")+q(k)+":{\"ty\":"+q(ty)+",\"v\":"+(v.empty()?"[]":v)+"}"; first=false; }
  r+="},\"s\":{"; first=true;
  for(auto& k:p.sublist_names()) { r+=(first?"":",")+q(k)+":"+dump(p.sublist(k)); first=false; }
  return r+"}}"; }
// ---------------------------------------------------------------- documents
struct Node { char k='s'; string tag="?",text; char style='p'; vector<string> keys; vector<Node> e; string anchor; bool alias=false; };
static string json(const Node& n) {
  if(n.k=='n') return "{\"k\":\"null\"}";
  if(n.k=='s') return "{\"k\":\"sc\",\"tag\":"+q(n.tag)+",\"c\":"+Rec::codes(n.text)+"}";
  string r=string("{\"k\":\"")+(n.k=='m'?"map":"seq")+"\",\"e\":["; for(size_t i=0;i<n.e.size();++i) r+=(i?",":"")+(n.k=='m'?"{\"key\":"+q(n.keys[i])+",\"v\":"+json(n.e[i])+"}":json(n.e[i])); return r+"]}"; }
static string dq(const string& s) { string r="\""; for(char c:s) { if(c=='"'||c=='\\') { r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if(c=='\t') r+="\\t"; else r+=c; } return r+"\""; }
static string sq(const string& s) { string r="'"; for(char c:s) { r+=c; if(c=='\'') r+=c; } return r+"'"; }
static string key(const string& k) { int m=g.below(6); return m==0?dq(k):m==1?sq(k):k; }
static string scalar(const Node& n) {
  if(n.alias) return "*"+n.anchor;
  string a=n.anchor.empty()?"":"&"+n.anchor+" ";
  if(n.k=='n') return n.text;
  string t; if(n.tag=="bool"||n.tag=="int"||n.tag=="float"||n.tag=="str") t="!!"+n.tag+" "; else if(n.tag=="bad") t=n.text.size()%2?"!foo ":"!!binary ";
  return a+t+(n.style=='d'||n.style=='l'?dq(n.text):n.style=='s'?sq(n.text):n.text); }
static string flow(const Node& n) {
  if(n.k=='s'||n.k=='n'||n.alias) return scalar(n);
  string a=n.anchor.empty()?"":"&"+n.anchor+" ";
  string r=a+(n.k=='m'?"{":"["); for(size_t i=0;i<n.e.size();++i) r+=string(i?(g.below(3)?", ":" , "):"")+(n.k=='m'?key(n.keys[i])+": ":"")+flow(n.e[i]); return r+(n.k=='m'?"}":"]"); }
static string comment() { return g.below(8)?"":" # "+g.pick(vector<string>{"note","a: 1","[x","- y"}); }
static void block(const Node& n,int ind,string& o) {
  string tab(ind,' ');
  for(size_t i=0;i<n.e.size();++i) { if(!g.below(12)) o+="\n"; if(!g.below(15)) o+=tab+"# comment\n";
    const Node& c=n.e[i]; o+=tab+(n.k=='m'?key(n.keys[i])+":":"-");
    if(c.k=='s'&&c.style=='l') { o+=" |\n"; std::stringstream ss(c.text); string x; while(std::getline(ss,x)) o+=(x.empty()?"":tab+"   "+x)+"\n"; }
    else if(c.k=='s'||c.k=='n'||c.alias||c.e.empty()||g.below(3)==0) { string f=flow(c); o+=(f.empty()?"":" "+f)+comment()+"\n"; }
    else if(n.k=='q') { o+=" "+flow(c)+"\n"; }
    else { o+=(c.anchor.empty()?"":" &"+c.anchor)+comment()+"\n"; block(c,ind+1+g.below(3),o); } } }
static int cnt=0;
static void parse(const string& text,const string& doc,const string& name,bool ok) {
  string fn="doc.yaml"; { std::ofstream f(fn); f<<text; }
  ParameterList p(name), r; bool e=false; bool two=g.below(2);
  if(two) p.set<int>("left over",1);
  try { if(name.empty()&&!two) p=ekat::parse_yaml_file(fn); else ekat::parse_yaml_file(fn,p); } catch(const std::exception&) { e=true; }
  Rec("Parse").t("name",name).b("ok",ok).raw("doc",doc).b("err",e).raw("dump",e?"{}":dump(p)).t("text",text); ++cnt; }
static void parse(const Node& n,bool asflow=false) { string o; if(g.below(3)==0) o="%YAML 1.1\n---\n"; if(asflow) o+=flow(n)+"\n"; else block(n,0,o); if(n.e.empty()&&!asflow) o+="{}\n"; if(g.below(3)==0) o+="...\n"; parse(o,json(n),g.pick(vector<string>{"","parameters","a b"}),true); }
static Node sc(const string& t,const string& tag="?",char style='p') { Node n; n.text=t; n.tag=tag; n.style=style; if(style!='p'&&tag=="?") n.tag="!"; return n; }
static const vector<string> INT={"0","7","-3","42","-0","007","-012","2147483647","-2147483648","2147483648","-2147483649","00000000002147483647","5000000000","-99999999999000000000","123456","1-1","--5","-","- 1","1_000","0x1F","12a"};
static const vector<string> REAL={"0.5","-1.25",".1","1.","-.5","+1.5","1e3","1E-2","1.024e3","-1.0E-2","1e+20","123456789012345","0.000001","1e300","-1e-300","3e-310","1e400","-1e999","1e","e1","1.2.3","1e5.0","1e--5",".","-.","0.0","-0.0","00.50","1.e2",".e2","1.5d0","1.50000","inf","nan",".inf",".nan","1,5"};
static const vector<string> BOOL={"true","false","True","FALSE","tRuE","fALSE","TRUE","False","truE","yes","no","on","tru","falsee","t","F","y"};
static const vector<string> STR={"x","multiple words string","a-b","a.b","path/to/file","x1","1x","A","abc: def","# no","[x","it's","say \"hi\"","","true ","  lead","null","~","a\tb","q\\n"};
static bool plainok(const string& s) { if(s.empty()||s=="null"||s=="~"||s=="-"||s=="- 1") return false; if(s.back()==' '||s[0]==' ') return false; if(s[0]=='-'&&s.size()>1&&s[1]==' ') return false; for(char c:s) if(!(isalnum((unsigned char)c)||strchr("+-._/ ",c))) return false; return true; }
static Node anyscalar() {
  int m=g.below(10); string t=m<3?g.pick(INT):m<6?g.pick(REAL):m<8?g.pick(BOOL):g.pick(STR);
  if(!g.below(12)) { Node n; n.k='n'; n.text=g.pick(vector<string>{"~","null",""}); return n; }
  int s=g.below(10);
  if(s==0&&g.below(2)) { Node n=sc(t,"bad",'d'); return n; }
  if(s==1) return sc(t,g.pick(vector<string>{"int","float","bool","str"}),plainok(t)&&g.below(2)?'p':'d');
  if(s==2||!plainok(t)) return sc(t,"!",g.below(2)&&t.find('\t')==string::npos?'s':'d');
  if(s==3&&!g.below(3)) return sc("line one\n two\n\nlast: 1\n","!",'l');
  return sc(t); }
static const vector<string> KEYS={"a","b","c","My Key","k-1","x.y","true","12","~k","long name of a parameter","K"};
static vector<Node> anchored;
static Node tree(int d,bool top,bool inflow) {
  if(!top&&!anchored.empty()&&g.below(14)==0) { Node n=g.pick(anchored); n.alias=true; return n; }
  int m=top?2:g.below(d>0?8:4); Node n;
  if(m<3&&!top) { n=anyscalar(); if(inflow&&n.style=='l') n=sc("z"); }
  else if(m==3) { n.k='q'; int len=g.below(5); int kind=g.below(6); for(int i=0;i<len;++i) { Node c;
      if(kind==0) c=sc(g.pick(BOOL)); else if(kind==1) c=sc(g.pick(vector<string>{"0","7","-3","2147483647","-0","01"})); else if(kind==2) c=sc(g.pick(vector<string>{"1","0.5","-1e2",".1","3000000000"})); else c=anyscalar();
      if(c.k=='n'&&c.text.empty()) c.text="~"; if(c.style=='l') c=sc("z"); n.e.push_back(c); }
    if(kind==5&&g.below(3)==0) { Node c; c.k='q'; c.e.push_back(sc("1")); n.e.push_back(c); } if(kind==4&&g.below(4)==0) { Node c; c.k='m'; c.keys={"a"}; c.e.push_back(sc("1")); n.e.push_back(c); } }
  else { n.k='m'; std::set<string> used; int len=top?g.range(1,6):g.below(5); for(int i=0;i<len;++i) { string k=g.pick(KEYS); if(!used.insert(k).second) continue; Node c=tree(d-1,false,inflow); if(c.k=='n'&&c.text.empty()&&inflow) c.text="~"; n.keys.push_back(k); n.e.push_back(c); } }
  if(!top&&!n.alias&&g.below(10)==0&&n.style!='l'&&n.k!='n') { n.anchor="A"+std::to_string(anchored.size()); anchored.push_back(n); }
  return n; }
static void docs() {
  // every short text over the characters of numbers
  const string S="-+.019et"; vector<string> all={""}; vector<string> list; int N=vp::thorough()?5:4;
  for(int d=0;d<N;++d) { vector<string> nx; for(auto&s:all) for(char c:S) { nx.push_back(s+c); } for(auto&s:nx) list.push_back(s); all=nx; }
  vector<string> pl; for(auto&s:list) { bool plusint=s[0]=='+'&&s.size()>1&&s.find_first_not_of("0123456789",1)==string::npos; if(s!="-"&&!plusint) pl.push_back(s); }
  int step=40; for(size_t i=0;i<pl.size();i+=step) { Node m; m.k='m'; for(size_t j=i;j<pl.size()&&j<i+step;++j) { m.keys.push_back("k"+std::to_string(j)); m.e.push_back(sc(pl[j])); } parse(m,g.below(4)==0); }
  vector<string> tx; for(auto*v:{&INT,&REAL,&BOOL,&STR}) for(auto&s:*v) tx.push_back(s);
  for(auto&t:tx) { Node m; m.k='m'; if(plainok(t)) { m.keys.push_back("p"); m.e.push_back(sc(t)); m.keys.push_back("sp"); Node sq2; sq2.k='q'; sq2.e={sc(t),sc("1")}; m.e.push_back(sq2); } m.keys.push_back("d"); m.e.push_back(sc(t,"!",'d')); m.keys.push_back("sd"); Node s3; s3.k='q'; s3.e={sc(t,"!",'d')}; m.e.push_back(s3); parse(m);
    for(string tag:{"int","bool","float","str","bad"}) { Node k; k.k='m'; k.keys={"t","z"}; k.e={sc(t,tag,'d'),sc("5")}; parse(k); k.keys={"z","s"}; Node s2; s2.k='q'; s2.e={sc(t,tag,'d'),sc("2")}; k.e={sc("x"),s2}; parse(k); } }
  // sequences of two scalars, all kinds
  vector<Node> ks={sc("1"),sc("-2"),sc("0.5"),sc("true"),sc("FALSE"),sc("tRUE"),sc("x"),sc("1","!",'d'),sc("true","!",'s'),sc("0.5","str",'d'),sc("1","float"),sc("true","bool",'d'),sc("3","int",'d'),sc("3000000000")}; Node nn; nn.k='n'; nn.text="~"; ks.push_back(nn);
  for(auto&a:ks) for(auto&b:ks) { Node m; m.k='m'; m.keys={"s"}; Node s; s.k='q'; s.e={a,b}; m.e={s}; parse(m); }
  int H=vp::thorough()?6000:700; for(int h=0;h<H;++h) { anchored.clear(); bool fl=g.below(4)==0; Node n=tree(3,true,fl); parse(n,fl); }
  // long sequences with an odd entry late, wide maps, deep nesting, long texts
  for(int n:{15,16,17,31,33,64,65,100,101,127,128,129,130,200,255,256,257,300}) for(int r=0;r<(vp::thorough()?24:6);++r) {
    int kind=g.below(5), at=g.below(3)?n-1-g.below(n<9?n:9):g.below(n), odd=g.below(3)?g.below(6):-1; Node s; s.k='q';
    auto mk=[&](int kd,int i)->Node { switch(kd) { case 0: return sc(g.pick(vector<string>{"true","False","tRUE"})); case 1: return sc(std::to_string(i*37-99)); case 2: return sc(std::to_string(i-7)+".25"); case 3: return sc("w"+std::to_string(i)); case 4: return sc(std::to_string(i),"!",'d'); default: { Node z; z.k='n'; z.text="~"; return z; } } };
    for(int i=0;i<n;++i) s.e.push_back(mk(i==at&&odd>=0?odd:kind,i));
    Node m; m.k='m'; m.keys={"a","s","z"}; m.e={sc("1"),s,sc("2")}; parse(m,g.below(4)==0); }
  for(int n:{20,64,130,260,300}) { Node m; m.k='m'; for(int i=0;i<n;++i) { m.keys.push_back("key "+std::to_string(i*7919%n)+(i%2?"_":"x")+std::to_string(i)); m.e.push_back(anyscalar()); if(m.e.back().k=='n') m.e.back().text="~"; if(m.e.back().tag=="bad"||m.e.back().style=='l'||m.e.back().tag!="?") m.e.back()=sc("v"+std::to_string(i)); } parse(m); }
  for(int d:{8,17,33,40,70}) for(int fl=0;fl<2;++fl) { Node m=sc(std::to_string(d)); for(int i=d;i>0;--i) { Node u; u.k='m'; if(i%3==0) { u.keys.push_back("q"); u.e.push_back(sc("true")); } u.keys.push_back("d"+std::to_string(i)); u.e.push_back(m); m=u; } parse(m,fl); }
  for(int n:{15,16,17,31,63,64,65,127,128,129,255,256,257,400,1000}) for(int kind=0;kind<6;++kind) { string t; for(int i=0;i<n;++i) t+=kind==0?"abcdefghij"[i%10]:kind==1?'0':kind==2?(i<9?"1234567890"[i]:'0'):kind==3?(i==1?'.':i<9?"1234567890"[i]:'0'):kind==4?(i==n/2?'x':"1234567890"[i%10]):(i==0?'1':i==1?'e':i==n-1?'5':'0'); if(kind==2&&n<400&&n>300) continue; Node m; m.k='m'; m.keys={"t","s"}; Node s; s.k='q'; s.e={sc(t),sc("1")}; m.e={sc(t),s}; parse(m); }
  // documents that are not one
  string any="{\"k\":\"null\"}";
  for(string t:{"[1,2]\n","x\n","","~\n","5\n","--- \n...\n"}) parse(t,any,"n",true);
  for(string t:{"a: [1,2\n","a: {b: 1\n","a: 1\n b: 2\n c\n","a: *nope\n","a: b: c\n","- 1\na: 2\n","a: [1]]\n","%YAML\n\tx","\ta: 1\n","{a: 1\n"}) parse(t,any,"n",false);
  for(string fn:{"missing.yaml","no/such/dir.yaml"}) { ParameterList p("n"); bool e=false; try { ekat::parse_yaml_file(fn,p); } catch(const std::exception&) { e=true; } Rec("Parse").t("name","n").b("ok",false).raw("doc",any).b("err",e).raw("dump","{}").t("text",fn); }
}
// ---------------------------------------------------------------- files
static std::unique_ptr<ParameterList> L[3];
static string all() { return "["+dump(*L[0])+","+dump(*L[1])+","+dump(*L[2])+"]"; }
static ParameterList& at(int l,const vector<string>& p) { ParameterList* x=L[l].get(); for(auto&k:p) x=&x->sublist(k); return *x; }
static double rnd() { switch(g.below(9)) { case 0: return g.range(-20,20); case 1: return g.range(-999,999)/64.0; case 2: return std::ldexp((double)(g.next()>>11),g.range(-1074,900)); case 3: return -std::pow(10.0,g.range(-20,25)); case 4: return (double)(g.next()>>g.range(1,60)); case 5: return g.pick(vector<double>{0.0,1e20,1e-5,0.1,1e14,1e13,123456789012345.0,12345678901234.0,99999999999999.0,1e100,1.7976931348623e308,5e-324,2.2250738585072014e-308,-1e22,100.0,1000000.0,2147483648.0,0.30000000000000004}); case 6: return g.range(-9,9)*std::pow(10.0,g.range(0,18)); default: return (g.range(0,2000000)-1000000)/1000.0; } }
static string rstr() { if(g.below(40)==0) { string r; int n=g.pick(vector<int>{63,64,79,80,81,127,128,129,255,256,257,600}); for(int i=0;i<n;++i) r+="abc defghi"[i%10]; if(g.below(3)==0) r[n/2]='\n'; if(g.below(4)==0) r+="\n"; return r; }
 static const vector<string> S={"x","","true","FALSE","1","-5","0.5","1e5","1.","null","~","a b","a: b","# c","[1","{x}","'q'","\"d\"","-","- a","&a","*a","!t","%x","@","`","|",">","?","a #b","a\nb","a\nb\n","a\n\n","\n"," a\nb\n","a\n b\n","a\tb","trail "," lead","---","...","a,b","a]","\\n","tRue","yes","inf",".5","+1","0x10","1e400","2147483648","\303\251t\303\251","#a\nb\n","a\n#b\n"};
  if(g.below(3)==0) { string r; int n=g.below(5); for(int i=0;i<n;++i) r+=g.pick(vector<string>{"a","1",".","-","e","\n"," ",":","#","'","\"",",","[","true"}); return r; } return g.pick(S); }
// one vector of every kind and length, saved and loaded
static void vectors() {
  for(int n:{1,2,3,14,15,16,17,24,25,26,33,34,35,50,51,64,65,100,128,129,256,257,300}) for(int kind=0;kind<10;++kind) { if(n>35&&!vp::thorough()&&(n+kind)%3) continue; L[0].reset(new ParameterList("p")); L[1].reset(new ParameterList("q")); L[2].reset(new ParameterList()); unlink("f1.yaml"); Rec("New").raw("dump",all());
    string ty; vector<string> v; vector<string> path; if(kind%2) path={"a"}; auto& p=at(0,path); string k=g.pick(vector<string>{"a","e f"}); int w=g.range(1,4);
    if(kind<3) { vector<string> x; for(int i=0;i<n;++i) x.push_back(kind==0?g.pick(vector<string>{"true","false","TRUE"}):kind==1?std::to_string(g.range(0,w*20)):g.pick(vector<string>{"0.5","1e5","2.25","-3.75"})); v=x; p.set(k,x); ty="vs"; }
    else if(kind==3) { vector<string> x; for(int i=0;i<n;++i) x.push_back(g.pick(vector<string>{"x\ny\n","#a\nb\n","p","\n","null","~",""})); v=x; p.set(k,x); ty="vs"; }
    else if(kind<6) { vector<int> x; for(int i=0;i<n;++i) { x.push_back(g.range(0,w==1?9:w==2?999:99999999)); v.push_back(std::to_string(x.back())); } p.set(k,x); ty="vi"; }
    else if(kind<8) { vector<double> x; for(int i=0;i<n;++i) { x.push_back(w==1?g.range(0,9):rnd()); v.push_back(num(x.back())); } p.set(k,x); ty="vd"; }
    else { vector<char> x; for(int i=0;i<n;++i) { x.push_back(g.below(2)); v.push_back(x.back()?"true":"false"); } p.set(k,x); ty="vb"; }
    Rec("Set").i("l",1).sa("path",path).t("key",k).t("ty",ty).ca("v",v).raw("dump",all()).b("err",false);
    bool e=false; try { ekat::write_yaml_file("f1.yaml",*L[0]); } catch(const std::exception&) { e=true; } Rec("Save").i("l",1).t("file","f1.yaml").b("can",true).b("err",e).raw("dump",all());
    e=false; try { ekat::parse_yaml_file("f1.yaml",*L[1]); } catch(const std::exception&) { e=true; } Rec("Load").i("l",2).t("file","f1.yaml").b("err",e).raw("dump",all()); } }
static void files() {
  DIG=13; vectors();
  DIG=13; int H=vp::thorough()?3000:350; int nv=0;
  for(int h=0;h<H;++h) { L[0].reset(new ParameterList("p")); L[1].reset(new ParameterList("q")); L[2].reset(new ParameterList()); unlink("f1.yaml"); unlink("f2.yaml"); bool have[3]={0,0,0};
    Rec("New").raw("dump",all());
    int T=g.range(6,26);
    for(int t=0;t<T;++t) { int l=g.below(3); vector<string> path; int d=g.below(4); for(int i=0;i<d;++i) path.push_back(g.pick(vector<string>{"a","b","s: t","1"}));
      int m=g.below(20);
      if(m<12) { string k=g.below(12)==0?"n"+std::to_string(g.below(60)):g.below(6)?g.pick(vector<string>{"a","b","c","d","e f"}):rstr(); if(k.size()>900) k="z"; auto& p=at(l,path); string ty; vector<string> v; int n=g.below(5); if(g.below(15)==0) n=g.range(15,40); if(g.below(60)==0) n=g.pick(vector<int>{99,100,127,128,129,255,256,257,300});
        switch(g.below(g.below(25)?9:12)) {
          case 0: { int x=g.below(4)?g.range(-99,99):g.pick(vector<int>{2147483647,-2147483647-1}); p.set(k,x); ty="i"; v={std::to_string(x)}; break; }
          case 1: { double x=rnd(); p.set(k,x); ty="d"; v={num(x)}; break; }
          case 2: { bool x=g.below(2); p.set(k,x); ty="b"; v={x?"true":"false"}; break; }
          case 3: { string x=rstr(); p.set(k,x); ty="s"; v={x}; break; }
          case 4: { vector<int> x; for(int i=0;i<n;++i) { x.push_back(g.range(-99,9999)); v.push_back(std::to_string(x.back())); } p.set(k,x); ty="vi"; break; }
          case 5: { vector<double> x; for(int i=0;i<n;++i) { x.push_back(rnd()); v.push_back(num(x.back())); } p.set(k,x); ty="vd"; break; }
          case 6: { vector<char> x; for(int i=0;i<n;++i) { x.push_back(g.below(2)); v.push_back(x.back()?"true":"false"); } p.set(k,x); ty="vb"; break; }
          case 7: { vector<string> x; for(int i=0;i<n;++i) { x.push_back(rstr()); v.push_back(x.back()); } p.set(k,x); ty="vs"; break; }
          case 8: { p.set(k,ParameterList::EmptySeq()); ty="es"; break; }
          case 9: { p.set<float>(k,1.5f); ty="f"; v={num(1.5f)}; break; }
          case 10: { p.set<long>(k,7); ty="l"; v={"7"}; break; }
          default: { p.set(k,vector<bool>{true}); ty="vB"; } }
        Rec("Set").i("l",l+1).sa("path",path).t("key",k).t("ty",ty).ca("v",v).raw("dump",all()).b("err",false); ++nv; }
      else if(m<13) { at(l,path); Rec("Sub").i("l",l+1).sa("path",path).b("err",false).raw("dump",all()); }
      else if(m<17) { int f=g.range(1,2); bool can=g.below(12)!=0; string fn=can?"f"+std::to_string(f)+".yaml":g.pick(vector<string>{"no/such/f.yaml","/dev/full"}); bool e=false; try { ekat::write_yaml_file(fn,*L[l]); } catch(const std::exception&) { e=true; } if(can) have[f]=!e; if(can&&e) unlink(fn.c_str());
        Rec("Save").i("l",l+1).t("file",can?fn:"?").b("can",can).b("err",e).raw("dump",all()); }
      else { int f=g.range(1,2); string fn="f"+std::to_string(f)+".yaml"; bool e=false; try { ekat::parse_yaml_file(fn,*L[l]); } catch(const std::exception&) { e=true; } Rec("Load").i("l",l+1).t("file",fn).b("err",e).raw("dump",all()); } } }
}
int main(int, char** v) { if(string(v[1])=="parse") docs(); else files(); return 0; }
