// Shared by all drivers: ndjson trace records, seeded choice, script input.
#ifndef VP_HPP
#define VP_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cmath>
namespace vp {
inline FILE* out() {
  static FILE* f = nullptr;
  if (!f) {
    const char* p = getenv("VP_TRACE");
    f = p ? fopen(p, "a") : stdout;
    if (!f) { perror("VP_TRACE"); exit(3); }
  }
  return f;
}
inline std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c=='"' || c=='\\') { r+='\\'; r+=c; }
    else if (c<32 || c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; }
    else r+=c;
  }
  return r;
}
struct Rec {
  std::string s;
  bool done=false;
  explicit Rec(const std::string& ev) { s="{\"event\":\""+ev+"\""; }
  Rec& i(const std::string& k, long long v) { s+=",\""+k+"\":"+std::to_string(v); return *this; }
  Rec& b(const std::string& k, bool v) { s+=",\""+k+"\":"+(v?"true":"false"); return *this; }
  Rec& t(const std::string& k, const std::string& v) { s+=",\""+k+"\":\""+esc(v)+"\""; return *this; }
  Rec& raw(const std::string& k, const std::string& v) { s+=",\""+k+"\":"+v; return *this; }
  // text as a sequence of character codes
  static std::string codes(const std::string& v) {
    std::string r="["; bool f=true;
    for (unsigned char c : v) { if(!f) r+=","; f=false; r+=std::to_string((int)c); }
    return r+"]";
  }
  Rec& c(const std::string& k, const std::string& v) { return raw(k,codes(v)); }
  template<class V> static std::string arr(const V& v) {
    std::string r="["; bool f=true;
    for (const auto& x : v) { if(!f) r+=","; f=false; r+=std::to_string((long long)x); }
    return r+"]";
  }
  template<class V> Rec& a(const std::string& k, const V& v) { return raw(k,arr(v)); }
  template<class V> static std::string sarr(const V& v) {
    std::string r="["; bool f=true;
    for (const auto& x : v) { if(!f) r+=","; f=false; r+="\""+esc(x)+"\""; }
    return r+"]";
  }
  template<class V> static std::string carr(const V& v) {
    std::string r="["; bool f=true;
    for (const auto& x : v) { if(!f) r+=","; f=false; r+=codes(x); }
    return r+"]";
  }
  template<class V> Rec& sa(const std::string& k, const V& v) { return raw(k,sarr(v)); }
  template<class V> Rec& ca(const std::string& k, const V& v) { return raw(k,carr(v)); }
  void emit() { if(done) return; done=true; s+="}\n"; fputs(s.c_str(),out()); fflush(out()); }
  ~Rec() { emit(); }
};
struct Rng {
  uint64_t x;
  explicit Rng(uint64_t seed=1) : x(seed*0x9E3779B97F4A7C15ull+0x1234567) {}
  uint64_t next() { uint64_t z=(x+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  int below(int n) { return n<=0?0:(int)(next()%(uint64_t)n); }
  int range(int a,int b) { return a+below(b-a+1); }
  template<class V> const typename V::value_type& pick(const V& v) { return v[below((int)v.size())]; }
};
inline uint64_t seed() { const char* e=getenv("VERIF_SEED"); return e?strtoull(e,nullptr,10):1; }
inline bool thorough() { const char* e=getenv("VERIF_TIER"); return e && std::string(e)=="thorough"; }
// scripts: one operation per line, blank separated words
inline std::vector<std::vector<std::string>> script(const std::string& path) {
  std::vector<std::vector<std::string>> r; std::ifstream f(path); std::string l;
  if(!f) { fprintf(stderr,"no script %s\n",path.c_str()); exit(3); }
  while (std::getline(f,l)) { std::istringstream is(l); std::vector<std::string> w; std::string x; while(is>>x) w.push_back(x); if(!w.empty()) r.push_back(w); }
  return r;
}
inline int num(const std::string& s) { return atoi(s.c_str()); }
}
#endif
