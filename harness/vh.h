// Small case-driver shared by all harnesses: deterministic per-case PRNG, a crash-safe case log,
// failure records with stable keys, and counters of what was actually observed.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <memory>
#include <sstream>
#include <iomanip>
#include <fcntl.h>
#include <unistd.h>
#include <stdexcept>
#include <limits>
#include <iostream>

namespace vh {

inline uint64_t mix(uint64_t z){ z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z>>30))*0xbf58476d1ce4e5b9ULL; z = (z ^ (z>>27))*0x94d049bb133111ebULL; return z ^ (z>>31); }
inline uint64_t hstr(std::string const& s){ uint64_t h=1469598103934665603ULL; for(unsigned char c: s){ h^=c; h*=1099511628211ULL;} return h; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1): s(seed) {}
  uint64_t next(){ s += 0x9e3779b97f4a7c15ULL; uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
  // integer in [a,b]
  int i(int a,int b){ return a + int(next() % uint64_t(b-a+1)); }
  double u(){ return (next()>>11) * (1.0/9007199254740992.0); }
  double u(double a,double b){ return a+(b-a)*u(); }
  bool b(double p=0.5){ return u()<p; }
  double n(){ double a=u(), c=u(); if(a<1e-300) a=1e-300; return std::sqrt(-2*std::log(a))*std::cos(2*M_PI*c); }
  template<class T> T const& pick(std::vector<T> const& v){ return v[next()%v.size()]; }
  template<class T> T pick(std::initializer_list<T> v){ return *(v.begin()+next()%v.size()); }
};

struct Ctx {
  Rng rng; uint64_t idx=0; bool thorough=false; bool verbose=false;
  int fd=-1;
  std::map<std::string,long> counts;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  long evals=0, fails=0, failsThisCase=0;
  std::map<std::string,long> perKey;
  std::string desc;
  static std::string esc(std::string const& s){ std::string o; for(char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if((unsigned char)c<32) o+=' '; else o+=c;} return o; }
  void raw(std::string const& s){ if(fd>=0){ std::string t=s+"\n"; ssize_t r=write(fd,t.data(),t.size()); (void)r; } }
  void describe(std::string const& d){ desc=d; raw("D "+std::to_string(idx)+" "+esc(d)); if(verbose) std::cerr<<"case "<<idx<<": "<<d<<"\n"; if(samples.size()<4) samples.push_back(d); }
  void count(std::string const& k,long n=1){ counts[k]+=n; }
  void cover(std::string const& k){ distinct.insert(hstr(k)); }
  // record one oracle evaluation
  void eval(long n=1){ evals+=n; }
  void fail(std::string const& key,std::string const& msg){
    fails++; failsThisCase++;
    if(failsThisCase<=6&&++perKey[key]<=100) raw("F {\"case\":"+std::to_string(idx)+",\"key\":\""+esc(key)+"\",\"msg\":\""+esc(msg.substr(0,1500))+"\",\"desc\":\""+esc(desc.substr(0,1500))+"\"}");
    if(verbose) std::cerr<<"FAIL "<<key<<": "<<msg<<"\n";
  }
  bool check(bool ok,std::string const& key,std::function<std::string()> msg){ evals++; if(!ok) fail(key,msg()); return ok; }
  bool check(bool ok,std::string const& key,const char* msg){ evals++; if(!ok) fail(key,msg); return ok; }
};

template<class T> std::string vstr(std::vector<T> const& v){ std::ostringstream o; o<<std::setprecision(17)<<"["; for(size_t i=0;i<v.size();++i){ if(i) o<<","; o<<v[i]; } o<<"]"; return o.str(); }
inline std::string num(double x){ char b[64]; snprintf(b,sizeof b,"%.17g",x); return b; }
struct S { std::shared_ptr<std::ostringstream> o=std::make_shared<std::ostringstream>(); S(){ *o<<std::setprecision(17);} template<class T> S& operator<<(T const& t){ *o<<t; return *this; } S& operator<<(S const& t){ *o<<t.o->str(); return *this; } operator std::string() const { return o->str(); } };

typedef std::function<void(Ctx&)> CaseFn;
inline std::map<std::string,CaseFn>& registry(){ static std::map<std::string,CaseFn> r; return r; }
struct Reg { Reg(std::string n,CaseFn f){ registry()[n]=f; } };
inline std::function<void()>& initFn(){ static std::function<void()> f; return f; }
inline std::function<void()>& doneFn(){ static std::function<void()> f; return f; }

inline volatile int& stopFlag(){ static volatile int f=0; return f; }   // set by SIGUSR1: finish the case at hand, then report
inline int run_main(int argc,char** argv){
  std::string prop,out; uint64_t seed=1; long from=0,to=1,stride=1; bool thorough=false,verbose=false;
  for(int i=1;i<argc;++i){ std::string a=argv[i]; auto v=[&]{ return std::string(argv[++i]); };
    if(a=="--prop") prop=v(); else if(a=="--seed") seed=std::stoull(v()); else if(a=="--from") from=std::stol(v());
    else if(a=="--to") to=std::stol(v()); else if(a=="--stride") stride=std::stol(v()); else if(a=="--out") out=v();
    else if(a=="--thorough") thorough=true; else if(a=="--verbose") verbose=true;
    else if(a=="--list"){ for(auto&p:registry()) std::cout<<p.first<<"\n"; return 0; } }
  auto it=registry().find(prop); if(it==registry().end()){ std::cerr<<"unknown prop "<<prop<<"\n"; return 3; }
  Ctx c; c.thorough=thorough; c.verbose=verbose;
  if(!out.empty()) c.fd=open(out.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644);
  if(initFn()) initFn()();
  stopFlag(); signal(SIGUSR1,[](int){ stopFlag()=1; });
  for(long k=from;k<to&&!stopFlag();k+=stride){
    c.idx=k; c.failsThisCase=0; c.desc=""; c.rng=Rng(mix(mix(seed)^hstr(prop)^mix(uint64_t(k)*0x2545F4914F6CDD1DULL)));
    c.raw("B "+std::to_string(k));
    try { it->second(c); }
    catch(std::exception const& e){ c.fail("exception:"+prop,std::string("unexpected exception: ")+e.what()); }
    c.raw("E "+std::to_string(k));
  }
  std::ostringstream o; o<<"S {\"evals\":"<<c.evals<<",\"fails\":"<<c.fails<<",\"distinct\":[";
  { bool first=true; size_t n=0; for(auto h: c.distinct){ if(n++>60000) break; if(!first) o<<","; first=false; o<<"\""<<std::hex<<h<<std::dec<<"\""; } }
  o<<"],\"counts\":{"; { bool first=true; for(auto&p:c.counts){ if(!first) o<<","; first=false; o<<"\""<<Ctx::esc(p.first)<<"\":"<<p.second; } }
  o<<"},\"samples\":["; for(size_t i=0;i<c.samples.size();++i){ if(i) o<<","; o<<"\""<<Ctx::esc(c.samples[i].substr(0,600))<<"\""; } o<<"]}";
  c.raw(o.str());
  if(doneFn()) doneFn()();
  if(verbose) std::cerr<<"evals="<<c.evals<<" fails="<<c.fails<<"\n";
  return c.fails? 1:0;
}
} // namespace vh
