// Coefficient-tree helpers and a guard against rectifier overflow during bracketing searches.
#pragma once
#include "maps.h"
using namespace maps;
static bool isComp(Node const& n){ return dynamic_cast<CompX const*>(&n)!=nullptr; }
static bool contains(Node const& n,std::function<bool(Node const&)> const& f){
  if(f(n)) return true;
  if(auto p=dynamic_cast<Tri const*>(&n)){ for(auto&b:p->b) if(contains(*b,f)) return true; }
  if(auto p=dynamic_cast<Compos const*>(&n)){ for(auto&b:p->b) if(contains(*b,f)) return true; }
  if(auto p=dynamic_cast<Summ const*>(&n)) return contains(*p->comp,f);
  return false; }
static bool hasProduct(Node const& n){ return contains(n,[](Node const& m){ if(dynamic_cast<Aff const*>(&m)) return true; if(auto s=dynamic_cast<Summ const*>(&m)) return bool(s->s.aff); return false; }); }
static std::vector<double> sub(std::vector<double> const& v,int a,int b){ return std::vector<double>(v.begin()+a,v.begin()+b); }

// ---------------------------------------------------------------- C02
// Inverts block by block, first checking that no rectifier argument gets near the overflow threshold anywhere the
// bracketing search could look.
static bool safeInv(Node const& n,std::vector<double> const& cf,std::vector<double> const& P,std::vector<double> const& rt,std::vector<double>& xr){
  auto isFin=[](std::vector<double> const& v){ for(double d:v) if(!(std::fabs(d)<1e10)) return false; return true; };
  if(auto q=dynamic_cast<CompX const*>(&n)){
    xr.assign(1,std::nan("")); bool nan=false; for(double d:P) if(std::isnan(d)) nan=true; if(std::isnan(rt[0])) nan=true; if(nan) return true; if(!isFin(P)||!isFin(rt)) return false;
    int sv=JN(); JN()=0; std::vector<double> p=P; p.push_back(0); auto xj=toJ(p); std::vector<J> cj(cf.begin(),cf.end()); auto pre=prefixProducts(q->f,xj); bool ok=true;
    for(int i=-28;i<=28&&ok;++i){ double v= i==0?0: (i<0?-1:1)*std::pow(2.0,0.5*(std::abs(i)-2)); double df=line(q->f,pre,cj.data(),J(v),false,true,false).df.v.v; if(!(std::fabs(df)<1e60)||(q->r==EXPR&&df>80)) ok=false; }
    JN()=sv; if(!ok) return false; }
  if(auto q=dynamic_cast<TriX const*>(&n)){ std::vector<double> full=P; int o=0,co=0; xr.clear();
    for(auto&b:q->b){ int pi=b->inDim-b->outDim; std::vector<double> x; if(!safeInv(*b,sub(cf,co,co+b->nc),sub(full,0,pi),sub(rt,o,o+b->outDim),x)) return false; full.insert(full.end(),x.begin(),x.end()); xr.insert(xr.end(),x.begin(),x.end()); o+=b->outDim; co+=b->nc; }
    return true; }
  if(auto q=dynamic_cast<ComposX const*>(&n)){ std::vector<double> t=rt; int co=n.nc; for(int l=int(q->b.size())-1;l>=0;--l){ auto&b=q->b[l]; co-=b->nc; std::vector<double> x; if(!safeInv(*b,sub(cf,co,co+b->nc),{},t,x)) return false; t=x; } xr=t; return true; }
  if(auto q=dynamic_cast<Summ const*>(&n)){ std::vector<double> xs=P; xs.push_back(0); int sv=JN(); JN()=0; auto s=q->summarize(toJ(xs)); JN()=sv; std::vector<double> t; for(size_t i=0;i+1<s.size();++i) t.push_back(s[i].v.v); return safeInv(*q->comp,cf,t,rt,xr); }
  MapP m=buildWith(n,cf); xr=run(m,n,INV,Cols(1,P),Cols(1,rt),Mode())[0]; return true; }
// at the images of the given points
static bool invSafe(Node const& n,std::vector<double> const& x,std::vector<double> const& cf){
  int sv=JN(); JN()=0; auto xj=toJ(x); std::vector<J> cj(cf.begin(),cf.end()),y; n.eval(xj,cj.data(),y); JN()=sv; std::vector<double> rt,xr; for(auto&v:y) rt.push_back(v.v.v);
  return safeInv(n,cf,sub(x,0,n.inDim-n.outDim),rt,xr); }
