// C12 / C13: multi-index sets, multi-indices, limiters and fixed sets against plain definitions.
#include "vh.h"
#include <Kokkos_Core.hpp>
#include <algorithm>
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
using namespace vh; using namespace mpart;
typedef std::vector<unsigned int> V;
typedef std::function<bool(V const&)> Lim;

static std::string vs(V const& v){ std::ostringstream o; o<<"("; for(size_t i=0;i<v.size();++i){ if(i)o<<","; o<<v[i]; } o<<")"; return o.str(); }
static std::string vss(std::vector<V> const& v){ std::ostringstream o; for(auto&x:v) o<<vs(x); return o.str(); }
static unsigned sum(V const& v){ unsigned s=0; for(auto x:v) s+=x; return s; }

// a limiter described twice: once with the library's classes, once by its documented definition
struct LimPair { MultiIndexSet::LimiterType lib; Lim def; std::string name; bool closed; Lim nearBoundary; };
static LimPair genLimiter(Rng& r,unsigned d,int depth=0){
  LimPair p; p.closed=true; p.nearBoundary=[](V const&){return false;};
  int k=r.i(0,depth<2?8:5);
  if(k==0){ p.lib=MultiIndexLimiter::None(); p.def=[](V const&){return true;}; p.name="none"; }
  else if(k==1){ unsigned m=r.i(0,6); p.lib=MultiIndexLimiter::TotalOrder(m); p.def=[m](V const& v){return sum(v)<=m;}; p.name="to"+std::to_string(m); }
  else if(k==2){ unsigned m=r.i(0,4); V md(d,m);
    if(r.b()){ for(auto&x:md) x=r.i(0,5); p.lib=MultiIndexLimiter::MaxDegree(md);} else p.lib=MultiIndexLimiter::MaxDegree(m,d);
    p.def=[md](V const& v){ if(v.size()!=md.size()) return false; for(size_t i=0;i<v.size();++i) if(v[i]>md[i]) return false; return true;}; p.name="md"+vs(md); }
  else if(k==3){ unsigned lo=r.i(0,d), ln=r.i(0,d-lo); p.lib=MultiIndexLimiter::Dimension(lo,ln);
    p.def=[lo,ln](V const& v){ for(size_t i=0;i<v.size();++i) if((i<lo||i>=lo+ln)&&v[i]) return false; return true;}; p.name="dim"+std::to_string(lo)+"+"+std::to_string(ln); }
  else if(k==4){ std::vector<double> w(d); for(auto&x:w) x=r.pick({0.0,0.1,0.3,0.5,0.7,0.9,1.0}); double e=r.pick({0.01,0.05,0.2,0.5,0.8}); p.lib=MultiIndexLimiter::Anisotropic(w,e);
    auto prod=[w](V const& v){ double q=1; for(size_t i=0;i<v.size();++i) for(unsigned j=0;j<v[i];++j) q*=w[i]; return q;};
    p.def=[prod,w,e](V const& v){ return v.size()==w.size() && prod(v)>=e;}; p.nearBoundary=[prod,e](V const& v){ return std::fabs(prod(v)-e)<1e-9;}; p.name="an"+vstr(w)+"e"+num(e); }
  else if(k==5){ unsigned a=r.i(0,int(d)-1), m=r.i(0,3); auto f=[a,m](V const& v){ return v[a]<=m || sum(v)==v[a]; }; p.def=f; p.lib=[f](MultiIndex const& mi){ return f(mi.Vector()); }; p.name="custom"+std::to_string(a)+"/"+std::to_string(m); p.closed=true; }
  else { LimPair a=genLimiter(r,d,depth+1), b=genLimiter(r,d,depth+1); auto na=a.nearBoundary, nb=b.nearBoundary; p.nearBoundary=[na,nb](V const& v){return na(v)||nb(v);};
    auto fa=a.def, fb=b.def;
    if(k==6){ p.lib=MultiIndexLimiter::And(a.lib,b.lib); p.def=[fa,fb](V const& v){return fa(v)&&fb(v);}; p.name="and("+a.name+","+b.name+")"; p.closed=a.closed&&b.closed; }
    else if(k==7){ p.lib=MultiIndexLimiter::Or(a.lib,b.lib); p.def=[fa,fb](V const& v){return fa(v)||fb(v);}; p.name="or("+a.name+","+b.name+")"; p.closed=a.closed&&b.closed; }
    else { p.lib=MultiIndexLimiter::Xor(a.lib,b.lib); p.def=[fa,fb](V const& v){return fa(v)!=fb(v);}; p.name="xor("+a.name+","+b.name+")"; p.closed=false; } }
  return p;
}
static std::vector<V> fwd(V v){ std::vector<V> o; for(auto&x:v){ ++x; o.push_back(v); --x;} return o; }
static std::vector<V> bwd(V v){ std::vector<V> o; for(auto&x:v) if(x){ --x; o.push_back(v); ++x;} return o; }

struct Model {
  unsigned d; Lim lim; std::vector<V> act; std::map<V,int> pos;
  bool has(V const& v) const { return pos.count(v)>0; }
  void add(V const& v){ if(!has(v)){ pos[v]=act.size(); act.push_back(v);} }
  bool allBwd(V const& v) const { for(auto&b:bwd(v)) if(!has(b)) return false; return true; }
  bool admissible(V const& v) const { return lim(v)&&(has(v)||allBwd(v)); }
  bool closed() const { for(auto&v:act) if(!allBwd(v)) return false; return true; }
  std::set<V> margin(bool reduced) const { std::set<V> o; for(auto&a:act) for(auto&f:fwd(a)) if(!has(f)&&lim(f)&&(!reduced||allBwd(f))) o.insert(f); return o; }
  bool expandable(V const& v) const { for(auto&f:fwd(v)) if(!has(f)&&admissible(f)) return true; return false; }
};

// compare every public query with the model
static void compare(Ctx& c,MultiIndexSet& s,Model const& m,std::string const& op){
  auto key=[&](std::string k){ return "mset-"+k; };
  auto where=[&]{ return " after "+op+"; model "+vss(m.act); };
  c.count("state_checks");
  if(!c.check(s.Size()==m.act.size(),key("size"),[&]{return "Size="+std::to_string(s.Size())+" expected "+std::to_string(m.act.size())+where();})) return;
  V mo(m.d,0);
  for(size_t i=0;i<m.act.size();++i){
    V v=s.IndexToMulti(i).Vector();
    if(!c.check(v==m.act[i],key("order"),[&]{return "index "+std::to_string(i)+" is "+vs(v)+" expected "+vs(m.act[i])+where();})) return;
    c.check(s[i].Vector()==v && s.at(i)==MultiIndex(v),key("access"),"operator[]/at differ from IndexToMulti");
    c.check(s.MultiToIndex(MultiIndex(v))==int(i),key("lookup"),[&]{return "MultiToIndex"+vs(v)+"="+std::to_string(s.MultiToIndex(MultiIndex(v)))+" expected "+std::to_string(i)+where();});
    c.check(m.lim(v),key("limiter"),[&]{return "active term "+vs(v)+" violates limiter"+where();});
    for(unsigned k=0;k<m.d;++k) mo[k]=std::max(mo[k],v[k]);
  }
  c.check(s.MaxOrders()==mo,key("maxorders"),[&]{return "MaxOrders "+vs(s.MaxOrders())+" expected "+vs(mo)+where();});
  c.check(s.Length()==m.d,key("length"),"Length");
  // candidates: active, forward neighbours, backward neighbours, a few random
  std::set<V> cand; for(auto&a:m.act){ cand.insert(a); for(auto&f:fwd(a)) cand.insert(f); for(auto&b:bwd(a)) cand.insert(b);}
  for(int i=0;i<4;++i){ V v(m.d); for(auto&x:v) x=c.rng.i(0,6); cand.insert(v); }
  for(auto&v:cand){ MultiIndex mi(v);
    c.check(s.IsActive(mi)==m.has(v),key("isactive"),[&]{return "IsActive"+vs(v)+where();});
    if(!m.has(v)) c.check(s.MultiToIndex(mi)<0,key("lookup"),[&]{return "MultiToIndex of inactive "+vs(v)+" is "+std::to_string(s.MultiToIndex(mi))+where();});
    if(sum(v)>0) c.check(s.IsAdmissible(mi)==m.admissible(v),key("admissible"),[&]{return "IsAdmissible"+vs(v)+"="+std::to_string(s.IsAdmissible(mi))+where();});
  }
  auto toset=[&](std::vector<MultiIndex> const& a,bool& dup){ std::set<V> o; dup=false; for(auto&x:a){ V v=x.Vector(); if(sum(v)==0) continue; if(!o.insert(v).second) dup=true; } return o; };
  bool dup; auto show=[&](std::set<V> const& q){ return vss(std::vector<V>(q.begin(),q.end())); };
  { auto g=toset(s.Margin(),dup); auto e=m.margin(false); c.check(g==e&&!dup,key("margin"),[&]{return "Margin "+show(g)+" expected "+show(e)+where();}); }
  { auto g=toset(s.ReducedMargin(),dup); auto e=m.margin(true); c.check(g==e&&!dup,key("reducedmargin"),[&]{return "ReducedMargin "+show(g)+" expected "+show(e)+where();}); }
  V fr,sf;
  for(size_t i=0;i<m.act.size();++i){
    bool ex=m.expandable(m.act[i]); if(ex) fr.push_back(i);
    c.check(s.IsExpandable(i)==ex,key("expandable"),[&]{return "IsExpandable "+vs(m.act[i])+where();});
    unsigned na=0,nf=0; std::set<V> af; for(auto&f:fwd(m.act[i])){ if(m.has(f)) na++; if(m.lim(f)) nf++; if(m.admissible(f)) af.insert(f);} 
    if(ex&&na==0) sf.push_back(i);
    c.check(s.NumActiveForward(i)==na,key("numactiveforward"),[&]{return "NumActiveForward "+vs(m.act[i])+where();});
    c.check(s.NumForward(i)==nf,key("numforward"),[&]{return "NumForward "+vs(m.act[i])+"="+std::to_string(s.NumForward(i))+" expected "+std::to_string(nf)+where();});
    auto g=toset(s.AdmissibleForwardNeighbors(i),dup); c.check(g==af&&!dup,key("admissibleforward"),[&]{return "AdmissibleForwardNeighbors "+vs(m.act[i])+where();});
    std::multiset<unsigned> bg,be; for(auto x: s.BackwardNeighbors(i)) if(x!=unsigned(-1)) bg.insert(x); for(auto&b:bwd(m.act[i])) if(m.has(b)) be.insert(m.pos.at(b));
    c.check(bg==be,key("backward"),[&]{return "BackwardNeighbors "+vs(m.act[i])+where();});
    std::multiset<unsigned> bm; for(auto x: s.BackwardNeighbors(MultiIndex(m.act[i]))) if(x!=unsigned(-1)) bm.insert(x);
    c.check(bm==be,key("backward"),[&]{return "BackwardNeighbors(multi) "+vs(m.act[i])+where();});
  }
  c.check(s.Frontier()==fr,key("frontier"),[&]{return "Frontier "+vs(s.Frontier())+" expected "+vs(fr)+where();});
  c.check(s.StrictFrontier()==sf,key("strictfrontier"),[&]{return "StrictFrontier "+vs(s.StrictFrontier())+" expected "+vs(sf)+where();});
  { V b(m.d); for(auto&x:b) x=c.rng.i(0,6); auto g=s.FilterBounded(MultiIndex(b)); bool ok=g.size()==m.act.size(); for(size_t i=0;ok&&i<g.size();++i){ bool e=false; for(unsigned k=0;k<m.d;++k) e=e||m.act[i][k]>=b[k]; ok=(e==g[i]); }
    c.check(ok,key("filterbounded"),[&]{return "FilterBounded "+vs(b)+where();}); }
}

static void caseSet(Ctx& c){
  Rng& r=c.rng; unsigned d=r.pick({1,1,2,2,2,3,3,4,5}); LimPair L=genLimiter(r,d); 
  if(!L.closed && r.b(0.6)) L=genLimiter(r,d,2);
  Model m; m.d=d; m.lim=L.def; MultiIndexSet s(d,L.lib);
  bool anyNear=false; auto near=[&](V const& v){ return L.nearBoundary(v); };
  int nops=r.i(3, c.thorough?26:14); std::string trace="d="+std::to_string(d)+" lim="+L.name; bool closedOnly=r.b(0.6);
  c.describe("set "+trace+" closedOnly="+std::to_string(closedOnly)+" ops="+std::to_string(nops));
  int maxTerm=d>=4?60:90;
  // initial contents
  int init=r.i(0,3);
  std::string op="create";
  auto fill=[&](bool total,unsigned p){ // definition of the factory sets in the documented nesting order
    V v(d,0); std::function<void(unsigned,unsigned)> rec=[&](unsigned k,unsigned used){ unsigned top= total? p-used:p; for(unsigned x=0;x<=top;++x){ v[k]=x; if(k+1==d){ if(m.lim(v)) m.add(v);} else rec(k+1,used+x);} v[k]=0; }; rec(0,0); };
  if(init==1){ unsigned p=r.i(0,d<=2?4:2); s=MultiIndexSet::CreateTotalOrder(d,p,L.lib); fill(true,p); op="TotalOrder"+std::to_string(p); }
  else if(init==2){ unsigned p=r.i(0,d<=2?3:(d<=3?2:1)); s=MultiIndexSet::CreateTensorProduct(d,p,L.lib); fill(false,p); op="Tensor"+std::to_string(p); }
  else if(init==3){ V z(d,0); if(L.def(z)&&!near(z)){ s+=MultiIndex(z); m.add(z);} }
  for(auto&a:m.act) if(near(a)) anyNear=true; for(auto&a:m.margin(false)) if(near(a)) anyNear=true;
  if(anyNear){ c.count("skipped_near_boundary"); return; }
  compare(c,s,m,op);
  bool reduced=m.closed();
  std::vector<std::pair<MultiIndexSet,Model>> snaps; 
  for(int k=0;k<nops && c.failsThisCase==0;++k){
    bool wasClosed=m.closed();
    std::vector<V> oldAct=m.act;
    int o=r.i(0,11); if(m.act.size()>size_t(maxTerm)) o=r.pick({7,8,9,10});
    auto rnd=[&]{ V v(d); for(auto&x:v) x=r.i(0,d>3?2:4); return v; };
    if(o<=1){ V v=rnd(); if(closedOnly){ auto mg=m.margin(true); if(mg.empty()) v=V(d,0); else { auto it=mg.begin(); std::advance(it,r.i(0,mg.size()-1)); v=*it; } }
      op="AddActive"+vs(v); if(near(v)) continue; int e; if(m.has(v)) e=m.pos[v]; else if(m.lim(v)){ m.add(v); e=m.pos[v]; } else e=-1;
      if(o==0){ int g=s.AddActive(MultiIndex(v)); c.check(g==e,"mset-addactive",[&]{return op+" returned "+std::to_string(g)+" expected "+std::to_string(e);}); } else s+=MultiIndex(v); c.count("op_add"); }
    else if(o==2 && !m.act.empty()){ unsigned i=r.i(0,m.act.size()-1); op="Expand"+vs(m.act[i]); std::set<V> e; for(auto&f:fwd(m.act[i])) if(!m.has(f)&&m.admissible(f)) e.insert(f);
      auto g=s.Expand(i); std::set<V> gs; bool ok=true; for(size_t q=0;q<g.size();++q){ if(g[q]!=oldAct.size()+q||g[q]>=s.Size()) ok=false; else { V v=s.IndexToMulti(g[q]).Vector(); gs.insert(v); m.add(v);} }
      c.check(ok&&gs==e,"mset-expand",[&]{return op+" returned "+vs(g)+" expected terms "+vss(std::vector<V>(e.begin(),e.end()))+" model "+vss(oldAct);}); c.count("op_expand"); }
    else if(o==3 && !m.act.empty()){ op="ExpandAll"; std::set<V> e=m.margin(true);
      if(m.act.size()+e.size()>160) continue;
      auto g=s.Expand(); std::set<V> gs; std::vector<V> nw; bool ok=true; for(auto q:g){ if(q>=s.Size()||q<oldAct.size()){ ok=false; continue;} V v=s.IndexToMulti(q).Vector(); if(!gs.insert(v).second) ok=false; }
      for(size_t q=oldAct.size();q<s.Size();++q) m.add(s.IndexToMulti(q).Vector());
      c.check(ok&&gs==e&&s.Size()==oldAct.size()+e.size(),"mset-expandall",[&]{return op+" returned "+vs(g)+" expected terms "+vss(std::vector<V>(e.begin(),e.end()))+" model "+vss(oldAct);}); c.count("op_expandall"); }
    else if((o==4||o==5)){ // forced operations
      std::vector<V> targets; V v; 
      if(o==4){ if(m.act.empty()) continue; unsigned i=r.i(0,m.act.size()-1); v=m.act[i]; op="ForciblyExpand"+vs(v); for(auto&f:fwd(v)) if(m.lim(f)) targets.push_back(f); }
      else { v=rnd(); if(r.b(0.2)) for(auto&x:v) x+=r.i(0,3); if(!m.lim(v)||near(v)) continue; op="ForciblyActivate"+vs(v); targets={v}; }
      std::set<V> e; std::function<void(V const&)> act=[&](V const& t){ if(m.has(t)||e.count(t)) return; e.insert(t); for(auto&b:bwd(t)) if(m.lim(b)) act(b); };
      for(auto&t:targets) act(t);
      if(e.size()+m.act.size()>160) continue;
      std::vector<unsigned> g; if(o==4) g=s.ForciblyExpand(m.pos[v]); else g=s.ForciblyActivate(MultiIndex(v));
      std::set<V> gs; bool ok=true; for(auto q:g){ if(q>=s.Size()||q<oldAct.size()){ ok=false; continue;} if(!gs.insert(s.IndexToMulti(q).Vector()).second) ok=false; }
      for(size_t q=oldAct.size();q<s.Size();++q) m.add(s.IndexToMulti(q).Vector());
      c.check(ok&&gs==e&&s.Size()==oldAct.size()+e.size(),"mset-forced",[&]{return op+" returned "+vs(g)+" expected terms "+vss(std::vector<V>(e.begin(),e.end()))+" model "+vss(oldAct);});
      if(wasClosed&&L.closed) c.check(m.closed(),"mset-closed",[&]{return op+" left the set not downward closed";}); c.count("op_forced"); }
    else if(o==6){ // union with another set
      LimPair L2=genLimiter(r,d,1); MultiIndexSet s2(d,L2.lib); Model m2; m2.d=d; m2.lim=L2.def; int n=r.i(0,8);
      if(closedOnly){ unsigned p=r.i(0,2); s2=MultiIndexSet::CreateTotalOrder(d,p,L2.lib); for(unsigned i=0;i<s2.Size();++i) m2.add(s2.IndexToMulti(i).Vector()); }
      else for(int i=0;i<n;++i){ V v=rnd(); if(L2.def(v)&&!L2.nearBoundary(v)){ s2+=MultiIndex(v); m2.add(v);} }
      bool bad=false; std::set<V> e; for(auto&a:m2.act){ if(near(a)) bad=true; if(m.lim(a)&&!m.has(a)) e.insert(a);} if(bad) continue;
      op="Union "+vss(m2.act);
      int how=r.i(0,2); unsigned n0=s.Size(), ret=e.size(); 
      if(how==0) ret=s.Union(s2); else if(how==1) s+=s2; else { MultiIndexSet t=s+s2; s=t; }
      std::set<V> gs; for(size_t q=oldAct.size();q<s.Size();++q){ V v=s.IndexToMulti(q).Vector(); gs.insert(v); m.add(v);} 
      c.check(gs==e&&ret==e.size()&&s.Size()==n0+e.size(),"mset-union",[&]{return op+" returned "+std::to_string(ret)+" added "+vss(std::vector<V>(gs.begin(),gs.end()))+" expected "+vss(std::vector<V>(e.begin(),e.end()));}); c.count("op_union"); }
    else if(o==7||o==8){ // change the limiter
      LimPair L2=genLimiter(r,d); bool ok=true,bad=false; for(auto&a:m.act){ if(!L2.def(a)) ok=false; if(L2.nearBoundary(a)) bad=true; for(auto&f:fwd(a)) if(L2.nearBoundary(f)) bad=true; } if(bad) continue;
      op="SetLimiter "+L2.name; bool threw=false; try{ s.SetLimiter(L2.lib); } catch(std::invalid_argument const&){ threw=true; }
      c.check(threw==!ok,"mset-setlimiter-throw",[&]{return op+(threw?" threw":" did not throw")+" model "+vss(m.act);});
      if(!threw){ L=L2; m.lim=L2.def; c.count("op_setlimiter"); } else { op+=" (rejected)"; c.count("op_setlimiter_rejected"); } }
    else if(o==9){ // copies are independent
      op="copy"; if(r.b()){ MultiIndexSet t(s); Model mt=m; snaps.push_back({t,mt}); } else { MultiIndexSet t(d); if(r.b()) t+=MultiIndex(V(d,3)); t=s; if(r.b()){ MultiIndexSet u=t; s=u; } Model mt=m; snaps.push_back({t,mt}); } c.count("op_copy"); }
    else if(o==10){ if(m.act.empty()) continue; // activate a reduced-margin member through the checked entry point
      auto mg=m.margin(true); if(mg.empty()) continue; auto it=mg.begin(); std::advance(it,r.i(0,mg.size()-1)); V v=*it; op="Activate"+vs(v); s.Activate(MultiIndex(v)); m.add(v); c.count("op_activate"); }
    else { V v=rnd(); bool thr=false; try{ s.Expand(s.Size()+r.i(0,3)); } catch(std::out_of_range const&){ thr=true; } op="Expand(out of range)"; c.check(thr,"mset-expand-range","Expand out of range did not throw"); }
    bool nb=false; for(auto&a:m.margin(false)) if(near(a)) nb=true; if(nb){ c.count("skipped_near_boundary"); return; }
    trace+=";"+op; c.describe("set "+trace);
    compare(c,s,m,op);
    c.cover("s"+L.name+vss(m.act));
  }
  for(auto&p:snaps) compare(c,p.first,p.second,"later changes to the original");
  // the drawing of a two-dimensional downward-closed set marks active, reduced-margin and margin terms
  if(d==2 && c.failsThisCase==0 && m.closed() && !m.act.empty()){
    MultiIndexSet t(d,L.lib); for(auto&a:m.act) t+=MultiIndex(a);
    if(m.closed()){ std::ostringstream os; t.Visualize(os); std::vector<std::string> rows; std::istringstream is(os.str()); std::string ln; while(std::getline(is,ln)) rows.push_back(ln);
      auto mo=t.MaxOrders(); auto mg=m.margin(false), rm=m.margin(true); bool ok=rows.size()>=mo[1]+2; std::string bad;
      for(unsigned q=0;ok&&q<=mo[1]+1;++q) for(unsigned j=0;j<=mo[0]+1;++j){ V v{j,mo[1]+1-q}; char e=m.has(v)?'a':rm.count(v)?'r':mg.count(v)?'m':' '; size_t p=5+3*j; char g=p<rows[q].size()?rows[q][p]:'?'; if(g!=e){ ok=false; bad=vs(v)+" '"+g+"' expected '"+e+"'"; } }
      c.check(ok,"mset-visualize",[&]{return "Visualize "+bad+" set "+vss(m.act);}); c.count("visualized"); } }
  (void)reduced;
}

static void caseDefs(Ctx& c){
  Rng& r=c.rng; int kind=r.i(0,3);
  if(kind==0){ // a single multi-index through a random update history
    unsigned d=r.i(1,9); V v(d); for(auto&x:v) x=r.b(0.5)?0:r.i(0,r.b(0.1)?1000000:7);
    c.describe("multiindex d="+std::to_string(d)+" v="+vs(v));
    auto build=[&](V const& v){ switch(r.i(0,2)){ case 0: return MultiIndex(v); case 1: return MultiIndex(v.data(),v.size()); default: { Eigen::VectorXi e(v.size()); for(size_t i=0;i<v.size();++i) e(i)=v[i]; return MultiIndex(e);} } };
    MultiIndex mi=build(v);
    if(r.b(0.15)){ unsigned val=r.i(0,5); v.assign(d,val); mi=MultiIndex(d,val); }
    auto cmp=[&](std::string op){ unsigned s=0,mx=0,nz=0; for(auto x:v){ s+=x; mx=std::max(mx,x); nz+=x>0; }
      c.check(mi.Vector()==v,"mi-vector",[&]{return op+": Vector "+vs(mi.Vector())+" expected "+vs(v);});
      c.check(mi.Sum()==s&&mi.Max()==mx&&mi.NumNz()==nz&&mi.Length()==v.size(),"mi-stats",[&]{return op+": Sum/Max/NumNz wrong for "+vs(v)+" got "+std::to_string(mi.Sum())+" "+std::to_string(mi.Max())+" "+std::to_string(mi.NumNz());});
      for(unsigned i=0;i<d;++i) c.check(mi.Get(i)==v[i],"mi-get",[&]{return op+": Get("+std::to_string(i)+") wrong for "+vs(v);});
      std::string str; for(unsigned i=0;i<d;++i){ if(i) str+=" "; str+=std::to_string(v[i]); } std::ostringstream os; os<<mi; c.check(mi.String()==str&&os.str()==str,"mi-string",[&]{return op+": String '"+mi.String()+"'";});
      MultiIndex fresh(v); c.check(mi==fresh&&!(mi!=fresh)&&!(mi<fresh)&&!(mi>fresh)&&mi<=fresh&&mi>=fresh,"mi-equal",[&]{return op+": not equal to a freshly built "+vs(v);}); };
    cmp("create");
    for(int k=r.i(0,12);k-->0;){ unsigned i=r.i(0,d+2), val=r.b(0.35)?0:r.i(0,9); bool thr=false, ret=false; try{ ret=mi.Set(i,val);} catch(std::out_of_range const&){ thr=true; }
      c.check(thr==(i>=d),"mi-set-range",[&]{return "Set("+std::to_string(i)+") on length "+std::to_string(d)+(thr?" threw":" did not throw");});
      if(i<d){ bool old=v[i]>0; c.check(ret==old,"mi-set-ret",[&]{return "Set returned "+std::to_string(ret);}); v[i]=val; }
      thr=false; unsigned j=d+r.i(0,3); try{ mi.Get(j);} catch(std::out_of_range const&){ thr=true; } c.check(thr,"mi-get-range",[&]{return "Get("+std::to_string(j)+") on length "+std::to_string(d)+" did not throw";});
      if(i>=d && c.failsThisCase) return;
      cmp("set"); }
    c.cover("mi"+vs(v)); c.count("multiindices");
  } else if(kind==1){ // order relation over a pool
    int n=r.i(4,14); unsigned dm=r.i(1,4); std::vector<V> pool; for(int i=0;i<n;++i){ V v(r.b(0.8)?dm:r.i(1,4)); for(auto&x:v) x=r.i(0,3); pool.push_back(v);} 
    c.describe("order "+vss(pool));
    auto less=[](V const& a,V const& b){ if(a.size()!=b.size()) return a.size()<b.size(); if(sum(a)!=sum(b)) return sum(a)<sum(b); unsigned ma=0,mb=0; for(auto x:a) ma=std::max(ma,x); for(auto x:b) mb=std::max(mb,x); if(ma!=mb) return ma<mb; return std::lexicographical_compare(a.begin(),a.end(),b.begin(),b.end()); };
    for(auto&a:pool) for(auto&b:pool){ MultiIndex x(a),y(b); bool l=less(a,b), g=less(b,a), e=(a==b);
      c.check((x<y)==l&&(x>y)==g&&(x<=y)==!g&&(x>=y)==!l&&(x==y)==e&&(x!=y)==!e,"mi-compare",[&]{return "comparison of "+vs(a)+" and "+vs(b);});
      bool thr=false,any=false,exp=false; try{ any=x.AnyBounded(y);}catch(std::invalid_argument const&){thr=true;} 
      if(a.size()>b.size()) c.check(thr,"mi-anybounded-throw","AnyBounded with shorter bound did not throw"); else { for(size_t i=0;i<a.size();++i) exp=exp||a[i]>=b[i]; c.check(!thr&&any==exp,"mi-anybounded",[&]{return "AnyBounded "+vs(a)+" "+vs(b);}); } }
    for(int k=0;k<6;++k) c.cover("ord"+vs(r.pick(pool))+vs(r.pick(pool)));
    // default neighbourhood
    DefaultNeighborhood nb; for(auto&a:pool){ MultiIndex x(a); std::set<V> f,b; for(auto&q:nb.ForwardNeighbors(x)) f.insert(q.Vector()); for(auto&q:nb.BackwardNeighbors(x)) b.insert(q.Vector()); auto ef=fwd(a), eb=bwd(a);
      c.check(f==std::set<V>(ef.begin(),ef.end())&&b==std::set<V>(eb.begin(),eb.end()),"mi-neighbors",[&]{return "neighbours of "+vs(a);});
      for(auto&q:pool) if(q.size()==a.size()){ bool isf=std::find(ef.begin(),ef.end(),q)!=ef.end(), isb=std::find(eb.begin(),eb.end(),q)!=eb.end(); c.check(nb.IsForward(x,MultiIndex(q))==isf&&nb.IsBackward(x,MultiIndex(q))==isb,"mi-isforward",[&]{return "IsForward/IsBackward "+vs(a)+vs(q);}); } }
  } else if(kind==2){ // limiters, factory sets
    unsigned d=r.i(1,5); LimPair L=genLimiter(r,d); unsigned p=r.i(0,d<=2?8:(d<=3?5:3)); bool total=r.b(0.6); if(!total&&d>3) p=r.i(0,2);
    c.describe("factory d="+std::to_string(d)+" p="+std::to_string(p)+" total="+std::to_string(total)+" lim="+L.name);
    for(int k=0;k<60;++k){ V v(d); for(auto&x:v) x=r.b(0.3)?0:r.i(0,7); if(L.nearBoundary(v)) continue; c.check(bool(L.lib(MultiIndex(v)))==L.def(v),"limiter-value",[&]{return "limiter "+L.name+" on "+vs(v)+" gave "+std::to_string(L.lib(MultiIndex(v)));}); }
    for(int k=0;k<3;++k){ std::vector<double> w(r.i(1,4)); for(auto&x:w) x=r.u(-0.3,1.3); double e=r.u(-0.2,1.2); bool bad=!(e>0&&e<1); for(auto x:w) if(x<0||x>1) bad=true; bool thr=false; try{ MultiIndexLimiter::Anisotropic a(w,e);}catch(std::invalid_argument const&){thr=true;} c.check(thr==bad,"limiter-anisotropic-args",[&]{return "Anisotropic argument check "+vstr(w)+" eps "+num(e);}); }
    std::set<V> e; bool nb=false; { V v(d,0); std::function<void(unsigned,unsigned)> rec=[&](unsigned k,unsigned used){ for(unsigned x=0;x<=(total?p-used:p);++x){ v[k]=x; if(k+1==d){ if(L.nearBoundary(v)) nb=true; if(L.def(v)) e.insert(v);} else rec(k+1,used+x);} v[k]=0; }; rec(0,0); }
    if(nb) return;
    MultiIndexSet s= total? MultiIndexSet::CreateTotalOrder(d,p,L.lib): MultiIndexSet::CreateTensorProduct(d,p,L.lib);
    std::set<V> g; for(unsigned i=0;i<s.Size();++i) g.insert(s.IndexToMulti(i).Vector());
    c.check(g==e&&s.Size()==e.size(),"factory-terms",[&]{return "factory set has "+std::to_string(s.Size())+" terms, definition "+std::to_string(e.size());});
    c.cover("fac"+std::to_string(d)+","+std::to_string(p)+(total?"t":"x")+L.name); c.count("factory_sets");
  } else { // fixing a set
    unsigned d=r.i(1,6); std::vector<V> terms; std::set<V> seen; int n=r.i(1,25); 
    for(int i=0;i<n;++i){ V v(d); for(auto&x:v) x=r.b(0.55)?0:r.i(0,6); if(seen.insert(v).second) terms.push_back(v);} 
    c.describe("fixed d="+std::to_string(d)+" terms="+vss(terms));
    Eigen::MatrixXi M(terms.size(),d); for(size_t i=0;i<terms.size();++i) for(unsigned k=0;k<d;++k) M(i,k)=terms[i][k];
    MultiIndexSet s(M); V mx(d,0); for(auto&t:terms) for(unsigned k=0;k<d;++k) mx[k]=std::max(mx[k],t[k]);
    auto chk=[&](FixedMultiIndexSet<Kokkos::HostSpace> const& f,std::vector<V> const& terms,V const& mx,std::string nm){
      if(!c.check(f.Size()==terms.size()&&f.Length()==mx.size(),"fixed-size",[&]{return nm+": size "+std::to_string(f.Size())+" expected "+std::to_string(terms.size());})) return;
      auto md=f.MaxDegrees(); V g(md.extent(0)); for(size_t i=0;i<g.size();++i) g[i]=md(i); c.check(g==mx,"fixed-maxdegrees",[&]{return nm+": max degrees "+vs(g)+" expected "+vs(mx);});
      for(size_t i=0;i<terms.size();++i){ c.check(f.IndexToMulti(i)==terms[i],"fixed-terms",[&]{return nm+": term "+std::to_string(i)+" is "+vs(f.IndexToMulti(i))+" expected "+vs(terms[i]);});
        c.check(f.MultiToIndex(terms[i])==int(i),"fixed-lookup",[&]{return nm+": MultiToIndex"+vs(terms[i])+"="+std::to_string(f.MultiToIndex(terms[i]));}); 
        // the exposed compressed arrays describe the same term
        V w(mx.size(),0); for(unsigned q=f.nzStarts(i);q<f.nzStarts(i+1);++q) w[f.nzDims(q)]=f.nzOrders(q); c.check(w==terms[i],"fixed-arrays",[&]{return nm+": nzStarts/nzDims/nzOrders describe "+vs(w)+" for term "+std::to_string(i)+" = "+vs(terms[i]);}); }
      for(int k=0;k<6;++k){ V v(mx.size()); for(auto&x:v) x=r.b(0.5)?0:r.i(0,7); int e=-1; for(size_t i=0;i<terms.size();++i) if(terms[i]==v) e=i; int got=f.MultiToIndex(v); c.check(got==e,"fixed-lookup-missing",[&]{return nm+": MultiToIndex"+vs(v)+"="+std::to_string(got)+" expected "+std::to_string(e);}); } };
    chk(s.Fix(true),terms,mx,"compressed"); chk(s.Fix(false),terms,mx,"dense");
    { Kokkos::View<unsigned int*,Kokkos::HostSpace> o("o",terms.size()*d); for(size_t i=0;i<terms.size();++i) for(unsigned k=0;k<d;++k) o(i*d+k)=terms[i][k]; chk(FixedMultiIndexSet<Kokkos::HostSpace>(d,o),terms,mx,"dense-ctor"); }
    { auto f=s.Fix(r.b()); FixedMultiIndexSet<Kokkos::HostSpace> g=f.ToDevice<Kokkos::HostSpace>(); chk(g,terms,mx,"todevice"); }
    { unsigned dd=r.i(1,4), p=r.i(0,dd<=2?7:4); std::vector<V> t; V v(dd,0); std::function<void(unsigned,unsigned)> rec=[&](unsigned k,unsigned used){ for(unsigned x=0;x<=p-used;++x){ v[k]=x; if(k+1==dd) t.push_back(v); else rec(k+1,used+x);} v[k]=0; }; rec(0,0);
      FixedMultiIndexSet<Kokkos::HostSpace> f(dd,p); chk(f,t,V(dd,p),"total-order-ctor");
      // the compressed constructor's order must also match the adaptive factory
      MultiIndexSet a=MultiIndexSet::CreateTotalOrder(dd,p); bool ok=a.Size()==f.Size(); for(unsigned i=0;ok&&i<a.Size();++i) ok=a.IndexToMulti(i).Vector()==f.IndexToMulti(i); c.check(ok,"fixed-vs-factory","FixedMultiIndexSet(dim,order) and CreateTotalOrder disagree"); }
    c.cover("fix"+vss(terms)); c.count("fixed_sets");
  }
}
static Reg r1("C12",caseSet), r2("C13",caseDefs);
int main(int argc,char** argv){ Kokkos::initialize(argc,argv); int rc=run_main(argc,argv); Kokkos::finalize(); return rc; }
