// Random map specifications: a reference node (ref.h) together with a function that builds the same map with the library.
#pragma once
#include "ref.h"
#include <Kokkos_Core.hpp>
#include "MParT/MapFactory.h"
#include "MParT/ConditionalMapBase.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/AffineMap.h"
#include "MParT/AffineFunction.h"
#include "MParT/IdentityMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
#include "MParT/Initialization.h"

namespace gen {
using namespace ref;
typedef Kokkos::HostSpace HS;
typedef std::shared_ptr<mpart::ConditionalMapBase<HS>> MapP;
typedef std::shared_ptr<mpart::ParameterizedFunctionBase<HS>> FunP;
typedef mpart::StridedMatrix<const double,HS> CMat;
typedef mpart::StridedMatrix<double,HS> Mat;
typedef mpart::StridedVector<const double,HS> CVec;
typedef mpart::StridedVector<double,HS> Vec;

// how a component was generated, in addition to the reference data
struct CompX: Comp { mpart::MapOptions opts; bool dense=false; bool viaTotalOrder=false; };
struct TriX: Tri { bool moveCoeffs=false; int single=0; bool factory=false; int order=0; };
struct ComposX: Compos { bool moveCoeffs=false; };

inline Kokkos::View<double*,HS> kvec(std::vector<double> const& v,const char* n="v"){ Kokkos::View<double*,HS> k(std::string(n),v.size()); for(size_t i=0;i<v.size();++i) k(i)=v[i]; return k; }
inline Kokkos::View<double**,Kokkos::LayoutLeft,HS> kmat(std::vector<std::vector<double>> const& a){ size_t r=a.size(), c=r?a[0].size():0; Kokkos::View<double**,Kokkos::LayoutLeft,HS> k(std::string("m"),r,c); for(size_t i=0;i<r;++i) for(size_t j=0;j<c;++j) k(i,j)=a[i][j]; return k; }

inline mpart::FixedMultiIndexSet<HS> fixedSet(Multis const& m,bool dense){
  int dim=m[0].size();
  if(dense){ Kokkos::View<unsigned int*,HS> o(std::string("orders"),m.size()*dim); for(size_t i=0;i<m.size();++i) for(int k=0;k<dim;++k) o(i*dim+k)=m[i][k]; return mpart::FixedMultiIndexSet<HS>(dim,o); }
  Eigen::MatrixXi e(m.size(),dim); for(size_t i=0;i<m.size();++i) for(int k=0;k<dim;++k) e(i,k)=m[i][k];
  return mpart::MultiIndexSet(e).Fix(true);
}
inline std::string show(Multis const& m){ std::string s="{"; for(auto&t:m){ for(auto v:t) s+=std::to_string(v)+","; s.back()=' '; } s.back()='}'; return s; }

inline std::string optDesc(CompX const& c){
  vh::S s; s<<"comp d"<<c.inDim<<" "<<(c.f.basis.fam==PROB?"prob":c.f.basis.fam==PHYS?"phys":"hfun")<<(c.f.basis.norm?"":" unnorm");
  if(c.f.basis.lin) s<<" lin["<<c.f.basis.lb<<","<<c.f.basis.ub<<"]";
  s<<" "<<(c.r==SOFTPLUS?"softplus":"exp")<<" "<<(c.q.type==0?"CC":c.q.type==1?"AS":"ACC")<<" pts"<<c.q.pts<<" sub"<<c.q.minSub<<".."<<c.q.maxSub<<" tol"<<c.q.abs<<","<<c.q.rel<<(c.contDeriv?" cont":" disc")<<" nug"<<c.nugget<<(c.dense?" dense":"")<<" "<<show(c.f.m);
  return s;
}
inline std::string descr(Node const& n){
  if(auto p=dynamic_cast<CompX const*>(&n)) return "("+optDesc(*p)+")";
  if(auto p=dynamic_cast<TriX const*>(&n)){ std::string s="tri"+std::string(p->single?"-single":"")+"["; for(auto&b:p->b) s+=descr(*b)+";"; return s+"]"; }
  if(auto p=dynamic_cast<ComposX const*>(&n)){ std::string s="composed/"+std::to_string(p->checks)+"["; for(auto&b:p->b) s+=descr(*b)+";"; return s+"]"; }
  if(auto p=dynamic_cast<Aff const*>(&n)) return vh::S()<<"affine "<<p->outDim<<"x"<<p->inDim<<(p->hasA?"A":"")<<(p->hasB?"b":"");
  if(auto p=dynamic_cast<Summ const*>(&n)) return vh::S()<<"summarized("<<(p->s.aff?"affine":p->s.ex?"expansion":"map")<<" "<<p->s.in<<"->"<<p->s.out<<" "<<descr(*p->comp)<<")";
  return vh::S()<<n.kind()<<" "<<n.inDim<<"->"<<n.outDim;
}
// coarse structure, used to count distinct situations
inline std::string shape(Node const& n){
  if(auto p=dynamic_cast<CompX const*>(&n)) return vh::S()<<"c"<<p->f.basis.fam<<p->f.basis.norm<<p->f.basis.lin<<std::isinf(p->f.basis.lb)<<p->r<<p->q.type<<p->contDeriv<<(p->nugget>0)<<p->inDim;
  if(auto p=dynamic_cast<TriX const*>(&n)){ std::string s="t["; for(auto&b:p->b) s+=shape(*b); return s+"]"; }
  if(auto p=dynamic_cast<ComposX const*>(&n)){ std::string s="o"+std::to_string(p->checks)+"["; for(auto&b:p->b) s+=shape(*b); return s+"]"; }
  if(auto p=dynamic_cast<Summ const*>(&n)) return vh::S()<<"s"<<(p->s.aff?"a":p->s.ex?"e":"m")<<shape(*p->comp);
  if(auto p=dynamic_cast<Aff const*>(&n)) return vh::S()<<"a"<<p->hasA<<p->hasB<<p->inDim<<p->outDim;
  return vh::S()<<"i"<<n.inDim<<n.outDim;
}

inline mpart::MapOptions toOptions(Comp const& c){
  mpart::MapOptions o; o.basisType= c.f.basis.fam==PROB? mpart::BasisTypes::ProbabilistHermite : c.f.basis.fam==PHYS? mpart::BasisTypes::PhysicistHermite : mpart::BasisTypes::HermiteFunctions;
  o.basisNorm=c.f.basis.norm; if(c.f.basis.lin){ o.basisLB=c.f.basis.lb; o.basisUB=c.f.basis.ub; }
  o.posFuncType= c.r==SOFTPLUS? mpart::PosFuncTypes::SoftPlus : mpart::PosFuncTypes::Exp;
  o.quadType= c.q.type==0? mpart::QuadTypes::ClenshawCurtis : c.q.type==1? mpart::QuadTypes::AdaptiveSimpson : mpart::QuadTypes::AdaptiveClenshawCurtis;
  o.quadPts=c.q.pts; o.quadMaxSub=c.q.maxSub; o.quadMinSub=c.q.minSub; o.quadAbsTol=c.q.abs; o.quadRelTol=c.q.rel; o.contDeriv=c.contDeriv; o.nugget=c.nugget; return o;
}
// builds a fresh library object; leaf coefficients of sub-blocks are left as the constructors make them
inline MapP build(Node const& n);
inline FunP buildSummary(Summary const& s){
  if(s.aff){ auto b=kvec(s.aff->bb); auto a=kmat(s.aff->A);
    if(!s.aff->hasA) return std::make_shared<mpart::AffineFunction<HS>>(Vec(b)); if(!s.aff->hasB) return std::make_shared<mpart::AffineFunction<HS>>(Mat(a));
    return std::make_shared<mpart::AffineFunction<HS>>(Mat(a),Vec(b)); }
  if(s.ex){ mpart::MapOptions o; o.basisType= s.ex->basis.fam==PROB? mpart::BasisTypes::ProbabilistHermite : s.ex->basis.fam==PHYS? mpart::BasisTypes::PhysicistHermite : mpart::BasisTypes::HermiteFunctions; o.basisNorm=s.ex->basis.norm; if(s.ex->basis.lin){ o.basisLB=s.ex->basis.lb; o.basisUB=s.ex->basis.ub; }
    FunP f=mpart::MapFactory::CreateExpansion<HS>(s.out,fixedSet(s.ex->m,false),o); f->SetCoeffs(Kokkos::View<const double*,HS>(kvec(s.exc))); return f; }
  MapP m=build(*s.map); if(m->numCoeffs>0) m->SetCoeffs(Kokkos::View<const double*,HS>(kvec(s.mapc))); return m;
}
// moving coefficients into a composite requires every part to have some
inline void zeroCoeffs(MapP m){ if(m->numCoeffs>0) m->SetCoeffs(Kokkos::View<const double*,HS>(Kokkos::View<double*,HS>("z",m->numCoeffs))); }
// where a test wants the objects made for the inner nodes
inline std::vector<std::pair<Node const*,MapP>>*& collected(){ static std::vector<std::pair<Node const*,MapP>>* p=nullptr; return p; }
inline MapP build1(Node const& n);
inline MapP build(Node const& n){ MapP m=build1(n); if(collected()) collected()->push_back({&n,m}); return m; }
inline MapP build1(Node const& n){
  if(auto p=dynamic_cast<CompX const*>(&n)) return mpart::MapFactory::CreateComponent<HS>(fixedSet(p->f.m,p->dense),p->opts);
  if(auto p=dynamic_cast<TriX const*>(&n)){
    if(p->factory) return mpart::MapFactory::CreateTriangular<HS>(p->inDim,p->outDim,p->order,static_cast<CompX const&>(*p->b[0]).opts);
    if(p->single){ for(auto&b:p->b) if(b->nc) return mpart::MapFactory::CreateSingleEntryMap<HS>(p->inDim,p->single,build(*b)); }
    std::vector<MapP> v; for(auto&b:p->b){ v.push_back(build(*b)); if(p->moveCoeffs) zeroCoeffs(v.back()); } return std::make_shared<mpart::TriangularMap<HS>>(v,p->moveCoeffs); }
  if(auto p=dynamic_cast<ComposX const*>(&n)){ std::vector<MapP> v; for(auto&b:p->b){ v.push_back(build(*b)); if(p->moveCoeffs) zeroCoeffs(v.back()); } return std::make_shared<mpart::ComposedMap<HS>>(v,p->moveCoeffs,p->checks); }
  if(auto p=dynamic_cast<Aff const*>(&n)){ auto b=kvec(p->bb); auto a=kmat(p->A);
    if(!p->hasA) return std::make_shared<mpart::AffineMap<HS>>(Vec(b)); if(!p->hasB) return std::make_shared<mpart::AffineMap<HS>>(Mat(a)); return std::make_shared<mpart::AffineMap<HS>>(Mat(a),Vec(b)); }
  if(auto p=dynamic_cast<Summ const*>(&n)) return std::make_shared<mpart::SummarizedMap<HS>>(buildSummary(p->s),build(*p->comp));
  return std::make_shared<mpart::IdentityMap<HS>>(n.inDim,n.outDim);
}

// ---------------------------------------------------------------- generation
struct GenOpt {
  bool forInverse=false;   // rectifier and basis such that a bracketing search does not overflow
  bool needLogdetInputGrad=false;
  bool tightTol=true;      // adaptive rules with tolerances that make the discretisation invisible
  int maxTerms=12; int maxDim=4; int maxCoef=30; bool serializable=false; bool threadsHeavy=false; int maxOrder=4;
};

inline Multis genMultis(vh::Rng& r,int dim,int maxTerms,int maxOrder){
  Multis all; int p=r.i(1,maxOrder); std::vector<unsigned> t(dim,0);
  int kind=r.i(0,3);
  // enumerate the total-order set (kind 0,1) or the tensor set (kind 2), or random terms (3)
  if(kind<=2){
    std::function<void(int)> rec=[&](int k){ if(k==dim){ unsigned s=0; for(auto v:t) s+=v; if(kind==2|| int(s)<=p) all.push_back(t); return; } for(int v=0;v<=p;++v){ t[k]=v; rec(k+1);} t[k]=0; };
    while(true){ all.clear(); rec(0); if(int(all.size())<=60) break; --p; }
    if(kind==1||int(all.size())>maxTerms){ // random subset, random order
      for(size_t i=all.size();i>1;--i) std::swap(all[i-1],all[r.next()%i]); int k=std::min<int>(all.size(),r.i(1,maxTerms)); all.resize(k); }
  } else {
    int k=r.i(1,maxTerms); std::set<std::vector<unsigned>> seen; for(int i=0;i<k;++i){ for(int d=0;d<dim;++d) t[d]= r.b(0.5)?0:r.i(0,maxOrder); if(seen.insert(t).second) all.push_back(t); } }
  return all;
}

inline std::shared_ptr<CompX> genComp(vh::Rng& r,int dim,GenOpt const& g,int maxTerms){
  auto c=std::make_shared<CompX>(); c->inDim=dim; c->outDim=1;
  c->f.basis.fam=Fam(r.i(0,2)); c->f.basis.norm=r.b(0.6); c->f.m=genMultis(r,dim,std::max(1,maxTerms),g.maxOrder); c->f.init(); c->nc=c->f.m.size();
  if(r.b(0.45)){ c->f.basis.lin=true; int k=r.i(0,3); double a=-r.u(0.2,3.1), b=r.u(0.2,3.1); if(r.b(0.1)){ a=r.u(0.1,0.7); b=a+r.u(0.1,2); } c->f.basis.lb= k==1? -INF : a; c->f.basis.ub= k==2? INF : b; }
  c->r= r.b(0.6)? SOFTPLUS:EXPR;
  if(g.forInverse && c->r==EXPR && c->f.basis.fam!=HFUN && !(c->f.basis.lin && std::isfinite(c->f.basis.lb) && std::isfinite(c->f.basis.ub))){ c->f.basis.lin=true; c->f.basis.lb=-r.u(0.5,3); c->f.basis.ub=r.u(0.5,3); }
  c->q.type=r.i(0,2);
  if(c->q.type==0) c->q.pts= r.b(0.3)? r.i(1,4): r.i(4,14);
  else { c->q.pts= r.pick({4,5,6,7,10,13,18}); c->q.maxSub= r.pick({30,30,20,15}); c->q.minSub= r.pick({0,0,1,2,3});
    if(g.tightTol){ double t=std::pow(10.0,-r.u(7,10)); c->q.abs=t; c->q.rel=r.b()?t:t*10; } else { c->q.abs=std::pow(10.0,-r.u(3,8)); c->q.rel=std::pow(10.0,-r.u(3,8)); } }
  c->contDeriv= g.needLogdetInputGrad? true : r.b(0.6); c->nugget= r.b(0.4)? std::pow(10.0,-r.u(0,6)) : 0;
  c->dense=r.b(0.2); c->opts=toOptions(*c);
  return c;
}
inline std::shared_ptr<Aff> genAff(vh::Rng& r,int in,int out){
  auto a=std::make_shared<Aff>(); a->inDim=in; a->outDim=out; int k=r.i(0,3); a->hasA=k!=1; a->hasB=k!=2; if(!a->hasA && in!=out) a->hasA=true;
  a->A.assign(out,std::vector<double>(in)); for(auto&row:a->A) for(auto&v:row) v=r.n();
  for(int i=0;i<out;++i){ double s=0; for(int k2=in-out;k2<in;++k2) if(k2!=in-out+i) s+=std::fabs(a->A[i][k2]); a->A[i][in-out+i]=(r.b(0.7)?1:-1)*(s*r.u(1.05,1.5)+r.u(0.3,1.5)); }
  if(out>1 && r.b(0.3)) std::swap(a->A[0],a->A[out-1]);     // needs pivoting
  a->bb.assign(out,0); for(auto&v:a->bb) v=2*r.n(); return a;
}
inline std::shared_ptr<Aff> genPosAff(vh::Rng& r,int in,int out){ auto a=genAff(r,in,out); return a; }
inline NodeP genBlock(vh::Rng& r,int in,int out,GenOpt const& g,int depth,int& budget);
inline std::shared_ptr<Summ> genSumm(vh::Rng& r,int in,GenOpt const& g,int& budget){
  auto s=std::make_shared<Summ>(); s->inDim=in; s->outDim=1; s->s.in=in-1; s->s.out=r.i(1,std::min(2,in-1)); int k=r.i(0,2);
  if(k==0){ s->s.aff=genAff(r,in-1,s->s.out); }
  else if(k==1){ s->s.ex=std::make_shared<Expansion>(); s->s.ex->basis.fam=Fam(r.i(0,2)); s->s.ex->m=genMultis(r,in-1,5,3); s->s.ex->init(); s->s.exc.resize(s->s.out*s->s.ex->m.size()); for(auto&v:s->s.exc) v=0.3*r.n(); }
  else { int b2=6; s->s.out=1; s->s.map=genComp(r,in-1,g,3); s->s.mapc.resize(s->s.map->nc); for(auto&v:s->s.mapc) v=0.2*r.n(); (void)b2; 
    auto cx=std::static_pointer_cast<CompX>(s->s.map); if(cx->r==EXPR){ cx->r=SOFTPLUS; cx->opts=toOptions(*cx); } if(!cx->contDeriv&&g.needLogdetInputGrad){ cx->contDeriv=true; cx->opts=toOptions(*cx);} }
  auto c=genComp(r,s->s.out+1,g,std::min(g.maxTerms,budget)); s->comp=c; s->nc=c->nc; budget-=s->nc; return s;
}
inline std::shared_ptr<TriX> genTri(vh::Rng& r,int in,int out,GenOpt const& g,int depth,int& budget){
  auto t=std::make_shared<TriX>(); t->inDim=in; t->outDim=out; int left=out, cur=in-out; double wide= r.b(0.3)? 0.6 : 0.25;
  while(left>0){ int o= r.b(1-wide)?1:r.i(1,left); int bi=cur+o; 
    NodeP b=genBlock(r,bi,o,g,depth-1,budget); t->b.push_back(b); t->nc+=b->nc; left-=o; cur=bi; }
  t->moveCoeffs=r.b(0.4);
  return t;
}
inline std::shared_ptr<ComposX> genComposed(vh::Rng& r,int dim,GenOpt const& g,int depth,int& budget){
  auto c=std::make_shared<ComposX>(); c->inDim=c->outDim=dim; int L=r.b(0.3)? r.i(4,7): r.i(1,4);
  for(int l=0;l<L;++l){ NodeP b; int k=r.i(0,5); if(k==0||budget<dim+1||L>4&&k<3) b= r.b()? NodeP(genAff(r,dim,dim)) : ([&]{ auto i=std::make_shared<Ident>(); i->inDim=i->outDim=dim; return NodeP(i); })(); else { GenOpt g2=g; g2.maxTerms=std::min(g.maxTerms,4); g2.maxOrder=2; b=genTri(r,dim,dim,g2,depth-1,budget); } c->b.push_back(b); c->nc+=b->nc; }
  c->checks= r.b(0.3)? -1 : r.i(1,std::max(1,L)); c->moveCoeffs=r.b(0.4); return c;
}
inline NodeP genBlock(vh::Rng& r,int in,int out,GenOpt const& g,int depth,int& budget){
  // out==1 prefers components
  int k=r.i(0,9);
  if(budget<=0){ if(k<5){ auto i=std::make_shared<Ident>(); i->inDim=in; i->outDim=out; return i; } return genAff(r,in,out); }
  if(out==1){
    if(k<6 || depth<=0){ auto c=genComp(r,in,g,std::min(g.maxTerms,budget)); budget-=c->nc; return c; }
    if(k==6 && in>=2 && !g.serializable) return genSumm(r,in,g,budget);
    if(k==7 && !g.serializable) return genAff(r,in,out);
    if(k==8 && !g.serializable){ auto i=std::make_shared<Ident>(); i->inDim=in; i->outDim=out; return i; }
    if(in==1 && depth>0 && r.b() && !g.serializable) return genComposed(r,1,g,depth-1,budget);
    auto c=genComp(r,in,g,std::min(g.maxTerms,budget)); budget-=c->nc; return c;
  }
  if(g.serializable) return genTri(r,in,out,g,depth-1,budget);
  if(k<4 && depth>0) return genTri(r,in,out,g,depth-1,budget);
  if(k<6 && in==out && depth>0) return genComposed(r,in,g,depth-1,budget);
  if(k<8) return genAff(r,in,out);
  auto i=std::make_shared<Ident>(); i->inDim=in; i->outDim=out; return i;
}
// map created by MapFactory::CreateTriangular: total-order components in the library's own term order
inline std::shared_ptr<TriX> genFactoryTri(vh::Rng& r,int in,int out,GenOpt const& g){
  auto t=std::make_shared<TriX>(); t->inDim=in; t->outDim=out; t->factory=true; t->order=r.i(0,in>=4?1:in>=3?2:3); GenOpt g1=g; auto proto=genComp(r,in-out+1,g1,3); 
  for(int k=0;k<out;++k){ auto c=std::make_shared<CompX>(*proto); int d=in-out+k+1; c->inDim=d; c->dense=false; mpart::FixedMultiIndexSet<HS> fs(d,t->order); c->f.m.clear(); for(unsigned i=0;i<fs.Size();++i) c->f.m.push_back(fs.IndexToMulti(i)); c->f.init(); c->nc=c->f.m.size(); t->b.push_back(c); t->nc+=c->nc; }
  return t;
}
inline NodeP genMap(vh::Rng& r,GenOpt const& g){
  for(;;){
    int budget=g.maxCoef; int kind=r.i(0,9); NodeP n;
    int d=r.i(1,g.maxDim); if(kind>=3&&kind<=4&&g.maxDim>=4&&r.b(0.25)) d=r.i(4,6);
    if(kind<=2) n=genComp(r,d,g,g.maxTerms);
    else if(kind<=4) n=genTri(r,d,r.i(1,d),g,2,budget);
    else if(kind==5 && !g.serializable) n=genComposed(r,std::min(d,3),g,2,budget);
    else if(kind==6 && !g.serializable){ int q=r.i(0,2); if(q==0){ n=genAff(r,d,r.i(1,d)); } else if(q==1){ n=std::make_shared<Ident>(); n->inDim=d; n->outDim=r.i(1,d);} else { // single entry
        auto t=std::make_shared<TriX>(); t->inDim=t->outDim=d; t->single=r.i(1,d); auto c=genComp(r,t->single,g,g.maxTerms); 
        if(t->single>1){ auto i=std::make_shared<Ident>(); i->inDim=i->outDim=t->single-1; t->b.push_back(i);} t->b.push_back(c); if(t->single<d){ auto i=std::make_shared<Ident>(); i->inDim=d; i->outDim=d-t->single; t->b.push_back(i);} t->nc=c->nc; n=t; } }
    else if(kind==7 && d>=2 && !g.serializable) n=genSumm(r,d,g,budget);
    else if(kind==8) { n=genFactoryTri(r,d,r.i(1,d),g); }
    else n=genTri(r,d,r.i(1,d),g,1,budget);
    if(n && n->nc<=g.maxCoef+8 && n->nc+n->inDim<=NMAX) return n;
  }
}

// components reachable in the tree together with their coefficient offset
inline void walk(Node const& n,int off,std::function<void(CompX const&,int)> const& f){
  if(auto p=dynamic_cast<CompX const*>(&n)) f(*p,off);
  else if(auto p=dynamic_cast<TriX const*>(&n)){ for(auto&b:p->b){ walk(*b,off,f); off+=b->nc; } }
  else if(auto p=dynamic_cast<ComposX const*>(&n)){ for(auto&b:p->b){ walk(*b,off,f); off+=b->nc; } }
  else if(auto p=dynamic_cast<Summ const*>(&n)) walk(*p->comp,off,f);
}

// Coefficients: generic, and scaled so that no rectifier argument is extreme at the given points.
struct Instance { NodeP n; std::vector<double> c; std::vector<std::vector<double>> x; /* x[i] is a point */ };

inline std::vector<double> genPoint(vh::Rng& r,int dim){ std::vector<double> p(dim); int k=r.i(0,9); double s= k<5?1.0: k<8? 0.4 : 2.2; for(auto&v:p){ v=s*r.n(); if(r.b(0.04)) v=0.0; } return p; }

inline std::vector<double> genCoeffs(vh::Rng& r,int n,double scale){ std::vector<double> c(n); for(auto&v:c) v=scale*r.n(); return c; }


inline std::vector<J> toJ(std::vector<double> const& v){ return std::vector<J>(v.begin(),v.end()); }
// Draws points and coefficients; coefficients are halved until no rectifier argument on the way is extreme.
// are the points X and coefficients cf clear of overflowing rectifiers (and of runaway adaptive integration)?
inline bool calm(NodeP n,std::vector<std::vector<double>> const& X,std::vector<double> const& cf,double maxExp=40,double maxAbs=400){
  int sv=JN(); JN()=0; bool ok=true;
  for(auto&x:X){ cost()=Cost(); std::vector<J> y; auto c=toJ(cf); auto xj=toJ(x); n->eval(xj,c.data(),y); J l=n->logdet(xj,c.data()); (void)l;
    for(auto&v:y) if(!(std::fabs(v.v.v)<1e8)) ok=false;
    if(!(cost().maxexp<=maxExp) || !(cost().maxdf<=maxAbs) || cost().evals>6000*std::max(1,n->outDim)) ok=false; if(!ok) break; }
  JN()=sv; return ok; }
inline bool genInstance(vh::Rng& r,NodeP n,int npts,Instance& I,double maxExp=40,double maxAbs=400){
  I.n=n; I.x.clear(); for(int i=0;i<npts;++i) I.x.push_back(genPoint(r,n->inDim));
  double s= r.pick({0.05,0.3,0.6,1.0,1.0,2.0}); I.c=genCoeffs(r,n->nc,s); if(r.b(0.1)) for(auto&v:I.c) if(r.b(0.5)) v=0;
  for(int t=0;t<14;++t){ if(calm(n,I.x,I.c,maxExp,maxAbs)) return true; for(auto&v:I.c) v*=0.4; }
  return false;
}
} // namespace gen
