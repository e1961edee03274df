// C23: requests that can be recognised as invalid end in an exception, and every object involved gives bitwise the same
// results afterwards.
#include "invsafe.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/TransportDistributionFactory.h"
#include "MParT/MapObjective.h"
#include "MParT/TrainMap.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/Quadrature.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include "MParT/Utilities/LinearAlgebra.h"
#include <sstream>
typedef mpart::ParameterizedFunctionBase<HS> PF;
typedef std::function<std::vector<double>()> Snap;
struct Quiet { std::ostringstream a,b; std::streambuf *x,*y; Quiet(){ x=std::cout.rdbuf(a.rdbuf()); y=std::cerr.rdbuf(b.rdbuf()); } ~Quiet(){ std::cout.rdbuf(x); std::cerr.rdbuf(y); } };

// the objects in play and what they return
struct Watch { std::vector<Snap> s; std::vector<std::vector<double>> v; void add(Snap f){ s.push_back(f); v.push_back(f()); } };
static void invalid(Ctx& c,std::string const& key,Watch& w,std::function<void()> f){
  bool threw=false; try{ Quiet q; f(); }catch(std::exception const& e){ threw=true; if(c.verbose) std::cerr<<key<<": "<<e.what()<<"\n"; c.check(std::string(e.what()).size()>0,"message:"+key,"the exception says nothing"); }
  c.check(threw,"accepted:"+key,"an invalid request did not throw"); c.cover(key); c.count("invalid_requests"); c.count(key);
  for(size_t i=0;i<w.s.size();++i){ std::vector<double> now; std::string err; try{ now=w.s[i](); }catch(std::exception const& e){ err=e.what(); } 
    c.check(err.empty(),"unusable:"+key,[&]{return "an object throws after an invalid request: "+err;}); if(!err.empty()) continue;
    bool same=now.size()==w.v[i].size(); size_t k=0; for(;same&&k<now.size();++k) if(!sameBits(now[k],w.v[i][k])){ same=false; break; }
    c.check(same,"changed:"+key,[&]{return S()<<"object "<<i<<" behaves differently after an invalid request"<<(k<now.size()&&k<w.v[i].size()? std::string(S()<<": value "<<k<<" "<<w.v[i][k]<<" -> "<<now[k]):std::string());}); } }

static std::vector<double> flat(Cols const& x){ std::vector<double> o; o.push_back(x.size()); for(auto&v:x) o.insert(o.end(),v.begin(),v.end()); return o; }
static Snap mapSnap(MapP m,NodeP n,Cols X,Cols Se){ return [=]{ std::vector<double> o={double(m->inputDim),double(m->outputDim),double(m->numCoeffs),double(m->CheckCoefficients())};
  auto k=m->Coeffs(); for(size_t i=0;i<k.extent(0);++i) o.push_back(k(i)); if(!m->CheckCoefficients()) return o;
  for(Op op:{EVAL,LOGDET,GRAD,CGRAD}){ auto f=flat(run(m,*n,op,X,Se,Mode())); o.insert(o.end(),f.begin(),f.end()); } return o; }; }
static bool make(Ctx& c,GenOpt const& g,Instance& I,int N,std::function<bool(Node const&)> ok={}){ for(int t=0;t<40;++t){ NodeP n=genMap(c.rng,g); if(ok&&!ok(*n)) continue; if(genInstance(c.rng,n,N,I)) return true; } c.count("no_instance"); return false; }
static int wrong(Rng& r,int n,int lo=0){ int k; do k=r.pick({0,n-1,n+1,n+2,2*n,n+17}); while(k==n||k<lo); return k; }

static Arr rnd(Rng& r,int rows,int cols){ Arr a(rows,cols,r.i(0,5)); for(int i=0;i<rows;++i) for(int j=0;j<cols;++j) a.at(i,j)=r.n(); return a; }
static Eigen::RowMatrixXd erm(Rng& r,int rows,int cols){ Eigen::RowMatrixXd e(rows,cols); for(int i=0;i<rows;++i) for(int j=0;j<cols;++j) e(i,j)=r.n(); return e; }

// ---------------------------------------------------------------- requests to a map
static void coeffReq(Ctx& c,Watch& w,MapP m){ Rng& r=c.rng; int n=m->numCoeffs,k=wrong(r,n); auto kv=[&]{ Kokkos::View<double*,HS> v("bad",k); for(int i=0;i<k;++i) v(i)=r.n(); return v; };
  switch(r.i(0,3)){ case 0: invalid(c,"SetCoeffs-view",w,[&]{ m->SetCoeffs(Kokkos::View<const double*,HS>(kv())); }); break; case 1: invalid(c,"SetCoeffs-eigen",w,[&]{ Eigen::VectorXd e=Eigen::VectorXd::Random(k); m->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(e)); }); break;
    case 2: invalid(c,"WrapCoeffs-view",w,[&]{ m->WrapCoeffs(kv()); }); break; default: invalid(c,"WrapCoeffs-eigen",w,[&]{ Eigen::VectorXd e=Eigen::VectorXd::Random(k); m->WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(e)); }); } }
static void shapeReq(Ctx& c,Watch& w,MapP m){ Rng& r=c.rng; int in=m->inputDim,out=m->outputDim,N=r.pick({1,1,2,5}); bool eig=r.b(); int op=r.i(0,6); std::string a=eig?"-eigen":"-view"; bool badPts=r.b(); int pr=in,sr=out,sc=N;
  if(op<=1||op==4||op==5) pr=wrong(r,in); 
  else if(op==6){ int k=r.i(0,2); pr=in-out; if(k==0){ if(std::dynamic_pointer_cast<mpart::IdentityMap<HS>>(m)) sr=wrong(r,out); else if(in==out||r.b(0.3)) pr=in+r.pick({1,2,9}); else pr=r.i(0,in-out-1); } else if(k==1) sr=wrong(r,out); else sc=wrong(r,N); a+=k==0?"-x1":k==1?"-r":"-columns"; }
  else { int k=r.i(0,2); if(k==0) pr=wrong(r,in); else if(k==1) sr=wrong(r,out); else sc=wrong(r,N); a+=k==0?"-pts":k==1?"-sens":"-columns"; } (void)badPts;
  if(eig){ Eigen::RowMatrixXd x=erm(r,pr,N),s=erm(r,sr,sc); invalid(c,std::string(opName[op])+a,w,[&]{ switch(op){ case EVAL: m->Evaluate(x); break; case LOGDET: m->LogDeterminant(x); break; case GRAD: m->Gradient(x,s); break; case CGRAD: m->CoeffGrad(x,s); break; case LDC: m->LogDeterminantCoeffGrad(x); break; case LDI: m->LogDeterminantInputGrad(x); break; default: m->Inverse(x,s); } }); }
  else { Arr x=rnd(r,pr,N),s=rnd(r,sr,sc); invalid(c,std::string(opName[op])+a,w,[&]{ switch(op){ case EVAL: m->Evaluate(x.c()); break; case LOGDET: m->LogDeterminant(x.c()); break; case GRAD: m->Gradient(x.c(),s.c()); break; case CGRAD: m->CoeffGrad(x.c(),s.c()); break; case LDC: m->LogDeterminantCoeffGrad(x.c()); break; case LDI: m->LogDeterminantInputGrad(x.c()); break; default: m->Inverse(x.c(),s.c()); } }); } }
static bool savable(Node const& n){ if(auto t=dynamic_cast<TriX const*>(&n)){ if(t->single) return false; for(auto&b:t->b) if(!savable(*b)) return false; return true; } return dynamic_cast<CompX const*>(&n)!=nullptr; }

static void mapCase(Ctx& c){ Rng& r=c.rng; GenOpt g; g.maxTerms=6; g.maxCoef=20; Instance I; int N=r.i(1,3); if(!make(c,g,I,N)) return; NodeP n=I.n; MapP m=buildWith(*n,I.c); Cols X=I.x,Se=genSens(r,n->outDim,N);
  c.describe("map "+descr(*n)+" c="+vstr(I.c)+" x0="+vstr(X[0])); c.cover("map"+shape(*n)); Watch w; w.add(mapSnap(m,n,X,Se)); Mode md; int K=r.i(2,6);
  for(int k=0;k<K;++k) switch(r.i(0,5)){ case 0: case 1: coeffReq(c,w,m); break; case 2: case 3: case 4: shapeReq(c,w,m); break;
    default: if(!savable(*n)){ invalid(c,std::string("Save-")+n->kind(),w,[&]{ std::stringstream s; m->Save(s); }); } else if(!n->hasLogdetInputGrad()) invalid(c,"LogDeterminantInputGrad-discrete",w,[&]{ m->LogDeterminantInputGrad(rnd(r,n->inDim,2).c()); }); else { std::stringstream s; m->Save(s); std::string b=s.str(); invalid(c,"Load-truncated",w,[&]{ std::stringstream q(b.substr(0,r.next()%b.size())); PF::Load(q); }); } } 
  // the map still takes new coefficients
  std::vector<double> c2=I.c; for(auto&v:c2) v*=0.5; setCoeffs(m,c2); MapP f=buildWith(*n,c2); auto A=run(m,*n,EVAL,X,{},md),B=run(f,*n,EVAL,X,{},md); c.check(sameBits(A,B),"later-use",[&]{return "after invalid requests the map differs from a fresh one: "+showDiff(A,B);}); }

// maps without coefficients
static void unsetCase(Ctx& c){ Rng& r=c.rng; GenOpt g; g.maxTerms=6; g.maxCoef=20; Instance I; int N=r.i(1,3); MapP m; if(!make(c,g,I,N,[&](Node const& n){ if(!n.nc) return false; m=build(n); return !m->CheckCoefficients(); })) return; NodeP n=I.n; m=build(*n); int in=n->inDim,out=n->outDim;
  c.describe("unset "+descr(*n)); c.cover("unset"+shape(*n)); Watch w; w.add(mapSnap(m,n,I.x,{})); int K=r.i(2,5);
  for(int k=0;k<K;++k){ int op=r.i(0,6); bool eig=r.b(); Arr x=rnd(r,op==INV?in-out:in,N),s=rnd(r,out,N); Eigen::RowMatrixXd ex=erm(r,op==INV?in-out:in,N),es=erm(r,out,N);
    invalid(c,std::string("unset-")+opName[op]+(eig?"-eigen":"-view"),w,[&]{ if(eig) switch(op){ case EVAL: m->Evaluate(ex); break; case LOGDET: m->LogDeterminant(ex); break; case GRAD: m->Gradient(ex,es); break; case CGRAD: m->CoeffGrad(ex,es); break; case LDC: m->LogDeterminantCoeffGrad(ex); break; case LDI: m->LogDeterminantInputGrad(ex); break; default: m->Inverse(ex,es); }
      else switch(op){ case EVAL: m->Evaluate(x.c()); break; case LOGDET: m->LogDeterminant(x.c()); break; case GRAD: m->Gradient(x.c(),s.c()); break; case CGRAD: m->CoeffGrad(x.c(),s.c()); break; case LDC: m->LogDeterminantCoeffGrad(x.c()); break; case LDI: m->LogDeterminantInputGrad(x.c()); break; default: m->Inverse(x.c(),s.c()); } }); if(r.b(0.3)) coeffReq(c,w,m); }
  if(r.b(0.3)) invalid(c,"unset-CoeffMap",w,[&]{ m->CoeffMap(); });
  std::vector<MapP> one={m}; if(r.b(0.5)) invalid(c,"unset-moveCoeffs-triangular",w,[&]{ mpart::TriangularMap<HS> t(one,true); }); if(in==out&&r.b(0.5)) invalid(c,"unset-moveCoeffs-composed",w,[&]{ mpart::ComposedMap<HS> t(one,true); });
  setCoeffs(m,I.c); MapP f=buildWith(*n,I.c); auto A=run(m,*n,EVAL,I.x,{},Mode()),B=run(f,*n,EVAL,I.x,{},Mode()); c.check(sameBits(A,B),"later-use",[&]{return "the map differs from a fresh one: "+showDiff(A,B);}); }

// ---------------------------------------------------------------- constructions
static void buildCase(Ctx& c){ Rng& r=c.rng; GenOpt g; g.maxTerms=4; g.maxCoef=10; Watch w; struct P { NodeP n; MapP m; }; std::vector<P> ps; int K=r.i(1,4); std::string d="construct from";
  for(int k=0;k<K;++k){ Instance I; if(!make(c,g,I,1)) return; MapP m=buildWith(*I.n,I.c); ps.push_back({I.n,m}); d+=" "+descr(*I.n); w.add(mapSnap(m,I.n,I.x,genSens(r,I.n->outDim,1))); }
  c.describe(d); c.cover(d); std::vector<MapP> v; for(auto&p:ps) v.push_back(p.m); bool mv=r.b();
  bool tri=true,comp=true; for(int k=0;k<K;++k){ if(k&&ps[k].n->inDim!=ps[k-1].n->inDim+ps[k].n->outDim) tri=false; if(ps[k].n->inDim!=ps[k].n->outDim||ps[k].n->inDim!=ps[0].n->inDim) comp=false; }
  switch(r.i(0,11)){
    case 0: case 1: if(!tri) invalid(c,"TriangularMap-dims",w,[&]{ mpart::TriangularMap<HS> t(v,mv); }); break;
    case 2: case 3: if(!comp) invalid(c,"ComposedMap-dims",w,[&]{ mpart::ComposedMap<HS> t(v,mv,r.i(-1,3)); }); break;
    case 4: { auto a=rnd(r,r.i(1,3),5); int rows=r.i(1,3); Arr A=rnd(r,rows,rows+r.i(0,2)); FunP f=std::make_shared<mpart::AffineFunction<HS>>(A.m()); P& p=ps[0]; if(p.n->outDim!=1) invalid(c,"SummarizedMap-output",w,[&]{ mpart::SummarizedMap<HS> s(f,p.m); }); else if(p.n->inDim!=rows+1) invalid(c,"SummarizedMap-input",w,[&]{ mpart::SummarizedMap<HS> s(f,p.m); }); break; }
    case 5: { P& p=ps[0]; int ai=r.i(0,6),dim=r.i(1,6); if(dim<ai||ai!=p.n->inDim) invalid(c,dim<ai?"SingleEntry-index":"SingleEntry-input",w,[&]{ mpart::MapFactory::CreateSingleEntryMap<HS>(dim,ai,p.m); }); else if(p.n->outDim!=1) invalid(c,"SingleEntry-output",w,[&]{ mpart::MapFactory::CreateSingleEntryMap<HS>(dim,ai,p.m); }); break; }
    case 6: { int o=r.i(1,4),i=r.i(0,o-1); invalid(c,"CreateTriangular-dims",w,[&]{ mpart::MapFactory::CreateTriangular<HS>(i,o,2,mpart::MapOptions()); }); break; }
    case 7: { mpart::MapOptions o; int k=r.i(0,3); std::string key; if(k==0){ o.quadType=mpart::QuadTypes::ClenshawCurtis; o.quadPts=0; key="quadPts"; } else if(k==1){ o.quadType=mpart::QuadTypes::AdaptiveClenshawCurtis; o.quadPts=r.i(0,3); key="quadPts-adaptive"; } else { o.basisLB=r.u(-2,2); o.basisUB= k==2? o.basisLB-r.u(0,2)*r.b() : std::nan(""); if(r.b()&&k==3) std::swap(o.basisLB,o.basisUB); key="bounds"; } o.basisType=mpart::BasisTypes(r.i(0,2)); mpart::FixedMultiIndexSet<HS> ms(r.i(1,3),r.i(0,3));
      if(k>=2&&r.b()) invalid(c,"CreateExpansion-"+key,w,[&]{ mpart::MapFactory::CreateExpansion<HS>(r.i(1,3),ms,o); }); else if(r.b()) invalid(c,"CreateComponent-"+key,w,[&]{ mpart::MapFactory::CreateComponent<HS>(ms,o); }); else invalid(c,"CreateTriangular-"+key,w,[&]{ mpart::MapFactory::CreateTriangular<HS>(3,r.i(1,3),2,o); }); break; }
    case 8: { int rows=r.i(1,4),cols=r.i(1,4); bool map=r.b(); Arr A=rnd(r,rows,cols); bool badb=r.b()||rows<=cols; int bl=badb?wrong(r,rows,0):rows; Arr b=rnd(r,1,bl); if(badb||r.b()) invalid(c,std::string(map?"AffineMap":"AffineFunction")+(badb?"-b":"-A"),w,[&]{ if(map) mpart::AffineMap<HS> a(A.m(),b.rowv()); else mpart::AffineFunction<HS> a(A.m(),b.rowv()); }); else if(rows>cols) invalid(c,std::string(map?"AffineMap":"AffineFunction")+"-tall",w,[&]{ if(map) mpart::AffineMap<HS> a(A.m()); else mpart::AffineFunction<HS> a(A.m()); }); break; }
    case 9: invalid(c,"IdentityMap-dims",w,[&]{ int i=r.i(0,4); mpart::IdentityMap<HS> m(i,i+r.i(1,3)); }); break;
    case 10: if(r.b()) invalid(c,"TriangularMap-empty",w,[&]{ mpart::TriangularMap<HS> t(std::vector<MapP>{},mv); }); else invalid(c,"ComposedMap-empty",w,[&]{ mpart::ComposedMap<HS> t(std::vector<MapP>{},mv); }); break;
    default: { // a composition whose layers chain except for one
      int dd=r.i(1,3),L=r.i(2,5),bad=r.i(0,L-1); std::vector<MapP> q; for(int k=0;k<L;++k) q.push_back(std::make_shared<mpart::IdentityMap<HS>>(k==bad? dd+1:dd, k==bad&&r.b()? dd+1:dd)); invalid(c,S()<<"ComposedMap-layer"<<(bad==0?"first":bad==L-1?"last":"middle"),w,[&]{ mpart::ComposedMap<HS> t(q,false,r.i(-1,4)); }); } } }

// ---------------------------------------------------------------- multi-index sets
static std::vector<double> setState(mpart::MultiIndexSet s){ std::vector<double> o={double(s.Size()),double(s.Length())}; for(unsigned i=0;i<s.Size();++i){ for(auto v:s[i].Vector()) o.push_back(v); o.push_back(s.NumForward(i)); o.push_back(s.NumActiveForward(i)); for(auto k:s.AdmissibleForwardNeighbors(i)) for(auto v:k.Vector()) o.push_back(v); o.push_back(s.IsExpandable(i)); } for(auto k:s.Frontier()) o.push_back(k); for(auto k:s.StrictFrontier()) o.push_back(k); for(auto&k:s.Margin()) for(auto v:k.Vector()) o.push_back(v); for(auto&k:s.ReducedMargin()) for(auto v:k.Vector()) o.push_back(v); for(auto v:s.MaxOrders()) o.push_back(v); return o; }
static void setCase(Ctx& c){ Rng& r=c.rng; int d=r.i(1,4); auto s=std::make_shared<mpart::MultiIndexSet>(mpart::MultiIndexSet::CreateTotalOrder(d,r.i(0,3))); for(int k=r.i(0,3);k>0;--k) s->Expand(); while(s->Size()>80) s=std::make_shared<mpart::MultiIndexSet>(mpart::MultiIndexSet::CreateTotalOrder(d,1));
  c.describe(S()<<"multi-index set dimension "<<d<<" size "<<s->Size()); Watch w; w.add([=]{ return setState(*s); }); std::vector<unsigned> mv(d); for(auto&x:mv) x=r.i(0,5); auto mi=std::make_shared<mpart::MultiIndex>(mv); w.add([=]{ std::vector<double> o; for(auto v:mi->Vector()) o.push_back(v); o.push_back(mi->Sum()); o.push_back(mi->Max()); o.push_back(mi->Length()); return o; });
  for(int k=0;k<3;++k) switch(r.i(0,9)){
    case 0: { std::vector<double> ws(r.i(1,4)); for(auto&x:ws) x=r.u(); bool be=r.b(); double e=r.u(0.01,0.99); if(be) e=r.pick({0.0,1.0,-0.1,1.5,2.0,-1e-300,1e300}); else ws[r.i(0,ws.size()-1)]=r.pick({-0.1,1.0000001,-1e-12,2.0,INF,-INF}); invalid(c,be?"Anisotropic-epsilon":"Anisotropic-weight",w,[&]{ mpart::MultiIndexLimiter::Anisotropic a(ws,e); }); break; }
    case 1: { // a limiter that excludes an active term
      unsigned t=r.next()%s->Size(); auto v=(*s)[t].Vector(); unsigned sum=0; for(auto x:v) sum+=x; if(sum==0) break; if(r.b()) invalid(c,"SetLimiter-TotalOrder",w,[&]{ s->SetLimiter(mpart::MultiIndexLimiter::TotalOrder(r.i(0,sum-1))); }); else invalid(c,"SetLimiter-custom",w,[&]{ s->SetLimiter([v](mpart::MultiIndex const& m){ return m.Vector()!=v; }); }); break; }
    case 2: invalid(c,"MultiIndex-Set",w,[&]{ mi->Set(d+r.pick({0,1,5,1000}),r.i(0,3)); }); break;
    case 3: invalid(c,"MultiIndex-Get",w,[&]{ mi->Get(d+r.pick({0,1,5,1000})); }); break;
    case 4: { mpart::MultiIndex sh(std::vector<unsigned>(std::max(0,d-1),3)); if(d>1) invalid(c,"AnyBounded-length",w,[&]{ mi->AnyBounded(sh); }); break; }
    case 5: { mpart::MultiIndex sh(std::vector<unsigned>(std::max(0,d-1),3)); if(d>1&&s->Size()) invalid(c,"FilterBounded-length",w,[&]{ s->FilterBounded(sh); }); break; }
    case 6: invalid(c,"Expand-index",w,[&]{ s->Expand(s->Size()+r.pick({0,1,7,100000})); }); break;
    case 7: { mpart::MultiIndexSet o=mpart::MultiIndexSet::CreateTotalOrder(wrong(r,d,1),1); invalid(c,"MultiIndexSet-assign",w,[&]{ *s=o; }); break; }
    case 8: invalid(c,"IndexToMulti",w,[&]{ s->IndexToMulti(s->Size()+r.pick({0,1,7,100000})); }); break;
    default: { unsigned b=s->Size()+r.pick({0,1,9,100000}); if(r.b()) invalid(c,"NumForward",w,[&]{ s->NumForward(b); }); else invalid(c,"NumActiveForward",w,[&]{ s->NumActiveForward(b); }); } }
  auto z=setState(*s); s->Expand(); c.check(setState(*s).size()>=z.size()||s->Size()==0,"later-use","the set can no longer be expanded"); }

// ---------------------------------------------------------------- densities, samplers, objectives, training
static std::shared_ptr<mpart::GaussianSamplerDensity<HS>> gauss(Rng& r,int d){ if(r.b()) return std::make_shared<mpart::GaussianSamplerDensity<HS>>(unsigned(d)); Arr C(d,d,r.i(0,5)); for(int i=0;i<d;++i) for(int j=0;j<d;++j) C.at(i,j)= i==j? 2.0:0.3/(1+d); return std::make_shared<mpart::GaussianSamplerDensity<HS>>(C.m()); }
static Snap gSnap(std::shared_ptr<mpart::GaussianSamplerDensity<HS>> g,int d,Arr x){ return [=]{ std::vector<double> o; auto v=g->LogDensity(x.c()); for(size_t j=0;j<v.extent(0);++j) o.push_back(v(j)); auto G=g->LogDensityInputGrad(x.c()); auto f=flat(colsOf(G)); o.insert(o.end(),f.begin(),f.end()); g->SetSeed(5); if(Kokkos::DefaultHostExecutionSpace().concurrency()==1){ auto q=flat(colsOf(g->Sample(3))); o.insert(o.end(),q.begin(),q.end()); } return o; }; }
static void distCase(Ctx& c){ Rng& r=c.rng; GenOpt g; g.maxTerms=5; g.maxCoef=14; g.maxDim=3; Instance I; int N=r.i(2,4); if(!make(c,g,I,N)) return; NodeP n=I.n; int in=n->inDim,out=n->outDim; MapP m=buildWith(*n,I.c); int gd=wrong(r,out,1); auto G=gauss(r,gd),ok=gauss(r,out); Watch w; w.add(mapSnap(m,n,I.x,genSens(r,out,N))); w.add(gSnap(G,gd,rnd(r,gd,2))); w.add(gSnap(ok,out,rnd(r,out,2)));
  c.describe("distribution "+descr(*n)+" gaussian "+std::to_string(gd)+" c="+vstr(I.c)); c.cover("dist"+shape(*n)); typedef mpart::StridedMatrix<double,HS> M; Arr tr(I.x,in,r.i(0,5)); auto dist=std::make_shared<mpart::Distribution<HS>>(G,G), okd=std::make_shared<mpart::Distribution<HS>>(ok,ok);
  for(int k=0;k<3;++k) switch(r.i(0,13)){
    case 0: invalid(c,"PullbackDensity-dim",w,[&]{ mpart::PullbackDensity<HS> p(m,G); }); break;
    case 1: invalid(c,"PushforwardDensity-dim",w,[&]{ mpart::PushforwardDensity<HS> p(m,G); }); break;
    case 2: invalid(c,"PullbackSampler-dim",w,[&]{ mpart::PullbackSampler<HS> p(m,G); }); break;
    case 3: invalid(c,"PushforwardSampler-dim",w,[&]{ mpart::PushforwardSampler<HS> p(m,G); }); break;
    case 4: if(in!=out){ int q=r.i(0,2); if(q==0) invalid(c,"PushforwardDensity-rect",w,[&]{ mpart::PushforwardDensity<HS> p(m,ok); }); else if(q==1) invalid(c,"PullbackSampler-rect",w,[&]{ mpart::PullbackSampler<HS> p(m,ok); }); else invalid(c,"PushforwardSampler-rect",w,[&]{ mpart::PushforwardSampler<HS> p(m,ok); }); } break;
    case 5: if(r.b()) invalid(c,"CreatePullback-dim",w,[&]{ mpart::CreatePullback<HS>(m,dist); }); else invalid(c,"CreatePushforward-dim",w,[&]{ mpart::CreatePushforward<HS>(m,dist); }); break;
    case 6: invalid(c,"Distribution-dim",w,[&]{ mpart::Distribution<HS> d(G,ok); }); break;
    case 7: { Arr x=rnd(r,wrong(r,gd),2); int q=r.i(0,3); if(q==0) invalid(c,"LogDensity-rows",w,[&]{ G->LogDensity(x.c()); }); else if(q==1) invalid(c,"LogDensityInputGrad-rows",w,[&]{ G->LogDensityInputGrad(x.c()); }); else if(q==2) invalid(c,"LogDensity-eigen-rows",w,[&]{ G->LogDensity(erm(r,x.R,2)); }); else invalid(c,"SampleImpl-rows",w,[&]{ G->SampleImpl(x.m()); }); break; }
    case 8: { auto p=std::make_shared<mpart::PullbackDensity<HS>>(m,ok); Arr x=rnd(r,wrong(r,in),2); int q=r.i(0,2); if(q==0) invalid(c,"Pullback-LogDensity-rows",w,[&]{ p->LogDensity(x.c()); }); else if(q==1) invalid(c,"Pullback-InputGrad-rows",w,[&]{ p->LogDensityInputGrad(x.c()); }); else invalid(c,"Pullback-CoeffGrad-rows",w,[&]{ p->LogDensityCoeffGrad(x.c()); }); break; }
    case 9: { int q=r.i(0,2); int a=wrong(r,gd,1); if(q==0){ Arr C=rnd(r,gd,a); invalid(c,"Gaussian-cov-shape",w,[&]{ mpart::GaussianSamplerDensity<HS> x(C.m()); }); } else if(q==1){ Arr C(a,a,0); C.fill(0); for(int i=0;i<a;++i) C.at(i,i)=1; Arr mu=rnd(r,1,gd); invalid(c,"Gaussian-mean-cov",w,[&]{ mpart::GaussianSamplerDensity<HS> x(mu.rowv(),C.m()); }); }
      else { Arr C(gd,gd,r.i(0,5)); C.fill(0); for(int i=0;i<gd;++i) C.at(i,i)=1; C.at(r.i(0,gd-1),0)=0; int z=r.i(0,gd-1); C.at(z,z)=-1; invalid(c,"Gaussian-cov-indefinite",w,[&]{ mpart::GaussianSamplerDensity<HS> x(C.m()); }); } break; }
    case 10: { auto o=std::make_shared<mpart::KLObjective<HS>>(tr.c(),ok); invalid(c,"TestError-no-data",w,[&]{ o->TestError(m); }); break; }
    case 11: { if(!n->nc) break; auto o=std::make_shared<mpart::KLObjective<HS>>(tr.c(),ok); mpart::TrainOptions t; t.opt_alg=r.pick({std::string("LD_NOTHING"),std::string(""),std::string("SLSQP"),std::string("ld_slsqp"),std::string("LD_SLSQP ")}); invalid(c,"TrainMap-algorithm",w,[&]{ mpart::TrainMap<HS>(m,o,t); }); break; }
    case 12: { if(!n->nc) break; int q=r.i(0,1); if(q==0){ auto o=std::make_shared<mpart::KLObjective<HS>>(tr.c(),G); mpart::TrainOptions t; t.opt_maxeval=3; invalid(c,"TrainMap-density",w,[&]{ mpart::TrainMap<HS>(m,o,t); }); } else { Arr b=rnd(r,wrong(r,in,1),3); auto o=std::make_shared<mpart::KLObjective<HS>>(b.c(),ok); mpart::TrainOptions t; t.opt_maxeval=3; invalid(c,"TrainMap-data",w,[&]{ mpart::TrainMap<HS>(m,o,t); }); } break; }
    default: { auto o=std::make_shared<mpart::KLObjective<HS>>(tr.c(),ok); int k2=wrong(r,n->nc); std::vector<double> cc(k2,0.1),gg(k2,0); invalid(c,"Objective-coeffs",w,[&]{ (*o)(k2,cc.data(),r.b()?gg.data():nullptr,m); }); } } }
static void adaptCase(Ctx& c){ Rng& r=c.rng; int out=r.i(1,3),in=out+r.i(0,1); Arr tr=rnd(r,in,12),te=rnd(r,in,8); auto raw=tr.raw(); auto ok=gauss(r,out); auto o=std::make_shared<mpart::KLObjective<HS>>(tr.c(),te.c(),ok); auto ms=std::make_shared<std::vector<mpart::MultiIndexSet>>(); for(int j=0;j<out;++j) ms->push_back(mpart::MultiIndexSet::CreateTotalOrder(in-out+j+1,r.i(0,1))); mpart::ATMOptions op; op.maxSize=12; op.maxPatience=2; op.opt_maxeval=5;
  int k=r.i(0,4); std::string key; if(k==0){ ms->pop_back(); key="too-few-sets"; } else if(k==1){ ms->push_back(mpart::MultiIndexSet::CreateTotalOrder(in+1,1)); key="too-many-sets"; } else if(k==2){ int j=r.i(0,out-1); ms->clear(); for(int q=0;q<out;++q) ms->push_back(mpart::MultiIndexSet::CreateTotalOrder(in-out+q+1+(q==j?r.i(1,2):0),1)); key="set-length"; } else if(k==3){ int L=wrong(r,in,1); op.maxDegrees=mpart::MultiIndex(std::vector<unsigned>(L,3)); key="maxDegrees"; } else { ms->clear(); int sh=r.pick({1,2}); for(int q=0;q<out;++q) ms->push_back(mpart::MultiIndexSet::CreateTotalOrder(in-out+q+1+sh,0)); key="shifted-lengths"; }
  c.describe("adaptive "+key+" in "+std::to_string(in)+" out "+std::to_string(out)); Watch w; w.add([=]{ std::vector<double> s; for(auto&x:*ms){ auto t=setState(x); s.insert(s.end(),t.begin(),t.end()); } return s; }); w.add(gSnap(ok,out,rnd(r,out,2))); invalid(c,"Adaptive-"+key,w,[&]{ mpart::TrainMapAdaptive<HS>(*ms,o,op); });
  if(k==0){ std::vector<mpart::MultiIndexSet> none; Watch w2; invalid(c,"Adaptive-no-sets",w2,[&]{ mpart::TrainMapAdaptive<HS>(none,o,op); }); } c.check(raw==tr.raw(),"changed:data","training data changed"); }
// options of the single component search
static void inverseOptions(Ctx& c){ Rng& r=c.rng; typedef mpart::MultivariateExpansionWorker<mpart::ProbabilistHermite,HS> E; int d=r.i(1,3); mpart::FixedMultiIndexSet<HS> ms(d,2); E ex=E(ms,mpart::ProbabilistHermite()); mpart::AdaptiveSimpson<HS> q(20,1,nullptr,1e-8,1e-8,mpart::QuadError::First,0); typedef mpart::MonotoneComponent<E,mpart::SoftPlus,mpart::AdaptiveSimpson<HS>,HS> MC; auto m=std::make_shared<MC>(ex,q); 
  int nc=m->numCoeffs; std::vector<double> co(nc); for(auto&v:co) v=0.3*r.n(); m->SetCoeffs(Kokkos::View<const double*,HS>(kvec(co))); int N=r.i(1,3); Arr x=rnd(r,d,N),y=rnd(r,1,N),cf=Arr({co},nc,0); c.describe(S()<<"component inverse options d"<<d<<" c="<<vstr(co)); 
  mpart::StridedVector<const double,HS> cv=m->Coeffs(); auto inv=[&](std::map<std::string,std::string> o,int ny,int no,int nx)->std::vector<double>{ Arr X(d,nx,1); for(int j=0;j<nx;++j) for(int i=0;i<d;++i) X.at(i,j)=x.at(i,j%N); Arr Y(1,ny,1),O(1,no,1); for(int j=0;j<ny;++j) Y.at(0,j)=y.at(0,j%N); m->InverseImpl<Kokkos::DefaultHostExecutionSpace>(X.c(),Y.crowv(),cv,O.rowv(),o); return O.cols().empty()?std::vector<double>():flat(O.cols()); };
  Watch w; w.add([&]{ return inv({},N,N,N); }); w.add([&]{ return inv({{"xtol","1e-4"},{"ytol","1e-9"},{"Method","Bracket"}},N,N,1); });
  switch(r.i(0,5)){ case 0: invalid(c,"Inverse-method",w,[&]{ inv({{"Method",r.pick({std::string("Newton"),std::string("bracket"),std::string("")})}},N,N,N); }); break; case 1: invalid(c,"Inverse-xtol",w,[&]{ inv({{"xtol","-1e-8"}},N,N,N); }); break; case 2: invalid(c,"Inverse-ytol",w,[&]{ inv({{"ytol","-3"}},N,N,N); }); break;
    case 3: invalid(c,"Inverse-notol",w,[&]{ inv({{"ytol","0"},{"xtol",r.b()?"0":"1e-20"}},N,N,N); }); break; case 4: invalid(c,"Inverse-columns",w,[&]{ inv({},N,N,N+1+r.i(0,3)); }); break; default: invalid(c,"Inverse-output",w,[&]{ inv({},N,wrong(r,N),N); }); } }
static void solverCase(Ctx& c){ Rng& r=c.rng; int d=r.i(1,5); c.describe(S()<<"solver "<<d); Kokkos::View<double**,Kokkos::LayoutLeft,HS> A("A",d,d); for(int i=0;i<d;++i) A(i,i)=1; int z=r.i(0,d-1); A(z,z)=r.pick({-1.0,-1e-3,-1e6}); Watch w; invalid(c,"Cholesky-indefinite",w,[&]{ mpart::Cholesky<HS> ch; ch.compute(A); }); }
static void c23(Ctx& c){ int k=c.rng.i(0,99); if(k<30) mapCase(c); else if(k<42) unsetCase(c); else if(k<58) buildCase(c); else if(k<72) setCase(c); else if(k<88) distCase(c); else if(k<93) adaptCase(c); else if(k<97) inverseOptions(c); else solverCase(c); }
static Reg r23("C23",c23);
int main(int argc,char** argv){ Kokkos::initialize(argc,argv); int rc=run_main(argc,argv); Kokkos::finalize(); return rc; }
