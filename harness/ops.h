// Random programs over the public interface whose results are written to the case log, so that different executions of
// the same program (other thread counts and schedules, other contents of fresh memory) can be compared afterwards.
//   H <label> <hash>        must be bitwise equal in every execution
//   A <label> <values...>   must agree up to the rounding of a sum taken in another order
//   R <label> <hash>        must be bitwise equal in executions with the same number of threads
#pragma once
#include "invsafe.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/TransportDistributionFactory.h"
#include "MParT/MapObjective.h"
#include "MParT/TrainMap.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/Quadrature.h"
#include "MParT/Utilities/LinearAlgebra.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include <sstream>
#include <iomanip>
typedef std::shared_ptr<mpart::DensityBase<HS>> DenP; typedef std::shared_ptr<mpart::SampleGenerator<HS>> SamP; typedef mpart::ParameterizedFunctionBase<HS> PF;
struct Quiet { std::ostringstream a,b; std::streambuf *x,*y; Quiet(){ x=std::cout.rdbuf(a.rdbuf()); y=std::cerr.rdbuf(b.rdbuf()); } ~Quiet(){ std::cout.rdbuf(x); std::cerr.rdbuf(y); } };
struct ProgOpt { bool big=false; /* large batches, for several threads */ bool odd=false; /* empty batches, odd options, large sets */ int maxN=64; };
struct Sink { Ctx& c; int n=0; 
  static std::string word(std::string s){ for(auto&k:s) if(k==' ') k='_'; return s; }
  static uint64_t hash(std::vector<double> const& v){ uint64_t h=1469598103934665603ull^v.size(); for(double d:v){ uint64_t b; if(std::isnan(d)) b=0x7ff8; else { if(d==0) d=0; std::memcpy(&b,&d,8); } h=mix(h^b); } return h; }
  void put(const char* k,std::string const& l,std::vector<double> const& v){ std::ostringstream o; o<<k<<" "<<n++<<":"<<word(l)<<" "<<std::hex<<hash(v); c.raw(o.str()); c.eval(); c.count("results"); c.count("values",v.size()); }
  void exact(std::string const& l,std::vector<double> const& v){ put("H",l,v); }
  void repeat(std::string const& l,std::vector<double> const& v){ put("R",l,v); }
  void exact(std::string const& l,Cols const& v){ std::vector<double> f={double(v.size())}; for(auto&x:v) f.insert(f.end(),x.begin(),x.end()); exact(l,f); }
  void approx(std::string const& l,std::vector<double> const& v){ std::ostringstream o; o<<"A "<<n++<<":"<<word(l)<<std::setprecision(17); for(double d:v) o<<" "<<d; c.raw(o.str()); c.eval(); c.count("results"); c.count("values",v.size()); }
  void approx(std::string const& l,Cols const& v){ std::vector<double> f; for(auto&x:v) f.insert(f.end(),x.begin(),x.end()); approx(l,f); } };
static bool hasLDC(Node const& n){
  if(auto p=dynamic_cast<Tri const*>(&n)){ for(auto&b:p->b) if(!hasLDC(*b)) return false; return true; }
  if(auto p=dynamic_cast<Compos const*>(&n)){ for(size_t k=0;k<p->b.size();++k) if(!hasLDC(*p->b[k])||!p->b[k]->hasLogdetInputGrad()) return false; return true; }
  return true; }
static bool savable(Node const& n){ if(auto t=dynamic_cast<TriX const*>(&n)){ if(t->single) return false; for(auto&b:t->b) if(!savable(*b)) return false; return true; } return dynamic_cast<CompX const*>(&n)!=nullptr; }
// cheap enough for thousands of points
static void tame(Node const& n){ walk(n,0,[](CompX const& c0,int){ auto& c=const_cast<CompX&>(c0); if(c.q.type==0) return; c.q.maxSub=std::min<decltype(c.q.maxSub)>(c.q.maxSub,8); c.q.minSub=std::min<decltype(c.q.minSub)>(c.q.minSub,2); c.q.abs=c.q.rel=std::max(c.q.abs,1e-7); c.opts=toOptions(c); }); }
static void oddOptions(Rng& r,Node const& n){ walk(n,0,[&](CompX const& c0,int){ auto& c=const_cast<CompX&>(c0); if(r.b(0.5)) return; if(c.q.type==0) c.q.pts=r.pick({1,1,2,3,30,64}); else { c.q.maxSub=r.pick({0,1,2,3,40}); c.q.minSub=r.i(0,std::min<int>(c.q.maxSub,4)); c.q.pts=r.pick({4,5,33,70}); c.q.abs=r.pick({1e-6,1e-2,1e-12}); c.q.rel=r.pick({1e-6,1e-2,1e-12}); } c.opts=toOptions(c); }); }
static bool make(Ctx& c,ProgOpt const& po,GenOpt const& g,Instance& I,int N,std::function<bool(Node const&)> ok={}){ Rng& r=c.rng; for(int t=0;t<40;++t){ NodeP n=genMap(r,g); if(ok&&!ok(*n)) continue; if(po.odd&&!dynamic_cast<TriX const*>(n.get())) oddOptions(r,*n); if(po.big) tame(*n); if(auto q=dynamic_cast<TriX*>(n.get())) if(q->factory&&po.odd) continue; if(genInstance(r,n,N,I)) return true; } c.count("no_instance"); return false; }
static int batch(Rng& r,ProgOpt const& po){ if(po.odd) return r.pick({0,0,1,1,2,3,7,16,33,64,257}); return po.big? r.pick({1,2,3,4,5,7,8,9,13,16,17,31,33,64}) : r.i(1,5); }
static Cols some(Rng& r,Cols const& b,int N){ Cols o; for(int j=0;j<N;++j) o.push_back(b[r.next()%b.size()]); return o; }
static Cols funCols(std::shared_ptr<PF> f,int op,Arr const& x,Arr const& s,int kout,double fill){ int N=x.C; Arr o(op==0? f->outputDim : op==1? f->inputDim : f->numCoeffs,N,kout); o.fill(fill); if(op==0) f->EvaluateImpl(x.c(),o.m()); else if(op==1) f->GradientImpl(x.c(),s.c(),o.m()); else f->CoeffGradImpl(x.c(),s.c(),o.m()); return o.cols(); }

static void mapProg(Ctx& c,ProgOpt const& po,Sink& out){ Rng& r=c.rng; GenOpt g; g.forInverse=r.b(0.6); g.maxTerms= po.odd&&r.b(0.2)? 25:8; g.maxCoef=30; if(po.odd&&r.b(0.2)){ g.maxDim=7; g.maxOrder=2; } if(po.odd&&r.b(0.2)){ g.maxOrder=9; g.maxTerms=6; g.maxDim=3; }
  Instance I; int nb=r.i(1,5); if(!make(c,po,g,I,nb)) return; Node& n=*I.n; c.describe("map "+descr(n)+" c="+vstr(I.c)+" x0="+vstr(I.x[0])); c.cover("map"+shape(n));
  MapP m=buildWith(n,I.c); int K=r.i(3,8); bool inv= g.forInverse; if(inv) for(auto&x:I.x) if(!invSafe(n,x,I.c)){ inv=false; break; }
  Cols Y; if(inv) Y=run(m,n,EVAL,I.x,{},Mode());
  for(int k=0;k<K;++k){ int N=batch(r,po); Op op=Op(r.i(0,6)); if(op==LDC&&!hasLDC(n)) op=GRAD; if(op==LDI&&!n.hasLogdetInputGrad()) op=CGRAD; if(op==INV&&!inv) op=EVAL; if((op==CGRAD||op==LDC)&&n.nc==0) op=LOGDET; Mode md=genMode(r);
    std::vector<int> id; for(int j=0;j<N;++j) id.push_back(r.i(0,nb-1)); Cols X,Sn; int p=n.inDim-n.outDim;
    for(int j:id){ if(op==INV){ X.push_back(std::vector<double>(I.x[j].begin(),I.x[j].begin()+p)); Sn.push_back(Y[j]); } else X.push_back(I.x[j]); }
    if(op==GRAD||op==CGRAD) Sn=genSens(r,n.outDim,std::max(N,1)),Sn.resize(N);
    out.exact(S()<<opName[op]<<"/"<<md.api<<"/"<<N,run(m,n,op,X,Sn,md)); c.count(opName[op]);
    if(op==INV&&r.b(0.3)) if(auto t=std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(m)){ Arr full(n.inDim,N,md.kin),rr(Sn,n.outDim,md.ksens); for(int j=0;j<N;++j) for(int i=0;i<n.inDim;++i) full.at(i,j)= i<p? X[j][i] : 0.0; t->InverseInplace(full.m(),rr.m()); out.exact(S()<<"InverseInplace/"<<N,full.cols()); }
    if(r.b(0.1)){ std::vector<double> c2=I.c; for(auto&v:c2) v*=0.5; setCoeffs(m,c2); out.exact("Evaluate-halved",run(m,n,EVAL,I.x,{},md)); setCoeffs(m,I.c); } }
  if(r.b(0.15)&&savable(n)){ std::stringstream s; m->Save(s); auto l=std::dynamic_pointer_cast<mpart::ConditionalMapBase<HS>>(PF::Load(s)); Mode md=genMode(r); out.exact("reloaded",run(l,n,EVAL,I.x,{},md)); } }

struct G { Arr mean,cov; int d=0; std::shared_ptr<mpart::GaussianSamplerDensity<HS>> g; };
static G genGauss(Rng& r,int d){ G o; o.d=d; int k=r.i(0,3); o.mean=Arr(1,d,r.pick({0,1,2,4})); for(int i=0;i<d;++i) o.mean.at(0,i)=r.n(); if(k>=2){ o.cov=Arr(d,d,r.i(0,5)); std::vector<std::vector<double>> L(d,std::vector<double>(d)); for(int i=0;i<d;++i) for(int j=0;j<=i;++j) L[i][j]= i==j? r.u(0.5,2):0.4*r.n(); for(int i=0;i<d;++i) for(int j=0;j<d;++j){ double s=0; for(int q=0;q<=std::min(i,j);++q) s+=L[i][q]*L[j][q]; o.cov.at(i,j)=s; } }
  typedef mpart::GaussianSamplerDensity<HS> T; o.g= k==0? std::make_shared<T>((unsigned)d) : k==1? std::make_shared<T>(o.mean.rowv()) : k==2? std::make_shared<T>(o.cov.m()) : std::make_shared<T>(o.mean.rowv(),o.cov.m()); return o; }
static std::vector<double> vec(Kokkos::View<double*,HS> const& v){ std::vector<double> o; for(size_t i=0;i<v.extent(0);++i) o.push_back(v(i)); return o; }
static void denOps(Sink& out,std::string const& nm,mpart::DensityBase<HS>& d,Arr const& x,bool grad,Rng& r){ int N=x.C;
  if(r.b()){ Arr o(1,N,r.pick({0,1,2,4})); o.fill(r.pick({0.0,1e10})); d.LogDensityImpl(x.c(),o.rowv()); out.approx(nm+"LogDensityImpl",o.cols()); } else out.approx(nm+"LogDensity",vec(d.LogDensity(x.c())));
  if(grad){ if(r.b()){ Arr o(d.Dim(),N,r.i(0,5)); if(o.R!=x.R) o=Arr(x.R,N,r.i(0,5)); o.fill(r.pick({0.0,7.0})); d.LogDensityInputGradImpl(x.c(),o.m()); out.approx(nm+"InputGradImpl",o.cols()); } else { auto v=d.LogDensityInputGrad(x.c()); out.approx(nm+"InputGrad",colsOf(v)); } } }
static void distProg(Ctx& c,ProgOpt const& po,Sink& out){ Rng& r=c.rng; GenOpt g; g.needLogdetInputGrad=true; g.forInverse=true; g.maxTerms=6; g.maxCoef=18; g.maxDim=3; Instance I; int nb=r.i(1,4); if(!make(c,po,g,I,nb)) return; Node& n=*I.n; bool sq=n.inDim==n.outDim; bool inv=true; for(auto&x:I.x) if(!invSafe(n,x,I.c)){ inv=false; break; }
  MapP m=buildWith(n,I.c); G a=genGauss(r,n.outDim); int d0= po.odd&&r.b(0.2)? r.i(6,40) : r.i(1,5); G b=genGauss(r,d0); c.describe("distribution "+descr(n)+" c="+vstr(I.c)+" dim "+std::to_string(d0)); c.cover("dist"+shape(n));
  int N=batch(r,po); Arr x(d0,N,r.i(0,5)); for(int j=0;j<N;++j) for(int i=0;i<d0;++i) x.at(i,j)=r.n(); denOps(out,"gauss-",*b.g,x,true,r);
  N=batch(r,po); Arr X(some(r,I.x,N),n.inDim,r.i(0,5)); auto pb=std::make_shared<mpart::PullbackDensity<HS>>(m,a.g); denOps(out,"pullback-",*pb,X,true,r); if(n.nc&&hasLDC(n)){ auto v=pb->LogDensityCoeffGrad(X.c()); out.approx("pullback-CoeffGrad",colsOf(v)); }
  if(sq&&inv){ Cols Y=run(m,n,EVAL,I.x,{},Mode()); int N2=batch(r,po); Arr Z(some(r,Y,N2),n.outDim,r.i(0,5)); mpart::PushforwardDensity<HS> pf(m,a.g); denOps(out,"pushforward-",pf,Z,false,r); }
  unsigned seed=r.next(); int Ns= po.big||po.odd? r.pick({0,1,5,64,500}) : 3; b.g->SetSeed(seed); if(r.b()){ auto v=b.g->Sample(Ns); out.repeat("Sample",Sink::hash({})? [&]{ std::vector<double> f; for(auto&q:colsOf(v)) f.insert(f.end(),q.begin(),q.end()); return f; }() : std::vector<double>()); } else { Arr o(d0,Ns,r.i(0,5)); b.g->SampleImpl(o.m()); std::vector<double> f; for(auto&q:o.cols()) f.insert(f.end(),q.begin(),q.end()); out.repeat("SampleImpl",f); } }
static void funcProg(Ctx& c,ProgOpt const& po,Sink& out){ Rng& r=c.rng; int d=r.i(1, po.odd? 6:4), od=r.i(1,4); std::shared_ptr<PF> f; std::string nm;
  if(r.b(0.35)){ int rows=r.i(1,d); bool b=r.b(); Arr A(rows,d,r.i(0,5)); for(int i=0;i<rows;++i) for(int j=0;j<d;++j) A.at(i,j)=r.n(); Arr bb(1,rows,r.pick({0,1,2,4})); bb.fill(r.n()); if(b) f=std::make_shared<mpart::AffineFunction<HS>>(A.m(),bb.rowv()); else f=std::make_shared<mpart::AffineFunction<HS>>(A.m()); nm=S()<<"affine function "<<rows<<"x"<<d; }
  else { mpart::MapOptions o; o.basisType=mpart::BasisTypes(r.i(0,2)); o.basisNorm=r.b(); if(r.b(0.4)){ o.basisLB=-r.u(0.3,3); o.basisUB=r.u(0.3,3); } Multis ms=genMultis(r,d,po.odd?30:10,po.odd&&d<3?12:3); f=mpart::MapFactory::CreateExpansion<HS>(od,fixedSet(ms,r.b(0.2)),o); nm=S()<<"expansion "<<od<<" of "<<gen::show(ms).substr(0,400); std::vector<double> co(f->numCoeffs); for(auto&v:co) v=r.n(); f->SetCoeffs(Kokkos::View<const double*,HS>(kvec(co))); }
  c.describe(nm); c.cover(nm); int K=r.i(2,4); for(int k=0;k<K;++k){ int N=batch(r,po), op=r.i(0,2); if(op==2&&f->numCoeffs==0) op=1; Arr x(d,N,r.i(0,5)),s(f->outputDim,N,r.i(0,5)); for(int j=0;j<N;++j){ for(int i=0;i<d;++i) x.at(i,j)=1.3*r.n(); for(unsigned i=0;i<f->outputDim;++i) s.at(i,j)=r.n(); } out.exact(S()<<"function-op"<<op<<"/"<<N,funCols(f,op,x,s,r.i(0,5),r.pick({0.0,3.0,1e300}))); } }
static void objProg(Ctx& c,ProgOpt const& po,Sink& out){ Rng& r=c.rng; GenOpt g; g.maxTerms=5; g.maxCoef=12; g.maxDim=3; Instance I; int nb=r.i(2,5); if(!make(c,po,g,I,nb,[](Node const& n){ bool bad=false; walk(n,0,[&](CompX const& q,int){ if(q.r==EXPR) bad=true; }); return n.nc>0&&!bad&&hasLDC(n); })) return; Node& n=*I.n; tame(n); int N=std::max(1,batch(r,po)); Arr tr(some(r,I.x,N),n.inDim,r.i(0,5)),te(some(r,I.x,3),n.inDim,r.i(0,5)); G a=genGauss(r,n.outDim);
  auto o=std::make_shared<mpart::KLObjective<HS>>(tr.c(),te.c(),a.g); MapP m=buildWith(n,I.c); c.describe("objective "+descr(n)+" c="+vstr(I.c)+" N="+std::to_string(N)); c.cover("obj"+shape(n));
  std::vector<double> co=I.c,gr(n.nc,-1); out.approx("TrainError",std::vector<double>{o->TrainError(m)}); out.approx("TestError",std::vector<double>{o->TestError(m)}); double v=(*o)(n.nc,co.data(),gr.data(),m); out.approx("objective",std::vector<double>{v}); out.approx("objective-grad",gr);
  if(r.b(0.4)&&std::isfinite(v)){ mpart::TrainOptions t; t.opt_alg=r.pick({"LD_SLSQP","LD_LBFGS","LD_MMA"}); t.opt_maxeval=r.pick({1,4,12}); t.verbose=0; double e; { Quiet q; e=mpart::TrainMap<HS>(m,o,t); } auto k=vec(m->Coeffs()); k.push_back(e); out.repeat("TrainMap/"+t.opt_alg,k); c.count("trainings"); } }
static void adaptProg(Ctx& c,ProgOpt const& po,Sink& out){ Rng& r=c.rng; int o=r.i(1,2),in=o+r.i(0,1),N=r.i(6,20); Cols P,Q; for(int j=0;j<N;++j){ auto p=genPoint(r,in); P.push_back(p); if(j<6){ for(auto&v:p) v+=0.1*r.n(); Q.push_back(p); } } Arr tr(P,in,r.i(0,5)),te(Q,in,r.i(0,5)); auto ob=mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(tr.c(),te.c(),o); std::vector<mpart::MultiIndexSet> ms; for(int j=0;j<o;++j) ms.push_back(mpart::MultiIndexSet::CreateTotalOrder(in-o+j+1,r.i(0,1)));
  mpart::ATMOptions op; op.maxSize=r.i(o,3*o+4); op.maxPatience=r.i(1,3); op.opt_maxeval=6; op.basisLB=-3; op.basisUB=3; op.verbose=0; c.describe(S()<<"adaptive in "<<in<<" out "<<o<<" N="<<N); c.cover(S()<<"adapt"<<in<<o<<op.maxSize); MapP m; { Quiet q; m=mpart::TrainMapAdaptive<HS>(ms,ob,op); } std::vector<double> v=vec(m->Coeffs()); for(auto&s:ms){ v.push_back(s.Size()); for(unsigned i=0;i<s.Size();++i) for(auto q:s[i].Vector()) v.push_back(q); } out.repeat("TrainMapAdaptive",v); c.count("adaptive_runs"); (void)po; }
static void setProg(Ctx& c,ProgOpt const& po,Sink& out){ Rng& r=c.rng; int d=r.i(1,po.odd?7:5),p=r.i(0,d>4?2:d>2?4: po.odd? 20:8); c.describe(S()<<"sets dimension "<<d<<" order "<<p); c.cover(S()<<"set"<<d<<"/"<<p);
  auto dump=[&](std::string const& nm,mpart::FixedMultiIndexSet<HS> const& f){ std::vector<double> v={double(f.Size()),double(f.Length())}; auto D=f.MaxDegrees(); for(size_t i=0;i<D.extent(0);++i) v.push_back(D(i)); for(unsigned i=0;i<f.Size();++i){ auto t=f.IndexToMulti(i); for(auto q:t) v.push_back(q); std::vector<unsigned> u(t.begin(),t.end()); v.push_back(f.MultiToIndex(u)); } out.exact(nm,v); };
  mpart::FixedMultiIndexSet<HS> f(d,p); dump("FixedTotalOrder",f); auto s=mpart::MultiIndexSet::CreateTotalOrder(d,p); dump("Fix",s.Fix(r.b())); auto t=mpart::MultiIndexSet::CreateTensorProduct(d,d>3?1:p>6?6:p); dump("FixTensor",t.Fix(r.b()));
  for(int k=0;k<3;++k){ int q=r.i(0,3); if(q==0) s.Expand(); else if(q==1&&s.Size()) { std::vector<unsigned> e; for(unsigned i=0;i<s.Size();++i) if(s.IsExpandable(i)) e.push_back(i); if(!e.empty()) s.Expand(r.pick(e)); } else if(q==2) s+=t; else { auto M=s.ReducedMargin(); if(!M.empty()) s+=r.pick(M); } if(s.Size()>600) break; } dump("grown",s.Fix(r.b())); 
  { auto e=mpart::MultiIndexSet::CreateTotalOrder(d,p,mpart::MultiIndexLimiter::MaxDegree(std::max(p-1,1),d)); dump("diag",e.Fix(true)); } { Multis ms=genMultis(r,d,12,6); dump("list",fixedSet(ms,r.b())); } }
static void linProg(Ctx& c,ProgOpt const& po,Sink& out){ Rng& r=c.rng; int n=r.i(1, po.odd||po.big? 40:6), k=r.i(po.odd?0:1,5); c.describe(S()<<"linear algebra "<<n<<" rhs "<<k); c.cover(S()<<"lin"<<n<<"/"<<k); typedef Kokkos::View<double**,Kokkos::LayoutLeft,HS> LV; typedef Kokkos::View<const double**,Kokkos::LayoutLeft,HS> CLV; LV A("A",n,n),Sp("S",n,n); for(int i=0;i<n;++i) for(int j=0;j<n;++j) A(i,j)=r.n()+(i==j?3*std::sqrt(double(n)):0); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ double s=0; for(int q=0;q<n;++q) s+=A(i,q)*A(j,q); Sp(i,j)=s; } Arr B(n,k,r.i(0,5)); for(int i=0;i<n;++i) for(int j=0;j<k;++j) B.at(i,j)=r.n();
  { mpart::PartialPivLU<HS> lu; lu.compute(CLV(A)); out.exact("lu-solve",colsOf(lu.solve(B.c()))); out.exact("lu-det",std::vector<double>{lu.determinant()}); LV X("X",n,k); for(int i=0;i<n;++i) for(int j=0;j<k;++j) X(i,j)=B.at(i,j); lu.solveInPlace(X); out.exact("lu-inplace",colsOf(X)); }
  { mpart::Cholesky<HS> ch; ch.compute(CLV(Sp)); out.exact("chol-solve",colsOf(ch.solve(B.c()))); { LV X("X",n,k); for(int i=0;i<n;++i) for(int j=0;j<k;++j) X(i,j)=B.at(i,j); ch.solveInPlaceL(X); out.exact("chol-solveL",colsOf(X)); } out.exact("chol-det",std::vector<double>{ch.determinant()}); }
  Arr M(r.i(1,9),batch(r,po),r.i(0,5)); for(int i=0;i<M.R;++i) for(int j=0;j<M.C;++j) M.at(i,j)=r.n(); std::vector<double> o1(M.R,-1),o0(M.C,-1); mpart::ReduceDim<mpart::ReduceDimMap::sum,HS,1> a(M.m(),0.5); Kokkos::parallel_reduce(M.C,a,o1.data()); out.approx("reduce-sum1",o1); mpart::ReduceDim<mpart::ReduceDimMap::norm,HS,0> b(M.m(),-0.5); Kokkos::parallel_reduce(M.R,b,o0.data()); out.approx("reduce-norm0",o0); }
static void program(Ctx& c,ProgOpt const& po){ Sink out{c}; int k=c.rng.i(0,99); if(k<48) mapProg(c,po,out); else if(k<64) distProg(c,po,out); else if(k<76) funcProg(c,po,out); else if(k<84) objProg(c,po,out); else if(k<86) adaptProg(c,po,out); else if(k<93) setProg(c,po,out); else linProg(c,po,out); }
